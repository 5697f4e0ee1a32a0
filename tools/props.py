"""The properties (source of properties.jsonl and MANIFEST.json: run tools/gen.py after editing)."""
PROPS = []


def p(id, title, statement, over, quant, why, files, mech, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, na=na))


IN, HI = ['inputs'], ['histories', 'inputs']

p('R01', 'Ring buffer is an exact double-ended queue',
  'After any sequence of ring operations the elements, read by position, by taking them from either end or as a flat array, are exactly those put and not yet removed, in order, wherever the buffer wrapped, grew or was compacted. Taking or dropping more than there is removes what there is and reports the exact number; positions outside the contents give nothing.',
  HI, 'Every valid ring state (any allocation, start, wrap position, size) and every argument value.',
  'The tests use rings of a few elements and a few wrap positions; the index arithmetic must be right for every start/size/allocation combination.',
  ['src/gutil_ring.c'], [('put/get/drop/flatten/data_at/reserve/compact', 'gutil_ring.c')])
p('R02', 'A ring never exceeds its maximum size and refuses exactly when full',
  'A ring with a limit never holds more elements than the limit whatever was reserved; a put succeeds if and only if the limit allows it, and the "can put N" answer agrees with what N puts would do for every N. Lowering the limit drops exactly the oldest surplus elements.',
  HI, 'Every valid ring state, every limit, every count (to the ends of the integer range).',
  'Limits near the integer maximum and reserved sizes above the limit are outside the sampled values.',
  ['src/gutil_ring.c'], [('can_put/put/put_front/set_max_size/reserve', 'gutil_ring.c')])
p('R03', 'Ring elements are released exactly once, and only when dropped by the ring',
  'With a free function set, each element which the ring drops, clears or holds when its last reference goes is passed to that function exactly once, in order; elements handed to the caller are never passed to it. The storage itself is released exactly when the last reference is dropped.',
  HI, 'Every valid ring state and operation, with and without a free function.',
  'A leak or a double release needs a particular start/size/wrap combination; the tests try a handful.',
  ['src/gutil_ring.c'], [('drop/drop_last/clear/unref/set_max_size', 'gutil_ring.c')])
p('I01', 'Integer array edits leave exactly the expected contents',
  'Every insert, append, prepend, remove and range removal leaves precisely the elements the operation describes, in order (the fast removals may move only the last element), reports exactly what it removed or found, and touches nothing for a position or range outside the array. Converting or freeing the array hands over exactly its contents, and no array operation dereferences a missing array.',
  HI, 'Every array content and size, every position and count including values whose sum overflows.',
  'Positions and counts near the unsigned maximum and arrays with many repeated values are outside the sampled cases.',
  ['src/gutil_intarray.c'], [('insert/remove/remove_range/find/remove_all', 'gutil_intarray.c')])
p('I02', 'Sorting an integer array orders all values, whatever their magnitude',
  'Sorting puts the same multiset of values in ascending (or descending) numerical order for every possible content, including values whose difference does not fit in an int.',
  IN, 'Every array content over the full int range.',
  'The comparison must be a consistent total order for all pairs of ints; tests compare a few small numbers.',
  ['src/gutil_intarray.c'], [('sort comparators', 'gutil_intarray.c')])
p('I03', 'Immutable integer arrays share, slice and release data correctly',
  'An immutable array (or a slice of one) always shows the values it was created from; a slice is exactly the part of its parent inside the requested range for every offset and count, and keeps the parent alive. Each data block is released exactly once, when its last user goes, through the function given for it, and data handed to the caller is always the caller\'s own.',
  HI, 'Every creation mode, reference history, offset and count.',
  'Offsets and counts whose sum overflows, and every mix of owners and slices, cannot be enumerated by tests.',
  ['src/gutil_ints.c'], [('new_from_ints/unref/unref_to_data', 'gutil_ints.c')])
p('I04', 'Integer array lookups, equality, hash and ordering agree',
  'Lookup finds the first position of a value exactly when it occurs; equality holds exactly for the same length and values; equal arrays hash equally; and the comparison is zero exactly for equal arrays, antisymmetric, and puts a proper prefix before the longer array.',
  IN, 'Every pair of contents (including NULL) and every value.',
  'Consistency between equality, hash and ordering is a relation over all pairs.',
  ['src/gutil_ints.c'], [('find/contains/equal/hash/compare', 'gutil_ints.c')])
p('M01', 'Hexadecimal conversion is exact and total',
  'Encoding gives two digits of the chosen case for each byte and nothing else; decoding accepts exactly the non-empty even-length strings of hex digits of either case and yields the bytes they denote, so that decoding an encoding restores the data. Anything else is rejected, and no byte beyond the output is written.',
  IN, 'Every byte string and every character string of every length.',
  'Tests decode a few strings; each of the 65536 character pairs at every position must be right.',
  ['src/gutil_misc.c'], [('gutil_hex2bin, gutil_bin2hex, gutil_hex2bytes', 'gutil_misc.c')])
p('M02', 'Strict integer parsing',
  'A string is accepted exactly when, apart from surrounding white space, all of it is one number in the given base that fits the result type (for unsigned results without any minus sign), and then the result is that number. Otherwise the result variable is left alone, and the input is never modified nor memory leaked.',
  IN, 'Every string, base and result type.',
  'Boundary, sign, white space and trailing-garbage combinations are unbounded.',
  ['src/gutil_misc.c'], [('gutil_parse_int/uint/int64/uint64', 'gutil_misc.c')])
p('M03', 'Byte block comparisons are exact and stay inside the blocks',
  'Equality, prefix and suffix tests on data blocks, byte arrays and ranges are true exactly when the bytes say so, with the documented answers for missing and empty operands; skipping a prefix advances a range exactly past a prefix that is there. No byte outside the operands is read.',
  IN, 'Every pair of blocks of every length, including empty and missing ones.',
  'Length relations (shorter, equal, longer, zero) times contents are unbounded.',
  ['src/gutil_misc.c'], [('gutil_data_*, gutil_bytes_*, gutil_range_*', 'gutil_misc.c')])
p('M04', 'Concatenation and XOR of byte arrays',
  'Concatenation yields the bytes of all arguments in order, for any number of arguments and any mix of empty ones; XOR yields the bytewise XOR over the shorter length. Arguments are left as they were and references are balanced.',
  IN, 'Every number of arguments, sizes and contents.',
  'The word-at-a-time loop, its tail, and the number of variadic arguments vary without bound.',
  ['src/gutil_misc.c'], [('gutil_bytes_concat, gutil_bytes_xor', 'gutil_misc.c')])
p('M05', 'Copies of data blocks and pointer vectors are complete and independent',
  'A copied block has the same size and bytes as the original in memory of its own, for sizes beyond 32 bits too; a missing block copies to a missing or empty one. The length of a pointer vector is the number of entries before its terminator, and freeing one releases every entry and the vector exactly once.',
  IN, 'Every block size and content; every vector length.',
  'Size truncation shows only on blocks no test allocates.',
  ['src/gutil_misc.c'], [('gutil_data_new/copy, gutil_memdup, gutil_ptrv_*', 'gutil_misc.c')])
p('M06', 'Hex dump lines show exactly the data',
  'A hex dump line has the fixed layout: two digits for each of up to sixteen bytes, blanks for the missing ones, then the printable characters with dots for the rest; it fits the documented buffer, is terminated, reads no byte beyond the data and returns how many bytes it showed. Dumping a block through the log covers every byte once, in order, and ends for every size.',
  IN, 'Every content and every size.',
  'All 256 byte values at 16 positions for 17 lengths, and sizes beyond 32 bits.',
  ['src/gutil_misc.c', 'src/gutil_log.c'], [('gutil_hexdump', 'gutil_misc.c'), ('gutil_log_dump', 'gutil_log.c')])
p('M07', 'Clean-up helpers act once and tolerate absent arguments',
  'Disconnecting signal handlers disconnects each non-zero id of the given ones exactly once and clears it, touching no other; source removal removes exactly a non-zero id and clearing also zeroes it; object helpers change the reference count by one and pass the object through. Absent arguments are ignored.',
  IN, 'Every array length and id pattern, every source id.',
  'The id patterns and lengths are unbounded.',
  ['src/gutil_misc.c'], [('gutil_disconnect_handlers, gutil_source_*, gutil_object_*', 'gutil_misc.c')])
p('D01', 'Multi-byte unsigned integers survive the round trip',
  'Every unsigned 64-bit value is encoded in the minimal number of 7-bit groups, most significant first, exactly as many bytes as the size function says, and decoding gives back the value and consumes exactly those bytes. Decoding gives exactly the value its groups denote for every well-formed encoding and fails for one that does not fit in 64 bits.',
  IN, 'All 64-bit values and all byte strings.',
  'Boundaries of every 7-bit group and the 10-byte overflow limit; tests sample a dozen values.',
  ['src/gutil_datapack.c'], [('gutil_unsigned_mbn_size/encode/decode', 'gutil_datapack.c')])
p('D02', 'Multi-byte signed integers survive the round trip',
  'Every signed 64-bit value is encoded in the minimal number of 7-bit groups that preserves its sign, exactly as many bytes as the size function says, and decoding gives back the value and consumes exactly those bytes. Encodings whose value does not fit in 64 signed bits are rejected.',
  IN, 'All 64-bit values and all byte strings.',
  'Sign extension boundaries at every group and the 10-byte limit; tests sample a few values.',
  ['src/gutil_datapack.c'], [('gutil_signed_mbn_size/encode/decode', 'gutil_datapack.c')])
p('D03', 'Decoders never look outside their input and are all-or-nothing',
  'No decoder reads a byte outside the given range, whatever the bytes, including truncated, over-long and hostile ones. A failed decoding leaves the range where it was, and a successful one advances it exactly past what was decoded and never beyond its end.',
  IN, 'All byte ranges of all lengths.',
  'Memory safety over arbitrary hostile input cannot be sampled.',
  ['src/gutil_datapack.c'], [('gutil_*_decode', 'gutil_datapack.c')])
p('D04', 'Tag-length-value blocks survive the round trip',
  'Encoding a tag and a value produces exactly as many bytes as the size function says (which is exact for values shorter than 2^32 - 15 bytes), and decoding them gives back the tag and the value and consumes exactly those bytes. A block whose declared length exceeds the available data or whose tag or length is malformed is rejected.',
  IN, 'All tags, values and byte ranges.',
  'Declared lengths near the limits of the size type are outside any sampled input.',
  ['src/gutil_datapack.c'], [('gutil_tlv_size/encode/decode', 'gutil_datapack.c')])
p('D05', 'Sequences of tag-length-value blocks are decoded completely and safely',
  'Decoding a sequence of blocks delivers the exact value of each expected tag that occurs (nothing for the ones that do not) and returns the mask of the tags found (the first 31 expected tags count); a malformed block, leftover data, a repeated tag, or an unexpected tag unless those are to be skipped give their error codes. Nothing outside the input, the tags or the values is touched.',
  IN, 'All byte ranges.', 'Hostile sequences are unbounded.',
  ['src/gutil_datapack.c'], [('gutil_tlvs_decode', 'gutil_datapack.c')])
p('V01', 'String vector lookups are exact',
  'Length, indexing, last element, first and last position of a string, containment and equality of NULL-terminated string vectors give exactly what the contents say, with the documented results for missing vectors and positions outside the vector. They modify nothing and read nothing beyond the terminator.',
  IN, 'Every vector length and contents.', 'Unbounded lengths and contents; tests use a few short vectors.',
  ['src/gutil_strv.c'], [('gutil_strv_length/at/last/find/find_last/contains/equal', 'gutil_strv.c')])
p('V02', 'String vector edits keep contents, order and ownership',
  'Adding or removing strings (one, all equal to a given one, or duplicates) yields a vector holding exactly the expected strings in order and the terminator; stripping keeps the vector and strips every string of it. Removed strings are released exactly once, kept ones stay valid, and added ones are private copies. Missing vectors and positions outside are handled without effect.',
  HI, 'Every vector and position or value.', 'Shifting and reallocation must be right for every length and every set of matches.',
  ['src/gutil_strv.c'], [('gutil_strv_add/addv/remove/remove_at/remove_dups/strip', 'gutil_strv.c')])
p('V03', 'Sorting and binary search of string vectors',
  'Sorting orders the same strings ascending or descending, and binary search on a vector sorted that way finds a string exactly when it is there, without reading outside the vector.',
  IN, 'Every vector, searched string and direction.', 'The search bounds must be right for every length and position.',
  ['src/gutil_strv.c'], [('gutil_strv_sort, gutil_strv_bsearch', 'gutil_strv.c')])
p('O01', 'Object vector lookups are exact',
  'Length, indexing, first, last, find and equality on NULL-terminated object vectors give exactly what the contents say, with the documented results for missing vectors and positions outside. They take no references and read nothing beyond the terminator.',
  IN, 'Every vector length and contents.', 'Unbounded lengths and contents.',
  ['src/gutil_objv.c'], [('gutil_objv_length/at/first/last/find/contains/equal', 'gutil_objv.c')])
p('O02', 'Object vector edits keep contents, order and references',
  'Creating, copying, adding to, inserting into and removing from object vectors leaves exactly the expected objects in order, with exactly one reference held per slot: added slots take one, removed or freed ones give theirs back.',
  HI, 'Every vector and position or object.', 'Reference balance must hold for every length and every set of matches.',
  ['src/gutil_objv.c'], [('gutil_objv_new/copy/add/insert/remove/remove_at/remove_all/append/free', 'gutil_objv.c')])
p('H01', 'History keeps exactly the samples of its time window',
  'Every reading or addition first discards exactly the samples older than the interval; an addition then appends the new sample, replaces the value of the latest one if no time has passed since (or the clock went back), and discards the oldest one if the capacity is exceeded. What is left is in time order and unchanged, and the reported size and time span agree with it.',
  HI, 'Every capacity (up to 2^30), interval, non-negative clock reading and history of values.', 'Wrap-around of the circular storage and every arrangement of time stamps.',
  ['src/gutil_history.c'], [('gutil_int_history_add/size/interval/clear', 'gutil_history.c')])
p('H02', 'History median is the time-weighted mean of the window',
  'The value computed from a history is the area under the line through its samples divided by the time between the first and the last, for every history for which value times time fits in 64 bits (each trapezoid and the quotient rounded towards zero); with one sample it is that sample, with none the given default. Adding returns the same value.',
  HI, 'Every history and clock reading within the representable range.', 'Large values times long intervals overflow narrow arithmetic; tests use small ones.',
  ['src/gutil_history.c'], [('gutil_int_history_median', 'gutil_history.c')])
p('Q01', 'Idle queue runs each call once, in order, unless cancelled',
  'Calls added to an idle queue run in the order they were added, each at most once, with its own argument, all that are pending when the main loop gets to the queue and none that are added meanwhile; a cancelled call never runs afterwards; the clean-up function of each entry is called exactly once, after the call or at cancellation. This holds whatever the calls themselves do to the queue (add, cancel, take and drop references, even the last one). Freeing the queue cancels what is left; a main loop source exists exactly while something is pending.',
  HI, 'Every sequence of additions, cancellations and runs.', 'The linked list must be right for every cancellation position.',
  ['src/gutil_idlequeue.c'], [('gutil_idle_queue_add/cancel/run/free', 'gutil_idlequeue.c')])
p('Q02', 'Idle pool releases everything added to it, exactly once',
  'Each item added to an idle pool is passed to its release function exactly once, when the pool is drained or goes away, and never before; items added while the pool is draining are released too.',
  HI, 'Every sequence of additions and drains.', 'Re-entrant additions during a drain are a history no test explores exhaustively.',
  ['src/gutil_idlepool.c'], [('gutil_idle_pool_add/drain/destroy', 'gutil_idlepool.c')])
p('L01', 'Log messages are emitted exactly when their level is enabled',
  'A message is passed to the log sink if and only if its level is within the effective level of its module (its own, its parent\'s when it inherits, the global default otherwise); a disabled message or module has no effect, and an enabled message is passed on once with its level, text and module to the log function in effect (the one of the module, or else the global one). The standard log functions print it whole, once, with the documented prefixes, whatever its length.',
  ['inputs', 'configurations'], 'Every level and module configuration.', 'All combinations of module, parent and global levels.',
  ['src/gutil_log.c'], [('gutil_log/gutil_logv/gutil_log_enabled', 'gutil_log.c')])
p('L02', 'Log option parsing is exact',
  'The option module:level sets the level of precisely the named module (the first one with exactly that name, in any case of letters), the option level alone the default level; a level is a digit 0 to 5 or the beginning of a level name. An option which names an unknown module or level is rejected, with an error if one is wanted, and no level changed. A log type chosen by name (in any case of letters) can be read back; an unknown type leaves the log function alone.',
  ['inputs', 'configurations'], 'Every option string.', 'Option strings are unbounded.',
  ['src/gutil_log.c'], [('gutil_log_parse_option', 'gutil_log.c')])
p('W01', 'Reference counted objects live exactly as long as they are referenced',
  'Taking a reference returns the same object and keeps it valid; dropping one releases the object exactly when it was the last, never earlier and never twice; missing objects are ignored. A weak reference yields its object while that is alive and nothing afterwards.',
  HI, 'Every reference count and history, one thread at a time.', 'The count is unbounded and the last drop is the one that matters.',
  ['src/gutil_weakref.c', 'src/gutil_ints.c'], [('ref/unref', 'gutil_weakref.c, gutil_ints.c')])
p('N01', 'File watch events reach exactly the watches they are for',
  'Each event the kernel delivers is passed exactly once, in order, to every callback of the watch whose descriptor it carries, with its mask, cookie and name, and to no other; events of unknown descriptors are skipped without disturbing the next, nothing outside the buffer is read, and a destroyed watch gets nothing more. The shared object lives exactly as long as a watch does and then releases its descriptor, channel, source and table once.',
  HI, 'Every sequence of whole events in the buffer, every descriptor, mask, cookie and name; callbacks may create and destroy watches meanwhile. Two watches of one and the same file at a time are excluded (they share a kernel descriptor).', 'The contents of the kernel buffer are unbounded, and callbacks change the watches while it is being worked off.',
  ['src/gutil_inotify.c'], [('gutil_inotify_read', 'gutil_inotify.c')])
p('T01', 'Clock change notifications are delivered to all subscribers',
  'The timer is armed so that only a change of the real time clock wakes it; each wake-up is read off (which arms it for the next change) and then reported exactly once to every subscriber, also if one of them drops the last reference meanwhile; after an error the source is forgotten. All users share one object, and descriptor, source and channel go exactly once with its last reference.',
  HI, 'Every history of wake-ups, subscribers coming and going and references taken and dropped.', 'A missed or doubled report shows only after the clock has changed several times, which a unit test cannot do.',
  ['src/gutil_timenotify.c'], [('gutil_time_notify_callback, gutil_time_notify_init, gutil_time_notify_new', 'gutil_timenotify.c')])
p('G01', 'Version numbers pack and unpack consistently',
  'The packed version of the library equals the packing of its three numbers, orders like them, and unpacks to them; the compile-time macros agree with the functions, whatever expressions they are given.',
  IN, 'Every triple of numbers within their field widths.', 'Field widths and operator precedence over all triples.',
  ['src/gutil_version.c', 'include/gutil_version.h'], [('GLIBUTIL_VERSION_WORD, gutil_version', 'gutil_version.h')])
