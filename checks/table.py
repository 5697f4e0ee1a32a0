"""Which contracts, harness and extra checks decide each property."""
BASE_TRUST = [
    'clang-18 front end and LLVM mem2reg/loop-simplify (extraction from the C sources)',
    'the verification condition generator in gvc/ (memory model: separate blocks, no type punning beyond the modelled kinds)',
    'z3 (and cvc5 where listed as back end)']
ASSUME = [
    'allocation never fails (g_malloc aborts) and object sizes stay below 2^62 bytes',
    'atomic reference counting is verified for one thread at a time: interleavings are not explored',
    'callbacks (free functions, time functions, log functions) do not re-enter the object under call unless the contract says so',
    'release configuration (DEBUG undefined): GASSERT expands to nothing']

TECHNIQUE = 'contract-based deductive verification: contracts on the real functions, verification conditions from their LLVM IR, discharged by z3/cvc5'
NOTE = ('Every obligation of the contracts is generated from the current sources on every run and discharged for all inputs and iterations (loop invariants proved inductive, no bound). '
        'Trusted: clang front end, the verification condition generator in gvc/, the solvers, and the contracts of GLib/libc functions listed in the evidence. One thread at a time.')
PROPS = {}


def P(id, specs, harness=None, hsrcs=(), **kw):
    PROPS[id] = dict(specs=specs, harness=harness, hsrcs=list(hsrcs), **kw)


RING = ['gutil_ring']
for p in ('R01', 'R02', 'R03'):
    P(p, ['ring'], 'ring', RING)
for p in ('I01', 'I02'):
    P(p, ['intarray'], 'intarray', ['gutil_intarray', 'gutil_ints', 'gutil_misc'])
for p in ('I03', 'I04'):
    P(p, ['ints'], 'ints', ['gutil_ints', 'gutil_misc'])
for p in ('M01', 'M02', 'M03', 'M04', 'M05', 'M07'):
    P(p, ['misc'], 'misc', ['gutil_misc'])
for p in ('H01', 'H02'):
    P(p, ['history'], 'history', ['gutil_history'])
for p in ('O01', 'O02'):
    P(p, ['objv'], 'objv', ['gutil_objv', 'gutil_misc'])
for p in ('D01', 'D02', 'D03', 'D04', 'D05'):
    P(p, ['datapack'], 'datapack', ['gutil_datapack'])
for p in ('V01', 'V02', 'V03'):
    P(p, ['strv'], 'strv', ['gutil_strv', 'gutil_misc'])
P('Q01', ['idlequeue'], 'idlequeue', ['gutil_idlequeue', 'gutil_misc'], assume=[
    'callbacks of an idle queue may do anything its API lets them do (the rely in specs/idlequeue.py, Q.effect: pending items dropped, new unmarked ones appended, references taken and dropped); clean-up functions called by a cancellation do not drop the reference of its caller',
    'contract of g_idle_add(func, data): schedules func(data), returns a non-zero id',
    'contract of g_slice_free_chain_with_offset: releases the items of a well-formed list',
    'gutil_idle_queue_unref/free are verified against a contract of gutil_idle_queue_cancel_all, and the idle callback against one of gutil_idle_queue_unref'])
P('Q02', ['idlepool'], 'idlepool', ['gutil_idlepool', 'gutil_log', 'gutil_misc', 'gutil_strv'], assume=[
    'release functions of an idle pool may do anything its API lets them do (the rely in specs/idlepool.py, Pool.effect: items added, the pool drained, references taken and dropped) except dropping the reference of whoever drains; they stop adding eventually (termination of a drain)',
    'contracts of g_source_*, g_idle_source_new, g_main_context_get_thread_default, g_thread_self, g_private_get/set: recorded as events; an attached idle source calls its callback once the main loop of its context is idle, holding its data meanwhile, and its notification once when it goes',
    'contract of g_slice_free_chain_with_offset: releases the items of a well-formed list',
    'gutil_idle_pool_unref/destroy and the source callback are verified against a contract of gutil_idle_pool_drain, the typed additions against one of gutil_idle_pool_add'])
LOG = ['gutil_log', 'gutil_misc']
P('M06', ['misc', 'log'], 'log', LOG, assume=[
    'isprint is that of the C / UTF-8 locales (the table of the running libc)',
    'the text of the format string of a dump line is checked natively; under contract are its arguments (prefix, offset, line) and the calls'])
P('L01', ['log'], 'log', LOG, assume=[
    'log functions and log procs do not change modules; chains of parents are acyclic; module pointers are valid',
    'contracts of fprintf/fputs/fputc/syslog/vsyslog/g_logv/g_vsnprintf/strftime/localtime_r/time: what they print is recorded as a sequence of pieces; the length of a message is below 2^31-1'])
P('L02', ['log'], 'log', LOG, assume=[
    'the names of the modules given to gutil_log_parse_option are strings (not NULL)',
    'contracts of g_ascii_strncasecmp, g_ascii_strcasecmp, g_error_new, openlog, closelog'])
P('G01', ['version'], 'version', [], assume=[
    'the macros have no code of their own: they are verified through the instances in specs/version_wrap.c, compiled with the current header',
    'the numbers fit their fields (7, 12 and 12 bits) where the fields are compared'])
P('W01', ['weakref', 'ring', 'ints', 'history', 'idlequeue', 'idlepool', 'inotify', 'timenotify'], 'refs',
  ['gutil_weakref', 'gutil_ints', 'gutil_ring', 'gutil_history', 'gutil_idlequeue', 'gutil_idlepool', 'gutil_misc', 'gutil_log', 'gutil_strv', 'gutil_inotify', 'gutil_timenotify'], assume=[
    'GLib weak references (g_weak_ref_init/set/get/clear) are recorded calls: that a GWeakRef yields its object while that is alive is their contract',
    'the references of GObject based types (file watches, clock notifications) are those of GObject'])
P('N01', ['inotify'], 'inotify', ['gutil_inotify', 'gutil_misc', 'gutil_log'], assume=[
    'the kernel: a read of an inotify descriptor delivers whole events one after another, names (with padding) of at most 256 bytes; inotify_add_watch yields a descriptor no other watch has (two watches of one file: known finding)',
    'contracts of g_io_channel_*, g_io_add_watch, g_hash_table_*, g_object_*, g_signal_*, inotify_*: recorded calls; a hash table lookup yields the watch last inserted and not removed, an emission runs every connected handler once',
    'handlers may do anything the API lets them do (references of the shared object change arbitrarily, watches come and go)',
    'type registration and class initialisation (the signal has mask, cookie and name as arguments) are exercised natively'])
P('T01', ['timenotify'], 'timenotify', ['gutil_timenotify', 'gutil_misc', 'gutil_log'], assume=[
    'the kernel: the descriptor of a timer armed with TFD_TIMER_ABSTIME|TFD_TIMER_CANCEL_ON_SET becomes readable when the real time clock is set, and reading it prepares it for the next time (the clock is not set by the check: natively an eventfd stands in for the timer)',
    'contracts of timerfd_create, timerfd_settime, g_io_channel_*, g_io_add_watch, g_object_*, g_signal_*: recorded calls; an emission runs every connected handler once; g_object_add_weak_pointer clears the variable when the object goes',
    'handlers may do anything the API lets them do, including dropping the last reference',
    'type registration and class initialisation are exercised natively'])
