"""Contracts of gutil_inotify.c.

The kernel: a read delivers whole events one after another, NE of them, in NB bytes: event k starts at byte 4*Q(k), its
fields are WD(k), MASK(k), COOKIE(k), 4*LQ(k) (the length of the name). Ghost state of gutil_inotify_read: ke - number
of events dealt with, ph - 1 between looking up the watch of an event and delivering it, held - references held."""
from gvc.spec import *
from gvc.core import PtrV, IntV, Node, ARR, ARR2, atom
from gvc.stubs import STUBS

SRC = ['gutil_inotify']
IS, WS, ES = 'gutil_inotify', 'gutil_inotify_watch', 'inotify_event'
(READ, CHSHUT, CHUNREF, CLOSE, TDESTROY, SRCREM, TINS, TREM, WADD, WRM, ONEW, PFIN, IUNREF, INEW, CONN, DISC, REFO, UNREFO, LOG) = range(140, 159)
FN = lambda n: z3.Function(n, INT, INT)
WD, MASK, COOKIE, LQ, Q = [FN(n) for n in ('WD', 'MASK', 'COOKIE', 'LQ', 'Q')]


def quiet(c):
    nop = lambda eng, st, av, ins: [(st, None)]
    c.eng.contracts = dict(c.eng.contracts, gutil_log=nop, g_error_free=nop,
                           g_strerror=lambda eng, st, av, ins: [(st, c.opaque_err)], strerror=lambda eng, st, av, ins: [(st, c.opaque_err)])
    c.opaque_err = c.opaque('strerror')


class Ino:
    def __init__(self, c, ref=None):
        self.c, self.eng = c, c.eng
        self.p = c.struct(IS)
        self.size = c.eng.struct_size(IS)[1]
        self.ref = c.int('ref', 32, 1, 2**30) if ref is None else ref
        c.set(self.p, IS, 'ref_count', self.ref)
        self.fd = c.int('fd', 32, 0)
        c.set(self.p, IS, 'fd', self.fd)
        self.table, self.channel = c.opaque('table'), c.opaque('channel')
        c.set(self.p, IS, 'watches', self.table)
        c.set(self.p, IS, 'io_channel', self.channel)
        self.wid = c.int('watch_id', 32, 0, unsigned=True)
        c.set(self.p, IS, 'io_watch_id', self.wid)
        quiet(c)


@spec('gutil_inotify_read', ['N01'], SRC)
def _(run):
    for what in ('events', 'error', 'nothing'):
        c = run.case(what)
        n = Ino(c)
        eng = c.eng
        ne, nb = c.nat('NE', 0, 2**20), c.nat('NB', 0, 2**32)
        err = c.block('gerror', L(16), kinds={4, 'P'})
        c.set_mem(PtrV(err.b, 8), c.opaque('message'))
        k = z3.Const('k?', INT)
        c.require(And(Q(0) == 0, Q(ne.z) * 4 == nb.z, ne.z == 0 if what != 'events' else True))
        c.require(forall(lambda k: And(LQ(k) >= 0, LQ(k) <= 64, Q(k) >= 0, Q(k + 1) == Q(k) + 4 + LQ(k), Q(k) + 4 + LQ(k) <= Q(ne.z)), 0, ne, pats=lambda k: Q(k)))
        for f in (WD, MASK, COOKIE):
            c.require(forall(lambda k: And(f(k) >= -2**31, f(k) < 2**31), pats=lambda k: f(k)))
        st0 = c.st
        st0.g['ke'], st0.g['ph'], st0.g['held'], st0.g['w'] = Lin(0), Lin(0), Lin(0), Lin(0)
        G = {}

        def read(eng, st, av, ins):
            ob = lambda s, x: eng.oblige(st, s, x, ins)
            v = View(eng, st)
            ob('the channel is read once', st.g['evn'].z == 0)
            ob('from the channel of the object', av[0].b.z == n.channel.b.z)
            b, o, cnt = av[1].b, av[1].o, eng.uv(st, av[2])
            SZ = st.blk('SZ', Lin(0))
            ob('the buffer is large enough for what is read', And(v.alive(av[1]), o.z >= 0, o.z + cnt.z <= SZ[b.z]))
            ob('the buffer has room for any event', cnt.z >= 16 + 255 + 1)
            ob('aligned', o.z % 4 == 0)
            st.emit(READ)
            st.add(nb.z <= cnt.z)
            if not (av[3].b.const() == 0):
                c2 = View(eng, st)
                st.store(8, av[3].b, av[3].o.div(8), nb)
            if what == 'error':
                st.store('PB', av[4].b, av[4].o.div(8), err.b)
                st.store('PO', av[4].b, av[4].o.div(8), Lin(0))
            old, new = st.blk(4, b), eng.fresh('buf', ARR)
            base = o.div(4)
            lo, hi = base.z, base.z + (cnt.z + 3) / 4
            st.setblk(4, b, new)
            st.pc.append(forall(lambda i: Implies(Or(i < lo, i >= hi), new[i] == old[i]), pats=lambda i: new[i]))
            st.pc.append(forall(lambda k: And(new[lo + Q(k)] == WD(k), new[lo + Q(k) + 1] == MASK(k), new[lo + Q(k) + 2] == COOKIE(k), new[lo + Q(k) + 3] == 4 * LQ(k)), 0, ne, pats=lambda k: Q(k)))
            G['b'], G['lo'], G['n'] = av[1], base, av[3]
            r = eng.fresh_int('status', 32)
            st.add(r.s.z == {'events': 1, 'error': 0, 'nothing': 3}[what])
            return [(st, r)]

        def lookup(eng, st, av, ins):
            ob = lambda s, x: eng.oblige(st, s, x, ins)
            ke = st.g['ke'].z
            ob('a watch is looked up for an event', And(st.g['ph'].z == 0, ke >= 0, ke < ne.z))
            ob('in the table of the object', And(av[0].b.z == n.table.b.z, n.p.b.z != 0))
            ob('by the watch descriptor of the event', And(av[1].b.z <= 0, av[1].o.z == WD(ke)))
            out = []
            w = eng.fresh('watch', INT)
            st.add(And(w.z >= 0, w.z < 1000000, Or(w.z == 0, w.z >= 10000)))
            for s, has in eng.fork(st, BoolV(w.z != 0)):
                if has:
                    s.g['w'], s.g['ph'] = atom(w.z), Lin(1)
                    out.append((s, PtrV(atom(w.z), 0)))
                else:
                    s.g['ke'] = s.g['ke'] + 1
                    out.append((s, NULL))
            return out

        def ref(eng, st, av, ins):
            eng.oblige(st, 'a reference is taken to the watch of the event before it is delivered', And(st.g['ph'].z == 1, av[0].b.z == st.g['w'].z), ins)
            st.g['held'] = st.g['held'] + 1
            return [(st, av[0])]

        def unref(eng, st, av, ins):
            eng.oblige(st, 'only references which were taken are dropped', And(st.g['held'].z >= 1, av[0].b.z == st.g['w'].z), ins)
            st.g['held'] = st.g['held'] - 1
            return [(st, None)]

        def emit(eng, st, av, ins):
            ob = lambda s, x: eng.oblige(st, s, x, ins)
            ke = st.g['ke'].z
            ob('delivered once, to the watch of the event', And(st.g['ph'].z == 1, av[0].b.z == st.g['w'].z, av[0].o.z == 0))
            ob('as the event signal', And(eng.sv(st, av[1]).z == c.signal, eng.sv(st, av[2]).z == 0) if len(av) == 6 else z3.BoolVal(False))
            ob('with its mask and cookie', And(eng.sv(st, av[3]).z == MASK(ke), eng.sv(st, av[4]).z == COOKIE(ke)))
            b, lo = G['b'], G['lo'].z
            ob('with its name, if it has one', If(LQ(ke) > 0, And(av[5].b.z == b.b.z, av[5].o.z == 4 * (lo + Q(ke) + 4)), And(av[5].b.z == 0, av[5].o.z == 0)))
            st.g['ph'], st.g['ke'] = Lin(0), st.g['ke'] + 1
            # whatever the callbacks do: watches come and go, references to the object too
            r = eng.fresh_int('ref', 32)
            st.add(r.s.z >= 1)
            mod, off, sz = eng.field(IS, 'ref_count')
            st.store(4, n.p.b, (n.p.o + off).div(4), r.s)
            return [(st, None)]
        sig = c.int('signal_id', 32)
        c.set_mem(glob(c, 'gutil_inotify_watch_signals', 4), sig)
        c.signal = eng.sv(c.st, sig).z
        c.eng.contracts = dict(c.eng.contracts, g_io_channel_read_chars=read, g_hash_table_lookup=lookup, g_object_ref=ref, g_object_unref=unref, g_signal_emit=emit,
                               gutil_inotify_watch_get_type=lambda eng, st, av, ins: [(st, eng.fresh_int('type', 64))])

        def inv(hv):
            g = lambda h, k: h.st.g[k].z
            out = [('=between events', lambda h: And(g(h, 'ph') == 0, g(h, 'held') == 0, g(h, 'ke') >= 0, g(h, 'ke') <= ne.z))]
            if 'n' in G and G['n'].b.const() != 0:
                left = lambda h: h.st.get(8, G['n'].b, G['n'].o.div(8)).z
                out.append(('bytes left', lambda h: left(h) == 4 * (Q(ne.z) - Q(g(h, 'ke')))))
                out.append(('bytes read', lambda h: left(h) == nb.z))
            for nm, v in hv.ints():
                out.append(('%s bytes are left' % nm, lambda h, nm=nm: h.s(h.phis[nm]) == 4 * (Q(ne.z) - Q(g(h, 'ke')))))
                out.append(('%s bytes are done' % nm, lambda h, nm=nm: h.s(h.phis[nm]) == 4 * Q(g(h, 'ke'))))
            for nm, v in hv.ptrs():
                out.append(('%s is the next event' % nm, lambda h, nm=nm: And(h.phis[nm].b.z == G['b'].b.z, h.phis[nm].o.z == 4 * (G['lo'].z + Q(g(h, 'ke'))))))
            return out
        c.inv('*', inv)
        for o in c.call('gutil_inotify_read', n.p):
            g = lambda k: o.st.g[k].z
            o.ensure('read once', o.evn == 1)
            o.ensure('every event is dealt with', And(g('ke') == ne.z, g('ph') == 0))
            o.ensure('no reference is kept', g('held') == 0)
            o.ensure('FALSE only for an error', o.truth() == z3.BoolVal(what != 'error'))
            o.ensure('the object is otherwise left alone', And(*[o.p(n.p, IS, f).b.z == v.b.z for f, v in (('watches', n.table), ('io_channel', n.channel))]))


def iostubs(c, fdok=True):
    """what creating an object needs of GLib and the kernel"""
    eng = c.eng
    c.newfd, c.newtable, c.newchan = c.int('newfd', 32, 0 if fdok else -1, 2**31 - 1 if fdok else -1), c.opaque('newtable'), c.opaque('newchannel')
    c.srcid = c.int('newid', 32, 1, 2**32 - 1, unsigned=True)
    nop = lambda eng, st, av, ins: [(st, None)]

    def chan(eng, st, av, ins):
        eng.oblige(st, 'the channel reads the new descriptor', eng.sv(st, av[0]).z == eng.sv(st, c.newfd).z, ins)
        return [(st, c.newchan)]

    def add_watch(eng, st, av, ins):
        eng.oblige(st, 'the channel of the object', av[0].b.z == c.newchan.b.z, ins)
        eng.oblige(st, 'woken up by input and by errors', eng.sv(st, av[1]).z == 1 + 8 + 16 + 32, ins)
        st.emit(IOADD, av[2].b, av[3].b, av[3].o)
        return [(st, c.srcid)]
    c.errno = c.block('errno', L(4), kinds={4})
    c.set_mem(c.errno, c.int('errno_v', 32))
    c.eng.contracts = dict(c.eng.contracts, inotify_init=lambda eng, st, av, ins: [(st, c.newfd)], inotify_init1=lambda eng, st, av, ins: [(st, c.newfd)], g_io_channel_unix_new=chan,
                           g_io_channel_set_encoding=lambda eng, st, av, ins: [(st, eng.iconst(32, 1))], g_io_channel_set_buffered=nop,
                           g_hash_table_new_full=lambda eng, st, av, ins: [(st, c.newtable)], g_hash_table_new=lambda eng, st, av, ins: [(st, c.newtable)],
                           g_io_add_watch=add_watch, __errno_location=lambda eng, st, av, ins: [(st, c.errno)], **teardown(c))


def teardown(c):
    def destroy(eng, st, av, ins):
        st.emit(TDESTROY, av[0].b)
        return [(st, None)]

    def srcrem(eng, st, av, ins):
        eng.oblige(st, 'the id of the source is not zero', eng.uv(st, av[0]).z != 0, ins)
        st.emit(SRCREM, eng.uv(st, av[0]))
        return [(st, eng.iconst(32, 1))]

    def chunref(eng, st, av, ins):
        st.emit(CHUNREF, av[0].b)
        return [(st, None)]

    def shut(eng, st, av, ins):
        st.emit(CHSHUT, av[0].b)
        return [(st, eng.iconst(32, 1))]

    def close(eng, st, av, ins):
        st.emit(CLOSE, eng.sv(st, av[0]))
        return [(st, eng.iconst(32, 0))]
    return dict(g_hash_table_destroy=destroy, g_hash_table_unref=destroy, g_source_remove=srcrem, g_io_channel_unref=chunref, g_io_channel_shutdown=shut, close=close)


IOADD = 160


def events(o):
    """the recorded calls of an outcome as (code, arguments) - their number is the same on every run of this path"""
    n = o.st.g['evn'].const()
    return [(o.st.get('E0', Lin(0), L(i)).const(), [o.ev(i, k) for k in (1, 2, 3)]) for i in range(n)]


def only(o, want):
    """exactly these calls, in any order; want: list of (code, [argument terms])"""
    es = events(o)
    if sorted(e[0] for e in es) != sorted(w[0] for w in want) or len({w[0] for w in want}) != len(want):
        return z3.BoolVal(False)
    out = []
    for code, args in want:
        e = [x for x in es if x[0] == code][0]
        out += [a == b for a, b in zip(e[1], args)]
    return And(*out) if out else z3.BoolVal(True)


def gone(n, fd, table, chan):
    return [(CHSHUT, [chan]), (CHUNREF, [chan]), (CLOSE, [fd]), (TDESTROY, [table])]


@spec('gutil_inotify_watch_new', ['N01'], SRC, fns=['gutil_inotify_watch_new', 'gutil_inotify_new', 'gutil_inotify_create', 'gutil_inotify_add_watch', 'gutil_inotify_ref', 'gutil_inotify_unref'])
def _(run):
    f = 'gutil_inotify_watch_new'
    for inst in ('shared', 'first', 'none available'):
        for added in (True, False):
            if inst == 'none available' and added:
                continue
            c = run.case('%s, %s' % (inst, 'watched' if added else 'refused'))
            n = Ino(c, ref=c.int('ref', 32, 1, 2**30))
            iostubs(c, inst != 'none available')
            g = glob(c, 'gutil_inotify_instance', 8)
            c.set_mem(g, n.p if inst == 'shared' else NULL)
            path, mask, dup = c.opaque('path'), c.int('mask', 32), c.opaque('dup')
            wd = c.int('wd', 32, 0 if added else -1, 2**31 - 1 if added else -1)
            ws = c.struct(WS)
            z = lambda v: c.eng.sv(c.st, v).z

            def add(eng, st, av, ins):
                eng.oblige(st, 'asks for the path and the mask', And(av[1].b.z == path.b.z, av[1].o.z == path.o.z, eng.sv(st, av[2]).z % 2**32 == z(mask) % 2**32), ins)
                st.emit(WADD, eng.sv(st, av[0]))
                return [(st, wd)]

            def strdup(eng, st, av, ins):
                eng.oblige(st, 'the path is copied', And(av[0].b.z == path.b.z, av[0].o.z == path.o.z), ins)
                return [(st, dup)]

            def insert(eng, st, av, ins):
                st.emit(TINS, av[0].b, av[1].o, av[2].b)
                return [(st, eng.iconst(32, 1))]

            def onew(eng, st, av, ins):
                st.emit(ONEW)
                return [(st, ws)]
            c.eng.contracts = dict(c.eng.contracts, inotify_add_watch=add, g_strdup=strdup, g_strdup_inline=strdup, g_hash_table_insert=insert, g_hash_table_replace=insert, g_object_new=onew,
                                   gutil_inotify_watch_get_type=lambda eng, st, av, ins: [(st, eng.fresh_int('type', 64))])
            for o in c.call(f, path, mask):
                i = o.mem_p(g)
                fd = z(n.fd) if inst == 'shared' else z(c.newfd)
                table = (n.table if inst == 'shared' else c.newtable).b.z
                if inst == 'none available':
                    o.ensure('no watch and nothing is left', And(o.null(), o.evn == 0, i.b.z == 0))
                    continue
                io = [e for e in events(o) if e[0] == IOADD]
                ioe = [] if inst == 'shared' else [(IOADD, [])]
                if not added:
                    o.ensure('no watch', o.null())
                    if inst == 'shared':
                        o.ensure('the shared object is as it was', And(i.b.z == n.p.b.z, o.alive(n.p), o.i(n.p, IS, 'ref_count') == z(n.ref), only(o, [(WADD, [fd])])))
                    else:
                        o.ensure('the new object is gone', And(i.b.z == 0, only(o, [(WADD, [fd]), (IOADD, []), (SRCREM, [c.eng.uv(c.st, c.srcid).z])] + gone(n, fd, table, c.newchan.b.z))))
                    continue
                o.ensure('a new watch', And(o.ret_is(ws), o.i(ws, WS, 'wd') == z(wd), o.i(ws, WS, 'mask') % 2**32 == z(mask) % 2**32, o.p(ws, WS, 'path').b.z == dup.b.z, o.p(ws, WS, 'inotify').b.z == i.b.z, i.b.z != 0, i.o.z == 0))
                o.ensure('asked for once, and in the table under its descriptor', only(o, [(WADD, [fd]), (ONEW, []), (TINS, [table, z(wd), ws.b.z])] + ioe))
                if inst == 'shared':
                    o.ensure('which the shared object holds', And(i.b.z == n.p.b.z, o.alive(n.p), o.i(n.p, IS, 'ref_count') == z(n.ref) + 1))
                else:
                    o.ensure('which the new object holds', And(o.alive(i), o.i(i, IS, 'ref_count') == 1, o.i(i, IS, 'fd') == fd, o.p(i, IS, 'watches').b.z == table, o.p(i, IS, 'io_channel').b.z == c.newchan.b.z,
                                                               o.i(i, IS, 'io_watch_id') % 2**32 == c.eng.uv(c.st, c.srcid).z))
                    o.ensure('woken up with the new object', And(len(io) == 1, io[0][1][1] == i.b.z) if io else z3.BoolVal(False))
    c = run.case('no path')
    iostubs(c)
    c.set_mem(glob(c, 'gutil_inotify_instance', 8), NULL)
    for o in c.call(f, NULL, c.int('mask', 32)):
        o.ensure('nothing happens', And(o.null(), o.evn == 0))


def watch(c, n, wd=None):
    w = c.struct(WS)
    c.wwd = c.int('wd', 32, 0) if wd is None else wd
    c.set(w, WS, 'wd', c.wwd)
    c.set(w, WS, 'inotify', n.p)
    c.wpath = c.block('path', c.nat('pathsize', 1, 2**40), kinds={1})
    c.set(w, WS, 'path', c.wpath)
    c.set(w, WS, 'mask', c.int('mask', 32))
    c.set(w, WS, 'parent', c.anyptr('parent'))

    def trem(eng, st, av, ins):
        st.emit(TREM, av[0].b, av[1].o)
        return [(st, eng.fresh_int('removed', 32))]

    def rm(eng, st, av, ins):
        st.emit(WRM, eng.sv(st, av[0]), eng.sv(st, av[1]))
        return [(st, eng.fresh_int('rm', 32))]

    def objop(code):
        def f(eng, st, av, ins):
            eng.oblige(st, 'the watch', And(av[0].b.z == w.b.z, av[0].o.z == 0), ins)
            st.emit(code, av[0].b)
            return [(st, av[0] if code == REFO else None)]
        return f
    c.eng.contracts = dict(c.eng.contracts, g_hash_table_remove=trem, inotify_rm_watch=rm, g_object_ref=objop(REFO), g_object_unref=objop(UNREFO),
                           gutil_inotify_watch_get_type=lambda eng, st, av, ins: [(st, eng.fresh_int('type', 64))], **teardown(c))
    return w


def stopped(c, n, w):
    z = lambda v: c.eng.sv(c.st, v).z
    return [(TREM, [n.table.b.z, z(c.wwd)]), (WRM, [z(n.fd), z(c.wwd)])]


@spec('gutil_inotify_watch lifetime', ['N01', 'W01'], SRC, fns=['gutil_inotify_watch_destroy', 'gutil_inotify_watch_stop', 'gutil_inotify_watch_finalize', 'gutil_inotify_watch_ref', 'gutil_inotify_watch_unref',
                                                             'gutil_inotify_unref', 'gutil_inotify_remove_watch'])
def _(run):
    f = 'gutil_inotify_watch_'
    for x in ('ref', 'unref', 'destroy'):
        c = run.case(x + ' of NULL')
        watch(c, Ino(c))
        for o in c.call(f + x, NULL):
            o.ensure('nothing happens', And(o.evn == 0, o.null() if x == 'ref' else True))
    for x in ('ref', 'unref', 'destroy', 'destroy stopped'):
        c = run.case(x)
        n = Ino(c)
        w = watch(c, n, c.int('nowd', 32, -1, -1) if 'stopped' in x else None)
        for o in c.call(f + x.split()[0], w):
            if x == 'ref':
                o.ensure('one reference more', And(o.ret_is(w), only(o, [(REFO, [])])))
            elif x == 'unref':
                o.ensure('one reference less', only(o, [(UNREFO, [])]))
            elif x == 'destroy':
                o.ensure('out of the table and of the kernel, one reference less', only(o, stopped(c, n, w) + [(UNREFO, [])]))
                o.ensure('the reference goes last', z3.BoolVal(events(o)[-1][0] == UNREFO))
                o.ensure('and not again', o.i(w, WS, 'wd') < 0)
            else:
                o.ensure('stopped only once', only(o, [(UNREFO, [])]))
            if 'destroy' in x:
                o.ensure('the object is kept', And(o.alive(n.p), o.i(n.p, IS, 'ref_count') == c.eng.sv(c.st, n.ref).z))
    for st in ('active', 'stopped'):
        for last in (False, True):
            for wid in ((0, 1) if last else (1,)):
                c = run.case('finalize %s%s%s' % (st, ', last' if last else '', '' if wid else ', not woken up any more'))
                n = Ino(c, ref=c.int('ref', 32, 1 if last else 2, 1 if last else 2**30))
                w = watch(c, n, c.int('nowd', 32, -1, -1) if st == 'stopped' else None)
                c.require(c.eng.uv(c.st, n.wid).z >= 1 if wid else c.eng.uv(c.st, n.wid).z == 0)
                g = glob(c, 'gutil_inotify_instance', 8)
                inst = c.anyptr('instance')
                c.set_mem(g, inst)
                c.require(And(inst.o.z == 0, Implies(inst.b.z == n.p.b.z, inst.o.z == 0)))
                cls = c.block('parent_class', L(c.eng.struct_size('_GObjectClass')[1]), kinds={4, 8, 'P'})
                pf = c.opaque('parent_finalize')
                c.set(cls, '_GObjectClass', 'finalize', pf)
                c.set_mem(glob(c, 'gutil_inotify_watch_parent_class', 8), cls)

                def chain(eng, s, p, av, rt, ins):
                    eng.oblige(s, 'only the finalizer of the parent class is called', And(p.b.z == pf.b.z, p.o.z == pf.o.z), ins)
                    eng.oblige(s, 'for this object', And(av[0].b.z == w.b.z, av[0].o.z == 0), ins)
                    s.emit(PFIN)
                    return [(s, None)]
                c.st.user['indirect'] = chain
                for o in c.call(f + 'finalize', w):
                    z = lambda v: c.eng.sv(c.st, v).z
                    want = (stopped(c, n, w) if st == 'active' else []) + [(PFIN, [])]
                    if last:
                        want += gone(n, z(n.fd), n.table.b.z, n.channel.b.z) + ([(SRCREM, [c.eng.uv(c.st, n.wid).z])] if wid else [])
                    o.ensure('stopped once, its share of the object released, the parent class last', And(only(o, want), z3.BoolVal(events(o)[-1][0] == PFIN)))
                    o.ensure('the path is freed', Not(o.alive(c.wpath)))
                    if last:
                        o.ensure('the object is freed', Not(o.alive(n.p)))
                        o.ensure('and not shared any more', o.mem_p(g).b.z == If(inst.b.z == n.p.b.z, 0, inst.b.z))
                        if st == 'active':
                            es = [e[0] for e in events(o)]
                            o.ensure('the watch goes before the descriptor', z3.BoolVal(es.index(WRM) < es.index(CLOSE) and es.index(TREM) < es.index(TDESTROY)))
                    else:
                        o.ensure('the object has one reference less', And(o.alive(n.p), o.i(n.p, IS, 'ref_count') == z(n.ref) - 1, o.mem_p(g).b.z == inst.b.z))


@spec('gutil_inotify_callback', ['N01'], SRC, fns=['gutil_inotify_callback', 'gutil_inotify_ref', 'gutil_inotify_unref'])
def _(run):
    def go(cc):
        n = Ino(cc)
        iostubs(cc)
        cc.set_mem(glob(cc, 'gutil_inotify_instance', 8), NULL)
        cc.eng.contracts = dict(cc.eng.contracts, inotify_add_watch=lambda eng, st, av, ins: [(st, eng.iconst(32, -1))])
        return cc.callee_events('gutil_inotify_watch_new', [cc.opaque('path'), cc.int('mask', 32)], IOADD, 1)
    fs = run.scout(go)
    if len(fs) != 1:
        raise Unsupported('callback of the source not identified')
    f = sorted(fs)[0]
    for cond in ('input', 'error', 'neither'):
        for ok in ((True, False) if cond == 'input' else (None,)):
            for died in ((False, True) if cond == 'input' else (False,)):
                c = run.case('%s%s%s' % (cond, '' if ok is None else ', read' if ok else ', not read', ', last watch destroyed meanwhile' if died else ''))
                n = Ino(c)
                c.require(c.eng.uv(c.st, n.wid).z >= 1)
                cnd = c.int('condition', 32, 0, 63)
                z = c.eng.sv(c.st, cnd).z
                bit = lambda k: (z / k) % 2 == 1
                bad = Or(bit(8), bit(16), bit(32))
                c.require(bad if cond == 'error' else And(Not(bad), bit(1) if cond == 'input' else Not(bit(1))))
                g = glob(c, 'gutil_inotify_instance', 8)
                c.set_mem(g, n.p)

                def read(eng, st, av, ins):
                    v = View(eng, st)
                    eng.oblige(st, 'the object is read', And(av[0].b.z == n.p.b.z, v.alive(av[0])), ins)
                    eng.oblige(st, 'and held meanwhile', v.i(n.p, IS, 'ref_count') > eng.sv(c.st, n.ref).z, ins)
                    st.emit(READ)
                    # the callbacks destroy watches, and create new ones
                    own = v.i(n.p, IS, 'ref_count') - eng.sv(c.st, n.ref).z
                    r = eng.fresh_int('ref', 32)
                    st.add(r.s.z == own if died else And(r.s.z > own, r.s.z < 2**30))
                    c.left = r.s.z - own
                    mod, off, sz = eng.field(IS, 'ref_count')
                    st.store(4, n.p.b, (n.p.o + off).div(4), r.s)
                    return [(st, eng.iconst(32, int(ok)))]
                c.eng.contracts = dict(c.eng.contracts, gutil_inotify_read=read, **teardown(c))
                for o in c.call(f, c.opaque('channel_arg'), cnd, n.p):
                    fd, t, ch = c.eng.sv(c.st, n.fd).z, n.table.b.z, n.channel.b.z
                    o.ensure('stays while it works', o.truth() == z3.BoolVal(bool(ok)))
                    if died:
                        o.ensure('the object is freed', Not(o.alive(n.p)))
                        o.ensure('completely; a source which goes away by itself is not removed', only(o, [(READ, [])] + gone(n, fd, t, ch) + ([(SRCREM, [c.eng.uv(c.st, n.wid).z])] if ok else [])))
                        o.ensure('and not shared any more', o.mem_p(g).b.z == 0)
                    else:
                        o.ensure('read once, if there is something to read', only(o, [(READ, [])] if cond == 'input' else []))
                        o.ensure('the object is kept', And(o.alive(n.p), o.i(n.p, IS, 'ref_count') == (c.left if cond == 'input' else c.eng.sv(c.st, n.ref).z)))
                        o.ensure('a source which goes away is forgotten', o.i(n.p, IS, 'io_watch_id') % 2**32 == (c.eng.uv(c.st, n.wid).z if ok else 0))


@spec('gutil_inotify handlers', ['N01'], SRC, fns=['gutil_inotify_watch_add_handler', 'gutil_inotify_watch_remove_handler', 'gutil_inotify_watch_callback_new', 'gutil_inotify_watch_callback_free'])
def _(run):
    f, CB = 'gutil_inotify_watch_', 'gutil_inotify_watch_callback'

    def setup(c):
        n = Ino(c)
        w = watch(c, n)
        sid = c.nat('id', 1, 2**64 - 1)

        def conn(eng, st, av, ins):
            eng.oblige(st, 'the event signal', z3.BoolVal(literal(eng, av[1]) == b'gutil-inotify-watch-event'), ins)
            if len(av) == 6:
                eng.oblige(st, 'called as it is', And(eng.sv(st, av[5]).z == 0, av[4].b.z == 0), ins)
            eng.oblige(st, 'the instance', And(av[0].b.z == w.b.z, av[0].o.z == 0), ins)
            st.emit(CONN, av[2].b, av[3].b, av[3].o)
            return [(st, IntV(64, u=sid))]

        def disc(eng, st, av, ins):
            eng.oblige(st, 'the instance', And(av[0].b.z == w.b.z, av[0].o.z == 0), ins)
            eng.oblige(st, 'the id is not zero', eng.uv(st, av[1]).z != 0, ins)
            st.emit(DISC, eng.uv(st, av[1]))
            return [(st, None)]

        def new(eng, st, av, ins):
            eng.oblige(st, 'for the given path and mask', And(av[0].b.z == c.path.b.z, av[0].o.z == c.path.o.z, eng.sv(st, av[1]).z % 2**32 == eng.sv(c.st, c.mask).z % 2**32), ins)
            st.emit(ONEW)
            return [(st, c.newwatch)]
        c.eng.contracts = dict(c.eng.contracts, g_signal_connect_data=conn, g_signal_handler_disconnect=disc, gutil_inotify_watch_new=new)
        return n, w, sid
    for what in ('watch', 'no watch', 'no function'):
        c = run.case('add_handler, ' + what)
        n, w, sid = setup(c)
        cb, arg = c.callback('fn'), c.anyptr('arg')
        for o in c.call(f + 'add_handler', NULL if what == 'no watch' else w, NULL if what == 'no function' else cb, arg):
            if what == 'watch':
                o.ensure('connected once', And(only(o, [(CONN, [cb.b.z, arg.b.z, arg.o.z])]), c.eng.uv(o.st, o.ret).z == sid.z))
            else:
                o.ensure('nothing happens', And(o.evn == 0, c.eng.uv(o.st, o.ret).z == 0))
    for what in ('watch', 'no watch', 'no handler'):
        c = run.case('remove_handler, ' + what)
        n, w, sid = setup(c)
        for o in c.call(f + 'remove_handler', NULL if what == 'no watch' else w, IntV(64, u=L(0) if what == 'no handler' else sid)):
            o.ensure('disconnected once' if what == 'watch' else 'nothing happens', only(o, [(DISC, [sid.z])] if what == 'watch' else []))
    for got in (True, False):
        for fn in (True, False):
            c = run.case('callback_new, %s, %s' % ('watched' if got else 'refused', 'function' if fn else 'no function'))
            n, w, sid = setup(c)
            c.path, c.mask, c.newwatch = c.anyptr('pathp'), c.int('newmask', 32), w if got else NULL
            cb, arg = c.callback('fn') if fn else NULL, c.anyptr('arg')
            for o in c.call(f + 'callback_new', c.path, c.mask, cb, arg):
                if not got:
                    o.ensure('no callback', And(o.null(), only(o, [(ONEW, [])])))
                    continue
                r = o.ret
                o.ensure('a new object which holds the watch', And(o.alive(r), r.o.z == 0, o.p(r, CB, 'watch').b.z == w.b.z))
                o.ensure('connected once', And(only(o, [(ONEW, [])] + ([(CONN, [cb.b.z, arg.b.z, arg.o.z])] if fn else [])), o.st.get(8, r.b, L(1)).z % 2**64 == (sid.z if fn else 0)))
    c = run.case('callback_free of NULL')
    setup(c)
    for o in c.call(f + 'callback_free', NULL):
        o.ensure('nothing happens', o.evn == 0)
    for fn in (True, False):
        c = run.case('callback_free' + ('' if fn else ', no function'))
        n, w, sid = setup(c)
        cb = c.struct(CB)
        c.set(cb, CB, 'watch', w)
        c.set(cb, CB, 'id', IntV(64, u=sid if fn else L(0)))
        for o in c.call(f + 'callback_free', cb):
            o.ensure('freed', Not(o.alive(cb)))
            o.ensure('disconnected, the watch dropped', only(o, [(UNREFO, [])] + ([(DISC, [sid.z])] if fn else [])))
