"""Contracts of gutil_timenotify.c. What the kernel does with a timer armed with TFD_TIMER_CANCEL_ON_SET (its descriptor
becomes readable when the clock is set) is the assumption; how it is armed and what is done then is under contract."""
from gvc.spec import *
from gvc.core import PtrV, IntV
from specs.inotify import events, only

SRC = ['gutil_timenotify', 'gutil_misc']
TS = 'gutil_time_notify'
(READ, CHSHUT, CHUNREF, SRCREM, IOADD, PFIN, ONEW, CONN, DISC, REFO, UNREFO, EMIT, TCREATE, TSET, WEAK) = range(170, 185)


class Tn:
    def __init__(self, c, channel=True):
        self.c, eng = c, c.eng
        self.p = c.struct(TS)
        self.channel = c.opaque('channel') if channel else NULL
        c.set(self.p, TS, 'io_channel', self.channel)
        self.wid = c.int('watch_id', 32, 0, unsigned=True)
        c.set(self.p, TS, 'io_watch_id', self.wid)
        opaque_err = c.opaque('strerror')
        nop = lambda eng, st, av, ins: [(st, None)]

        def srcrem(eng, st, av, ins):
            eng.oblige(st, 'the id of the source is not zero', eng.uv(st, av[0]).z != 0, ins)
            st.emit(SRCREM, eng.uv(st, av[0]))
            return [(st, eng.iconst(32, 1))]

        def ev(code, ret=None):
            def f(eng, st, av, ins):
                st.emit(code, av[0].b)
                return [(st, ret and ret(eng, av))]
            return f
        errno = c.block('errno', L(4), kinds={4})
        c.set_mem(errno, c.int('errno_v', 32))
        eng.contracts = dict(eng.contracts, gutil_log=nop, g_error_free=nop, g_strerror=lambda *a: [(a[1], opaque_err)], strerror=lambda *a: [(a[1], opaque_err)],
                             __errno_location=lambda *a: [(a[1], errno)], g_source_remove=srcrem, g_io_channel_unref=ev(CHUNREF), g_io_channel_shutdown=ev(CHSHUT, lambda e, a: e.iconst(32, 1)),
                             gutil_time_notify_get_type=lambda eng, st, av, ins: [(st, eng.fresh_int('type', 64))], g_object_ref=ev(REFO, lambda e, a: a[0]), g_object_unref=ev(UNREFO),
                             g_type_check_instance_cast=lambda eng, st, av, ins: [(st, av[0])])


def arming(c, n, fdok=True, setok=True):
    eng = c.eng
    c.fd, c.chan, c.id = c.int('fd', 32, 0 if fdok else -1, 2**31 - 1 if fdok else -1), c.opaque('newchannel'), c.int('newid', 32, 1, 2**32 - 1, unsigned=True)
    z = lambda st, v: eng.sv(st, v).z
    is_fd = lambda st, v: z(st, v) == z(c.st, c.fd)

    def create(eng, st, av, ins):
        eng.oblige(st, 'a timer of the real time clock', z(st, av[0]) == 0, ins)
        fl = z(st, av[1])
        eng.oblige(st, 'with valid flags', Or(fl == 0, fl == 0o4000, fl == 0o2000000, fl == 0o2004000), ins)
        st.emit(TCREATE)
        return [(st, c.fd)]

    def chan(eng, st, av, ins):
        eng.oblige(st, 'the channel reads the timer', is_fd(st, av[0]), ins)
        return [(st, c.chan)]

    def onchan(eng, st, av, ins):
        eng.oblige(st, 'the channel of the timer', av[0].b.z == c.chan.b.z, ins)
        return [(st, eng.iconst(32, 1))]

    def closing(eng, st, av, ins):
        eng.oblige(st, 'the channel of the timer', av[0].b.z == c.chan.b.z, ins)
        return [(st, None)]

    def add_watch(eng, st, av, ins):
        eng.oblige(st, 'the channel of the timer', av[0].b.z == c.chan.b.z, ins)
        eng.oblige(st, 'woken up by input and by errors', z(st, av[1]) == 1 + 8 + 16 + 32, ins)
        st.emit(IOADD, av[2].b, av[3].b, av[3].o)
        return [(st, c.id)]

    def settime(eng, st, av, ins):
        ob = lambda s, g: eng.oblige(st, s, g, ins)
        ob('the timer is armed', is_fd(st, av[0]))
        ob('at an absolute time, cancelled when the clock is set', z(st, av[1]) == 3)
        b, o = av[2].b, av[2].o.div(8)
        f = [st.get(8, b, o + i).z for i in range(4)]
        sec = lambda x: If(x >= 2**63, x - 2**64, x)
        ob('which never comes', sec(f[2]) >= 9223372036)
        ob('valid times', And(sec(f[0]) >= 0, sec(f[1]) >= 0, sec(f[1]) < 10**9, sec(f[3]) >= 0, sec(f[3]) < 10**9))
        st.emit(TSET)
        return [(st, eng.iconst(32, 0 if setok else -1))]
    eng.contracts = dict(eng.contracts, timerfd_create=create, g_io_channel_unix_new=chan, g_io_channel_set_encoding=onchan, g_io_channel_set_buffered=closing, g_io_channel_set_close_on_unref=closing,
                         g_io_add_watch=add_watch, timerfd_settime=settime)


@spec('gutil_time_notify_init', ['T01'], SRC)
def _(run):
    for fdok, setok in ((True, True), (True, False), (False, False)):
        c = run.case('armed' if setok else 'not armed' if fdok else 'no timer')
        n = Tn(c)
        c.set(n.p, TS, 'io_channel', NULL)
        c.set(n.p, TS, 'io_watch_id', c.eng.iconst(32, 0))
        arming(c, n, fdok, setok)
        for o in c.call('gutil_time_notify_init', n.p):
            if not fdok:
                o.ensure('left without a timer', And(only(o, [(TCREATE, [])]), o.p(n.p, TS, 'io_channel').b.z == 0, o.i(n.p, TS, 'io_watch_id') == 0))
                continue
            o.ensure('one timer, armed once, watched once', only(o, [(TCREATE, []), (TSET, []), (IOADD, [])]))
            e = [x for x in events(o) if x[0] == IOADD]
            o.ensure('with the object', And(e[0][1][1] == n.p.b.z, e[0][1][2] == n.p.o.z) if len(e) == 1 else z3.BoolVal(False))
            o.ensure('which keeps channel and source', And(o.p(n.p, TS, 'io_channel').b.z == c.chan.b.z, o.i(n.p, TS, 'io_watch_id') % 2**32 == c.eng.uv(c.st, c.id).z))


@spec('gutil_time_notify_callback', ['T01'], SRC)
def _(run):
    def go(cc):
        n = Tn(cc)
        arming(cc, n)
        return cc.callee_events('gutil_time_notify_init', [n.p], IOADD, 1)
    fs = run.scout(go)
    if len(fs) != 1:
        raise Unsupported('callback of the source not identified')
    f = sorted(fs)[0]
    for cond in ('clock set', 'expired', 'error'):
        for died in ((False, True) if cond != 'error' else (False,)):
            c = run.case(cond + (', last reference dropped meanwhile' if died else ''))
            n = Tn(c)
            c.require(c.eng.uv(c.st, n.wid).z >= 1)
            cnd = c.int('condition', 32, 0, 63)
            z = c.eng.sv(c.st, cnd).z
            bit = lambda k: (z / k) % 2 == 1
            bad = Or(bit(8), bit(16), bit(32))
            c.require(bad if cond == 'error' else And(Not(bad), bit(1)))
            err = c.block('gerror', L(16), kinds={4, 'P'})
            c.set_mem(PtrV(err.b, 8), c.opaque('message'))
            c.st.g['held'] = Lin(0)

            def read(eng, st, av, ins):
                ob = lambda s, g: eng.oblige(st, s, g, ins)
                v = View(eng, st)
                b, o, cnt = av[1].b, av[1].o, eng.uv(st, av[2])
                SZ = st.blk('SZ', Lin(0))
                ob('the timer is read', av[0].b.z == n.channel.b.z)
                ob('the buffer is large enough for what is read', And(v.alive(av[1]), o.z >= 0, o.z + cnt.z <= SZ[b.z]))
                ob('a whole count is read', cnt.z >= 8)
                st.emit(READ)
                canc = cond == 'clock set'
                if av[3].b.const() != 0:
                    st.store(8, av[3].b, av[3].o.div(8), Lin(0 if canc else 8))
                if canc and av[4].b.const() != 0:
                    st.store('PB', av[4].b, av[4].o.div(8), err.b)
                    st.store('PO', av[4].b, av[4].o.div(8), Lin(0))
                r = eng.fresh_int('status', 32)
                st.add(r.s.z == (0 if canc else 1))
                return [(st, r)]

            def ref(eng, st, av, ins):
                eng.oblige(st, 'the object', And(av[0].b.z == n.p.b.z, av[0].o.z == 0), ins)
                st.g['held'] = st.g['held'] + 1
                return [(st, av[0])]

            def unref(eng, st, av, ins):
                eng.oblige(st, 'a reference which was taken', And(av[0].b.z == n.p.b.z, av[0].o.z == 0, st.g['held'].z >= 1), ins)
                st.g['held'] = st.g['held'] - 1
                if died:
                    st.store('AL', 0, n.p.b, Lin(0))
                return [(st, None)]

            def emit(eng, st, av, ins):
                ob = lambda s, g: eng.oblige(st, s, g, ins)
                ob('the object changes', And(av[0].b.z == n.p.b.z, av[0].o.z == 0))
                ob('and is held meanwhile', st.g['held'].z >= 1)
                ob('the signal', And(eng.sv(st, av[1]).z == eng.sv(c.st, sig).z, eng.sv(st, av[2]).z == 0))
                st.emit(EMIT)
                return [(st, None)]
            sig = c.int('signal_id', 32)
            c.set_mem(glob(c, 'gutil_time_notify_signals', 4), sig)
            c.eng.contracts = dict(c.eng.contracts, g_io_channel_read_chars=read, g_object_ref=ref, g_object_unref=unref, g_signal_emit=emit)
            for o in c.call(f, c.opaque('channel_arg'), cnd, n.p):
                if cond == 'error':
                    o.ensure('the source goes and is forgotten', And(Not(o.truth()), o.i(n.p, TS, 'io_watch_id') == 0, o.evn == 0))
                    o.ensure('the object is otherwise left alone', o.p(n.p, TS, 'io_channel').b.z == n.channel.b.z)
                    continue
                o.ensure('the source stays', o.truth())
                o.ensure('rearmed once and then reported once', And(only(o, [(READ, []), (EMIT, [])]), z3.BoolVal([e[0] for e in events(o)] == [READ, EMIT])))
                o.ensure('no reference is kept', o.st.g['held'].z == 0)
                if not died:
                    o.ensure('the object is left alone', And(o.p(n.p, TS, 'io_channel').b.z == n.channel.b.z, o.i(n.p, TS, 'io_watch_id') % 2**32 == c.eng.uv(c.st, n.wid).z))


@spec('gutil_time_notify_finalize', ['T01', 'W01'], SRC)
def _(run):
    for chan, wid in ((True, True), (True, False), (False, False)):
        c = run.case('%s%s' % ('timer' if chan else 'no timer', '' if wid or not chan else ', source gone'))
        n = Tn(c, chan)
        c.require(c.eng.uv(c.st, n.wid).z >= 1 if wid else c.eng.uv(c.st, n.wid).z == 0)
        cls = c.block('parent_class', L(c.eng.struct_size('_GObjectClass')[1]), kinds={4, 8, 'P'})
        pf = c.opaque('parent_finalize')
        c.set(cls, '_GObjectClass', 'finalize', pf)
        c.set_mem(glob(c, 'gutil_time_notify_parent_class', 8), cls)

        def chain(eng, s, p, av, rt, ins):
            eng.oblige(s, 'only the finalizer of the parent class is called', And(p.b.z == pf.b.z, p.o.z == pf.o.z), ins)
            eng.oblige(s, 'for this object', And(av[0].b.z == n.p.b.z, av[0].o.z == 0), ins)
            s.emit(PFIN)
            return [(s, None)]
        c.st.user['indirect'] = chain
        for o in c.call('gutil_time_notify_finalize', n.p):
            want = [(PFIN, [])] + ([(CHUNREF, [n.channel.b.z])] if chan else []) + ([(SRCREM, [c.eng.uv(c.st, n.wid).z])] if wid else [])
            es = [e[0] for e in events(o)]
            shut = [(CHSHUT, [n.channel.b.z])] if CHSHUT in es and chan else []
            o.ensure('source and channel are released once, the parent class last', And(only(o, want + shut), z3.BoolVal(es[-1:] == [PFIN])))


@spec('gutil_time_notify interface', ['T01', 'W01'], SRC, fns=['gutil_time_notify_new', 'gutil_time_notify_ref', 'gutil_time_notify_unref', 'gutil_time_notify_add_handler', 'gutil_time_notify_remove_handler'])
def _(run):
    f = 'gutil_time_notify_'
    for x in ('ref', 'unref', 'ref of NULL', 'unref of NULL'):
        c = run.case(x)
        n = Tn(c)
        null = 'NULL' in x
        for o in c.call(f + x.split()[0], NULL if null else n.p):
            o.ensure('nothing happens' if null else 'one reference more' if x == 'ref' else 'one reference less', only(o, [] if null else [(REFO if x == 'ref' else UNREFO, [n.p.b.z])]))
            if 'unref' not in x:
                o.ensure('yields its argument', o.null() if null else o.ret_is(n.p))
    for what in ('object', 'no object', 'no function'):
        c = run.case('add_handler, ' + what)
        n = Tn(c)
        sid = c.nat('id', 1, 2**64 - 1)

        def conn(eng, st, av, ins):
            eng.oblige(st, 'the signal', z3.BoolVal(literal(eng, av[1]) == b'time-changed'), ins)
            eng.oblige(st, 'called as it is', And(eng.sv(st, av[5]).z == 0, av[4].b.z == 0), ins)
            eng.oblige(st, 'the object', And(av[0].b.z == n.p.b.z, av[0].o.z == 0), ins)
            st.emit(CONN, av[2].b, av[3].b, av[3].o)
            return [(st, IntV(64, u=sid))]
        c.eng.contracts = dict(c.eng.contracts, g_signal_connect_data=conn)
        cb, arg = c.callback('fn'), c.anyptr('arg')
        for o in c.call(f + 'add_handler', NULL if what == 'no object' else n.p, NULL if what == 'no function' else cb, arg):
            if what == 'object':
                o.ensure('connected once', And(only(o, [(CONN, [cb.b.z, arg.b.z, arg.o.z])]), c.eng.uv(o.st, o.ret).z == sid.z))
            else:
                o.ensure('nothing happens', And(o.evn == 0, c.eng.uv(o.st, o.ret).z == 0))
    for what in ('object', 'no object', 'no handler'):
        c = run.case('remove_handler, ' + what)
        n = Tn(c)
        sid = c.nat('id', 1, 2**64 - 1)

        def disc(eng, st, av, ins):
            eng.oblige(st, 'the object', And(av[0].b.z == n.p.b.z, av[0].o.z == 0), ins)
            eng.oblige(st, 'the id is not zero', eng.uv(st, av[1]).z != 0, ins)
            st.emit(DISC, eng.uv(st, av[1]))
            return [(st, None)]
        c.eng.contracts = dict(c.eng.contracts, g_signal_handler_disconnect=disc)
        for o in c.call(f + 'remove_handler', NULL if what == 'no object' else n.p, IntV(64, u=L(0) if what == 'no handler' else sid)):
            o.ensure('disconnected once' if what == 'object' else 'nothing happens', only(o, [(DISC, [sid.z])] if what == 'object' else []))
    names = sorted({g for m in run.modules for g in m.globals if g.lstrip('@').endswith('instance')})
    if len(names) != 1:
        raise Unsupported('the variable which remembers the instance is not identified')
    for first in (True, False):
        c = run.case('new, ' + ('first' if first else 'again'))
        n = Tn(c)
        g = glob(c, names[0].lstrip('@'), 8)
        c.set_mem(g, NULL if first else n.p)

        def onew(eng, st, av, ins):
            st.emit(ONEW)
            return [(st, n.p)]

        def weak(eng, st, av, ins):
            eng.oblige(st, 'the object', And(av[0].b.z == n.p.b.z, av[0].o.z == 0), ins)
            eng.oblige(st, 'the variable is cleared with the object', And(av[1].b.z == g.b.z, av[1].o.z == g.o.z), ins)
            st.emit(WEAK)
            return [(st, None)]
        c.eng.contracts = dict(c.eng.contracts, g_object_new=onew, g_object_add_weak_pointer=weak)
        for o in c.call(f + 'new'):
            o.ensure('the one object', And(o.ret_is(n.p), o.mem_p(g).b.z == n.p.b.z, o.mem_p(g).o.z == 0))
            o.ensure('made once and forgotten when it goes' if first else 'with one reference more', only(o, [(ONEW, []), (WEAK, [])] if first else [(REFO, [n.p.b.z])]))
