"""Contracts of gutil_log.c."""
from gvc.spec import *
from gvc.core import PtrV, IntV, BoolV, Node, ARR, ARR2, atom
from gvc.stubs import range_ok
from gvc.ir import Ty

SRC = ['gutil_log', 'gutil_misc']
MS = 'glog_module'
SINK, TEXT, VAS, VAE, HEX, LOGL, LOGA, OUT, OUTA, PUT = 101, 102, 103, 104, 105, 106, 107, 108, 109, 110
OFFF = z3.Function('OFF', INT, z3.BoolSort())
EFF = z3.Function('EFF', INT, INT)
MOD = z3.Function('MOD', INT, z3.BoolSort())
RANK = z3.Function('RANK', INT, INT)


class Log:
    """any set of modules; gutil_log_default is one of them"""

    def __init__(self, c):
        self.c, self.eng = c, c.eng
        mod, self.size = c.eng.struct_size(MS)
        st = c.st
        self.dflt = glob(c, 'gutil_log_default', self.size)
        self.fn2 = c.anyptr('func2')
        self.fn1 = c.anyptr('func')
        c.set_mem(glob(c, 'gutil_log_func2', 8), self.fn2)
        c.set_mem(glob(c, 'gutil_log_func', 8), self.fn1)
        for nm in ('gutil_log_timestamp', 'gutil_log_tid'):
            g = glob(c, nm, 4)
            c.set_mem(g, c.int(nm, 32))
        lev = c.int('default_level', 32)
        c.set(self.dflt, MS, 'level', lev)
        for f in ('name', 'parent', 'log_proc'):
            c.set(self.dflt, MS, f, c.anyptr('default_' + f))
        for f in ('flags', 'max_level'):
            c.set(self.dflt, MS, f, c.int('default_' + f, 32))
        self.deflev = lev.s.z
        AL, SZ = st.blk('AL', Lin(0)), st.blk('SZ', Lin(0))
        d = self.dflt.b.z

        def facts(b):
            par = self.ptr(st, b, 'parent')
            inh = And(self.lev(st, b) == -1, par[0] != 0)
            return Implies(MOD(b), And(Or(b == d, And(b >= 10000, b < 1000000)), AL[b] == 1, SZ[b] == self.size, RANK(b) >= 0, par[1] == 0,
                                       Or(par[0] == 0, And(MOD(par[0]), RANK(par[0]) < RANK(b))),
                                       self.lev(st, b) >= -2**31, self.lev(st, b) < 2**31,
                                       OFFF(b) == Or(self.bit(st, b, 1), And(inh, OFFF(par[0]))),
                                       EFF(b) == If(inh, EFF(par[0]), If(self.lev(st, b) == -1, self.deflev, self.lev(st, b)))))
        self.facts = facts
        # the flags of a module are looked at first: instantiate on them, never on the parent's
        b = z3.Const('m?', INT)
        c.require(z3.ForAll([b], facts(b), patterns=[self.fl(st, b)]))
        c.require(And(MOD(d), facts(d)))
        self.pre = st.copy()
        st.user['indirect'] = self.sink

    def cell(self, st, b, f):
        mod, off, sz = self.eng.field(MS, f)
        return z3.Select(z3.Select(st.mem[sz].mat(), b), off // sz)

    def lev(self, st, b):
        return self.cell(st, b, 'level')

    def fl(self, st, b):
        return self.cell(st, b, 'flags')

    def bit(self, st, b, i):
        f = self.fl(st, b)
        u = If(f < 0, f + 2**32, f)
        return (u / 2**i) % 2 == 1

    def ptr(self, st, b, f):
        mod, off, sz = self.eng.field(MS, f)
        return tuple(z3.Select(z3.Select(st.mem[k].mat(), b), off // 8) for k in ('PB', 'PO'))

    def module(self, name):
        p = self.c.anyptr(name)
        self.c.require(And(p.b.z != 0, p.o.z == 0, MOD(p.b.z), self.facts(p.b.z)))
        return p

    def sink(self, eng, st, p, av, rt, ins):
        eng.oblige(st, 'the sink is not NULL', p.b.z != 0, ins)
        st.emit(SINK, p.b, p.o, av[0].b, eng.sv(st, av[1]))
        st.emit(TEXT, av[2].b, av[2].o, av[3].b, av[0].o)
        return [(st, None)]

    def enabled(self, b, level):
        return And(Not(OFFF(b)), Or(And(level > 0, level <= EFF(b)), level == -2))

    def same(self, o):
        """no module has changed"""
        st = o.st
        return forall(lambda b: Implies(MOD(b), And(self.lev(st, b) == self.lev(self.pre, b), self.fl(st, b) == self.fl(self.pre, b))), pats=lambda b: MOD(b))

    def sunk(self, o, mb, level, fmt, va=None, at=0):
        """exactly one call of the sink of the module, with everything handed over"""
        lp = self.ptr(self.pre, mb, 'log_proc')
        r = [o.ev(at, 0) == SINK, o.ev(at, 1) == If(lp[0] != 0, lp[0], self.fn2.b.z), o.ev(at, 2) == If(lp[0] != 0, lp[1], self.fn2.o.z),
             o.ev(at, 3) == mb, o.ev(at, 4) == level, o.ev(at + 1, 0) == TEXT, o.ev(at + 1, 1) == fmt.b.z, o.ev(at + 1, 2) == fmt.o.z, o.ev(at + 1, 4) == 0]
        if va is not None:
            r.append(o.ev(at + 1, 3) == va.b.z)
        return And(*r)


def self_calls(m, fname):
    """functions reachable from fname which call themselves"""
    seen, todo, rec = set(), [fname], []
    while todo:
        f = todo.pop()
        if f in seen or f not in m.funcs:
            continue
        seen.add(f)
        for b in m.funcs[f].blocks.values():
            for ins in b:
                if ins.op == 'call' and ins.a[0] != 'asm' and ins.a[0][0] == 'glob':
                    g = ins.a[0][1]
                    if g == f:
                        rec.append(f)
                    todo.append(g)
    return sorted(set(rec))


def logmod(run):
    return [m for m in run.modules if 'gutil_logv' in m.funcs][0]


def rec_emit(l):
    """contract of the recursive helper of gutil_logv(module, check, level, format, va)"""
    def con(eng, st, av, ins):
        m, chk, level, fmt, va = av
        eng.oblige(st, 'the module to check is one', And(MOD(chk.b.z), chk.o.z == 0), ins)
        cur = getattr(l, 'checking', None)
        if cur is not None:
            eng.oblige(st, 'the chain of parents is followed upwards (termination)', RANK(chk.b.z) < RANK(cur.b.z), ins)
        eng.oblige(st, 'the sink is known', l.fn2.b.z != 0, ins)
        lv = eng.sv(st, level).z
        out = []
        for s, side in eng.fork(st, BoolV(l.enabled(chk.b.z, lv))):
            if side:
                mb = l.mod(s, m)
                lp = l.ptr(l.pre, mb, 'log_proc')
                s.emit(SINK, atom(If(lp[0] != 0, lp[0], l.fn2.b.z)), atom(If(lp[0] != 0, lp[1], l.fn2.o.z)), atom(mb), level.s if level.s is not None else eng.sv(s, level))
                s.emit(TEXT, fmt.b, fmt.o, va.b, L(0))
            out.append((s, None))
        return out
    return con


def chain(l, c, mb):
    """where the parents are followed by a loop"""
    def inv(hv):
        fs = []
        for n, v in hv.ptrs():
            def f(h, n=n):
                b = h.phis[n].b.z
                return And(MOD(b), b != 0, h.phis[n].o.z == 0, OFFF(b) == OFFF(mb), EFF(b) == EFF(mb))

            def g(h, n=n):
                b = h.phis[n].b.z
                return If(b == 0, And(h.phis[n].o.z == 0, Not(OFFF(mb)), EFF(mb) == l.deflev),
                          And(MOD(b), h.phis[n].o.z == 0, OFFF(b) == OFFF(mb), EFF(b) == EFF(mb)))
            fs += [('=%s decides the same' % n, f), ('=%s decides the same, or the default does' % n, g)]
        return fs
    c.inv('*', inv)

    def measure(eng, st, f, hd, phis, k):
        return [If(v.b.z == 0, L(0).z, RANK(v.b.z) + 1) for v in phis.values() if isinstance(v, PtrV)]
    c.measure('*', measure)


def effmod(l, m):
    return m.b.z if not isinstance(m.b.const(), int) or m.b.const() != 0 else l.dflt.b.z


@spec('gutil_logv', ['L01'], SRC, fns=['gutil_logv', 'gutil_logv_r', 'gutil_log'])
def _(run):
    rec = self_calls(logmod(run), 'gutil_logv')

    def setup(lab):
        c = run.case(lab)
        l = Log(c)
        l.mod = lambda st, m: effmod(l, m)
        c.eng.contracts = dict(c.eng.contracts, **{r: rec_emit(l) for r in rec})
        return c, l
    for nm in ('module', 'NULL'):
        for via in ('gutil_logv', 'gutil_log'):
            c, l = setup('%s: %s' % (via, nm))
            m = l.module('m') if nm == 'module' else NULL
            mb = m.b.z if nm == 'module' else l.dflt.b.z
            level = c.int('level', 32)
            fmt = c.opaque('fmt')
            va = c.block('va', L(24))
            en = And(level.s.z != 0, l.fn2.b.z != 0, l.enabled(mb, level.s.z))

            chain(l, c, mb)
            if via == 'gutil_logv':
                for o in c.call(via, m, level, fmt, va):
                    o.ensure('the sink is called once when enabled, else nothing happens', o.evn == If(en, 2, 0))
                    o.ensure('with the module, the level and the text', Implies(en, l.sunk(o, mb, level.s.z, fmt, va)))
                    o.ensure('no module changes', l.same(o))
            else:
                def vas(code):
                    def f(eng, st, av, ins):
                        st.emit(code, av[0].b, av[0].o)
                        return [(st, None)]
                    return f
                c.eng.contracts = dict(c.eng.contracts, gvc_va_start=vas(VAS), gvc_va_end=vas(VAE))
                for o in c.call(via, m, level, fmt):
                    n = o.evn
                    o.ensure('the sink is called once when enabled, else nothing happens', n == If(en, 4, 2))
                    o.ensure('the arguments are started first and ended last', And(o.ev(0, 0) == VAS, o.ev(n - 1, 0) == VAE, o.ev(n - 1, 1) == o.ev(0, 1)))
                    o.ensure('with the module, the level, the text and the arguments', Implies(en, And(l.sunk(o, mb, level.s.z, fmt, None, 1), o.ev(2, 3) == o.ev(0, 1))))
    # the recursive helper, for any module to check
    for r in rec:
        f = logmod(run).funcs[r]
        if [t.k for n, t in f.params] != ['ptr', 'ptr', 'i', 'ptr', 'ptr']:
            raise Unsupported('recursive function %s: unknown parameters' % r)
        c, l = setup('%s' % r)
        m, chk = l.module('m'), l.module('check')
        l.checking = chk
        c.require(l.fn2.b.z != 0)
        level = c.int('level', 32)
        c.require(level.s.z != 0)
        fmt, va = c.opaque('fmt'), c.block('va', L(24))
        en = l.enabled(chk.b.z, level.s.z)
        for o in c.call(r, m, chk, level, fmt, va):
            o.ensure('the sink is called once when enabled, else nothing happens', o.evn == If(en, 2, 0))
            o.ensure('with the module, the level and the text', Implies(en, l.sunk(o, m.b.z, level.s.z, fmt, va)))
            o.ensure('no module changes', l.same(o))


def rec_enabled(l):
    def con(eng, st, av, ins):
        chk, level = av
        eng.oblige(st, 'the module to check is one', And(MOD(chk.b.z), chk.o.z == 0), ins)
        cur = getattr(l, 'checking', None)
        if cur is not None:
            eng.oblige(st, 'the chain of parents is followed upwards (termination)', RANK(chk.b.z) < RANK(cur.b.z), ins)
        r = eng.fresh_int('enabled', 32)
        st.add((r.s.z != 0) == l.enabled(chk.b.z, eng.sv(st, level).z))
        return [(st, r)]
    return con


@spec('gutil_log_enabled', ['L01'], SRC, fns=['gutil_log_enabled', 'gutil_log_enabled_r'])
def _(run):
    rec = self_calls(logmod(run), 'gutil_log_enabled')
    for nm in ['module', 'NULL'] + rec:
        c = run.case(nm)
        l = Log(c)
        c.eng.contracts = dict(c.eng.contracts, **{r: rec_enabled(l) for r in rec})
        m = NULL if nm == 'NULL' else l.module('m')
        mb = l.dflt.b.z if nm == 'NULL' else m.b.z
        level = c.int('level', 32)
        chain(l, c, mb)
        if nm in rec:
            f = logmod(run).funcs[nm]
            if [t.k for n, t in f.params] != ['ptr', 'i']:
                raise Unsupported('recursive function %s: unknown parameters' % nm)
            l.checking = m
            for o in c.call(nm, m, level):
                o.ensure('TRUE iff the level is enabled', o.truth() == l.enabled(mb, level.s.z))
                o.ensure('nothing happens', And(o.evn == 0, l.same(o)))
        else:
            for o in c.call('gutil_log_enabled', m, level):
                o.ensure('TRUE iff gutil_log would emit it', o.truth() == And(level.s.z != 0, l.fn2.b.z != 0, l.enabled(mb, level.s.z)))
                o.ensure('nothing happens', And(o.evn == 0, l.same(o)))


@spec('gutil_log_default_proc', ['L01'], SRC)
def _(run):
    g = logmod(run).globals['gutil_log_func2'][1]
    c = run.case('')
    l = Log(c)
    m = l.module('m')
    level, fmt, va = c.int('level', 32), c.opaque('fmt'), c.block('va', L(24))
    fn = l.fn1
    for o in c.call(g[1], m, level, fmt, va):
        nm = l.ptr(l.pre, m.b.z, 'name')
        hide = l.bit(l.pre, m.b.z, 0)
        o.ensure('handed to the log function once, if there is one', o.evn == If(fn.b.z != 0, 2, 0))
        o.ensure('with the name (unless hidden), level and text', Implies(fn.b.z != 0, And(
            o.ev(0, 0) == SINK, o.ev(0, 1) == fn.b.z, o.ev(0, 2) == fn.o.z, o.ev(0, 3) == If(hide, 0, nm[0]), o.ev(1, 4) == If(hide, 0, nm[1]), o.ev(0, 4) == level.s.z,
            o.ev(1, 1) == fmt.b.z, o.ev(1, 2) == fmt.o.z, o.ev(1, 3) == va.b.z)))


# ------------------------------------------------------------------ the dump
def dump_contracts(c, l, data, size, mod, level, prefix):
    def hexdump(eng, st, av, ins):
        buf, p, n = av
        nn = eng.uv(st, n)
        m = atom(If(nn.z < 16, nn.z, 16), (0, 16))
        st.add(And(m.z >= 0, m.z <= 16))
        range_ok(eng, st, buf, L(70), ins, 'write (buffer of gutil_hexdump)')
        range_ok(eng, st, p, m, ins, 'read (data of gutil_hexdump)')
        st.setblk(1, buf.b, eng.fresh('line', ARR))
        st.emit(HEX, p.b, p.o, m, buf.b)
        return [(st, IntV(32, u=m, s=m))]

    def log(eng, st, av, ins):
        if len(av) != 6:
            raise Unsupported('gutil_log with %d arguments' % len(av))
        eng.oblige(st, 'the prefix is not NULL', av[3].b.z != 0, ins)
        eng.oblige(st, 'module and level are handed over', And(av[0].b.z == mod.b.z, av[0].o.z == mod.o.z, eng.sv(st, av[1]).z == level.s.z), ins)
        if prefix is not NULL:
            eng.oblige(st, 'the prefix is handed over', And(av[3].b.z == prefix.b.z, av[3].o.z == prefix.o.z), ins)
        eng.oblige(st, 'the line is whole and alive', And(av[5].o.z == 0, View(eng, st).alive(av[5])), ins)
        st.emit(LOGL, av[5].b, eng.uv(st, av[4]))
        return [(st, None)]

    def enabled(eng, st, av, ins):
        eng.oblige(st, 'module and level are handed over', And(av[0].b.z == mod.b.z, av[0].o.z == mod.o.z, eng.sv(st, av[1]).z == level.s.z), ins)
        return [(st, c.en)]
    return dict(gutil_hexdump=hexdump, gutil_log=log, gutil_log_enabled=enabled)


def dump_events(ev, data, lo, n, size):
    """the events 2k, 2k+1 are the line of the bytes from 16k on"""
    b, o = data.b.z, data.o.z
    sz = Z(size)

    def f(k):
        m = If(sz - 16 * k < 16, sz - 16 * k, 16)
        return And(ev(2 * k, 0) == HEX, ev(2 * k, 1) == b, ev(2 * k, 2) == o + 16 * k, ev(2 * k, 3) == m,
                   ev(2 * k + 1, 0) == LOGL, ev(2 * k + 1, 1) == ev(2 * k, 4), ev(2 * k + 1, 2) == (16 * k) % 2**32)
    return forall(f, lo, n)


def dump_inv(c, data, size):
    sz = Z(size)

    def inv(hv):
        k = lambda h: Z(h.k)
        out = []
        for nm, v in hv.ints():
            if v.w == 64:
                out.append(('bytes left in %s' % nm, lambda h, nm=nm: h.u(h.phis[nm]) == If(sz - 16 * k(h) > 0, sz - 16 * k(h), 0)))
            out.append(('offset in %s' % nm, lambda h, nm=nm: h.u(h.phis[nm]) == If(16 * k(h) < sz, (16 * k(h)) % 2**32, sz % 2**32)))
            out.append(('position in %s' % nm, lambda h, nm=nm: h.u(h.phis[nm]) == If(16 * k(h) < sz, 16 * k(h), sz)))
        for nm, v in hv.ptrs():
            out.append(('next in %s' % nm, lambda h, nm=nm: And(h.phis[nm].b.z == data.b.z, h.phis[nm].o.z == data.o.z + If(16 * k(h) < sz, 16 * k(h), sz))))
        out += [('lines so far', lambda h: And(k(h) <= (sz + 15) / 16, h.st.g['evn'].z == 2 * k(h))),
                ('what they show', lambda h: dump_events(lambda i, j: z3.Select(h.st.blk('E%d' % j, L(0)), i), data, 0, k(h), size))]
        return out
    c.inv('*', inv)


@spec('gutil_log_dump', ['M06'], SRC, fns=['gutil_log_dump', 'gutil_log_dump2', 'gutil_log_dump_bytes'])
def _(run):
    for fn in ('gutil_log_dump', 'gutil_log_dump_bytes'):
        for lab in ('with a prefix', 'no prefix', 'nothing'):
            c = run.case('%s: %s' % (fn, lab))
            l = Log(c)
            mod, level = c.anyptr('module'), c.int('level', 32)
            c.en = c.int('enabled', 32)
            size = c.nat('size', 0, 2**62)
            if lab == 'nothing':
                size = L(0)
            data = c.bytesblk('data', size, c.nat('off', 0, 2**61))
            prefix = c.opaque('prefix') if lab == 'with a prefix' else NULL
            c.eng.contracts = dict(c.eng.contracts, **dump_contracts(c, l, data, size, mod, level, prefix))
            c.st.user['onlyuser'] = True
            dump_inv(c, data, size)
            sz = Z(size)
            if fn == 'gutil_log_dump':
                d = c.anyptr('nodata') if lab == 'nothing' else data
                outs = c.call(fn, mod, level, prefix, d, c.eng.wrap(c.st, size, 64, 'u'))
            else:
                outs = c.call(fn, mod, level, prefix, c.gbytes('bytes', NULL if lab == 'nothing' else data, size))
            for o in outs:
                o.ensure('nothing when the level is not enabled', Implies(c.en.s.z == 0, o.evn == 0))
                o.ensure('one line for every 16 bytes', Implies(c.en.s.z != 0, o.evn == 2 * ((sz + 15) / 16)))
                o.ensure('every byte once, in order, with its offset', Implies(c.en.s.z != 0, dump_events(lambda i, j: z3.Select(o.st.blk('E%d' % j, L(0)), i), data, 0, (sz + 15) / 16, size)))
    c = run.case('no bytes')
    l = Log(c)
    for o in c.call('gutil_log_dump_bytes', c.anyptr('module'), c.int('level', 32), c.anyptr('prefix'), NULL):
        o.ensure('nothing happens', o.evn == 0)


# ------------------------------------------------------------------ formatting
PCH, PSTR, PINT = 1, 2, 3


def chars(eng, st, s):
    for ch in s:
        st.emit(PUT, PCH, ch, 0)


def print_pieces(eng, st, fmt, args, ins):
    """what printf writes, piece by piece: characters, integers, strings"""
    f = literal(eng, fmt)
    if f is None:
        raise Unsupported('format is not a literal')
    f = f.decode('latin1')
    i, args = 0, list(args)
    while i < len(f):
        if f[i] != '%':
            chars(eng, st, f[i].encode('latin1'))
            i += 1
            continue
        k = f[i + 1]
        i += 2
        if k == '%':
            chars(eng, st, b'%')
        elif k == 'd':
            st.emit(PUT, PINT, eng.sv(st, args.pop(0)), 0)
        elif k == 's':
            p = args.pop(0)
            l = literal(eng, p)
            if l is not None:
                chars(eng, st, l)
                continue
            eng.oblige(st, 'string to print: not NULL', p.b.z != 0, ins)
            A = st.blk(1, p.b)
            if eng.prove_qf(st, z3.Select(A, p.o.z) == 0):
                range_ok(eng, st, p, L(1), ins, 'read (string to print)')
                continue
            if not any(syneq_b(p, b, o) for b, o, n in st.user.get('cstr', ())):
                eng.oblige(st, 'string to print: complete and terminated', And(st.get('TX', Lin(0), p.b).z == 1, p.o.z == 0), ins)
            eng.oblige(st, 'string to print: alive', View(eng, st).alive(p), ins)
            st.emit(PUT, PSTR, st.get('TK', Lin(0), p.b) if p.b.const() is None or p.b.const() >= 1000000 else p.b, 0)
        else:
            raise Unsupported('format %s' % f)


def syneq_b(p, b, o):
    return (p.b - b).const() == 0 and (p.o - o).const() == 0


def fmt_contracts(c, fmt, va, length, out=None):
    """TX: the block holds a complete string (1), TK: which one (1: the message, 2: the time)"""
    for k in ('TX', 'TK'):
        c.st.mem[k] = Node('base', None, v=z3.Const('G_' + k, ARR2))

    def va_copy(eng, st, av, ins):
        st.user['copied'] = av[1]
        return [(st, None)]

    def vsnprintf(eng, st, av, ins):
        buf, size, f, v = av
        src = st.user.get('copied')
        eng.oblige(st, 'the format is handed over', And(f.b.z == fmt.b.z, f.o.z == fmt.o.z), ins)
        eng.oblige(st, 'with a fresh copy of the arguments', z3.BoolVal(src is not None) if src is None else src.b.z == va.b.z, ins)
        st.user['copied'] = None
        n = eng.uv(st, size)
        range_ok(eng, st, buf, n, ins, 'write (vsnprintf)')
        eng.oblige(st, 'a whole block is written', buf.o.z == 0, ins)
        A = eng.fresh('text', ARR)
        st.setblk(1, buf.b, A)
        st.add(Implies(length.z == 0, z3.Select(A, z3.IntVal(0)) == 0))
        st.store('TX', 0, buf.b, atom(If(length.z < n.z, 1, 0)))
        st.store('TK', 0, buf.b, L(1))
        return [(st, IntV(32, s=length, u=length))]

    def strftime(eng, st, av, ins):
        buf, n = av[0], eng.uv(st, av[1])
        range_ok(eng, st, buf, n, ins, 'write (strftime)')
        s0 = st.copy()
        s0.setblk(1, buf.b, eng.fresh('junk', ARR))
        s0.store('TX', 0, buf.b, L(0))
        s0.user['timeok'] = False
        A = eng.fresh('time', ARR)
        st.setblk(1, buf.b, A)
        r = eng.fresh('timelen', INT, (1, 2**31))
        st.add(And(r.z >= 1, r.z < n.z, z3.Select(A, z3.IntVal(0)) != 0))
        st.store('TX', 0, buf.b, L(1))
        st.store('TK', 0, buf.b, L(2))
        st.user['timeok'] = True
        return [(s0, eng.iconst(64, 0)), (st, IntV(64, u=r, s=r))]

    def now(eng, st, av, ins):
        v = eng.fresh_int('now', 64)
        if av[0].b.const() != 0:
            range_ok(eng, st, av[0], L(8), ins, 'write (time)')
            eng.storev(st, Ty("i", 64), v, av[0], ins)
        return [(st, v)]

    def syscall(eng, st, av, ins):
        eng.oblige(st, 'the thread id is asked for', eng.sv(st, av[0]).z == 186, ins)
        return [(st, c.tid)]

    def fprintf(eng, st, av, ins):
        eng.oblige(st, 'to the given stream', And(av[0].b.z == out.b.z, av[0].o.z == out.o.z), ins)
        print_pieces(eng, st, av[1], av[2:], ins)
        return [(st, eng.fresh_int('printed', 32))]
    return dict(gvc_va_copy=va_copy, gvc_va_end=lambda eng, st, av, ins: [(st, None)], g_vsnprintf=vsnprintf, strftime=strftime, time=now,
                localtime_r=lambda eng, st, av, ins: [(st, av[1])], syscall=syscall, fprintf=fprintf)


def expect(o, pieces):
    """the pieces written are these"""
    n = o.st.g['evn'].const()
    want = []
    for p in pieces:
        want += [(PCH, ch) for ch in p.encode('latin1')] if isinstance(p, str) else [p]
    if n is None or n != len(want):
        return z3.BoolVal(False)
    return And(True, *[And(o.ev(i, 0) == PUT, o.ev(i, 1) == w[0], o.ev(i, 2) == w[1]) for i, w in enumerate(want)])


def noleak(o, c):
    """whatever was allocated has been freed"""
    return forall(lambda b: Implies(And(b >= 1000000, b < o.st.g['nb'].z), Select(o.st.blk('AL', Lin(0)), b) == 0))


LEVELS = dict(ERR=1, WARN=2)
GLIBMAP = [(5, 1 << 7), (4, 1 << 6), (2, 1 << 4), (1, 1 << 3)]
SYSMAP = [(5, 7), (4, 6), (2, 4), (1, 3)]


def level_case(c, lab):
    if lab in LEVELS:
        return c.const(32, LEVELS[lab])
    lv = c.int('level', 32)
    c.require(And(lv.s.z != 1, lv.s.z != 2))
    return lv


def setflag(c, g, on, lab):
    v = c.const(32, 0)
    if on:
        v = c.int(lab + '_on', 32)
        c.require(v.s.z != 0)
    c.set_mem(glob(c, g, 4), v)


@spec('gutil_log_stdio', ['L01'], SRC, fns=['gutil_log_stdio', 'gutil_log_format'])
def _(run):
    for tid in (False, True):
        for name in ('NULL', 'empty', 'name'):
            for lab in ('ERR', 'WARN', 'other'):
                for ts in (('off', 'format', 'empty format') if lab == 'other' and name != 'empty' else ('off',)):
                    c = run.case('%s name %s level %s time %s' % ('thread id' if tid else 'no thread id', name, lab, ts))
                    c.eng.sym_unroll = 4
                    setflag(c, 'gutil_log_timestamp', ts != 'off', 'timestamp')
                    setflag(c, 'gutil_log_tid', tid, 'tid')
                    tf = c.nat('tfl', 1, 2**40) if ts == 'format' else L(0)
                    c.set_mem(glob(c, 'gutil_log_ftime', 8), c.cstr('ftime', tf))
                    c.tid = c.int('thread', 32)
                    nm = NULL if name == 'NULL' else c.cstr('name', c.nat('nl', 1, 2**40) if name == 'name' else L(0))
                    fmt, va, out = c.opaque('fmt'), c.block('va', L(24)), c.opaque('out')
                    length = c.nat('length', 0, 2**31 - 2)
                    c.eng.contracts = dict(c.eng.contracts, **fmt_contracts(c, fmt, va, length, out))
                    lv = level_case(c, lab)
                    for o in c.call('gutil_log_stdio', out, nm, lv, fmt, va):
                        want = ['[', (PINT, c.tid.s.z), '] '] if tid else []
                        if ts == 'format' and o.st.user.get('timeok'):
                            want.append((PSTR, 2))
                        if name == 'name':
                            want += ['[', (PSTR, nm.b.z), '] ']
                        want += [dict(ERR='ERROR: ', WARN='WARNING: ', other='')[lab]]
                        full, none = expect(o, want + [(PSTR, 1), '\n']), expect(o, want + ['\n'])
                        o.ensure('the line is written, whole and once', Or(full, And(length.z == 0, none)))
                        o.ensure('nothing leaks', noleak(o, c))


SINKS = dict(gutil_log_stdout='stdout', gutil_log_stderr='stderr')


@spec('log sinks', ['L01'], SRC, fns=['gutil_log_stdout', 'gutil_log_stderr', 'gutil_log_stdout2', 'gutil_log_stderr2', 'gutil_log_glib', 'gutil_log_glib2', 'gutil_log_syslog2'])
def _(run):
    def rec(code):
        def f(eng, st, av, ins):
            st.emit(code, *[x for v in av[:2] for x in (eng.evargs(st, v))])
            st.emit(OUTA, *[x for v in av[2:4] for x in (eng.evargs(st, v))])
            if len(av) > 4:
                st.emit(OUTA, *eng.evargs(st, av[4]))
            return [(st, None)]
        return f
    ev = lambda o, i, *xs: And(*[o.ev(i, j) == Z(x) for j, x in enumerate(xs)])
    for two in (False, True):
        for nm in (('name',) if not two else ('module', 'NULL')):
            def first(c):
                if not two:
                    p = c.anyptr('name')
                    return p, (p.b.z, p.o.z)
                if nm == 'NULL':
                    return NULL, (0, 0)
                l = Log(c)
                m = l.module('m')
                return m, l.ptr(c.st, m.b.z, 'name')
            for f, stream in SINKS.items():
                c = run.case(f + ('2 ' + nm if two else ''))
                a, n = first(c)
                stm = c.opaque('stream')
                c.set_mem(glob(c, stream, 8), stm)
                lv, fmt, va = c.int('level', 32), c.opaque('fmt'), c.block('va', L(24))
                c.eng.contracts = dict(c.eng.contracts, gutil_log_stdio=rec(OUT))
                for o in c.call(f + ('2' if two else ''), a, lv, fmt, va):
                    o.ensure('the line goes to that stream, once', And(o.evn == 3, ev(o, 0, OUT, stm.b.z, stm.o.z, n[0], n[1]), ev(o, 1, OUTA, lv.s.z, 0, fmt.b.z, fmt.o.z), ev(o, 2, OUTA, va.b.z, 0)))
            c = run.case('gutil_log_glib' + ('2 ' + nm if two else ''))
            a, n = first(c)
            lv, fmt, va = c.int('level', 32), c.opaque('fmt'), c.block('va', L(24))
            c.eng.contracts = dict(c.eng.contracts, g_logv=rec(OUT))
            flags = z3.IntVal(1 << 5)
            for l_, v in GLIBMAP:
                flags = If(lv.s.z == l_, v, flags)
            for o in c.call('gutil_log_glib' + ('2' if two else ''), a, lv, fmt, va):
                o.ensure('handed to g_logv once with the level which corresponds', And(o.evn == 2, ev(o, 0, OUT, n[0], n[1], flags, 0), ev(o, 1, OUTA, fmt.b.z, fmt.o.z, va.b.z, 0)))
            if two:
                c = run.case('gutil_log_syslog2 ' + nm)
                a, n = first(c)
                lv, fmt, va = c.int('level', 32), c.opaque('fmt'), c.block('va', L(24))
                c.eng.contracts = dict(c.eng.contracts, gutil_log_syslog=rec(OUT))
                for o in c.call('gutil_log_syslog2', a, lv, fmt, va):
                    o.ensure('handed over once', And(o.evn == 2, ev(o, 0, OUT, n[0], n[1], lv.s.z, 0), ev(o, 1, OUTA, fmt.b.z, fmt.o.z, va.b.z, 0)))


@spec('gutil_log_syslog', ['L01'], SRC)
def _(run):
    for tid in (False, True):
        for name in ('NULL', 'empty', 'default', 'equal', 'other'):
            for lab in ('ERR', 'WARN', 'other'):
                c = run.case('%s name %s level %s' % ('thread id' if tid else 'no thread id', name, lab))
                c.eng.sym_unroll = 4
                l = Log(c)
                setflag(c, 'gutil_log_tid', tid, 'tid')
                c.tid = c.int('thread', 32)
                nm = NULL if name == 'NULL' else c.cstr('name', c.nat('nl', 1, 2**40) if name != 'empty' else L(0))
                if name == 'default':
                    c.set(l.dflt, MS, 'name', nm)
                elif name == 'other':
                    c.set(l.dflt, MS, 'name', c.anyptr('dn'))
                    c.require(c.p(l.dflt, MS, 'name').b.z != nm.b.z)
                fmt, va = c.opaque('fmt'), c.block('va', L(24))
                length = c.nat('length', 0, 2**31 - 2)
                lv = level_case(c, lab)
                prio = z3.IntVal(5)
                for l_, v in SYSMAP:
                    prio = If(lv.s.z == l_, v, prio)

                def syslog(eng, st, av, ins):
                    eng.oblige(st, 'the priority corresponds to the level', eng.sv(st, av[0]).z == prio, ins)
                    print_pieces(eng, st, av[1], av[2:], ins)
                    st.emit(OUT, 0, 0, 0)
                    return [(st, None)]

                def vsyslog(eng, st, av, ins):
                    eng.oblige(st, 'the priority corresponds to the level', eng.sv(st, av[0]).z == prio, ins)
                    eng.oblige(st, 'the text is handed over', And(av[1].b.z == fmt.b.z, av[1].o.z == fmt.o.z, av[2].b.z == va.b.z), ins)
                    st.emit(OUT, 1, 0, 0)
                    return [(st, None)]

                def strcmp0(eng, st, av, ins):
                    r = eng.fresh_int('cmp', 32)
                    st.add(r.s.z == 0 if name in ('default', 'equal') else r.s.z != 0)
                    return [(st, r)]
                c.eng.contracts = dict(c.eng.contracts, **dict(fmt_contracts(c, fmt, va, length), syslog=syslog, vsyslog=vsyslog, g_strcmp0=strcmp0))
                for o in c.call('gutil_log_syslog', nm, lv, fmt, va):
                    want = ['[', (PINT, c.tid.s.z), '] '] if tid else []
                    if name == 'other':
                        want += ['[', (PSTR, nm.b.z), '] ']
                    want += [dict(ERR='ERROR! ', WARN='WARNING! ', other='')[lab]]

                    def ends(w):
                        k = sum(len(x) if isinstance(x, str) else 1 for x in w)
                        n = o.st.g['evn'].const()
                        if n != k + 1:
                            return z3.BoolVal(False)
                        o2 = Outcome(c, o.st.copy(), o.ret)
                        o2.st.g['evn'] = L(k)
                        return And(expect(o2, w), o.ev(k, 0) == OUT, o.ev(k, 1) == 0)
                    direct = And(o.evn == 1, o.ev(0, 0) == OUT, o.ev(0, 1) == 1) if want == [''] else z3.BoolVal(False)
                    o.ensure('one message, whole and once', Or(direct, ends(want + [(PSTR, 1)]), And(length.z == 0, ends(want))))
                    o.ensure('nothing leaks', noleak(o, c))


# ------------------------------------------------------------------ options
NAMES = ['none', 'error', 'warning', 'info', 'debug', 'verbose']


def level_of(S, n):
    """the level the n bytes S(0..n) name: a digit, or the beginning of a name; -1 if none"""
    r = z3.IntVal(-1)
    for i, nm in reversed(list(enumerate(NAMES))):
        m = And(n >= 1, n <= len(nm), *[Or(j >= n, S(j) == ord(ch)) for j, ch in enumerate(nm)])
        r = If(m, i, r)
    return If(And(n == 1, S(0) >= 48, S(0) <= 53), S(0) - 48, r)


def char(eng, st, v):
    """the character a C function which takes an int looks at"""
    z = eng.sv(st, v).z
    return z % 256


def option_contracts(c):
    CI = z3.Function('equal_ignoring_case', INT, INT, INT, INT, INT, z3.BoolSort())
    NL = z3.Function('name_length', INT, INT, INT)
    c.CI, c.NL = CI, NL

    def strchr(eng, st, av, ins):
        s = literal(eng, av[0])
        if s is None:
            return None
        ch = char(eng, st, av[1])
        pos = z3.IntVal(len(s))
        for j in reversed(range(len(s))):
            pos = If(ch == s[j], j, pos)
        out = []
        for s_, side in eng.fork(st, BoolV(Or(ch == 0, *[ch == x for x in s]))):
            if side:
                i = eng.fresh('pos', INT, (0, len(s)))
                s_.add(And(i.z == pos, i.z >= 0, i.z <= len(s)))
            out.append((s_, PtrV(av[0].b, av[0].o + i) if side else NULL))
        return out

    def strncmp(eng, st, av, ins):
        lits = [literal(eng, a) for a in av[:2]]
        if (lits[0] is None) == (lits[1] is None):
            raise Unsupported('strncmp of two strings which are not constant')
        s, p = (lits[0], av[1]) if lits[0] is not None else (lits[1], av[0])
        from gvc.stubs import str_len
        n = str_len(eng, st, p, ins)
        A, o, lim = st.blk(1, p.b), p.o.z, eng.uv(st, av[2]).z
        r = eng.fresh_int('cmp', 32)
        st.add((r.s.z == 0) == And(*[Implies(lim > j, And(n.z >= j, z3.Select(A, o + j) == ch)) for j, ch in enumerate(s + b'\0')]))
        return [(st, r)]

    def casecmp(eng, st, av, ins):
        r = eng.fresh_int('casecmp', 32)
        st.add((r.s.z == 0) == CI(av[0].b.z, av[0].o.z, av[1].b.z, av[1].o.z, eng.uv(st, av[2]).z))
        return [(st, r)]

    def strlen(eng, st, p, ins):
        if any((p.b - b).const() == 0 for b, o, n in st.user.get('cstr', ())):
            return None
        l = atom(NL(p.b.z, p.o.z), (0, 2**62))
        st.add(And(l.z >= 0, l.z < 2**62))
        return l
    c.st.user['strlen'] = strlen

    def error_new(eng, st, av, ins):
        p = c.err
        return [(st, p)]
    c.err = c.opaque('error_object')
    return dict(strchr=strchr, strncmp=strncmp, g_ascii_strncasecmp=casecmp, g_option_error_quark=lambda eng, st, av, ins: [(st, eng.fresh_int('quark', 32))], g_error_new=error_new)


@spec('gutil_log_parse_option', ['L02'], SRC, fns=['gutil_log_parse_option', 'gutil_log_parse_level'])
def _(run):
    f = 'gutil_log_parse_option'
    for err in (True, False):
        for sep in (False, True):
            c = run.case('%s, error %s' % ('module:level' if sep else 'level', 'wanted' if err else 'not wanted'))
            l = Log(c)
            c.eng.contracts = dict(c.eng.contracts, **option_contracts(c))
            c.eng.try_sym = 8
            n = c.nat('n', 0, 2**40)
            opt = c.cstr('opt', n)
            A = c.arr(1, opt)
            e = c.block('error', L(8), kinds={'P'}) if err else NULL
            if err:
                c.set_mem(e, NULL)
            cnt = c.nat('count', 0, 2**31 - 1)
            mods = c.block('modules', cnt * 8, kinds={'P'})
            B, O = c.arr('PB', mods), c.arr('PO', mods)
            pre = c.st.copy()
            AL, SZ = pre.blk('AL', Lin(0)), pre.blk('SZ', Lin(0))
            c.require(forall(lambda i: And(MOD(B[i]), O[i] == 0, B[i] != 0, l.ptr(pre, B[i], 'name')[0] != 0, AL[B[i]] == 1, SZ[B[i]] == l.size), 0, cnt, pats=lambda i: B[i]))
            x = c.nat('x', 0, 2**40)
            if sep:
                c.require(And(x.z < n.z, A[x.z] == 58, forall(lambda i: A[i] != 58, 0, x, pats=lambda i: A[i])))
                lv = level_of(lambda i: A[x.z + 1 + i], n.z - x.z - 1)
            else:
                c.require(forall(lambda i: A[i] != 58, 0, n, pats=lambda i: A[i]))
                lv = level_of(lambda i: A[i], n.z)
            MI = z3.Function('matches', INT, z3.BoolSort())
            nm = lambda i: l.ptr(pre, B[i], 'name')
            c.require(forall(lambda i: MI(i) == And(c.CI(nm(i)[0], nm(i)[1], opt.b.z, opt.o.z, x.z), c.NL(*nm(i)) == x.z), pats=lambda i: MI(i)))
            c.require(forall(lambda i: Or(MI(i), Not(MI(i))), pats=lambda i: B[i]))

            def inv(hv):
                return [('no match among those before %s' % v, lambda h, v=v: forall(lambda j: Not(MI(j)), 0, h.s(h.phis[v]), pats=lambda j: MI(j))) for v, _ in hv.ints()]
            c.inv('*', inv)
            same = lambda o, exc: forall(lambda b: Implies(And(MOD(b), b != exc), And(l.lev(o.st, b) == l.lev(pre, b), l.fl(o.st, b) == l.fl(pre, b), *[a == b2 for fl in ('name', 'parent', 'log_proc') for a, b2 in zip(l.ptr(o.st, b, fl), l.ptr(pre, b, fl))])), pats=lambda b: MOD(b))
            for o in c.call(f, opt, mods, c.eng.wrap(c.st, cnt, 32, 's'), e):
                ok = o.truth()
                d = l.dflt.b.z
                if sep:
                    o.ensure('TRUE only for a level which exists', Implies(ok, lv >= 0))
                    o.ensure('FALSE only if the level or the module does not exist', Implies(Not(ok), Or(lv < 0, forall(lambda i: Not(MI(i)), 0, cnt))))
                    o.ensure('TRUE only for a module which exists: the level of the first such module is set and nothing else', Implies(ok, exists(lambda i: And(MI(i), forall(lambda j: Not(MI(j)), 0, i), l.lev(o.st, B[i]) == lv, same(o, B[i])), 0, cnt)))
                else:
                    o.ensure('TRUE iff the level exists', ok == (lv >= 0))
                    o.ensure('sets the default level and nothing else', Implies(ok, And(l.lev(o.st, d) == lv, same(o, d))))
                o.ensure('nothing changes otherwise', Implies(Not(ok), same(o, 0)))
                if err:
                    ep = o.mem_p(e)
                    o.ensure('the error is set exactly on failure', And(ep.o.z == If(ok, 0, c.err.o.z), ep.b.z == If(ok, 0, c.err.b.z)))
                o.ensure('the option is kept', forall(lambda i: Select(o.arr(1, opt), i) == A[i], 0, n + 1))


TYPES = ['syslog', 'stdout', 'stderr', 'glib']


@spec('gutil_log_set_type', ['L02'], SRC, fns=['gutil_log_set_type', 'gutil_log_get_type'])
def _(run):
    for t in TYPES + ['other']:
        for nm in ('name', 'NULL'):
            c = run.case('%s, default name %s' % (t, nm))
            l = Log(c)
            c.set(l.dflt, MS, 'level', c.int('dl', 32))
            typ, name = c.opaque('type'), c.opaque('name') if nm == 'name' else NULL
            old = c.p(l.dflt, MS, 'name')

            def cmp(eng, st, av, ins):
                s = [literal(eng, a) for a in av[:2]]
                p = av[0] if s[0] is None else av[1]
                lit = s[1] if s[0] is None else s[0]
                eng.oblige(st, 'the type is looked at', And(p.b.z == typ.b.z, p.o.z == typ.o.z), ins)
                r = eng.fresh_int('cmp', 32)
                st.add(r.s.z == 0 if lit == t.encode() else r.s.z != 0)
                return [(st, r)]
            OPEN, CLOSE = 120, 121

            def note(code):
                def f(eng, st, av, ins):
                    st.emit(code)
                    return [(st, None)]
                return f
            c.eng.contracts = dict(c.eng.contracts, g_ascii_strcasecmp=cmp, openlog=note(OPEN), closelog=note(CLOSE))
            g = glob(c, 'gutil_log_func', 8)
            fp = {x: c.gfun('gutil_log_' + x) for x in TYPES}
            was = l.fn1
            for o in c.call('gutil_log_set_type', typ, name):
                p = o.mem_p(g)
                o.ensure('TRUE iff the type is known', o.truth() == z3.BoolVal(t != 'other'))
                if t == 'other':
                    o.ensure('an unknown type leaves the log function alone', And(p.b.z == was.b.z, p.o.z == was.o.z))
                else:
                    o.ensure('the log function is that of the type', And(p.b.z == fp[t].b.z, p.o.z == 0))
                    for o2 in c.call_in(o, 'gutil_log_get_type'):
                        o2.ensure('and the type can be read back', z3.BoolVal(literal(c.eng, o2.ret) == t.encode()))
                d = o.p(l.dflt, MS, 'name')
                w = name if nm == 'name' else old
                o.ensure('the default name changes only if one is given', And(d.b.z == w.b.z, d.o.z == w.o.z))
                isl = And(was.b.z == fp['syslog'].b.z, was.o.z == 0)
                o.ensure('the system log is opened when it starts being used', Implies(z3.BoolVal(t == 'syslog'), If(isl, o.evn == 0, And(o.evn == 1, o.ev(0, 0) == OPEN))))
