"""Contracts of gutil_datapack.c: the multi-byte numbers and tag-length-value blocks.

A multi-byte number is at most ten groups of seven bits, so every loop over its groups is unwound completely
(what could go on is shown infeasible): nothing is bounded by that."""
from gvc.spec import *
from gvc.core import PtrV, IntV
from gvc.exec import BIT

SRC = ['gutil_datapack']
W = 64
MAXG = 10
BIG = 2**61


def p7(k):
    return 128**k


class Range:
    """a range of n readable bytes inside a larger block"""

    def __init__(self, c, n=None):
        self.off = c.nat('off', 0, BIG)
        self.n = c.nat('n', 0, BIG) if n is None else n
        self.d = c.bytesblk('d', self.n, self.off, c.nat('tail', 0, BIG))
        self.A = c.arr(1, self.d)
        self.r = c.struct('gutil_range', dict(ptr=self.d, end=self.d.at(self.n)), 'range')

    def byte(self, i):
        return Select(self.A, self.off.z + i)

    def kept(self, o):
        return And(o.arr(1, self.d) == self.A)

    def at(self, o, k):
        """the range now starts k bytes further on and ends where it did"""
        p, e = o.p(self.r, 'gutil_range', 'ptr'), o.p(self.r, 'gutil_range', 'end')
        return And(p.b.z == self.d.b.z, p.o.z == self.off.z + k, e.b.z == self.d.b.z, e.o.z == self.off.z + self.n.z)


def groups(byte, n, signed, each):
    """what decoding must do, for each number k+1 of groups: each(k, condition, value, value fits)"""
    for k in range(MAXG):
        cond = And(n >= k + 1, byte(k) < 128, *[byte(i) >= 128 for i in range(k)])
        v = z3.Sum([(byte(i) - (128 if i < k else 0)) * p7(k - i) for i in range(k + 1)])
        if signed:
            b0 = byte(0) - (128 if k > 0 else 0)
            v = If(b0 >= 64, v - p7(k + 1), v)
            each(k, cond, v, And(v >= -2**63, v < 2**63))
        else:
            each(k, cond, v, v < 2**64)


def some(byte, n):
    return Or(*[And(n >= k + 1, byte(k) < 128, *[byte(i) >= 128 for i in range(k)]) for k in range(MAXG)])


def decode(run, f, signed):
    for lab in ('result wanted', 'result not wanted'):
        c = run.case(lab)
        c.eng.sym_unroll = 12
        r = Range(c)
        out = c.block('out', L(8), kinds={8}) if lab == 'result wanted' else NULL
        o0 = c.st.get(8, out.b, Lin(0)).z if out is not NULL else None
        for o in c.call(f, r.r, out):
            got = None
            if out is not NULL:
                v, _ = o.st.find(8, out.b, Lin(0))
                got = Z(L(v)) if signed else If(Z(L(v)) < 0, Z(L(v)) + 2**64, Z(L(v)))
            cs = []

            def each(k, cond, v, fits):
                ok = [o.truth() == fits, r.at(o, If(fits, k + 1, 0))]
                if got is not None:
                    ok.append(If(fits, got == v, got == (o0 if signed else If(o0 < 0, o0 + 2**64, o0))))
                o.ensure('%d bytes: value delivered iff it fits, range advanced past it' % (k + 1), Implies(cond, And(*ok)))
            groups(r.byte, r.n.z, signed, each)
            o.ensure('unterminated or longer: rejected, nothing consumed', Implies(Not(some(r.byte, r.n.z)), And(Not(o.truth()), r.at(o, 0))))
            o.ensure('input kept', r.kept(o))


@spec('gutil_unsigned_mbn_decode', ['D01', 'D03'], SRC)
def _(run):
    decode(run, 'gutil_unsigned_mbn_decode', False)


@spec('gutil_signed_mbn_decode', ['D02', 'D03'], SRC)
def _(run):
    decode(run, 'gutil_signed_mbn_decode', True)


def size_ok(v, r, signed):
    """r is the smallest number of groups that holds v"""
    if signed:
        f = lambda k: And(v >= -(p7(k) // 2), v < p7(k) // 2) if k else z3.BoolVal(False)
    else:
        f = lambda k: v < p7(k) if k else z3.BoolVal(False)
    return And(r >= 1, r <= MAXG, *[Implies(r == k, And(f(k), Not(f(k - 1)))) for k in range(1, MAXG + 1)])


def encoded(v, byte, n, signed):
    """the n bytes are the groups of v, most significant first"""
    out = []
    for i in range(n - 1, -1, -1):
        out.append(byte(i) == v % 128 + (128 if i < n - 1 else 0))
        v = v / 128
    return And(*out)


def size(run, f, signed):
    c = run.case('')
    c.eng.sym_unroll = 12
    x = c.int('value', 64, unsigned=not signed)
    v = c.eng.sv(c.st, x).z if signed else c.eng.uv(c.st, x).z
    for o in c.call(f, x):
        o.ensure('the smallest number of groups', size_ok(v, o.ru, signed))


@spec('gutil_unsigned_mbn_size', ['D01'], SRC)
def _(run):
    size(run, 'gutil_unsigned_mbn_size', False)


@spec('gutil_signed_mbn_size', ['D02'], SRC)
def _(run):
    size(run, 'gutil_signed_mbn_size', True)


def encode(run, f, signed):
    c = run.case('')
    c.eng.sym_unroll = 12
    x = c.int('value', 64, unsigned=not signed)
    v = c.eng.sv(c.st, x).z if signed else c.eng.uv(c.st, x).z
    off = c.nat('off', 0, BIG)
    # room for exactly the minimal encoding
    n = c.nat('size', 1, MAXG)
    c.require(size_ok(v, n.z, signed))
    b = c.bytesblk('buf', n, off, c.nat('tail', 0, BIG))
    A0 = c.arr(1, b)
    for o in c.call(f, b, x):
        A = o.arr(1, b)
        byte = lambda i: Select(A, off.z + i)
        o.ensure('returns the size', o.ru == n.z)
        for k in range(1, MAXG + 1):
            o.ensure('%d groups, most significant first' % k, Implies(n.z == k, encoded(v, byte, k, signed)))
        o.ensure('nothing else written', forall(lambda i: Implies(Or(i < off.z, i >= off.z + n.z), Select(A, i) == Select(A0, i))))


@spec('gutil_unsigned_mbn_encode', ['D01'], SRC, fns=['gutil_unsigned_mbn_encode', 'gutil_unsigned_mbn_encode2'])
def _(run):
    encode(run, 'gutil_unsigned_mbn_encode', False)


@spec('gutil_signed_mbn_encode', ['D02'], SRC, fns=['gutil_signed_mbn_encode', 'gutil_signed_mbn_encode2'])
def _(run):
    encode(run, 'gutil_signed_mbn_encode', True)


def encode2(run, f, signed):
    """any size: that many groups (the ones that do not fit are lost, surplus ones hold the sign)"""
    for k in range(0, MAXG + 1):
        c = run.case('size %d' % k)
        c.eng.sym_unroll = 12
        x = c.int('value', 64, unsigned=not signed)
        v = c.eng.sv(c.st, x).z if signed else c.eng.uv(c.st, x).z
        off = c.nat('off', 0, BIG)
        b = c.bytesblk('buf', L(k), off, c.nat('tail', 0, BIG))
        A0 = c.arr(1, b)
        for o in c.call(f, b, x, c.const(32, k)):
            A = o.arr(1, b)
            o.ensure('returns the size', o.ru == k)
            o.ensure('groups, most significant first', encoded(v, lambda i: Select(A, off.z + i), k, signed))
            o.ensure('nothing else written', forall(lambda i: Implies(Or(i < off.z, i >= off.z + k), Select(A, i) == Select(A0, i))))


@spec('gutil_unsigned_mbn_encode2', ['D01'], SRC)
def _(run):
    encode2(run, 'gutil_unsigned_mbn_encode2', False)


@spec('gutil_signed_mbn_encode2', ['D02'], SRC)
def _(run):
    encode2(run, 'gutil_signed_mbn_encode2', True)


def roundtrip(run, f, signed):
    """what the encoder is proved to write is, by what the decoder is proved to do, decoded to the same value"""
    c = run.case('')
    c.eng.sym_unroll = 12
    x = c.int('value', 64, unsigned=not signed)
    v = c.eng.sv(c.st, x).z if signed else c.eng.uv(c.st, x).z
    for o in c.call(f, x):
        bs = [z3.Const('byte%d' % i, INT) for i in range(MAXG)]
        o.ensure('1 to 10 groups', And(o.ru >= 1, o.ru <= MAXG))

        def each(k, cond, w, fits):
            o.ensure('%d groups' % (k + 1), Implies(And(o.ru == k + 1, encoded(v, lambda i: bs[i], k + 1, signed)), And(cond, w == v, fits)))
        groups(lambda i: bs[i], o.ru, signed, each)


@spec('gutil_unsigned_mbn: round trip', ['D01'], SRC, fns=['gutil_unsigned_mbn_encode', 'gutil_unsigned_mbn_decode'])
def _(run):
    roundtrip(run, 'gutil_unsigned_mbn_size', False)


@spec('gutil_signed_mbn: round trip', ['D02'], SRC, fns=['gutil_signed_mbn_encode', 'gutil_signed_mbn_decode'])
def _(run):
    roundtrip(run, 'gutil_signed_mbn_size', True)


class Data(Range):
    """the same as a GUtilData"""

    def __init__(self, c, n=None):
        Range.__init__(self, c, n)
        self.r = c.struct('gutil_data', dict(bytes=self.d, size=self.n), 'data')


def decode2(run, f, signed):
    for lab in ('NULL data', 'empty data'):
        c = run.case(lab)
        out = c.block('out', L(8), kinds={8})
        A0 = c.arr(8, out)
        p = NULL if lab == 'NULL data' else c.struct('gutil_data', dict(bytes=c.anyptr('p'), size=0), 'data')
        for o in c.call(f, p, out):
            o.ensure('rejected', And(Not(o.truth()), o.arr(8, out) == A0))
    for lab in ('result wanted', 'result not wanted'):
        c = run.case(lab)
        c.eng.sym_unroll = 12
        r = Data(c, c.nat('n', 1, BIG))
        out = c.block('out', L(8), kinds={8}) if lab == 'result wanted' else NULL
        o0 = c.st.get(8, out.b, Lin(0)).z if out is not NULL else None
        for o in c.call(f, r.r, out):
            got = None
            if out is not NULL:
                v, _ = o.st.find(8, out.b, Lin(0))
                got = Z(L(v)) if signed else If(Z(L(v)) < 0, Z(L(v)) + 2**64, Z(L(v)))

            def each(k, cond, v, fits):
                ok = And(fits, r.n.z == k + 1)
                w = [o.truth() == ok]
                if got is not None:
                    w.append(If(ok, got == v, got == (o0 if signed else If(o0 < 0, o0 + 2**64, o0))))
                o.ensure('%d bytes: accepted iff that is all and it fits' % (k + 1), Implies(cond, And(*w)))
            groups(r.byte, r.n.z, signed, each)
            o.ensure('unterminated or longer: rejected', Implies(Not(some(r.byte, r.n.z)), Not(o.truth())))
            o.ensure('input kept', r.kept(o))


@spec('gutil_unsigned_mbn_decode2', ['D01', 'D03'], SRC)
def _(run):
    decode2(run, 'gutil_unsigned_mbn_decode2', False)


@spec('gutil_signed_mbn_decode2', ['D02', 'D03'], SRC)
def _(run):
    decode2(run, 'gutil_signed_mbn_decode2', True)


# ---- tag-length-value blocks

MOK = z3.Function('mok', INT, z3.BoolSort())
MVAL = z3.Function('mval', INT, INT)
MLEN = z3.Function('mlen', INT, INT)


def number_contract(r, n):
    """calls of gutil_unsigned_mbn_decode go by its contract; what is decoded at a position is a function of it"""
    d, off = r.d, r.off

    def contract(eng, st, av, ins):
        mod, fp, _ = eng.field('gutil_range', 'ptr')
        v = View(eng, st)
        p, e = v.p(av[0], 'gutil_range', 'ptr'), v.p(av[0], 'gutil_range', 'end')
        pos = L(p.o) - off
        eng.oblige(st, 'decoding within the data', And(p.b.z == d.b.z, e.b.z == d.b.z, e.o.z == off.z + n.z, pos.z >= 0), ins)
        no = st.copy()
        no.add(Not(MOK(pos.z)))
        st.add(And(MOK(pos.z), MLEN(pos.z) >= 1, MLEN(pos.z) <= MAXG, pos.z + MLEN(pos.z) <= n.z, MVAL(pos.z) >= 0, MVAL(pos.z) < 2**64))
        ln = atom(MLEN(pos.z), (1, MAXG))
        val = atom(MVAL(pos.z), (0, 2**64 - 1))
        st.store('PB', av[0].b, (av[0].o + fp).div(8), p.b)
        st.store('PO', av[0].b, (av[0].o + fp).div(8), p.o + ln)
        out = av[1]
        if out.b.const() != 0:
            x = IntV(64, u=val)
            st.store(8, out.b, out.o.div(8), eng.sv(st, x), x)
        return [(st, eng.iconst(32, 1)), (no, eng.iconst(32, 0))]
    return contract


class Block:
    """the block at a position: tag (0 if there is no block), start and size of its value, start of the next one"""

    def __init__(self, pos, n):
        p1 = pos + MLEN(pos)
        self.vo = p1 + MLEN(p1)
        self.vl = MVAL(p1)
        self.next = self.vo + self.vl
        self.ok = And(MOK(pos), MVAL(pos) >= 1, MVAL(pos) <= 2**31 - 1, MOK(p1), n - self.vo >= self.vl)
        self.tag = If(self.ok, MVAL(pos), 0)


@spec('gutil_tlv_decode', ['D04', 'D03', 'D05'], SRC)
def _(run):
    for lab in ('value wanted', 'value not wanted'):
        c = run.case(lab)
        r = Range(c)
        val = c.struct('gutil_data', dict(bytes=c.anyptr('vp'), size=c.int('vs', 64, unsigned=True)), 'val') if lab == 'value wanted' else NULL
        if val is not NULL:
            p0, s0 = c.p(val, 'gutil_data', 'bytes'), c.u(val, 'gutil_data', 'size')
        c.eng.contracts = dict(c.eng.contracts, gutil_unsigned_mbn_decode=number_contract(r, r.n))
        b = Block(L(0).z, r.n.z)
        for o in c.call('gutil_tlv_decode', r.r, val):
            o.ensure('the tag, or zero if there is no block', o.ru == b.tag)
            o.ensure('advanced past the block or not at all', r.at(o, If(b.ok, b.next, 0)))
            o.ensure('not beyond the end', Implies(b.ok, And(b.next > 0, b.next <= r.n.z)))
            if val is not NULL:
                p1, s1 = o.p(val, 'gutil_data', 'bytes'), o.u(val, 'gutil_data', 'size')
                o.ensure('the value is what follows the length, nothing is stored if there is no block',
                         If(b.ok, And(p1.b.z == r.d.b.z, p1.o.z == r.off.z + b.vo, s1 == b.vl), And(p1.b.z == p0.b.z, p1.o.z == p0.o.z, s1 == s0)))
            o.ensure('input kept', r.kept(o))


def value(c, lab, n):
    if lab == 'no value':
        return NULL, None
    if lab == 'empty value':
        return c.struct('gutil_data', dict(bytes=c.anyptr('vp'), size=0), 'val'), None
    d = c.bytesblk('vd', n, c.nat('voff', 0, BIG), c.nat('vtail', 0, BIG))
    return c.struct('gutil_data', dict(bytes=d, size=n), 'val'), d


def ksize(v, k, maxk=MAXG):
    return And(v < p7(k), v >= (p7(k - 1) if k > 1 else 0))


@spec('gutil_tlv_size', ['D04'], SRC)
def _(run):
    c = run.case('')
    c.eng.sym_unroll = 12
    t = c.int('tag', 32, unsigned=True)
    n = c.int('len', 64, 0, 2**32 - 16, unsigned=True)
    tv, nv = c.eng.uv(c.st, t).z, c.eng.uv(c.st, n).z
    for o in c.call('gutil_tlv_size', t, n):
        o.ensure('the sizes of the parts', And(*[Implies(And(ksize(tv, i), ksize(nv, j)), o.ru == i + j + nv) for i in range(1, 6) for j in range(1, 6)]))


@spec('gutil_tlv_encode', ['D04'], SRC)
def _(run):
    for lab, g in [('no value', 0), ('empty value', 0)] + [('value', i) for i in range(1, 6)]:
        c = run.case(lab + (', tag of %d groups' % g if g else ''))
        c.eng.sym_unroll = 12
        t = c.int('tag', 32, p7(g - 1) if g > 1 else 0, p7(g) - 1 if g else None, unsigned=True)
        tv = c.eng.uv(c.st, t).z
        n = c.nat('len', 1, BIG) if lab == 'value' else L(0)
        val, vd = value(c, lab, n)
        off, room = c.nat('off', 0, BIG), c.nat('room', 2, 2 * BIG)
        # room for exactly the block
        c.require(Or(*[And(ksize(tv, i), ksize(n.z, j), room.z == i + j + n.z) for i in range(1, 6) for j in range(1, MAXG + 1)]))
        b = c.bytesblk('buf', room, off, c.nat('tail', 0, BIG))
        A0 = c.arr(1, b)
        V0 = c.arr(1, vd) if vd is not None else None
        for o in c.call('gutil_tlv_encode', b, t, val):
            A = o.arr(1, b)
            byte = lambda i: Select(A, off.z + i)
            known = lambda v, m: next(([k] for k in range(1, m + 1) if o.eng.prove_qf(o.st, ksize(v, k))), range(1, m + 1))
            js = known(n.z, MAXG) if vd is not None else (1,)
            for i in known(tv, 5):
                o.ensure('tag of %d groups comes first' % i, Implies(ksize(tv, i), encoded(tv, byte, i, False)))
                for j in js:
                    h = And(ksize(tv, i), ksize(n.z, j) if vd is not None else True)
                    o.ensure('tag of %d, length of %d groups: returns the size' % (i, j), Implies(h, o.ru == i + j + n.z))
                    o.ensure('tag of %d, length of %d groups: length' % (i, j), Implies(h, encoded(n.z, lambda k: byte(i + k), j, False)))
                    if vd is not None:
                        o.ensure('tag of %d, length of %d groups: value' % (i, j), Implies(h, forall(lambda k: Select(A, k) == Select(V0, k - (off.z + i + j) + vd.o.z), off.z + i + j, off.z + i + j + n.z)))
            o.ensure('nothing else written', forall(lambda i: Implies(Or(i < off.z, i >= off.z + room.z), Select(A, i) == Select(A0, i))))
            if vd is not None:
                o.ensure('value kept', o.arr(1, vd) == V0)


# ---- sequences of blocks

TG, VO, VL, NX = [z3.Function(x, INT, INT) for x in ('tag', 'valoff', 'vallen', 'nextblk')]
PS = z3.Function('blkpos', INT, INT)        # position of a block
IX = z3.Function('tagidx', INT, INT)        # its index among the expected tags (-1: none)
LOC = z3.Function('tagloc', INT, INT)       # which block is the first one with that expected tag (-1: none)
MAXT = 31


@spec('gutil_tlvs_decode', ['D05'], SRC)
def _(run):
    for lab in ('values wanted', 'values not wanted'):
        c = run.case(lab)
        n = c.nat('n', 0, BIG)
        r = Data(c, n)
        m = c.nat('ntags', 0, 2**28)
        tags = c.block('tags', m * 4 + 4, kinds={4})
        tag = lambda i: Select(c.arr(4, tags), Z(i))
        c.require(And(tag(m.z) == 0, forall(lambda i: And(tag(i) != 0, tag(i) >= -2**31, tag(i) < 2**31), 0, m, pats=tag)))
        vals = c.block('vals', m * 16, kinds={'P', 8}) if lab == 'values wanted' else NULL
        flags = c.int('flags', 32, unsigned=True)
        skip = c.eng.uv(c.st, flags).z % 2 == 1
        stop = c.nat('stop', 0, BIG)
        K = z3.Const('k?s', INT)
        T = lambda k: TG(PS(k))
        X = lambda k: IX(TG(PS(k)))
        go = lambda k: And(T(k) >= 1, If(X(k) >= 0, LOC(X(k)) == k, skip))
        # the blocks, up to the one where decoding stops
        c.require(And(PS(L(0).z) == 0, Not(go(stop.z))))
        c.require(forall(go, 0, stop, pats=lambda k: PS(k)))
        # the first block of each expected tag
        c.require(forall(lambda k: Implies(And(T(k) >= 1, X(k) >= 0), And(LOC(X(k)) >= 0, LOC(X(k)) <= k)), 0, stop + 1, pats=lambda k: PS(k)))
        c.require(forall(lambda j: Implies(And(LOC(j) >= 0, LOC(j) <= stop.z), And(T(LOC(j)) >= 1, X(LOC(j)) == j)), 0, MAXT, pats=lambda j: LOC(j)))
        c.require(forall(lambda j: Not(BIT(L(0).z, j)), pats=lambda j: BIT(L(0).z, j)))
        where = []

        def contract(eng, st, av, ins):
            """calls of gutil_tlv_decode go by its contract"""
            v = View(eng, st)
            where[:] = [av[0]]
            p, e = v.p(av[0], 'gutil_range', 'ptr'), v.p(av[0], 'gutil_range', 'end')
            pos = L(p.o) - r.off
            eng.oblige(st, 'decoding within the data', And(p.b.z == r.d.b.z, e.b.z == r.d.b.z, e.o.z == r.off.z + n.z, pos.z >= 0, pos.z <= n.z), ins)
            t = TG(pos.z)
            no = st.copy()
            no.add(t == 0)
            lim = If(m.z < MAXT, m.z, MAXT)
            st.add(And(t >= 1, t <= 2**31 - 1, NX(pos.z) > pos.z, NX(pos.z) <= n.z, VO(pos.z) > pos.z, VL(pos.z) >= 0, NX(pos.z) == VO(pos.z) + VL(pos.z)))
            # what index means, for this tag
            x = IX(t)
            st.add(And(x >= -1, x < lim, Implies(x >= 0, tag(x) == t)))
            st.add(forall(lambda i: Implies(Or(x == -1, i < x), tag(i) != t), 0, lim, pats=tag))
            mod, fp, _ = eng.field('gutil_range', 'ptr')
            st.store('PB', av[0].b, (av[0].o + fp).div(8), p.b)
            st.store('PO', av[0].b, (av[0].o + fp).div(8), r.off + atom(NX(pos.z)))
            if av[1].b.const() != 0:
                mod, fb, _ = eng.field('gutil_data', 'bytes')
                mod, fs, _ = eng.field('gutil_data', 'size')
                st.store('PB', av[1].b, (av[1].o + fb).div(8), r.d.b)
                st.store('PO', av[1].b, (av[1].o + fb).div(8), r.off + atom(VO(pos.z)))
                sz = IntV(64, u=atom(VL(pos.z), (0, 2**62)))
                st.add(VL(pos.z) <= n.z)
                st.store(8, av[1].b, (av[1].o + fs).div(8), eng.sv(st, sz), sz)
            return [(st, IntV(32, u=atom(t, (1, 2**31 - 1)), s=atom(t, (1, 2**31 - 1)))), (no, eng.iconst(32, 0))]
        c.eng.contracts = dict(c.eng.contracts, gutil_tlv_decode=contract)
        seen = lambda j, k: And(LOC(j) >= 0, LOC(j) < k)

        def filled(v, k):
            PB, PO, S = v.arr('PB', vals), v.arr('PO', vals), v.arr(8, vals)
            at = lambda j: PS(LOC(j))
            return forall(lambda j: If(And(j < MAXT, seen(j, k)), And(Select(PB, 2 * j) == r.d.b.z, Select(PO, 2 * j) == r.off.z + VO(at(j)), Select(S, 2 * j + 1) == VL(at(j))),
                                       And(Select(PB, 2 * j) == 0, Select(PO, 2 * j) == 0, Select(S, 2 * j + 1) == 0)), 0, m.z, pats=lambda j: LOC(j))

        def inv(hv):
            if not where or (L(View(hv.entry.eng, hv.entry.st).p(where[0], 'gutil_range', 'ptr').o) - r.off).const() != 0:
                return []       # not the loop over the blocks
            k0 = Z(hv.k)
            hv.entry.defs.append(Implies(And(k0 >= 0, k0 < stop.z), PS(k0 + 1) == NX(PS(k0))))

            def at(h):
                p = View(h.eng, h.st).p(where[0], 'gutil_range', 'ptr')
                return And(p.b.z == r.d.b.z, p.o.z == r.off.z + PS(Z(h.k)), PS(Z(h.k)) >= 0, PS(Z(h.k)) <= n.z)
            fs = [('=at block k', at), ('=not beyond the end', lambda h: Z(h.k) <= stop.z)]
            for name, v in hv.phis.items():
                if isinstance(v, IntV) and v.w == 32:
                    def bits(h, name=name):
                        x = h.s(h.phis[name])
                        simple = not z3.is_app(x) or x.decl().kind() == z3.Z3_OP_UNINTERPRETED
                        return And(x >= 0, forall(lambda j: BIT(x, j) == seen(j, Z(h.k)), 0, MAXT, pats=(lambda j: BIT(x, j)) if simple else None))
                    fs.append(('=%s has the bits of the tags seen' % name, bits))
            if vals is not NULL:
                fs.append(('=values seen are there, others zero', lambda h: filled(View(h.eng, h.st), Z(h.k))))
            return fs
        c.inv('*', inv)
        c.measure('*', lambda eng, st, f, hd, phis, k: [n.z - PS(k)])
        for o in c.call('gutil_tlvs_decode', r.r, tags, vals, flags):
            k = stop.z
            o.ensure('all of it decoded: the tags seen', Implies(And(T(k) == 0, PS(k) == n.z), And(o.rs >= 0, forall(lambda j: BIT(o.rs, j) == seen(j, k), 0, MAXT))))
            o.ensure('malformed block: error', Implies(And(T(k) == 0, PS(k) != n.z), o.rs == -1))
            o.ensure('repeated tag: error', Implies(And(T(k) >= 1, X(k) >= 0), o.rs == -2))
            o.ensure('unknown tag which is not to be skipped: error', Implies(And(T(k) >= 1, X(k) < 0), o.rs == -3))
            if vals is not NULL:
                o.ensure('values seen are there, others zero', filled(o, k))
            o.ensure('input and tags kept', And(r.kept(o), o.arr(4, tags) == c.arr(4, tags)))
