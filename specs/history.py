"""Contracts of the value history (gutil_history.c).

Abstract view: the sequence of size(h) samples (time, value), oldest first, times strictly increasing."""
from gvc.spec import *
from gvc.exec import CALL
from gvc.core import IntV

SRC = ['gutil_history']
S = 'gutil_int_history'
MUL = z3.Function('mul', INT, INT, INT)
T63 = 2**63 - 1


class HView:
    def __init__(self, v, h):
        self.v, self.h = v, h
        g = lambda f: v.i(h, S, f)
        self.first, self.last, self.max, self.ref, self.interval = g('first'), g('last'), g('max_size'), g('ref_count'), g('max_interval')
        self.fn = v.p(h, S, 'time')
        self.T, self.V = v.arr(8, h), v.arr(4, h)
        off, _ = v.fld(h, S, 'entry')
        eo, es = v.fld(h, 'gutil_int_history_entry', 'time'), v.fld(h, 'gutil_int_history_entry', 'value')
        mod, self.esz = v.eng.struct_size('gutil_int_history_entry')
        self.to, self.vo, self.off = off + eo[0], off + es[0], off
        self.size = If(self.last < 0, 0, If(self.first > self.last, self.max + self.last - self.first + 1, self.last - self.first + 1))

    def at(self, i):
        j = self.first + i
        return If(j >= self.max, j - self.max, j)

    def tm(self, j):
        """time in slot j"""
        return Select(self.T, j * (self.esz // 8) + self.to // 8)

    def vl(self, j):
        return Select(self.V, j * (self.esz // 4) + self.vo // 4)

    def t(self, i):
        return self.tm(self.at(i))

    def val(self, i):
        return self.vl(self.at(i))

    def wf(self):
        """representation invariant, apart from the sequence: the samples are an abstract sequence with strictly increasing times"""
        return And(Or(And(self.first == -1, self.last == -1),
                      And(self.first >= 0, self.first < self.max, self.last >= 0, self.last < self.max)),
                   self.max >= 1, self.interval >= 1)


def mk(c, shape, span=None):
    """shape: empty, one, lin (first < last), wrap (first > last)"""
    mx = c.nat('max', 1, 2**30)
    mod, esz = c.eng.struct_size('gutil_int_history_entry')
    mod, off, _ = c.eng.field(S, 'entry')
    h = c.block('history', mx * esz + off)
    iv = c.nat('interval', 1, T63)
    fn = c.callback('time')
    if shape == 'empty':
        first = last = L(-1)
    elif shape == 'one':
        first = last = c.nat('first', 0, 2**31 - 1)
    else:
        first, last = c.nat('first', 0, 2**31 - 1), c.nat('last', 0, 2**31 - 1)
    for f, v in dict(ref_count=c.int('ref', 32, 1, 2**31 - 2), time=fn, max_interval=iv, max_size=mx, first=first, last=last).items():
        c.set(h, S, f, v)
    if shape != 'empty':
        c.require(And(first.z < mx.z, last.z < mx.z))
    if shape in ('lin', 'wrap'):
        c.require(first.z < last.z if shape == 'lin' else first.z > last.z)
    c.h, c.mx, c.iv, c.first, c.last, c.fn = h, mx, iv, first, last, fn
    c.n = L(0) if shape == 'empty' else L(1) if shape == 'one' else last - first + 1 if shape == 'lin' else mx + last - first + 1
    v = c.v0 = HView(c, h)
    n = c.n.z
    # the abstract sequence: ST(i), SV(i), strictly increasing times, none negative
    ST, SV = z3.Function('st', INT, INT), z3.Function('sv', INT, INT)
    c.t, c.val = ST, SV
    if shape == 'one':
        c.require(And(v.tm(first.z) == ST(0), v.vl(first.z) == SV(0), ST(0) >= 0))
    elif shape in ('lin', 'wrap'):
        j, l = z3.Const('j?t', INT), z3.Const('l?t', INT)
        slot = lambda i: v.at(i) if shape == 'wrap' else first.z + i
        c.slot = slot
        c.require(forall(lambda i: v.tm(slot(i)) == ST(i), 0, n, pats=lambda i: ST(i)))
        c.require(forall(lambda i: v.vl(slot(i)) == SV(i), 0, n, pats=lambda i: SV(i)))
        c.require(z3.ForAll([j, l], Implies(And(0 <= j, j < l, l < n), ST(j) < ST(l)), patterns=[z3.MultiPattern(ST(j), ST(l))]))
        c.require(And(v.tm(first.z) == ST(0), v.tm(last.z) == ST(n - 1), ST(0) >= 0, ST(0) < ST(n - 1)))
    now = c.now = c.int('now', 64, 0)
    c.calls = 0

    def ind(eng, st, p, av, rt, ins):
        eng.oblige(st, 'only the time function is called', mkcmp('eq', p.b - fn.b, st.rng), ins)
        st.emit(CALL, p.b)
        return [(st, now)]
    c.st.user['indirect'] = ind
    if shape in ('lin', 'wrap'):
        cut = now.s.z - iv.z

        def inv(hv):
            if not HView(View(hv.entry.eng, hv.entry.st), h).first.eq(first.z) or any(isinstance(x, IntV) and x.w == 64 for x in hv.phis.values()):
                return []       # not the loop which drops expired samples

            def f(hh):
                x = HView(View(hh.eng, hh.st), h)
                return x.first == v.at(Z(hh.k))

            def g(hh):
                return And(Z(hh.k) < n, forall(lambda i: c.t(i) < cut, 0, Z(hh.k)))

            def p(hh):
                # whatever loop variable holds the position
                return And(Z(hh.k) < n)
            return [('first moved by k', f), ('all before it expired', g), ('within', p)]
        c.inv('*', inv)
        c.measure('*', lambda eng, st, f, hd, phis, k: [n - k])
    return h


SHAPES = ('empty', 'one', 'lin', 'wrap')


def kept(o, v0, v1, ref=0):
    return And(v1.max == v0.max, v1.interval == v0.interval, v1.ref == v0.ref + ref, v1.fn.b.z == v0.fn.b.z, v1.fn.o.z == v0.fn.o.z)


def flushed(o, c, v1):
    """the samples older than the interval are gone, the others are there in order"""
    n, cut = c.n.z, c.now.s.z - c.iv.z
    d = n - v1.size
    o.ensure('only the oldest samples go, the rest stays in order', And(v1.size >= 0, v1.size <= n, same(c, v1, d, v1.size)))
    o.ensure('exactly the expired samples go', And(forall(lambda i: c.t(i) < cut, 0, d), Or(v1.size == 0, c.t(d) >= cut)))


def same(c, v1, a, n):
    """samples 0..n-1 of v1 are samples a.. of the abstract sequence"""
    return forall(lambda i: And(c.t(a + i) == v1.t(i), c.val(a + i) == v1.val(i)), 0, n)


def null(run, f, *args):
    c = run.case('NULL')
    a = [x(c) if callable(x) else x for x in args]
    outs = c.call(f, NULL, *a)
    for o in outs:
        o.ensure('no events', o.evn == 0)
        o.c = c
        o.a = a
    return outs


@spec('gutil_int_history_new_full', ['H01'], SRC, fns=['gutil_int_history_new', 'gutil_int_history_new_full'])
def _(run):
    for lab in ('new', 'full', 'full, default clock'):
        c = run.case(lab)
        mx, iv = c.int('max', 32), c.int('interval', 64)
        fn = c.callback('time')
        if lab == 'new':
            outs = c.call('gutil_int_history_new', mx, iv)
        else:
            outs = c.call('gutil_int_history_new_full', mx, iv, fn if lab == 'full' else NULL)
        want = fn if lab == 'full' else c.gfun('g_get_monotonic_time')
        for o in outs:
            bad = Or(mx.s.z <= 0, iv.s.z <= 0)
            if o.is_null_const():
                o.ensure('refused only without capacity or interval', bad)
            else:
                v = HView(o, o.ret)
                o.ensure('a new live block with room for all samples', And(Not(bad), o.ret.o.z == 0, o.alive(o.ret), o.ret.b.z >= 1000000,
                                                                         o.size(o.ret) >= v.off + mx.s.z * v.esz))
                o.ensure('empty, one reference', And(v.wf(), v.size == 0, v.ref == 1, v.first == -1, v.last == -1))
                o.ensure('as requested', And(v.max == mx.s.z, v.interval == iv.s.z, v.fn.b.z == want.b.z, v.fn.o.z == want.o.z))


@spec('gutil_int_history_ref', ['W01'], SRC)
def _(run):
    for o in null(run, 'gutil_int_history_ref'):
        o.ensure('NULL', o.null())
    for sh in SHAPES:
        c = run.case(sh)
        h = mk(c, sh)
        for o in c.call('gutil_int_history_ref', h):
            v1 = HView(o, h)
            o.ensure('same object with one more reference', And(o.ret_is(h), kept(o, c.v0, v1, 1), o.evn == 0))
            o.ensure('samples kept', And(v1.size == c.n.z, same(c, v1, 0, c.n.z), v1.first == c.v0.first, v1.last == c.v0.last))


@spec('gutil_int_history_unref', ['W01'], SRC)
def _(run):
    null(run, 'gutil_int_history_unref')
    for sh in SHAPES:
        c = run.case(sh)
        h = mk(c, sh)
        for o in c.call('gutil_int_history_unref', h):
            v1 = HView(o, h)
            o.ensure('released iff it was the last reference', o.alive(h) == (c.v0.ref != 1))
            o.ensure('else one less reference, samples kept', Implies(c.v0.ref != 1, And(kept(o, c.v0, v1, -1), v1.size == c.n.z,
                     same(c, v1, 0, c.n.z))))
            o.ensure('no clock reading', o.evn == 0)


@spec('gutil_int_history_clear', ['H01'], SRC)
def _(run):
    null(run, 'gutil_int_history_clear')
    for sh in SHAPES:
        c = run.case(sh)
        h = mk(c, sh)
        for o in c.call('gutil_int_history_clear', h):
            v1 = HView(o, h)
            o.ensure('empty', And(v1.wf(), v1.size == 0, kept(o, c.v0, v1)))


@spec('gutil_int_history_size', ['H01'], SRC)
def _(run):
    for o in null(run, 'gutil_int_history_size'):
        o.ensure('0', o.ru == 0)
    for sh in SHAPES:
        c = run.case(sh)
        h = mk(c, sh)
        for o in c.call('gutil_int_history_size', h):
            v1 = HView(o, h)
            o.ensure('well formed', And(v1.wf(), kept(o, c.v0, v1)))
            flushed(o, c, v1)
            o.ensure('the number of samples left', o.ru == v1.size)


@spec('gutil_int_history_interval', ['H01'], SRC)
def _(run):
    for o in null(run, 'gutil_int_history_interval'):
        o.ensure('0', o.rs == 0)
    for sh in SHAPES:
        c = run.case(sh)
        h = mk(c, sh)
        for o in c.call('gutil_int_history_interval', h):
            v1 = HView(o, h)
            o.ensure('well formed', And(v1.wf(), kept(o, c.v0, v1)))
            flushed(o, c, v1)
            o.ensure('age of the oldest sample left', o.rs == If(v1.size == 0, 0, c.now.s.z - v1.t(0)))


SCOPE = ((2**31, 2**31 - 1), (2**10, 2**52 - 1))     # value magnitude, length of time: the product fits


def tdiv(a, b):
    aa, ab = If(a >= 0, a, -a), If(b >= 0, b, -b)
    return If((a >= 0) == (b >= 0), aa / ab, -(aa / ab))


def mean(c, Ft, Fv, m, M, D, inline=False):
    """the area under the line through samples 0..m-1 (AREA(i): up to sample i) and the facts about products in scope.
    Returns the expected mean of samples d..m-1."""
    AREA = z3.Function('area', INT, INT)
    c.eng.abstract_nl = True
    x, y = z3.Const('x?m', INT), z3.Const('y?m', INT)
    c.require(z3.ForAll([x, y], MUL(x, y) == MUL(y, x), patterns=[MUL(x, y)]))
    c.require(z3.ForAll([x, y], Implies(And(x >= 0, y >= -2 * M, y <= 2 * M), And(Implies(y <= 2 * M - 2, MUL(x, y) <= (2 * M - 2) * x), MUL(x, y) <= 2 * M * x, MUL(x, y) >= -2 * M * x)), patterns=[MUL(x, y)]))
    # scope: values within +-M and times apart less than D, so that products and sums fit into 64 bits
    c.require(forall(lambda j: And(Fv(j) >= -M, Fv(j) <= M - 1), 0, m, pats=lambda j: Fv(j)))
    c.require(Ft(m - 1) - Ft(L(0).z) <= D)
    c.require(AREA(0) == 0)
    PREV = z3.Function('area_prev', INT, INT)     # AREA again, so that the definition unfolds once only
    c.require(forall(lambda i: And(AREA(i) == PREV(i - 1) + tdiv(MUL(Ft(i) - Ft(i - 1), Fv(i) + Fv(i - 1)), L(2).z)), 1, m, pats=lambda i: AREA(i)))
    c.require(forall(lambda i: AREA(i) == PREV(i), 0, m, pats=lambda i: AREA(i)))

    def inv(hv):
        if not any(isinstance(x, IntV) and x.w == 64 for x in hv.phis.values()):
            return []       # not the loop over the samples
        e = HView(View(hv.entry.eng, hv.entry.st), c.h)
        d = hv.define('d', m - e.size)
        want = [('slot', lambda k: If(e.first + k >= e.max, e.first + k - e.max, e.first + k)), ('value', lambda k: Fv(d + k)), ('time', lambda k: Ft(d + k)),
                ('time passed', lambda k: Ft(d + k) - Ft(d)), ('area', lambda k: AREA(d + k) - AREA(d))]
        fs = []
        for n, v in hv.phis.items():
            if isinstance(v, IntV):
                for lab, w in want:
                    if (v.w == 64) == (lab in ('time', 'time passed', 'area')):
                        fs.append(('=%s is the %s' % (n, lab), lambda h, n=n, w=w: h.s(h.phis[n]) == w(Z(h.k))))
        fs.append(('=within', lambda h: Z(h.k) <= m - d - 1))
        fs.append(('=not at the last', lambda h: Z(h.k) < m - d - 1))       # where the loop tests at its end

        def bound(h):
            k = Z(h.k)
            a, t = AREA(d + k) - AREA(d), Ft(d + k) - Ft(d)
            return And(a <= (M - 1) * t, a >= -M * t, t >= 0, t <= D)
        fs.append(('=area in bounds', bound))
        return fs
    c.inv('*', inv)
    c.measure('*', lambda eng, st, f, hd, phis, k: [m - k])

    def contract(eng, st, av, ins):
        """calls of the static function which computes the mean go by its contract"""
        v = HView(View(eng, st), c.h)
        d = m - v.size
        eng.oblige(st, 'mean of this history', And(av[0].b.z == c.h.b.z, av[0].o.z == 0), ins)
        eng.oblige(st, 'mean of a non-empty history', And(v.wf(), v.size >= 1, v.size <= m), ins)
        eng.oblige(st, 'mean of the expected samples', forall(lambda i: And(Ft(d + i) == v.t(i), Fv(d + i) == v.val(i)), 0, v.size), ins)
        eng.oblige(st, 'mean of samples in order of time', forall(lambda i, j: Implies(i < j, Ft(i) < Ft(j)), 0, m, n=2), ins)
        r = eng.fresh_int('mean', 32)
        st.add(r.s.z == If(v.size == 1, Fv(d), tdiv(AREA(m - 1) - AREA(d), Ft(m - 1) - Ft(d))))
        return [(st, r)]
    if not inline:
        c.eng.contracts = dict(c.eng.contracts, gutil_int_history_median_at=contract)

    def q(o, d):
        a, t = AREA(m - 1) - AREA(d), Ft(m - 1) - Ft(d)
        if inline: o.lemma('a mean is in the range of the values', lambda a, t: Implies(And(t >= 1, a <= (M - 1) * t, a >= -M * t), And(tdiv(a, t) >= -M, tdiv(a, t) <= M - 1)), a, t)
        return tdiv(a, t)
    return q


@spec('gutil_int_history_median_at', ['H01', 'H02'], SRC, optional=True)
def _(run):
    f = [m.funcs['gutil_int_history_median_at'] for m in run.modules if 'gutil_int_history_median_at' in m.funcs]
    if not f:
        return      # no such function: its callers are verified with its code in place
    for sh in SHAPES[1:]:
        for M, D in SCOPE:
            c = run.case('%s %d' % (sh, M.bit_length() - 1))
            h = mk(c, sh)
            n = c.n.z
            q = mean(c, c.t, c.val, n, M, D, inline=True)
            for o in c.call('gutil_int_history_median_at', *[h if t.k == 'ptr' else c.now for _, t in f[0].params]):
                v1 = HView(o, h)
                o.ensure('nothing changes', And(kept(o, c.v0, v1), v1.first == c.v0.first, v1.last == c.v0.last, same(c, v1, 0, n), o.evn == 0))
                o.ensure('the time-weighted mean', o.rs == If(n == 1, c.val(0), q(o, L(0).z)))


@spec('gutil_int_history_median', ['H02', 'H01'], SRC)
def _(run):
    for o in null(run, 'gutil_int_history_median', lambda c: c.int('def', 32)):
        o.ensure('the default', o.rs == o.a[0].s.z)
    for sh in SHAPES:
        for M, D in SCOPE if sh in ('lin', 'wrap') else SCOPE[:1]:
            c = run.case('%s %d' % (sh, M.bit_length() - 1))
            h = mk(c, sh)
            v0 = c.v0
            q = mean(c, c.t, c.val, c.n.z, M, D) if sh in ('lin', 'wrap') else None
            df = c.int('def', 32)
            for o in c.call('gutil_int_history_median', h, df):
                v1 = HView(o, h)
                o.ensure('well formed', And(v1.wf(), kept(o, c.v0, v1)))
                flushed(o, c, v1)
                r = If(v1.size == 0, df.s.z, If(v1.size == 1, c.val(c.n.z - 1), q(o, c.n.z - v1.size) if q else df.s.z))
                o.ensure('the time-weighted mean of what is left, or the default', o.rs == r)


@spec('gutil_int_history_add', ['H01', 'H02'], SRC)
def _(run):
    for o in null(run, 'gutil_int_history_add', lambda c: c.int('value', 32)):
        o.ensure('0', o.rs == 0)
    for sh in SHAPES:
        for M, D in SCOPE if sh != 'empty' else SCOPE[:1]:
            c = run.case('%s %d' % (sh, M.bit_length() - 1))
            h = mk(c, sh)
            v0, n, now = c.v0, c.n.z, c.now.s.z
            val = c.int('value', 32)
            x = val.s.z
            c.require(And(x >= -M, x < M))
            cut = now - c.iv.z
            q = None
            if sh == 'empty':
                gone = z3.BoolVal(True)
            else:
                # the expected sequence: the old one with the new sample appended, or put in place of the last one
                # if no time has passed
                last = c.t(n - 1)
                gone = last < cut
                app = now > last
                m = c.nat('m', 1, 2**31).z
                c.require(m == If(app, n + 1, n))
                FT, FV = z3.Function('ft', INT, INT), z3.Function('fv', INT, INT)
                c.require(forall(lambda i: FT(i) == If(i == n, now, c.t(i)), 0, n + 1, pats=lambda i: FT(i)))
                c.require(forall(lambda i: FV(i) == If(i == m - 1, x, c.val(i)), 0, m, pats=lambda i: FV(i)))
                q = mean(c, FT, FV, m, M, D)
            for o in c.call('gutil_int_history_add', h, val):
                v1 = HView(o, h)
                k = v1.size
                o.ensure('well formed', And(v1.wf(), kept(o, c.v0, v1)))
                o.ensure('never empty, never more than the capacity', And(k >= 1, k <= v1.max))
                o.ensure('if nothing else is left, just the new sample', Implies(gone, And(k == 1, v1.t(0) == now, v1.val(0) == x, o.rs == x)))
                if q:
                    d = m - k
                    o.ensure('times increase in the expected sequence', Implies(Not(gone), forall(lambda i, j: Implies(i < j, FT(i) < FT(j)), 0, m, n=2)))
                    o.ensure('only the oldest samples go, the rest and the new one stay in order',
                             Implies(Not(gone), And(k <= m, forall(lambda i: And(FT(d + i) == v1.t(i), FV(d + i) == v1.val(i)), 0, k))))
                    o.ensure('exactly the expired samples go, and one more when the capacity is used up',
                             Implies(Not(gone), Or(And(forall(lambda i: FT(i) < cut, 0, d), FT(d) >= cut),
                                                   And(app, k == v1.max, d >= 1, forall(lambda i: FT(i) < cut, 0, d - 1), FT(d - 1) >= cut))))
                    o.ensure('returns the time-weighted mean', Implies(Not(gone), o.rs == If(k == 1, x, q(o, d))))
