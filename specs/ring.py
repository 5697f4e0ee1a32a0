"""Contracts of the ring buffer (gutil_ring.c).

Abstract view: the sequence of size(r) pointers el(0..size-1); representation invariant WF."""
from gvc.spec import *

SRC = ['gutil_ring']
S = 'gutil_ring'
MAXALLOC = 2**30 - 1


def idx(start, i, alloc):
    return If(start + i >= alloc, start + i - alloc, start + i)


class RView:
    """abstract view of ring r in state v"""

    def __init__(self, v, r):
        self.v, self.r = v, r
        g = lambda f: v.i(r, S, f)
        self.alloc, self.maxsiz, self.start, self.end, self.ref = g('alloc'), g('maxsiz'), g('start'), g('end'), g('ref_count')
        self.data = v.p(r, S, 'data')
        self.ff = v.p(r, S, 'free_func')
        self.B, self.O = v.arr('PB', self.data), v.arr('PO', self.data)
        self.size = If(self.start < 0, 0, If(self.start > self.end, self.alloc + self.end - self.start,
                       If(self.end > self.start, self.end - self.start, self.alloc)))

    def el(self, i):
        j = idx(self.start, i, self.alloc)
        return Select(self.B, j), Select(self.O, j)

    def wf(self, live=True):
        s = [Or(And(self.start == -1, self.end == -1),
                And(self.start >= 0, self.start < self.alloc, self.end >= 0,
                    Or(self.end < self.alloc, And(self.alloc == 1, self.end == 1)))),
             self.alloc >= 0,
             (self.data.b.z == 0) == (self.alloc == 0),
             self.data.o.z == 0,
             self.maxsiz >= -1,
             Or(self.maxsiz < 0, self.size <= self.maxsiz)]
        if live:
            s.append(Implies(self.alloc > 0, And(self.v.alive(self.data), self.v.size(self.data) == self.alloc * 8)))
        return And(*s)


def mk(c, shape, ff='null', ref=None):
    """ring in a well-formed state. shape: 'none' (no buffer), 'empty', 'one', 'lin' (start<end), 'wrap'"""
    alloc = c.nat('alloc', 0 if shape == 'none' else 1, 0 if shape == 'none' else MAXALLOC)
    if shape == 'none':
        data = NULL
        alloc = L(0)
    else:
        data = c.ptr_array('data', alloc, nonnull=False)
    if shape in ('none', 'empty'):
        st = en = L(-1)
        size = L(0)
    else:
        st = c.nat('start', 0, MAXALLOC)
        en = c.nat('end', 0, MAXALLOC)
        c.require(st.z < alloc.z)
        if shape == 'lin':
            c.require(And(en.z > st.z, Or(en.z < alloc.z, And(alloc.z == 1, en.z == 1))))
            size = en - st
        else:
            c.require(en.z <= st.z)
            size = alloc + en - st
    mx = c.int('maxsiz', 32, -1)
    c.require(Or(mx.s.z == -1, mx.s.z >= size.z))
    free = NULL if ff == 'null' else c.callback('free')
    rc = c.int('ref', 32, 1, 2**31 - 2) if ref is None else ref
    r = c.struct(S, dict(ref_count=rc, alloc=alloc, maxsiz=mx, start=st, end=en, data=data, free_func=free))
    c.r, c.mx, c.alloc, c.start, c.end, c.size_, c.free, c.data = r, mx, alloc, st, en, size, free, data
    v = RView(c, r)
    c.v0 = v
    return r


SHAPES = ('none', 'empty', 'lin', 'wrap')


def same_tail(o, v0, v1, n, shift=0):
    """v1's first n elements are v0's elements shift.."""
    def f(i):
        a, b = v1.el(i), v0.el(i + shift)
        return And(a[0] == b[0], a[1] == b[1])
    return forall(f, 0, n)


def frame(o, v0, v1, but=()):
    cs = []
    for f in ('alloc', 'maxsiz', 'ref'):
        if f not in but:
            cs.append(getattr(v0, f) == getattr(v1, f))
    if 'ff' not in but:
        cs.append(And(v0.ff.b.z == v1.ff.b.z, v0.ff.o.z == v1.ff.o.z))
    return And(*cs)


def null_case(run, f, *args, **kw):
    """NULL ring: documented no-op; returns the outcomes"""
    c = run.case('NULL ring')
    a = [x(c) if callable(x) else x for x in args]
    e0 = c.evn
    outs = c.call(f, NULL, *[x for x in a])
    for o in outs:
        o.ensure('no events', o.evn == e0)
    return outs


def freed(o, c, e0, v0, n, first, rev=False):
    """the free function was called exactly for n elements starting at `first`, once each"""
    if c.free is NULL:
        o.ensure('no callbacks without a free function', o.evn == e0)
        return
    n = Z(n)
    o.ensure('free function call count', o.evn == e0 + n)
    E = [o.arr('E%d' % j, PtrV(0)) for j in range(4)]

    def f(i):
        a = v0.el((Z(first) + i) if not rev else (Z(first) - i))
        return And(E[0][e0 + i] == CALL, E[1][e0 + i] == c.free.b.z, E[2][e0 + i] == a[0], E[3][e0 + i] == a[1])
    o.ensure('free function gets each element once, in order', forall(f, 0, n, pats=lambda i: E[2][e0 + i]))


def inv_clear(c, r):
    """candidate: while elements are handed to the free function the ring holds the rest"""
    def inv(hv):
        def f(h):
            v = RView(View(h.eng, h.st), r)
            k = Z(h.k)
            n = c.size_.z - k
            return And(Implies(n > 0, And(v.start == idx(c.start.z, k, c.alloc.z), v.end == c.end.z)),
                       Implies(n <= 0, And(v.start == -1, v.end == -1)))

        def g(h):
            v = RView(View(h.eng, h.st), r)
            return v.start == idx(c.start.z, Z(h.k), c.alloc.z)

        def e(h):
            v = RView(View(h.eng, h.st), r)
            j = c.size_.z - Z(h.k)
            return v.end == idx(c.start.z, j, c.alloc.z)
        fs = [('ring holds the last size-k elements', f), ('start advanced by k', g), ('end moved back by k', e)]
        for n, x in hv.phis.items():
            if isinstance(x, IntV) and x.w == 32:
                fs += [('%s goes round with k' % n, lambda h, n=n: h.s(h.phis[n]) == idx(c.start.z, Z(h.k), c.alloc.z)),
                       ('%s goes round backwards with k' % n, lambda h, n=n: h.s(h.phis[n]) == idx(c.start.z, c.size_.z - Z(h.k), c.alloc.z))]
        return fs
    c.inv('*', inv)


@spec('gutil_ring_new_full', ['R01', 'R02'], SRC, fns=['gutil_ring_new', 'gutil_ring_sized_new', 'gutil_ring_new_full'])
def _(run):
    for which in ('new', 'sized', 'full'):
        c = run.case(which)
        ff = c.callback('free')
        res, mx = c.int('reserved', 32, 0), c.int('max', 32)
        if which == 'new':
            outs, res, mx, ff = c.call('gutil_ring_new'), c.const(32, 0), c.const(32, -1), NULL
        elif which == 'sized':
            outs, ff = c.call('gutil_ring_sized_new', res, mx), NULL
        else:
            outs = c.call('gutil_ring_new_full', res, mx, ff)
        for o in outs:
            v = RView(o, o.ret)
            o.ensure('a new live ring', And(Not(o.null()), o.ret.o.z == 0, o.alive(o.ret), o.ret.b.z >= 1000000))
            o.ensure('well formed', v.wf())
            o.ensure('empty, one reference', And(v.size == 0, v.ref == 1))
            o.ensure('maximum size', v.maxsiz == If(mx.s.z < 0, -1, mx.s.z))
            o.ensure('free function', And(v.ff.b.z == ff.b.z, v.ff.o.z == ff.o.z))
            o.ensure('reserved', v.alloc == res.s.z)
            o.ensure('no events', o.evn == 0)


@spec('gutil_ring_ref', ['W01'], SRC)
def _(run):
    for o in null_case(run, 'gutil_ring_ref'):
        o.ensure('NULL', o.null())
    c = run.case('ring')
    r = mk(c, 'wrap')
    for o in c.call('gutil_ring_ref', r):
        v1 = RView(o, r)
        o.ensure('same object, one more reference', And(o.ret_is(r), v1.ref == c.v0.ref + 1))
        o.ensure('contents kept', And(v1.wf(), frame(o, c.v0, v1, but=('ref',)), v1.size == c.size_.z, same_tail(o, c.v0, v1, c.size_)))


@spec('gutil_ring_unref', ['R03', 'W01'], SRC)
def _(run):
    null_case(run, 'gutil_ring_unref')
    for sh in SHAPES:
        for ff in ('null', 'cb'):
            c = run.case('last ref ' + sh + ' ' + ff)
            r = mk(c, sh, ff, ref=c.const(32, 1))
            inv_clear(c, r)
            e0 = c.evn
            for o in c.call('gutil_ring_unref', r):
                o.ensure('ring and buffer released', And(Not(o.alive(r)), Not(o.alive(c.data)) if sh != 'none' else True))
                freed(o, c, e0, c.v0, c.size_, 0)
    c = run.case('not last')
    r = mk(c, 'wrap', 'cb', ref=c.int('ref', 32, 2))
    for o in c.call('gutil_ring_unref', r):
        v1 = RView(o, r)
        o.ensure('only the count changes', And(v1.ref == c.v0.ref - 1, v1.wf(), frame(o, c.v0, v1, but=('ref',)),
                                              v1.size == c.size_.z, o.alive(r), o.evn == 0, same_tail(o, c.v0, v1, c.size_)))


@spec('gutil_ring_set_free_func', ['R03'], SRC)
def _(run):
    null_case(run, 'gutil_ring_set_free_func', lambda c: c.callback('f'))
    c = run.case('ring')
    r = mk(c, 'wrap', 'cb')
    f = c.anyptr('newfree')
    for o in c.call('gutil_ring_set_free_func', r, f):
        v1 = RView(o, r)
        o.ensure('installed', And(v1.ff.b.z == f.b.z, v1.ff.o.z == f.o.z))
        o.ensure('rest kept, nothing freed', And(v1.wf(), frame(o, c.v0, v1, but=('ff',)), v1.size == c.size_.z, same_tail(o, c.v0, v1, c.size_), o.evn == 0))


@spec('gutil_ring_max_size', ['R02'], SRC)
def _(run):
    for o in null_case(run, 'gutil_ring_max_size'):
        o.ensure('0 for NULL', o.rs == 0)
    c = run.case('ring')
    r = mk(c, 'lin')
    for o in c.call('gutil_ring_max_size', r):
        o.ensure('limit', o.rs == c.mx.s.z)


@spec('gutil_ring_set_max_size', ['R02', 'R03'], SRC)
def _(run):
    null_case(run, 'gutil_ring_set_max_size', lambda c: c.int('m', 32))
    for sh in SHAPES:
        for ff in ('null', 'cb'):
            c = run.case(sh + ' ' + ff)
            r = mk(c, sh, ff)
            inv_clear(c, r)
            m = c.int('m', 32)
            e0 = c.evn
            for o in c.call('gutil_ring_set_max_size', r, m):
                v1 = RView(o, r)
                nd = If(And(m.s.z >= 0, c.size_.z > m.s.z), c.size_.z - m.s.z, 0)
                o.ensure('limit set', v1.maxsiz == If(m.s.z < 0, -1, m.s.z))
                o.ensure('well formed', v1.wf())
                o.ensure('size within the limit', v1.size == c.size_.z - nd)
                o.ensure('oldest elements go', same_tail(o, c.v0, v1, c.size_.z - nd, nd))
                o.ensure('frame', frame(o, c.v0, v1, but=('maxsiz',)))
                freed(o, c, e0, c.v0, nd, 0)


@spec('gutil_ring_size', ['R01'], SRC)
def _(run):
    for o in null_case(run, 'gutil_ring_size'):
        o.ensure('0 for NULL', o.rs == 0)
    for sh in SHAPES:
        c = run.case(sh)
        r = mk(c, sh)
        for o in c.call('gutil_ring_size', r):
            o.ensure('number of elements', o.rs == c.size_.z)


@spec('gutil_ring_clear', ['R01', 'R03'], SRC)
def _(run):
    null_case(run, 'gutil_ring_clear')
    for sh in SHAPES:
        for ff in ('null', 'cb'):
            c = run.case(sh + ' ' + ff)
            r = mk(c, sh, ff)
            inv_clear(c, r)
            e0 = c.evn
            for o in c.call('gutil_ring_clear', r):
                v1 = RView(o, r)
                o.ensure('empty', v1.size == 0)
                o.ensure('well formed', v1.wf())
                o.ensure('frame', frame(o, c.v0, v1))
                freed(o, c, e0, c.v0, c.size_, 0)


@spec('gutil_ring_compact', ['R01'], SRC)
def _(run):
    null_case(run, 'gutil_ring_compact')
    for sh in SHAPES:
        c = run.case(sh)
        r = mk(c, sh, 'cb')
        for o in c.call('gutil_ring_compact', r):
            v1 = RView(o, r)
            o.ensure('well formed', v1.wf())
            o.ensure('no spare room', v1.alloc == c.size_.z)
            o.ensure('same elements', And(v1.size == c.size_.z, same_tail(o, c.v0, v1, c.size_)))
            o.ensure('frame', And(frame(o, c.v0, v1, but=('alloc',)), o.evn == 0))


@spec('gutil_ring_reserve', ['R01', 'R02'], SRC)
def _(run):
    for o in null_case(run, 'gutil_ring_reserve', lambda c: c.int('m', 32)):
        o.ensure('FALSE for NULL', Not(o.truth()))
    for sh in SHAPES:
        c = run.case(sh)
        r = mk(c, sh, 'cb')
        m = c.int('m', 32, None, 2**31 - 1)
        v0 = c.v0
        for o in c.call('gutil_ring_reserve', r, m):
            v1 = RView(o, r)
            o.ensure('well formed', v1.wf())
            o.ensure('same elements', And(v1.size == c.size_.z, same_tail(o, v0, v1, c.size_)))
            o.ensure('frame', And(frame(o, v0, v1, but=('alloc',)), o.evn == 0))
            mx = c.mx.s.z
            o.ensure('room for a reservation within the limit', Implies(Or(mx < 0, m.s.z <= mx), And(o.truth(), v1.alloc >= m.s.z)))
            o.ensure('refused when the buffer is at the limit already', Implies(And(m.s.z > v0.alloc, mx >= 0, v0.alloc >= mx), Not(o.truth())))
            o.ensure('never shrinks', v1.alloc >= v0.alloc)
            o.ensure('never grows beyond the limit', Implies(v1.alloc > v0.alloc, Or(mx < 0, v1.alloc <= mx)))


@spec('gutil_ring_can_put', ['R02'], SRC)
def _(run):
    for o in null_case(run, 'gutil_ring_can_put', lambda c: c.int('n', 32)):
        o.ensure('FALSE for NULL', Not(o.truth()))
    for sh in SHAPES:
        c = run.case(sh)
        r = mk(c, sh)
        n = c.int('n', 32, 0)
        for o in c.call('gutil_ring_can_put', r, n):
            o.ensure('agrees with the limit', o.truth() == Or(c.mx.s.z < 0, c.size_.z + n.s.z <= c.mx.s.z))
            v1 = RView(o, r)
            o.ensure('pure', And(v1.wf(), frame(o, c.v0, v1), v1.size == c.size_.z))


def put(run, f, front):
    for o in null_case(run, f, lambda c: c.anyptr('x')):
        o.ensure('FALSE for NULL', Not(o.truth()))
    for sh in SHAPES:
        c = run.case(sh)
        r = mk(c, sh, 'cb')
        x = c.anyptr('x')
        v0 = c.v0
        room = Or(c.mx.s.z < 0, c.size_.z + 1 <= c.mx.s.z)
        for o in c.call(f, r, x):
            v1 = RView(o, r)
            o.ensure('accepted iff there is room', o.truth() == room)
            o.ensure('well formed', v1.wf())
            o.ensure('frame', And(frame(o, v0, v1, but=('alloc',)), o.evn == 0))
            o.ensure('size', v1.size == If(room, c.size_.z + 1, c.size_.z))
            if front:
                sh_ = If(room, 1, 0)

                def g(i):
                    a, b = v1.el(i + sh_), v0.el(i)
                    return And(a[0] == b[0], a[1] == b[1])
                o.ensure('old elements kept behind it', forall(g, 0, c.size_))
                a = v1.el(0)
            else:
                o.ensure('old elements kept before it', same_tail(o, v0, v1, c.size_))
                a = v1.el(c.size_.z)
            o.ensure('new element in place', Implies(room, And(a[0] == x.b.z, a[1] == x.o.z)))


@spec('gutil_ring_put', ['R01', 'R02'], SRC)
def _(run):
    put(run, 'gutil_ring_put', False)


@spec('gutil_ring_put_front', ['R01', 'R02'], SRC)
def _(run):
    put(run, 'gutil_ring_put_front', True)


def get(run, f, last):
    for o in null_case(run, f):
        o.ensure('NULL for NULL', o.null())
    for sh in SHAPES:
        for ff in ('null', 'cb'):
            c = run.case(sh + ' ' + ff)
            r = mk(c, sh, ff)
            v0 = c.v0
            e0 = c.evn
            for o in c.call(f, r):
                v1 = RView(o, r)
                o.ensure('no free function call', o.evn == e0)
                o.ensure('well formed', v1.wf())
                o.ensure('frame', frame(o, v0, v1))
                if sh in ('none', 'empty'):
                    o.ensure('NULL and unchanged', And(o.null(), v1.size == 0))
                else:
                    a = v0.el(c.size_.z - 1 if last else 0)
                    o.ensure('returns the right element', And(o.ret.b.z == a[0], o.ret.o.z == a[1]))
                    o.ensure('size', v1.size == c.size_.z - 1)
                    o.ensure('rest kept', same_tail(o, v0, v1, c.size_ - 1, 0 if last else 1))


@spec('gutil_ring_get', ['R01', 'R03'], SRC)
def _(run):
    get(run, 'gutil_ring_get', False)


@spec('gutil_ring_get_last', ['R01', 'R03'], SRC)
def _(run):
    get(run, 'gutil_ring_get_last', True)


def drop(run, f, last):
    for o in null_case(run, f, lambda c: c.int('n', 32)):
        o.ensure('0 for NULL', o.rs == 0)
    for sh in SHAPES:
        for ff in ('null', 'cb'):
            c = run.case(sh + ' ' + ff)
            r = mk(c, sh, ff)
            inv_clear(c, r)
            n = c.int('n', 32)
            v0 = c.v0
            e0 = c.evn
            nd = If(n.s.z <= 0, 0, If(n.s.z < c.size_.z, n.s.z, c.size_.z))
            for o in c.call(f, r, n):
                v1 = RView(o, r)
                o.ensure('result', o.rs == nd)
                o.ensure('well formed', v1.wf())
                o.ensure('size', v1.size == c.size_.z - nd)
                o.ensure('frame', frame(o, v0, v1))
                o.ensure('rest kept', same_tail(o, v0, v1, c.size_.z - nd, 0 if last else nd))
                if last:
                    freed_last(o, c, e0, v0, nd)
                else:
                    freed(o, c, e0, v0, nd, 0)


def freed_last(o, c, e0, v0, n):
    """drop_last: each of the last n elements exactly once (newest first; oldest first when all go)"""
    if c.free is NULL:
        o.ensure('no callbacks without a free function', o.evn == e0)
        return
    o.ensure('free function call count', o.evn == e0 + n)
    E = [o.arr('E%d' % j, PtrV(0)) for j in range(4)]

    def f(i):
        a = v0.el(c.size_.z - 1 - i)
        b = v0.el(i)
        return And(E[0][e0 + i] == CALL, E[1][e0 + i] == c.free.b.z,
                   E[2][e0 + i] == If(n == c.size_.z, b[0], a[0]), E[3][e0 + i] == If(n == c.size_.z, b[1], a[1]))

    def g(i):
        a = v0.el(c.size_.z - 1 - i)
        return And(E[0][e0 + i] == CALL, E[1][e0 + i] == c.free.b.z, E[2][e0 + i] == a[0], E[3][e0 + i] == a[1])
    o.ensure('free function gets each dropped element once',
             Or(forall(f, 0, n), forall(g, 0, n)) if False else forall(f, 0, n, pats=lambda i: E[2][e0 + i]))


@spec('gutil_ring_drop', ['R01', 'R03'], SRC)
def _(run):
    drop(run, 'gutil_ring_drop', False)


@spec('gutil_ring_drop_last', ['R01', 'R03'], SRC)
def _(run):
    drop(run, 'gutil_ring_drop_last', True)


@spec('gutil_ring_data_at', ['R01'], SRC)
def _(run):
    for o in null_case(run, 'gutil_ring_data_at', lambda c: c.int('n', 32)):
        o.ensure('NULL for NULL', o.null())
    for sh in SHAPES:
        c = run.case(sh)
        r = mk(c, sh, 'cb')
        p = c.int('p', 32)
        for o in c.call('gutil_ring_data_at', r, p):
            a = c.v0.el(p.s.z)
            ins = And(p.s.z >= 0, p.s.z < c.size_.z)
            o.ensure('element or NULL', And(o.ret.b.z == If(ins, a[0], 0), o.ret.o.z == If(ins, a[1], 0)))
            v1 = RView(o, r)
            o.ensure('pure', And(v1.wf(), frame(o, c.v0, v1), v1.size == c.size_.z, o.evn == 0))


@spec('gutil_ring_flatten', ['R01'], SRC)
def _(run):
    c = run.case('NULL ring')
    sz = c.block('size', Lin(4), kinds={4})
    for o in c.call('gutil_ring_flatten', NULL, sz):
        o.ensure('NULL and 0', And(o.null(), o.mem_i(sz, 4) == 0))
    for sh in SHAPES:
        for sp in (True, False):
            c = run.case(sh + (' size' if sp else ''))
            r = mk(c, sh, 'cb')
            sz = c.block('size', Lin(4), kinds={4}) if sp else NULL
            n = c.size_.z
            for o in c.call('gutil_ring_flatten', r, sz):
                v1 = RView(o, r)
                if sp:
                    o.ensure('count stored', o.mem_i(sz, 4) == n)
                o.ensure('well formed', v1.wf())
                o.ensure('same elements', And(v1.size == n, same_tail(o, c.v0, v1, c.size_)))
                o.ensure('frame', And(frame(o, c.v0, v1, but=('alloc',)), o.evn == 0))
                if sh in ('none', 'empty'):
                    o.ensure('NULL when empty', o.null())
                else:
                    B, O = o.arr('PB', o.ret), o.arr('PO', o.ret)
                    q = o.ret.o
                    base = q.div(8).z if q.divisible(8) else q.z / 8

                    def f(i):
                        a = c.v0.el(i)
                        return And(B[base + i] == a[0], O[base + i] == a[1])
                    o.ensure('contiguous copy of the elements', forall(f, 0, n))
                    o.ensure('inside a live block', And(o.alive(o.ret), q.z >= 0, q.z + 8 * n <= o.size(o.ret)))
