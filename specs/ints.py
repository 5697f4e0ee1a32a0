"""Contracts of the immutable integer array (gutil_ints.c)."""
from gvc.spec import *
from gvc.stubs import RANK

SRC = ['gutil_ints', 'gutil_misc']
S = 'gutil_ints'
MAXN = 2**32 - 1


def mk(c, name='', free='null', ref=None, n=None):
    n = c.nat('count' + name, 1, MAXN) if n is None else n
    off = c.nat('off' + name, 0, 2**40)
    tail = c.nat('tail' + name, 0, 2**40)
    data = c.block('ints' + name, (off + n + tail) * 4, kinds={4})
    dp = data.at(off * 4)
    if free == 'g_free':
        dp, off = data, L(0)
        ff = c.gfun('g_free')
        ud = data
    elif free == 'cb':
        ff = c.callback('free' + name)
        ud = c.anyptr('ud' + name)
    elif free == 'unref':
        ff, ud = c.callback('x'), c.anyptr('ud')
    else:
        ff, ud = NULL, NULL
    rc = c.int('ref' + name, 32, 1, 2**31 - 2) if ref is None else ref
    r = c.struct(S, dict(data=dp, count=c.u32(n), ref_count=rc, free_func=ff, user_data=ud))
    o = type('X', (), {})()
    o.r, o.n, o.dp, o.data, o.ff, o.ud, o.rc = r, n, dp, data, ff, ud, rc
    o.A = c.arr(4, dp)
    o.off = off.z
    o.el = lambda i: Select(o.A, o.off + i)
    return o


def kept(o, x, ref=0):
    """the object and its contents are as before (immutability), references changed by ref"""
    v = o
    D = v.p(x.r, S, 'data')
    return And(v.alive(x.r), v.alive(x.data), D.b.z == x.dp.b.z, D.o.z == x.dp.o.z, v.u(x.r, S, 'count') == x.n.z,
               v.i(x.r, S, 'ref_count') == x.rc.s.z + ref, v.p(x.r, S, 'free_func').b.z == x.ff.b.z,
               v.p(x.r, S, 'user_data').b.z == x.ud.b.z, v.p(x.r, S, 'user_data').o.z == x.ud.o.z,
               forall(lambda i: Select(v.arr(4, x.dp), x.off + i) == x.el(i), 0, x.n))


def eqto(o, p, x, lo, n):
    """the n ints at p are x's elements lo..lo+n-1"""
    A = o.arr(4, p)
    b = p.o.div(4).z if p.o.divisible(4) else p.o.z / 4
    return forall(lambda i: Select(A, b + i) == x.el(lo + i), 0, n)


def freshobj(o, n, ff=None, ud=None):
    r = o.ret
    D = o.p(r, S, 'data')
    cs = [Not(o.null()), r.o.z == 0, o.alive(r), r.b.z >= 1000000, o.i(r, S, 'ref_count') == 1, o.u(r, S, 'count') == Z(n)]
    if ff is not None:
        cs += [o.p(r, S, 'free_func').b.z == ff.b.z]
    if ud is not None:
        cs += [o.p(r, S, 'user_data').b.z == ud.b.z, o.p(r, S, 'user_data').o.z == ud.o.z]
    return And(*cs)


@spec('gutil_ints_new', ['I03'], SRC)
def _(run):
    c = run.case('copy')
    n = c.nat('n', 1, MAXN)
    d = c.block('d', n * 4, kinds={4})
    A = c.arr(4, d)
    for o in c.call('gutil_ints_new', d, c.u32(n)):
        o.ensure('new object', freshobj(o, n, c.gfun('g_free')))
        D = o.p(o.ret, S, 'data')
        o.ensure('owns a separate copy of the data', And(D.b.z >= 1000000, D.o.z == 0, D.b.z != d.b.z, o.alive(D), o.size(D) == n.z * 4,
                 o.p(o.ret, S, 'user_data').b.z == D.b.z, forall(lambda i: Select(o.arr(4, D), i) == Select(A, i), 0, n)))
        o.ensure('source kept', And(o.alive(d), forall(lambda i: Select(o.arr(4, d), i) == Select(A, i), 0, n)))
    for lab, p, k in (('no data', NULL, None), ('no elements', 1, 0)):
        c = run.case(lab)
        d = NULL if p is NULL else c.block('d', L(8), kinds={4})
        for o in c.call('gutil_ints_new', d, c.int('n', 32, unsigned=True) if k is None else c.const(32, 0)):
            o.ensure('NULL', And(o.null(), o.evn == 0))


def ctor(run, f, args, ff, ud):
    c = run.case('data')
    n = c.nat('n', 1, MAXN)
    d = c.block('d', n * 4, kinds={4})
    a = args(c, d, c.u32(n))
    for o in c.call(f, *a):
        o.ensure('new object', freshobj(o, n, ff(c, a), ud(c, a)))
        D = o.p(o.ret, S, 'data')
        o.ensure('wraps the same data', And(D.b.z == d.b.z, D.o.z == 0, o.alive(d), o.evn == 0))
        o.ensure('data kept', forall(lambda i: Select(o.arr(4, d), i) == Select(c.arr(4, d), i), 0, n))
    for lab in ('no data', 'no elements'):
        c = run.case(lab)
        d = NULL if lab == 'no data' else c.block('d', L(8), kinds={4})
        for o in c.call(f, *args(c, d, c.int('n', 32, unsigned=True) if lab == 'no data' else c.const(32, 0))):
            o.ensure('NULL', And(o.null(), o.evn == 0))


@spec('gutil_ints_new_take', ['I03'], SRC)
def _(run):
    ctor(run, 'gutil_ints_new_take', lambda c, d, n: (d, n), lambda c, a: c.gfun('g_free'), lambda c, a: a[0])


@spec('gutil_ints_new_static', ['I03'], SRC)
def _(run):
    ctor(run, 'gutil_ints_new_static', lambda c, d, n: (d, n), lambda c, a: NULL, lambda c, a: None)


@spec('gutil_ints_new_with_free_func', ['I03'], SRC)
def _(run):
    ctor(run, 'gutil_ints_new_with_free_func', lambda c, d, n: (d, n, c.callback('f'), c.anyptr('ud')), lambda c, a: a[2], lambda c, a: a[3])


@spec('gutil_ints_new_from_ints', ['I03'], SRC)
def _(run):
    c = run.case('slice')
    x = mk(c, free='cb')
    off, cnt = c.int('offset', 32, unsigned=True), c.int('cnt', 32, unsigned=True)
    u, k = off.u.z if off.u is not None else None, None
    fu, ku = c.eng.uv(c.st, off).z, c.eng.uv(c.st, cnt).z
    m = If(fu >= x.n.z, 0, If(ku < x.n.z - fu, ku, x.n.z - fu))
    for o in c.call('gutil_ints_new_from_ints', x.r, off, cnt):
        o.ensure('NULL exactly for an empty slice', o.null() == (m == 0))
        if not o.is_null_const():
            o.ensure('new object of the clamped length', freshobj(o, m, None, x.r))
            D = o.p(o.ret, S, 'data')
            o.ensure('shares the data', And(D.b.z == x.dp.b.z, D.o.z == x.dp.o.z + 4 * fu))
            o.ensure('holds one reference to the original', kept(o, x, 1))
            # releasing the slice gives the reference back
            for o2 in c.call_in(o, 'gutil_ints_unref', o.ret):
                o2.ensure('release of the slice drops that reference', And(kept(o2, x, 0), Not(o2.alive(o.ret))))
        else:
            o.ensure('no reference taken', kept(o, x, 0))
    c = run.case('NULL')
    for o in c.call('gutil_ints_new_from_ints', NULL, c.int('o', 32, unsigned=True), c.int('n', 32, unsigned=True)):
        o.ensure('NULL', o.null())


@spec('gutil_ints_ref', ['I03', 'W01'], SRC)
def _(run):
    c = run.case('NULL')
    for o in c.call('gutil_ints_ref', NULL):
        o.ensure('NULL', And(o.null(), o.evn == 0))
    c = run.case('object')
    x = mk(c, free='cb')
    for o in c.call('gutil_ints_ref', x.r):
        o.ensure('same object, one more reference', And(o.ret_is(x.r), kept(o, x, 1), o.evn == 0))


def freed_once(o, x):
    if x.ff is NULL:
        o.ensure('no callback', o.evn == 0)
    elif x.ff.b.const() is not None and x.ff.b.const() > -1000:
        o.ensure('data released', And(Not(o.alive(x.data))))
    else:
        o.ensure('free function called once with its argument', And(o.evn == 1, o.ev(0, 0) == CALL, o.ev(0, 1) == x.ff.b.z, o.ev(0, 2) == x.ud.b.z, o.ev(0, 3) == x.ud.o.z))


@spec('gutil_ints_unref', ['I03', 'W01'], SRC)
def _(run):
    c = run.case('NULL')
    for o in c.call('gutil_ints_unref', NULL):
        o.ensure('nothing', o.evn == 0)
    for ff in ('null', 'g_free', 'cb'):
        c = run.case('last ' + ff)
        x = mk(c, free=ff, ref=c.const(32, 1))
        for o in c.call('gutil_ints_unref', x.r):
            o.ensure('object released', Not(o.alive(x.r)))
            freed_once(o, x)
        c = run.case('not last ' + ff)
        x = mk(c, free=ff, ref=c.int('ref', 32, 2))
        for o in c.call('gutil_ints_unref', x.r):
            o.ensure('only the count changes', And(kept(o, x, -1), o.evn == 0))


@spec('gutil_ints_unref_to_data', ['I03', 'W01'], SRC)
def _(run):
    for sp in (True, False):
        c = run.case('NULL' + (' count' if sp else ''))
        k = c.block('k', L(4), kinds={4}) if sp else NULL
        for o in c.call('gutil_ints_unref_to_data', NULL, k):
            o.ensure('NULL and 0', And(o.null(), o.mem_i(k, 4) == 0 if sp else True))
        for ff in ('null', 'g_free', 'cb', 'g_free elsewhere'):
            for last in (True, False):
                c = run.case(ff + (' last' if last else ' not last') + (' count' if sp else ''))
                x = mk(c, free=ff if ff != 'g_free elsewhere' else 'cb', ref=c.const(32, 1) if last else c.int('ref', 32, 2))
                if ff == 'g_free elsewhere':
                    ud = c.block('ud', c.nat('udsize', 1, 2**40))
                    c.set(x.r, S, 'free_func', c.gfun('g_free'))
                    c.set(x.r, S, 'user_data', ud)
                    x.ff, x.ud = c.gfun('g_free'), ud
                k = c.block('k', L(4), kinds={4}) if sp else NULL
                for o in c.call('gutil_ints_unref_to_data', x.r, k):
                    if sp:
                        o.ensure('count stored', o.mem_i(k, 4) == If(x.n.z < 2**31, x.n.z, x.n.z - 2**32))
                    o.ensure('returned block is live, the caller owns it', And(Not(o.null()), o.ret.o.z == 0, o.alive(o.ret), o.size(o.ret) >= x.n.z * 4))
                    o.ensure('returned data are the elements', eqto(o, o.ret, x, 0, x.n))
                    if last:
                        o.ensure('object released', Not(o.alive(x.r)))
                        if ff == 'g_free':
                            o.ensure('no leak of the old data', Or(o.ret.b.z == x.data.b.z, Not(o.alive(x.data))))
                        elif ff == 'g_free elsewhere':
                            o.ensure('free function applied', Not(o.alive(x.ud)))
                        else:
                            o.ensure('separate copy', o.ret.b.z >= 1000000)
                            freed_once(o, x)
                    else:
                        o.ensure('separate copy', o.ret.b.z >= 1000000)
                        o.ensure('one reference dropped', And(kept(o, x, -1), o.evn == 0))


@spec('gutil_ints_get_data', ['I03'], SRC, fns=['gutil_ints_get_data', 'gutil_ints_get_count'])
def _(run):
    for sp in (True, False):
        c = run.case('NULL' + (' count' if sp else ''))
        k = c.block('k', L(4), kinds={4}) if sp else NULL
        for o in c.call('gutil_ints_get_data', NULL, k):
            o.ensure('NULL and 0', And(o.null(), o.mem_i(k, 4) == 0 if sp else True))
        c = run.case('object' + (' count' if sp else ''))
        x = mk(c, free='cb')
        k = c.block('k', L(4), kinds={4}) if sp else NULL
        for o in c.call('gutil_ints_get_data', x.r, k):
            o.ensure('data and count', And(o.ret.b.z == x.dp.b.z, o.ret.o.z == x.dp.o.z, o.mem_i(k, 4) == If(x.n.z < 2**31, x.n.z, x.n.z - 2**32) if sp else True))
            o.ensure('unchanged', And(kept(o, x), o.evn == 0))
    c = run.case('count of NULL')
    for o in c.call('gutil_ints_get_count', NULL):
        o.ensure('0', o.ru == 0)
    c = run.case('count')
    x = mk(c, free='cb')
    for o in c.call('gutil_ints_get_count', x.r):
        o.ensure('count', And(o.ru == x.n.z, kept(o, x)))


@spec('gutil_ints_find', ['I04'], SRC)
def _(run):
    c = run.case('NULL')
    for o in c.call('gutil_ints_find', NULL, c.int('v', 32)):
        o.ensure('-1', o.rs == -1)
    c = run.case('object')
    x = mk(c, free='cb', n=c.nat('count', 1, 2**31 - 1))
    v = c.int('v', 32)
    for o in c.call('gutil_ints_find', x.r, v):
        o.ensure('first position or -1', Or(And(o.rs == -1, forall(lambda i: x.el(i) != v.s.z, 0, x.n)),
                 And(o.rs >= 0, o.rs < x.n.z, x.el(o.rs) == v.s.z, forall(lambda i: x.el(i) != v.s.z, 0, o.rs))))
        o.ensure('pure', And(kept(o, x), o.evn == 0))


@spec('gutil_ints_contains', ['I04'], SRC)
def _(run):
    c = run.case('NULL')
    for o in c.call('gutil_ints_contains', NULL, c.int('v', 32)):
        o.ensure('FALSE', Not(o.truth()))
    c = run.case('object')
    x = mk(c, free='cb')
    v = c.int('v', 32)
    for o in c.call('gutil_ints_contains', x.r, v):
        o.ensure('TRUE iff present', o.truth() == exists(lambda i: x.el(i) == v.s.z, 0, x.n))
        o.ensure('pure', And(kept(o, x), o.evn == 0))


@spec('gutil_ints_hash', ['I04'], SRC)
def _(run):
    c = run.case('NULL')
    for o in c.call('gutil_ints_hash', NULL):
        o.ensure('0', o.ru == 0)
    c = run.case('equal arrays')
    x = mk(c, 'a', free='cb')
    y = mk(c, 'b', free='null', n=x.n)
    c.require(same_range(x.A, x.off, y.A, y.off, x.n))
    first = []
    c.eng.hist_steps = c.eng.abstract_nl = True

    def inv(hv):
        phis, k0, _ = first[0]

        def mkf(p):
            def f(h):
                t, u = phis[p], h.phis[p]
                a = (t.u if t.u is not None else t.s).z
                b = (u.u if u.u is not None else u.s).z
                return z3.substitute(a, (Z(k0), Z(h.k))) == b
            return f
        return [('same as the first run: ' + p, mkf(p)) for p, v in hv.phis.items() if isinstance(v, IntV) and p in phis]
    outs = c.call('gutil_ints_hash', x.r)
    # second run in the same state, related to the first iteration by iteration
    for o in outs:
        c.eng.loop_cands.clear()
        notes = o.st.user.get('loopviews')
        if notes:
            first[:] = [notes[-1]]
            c.inv('*', inv)
        for o2 in c.call_in(o, 'gutil_ints_hash', y.r):
            o2.ensure('equal arrays hash equally', o.ru == o2.ru)
            o2.ensure('pure', And(kept(o2, x), kept(o2, y), o2.evn == 0))


@spec('gutil_ints_equal', ['I04'], SRC)
def _(run):
    for a in (0, 1):
        for b in (0, 1):
            c = run.case('%s %s' % ('object' if a else 'NULL', 'object' if b else 'NULL'))
            x = mk(c, 'a', free='cb') if a else None
            y = mk(c, 'b') if b else None
            for o in c.call('gutil_ints_equal', x.r if a else NULL, y.r if b else NULL):
                if a and b:
                    o.ensure('TRUE iff same length and elements', o.truth() == And(x.n.z == y.n.z, forall(lambda i: x.el(i) == y.el(i), 0, x.n)))
                    o.ensure('pure', And(kept(o, x), kept(o, y), o.evn == 0))
                else:
                    o.ensure('NULL equals only NULL', o.truth() == (a == b))
    c = run.case('same object')
    x = mk(c, free='cb')
    for o in c.call('gutil_ints_equal', x.r, x.r):
        o.ensure('TRUE', And(o.truth(), kept(o, x)))


@spec('gutil_ints_compare', ['I04'], SRC)
def _(run):
    for a in (0, 1):
        for b in (0, 1):
            c = run.case('%s %s' % ('object' if a else 'NULL', 'object' if b else 'NULL'))
            x = mk(c, 'a', free='cb') if a else None
            y = mk(c, 'b') if b else None
            for o in c.call('gutil_ints_compare', x.r if a else NULL, y.r if b else NULL):
                if a and b:
                    m = If(x.n.z < y.n.z, x.n.z, y.n.z)
                    d, r = o.st.user['memcmp'] if 'memcmp' in o.st.user else (None, None)
                    o.ensure('0 iff equal', (o.rs == 0) == And(x.n.z == y.n.z, forall(lambda i: x.el(i) == y.el(i), 0, m)))
                    if d is not None:
                        o.ensure('the first difference decides (lexicographic order of the element bytes)',
                                 And(d.z < m, x.el(d.z) != y.el(d.z), forall(lambda i: x.el(i) == y.el(i), 0, d.z),
                                     (o.rs < 0) == (RANK(x.el(d.z)) < RANK(y.el(d.z))), RANK(x.el(d.z)) != RANK(y.el(d.z))))
                    else:
                        o.ensure('a proper prefix is less', And(forall(lambda i: x.el(i) == y.el(i), 0, m),
                                 (o.rs < 0) == (x.n.z < y.n.z), (o.rs > 0) == (x.n.z > y.n.z)))
                    o.ensure('pure', And(kept(o, x), kept(o, y), o.evn == 0))
                else:
                    o.ensure('NULL is less than any array', And((o.rs < 0) == bool(b and not a), (o.rs > 0) == bool(a and not b)))
    c = run.case('same object')
    x = mk(c, free='cb')
    for o in c.call('gutil_ints_compare', x.r, x.r):
        o.ensure('0', And(o.rs == 0, kept(o, x)))
