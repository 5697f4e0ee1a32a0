"""Contracts of the growable integer array (gutil_intarray.c) over glib's GArray."""
from gvc.spec import *
from gvc.exec import MISC, SORT, REF, UNREF, FREE
from gvc.core import PtrV

SRC = ['gutil_intarray', 'gutil_ints', 'gutil_misc']
MAXN = 2**31 - 1
G = 40


def mk(c, n=None, empty=False):
    """an array of n ints; an empty one may have no data block at all"""
    o = type('X', (), {})()
    a = c.block('array', L(G), kinds={4, 'P'})
    st = c.st
    if empty == 'nodata':
        n = L(0)
        d = NULL
    else:
        n = c.nat('count', 0, MAXN) if n is None else n
        cap = c.nat('spare', 0, 2**32)
        d = c.block('data', (n + cap) * 4, kinds={4})
    st.store('PB', a.b, 0, d.b)
    st.store('PO', a.b, 0, L(0))
    v = c.u32(n)
    st.store(4, a.b, 2, c.eng.sv(st, v), v)
    st.store(4, a.b, 4, L(4), c.eng.iconst(32, 4))
    st.store(4, a.b, 5, L(1), c.eng.iconst(32, 1))
    o.a, o.n, o.d = a, n, d
    o.A = c.arr(4, d) if d is not NULL else None
    return o


def data(v, a):
    return PtrV(v.st.get('PB', a.b, 0), v.st.get('PO', a.b, 0))


def cnt(v, a):
    x, o = v.st.find(4, a.b, L(2))
    x = L(x)
    return If(x.z < 0, x.z + 2**32, x.z) if v.st.range(x)[0] < 0 else x.z


def cur(v, a):
    return v.arr(4, data(v, a))


def ok(v, a):
    """usable array"""
    d = data(v, a)
    return And(v.alive(a), Or(cnt(v, a) == 0, And(v.alive(d), d.o.z == 0, v.size(d) >= 4 * cnt(v, a))))


def same(v, x):
    return And(ok(v, x.a), cnt(v, x.a) == x.n.z, forall(lambda i: Select(cur(v, x.a), i) == Select(x.A, i), 0, x.n) if x.A is not None else True)


def nullcase(run, f, mkargs, res):
    c = run.case('NULL')
    for o in c.call(f, NULL, *mkargs(c)):
        if res == 'ptr':
            o.ensure('NULL', And(o.null(), o.evn == 0))
        elif res == 'false':
            o.ensure('FALSE', And(Not(o.truth()), o.evn == 0))
        elif res == '0':
            o.ensure('0', And(o.ru == 0, o.evn == 0))
        elif res == '-1':
            o.ensure('-1', And(o.rs == -1, o.evn == 0))
        else:
            o.ensure('nothing happens', o.evn == 0)


def both(run):
    for e in (False, 'nodata'):
        c = run.case('array' if not e else 'array without data')
        yield c, mk(c, empty=e)


def inserted(o, x, pos, vals, k):
    """the current array is x with k values (vals(i)) inserted at pos"""
    A = cur(o, x.a)
    return And(ok(o, x.a), cnt(o, x.a) == x.n.z + Z(k), *([
        forall(lambda i: Select(A, i) == Select(x.A, i), 0, pos),
        forall(lambda i: Select(A, i + Z(k)) == Select(x.A, i), pos, x.n)] if x.A is not None else []),
        forall(lambda i: Select(A, Z(pos) + i) == vals(i), 0, k))


@spec('gutil_int_array_new', ['I01'], SRC, fns=['gutil_int_array_new', 'gutil_int_array_sized_new', 'gutil_int_array_new_from_vals', 'gutil_int_array_new_from_value'])
def _(run):
    for f, args in (('gutil_int_array_new', lambda c: []), ('gutil_int_array_sized_new', lambda c: [c.int('r', 32, unsigned=True)])):
        c = run.case(f)
        for o in c.call(f, *args(c)):
            o.ensure('a new empty array', And(Not(o.null()), ok(o, o.ret), cnt(o, o.ret) == 0, o.ret.b.z >= 1000000))
    c = run.case('from values')
    n = c.nat('n', 1, MAXN)
    d = c.block('vals', n * 4, kinds={4})
    A = c.arr(4, d)
    for o in c.call('gutil_int_array_new_from_vals', d, c.u32(n)):
        o.ensure('a new array holding a copy of the values', And(Not(o.null()), ok(o, o.ret), cnt(o, o.ret) == n.z,
                 data(o, o.ret).b.z != d.b.z, forall(lambda i: Select(cur(o, o.ret), i) == Select(A, i), 0, n), o.alive(d)))
    c = run.case('from no values')
    for o in c.call('gutil_int_array_new_from_vals', NULL, c.const(32, 0)):
        o.ensure('a new empty array', And(Not(o.null()), ok(o, o.ret), cnt(o, o.ret) == 0))
    c = run.case('from value')
    v = c.int('v', 32)
    for o in c.call('gutil_int_array_new_from_value', v):
        o.ensure('one element', And(Not(o.null()), ok(o, o.ret), cnt(o, o.ret) == 1, Select(cur(o, o.ret), 0) == v.s.z))


@spec('gutil_int_array_free', ['I01'], SRC, fns=['gutil_int_array_free', 'gutil_int_array_free_to_ints'])
def _(run):
    nullcase(run, 'gutil_int_array_free', lambda c: [c.int('f', 32)], 'ptr')
    for fr in (0, 1, 7):
        for e in (False, 'nodata'):
            c = run.case('free %d%s' % (fr, ' no data' if e else ''))
            x = mk(c, empty=e)
            for o in c.call('gutil_int_array_free', x.a, c.const(32, fr)):
                o.ensure('array gone', Not(o.alive(x.a)))
                if fr:
                    o.ensure('NULL', o.null())
                else:
                    o.ensure('NULL exactly when empty', o.null() == (x.n.z == 0))
                if x.A is not None:
                    o.ensure('data returned or released', Or(And(o.ret.b.z == x.d.b.z, o.ret.o.z == 0, o.alive(x.d),
                             forall(lambda i: Select(o.arr(4, x.d), i) == Select(x.A, i), 0, x.n)), And(o.null(), Not(o.alive(x.d)))))
    nullcase(run, 'gutil_int_array_free_to_ints', lambda c: [], 'ptr')
    for c, x in both(run):
        for o in c.call('gutil_int_array_free_to_ints', x.a):
            o.ensure('array gone', Not(o.alive(x.a)))
            o.ensure('NULL exactly when empty', o.null() == (x.n.z == 0))
            if not o.is_null_const():
                D = o.p(o.ret, 'gutil_ints', 'data')
                o.ensure('ints with the elements of the array', And(o.u(o.ret, 'gutil_ints', 'count') == x.n.z, o.alive(D), o.alive(o.ret),
                         D.o.z == 0, o.p(o.ret, 'gutil_ints', 'free_func').b.z == c.gfun('g_free').b.z, o.p(o.ret, 'gutil_ints', 'user_data').b.z == D.b.z,
                         o.i(o.ret, 'gutil_ints', 'ref_count') == 1, forall(lambda i: Select(o.arr(4, D), i) == Select(x.A, i), 0, x.n)))
                o.ensure('no leak', Or(D.b.z == x.d.b.z, Not(o.alive(x.d))))
            elif x.A is not None:
                o.ensure('no leak', Not(o.alive(x.d)))


@spec('gutil_int_array_ref', ['I01'], SRC, fns=['gutil_int_array_ref', 'gutil_int_array_unref'])
def _(run):
    nullcase(run, 'gutil_int_array_ref', lambda c: [], 'ptr')
    c = run.case('ref')
    x = mk(c)
    for o in c.call('gutil_int_array_ref', x.a):
        o.ensure('one reference taken, same array', And(o.ret_is(x.a), o.evn == 1, o.ev(0, 0) == REF, o.ev(0, 1) == x.a.b.z, same(o, x)))
    nullcase(run, 'gutil_int_array_unref', lambda c: [], 'void')
    c = run.case('unref')
    x = mk(c)
    for o in c.call('gutil_int_array_unref', x.a):
        o.ensure('one reference dropped', And(o.evn == 1, o.ev(0, 0) == UNREF, o.ev(0, 1) == x.a.b.z))


def ins(run, f, single, where):
    """where(c, x) -> (list of extra leading args, position)"""
    nullcase(run, f, lambda c: [*([c.int('pos', 32, unsigned=True)] if 'insert' in f else []), *([c.int('v', 32)] if single else [NULL, c.int('n', 32, unsigned=True)])], 'ptr')
    for c, x in both(run):
        pre, pos = where(c, x)
        if single:
            v = c.int('v', 32)
            args, k, vals = [v], L(1), lambda i: v.s.z
        else:
            k = c.nat('k', 0, MAXN)
            d = c.block('vals', k * 4, kinds={4})
            V = c.arr(4, d)
            args, vals = [d, c.u32(k)], lambda i: Select(V, i)
        c.require((x.n + k).z <= MAXN)
        for o in c.call(f, x.a, *pre, *args):
            o.ensure('values inserted, the rest keeps its order', inserted(o, x, pos, vals, k))
            o.ensure('returns the array', o.ret_is(x.a))


@spec('gutil_int_array_append', ['I01'], SRC, fns=['gutil_int_array_append', 'gutil_int_array_append_vals'])
def _(run):
    ins(run, 'gutil_int_array_append', True, lambda c, x: ([], x.n))
    ins(run, 'gutil_int_array_append_vals', False, lambda c, x: ([], x.n))


@spec('gutil_int_array_prepend', ['I01'], SRC, fns=['gutil_int_array_prepend', 'gutil_int_array_prepend_vals'])
def _(run):
    ins(run, 'gutil_int_array_prepend', True, lambda c, x: ([], L(0)))
    ins(run, 'gutil_int_array_prepend_vals', False, lambda c, x: ([], L(0)))


def at(c, x):
    p = c.int('pos', 32, unsigned=True)
    pv = c.eng.uv(c.st, p)
    c.require(pv.z <= x.n.z)
    return [p], pv


@spec('gutil_int_array_insert', ['I01'], SRC, fns=['gutil_int_array_insert', 'gutil_int_array_insert_vals'])
def _(run):
    ins(run, 'gutil_int_array_insert', True, at)
    ins(run, 'gutil_int_array_insert_vals', False, at)


@spec('gutil_int_array_set_count', ['I01'], SRC)
def _(run):
    nullcase(run, 'gutil_int_array_set_count', lambda c: [c.int('n', 32, unsigned=True)], 'ptr')
    for c, x in both(run):
        m = c.nat('m', 0, MAXN)
        for o in c.call('gutil_int_array_set_count', x.a, c.u32(m)):
            o.ensure('new length, common prefix kept', And(o.ret_is(x.a), ok(o, x.a), cnt(o, x.a) == m.z,
                     forall(lambda i: Select(cur(o, x.a), i) == Select(x.A, i), 0, If(m.z < x.n.z, m.z, x.n.z)) if x.A is not None else True))


@spec('gutil_int_array_find', ['I01'], SRC, fns=['gutil_int_array_find', 'gutil_int_array_contains'])
def _(run):
    nullcase(run, 'gutil_int_array_find', lambda c: [c.int('v', 32)], '-1')
    nullcase(run, 'gutil_int_array_contains', lambda c: [c.int('v', 32)], 'false')
    for c, x in both(run):
        v = c.int('v', 32)
        el = lambda i: Select(x.A, i) if x.A is not None else z3.IntVal(0)
        for o in c.call('gutil_int_array_find', x.a, v):
            o.ensure('first position or -1', Or(And(o.rs == -1, forall(lambda i: el(i) != v.s.z, 0, x.n)),
                     And(o.rs >= 0, o.rs < x.n.z, el(o.rs) == v.s.z, forall(lambda i: el(i) != v.s.z, 0, o.rs))))
            o.ensure('pure', And(same(o, x), o.evn == 0))
    for c, x in both(run):
        v = c.int('v', 32)
        el = lambda i: Select(x.A, i) if x.A is not None else z3.IntVal(0)
        for o in c.call('gutil_int_array_contains', x.a, v):
            o.ensure('TRUE iff present', o.truth() == exists(lambda i: el(i) == v.s.z, 0, x.n))
            o.ensure('pure', And(same(o, x), o.evn == 0))


def removed(o, x, pos):
    A = cur(o, x.a)
    return And(ok(o, x.a), cnt(o, x.a) == x.n.z - 1, forall(lambda i: Select(A, i) == Select(x.A, i), 0, pos),
               forall(lambda i: Select(A, i) == Select(x.A, i + 1), pos, x.n.z - 1))


def removed_fast(o, x, pos):
    A = cur(o, x.a)
    return And(ok(o, x.a), cnt(o, x.a) == x.n.z - 1, forall(lambda i: Implies(i != Z(pos), Select(A, i) == Select(x.A, i)), 0, x.n.z - 1),
               Implies(Z(pos) < x.n.z - 1, Select(A, Z(pos)) == Select(x.A, x.n.z - 1)))


def rm(run, f, how):
    nullcase(run, f, lambda c: [c.int('v', 32)], 'false')
    c = run.case('no data')
    x = mk(c, empty='nodata')
    for o in c.call(f, x.a, c.int('v', 32)):
        o.ensure('FALSE', And(Not(o.truth()), same(o, x)))
    for lab in ('present', 'absent'):
        c = run.case(lab)
        x = mk(c)
        v = c.int('v', 32)
        p = c.nat('firstpos', 0, MAXN)
        c.require(And(p.z < x.n.z, Select(x.A, p.z) == v.s.z) if lab == 'present' else True)
        lim = p if lab == 'present' else x.n
        c.require(forall(lambda i: Select(x.A, i) != v.s.z, 0, lim, pats=lambda i: Select(x.A, i)))
        for o in c.call(f, x.a, v):
            o.ensure('TRUE iff there was such an element', o.truth() == (lab == 'present'))
            o.ensure('the first one is gone' if lab == 'present' else 'unchanged', how(o, x, p) if lab == 'present' else same(o, x))


@spec('gutil_int_array_remove', ['I01'], SRC)
def _(run):
    rm(run, 'gutil_int_array_remove', removed)


@spec('gutil_int_array_remove_fast', ['I01'], SRC)
def _(run):
    rm(run, 'gutil_int_array_remove_fast', removed_fast)


def rmall(run, f, mode):
    nullcase(run, f, lambda c: [c.int('v', 32)], '0')
    for c, x in both(run):
        v = c.int('v', 32)
        for o in c.call(f, x.a, v):
            A = cur(o, x.a)
            o.ensure('length decreases by the returned number', And(ok(o, x.a), cnt(o, x.a) == x.n.z - o.ru, o.ru <= x.n.z))
            o.ensure('no such element remains', forall(lambda i: Select(A, i) != v.s.z, 0, cnt(o, x.a)))
            o.ensure('exactly one removal per counted element', o.evn == o.ru)
            o.ensure('every removed element was the value', forall(lambda j: And(o.ev(j, 0) == MISC, o.ev(j, 1) == x.a.b.z, o.ev(j, 3) == v.s.z), 0, o.evn))
            if not mode:
                o.ensure('every removal keeps the order of the rest', forall(lambda j: o.ev(j, 4) == 0, 0, o.evn))


@spec('gutil_int_array_remove_all', ['I01'], SRC)
def _(run):
    rmall(run, 'gutil_int_array_remove_all', 0)


@spec('gutil_int_array_remove_all_fast', ['I01'], SRC)
def _(run):
    rmall(run, 'gutil_int_array_remove_all_fast', 2)


@spec('gutil_int_array_remove_index', ['I01'], SRC)
def _(run):
    nullcase(run, 'gutil_int_array_remove_index', lambda c: [c.int('p', 32, unsigned=True)], 'ptr')
    for lab in ('inside', 'outside'):
        c = run.case(lab)
        x = mk(c)
        p = c.int('p', 32, unsigned=True)
        pv = c.eng.uv(c.st, p)
        c.require((pv.z < x.n.z) == (lab == 'inside'))
        for o in c.call('gutil_int_array_remove_index', x.a, p):
            o.ensure('returns the array', o.ret_is(x.a))
            o.ensure('element removed' if lab == 'inside' else 'unchanged', removed(o, x, pv) if lab == 'inside' else same(o, x))


@spec('gutil_int_array_remove_index_fast', ['I01'], SRC)
def _(run):
    nullcase(run, 'gutil_int_array_remove_index_fast', lambda c: [c.int('p', 32, unsigned=True)], 'ptr')
    c = run.case('inside')
    x = mk(c)
    p = c.int('p', 32, unsigned=True)
    pv = c.eng.uv(c.st, p)
    c.require(pv.z < x.n.z)
    for o in c.call('gutil_int_array_remove_index_fast', x.a, p):
        o.ensure('element replaced by the last one', And(o.ret_is(x.a), removed_fast(o, x, pv)))


@spec('gutil_int_array_remove_range', ['I01'], SRC)
def _(run):
    nullcase(run, 'gutil_int_array_remove_range', lambda c: [c.int('p', 32, unsigned=True), c.int('k', 32, unsigned=True)], 'ptr')
    c = run.case('array')
    x = mk(c)
    p, k = c.int('p', 32, unsigned=True), c.int('k', 32, unsigned=True)
    pv, kv = c.eng.uv(c.st, p).z, c.eng.uv(c.st, k).z
    m = If(pv >= x.n.z, 0, If(kv < x.n.z - pv, kv, x.n.z - pv))
    for o in c.call('gutil_int_array_remove_range', x.a, p, k):
        A = cur(o, x.a)
        o.ensure('returns the array', o.ret_is(x.a))
        o.ensure('length decreases by the clamped count', And(ok(o, x.a), cnt(o, x.a) == x.n.z - m))
        o.ensure('elements before the range kept', forall(lambda i: Select(A, i) == Select(x.A, i), 0, If(pv < x.n.z, pv, x.n.z)))
        o.ensure('elements after the range follow', forall(lambda i: Select(A, i) == Select(x.A, i + m), pv, x.n.z - m))


def srt(run, f, sign):
    nullcase(run, f, lambda c: [], 'void')
    c = run.case('array')
    x = mk(c, n=c.nat('count', 1, MAXN))
    for o in c.call(f, x.a):
        # the library sort is entered once, on this array and as a whole, and nothing else touches the elements
        o.ensure('sorted once as a whole', And(o.evn == 1, o.ev(0, 0) == SORT, o.ev(0, 1) == x.a.b.z, cnt(o, x.a) == x.n.z))
    cmps = run.scout(lambda cc: cc.callee_events(f, [mk(cc, n=cc.nat('count', 1, MAXN)).a], SORT, 3))
    c2 = run.case('comparator')
    if not cmps:
        raise Unsupported('comparator not identified')
    if not c2.skip:
        a, b = c2.block('a', L(4), kinds={4}), c2.block('b', L(4), kinds={4})
        u, v = c2.int('u', 32), c2.int('v', 32)
        c2.set_mem(a, u)
        c2.set_mem(b, v)
        for nm in sorted(cmps):
            for o in c2.call(nm, a, b):
                d = (u.s.z - v.s.z) * sign
                o.ensure('comparator: negative, zero or positive exactly as the elements compare', And((o.rs < 0) == (d < 0), (o.rs == 0) == (d == 0), (o.rs > 0) == (d > 0)))
                o.ensure('comparator: pure', And(o.evn == 0, o.mem_i(a, 4) == u.s.z, o.mem_i(b, 4) == v.s.z))


@spec('gutil_int_array_sort_ascending', ['I02'], SRC)
def _(run):
    srt(run, 'gutil_int_array_sort_ascending', 1)


@spec('gutil_int_array_sort_descending', ['I02'], SRC)
def _(run):
    srt(run, 'gutil_int_array_sort_descending', -1)
