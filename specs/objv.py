"""Contracts of the object vectors (gutil_objv.c).

Abstract view: the sequence of n non-NULL object pointers before the terminator. References are counted by the
REF/UNREF events of the objects."""
from gvc.spec import *
from gvc.exec import REF, UNREF
from gvc.core import PtrV

SRC = ['gutil_objv', 'gutil_misc']
MAXN = 2**32 - 2


class OV:
    def __init__(self, c, name='v', n=None):
        self.n = c.nat('n_' + name, 0, MAXN) if n is None else n
        self.p = c.ptrv(name, self.n)
        self.B, self.O = c.arr('PB', self.p), c.arr('PO', self.p)

    def el(self, i):
        return Select(self.B, Z(i)), Select(self.O, Z(i))

    def kept(self, o):
        return And(o.alive(self.p), forall(lambda i: eq(at(o, self.p, i), self.el(i)), 0, self.n.z + 1))


def at(o, p, i):
    return Select(o.arr('PB', p), Z(i)), Select(o.arr('PO', p), Z(i))


def eq(a, b):
    return And(a[0] == b[0], a[1] == b[1])


def is_(a, p):
    return And(a[0] == p.b.z, a[1] == p.o.z)


def vec(o, p, n):
    """p is a separate live vector of n pointers with terminator"""
    n = Z(n)
    return And(p.o.z == 0, o.alive(p), o.size(p) == (n + 1) * 8, Select(o.arr('PB', p), n) == 0, Select(o.arr('PO', p), n) == 0)


def seq(o, p, f, a, b):
    """elements a..b-1 of the vector p are f(i)"""
    return forall(lambda i: eq(at(o, p, i), f(i)), a, b)


def events(o, code, f, n, e0=0):
    """the events are `code` of f(0)..f(n-1), in order"""
    E = [o.arr('E%d' % j, PtrV(0, 0)) for j in range(3)]
    return forall(lambda i: And(E[0][e0 + i] == code, E[1][e0 + i] == f(i)[0], E[2][e0 + i] == f(i)[1]), 0, n, pats=lambda i: E[1][e0 + i])


def nothing(run, f, *mk):
    """calls with absent arguments"""
    c = run.case('NULL')
    outs = c.call(f, *[m(c) for m in mk])
    for o in outs:
        o.ensure('no references touched', o.evn == 0)
    return outs


def nul(c):
    return NULL


def ob(c):
    return c.opaque('obj')


@spec('gutil_objv_lookup', ['O01'], SRC, fns=['gutil_objv_at', 'gutil_objv_first', 'gutil_objv_last', 'gutil_ptrv_length'])
def _(run):
    for o in nothing(run, 'gutil_objv_at', nul, lambda c: c.int('pos', 64, unsigned=True)):
        o.ensure('NULL', o.null())
    for f in ('gutil_objv_first', 'gutil_objv_last'):
        for o in nothing(run, f, nul):
            o.ensure('NULL', o.null())
    c = run.case('at')
    v = OV(c)
    i = c.int('pos', 64, unsigned=True)
    iu = c.eng.uv(c.st, i).z
    for o in c.call('gutil_objv_at', v.p, i):
        o.ensure('element at the position, NULL outside', If(iu < v.n.z, is_(v.el(iu), o.ret), o.null()))
        o.ensure('pure', And(v.kept(o), o.evn == 0))
    for f in ('first', 'last'):
        c = run.case(f)
        v = OV(c)
        for o in c.call('gutil_objv_' + f, v.p):
            o.ensure('the %s element, NULL when empty' % f, If(v.n.z > 0, is_(v.el(0 if f == 'first' else v.n.z - 1), o.ret), o.null()))
            o.ensure('pure', And(v.kept(o), o.evn == 0))


@spec('gutil_objv_find', ['O01'], SRC, fns=['gutil_objv_find', 'gutil_objv_find_last', 'gutil_objv_contains', 'gutil_ptrv_length'])
def _(run):
    for f in ('find', 'find_last', 'contains'):
        for lab, a, b in (('NULL vector', nul, ob), ('NULL object', lambda c: OV(c).p, nul), ('NULL both', nul, nul)):
            c = run.case(f + ' ' + lab)
            for o in c.call('gutil_objv_' + f, a(c), b(c)):
                o.ensure('not found', And(Not(o.truth()) if f == 'contains' else o.rs == -1, o.evn == 0))
        c = run.case(f)
        v = OV(c)
        x = c.opaque('obj')
        m = lambda i: is_(v.el(i), x)
        for o in c.call('gutil_objv_' + f, v.p, x):
            if f == 'contains':
                o.ensure('TRUE iff it is there', o.truth() == exists(m, 0, v.n))
            else:
                r = o.rs
                none = And(r == -1, forall(lambda i: Not(m(i)), 0, v.n))
                if f == 'find':
                    o.ensure('the first position, -1 if there is none', Or(none, And(r >= 0, r < v.n.z, m(r), forall(lambda i: Not(m(i)), 0, r))))
                else:
                    o.ensure('the last position, -1 if there is none', Or(none, And(r >= 0, r < v.n.z, m(r), forall(lambda i: Not(m(i)), r + 1, v.n))))
            o.ensure('pure', And(v.kept(o), o.evn == 0))


@spec('gutil_objv_equal', ['O01'], SRC)
def _(run):
    for a in (0, 1):
        for b in (0, 1):
            c = run.case('%s %s' % ('vector' if a else 'NULL', 'vector' if b else 'NULL'))
            x = OV(c, 'a') if a else None
            y = OV(c, 'b') if b else None
            for o in c.call('gutil_objv_equal', x.p if a else NULL, y.p if b else NULL):
                if a and b:
                    o.ensure('TRUE iff same length and objects', o.truth() == And(x.n.z == y.n.z, forall(lambda i: eq(x.el(i), y.el(i)), 0, x.n)))
                    o.ensure('pure', And(x.kept(o), y.kept(o), o.evn == 0))
                elif a or b:
                    o.ensure('NULL equals only an empty vector', o.truth() == ((x or y).n.z == 0))
                else:
                    o.ensure('TRUE', o.truth())
    c = run.case('same vector')
    x = OV(c)
    for o in c.call('gutil_objv_equal', x.p, x.p):
        o.ensure('TRUE', And(o.truth(), x.kept(o)))


@spec('gutil_objv_new', ['O02'], SRC)
def _(run):
    c = run.case('no objects')
    for o in c.call('gutil_objv_new', NULL):
        o.ensure('an empty vector', And(vec(o, o.ret, 0), o.evn == 0))
    c = run.case('objects')
    x = c.opaque('obj1')
    n = c.nat('n', 0, MAXN)
    vb, vo = c.varargs('a', n)
    f = lambda i: (If(i == 0, x.b.z, vb[i - 1]), If(i == 0, x.o.z, vo[i - 1]))
    for o in c.call('gutil_objv_new', x):
        o.ensure('a new vector of all arguments', And(vec(o, o.ret, n.z + 1), o.ret.b.z >= 1000000, seq(o, o.ret, f, 0, n.z + 1)))
        o.ensure('one reference each', And(o.evn == n.z + 1, events(o, REF, f, n.z + 1)))


@spec('gutil_objv_free', ['O02'], SRC)
def _(run):
    nothing(run, 'gutil_objv_free', nul)
    c = run.case('vector')
    v = OV(c)
    for o in c.call('gutil_objv_free', v.p):
        o.ensure('vector released', Not(o.alive(v.p)))
        o.ensure('one reference of each object dropped', And(o.evn == v.n.z, events(o, UNREF, v.el, v.n)))


@spec('gutil_objv_copy', ['O02'], SRC)
def _(run):
    for o in nothing(run, 'gutil_objv_copy', nul):
        o.ensure('NULL', o.null())
    c = run.case('vector')
    v = OV(c)
    for o in c.call('gutil_objv_copy', v.p):
        o.ensure('a new vector with the same objects', And(vec(o, o.ret, v.n), o.ret.b.z >= 1000000, seq(o, o.ret, v.el, 0, v.n)))
        o.ensure('one more reference each', And(o.evn == v.n.z, events(o, REF, v.el, v.n)))
        o.ensure('original kept', v.kept(o))


@spec('gutil_objv_add', ['O02'], SRC, fns=['gutil_objv_add', 'gutil_objv_insert', 'gutil_ptrv_length'])
def _(run):
    for f in ('add', 'insert'):
        pos = lambda c: [c.int('pos', 64, unsigned=True)] if f == 'insert' else []
        c = run.case(f + ' NULL object')
        v = OV(c)
        for o in c.call('gutil_objv_' + f, v.p, NULL, *pos(c)):
            o.ensure('nothing changes', And(o.ret_is(v.p), v.kept(o), o.evn == 0))
        for lab in ('vector', 'NULL vector'):
            c = run.case(f + ' ' + lab)
            v = OV(c, n=L(0) if lab == 'NULL vector' else None)
            x = c.opaque('obj')
            a = pos(c)
            n = v.n.z
            at_ = If(c.eng.uv(c.st, a[0]).z < n, c.eng.uv(c.st, a[0]).z, n) if a else n
            for o in c.call('gutil_objv_' + f, v.p if lab == 'vector' else NULL, x, *a):
                o.ensure('a vector with one more', vec(o, o.ret, n + 1))
                o.ensure('elements before the position kept', seq(o, o.ret, v.el, 0, at_))
                o.ensure('new element in place', is_(at(o, o.ret, at_), x))
                o.ensure('elements after the position moved up', seq(o, o.ret, lambda i: v.el(i - 1), at_ + 1, n + 1))
                o.ensure('one reference taken', And(o.evn == 1, events(o, REF, lambda i: (x.b.z, x.o.z), 1)))
                if lab == 'vector':
                    o.ensure('old storage not leaked', Or(o.ret_is(v.p), Not(o.alive(v.p))))


@spec('gutil_objv_append', ['O02'], SRC, fns=['gutil_objv_append', 'gutil_ptrv_length'])
def _(run):
    for d in ('vector', 'NULL vector'):
        for s in ('vector', 'NULL vector'):
            c = run.case('%s to %s' % (s, d))
            v = OV(c, 'd', n=L(0) if d != 'vector' else None)
            w = OV(c, 's', n=L(0) if s != 'vector' else None)
            n, m = v.n.z, w.n.z
            for o in c.call('gutil_objv_append', v.p if d == 'vector' else NULL, w.p if s == 'vector' else NULL):
                res = And(vec(o, o.ret, n + m), seq(o, o.ret, v.el, 0, n), seq(o, o.ret, lambda i: w.el(i - n), n, n + m))
                o.ensure('objects of both, in order', If(m == 0, And(o.ret.b.z == (v.p.b.z if d == 'vector' else 0), v.kept(o)), res))
                o.ensure('one reference for each object added', And(o.evn == m, events(o, REF, w.el, m)))
                o.ensure('source kept', w.kept(o))
                if d == 'vector':
                    o.ensure('old storage not leaked', Or(o.ret_is(v.p), Not(o.alive(v.p))))


@spec('gutil_objv_remove_at', ['O02'], SRC, fns=['gutil_objv_remove_at', 'gutil_ptrv_length'])
def _(run):
    for o in nothing(run, 'gutil_objv_remove_at', nul, lambda c: c.int('pos', 64, unsigned=True)):
        o.ensure('NULL', o.null())
    c = run.case('vector')
    v = OV(c)
    i = c.int('pos', 64, unsigned=True)
    iu, n = c.eng.uv(c.st, i).z, v.n.z
    for o in c.call('gutil_objv_remove_at', v.p, i):
        o.ensure('outside: nothing changes', Implies(iu >= n, And(o.ret_is(v.p), v.kept(o), o.evn == 0)))
        o.ensure('inside: exactly that element goes', Implies(iu < n, And(vec(o, o.ret, n - 1), seq(o, o.ret, v.el, 0, iu), seq(o, o.ret, lambda j: v.el(j + 1), iu, n - 1))))
        o.ensure('its reference dropped', Implies(iu < n, And(o.evn == 1, events(o, UNREF, lambda j: v.el(iu), 1))))
        o.ensure('old storage not leaked', Or(o.ret_is(v.p), Not(o.alive(v.p))))


def find_last_contract(c, elem, match):
    """the search helper, used through its contract in the removal loop (it is verified by gutil_objv_find)"""
    def contract(eng, st, av, ins):
        p, i = av[0], av[2]
        if not isinstance(p, PtrV) or not hasattr(i, 'w'):
            return None
        n = eng.uv(st, i)
        o = View(eng, st)
        eng.oblige(st, 'search range inside a live vector', Implies(n.z > 0, And(o.alive(p), p.o.z >= 0, p.o.z + 8 * n.z <= o.size(p))), ins)
        r = eng.fresh_int('last', i.w)
        b = p.o.div(8).z
        A, O = o.arr('PB', p), o.arr('PO', p)
        x = av[1]
        m = lambda j: And(Select(A, b + j) == x.b.z, Select(O, b + j) == x.o.z)
        st.add(And(r.s.z >= -1, r.s.z < n.z))
        st.rng[r.s.t[0][0]] = (-1, 2**62)
        st.add(Implies(r.s.z >= 0, m(r.s.z)))
        j = z3.Const('j?fl', INT)
        st.pc.append(z3.ForAll([j], Implies(And(j > b + r.s.z, j < b + n.z), Not(And(Select(A, j) == x.b.z, Select(O, j) == x.o.z))), patterns=[Select(A, j)]))
        return [(st, r)]
    c.eng.contracts = dict(c.eng.contracts, gutil_objv_find_last_impl=contract)


class Count:
    """CN(i): number of matching elements before i, defined by recursion, with the consequences the proofs need"""

    def __init__(self, c, v, match):
        CN, PREV = z3.Function('cn', INT, INT), z3.Function('cn_prev', INT, INT)
        self.f, self.match, n = CN, match, v.n.z
        c.require(CN(0) == 0)
        c.require(forall(lambda i: CN(i) == PREV(i - 1) + If(match(i - 1), 1, 0), 1, n + 1, pats=lambda i: CN(i)))
        c.require(forall(lambda i: PREV(i) == CN(i), 0, n + 1, pats=lambda i: CN(i)))
        self.n = n

    def step(self, i):
        return self.f(i + 1) == self.f(i) + If(self.match(i), 1, 0)


@spec('gutil_objv_remove', ['O02'], SRC, fns=['gutil_objv_remove', 'gutil_objv_find', 'gutil_ptrv_length'])
def _(run):
    for all_ in (0, 1):
        for lab, a, b in (('NULL vector', nul, ob), ('NULL object', lambda c: OV(c).p, nul)):
            c = run.case('%s %d' % (lab, all_))
            p = a(c)
            for o in c.call('gutil_objv_remove', p, b(c), c.const(32, all_)):
                o.ensure('nothing changes', And(o.ret_is(p), o.evn == 0))
        c = run.case('absent' if all_ else 'one')
        v = OV(c)
        x = c.opaque('obj')
        n = v.n.z
        m = lambda i: is_(v.el(i), x)
        if all_:
            c.require(forall(lambda i: Not(m(i)), 0, n, pats=lambda i: v.B[i]))
        for o in c.call('gutil_objv_remove', v.p, x, c.const(32, all_)):
            if all_ or o.eng.prove_qf(o.st, o.evn == 0):
                o.ensure('nothing changes if it is not there', And(o.ret_is(v.p), v.kept(o), o.evn == 0, forall(lambda i: Not(m(i)), 0, n)))
                continue
            o.ensure('one element goes', vec(o, o.ret, n - 1))
            o.ensure('it is the first match', exists(lambda k: And(m(k), forall(lambda i: Not(m(i)), 0, k), seq(o, o.ret, v.el, 0, k), seq(o, o.ret, lambda j: v.el(j + 1), k, n - 1)), 0, n))
            o.ensure('one reference dropped', And(o.evn == 1, events(o, UNREF, lambda j: (x.b.z, x.o.z), 1)))
