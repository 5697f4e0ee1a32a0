"""Contracts of the string vectors (gutil_strv.c).

Abstract view: the sequence of n string pointers before the terminator. A string is a point of a total order,
STR(block, offset); a vector owns its strings: separate live blocks."""
from gvc.spec import *
from gvc.exec import SORT
from gvc.core import PtrV, IntV
from specs.objv import at, eq, is_, vec, seq

SRC = ['gutil_strv', 'gutil_misc']
MAXN = 2**31 - 2


class SV:
    def __init__(self, c, name='v', n=None, owned=True):
        c.st.user['strlive'] = True
        self.n = c.nat('n_' + name, 0, MAXN) if n is None else L(n)
        self.p = c.strv(name, self.n, owned)
        self.B, self.O = c.arr('PB', self.p), c.arr('PO', self.p)

    def el(self, i):
        return Select(self.B, Z(i)), Select(self.O, Z(i))

    def s(self, i):
        return STR(*self.el(i))

    def kept(self, o):
        """vector and strings as they were"""
        return And(o.alive(self.p), forall(lambda i: eq(at(o, self.p, i), self.el(i)), 0, self.n.z + 1),
                   forall(lambda i: o.alive_b(self.el(i)[0]), 0, self.n))


def string(c, name='s'):
    """a live string which is not part of the vector"""
    c.st.user['strlive'] = True
    p = c.block(name, c.nat(name + '_size', 1, 2**61), kinds={1})
    return p.at(c.nat(name + '_off', 0, 2**61))


def sval(p):
    return STR(p.b.z, p.o.z)


def nul(c):
    return NULL


def sv(c):
    return SV(c).p


def u(o):
    return o.eng.uv


@spec('gutil_strv_length', ['V01'], SRC, fns=['gutil_strv_length', 'gutil_ptrv_length'])
def _(run):
    for lab in ('NULL', 'vector'):
        c = run.case(lab)
        v = SV(c) if lab == 'vector' else None
        for o in c.call('gutil_strv_length', v.p if v else NULL):
            o.ensure('number of strings', o.ru == (v.n.z if v else 0))
            if v:
                o.ensure('pure', v.kept(o))


@spec('gutil_strv_at', ['V01'], SRC, fns=['gutil_strv_at', 'gutil_strv_last'])
def _(run):
    for lab in ('NULL', 'vector'):
        c = run.case('at ' + lab)
        v = SV(c) if lab == 'vector' else None
        i = c.int('i', 32, unsigned=True)
        iu = c.eng.uv(c.st, i).z
        for o in c.call('gutil_strv_at', v.p if v else NULL, i):
            o.ensure('string at the position, NULL outside', If(iu < v.n.z, is_(v.el(iu), o.ret), o.null()) if v else o.null())
            if v:
                o.ensure('pure', v.kept(o))
        c = run.case('last ' + lab)
        v = SV(c) if lab == 'vector' else None
        for o in c.call('gutil_strv_last', v.p if v else NULL):
            o.ensure('the last string, NULL when empty', If(v.n.z > 0, is_(v.el(v.n.z - 1), o.ret), o.null()) if v else o.null())
            if v:
                o.ensure('pure', v.kept(o))


@spec('gutil_strv_find', ['V01'], SRC, fns=['gutil_strv_find', 'gutil_strv_find_last', 'gutil_strv_contains'])
def _(run):
    for f in ('find', 'find_last', 'contains'):
        for lab, a, b in (('NULL vector', nul, string), ('NULL string', sv, nul), ('NULL both', nul, nul)):
            c = run.case(f + ' ' + lab)
            for o in c.call('gutil_strv_' + f, a(c), b(c)):
                o.ensure('not found', Not(o.truth()) if f == 'contains' else o.rs == -1)
        c = run.case(f)
        v = SV(c, owned=False)
        x = string(c)
        m = lambda i: v.s(i) == sval(x)
        for o in c.call('gutil_strv_' + f, v.p, x):
            if f == 'contains':
                o.ensure('TRUE iff it is there', o.truth() == exists(m, 0, v.n))
            else:
                r = o.rs
                none = And(r == -1, forall(lambda i: Not(m(i)), 0, v.n))
                if f == 'find':
                    o.ensure('the first position, -1 if there is none', Or(none, And(r >= 0, r < v.n.z, m(r), forall(lambda i: Not(m(i)), 0, r))))
                else:
                    o.ensure('the last position, -1 if there is none', Or(none, And(r >= 0, r < v.n.z, m(r), forall(lambda i: Not(m(i)), r + 1, v.n))))
            o.ensure('pure', v.kept(o))


@spec('gutil_strv_equal', ['V01'], SRC)
def _(run):
    for a in (0, 1):
        for b in (0, 1):
            c = run.case('%s %s' % ('vector' if a else 'NULL', 'vector' if b else 'NULL'))
            x = SV(c, 'a', owned=False) if a else None
            y = SV(c, 'b', owned=False) if b else None
            for o in c.call('gutil_strv_equal', x.p if a else NULL, y.p if b else NULL):
                if a and b:
                    o.ensure('TRUE iff same length and strings', o.truth() == And(x.n.z == y.n.z, forall(lambda i: x.s(i) == y.s(i), 0, x.n)))
                    o.ensure('pure', And(x.kept(o), y.kept(o)))
                elif a or b:
                    o.ensure('NULL equals only an empty vector', o.truth() == ((x or y).n.z == 0))
                else:
                    o.ensure('TRUE', o.truth())
    c = run.case('same vector')
    x = SV(c)
    for o in c.call('gutil_strv_equal', x.p, x.p):
        o.ensure('TRUE', And(o.truth(), x.kept(o)))


def copyof(o, a, p, v=None):
    """the pointer a is a new separate string equal to what p is"""
    return And(a[0] >= 1000000, a[1] == 0, o.alive_b(a[0]), STR(a[0], a[1]) == (sval(p) if isinstance(p, PtrV) else STR(*p)))


@spec('gutil_strv_add', ['V02'], SRC, fns=['gutil_strv_add', 'gutil_ptrv_length'])
def _(run):
    for lab in ('NULL vector', 'vector'):
        c = run.case('nothing to ' + lab)
        v = SV(c) if lab == 'vector' else None
        for o in c.call('gutil_strv_add', v.p if v else NULL, NULL):
            o.ensure('nothing changes', And(o.ret_is(v.p), v.kept(o)) if v else o.null())
        c = run.case('string to ' + lab)
        v = SV(c, n=None if lab == 'vector' else 0)
        x = string(c)
        n = v.n.z
        for o in c.call('gutil_strv_add', v.p if lab == 'vector' else NULL, x):
            o.ensure('a vector with one more', vec(o, o.ret, n + 1))
            o.ensure('the strings kept', And(seq(o, o.ret, v.el, 0, n), forall(lambda i: o.alive_b(v.el(i)[0]), 0, n)))
            o.ensure('then a private copy', copyof(o, at(o, o.ret, n), x))
            if lab == 'vector':
                o.ensure('old storage not leaked', Or(o.ret_is(v.p), Not(o.alive(v.p))))


@spec('gutil_strv_addv', ['V02'], SRC, fns=['gutil_strv_addv', 'gutil_ptrv_length'])
def _(run):
    for lab in ('NULL vector', 'vector'):
        c = run.case('nothing to ' + lab)
        v = SV(c) if lab == 'vector' else None
        c.varargs('a', 0)
        for o in c.call('gutil_strv_addv', v.p if v else NULL, NULL):
            o.ensure('nothing changes', And(o.ret_is(v.p), v.kept(o)) if v else o.null())
        c = run.case('strings to ' + lab)
        v = SV(c, n=c.nat('n', 0, 2**30) if lab == 'vector' else 0)
        x = string(c)
        k = c.nat('more', 0, 2**30)
        vb, vo = c.varargs('a', k)
        n = v.n.z
        AL = c.st.blk('AL', Lin(0))
        c.require(forall(lambda i: And(Select(AL, vb[i]) == 1), 0, k, pats=lambda i: vb[i]))
        for o in c.call('gutil_strv_addv', v.p if lab == 'vector' else NULL, x):
            o.ensure('a vector with that many more', vec(o, o.ret, n + 1 + k.z))
            o.ensure('the strings kept', And(seq(o, o.ret, v.el, 0, n), forall(lambda i: o.alive_b(v.el(i)[0]), 0, n)))
            o.ensure('then a private copy of the first', copyof(o, at(o, o.ret, n), x))
            o.ensure('and of the others in order', forall(lambda i: copyof(o, at(o, o.ret, n + 1 + i), (vb[i], vo[i])), 0, k))
            o.ensure('separate strings', forall(lambda i, j: Implies(i < j, at(o, o.ret, n + i)[0] != at(o, o.ret, n + j)[0]), 0, k + 1, n=2))
            if lab == 'vector':
                o.ensure('old storage not leaked', Or(o.ret_is(v.p), Not(o.alive(v.p))))


def gone(o, v, k, freed):
    """exactly string k is out of the vector"""
    n = v.n.z
    return And(vec(o, o.ret, n - 1), seq(o, o.ret, v.el, 0, k), seq(o, o.ret, lambda j: v.el(j + 1), k, n - 1),
               forall(lambda i: Implies(i != k, o.alive_b(v.el(i)[0])), 0, n), o.alive_b(v.el(k)[0]) != freed,
               Or(o.ret_is(v.p), Not(o.alive(v.p))))


@spec('gutil_strv_remove_at', ['V02'], SRC, fns=['gutil_strv_remove_at', 'gutil_ptrv_length'])
def _(run):
    c = run.case('NULL')
    for o in c.call('gutil_strv_remove_at', NULL, c.int('pos', 32), c.int('free', 32)):
        o.ensure('NULL', o.null())
    c = run.case('vector')
    v = SV(c)
    i, fr = c.int('pos', 32), c.int('free', 32)
    p, n = i.s.z, v.n.z
    for o in c.call('gutil_strv_remove_at', v.p, i, fr):
        inside = And(p >= 0, p < n)
        o.ensure('outside: nothing changes', Implies(Not(inside), And(o.ret_is(v.p), v.kept(o))))
        o.ensure('inside: exactly that string goes, released if wanted', Implies(inside, gone(o, v, p, fr.s.z != 0)))


@spec('gutil_strv_remove', ['V02'], SRC, fns=['gutil_strv_remove', 'gutil_strv_find', 'gutil_ptrv_length'])
def _(run):
    for all_ in (0, 1):
        for lab, a, b in (('NULL vector', nul, string), ('NULL string', sv, nul)):
            c = run.case('%s %d' % (lab, all_))
            p = a(c)
            for o in c.call('gutil_strv_remove', p, b(c), c.const(32, all_)):
                o.ensure('nothing changes', o.ret_is(p))
        c = run.case('absent' if all_ else 'one')
        v = SV(c)
        x = string(c)
        n = v.n.z
        m = lambda i: v.s(i) == sval(x)
        if all_:
            c.require(forall(lambda i: Not(m(i)), 0, n, pats=lambda i: v.B[i]))
        for o in c.call('gutil_strv_remove', v.p, x, c.const(32, all_)):
            none = And(o.ret_is(v.p), v.kept(o))
            if all_ or o.ret.b == v.p.b:
                o.ensure('nothing changes if it is not there', And(none, forall(lambda i: Not(m(i)), 0, n)))
            else:
                o.ensure('the first match goes and is released', exists(lambda k: And(m(k), forall(lambda i: Not(m(i)), 0, k), gone(o, v, k, True)), 0, n))


CHUG, CHOMP = 91, 92


@spec('gutil_strv_strip', ['V02'], SRC)
def _(run):
    c = run.case('NULL')
    for o in c.call('gutil_strv_strip', NULL):
        o.ensure('NULL', o.null())
    c = run.case('vector')
    v = SV(c)

    def strip(code):
        def f(eng, st, av, ins):
            eng.oblige(st, 'string argument is alive', mkcmp('eq', st.get('AL', Lin(0), av[0].b) - 1, st.rng), ins)
            st.emit(code, av[0].b, av[0].o)
            return [(st, av[0])]
        return f
    c.eng.contracts = dict(c.eng.contracts, g_strchug=strip(CHUG), g_strchomp=strip(CHOMP))
    for o in c.call('gutil_strv_strip', v.p):
        E = [o.arr('E%d' % j, PtrV(0, 0)) for j in range(3)]
        same = lambda i, j: And(E[1][j] == v.el(i)[0], E[2][j] == v.el(i)[1])
        o.ensure('same vector, same strings', And(o.ret_is(v.p), v.kept(o)))
        o.ensure('white space of each string removed at both ends, once', And(o.evn == 2 * v.n.z, forall(
            lambda i: And(same(i, 2 * i), same(i, 2 * i + 1), Or(And(E[0][2 * i] == CHUG, E[0][2 * i + 1] == CHOMP), And(E[0][2 * i] == CHOMP, E[0][2 * i + 1] == CHUG))), 0, v.n)))


def comparator(run, cmps, sign, lab):
    c = run.case('comparator ' + lab)
    if not cmps:
        raise Unsupported('comparator not identified')
    if c.skip:
        return
    a, b = c.block('a', L(8), kinds={'P'}), c.block('b', L(8), kinds={'P'})
    s, t = string(c, 's'), string(c, 't')
    c.set_mem(a, s)
    c.set_mem(b, t)
    for nm in sorted(cmps):
        for o in c.call(nm, a, b):
            x, y = sval(s), sval(t)
            if sign < 0:
                x, y = y, x
            o.ensure('comparator: negative, zero or positive exactly as the strings compare', And((o.rs < 0) == (x < y), (o.rs == 0) == (x == y), (o.rs > 0) == (x > y)))
            p, q = o.mem_p(a), o.mem_p(b)
            o.ensure('comparator: pure', And(o.evn == 0, p.b.z == s.b.z, p.o.z == s.o.z, q.b.z == t.b.z, q.o.z == t.o.z))


@spec('gutil_strv_sort', ['V03'], SRC)
def _(run):
    f = 'gutil_strv_sort'
    for asc in (1, 0):
        lab = 'ascending' if asc else 'descending'
        c = run.case('NULL ' + lab)
        for o in c.call(f, NULL, c.const(32, asc)):
            o.ensure('NULL', And(o.null(), o.evn == 0))
        c = run.case('empty ' + lab)
        v = SV(c, n=0)
        for o in c.call(f, v.p, c.const(32, asc)):
            o.ensure('kept', And(o.ret_is(v.p), v.kept(o)))
        c = run.case(lab)
        v = SV(c, n=c.nat('n', 1, MAXN))
        for o in c.call(f, v.p, c.const(32, asc) if not asc else c.int('asc', 32, 1)):
            # the library sort is entered once, on the whole vector and nothing else
            o.ensure('sorted once as a whole', And(o.ret_is(v.p), o.evn == 1, o.ev(0, 0) == SORT, o.ev(0, 1) == v.p.b.z, o.ev(0, 2) == 0, o.ev(0, 3) == v.n.z, o.ev(0, 4) == 8))
            o.ensure('vector alive and terminated, strings alive', And(vec(o, v.p, v.n), forall(lambda i: o.alive_b(v.el(i)[0]), 0, v.n)))
        comparator(run, run.scout(lambda cc: cc.callee_events(f, [SV(cc, n=cc.nat('n', 1, MAXN)).p, cc.const(32, asc)], SORT, 5)), 1 if asc else -1, lab)


BS = 93


def bsearch(eng, st, a, ins):
    """bsearch(key, base, n, size, cmp): an element which compares equal to the key, NULL if there is none.
    Obligations: the range is readable; elements in the order of the comparator is a precondition of the contract
    (the comparator passed is verified to compare exactly in that order)"""
    n = eng.uv(st, a[2])
    o = View(eng, st)
    eng.oblige(st, 'bsearch: pointers', eng.uv(st, a[3]).z == 8, ins)
    eng.oblige(st, 'bsearch: whole vector', And(o.alive(a[1]), a[1].o.z >= 0, a[1].o.z + 8 * n.z <= o.size(a[1])), ins)
    st.emit(BS, a[1].b, a[1].o, n, L(8), a[4].b)
    key = o.mem_p(a[0])
    B, O = o.arr('PB', a[1]), o.arr('PO', a[1])
    d = a[1].o.div(8).z
    m = lambda i: STR(Select(B, d + i), Select(O, d + i)) == sval(key)
    no = st.copy()
    no.pc.append(forall(lambda i: Not(m(i)), 0, n, pats=(lambda i: Select(B, i)) if a[1].o.const() == 0 else None))
    r = eng.fresh('found', INT, (0, 2**62))
    st.add(And(r.z >= 0, r.z < n.z, m(r.z)))
    return [(st, PtrV(a[1].b, a[1].o + r * 8)), (no, NULL)]


@spec('gutil_strv_bsearch', ['V03'], SRC)
def _(run):
    f = 'gutil_strv_bsearch'
    for asc in (1, 0):
        lab = 'ascending' if asc else 'descending'
        for x, a, b in (('NULL vector', nul, string), ('NULL string', sv, nul)):
            c = run.case('%s %s' % (x, lab))
            c.eng.contracts = dict(c.eng.contracts, bsearch=bsearch)
            for o in c.call(f, a(c), b(c), c.const(32, asc)):
                o.ensure('not found', o.rs == -1)
        c = run.case(lab)
        v = SV(c, owned=False)
        s = string(c)
        c.eng.contracts = dict(c.eng.contracts, bsearch=bsearch)
        # sorted that way
        c.require(forall(lambda i, j: Implies(i < j, v.s(i) <= v.s(j) if asc else v.s(i) >= v.s(j)), 0, v.n, n=2, pats=lambda i, j: (v.B[i], v.B[j])))
        m = lambda i: v.s(i) == sval(s)
        for o in c.call(f, v.p, s, c.const(32, 0) if not asc else c.int('asc', 32, 1)):
            o.ensure('a position of the string, -1 iff it is not there', Or(And(o.rs == -1, forall(lambda i: Not(m(i)), 0, v.n)), And(o.rs >= 0, o.rs < v.n.z, m(o.rs))))
            o.ensure('pure', v.kept(o))

        def get(cc):
            cc.eng.contracts = dict(cc.eng.contracts, bsearch=bsearch)
            return cc.callee_events(f, [SV(cc, n=cc.nat('n', 1, MAXN), owned=False).p, string(cc), cc.const(32, asc)], BS, 5)
        comparator(run, run.scout(get), 1 if asc else -1, lab)
