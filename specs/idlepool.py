"""Contracts of the idle pool (gutil_idlepool.c).

Abstract view: LN[0..n) is the sequence of all items ever added, in their order (a prophecy: the array is fixed, the
positions from n on are learned as items are added); LN[h..n) is the list of the pool. Release functions are assumed to
do anything the API lets them do to the pool except dropping the reference of the caller of the drain (the rely,
Pool.effect): items are added, the pool is drained. Ghost counters: dk - position after the item released last,
bs, be - start and end of the batch it belongs to, lh - head of the list when the last release function returned."""
from gvc.spec import *
from gvc.exec import CALL, REF, UNREF
from gvc.core import PtrV, IntV, Node, ARR, ARR2, atom

SRC = ['gutil_idlepool']
PS, IS = 'gutil_idle_pool', 'gutil_idle_pool_item'
DESTROY, SUNREF, SREF, SETCB, SETN, ATTACH, DRAIN, PUNREF, PADD, PNEW, PREF, GFREE, PSET = range(60, 73)


class Pool:
    def __init__(self, c, n=None, ref=None, shared=None, name='pool'):
        self.c, self.eng = c, c.eng
        mod, self.psize = c.eng.struct_size(PS)
        mod, self.isize = c.eng.struct_size(IS)
        st = c.st
        self.p = c.struct(PS)
        self.ref = c.int('ref', 32, 1, 2**30) if ref is None else ref
        self.n = c.nat('n', 0, 2**40) if n is None else L(n)
        st.mem['DN'] = Node('base', None, v=z3.Const('G_DN', ARR2))
        self.LN, self.LX, self.NT = z3.Const('LN0', ARR), z3.Const('LX0', ARR), z3.Const('total', INT)
        self.LS = z3.Const('LS0', ARR)            # the item after (kept apart from LN so that facts about an item do not unfold the next)
        c.require(forall(lambda i: self.LS[i - 1] == self.LN[i], pats=lambda i: self.LN[i]))
        st.setblk('DN', Lin(0), z3.K(INT, z3.IntVal(0)))
        st.g['qn'], st.g['dk'], st.g['be'], st.g['lh'], st.g['bs'] = self.n, Lin(0), Lin(0), Lin(0), Lin(0)
        c.set(self.p, PS, 'ref_count', self.ref)
        for x in ('first', 'last', 'idle', 'thread', 'shared'):
            v = shared if x == 'shared' and shared is not None else c.anyptr(x)
            c.set(self.p, PS, x, v)
            setattr(self, x, v)
        LN, LX, n = self.LN, self.LX, self.n.z
        c.require(And(If(n > 0, And(self.first.b.z == LN[0], self.first.o.z == 0, self.last.b.z == LN[n - 1], self.last.o.z == 0),
                         And(*[x == 0 for p in (self.first, self.last) for x in (p.b.z, p.o.z)])),
                      Implies(n > 0, self.idle.b.z != 0), self.idle.o.z == 0, self.NT >= n))
        c.require(self.items(st, 0, n))
        c.require(forall(lambda i: And(LN[i] >= 100000, LN[i] < 1000000), 0, n, pats=lambda i: LN[i]))
        st.user['indirect'] = self.callback
        st.user['onlyuser'] = True

    # ---- reading the state
    def f(self, st, fld, b):
        mod, off, sz = self.eng.field(IS, fld)
        return tuple(z3.Select(z3.Select(st.mem[k].mat(), b), off // 8) for k in ('PB', 'PO'))

    def pp(self, st, fld):
        return View(self.eng, st).p(self.p, PS, fld)

    def head(self, st):
        first = self.pp(st, 'first')
        return If(first.b.z == 0, st.g['qn'].z, self.LX[first.b.z])

    def isptr(self, p, b):
        return And(p[0] == b, p[1] == 0)

    def item(self, st, b):
        AL, SZ = st.blk('AL', Lin(0)), st.blk('SZ', Lin(0))
        return And(b >= 100000, b < st.g['nb'].z, AL[b] == 1, SZ[b] == self.isize)

    def items(self, st, h, n):
        LN, LX = self.LN, self.LX
        return forall(lambda i: And(LX[LN[i]] == i, self.item(st, LN[i]), self.f(st, 'destroy', LN[i])[0] != 0,
                                    self.isptr(self.f(st, 'next', LN[i]), If(i + 1 < n, self.LS[i], 0))), h, n, pats=lambda i: LN[i])

    def wf(self, st):
        h, n, LN = self.head(st), st.g['qn'].z, self.LN
        first, last, idle = [self.pp(st, x) for x in ('first', 'last', 'idle')]
        return And(h >= 0, h <= n, n <= self.NT, first.o.z == 0, last.o.z == 0, Implies(first.b.z != 0, And(h < n, LN[h] == first.b.z)),
                   last.b.z == If(h < n, LN[n - 1], 0), self.items(st, h, n), st.g['nb'].z >= 1000000,
                   View(self.eng, st).alive(self.p), idle.o.z == 0,
                   forall(lambda i: And(self.LX[LN[i]] == i, LN[i] >= 100000, LN[i] < st.g['nb'].z), 0, n, pats=lambda i: LN[i]))

    def scheduled(self, st):
        return Implies(self.head(st) < st.g['qn'].z, self.pp(st, 'idle').b.z != 0)

    def dn(self, st, b):
        return st.blk('DN', Lin(0))[b]

    def counts(self, st, h):
        """items from position h on have not been released"""
        return forall(lambda i: self.dn(st, self.LN[i]) == 0, h, st.g['qn'], pats=lambda i: self.LN[i])

    def all_called(self, st, h):
        """items below position h have been passed to their release functions, or were by an inner drain"""
        return forall(lambda i: Or(self.dn(st, self.LN[i]) == 1, st.blk('AL', Lin(0))[self.LN[i]] == 0), 0, h, pats=lambda i: self.LN[i])

    def kept(self, st, was, b, nxt=True):
        same = lambda f: And(*[x == y for x, y in zip(self.f(st, f, b), self.f(was, f, b))])
        return And(self.item(st, b), same('pointer'), same('destroy'), same('next') if nxt else True)

    # ---- release functions
    def callback(self, eng, st, p, av, rt, ins):
        g = {k: st.g[k].z for k in ('dk', 'be', 'lh', 'qn', 'bs')}
        h, inb = self.head(st), g['dk'] < g['be']
        cp, be = eng.fresh('pos', INT), eng.fresh('be', INT)
        st.add(And(cp.z == If(inb, g['dk'], g['lh']), be.z == If(inb, g['be'], h)))
        cc = eng.fresh('cur', INT)
        st.add(cc.z == self.LN[cp.z])
        cur = cc.z
        d, data = self.f(st, 'destroy', cur), self.f(st, 'pointer', cur)
        ob = lambda s, x: eng.oblige(st, s, x, ins)
        ob('release: the pool is in a consistent state', And(self.wf(st), self.scheduled(st)))
        ob('release: an item taken off the list, the next one in order', And(cp.z >= 0, cp.z < be.z, be.z <= h, self.LX[cur] == cp.z, self.item(st, cur)))
        ob('release: not released before', self.dn(st, cur) == 0)
        ob('release: its function', And(p.b.z == d[0], p.o.z == d[1]))
        ob('release: its data', And(len(av) == 1, av[0].b.z == data[0], av[0].o.z == data[1]))
        self.effect(eng, st, cur)
        bs = eng.fresh('bs', INT)
        st.add(bs.z == If(inb, g['bs'], g['lh']))
        st.g['bs'] = atom(bs.z)
        st.g['dk'], st.g['be'] = atom(eng.fresh('dk', INT).z), be if isinstance(be, Lin) else atom(be.z)
        st.add(st.g['dk'].z == cp.z + 1)
        lh = eng.fresh('lh', INT)
        st.add(lh.z == self.head(st))
        st.g['lh'] = atom(lh.z)
        return [(st, None)]

    def effect(self, eng, st, cur):
        was = st.copy()
        h, n, nb = self.head(was), was.g['qn'].z, was.g['nb'].z
        LN, LX, p = self.LN, self.LX, self.p.b.z
        fr = lambda s, sort=INT: eng.fresh(s, sort)
        n1, nb1, drained = fr('qn').z, fr('nb').z, fr('drained', z3.BoolSort())
        h1 = If(drained, n, h)
        for k in (4, 'PB', 'PO'):
            st.mem[k] = Node('hv', None, v=fr('mem%s' % k, ARR2))
        AL0, AL1 = was.blk('AL', Lin(0)), fr('AL', ARR)
        st.setblk('AL', Lin(0), AL1)
        st.setblk('DN', Lin(0), z3.Store(was.blk('DN', Lin(0)), cur, self.dn(was, cur) + 1))
        st.g['qn'], st.g['nb'] = atom(n1), atom(nb1)
        st.add(And(n1 >= n, n1 <= self.NT, nb1 >= nb))
        listed = lambda b: And(LX[b] >= h, LX[b] < n, LN[LX[b]] == b)
        other = lambda b: And(b != p, b < nb, Not(listed(b)))
        for k in (4, 'PB', 'PO'):
            N, M = st.mem[k].mat(), was.mem[k].mat()
            st.pc.append(forall(lambda b: Implies(other(b), N[b] == M[b]), pats=lambda b: N[b]))
        st.pc.append(forall(lambda b: Implies(Or(other(b), b == p), AL1[b] == AL0[b]), pats=lambda b: AL1[b]))
        first, last, idle = [self.pp(st, x) for x in ('first', 'last', 'idle')]
        st.add(And(first.o.z == 0, last.o.z == 0, idle.o.z == 0,
                   If(h1 < n1, And(first.b.z == LN[h1], last.b.z == LN[n1 - 1], idle.b.z != 0), And(first.b.z == 0, last.b.z == 0)),
                   View(eng, st).i(self.p, PS, 'ref_count') >= 1))
        for x in ('thread',):
            a, b = self.pp(st, x), self.pp(was, x)
            st.add(And(a.b.z == b.b.z, a.o.z == b.o.z))
        st.pc.append(self.items(st, h1, n1))
        st.pc.append(forall(lambda i: And(LN[i] >= nb, LX[LN[i]] == i, self.dn(was, LN[i]) == 0), n, n1, pats=lambda i: LN[i]))
        st.pc.append(forall(lambda i: If(drained, AL1[LN[i]] == 0, self.kept(st, was, LN[i], nxt=False)), h, n, pats=lambda i: LN[i]))


def chain_free(q):
    """g_slice_free_chain_with_offset(size, chain, offset): the items of the list linked through their first field are
    live blocks of that size; they die"""
    def f(eng, st, av, ins):
        out = []
        for s, isn in eng.fork(st, eng.isnull(st, av[1])):
            if isn:
                out.append((s, None))
                continue
            mod, off, sz = eng.field(IS, 'next')
            b, be, LN, LX = av[1].b.z, s.g['be'].z, q.LN, q.LX
            x = LX[b]
            eng.oblige(s, 'g_slice_free_chain: size and offset', And(eng.uv(s, av[0]).z == q.isize, eng.uv(s, av[2]).z == off), ins)
            eng.oblige(s, 'g_slice_free_chain: a batch', And(av[1].o.z == 0, x >= s.g['bs'].z, s.g['bs'].z >= 0, x < be, LN[x] == b), ins)
            eng.oblige(s, 'g_slice_free_chain: a list of live items, each once', And(
                       forall(lambda i: And(q.item(s, LN[i]), LX[LN[i]] == i, q.isptr(q.f(s, 'next', LN[i]), If(i + 1 < be, q.LS[i], 0))), x, be, pats=lambda i: LN[i])), ins)
            eng.oblige(s, 'items are freed once they have been released', forall(lambda i: q.dn(s, LN[i]) == 1, x, be, pats=lambda i: LN[i]), ins)
            AL0, AL1 = s.blk('AL', Lin(0)), eng.fresh('AL', ARR)
            s.setblk('AL', Lin(0), AL1)
            s.pc.append(forall(lambda i: AL1[LN[i]] == 0, x, be, pats=lambda i: LN[i]))
            s.pc.append(forall(lambda c: Or(AL1[c] == AL0[c], And(LX[c] >= x, LX[c] < be, LN[LX[c]] == c)), pats=lambda c: AL1[c]))
            out.append((s, None))
        return out
    return f


def onfree(q):
    def f(eng, st, p, ins):
        eng.oblige(st, 'an item is freed once it has been released', Or(p.b.z == q.p.b.z, q.dn(st, p.b.z) == 1), ins)
    return f


def src_op(code, then=None):
    def f(eng, st, av, ins):
        eng.oblige(st, 'the source is not NULL', av[0].b.z != 0, ins)
        st.emit(code, av[0].b, av[0].o)
        if then:
            then(eng, st, av, ins)
        return [(st, None)]
    return f


@spec('gutil_idle_pool_drain', ['Q02'], SRC)
def _(run):
    for nm in ('pool', 'NULL'):
        c = run.case(nm)
        q = Pool(c)
        c.st.user['onslicefree'] = onfree(q)

        def destroyed(eng, st, av, ins):
            ob = lambda s, x: eng.oblige(st, s, x, ins)
            idle = q.pp(st, 'idle')
            ob('the source goes when everything is released', And(q.wf(st), q.head(st) == st.g['qn'].z, q.all_called(st, st.g['qn'])))
            ob('and is forgotten', idle.b.z == 0)
            # it may hold the last reference
            st.user['gone'] = True
            st.store('AL', 0, q.p.b, eng.fresh('alp', INT))

        cons = dict(g_source_destroy=src_op(DESTROY, destroyed), g_source_unref=src_op(SUNREF), g_slice_free_chain_with_offset=chain_free(q))
        if nm == 'NULL':
            cons['gutil_idle_pool_get_default'] = lambda eng, st, av, ins: [(st, q.p)]
        c.eng.contracts = dict(c.eng.contracts, **cons)
        LN, LX = q.LN, q.LX

        def inv(hv):
            e = hv.entry.st
            ps = hv.ptrs()
            ps = [(n, v) for n, v in ps if not (hv.entry.phis[n].b.const() is not None and hv.entry.phis[n].b.const() == q.p.b.const())]
            g = lambda h, k: h.st.g[k].z
            common = [('=the pool is well formed', lambda h: And(q.wf(h.st), q.scheduled(h.st))),
                      ('=nothing on the list has been released', lambda h: q.counts(h.st, q.head(h.st)))]
            if not ps:
                return common + [
                    ('=batch complete', lambda h: And(g(h, 'lh') == q.head(h.st), g(h, 'dk') == g(h, 'be'))),
                    ('=everything before has been released', lambda h: q.all_called(h.st, q.head(h.st)))]
            lh, n0 = e.g['lh'].z, e.g['qn'].z
            D = lambda h, i: And(q.item(h.st, LN[i]), LX[LN[i]] == i, q.f(h.st, 'destroy', LN[i])[0] != 0, q.isptr(q.f(h.st, 'next', LN[i]), If(i + 1 < n0, q.LS[i], 0)))
            return common + [('=%s is the next item' % nm, lambda h, nm=nm: And(h.phis[nm].o.z == 0, h.phis[nm].b.z == If(lh + Z(h.k) < n0, LN[lh + Z(h.k)], 0))) for nm, v in ps] + [
                ('=the batch', lambda h: And(lh < n0, lh + Z(h.k) <= n0, q.head(h.st) >= n0, If(Z(h.k) == 0, And(g(h, 'dk') == e.g['dk'].z, g(h, 'be') == e.g['be'].z, g(h, 'bs') == e.g['bs'].z, g(h, 'lh') == lh, q.head(h.st) == n0), And(g(h, 'dk') == lh + Z(h.k), g(h, 'be') == n0, g(h, 'bs') == lh, g(h, 'lh') == q.head(h.st))))),
                ('=items of the batch', lambda h: forall(lambda i: And(D(h, i), q.dn(h.st, LN[i]) == If(i < lh + Z(h.k), 1, 0)), lh, n0, pats=lambda i: LN[i])),
                ('=earlier ones', lambda h: q.all_called(h.st, lh)),
                ('=later ones', lambda h: forall(lambda i: Or(q.dn(h.st, LN[i]) == 1, h.st.blk('AL', Lin(0))[LN[i]] == 0), n0, q.head(h.st), pats=lambda i: LN[i])),
            ]
        c.inv('*', inv)

        def measure(eng, st, f, hd, phis, k):
            return [q.NT - st.g['lh'].z, q.NT - k]
        c.measure('*', measure)
        for o in c.call('gutil_idle_pool_drain', NULL if nm == 'NULL' else q.p):
            st = o.st
            o.ensure('every item has been released', q.all_called(st, st.g['qn']))
            if 'gone' not in st.user:
                o.ensure('nothing is left', And(q.head(st) == st.g['qn'].z, q.wf(st)))
                o.ensure('no source is left', And(o.evn == 0, q.pp(st, 'idle').b.z == 0))
            else:
                o.ensure('the source is destroyed and dropped once', And(o.evn == 2, o.ev(0, 0) == DESTROY, o.ev(1, 0) == SUNREF, o.ev(0, 1) == o.ev(1, 1)))


def idle_fns(run):
    """the source callback and the notification passed to g_source_set_callback, found by running gutil_idle_pool_add"""
    def go(cc):
        q = Pool(cc, n=0)
        cc.st.user['indirect'] = None
        cc.eng.contracts = dict(cc.eng.contracts, **add_contracts(q))
        a = [q.p, cc.opaque('data'), cc.callback('destroy')]
        return cc.callee_events('gutil_idle_pool_add', a, SETCB, 2), cc.callee_events('gutil_idle_pool_add', a, SETN, 2)
    return run.scout(go)


def add_contracts(q):
    c = q.c
    new, ctx, dctx = c.opaque('source'), c.anyptr('context'), c.opaque('default_context')
    dead = c.int('destroyed', 32, 0, 1)
    q.new, q.ctx, q.dctx, q.dead = new, ctx, dctx, dead

    def idle_new(eng, st, av, ins):
        eng.oblige(st, 'one source at a time', z3.BoolVal('newsrc' not in st.user), ins)
        st.user['newsrc'] = True
        return [(st, new)]

    def is_destroyed(eng, st, av, ins):
        eng.oblige(st, 'the source is that of the pool', And(av[0].b.z == q.idle.b.z, av[0].b.z != 0), ins)
        return [(st, dead)]

    def set_cb(eng, st, av, ins):
        st.emit(SETCB, av[0].b, av[1].b, av[2].b, av[2].o)
        st.emit(SETN, av[0].b, av[3].b)
        return [(st, None)]

    def attach(eng, st, av, ins):
        st.emit(ATTACH, av[0].b, av[1].b)
        i = eng.fresh('srcid', INT)
        st.add(And(i.z >= 1, i.z < 2**32))
        return [(st, IntV(32, u=i))]

    def sref(eng, st, av, ins):
        eng.oblige(st, 'the source is not NULL', av[0].b.z != 0, ins)
        st.emit(SREF, av[0].b)
        return [(st, av[0])]
    return dict(g_idle_source_new=idle_new, g_source_is_destroyed=is_destroyed, g_source_set_callback=set_cb, g_source_attach=attach,
                g_source_ref=sref, g_source_unref=src_op(SUNREF), g_source_destroy=src_op(DESTROY),
                g_source_set_priority=lambda eng, st, av, ins: [(st, None)],
                g_main_context_get_thread_default=lambda eng, st, av, ins: [(st, ctx)],
                g_main_context_default=lambda eng, st, av, ins: [(st, dctx)])


@spec('gutil_idle_pool_add', ['Q02'], SRC, fns=['gutil_idle_pool_add', 'gutil_idle_pool_ref'])
def _(run):
    f = 'gutil_idle_pool_add'
    c = run.case('no release function')
    p, d = c.anyptr('pool'), c.anyptr('data')
    for o in c.call(f, p, d, NULL):
        o.ensure('nothing happens', And(o.evn == 0, o.ret_is(d)))
    for nm in ('pool', 'NULL'):
        c = run.case(nm)
        q = Pool(c)
        c.st.user['indirect'] = None
        cons = add_contracts(q)
        if nm == 'NULL':
            cons['gutil_idle_pool_get_default'] = lambda eng, st, av, ins: [(st, q.p)]
        c.eng.contracts = dict(c.eng.contracts, **cons)
        d, z = c.anyptr('data'), c.callback('destroy')
        pre = c.st.copy()
        LN, n = q.LN, q.n.z
        c.require(If(q.idle.b.z == 0, True, q.idle.b.z != q.new.b.z))
        for o in c.call(f, NULL if nm == 'NULL' else q.p, d, z):
            st = o.st
            first, last, idle = o.p(q.p, PS, 'first'), o.p(q.p, PS, 'last'), o.p(q.p, PS, 'idle')
            b = last.b.z
            o.ensure('returns what was given', o.ret_is(d))
            o.ensure('a new item', And(b >= 1000000, o.alive_b(b), st.blk('SZ', Lin(0))[b] == q.isize, last.o.z == 0, q.isptr(q.f(st, 'next', b), 0)))
            p = lambda fl, v: And(*[x == y.z for x, y in zip(q.f(st, fl, b), (v.b, v.o))])
            o.ensure('with what was given', And(p('pointer', d), p('destroy', z)))
            o.ensure('added at the end', And(first.o.z == 0, If(n == 0, first.b.z == b, And(first.b.z == LN[0], q.isptr(q.f(st, 'next', LN[n - 1]), b)))))
            o.ensure('those before are as they were', forall(lambda i: And(q.kept(st, pre, LN[i], nxt=False), Implies(i < n - 1, q.isptr(q.f(st, 'next', LN[i]), LN[i + 1]))), 0, n, pats=lambda i: LN[i]))
            ev = lambda code: [i for i in range(o.evn.as_long() if hasattr(o.evn, 'as_long') else int(str(z3.simplify(o.evn)))) if st.get('E0', Lin(0), L(i)).const() == code]
            cb, nt, at, un, rf, de = [ev(k) for k in (SETCB, SETN, ATTACH, SUNREF, SREF, DESTROY)]
            rc, rc0 = o.i(q.p, PS, 'ref_count'), View(o.eng, pre).i(q.p, PS, 'ref_count')
            if 'newsrc' not in st.user:
                o.ensure('an active source stays', And(q.idle.b.z != 0, c.eng.sv(c.st, q.dead).z == 0, idle.b.z == q.idle.b.z, o.evn == 0, rc == rc0))
                continue
            o.ensure('a new source only if there is no active one', Or(q.idle.b.z == 0, c.eng.sv(c.st, q.dead).z != 0))
            o.ensure('the new source calls back with the pool', z3.BoolVal(len(cb) == 1 and len(nt) == 1))
            if len(cb) == 1 and len(nt) == 1:
                o.ensure('with the pool', And(o.ev(cb[0], 1) == q.new.b.z, o.ev(cb[0], 3) == q.p.b.z, o.ev(cb[0], 4) == 0))
            o.ensure('attached once, to the context of this thread', z3.BoolVal(len(at) == 1))
            if len(at) == 1:
                # passing NULL means the default context
                o.ensure('attached to the context of this thread', And(o.ev(at[0], 1) == q.new.b.z, If(q.ctx.b.z != 0, o.ev(at[0], 2) == q.ctx.b.z, Or(o.ev(at[0], 2) == q.dctx.b.z, o.ev(at[0], 2) == 0))))
            o.ensure('the source is that of the pool', And(idle.b.z == q.new.b.z, idle.o.z == q.new.o.z))
            o.ensure('the source holds a reference to the pool', rc == rc0 + 1)
            cnt = lambda es, s: sum([If(o.ev(i, 1) == s, 1, 0) for i in es], z3.IntVal(0))
            o.ensure('the pool holds a reference to the new source', cnt(rf, q.new.b.z) - cnt(un, q.new.b.z) == 0)
            o.ensure('and dropped that of the old one', If(q.idle.b.z != 0, cnt(un, q.idle.b.z) - cnt(rf, q.idle.b.z) == 1, len(un) == len(rf)))
            o.ensure('nothing else is destroyed', And(*[o.ev(i, 1) == q.idle.b.z for i in de]))


@spec('gutil_idle_pool_idle', ['Q02'], SRC, fns=['gutil_idle_pool_drain', 'gutil_idle_pool_unref', 'gutil_idle_pool_ref'])
def _(run):
    fs, ns = idle_fns(run)
    if len(fs) != 1 or len(ns) != 1:
        raise Unsupported('callbacks of the source not identified')
    for mine in (1, 0):
        c = run.case('idle callback, %s thread' % ('same' if mine else 'another'))
        if c.skip:
            continue
        q = Pool(c)
        th = q.thread if mine else c.anyptr('self')
        if not mine:
            c.require(Or(th.b.z != q.thread.b.z, th.o.z != q.thread.o.z))
        c.eng.contracts = dict(c.eng.contracts, gutil_idle_pool_drain=obj_op(DRAIN, q), g_thread_self=lambda eng, st, av, ins: [(st, th)],
                               gutil_log=lambda eng, st, av, ins: [(st, None)])
        pre = c.st.copy()
        for o in c.call(sorted(fs)[0], q.p):
            o.ensure('drained' if mine else 'left alone', And(o.evn == 1, o.ev(0, 0) == DRAIN, o.ev(0, 1) == q.p.b.z) if mine else o.evn == 0)
            if not mine:
                o.ensure('items are left alone', forall(lambda i: q.kept(o.st, pre, q.LN[i]), 0, q.n.z, pats=lambda i: q.LN[i]))
            else:
                o.ensure('the source goes away', Not(o.truth()))
    c = run.case('notification')
    if not c.skip:
        q = Pool(c)
        c.eng.contracts = dict(c.eng.contracts, gutil_idle_pool_unref=obj_op(PUNREF, q))
        for o in c.call(sorted(ns)[0], q.p):
            o.ensure('drops one reference to the pool', And(o.evn == 1, o.ev(0, 0) == PUNREF, o.ev(0, 1) == q.p.b.z))


def obj_op(code, q=None):
    def f(eng, st, av, ins):
        eng.oblige(st, 'the pool is alive', View(eng, st).alive(av[0]), ins)
        st.emit(code, av[0].b)
        return [(st, None)]
    return f


@spec('gutil_idle_pool_lifetime', ['Q02', 'W01'], SRC, fns=['gutil_idle_pool_new', 'gutil_idle_pool_ref', 'gutil_idle_pool_unref', 'gutil_idle_pool_destroy'])
def _(run):
    c = run.case('new')
    th = c.anyptr('self')
    c.eng.contracts = dict(c.eng.contracts, g_thread_self=lambda eng, st, av, ins: [(st, th)])
    for o in c.call('gutil_idle_pool_new'):
        r = o.ret
        o.ensure('an empty pool with one reference, of this thread', And(Not(o.null()), o.alive(r), o.i(r, PS, 'ref_count') == 1, o.evn == 0, *[o.p(r, PS, x).b.z == 0 for x in ('first', 'last', 'idle', 'shared')],
                 o.p(r, PS, 'thread').b.z == th.b.z, o.p(r, PS, 'thread').o.z == th.o.z))
    for f in ('ref', 'unref', 'destroy'):
        c = run.case(f + ' NULL')
        for o in c.call('gutil_idle_pool_' + f, NULL):
            o.ensure('nothing happens', And(o.evn == 0, o.null() if f == 'ref' else True))
    c = run.case('ref')
    q = Pool(c)
    pre = c.st.copy()
    for o in c.call('gutil_idle_pool_ref', q.p):
        o.ensure('one more reference', And(o.ret_is(q.p), o.i(q.p, PS, 'ref_count') == c.eng.sv(c.st, q.ref).z + 1, o.evn == 0, forall(lambda i: q.kept(o.st, pre, q.LN[i]), 0, q.n.z)))
    for last in (0, 1):
        for shared in (0, 1):
            c = run.case('unref %s%s' % ('last' if last else 'not last', ', shared' if shared else ''))
            sh = c.block('holder', L(8), kinds={'P'}) if shared else NULL
            q = Pool(c, ref=c.int('ref', 32, 1, 1) if last else c.int('ref', 32, 2, 2**30), shared=sh)
            if shared:
                c.st.store('PB', sh.b, 0, q.p.b)
                c.st.store('PO', sh.b, 0, q.p.o)
            drain = obj_op(DRAIN)

            def dr(eng, st, av, ins):
                if shared:
                    eng.oblige(st, 'the shared pointer is cleared first', st.get('PB', sh.b, Lin(0)).z == 0, ins)
                return drain(eng, st, av, ins)
            c.eng.contracts = dict(c.eng.contracts, gutil_idle_pool_drain=dr)
            pre = c.st.copy()
            for o in c.call('gutil_idle_pool_unref', q.p):
                if last:
                    o.ensure('emptied, then released', And(o.evn == 1, o.ev(0, 0) == DRAIN, o.ev(0, 1) == q.p.b.z, Not(o.alive(q.p))))
                    if shared:
                        o.ensure('the shared pointer is cleared', o.st.get('PB', sh.b, Lin(0)).z == 0)
                else:
                    o.ensure('one reference less', And(o.evn == 0, o.alive(q.p), o.i(q.p, PS, 'ref_count') == c.eng.sv(c.st, q.ref).z - 1, forall(lambda i: q.kept(o.st, pre, q.LN[i]), 0, q.n.z)))
                    if shared:
                        o.ensure('the shared pointer stays', o.st.get('PB', sh.b, Lin(0)).z == q.p.b.z)
    c = run.case('destroy')
    q = Pool(c)
    c.eng.contracts = dict(c.eng.contracts, gutil_idle_pool_drain=obj_op(DRAIN), gutil_idle_pool_unref=obj_op(PUNREF))
    for o in c.call('gutil_idle_pool_destroy', q.p):
        o.ensure('emptied, then one reference dropped', And(o.evn == 2, o.ev(0, 0) == DRAIN, o.ev(1, 0) == PUNREF, o.ev(0, 1) == q.p.b.z, o.ev(1, 1) == q.p.b.z))


def pool_add(eng, st, av, ins):
    """contract of gutil_idle_pool_add(pool, data, function): event, returns data"""
    st.emit(PADD, av[0].b, av[1].b, av[1].o, av[2].b)
    return [(st, av[1])]


@spec('gutil_idle_pool_get', ['Q02'], SRC, fns=['gutil_idle_pool_get', 'gutil_idle_pool_get_default', 'gutil_idle_pool_new', 'gutil_idle_pool_add', 'gutil_idle_pool_unref'])
def _(run):
    def new(q):
        def f(eng, st, av, ins):
            st.emit(PNEW)
            return [(st, q.p)]
        return f
    c = run.case('not shared')
    q = Pool(c, n=0, shared=NULL)
    c.eng.contracts = dict(c.eng.contracts, gutil_idle_pool_new=new(q), gutil_idle_pool_add=pool_add)
    for o in c.call('gutil_idle_pool_get', NULL):
        o.ensure('a new pool', And(o.ret_is(q.p), o.evn == 1, o.ev(0, 0) == PNEW, o.p(q.p, PS, 'shared').b.z == 0))
    for there in (1, 0):
        c = run.case('shared' + (', exists' if there else ''))
        sh = c.block('holder', L(8), kinds={'P'})
        q = Pool(c, n=0, shared=sh if there else NULL)
        for k, v in (('PB', q.p.b), ('PO', q.p.o)):
            c.st.store(k, sh.b, 0, v if there else Lin(0))
        c.eng.contracts = dict(c.eng.contracts, gutil_idle_pool_new=new(q), gutil_idle_pool_add=pool_add)
        for o in c.call('gutil_idle_pool_get', sh):
            o.ensure('the pool', o.ret_is(q.p))
            o.ensure('remembered', And(o.st.get('PB', sh.b, Lin(0)).z == q.p.b.z, o.st.get('PO', sh.b, Lin(0)).z == 0, o.p(q.p, PS, 'shared').b.z == sh.b.z, o.p(q.p, PS, 'shared').o.z == 0))
            if there:
                o.ensure('nothing new', o.evn == 0)
            else:
                o.ensure('a new pool drops itself when it is not referenced', And(o.evn == 2, o.ev(0, 0) == PNEW, o.ev(1, 0) == PADD, o.ev(1, 1) == q.p.b.z, o.ev(1, 2) == q.p.b.z, o.ev(1, 3) == 0))

    def release(cc):
        q = Pool(cc, n=0, shared=NULL)
        sh = cc.block('holder', L(8), kinds={'P'})
        for k in ('PB', 'PO'):
            cc.st.store(k, sh.b, 0, Lin(0))
        cc.eng.contracts = dict(cc.eng.contracts, gutil_idle_pool_new=new(q), gutil_idle_pool_add=pool_add)
        return cc.callee_events('gutil_idle_pool_get', [sh], PADD, 4)
    fs = run.scout(release)
    c = run.case('release function of a shared pool')
    if not c.skip:
        if len(fs) != 1:
            raise Unsupported('release function not identified')
        q = Pool(c)
        c.eng.contracts = dict(c.eng.contracts, gutil_idle_pool_unref=obj_op(PUNREF))
        for o in c.call(sorted(fs)[0], q.p):
            o.ensure('drops one reference to the pool', And(o.evn == 1, o.ev(0, 0) == PUNREF, o.ev(0, 1) == q.p.b.z))
    c = run.case('default')
    q = Pool(c, n=0, shared=NULL)
    old = c.anyptr('private')

    def pset(eng, st, av, ins):
        st.emit(PSET, av[0].b, av[1].b, av[1].o)
        return [(st, None)]

    def pget(eng, st, av, ins):
        st.user['key'] = av[0].b
        return [(st, old)]
    c.eng.contracts = dict(c.eng.contracts, gutil_idle_pool_new=new(q), g_private_get=pget, g_private_set=pset, g_private_replace=pset)
    for o in c.call('gutil_idle_pool_get_default'):
        key = o.st.user.get('key')
        o.ensure('that of this thread, made on demand', If(old.b.z != 0, And(o.ret_is(old), o.evn == 0),
                 And(o.ret_is(q.p), o.evn == 2, o.ev(0, 0) == PNEW, o.ev(1, 0) == PSET, o.ev(1, 2) == q.p.b.z, o.ev(1, 3) == 0, o.ev(1, 1) == (key.z if key is not None else -1))))


KINDS = [('strv', None, 'g_strfreev'), ('object', 'g_object_ref', 'g_object_unref'), ('variant', 'g_variant_ref', 'g_variant_unref'),
         ('ptr_array', 'g_ptr_array_ref', 'g_ptr_array_unref'), ('bytes', 'g_bytes_ref', 'g_bytes_unref')]


def kind_contracts(ref, rel, **more):
    def ev(code):
        def f(eng, st, av, ins):
            st.emit(code, av[0].b, av[0].o)
            return [(st, av[0])]
        return f
    d = {rel: ev(GFREE)}
    if ref:
        d[ref] = ev(PREF)
    d.update(more)
    return d


@spec('gutil_idle_pool_add_typed', ['Q02'], SRC, fns=['gutil_idle_pool_add_' + k for k, _, _ in KINDS] + ['gutil_idle_pool_add_%s_ref' % k for k, r, _ in KINDS if r])
def _(run):
    for kind, ref, rel in KINDS:
        for sfx in ('', '_ref') if ref else ('',):
            f = 'gutil_idle_pool_add_' + kind + sfx
            c = run.case(kind + sfx + ' NULL')
            p = c.anyptr('pool')
            c.eng.contracts = dict(c.eng.contracts, **kind_contracts(ref, rel, gutil_idle_pool_add=pool_add))
            for o in c.call(f, p, NULL):
                o.ensure('nothing happens', And(o.evn == 0, o.null()))
            c = run.case(kind + sfx)
            p, d = c.anyptr('pool'), c.opaque('data')
            c.eng.contracts = dict(c.eng.contracts, **kind_contracts(ref, rel, gutil_idle_pool_add=pool_add))
            for o in c.call(f, p, d):
                n = len(sfx) > 0
                o.ensure('returns what was given', o.ret_is(d))
                o.ensure('added once' + (', with a reference of its own' if n else ''), And(o.evn == 1 + n, o.ev(n, 0) == PADD, o.ev(n, 1) == p.b.z, o.ev(n, 2) == d.b.z, o.ev(n, 3) == d.o.z,
                                                                                                 *([o.ev(0, 0) == PREF, o.ev(0, 1) == d.b.z] if n else [])))

            def release(cc, f=f, ref=ref, rel=rel):
                cc.eng.contracts = dict(cc.eng.contracts, **kind_contracts(ref, rel, gutil_idle_pool_add=pool_add))
                return cc.callee_events(f, [cc.opaque('pool'), cc.opaque('data')], PADD, 4)
            fs = run.scout(release)
            if len(fs) != 1:
                raise Unsupported('release function of %s not identified' % kind)
            fn = sorted(fs)[0]
            if fn == rel:        # the function of GLib itself
                continue
            c = run.case(kind + sfx + ' release')
            d = c.opaque('data')
            c.eng.contracts = dict(c.eng.contracts, **kind_contracts(ref, rel))
            for o in c.call(fn, d):
                o.ensure('released once', And(o.evn == 1, o.ev(0, 0) == GFREE, o.ev(0, 1) == d.b.z, o.ev(0, 2) == d.o.z))
