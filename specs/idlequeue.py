"""Contracts of the idle queue (gutil_idlequeue.c).

Abstract view: the sequence LN[h..n) of pending items (ghost arrays LN: position -> item block, LX: its inverse; the
list starts at the position h of q->first). Callbacks are assumed to do anything the API lets them do to the queue
(the rely, Q.callback): drop pending items, add new ones at the end, take and drop references of their own."""
from gvc.spec import *
from gvc.core import PtrV, IntV, Node, ARR, ARR2, atom
from gvc.stubs import MISC

SRC = ['gutil_idlequeue', 'gutil_misc']
QS, IS = 'gutil_idle_queue', 'gutil_idle_queue_item'
ADDSRC = 95
FREEQ = 96


class Q:
    def __init__(self, c, n=None, ref=None, held=False):
        """held: the functions called from here hold a reference of their own (taken by the code under contract)"""
        self.c, self.eng = c, c.eng
        mod, self.qsize = c.eng.struct_size(QS)
        mod, self.isize = c.eng.struct_size(IS)
        st = c.st
        self.q = c.struct(QS)
        self.ref = c.int('ref', 32, 1, 2**30) if ref is None else ref
        self.n = c.nat('n', 0, 2**40) if n is None else L(n)
        self.held = held
        self.last_loop = None
        for k in ('LN', 'LX', 'DN'):
            st.mem[k] = Node('base', None, v=z3.Const('G_%s' % k, ARR2))
        LN, LX = z3.Const('LN0', ARR), z3.Const('LX0', ARR)
        st.setblk('LN', Lin(0), LN)
        st.setblk('LX', Lin(0), LX)
        st.g['qn'] = self.n
        st.g['qc'] = self.n                       # items below this are the marked ones, once all present ones are
        st.g['ext'] = c.eng.sv(st, self.ref)      # references held by others
        self.src = c.int('src', 32, 0, 2**32 - 1, unsigned=True)
        for f, v in dict(ref_count=self.ref, source_id=self.src).items():
            c.set(self.q, QS, f, v)
        first, last = c.anyptr('first'), c.anyptr('last')
        c.set(self.q, QS, 'first', first)
        c.set(self.q, QS, 'last', last)
        n = self.n.z
        c.require(And(If(n > 0, And(first.b.z == LN[0], first.o.z == 0, last.b.z == LN[n - 1], last.o.z == 0),
                         And(first.b.z == 0, first.o.z == 0, last.b.z == 0, last.o.z == 0)),
                      Implies(n > 0, c.eng.uv(st, self.src).z != 0)))
        c.require(self.items(st, 0, n))
        c.require(forall(lambda i: And(LN[i] >= 100000, LN[i] < 1000000), 0, n, pats=lambda i: LN[i]))
        st.user['indirect'] = self.callback
        st.user['onlyuser'] = True
        self.LN0 = LN

    # ---- reading the state
    def f(self, st, sname, fld, b, kind=None):
        """field of the block b (z3 term); pointers as (block, offset)"""
        mod, off, sz = self.eng.field(sname, fld)
        if kind == 'P':
            return tuple(z3.Select(z3.Select(st.mem[k].mat(), b), off // 8) for k in ('PB', 'PO'))
        return z3.Select(z3.Select(st.mem[sz].mat(), b), off // sz)

    def ln(self, st):
        return st.blk('LN', Lin(0))

    def lx(self, st):
        return st.blk('LX', Lin(0))

    def nxt(self, st, b):
        return self.f(st, IS, 'next', b, 'P')

    def done(self, st, b):
        return self.f(st, IS, 'completed', b) != 0

    def qp(self, st, fld):
        return View(self.eng, st).p(self.q, QS, fld)

    def head(self, st):
        first = self.qp(st, 'first')
        return If(first.b.z == 0, st.g['qn'].z, self.lx(st)[first.b.z])

    def listed(self, st, b):
        h, n = self.head(st), st.g['qn'].z
        x = self.lx(st)[b]
        return And(x >= h, x < n, self.ln(st)[x] == b)

    def isptr(self, p, b):
        return And(p[0] == b, p[1] == 0)

    def item(self, st, b):
        """an item of the queue: separate live block"""
        AL, SZ = st.blk('AL', Lin(0)), st.blk('SZ', Lin(0))
        return And(b >= 100000, b < st.g['nb'].z, AL[b] == 1, SZ[b] == self.isize)

    def items(self, st, h, n):
        LN, LX = self.ln(st), self.lx(st)
        return forall(lambda i: And(LX[LN[i]] == i, self.item(st, LN[i]),
                                    self.isptr(self.nxt(st, LN[i]), If(i + 1 < n, LN[i + 1], 0))), h, n, pats=lambda i: LN[i])

    def wf(self, st, marked=True):
        """the list is well formed; marked: exactly the items below qc are marked"""
        h, n, LN = self.head(st), st.g['qn'].z, self.ln(st)
        first, last = self.qp(st, 'first'), self.qp(st, 'last')
        r = [h >= 0, h <= n, first.o.z == 0, last.o.z == 0, Implies(first.b.z != 0, And(h < n, LN[h] == first.b.z)),
             last.b.z == If(h < n, LN[n - 1], 0), self.items(st, h, n), st.g['nb'].z >= 1000000,
             View(self.eng, st).alive(self.q)]
        if marked:
            r.append(forall(lambda i: self.done(st, LN[i]) == (i < st.g['qc'].z), h, n, pats=lambda i: LN[i]))
        return And(*r)

    def same(self, st, was, exc=()):
        """the queue and the items are as they were"""
        LN = self.ln(was)
        n = self.n.z
        v, w = View(self.eng, st), View(self.eng, was)
        r = []
        for x in ('first', 'last'):
            p, q = v.p(self.q, QS, x), w.p(self.q, QS, x)
            r += [p.b.z == q.b.z, p.o.z == q.o.z]
        for x in ('source_id', 'ref_count'):
            r.append(v.i(self.q, QS, x) == w.i(self.q, QS, x))
        return And(*r, forall(lambda i: self.keptitem(st, was, LN[i]), 0, n))

    def keptitem(self, st, was, b, nxt=True, exc=()):
        p = lambda f: And(*[x == y for x, y in zip(self.f(st, IS, f, b, 'P'), self.f(was, IS, f, b, 'P'))])
        return And(self.item(st, b), p('next') if nxt else True, p('data'), p('run'), p('destroy'),
                   *[self.f(st, IS, f, b) == self.f(was, IS, f, b) for f in ('tag', 'completed') if f not in exc])

    # ---- what callbacks may do
    def callback(self, eng, st, p, av, rt, ins):
        """indirect call p(data): one of the two functions of an item which has just left the queue, in their order.
        Obligations: the queue is in a consistent state and referenced; the call is the next one due for that item.
        Effect: any sequence of operations on the queue."""
        h, n, LN, LX = self.head(st), st.g['qn'].z, self.ln(st), self.lx(st)
        cur = z3.simplify(LN[h - 1])
        cc = eng.fresh('cur', INT)
        st.add(cc.z == cur)
        cur = cc.z
        cnt = st.blk('DN', Lin(0))
        run, des = self.f(st, IS, 'run', cur, 'P'), self.f(st, IS, 'destroy', cur, 'P')
        data = self.f(st, IS, 'data', cur, 'P')
        due = self.c.st.user['due']
        want = due(cnt[cur], run, des)
        ob = lambda name, g: eng.oblige(st, name, g, ins)
        ob('callbacks: the queue is in a consistent state', self.wf(st))
        ob('callbacks: called for the item that was first', And(h >= 1, LX[cur] == h - 1, h - 1 < st.g['qc'].z))
        ob('callbacks: the right function of the item, each once, in order', And(p.b.z == want[0], p.o.z == want[1], want[0] != 0))
        ob('callbacks: with the data of the item', And(len(av) == 1, av[0].b.z == data[0], av[0].o.z == data[1]))
        ref = View(eng, st).i(self.q, QS, 'ref_count')
        if self.held:
            ob('callbacks: the queue is referenced meanwhile', ref > st.g['ext'].z)
        self.effect(eng, st, cur, ref)
        return [(st, None)]

    def effect(self, eng, st, cur, ref):
        was = st.copy()
        h, n, c = self.head(was), was.g['qn'].z, was.g['qc'].z
        LN, LX, nb = self.ln(was), self.lx(was), was.g['nb'].z
        cnt = was.blk('DN', Lin(0))
        fr = lambda s, sort=INT: eng.fresh(s, sort)
        LN1, LX1 = fr('LN', ARR), fr('LX', ARR)
        n1, c1, m1, nb1, ext1 = [fr(x).z for x in ('qn', 'qc', 'qm', 'nb', 'ext')]
        sg = fr('sg', ARR)
        for k in (4, 'PB', 'PO'):
            st.mem[k] = Node('hv', None, v=fr('mem%s' % k, ARR2))
        AL0, AL1 = was.blk('AL', Lin(0)), fr('AL', ARR)
        st.setblk('AL', Lin(0), AL1)
        st.setblk('LN', Lin(0), LN1)
        st.setblk('LX', Lin(0), LX1)
        st.setblk('DN', Lin(0), z3.Store(cnt, cur, cnt[cur] + 1))
        st.g['qn'], st.g['qc'], st.g['nb'], st.g['ext'] = atom(n1), atom(c1), atom(nb1), atom(ext1)
        q = self.q.b.z
        add = st.add
        lo = 0 if self.held else 1
        add(And(nb1 >= nb, n1 >= m1, m1 >= 1, c1 >= 1, c1 <= m1, m1 - 1 <= n - h, c1 - 1 <= If(c > h, c - h, 0), ext1 >= lo, ext1 < 2**30, LN1[0] == cur, LX1[cur] == 0))
        # blocks which are neither the queue nor listed nor new are not touched
        other = lambda b: And(b != q, b < nb, Not(self.listed(was, b)))
        for k in (4, 'PB', 'PO'):
            N, M = st.mem[k].mat(), was.mem[k].mat()
            st.pc.append(forall(lambda b: Implies(other(b), N[b] == M[b]), pats=lambda b: N[b]))
        st.pc.append(forall(lambda b: Implies(Or(other(b), b == q), AL1[b] == AL0[b]), pats=lambda b: AL1[b]))
        # the queue
        first, last = self.qp(st, 'first'), self.qp(st, 'last')
        add(And(first.o.z == 0, last.o.z == 0, If(n1 > 1, And(first.b.z == LN1[1], last.b.z == LN1[n1 - 1]), And(first.b.z == 0, last.b.z == 0))))
        v = View(eng, st)
        add(v.i(self.q, QS, 'ref_count') == ref - was.g['ext'].z + ext1)
        s = v.u(self.q, QS, 'source_id')
        add(And(s >= 0, s < 2**32, Implies(n1 > 1, s != 0),
                Implies(n1 <= 1, Or(s == 0, And(h == n, s == View(eng, was).u(self.q, QS, 'source_id'))))))
        # what is pending now: some of what was, in the same order and state, then new unmarked items
        st.pc.append(self.items(st, 1, n1))
        st.pc.append(forall(lambda i: And(sg[i] >= h, sg[i] < n, LN1[i] == LN[sg[i]], self.done(st, LN1[i]) == (i < c1), (sg[i] < c) == (i < c1), cnt[LN1[i]] == 0), 1, m1, pats=lambda i: LN1[i]))
        st.pc.append(forall(lambda i, j: Implies(i < j, sg[i] < sg[j]), 1, m1, n=2, pats=lambda i, j: (sg[i], sg[j])))
        st.pc.append(forall(lambda i: And(LN1[i] >= nb, Not(self.done(st, LN1[i])), cnt[LN1[i]] == 0), m1, n1, pats=lambda i: LN1[i]))
        same = lambda f, b: And(*[x == y for x, y in zip(self.f(st, IS, f, b, 'P'), self.f(was, IS, f, b, 'P'))])
        st.pc.append(forall(lambda i: And(same('run', LN1[i]), same('destroy', LN1[i]), same('data', LN1[i])), 1, m1, pats=lambda i: LN1[i]))
        # what was dropped is released
        st.pc.append(forall(lambda i: Or(AL1[LN[i]] == 0, self.listed(st, LN[i])), h, n, pats=lambda i: LN[i]))


def due_all(cnt, run, des):
    """run, then destroy, as far as there are any"""
    k = lambda j: If(And(cnt == 0, run[0] != 0), run[j], If(cnt <= If(run[0] != 0, 1, 0), des[j], 0))
    return k(0), k(1)


def due_destroy(cnt, run, des):
    return If(cnt == 0, des[0], 0), If(cnt == 0, des[1], 0)


due_all.total = lambda run, des: If(run[0] != 0, 1, 0) + If(des[0] != 0, 1, 0)
due_destroy.total = lambda run, des: If(des[0] != 0, 1, 0)


def called(q, st, b):
    """all due calls of the item b were made"""
    return st.blk('DN', Lin(0))[b] == q.c.st.user['due'].total(q.f(st, IS, 'run', b, 'P'), q.f(st, IS, 'destroy', b, 'P'))


def ghosts(c, q, due):
    c.st.user['due'] = due
    c.st.setblk('DN', Lin(0), z3.K(INT, z3.IntVal(0)))

    def onfree(eng, st, p, ins):
        eng.oblige(st, 'an item is released once all its calls were made', Or(p.b.z == q.q.b.z, called(q, st, p.b.z)), ins)
    c.st.user['onslicefree'] = onfree


def uncalled(q, st):
    return forall(lambda i: st.blk('DN', Lin(0))[q.ln(st)[i]] == 0, q.head(st), st.g['qn'], pats=lambda i: q.ln(st)[i])


def mark_invs(q, hv):
    """loops over the list marking the items"""
    fs = []
    st0 = hv.entry.st
    LN, n, h = q.ln(st0), st0.g['qn'].z, q.head(st0)
    M0 = st0.mem[4].mat()
    mod, off, sz = q.eng.field(IS, 'completed')
    for name, v in hv.ptrs():
        fs.append(('=%s is the item k' % name, lambda hh, name=name: And(hh.phis[name].o.z == 0, hh.phis[name].b.z == If(Z(hh.k) < n - h, LN[h + Z(hh.k)], 0), Z(hh.k) <= n - h)))

    def mem(hh):
        M, k = hh.st.mem[4].mat(), Z(hh.k)
        if M.eq(M0):
            return True
        return And(forall(lambda i: Select(Select(M, LN[i]), off // 4) != 0, h, h + k, pats=lambda i: LN[i]),
                   forall(lambda b, j: Implies(Not(And(j == off // 4, q.listed(st0, b))), Select(Select(M, b), j) == Select(Select(M0, b), j)), n=2, pats=lambda b, j: Select(Select(M, b), j)))
    fs.append(('=items so far are marked, nothing else changed', mem))
    return fs


def null_q(run, f, args, ret=None):
    c = run.case('NULL')
    for o in c.call(f, NULL, *args(c)):
        o.ensure('nothing happens', And(o.evn == 0, ret(o) if ret else True))


@spec('gutil_idle_queue_cancel_all', ['Q01'], SRC)
def _(run):
    null_q(run, 'gutil_idle_queue_cancel_all', lambda c: [])
    c = run.case('queue')
    q = Q(c)
    ghosts(c, q, due_destroy)

    def inv(hv):
        if hv.ptrs():
            return mark_invs(q, hv)
        return [('=the list is well formed', lambda h: q.wf(h.st)),
                ('=items are listed or released', lambda h: released(q, h.st)),
                ('=nothing pending has been called', lambda h: uncalled(q, h.st)),
                ('=a source while there are items', lambda h: sourced_if(View(h.eng, h.st), q))]
    c.inv('*', inv)
    c.measure('*', lambda eng, st, f, hd, phis, k: [st.g['qc'].z - q.head(st) if not [v for v in phis.values() if isinstance(v, PtrV)] else q.n.z - k])
    for o in c.call('gutil_idle_queue_cancel_all', q.q):
        st = o.st
        o.ensure('the list is well formed', q.wf(st))
        o.ensure('no item which was there is left', Not(And(q.head(st) < st.g['qn'].z, q.head(st) < st.g['qc'].z)))
        o.ensure('every item is still pending or released', released(q, st))
        o.ensure('nothing pending was called', uncalled(q, st))
        o.ensure('an idle source if and only if there are items', sourced(o, q))


def released(q, st):
    return forall(lambda i: Or(st.blk('AL', Lin(0))[q.LN0[i]] == 0, q.listed(st, q.LN0[i])), 0, q.n, pats=lambda i: q.LN0[i])


def sourced_if(o, q):
    return Implies(q.head(o.st) < o.st.g['qn'].z, o.u(q.q, QS, 'source_id') != 0)


def sourced(o, q):
    return (q.head(o.st) < o.st.g['qn'].z) == (o.u(q.q, QS, 'source_id') != 0)


def chain_free(q, loop):
    """g_slice_free_chain_with_offset(size, chain, offset): the items of the list linked through their first field are
    live blocks of that size; they die. The list is the one built by the loop under contract."""
    def f(eng, st, av, ins):
        out = []
        for s, isn in eng.fork(st, eng.isnull(st, av[1])):
            if isn:
                out.append((s, None))
                continue
            mod, off, sz = eng.field(IS, 'next')
            eng.oblige(s, 'g_slice_free_chain: size and offset', And(eng.uv(s, av[0]).z == q.isize, eng.uv(s, av[2]).z == off), ins)
            if not loop:
                eng.oblige(s, 'g_slice_free_chain: a list of live items', z3.BoolVal(False), ins)
                continue
            F, k = loop[-1]
            w = lambda i: F(k - i)
            AL0, SZ = s.blk('AL', Lin(0)), s.blk('SZ', Lin(0))
            eng.oblige(s, 'g_slice_free_chain: a list of live items, each once', And(k >= 1, av[1].b.z == F(k), av[1].o.z == 0, forall(
                lambda j: And(AL0[F(j)] == 1, SZ[F(j)] == q.isize, q.isptr(q.nxt(s, F(j)), If(j == 1, 0, F(j - 1)))), 1, k + 1, pats=lambda j: F(j)),
                forall(lambda i, j: Implies(i < j, F(i) != F(j)), 1, k + 1, n=2, pats=lambda i, j: (F(i), F(j)))), ins)
            eng.oblige(s, 'items are released once all their calls were made', forall(lambda j: called(q, s, F(j)), 1, k + 1, pats=lambda j: F(j)), ins)
            AL1, PW = eng.fresh('AL', ARR), eng.fresh('PW', ARR)
            s.setblk('AL', Lin(0), AL1)
            s.pc.append(forall(lambda j: AL1[F(j)] == 0, 1, k + 1, pats=lambda j: F(j)))
            s.pc.append(forall(lambda b: Or(AL1[b] == AL0[b], And(PW[b] >= 1, PW[b] <= k, F(PW[b]) == b)), pats=lambda b: AL1[b]))
            out.append((s, None))
        return out
    return f


@spec('gutil_idle_queue_idle', ['Q01'], SRC, fns=['gutil_idle_queue_run', 'gutil_idle_queue_ref'])
def _(run):
    c = run.case('idle callback')
    fs = run.scout(idle_fn)
    if not fs:
        raise Unsupported('idle callback not identified')
    if c.skip:
        return
    q = Q(c, held=True)
    ghosts(c, q, due_all)
    loop = []
    BN = lambda v: v.b.z

    def inv(hv):
        ps = [(n, v) for n, v in hv.ptrs()]
        dn = [n for n, v in ps if hv.entry.phis[n].b.const() == 0]
        if not dn:
            return mark_invs(q, hv)
        name = dn[0]
        b = hv.phis[name].b.z
        if b.num_args() != 1:
            return []
        F = b.decl()
        loop.append((F, Z(hv.k)))

        def node(h, st, b, prev):
            return And(q.item(st, b), b != q.q.b.z, called(q, st, b), q.isptr(q.nxt(st, b), prev), Not(q.listed(st, b)))

        def chain(h):
            st, k, cur = h.st, Z(h.k), h.phis[name]
            first = lambda j: If(j == 1, 0, F(j - 1))
            return And(cur.o.z == 0, k >= 0, Implies(k == 0, cur.b.z == 0), Implies(k >= 1, node(h, st, cur.b.z, first(k))),
                       forall(lambda j: And(node(h, st, F(j), first(j)), F(j) != cur.b.z), 1, k, pats=lambda j: F(j)),
                       forall(lambda i, j: Implies(i < j, F(i) != F(j)), 1, k, n=2, pats=lambda i, j: (F(i), F(j))))
        return [('=the list is well formed', lambda h: q.wf(h.st)),
                ('=nothing pending has been called', lambda h: uncalled(q, h.st)),
                ('=a source while there are items', lambda h: sourced_if(View(h.eng, h.st), q)),
                ('=the queue is referenced', lambda h: View(h.eng, h.st).i(q.q, QS, 'ref_count') == h.st.g['ext'].z + 1),
                ('=list of the items which have been called', chain)]
    c.inv('*', inv)

    def measure(eng, st, f, hd, phis, k):
        return [st.g['qc'].z - q.head(st), q.n.z - k]
    c.measure('*', measure)
    finals = []

    def unref(eng, st, av, ins):
        v = View(eng, st)
        h, n = q.head(st), st.g['qn'].z
        ob = lambda s, g: eng.oblige(st, s, g, ins)
        ob('finally: the reference dropped is the own one', And(av[0].b.z == q.q.b.z, v.i(q.q, QS, 'ref_count') == st.g['ext'].z + 1))
        ob('finally: the list is well formed', q.wf(st))
        ob('finally: no item marked at the beginning is left', Not(And(h < n, h < st.g['qc'].z)))
        ob('finally: nothing pending was called', uncalled(q, st))
        ob('finally: an idle source if and only if there are items', (h < n) == (v.u(q.q, QS, 'source_id') != 0))
        st.user['more'] = h < n
        st.store('AL', 0, q.q.b, eng.fresh('alq', INT))
        return [(st, None)]
    c.eng.contracts = dict(c.eng.contracts, g_slice_free_chain_with_offset=chain_free(q, loop), gutil_idle_queue_unref=unref)
    for o in c.call(sorted(fs)[0], q.q):
        o.ensure('the source stays if and only if there are items', o.truth() == o.st.user['more'] if 'more' in o.st.user else False)


def idle_fn(cc):
    q = Q(cc, n=0)
    cc.eng.contracts = dict(cc.eng.contracts, g_idle_add=g_idle_add, g_idle_add_full=g_idle_add)
    return cc.callee_events('gutil_idle_queue_add', [q.q, cc.callback('run'), cc.opaque('data')], ADDSRC, 2)


def g_idle_add(eng, st, av, ins):
    """g_idle_add(func, data): schedules func(data), returns an id which is not 0 (event)"""
    a = av if len(av) == 2 else av[1:]
    st.emit(ADDSRC, a[0].b if False else a[0].b, a[0].b, a[1].b, a[1].o)
    i = eng.fresh('srcid', INT, (1, 2**32 - 1))
    st.add(And(i.z >= 1, i.z < 2**32))
    return [(st, IntV(32, u=i))]


def removal(q, st, x):
    """ghost: item x is out of the sequence"""
    eng = q.eng
    LN, n = q.ln(st), st.g['qn'].z
    LN1, LX1 = eng.fresh('LN', ARR), eng.fresh('LX', ARR)
    st.pc.append(forall(lambda i: LN1[i] == LN[If(i < x, i, i + 1)], pats=lambda i: LN1[i]))
    st.pc.append(forall(lambda i: And(LN[i] == LN1[If(i < x, i, i - 1)], LX1[LN[i]] == If(i < x, i, i - 1)), 0, x, pats=lambda i: LN[i]))
    st.pc.append(forall(lambda i: And(LN[i] == LN1[i - 1], LX1[LN[i]] == i - 1), x + 1, n, pats=lambda i: LN[i]))
    st.setblk('LN', Lin(0), LN1)
    st.setblk('LX', Lin(0), LX1)
    st.g['qn'] = atom(n - 1)


@spec('gutil_idle_queue_cancel_tag', ['Q01'], SRC)
def _(run):
    f = 'gutil_idle_queue_cancel_tag'
    null_q(run, f, lambda c: [c.int('tag', 64, unsigned=True)], lambda o: Not(o.truth()))
    for present in (0, 1):
        c = run.case('present' if present else 'absent')
        q = Q(c)
        ghosts(c, q, due_destroy)
        t = c.int('tag', 64, unsigned=True)
        LN, n = q.LN0, q.n.z
        pre = c.st.copy()
        tag = lambda i: q.f(pre, IS, 'tag', LN[i])
        tz = c.eng.sv(c.st, t).z
        x = c.nat('x', 0, 2**40).z if present else n
        c.require(forall(lambda i: tag(i) != tz, 0, x, pats=lambda i: LN[i]))
        if present:
            c.require(And(x < n, tag(x) == tz))
        B = LN[x]

        def callback(eng, st, p, av, rt, ins):
            d, data = q.f(st, IS, 'destroy', B, 'P'), q.f(st, IS, 'data', B, 'P')
            ob = lambda s, g: eng.oblige(st, s, g, ins)
            ob('callbacks: only for an item with that tag, once', z3.BoolVal(bool(present) and 'called' not in st.user))
            st.user['called'] = True
            removal(q, st, x)
            ob('callbacks: the first item with that tag, and only that, is out of the queue', And(q.head(st) == 0, q.wf(st, False)))
            ob('callbacks: its clean-up function', And(p.b.z == d[0], p.o.z == d[1], d[0] != 0))
            ob('callbacks: with its data', And(len(av) == 1, av[0].b.z == data[0], av[0].o.z == data[1]))
            st.g['qc'] = Lin(0)
            q.effect(eng, st, B, View(eng, st).i(q.q, QS, 'ref_count'))
            return [(st, None)]
        c.st.user['indirect'] = callback

        def inv(hv):
            ps = hv.ptrs()
            fs = []
            if len(ps) == 1:       # one cursor, or one behind the other
                fs = [('=%s is the item k+%d' % (nm, d), lambda h, nm=nm, d=d: And(h.phis[nm].o.z == 0, h.phis[nm].b.z == If(Z(h.k) + d < n, LN[Z(h.k) + d], 0), Z(h.k) + d <= n)) for nm, v in ps for d in (0, 1)]
                return fs + [('items before are not it %d' % d, lambda h, d=d: Z(h.k) + d <= x) for d in (0, 1)]
            for nm, v in ps:
                for d in (0, 1):
                    fs.append(('=%s is the item k+%d' % (nm, d), lambda h, nm=nm, d=d: And(h.phis[nm].o.z == 0, h.phis[nm].b.z == If(Z(h.k) + d < n, LN[Z(h.k) + d], 0), Z(h.k) + d <= n)))
            return fs + [('=items before are not it %d' % d, lambda h, d=d: Z(h.k) + d <= x) for d in (0, 1)]
        c.inv('*', inv)
        c.measure('*', lambda eng, st, f, hd, phis, k: [n - k])
        for o in c.call(f, q.q, t):
            st = o.st
            if not present:
                o.ensure('nothing happens', And(Not(o.truth()), q.same(st, pre), o.evn == 0))
                continue
            o.ensure('success', o.truth())
            o.ensure('the item is released', Not(o.alive_b(B)))
            if 'called' not in st.user:
                o.ensure('the clean-up function is called if there is one', q.f(st, IS, 'destroy', B, 'P')[0] == 0)
                removal(q, st, x)
                o.ensure('the first item with that tag is out of the queue', And(q.head(st) == 0, q.wf(st, False)))
                o.ensure('the others are as they were', forall(lambda i: Implies(i != x, q.keptitem(st, pre, LN[i], nxt=False)), 0, n, pats=lambda i: LN[i]))
            else:
                o.ensure('the list is well formed', q.wf(st, False))
            o.ensure('an idle source if and only if there are items', sourced(o, q))


@spec('gutil_idle_queue_contains_tag', ['Q01'], SRC)
def _(run):
    f = 'gutil_idle_queue_contains_tag'
    null_q(run, f, lambda c: [c.int('tag', 64, unsigned=True)], lambda o: Not(o.truth()))
    c = run.case('queue')
    q = Q(c)
    t = c.int('tag', 64, unsigned=True)
    LN, n = q.LN0, q.n.z
    pre = c.st.copy()
    has = lambda i: q.f(pre, IS, 'tag', LN[i]) == c.eng.sv(c.st, t).z
    def inv(hv):
        return [('=%s is the item k' % nm, lambda h, nm=nm: And(h.phis[nm].o.z == 0, h.phis[nm].b.z == If(Z(h.k) < n, LN[Z(h.k)], 0), Z(h.k) <= n)) for nm, v in hv.ptrs()] + \
               [('=items before do not have it', lambda h: forall(lambda i: Not(has(i)), 0, h.k, pats=lambda i: LN[i]))]
    c.inv('*', inv)
    c.measure('*', lambda eng, st, f, hd, phis, k: [n - k])
    for o in c.call(f, q.q, t):
        o.ensure('exactly if an item has that tag', o.truth() == exists(has, 0, n))
        o.ensure('pure', And(q.same(o.st, pre), o.evn == 0))


@spec('gutil_idle_queue_add', ['Q01'], SRC, fns=['gutil_idle_queue_add', 'gutil_idle_queue_add_full', 'gutil_idle_queue_add_tag', 'gutil_idle_queue_add_tag_full'])
def _(run):
    for sfx, tg, fu in (('', 0, 0), ('_full', 0, 1), ('_tag', 1, 0), ('_tag_full', 1, 1)):
        f = 'gutil_idle_queue_add' + sfx

        def args(c):
            t = c.int('tag', 64, unsigned=True)
            r, d, z = c.anyptr('run'), c.opaque('data'), c.anyptr('destroy')
            return t, r, d, z, ([t] if tg else []) + [r, d] + ([z] if fu else [])
        c = run.case('NULL' + sfx)
        t, r, d, z, a = args(c)
        for o in c.call(f, NULL, *a):
            # nothing will ever run, so the data are cleaned up right away
            if fu:
                o.ensure('cleaned up right away', If(z.b.z == 0, o.evn == 0, And(o.evn == 1, o.ev(0, 1) == z.b.z, o.ev(0, 2) == d.b.z, o.ev(0, 3) == d.o.z)))
            else:
                o.ensure('nothing happens', o.evn == 0)
        c = run.case('queue' + sfx)
        q = Q(c)
        c.st.user['indirect'] = None
        c.eng.contracts = dict(c.eng.contracts, g_idle_add=g_idle_add, g_idle_add_full=g_idle_add)
        t, r, d, z, a = args(c)
        pre = c.st.copy()
        LN, n = q.LN0, q.n.z
        for o in c.call(f, q.q, *a):
            st = o.st
            first, last = o.p(q.q, QS, 'first'), o.p(q.q, QS, 'last')
            b = last.b.z
            o.ensure('a new item', And(b >= 1000000, o.alive_b(b), o.st.blk('SZ', Lin(0))[b] == q.isize, last.o.z == 0, q.isptr(q.nxt(st, b), 0)))
            p = lambda fl, v: And(*[x == y.z for x, y in zip(q.f(st, IS, fl, b, 'P'), (v.b, v.o))])
            o.ensure('with what was given', And(p('run', r), p('data', d), p('destroy', z) if fu else q.isptr(q.f(st, IS, 'destroy', b, 'P'), 0),
                                                q.f(st, IS, 'tag', b) == (c.eng.sv(c.st, t).z if tg else 0), Not(q.done(st, b))))
            o.ensure('added at the end', And(first.o.z == 0, If(n == 0, first.b.z == b, And(first.b.z == LN[0], q.isptr(q.nxt(st, LN[n - 1]), b)))))
            o.ensure('those before are as they were', forall(lambda i: And(q.keptitem(st, pre, LN[i], nxt=False), Implies(i < n - 1, q.isptr(q.nxt(st, LN[i]), LN[i + 1]))), 0, n, pats=lambda i: LN[i]))
            o.ensure('references kept', o.i(q.q, QS, 'ref_count') == View(o.eng, pre).i(q.q, QS, 'ref_count'))
            s0, s1 = View(o.eng, pre).u(q.q, QS, 'source_id'), o.u(q.q, QS, 'source_id')
            o.ensure('scheduled once', If(s0 == 0, And(o.evn == 1, o.ev(0, 0) == ADDSRC, o.ev(0, 3) == q.q.b.z, o.ev(0, 4) == 0, s1 != 0), And(o.evn == 0, s1 == s0)))


@spec('gutil_idle_queue_lifetime', ['Q01', 'W01'], SRC, fns=['gutil_idle_queue_new', 'gutil_idle_queue_ref', 'gutil_idle_queue_unref', 'gutil_idle_queue_free'])
def _(run):
    c = run.case('new')
    for o in c.call('gutil_idle_queue_new'):
        r = o.ret
        o.ensure('an empty queue with one reference', And(Not(o.null()), o.alive(r), o.i(r, QS, 'ref_count') == 1, o.i(r, QS, 'source_id') == 0,
                                                          o.p(r, QS, 'first').b.z == 0, o.p(r, QS, 'last').b.z == 0, o.evn == 0))
    for f in ('ref', 'unref', 'free'):
        c = run.case(f + ' NULL')
        for o in c.call('gutil_idle_queue_' + f, NULL):
            o.ensure('nothing happens', And(o.evn == 0, o.null() if f == 'ref' else True))
    c = run.case('ref')
    q = Q(c)
    pre = c.st.copy()
    for o in c.call('gutil_idle_queue_ref', q.q):
        o.ensure('one more reference', And(o.ret_is(q.q), o.i(q.q, QS, 'ref_count') == c.eng.sv(c.st, q.ref).z + 1, o.evn == 0))
        o.ensure('pending items kept', And(forall(lambda i: q.keptitem(o.st, pre, q.LN0[i]), 0, q.n), o.i(q.q, QS, 'source_id') == View(o.eng, pre).i(q.q, QS, 'source_id')))

    def cancel(eng, st, av, ins):
        eng.oblige(st, 'the queue is alive when it is emptied', View(eng, st).alive(av[0]), ins)
        st.emit(FREEQ, av[0].b)
        return [(st, None)]
    for f in ('unref', 'free'):
        for last in (0, 1):
            c = run.case(f + (' last' if last else ' not last'))
            q = Q(c, ref=c.int('ref', 32, 1, 1) if last else c.int('ref', 32, 2, 2**30))
            c.eng.contracts = dict(c.eng.contracts, gutil_idle_queue_cancel_all=cancel)
            for o in c.call('gutil_idle_queue_' + f, q.q):
                o.ensure('what is pending is cancelled' + (' first' if last else ''), And(o.evn >= (1 if last or f == 'free' else 0), o.evn <= (2 if last else 1 if f == 'free' else 0),
                                                                                          forall(lambda i: And(o.ev(i, 0) == FREEQ, o.ev(i, 1) == q.q.b.z), 0, o.evn)))
                o.ensure('released' if last else 'one reference less', Not(o.alive(q.q)) if last else And(o.alive(q.q), o.i(q.q, QS, 'ref_count') == c.eng.sv(c.st, q.ref).z - 1))
