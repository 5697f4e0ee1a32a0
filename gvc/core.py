"""Values, memory model and path states of the VC generator.

Integers are mathematical (z3 Int) with explicit wrap-around; pointers are (block, offset)
pairs; memory is one two-level array block -> element index -> value per access kind
(1/2/4/8-byte integers, and 'PB'/'PO' for the block/offset halves of stored pointers).
Ghost arrays use the same mechanism: 'AL' (block is live), 'SZ' (block size in bytes),
and 'E0'..'E5' (the trace of externally visible events)."""
import z3

INT = z3.IntSort()
ARR = z3.ArraySort(INT, INT)
ARR2 = z3.ArraySort(INT, ARR)
BITS = {1: 8, 2: 16, 4: 32, 8: 64}

ATOM = {}      # id -> z3 expr
RNG = {}       # id -> (lo, hi)  valid in every state
WRAP = {}      # id -> (w, Lin before wrapping, 's'|'u')
BOOLOF = {}    # id -> z3 Bool, for atoms ite(b,1,0)
INF = None


class Lin:
    __slots__ = ('c', 't', '_z')

    def __init__(self, c, t=()):
        self.c, self.t, self._z = c, t, None

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        d = dict(self.t)
        for k, v in o.t:
            n = d.get(k, 0) + v
            if n:
                d[k] = n
            else:
                d.pop(k, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (o * -1)

    def __rsub__(self, o):
        return (self * -1) + o

    def __mul__(self, n):
        if n == 0:
            return Lin(0)
        if n == 1:
            return self
        return Lin(self.c * n, tuple((k, v * n) for k, v in self.t))

    def const(self):
        return self.c if not self.t else None

    def key(self):
        return (self.c, self.t)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash((self.c, self.t))

    @property
    def z(self):
        if self._z is None:
            if not self.t:
                self._z = z3.IntVal(self.c)
            else:
                ts = []
                for k, v in self.t:
                    a = ATOM[k]
                    ts.append(a if v == 1 else a * v)
                if self.c:
                    ts.append(z3.IntVal(self.c))
                self._z = ts[0] if len(ts) == 1 else z3.Sum(ts)
        return self._z

    def __repr__(self):
        return str(z3.simplify(self.z))

    def divisible(self, n):
        return self.c % n == 0 and all(v % n == 0 for _, v in self.t)

    def div(self, n):
        return Lin(self.c // n, tuple((k, v // n) for k, v in self.t))


def atom(e, rng=None):
    """Lin for an arbitrary z3 Int expression."""
    if isinstance(e, int):
        return Lin(e)
    if z3.is_int_value(e):
        return Lin(e.as_long())
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_ADD:
        r = Lin(0)
        for c in e.children():
            r = r + atom(c)
        return r
    if k == z3.Z3_OP_SUB:
        ch = e.children()
        r = atom(ch[0])
        for c in ch[1:]:
            r = r - atom(c)
        return r
    if k == z3.Z3_OP_UMINUS:
        return -atom(e.arg(0))
    if k == z3.Z3_OP_MUL and e.num_args() == 2:
        a, b = e.arg(0), e.arg(1)
        if z3.is_int_value(a):
            return atom(b) * a.as_long()
        if z3.is_int_value(b):
            return atom(a) * b.as_long()
    i = e.get_id()
    if i not in ATOM:
        ATOM[i] = e
    if rng is not None:
        o = RNG.get(i)
        if o:
            rng = (max(o[0], rng[0]), min(o[1], rng[1]))
        RNG[i] = rng
    return Lin(0, ((i, 1),))


def L(x):
    return x if isinstance(x, Lin) else atom(x)


def Z(x):
    """z3 expression of an int / Lin / z3 Int."""
    if isinstance(x, Lin):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


NINF, PINF = float('-inf'), float('inf')


def lin_range(l, rng=None):
    lo = hi = l.c
    for k, v in l.t:
        r = None
        if rng is not None:
            r = rng.get(k)
        g = RNG.get(k)
        if r is None:
            r = g
        elif g is not None:
            r = (max(r[0], g[0]), min(r[1], g[1]))
        if r is None:
            return NINF, PINF
        if v > 0:
            lo += v * r[0]
            hi += v * r[1]
        else:
            lo += v * r[1]
            hi += v * r[0]
    return lo, hi


class IntV:
    """w-bit integer; s / u are Lins of its signed / unsigned reading (at least one set)."""
    __slots__ = ('w', 's', 'u', 'tag')

    def __init__(self, w, s=None, u=None, tag=None):
        self.w, self.s, self.u, self.tag = w, s, u, tag

    def __repr__(self):
        return 'i%d(%s)' % (self.w, self.s if self.s is not None else 'u:%r' % self.u)


class PtrV:
    __slots__ = ('b', 'o')

    def __init__(self, b, o=Lin(0)):
        self.b, self.o = L(b), L(o)

    def __repr__(self):
        return '<%r+%r>' % (self.b, self.o)

    def at(self, off):
        return PtrV(self.b, self.o + off)


class BoolV:
    """z: python bool or z3 Bool; cmp: optional ('le'|'eq'|'ne', Lin) meaning Lin <= / == / != 0"""
    __slots__ = ('z', 'cmp')

    def __init__(self, z, cmp=None):
        self.z, self.cmp = z, cmp

    def __repr__(self):
        return 'B(%s)' % self.z

    def neg(self):
        if isinstance(self.z, bool):
            return BoolV(not self.z)
        c = None
        if self.cmp:
            o, l = self.cmp
            c = ('le', 1 - l) if o == 'le' else ('ne', l) if o == 'eq' else ('eq', l)
            return mkcmp(*c)
        return BoolV(z3.Not(self.z))


class AggV:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


NULL = PtrV(0, 0)


def mkcmp(op, l, rng=None):
    lo, hi = lin_range(l, rng)
    if op == 'le':
        if hi <= 0:
            return BoolV(True)
        if lo > 0:
            return BoolV(False)
        return BoolV(l.z <= 0, ('le', l)) if l.c == 0 or not l.t else BoolV(Lin(0, l.t).z <= -l.c, ('le', l))
    if op in ('eq', 'ne'):
        r = None
        if lo == hi == 0:
            r = True
        elif lo > 0 or hi < 0:
            r = False
        if r is None:
            g = 0
            if len(l.t) == 1 and l.c % l.t[0][1] != 0:
                r = False
        if r is not None:
            return BoolV(r if op == 'eq' else not r)
        if len(l.t) == 1:
            k, v = l.t[0]
            bo = BOOLOF.get(k)
            if bo is not None:
                val = -l.c // v
                e = bo if val == 1 else z3.Not(bo) if val == 0 else z3.BoolVal(False)
                return BoolV(e if op == 'eq' else z3.Not(e))
        e = Lin(0, l.t).z == -l.c
        return BoolV(e if op == 'eq' else z3.Not(e), (op, l))


class Node:
    """Persistent memory chain for one kind."""
    __slots__ = ('t', 'prev', 'b', 'i', 'v', 'orig', '_m', '_blk')

    def __init__(self, t, prev, b=None, i=None, v=None, orig=None):
        self.t, self.prev, self.b, self.i, self.v, self.orig = t, prev, b, i, v, orig
        self._m = None
        self._blk = {}

    def mat(self):
        if self._m is None:
            if self.t == 'base':
                self._m = self.v
            elif self.t == 'hv':
                self._m = self.v
            elif self.t == 'st':
                m = self.prev.mat()
                self._m = z3.Store(m, self.b.z, z3.Store(self.prev.blk(self.b), self.i.z, Z(self.v)))
            elif self.t == 'bs':
                self._m = z3.Store(self.prev.mat(), self.b.z, self.v)
        return self._m

    def blk(self, b):
        """z3 array holding the contents of block b."""
        key = b.key()
        r = self._blk.get(key)
        if r is None:
            n = self
            pend = []
            while True:
                if n.t in ('base', 'hv'):
                    r = z3.Select(n.v, b.z)
                    break
                q = syneq(n.b, b)
                if q is None:
                    r = z3.Select(n.mat(), b.z)
                    break
                if q:
                    if n.t == 'bs':
                        r = n.v
                        break
                    pend.append(n)
                n = n.prev
            for n in reversed(pend):
                r = z3.Store(r, n.i.z, Z(n.v))
            self._blk[key] = r
        return r


def syneq(a, b):
    """Syntactic equality of two Lins: True / False / None (unknown)."""
    d = a - b
    if not d.t:
        return d.c == 0
    lo, hi = lin_range(d)
    if lo > 0 or hi < 0:
        return False
    return None


_hasq = {}


def hasq(e):
    """contains a quantifier?"""
    i = e.get_id()
    r = _hasq.get(i)
    if r is None:
        if z3.is_quantifier(e):
            r = True
        else:
            r = any(hasq(c) for c in e.children())
        _hasq[i] = r
        _keep.append(e)
    return r


_keep = []


class State:
    __slots__ = ('eng', 'env', 'mem', 'pc', 'rng', 'g', 'known', 'depth', 'label', 'user', 'dead')

    def __init__(self, eng):
        self.eng = eng
        self.env = {}
        self.mem = {}
        self.pc = []
        self.rng = {}
        self.g = {}
        self.known = set()
        self.depth = 0
        self.label = []
        self.user = {}
        self.dead = False

    def copy(self):
        n = State.__new__(State)
        n.eng = self.eng
        n.env = dict(self.env)
        n.mem = dict(self.mem)
        n.pc = list(self.pc)
        n.rng = dict(self.rng)
        n.g = dict(self.g)
        n.known = set(self.known)
        n.depth = self.depth
        n.label = list(self.label)
        n.user = dict(self.user)
        n.dead = self.dead
        return n

    # ---- facts
    def add(self, c):
        """Assume c (BoolV / bool / z3 Bool)."""
        if isinstance(c, BoolV):
            if c.cmp and not isinstance(c.z, bool):
                self.refine(*c.cmp)
            c = c.z
        if isinstance(c, bool):
            if not c:
                self.dead = True
                self.pc.append(z3.BoolVal(False))
            return
        if z3.is_true(c):
            return
        if z3.is_and(c):
            for x in c.children():
                self.add(x)
            return
        self._auto_refine(c)
        self.pc.append(c)

    def _auto_refine(self, c):
        k = c.decl().kind() if z3.is_app(c) else None
        neg = False
        if k == z3.Z3_OP_NOT:
            c = c.arg(0)
            neg = True
            k = c.decl().kind() if z3.is_app(c) else None
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and c.arg(0).sort() == INT:
            try:
                d = atom(c.arg(0)) - atom(c.arg(1))
            except z3.Z3Exception:
                return
            if len(d.t) > 3:
                return
            if k == z3.Z3_OP_EQ:
                self.refine('ne' if neg else 'eq', d)
            else:
                if k == z3.Z3_OP_LT:
                    d = d + 1
                elif k == z3.Z3_OP_GE:
                    d = -d
                elif k == z3.Z3_OP_GT:
                    d = 1 - d
                if neg:
                    d = 1 - d
                self.refine('le', d)

    def refine(self, op, l):
        for (k, v) in l.t:
            rest = Lin(l.c, tuple(x for x in l.t if x[0] != k))
            rlo, rhi = lin_range(rest, self.rng)
            lo, hi = lin_range(Lin(0, ((k, 1),)), self.rng)
            if op == 'le':
                # v*x <= -rest  <= -rlo
                if rlo == NINF:
                    continue
                bnd = -rlo
                if v > 0:
                    hi = min(hi, bnd // v if isinstance(bnd, int) else bnd)
                else:
                    lo = max(lo, -(bnd // -v) if isinstance(bnd, int) else lo)
            elif op == 'eq':
                if rlo == rhi and isinstance(rlo, int) and (-rlo) % v == 0:
                    lo = hi = -rlo // v
                else:
                    continue
            elif op == 'ne':
                if rlo == rhi and isinstance(rlo, int) and (-rlo) % v == 0:
                    x = -rlo // v
                    if lo == x:
                        lo += 1
                    if hi == x:
                        hi -= 1
                else:
                    continue
            if lo == NINF or hi == PINF:
                if lo == NINF and hi == PINF:
                    continue
            if lo > hi:
                self.dead = True
            self.rng[k] = (lo, hi)

    def range(self, l):
        return lin_range(l, self.rng)

    def qf(self):
        return [c for c in self.pc if not hasq(c)]

    # ---- memory
    def store(self, kind, b, i, v, orig=None):
        self.mem[kind] = Node('st', self.mem[kind], L(b), L(i), v, orig)

    def setblk(self, kind, b, arr):
        self.mem[kind] = Node('bs', self.mem[kind], L(b), None, arr)

    def blk(self, kind, b):
        return self.mem[kind].blk(L(b))

    def find(self, kind, b, i):
        """Returns (value Lin/z3, orig) or z3 select term."""
        n = self.mem[kind]
        while True:
            if n.t in ('base', 'hv'):
                return z3.Select(z3.Select(n.v, b.z), i.z), None
            q = syneq(n.b, b)
            if q is None:
                return z3.Select(z3.Select(n.mat(), b.z), i.z), None
            if q is False:
                n = n.prev
                continue
            if n.t == 'bs':
                return z3.Select(n.v, i.z), None
            qi = syneq_rng(n.i, i, self.rng)
            if qi is None:
                return z3.Select(n.blk(b), i.z), None
            if qi:
                return n.v, n.orig
            n = n.prev

    def get(self, kind, b, i):
        v, o = self.find(kind, L(b), L(i))
        return L(v)

    def emit(self, *xs):
        n = self.g['evn']
        for j, x in enumerate(xs):
            self.store('E%d' % j, 0, n, L(x))
        self.g['evn'] = n + 1


def syneq_rng(a, b, rng):
    d = a - b
    if not d.t:
        return d.c == 0
    lo, hi = lin_range(d, rng)
    if lo > 0 or hi < 0:
        return False
    return None


KINDS = [1, 2, 4, 8, 'PB', 'PO', 'AL', 'SZ', 'OR'] + ['E%d' % i for i in range(6)]
CELL = {1: (0, 255), 2: (-2**15, 2**15 - 1), 4: (-2**31, 2**31 - 1), 8: (-2**63, 2**63 - 1)}
