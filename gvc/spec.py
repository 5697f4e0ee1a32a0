"""Specification layer: a contract is a Python function that builds the precondition state,
runs the extracted function and states its postconditions on every return path."""
import time
import z3
from .core import *
from .exec import Engine, Obl, CALL, REF, UNREF, FREE, SORT, LOG, MISC, solve, dbg, Limit
from .ir import Unsupported, PTR
from .stubs import STUBS, STR, LIT
from . import loops

SPECS = []       # (name, props, sources, function, options)


class Spec:
    def __init__(self, name, props, srcs, fn, fns, opts):
        self.name, self.props, self.srcs, self.fn, self.fns, self.opts = name, props, srcs, fn, fns, opts


def spec(name, props, srcs, fns=None, **opts):
    """name: contract name; fns: /repo functions put under contract by it"""
    def d(f):
        SPECS.append(Spec(name, props if isinstance(props, (list, tuple)) else [props],
                          srcs if isinstance(srcs, (list, tuple)) else [srcs], f, fns or [name.split(':')[0]], opts))
        return f
    return d


def And(*a):
    return z3.And(*[Z(x) if isinstance(x, bool) else x for x in a])


Or, Not, Implies, If, Select = z3.Or, z3.Not, z3.Implies, z3.If, z3.Select
_qn = [0]


def forall(f, lo=None, hi=None, pats=None, n=1, names='ijkl'):
    """forall i (lo <= i < hi). f(i); pats(i): list of patterns"""
    _qn[0] += 1
    vs = [z3.Const('%s?%d' % (names[j], _qn[0]), INT) for j in range(n)]
    b = f(*vs)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    g = []
    if lo is not None:
        g += [v >= Z(lo) for v in vs]
    if hi is not None:
        g += [v < Z(hi) for v in vs]
    if g:
        b = z3.Implies(z3.And(g), b)
    if pats:
        p = pats(*vs)
        if not isinstance(p, list):
            p = [p]
        return z3.ForAll(vs, b, patterns=[z3.MultiPattern(*x) if isinstance(x, tuple) else x for x in p])
    return z3.ForAll(vs, b)


def hint(*terms):
    """false; makes the terms available for instantiation (needs hint_axiom in the path)"""
    H = z3.Function('hint', INT, z3.BoolSort())
    return z3.Or(*[H(t) for t in terms])


def hint_axiom():
    v = z3.Const('v?h', INT)
    h = z3.Function('hint', INT, z3.BoolSort())(v)
    return z3.ForAll([v], z3.Not(h), patterns=[h])


def exists(f, lo=None, hi=None):
    _qn[0] += 1
    v = z3.Const('e?%d' % _qn[0], INT)
    b = f(v)
    g = []
    if lo is not None:
        g.append(v >= Z(lo))
    if hi is not None:
        g.append(v < Z(hi))
    return z3.Exists([v], z3.And(g + [b]))


class View:
    """Reading a state in specifications."""

    def __init__(self, eng, st):
        self.eng, self.st = eng, st

    def arr(self, kind, p):
        return self.st.blk(kind, p.b if isinstance(p, PtrV) else L(p))

    def alive(self, p):
        return self.st.get('AL', Lin(0), p.b if isinstance(p, PtrV) else L(p)).z == 1

    def alive_b(self, b):
        return z3.Select(self.st.blk('AL', Lin(0)), Z(b)) == 1

    def size(self, p):
        return self.st.get('SZ', Lin(0), p.b if isinstance(p, PtrV) else L(p)).z

    def fld(self, p, sname, f):
        mod, off, sz = self.eng.field(sname, f)
        return off, sz

    def i(self, p, sname, f):
        """signed value of an integer field"""
        off, sz = self.fld(p, sname, f)
        v, o = self.st.find(sz, p.b, (p.o + off).div(sz))
        return Z(v)

    def u(self, p, sname, f):
        off, sz = self.fld(p, sname, f)
        v, o = self.st.find(sz, p.b, (p.o + off).div(sz))
        v = L(v)
        lo, hi = self.st.range(v)
        if lo >= 0:
            return v.z
        return z3.If(v.z < 0, v.z + 2**(8 * sz), v.z)

    def p(self, p, sname, f):
        off, sz = self.fld(p, sname, f)
        i = (p.o + off).div(8)
        return PtrV(self.st.get('PB', p.b, i), self.st.get('PO', p.b, i))

    def p_at(self, p, i):
        """pointer in cell i of the block of p"""
        return PtrV(self.st.get('PB', p.b, L(i)), self.st.get('PO', p.b, L(i)))

    def cell(self, kind, p, i):
        return Z(self.st.get(kind, p.b, L(i)))

    def mem_i(self, p, sz):
        v, o = self.st.find(sz, p.b, p.o.div(sz))
        return Z(v)

    def mem_p(self, p):
        i = p.o.div(8)
        return PtrV(self.st.get('PB', p.b, i), self.st.get('PO', p.b, i))

    @property
    def evn(self):
        return self.st.g['evn'].z

    def ev(self, i, j):
        return self.st.get('E%d' % j, Lin(0), L(i)).z


class Outcome(View):
    def __init__(self, case, st, ret):
        super().__init__(case.eng, st)
        self.case, self.ret = case, ret

    def ensure(self, name, goal):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        goal = goal.z if isinstance(goal, BoolV) else goal
        self.eng.obls.append(Obl('%s: %s' % (self.case.label, name), list(self.st.pc), goal, self.case.spec.name, list(self.st.label), 'post'))

    def lemma(self, name, body, *terms):
        """a formula proved for all integers (as an obligation of its own) and used for the given terms"""
        vs = [z3.Const('v%d?l' % i, INT) for i in range(len(terms))]
        self.eng.obls.append(Obl('%s: lemma: %s' % (self.case.label, name), [], body(*vs), self.case.spec.name, [], 'post'))
        self.st.add(body(*terms))

    def assume(self, f):
        """definitional facts about spec functions only"""
        self.st.add(f)

    @property
    def rs(self):
        return self.eng.sv(self.st, self.ret).z

    @property
    def ru(self):
        return self.eng.uv(self.st, self.ret).z

    def truth(self):
        """gboolean result as a z3 Bool"""
        v = self.ret
        c = mkcmp('ne', v.s if v.s is not None else v.u, self.st.rng)
        return Z(c.z)

    def null(self):
        return self.ret.b.z == 0

    def is_null_const(self):
        """this path returns NULL"""
        return self.ret.b.const() == 0 or self.eng.prove_qf(self.st, self.ret.b.z == 0)

    def ret_is(self, p):
        return And(self.ret.b.z == p.b.z, self.ret.o.z == p.o.z)


class Case(View):
    """One precondition case of a contract."""

    def __init__(self, run, label):
        self.run, self.label = run, label
        self.spec = run.spec
        eng = run.eng
        st = eng.init_state()
        super().__init__(eng, st)
        self.next_root = 1000
        self.next_cb = -1000000
        self.pre_done = False
        self.roots = []
        eng.cur_case = self

    # -- building the precondition
    def int(self, name, w, lo=None, hi=None, unsigned=False):
        H = 2**(w - 1)
        lo0, hi0 = (0, 2**w - 1) if unsigned else (-H, H - 1)
        lo = lo0 if lo is None else max(lo, lo0)
        hi = hi0 if hi is None else min(hi, hi0)
        l = atom(z3.Const(name, INT), None)
        self.st.add(z3.And(l.z >= lo, l.z <= hi))
        self.st.rng[l.t[0][0]] = (lo, hi)
        return IntV(w, s=None if (unsigned and hi >= H) else l, u=l if lo >= 0 else None)

    def nat(self, name, lo=0, hi=2**62):
        l = atom(z3.Const(name, INT))
        self.st.add(z3.And(l.z >= lo, l.z <= hi))
        self.st.rng[l.t[0][0]] = (lo, hi)
        return l

    def u32(self, l):
        """unsigned 32-bit value of a nat"""
        return self.eng.wrap(self.st, L(l), 32, 'u')

    def gfun(self, name):
        """address of a function (external or of the code)"""
        for m in self.eng.modules:
            if name in m.decls or name in m.funcs:
                return PtrV(self.eng.gid(m, name), 0)
        raise Unsupported('no function %s' % name)

    def const(self, w, n):
        return self.eng.iconst(w, n)

    def block(self, name, size, kinds=None, alive=True):
        """a separate live block of `size` bytes"""
        i = self.next_root
        self.next_root += 1
        self.st.store('SZ', 0, i, L(size))
        self.st.store('AL', 0, i, Lin(1 if alive else 0))
        if kinds:
            self.eng.blkkinds[i] = set(kinds)
        p = PtrV(i, 0)
        self.roots.append(p)
        return p

    def callback(self, name):
        i = self.next_cb
        self.next_cb -= 1
        return PtrV(i, 0)

    def opaque(self, name):
        """a pointer the code may only pass around (never dereference): separate, non-NULL"""
        b = atom(z3.Const(name + '_b', INT))
        self.st.add(z3.And(b.z >= 10000, b.z < 1000000))
        self.st.rng[b.t[0][0]] = (10000, 999999)
        o = atom(z3.Const(name + '_o', INT))
        return PtrV(b, o)

    def anyptr(self, name):
        """any pointer value, possibly NULL"""
        b = atom(z3.Const(name + '_b', INT))
        o = atom(z3.Const(name + '_o', INT))
        self.st.add(z3.Or(z3.And(b.z == 0, o.z == 0), z3.And(b.z >= 10000, b.z < 1000000)))
        self.st.rng[b.t[0][0]] = (0, 999999)
        return PtrV(b, o)

    def struct(self, sname, vals=None, name=None, kinds=None):
        mod, size = self.eng.struct_size(sname)
        p = self.block(name or sname, Lin(size))
        for f, v in (vals or {}).items():
            self.set(p, sname, f, v)
        return p

    def set(self, p, sname, f, v):
        mod, off, sz = self.eng.field(sname, f)
        if isinstance(v, PtrV):
            self.st.store('PB', p.b, (p.o + off).div(8), v.b)
            self.st.store('PO', p.b, (p.o + off).div(8), v.o)
        else:
            if isinstance(v, (int, Lin)) or not isinstance(v, IntV):
                v = self.eng.wrap(self.st, L(v), 8 * sz, 's') if not isinstance(v, int) else self.eng.iconst(8 * sz, v)
            self.st.store(sz, p.b, (p.o + off).div(sz), self.eng.sv(self.st, v), v)

    def set_mem(self, p, v, w=None):
        if isinstance(v, PtrV):
            self.st.store('PB', p.b, p.o.div(8), v.b)
            self.st.store('PO', p.b, p.o.div(8), v.o)
        else:
            k = v.w // 8
            self.st.store(k, p.b, p.o.div(k), self.eng.sv(self.st, v) if k > 1 else self.eng.uv(self.st, v), v)

    def ptr_array(self, name, n, extra=0, nonnull=True, distinct=False, strings=False, alive=False, lo=10000, offzero=False):
        """block of n (+extra) pointers whose blocks live in the element region"""
        p = self.block(name, (L(n) + extra) * 8, kinds={'P'})
        B = self.arr('PB', p)
        O = self.arr('PO', p)
        n = L(n)
        self.require(forall(lambda i: And(Or(And(B[i] >= 10000, B[i] < 1000000), *([] if nonnull else [And(B[i] == 0, O[i] == 0)]))), 0, n, pats=lambda i: B[i]))
        if offzero:
            self.require(forall(lambda i: O[i] == 0, 0, n, pats=lambda i: O[i]))
        if distinct:
            self.require(forall(lambda i, j: Implies(i != j, B[i] != B[j]), 0, n, n=2, pats=lambda i, j: (B[i], B[j])))
        if alive:
            AL = self.st.blk('AL', Lin(0))
            self.require(forall(lambda i: Select(AL, B[i]) == 1, 0, n, pats=lambda i: B[i]))
        return p

    def strv(self, name, n, owned=True):
        """NULL-terminated vector of n separately allocated strings"""
        p = self.ptr_array(name, n, extra=1, distinct=owned, alive=True, offzero=owned)
        B, O = self.arr('PB', p), self.arr('PO', p)
        self.require(And(B[Z(n)] == 0, O[Z(n)] == 0))
        return p

    def ptrv(self, name, n):
        p = self.ptr_array(name, n, extra=1)
        B, O = self.arr('PB', p), self.arr('PO', p)
        self.require(And(B[Z(n)] == 0, O[Z(n)] == 0))
        return p

    def errno(self):
        """errno holds an arbitrary value"""
        self.st.store('SZ', 0, 63, Lin(4))
        self.st.store('AL', 0, 63, Lin(1))
        v = self.int('errno0', 32)
        self.st.store(4, 63, 0, v.s, v)

    def cstr(self, name, n):
        """a separate NUL terminated string of n bytes"""
        p = self.block(name, L(n) + 1, kinds={1})
        A = self.arr(1, p)
        self.require(Select(A, Z(n)) == 0)
        self.require(forall(lambda i: And(Select(A, i) >= 1, Select(A, i) <= 255), 0, n, pats=lambda i: Select(A, i)))
        self.st.user['cstr'] = self.st.user.get('cstr', ()) + ((p.b, p.o, L(n)),)
        return p

    def bytesblk(self, name, n, off=0, tail=0):
        """n separate bytes (at offset off of their block)"""
        p = self.block(name, L(off) + n + tail, kinds={1})
        A = self.arr(1, p)
        self.require(z3.ForAll([z3.Const('i?b', INT)], And(Select(A, z3.Const('i?b', INT)) >= 0, Select(A, z3.Const('i?b', INT)) <= 255), patterns=[Select(A, z3.Const('i?b', INT))]))
        return p.at(L(off)) if off != 0 else p

    def gbytes(self, name, d, n):
        """a live GBytes with data d (pointer) of n bytes"""
        p = self.block(name, L(64))
        self.st.store('PB', p.b, 0, d.b)
        self.st.store('PO', p.b, 0, d.o)
        self.st.store(8, p.b, 1, L(n))
        return p

    def varargs(self, name, n):
        """n non-NULL pointer arguments followed by NULL"""
        vb = z3.Const(name + '_vb', ARR)
        vo = z3.Const(name + '_vo', ARR)
        n = L(n)
        self.require(forall(lambda i: And(vb[i] >= 10000, vb[i] < 1000000), 0, n, pats=lambda i: vb[i]))
        self.require(And(vb[n.z] == 0, vo[n.z] == 0))
        self.st.user['va'] = ((vb, vo), n)
        self.st.g['va'] = Lin(0)
        return vb, vo

    def require(self, f):
        self.st.add(f)

    def inv(self, fn, maker):
        """extra candidate invariants for loops of fn ('*': every loop)"""
        self.eng.loop_cands.setdefault(fn, []).append(maker)

    def measure(self, fn, maker):
        self.eng.measures.setdefault(fn, []).append(maker)

    def call(self, fname, *args):
        """run the extracted function; returns outcomes"""
        if self.skip:
            return []
        f = None
        for m in self.eng.modules:
            if fname in m.funcs:
                f = m.funcs[fname]
        if f is None:
            raise Unsupported('no function %s in the sources' % fname)
        if len(args) != len(f.params):
            raise Unsupported('%s: arity %d, contract has %d' % (fname, len(f.params), len(args)))
        for (n, t), v in zip(f.params, args):
            ok = (t.k == 'ptr') == isinstance(v, PtrV) and (t.k != 'i' or (isinstance(v, IntV) and v.w == t.n))
            if not ok:
                raise Unsupported('%s: parameter %s has type %r, contract passes %r' % (fname, n, t, v))
        self.pre = self.st.copy()
        self.pre.mem = dict(self.st.mem)
        st = self.st.copy()
        self.eng.npaths = 0
        outs = [Outcome(self, s, v) for s, v in self.eng.call_fn(st, f, list(args))]
        self.run.case_done(self, fname, outs)
        return outs

    def callee_events(self, fname, args, code, j):
        """names of the functions passed as argument j of the events of that code"""
        f = [m.funcs[fname] for m in self.eng.modules if fname in m.funcs][0]
        names = set()
        for st, v in self.eng.call_fn(self.st.copy(), f, args):
            n = st.g['evn'].const()
            for i in range(n or 0):
                e = st.get('E%d' % j, Lin(0), L(i)).const()
                if st.get('E0', Lin(0), L(i)).const() == code and e in self.eng.idinfo:
                    names.add(self.eng.idinfo[e][0][2])
        return names

    def call_in(self, outcome, fname, *args):
        """run another function in the state of an outcome (composition)"""
        f = None
        for m in self.eng.modules:
            if fname in m.funcs:
                f = m.funcs[fname]
        if f is None:
            raise Unsupported('no function %s' % fname)
        st = outcome.st.copy()
        return [Outcome(self, s, v) for s, v in self.eng.call_fn(st, f, list(args))]


class SpecRun:
    def __init__(self, spec, modules, contracts, tier='quick'):
        self.spec = spec
        self.modules = modules
        self.contracts = contracts
        self.tier = tier
        self.results = []
        self.cases = []
        self.vacuous = []
        self.failures = []
        self.eng = None
        self.totals = {}
        self.ncases = 0
        self.select = None      # indices of the cases to run (None: all)

    def case(self, label='', **kw):
        eng = Engine(self.modules, STUBS, self.contracts)
        eng.field = self.field
        eng.struct_size = self.struct_size
        eng.deadline = self.deadline
        eng.inv_timeout = self.spec.opts.get('inv_timeout', 2.0)
        eng.termination = self.spec.opts.get('termination', True)
        eng.noinline = set(self.spec.fns)
        self.eng = eng
        c = Case(self, (self.spec.name + ' ' + label).strip())
        c.skip = self.select is not None and self.ncases not in self.select
        self.ncases += 1
        if not c.skip:
            self.cases.append(c)
        return c

    def scout(self, fn):
        """run fn on a throw-away case (to discover facts such as which comparator is passed)"""
        old = self.eng
        eng = Engine(self.modules, STUBS, self.contracts)
        eng.field, eng.struct_size, eng.deadline = self.field, self.struct_size, self.deadline
        eng.noinline = set(self.spec.fns)
        self.eng = eng
        c = Case(self, 'scout')
        c.skip = False
        try:
            return fn(c)
        finally:
            self.eng = old

    def field(self, sname, f):
        for m in self.modules:
            if sname in m.fields and f in m.fields[sname]:
                off, sz = m.fields[sname][f]
                return m, off, sz
        raise Unsupported('no field %s.%s' % (sname, f))

    def struct_size(self, sname):
        for m in self.modules:
            for cand in ('%struct.' + sname, '%union.' + sname):
                if cand in m.structs and m.structs[cand][0] is not None:
                    from .ir import Ty
                    return m, m.sizeof(Ty('st', None, None, cand))
        raise Unsupported('no struct %s' % sname)

    def case_done(self, case, fname, outs):
        case.outs = outs

    def execute(self, time_limit):
        t0 = time.time()
        self.deadline = t0 + time_limit
        try:
            self.spec.fn(self)
        except Limit as e:
            self.failures.append(('engine', 'verification of %s: %s' % (self.spec.name, e)))
        except Unsupported as e:
            self.failures.append(('engine', 'verification of %s: not within the verifier\'s reach: %s' % (self.spec.name, e)))
        return self

    def discharge(self, timeout=10.0, seeds=(0, 7), second=None):
        """solve every obligation"""
        for c in self.cases:
            eng = c.eng
            # vacuity: every case needs a satisfiable precondition and a reachable return
            outs = getattr(c, 'outs', [])
            live = 0
            for o in outs:
                r = solve([x for x in o.st.pc if not hasq(x)], None, 2.0)
                if r != 'unsat':
                    live += 1
            pre = getattr(c, 'pre', c.st)
            r = solve(pre.pc, None, 3.0)
            if r == 'unsat' or (live == 0):
                self.vacuous.append(c.label)
            grouped = {}
            for o in eng.obls:
                if o.status is None:
                    t = time.time()
                    for sd in seeds:
                        o.status, m, why = solve(o.pc, o.goal, timeout, sd, want_model=True)
                        if o.status != 'unknown':
                            break
                    o.time = time.time() - t
                    o.backend = 'z3'
                    if o.status != 'unsat' and second:
                        r2 = second(o)
                        if r2 == 'unsat':
                            o.status = 'unsat'
                            o.backend = 'cvc5'
                    if o.status != 'unsat':
                        o.model = (str(m)[:4000] if m is not None else str(why))
                if o.status != 'unsat':
                    self.failures.append(('obligation', describe(o)))
        return self


def describe(o):
    return '%s%s [%s]%s' % (o.name, (' at ' + o.where) if o.where else '', o.status, (' path ' + ' '.join(o.path)) if o.path else '')


def same_range(A, a, B, b, n):
    """A[a..a+n) equals B[b..b+n), with arithmetic-free triggers on both sides (for assumptions)"""
    a, b, n = Z(a), Z(b), Z(n)
    i = z3.Const('i?r', INT)
    return And(z3.ForAll([i], z3.Implies(z3.And(i >= a, i < a + n), Select(A, i) == Select(B, i - a + b)), patterns=[Select(A, i)]),
               z3.ForAll([i], z3.Implies(z3.And(i >= b, i < b + n), Select(A, i - b + a) == Select(B, i)), patterns=[Select(B, i)]))


def glob(c, name, size):
    """a global variable of the code: a separate live block"""
    p = None
    for m in c.eng.modules:
        if name in m.globals:
            p = PtrV(c.eng.gid(m, name), 0)
    if p is None:
        raise Unsupported('no global %s' % name)
    c.st.store('SZ', 0, p.b, L(size))
    c.st.store('AL', 0, p.b, Lin(1))
    return p


def literal(eng, p):
    """the bytes of the constant string at p, or None"""
    b = p.b.const()
    if b is None or b not in eng.idinfo or p.o.const() is None:
        return None
    key, mod = eng.idinfo[b]
    if key[0] != 'g' or key[2] not in mod.globals:
        return None
    ty, init, const, ext = mod.globals[key[2]]
    if not const or not init:
        return None
    if init[0] == 'bytes':
        return bytes(init[1])[p.o.const():].split(b'\0')[0]
    return b'' if init[0] == 'zero' else None
