"""Path-wise symbolic execution of LLVM IR with loops cut at their headers."""
import os
import time
import z3
from .ir import Unsupported, PTR
from .core import *

DEBUG = os.environ.get('GVC_DEBUG')


def dbg(*a):
    if DEBUG:
        print(*a, flush=True)


class Obl:
    __slots__ = ('name', 'pc', 'goal', 'where', 'path', 'status', 'time', 'model', 'backend', 'kind')

    def __init__(self, name, pc, goal, where, path, kind):
        self.name, self.pc, self.goal, self.where, self.path = name, pc, goal, where, path
        self.status = None
        self.time = 0.0
        self.model = None
        self.backend = None
        self.kind = kind


class NotConcrete(Exception):
    pass


class Limit(Exception):
    pass


class FnV:
    pass


SCALE, SEED = [1.0], [int(os.environ.get('GVC_SEED', '0'))]         # effort multiplier and random seed (of a second attempt)


def solve(pc, goal, timeout, seed=0, want_model=False):
    s = z3.Solver()
    timeout *= SCALE[0]
    seed += SEED[0]
    # bounded by z3's own effort counter (about 5e6 units a second here), so that the answer does not
    # depend on the load of the machine; the clock is only a backstop
    s.set('rlimit', int(timeout * 5e6))
    s.set('timeout', int(timeout * 3000))
    if seed:
        s.set('random_seed', seed)
    for c in pc:
        s.add(c)
    if goal is not None:
        s.add(z3.Not(goal))
    r = s.check()
    if want_model:
        return str(r), (s.model() if r == z3.sat else None), (s.reason_unknown() if r == z3.unknown else None)
    return str(r)


TAB_ASCII, TAB_CTYPE, TAB_CTYPEP = 60, 61, 62
TABLES = {TAB_ASCII: None, TAB_CTYPE: None}


def table(b):
    """(element size, base index, values) of the C library's / GLib's character class tables (C locale)"""
    if TABLES[b] is None:
        import ctypes
        if b == TAB_ASCII:
            lib = ctypes.CDLL('libglib-2.0.so.0')
            p = ctypes.POINTER(ctypes.c_uint16).in_dll(lib, 'g_ascii_table')
            TABLES[b] = (2, 0, [p[i] for i in range(256)])
        else:
            lib = ctypes.CDLL(None)
            lib.__ctype_b_loc.restype = ctypes.POINTER(ctypes.POINTER(ctypes.c_uint16))
            p = lib.__ctype_b_loc()[0]
            TABLES[b] = (2, 128, [p[i] for i in range(-128, 256)])
    return TABLES[b]


def tab_expr(i, pairs):
    """value of a table at index i, as nested ifs over runs of equal values"""
    runs = []
    for j, v in pairs:
        if runs and runs[-1][2] == v:
            runs[-1][1] = j
        else:
            runs.append([j, j, v])
    vals = [r[2] for r in runs]
    dv = max(set(vals), key=vals.count)
    e = z3.IntVal(dv)
    for a, b, v in reversed(runs):
        if v != dv:
            e = z3.If(z3.And(i >= a, i <= b) if a != b else i == a, z3.IntVal(v), e)
    return e


POW2 = z3.Function('pow2', INT, INT)            # POW2(n): 2^n
BIT = z3.Function('bit', INT, INT, z3.BoolSort())  # BIT(v, n): bit n of v
POW2S = {}


class Engine:
    BUILTIN_LO = 100

    def __init__(self, modules, stubs, contracts=None):
        self.modules = modules
        self.fn = {}
        for m in modules:
            for n, f in m.funcs.items():
                self.fn.setdefault((m.name if f.internal else None, n), f)
        self.stubs = stubs
        self.contracts = contracts or {}
        self.ids = {}
        self.idinfo = {}
        self.names = 0
        self.fresh_log = []       # (counter, z3 const)
        self.obls = []
        self.mode_dry = 0
        self.shape = 0
        self.loop_cands = {}       # function name -> list of candidate makers
        self.trivial = 0
        self.max_paths = 4000
        self.npaths = 0
        self.deadline = None
        self.inv_timeout = 3.0
        self.stats = {'inv_queries': 0, 'inv_time': 0.0, 'feas': 0, 'feas_time': 0.0, 'loops': 0, 'invs': 0}
        self.inlined = set()
        self.used_stubs = set()
        self.used_contracts = set()
        self.loop_notes = []
        self.noinline = set()
        self.termination = True
        self.cur_fn = []
        self.demoted = {}
        self.measures = {}
        self.blkkinds = {}
        self.newkinds = None        # views of the memory that comes from g_malloc (None: any)
        self.sym_unroll = 0
        self.try_sym = 0
        self.lastq, self.gaveup = 'unsat', 0
        self.unroll_paths = 200     # loops that fork more than this are cut, not unrolled
        self.abstract_nl = False    # products and remainders as uninterpreted functions (fewer facts)
        self.hist_steps = False     # history also records how the loop variables step

    # ---- symbols
    def fresh(self, hint, sort=INT, rng=None):
        self.names += 1
        c = z3.Const('%s!%d' % (hint, self.names), sort)
        self.fresh_log.append(c)
        return atom(c, rng) if sort == INT else c

    def fresh_int(self, hint, w):
        s = self.fresh(hint, INT, (-2**(w - 1), 2**(w - 1) - 1))
        return IntV(w, s=s)

    def resolve(self, module, name):
        f = self.fn.get((module.name, name)) or self.fn.get((None, name))
        return f

    def gid(self, module, name):
        """Concrete block id of a global or function."""
        f = self.resolve(module, name)
        if f is not None:
            key = ('f', (module.name if f.internal else None), name)
        elif name in module.globals and not module.globals[name][3] and self._internal(module, name):
            key = ('g', module.name, name)
        elif name in module.decls:
            key = ('f', None, name)
        else:
            key = ('g', None, name)
        if key not in self.ids:
            n = len(self.ids)
            i = -(100 + n) if key[0] == 'f' else 100 + n
            self.ids[key] = i
            self.idinfo[i] = (key, module)
        return self.ids[key]

    def _internal(self, module, name):
        # names can clash between modules for private/internal globals
        return name.startswith('.str') or '.' in name or sum(1 for m in self.modules if name in m.globals and not m.globals[name][3]) > 1

    # ---- initial state
    def init_state(self):
        s = State(self)
        for k in KINDS:
            s.mem[k] = Node('base', None, v=z3.Const('M_%s' % k, ARR2))
        s.g['evn'] = Lin(0)
        s.g['nb'] = Lin(1000000)
        return s

    # ---- obligations
    def oblige(self, st, name, goal, ins=None, kind='safety'):
        if isinstance(goal, BoolV):
            g = goal.z
        else:
            g = goal
        if isinstance(g, bool):
            if g:
                if not self.mode_dry:
                    self.trivial += 1
                return
            g = z3.BoolVal(False)
        if z3.is_true(g):
            if not self.mode_dry:
                self.trivial += 1
            return
        if not self.mode_dry:
            where = ''
            if ins is not None:
                where = '%s:%d' % (ins.fn.name, ins.fn.module.srcline(ins))
            self.obls.append(Obl(name, list(st.pc), g, where, list(st.label), kind))
        st.add(goal)

    # ---- integer views
    def prove_qf(self, st, c, timeout=0.15):
        if isinstance(c, BoolV):
            c = c.z
        if isinstance(c, bool):
            return c
        t = time.time()
        r = solve(st.qf(), c, timeout)
        self.stats['feas'] += 1
        self.stats['feas_time'] += time.time() - t
        return r == 'unsat'

    def wrap(self, st, l, w, view=None):
        """IntV for the mathematical value l reduced modulo 2^w."""
        M, H = 1 << w, 1 << (w - 1)
        lo, hi = st.range(l)
        if lo >= 0 and hi < H:
            return IntV(w, s=l, u=l)
        if view != 's' and lo >= 0 and hi < M:
            return IntV(w, u=l)
        if view != 'u' and lo >= -H and hi < H:
            return IntV(w, s=l)
        if lo >= 0 and hi < M:
            return IntV(w, u=l)
        if lo >= -H and hi < H:
            return IntV(w, s=l)
        inu = z3.And(l.z >= 0, l.z < M)
        if view != 's' and self.prove_qf(st, inu):
            st.add(inu)
            return IntV(w, u=l)
        ins_ = z3.And(l.z >= -H, l.z < H)
        if view != 'u' and self.prove_qf(st, ins_):
            st.add(ins_)
            return IntV(w, s=l)
        if view == 's':
            if lo >= -H - M and hi < H + M:
                e = z3.If(l.z < -H, l.z + M, z3.If(l.z >= H, l.z - M, l.z))
            else:
                e = (l.z + H) % M - H
            a = self.patom(st, e, (-H, H - 1))
            self._wr(a, w, l, 's')
            return IntV(w, s=a)
        if lo >= -M and hi < 2 * M:
            e = l.z
            if hi >= M:
                e = z3.If(l.z >= M, l.z - M, e)
            if lo < 0:
                e = z3.If(l.z < 0, l.z + M, e)
        elif self.abstract_nl:
            e = z3.Function('mod%d' % w, INT, INT)(l.z)
            st.add(z3.And(e >= 0, e < M, z3.Implies(z3.And(l.z >= 0, l.z < M), e == l.z), z3.Implies(z3.And(l.z < 0, l.z >= -M), e == l.z + M)))
        else:
            e = l.z % M
        a = self.patom(st, e, (0, M - 1))
        self._wr(a, w, l, 'u')
        return IntV(w, u=a)

    def patom(self, st, e, rng):
        """atom whose range holds on this path only"""
        a = atom(e)
        if rng is not None and len(a.t) == 1 and a.t[0][1] == 1:
            k = a.t[0][0]
            o = st.rng.get(k)
            r = (rng[0] - a.c, rng[1] - a.c)
            st.rng[k] = r if o is None else (max(o[0], r[0]), min(o[1], r[1]))
        return a

    def _wr(self, a, w, l, v):
        if len(a.t) == 1:
            WRAP[a.t[0][0]] = (w, l, v)

    def sv(self, st, x):
        if x.s is not None:
            return x.s
        w = x.w
        M, H = 1 << w, 1 << (w - 1)
        lo, hi = st.range(x.u)
        if hi < H:
            return x.u
        if lo >= H:
            return x.u - M
        if self.prove_qf(st, x.u.z < H):
            st.add(x.u.z < H)
            return x.u
        a = self.patom(st, z3.If(x.u.z >= H, x.u.z - M, x.u.z), (-H, H - 1))
        self._wr(a, w, x.u, 's')
        x.s = a
        return a

    def uv(self, st, x):
        if x.u is not None:
            return x.u
        w = x.w
        M, H = 1 << w, 1 << (w - 1)
        lo, hi = st.range(x.s)
        if lo >= 0:
            return x.s
        if hi < 0:
            return x.s + M
        if self.prove_qf(st, x.s.z >= 0):
            st.add(x.s.z >= 0)
            return x.s
        a = self.patom(st, z3.If(x.s.z < 0, x.s.z + M, x.s.z), (0, M - 1))
        self._wr(a, w, x.s, 'u')
        x.u = a
        return a

    def iconst(self, w, n):
        M, H = 1 << w, 1 << (w - 1)
        n &= M - 1
        return IntV(w, s=Lin(n if n < H else n - M), u=Lin(n))

    # ---- operands
    def val(self, st, t, o, fn):
        k = o[0]
        if k == 'loc':
            v = st.env.get(o[1])
            if v is None:
                raise Unsupported('undefined %s in %s' % (o[1], fn.name))
            return v
        if k == 'int':
            if t.n == 1:
                return BoolV(bool(o[1]))
            return self.iconst(t.n, o[1])
        if k == 'null':
            return NULL
        if k == 'glob':
            return PtrV(self.gid(fn.module, o[1]))
        if k == 'undef':
            return self.undef(t)
        if k == 'zero':
            return self.zero(t)
        if k == 'gep':
            return self.gep(st, fn.module, o[1], self.val(st, PTR, o[2], fn), [(tt, self.val(st, tt, x, fn)) for tt, x in o[3]])
        raise Unsupported('operand %r' % (o,))

    def undef(self, t):
        if t.k == 'ptr':
            return PtrV(self.fresh('undef_b'), self.fresh('undef_o'))
        if t.k == 'i' and t.n == 1:
            return BoolV(self.fresh('undef', z3.BoolSort()))
        if t.k == 'i':
            return self.fresh_int('undef', t.n)
        if t.k == 'st':
            return AggV([None] * 8)
        raise Unsupported('undef %r' % t)

    def zero(self, t):
        if t.k == 'ptr':
            return NULL
        if t.k == 'i':
            return self.iconst(t.n, 0) if t.n > 1 else BoolV(False)
        raise Unsupported('zero %r' % t)

    def freshval(self, hint, t):
        if t.k == 'ptr':
            return PtrV(self.fresh(hint + '_b'), self.fresh(hint + '_o'))
        if t.k == 'i' and t.n == 1:
            return BoolV(self.fresh(hint, z3.BoolSort()))
        if t.k == 'i':
            return self.fresh_int(hint, t.n)
        if t.k == 'void':
            return None
        raise Unsupported('value of type %r' % t)

    def gep(self, st, mod, t, base, idx):
        off = base.o
        cur = t
        first = True
        for tt, v in idx:
            if first:
                sz = mod.sizeof(cur)
                first = False
                off = off + self.idx(st, v) * sz
                continue
            if cur.k == 'arr':
                off = off + self.idx(st, v) * mod.sizeof(cur.e)
                cur = cur.e
            elif cur.k == 'st':
                _, _, offs, els = mod.layout(cur)
                n = self.sv(st, v).const()
                off = off + offs[n]
                cur = els[n]
            else:
                raise Unsupported('gep into %r' % cur)
        return PtrV(base.b, off)

    def idx(self, st, v):
        return self.sv(st, v)

    # ---- memory access
    def access(self, st, p, size, ins, what):
        """Obligation: [p, p+size) is inside a live block."""
        if p.b.const() in TABLES and what == 'read':
            es, base, vals = table(p.b.const())
            self.oblige(st, 'memory read: within the character table', z3.And(p.o.z >= -base * es, p.o.z + size <= (len(vals) - base) * es), ins)
            return
        if what == 'read' and self.const_size(p.b) is not None:
            self.oblige(st, 'memory read: offset not negative', mkcmp('le', -p.o, st.rng), ins)
            self.oblige(st, 'memory read: within the constant table', mkcmp('le', p.o + size - self.const_size(p.b), st.rng), ins)
            return
        sz = st.get('SZ', Lin(0), p.b)
        al = st.get('AL', Lin(0), p.b)
        c1 = mkcmp('eq', al - 1, st.rng)
        c2 = mkcmp('le', -p.o, st.rng)
        c3 = mkcmp('le', p.o + size - sz, st.rng)
        self.oblige(st, 'memory %s: block is live' % what, c1, ins)
        self.oblige(st, 'memory %s: offset not negative' % what, c2, ins)
        self.oblige(st, 'memory %s: within block' % what, c3, ins)

    def const_size(self, b):
        b = b.const()
        if b is None or b < 100 or b not in self.idinfo:
            return None
        key, mod = self.idinfo[b]
        if key[0] != 'g' or key[2] not in mod.globals:
            return None
        ty, init, const, ext = mod.globals[key[2]]
        if key[2] == 'g_ascii_table':
            return 8
        return mod.sizeof(ty) if const and init is not None else None

    def const_cells(self, b):
        """(offset, type, size) of the scalars of a constant of the code"""
        key, mod = self.idinfo[b.const()]
        out = []

        def walk(ty, off):
            if ty.k == 'arr':
                for j in range(ty.n):
                    walk(ty.e, off + j * mod.sizeof(ty.e))
            elif ty.k == 'st':
                _, _, offs, els = mod.layout(ty)
                for o, e in zip(offs, els):
                    walk(e, off + o)
            else:
                out.append((off, ty, mod.sizeof(ty)))
        walk(mod.globals[key[2]][0], 0)
        return out

    def eidx(self, st, o, size, ins):
        if o.divisible(size):
            return o.div(size)
        self.oblige(st, 'memory access: aligned', o.z % size == 0, ins)
        return atom(o.z / size)

    def kindof(self, t):
        if t.k == 'i':
            return 1 if t.n in (1, 8) else t.n // 8
        if t.k == 'ptr':
            return 'P'
        raise Unsupported('memory access of type %r' % t)

    def load(self, st, t, p, ins=None, check=True):
        k = self.kindof(t)
        size = 8 if k == 'P' else k
        if check:
            self.access(st, p, size, ins, 'read')
        c = self.const_load(st, t, p)
        if c is not None:
            return c
        if st.user.get('bytewise') and k in (2, 4, 8):
            h = st.user['bytewise']
            r = h('load', self, st, k, p, None, ins)
            if r is not None:
                return r
        if k in (2, 4, 8) and self.bytes_only(st, p.b):
            parts = []
            for j in range(k):
                b, _ = st.find(1, p.b, p.o + j)
                parts.append(Z(b))
                st.add(z3.And(Z(b) >= 0, Z(b) <= 255))
            return self.word(st, 8 * k, parts)
        i = self.eidx(st, p.o, size, ins)
        if k == 'P':
            b, _ = st.find('PB', p.b, i)
            o, _ = st.find('PO', p.b, i)
            h = st.user.get('ptrload')
            r = PtrV(L(b), L(o))
            if h:
                h(self, st, p.b, i, r)
            return r
        v, orig = st.find(k, p.b, i)
        if orig is not None and isinstance(orig, IntV) and orig.w == 8 * k:
            return orig
        l = L(v)
        lo, hi = CELL[k]
        if l.t and len(l.t) == 1 and l.c == 0:
            aid = l.t[0][0]
            RNG.setdefault(aid, (lo, hi))
            if aid not in st.known:
                st.known.add(aid)
                st.pc.append(z3.And(l.z >= lo, l.z <= hi))
        if k == 1:
            r = IntV(8, u=l)
        else:
            r = IntV(8 * k, s=l)
        if t.k == 'i' and t.n == 1:
            return mkcmp('ne', l)
        return r

    def const_load(self, st, t, p):
        b = p.b.const()
        if b in TABLES and t.k == 'i':
            es, base, vals = table(b)
            if t.n != 8 * es:
                raise Unsupported('table access size')
            i = self.eidx(st, p.o, es, None)
            l = self.patom(st, tab_expr(i.z, [(j - base, v) for j, v in enumerate(vals)]), (0, 2**(8 * es) - 1))
            st.add(z3.And(l.z >= 0, l.z < 2**(8 * es)))
            return IntV(t.n, u=l, tag=('tab', b, i.z))
        if b is None or b < 100 or b not in self.idinfo:
            return None
        key, mod = self.idinfo[b]
        if key[0] != 'g' or key[2] not in mod.globals:
            return None
        ty, init, const, ext = mod.globals[key[2]]
        if key[2] == 'g_ascii_table' and t.k == 'ptr':
            return PtrV(TAB_ASCII, 0)
        if not const or init is None:
            return None
        o = p.o.const()
        if o is not None:
            r = self.const_at(st, mod, ty, init, o, t)
            if r is None:
                raise Unsupported('constant load %s+%d' % (key[2], o))
            return r
        # symbolic index into a constant integer array
        if ty.k == 'arr' and ty.e.k == 'i' and t.k == 'i' and t.n == ty.e.n:
            es = mod.sizeof(ty.e)
            i = self.eidx(st, p.o, es, None)
            data = init[1] if init[0] in ('bytes', 'agg') else [('int', 0)] * ty.n
            vals = [x if isinstance(x, int) else (x[1] if x[0] == 'int' else 0) for x in data]
            e = z3.IntVal(vals[-1])
            if len(vals) <= 300:
                # balanced: group equal runs
                runs = []
                for j, v in enumerate(vals):
                    if runs and runs[-1][2] == v:
                        runs[-1][1] = j
                    else:
                        runs.append([j, j, v])
                e = z3.IntVal(runs[-1][2])
                for a, bb, v in reversed(runs[:-1]):
                    e = z3.If(i.z <= bb, z3.IntVal(v), e)
                # affine runs compress
                e = affine_runs(i.z, vals) if len(vals) > 8 else e
                l = self.patom(st, e, (min(vals), max(vals)))
                st.add(z3.And(l.z >= min(vals), l.z <= max(vals)))
                return IntV(t.n, u=l) if min(vals) >= 0 else IntV(t.n, s=l)
        return None

    def const_at(self, st, mod, ty, init, off, t):
        if ty.k == 'arr':
            es = mod.sizeof(ty.e)
            n, r = divmod(off, es)
            if n >= ty.n:
                return None
            if init[0] == 'bytes':
                return self.iconst(8, init[1][n]) if t.k == 'i' and t.n == 8 else None
            if init[0] == 'zero':
                return self.zero(t)
            return self.const_at(st, mod, ty.e, init[1][n], r, t)
        if ty.k == 'st':
            if init[0] == 'zero':
                return self.zero(t)
            _, _, offs, els = mod.layout(ty)
            for j in range(len(offs) - 1, -1, -1):
                if off >= offs[j]:
                    return self.const_at(st, mod, els[j], init[1][j], off - offs[j], t)
        if off == 0 and ty.k == t.k:
            class F:
                module = mod
            return self.val(st, t, init, F)
        return None

    def storev(self, st, t, v, p, ins=None, check=True):
        k = self.kindof(t)
        size = 8 if k == 'P' else k
        if check:
            self.access(st, p, size, ins, 'write')
        if st.user.get('bytewise') and k in (2, 4, 8):
            r = st.user['bytewise']('store', self, st, k, p, v, ins)
            if r is not None:
                return
        if k in (2, 4, 8) and isinstance(v, IntV) and (v.tag and v.tag[0] == 'bytes' or self.bytes_only(st, p.b)):
            if not (v.tag and v.tag[0] == 'bytes'):
                raise Unsupported('word stored into a byte block')
            for j in range(k):
                st.store(1, p.b, p.o + j, atom(v.tag[1][j], (0, 255)))
            return
        i = self.eidx(st, p.o, size, ins)
        if k == 'P':
            st.store('PB', p.b, i, v.b)
            st.store('PO', p.b, i, v.o)
        else:
            if isinstance(v, BoolV):
                v = self.b2i(v, 8)
            l = self.uv(st, v) if k == 1 else self.sv(st, v)
            st.store(k, p.b, i, l, v)

    def bytes_only(self, st, b):
        c = b.const()
        k = self.blkkinds.get(c) if c is not None else None
        if k is None:
            k = st.user.get('bk', {}).get(b.key())
        return k is not None and set(k) == {1}

    def b2i(self, b, w):
        if isinstance(b.z, bool):
            return self.iconst(w, int(b.z))
        e = z3.If(b.z, z3.IntVal(1), z3.IntVal(0))
        a = atom(e, (0, 1))
        BOOLOF[a.t[0][0]] = b.z
        return IntV(w, s=a, u=a)

    # ---- fresh blocks
    def alloc(self, st, size, zero=False, kind='heap'):
        b = st.g['nb']
        st.g['nb'] = b + 1
        st.store('AL', 0, b, Lin(1))
        st.store('SZ', 0, b, L(size))
        if zero:
            self.zeroblk(st, b)
        return PtrV(b, 0)

    def zeroblk(self, st, b):
        z = z3.K(INT, z3.IntVal(0))
        for k in (1, 2, 4, 8, 'PB', 'PO'):
            st.setblk(k, b, z)

    def free(self, st, p, ins, what='free'):
        """p must be a live block's start (or NULL: no-op, handled by caller)."""
        al = st.get('AL', Lin(0), p.b)
        self.oblige(st, '%s: pointer is a live allocation' % what, mkcmp('eq', al - 1, st.rng), ins)
        self.oblige(st, '%s: pointer is the start of its block' % what, mkcmp('eq', p.o, st.rng), ins)
        st.store('AL', 0, p.b, Lin(0))

    def isnull(self, st, p):
        return mkcmp('eq', p.b, st.rng)

    def ptr_eq(self, st, a, b):
        cb = mkcmp('eq', a.b - b.b, st.rng)
        if cb.z is False:
            return cb
        if (a.b.const() == 0 and a.o.const() == 0) or (b.b.const() == 0 and b.o.const() == 0):
            return cb
        co = mkcmp('eq', a.o - b.o, st.rng)
        if co.z is True:
            return cb
        if cb.z is True or co.z is False:
            return co
        return BoolV(z3.And(cb.z, co.z))

    # ---- feasibility
    def feasible(self, st):
        if st.dead:
            return False
        t = time.time()
        r = solve(st.qf(), None, 0.3)
        self.stats['feas'] += 1
        self.stats['feas_time'] += time.time() - t
        return r != 'unsat'

    def fork(self, st, cond):
        """[(state, bool)] for the feasible sides of cond."""
        if isinstance(cond.z, bool):
            return [(st, cond.z)]
        if z3.is_true(cond.z):
            return [(st, True)]
        if z3.is_false(cond.z):
            return [(st, False)]
        out = []
        a = st.copy()
        a.add(cond)
        if self.feasible(a):
            out.append((a, True))
        st.add(cond.neg())
        if not out or self.feasible(st):
            out.append((st, False))
        return out

    # ---- execution
    def call_fn(self, st, f, args, ins=None):
        """Inline f. Returns [(state, value)]."""
        if st.depth > 12:
            raise Unsupported('inlining too deep at %s (recursion needs a contract)' % f.name)
        saved = st.env
        st.env = {}
        for (n, t), v in zip(f.params, args):
            st.env[n] = v
        st.depth += 1
        self.inlined.add(f.name)
        self.cur_fn.append(f.name)
        outs = self.run(st, f, f.order[0], None, None, None)
        self.cur_fn.pop()
        res = []
        for o in outs:
            assert o[0] == 'ret'
            s = o[1]
            for b in s.user.get('allocas%d' % s.depth, ()):
                s.store('AL', 0, b, Lin(0))
            s.user.pop('allocas%d' % s.depth, None)
            s.env = saved
            s.depth -= 1
            res.append((s, o[2]))
        if len(res) > 1:
            for s, _ in res:
                s.env = dict(saved)
        return res

    def run(self, st, f, block, prev, inside, header):
        """Execute from `block`. Without `inside` runs to returns; with it (a loop body set)
        stops at edges to `header` ('back') and at edges leaving the set ('exit')."""
        work = [(st, block, prev, True)]
        out = []
        first = True
        while work:
            st, b, pv, start = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Limit('time limit')
            if inside is not None and not (start and first):
                if b == header:
                    out.append(('back', st, pv))
                    continue
                if b not in inside:
                    out.append(('exit', st, b, pv))
                    continue
            if b in f.loops and not (start and first and inside is not None):
                for (s2, eb, epv) in self.do_loop(st, f, b, pv, out):
                    work.append((s2, eb, epv, False))
                first = False
                continue
            skip_phi = start and first and inside is not None
            first = False
            for nxt in self.block(st, f, b, pv, skip_phi, out):
                work.append((nxt[0], nxt[1], b, False))
            self.npaths += 1
            if self.npaths > 60000:
                raise Limit('path limit')
        return out

    def phis(self, f, b):
        r = []
        for i in f.blocks[b]:
            if i.op != 'phi':
                break
            r.append(i)
        return r

    def block(self, st, f, b, prev, skip_phi, out):
        """Run one block; returns successor list [(state, label)]."""
        instrs = f.blocks[b]
        n = 0
        ph = self.phis(f, b)
        if not skip_phi and ph:
            vals = [self.val(st, i.a[0], i.a[1][prev], f) for i in ph]
            for i, v in zip(ph, vals):
                st.env[i.res] = v
        states = [st]
        for ins in instrs[len(ph):]:
            if ins.op in ('br', 'ret', 'switch', 'unreachable'):
                res = []
                for s in states:
                    res += self.term(s, f, ins, out)
                return res
            nxt = []
            for s in states:
                r = self.step(s, f, ins)
                if r is None:
                    nxt.append(s)
                else:
                    nxt += r
            states = [s for s in nxt if not s.dead]
            if not states:
                return []
        raise Unsupported('block without terminator')

    def term(self, st, f, ins, out):
        if ins.op == 'ret':
            v = None if ins.a[0] is None else self.val(st, f.ret, ins.a[0], f)
            out.append(('ret', st, v))
            return []
        if ins.op == 'unreachable':
            return []
        if ins.op == 'br':
            if len(ins.a) == 1:
                return [(st, ins.a[0])]
            c = self.val(st, BOOL, ins.a[0], f)
            if st.user.get('unroll') is not None:
                lp = st.user['unroll']
                if not isinstance(c.z, bool) and lp[0] is f and (ins.a[1] not in lp[1] or ins.a[2] not in lp[1]):
                    raise NotConcrete()
            rs = self.fork(st, c)
            if len(rs) > 1 or True:
                for s, side in rs:
                    if len(rs) > 1:
                        s.label.append('%s:%d:%s' % (f.name, f.module.srcline(ins), 'T' if side else 'F'))
            return [(s, ins.a[1] if side else ins.a[2]) for s, side in rs]
        if ins.op == 'switch':
            v = self.val(st, I64, ins.a[0], f)
            outl = []
            cur = st
            for cv, lab in ins.a[2]:
                w = v.w
                k = self.iconst(w, cv[1])
                c = self.icmp(cur, 'eq', v, k)
                rest = None
                for s, side in self.fork(cur, c):
                    if side:
                        s.label.append('%s:%d:=%d' % (f.name, f.module.srcline(ins), cv[1]))
                        outl.append((s, lab))
                    else:
                        rest = s
                if rest is None:
                    return outl
                cur = rest
            cur.label.append('%s:%d:default' % (f.name, f.module.srcline(ins)))
            outl.append((cur, ins.a[1]))
            return outl

    def icmp(self, st, pr, x, y):
        if isinstance(x, PtrV):
            if pr == 'eq':
                return self.ptr_eq(st, x, y)
            if pr == 'ne':
                return self.ptr_eq(st, x, y).neg()
            st_b = mkcmp('eq', x.b - y.b, st.rng)
            self.oblige(st, 'pointer comparison within one block', st_b)
            d = x.o - y.o
            return {'ult': lambda: mkcmp('le', d + 1, st.rng), 'ule': lambda: mkcmp('le', d, st.rng),
                    'ugt': lambda: mkcmp('le', 1 - d, st.rng), 'uge': lambda: mkcmp('le', -d, st.rng)}[pr]()
        if isinstance(x, BoolV):
            if isinstance(y.z, bool):
                e = x if y.z else x.neg()
            elif isinstance(x.z, bool):
                e = y if x.z else y.neg()
            else:
                e = BoolV(x.z == y.z)
            return e if pr == 'eq' else e.neg()
        if pr in ('eq', 'ne'):
            if x.s is not None and y.s is not None:
                d = x.s - y.s
            elif x.u is not None and y.u is not None:
                d = x.u - y.u
            else:
                d = self.sv(st, x) - self.sv(st, y)
            return mkcmp(pr, d, st.rng)
        if pr[0] == 's':
            d = self.sv(st, x) - self.sv(st, y)
        else:
            d = self.uv(st, x) - self.uv(st, y)
        pr = pr[1:]
        if pr == 'lt':
            return mkcmp('le', d + 1, st.rng)
        if pr == 'le':
            return mkcmp('le', d, st.rng)
        if pr == 'gt':
            return mkcmp('le', 1 - d, st.rng)
        return mkcmp('le', -d, st.rng)

    def step(self, st, f, ins):
        op = ins.op
        a = ins.a
        if op == 'load':
            st.env[ins.res] = self.load(st, a[0], self.val(st, PTR, a[1], f), ins)
        elif op == 'store':
            self.storev(st, a[0], self.val(st, a[0], a[1], f), self.val(st, PTR, a[2], f), ins)
        elif op == 'getelementptr':
            st.env[ins.res] = self.gep(st, f.module, a[0], self.val(st, PTR, a[1], f), [(t, self.val(st, t, v, f)) for t, v in a[2]])
        elif op == 'icmp':
            st.env[ins.res] = self.icmp(st, a[0], self.val(st, a[1], a[2], f), self.val(st, a[1], a[3], f))
        elif op == 'call':
            return self.do_call(st, f, ins)
        elif op in ('zext', 'sext', 'trunc'):
            st.env[ins.res] = self.cast(st, op, a[0], self.val(st, a[0], a[1], f), a[2])
        elif op == 'ptrtoint':
            st.env[ins.res] = self.ptr2int(st, self.val(st, PTR, a[1], f))
        elif op == 'inttoptr':
            st.env[ins.res] = self.int2ptr(st, self.val(st, a[0], a[1], f))
        elif op == 'select':
            c = self.val(st, BOOL, a[0], f)
            x, y = self.val(st, a[1], a[2], f), self.val(st, a[1], a[3], f)
            if isinstance(x, PtrV) and not isinstance(c.z, bool) and not (x.b == y.b):
                # a pointer into one of two blocks: use what the path says
                if self.prove_qf(st, c.z):
                    c = BoolV(True)
                elif self.prove_qf(st, z3.Not(c.z)):
                    c = BoolV(False)
            st.env[ins.res] = self.ite(st, c, x, y)
        elif op == 'alloca':
            n = 1
            if a[1] is not None:
                nn = self.val(st, I64, a[1], f)
                n = self.sv(st, nn).const()
                if n is None:
                    raise Unsupported('dynamic alloca')
            p = self.alloc(st, Lin(n * f.module.sizeof(a[0])), kind='stack')
            key = 'allocas%d' % st.depth
            st.user[key] = st.user.get(key, ()) + (p.b,)
            st.env[ins.res] = p
        elif op == 'atomicrmw':
            p = self.val(st, PTR, a[1], f)
            v = self.val(st, a[2], a[3], f)
            old = self.load(st, a[2], p, ins)
            st.env[ins.res] = old
            if a[0] in ('add', 'sub'):
                l = self.sv(st, old) + (self.sv(st, v) if a[0] == 'add' else -self.sv(st, v))
                new = self.wrap(st, l, v.w, 's')
            elif a[0] == 'xchg':
                new = v
            elif a[0] in ('or', 'and', 'xor'):
                new = self.bitop(st, a[0], old, v, ins)
            else:
                raise Unsupported('atomicrmw ' + a[0])
            self.storev(st, a[2], new, p, ins, check=False)
        elif op == 'cmpxchg':
            p = self.val(st, PTR, a[0], f)
            cmpv = self.val(st, a[1], a[2], f)
            new = self.val(st, a[1], a[3], f)
            old = self.load(st, a[1], p, ins)
            c = self.icmp(st, 'eq', old, cmpv)
            res = []
            for s, side in self.fork(st, c):
                if side:
                    self.storev(s, a[1], new, p, ins, check=False)
                s.env[ins.res] = AggV([old, BoolV(side)])
                res.append(s)
            return res
        elif op == 'extractvalue':
            st.env[ins.res] = self.val(st, a[0], a[1], f).v[a[2]]
        elif op == 'freeze':
            st.env[ins.res] = self.val(st, a[0], a[1], f)
        elif op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'lshr', 'ashr'):
            x, y = self.val(st, a[0], a[1], f), self.val(st, a[0], a[2], f)
            st.env[ins.res] = self.binop(st, op, x, y, a[3], ins)
        else:
            raise Unsupported('instruction %s' % ins.text)
        return None

    def ite(self, st, c, x, y):
        if isinstance(c.z, bool):
            return x if c.z else y
        if isinstance(x, PtrV):
            def m(p, q):
                return p if p == q else atom(z3.If(c.z, p.z, q.z))
            return PtrV(m(x.b, y.b), m(x.o, y.o))
        if isinstance(x, BoolV):
            return BoolV(z3.If(c.z, Z(x.z), Z(y.z)))
        if x.s is not None and y.s is not None:
            p, q, v = x.s, y.s, 's'
        elif x.u is not None and y.u is not None:
            p, q, v = x.u, y.u, 'u'
        else:
            p, q, v = self.sv(st, x), self.sv(st, y), 's'
        if p == q:
            return x
        r1, r2 = st.range(p), st.range(q)
        rng = (min(r1[0], r2[0]), max(r1[1], r2[1]))
        l = atom(z3.If(c.z, p.z, q.z))
        if rng[0] != NINF and rng[1] != PINF:
            st.rng[l.t[0][0]] = rng
        return IntV(x.w, s=l) if v == 's' else IntV(x.w, u=l)

    def cast(self, st, op, t, v, t2):
        w2 = t2.n
        if isinstance(v, BoolV):
            if op == 'zext':
                return self.b2i(v, w2)
            if op == 'sext':
                if isinstance(v.z, bool):
                    return self.iconst(w2, -1 if v.z else 0)
                return IntV(w2, s=atom(z3.If(v.z, z3.IntVal(-1), z3.IntVal(0)), (-1, 0)))
        tg = v.tag if v.tag and v.tag[0] == 'tab' else None
        if op == 'zext':
            u = self.uv(st, v)
            return IntV(w2, s=u, u=u, tag=tg)
        if op == 'sext':
            s = self.sv(st, v)
            lo, _ = st.range(s)
            return IntV(w2, s=s, u=s if lo >= 0 else None, tag=tg if lo >= 0 else None)
        if w2 == 1:
            u = v.u if v.u is not None else self.sv(st, v)
            lo, hi = st.range(u)
            if lo >= 0 and hi <= 1:
                return mkcmp('ne', u)
            return BoolV(u.z % 2 == 1)
        l = v.s if v.s is not None else v.u
        return self.wrap(st, l, w2)

    ADDR = z3.Function('addr', INT, INT)

    def ptr2int(self, st, p):
        b = p.b.const()
        if b == -1:
            return self.wrap(st, p.o, 64, 's')
        if b == 0:
            return self.wrap(st, p.o, 64)
        a = atom(self.ADDR(p.b.z))
        return IntV(64, u=a + p.o, tag=('ptr', p))

    def int2ptr(self, st, v):
        if v.tag and v.tag[0] == 'ptr':
            return v.tag[1]
        s = self.sv(st, v)
        c = s.const()
        if c is not None:
            return PtrV(0 if c == 0 else -1, c)
        lo, hi = st.range(s)
        if lo > 0 or hi < 0:
            return PtrV(-1, s)
        return PtrV(atom(z3.If(s.z == 0, z3.IntVal(0), z3.IntVal(-1)), (-1, 0)), s)

    def binop(self, st, op, x, y, fl, ins):
        if isinstance(x, BoolV):
            a, b = Z(x.z), Z(y.z)
            if op == 'xor':
                if y.z is True:
                    return x.neg()
                if y.z is False:
                    return x
                return BoolV(z3.Xor(a, b))
            if op == 'and':
                return BoolV(z3.And(a, b))
            if op == 'or':
                return BoolV(z3.Or(a, b))
            raise Unsupported('i1 ' + op)
        w = x.w
        M, H = 1 << w, 1 << (w - 1)
        if op in ('add', 'sub', 'mul'):
            if op == 'sub' and x.tag and y.tag and x.tag[0] == y.tag[0] == 'ptr':
                p, q = x.tag[1], y.tag[1]
                self.oblige(st, 'pointer difference within one block', mkcmp('eq', p.b - q.b, st.rng), ins)
                return self.wrap(st, p.o - q.o, 64, 's')
            if 'nsw' in fl:
                p, q = self.sv(st, x), self.sv(st, y)
                l = self.arith(op, p, q)
                lo, hi = st.range(l)
                if not (lo >= -H and hi < H):
                    self.oblige(st, 'no signed overflow in %s' % op, z3.And(l.z >= -H, l.z < H), ins, 'overflow')
                elif not self.mode_dry:
                    self.trivial += 1
                return IntV(w, s=l, u=l if lo >= 0 else None)
            yc = y.s.const() if y.s is not None else None
            if op == 'add' and yc is not None and yc < 0:
                return self.wrap(st, self.uv(st, x) + yc, w, 'u')
            p, q = self.uv(st, x), self.uv(st, y)
            if op == 'mul' and x.s is not None and y.s is not None and x.u is None:
                p, q = x.s, y.s
            return self.wrap(st, self.arith(op, p, q), w, 'u')
        if op in ('shl', 'lshr', 'ashr'):
            n = self.uv(st, y).const()
            if n is None and op == 'shl' and self.uv(st, x).const() == 1:
                # one bit: see bitop
                q = self.uv(st, y)
                self.oblige(st, 'shift by less than the width', z3.And(q.z >= 0, q.z < w), ins, 'overflow')
                if 'nsw' in fl:
                    self.oblige(st, 'no signed overflow in shl', q.z < w - 1, ins, 'overflow')
                l = atom(POW2(q.z), (1, H))
                st.add(z3.And(l.z >= 1, l.z <= H, z3.Implies(q.z < w - 1, l.z <= H // 2)))
                POW2S[l.t[0][0]] = q.z
                v = IntV(w, u=l)
                if self.prove_qf(st, q.z < w - 1):
                    v = IntV(w, s=l, u=l)
                return v
            if n is None:
                raise Unsupported('shift by variable amount')
            if op == 'shl':
                if 'nsw' in fl:
                    l = self.sv(st, x) * (1 << n)
                    lo, hi = st.range(l)
                    if not (lo >= -H and hi < H):
                        self.oblige(st, 'no signed overflow in shl', z3.And(l.z >= -H, l.z < H), ins, 'overflow')
                    return IntV(w, s=l)
                u = self.uv(st, x)
                if n and not st.range(u)[1] < (1 << (w - n)):
                    u = atom(u.z % (1 << (w - n)), (0, (1 << (w - n)) - 1))     # keeps the low bits visibly zero
                    st.add(z3.And(u.z >= 0, u.z < (1 << (w - n))))
                return self.wrap(st, u * (1 << n), w, 'u')
            p = self.uv(st, x) if op == 'lshr' else self.sv(st, x)
            lo, hi = st.range(p)
            if p.const() is not None:
                return self.iconst(w, p.const() >> n)
            r = (lo >> n, hi >> n) if isinstance(lo, int) and isinstance(hi, int) else None
            l = self.patom(st, p.z / (1 << n), r)
            if r:
                st.add(z3.And(l.z >= r[0], l.z <= r[1]))
            return IntV(w, u=l, s=l if (op == 'ashr' or (r and r[1] < H)) else None) if op == 'lshr' else IntV(w, s=l)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            sg = op[0] == 's'
            p, q = (self.sv(st, x), self.sv(st, y)) if sg else (self.uv(st, x), self.uv(st, y))
            self.oblige(st, 'no division by zero', mkcmp('ne', q, st.rng), ins)
            lo, hi = st.range(p)
            qlo, qhi = st.range(q)
            if p.const() is not None and q.const() is not None:
                a, b = p.const(), q.const()
                qq = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
                return self.iconst(w, qq if op[1:] == 'div' else a - b * qq)
            if lo >= 0 and qlo >= 0 or not sg:
                if op[1:] == 'div':
                    l = self.patom(st, p.z / q.z, (0, hi) if isinstance(hi, int) else None)
                    if isinstance(hi, int):
                        st.add(z3.And(l.z >= 0, l.z <= hi))
                else:
                    if hi < qlo:
                        l = p
                    else:
                        l = self.patom(st, p.z % q.z, (0, qhi - 1) if isinstance(qhi, int) else None)
                        st.add(z3.And(l.z >= 0, l.z < q.z))
                return IntV(w, u=l, s=l if st.range(l)[1] < H else None)
            if sg:
                self.oblige(st, 'no signed division overflow', z3.Or(p.z != -H, q.z != -1), ins, 'overflow')
                ap = z3.If(p.z >= 0, p.z, -p.z)
                aq = z3.If(q.z >= 0, q.z, -q.z)
                qq = z3.If((p.z >= 0) == (q.z >= 0), ap / aq, -(ap / aq))
                if op == 'srem' and q.const() is None:
                    # no products of unknowns: the cases of one wrap-around, then an uninterpreted remainder
                    l = atom(z3.If(z3.And(p.z >= 0, p.z < q.z), p.z, z3.If(z3.And(p.z >= q.z, q.z > 0, p.z - q.z < q.z), p.z - q.z, z3.Function('srem', INT, INT, INT)(p.z, q.z))))
                    st.add(z3.And(z3.Implies(z3.And(p.z >= 0, q.z > 0), z3.And(l.z >= 0, l.z < q.z)),
                                  z3.Implies(z3.And(p.z <= 0, q.z > 0), z3.And(l.z <= 0, l.z > -q.z))))
                    st.rng[l.t[0][0]] = (-H, H - 1)
                    return IntV(w, s=l)
                l = atom(qq if op == 'sdiv' else p.z - q.z * qq)
                mx = max(abs(lo), abs(hi)) if isinstance(lo, int) and isinstance(hi, int) else H
                st.rng[l.t[0][0]] = (max(-mx, -H), min(mx, H - 1)) if l.t else None
                return IntV(w, s=l)
        return self.bitop(st, op, x, y, ins)

    def arith(self, op, p, q):
        if op == 'add':
            return p + q
        if op == 'sub':
            return p - q
        if p.const() is not None:
            return q * p.const()
        if q.const() is not None:
            return p * q.const()
        if self.abstract_nl:
            return atom(z3.Function('mul', INT, INT, INT)(p.z, q.z))
        return atom(p.z * q.z)

    XOR = z3.Function('xor8', INT, INT, INT)

    def bitop(self, st, op, x, y, ins):
        w = x.w
        M, H = 1 << w, 1 << (w - 1)
        if x.s is not None and x.s.const() is not None and not (y.s is not None and y.s.const() is not None):
            x, y = y, x
        yc = y.u.const() if y.u is not None else None
        xc = x.u.const() if x.u is not None else None
        if xc is not None and yc is not None:
            return self.iconst(w, {'and': xc & yc, 'or': xc | yc, 'xor': xc ^ yc}[op])
        if x.tag and y.tag and x.tag[0] == y.tag[0] == 'bytes' and len(x.tag[1]) == len(y.tag[1]):
            return self.word(st, w, [self.bytebit(op, p, q) for p, q in zip(x.tag[1], y.tag[1])])
        if yc is not None:
            if op == 'and' and x.tag and x.tag[0] == 'tab' and yc:
                es, base, vals = table(x.tag[1])
                l = self.patom(st, tab_expr(x.tag[2], [(j - base, v & yc) for j, v in enumerate(vals)]), (0, yc))
                st.add(z3.And(l.z >= 0, l.z <= yc))
                return IntV(w, s=l if yc < H else None, u=l)
            if op == 'and':
                if yc == 0:
                    return self.iconst(w, 0)
                if yc == M - 1:
                    return x
                # contiguous bit mask 2^a..2^b
                lowb = (yc & -yc).bit_length() - 1
                m = yc >> lowb
                if (m & (m + 1)) == 0:
                    u = self.uv(st, x)
                    nb = m.bit_length()
                    lo, hi = st.range(u)
                    q = u
                    if lowb:
                        q = atom(u.z / (1 << lowb))
                        if isinstance(hi, int):
                            st.rng[q.t[0][0]] = (0, hi >> lowb)
                            st.add(z3.And(q.z >= 0, q.z <= (hi >> lowb)))
                    lo2, hi2 = st.range(q)
                    if not (lo2 >= 0 and hi2 < (1 << nb)):
                        if lowb + nb == w:
                            pass
                        q2 = atom(q.z % (1 << nb), (0, (1 << nb) - 1))
                        st.add(z3.And(q2.z >= 0, q2.z < (1 << nb)))
                        q = q2
                    l = q * (1 << lowb)
                    r = st.range(l)
                    return IntV(w, u=l, s=l if r[1] < H else None)
            if op in ('or', 'xor') and yc == 0:
                return x
            if op == 'xor' and yc == M - 1:
                return IntV(w, u=(M - 1) - self.uv(st, x))
            if op in ('or', 'xor') and yc:
                m = yc >> ((yc & -yc).bit_length() - 1)
                if (m & (m + 1)) == 0:      # contiguous bits: x|c = x+c-(x&c), x^c = x+c-2(x&c)
                    common = self.uv(st, self.bitop(st, 'and', x, self.iconst(w, yc), ins))
                    l = self.uv(st, x) + yc - common * (1 if op == 'or' else 2)
                    lo, hi = st.range(self.uv(st, x))
                    lo2, hi2 = (yc, M - 1 if not isinstance(hi, int) else min(M - 1, (1 << max(hi.bit_length(), yc.bit_length())) - 1)) if op == 'or' else (0, M - 1)
                    rl, rh = st.range(l)
                    if not (rl >= lo2 and rh <= hi2):
                        v = self.fresh('bits', INT, (lo2, hi2))
                        st.add(z3.And(v.z == l.z, v.z >= lo2, v.z <= hi2))
                        l = v
                    return IntV(w, u=l)
        for p, q in ((x, y), (y, x)):
            ql = q.u if q.u is not None else q.s
            n = POW2S.get(ql.t[0][0]) if ql is not None and len(ql.t) == 1 and ql.t[0][1] == 1 and ql.c == 0 else None
            if n is None or op == 'xor':
                continue
            # and/or with one bit: BIT(v, n) is bit n of v
            pu = self.uv(st, p)
            if op == 'and':
                l = atom(z3.If(BIT(pu.z, n), ql.z, 0), (0, H))
                return IntV(w, u=l)
            r = self.fresh('or', INT, (0, M - 1))
            j = z3.Const('j?bit', INT)
            st.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), BIT(r.z, j) == z3.Or(BIT(pu.z, j), j == n)), patterns=[BIT(r.z, j)]))
            st.add(z3.And(r.z >= pu.z, r.z >= ql.z, r.z <= pu.z + ql.z, z3.Implies(z3.And(pu.z < H, ql.z < H), r.z < H)))
            return IntV(w, u=r)
        xs = x.s if x.s is not None else x.u
        # boolean-valued operands
        def isb(v):
            l = v.u if v.u is not None else v.s
            lo, hi = st.range(l)
            return lo >= 0 and hi <= 1
        if isb(x) and isb(y):
            bx, by = mkcmp('ne', self.uv(st, x), st.rng), mkcmp('ne', self.uv(st, y), st.rng)
            e = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](Z(bx.z), Z(by.z))
            return self.b2i(BoolV(e), w)
        if op in ('or', 'xor', 'and'):
            for p, q in ((self.uv(st, x), self.uv(st, y)), (self.uv(st, y), self.uv(st, x))):
                if p.const() is not None or not p.divisible(2):
                    continue
                g = 2
                while g < M and p.divisible(g * 2):
                    g *= 2
                hi = st.range(q)[1]
                if (isinstance(hi, int) and hi < g) or self.prove_qf(st, q.z < g):     # no common bits
                    return self.iconst(w, 0) if op == 'and' else IntV(w, u=p + q)
        h = st.user.get('bitop')
        if h:
            r = h(self, st, op, x, y, ins)
            if r is not None:
                return r
        # uninterpreted but deterministic; bounds for and/or
        u, v = self.uv(st, x), self.uv(st, y)
        if st.range(u)[1] < 256 and st.range(v)[1] < 256:
            l = atom(self.bytebit(op, u.z, v.z), (0, 255))
            st.add(z3.And(l.z >= 0, l.z <= 255))
            return IntV(w, u=l, s=l)
        F = z3.Function('%s%d' % (op, w), INT, INT, INT)
        l = atom(F(u.z, v.z), (0, M - 1))
        st.add(z3.And(l.z >= 0, l.z < M))
        if op == 'and':
            st.add(z3.And(l.z <= u.z, l.z <= v.z))
        if op == 'or':
            st.add(z3.And(l.z >= u.z, l.z >= v.z, l.z <= u.z + v.z))
        r = st.range(l)
        return IntV(w, u=l)

    def bytebit(self, op, p, q):
        """bitwise operation on two byte values"""
        return z3.Function(op + 'byte', INT, INT, INT)(p, q)

    def word(self, st, w, parts):
        """integer made of the given byte values (in memory order); only its bytes are known"""
        F = z3.Function('word%d' % w, *([INT] * len(parts) + [INT]))
        l = atom(F(*parts), (0, 2**w - 1))
        st.add(z3.And(l.z >= 0, l.z < 2**w))
        return IntV(w, u=l, tag=('bytes', parts))

    # ---- calls
    def do_call(self, st, f, ins):
        callee, rt, args = ins.a[0], ins.a[1], ins.a[2]
        if callee == 'asm':
            raise Unsupported('inline asm')
        av = [self.val(st, t, v, f) for t, v in args]
        if callee[0] == 'glob':
            return self.call_named(st, f, ins, callee[1], av, rt)
        p = self.val(st, PTR, callee, f)
        b = p.b.const()
        if b is not None and b in self.idinfo and self.idinfo[b][0][0] == 'f':
            return self.call_named(st, self._modof(b, f), ins, self.idinfo[b][0][2], av, rt)
        h = st.user.get('indirect')
        if h:
            rs = h(self, st, p, av, rt, ins)
        else:
            self.oblige(st, 'indirect call through non-NULL pointer', mkcmp('ne', p.b, st.rng), ins)
            rs = self.default_indirect(st, p, av, rt, ins)
        return self._bind(rs, ins)

    def default_indirect(self, st, p, av, rt, ins):
        st.emit(CALL, p.b, *[x for v in av[:2] for x in self.evargs(st, v)])
        return [(st, self.freshval('cbret', rt))]

    def evargs(self, st, v):
        if isinstance(v, PtrV):
            return [v.b, v.o]
        if isinstance(v, IntV):
            return [self.sv(st, v), Lin(0)]
        return [Lin(0), Lin(0)]

    def _modof(self, b, f):
        key, mod = self.idinfo[b]

        class X:
            module = mod
            name = f.name
        return X

    def _bind(self, rs, ins):
        out = []
        for s, v in rs:
            if s.dead:
                continue
            if ins.res is not None:
                s.env[ins.res] = v
            out.append(s)
        return out

    def call_named(self, st, f, ins, name, av, rt):
        if name in self.contracts:
            c = self.contracts[name]
            rs = c(self, st, av, ins)
            if rs is not None:
                self.used_contracts.add(name)
                return self._bind(rs, ins)
        stub = self.stubs.get(name)
        if stub is not None:
            self.used_stubs.add(name)
            return self._bind(stub(self, st, av, ins), ins)
        g = self.resolve(f.module, name)
        if g is not None:
            if g.vararg and len(av) < len(g.params):
                raise Unsupported('vararg arity')
            return self._bind(self.call_fn(st, g, av, ins), ins)
        raise Unsupported('call to %s: no body and no contract' % name)

    # ---- loops: see loops.py
    def do_loop(self, st, f, header, prev, out):
        from .loops import do_loop
        return do_loop(self, st, f, header, prev, out)


from .ir import Ty
BOOL = Ty('i', 1)
I64 = Ty('i', 64)
I32 = Ty('i', 32)
I8 = Ty('i', 8)

CALL, REF, UNREF, FREE, SORT, LOG, MISC = 1, 2, 3, 4, 5, 6, 7


def affine_runs(i, vals):
    runs = []
    j = 0
    n = len(vals)
    while j < n:
        k = j + 1
        if k < n:
            d = vals[k] - vals[j]
            while k + 1 < n and vals[k + 1] - vals[k] == d:
                k += 1
            runs.append((j, k, vals[j], d))
            j = k + 1
        else:
            runs.append((j, j, vals[j], 0))
            j += 1
    e = None
    for a, b, v, d in reversed(runs):
        t = z3.IntVal(v) if d == 0 else (i * d + (v - a * d))
        e = t if e is None else z3.If(i <= b, t, e)
    return e
