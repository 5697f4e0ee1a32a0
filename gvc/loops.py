"""Loops: cut at the header, summarised by inductive invariants.

The state after k iterations is described by functions of a ghost counter k:
phi values F_p(k) (or the closed form p0 + c*k), contents of modified memory blocks A(k).
Everything assumed about iteration k is either
  * true by construction (history: every earlier iteration j < k took one of the body's
    paths back to the header, so that path's condition holds with k:=j), or
  * a candidate invariant proved inductive (entry + preservation) by the solver;
    candidates that cannot be proved are dropped (Houdini)."""
import re
import time
import z3
from .core import *
from .ir import Unsupported
from .exec import NotConcrete, solve, dbg, BOOL, Limit

MAX_UNROLL = 80
DEFS = []


class LoopView:
    """What a user candidate sees: the state at one loop-head visit."""

    def __init__(self, eng, st, fn, header, phis, k, entry):
        self.eng, self.st, self.fn, self.header, self.phis, self.k, self.entry = eng, st, fn, header, phis, k, entry

    def define(self, name, term):
        """a fresh constant equal to the term (about the state before the loop)"""
        c = z3.Const('%s!d%d' % (name, len(DEFS)), term.sort())
        DEFS.append(c)
        self.entry.defs.append(c == term)
        return c

    def ints(self):
        return [(n, v) for n, v in self.phis.items() if isinstance(v, IntV)]

    def ptrs(self):
        return [(n, v) for n, v in self.phis.items() if isinstance(v, PtrV)]

    def s(self, v):
        return v.s.z if v.s is not None else self.eng.sv(self.st, v).z

    def u(self, v):
        return v.u.z if v.u is not None else self.eng.uv(self.st, v).z


def pv_lins(v):
    if isinstance(v, PtrV):
        return [v.b, v.o]
    if isinstance(v, IntV):
        return [v.s if v.s is not None else v.u]
    return []


def unwrap(l):
    """undo wrap atoms: returns the pre-wrap Lin when l is a single wrap atom"""
    n = 0
    while len(l.t) == 1 and l.t[0][1] == 1 and l.t[0][0] in WRAP and n < 4:
        l = WRAP[l.t[0][0]][1] + l.c
        n += 1
    return l


def depends(e, consts, cache):
    """does z3 expr e mention any of the constants/functions (by decl name)?"""
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().name() in consts:
                return True
            st.extend(x.children())
    return False


class Ctx:
    pass


def do_loop(eng, st, f, header, prev, out):
    # 1. concrete unrolling
    r = try_unroll(eng, st, f, header, prev)
    if r is not None:
        res = []
        for o in r:
            if o[0] == 'exit':
                res.append((o[1], o[2], o[3]))
            else:
                out.append(o)
        return res
    if eng.try_sym and uses_table(f, f.loops[header]):
        save = len(eng.obls), eng.trivial, len(out)
        r = sym_unroll(eng, st, f, header, prev, out, eng.try_sym)
        if r is not None:
            return r
        del eng.obls[save[0]:], out[save[2]:]
        eng.trivial = save[1]
    if eng.sym_unroll:
        return sym_unroll(eng, st, f, header, prev, out)
    return cut_loop(eng, st, f, header, prev, out)


def uses_table(f, body):
    """does the loop look at a constant table of the code?"""
    for b in body:
        for i in f.blocks[b]:
            for g in re.findall(r'@([\w.$]+)', i.text):
                ty, init, const, ext = f.module.globals.get(g, (None, None, False, False))
                if const and init is not None and init[0] == 'agg':
                    return True
    return False


def sym_unroll(eng, st, f, header, prev, out, attempt=0):
    """complete unwinding: every path of every iteration; what could go on beyond the limit must be shown infeasible"""
    body = f.loops[header]
    work = [(st.copy(), prev, 0)]
    res = []
    while work:
        s, pv, n = work.pop()
        if attempt and n > attempt:
            return None
        if not attempt and n > eng.sym_unroll:
            if not eng.prove_qf(s, z3.BoolVal(False), 5.0):
                eng.oblige(s, 'loop %s ends within %d iterations' % (f.name, eng.sym_unroll), z3.BoolVal(False))
            continue
        for o in eng.run_header(s, f, header, pv, body):
            if o[0] == 'back':
                work.append((o[1], o[2], n + 1))
            elif o[0] == 'exit':
                res.append((o[1], o[2], o[3]))
            else:
                out.append(o)
    return res


def try_unroll(eng, st, f, header, prev):
    body = f.loops[header]
    # quick filter: some exit branch condition must be able to become concrete
    saved_obls = len(eng.obls)
    saved_triv = eng.trivial
    saved_unroll = st.user.get('unroll')
    s = st.copy()
    s.user['unroll'] = (f, body)
    work = [(s, prev, 0)]
    outs = []
    cuts = eng.stats['loops']
    try:
        while work:
            s, pv, n = work.pop()
            if n > MAX_UNROLL or (n > 1 and eng.stats['loops'] > cuts):
                raise NotConcrete()
            rs = eng.run_header(s, f, header, pv, body)
            for o in rs:
                if o[0] == 'back':
                    work.append((o[1], o[2], n + 1))
                else:
                    outs.append(o)
            if len(outs) + len(work) > eng.unroll_paths:
                raise NotConcrete()
    except NotConcrete:
        del eng.obls[saved_obls:]
        eng.trivial = saved_triv
        return None
    for o in outs:
        if saved_unroll is None:
            o[1].user.pop('unroll', None)
        else:
            o[1].user['unroll'] = saved_unroll
    return outs


def run_header(self, st, f, header, prev, body):
    """One iteration starting at header from edge prev (phis evaluated)."""
    ph = self.phis(f, header)
    vals = [self.val(st, i.a[0], i.a[1][prev], f) for i in ph]
    for i, v in zip(ph, vals):
        st.env[i.res] = v
    return self.run(st, f, header, None, body, header)


from .exec import Engine
Engine.run_header = run_header


def cut_loop(eng, st, f, header, prev, out):
    eng.stats['loops'] += 1
    body = f.loops[header]
    ph = eng.phis(f, header)
    st = st.copy()
    unroll_saved = st.user.pop('unroll', None)
    init = {i.res: eng.val(st, i.a[0], i.a[1][prev], f) for i in ph}
    ginit = dict(st.g)
    name = '%s/%s' % (f.name, header)
    eng.names += 1
    uid = eng.names
    karr = z3.Const('k!%d' % uid, INT)
    kz = karr
    kl = atom(kz)
    # description of each phi: ('const',) | ('aff', c, view) | ('free',)
    desc = {}
    for p in init:
        desc[p] = ['free', None, None]
    gdesc = {g: ['free', None] for g in ginit}
    mods = {}       # (kind, blockkey) -> Lin block ; or (kind, None) for full havoc
    forced_free = set(eng.demoted.get(('demote', f.name, header), ()))

    def fapp(nm, sort, arg):
        return z3.Function('%s!%d' % (nm, uid), INT, sort)(arg)

    def phi_val(p, k, kL):
        v0 = init[p]
        d = desc[p]
        if d[0] == 'const':
            return v0
        if isinstance(v0, PtrV):
            if d[0] == 'aff':
                return PtrV(v0.b, v0.o + kL * d[1])
            if d[0] == 'newblk':        # replaced by a newly allocated block in every iteration
                return PtrV(v0.b + kL, v0.o)
            if d[0] == 'off':
                return PtrV(v0.b, atom(fapp('F_%s_o' % p, INT, k)))
            return PtrV(atom(fapp('F_%s_b' % p, INT, k)), atom(fapp('F_%s_o' % p, INT, k)))
        if isinstance(v0, BoolV):
            return BoolV(fapp('F_%s' % p, z3.BoolSort(), k))
        if d[0] == 'aff':
            base = v0.s if d[2] == 's' else v0.u
            l = base + kL * d[1]
            return IntV(v0.w, s=l) if d[2] == 's' else IntV(v0.w, u=l)
        if d[2] == 'u':
            return IntV(v0.w, u=atom(fapp('F_%s' % p, INT, k)))
        return IntV(v0.w, s=atom(fapp('F_%s' % p, INT, k)))

    def type_facts(s, p, v):
        if isinstance(v, IntV):
            w = v.w
            if v.s is not None and v.u is None:
                s.add(z3.And(v.s.z >= -2**(w - 1), v.s.z < 2**(w - 1)))
                _rng(s, v.s, -2**(w - 1), 2**(w - 1) - 1)
            elif v.u is not None and v.s is None:
                s.add(z3.And(v.u.z >= 0, v.u.z < 2**w))
                _rng(s, v.u, 0, 2**w - 1)
        if isinstance(v, PtrV):
            if v.b.const() is None:
                s.add(z3.Implies(v.b.z == 0, v.o.z == 0))

    def _rng(s, l, lo, hi):
        if len(l.t) == 1 and l.t[0][1] == 1:
            a = l.t[0][0]
            o = s.rng.get(a)
            n = (lo - l.c, hi - l.c)
            s.rng[a] = n if o is None else (max(o[0], n[0]), min(o[1], n[1]))

    def havoc(kzv, kL, invs=()):
        h = st.copy()
        h.add(kzv >= 0)
        h.refine('le', -kL)
        for p in init:
            v = phi_val(p, kzv, kL)
            h.env[p] = v
            type_facts(h, p, v)
        for g in ginit:
            d = gdesc[g]
            if d[0] == 'const':
                continue
            if d[0] == 'aff':
                h.g[g] = ginit[g] + kL * d[1]
            else:
                h.g[g] = atom(fapp('G_' + g, INT, kzv))
                if g in ('evn', 'nb'):          # only ever counted up
                    h.add(h.g[g].z >= ginit[g].z)
        for (kind, bk), m in mods.items():
            if m[0] == 'all':
                h.mem[kind] = Node('hv', None, v=fapp('MM_%s' % kind, ARR2, kzv))
            elif m[0] == 'blk':
                h.setblk(kind, m[1], fapp('A_%s_%s' % (kind, blkname(m[1])), ARR, kzv))
            else:
                for i in m[2].values():
                    cv = cell_val(kind, m[1], i, kzv)
                    if kind in CELL:
                        lo, hi = CELL[kind]
                        h.add(z3.And(cv >= lo, cv <= hi))
                        _rng(h, atom(cv), lo, hi)
                    h.store(kind, m[1], i, atom(cv))
        return h

    def cell_val(kind, b, i, k):
        return fapp('C_%s_%s_%s' % (kind, blkname(b), blkname(i)), INT, k)

    def run_body(h):
        fr0 = len(eng.fresh_log)
        marks = {k: h.mem[k] for k in h.mem}
        pc0 = len(h.pc)
        if unroll_saved is not None:
            pass
        outs = eng.run(h, f, header, None, body, header)
        news = eng.fresh_log[fr0:]
        return outs, marks, pc0, news

    iterdep_names = {'k!%d' % uid}

    def is_iterdep(l, news):
        names = {c.decl().name() for c in news} | iterdep_names
        return depends(l.z, names, None)

    # ---- dry runs to a fixpoint of (desc, mods)
    inner_loops = any(hd != header and hd in body for hd in f.loops)
    onlyuser = st.user.get('onlyuser', False)
    onlyuser = bool(onlyuser(st) if callable(onlyuser) else onlyuser)
    for attempt in range(12):
        eng.mode_dry += 1
        eng.shape += onlyuser
        try:
            h = havoc(kz, kl)
            hg, henv = dict(h.g), dict(h.env)
            outs, marks, pc0, news = run_body(h)
        finally:
            eng.mode_dry -= 1
            eng.shape -= onlyuser
        changed = stale = False
        backs = [o for o in outs if o[0] == 'back']
        if not backs:
            break
        # writes
        def setall(kind):
            for key in [x for x in mods if x[0] == kind]:
                del mods[key]
            mods[(kind, None)] = ('all',)
        for o in outs:
            s2 = o[1]
            for kind in s2.mem:
                n = s2.mem[kind]
                while n is not marks[kind]:
                    if n is None:
                        raise Unsupported('loop %s: lost memory chain' % name)
                    if (kind, None) in mods:
                        break
                    if n.t in ('base', 'hv'):
                        setall(kind)
                        changed = True
                        break
                    b = n.b
                    key = (kind, b.key())
                    if is_iterdep(b, news):
                        setall(kind)
                        changed = True
                    elif o[0] == 'back':
                        cell = n.t == 'st' and n.i.const() is not None
                        m = mods.get(key)
                        if m is None:
                            mods[key] = ('cells', b, {n.i.key(): n.i}) if cell else ('blk', b)
                            changed = True
                        elif m[0] == 'cells':
                            if not cell or len(m[2]) > 40:
                                mods[key] = ('blk', b)
                                changed = True
                            elif n.i.key() not in m[2]:
                                m[2][n.i.key()] = n.i
                                changed = True
                    n = n.prev
        # blocks that alias ambiguously
        for kind in set(k for k, _ in mods):
            bs = [m[1] for (k, bk), m in mods.items() if k == kind and bk is not None]
            if any(syneq(bs[i], bs[j]) is None for i in range(len(bs)) for j in range(i)):
                setall(kind)
                changed = True
        # phi steps
        nd = {}
        for i in ph:
            p = i.res
            nexts = [eng.val(o[1], i.a[0], i.a[1][o[2]], f) for o in backs]
            nd[p] = classify(eng, init[p], henv[p], nexts, p in forced_free, kl)
        for p in init:
            if nd[p] != desc[p] and not (desc[p][0] == 'aff' and nd[p][0] == 'aff' and desc[p][1] == nd[p][1]):
                if desc[p][0] in ('const', 'aff', 'off', 'newblk') and nd[p][0] not in ('const',) and nd[p] != desc[p]:
                    forced_free.add(p)
                    nd[p] = ['free', None, desc[p][2]]
                desc[p] = nd[p]
                changed = True
                if attempt == 0:
                    stale = True
        if stale:
            mods.clear()        # found while nothing was known of the loop variables
        for g in ginit:
            steps = set()
            for o in backs:
                d = o[1].g[g] - hg[g]
                steps.add(d.const())
            c = steps.pop() if len(steps) == 1 else None
            n = ['const', 0] if c == 0 else ['aff', c] if c is not None else ['free', None]
            if n != gdesc[g]:
                if gdesc[g][0] in ('const', 'aff'):
                    n = ['free', None]
                if n != gdesc[g]:
                    gdesc[g] = n
                    changed = True
        if not changed:
            break
    else:
        raise Unsupported('loop %s: no fixpoint' % name)

    if not backs:
        # body never returns to the header: not really a loop on this path
        eng_outs = run_body(havoc_first(st, init))[0]
        return finish(eng_outs, out, unroll_saved)

    # ---- check wrap-free closed forms; demote those that fail (via Houdini below)
    kn = kz + 1
    knl = kl + 1

    def at_entry(e):
        return z3.substitute(e, (kz, z3.IntVal(0)))

    def subst_iter(e, j, news):
        """e (about iteration k) restated for iteration j."""
        pairs = [(kz, j)]
        for c in news:
            fnn = z3.Function('h_%s' % c.decl().name(), INT, c.sort())
            pairs.append((c, fnn(j)))
        return z3.substitute(e, *pairs)

    # ---- history
    paths = []
    for o in backs:
        conj = [c for c in o[1].pc[pc0:]]
        if eng.hist_steps:
            for i in ph:
                if desc[i.res][0] == 'free' and isinstance(init[i.res], IntV):
                    nv = eng.val(o[1], i.a[0], i.a[1][o[2]], f)
                    t = phi_val(i.res, kn, knl)
                    conj.append(t.s.z == eng.sv(o[1], nv).z if t.s is not None else t.u.z == eng.uv(o[1], nv).z)
        paths.append((o, conj))
    jv = z3.Const('j!%d' % uid, INT)
    newsnames = {c.decl().name() for c in news} | iterdep_names

    memfns = set()
    for (kind, bk), m in mods.items():
        if m[0] == 'all':
            memfns.add('MM_%s!%d' % (kind, uid))
        elif m[0] == 'blk':
            memfns.add('A_%s_%s!%d' % (kind, blkname(m[1]), uid))
        else:
            for i in m[2].values():
                memfns.add('C_%s_%s_%s!%d' % (kind, blkname(m[1]), blkname(i), uid))

    phifns = {'F_%s!%d' % (p, uid) for p in init} if eng.hist_steps else set()

    def useful(c):
        return not hasq(c) and depends(c, newsnames | memfns | phifns, None)

    def has_sel(c):
        stt = [c]
        while stt:
            x = stt.pop()
            if z3.is_app(x):
                kd = x.decl().kind()
                if kd == z3.Z3_OP_SELECT or (kd == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0):
                    return True
                stt.extend(x.children())
        return False

    newc = {c.decl().name() for c in news}

    def informative(c):
        return has_sel(c) or depends(c, newc, None)

    def hist_formulas():
        """(formula for the instance at one iteration, formula to quantify over j<k)"""
        pcs = [[c for c in conj if useful(c)] for _, conj in paths]
        inst = z3.Or([z3.And(p) if p else z3.BoolVal(True) for p in pcs])
        common = []
        for c in pcs[0]:
            if all(any(c.eq(d) for d in p) for p in pcs[1:]):
                common.append(c)
        qs = [c for c in common if informative(c)]
        if len(pcs) > 1:
            rest = [[c for c in p if not any(c.eq(d) for d in common)] for p in pcs]
            if all(rest):
                o = z3.Or([z3.And(r) for r in rest])
                if informative(o):
                    qs.append(o)
        return inst, qs

    inst, hq = hist_formulas()
    inst_km1 = z3.Implies(kz > 0, subst_iter(inst, kz - 1, news))
    inst_0 = z3.Implies(kz > 0, subst_iter(inst, z3.IntVal(0), news))
    hist = [inst_km1, inst_0]
    if onlyuser:
        hist = []
    elif hq:
        hist += quantify_iter(z3.And(hq) if len(hq) > 1 else hq[0], jv, kz, lambda e, j: subst_iter(e, j, news))

    # ---- candidates: list of (label, function k -> z3 formula) with memory at that k given by the fapps
    cands = []

    def memarr(kind, bk, b, k):
        if bk is None:
            return fapp('MM_%s' % kind, ARR2, k)
        return fapp('A_%s_%s' % (kind, blkname(b)), ARR, k)

    # closed forms with wrap: next == closed(k+1)
    def closed_goal(p, i, o):
        nv = eng.val(o[1], i.a[0], i.a[1][o[2]], f)
        d = desc[p]
        if isinstance(nv, PtrV):
            t = phi_val(p, kn, knl)
            g = []
            if not (nv.b - t.b).const() == 0:
                g.append(nv.b.z == t.b.z)
            if d[0] in ('aff', 'newblk') and not (nv.o - t.o).const() == 0:
                g.append(nv.o.z == t.o.z)
            return g
        if d[0] == 'aff':
            t = phi_val(p, kn, knl)
            a = t.s if d[2] == 's' else t.u
            b = eng.sv(o[1], nv) if d[2] == 's' else eng.uv(o[1], nv)
            if (a - b).const() == 0:
                return []
            return [a.z == b.z]
        return []

    # auto candidates for modified memory
    def writes(o, kind):
        s2 = o[1]
        n = s2.mem[kind]
        ws = []
        while n is not marks[kind] and n.t not in ('base', 'hv'):
            ws.append(n)
            n = n.prev
        return list(reversed(ws))

    for (kind, bk), m in mods.items():
        if m[0] != 'cells':
            continue
        for i in m[2].values():
            v0 = st.get(kind, m[1], i)
            steps = set()
            for o in backs:
                steps.add((o[1].get(kind, m[1], i) - atom(cell_val(kind, m[1], i, kz))).const())
            cl = '~cell %s %s[%s]' % (kind, blkname(m[1]), i.const())

            def mkc(kind=kind, m=m, i=i, v0=v0, c=0, op='=='):
                def cf(k):
                    cv = cell_val(kind, m[1], i, k)
                    t = v0.z + c * k if c else v0.z
                    return cv == t if op == '==' else cv >= t if op == '>=' else cv <= t
                return cf
            if len(steps) == 1 and None not in steps:
                c = steps.pop()
                cands.append((cl + ' == init%+d*k' % c, mkc(c=c)))
                if c < 0 and st.range(v0)[0] >= 0:
                    cands.append((cl + ' >= 0', mkc(v0=Lin(0), op='>=')))
            else:
                cands.append((cl + ' >= init', mkc(op='>=')))
                cands.append((cl + ' <= init', mkc(op='<=')))
                cands.append((cl + ' unchanged', mkc()))

    bmods = {kb: (m[1] if m[0] == 'blk' else None) for kb, m in mods.items() if m[0] != 'cells'}
    auto_cands(eng, st, init, bmods, backs, paths, marks, writes, memarr, subst_iter, news, kz, jv, cands,
               newsnames, uid, useful, fapp, name, phi_val, desc)

    # generic candidates for free phis: monotone / bounds
    for p in init:
        v0 = init[p]
        if desc[p][0] == 'free' and isinstance(v0, IntV):
            def mk(p=p, v0=v0, sign=1):
                def c(k):
                    v = phi_val(p, k, atom(k) if not isinstance(k, int) else Lin(k))
                    if v.s is not None:
                        a, b = v.s.z, eng.sv(st, v0).z
                    else:
                        a, b = v.u.z, eng.uv(st, v0).z
                    return a >= b if sign == 1 else a <= b
                return c
            cands.append(('~%s >= init' % p, mk(sign=1)))
            cands.append(('~%s <= init' % p, mk(sign=-1)))

            def mk2(p=p, v0=v0):
                def c(k):
                    v = phi_val(p, k, atom(k) if not isinstance(k, int) else Lin(k))
                    a, b = (v.s.z, eng.sv(st, v0).z) if v.s is not None else (v.u.z, eng.uv(st, v0).z)
                    return a <= b + Z(k)
                return c
            cands.append(('~%s <= init+k' % p, mk2()))
        if desc[p][0] in ('free', 'off') and isinstance(v0, PtrV):
            def mk3(p=p, v0=v0):
                def c(k):
                    v = phi_val(p, k, atom(k))
                    return v.b.z == v0.b.z
                return c
            if desc[p][0] == 'free':
                cands.append(('%s same block' % p, mk3()))

    # user candidates (evaluated on LoopViews)
    entry_env = dict(st.env)
    st_entry = st.copy()
    st_entry.env.update(init)
    entry_view = LoopView(eng, st_entry, f, header, init, Lin(0), None)
    entry_view.entry = entry_view
    entry_view.defs = []

    def view_at(s, phis_, kL):
        return LoopView(eng, s, f, header, phis_, kL, entry_view)

    makers = eng.loop_cands.get(f.name, []) + eng.loop_cands.get('*', [])
    h0 = havoc(kz, kl)
    hv = view_at(h0, {p: h0.env[p] for p in init}, kl)
    user = []
    for mk in makers:
        got = mk(hv)
        for lab, fun in (got or []):
            user.append((lab, fun))
    for d in entry_view.defs:
        st.add(d)
        hist.append(d)
    if user and onlyuser:
        cands = []
        if eng.shape:
            user = []       # only what the body changes is of interest for now

    # ---- Houdini
    def cand_at_entry(c):
        return at_entry_formula(c)

    items = []   # (label, f_entry, f_k, [f_next per back])
    for lab, c in cands:
        try:
            fk = c(kz)
        except Unsupported:
            continue
        items.append([lab, None, fk, None, 'auto', c])
    for lab, fun in user:
        fk = fun(hv)
        if fk is None:
            continue
        items.append([lab, fun(entry_view), fk, None, 'user', fun])

    base_eqs = entry_eqs(st, init, ginit, bmods, desc, gdesc, phi_val, memarr)
    for (kind, bk), m in mods.items():
        if m[0] == 'cells':
            for i in m[2].values():
                base_eqs.append(cell_val(kind, m[1], i, z3.IntVal(0)) == st.get(kind, m[1], i).z)

    # closed-form goals
    demote = set()
    live = []
    for it in items:
        if it[4] == 'auto':
            goal = at_entry(it[2])
            facts = st.pc + base_eqs
        else:
            goal = it[1]
            facts = st.pc
        if quick(eng, facts, goal, it[0][0] == '~'):
            live.append(it)
        else:
            dbg('   entry-fail', name, it[0])

    # next formulas
    def next_facts(o):
        """definition of the (k+1) symbols by the state at the end of this path"""
        s2 = o[1]
        eqs = []
        for i in ph:
            p = i.res
            nv = eng.val(s2, i.a[0], i.a[1][o[2]], f)
            t = phi_val(p, kn, knl)
            if desc[p][0] == 'free' or desc[p][0] == 'off':
                if isinstance(nv, PtrV):
                    eqs += [t.b.z == nv.b.z, t.o.z == nv.o.z]
                elif isinstance(nv, BoolV):
                    eqs.append(t.z == Z(nv.z))
                elif t.s is not None:
                    eqs.append(t.s.z == eng.sv(s2, nv).z)
                else:
                    eqs.append(t.u.z == eng.uv(s2, nv).z)
        for g in ginit:
            if gdesc[g][0] == 'free':
                eqs.append(fapp('G_' + g, INT, kn) == s2.g[g].z)
        for (kind, bk), m in mods.items():
            if m[0] == 'all':
                eqs.append(memarr(kind, None, None, kn) == s2.mem[kind].mat())
            elif m[0] == 'blk':
                eqs.append(memarr(kind, bk, m[1], kn) == s2.blk(kind, m[1]))
            else:
                for i in m[2].values():
                    eqs.append(cell_val(kind, m[1], i, kn) == s2.get(kind, m[1], i).z)
        for c in news:
            eqs.append(z3.Function('h_%s' % c.decl().name(), INT, c.sort())(kz) == c)
        return eqs

    def next_view(o):
        s2 = o[1]
        phs = {i.res: eng.val(s2, i.a[0], i.a[1][o[2]], f) for i in ph}
        return view_at(s2, phs, knl)

    nf = [(o, None) for o in backs]
    nf = []
    for o in backs:
        e = next_facts(o)
        nf.append((o, e))
    closed = []
    for i in ph:
        if desc[i.res][0] in ('aff', 'off', 'newblk'):
            for bi, o in enumerate(backs):
                for g in closed_goal(i.res, i, o):
                    closed.append((i.res, bi, g))

    def past(live):
        """the same invariants at every earlier visit of the loop head"""
        out = []
        for it in live:
            if it[4] == 'user' and it[0][0] != '=' and not hasq(it[2]) and depends(it[2], allfns, None):
                out += quantify_iter(it[2], jv, kz + 1, lambda e, j: z3.substitute(e, (kz, j)))
        return out

    allfns = set(memfns) | {'F_%s!%d' % (p, uid) for p in init} | {'F_%s_o!%d' % (p, uid) for p in init} | {'F_%s_b!%d' % (p, uid) for p in init}

    def houdini(live, backs_nf):
        while True:
            invs = [it[2] for it in live] + past(live)
            bad = []
            for it in live:
                ok = True
                for bi, (o, eqs) in enumerate(backs_nf):
                    if it[4] == 'auto':
                        goal = z3.substitute(it[2], (kz, kn))
                        facts = o[1].pc + hist + invs + eqs
                    else:
                        goal = it[5](next_view(o))
                        facts = o[1].pc + hist + invs
                    if not quick(eng, facts, goal, it[0][0] == '~'):
                        ok = False
                        if it[4] != 'auto' and eng.lastq != 'sat':
                            eng.gaveup += 1         # what fails later need not be the fault of the code
                        dbg('   step-fail', name, it[0], 'path', o[1].label[-3:])
                        break
                if not ok:
                    bad.append(it)
            if not bad:
                return live
            live = [it for it in live if it not in bad]

    whole = onlyuser and inner_loops and live and not eng.shape
    if whole:
        # the body (its inner loops) under all candidates, until they are inductive
        while True:
            eng.mode_dry += 1
            try:
                h = havoc(kz, kl)
                for c in hist + [it[2] for it in live] + past(live):
                    h.add(c)
                outs = run_body(h)[0]
            finally:
                eng.mode_dry -= 1
            nf = [(o, next_facts(o)) for o in outs if o[0] == 'back']
            was, live = live, houdini(live, nf)
            if len(live) == len(was):
                break
        closed = [(i.res, bi, g) for i in ph if desc[i.res][0] in ('aff', 'off', 'newblk') for bi, (o, _) in enumerate(nf) for g in closed_goal(i.res, i, o)]
    else:
        live = houdini(live, nf)
    invs = [it[2] for it in live] + past(live)
    for p, bi, g in closed:
        o, eqs = nf[bi]
        if not quick(eng, o[1].pc + hist + invs, g):
            demote.add(p)
    if demote:
        dbg('  demote', name, demote)
        # restart with those phis unconstrained
        return cut_loop_forced(eng, st, f, header, prev, out, demote, unroll_saved)

    has_inner = inner_loops and not whole
    if has_inner or len(live) < len(items):
        # one more round: re-run the body with the proved invariants assumed
        if has_inner and live:
            eng.mode_dry += 1
            try:
                h = havoc(kz, kl)
                for c in hist + invs:
                    h.add(c)
                outs, marks2, pc0b, news2 = run_body(h)
            finally:
                eng.mode_dry -= 1
            backs2 = [o for o in outs if o[0] == 'back']
            nf2 = [(o, next_facts(o)) for o in backs2]
            rest = []
            for it in items:
                if it in live:
                    continue
                facts = st.pc + (base_eqs if it[4] == 'auto' else [])
                goal = at_entry(it[2]) if it[4] == 'auto' else it[1]
                if quick(eng, facts, goal):
                    rest.append(it)
            if rest and backs2:
                live = houdini2(eng, live, rest, nf2, hist, kz, kn, next_view, name)
                invs = [it[2] for it in live] + past(live)

    eng.stats['invs'] += len(live)
    if not eng.mode_dry:
        eng.loop_notes.append((name, [it[0] for it in live], {p: desc[p][:2] for p in init}))
        dbg('LOOP', name, 'desc', {p: desc[p] for p in init}, gdesc, 'mods', list(mods), 'invs', [it[0] for it in live])

    # ---- termination: find a measure from the exit conditions
    if eng.termination and not eng.mode_dry:
        termination(eng, st, f, header, body, nf, hist, invs, kz, kn, name, phi_val, init, ph, havoc, desc)

    # ---- final pass with obligations on
    h = havoc(kz, kl)
    for c in hist + invs + base_eqs:
        h.add(c)
    h.user['inloop'] = h.user.get('inloop', ()) + (name,)
    h.user['loopviews'] = h.user.get('loopviews', ()) + (({p: h.env[p] for p in init}, kl, name),)
    outs, _, _, _ = run_body(h)
    for o in outs:
        o[1].user['inloop'] = st.user.get('inloop', ())
    return finish(outs, out, unroll_saved)


def select_terms(e, jv):
    """[(array, index)] of selects / unary function apps whose index mentions jv (array does not)"""
    res = []
    seen = set()
    st = [e]
    jn = {jv.decl().name()}
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if z3.is_select(x):
            if depends(x.arg(1), jn, None) and not depends(x.arg(0), jn, None):
                res.append((x, x.arg(1)))
        elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1 and x.arg(0).sort() == INT:
            if depends(x.arg(0), jn, None):
                res.append((x, x.arg(0)))
        st.extend(x.children())
    return res


def quantify_iter(body, jv, kz, subst, lo=None):
    """forall 0<=j<k. body[k:=j], in one version per distinct index shape so that every
    version has an arithmetic-free trigger"""
    b = subst(body, jv)
    shapes = {}
    jid = jv.get_id()
    for t, idx in select_terms(b, jv):
        l = atom(idx)
        c = dict(l.t).get(jid)
        if c not in (1, -1):
            continue
        base = Lin(l.c, tuple(x for x in l.t if x[0] != jid))
        shapes.setdefault((c, base.key()), (c, base, []))[2].append(t)
    out = []
    rng = z3.And(jv >= 0, jv < kz)
    if not shapes:
        return [z3.ForAll([jv], z3.Implies(rng, b))]
    for c, base, terms in list(shapes.values())[:4]:
        if base.const() == 0 and c == 1:
            f = z3.Implies(rng, b)
            pats = terms
        else:
            jj = (jv - base.z) if c == 1 else (base.z - jv)
            jj = z3.simplify(jj)
            f = z3.substitute(z3.Implies(rng, b), (jv, jj))
            pats = []
            for t in terms:
                p = z3.Select(t.arg(0), jv) if z3.is_select(t) else t.decl()(jv)
                pats.append(p)
            # the body must mention the trigger in the same form
            for t, p in zip(terms, pats):
                tj = z3.substitute(t, (jv, jj))
                f = z3.substitute(f, (tj, p))
        uniq = []
        for p in pats:
            if not any(p.eq(q) for q in uniq):
                uniq.append(p)
        out.append(z3.ForAll([jv], f, patterns=uniq[:6]))
    return out


def finish(outs, out, unroll_saved):
    res = []
    for o in outs:
        if o[0] == 'exit':
            if unroll_saved is not None:
                o[1].user['unroll'] = unroll_saved
            res.append((o[1], o[2], o[3]))
        elif o[0] == 'ret':
            if unroll_saved is not None:
                o[1].user['unroll'] = unroll_saved
            out.append(o)
    return res


def havoc_first(st, init):
    h = st.copy()
    h.env.update(init)
    return h


def cut_loop_forced(eng, st, f, header, prev, out, demote, unroll_saved):
    key = ('demote', f.name, header)
    cur = eng.demoted.get(key, set())
    if demote <= cur:
        raise Unsupported('loop %s/%s: closed form of %s not provable' % (f.name, header, demote))
    eng.demoted[key] = cur | demote
    s = st.copy()
    if unroll_saved is not None:
        s.user['unroll'] = unroll_saved
    return cut_loop(eng, s, f, header, prev, out)




def blkname(b):
    return str(b.key()).replace(' ', '')


def classify(eng, v0, cur, nexts, force, kl):
    if isinstance(v0, PtrV):
        if all(n.b == cur.b and n.o == cur.o for n in nexts):
            # unchanged on every path
            if not force:
                return ['const', None, None]
        sameb = all((n.b - cur.b).const() == 0 for n in nexts)
        steps = {(n.o - cur.o).const() for n in nexts}
        if sameb and len(steps) == 1 and None not in steps and not force:
            return ['aff', steps.pop(), None]
        if sameb:
            return ['off', None, None]
        if not force and v0.b.const() is not None and all((n.b - kl - v0.b).const() == 1 and (n.o - v0.o).const() == 0 for n in nexts):
            return ['newblk', None, None]
        return ['free', None, None]
    if isinstance(v0, BoolV):
        if all((n.z is cur.z) or (not isinstance(n.z, bool) and not isinstance(cur.z, bool) and n.z.eq(cur.z)) for n in nexts) and not force:
            return ['const', None, None]
        return ['free', None, None]
    cl = cur.s if cur.s is not None else cur.u
    steps = set()
    view = None
    natural = set()
    for n in nexts:
        d = None
        for (nl, vw) in ((n.s, 's'), (n.u, 'u')):
            if nl is None:
                continue
            for cc in (cur.s, cur.u):
                if cc is None:
                    continue
                dd = (unwrap(nl) - unwrap(cc)).const()
                if dd is None:
                    dd = (unwrap(nl) - cc).const()
                if dd is None:
                    # difference through a view conversion
                    a, b = unwrap(nl), unwrap(cc)
                    if len((a - b).t) == 2:
                        ua = a
                        m = [k for k, v in a.t if v == 1 and k in WRAP]
                        if len(m) == 1:
                            rest = Lin(a.c, tuple(x for x in a.t if x[0] != m[0]))
                            ua = unwrap(Lin(0, ((m[0], 1),))) + rest
                        dd = (ua - cc).const()
                if dd is not None:
                    d = dd
                    natural.add(vw)
                    break
            if d is not None:
                break
        steps.add(d)
    if len(steps) == 1 and None not in steps:
        c = steps.pop()
        if c == 0 and not force:
            return ['const', None, None]
        if not force:
            # choose the view: signed when the step was computed as a signed (nsw) value
            vs = [n for n in nexts if n.s is None]
            if vs and v0.u is not None:
                return ['aff', c, 'u']
            if vs:
                return ['aff', c, 'u'] if v0.u is not None else ['free', None, 'u']
            if v0.s is not None:
                return ['aff', c, 's']
            return ['aff', c, 'u']
    vu = any(n.s is None for n in nexts)
    if v0.s is None or (vu and v0.u is not None):
        return ['free', None, 'u']
    return ['free', None, 's']


def entry_eqs(st, init, ginit, mods, desc, gdesc, phi_val, memarr):
    eqs = []
    z = z3.IntVal(0)
    for p, v0 in init.items():
        if desc[p][0] in ('free', 'off'):
            t = phi_val(p, z, Lin(0))
            if isinstance(v0, PtrV):
                eqs += [t.b.z == v0.b.z, t.o.z == v0.o.z]
            elif isinstance(v0, BoolV):
                eqs.append(t.z == Z(v0.z))
            elif t.s is not None:
                eqs.append(t.s.z == st.eng.sv(st, v0).z)
            else:
                eqs.append(t.u.z == st.eng.uv(st, v0).z)
    for (kind, bk), b in mods.items():
        if bk is None:
            eqs.append(memarr(kind, bk, b, z) == st.mem[kind].mat())
        else:
            eqs.append(memarr(kind, bk, b, z) == st.blk(kind, b))
    return eqs


def conj(g):
    if z3.is_and(g):
        return [x for c in g.children() for x in conj(c)]
    return [] if z3.is_true(g) else [g]


def quick(eng, facts, goal, cheap=False):
    if cheap:
        facts = [c for c in facts if not hasq(c)]
    if isinstance(goal, bool):
        return goal
    if z3.is_true(goal):
        return True
    t = time.time()
    gs = conj(goal if cheap else z3.simplify(goal))
    qf = None
    r = 'unsat'
    for g in gs:
        r = 'unknown'
        if not cheap and not hasq(g):        # without the quantified facts first: often enough, and never lost in instantiation
            qf = [c for c in facts if not hasq(c)] if qf is None else qf
            if len(qf) < len(facts):
                r = solve(qf, g, 0.5)
        if r != 'unsat':
            t1 = time.time()
            r = solve(facts, g, 0.5 if cheap else eng.inv_timeout)
            if time.time() - t1 > 1:
                dbg('   slow %.1f %s' % (time.time() - t1, r), str(g)[:300].replace('\n', ' '))
        if r != 'unsat':
            break
    eng.lastq = r
    eng.stats['inv_queries'] += 1
    dt = time.time() - t
    eng.stats['inv_time'] += dt
    if eng.deadline and time.time() > eng.deadline:
        raise Limit('time limit')
    return r == 'unsat'


def houdini2(eng, live, rest, nf, hist, kz, kn, next_view, name):
    """extend the inductive set `live` by members of rest, body re-run under live"""
    while True:
        invs = [it[2] for it in live + rest]
        bad = []
        for it in rest:
            for o, eqs in nf:
                if it[4] == 'auto':
                    goal = z3.substitute(it[2], (kz, kn))
                    facts = o[1].pc + invs + eqs
                else:
                    goal = it[5](next_view(o))
                    facts = o[1].pc + invs
                if not quick(eng, facts, goal):
                    bad.append(it)
                    dbg('   step-fail2', name, it[0])
                    break
        if not bad:
            return live + rest
        rest = [it for it in rest if it not in bad]
        if not rest:
            return live


def lin_split(l, kz):
    """l == a + c*k with a independent of k?  returns (a, c) or None"""
    kid = kz.get_id()
    c = 0
    rest = []
    for i, v in l.t:
        if i == kid:
            c = v
        else:
            rest.append((i, v))
    return Lin(l.c, tuple(rest)), c


def auto_cands(eng, st, init, mods, backs, paths, marks, writes, memarr, subst_iter, news, kz, jv, cands,
               newsnames, uid, useful, fapp, name, phi_val, desc):
    x = z3.Const('x!%d' % uid, INT)
    for (kind, bk), b in list(mods.items()):
        per = []
        simple = True
        for o in backs:
            ws = writes(o, kind)
            mine = []
            for n in ws:
                if bk is not None:
                    q = syneq(n.b, b)
                    if q is False:
                        continue
                    if q is None or n.t != 'st':
                        simple = False
                        continue
                elif n.t != 'st':
                    simple = False
                    continue
                mine.append(n)
            per.append(mine)
        full = bk is None
        if full:
            # unchanged blocks: those never written
            blks = []
            for mine in per:
                for n in mine:
                    if not any(n.b == y for y in blks):
                        blks.append(n.b)
            allws = [n for o in backs for n in writes(o, kind)]
            blks = []
            for n in allws:
                if not any(n.b == y for y in blks):
                    blks.append(n.b)
            m0 = st.mem[kind].mat()

            def cu(k, blks=blks, m0=m0, kind=kind):
                M = fapp('MM_%s' % kind, ARR2, k)
                cs = []
                for y in blks:
                    yy = subst_iter(y.z, jv, news)
                    if depends(yy, {jv.decl().name()}, None):
                        cs.append(z3.ForAll([jv], z3.Implies(z3.And(jv >= 0, jv < k), x != yy)))
                    else:
                        cs.append(x != yy)
                return z3.ForAll([x], z3.Implies(z3.And(cs), z3.Select(M, x) == z3.Select(m0, x)), patterns=[z3.Select(M, x)])
            cands.append(('%s: other blocks unchanged' % kind, cu))
            # blocks older than the loop's own allocations
            nb0 = st.g['nb'].z

            def cn(k, m0=m0, kind=kind):
                M = fapp('MM_%s' % kind, ARR2, k)
                return z3.ForAll([x], z3.Implies(x < nb0, z3.Select(M, x) == z3.Select(m0, x)), patterns=[z3.Select(M, x)])
            cands.append(('%s: older blocks unchanged' % kind, cn))
            for bi, mine in enumerate(per):
                for n in mine:
                    bb = n.b.z
                    ii = n.i.z
                    vv = Z(n.v)
                    cond = z3.And([c for c in paths[bi][1] if useful(c)] or [z3.BoolVal(True)]) if len(per) > 1 else None

                    def cw(k, bb=bb, ii=ii, vv=vv, cond=cond, kind=kind):
                        M = fapp('MM_%s' % kind, ARR2, k)
                        B, I, V = (subst_iter(e, jv, news) for e in (bb, ii, vv))
                        g = [jv >= 0, jv < k]
                        if cond is not None:
                            g.append(subst_iter(cond, jv, news))
                        return z3.ForAll([jv], z3.Implies(z3.And(g), z3.Select(z3.Select(M, B), I) == V))
                    cands.append(('%s: written blocks hold' % kind, cw))
            continue
        A0 = st.blk(kind, b)
        if not simple and not any(per):
            continue
        slots = []      # distinct idx over all paths
        for mine in per:
            for n in mine:
                if not any(n.i == y for y in slots):
                    slots.append(n.i)
        if not slots:
            continue
        aff = []
        for i in slots:
            a, c = lin_split(i, kz)
            if depends(a.z, newsnames, None):
                aff = None
                break
            aff.append((a, c))
        if aff is not None and simple:
            def cu(k, aff=aff, A0=A0, kind=kind, b=b, bk=bk):
                A = memarr(kind, bk, b, k)
                cs = []
                for a, c in aff:
                    if c == 0:
                        cs.append(z3.And(k > 0, x == a.z))
                    elif c == 1:
                        cs.append(z3.And(x >= a.z, x < a.z + k))
                    elif c == -1:
                        cs.append(z3.And(x <= a.z, x > a.z - k))
                    elif c > 0:
                        cs.append(z3.And(x >= a.z, x < a.z + c * k))
                    else:
                        cs.append(z3.And(x <= a.z, x > a.z + c * k))
                return z3.ForAll([x], z3.Implies(z3.Not(z3.Or(cs)), z3.Select(A, x) == z3.Select(A0, x)), patterns=[z3.Select(A, x)])
            cands.append(('%s[%s]: outside written range unchanged' % (kind, blkname(b)), cu))
            # content: value variants
            for i, (a, c) in zip(slots, aff):
                variants = []
                pervals = []
                for bi, mine in enumerate(per):
                    v = None
                    for n in mine:
                        if n.i == i:
                            v = Z(n.v)
                    pervals.append(v)
                Ak = memarr(kind, bk, b, kz)

                def content(k, pervals=pervals, a=a, c=c, sub0=False, kind=kind, b=b, bk=bk, A0=A0, Ak=Ak):
                    A = memarr(kind, bk, b, k)
                    if c in (1, -1):
                        jj = (x - a.z) if c == 1 else (a.z - x)
                        pos = x
                        var = x
                        rng = z3.And(x >= a.z, x < a.z + k) if c == 1 else z3.And(x <= a.z, x > a.z - k)
                    elif c == 0:
                        jj = k - 1
                        pos = a.z
                        var = None
                        rng = k > 0
                    else:
                        jj = jv
                        pos = a.z + c * jv
                        var = jv
                        rng = z3.And(jv >= 0, jv < k)
                    cs = []
                    for bi, v in enumerate(pervals):
                        vv = v
                        if vv is None:
                            vv = z3.Select(A0, pos) if not sub0 else z3.Select(A0, pos)
                        else:
                            if sub0:
                                vv = z3.substitute(vv, (Ak, A0))
                            vv = subst_iter(vv, jj, news)
                        g = [rng]
                        if len(pervals) > 1 and not all(p is not None and pervals[0] is not None and p.eq(pervals[0]) for p in pervals):
                            pcs = [cc for cc in paths[bi][1] if useful(cc)]
                            if pcs:
                                pz = z3.And(pcs)
                                if sub0:
                                    pz = z3.substitute(pz, (Ak, A0))
                                g.append(subst_iter(pz, jj, news))
                        cs.append(z3.Implies(z3.And(g), z3.Select(A, pos) == vv))
                        if len(g) == 1:
                            break
                    bodyf = z3.And(cs)
                    if var is None:
                        return bodyf
                    if var is x:
                        return z3.ForAll([x], bodyf, patterns=[z3.Select(A, x)])
                    return z3.ForAll([var], bodyf)
                if any(v is not None for v in pervals):
                    cands.append(('%s[%s]: written contents' % (kind, blkname(b)), content))
                    if any(v is not None and depends(v, {Ak.decl().name()}, None) for v in pervals) or \
                       any(depends(cc, {Ak.decl().name()}, None) for _, cj in paths for cc in cj if useful(cc)):
                        cands.append(('%s[%s]: written contents (from original)' % (kind, blkname(b)),
                                      lambda k, cf=content: cf(k, sub0=True)))
        else:
            # arbitrary indices
            idxs = []
            for bi, mine in enumerate(per):
                for n in mine:
                    idxs.append((bi, n))
            if not simple and not idxs:
                continue

            def cu2(k, idxs=idxs, A0=A0, kind=kind, b=b, bk=bk):
                A = memarr(kind, bk, b, k)
                cs = []
                for bi, n in idxs:
                    ii = subst_iter(n.i.z, jv, news)
                    if not depends(ii, {jv.decl().name()}, None):
                        cs.append(x != ii)
                        continue
                    g = [jv >= 0, jv < k]
                    if len(per) > 1:
                        pcs = [cc for cc in paths[bi][1] if useful(cc)]
                        if pcs:
                            g.append(subst_iter(z3.And(pcs), jv, news))
                    cs.append(z3.ForAll([jv], z3.Implies(z3.And(g), x != ii)))
                return z3.ForAll([x], z3.Implies(z3.And(cs), z3.Select(A, x) == z3.Select(A0, x)), patterns=[z3.Select(A, x)])
            cands.append(('%s[%s]: unwritten unchanged' % (kind, blkname(b)), cu2))
            if kind == 'AL':
                # only goes down
                def cd(k, A0=A0, kind=kind, b=b, bk=bk):
                    A = memarr(kind, bk, b, k)
                    return z3.ForAll([x], z3.Implies(z3.Select(A0, x) == 0, z3.Or(z3.Select(A, x) == 0, x >= st.g['nb'].z)), patterns=[z3.Select(A, x)])
                cands.append(('AL: dead stays dead', cd))
            for bi, n in idxs:
                vv = Z(n.v)

                def cw2(k, bi=bi, n=n, vv=vv, kind=kind, b=b, bk=bk):
                    A = memarr(kind, bk, b, k)
                    ii = subst_iter(n.i.z, jv, news)
                    v = subst_iter(vv, jv, news)
                    g = [jv >= 0, jv < k]
                    if len(per) > 1:
                        pcs = [cc for cc in paths[bi][1] if useful(cc)]
                        if pcs:
                            g.append(subst_iter(z3.And(pcs), jv, news))
                    return z3.ForAll([jv], z3.Implies(z3.And(g), z3.Select(A, ii) == v))
                cands.append(('%s[%s]: written hold' % (kind, blkname(b)), cw2))
            # compaction: indices are a monotone free phi
            for bi, n in idxs:
                i = n.i
                for p in init:
                    if desc[p][0] == 'free' and isinstance(init[p], IntV):
                        cur = phi_val(p, kz, atom(kz))
                        cl = cur.s if cur.s is not None else cur.u
                        if (i - cl).const() is not None or True:
                            def cc2(k, p=p, A0=A0, kind=kind, b=b, bk=bk, dlt=(i - cl)):
                                A = memarr(kind, bk, b, k)
                                v = phi_val(p, k, atom(k))
                                vl = (v.s if v.s is not None else v.u).z
                                return z3.ForAll([x], z3.Implies(x >= vl + 0, z3.Select(A, x) == z3.Select(A0, x)), patterns=[z3.Select(A, x)])
                            cands.append(('%s[%s]: beyond %s unchanged' % (kind, blkname(b), p), cc2))


def termination(eng, st, f, header, body, nf, hist, invs, kz, kn, name, phi_val, init, ph, havoc, desc):
    """Obligation: the loop has a measure, bounded below while it iterates and strictly decreasing.
    Measures tried: linear forms taken from the conditions along back-edge paths, plus the
    spec's own (eng.measures)."""
    def phis_at(k):
        r = {}
        for p in init:
            r[p] = phi_val(p, k, atom(k))
        return r
    measures = []
    for mk in eng.measures.get(f.name, []) + eng.measures.get('*', []):
        for m in mk(eng, havoc(kz, atom(kz)), f, header, {p: phi_val(p, kz, atom(kz)) for p in init}, kz) or []:
            measures.append(m)
    nu = len(measures)
    seen = set()
    for o, eqs in nf:
        for c in o[1].pc:
            if hasq(c):
                continue
            for l in cmp_lins(c):
                if any(i == kz.get_id() for i, _ in l.t) or depends(l.z, {('F_%s!' % p) for p in init}, None) or depends_prefix(l.z, init):
                    if l.key() not in seen:
                        seen.add(l.key())
                        measures.append(l.z)
    for cheap, m in [(False, m) for m in measures[:nu]] + [(x, m) for x in (True, False) for m in measures]:
        if True:
            mn = z3.substitute(m, (kz, kn))
            ok = True
            for o, eqs in nf:
                if not quick(eng, o[1].pc + hist + invs + eqs, z3.And(m >= 0, mn < m), cheap):
                    ok = False
                    break
            if ok:
                eng.oblige_done(st, 'loop terminates', '%s' % name)
                return
    # not found: record a failing obligation
    eng.oblige_fail(st, 'loop terminates (no measure found among %d)' % len(measures), '%s' % name)


def depends_prefix(e, init):
    stt = [e]
    while stt:
        x = stt.pop()
        if z3.is_app(x):
            n = x.decl().name()
            if n.startswith('F_%') or n.startswith('C_'):
                return True
            stt.extend(x.children())
    return False


def cmp_lins(c):
    """linear forms >= 0 implied by comparison c"""
    neg = False
    if z3.is_not(c):
        neg = True
        c = c.arg(0)
    if z3.is_and(c) and not neg:
        return [l for x in c.children() for l in cmp_lins(x)]
    if not z3.is_app(c) or c.num_args() != 2 or c.arg(0).sort() != INT:
        return []
    k = c.decl().kind()
    d = atom(c.arg(0)) - atom(c.arg(1))
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
        return [-d] if not neg else [d]
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
        return [d] if not neg else [-d]
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
        return [d, -d]
    return []




def oblige_done(self, st, nm, where):
    from .exec import Obl
    o = Obl(nm, [], z3.BoolVal(True), where, list(st.label), 'termination')
    o.status = 'unsat'
    o.backend = 'z3'
    self.obls.append(o)


def oblige_fail(self, st, nm, where):
    from .exec import Obl
    o = Obl(nm, [], z3.BoolVal(False), where, list(st.label), 'termination')
    o.status = 'unknown'
    o.backend = 'z3'
    self.obls.append(o)


Engine.oblige_done = oblige_done
Engine.oblige_fail = oblige_fail
