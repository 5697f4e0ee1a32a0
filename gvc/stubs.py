"""Contracts of external functions (GLib, libc, LLVM intrinsics).  Every one of these is an
assumption of the proofs; run.py lists the ones a property actually used."""
import z3
from .core import *
from .exec import Engine, CALL, REF, UNREF, FREE, SORT, LOG, MISC, BOOL
from .ir import Unsupported

STUBS = {}
DOC = {}


def stub(*names, doc=''):
    def d(f):
        for n in names:
            STUBS[n] = f
            DOC[n] = doc or (f.__doc__ or '').strip()
        return f
    return d


ALLK = (1, 2, 4, 8, 'P')


def bkinds(eng, st, b):
    c = b.const()
    k = None
    if c is not None:
        k = eng.blkkinds.get(c)
    if k is None:
        k = st.user.get('bk', {}).get(b.key())
    return k


def set_bkinds(st, b, ks):
    d = dict(st.user.get('bk', {}))
    d[b.key()] = ks
    st.user['bk'] = d


def copy_bytes(eng, st, dst, src, n, ins, fresh_dst=False):
    """contents of [src, src+n) at dst (old contents of src), everything else of dst kept"""
    n = L(n)
    if n.const() == 0:
        return
    ks = bkinds(eng, st, src.b) or bkinds(eng, st, dst.b) or ALLK
    if fresh_dst:
        set_bkinds(st, dst.b, ks)
    c = dst.b.const()
    if dst.o.const() == 0 and c is not None and c >= 1000000 and (st.get('SZ', Lin(0), dst.b) - n).const() == 0:
        fresh_dst = True       # all of a new block
    new = []
    kd = bkinds(eng, st, dst.b)
    for k in ALLK:
        if kd and k not in kd:
            continue        # the destination is never read that way
        sz = 8 if k == 'P' else k
        sub = ('PB', 'PO') if k == 'P' else (k,)
        ok = k in ks and dst.o.divisible(sz) and src.o.divisible(sz)
        for kk in sub:
            D = st.blk(kk, dst.b)
            S = st.blk(kk, src.b)
            A = eng.fresh('cp', ARR)
            if ok:
                i = z3.Const('i!c', INT)
                d, s = dst.o.div(sz).z, src.o.div(sz).z
                if n.divisible(sz):
                    inr = z3.And(i >= d, i < d + n.div(sz).z)
                    inr2 = z3.And(i >= s, i < s + n.div(sz).z)
                else:
                    inr = z3.And(i >= d, (i - d) * sz + sz <= n.z)
                    inr2 = z3.And(i >= s, (i - s) * sz + sz <= n.z)
                new.append((kk, A, z3.ForAll([i], z3.Implies(inr, z3.Select(A, i) == z3.Select(S, i - d + s)), patterns=[z3.Select(A, i)])))
                if not (dst.b == src.b):
                    new.append((kk, A, z3.ForAll([i], z3.Implies(inr2, z3.Select(A, i - s + d) == z3.Select(S, i)), patterns=[z3.Select(S, i)])))
                else:
                    new.append((kk, A, z3.ForAll([i], z3.Implies(inr2, z3.Select(A, i - s + d) == z3.Select(S, i)), patterns=[z3.Select(S, i)])))
                if not fresh_dst:
                    outr = z3.Or(i < d, i * sz >= dst.o.z + n.z)
                    new.append((kk, A, z3.ForAll([i], z3.Implies(outr, z3.Select(A, i) == z3.Select(D, i)), patterns=[z3.Select(A, i)])))
                    if not (dst.b == src.b):
                        new.append((kk, A, z3.ForAll([i], z3.Implies(outr, z3.Select(A, i) == z3.Select(D, i)), patterns=[z3.Select(D, i)])))
            else:
                ax = None
                if not fresh_dst:
                    # other views of the destination: cells outside the range are kept
                    i = z3.Const('i!c', INT)
                    outr = z3.Or(i * sz + sz <= dst.o.z, i * sz >= dst.o.z + n.z)
                    ax = z3.ForAll([i], z3.Implies(outr, z3.Select(A, i) == z3.Select(D, i)), patterns=[z3.Select(A, i)])
                new.append((kk, A, ax))
    done = set()
    for kk, A, ax in new:
        if kk not in done or True:
            if (kk, A.get_id()) not in done:
                st.setblk(kk, dst.b, A)
                done.add((kk, A.get_id()))
        if ax is not None:
            st.pc.append(ax)


def range_ok(eng, st, p, n, ins, what):
    """[p, p+n) inside a live block (n >= 0); nothing required when n == 0"""
    n = L(n)
    if n.const() == 0:
        return
    sz = st.get('SZ', Lin(0), p.b)
    al = st.get('AL', Lin(0), p.b)
    lo, hi = st.range(n)
    cond = z3.And(Z(mkcmp('eq', al - 1).z), Z(mkcmp('le', -p.o, st.rng).z), Z(mkcmp('le', p.o + n - sz, st.rng).z))
    if lo <= 0:
        cond = z3.Implies(n.z > 0, cond)
    cond = z3.simplify(cond)
    eng.oblige(st, 'memory %s: range inside a live block' % what, cond, ins)


@stub('llvm.memcpy.p0.p0.i64', 'memcpy', doc='memcpy(d,s,n): both ranges valid, not overlapping; copies n bytes')
def memcpy(eng, st, a, ins):
    n = eng.uv(st, a[2])
    size = eng.const_size(a[1].b)
    if size is not None and size <= 1024:
        # from a constant of the code (an initializer, a string)
        at, cells = a[1].o.const(), eng.const_cells(a[1].b)
        if n.const() is not None and at is not None and 0 <= at and at + n.const() <= size and not any(o < at < o + z or o < at + n.const() < o + z for o, t, z in cells):
            range_ok(eng, st, a[0], n, ins, 'write (memcpy destination)')
            for off, t, sz in cells:
                if off >= at and off + sz <= at + n.const():
                    eng.storev(st, t, eng.const_load(st, t, PtrV(a[1].b, off)), PtrV(a[0].b, a[0].o + (off - at)), ins, check=False)
            return [(st, a[0])]
        st.store('SZ', 0, a[1].b, L(size))
        st.store('AL', 0, a[1].b, Lin(1))
        for off, t, sz in cells:
            eng.storev(st, t, eng.const_load(st, t, PtrV(a[1].b, off)), PtrV(a[1].b, off), ins, check=False)
    range_ok(eng, st, a[1], n, ins, 'read (memcpy source)')
    range_ok(eng, st, a[0], n, ins, 'write (memcpy destination)')
    if a[0].b == a[1].b:
        eng.oblige(st, 'memcpy: ranges do not overlap', z3.Or(n.z == 0, a[0].o.z + n.z <= a[1].o.z, a[1].o.z + n.z <= a[0].o.z), ins)
    elif syneq(a[0].b, a[1].b) is None:
        eng.oblige(st, 'memcpy: ranges do not overlap', z3.Or(n.z == 0, a[0].b.z != a[1].b.z, a[0].o.z + n.z <= a[1].o.z, a[1].o.z + n.z <= a[0].o.z), ins)
    copy_bytes(eng, st, a[0], a[1], n, ins)
    copy_str(eng, st, a[0], a[1], n)
    return [(st, a[0])]


def copy_str(eng, st, dst, src, n):
    """copying a string with its terminator makes a string of the same length"""
    cs = st.user.get('cstr', ())
    for b, o, l in cs:
        if syneq(b, src.b) is True and (o - src.o).const() == 0 and eng.prove_qf(st, n.z >= l.z + 1):
            keep = tuple(x for x in cs if syneq(x[0], dst.b) is False)
            st.user['cstr'] = keep + ((dst.b, dst.o, l),)
            return


@stub('llvm.memmove.p0.p0.i64', 'memmove', doc='memmove(d,s,n): both ranges valid; copies n bytes')
def memmove(eng, st, a, ins):
    n = eng.uv(st, a[2])
    range_ok(eng, st, a[1], n, ins, 'read (memmove source)')
    range_ok(eng, st, a[0], n, ins, 'write (memmove destination)')
    copy_bytes(eng, st, a[0], a[1], n, ins)
    return [(st, a[0])]


@stub('llvm.memset.p0.i64', 'memset', doc='memset(p,c,n): range valid; sets n bytes')
def memset(eng, st, a, ins):
    n = eng.uv(st, a[2])
    range_ok(eng, st, a[0], n, ins, 'write (memset)')
    cu = eng.uv(st, a[1])
    c = cu.const()
    if n.const() == 0:
        return [(st, a[0])]
    for k in ALLK:
        sz = 8 if k == 'P' else k
        for kk in (('PB', 'PO') if k == 'P' else (k,)):
            D = st.blk(kk, a[0].b)
            A = eng.fresh('ms', ARR)
            st.setblk(kk, a[0].b, A)
            i = z3.Const('i!c', INT)
            d = a[0].o
            outr = z3.Or(i * sz + sz <= d.z, i * sz >= d.z + n.z)
            st.pc.append(z3.ForAll([i], z3.Implies(outr, z3.Select(A, i) == z3.Select(D, i)), patterns=[z3.Select(A, i)]))
            inr = z3.And(i * sz >= d.z, i * sz + sz <= d.z + n.z)
            v = None
            if c == 0:
                v = z3.IntVal(0)
            elif k == 1:
                v = cu.z % 256 if st.range(cu)[1] > 255 else cu.z
            if v is not None:
                st.pc.append(z3.ForAll([i], z3.Implies(inr, z3.Select(A, i) == v), patterns=[z3.Select(A, i)]))
    return [(st, a[0])]


def malloc_size(eng, st, n, zero=False, kind='heap', never_null=False):
    """[(state, ptr)]: NULL for size 0, else a fresh block"""
    out = []
    c = mkcmp('eq', n, st.rng)
    if never_null:
        return [(st, eng.alloc(st, n, zero))]
    for s, isz in eng.fork(st, c):
        if isz:
            out.append((s, NULL))
        else:
            out.append((s, eng.alloc(s, n, zero)))
    return out


@stub('g_malloc', 'g_try_malloc', doc='g_malloc(n): NULL iff n==0, else a fresh block of n bytes (allocation never fails)')
def g_malloc(eng, st, a, ins):
    out = malloc_size(eng, st, eng.uv(st, a[0]))
    if eng.newkinds:
        for s, p in out:
            if p.b.const() != 0:
                set_bkinds(s, p.b, set(eng.newkinds))
    return out


@stub('g_malloc0', 'g_slice_alloc0', doc='g_malloc0 / g_slice_alloc0(n): like g_malloc, zero-filled')
def g_malloc0(eng, st, a, ins):
    return malloc_size(eng, st, eng.uv(st, a[0]), True)


@stub('g_slice_alloc', doc='g_slice_alloc(n): like g_malloc')
def g_slice_alloc(eng, st, a, ins):
    return malloc_size(eng, st, eng.uv(st, a[0]))


def nxs(eng, st, a, i, j, ins):
    x, y = eng.uv(st, a[i]), eng.uv(st, a[j])
    n = eng.arith('mul', x, y)
    lo, hi = st.range(n)
    if not (lo >= 0 and hi < 2**63):
        eng.oblige(st, 'allocation size does not overflow', z3.And(n.z >= 0, n.z < 2**63), ins, 'overflow')
    return n


@stub('g_malloc_n', doc='g_malloc_n(n,s): NULL iff n*s==0, else a fresh block of n*s bytes; n*s must not overflow')
def g_malloc_n(eng, st, a, ins):
    return malloc_size(eng, st, nxs(eng, st, a, 0, 1, ins))


@stub('g_malloc0_n', doc='g_malloc0_n(n,s): zero-filled g_malloc_n')
def g_malloc0_n(eng, st, a, ins):
    return malloc_size(eng, st, nxs(eng, st, a, 0, 1, ins), True)


@stub('g_free', 'free', doc='g_free(p): p is NULL or a live block start; the block dies')
def g_free(eng, st, a, ins):
    out = []
    for s, isn in eng.fork(st, eng.isnull(st, a[0])):
        if not isn:
            h = s.user.get('onfree')
            if h:
                h(eng, s, a[0], ins)
            eng.free(s, a[0], ins, 'g_free')
        out.append((s, None))
    return out


@stub('g_slice_free1', doc='g_slice_free1(size,p): p live block of exactly that size; it dies')
def g_slice_free1(eng, st, a, ins):
    p = a[1]
    sz = st.get('SZ', Lin(0), p.b)
    out = []
    for s, isn in eng.fork(st, eng.isnull(st, p)):
        if not isn:
            eng.oblige(s, 'g_slice_free1: size matches the allocation', mkcmp('eq', sz - eng.uv(s, a[0]), s.rng), ins)
            h = s.user.get('onslicefree')
            if h:
                h(eng, s, p, ins)
            eng.free(s, p, ins, 'g_slice_free1')
        out.append((s, None))
    return out


def realloc_(eng, st, p, n, ins):
    out = []
    for s, isn in eng.fork(st, eng.isnull(st, p)):
        if isn:
            out += malloc_size(eng, s, n)
            continue
        for s2, isz in eng.fork(s, mkcmp('eq', n, s.rng)):
            if isz:
                eng.free(s2, p, ins, 'g_realloc')
                out.append((s2, NULL))
                continue
            old = s2.get('SZ', Lin(0), p.b)
            q = eng.alloc(s2, n)
            lo, hi = s2.range(n - old)
            if lo >= 0:
                m = old
            elif hi <= 0:
                m = n
            elif eng.prove_qf(s2, n.z >= old.z):
                m = old
            elif eng.prove_qf(s2, n.z <= old.z):
                m = n
            else:
                m = atom(z3.If(n.z < old.z, n.z, old.z))
                s2.add(z3.And(m.z <= n.z, m.z <= old.z))
            eng.oblige(s2, 'g_realloc: pointer is the start of its block', mkcmp('eq', p.o, s2.rng), ins)
            copy_bytes(eng, s2, q, PtrV(p.b, 0), m, ins, fresh_dst=True)
            eng.free(s2, PtrV(p.b, 0), ins, 'g_realloc')
            out.append((s2, q))
    return out


@stub('g_realloc', doc='g_realloc(p,n): fresh block holding the first min(old,n) bytes; the old block dies; NULL when n==0')
def g_realloc(eng, st, a, ins):
    return realloc_(eng, st, a[0], eng.uv(st, a[1]), ins)


@stub('g_realloc_n', doc='g_realloc_n(p,n,s): g_realloc(p,n*s); n*s must not overflow')
def g_realloc_n(eng, st, a, ins):
    return realloc_(eng, st, a[0], nxs(eng, st, a, 1, 2, ins), ins)


# ---- reference-counted foreign objects: only counted, through the event trace
def _ref(tag):
    def f(eng, st, a, ins):
        eng.oblige(st, 'reference counted object is not NULL', mkcmp('ne', a[0].b, st.rng), ins)
        st.emit(REF if tag == 'ref' else UNREF, a[0].b, a[0].o)
        return [(st, a[0] if tag == 'ref' else None)]
    return f


for n in ('g_object_ref', 'g_variant_ref', 'g_bytes_ref', 'g_variant_ref_sink', 'g_ptr_array_ref'):
    STUBS[n] = _ref('ref')
    DOC[n] = n + '(o): o not NULL; adds one reference (event REF), returns o'
for n in ('g_object_unref', 'g_variant_unref', 'g_bytes_unref', 'g_ptr_array_unref'):
    STUBS[n] = _ref('unref')
    DOC[n] = n + '(o): o not NULL; drops one reference (event UNREF)'


@stub('g_type_check_instance_cast', 'g_type_check_class_cast', doc='type cast check: identity')
def idcast(eng, st, a, ins):
    return [(st, a[0])]


# ---- abstract strings
REAL = z3.RealSort()
STR = z3.Function('STR', INT, INT, REAL)
_lits = {}


def lit_facts(eng, st, p):
    b = p.b.const()
    if b is None or b not in eng.idinfo or p.o.const() is None:
        return
    key, mod = eng.idinfo[b]
    if key[0] != 'g' or key[2] not in mod.globals:
        return
    ty, init, const, ext = mod.globals[key[2]]
    if init and init[0] == 'bytes':
        s = init[1][p.o.const():].split(b'\0')[0]
    elif init and init[0] == 'zero':
        s = b''
    else:
        return
    st.add(STR(p.b.z, p.o.z) == LIT(st, s))


def LIT(st, s):
    known = st.user.get('lits', ())
    v = z3.Const('lit_' + s.decode('latin1'), REAL)
    if s not in known:
        for t in known:
            w = z3.Const('lit_' + t.decode('latin1'), REAL)
            st.add(v < w if s < t else v > w)
        if s != b'':
            e = z3.Const('lit_', REAL)
        st.user['lits'] = known + (s,)
        # the empty string is the least
    return v


def sval(eng, st, p):
    if st.user.get('charw'):
        raise Unsupported('abstract string after character stores')
    lit_facts(eng, st, p)
    return STR(p.b.z, p.o.z)


def live_str(eng, st, p, ins):
    """abstract strings are only looked at while they exist"""
    if st.user.get('strlive'):
        eng.oblige(st, 'string argument is alive', mkcmp('eq', st.get('AL', Lin(0), p.b) - 1, st.rng), ins)


def cmp_result(eng, st, x, y):
    r = eng.fresh('cmp', INT, (-255, 255))
    st.add(z3.And(r.z >= -255, r.z <= 255))
    st.add((r.z < 0) == (x < y))
    st.add((r.z == 0) == (x == y))
    return IntV(32, s=r)


@stub('strcmp', doc='strcmp(a,b): both non-NULL strings; sign of the comparison in the total order on strings, 0 iff equal; its size is that of a difference of bytes')
def strcmp(eng, st, a, ins):
    for p in a[:2]:
        eng.oblige(st, 'strcmp: argument is not NULL', mkcmp('ne', p.b, st.rng), ins)
        live_str(eng, st, p, ins)
    return [(st, cmp_result(eng, st, sval(eng, st, a[0]), sval(eng, st, a[1])))]


@stub('g_strcmp0', doc='g_strcmp0(a,b): like strcmp, NULL sorts first and equals only NULL')
def g_strcmp0(eng, st, a, ins):
    out = []
    for s, an in eng.fork(st, eng.isnull(st, a[0])):
        for s2, bn in eng.fork(s, eng.isnull(s, a[1])):
            if an and bn:
                out.append((s2, eng.iconst(32, 0)))
            elif an:
                out.append((s2, eng.iconst(32, -1)))
            elif bn:
                out.append((s2, eng.iconst(32, 1)))
            else:
                out.append((s2, cmp_result(eng, s2, sval(eng, s2, a[0]), sval(eng, s2, a[1]))))
    return out


@stub('g_strdup', 'g_strdup_inline', doc='g_strdup(s): NULL for NULL, else a fresh block holding an equal string')
def g_strdup(eng, st, a, ins):
    out = []
    for s, isn in eng.fork(st, eng.isnull(st, a[0])):
        if isn:
            out.append((s, NULL))
            continue
        if s.user.get('strings') == 'bytes':
            n = bytes_strlen(eng, s, a[0], ins)
            q = eng.alloc(s, n + 1)
            copy_bytes(eng, s, q, a[0], n + 1, ins, fresh_dst=True)
        else:
            live_str(eng, s, a[0], ins)
            n = eng.fresh('dupsz', INT, (1, 2**62))
            s.add(n.z >= 1)
            q = eng.alloc(s, n)
            s.add(STR(q.b.z, 0) == sval(eng, s, a[0]))
        out.append((s, q))
    return out


def bytes_strlen(eng, st, p, ins):
    """the number of bytes before the first NUL; obligation: one exists inside the block"""
    h = st.user.get('strlen')
    if h:
        r = h(eng, st, p, ins)
        if r is not None:
            return r
    return str_len(eng, st, p, ins)


@stub('strlen', doc='strlen(s): number of bytes before the first NUL')
def strlen(eng, st, a, ins):
    eng.oblige(st, 'strlen: argument is not NULL', mkcmp('ne', a[0].b, st.rng), ins)
    n = bytes_strlen(eng, st, a[0], ins)
    return [(st, IntV(64, u=n, s=n))]


@stub('llvm.is.constant.i32', 'llvm.is.constant.i64', doc='__builtin_constant_p')
def isconst(eng, st, a, ins):
    return [(st, BoolV(False))]


# ---- varargs (see gvc/prelude.h: va_start/va_arg/va_end are turned into calls of these)
@stub('gvc_va_start', 'gvc_va_end', doc='va_start / va_end: position the cursor at the first variable argument')
def va_start(eng, st, a, ins):
    if ins.a[0][1] == 'gvc_va_start':
        st.user['va_pos'] = Lin(0)
        st.g['va'] = Lin(0)
    return [(st, None)]


@stub('gvc_va_arg_ptr', doc='va_arg(va, pointer): the next variable argument')
def va_arg_ptr(eng, st, a, ins):
    vb, n = st.user['va']       # z3 arrays of blocks/offsets
    i = st.g['va']
    eng.oblige(st, 'va_arg: no argument is read past the terminator', mkcmp('le', i - n, st.rng), ins)
    st.g['va'] = i + 1
    # instances of what the precondition (Case.varargs) says of this argument
    b = z3.Select(vb[0], i.z)
    st.add(z3.Implies(z3.And(i.z >= 0, i.z < n.z), z3.And(b >= 10000, b < 1000000)))
    st.add(z3.Implies(i.z == n.z, b == 0))
    return [(st, PtrV(atom(z3.Select(vb[0], i.z)), atom(z3.Select(vb[1], i.z))))]


@stub('qsort', doc='qsort(base,n,size,cmp): base[0..n) becomes a sorted permutation of itself under cmp (event SORT)')
def qsort(eng, st, a, ins):
    n = eng.uv(st, a[1])
    sz = eng.uv(st, a[2])
    range_ok(eng, st, a[0], eng.arith('mul', n, sz), ins, 'write (qsort)')
    st.emit(SORT, a[0].b, a[0].o, n, sz, a[3].b)
    # contents: permuted; left unconstrained except through the event
    for k in ('PB', 'PO') if sz.const() == 8 else (sz.const(),):
        A = eng.fresh('sorted', ARR)
        D = st.blk(k, a[0].b)
        i = z3.Const('i!c', INT)
        if a[0].o.divisible(sz.const()):
            d = a[0].o.div(sz.const()).z
            st.setblk(k, a[0].b, A)
            st.pc.append(z3.ForAll([i], z3.Implies(z3.Or(i < d, i >= d + n.z), z3.Select(A, i) == z3.Select(D, i)), patterns=[z3.Select(A, i)]))
    return [(st, None)]


RANK = z3.Function('byterank', INT, INT)    # byte-wise (memcmp) order of a 4 or 8 byte value


@stub('memcmp', 'bcmp', doc='memcmp(a,b,n): both ranges valid unless n==0; 0 iff all bytes equal, else the sign of the first difference')
def memcmp(eng, st, a, ins):
    n = eng.uv(st, a[2])
    if n.const() == 0:
        return [(st, eng.iconst(32, 0))]
    range_ok(eng, st, a[0], n, ins, 'read (memcmp)')
    range_ok(eng, st, a[1], n, ins, 'read (memcmp)')
    ks = set(bkinds(eng, st, a[0].b) or {1}) | set(bkinds(eng, st, a[1].b) or {1})
    sz = 1
    if len(ks) == 1:
        k = list(ks)[0]
        k = 8 if k == 'P' else k
        if n.divisible(k) and a[0].o.divisible(k) and a[1].o.divisible(k):
            sz = k
    if 'P' in ks:
        raise Unsupported('memcmp of pointers')
    A, B = st.blk(sz, a[0].b), st.blk(sz, a[1].b)
    da, db, m = a[0].o.div(sz).z, a[1].o.div(sz).z, n.div(sz).z
    i = z3.Const('i!m', INT)

    def eq(lim):
        f = z3.Implies(z3.And(i >= 0, i < lim), z3.Select(A, da + i) == z3.Select(B, db + i))
        out = []
        # one version per array, each with an arithmetic-free trigger
        for X, o in ((A, da), (B, db)):
            j = i - o
            out.append(z3.ForAll([i], z3.Implies(z3.And(j >= 0, j < lim), z3.Select(A, da + j) == z3.Select(B, db + j)),
                                 patterns=[z3.Select(X, i)]))
        return out
    s0 = st.copy()
    for f in eq(m):
        s0.pc.append(f)
    s1 = st
    d = eng.fresh('diff', INT)
    r = eng.fresh('mc', INT, (-2**31, 2**31 - 1))
    s1.add(z3.And(d.z >= 0, d.z < m, r.z >= -2**31, r.z < 2**31))
    s1.add(r.z != 0)
    x, y = z3.Select(A, (a[0].o.div(sz) + d).z), z3.Select(B, (a[1].o.div(sz) + d).z)
    s1.add(x != y)
    if sz == 1:
        s1.add((r.z < 0) == (x < y))
    else:
        s1.add(RANK(x) != RANK(y))
        s1.add((r.z < 0) == (RANK(x) < RANK(y)))
    for f in eq(d.z):
        s1.pc.append(f)
    s1.user['memcmp'] = (d, r)
    s0.user['memcmp'] = (None, None)
    return [(s0, eng.iconst(32, 0)), (s1, IntV(32, s=r))]


# ---- GArray: {data; len} plus the element size in a private cell; elements of size 4 only
GA_SIZE = 40


def ga_get(eng, st, a):
    data = PtrV(st.get('PB', a.b, a.o.div(8)), st.get('PO', a.b, a.o.div(8)))
    n = st.get(4, a.b, (a.o + 8).div(4))
    orig = st.mem and st.find(4, a.b, (a.o + 8).div(4))[1]
    n = eng.uv(st, orig) if isinstance(orig, IntV) else n
    es = st.get(4, a.b, (a.o + 16).div(4)).const()
    if es not in (4, 8):
        raise Unsupported('GArray of unknown element size')
    return data, n, es


def ga_chk(eng, st, a, ins):
    eng.oblige(st, 'GArray argument is not NULL', mkcmp('ne', a.b, st.rng), ins)
    eng.oblige(st, 'GArray argument is live', mkcmp('eq', st.get('AL', Lin(0), a.b) - 1, st.rng), ins)


def ga_put(eng, st, a, n):
    """store the length n (Lin, unsigned 32 bit)"""
    v = eng.wrap(st, n, 32, 'u')
    st.store(4, a.b, (a.o + 8).div(4), eng.sv(st, v), v)


def ga_data(eng, st, a, n, es, defs, ghost=None):
    """new data block of n elements; defs: [(lo, hi, array, shift)]: new[i] = array[i + shift] for lo <= i < hi"""
    old = PtrV(st.get('PB', a.b, a.o.div(8)), st.get('PO', a.b, a.o.div(8)))
    q = eng.alloc(st, n * es)
    set_bkinds(st, q.b, {es})
    for kind in (es, 'OR'):
        A = eng.fresh('ga', ARR)
        i = z3.Const('i!g', INT)
        for lo, hi, src, shift in defs:
            S = src.get(kind) if isinstance(src, dict) else src
            if S is None:
                continue
            x = z3.simplify(i + Z(shift))
            rhs = S if not z3.is_array(S) else z3.Select(S, x)
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= Z(lo), i < Z(hi)), z3.Select(A, i) == rhs), patterns=[z3.Select(A, i)]))
            if z3.is_array(S):
                st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i - Z(shift) >= Z(lo), i - Z(shift) < Z(hi)), z3.Select(A, i - Z(shift)) == z3.Select(S, i)), patterns=[z3.Select(S, i)]))
        st.setblk(kind, q.b, A)
    st.store('PB', a.b, a.o.div(8), q.b)
    st.store('PO', a.b, a.o.div(8), q.o)
    if old.b.const() != 0:
        st.store('AL', 0, old.b, Lin(0))
    ga_put(eng, st, a, n)
    return q


def src_of(st, p, es):
    return {es: st.blk(es, p.b), 'OR': st.blk('OR', p.b)}


@stub('g_array_sized_new', doc='g_array_sized_new(zt,clear,size,reserved): fresh empty array of elements of that size, one reference')
def g_array_sized_new(eng, st, a, ins):
    es = eng.uv(st, a[2]).const()
    if es not in (4, 8):
        raise Unsupported('GArray element size')
    p = eng.alloc(st, Lin(GA_SIZE))
    st.store('PB', p.b, 0, Lin(0))
    st.store('PO', p.b, 0, Lin(0))
    st.store(4, p.b, 2, Lin(0), eng.iconst(32, 0))
    st.store(4, p.b, 4, Lin(es), eng.iconst(32, es))
    st.store(4, p.b, 5, Lin(1), eng.iconst(32, 1))      # references
    return [(st, p)]


def ga_insert(eng, st, arr, pos, vals, cnt, ins):
    data, n, es = ga_get(eng, st, arr)
    out = []
    for s, z in eng.fork(st, mkcmp('eq', cnt, st.rng)):
        if z:
            out.append((s, arr))
            continue
        range_ok(eng, s, vals, cnt * es, ins, 'read (array insertion)')
        eng.oblige(s, 'array length does not overflow', (n + cnt).z < 2**32, ins, 'overflow')
        D = src_of(s, data, es)
        V = dict(src_of(s, vals, es))
        vs = vals.o.div(es)
        V['OR'] = z3.IntVal(-1)
        ga_data(eng, s, arr, n + cnt, es, [(0, pos, D, 0), (pos, pos + cnt, V, vs - pos), (pos + cnt, n + cnt, D, -cnt)])
        out.append((s, arr))
    return out


@stub('g_array_append_vals', doc='g_array_append_vals(a,v,n): n elements copied from v go to the end')
def g_array_append_vals(eng, st, a, ins):
    ga_chk(eng, st, a[0], ins)
    n = ga_get(eng, st, a[0])[1]
    return ga_insert(eng, st, a[0], n, a[1], eng.uv(st, a[2]), ins)


@stub('g_array_prepend_vals', doc='g_array_prepend_vals(a,v,n): n elements copied from v go to the front')
def g_array_prepend_vals(eng, st, a, ins):
    ga_chk(eng, st, a[0], ins)
    return ga_insert(eng, st, a[0], Lin(0), a[1], eng.uv(st, a[2]), ins)


@stub('g_array_insert_vals', doc='g_array_insert_vals(a,pos,v,n): n elements copied from v go to pos (pos <= length required here)')
def g_array_insert_vals(eng, st, a, ins):
    ga_chk(eng, st, a[0], ins)
    n = ga_get(eng, st, a[0])[1]
    pos = eng.uv(st, a[1])
    eng.oblige(st, 'g_array_insert_vals: position within the array', mkcmp('le', pos - n, st.rng), ins)
    return ga_insert(eng, st, a[0], pos, a[2], eng.uv(st, a[3]), ins)


@stub('g_array_set_size', doc='g_array_set_size(a,n): the first min(n,length) elements kept, others unspecified')
def g_array_set_size(eng, st, a, ins):
    ga_chk(eng, st, a[0], ins)
    data, n, es = ga_get(eng, st, a[0])
    m = eng.uv(st, a[1])
    lim = atom(z3.If(n.z < m.z, n.z, m.z))
    ga_data(eng, st, a[0], m, es, [(0, lim, src_of(st, data, es), 0)])
    return [(st, a[0])]


def ga_remove(eng, st, arr, pos, cnt, ins, defs):
    """removal happens in place: the data block stays"""
    data, n, es = ga_get(eng, st, arr)
    off = data.o.div(es)
    if off.const() != 0:
        raise Unsupported('GArray data not at a block start')
    for kind in (es, 'OR'):
        D = st.blk(kind, data.b)
        A = eng.fresh('ga', ARR)
        i = z3.Const('i!g', INT)
        for lo, hi, shift in defs(n):
            x = z3.simplify(i + Z(shift))
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= Z(lo), i < Z(hi)), z3.Select(A, i) == z3.Select(D, x)), patterns=[z3.Select(A, i)]))
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i - Z(shift) >= Z(lo), i - Z(shift) < Z(hi)), z3.Select(A, i - Z(shift)) == z3.Select(D, i)), patterns=[z3.Select(D, i)]))
        st.setblk(kind, data.b, A)
    ga_put(eng, st, arr, n - cnt)
    return [(st, arr)]


def ga_el(eng, st, arr, pos):
    data, n, es = ga_get(eng, st, arr)
    return atom(z3.Select(st.blk(es, data.b), (data.o.div(es) + pos).z))


@stub('g_array_remove_index', doc='g_array_remove_index(a,i): i < length; element i removed in place, the rest keeps its order (event MISC array,position,element,0)')
def g_array_remove_index(eng, st, a, ins):
    ga_chk(eng, st, a[0], ins)
    p = eng.uv(st, a[1])
    n = ga_get(eng, st, a[0])[1]
    eng.oblige(st, 'removed index inside the array', mkcmp('le', p - n + 1, st.rng), ins)
    st.emit(MISC, a[0].b, p, ga_el(eng, st, a[0], p), 0)
    return ga_remove(eng, st, a[0], p, Lin(1), ins, lambda n: [(0, p, 0), (p, n - 1, 1)])


@stub('g_array_remove_range', doc='g_array_remove_range(a,i,n): i+n <= length; those elements removed in place, the rest keeps its order (event MISC array,position,n,1)')
def g_array_remove_range(eng, st, a, ins):
    ga_chk(eng, st, a[0], ins)
    p, c = eng.uv(st, a[1]), eng.uv(st, a[2])
    n = ga_get(eng, st, a[0])[1]
    eng.oblige(st, 'removed range inside the array', (p + c).z <= n.z, ins)
    st.emit(MISC, a[0].b, p, c, 1)
    return ga_remove(eng, st, a[0], p, c, ins, lambda n: [(0, p, 0), (p, n - c, c)])


@stub('g_array_remove_index_fast', doc='g_array_remove_index_fast(a,i): i < length; the last element takes the place of element i (event MISC array,position,element,2)')
def g_array_remove_index_fast(eng, st, a, ins):
    ga_chk(eng, st, a[0], ins)
    p = eng.uv(st, a[1])
    n = ga_get(eng, st, a[0])[1]
    eng.oblige(st, 'removed index inside the array', mkcmp('le', p - n + 1, st.rng), ins)
    st.emit(MISC, a[0].b, p, ga_el(eng, st, a[0], p), 2)
    return ga_remove(eng, st, a[0], p, Lin(1), ins,
                     lambda n: [(0, p, 0), (p + 1, n - 1, 0), (p, atom(z3.If(p.z < n.z - 1, p.z + 1, p.z)), n - 1 - p)])


@stub('g_array_sort', doc='g_array_sort(a,cmp): the elements become a permutation sorted under cmp (event SORT)')
def g_array_sort(eng, st, a, ins):
    ga_chk(eng, st, a[0], ins)
    st.emit(SORT, a[0].b, a[0].o, a[1].b)
    data, n, es = ga_get(eng, st, a[0])
    st.setblk(es, data.b, eng.fresh('sorted', ARR))
    return [(st, None)]


@stub('g_array_free', doc='g_array_free(a,free_data): the array dies; with free_data its data too (NULL returned), else the data is returned')
def g_array_free(eng, st, a, ins):
    ga_chk(eng, st, a[0], ins)
    data, n, es = ga_get(eng, st, a[0])
    out = []
    for s, fr in eng.fork(st, mkcmp('ne', eng.uv(st, a[1]), st.rng)):
        st_ref = s.get(4, a[0].b, (a[0].o + 20).div(4))
        s.emit(FREE, a[0].b, a[0].o)
        s.store('AL', 0, a[0].b, Lin(0))
        if fr:
            if data.b.const() != 0:
                s.store('AL', 0, data.b, Lin(0))
            out.append((s, NULL))
        else:
            out.append((s, data))
    return out


@stub('g_array_ref', doc='g_array_ref(a): one more reference, returns a')
def g_array_ref(eng, st, a, ins):
    ga_chk(eng, st, a[0], ins)
    st.emit(REF, a[0].b, a[0].o)
    return [(st, a[0])]


@stub('g_array_unref', doc='g_array_unref(a): drops one reference')
def g_array_unref(eng, st, a, ins):
    ga_chk(eng, st, a[0], ins)
    st.emit(UNREF, a[0].b, a[0].o)
    return [(st, None)]


# ---- GBytes: a block holding its data pointer (cell 0) and size (cell 1); GVariant byte arrays likewise
def by_chk(eng, st, p, ins, what):
    eng.oblige(st, '%s: GBytes is not NULL' % what, mkcmp('ne', p.b, st.rng), ins)
    eng.oblige(st, '%s: GBytes is live' % what, mkcmp('eq', st.get('AL', Lin(0), p.b) - 1, st.rng), ins)


def by_data(eng, st, p):
    n = st.get(8, p.b, Lin(1))
    if n.const() is None:
        st.add(z3.And(n.z >= 0, n.z <= 2**62))
    return PtrV(st.get('PB', p.b, Lin(0)), st.get('PO', p.b, Lin(0))), n


def n_of(eng, st, n):
    if len(n.t) == 1 and n.c == 0:
        st.rng.setdefault(n.t[0][0], (0, 2**62))
    return IntV(64, s=n, u=n)


@stub('g_bytes_get_data', doc='g_bytes_get_data(b,&n): b live; its data pointer (may be NULL only when empty) and size')
def g_bytes_get_data(eng, st, a, ins):
    by_chk(eng, st, a[0], ins, 'g_bytes_get_data')
    d, n = by_data(eng, st, a[0])
    out = []
    for s, isn in eng.fork(st, eng.isnull(st, a[1])):
        if not isn:
            from .ir import Ty
            eng.storev(s, Ty('i', 64), n_of(eng, s, n), a[1], ins)
        out.append((s, d))
    return out


@stub('g_bytes_get_size', doc='g_bytes_get_size(b): b live; its size')
def g_bytes_get_size(eng, st, a, ins):
    by_chk(eng, st, a[0], ins, 'g_bytes_get_size')
    return [(st, n_of(eng, st, by_data(eng, st, a[0])[1]))]


def new_bytes(eng, st, d, n):
    b = eng.alloc(st, Lin(64))
    st.store('PB', b.b, 0, d.b)
    st.store('PO', b.b, 0, d.o)
    st.store(8, b.b, 1, n, IntV(64, s=n, u=n))
    st.store(8, b.b, 2, Lin(0))       # kind: owned
    return b


@stub('g_bytes_new_take', doc='g_bytes_new_take(d,n): new GBytes owning the block d of n bytes')
def g_bytes_new_take(eng, st, a, ins):
    n = eng.uv(st, a[1])
    range_ok(eng, st, a[0], n, ins, 'handed over (g_bytes_new_take)')
    return [(st, new_bytes(eng, st, a[0], n))]


@stub('g_bytes_new_static', doc='g_bytes_new_static(d,n): new GBytes referring to d')
def g_bytes_new_static(eng, st, a, ins):
    b = new_bytes(eng, st, a[0], eng.uv(st, a[1]))
    st.store(8, b.b, 2, Lin(1))
    return [(st, b)]


@stub('g_bytes_new', doc='g_bytes_new(d,n): new GBytes holding a copy of d[0..n)')
def g_bytes_new(eng, st, a, ins):
    n = eng.uv(st, a[1])
    range_ok(eng, st, a[0], n, ins, 'read (g_bytes_new)')
    q = eng.alloc(st, n)
    copy_bytes(eng, st, q, a[0], n, ins, fresh_dst=True)
    return [(st, new_bytes(eng, st, q, n))]


@stub('g_variant_new_fixed_array', doc='g_variant_new_fixed_array(type,d,n,size): new floating GVariant holding a copy of the n elements (event MISC)')
def g_variant_new_fixed_array(eng, st, a, ins):
    n = eng.arith('mul', eng.uv(st, a[2]), eng.uv(st, a[3]))
    range_ok(eng, st, a[1], n, ins, 'read (g_variant_new_fixed_array)')
    eng.oblige(st, 'g_variant_new_fixed_array: element size is 1', mkcmp('eq', eng.uv(st, a[3]) - 1, st.rng), ins)
    q = eng.alloc(st, n)
    copy_bytes(eng, st, q, a[1], n, ins, fresh_dst=True)
    b = new_bytes(eng, st, q, n)
    st.emit(MISC, a[0].b, a[0].o, b.b)
    return [(st, b)]


@stub('g_variant_new_from_data', doc='g_variant_new_from_data(type,d,n,...): new floating GVariant over d[0..n) (event MISC)')
def g_variant_new_from_data(eng, st, a, ins):
    n = eng.uv(st, a[2])
    range_ok(eng, st, a[1], n, ins, 'read (g_variant_new_from_data)')
    b = new_bytes(eng, st, a[1], n)
    st.emit(MISC, a[0].b, a[0].o, b.b)
    return [(st, b)]


@stub('g_variant_type_checked_', doc='g_variant_type_checked_(s): identity')
def g_variant_type_checked_(eng, st, a, ins):
    return [(st, a[0])]


# ---- signals and sources: event CALL-like counters in a ghost map
@stub('g_signal_handler_disconnect', doc='g_signal_handler_disconnect(o,id): id not 0 and connected, disconnects it (counted per id)')
def g_signal_handler_disconnect(eng, st, a, ins):
    i = eng.uv(st, a[1])
    eng.oblige(st, 'g_signal_handler_disconnect: instance is not NULL', mkcmp('ne', a[0].b, st.rng), ins)
    eng.oblige(st, 'g_signal_handler_disconnect: id is not zero', mkcmp('ne', i, st.rng), ins)
    st.store('OR', 50, i, st.get('OR', Lin(50), i) + 1)
    return [(st, None)]


@stub('g_source_remove', doc='g_source_remove(id): id not 0, removes the source (event MISC)')
def g_source_remove(eng, st, a, ins):
    i = eng.uv(st, a[0])
    eng.oblige(st, 'g_source_remove: id is not zero', mkcmp('ne', i, st.rng), ins)
    st.emit(MISC, i)
    return [(st, eng.iconst(32, 1))]


# ---- strings as bytes
@stub('__errno_location', doc='errno: one cell, not touched by functions whose contract does not mention it')
def errno_loc(eng, st, a, ins):
    return [(st, PtrV(63, 0))]


def errno_set(eng, st, v):
    st.store(4, 63, 0, Lin(v), eng.iconst(32, v))


def str_len(eng, st, p, ins):
    """length of the NUL terminated string at p (obligation: it is one)"""
    for b, o, n in st.user.get('cstr', ()):
        if syneq(b, p.b) is True and (o - p.o).const() == 0:
            return n
    A = st.blk(1, p.b)
    sz = st.get('SZ', Lin(0), p.b)
    i = z3.Const('i!s', INT)
    eng.oblige(st, 'string argument: block is live', mkcmp('eq', st.get('AL', Lin(0), p.b) - 1, st.rng), ins)
    eng.oblige(st, 'string argument is NUL terminated inside its block', z3.And(p.o.z >= 0, z3.Exists([i], z3.And(i >= p.o.z, i < sz.z, z3.Select(A, i) == 0))), ins)
    n = eng.fresh('len', INT, (0, 2**62))
    st.add(z3.And(n.z >= 0, n.z <= 2**62, p.o.z + n.z < sz.z, z3.Select(A, p.o.z + n.z) == 0))
    st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= p.o.z, i < p.o.z + n.z), z3.Select(A, i) != 0), patterns=[z3.Select(A, i)]))
    st.user['cstr'] = st.user.get('cstr', ()) + ((p.b, p.o, n),)
    return n


def isspace(c):
    from .exec import table, TAB_ASCII
    vals = [j for j, v in enumerate(table(TAB_ASCII)[2]) if v & 0x100]
    runs = []
    for v in vals:
        if runs and runs[-1][1] == v - 1:
            runs[-1][1] = v
        else:
            runs.append([v, v])
    return z3.Or(*[z3.And(c >= x, c <= y) if x != y else c == x for x, y in runs])


def forget_str(st, b):
    st.user['cstr'] = tuple(x for x in st.user.get('cstr', ()) if syneq(x[0], b) is False)


@stub('g_strchug', doc='g_strchug(s): leading ASCII white space removed in place')
def g_strchug(eng, st, a, ins):
    p = a[0]
    n = str_len(eng, st, p, ins)
    l = eng.fresh('lead', INT, (0, 2**62))
    A = st.blk(1, p.b)
    i = z3.Const('i!s', INT)
    st.add(z3.And(l.z >= 0, l.z <= n.z))
    st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= p.o.z, i < p.o.z + l.z), isspace(z3.Select(A, i))), patterns=[z3.Select(A, i)]))
    st.add(z3.Not(isspace(z3.Select(A, p.o.z + l.z))))
    B = eng.fresh('chug', ARR)
    st.setblk(1, p.b, B)
    st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= p.o.z, i <= p.o.z + n.z - l.z), z3.Select(B, i) == z3.Select(A, i + l.z)), patterns=[z3.Select(B, i)]))
    if p.o.const() != 0:    # (the patterns would loop)
        st.pc.append(z3.ForAll([i], z3.Implies(i < p.o.z, z3.Select(B, i) == z3.Select(A, i)), patterns=[z3.Select(B, i)]))
    forget_str(st, p.b)
    st.user['lead'] = l
    st.user['chug'] = (p, B)
    st.user['cstr'] = st.user['cstr'] + ((p.b, p.o, n - l),)
    return [(st, p)]


@stub('g_strchomp', doc='g_strchomp(s): trailing ASCII white space removed in place')
def g_strchomp(eng, st, a, ins):
    p = a[0]
    n = str_len(eng, st, p, ins)
    m = eng.fresh('chomped', INT, (0, 2**62))
    A = st.blk(1, p.b)
    i = z3.Const('i!s', INT)
    st.add(z3.And(m.z >= 0, m.z <= n.z))
    st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= p.o.z + m.z, i < p.o.z + n.z), isspace(z3.Select(A, i))), patterns=[z3.Select(A, i)]))
    st.add(z3.Or(m.z == 0, z3.Not(isspace(z3.Select(A, p.o.z + m.z - 1)))))
    B = eng.fresh('chomp', ARR)
    st.setblk(1, p.b, B)
    st.pc.append(z3.ForAll([i], z3.Implies(z3.Or(i < p.o.z + m.z, i > p.o.z + n.z), z3.Select(B, i) == z3.Select(A, i)), patterns=[z3.Select(B, i)]))
    st.add(z3.Select(B, p.o.z + m.z) == 0)
    forget_str(st, p.b)
    st.user['cstr'] = st.user['cstr'] + ((p.b, p.o, m),)
    return [(st, p)]


@stub('strchr', doc='strchr(s,c): first occurrence of c in the string (or its terminator), NULL if none')
def strchr(eng, st, a, ins):
    n = str_len(eng, st, a[0], ins)
    c = eng.uv(st, a[1])
    if st.range(c)[1] > 127:
        raise Unsupported('strchr of an arbitrary character')
    A = st.blk(1, a[0].b)
    o = a[0].o.z
    i = z3.Const('i!s', INT)
    out = []
    none = z3.ForAll([i], z3.Implies(z3.And(i >= o, i <= o + n.z), z3.Select(A, i) != c.z), patterns=[z3.Select(A, i)])
    s0 = st.copy()
    s0.pc.append(none)
    s0.user['strchr'] = (a[0], c, None)
    x = eng.fresh('chr', INT, (0, 2**62))
    st.add(z3.And(x.z >= 0, x.z <= n.z, z3.Select(A, o + x.z) == c.z))
    st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= o, i < o + x.z), z3.Select(A, i) != c.z), patterns=[z3.Select(A, i)]))
    st.user['strchr'] = (a[0], c, x)
    if c.const() != 0:
        out.append((s0, NULL))
    return out + [(st, PtrV(a[0].b, a[0].o + x))]


def strtox(sg):
    lo, hi = (-2**63, 2**63 - 1) if sg else (0, 2**64 - 1)

    def f(eng, st, a, ins):
        n = str_len(eng, st, a[0], ins)
        rec = dict(p=a[0], n=n, base=a[2], A=st.blk(1, a[0].b))
        out = []

        def fin(s, e, v, iv, **kw):
            from .ir import Ty, PTR
            r = dict(rec, e=e, v=v, **kw)
            s.user['num'] = r
            for s2, isn in eng.fork(s, eng.isnull(s, a[1])):
                if not isn:
                    eng.storev(s2, PTR, PtrV(a[0].b, a[0].o + e), a[1], ins)
                out.append((s2, iv))
        # the base is not acceptable (EINVAL)
        bs = eng.sv(st, a[2]).z
        s = st.copy()
        s.add(z3.Or(bs == 1, bs > 36, bs < 0))
        errno_set(eng, s, 22)
        if eng.feasible(s):
            fin(s, L(0), L(0), eng.iconst(64, 0), conv=False, ovf=False)
        # no digits
        s = st.copy()
        fin(s, L(0), L(0), eng.iconst(64, 0), conv=False, ovf=False)
        # a number
        e = eng.fresh('numend', INT, (1, 2**62))
        s = st.copy()
        s.add(z3.And(e.z >= 1, e.z <= n.z))
        v = eng.fresh('num', INT, (lo, hi))
        s.add(z3.And(v.z >= lo, v.z <= hi))
        fin(s, e, v, IntV(64, s=v) if sg else IntV(64, u=v), conv=True, ovf=False)
        # out of range
        for x in ((lo, hi) if sg else (hi,)):
            s = st.copy()
            e = eng.fresh('numend', INT, (1, 2**62))
            s.add(z3.And(e.z >= 1, e.z <= n.z))
            errno_set(eng, s, 34)
            fin(s, e, L(x), eng.iconst(64, x), conv=True, ovf=True)
        return out
    return f


STUBS['g_ascii_strtoll'] = strtox(True)
DOC['g_ascii_strtoll'] = 'g_ascii_strtoll(s,&end,base): longest number prefix of s; value and end; ERANGE and the nearest limit when it does not fit 64 bits; no digits: end = s, 0; bad base: EINVAL'
STUBS['g_ascii_strtoull'] = strtox(False)
DOC['g_ascii_strtoull'] = 'g_ascii_strtoull: likewise, unsigned'


@stub('__ctype_b_loc', doc='ctype table of the C locale')
def ctype_b_loc(eng, st, a, ins):
    from .exec import TAB_CTYPE, TAB_CTYPEP
    if st.user.get('ctype'):
        return [(st, PtrV(TAB_CTYPEP, 0))]
    st.user['ctype'] = True
    st.store('PB', TAB_CTYPEP, 0, Lin(TAB_CTYPE))
    st.store('PO', TAB_CTYPEP, 0, Lin(0))
    st.store('AL', 0, TAB_CTYPEP, Lin(1))
    st.store('SZ', 0, TAB_CTYPEP, Lin(8))
    return [(st, PtrV(TAB_CTYPEP, 0))]
