"""Contracts of gutil_misc.c."""
from gvc.spec import *
from gvc.exec import MISC, REF, UNREF
from gvc.core import PtrV, BoolV, IntV
from gvc.stubs import isspace

SRC = ['gutil_misc']
D = 'gutil_data'
BIG = 2**61


def kept(o, p, n, A=None):
    """n bytes at p as before"""
    A = o.case.arr(1, p) if A is None else A
    b = p.o.z
    return And(forall(lambda i: Select(o.arr(1, p), b + i) == Select(A, b + i), 0, n))


def bytes_at(v, p):
    A = v.arr(1, p)
    b = p.o.z
    return lambda i: Select(A, b + i)


def eqb(f, g, n):
    return forall(lambda i: f(i) == g(i), 0, n)


# ------------------------------------------------------------------ hex
def isx(c):
    return Or(And(c >= 48, c <= 57), And(c >= 65, c <= 70), And(c >= 97, c <= 102))


def dig(c):
    return If(c <= 57, c - 48, If(c <= 70, c - 55, c - 87))


def hexch(v, up):
    return If(v < 10, v + 48, v + (55 if up else 87))


@spec('gutil_hex2bin', ['M01'], SRC)
def _(run):
    for lab in ('NULL string', 'NULL buffer'):
        c = run.case(lab)
        d = c.bytesblk('d', L(16))
        p = c.bytesblk('s', L(32))
        for o in c.call('gutil_hex2bin', NULL if lab == 'NULL string' else p, c.int('len', 64), d if lab == 'NULL string' else NULL):
            o.ensure('NULL', And(o.null(), kept(o, d, 16)))
    c = run.case('bad length')
    d, p = c.bytesblk('d', L(16)), c.bytesblk('s', L(32))
    l = c.int('len', 64)
    c.require(Or(l.s.z <= 0, l.s.z % 2 == 1))
    for o in c.call('gutil_hex2bin', p, l, d):
        o.ensure('NULL', And(o.null(), kept(o, d, 16)))
    c = run.case('even length')
    m = c.nat('m', 1, BIG)
    p, d = c.bytesblk('s', m * 2), c.bytesblk('d', m, L(0), c.nat('room', 0, BIG))
    S = bytes_at(c, p)

    def inv(hv):
        fs = []

        def mk(dm):
            def f(h):
                u = (h.k if isinstance(h.k, (int,)) else h.k).z if not isinstance(h.k, int) else Z(h.k)
                Dm = h.st.blk(1, d.b)
                return forall(lambda i: And(isx(S(2 * i)), isx(S(2 * i + 1)), Select(Dm, i) == 16 * dig(S(2 * i)) + dig(S(2 * i + 1))), 0, u)
            return f
        fs.append(('decoded so far', mk(d)))

        def g(h):
            return forall(lambda i: And(isx(S(2 * i)), isx(S(2 * i + 1))), 0, Z(h.k) if isinstance(h.k, int) else h.k.z)
        fs.append(('digits so far', g))
        fs.append(('the rest kept', lambda h: forall(lambda i: Select(h.st.blk(1, d.b), i) == Select(c.arr(1, d), i), Z(h.k) if isinstance(h.k, int) else h.k.z, None)))
        return fs
    c.inv('*', inv)
    for o in c.call('gutil_hex2bin', p, c.eng.wrap(c.st, m * 2, 64, 's'), d):
        allhex = forall(lambda i: isx(S(i)), 0, m * 2)
        if o.is_null_const():
            o.ensure('NULL only if some character is not a hex digit', exists(lambda i: Not(isx(S(i))), 0, m * 2))
        else:
            o.ensure('returns the buffer', o.ret_is(d))
            o.ensure('every character is a hex digit', And(forall(lambda i: And(isx(S(2 * i)), isx(S(2 * i + 1))), 0, m)))
            o.ensure('bytes decoded', forall(lambda i: Select(o.arr(1, d), i) == 16 * dig(S(2 * i)) + dig(S(2 * i + 1)), 0, m))
        o.ensure('nothing written past the output', forall(lambda i: Select(o.arr(1, d), i) == Select(c.arr(1, d), i), m, o.size(d)))
        o.ensure('input kept', kept(o, p, m * 2))


def hexinv(c, n, S, up):
    def inv(hv):
        def f(h):
            out = L(1000000)
            k = Z(h.k) if isinstance(h.k, int) else h.k.z
            A = h.st.blk(1, out)
            hx = lambda v: (hexch(v, True) if up is True else hexch(v, False) if up is False else If(up, hexch(v, True), hexch(v, False)))
            return forall(lambda i: And(Select(A, 2 * i) == hx(S(i) / 16), Select(A, 2 * i + 1) == hx(S(i) % 16)), 0, k)
        return [('encoded so far', f)]
    c.inv('*', inv)


@spec('gutil_bin2hex', ['M01'], SRC, fns=['gutil_bin2hex', 'gutil_data2hex'])
def _(run):
    def post(c, o, n, S, up, src):
        o.ensure('a new block of exactly 2n+1 bytes', And(Not(o.null()), o.ret.o.z == 0, o.alive(o.ret), o.ret.b.z >= 1000000, o.size(o.ret) == 2 * Z(n) + 1))
        A = o.arr(1, o.ret)
        o.ensure('two digits per byte', forall(lambda i: And(Select(A, 2 * i) == hexch(S(i) / 16, up), Select(A, 2 * i + 1) == hexch(S(i) % 16, up)), 0, n))
        o.ensure('NUL terminated', Select(A, 2 * Z(n)) == 0)
        if src is not None:
            o.ensure('input kept', kept(o, src, n))
    for up in (True, False):
        for via in (False, True):
            c = run.case(('upper' if up else 'lower') + (' data' if via else ''))
            n = c.nat('n', 0, BIG)
            p = c.bytesblk('p', n)
            S = bytes_at(c, p)
            uc = c.const(32, 0) if not up else c.int('up', 32)
            if up:
                c.require(uc.s.z != 0)
            hexinv(c, n, S, up)
            if via:
                d = c.struct(D, dict(bytes=p, size=n))
                outs = c.call('gutil_data2hex', d, uc)
            else:
                outs = c.call('gutil_bin2hex', p, c.eng.wrap(c.st, n, 64), uc)
            for o in outs:
                post(c, o, n, S, up, p)
    c = run.case('no data')
    for o in c.call('gutil_bin2hex', NULL, c.const(64, 0), c.int('up', 32)):
        post(c, o, L(0), lambda i: i, True, None)
    c = run.case('NULL')
    for o in c.call('gutil_data2hex', NULL, c.int('up', 32)):
        o.ensure('NULL', o.null())


@spec('gutil_hex2bytes', ['M01'], SRC)
def _(run):
    c = run.case('NULL')
    for o in c.call('gutil_hex2bytes', NULL, c.int('len', 64)):
        o.ensure('NULL', o.null())
    for lab in ('even', 'odd', 'zero', 'string'):
        c = run.case(lab)
        if lab == 'string':
            n = c.nat('n', 0, BIG)
            p = c.cstr('s', n)
            l = c.int('len', 64)
            c.require(l.s.z < 0)
        else:
            m = c.nat('m', 1, BIG // 2)
            n = m * 2 if lab == 'even' else m * 2 - 1 if lab == 'odd' else L(0)
            p = c.bytesblk('s', n)
            l = c.eng.wrap(c.st, n, 64)
        S = bytes_at(c, p)

        def inv(hv):
            out = L(1000000)

            def f(h):
                Dm = h.st.blk(1, out)
                return forall(lambda i: And(isx(S(2 * i)), isx(S(2 * i + 1)), Select(Dm, i) == 16 * dig(S(2 * i)) + dig(S(2 * i + 1))), 0, Z(h.k) if isinstance(h.k, int) else h.k.z)
            return [('decoded so far', f)]
        c.inv('*', inv)
        for o in c.call('gutil_hex2bytes', p, l):
            bad = Or(Z(n) == 0, Z(n) % 2 == 1)
            if o.is_null_const():
                o.ensure('NULL only for an empty or odd or non-hex input', Or(bad, exists(lambda i: Not(isx(S(i))), 0, n)))
                o.ensure('no leak', Implies(o.st.g['nb'].z > 1000000, Not(o.alive_b(1000000))))
            else:
                d, k = o.p_at(o.ret, 0), o.cell(8, o.ret, 1)
                o.ensure('new bytes of half the length', And(Not(bad), o.alive(o.ret), k * 2 == Z(n), d.o.z == 0, o.alive(d), o.size(d) == k))
                o.ensure('every character is a hex digit', forall(lambda i: And(isx(S(2 * i)), isx(S(2 * i + 1))), 0, k))
                o.ensure('bytes decoded', forall(lambda i: Select(o.arr(1, d), i) == 16 * dig(S(2 * i)) + dig(S(2 * i + 1)), 0, k))
            o.ensure('input kept', kept(o, p, n))


# ------------------------------------------------------------------ numbers
def parse(run, f, lo, hi, lo64, hi64, size):
    uns = lo == 0
    for withv in (True, False):
        sfx = '' if withv else ' no result'
        for lab in ('NULL', 'empty'):
            c = run.case(lab + sfx)
            c.errno()
            v = c.block('v', L(size), kinds={size}) if withv else NULL
            p = NULL if lab == 'NULL' else c.cstr('s', L(0))
            for o in c.call(f, p, c.int('base', 32), v):
                o.ensure('FALSE', Not(o.truth()))
                if withv:
                    o.ensure('result not touched', o.mem_i(v, size) == c.mem_i(v, size))
        c = run.case('string' + sfx)
        c.errno()
        n = c.nat('n', 1, BIG)
        s = c.cstr('s', n)
        S = bytes_at(c, s)
        v = c.block('v', L(size), kinds={size}) if withv else NULL
        base = c.int('base', 32)
        for o in c.call(f, s, base, v):
            r = o.st.user.get('num')
            ch = o.st.user.get('strchr')
            if r is None:
                # rejected before the conversion: allowed only for a minus sign in an unsigned number
                o.ensure('rejected without conversion only because of a minus sign', And(Not(o.truth()), exists(lambda i: S(i) == 45, 0, n) if uns else z3.BoolVal(False)))
                if withv:
                    o.ensure('result not touched', o.mem_i(v, size) == c.mem_i(v, size))
            else:
                p, m, A = r['p'], r['n'].z, r['A']
                T = lambda i: Select(A, p.o.z + i)
                # what is converted is the input without its leading and trailing white space
                x = o.st.user['lead'].z if 'lead' in o.st.user else If(p.b.z == s.b.z, p.o.z, 0)
                o.ensure('a part of the input is converted', And(x >= 0, x + m <= n.z, T(m) == 0))
                o.ensure('the same characters', forall(lambda i: T(i) == S(x + i), 0, m))
                o.ensure('what precedes is white space', forall(lambda i: isspace(S(i)), 0, x))
                cg = o.st.user.get('chug')
                G = (lambda j: Select(cg[1], cg[0].o.z + j)) if cg else T
                o.assume(hint_axiom())
                o.ensure('what follows is white space', forall(lambda j: Or(isspace(S(x + j)), hint(G(j))), m, n.z - x))
                o.ensure('nothing left to strip', Or(m == 0, And(Not(isspace(T(z3.IntVal(0)))), Not(isspace(T(m - 1))))))
                o.ensure('in the given base', o.eng.sv(o.st, r['base']).z == base.s.z)
                if uns:
                    o.ensure('a minus sign is never accepted', Implies(o.truth(), forall(lambda j: Or(S(x + j) != 45, hint(T(j))), 0, m)))
                good = And(z3.BoolVal(r['conv']), T(r['e'].z) == 0, z3.BoolVal(not r['ovf']), r['v'].z >= lo, r['v'].z <= hi)
                o.ensure('accepted exactly when all of it is one number that fits', o.truth() == good)
                if withv:
                    val = o.mem_i(v, size)
                    if uns:
                        val = If(val < 0, val + 2**(8 * size), val)
                    o.ensure('result stored when accepted, else not touched', If(o.truth(), val == r['v'].z, o.mem_i(v, size) == c.mem_i(v, size)))
            o.ensure('input kept', kept(o, s, n))
            o.ensure('no leak', o.st.g['nb'].z == 1000000 if o.st.g['nb'].const() == 1000000 else Not(o.alive_b(1000000)))


@spec('gutil_parse_int', ['M02'], SRC)
def _(run):
    parse(run, 'gutil_parse_int', -2**31, 2**31 - 1, -2**63, 2**63 - 1, 4)


@spec('gutil_parse_int64', ['M02'], SRC)
def _(run):
    parse(run, 'gutil_parse_int64', -2**63, 2**63 - 1, -2**63, 2**63 - 1, 8)


@spec('gutil_parse_uint', ['M02'], SRC)
def _(run):
    parse(run, 'gutil_parse_uint', 0, 2**32 - 1, 0, 2**64 - 1, 4)


@spec('gutil_parse_uint64', ['M02'], SRC)
def _(run):
    parse(run, 'gutil_parse_uint64', 0, 2**64 - 1, 0, 2**64 - 1, 8)


# ------------------------------------------------------------------ equality, prefix, suffix
def blob(c, name, kind):
    """(pointer, length) of a data block: some bytes, an empty block, or no block"""
    if kind == 'null':
        return NULL, L(0)
    n = c.nat('n' + name, 0, BIG)
    off = c.nat('off' + name, 0, BIG)
    return c.bytesblk('b' + name, n, off, c.nat('tail' + name, 0, BIG)), n


def gdata(c, name, kind):
    p, n = blob(c, name, kind)
    return c.struct(D, dict(bytes=p, size=n)), p, n


def gby(c, name, kind):
    p, n = blob(c, name, kind)
    return c.gbytes('gb' + name, p, n), p, n


def same_bytes(c, p, q, m, po=0, qo=0):
    """m bytes at p+po and q+qo are equal"""
    if p is NULL or q is NULL:
        return Z(m) == 0
    a, b = bytes_at(c, p), bytes_at(c, q)
    return forall(lambda i: a(Z(po) + i) == b(Z(qo) + i), 0, m)


KINDS = ('some', 'null')


@spec('gutil_data_equal', ['M03'], SRC)
def _(run):
    for a in (0, 1):
        for b in (0, 1):
            if a and b:
                continue
            c = run.case('%d%d' % (a, b))
            x = gdata(c, 'a', 'some')[0] if a else NULL
            y = gdata(c, 'b', 'some')[0] if b else NULL
            for o in c.call('gutil_data_equal', x, y):
                o.ensure('NULL equals only NULL', o.truth() == (a == b))
    c = run.case('same')
    x = gdata(c, 'a', 'some')[0]
    for o in c.call('gutil_data_equal', x, x):
        o.ensure('TRUE', o.truth())
    for ka in KINDS:
        for kb in KINDS:
            c = run.case(ka + ' ' + kb)
            x, p, n = gdata(c, 'a', ka)
            y, q, m = gdata(c, 'b', kb)
            for o in c.call('gutil_data_equal', x, y):
                o.ensure('TRUE iff same size and bytes', o.truth() == And(Z(n) == Z(m), same_bytes(c, p, q, n)))


def fix(run, f, suffix):
    for a in (0, 1):
        for b in (0, 1):
            if a and b:
                continue
            c = run.case('%d%d' % (a, b))
            x = gdata(c, 'a', 'some')[0] if a else NULL
            y = gdata(c, 'b', 'some')[0] if b else NULL
            for o in c.call(f, x, y):
                o.ensure('NULL only with NULL', o.truth() == (a == b))
    for ka in KINDS:
        for kb in KINDS:
            c = run.case(ka + ' ' + kb)
            x, p, n = gdata(c, 'a', ka)
            y, q, m = gdata(c, 'b', kb)
            for o in c.call(f, x, y):
                o.ensure('TRUE iff the bytes are there', o.truth() == And(Z(m) <= Z(n), same_bytes(c, p, q, m, (Z(n) - Z(m)) if suffix else 0)))
    c = run.case('same object')
    x, p, n = gdata(c, 'a', 'some')
    for o in c.call(f, x, x):
        o.ensure('TRUE', o.truth())


@spec('gutil_data_has_prefix', ['M03'], SRC)
def _(run):
    fix(run, 'gutil_data_has_prefix', False)


@spec('gutil_data_has_suffix', ['M03'], SRC)
def _(run):
    fix(run, 'gutil_data_has_suffix', True)


@spec('gutil_data_from', ['M03'], SRC, fns=['gutil_data_from_string', 'gutil_data_from_bytes', 'gutil_strlen0'])
def _(run):
    c = run.case('NULL string target')
    p = c.cstr('s', c.nat('n', 0, BIG))
    for o in c.call('gutil_data_from_string', NULL, p):
        o.ensure('NULL', o.null())
    c = run.case('NULL bytes target')
    for o in c.call('gutil_data_from_bytes', NULL, gby(c, 'a', 'some')[0]):
        o.ensure('NULL', o.null())
    for f in ('gutil_data_from_string', 'gutil_data_from_bytes'):
        c = run.case(f + ' NULL')
        d = c.struct(D)
        for o in c.call(f, d, NULL):
            o.ensure('empty data', And(o.ret_is(d), o.p(d, D, 'bytes').b.z == 0, o.u(d, D, 'size') == 0))
    c = run.case('string')
    n = c.nat('n', 0, BIG)
    p, d = c.cstr('s', n), c.struct(D)
    for o in c.call('gutil_data_from_string', d, p):
        q = o.p(d, D, 'bytes')
        o.ensure('refers to the characters of the string', And(o.ret_is(d), q.b.z == p.b.z, q.o.z == 0, o.u(d, D, 'size') == n.z))
    for k in KINDS:
        c = run.case('bytes ' + k)
        b, p, n = gby(c, 'a', k)
        d = c.struct(D)
        for o in c.call('gutil_data_from_bytes', d, b):
            q = o.p(d, D, 'bytes')
            o.ensure('refers to the contents', And(o.ret_is(d), q.b.z == p.b.z, q.o.z == p.o.z, o.u(d, D, 'size') == Z(n), o.evn == 0))
    c = run.case('strlen0 NULL')
    for o in c.call('gutil_strlen0', NULL):
        o.ensure('0', o.ru == 0)
    c = run.case('strlen0')
    n = c.nat('n', 0, BIG)
    for o in c.call('gutil_strlen0', c.cstr('s', n)):
        o.ensure('length', o.ru == n.z)


@spec('gutil_bytes_equal', ['M03'], SRC)
def _(run):
    for a in (0, 1):
        for b in (0, 1):
            if a and b:
                continue
            c = run.case('%d%d' % (a, b))
            x = gby(c, 'a', 'some')[0] if a else NULL
            p, n = blob(c, 'b', 'some') if b else (NULL, L(0))
            sz = c.int('size', 64, unsigned=True)
            for o in c.call('gutil_bytes_equal', x, p, sz):
                o.ensure('NULL equals only NULL', o.truth() == (a == b))
    for ka in KINDS:
        c = run.case(ka)
        x, p, n = gby(c, 'a', ka)
        q, m = blob(c, 'b', 'some')
        for o in c.call('gutil_bytes_equal', x, q, c.eng.wrap(c.st, m, 64)):
            o.ensure('TRUE iff same size and bytes', o.truth() == And(Z(n) == Z(m), same_bytes(c, p, q, n)))


@spec('gutil_bytes_equal_data', ['M03'], SRC)
def _(run):
    for a in (0, 1):
        for b in (0, 1):
            if a and b:
                continue
            c = run.case('%d%d' % (a, b))
            x = gby(c, 'a', 'some')[0] if a else NULL
            y = gdata(c, 'b', 'some')[0] if b else NULL
            for o in c.call('gutil_bytes_equal_data', x, y):
                o.ensure('NULL equals only NULL', o.truth() == (a == b))
    for ka in KINDS:
        for kb in KINDS:
            c = run.case(ka + ' ' + kb)
            x, p, n = gby(c, 'a', ka)
            y, q, m = gdata(c, 'b', kb)
            for o in c.call('gutil_bytes_equal_data', x, y):
                o.ensure('TRUE iff same size and bytes', o.truth() == And(Z(n) == Z(m), same_bytes(c, p, q, n)))


def bfix(run, f, suffix):
    c = run.case('NULL')
    q, m = blob(c, 'b', 'some')
    for o in c.call(f, NULL, q, c.eng.wrap(c.st, m, 64)):
        o.ensure('FALSE', Not(o.truth()))
    for ka in KINDS:
        for kb in KINDS:
            c = run.case(ka + ' ' + kb)
            x, p, n = gby(c, 'a', ka)
            q, m = blob(c, 'b', kb)
            for o in c.call(f, x, q, c.eng.wrap(c.st, m, 64)):
                o.ensure('TRUE iff the bytes are there', o.truth() == And(Z(m) <= Z(n), same_bytes(c, p, q, m, (Z(n) - Z(m)) if suffix else 0)))


@spec('gutil_bytes_has_prefix', ['M03'], SRC)
def _(run):
    bfix(run, 'gutil_bytes_has_prefix', False)


@spec('gutil_bytes_has_suffix', ['M03'], SRC)
def _(run):
    bfix(run, 'gutil_bytes_has_suffix', True)


R = 'gutil_range'


@spec('gutil_range', ['M03'], SRC, fns=['gutil_range_init_with_bytes', 'gutil_range_has_prefix', 'gutil_range_skip_prefix'])
def _(run):
    c = run.case('init no range')
    for o in c.call('gutil_range_init_with_bytes', NULL, gby(c, 'a', 'some')[0]):
        o.ensure('0', o.ru == 0)
    c = run.case('init no bytes')
    r = c.struct(R)
    for o in c.call('gutil_range_init_with_bytes', r, NULL):
        o.ensure('empty range', And(o.ru == 0, o.p(r, R, 'ptr').b.z == 0, o.p(r, R, 'end').b.z == 0))
    for k in KINDS:
        c = run.case('init ' + k)
        b, p, n = gby(c, 'a', k)
        r = c.struct(R)
        for o in c.call('gutil_range_init_with_bytes', r, b):
            s, e = o.p(r, R, 'ptr'), o.p(r, R, 'end')
            o.ensure('range of the contents', And(o.ru == Z(n), s.b.z == p.b.z, s.o.z == p.o.z, e.b.z == p.b.z, e.o.z == p.o.z + Z(n)))
    for f in ('gutil_range_has_prefix', 'gutil_range_skip_prefix'):
        for lab in ('no range', 'no prefix', 'null range'):
            c = run.case(f + ' ' + lab)
            p, n = blob(c, 'a', 'some')
            r = c.struct(R, dict(ptr=NULL, end=NULL) if lab == 'null range' else dict(ptr=p, end=p.at(n)))
            y = gdata(c, 'b', 'some')[0]
            for o in c.call(f, NULL if lab == 'no range' else r, NULL if lab == 'no prefix' else y):
                o.ensure('FALSE', Not(o.truth()))
                s = o.p(r, R, 'ptr')
                o.ensure('range kept', s.b.z == 0 if lab == 'null range' else And(s.b.z == p.b.z, s.o.z == p.o.z))
        for kb in KINDS:
            c = run.case(f + ' ' + kb)
            p, n = blob(c, 'a', 'some')
            r = c.struct(R, dict(ptr=p, end=p.at(n)))
            y, q, m = gdata(c, 'b', kb)
            for o in c.call(f, r, y):
                s, e = o.p(r, R, 'ptr'), o.p(r, R, 'end')
                res = And(Z(m) <= Z(n), same_bytes(c, p, q, m))
                o.ensure('TRUE iff the range begins with the bytes', o.truth() == res)
                adv = If(o.truth(), Z(m), 0) if 'skip' in f else 0
                o.ensure('range advanced past a skipped prefix only', And(s.b.z == p.b.z, s.o.z == p.o.z + adv, e.b.z == p.b.z, e.o.z == p.o.z + Z(n)))
                o.ensure('data kept', And(o.u(y, D, 'size') == Z(m)))


# ------------------------------------------------------------------ concatenation and xor
def bdata(v, b):
    """data pointer and size of the GBytes at (symbolic) block b"""
    M = v.st.mem
    return (z3.Select(z3.Select(M['PB'].mat(), b), 0), z3.Select(z3.Select(M['PO'].mat(), b), 0), z3.Select(z3.Select(M[8].mat(), b), 1))


@spec('gutil_bytes_concat', ['M04'], SRC, inv_timeout=8.0)
def _(run):
    c = run.case('NULL')
    c.varargs('va', c.nat('nva', 0, BIG))
    for o in c.call('gutil_bytes_concat', NULL):
        o.ensure('NULL', And(o.null(), o.evn == 0))
    for k in ('some', 'empty', 'null'):
        c = run.case(k)
        if k == 'empty':
            p, n1 = c.bytesblk('b1', L(0)), L(0)
            b = c.gbytes('gb1', p, n1)
        else:
            b, p, n1 = gby(c, '1', k)
        if k == 'some':
            c.require(n1.z > 0)
        N = c.nat('nva', 0, 2**31 - 3)
        vb, vo = c.varargs('va', N)
        PB, PO, SZ = c.st.mem['PB'].mat(), c.st.mem['PO'].mat(), c.st.mem[8].mat()
        AL, BS, BY = c.st.blk('AL', L(0)), c.st.blk('SZ', L(0)), c.st.mem[1].mat()
        size, dblk, doff = [z3.Function(nm, INT, INT) for nm in ('argsize', 'argdata', 'argoffset')]
        held = lambda i: And(size(i) == z3.Select(z3.Select(SZ, vb[i]), 1), dblk(i) == z3.Select(z3.Select(PB, vb[i]), 0), doff(i) == z3.Select(z3.Select(PO, vb[i]), 0))
        P = z3.Function('prefixsize', INT, INT)
        # every further argument is a live GBytes whose data is a live block
        c.require(forall(lambda i: And(held(i), vo[i] == 0, Select(AL, vb[i]) == 1, size(i) >= 0, size(i) <= BIG, P(i) >= n1.z, P(i) <= P(i + 1), P(i + 1) == P(i) + size(i), P(i + 1) <= BIG, doff(i) >= 0,
                                       Implies(size(i) > 0, And(dblk(i) >= 10000, dblk(i) < 1000000, Select(AL, dblk(i)) == 1, doff(i) + size(i) <= Select(BS, dblk(i))))),
                         0, N, pats=lambda i: [vb[i], vo[i], size(i)]))
        c.require(And(P(z3.IntVal(0)) == n1.z, P(N.z) <= BIG, P(N.z) >= n1.z))
        c.require(z3.ForAll([z3.Const('i?p', INT)], Implies(And(z3.Const('i?p', INT) >= 0, z3.Const('i?p', INT) <= N.z), And(P(z3.Const('i?p', INT)) >= n1.z, P(z3.Const('i?p', INT)) <= P(N.z))), patterns=[P(z3.Const('i?p', INT))]))
        c.eng.newkinds = {1}
        content = lambda i, j: z3.Select(z3.Select(BY, dblk(i)), doff(i) + j)
        F = bytes_at(c, p) if p is not NULL else None
        C = z3.Function('content', INT, INT, INT)
        i0, j0 = z3.Consts('i?m j?m', INT)
        c.require(z3.ForAll([i0, j0], C(i0, j0) == content(i0, j0), patterns=[C(i0, j0)]))
        if F is not None:
            F0, F = F, z3.Function('firstbyte', INT, INT)
            c.require(z3.ForAll([j0], F(j0) == F0(j0), patterns=[F(j0)]))
        # prefix sums of non-negative numbers are monotonic (definition of P, by induction)
        c.require(z3.ForAll([i0, j0], Implies(And(0 <= i0, i0 < j0, j0 <= N.z), P(i0) + size(i0) <= P(j0)), patterns=[z3.MultiPattern(size(i0), P(j0))]))

        def good(A, base, upto, part=(0, 1)):
            cs = [] if 1 not in part else [forall(lambda i, j: Implies(And(i < upto, j < size(i)), Select(A, base + P(i) + j) == C(i, j)), 0, None, n=2, pats=lambda i, j: C(i, j))]
            if F is not None and 0 in part:
                cs.append(forall(lambda j: Select(A, base + j) == F(j), 0, n1, pats=lambda j: [F(j)]))
            return And(*cs)

        def inv(hv):
            # the loop has consumed q arguments when the cursor is at position q+1 (one fetched ahead) or q
            out = []
            at = (hv.entry or hv).st.g['va'].const()
            for d in ((at,) if at in (0, 1) else (0, 1)):
                def pos(h, d=d):
                    return h.st.g['va'].z - d
                ok = lambda h, pos=pos: And(pos(h) >= 0, pos(h) <= N.z)
                out.append(('cursor range %d' % d, ok))
                for nm, v in hv.ptrs():
                    out.append(('%s is argument %d' % (nm, d), lambda h, nm=nm, pos=pos: And(h.phis[nm].b.z == vb[pos(h)], h.phis[nm].o.z == If(pos(h) < N.z, 0, h.phis[nm].o.z))))
                    if (v.b.const() or 0) >= 1000000:
                        out.append(('%s at prefix %d' % (nm, d), lambda h, nm=nm, pos=pos, ob=v.b: And(h.phis[nm].b.z == ob.z, h.phis[nm].o.z == P(pos(h)))))
                        out.append(('%s: not before the first %d' % (nm, d), lambda h, pos=pos: And(P(pos(h)) >= n1.z, P(pos(h)) <= P(N.z))))
                        out.append(('%s: first written %d' % (nm, d), lambda h, nm=nm, pos=pos, ob=v.b: good(h.st.blk(1, ob), z3.IntVal(0), pos(h), (0,))))
                        out.append(('%s: written %d' % (nm, d), lambda h, nm=nm, pos=pos, ob=v.b: good(h.st.blk(1, ob), z3.IntVal(0), pos(h), (1,))))
                for nm, v in hv.ints():
                    val = lambda h, nm=nm: h.s(h.phis[nm]) if h.phis[nm].s is not None else h.phis[nm].u.z
                    out.append(('%s is prefix %d' % (nm, d), lambda h, val=val, pos=pos: val(h) == P(pos(h))))
                    out.append(('%s counts %d' % (nm, d), lambda h, val=val, pos=pos: And(val(h) >= 0, val(h) <= pos(h) + 1)))
                    out.append(('%s zero when empty %d' % (nm, d), lambda h, val=val, pos=pos: (val(h) == 0) == (P(pos(h)) == 0)))
                    for pn, pv in hv.ptrs():
                        out.append(('%s counts, %s the only one %d' % (nm, pn, d), lambda h, val=val, pos=pos, pn=pn: Implies(val(h) == 1, Or(
                            And(h.phis[pn].b.z == b.b.z, h.phis[pn].o.z == 0, P(pos(h)) == n1.z, n1.z > 0),
                            z3.Exists([z3.Const('e?c', INT)], And(z3.Const('e?c', INT) >= 0, z3.Const('e?c', INT) < pos(h), h.phis[pn].b.z == vb[z3.Const('e?c', INT)], h.phis[pn].o.z == 0, P(pos(h)) == size(z3.Const('e?c', INT))))))))
            return out
        c.inv('*', inv)
        for o in c.call('gutil_bytes_concat', b):
            o.ensure('not NULL', Not(o.null()))
            total = P(N.z)
            if o.ret.b.const() is not None and o.ret.b.const() >= 1000000:
                d, n = o.p_at(o.ret, 0), o.cell(8, o.ret, 1)
                o.ensure('new bytes of the total size', And(o.alive(o.ret), n == total, d.o.z == 0, o.alive(d), o.size(d) == n, d.b.z >= 1000000))
                o.ensure('all contents in order', good(o.arr(1, d), z3.IntVal(0), N.z))
            else:
                o.ensure('one reference taken', And(o.evn == 1, o.ev(0, 0) == REF, o.ev(0, 1) == o.ret.b.z, o.ret.o.z == 0))
                o.ensure('returns an argument that is the whole result', Or(And(o.ret.b.z == b.b.z, n1.z == total),
                         exists(lambda i: And(o.ret.b.z == vb[i], size(i) == total), 0, N)))


@spec('gutil_bytes_xor', ['M04'], SRC)
def _(run):
    for a, bb in ((0, 0), (0, 1), (1, 0)):
        c = run.case('%d%d' % (a, bb))
        x = gby(c, 'a', 'some')[0] if a else NULL
        y = gby(c, 'b', 'some')[0] if bb else NULL
        for o in c.call('gutil_bytes_xor', x, y):
            o.ensure('NULL', And(o.null(), o.evn == 0))
    X = z3.Function('xorbyte', INT, INT, INT)
    for ka in KINDS:
        for kb in KINDS:
            c = run.case(ka + ' ' + kb)
            x, p, n = gby(c, 'a', ka)
            y, q, m = gby(c, 'b', kb)
            k = If(Z(n) < Z(m), Z(n), Z(m))
            if p is not NULL and q is not NULL:
                f, g = bytes_at(c, p), bytes_at(c, q)
                i0, j0 = z3.Consts('i?x j?x', INT)
                c.require(z3.ForAll([i0, j0], And(X(i0, j0) >= 0, X(i0, j0) <= 255, X(i0, j0) == X(j0, i0)), patterns=[X(i0, j0)]))
                c.eng.newkinds = {1}

                def inv(hv):
                    out = []
                    for nm, v in hv.ptrs():
                        if (v.b.const() or 0) < 1000000:
                            ob = None
                        else:
                            ob = v.b

                        def w(h, nm=nm, ob=ob):
                            A = h.st.blk(1, ob)
                            return And(h.phis[nm].b.z == ob.z, h.phis[nm].o.z >= 0, forall(lambda i: Select(A, i) == X(f(i), g(i)), 0, h.phis[nm].o.z))
                        if ob is not None:
                            out.append(('%s: xor so far' % nm, w))
                        for nm2, v2 in hv.ints():
                            for pp in (p, q) if ob is None else (PtrV(ob, 0),):
                                out.append(('%s follows %s' % (nm, nm2), lambda h, nm=nm, nm2=nm2, pp=pp: And(h.phis[nm].b.z == pp.b.z, h.phis[nm].o.z == pp.o.z + h.u(h.phis[nm2]))))
                    for nm2, v2 in hv.ints():
                        out.append(('%s at most size' % nm2, lambda h, nm2=nm2: h.u(h.phis[nm2]) <= k))
                    return out
                c.inv('*', inv)
            for o in c.call('gutil_bytes_xor', x, y):
                if o.ret.b.const() is not None and o.ret.b.const() >= 1000000:
                    d, l = o.p_at(o.ret, 0), o.cell(8, o.ret, 1)
                    o.ensure('new bytes of the smaller size', And(o.alive(o.ret), l == k, k > 0, d.o.z == 0, o.alive(d), o.size(d) == l))
                    o.ensure('byte-wise xor', forall(lambda i: Select(o.arr(1, d), i) == X(f(i), g(i)), 0, l))
                else:
                    o.ensure('an empty argument, referenced', And(k == 0, o.evn == 1, o.ev(0, 0) == REF, o.ev(0, 1) == o.ret.b.z,
                             Or(And(o.ret_is(x), Z(n) == 0), And(o.ret_is(y), Z(m) == 0))))


# ------------------------------------------------------------------ allocation helpers
@spec('gutil_data_new', ['M05'], SRC, fns=['gutil_data_new', 'gutil_data_copy'])
def _(run):
    c = run.case('copy NULL')
    for o in c.call('gutil_data_copy', NULL):
        o.ensure('NULL', o.null())
    for f in ('gutil_data_new', 'gutil_data_copy'):
        for k in KINDS:
            c = run.case(f + ' ' + k)
            if f == 'gutil_data_new':
                n = c.nat('n', 0, 2**32 - 1)
                p = c.bytesblk('p', n) if k == 'some' else NULL
                outs = c.call(f, p, c.u32(n))
            else:
                x, p, n = gdata(c, 'a', k)
                outs = c.call(f, x)
            for o in outs:
                r = o.ret
                q = o.p(r, D, 'bytes')
                o.ensure('one new block', And(Not(o.null()), r.b.z == 1000000, r.o.z == 0, o.alive(r), o.st.g['nb'].z == 1000001))
                if k == 'some':
                    o.ensure('size and contents copied', And(o.u(r, D, 'size') == n.z, q.b.z == r.b.z, q.o.z >= 16, q.o.z + n.z <= o.size(r),
                             eqb(bytes_at(o, q), bytes_at(c, p), n)))
                    o.ensure('source kept', kept(o, p, n))
                else:
                    o.ensure('empty', And(o.u(r, D, 'size') == 0, q.b.z == 0))


@spec('gutil_data_copy_as_variant', ['M05'], SRC)
def _(run):
    c = run.case('NULL')
    for o in c.call('gutil_data_copy_as_variant', NULL):
        o.ensure('NULL', o.null())
    for k in KINDS:
        c = run.case(k)
        x, p, n = gdata(c, 'a', k)
        for o in c.call('gutil_data_copy_as_variant', x):
            d, m = o.p_at(o.ret, 0), o.cell(8, o.ret, 1)
            o.ensure('new variant with a copy of the bytes', And(Not(o.null()), o.alive(o.ret), m == Z(n), o.evn == 1,
                     eqb(lambda i: Select(z3.Select(o.st.mem[1].mat(), d.b.z), d.o.z + i), bytes_at(c, p), n) if p is not NULL else True))


@spec('gutil_memdup', ['M05'], SRC)
def _(run):
    c = run.case('NULL')
    for o in c.call('gutil_memdup', NULL, c.int('n', 64, unsigned=True)):
        o.ensure('NULL', o.null())
    c = run.case('memory')
    n = c.nat('n', 0, BIG)
    p = c.bytesblk('p', n, c.nat('off', 0, BIG))
    for o in c.call('gutil_memdup', p, c.eng.wrap(c.st, n, 64)):
        if o.is_null_const():
            o.ensure('NULL only for zero bytes', n.z == 0)
        else:
            o.ensure('new block with the same bytes', And(n.z > 0, o.ret.b.z >= 1000000, o.ret.o.z == 0, o.alive(o.ret), o.size(o.ret) == n.z,
                     eqb(bytes_at(o, o.ret), bytes_at(c, p), n)))
            o.ensure('source kept', kept(o, p, n))


@spec('gutil_ptrv', ['M05'], SRC, fns=['gutil_ptrv_length', 'gutil_ptrv_is_empty', 'gutil_ptrv_free'])
def _(run):
    c = run.case('length NULL')
    for o in c.call('gutil_ptrv_length', NULL):
        o.ensure('0', o.ru == 0)
    c = run.case('length')
    n = c.nat('n', 0, 2**58)
    p = c.ptrv('pv', n)
    for o in c.call('gutil_ptrv_length', p):
        o.ensure('number of pointers', o.ru == n.z)
        o.ensure('pure', o.evn == 0)
    c = run.case('empty NULL')
    for o in c.call('gutil_ptrv_is_empty', NULL):
        o.ensure('TRUE', o.truth())
    c = run.case('empty')
    n = c.nat('n', 0, 2**58)
    p = c.ptrv('pv', n)
    for o in c.call('gutil_ptrv_is_empty', p):
        o.ensure('TRUE iff there are no pointers', o.truth() == (n.z == 0))
    c = run.case('free NULL')
    for o in c.call('gutil_ptrv_free', NULL):
        o.ensure('nothing', o.evn == 0)
    c = run.case('free')
    n = c.nat('n', 0, 2**58)
    p = c.strv('pv', n)
    B = c.arr('PB', p)
    AL = c.st.blk('AL', L(0))
    for o in c.call('gutil_ptrv_free', p):
        o.ensure('array and every element released exactly once', And(Not(o.alive(p)), forall(lambda i: Not(o.alive_b(Select(B, i))), 0, n)))
        x = z3.Const('x?f', INT)
        o.ensure('nothing else released', z3.ForAll([x], Implies(And(Select(AL, x) == 1, x != p.b.z, forall(lambda i: Select(B, i) != x, 0, n)), o.alive_b(x))))


# ------------------------------------------------------------------ tolerant helpers
@spec('gutil_object_ref', ['M07'], SRC, fns=['gutil_object_ref', 'gutil_object_unref'])
def _(run):
    c = run.case('ref NULL')
    for o in c.call('gutil_object_ref', NULL):
        o.ensure('NULL', And(o.null(), o.evn == 0))
    c = run.case('ref')
    p = c.opaque('o')
    for o in c.call('gutil_object_ref', p):
        o.ensure('one reference, same object', And(o.ret_is(p), o.evn == 1, o.ev(0, 0) == REF, o.ev(0, 1) == p.b.z, o.ev(0, 2) == p.o.z))
    c = run.case('unref NULL')
    for o in c.call('gutil_object_unref', NULL):
        o.ensure('nothing', o.evn == 0)
    c = run.case('unref')
    p = c.opaque('o')
    for o in c.call('gutil_object_unref', p):
        o.ensure('one reference dropped', And(o.evn == 1, o.ev(0, 0) == UNREF, o.ev(0, 1) == p.b.z, o.ev(0, 2) == p.o.z))


@spec('gutil_source_remove', ['M07'], SRC, fns=['gutil_source_remove', 'gutil_source_clear'])
def _(run):
    c = run.case('remove')
    i = c.int('id', 32, unsigned=True)
    iv = c.eng.uv(c.st, i).z
    for o in c.call('gutil_source_remove', i):
        o.ensure('TRUE iff not zero', o.truth() == (iv != 0))
        o.ensure('removed exactly when not zero', And(o.evn == If(iv != 0, 1, 0), Implies(iv != 0, o.ev(0, 1) == iv)))
    c = run.case('clear NULL')
    for o in c.call('gutil_source_clear', NULL):
        o.ensure('FALSE', And(Not(o.truth()), o.evn == 0))
    c = run.case('clear')
    p = c.block('id', L(4), kinds={4})
    i = c.int('idv', 32, unsigned=True)
    iv = c.eng.uv(c.st, i).z
    c.set_mem(p, i)
    for o in c.call('gutil_source_clear', p):
        o.ensure('TRUE iff not zero', o.truth() == (iv != 0))
        o.ensure('removed exactly when not zero', And(o.evn == If(iv != 0, 1, 0), Implies(iv != 0, o.ev(0, 1) == iv)))
        o.ensure('id cleared', o.mem_i(p, 4) == 0)


@spec('gutil_disconnect_handlers', ['M07'], SRC)
def _(run):
    for lab in ('no instance', 'no ids'):
        c = run.case(lab)
        p = c.block('ids', L(80), kinds={8})
        for o in c.call('gutil_disconnect_handlers', NULL if lab == 'no instance' else c.opaque('inst'), p if lab == 'no instance' else NULL, c.int('n', 32)):
            o.ensure('nothing', forall(lambda i: Select(o.arr(8, p), i) == Select(c.arr(8, p), i), 0, 10))
            o.ensure('nothing disconnected', forall(lambda i: Select(o.arr('OR', L(50)), i) == Select(c.arr('OR', L(50)), i)))
    c = run.case('negative')
    p = c.block('ids', L(80), kinds={8})
    for o in c.call('gutil_disconnect_handlers', c.opaque('inst'), p, c.int('n', 32, -2**31, 0)):
        o.ensure('nothing', forall(lambda i: Select(o.arr(8, p), i) == Select(c.arr(8, p), i), 0, 10))
        o.ensure('nothing disconnected', forall(lambda i: Select(o.arr('OR', L(50)), i) == Select(c.arr('OR', L(50)), i)))
    c = run.case('handlers')
    n = c.nat('n', 0, 2**31 - 1)
    p = c.block('ids', n * 8, kinds={8})
    I = c.arr(8, p)
    c.require(forall(lambda i: And(Select(I, i) >= 0, Select(I, i) < 2**63), 0, n, pats=lambda i: Select(I, i)))
    # handler ids are unique; zero marks an unused slot
    c.require(forall(lambda i, j: Implies(And(i != j, Select(I, i) != 0), Select(I, i) != Select(I, j)), 0, n, n=2, pats=lambda i, j: (Select(I, i), Select(I, j))))
    c.st.setblk('OR', L(50), z3.K(INT, z3.IntVal(0)))

    def inv(hv):
        def val(h, nm):
            v = h.phis[nm]
            return v.s.z if v.s is not None else v.u.z
        out = []
        for nm, v in hv.ints():
            out += [('ids cleared', lambda h, nm=nm: And(val(h, nm) >= 0, val(h, nm) <= n.z, forall(lambda i: Select(h.st.blk(8, p.b), i) == 0, 0, val(h, nm)))),
                    ('ids not visited', lambda h, nm=nm: forall(lambda i: Select(h.st.blk(8, p.b), i) == Select(I, i), val(h, nm), n)),
                    ('disconnected', lambda h, nm=nm: forall(lambda i: Implies(Select(I, i) != 0, Select(h.st.blk('OR', L(50)), Select(I, i)) == 1), 0, val(h, nm))),
                    ('not yet', lambda h, nm=nm: forall(lambda i: Implies(Select(I, i) != 0, Select(h.st.blk('OR', L(50)), Select(I, i)) == 0), val(h, nm), n)),
                    ('others not', lambda h, nm=nm: forall(lambda x: Implies(forall(lambda i: Select(I, i) != x, 0, n), Select(h.st.blk('OR', L(50)), x) == 0)))]
        return out
    c.inv('*', inv)
    for o in c.call('gutil_disconnect_handlers', c.opaque('inst'), p, c.u32(n)):
        o.ensure('every handler disconnected exactly once', forall(lambda i: Implies(Select(I, i) != 0, Select(o.arr('OR', L(50)), Select(I, i)) == 1), 0, n))
        o.ensure('nothing else disconnected', forall(lambda x: Implies(forall(lambda i: Select(I, i) != x, 0, n), Select(o.arr('OR', L(50)), x) == 0)))
        o.ensure('ids cleared', forall(lambda i: Select(o.arr(8, p), i) == 0, 0, n))


# ------------------------------------------------------------------ hex dump
HEXW, HEXBUF = 52, 70


def hexdump_line(A, b, S, n):
    """A[b..) is the dump line of the n bytes S(0..n) (n a number)"""
    at = lambda i: Select(A, b + i)
    fs = []
    for i in range(16):
        p = 3 * i + (1 if i >= 8 else 0)
        if i > 0:
            fs.append(at(p - 1) == 32)
        if i == 8:
            fs.append(at(p - 2) == 32)
        fs += [at(p) == hexch(S(i) / 16, False), at(p + 1) == hexch(S(i) % 16, False)] if i < n else [at(p) == 32, at(p + 1) == 32]
    fs += [at(HEXW - 4 + i) == 32 for i in range(4)]
    return fs, hexdump_chars(A, b, S, n)


def show(c):
    return If(And(c >= 32, c <= 126), c, 46)


def hexdump_chars(A, b, S, n):
    at = lambda i: Select(A, b + HEXW + i)
    return [at(j + (1 if j >= 8 else 0)) == show(S(j)) for j in range(n)] + ([at(8) == 32] if n > 8 else []) + [at(n + (1 if n > 8 else 0)) == 0]


@spec('gutil_hexdump', ['M06'], SRC)
def _(run):
    for n in range(17):
        c = run.case('%d bytes' % n if n < 16 else '16 bytes or more')
        if n < 16:
            m, ln = L(n), c.const(32, n)
        else:
            m = c.nat('n', 16, 2**32 - 1)
            ln = c.u32(m)
        src = c.bytesblk('src', m) if n else c.anyptr('src')
        off, tail = c.nat('off', 0, BIG), c.nat('tail', 0, BIG)
        buf = c.bytesblk('buf', L(HEXBUF), off, tail)
        S = bytes_at(c, src)
        A0 = c.arr(1, buf)
        STUBS['__ctype_b_loc'](c.eng, c.st, [], None)
        c.st.user['onlyuser'] = True
        c.eng.unroll_paths = 2

        def inv(hv):
            b = buf.o.z
            done = lambda h: Z(h.k)
            pos = lambda k: HEXW + k + If(k > 8, 1, 0)
            fs = [('count', lambda h: done(h) <= n)] + [('=output position %s' % nm, lambda h, nm=nm: And(h.phis[nm].b.z == buf.b.z, h.phis[nm].o.z == b + pos(done(h)))) for nm, v in hv.ptrs()]
            A = lambda h: h.st.blk(1, buf.b)
            fs += [('characters so far', lambda h: And(*[Implies(i < done(h), Select(A(h), b + HEXW + i + (1 if i >= 8 else 0)) == show(S(i))) for i in range(n)], Implies(done(h) > 8, Select(A(h), b + HEXW + 8) == 32))),
                   ('digits', lambda h: And(*hexdump_line(A(h), b, S, n)[0])),
                   ('before kept', lambda h: forall(lambda i: Select(A(h), i) == Select(A0, i), None, b)),
                   ('beyond kept', lambda h: forall(lambda i: Select(A(h), i) == Select(A0, i), b + HEXBUF, None))]
            return fs
        c.inv('*', inv)
        for o in c.call('gutil_hexdump', buf, src, ln):
            A = o.arr(1, buf)
            b = buf.o.z
            hexs, chars = hexdump_line(A, b, S, n)
            o.ensure('the number of bytes shown', o.ru == n)
            o.ensure('digits, blanks and separators', And(*hexs))
            o.ensure('printable characters, dots for the rest, and the terminator', And(*chars))
            o.ensure('nothing else written', And(forall(lambda i: Select(A, i) == Select(A0, i), None, b), forall(lambda i: Select(A, i) == Select(A0, i), b + HEXBUF, None)))
