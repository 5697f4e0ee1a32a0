"""Contracts of gutil_version.h and gutil_version.c: the macros are verified through instances (specs/version_wrap.c) which
are compiled with the header and the constants of /repo on every run."""
import os
from gvc.spec import *
from gvc.core import IntV

SRC = [os.path.join(os.path.dirname(os.path.abspath(__file__)), 'version_wrap.c')]
LIM = (0x80, 0x1000, 0x1000)
NUM = lambda a, b, c: a * 2**24 + b * 2**12 + c


def u(c, o):
    return c.eng.uv(o.st, o.ret).z


def uint(c, n, w, lo, hi):
    return IntV(w, u=c.nat(n, lo, hi))


def triple(c, names, full=False):
    return [uint(c, n, 32, 0, 2**32 - 1 if full else lim - 1) for n, lim in zip(names, LIM)]


def z(c, v):
    return c.eng.uv(c.st, v).z


@spec('version macros', ['G01'], SRC, fns=['GUTIL_VERSION_', 'GUTIL_VERSION_MAJOR_', 'GUTIL_VERSION_MINOR_', 'GUTIL_VERSION_MICRO_'])
def _(run):
    c = run.case('packing')
    t = triple(c, 'abc')
    for o in c.call('w_pack', *t):
        o.ensure('the fields do not overlap', u(c, o) == NUM(*[z(c, x) for x in t]))
        for f, x in zip(('major', 'minor', 'micro'), t):
            for o2 in c.call_in(o, 'w_' + f, o.ret):
                o2.ensure('unpacks to the %s number' % f, u(c, o2) == z(c, x))
    c = run.case('packing of numbers too large')
    t = triple(c, 'abc', True)
    for o in c.call('w_pack', *t):
        o.ensure('each field is cut to its width', u(c, o) == NUM(*[z(c, x) % l for x, l in zip(t, LIM)]))
    c = run.case('packing of signed numbers')
    t = [c.int(n, 32, 0, l - 1) for n, l in zip('abc', LIM)]
    for o in c.call('w_packi', *t):
        o.ensure('the fields do not overlap', u(c, o) == NUM(*[z(c, x) for x in t]))
    for f in ('w_pack_choice', 'w_pack_less'):
        c = run.case('within expressions: ' + f)
        t, s = triple(c, 'abc'), triple(c, 'xyz')
        A, B = NUM(*[z(c, x) for x in t]), NUM(*[z(c, x) for x in s])
        if f == 'w_pack_less':
            for o in c.call(f, *t):
                o.ensure('is one operand', u(c, o) == A - A / 2)
        else:
            p = c.int('p', 32, 0, 1)
            for o in c.call(f, p, *(t + s)):
                o.ensure('each argument is one operand', u(c, o) == If(z(c, p) != 0, A, B))
    c = run.case('order')
    t, s = triple(c, 'abc'), triple(c, 'xyz')
    a, b = [z(c, x) for x in t], [z(c, x) for x in s]
    for o in c.call('w_order', *(t + s)):
        o.ensure('orders like the triples', o.truth() == Or(a[0] < b[0], And(a[0] == b[0], Or(a[1] < b[1], And(a[1] == b[1], a[2] < b[2])))))
    for i, f in enumerate(('major', 'minor', 'micro')):
        c = run.case('%s of any word' % f)
        v = uint(c, 'v', 32, 0, 2**32 - 1)
        d = (2**24, 2**12, 1)[i]
        for o in c.call('w_' + f, v):
            o.ensure('is its field', u(c, o) == z(c, v) / d % LIM[i])
        c = run.case('%s within expressions' % f)
        v, w, p = uint(c, 'v', 32, 0, 2**32 - 1), uint(c, 'w', 32, 0, 2**32 - 1), c.int('p', 32, 0, 1)
        for o in c.call('w_%s_choice' % f, p, v, w):
            o.ensure('is one operand', u(c, o) == 3 * (If(z(c, p) != 0, z(c, v), z(c, w)) / d % LIM[i]))


@spec('version constants', ['G01'], SRC, fns=['gutil_version', 'GUTIL_VERSION', 'gutil_version_major', 'gutil_version_minor', 'gutil_version_micro'])
def _(run):
    c = run.case('numbers')
    val = []
    for i in range(3):
        for o in c.call('w_number', c.eng.iconst(32, i)):
            v = u(c, o)
            for o2 in c.call_in(o, 'w_defined', c.eng.iconst(32, i)):
                o2.ensure('the library was compiled with the numbers of its header', u(c, o2) == v)
                o2.ensure('each fits its field', v < LIM[i])
            val.append(v)
    if len(val) != 3:
        return
    N = NUM(*val)
    for f in ('w_current', 'w_runtime'):
        for o in c.call(f):
            o.ensure('%s packs these numbers' % f[2:], u(c, o) == N)
    x = uint(c, 'x', 32, 0, 2**24)
    for o in c.call('w_runtime_less', x):
        o.ensure('within expressions', u(c, o) == N - z(c, x))
    for n in range(69, 80):
        for o in c.call('w_named_%d' % n):
            o.ensure('version 1.0.%d packs its numbers' % n, u(c, o) == NUM(1, 0, n))
            o.ensure('and is not newer than the library', u(c, o) <= N)
