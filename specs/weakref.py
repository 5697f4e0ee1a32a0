"""Contracts of gutil_weakref.c. GLib's weak references are dependencies: g_weak_ref_init/get/set/clear are recorded calls."""
from gvc.spec import *
from gvc.core import PtrV, IntV

SRC = ['gutil_weakref']
WS = 'gutil_weakref'
INIT, CLEAR, SET, GET = range(130, 134)


def contracts(c, got=None):
    def note(code, alive=True):
        def f(eng, st, av, ins):
            off = eng.field(WS, 'weak_ref')[1]
            eng.oblige(st, 'the weak reference of a live object', And(View(eng, st).alive(av[0]), av[0].o.z == off), ins)
            st.emit(code, av[0].b, av[1].b if len(av) > 1 else 0, av[1].o if len(av) > 1 else 0)
            return [(st, got if code == GET else None)]
        return f
    c.eng.contracts = dict(c.eng.contracts, g_weak_ref_init=note(INIT), g_weak_ref_clear=note(CLEAR), g_weak_ref_set=note(SET), g_weak_ref_get=note(GET))


def is_ev(o, code, self, obj=None):
    return And(o.evn == 1, o.ev(0, 0) == code, o.ev(0, 1) == self.b.z, *([o.ev(0, 2) == obj.b.z, o.ev(0, 3) == obj.o.z] if obj else []))


@spec('gutil_weakref', ['W01'], SRC, fns=['gutil_weakref_new', 'gutil_weakref_ref', 'gutil_weakref_unref', 'gutil_weakref_get', 'gutil_weakref_set'])
def _(run):
    f = 'gutil_weakref_'
    c = run.case('new')
    contracts(c)
    obj = c.anyptr('obj')
    for o in c.call(f + 'new', obj):
        o.ensure('a new object with one reference', And(o.alive(o.ret), o.ret.o.z == 0, o.i(o.ret, WS, 'ref_count') == 1))
        o.ensure('which refers to the given one', is_ev(o, INIT, o.ret, obj))
    for x in ('ref', 'unref', 'get', 'set'):
        c = run.case(x + ' of NULL')
        contracts(c, c.anyptr('got'))
        for o in c.call(f + x, *([NULL] if x != 'set' else [NULL, c.anyptr('obj')])):
            o.ensure('nothing happens', And(o.evn == 0, o.null() if x in ('ref', 'get') else True))
    for x in ('ref', 'unref', 'last unref', 'get', 'set'):
        c = run.case(x)
        s = c.struct(WS)
        n = c.int('ref', 32, 2 if x == 'unref' else 1, 1 if x == 'last unref' else 2**31 - 2)
        c.set(s, WS, 'ref_count', n)
        got, obj = c.anyptr('got'), c.anyptr('obj')
        contracts(c, got)
        if x == 'last unref':
            def released(eng, st, p, ins):
                eng.oblige(st, 'the weak reference is given up before the memory', And(st.g['evn'].z == 1, p.b.z == s.b.z), ins)
            c.st.user['onslicefree'] = released
        for o in c.call(f + x.split()[-1], *([s, obj] if x == 'set' else [s])):
            if x == 'last unref':
                o.ensure('released', Not(o.alive(s)))
                o.ensure('and refers to nothing', is_ev(o, CLEAR, s))
                continue
            d = {'ref': 1, 'unref': -1}.get(x, 0)
            o.ensure('still there', And(o.alive(s), o.i(s, WS, 'ref_count') == c.eng.sv(c.st, n).z + d))
            if x == 'ref':
                o.ensure('the same object', And(o.ret_is(s), o.evn == 0))
            elif x == 'unref':
                o.ensure('no effect but that', o.evn == 0)
            elif x == 'get':
                o.ensure('what it refers to now', And(o.ret_is(got), is_ev(o, GET, s)))
            else:
                o.ensure('refers to the given one', is_ev(o, SET, s, obj))
