"""Parser for the textual LLVM IR that clang-18 emits for /repo's sources.

Only the subset produced by `clang -O0` followed by `opt -passes=mem2reg,loop-simplify`
is understood; anything else raises Unsupported (never silently skipped)."""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(r'''\s*(?:
    (c"(?:[^"\\]|\\.)*")|
    ("(?:[^"\\]|\\.)*")|
    ([%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))|
    (![-a-zA-Z$._0-9]*)|
    (\#\d+)|
    (-?\d+\.\d+(?:e[+-]?\d+)?)|
    (0x[0-9A-Fa-f]+)|
    (-?\d+)|
    (\.\.\.)|
    ([a-zA-Z_][-a-zA-Z0-9_.]*)|
    ([()\[\]{}<>,=*:|])
    )''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise Unsupported('tokenize: %r' % s[i:i + 60])
        out.append(m.group(m.lastindex))
        i = m.end()
    return out


# ---- types -------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'n', 'e', 'name')

    def __init__(self, k, n=None, e=None, name=None):
        self.k, self.n, self.e, self.name = k, n, e, name

    def __repr__(self):
        if self.k == 'i':
            return 'i%d' % self.n
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.e)
        if self.k == 'st':
            return self.name or '{%s}' % ','.join(map(repr, self.e))
        return self.k


PTR = Ty('ptr')
VOID = Ty('void')


class Instr:
    __slots__ = ('op', 'res', 'a', 'line', 'text', 'fn')

    def __init__(self, op, res, a, line, text, fn):
        self.op, self.res, self.a, self.line, self.text, self.fn = op, res, a, line, text, fn

    def __repr__(self):
        return self.text


class Function:
    def __init__(self, name, ret, params, module):
        self.name, self.ret, self.params, self.module = name, ret, params, module
        self.blocks = {}
        self.order = []
        self.internal = False
        self.vararg = False
        self.loops = None

    def finish(self):
        """CFG, dominators, natural loops."""
        succ = {}
        for b in self.order:
            t = self.blocks[b][-1]
            if t.op == 'br':
                succ[b] = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch':
                succ[b] = [t.a[1]] + [x[1] for x in t.a[2]]
            elif t.op in ('ret', 'unreachable'):
                succ[b] = []
            else:
                raise Unsupported('terminator %s' % t.text)
        self.succ = succ
        pred = {b: [] for b in self.order}
        for b in self.order:
            for s in succ[b]:
                pred[s].append(b)
        self.pred = pred
        # dominators (simple iterative)
        allb = set(self.order)
        entry = self.order[0]
        dom = {b: set(allb) for b in self.order}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in self.order[1:]:
                ps = [p for p in pred[b]]
                if not ps:
                    continue
                nd = set.intersection(*[dom[p] for p in ps]) | {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        loops = {}
        for b in self.order:
            for s in succ[b]:
                if s in dom[b]:  # back edge
                    body = {s, b}
                    st = [b]
                    while st:
                        x = st.pop()
                        if x == s:
                            continue
                        for p in pred[x]:
                            if p not in body:
                                body.add(p)
                                st.append(p)
                    loops.setdefault(s, set()).update(body)
        self.loops = loops
        # reducibility check: every retreating edge must be a back edge
        seen, onst = set(), set()

        def dfs(u):
            stack = [(u, iter(succ[u]))]
            seen.add(u)
            onst.add(u)
            while stack:
                x, it = stack[-1]
                for v in it:
                    if v in onst:
                        if v not in dom[x]:
                            raise Unsupported('irreducible CFG in %s' % self.name)
                    elif v not in seen:
                        seen.add(v)
                        onst.add(v)
                        stack.append((v, iter(succ[v])))
                        break
                else:
                    onst.discard(x)
                    stack.pop()
        dfs(entry)


class Module:
    def __init__(self, text, name):
        self.text = text
        self.name = name
        self.structs = {}
        self.globals = {}      # name -> (type, init const or None, is_const)
        self.funcs = {}
        self.decls = {}
        self.md = {}
        self.fields = {}       # struct DI name -> {field: (byteoff, size)}
        self.dilines = {}
        self._parse(text)

    # -- type helpers
    def sizeof(self, t):
        if t.k == 'i':
            return max(1, (t.n + 7) // 8) if t.n in (1, 8, 16, 32, 64) else self._uns('i%d' % t.n)
        if t.k == 'ptr':
            return 8
        if t.k == 'double':
            return 8
        if t.k == 'float':
            return 4
        if t.k == 'arr':
            return t.n * self.sizeof(t.e)
        if t.k == 'st':
            return self.layout(t)[0]
        raise Unsupported('sizeof %r' % t)

    def _uns(self, m):
        raise Unsupported(m)

    def alignof(self, t):
        if t.k in ('i', 'ptr', 'double', 'float'):
            return self.sizeof(t)
        if t.k == 'arr':
            return self.alignof(t.e)
        if t.k == 'st':
            return self.layout(t)[1]
        raise Unsupported('align %r' % t)

    def layout(self, t):
        els, packed = self.structs[t.name] if t.name else (t.e, False)
        if els is None:
            raise Unsupported('opaque struct %s' % t.name)
        off = 0
        al = 1
        offs = []
        for e in els:
            a = 1 if packed else self.alignof(e)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.sizeof(e)
        off = (off + al - 1) // al * al
        return off, al, offs, els

    # -- parsing
    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        for ln in lines:
            if ln.startswith('!'):
                m = re.match(r'^!(\d+) = (.*)$', ln)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                nm, _, rest = ln.partition(' = type ')
                if rest.strip() == 'opaque':
                    self.structs[nm] = (None, False)
                else:
                    tk = tokenize(rest)
                    packed = tk[0] == '<'
                    if packed:
                        tk = tk[1:-1]
                    p = P(tk, self)
                    t = p.ty()
                    self.structs[nm] = (t.e, packed)
            elif ln.startswith('@'):
                self._global(ln)
            elif ln.startswith('declare'):
                m = re.search(r'(@[-\w.$]+)\(', ln)
                self.decls[m.group(1)[1:]] = ln
            elif ln.startswith('define'):
                i = self._func(lines, i)
            i += 1
        self._di()

    def _global(self, ln):
        nm, _, rest = ln.partition(' = ')
        rest = re.sub(r', (align \d+|!dbg !\d+|section "[^"]*"|comdat)', '', rest)
        m = re.match(r'((?:private|internal|dso_local|external|unnamed_addr|local_unnamed_addr|hidden|common|linkonce_odr|appending|weak|thread_local)\s+)*(?:thread_local(?:\([a-z]+\))?\s+)?(constant|global)\s+(.*)$', rest)
        if not m:
            raise Unsupported('global ' + ln[:100])
        const = m.group(2) == 'constant'
        tk = tokenize(m.group(3))
        p = P(tk, self)
        t = p.ty()
        init = None
        if not p.end():
            init = p.const(t)
        self.globals[nm[1:]] = (t, init, const, 'external' in rest.split(m.group(2))[0])

    def _func(self, lines, i):
        ln = lines[i]
        internal = ' internal ' in ln
        m = re.match(r'define\s+(.*?)(@[-\w.$]+)\((.*)\)[^)]*\{\s*$', ln)
        if not m:
            raise Unsupported('define ' + ln)
        name = m.group(2)[1:]
        rt = tokenize(m.group(1))
        rt = [x for x in rt if x not in ('dso_local', 'internal', 'hidden', 'noalias', 'zeroext', 'signext', 'noundef', 'linkonce_odr', 'available_externally', 'nonnull', 'weak', 'private')]
        ret = P(rt, self).ty()
        tk = tokenize(m.group(3))
        p = P(tk, self)
        params = []
        vararg = False
        while not p.end():
            if p.peek() == '...':
                p.next()
                vararg = True
                break
            t = p.ty()
            while p.peek() in ('noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'align', 'byval', 'readonly', 'nocapture') or re.match(r'^\d+$', p.peek() or ''):
                if p.peek() == 'byval':
                    raise Unsupported('byval')
                p.next()
            params.append((p.next(), t))
            if not p.end():
                p.expect(',')
        f = Function(name, ret, params, self)
        f.internal = internal
        f.vararg = vararg
        i += 1
        cur = None
        auto = len(params)
        pend = None
        while True:
            l = lines[i]
            i += 1
            if l.startswith('}'):
                break
            s = l.strip()
            if not s or s.startswith(';'):
                continue
            mm = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if mm and not l.startswith(' '):
                cur = '%' + mm.group(1)
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = '%entry' if False else '%' + str(auto)
                f.blocks[cur] = []
                f.order.append(cur)
            if '@llvm.dbg.' in s:
                continue
            if s.startswith('switch ') and not s.rstrip().endswith(']') and ']' not in s:
                while ']' not in lines[i]:
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ' + lines[i].strip()
                i += 1
            ins = self._instr(s, f)
            f.blocks[cur].append(ins)
        f.finish()
        self.funcs[name] = f
        return i - 1

    def _instr(self, s, f):
        line = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            line = int(m.group(1))
        core = re.sub(r',? !(?:dbg|llvm\.loop|srcloc|tbaa|range|nosanitize|heapallocsite|nonnull|noundef|prof) !\d+', '', s)
        res = None
        mm = re.match(r'^(%(?:"[^"]*"|[-\w.$]+)) = (.*)$', core)
        if mm:
            res, core = mm.group(1), mm.group(2)
        tk = tokenize(core)
        p = P(tk, self)
        op = p.next()
        a = None
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'ret':
            if p.peek() == 'void':
                a = [None]
            else:
                t = p.ty()
                a = [p.val(t)]
        elif op == 'br':
            if p.peek() == 'label':
                p.next()
                a = [p.next()]
            else:
                t = p.ty()
                c = p.val(t)
                p.expect(',')
                p.expect('label')
                l1 = p.next()
                p.expect(',')
                p.expect('label')
                a = [c, l1, p.next()]
        elif op == 'switch':
            t = p.ty()
            c = p.val(t)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cs = []
            while p.peek() != ']':
                t2 = p.ty()
                v = p.val(t2)
                p.expect(',')
                p.expect('label')
                cs.append((v, p.next()))
            a = [c, d, cs]
        elif op == 'unreachable':
            a = []
        elif op == 'alloca':
            t = p.ty()
            n = None
            if p.peek() == ',':
                p.next()
                if p.peek() != 'align':
                    t2 = p.ty()
                    n = p.val(t2)
            a = [t, n]
        elif op == 'load':
            while p.peek() in ('atomic', 'volatile'):
                p.next()
            t = p.ty()
            p.expect(',')
            p.ty()
            a = [t, p.val(PTR)]
        elif op == 'store':
            while p.peek() in ('atomic', 'volatile'):
                p.next()
            t = p.ty()
            v = p.val(t)
            p.expect(',')
            p.ty()
            a = [t, v, p.val(PTR)]
        elif op == 'getelementptr':
            inb = False
            if p.peek() == 'inbounds':
                inb = True
                p.next()
            t = p.ty()
            p.expect(',')
            p.ty()
            base = p.val(PTR)
            idx = []
            while p.peek() == ',':
                p.next()
                t2 = p.ty()
                idx.append((t2, p.val(t2)))
            a = [t, base, idx, inb]
        elif op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'lshr', 'ashr'):
            fl = set()
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
                fl.add(p.next())
            t = p.ty()
            x = p.val(t)
            p.expect(',')
            y = p.val(t)
            a = [t, x, y, fl]
        elif op == 'icmp':
            pr = p.next()
            t = p.ty()
            x = p.val(t)
            p.expect(',')
            a = [pr, t, x, p.val(t)]
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.ty()
            v = p.val(t)
            p.expect('to')
            a = [t, v, p.ty()]
        elif op == 'phi':
            t = p.ty()
            inc = {}
            while True:
                p.expect('[')
                v = p.val(t)
                p.expect(',')
                b = p.next()
                p.expect(']')
                inc[b] = v
                if p.end() or p.peek() != ',':
                    break
                p.next()
            a = [t, inc]
        elif op == 'select':
            t = p.ty()
            c = p.val(t)
            p.expect(',')
            t1 = p.ty()
            x = p.val(t1)
            p.expect(',')
            t2 = p.ty()
            a = [c, t1, x, p.val(t2)]
        elif op == 'atomicrmw':
            if p.peek() == 'volatile':
                p.next()
            o = p.next()
            p.ty()
            ptr = p.val(PTR)
            p.expect(',')
            t = p.ty()
            a = [o, ptr, t, p.val(t)]
        elif op == 'cmpxchg':
            while p.peek() in ('weak', 'volatile'):
                p.next()
            p.ty()
            ptr = p.val(PTR)
            p.expect(',')
            t = p.ty()
            x = p.val(t)
            p.expect(',')
            t = p.ty()
            a = [ptr, t, x, p.val(t)]
        elif op == 'extractvalue':
            t = p.ty()
            v = p.val(t)
            p.expect(',')
            a = [t, v, int(p.next())]
        elif op == 'freeze':
            t = p.ty()
            a = [t, p.val(t)]
        elif op == 'call':
            while p.peek() in ('noalias', 'zeroext', 'signext', 'noundef', 'nonnull', 'fastcc', 'align', 'dereferenceable', 'range'):
                p.next()
            rt = p.ty()
            if p.peek() == '(':
                d = 0
                while True:
                    x = p.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            if p.peek() == 'asm':
                a = ['asm', rt, [], s]
            else:
                callee = p.val(PTR)
                p.expect('(')
                args = []
                while p.peek() != ')':
                    if p.peek() == 'metadata':
                        raise Unsupported('metadata call ' + s)
                    t = p.ty()
                    while p.peek() in ('noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'align', 'byval', 'readonly', 'nocapture', 'immarg') or (re.match(r'^\d+$', p.peek()) and re.match(r'^[%@\d-]|null|true|false|undef|poison|getelem', p.peek(1) or '') and p.peek(1) not in (',', ')')):
                        p.next()
                    args.append((t, p.val(t)))
                    if p.peek() == ',':
                        p.next()
                a = [callee, rt, args]
        else:
            a = None
        return Instr(op, res, a, line, s, f)

    def srcline(self, ins):
        if ins.line is None:
            return 0
        m = re.search(r'line: (\d+)', self.md.get(ins.line, ''))
        return int(m.group(1)) if m else 0

    def _di(self):
        for k, v in self.md.items():
            m = re.search(r'DICompositeType\(tag: DW_TAG_(structure|union)_type, (?:name: "([^"]+)", )?.*?elements: !(\d+)', v)
            if not m:
                continue
            nm = m.group(2)
            if not nm:
                continue
            fl = {}
            for e in re.findall(r'!(\d+)', self.md.get(int(m.group(3)), '')):
                d = self.md.get(int(e), '')
                mm = re.search(r'DIDerivedType\(tag: DW_TAG_member, name: "([^"]+)".*?size: (\d+)(?:, offset: (\d+))?', d)
                if mm:
                    fl[mm.group(1)] = (int(mm.group(3) or 0) // 8, int(mm.group(2)) // 8)
            self.fields[nm] = fl


class P:
    def __init__(self, tk, mod):
        self.t, self.i, self.m = tk, 0, mod

    def peek(self, d=0):
        return self.t[self.i + d] if self.i + d < len(self.t) else None

    def end(self):
        return self.i >= len(self.t)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported('expected %s got %s in %s' % (x, y, ' '.join(self.t)))

    def ty(self):
        x = self.next()
        if x == 'ptr':
            return PTR
        if x == 'void':
            return VOID
        if x in ('double', 'float', 'x86_fp80', 'label', 'metadata'):
            return Ty(x)
        if re.match(r'^i\d+$', x):
            return Ty('i', int(x[1:]))
        if x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.ty()
            self.expect(']')
            return Ty('arr', n, e)
        if x == '{':
            es = []
            while self.peek() != '}':
                es.append(self.ty())
                if self.peek() == ',':
                    self.next()
            self.next()
            return Ty('st', None, es)
        if x[0] == '%':
            return Ty('st', None, None, x)
        raise Unsupported('type %s in %s' % (x, ' '.join(self.t)))

    def val(self, t):
        return self.const(t)

    def const(self, t):
        """Operand: ('loc',name) ('int',n) ('null',) ('glob',name) ('undef',) ('gep',...)
        ('bytes',b) ('agg',[...]) ('zero',)"""
        x = self.next()
        if x[0] == '%':
            return ('loc', x)
        if x[0] == '@':
            return ('glob', x[1:])
        if x == 'null':
            return ('null',)
        if x == 'true':
            return ('int', 1)
        if x == 'false':
            return ('int', 0)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x.startswith('c"'):
            b = bytearray()
            s = x[2:-1]
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    b.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(s[i]))
                    i += 1
            return ('bytes', bytes(b))
        if x in ('[', '{'):
            close = ']' if x == '[' else '}'
            out = []
            while self.peek() != close:
                t2 = self.ty()
                out.append(self.const(t2))
                if self.peek() == ',':
                    self.next()
            self.next()
            return ('agg', out)
        if x == 'getelementptr':
            if self.peek() == 'inbounds':
                self.next()
            self.expect('(')
            t2 = self.ty()
            self.expect(',')
            self.ty()
            base = self.const(PTR)
            idx = []
            while self.peek() == ',':
                self.next()
                t3 = self.ty()
                idx.append((t3, self.const(t3)))
            self.expect(')')
            return ('gep', t2, base, idx)
        if x in ('inttoptr', 'ptrtoint'):
            self.expect('(')
            t2 = self.ty()
            v = self.const(t2)
            self.expect('to')
            t3 = self.ty()
            self.expect(')')
            return ('cast', x, t2, v, t3)
        if re.match(r'^-?\d+$', x):
            return ('int', int(x))
        if re.match(r'^-?\d+\.', x) or x.startswith('0x'):
            return ('fp', x)
        raise Unsupported('const %s in %s' % (x, ' '.join(self.t)))


if __name__ == '__main__':
    import sys
    for f in sys.argv[1:]:
        m = Module(open(f).read(), f)
        print(f, len(m.funcs), [i.text for fn in m.funcs.values() for b in fn.blocks.values() for i in b if i.a is None])
