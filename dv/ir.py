"""Parser for textual LLVM IR (LLVM 18, opaque pointers), as emitted by clang for /repo's sources.

Function bodies are parsed lazily.  The result is a plain data model used by exec.py.
"""
import re

class IRError(Exception):
    pass

# ------------------------------------------------------------------ types
# types are tuples: ('i',n) ('f64',) ('f32',) ('f80',) ('ptr',) ('void',) ('arr',n,t) ('st',packed,(..)) ('nm',name)
# ('label',) ('meta',) ('opaque',)

TOK = re.compile(r'''\s*(?:
   (?P<str>c"(?:[^"\\]|\\.)*")
 | (?P<name>[%@](?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<meta>!(?:"[^"]*"|\w[\w.]*)?)
 | (?P<num>-?(?:0x[0-9A-Fa-fKMLHR]+|\d+(?:\.\d*)?(?:e[+-]?\d+)?))
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<attr>\#\d+)
 | (?P<dots>\.\.\.)
 | (?P<qstr>"(?:[^"\\]|\\.)*")
 | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    m = TOK.match
    while i < n:
        mm = m(s, i)
        if not mm or mm.end() == i:
            if s[i:].strip() == '':
                break
            raise IRError('lex: ' + s[i:i+80])
        out.append(mm.group(mm.lastgroup))
        i = mm.end()
    return out


def unq(n):
    # %"foo" -> %foo
    if len(n) > 2 and n[1] == '"':
        s = n[2:-1]
        if '\\' in s:
            s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)
        return n[0] + s
    return n

ATTR_WORDS = {
    'noundef', 'nonnull', 'zeroext', 'signext', 'nocapture', 'readonly', 'readnone', 'writeonly', 'returned', 'noalias',
    'inreg', 'immarg', 'nofree', 'noreturn', 'nounwind', 'writable', 'dead_on_unwind', 'allocptr', 'allocalign', 'nest',
    'swiftself', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'ccc', 'fastcc', 'dso_local', 'hidden',
    'local_unnamed_addr', 'unnamed_addr', 'linkonce_odr', 'internal', 'private', 'weak_odr', 'weak', 'external', 'available_externally',
    'protected', 'default', 'thread_local', 'common', 'mustprogress', 'tail', 'musttail', 'notail', 'volatile', 'exact', 'nneg', 'disjoint',
    'linkonce', 'appending', 'extern_weak', 'nuw', 'nsw', 'inbounds', 'samesign',
}


class P:
    """token stream"""
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.next() != x:
            raise IRError('expected %s got %s in %s' % (x, self.t[self.i-1], ' '.join(self.t)[:200]))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def type(self):
        x = self.next()
        if x == 'ptr':
            t = ('ptr',)
            if self.peek() == 'addrspace':
                self.next(); self.skip_parens()
        elif x == 'void':
            t = ('void',)
        elif x == 'double':
            t = ('f64',)
        elif x == 'float':
            t = ('f32',)
        elif x == 'x86_fp80':
            t = ('f80',)
        elif x == 'label':
            t = ('label',)
        elif x == 'metadata':
            t = ('meta',)
        elif x == 'opaque':
            t = ('opaque',)
        elif x == 'half' or x == 'fp128' or x == 'token':
            t = (x,)
        elif x[0] == 'i' and x[1:].isdigit():
            t = ('i', int(x[1:]))
        elif x[0] == '%':
            t = ('nm', unq(x)[1:])
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            t = ('arr', n, e)
        elif x == '{':
            t = ('st', False, self._list('}'))
        elif x == '<':
            if self.peek() == '{':
                self.next()
                l = self._list('}')
                self.expect('>')
                t = ('st', True, l)
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                t = ('vec', n, e)
        else:
            raise IRError('type? ' + x + ' in ' + ' '.join(self.t)[:200])
        # function type suffix  "ret (args)"  (only seen in call of varargs)
        return t

    def _list(self, end):
        l = []
        if self.accept(end):
            return tuple(l)
        while True:
            l.append(self.type())
            if self.accept(end):
                return tuple(l)
            self.expect(',')

    def attrs(self):
        """skip parameter/return attributes; returns dict of interesting ones"""
        d = {}
        while True:
            x = self.peek()
            if x is None:
                return d
            if x in ATTR_WORDS:
                self.next(); d[x] = True
            elif x in ('align',):
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
                else:
                    self.next()
            elif x in ('dereferenceable', 'dereferenceable_or_null'):
                self.next(); self.expect('('); d['deref'] = int(self.next()); self.expect(')')
            elif x in ('sret', 'byval', 'byref', 'inalloca', 'preallocated', 'elementtype'):
                self.next(); self.expect('('); d[x] = self.type(); self.expect(')')
            elif x in ('memory', 'range', 'captures', 'initializes', 'addrspace', 'nofpclass'):
                self.next(); self.skip_parens()
            else:
                return d

    def value(self, ty):
        """value of known type -> operand tuple"""
        x = self.next()
        if x[0] == '%':
            return ('r', unq(x)[1:])
        if x[0] == '@':
            return ('g', unq(x)[1:])
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef', ty)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x == 'zeroinitializer':
            return ('zero', ty)
        if x == 'none':
            return ('undef', ty)
        if x[0] == 'c' and len(x) > 1 and x[1] == '"':
            s = x[2:-1]
            b = bytearray()
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i+1] == '\\':
                        b.append(92); i += 2
                    else:
                        b.append(int(s[i+1:i+3], 16)); i += 3
                else:
                    b.append(ord(s[i])); i += 1
            return ('bytes', bytes(b))
        if x[0] == '-' or x[0].isdigit():
            if ty[0] == 'i':
                return ('c', int(x, 0))
            return ('fp', x)
        if x in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'add', 'sub', 'addrspacecast', 'icmp', 'select', 'zext', 'sext'):
            return self.constexpr(x)
        if x == '[':
            l = []
            while not self.accept(']'):
                t = self.type(); l.append((t, self.value(t)))
                self.accept(',')
            return ('agg', l)
        if x == '{':
            l = []
            while not self.accept('}'):
                t = self.type(); l.append((t, self.value(t)))
                self.accept(',')
            return ('agg', l)
        if x == '<':
            if self.accept('{'):
                l = []
                while not self.accept('}'):
                    t = self.type(); l.append((t, self.value(t)))
                    self.accept(',')
                self.expect('>')
                return ('agg', l)
            l = []
            while not self.accept('>'):
                t = self.type(); l.append((t, self.value(t)))
                self.accept(',')
            return ('agg', l)
        if x == 'asm':
            raise IRError('inline asm')
        if x == 'blockaddress' or x == 'dso_local_equivalent' or x == 'no_cfi':
            raise IRError(x)
        raise IRError('value? %s in %s' % (x, ' '.join(self.t)[:300]))

    def constexpr(self, op):
        if op == 'getelementptr':
            self.attrs()
            if self.peek() == 'inrange':
                self.next(); self.skip_parens()
            self.expect('(')
            ty = self.type(); self.expect(',')
            ops = self._tvlist(')')
            return ('cgep', ty, ops)
        if op in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'addrspacecast', 'zext', 'sext'):
            self.expect('(')
            t = self.type(); v = self.value(t)
            self.expect('to')
            t2 = self.type(); self.expect(')')
            return ('ccast', op, t, v, t2)
        if op in ('add', 'sub'):
            self.attrs()
            self.expect('(')
            return ('cbin', op, self._tvlist(')'))
        raise IRError('constexpr ' + op)

    def _tvlist(self, end):
        l = []
        while True:
            if self.accept(end):
                return l
            self.accept('inrange')
            t = self.type(); self.attrs()
            l.append((t, self.value(t)))
            self.accept(',')

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'line')

    def __init__(self, op, dst=None, ty=None, a=None, x=None, line=''):
        self.op, self.dst, self.ty, self.a, self.x, self.line = op, dst, ty, a, x, line

    def __repr__(self):
        return self.line.strip()


class Func:
    def __init__(self, mod, name, header, body):
        self.mod, self.name = mod, name
        self._header, self._body = header, body
        self._blocks = None
        self._params = None
        self.defined = body is not None
        self._loops = None

    def _parse_header(self):
        h = re.sub(r'\bcomdat\(\$(?:"[^"]*"|[^)\s]*)\)', 'comdat', self._header)
        p = P(tokenize(h[:h.rindex(')') + 1] if ')' in h else h))
        p.next()  # define/declare
        p.attrs()
        while p.peek() in ('cc', ):
            p.next()
        self.ret_attrs = p.attrs()
        self.ret = p.type()
        while p.peek() and p.peek()[0] != '@':
            p.next()
        p.next()
        p.expect('(')
        ps = []
        self.vararg = False
        while not p.accept(')'):
            if p.accept('...'):
                self.vararg = True
                continue
            t = p.type(); at = p.attrs()
            nm = None
            if p.peek() and p.peek()[0] == '%':
                nm = unq(p.next())[1:]
            ps.append((t, nm, at))
            p.accept(',')
        # unnamed params get numbers
        self._params = [(t, nm if nm is not None else str(i), at) for i, (t, nm, at) in enumerate(ps)]

    @property
    def params(self):
        if self._params is None:
            self._parse_header()
        return self._params

    @property
    def rettype(self):
        if self._params is None:
            self._parse_header()
        return self.ret

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse_body()
        return self._blocks

    def _parse_body(self):
        blocks = {}
        cur = None
        order = []
        lines = self._body
        # merge multi-line instructions (switch)
        acc = None
        for ln in lines:
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            if acc is not None:
                acc += ' ' + s
                if s.startswith(']'):
                    cur.append(parse_ins(acc)); acc = None
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):(\s*;.*)?$', s)
            if m and not ln.startswith('  '):
                nm = m.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                cur = []
                blocks[nm] = cur
                order.append(nm)
                continue
            if cur is None:
                nm = str(len(self.params))
                cur = []
                blocks[nm] = cur; order.append(nm)
            if s.startswith('switch ') and not s.rstrip().endswith(']'):
                acc = s
                continue
            # strip trailing metadata
            cur.append(parse_ins(s))
        self._blocks = blocks
        self.order = order
        self.entry = order[0]

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return list(dict.fromkeys(t.a['targets']))
        if t.op == 'switch':
            return list(dict.fromkeys([t.a['default']] + [l for _, l in t.a['cases']]))
        return []

    def loops(self):
        """natural loops: header -> set(blocks). raises IRError if irreducible."""
        if self._loops is not None:
            return self._loops
        blocks = self.blocks
        # reachable + RPO + dominators (iterative)
        rpo = []
        seen = set()
        stack = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                rpo.append(b)
                stack.pop()
        rpo.reverse()
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new; ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
                elif idx[s] <= idx[b]:
                    raise IRError('irreducible control flow')
        self.rpo, self.preds, self.idx = rpo, preds, idx
        self._loops = loops
        return loops


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'}

_md = re.compile(r',\s*!(?:dbg|tbaa|prof|range|nonnull|noundef|srcloc|llvm\.loop|heapallocsite|align|nosanitize|invariant\.group|invariant\.load|callees|tbaa\.struct|unpredictable|dereferenceable)\b.*$')


def parse_ins(s):
    line = s
    i = s.find(', !')
    if i >= 0 and 'metadata' not in s:
        s = s[:i]
    elif i >= 0:
        s = _md.sub('', s)
    p = P(tokenize(s))
    dst = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        dst = unq(p.next())[1:]
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    I = Ins(op, dst, line=line)
    if op in BIN:
        at = p.attrs()
        t = p.type()
        a = p.value(t); p.expect(',')
        b = p.value(t)
        I.ty = t; I.a = (a, b); I.x = at
    elif op in CAST:
        p.attrs()
        t = p.type(); a = p.value(t); p.expect('to')
        I.x = t; I.a = a; I.ty = p.type()
    elif op in ('icmp', 'fcmp'):
        p.attrs()
        pr = p.next()
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        I.x = (pr, t); I.a = (a, b); I.ty = ('i', 1)
    elif op == 'fneg':
        p.attrs(); t = p.type(); I.ty = t; I.a = p.value(t)
    elif op == 'alloca':
        p.attrs()
        t = p.type(); I.ty = t
        n = None
        if p.accept(','):
            if p.peek() != 'align':
                nt = p.type(); n = p.value(nt)
        I.a = n
    elif op == 'load':
        at = p.attrs()
        p.accept('atomic')
        p.attrs()
        t = p.type(); p.expect(',')
        pt = p.type(); I.ty = t; I.a = p.value(pt)
    elif op == 'store':
        p.accept('atomic')
        p.attrs()
        t = p.type(); v = p.value(t); p.expect(',')
        pt = p.type(); I.ty = t; I.a = (v, p.value(pt))
    elif op == 'getelementptr':
        p.attrs()
        t = p.type(); p.expect(',')
        I.x = t
        ops = []
        while p.peek() is not None:
            tt = p.type(); ops.append((tt, p.value(tt)))
            if not p.accept(','):
                break
        I.a = ops; I.ty = ('ptr',)
    elif op == 'br':
        if p.accept('label'):
            I.a = {'cond': None, 'targets': [unq(p.next())[1:]]}
        else:
            t = p.type(); c = p.value(t)
            p.expect(','); p.expect('label'); t1 = unq(p.next())[1:]
            p.expect(','); p.expect('label'); t2 = unq(p.next())[1:]
            I.a = {'cond': c, 'targets': [t1, t2]}
    elif op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = unq(p.next())[1:]
        p.expect('[')
        cs = []
        while not p.accept(']'):
            tt = p.type(); cv = p.value(tt); p.expect(','); p.expect('label'); cs.append((cv[1], unq(p.next())[1:]))
        I.a = {'val': v, 'ty': t, 'default': d, 'cases': cs}
    elif op == 'ret':
        t = p.type()
        I.ty = t
        I.a = None if t == ('void',) else p.value(t)
    elif op == 'phi':
        p.attrs()
        t = p.type(); I.ty = t
        inc = []
        while p.accept('['):
            v = p.value(t); p.expect(','); b = unq(p.next())[1:]; p.expect(']')
            inc.append((v, b))
            p.accept(',')
        I.a = inc
    elif op == 'select':
        p.attrs()
        t, c = p.tv(); p.expect(',')
        t1, a = p.tv(); p.expect(',')
        t2, b = p.tv()
        I.ty = t1; I.a = (c, a, b)
    elif op == 'call' or op == 'invoke':
        p.attrs()
        while p.peek() in ('cc',):
            p.next(); p.next()
        p.attrs()
        t = p.type()
        if p.peek() == '(':       # function type for varargs
            p.skip_parens()
        if p.peek() == 'asm':
            I.op = 'asm'
            return I
        callee = p.value(('ptr',))
        p.expect('(')
        args = []
        while not p.accept(')'):
            at_ = p.type()
            if at_ == ('meta',):
                tok = p.next()
                if tok == '!' or tok.startswith('!'):
                    args.append((at_, ('meta', tok), {}))
                    # complex metadata
                    while p.peek() not in (',', ')'):
                        p.next()
                else:
                    # metadata ptr %x
                    p.i -= 1
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        if p.peek() == '(':
                            d += 1
                        if p.peek() == ')':
                            d -= 1
                        p.next()
                    args.append((at_, ('meta', ''), {}))
            else:
                pat = p.attrs()
                args.append((at_, p.value(at_), pat))
            p.accept(',')
        I.ty = t; I.a = (callee, args)
    elif op == 'extractvalue':
        t = p.type(); v = p.value(t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        I.x = t; I.a = (v, idx)
    elif op == 'insertvalue':
        t = p.type(); v = p.value(t); p.expect(',')
        t2 = p.type(); v2 = p.value(t2)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        I.ty = t; I.a = (v, t2, v2, idx)
    elif op == 'freeze':
        t = p.type(); I.ty = t; I.a = p.value(t)
    elif op in ('unreachable', 'fence', 'resume'):
        pass
    else:
        pass  # unsupported: exec raises when reached
    return I


class Module:
    def __init__(self, path):
        self.types = {}
        self.globals = {}
        self.globlines = {}
        self.funcs = {}
        self.meta = {}
        with open(path) as f:
            lines = f.read().split('\n')
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                nm = m.group(1).strip('"')
                self.funcs[nm] = Func(self, nm, l, lines[i+1:j])
                i = j + 1
                continue
            if l.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                nm = m.group(1).strip('"')
                self.funcs[nm] = Func(self, nm, l, None)
            elif l.startswith('%'):
                k = l.index(' = type ')
                self.types[unq(l[:k].strip())[1:]] = l[k+8:]
            elif l.startswith('@'):
                k = l.index(' = ')
                self.globlines[unq(l[:k])[1:]] = l
            elif l.startswith('!') and ' = ' in l:
                k = l.index(' = ')
                self.meta[l[1:k]] = l[k+3:]
            i += 1
        self._tycache = {}
        self._size = {}
        self._glob = {}
        self._vt = None

    def struct(self, name):
        t = self._tycache.get(name)
        if t is None:
            s = self.types.get(name)
            if s is None:
                raise IRError('unknown type ' + name)
            t = P(tokenize(s)).type()
            self._tycache[name] = t
        return t

    def resolve(self, t):
        return self.struct(t[1]) if t[0] == 'nm' else t

    def size_align(self, t):
        r = self._size.get(t)
        if r:
            return r
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            s = 1
            while s < b:
                s *= 2
            r = (s, min(s, 16))
        elif k == 'f64' or k == 'ptr':
            r = (8, 8)
        elif k == 'f32':
            r = (4, 4)
        elif k in ('f80', 'fp128'):
            r = (16, 16)
        elif k == 'arr':
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k == 'vec':
            s, a = self.size_align(t[2])
            r = (s * t[1], s * t[1])
        elif k == 'st':
            off, al = 0, 1
            for e in t[2]:
                s, a = self.size_align(e)
                if t[1]:
                    a = 1
                off = (off + a - 1) // a * a
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al)
        elif k == 'nm':
            r = self.size_align(self.struct(t[1]))
        else:
            raise IRError('size of ' + str(t))
        self._size[t] = r
        return r

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field_off(self, st, idx):
        off = 0
        for i, e in enumerate(st[2]):
            s, a = self.size_align(e)
            if st[1]:
                a = 1
            off = (off + a - 1) // a * a
            if i == idx:
                return off, e
            off += s
        raise IRError('field index')

    def glob(self, name):
        """-> (type, initializer operand or None, is_const)"""
        g = self._glob.get(name)
        if g is not None:
            return g
        l = self.globlines.get(name)
        if l is None:
            return None
        k = l.index(' = ')
        body = l[k+3:]
        p = P(tokenize(re.split(r', (?:comdat|align|section|!)', body)[0]) if False else tokenize(body))
        p.attrs()
        while p.peek() in ('thread_local', 'localdynamic', 'externally_initialized', '(', ')'):
            if p.peek() == '(':
                p.skip_parens()
            else:
                p.next()
            p.attrs()
        if p.peek() == 'alias':
            p.next()
            p.type()
            if p.peek() == '(':
                p.skip_parens()
            p.expect(',')
            t2 = p.type()
            g = ('alias', p.value(t2), True)
            self._glob[name] = g
            return g
        kind = p.next()
        assert kind in ('global', 'constant'), l[:200]
        t = p.type()
        init = None
        if p.peek() is not None and p.peek() != ',':
            init = p.value(t)
        g = (t, init, kind == 'constant')
        self._glob[name] = g
        return g

    # ---- vtables
    def vtables(self):
        """vtable symbol -> [(offset, class typeid)]"""
        if self._vt is None:
            self._vt = {}
            for nm, l in self.globlines.items():
                if nm.startswith('_ZTV') and '!type' in l:
                    ts = []
                    for m in re.finditer(r'!type !(\d+)', l):
                        md = self.meta[m.group(1)]
                        mm = re.match(r'!\{i64 (\d+), !"([^"]+)"\}', md)
                        if mm and not mm.group(2).endswith('.virtual'):
                            ts.append((int(mm.group(1)), mm.group(2)))
                    self._vt[nm] = ts
        return self._vt

    def vtable_slot(self, vt, off):
        g = self.glob(vt)
        # { [n x ptr], ... }
        st = g[1][1]
        cur = 0
        for t, v in st:
            n = t[1]
            if off < cur + 8 * n:
                if v[0] == 'zero':
                    return None
                e = v[1][(off - cur) // 8][1]
                return e[1] if e[0] == 'g' else None
            cur += 8 * n
        return None
