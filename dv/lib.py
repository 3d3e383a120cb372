"""Assumed contracts for the C++ standard library, libc and boost's reference-count hooks (the trusted base).

Every handler states the abstract effect of one library operation on the verifier's memory:
  std::string            one cell of kind 'str' holding a string value
  std::vector<T>         a cell 'vsz' (size) plus elements placed at offset K*(off+1)+i*sizeof(T) of the same object
  std::stack/deque       same layout as vector
  std::map<string,V>     a cell 'mhas' (key -> present) plus one slot per key
  std::ostream & friends a cell 'str' with everything written so far
Boost's intrusive_ptr/scoped_ptr are not modelled: their real code is executed; only the two reference-count hooks
intrusive_ptr_add_ref/_release are taken as having no effect visible here (property P-refcount verifies them).
"""
import re
import z3
from .core import *


class MapSeq:
    pass


class StrU:
    """strings as an uninterpreted sort with length/char/concat/substr functions"""
    def __init__(self, ex):
        self.ex = ex
        S = ex.S
        I = z3.IntSort()
        self.flen = z3.Function('slen', S, I)
        self.fat = z3.Function('schar', S, I, I)
        self.fcat = z3.Function('scat', S, S, S)
        self.fsub = z3.Function('ssub', S, I, I, S)
        self.flt = z3.Function('slt', S, S, z3.BoolSort())
        self.fid = z3.Function('slitid', S, I)
        self.ffind = z3.Function('sfind', S, S, I, I)
        self.lits = {}
        self.litof = {}
        self.cats = {}
        self.native = False

    def lit(self, b):
        if b not in self.lits:
            nm = ''.join(chr(c) if 32 < c < 127 else '?' for c in b[:24])
            c = z3.Const('lit%d"%s"' % (len(self.lits), nm), self.ex.S)
            self.lits[b] = c
            self.litof[c.get_id()] = b
            LITS[c.get_id()] = c
            self.ex.axiom(self.fid(c) == len(self.lits))
            self.ex.axiom(self.flen(c) == len(b))
            self.ex.keep.append(c)
        return self.lits[b]

    def litval(self, s):
        return self.litof.get(s.get_id())

    def len(self, s):
        b = self.litval(s)
        if b is not None:
            return len(b)
        if z3.is_app_of(s, z3.Z3_OP_ITE):
            return ite(s.arg(0), self.len(s.arg(1)), self.len(s.arg(2)))
        t = self.flen(s)
        self.ex.set_nonneg(t)
        self.ex.axiom(t >= 0)
        self.ex.axiom(t < (1 << 58))
        e = self.lit(b'')
        self.ex.axiom((t == 0) == (s == e))
        if z3.is_app(s) and s.decl().eq(self.fcat):
            self.ex.axiom(t == zi(self.len(s.arg(0))) + zi(self.len(s.arg(1))))
        return t

    def at(self, s, i):
        b = self.litval(s)
        if b is not None and isinstance(i, int):
            if 0 <= i < len(b):
                c = b[i]
                return c - 256 if c > 127 else c
            return 0
        if b is not None and len(b) <= 64:
            v = z3.IntVal(0)
            for k in range(len(b)):
                c = b[k]
                v = z3.If(i == k, z3.IntVal(c - 256 if c > 127 else c), v)
            return v
        if z3.is_app(s) and s.decl().eq(self.fsub):
            base, p, n = s.children()
            return ite(zb_fold(simp(zi(i) < zi(self.len(s)))), self.at(base, add(i, p)), 0)
        if z3.is_app(s) and s.decl().eq(self.fcat):
            l = self.len(s.arg(0))
            return ite(zb_fold(simp(zi(i) < zi(l))), self.at(s.arg(0), i), self.at(s.arg(1), simp(zi(i) - zi(l)) if not (isinstance(i, int) and isinstance(l, int)) else i - l))
        t = self.fat(s, zi(i))
        self.ex.axiom(And(t >= -128, t <= 127))
        self.ex.axiom(z3.Implies(zi(i) == zi(self.len(s)), t == 0))
        return t

    def cat(self, a, b):
        la, lb = self.litval(a), self.litval(b)
        if la is not None and lb is not None:
            return self.lit(la + lb)
        if la == b'':
            return b
        if lb == b'':
            return a
        # right-associate
        if z3.is_app(a) and a.decl().eq(self.fcat):
            return self.cat(a.arg(0), self.cat(a.arg(1), b))
        if la is not None and z3.is_app(b) and b.decl().eq(self.fcat):
            lb0 = self.litval(b.arg(0))
            if lb0 is not None:
                return self.cat(self.lit(la + lb0), b.arg(1))
        if z3.is_app_of(a, z3.Z3_OP_ITE):
            return ite(a.arg(0), self.cat(a.arg(1), b), self.cat(a.arg(2), b))
        r = self.fcat(a, b)
        if r.get_id() not in self.cats:
            self.cats[r.get_id()] = r
            e = self.lit(b'')
            if la is None:
                self.ex.axiom(z3.Implies(a == e, r == b))
            if lb is None and z3.is_const(b):
                self.ex.axiom(z3.Implies(b == e, r == a))
            self.len(r)
        return r

    def sub(self, s, p, n):
        """substring, n already clamped by caller semantics of std::string::substr"""
        b = self.litval(s)
        if b is not None and isinstance(p, int) and isinstance(n, int):
            return self.lit(b[p:p + n] if n >= 0 else b[p:])
        L = self.len(s)
        if isinstance(p, int) and p == 0 and (isinstance(n, int) and n < 0 or same(n, L)):
            return s
        rem = simp(zi(L) - zi(p))
        ln = rem if isinstance(n, int) and n < 0 else z3.If(zi(n) < 0, rem, z3.If(zi(n) < rem, zi(n), rem))
        ln = simp(ln)
        if z3.is_app(s) and s.decl().eq(self.fsub):      # part of a part
            s, p = s.arg(0), simp(s.arg(1) + zi(p))
            L = self.len(s)
        r = self.fsub(s, zi(p), ln)
        self.ex.axiom(z3.Implies(And(zi(p) >= 0, zi(p) <= zi(L)), self.flen(r) == ln))
        self.len(r)
        self.ex.axiom(z3.Implies(And(zi(p) == 0, ln == zi(L)), r == s))
        return r

    def eq(self, a, b):
        return Eq(a, b)

    def lt(self, a, b):
        return self.flt(a, b)

    def find(self, s, pat, pos):
        r = self.ffind(s, pat, zi(pos))
        lp, ls = zi(self.len(pat)), zi(self.len(s))
        self.ex.axiom(Or(r == -1, And(r >= zi(pos), r + lp <= ls)))
        if z3.is_app(s) and s.decl().eq(self.fsub):      # the rest of a text: as in that text
            base, p0, ln = s.children()
            r2 = self.find(base, pat, simp(p0 + zi(pos)))
            self.ex.axiom(z3.Implies(And(p0 >= 0, zi(pos) >= 0, p0 + ln == zi(self.len(base))), r == z3.If(r2 == -1, z3.IntVal(-1), r2 - p0)))
        b = self.litval(pat)
        if b is not None and 0 < len(b) <= 16:
            self.ex.axiom(z3.Implies(r >= 0, self.match(s, r, b)))
            for j in self.ex.probes:
                self.ex.axiom(z3.Implies(And(j >= zi(pos), j + lp <= ls, Or(r == -1, j < r)), Not(self.match(s, j, b))))
        return r

    def match(self, s, i, b):
        """the bytes b stand at index i of s"""
        return And(*[Eq(self.at(s, simp(zi(i) + k)), c - 256 if c > 127 else c) for k, c in enumerate(b)])

    def find_of(self, s, chars, pos, last, neg):
        """find_first_of / find_last_of / find_first_not_of / find_last_not_of; -1 if there is none"""
        b = self.litval(chars)
        if b is None or len(b) > 64:
            raise Unsupported('find_of with unknown characters')
        f = z3.Function('sfind_%s%s_%s' % ('last' if last else 'first', '_not' if neg else '', b.hex()), self.ex.S, z3.IntSort(), z3.IntSort())
        r = f(s, zi(pos))
        ls = zi(self.len(s))
        hi = z3.If(zi(pos) < 0, ls, zi(pos))      # npos is -1 here

        def inset(i):
            c = self.at(s, i)
            t = Or(*[Eq(c, x - 256 if x > 127 else x) for x in b])
            return Not(t) if neg else t
        if last:
            rng = lambda i: And(zi(i) >= 0, zi(i) < ls, zi(i) <= hi)
            miss = lambda j: Or(r == -1, zi(j) > r)
        else:
            rng = lambda i: And(zi(i) >= hi, zi(i) < ls)
            miss = lambda j: Or(r == -1, zi(j) < r)
        self.ex.axiom(Or(r == -1, And(rng(r), inset(r))))
        for j in self.ex.probes:
            self.ex.axiom(z3.Implies(And(rng(j), miss(j)), Not(inset(j))))
        if not last and not neg and len(b) == 1:         # one character: the same as find
            self.ex.axiom(z3.Implies(zi(pos) >= 0, r == self.find(s, chars, pos)))
        return r

    def byte(self, c):
        """string of one char from int code"""
        if isinstance(c, int):
            return self.lit(bytes([c & 255]))
        f = z3.Function('sbyte', z3.IntSort(), self.ex.S)
        r = f(c)
        self.ex.axiom(self.flen(r) == 1)
        self.ex.axiom(self.fat(r, 0) == c)
        return r


class StrZ:
    """strings as z3 sequences of characters (codes 0..255)"""
    def __init__(self, ex):
        self.ex = ex
        self.native = True

    def lit(self, b):
        return z3.StringVal(''.join(chr(c) if 32 <= c < 127 and c != 92 else '\\u{%x}' % c for c in b))

    def litval(self, s):
        if z3.is_string_value(s):
            t = s.as_string()
            out = bytearray()
            i = 0
            while i < len(t):
                m = re.match(r'\\u\{([0-9a-fA-F]+)\}', t[i:])
                if m:
                    out.append(int(m.group(1), 16) & 255); i += m.end()
                else:
                    out.append(ord(t[i]) & 255); i += 1
            return bytes(out)
        return None

    def len(self, s):
        b = self.litval(s)
        if b is not None:
            return len(b)
        t = simp(z3.Length(s))
        if z3.is_int_value(t):
            return t.as_long()
        self.ex.set_nonneg(t)
        return t

    def at(self, s, i):
        b = self.litval(s)
        if b is not None and isinstance(i, int):
            if 0 <= i < len(b):
                c = b[i]
                return c - 256 if c > 127 else c
            return 0
        t = z3.StrToCode(z3.SubString(s, zi(i), z3.IntVal(1)))
        L = self.len(s)
        self.ex.axiom(z3.Implies(And(zi(i) >= 0, zi(i) < zi(L)), And(t >= 0, t <= 255)))
        return z3.If(And(zi(i) >= 0, zi(i) < zi(L)), z3.If(t > 127, t - 256, t), z3.IntVal(0))

    def cat(self, a, b):
        if self.litval(a) == b'':
            return b
        if self.litval(b) == b'':
            return a
        return simp(z3.Concat(a, b))

    def sub(self, s, p, n):
        L = self.len(s)
        if isinstance(n, int) and n < 0:
            n = simp(zi(L) - zi(p))
        elif is_z(n) and not self.ex.is_nonneg(n):
            n = z3.If(n < 0, zi(L) - zi(p), n)
        return simp(z3.SubString(s, zi(p), zi(n)))

    def eq(self, a, b):
        r = zb_fold(simp(a == b))
        return r

    def lt(self, a, b):
        return a < b

    def find(self, s, pat, pos):
        return simp(z3.IndexOf(s, pat, zi(pos)))

    def byte(self, c):
        if isinstance(c, int):
            return self.lit(bytes([c & 255]))
        return z3.StrFromCode(self.ex.u(c, 8) if self.ex.mode == 'int' else z3.BV2Int(c))


class Lib:
    def __init__(self, ex):
        self.ex = ex
        self.str = StrZ(ex) if ex.S == z3.StringSort() else StrU(ex)
        self.cache = {}
        self.used = {}
        self.esz = {}
        ex.kinds.extra['mhas'] = z3.ArraySort(ex.S, z3.BoolSort())
        self.table = []
        self.build()

    def find(self, name, dem):
        if name in self.cache:
            return self.cache[name]
        h = None
        for pat, fn, doc in self.table:
            m = pat.match(dem)
            if m:
                def h(ex, nm, args, st, fn=fn, m=m):
                    return fn(ex, m, args, st)
                self.used[dem] = doc
                break
        else:
            f = self.ex.mod.funcs.get(name)
            if re.match(r'(std::(vector|map|set|list|deque|stack|_Rb_tree|unordered_map|multimap)<|string::)', dem):
                def h(ex, nm, args, st, dem=dem):
                    raise Unsupported('library function ' + dem)
        self.cache[name] = h
        return h

    def reg(self, pat, doc=''):
        def deco(fn):
            self.table.append((re.compile(pat + r'$', re.S), fn, doc or (fn.__doc__ or fn.__name__)))
            return fn
        return deco

    # ------------------------------------------------------------ string helpers
    def gets(self, p, st):
        return self.ex.m.load(st.mem, p, 'str')

    def sets(self, p, v, st):
        st.mem = self.ex.m.store(st.mem, p, 'str', v)

    def cstr_of(self, p, st):
        """string value designated by a const char*"""
        ex = self.ex
        if p.sbuf is not None:
            s, i = p.sbuf
            if isinstance(i, int) and i == 0:
                return s
            return self.str.sub(s, i, -1)
        o = p.obj
        if is_z(o) and as_const(o) is not None:
            o = as_const(o)
        if isinstance(o, int) and o in ex.__dict__.get('cbufs', ()):      # a buffer some contract filled with a text
            return ex.m.load(st.mem, p, 'str')
        if isinstance(o, int):
            nm = ex.globname.get(o)
            g = ex.mod.glob(nm) if nm else None
            if g and g[2] and g[1] is not None and isinstance(p.off, int):
                if g[1][0] == 'zero':
                    return self.str.lit(b'')
                if g[1][0] == 'bytes':
                    b = g[1][1][p.off:]
                    if b'\0' in b:
                        return self.str.lit(b[:b.index(b'\0')])
        elif z3.is_app_of(o, z3.Z3_OP_ITE):
            c, a, b = o.children()
            fa, fb = p.off, p.off
            if is_z(p.off) and z3.is_app_of(p.off, z3.Z3_OP_ITE) and p.off.arg(0).eq(c):
                fa, fb = p.off.arg(1), p.off.arg(2)

            def cc(x):
                k = as_const(x)
                return k if k is not None else x
            return ite(c, self.cstr_of(Ptr(cc(a), cc(fa)), st), self.cstr_of(Ptr(cc(b), cc(fb)), st))
        if isinstance(o, int) and o >= FRESH and isinstance(p.off, int) and not self.str.native and o not in ex.globname:
            # a local character buffer: read it up to the first byte that is certainly 0
            bs = []
            for i in range(256):
                v = ex.m.load(st.mem, p.plus(i), 'i8')
                c = as_const(v)
                bs.append(c if c is not None else v)
                if c == 0:
                    break
            else:
                raise Unsupported('unterminated local buffer as a C string')
            k = len(bs) - 1
            if all(isinstance(b, int) for b in bs):
                return self.str.lit(bytes(b & 255 for b in bs[:-1]))
            t = ex.fresh('cbuf', ex.S)
            n = z3.IntVal(k)
            for i in range(k - 1, -1, -1):
                n = z3.If(zb(Eq(bs[i], 0)), z3.IntVal(i), n)
            n = simp(n)
            ex.axiom(self.str.flen(t) == n)
            for i in range(k):
                ex.axiom(z3.Implies(n > i, self.str.at(t, i) == zi(bs[i])))
            return t
        # unknown C string: contents are a function of the pointer (immutable input)
        f = z3.Function('cstr', z3.IntSort(), z3.IntSort(), ex.S)
        return f(zi(p.obj), zi(p.off))

    def data_ptr(self, p, st):
        """c_str()/data(): pointer to an immutable snapshot of the characters"""
        s = self.gets(p, st)
        key = (p.obj if isinstance(p.obj, int) else p.obj.get_id(), p.off if isinstance(p.off, int) else p.off.get_id(), s.get_id())
        d = self.ex.__dict__.setdefault('_dataobj', {})
        if key not in d:
            d[key] = (self.ex.alloc(tag='cstr').obj, s)
        return Ptr(d[key][0], 0, None, (s, 0))

    def char_load(self, p, st):
        s, i = p.sbuf
        L = self.str.len(s)
        self.ex.oblige('character read inside the string', st.cond, And(ge(i, 0), Not(lt(L, i))), tag='bounds')
        return self.str.at(s, i)

    # ------------------------------------------------------------ vectors
    def elem(self, cls):
        """element size of std::vector<T> etc. (class prefix as in the demangled name)"""
        if cls in self.esz:
            return self.esz[cls]
        m = re.match(r'std::(?:vector|stack|deque|list)<(.*)>$', cls)
        t = m.group(1) if m else ''
        t0 = t.split(', std::deque')[0]
        sz = None
        if t0 == 'string':
            sz = 32
        elif t0.startswith('iptr<') or t0.endswith('*'):
            sz = 8
        elif t0 in ('int', 'unsigned int', 'float'):
            sz = 4
        elif t0 in ('double', 'long', 'unsigned long'):
            sz = 8
        elif t0 in ('bool', 'char', 'unsigned char'):
            sz = 1
        elif t0 == 'std::pair<string, string>':
            sz = 64
        else:
            for k in ('class.' + t0, 'struct.' + t0):
                if k in self.ex.mod.types:
                    sz = self.ex.mod.sizeof(('nm', k))
        if sz is None:
            raise Unsupported('element size of ' + cls)
        self.esz[cls] = (sz, t0)
        return self.esz[cls]

    def vbase(self, p):
        off = p.off
        o = (off + 1) * K if isinstance(off, int) else simp((off + 1) * K)
        return Ptr(p.obj, o)

    def vsize(self, p, st):
        v = self.ex.m.load(st.mem, p, 'vsz')
        return v

    def set_vsize(self, p, n, st):
        st.mem = self.ex.m.store(st.mem, p, 'vsz', n)

    def velem(self, p, i, sz):
        return self.vbase(p).plus(self.ex.mul_c(i, sz))

    def copy_elem(self, dst, src, sz, t, st):
        ex = self.ex
        if t == 'string':
            self.sets(dst, self.gets(src, st), st)
        elif t.startswith('iptr<') or t.endswith('*'):
            v = ex.m.load(st.mem, src, 'ptr')
            if t.startswith('iptr<'):
                self.refcount(v, +1, st)
            st.mem = ex.m.store(st.mem, dst, 'ptr', v)
        elif t in ('int', 'unsigned int'):
            st.mem = ex.m.store(st.mem, dst, 'i32', ex.m.load(st.mem, src, 'i32'))
        elif t == 'double':
            st.mem = ex.m.store(st.mem, dst, 'f64', ex.m.load(st.mem, src, 'f64'))
        else:
            st.mem = ex.m.copy(st.mem, dst, sz, st.mem, src)

    def refcount(self, p, d, st):
        h = getattr(self.ex, 'refcount_hook', None)
        if h:
            h(p, d, st)

    def copy_all(self, dst, src, sz, st):
        n = self.vsize(src, st)
        st.mem = self.ex.m.copy(st.mem, self.vbase(dst), self.ex.mul_c(n, sz), st.mem, self.vbase(src))
        self.set_vsize(dst, n, st)

    # ------------------------------------------------------------ maps
    def slot(self, k):
        ex = self.ex
        if k.get_id() in LITS:
            b = self.str.litval(k)
        f = z3.Function('keyslot', ex.S, z3.IntSort())
        inv = z3.Function('slotkey', z3.IntSort(), ex.S)
        t = f(k)
        ex.axiom(And(t >= 1, t < (1 << 40)))
        ex.axiom(inv(t) == k)
        return t

    STRIDE = 1 << 20

    def mslot(self, p, k):
        b = self.str.litval(k)
        if b is not None:       # literal keys: keyslot is any injection, so it may be fixed on literals
            tab = self.__dict__.setdefault('litslots', {})
            i = tab.setdefault(b, len(tab) + 1)
            self.ex.axiom(self.slot(k) == i)
            return self.vbase(p).plus(i * self.STRIDE)
        return self.vbase(p).plus(simp(self.slot(k) * self.STRIDE))

    def mend(self, p):
        return self.vbase(p)

    # the number of keys: a cell of its own, kept only for maps whose contract asks for it (set_msize)
    def counts(self, p, st):
        return (p.obj, p.off) in self.__dict__.setdefault('counted', set()) if isinstance(p.obj, int) and isinstance(p.off, int) else False

    def msize(self, p, st):
        self.__dict__.setdefault('counted', set()).add((p.obj, p.off))
        n = self.ex.m.load(st.mem, p, 'vsz')
        if is_z(n):
            self.ex.axiom(And(n >= 0, n < (1 << 56)))
        return n

    def set_msize(self, p, n, st):
        if isinstance(p.obj, int) and isinstance(p.off, int):
            self.__dict__.setdefault('counted', set()).add((p.obj, p.off))
        st.mem = self.ex.m.store(st.mem, p, 'vsz', n)

    # a map seen as the sequence of its elements in key order, for functions that only walk over it
    def seq_view(self, p, n):
        q = MapSeq()
        q.p, q.n, q.it, q.nodes, q.erased = p, n, self.ex.new_input_obj(), self.ex.new_input_obj(), []
        self.__dict__.setdefault('mseqs', []).append(q)
        return q

    def seq_of(self, p):
        for q in self.__dict__.get('mseqs', ()):
            if Eq(q.p.obj, p.obj) is True and Eq(q.p.off, p.off) is True:
                return q

    def seq_iter(self, p):
        for q in self.__dict__.get('mseqs', ()):
            if Eq(q.it.obj, p.obj) is True:
                return q

    def mhas(self, p, st):
        return self.ex.m.load(st.mem, p, 'mhas')

    def sel(self, h, k):
        """does map-domain h contain key k (looking through stores of other literal keys)"""
        if z3.is_app_of(h, z3.Z3_OP_STORE):
            e = Eq(h.arg(1), k)
            if e is True:
                return zb_fold(simp(h.arg(2)))
            if e is False:
                return self.sel(h.arg(0), k)
        if z3.is_app_of(h, z3.Z3_OP_ITE):
            return ite(h.arg(0), self.sel(h.arg(1), k), self.sel(h.arg(2), k))
        if z3.is_const_array(h):
            return zb_fold(h.arg(0))
        return zb_fold(simp(z3.Select(h, k)))

    def key_at(self, p, slotptr, k, st):
        """the key stored in the node of key k is k"""
        self.ex.axiom(Implies(st.cond, True))
        v = self.gets(slotptr, st)
        self.ex.axiom(Implies(And(st.cond, z3.Select(self.mhas(p, st), k)), v == k))

    def build(self):
        reg = self.reg
        S = self.str
        lib = self

        # ---- reference counting hooks
        @reg(r'(?:kmlbase::)?intrusive_ptr_add_ref\(kmlbase::Referent\*\)', 'takes a reference; no other effect')
        def _(ex, m, a, st):
            lib.refcount(a[0], 1, st)

        @reg(r'(?:kmlbase::)?intrusive_ptr_release\(kmlbase::Referent\*\)', 'drops a reference; objects still referenced elsewhere are unaffected')
        def _(ex, m, a, st):
            lib.refcount(a[0], -1, st)

        # ---- allocation
        @reg(r'operator new(\[\])?\(unsigned long(, std::nothrow_t const&)?\)|malloc|_Znwm|_Znam', 'fresh object, never fails')
        def _(ex, m, a, st):
            return ex.alloc(a[0])

        @reg(r'operator delete(\[\])?\(void\*(, unsigned long)?\)|free|_ZdlPv|_ZdaPv|_ZdlPvm', 'releases the object')
        def _(ex, m, a, st):
            return None

        @reg(r'__cxa_atexit', 'registers an exit handler')
        def _(ex, m, a, st):
            return 0

        @reg(r'__cxa_pure_virtual|std::__throw_.*|abort|exit|__assert_fail|std::terminate\(\)|__clang_call_terminate', 'does not return')
        def _(ex, m, a, st):
            st.cond = False
            return None

        # ---- allocator noise
        @reg(r'std::(__new_)?allocator<.*>::.*|std::__new_allocator<.*', 'no effect')
        def _(ex, m, a, st):
            return None

        # ---- std::string
        @reg(r'string::basic_string\(\)|string::basic_string\(std::allocator<char> const&\)', 'empty string')
        def _(ex, m, a, st):
            lib.sets(a[0], S.lit(b''), st)

        @reg(r'string::basic_string\(string(?: const)?&&?\)', 'copy/move (source of a move left unspecified; modelled as unchanged)')
        def _(ex, m, a, st):
            lib.sets(a[0], lib.gets(a[1], st), st)

        @reg(r'string::basic_string(?:<.*>)?\(char const\* const&\)|string::basic_string(?:<.*>)?\(char const\*, std::allocator<char> const&\)', 'string of a C string')
        def _(ex, m, a, st):
            lib.sets(a[0], lib.cstr_of(a[1], st), st)

        @reg(r'string::basic_string\(char const\*, unsigned long(?:,? ?(?:std::allocator<char>)? const&)\)', 'first n chars of a C string')
        def _(ex, m, a, st):
            s = lib.cstr_raw(a[1], st)
            lib.sets(a[0], S.sub(s, 0, a[2]), st)

        @reg(r'string::basic_string\(string const&, unsigned long, unsigned long\)', 'substring')
        def _(ex, m, a, st):
            s = lib.gets(a[1], st)
            ex.oblige('substr position in range', st.cond, Not(lt(S.len(s), ex.u(a[2], 64))), tag='libpre')
            lib.sets(a[0], S.sub(s, a[2], a[3]), st)

        @reg(r'string::~basic_string\(\)', 'no effect')
        def _(ex, m, a, st):
            return None

        @reg(r'string::operator=\(string(?: const)?&&?\)|string::assign\(string(?: const)?&&?\)', 'assignment')
        def _(ex, m, a, st):
            lib.sets(a[0], lib.gets(a[1], st), st)
            return a[0]

        @reg(r'string::(?:operator=|assign)\(char const\*\)', 'assignment from C string')
        def _(ex, m, a, st):
            lib.sets(a[0], lib.cstr_of(a[1], st), st)
            return a[0]

        @reg(r'string::assign\(char const\*, unsigned long\)', 'assignment from chars')
        def _(ex, m, a, st):
            s = lib.cstr_raw(a[1], st)
            lib.sets(a[0], S.sub(s, 0, a[2]), st)
            return a[0]

        @reg(r'string::clear\(\)', 'becomes empty')
        def _(ex, m, a, st):
            lib.sets(a[0], S.lit(b''), st)

        @reg(r'string::(?:size|length)\(\) const', 'length')
        def _(ex, m, a, st):
            return lib.toint(S.len(lib.gets(a[0], st)), 64)

        @reg(r'string::empty\(\) const', 'is empty')
        def _(ex, m, a, st):
            return S.eq(lib.gets(a[0], st), S.lit(b''))

        @reg(r'string::(?:c_str|data)\(\)(?: const)?', 'pointer to the characters')
        def _(ex, m, a, st):
            return lib.data_ptr(a[0], st)

        @reg(r'string::(?:operator\[\]|at)\(unsigned long\)(?: const)?', 'reference to a character (read-only use)')
        def _(ex, m, a, st):
            p = lib.data_ptr(a[0], st)
            i = ex.u(a[1], 64) if ex.mode == 'int' else lib.fromint(a[1])
            ex.oblige('string index in range', st.cond, Not(lt(S.len(p.sbuf[0]), i)), tag='libpre')
            return Ptr(p.obj, i, None, (p.sbuf[0], i))

        @reg(r'string::(?:append|operator\+=)\(string const&\)', 'append')
        def _(ex, m, a, st):
            lib.sets(a[0], S.cat(lib.gets(a[0], st), lib.gets(a[1], st)), st)
            return a[0]

        @reg(r'string::(?:append|operator\+=)\(char const\*\)', 'append C string')
        def _(ex, m, a, st):
            lib.sets(a[0], S.cat(lib.gets(a[0], st), lib.cstr_of(a[1], st)), st)
            return a[0]

        @reg(r'string::append\(char const\*, unsigned long\)', 'append n chars')
        def _(ex, m, a, st):
            lib.sets(a[0], S.cat(lib.gets(a[0], st), S.sub(lib.cstr_raw(a[1], st), 0, a[2])), st)
            return a[0]

        @reg(r'string::append\(unsigned long, char\)', 'append n copies')
        def _(ex, m, a, st):
            if isinstance(a[1], int) and isinstance(a[2], int):
                lib.sets(a[0], S.cat(lib.gets(a[0], st), S.lit(bytes([a[2] & 255]) * a[1])), st)
                return a[0]
            raise Unsupported('append(n,c)')

        @reg(r'string::append\(string const&, unsigned long, unsigned long\)', 'append substring')
        def _(ex, m, a, st):
            lib.sets(a[0], S.cat(lib.gets(a[0], st), S.sub(lib.gets(a[1], st), a[2], a[3])), st)
            return a[0]

        @reg(r'string::(?:push_back|operator\+=)\(char\)', 'append a character')
        def _(ex, m, a, st):
            lib.sets(a[0], S.cat(lib.gets(a[0], st), S.byte(a[1])), st)
            return a[0]

        @reg(r'string::substr\(unsigned long, unsigned long\) const', 'substring')
        def _(ex, m, a, st):
            s = lib.gets(a[1], st)
            ex.oblige('substr position in range', st.cond, Not(lt(S.len(s), ex.u(a[2], 64))), tag='libpre')
            lib.sets(a[0], S.sub(s, a[2], a[3]), st)

        @reg(r'string::replace\(unsigned long, unsigned long, string const&\)', 'replaces a part')
        def _(ex, m, a, st):
            s, v = lib.gets(a[0], st), lib.gets(a[3], st)
            L, p, n = zi(S.len(s)), ex.u(a[1], 64), ex.u(a[2], 64)
            ex.oblige('replace position in range', st.cond, Not(lt(L, p)), tag='libpre')
            e = simp(z3.If(zi(p) + zi(n) > L, L, zi(p) + zi(n)))
            lib.sets(a[0], S.cat(S.sub(s, 0, p), S.cat(v, S.sub(s, e, -1))), st)
            return a[0]

        @reg(r'string::find\(string const&, unsigned long\) const', 'first occurrence at or after pos')
        def _(ex, m, a, st):
            return S.find(lib.gets(a[0], st), lib.gets(a[1], st), a[2])

        @reg(r'string::find\(char, unsigned long\) const', 'first occurrence at or after pos')
        def _(ex, m, a, st):
            return S.find(lib.gets(a[0], st), S.byte(a[1]), a[2])

        @reg(r'string::find\(char const\*, unsigned long\) const', 'first occurrence at or after pos')
        def _(ex, m, a, st):
            return S.find(lib.gets(a[0], st), lib.cstr_of(a[1], st), a[2])

        @reg(r'string::find_(first|last)(_not)?_of\((string const&|char const\*|char), unsigned long\) const', 'first/last character (not) of the set at or after/before pos')
        def _(ex, m, a, st):
            k = m.group(3)
            c = lib.gets(a[1], st) if k.startswith('string') else S.byte(a[1]) if k == 'char' else lib.cstr_of(a[1], st)
            return S.find_of(lib.gets(a[0], st), c, a[2], m.group(1) == 'last', bool(m.group(2)))

        @reg(r'string::rfind\(char, unsigned long\) const', 'last occurrence at or before pos')
        def _(ex, m, a, st):
            return S.find_of(lib.gets(a[0], st), S.byte(a[1]), a[2], True, False)

        @reg(r'string::compare\(string const&\) const', 'three-way comparison')
        def _(ex, m, a, st):
            return lib.cmp3(lib.gets(a[0], st), lib.gets(a[1], st))

        @reg(r'string::compare\(char const\*\) const', 'three-way comparison')
        def _(ex, m, a, st):
            return lib.cmp3(lib.gets(a[0], st), lib.cstr_of(a[1], st))

        @reg(r'string::compare\(unsigned long, unsigned long, (char const\*|string const&)\) const', 'three-way comparison of a substring')
        def _(ex, m, a, st):
            o = lib.cstr_of(a[3], st) if 'char' in m.group(1) else lib.gets(a[3], st)
            s = lib.gets(a[0], st)
            ex.oblige('compare position in range', st.cond, Not(lt(S.len(s), ex.u(a[1], 64))), tag='libpre')
            return lib.cmp3(S.sub(s, a[1], a[2]), o)

        @reg(r'bool std::operator(==|!=|<|>)<char, std::char_traits<char>>\((string const&|char const\*), (string const&|char const\*)\)', 'string comparison')
        def _(ex, m, a, st):
            x = lib.gets(a[0], st) if m.group(2).startswith('string') else lib.cstr_of(a[0], st)
            y = lib.gets(a[1], st) if m.group(3).startswith('string') else lib.cstr_of(a[1], st)
            op = m.group(1)
            if op == '==':
                return S.eq(x, y)
            if op == '!=':
                return Not(S.eq(x, y))
            return S.lt(x, y) if op == '<' else S.lt(y, x)

        @reg(r'string std::operator\+<char, std::char_traits<char>>\((string const&|string&&|char const\*|char), (string const&|string&&|char const\*|char)\)', 'concatenation')
        def _(ex, m, a, st):
            def val(k, p):
                if k.startswith('string'):
                    return lib.gets(p, st)
                if k == 'char':
                    return S.byte(p)
                return lib.cstr_of(p, st)
            lib.sets(a[0], S.cat(val(m.group(1), a[1]), val(m.group(2), a[2])), st)

        @reg(r'string::(?:reserve|shrink_to_fit)\(.*\)', 'no observable effect')
        def _(ex, m, a, st):
            return None

        @reg(r'string::swap\(string&\)', 'exchange')
        def _(ex, m, a, st):
            x, y = lib.gets(a[0], st), lib.gets(a[1], st)
            lib.sets(a[0], y, st); lib.sets(a[1], x, st)

        @reg(r'std::char_traits<char>::length\(char const\*\)|strlen', 'C string length')
        def _(ex, m, a, st):
            return S.len(lib.cstr_of(a[0], st))

        @reg(r'strcmp', 'C string comparison')
        def _(ex, m, a, st):
            return lib.cmp3(lib.cstr_of(a[0], st), lib.cstr_of(a[1], st))

        # ---- std::vector / std::stack
        C = r'(std::(?:vector|deque)<.*?>)'

        def cls(m):
            return lib.elem(m.group(1))

        @reg(r'(std::vector<.*>)::vector\(\)', 'empty vector')
        def _(ex, m, a, st):
            lib.set_vsize(a[0], 0, st)

        @reg(r'(std::vector<.*>)::vector\(\1(?: const)?&&?\)', 'copy')
        def _(ex, m, a, st):
            sz, t = cls(m)
            lib.copy_all(a[0], a[1], sz, st)

        @reg(r'(std::vector<.*>)::operator=\(\1(?: const)?&&?\)', 'assignment')
        def _(ex, m, a, st):
            sz, t = cls(m)
            lib.copy_all(a[0], a[1], sz, st)
            return a[0]

        @reg(r'(std::vector<.*>)::~vector\(\)', 'no effect')
        def _(ex, m, a, st):
            return None

        @reg(r'(std::(?:vector|stack)<.*>)::size\(\) const', 'number of elements')
        def _(ex, m, a, st):
            return lib.vsize(a[0], st)

        @reg(r'(std::(?:vector|stack)<.*>)::empty\(\) const', 'no elements')
        def _(ex, m, a, st):
            return Eq(lib.vsize(a[0], st), 0)

        @reg(r'(std::vector<.*>)::(?:operator\[\]|at)\(unsigned long\)(?: const)?', 'reference to element i; requires i < size()')
        def _(ex, m, a, st):
            sz, t = cls(m)
            n = lib.vsize(a[0], st)
            i = ex.u(a[1], 64)
            ex.oblige('vector index in range', st.cond, lt(i, n), tag='libpre')
            return lib.velem(a[0], i, sz)

        @reg(r'(std::vector<.*>)::(front|back)\(\)(?: const)?', 'first/last element; requires non-empty')
        def _(ex, m, a, st):
            sz, t = cls(m)
            n = lib.vsize(a[0], st)
            ex.oblige('vector not empty', st.cond, lt(0, n), tag='libpre')
            return lib.velem(a[0], 0 if m.group(2) == 'front' else add(n, -1), sz)

        @reg(r'(std::vector<.*>)::c?begin\(\)(?: const)?', 'iterator to first element')
        def _(ex, m, a, st):
            return lib.vbase(a[0])

        @reg(r'(std::vector<.*>)::c?end\(\)(?: const)?', 'iterator past the last element')
        def _(ex, m, a, st):
            sz, t = cls(m)
            return lib.velem(a[0], lib.vsize(a[0], st), sz)

        @reg(r'(std::vector<.*>)::(?:push_back|emplace_back(?:<.*>)?)\(.*&&?\)', 'append one element')
        def _(ex, m, a, st):
            sz, t = cls(m)
            n = lib.vsize(a[0], st)
            lib.copy_elem(lib.velem(a[0], n, sz), a[1], sz, t, st)
            lib.set_vsize(a[0], add(n, 1), st)
            return lib.velem(a[0], n, sz)

        @reg(r'(std::vector<.*>)::pop_back\(\)', 'drop the last element; requires non-empty')
        def _(ex, m, a, st):
            n = lib.vsize(a[0], st)
            ex.oblige('pop_back on non-empty vector', st.cond, lt(0, n), tag='libpre')
            lib.set_vsize(a[0], add(n, -1), st)

        @reg(r'(std::vector<.*>)::clear\(\)', 'becomes empty')
        def _(ex, m, a, st):
            lib.set_vsize(a[0], 0, st)

        @reg(r'(std::vector<.*>)::reserve\(unsigned long\)', 'no observable effect')
        def _(ex, m, a, st):
            return None

        @reg(r'(std::vector<.*>)::erase\(__gnu_cxx::__normal_iterator<[^()]*>\)', 'remove one element, later ones move down')
        def _(ex, m, a, st):
            sz, t = cls(m)
            n = lib.vsize(a[0], st)
            pos = a[1]
            if not isinstance(pos, Ptr):
                raise Unsupported('iterator argument')
            base = lib.vbase(a[0])
            idx = ex.m.sub(pos.off, base.off)
            tot = ex.mul_c(n, sz)
            ex.oblige('erase position inside the vector', st.cond, And(ex.m.obj_eq(pos.obj, base.obj), ge(idx, 0), lt(idx, tot)), tag='libpre')
            ln = ex.m.sub(tot, add(idx, sz))
            old = st.mem
            st.mem = ex.m.copy(st.mem, Ptr(base.obj, pos.off), ln, old, Ptr(base.obj, add(pos.off, sz)))
            lib.set_vsize(a[0], add(n, -1), st)
            return pos

        # stacks (same layout)
        @reg(r'(std::stack<.*>)::stack(?:<.*>)?\(\)', 'empty stack')
        def _(ex, m, a, st):
            lib.set_vsize(a[0], 0, st)

        @reg(r'(std::stack<.*>)::~stack\(\)', 'no effect')
        def _(ex, m, a, st):
            return None

        @reg(r'(std::stack<.*>)::top\(\)(?: const)?', 'reference to the top; requires non-empty')
        def _(ex, m, a, st):
            sz, t = cls(m)
            n = lib.vsize(a[0], st)
            ex.oblige('top() of non-empty stack', st.cond, lt(0, n), tag='libpre')
            return lib.velem(a[0], add(n, -1), sz)

        @reg(r'(std::stack<.*>)::(?:push|emplace)\(.*&&?\)', 'push')
        def _(ex, m, a, st):
            sz, t = cls(m)
            n = lib.vsize(a[0], st)
            lib.copy_elem(lib.velem(a[0], n, sz), a[1], sz, t, st)
            lib.set_vsize(a[0], add(n, 1), st)

        @reg(r'(std::stack<.*>)::pop\(\)', 'pop; requires non-empty')
        def _(ex, m, a, st):
            n = lib.vsize(a[0], st)
            ex.oblige('pop() of non-empty stack', st.cond, lt(0, n), tag='libpre')
            lib.set_vsize(a[0], add(n, -1), st)

        # ---- std::map<string, V>
        M = r'(std::map<string, (.*)>)'

        @reg(M + r'::map\(\)', 'empty map')
        def _(ex, m, a, st):
            st.mem = ex.m.store(st.mem, a[0], 'mhas', z3.K(ex.S, z3.BoolVal(False)))
            lib.set_msize(a[0], 0, st)

        @reg(M + r'::size\(\) const', 'number of keys')
        def _(ex, m, a, st):
            q = lib.seq_of(a[0])
            return q.n if q else lib.msize(a[0], st)

        @reg(M + r'::begin\(\)(?: const)?', 'first element in key order')
        def _(ex, m, a, st):
            q = lib.seq_of(a[0])
            if not q:
                raise Unsupported('iteration over a map')
            return Ptr(q.it.obj, 0)

        @reg(r'std::_Rb_tree_(?:const_)?iterator<.*>::operator\+\+\((int)?\)', 'next element in key order')
        def _(ex, m, a, st):
            p = ex.m.load(st.mem, a[0], 'ptr')
            if not lib.seq_iter(p):
                raise Unsupported('map iterator')
            st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(p.obj, add(p.off, 1)))
            return p if m.group(1) else a[0]

        @reg(r'std::map<(?!string)[\w:*]+, .*>::~?map\(\)', 'empty map of another key type (no other operation is modelled)')
        def _(ex, m, a, st):
            return None

        @reg(M + r'::~map\(\)', 'no effect')
        def _(ex, m, a, st):
            return None

        @reg(M + r'::clear\(\)', 'becomes empty')
        def _(ex, m, a, st):
            st.mem = ex.m.store(st.mem, a[0], 'mhas', z3.K(ex.S, z3.BoolVal(False)))
            lib.set_msize(a[0], 0, st)

        @reg(M + r'::operator\[\]\(string(?: const)?&&?\)', 'value slot of key, default-inserting it')
        def _(ex, m, a, st):
            k = lib.gets(a[1], st)
            h = lib.mhas(a[0], st)
            p = lib.mslot(a[0], k)
            v = p.plus(32)
            was = lib.sel(h, k)
            if lib.counts(a[0], st):
                lib.set_msize(a[0], add(lib.msize(a[0], st), ite(was, 0, 1)), st)
            lib.default_insert(v, m.group(2), was, st)
            st.mem = ex.m.store(st.mem, p, 'str', k)
            st.mem = ex.m.store(st.mem, a[0], 'mhas', z3.Store(h, k, z3.BoolVal(True)))
            return v

        @reg(M + r'::operator=\(std::map<string, .*> const&\)', 'becomes a copy')
        def _(ex, m, a, st):
            if lib.counts(a[0], st):
                lib.set_msize(a[0], lib.msize(a[1], st), st)
            if lib.seq_of(a[0]) or lib.seq_of(a[1]):
                raise Unsupported('copy of a map seen as a sequence')
            hs = lib.mhas(a[1], st)
            st.mem = ex.m.copy(st.mem, lib.vbase(a[0]), K, st.mem, lib.vbase(a[1]))
            st.mem = ex.m.store(st.mem, a[0], 'mhas', hs)
            return a[0]

        T = r'std::set<string>::'

        @reg(T + r'set\(\)', 'empty set')
        def _(ex, m, a, st):
            st.mem = ex.m.store(st.mem, a[0], 'mhas', z3.K(ex.S, z3.BoolVal(False)))

        @reg(T + r'~set\(\)', 'no effect')
        def _(ex, m, a, st):
            return None

        @reg(T + r'end\(\)(?: const)?', 'end iterator')
        def _(ex, m, a, st):
            return lib.mend(a[0])

        @reg(T + r'find\(string const&\)(?: const)?', 'iterator to the element or end()')
        def _(ex, m, a, st):
            k = lib.gets(a[1], st)
            return ite(lib.sel(lib.mhas(a[0], st), k), lib.mslot(a[0], k), lib.mend(a[0]))

        @reg(T + r'count\(string const&\) const', '1 if present')
        def _(ex, m, a, st):
            return ite(lib.sel(lib.mhas(a[0], st), lib.gets(a[1], st)), 1, 0)

        @reg(T + r'insert\(string(?: const)?&&?\)', 'add an element; whether it is new')
        def _(ex, m, a, st):
            k = lib.gets(a[1], st)
            h = lib.mhas(a[0], st)
            was = lib.sel(h, k)
            st.mem = ex.m.store(st.mem, a[0], 'mhas', z3.Store(h, k, z3.BoolVal(True)))
            return (lib.mslot(a[0], k), ite(was, 0, 1))

        @reg(M + r'::find\(string const&\)(?: const)?', 'iterator to key or end()')
        def _(ex, m, a, st):
            k = lib.gets(a[1], st)
            h = lib.mhas(a[0], st)
            p = lib.mslot(a[0], k)
            lib.key_at(a[0], p, k, st)
            return ite(lib.sel(h, k), p, lib.mend(a[0]))

        @reg(M + r'::count\(string const&\) const', '1 if present')
        def _(ex, m, a, st):
            k = lib.gets(a[1], st)
            return ite(lib.sel(lib.mhas(a[0], st), k), 1, 0)

        @reg(M + r'::end\(\)(?: const)?', 'end iterator')
        def _(ex, m, a, st):
            q = lib.seq_of(a[0])
            if q:
                return Ptr(q.it.obj, q.n)
            return lib.mend(a[0])

        @reg(M + r'::empty\(\) const', 'no keys')
        def _(ex, m, a, st):
            q = lib.seq_of(a[0])
            if q:
                return Eq(q.n, 0)
            h = lib.mhas(a[0], st)
            return zb_fold(simp(h == z3.K(ex.S, z3.BoolVal(False))))

        @reg(M + r'::erase\(string const&\)', 'remove key; returns number removed')
        def _(ex, m, a, st):
            k = lib.gets(a[1], st)
            h = lib.mhas(a[0], st)
            if lib.counts(a[0], st):
                lib.set_msize(a[0], add(lib.msize(a[0], st), ite(lib.sel(h, k), -1, 0)), st)
            st.mem = ex.m.store(st.mem, a[0], 'mhas', z3.Store(h, k, z3.BoolVal(False)))
            return ite(lib.sel(h, k), 1, 0)

        @reg(M + r'::erase(?:\[abi:\w+\])?\(std::_Rb_tree_iterator<.*>\)', 'remove the element at the iterator')
        def _(ex, m, a, st):
            if not isinstance(a[1], Ptr):
                raise Unsupported('map iterator')
            q = lib.seq_of(a[0])
            if q:
                q.erased.append((st.cond, a[1]))
                return a[1].plus(1)
            k = lib.gets(a[1], st)
            h = lib.mhas(a[0], st)
            if lib.counts(a[0], st):
                lib.set_msize(a[0], add(lib.msize(a[0], st), ite(lib.sel(h, k), -1, 0)), st)
            st.mem = ex.m.store(st.mem, a[0], 'mhas', z3.Store(h, k, z3.BoolVal(False)))
            return ex.new_input_obj()   # the next element, an iterator nobody may look at here

        @reg(r'std::_Rb_tree_(?:const_)?iterator<std::pair<string const, .*>>::(?:operator->|operator\*)\(\) const', 'the designated pair')
        def _(ex, m, a, st):
            p = ex.m.load(st.mem, a[0], 'ptr')
            q = lib.seq_iter(p)
            if q:
                ex.oblige('iterator dereferenced within the map', st.cond, And(ge(p.off, 0), lt(p.off, q.n)), tag='libpre')
                return Ptr(q.nodes.obj, ex.mul_c(p.off, lib.STRIDE))
            return p

        @reg(r'std::_Rb_tree_(?:const_)?iterator<.*>::_Rb_tree_(?:const_)?iterator\(\)', 'singular iterator')
        def _(ex, m, a, st):
            st.mem = ex.m.store(st.mem, a[0], 'ptr', NULL)

        @reg(r'std::_Rb_tree_const_iterator<.*>::_Rb_tree_const_iterator\(std::_Rb_tree_iterator<.*> const&\)', 'conversion')
        def _(ex, m, a, st):
            st.mem = ex.m.store(st.mem, a[0], 'ptr', ex.m.load(st.mem, a[1], 'ptr'))

        @reg(r'(?:bool )?std::operator(==|!=)\(std::_Rb_tree_(?:const_)?iterator<.*> const&, std::_Rb_tree_(?:const_)?iterator<.*> const&\)', 'iterator comparison')
        def _(ex, m, a, st):
            e = ptr_eq(ex.m.load(st.mem, a[0], 'ptr'), ex.m.load(st.mem, a[1], 'ptr'))
            return e if m.group(1) == '==' else Not(e)

        # ---- streams: content accumulates in a 'str' cell
        SS = r'std::basic_(o|i)?stringstream<char, std::char_traits<char>>'
        sstext = lambda m, p: p if m.group(1) else p.plus(16)       # a stringstream's ostream part lies at +16

        @reg(SS + r'::basic_(?:o)?stringstream\(\)', 'empty stream')
        def _(ex, m, a, st):
            lib.sets(sstext(m, a[0]), S.lit(b''), st)

        @reg(SS + r'::~basic_\w+\(\)', 'no effect')
        def _(ex, m, a, st):
            return None

        @reg(SS + r'::str\(\) const', 'accumulated text')
        def _(ex, m, a, st):
            lib.sets(a[0], lib.gets(sstext(m, a[1]), st), st)

        @reg(r'std::locale::classic\(\)', 'C locale')
        def _(ex, m, a, st):
            return ex.global_ptr('$classic')

        @reg(r'std::basic_ios<char, std::char_traits<char>>::imbue\(std::locale const&\)|std::locale::~locale\(\)|std::ios_base::precision\(long\)|std::ios_base::\w+\(.*\)', 'formatting state')
        def _(ex, m, a, st):
            return None

        @reg(r'std::basic_ostream<char, std::char_traits<char>>& std::operator<<<(?:char, )?std::char_traits<char>>?(?:, std::allocator<char>>)?\(std::basic_ostream<char, std::char_traits<char>>&, (char const\*|string const&|char)\)', 'append text')
        def _(ex, m, a, st):
            k = m.group(1)
            v = lib.gets(a[1], st) if k.startswith('string') else S.byte(a[1]) if k == 'char' else lib.cstr_of(a[1], st)
            p = lib.stream(a[0])
            lib.sets(p, S.cat(lib.gets(p, st), v), st)
            return a[0]

        @reg(r'std::ostream::operator<<\((int|unsigned int|long|unsigned long|double|bool)\)', 'append formatted number')
        def _(ex, m, a, st):
            p = lib.stream(a[0])
            lib.sets(p, S.cat(lib.gets(p, st), lib.fmt(m.group(1), a[1])), st)
            return a[0]

        @reg(r'std::ostream::put\(char\)', 'append a character')
        def _(ex, m, a, st):
            p = lib.stream(a[0])
            lib.sets(p, S.cat(lib.gets(p, st), S.byte(a[1])), st)
            return a[0]

        @reg(r'std::ostream::write\(char const\*, long\)', 'append n characters')
        def _(ex, m, a, st):
            p = lib.stream(a[0])
            lib.sets(p, S.cat(lib.gets(p, st), S.sub(lib.cstr_raw(a[1], st), 0, a[2])), st)
            return a[0]

        IS = r'std::basic_istringstream<char, std::char_traits<char>>'

        @reg(IS + r'::basic_istringstream\(string const&, std::_Ios_Openmode\)', 'stream of a text')
        def _(ex, m, a, st):
            lib.sets(a[0], lib.gets(a[1], st), st)

        @reg(r'std::istream::operator>>\((double|int)&\)', 'reads a number: some function of the text, if the text starts with one')
        def _(ex, m, a, st):
            p = lib.stream(a[0])
            t = lib.gets(p, st)
            so, kind = (z3.Float64(), 'f64') if m.group(1) == 'double' else (z3.IntSort(), 'i32')
            nm = m.group(1)
            reads = z3.Function('reads_' + nm, ex.S, z3.BoolSort())(t)
            v = z3.Function('read_' + nm, ex.S, so)(t)
            if nm == 'int':
                ex.axiom(And(v >= -(1 << 31), v < 1 << 31))
            w = ex.fresh('unread', so)
            if nm == 'int':
                ex.axiom(And(w >= -(1 << 31), w < 1 << 31))
            st.mem = ex.m.store(st.mem, a[1], kind, z3.If(reads, v, w))
            lib.sets(p, z3.Function('rest_' + nm, ex.S, ex.S)(t), st)
            return a[0]

        # ---- libc / libm bits
        @reg(r'isdigit', 'decimal digit test (C locale)')
        def _(ex, m, a, st):
            return ite(And(ge(a[0], 48), Not(lt(57, a[0]))), 1, 0)

        @reg(r'isspace', 'white space test (C locale)')
        def _(ex, m, a, st):
            return ite(Or(Eq(a[0], 32), And(ge(a[0], 9), Not(lt(13, a[0])))), 1, 0)

        @reg(r'tolower', 'ASCII lower case')
        def _(ex, m, a, st):
            return ite(And(ge(a[0], 65), Not(lt(90, a[0]))), add(a[0], 32), a[0])

        @reg(r'toupper', 'ASCII upper case')
        def _(ex, m, a, st):
            return ite(And(ge(a[0], 97), Not(lt(122, a[0]))), add(a[0], -32), a[0])

        @reg(r'(sin|cos|tan|asin|acos|atan|sqrt|floor|ceil|exp|log)', 'uninterpreted real function')
        def _(ex, m, a, st):
            if m.group(1) == 'sqrt':
                return z3.fpSqrt(z3.RNE(), a[0])
            return z3.Function('libm.' + m.group(1), z3.Float64(), z3.Float64())(a[0])

        @reg(r'(atan2|pow|fmod)', 'uninterpreted real function')
        def _(ex, m, a, st):
            return z3.Function('libm.' + m.group(1), z3.Float64(), z3.Float64(), z3.Float64())(a[0], a[1])

    def stream(self, p):
        return p

    def fmt(self, ty, v):
        ex = self.ex
        if ty == 'bool':
            v = ite(v, 1, 0) if not isinstance(v, (int,)) or isinstance(v, bool) else v
            ty = 'int'
        if ty in ('int', 'unsigned int', 'long', 'unsigned long'):
            if isinstance(v, int):
                return self.str.lit(str(v).encode())
            so = v.sort()
        else:
            so = z3.Float64()
        return z3.Function('fmt.' + ty, so, ex.S)(v)

    def cstr_raw(self, p, st):
        return self.cstr_of(p, st)

    def toint(self, v, n):
        return v

    def fromint(self, v):
        return v

    def cmp3(self, x, y):
        e = self.str.eq(x, y)
        if e is True:
            return 0
        l = self.str.lt(x, y)
        return ite(e, 0, ite(l, -1, 1))

    def default_insert(self, v, ty, was, st):
        """if the key was absent its value becomes V()"""
        ex = self.ex
        if ty == 'string':
            old = self.gets(v, st)
            self.sets(v, ite(was, old, self.str.lit(b'')), st)
        elif ty.startswith('iptr<') or ty.endswith('*'):
            old = ex.m.load(st.mem, v, 'ptr')
            st.mem = ex.m.store(st.mem, v, 'ptr', ite(was, old, NULL))
        elif ty in ('int', 'unsigned int'):
            st.mem = ex.m.store(st.mem, v, 'i32', ite(was, ex.m.load(st.mem, v, 'i32'), 0))
        elif re.match(r'std::pair<iptr<.*>, unsigned long>$', ty):
            for o, k, z in ((0, 'ptr', NULL), (8, 'i64', 0)):
                old = ex.m.load(st.mem, v.plus(o), k)
                st.mem = ex.m.store(st.mem, v.plus(o), k, ite(was, old, z))
        else:
            raise Unsupported('map value type ' + ty)
