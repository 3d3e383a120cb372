"""Terms, memory model and symbolic state for the deductive verifier.

Integers are mathematical integers in two's-complement *signed* representation (mode 'int') or bit-vectors (mode 'bv').
Pointers are (object id, byte offset) pairs.  Memory is a persistent log of typed cell updates with merge nodes; a load
walks the log and yields an if-then-else term, so aliasing between symbolic pointers is decided by the solver.
"""
import z3, struct

K = 1 << 72          # stride used to place a container's elements / a string's characters in its own sub-range
FRESH = 1000000      # object ids >= FRESH are allocations made during the execution under verification
GLOB = 1000          # globals: GLOB <= id < FRESH


class Unsupported(Exception):
    """the code (or a callee) is outside the verifier's reach"""


class Infeasible(Exception):
    pass

T, F = True, False
LITS = {}             # ast id -> literal string constant (distinct constants, see StrU.lit)


def is_z(x):
    return isinstance(x, z3.AstRef)


def And(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    # flatten, dedupe
    seen = {}
    for x in out:
        if z3.is_and(x):
            for c in x.children():
                seen[c.get_id()] = c
        else:
            seen[x.get_id()] = x
    for i, x in seen.items():
        if z3.is_not(x) and x.arg(0).get_id() in seen:
            return False
    l = list(seen.values())
    return l[0] if len(l) == 1 else z3.And(l)


def Or(*xs):
    out = {}
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            continue
        if z3.is_or(x):
            for c in x.children():
                out[c.get_id()] = c
        else:
            out[x.get_id()] = x
    if not out:
        return False
    for i, x in out.items():
        if z3.is_not(x) and x.arg(0).get_id() in out:
            return True
    l = list(out.values())
    if len(l) == 1:
        return l[0]
    # (a & c) | (a & !c) -> a   (joins of a diamond)
    sets = []
    for x in l:
        sets.append({c.get_id(): c for c in x.children()} if z3.is_and(x) else {x.get_id(): x})
    common = set(sets[0])
    for s in sets[1:]:
        common &= set(s)
    if common:
        rest = [And(*[c for i, c in s.items() if i not in common]) for s in sets]
        com = [sets[0][i] for i in common]
        if any(r is True for r in rest):
            return And(*com)
        r = Or_plain(rest)
        return And(*(com + [r]))
    return Or_plain(l)


def Or_plain(l):
    d = {}
    for x in l:
        if x is True or z3.is_true(x) if is_z(x) else x is True:
            return True
        if x is False:
            continue
        d[x.get_id()] = x
    for x in d.values():
        if z3.is_not(x) and x.arg(0).get_id() in d:
            return True
    l = list(d.values())
    if not l:
        return False
    if len(l) == 1:
        return l[0]
    if len(l) == 2:
        # complementary conjunctions  (c & ..)/( !c ..) handled by solver
        pass
    return z3.Or(l)


def Not(x):
    if x is True:
        return False
    if x is False:
        return True
    if z3.is_not(x):
        return x.arg(0)
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x


def simp(x):
    return z3.simplify(x)


def as_const(x):
    """python int if x is a numeral"""
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return None


def Eq(a, b):
    if a is b:
        return True
    if not is_z(a) and not is_z(b):
        return a == b
    if is_z(a) and is_z(b):
        if a.eq(b):
            return True
        if a.get_id() in LITS and b.get_id() in LITS:
            return False
        if z3.is_int(a) and z3.is_int(b):
            d = simp(a - b)
            if z3.is_int_value(d):
                return d.as_long() == 0
            if apart(d):
                return False
            return a == b
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool):
            a, b = b, a
        return a if b else Not(a)
    if (is_z(a) and z3.is_fp(a)) or (is_z(b) and z3.is_fp(b)):
        return zb_fold(a == b)   # structural (bit-wise up to NaN) equality
    # (if c then k1 else k2) == k
    if is_z(b) and not is_z(a):
        a, b = b, a
    if isinstance(b, int) and z3.is_app_of(a, z3.Z3_OP_ITE):
        c, x, y = a.children()
        cx, cy = as_const(x), as_const(y)
        if cx is not None and cy is not None:
            if cx == b and cy != b:
                return c
            if cx != b and cy == b:
                return Not(c)
            if cx != b and cy != b:
                return False
            return True
    if isinstance(b, int) and not isinstance(b, bool) and z3.is_int(a):
        lo, hi = bounds(a)
        if (lo is not None and lo > b) or (hi is not None and hi < b):
            return False
    r = (a == b)
    return zb_fold(r)


RANGES = {}           # ast id -> (lo, hi) known bounds of a symbol
KEEP = []


def set_range(t, lo, hi):
    if is_z(t):
        RANGES[t.get_id()] = (lo, hi)
        KEEP.append(t)


def apart(d):
    lo, hi = bounds(d)
    return (lo is not None and lo > 0) or (hi is not None and hi < 0)


def bounds(t, depth=0):
    """interval of an integer term from the symbols' known ranges"""
    c = as_const(t)
    if c is not None:
        return c, c
    r = RANGES.get(t.get_id())
    if r is not None:
        return r
    if depth > 12:
        return None, None
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        lo = hi = 0
        for x in t.children():
            l, h = bounds(x, depth + 1)
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
            if lo is None and hi is None:
                break
        return lo, hi
    if k == z3.Z3_OP_MUL and t.num_args() == 2:
        c = as_const(t.arg(0))
        x = t.arg(1)
        if c is None:
            c = as_const(t.arg(1)); x = t.arg(0)
        if c is None:
            return None, None
        l, h = bounds(x, depth + 1)
        l = None if l is None else l * c
        h = None if h is None else h * c
        return (l, h) if c >= 0 else (h, l)
    if k == z3.Z3_OP_UMINUS:
        l, h = bounds(t.arg(0), depth + 1)
        return (None if h is None else -h), (None if l is None else -l)
    if k == z3.Z3_OP_SUB and t.num_args() == 2:
        l, h = bounds(t.arg(0), depth + 1)
        l2, h2 = bounds(t.arg(1), depth + 1)
        return (None if l is None or h2 is None else l - h2), (None if h is None or l2 is None else h - l2)
    if k == z3.Z3_OP_ITE:
        c, a, b = t.children()
        la, ha = bounds(a, depth + 1)
        lb, hb = bounds(b, depth + 1)
        # unsigned view: if 0 <= x then x else 2^n + x
        x = None
        if c.decl().kind() == z3.Z3_OP_LE and as_const(c.arg(0)) == 0:
            x = c.arg(1)
        elif c.decl().kind() == z3.Z3_OP_GE and as_const(c.arg(1)) == 0:
            x = c.arg(0)
        if x is not None and x.eq(a):
            la = max(0, la) if la is not None else 0
            if la is not None and ha is not None and ha < la:
                return lb, hb
        return (None if la is None or lb is None else min(la, lb)), (None if ha is None or hb is None else max(ha, hb))
    if k == z3.Z3_OP_MOD:
        c = as_const(t.arg(1))
        if c and c > 0:
            return 0, c - 1
    return None, None


def zb_fold(r):
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


class Ptr:
    __slots__ = ('obj', 'off', 'prov', 'sbuf', 'fn')

    def __init__(self, obj, off=0, prov=None, sbuf=None, fn=None):
        self.obj, self.off, self.prov, self.sbuf = obj, off, prov, sbuf
        self.fn = fn

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)

    def plus(self, d):
        if isinstance(d, int) and d == 0:
            return self
        sb = None
        if self.sbuf is not None:
            sb = (self.sbuf[0], add(self.sbuf[1], d))
        return Ptr(self.obj, add(self.off, d), None, sb)


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    r = zi(a) + zi(b)
    r = simp(r)
    return r.as_long() if z3.is_int_value(r) else r


NULL = Ptr(0, 0)


class SStr:
    """A string value.  Wrapper so that literals stay visible."""
    pass


def ite(c, a, b):
    """merge of two values of any kind"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            raise Unsupported('merge of pointer and non-pointer')
        sb = None
        if a.sbuf is not None and b.sbuf is not None and same(a.sbuf[0], b.sbuf[0]):
            sb = (a.sbuf[0], ite(c, a.sbuf[1], b.sbuf[1]))
        elif (a.sbuf is not None) != (b.sbuf is not None) and (a.obj == 0 if isinstance(a.obj, int) else False or (b.obj == 0 if isinstance(b.obj, int) else False)):
            sb = a.sbuf or b.sbuf
        o, f = ite(c, a.obj, b.obj), ite(c, a.off, b.off)
        return Ptr(o, f, a.prov if a.prov is b.prov else None, sb)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return None
    if not is_z(a) and not is_z(b):
        if type(a) == type(b) and a == b:
            return a
        if isinstance(a, bool) and isinstance(b, bool):
            return c if a else Not(c)
        if isinstance(a, int) and isinstance(b, int):
            return z3.If(c, zi(a), zi(b))
        raise Unsupported('merge of %r and %r' % (a, b))
    if is_z(a) and is_z(b) and a.eq(b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a if is_z(a) else b):
        if isinstance(a, bool):
            return Or(c, b) if a else And(Not(c), b)
        if isinstance(b, bool):
            return Or(Not(c), a) if b else And(c, a)
        return z3.If(c, a, b)
    if isinstance(a, int) or isinstance(b, int):
        s = a if is_z(a) else b
        if z3.is_bv(s):
            a = z3.BitVecVal(a, s.size()) if isinstance(a, int) else a
            b = z3.BitVecVal(b, s.size()) if isinstance(b, int) else b
        else:
            a, b = zi(a), zi(b)
    # ite(c, x, ite(c, y, z)) -> ite(c,x,z)
    if z3.is_app_of(b, z3.Z3_OP_ITE) and b.arg(0).eq(c):
        b = b.arg(2)
    if z3.is_app_of(a, z3.Z3_OP_ITE) and a.arg(0).eq(c):
        a = a.arg(1)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def same(a, b):
    if a is b:
        return True
    if is_z(a) and is_z(b):
        return a.eq(b)
    if is_z(a) or is_z(b):
        return False
    return type(a) == type(b) and a == b


def ptr_eq(a, b):
    return And(Eq(a.obj, b.obj), Eq(a.off, b.off))


# ------------------------------------------------------------------ memory

_cnt = [0]


def fresh_id():
    _cnt[0] += 1
    return _cnt[0]


class Mem:
    __slots__ = ('t', 'parent', 'd', 'id', 'depth', 'memo')

    def __init__(self, t, parent, d):
        self.t, self.parent, self.d = t, parent, d
        self.id = fresh_id()
        self.memo = None


def root(name):
    return Mem('root', None, name)


class KindInfo:
    """sorts of memory cell kinds"""
    def __init__(self, mode, strsort):
        self.mode = mode
        self.str = strsort
        self.extra = {}

    def sort(self, kind):
        if kind in ('i8', 'i16', 'i32', 'i64'):
            return z3.IntSort() if self.mode == 'int' else z3.BitVecSort(int(kind[1:]))
        if kind == 'f64':
            return z3.Float64()
        if kind == 'f32':
            return z3.Float32()
        if kind == 'str':
            return self.str
        if kind == 'vsz':
            return z3.IntSort()
        if kind in self.extra:
            return self.extra[kind]
        raise Unsupported('cell kind ' + kind)

RAW = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'f64': 8, 'f32': 4, 'ptr': 8}


class Memory:
    """operations on Mem nodes"""
    def __init__(self, ex, kinds):
        self.ex = ex
        self.kinds = kinds
        self.private = set()      # input objects no pointer in the initial memory refers to (stated precondition)
        self.inputish = set()     # ast ids of terms known to be input objects (cannot equal a fresh allocation)
        self.bound = {}           # ast id -> exclusive upper bound on a concrete fresh id it may equal

    def store(self, m, p, kind, val):
        self.note_escape(kind, val)
        return Mem('st', m, (p.obj, p.off, kind, val))

    def note_escape(self, kind, val):
        if kind == 'ptr' and isinstance(val, Ptr):
            self.esc(val.obj)

    def esc(self, o):
        if isinstance(o, int):
            self.ex.escaped.add(o)
        elif z3.is_app_of(o, z3.Z3_OP_ITE):
            self.esc2(o.arg(1)); self.esc2(o.arg(2))

    def esc2(self, o):
        c = as_const(o)
        self.esc(c if c is not None else o)

    def merge(self, lst):
        """lst: [(cond, mem)] with mutually exclusive conds"""
        m0 = lst[0][1]
        if all(m is m0 for _, m in lst):
            return m0
        return Mem('mg', None, lst)

    def copy(self, m, dst, n, srcmem, src):
        return Mem('cp', m, (dst.obj, dst.off, n, srcmem, src.obj, src.off))

    def havoc(self, m, pred, name):
        """pred(obj, off, kind) -> Bool"""
        return Mem('hv', m, (pred, name))

    # -- alias tests
    def obj_eq(self, a, b):
        if a is b:
            return True
        ca, cb = as_const(a), as_const(b)
        if ca is not None and cb is not None:
            return ca == cb
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None:
            if not self.may_be(a, cb):
                return False
            return Eq(a, cb)
        if a.eq(b):
            return True
        return a == b

    def may_be(self, t, c):
        """can term t (an object id) equal the constant c?"""
        cc = as_const(t)
        if cc is not None:
            return cc == c
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return self.may_be(t.arg(1), c) or self.may_be(t.arg(2), c)
        i = t.get_id()
        if c in self.private:
            # no initial pointer refers to it; any other unknown pointer may once its address was stored anywhere
            return i not in self.inputish and c in self.ex.escaped
        if c >= FRESH:
            if i in self.inputish:
                return False
            if c not in self.ex.escaped:
                return False
            if i in self.bound and c >= self.bound[i]:
                return False
        return True

    def loc_eq(self, o1, f1, o2, f2):
        e = Eq(f1, f2)
        if e is False:
            return False
        return And(self.obj_eq(o1, o2), e)

    def load(self, m, p, kind):
        return self._load(m, p.obj, p.off, kind)

    def _load(self, m, o, f, kind):
        # split on ite of objects
        if is_z(o):
            c = as_const(o)
            if c is not None:
                o = c
            elif z3.is_app_of(o, z3.Z3_OP_ITE):
                cnd, a, b = o.children()
                ff = f
                fa = fb = f
                if is_z(f) and z3.is_app_of(f, z3.Z3_OP_ITE) and f.arg(0).eq(cnd):
                    fa, fb = f.arg(1), f.arg(2)
                    fa = as_const(fa) if as_const(fa) is not None else fa
                    fb = as_const(fb) if as_const(fb) is not None else fb
                ca, cb = as_const(a), as_const(b)
                return ite(cnd, self._load(m, ca if ca is not None else a, fa, kind), self._load(m, cb if cb is not None else b, fb, kind))
        if is_z(f):
            c = as_const(f)
            if c is not None:
                f = c
        key = (o if isinstance(o, int) else ('z', o.get_id()), f if isinstance(f, int) else ('z', f.get_id()), kind)
        pend = []
        node = m
        while True:
            t = node.t
            if t == 'st':
                so, sf, sk, sv = node.d
                if sk == kind:
                    c = self.loc_eq(o, f, so, sf)
                    if c is True:
                        base = sv
                        break
                    if c is not False:
                        pend.append((c, sv))
                elif kind in RAW and sk in RAW and isinstance(f, int) and isinstance(sf, int) and (isinstance(o, int) and isinstance(so, int) and o == so or (is_z(o) and is_z(so) and o.eq(so))):
                    if f < sf + RAW[sk] and sf < f + RAW[kind]:
                        # type-punned access
                        pun = self.pun(kind, f, sk, sf, sv)
                        if pun is None:
                            raise Unsupported('type-punned load %s over %s' % (kind, sk))
                        base = pun
                        break
                node = node.parent
            elif t == 'mg':
                mk = key
                if node.memo is None:
                    node.memo = {}
                if mk in node.memo:
                    base = node.memo[mk][0]
                else:
                    lst = node.d
                    base = self._load(lst[-1][1], o, f, kind)
                    for c, mm in reversed(lst[:-1]):
                        base = ite(c, self._load(mm, o, f, kind), base)
                    node.memo[mk] = (base, o, f)
                break
            elif t == 'cp':
                do, df, n, sm, so, sf = node.d
                oe = self.obj_eq(o, do)
                if oe is False:
                    node = node.parent
                    continue
                d = self.sub(f, df)
                if isinstance(d, int) and isinstance(n, int):
                    inr = 0 <= d < n
                else:
                    inr = And(ge(d, 0), lt(d, n))
                c = And(oe, inr)
                if c is False:
                    node = node.parent
                    continue
                v = self._load(sm, so, add(sf, d), kind)
                if c is True:
                    base = v
                    break
                pend.append((c, v))
                node = node.parent
            elif t == 'hv':
                pred, name = node.d
                c = pred(o, f, kind)
                if c is False:
                    node = node.parent
                    continue
                v = self.symbol(name, o, f, kind)
                if c is True:
                    base = v
                    break
                pend.append((c, v))
                node = node.parent
            elif t == 'root':
                base = self.ex.root_load(node, o, f, kind)
                break
            else:
                raise AssertionError(t)
        for c, v in reversed(pend):
            base = ite(c, v, base)
        return base

    def pun(self, kind, f, sk, sf, sv):
        if kind == 'i8' and sk == 'i8':
            return None
        # zero initialisation via memset of wider cells
        if isinstance(sv, int) and sv == 0:
            if kind == 'ptr':
                return NULL
            if kind in ('i8', 'i16', 'i32', 'i64'):
                return 0
            if kind == 'f64':
                return z3.FPVal(0.0, z3.Float64())
        return None

    def sub(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a - b
        r = simp(zi(a) - zi(b))
        return r.as_long() if z3.is_int_value(r) else r

    def symbol(self, name, o, f, kind):
        """uninterpreted contents of an unknown memory"""
        if name == '$zero':
            if kind == 'ptr':
                return NULL
            if kind in ('f64', 'f32'):
                return z3.FPVal(0.0, self.kinds.sort(kind))
            if kind[0] == 'i':
                return 0
        if kind == 'ptr':
            fo = z3.Function(name + '.po', z3.IntSort(), z3.IntSort(), z3.IntSort())(zi(o), zi(f))
            ff = z3.Function(name + '.pf', z3.IntSort(), z3.IntSort(), z3.IntSort())(zi(o), zi(f))
            self.ex.on_symbol(name, fo, kind)
            return Ptr(fo, ff)
        s = self.kinds.sort(kind)
        v = z3.Function(name + '.' + kind, z3.IntSort(), z3.IntSort(), s)(zi(o), zi(f))
        self.ex.on_symbol(name, v, kind)
        return v


def ge(a, b):
    if not is_z(a) and not is_z(b):
        return a >= b
    return zb_fold(simp(zi(a) >= zi(b))) if True else None


def lt(a, b):
    if not is_z(a) and not is_z(b):
        return a < b
    return zb_fold(simp(zi(a) < zi(b)))


class State:
    __slots__ = ('cond', 'mem', 'env')

    def __init__(self, cond, mem, env):
        self.cond, self.mem, self.env = cond, mem, env

    def copy(self):
        return State(self.cond, self.mem, dict(self.env))
