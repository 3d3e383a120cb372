"""VC generator: forward symbolic execution of LLVM IR with state merging at joins and loops cut by invariants."""
import re, sys, time, struct
import z3
from .core import *
from . import ir

sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)

MAXI = {n: 1 << n for n in (1, 8, 16, 32, 64)}


class Obl:
    __slots__ = ('name', 'tag', 'cond', 'f', 'where', 'aux', 'info')

    def __init__(self, name, tag, cond, f, where='', aux=False, info=None):
        self.name, self.tag, self.cond, self.f, self.where, self.aux, self.info = name, tag, cond, f, where, aux, info


class Cand:
    """candidate loop invariant"""
    __slots__ = ('name', 'entry', 'hdr', 'backs', 'live', 'loop', 'must')


class LoopRec:
    index = 0
    end = 1 << 60


class Log(list):
    """events a specification notes during execution: exploratory passes over loops leave no trace in it"""
    def __init__(self, ex):
        self.ex = ex
        ex.logs.append((lambda: len(self), lambda n: self.__delitem__(slice(n, None))))

    def append(self, x):
        if not self.ex.suppress:
            list.append(self, x)


class Exec:
    def __init__(self, mod, mode='int', strsort=None, name=''):
        self.mod = mod
        self.mode = mode
        self.name = name
        self.S = strsort if strsort is not None else z3.DeclareSort('Str')
        self.kinds = KindInfo(mode, self.S)
        self.m = Memory(self, self.kinds)
        self.axioms = []
        self.axid = set()
        self.obls = []
        self.events = []
        self.escaped = set()
        self.nextobj = FRESH
        self.globs = {}
        self.globname = {}
        self.contracts = []       # [(regex|callable, handler)]
        self.vcontracts = {}      # virtual method 'Class::method' or 'method' -> handler
        self.depth = 0
        self.stack = []
        self.used_contracts = {}
        self.inlined = set()
        self.loops = []
        self.inv_gens = []
        self.probes = []        # index terms at which the axioms of the string searches are instantiated
        self.logs = []          # (save, undo) of logs kept by specifications
        self.unroll = []          # [(regex, n)]
        self.nonneg = set()
        self.sl = {}              # ast id -> bit slices
        self.keep = []            # keep z3 refs alive (ids used as keys)
        self.lits = {}
        self.check_null = False
        self.check_overflow = False
        self.vclass = {}
        self.suppress = 0
        self.callcache = {}
        self.maxdepth = 60
        self.cells = {}
        self.type_ids = None
        self.steps = 0
        self.step_limit = 2000000
        self.rootptr_hook = None
        self.concrete_limit = 400
        from . import lib
        self.lib = lib.Lib(self)

    # ---------------------------------------------------------------- helpers
    def fresh(self, prefix, sort=None):
        if sort is None:
            sort = z3.IntSort()
        return z3.Const('%s!%d' % (prefix, fresh_id()), sort)

    def axiom(self, f):
        if f is True:
            return
        f = zb(f)
        i = f.get_id()
        if i not in self.axid:
            self.axid.add(i)
            self.axioms.append(f)

    def set_nonneg(self, x):
        if is_z(x):
            self.nonneg.add(x.get_id()); self.keep.append(x)
        return x

    def is_nonneg(self, x):
        if isinstance(x, int):
            return x >= 0
        if x.get_id() in self.nonneg:
            return True
        k = x.decl().kind()
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_MUL:
            r = all(self.is_nonneg(as_const(c) if as_const(c) is not None else c) for c in x.children())
        elif k == z3.Z3_OP_ITE:
            r = all(self.is_nonneg(as_const(c) if as_const(c) is not None else c) for c in x.children()[1:])
        elif k == z3.Z3_OP_MOD or k == z3.Z3_OP_SEQ_LENGTH:
            r = True
        elif k == z3.Z3_OP_IDIV:
            r = self.is_nonneg(as_const(x.arg(0)) if as_const(x.arg(0)) is not None else x.arg(0)) and (as_const(x.arg(1)) or 0) > 0
        else:
            r = False
        if r:
            self.nonneg.add(x.get_id()); self.keep.append(x)
        return r

    def oblige(self, name, cond, f, tag='post', where='', aux=False, info=None):
        if self.suppress:
            return
        g = Implies(cond, f)
        self.obls.append(Obl(name, tag, cond, f, where or (self.stack[-1] if self.stack else ''), aux, info))

    def alloc(self, size=None, tag=''):
        self.nextobj += 1
        return Ptr(self.nextobj, 0)

    def input_ptr(self, name, nonnull=True, off=0):
        o = z3.Int('in!' + name)
        self.m.inputish.add(o.get_id()); self.keep.append(o)
        self.axiom(o < 0 if nonnull else o <= 0)
        return Ptr(o, off)

    def new_input_obj(self):
        """concrete distinct input object (negative id)"""
        self._negobj = getattr(self, '_negobj', 0) - 1
        return Ptr(self._negobj, 0)

    def on_symbol(self, name, term, kind):
        i = term.get_id()
        if i in self.cells:
            return
        self.cells[i] = term
        if kind == 'ptr':
            self.m.inputish.add(i) if name.startswith('mem0') else self.m.bound.__setitem__(i, self.nextobj + 1)
            if name.startswith('mem0'):
                self.axiom(term < GLOB)
            else:
                self.axiom(term <= self.nextobj)
        elif kind == 'vsz':
            self.set_nonneg(term)
            self.axiom(term >= 0)
            self.axiom(term < (1 << 58))
            set_range(term, 0, (1 << 58) - 1)
        elif self.mode == 'int' and kind in ('i8', 'i16', 'i32', 'i64'):
            n = int(kind[1:])
            self.axiom(And(term >= -(1 << (n-1)), term < (1 << (n-1))))
            set_range(term, -(1 << (n-1)), (1 << (n-1)) - 1)

    # root memory: constant globals, otherwise symbols
    def root_load(self, node, o, f, kind):
        if isinstance(o, int) and GLOB <= o < FRESH:
            nm = self.globname.get(o)
            if nm is not None:
                g = self.mod.glob(nm)
                if g is not None and g[0] != 'alias' and (g[2] or nm in self.mod.consts) and g[1] is not None:
                    if not isinstance(f, int):
                        return self.const_table_load(nm, g, f, kind)
                    v = self.const_load(g[0], g[1], f, kind)
                    if v is not None:
                        return v
        if isinstance(o, int) and o >= FRESH:
            # uninitialised memory of an object allocated during the run
            return self.m.symbol('undef', o, f, kind)
        if kind == 'ptr' and self.rootptr_hook:
            r = self.rootptr_hook(o, f)
            if r is not None:
                return r
        return self.m.symbol(node.d, o, f, kind)

    def const_table_load(self, nm, g, f, kind):
        """load at symbolic offset from a constant global array: ite chain over entries"""
        t = g[0]
        sz = self.mod.sizeof(t)
        step = RAW.get(kind, 1)
        # offsets of all cells of this kind
        cells = []
        self._cells(t, 0, kind, cells)
        if len(cells) > 4000 or not cells:
            raise Unsupported('symbolic index into ' + nm)
        v = self.m.symbol('oob.' + nm, 0, f, kind)
        for off in reversed(cells):
            cv = self.const_load(t, g[1], off, kind)
            v = ite(Eq(f, off), cv, v)
        return v

    def _cells(self, t, base, kind, out):
        t = self.mod.resolve(t)
        if t[0] == 'st':
            for i in range(len(t[2])):
                off, e = self.mod.field_off(t, i)
                self._cells(e, base + off, kind, out)
        elif t[0] == 'arr':
            s = self.mod.sizeof(t[2])
            for i in range(t[1]):
                self._cells(t[2], base + i * s, kind, out)
        elif self.kind_of(t) == kind:
            out.append(base)

    def const_load(self, t, init, off, kind):
        t = self.mod.resolve(t)
        if init[0] in ('zero',) and t[0] in ('st', 'arr', 'nm', 'i', 'ptr', 'f64', 'f32'):
            if kind == 'ptr':
                return NULL
            if kind[0] == 'i':
                return self.ival(0, int(kind[1:]))
            if kind == 'f64':
                return z3.FPVal(0.0, z3.Float64())
            return None
        if t[0] == 'st':
            for i in range(len(t[2])):
                o, e = self.mod.field_off(t, i)
                if o <= off < o + self.mod.sizeof(e):
                    if init[0] == 'undef':
                        return None
                    return self.const_load(e, init[1][i][1], off - o, kind)
            return None
        if t[0] == 'arr':
            s = self.mod.sizeof(t[2])
            i = off // s
            if i >= t[1] or i < 0:
                return None
            if init[0] == 'bytes':
                if kind == 'i8':
                    b = init[1][i]
                    return self.ival(b - 256 if b > 127 else b, 8)
                return None
            if init[0] == 'undef':
                return None
            return self.const_load(t[2], init[1][i][1], off - i * s, kind)
        if off != 0 or self.kind_of(t) != kind:
            return None
        return self.operand(t, init, None)

    def ival(self, v, n):
        """python int constant in canonical form"""
        if self.mode == 'bv':
            return v & ((1 << n) - 1)
        v &= (1 << n) - 1
        return v - (1 << n) if v >= (1 << (n-1)) else v

    def kind_of(self, t):
        if t[0] == 'i':
            return 'i8' if t[1] <= 8 else 'i%d' % t[1]
        if t[0] == 'ptr':
            return 'ptr'
        if t[0] in ('f64', 'f32'):
            return t[0]
        return None

    def global_ptr(self, name):
        f = self.mod.funcs.get(name)
        g = self.mod.glob(name) if f is None else None
        if g is not None and g[0] == 'alias':
            return self.operand(('ptr',), g[1], None)
        i = self.globs.get(name)
        if i is None:
            i = GLOB + len(self.globs)
            self.globs[name] = i
            self.globname[i] = name
        return Ptr(i, 0)

    # ---------------------------------------------------------------- operands
    def operand(self, t, op, env):
        k = op[0]
        if k == 'r':
            try:
                return env[op[1]]
            except KeyError:
                raise Unsupported('undefined register %' + op[1])
        if k == 'c':
            if t[0] == 'i' and t[1] == 1:
                return bool(op[1] & 1)
            return self.ival(op[1], t[1])
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(op[1])
        if k == 'fp':
            return self.fpconst(t, op[1])
        if k == 'undef':
            return self.undef(t)
        if k == 'zero':
            return self.zero(t)
        if k == 'cgep':
            base = self.operand(op[2][0][0], op[2][0][1], env)
            return self.gep(op[1], base, [(tt, self.operand(tt, v, env)) for tt, v in op[2][1:]])
        if k == 'ccast':
            v = self.operand(op[2], op[3], env)
            if op[1] in ('bitcast', 'addrspacecast'):
                return v
            if op[1] == 'inttoptr' and isinstance(v, int):
                return Ptr(0, v) if v else NULL
            if op[1] == 'ptrtoint':
                return v
            raise Unsupported('constant cast ' + op[1])
        if k == 'agg':
            return tuple(self.operand(tt, v, env) for tt, v in op[1])
        raise Unsupported('operand ' + str(op)[:80])

    def fpconst(self, t, s):
        if s.startswith('0x') or s.startswith('-0x'):
            if s[2:3] in 'KMLHR':
                raise Unsupported('long double constant')
            v = struct.unpack('>d', int(s, 16).to_bytes(8, 'big'))[0]
        else:
            v = float(s)
        so = z3.Float64() if t[0] == 'f64' else z3.Float32()
        return z3.FPVal(v, so)

    def undef(self, t):
        if t[0] == 'i':
            if t[1] == 1:
                return self.fresh('undef', z3.BoolSort())
            return self.fresh('undef', z3.IntSort() if self.mode == 'int' else z3.BitVecSort(t[1]))
        if t[0] == 'ptr':
            return Ptr(self.fresh('undefp'), 0)
        if t[0] in ('f64', 'f32'):
            return self.fresh('undeff', z3.Float64() if t[0] == 'f64' else z3.Float32())
        t = self.mod.resolve(t)
        if t[0] == 'st':
            return tuple(self.undef(e) for e in t[2])
        if t[0] == 'arr':
            return tuple(self.undef(t[2]) for _ in range(t[1]))
        raise Unsupported('undef ' + str(t))

    def zero(self, t):
        if t[0] == 'i':
            return False if t[1] == 1 else 0
        if t[0] == 'ptr':
            return NULL
        if t[0] == 'f64':
            return z3.FPVal(0.0, z3.Float64())
        if t[0] == 'f32':
            return z3.FPVal(0.0, z3.Float32())
        t = self.mod.resolve(t)
        if t[0] == 'st':
            return tuple(self.zero(e) for e in t[2])
        if t[0] == 'arr':
            return tuple(self.zero(t[2]) for _ in range(t[1]))
        raise Unsupported('zero ' + str(t))

    def gep(self, t, base, idx):
        off = 0
        mod = self.mod
        first = True
        for tt, v in idx:
            v = self.toint(v, tt)
            if first:
                off = add(off, self.mul_c(v, mod.sizeof(t)))
                first = False
                continue
            t = mod.resolve(t)
            if t[0] == 'st':
                o, t = mod.field_off(t, v)
                off = add(off, o)
            elif t[0] in ('arr', 'vec'):
                t = t[2]
                off = add(off, self.mul_c(v, mod.sizeof(t)))
            else:
                raise Unsupported('gep into ' + str(t))
        if isinstance(off, int) and off == 0:
            r = Ptr(base.obj, base.off, None, base.sbuf)
        else:
            r = base.plus(off)
        r.prov = ('gep', base, off)
        return r

    def toint(self, v, t):
        if self.mode == 'bv':
            if isinstance(v, int):
                n = t[1]
                return v - (1 << n) if v >= (1 << (n-1)) else v
            return z3.BV2Int(v, True)
        return v

    def mul_c(self, v, c):
        if isinstance(v, int):
            return v * c
        if c == 1:
            return v
        return v * c

    # ---------------------------------------------------------------- arithmetic
    def u(self, x, n):
        """unsigned reading of a signed-representation integer"""
        if isinstance(x, int):
            return x & ((1 << n) - 1)
        if self.is_nonneg(x):
            return x
        return self.set_nonneg(z3.If(x < 0, x + (1 << n), x))

    def wrap(self, x, n, exact):
        if isinstance(x, int):
            return self.ival(x, n)
        if exact or n >= 64:
            return x
        h = 1 << (n-1)
        return z3.If(z3.And(x >= -h, x < h), x, (x + h) % (1 << n) - h)

    def binop(self, I, a, b, cond):
        op = I.op
        t = I.ty
        if op[0] == 'f':
            rm = z3.RNE()
            if op == 'fadd':
                return z3.fpAdd(rm, a, b)
            if op == 'fsub':
                return z3.fpSub(rm, a, b)
            if op == 'fmul':
                return z3.fpMul(rm, a, b)
            if op == 'fdiv':
                return z3.fpDiv(rm, a, b)
            raise Unsupported(op)
        if t[0] != 'i':
            raise Unsupported('vector arithmetic')
        n = t[1]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            # pointer difference through ptrtoint
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.sbuf is None and b.sbuf is None or True:
                    self.oblige('pointer difference within one object', cond, self.m.obj_eq(a.obj, b.obj), tag='ptrdiff')
                    return self.m.sub(a.off, b.off)
            raise Unsupported('arithmetic on pointer bits')
        if n == 1:
            A = a if is_z(a) or isinstance(a, bool) else bool(a)
            B = b
            if op == 'and':
                return And(A, B)
            if op == 'or':
                return Or(A, B)
            if op == 'xor':
                return Not(Eq(A, B)) if not (isinstance(A, bool) or isinstance(B, bool)) else (Not(A) if B is True else A if B is False else Not(B) if A is True else B)
            raise Unsupported('i1 ' + op)
        if self.mode == 'bv':
            return self.binop_bv(op, a, b, n)
        ex = bool(I.x and 'nsw' in I.x)
        if op in ('add', 'sub', 'mul'):
            if isinstance(a, int) and isinstance(b, int):
                r = a + b if op == 'add' else a - b if op == 'sub' else a * b
                return self.ival(r, n)
            if op == 'mul' and is_z(a) and is_z(b):
                r = a * b
            else:
                r = zi(a) + zi(b) if op == 'add' else zi(a) - zi(b) if op == 'sub' else zi(a) * zi(b)
            r = simp(r)
            if z3.is_int_value(r):
                return self.ival(r.as_long(), n)
            if ex and self.check_overflow:
                h = 1 << (n-1)
                self.oblige('no signed overflow in %s' % op, cond, And(r >= -h, r < h), tag='overflow')
            return self.wrap(r, n, ex)
        if op in ('sdiv', 'srem'):
            if isinstance(b, int) and b > 0:
                if isinstance(a, int):
                    q = abs(a) // b
                    q = q if a >= 0 else -q
                    return q if op == 'sdiv' else a - q * b
                if I.x and 'exact' in I.x:
                    q = self.fresh('q')
                    self.axiom(q * b == a)
                    if self.is_nonneg(a):
                        self.set_nonneg(q); self.axiom(q >= 0)
                    return q
                if self.is_nonneg(a):
                    q = a / b
                else:
                    q = z3.If(a >= 0, a / b, -((-a) / b))
                return q if op == 'sdiv' else a - q * b
            raise Unsupported(op + ' by variable')
        if op in ('udiv', 'urem'):
            if isinstance(b, int):
                ub = b & ((1 << n) - 1)
                ua = self.u(a, n)
                if isinstance(ua, int):
                    return self.ival(ua // ub if op == 'udiv' else ua % ub, n)
                return self.set_nonneg(ua / ub if op == 'udiv' else ua % ub)
            ua, ub = self.u(a, n), self.u(b, n)
            r = zi(ua) / zi(ub) if op == 'udiv' else zi(ua) % zi(ub)
            return self.set_nonneg(r)
        if isinstance(a, int) and isinstance(b, int):
            ua, ub = a & ((1 << n)-1), b & ((1 << n)-1)
            r = {'and': lambda: ua & ub, 'or': lambda: ua | ub, 'xor': lambda: ua ^ ub, 'shl': lambda: ua << ub,
                 'lshr': lambda: ua >> ub, 'ashr': lambda: a >> ub}[op]()
            return self.ival(r, n)
        if op in ('shl', 'lshr') and isinstance(b, int) and n <= 32 and is_z(a) and (a.get_id() in self.sl or (op == 'lshr' and n == 32 and b % 8 == 0)):
            sh = b if op == 'shl' else -b
            return self.unslice(self.cut([(lo + sh, ln, t) for lo, ln, t in self.slices(a, n)], 0, n), n)
        if op == 'shl' and isinstance(b, int) and n <= 32 and self.nonneg_bounded(a):
            return self.unslice(self.cut([(lo + b, ln, t) for lo, ln, t in self.slices(a, n)], 0, n), n)
        if op == 'shl' and isinstance(b, int):
            return self.wrap(a * (1 << b), n, ex)
        if op == 'lshr' and isinstance(b, int):
            return self.set_nonneg(self.u(a, n) / (1 << b))
        if op in ('and', 'or') and n <= 32 and not (op == 'or' and self.as01(a) is not None and self.as01(b) is not None):
            if isinstance(a, int):
                a, b = b, a
            if op == 'and' and isinstance(b, int):
                sl = self.slices(a, n)
                ub = b & ((1 << n) - 1)
                if a.get_id() in self.sl or not (ub & (ub + 1)) == 0 or (n == 32 and ub in (0xff, 0xffff, 0xffffff)):
                    out = []
                    lo = 0
                    while lo < n:
                        if ub >> lo & 1:
                            hi = lo
                            while hi < n and ub >> hi & 1:
                                hi += 1
                            out += self.cut(sl, lo, hi)
                            lo = hi
                        else:
                            lo += 1
                    return self.unslice(out, n)
            if op == 'or':
                s1, s2 = self.slices(a, n), self.slices(b, n)
                if all(l1 + n1 <= l2 or l2 + n2 <= l1 for l1, n1, _ in s1 for l2, n2, _ in s2):
                    return self.unslice(s1 + s2, n)
        if op == 'ashr' and isinstance(b, int):
            return a / (1 << b)     # z3 div is floor for positive divisor
        if op == 'and':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
                return self.set_nonneg(a % (b + 1))
            if isinstance(b, int) and b == -1:
                return a
        if op == 'or' or op == 'and':
            # or/and of 0/1 values
            ba, bb = self.as01(a), self.as01(b)
            if ba is not None and bb is not None:
                r = Or(ba, bb) if op == 'or' else And(ba, bb)
                return ite(r, 1, 0)
        if op == 'xor' and isinstance(b, int) and b == -1:
            return simp(-1 - a)
        A = z3.Int2BV(zi(a), n)
        B = z3.Int2BV(zi(b), n)
        r = self.binop_bv(op, A, B, n)
        return z3.BV2Int(r, True)

    # bit slices: a value as a sum of disjoint fields t*2^lo, 0 <= t < 2^len (exact; only a representation)
    def nonneg_bounded(self, a):
        lo, hi = bounds(a)
        return lo is not None and hi is not None and lo >= 0

    def slices(self, x, n):
        if isinstance(x, int):
            u = x & ((1 << n) - 1)
            out, i = [], 0
            while i < n:
                if u >> i & 1:
                    j = i
                    while j < n and u >> j & 1:
                        j += 1
                    out.append((i, j - i, (1 << (j - i)) - 1))
                    i = j
                else:
                    i += 1
            return out
        if x.get_id() in self.sl:
            return self.sl[x.get_id()]
        lo, hi = bounds(x)
        if lo is not None and hi is not None and lo >= 0 and hi < (1 << n):
            return [(0, hi.bit_length(), x)] if hi else []
        return [(0, n, self.u(x, n))]

    def cut(self, sl, lo, hi):
        out = []
        for l, k, t in sl:
            a, b = max(l, lo), min(l + k, hi)
            if a >= b:
                continue
            if is_z(t) and k in (16, 24, 32) and (a - l) % 8 == 0 and (b - l) % 8 == 0 and (a > l or b < l + k):
                bs = self.bytes_of(t, k // 8)
                out += [(l + 8 * i, 8, bs[i]) for i in range((a - l) // 8, (b - l) // 8)]
                continue
            if a > l:
                t = t >> (a - l) if isinstance(t, int) else t / (1 << (a - l))
            if b < l + k:
                t = t & ((1 << (b - a)) - 1) if isinstance(t, int) else t % (1 << (b - a))
            out.append((a, b - a, t))
        return out

    def bytes_of(self, t, n):
        d = self.__dict__.setdefault('_bytes', {})
        if (t.get_id(), n) not in d:
            bs = [self.fresh('byte') for _ in range(n)]
            for x in bs:
                set_range(x, 0, 255)
                self.axiom(And(x >= 0, x <= 255))
            self.axiom(z3.Implies(And(t >= 0, t < (1 << (8 * n))), t == z3.Sum([x * (1 << (8 * i)) for i, x in enumerate(bs)])))
            d[(t.get_id(), n)] = bs
            self.keep.append(t)
        return d[(t.get_id(), n)]

    def unslice(self, sl, n):
        sl = sorted(sl, key=lambda x: x[0])
        r = 0
        top = 0
        for l, k, t in sl:
            r = add(r, t * (1 << l) if isinstance(t, int) else simp(t * (1 << l)))
            top = max(top, l + k)
            if is_z(t):
                self.keep.append(t)
                set_range(t, 0, (1 << k) - 1)
        if isinstance(r, int):
            return self.ival(r, n)
        if top >= n:
            r = z3.If(r >= (1 << (n - 1)), r - (1 << n), r)
        else:
            self.set_nonneg(r)
            set_range(r, 0, (1 << top) - 1)
        self.keep.append(r)
        self.sl[r.get_id()] = sl
        return r

    def as01(self, x):
        if isinstance(x, int):
            return bool(x) if x in (0, 1) else None
        if z3.is_app_of(x, z3.Z3_OP_ITE) and as_const(x.arg(1)) == 1 and as_const(x.arg(2)) == 0:
            return x.arg(0)
        return None

    def bvv(self, x, n):
        return z3.BitVecVal(x, n) if isinstance(x, int) else x

    def binop_bv(self, op, a, b, n):
        a, b = self.bvv(a, n), self.bvv(b, n)
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'sdiv': lambda: a / b, 'udiv': lambda: z3.UDiv(a, b),
             'srem': lambda: z3.SRem(a, b), 'urem': lambda: z3.URem(a, b), 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b),
             'ashr': lambda: a >> b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[op]()
        r = simp(r)
        return r.as_long() if z3.is_bv_value(r) else r

    def icmp(self, pr, t, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr) or not isinstance(b, Ptr):
                raise Unsupported('icmp ptr/int')
            if pr == 'eq':
                return self.peq(a, b)
            if pr == 'ne':
                return Not(self.peq(a, b))
            # ordering inside one object
            d = self.m.sub(a.off, b.off)
            d = zi(d)
            r = {'ult': d < 0, 'ule': d <= 0, 'ugt': d > 0, 'uge': d >= 0, 'slt': d < 0, 'sle': d <= 0, 'sgt': d > 0, 'sge': d >= 0}[pr]
            return zb_fold(simp(r))
        n = t[1]
        if n == 1:
            if pr == 'eq':
                return Eq(a, b)
            if pr == 'ne':
                return Not(Eq(a, b))
            raise Unsupported('icmp i1 ' + pr)
        if self.mode == 'bv':
            A, B = self.bvv(a, n), self.bvv(b, n)
            r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'slt': lambda: A < B, 'sle': lambda: A <= B, 'sgt': lambda: A > B, 'sge': lambda: A >= B,
                 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B)}[pr]()
            return zb_fold(simp(r))
        if pr == 'eq':
            return Eq(a, b)
        if pr == 'ne':
            return Not(Eq(a, b))
        if pr[0] == 'u':
            a, b = self.u(a, n), self.u(b, n)
        if isinstance(a, int) and isinstance(b, int):
            return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pr[1:]]
        A, B = zi(a), zi(b)
        r = {'lt': lambda: A < B, 'le': lambda: A <= B, 'gt': lambda: A > B, 'ge': lambda: A >= B}[pr[1:]]()
        r2 = zb_fold(simp(r))
        return r2

    def peq(self, a, b):
        # null tests: only the object id matters for valid pointers
        if isinstance(b.obj, int) and b.obj == 0 and isinstance(b.off, int) and b.off == 0:
            return self.isnull(a)
        if isinstance(a.obj, int) and a.obj == 0 and isinstance(a.off, int) and a.off == 0:
            return self.isnull(b)
        e = Eq(a.off, b.off)
        if e is False:
            # distinct offsets are distinct addresses inside one object; across objects also distinct
            return False
        return And(self.m.obj_eq(a.obj, b.obj), e)

    def isnull(self, p):
        return Eq(p.obj, 0)

    def fcmp(self, pr, a, b):
        if pr == 'true':
            return True
        if pr == 'false':
            return False
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pr == 'ord':
            return z3.Not(nan)
        if pr == 'uno':
            return nan
        base = {'eq': lambda: z3.fpEQ(a, b), 'ne': lambda: z3.Not(z3.fpEQ(a, b)), 'lt': lambda: z3.fpLT(a, b), 'le': lambda: z3.fpLEQ(a, b),
                'gt': lambda: z3.fpGT(a, b), 'ge': lambda: z3.fpGEQ(a, b)}[pr[1:]]()
        if pr[0] == 'o':
            r = z3.And(z3.Not(nan), base) if pr == 'one' else base
        else:
            r = base if pr == 'une' else z3.Or(nan, base)
        return zb_fold(simp(r))

    def cast(self, I, v):
        op, ft, tt = I.op, I.x, I.ty
        if op in ('bitcast', 'addrspacecast'):
            if ft == tt or ft[0] == tt[0]:
                return v
            raise Unsupported('bitcast %s %s' % (ft, tt))
        if op == 'ptrtoint':
            return v         # keep the pointer; only differences/compare are supported
        if op == 'inttoptr':
            if isinstance(v, Ptr):
                return v
            if isinstance(v, int):
                return Ptr(0, v) if v else NULL
            raise Unsupported('inttoptr')
        if op in ('zext', 'sext', 'trunc'):
            fn, tn = ft[1], tt[1]
            if isinstance(v, Ptr):
                raise Unsupported('cast of pointer bits')
            if fn == 1:
                if op == 'sext':
                    return ite(v, self.ival(-1, tn), 0)
                if isinstance(v, bool):
                    return 1 if v else 0
                if self.mode == 'bv':
                    return z3.If(v, z3.BitVecVal(1, tn), z3.BitVecVal(0, tn))
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if tn == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                if z3.is_app_of(v, z3.Z3_OP_ITE):
                    r = Eq(v, 1) if self.mode == 'int' else None
                    if r is not None and not z3.is_eq(r if is_z(r) else z3.BoolVal(True)):
                        return r
                if self.mode == 'bv':
                    return zb_fold(simp(v != 0))
                if fn == 8:
                    return Not(Eq(v, 0))     # C++ bool objects hold 0 or 1
                return (v % 2) == 1
            if self.mode == 'bv':
                if isinstance(v, int):
                    if op == 'sext' and v >= (1 << (fn-1)):
                        v -= 1 << fn
                    return v & ((1 << tn) - 1)
                r = z3.ZeroExt(tn-fn, v) if op == 'zext' else z3.SignExt(tn-fn, v) if op == 'sext' else z3.Extract(tn-1, 0, v)
                r = simp(r)
                return r.as_long() if z3.is_bv_value(r) else r
            if op == 'sext':
                return v
            if op == 'zext':
                if is_z(v) and v.get_id() in self.sl:
                    return self.unslice(self.sl[v.get_id()], tn)
                r = self.u(v, fn)
                if is_z(r) and fn <= 32:
                    set_range(r, 0, (1 << fn) - 1)
                return r
            if is_z(v) and v.get_id() in self.sl and not self.in_range(v, tn):
                return self.unslice(self.cut(self.sl[v.get_id()], 0, tn), tn)
            return self.wrap(v, tn, self.in_range(v, tn))
        if op in ('sitofp', 'uitofp'):
            so = z3.Float64() if tt[0] == 'f64' else z3.Float32()
            if isinstance(v, int):
                if op == 'uitofp':
                    v = v & ((1 << ft[1]) - 1)
                elif self.mode == 'bv' and v >= (1 << (ft[1]-1)):
                    v -= 1 << ft[1]
                return z3.FPVal(float(v), so)
            if self.mode == 'bv':
                return z3.fpSignedToFP(z3.RNE(), v, so) if op == 'sitofp' else z3.fpUnsignedToFP(z3.RNE(), v, so)
            return z3.fpSignedToFP(z3.RNE(), z3.Int2BV(v, ft[1]), so) if op == 'sitofp' else z3.fpUnsignedToFP(z3.RNE(), z3.Int2BV(v, ft[1]), so)
        if op == 'fpext':
            return z3.fpToFP(z3.RNE(), v, z3.Float64())
        if op == 'fptrunc':
            return z3.fpToFP(z3.RNE(), v, z3.Float32())
        if op == 'fptosi':
            r = z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(tt[1]))
            return r if self.mode == 'bv' else z3.BV2Int(r, True)
        raise Unsupported('cast ' + op)

    def int_to_double(self, v):
        return z3.fpSignedToFP(z3.RNE(), z3.Int2BV(zi(v), 32), z3.Float64())

    def in_range(self, v, n):
        """cheap syntactic range knowledge: value already known to fit n bits"""
        return v.get_id() in getattr(self, 'small', {}) and self.small[v.get_id()] <= n if hasattr(self, 'small') else False

    # ---------------------------------------------------------------- state merging
    def merge_states(self, sts):
        sts = [s for s in sts if s.cond is not False]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        cond = Or(*[s.cond for s in sts])
        # discriminators: relative to the common part of the conditions
        disc = self.discriminate([s.cond for s in sts])
        mem = self.m.merge(list(zip(disc, [s.mem for s in sts])))
        env = {}
        e0 = sts[0].env
        rest = [s.env for s in sts[1:]]
        for k, v in e0.items():
            ok = True
            diff = False
            for e in rest:
                if k not in e:
                    ok = False
                    break
                if e[k] is not v:
                    diff = True
            if not ok:
                continue
            if diff:
                vals = [s.env[k] for s in sts]
                try:
                    x = vals[-1]
                    for c, y in reversed(list(zip(disc, vals))[:-1]):
                        x = ite(c, y, x)
                except Unsupported:
                    continue
                env[k] = x
            else:
                env[k] = v
        return State(cond, mem, env)

    def discriminate(self, conds):
        parts = []
        for c in conds:
            if isinstance(c, bool):
                parts.append({})
            elif z3.is_and(c):
                parts.append({x.get_id(): x for x in c.children()})
            else:
                parts.append({c.get_id(): c})
        common = set(parts[0])
        for p in parts[1:]:
            common &= set(p)
        out = []
        for p in parts:
            out.append(And(*[x for i, x in p.items() if i not in common]))
        return out

    # ---------------------------------------------------------------- function execution
    def newlog(self):
        return Log(self)

    def call(self, name, args, st, site=None):
        """call function by mangled name; returns value; mutates st.  st.cond may become False (no return)."""
        h = self.find_contract(name)
        if h is not None:
            return h(self, name, args, st)
        f = self.mod.funcs.get(name)
        if f is None:
            g = self.mod.glob(name)
            if g and g[0] == 'alias':
                return self.call(g[1][1], args, st, site)
            raise Unsupported('call to unknown ' + name)
        h = self.lib.find(name, self.mod.dem.get(name, name))
        if h is not None:
            return h(self, name, args, st)
        if not f.defined:
            raise Unsupported('external function ' + self.mod.dem.get(name, name))
        return self.run_function(f, args, st)

    def find_contract(self, name):
        if name in self.callcache:
            return self.callcache[name]
        d = self.mod.dem.get(name, name)
        r = None
        for pat, h in self.contracts:
            if pat == name or pat == d or (hasattr(pat, 'search') and pat.search(d)):
                r = h
                self.used_contracts[d] = getattr(h, '__doc__', '') or getattr(h, '__name__', '')
                break
        self.callcache[name] = r
        return r

    def run_function(self, f, args, st):
        if self.stack.count(f.name) >= 2 or len(self.stack) > self.maxdepth:
            raise Unsupported('recursion through ' + self.mod.dem.get(f.name, f.name))
        self.stack.append(f.name)
        self.inlined.add(f.name)
        try:
            env = {}
            for (t, nm, at), a in zip(f.params, args):
                env[nm] = a
            loops = f.loops()
            inc = {f.entry: [(None, State(st.cond, st.mem, env))]}
            rets = []
            out = self.exec_region(f, f.rpo, inc, None, rets)
            if not rets:
                st.cond = False
                return None
            sts = []
            for v, s in rets:
                s.env = {'$ret': v}
                sts.append(s)
            ms = self.merge_states(sts)
            if ms is None:
                st.cond = False
                return None
            st.cond, st.mem = ms.cond, ms.mem
            if '$ret' not in ms.env:
                raise Unsupported('unmergeable return value of ' + f.name)
            return ms.env['$ret']
        finally:
            self.stack.pop()

    def exec_region(self, f, rpo, inc, header, rets):
        """execute blocks (in RPO) of a region.  inc: block -> [(pred, State)].
        Returns list of edges leaving the region (incl. back edges to header): [(src, dst, State)]."""
        out = []
        loops = f.loops()
        inset = set(rpo)
        done = set()
        for b in rpo:
            if b in done:
                continue
            lst = inc.get(b)
            if not lst:
                continue
            lst = [(p, s) for p, s in lst if s.cond is not False]
            if not lst:
                continue
            if b in loops and b != header:
                edges = self.exec_loop(f, b, loops[b], lst, rets)
                done |= loops[b]
            else:
                st = self.enter_block(f, b, lst) if b != header else lst[0][1]
                edges = self.exec_block(f, b, st, rets)
            for src, dst, s in edges:
                if s.cond is False:
                    continue
                if dst in inset and dst != header:
                    inc.setdefault(dst, []).append((src, s))
                else:
                    out.append((src, dst, s))
        return out

    def enter_block(self, f, b, lst):
        ins = f.blocks[b]
        sts = []
        phis = [i for i in ins if i.op == 'phi']
        for p, s in lst:
            if phis:
                env = dict(s.env)
                vals = []
                for i in phis:
                    for v, blk in i.a:
                        if blk == p:
                            vals.append((i.dst, self.operand(i.ty, v, s.env)))
                            break
                    else:
                        raise Unsupported('phi without incoming for ' + str(p))
                for d, v in vals:
                    env[d] = v
                sts.append(State(s.cond, s.mem, env))
            else:
                sts.append(State(s.cond, s.mem, dict(s.env)))
        return self.merge_states(sts)

    def exec_block(self, f, b, st, rets):
        for I in f.blocks[b]:
            op = I.op
            if op == 'phi':
                continue
            self.steps += 1
            if self.steps > self.step_limit:
                raise Unsupported('step limit')
            if op == 'br':
                c = I.a['cond']
                if c is None:
                    return [(b, I.a['targets'][0], st)]
                cv = self.operand(('i', 1), c, st.env)
                t1, t2 = I.a['targets']
                if cv is True:
                    return [(b, t1, st)]
                if cv is False:
                    return [(b, t2, st)]
                c1, c2 = And(st.cond, cv), And(st.cond, Not(cv))
                e = []
                if c1 is not False and not self.quick_false(st.cond, cv):
                    e.append((b, t1, State(c1, st.mem, st.env)))
                if c2 is not False and not self.quick_false(st.cond, Not(cv)):
                    e.append((b, t2, State(c2, st.mem, st.env)))
                if len(e) == 1:
                    e[0][2].cond = st.cond if self.quick_false(st.cond, cv) or self.quick_false(st.cond, Not(cv)) else e[0][2].cond
                return e
            if op == 'switch':
                v = self.operand(I.a['ty'], I.a['val'], st.env)
                n = I.a['ty'][1]
                if isinstance(v, int):
                    for cv, l in I.a['cases']:
                        if self.ival(cv, n) == v:
                            return [(b, l, st)]
                    return [(b, I.a['default'], st)]
                e = []
                conds = []
                bytgt = {}
                for cv, l in I.a['cases']:
                    c = Eq(v, self.ival(cv, n))
                    conds.append(c)
                    bytgt.setdefault(l, []).append(c)
                dflt = And(*[Not(c) for c in conds])
                bytgt.setdefault(I.a['default'], []).append(dflt)
                for l, cs in bytgt.items():
                    c = And(st.cond, Or(*cs))
                    if c is not False:
                        e.append((b, l, State(c, st.mem, st.env)))
                return e
            if op == 'ret':
                v = None
                if I.a is not None:
                    v = self.operand(I.ty, I.a, st.env)
                rets.append((v, st))
                return []
            if op == 'unreachable':
                return []
            self.step(f, I, st)
            if st.cond is False:
                return []
        raise Unsupported('block without terminator')

    def quick_false(self, cond, c):
        """cond implies not c, syntactically"""
        if isinstance(cond, bool) or isinstance(c, bool):
            return False
        n = Not(c)
        if isinstance(n, bool):
            return n
        nid = n.get_id()
        if z3.is_and(cond):
            for x in cond.children():
                if x.get_id() == nid:
                    return True
            return False
        return cond.get_id() == nid

    def step(self, f, I, st):
        op, env = I.op, st.env
        if op == 'load':
            p = self.operand(('ptr',), I.a, env)
            env[I.dst] = self.do_load(p, I.ty, st)
        elif op == 'store':
            v = self.operand(I.ty, I.a[0], env)
            p = self.operand(('ptr',), I.a[1], env)
            self.do_store(p, I.ty, v, st)
        elif op == 'getelementptr':
            base = self.operand(('ptr',), I.a[0][1], env)
            idx = [(tt, self.operand(tt, v, env)) for tt, v in I.a[1:]]
            env[I.dst] = self.gep(I.x, base, idx)
        elif op in ('call', 'invoke'):
            v = self.do_call(I, st)
            if I.dst is not None:
                env[I.dst] = v
        elif op == 'icmp':
            a = self.operand(I.x[1], I.a[0], env); b = self.operand(I.x[1], I.a[1], env)
            env[I.dst] = self.icmp(I.x[0], I.x[1], a, b)
        elif op == 'fcmp':
            a = self.operand(I.x[1], I.a[0], env); b = self.operand(I.x[1], I.a[1], env)
            env[I.dst] = self.fcmp(I.x[0], a, b)
        elif op in ir.BIN:
            a = self.operand(I.ty, I.a[0], env); b = self.operand(I.ty, I.a[1], env)
            env[I.dst] = self.binop(I, a, b, st.cond)
        elif op in ir.CAST:
            env[I.dst] = self.cast(I, self.operand(I.x, I.a, env))
        elif op == 'alloca':
            env[I.dst] = self.alloc(tag=I.dst)
        elif op == 'select':
            c = self.operand(('i', 1), I.a[0], env)
            env[I.dst] = ite(c, self.operand(I.ty, I.a[1], env), self.operand(I.ty, I.a[2], env))
        elif op == 'extractvalue':
            v = self.operand(I.x, I.a[0], env)
            for i in I.a[1]:
                v = v[i]
            env[I.dst] = v
        elif op == 'insertvalue':
            v = self.operand(I.ty, I.a[0], env)
            x = self.operand(I.a[1], I.a[2], env)
            env[I.dst] = self.insertv(v, I.a[3], x)
        elif op == 'fneg':
            env[I.dst] = z3.fpNeg(self.operand(I.ty, I.a, env))
        elif op == 'freeze':
            env[I.dst] = self.operand(I.ty, I.a, env)
        elif op == 'fence':
            pass
        else:
            raise Unsupported('instruction ' + I.line.strip()[:100])

    def insertv(self, v, idx, x):
        l = list(v)
        if len(idx) == 1:
            l[idx[0]] = x
        else:
            l[idx[0]] = self.insertv(l[idx[0]], idx[1:], x)
        return tuple(l)

    def deref(self, p, st):
        if self.check_null:
            o = p.obj
            if isinstance(o, int):
                if o == 0:
                    self.oblige('null dereference', st.cond, False, tag='null')
            else:
                self.oblige('null dereference', st.cond, Not(Eq(o, 0)), tag='null')

    def do_load(self, p, t, st):
        if not isinstance(p, Ptr):
            raise Unsupported('load through non-pointer')
        self.deref(p, st)
        if t[0] == 'i' and t[1] == 8 and p.sbuf is not None:
            return self.lib.char_load(p, st)
        k = self.kind_of(t)
        if k is None:
            t2 = self.mod.resolve(t)
            if t2[0] == 'st':
                r = []
                for i in range(len(t2[2])):
                    o, e = self.mod.field_off(t2, i)
                    r.append(self.do_load(p.plus(o), e, st))
                return tuple(r)
            raise Unsupported('load of ' + str(t))
        v = self.m.load(st.mem, p, k)
        if k == 'ptr':
            if isinstance(v, Ptr):
                v = Ptr(v.obj, v.off, ('ld', p), v.sbuf)
            else:
                raise Unsupported('pointer cell holds non-pointer')
        elif isinstance(v, Ptr):
            raise Unsupported('int load of pointer')
        if t == ('i', 1):
            return Not(Eq(v, 0))
        return v

    def do_store(self, p, t, v, st):
        self.deref(p, st)
        k = self.kind_of(t)
        if k is None:
            t2 = self.mod.resolve(t)
            if t2[0] == 'st':
                for i in range(len(t2[2])):
                    o, e = self.mod.field_off(t2, i)
                    self.do_store(p.plus(o), e, v[i], st)
                return
            if t2[0] == 'arr':
                s = self.mod.sizeof(t2[2])
                for i in range(t2[1]):
                    self.do_store(p.plus(i*s), t2[2], v[i], st)
                return
            raise Unsupported('store of ' + str(t))
        if p.sbuf is not None:
            raise Unsupported('store through a string data pointer')
        if t == ('i', 1):
            v = ite(v, 1, 0)
        if k == 'ptr' and not isinstance(v, Ptr):
            raise Unsupported('store of int as ptr')
        if k != 'ptr' and isinstance(v, Ptr):
            if k == 'i64':
                k = 'ptr'
            else:
                raise Unsupported('store of ptr as int')
        if isinstance(p.obj, int) and GLOB <= p.obj < FRESH:
            self.on_global_store(p, k, v, st)
        st.mem = self.m.store(st.mem, p, k, v)

    def on_global_store(self, p, k, v, st):
        pass

    # ---------------------------------------------------------------- calls
    def do_call(self, I, st):
        callee, args = I.a
        env = st.env
        if callee[0] == 'g':
            name = callee[1]
            if name.startswith('llvm.'):
                return self.intrinsic(name, I, st)
            av = []
            for t, v, at in args:
                x = self.operand(t, v, env)
                if 'byval' in at:
                    n = self.mod.sizeof(at['byval'])
                    np = self.alloc(tag='byval')
                    st.mem = self.m.copy(st.mem, np, n, st.mem, x)
                    x = np
                av.append(x)
            return self.call(name, av, st, I)
        # indirect
        fp = self.operand(('ptr',), callee, env)
        av = [self.operand(t, v, env) for t, v, at in args]
        return self.indirect(fp, av, st, I)

    def indirect(self, fp, av, st, I):
        o = fp.obj
        if is_z(o):
            c = as_const(o)
            if c is not None:
                o = c
        if isinstance(o, int):
            name = self.globname.get(o)
            if name is None:
                if o == 0:
                    self.oblige('call through null function pointer', st.cond, False, tag='null')
                    st.cond = False
                    return None
                raise Unsupported('indirect call to unknown object')
            return self.call(name, av, st, I)
        cls, slot = self.vslot(fp)
        if cls is not None and not self.vptr_known(fp.prov[1]):
            return self.virtual(cls, slot, av, st, I)
        if z3.is_app_of(o, z3.Z3_OP_ITE):
            c, a, b = o.children()
            s1 = State(And(st.cond, c), st.mem, st.env)
            s2 = State(And(st.cond, Not(c)), st.mem, st.env)
            ca, cb = as_const(a), as_const(b)
            res = []
            for s, x in ((s1, ca if ca is not None else a), (s2, cb if cb is not None else b)):
                if s.cond is False:
                    continue
                v = self.indirect(Ptr(x, 0, fp.prov), av, s, I)
                if s.cond is not False:
                    res.append((v, s))
            return self.join_values(res, st)
        # virtual call through an unknown vtable
        if cls is None:
            raise Unsupported('indirect call in ' + (self.stack[-1] if self.stack else ''))
        return self.virtual(cls, slot, av, st, I)

    def join_values(self, res, st):
        if not res:
            st.cond = False
            return None
        env = st.env
        sts = []
        for v, s in res:
            s.env = {'$ret': v}
            sts.append(s)
        ms = self.merge_states(sts)
        st.cond, st.mem = ms.cond, ms.mem
        st.env = env
        if any(s.env.get('$ret') is None for s in sts):
            return None
        return ms.env['$ret']

    def vptr_known(self, A):
        """the vtable pointer has at least one known vtable among its cases"""
        def leaf(o):
            c = as_const(o)
            if c is not None:
                return self.globname.get(c, '').startswith('_ZTV')
            return z3.is_app_of(o, z3.Z3_OP_ITE) and (leaf(o.arg(1)) or leaf(o.arg(2)))
        return leaf(A.obj)

    def vslot(self, fp):
        pr = fp.prov
        if pr and pr[0] == 'ld':
            A = pr[1]
            if A.prov and A.prov[0] == 'gep':
                V, off = A.prov[1], A.prov[2]
            else:
                V, off = A, 0
            cls = self.vclass.get(id(V))
            if cls is not None and isinstance(off, int):
                return cls[0], off
        return None, None

    def vmethods(self, cls, slot):
        """mangled implementations for static class typeid, slot byte offset"""
        out = {}
        for vt, ts in self.mod.vtables().items():
            for off, t in ts:
                if t == cls:
                    fn = self.mod.vtable_slot(vt, off + slot)
                    out[vt] = (off, fn)
        return out

    def is_vt(self, o, offv, vt, off):
        """the vtable pointer (o, offv) is the address point `off` of vtable vt; objects of the initial memory carry an abstract class id"""
        c = as_const(o) if is_z(o) else o
        if c is not None:
            return And(c == self.global_ptr(vt).obj, Eq(offv, off))
        if z3.is_app_of(o, z3.Z3_OP_ITE):
            x, y = (offv.children()[1:] if is_z(offv) and z3.is_app_of(offv, z3.Z3_OP_ITE) and offv.arg(0).eq(o.arg(0)) else (offv, offv))
            return ite(o.arg(0), self.is_vt(o.arg(1), x, vt, off), self.is_vt(o.arg(2), y, vt, off))
        return Eq(self.vtid(o), self.global_ptr(vt).obj * 4096 + off)

    def vtid(self, o):
        return z3.Function('class.of.vptr', z3.IntSort(), z3.IntSort())(o) if o.num_args() != 2 else z3.Function('class.' + o.decl().name(), z3.IntSort(), z3.IntSort(), z3.IntSort())(*o.children())

    def closed_vt(self, o, vts, cond):
        """closed world: an abstract object of the initial memory is of one of the classes of the program"""
        if not is_z(o) or as_const(o) is not None:
            return
        if z3.is_app_of(o, z3.Z3_OP_ITE):
            self.closed_vt(o.arg(1), vts, And(cond, o.arg(0)))
            self.closed_vt(o.arg(2), vts, And(cond, Not(o.arg(0))))
            return
        t = self.vtid(o)
        self.axiom(Implies(cond, Or(*[Eq(t, self.global_ptr(vt).obj * 4096 + off) for vt, off in vts])))

    def virtual(self, cls, slot, av, st, I):
        impls = self.vmethods(cls, slot)
        names = {}
        for vt, (off, fn) in impls.items():
            if fn and fn != '__cxa_pure_virtual':
                names.setdefault(fn, []).append((vt, off))
        meth = set()
        for fn in names:
            d = self.mod.dem.get(fn, fn)
            b = d.split('(')[0]
            meth.add(b.split('::')[-1])
        for mname in meth:
            h = self.vcontracts.get((cls, mname)) or self.vcontracts.get(mname)
            if h is not None:
                self.used_contracts['virtual ' + cls + '::' + mname] = getattr(h, '__doc__', '') or ''
                return h(self, mname, av, st)
        if (cls, slot) in self.vcontracts:
            return self.vcontracts[(cls, slot)](self, None, av, st)
        if len(names) == 1 and len(impls) == 1:
            return self.call(list(names)[0], av, st, I)
        if 1 <= len(names) <= 12:
            vp = self.m.load(st.mem, av[0], 'ptr')
            res = []
            self.closed_vt(vp.obj, [x for v in names.values() for x in v], st.cond)
            for fn, vts in names.items():
                c = Or(*[self.is_vt(vp.obj, vp.off, vt, off) for vt, off in vts])
                s = State(And(st.cond, c), st.mem, st.env)
                if s.cond is False:
                    continue
                v = self.call(fn, av, s, I)
                if s.cond is not False:
                    res.append((v, s))
            self.axiom_note = 'closed world dispatch'
            return self.join_values(res, st)
        raise Unsupported('virtual call %s slot %d (%s)' % (cls, slot, ','.join(sorted(meth))))

    # ---------------------------------------------------------------- intrinsics
    def intrinsic(self, name, I, st):
        args = I.a[1]
        env = st.env
        if name.startswith('llvm.type.test') or name.startswith('llvm.public.type.test'):
            v = self.operand(('ptr',), args[0][1], env)
            self.vclass[id(v)] = (args[1][1][1].strip('!').strip('"'), v)
            return True
        if name.startswith(('llvm.assume', 'llvm.dbg', 'llvm.lifetime', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.invariant', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.prefetch')):
            return None
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            d = self.operand(('ptr',), args[0][1], env)
            s = self.operand(('ptr',), args[1][1], env)
            n = self.operand(args[2][0], args[2][1], env)
            self.memcpy(d, s, n, st)
            return None
        if name.startswith('llvm.memset'):
            d = self.operand(('ptr',), args[0][1], env)
            v = self.operand(args[1][0], args[1][1], env)
            n = self.operand(args[2][0], args[2][1], env)
            if v == 0 and isinstance(n, int):
                self.memzero(d, n, st)
                return None
            raise Unsupported('memset')
        if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'):
            st.cond = False
            return None
        if name.startswith('llvm.fabs'):
            return z3.fpAbs(self.operand(args[0][0], args[0][1], env))
        if name.startswith('llvm.umul.with.overflow') or name.startswith('llvm.uadd.with.overflow'):
            a = self.operand(args[0][0], args[0][1], env); b = self.operand(args[1][0], args[1][1], env)
            n = args[0][0][1]
            if isinstance(a, int) and isinstance(b, int):
                r = a * b if 'umul' in name else a + b
                return (self.ival(r, n), r >= (1 << n))
            if self.mode == 'int' and (isinstance(a, int) or isinstance(b, int)):
                r = zi(a) * zi(b) if 'umul' in name else zi(a) + zi(b)
                return (r, False)
        if name.startswith('llvm.expect'):
            return self.operand(args[0][0], args[0][1], env)
        if name.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
            t = args[0][0]
            a = self.operand(t, args[0][1], env); b = self.operand(t, args[1][1], env)
            pr = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[name.split('.')[1]]
            return ite(self.icmp(pr, t, a, b), a, b)
        if name.startswith('llvm.va_'):
            return None
        raise Unsupported('intrinsic ' + name)

    def memcpy(self, d, s, n, st):
        if s.sbuf is not None or d.sbuf is not None:
            raise Unsupported('memcpy on string data')
        if isinstance(s.obj, int) and GLOB <= s.obj < FRESH and isinstance(n, int):
            # constant aggregate
            nm = self.globname.get(s.obj)
            g = self.mod.glob(nm) if nm else None
            if g and g[2] and g[1] is not None:
                for k in ('i8', 'i16', 'i32', 'i64', 'f64', 'ptr'):
                    cells = []
                    self._cells(g[0], 0, k, cells)
                    for off in cells:
                        v = self.const_load(g[0], g[1], off, k)
                        if v is not None:
                            st.mem = self.m.store(st.mem, d.plus(off), k, v)
                return
        st.mem = self.m.copy(st.mem, d, n, st.mem, s)

    def memzero(self, d, n, st):
        # zero every plausible cell
        for off in range(0, n - n % 8, 8):
            st.mem = self.m.store(st.mem, d.plus(off), 'ptr', NULL)
        for off in range(0, n - n % 8, 8):
            st.mem = self.m.store(st.mem, d.plus(off), 'i64', 0)
        st.mem = Mem('cpz', st.mem, None) if False else st.mem
        self.zeroed = getattr(self, 'zeroed', [])
        st.mem = self.m.copy(st.mem, d, n, self.zero_mem(), Ptr(0, 0))

    def zero_mem(self):
        return Mem('hv', root('zero'), (lambda o, f, k: True, '$zero'))

    # ---------------------------------------------------------------- loops
    def exec_loop(self, f, h, body, lst, rets):
        entry = self.enter_block(f, h, lst)
        if entry is None:
            return []
        rpo = [b for b in f.rpo if b in body]
        lim = None
        d = self.mod.dem.get(f.name, f.name)
        for pat, n in self.unroll:
            if pat.search(d):
                lim = n
        # 1. unrolling (concrete trip count, or requested)
        r = self.try_unroll(f, h, body, rpo, entry, rets, lim)
        if r is not None:
            return r
        return self.cut_loop(f, h, body, rpo, entry, rets)

    def try_unroll(self, f, h, body, rpo, entry, rets, lim):
        nret = len(rets)
        snap = (len(self.obls), len(self.events), len(self.loops), [(undo, save()) for save, undo in self.logs])

        def discard():      # the attempt did not happen
            del self.obls[snap[0]:]
            del self.events[snap[1]:]
            del self.loops[snap[2]:]
            del rets[nret:]
            for undo, x in snap[3]:
                undo(x)
        edges = []
        st = State(entry.cond, entry.mem, dict(entry.env))
        it = 0
        maxit = lim if lim is not None else self.concrete_limit
        while True:
            it += 1
            s0 = State(st.cond, st.mem, dict(st.env))
            r0 = len(rets)
            out = self.exec_region(f, rpo, {h: [(None, s0)]}, h, rets)
            backs = [(src, s) for src, dst, s in out if dst == h]
            exits = [(src, dst, s) for src, dst, s in out if dst != h]
            edges += exits
            if not backs:
                return edges
            if lim is None:
                # concrete only: must definitely continue (no exits this iteration)
                if exits or len(rets) > r0:
                    discard()
                    return None
            if it >= maxit:
                if lim is not None:
                    for src, s in backs:
                        self.oblige('loop in %s runs at most %d times' % (self.mod.dem.get(f.name, f.name), lim), s.cond, False, tag='unwind')
                    return edges
                discard()
                return None
            st = self.enter_block(f, h, backs)

    def loopvars(self, writes):
        return writes

    def cut_loop(self, f, h, body, rpo, entry, rets):
        phis = [i for i in f.blocks[h] if i.op == 'phi']
        tag = 'L%d' % fresh_id()
        fn = self.mod.dem.get(f.name, f.name)
        # phi symbols
        hdr_env = dict(entry.env)
        lv = []
        for i in phis:
            e = entry.env[i.dst]
            v = self.havoc_value(i.ty, e, tag + '.' + i.dst)
            hdr_env[i.dst] = v
            if isinstance(e, Ptr):
                self.m.esc(e.obj)
        W = {}
        memname = None
        # pointers (loop variables and cells at known locations) presumed to stay inside the object they enter the loop with;
        # the presumption is dropped unless every path around the loop re-establishes it
        keepv = {i.dst: entry.env[i.dst].obj for i in phis if isinstance(entry.env[i.dst], Ptr) and entry.env[i.dst].sbuf is None and not (isinstance(entry.env[i.dst].obj, int) and entry.env[i.dst].obj == 0)}
        dropped, nolo = set(), set()

        def havoc_mem(name):
            m = self.make_havoc(entry.mem, W, name)
            kc = {}
            for (kind, ok, fk), (o, off) in W.items():
                if kind == 'ptr' and isinstance(o, int) and isinstance(off, int) and (o, off) not in dropped:
                    e = self.m._load(entry.mem, o, off, 'ptr')
                    if (e.sbuf is not None and not same(e.sbuf[1], e.off)) or (is_z(e.obj) and z3.is_app(e.obj) and e.obj.decl().name().startswith('undef')) or as_const(e.obj) == 0:
                        continue
                    v = self.m._load(m, o, off, 'ptr')
                    lo = bounds(e.off)[0] if is_z(v.off) else None
                    if lo is not None and (o, off) not in nolo:
                        set_range(v.off, lo, None)      # presumed like the object: never before where it started
                    else:
                        lo = None
                    m = self.m.store(m, Ptr(o, off), 'ptr', Ptr(e.obj, v.off, None, e.sbuf and (e.sbuf[0], v.off)))
                    kc[(o, off)] = (e.obj, lo, e.sbuf)
            return m, kc

        def henv():
            d = dict(hdr_env)
            for k, o in keepv.items():
                d[k] = Ptr(o, hdr_env[k].off)
                if is_z(hdr_env[k].off):
                    lo = bounds(entry.env[k].off)[0]
                    if lo is not None and k not in nolo:
                        set_range(hdr_env[k].off, lo, None)
                    else:
                        RANGES.pop(hdr_env[k].off.get_id(), None)
            return d
        for rnd in range(12):
            memname = '%s.m%d' % (tag, rnd)
            hv, keepc = havoc_mem(memname)
            self.suppress += 1
            nr = len(rets)
            save_loops = len(self.loops)
            mark = self.nextobj
            esc0 = set(self.escaped)
            again = False
            try:
                out = self.exec_region(f, rpo, {h: [(None, State(entry.cond, hv, henv()))]}, h, rets)
                for src, dst, s in out:
                    if dst == h:
                        bs = self.enter_block(f, h, [(src, s)])
                        for i in phis:
                            e = bs.env[i.dst]
                            if isinstance(e, Ptr):
                                self.m.esc(e.obj)
                                if i.dst in keepv and not same(e.obj, keepv[i.dst]):
                                    del keepv[i.dst]
                                    RANGES.pop(hdr_env[i.dst].off.get_id(), None) if is_z(hdr_env[i.dst].off) else None
                                    again = True
                                elif i.dst in keepv and i.dst not in nolo:
                                    lo, bl = bounds(entry.env[i.dst].off)[0], bounds(e.off)[0]
                                    if lo is not None and (bl is None or bl < lo):
                                        nolo.add(i.dst)
                                        again = True
                        for (o, off), (ob, lo, sb) in keepc.items():
                            e = self.m._load(bs.mem, o, off, 'ptr')
                            if not same(e.obj, ob) or sb and not (e.sbuf and same(e.sbuf[0], sb[0]) and same(e.sbuf[1], e.off)):
                                if (o, off) not in dropped:
                                    dropped.add((o, off))
                                    again = True
                            elif lo is not None and (o, off) not in nolo:
                                bl = bounds(e.off)[0]
                                if bl is None or bl < lo:
                                    nolo.add((o, off))
                                    again = True
            finally:
                self.suppress -= 1
            bodyrets = rets[nr:]
            del rets[nr:]
            del self.loops[save_loops:]
            # only what the way back to the head of the loop writes; a path that leaves is followed from the head on
            ends = [(s.cond, s.mem) for _, dst, s in out if dst == h]
            newW = self.collect_writes(ends, hv, W, tag, mark)
            # an object that existed before the loop and whose address was first stored by this pass may be what an unknown pointer denotes
            if not again and not newW and not any(x <= mark for x in self.escaped - esc0):
                break
        else:
            raise Unsupported('loop write set does not stabilise in ' + fn)
        hv, keepc = havoc_mem(tag + '.mem')
        hdr = State(entry.cond, hv, henv())
        rec = LoopRec()
        rec.f, rec.h, rec.fn, rec.tag = f, h, fn, tag
        rec.entry = State(entry.cond, entry.mem, dict(entry.env))
        rec.hdr = State(hdr.cond, hdr.mem, dict(hdr.env))
        rec.phis = [(i.dst, i.ty) for i in phis]
        rec.W = dict(W)
        rec.cands = []
        rec.backs = []
        rec.index, rec.end = len(self.loops), None
        rec.suppressed = self.suppress
        rec.stack = list(self.stack)
        self.loops.append(rec)
        # cells with a concrete location are loop variables too
        rec.cells = []
        for (kind, ok, fk), (o, off) in W.items():
            if isinstance(o, int) and isinstance(off, int):
                rec.cells.append((kind, o, off))
        # phi range facts
        for i in phis:
            v = hdr.env[i.dst]
            if self.mode == 'int' and is_z(v) and z3.is_int(v) and i.ty[0] == 'i':
                n = i.ty[1]
                self.axiom(And(v >= -(1 << (n-1)), v < (1 << (n-1))))
        out = self.exec_region(f, rpo, {h: [(None, hdr)]}, h, rets)
        edges = []
        backs = []
        for src, dst, s in out:
            if dst == h:
                bs = self.enter_block(f, h, [(src, s)])
                backs.append(bs)
                for i in phis:
                    e = bs.env[i.dst]
                    hvv = rec.hdr.env[i.dst]
                    if isinstance(e, Ptr):
                        self.m.esc(e.obj)
                        if hvv.sbuf is not None and (e.sbuf is None or not same(e.sbuf[0], hvv.sbuf[0])):
                            raise Unsupported('loop pointer leaves its string in ' + fn)
            else:
                edges.append((src, dst, s))
        rec.backs = backs
        rec.end = len(self.loops)
        if not self.suppress:
            self.make_cands(rec)
        return edges

    def havoc_value(self, ty, e, name):
        if isinstance(e, Ptr):
            if e.sbuf is not None:
                # stays inside the same string object: same object id, fresh index
                ix = self.fresh(name + '.ix')
                return Ptr(e.obj, ix, None, (e.sbuf[0], ix))
            o = e.obj if isinstance(e.obj, int) and e.obj != 0 else None
            fo = self.fresh(name + '.f')
            oo = self.fresh(name + '.o')
            self.m.bound[oo.get_id()] = self.nextobj + 1
            self.axiom(oo <= self.nextobj)
            return Ptr(oo, fo)
        if ty == ('i', 1):
            return self.fresh(name, z3.BoolSort())
        if ty[0] == 'i':
            v = self.fresh(name, z3.IntSort() if self.mode == 'int' else z3.BitVecSort(ty[1]))
            if self.mode == 'int':
                set_range(v, -(1 << (ty[1]-1)), (1 << (ty[1]-1)) - 1)
            return v
        if ty[0] == 'f64':
            return self.fresh(name, z3.Float64())
        if ty[0] == 'f32':
            return self.fresh(name, z3.Float32())
        raise Unsupported('loop phi of type ' + str(ty))

    def make_havoc(self, mem, W, name):
        if not W:
            return mem
        ents = list(W.items())

        def pred(o, f, kind):
            cs = []
            for (k, ok, fk), (wo, wf) in ents:
                if k != kind:
                    continue
                c1 = True if wo is None else self.m.obj_eq(o, wo)
                if wo is None and isinstance(o, int) and o >= FRESH and o not in self.escaped:
                    c1 = False
                c2 = True if wf is None else Eq(f, wf)
                cs.append(And(c1, c2))
            return Or(*cs)
        return self.m.havoc(mem, pred, name)

    def collect_writes(self, ends, stop, W, tag, mark):
        """add to W the cells written between `stop` and the end memories; returns True if W grew"""
        if not self.writes_of([m for _, m in ends], stop, dict(W), tag, mark, None):
            return False
        grew = False
        for c, m in ends:
            grew |= self.writes_of([m], stop, W, tag, mark, c)
        return grew

    def feasible(self, a, b):
        a, b = zb(a), zb(b)
        s = z3.Solver()
        s.set('timeout', 300)
        s.add(a, b)
        return s.check() != z3.unsat

    def writes_of(self, ends, stop, W, tag, mark, cond):
        """with cond: branches of a merge that cannot have been taken when cond holds do not count"""
        grew = False
        seen = set()
        todo = list(ends)
        while todo:
            n = todo.pop()
            while n is not None and n is not stop:
                if n.id in seen:
                    break
                seen.add(n.id)
                if n.t == 'st':
                    o, f, k, v = n.d
                    grew |= self.addw(W, k, o, f, tag, mark)
                    n = n.parent
                elif n.t == 'mg':
                    for c, m in n.d:
                        if cond is None or self.feasible(c, cond):
                            todo.append(m)
                    break
                elif n.t == 'cp':
                    o, f, ln, sm, so, sf = n.d
                    for k in list(RAW) + ['str', 'vsz'] + list(self.kinds.extra):
                        if isinstance(f, int) and isinstance(ln, int) and ln <= 64:
                            for x in range(f, f + ln):
                                if x % RAW.get(k, 8) == 0:
                                    grew |= self.addw(W, k, o, x, tag, mark)
                        else:
                            grew |= self.addw(W, k, o, None, tag, mark)
                    n = n.parent
                elif n.t == 'hv':
                    ents = getattr(n.d[0], 'ents', None)
                    cl = n.d[0].__closure__
                    # nested loop / contract havoc: include its write set
                    ents = None
                    for c in cl or ():
                        if isinstance(c.cell_contents, list):
                            ents = c.cell_contents
                    if ents is None:
                        raise Unsupported('opaque havoc inside loop')
                    for (k, _, _), (wo, wf) in ents:
                        grew |= self.addw(W, k, wo, wf, tag, mark)
                    n = n.parent
                else:
                    break
        return grew

    def depends(self, t, tag, mark):
        """does term depend on values that vary inside this loop (or on objects allocated in it)?"""
        if t is None:
            return False
        if isinstance(t, int):
            return False
        st = [t]
        seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                nm = x.decl().name()
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    if nm.startswith(tag + '.') or '!' in nm and not nm.startswith(('in!', 'L')) and int(nm.rsplit('!', 1)[1]) > int(tag[1:]):
                        return True
                    m = re.match(r'L(\d+)\.', nm)
                    if m and int(m.group(1)) >= int(tag[1:]):
                        return True
                st.extend(x.children())
        return False

    def addw(self, W, k, o, f, tag, mark):
        co = as_const(o) if o is not None else None
        if co is not None:
            o = co
            if o > mark:
                return False      # allocated inside the body: dead at the next iteration unless it escaped (then unknown symbol)
        elif o is not None and self.depends(o, tag, mark):
            o = None
        if f is not None:
            cf = as_const(f)
            if cf is not None:
                f = cf
            elif self.depends(f, tag, mark):
                f = None
        key = (k, 'ALL' if o is None else o if isinstance(o, int) else o.get_id(), 'ANY' if f is None else f if isinstance(f, int) else f.get_id())
        if key in W or (k, key[1], 'ANY') in W or (k, 'ALL', key[2]) in W or (k, 'ALL', 'ANY') in W:
            return False
        W[key] = (o, f)
        if is_z(o):
            self.keep.append(o)
        if is_z(f):
            self.keep.append(f)
        return True

    # candidates ----------------------------------------------------
    def add_cand(self, rec, name, fn, must=False):
        """fn(State) -> Bool evaluated at entry, header and back edges"""
        try:
            c = Cand()
            c.name, c.loop, c.live, c.must = name, rec, True, must
            c.entry = fn(rec.entry)
            c.hdr = fn(rec.hdr)
            c.backs = [(b.cond, fn(b)) for b in rec.backs]
        except Unsupported:
            return
        if c.hdr is True:
            return
        rec.cands.append(c)

    def add_search(self, rec, name, none, found):
        """a search: none(State) as long as nothing was found; found = what holds of a State once it was.  A flag of the loop may say which"""
        self.add_cand(rec, name, none)
        for nm, g in rec.flags:
            def off(t, g=g):
                v = g(t)
                return Not(v) if z3.is_bool(v) else zi(v) == 0 if is_z(v) or isinstance(v, int) and not isinstance(v, bool) else not v
            for pol, p in (('', off), ('not ', lambda t, off=off: Not(off(t)))):
                self.add_cand(rec, '%s unless %s%s' % (name, pol, nm), lambda t, p=p: z3.Implies(p(t), none(t)))
                for i, fn in enumerate(found):
                    self.add_cand(rec, '%s%s: found %d' % (pol, nm, i), lambda t, p=p, fn=fn: z3.Or(p(t), fn(t)))

    def make_cands(self, rec):
        ints = []
        for nm, ty in rec.phis:
            v = rec.hdr.env[nm]
            if ty[0] == 'i' and ty[1] > 1:
                ints.append((nm, lambda s, nm=nm: s.env[nm], ty[1]))
            elif ty[0] == 'ptr':
                ints.append((nm + '.off', lambda s, nm=nm: s.env[nm].off, 64))
                # object stays the same
                self.add_cand(rec, 'same object ' + nm, lambda s, nm=nm: self.m.obj_eq(s.env[nm].obj, rec.entry.env[nm].obj))
        for kind, o, off in rec.cells:
            if kind in ('i32', 'i64', 'vsz'):
                ints.append(('cell%d.%d' % (o, off), lambda s, k=kind, o=o, off=off: self.m._load(s.mem, o, off, k), 64))
            elif kind == 'ptr':
                def getoff(s, o=o, off=off):
                    p = self.m._load(s.mem, o, off, 'ptr')
                    return p.off

                def getobj(s, o=o, off=off):
                    return self.m._load(s.mem, o, off, 'ptr').obj
                ints.append(('pcell%d.%d' % (o, off), getoff, 64))
                eo = getobj(rec.entry)
                self.add_cand(rec, 'same object cell', lambda s, g=getobj, eo=eo: self.m.obj_eq(g(s), eo))
        rec.ints = ints
        rec.flags = [(nm, lambda s, nm=nm: s.env[nm]) for nm, ty in rec.phis if ty[0] == 'i' and ty[1] in (1, 8)]
        rec.flags += [('cell%d.%d' % (o, off), lambda s, o=o, off=off: self.m._load(s.mem, o, off, 'i8')) for kind, o, off in rec.cells if kind == 'i8']
        if self.mode == 'int':
            for nm, g, n in ints:
                try:
                    e = g(rec.entry)
                except Unsupported:
                    continue
                self.add_cand(rec, nm + ' >= entry', lambda s, g=g, e=e: zb_fold(zi(g(s)) >= zi(e)))
                self.add_cand(rec, nm + ' <= entry', lambda s, g=g, e=e: zb_fold(zi(g(s)) <= zi(e)))
                # bounds from exit comparisons
                for b in self.exit_bounds(rec, g):
                    self.add_cand(rec, nm + ' <= bound', lambda s, g=g, b=b: zb_fold(zi(g(s)) <= b))
            for x in range(len(ints)):
                for y in range(len(ints)):
                    if x == y or len(ints) > 8:
                        continue
                    (n1, g1, _), (n2, g2, _) = ints[x], ints[y]
                    for mul in ((1, 4, 8, 32, 24, 64) if n1.endswith('.off') or n1.startswith('pcell') else (1,)):
                        if mul == 1 and x > y:
                            continue
                        try:
                            e = simp(zi(g1(rec.entry)) - mul * zi(g2(rec.entry)))
                        except Unsupported:
                            continue
                        self.add_cand(rec, '%s - %d*%s constant' % (n1, mul, n2), lambda s, g1=g1, g2=g2, mul=mul, e=e: zb_fold(simp(zi(g1(s)) - mul * zi(g2(s)) == e)))
        for gen in self.inv_gens:
            gen(self, rec)

    def exit_bounds(self, rec, g):
        """terms compared with variable g in the loop's path conditions"""
        v = g(rec.hdr)
        if not is_z(v):
            return []
        out = {}
        conds = [b.cond for b in rec.backs]
        st = [c for c in conds if is_z(c)]
        seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and x.num_args() == 2 and z3.is_int(x.arg(0)):
                    a, b = x.children()
                    d = simp(a - b)
                    uv = []
                    if z3.is_int(v):
                        for n in (64, 32):
                            for c in (0 <= v, z3.IntVal(0) <= v, v >= 0):
                                for y in ((1 << n) + v, v + (1 << n)):
                                    uv += [(z3.If(c, v, y), v), (simp(z3.If(c, v, y)), v)]
                    d = simp(z3.substitute(a - b, *uv))
                    # solve for v linearly: d = c*v + rest
                    for sgn in (1, -1):
                        r = simp(d - sgn * v)
                        if not self.contains(r, v):
                            t = simp(-sgn * r)
                            if not self.depends(t, rec.tag, 0):
                                out[t.get_id()] = t
                st.extend(x.children())
        return list(out.values())[:6]

    def contains(self, t, v):
        st = [t]
        seen = set()
        while st:
            x = st.pop()
            if x.eq(v):
                return True
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            st.extend(x.children())
        return False
