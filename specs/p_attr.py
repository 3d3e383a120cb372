"""Attributes (property V07): names are unique, and every operation changes those it is about and no other."""
from .baselib import *
from .p_string import H
from dv.lib import Ptr

MODULE = 'eng'
IN = z3.IntSort()
A = r'kmlbase::Attributes::'


class HA(H):
    def __init__(h, b):
        H.__init__(h, b)
        h.key = z3.Const('any_name', h.ex.S)          # the arbitrary name everything is stated for
        h.off = b.off('kmlbase::Attributes', 'attributes_map_')
        h.this = h.ex.new_input_obj()
        h.mp = h.this.plus(h.off)
        h.st0 = h.snap()

    def snap(h):
        st = h.st
        return type(st)(st.cond, st.mem, dict(st.env))

    def has(h, mp, st=None, k=None):
        return z3.Select(h.ex.m.load((st or h.st).mem, mp, 'mhas'), h.key if k is None else k)

    def val(h, mp, st=None, k=None):
        return h.get(h.ex.lib.mslot(mp, h.key if k is None else k).plus(32), st or h.st)

    def same(h, name, cond=True, mp=None, k=None):
        """the arbitrary name is as it was before"""
        mp = mp or h.mp
        st = h.st
        h.ex.oblige(name, And(st.cond, cond), And(h.has(mp, k=k) == h.has(mp, h.st0, k), z3.Implies(h.has(mp, h.st0, k), h.val(mp, k=k) == h.val(mp, h.st0, k))))

    def seq(h, mp, n):
        ex = h.ex
        ex.axiom(And(n >= 0, n < 1 << 40))
        w = ex.lib.seq_view(mp, n)
        node = lambda i: Ptr(w.nodes.obj, ex.mul_c(i, ex.lib.STRIDE))
        return (lambda i: h.get(node(i), h.st0)), (lambda i: h.get(node(i).plus(32), h.st0))

    def fin(h, *covers):
        h.ex.covers = list(covers) or [h.st.cond]
        return h.ex


def ints(rec):
    out = []
    for nm, g, w in rec.ints:
        try:
            v = g(rec.hdr)
        except Unsupported:
            continue
        if is_z(v) and not z3.is_fp(v):
            out.append((nm, g, zi(v)))
    return out


def find(b):
    h = HA(b)
    ex, st = h.ex, h.st
    k, pk = h.string('name')
    out = ex.alloc(32)
    old, p = h.string('old')
    h.st0 = h.snap()
    was = h.has(h.mp, h.st0, k)
    for fn, nm in ((A + r'FindValue\(', 'FindValue'), (r'bool ' + A + r'GetValue<string>\(', 'GetValue')):
        r = h.call(fn, [h.this, pk, p])
        ex.oblige(nm + ': there is one of that name', st.cond, zb(r) == was)
        ex.oblige(nm + ': its value is handed out, or nothing', st.cond, h.get(p) == z3.If(was, h.val(h.mp, h.st0, k), old))
        h.same(nm + ': all stay')
        st.mem = ex.m.store(st.mem, p, 'str', old)
        r = h.call(fn, [h.this, pk, NULL])
        ex.oblige(nm + ': asked for nothing but that', st.cond, zb(r) == was)
    r = h.call(r'bool ' + A + r'CutValue<string>\(', [h.this, pk, p])
    ex.oblige('CutValue: there was one of that name', st.cond, zb(r) == was)
    ex.oblige('CutValue: its value is handed out, or nothing', st.cond, h.get(p) == z3.If(was, h.val(h.mp, h.st0, k), old))
    ex.oblige('CutValue: it is gone', st.cond, Not(h.has(h.mp, k=k)))
    h.same('CutValue: the others stay', h.key != k)
    return h.fin()


def setv(b):
    h = HA(b)
    ex, st = h.ex, h.st
    k, pk = h.string('name')
    v, pv = h.string('value')
    h.call(r'void ' + A + r'SetValue<string>\(', [h.this, pk, pv])
    ex.oblige('SetValue: it has this value', st.cond, And(h.has(h.mp, k=k), h.val(h.mp, k=k) == v))
    h.same('SetValue: the others stay', h.key != k)
    return h.fin()


def clone(b):
    h = HA(b)
    ex, st = h.ex, h.st
    r = h.call(A + r'Clone\(', [h.this])
    mp = r.plus(h.off)
    ex.oblige('a copy has the same attributes', st.cond, And(h.has(mp) == h.has(h.mp), z3.Implies(h.has(h.mp), h.val(mp) == h.val(h.mp))))
    ex.oblige('and is another object', st.cond, And(Not(Eq(r.obj, h.this.obj)), Not(Eq(r.obj, 0))))
    h.same('all stay')
    return h.fin()


def merge(b):
    h = HA(b)
    ex, st = h.ex, h.st
    oth = ex.new_input_obj()
    n = z3.Int('n')
    key, val = h.seq(oth.plus(h.off), n)
    OH, OV = z3.Function('has', IN, z3.BoolSort()), z3.Function('val', IN, ex.S)
    ex.axiom(And(OH(0) == h.has(h.mp), z3.Implies(OH(0), OV(0) == h.val(h.mp))))
    last = z3.Int('last')          # where the name is in the other one, or -1

    def fact(i):
        inr = And(i >= 0, i < n)
        ex.axiom(z3.Implies(inr, And(OH(i + 1) == Or(OH(i), key(i) == h.key), OV(i + 1) == z3.If(key(i) == h.key, val(i), OV(i)))))

    def gen(ex, rec):
        for nm, g, v in ints(rec):
            fact(v)
            ex.add_cand(rec, nm + ' within the map', lambda t, g=g: And(zi(g(t)) >= 0, zi(g(t)) <= n))
            ex.add_cand(rec, 'names before %s' % nm, lambda t, g=g: And(h.has(h.mp, t) == OH(zi(g(t))), z3.Implies(OH(zi(g(t))), h.val(h.mp, t) == OV(zi(g(t))))))
    ex.inv_gens.append(gen)
    h.call(A + r'MergeAttributes\(', [h.this, oth])
    ex.oblige('each attribute of the other one is set, the rest stays', st.cond, And(h.has(h.mp) == OH(n), z3.Implies(OH(n), h.val(h.mp) == OV(n))))
    return h.fin()


def pairs(b):
    """Create from a vector of names and values"""
    h = HA(b)
    ex, st = h.ex, h.st
    vec = ex.alloc(24)
    n = z3.Int('n')
    ex.axiom(And(n >= 0, n < 1 << 40))
    ex.lib.set_vsize(vec, n, st)
    item = lambda i: h.get(ex.lib.velem(vec, i, 32), h.st0)
    h.st0 = h.snap()
    OH, OV = z3.Function('has', IN, z3.BoolSort()), z3.Function('val', IN, ex.S)
    ex.axiom(Not(OH(0)))

    def fact(i):        # i: pairs handled
        k = item(simp(2 * i))
        ex.axiom(z3.Implies(And(i >= 0, 2 * i + 1 < n), And(OH(i + 1) == Or(OH(i), k == h.key), OV(i + 1) == z3.If(k == h.key, item(simp(2 * i + 1)), OV(i)))))
    got = []

    def gen(ex, rec):
        for nm, g, v in ints(rec):
            for d, half in ((2, v / 2), (1, v)):
                fact(half)
                ex.add_cand(rec, '%s within the list (%d)' % (nm, d), lambda t, g=g, d=d: And(zi(g(t)) >= 0, zi(g(t)) * (2 // d) <= n, zi(g(t)) % d == 0))
                for kind, o, off in rec.cells:
                    if kind == 'mhas':
                        mp = Ptr(o, off)
                        ex.add_cand(rec, 'names before %s (%d)' % (nm, d), lambda t, g=g, d=d, mp=mp: And(h.has(mp, t) == OH(zi(g(t)) / d), z3.Implies(OH(zi(g(t)) / d), h.val(mp, t) == OV(zi(g(t)) / d))))
    ex.inv_gens.append(gen)
    r = h.call(A + r'Create\(std::vector', [vec])
    mp = r.plus(h.off)
    ex.oblige('there is an object', st.cond, Not(Eq(r.obj, 0)))
    ex.oblige('each name has the last value given for it, and there are no others', st.cond, And(h.has(mp) == OH(n / 2), z3.Implies(OH(n / 2), h.val(mp) == OV(n / 2))))
    return h.fin()


def names(b):
    """GetAttrNames, FindKey"""
    h = HA(b)
    ex, st = h.ex, h.st
    n, n0, j, i0 = [z3.Int(x) for x in ('n', 'n0', 'j', 'i0')]
    key, val = h.seq(h.mp, n)
    vec = ex.alloc(24)
    ex.axiom(And(n0 >= 0, n0 < 1 << 40, j >= 0, j < n, i0 >= 0, i0 < n0))
    ex.lib.set_vsize(vec, n0, st)
    at = lambda t, i: h.get(ex.lib.velem(vec, i, 32), t)
    old = at(st, i0)

    def gen(ex, rec):
        for nm, g, v in ints(rec):
            ex.add_cand(rec, nm + ' within the map', lambda t, g=g: And(zi(g(t)) >= 0, zi(g(t)) <= n))
            ex.add_cand(rec, 'one per attribute before ' + nm, lambda t, g=g: zi(ex.lib.vsize(vec, t)) == n0 + zi(g(t)))
            ex.add_cand(rec, 'name j, if before ' + nm, lambda t, g=g: z3.Implies(j < zi(g(t)), at(t, simp(n0 + j)) == key(j)))
        ex.add_cand(rec, 'the earlier ones stay', lambda t: at(t, i0) == old)
    ex.inv_gens.append(gen)
    h.call(A + r'GetAttrNames\(', [h.this, vec])
    ex.oblige('one name per attribute', st.cond, zi(ex.lib.vsize(vec, st)) == n0 + n)
    ex.oblige('in order', st.cond, at(st, simp(n0 + j)) == key(j))
    ex.oblige('after what was there', st.cond, at(st, i0) == old)
    return h.fin()


def findkey(b):
    h = HA(b)
    ex, st = h.ex, h.st
    n, f = z3.Int('n'), z3.Int('first')
    key, val = h.seq(h.mp, n)
    v, pv = h.string('value')
    old, p = h.string('old')
    ex.axiom(And(f >= 0, f <= n, z3.Implies(f < n, val(f) == v)))

    def gen(ex, rec):
        for nm, g, i in ints(rec):
            ex.axiom(z3.Implies(And(i >= 0, i < f), val(i) != v))
            ex.add_cand(rec, nm + ': not found so far', lambda t, g=g: And(zi(g(t)) >= 0, zi(g(t)) <= f))
    ex.inv_gens.append(gen)
    r = h.call(A + r'FindKey\(', [h.this, pv, p])
    ex.oblige('whether some attribute has that value', st.cond, zb(r) == (f < n))
    ex.oblige('the name of the first one is handed out', st.cond, h.get(p) == z3.If(f < n, key(f), old))
    return h.fin(And(st.cond, r), And(st.cond, Not(r)))


def prefix(b):
    """SplitByPrefix"""
    h = HA(b)
    ex, st, S = h.ex, h.st, h.S
    n, e = z3.Int('n'), z3.Int('e')
    key, val = h.seq(h.mp, n)
    pre, pp = h.string('prefix')
    h.st0 = h.snap()
    K, N = h.key, z3.Const('any_suffix', ex.S)
    PC = S.cat(pre, S.lit(b':'))
    m = zi(S.len(PC))
    F = S.cat(pre, S.cat(S.lit(b':'), N))
    POS, CNT, SEQ = z3.Function('pos', ex.S, IN), z3.Function('count', IN, IN), z3.Function('seq', IN, IN)
    isp = lambda k: S.sub(k, 0, m) == PC
    ex.axiom(CNT(0) == 0)

    def fact(i):
        k = key(i)
        inr = And(i >= 0, i < n)
        ex.axiom(z3.Implies(inr, And(POS(k) == i, h.has(h.mp, h.st0, k), (And(isp(k), S.sub(k, m, -1) == N)) == (k == F), CNT(i + 1) == CNT(i) + z3.If(isp(k), 1, 0),
                                     CNT(i) >= 0, CNT(i) <= i, z3.Implies(isp(k), SEQ(CNT(i)) == i), CNT(i + 1) <= CNT(n))))
        ex.axiom(z3.Implies(And(inr, isp(k)), CNT(n) >= CNT(i) + 1))
    for k in (K, F):
        i = POS(k)
        ex.axiom(h.has(h.mp, h.st0, k) == And(i >= 0, i < n, key(i) == k))
        ex.axiom(z3.Implies(h.has(h.mp, h.st0, k), h.val(h.mp, h.st0, k) == val(i)))
        fact(i)
    S.sub(F, 0, m)
    S.sub(F, m, -1)
    NONE = z3.K(ex.S, z3.BoolVal(False))

    def gen(ex, rec):
        l = ints(rec)
        maps = [Ptr(o, off) for kind, o, off in rec.cells if kind == 'mhas']
        vecs = [Ptr(o, off) for kind, o, off in rec.cells if kind == 'vsz'] + env.get('vecs', [])
        env.setdefault('vecs', []).extend(vecs)
        at = lambda t, v, i: h.get(ex.lib.velem(v, i, 32), t)
        for nm, g, v in l:
            fact(v)
            fact(SEQ(v))
            ex.axiom(z3.Implies(And(v >= 0, v < CNT(n)), And(SEQ(v) >= 0, SEQ(v) < n, CNT(SEQ(v)) == v, isp(key(SEQ(v))))))
            q = lambda t, g=g: zi(g(t))
            ex.add_cand(rec, nm + ' within the map', lambda t, q=q: And(q(t) >= 0, q(t) <= n))
            ex.add_cand(rec, nm + ' within those erased', lambda t, q=q: And(q(t) >= 0, q(t) <= CNT(n)))
            for mp in maps:
                ex.add_cand(rec, 'split before ' + nm, lambda t, q=q, mp=mp: h.has(mp, t, N) == And(h.has(h.mp, h.st0, F), POS(F) < q(t)))
                ex.add_cand(rec, 'value split before ' + nm, lambda t, q=q, mp=mp: z3.Implies(And(h.has(h.mp, h.st0, F), POS(F) < q(t)), h.val(mp, t, N) == h.val(h.mp, h.st0, F)))
                ex.add_cand(rec, 'none split before ' + nm, lambda t, q=q, mp=mp: (ex.m.load(t.mem, mp, 'mhas') == NONE) == (CNT(q(t)) == 0))
                ex.add_cand(rec, 'erased before ' + nm, lambda t, q=q, mp=mp: h.has(mp, t) == And(h.has(h.mp, h.st0), Not(And(isp(K), CNT(POS(K)) < q(t)))))
            for vec in vecs:
                ex.add_cand(rec, 'to be erased before ' + nm, lambda t, q=q, vec=vec: zi(ex.lib.vsize(vec, t)) == CNT(q(t)))
                ex.add_cand(rec, 'to be erased', lambda t, vec=vec: z3.ForAll([e], z3.Implies(And(e >= 0, e < zi(ex.lib.vsize(vec, t))), at(t, vec, e) == key(SEQ(e)))))
                ex.add_cand(rec, 'to be erased: all', lambda t, vec=vec: zi(ex.lib.vsize(vec, t)) == CNT(n))
    env = {}
    ex.inv_gens.append(gen)
    r = h.call(A + r'SplitByPrefix\(', [h.this, pp])
    some = CNT(n) > 0
    mp = r.plus(h.off)
    ex.oblige('there is an object if some name has the prefix', st.cond, zb(Not(Eq(r.obj, 0))) == some)
    ex.oblige('those with the prefix are gone', And(st.cond, isp(K)), Not(h.has(h.mp)))
    h.same('the others stay', Not(isp(K)))
    ex.oblige('the new one has those names without the prefix', And(st.cond, some), h.has(mp, k=N) == h.has(h.mp, h.st0, F))
    ex.oblige('with their values', And(st.cond, some, h.has(h.mp, h.st0, F)), h.val(mp, k=N) == h.val(h.mp, h.st0, F))
    return h.fin(And(st.cond, some), And(st.cond, Not(some)))


def units(b):
    return [Unit('find, get, cut', lambda: find(b)), Unit('SetValue', lambda: setv(b)), Unit('Clone', lambda: clone(b)), Unit('MergeAttributes', lambda: merge(b)), Unit('Create', lambda: pairs(b)),
            Unit('GetAttrNames', lambda: names(b)), Unit('FindKey', lambda: findkey(b)), Unit('SplitByPrefix', lambda: prefix(b))]
