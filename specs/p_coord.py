"""Coordinates (property V01): every text is read inside its bounds and to its end, and well-formed tuples one for one."""
from .baselib import *
from dv.lib import Ptr

MODULE = 'eng'
IN = z3.IntSort()


def sp(c):
    return Or(Eq(c, 32), And(c >= 9, c <= 13))


def dig(c):
    return And(c >= 48, c <= 57)


class Text:
    """a text, its characters, and what it means for a position to start or end a number"""
    def __init__(h, ex):
        h.ex, h.S = ex, ex.lib.str
        h.s = z3.Const('text', ex.S)
        h.L = h.S.len(h.s)
        h.VAL = z3.Function('number', ex.S, z3.Float64())
        h.j = z3.Int('j')

    def isnum(h, t):
        S = h.S
        at = lambda i: zi(S.at(t, i))
        first = z3.If(at(0) == 45, z3.IntVal(1), z3.IntVal(0))
        second = first + z3.If(at(first) == 46, z3.IntVal(1), z3.IntVal(0))
        return And(S.len(t) > second, dig(at(second)))

    def sd(h, ex, nn, args, st):
        '''StringToDouble (verified by its own unit)'''
        t = ex.lib.gets(args[0], st)
        g = h.isnum(t)
        st.mem = ex.m.merge([(g, ex.m.store(st.mem, args[1], 'f64', h.VAL(t))), (Not(g), st.mem)])
        return g

    def at(h, i):
        return zi(h.S.at(h.s, i))

    def ns(h, i):
        """a number starts at i"""
        c = h.at(i)
        return And(i < h.L, Or(c == 45, dig(c), And(c == 46, dig(h.at(simp(i + 1))))))

    def end(h, i):
        """a coordinate ends at i"""
        return Or(i >= h.L, h.at(i) == 44, sp(h.at(i)), h.at(i) == 0)

    def all(h, a, b, p):
        """p holds for every position of [a, b)"""
        j = h.j
        return z3.ForAll([j], z3.Implies(And(j >= a, j < b), p(j)), patterns=[h.S.fat(h.s, j)])

    def number(h, a, b):
        """[a, b) is a number: it is followed by white space, a comma or the end"""
        first = simp(a + z3.If(h.at(a) == 45, 1, 0))
        second = simp(first + z3.If(h.at(first) == 46, 1, 0))
        return And(a < b, b <= h.L, h.ns(a), dig(h.at(second)), second < b, h.end(b), h.all(a, b, lambda j: Not(Or(h.at(j) == 44, sp(h.at(j)), h.at(j) == 0))))

    def spaces(h, a, b):
        return And(a <= b, b <= h.L, h.all(a, b, lambda j: sp(h.at(j))))


def gen_for(h, marks):
    """invariant candidates for a position: bounds by the given positions"""
    def gen(ex, rec):
        for nm, g, n in rec.ints:
            for k, m in marks.items():
                ex.add_cand(rec, '%s <= %s' % (nm, k), lambda t, g=g, m=m: zi(g(t)) <= m)
                ex.add_cand(rec, '%s >= %s' % (nm, k), lambda t, g=g, m=m: zi(g(t)) >= m)
    return gen


def tuple_(b, three):
    """ParseVec3 on a text with a well-formed tuple at the given place"""
    ex = new_exec(b)
    st = start(ex)
    h = Text(ex)
    o = ex.alloc(tag='cstr')
    mk = {}
    for n in ('p', 'a', 'b', 'c1', 'c', 'd', 'e1', 'e', 'f', 'n'):
        mk[n] = z3.Int(n)
    p, a, b1, c1, c, d, e1, e, f, n = mk.values()
    ex.axiom(And(p >= 0, h.spaces(p, a), h.number(a, b1), h.spaces(b1, c1), h.at(c1) == 44, c1 < h.L, h.spaces(simp(c1 + 1), c), h.number(c, d),
                 And(h.spaces(d, e1), e1 < h.L, h.at(e1) == 44, h.spaces(simp(e1 + 1), e), h.number(e, f)) if three else f == d,
                 h.spaces(f, n), Or(n == h.L, And(n > f, h.ns(n)))))
    if not three:
        ex.dead_loops = True       # nothing is read as an altitude
        for k in ('e1', 'e', 'f'):
            del mk[k]
    ex.inv_gens.append(gen_for(h, mk))
    vec, nx = ex.alloc(), ex.alloc()
    off = lambda m: vec.plus(b.off('kmlbase::Vec3', m))
    alt0, has0 = z3.Const('alt0', z3.Float64()), z3.Int('has0')
    ex.axiom(Or(has0 == 0, has0 == 1))
    st.mem = ex.m.store(st.mem, off('alt_'), 'f64', alt0)
    st.mem = ex.m.store(st.mem, off('has_altitude_'), 'i8', has0)

    ex.contracts.append((RX(r'^kmlbase::StringToDouble\(string const&'), h.sd))
    fn = b.fn(r'kmldom::Coordinates::ParseVec3\(')
    r = ex.call(fn, [Ptr(o.obj, p, None, (h.s, p)), nx, vec], st)
    ex.oblige('a tuple is found', st.cond, zb(r))
    num = lambda x, y: h.VAL(h.S.sub(h.s, x, simp(y - x)))
    ld = lambda m, t: ex.m.load(st.mem, off(m), t)
    ex.oblige('its first number is the longitude', st.cond, ld('lon_', 'f64') == num(a, b1))
    ex.oblige('its second number is the latitude', st.cond, ld('lat_', 'f64') == num(c, d))
    if three:
        ex.oblige('its third number is the altitude', st.cond, And(ld('alt_', 'f64') == num(e, f), Eq(ld('has_altitude_', 'i8'), 1)))
    else:
        ex.oblige('without one the altitude stays', st.cond, And(ld('alt_', 'f64') == alt0, Eq(ld('has_altitude_', 'i8'), has0)))
    q = ex.m.load(st.mem, nx, 'ptr')
    ex.oblige('reading goes on at the next tuple', st.cond, And(Eq(q.obj, o.obj), Eq(q.off, n)))
    ex.under_contract = [b.m.dem[fn]]
    ex.covers = [st.cond]
    return ex


def anytext(b):
    """ParseVec3 on any text"""
    ex = new_exec(b)
    st = start(ex)
    h = Text(ex)
    o = ex.alloc(tag='cstr')
    p = z3.Int('p')
    ex.axiom(And(p >= 0, p <= h.L))
    vec, nx = ex.alloc(), ex.alloc()

    def gen(ex, rec):
        for nm, g, n in rec.ints:
            ex.add_cand(rec, nm + ' >= start', lambda t, g=g: zi(g(t)) >= p)
            ex.add_cand(rec, nm + ' <= length', lambda t, g=g: zi(g(t)) <= h.L)
            e = g(rec.entry)
            ex.add_cand(rec, nm + ' goes on', lambda t, g=g, e=e: zi(g(t)) >= zi(e))
    ex.inv_gens.append(gen)
    ex.contracts.append((RX(r'^kmlbase::StringToDouble\(string const&'), h.sd))
    fn = b.fn(r'kmldom::Coordinates::ParseVec3\(')
    r = ex.call(fn, [Ptr(o.obj, p, None, (h.s, p)), nx, vec], st)
    q = ex.m.load(st.mem, nx, 'ptr')
    ex.oblige('where reading goes on is in the text', st.cond, And(Eq(q.obj, o.obj), zi(q.off) >= p, zi(q.off) <= h.L))
    ex.oblige('reading a tuple gets ahead', And(st.cond, r), zi(q.off) > p)
    ex.oblige('without a tuple the text is over', And(st.cond, Not(r)), Or(h.at(q.off) == 0, zi(q.off) == h.L))
    ex.under_contract = [b.m.dem[fn]]
    ex.covers = [And(st.cond, r), And(st.cond, Not(r))]
    return ex


def parse(b):
    """Parse: the tuples of the text, in order, are appended"""
    ex = new_exec(b)
    st = start(ex)
    h = Text(ex)
    this, txt = ex.input_ptr('this'), ex.alloc()
    st.mem = ex.m.store(st.mem, txt, 'str', h.s)
    vec = this.plus(b.off('kmldom::Coordinates', 'coordinates_array_'))
    n0 = zi(ex.lib.vsize(vec, st))
    T = z3.Function('at', IN, IN)                 # where reading starts: T(0) = 0, and how it goes on, until the end
    k, j, i0 = z3.Int('tuples'), z3.Int('j'), z3.Int('i0')
    LON, LAT, ALT = [z3.Function(x, IN, z3.Float64()) for x in ('lon', 'lat', 'alt')]
    HAS = z3.Function('has', IN, z3.BoolSort())
    ex.axiom(And(n0 >= 0, n0 < 1 << 40, k >= 0, k < 1 << 40, j >= 0, j < k, i0 >= 0, i0 < n0, T(0) == 0))
    over = T(simp(k + 1))
    ex.axiom(And(T(k) >= 0, T(k) <= h.L, over >= T(k), over <= h.L, Or(over == h.L, h.at(over) == 0), h.at(over) == h.at(over)))
    cnt = ex.alloc()
    st.mem = ex.m.store(st.mem, cnt, 'i64', 0)
    count = lambda s: zi(ex.m.load(s.mem, cnt, 'i64'))

    def fact(i):
        ex.axiom(z3.Implies(And(i >= 0, i < k), And(T(i) >= 0, T(i) < h.L, h.at(T(i)) != 0)))

    VO = lambda m: b.off('kmlbase::Vec3', m)

    def pv(ex, nn, a, st):
        '''ParseVec3: tells the tuple there, and where to go on (verified by the other units); after the last one there is nothing but white space'''
        c = count(st)
        fact(c)
        ex.oblige('each tuple is read where the one before ended', st.cond, And(c <= k, Eq(a[0].off, T(c))))
        m0 = st.mem
        for m, f in (('lon_', LON), ('lat_', LAT)):
            st.mem = ex.m.store(st.mem, a[2].plus(VO(m)), 'f64', f(c))
        m2 = ex.m.store(st.mem, a[2].plus(VO('alt_')), 'f64', ALT(c))
        m2 = ex.m.store(m2, a[2].plus(VO('has_altitude_')), 'i8', 1)
        m2 = ex.m.merge([(HAS(c), m2), (Not(HAS(c)), st.mem)])
        st.mem = ex.m.merge([(c < k, m2), (Not(c < k), m0)])
        c1 = simp(c + 1)
        st.mem = ex.m.store(st.mem, cnt, 'i64', c1)
        off = T(c1)
        ex.axiom(z3.Implies(c + 1 < k, And(off >= 0, off < h.L, h.at(off) != 0)))
        p = a[0]
        st.mem = ex.m.store(st.mem, a[1], 'ptr', Ptr(p.obj, off, None, (h.s, off)))
        return c < k
    ex.contracts.append((RX(r'^kmldom::Coordinates::ParseVec3\('), pv))
    rd = lambda s, i, m, t: ex.m.load(s.mem, ex.lib.velem(vec, i, 32).plus(VO(m)), t)
    old = {m: rd(st, i0, m, t) for m, t in (('lon_', 'f64'), ('lat_', 'f64'), ('alt_', 'f64'), ('has_altitude_', 'i8'))}

    def same(s):
        return And(*[Eq(rd(s, i0, m, 'i8' if m[0] == 'h' else 'f64'), v) for m, v in old.items()])

    def is_(s, i):
        x = simp(n0 + i)
        return And(Eq(rd(s, x, 'lon_', 'f64'), LON(i)), Eq(rd(s, x, 'lat_', 'f64'), LAT(i)), z3.If(HAS(i), zb(And(Eq(rd(s, x, 'alt_', 'f64'), ALT(i)), Eq(rd(s, x, 'has_altitude_', 'i8'), 1))),
                   zb(Eq(rd(s, x, 'has_altitude_', 'i8'), 0))))

    def gen(ex, rec):
        ex.add_cand(rec, 'one element per tuple', lambda s: And(count(s) >= 0, count(s) <= k + 1, zi(ex.lib.vsize(vec, s)) == n0 + z3.If(count(s) <= k, count(s), k)))
        ex.add_cand(rec, 'the earlier ones stay', same)
        ex.add_cand(rec, 'tuple j is element j', lambda s: z3.Implies(j < count(s), zb(is_(s, j))))
        fact(count(rec.hdr))
        for nm, g, n in rec.ints:
            ex.add_cand(rec, nm + ' at the next tuple', lambda s, g=g: zi(g(s)) == T(count(s)))
    ex.inv_gens.append(gen)
    f = b.fn(r'kmldom::Coordinates::Parse\(')
    ex.call(f, [this, txt], st)
    ex.oblige('one element per tuple', st.cond, zi(ex.lib.vsize(vec, st)) == n0 + k)
    ex.oblige('tuple j is element j', st.cond, is_(st, j))
    ex.oblige('the earlier ones stay', st.cond, same(st))
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def number(b):
    """StringToDouble"""
    ex = new_exec(b)
    st = start(ex)
    h = Text(ex)
    txt, out = ex.alloc(), ex.alloc()
    st.mem = ex.m.store(st.mem, txt, 'str', h.s)
    old = ex.m.load(st.mem, out, 'f64')
    reads = z3.Function('reads_double', ex.S, z3.BoolSort())
    g = h.isnum(h.s)
    ex.axiom(z3.Implies(g, reads(h.s)))
    f = b.fn(r'kmlbase::StringToDouble\(string const&')
    r = ex.call(f, [txt, out], st)
    ex.oblige('a number is told from other texts', st.cond, zb(r) == g)
    ex.oblige('its value is stored, nothing otherwise', st.cond, Eq(ex.m.load(st.mem, out, 'f64'), z3.If(g, z3.Function('read_double', ex.S, z3.Float64())(h.s), old)))
    ex.under_contract = [b.m.dem[f], b.m.dem[b.fn(r'kmlbase::IsDecimalDoubleString')]]
    ex.covers = [And(st.cond, r), And(st.cond, Not(r))]
    return ex


def units(b):
    return [Unit('a tuple of two', lambda: tuple_(b, False), tmo=300), Unit('a tuple of three', lambda: tuple_(b, True), tmo=300), Unit('ParseVec3 of any text', lambda: anytext(b)),
            Unit('Coordinates::Parse', lambda: parse(b)), Unit('StringToDouble', lambda: number(b))]
