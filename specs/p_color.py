"""Colours (property V02): channels, the two integer orders, hex texts, and reading any text."""
from .baselib import *

MODULE = 'base'
CH = {'red': 0, 'green': 8, 'blue': 16, 'alpha': 24}
C = r'kmlbase::Color32::'
M32 = 1 << 32


def setup(b):
    ex = new_exec(b)
    st = start(ex)
    this = ex.input_ptr('this')
    ch = {}
    tot = 0
    for n, sh in CH.items():        # any prior state, as its four channels
        v = z3.Int(n)
        ex.axiom(And(v >= 0, v <= 255))
        set_range(v, 0, 255)
        ch[n] = v
    val = ex.unslice([(sh, 8, ch[n]) for n, sh in CH.items()], 32)
    st.mem = ex.m.store(st.mem, this, 'i32', val)
    return ex, st, this, ch


def u32(ex, v):
    return zi(ex.u(v, 32))


def pack(ch, order):
    return simp(sum((zi(ch[n]) * (1 << sh) for n, sh in order.items()), z3.IntVal(0)))


ABGR = CH
ARGB = {'blue': 0, 'green': 8, 'red': 16, 'alpha': 24}


def stored(ex, st, this):
    return u32(ex, ex.m.load(st.mem, this, 'i32'))


def accessors(b):
    ex, st, this, ch = setup(b)
    und = []
    for n in CH:
        g = b.fn(C + 'get_%s\\(\\) const$' % n)
        s = st.copy() if hasattr(st, 'copy') else type(st)(st.cond, st.mem, dict(st.env))
        r = ex.call(g, [this], s)
        ex.oblige('get_%s() is the %s channel' % (n, n), s.cond, Eq(u32(ex, r), ch[n]))
        und.append(b.m.dem[g])
        f = b.fn(C + 'set_%s\\(' % n)
        s = type(st)(st.cond, st.mem, dict(st.env))
        v = z3.Int('v')
        ex.axiom(And(v >= -128, v <= 127))
        ex.call(f, [this, v], s)
        nw = dict(ch)
        nw[n] = z3.If(v < 0, v + 256, v)
        ex.oblige('set_%s() sets that channel and no other' % n, s.cond, Eq(stored(ex, s, this), pack(nw, ABGR)))
        und.append(b.m.dem[f])
    for n, o in (('abgr', ABGR), ('argb', ARGB)):
        g = b.fn(C + 'get_color_%s\\(\\) const$' % n)
        s = type(st)(st.cond, st.mem, dict(st.env))
        r = ex.call(g, [this], s)
        ex.oblige('get_color_%s() has the channels in that order' % n, s.cond, Eq(u32(ex, r), pack(ch, o)))
        f = b.fn(C + 'set_color_%s\\(unsigned int\\)' % n)
        s = type(st)(st.cond, st.mem, dict(st.env))
        w = {k: z3.Int('w' + k) for k in CH}
        for x in w.values():
            ex.axiom(And(x >= 0, x <= 255))
            set_range(x, 0, 255)
        ex.call(f, [this, ex.unslice([(sh, 8, w[k]) for k, sh in o.items()], 32)], s)
        ex.oblige('set_color_%s() takes the channels in that order' % n, s.cond, Eq(stored(ex, s, this), pack(w, ABGR)))
        und += [b.m.dem[g], b.m.dem[f]]
    a = [z3.Int('a%d' % i) for i in range(4)]
    for x in a:
        ex.axiom(And(x >= -128, x <= 127))
    w = {n: z3.If(x < 0, x + 256, x) for n, x in zip(('alpha', 'blue', 'green', 'red'), a)}
    for rx in ('set_color_abgr\\(unsigned char', 'Color32\\(unsigned char'):
        f = b.fn(C + rx)
        s = type(st)(st.cond, st.mem, dict(st.env))
        ex.call(f, [this] + a, s)
        ex.oblige('%s takes alpha, blue, green, red' % b.m.dem[f].split('::')[-1].split('(')[0], s.cond, Eq(stored(ex, s, this), pack(w, ABGR)))
        und.append(b.m.dem[f])
    v = z3.Int('n')
    ex.axiom(And(v >= -(1 << 31), v < (1 << 31)))
    for rx in ('Color32\\(int\\)', 'Color32\\(unsigned int\\)', 'operator=\\(int\\)', 'operator=\\(unsigned int\\)'):
        f = b.fn(C + rx)
        s = type(st)(st.cond, st.mem, dict(st.env))
        ex.call(f, [this, v], s)
        ex.oblige('%s stores the number as it is' % rx.replace('\\', ''), s.cond, Eq(ex.m.load(s.mem, this, 'i32'), v))
        und.append(b.m.dem[f])
    oth = ex.input_ptr('other')
    ov = ex.m.load(st.mem, oth, 'i32')
    ex.axiom(And(zi(ov) >= -(1 << 31), zi(ov) < (1 << 31)))
    x, y = stored(ex, st, this), u32(ex, ov)
    for op, want in (('==', x == y), ('!=', x != y), ('<', x < y), ('>', x > y)):
        f = b.fn(C + 'operator%s\\(' % op)
        s = type(st)(st.cond, st.mem, dict(st.env))
        r = ex.call(f, [this, oth], s)
        ex.oblige('operator%s compares the numbers' % op, s.cond, zb(r) == want)
        und.append(b.m.dem[f])
    f = b.fn(C + r'Color32\(\)')
    s = type(st)(st.cond, st.mem, dict(st.env))
    ex.call(f, [this], s)
    ex.oblige('the default colour is opaque white', s.cond, Eq(stored(ex, s, this), M32 - 1))
    ex.under_contract = und + [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def hexdigit(x):
    return z3.If(x < 10, x + 48, x + 87)


def texts(b):
    ex, st, this, ch = setup(b)
    und = []
    for n, o in (('abgr', ABGR), ('argb', ARGB)):
        f = b.fn(C + 'to_string_%s' % n)
        s = type(st)(st.cond, st.mem, dict(st.env))
        ret = ex.alloc()
        ex.call(f, [ret, this], s)
        t = ex.m.load(s.mem, ret, 'str')
        ex.oblige('to_string_%s() has 8 characters' % n, s.cond, Eq(ex.lib.str.len(t), 8))
        for k, sh in o.items():
            p = (24 - sh) // 4
            ex.oblige('to_string_%s(): digits %d,%d are the %s channel' % (n, p, p + 1, k), s.cond,
                      And(Eq(ex.lib.str.at(t, p), hexdigit(ch[k] / 16)), Eq(ex.lib.str.at(t, p + 1), hexdigit(ch[k] % 16))))
        und.append(b.m.dem[f])
    ex.under_contract = und
    ex.covers = [st.cond]
    return ex


def sp(c):
    return Or(Eq(c, 32), And(c >= 9, c <= 13))


def hv(c):
    return z3.If(And(c >= 48, c <= 57), c - 48, z3.If(And(c >= 97, c <= 102), c - 87, z3.If(And(c >= 65, c <= 70), c - 55, z3.IntVal(0))))


def parse(b, rx):
    ex, st, this, ch = setup(b)
    S = ex.lib.str
    s = z3.Const('text', ex.S)
    L = S.len(s)
    r = ex.alloc()
    st.mem = ex.m.store(st.mem, r, 'str', s)
    o0 = z3.Int('o0')          # number of leading white-space characters
    j = z3.Int('j')
    allsp = lambda k: z3.ForAll([j], z3.Implies(And(j >= 0, j < k), sp(S.fat(s, j))), patterns=[S.fat(s, j)])
    ex.axiom(And(o0 >= 0, o0 <= L, Not(sp(S.at(s, o0))), allsp(o0)))
    o = z3.If(Eq(S.at(s, o0), 35), o0 + 1, o0)
    H = z3.Function('hexfold', z3.IntSort(), z3.IntSort())
    ex.axiom(H(0) == 0)

    def inst(k):
        ex.axiom(z3.Implies(And(k >= 0), And(H(k) >= 0, H(k) < M32, H(k + 1) == (16 * H(k) + hv(zi(S.at(s, simp(o + k))))) % M32)))

    def gen(ex, rec):
        for nm, g, n in rec.ints:
            v = g(rec.hdr)
            if is_z(v):
                inst(simp(v - o))
                ex.add_cand(rec, nm + ': only white space before it', lambda t, g=g: allsp(zi(g(t))))
                ex.add_cand(rec, nm + ' within the text', lambda t, g=g: And(zi(g(t)) >= 0, zi(g(t)) <= L))
            for nm2, g2, n2 in rec.ints:
                if nm2 != nm:
                    ex.add_cand(rec, '%s is the value of the digits up to %s' % (nm, nm2), lambda t, g=g, g2=g2: And(zi(g2(t)) >= o, Eq(u32(ex, g(t)), H(simp(zi(g2(t)) - o)))))
    ex.inv_gens.append(gen)
    f = b.fn(rx)
    ex.call(f, [this, r], st)
    n = z3.If(L - o < 8, L - o, z3.IntVal(8))
    ex.axiom(H(n) >= 0)
    ex.oblige('the colour is the number of the first 8 hex digits after white space and one #', st.cond, Eq(stored(ex, st, this), H(n)))
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def units(b):
    return [Unit('channels', lambda: accessors(b)), Unit('texts', lambda: texts(b)),
            Unit('parse', lambda: parse(b, C + r'set_color_abgr\(string const&\)'), tmo=200), Unit('construct from text', lambda: parse(b, C + r'Color32\(string const&\)'), tmo=200)]
