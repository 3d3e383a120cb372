"""Texts (property V06): splitting, replacing, comparing and reading them."""
from .baselib import *
from dv.lib import Ptr

MODULE = 'base'
IN = z3.IntSort()


def sp(c):
    return Or(Eq(c, 32), And(c >= 9, c <= 13))


class H:
    def __init__(h, b):
        h.b, h.ex = b, new_exec(b)
        h.st = start(h.ex)
        h.S = h.ex.lib.str

    def string(h, name):
        s = z3.Const(name, h.ex.S)
        p = h.ex.alloc(32)
        h.st.mem = h.ex.m.store(h.st.mem, p, 'str', s)
        return s, p

    def call(h, rx, args):
        f = h.b.fn(rx)
        r = h.ex.call(f, args, h.st)
        h.ex.under_contract = getattr(h.ex, 'under_contract', []) + [h.b.m.dem[f]]
        return r

    def get(h, p, st=None):
        return h.ex.m.load((st or h.st).mem, p, 'str')

    def part(h, base, p, x, ln):
        """a part of the rest of base from p on is a part of base"""
        S = h.S
        rest = S.sub(base, p, -1)
        h.ex.axiom(z3.Implies(And(p >= 0, x >= 0, ln >= 0, p + x + ln <= zi(S.len(base))), S.fsub(rest, zi(x), zi(ln)) == S.fsub(base, simp(p + x), zi(ln))))


def split(b):
    """SplitStringUsing: the parts between the separators"""
    h = H(b)
    ex, st, S = h.ex, h.st, h.S
    s, ps = h.string('input')
    d, pd = h.string('separator')
    vec = ex.alloc(24)
    n0, k, j, i0 = [z3.Int(x) for x in ('n0', 'separators', 'j', 'i0')]
    ex.lib.set_vsize(vec, n0, st)
    L, D = zi(S.len(s)), zi(S.len(d))
    P = z3.Function('from', IN, IN)
    F = lambda c: S.find(s, d, P(c))
    ex.axiom(And(n0 >= 0, n0 < 1 << 40, i0 >= 0, i0 < n0, k >= 0, k < 1 << 58, j >= 0, j <= k, P(0) == 0, D > 0, F(k) == -1, P(k) >= 0, P(k) <= L))

    def fact(c):
        f = F(c)
        ex.axiom(z3.Implies(And(c >= 0, c < k), And(f >= P(c), P(c) >= 0, P(c + 1) == f + D, P(c + 1) <= L)))
        ex.axiom(z3.Implies(And(c >= 0, P(c) >= 0, P(c) <= L, f == -1), c >= k))         # k is the first without
        rest = S.sub(s, P(c), -1)
        S.find(rest, d, 0)
        x = simp(f - P(c))
        h.part(s, P(c), z3.IntVal(0), x)
        h.part(s, P(c), simp(x + D), simp(L - P(c) - x - D))
    piece = lambda c: z3.If(c < k, S.sub(s, P(c), simp(F(c) - P(c))), S.sub(s, P(c), -1))
    at = lambda t, i: h.get(ex.lib.velem(vec, i, 32), t)
    old = at(st, i0)
    fact(j)

    def gen(ex, rec):
        c = lambda t: simp(zi(ex.lib.vsize(vec, t)) - n0)
        fact(c(rec.hdr))
        ex.add_cand(rec, 'one part per separator', lambda t: And(c(t) >= 0, c(t) <= k))
        ex.add_cand(rec, 'position of the next part', lambda t: And(P(c(t)) >= 0, P(c(t)) <= L))
        ex.add_cand(rec, 'part j', lambda t: z3.Implies(j < c(t), at(t, simp(n0 + j)) == piece(j)))
        ex.add_cand(rec, 'the earlier ones stay', lambda t: at(t, i0) == old)
        for kind, o, off in rec.cells:
            if kind == 'str':
                ex.add_cand(rec, 'cell %s: the rest' % o, lambda t, o=o, off=off: h.get(Ptr(o, off), t) == S.sub(s, P(c(t)), -1))
        for nm, g, w in rec.ints:
            if not nm.startswith('cell'):
                ex.add_cand(rec, nm + ': from there', lambda t, g=g: zi(g(t)) == P(c(t)))
                ex.add_cand(rec, nm + ': next separator', lambda t, g=g: zi(g(t)) == F(c(t)))
    ex.inv_gens.append(gen)
    h.call(r'kmlbase::SplitStringUsing', [ps, pd, vec])
    ex.oblige('one part more than separators', st.cond, zi(ex.lib.vsize(vec, st)) == n0 + k + 1)
    ex.oblige('part j lies between separators j and j+1', st.cond, at(st, simp(n0 + j)) == piece(j))
    ex.oblige('the earlier elements stay', st.cond, at(st, i0) == old)
    ex.covers = [st.cond]
    return ex


def split0(b):
    h = H(b)
    ex, st, S = h.ex, h.st, h.S
    s, ps = h.string('input')
    d, pd = h.string('separator')
    ex.axiom(d == S.lit(b''))
    vec = ex.alloc(24)
    n0 = z3.Int('n0')
    ex.axiom(And(n0 >= 0, n0 < 1 << 40))
    ex.lib.set_vsize(vec, n0, st)
    h.call(r'kmlbase::SplitStringUsing', [ps, pd, vec])
    ex.oblige('without a separator the text is one part', st.cond, And(zi(ex.lib.vsize(vec, st)) == n0 + 1, h.get(ex.lib.velem(vec, n0, 32)) == s))
    ex.covers = [st.cond]
    ex.dead_loops = True
    return ex


def expand(b):
    """CreateExpandedStrings: for each entry in key order, every occurrence of its key between the marks is replaced by its value"""
    h = H(b)
    ex, st, S = h.ex, h.st, h.S
    s, ps = h.string('in')
    m0, pm0 = h.string('start')
    m1, pm1 = h.string('end')
    mp = ex.new_input_obj()
    n = z3.Int('entries')
    ex.axiom(And(n >= 0, n < 1 << 40))
    w = ex.lib.seq_view(mp, n)
    node = lambda i: Ptr(w.nodes.obj, ex.mul_c(i, ex.lib.STRIDE))
    st0 = type(st)(st.cond, st.mem, dict(st.env))
    pat = lambda i: S.cat(m0, S.cat(h.get(node(i), st0), m1))
    val = lambda i: h.get(node(i).plus(32), st0)
    A = z3.Function('expanded', IN, ex.S)                    # the text after i entries
    R = z3.Function('replaced', IN, ex.S, ex.S)              # a text with every occurrence of entry i replaced
    ex.axiom(A(0) == s)
    empty = S.lit(b'')

    def repl(i, y):
        """what it is to replace every occurrence, from left to right"""
        f = S.find(y, pat(i), 0)
        tail = S.sub(y, f, -1)
        S.find(tail, pat(i), 0)
        ex.axiom(z3.Implies(f == -1, R(i, y) == y))
        ex.axiom(z3.Implies(f >= 0, R(i, y) == S.cat(S.sub(y, 0, f), R(i, tail))))
        ex.axiom(z3.Implies(f == 0, R(i, y) == S.cat(val(i), R(i, S.sub(y, zi(S.len(pat(i))), -1)))))

    def fact(i):
        ex.axiom(z3.Implies(And(i >= 0, i < n), A(i + 1) == z3.If(pat(i) == empty, A(i), R(i, A(i)))))
        repl(i, A(i))
        p = S.find(A(i), pat(i), 0)
        ex.axiom(z3.Implies(p >= 0, S.find(A(i), pat(i), p) == p))         # found there

    def step(i, o, p):
        """o with its occurrence at p replaced"""
        P, v = pat(i), val(i)
        m, lv, L = zi(S.len(P)), zi(S.len(v)), zi(S.len(o))
        a, rest, y = S.sub(o, 0, p), S.sub(o, simp(p + m), -1), S.sub(o, p, -1)
        S.find(y, P, 0)
        repl(i, y)
        repl(i, rest)
        f = S.find(rest, P, 0)
        o2 = S.cat(a, S.cat(v, rest))
        at, g = And(p >= 0, m > 0, p + m <= L), simp(p + lv)
        r2 = S.find(o2, P, g)
        ex.axiom(z3.Implies(at, r2 == z3.If(f == -1, z3.IntVal(-1), p + lv + f)))
        ex.axiom(z3.Implies(And(at, r2 >= 0), And(S.find(o2, P, r2) == r2, S.sub(o2, 0, r2) == S.cat(a, S.cat(v, S.sub(rest, 0, f))), S.sub(o2, r2, -1) == S.sub(rest, f, -1))))
        x, t = S.sub(rest, 0, f), R(i, S.sub(rest, f, -1))
        ex.axiom(S.fcat(S.cat(a, S.cat(v, x)), t) == S.cat(a, S.cat(v, S.cat(x, t))))

    # strings with the same parts are the same
    def gen(ex, rec):
        strs = [(o, off) for kind, o, off in rec.cells if kind == 'str']
        idx = []
        for nm, g, w_ in rec.ints:
            try:
                v = g(rec.hdr)
            except Unsupported:
                continue
            if is_z(v) and not z3.is_fp(v):
                idx.append((nm, g, zi(v)))
        outer = []
        for r in ex.loops:          # the entry the loops around this one are at
            if not r.suppressed and r.index < rec.index and r.end is None:
                for kind, o, off in r.cells:
                    if kind == 'ptr':
                        i = ex.m._load(r.hdr.mem, o, off, 'ptr').off
                        if is_z(i):
                            fact(i)
                            outer.append(i)
                outer += [zi(r.hdr.env[nm]) for nm, ty in r.phis if ty[0] == 'i' and is_z(r.hdr.env[nm])]
        for nm, g, v in idx:
            fact(v)
            ex.add_cand(rec, nm + ' within the map', lambda t, g=g: And(zi(g(t)) >= 0, zi(g(t)) <= n))
            for o, off in strs:
                T = lambda t, o=o, off=off: h.get(Ptr(o, off), t)
                ex.add_cand(rec, 'text after %s entries' % nm, lambda t, g=g, T=T: T(t) == A(zi(g(t))))
                for i in outer:
                    step(i, T(rec.hdr), v)
                    q = lambda t, g=g: zi(g(t))
                    ex.add_cand(rec, 'replacing at %s (%s)' % (nm, i), lambda t, T=T, q=q, i=i: And(q(t) >= -1, z3.If(q(t) == -1, T(t) == A(i + 1),
                                And(S.cat(S.sub(T(t), 0, q(t)), R(i, S.sub(T(t), q(t), -1))) == A(i + 1), S.find(T(t), pat(i), q(t)) == q(t)))))
    ex.inv_gens.append(gen)
    ret = ex.alloc(32)
    h.call(r'kmlbase::CreateExpandedStrings', [ret, ps, mp, pm0, pm1])
    ex.oblige('every occurrence of every key is replaced, key by key', st.cond, h.get(ret) == A(n))
    ex.covers = [st.cond]
    return ex


def ends(b):
    h = H(b)
    ex, st, S = h.ex, h.st, h.S
    s, ps = h.string('str')
    e, pe = h.string('end')
    ls, le = zi(S.len(s)), zi(S.len(e))
    r = h.call(r'kmlbase::StringEndsWith', [ps, pe])
    ex.oblige('whether a text ends with another', st.cond, zb(r) == zb(And(ls > 0, le > 0, le <= ls, S.sub(s, simp(ls - le), -1) == e)))
    ex.covers = [st.cond]
    return ex


def caseeq(b):
    h = H(b)
    ex, st, S = h.ex, h.st, h.S
    x, px = h.string('a')
    y, py = h.string('b')
    EQ = z3.Function('same_but_for_case', ex.S, ex.S, z3.BoolSort())

    def cmp(ex, nm, a, st):
        '''strncasecmp: 0 if the first n characters are the same but for case (C library)'''
        u, v = ex.lib.cstr_of(a[0], st), ex.lib.cstr_of(a[1], st)
        r = ex.fresh('cmp')
        n = ex.u(a[2], 64)
        ex.axiom(z3.Implies(And(S.len(u) == zi(n), S.len(v) == zi(n)), (r == 0) == EQ(u, v)))
        return r
    ex.contracts.append((RX(r'^strncasecmp'), cmp))
    r = h.call(r'kmlbase::StringCaseEqual', [px, py])
    ex.oblige('whether texts are the same but for case', st.cond, zb(r) == zb(And(S.len(x) == S.len(y), EQ(x, y))))
    ex.covers = [st.cond]
    return ex


def lead(h, s):
    """number of leading white-space characters of s"""
    ex, S, j = h.ex, h.S, z3.Int('j')
    o = z3.Int('o')
    allsp = lambda k: z3.ForAll([j], z3.Implies(And(j >= 0, j < k), sp(S.fat(s, j))), patterns=[S.fat(s, j)])
    ex.axiom(And(o >= 0, o <= zi(S.len(s)), Or(o == zi(S.len(s)), Not(sp(zi(S.at(s, o))))), allsp(o)))

    def gen(ex, rec):
        for nm, g, n in rec.ints:
            ex.add_cand(rec, nm + ': only white space before it', lambda t, g=g: And(zi(g(t)) >= 0, zi(g(t)) <= o))
    ex.inv_gens.append(gen)
    return o


def skip(b):
    h = H(b)
    ex, st, S = h.ex, h.st, h.S
    s, ps = h.string('str')
    o = lead(h, s)
    r = h.call(r'kmlbase::SkipLeadingWhitespaceString', [ps])
    ex.oblige('white space at the start is counted', st.cond, Eq(r, o))
    h.ex.under_contract.append(b.m.dem[b.fn(r'kmlbase::SkipLeadingWhitespace\(')])
    ex.covers = [st.cond]
    return ex


def tobool(b):
    h = H(b)
    ex, st, S = h.ex, h.st, h.S
    s, ps = h.string('str')
    o = lead(h, s)
    out = ex.alloc(1)
    h.call(r'void kmlbase::FromString<bool>\(', [ps, out])
    L = zi(S.len(s))
    want = Or(S.sub(s, o, 4) == S.lit(b'true'), S.sub(s, o, 1) == S.lit(b'1'))
    ex.oblige('a text starting with true or 1 is true, any other false', st.cond, zb(Eq(ex.m.load(st.mem, out, 'i8'), 1)) == zb(want))
    ex.oblige('it is true or false', st.cond, Or(Eq(ex.m.load(st.mem, out, 'i8'), 1), Eq(ex.m.load(st.mem, out, 'i8'), 0)))
    for v in (True, False):
        ret = ex.alloc(32)
        h.call(r'kmlbase::ToString(?:\[abi:cxx11\])?\(bool\)', [ret, v])
        ex.oblige('%s is written as a text that reads so' % v, st.cond, h.get(ret) == S.lit(b'1' if v else b'0'))
    ex.covers = [st.cond]
    return ex


def numbers(b, ty):
    """FromString<int>, FromString<double>"""
    h = H(b)
    ex, st, S = h.ex, h.st, h.S
    s, ps = h.string('str')
    out = ex.alloc(8)
    kind, so = ('f64', z3.Float64()) if ty == 'double' else ('i32', IN)
    h.call(r'void kmlbase::FromString<%s>\(' % ty, [ps, out])
    reads = z3.Function('reads_' + ty, ex.S, z3.BoolSort())(s)
    v = z3.Function('read_' + ty, ex.S, so)(s)
    ex.axiom(z3.Implies(s == S.lit(b''), Not(reads)))
    ex.oblige('a number is read as its value', And(st.cond, reads), Eq(ex.m.load(st.mem, out, kind), v))
    if ty == 'int':
        ex.oblige('the empty text is 0', And(st.cond, s == S.lit(b'')), Eq(ex.m.load(st.mem, out, kind), 0))
    ex.covers = [And(st.cond, reads)]
    return ex


def lines(b):
    """CsvSplitter: line by line"""
    h = H(b)
    ex, st, S = h.ex, h.st, h.S
    this = ex.input_ptr('this')
    data = this.plus(b.off('kmlbase::CsvSplitter', 'csv_data_'))
    cur = this.plus(b.off('kmlbase::CsvSplitter', 'current_line_'))
    s = z3.Const('data', ex.S)
    c = z3.Int('line')
    L = zi(S.len(s))
    ex.axiom(And(c >= -1, c <= L))              # npos: no more lines
    ex.axiom(ex.u(c, 64) == z3.If(c >= 0, c, c + (1 << 64)))
    st.mem = ex.m.store(ex.m.store(st.mem, data, 'str', s), cur, 'i64', c)
    vec = ex.alloc(24)
    log = []

    def quoted(ex, nm, a, st):
        '''splits a line into its columns (sampled by the companion)'''
        log.append((st.cond, a))
    ex.contracts.append((RX(r'^kmlbase::SplitQuotedUsing\('), quoted))
    f = b.fn(r'kmlbase::CsvSplitter::FindNextLine')

    def next_(ex, nm, a, st):
        '''FindNextLine itself'''
        return ex.call(f, a, st)
    ex.vcontracts['FindNextLine'] = next_
    r = h.call(r'kmlbase::CsvSplitter::SplitCurrentLine', [this, vec])
    nl = S.find_of(s, S.lit(b'\r\n'), c, False, False)
    end = z3.If(nl == -1, L, nl)
    nxt = z3.If(nl == -1, z3.IntVal(-1), S.find_of(s, S.lit(b'\r\n'), nl, False, True))
    ex.oblige('there is a line until the text is over', st.cond, zb(r) == (c >= 0))
    ex.oblige('the next line starts after the line ends', And(st.cond, c >= 0), Eq(ex.m.load(st.mem, cur, 'i64'), nxt))
    ex.oblige('at the end nothing happens', And(st.cond, c < 0), And(Eq(ex.m.load(st.mem, cur, 'i64'), c), Not(Or(*[k for k, a in log]))))
    ex.oblige('exactly this line is split', And(st.cond, c >= 0), Or(*[And(k, *([Eq(a[0].sbuf[0], s), Eq(a[0].sbuf[1], c), Eq(a[1], end - c), Eq(a[2], 44), Eq(a[3].obj, vec.obj)] if a[0].sbuf else [False])) for k, a in log]))
    ex.oblige('it is split once', st.cond, And(*[Not(And(log[i][0], log[j][0])) for i in range(len(log)) for j in range(i)]))
    ex.under_contract.append(b.m.dem[f])
    ex.covers = [And(st.cond, r), And(st.cond, Not(r))]
    return ex


def units(b):
    return [Unit('SplitStringUsing', lambda: split(b)), Unit('SplitStringUsing nothing', lambda: split0(b)), Unit('CreateExpandedStrings', lambda: expand(b)), Unit('StringEndsWith', lambda: ends(b)),
            Unit('StringCaseEqual', lambda: caseeq(b)), Unit('SkipLeadingWhitespace', lambda: skip(b)), Unit('booleans', lambda: tobool(b)), Unit('FromString double', lambda: numbers(b, 'double')),
            Unit('FromString int', lambda: numbers(b, 'int')), Unit('CsvSplitter', lambda: lines(b))]
