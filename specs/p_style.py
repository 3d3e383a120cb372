"""Style resolution (property E01)."""
from .evlib import *
from .p_parse import ids

MODULE = 'eng'
S_ = 'kmlengine::StyleMerger'
SR = r'kmlengine::StyleMerger::'
RT = 0x100         # ghost cell of the resolved style: what has been merged into it so far


class Sty(Ev):
    """a style merger in the middle of a resolution"""
    def __init__(self, b):
        Ev.__init__(self, b)
        ex, st = self.ex, self.st
        self.this = self.obj()
        self.at = lambda m: self.this.plus(b.off(S_, m))
        self.map, self.cache = ex.new_input_obj(), z3.Int('kml_cache')
        self.res = self.obj()
        self.base = z3.Const('base_url', ex.S)
        self.state = z3.Int('style_state')
        ex.axiom(And(self.cache >= 0, self.state >= 0, self.state < 16))
        FAC = ex.new_input_obj()
        ex.contracts += [(RX(r'^kmldom::KmlFactory::GetFactory'), lambda ex, n, a, st: FAC), (RX(r'^kmldom::KmlFactory::CreateStyle\(\)'), lambda ex, n, a, st: self.res)]
        self.ctor = [f for f in b.fns(SR + r'StyleMerger\(')]
        short = [f for f in self.ctor if 'unsigned' not in b.m.dem[f]]
        long_ = [f for f in self.ctor if 'unsigned' in b.m.dem[f]]
        if not short or not long_:
            raise Unsupported('constructors of StyleMerger')
        self.short, self.long = short[0], long_[0]
        self.d0 = z3.Int('budget')
        ex.axiom(And(self.d0 >= -(1 << 30), self.d0 < 1 << 30))
        ex.call(self.long, [self.this, self.map, Ptr(self.cache, 0), self.strarg(self.base), self.state, self.d0], st)
        self.r0 = z3.Int('merged0')
        self.set_tok(self.r0, st)
        self.ASS, self.ASM = z3.Function('IS_STYLE', I, z3.BoolSort()), z3.Function('IS_STYLEMAP', I, z3.BoolSort())
        self.MERGE = z3.Function('MERGED', I, I, I)
        # the outcome of each step as a function of what is merged so far, the budget and the argument
        self.URL, self.URLd = z3.Function('URL.style', I, I, ex.S, I), z3.Function('URL.budget', I, I, ex.S, I)
        self.SEL, self.SELd = z3.Function('SEL.style', I, I, I, I), z3.Function('SEL.budget', I, I, I, I)
        self.MAP, self.MAPd = z3.Function('MAP.style', I, I, I, I), z3.Function('MAP.budget', I, I, I, I)
        self.STY, self.STYd = z3.Function('STY.style', I, I, ex.S, I, I), z3.Function('STY.budget', I, I, ex.S, I, I)

        def cast(p):
            def h(ex, n, a, st):
                '''the element itself if it is of that class, else null (verified: D05)'''
                x = self.ptr(st, a[1])
                st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(z3.If(And(zi(x.obj) != 0, p(zi(x.obj))), zi(x.obj), z3.IntVal(0)), x.off))
            return h
        ex.contracts += [(RX(r'^kmldom::AsStyle\('), cast(self.ASS)), (RX(r'^kmldom::AsStyleMap\('), cast(self.ASM))]

        def me(ex, n, a, st):
            '''merges the style over what is there (verified: E05)'''
            ex.oblige('it is the resolved style that is merged into', st.cond, ptr_eq(self.ptr(st, a[1]), self.res))
            self.set_tok(self.MERGE(self.tok(st), zi(self.ptr(st, a[0]).obj)), st)
        ex.contracts.append((RX(r'^kmlengine::MergeElements'), me))

    def tok(self, st):
        return zi(self.ex.m.load(st.mem, self.res.plus(RT), 'i64'))

    def set_tok(self, v, st):
        st.mem = self.ex.m.store(st.mem, self.res.plus(RT), 'i64', v)

    def dep(self, st):
        return zi(self.ex.m.load(st.mem, self.at('nesting_depth_'), 'i32'))

    def set_dep(self, v, st):
        self.ex.axiom(And(v >= -(1 << 30), v < 1 << 30))
        st.mem = self.ex.m.store(st.mem, self.at('nesting_depth_'), 'i32', v)

    def step(self, name, R, Dd, args):
        """contract of another method of the merger"""
        def h(ex, n, a, st):
            '''what this step does (verified by its own unit; recursion: induction on the budget and the nesting of style maps)'''
            ex.oblige('on the same merger', st.cond, ptr_eq(a[0], self.this))
            t, d, x = self.tok(st), self.dep(st), args(st, a)
            self.what(R, t, d, *x)
            self.set_tok(R(t, d, *x), st)
            self.set_dep(Dd(t, d, *x), st)
        self.ex.contracts.append((RX('^' + SR + name + r'\('), h))

    def others(self, but):
        o = lambda p: zi(p.obj)
        for nm, R, Dd, args in (('MergeStyleUrl', self.URL, self.URLd, lambda st, a: (self.str(st, a[1]),)), ('MergeStyleSelector', self.SEL, self.SELd, lambda st, a: (o(self.ptr(st, a[1])),)),
                                ('MergeStyleMap', self.MAP, self.MAPd, lambda st, a: (o(self.ptr(st, a[1])),)), ('MergeStyle', self.STY, self.STYd, lambda st, a: (self.str(st, a[1]), o(self.ptr(st, a[2]))))):
            if nm != but:
                self.step(nm, R, Dd, args)

    def what(self, R, t, d, *x):
        """the postcondition of a step, from what it is called with"""
        ax = self.ex.axiom
        if R.eq(self.SEL):
            s, v = x[0], (self.SEL(t, d, x[0]), self.SELd(t, d, x[0]))
            isS, isM = And(s > 0, self.ASS(s)), And(s > 0, Not(self.ASS(s)), self.ASM(s))
            ax(z3.Implies(isS, And(v[0] == self.MERGE(t, s), v[1] == d)))
            ax(z3.Implies(isM, And(v[0] == self.MAP(t, d, s), v[1] == self.MAPd(t, d, s))))
            ax(z3.Implies(Not(Or(isS, isM)), And(v[0] == t, v[1] == d)))
        elif R.eq(self.MAP):
            ax(z3.Implies(x[0] == 0, And(self.MAP(t, d, x[0]) == t, self.MAPd(t, d, x[0]) == d)))
        elif R.eq(self.STY):
            u, s = x
            r1, d1 = self.URL(t, d, u), self.URLd(t, d, u)
            ax(And(self.STY(t, d, u, s) == self.SEL(r1, d1, s), self.STYd(t, d, u, s) == self.SELd(r1, d1, s)))
            self.what(self.SEL, r1, d1, s)

    def outcome(self, what, cond, R, d):
        ex, st = self.ex, self.st
        for F in (self.SEL, self.MAP, self.STY):
            if is_z(R) and z3.is_app(R) and R.decl().eq(F):
                self.what(F, *R.children())
        ex.oblige(what + ': the style', And(st.cond, cond), Eq(self.tok(st), R))
        ex.oblige(what + ': the references left', And(st.cond, cond), Eq(self.dep(st), d))

    def selarg(self, name):
        x = z3.Int(name)
        self.ex.axiom(x >= 0)
        return x, self.ptrarg(Ptr(x, 0))


def ctors(b):
    h = Sty(b)
    ex, st = h.ex, h.st
    ex.oblige('the limit given is the number of references', st.cond, Eq(h.dep(st), h.d0))
    for what, s, t in (('with a limit', st, h.this),):
        fields(h, s, t)
    s2 = start(ex)
    t2 = h.obj()
    ex.call(h.short, [t2, h.map, Ptr(h.cache, 0), h.strarg(h.base) if False else arg_in(h, s2, h.base), h.state], s2)
    fields(h, s2, t2)
    ex.oblige('five references by default', s2.cond, Eq(ex.m.load(s2.mem, t2.plus(b.off(S_, 'nesting_depth_')), 'i32'), 5))
    g = b.fn(SR + r'GetResolvedStyle\(')
    r = ex.call(g, [h.this], D.scratch_state(st))
    ex.oblige('the resolved style is handed out', st.cond, ptr_eq(h.ptr(st, r), h.res))
    return h.fin(h.short, h.long, g)


def arg_in(h, s, v):
    p = h.ex.alloc(32)
    s.mem = h.ex.m.store(s.mem, p, 'str', v)
    return p


def fields(h, s, t):
    ex = h.ex
    o = lambda m: t.plus(h.b.off(S_, m))
    ex.oblige('a new style is what is resolved into', s.cond, ptr_eq(h.ptr(s, o('resolved_style_')), h.res))
    ex.oblige('the shared styles, cache, base url and state given', s.cond, And(ptr_eq(ex.m.load(s.mem, o('shared_style_map_'), 'ptr'), h.map), Eq(ex.m.load(s.mem, o('kml_cache_'), 'ptr').obj, h.cache),
                                                                               Eq(h.str(s, o('base_url_')), h.base), Eq(ex.m.load(s.mem, o('style_state_'), 'i32'), h.state)))


def style(b):
    h = Sty(b)
    ex, st = h.ex, h.st
    h.others('MergeStyle')
    u = z3.Const('styleurl', ex.S)
    x, px = h.selarg('styleselector')
    f = b.fn(SR + r'MergeStyle\(')
    ex.call(f, [h.this, h.strarg(u), px], st)
    r1, d1 = h.URL(h.r0, h.d0, u), h.URLd(h.r0, h.d0, u)
    h.outcome('first what the reference names, then the inline style over it', True, h.SEL(r1, d1, x), h.SELd(r1, d1, x))
    return h.fin(f)


def selector(b):
    h = Sty(b)
    ex, st = h.ex, h.st
    h.others('MergeStyleSelector')
    x, px = h.selarg('styleselector')
    f = b.fn(SR + r'MergeStyleSelector\(')
    ex.call(f, [h.this, px], st)
    isS, isM = And(x > 0, h.ASS(x)), And(x > 0, Not(h.ASS(x)), h.ASM(x))
    h.outcome('a Style is merged in', isS, h.MERGE(h.r0, x), h.d0)
    h.outcome('a StyleMap is taken apart', isM, h.MAP(h.r0, h.d0, x), h.MAPd(h.r0, h.d0, x))
    h.outcome('anything else is left out', Not(Or(isS, isM)), h.r0, h.d0)
    return h.fin(f)


def smap(b):
    h = Sty(b)
    ex, st = h.ex, h.st
    dom = b.dom
    h.others('MergeStyleMap')
    this = h.obj()
    null = z3.Bool('no_map')
    F = lambda n: next(f for f in dom.all_fields('kmldom::StyleMap') if f.name == n)
    pf = F('pair')
    n = D.array_size(ex, dom, pf, this, st)
    FR, FD = z3.Function('fold.style', I, I), z3.Function('fold.budget', I, I)
    ex.axiom(And(FR(0) == h.r0, FD(0) == h.d0))
    st0 = D.scratch_state(st)
    PF = {f.name: f for f in dom.all_fields('kmldom::Pair')}

    def facts(s_, k):
        p = D.array_at(ex, dom, pf, this, s_, k)
        g = lambda nm: D.get_field(ex, dom, PF[nm], p, s_)
        m = Eq(g('key'), h.state)
        u, x = g('styleurl'), zi(g('styleselector').obj)
        ex.axiom(z3.Implies(And(k >= 0, k < n), And(zi(p.obj) > 0, zi(p.off) == 0)))
        h.what(h.STY, FR(k), FD(k), u, x)
        ex.axiom(z3.Implies(k >= 0, And(FR(k + 1) == z3.If(zb(m), h.STY(FR(k), FD(k), u, x), FR(k)), FD(k + 1) == z3.If(zb(m), h.STYd(FR(k), FD(k), u, x), FD(k)))))
        ex.axiom(z3.Implies(k >= 0, And(FD(k) >= -(1 << 30), FD(k) < 1 << 30)))

    def gen(ex, rec):
        for nm, g, w in rec.ints:
            try:
                v = g(rec.hdr)
            except Unsupported:
                continue
            if not is_z(v) or z3.is_fp(v) or nm.startswith('cell'):
                continue
            facts(st0, zi(v))
            ex.add_cand(rec, nm + ' within the pairs', lambda t, g=g: And(zi(g(t)) >= 0, zi(g(t)) <= zi(n)))
            ex.add_cand(rec, 'the style is that of the pairs before ' + nm, lambda t, g=g: h.tok(t) == FR(zi(g(t))))
            ex.add_cand(rec, 'the references left are those of the pairs before ' + nm, lambda t, g=g: h.dep(t) == FD(zi(g(t))))
    ex.inv_gens.append(gen)
    f = b.fn(SR + r'MergeStyleMap\(')
    ex.call(f, [h.this, h.ptrarg(Ptr(z3.If(null, z3.IntVal(0), zi(this.obj)), 0))], st)
    h.outcome('no map', null, h.r0, h.d0)
    h.outcome('the pairs of this state, in order', Not(null), FR(zi(n)), FD(zi(n)))
    return h.fin(f)


def url(b):
    h = Sty(b)
    ex, st, S = h.ex, h.st, h.S
    h.others('MergeStyleUrl')
    u = z3.Const('styleurl', ex.S)
    PATH, FRAG, OK = z3.Function('PATH', ex.S, ex.S), z3.Function('FRAGMENT', ex.S, ex.S), z3.Function('IS_URI', ex.S, z3.BoolSort())
    path, frag = PATH(u), FRAG(u)
    nonempty = lambda v: Not(Eq(S.len(v), 0))

    def split(ex, n, a, st):
        '''the parts of the URI, if it is one (uriparser)'''
        v = self_str(a[0], st)
        ok = OK(v)
        for p, F in ((a[4], PATH), (a[6], FRAG)):
            if p.obj != 0:
                st.mem = ex.m.store(st.mem, p, 'str', F(v))      # empty unless it is a URI
        return ok
    self_str = lambda p, s: h.str(s, p)
    ex.axiom(z3.Implies(Not(OK(u)), And(Eq(path, S.lit(b'')), Eq(frag, S.lit(b'')))))
    for v in (path, frag, u):
        ex.axiom(Eq(Eq(S.len(v), 0), Eq(v, S.lit(b''))))
    FILE, SHARED = z3.Function('FETCHED', ex.S, ex.S, I), z3.Function('SHARED', I, ex.S, I)
    ex.axiom(And(FILE(h.base, u) >= 0, SHARED(FILE(h.base, u), frag) >= 0))

    def fetch(ex, n, a, st):
        '''the KML file the reference names, or null (verified: F02, KmlCache)'''
        ex.oblige('relative to the base url', st.cond, Eq(h.str(st, a[2]), h.base))
        h.rec('fetched', lambda st, a: (a[1], h.str(st, a[3])))(ex, n, a, st)
        st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(FILE(h.base, h.str(st, a[3])), 0))

    def shared(ex, n, a, st):
        '''the shared style of that id in the file, or null (verified: GetSharedStyleById)'''
        st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(SHARED(zi(a[1].obj), h.str(st, a[2])), 0))
    ex.contracts += [(RX(r'^kmlengine::SplitUri\('), split), (RX(r'^kmlengine::KmlCache::FetchKmlRelative'), fetch), (RX(r'^kmlengine::KmlFile::GetSharedStyleById'), shared)]
    has = z3.Select(ex.m.load(st.mem, h.map, 'mhas'), frag)
    found = zi(h.ptr(st, ex.lib.mslot(h.map, frag).plus(32)).obj)
    ex.axiom(found >= 0)
    f = b.fn(SR + r'MergeStyleUrl\(')
    ex.call(f, [h.this, h.strarg(u)], st)
    d1 = h.d0 - 1
    go = And(d1 >= 0, nonempty(u), OK(u), nonempty(frag))
    local, remote = And(go, Not(nonempty(path))), And(go, nonempty(path), h.cache > 0)
    F = FILE(h.base, u)
    X = SHARED(F, frag)
    h.outcome('a style of this file', And(local, has), h.SEL(h.r0, d1, found), h.SELd(h.r0, d1, found))
    h.outcome('an id this file does not have', And(local, Not(has)), h.r0, d1)
    h.outcome('a style of another file', And(remote, F > 0, X > 0), h.SEL(h.r0, d1, X), h.SELd(h.r0, d1, X))
    h.outcome('an id or file that is not there', And(remote, Or(F == 0, X == 0)), h.r0, d1)
    h.outcome('a reference not followed', Not(Or(local, remote)), h.r0, d1)
    h.happens('fetched', remote, st, (Ptr(h.cache, 0), u))
    return h.fin(f)


def resolve(b):
    """StyleResolver::CreateResolvedStyle"""
    h = Ev(b)
    ex, st = h.ex, h.st
    u, base = z3.Const('styleurl', ex.S), z3.Const('base_url', ex.S)
    x, cache, state = z3.Int('styleselector'), z3.Int('kml_cache'), z3.Int('style_state')
    ex.axiom(And(x >= 0, cache >= 0, state >= 0, state < 16))
    mp = ex.new_input_obj()
    res = z3.Int('resolved')
    ex.axiom(res > 0)
    h.on(r'^kmlengine::StyleMerger::StyleMerger', 'merger made', lambda st, a: (a[0], a[1], a[2], h.str(st, a[3]), a[4]))
    ex.contracts.append((RX(r'^kmlengine::StyleMerger::~StyleMerger'), lambda ex, n, a, st: None))
    h.on(r'^kmlengine::StyleMerger::MergeStyle\(', 'merged', lambda st, a: (a[0], h.str(st, a[1]), h.ptr(st, a[2])))
    cell = h.ptrarg(Ptr(res, 0))
    h.on(r'^kmlengine::StyleMerger::GetResolvedStyle', 'taken', lambda st, a: (a[0],), cell)
    f = b.fn(r'kmlengine::StyleResolver::CreateResolvedStyle\(')
    ret = ex.alloc(8)
    ex.call(f, [ret, h.strarg(u), h.ptrarg(Ptr(x, 0)), mp, h.strarg(base), Ptr(cache, 0), state], st)
    m = h.ev['merger made'][0][1][0] if h.ev.get('merger made') else NULL
    h.happens('merger made', True, st, (m, mp, Ptr(cache, 0), base, state))
    h.happens('merged', True, st, (m, u, Ptr(x, 0)))
    h.happens('taken', True, st, (m,))
    for p, q in (('merger made', 'merged'), ('merged', 'taken')):
        h.before(p, q)
    ex.oblige('what was resolved is the answer', st.cond, Eq(h.ptr(st, ret).obj, res))
    return h.fin(f)


def feature(b):
    """CreateResolvedStyle of a feature"""
    h = Ev(b)
    ex, st = h.ex, h.st
    dom = b.dom
    FF = {f.name: f for f in dom.all_fields('kmldom::Placemark')}
    p = h.obj()
    file = h.obj()
    state = z3.Int('style_state')
    ex.axiom(And(state >= 0, state < 16))
    off = lambda m: file.plus(b.off('kmlengine::KmlFile', m))
    res = z3.Int('resolved')
    ex.axiom(res > 0)

    def r(ex, n, a, st):
        '''resolves (verified by its own unit)'''
        h.rec('resolved', lambda st, a: (h.str(st, a[1]), h.ptr(st, a[2]), a[3], h.str(st, a[4]), a[5], a[6]))(ex, n, a, st)
        st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(res, 0))
    ex.contracts.append((RX(r'^kmlengine::StyleResolver::CreateResolvedStyle\('), r))
    f = b.fn(r'kmlengine::CreateResolvedStyle\(')
    ret = ex.alloc(8)
    st0 = copy_(st)
    gu, gs = D.get_field(ex, dom, FF['styleurl'], p, st0), D.get_field(ex, dom, FF['styleselector'], p, st0)
    ex.call(f, [ret, h.ptrarg(p), h.ptrarg(file), state], st)
    h.happens('resolved', True, st, (gu, gs, off('shared_style_map_'), h.str(st0, ex.call(b.fn(r'kmlbase::XmlFile::get_url\('), [file], D.scratch_state(st0))), ex.m.load(st0.mem, off('kml_cache_'), 'ptr'), state))
    ex.oblige('the answer', st.cond, Eq(h.ptr(st, ret).obj, res))
    return h.fin(f)


def shared(b):
    """KmlFile::GetSharedStyleById"""
    h = Ev(b)
    ex, st = h.ex, h.st
    file = h.obj()
    mp = file.plus(b.off('kmlengine::KmlFile', 'shared_style_map_'))
    i = z3.Const('id', ex.S)
    has = z3.Select(ex.m.load(st.mem, mp, 'mhas'), i)
    found = h.ptr(st, ex.lib.mslot(mp, i).plus(32))
    ret = ex.alloc(8)
    f = b.fn(r'kmlengine::KmlFile::GetSharedStyleById\(')
    ex.call(f, [ret, file, h.strarg(i)], st)
    ex.oblige('the shared style of that id', And(st.cond, has), ptr_eq(h.ptr(st, ret), found))
    ex.oblige('no shared style of that id', And(st.cond, Not(has)), Eq(h.ptr(st, ret).obj, 0))
    return h.fin(f)


def units(b):
    return [Unit('StyleMerger constructors', lambda: ctors(b)), Unit('StyleMerger::MergeStyle', lambda: style(b)), Unit('StyleMerger::MergeStyleSelector', lambda: selector(b)), Unit('StyleMerger::MergeStyleMap', lambda: smap(b)),
            Unit('StyleMerger::MergeStyleUrl', lambda: url(b)), Unit('StyleResolver::CreateResolvedStyle', lambda: resolve(b)), Unit('CreateResolvedStyle', lambda: feature(b)), Unit('KmlFile::GetSharedStyleById', lambda: shared(b))]
