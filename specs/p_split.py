"""Moving styles between features and their Document (property E06)."""
from .evlib import *
from .p_parse import ids

MODULE = 'eng'
SP, SI = 'kmlengine::StyleSplitter', 'kmlengine::StyleInliner'


class Obs(Ev):
    """an observer in the middle of a parse"""
    def __init__(self, b, cls):
        Ev.__init__(self, b)
        ex, st = self.ex, self.st
        self.cls = cls
        self.casts()
        self.T = ids()
        self.this = self.obj()
        self.at = lambda m: self.this.plus(b.off(cls, m))
        c = [f for f in b.fns(cls + r'::%s\(' % cls.split('::')[-1])]
        if not c:
            raise Unsupported('constructor of ' + cls)
        self.map = ex.new_input_obj() if cls == SP else self.at('shared_styles_')
        ex.contracts.append((RX(r'^kmldom::ParserObserver::ParserObserver'), lambda ex, n, a, st: None))
        ex.call(c[0], [self.this] + ([self.map] if cls == SP else []), st)
        ex.oblige('a new one has seen no Document and no Update', st.cond, And(Eq(self.ptr(st, self.at('document_')).obj, 0), Eq(self.upd(st), 0)))
        if cls == SI:
            k = z3.Const('any_key', ex.S)
            ex.oblige('a new one has no styles', st.cond, Not(z3.Select(ex.m.load(st.mem, self.map, 'mhas'), k)))
            st.mem = ex.m.store(st.mem, self.map, 'mhas', z3.Const('styles0', ex.m.load(st.mem, self.map, 'mhas').sort()))
        else:
            self.C = z3.Int('counter')
            ex.axiom(And(self.C >= 0, self.C < (1 << 31) - 1))
            ex.oblige('a new one counts from zero', st.cond, Eq(ex.m.load(st.mem, self.at('id_counter_'), 'i32'), 0))
            st.mem = ex.m.store(st.mem, self.at('id_counter_'), 'i32', self.C)
        self.doc, self.U = z3.Int('document'), z3.Int('in_update')
        ex.axiom(And(self.doc >= 0, self.U >= 0, self.U <= 1))
        st.mem = ex.m.store(st.mem, self.at('document_'), 'ptr', Ptr(self.doc, 0))
        st.mem = ex.m.store(st.mem, self.at('in_update_'), 'i8', self.U)
        self.has0 = ex.m.load(st.mem, self.map, 'mhas')
        self.c = c[0]

    def upd(self, st):
        return self.ex.m.load(st.mem, self.at('in_update_'), 'i8')

    def elem(self, name):
        x = z3.Int(name)
        self.ex.axiom(x > 0)
        return x, self.ptrarg(Ptr(x, 0))

    def is_(self, x, t):
        return zb(self.isa(x, self.T['Type_' + t]))

    def state(self, what, doc, upd):
        ex, st = self.ex, self.st
        ex.oblige(what + ': the Document', st.cond, Eq(self.ptr(st, self.at('document_')).obj, doc))
        ex.oblige(what + ': whether in an Update', st.cond, Eq(self.upd(st), upd))


def new_element(b, cls):
    h = Obs(b, cls)
    ex, st = h.ex, h.st
    x, px = h.elem('element')
    f = b.fn(cls + r'::NewElement\(')
    r = ex.call(f, [h.this, px], st)
    h.state('the first Document is the one', z3.If(And(h.doc == 0, h.is_(x, 'Document')), x, h.doc), z3.If(h.is_(x, 'Update'), z3.IntVal(1), h.U))
    ex.oblige('the parse goes on', st.cond, asbool(r))
    return h.fin(f, h.c)


def asbool(r):
    if isinstance(r, (bool, int)):
        return bool(r)
    return zb(r) if z3.is_bool(r) else r != 0


def nondoc(b, cls):
    h = Obs(b, cls)
    ex, st = h.ex, h.st
    x = z3.Int('element')
    ex.axiom(x >= 0)
    ret = ex.alloc(8)
    f = b.fn(cls + r'::AsNonDocumentFeature\(')
    ex.call(f, [ret, h.ptrarg(Ptr(x, 0))], st)
    ex.oblige('a feature other than a Document, or null', st.cond, Eq(h.ptr(st, ret).obj, z3.If(And(x > 0, h.is_(x, 'Feature'), Not(h.is_(x, 'Document'))), x, z3.IntVal(0))))
    return h.fin(f)


def creates(h, cls):
    """the factory, by its contract (verified: D03)"""
    ex = h.ex
    FAC = ex.new_input_obj()
    ex.contracts.append((RX(r'^kmldom::KmlFactory::GetFactory'), lambda ex, n, a, st: FAC))
    made = {}
    for c in cls:
        p = made[c] = h.obj()

        def mk(ex, n, a, st, p=p):
            '''a new element of that class (verified: D03)'''
            return p
        ex.contracts.append((RX(r'^kmldom::KmlFactory::Create%s\(\)' % c), mk))
    return made


def selector(b):
    h = Ev(b)
    ex, st = h.ex, h.st
    made = creates(h, ['Style', 'StyleMap'])
    t = z3.Int('type_id')
    ex.axiom(And(t >= 0, t < 1 << 16))
    ret = ex.alloc(8)
    f = b.fn(SP + r'::CreateStyleSelector\(')
    ex.call(f, [ret, t], st)
    T = ids()
    ex.oblige('a Style, a StyleMap or null', st.cond, Eq(h.ptr(st, ret).obj, z3.If(t == T['Type_Style'], zi(made['Style'].obj), z3.If(t == T['Type_StyleMap'], zi(made['StyleMap'].obj), z3.IntVal(0)))))
    return h.fin(f)


def field(b, cls, name):
    return next(f for f in b.dom.all_fields('kmldom::' + cls) if f.name == name)


def split_end(b):
    h = Obs(b, SP)
    ex, st, S, dom = h.ex, h.st, h.S, b.dom
    par = h.obj()                                # some parent, with the members of a Feature if it is one
    P = zi(par.obj)
    X = h.obj()                                  # the child that ends, with the members of an Object if it is one
    x = zi(X.obj)
    fu, fi = field(b, 'Placemark', 'styleurl'), field(b, 'Style', 'id')
    uid = z3.Const('unique_id', ex.S)
    new = h.obj()
    cid, chas = D.get_field(ex, dom, fi, X, st), D.has_field(ex, dom, fi, X, st)

    def unique(ex, n, a, st):
        '''an id for the style, of any form (a derived class may choose it)'''
        h.rec('id asked for', lambda st, a: (a[2], a[3]))(ex, n, a, st)
        st.mem = ex.m.store(st.mem, a[0], 'str', uid)
    ex.contracts.append((RX(r'^kmlengine::StyleSplitter::CreateUniqueId'), unique))
    ex.vcontracts['CreateUniqueId'] = unique

    def create(ex, n, a, st):
        '''a new Style or StyleMap (verified by its own unit)'''
        h.rec('created', lambda st, a: (a[1],))(ex, n, a, st)
        st.mem = ex.m.store(st.mem, a[0], 'ptr', new)
    ex.contracts.append((RX(r'^kmlengine::StyleSplitter::CreateStyleSelector'), create))

    def merge(ex, n, a, st):
        '''everything set in the child is set in the new style, its id too (verified: E05)'''
        h.rec('merged', lambda st, a: (h.ptr(st, a[0]), h.ptr(st, a[1])))(ex, n, a, st)
        s1 = copy_(st)
        ex.call(b.fn(r'kmldom::Object::set_id\('), [new, arg_in(ex, s1, cid)], s1)
        st.mem = ex.m.merge([(chas, s1.mem), (Not(chas), st.mem)])
    ex.contracts.append((RX(r'^kmlengine::MergeElements'), merge))
    h.on(r'^kmldom::Document::add_styleselector|^kmldom::Feature::add_styleselector', 'added', lambda st, a: (a[0], h.ptr(st, a[1])))
    nourl = Not(D.has_field(ex, dom, fu, par, st))
    url0 = D.get_field(ex, dom, fu, par, st)
    taken = z3.Select(h.has0, uid)
    isf = And(h.is_(P, 'Feature'), Not(h.is_(P, 'Document')))
    go = And(h.U == 0, h.doc > 0, h.is_(x, 'StyleSelector'), isf, nourl, Not(taken))
    keep = And(h.U == 0, h.is_(P, 'Document'), h.is_(x, 'StyleSelector'), chas)
    k = z3.Const('any_key', ex.S)
    slot = lambda s, key: h.ptr(s, ex.lib.mslot(h.map, key).plus(32))
    v0 = slot(copy_(st), k)
    f = b.fn(SP + r'::EndElement\(')
    r = ex.call(f, [h.this, h.ptrarg(par), h.ptrarg(X)], st)
    go_, keep_ = zb(go), zb(keep)
    ex.oblige('the style is taken from the feature exactly when it moves', st.cond, Eq(asbool(r), Not(go_)))
    h.happens('created', go_, st, (h.TYPE(x),))
    h.happens('merged', go_, st, (X, new))
    h.happens('added', go_, st, (Ptr(h.doc, 0), new))
    for c, a, q, s in h.ev.get('id asked for', []):
        ex.oblige('the id is asked for with the styles there are and the count', c, And(ptr_eq(a[0], h.map), Eq(a[1], h.C)))
    ex.oblige('the id of the style in the Document', And(st.cond, go_), And(zb(D.has_field(ex, dom, fi, new, st)), Eq(D.get_field(ex, dom, fi, new, st), uid)))
    ex.oblige('the feature refers to it', And(st.cond, go_), And(zb(D.has_field(ex, dom, fu, par, st)), Eq(D.get_field(ex, dom, fu, par, st), S.cat(S.lit(b'#'), uid))))
    ex.oblige('otherwise its styleUrl stays', And(st.cond, Not(go_)), And(Eq(D.has_field(ex, dom, fu, par, st), Not(nourl)), Eq(D.get_field(ex, dom, fu, par, st), url0)))
    ex.oblige('the count', st.cond, Eq(ex.m.load(st.mem, h.at('id_counter_'), 'i32'), z3.If(go_, h.C + 1, h.C)))
    has = z3.Select(ex.m.load(st.mem, h.map, 'mhas'), k)
    ex.oblige('the ids known: those before, the new one, or that of a style of a Document', st.cond, Eq(has, Or(z3.Select(h.has0, k), And(go_, k == uid), And(keep_, k == cid))))
    ex.oblige('the new style is known by its id', And(st.cond, go_), ptr_eq(slot(st, uid), new))
    ex.oblige('a style of a Document is known by its id', And(st.cond, keep_), ptr_eq(slot(st, cid), X))
    ex.oblige('the other styles known stay', And(st.cond, z3.Select(h.has0, k), Not(And(go_, k == uid)), Not(And(keep_, k == cid))), ptr_eq(slot(st, k), v0))
    h.state('the Update is over when it ends', h.doc, z3.If(And(h.is_(x, 'Update')), z3.IntVal(0), h.U))
    return h.fin(f)


def arg_in(ex, s, v):
    p = ex.alloc(32)
    s.mem = ex.m.store(s.mem, p, 'str', v)
    return p


def inline_end(b):
    h = Obs(b, SI)
    ex, st, S, dom = h.ex, h.st, h.S, b.dom
    par, X = h.obj(), h.obj()
    P, x = zi(par.obj), zi(X.obj)
    fi, fs = field(b, 'Style', 'id'), field(b, 'Placemark', 'styleselector')
    cid, chas = D.get_field(ex, dom, fi, X, st), D.has_field(ex, dom, fi, X, st)
    text = z3.Const('char_data', ex.S)
    PATH, FRAG, OK = z3.Function('PATH', ex.S, ex.S), z3.Function('FRAGMENT', ex.S, ex.S), z3.Function('IS_URI', ex.S, z3.BoolSort())

    def split(ex, n, a, st):
        '''the parts of the URI, if it is one (uriparser)'''
        v = h.str(st, a[0])
        for p, F in ((a[4], PATH), (a[6], FRAG)):
            if p.obj != 0:
                st.mem = ex.m.store(st.mem, p, 'str', F(v))
        return OK(v)
    cell = ex.alloc(32)
    st.mem = ex.m.store(st.mem, cell, 'str', text)
    ex.contracts.append((RX(r'^kmlengine::SplitUri\('), split))
    ex.contracts.append((RX(r'^kmldom::Element::get_char_data'), lambda ex, n, a, st: (ex.oblige('the text of the child', st.cond, ptr_eq(a[0], X)), cell)[1]))
    RES = h.obj()
    empty = Eq(S.len(PATH(text)), 0)
    ex.axiom(Eq(zb(empty), PATH(text) == S.lit(b'')))

    def res(ex, n, a, st):
        '''the normal and highlight look the reference gives (verified by its own unit)'''
        h.rec('resolved', lambda st, a: (h.str(st, a[1]), a[2]))(ex, n, a, st)
        st.mem = ex.m.store(st.mem, a[0], 'ptr', RES)
    ex.contracts.append((RX(r'^kmlengine::StyleResolver::CreateResolvedStyleSelector'), res))
    h.on(r'^kmldom::Feature::set_styleselector', 'style set', lambda st, a: (a[0], h.ptr(st, a[1])))
    out = h.U == 0
    keep = zb(And(out, h.is_(P, 'Document'), h.is_(x, 'StyleSelector'), chas))
    isf = And(h.is_(P, 'Feature'), Not(h.is_(P, 'Document')))
    go = zb(And(out, isf, h.TYPE(x) == h.T['Type_styleUrl'], OK(text), empty, z3.Select(h.has0, FRAG(text))))
    k = z3.Const('any_key', ex.S)
    slot = lambda s, key: h.ptr(s, ex.lib.mslot(h.map, key).plus(32))
    v0 = slot(copy_(st), k)
    f = b.fn(SI + r'::EndElement\(')
    r = ex.call(f, [h.this, h.ptrarg(par), h.ptrarg(X)], st)
    ex.oblige('taken out: shared styles of a Document and references resolved', st.cond, Eq(asbool(r), Not(Or(keep, go))))
    h.happens('resolved', go, st, (text, h.map))
    h.happens('style set', go, st, (par, RES))
    has = z3.Select(ex.m.load(st.mem, h.map, 'mhas'), k)
    ex.oblige('the styles known: those before and the one of this Document', st.cond, Eq(has, Or(z3.Select(h.has0, k), And(keep, k == cid))))
    ex.oblige('the style is known by its id', And(st.cond, keep), ptr_eq(slot(st, cid), X))
    ex.oblige('the other styles known stay', And(st.cond, z3.Select(h.has0, k), Not(And(keep, k == cid))), ptr_eq(slot(st, k), v0))
    h.state('nothing else', h.doc, h.U)
    return h.fin(f)


def inline_add(b):
    h = Obs(b, SI)
    ex, st = h.ex, h.st
    p, pp = h.elem('parent')
    x, px = h.elem('child')
    f = b.fn(SI + r'::AddChild\(')
    r = ex.call(f, [h.this, pp, px], st)
    h.state('the Update is over when it is added', h.doc, z3.If(h.is_(x, 'Update'), z3.IntVal(0), h.U))
    ex.oblige('the parse goes on', st.cond, asbool(r))
    return h.fin(f)


def resolved(b):
    """StyleResolver::CreateResolvedStyleSelector"""
    h = Ev(b)
    ex, st, dom = h.ex, h.st, b.dom
    u = z3.Const('styleurl', ex.S)
    mp = ex.new_input_obj()
    FAC = ex.new_input_obj()
    SM = h.obj()
    pairs = [h.obj(), h.obj()]
    n = [0]
    LOOK = z3.Function('LOOK', I, I)
    ex.axiom(And(LOOK(0) > 0, LOOK(1) > 0, LOOK(0) != LOOK(1)))

    def pair(ex, nm, a, st):
        '''a new Pair (verified: D03)'''
        if n[0] >= 2:
            raise Unsupported('more than two pairs')
        p = pairs[n[0]]
        n[0] += 1
        return p

    def res(ex, nm, a, st):
        '''the resolved style (verified: E01)'''
        ex.oblige('the reference alone, among the shared styles given, is resolved', st.cond, And(Eq(h.str(st, a[1]), u), Eq(h.ptr(st, a[2]).obj, 0), ptr_eq(a[3], mp)))
        st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(LOOK(zi(a[6])), 0))

    def clear(ex, nm, a, st):
        '''no element has an id any more (verified: ClearIds, E02)'''
        h.rec('ids cleared', lambda st, a: (h.ptr(st, a[0]),))(ex, nm, a, st)
        return a[0]

    def cast(ex, nm, a, st):
        '''a Style is a StyleSelector (verified: D05)'''
        st.mem = ex.m.store(st.mem, a[0], 'ptr', h.ptr(st, a[1]))
    h.on(r'^kmldom::StyleMap::add_pair', 'pair added', lambda st, a: (a[0], h.ptr(st, a[1])))
    h.on(r'^kmldom::Pair::set_styleselector', 'style set', lambda st, a: (a[0], h.ptr(st, a[1])))
    h.on(r'^kmldom::Pair::set_key', 'key set', lambda st, a: (a[0], a[1]))
    ex.contracts += [(RX(r'^kmldom::KmlFactory::GetFactory'), lambda ex, nm, a, st: FAC), (RX(r'^kmldom::KmlFactory::CreateStyleMap\(\)'), lambda ex, nm, a, st: SM), (RX(r'^kmldom::KmlFactory::CreatePair\(\)'), pair),
                     (RX(r'^kmlengine::StyleResolver::CreateResolvedStyle\('), res), (RX(r'^kmlengine::ClearIds'), clear), (RX(r'^kmldom::AsStyleSelector'), cast)]
    f = b.fn(r'kmlengine::StyleResolver::CreateResolvedStyleSelector\(')
    ret = ex.alloc(8)
    ex.call(f, [ret, h.strarg(u), mp], st)
    ex.oblige('the answer is the StyleMap', st.cond, ptr_eq(h.ptr(st, ret), SM))
    one = [(True, (SM, p)) for p in pairs]
    h.events('pair added', st, one)
    # which pair has which state is free; each has its own
    k0 = [(True, (p, i)) for i, p in enumerate(pairs)]
    for what, val in (('key set', lambda i: i), ('style set', lambda i: Ptr(LOOK(z3.IntVal(i)), 0))):
        l = h.ev.get(what, [])
        for i in (0, 1):
            ex.oblige('%s for state %d' % (what, i), st.cond, Or(*[And(c, ptr_eq(a[0], pairs[i]), ptr_eq(a[1], val(i)) if isinstance(val(i), Ptr) else Eq(a[1], val(i))) for c, a, _, _ in l]))
        ex.oblige('%s twice' % what, True, len(l) == 2)
    l = h.ev.get('ids cleared', [])
    for i in (0, 1):
        ex.oblige('the ids of style %d are cleared' % i, st.cond, Or(*[And(c, Eq(a[0].obj, LOOK(z3.IntVal(i)))) for c, a, _, _ in l]))
    return h.fin(f)


def run(b, fn, cls):
    """SplitStyles, InlineStyles"""
    h = Ev(b)
    ex, st = h.ex, h.st
    u = z3.Const('kml', ex.S)
    errs = z3.Int('errors')
    res = z3.Int('root')
    ex.axiom(And(res >= 0, errs >= 0))
    h.on(r'^%s::%s\(' % (cls, cls.split('::')[-1]), 'observer made', lambda st, a: (a[0],))
    h.on(r'^kmldom::Parser::Parser|^kmldom::Parser::~Parser|^%s::~' % cls, 'x', lambda st, a: ())
    h.on(r'^kmldom::Parser::AddObserver', 'observer added', lambda st, a: (a[0], a[1]))

    def parse(ex, n, a, st):
        '''parses, reporting to its observers (verified: D07)'''
        h.rec('parsed', lambda st, a: (a[1], h.str(st, a[2]), a[3]))(ex, n, a, st)
        st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(res, 0))
    ex.contracts.append((RX(r'^kmldom::Parser::Parse\('), parse))
    f = b.fn(r'kmlengine::%s\(' % fn)
    ret = ex.alloc(8)
    ex.call(f, [ret, h.strarg(u), Ptr(errs, 0)], st)
    ob = h.ev['observer made'][0][1][0] if h.ev.get('observer made') else NULL
    ps = h.ev['parsed'][0][1][0] if h.ev.get('parsed') else NULL
    h.happens('observer added', True, st, (ps, ob))
    h.happens('parsed', True, st, (ps, u, Ptr(errs, 0)))
    h.before('observer added', 'parsed')
    ex.oblige('what was parsed is the answer', st.cond, Eq(h.ptr(st, ret).obj, res))
    return h.fin(f)


def units(b):
    U = []
    for c in (SP, SI):
        n = c.split('::')[-1]
        U += [Unit(n + '::NewElement', lambda c=c: new_element(b, c)), Unit(n + '::AsNonDocumentFeature', lambda c=c: nondoc(b, c))]
    return U + [Unit('StyleSplitter::CreateStyleSelector', lambda: selector(b)), Unit('StyleSplitter::EndElement', lambda: split_end(b)),
                Unit('StyleInliner::EndElement', lambda: inline_end(b)), Unit('StyleInliner::AddChild', lambda: inline_add(b)), Unit('StyleResolver::CreateResolvedStyleSelector', lambda: resolved(b)),
                Unit('SplitStyles', lambda: run(b, 'SplitStyles', SP)), Unit('InlineStyles', lambda: run(b, 'InlineStyles', SI))]
