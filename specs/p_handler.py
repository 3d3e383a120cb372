"""Parsing: what the SAX callbacks build (property D07)."""
from .baselib import *
from . import domlib as D
from .p_xml import copy_, I
from .p_parse import ids

MODULE = 'dom'
H_ = 'kmldom::KmlHandler'
HR = r'kmldom::KmlHandler::'
LIMIT = 100


class Han:
    """a handler in the middle of a parse, no old-style Schema seen"""
    def __init__(self, b, where):
        self.b = b
        ex = self.ex = D.new_exec(b.dom)
        st = self.st = start(ex)
        S = self.S = ex.lib.str
        self.this = ex.new_input_obj()
        ex.m.private.add(self.this.obj)
        self.obs = ex.new_input_obj()
        at = self.at = lambda m: self.this.plus(b.off(H_, m))
        FAC = ex.new_input_obj()
        ex.contracts.append((RX(r'^kmldom::KmlFactory::GetFactory'), lambda ex, n, a, st: FAC))
        ex.call(b.fn(HR + r'KmlHandler\('), [self.this, self.obs], st)
        self.stack, self.cd = at('stack_'), at('char_data_')
        g = self.g
        ex.oblige('a new handler is at the start', st.cond, And(Eq(ex.lib.vsize(self.stack, st), 0), Eq(ex.lib.vsize(self.cd, st), 0), *[Eq(g(m), 0) for m in ('skip_depth_', 'in_description_', 'nesting_depth_')]))
        self.N, self.M, self.skip, self.desc, self.nest = [z3.Int(x) for x in ('n_open', 'n_text', 'skip', 'in_desc', 'nesting')]
        N, M, skip, desc, nest = self.N, self.M, self.skip, self.desc, self.nest
        ex.axiom(And(N >= 0, M >= 0, N < 1 << 30, M < 1 << 30, skip >= 0, skip < 1 << 30, desc >= 0, desc < 1 << 30, nest >= 0, nest < 1 << 30))
        J = {'known': And(skip == 0, desc == 0, M == N), 'unknown': And(skip > 0, desc == 0, M == N + 1, N >= 1), 'description': And(skip >= desc, desc > 0, M == N, N >= 1)}
        ex.axiom(J[where])
        if where == 'known':
            self.skip = self.desc = 0
        if where == 'unknown':
            self.desc = 0
        ex.lib.set_vsize(self.stack, N, st)
        ex.lib.set_vsize(self.cd, M, st)
        for m, v in (('skip_depth_', self.skip), ('in_description_', self.desc), ('nesting_depth_', nest)):
            st.mem = ex.m.store(st.mem, at(m), 'i32', v)
        self.ev = {}
        self.seq = 0
        ex.logs.append((lambda: {k: len(v) for k, v in self.ev.items()}, lambda x: [v.__delitem__(slice(x.get(k, 0), None)) for k, v in self.ev.items()]))
        self.TYPE = z3.Function('TYPE', I, I)
        ex.vcontracts['Type'] = lambda ex, n, a, st: self.TYPE(zi(a[0].obj))
        ex.contracts.append((RX(r'^XML_StopParser'), self.rec('stop', lambda st, a: (a[1],), 0)))
        ex.contracts.append((RX('^' + HR + 'InsertUnknownStartElement'), self.rec('ustart', lambda st, a: (self.str(st, a[1]), a[2]))))
        ex.contracts.append((RX('^' + HR + 'InsertUnknownEndElement'), self.rec('uend', lambda st, a: (self.str(st, a[1]),))))
        self.st0 = None

    def str(self, st, p):
        return self.ex.m.load(st.mem, p, 'str')

    def ptr(self, st, p):
        return self.ex.m.load(st.mem, p, 'ptr')

    def g(self, m, st=None):
        v = self.ex.m.load((st or self.st).mem, self.at(m), 'i32')
        return v

    def rec(self, what, args, ret=None):
        def h(ex, n, a, st):
            self.seq += 1
            r = ret(st, a) if callable(ret) else ret
            if not ex.suppress:
                self.ev.setdefault(what, []).append((st.cond, args(st, a), self.seq, copy_(st)))
            return r
        h.__doc__ = what
        return h

    def el(self, i, st):
        return self.ex.m.load(st.mem, self.ex.lib.velem(self.stack, i, 8), 'ptr')

    def text(self, i, st):
        return self.ex.m.load(st.mem, self.ex.lib.velem(self.cd, i, 32), 'str')

    def happens(self, what, cond, st, args=None, pred=None):
        """the event happens exactly once when cond holds, with these arguments, and not otherwise"""
        l = self.ev.get(what, [])
        ex = self.ex
        if cond is not False:
            ex.oblige('%s happens when it should' % what, And(st.cond, cond), Or(*[c for c, _, _, _ in l]))
        for k, (c, a, q, s) in enumerate(l):
            ex.oblige('%s happens only when it should' % what, c, cond)
            for c2, _, _, _ in l[k + 1:]:
                ex.oblige('%s happens once' % what, c, Not(And(c, c2)))
            if args is not None:
                ex.oblige('%s: with the right arguments' % what, c, And(*[ptr_eq(x, y) if isinstance(y, Ptr) else Eq(x, y) for x, y in zip(a, args)]))
            if pred is not None:
                pred(c, a, s)

    def state(self, what, st, cond, n=None, m=None, skip=None, desc=None, nest=None):
        ex = self.ex
        c = And(st.cond, cond)
        pr = [('elements open', ex.lib.vsize(self.stack, st), n), ('texts open', ex.lib.vsize(self.cd, st), m), ('skip depth', self.g('skip_depth_', st), skip), ('description depth', self.g('in_description_', st), desc),
              ('nesting depth', self.g('nesting_depth_', st), nest)]
        for nm, x, y in pr:
            if y is not None:
                ex.oblige('%s: %s' % (what, nm), c, Eq(x, y))

    def frame(self, what, st, cond, n, m):
        """the elements below n and the texts below m are untouched"""
        ex = self.ex
        j = z3.Int('j')
        ex.axiom(j >= 0)
        ex.oblige(what + ': open elements stay', And(st.cond, cond, j < zi(n)), ptr_eq(self.el(j, st), self.el(j, self.st0)))
        ex.oblige(what + ': texts stay', And(st.cond, cond, j < zi(m)), Eq(self.text(j, st), self.text(j, self.st0)))

    def fin(self, *fs):
        self.ex.under_contract = [self.b.m.dem[f] for f in fs]
        self.ex.covers = [self.st.cond]
        return self.ex


def strarg(h, v):
    p = h.ex.alloc(32)
    h.st.mem = h.ex.m.store(h.st.mem, p, 'str', v)
    return p


def start_element(b, where):
    h = Han(b, where)
    ex, st, S = h.ex, h.st, h.S
    name = z3.Const('name', ex.S)
    pn = strarg(h, name)
    attrs = ex.new_input_obj()
    na = z3.Int('n_attrs')
    ex.axiom(And(na >= 0, na < 1 << 40))
    ex.lib.set_vsize(attrs, na, st)
    T = ids()
    ID, XT = z3.Function('ID', ex.S, I), z3.Function('XSDTYPE', I, I)
    NEW, FLD, MADE = z3.Function('NEW', I, I), z3.Function('FIELD', I, I), z3.Function('CREATABLE', I, z3.BoolSort())
    ex.axiom(And(ID(name) >= 0, ID(name) < 1 << 20))
    ex.axiom(Or(*[XT(ID(name)) == v for v in xsd_types().values()]))
    isi = T['Type_IconStyleIcon']
    XSD = ex.new_input_obj()
    top0 = h.el(h.N - 1, st)
    for i in (ID(name), z3.IntVal(isi)):
        ex.axiom(z3.Implies(MADE(i), And(NEW(i) != 0, h.TYPE(NEW(i)) == i)))
        ex.axiom(And(FLD(i) != 0, h.TYPE(FLD(i)) == i))
    ex.axiom(MADE(isi))

    def mk(fn, cond=None):
        def f(ex, n, a, st):
            '''creates the element of that id (verified: D05)'''
            i = zi(a[-1])
            v = fn(i)
            if cond is not None:
                v = z3.If(cond(i), v, z3.IntVal(0))
            if len(a) == 3:
                st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(v, 0))
                return None
            return Ptr(v, 0)
        return f
    AT = ex.new_input_obj()
    ok = z3.Bool('observers_agree')
    ex.contracts += [(RX(r'^kmldom::Xsd::GetSchema'), lambda ex, n, a, st: XSD),
                     (RX(r'^kmldom::Xsd::ElementId'), lambda ex, n, a, st: ID(h.str(st, a[1]))),
                     (RX(r'^kmldom::Xsd::ElementType'), lambda ex, n, a, st: XT(zi(a[1]))),
                     (RX(r'^kmldom::KmlFactory::CreateElementById'), mk(NEW, MADE)), (RX(r'^kmldom::KmlFactory::CreateFieldById'), mk(FLD)),
                     (RX(r'^kmlbase::Attributes::Create\('), h.rec('attributes made', lambda st, a: (a[0],), AT)),
                     (RX('^' + HR + 'FindOldSchemaParentName'), lambda ex, n, a, st: None),
                     (RX('^' + HR + 'CallNewElementObservers'), h.rec('observers called', lambda st, a: (h.ptr(st, a[2]),), ok))]
    ex.vcontracts['ParseAttributes'] = h.rec('attributes parsed', lambda st, a: (a[0], a[1]))
    h.st0 = copy_(st)
    f = b.fn(HR + r'StartElement\(')
    ex.call(f, [h.this, pn, attrs], st)
    deep = h.nest + 1 > LIMIT
    isd = Eq(name, S.lit(b'description'))
    stop = deep
    h.state('StartElement', st, True, nest=h.nest + 1)
    h.frame('StartElement', st, deep, h.N, h.M)
    if where != 'known':
        h.state('StartElement within unknown content', st, Not(deep), n=h.N, m=h.M, skip=h.skip + 1, desc=(z3.If(isd, h.desc + 1, h.desc) if where == 'description' else 0))
        h.frame('StartElement within unknown content', st, Not(deep), h.N, h.M)
        h.state('StartElement too deep', st, deep, n=h.N, m=h.M, skip=h.skip, desc=h.desc)
        h.happens('ustart', Not(deep), st, (name, attrs))
        for w in ('observers called', 'attributes parsed'):
            h.happens(w, False, st)
        h.happens('stop', deep, st, (1,))
        return h.fin(f)
    i = ID(name)
    cplx, simple = And(XT(i) == xsd_types()['XSD_COMPLEX_TYPE'], MADE(i)), XT(i) == xsd_types()['XSD_SIMPLE_TYPE']
    known = And(Not(deep), Or(cplx, simple))
    ic = And(h.TYPE(NEW(i)) == T['Type_Icon'], h.N > 0, h.TYPE(zi(top0.obj)) == T['Type_IconStyle'])
    E = Ptr(z3.If(zb(cplx), z3.If(zb(ic), NEW(isi), NEW(i)), FLD(i)), 0)
    isdesc = h.TYPE(E.obj) == T['Type_description']
    ex.axiom(z3.Implies(MADE(i), Not(h.TYPE(NEW(isi)) == T['Type_description'])))
    k1 = And(known, isdesc)
    h.state('StartElement of a known element', st, known, n=h.N + 1, m=h.M + 1)
    h.state('StartElement of a description', st, k1, skip=1, desc=1)
    h.state('StartElement of a known element', st, And(known, Not(isdesc)), skip=0, desc=0)
    ex.oblige('the element pushed is the one of that name', And(st.cond, known), ptr_eq(h.el(h.N, st), E))
    ex.oblige('its text starts out empty', And(st.cond, known), Eq(h.text(h.M, st), S.lit(b'')))
    h.frame('StartElement', st, True, h.N, h.M)
    unk = And(Not(deep), Not(Or(cplx, simple)))
    h.state('StartElement of an unknown root', st, And(unk, h.N == 0), n=h.N, skip=0, desc=0)
    h.state('StartElement of an unknown element', st, And(unk, h.N > 0), n=h.N, m=h.M + 1, skip=1, desc=0)
    h.state('StartElement too deep', st, deep, n=h.N, m=h.M, skip=0, desc=0)
    h.happens('ustart', And(unk, h.N > 0), st, (name, attrs), lambda c, a, s: ex.oblige('the start tag goes to a text of its own', c, And(Eq(ex.lib.vsize(h.cd, s), h.M + 1), Eq(h.text(h.M, s), S.lit(b'')))))
    h.happens('attributes parsed', And(Not(deep), cplx, na > 0), st, (E, AT))
    h.happens('attributes made', And(Not(deep), cplx, na > 0), st, (attrs,))
    h.happens('observers called', known, st, (E,), lambda c, a, s: ex.oblige('observers are called once the element is open', c, And(Eq(ex.lib.vsize(h.stack, s), h.N + 1), ptr_eq(h.el(h.N, s), E))))
    h.happens('stop', Or(deep, And(unk, h.N == 0), And(known, Not(ok))), st, (1,))
    return h.fin(f)


@functools.lru_cache(None)
def xsd_types():
    """values of the enum XsdType, from the compiler"""
    t = '#include "kml/dom/xsd.h"\n' + ''.join('static_assert(0 == 1000000 + (int)kmldom::%s, "%s");\n' % (x, x) for x in ('XSD_UNKNOWN', 'XSD_SIMPLE_TYPE', 'XSD_COMPLEX_TYPE'))
    r = subprocess.run(['clang++', '-std=c++14', '-w', '-fsyntax-only', '-x', 'c++', '-'] + front.INC, input=t, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out = {}
    for m in re.finditer(r"(XSD_\w+)\n.*?evaluates to '0 == (\d+)'", r.stderr, re.S):
        out[m.group(1)] = int(m.group(2)) - 1000000
    if len(out) != 3:
        raise Unsupported('values of XsdType')
    return out


def end_element(b, where):
    h = Han(b, where)
    ex, st, S = h.ex, h.st, h.S
    name = z3.Const('name', ex.S)
    pn = strarg(h, name)
    T = ids()
    isd = Eq(name, S.lit(b'description'))
    ex.axiom(h.nest >= 1)
    if where == 'description':      # the calls of the XML parser are well nested
        ex.axiom(And(z3.Implies(zb(isd), (h.desc == 1) == (h.skip == 1)), z3.Implies(zb(Not(isd)), h.skip > h.desc)))
    top = h.el(h.N - 1, st)
    par = h.el(h.N - 2, st)
    txt = h.text(h.M - 1, st)
    UE = z3.Function('WITH_END_TAG', ex.S, ex.S, ex.S)
    h.ev = {}

    def uend(ex, n, a, st):
        '''appends the end tag to the text on top (verified: InsertUnknownEndElement)'''
        h.rec('uend', lambda st, a: (h.str(st, a[1]),))(ex, n, a, st)
        p = ex.lib.velem(h.cd, zi(ex.lib.vsize(h.cd, st)) - 1, 32)
        st.mem = ex.m.store(st.mem, p, 'str', UE(ex.m.load(st.mem, p, 'str'), h.str(st, a[1])))
    agree_end, agree_add = z3.Bool('observers_let_it_be_added'), z3.Bool('observers_go_on')
    ex.contracts = [(RX('^' + HR + 'InsertUnknownEndElement'), uend)] + [c for c in ex.contracts if 'InsertUnknownEnd' not in c[0].pattern]
    ex.contracts += [(RX(r'^kmldom::Element::AddUnknownElement'), h.rec('unknown content kept', lambda st, a: (a[0], h.str(st, a[1])))),
                     (RX(r'^kmldom::Element::set_char_data'), h.rec('text set', lambda st, a: (a[0], h.str(st, a[1])))),
                     (RX('^' + HR + 'CallEndElementObservers'), h.rec('end observers', lambda st, a: (h.ptr(st, a[2]), h.ptr(st, a[3])), agree_end)),
                     (RX('^' + HR + 'CallAddChildObservers'), h.rec('add observers', lambda st, a: (h.ptr(st, a[2]), h.ptr(st, a[3])), agree_add))]
    ex.vcontracts['AddElement'] = h.rec('add', lambda st, a: (a[0], h.ptr(st, a[1])))
    ex.axiom(z3.Implies(h.N >= 1, Not(Eq(top.obj, 0))))
    ex.axiom(z3.Implies(h.N >= 2, And(Not(Eq(par.obj, 0)), Not(ptr_eq(par, top)))))
    h.st0 = copy_(st)
    f = b.fn(HR + r'EndElement\(')
    ex.call(f, [h.this, pn], st)
    h.state('EndElement', st, True, nest=h.nest - 1)
    if where == 'known':
        closes, dead = h.N >= 1, h.N == 0
    elif where == 'description':
        closes, dead = And(isd, h.desc == 1), False
    else:
        closes, dead = False, False
    within = And(Not(closes), Not(dead))
    d1 = z3.If(zb(isd), h.desc - 1, h.desc) if where == 'description' else 0
    if where != 'known':
        h.state('EndElement within unknown content', st, within, n=h.N, skip=h.skip - 1, desc=d1, m=z3.If(h.skip == 1, h.M - 1, h.M))
        h.happens('uend', within, st, (name,))
        h.happens('unknown content kept', And(within, h.skip == 1), st, (top, S.cat(UE(txt, name), S.lit(b'\n'))))
        h.frame('EndElement within unknown content', st, within, h.N, h.M - 1)
        ex.oblige('the text of unknown content grows', And(st.cond, within, h.skip > 1), Eq(h.text(h.M - 1, st), UE(txt, name)))
    else:
        h.happens('uend', False, st)
        h.happens('unknown content kept', False, st)
    own = Or(*[h.TYPE(zi(top.obj)) == T['Type_' + x] for x in ('coordinates', 'Snippet', 'linkSnippet', 'SimpleData')])
    h.state('EndElement of an element', st, closes, n=z3.If(h.N >= 2, h.N - 1, h.N), m=h.M - 1, skip=0, desc=0)
    h.frame('EndElement of an element', st, closes, z3.If(h.N >= 2, h.N - 1, h.N), h.M - 1)
    h.happens('text set', closes, st, (top, txt))
    two = And(closes, h.N >= 2)
    h.happens('end observers', two, st, (par, top))
    h.happens('add observers', two, st, (par, top))
    h.happens('stop', And(two, Not(agree_add)), st, (1,))
    # an element that reads its own text; and the parent taking it
    l = h.ev.get('add', [])
    selfs = [(c, a, q) for c, a, q, s in l]
    own_add = Or(*[And(c, ptr_eq(a[0], top), ptr_eq(a[1], top)) for c, a, q in selfs])
    par_add = Or(*[And(c, ptr_eq(a[0], par), ptr_eq(a[1], top)) for c, a, q in selfs])
    ex.oblige('an element with text of its own reads it', And(st.cond, closes, own), own_add)
    ex.oblige('the parent takes the element', And(st.cond, two, agree_end), par_add)
    tx = min([q for c, a, q, s in h.ev.get('text set', [])], default=0)
    ob = [q for c, a, q, s in h.ev.get('end observers', [])] + [0]
    for k, (c, a, q) in enumerate(selfs):
        is_own, is_par = And(ptr_eq(a[0], top), ptr_eq(a[1], top), closes, own), And(ptr_eq(a[0], par), ptr_eq(a[1], top), two, agree_end)
        ex.oblige('nothing else is added', c, Or(is_own, is_par))
        ex.oblige('its text is set first', c, q > tx)
        ex.oblige('the observers decide first whether the parent takes it', And(c, Not(is_own)), q > ob[0])
        for c2, a2, q2 in selfs[k + 1:]:
            ex.oblige('it is added once', c, Not(And(c, c2, ptr_eq(a[0], a2[0]))))
            ex.oblige('it reads its text before the parent takes it', And(c2, is_own if False else ptr_eq(a2[0], top)), q2 < q if False else Not(And(c, ptr_eq(a[0], par))))
    return h.fin(f)


def observers(b, what, meth, nargs):
    h = Han(b, 'known')
    ex, st = h.ex, h.st
    f = b.fn(HR + r'%s\(' % what)
    n = z3.Int('n_observers')
    ex.axiom(And(n >= 0, n < 1 << 40))
    ex.lib.set_vsize(h.obs, n, st)
    el = [ex.alloc(8) for _ in range(nargs)]
    vals = [ex.input_ptr('element%d' % i) for i in range(nargs)]
    for p, v in zip(el, vals):
        st.mem = ex.m.store(st.mem, p, 'ptr', v)
    cnt = ex.alloc(8)
    st.mem = ex.m.store(st.mem, cnt, 'i64', 0)
    RES = z3.Function('RESULT', I, z3.BoolSort())
    obs = lambda i: ex.m.load(h.st0.mem, ex.lib.velem(h.obs, i, 8), 'ptr')

    def call(ex, nm, a, st):
        '''application code: any answer'''
        k = ex.m.load(st.mem, cnt, 'i64')
        ex.oblige('the observers are called in turn', st.cond, ptr_eq(a[0], obs(k)))
        for x, v in zip(a[1:], vals):
            ex.oblige('with the elements given', st.cond, ptr_eq(h.ptr(st, x), v))
        st.mem = ex.m.store(st.mem, cnt, 'i64', zi(k) + 1)
        return RES(zi(k))
    ex.vcontracts[meth] = call
    h.st0 = copy_(st)
    j = z3.Int('j')
    ex.axiom(And(j >= 0, j < n))

    def gen(ex, rec):
        c = lambda t: zi(ex.m.load(t.mem, cnt, 'i64'))
        ex.add_cand(rec, 'all before agreed', lambda t: z3.Implies(j < c(t), RES(j)))
        ex.add_cand(rec, 'called in range', lambda t: And(c(t) >= 0, c(t) <= n))
        for nm, g, w in rec.ints:
            try:
                g(rec.hdr)
            except Unsupported:
                continue
            for m in (1, 8):
                ex.add_cand(rec, '%s counts the calls (%d)' % (nm, m), lambda t, g=g, m=m: zi(g(t)) - m * c(t) == zi(g(rec.entry)))
    ex.inv_gens.append(gen)
    r = ex.call(f, [h.this, h.obs] + el, st)
    c = zi(ex.m.load(st.mem, cnt, 'i64'))
    ex.oblige('true means all observers were called and agreed', And(st.cond, r), And(c == n, RES(j)))
    ex.oblige('false means the last one called did not agree', And(st.cond, Not(r)), And(c >= 1, c <= n, Not(RES(c - 1)), z3.Implies(j < c - 1, RES(j))))
    return h.fin(f)


def chardata(b):
    out = []
    for where in ('known', 'unknown', 'description'):
        def g(where=where):
            h = Han(b, where)
            ex, st, S = h.ex, h.st, h.S
            ex.axiom(h.M >= 1)
            v = z3.Const('s', ex.S)
            p = strarg(h, v)
            E = z3.Function('ESCAPED', ex.S, ex.S)

            def esc(ex, n, a, st):
                '''appends the escaped text (verified: AppendEscaped)'''
                st.mem = ex.m.store(st.mem, a[2], 'str', S.cat(h.str(st, a[2]), E(h.str(st, a[0]))))
                ex.oblige('escaped as character data', st.cond, Not(zb(ex.tobool(a[1]) if hasattr(ex, 'tobool') else a[1])))
            ex.contracts.append((RX(r'^kmldom::AppendEscaped'), esc))
            txt = h.text(h.M - 1, st)
            h.st0 = copy_(st)
            f = b.fn(HR + r'CharData\(')
            ex.call(f, [h.this, p], st)
            h.state('CharData', st, True, n=h.N, m=h.M, skip=h.skip, desc=h.desc, nest=h.nest)
            h.frame('CharData', st, True, h.N, h.M - 1)
            ex.oblige('the text grows by the characters', st.cond, Eq(h.text(h.M - 1, st), S.cat(txt, E(v) if where == 'unknown' else v)))
            return h.fin(f)
        out.append(Unit('CharData in %s content' % where, g))
    return out


def poproot(b):
    h = Han(b, 'known')
    ex, st = h.ex, h.st
    ret = ex.alloc(8)
    top = h.el(h.N - 1, st)
    h.st0 = copy_(st)
    f = b.fn(HR + r'PopRoot\(')
    ex.call(f, [ret, h.this], st)
    r = h.ptr(st, ret)
    ex.oblige('the root is handed over when it alone is left', And(st.cond, h.N == 1), ptr_eq(r, top))
    ex.oblige('it is no longer held', And(st.cond, h.N == 1), Eq(ex.lib.vsize(h.stack, st), 0))
    ex.oblige('nothing otherwise', And(st.cond, h.N != 1), And(Eq(r.obj, 0), Eq(ex.lib.vsize(h.stack, st), h.N)))
    return h.fin(f)


def uend_unit(b):
    h = Han(b, 'unknown')
    ex, st, S = h.ex, h.st, h.S
    ex.contracts = []
    v = z3.Const('name', ex.S)
    p = strarg(h, v)
    txt = h.text(h.M - 1, st)
    h.st0 = copy_(st)
    f = b.fn(HR + r'InsertUnknownEndElement\(')
    ex.call(f, [h.this, p], st)
    h.state('InsertUnknownEndElement', st, True, n=h.N, m=h.M, skip=h.skip, desc=h.desc, nest=h.nest)
    h.frame('InsertUnknownEndElement', st, True, h.N, h.M - 1)
    ex.oblige('the end tag is appended', st.cond, Eq(h.text(h.M - 1, st), S.cat(txt, S.cat(S.lit(b'</'), S.cat(v, S.lit(b'>'))))))
    return h.fin(f)


def ustart_unit(b):
    h = Han(b, 'unknown')
    ex, st, S = h.ex, h.st, h.S
    ex.contracts = []
    v = z3.Const('name', ex.S)
    p = strarg(h, v)
    at = ex.new_input_obj()
    n = z3.Int('n_attrs')
    ex.axiom(And(n >= 0, n < 1 << 40))
    ex.lib.set_vsize(at, 2 * n, st)
    V = z3.Function('ESCAPED_ATTR', ex.S, ex.S)
    P = z3.Function('ATTRS', I, ex.S)
    txt = h.text(h.M - 1, st)
    O = S.cat(txt, S.cat(S.lit(b'<'), v))
    h.st0 = copy_(st)

    def esc(ex, nm, a, st):
        '''appends the escaped text (verified: AppendEscaped)'''
        st.mem = ex.m.store(st.mem, a[2], 'str', S.cat(h.str(st, a[2]), V(h.str(st, a[0]))))
        ex.oblige('escaped as an attribute value', st.cond, zb(a[1]))
    ex.contracts.append((RX(r'^kmldom::AppendEscaped'), esc))
    get = lambda t: h.text(h.M - 1, t)
    item = lambda i: ex.m.load(h.st0.mem, ex.lib.velem(at, i, 32), 'str')
    ex.axiom(And(P(0) == S.lit(b''), S.fcat(O, P(0)) == O))

    def gen(ex, rec):
        for nm, g, w in rec.ints:
            try:
                k = g(rec.hdr)
                base = get(rec.hdr)
            except Unsupported:
                continue
            if is_z(k):
                one = S.cat(S.lit(b' '), S.cat(item(k), S.cat(S.lit(b'="'), S.cat(V(item(zi(k) + 1)), S.lit(b'"')))))
                ex.axiom(z3.Implies(base == S.fcat(O, P(zi(k))), S.fcat(base, one) == S.fcat(O, P(zi(k) + 2))))
            ex.add_cand(rec, nm + ' attributes written', lambda t, g=g: Eq(get(t), S.fcat(O, P(zi(g(t))))))
            ex.add_cand(rec, nm + ' in range', lambda t, g=g: And(zi(g(t)) >= 0, zi(g(t)) <= 2 * n))
            ex.add_cand(rec, nm + ' even', lambda t, g=g: zi(g(t)) % 2 == 0)
    ex.inv_gens.append(gen)
    f = b.fn(HR + r'InsertUnknownStartElement\(')
    ex.call(f, [h.this, p, at], st)
    h.state('InsertUnknownStartElement', st, True, n=h.N, m=h.M, skip=h.skip, desc=h.desc, nest=h.nest)
    h.frame('InsertUnknownStartElement', st, True, h.N, h.M - 1)
    r = h.text(h.M - 1, st)
    ex.oblige('the start tag with all its attributes is appended', st.cond, Eq(r, S.fcat(S.fcat(O, P(2 * n)), S.lit(b'>'))))
    return h.fin(f)


def append_escaped(b, attr):
    from .p_xml import escp_fn
    tab = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;', '\r': '&#13;'}
    if attr:
        tab.update({'\n': '&#10;', '\t': '&#9;'})
    ex = D.new_exec(b.dom)
    st = start(ex)
    S = ex.lib.str
    f = b.fn(r'kmldom::AppendEscaped\(')
    v, O = z3.Const('value', ex.S), z3.Const('O', ex.S)
    p, o = ex.alloc(32), ex.alloc(32)
    st.mem = ex.m.store(st.mem, p, 'str', v)
    st.mem = ex.m.store(st.mem, o, 'str', O)
    F = z3.Function('ESC', ex.S, I, ex.S)
    ex.axiom(And(F(v, 0) == S.lit(b''), S.fcat(O, F(v, 0)) == O))
    get = lambda t: ex.m.load(t.mem, o, 'str')

    def gen(ex, rec):
        for nm, g, w in rec.ints:
            try:
                k = g(rec.hdr)
            except Unsupported:
                continue
            if is_z(k):
                c = S.at(v, k)
                prev, nxt = S.fcat(O, F(v, zi(k))), S.fcat(O, F(v, zi(k) + 1))
                cs = And(zi(k) >= 0, zi(k) < zi(S.len(v)))
                for x in '&<>"\'\r\n\t':
                    y = tab.get(x, x)
                    ex.axiom(z3.Implies(And(cs, Eq(c, ord(x))), S.fcat(prev, S.lit(y.encode())) == nxt))
                ex.axiom(z3.Implies(And(cs, *[Not(Eq(c, ord(x))) for x in tab]), S.fcat(prev, S.byte(c)) == nxt))
            ex.add_cand(rec, nm + ' characters consumed', lambda t, g=g: Eq(get(t), S.fcat(O, F(v, zi(g(t))))))
            ex.add_cand(rec, nm + ' in range', lambda t, g=g: And(zi(g(t)) >= 0, zi(g(t)) <= zi(S.len(v))))
    ex.inv_gens.append(gen)
    ex.call(f, [p, attr, o], st)
    ex.oblige('each character is kept as itself or as its entity', st.cond, Eq(get(st), S.fcat(O, F(v, zi(S.len(v))))))
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def ns(b, meth):
    ex = D.new_exec(b.dom)
    st = start(ex)
    S = ex.lib.str
    this, at = ex.new_input_obj(), ex.new_input_obj()
    v = z3.Const('name', ex.S)
    p = ex.alloc(32)
    st.mem = ex.m.store(st.mem, p, 'str', v)
    log = ex.newlog()
    ex.contracts.append((RX('^' + HR + meth), lambda ex, n, a, st: log.append((st.cond, a, ex.m.load(st.mem, a[1], 'str')))))
    j = z3.Int('j')
    ex.axiom(And(j >= 0, j < zi(S.len(v))))
    ex.probes.append(j)
    f = b.fn(r'kmldom::KmlHandlerNS::%s\(' % meth)
    ex.call(f, [this, p] + ([at] if meth == 'StartElement' else []), st)
    ex.oblige('handed on once', st.cond, And(len(log) == 1, *[c for c, a, s in log]))
    for c, a, s in log:
        k = zi(S.len(v)) - zi(S.len(s))
        ex.oblige('the local name: from behind the last separator', c, And(k >= 0, Eq(s, S.sub(v, k, -1)), Or(k == 0, Eq(S.at(v, k - 1), ord('|'))), z3.Implies(j >= k, Not(Eq(S.at(v, j), ord('|'))))))
        ex.oblige('the rest as it is', c, And(ptr_eq(a[0], this), *([ptr_eq(a[2], at)] if meth == 'StartElement' else [])))
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def parse(b, meth, nsaware):
    ex = D.new_exec(b.dom)
    st = start(ex)
    S = ex.lib.str
    ret, this, kml, err = ex.alloc(8), ex.new_input_obj(), ex.alloc(32), ex.input_ptr('errors', nonnull=False)
    v = z3.Const('kml', ex.S)
    st.mem = ex.m.store(st.mem, kml, 'str', v)
    ok = z3.Bool('well_formed')
    root_ = ex.input_ptr('root', nonnull=False)
    log, hs = ex.newlog(), []

    def mkh(ex, n, a, st):
        '''a new handler (verified: KmlHandler)'''
        hs.append(a[0])
        ex.oblige('the observers of this parser', st.cond, ptr_eq(a[1], this))
    ex.contracts += [(RX(r'^kmldom::KmlHandler(NS)?::KmlHandler(NS)?\('), mkh), (RX(r'^kmldom::KmlHandler(NS)?::~'), lambda ex, n, a, st: None),
                     (RX(r'^kmlbase::ExpatParser::(~|ExpatParser\()'), lambda ex, n, a, st: None)]

    def ps(ex, n, a, st):
        '''true when the whole text was parsed (verified: ExpatParser)'''
        ex.oblige('the text given is parsed, by the handler made', st.cond, And(Eq(ex.m.load(st.mem, a[0], 'str'), v), Or(*[ptr_eq(a[1], x) for x in hs]), ptr_eq(a[2], err)))
        ex.oblige('namespace mode', st.cond, zb(a[3]) == nsaware if is_z(a[3]) else bool(a[3]) == nsaware)
        log.append(('parse', st.cond))
        return ok

    def pr(ex, n, a, st):
        '''the root when it is complete, or null (verified: PopRoot)'''
        ex.oblige('the root of that handler', st.cond, Or(*[ptr_eq(a[1], x) for x in hs]))
        st.mem = ex.m.store(st.mem, a[0], 'ptr', root_)
    ex.contracts += [(RX(r'^kmlbase::ExpatParser::ParseString'), ps), (RX('^' + HR + 'PopRoot'), pr)]
    f = b.fn(r'kmldom::Parser::%s\(' % meth)
    ex.call(f, [ret, this, kml, err], st)
    r = ex.m.load(st.mem, ret, 'ptr')
    ex.oblige('a text that parses gives its root', And(st.cond, ok), ptr_eq(r, root_))
    ex.oblige('a text that does not parse gives nothing', And(st.cond, Not(ok)), Eq(r.obj, 0))
    ex.oblige('the text is parsed once', st.cond, And(len(log) == 1, *[c for _, c in log]))
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def to_string(b, counted):
    """xml_char_to_string, xml_char_to_string_n: the characters as they are"""
    ex = D.new_exec(b.dom)
    st = start(ex)
    S = ex.lib.str
    f = b.fn(r'(kmlbase::)?xml_char_to_string%s\(' % ('_n' if counted else ''))
    ret, p = ex.alloc(32), ex.new_input_obj()
    n, j = z3.Int('n'), z3.Int('j')
    ex.axiom(And(n >= 0, n < 1 << 40, j >= 0, j < n))
    st0 = copy_(st)
    ch = lambda i: ex.m.load(st0.mem, p.plus(i), 'i8')
    if not counted:         # the terminator is at n
        ex.axiom(And(Eq(ch(n), 0), Not(Eq(ch(j), 0))))
    get = lambda t: ex.m.load(t.mem, ret, 'str')

    def gen(ex, rec):
        for nm, g, w in rec.ints:
            try:
                v = g(rec.hdr)
            except Unsupported:
                continue
            if is_z(v) and not counted:
                ex.axiom(z3.Implies(And(zi(v) >= 0, zi(v) < n), Not(Eq(ch(v), 0))))
            for how, k in (('done', lambda x: zi(x)), ('left', lambda x: n - zi(x))):
                ex.add_cand(rec, '%s %s: length' % (nm, how), lambda t, g=g, k=k: And(k(g(t)) >= 0, k(g(t)) <= n, zi(S.len(get(t))) == k(g(t))))
        ex.add_cand(rec, 'characters so far', lambda t: z3.Implies(j < zi(S.len(get(t))), Eq(S.at(get(t), j), ch(j))))
    ex.inv_gens.append(gen)
    ex.call(f, [ret, p] + ([n] if counted else []), st)
    r = get(st)
    ex.oblige('as many characters', st.cond, Eq(S.len(r), n))
    ex.oblige('the characters as they are', st.cond, Eq(S.at(r, j), ch(j)))
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def to_vec(b):
    ex = D.new_exec(b.dom)
    st = start(ex)
    S = ex.lib.str
    f = b.fn(r'(kmlbase::)?xml_char_to_string_vec\(')
    inp, vec = ex.new_input_obj(), ex.new_input_obj()
    ex.m.private.add(vec.obj)
    ex.lib.set_vsize(vec, 0, st)
    n, j = z3.Int('n'), z3.Int('j')
    ex.axiom(And(n >= 0, n < 1 << 40, j >= 0, j < 2 * n))
    st0 = copy_(st)
    item = lambda i: ex.m.load(st0.mem, inp.plus(ex.mul_c(i, 8)), 'ptr')
    TXT = z3.Function('TEXT', I, I, ex.S)
    tx = lambda p: TXT(zi(p.obj), zi(p.off))

    def conv(ex, nm, a, st):
        '''the text as it is (verified: xml_char_to_string)'''
        st.mem = ex.m.store(st.mem, a[0], 'str', tx(a[1]))
    ex.contracts.append((RX(r'^(kmlbase::)?xml_char_to_string\('), conv))
    ex.axiom(And(Eq(item(2 * n).obj, 0)))
    size = lambda t: zi(ex.lib.vsize(vec, t))
    el = lambda t: ex.m.load(t.mem, ex.lib.velem(vec, j, 32), 'str')

    def gen(ex, rec):
        k = size(rec.hdr)
        ex.axiom(z3.Implies(And(k >= 0, k < 2 * n), Not(Eq(item(k).obj, 0))))
        for nm, g, w in rec.ints:
            try:
                g(rec.hdr)
            except Unsupported:
                continue
            ex.add_cand(rec, nm + ' counts the items', lambda t, g=g: zi(g(t)) == 8 * size(t))
        ex.add_cand(rec, 'items in range', lambda t: And(size(t) >= 0, size(t) <= 2 * n))
        ex.add_cand(rec, 'pairs', lambda t: size(t) % 2 == 0)
        ex.add_cand(rec, 'items so far', lambda t: z3.Implies(j < size(t), Eq(el(t), tx(item(j)))))
    ex.inv_gens.append(gen)
    ex.call(f, [inp, vec], st)
    ex.oblige('as many items', st.cond, size(st) == 2 * n)
    ex.oblige('each item in its place', st.cond, Eq(el(st), tx(item(j))))
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def callbacks(b):
    ex = D.new_exec(b.dom)
    st = start(ex)
    S = ex.lib.str
    TXT = z3.Function('TEXT', I, I, ex.S)
    TXN = z3.Function('TEXT_N', I, I, I, ex.S)

    def conv(ex, n, a, st):
        '''the text as it is (verified: xml_char_to_string)'''
        st.mem = ex.m.store(st.mem, a[0], 'str', TXT(zi(a[1].obj), zi(a[1].off)))

    def convn(ex, n, a, st):
        '''the first n characters (verified: xml_char_to_string_n)'''
        st.mem = ex.m.store(st.mem, a[0], 'str', TXN(zi(a[1].obj), zi(a[1].off), zi(a[2])))
    vec = []

    def convv(ex, n, a, st):
        '''the names and values in turn (verified: xml_char_to_string_vec)'''
        vec.append((a[0], a[1]))
    ex.contracts += [(RX(r'^(kmlbase::)?xml_char_to_string_vec'), convv), (RX(r'^(kmlbase::)?xml_char_to_string_n'), convn), (RX(r'^(kmlbase::)?xml_char_to_string\('), conv)]
    h, x, y = ex.new_input_obj(), ex.new_input_obj(), ex.new_input_obj()
    log = ex.newlog()
    for m in ('StartElement', 'EndElement', 'CharData', 'StartNamespace', 'EndNamespace'):
        ex.vcontracts[m] = lambda ex, n, a, st, m=m: log.append((m, st.cond, a, ex.m.load(st.mem, a[1], 'str'), copy_(st)))
    und = []
    ln = z3.Int('length')
    ex.axiom(And(ln >= 0, ln < 1 << 31))
    tx = lambda p: TXT(zi(p.obj), zi(p.off))
    for fn, m, args, want in (('startElement', 'StartElement', [h, x, y], tx(x)), ('endElement', 'EndElement', [h, x], tx(x)), ('charData', 'CharData', [h, x, ln], TXN(zi(x.obj), zi(x.off), ln)),
                              ('startNamespace', 'StartNamespace', [h, x, y], tx(x)), ('endNamespace', 'EndNamespace', [h, x], tx(x))):
        f = b.fn(r'kmlbase::%s\(' % fn)
        del log[:]
        s = copy_(st)
        ex.call(f, args, s)
        ex.oblige(fn + ' calls the handler once', s.cond, And(len(log) == 1, *[And(c, l == m) for l, c, a, v, t in log]))
        for l, c, a, v, t in log:
            ex.oblige(fn + ' hands on its text', c, And(ptr_eq(a[0], h), Eq(v, want)))
            if fn == 'startNamespace':
                ex.oblige(fn + ' hands on the uri', c, Eq(ex.m.load(t.mem, a[2], 'str'), tx(y)))
            if fn == 'startElement':
                ex.oblige(fn + ' hands on the attributes', c, And(len(vec) == 1, *[And(ptr_eq(p, y), ptr_eq(q, a[2])) for p, q in vec]))
        und.append(b.m.dem[f])
    st_ = []
    ex.contracts.append((RX('^XML_StopParser'), lambda ex, n, a, st: st_.append(st.cond) or 1))
    f = b.fn(r'kmlbase::entityDeclHandler\(')
    s = copy_(st)
    z = Ptr(0, 0)
    ex.call(f, [h, x, 0, x, 0, z, z, z, z], s)
    ex.oblige('a document that declares entities is stopped', s.cond, Or(*st_))
    und.append(b.m.dem[f])
    ex.under_contract = und
    ex.covers = [st.cond]
    return ex


def parse_string(b):
    ex = D.new_exec(b.dom)
    st = start(ex)
    S = ex.lib.str
    f = b.fn(r'kmlbase::ExpatParser::_ParseString\(')
    this, p, err = ex.new_input_obj(), ex.alloc(32), ex.input_ptr('errors', nonnull=False)
    v = z3.Const('xml', ex.S)
    st.mem = ex.m.store(st.mem, p, 'str', v)
    ex.axiom(zi(S.len(v)) < 1 << 31)
    status = z3.Int('status')
    ex.axiom(And(status >= 0, status <= 2))
    log, rep = ex.newlog(), []

    def xp(ex, n, a, st):
        '''expat'''
        log.append(st.cond)
        ex.oblige('the whole text is parsed, as the final part', st.cond, And(Eq(ex.lib.cstr_of(a[1], st), v), Eq(a[2], S.len(v)), Eq(a[3], 1)))
        return status

    def re_(ex, n, a, st):
        '''puts a message in errors if that is not null'''
        rep.append(st.cond)
        ex.oblige('the message goes where it was asked for', st.cond, ptr_eq(a[-1], err))
    ex.contracts += [(RX('^XML_Parse$'), xp), (RX(r'^kmlbase::ExpatParser::ReportError'), re_)]
    before = ex.m.load(st.mem, err, 'str')
    r = ex.call(f, [this, p, err], st)
    ex.oblige('true exactly when expat accepted the text', st.cond, zb(r) == (status == 1))
    ex.oblige('parsed once', st.cond, And(len(log) == 1, *log))
    nn = Not(Eq(err.obj, 0))
    ex.oblige('an error is reported when asked for', And(st.cond, nn, status != 1), Or(Or(*rep) if rep else False, Not(Eq(ex.m.load(st.mem, err, 'str'), before)), Eq(before, S.lit(b'Invalid root element'))))
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def units(dom):
    b = EngMod(dom)
    out = []
    for w in ('known', 'unknown', 'description'):
        out.append(Unit('StartElement in %s content' % w, lambda w=w: start_element(b, w)))
        out.append(Unit('EndElement in %s content' % w, lambda w=w: end_element(b, w)))
    out += chardata(b)
    for what, meth, n in (('CallNewElementObservers', 'NewElement', 1), ('CallEndElementObservers', 'EndElement', 2), ('CallAddChildObservers', 'AddChild', 2)):
        out.append(Unit(what, lambda w=what, m=meth, n=n: observers(b, w, m, n)))
    out += [Unit('PopRoot', lambda: poproot(b)), Unit('InsertUnknownEndElement', lambda: uend_unit(b)), Unit('InsertUnknownStartElement', lambda: ustart_unit(b)),
            Unit('AppendEscaped, text', lambda: append_escaped(b, False)), Unit('AppendEscaped, attribute', lambda: append_escaped(b, True)),
            Unit('KmlHandlerNS::StartElement', lambda: ns(b, 'StartElement')), Unit('KmlHandlerNS::EndElement', lambda: ns(b, 'EndElement')),
            Unit('Parser::Parse', lambda: parse(b, 'Parse', False)), Unit('Parser::ParseNS', lambda: parse(b, 'ParseNS', True))]
    out += [Unit('xml_char_to_string', lambda: to_string(b, False)), Unit('xml_char_to_string_n', lambda: to_string(b, True)), Unit('xml_char_to_string_vec', lambda: to_vec(b)), Unit('expat callbacks', lambda: callbacks(b)), Unit('ExpatParser::_ParseString', lambda: parse_string(b))]
    return out
