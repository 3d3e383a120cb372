"""Merging one element into another, and listing the children of an element (property E05)."""
from .evlib import *
from .p_parse import ids
from . import p_clone as C

MODULE = 'eng'
M_ = 'kmlengine::FieldMerger'
MR = r'kmlengine::FieldMerger::'
TOK = 0x100
ALL = ('text set', 'added', 'attributes parsed', 'unknown content kept', 'cleared')


def merger(b):
    """a field merger at some depth of the source"""
    h = Ev(b)
    ex, st = h.ex, h.st
    h.this = h.obj()
    C.creation(h)
    h.T = z3.Int('target')
    ex.axiom(h.T > 0)
    h.top = h.target = Ptr(h.T, 0)
    ex.contracts.append((RX(r'^kmldom::Serializer::Serializer'), lambda ex, n, a, st: None))
    ex.call(b.fn(MR + r'FieldMerger\('), [h.this, h.ptrarg(h.target)], st)
    at = h.at = lambda m: h.this.plus(b.off(M_, m))
    h.depth = lambda s: ex.m.load(s.mem, at('depth_'), 'i32')
    h.same = lambda s: ex.m.load(s.mem, at('same_type_'), 'i8')
    ex.oblige('a new merger is outside its source, with the target given', st.cond, And(Eq(h.depth(st), 0), ptr_eq(h.ptr(st, at('target_')), h.target)))
    h.D, h.Q = z3.Int('depth'), z3.Int('same_type')
    ex.axiom(And(h.D >= 0, h.D < 1 << 30, h.Q >= 0, h.Q <= 1))
    st.mem = ex.m.store(st.mem, at('depth_'), 'i32', h.D)
    st.mem = ex.m.store(st.mem, at('same_type_'), 'i8', h.Q)
    h.active = h.D <= 1
    h.CO = z3.Function('IS_COORDINATES', I, z3.BoolSort())

    def cast(ex, n, a, st):
        '''the element itself if it is a coordinates, else null (verified: D05)'''
        p = h.ptr(st, a[1])
        st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(z3.If(h.CO(zi(p.obj)), zi(p.obj), z3.IntVal(0)), p.off))
    ex.contracts.append((RX(r'^kmldom::AsCoordinates'), cast))
    h.on(r'^kmldom::Coordinates::Clear', 'cleared', lambda st, a: (a[0],))
    h.st0 = copy_(st)
    return h


def stays(h, what, depth=None, same=None):
    ex, st = h.ex, h.st
    ex.oblige(what + ': the depth', st.cond, Eq(h.depth(st), h.D if depth is None else depth))
    ex.oblige(what + ': whether the types agree', st.cond, Eq(h.same(st), h.Q if same is None else same))
    ex.oblige(what + ': the target', st.cond, ptr_eq(h.ptr(st, h.at('target_')), h.target))


def begin(b):
    h = merger(b)
    ex, st = h.ex, h.st
    t = z3.Int('type_id')
    ex.axiom(And(t >= 0, t < 1 << 20))
    attrs = ex.new_input_obj()
    SER, MRG, CPY = z3.Function('ATTRIBUTES_OF', I, I), z3.Function('MERGED', I, I, I), z3.Function('COPY_OF', I, I)
    tok = lambda p, s: zi(ex.m.load(s.mem, p.plus(TOK), 'i64'))

    def put(p, v, s):
        s.mem = ex.m.store(s.mem, p.plus(TOK), 'i64', v)

    def ser(ex, n, a, st):
        '''the attributes the element has now (verified: D02)'''
        put(a[1], SER(zi(a[0].obj)), st)

    def mrg(ex, n, a, st):
        '''sets each of the attributes given (verified: V07)'''
        put(a[0], MRG(tok(a[0], st), zi(a[1].obj)), st)
    ex.vcontracts['SerializeAttributes'] = ser
    ex.contracts = [(RX(r'^kmlbase::Attributes::Clone\('), lambda ex, n, a, st: Ptr(CPY(tok(a[0], st)), 0)), (RX(r'^kmlbase::Attributes::MergeAttributes'), mrg)] + [c for c in ex.contracts if 'Clone' not in c[0].pattern]
    f = b.fn(MR + r'BeginById\(')
    ex.call(f, [h.this, t, attrs], st)
    outer = h.D == 0
    stays(h, 'BeginById', h.D + 1, z3.If(outer, z3.If(t == h.TYPE(h.T), z3.IntVal(1), z3.IntVal(0)), h.Q))
    h.happens('attributes parsed', outer, st, (h.target, Ptr(CPY(MRG(SER(h.T), zi(attrs.obj))), 0)))
    h.happens('cleared', And(outer, h.CO(h.T)), st, (h.target,))
    for w in ('text set', 'added', 'unknown content kept'):
        h.happens(w, False, st)
    return h.fin(f)


def end(b):
    h = merger(b)
    ex, st = h.ex, h.st
    ex.axiom(h.D >= 1)
    f = b.fn(MR + r'End\(')
    ex.call(f, [h.this], st)
    stays(h, 'End', h.D - 1)
    for w in ALL:
        h.happens(w, False, st)
    return h.fin(f)


def element(b):
    h = merger(b)
    ex, st = h.ex, h.st
    h.von('Serialize', 'serialized', lambda st, a: (a[0],))
    f = b.fn(MR + r'SaveElement\(')
    ex.call(f, [h.this, h.ptrarg(h.obj())], st)
    stays(h, 'SaveElement')
    for w in ALL + ('serialized',):
        h.happens(w, False, st)
    return h.fin(f)


def field(b):
    h = merger(b)
    ex, st = h.ex, h.st
    t = z3.Int('type_id')
    ex.axiom(And(t >= 0, t < 1 << 20))
    v = z3.Const('value', ex.S)
    f = b.fn(MR + r'SaveStringFieldById\(')
    ex.call(f, [h.this, t, h.strarg(v)], st)
    new = Ptr(h.FLD(t), 0)
    stays(h, 'SaveStringFieldById')
    h.happens('text set', h.active, st, (new, v))
    h.happens('added', h.active, st, (h.target, new))
    h.before('text set', 'added')
    for w in ('cleared', 'unknown content kept', 'attributes parsed'):
        h.happens(w, False, st)
    return h.fin(f)


def content(b):
    h = merger(b)
    ex, st = h.ex, h.st
    v = z3.Const('content', ex.S)
    q = z3.Bool('maybe_quote')
    f = b.fn(MR + r'SaveContent\(')
    ex.axiom(Eq(Eq(h.S.len(v), 0), Eq(v, h.S.lit(b''))))
    ex.call(f, [h.this, h.strarg(v), q], st)
    stays(h, 'SaveContent')
    own = And(h.active, h.Q != 0, q, Not(Eq(v, h.S.lit(b''))))
    h.happens('text set', own, st, (h.target, v))
    h.happens('added', own, st, (h.target, h.target))
    h.before('text set', 'added')
    for w in ('cleared', 'unknown content kept', 'attributes parsed'):
        h.happens(w, False, st)
    return h.fin(f)


def fields(b):
    h = Ev(b)
    ex, st = h.ex, h.st
    s, t = z3.Int('source'), z3.Int('target')
    ex.axiom(And(s >= 0, t >= 0))
    h.on(r'^kmlengine::FieldMerger::FieldMerger', 'merger made', lambda st, a: (a[0], h.ptr(st, a[1])))
    ex.contracts.append((RX(r'^kmlengine::FieldMerger::~FieldMerger'), lambda ex, n, a, st: None))
    h.von('Serialize', 'serialized', lambda st, a: (a[0], a[1]))
    f = b.fn(r'kmlengine::MergeFields\(')
    ex.call(f, [h.ptrarg(Ptr(s, 0)), h.ptrarg(Ptr(t, 0))], st)
    go = And(s > 0, t > 0, s != t)
    h.happens('merger made', go, st)
    mp = h.ev['merger made'][0][1][0]
    h.happens('merger made', go, st, (mp, Ptr(t, 0)))
    h.happens('serialized', go, st, (Ptr(s, 0), mp))
    h.before('merger made', 'serialized')
    return h.fin(f)


def elements(b):
    h = Ev(b)
    ex, st = h.ex, h.st
    s, t = z3.Int('source'), z3.Int('target')
    ex.axiom(And(s >= 0, t >= 0))
    ns, nt = z3.Int('n_source'), z3.Int('n_target')
    ex.axiom(And(ns >= 0, nt >= 0, ns < 1 << 40, nt < 1 << 40))
    cnt = ex.alloc(8)
    st.mem = ex.m.store(st.mem, cnt, 'i64', 0)
    SC, TC, FIRST, CL = [z3.Function(x, I, I) for x in ('SOURCE_CHILD', 'TARGET_CHILD', 'FIRST_LIKE', 'COPY')]
    two = And(s > 0, t > 0)
    lists = {}

    def children(ex, n, a, st):
        '''appends the children of the element, in document order (verified: GetChildElements)'''
        e = h.ptr(st, a[0])
        ex.oblige('only the immediate children are listed', st.cond, Not(zb(ex.tobool(a[1]) if hasattr(ex, 'tobool') else a[1])))
        h.rec('children listed', lambda st, a: (e,))(ex, n, a, st)
        ex.oblige('into an empty list', st.cond, Eq(ex.lib.vsize(a[2], st), 0))
        iss = Eq(e.obj, s) if 's' not in lists else False
        if 's' in lists:
            lists['t'] = a[2]
            ex.oblige('then those of the target', st.cond, Eq(e.obj, t))
        else:
            lists['s'] = a[2]
            ex.oblige('first those of the source', st.cond, Eq(e.obj, s))
        k = ns if lists.get('t') is None else nt
        ex.lib.set_vsize(a[2], k, st)
        return k
    ex.contracts.append((RX(r'^kmlengine::GetChildElements'), children))
    src = lambda i, s_: ex.m.load(s_.mem, ex.lib.velem(lists['s'], i, 8), 'ptr')
    tgt = lambda i, s_: ex.m.load(s_.mem, ex.lib.velem(lists['t'], i, 8), 'ptr')
    K = lambda s_: zi(ex.m.load(s_.mem, cnt, 'i64'))

    def facts(s_, k, j):
        """what FIRST_LIKE means for the source child k, at the index j of the target's children"""
        F = FIRST(k)
        p = lambda x: zi(x.obj)
        ty = lambda x: h.TYPE(p(x))
        like = lambda i: ty(tgt(i, s_)) == ty(src(k, s_))
        inr = And(k >= 0, k < ns)
        ex.axiom(z3.Implies(inr, And(F >= 0, F <= nt, p(src(k, s_)) > 0, zi(src(k, s_).off) == 0)))
        ex.axiom(z3.Implies(And(inr, F < nt), And(like(F), p(tgt(F, s_)) > 0)))
        ex.axiom(z3.Implies(And(inr, j >= 0, j < F), Not(like(j))))
        ex.axiom(z3.Implies(And(j >= 0, j < nt), And(p(tgt(j, s_)) > 0, zi(tgt(j, s_).off) == 0)))

    def handled(s_):
        s_.mem = ex.m.store(s_.mem, cnt, 'i64', K(s_) + 1)

    def rec(ex, n, a, st):
        '''the same merge one level down (induction on the depth of the source)'''
        k = K(st)
        ex.oblige('children of the source are taken in turn', st.cond, And(k < ns, ptr_eq(h.ptr(st, a[0]), src(k, st))))
        ex.oblige('each is merged into the first child of its type the target had', st.cond, And(FIRST(k) < nt, ptr_eq(h.ptr(st, a[1]), tgt(FIRST(k), st))))
        handled(st)

    def clone(ex, n, a, st):
        '''a copy (verified: E04)'''
        ex.axiom(CL(zi(h.ptr(st, a[1]).obj)) > 0)
        st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(CL(zi(h.ptr(st, a[1]).obj)), 0))

    def add(ex, n, a, st):
        '''the target takes a child'''
        k = K(st)
        ex.oblige('children of the source are taken in turn', st.cond, k < ns)
        ex.oblige('what is added is a copy of a child the target has no like of, to the target', st.cond, And(FIRST(k) == nt, Eq(a[0].obj, t), Eq(h.ptr(st, a[1]).obj, CL(zi(src(k, st).obj)))))
        handled(st)
    ex.contracts += [(RX(r'^kmlengine::MergeElements'), rec), (RX(r'^kmlengine::Clone\('), clone)]
    ex.vcontracts['AddElement'] = add
    h.on(r'^kmlengine::MergeFields', 'fields merged', lambda st, a: (h.ptr(st, a[0]), h.ptr(st, a[1])))

    def gen(ex, rec):
        c = K
        facts(rec.hdr, K(rec.hdr), z3.IntVal(0))
        ex.add_cand(rec, 'handled in range', lambda x: And(c(x) >= 0, c(x) <= ns))
        ex.add_cand(rec, 'there is one to handle', lambda x: And(c(x) >= 0, c(x) < ns))
        for nm, g, w in rec.ints:
            try:
                v = g(rec.hdr)
            except Unsupported:
                continue
            if not is_z(v) or z3.is_fp(v):
                continue
            facts(rec.hdr, K(rec.hdr), zi(v))
            facts(rec.hdr, zi(v), zi(v))
            ex.add_cand(rec, nm + ' not negative', lambda x, g=g: zi(g(x)) >= 0)
            ex.add_cand(rec, nm + ' up to the children of the target', lambda x, g=g: zi(g(x)) <= nt)
            ex.add_cand(rec, nm + ' up to the first like', lambda x, g=g: zi(g(x)) <= FIRST(c(x)))
            for m in (1, 8):
                ex.add_cand(rec, '%s counts the children handled (%d)' % (nm, m), lambda x, g=g, m=m: zi(g(x)) == m * c(x))
    ex.inv_gens.append(gen)
    f = b.fn(r'kmlengine::MergeElements\(')
    ex.run_function(ex.mod.funcs[f], [h.ptrarg(Ptr(s, 0)), h.ptrarg(Ptr(t, 0))], st)
    ex.oblige('every child of the source is handled', And(st.cond, two), K(st) == ns)
    ex.oblige('nothing happens without both', And(st.cond, Not(two)), K(st) == 0)
    h.happens('fields merged', two, st, (Ptr(s, 0), Ptr(t, 0)), lambda c, a, s_: ex.oblige('fields are merged once the children are', c, K(s_) == ns))
    return h.fin(f)


def find_save(b, cls, method_args):
    """what a finder does with a child"""
    h = Ev(b)
    ex, st = h.ex, h.st
    this = h.obj()
    e = h.obj()
    vec = ex.new_input_obj()
    n = z3.Int('n')
    ex.axiom(And(n >= 0, n < 1 << 40))
    ex.lib.set_vsize(vec, n, st)
    nul = z3.Bool('no_list')
    ISA = z3.Function('ISA', I, I, z3.BoolSort())
    ty = z3.Int('type_id')
    ex.axiom(And(ty >= 0, ty < 1 << 20))
    recurse = z3.Bool('recurse')
    ex.contracts.append((RX(r'^kmldom::Serializer::Serializer'), lambda ex, n, a, st: None))
    R = r'kmlengine::%s::' % cls
    if cls == 'ElementTypeFinder':
        ex.call(b.fn(R + cls), [this, ty, vec], st)
        deep, takes, novec = True, ISA(zi(e.obj), ty), False
    else:
        vp = Ptr(z3.If(nul, z3.IntVal(0), zi(vec.obj)), vec.off)
        ex.call(b.fn(R + cls), [this, recurse, vp], st)
        deep, takes, novec = recurse, True, nul
        ex.oblige('counting starts at nothing', st.cond, Eq(ex.call(b.fn(R + 'get_count'), [this], D.scratch_state(st)), 0))
    ex.vcontracts['IsA'] = lambda ex, nm, a, st: ISA(zi(a[0].obj), zi(a[1]))
    ex.contracts.append((RX(r'^kmldom::Element::IsA'), ex.vcontracts['IsA']))
    h.on(r'^kmldom::Serializer::SaveElement\(', 'visited', lambda st, a: (a[0], h.ptr(st, a[1])))
    st0 = copy_(st)
    f = b.fn(R + r'SaveElement\(')
    ex.call(f, [this, h.ptrarg(e)], st)
    j = z3.Int('j')
    ex.axiom(And(j >= 0, j < n))
    adds = And(takes, Not(novec))
    ex.oblige('it is listed', st.cond, Eq(ex.lib.vsize(vec, st), z3.If(zb(adds), n + 1, n)))
    ex.oblige('last', And(st.cond, adds), ptr_eq(ex.m.load(st.mem, ex.lib.velem(vec, n, 8), 'ptr'), e))
    ex.oblige('those before stay', st.cond, ptr_eq(ex.m.load(st.mem, ex.lib.velem(vec, j, 8), 'ptr'), ex.m.load(st0.mem, ex.lib.velem(vec, j, 8), 'ptr')))
    h.happens('visited', deep, st, (this, e), lambda c, a, s_: ex.oblige('after it was listed', c, Eq(ex.lib.vsize(vec, s_), z3.If(zb(adds), n + 1, n))))
    if cls == 'AllElementFinder':
        ex.oblige('it is counted', st.cond, Eq(ex.call(b.fn(R + 'get_count'), [this], D.scratch_state(st)), 1))
    return h.fin(f)


def find_top(b, fn):
    h = Ev(b)
    ex, st = h.ex, h.st
    e = z3.Int('element')
    v = z3.Int('list')
    ex.axiom(And(e >= 0, v >= 0))
    cls = 'ElementTypeFinder' if fn == 'GetElementsById' else 'AllElementFinder'
    h.on(r'^kmlengine::%s::%s' % (cls, cls), 'finder made', lambda st, a: (a[0], a[1], a[2]))
    ex.contracts.append((RX(r'^kmlengine::%s::~%s' % (cls, cls)), lambda ex, n, a, st: None))
    h.von('Serialize', 'serialized', lambda st, a: (a[0], a[1]))
    COUNT = z3.Int('counted')
    ex.axiom(And(COUNT >= 0, COUNT < 1 << 30))
    h.on(r'^kmlengine::AllElementFinder::get_count', 'count taken', lambda st, a: (a[0],), COUNT)
    f = b.fn(r'kmlengine::%s\(' % fn)
    arg = h.ptrarg(Ptr(e, 0))
    if fn == 'GetElementsById':
        t = z3.Int('type_id')
        ex.axiom(And(t >= 0, t < 1 << 20))
        r = ex.call(f, [arg, t, Ptr(v, 0)], st)
        go, want = And(e > 0, v > 0), t
    else:
        t = z3.Bool('recurse')
        r = ex.call(f, [arg, t, Ptr(v, 0)], st)
        go, want = e > 0, t
        ex.oblige('as many as were counted', And(st.cond, go), Eq(r, COUNT))
        ex.oblige('none of nothing', And(st.cond, Not(go)), Eq(r, 0))
        h.before('serialized', 'count taken')
    h.happens('finder made', go, st)
    fp = h.ev['finder made'][0][1][0]
    h.happens('finder made', go, st, (fp, want, Ptr(v, 0)))
    h.happens('serialized', go, st, (Ptr(e, 0), fp))
    h.before('finder made', 'serialized')
    return h.fin(f)


def units(b):
    return [Unit('FieldMerger::BeginById', lambda: begin(b)), Unit('FieldMerger::End', lambda: end(b)), Unit('FieldMerger::SaveElement', lambda: element(b)), Unit('FieldMerger::SaveStringFieldById', lambda: field(b)),
            Unit('FieldMerger::SaveContent', lambda: content(b)), Unit('FieldMerger::SaveVec3', lambda: C.vec3(b, M_, merger)), Unit('FieldMerger::SaveColor', lambda: C.color(b, M_, merger)),
            Unit('MergeFields', lambda: fields(b)), Unit('MergeElements', lambda: elements(b)), Unit('ElementTypeFinder::SaveElement', lambda: find_save(b, 'ElementTypeFinder', 1)),
            Unit('AllElementFinder::SaveElement', lambda: find_save(b, 'AllElementFinder', 1)), Unit('GetElementsById', lambda: find_top(b, 'GetElementsById')), Unit('GetChildElements', lambda: find_top(b, 'GetChildElements'))]
