"""Copies of elements (property E04): Clone mates the events of the serializer with the steps of the parser."""
from .evlib import *
from .p_parse import ids

MODULE = 'eng'
R_ = 'kmlengine::ElementReplicator'
RR = r'kmlengine::ElementReplicator::'


def creation(h):
    """what the factory gives (verified: D05)"""
    ex = h.ex
    FAC = ex.new_input_obj()
    h.NEW, h.FLD = z3.Function('NEW', I, I), z3.Function('FIELD', I, I)

    def mk(fn):
        def f(ex, n, a, st):
            '''creates the element of that id (verified: D05)'''
            v = fn(zi(a[-1]))
            ex.axiom(v > 0)
            ex.axiom(h.TYPE(v) == zi(a[-1]))
            if len(a) == 3:
                st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(v, 0))
                return None
            return Ptr(v, 0)
        return f
    ex.contracts += [(RX(r'^kmldom::KmlFactory::GetFactory'), lambda ex, n, a, st: FAC), (RX(r'^kmldom::KmlFactory::CreateElementById'), mk(h.NEW)), (RX(r'^kmldom::KmlFactory::CreateFieldById'), mk(h.FLD))]
    h.CLONED = z3.Function('COPIED', I, I)
    ex.contracts.append((RX(r'^kmlbase::Attributes::Clone\('), lambda ex, n, a, st: Ptr(h.CLONED(zi(a[0].obj)), 0)))
    h.on(r'^kmldom::Element::set_char_data', 'text set', lambda st, a: (a[0], h.str(st, a[1])))
    h.on(r'^kmldom::Element::AddUnknownElement', 'unknown content kept', lambda st, a: (a[0], h.str(st, a[1])))
    h.von('AddElement', 'added', lambda st, a: (a[0], h.ptr(st, a[1])))
    h.von('ParseAttributes', 'attributes parsed', lambda st, a: (a[0], a[1]))


def rep(b, least=0):
    """a replicator in the middle of a copy: N elements open, their own text so far"""
    h = Ev(b)
    ex, st = h.ex, h.st
    h.this = h.obj()
    creation(h)
    ctor = b.fn(RR + r'ElementReplicator\(\)')
    ex.contracts.append((RX(r'^kmldom::Serializer::Serializer'), lambda ex, n, a, st: None))
    ex.call(ctor, [h.this], st)
    at = h.at = lambda m: h.this.plus(b.off(R_, m))
    h.stack = at('clone_stack_')
    h.text = lambda s: ex.m.load(s.mem, at('char_data_'), 'str')
    h.unk = lambda s: ex.m.load(s.mem, at('serializing_unknown_'), 'i8')
    h.el = lambda i, s: ex.m.load(s.mem, ex.lib.velem(h.stack, i, 8), 'ptr')
    h.n = lambda s: zi(ex.lib.vsize(h.stack, s))
    ex.oblige('a new replicator holds nothing', st.cond, And(Eq(h.n(st), 0), Eq(h.text(st), h.S.lit(b'')), Eq(h.unk(st), 0)))
    h.N, h.T, h.U = z3.Int('n_open'), z3.Const('own_text', ex.S), z3.Int('in_unknown')
    ex.axiom(And(h.N >= least, h.N < 1 << 30, h.U >= 0, h.U <= 1))
    ex.lib.set_vsize(h.stack, h.N, st)
    st.mem = ex.m.store(st.mem, at('char_data_'), 'str', h.T)
    st.mem = ex.m.store(st.mem, at('serializing_unknown_'), 'i8', h.U)
    h.top = h.el(h.N - 1, st)
    h.par = h.el(h.N - 2, st)
    ex.axiom(z3.Implies(h.N >= 1, And(zi(h.top.obj) > 0, zi(h.top.off) == 0)))
    ex.axiom(z3.Implies(h.N >= 2, And(zi(h.par.obj) > 0, zi(h.par.off) == 0)))
    ex.axiom(Or(h.N >= 1, Eq(h.T, h.S.lit(b''))))
    h.empty = Eq(h.S.len(h.T), 0)
    ex.axiom(Eq(h.empty, Eq(h.T, h.S.lit(b''))))
    h.st0 = copy_(st)
    return h


def same(h, what, n, text=None, unk=None):
    """what stays: the elements below n, the text, the mode"""
    ex, st = h.ex, h.st
    j = z3.Int('j')
    ex.axiom(j >= 0)
    ex.oblige(what + ': the elements open stay', And(st.cond, j < n), ptr_eq(h.el(j, st), h.el(j, h.st0)))
    ex.oblige(what + ': its own text', st.cond, Eq(h.text(st), h.T if text is None else text))
    ex.oblige(what + ': the mode', st.cond, Eq(h.unk(st), h.U if unk is None else unk))


def begin(b):
    h = rep(b)
    ex, st = h.ex, h.st
    t = z3.Int('type_id')
    ex.axiom(And(t >= 0, t < 1 << 20))
    attrs = ex.new_input_obj()
    f = b.fn(RR + r'BeginById\(')
    ex.call(f, [h.this, t, attrs], st)
    own = And(h.N >= 1, Not(h.empty))
    new = Ptr(h.NEW(t), 0)
    ex.oblige('one more element is open', st.cond, Eq(h.n(st), h.N + 1))
    ex.oblige('a new one of that type', st.cond, ptr_eq(h.el(h.N, st), new))
    same(h, 'BeginById', h.N, text=h.S.lit(b''))
    h.happens('attributes parsed', True, st, (new, Ptr(h.CLONED(zi(attrs.obj)), 0)))
    h.happens('text set', own, st, (h.top, h.T))
    h.events('added', st, [(own, (h.top, h.top))])
    h.before('text set', 'added')
    h.happens('unknown content kept', False, st)
    return h.fin(f)


def end(b):
    h = rep(b, 1)
    ex, st = h.ex, h.st
    f = b.fn(RR + r'End\(')
    ex.call(f, [h.this], st)
    own = Not(h.empty)
    two = h.N >= 2
    ex.oblige('the element closed is no longer open, unless it is the root', st.cond, Eq(h.n(st), z3.If(two, h.N - 1, h.N)))
    same(h, 'End', z3.If(two, h.N - 1, h.N), text=h.S.lit(b''))
    h.happens('text set', own, st, (h.top, h.T))
    h.events('added', st, [(own, (h.top, h.top)), (two, (h.par, h.top))])
    h.before('text set', 'added')
    h.happens('unknown content kept', False, st)
    h.happens('attributes parsed', False, st)
    return h.fin(f)


def field(b):
    h = rep(b, 1)
    ex, st = h.ex, h.st
    t = z3.Int('type_id')
    ex.axiom(And(t >= 0, t < 1 << 20))
    v = z3.Const('value', ex.S)
    f = b.fn(RR + r'SaveStringFieldById\(')
    ex.call(f, [h.this, t, h.strarg(v)], st)
    new = Ptr(h.FLD(t), 0)
    ex.oblige('as many elements open', st.cond, Eq(h.n(st), h.N))
    same(h, 'SaveStringFieldById', h.N)
    h.happens('text set', True, st, (new, v))
    h.happens('added', True, st, (h.top, new))
    h.before('text set', 'added')
    h.happens('unknown content kept', False, st)
    h.happens('attributes parsed', False, st)
    return h.fin(f)


def content(b):
    h = rep(b)
    ex, st = h.ex, h.st
    v = z3.Const('content', ex.S)
    f = b.fn(RR + r'SaveContent\(')
    ex.call(f, [h.this, h.strarg(v), z3.Bool('maybe_quote')], st)
    u = h.U != 0
    ex.oblige('as many elements open', st.cond, Eq(h.n(st), h.N))
    same(h, 'SaveContent', h.N, text=z3.If(u, h.T, h.S.cat(h.T, v)))
    h.happens('unknown content kept', And(u, h.N >= 1), st, (h.top, v))
    for w in ('text set', 'added', 'attributes parsed'):
        h.happens(w, False, st)
    return h.fin(f)


def array(b, name, val):
    h = rep(b)
    ex, st = h.ex, h.st
    t = z3.Int('type_id')
    ex.axiom(And(t >= 0, t < 1 << 20))
    f = b.fn(RR + name + r'\(')
    ex.call(f, [h.this, t] + ([z3.Int('count')] if val else []), st)
    ex.oblige('as many elements open', st.cond, Eq(h.n(st), h.N))
    same(h, name, h.N, unk=z3.If(t == ids()['Type_Unknown'], z3.IntVal(val), h.U))
    for w in ('text set', 'added', 'attributes parsed', 'unknown content kept'):
        h.happens(w, False, st)
    return h.fin(f)


def vec3(b, cls=R_, mk=None):
    h = (mk or (lambda b: rep(b, 1)))(b)
    ex, st = h.ex, h.st
    v = ex.new_input_obj()
    COORD = z3.Function('IS_COORDINATES', I, z3.BoolSort())

    def cast(ex, n, a, st):
        '''the element itself if it is a coordinates, else null (verified: D05)'''
        p = h.ptr(st, a[1])
        st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(z3.If(COORD(zi(p.obj)), zi(p.obj), z3.IntVal(0)), p.off))
    ex.contracts.append((RX(r'^kmldom::AsCoordinates'), cast))
    h.on(r'^kmldom::Coordinates::add_vec3', 'tuple added', lambda st, a: (a[0], a[1]))
    f = b.fn(re.escape(cls) + r'::SaveVec3\(')
    ex.call(f, [h.this, v], st)
    h.happens('tuple added', And(COORD(zi(h.top.obj)), getattr(h, 'active', True)), st, (h.top, v))
    for w in ('text set', 'added', 'attributes parsed', 'unknown content kept'):
        h.happens(w, False, st)
    if cls == R_:
        ex.oblige('as many elements open', st.cond, Eq(h.n(st), h.N))
        same(h, 'SaveVec3', h.N)
    return h.fin(f)


def color(b, cls=R_, mk=None):
    h = (mk or (lambda b: rep(b, 1)))(b)
    ex, st = h.ex, h.st
    t = z3.Int('type_id')
    ex.axiom(And(t >= 0, t < 1 << 20))
    c = ex.new_input_obj()
    A = z3.Function('ABGR', I, ex.S)

    def abgr(ex, n, a, st):
        '''the eight hex digits of the colour (verified: V02)'''
        st.mem = ex.m.store(st.mem, a[0], 'str', A(zi(ex.m.load(st.mem, a[1], 'i32'))))
    ex.contracts.append((RX(r'^kmlbase::Color32::to_string_abgr'), abgr))
    h.on('^' + re.escape(cls) + r'::SaveStringFieldById', 'field saved', lambda st, a: (a[0], a[1], h.str(st, a[2])))
    ex.vcontracts['SaveStringFieldById'] = ex.contracts[-1][1]
    f = b.fn(re.escape(cls) + r'::SaveColor\(')
    ex.call(f, [h.this, t, c], st)
    h.happens('field saved', True, st, (h.this, t, A(zi(ex.m.load(h.st0.mem, c, 'i32')))))
    return h.fin(f)


def root_(b):
    h = rep(b)
    ex, st = h.ex, h.st
    f = b.fn(RR + r'root\(')
    ret = ex.alloc(8)
    ex.call(f, [ret, h.this], st)
    r = h.ptr(st, ret)
    ex.oblige('nothing when nothing is open', And(st.cond, h.N == 0), Eq(r.obj, 0))
    ex.oblige('the element on top otherwise', And(st.cond, h.N >= 1), ptr_eq(r, h.top))
    return h.fin(f)


def clone(b):
    h = Ev(b)
    ex, st = h.ex, h.st
    src = z3.Int('element')
    ex.axiom(src >= 0)
    BUILT = z3.Function('BUILT_FROM', I, I)
    ex.axiom(BUILT(src) > 0)
    arg = h.ptrarg(Ptr(src, 0))
    made = []
    ex.contracts.append((RX(r'^kmlengine::ElementReplicator::ElementReplicator'), h.rec('replicator made', lambda st, a: (a[0],))))
    ex.contracts.append((RX(r'^kmlengine::ElementReplicator::~ElementReplicator'), lambda ex, n, a, st: None))
    h.von('Serialize', 'serialized', lambda st, a: (a[0], a[1]))

    def root(ex, n, a, st):
        '''what the events of the element built (verified: the replicator's own units)'''
        h.rec('root taken', lambda st, a: (a[1],))(ex, n, a, st)
        st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(BUILT(src), 0))
    ex.contracts.append((RX(r'^kmlengine::ElementReplicator::root'), root))
    f = b.fn(r'kmlengine::Clone\(')
    ret = ex.alloc(8)
    ex.call(f, [ret, arg], st)
    r = h.ptr(st, ret)
    ex.oblige('no copy of nothing', And(st.cond, src == 0), Eq(r.obj, 0))
    ex.oblige('else the copy built from its events', And(st.cond, src > 0), ptr_eq(r, Ptr(BUILT(src), 0)))
    h.happens('replicator made', src > 0, st)
    rp = h.ev['replicator made'][0][1][0]
    h.happens('serialized', src > 0, st, (Ptr(src, 0), rp))
    h.happens('root taken', src > 0, st, (rp,))
    h.before('replicator made', 'serialized')
    h.before('serialized', 'root taken')
    return h.fin(f)


def inherited(b, cls):
    """the events not overridden are those of the base class: children are visited, groups are children"""
    h = Ev(b)
    ex, st = h.ex, h.st
    this, e = h.obj(), h.obj()
    short = cls.split('::')[-1]
    n = '_ZTVN9kmlengine%d%sE' % (len(short), short)
    if b.m.glob(n) is None:
        raise Unsupported('no vtable of ' + cls)
    st.mem = ex.m.store(st.mem, this, 'ptr', ex.global_ptr(n).plus(16))
    h.von('Serialize', 'serialized', lambda st, a: (a[0], a[1]))
    arg = h.ptrarg(e)
    f = b.fn(r'kmldom::Serializer::SaveElementGroup\(')
    ex.call(f, [this, arg, 0], st)
    h.happens('serialized', True, st, (e, this))
    return h.fin(f)


def units(b):
    return [Unit('ElementReplicator::BeginById', lambda: begin(b)), Unit('ElementReplicator::End', lambda: end(b)), Unit('ElementReplicator::SaveStringFieldById', lambda: field(b)),
            Unit('ElementReplicator::SaveContent', lambda: content(b)), Unit('ElementReplicator::BeginElementArray', lambda: array(b, 'BeginElementArray', 1)),
            Unit('ElementReplicator::EndElementArray', lambda: array(b, 'EndElementArray', 0)), Unit('ElementReplicator::SaveVec3', lambda: vec3(b)),
            Unit('ElementReplicator::SaveColor', lambda: color(b)), Unit('ElementReplicator::root', lambda: root_(b)), Unit('Clone', lambda: clone(b)),
            Unit('a copy visits children and groups', lambda: inherited(b, R_))]
