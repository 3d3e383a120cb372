"""Applying an Update to a file (property E03)."""
from .evlib import *
from .p_ids import Ids
from .p_split import asbool, field, arg_in

MODULE = 'eng'
UP = 'kmlengine::UpdateProcessor'


class Upd(Ids):
    """an update processor for some file, with or without an id map"""
    def __init__(self, b, mapped=False):
        Ids.__init__(self, b)
        ex, st = self.ex, self.st
        self.this, self.file = self.obj(), self.obj()
        self.idm = ex.new_input_obj() if mapped else NULL
        self.c = b.fn(UP + r'::UpdateProcessor\(')
        ex.call(self.c, [self.this, self.file, self.idm], st)
        self.HASID, self.TID, self.OBJ = z3.Function('HAS_TARGET', I, z3.BoolSort()), z3.Function('TARGET_ID', I, ex.S), z3.Function('OBJECT', ex.S, I)

        def target(ex, n, a, st):
            '''the id the element is meant for, if it names one (verified by its own unit)'''
            o = zi(self.ptr(st, a[1]).obj)
            ex.oblige('on the same processor', st.cond, ptr_eq(a[0], self.this))
            if a[2].obj != 0:
                st.mem = ex.m.store(st.mem, a[2], 'str', z3.If(self.HASID(o), self.TID(o), self.str(st, a[2])))
            return self.HASID(o)

        def byid(ex, n, a, st):
            '''the object of the file with that id, or null (verified: E02)'''
            v = self.str(st, a[2])
            ex.oblige('an object of the file', st.cond, ptr_eq(a[1], self.file))
            ex.axiom(self.OBJ(v) >= 0)
            st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(self.OBJ(v), 0))
        ex.contracts += [(RX('^' + UP + r'::GetTargetId'), target), (RX(r'^kmlengine::KmlFile::GetObjectById'), byid)]


class Each:
    """a loop over the children of an element: what is done to each, in order.
    want(o): is the child o handled.  A ghost cell holds the index of the next child not handled yet."""
    def __init__(self, h, cls, name, want):
        ex, st, b = h.ex, h.st, h.b
        self.h = h
        self.this = h.obj()
        self.f = field(b, cls, name)
        self.n = zi(D.array_size(ex, b.dom, self.f, self.this, st))
        ex.axiom(And(self.n >= 0, self.n < 1 << 40))
        self.want = want
        self.st0 = D.scratch_state(st)
        self.POS = z3.Function('POS', I, I)
        self.cell, self.last = ex.alloc(8), ex.alloc(8)
        self.j = z3.Int('j')                    # any child
        ex.axiom(And(self.j >= 0, self.j < self.n))
        for c in (self.cell,):
            st.mem = ex.m.store(st.mem, c, 'i64', 0)
        st.mem = ex.m.store(st.mem, self.last, 'i64', -1)
        self.fact(self.j)
        ex.inv_gens.append(self.gen)

    def obj(self, i):
        h = self.h
        return D.array_at(h.ex, h.b.dom, self.f, self.this, self.st0, i)

    def fact(self, i):
        p = self.obj(i)
        self.h.ex.axiom(z3.Implies(And(i >= 0, i < self.n), And(zi(p.obj) > 0, zi(p.off) == 0, self.POS(zi(p.obj)) == i)))

    def get(self, c, st):
        return zi(self.h.ex.m.load(st.mem, c, 'i64'))

    def handled(self, o, st, what):
        """the child o has been handled"""
        ex = self.h.ex
        i = self.POS(o)
        ex.oblige(what + ': a child, and one that is to be', st.cond, And(i >= 0, i < self.n, zi(self.obj(i).obj) == o, self.want(o)))
        ex.oblige(what + ': in order, each once', st.cond, i > self.get(self.last, st))
        st.mem = ex.m.store(st.mem, self.last, 'i64', i)
        st.mem = ex.m.store(st.mem, self.cell, 'i64', z3.If(i == self.j, self.get(self.cell, st) + 1, self.get(self.cell, st)))

    def gen(self, ex, rec):
        for nm, g, w in rec.ints:
            try:
                v = g(rec.hdr)
            except Unsupported:
                continue
            if not is_z(v) or z3.is_fp(v) or nm.startswith('cell'):
                continue
            self.fact(zi(v))
            ex.add_cand(rec, nm + ' within the children', lambda t, g=g: And(zi(g(t)) >= 0, zi(g(t)) <= self.n))
            ex.add_cand(rec, 'only children before %s are handled' % nm, lambda t, g=g: self.get(self.last, t) < zi(g(t)))
            ex.add_cand(rec, 'the children before %s are handled' % nm, lambda t, g=g: self.get(self.cell, t) == z3.If(And(self.j < zi(g(t)), self.want(zi(self.obj(self.j).obj))), 1, 0))

    def done(self, what):
        st = self.h.st
        self.h.ex.oblige(what, st.cond, self.get(self.cell, st) == z3.If(self.want(zi(self.obj(self.j).obj)), 1, 0))


def target(b, mapped):
    h = Ids(b)
    ex, st, dom = h.ex, h.st, b.dom
    this, file, X = h.obj(), h.obj(), h.obj()
    idm = ex.new_input_obj() if mapped else NULL
    c, f = b.fn(UP + r'::UpdateProcessor\('), b.fn(UP + r'::GetTargetId\(')
    ex.call(c, [this, file, idm], st)
    ft = field(b, 'Style', 'targetid')
    has, t = D.has_field(ex, dom, ft, X, st), D.get_field(ex, dom, ft, X, st)
    v0 = z3.Const('before', ex.S)
    out = h.strarg(v0)
    s0 = copy_(st)
    r = ex.call(f, [this, h.ptrarg(X), out], st)
    ok, v = (And(has, ex.lib.sel(ex.m.load(s0.mem, idm, 'mhas'), t)), h.str(s0, ex.lib.mslot(idm, t).plus(32))) if mapped else (has, t)
    ex.oblige('there is a target', st.cond, Eq(asbool(r), ok))
    ex.oblige('its id%s' % (', by the map' if mapped else ''), And(st.cond, ok), Eq(h.str(st, out), v))
    s2 = copy_(s0)
    r2 = ex.call(f, [this, ptr_cell(ex, s2, X), NULL], s2)
    ex.oblige('the id need not be wanted', s2.cond, Eq(asbool(r2), ok))
    return h.fin(c, f)


def ptr_cell(ex, s, p):
    q = ex.alloc(8)
    s.mem = ex.m.store(s.mem, q, 'ptr', p)
    return q


def ops(b):
    h = Upd(b)
    ex, st = h.ex, h.st
    T = h.T
    kinds = {'Change': T['Type_Change'], 'Create': T['Type_Create'], 'Delete': T['Type_Delete']}
    casts3(h, kinds)
    e = Each(h, 'Update', 'updateoperation', lambda o: Or(*[h.TYPE(o) == k for k in kinds.values()]))
    for k, t in kinds.items():
        def op(ex, n, a, st, k=k, t=t):
            '''applies an operation of that kind (verified by its own unit)'''
            o = zi(h.ptr(st, a[1]).obj)
            ex.oblige('a %s is applied as one' % k, st.cond, And(h.TYPE(o) == t, ptr_eq(a[0], h.this)))
            e.handled(o, st, k)
        ex.contracts.append((RX('^' + UP + r'::ProcessUpdate%s\(' % k), op))
    f = b.fn(UP + r'::ProcessUpdate\(')
    ex.call(f, [h.this, h.ptrarg(e.this)], st)
    e.done('every operation is applied once')
    return h.fin(h.c, f)


def casts3(h, kinds):
    for k, t in kinds.items():
        def cast(ex, n, a, st, t=t):
            '''the element itself if it is of that class, else null (verified: D05)'''
            x = h.ptr(st, a[1])
            st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(z3.If(And(zi(x.obj) != 0, h.TYPE(zi(x.obj)) == t), zi(x.obj), z3.IntVal(0)), x.off))
        h.ex.contracts.append((RX(r'^kmldom::As%s\(' % k), cast))


def change(b):
    h = Upd(b)
    ex, st = h.ex, h.st
    e = Each(h, 'Change', 'object', lambda o: And(h.HASID(o), h.OBJ(h.TID(o)) > 0))
    ex.contracts = [x for x in ex.contracts]
    # ghost: the id of an arbitrary object of the file, its targetId, and whether a merge has been left unfinished
    t = z3.Int('any_target')
    ex.axiom(t > 0)
    idc, hasc, tgt = ex.alloc(32), ex.alloc(8), ex.alloc(8)
    ID0, HAS0 = z3.Const('id0', ex.S), z3.Int('has_id0')
    ex.axiom(And(HAS0 >= 0, HAS0 <= 1))
    ID, HASI = z3.Function('ID', I, ex.S), z3.Function('HAS_ID', I, z3.BoolSort())
    MID, MHAS = z3.Function('MERGED.id', I, I, ex.S), z3.Function('MERGED.has_id', I, I, I)
    st.mem = ex.m.store(st.mem, idc, 'str', ID0)
    st.mem = ex.m.store(st.mem, hasc, 'i64', HAS0)
    st.mem = ex.m.store(st.mem, tgt, 'i64', 0)
    L = lambda c, s: zi(ex.m.load(s.mem, c, 'i64'))
    is_t = lambda a: Eq(a.obj, t)

    def merge(ex, n, a, st):
        '''merges everything over, ids included (verified: E05)'''
        s, d = zi(h.ptr(st, a[0]).obj), zi(h.ptr(st, a[1]).obj)
        ex.oblige('what is changed is the object of that id', st.cond, d == h.OBJ(h.TID(s)))
        e.handled(s, st, 'changed')
        ex.axiom(And(MHAS(s, d) >= 0, MHAS(s, d) <= 1))
        st.mem = ex.m.store(st.mem, idc, 'str', z3.If(d == t, MID(s, d), h.str(st, idc)))
        st.mem = ex.m.store(st.mem, hasc, 'i64', z3.If(d == t, MHAS(s, d), L(hasc, st)))
        st.mem = ex.m.store(st.mem, tgt, 'i64', z3.If(d == t, z3.IntVal(1), L(tgt, st)))
    ex.contracts.append((RX(r'^kmlengine::MergeElements'), merge))

    def hasid(ex, n, a, st):
        '''whether it has an id (verified: D01)'''
        return z3.If(zb(is_t(a[0])), L(hasc, st) != 0, HASI(zi(a[0].obj)))

    def getid(ex, n, a, st):
        '''its id (verified: D01)'''
        p = ex.alloc(32)
        st.mem = ex.m.store(st.mem, p, 'str', z3.If(zb(is_t(a[0])), h.str(st, idc), ID(zi(a[0].obj))))
        return p

    def setid(ex, n, a, st):
        '''sets its id (verified: D01)'''
        v = h.str(st, a[1])
        st.mem = ex.m.store(st.mem, idc, 'str', z3.If(zb(is_t(a[0])), v, h.str(st, idc)))
        st.mem = ex.m.store(st.mem, hasc, 'i64', z3.If(zb(is_t(a[0])), z3.IntVal(1), L(hasc, st)))

    def clrid(ex, n, a, st):
        '''clears its id (verified: D01)'''
        st.mem = ex.m.store(st.mem, hasc, 'i64', z3.If(zb(is_t(a[0])), z3.IntVal(0), L(hasc, st)))

    def clrt(ex, n, a, st):
        '''clears its targetId (verified: D01)'''
        st.mem = ex.m.store(st.mem, tgt, 'i64', z3.If(zb(is_t(a[0])), z3.IntVal(0), L(tgt, st)))
    ex.contracts += [(RX(r'^kmldom::Object::has_id'), hasid), (RX(r'^kmldom::Object::get_id'), getid), (RX(r'^kmldom::Object::set_id'), setid), (RX(r'^kmldom::Object::clear_id'), clrid), (RX(r'^kmldom::Object::clear_targetid'), clrt)]

    def gen(ex, rec):
        ex.add_cand(rec, 'ids stay', lambda x: And(L(hasc, x) == HAS0, z3.Implies(HAS0 == 1, h.str(x, idc) == ID0)))
        ex.add_cand(rec, 'no targetId is left', lambda x: L(tgt, x) == 0)
    ex.inv_gens.append(gen)
    f = b.fn(UP + r'::ProcessUpdateChange\(')
    ex.call(f, [h.this, h.ptrarg(e.this)], st)
    e.done('every object whose target is there is merged into it once')
    ex.oblige('the id of every object of the file stays', st.cond, And(L(hasc, st) == HAS0, z3.Implies(HAS0 == 1, h.str(st, idc) == ID0)))
    ex.oblige('no object of the file gets a targetId', st.cond, L(tgt, st) == 0)
    return h.fin(f)


def create(b):
    h = Upd(b)
    ex, st = h.ex, h.st
    dst = lambda o: h.OBJ(h.TID(o))
    e = Each(h, 'Create', 'container', lambda o: And(h.HASID(o), dst(o) > 0, h.is_(dst(o), 'Container')))

    def copy(ex, n, a, st):
        '''copies the features (verified by its own unit)'''
        s = zi(h.ptr(st, a[0]).obj)
        ex.oblige('they are copied to the container of that id', st.cond, Eq(h.ptr(st, a[1]).obj, dst(s)))
        e.handled(s, st, 'copied')
    ex.contracts.append((RX(r'^kmlengine::CopyFeatures'), copy))
    f = b.fn(UP + r'::ProcessUpdateCreate\(')
    ex.call(f, [h.this, h.ptrarg(e.this)], st)
    e.done('the features of every container whose target is there are copied once')
    return h.fin(f)


def delete(b):
    h = Upd(b)
    ex, st = h.ex, h.st
    e = Each(h, 'Delete', 'feature', lambda o: h.HASID(o))

    def dele(ex, n, a, st):
        '''deletes the feature of that id (verified by its own unit)'''
        # the id alone says which feature of the Delete this is about: the ids of two may be the same
        st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(ex.fresh('deleted') if hasattr(ex, 'fresh') else z3.Int('deleted'), 0))
        v = h.str(st, a[2])
        i = zi(h.ptr(st, cur).obj)
        ex.oblige('on the same processor', st.cond, ptr_eq(a[1], h.this))
        ex.oblige('the feature of the id it names', st.cond, v == h.TID(i))
        e.handled(i, st, 'deleted')
    cur = ex.alloc(8)                       # ghost: the feature asked about last
    st.mem = ex.m.store(st.mem, cur, 'ptr', NULL)
    old = next(x for x in ex.contracts if 'GetTargetId' in x[0].pattern)

    def target(ex, n, a, st):
        '''the id the element is meant for, if it names one (verified by its own unit)'''
        st.mem = ex.m.store(st.mem, cur, 'ptr', Ptr(h.ptr(st, a[1]).obj, 0))
        return old[1](ex, n, a, st)
    ex.contracts[ex.contracts.index(old)] = (old[0], target)
    ex.contracts.append((RX('^' + UP + r'::DeleteFeatureById'), dele))
    f = b.fn(UP + r'::ProcessUpdateDelete\(')
    ex.call(f, [h.this, h.ptrarg(e.this)], st)
    e.done('every feature named is deleted once')
    return h.fin(f)


def byid(b):
    """UpdateProcessor::DeleteFeatureById"""
    h = Upd(b)
    ex, st = h.ex, h.st
    i = z3.Const('id', ex.S)
    x = h.OBJ(i)
    PAR, GONE = z3.Function('PARENT', I, I), z3.Function('DELETED', I, ex.S, I)
    ex.axiom(And(PAR(x) >= 0, x >= 0))

    def parent(ex, n, a, st):
        '''its parent, or null (verified: D04)'''
        st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(PAR(zi(a[1].obj)), 0))

    def dele(ex, n, a, st):
        '''takes the feature out of the container (verified by its own unit)'''
        h.rec('deleted', lambda st, a: (a[1], h.str(st, a[2])))(ex, n, a, st)
        st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(GONE(zi(a[1].obj), h.str(st, a[2])), 0))
    ex.contracts += [(RX(r'^kmldom::Element::GetParent'), parent), (RX(r'^kmldom::Container::DeleteFeatureById'), dele)]
    h.on(r'^kmldom::Kml::clear_feature', 'cleared', lambda st, a: (a[0],))
    ret = ex.alloc(8)
    f = b.fn(UP + r'::DeleteFeatureById\(')
    ex.call(f, [ret, h.this, h.strarg(i)], st)
    isf = And(x > 0, h.is_(x, 'Feature'), PAR(x) > 0)
    inc, ink = And(isf, h.is_(PAR(x), 'Container')), And(isf, h.is_(PAR(x), 'kml'))
    h.happens('deleted', inc, st, (Ptr(PAR(x), 0), i))
    h.happens('cleared', ink, st, (Ptr(PAR(x), 0),))
    ex.oblige('what was deleted', st.cond, Eq(h.ptr(st, ret).obj, z3.If(zb(inc), GONE(PAR(x), i), z3.If(zb(ink), x, z3.IntVal(0)))))
    return h.fin(f)


def container(b):
    """Container::DeleteFeatureById"""
    h = Ids(b)
    ex, st, dom = h.ex, h.st, b.dom
    this = h.obj()
    f_ = field(b, 'Folder', 'feature')
    n = zi(D.array_size(ex, dom, f_, this, st))
    st0 = D.scratch_state(st)
    HAS, ID = z3.Function('HAS_ID', I, z3.BoolSort()), z3.Function('ID', I, ex.S)
    i, k, j = z3.Const('id', ex.S), z3.Int('first'), z3.Int('j')     # first: where the first such feature is, or n
    at = lambda s, x: D.array_at(ex, dom, f_, this, s, x)
    like = lambda x: And(HAS(zi(at(st0, x).obj)), ID(zi(at(st0, x).obj)) == i)
    ex.axiom(And(n >= 0, n < 1 << 40, k >= 0, k <= n, z3.Implies(k < n, zb(like(k))), j >= 0, j < n))

    def fact(x):
        p = at(st0, x)
        ex.axiom(z3.Implies(And(x >= 0, x < n), And(zi(p.obj) > 0, zi(p.off) == 0)))
        ex.axiom(z3.Implies(And(x >= 0, x < k), Not(zb(like(x)))))
    for x in (k, j):
        fact(x)

    def hasid(ex, nm, a, st):
        '''whether it has an id (verified: D01)'''
        return HAS(zi(a[0].obj))

    def getid(ex, nm, a, st):
        '''its id (verified: D01)'''
        p = ex.alloc(32)
        st.mem = ex.m.store(st.mem, p, 'str', ID(zi(a[0].obj)))
        return p
    ex.contracts += [(RX(r'^kmldom::Object::has_id'), hasid), (RX(r'^kmldom::Object::get_id'), getid)]

    def gen(ex, rec):
        for nm, g, w in rec.ints:
            try:
                v = g(rec.hdr)
            except Unsupported:
                continue
            if not is_z(v) or z3.is_fp(v):
                continue
            # an iterator moves in steps of a pointer, an index in steps of one
            for d, o in ((1, 0), (8, base)):
                x = zi(v) if d == 1 else (zi(v) - zi(o)) / 8
                fact(x)
                ex.add_cand(rec, '%s: none before it (step %d)' % (nm, d), lambda t, g=g, d=d, o=o: And(zi(g(t)) >= zi(o), zi(g(t)) <= zi(o) + d * k))
                if d == 8:
                    ex.add_cand(rec, nm + ' on a feature', lambda t, g=g: (zi(g(t)) - zi(base)) % 8 == 0)
    ex.inv_gens.append(gen)
    base = ex.lib.velem(this.plus(b.off('kmldom::Container', 'feature_array_')), 0, 8).off
    b_j, b_j1 = at(st0, j), at(st0, j + 1)
    ret = ex.alloc(8)
    f = b.fn(r'kmldom::Container::DeleteFeatureById\(')
    ex.call(f, [ret, this, h.strarg(i)], st)
    n1 = zi(D.array_size(ex, dom, f_, this, st))
    ex.oblige('the first feature of that id is handed out, or null', st.cond, Eq(h.ptr(st, ret).obj, z3.If(k < n, zi(at(st0, k).obj), z3.IntVal(0))))
    ex.oblige('one feature less, if there was one of that id', st.cond, n1 == z3.If(k < n, n - 1, n))
    ex.oblige('the features before it stay', And(st.cond, j < k), ptr_eq(at(st, j), b_j))
    ex.oblige('those after it move up', And(st.cond, j >= k, j + 1 < n), ptr_eq(at(st, j), b_j1))
    return h.fin(f)


def copies(b):
    h = Ids(b)
    ex, st = h.ex, h.st
    e = Each(h, 'Folder', 'feature', lambda o: z3.BoolVal(True))
    dst = z3.Int('target')
    ex.axiom(dst > 0)
    COPY, ORIG = z3.Function('COPY', I, I), z3.Function('ORIGINAL', I, I)

    def clone(ex, n, a, st):
        '''a copy (verified: E04)'''
        o = zi(h.ptr(st, a[1]).obj)
        ex.axiom(And(COPY(o) > 0, ORIG(COPY(o)) == o, zb(h.isa(COPY(o), h.T['Type_Feature']))))
        st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(COPY(o), 0))

    def add(ex, n, a, st):
        '''the container takes the feature (verified: D03, D04)'''
        c = zi(h.ptr(st, a[1]).obj)
        ex.oblige('a copy of the feature is added to the target', st.cond, And(Eq(a[0].obj, dst), c == COPY(ORIG(c))))
        e.handled(ORIG(c), st, 'added')
    ex.contracts += [(RX(r'^kmlengine::Clone\('), clone), (RX(r'^kmldom::Container::add_feature'), add)]
    f = b.fn(r'kmlengine::CopyFeatures\(')
    ex.call(f, [h.ptrarg(e.this), h.ptrarg(Ptr(dst, 0))], st)
    e.done('every feature is copied once')
    return h.fin(f)


def entry(b, mapped):
    h = Ids(b)
    ex, st = h.ex, h.st
    u, k, m = z3.Int('update'), z3.Int('file'), z3.Int('id_map')
    ex.axiom(And(u >= 0, k >= 0, m >= 0))
    h.on('^' + UP + r'::UpdateProcessor\(', 'made', lambda st, a: (a[0], a[1], a[2]))
    h.on('^' + UP + r'::ProcessUpdate\(', 'applied', lambda st, a: (a[0], h.ptr(st, a[1])))
    f = b.fn(r'kmlengine::ProcessUpdate%s\(' % ('WithIdMap' if mapped else ''))
    ex.call(f, [h.ptrarg(Ptr(u, 0))] + ([Ptr(m, 0)] if mapped else []) + [h.ptrarg(Ptr(k, 0))], st)
    w = And(u > 0, k > 0)
    p = h.ev['made'][0][1][0] if h.ev.get('made') else NULL
    h.happens('made', w, st, (p, Ptr(k, 0), Ptr(m, 0) if mapped else NULL))
    h.happens('applied', w, st, (p, Ptr(u, 0)))
    h.before('made', 'applied')
    return h.fin(f)


def units(b):
    return [Unit('UpdateProcessor::GetTargetId', lambda: target(b, False)), Unit('UpdateProcessor::GetTargetId, with a map', lambda: target(b, True)), Unit('UpdateProcessor::ProcessUpdate', lambda: ops(b)),
            Unit('UpdateProcessor::ProcessUpdateChange', lambda: change(b)), Unit('UpdateProcessor::ProcessUpdateCreate', lambda: create(b)), Unit('UpdateProcessor::ProcessUpdateDelete', lambda: delete(b)),
            Unit('UpdateProcessor::DeleteFeatureById', lambda: byid(b)), Unit('Container::DeleteFeatureById', lambda: container(b)), Unit('CopyFeatures', lambda: copies(b)),
            Unit('ProcessUpdate', lambda: entry(b, False)), Unit('ProcessUpdateWithIdMap', lambda: entry(b, True))]
