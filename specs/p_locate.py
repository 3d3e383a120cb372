"""Bounds and locations of features, geometries, models and coordinates (property V04)."""
import z3
from dv.core import *
from dv.unit import Unit
from .baselib import RX, EngMod
from .domlib import *
from .p_serialize import set_vtable

MODULE = 'eng'
K = r'kmlengine::'
F64 = z3.Float64()
I = z3.IntSort()
GROW = 0x100          # ghost cell of a box: what it has been grown by so far


def tok(ex, p, st):
    return zi(ex.m.load(st.mem, p.plus(GROW), 'i64'))


def set_tok(ex, p, v, st):
    st.mem = ex.m.store(st.mem, p.plus(GROW), 'i64', v)


def notnull(p):
    return Not(Eq(p.obj, 0))


def bounds_contract(ex, name, cell=True):
    """grows the box by everything the argument bounds; says whether there was anything"""
    HB = z3.Function('has.' + name, I, z3.BoolSort())
    GB = z3.Function('grow.' + name, I, I, I)

    def h(ex, n, a, st):
        '''grows the box by the bounds of its argument, if any (verified by its own unit)'''
        x = ex.m.load(st.mem, a[0], 'ptr') if cell else a[0]
        o = zi(x.obj)
        ex.axiom(z3.Implies(o == 0, Not(HB(o))))
        t = tok(ex, a[1], st)
        has = HB(o)
        set_tok(ex, a[1], z3.If(And(has, zb(notnull(a[1]))), GB(t, o), t), st)
        return has
    ex.contracts.append((RX(r'^kmlengine::%s\(' % name), h))
    return HB, GB


def elem(ex, dom, cls, st):
    """an arbitrary element of exactly this class, and a smart pointer to it"""
    p = ex.new_input_obj()
    ex.m.private.add(p.obj)
    set_vtable(ex, dom, cls, p, st)
    ref = ex.alloc()
    st.mem = ex.m.store(st.mem, ref, 'ptr', p)
    return p, ref


def fld(dom, cls, name):
    return next(f for f in dom.all_fields(cls) if f.name == name)


def newbox(ex, st):
    b = ex.alloc()
    t0 = z3.Int('grown0')
    set_tok(ex, b, t0, st)
    return b, t0


def fold_gen(ex, F, n, ANY=None):
    """loop invariant candidates: the ghost cell is the fold over the items seen so far"""
    def gen(ex, rec):
        cells = [x for x in rec.ints if x[0].startswith('cell')]
        for nm, g, w in rec.ints:
            if nm.startswith('cell'):
                continue
            ex.add_cand(rec, nm + ' within the list', lambda t, g=g: And(zi(g(t)) >= 0, zi(g(t)) <= zi(n)))
            for cn, cg, cw in cells:
                ex.add_cand(rec, '%s is the fold of the items before %s' % (cn, nm), lambda t, g=g, cg=cg: Eq(cg(t), F(zi(g(t)))))
            if ANY is not None:
                for bn, bg, bw in rec.ints:
                    if bn != nm and bw == 8:
                        ex.add_cand(rec, '%s: some item before %s has bounds' % (bn, nm), lambda t, g=g, bg=bg: zb(Not(Eq(bg(t), 0))) == ANY(zi(g(t))))
                for bn, ty in rec.phis:
                    if ty == ('i', 1):
                        ex.add_cand(rec, '%s: some item before %s has bounds' % (bn, nm), lambda t, g=g, bn=bn: zb(t.env[bn]) == ANY(zi(g(t))))
    ex.inv_gens.append(gen)


def list_fold(ex, dom, this, st, f, HB, GB, t0, null_box):
    F = z3.Function('fold', I, I)
    ANY = z3.Function('anyb', I, z3.BoolSort())
    ex.axiom(F(0) == t0)
    ex.axiom(Not(ANY(0)))
    n = array_size(ex, dom, f, this, st)
    st0 = scratch_state(st)

    def gen0(ex, rec):
        for nm, g, w in rec.ints:
            v = g(rec.hdr)
            if is_z(v) and not nm.startswith('cell') and not (w == 8):
                o = zi(array_at(ex, dom, f, this, st0, v).obj)
                k = zi(v)
                ex.axiom(z3.Implies(k >= 0, And(F(k + 1) == (F(k) if null_box else z3.If(HB(o), GB(F(k), o), F(k))), ANY(k + 1) == Or(ANY(k), HB(o)))))
    ex.inv_gens.append(gen0)
    fold_gen(ex, F, n, ANY)
    return F, ANY, n


def coords(b, null_box):
    dom = b.dom
    ex = new_exec(dom)
    this, st = this_state(ex, True)
    ex.m.private.add(this.obj)
    set_vtable(ex, dom, 'kmldom::Coordinates', this, st)
    ref = ex.alloc()
    st.mem = ex.m.store(st.mem, ref, 'ptr', this)
    box, t0 = newbox(ex, st)
    G = z3.Function('grow.point', I, F64, F64, I)

    def grow(ex, n, a, st):
        '''grows the box to the point (verified: Bbox growth)'''
        set_tok(ex, a[0], G(tok(ex, a[0], st), a[1], a[2]), st)
    ex.contracts.append((RX(r'^kmlengine::Bbox::ExpandLatLon\('), grow))
    f = fld(dom, 'kmldom::Coordinates', 'coordinates')
    n = array_size(ex, dom, f, this, st)
    st0 = scratch_state(st)
    F = z3.Function('fold', I, I)
    ex.axiom(F(0) == t0)

    def gen0(ex, rec):
        for nm, g, w in rec.ints:
            v = g(rec.hdr)
            if is_z(v) and not nm.startswith('cell'):
                lon, lat, alt, ha = array_at(ex, dom, f, this, st0, v)
                ex.axiom(z3.Implies(zi(v) >= 0, F(zi(v) + 1) == G(F(zi(v)), lat, lon)))
    ex.inv_gens.append(gen0)
    fold_gen(ex, F, n)
    fn = b.fn(K + r'GetCoordinatesBounds\(')
    r = ex.call(fn, [ref, NULL if null_box else box], st)
    ex.oblige('GetCoordinatesBounds: bounds exist exactly when there is a tuple', st.cond, zb(r) == zb(Not(Eq(n, 0))))
    ex.oblige('GetCoordinatesBounds: the box is grown by every tuple, latitude and longitude in their places, once, in order', st.cond, Eq(tok(ex, box, st), t0 if null_box else F(zi(n))))
    ex.under_contract = [b.m.dem[fn]]
    ex.covers = [st.cond]
    return ex


def nothing(b):
    """null arguments"""
    dom = b.dom
    ex = new_exec(dom)
    _, st = this_state(ex, True)
    ref = ex.alloc()
    st.mem = ex.m.store(st.mem, ref, 'ptr', NULL)
    und = []
    for nm, k in (('GetCoordinatesBounds', 1), ('GetFeatureBounds', 1), ('GetGeometryBounds', 1), ('GetModelBounds', 1), ('GetModelLatLon', 2), ('GetPointLatLon', 2), ('GetFeatureLatLon', 2), ('GetGeometryLatLon', 2)):
        s = scratch_state(st)
        box, t0 = newbox(ex, s)
        box2 = ex.alloc()
        fn = b.fn(K + nm + r'\(')
        r = ex.call(fn, [ref, box, box2][:k + 1], s)
        ex.oblige('%s of nothing: false' % nm, s.cond, Not(zb(r)))
        und.append(b.m.dem[fn])
    fn = b.fn(K + r'GetCenter\(boost')if b.fns(K + r'GetCenter\(boost') else None
    ex.under_contract = und
    ex.covers = [st.cond]
    return ex


def geometry(b, cls, null_box):
    dom = b.dom
    ex = new_exec(dom)
    _, st = this_state(ex, True)
    HC, GC = bounds_contract(ex, 'GetCoordinatesBounds')
    HM, GM = bounds_contract(ex, 'GetModelBounds')
    HG, GG = bounds_contract(ex, 'GetGeometryBounds')
    p, ref = elem(ex, dom, cls, st)
    box, t0 = newbox(ex, st)
    nm = short(cls)
    st0 = scratch_state(st)

    def want(HB, GB, o):
        return HB(o), (t0 if null_box else z3.If(HB(o), GB(t0, o), t0))
    if nm in ('Point', 'LineString', 'LinearRing'):
        o = zi(get_field(ex, dom, fld(dom, cls, 'coordinates'), p, st0).obj)
        ex.axiom(z3.Implies(o == 0, Not(HC(o))))
        has, t = want(HC, GC, o)
    elif nm == 'Polygon':
        ob = get_field(ex, dom, fld(dom, cls, 'outerboundaryis'), p, st0)
        lr = get_field(ex, dom, fld(dom, 'kmldom::OuterBoundaryIs', 'linearring'), ob, st0)
        o = zi(get_field(ex, dom, fld(dom, 'kmldom::LinearRing', 'coordinates'), lr, st0).obj)
        ex.axiom(z3.Implies(o == 0, Not(HC(o))))
        ok = And(notnull(ob), notnull(lr))
        has = And(ok, HC(o))
        t = t0 if null_box else z3.If(And(has), GC(t0, o), t0)
    elif nm == 'Model':
        has, t = want(HM, GM, zi(p.obj))
    elif nm == 'MultiGeometry':
        F, ANY, n = list_fold(ex, dom, p, st, fld(dom, cls, 'geometry'), HG, GG, t0, null_box)
        has, t = ANY(zi(n)), t0 if null_box else F(zi(n))
    else:
        has, t = z3.BoolVal(False), t0
    fn = b.fn(K + r'GetGeometryBounds\(')
    r = ex.run_function(ex.mod.funcs[fn], [ref, NULL if null_box else box], st)
    ex.oblige('GetGeometryBounds of a %s says whether it has bounds' % nm, st.cond, zb(r) == has)
    ex.oblige('GetGeometryBounds of a %s grows the box by its bounds, by all parts and nothing else' % nm, st.cond, Eq(tok(ex, box, st), t))
    ex.under_contract = [b.m.dem[fn]] + [b.m.dem[x] for x in b.fns(r'.*kmlengine::GetCoordinatesParentBounds<')]
    ex.covers = [st.cond]
    return ex


def feature(b, cls, null_box):
    dom = b.dom
    ex = new_exec(dom)
    _, st = this_state(ex, True)
    HC, GC = bounds_contract(ex, 'GetCoordinatesBounds')
    HG, GG = bounds_contract(ex, 'GetGeometryBounds')
    HF, GF = bounds_contract(ex, 'GetFeatureBounds')
    p, ref = elem(ex, dom, cls, st)
    box, t0 = newbox(ex, st)
    nm = short(cls)
    st0 = scratch_state(st)
    names = {short(k) for k in dom.chain(cls)}
    if nm == 'Placemark':
        o = zi(get_field(ex, dom, fld(dom, cls, 'geometry'), p, st0).obj)
        ex.axiom(z3.Implies(o == 0, Not(HG(o))))
        has, t = HG(o), t0 if null_box else z3.If(HG(o), GG(t0, o), t0)
    elif nm == 'PhotoOverlay':
        pt = get_field(ex, dom, fld(dom, cls, 'point'), p, st0)
        o = zi(get_field(ex, dom, fld(dom, 'kmldom::Point', 'coordinates'), pt, st0).obj)
        ex.axiom(z3.Implies(o == 0, Not(HC(o))))
        has = And(notnull(pt), HC(o))
        t = t0 if null_box else z3.If(has, GC(t0, o), t0)
    elif 'Container' in names:
        F, ANY, n = list_fold(ex, dom, p, st, fld(dom, cls, 'feature'), HF, GF, t0, null_box)
        has, t = ANY(zi(n)), t0 if null_box else F(zi(n))
    else:
        has, t = z3.BoolVal(False), t0
    fn = b.fn(K + r'GetFeatureBounds\(')
    r = ex.run_function(ex.mod.funcs[fn], [ref, NULL if null_box else box], st)
    ex.oblige('GetFeatureBounds of a %s says whether it has bounds' % nm, st.cond, zb(r) == zb(has))
    ex.oblige('GetFeatureBounds of a %s grows the box by its bounds, by all parts and nothing else' % nm, st.cond, Eq(tok(ex, box, st), t))
    ex.under_contract = [b.m.dem[fn]]
    ex.covers = [st.cond]
    return ex


def outs(ex, la, lo, st):
    o = []
    for i, w in enumerate((la, lo)):
        p = ex.alloc() if w else NULL
        v = z3.FP('old%d' % i, F64)
        if w:
            st.mem = ex.m.store(st.mem, p, 'f64', v)
        o.append((p, v))
    return o


def locations(b):
    dom = b.dom
    ex = new_exec(dom)
    _, st = this_state(ex, True)
    und = []
    p, ref = elem(ex, dom, 'kmldom::Model', st)
    loc = get_field(ex, dom, fld(dom, 'kmldom::Model', 'location'), p, st)
    lla = get_field(ex, dom, fld(dom, 'kmldom::Location', 'latitude'), loc, st)
    llo = get_field(ex, dom, fld(dom, 'kmldom::Location', 'longitude'), loc, st)
    q, qref = elem(ex, dom, 'kmldom::Point', st)
    c = get_field(ex, dom, fld(dom, 'kmldom::Point', 'coordinates'), q, st)
    cf = fld(dom, 'kmldom::Coordinates', 'coordinates')
    cn = array_size(ex, dom, cf, c, st)
    clo, cla, _, _ = array_at(ex, dom, cf, c, st, 0)
    for fnm, rf, has, la, lo in (('GetModelLatLon', ref, notnull(loc), lla, llo), ('GetPointLatLon', qref, And(notnull(c), Not(Eq(cn, 0))), cla, clo)):
        fn = b.fn(K + fnm + r'\(')
        und.append(b.m.dem[fn])
        for wa in (True, False):
            for wo in (True, False):
                s = scratch_state(st)
                (pa, oa), (po, oo) = outs(ex, wa, wo, s)
                r = ex.call(fn, [rf, pa, po], s)
                ex.oblige('%s: says whether there is a location' % fnm, s.cond, zb(r) == zb(has))
                if wa:
                    ex.oblige('%s: gives the latitude' % fnm, s.cond, ex.m.load(s.mem, pa, 'f64') == ite(zb(has), la, oa))
                if wo:
                    ex.oblige('%s: gives the longitude' % fnm, s.cond, ex.m.load(s.mem, po, 'f64') == ite(zb(has), lo, oo))
    G = z3.Function('grow.point', I, F64, F64, I)

    def grow(ex, n, a, st):
        '''grows the box to the point (verified: Bbox growth)'''
        set_tok(ex, a[0], G(tok(ex, a[0], st), a[1], a[2]), st)
    ex.contracts.append((RX(r'^kmlengine::Bbox::ExpandLatLon\('), grow))
    fn = b.fn(K + r'GetModelBounds\(')
    und.append(b.m.dem[fn])
    s = scratch_state(st)
    box, t0 = newbox(ex, s)
    r = ex.call(fn, [ref, box], s)
    ex.oblige('GetModelBounds: bounds exist exactly with a location', s.cond, zb(r) == zb(notnull(loc)))
    ex.oblige('GetModelBounds: the box is grown to the location', s.cond, Eq(tok(ex, box, s), z3.If(zb(notnull(loc)), G(t0, lla, llo), t0)))
    s = scratch_state(st)
    r = ex.call(fn, [ref, NULL], s)
    ex.oblige('GetModelBounds without a box', s.cond, zb(r) == zb(notnull(loc)))
    ex.under_contract = und
    ex.covers = [st.cond]
    return ex


def centres(b):
    """GetFeatureLatLon / GetGeometryLatLon: the centre of the bounds of a new box"""
    dom = b.dom
    ex = new_exec(dom)
    _, st = this_state(ex, True)
    und = []
    CLA, CLO = z3.Function('centre.lat', I, F64), z3.Function('centre.lon', I, F64)
    EMPTY = z3.Int('empty')

    def new(ex, n, a, st):
        '''an empty box (verified: Bbox sides)'''
        set_tok(ex, a[0], EMPTY, st)

    def c1(ex, n, a, st):
        '''centre latitude (verified: Bbox centre)'''
        return CLA(tok(ex, a[0], st))

    def c2(ex, n, a, st):
        '''centre longitude (verified: Bbox centre)'''
        return CLO(tok(ex, a[0], st))

    def c3(ex, n, a, st):
        '''both (verified: Bbox centre)'''
        t = tok(ex, a[0], st)
        for p, v in ((a[1], CLA(t)), (a[2], CLO(t))):
            if Eq(p.obj, 0) is not True:
                st.mem = ex.m.store(st.mem, p, 'f64', v)
    for rx, h in ((r'^kmlengine::Bbox::Bbox\(\)', new), (r'^kmlengine::Bbox::GetCenterLat\(', c1), (r'^kmlengine::Bbox::GetCenterLon\(', c2), (r'^kmlengine::Bbox::GetCenter\(', c3)):
        ex.contracts.append((RX(rx), h))
    for what, cls in (('Feature', 'kmldom::Placemark'), ('Geometry', 'kmldom::Point'), ('Placemark', 'kmldom::Placemark')):
        p, ref = elem(ex, dom, cls, st)
        o = zi(p.obj)
        if what == 'Placemark':
            o = zi(get_field(ex, dom, fld(dom, cls, 'geometry'), p, st).obj)
            HB, GB = z3.Function('has.GetGeometryBounds', I, z3.BoolSort()), z3.Function('grow.GetGeometryBounds', I, I, I)
        else:
            HB, GB = bounds_contract(ex, 'Get%sBounds' % what)
        fn = b.fn(K + r'Get%sLatLon\(' % what)
        und.append(b.m.dem[fn])
        for wa in (True, False):
            for wo in (True, False):
                s = scratch_state(st)
                (pa, oa), (po, oo) = outs(ex, wa, wo, s)
                r = ex.call(fn, [ref, pa, po], s)
                ex.axiom(z3.Implies(o == 0, Not(HB(o))))
                t = GB(EMPTY, o)
                ex.oblige('Get%sLatLon says whether there are bounds' % what, s.cond, zb(r) == HB(o))
                if wa:
                    ex.oblige('Get%sLatLon gives the centre latitude of the bounds' % what, s.cond, ex.m.load(s.mem, pa, 'f64') == z3.If(HB(o), CLA(t), oa))
                if wo:
                    ex.oblige('Get%sLatLon gives the centre longitude of the bounds' % what, s.cond, ex.m.load(s.mem, po, 'f64') == z3.If(HB(o), CLO(t), oo))
    ex.under_contract = und
    ex.covers = [st.cond]
    return ex


def half(a, c):
    return z3.fpDiv(z3.RNE(), z3.fpAdd(z3.RNE(), a, c), z3.FPVal(2.0, F64))


def boxcentre(b):
    dom = b.dom
    ex = new_exec(dom)
    _, st = this_state(ex, True)
    p, ref = elem(ex, dom, 'kmldom::LatLonAltBox', st)
    v = {n: get_field(ex, dom, fld(dom, 'kmldom::LatLonAltBox', n), p, st) for n in ('north', 'south', 'east', 'west')}
    fn = next(x for x in b.fns(K + r'GetCenter\(') if 'Bbox' not in b.m.dem[x])
    for wa in (True, False):
        for wo in (True, False):
            s = scratch_state(st)
            (pa, oa), (po, oo) = outs(ex, wa, wo, s)
            ex.call(fn, [ref, pa, po], s)
            for w, q, x, y in ((wa, pa, 'north', 'south'), (wo, po, 'east', 'west')):
                if w:
                    r = ex.m.load(s.mem, q, 'f64')
                    ex.oblige('GetCenter: half way between %s and %s' % (y, x), s.cond, Or(r == half(v[x], v[y]), r == half(v[y], v[x])))
    ex.under_contract = [b.m.dem[fn]]
    ex.covers = [st.cond]
    return ex


def units(b):
    dom = b.dom
    out = [Unit('GetCoordinatesBounds', lambda: coords(b, False)), Unit('GetCoordinatesBounds without a box', lambda: coords(b, True)),
           Unit('bounds of nothing', lambda: nothing(b)), Unit('model and point locations', lambda: locations(b)), Unit('centres of bounds', lambda: centres(b)), Unit('centre of a LatLonBox', lambda: boxcentre(b))]
    for cls in dom.concrete():
        ch = {short(k) for k in dom.chain(cls)}
        if 'Geometry' in ch:
            for nb in (False, True):
                out.append(Unit('bounds of %s%s' % (short(cls), ' without a box' if nb else ''), lambda cls=cls, nb=nb: geometry(b, cls, nb)))
        if 'Feature' in ch:
            for nb in (False, True):
                out.append(Unit('bounds of %s%s' % (short(cls), ' without a box' if nb else ''), lambda cls=cls, nb=nb: feature(b, cls, nb)))
    return out
