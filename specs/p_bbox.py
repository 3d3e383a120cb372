"""Bounding boxes and locations (property V04)."""
from .baselib import *

MODULE = 'base'
B = r'kmlengine::Bbox::'
F64 = z3.Float64()
SIDES = ('north', 'south', 'east', 'west')


def num(x):
    return Not(z3.fpIsNaN(x))


def fmax(a, b):
    """larger of two numbers (a when equal)"""
    return z3.If(z3.fpGT(a, b), a, b)


def feq(a, b):
    return z3.fpEQ(a, b)


def box_at(ex, b, p, st):
    """the four sides through the real getters"""
    out = {}
    for n in SIDES:
        s = type(st)(st.cond, st.mem, dict(st.env))
        out[n] = ex.call(b.fn(B + 'get_%s\\(' % n), [p], s)
    return out


def copyst(st):
    return type(st)(st.cond, st.mem, dict(st.env))


def new_box(ex, b, name, st, nums=True):
    p = ex.new_input_obj()
    v = {n: z3.FP(name + '.' + n, F64) for n in SIDES}
    for n in SIDES:
        s = st
        ex.call(b.fn(B + 'set_%s\\(' % n), [p, v[n]], st)
        if nums:
            ex.axiom(num(v[n]))
    return p, v


def has(v, lat, lon):
    return And(z3.fpGEQ(v['north'], lat), z3.fpLEQ(v['south'], lat), z3.fpGEQ(v['east'], lon), z3.fpLEQ(v['west'], lon))


def inside(i, o):
    return And(z3.fpGEQ(o['north'], i['north']), z3.fpLEQ(o['south'], i['south']), z3.fpGEQ(o['east'], i['east']), z3.fpLEQ(o['west'], i['west']))


def same(a, c):
    return And(*[a[n] == c[n] for n in SIDES])


def fields(b):
    ex = new_exec(b)
    st = start(ex)
    p = ex.new_input_obj()
    v = {n: z3.FP(n, F64) for n in SIDES}
    und = []
    s = copyst(st)
    f = b.fn(B + r'Bbox\(double')
    ex.call(f, [p] + [v[n] for n in SIDES], s)
    ex.oblige('a box has the sides it is made with', s.cond, same(box_at(ex, b, p, s), v))
    und.append(b.m.dem[f])
    s = copyst(st)
    f = b.fn(B + r'Bbox\(\)')
    ex.call(f, [p], s)
    w = box_at(ex, b, p, s)
    lat, lon = z3.FP('lat', F64), z3.FP('lon', F64)
    big = lambda x: And(z3.fpLEQ(x, z3.FPVal(180, F64)), z3.fpGEQ(x, z3.FPVal(-180, F64)))
    ex.oblige('a new box holds no point but at most one', And(s.cond, has(w, lat, lon)), False)
    f2 = b.fn(B + r'ExpandLatLon')
    ex.call(f2, [p, lat, lon], s)
    w = box_at(ex, b, p, s)
    ex.oblige('a new box grown to one valid point is that point', And(s.cond, big(lat), big(lon)), And(feq(w['north'], lat), feq(w['south'], lat), feq(w['east'], lon), feq(w['west'], lon)))
    und += [b.m.dem[f], b.m.dem[f2]]
    for n in SIDES:
        s = copyst(st)
        p2, v2 = new_box(ex, b, 'b' + n, s)
        x = z3.FP('x', F64)
        f = b.fn(B + 'set_%s\\(' % n)
        ex.call(f, [p2, x], s)
        w = box_at(ex, b, p2, s)
        ex.oblige('set_%s sets that side and no other' % n, s.cond, And(*[w[k] == (x if k == n else v2[k]) for k in SIDES]))
        und += [b.m.dem[f], b.m.dem[b.fn(B + 'get_%s\\(' % n)]]
    ex.under_contract = und
    ex.covers = [st.cond]
    return ex


def grow(b):
    ex = new_exec(b)
    st = start(ex)
    p, v = new_box(ex, b, 'box', st)
    lat, lon = z3.FP('lat', F64), z3.FP('lon', F64)
    a, c = z3.FP('qlat', F64), z3.FP('qlon', F64)
    for x in (lat, lon, a, c):
        ex.axiom(num(x))
    want = dict(north=fmax(lat, v['north']), south=z3.If(z3.fpLT(lat, v['south']), lat, v['south']), east=fmax(lon, v['east']), west=z3.If(z3.fpLT(lon, v['west']), lon, v['west']))
    und = []
    for nm, args, keep in (('ExpandLatLon', [lat, lon], ()), ('ExpandLatitude', [lat], ('east', 'west')), ('ExpandLongitude', [lon], ('north', 'south'))):
        f = b.fn(B + nm + r'\(')
        s = copyst(st)
        ex.call(f, [p] + args, s)
        w = box_at(ex, b, p, s)
        und.append(b.m.dem[f])
        ex.oblige('%s: each side moves out just enough to reach the point' % nm, s.cond, And(*[feq(w[n], v[n] if n in keep else want[n]) for n in SIDES]))
        if nm == 'ExpandLatLon':
            g = b.fn(B + 'Contains\\(')
            r = ex.call(g, [p, lat, lon], copyst(s))
            ex.oblige('ExpandLatLon: the point is then contained', s.cond, r)
            r1 = ex.call(g, [p, a, c], copyst(st))
            r2 = ex.call(g, [p, a, c], copyst(s))
            ex.oblige('ExpandLatLon: what was contained still is', And(s.cond, r1), r2)
            ex.oblige('Contains is the four comparisons', s.cond, zb(r1) == has(v, a, c))
            und.append(b.m.dem[g])
    q, u = new_box(ex, b, 'other', st)
    f = b.fn(B + 'ExpandFromBbox')
    s = copyst(st)
    ex.call(f, [p, q], s)
    w = box_at(ex, b, p, s)
    hull = {}
    for n in SIDES:
        hi = n in ('north', 'east')
        lo_, hi_ = ('south', 'north') if n in ('north', 'south') else ('west', 'east')
        m = z3.fpMax if False else None
        cand = [v[n], u[lo_], u[hi_]]
        cmp_ = z3.fpGEQ if hi else z3.fpLEQ
        hull[n] = And(*[cmp_(w[n], x) for x in cand] + [Or(*[feq(w[n], x) for x in cand])])
    ex.oblige('ExpandFromBbox: the hull of both boxes', s.cond, And(*hull.values()))
    w2 = box_at(ex, b, q, s)
    ex.oblige('ExpandFromBbox leaves the other box alone', s.cond, same(w2, u))
    g = b.fn(B + 'ContainedByBbox')
    r = ex.call(g, [p, q], copyst(st))
    ex.oblige('ContainedByBbox: no side outside the other box', st.cond, zb(r) == inside(v, u))
    g2 = b.fn(B + r'ContainedByBox\(')
    r = ex.call(g2, [p] + [u[n] for n in SIDES], copyst(st))
    ex.oblige('ContainedByBox: no side outside the bounds', st.cond, zb(r) == inside(v, u))
    und += [b.m.dem[x] for x in (f, g, g2)]
    ex.under_contract = und
    ex.covers = [st.cond]
    return ex


def mid(a, c):
    return z3.fpDiv(z3.RNE(), z3.fpAdd(z3.RNE(), a, c), z3.FPVal(2.0, F64))


def centre(b):
    ex = new_exec(b)
    st = start(ex)
    p, v = new_box(ex, b, 'box', st, nums=False)
    f, g, h = b.fn(B + r'GetCenterLat'), b.fn(B + r'GetCenterLon'), b.fn(B + r'GetCenter\(')
    ml, mo = [Or(r == mid(v[x], v[y]), r == mid(v[y], v[x])) for r, x, y in ((ex.call(f, [p], copyst(st)), 'north', 'south'), (ex.call(g, [p], copyst(st)), 'east', 'west'))]
    ex.oblige('the centre latitude is half way between south and north', st.cond, ml)
    ex.oblige('the centre longitude is half way between west and east', st.cond, mo)
    cl, co = ex.call(f, [p], copyst(st)), ex.call(g, [p], copyst(st))
    for la in (True, False):
        for lo in (True, False):
            s = copyst(st)
            pl = ex.new_input_obj() if la else NULL
            po = ex.new_input_obj() if lo else NULL
            ex.call(h, [p, pl, po], s)
            if la:
                ex.oblige('GetCenter gives the latitude asked for', s.cond, ex.m.load(s.mem, pl, 'f64') == cl)
            if lo:
                ex.oblige('GetCenter gives the longitude asked for', s.cond, ex.m.load(s.mem, po, 'f64') == co)
            ex.oblige('GetCenter changes nothing', s.cond, same(box_at(ex, b, p, s), v))
    ex.under_contract = [b.m.dem[x] for x in (f, g, h)]
    ex.covers = [st.cond]
    return ex


def centre_contracts(ex, b):
    """GetCenterLat/Lon as functions of the sides (verified above), kept uninterpreted"""
    MID = z3.Function('mid', F64, F64, F64)

    def mk(x, y):
        def h(ex, n, a, st):
            '''half way between the two sides (verified: centre)'''
            v = box_at(ex, b, a[0], st)
            return MID(v[x], v[y])
        return h
    ex.contracts.append((RX(r'^kmlengine::Bbox::GetCenterLat\(\) const$'), mk('north', 'south')))
    ex.contracts.append((RX(r'^kmlengine::Bbox::GetCenterLon\(\) const$'), mk('east', 'west')))
    return MID


def align(b):
    """AlignBbox: shrink to the quadrant holding the target, repeatedly, at most max_depth + 1 times"""
    ex = new_exec(b)
    MID = centre_contracts(ex, b)
    st = start(ex)
    p, t = new_box(ex, b, 'target', st)
    q, v = new_box(ex, b, 'quad', st, nums=False)
    d = z3.Int('depth')
    ex.axiom(And(d >= -(1 << 31), d < (1 << 31)))
    ud = z3.If(d < 0, d + (1 << 32), d)
    A = {n: z3.Function('align.' + n, F64, F64, F64, F64, z3.IntSort(), F64) for n in SIDES}
    f = b.fn(B + 'AlignBbox')
    first = [True]

    def rec(ex, n, a, st):
        '''aligned box of the current one at the given depth (induction on depth)'''
        if first[0]:
            first[0] = False
            return ex.run_function(ex.mod.funcs[n], a, st)
        w = box_at(ex, b, a[1], st)
        k = ex.u(a[2], 32)
        ex.oblige('AlignBbox recurses on the same target and box, one level less', st.cond, And(ptr_eq_(a[0], p), ptr_eq_(a[1], q), Eq(k, ud - 1), ud > 0))
        for m in SIDES:
            ex.call(b.fn(B + 'set_%s\\(' % m), [a[1], A[m](*[w[x] for x in SIDES], zi(k))], st)
    lat, lon = MID(v['north'], v['south']), MID(v['east'], v['west'])
    quads = [dict(north=v['north'], south=lat, east=v['east'], west=lon), dict(north=v['north'], south=lat, east=lon, west=v['west']),
             dict(north=lat, south=v['south'], east=v['east'], west=lon), dict(north=lat, south=v['south'], east=lon, west=v['west'])]
    ex.contracts.append((RX(r'^kmlengine::Bbox::AlignBbox'), rec))
    ex.call(f, [p, q, d], st)
    w = box_at(ex, b, q, st)
    ins = [inside(t, x) for x in quads]
    for i, x in enumerate(quads):
        c = And(ins[i], *[Not(y) for y in ins[:i]])
        ex.oblige('AlignBbox: quadrant %d that holds the target is taken' % i, And(st.cond, c, ud == 0), same(w, x))
        ex.oblige('AlignBbox: then continues inside quadrant %d' % i, And(st.cond, c, ud > 0), And(*[w[m] == A[m](*[x[k] for k in SIDES], ud - 1) for m in SIDES]))
    ex.oblige('AlignBbox: stops when no quadrant holds the target', And(st.cond, *[Not(y) for y in ins]), same(w, v))
    ex.oblige('AlignBbox leaves the target alone', st.cond, same(box_at(ex, b, p, st), t))
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def ptr_eq_(a, c):
    return And(Eq(a.obj, c.obj), Eq(a.off, c.off))


def units(b):
    return [Unit('Bbox sides', lambda: fields(b)), Unit('Bbox growth', lambda: grow(b)), Unit('Bbox centre', lambda: centre(b)), Unit('AlignBbox', lambda: align(b))]
