"""Regions, quad trees and the regionator (property V05)."""
import z3
from dv.core import *
from dv.unit import Unit
from .baselib import RX
from .domlib import *
from .p_serialize import set_vtable
from .p_locate import tok, set_tok, elem, fld, notnull, half, F64, I

MODULE = 'eng'
R = r'kmlregionator::'
SIDES = ('north', 'south', 'east', 'west')
QUAD = {'NW': 0, 'NE': 1, 'SW': 2, 'SE': 3}


def getf(ex, dom, cls, name, p, st):
    return get_field(ex, dom, fld(dom, cls, name), p, st)


def clone_of(ex, dom, cls, src, st):
    """a new element of the class with the same fields, no parent"""
    p = ex.new_input_obj()
    ex.m.private.add(p.obj)
    ctor = dom.fn(cls, short(cls))
    ex.call(ctor, [p], st)
    n0, n1 = dom.sizeof('kmldom::Element'), dom.sizeof(cls)
    st.mem = ex.m.copy(st.mem, p.plus(n0), n1 - n0, st.mem, src.plus(n0))
    return p


def clone_contract(ex, dom, name, cls):
    made = []

    def h(ex, n, a, st):
        '''a new element equal to the original, without a parent (kmlengine::Clone: property E04)'''
        src = ex.m.load(st.mem, a[1], 'ptr')
        ex.oblige('%s: there is something to clone' % name, st.cond, notnull(src))
        p = clone_of(ex, dom, cls, src, st)
        st.mem = ex.m.store(st.mem, a[0], 'ptr', p)
        made.append((p, src))
    ex.contracts.append((RX(r'^kmlregionator::%s\(' % name), h))
    return made


def child(b, qn):
    dom = b.dom
    ex = new_exec(dom)
    _, st = this_state(ex, True)
    p, ref = elem(ex, dom, 'kmldom::Region', st)
    boxes = clone_contract(ex, dom, 'CloneLatLonAltBox', 'kmldom::LatLonAltBox')
    lods = clone_contract(ex, dom, 'CloneLod', 'kmldom::Lod')
    llab = getf(ex, dom, 'kmldom::Region', 'latlonaltbox', p, st)
    lod = getf(ex, dom, 'kmldom::Region', 'lod', p, st)
    lb = 'kmldom::LatLonAltBox'
    v = {n: getf(ex, dom, lb, n, llab, st) for n in SIDES}
    rest = [f for f in dom.all_fields(lb) if f.kind in ('double', 'int') and f.name not in SIDES]
    v0 = {f.name: (get_field(ex, dom, f, llab, st), has_field(ex, dom, f, llab, st)) for f in rest}
    CLA, CLO = z3.FP('mid_lat', F64), z3.FP('mid_lon', F64)

    def centre(ex, n, a, st):
        '''centre of the box (verified: centre of a LatLonBox)'''
        x = ex.m.load(st.mem, a[0], 'ptr')
        ex.oblige('the centre is that of the parent box', st.cond, ptr_eq(x, llab))
        st.mem = ex.m.store(st.mem, a[1], 'f64', CLA)
        st.mem = ex.m.store(st.mem, a[2], 'f64', CLO)
    ex.contracts.append((RX(r'^kmlengine::GetCenter\(boost|^kmlengine::GetCenter\(iptr|^kmlengine::GetCenter\('), centre))
    fn = b.fn(R + r'CreateChildRegion\(')
    ret = ex.alloc()
    ex.call(fn, [ret, ref, QUAD[qn]], st)
    c = ex.m.load(st.mem, ret, 'ptr')
    ex.oblige('CreateChildRegion %s gives a region' % qn, st.cond, notnull(c))
    nb = getf(ex, dom, 'kmldom::Region', 'latlonaltbox', c, st)
    has = notnull(llab)
    ex.oblige('%s: the child has a box exactly when the parent has' % qn, st.cond, zb(notnull(nb)) == zb(has))
    want = dict(v)
    want['south' if qn[0] == 'N' else 'north'] = CLA
    want['east' if qn[1] == 'W' else 'west'] = CLO
    for n in SIDES:
        ex.oblige('%s: the %s side of the child' % (qn, n), And(st.cond, has), getf(ex, dom, lb, n, nb, st) == want[n])
    for f in rest:
        ex.oblige('%s: %s is that of the parent' % (qn, f.name), And(st.cond, has), And(veq(get_field(ex, dom, f, nb, st), v0[f.name][0]), zb(has_field(ex, dom, f, nb, st)) == zb(v0[f.name][1])))
    for n in SIDES:
        ex.oblige('%s: the parent is unchanged' % qn, And(st.cond, has), getf(ex, dom, lb, n, llab, st) == v[n])
    nl = getf(ex, dom, 'kmldom::Region', 'lod', c, st)
    ex.oblige('%s: the child has a Lod exactly when the parent has' % qn, st.cond, zb(notnull(nl)) == zb(notnull(lod)))
    for l, src in lods:
        ex.oblige('%s: the Lod is a clone of that of the parent' % qn, And(st.cond, notnull(lod)), And(ptr_eq(nl, l), ptr_eq(src, lod)))
    ex.under_contract = [b.m.dem[fn]]
    ex.covers = [st.cond]
    return ex


def align(b):
    dom = b.dom
    ex = new_exec(dom)
    _, st = this_state(ex, True)
    p, ref = elem(ex, dom, 'kmldom::LatLonBox', st)
    q, qref = elem(ex, dom, 'kmldom::LatLonAltBox', st)
    v = {n: getf(ex, dom, 'kmldom::LatLonBox', n, p, st) for n in SIDES}
    o = {n: getf(ex, dom, 'kmldom::LatLonAltBox', n, q, st) for n in SIDES}
    for x in v.values():
        ex.axiom(Not(z3.fpIsNaN(x)))
    A = {n: z3.FP('aligned.' + n, F64) for n in SIDES}
    B = r'kmlengine::Bbox::'
    calls = ex.newlog()

    def al(ex, n, a, st):
        '''the smallest quad of the tree holding the target (verified: AlignBbox)'''
        for nm in SIDES:
            g = b.fn(B + 'get_%s\\(' % nm)
            ex.oblige('the target is the box itself: %s' % nm, st.cond, ex.call(g, [a[0]], scratch_state(st)) == v[nm])
            ex.oblige('the tree starts at the whole square: %s' % nm, st.cond, ex.call(g, [a[1]], scratch_state(st)) == z3.FPVal(180 if nm in ('north', 'east') else -180, F64))
        ex.oblige('depth 24', st.cond, Eq(a[2], 24))
        for nm in SIDES:
            ex.call(b.fn(B + 'set_%s\\(' % nm), [a[1], A[nm]], st)
        calls.append(st.cond)
    ex.contracts.append((RX(r'^kmlengine::Bbox::AlignBbox'), al))
    fn = b.fn(R + r'CreateAlignedAbstractLatLonBox\(')
    s = scratch_state(st)
    arg = ex.alloc()
    s.mem = ex.m.store(s.mem, arg, 'ptr', q)
    r = ex.call(fn, [ref, arg], s)
    lim = z3.FPVal(180, F64)
    neg = z3.FPVal(-180, F64)
    inr = And(z3.fpLEQ(v['north'], lim), z3.fpGEQ(v['south'], neg), z3.fpLEQ(v['east'], lim), z3.fpGEQ(v['west'], neg))
    ex.oblige('aligning succeeds exactly for boxes within the square', s.cond, zb(r) == inr)
    for n in SIDES:
        g = getf(ex, dom, 'kmldom::LatLonAltBox', n, q, s)
        ex.oblige('the %s side of the aligned box' % n, And(s.cond, inr), g == A[n])
        ex.oblige('the %s side is left alone on failure' % n, And(s.cond, Not(inr)), g == o[n])
        ex.oblige('the box itself is unchanged: %s' % n, s.cond, getf(ex, dom, 'kmldom::LatLonBox', n, p, s) == v[n])
    nul = ex.alloc()
    for i in (0, 1):
        s = scratch_state(st)
        s.mem = ex.m.store(s.mem, nul, 'ptr', NULL)
        s.mem = ex.m.store(s.mem, arg, 'ptr', q)
        r = ex.call(fn, [nul, arg] if i == 0 else [ref, nul], s)
        ex.oblige('nothing to align: false', s.cond, Not(zb(r)))
    ex.under_contract = [b.m.dem[fn]]
    ex.covers = [st.cond]
    return ex


def qid(b):
    dom = b.dom
    ex = new_exec(dom)
    _, st = this_state(ex, True)
    S = ex.lib.str
    this = ex.alloc()
    t = z3.Const('qid', ex.S)
    st.mem = ex.m.store(st.mem, this, 'str', t)
    und = []
    fn = b.fn(R + r'Qid::CreateChild\(')
    for q, k in QUAD.items():
        s = scratch_state(st)
        ret = ex.alloc()
        ex.call(fn, [ret, this, k], s)
        ex.oblige('CreateChild(%s) appends the digit %d' % (q, k), s.cond, Eq(ex.m.load(s.mem, ret, 'str'), S.cat(t, S.lit(b'%d' % k))))
    und.append(b.m.dem[fn])
    fn = b.fn(R + r'Qid::CreateRoot\(')
    s = scratch_state(st)
    ret = ex.alloc()
    ex.call(fn, [ret], s)
    root_ = ex.m.load(s.mem, ret, 'str')
    und.append(b.m.dem[fn])
    fn = b.fn(R + r'Qid::IsRoot\(')
    und.append(b.m.dem[fn])
    r = ex.call(fn, [ret], scratch_state(s))
    ex.oblige('the root is the root', s.cond, r)
    r = ex.call(fn, [this], scratch_state(st))
    ex.oblige('only the root is', st.cond, zb(r) == (t == root_))
    ex.under_contract = und
    ex.covers = [st.cond]
    return ex


def recurse(b):
    """Regionator::Recurse: the child region of the quadrant, with the child's id, is regionated and kept if it has data"""
    dom = b.dom
    ex = new_exec(dom)
    _, st = this_state(ex, True)
    this = ex.new_input_obj()
    S = ex.lib.str
    p, ref = elem(ex, dom, 'kmldom::Region', st)
    q = z3.Int('quadrant')
    ex.axiom(And(q >= 0, q <= 3))
    made = []
    DATA = z3.Bool('child.has_data')

    def mk(ex, n, a, st):
        '''child region of the quadrant (verified: CreateChildRegion)'''
        x = ex.m.load(st.mem, a[1], 'ptr')
        ex.oblige('the child is one of the given region, in the given quadrant', st.cond, And(ptr_eq(x, p), Eq(a[2], q)))
        c = ex.new_input_obj()
        ex.m.private.add(c.obj)
        set_vtable(ex, dom, 'kmldom::Region', c, st)
        st.mem = ex.m.store(st.mem, a[0], 'ptr', c)
        made.append(c)
    seen = ex.newlog()

    def rg(ex, n, a, st):
        '''regionates the region; says whether it had data'''
        c = ex.m.load(st.mem, a[1], 'ptr')
        cid = getf(ex, dom, 'kmldom::Region', 'id', c, st)
        seen.append((st.cond, c, cid))
        return DATA
    CH = z3.Function('qid.child', ex.S, I, ex.S)

    def cc(ex, n, a, st):
        '''the id with the digit of the quadrant appended (verified: Qid)'''
        st.mem = ex.m.store(st.mem, a[0], 'str', CH(ex.m.load(st.mem, a[1], 'str'), zi(a[2])))
    ex.contracts.append((RX(r'^kmlregionator::CreateChildRegion'), mk))
    ex.contracts.append((RX(r'^kmlregionator::Regionator::_Regionate'), rg))
    ex.contracts.append((RX(r'^kmlregionator::Qid::CreateChild'), cc))
    vec = ex.alloc()
    n0 = z3.Int('n0')
    ex.axiom(And(n0 >= 0, n0 < 4))
    ex.lib.set_vsize(vec, n0, st)
    pid = getf(ex, dom, 'kmldom::Region', 'id', p, st)
    fn = b.fn(R + r'Regionator::Recurse\(')
    ex.call(fn, [this, ref, q, vec], st)
    ex.oblige('the child is regionated, once', st.cond, And(len(seen) == 1, len(made) == 1, *[And(c, ptr_eq(x, made[0])) for c, x, i in seen]))
    for c, x, i in seen:
        ex.oblige('the child has the id of its quadrant', st.cond, Eq(i, CH(pid, q)))
    n1 = ex.lib.vsize(vec, st)
    ex.oblige('a child with data is kept, one without is not', st.cond, Eq(n1, z3.If(DATA, n0 + 1, n0)))
    last = ex.m.load(st.mem, ex.lib.vbase(vec).plus(simp(8 * n0)), 'ptr')
    ex.oblige('the child kept is this one', And(st.cond, DATA), ptr_eq(last, made[0]) if made else False)
    ex.under_contract = [b.m.dem[fn]]
    ex.covers = [st.cond]
    return ex


def split(b):
    """RegionSplit: BboxSplit with the sides of the region's box"""
    dom = b.dom
    ex = new_exec(dom)
    _, st = this_state(ex, True)
    this = ex.new_input_obj()
    p, ref = elem(ex, dom, 'kmldom::Region', st)
    llab = getf(ex, dom, 'kmldom::Region', 'latlonaltbox', p, st)
    v = {n: getf(ex, dom, 'kmldom::LatLonAltBox', n, llab, st) for n in SIDES}
    mx = z3.Int('max')
    N = z3.Int('taken')
    ex.axiom(And(mx >= 0, N >= 0))
    out = ex.new_input_obj()
    calls = ex.newlog()

    def bs(ex, n, a, st):
        '''moves up to max features inside the box to the output'''
        for nm in SIDES:
            ex.oblige('the box is that of the region: %s' % nm, st.cond, ex.call(b.fn(r'kmlengine::Bbox::get_%s\(' % nm), [a[1]], scratch_state(st)) == v[nm])
        ex.oblige('list, limit and output are passed on', st.cond, And(ptr_eq(a[0], this), Eq(a[2], mx), ptr_eq(a[3], out)))
        calls.append(st.cond)
        return N
    ex.contracts.append((RX(r'^kmlconvenience::FeatureList::BboxSplit'), bs))
    fn = b.fn(r'kmlconvenience::FeatureList::RegionSplit\(')
    r = ex.call(fn, [this, ref, mx, out], st)
    ex.oblige('RegionSplit takes what lies in the region; nothing when the region has no box', st.cond, Eq(r, z3.If(zb(notnull(llab)), N, z3.IntVal(0))))
    ex.oblige('RegionSplit splits once', st.cond, And(len(calls) == 1))
    nul = ex.alloc()
    s = scratch_state(st)
    s.mem = ex.m.store(s.mem, nul, 'ptr', NULL)
    r = ex.call(fn, [this, nul, mx, out], s)
    ex.oblige('no region, nothing taken', s.cond, Eq(r, 0))
    ex.under_contract = [b.m.dem[fn]]
    ex.covers = [st.cond]
    return ex


def regionate(b, natural, outdir):
    """_Regionate: nothing without data; else the four children in order, then the region's own file: links to the children kept, the handler's feature"""
    dom = b.dom
    ex = new_exec(dom)
    _, st = this_state(ex, True)
    S = ex.lib.str
    this = ex.new_input_obj()
    ex.m.private.add(this.obj)
    O = lambda f: b.off('kmlregionator::Regionator', f)
    rh, nat = ex.new_input_obj(), ex.new_input_obj()
    ex.m.private.add(nat.obj)
    set_vtable(ex, dom, 'kmldom::Region', nat, st)
    cnt = z3.Int('count')
    ex.axiom(And(cnt >= 0, cnt < (1 << 31) - 1))
    qmap = this.plus(O('qid_map_'))
    H = z3.Const('known', z3.ArraySort(ex.S, z3.BoolSort()))
    st.mem = ex.m.store(st.mem, this.plus(O('rhandler_')), 'ptr', rh)
    st.mem = ex.m.store(st.mem, this.plus(O('region_count_')), 'i32', cnt)
    st.mem = ex.m.store(st.mem, qmap, 'mhas', H)
    st.mem = ex.m.store(st.mem, this.plus(O('natural_region_')), 'ptr', nat if natural else NULL)
    dirp = ex.new_input_obj() if outdir else NULL
    st.mem = ex.m.store(st.mem, this.plus(O('output_directory_')), 'ptr', dirp)
    st.mem = ex.m.store(st.mem, this.plus(O('root_filename_')), 'ptr', NULL)
    p, ref = elem(ex, dom, 'kmldom::Region', st)
    rid = getf(ex, dom, 'kmldom::Region', 'id', p, st)
    HAS = z3.Bool('handler.has_data')
    log = ex.newlog()
    FEAT = ex.input_ptr('feature', nonnull=False)
    kids = [ex.new_input_obj() for _ in range(4)]
    D = [z3.Bool('child%d.kept' % i) for i in range(4)]
    T = z3.Function('fold', I, I, I)            # what has been added to the document so far
    NLK = z3.Function('link', I, ex.S, I)       # the network link to a region under an href
    FN = z3.Function('filename', I, ex.S)
    base_cnt = cnt + 1

    def hasdata(ex, n, a, st):
        '''application code: any answer'''
        ex.oblige('the handler is asked about this region', st.cond, And(ptr_eq(a[0], rh), ptr_eq(ex.m.load(st.mem, a[1], 'ptr'), p)))
        log.append(('hasdata', st.cond, None))
        return HAS

    def getfeature(ex, n, a, st):
        '''application code: any feature or none'''
        ex.oblige('the handler is asked for the feature of this region', st.cond, And(ptr_eq(a[1], rh), ptr_eq(ex.m.load(st.mem, a[2], 'ptr'), p)))
        log.append(('getfeature', st.cond, None))
        st.mem = ex.m.store(st.mem, a[0], 'ptr', FEAT)

    def recurse_(ex, n, a, st):
        '''regionates the child of the quadrant and keeps it if it has data (verified: Recurse)'''
        q = as_const(a[2])
        i = len([x for x in log if x[0] == 'child'])
        ex.oblige('the children are visited in the order NW NE SW SE', st.cond, And(q is not None and q == i, ptr_eq(a[0], this), ptr_eq(ex.m.load(st.mem, a[1], 'ptr'), p)))
        ex.oblige('the region is counted and known before its children', st.cond,
                  And(Eq(ex.m.load(st.mem, this.plus(O('region_count_')), 'i32'), base_cnt) if i == 0 else True, z3.Select(ex.lib.mhas(qmap, st), rid)))
        log.append(('child', st.cond, q))
        i = min(i, 3)
        v = a[3]
        n0 = ex.lib.vsize(v, st)
        c = ex.lib.vbase(v).plus(ex.mul_c(n0, 8))
        st.mem = ex.m.store(st.mem, c, 'ptr', kids[i])
        ex.lib.set_vsize(v, z3.If(D[i], zi(n0) + 1, zi(n0)), st)

    def fname(ex, n, a, st):
        '''file name of the region (verified: RegionFilename)'''
        st.mem = ex.m.store(st.mem, a[0], 'str', FN(zi(ex.m.load(st.mem, a[2], 'ptr').obj)))

    def newdoc(ex, n, a, st):
        '''a new document with a copy of the region (verified: CreateRegionDocument)'''
        d = ex.new_input_obj()
        ex.m.private.add(d.obj)
        set_vtable(ex, dom, 'kmldom::Document', d, st)
        ex.call(dom.fn('kmldom::Document', 'Document'), [d], st)
        set_tok(ex, d, 0, st)
        ex.oblige('the document is for this region', st.cond, ptr_eq(ex.m.load(st.mem, a[1], 'ptr'), p))
        st.mem = ex.m.store(st.mem, a[0], 'ptr', d)
        log.append(('document', st.cond, d))

    def netlink(ex, n, a, st):
        '''a network link to the href with a copy of the region (verified: CreateRegionNetworkLink)'''
        l = NLK(zi(ex.m.load(st.mem, a[1], 'ptr').obj), ex.m.load(st.mem, a[2], 'str'))
        ex.axiom(l > 0)
        st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(l, 0))

    def addf(ex, n, a, st):
        '''appends the feature (verified: D01, D04)'''
        f = ex.m.load(st.mem, a[1], 'ptr')
        docs = [x[2] for x in log if x[0] == 'document']
        ex.oblige('features go into the document of this region', st.cond, ptr_eq(a[0], docs[-1]) if docs else False)
        ex.oblige('no null feature is added', st.cond, notnull(f))
        set_tok(ex, a[0], T(tok(ex, a[0], st), zi(f.obj)), st)
    alink = ex.new_input_obj()

    def blink(ex, n, a, st):
        '''an atom link with this href, rel and type'''
        g = lambda x: ex.m.load(st.mem, x, 'str')
        isr = rid == S.lit(b'q0')
        ex.oblige('the root is its own self, the others point up to it', st.cond, And(Eq(g(a[1]), S.lit(b'1.kml')), Eq(g(a[2]), z3.If(isr, S.lit(b'self'), S.lit(b'up')))))
        ex.m.private.add(alink.obj)
        set_vtable(ex, dom, 'kmldom::AtomLink', alink, st)
        ex.call(dom.fn('kmldom::AtomLink', 'AtomLink'), [alink], st)
        st.mem = ex.m.store(st.mem, a[0], 'ptr', alink)
    VIEW = ex.new_input_obj()

    def look(ex, n, a, st):
        '''a LookAt of the box'''
        nb = getf(ex, dom, 'kmldom::Region', 'latlonaltbox', nat, st)
        for nm in SIDES:
            ex.oblige('the root view is of the natural box: %s' % nm, st.cond, ex.call(b.fn(r'kmlengine::Bbox::get_%s\(' % nm), [a[1]], scratch_state(st)) == getf(ex, dom, 'kmldom::LatLonAltBox', nm, nb, st))
        ex.m.private.add(VIEW.obj)
        set_vtable(ex, dom, 'kmldom::LookAt', VIEW, st)
        ex.call(dom.fn('kmldom::LookAt', 'LookAt'), [VIEW], st)
        st.mem = ex.m.store(st.mem, a[0], 'ptr', VIEW)
        log.append(('view', st.cond, None))
    JP = z3.Function('join', ex.S, ex.S, ex.S)

    def join(ex, n, a, st):
        '''the file within the directory'''
        st.mem = ex.m.store(st.mem, a[0], 'str', JP(ex.m.load(st.mem, a[1], 'str'), ex.m.load(st.mem, a[2], 'str')))

    def save(ex, n, a, st):
        '''application code'''
        k = ex.m.load(st.mem, a[1], 'ptr')
        log.append(('save', st.cond, (a[0], getf(ex, dom, 'kmldom::Kml', 'feature', k, st), ex.m.load(st.mem, a[2], 'str'), scratch_state(st))))
    C = ex.contracts
    C.append((RX(r'^kmlregionator::Regionator::Recurse'), recurse_))
    C.append((RX(r'^kmlregionator::Regionator::RegionFilename'), fname))
    C.append((RX(r'^kmlregionator::CreateRegionDocument'), newdoc))
    C.append((RX(r'^kmlregionator::CreateRegionNetworkLink'), netlink))
    C.append((RX(r'^kmldom::Container::add_feature'), addf))
    C.append((RX(r'^kmlconvenience::AtomUtil::CreateBasicLink'), blink))
    C.append((RX(r'^kmlengine::ComputeBboxLookAt'), look))
    C.append((RX(r'^kmlbase::File::JoinPaths'), join))
    ex.vcontracts['HasData'] = hasdata
    ex.vcontracts['GetFeature'] = getfeature
    ex.vcontracts['SaveKml'] = save
    ex.unroll.append((RX(r'.*Regionator::_Regionate'), 6))
    fn = b.fn(R + r'Regionator::_Regionate\(')
    r = ex.call(fn, [this, ref], st)
    ok = And(HAS, notnull(FEAT))
    ex.oblige('a region counts as one with data exactly when the handler has data and a feature for it', st.cond, zb(r) == zb(ok))
    conds = lambda k: [x[1] for x in log if x[0] == k]
    for k, c in (('hasdata', True), ('getfeature', HAS), ('save', ok)):
        l = conds(k)
        ex.oblige('%s: done when called for' % k, And(st.cond, c), Or(*l))
        ex.oblige('%s: at most once' % k, st.cond, len(l) <= 1)
        for x in l:
            ex.oblige('%s: only when called for' % k, x, c)
    ex.oblige('each child is visited once', And(st.cond, HAS), And(len(conds('child')) == 4, *conds('child')))
    for x in conds('child'):
        ex.oblige('no child is visited without data', x, HAS)
    for k, c, (h, doc, name, s) in [x for x in log if x[0] == 'save']:
        d = [x[2] for x in log if x[0] == 'document'][0]
        ex.oblige('the file saved holds the document', c, And(ptr_eq(h, rh), ptr_eq(doc, d)))
        ex.oblige('the file is saved under the name of the region', c, Eq(name, JP(ex.lib.cstr_of(dirp, s), FN(zi(p.obj))) if outdir else FN(zi(p.obj))))
        t = z3.IntVal(0)
        for i in range(4):
            t = z3.If(D[i], T(t, NLK(zi(kids[i].obj), FN(zi(kids[i].obj)))), t)
        t = T(t, zi(FEAT.obj))
        ex.oblige('the document links the children with data, in order, then holds the feature', c, tok(ex, d, s) == t)
        ex.oblige('the document is named after the region', c, Eq(getf(ex, dom, 'kmldom::Document', 'name', d, s), rid))
        ex.oblige('the document carries the atom link', c, ptr_eq(getf(ex, dom, 'kmldom::Document', 'atomlink', d, s), alink))
        v = getf(ex, dom, 'kmldom::Document', 'abstractview', d, s)
        nb = getf(ex, dom, 'kmldom::Region', 'latlonaltbox', nat, s)
        ex.oblige('the root document looks at the natural box, others at nothing', c, ptr_eq(v, ite(And(rid == S.lit(b'q0'), notnull(nb)), VIEW, NULL)) if natural else Not(notnull(v)))
    ex.under_contract = [b.m.dem[fn]]
    ex.covers = [And(st.cond, HAS, notnull(FEAT), D[0], D[3])]
    return ex


def filename(b):
    """RegionFilename: the number of the region, so no two regions share a file"""
    dom = b.dom
    ex = new_exec(dom)
    _, st = this_state(ex, True)
    S = ex.lib.str
    this = ex.new_input_obj()
    ex.m.private.add(this.obj)
    O = lambda f: b.off('kmlregionator::Regionator', f)
    rf = ex.input_ptr('root_filename', nonnull=False)
    st.mem = ex.m.store(st.mem, this.plus(O('root_filename_')), 'ptr', rf)
    p, ref = elem(ex, dom, 'kmldom::Region', st)
    rid = getf(ex, dom, 'kmldom::Region', 'id', p, st)
    qmap = this.plus(O('qid_map_'))
    H = z3.Const('known', z3.ArraySort(ex.S, z3.BoolSort()))
    ex.axiom(z3.Select(H, rid))
    st.mem = ex.m.store(st.mem, qmap, 'mhas', H)
    num = z3.Int('number')
    ex.axiom(And(num >= 1, num < (1 << 31)))
    st.mem = ex.m.store(st.mem, ex.lib.mslot(qmap, rid).plus(32), 'i32', num)
    ret = ex.alloc()
    fn = b.fn(R + r'Regionator::RegionFilename\(')
    ex.call(fn, [ret, this, ref], st)
    r = ex.m.load(st.mem, ret, 'str')
    root_ = And(rid == S.lit(b'q0'), notnull(rf))
    ex.oblige('the root has the root file name when there is one', And(st.cond, root_), Eq(r, ex.lib.cstr_of(rf, st)))
    ex.oblige('other regions are named by their number', And(st.cond, Not(root_)), Eq(r, S.cat(ex.lib.fmt('int', num), S.lit(b'.kml'))))
    ex.under_contract = [b.m.dem[fn]]
    ex.covers = [st.cond]
    return ex


def units(b):
    return [Unit('CreateChildRegion ' + q, lambda q=q: child(b, q)) for q in QUAD] + [
        Unit('CreateAlignedAbstractLatLonBox', lambda: align(b)), Unit('Qid', lambda: qid(b)), Unit('Recurse', lambda: recurse(b)), Unit('RegionSplit', lambda: split(b)), Unit('RegionFilename', lambda: filename(b))] + [
        Unit('_Regionate%s%s' % (' aligned' if n else '', ' into a directory' if o else ''), lambda n=n, o=o: regionate(b, n, o)) for n in (False, True) for o in (False, True)]
