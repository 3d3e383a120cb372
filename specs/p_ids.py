"""Ids, shared styles and link parents of a file (property E02)."""
from .evlib import *
from .p_parse import ids
from .p_split import asbool, field, arg_in

MODULE = 'eng'
KF = 'kmlengine::KmlFile'


class Ids(Ev):
    def __init__(self, b):
        Ev.__init__(self, b)
        self.casts()
        self.T = ids()
        self.key = z3.Const('any_key', self.ex.S)
        self.fi = field(b, 'Style', 'id')

    def is_(self, x, t):
        return zb(self.isa(x, self.T['Type_' + t]))

    def mhas(self, mp, st, k=None):
        return z3.Select(self.ex.m.load(st.mem, mp, 'mhas'), self.key if k is None else k)

    def mval(self, mp, st, k=None):
        return self.ptr(st, self.ex.lib.mslot(mp, self.key if k is None else k).plus(32))

    def child(self, name):
        """an element with the members of an Object, if it is one"""
        X = self.obj()
        return X, zi(X.obj), D.get_field(self.ex, self.b.dom, self.fi, X, self.st), D.has_field(self.ex, self.b.dom, self.fi, X, self.st)

    def entered(self, what, mp, st, st0, cond, k, v):
        """the entry of key k becomes v when cond holds; everything else stays"""
        ex = self.ex
        cond = zb(cond)
        ex.oblige(what + ': its entry', And(st.cond, cond), And(self.mhas(mp, st, k), ptr_eq(self.mval(mp, st, k), v)))
        ex.oblige(what + ': no other entry appears or goes', st.cond, Eq(self.mhas(mp, st), Or(self.mhas(mp, st0), And(cond, self.key == k))))
        ex.oblige(what + ': the other entries stay', And(st.cond, self.mhas(mp, st0), Not(And(cond, self.key == k))), ptr_eq(self.mval(mp, st), self.mval(mp, st0)))


def object_observer(b):
    h = Ids(b)
    ex, st = h.ex, h.st
    c, f = b.fn(r'kmlengine::ObjectIdParserObserver::ObjectIdParserObserver\('), b.fn(r'kmlengine::ObjectIdParserObserver::NewElement\(')
    ex.contracts.append((RX(r'^kmldom::ParserObserver::ParserObserver'), lambda ex, n, a, st: None))
    this, mp = h.obj(), ex.new_input_obj()
    strict = z3.Bool('strict')
    ex.call(c, [this, mp, strict], st)
    X, x, i, has = h.child('element')
    st0 = copy_(st)
    r = ex.call(f, [this, h.ptrarg(X)], st)
    w = And(h.is_(x, 'Object'), has)
    dup = And(w, strict, h.mhas(mp, st0, i))
    ex.oblige('a second object of an id ends a strict parse, and nothing else does', st.cond, Eq(asbool(r), Not(dup)))
    h.entered('an object with an id is found by it', mp, st, st0, And(w, Not(dup)), i, X)
    return h.fin(c, f)


def style_observer(b):
    h = Ids(b)
    ex, st = h.ex, h.st
    c, f = b.fn(r'kmlengine::SharedStyleParserObserver::SharedStyleParserObserver\('), b.fn(r'kmlengine::SharedStyleParserObserver::AddChild\(')
    ex.contracts.append((RX(r'^kmldom::ParserObserver::ParserObserver'), lambda ex, n, a, st: None))
    this, mp = h.obj(), ex.new_input_obj()
    strict = z3.Bool('strict')
    ex.call(c, [this, mp, strict], st)
    X, x, i, has = h.child('child')
    p = z3.Int('parent')
    ex.axiom(p > 0)
    st0 = copy_(st)
    r = ex.call(f, [this, h.ptrarg(Ptr(p, 0)), h.ptrarg(X)], st)
    w = And(h.is_(p, 'Document'), h.is_(x, 'StyleSelector'), has)
    dup = And(w, strict, h.mhas(mp, st0, i))
    ex.oblige('a second style of an id ends a strict parse, and nothing else does', st.cond, Eq(asbool(r), Not(dup)))
    h.entered('a style with an id in a Document is a shared style', mp, st, st0, And(w, Not(dup)), i, X)
    return h.fin(c, f)


ICON, LINK = ('PhotoOverlay', 'GroundOverlay', 'ScreenOverlay', 'ItemIcon', 'IconStyle'), ('NetworkLink', 'Model')


def parents(b):
    h = Ids(b)
    ex, st = h.ex, h.st
    x = z3.Int('element')
    ex.axiom(x > 0)
    px = h.ptrarg(Ptr(x, 0))
    g = lambda l: Or(*[h.TYPE(x) == h.T['Type_' + t] for t in l])
    fs = []
    for n, l in (('IsIconParent', ICON), ('IsLinkParent', LINK)):
        f = b.fn(r'kmlengine::%s\(' % n)
        r = ex.call(f, [px], D.scratch_state(st))
        ex.oblige(n, st.cond, Eq(asbool(r), g(l)))
        fs.append(f)
    c, f = b.fn(r'kmlengine::GetLinkParentsParserObserver::GetLinkParentsParserObserver\('), b.fn(r'kmlengine::GetLinkParentsParserObserver::NewElement\(')
    ex.contracts.append((RX(r'^kmldom::ParserObserver::ParserObserver'), lambda ex, n, a, st: None))
    this, v = h.obj(), ex.new_input_obj()
    ex.call(c, [this, v], st)
    n0 = ex.lib.vsize(v, st)
    j = z3.Int('j')
    ex.axiom(And(zi(n0) >= 0, zi(n0) < 1 << 40, j >= 0, j < zi(n0)))
    e0 = h.ptr(st, ex.lib.velem(v, j, 8))
    r = ex.call(f, [this, px], st)
    w = zb(g(ICON + LINK))
    ex.oblige('the parse goes on', st.cond, asbool(r))
    ex.oblige('listed exactly if it may have a Link or Icon', st.cond, Eq(ex.lib.vsize(v, st), z3.If(w, zi(n0) + 1, zi(n0))))
    ex.oblige('it comes last', And(st.cond, w), Eq(h.ptr(st, ex.lib.velem(v, zi(n0), 8)).obj, x))
    ex.oblige('those before it stay', st.cond, ptr_eq(h.ptr(st, ex.lib.velem(v, j, 8)), e0))
    return h.fin(c, f, *fs)


def mapper(b, dups):
    h = Ids(b)
    ex, st = h.ex, h.st
    c, f = b.fn(r'kmlengine::IdMapper::IdMapper\('), b.fn(r'kmlengine::IdMapper::SaveElement\(')
    ex.contracts.append((RX(r'^kmldom::Serializer::Serializer'), lambda ex, n, a, st: None))
    this, mp = h.obj(), ex.new_input_obj()
    v = ex.new_input_obj() if dups else NULL
    ex.call(c, [this, mp, v], st)
    X, x, i, has = h.child('element')
    st0 = copy_(st)
    if dups:
        n0 = ex.lib.vsize(v, st)
        j = z3.Int('j')
        ex.axiom(And(zi(n0) >= 0, zi(n0) < 1 << 40, j >= 0, j < zi(n0)))
        e0 = h.ptr(st, ex.lib.velem(v, j, 8))
    log = []

    def base(ex, n, a, st):
        '''visits the children of the element (verified: D02)'''
        h.rec('children visited', lambda st, a: (a[0], h.ptr(st, a[1])))(ex, n, a, st)
    ex.contracts.append((RX(r'^kmldom::Serializer::SaveElement'), base))
    ex.call(f, [this, h.ptrarg(X)], st)
    h.happens('children visited', True, st, (this, X))
    w = And(h.is_(x, 'Object'), has)
    h.entered('an object with an id is found by it', mp, st, st0, w, i, X)
    for c_, a, q, s in h.ev.get('children visited', []):
        ex.oblige('before its children are visited', And(c_, w), And(h.mhas(mp, s, i), ptr_eq(h.mval(mp, s, i), X)))
    if dups:
        d = zb(And(w, h.mhas(mp, st0, i)))
        ex.oblige('one more duplicate exactly if the id was known', st.cond, Eq(ex.lib.vsize(v, st), z3.If(d, zi(n0) + 1, zi(n0))))
        ex.oblige('the duplicate is the object before', And(st.cond, d), ptr_eq(h.ptr(st, ex.lib.velem(v, zi(n0), 8)), h.mval(mp, st0, i)))
        ex.oblige('the duplicates before stay', st.cond, ptr_eq(h.ptr(st, ex.lib.velem(v, j, 8)), e0))
    return h.fin(c, f)


def mapids(b):
    h = Ids(b)
    ex, st = h.ex, h.st
    root, mp, v = z3.Int('root'), z3.Int('map'), z3.Int('dups')
    ex.axiom(And(root >= 0, mp >= 0, v >= 0))
    h.on(r'^kmlengine::IdMapper::IdMapper', 'mapper made', lambda st, a: (a[0], a[1], a[2]))
    h.on(r'^kmlengine::IdMapper::~|^kmldom::Serializer::~', 'gone', lambda st, a: ())
    h.on(r'^kmlengine::IdMapper::SaveElement', 'walked', lambda st, a: (a[0], h.ptr(st, a[1])))
    h.von('SaveElement', 'walked', lambda st, a: (a[0], h.ptr(st, a[1])))
    f = b.fn(r'kmlengine::MapIds\(')
    ex.call(f, [h.ptrarg(Ptr(root, 0)), Ptr(mp, 0), Ptr(v, 0)], st)
    w = And(root > 0, mp > 0)
    m = h.ev['mapper made'][0][1][0] if h.ev.get('mapper made') else NULL
    h.happens('mapper made', w, st, (m, Ptr(mp, 0), Ptr(v, 0)))
    h.happens('walked', w, st, (m, Ptr(root, 0)))
    h.before('mapper made', 'walked')
    return h.fin(f)


class Walk:
    """a map from ids to objects seen in key order, and each loop over it"""
    def __init__(self, h, mp, n):
        ex = h.ex
        self.h, self.n = h, n
        self.q = ex.lib.seq_view(mp, n)

    def node(self, i):
        return Ptr(self.q.nodes.obj, self.h.ex.mul_c(i, self.h.ex.lib.STRIDE))

    def val(self, i, st):
        return self.h.ptr(st, self.node(i).plus(32))

    def key(self, i, st):
        return self.h.str(st, self.node(i))


def clearids(b):
    h = Ids(b)
    ex, st = h.ex, h.st
    root = z3.Int('root')
    ex.axiom(root >= 0)
    n, nd, j, k = z3.Int('n_ids'), z3.Int('n_dups'), z3.Int('j'), z3.Int('k')
    ex.axiom(And(n >= 0, n < 1 << 40, nd >= 0, nd < 1 << 40))
    INT = z3.Function('OBJECT_WITH_ID', I, z3.BoolSort())
    env = {}
    cells = [ex.alloc(8), ex.alloc(8)]          # ghost: has the j-th object of the map, the k-th duplicate been cleared
    for c in cells:
        st.mem = ex.m.store(st.mem, c, 'i64', 0)
    done = lambda s, c: zi(ex.m.load(s.mem, cells[c], 'i64'))

    def item(s, i):
        return env['w'].val(i, s)

    def dup(s, i):
        return h.ptr(s, ex.lib.velem(env['v'], i, 8))

    def fact(s, i):
        """what MapIds has found"""
        for g, m in ((item, n), (dup, nd)):
            if g is dup and 'v' not in env:
                continue
            p = g(s, i)
            ex.axiom(z3.Implies(And(i >= 0, i < m), And(INT(zi(p.obj)), zi(p.obj) > 0, zi(p.off) == 0, zb(h.isa(zi(p.obj), h.T['Type_Object'])))))

    def mapids(ex, nm, a, st):
        '''every object with an id is in the map, or in the duplicates (verified: MapIds, IdMapper::SaveElement)'''
        h.rec('mapped', lambda st, a: (h.ptr(st, a[0]),))(ex, nm, a, st)
        env['w'] = Walk(h, a[1], n)
        if a[2].obj != 0:
            env['v'] = a[2]
            ex.lib.set_vsize(a[2], nd, st)
        else:
            ex.oblige('the duplicates are asked for', st.cond, nd == 0)
        fact(st, j)
        fact(st, k)
        env['st'] = copy_(st)
    ex.contracts.append((RX(r'^kmlengine::MapIds'), mapids))

    def clear(ex, nm, a, st):
        '''the object has no id any more (verified: D01)'''
        if 'w' not in env:
            raise Unsupported('ids cleared before they are mapped')
        s0 = env['st']
        ex.oblige('only objects with an id are changed', st.cond, INT(zi(a[0].obj)))
        for c, p, i, m in ((0, item(s0, j), j, n),) + (((1, dup(s0, k), k, nd),) if 'v' in env else ()):
            st.mem = ex.m.store(st.mem, cells[c], 'i64', z3.If(Eq(a[0].obj, p.obj), z3.IntVal(1), done(st, c)))
    ex.contracts.append((RX(r'^kmldom::Object::clear_id'), clear))

    def gen(ex, rec):
        if 'w' not in env:
            return
        for nm, g, w in rec.ints:
            try:
                v = g(rec.hdr)
            except Unsupported:
                continue
            if not is_z(v) or z3.is_fp(v):
                continue
            fact(env['st'], zi(v))
            for m, what in ((n, 'ids'), (nd, 'duplicates')):
                ex.add_cand(rec, nm + ' within the ' + what, lambda t, g=g, m=m: And(zi(g(t)) >= 0, zi(g(t)) <= m))
            ex.add_cand(rec, 'every object of the map before %s is cleared' % nm, lambda t, g=g: z3.Implies(And(j >= 0, j < zi(g(t)), j < n), done(t, 0) == 1))
            ex.add_cand(rec, 'every duplicate before %s is cleared' % nm, lambda t, g=g: z3.Implies(And(k >= 0, k < zi(g(t)), k < nd), done(t, 1) == 1))
        ex.add_cand(rec, 'all of the map is cleared', lambda t: z3.Implies(And(j >= 0, j < n), done(t, 0) == 1))
        ex.add_cand(rec, 'all duplicates are cleared', lambda t: z3.Implies(And(k >= 0, k < nd), done(t, 1) == 1))
    ex.inv_gens.append(gen)
    f = b.fn(r'kmlengine::ClearIds\(')
    p = h.ptrarg(Ptr(root, 0))
    r = ex.call(f, [p], st)
    h.happens('mapped', True, st, (Ptr(root, 0),))
    ex.oblige('no object of the map keeps its id', And(st.cond, j >= 0, j < n), done(st, 0) == 1)
    ex.oblige('no duplicate keeps its id', And(st.cond, k >= 0, k < nd), done(st, 1) == 1)
    ex.oblige('the root is handed back', st.cond, Eq(h.ptr(st, r).obj, root))
    return h.fin(f)


def remap(b, out):
    h = Ids(b)
    ex, st = h.ex, h.st
    mp, idm = ex.new_input_obj(), ex.new_input_obj()
    n, j = z3.Int('n'), z3.Int('j')
    ex.axiom(And(n >= 0, n < 1 << 30, j >= 0, j < n))
    W = Walk(h, mp, n)
    om = ex.new_input_obj() if out else NULL
    HAS, ID = z3.Function('HAS_ID', I, z3.BoolSort()), z3.Function('ID', I, ex.S)
    POS = z3.Function('POS', I, I)              # the objects are distinct
    st0 = copy_(st)
    obj = lambda i: zi(W.val(i, st0).obj)
    inmap = lambda i: ex.lib.sel(ex.m.load(st0.mem, idm, 'mhas'), ID(obj(i)))
    new = lambda i: h.str(st0, ex.lib.mslot(idm, ID(obj(i))).plus(32))
    cell, idc = ex.alloc(8), ex.alloc(32)       # ghost: what has become of the j-th object
    st.mem = ex.m.store(st.mem, cell, 'i64', 0)
    st.mem = ex.m.store(st.mem, idc, 'str', z3.Const('none', ex.S))
    CNT, OH, OV = z3.Function('CLEARED', I, I), z3.Function('OUT.has', I, z3.BoolSort()), z3.Function('OUT.val', I, I)
    ex.axiom(CNT(0) == 0)
    if out:
        ex.axiom(OH(0) == h.mhas(om, st0))
        ex.axiom(z3.Implies(OH(0), OV(0) == zi(h.mval(om, st0).obj)))

    def fact(i):
        p = W.val(i, st0)
        o = zi(p.obj)
        inr = And(i >= 0, i < n)
        ex.axiom(z3.Implies(inr, And(o > 0, zi(p.off) == 0, POS(o) == i)))
        gone = And(HAS(o), Not(inmap(i)))
        ex.axiom(z3.Implies(inr, And(CNT(i + 1) == CNT(i) + z3.If(zb(gone), 1, 0), CNT(i) >= 0, CNT(i) <= i)))
        if out:
            w = zb(And(HAS(o), inmap(i), new(i) == h.key))
            ex.axiom(z3.Implies(inr, And(OH(i + 1) == Or(OH(i), w), OV(i + 1) == z3.If(w, o, OV(i)))))
    fact(j)

    def hasid(ex, nm, a, st):
        '''whether it has an id (verified: D01)'''
        return HAS(zi(a[0].obj))

    def getid(ex, nm, a, st):
        '''its id (verified: D01)'''
        p = ex.alloc(32)
        st.mem = ex.m.store(st.mem, p, 'str', ID(zi(a[0].obj)))
        return p

    def clear(ex, nm, a, st):
        '''it has no id any more (verified: D01)'''
        o = zi(a[0].obj)
        i = POS(o)
        ex.oblige('an object of the map whose id has no new one is cleared', st.cond, And(i >= 0, i < n, obj(i) == o, HAS(o), Not(inmap(i))))
        st.mem = ex.m.store(st.mem, cell, 'i64', z3.If(o == obj(j), z3.IntVal(1), zi(ex.m.load(st.mem, cell, 'i64'))))

    def setid(ex, nm, a, st):
        '''its id is this one (verified: D01)'''
        o, v = zi(a[0].obj), h.str(st, a[1])
        i = POS(o)
        ex.oblige('an object of the map gets the new id of its old one', st.cond, And(i >= 0, i < n, obj(i) == o, HAS(o), inmap(i), v == new(i)))
        st.mem = ex.m.store(st.mem, cell, 'i64', z3.If(o == obj(j), z3.IntVal(2), zi(ex.m.load(st.mem, cell, 'i64'))))
    ex.contracts += [(RX(r'^kmldom::Object::has_id'), hasid), (RX(r'^kmldom::Object::get_id'), getid), (RX(r'^kmldom::Object::clear_id'), clear), (RX(r'^kmldom::Object::set_id'), setid)]
    want = z3.If(HAS(obj(j)), z3.If(zb(inmap(j)), 2, 1), 0)
    G = lambda t: zi(ex.m.load(t.mem, cell, 'i64'))

    def gen(ex, rec):
        l = []
        for nm, g, w in rec.ints:
            try:
                v = g(rec.hdr)
            except Unsupported:
                continue
            if not is_z(v) or z3.is_fp(v):
                continue
            l.append((nm, g))
        for nm, g in l:
            fact(zi(g(rec.hdr)))
            ex.add_cand(rec, nm + ' within the map', lambda t, g=g: And(zi(g(t)) >= 0, zi(g(t)) <= n))
            ex.add_cand(rec, 'the objects before %s have their new ids' % nm, lambda t, g=g: G(t) == z3.If(j < zi(g(t)), want, 0))
            for nm2, g2 in l:
                if nm2 != nm:
                    ex.add_cand(rec, '%s counts those cleared before %s' % (nm2, nm), lambda t, g=g, g2=g2: zi(g2(t)) == CNT(zi(g(t))))
            if out:
                ex.add_cand(rec, 'the new ids before %s are in the map' % nm, lambda t, g=g: h.mhas(om, t) == OH(zi(g(t))))
                ex.add_cand(rec, 'the objects before %s are in the map' % nm, lambda t, g=g: z3.Implies(OH(zi(g(t))), And(zi(h.mval(om, t).obj) == OV(zi(g(t))), zi(h.mval(om, t).off) == z3.If(OH(0), zi(h.mval(om, t).off), 0))))
    ex.inv_gens.append(gen)
    f = b.fn(r'kmlengine::RemapIds\(')
    r = ex.call(f, [mp, idm, om], st)
    ex.oblige('each object of the map: new id, cleared, or as it was', st.cond, G(st) == want)
    ex.oblige('the answer counts those cleared', st.cond, zi(r) == CNT(n))
    if out:
        ex.oblige('the new ids lead to their objects', st.cond, And(h.mhas(om, st) == OH(n), z3.Implies(OH(n), zi(h.mval(om, st).obj) == OV(n))))
    return h.fin(f)


def byid(b):
    """KmlFile::GetObjectById"""
    h = Ids(b)
    ex, st = h.ex, h.st
    file = h.obj()
    mp = file.plus(b.off(KF, 'object_id_map_'))
    i = z3.Const('id', ex.S)
    v = h.mval(mp, st, i)
    ex.axiom(z3.Implies(h.mhas(mp, st, i), And(zi(v.obj) > 0, zi(v.off) == 0, zb(h.isa(zi(v.obj), h.T['Type_Object'])))))
    ret = ex.alloc(8)
    f = b.fn(KF + r'::GetObjectById\(')
    ex.call(f, [ret, file, h.strarg(i)], st)
    ex.oblige('the object of that id, or null', st.cond, Eq(h.ptr(st, ret).obj, z3.If(h.mhas(mp, st, i), zi(v.obj), z3.IntVal(0))))
    return h.fin(f)


def imported(b):
    """KmlFile::CreateFromImportInternal"""
    h = Ids(b)
    ex, st = h.ex, h.st
    root, strict = z3.Int('root'), z3.Bool('strict')
    n, nd = z3.Int('n_ids'), z3.Int('n_dups')
    ex.axiom(And(root >= 0, n >= 0, n < 1 << 40, nd >= 0, nd < 1 << 40))
    PAR, ID = z3.Function('PARENT', I, I), z3.Function('ID', I, ex.S)
    env = {}
    OH, OV = z3.Function('SHARED.has', I, z3.BoolSort()), z3.Function('SHARED.val', I, I)
    ex.axiom(Not(OH(0)))

    def fact(i):
        p = env['w'].val(i, env['st'])
        o = zi(p.obj)
        inr = And(i >= 0, i < n)
        w = zb(And(h.is_(o, 'StyleSelector'), PAR(o) > 0, h.is_(PAR(o), 'Document'), ID(o) == h.key))
        ex.axiom(z3.Implies(inr, And(o > 0, zi(p.off) == 0, PAR(o) >= 0, zb(h.isa(o, h.T['Type_Object'])), env['w'].key(i, env['st']) == ID(o))))
        ex.axiom(z3.Implies(inr, And(OH(i + 1) == Or(OH(i), w), OV(i + 1) == z3.If(w, o, OV(i)))))

    def mapids(ex, nm, a, st):
        '''every object with an id is in the map under its id, and the duplicates are listed (verified: MapIds, IdMapper::SaveElement)'''
        h.rec('mapped', lambda st, a: (h.ptr(st, a[0]), a[1]))(ex, nm, a, st)
        env['map'] = a[1]
        env['w'] = Walk(h, a[1], n)
        ex.oblige('the duplicates are asked for', st.cond, Not(Eq(a[2].obj, 0)))
        ex.lib.set_vsize(a[2], nd, st)
        env['st'] = copy_(st)
    ex.contracts.append((RX(r'^kmlengine::MapIds'), mapids))

    def parent(ex, nm, a, st):
        '''its parent, or null (verified: D04)'''
        ex.axiom(PAR(zi(a[1].obj)) >= 0)
        st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(PAR(zi(a[1].obj)), 0))

    def getid(ex, nm, a, st):
        '''its id (verified: D01)'''
        p = ex.alloc(32)
        st.mem = ex.m.store(st.mem, p, 'str', ID(zi(a[0].obj)))
        return p
    ex.contracts += [(RX(r'^kmldom::Element::GetParent'), parent), (RX(r'^kmldom::Object::get_id'), getid)]
    h.on(r'^kmlengine::KmlFile::~KmlFile', 'deleted', lambda st, a: (a[0],))
    sh = lambda p: p.plus(b.off(KF, 'shared_style_map_'))

    def file(t):
        p = env.get('map')
        return Ptr(p.obj, 0) if p is not None else None

    def gen(ex, rec):
        if 'w' not in env:
            return
        mp = sh(file(rec.hdr))
        ro = file(rec.hdr).plus(b.off('kmlbase::XmlFile', 'root_'))
        ex.add_cand(rec, 'no root yet', lambda t: zi(h.ptr(t, ro).obj) == 0)
        ex.add_cand(rec, 'the root is set', lambda t: zi(h.ptr(t, ro).obj) == root)
        for nm, g, w in rec.ints:
            try:
                v = g(rec.hdr)
            except Unsupported:
                continue
            if not is_z(v) or z3.is_fp(v):
                continue
            fact(zi(v))
            ex.add_cand(rec, nm + ' within the ids', lambda t, g=g: And(zi(g(t)) >= 0, zi(g(t)) <= n))
            ex.add_cand(rec, 'the shared styles are those before ' + nm, lambda t, g=g: h.mhas(mp, t) == OH(zi(g(t))))
            ex.add_cand(rec, 'each shared style before %s by its id' % nm, lambda t, g=g: z3.Implies(OH(zi(g(t))), zi(h.mval(mp, t).obj) == OV(zi(g(t)))))
    ex.inv_gens.append(gen)
    f = b.fn(KF + r'::CreateFromImportInternal\(')
    r = ex.call(f, [h.ptrarg(Ptr(root, 0)), strict], st)
    ok = And(root > 0, Not(And(strict, nd > 0)))
    ex.oblige('a file exactly if there is a root, and when strict no duplicate id', st.cond, Eq(Not(Eq(r.obj, 0)), ok))
    h.happens('mapped', root > 0, st, (Ptr(root, 0), env['map']) if 'map' in env else None)
    F = file(st)
    if F is not None:
        ex.oblige('it is the file whose ids were mapped', And(st.cond, ok), And(Eq(r.obj, F.obj), Eq(env['map'].off, b.off(KF, 'object_id_map_'))))
        ex.oblige('its root', And(st.cond, ok), Eq(h.ptr(st, F.plus(b.off('kmlbase::XmlFile', 'root_'))).obj, root))
        mp = sh(F)
        ex.oblige('its shared styles are the styles with an id in a Document', And(st.cond, ok), h.mhas(mp, st) == OH(n))
        ex.oblige('each by its id', And(st.cond, ok, OH(n)), Eq(h.mval(mp, st).obj, OV(n)))
    return h.fin(f)


def imports(b):
    h = Ids(b)
    ex, st = h.ex, h.st
    root, res = z3.Int('root'), z3.Int('file')
    ex.axiom(And(root >= 0, res >= 0))
    h.on(KF + r'::CreateFromImportInternal', 'made', lambda st, a: (h.ptr(st, a[0]), asbool(a[1])), Ptr(res, 0))
    fs = []
    for nm, strict in (('CreateFromImport', True), ('CreateFromImportLax', False)):
        s = start(ex)
        p = ex.alloc(8)
        s.mem = ex.m.store(s.mem, p, 'ptr', Ptr(root, 0))
        f = b.fn(KF + r'::%s\(' % nm)
        h.ev['made'] = []
        r = ex.call(f, [p], s)
        h.happens('made', True, s, (Ptr(root, 0), strict))
        ex.oblige(nm + ': the answer', s.cond, Eq(r.obj, res))
        fs.append(f)
    return h.fin(*fs)


def parse(b):
    """KmlFile::ParseFromString"""
    h = Ids(b)
    ex, st = h.ex, h.st
    file = h.obj()
    u, errs, res = z3.Const('kml', ex.S), z3.Int('errors'), z3.Int('root')
    ex.axiom(And(errs >= 0, res >= 0))
    at = lambda m: file.plus(b.off(KF, m))
    ro = file.plus(b.off('kmlbase::XmlFile', 'root_'))
    st.mem = ex.m.store(st.mem, ro, 'ptr', NULL)
    strict = z3.Int('strict')
    ex.axiom(And(strict >= 0, strict <= 1))
    st.mem = ex.m.store(st.mem, at('strict_parse_'), 'i8', strict)
    obs = ('ObjectIdParserObserver', 'SharedStyleParserObserver', 'GetLinkParentsParserObserver')
    for o in obs:
        h.on(r'^kmlengine::%s::%s\(' % (o, o), 'made ' + o, lambda st, a: (a[0], a[1]) + tuple(asbool(x) for x in a[2:]))
    h.on(r'^kmldom::Parser::Parser|^kmldom::Parser::~Parser|^kmlengine::\w+Observer::~', 'x', lambda st, a: ())
    h.on(r'^kmldom::Parser::AddObserver', 'added', lambda st, a: (a[0], a[1]))

    def prs(ex, n, a, st):
        '''parses, reporting to its observers; null if the text is no KML (verified: D07)'''
        h.rec('parsed', lambda st, a: (a[1], h.str(st, a[2]), a[3]))(ex, n, a, st)
        st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(res, 0))
    ex.contracts.append((RX(r'^kmldom::Parser::Parse\('), prs))
    f = b.fn(KF + r'::ParseFromString\(')
    r = ex.call(f, [file, h.strarg(u), Ptr(errs, 0)], st)
    ps = h.ev['parsed'][0][1][0] if h.ev.get('parsed') else NULL
    h.happens('parsed', True, st, (ps, u, Ptr(errs, 0)))
    h.before('added', 'parsed')
    for o, m in zip(obs, ('object_id_map_', 'shared_style_map_', 'link_parent_vector_')):
        l = h.ev.get('made ' + o, [])
        ex.oblige('an %s is made' % o, True, len(l) == 1)
        for c, a, q, s in l[:1]:
            ex.oblige(o + ': for this file', c, And(ptr_eq(a[1], at(m)), Eq(a[2], strict != 0) if len(a) > 2 else True))
            ex.oblige(o + ' watches the parse', st.cond, Or(*[And(c2, ptr_eq(x[0], ps), ptr_eq(x[1], a[0])) for c2, x, _, _ in h.ev.get('added', [])]))
            h.before('made ' + o, 'added') if False else None
    ex.oblige('no others watch', True, len(h.ev.get('added', [])) == 3)
    ex.oblige('true exactly if it was parsed', st.cond, Eq(asbool(r), res > 0))
    ex.oblige('the root is what was parsed', st.cond, Eq(h.ptr(st, ro).obj, res))
    return h.fin(f)


def decide(b):
    """KmlFile::_CreateFromParse and OpenAndParseKmz"""
    h = Ids(b)
    ex, st = h.ex, h.st
    file = h.obj()
    u, errs = z3.Const('data', ex.S), z3.Int('errors')
    kmz, opened, read = z3.Bool('is_kmz'), z3.Int('kmz_file'), z3.Bool('has_kml')
    K = z3.Const('kml_in_kmz', ex.S)
    OK = z3.Function('PARSES', ex.S, z3.BoolSort())
    ex.axiom(And(errs >= 0, opened >= 0))
    ex.contracts.append((RX(r'^kmlengine::KmzFile::IsKmz'), h.rec('asked', lambda st, a: (h.str(st, a[0]),), kmz, 'whether the data is a zip archive')))
    ex.contracts.append((RX(r'^kmlengine::KmzFile::OpenFromString'), h.rec('opened', lambda st, a: (h.str(st, a[0]),), Ptr(opened, 0), 'the archive, or null')))

    def rd(ex, n, a, st):
        '''the KML file of the archive (verified: F01)'''
        st.mem = ex.m.store(st.mem, a[1], 'str', z3.If(read, K, h.str(st, a[1])))
        return read
    ex.contracts.append((RX(r'^kmlengine::KmzFile::ReadKml'), rd))

    def prs(ex, n, a, st):
        '''parses (verified by its own unit)'''
        h.rec('parsed', lambda st, a: (a[0], h.str(st, a[1]), a[2]))(ex, n, a, st)
        return OK(h.str(st, a[1]))
    ex.contracts.append((RX(KF + r'::ParseFromString'), prs))
    f, g = b.fn(KF + r'::_CreateFromParse\('), b.fn(KF + r'::OpenAndParseKmz\(')
    ex.contracts.append((RX(r'^kmlengine::KmzFile::~KmzFile'), lambda ex, n, a, st: None))
    r = ex.call(f, [file, h.strarg(u), Ptr(errs, 0)], st)
    go = Or(Not(kmz), And(opened > 0, read))
    text = z3.If(kmz, K, u)
    h.happens('parsed', go, st, (file, text, Ptr(errs, 0)))
    ex.oblige('true exactly if the KML was found and parsed', st.cond, Eq(asbool(r), And(go, OK(text))))
    for w in ('asked', 'opened'):
        for c, a, q, s in h.ev.get(w, []):
            ex.oblige(w + ' about the data', c, Eq(a[0], u))
    return h.fin(f, g)


def create(b):
    """KmlFile::CreateFromParse and CreateFromStringWithUrl"""
    h = Ids(b)
    ex, st = h.ex, h.st
    u, errs, ok = z3.Const('data', ex.S), z3.Int('errors'), z3.Bool('parses')
    url, cache = z3.Const('url', ex.S), z3.Int('kml_cache')
    ex.axiom(And(errs >= 0, cache >= 0))
    h.on(KF + r'::_CreateFromParse', 'parsed', lambda st, a: (a[0], h.str(st, a[1]), a[2]), ok)
    h.on(KF + r'::~KmlFile', 'deleted', lambda st, a: (a[0],))
    h.von('~KmlFile', 'deleted', lambda st, a: (a[0],))
    f = b.fn(KF + r'::CreateFromParse\(')
    r = ex.call(f, [h.strarg(u), Ptr(errs, 0)], st)
    p = h.ev['parsed'][0][1][0] if h.ev.get('parsed') else NULL
    h.happens('parsed', True, st, (p, u, Ptr(errs, 0)))
    ex.oblige('the file if it parses, else null', st.cond, Eq(r.obj, z3.If(ok, zi(p.obj), z3.IntVal(0))))
    h.happens('deleted', Not(ok), st, (p,))
    for c, a, q, s in h.ev.get('parsed', []):
        k = h.key
        for m in ('object_id_map_', 'shared_style_map_'):
            ex.oblige('a new file has no ids', c, Not(h.mhas(a[0].plus(b.off(KF, m)), s)))
        ex.oblige('no root, no cache, not strict', c, And(Eq(h.ptr(s, a[0].plus(b.off('kmlbase::XmlFile', 'root_'))).obj, 0), Eq(h.ptr(s, a[0].plus(b.off(KF, 'kml_cache_'))).obj, 0), Eq(ex.m.load(s.mem, a[0].plus(b.off(KF, 'strict_parse_')), 'i8'), 0)))
        ex.oblige('and no links', c, Eq(ex.lib.vsize(a[0].plus(b.off(KF, 'link_parent_vector_')), s), 0))
    return h.fin(f)


def with_url(b):
    h = Ids(b)
    ex, st = h.ex, h.st
    u, url, cache, null = z3.Const('data', ex.S), z3.Const('url', ex.S), z3.Int('kml_cache'), z3.Bool('no_file')
    ex.axiom(cache >= 0)
    file = h.obj()
    h.on(KF + r'::CreateFrom(Parse|String)\(', 'parsed', lambda st, a: (h.str(st, a[0]),), Ptr(z3.If(null, z3.IntVal(0), zi(file.obj)), 0))
    f = b.fn(KF + r'::CreateFromStringWithUrl\(')
    r = ex.call(f, [h.strarg(u), h.strarg(url), Ptr(cache, 0)], st)
    h.happens('parsed', True, st, (u,))
    ex.oblige('the file, or null', st.cond, Eq(r.obj, z3.If(null, z3.IntVal(0), zi(file.obj))))
    ex.oblige('with its url and cache', And(st.cond, Not(null)), And(Eq(h.str(st, file.plus(b.off('kmlbase::XmlFile', 'url_'))), url), Eq(h.ptr(st, file.plus(b.off(KF, 'kml_cache_'))).obj, cache)))
    return h.fin(f)


def units(b):
    return [Unit('ObjectIdParserObserver', lambda: object_observer(b)), Unit('SharedStyleParserObserver', lambda: style_observer(b)), Unit('IsLinkParent, IsIconParent, GetLinkParentsParserObserver', lambda: parents(b)),
            Unit('IdMapper::SaveElement, with duplicates', lambda: mapper(b, True)), Unit('IdMapper::SaveElement', lambda: mapper(b, False)), Unit('MapIds', lambda: mapids(b)), Unit('ClearIds', lambda: clearids(b)),
            Unit('RemapIds, with output', lambda: remap(b, True)), Unit('RemapIds', lambda: remap(b, False)), Unit('KmlFile::GetObjectById', lambda: byid(b)), Unit('KmlFile::CreateFromImportInternal', lambda: imported(b)),
            Unit('KmlFile::CreateFromImport', lambda: imports(b)), Unit('KmlFile::ParseFromString', lambda: parse(b)), Unit('KmlFile::_CreateFromParse', lambda: decide(b)), Unit('KmlFile::CreateFromParse', lambda: create(b)),
            Unit('KmlFile::CreateFromStringWithUrl', lambda: with_url(b))]
