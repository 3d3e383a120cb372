"""The type system of the elements: dynamic type, derivation, casts, factory, names and enum tables (property D05).
Also the contracts other properties assume about them (p_parse: Type/IsA/SetX of a child; EnumId)."""
import re
import z3
from dv.core import *
from dv.unit import Unit
from dv import astinfo
from .domlib import *
from .p_serialize import set_vtable, norm, RX
from .p_parse import class_tid, hierarchy, ids, enumid, parsed, CELL


def method(dom, cls, name):
    for k in dom.chain(cls):
        f = dom.fn(k, name)
        if f:
            return f
        if k.startswith('kmldom::') and dom.classes.get(k):
            for b in dom.classes[k].bases:
                f = dom.fn(b, name)
                if f:
                    return f
    return None


def virt(ex, dom, cls, name):
    """the implementation of a virtual method in the class's real vtable"""
    vt = '_ZTV' + ''.join(['N'] + ['%d%s' % (len(x), x) for x in cls.split('::')] + ['E'])
    return vt


def run_virtual(ex, dom, cls, this, st, name, args=()):
    """dispatch through the real vtable of cls"""
    fn = None
    vts = dom.m.vtables()
    vt = virt(ex, dom, cls, name)
    if vt not in vts:
        raise Unsupported('no vtable ' + vt)
    # slot of the method in Element's vtable
    el = '_ZTVN6kmldom7ElementE'
    for slot in range(0, 8 * 64, 8):
        f = dom.m.vtable_slot(el, 16 + slot)
        if f is None:
            continue
        d = dom.m.dem.get(f, f)
        if d.split('(')[0] == 'kmldom::Element::' + name or (f == '__cxa_pure_virtual' and False):
            fn = dom.m.vtable_slot(vt, 16 + slot)
            break
    if fn is None:
        raise Unsupported('no slot for ' + name)
    return fn, ex.call(fn, [this] + list(args), st)


def class_contract(dom, cls):
    ex = new_exec(dom)
    this, st = this_state(ex, True)
    ex.m.private.add(this.obj)
    set_vtable(ex, dom, cls, this, st)
    tid = class_tid(cls)
    nm = short(cls)
    if tid is None:
        raise Unsupported('no type id for ' + cls)
    s = scratch_state(st)
    fn, r = run_virtual(ex, dom, cls, this, s, 'Type')
    ex.oblige('%s: Type() is the type id of its own class' % nm, s.cond, Eq(r, tid))
    t = z3.Int('t')
    ex.axiom(And(t >= -(1 << 31), t < (1 << 31)))
    s2 = scratch_state(st)
    fn2, r2 = run_virtual(ex, dom, cls, this, s2, 'IsA', [t])
    H = hierarchy(dom)[tid]
    ex.oblige('%s: IsA holds for its own class' % nm, And(s2.cond, Eq(t, tid)), r2)
    for h in sorted(H):
        ex.oblige('%s: IsA holds for every class it derives from (%d)' % (nm, h), And(s2.cond, Eq(t, h)), r2)
    ex.oblige('%s: IsA holds for no other class' % nm, And(s2.cond, r2), Or(*[Eq(t, h) for h in H]))
    for i, k in enumerate(dom.chain(cls)):
        et = dom.fn(k, 'ElementType')
        if et:
            s3 = scratch_state(st)
            r3 = ex.call(et, [], s3)
            if k == cls or class_tid(k) is not None:
                ex.oblige('%s: ElementType() is the type id of the class' % short(k), s3.cond, Eq(r3, class_tid(k)))
            elif k.startswith('kmldom::BasicElement'):
                b = dom.chain(cls)[i - 1]
                ex.oblige('%s: ElementType() is the type id of the class' % short(b), s3.cond, Eq(r3, class_tid(b)))
    # text-valued setters: a complex element stores nothing (the parser relies on it)
    for m, kind in (('SetBool', 'i8'), ('SetInt', 'i32'), ('SetDouble', 'f64'), ('SetEnum', 'i32'), ('SetString', 'str')):
        out = ex.new_input_obj()
        s4 = scratch_state(st)
        v0 = ex.m.load(s4.mem, out, kind)
        fn4, r4 = run_virtual(ex, dom, cls, this, s4, m, [out])
        ex.oblige('%s: %s() of a complex element gives no value' % (nm, m), s4.cond, And(Not(r4), veq(ex.m.load(s4.mem, out, kind), v0)))
    ex.under_contract = [dom.m.dem[fn], dom.m.dem[fn2]]
    ex.covers = [s.cond, s2.cond]
    return ex


def isa_contracts(ex, dom, el, t):
    """Type()/IsA() of an element of dynamic type t (verified per class above)"""
    H = hierarchy(dom)

    def typ(ex, n, a, st):
        '''dynamic type id (verified per class)'''
        return t

    def isa(ex, n, a, st):
        '''derivation table (verified per class)'''
        return Or(*[And(Eq(t, k), Or(*[Eq(a[1], x) for x in s])) for k, s in H.items()] + [And(Eq(t, a[1]), Not(Or(*[Eq(t, k) for k in H])))])
    ex.vcontracts['Type'] = typ
    ex.vcontracts['IsA'] = isa


def casts(dom):
    out = []
    for n, d in dom.m.dem.items():
        m = re.match(r'kmldom::As(\w+)\(iptr<kmldom::Element>\)$', d)
        if m and n in dom.m.funcs and dom.m.funcs[n].defined:
            out.append((m.group(1), n))
    return sorted(out)


def cast_contract(dom, name, fn):
    cls = 'kmldom::' + name
    ex = new_exec(dom)
    _, st = this_state(ex, True)
    t = z3.Int('t')
    ex.axiom(And(t >= 1, t <= max(ids().values())))
    isa_contracts(ex, dom, None, t)
    for k in dom.elems:       # no element has an abstract type
        if k not in dom.concrete() and class_tid(k) is not None:
            ex.axiom(Not(Eq(t, class_tid(k))))
    ref = ex.alloc()
    o = z3.Int('el')
    ex.axiom(o <= 0)
    ex.m.inputish.add(o.get_id())
    el = Ptr(o, 0)
    st.mem = ex.m.store(st.mem, ref, 'ptr', el)
    ret = ex.alloc()
    ex.call(fn, [ret, ref], st)
    r = ex.m.load(st.mem, ret, 'ptr')
    sub = [class_tid(c) for c in dom.concrete() if cls in dom.chain(c)]
    if not sub and class_tid(cls) is None:
        raise Unsupported('no class for As' + name)
    good = And(Not(Eq(o, 0)), Or(*[Eq(t, x) for x in sub]))
    ex.under_contract = [dom.m.dem[fn]]
    ex.oblige('As%s returns the element when its class is %s or derives from it' % (name, name), And(st.cond, good), ptr_eq(r, el))
    ex.oblige('As%s returns null for any other element and for null' % name, And(st.cond, Not(good)), Eq(r.obj, 0))
    ex.covers = [st.cond]
    return ex


def factory_contract(dom):
    """CreateElementById: an element of exactly that type for the id of every concrete class, null otherwise"""
    fn = dom.fn('kmldom::KmlFactory', 'CreateElementById')
    bytid = {class_tid(c): c for c in dom.concrete()}
    exs = []
    from .p_accessors import color_contract
    top = max(ids().values())
    cases = sorted(set(range(0, top + 1)))
    for i in cases + ['other']:
        ex = new_exec(dom)
        color_contract(ex)
        fac = ex.input_ptr('factory')
        st = State(True, root('mem0'), {})
        if i == 'other':
            i = z3.Int('id')
            ex.axiom(And(i >= -(1 << 31), i < (1 << 31), Or(i < 0, i > top)))
            ret = ex.alloc()
        r = _call_ret(ex, fn, fac, i, st)
        ex.under_contract = [dom.m.dem[fn]]
        if isinstance(i, int) and i in bytid:
            ex.oblige('factory: id %d gives an element of class %s' % (i, short(bytid[i])), st.cond, And(Not(Eq(r.obj, 0)), is_class(ex, dom, r, bytid[i], st)))
        else:
            ex.oblige('factory: id %s (no element class) gives no element' % i, st.cond, Eq(r.obj, 0))
        ex.covers = [st.cond]
        exs.append(ex)
    return exs


def _call_ret(ex, fn, this, arg, st):
    f = ex.mod.funcs[fn]
    ret = ex.alloc()
    if len(f.params) == 3:
        ex.call(fn, [ret, this, arg], st)
        return ex.m.load(st.mem, ret, 'ptr')
    return ex.call(fn, [this, arg], st)


def is_class(ex, dom, p, cls, st):
    vt = '_ZTV' + ''.join(['N'] + ['%d%s' % (len(x), x) for x in cls.split('::')] + ['E'])
    v = ex.m.load(st.mem, p, 'ptr')
    return Eq(v.obj, ex.global_ptr(vt).obj)


def field_contract(dom, m, kind):
    """Field::SetX stores what the text says (the contract p_parse uses)"""
    ex = new_exec(dom)
    this, st = this_state(ex, True)
    ex.m.private.add(this.obj)
    set_vtable(ex, dom, 'kmldom::Field', this, st)
    fn = dom.fn('kmldom::Field', m)
    out = ex.input_ptr('out', nonnull=False)
    cd = ex.m.load(st.mem, ex.call(dom.fn('kmldom::Element', 'get_char_data'), [this], scratch_state(st)), 'str')
    cell = {'enum': 'i32'}.get(kind) or CELL[kind]

    def frm(k):
        def h(ex, n, a, st):
            '''value of the text (conversion itself: V06/V07 companions, bounded)'''
            s = ex.m.load(st.mem, a[0], 'str')
            old = ex.m.load(st.mem, a[1], CELL[k])
            v = parsed(ex, k, s, Not(Eq(old, 0)) if k == 'bool' else old)
            st.mem = ex.m.store(st.mem, a[1], CELL[k], ite(v, 1, 0) if k == 'bool' else v)
        return h
    for k, ty in (('bool', 'bool'), ('double', 'double'), ('int', 'int')):
        ex.contracts.append((re.compile(r'^void kmlbase::FromString<%s>\(string const&, %s\*\)$' % (ty, ty)), frm(k)))

    def eid(ex, n, a, st):
        '''enum index of the text (verified: enum tables)'''
        e = enumid(ex, a[1], ex.m.load(st.mem, a[2], 'str'))
        ex.axiom(And(e >= -1, e < (1 << 31)))
        return e
    ex.contracts.append((RX(r'^kmldom::Xsd::EnumId\(int, string\) const$'), eid))
    old = ex.m.load(st.mem, out, cell)
    s0 = scratch_state(st)
    tid = ex.call(method(dom, 'kmldom::Field', 'Type'), [this], scratch_state(st))
    r = ex.call(fn, [this, out], st)
    new = ex.m.load(st.mem, out, cell)
    isnull = Eq(out.obj, 0)
    ex.under_contract = [dom.m.dem[fn]]
    ex.oblige('Field::%s(null) reports no value' % m, And(st.cond, isnull), Not(r))
    if kind == 'enum':
        e = enumid(ex, tid, cd)
        ex.oblige('Field::SetEnum stores the index of the text and says so', And(st.cond, Not(isnull), Not(Eq(e, -1))), And(r, Eq(new, e)))
        ex.oblige('Field::SetEnum leaves the value alone for an unknown text', And(st.cond, Not(isnull), Eq(e, -1)), And(Not(r), veq(new, old)))
    else:
        v = parsed(ex, kind, cd, Not(Eq(old, 0)) if kind == 'bool' else old)
        if kind == 'bool':
            v = ite(v, 1, 0)
        ex.oblige('Field::%s stores the value of the text' % m, And(st.cond, Not(isnull)), And(r, veq(new, v)))
    ex.covers = [And(st.cond, Not(isnull))]
    return ex


def make_xsd(ex, dom, st):
    xsd = ex.alloc()
    ex.call(dom.fn('kmldom::Xsd', 'Xsd'), [xsd], st)
    return xsd


ALIAS = {   # tag names that are not their type id's name (abstract groups of the standard; two icons share one tag)
    'Type_ColorStyle': b'AbstractColorStyleGroup', 'Type_Object': b'AbstractObjectGroup', 'Type_Overlay': b'AbstractOverlayGroup', 'Type_SubStyle': b'AbstractSubStyleGroup',
    'Type_Vec2': b'vec2Type', 'Type_GxTourPrimitive': b'gx:AbstractTourPrimitiveGroup', 'Type_IconStyleIcon': b'Icon'}


def xsd_names_contract(dom):
    ex = new_exec(dom)
    st = State(True, root('mem0'), {})
    xsd = make_xsd(ex, dom, st)
    eid, ename, etype = [dom.fn('kmldom::Xsd', n) for n in ('ElementId', 'ElementName', 'ElementType')]
    ex.under_contract = [dom.m.dem[x] for x in (eid, ename, etype, dom.fn('kmldom::Xsd', 'Xsd'))]
    H = set(hierarchy(dom))
    names = {}
    conc = {class_tid(c) for c in dom.concrete()}
    abst = {class_tid(k) for k in dom.elems if k not in dom.concrete()} - {None}
    inv = {v: k for k, v in ids().items()}
    X = dict(astinfo.ENUMS.get('kmldom::XsdType') or [])
    for i in sorted(inv):
        if inv[i] in ('Type_Unknown', 'Type_Invalid'):
            continue
        s = scratch_state(st)
        ret = ex.alloc()
        ex.call(ename, [ret, xsd, i], s)
        v = ex.m.load(s.mem, ret, 'str')
        b = ex.lib.str.litval(v)
        ok = b is not None and (norm('Type_' + b.decode().replace(':', '')) == norm(inv[i]) or ALIAS.get(inv[i]) == b)
        ex.oblige('the tag of %s is its own name (%s)' % (inv[i], b), s.cond, ok)
        if b is None:
            continue
        r = ex.alloc()
        s2 = scratch_state(st)
        s2.mem = ex.m.store(s2.mem, r, 'str', ex.lib.str.lit(b))
        got = ex.call(eid, [xsd, r], s2)
        if inv[i] == 'Type_IconStyleIcon':
            ex.oblige('the tag Icon stands for %s' % 'Type_Icon', s2.cond, Eq(got, ids()['Type_Icon']))
        else:
            ex.oblige('the tag %s maps back to %s' % (b.decode(), inv[i]), s2.cond, Eq(got, i))
        s3 = scratch_state(st)
        t = ex.call(etype, [xsd, i], s3)
        want = X['XSD_COMPLEX_TYPE'] if (i in conc or i in abst) else X['XSD_SIMPLE_TYPE']
        ex.oblige('%s is %s' % (inv[i], 'complex' if (i in conc or i in abst) else 'simple'), s3.cond, Eq(t, want))
        names[b] = i
    # any other text and any other id
    q = z3.Const('name', ex.S)
    for b in list(names) + [b'<Unknown>', b'</Unknown>', b'IconStyleIcon']:
        ex.axiom(Not(Eq(q, ex.lib.str.lit(b))))
    r = ex.alloc()
    s = scratch_state(st)
    s.mem = ex.m.store(s.mem, r, 'str', q)
    got = ex.call(eid, [xsd, r], s)
    ex.oblige('any other tag is unknown', s.cond, Eq(got, ids()['Type_Unknown']))
    i = z3.Int('id')
    ex.axiom(And(i >= -(1 << 31), i < (1 << 31), Or(i <= 0, i >= ids()['Type_Invalid'])))
    s = scratch_state(st)
    ret = ex.alloc()
    ex.call(ename, [ret, xsd, i], s)
    ex.oblige('any other id has no tag', s.cond, Eq(ex.lib.str.len(ex.m.load(s.mem, ret, 'str')), 0))
    s = scratch_state(st)
    t = ex.call(etype, [xsd, i], s)
    ex.oblige('any other id is of no kind', s.cond, Eq(t, X['XSD_UNKNOWN']))
    ex.covers = [st.cond]
    return ex


# the values of the standard (OGC KML 2.2 and the gx extension), in the order of the public enums
def enums(dom):
    """{type id name: [texts]} from the names of the public enum constants"""
    return astinfo.ENUMS


STD = {
    'Type_altitudeMode': ['clampToGround', 'relativeToGround', 'absolute'], 'Type_colorMode': ['normal', 'random'], 'Type_displayMode': ['default', 'hide'],
    'Type_gridOrigin': ['lowerLeft', 'upperLeft'], 'Type_state': ['open', 'closed', 'error', 'fetching0', 'fetching1', 'fetching2'],
    'Type_listItemType': ['check', 'radioFolder', 'checkOffOnly', 'checkHideChildren'], 'Type_refreshMode': ['onChange', 'onInterval', 'onExpire'],
    'Type_shape': ['rectangle', 'cylinder', 'sphere'], 'Type_key': ['normal', 'highlight'], 'Type_units': ['fraction', 'pixels', 'insetPixels'],
    'Type_viewRefreshMode': ['never', 'onRequest', 'onStop', 'onRegion'], 'Type_GxAltitudeMode': ['clampToSeaFloor', 'relativeToSeaFloor'],
    'Type_GxFlyToMode': ['bounce', 'smooth'], 'Type_GxPlayMode': ['pause']}


def enum_contract(dom, tname):
    ex = new_exec(dom)
    st = State(True, root('mem0'), {})
    xsd = ex.input_ptr('xsd')
    ex.unroll.append((RX(r'kmldom::Xsd::Enum'), 40))     # constant tables
    eid, ev = dom.fn('kmldom::Xsd', 'EnumId'), dom.fn('kmldom::Xsd', 'EnumValue')
    ex.under_contract = [dom.m.dem[eid], dom.m.dem[ev]]
    if tname is None:
        tid = z3.Int('tid')
        ex.axiom(And(tid >= -(1 << 31), tid < (1 << 31), *[Not(Eq(tid, ids()[k])) for k in STD]))
        vals = []
    else:
        tid = ids()[tname]
        vals = STD[tname]
    q = z3.Const('text', ex.S)
    r = ex.alloc()
    s = scratch_state(st)
    s.mem = ex.m.store(s.mem, r, 'str', q)
    got = ex.call(eid, [xsd, tid, r], s)
    lits = [ex.lib.str.lit(v.encode()) for v in vals]
    for i, v in enumerate(vals):
        ex.oblige('%s: the text "%s" is value %d' % (tname, v, i), And(s.cond, Eq(q, lits[i])), Eq(got, i))
    ex.oblige('%s: any other text has no value' % tname, And(s.cond, *[Not(Eq(q, l)) for l in lits]), Eq(got, -1))
    n = z3.Int('n')
    ex.axiom(And(n >= -(1 << 31), n < (1 << 31)))
    ret = ex.alloc()
    s = scratch_state(st)
    ex.call(ev, [ret, xsd, tid, n], s)
    t = ex.m.load(s.mem, ret, 'str')
    for i, v in enumerate(vals):
        ex.oblige('%s: value %d is written "%s"' % (tname, i, v), And(s.cond, Eq(n, i)), Eq(t, lits[i]))
    ex.oblige('%s: any other number is written as the empty text' % tname, And(s.cond, Or(n < 0, n >= len(vals))), Eq(ex.lib.str.len(t), 0))
    ex.covers = [s.cond]
    return ex


def field_units(dom):
    return [Unit('Field::' + m, lambda m=m, k=k: field_contract(dom, m, k)) for m, k in (('SetBool', 'bool'), ('SetInt', 'int'), ('SetDouble', 'double'), ('SetString', 'string'), ('SetEnum', 'enum'))]


def enum_units(dom):
    return [Unit('enum ' + str(k), lambda k=k: enum_contract(dom, k)) for k in list(STD) + [None]]


def units(dom):
    out = [Unit('class ' + short(c), lambda c=c: class_contract(dom, c)) for c in dom.concrete()]
    out += [Unit('cast As' + n, lambda n=n, f=f: cast_contract(dom, n, f)) for n, f in casts(dom)]
    out.append(Unit('factory', lambda: factory_contract(dom), tmo=200))
    out.append(Unit('names', lambda: xsd_names_contract(dom), tmo=200))
    return out + enum_units(dom) + field_units(dom)
