"""Reading side of every element class: AddElement and ParseAttributes (property D03)."""
import re
import z3
from dv.core import *
from dv.unit import Unit
from dv import astinfo
from .domlib import *
from .p_accessors import sizeof, color_contract, child_ptr, KINDS
from .p_serialize import norm, type_ids, expected_ids, set_vtable, attr_name_ok, _attr_fields, RX
from .domharness import ptype


def ids():
    return dict(type_ids())


def class_tid(cls):
    """the type id named after a class"""
    n = short(cls)
    d = ids()
    if 'Type_' + n in d:
        return d['Type_' + n]
    l = [v for k, v in d.items() if norm(k) == norm('Type_' + n) or norm(k) == norm('Type_Gx' + n)]
    return l[0] if len(l) == 1 else None


def hierarchy(dom):
    """{type id of a concrete class: {type ids of the classes it derives from, itself included}}"""
    out = {}
    for c in dom.concrete():
        t = class_tid(c)
        out[t] = {class_tid(k) for k in dom.chain(c)} - {None}
    return out


def enumid(ex, tid, s):
    return z3.Function('enumid', z3.IntSort(), ex.S, z3.IntSort())(zi(tid), s)


def parsed(ex, kind, s, old):
    """value read from the text; the previous value where the text holds none"""
    if kind == 'string':
        return s
    so = {'bool': z3.BoolSort(), 'int': z3.IntSort(), 'double': z3.Float64()}[kind]
    o = zb(old) if kind == 'bool' else zi(old) if kind == 'int' else old
    return z3.Function('parse.' + kind, ex.S, so, so)(s, o)


CELL = {'bool': 'i8', 'int': 'i32', 'double': 'f64', 'string': 'str'}


def value_in(ex, dom, kind, s, p, st):
    old = ex.m.load(st.mem, p, CELL[kind])
    if kind == 'bool':
        old = ex.b_of(old) if hasattr(ex, 'b_of') else Not(Eq(old, 0))
    v = parsed(ex, kind, s, old)
    if kind == 'bool':
        v = ite(v, 1, 0)
    st.mem = ex.m.store(st.mem, p, CELL[kind], v)


def reading_contracts(ex, dom, child, t):
    """Field::SetX / Type / IsA of the child as functions of its type and text (each verified against the real code: helper units, D05)"""
    V = ex.vcontracts
    H = hierarchy(dom)

    def typ(ex, n, a, st):
        '''dynamic type of the child'''
        if not (isinstance(a[0], Ptr) and ex.m.obj_eq(a[0].obj, child.obj) is True):
            return z3.Function('typeOf', z3.IntSort(), z3.IntSort())(zi(a[0].obj))
        return t
    V['Type'] = typ

    def isa(ex, n, a, st):
        '''the child's class is or derives from the given one'''
        if not (isinstance(a[0], Ptr) and ex.m.obj_eq(a[0].obj, child.obj) is True):
            raise Unsupported('IsA on another element')
        T = as_const(a[1])
        if T is None:
            raise Unsupported('IsA of a computed type')
        return Or(*[Eq(t, k) for k, s in H.items() if T in s] + [And(Eq(t, T), Not(complex_(t)))])

    def complex_(t):
        return Or(*[Eq(t, k) for k in H])
    V['IsA'] = isa

    def setter(kind):
        def h(ex, n, a, st):
            if not (isinstance(a[0], Ptr) and ex.m.obj_eq(a[0].obj, child.obj) is True):
                raise Unsupported('%s on another element' % kind)
            cd = ex.call(dom.fn('kmldom::Element', 'get_char_data'), [a[0]], scratch_state(st))
            s = ex.m.load(st.mem, cd, 'str')
            simple = Not(complex_(t))
            if kind == 'enum':
                e = enumid(ex, t, s)
                old = ex.m.load(st.mem, a[1], 'i32')
                ok = And(simple, Not(Eq(e, -1)))
                st.mem = ex.m.store(st.mem, a[1], 'i32', ite(ok, e, old))
                return ok
            m0 = st.mem
            old = ex.m.load(st.mem, a[1], CELL[kind])
            o = Not(Eq(old, 0)) if kind == 'bool' else old
            v = parsed(ex, kind, s, o)
            if kind == 'bool':
                v = ite(v, 1, 0)
            st.mem = ex.m.store(st.mem, a[1], CELL[kind], ite(simple, v, old))
            return simple
        h.__doc__ = 'a simple element stores the value of its text; any other leaves the field alone'
        return h
    for nm, k in (('SetBool', 'bool'), ('SetInt', 'int'), ('SetDouble', 'double'), ('SetString', 'string'), ('SetEnum', 'enum')):
        V[nm] = setter(k)

    def eid(ex, n, a, st):
        '''enum value of the text'''
        return enumid(ex, a[1], ex.m.load(st.mem, a[2], 'str'))
    ex.contracts.append((RX(r'^kmldom::Xsd::EnumId\(int, string\) const$'), eid))
    ex.contracts.append((RX(r'^kmldom::Xsd::GetSchema\(\)$'), lambda ex, n, a, st: ex.input_ptr('xsd')))
    return complex_


def uid(f):
    return f.name + ('[]' if f.kind == 'array' else '')


def admits(dom, f, tid, H):
    """may an element of type tid be held by this pointer field / list?"""
    if f.name == 'misplaced_elements':
        return False
    if not hasattr(dom, '_bytid'):
        dom._bytid = {class_tid(c): c for c in dom.concrete()}
    c = dom._bytid[tid]
    if f.cls == 'kmldom::NetworkLink' and f.name == 'link' and c == 'kmldom::Url':
        return True          # <Url> is the deprecated name of a NetworkLink's <Link>
    return 'kmldom::' + ptype(f) in dom.chain(c)


def add_element_contract(dom, cls):
    ex = new_exec(dom)
    this, st = this_state(ex, True)
    ex.m.private.add(this.obj)
    set_vtable(ex, dom, cls, this, st)
    child = ex.new_input_obj()
    ex.m.private.add(child.obj)
    t = z3.Int('t')
    allids = ids()
    ex.axiom(And(t >= 1, t < max(allids.values()) + 1))
    # no element has an abstract type
    for k in dom.elems:
        if k not in dom.concrete() and class_tid(k) is not None:
            ex.axiom(Not(Eq(t, class_tid(k))))
    complex_ = reading_contracts(ex, dom, child, t)
    color_contract(ex)
    text_contracts(ex, child)
    H = hierarchy(dom)
    ref = ex.alloc()
    st.mem = ex.m.store(st.mem, ref, 'ptr', child)
    nm = short(cls)
    fl = dom.all_fields(cls)
    arrays = [f for f in fl if f.kind == 'array']
    i = ex.set_nonneg(z3.Int('i'))
    ex.axiom(And(i >= 0, i < (1 << 50)))
    fn = None
    for k in dom.chain(cls):
        fn = dom.fn(k, 'AddElement')
        if fn:
            break
    ex.under_contract = [dom.m.dem[fn]]
    from .p_accessors import xml_parent, xml_file
    par0, f0, f1 = xml_parent(ex, dom, child, st), xml_file(ex, dom, child, st), xml_file(ex, dom, this, st)
    # precondition (what the parser supplies): a child that has no parent yet and belongs to the same file
    ex.axiom(And(Eq(par0.obj, 0), ptr_eq(f0, f1)))
    # ... and is not yet held by the element
    cd = ex.m.load(st.mem, ex.call(dom.fn('kmldom::Element', 'get_char_data'), [child], scratch_state(st)), 'str')
    before = observe(ex, dom, fl, this, st, i)
    ex.call(fn, [this, ref], st)
    after = observe(ex, dom, fl, this, st, i)
    c = st.cond
    same = {}
    for f in fl:
        ks = ('size',) if f.kind == 'array' else ('get', 'has')
        same[uid(f)] = And(*[veq(before[k], after[k]) for k in before if k[0] == f.name and k[1] in ks])
        if f.kind == 'array':
            same[uid(f)] = And(same[uid(f)], Implies(lt(i, before[(f.name, 'size')]), veq(before[(f.name, 'at')], after[(f.name, 'at')])))
            ex.oblige('%s: items already in %s stay' % (nm, f.name), And(c, lt(i, before[(f.name, 'size')])), veq(before[(f.name, 'at')], after[(f.name, 'at')])) if not (cls == 'kmldom::ItemIcon' and f.name == 'state') else None

    def appended(f):
        n0, n1 = before[(f.name, 'size')], after[(f.name, 'size')]
        return And(Eq(n1, add(n0, 1)), veq(array_at(ex, dom, f, this, st, n0), child))

    def only(f, cond):
        for g in fl:
            if g is not f:
                ex.oblige('%s: reading %s leaves %s unchanged' % (nm, f.name, g.name), And(c, cond), same[uid(g)], tag='frame')
    mis = [f for f in fl if f.name == 'misplaced_elements'][0]
    simple_ids = {v for v in allids.values() if v not in H and v}
    handled = set()
    # simple children: the field of that name takes the value of the text
    for f in fl:
        if f.name in ('char_data', 'unknown_elements', 'misplaced_elements') or f.kind == 'ptr':
            continue
        if (f.cls, f.name) in CONTENT:
            continue
        attrs = dom_attrs(dom, cls)
        if attrs and any(attr_name_ok(f, b) for b in attrs):
            continue
        if f.kind == 'array' and elem_kind(f) == 'ptr':
            continue
        my = [x for x in expected_ids(f.cls, f) if x not in H]
        for x in my:
            is_ = Eq(t, x)
            handled.add(x)
            only(f, is_)
            if f.kind == 'array':
                k = elem_kind(f)
                if k == 'str':
                    n0, n1 = before[(f.name, 'size')], after[(f.name, 'size')]
                    ex.oblige('%s: a child %s appends its text to the list' % (nm, f.name), And(c, is_), And(Eq(n1, add(n0, 1)), veq(array_at(ex, dom, f, this, st, n0), cd)))
                continue
            g0, g1 = before[(f.name, 'get')], after[(f.name, 'get')]
            h1 = after[(f.name, 'has')] if f.has else True
            what = '%s: a child %s sets the field to the value of its text' % (nm, f.name)
            if f.kind == 'string':
                if f.cls == 'kmldom::BasicLink' and f.name == 'href':
                    ex.oblige(what, And(c, is_), And(h1, veq(g1, z3.Function('uncdata', ex.S, ex.S)(cd))))
                else:
                    ex.oblige(what, And(c, is_), And(h1, veq(g1, cd)))
            elif f.kind == 'bool':
                ex.oblige(what, And(c, is_), And(h1, Eq(g1, parsed(ex, 'bool', cd, g0))))
            elif f.kind == 'double':
                ex.oblige(what, And(c, is_), And(h1, veq(g1, parsed(ex, 'double', cd, g0))))
            elif f.kind == 'color':
                ex.oblige(what, And(c, is_), And(h1, Eq(g1, z3.Function('hexcolor', ex.S, z3.IntSort())(cd))))
            elif f.kind == 'int':
                e = enumid(ex, x, cd)
                as_enum = And(Implies(Not(Eq(e, -1)), And(h1, Eq(g1, e))), Implies(Eq(e, -1), And(Not(h1), Eq(g1, g0))))
                as_int = And(h1, Eq(g1, parsed(ex, 'int', cd, g0)))
                isenum = norm(next(k for k, v in allids.items() if v == x)[5:]) in enum_names()
                ex.oblige(what, And(c, is_), as_enum if isenum else as_int)
    # complex children: held exactly once, in the field or list declared for them if there is one
    ptrs = [f for f in fl if f.kind == 'ptr']
    parr = [f for f in arrays if elem_kind(f) == 'ptr']
    for tid in H:
        dest = [f for f in ptrs if admits(dom, f, tid, H)] + [f for f in parr if admits(dom, f, tid, H)]
        is_ = Eq(t, tid)
        where = dest or [mis]
        key = ' / '.join(f.name for f in where)
        held = []
        for f in where:
            if f.kind == 'ptr':
                held.append(And(ptr_eq(after[(f.name, 'get')], child), *[same[uid(g)] for g in fl if g is not f]))
            else:
                held.append(And(appended(f), *[same[uid(g)] for g in fl if g is not f]))
        ex.oblige('%s: a child of type %s is kept in %s and nothing else changes' % (nm, next(k for k, v in allids.items() if v == tid)[5:], key), And(c, is_), Or(*held))
    # any other known element is preserved as misplaced
    rest = And(*[Not(Eq(t, x)) for x in list(handled) + list(H)])
    sp = special(cls)
    for x in sp:
        rest = And(rest, Not(Eq(t, x)))
    ex.oblige('%s: a known element with no place here is preserved' % nm, And(c, rest), appended(mis))
    for g in fl:
        if g is not mis:
            ex.oblige('%s: a known element with no place here leaves %s unchanged' % (nm, g.name), And(c, rest), same[uid(g)], tag='frame')
    ex.covers = [c, And(c, rest)]
    return ex


CONTENT = {('kmldom::SnippetCommon', 'text'), ('kmldom::SimpleData', 'text')}     # carried as the element's own text


def text_contracts(ex, child):
    def link(ex, n, a, st):
        """value of the text, a literal CDATA wrapper stripped"""
        s = ex.m.load(st.mem, a[1], 'str')
        st.mem = ex.m.store(st.mem, a[2], 'str', z3.Function('uncdata', ex.S, ex.S)(s))
        return True
    ex.contracts.append((RX(r'^kmldom::SetStringInsideCdata\('), link))

    def track(ex, n, a, st):
        """appends the tuple read from the text (bounded check: section values)"""
        s = ex.m.load(st.mem, a[1], 'str')
        tmp = ex.alloc()
        for j in range(3):
            st.mem = ex.m.store(st.mem, tmp.plus(8 * j), 'f64', z3.Function('tuple.%d' % j, ex.S, z3.Float64())(s))
        st.mem = ex.m.store(st.mem, tmp.plus(24), 'i8', z3.Function('tuple.alt', ex.S, z3.IntSort())(s))
        fn = [x for d, l in ex.mod.bydem.items() if d == 'std::vector<kmlbase::Vec3>::push_back(kmlbase::Vec3 const&)' for x in l]
        ex.call(fn[0], [a[2], tmp], st)
    ex.contracts.append((RX(r'^kmldom::GxTrack::Parse\(string const&, std::vector<kmlbase::Vec3>\*\)$'), track))


def self_text_contract(dom, cls):
    """an element that carries text takes it from its own character data when told to read itself"""
    ex = new_exec(dom)
    this, st = this_state(ex, True)
    ex.m.private.add(this.obj)
    set_vtable(ex, dom, cls, this, st)
    ref = ex.alloc()
    st.mem = ex.m.store(st.mem, ref, 'ptr', this)
    fl = dom.all_fields(cls)
    i = ex.set_nonneg(z3.Int('i'))
    ex.axiom(And(i >= 0, i < (1 << 50)))
    fn = None
    for k in dom.chain(cls):
        fn = dom.fn(k, 'AddElement')
        if fn:
            break
    ex.under_contract = [dom.m.dem[fn]]
    before = observe(ex, dom, fl, this, st, i)
    ex.call(fn, [this, ref], st)
    after = observe(ex, dom, fl, this, st, i)
    cd = before[('char_data', 'get')]
    ex.oblige('%s: its text is its character data' % short(cls), st.cond, And(after[('text', 'has')], veq(after[('text', 'get')], cd)))
    for k in before:
        if k[0] != 'text' and k[1] != 'at':
            ex.oblige('%s: reading its text leaves %s unchanged' % (short(cls), k[0]), st.cond, veq(before[k], after[k]), tag='frame')
    ex.covers = [st.cond]
    return ex


def special(cls):
    return []


_EN = None


def enum_names():
    global _EN
    if _EN is None:
        _EN = set()
        for k, l in astinfo.ENUMS.items():
            if k in ('kmldom::Type_Unknown', 'kmldom::XsdType') or not l:
                continue
            first = l[0][0]
            _EN.add(('gx' if first.startswith('GX_') else '') + first.replace('GX_', '', 1).split('_')[0].lower())
        _EN |= {'key', 'state', 'itemiconstate'}
    return _EN


_AT = {}


def dom_attrs(dom, cls):
    if cls not in _AT:
        _AT[cls] = _attr_fields(dom, cls)
    return _AT[cls]


def attributes_contract(dom, cls):
    """ParseAttributes: an attribute named after a field sets it and is consumed; all others are handed on unchanged"""
    ex = new_exec(dom)
    this, st = this_state(ex, True)
    ex.m.private.add(this.obj)
    set_vtable(ex, dom, cls, this, st)
    attrs = ex.alloc()
    A = z3.Const('given', z3.ArraySort(ex.S, z3.BoolSort()))
    st.mem = ex.m.store(st.mem, attrs, 'mhas', A)
    ex.contracts.append((RX(r'^kmldom::Xsd::GetSchema\(\)$'), lambda ex, n, a, st: ex.input_ptr('xsd')))
    ex.contracts.append((RX(r'^kmldom::Xsd::EnumId\(int, string\) const$'), lambda ex, n, a, st: enumid(ex, a[1], ex.m.load(st.mem, a[2], 'str'))))
    handed = ex.newlog()

    def unk(ex, n, a, st):
        """keeps the remaining attributes (own contract)"""
        handed.append((st.cond, a[1], scratch_state(st)))
    ex.contracts.append((RX(r'^kmldom::Element::AddUnknownAttributes\('), unk))

    def fs(kind):
        def h(ex, n, a, st):
            s_ = ex.m.load(st.mem, a[0], 'str')
            old = ex.m.load(st.mem, a[1], CELL[kind])
            v = parsed(ex, kind, s_, Not(Eq(old, 0)) if kind == 'bool' else old)
            st.mem = ex.m.store(st.mem, a[1], CELL[kind], ite(v, 1, 0) if kind == 'bool' else v)
        h.__doc__ = 'value of the text'
        return h
    for k in ('bool', 'int', 'double', 'string'):
        ex.contracts.append((RX(r'^void kmlbase::FromString<%s>\(string const&, %s\*\)$' % (k, k)), fs(k)))
    fn = None
    for k in dom.chain(cls):
        fn = dom.fn(k, 'ParseAttributes')
        if fn:
            break
    ex.under_contract = [dom.m.dem[fn]]
    nm = short(cls)
    fl = dom.all_fields(cls)
    i = ex.set_nonneg(z3.Int('i'))
    ex.axiom(And(i >= 0, i < (1 << 50)))
    known = {}
    for b in sorted(dom_attrs(dom, cls) or {}):
        f = [f for f in fl if f.kind not in ('array', 'ptr') and f.has and attr_name_ok(f, b)]
        if len(f) == 1:
            known[b] = f[0]
    st0 = scratch_state(st)
    before = observe(ex, dom, fl, this, st, i)
    ex.call(fn, [this, attrs], st)
    after = observe(ex, dom, fl, this, st, i)
    names = set()
    allids = ids()
    for b, f in known.items():
        k = ex.lib.str.lit(b)
        names.add(f.name)
        had = z3.Select(A, k)
        txt = ex.m.load(st0.mem, ex.lib.mslot(attrs, k).plus(32), 'str')
        g0, g1, h1 = before[(f.name, 'get')], after[(f.name, 'get')], after[(f.name, 'has')]
        B = b.decode()
        ex.oblige('%s: without attribute %s the field is unset' % (nm, B), And(st.cond, Not(had)), And(Not(h1), veq(g0, g1)))
        if f.kind == 'int':
            opts = [And(h1, Eq(g1, parsed(ex, 'int', txt, g0)))]
            for n_, tid in allids.items():
                if norm(n_[5:]) in (norm(f.name), norm(f.name)[1:]):
                    e = enumid(ex, tid, txt)
                    opts.append(And(Eq(h1, Not(Eq(e, -1))), Eq(g1, ite(Not(Eq(e, -1)), e, g0))))
            ex.oblige('%s: attribute %s sets the field to its value' % (nm, B), And(st.cond, had), Or(*opts))
        else:
            ex.oblige('%s: attribute %s sets the field to its value' % (nm, B), And(st.cond, had), And(h1, veq(g1, parsed(ex, f.kind, txt, g0))))
    for k in before:
        if k[0] not in names:
            ex.oblige('%s: reading attributes leaves %s unchanged' % (nm, k[0]), st.cond, veq(before[k], after[k]), tag='frame')
    ex.oblige('%s: the remaining attributes are handed on exactly once' % nm, st.cond, And(len(handed) == 1, *[And(c, ptr_eq(p, attrs)) for c, p, s_ in handed]))
    if handed:
        s_ = handed[0][2]
        key = z3.Const('anykey', ex.S)
        ex.oblige('%s: every attribute that is not a field of the element is handed on, and no other' % nm, st.cond,
                  Eq(z3.Select(ex.m.load(s_.mem, attrs, 'mhas'), key), And(z3.Select(A, key), *[key != ex.lib.str.lit(b) for b in known])))
        sl = ex.lib.mslot(attrs, key).plus(32)
        ex.oblige('%s: attributes handed on keep their values' % nm, And(st.cond, *[key != ex.lib.str.lit(b) for b in known]), Eq(ex.m.load(st0.mem, sl, 'str'), ex.m.load(s_.mem, sl, 'str')))
    ex.covers = [st.cond]
    return ex


def units(dom):
    out = []
    for cls in dom.concrete():
        if any((f.cls, f.name) in CONTENT for f in dom.all_fields(cls)):
            out.append(Unit('read text of ' + short(cls), lambda cls=cls: self_text_contract(dom, cls)))
        out.append(Unit('attributes of ' + short(cls), lambda cls=cls: attributes_contract(dom, cls)))
        out.append(Unit('read ' + short(cls), lambda cls=cls: add_element_contract(dom, cls)))
    return out
