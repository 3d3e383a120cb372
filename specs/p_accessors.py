"""Field accessors of every element class: set/get/has/clear/add and their frame (properties D01 and D04)."""
import re
import z3
from dv.core import *
from dv.unit import Unit
from .domlib import *

KINDS = ('i8', 'i32', 'i64', 'f64', 'ptr', 'str', 'vsz')


def frame(ex, what, st0, st1, this, size, extra=None):
    """every cell outside this object's own members keeps its contents"""
    o, off = z3.Int('frame_o'), z3.Int('frame_off')
    ex.m.inputish.add(o.get_id())
    ex.axiom(And(o < GLOB, o != 0))
    outside = Or(Not(Eq(o, this.obj)), And(ge(off, size)))
    if extra is not None:
        outside = And(outside, Not(extra(o, off)))
    for k in KINDS:
        a = ex.m._load(st0.mem, o, off, k)
        b = ex.m._load(st1.mem, o, off, k)
        if a is b:
            continue
        ex.oblige('%s leaves everything outside the element unchanged (%s cells)' % (what, k), And(st1.cond, outside), veq(a, b), tag='frame')


def others_same(ex, what, before, after, cond, skip):
    for k, v in before.items():
        if k[0] == skip:
            continue
        ex.oblige('%s leaves %s of %s unchanged' % (what, k[1], k[0]), cond, veq(v, after[k]), tag='frame')


def child_ptr(ex, st, name='child'):
    """a const intrusive_ptr<T>& argument designating an arbitrary (possibly null) element"""
    ref = ex.alloc()
    o = z3.Int('in!' + name)
    ex.m.inputish.add(o.get_id()); ex.keep.append(o)
    ex.axiom(o <= 0)
    st.mem = ex.m.store(st.mem, ref, 'ptr', Ptr(o, 0))
    return ref, Ptr(o, 0)


def xml_parent(ex, dom, p, st):
    s = scratch_state(st)
    return ex.call(dom.m.bydem['kmlbase::XmlElement::GetParent() const'][0], [p], s)


def xml_file(ex, dom, p, st):
    s = scratch_state(st)
    return ex.call(dom.m.bydem['kmlbase::XmlElement::GetXmlFile() const'][0], [p], s)


def sizeof(dom, cls):
    return dom.sizeof(cls)


def set_contract(dom, cls, f):
    ex = new_exec(dom)
    this, st = this_state(ex)
    i = ex.set_nonneg(z3.Int('i'))
    ex.axiom(And(i >= 0, i < (1 << 50)))
    fl = dom.all_fields(cls)
    ref = None
    if f.kind in ('bool', 'int', 'double'):
        v, arg, _ = sym_value(ex, f)
    else:
        ref = ex.alloc()
        if f.kind == 'string':
            v = z3.Const('v', ex.S)
            st.mem = ex.m.store(st.mem, ref, 'str', v)
        elif f.kind == 'color':
            v = z3.Int('v')
            st.mem = ex.m.store(st.mem, ref, 'i32', v)
            ex.axiom(And(v >= -(1 << 31), v < (1 << 31)))
        else:
            ref, v = child_ptr(ex, st)
        arg = ref
    st0 = scratch_state(st)
    before = observe(ex, dom, fl, this, st, i)
    fn = dom.fn(f.cls, f.set)
    what = '%s::%s' % (short(cls), f.set)
    ex.under_contract = [dom.m.dem[fn]]
    if f.kind == 'ptr':
        par0, file_p, file_t = xml_parent(ex, dom, v, st), xml_file(ex, dom, v, st), xml_file(ex, dom, this, st)
        ok = And(Not(Eq(v.obj, 0)), Eq(par0.obj, 0), ptr_eq(file_p, file_t))
        isnull = Eq(v.obj, 0)
    ex.call(fn, [this, arg], st)
    after = observe(ex, dom, fl, this, st, i)
    others_same(ex, what, before, after, st.cond, f.name)
    if f.kind != 'ptr':
        ex.oblige('%s(v): %s() returns v' % (what, f.get), st.cond, veq(after[(f.name, 'get')], v))
        if f.has:
            ex.oblige('%s(v): %s() is true' % (what, f.has), st.cond, after[(f.name, 'has')])
        frame(ex, what, st0, st, this, sizeof(dom, cls))
    else:
        g0, g1 = before[(f.name, 'get')], after[(f.name, 'get')]
        pa = xml_parent(ex, dom, v, st)
        ex.oblige('%s(null): field becomes empty' % what, And(st.cond, isnull), Eq(g1.obj, 0))
        ex.oblige('%s(child) accepts a child without a parent' % what, And(st.cond, ok), ptr_eq(g1, v))
        ex.oblige('%s(child) becomes the parent of the accepted child' % what, And(st.cond, ok), ptr_eq(pa, this), tag='owner')
        ex.oblige('%s(child) refuses a child that already has a parent: field unchanged' % what, And(st.cond, Not(isnull), Not(ok)), ptr_eq(g1, g0), tag='owner')
        ex.oblige('%s(child) refuses a child that already has a parent: its parent unchanged' % what, And(st.cond, Not(isnull), Not(ok)), ptr_eq(pa, par0), tag='owner')
        ex.oblige('%s: %s() tells whether the field is non-empty' % (what, f.has), st.cond, Eq(after[(f.name, 'has')], Not(Eq(g1.obj, 0))))
        frame(ex, what, st0, st, this, sizeof(dom, cls), lambda o, off: And(Eq(o, v.obj), lt(off, sizeof(dom, 'kmldom::Element'))))
        # of the child only the parent link may change
        for k in ('i8', 'i32', 'str', 'vsz', 'f64'):
            off = z3.Int('frame_off')
            ex.oblige('%s changes nothing in the child but its parent (%s cells)' % (what, k), And(st.cond, Not(Eq(v.obj, this.obj))), veq(ex.m._load(st0.mem, v.obj, off, k), ex.m._load(st.mem, v.obj, off, k)), tag='frame')
        ff = xml_file(ex, dom, v, st)
        ex.oblige('%s keeps the child in its file' % what, And(st.cond, Not(isnull)), ptr_eq(ff, file_p), tag='frame')
    ex.covers = [st.cond]
    return ex


def clear_contract(dom, cls, f):
    ex = new_exec(dom)
    this, st = this_state(ex)
    i = ex.set_nonneg(z3.Int('i'))
    ex.axiom(And(i >= 0, i < (1 << 50)))
    fl = dom.all_fields(cls)
    st0 = scratch_state(st)
    before = observe(ex, dom, fl, this, st, i)
    fn = dom.fn(f.cls, f.clear)
    ex.under_contract = [dom.m.dem[fn]]
    what = '%s::%s' % (short(cls), f.clear)
    ex.call(fn, [this], st)
    after = observe(ex, dom, fl, this, st, i)
    others_same(ex, what, before, after, st.cond, f.name)
    if f.has:
        ex.oblige('%s(): %s() is false' % (what, f.has), st.cond, Not(after[(f.name, 'has')]))
    if f.kind == 'ptr':
        ex.oblige('%s(): field is empty' % what, st.cond, Eq(after[(f.name, 'get')].obj, 0))
    frame(ex, what, st0, st, this, sizeof(dom, cls))
    ex.covers = [st.cond]
    return ex


def color_contract(ex):
    import re as _re

    def h(ex, nm, a, st):
        '''color value becomes hexcolor(text) (verified by V02)'''
        s = ex.m.load(st.mem, a[1], 'str')
        b = ex.lib.str.litval(s)
        if b is not None and _re.match(rb'[0-9a-fA-F]{8}$', b):
            v = ex.ival(int(b, 16), 32)
        else:
            v = z3.Function('hexcolor', ex.S, z3.IntSort())(s)
        st.mem = ex.m.store(st.mem, a[0], 'i32', v)
    ex.contracts.append((_re.compile(r'^kmlbase::Color32::set_color_abgr\(string const&\)$'), h))


def default_contract(dom, cls):
    """a newly created element has no field set; clearing a field restores the value it was created with"""
    ex = new_exec(dom)
    st = State(True, root('mem0'), {})
    fac = ex.input_ptr('factory')
    color_contract(ex)
    fn = dom.fn('kmldom::KmlFactory', 'Create' + short(cls))
    ex.under_contract = [dom.m.dem[fn]]
    p = ex.call(fn, [fac], st)
    i = ex.set_nonneg(z3.Int('i'))
    fl = [f for f in dom.all_fields(cls)]
    o = observe(ex, dom, [f for f in fl if f.kind != 'array'], p, st, i)
    for f in fl:
        if f.kind == 'array':
            h = dom.fn(f.cls, 'has_' + f.name)
            if h:      # arrays with a presence flag (ItemIcon state has a documented initial item)
                ex.oblige('new %s: has_%s() is false' % (short(cls), f.name), st.cond, Not(ex.call(h, [p], scratch_state(st))))
                continue
            ex.oblige('new %s: no %s' % (short(cls), f.name), st.cond, Eq(array_size(ex, dom, f, p, st), 0))
            continue
        if f.has:
            ex.oblige('new %s: %s() is false' % (short(cls), f.has), st.cond, Not(o[(f.name, 'has')]))
        if f.clear:
            s = scratch_state(st)
            ex.call(dom.fn(f.cls, f.clear), [p], s)
            ex.oblige('%s::%s() restores the initial value' % (short(cls), f.clear), s.cond, veq(get_field(ex, dom, f, p, s), o[(f.name, 'get')]))
            # and from any other state
            q = ex.input_ptr('other')
            s = scratch_state(st)
            ex.call(dom.fn(f.cls, f.clear), [q], s)
            ex.oblige('%s::%s() restores the initial value, whatever the state before' % (short(cls), f.clear), s.cond, veq(get_field(ex, dom, f, q, s), o[(f.name, 'get')]))
    par = xml_parent(ex, dom, p, st)
    ex.oblige('new %s has no parent' % short(cls), st.cond, Eq(par.obj, 0), tag='owner')
    ex.covers = [st.cond]
    return ex


def add_contract(dom, cls, f):
    ex = new_exec(dom)
    this, st = this_state(ex)
    fl = dom.all_fields(cls)
    i = ex.set_nonneg(z3.Int('i'))
    ex.axiom(And(i >= 0, i < (1 << 50)))
    k = elem_kind(f)
    ref = ex.alloc()
    ok = True
    if k == 'ptr':
        ref, v = child_ptr(ex, st)
        par0, file_p, file_t = xml_parent(ex, dom, v, st), xml_file(ex, dom, v, st), xml_file(ex, dom, this, st)
        ok = And(Not(Eq(v.obj, 0)), Eq(par0.obj, 0), ptr_eq(file_p, file_t))
        arg = ref
    elif k == 'str':
        v = z3.Const('v', ex.S)
        st.mem = ex.m.store(st.mem, ref, 'str', v)
        arg = ref
    elif k == 'vec3':
        v = tuple(z3.Const('v%d' % j, z3.Float64()) for j in range(3)) + (z3.Int('v3'),)
        for j in range(3):
            st.mem = ex.m.store(st.mem, ref.plus(8 * j), 'f64', v[j])
        st.mem = ex.m.store(st.mem, ref.plus(24), 'i8', v[3])
        arg = ref
    else:
        v = z3.Int('v')
        arg = v
    st0 = scratch_state(st)
    before = observe(ex, dom, fl, this, st, i)
    fn = dom.fn(f.cls, f.add)
    ex.under_contract = [dom.m.dem[fn]]
    what = '%s::%s' % (short(cls), f.add)
    ex.call(fn, [this, arg], st)
    after = observe(ex, dom, fl, this, st, i)
    others_same(ex, what, before, after, st.cond, f.name)
    n0, n1 = before[(f.name, 'size')], after[(f.name, 'size')]
    ex.oblige('%s appends one item' % what, And(st.cond, ok), Eq(n1, add(n0, 1)))
    ex.oblige('%s: earlier items unchanged' % what, And(st.cond, lt(i, n0)), veq(before[(f.name, 'at')], after[(f.name, 'at')]))
    last = array_at(ex, dom, f, this, st, n0)
    ex.oblige('%s: the new item comes last' % what, And(st.cond, ok), veq(last, v))
    if k == 'ptr':
        pa = xml_parent(ex, dom, v, st)
        ex.oblige('%s becomes the parent of the accepted child' % what, And(st.cond, ok), ptr_eq(pa, this), tag='owner')
        ex.oblige('%s refuses null and already-owned children: nothing appended' % what, And(st.cond, Not(ok)), Eq(n0, n1), tag='owner')
        ex.oblige('%s refuses already-owned children: their parent unchanged' % what, And(st.cond, Not(ok), Not(Eq(v.obj, 0))), ptr_eq(pa, par0), tag='owner')
        fr = lambda o, off: Or(And(Eq(o, v.obj), lt(off, sizeof(dom, 'kmldom::Element'))), And(Eq(o, this.obj), ge(off, K)))
    else:
        fr = lambda o, off: And(Eq(o, this.obj), ge(off, K))
    frame(ex, what, st0, st, this, sizeof(dom, cls), fr)
    ex.covers = [st.cond]
    return ex


def delete_at_contract(dom, cls, meth, f):
    """DeleteXAt(i): out of range -> null and no change; else returns item i, later items move down one"""
    ex = new_exec(dom)
    this, st = this_state(ex)
    fl = dom.all_fields(cls)
    i, j = ex.set_nonneg(z3.Int('i')), ex.set_nonneg(z3.Int('j'))
    ex.axiom(And(i >= 0, i < (1 << 50), j >= 0, j < (1 << 50)))
    n0 = array_size(ex, dom, f, this, st)
    at_i = array_at(ex, dom, f, this, st, i)
    at_j = array_at(ex, dom, f, this, st, j)
    at_j1 = array_at(ex, dom, f, this, st, add(j, 1))
    before = observe(ex, dom, fl, this, st, i)
    ret = ex.alloc()
    fn = dom.fn(cls, meth)
    ex.under_contract = [dom.m.dem[fn]]
    ex.call(fn, [ret, this, i], st)
    r = ex.m.load(st.mem, ret, 'ptr')
    n1 = array_size(ex, dom, f, this, st)
    after = observe(ex, dom, fl, this, st, i)
    b_j = array_at(ex, dom, f, this, st, j)
    what = '%s::%s' % (short(cls), meth)
    inr = lt(i, n0)
    others_same(ex, what, before, after, st.cond, f.name)
    ex.oblige('%s(i): out of range returns null' % what, And(st.cond, Not(inr)), Eq(r.obj, 0))
    ex.oblige('%s(i): out of range changes nothing' % what, And(st.cond, Not(inr)), And(Eq(n0, n1), veq(at_j, b_j)))
    ex.oblige('%s(i): returns the item' % what, And(st.cond, inr), ptr_eq(r, at_i))
    ex.oblige('%s(i): one item fewer' % what, And(st.cond, inr), Eq(n1, add(n0, -1)))
    ex.oblige('%s(i): items before i stay' % what, And(st.cond, inr, lt(j, i)), veq(b_j, at_j))
    ex.oblige('%s(i): items after i move down by one' % what, And(st.cond, inr, ge(j, i), lt(add(j, 1), n0)), veq(b_j, at_j1))
    ex.covers = [And(st.cond, inr)]
    return ex


def units(dom):
    out = []
    for cls in dom.elems:
        for f in dom.fields(cls):
            n = '%s.%s' % (short(cls), f.name)
            if f.kind == 'array':
                if f.add:
                    out.append(Unit('add ' + n, lambda cls=cls, f=f: add_contract(dom, cls, f)))
                continue
            out.append(Unit('set ' + n, lambda cls=cls, f=f: set_contract(dom, cls, f)))
            if f.clear:
                out.append(Unit('clear ' + n, lambda cls=cls, f=f: clear_contract(dom, cls, f)))
        for m in dom.classes[cls].methods:
            mm = re.match(r'Delete(\w+)At$', m['name'])
            if mm:
                f = [x for x in dom.fields(cls) if x.kind == 'array' and x.name == mm.group(1).lower()]
                if f:
                    out.append(Unit('%s.%s' % (short(cls), m['name']), lambda cls=cls, n=m['name'], f=f[0]: delete_at_contract(dom, cls, n, f)))
    for cls in dom.concrete():
        out.append(Unit('new ' + short(cls), lambda cls=cls: default_contract(dom, cls)))
    return out
