"""Visiting: Accept dispatches to the element's own type, AcceptChildren reaches every child exactly once (property D09)."""
import z3
from dv.core import *
from dv.unit import Unit
from .domlib import *
from .p_serialize import Trace, set_vtable, loc, norm


class VTrace(Trace):
    def __init__(self, ex, dom, cls, this):
        Trace.__init__(self, ex, dom, cls, this)
        self.arrays = [f for f in dom.all_fields(cls) if f.kind == 'array' and elem_kind(f) == 'ptr' and f.name != 'misplaced_elements']


def children_contract(dom, cls):
    ex = new_exec(dom)
    this, st = this_state(ex, True)
    ex.m.private.add(this.obj)
    set_vtable(ex, dom, cls, this, st)
    tr = VTrace(ex, dom, cls, this)
    tr.init(st)

    def visit(ex, n, a, st):
        '''visits the element (may modify it, not its parent)'''
        tr.record(st, 'visit', None, ex.m.load(st.mem, a[1], 'ptr'))
    ex.vcontracts['Visit'] = visit
    drv = ex.new_input_obj()
    ex.m.private.add(drv.obj)
    fn = None
    for k in dom.chain(cls):
        fn = dom.fn(k, 'AcceptChildren')
        if fn:
            break
    ex.under_contract = [dom.m.dem[fn]]
    st0 = scratch_state(st)
    ex.call(fn, [this, drv], st)
    nm = short(cls)
    evs = ex.events
    used = set()
    for f in dom.all_fields(cls):
        if f.kind != 'ptr':
            continue
        val = get_field(ex, dom, f, this, st0)
        has = Not(Eq(val.obj, 0))
        c = [e for e in evs if e.match is None and veq(e.val, val) is True]
        ex.oblige('%s: %s is visited when present' % (nm, f.name), And(st.cond, has), Or(*[e.cond for e in c]))
        for e in c:
            used.add(e.idx)
            ex.oblige('%s: %s is visited only when present' % (nm, f.name), e.cond, has)
        for x in range(len(c)):
            for y in range(x):
                ex.oblige('%s: %s is visited at most once' % (nm, f.name), And(c[x].cond, c[y].cond), False)
    for i, f in enumerate(tr.arrays):
        cnt = ex.m.load(st.mem, tr.G.plus(8 * i), 'vsz')
        ex.oblige('%s: every item of %s is visited, in order' % (nm, f.name), st.cond, Eq(cnt, tr.sizes[i]))
    for e in evs:
        if e.match is not None:
            used.add(e.idx)
            ex.oblige('%s: each repeated child visited is the next one of its list' % nm, e.cond, Or(*[c for c, f in e.match]))
        if e.idx not in used:
            ex.oblige('%s: nothing else is visited' % nm, e.cond, False)
    ex.oblige('%s: visiting children terminates normally' % nm, st.cond, True)
    ex.covers = [st.cond]
    return ex


def accept_contract(dom, cls):
    ex = new_exec(dom)
    this, st = this_state(ex, True)
    ex.m.private.add(this.obj)
    set_vtable(ex, dom, cls, this, st)
    rec = ex.newlog()
    want = 'Visit' + short(cls)
    for m in dom.classes['kmldom::Visitor'].methods:
        n = m['name']
        if n.startswith('Visit'):
            ex.vcontracts[('_ZTSN6kmldom7VisitorE', n)] = lambda ex, nm, a, st, n=n: rec.append((st.cond, n, ex.m.load(st.mem, a[1], 'ptr')))
    v = ex.new_input_obj()
    ex.m.private.add(v.obj)
    fn = None
    for k in dom.chain(cls):
        fn = dom.fn(k, 'Accept')
        if fn:
            break
    ex.under_contract = [dom.m.dem[fn]]
    ex.call(fn, [this, v], st)
    names = {m['name'] for m in dom.classes['kmldom::Visitor'].methods}
    if want not in names:
        # no hook of its own: that of the nearest base class
        want = next('Visit' + short(k) for k in dom.chain(cls) if 'Visit' + short(k) in names)
    ex.oblige("%s: Accept calls the visitor's %s with the element, once" % (short(cls), want), st.cond, And(len(rec) == 1, *[And(c, n == want, ptr_eq(p, this)) for c, n, p in rec]))
    ex.covers = [st.cond]
    return ex


def hooks(dom):
    return [m['name'] for m in dom.classes['kmldom::Visitor'].methods if m['name'].startswith('Visit')]


def default_contract(dom, hook):
    """the default VisitX hands the element to the hook of X's nearest base class, once; VisitElement does nothing"""
    cls = 'kmldom::' + hook[5:]
    names = set(hooks(dom))
    ex = new_exec(dom)
    v, st = this_state(ex, True)
    ex.m.private.add(v.obj)
    rec = ex.newlog()
    fn = dom.fn('kmldom::Visitor', hook)
    for n in names:
        def f(ex, nm, a, st, n=n):
            rec.append((st.cond, n, ex.m.load(st.mem, a[1], 'ptr')))
        ex.vcontracts[('_ZTSN6kmldom7VisitorE', n)] = f
    vt = next((n for n in dom.m.globlines if n == '_ZTVN6kmldom7VisitorE'), None)
    if vt is None:
        raise Unsupported('no vtable for Visitor')
    arg = ex.new_input_obj()
    el = ex.m.load(st.mem, arg, 'ptr')
    ex.axiom(Not(Eq(el.obj, 0)))
    ex.under_contract = [dom.m.dem[fn]]
    ex.call(fn, [v, arg], st)
    want = next(('Visit' + short(k) for k in dom.chain(cls)[1:] if 'Visit' + short(k) in names), None)
    if want is None:
        ex.oblige('default %s does nothing' % hook, st.cond, Not(Or(*[c for c, n, p in rec])))
    else:
        ok = [And(c, ptr_eq(p, el)) for c, n, p in rec if n == want]
        ex.oblige('default %s calls %s with the element' % (hook, want), st.cond, Or(*ok))
        for i, (c, n, p) in enumerate(rec):
            ex.oblige('default %s calls only %s' % (hook, want), c, n == want)
            for c2, n2, p2 in rec[:i]:
                ex.oblige('default %s makes one call' % hook, And(c, c2), False)
    ex.covers = [st.cond]
    return ex


def driver_contract(dom, drv, pre):
    """Visit: Accept(visitor) and AcceptChildren(driver) on the element, each once, in the driver's order"""
    cls = 'kmldom::' + drv
    ex = new_exec(dom)
    v, st = this_state(ex, True)
    ex.m.private.add(v.obj)
    vis = ex.new_input_obj()
    ex.m.private.add(vis.obj)
    ctor = dom.fn(cls, drv)
    ex.call(ctor, [v, vis], st)
    rec = ex.newlog()
    for n in ('Accept', 'AcceptChildren'):
        def f(ex, nm, a, st, n=n):
            rec.append((st.cond, n, a[0], a[1]))
        ex.vcontracts[n] = f
    arg = ex.new_input_obj()
    el = ex.m.load(st.mem, arg, 'ptr')
    ex.axiom(Not(Eq(el.obj, 0)))
    fn = dom.fn(cls, 'Visit')
    ex.under_contract = [dom.m.dem[fn], dom.m.dem[ctor]]
    ex.call(fn, [v, arg], st)
    order = ['Accept', 'AcceptChildren'] if pre else ['AcceptChildren', 'Accept']
    ex.oblige('%s: visits the element %s its children, each once' % (drv, 'before' if pre else 'after'), st.cond,
              And([r[1] for r in rec] == order, *[And(r[0], ptr_eq(r[2], el), ptr_eq(r[3], vis if r[1] == 'Accept' else v)) for r in rec]))
    ex.covers = [st.cond]
    return ex


def units(dom):
    out = []
    for cls in dom.concrete():
        out.append(Unit('children ' + short(cls), lambda cls=cls: children_contract(dom, cls)))
        out.append(Unit('accept ' + short(cls), lambda cls=cls: accept_contract(dom, cls)))
    for n in hooks(dom):
        out.append(Unit('default ' + n, lambda n=n: default_contract(dom, n)))
    out.append(Unit('SimplePreorderDriver', lambda: driver_contract(dom, 'SimplePreorderDriver', True)))
    out.append(Unit('SimplePostorderDriver', lambda: driver_contract(dom, 'SimplePostorderDriver', False)))
    return out
