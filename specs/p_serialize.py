"""Serialisation of every element class: what is written is exactly what is set (property D02)."""
import re
import z3
from dv.core import *
from dv.unit import Unit
from dv import astinfo
from .domlib import *
from .p_accessors import sizeof

RX = re.compile


class Event:
    __slots__ = ('cond', 'kind', 'id', 'val', 'match', 'idx', 'where', 'sub')

    def __repr__(self):
        return 'Ev(%s,%s,%s,cond=%s)' % (self.kind, self.id, self.val, self.cond)


def norm(s):
    return s.replace('_', '').lower()


def type_ids():
    return astinfo.ENUMS['kmldom::Type_Unknown']


def expected_ids(cls, f):
    n = norm(f.name)
    c = {n, 'atom' + n, 'xal' + n}
    if short(cls).startswith('Xal'):
        c = {'xal' + n, n}
    names = [(nm, v) for nm, v in type_ids() if norm(nm[5:]) in c]
    if short(cls).startswith('Atom'):
        a = [(nm, v) for nm, v in names if nm.startswith('Type_atom')]
        names = a or names
    else:
        a = [(nm, v) for nm, v in names if norm(nm[5:]) == n]
        names = a or names
    return {v: nm for nm, v in names}


def loc(v, st=None):
    """location (object, offset) whose initial contents the value is, if it is an input cell"""
    t = v.obj if isinstance(v, Ptr) else v
    if is_z(t) and z3.is_app(t) and t.num_args() == 2 and t.decl().name().startswith('mem0.'):
        return t.arg(0), t.arg(1)
    return None


def tostr(ex, ty, v):
    if ty == 'string':
        return v
    so = z3.Float64() if ty == 'double' else z3.IntSort()
    if ty == 'bool':
        v = ite(v, 1, 0)
    return z3.Function('tostr.' + ty, so, ex.S)(zi(v) if not (is_z(v) and z3.is_fp(v)) else v)


def enumstr(ex, tid, v):
    return z3.Function('enumstr', z3.IntSort(), z3.IntSort(), ex.S)(zi(tid), zi(v))


def value_contracts(ex):
    """string conversions (base/string_util) and the schema's enum tables, as functions of their arguments"""
    def ts(ty):
        def h(ex, nm, a, st):
            v = a[1]
            if ty == 'string':
                v = ex.m.load(st.mem, a[1], 'str')
            st.mem = ex.m.store(st.mem, a[0], 'str', tostr(ex, ty, v))
        h.__doc__ = 'result is the text of the %s' % ty
        return h
    for ty, pat in (('bool', 'bool'), ('double', 'double'), ('string', 'string'), ('int', 'int')):
        ex.contracts.append((RX(r'^(?:string )?kmlbase::ToString(?:<%s>)?\(%s\)$' % (pat, pat)), ts(ty)))

    def ev(ex, nm, a, st):
        '''text of enum value v of element id'''
        st.mem = ex.m.store(st.mem, a[0], 'str', enumstr(ex, a[2], a[3]))
    ex.contracts.append((RX(r'^kmldom::Xsd::EnumValue\(int, int\) const$'), ev))

    def gs(ex, nm, a, st):
        '''the schema singleton'''
        return ex.input_ptr('xsd')
    ex.contracts.append((RX(r'^kmldom::Xsd::GetSchema\(\)$'), gs))


class Trace:
    def __init__(self, ex, dom, cls, this):
        self.ex, self.dom, self.cls, self.this = ex, dom, cls, this
        self.arrays = [f for f in dom.all_fields(cls) if f.kind == 'array' and elem_kind(f) in ('ptr', 'str', 'vec3')]
        self.G = ex.new_input_obj()
        self.G = Ptr(-(10 ** 6), 0)
        self.st0 = None

    def init(self, st):
        for i, f in enumerate(self.arrays):
            st.mem = self.ex.m.store(st.mem, self.G.plus(8 * i), 'vsz', 0)
        self.st0 = scratch_state(st)
        self.sizes = [array_size(self.ex, self.dom, f, self.this, st) for f in self.arrays]
        # element address of item 0 and stride, from the real accessor
        self.base = []
        for f in self.arrays:
            z = array_at(self.ex, self.dom, f, self.this, st, 0)
            o = array_at(self.ex, self.dom, f, self.this, st, 1)
            z, o = (z[0], o[0]) if isinstance(z, tuple) else (z, o)
            lz, lo = loc(z), loc(o)
            if lz is None or lo is None:
                raise Unsupported('array accessor of %s is not a plain element read' % f.name)
            self.base.append((lz, simp(lo[1] - lz[1])))

    def record(self, st, kind, id=None, val=None, sub=None):
        ex = self.ex
        e = Event()
        e.cond, e.kind, e.id, e.val, e.match, e.sub = st.cond, kind, id, val, None, sub
        l = None
        if val is not None:
            v0 = val[0] if isinstance(val, tuple) else val
            l = loc(v0)
            if l is not None and as_const(l[1]) is None or l is not None and as_const(l[1]) >= K:
                ms = []
                for i, f in enumerate(self.arrays):
                    cnt = ex.m.load(st.mem, self.G.plus(8 * i), 'vsz')
                    (bo, bf), stride = self.base[i]
                    c = And(ex.m.obj_eq(l[0], bo), Eq(l[1], simp(bf + stride * zi(cnt))), lt(cnt, self.sizes[i]))
                    if c is False:
                        continue
                    ms.append((c, f))
                    st.mem = ex.m.store(st.mem, self.G.plus(8 * i), 'vsz', ite(c, add(cnt, 1), cnt))
                e.match = ms
        e.idx = len(ex.events)
        e.where = ex.mod.dem.get(ex.stack[-1], '') if ex.stack else ''
        if not ex.suppress:
            ex.events.append(e)

    def install(self):
        ex, tr = self.ex, self
        V = ex.vcontracts

        def reg(name, fn, doc):
            fn.__doc__ = doc
            V[('_ZTSN6kmldom10SerializerE', name)] = fn
        reg('BeginById', lambda ex, n, a, st: tr.record(st, 'begin', a[1]), 'emits a start tag')
        reg('End', lambda ex, n, a, st: tr.record(st, 'end'), 'emits an end tag')
        reg('SaveElement', lambda ex, n, a, st: tr.record(st, 'elem', None, ex.m.load(st.mem, a[1], 'ptr')), 'emits the child element')
        reg('SaveElementGroup', lambda ex, n, a, st: tr.record(st, 'elem', None, ex.m.load(st.mem, a[1], 'ptr'), ('group', a[2])), 'emits the child element')
        reg('SaveStringFieldById', lambda ex, n, a, st: tr.record(st, 'text', a[1], ex.m.load(st.mem, a[2], 'str')), 'emits <id>text</id>')
        reg('SaveContent', lambda ex, n, a, st: tr.record(st, 'content', a[2], ex.m.load(st.mem, a[1], 'str')), 'emits character data')
        reg('SaveVec3', lambda ex, n, a, st: tr.record(st, 'vec3', None, tr.vec3(a[1], st)), 'emits a tuple')
        reg('SaveSimpleVec3', lambda ex, n, a, st: tr.record(st, 'vec3', a[1], tr.vec3(a[2], st)), 'emits <id>tuple</id>')
        reg('SaveColor', lambda ex, n, a, st: tr.record(st, 'color', a[1], ex.m.load(st.mem, a[2], 'i32')), 'emits <id>color</id>')
        for n in ('Indent', 'BeginElementArray', 'EndElementArray', 'BeginElementGroupArray', 'EndElementGroupArray'):
            reg(n, lambda ex, n, a, st: None, 'no content')

        def ser(ex, n, a, st):
            '''emits the misplaced child'''
            tr.record(st, 'elem', None, a[0], 'misplaced')
        V['Serialize'] = ser

        def typ(ex, n, a, st):
            '''dynamic type of the child'''
            t = z3.Function('typeOf', z3.IntSort(), z3.IntSort())(zi(a[0].obj))
            return t
        V['Type'] = typ

        def sa(ex, n, a, st):
            '''attributes of the element (own contract); no effect on the element'''
            ex.events.append(None) if False else None
            tr.record(st, 'attrs')
        ex.contracts.append((RX(r'^kmldom::\w+::SerializeAttributes\(kmlbase::Attributes\*\) const$'), sa))
        ex.contracts.append((RX(r'^kmlbase::Attributes::(Attributes|~Attributes)\('), lambda ex, n, a, st: None))

        def enum(ex, n, a, st):
            '''emits <id>name of the enum value</id>'''
            tr.record(st, 'enum', a[1], a[2])
        ex.contracts.append((RX(r'^kmldom::Serializer::SaveEnum\(int, int\)$'), enum))

        def fld(ty):
            def h(ex, n, a, st):
                '''emits <id>text of the value</id>'''
                v = ex.m.load(st.mem, a[2], 'str') if ty == 'string' else a[2]
                tr.record(st, ty, a[1], v)
            return h
        for ty in ('bool', 'int', 'double', 'string'):
            ex.contracts.append((RX(r'^void kmldom::Serializer::SaveFieldById<%s>\(int, %s\)$' % (ty, ty)), fld(ty)))

    def vec3(self, p, st):
        return tuple(self.ex.m.load(st.mem, p.plus(8 * j), 'f64') for j in range(3)) + (self.ex.m.load(st.mem, p.plus(24), 'i8'),)


def set_vtable(ex, dom, cls, this, st):
    n = '_ZTVN6kmldom%d%sE' % (len(short(cls)), short(cls))
    if dom.m.glob(n) is None:
        raise Unsupported('no vtable for ' + cls)
    st.mem = ex.m.store(st.mem, this, 'ptr', ex.global_ptr(n).plus(16))


NOSER = {('char_data'),}


def attr_fields(dom, cls):
    """fields of cls carried as XML attributes: those whose has-flag the class's SerializeAttributes consults"""
    return dom.attr_cache.setdefault(cls, _attr_fields(dom, cls)) if hasattr(dom, 'attr_cache') else _attr_fields(dom, cls)


def run_attrs(dom, cls):
    ex = new_exec(dom)
    this, st = this_state(ex, True); ex.m.private.add(this.obj)
    set_vtable(ex, dom, cls, this, st)
    value_contracts(ex)
    attrs = ex.alloc()
    st.mem = ex.m.store(st.mem, attrs, 'mhas', z3.K(ex.S, z3.BoolVal(False)))
    base_calls = ex.newlog()

    def base(ex, n, a, st):
        '''adds the preserved unknown attributes and namespaces (own contract)'''
        base_calls.append((st.cond, a))
    ex.contracts.insert(0, (RX(r'^kmldom::Element::SerializeAttributes\('), base))
    fn = None
    for k in dom.chain(cls):
        fn = dom.fn(k, 'SerializeAttributes')
        if fn:
            break
    st0 = scratch_state(st)
    ex.call(fn, [this, attrs], st)
    return ex, this, st0, st, attrs, base_calls, fn


def _attr_fields(dom, cls):
    try:
        ex, this, st0, st, attrs, base_calls, fn = run_attrs(dom, cls)
    except Unsupported:
        return None
    out = {}
    h = ex.m.load(st.mem, attrs, 'mhas')
    for b in list(ex.lib.str.lits):
        k = ex.lib.str.lit(b)
        p = ex.lib.sel(h, k)
        if p is False:
            continue
        out[b] = (p, ex.m.load(st.mem, ex.lib.mslot(attrs, k).plus(32), 'str'))
    return out


def attr_name_ok(f, b):
    return norm(b.decode()) == norm(f.name)


def attrs_contract(dom, cls):
    """SerializeAttributes: attribute k is present iff the field named k is set, and carries its value; nothing else"""
    ex, this, st0, st, attrs, base_calls, fn = run_attrs(dom, cls)
    ex.under_contract = [dom.m.dem[fn]]
    h = ex.m.load(st.mem, attrs, 'mhas')
    lits = [b for b in ex.lib.str.lits]
    claimed = []
    fl = [f for f in dom.all_fields(cls) if f.kind not in ('array', 'ptr') and f.has]
    for b in lits:
        k = ex.lib.str.lit(b)
        p = ex.lib.sel(h, k)
        if p is False:
            continue
        fs = [f for f in fl if attr_name_ok(f, b)]
        if len(fs) != 1:
            ex.oblige('%s: attribute %s belongs to a declared field' % (short(cls), b.decode()), st.cond, False)
            continue
        f = fs[0]
        claimed.append(k)
        v = ex.m.load(st.mem, ex.lib.mslot(attrs, k).plus(32), 'str')
        has = has_field(ex, dom, f, this, st0)
        g = get_field(ex, dom, f, this, st0)
        ex.oblige('%s: attribute %s is written exactly when %s is set' % (short(cls), b.decode(), f.name), st.cond, Eq(p, has))
        if f.kind == 'int':
            exp = [enumstr(ex, tid, g) for nm, tid in type_ids() if norm(nm[5:]) in (norm(f.name), norm(f.name)[1:])] + [tostr(ex, 'int', g)] + [tostr(ex, 'double', ex.int_to_double(g))]
            ex.oblige('%s: attribute %s carries the value of %s' % (short(cls), b.decode(), f.name), And(st.cond, has), Or(*[Eq(v, e) for e in exp]))
        else:
            ex.oblige('%s: attribute %s carries the value of %s' % (short(cls), b.decode(), f.name), And(st.cond, has), Eq(v, tostr(ex, f.kind, g)))
    k = z3.Const('anykey', ex.S)
    ex.oblige('%s: no other attribute is written' % short(cls), And(st.cond, *[k != c for c in claimed]), Not(z3.Select(h, k)))
    ex.oblige('%s: unknown attributes are handed on exactly once' % short(cls), st.cond, And(len(base_calls) == 1, base_calls[0][0] if base_calls else False))
    ex.covers = [st.cond]
    return ex


def serialize_contract(dom, cls):
    ex = new_exec(dom)
    this, st = this_state(ex, True); ex.m.private.add(this.obj)
    set_vtable(ex, dom, cls, this, st)
    value_contracts(ex)
    tr = Trace(ex, dom, cls, this)
    tr.install()
    tr.init(st)
    fn = None
    for k in dom.chain(cls):
        fn = dom.fn(k, 'Serialize')
        if fn:
            break
    ex.under_contract = [dom.m.dem[fn]]
    ser = ex.new_input_obj(); ex.m.private.add(ser.obj)
    st0 = scratch_state(st)
    attrs = _attr_fields(dom, cls)
    ex.call(fn, [this, ser], st)
    evs = ex.events
    nm = short(cls)
    fl = dom.all_fields(cls)
    done = set()
    used = set()

    def exactly_once(f, cands, has, val, what):
        """among the candidate events exactly one fires, iff has, with the value"""
        ex.oblige('%s: %s is written when set' % (nm, what), And(st.cond, has), Or(*[And(e.cond, veq(e.val, val)) for e in cands]))
        empty = ex.lib.str.lit(b'') if f.kind == 'string' else None
        for e in cands:
            only = has
            if e.kind == 'content':
                # class invariant (established by the constructor and every clear, see the accessor contracts): an unset text is empty,
                # and writing empty character data emits nothing
                ex.axiom(Implies(Not(has), Eq(val, empty)))
                only = Or(has, Eq(e.val, empty))
            ex.oblige('%s: %s is written only when set, with its own value' % (nm, what), e.cond, And(only, veq(e.val, val)))
        for i in range(len(cands)):
            for j in range(i):
                ex.oblige('%s: %s is written at most once' % (nm, what), And(cands[i].cond, cands[j].cond), False)
        for e in cands:
            used.add(e.idx)

    begins = [e for e in evs if e.kind == 'begin']
    ends = [e for e in evs if e.kind == 'end']
    tid = [v for n, v in type_ids() if n == 'Type_' + nm or norm(n) == norm('Type_' + nm) or norm(n) == norm('Type_Gx' + nm)]
    tid = dict(type_ids()).get('Type_' + nm, tid[0] if tid else None)
    want_begin = begins
    ex.oblige('%s: exactly one start tag' % nm, st.cond, And(len(begins) == 1, begins[0].cond if begins else False))
    ex.oblige('%s: exactly one end tag' % nm, st.cond, And(len(ends) == 1, ends[0].cond if ends else False))
    if begins:
        if tid is not None:
            ex.oblige("%s: the start tag is the element's own" % nm, begins[0].cond, Eq(begins[0].id, tid))
        used.add(begins[0].idx)
        ex.oblige('%s: the start tag precedes all content' % nm, st.cond, all(e.idx >= begins[0].idx or e.kind == 'attrs' for e in evs))
    if ends:
        used.add(ends[0].idx)
        ex.oblige('%s: the end tag follows all content' % nm, st.cond, all(e.idx <= ends[0].idx for e in evs))
    for e in evs:
        if e.kind == 'attrs':
            used.add(e.idx)
    if True:
        ex.oblige('%s: its attributes are written' % nm, st.cond, Or(*[e.cond for e in evs if e.kind == 'attrs']))
    for f in fl:
        if f.name == 'char_data':
            continue
        if f.kind == 'array':
            if f not in tr.arrays:
                h = dom.fn(f.cls, 'has_' + f.name)
                if h:
                    has = ex.call(h, [this], scratch_state(st0))
                    ids = expected_ids(f.cls, f)
                    cands = [e for e in evs if e.id is not None and as_const(e.id) in ids]
                    for e in cands:
                        used.add(e.idx)
                        ex.oblige('%s: %s is written only when set' % (nm, f.name), e.cond, has)
                    ex.oblige('%s: %s is written when set' % (nm, f.name), And(st.cond, has), Or(*[e.cond for e in cands]))
            continue
        has = has_field(ex, dom, f, this, st0) if f.has else True
        val = get_field(ex, dom, f, this, st0)
        if f.kind == 'ptr':
            cands = [e for e in evs if e.kind == 'elem' and e.match is None and veq(e.val, val) is True]
            exactly_once(f, cands, has, val, f.name)
            continue
        if attrs and any(attr_name_ok(f, b) for b in attrs):
            continue
        ids = expected_ids(f.cls, f)
        cands = [e for e in evs if e.idx not in used and e.kind in ('bool', 'int', 'double', 'string', 'enum', 'color', 'text') and as_const(e.id) in ids]
        if not cands and f.kind == 'string':
            cands = [e for e in evs if e.kind == 'content' and e.match is None]      # text content of the element
        for e in cands:
            if e.kind not in ('text', 'content'):
                ok = {'bool': ('bool',), 'int': ('int', 'enum'), 'double': ('double',), 'string': ('string',), 'color': ('color',)}[f.kind]
                if e.kind not in ok:
                    ex.oblige('%s: %s is written in its own type' % (nm, f.name), e.cond, False)
                    return ex
        exactly_once(f, cands, has, val, f.name)
    for i, f in enumerate(tr.arrays):
        cnt = ex.m.load(st.mem, tr.G.plus(8 * i), 'vsz')
        ex.oblige('%s: every item of %s is written, in order' % (nm, f.name), st.cond, Eq(cnt, tr.sizes[i]))
    for e in evs:
        if e.match is not None:
            used.add(e.idx)
            ex.oblige('%s: each repeated item written is the next one of its list' % nm, e.cond, Or(*[c for c, f in e.match]))
            if e.id is not None and e.kind != 'content':
                for c, f in e.match:
                    ids = expected_ids(f.cls, f)
                    ex.oblige('%s: items of %s are written under their own name' % (nm, f.name), And(e.cond, c), Or(*[Eq(e.id, x) for x in ids]))
        if e.idx not in used:
            ex.oblige('%s: nothing else is written (%s %s)' % (nm, e.kind, e.id), e.cond, False)
    o, off = z3.Int('frame_o'), z3.Int('frame_off')
    ex.m.inputish.add(o.get_id())
    ex.axiom(And(o < 0, o > -(10 ** 6)))
    for k in ('i8', 'i32', 'i64', 'f64', 'ptr', 'str', 'vsz'):
        a, b = ex.m._load(st0.mem, o, off, k), ex.m._load(st.mem, o, off, k)
        ex.oblige('%s: writing does not change any element (%s cells)' % (nm, k), st.cond, veq(a, b), tag='frame')
    ex.covers = [st.cond]
    return ex


def helper_units(dom):
    """the non-virtual helpers used as contracts above"""
    out = []

    def save_enum():
        ex = new_exec(dom)
        this, st = this_state(ex, True); ex.m.private.add(this.obj)
        value_contracts(ex)
        rec = ex.newlog()
        ex.vcontracts[('_ZTSN6kmldom10SerializerE', 'SaveStringFieldById')] = lambda ex, n, a, st: rec.append((st.cond, a[1], ex.m.load(st.mem, a[2], 'str')))
        fn = dom.fn('kmldom::Serializer', 'SaveEnum')
        ex.under_contract = [dom.m.dem[fn]]
        t, v = z3.Int('tid'), z3.Int('v')
        ex.axiom(And(t >= 0, t < 1000, v >= 0, v < 1000))
        ex.call(fn, [this, t, v], st)
        e = enumstr(ex, t, v)
        ex.oblige('SaveEnum writes the name of the enum value under the element, unless that name is empty', And(st.cond, Not(Eq(e, ex.lib.str.lit(b'')))),
                  Or(*[And(c, Eq(i, t), Eq(s, e)) for c, i, s in rec]))
        ex.oblige('SaveEnum writes at most one element', st.cond, len(rec) == 1)
        return ex
    out.append(Unit('helper SaveEnum', save_enum))
    for ty in ('bool', 'int', 'double', 'string'):
        def fld(ty=ty):
            ex = new_exec(dom)
            this, st = this_state(ex, True); ex.m.private.add(this.obj)
            value_contracts(ex)
            rec = ex.newlog()
            ex.vcontracts[('_ZTSN6kmldom10SerializerE', 'SaveStringFieldById')] = lambda ex, n, a, st: rec.append((st.cond, a[1], ex.m.load(st.mem, a[2], 'str')))
            d = 'void kmldom::Serializer::SaveFieldById<%s>(int, %s)' % (ty, ty)
            if d not in dom.m.bydem:
                raise Unsupported('no ' + d)
            fn = dom.m.bydem[d][0]
            ex.under_contract = [d]
            t = z3.Int('tid')
            if ty == 'string':
                p = ex.alloc()
                v = z3.Const('v', ex.S)
                st.mem = ex.m.store(st.mem, p, 'str', v)
                arg = p
            else:
                v = arg = z3.Bool('v') if ty == 'bool' else z3.Int('v') if ty == 'int' else z3.Const('v', z3.Float64())
            ex.call(fn, [this, t, arg], st)
            ex.oblige('SaveFieldById<%s> writes the text of the value under the element' % ty, st.cond, And(len(rec) == 1, *[And(c, Eq(i, t), Eq(s, tostr(ex, ty, v))) for c, i, s in rec]))
            return ex
        out.append(Unit('helper SaveFieldById<%s>' % ty, fld))
    return out


def units(dom):
    out = helper_units(dom)
    for cls in dom.concrete():
        out.append(Unit('serialize ' + short(cls), lambda cls=cls: serialize_contract(dom, cls)))
        out.append(Unit('attributes ' + short(cls), lambda cls=cls: attrs_contract(dom, cls)))
    return out
