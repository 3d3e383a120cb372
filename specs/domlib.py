"""Shared vocabulary for contracts on the element classes: which classes, fields and accessors the real headers declare
(enumerated from clang's AST on every run) and abstraction functions that observe an object through its real getters."""
import re
import z3
from dv import front, astinfo, exec as X
from dv.core import *

HEADERS = ['kml/dom.h', 'kml/dom/kml_factory.h', 'kml/dom/kml_cast.h', 'kml/dom/serializer.h', 'kml/dom/xml_serializer.h']


BASE_METHODS = {'kmlbase::XmlElement': ('GetParent', 'GetXmlFile', 'get_xmlns')}


class Field:
    __slots__ = ('cls', 'name', 'kind', 'set', 'get', 'has', 'clear', 'add', 'size', 'at', 'argtype')

    def __repr__(self):
        return '%s::%s(%s)' % (self.cls, self.name, self.kind)


def short(c):
    return c.split('::')[-1]


class Dom:
    def __init__(self, dirs=('base', 'dom'), extra=None):
        self.classes = astinfo.load(HEADERS, 'kmldom')
        tu = {'dv_emit.cc': astinfo.emit_tu(HEADERS, {k: c for k, c in self.classes.items() if 'kmldom::Visitor' not in k})}
        sz = 0
        t = ''
        self.szname = {}
        for k in self.classes:
            self.szname[k] = 'dvsz_%d' % sz
            t += 'extern const unsigned long dvsz_%d = sizeof(%s);\n' % (sz, k)
            sz += 1
        for c, ms in BASE_METHODS.items():
            for x in ms:
                t += '__attribute__((used)) auto dvb_%s_%s = &%s::%s;\n' % (c.split('::')[-1], x, c, x)
        t += '#include <new>\n#include "kml/dom/parser_observer.h"\nvoid dv_observer(void* p) { new (p) kmldom::ParserObserver; }\n'
        tu['dv_emit.cc'] += t
        if extra:
            tu.update(extra)
        self.m = front.build(list(dirs), tu)
        self.elems = {}
        for k, c in self.classes.items():
            ch = self.chain(k)
            if ch and ch[-1] == 'kmldom::Element':
                self.elems[k] = c

    def sizeof(self, cls):
        for n in self.m.globlines:
            if self.szname[cls] in n and (n == self.szname[cls] or self.m.dem.get(n) == self.szname[cls]):
                return self.m.glob(n)[1][1]
        raise Unsupported('sizeof ' + cls)

    def chain(self, k):
        """k and its bases, most derived first"""
        out = []
        while k:
            out.append(k)
            if k == 'kmldom::Element':
                return out
            c = self.classes.get(k)
            if c is None:
                if k.startswith('kmldom::BasicElement<'):
                    k = 'kmldom::Element'
                    continue
                return []
            k = c.bases[0] if c.bases else None
            if k and not k.startswith('kmldom::'):
                return []
        return out

    def concrete(self):
        """instantiable element classes (those the factory creates)"""
        out = []
        f = self.classes['kmldom::KmlFactory']
        for m in f.methods:
            mm = re.match(r'Create(\w+)$', m['name'])
            if mm and m['type'].replace(' ', '') == mm.group(1) + '*()const':
                k = 'kmldom::' + mm.group(1)
                if k in self.elems:
                    out.append(k)
        return out

    def fn(self, cls, meth, sig=None):
        """mangled name of cls::meth"""
        if not hasattr(self, '_idx'):
            self._idx = {}
            for d, ns in self.m.bydem.items():
                self._idx.setdefault(d.split('(')[0], []).extend(ns)
        l = [n for n in self._idx.get(cls + '::' + meth, []) if self.m.funcs[n].defined]
        if sig:
            l = [n for n in l if self.m.dem[n] == cls + '::' + meth + sig]
        return l[0] if l else None

    def fields(self, cls):
        """fields declared in cls itself"""
        c = self.classes.get(cls)
        if c is None:
            return []
        ms = {}
        for m in c.methods:
            if m['kind'] == 'CXXMethodDecl':
                ms.setdefault(m['name'], []).append(m)
        out = []
        for n, l in ms.items():
            mm = re.match(r'get_(\w+?)_array_size$', n)
            if mm:
                x = mm.group(1)
                f = Field()
                f.cls, f.name, f.kind = cls, x, 'array'
                f.size, f.at = n, 'get_%s_array_at' % x
                f.add = 'add_' + x if 'add_' + x in ms else None
                if f.at not in ms:
                    continue
                f.argtype = ms[f.at][0]['type']
                f.set = f.get = f.has = f.clear = None
                out.append(f)
                continue
            mm = re.match(r'set_(\w+)$', n)
            if mm and len(l) == 1:
                x = mm.group(1)
                t = l[0]['type']
                if 'get_' + x not in ms:
                    continue
                f = Field()
                f.cls, f.name = cls, x
                f.set, f.get = n, 'get_' + x
                f.has = 'has_' + x if 'has_' + x in ms else None
                f.clear = 'clear_' + x if 'clear_' + x in ms else None
                f.add = f.size = f.at = None
                f.argtype = t
                a = re.match(r'void \((?:const )?(.*?)(?: ?&)?\)$', t).group(1)
                f.kind = {'bool': 'bool', 'double': 'double', 'int': 'int', 'string': 'string', 'kmlbase::Color32': 'color'}.get(a) or ('ptr' if a.endswith('Ptr') else None)
                if f.kind is None:
                    continue
                out.append(f)
        return out

    def all_fields(self, cls):
        out = []
        for k in self.chain(cls):
            out += self.fields(k)
        return out


def new_exec(dom, mode='int'):
    ex = X.Exec(dom.m, mode)
    ex.dom = dom
    return ex


def this_state(ex, concrete=False):
    st = State(True, root('mem0'), {})
    this = ex.new_input_obj() if concrete else ex.input_ptr('this')
    return this, st


def scratch_state(st):
    return State(st.cond, st.mem, {})


def get_field(ex, dom, f, this, st):
    """abstract value of a field, through the real getters; evaluated on a copy of the state"""
    s = scratch_state(st)
    fn = dom.fn(f.cls, f.get)
    r = ex.call(fn, [this], s)
    if f.kind == 'string':
        return ex.m.load(s.mem, r, 'str')
    if f.kind == 'ptr':
        return ex.m.load(s.mem, r, 'ptr')
    if f.kind == 'color':
        return ex.m.load(s.mem, r, 'i32')
    return r


def has_field(ex, dom, f, this, st):
    s = scratch_state(st)
    return ex.call(dom.fn(f.cls, f.has), [this], s)


def elem_kind(f):
    t = f.argtype
    if 'string' in t:
        return 'str'
    if 'Vec3' in t:
        return 'vec3'
    if 'Ptr' in t:
        return 'ptr'
    if t.startswith('int') or t.startswith('const int'):
        return 'i32'
    return None


def array_size(ex, dom, f, this, st):
    s = scratch_state(st)
    return ex.call(dom.fn(f.cls, f.size), [this], s)


def array_at(ex, dom, f, this, st, i):
    s = scratch_state(st)
    ex.suppress += 1
    try:
        k = elem_kind(f)
        fn = dom.fn(f.cls, f.at)
        if f.argtype.startswith('const kmlbase::Vec3 ('):
            ret = ex.alloc()
            ex.call(fn, [ret, this, i], s)
            r = ret
        else:
            r = ex.call(fn, [this, i], s)
        if k == 'i32' and not isinstance(r, Ptr):
            return r
        if k == 'vec3':
            return tuple(ex.m.load(s.mem, r.plus(8 * j), 'f64') for j in range(3)) + (ex.m.load(s.mem, r.plus(24), 'i8'),)
        return ex.m.load(s.mem, r, k)
    finally:
        ex.suppress -= 1


def veq(a, b):
    if isinstance(a, tuple):
        return And(*[veq(x, y) for x, y in zip(a, b)])
    if isinstance(a, Ptr):
        return ptr_eq(a, b)
    if is_z(a) and is_z(b) and z3.is_fp(a):
        return zb_fold(a == b)
    return Eq(a, b)


def observe(ex, dom, fields, this, st, idx):
    """{(field, what): value}"""
    o = {}
    for f in fields:
        if f.kind == 'array':
            o[(f.name, 'size')] = array_size(ex, dom, f, this, st)
            o[(f.name, 'at')] = array_at(ex, dom, f, this, st, idx)
        else:
            o[(f.name, 'get')] = get_field(ex, dom, f, this, st)
            if f.has:
                o[(f.name, 'has')] = has_field(ex, dom, f, this, st)
    return o


def sym_value(ex, f, name='v'):
    """fresh argument of the field's type: (value, call argument, store fn)"""
    if f.kind == 'bool':
        v = z3.Bool(name)
        return v, v, None
    if f.kind == 'int':
        v = z3.Int(name)
        ex.axiom(And(v >= -(1 << 31), v < (1 << 31)))
        return v, v, None
    if f.kind == 'double':
        v = z3.Const(name, z3.Float64())
        return v, v, None
    p = ex.input_ptr(name + '_ref')
    return None, p, None
