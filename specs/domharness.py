"""Generates the reflection part of the DOM companion harness from the real headers."""
import re
from dv import astinfo
from .domlib import *


class DomLite(Dom):
    def __init__(self):
        self.classes = astinfo.load(HEADERS, 'kmldom')
        self.elems = {k: c for k, c in self.classes.items() if (self.chain(k) or [''])[-1] == 'kmldom::Element'}


def enum_n(f):
    n = f.name.replace('_', '').lower()
    sp = {'key': 'stylestate', 'state': 'itemiconstate'}
    n = sp.get(n, n)
    for k, l in astinfo.ENUMS.items():
        if k in ('kmldom::Type_Unknown', 'kmldom::XsdType') or not l:
            continue
        first = l[0][0]
        p = ('gx' if first.startswith('GX_') else '') + first.replace('GX_', '', 1).split('_')[0].lower()
        if p == n or (p == 'units' and n in ('xunits', 'yunits')):
            return len(l)
    return 0


def ptype(f):
    t = f.argtype
    m = re.search(r'(\w+)Ptr\b', t)
    return m.group(1)


def gen(dom):
    """{file: text}"""
    cl = dom.concrete()
    files = {}
    per = 12
    chunks = [cl[i:i + per] for i in range(0, len(cl), per)]
    decl = ''
    casts = ''
    for P in sorted({ptype(f) for c in cl for f in dom.all_fields(c) if f.kind == 'ptr' or (f.kind == 'array' and elem_kind(f) == 'ptr')}):
        if P == 'UpdateOperation':
            casts += 'static UpdateOperationPtr as_UpdateOperation(const ElementPtr& k) { return k && (k->Type() == Type_Create || k->Type() == Type_Change || k->Type() == Type_Delete) ? static_cast<UpdateOperation*>(k.get()) : NULL; }\n'
        else:
            casts += 'static %sPtr as_%s(const ElementPtr& k) { return As%s(k); }\n' % (P, P, P)
    for n, ch in enumerate(chunks):
        t = '#include "dom_h.h"\n' + casts + 'void reg_%d(std::vector<ClassD>& out) {\n' % n
        decl += 'void reg_%d(std::vector<ClassD>& out);\n' % n
        for c in ch:
            s = short(c)
            t += '{ ClassD c; c.name = "%s"; c.create = []() { return ElementPtr(KmlFactory::GetFactory()->Create%s()); };\n' % (s, s)
            t += '  c.type = c.create()->Type();\n'
            for f in dom.all_fields(c):
                if f.name in ('char_data', 'unknown_elements', 'misplaced_elements'):
                    continue
                T = 'static_cast<%s*>(e)' % s
                O = short(f.cls)
                t += '{ FieldD f; f.name = "%s"; f.owner = "%s"; f.enumn = 0;\n' % (f.name, O)
                if f.kind == 'array':
                    k = elem_kind(f)
                    add = f.add or ('add_vec3' if k == 'vec3' and s == 'Coordinates' else None)
                    if k == 'ptr':
                        P = ptype(f)
                        t += ' f.kind = "aptr"; f.setp = [](Element* e, const ElementPtr& k) { %sPtr p = as_%s(k); if (!p) return false; %s->%s::add_%s(p); return true; };\n' % (P, P, T, O, f.name)
                        t += ' f.kids = [](Element* e) { std::vector<Element*> r; for (size_t i = 0; i < %s->%s::%s(); ++i) r.push_back(%s->%s::%s(i).get()); return r; };\n' % (T, O, f.size, T, O, f.at)
                        t += ' f.obs = [](Element* e) { string r; for (size_t i = 0; i < %s->%s::%s(); ++i) r += h::f("%%p,", %s->%s::%s(i).get()); return r.empty() ? string("-") : r; };\n' % (T, O, f.size, T, O, f.at)
                    elif k == 'str':
                        t += ' f.kind = "astr"; f.set = [](Element* e, int v) { %s->%s::%s(sval(v)); }; f.val = [](Element*, int v) { return sval(v); };\n' % (T, O, add)
                        t += ' f.obs = [](Element* e) { string r; for (size_t i = 0; i < %s->%s::%s(); ++i) r += %s->%s::%s(i) + "|"; return r.empty() ? string("-") : r; };\n' % (T, O, f.size, T, O, f.at)
                    elif k == 'vec3':
                        t += ' f.kind = "avec3"; f.set = [](Element* e, int v) { %s->%s::%s(kmlbase::Vec3(dval(v), dval(v + 1), dval(v + 2))); };\n' % (T, O, add)
                        t += ' f.val = [](Element*, int v) { return vstr(kmlbase::Vec3(dval(v), dval(v + 1), dval(v + 2))); };\n'
                        t += ' f.obs = [](Element* e) { string r; for (size_t i = 0; i < %s->%s::%s(); ++i) r += vstr(%s->%s::%s(i)) + "|"; return r.empty() ? string("-") : r; };\n' % (T, O, f.size, T, O, f.at)
                    else:
                        n2 = enum_n(f)
                        t += ' f.kind = "aint"; f.enumn = %d; f.set = [](Element* e, int v) { %s->%s::%s(ival(v, %d)); };\n' % (n2, T, O, add, n2)
                        t += ' f.val = [](Element*, int v) { return h::f("%%d", ival(v, %d)); };\n' % n2
                        t += ' f.obs = [](Element* e) { string r; for (size_t i = 0; i < %s->%s::%s(); ++i) r += h::f("%%d|", (int)%s->%s::%s(i)); return r.empty() ? string("-") : r; };\n' % (T, O, f.size, T, O, f.at)
                else:
                    has = '%s->%s::%s()' % (T, O, f.has) if f.has else 'true'
                    get = '%s->%s::%s()' % (T, O, f.get)
                    if f.kind == 'ptr':
                        P = ptype(f)
                        t += ' f.kind = "ptr"; f.setp = [](Element* e, const ElementPtr& k) { %sPtr p = as_%s(k); if (!p) return false; %s->%s::%s(p); return true; };\n' % (P, P, T, O, f.set)
                        t += ' f.kids = [](Element* e) { std::vector<Element*> r; if (%s.get()) r.push_back(%s.get()); return r; };\n' % (get, get)
                        t += ' f.obs = [](Element* e) { return %s ? h::f("%%p", %s.get()) : string("-"); };\n' % (has, get)
                    else:
                        a, r = {'bool': ('(v & 1) != 0', 'h::f("%%d", (int)%s)'), 'double': ('dval(v)', 'dstr(%s)'), 'string': ('sval(v)', 'string("=") + %s'),
                                'color': ('kmlbase::Color32((uint32_t)(0x01020304u * (v + 1)))', '%s.to_string_abgr()'), 'int': ('ival(v, %d)' % enum_n(f), 'h::f("%%d", %s)')}[f.kind]
                        if f.kind == 'int':
                            t += ' f.enumn = %d;\n' % enum_n(f)
                        t += ' f.kind = "%s"; f.set = [](Element* e, int v) { %s->%s::%s(%s); };\n' % (f.kind, T, O, f.set, a)
                        vt = {'bool': 'h::f("%d", v & 1)', 'double': 'dstr(dval(v))', 'string': 'string("=") + sval(v)', 'color': 'kmlbase::Color32((uint32_t)(0x01020304u * (v + 1))).to_string_abgr()', 'int': 'h::f("%%d", ival(v, %d))' % enum_n(f)}[f.kind]
                        t += ' f.val = [](Element*, int v) { return %s; };\n' % vt
                        t += ' f.obs = [](Element* e) { return %s ? %s : string("-"); };\n' % (has, r % get)
                        t += ' f.raw = [](Element* e) { return string(%s); };\n' % (r % get)
                    if f.clear:
                        t += ' f.clear = [](Element* e) { %s->%s::%s(); };\n' % (T, O, f.clear)
                t += ' c.fields.push_back(f); }\n'
            t += 'out.push_back(c); }\n'
        t += '}\n'
        files['reg_%d.cc' % n] = t
    files['reg_all.cc'] = '#include "dom_h.h"\n' + decl + 'std::vector<ClassD>& classes() { static std::vector<ClassD> v; if (v.empty()) { %s } return v; }\n' % ' '.join('reg_%d(v);' % n for n in range(len(chunks)))
    from dv import front
    hooks = re.findall(r'virtual void Visit(\w+)\(\s*const\s+(\w+)Ptr&', open(front.REPO + '/src/kml/dom/visitor.h').read())
    t = '#include "dom_h.h"\n#include "kml/dom/visitor.h"\n#include "kml/dom/visitor_driver.h"\nstruct RecV : public Visitor { std::vector<std::pair<string, Element*> >* log;\n'
    for n, a in hooks:
        t += ' virtual void Visit%s(const %sPtr& e) { log->push_back(std::make_pair(string("%s"), (Element*)e.get())); Visitor::Visit%s(e); }\n' % (n, a, n, n)
    t += '};\nvoid visit_tree(const ElementPtr& e, bool pre, std::vector<std::pair<string, Element*> >* log) { RecV v; v.log = log; if (pre) SimplePreorderDriver(&v).Visit(e); else SimplePostorderDriver(&v).Visit(e); }\n'
    t += 'std::set<string> visit_hooks() { static const char* n[] = {%s}; return std::set<string>(n, n + %d); }\n' % (', '.join('"%s"' % n for n, a in hooks), len(hooks))
    t += 'std::vector<string> class_chain(const string& c) { static std::map<string, std::vector<string> > m; if (m.empty()) {\n'
    for c in cl:
        t += ' { static const char* n[] = {%s, NULL}; for (int i = 0; n[i]; ++i) m["%s"].push_back(n[i]); }\n' % (', '.join('"%s"' % short(k) for k in dom.chain(c)), short(c))
    t += ' } return m[c]; }\n'
    files['visit_gen.cc'] = t
    casts = sorted(set(re.findall(r'As(\w+)\(const ElementPtr', open(front.REPO + '/src/kml/dom/kml_cast.h').read())))
    ids = astinfo.ENUMS['kmldom::Type_Unknown']
    from .p_types import STD, ALIAS
    t = '#include "dom_h.h"\n#include "kml/dom/kml22.h"\nstd::vector<CastD> casts() { std::vector<CastD> v;\n'
    for n in casts:
        t += ' { CastD c; c.name = "%s"; c.as = [](const ElementPtr& e) { %sPtr p = As%s(e); return (Element*)p.get(); }; v.push_back(c); }\n' % (n, n, n)
    t += ' return v; }\nstd::vector<IdD> type_ids() { std::vector<IdD> v;\n'
    from .p_parse import class_tid
    byid = {class_tid(k): short(k) for k in dom.elems if class_tid(k) is not None}
    for n, val in ids:
        if n in ('Type_Unknown', 'Type_Invalid'):
            continue
        t += ' { IdD d; d.name = "%s"; d.id = %s; d.alias = "%s"; d.cls = "%s"; v.push_back(d); }\n' % (n[5:], n, ALIAS.get(n, b'').decode(), byid.get(val, ''))
    t += ' return v; }\nstd::vector<EnumD> enum_texts() { std::vector<EnumD> v;\n'
    for n, l in STD.items():
        t += ' { EnumD d; d.name = "%s"; d.id = %s; %s v.push_back(d); }\n' % (n, n, ' '.join('d.t.push_back("%s");' % x for x in l))
    t += ' return v; }\nint type_invalid() { return Type_Invalid; }\n'
    files['types_gen.cc'] = t
    return files
