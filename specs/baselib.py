"""IR of the base library (and header-only classes of engine) for contracts on values: colours, boxes, dates, strings, caches."""
import functools, re, subprocess, tempfile
import z3
from dv import front, exec as X
from dv.core import *
from dv.unit import Unit

RX = re.compile
TU = r'''
#include "kml/base/color32.h"
#include "kml/base/vec3.h"
#include "kml/base/net_cache.h"
#include "kml/base/attributes.h"
#include "kml/base/string_util.h"
#include "kml/base/referent.h"
#include "kml/base/util.h"
#include "kml/engine/bbox.h"
struct DvItem : public kmlbase::Referent { static DvItem* CreateFromString(const string& data); };
template class kmlbase::NetCache<DvItem>;
void dv_fetcher(void* p) { new (p) kmlbase::NetFetcher; }
'''
CLASSES = [('kmlbase::Color32', 'kml/base/color32.h'), ('kmlbase::Vec3', 'kml/base/vec3.h'), ('kmlengine::Bbox', 'kml/engine/bbox.h'), ('kmlbase::Attributes', 'kml/base/attributes.h'),
           ('kmlbase::DateTime', 'kml/base/date_time.h'), ('kmlbase::Referent', 'kml/base/referent.h'), ('kmlbase::CsvSplitter', 'kml/base/csv_splitter.h')]


def text(extra=''):
    """wrapper TU that only forces the inline functions of the headers to be emitted"""
    from dv import astinfo
    cl = {}
    for ns in ('kmlbase', 'kmlengine'):
        cl.update(astinfo.load([h for c, h in CLASSES], ns))
    t = TU
    n = 0
    for c, h in CLASSES:
        t += '#include "%s"\n' % h
    for c, h in CLASSES:
        if c not in cl:
            continue
        for m in cl[c].methods:
            if m['deleted'] or not m['body'] or m['kind'] == 'CXXDestructorDecl':
                continue
            n += 1
            ns = 'namespace kmlbase { using namespace kmlengine; __attribute__((used)) %s }\n'
            if m['kind'] == 'CXXMethodDecl':
                ty = m['type']
                i = ty.index('(')
                t += ns % ('auto dvm_%d = static_cast<%s (%s*)%s>(&%s::%s);' % (n, ty[:i].strip(), '' if m['static'] else c + '::', ty[i:], c, m['name']))
            else:
                ps = m['type'][m['type'].index('(') + 1:m['type'].rindex(')')]
                ps = [p.strip() for p in ps.split(',')] if ps.strip() not in ('', 'void') else []
                t += ns % ('void dvc_%d(void* p%s) { new (p) %s(%s); }' % (n, ''.join(', %s a%d' % (p, i) for i, p in enumerate(ps)), c, ', '.join('a%d' % i for i in range(len(ps)))))
    return t + extra


ENG = [('kmlregionator::Regionator', 'kml/regionator/regionator.h'), ('kmlengine::KmlFile', 'kml/engine/kml_file.h'), ('kmlengine::StyleResolver', 'kml/engine/style_resolver.h'),
       ('kmlengine::StyleMerger', 'kml/engine/style_merger.h'), ('kmldom::KmlHandler', 'kml/dom/kml_handler.h'), ('kmldom::XmlSerializer<kmldom::StringAdapter>', 'kml/dom/xml_serializer.h'), ('kmlengine::StyleInliner', 'kml/engine/style_inliner_internal.h'),
       ('kmlengine::StyleSplitter', 'kml/engine/style_splitter_internal.h'), ('kmlengine::EntityMapper', 'kml/engine/entity_mapper.h'), ('kmlengine::UpdateProcessor', 'kml/engine/update_processor.h'),
       ('kmlengine::KmlUri', 'kml/engine/kml_uri_internal.h'), ('kmlengine::Href', 'kml/engine/href.h'), ('kmlengine::KmlCache', 'kml/engine/kml_cache.h'), ('kmlengine::KmzCache', 'kml/engine/kmz_cache.h'), ('kmlengine::KmzFile', 'kml/engine/kmz_file.h'), ('unz_file_info_s', 'kml/base/contrib/minizip/unzip.h'), ('kmlbase::ZipFile', 'kml/base/zip_file.h'),
       ('kmlengine::ObjectIdParserObserver', 'kml/engine/object_id_parser_observer.h'), ('kmlengine::SharedStyleParserObserver', 'kml/engine/shared_style_parser_observer.h'),
       ('kmlengine::GetLinkParentsParserObserver', 'kml/engine/get_link_parents.h'), ('kmlengine::IdMapper', 'kml/engine/id_mapper_internal.h'), ('kmldom::Container', 'kml/dom/container.h'), ('kmldom::Coordinates', 'kml/dom/geometry.h')]

LOCAL = [('kmlengine::ElementReplicator', 'kml/engine/clone.cc'), ('kmlengine::FieldMerger', 'kml/engine/merge.cc')]    # classes defined in source files


@functools.lru_cache(None)
def layouts():
    """{class: {member: offset}}, as the compiler lays the classes out"""
    out = layout_tu(ENG + CLASSES)
    for h in sorted({h for c, h in LOCAL}):
        try:
            out.update(layout_tu([x for x in LOCAL if x[1] == h]))
        except front.FrontError:      # no such class there: no contract mentions its members
            pass
    return out


def layout_tu(classes):
    t = ''.join('#include "%s"\n' % h for h in sorted({h for c, h in classes}))
    t += ''.join('char dvl_%d[sizeof(%s)];\n' % (i, c) for i, (c, h) in enumerate(classes))
    with tempfile.TemporaryDirectory(prefix='dvl_') as d:
        open(d + '/a.cc', 'w').write(t)
        r = subprocess.run(['clang++', '-std=c++14', '-fno-rtti', '-fno-exceptions', '-DNDEBUG', '-w'] + front.INC + ['-fsyntax-only', '-Xclang', '-fdump-record-layouts', d + '/a.cc'],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise front.FrontError('record layouts: ' + r.stderr[-2000:])
    out = {}
    for blk in r.stdout.split('*** Dumping AST Record Layout')[1:]:
        ls = blk.strip('\n').split('\n')
        m = re.match(r'\s*0 \| (?:class|struct) ([\w:]+(?:<.*?>)?)(?: \(empty\))?$', ls[0])
        if not m:
            continue
        f = out.setdefault(re.sub(r'\b(?:class|struct) ', '', m.group(1)), {})
        for l in ls[1:]:
            m = re.match(r'\s*(\d+)(?::[\d-]+)? \|   \S.*?([\w]+)$', l)
            if m and not l.endswith('base)'):
                f[m.group(2)] = int(m.group(1))
    return out


class Mod:
    def off(self, cls, field):
        """offset of a member"""
        o = layouts().get(cls, {}).get(field)
        if o is None:
            raise Unsupported('no member %s of %s' % (field, cls))
        return o

    def fns(self, rx):
        """defined functions whose demangled name matches"""
        r = re.compile(rx)
        return sorted(n for n, d in self.m.dem.items() if n in self.m.funcs and self.m.funcs[n].defined and r.match(d))

    def fn(self, rx):
        l = self.fns(rx)
        if not l:
            raise Unsupported('no function ' + rx)
        return l[0]


class Base(Mod):
    def __init__(self, dirs=('base',), extra=''):
        self.m = front.build(list(dirs), {'dv_base.cc': text(extra)})


class EngMod(Mod):
    def __init__(self, dom):
        self.dom, self.m = dom, dom.m


def new_exec(b, **k):
    return X.Exec(b.m, **k)


def start(ex):
    return X.State(True, root('mem0'), {})
