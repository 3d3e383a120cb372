"""The properties, their units and their concrete companions."""
import functools
from dv.report import Prop


@functools.lru_cache(None)
def dom():
    from .domlib import Dom
    return Dom()


def h_dom():
    from . import domharness as H
    return dict(dirs=['base', 'dom'], files=['h.cc', 'dom.cc', 'parse.cc'], gen=H.gen(H.DomLite()))


def h_base():
    return dict(dirs=['base'], files=['h.cc', 'base.cc'])


def h_eng(*files):
    return lambda: dict(dirs=['base', 'dom', 'engine', 'convenience', 'regionator'], files=['h.cc'] + list(files))


def h_engdom(*files):
    def g():
        from . import domharness as H
        d = h_eng('dom.cc', *files)()
        d['gen'] = H.gen(H.DomLite())
        return d
    return g


HARNESS = {'dom': h_dom, 'value': lambda: dict(dirs=['base', 'dom'], files=['h.cc', 'value.cc']), 'base': h_base, 'locate': h_eng('locate.cc'), 'engine': h_engdom('clone.cc'), 'kmz': h_eng('kmz.cc')}


def u(mod, *fns):
    def g():
        import importlib
        m = importlib.import_module('specs.' + mod)
        src = globals()[getattr(m, 'MODULE', 'dom')]()
        out = []
        for f in fns or ('units',):
            out += getattr(m, f)(src)
        return out
    return g


def us(*gs):
    return lambda: [x for g in gs for x in g()]


def forget():
    for f in (dom, base, eng):
        f.cache_clear()


def props():
    owner = lambda x: x.tag == 'owner'
    P = [
        Prop('D01', u('p_accessors'), [('dom', 'accessors')], keep=lambda x: x.tag != 'owner'),
        Prop('D02', u('p_serialize'), [('dom', 'serialize')]),
        Prop('D03', lambda: u('p_parse')() + u('p_types', 'field_units', 'enum_units')(), [('dom', 'roundtrip')]),
        Prop('D04', u('p_accessors'), [('dom', 'accessors')], keep=owner),
        Prop('D05', u('p_types'), [('dom', 'types')]),
        Prop('D06', u('p_xml'), [('dom', 'xmlout')],
             assumptions=['numbers are written by ToString as texts that read back (format of doubles: C++ library)', 'texts hold only characters XML allows']),
        Prop('D07', u('p_handler'), [('dom', 'parser')],
             assumptions=['expat reports well-nested events of a well-formed text and an error otherwise', 'no old-style Schema (parent attribute) in the contracts of StartElement and EndElement; sampled by the companion']),
        Prop('D09', u('p_visit'), [('dom', 'visit')]),
        Prop('E01', u('p_style'), [('engine', 'style')],
             assumptions=['SplitUri gives the path and fragment of a URI (uriparser)', 'fetching another file: contract of KmlCache; application code fetches', 'MergeElements: contract of E05', 'style maps are finite (induction over their nesting and the references left)']),
        Prop('E02', u('p_ids'), [('engine', 'ids')],
             assumptions=['the parser reports every element to its observers: contract of D07', 'the walk of a Serializer reaches every element: contract of D02', 'reading the KML out of a KMZ archive: contract of KmzFile']),
        Prop('E03', u('p_update'), [('engine', 'update')],
             assumptions=['MergeElements: E05; Clone: E04; GetObjectById: E02; As... casts: D05', 'the update is not itself part of the file', 'fewer than 2^31 operations and children']),
        Prop('E06', u('p_split'), [('engine', 'split')],
             assumptions=['the parser asks its observers about every child: contract of D07', 'MergeElements: E05; resolving: E01; ClearIds: E02; SplitUri: uriparser', 'fewer than 2^31 styles']),
        Prop('E04', u('p_clone'), [('engine', 'clone')],
             assumptions=['what Serialize reports and what AddElement and ParseAttributes take up: contracts of D02 and D03', 'the element is a complex one (a bare simple field is not copied)']),
        Prop('E05', u('p_merge'), [('engine', 'merge'), ('engine', 'find')],
             assumptions=['what Serialize reports and what AddElement and ParseAttributes take up: contracts of D02 and D03; Clone: E04', 'source and target are distinct trees without misplaced children']),
        Prop('V01', u('p_coord'), [('value', 'coords')],
             assumptions=['a C++ stream reads a decimal number as its value (C++ library)', 'the C locale']),
        Prop('V02', u('p_color'), [('base', 'color')]),
        Prop('V03', u('p_date'), [('base', 'datetime')],
             assumptions=['strptime reads a text of the given form as the fields it spells (C library)', 'years 1000 to 9999']),
        Prop('V04', us(u('p_bbox'), u('p_locate')), [('base', 'bbox'), ('locate', 'locate')],
             assumptions=['sides and coordinates are finite numbers', 'trees are finite (induction over the nesting of features)']),
        Prop('V05', u('p_region'), [('locate', 'regionator')],
             assumptions=['the region handler is application code: it may answer anything', 'copies of a Region keep its values to the 15 digits the library writes']),
        Prop('V06', u('p_string'), [('base', 'strings')],
             assumptions=['a C++ stream reads and writes a decimal number as its value (C++ library)', 'strncasecmp, isspace: C library, C locale', 'columns of one CSV line (SplitQuotedUsing): companion only, bounded']),
        Prop('V07', u('p_attr'), [('base', 'attributes')]),
        Prop('F01', u('p_zip'), [('kmz', 'kmz'), ('kmz', 'kmzwrite')]),
        Prop('E07', u('p_links'), [('kmz', 'links')]),
        Prop('F02', u('p_cache'), [('base', 'netcache')],
             assumptions=['the network fetcher and the item constructor are application code', 'a limit of at least 1; callers of Save hand over non-null items']),
    ]
    for p in P:
        p.forget = forget
    return {p.id: p for p in P}


@functools.lru_cache(None)
def base():
    from .baselib import Base
    return Base()


@functools.lru_cache(None)
def eng():
    """base + dom + engine + convenience + regionator in one module"""
    from .domlib import Dom
    from . import baselib
    d = Dom(dirs=('base', 'base/contrib/minizip/iomem_simple.c', 'dom', 'engine', 'convenience', 'regionator'), extra={'dv_base.cc': baselib.text()})
    return baselib.EngMod(d)
