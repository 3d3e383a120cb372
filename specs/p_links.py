"""Links (property E07): taken apart, collected from a file, resolved and fetched."""
from .p_zip import *
from .p_ids import Ids, field
from .evlib import copy_
from . import domlib as D

MODULE = 'eng'
KU, KC, ZC = 'kmlengine::KmlUri', 'kmlengine::KmlCache', 'kmlengine::KmzCache'


def href(b):
    """Href: scheme, net location, path and fragment of a text"""
    h = HZ(b)
    ex, st, S = h.ex, h.st, h.S
    s, ps = h.string('href')
    L = zi(S.len(s))
    ex.axiom(L < 1 << 40)
    this = ex.alloc(160)
    css = S.find(s, S.lit(b'://'), 0)
    sch = css > 0
    a = css + 3
    rest = S.sub(s, simp(a), -1)
    sl = S.find(rest, S.lit(b'/'), 0)
    ps_ = z3.If(sch, z3.If(sl >= 0, a + sl + 1, a), 0)
    ex.axiom(S.find(s, S.lit(b'/'), simp(a)) == z3.If(sl >= 0, sl + a, -1))
    h.part(s, simp(a), 0, sl)
    h.call(r'kmlengine::Href::Href\(', [this, ps])
    m = {n: h.get(this.plus(b.off('kmlengine::Href', n + '_'))) for n in ('scheme', 'net_loc', 'path', 'query', 'fragment')}
    ps_ = simp(ps_)
    po = [S.find(s, S.lit(b'#'), p) for p in (0, simp(a), simp(a + sl + 1))]
    pound = z3.If(sch, z3.If(sl >= 0, po[2], po[1]), po[0])
    none = S.lit(b'')
    def piece(x, y):
        return S.fsub(s, zi(x), simp(zi(y) - zi(x)))
    ex.oblige('the scheme is what is before ://', st.cond, m['scheme'] == z3.If(sch, S.sub(s, 0, css), none))
    ex.oblige('the net location is what is between that and /', st.cond, m['net_loc'] == z3.If(And(sch, sl >= 0), S.sub(s, simp(a), sl), none))
    for k, (c, x) in enumerate([(Not(sch), 0), (And(sch, sl < 0), simp(a)), (And(sch, sl >= 0), simp(a + sl + 1))]):
        p = po[k]
        e = simp(z3.If(p >= 0, p, L))
        full = S.sub(s, x, simp(L - zi(x)))
        upto = S.sub(s, x, simp(p - zi(x)))
        ex.oblige('the path is what is between that and #', And(st.cond, c), m['path'] == z3.If(p >= 0, upto, full))
        ex.oblige('the fragment is what is after #', And(st.cond, c), m['fragment'] == z3.If(p >= 0, S.sub(s, simp(p + 1), -1), none))
    e = {k: zi(S.len(v)) == 0 for k, v in m.items()}
    rel = h.call(r'kmlengine::Href::IsRelative\(', [this])
    ex.oblige('a text with no scheme and no net location is relative', st.cond, zb(rel) == And(e['scheme'], e['net_loc']))
    rp = h.call(r'kmlengine::Href::IsRelativePath\(', [this])
    ex.oblige('and has a relative path if it has a path', st.cond, zb(rp) == And(e['scheme'], e['net_loc'], Not(e['path'])))
    return h.fin(And(st.cond, sch), And(st.cond, Not(sch)), And(st.cond, sch, po[2] >= 0))


def kmzsplit(b):
    """KmzSplit: the url of the archive and the path inside it"""
    h = HZ(b)
    ex, st, S = h.ex, h.st, h.S
    s, ps = h.string('url')
    old1, p1 = h.string('old_url')
    old2, p2 = h.string('old_path')
    L = zi(S.len(s))
    k = S.find(s, S.lit(b'.kmz'), 0)
    f = r'kmlengine::KmzSplit\('
    r = h.call(f, [ps, p1, p2])
    ex.oblige('it is in an archive if .kmz is in it', st.cond, zb(r) == (k >= 0))
    ex.oblige('the archive ends there', st.cond, h.get(p1) == z3.If(k >= 0, S.sub(s, 0, simp(k + 4)), old1))
    ex.oblige('the path inside is what comes after the next character', st.cond, h.get(p2) == z3.If(k >= 0, z3.If(L > k + 4, S.sub(s, simp(k + 5), -1), S.lit(b'')), old2))
    ex.oblige('no other place is touched', st.cond, h.get(ps) == s)
    r = h.call(f, [ps, NULL, NULL])
    ex.oblige('whether it is, with no outputs', st.cond, zb(r) == (k >= 0))
    return h.fin(And(st.cond, k >= 0), And(st.cond, k < 0))


PARTS = ('Scheme', 'Host', 'Port', 'Path', 'Query', 'Fragment')


def uris(h):
    """uriparser: whether a text is a URI, and its parts"""
    ex = h.ex
    OK = z3.Function('is_uri', ex.S, BO)
    u, cur = ex.new_input_obj(), ex.alloc(32)
    P = {x: (z3.Function('has_' + x, ex.S, BO), z3.Function(x, ex.S, ex.S)) for x in PARTS}

    def parse(ex, nm, a, st):
        t = h.text(a[0], st)
        st.mem = ex.m.store(st.mem, cur, 'str', t)
        return Ptr(simp(z3.If(OK(t), zi(u.obj), 0)), 0)
    h.on(r'^kmlbase::UriParser::CreateFromParse\(', parse)
    h.on(r'^kmlbase::UriParser::~UriParser', lambda ex, nm, a, st: None)
    for x in PARTS:
        def get(ex, nm, a, st, x=x):
            t = ex.m.load(st.mem, cur, 'str')
            has, val = P[x]
            null = Eq(a[1].obj, 0)
            if null is not True:
                st.mem = ex.m.merge([(And(has(t), Not(null)), ex.m.store(st.mem, a[1], 'str', val(t))), (Not(And(has(t), Not(null))), st.mem)])
            return has(t)
        h.on(r'^kmlbase::UriParser::Get' + x + r'\(', get)
    h.on(r'^void boost::checked_delete<kmlbase::UriParser>', lambda ex, nm, a, st: None)
    return OK, P


def fetchable(b):
    """GetFetchableUri: the URI without query and fragment"""
    h = HZ(b)
    ex, st, S = h.ex, h.st, h.S
    OK, P = uris(h)
    s, ps = h.string('uri')
    st.mem = ex.m.store(st.mem, ps, 'str', s)
    out = ex.alloc(32)
    st.mem = ex.m.store(st.mem, out, 'str', S.lit(b''))
    val = {x: z3.If(P[x][0](s), P[x][1](s), S.lit(b'')) for x in PARTS}
    none = S.lit(b'')
    for x in PARTS:
        ex.axiom(Eq(zi(S.len(val[x])) == 0, val[x] == none))
        ex.axiom(Eq(zi(S.flen(P[x][1](s))) == 0, P[x][1](s) == none))
    f = r'kmlengine::GetFetchableUri\('
    r = h.call(f, [ps, out])
    net = And(zi(S.len(val['Scheme'])) > 0, zi(S.len(val['Host'])) > 0)
    got = h.get(out)
    want = S.lit(b'')
    cat = lambda *l: l[0] if len(l) == 1 else cat(S.cat(l[0], l[1]), *l[2:])
    V = {x: P[x][1](s) for x in PARTS}
    for has in range(16):
        c = {x: bool(has >> i & 1) for i, x in enumerate(PARTS[:4])}
        cond = And(*[And(P[x][0](s), zi(S.flen(V[x])) > 0) if c[x] else Or(Not(P[x][0](s)), zi(S.flen(V[x])) == 0) for x in c])
        w = []
        if c['Scheme'] and c['Host']:
            w = [V['Scheme'], S.lit(b'://'), V['Host']]
            if c['Port']:
                w += [S.lit(b':'), V['Port']]
            w += [S.lit(b'/')]
        if c['Path']:
            w += [V['Path']]
        ex.oblige('scheme, host, port and path, nothing else', And(st.cond, OK(s), cond), got == cat(*([none] + w)))
    ex.oblige('whether it is a URI', st.cond, zb(r) == OK(s))
    ex.oblige('nothing is written if it is none', And(st.cond, Not(OK(s))), got == none)
    r = h.call(f, [ps, NULL])
    ex.oblige('whether it is a URI, with no output', st.cond, zb(r) == OK(s))
    return h.fin(And(st.cond, OK(s)), And(st.cond, Not(OK(s))))


def spliturl(b):
    """SplitUri, SplitUriPath, SplitUriFragment: the parts that there are"""
    h = HZ(b)
    ex, st, S = h.ex, h.st, h.S
    OK, P = uris(h)
    s, ps = h.string('uri')
    outs = [h.string('old_' + x) for x in PARTS]
    r = h.call(r'kmlengine::SplitUri\(', [ps] + [p for o, p in outs])
    ex.oblige('whether it is a URI', st.cond, zb(r) == OK(s))
    for x, (o, p) in zip(PARTS, outs):
        ex.oblige('its %s, if it has one' % x.lower(), st.cond, h.get(p) == z3.If(And(OK(s), P[x][0](s)), P[x][1](s), o))
    for n, x in (('SplitUriPath', 'Path'), ('SplitUriFragment', 'Fragment')):
        o, p = h.string('before_' + x)
        r = h.call(r'kmlengine::%s\(' % n, [ps, p])
        there = And(OK(s), P[x][0](s))
        ex.oblige(n + ': whether it has one, and which', st.cond, And(zb(r) == there, h.get(p) == z3.If(there, P[x][1](s), o)))
    return h.fin(And(st.cond, OK(s)), And(st.cond, Not(OK(s))))


def resolve(b):
    """ResolveUri, ResolveModelTargetHref: relative to the base, the model's targets relative to the model"""
    h = HZ(b)
    ex, st, S = h.ex, h.st, h.S
    RES, OKR, OKS = z3.Function('resolved', ex.S, ex.S, ex.S), z3.Function('resolves', ex.S, ex.S, BO), z3.Function('printable', ex.S, ex.S, BO)
    u, c1, c2 = ex.new_input_obj(), ex.alloc(32), ex.alloc(32)

    def create(ex, nm, a, st):
        x, y = h.text(a[0], st), h.text(a[1], st)
        st.mem = ex.m.store(ex.m.store(st.mem, c1, 'str', x), c2, 'str', y)
        return Ptr(simp(z3.If(OKR(x, y), zi(u.obj), 0)), 0)

    def tos(ex, nm, a, st):
        x, y = h.get(c1, st), h.get(c2, st)
        st.mem = ex.m.merge([(OKS(x, y), ex.m.store(st.mem, a[1], 'str', RES(x, y))), (Not(OKS(x, y)), st.mem)])
        return OKS(x, y)
    h.on(r'^kmlbase::UriParser::CreateResolvedUri\(', create)
    h.on(r'^kmlbase::UriParser::ToString\(', tos)
    h.on(r'^void boost::checked_delete<kmlbase::UriParser>', lambda ex, nm, a, st: None)
    base, pb = h.string('base')
    rel, pr = h.string('relative')
    old, po = h.string('old')
    good = lambda x, y: And(OKR(x, y), OKS(x, y))
    r = h.call(r'kmlengine::ResolveUri\(', [pb, pr, po])
    ex.oblige('the target resolved against the base, or nothing', st.cond, And(zb(r) == good(base, rel), h.get(po) == z3.If(good(base, rel), RES(base, rel), old)))
    geo, pg = h.string('geometry')
    old2, p2 = h.string('old2')
    r = h.call(r'kmlengine::ResolveModelTargetHref\(', [pb, pg, pr, p2])
    g = RES(base, geo)
    ok = And(good(base, geo), good(g, rel))
    ex.oblige('targets of a model are relative to its geometry', st.cond, And(zb(r) == ok, h.get(p2) == z3.If(ok, RES(g, rel), old2)))
    r = h.call(r'kmlengine::ResolveModelTargetHref\(', [pb, pg, pr, NULL])
    ex.oblige('no output, no result', st.cond, Not(r))
    return h.fin(And(st.cond, ok), And(st.cond, Not(ok)))


def parser(b):
    """UriParser: CreateFromParse, CreateResolvedUri, ToString over uriparser; nothing leaks and nothing is written outside"""
    h = HZ(b)
    ex, st, S = h.ex, h.st, h.S
    PARSES, ADD = z3.Function('parses', ex.S, BO), z3.Bool('resolves')
    order = []

    def parse(ex, nm, a, st):
        """a URI from a text"""
        t = h.text(a[1], st)
        u = ex.m.load(st.mem, a[0], 'ptr')
        h.note(st, 'parsed', u.obj, t)
        return ite(PARSES(t), 0, 1)

    def add(ex, nm, a, st):
        h.note(st, 'resolved', a[0].obj, a[1].obj, a[2].obj)
        return ite(ADD, 0, 1)
    h.on(r'^uriParseUriA', parse)
    h.on(r'^uriAddBaseUriA', add)
    h.on(r'^uriFreeUriMembersA', h.rec('freed', lambda a, st: (a[0].obj,)))
    base, pb = h.string('base')
    rel, pr = h.string('relative')
    r = h.call(r'kmlbase::UriParser::CreateResolvedUri\(', [ex.lib.data_ptr(pb, st), ex.lib.data_ptr(pr, st)])
    ok = And(PARSES(base), PARSES(rel), ADD)
    ex.oblige('resolved if both are URIs and one can be resolved against the other', st.cond, zb(Not(Eq(r.obj, 0))) == ok)
    for c, w, (d, x, y) in h.did('resolved'):
        for c1, w1, (o, t) in h.did('parsed'):
            ex.oblige('the relative one is resolved against the base', And(c, c1), And(z3.Implies(zi(o) == zi(x), t == rel), z3.Implies(zi(o) == zi(y), t == base)))
        ex.oblige('into another', c, And(zi(d) != zi(x), zi(d) != zi(y)))
        ex.oblige('both were parsed', c, And(Or(*[And(c1, zi(o) == zi(x)) for c1, w1, (o, t) in h.did('parsed')]), Or(*[And(c1, zi(o) == zi(y)) for c1, w1, (o, t) in h.did('parsed')])))
    return h.fin(And(st.cond, ok), And(st.cond, Not(ok)))


def tostring(b):
    """UriParser::ToString: the text of the URI, in enough room"""
    h = HZ(b)
    ex, st, S = h.ex, h.st, h.S
    n, okn, okw, T = z3.Int('length'), z3.Bool('counted'), z3.Bool('written'), z3.Const('text', ex.S)
    ex.axiom(And(n >= 0, n < (1 << 31) - 1, S.flen(T) == n))
    room = {}

    def need(ex, nm, a, st):
        st.mem = ex.m.merge([(okn, ex.m.store(st.mem, a[1], 'i32', n)), (Not(okn), st.mem)])
        return ite(okn, 0, 1)

    def mal(ex, nm, a, st):
        p = ex.alloc(None)
        o = as_const(p.obj) if not isinstance(p.obj, int) else p.obj
        room[o] = a[0]
        ex.cbufs.add(o)
        return p

    def tos(ex, nm, a, st):
        o = as_const(a[0].obj) if not isinstance(a[0].obj, int) else a[0].obj
        ex.oblige('the room given is there', st.cond, zi(a[2]) <= zi(room.get(o, 0)))
        ex.oblige('it is enough', st.cond, zi(a[2]) >= n + 1)
        st.mem = ex.m.merge([(okw, ex.m.store(st.mem, a[0], 'str', T)), (Not(okw), st.mem)])
        return ite(okw, 0, 1)
    h.on(r'^uriToStringCharsRequiredA', need)
    h.on(r'^malloc$', mal)
    h.on(r'^free$', h.rec('freed', lambda a, st: (a[0].obj,)))
    h.on(r'^uriToStringA', tos)
    this, priv = ex.new_input_obj(), ex.new_input_obj()
    st.mem = ex.m.store(st.mem, this, 'ptr', priv)
    old, po = h.string('old')
    r = h.call(r'kmlbase::UriParser::ToString\(', [this, po])
    ok = And(okn, okw)
    ex.oblige('whether there is a text', st.cond, zb(r) == ok)
    ex.oblige('it is handed out, or nothing', st.cond, h.get(po) == z3.If(ok, T, old))
    ex.oblige('the room is given back', And(st.cond, okn), h.called('freed'))
    r = h.call(r'kmlbase::UriParser::ToString\(', [this, NULL])
    ex.oblige('no output, no text', st.cond, Not(r))
    return h.fin(And(st.cond, ok), And(st.cond, Not(ok)))


def relative(b):
    """KmlUri::CreateRelative"""
    h = HZ(b)
    ex, st, S = h.ex, h.st, h.S
    TOK = z3.Function('is_uri', ex.S, BO)
    OKR, RES, OKF, FET, ISK, KURL, KP = [z3.Function(x, *s) for x, s in (('resolves', (ex.S, ex.S, BO)), ('resolved', (ex.S, ex.S, ex.S)), ('has_fetchable', (ex.S, BO)), ('fetchable', (ex.S, ex.S)),
                                         ('in_kmz', (ex.S, BO)), ('kmz_url', (ex.S, ex.S)), ('kmz_path', (ex.S, ex.S)))]
    u = ex.new_input_obj()
    h.on(r'^kmlbase::UriParser::CreateFromParse\(', lambda ex, nm, a, st: Ptr(simp(z3.If(TOK(h.text(a[0], st)), zi(u.obj), 0)), 0))
    h.on(r'^void boost::checked_delete<kmlbase::UriParser>', lambda ex, nm, a, st: None)
    h.on(r'^void boost::checked_delete<kmlengine::KmlUri>', lambda ex, nm, a, st: None)

    def put(rx, ok, vals):
        def f(ex, nm, a, st):
            k = len(vals)
            ins = [ex.lib.gets(x, st) for x in a[:-k]]
            c = ok(*ins)
            m = st.mem
            for p, v in zip(a[-k:], vals):
                if Eq(p.obj, 0) is not True:
                    m = ex.m.store(m, p, 'str', v(*ins))
            st.mem = ex.m.merge([(c, m), (Not(c), st.mem)])
            return c
        h.on(rx, f)
    put(r'^kmlengine::ResolveUri\(', OKR, [RES])

    def fetch(ex, nm, a, st):
        """appends the fetchable part to the output"""
        t = ex.lib.gets(a[0], st)
        o = ex.lib.gets(a[1], st)
        st.mem = ex.m.merge([(OKF(t), ex.m.store(st.mem, a[1], 'str', ex.lib.str.cat(o, FET(t)))), (Not(OKF(t)), st.mem)])
        return OKF(t)
    h.on(r'^kmlengine::GetFetchableUri\(', fetch)
    put(r'^kmlengine::KmzSplit\(', ISK, [KURL, KP])
    base, pb = h.string('base')
    tg, pt = h.string('target')
    r = h.call(KU + r'::CreateRelative\(', [pb, pt])
    url = RES(base, tg)
    ok = And(TOK(tg), OKR(base, tg), OKF(url))
    there = zb(Not(Eq(r.obj, 0)))
    ex.oblige('there is one if the target resolves', st.cond, there == ok)
    get = lambda n: h.get(r.plus(b.off(KU, n)))
    c = And(st.cond, ok)
    f = S.cat(S.lit(b''), FET(url))
    ex.oblige('its url is the target resolved against the base', c, get('url_') == url)
    ex.oblige('its target is the target', c, get('target_') == tg)
    ex.oblige('it is in an archive if its fetchable part is', c, Eq(ex.m.load(st.mem, r.plus(b.off(KU, 'is_kmz_')), 'i8') != 0, ISK(f)))
    ex.oblige('and where in which', And(c, ISK(f)), And(get('kmz_url_') == KURL(f), get('path_in_kmz_') == KP(f)))
    return h.fin(c, And(st.cond, Not(ok)))


def mkuri(h, p):
    """a KmlUri"""
    ex, st, b = h.ex, h.st, h.b
    v = {}
    k = z3.Int('in_kmz')
    ex.axiom(And(k >= 0, k <= 1))
    st.mem = ex.m.store(st.mem, p.plus(b.off(KU, 'is_kmz_')), 'i8', k)
    for n in ('url_', 'target_', 'kmz_url_', 'path_in_kmz_'):
        v[n] = z3.Const('the_' + n[:-1], ex.S)
        st.mem = ex.m.store(st.mem, p.plus(b.off(KU, n)), 'str', v[n])
    return k != 0, v


class Fetches(HZ):
    """the network as a function of the url; archives as functions of their url and path"""

    def __init__(h, b):
        HZ.__init__(h, b)
        ex, st = h.ex, h.st
        F = lambda n, *s: z3.Function(n, *s)
        h.NET, h.BODY = F('on_the_net', ex.S, BO), F('body', ex.S, ex.S)
        h.KMZ = F('archive_at', ex.S, BO)
        h.IN, h.DATA = F('holds', ex.S, ex.S, BO), F('data', ex.S, ex.S, ex.S)
        h.HASK, h.KPATH = F('has_kml', ex.S, BO), F('kml_path', ex.S, ex.S)


def fromcache(b):
    """KmzCache::FetchFromCache: the file of that path in the archive, or its KML file"""
    h = Fetches(b)
    ex, st, S = h.ex, h.st, h.S
    this, uri, kmz = ex.new_input_obj(), ex.new_input_obj(), ex.new_input_obj()
    isk, v = mkuri(h, uri)
    here = z3.Function('cached', ex.S, BO)
    old, po = h.string('old')

    def look(ex, nm, a, st):
        k = ex.lib.gets(a[2], st)
        h.note(st, 'looked up', k)
        st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(simp(z3.If(here(k), zi(kmz.obj), 0)), 0))
    h.on(r'^kmlbase::NetCache<kmlengine::KmzFile>::LookUp', look)
    U = v['kmz_url_']

    def rf(ex, nm, a, st):
        p = h.text(a[1], st)
        h.note(st, 'read', p)
        ok = h.IN(U, p)
        st.mem = ex.m.merge([(ok, ex.m.store(st.mem, a[2], 'str', h.DATA(U, p))), (Not(ok), st.mem)])
        return ok

    def rk(ex, nm, a, st):
        ok = h.HASK(U)
        p = h.KPATH(U)
        h.note(st, 'read KML')
        st.mem = ex.m.merge([(ok, ex.m.store(ex.m.store(st.mem, a[1], 'str', h.DATA(U, p)), a[2], 'str', p)), (Not(ok), st.mem)])
        return ok
    h.on(r'^kmlengine::KmzFile::ReadFile\(', rf)
    h.on(r'^kmlengine::KmzFile::ReadKmlAndGetPath\(', rk)
    r = h.call(ZC + r'::FetchFromCache\(', [this, uri, po])
    path = v['path_in_kmz_']
    e = zi(S.len(path)) == 0
    p = z3.If(e, h.KPATH(U), path)
    ok = And(here(U), z3.If(e, h.HASK(U), h.IN(U, path)))
    ex.oblige('whether it is there', st.cond, zb(r) == ok)
    ex.oblige('its data, or nothing', st.cond, h.get(po) == z3.If(e, z3.If(ok, h.DATA(U, h.KPATH(U)), old), z3.If(ok, h.DATA(U, path), old)))
    np = h.get(uri.plus(b.off(KU, 'path_in_kmz_')))
    nu = h.get(uri.plus(b.off(KU, 'url_')))
    took = And(e, ok)
    ex.oblige('with no path, the path of the KML file is taken', And(st.cond, took), And(np == h.KPATH(U), nu == S.cat(S.cat(U, S.lit(b'/')), h.KPATH(U))))
    ex.oblige('otherwise the url stays', And(st.cond, Not(took)), And(np == path, nu == v['url_']))
    for c, w, x in h.did('looked up'):
        ex.oblige('this archive is looked up', c, x[0] == U)
    c0 = st.cond
    r = h.call(ZC + r'::FetchFromCache\(', [this, NULL, po])
    ex.oblige('no url, no data', st.cond, Not(r))
    r = h.call(ZC + r'::FetchFromCache\(', [this, uri, NULL])
    ex.oblige('no output, no data', st.cond, Not(r))
    return h.fin(And(c0, ok, e), And(c0, ok, Not(e)), And(c0, Not(ok)))


def dofetch(b, url=True):
    """KmzCache::DoFetchAndReturnUrl: the file itself; in an archive, the one in it, else the one beside it"""
    h = Fetches(b)
    ex, st, S = h.ex, h.st, h.S
    this, uri, uri2, mfc, kmz, file_ = [ex.new_input_obj() for i in range(6)]
    st.mem = ex.m.store(st.mem, this.plus(b.off(ZC, 'memory_file_cache_')), 'ptr', mfc)
    isk, v = mkuri(h, uri)
    old, po = h.string('old')
    oldu, pu = h.string('old_url')
    INC, DATC, URLC = z3.Bool('in_the_archive'), z3.Const('its_data', ex.S), z3.Const('its_url', ex.S)
    RELOK, R = z3.Bool('relative_ok'), {}
    k2 = z3.Int('beside_in_kmz')
    ex.axiom(And(k2 >= 0, k2 <= 1))
    for n in ('url_', 'kmz_url_'):
        R[n] = z3.Const('beside_' + n, ex.S)
    INC2, DAT2, URL2 = z3.Bool('in_that_archive'), z3.Const('beside_data', ex.S), z3.Const('beside_final_url', ex.S)
    cur = ex.alloc(32)

    def netfetch(ex, nm, a, st):
        t = ex.lib.gets(a[2], st)
        h.note(st, 'asked for', t)
        st.mem = ex.m.store(ex.m.store(st.mem, a[0], 'ptr', Ptr(simp(z3.If(h.NET(t), zi(file_.obj), 0)), 0)), cur, 'str', t)

    def kmzfetch(ex, nm, a, st):
        t = ex.lib.gets(a[2], st)
        h.note(st, 'archive asked for', t)
        st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(simp(z3.If(h.KMZ(t), zi(kmz.obj), 0)), 0))

    def content(ex, nm, a, st):
        t = ex.lib.gets(cur, st)
        p = ex.alloc(32)
        st.mem = ex.m.store(st.mem, p, 'str', h.BODY(t))
        return p

    def ffc(ex, nm, a, st):
        u = a[1].obj
        first = zb(Eq(u, uri.obj))
        h.note(st, 'read from', u)
        ok = z3.If(first, INC, INC2)
        m = ex.m.store(st.mem, a[2], 'str', z3.If(first, DATC, DAT2))
        m = ex.m.store(m, a[1].plus(b.off(KU, 'url_')), 'str', z3.If(first, URLC, URL2))
        st.mem = ex.m.merge([(ok, m), (Not(ok), st.mem)])
        return ok

    def create(ex, nm, a, st):
        h.note(st, 'relative', ex.lib.gets(a[0], st), ex.lib.gets(a[1], st))
        m = ex.m.store(st.mem, uri2.plus(b.off(KU, 'is_kmz_')), 'i8', k2)
        for n in R:
            m = ex.m.store(m, uri2.plus(b.off(KU, n)), 'str', R[n])
        st.mem = m
        return Ptr(simp(z3.If(RELOK, zi(uri2.obj), 0)), 0)
    h.on(r'^kmlbase::NetCache<kmlbase::MemoryFile>::Fetch\(', netfetch)
    h.on(r'^kmlbase::NetCache<kmlengine::KmzFile>::Fetch\(', kmzfetch)
    h.on(r'^kmlbase::MemoryFile::get_content\(', content)
    h.on('^' + ZC + r'::FetchFromCache\(', ffc)
    h.on('^' + KU + r'::CreateRelative\(', create)
    h.on(r'^void boost::checked_delete<kmlengine::KmlUri>', lambda ex, nm, a, st: None)

    def self_(ex, nm, a, st):
        """a call of itself is only allowed for a file outside archives, where it is known what it does"""
        u = a[1]
        k = zi(ex.m.load(st.mem, u.plus(b.off(KU, 'is_kmz_')), 'i8')) != 0
        ex.oblige('fetching ends: no fall back from a fall back', st.cond, Not(k))
        t = h.get(u.plus(b.off(KU, 'url_')), st)
        h.note(st, 'asked for', t)
        ok = h.NET(t)
        m = ex.m.store(st.mem, a[2], 'str', h.BODY(t))
        if len(a) > 3 and Eq(a[3].obj, 0) is not True:
            m = ex.m.merge([(Eq(a[3].obj, 0), m), (Not(Eq(a[3].obj, 0)), ex.m.store(m, a[3], 'str', t))])
        st.mem = ex.m.merge([(ok, m), (Not(ok), st.mem)])
        return ok
    h.on('^' + ZC + r'::DoFetch\(', self_)
    r = h.call(ZC + r'::DoFetchAndReturnUrl\(', [this, uri, po, pu if url else NULL])
    U, K = v['url_'], v['kmz_url_']
    plain = And(Not(isk), h.NET(U))
    inside = And(isk, h.KMZ(K), INC)
    fall = And(isk, h.KMZ(K), Not(INC), RELOK)
    b_file = And(fall, k2 == 0, h.NET(R['url_']))
    b_kmz = And(fall, k2 != 0, h.KMZ(R['kmz_url_']), INC2)
    ex.oblige('what is fetched, and when nothing is', st.cond, zb(r) == Or(plain, inside, b_file, b_kmz))
    got = h.get(po)
    ex.oblige('a file outside archives', And(st.cond, plain), got == h.BODY(U))
    ex.oblige('a file in the archive, if it is there', And(st.cond, inside), got == DATC)
    ex.oblige('the file beside the archive, if not', And(st.cond, b_file), got == h.BODY(R['url_']))
    ex.oblige('the file in an archive beside it', And(st.cond, b_kmz), got == DAT2)
    ex.oblige('nothing is handed out otherwise', And(st.cond, Not(r)), got == old)
    if url:
        gu = h.get(pu)
        for what, c, w in (('outside', plain, U), ('inside', inside, URLC), ('beside', b_file, R['url_']), ('inside beside', b_kmz, URL2)):
            ex.oblige('its url: ' + what, And(st.cond, c), gu == w)
    h.once('relative', And(isk, h.KMZ(K), Not(INC)), (K, v['target_']))
    ex.oblige('the network is asked for no more than one file and two archives', True, And(*[Not(And(x[0], y[0])) for w in ('asked for',) for i, x in enumerate(h.did(w)) for y in h.did(w)[:i]]))
    return h.fin(And(st.cond, plain), And(st.cond, inside), And(st.cond, b_file), And(st.cond, b_kmz), And(st.cond, Not(r)))


def fetchkml(b):
    """KmlCache: a KML file is parsed once per url, and knows its url and its cache"""
    h = Fetches(b)
    ex, st, S = h.ex, h.st, h.S
    this, uri, kfc, kzc, cached, made = [ex.new_input_obj() for i in range(6)]
    st.mem = ex.m.store(ex.m.store(st.mem, this.plus(b.off(KC, 'kml_file_cache_')), 'ptr', kfc), this.plus(b.off(KC, 'kmz_file_cache_')), 'ptr', kzc)
    isk, v = mkuri(h, uri)
    base, pb = h.string('base')
    tg, pt = h.string('target')
    UOK, CACHED, GOT, DATA, AT = z3.Bool('resolves'), z3.Bool('cached'), z3.Bool('fetched'), z3.Const('data', ex.S), z3.Const('from', ex.S)
    PARSED = z3.Bool('parsed')

    def create(ex, nm, a, st):
        h.note(st, 'resolved', ex.lib.gets(a[0], st), ex.lib.gets(a[1], st))
        return Ptr(simp(z3.If(UOK, zi(uri.obj), 0)), 0)

    def look(ex, nm, a, st):
        h.note(st, 'looked up', a[1].obj, ex.lib.gets(a[2], st))
        st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(simp(z3.If(CACHED, zi(cached.obj), 0)), 0))

    def fetch(ex, nm, a, st):
        h.note(st, 'fetched', a[0].obj, a[1].obj)
        m = ex.m.store(st.mem, a[2], 'str', DATA)
        if len(a) > 3 and Eq(a[3].obj, 0) is not True:
            m = ex.m.store(m, a[3], 'str', AT)
        ok = And(GOT, Not(Eq(a[1].obj, 0)))
        st.mem = ex.m.merge([(ok, m), (Not(ok), st.mem)])
        return ok

    def parse(ex, nm, a, st):
        h.note(st, 'parsed', ex.lib.gets(a[0], st), ex.lib.gets(a[1], st), a[2].obj)
        return Ptr(simp(z3.If(PARSED, zi(made.obj), 0)), 0)

    def save(ex, nm, a, st):
        p = ex.m.load(st.mem, a[2], 'ptr')
        h.note(st, 'saved', a[0].obj, ex.lib.gets(a[1], st), p.obj)
        return z3.Bool('saved')
    h.on('^' + KU + r'::CreateRelative\(', create)
    h.on(r'^kmlbase::NetCache<kmlengine::KmlFile>::LookUp', look)
    h.on('^' + ZC + r'::DoFetch', fetch)
    h.on(r'^kmlengine::KmlFile::CreateFromStringWithUrl\(', parse)
    h.on(r'^kmlbase::NetCache<kmlengine::KmlFile>::Save\(', save)
    h.on(r'^void boost::checked_delete<kmlengine::KmlUri>', lambda ex, nm, a, st: None)
    out = ex.alloc(8)
    f = h.call(KC + r'::FetchKmlRelative\(', [out, this, pb, pt])
    res = ex.m.load(st.mem, out, 'ptr').obj
    fresh = And(UOK, Not(CACHED), GOT)
    ex.oblige('the file of that url, parsed before or now, or none', st.cond, zi(res) == z3.If(And(UOK, CACHED), zi(cached.obj), z3.If(And(fresh, PARSED), zi(made.obj), 0)))
    h.once('resolved', True, (base, tg))
    h.once('looked up', UOK, (kfc.obj, v['url_']))
    h.once('fetched', And(UOK, Not(CACHED)), (kzc.obj, uri.obj))
    h.once('parsed', fresh, (DATA, AT, this.obj))
    h.once('saved', And(fresh, PARSED), (kfc.obj, AT, made.obj))
    c0 = st.cond
    h.log = []
    old, po = h.string('old')
    r = h.call(KC + r'::FetchDataRelative\(', [this, pb, pt, po])
    ex.oblige('the data of that url, or nothing', st.cond, And(zb(r) == And(UOK, GOT), h.get(po) == z3.If(And(UOK, GOT), DATA, old)))
    h.once('resolved', st.cond, (base, tg))
    return h.fin(And(c0, fresh), And(c0, UOK, CACHED), And(c0, Not(UOK)))


def observer(b):
    """GetLinksParserObserver: the links of a file as they are met"""
    h = Ids(b)
    ex, st = h.ex, h.st
    c, f = b.fn(r'kmlengine::GetLinksParserObserver::GetLinksParserObserver\('), b.fn(r'kmlengine::GetLinksParserObserver::AddChild\(')
    ex.contracts.append((RX(r'^kmldom::ParserObserver::ParserObserver'), lambda ex, n, a, st: None))
    this, vec = h.obj(), ex.alloc(24)
    n = z3.Int('n')
    ex.axiom(And(n >= 0, n < 1 << 40))
    ex.lib.set_vsize(vec, n, st)
    i = z3.Int('i')
    ex.axiom(And(i >= 0, i < n))
    ex.call(c, [this, vec], st)
    X, P = h.obj(), h.obj()
    fs = field(b, 'SchemaData', 'schemaurl')
    url, has = D.get_field(ex, b.dom, fs, X, st), D.has_field(ex, b.dom, fs, X, st)
    CD = z3.Const('char_data', ex.S)
    cd = ex.alloc(32)
    st.mem = ex.m.store(st.mem, cd, 'str', CD)
    def chars(ex, nm, a, st):
        ex.oblige('the text of the child', st.cond, Eq(a[0].obj, X.obj))
        return cd
    ex.contracts.append((RX(r'^kmldom::Element::get_char_data'), chars))
    at = lambda k, t: ex.m.load(t.mem, ex.lib.velem(vec, k, 32), 'str')
    before = at(i, st)
    r = ex.call(f, [this, h.ptrarg(P), h.ptrarg(X)], st)
    T = lambda x, t: h.TYPE(zi(x.obj)) == h.T['Type_' + t]
    txt = Or(T(X, 'href'), T(X, 'styleUrl'), And(T(X, 'targetHref'), T(P, 'Alias')))
    sch = And(T(X, 'SchemaData'), has)
    m = zi(ex.lib.vsize(vec, st))
    ex.oblige('parsing goes on', st.cond, r)
    ex.oblige('an href, a styleUrl, a targetHref of an Alias or a schemaUrl is a link, nothing else', st.cond, m == z3.If(Or(txt, sch), n + 1, n))
    ex.oblige('its text is added at the end', And(st.cond, txt), at(n, st) == CD)
    ex.oblige('its schemaUrl is added at the end', And(st.cond, sch), at(n, st) == url)
    ex.oblige('the links before stay', st.cond, at(i, st) == before)
    return h.fin(c, f)


def getlinks(b):
    """GetLinks, GetRelativeLinks"""
    h = HZ(b)
    ex, st, S = h.ex, h.st, h.S
    kml, pk = h.string('kml')
    ok, REL = z3.Bool('is_kml'), z3.Function('relative_path', ex.S, BO)
    n, n0, j, i0 = z3.Int('links'), z3.Int('before'), z3.Int('j'), z3.Int('i0')
    LINK, CNT = z3.Function('link', IN, ex.S), z3.Function('relative_before', IN, IN)
    ex.axiom(And(n >= 0, n < 1 << 40, n0 >= 0, n0 < 1 << 40, j >= 0, j < n, i0 >= 0, i0 < n0, CNT(0) == 0))

    def fact(i):
        ex.axiom(z3.Implies(And(i >= 0, i < n), And(CNT(i) >= 0, CNT(i + 1) == CNT(i) + z3.If(REL(LINK(i)), 1, 0), CNT(i) <= i)))
        ex.axiom(z3.Implies(And(i >= 0, i <= n, j < i), CNT(j) + z3.If(REL(LINK(j)), 1, 0) <= CNT(i)))
    src = []

    def gl(ex, nm, a, st):
        h.note(st, 'links', ex.lib.gets(a[0], st))
        v = a[1]
        src.append(v)
        ex.oblige('links go to an empty list', st.cond, Eq(ex.lib.vsize(v, st), 0))
        ex.lib.set_vsize(v, z3.If(ok, n, 0), st)
        for k in (j,):
            st.mem = ex.m.store(st.mem, ex.lib.velem(v, k, 32), 'str', LINK(k))
        return ok
    h.on(r'^kmlengine::GetLinks\(', gl)
    hr = {}

    def mk(ex, nm, a, st):
        st.mem = ex.m.store(st.mem, a[0], 'str', ex.lib.gets(a[1], st))
    h.on(r'^kmlengine::Href::Href\(', mk)
    h.on(r'^kmlengine::Href::~Href', lambda ex, nm, a, st: None)
    h.on(r'^kmlengine::Href::IsRelativePath\(', lambda ex, nm, a, st: REL(ex.lib.gets(a[0], st)))
    out = ex.alloc(24)
    ex.lib.set_vsize(out, n0, st)
    at = lambda t, i: h.get(ex.lib.velem(out, i, 32), t)
    first = at(st, i0)

    def gen(ex, rec):
        if not src:
            return
        for nm, g, i, al in places(h, rec, src[-1]):
            fact(i)
            ex.axiom(z3.Implies(And(ok, i >= 0, i < n), h.get(ex.lib.velem(src[-1], i, 32), rec.entry) == LINK(i)))
            ex.add_cand(rec, nm + ': inside', lambda t, g=g, al=al: And(al(t), g(t) >= 0, g(t) <= n))
            ex.add_cand(rec, nm + ': as many as were relative', lambda t, g=g: zi(ex.lib.vsize(out, t)) == n0 + CNT(g(t)))
            ex.add_cand(rec, nm + ': an earlier one is there', lambda t, g=g: z3.Implies(And(j < g(t), REL(LINK(j))), at(t, simp(n0 + CNT(j))) == LINK(j)))
        ex.add_cand(rec, 'those from before', lambda t: at(t, i0) == first)
        ex.add_cand(rec, 'the links', lambda t: h.get(ex.lib.velem(src[-1], j, 32), t) == LINK(j))
    ex.inv_gens.append(gen)
    fact(j)
    r = h.call(r'kmlengine::GetRelativeLinks\(', [pk, out])
    ex.oblige('whether it is KML', st.cond, zb(r) == ok)
    ex.oblige('as many as are relative', st.cond, zi(ex.lib.vsize(out, st)) == z3.If(ok, n0 + CNT(n), n0))
    ex.oblige('each of them, in order', And(st.cond, ok, REL(LINK(j))), at(st, simp(n0 + CNT(j))) == LINK(j))
    ex.oblige('after those from before', st.cond, at(st, i0) == first)
    for c, w, v in h.did('links'):
        ex.oblige('the links of this text', c, v[0] == kml)
    c0 = st.cond
    r = h.call(r'kmlengine::GetRelativeLinks\(', [pk, NULL])
    ex.oblige('no list, no links', st.cond, Not(r))
    return h.fin(And(c0, ok), And(c0, Not(ok)))


def units(b):
    U = [Unit(n, lambda f=f: f(b)) for n, f in (('Href', href), ('KmzSplit', kmzsplit), ('GetFetchableUri', fetchable), ('SplitUri', spliturl), ('ResolveUri', resolve), ('UriParser::CreateResolvedUri', parser),
         ('UriParser::ToString', tostring), ('KmlUri::CreateRelative', relative), ('KmzCache::FetchFromCache', fromcache), ('KmlCache', fetchkml), ('GetLinksParserObserver', observer), ('GetRelativeLinks', getlinks))]
    return U + [Unit('KmzCache::DoFetchAndReturnUrl', lambda: dofetch(b)), Unit('KmzCache::DoFetchAndReturnUrl (no url)', lambda: dofetch(b, False))]
