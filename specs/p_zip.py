"""KMZ archives (property F01): what is listed, found, read and written."""
from .baselib import *
from .p_string import H
from .p_attr import ints
from dv.lib import Ptr

MODULE = 'eng'
IN = z3.IntSort()
BO = z3.BoolSort()
Z = r'kmlbase::ZipFile::'
K = r'kmlengine::KmzFile::'


class HZ(H):
    def __init__(h, b):
        H.__init__(h, b)
        h.log = []           # (cond, what, values): calls of the outside, in order
        h.ex.cbufs = set()

    def on(h, rx, f):
        h.ex.contracts.append((RX(rx), f))

    def note(h, st, what, *v):
        h.log.append((st.cond, what, v))

    def rec(h, what, get, ret=None):
        def f(ex, n, a, st):
            h.note(st, what, *get(a, st))
            return ret(a, st) if callable(ret) else ret
        return f

    def text(h, p, st):
        return h.ex.lib.cstr_of(p, st)

    def did(h, what):
        return [e for e in h.log if e[1] == what]

    def called(h, what):
        return zb(Or(*[c for c, w, v in h.did(what)])) if h.did(what) else z3.BoolVal(False)

    def once(h, what, cond, want=None):
        """called exactly when cond holds, once, with these values"""
        l, ex = h.did(what), h.ex
        ex.oblige(what + ': when, and when not', h.st.cond, h.called(what) == zb(cond))
        ex.oblige(what + ': once', True, And(*[Not(And(l[i][0], l[j][0])) for i in range(len(l)) for j in range(i)]))
        if want is not None:
            for c, w, v in l:
                ex.oblige(what + ': with what', c, And(*[Eq(x, y) for x, y in zip(v, want)]) if len(v) == len(want) else False)

    def vec(h, at=None):
        v = at or h.ex.alloc(24)
        n = z3.Int('n')
        h.ex.axiom(And(n >= 0, n < 1 << 40))
        h.ex.lib.set_vsize(v, n, h.st)
        st0 = type(h.st)(h.st.cond, h.st.mem, dict(h.st.env))
        return v, n, (lambda i: h.get(h.ex.lib.velem(v, i, 32), st0))

    def fin(h, *covers):
        h.ex.covers = list(covers) or [h.st.cond]
        return h.ex


def places(h, rec, vec):
    """indices and iterators of a loop as indices into a vector of texts: (name, getter, value at the head, is it exact)"""
    base = zi(h.ex.lib.velem(vec, 0, 32).off)
    out = []
    for nm, g, v in ints(rec):
        if nm.startswith('pcell'):
            out.append((nm, lambda t, g=g: simp((zi(g(t)) - base) / 32), simp((v - base) / 32), lambda t, g=g: (zi(g(t)) - base) % 32 == 0))
        else:
            out.append((nm, lambda t, g=g: zi(g(t)), v, lambda t: z3.BoolVal(True)))
    return out


def stream(b):
    """the archive in memory as a stream: every read stays inside it and gives what is there"""
    h = HZ(b)
    ex, st = h.ex, h.st
    api, data = ex.alloc(64), ex.new_input_obj()
    ln, off, size, cur, dst = z3.Int('length'), z3.Int('offset'), z3.Int('size'), z3.Int('step'), ex.new_input_obj()
    ex.axiom(And(ln >= 0, ln < 1 << 31, off >= -(1 << 63), off < 1 << 63, size >= 0, size < 1 << 32, cur >= -(1 << 31), cur < 1 << 31))
    copies = []
    ex.memcpy = lambda d, s, n, st: copies.append((st.cond, d, s, n))
    f = h.call(r'^mem_simple_create_file$', [api, data, ln])
    ex.oblige('a new stream is at its start', st.cond, Eq(h.call(r'^mem_tell$', [f, f]), 0))
    r = h.call(r'^mem_seek$', [f, f, 0, 2])
    ex.oblige('the end is the length', st.cond, And(Eq(r, 0), Eq(h.call(r'^mem_tell$', [f, f]), ln)))
    r = h.call(r'^mem_seek$', [f, f, off, 0])
    pos = h.call(r'^mem_tell$', [f, f])
    ok = And(off >= 0, off <= ln)
    ex.oblige('a position inside is taken', And(st.cond, ok), And(Eq(r, 0), Eq(pos, off)))
    got = h.call(r'^mem_read$', [f, f, dst, size])
    k = z3.If(off + size <= ln, size, ln - off)
    ex.oblige('what is read is counted', And(st.cond, ok), Eq(got, k))
    ex.oblige('the position moves on by that', And(st.cond, ok), Eq(h.call(r'^mem_tell$', [f, f]), off + k))
    for c, d, s, n in copies:
        n, o = zi(n), zi(s.off)
        ex.oblige('reads stay inside the data, whatever the position', And(c, n != 0), And(ex.m.obj_eq(s.obj, data.obj), o >= 0, n >= 0, o + n <= ln))
        ex.oblige('and inside the output', And(c, n != 0), And(ex.m.obj_eq(d.obj, dst.obj), Eq(d.off, 0), n <= size))
        ex.oblige('they are of the bytes at the position', And(c, ok, n != 0), And(Eq(o, off), Eq(n, k)))
    ex.oblige('something is copied unless nothing is read', And(st.cond, ok, k > 0), Or(*[c for c, d, s, n in copies]))
    p1 = h.call(r'^mem_tell$', [f, f])
    r = h.call(r'^mem_seek$', [f, f, cur, 1])
    inr = And(off + k + cur >= 0, off + k + cur <= ln)
    ex.oblige('a step inside is taken, any other refused', And(st.cond, ok), And(zb(Eq(r, 0)) == inr, Eq(h.call(r'^mem_tell$', [f, f]), z3.If(inr, off + k + cur, off + k))))
    return h.fin(st.cond, And(st.cond, ok, k > 0, k < size))


def toc(b):
    """opening: the table of contents lists the names of the archive, in order"""
    h = HZ(b)
    ex, st, S = h.ex, h.st, h.S
    data, pd = h.string('data')
    n, j = z3.Int('entries'), z3.Int('j')
    OK, SIZE, NAME, CNT = z3.Function('has_info', IN, BO), z3.Function('name_size', IN, IN), z3.Function('name', IN, ex.S), z3.Function('listed_before', IN, IN)
    mem, zf, gh = ex.new_input_obj(), ex.new_input_obj(), ex.alloc(8)
    att, mok = z3.Bool('attached'), z3.Bool('stream_made')
    ex.axiom(And(n >= 1, n < 1 << 40, j >= 0, j < n, CNT(0) == 0))
    cap = [1 << 30]
    osz, oun = b.off('unz_file_info_s', 'size_filename'), b.off('unz_file_info_s', 'uncompressed_size')

    def listed(i):
        return And(OK(i), SIZE(i) < cap[0])

    def fact(i):
        ex.axiom(z3.Implies(And(i >= 0, i < n), And(SIZE(i) >= 0, SIZE(i) < 65536, S.flen(NAME(i)) <= SIZE(i), S.flen(NAME(i)) >= 0, CNT(i) >= 0, CNT(i + 1) == CNT(i) + z3.If(listed(i), 1, 0), CNT(i + 1) <= i + 1)))
        ex.axiom(z3.Implies(And(i >= 0, i < n, j < i), CNT(j) + z3.If(listed(j), 1, 0) <= CNT(i)))
    get = lambda t: zi(ex.m.load(t.mem, gh, 'i64'))

    def info(ex, nm, a, st):
        """reports the current entry: its name, terminated if it is shorter than the room given (unzip.c)"""
        i = get(st)
        fact(i)
        room = a[3]
        if not isinstance(room, int):
            room = as_const(room)
        if room is None:
            raise Unsupported('room for a name')
        cap[0] = room
        ex.oblige('room for every name that can be read', st.cond, room > 256)
        ok = zb(OK(i))
        o = a[2].obj if isinstance(a[2].obj, int) else as_const(a[2].obj)
        g = ex.mod.glob(ex.globname.get(o)) if ex.globname.get(o) else None
        if g and g[0][0] == 'array':
            ex.oblige('the room is there', st.cond, g[0][1] >= room)
        ex.cbufs.add(o)
        m = ex.m.store(ex.m.store(st.mem, a[2], 'str', NAME(i)), Ptr(ex.cap.obj, 0), 'i8', simp(z3.If(SIZE(i) < room, 1, 0)))
        m = ex.m.store(ex.m.store(m, a[1].plus(osz), 'i64', SIZE(i)), a[1].plus(oun), 'i64', z3.Int('some_size'))
        st.mem = ex.m.merge([(ok, m), (Not(ok), st.mem)])
        return ite(ok, 0, -104)

    def nxt(ex, nm, a, st):
        """goes on to the next entry if there is one"""
        i = get(st)
        more = i + 1 < n
        st.mem = ex.m.store(st.mem, gh, 'i64', simp(z3.If(more, i + 1, i)))
        return ite(more, 0, -100)
    ex.cap = ex.alloc(1)         # is the text in the buffer terminated?

    def make(ex, nm, a, st):
        h.note(st, 'stream made', a[1], a[2])
        return Ptr(ite(mok, mem.obj, 0), 0)
    h.on(r'^mem_simple_create_file', make)
    h.on(r'^libkml_unzAttach', lambda ex, nm, a, st: (h.note(st, 'attached', a[0]), setattr(st, 'mem', ex.m.store(st.mem, gh, 'i64', 0)), Ptr(ite(att, zf.obj, 0), 0))[2])
    h.on(r'^libkml_unzGetCurrentFileInfo', info)
    h.on(r'^libkml_unzGoToNextFile', nxt)
    h.on(r'^libkml_unzClose$', h.rec('closed', lambda a, st: (a[0],), 0))
    h.on(r'^libkml_unzGoToFirstFile', lambda ex, nm, a, st: (setattr(st, 'mem', ex.m.store(st.mem, gh, 'i64', 0)), 0)[1])
    this = ex.alloc(256)
    vec = this.plus(b.off('kmlbase::ZipFile', 'zipfile_toc_'))
    at = lambda t, i: h.get(ex.lib.velem(vec, i, 32), t)
    old = ex.lib.cstr_of

    def cstr(p, st):
        o = p.obj if isinstance(p.obj, int) else as_const(p.obj)
        if o in ex.cbufs:
            ex.oblige('a name is taken only if it is terminated', st.cond, Eq(ex.m.load(st.mem, Ptr(ex.cap.obj, 0), 'i8'), 1))
        return old(p, st)
    ex.lib.cstr_of = cstr

    def gen(ex, rec):
        i = get(rec.hdr)
        fact(i)
        ex.add_cand(rec, 'entry inside', lambda t: And(get(t) >= 0, get(t) < n))
        ex.add_cand(rec, 'as many names as were listed before', lambda t: zi(ex.lib.vsize(vec, t)) == CNT(get(t)))
        ex.add_cand(rec, 'the bytes are kept', lambda t: h.get(this.plus(b.off('kmlbase::ZipFile', 'data_')), t) == data)
        ex.add_cand(rec, 'the name of an earlier entry', lambda t: z3.Implies(And(j < get(t), listed(j)), at(t, CNT(j)) == NAME(j)))
    ex.inv_gens.append(gen)
    fact(j)
    fact(simp(n - 1))
    h.call(Z + r'ZipFile\(string const&\)', [this, pd])
    opened = And(mok, att)
    sz = zi(ex.lib.vsize(vec, st))
    ex.oblige('every name is listed once', And(st.cond, opened), sz == CNT(n))
    ex.oblige('in order', And(st.cond, opened, listed(j)), at(st, CNT(j)) == NAME(j))
    ex.oblige('names are listed unless they are too long', And(st.cond, opened, OK(j), SIZE(j) <= 256), And(at(st, CNT(j)) == NAME(j), CNT(j) < sz))
    ex.oblige('nothing is listed of what is no archive', And(st.cond, Not(opened)), sz == 0)
    ex.oblige('the bytes are kept', st.cond, h.get(this.plus(b.off('kmlbase::ZipFile', 'data_'))) == data)
    ex.oblige('it is not open for writing', st.cond, Eq(ex.m.load(st.mem, this.plus(b.off('kmlbase::ZipFile', 'minizip_file_')), 'ptr').obj, 0))
    for c, w, (p, l) in h.did('stream made'):
        ex.oblige('the stream is of exactly the data', c, And(p.sbuf is not None and p.sbuf[0] is data or (p.sbuf is not None and Eq(p.sbuf[0], data)), p.sbuf is not None and Eq(p.sbuf[1], 0), Eq(l, S.len(data))))
    h.once('closed', opened)
    return h.fin(And(st.cond, opened), And(st.cond, Not(opened)))


def lookup(b):
    """IsInToc, FindFirstOf, GetToc"""
    h = HZ(b)
    ex, st = h.ex, h.st
    this = ex.new_input_obj()
    vec, n, at = h.vec(this.plus(b.off('kmlbase::ZipFile', 'zipfile_toc_')))
    name, pn = h.string('name')
    f = z3.Int('first')
    ex.axiom(And(f >= 0, f <= n, z3.Implies(f < n, at(f) == name)))

    def gen(ex, rec):
        for nm, g, i, al in places(h, rec, vec):
            ex.axiom(z3.Implies(And(i >= 0, i < f), at(i) != name))
            ex.add_search(rec, nm + ': not there so far', lambda t, g=g, al=al: And(al(t), g(t) >= 0, g(t) <= f), [lambda t: f < n])
    ex.inv_gens.append(gen)
    r = h.call(Z + r'IsInToc\(', [this, pn])
    ex.oblige('whether the name is listed', st.cond, zb(r) == (f < n))
    return h.fin(And(st.cond, r), And(st.cond, Not(r)))


def findfirst(b):
    h = HZ(b)
    ex, st = h.ex, h.st
    this = ex.new_input_obj()
    vec, n, at = h.vec(this.plus(b.off('kmlbase::ZipFile', 'zipfile_toc_')))
    e, pe = h.string('extension')
    old, po = h.string('old')
    ENDS = z3.Function('ends_with', ex.S, ex.S, BO)
    h.on(r'^kmlbase::StringEndsWith\(', lambda ex, nm, a, st: ENDS(ex.lib.gets(a[0], st), ex.lib.gets(a[1], st)))
    f = z3.Int('first')
    ex.axiom(And(f >= 0, f <= n, z3.Implies(f < n, ENDS(at(f), e))))

    def gen(ex, rec):
        for nm, g, i, al in places(h, rec, vec):
            ex.axiom(z3.Implies(And(i >= 0, i < f), Not(ENDS(at(i), e))))
            ex.add_search(rec, nm + ': none so far', lambda t, g=g, al=al: And(al(t), g(t) >= 0, g(t) <= f), [lambda t: f < n])
    ex.inv_gens.append(gen)
    r = h.call(Z + r'FindFirstOf\(', [this, pe, NULL])
    ex.oblige('asked for nothing', st.cond, Not(r))
    r = h.call(Z + r'FindFirstOf\(', [this, pe, po])
    ex.oblige('whether a name ends so', st.cond, zb(r) == (f < n))
    ex.oblige('the first one is handed out', st.cond, h.get(po) == z3.If(f < n, at(f), old))
    return h.fin(And(st.cond, r), And(st.cond, Not(r)))


def entry(b, null):
    """GetEntry: the data of the entry of that name, or nothing"""
    h = HZ(b)
    ex, st, S = h.ex, h.st, h.S
    this = ex.new_input_obj()
    name, pn = h.string('name')
    old, po = h.string('old')
    data = z3.Const('data', ex.S)
    st.mem = ex.m.store(st.mem, this.plus(b.off('kmlbase::ZipFile', 'data_')), 'str', data)
    mx, size, got, body = z3.Int('limit'), z3.Int('size'), z3.Int('got'), z3.Const('body', ex.S)
    st.mem = ex.m.store(st.mem, this.plus(b.off('kmlbase::ZipFile', 'max_uncompressed_file_size_')), 'i64', mx)
    ex.axiom(And(mx >= 0, mx < 1 << 31, size >= 0, size < 1 << 32, got >= -(1 << 31), got < 1 << 31))
    TOC = z3.Bool('listed')
    B = {x: z3.Bool(x) for x in ('made', 'attach', 'located', 'opened', 'info', 'crc')}
    mem, zf = ex.new_input_obj(), ex.new_input_obj()
    rc = lambda k: ite(B[k], 0, -100)
    h.on(r'^' + Z + r'IsInToc\(', h.rec('looked up', lambda a, st: (ex.lib.gets(a[1], st),), TOC))
    h.on(r'^mem_simple_create_file', h.rec('stream made', lambda a, st: (a[1], a[2]), Ptr(ite(B['made'], mem.obj, 0), 0)))
    h.on(r'^libkml_unzAttach', lambda ex, nm, a, st: Ptr(ite(B['attach'], zf.obj, 0), 0))
    h.on(r'^libkml_unzLocateFile', h.rec('located', lambda a, st: (a[0].obj, h.text(a[1], st)), rc('located')))
    h.on(r'^libkml_unzOpenCurrentFile', lambda ex, nm, a, st: (h.note(st, 'opened', a[0].obj), rc('opened'))[1])
    osz = b.off('unz_file_info_s', 'uncompressed_size')

    def info(ex, nm, a, st):
        st.mem = ex.m.merge([(B['info'], ex.m.store(st.mem, a[1].plus(osz), 'i64', size)), (Not(B['info']), st.mem)])
        return rc('info')
    h.on(r'^libkml_unzGetCurrentFileInfo', info)

    def read(ex, nm, a, st):
        """reads up to so many bytes of the entry; how many, or an error"""
        h.note(st, 'read', a[0].obj, a[2])
        o = a[1].obj if isinstance(a[1].obj, int) else as_const(a[1].obj)
        ex.cbufs.add(o)
        st.mem = ex.m.store(st.mem, a[1], 'str', body)
        return got
    h.on(r'^libkml_unzReadCurrentFile', read)
    h.on(r'^libkml_unzCloseCurrentFile', h.rec('checked', lambda a, st: (a[0].obj,), rc('crc')))
    h.on(r'^libkml_unzClose$', h.rec('closed', lambda a, st: (a[0].obj,), 0))
    r = h.call(Z + r'GetEntry\(', [this, pn, NULL if null else po])
    S.sub(body, 0, size)
    ex.axiom(S.flen(body) == size)
    there = And(TOC, B['made'], B['attach'], B['located'], B['opened'], B['info'], size > 0, size <= mx)
    good = there if null else And(there, got == size, B['crc'])
    ex.oblige('an entry is read if it is listed, found, not empty, within the limit and undamaged', st.cond, zb(r) == zb(good))
    if not null:
        ex.oblige('its bytes are handed out, or nothing', st.cond, h.get(po) == z3.If(zb(good), body, old))
        for c, w, v in h.did('read'):
            ex.oblige('all of it is read, into enough room', c, And(Eq(v[1], size)))
    for c, w, v in h.did('looked up'):
        ex.oblige('this name is looked up', c, v[0] == name)
    for c, w, v in h.did('located'):
        ex.oblige('this name is located', c, v[1] == name)
    for c, w, (p, l) in h.did('stream made'):
        ex.oblige('the stream is of exactly the data', c, And(p.sbuf is not None and Eq(p.sbuf[0], data), p.sbuf is not None and Eq(p.sbuf[1], 0), Eq(l, S.len(data))))
    h.once('closed', And(TOC, B['made'], B['attach']))
    return h.fin(And(st.cond, r), And(st.cond, Not(r)))


def add(b):
    """AddEntry: paths above the archive are refused, any other data are written under that path"""
    h = HZ(b)
    ex, st, S = h.ex, h.st, h.S
    this, mz, zf = ex.new_input_obj(), ex.new_input_obj(), ex.new_input_obj()
    name, pn = h.string('path')
    data, pd = h.string('data')
    w, zz, ok = z3.Bool('writing'), z3.Bool('has_file'), z3.Bool('close_ok')
    st.mem = ex.m.store(st.mem, this.plus(b.off('kmlbase::ZipFile', 'minizip_file_')), 'ptr', Ptr(ite(w, mz.obj, 0), 0))
    h.on(r'^kmlbase::MinizipFile::get_zipfile', lambda ex, nm, a, st: Ptr(ite(zz, zf.obj, 0), 0))
    h.on(r'^zipOpenNewFileInZip', h.rec('entry begun', lambda a, st: (a[0].obj, h.text(a[1], st)), 0))
    h.on(r'^zipWriteInFileInZip', h.rec('data written', lambda a, st: (a[0].obj, a[1].sbuf[0] if a[1].sbuf else None, a[1].sbuf[1] if a[1].sbuf else None, a[2]), 0))
    h.on(r'^zipCloseFileInZip', h.rec('entry ended', lambda a, st: (a[0].obj,), ite(ok, 0, -1)))
    ex.axiom(zi(S.len(data)) < 1 << 31)
    L = zi(S.len(name))
    c0 = S.at(name, 0)
    one, two = S.sub(name, 0, 1), S.sub(name, 0, 2)
    bad = Or(And(L > 0, Or(Eq(c0, 47), Eq(c0, 92))), two == S.lit(b'..'))
    ex.axiom(z3.Implies(L > 0, S.at(one, 0) == c0))
    ex.probes.append(0)
    r = h.call(Z + r'AddEntry\(', [this, pd, pn])
    go = And(Not(bad), w, zz)
    ex.oblige('data are added unless the path is absolute or upward or the archive not open for writing', st.cond, zb(r) == zb(And(go, ok)))
    h.once('entry begun', go, (zf.obj, name))
    h.once('data written', go, (zf.obj, data, 0, S.len(data)))
    h.once('entry ended', go, (zf.obj,))
    return h.fin(And(st.cond, r), And(st.cond, Not(r)))


def read(b):
    """KmzFile: ReadKmlAndGetPath, ReadKml, ReadFile, List, AddFile, SaveToString"""
    h = HZ(b)
    ex, st, S = h.ex, h.st, h.S
    this, zip_ = ex.new_input_obj(), ex.new_input_obj()
    st.mem = ex.m.store(st.mem, this.plus(b.off('kmlengine::KmzFile', 'zip_file_')), 'ptr', zip_)
    some, name = z3.Bool('has_kml'), z3.Const('first_kml', ex.S)
    HAS, DATA = z3.Function('readable', ex.S, BO), z3.Function('data', ex.S, ex.S)
    old, po = h.string('old')
    oldn, pn = h.string('oldname')

    def ff(ex, nm, a, st):
        h.note(st, 'first', a[0].obj, ex.lib.gets(a[1], st))
        st.mem = ex.m.merge([(some, ex.m.store(st.mem, a[2], 'str', name)), (Not(some), st.mem)])
        return some

    def ge(ex, nm, a, st):
        k = ex.lib.gets(a[1], st)
        ok = HAS(k)
        h.note(st, 'entry', a[0].obj, k)
        if not Eq(a[2].obj, 0) is True:
            st.mem = ex.m.merge([(ok, ex.m.store(st.mem, a[2], 'str', DATA(k))), (Not(ok), st.mem)])
        return ok
    h.on('^' + Z + r'FindFirstOf\(', ff)
    h.on('^' + Z + r'GetEntry\(', ge)
    for who in ('ReadKmlAndGetPath', 'ReadKml'):
        args = [this, po, pn] if who != 'ReadKml' else [this, po]
        st.mem = ex.m.store(ex.m.store(st.mem, po, 'str', old), pn, 'str', oldn)
        r = h.call(K + who + r'\(', args)
        can = And(some, HAS(name))
        ex.oblige(who + ': the KML file is the first entry that ends with .kml', st.cond, And(zb(r) == zb(can), h.get(po) == z3.If(can, DATA(name), old)))
        if who != 'ReadKml':
            ex.oblige(who + ': and its path', st.cond, h.get(pn) == z3.If(can, name, oldn))
    for c, w, v in h.did('first'):
        ex.oblige('looked for .kml', c, And(Eq(v[0], zip_.obj), v[1] == S.lit(b'.kml')))
    q, pq = h.string('path')
    cp = ex.lib.data_ptr(pq, st)
    st.mem = ex.m.store(st.mem, po, 'str', old)
    r = h.call(K + r'ReadFile\(', [this, cp, po])
    ex.oblige('ReadFile: the entry of that path', st.cond, And(zb(r) == HAS(q), h.get(po) == z3.If(HAS(q), DATA(q), old)))
    OKW = z3.Bool('added')
    h.on('^' + Z + r'AddEntry\(', h.rec('added', lambda a, st: (a[0].obj, ex.lib.gets(a[1], st), ex.lib.gets(a[2], st)), OKW))
    d, pd = h.string('new_data')
    r = h.call(K + r'AddFile\(', [this, pd, pq])
    ex.oblige('AddFile: whether it was added', st.cond, zb(r) == OKW)
    h.once('added', True, (zip_.obj, d, q))
    return h.fin(And(st.cond, some), And(st.cond, Not(some)))


def filelist(b):
    """AddFileList: every file below the base, once, under its normalised path; the others counted"""
    h = HZ(b)
    ex, st, S = h.ex, h.st, h.S
    this = ex.new_input_obj()
    vec, n, at = h.vec()
    base, pb = h.string('base')
    KEY = z3.Const('any_path', ex.S)
    PATH, NOK, NORM, JOIN, RD, DATA, ADD = [z3.Function(x, *s) for x, s in (('path_of', (ex.S, ex.S)), ('normal', (ex.S, BO)), ('norm', (ex.S, ex.S)), ('join', (ex.S, ex.S, ex.S)),
                                            ('readable', (ex.S, BO)), ('data', (ex.S, ex.S)), ('accepted', (ex.S, ex.S, BO)))]
    SEEN, ERR, GOT = z3.Function('seen', IN, BO), z3.Function('errors', IN, IN), z3.Function('added', IN, IN)
    cnt = ex.alloc(8)
    st.mem = ex.m.store(st.mem, cnt, 'i64', 0)
    SET = z3.Function('stored', IN, z3.ArraySort(ex.S, BO))

    def href(ex, nm, a, st):
        st.mem = ex.m.store(st.mem, a[0], 'str', PATH(ex.lib.gets(a[1], st)))
    hp = ex.alloc(32)

    def norm(ex, nm, a, st):
        p = ex.lib.gets(a[0], st)
        st.mem = ex.m.merge([(NOK(p), ex.m.store(st.mem, a[1], 'str', NORM(p))), (Not(NOK(p)), st.mem)])
        return NOK(p)

    def rdf(ex, nm, a, st):
        p = ex.lib.gets(a[0], st)
        st.mem = ex.m.merge([(RD(p), ex.m.store(st.mem, a[1], 'str', DATA(p))), (Not(RD(p)), st.mem)])
        return RD(p)

    def addf(ex, nm, a, st):
        d, p = ex.lib.gets(a[1], st), ex.lib.gets(a[2], st)
        ex.oblige('what is added is the file of that path below the base', st.cond, d == DATA(JOIN(base, p)))
        ok = ADD(d, p)
        st.mem = ex.m.store(st.mem, cnt, 'i64', simp(zi(ex.m.load(st.mem, cnt, 'i64')) + z3.If(And(ok, p == KEY), 1, 0)))
        return ok
    h.on(r'^kmlengine::Href::Href\(string', href)
    h.on(r'^kmlengine::Href::~Href', lambda ex, nm, a, st: None)
    h.on(r'^kmlengine::Href::(has_fragment|clear_fragment)', lambda ex, nm, a, st: ex.fresh('frag', BO) if 'has' in nm else None)
    h.on(r'^kmlengine::Href::get_path', lambda ex, nm, a, st: a[0])
    h.on(r'^kmlengine::NormalizeHref\(', norm)
    h.on(r'^kmlbase::File::JoinPaths\(', lambda ex, nm, a, st: setattr(st, 'mem', ex.m.store(st.mem, a[0], 'str', JOIN(ex.lib.gets(a[1], st), ex.lib.gets(a[2], st)))))
    h.on(r'^kmlbase::File::ReadFileToString\(', rdf)
    h.on('^' + K + r'AddFile\(', addf)
    ex.axiom(And(ERR(0) == 0, GOT(0) == 0, SET(0) == z3.K(ex.S, z3.BoolVal(False))))

    def fact(i):
        p = PATH(at(i))
        q = NORM(p)
        up = S.sub(q, 0, 2) == S.lit(b'..')
        bad = Or(Not(NOK(p)), up)
        dup = z3.Select(SET(i), q)
        can = And(RD(JOIN(base, q)), ADD(DATA(JOIN(base, q)), q))
        ex.axiom(z3.Implies(And(i >= 0, i < n), And(ERR(i + 1) == ERR(i) + z3.If(Or(bad, And(Not(dup), Not(can))), 1, 0), ERR(i) >= 0, ERR(i) <= i,
                                                    SET(i + 1) == z3.If(Or(bad, dup), SET(i), z3.Store(SET(i), q, z3.BoolVal(True))),
                                                    GOT(i + 1) == GOT(i) + z3.If(And(Not(bad), Not(dup), can, q == KEY), 1, 0), GOT(i) >= 0, GOT(i) <= z3.If(z3.Select(SET(i), KEY), 1, 0),
                                                    GOT(i + 1) <= z3.If(z3.Select(SET(i + 1), KEY), 1, 0))))

    def gen(ex, rec):
        for nm, q, v, al in places(h, rec, vec):
            fact(v)
            ex.add_cand(rec, nm + ' within the list', lambda t, q=q, al=al: And(al(t), q(t) >= 0, q(t) <= n))
            ex.add_cand(rec, 'added before ' + nm, lambda t, q=q: zi(ex.m.load(t.mem, cnt, 'i64')) == GOT(q(t)))
            for nm2, g2, v2 in ints(rec):
                if nm2 != nm:
                    ex.add_cand(rec, '%s counts the errors before %s' % (nm2, nm), lambda t, q=q, g2=g2: zi(g2(t)) == ERR(q(t)))
            for kind, o, off in rec.cells:
                if kind == 'mhas':
                    ex.add_cand(rec, 'stored before ' + nm, lambda t, q=q, p=Ptr(o, off): ex.m.load(t.mem, p, 'mhas') == SET(q(t)))
    ex.inv_gens.append(gen)
    ex.axiom(And(GOT(n) >= 0, GOT(n) <= 1))
    r = h.call(K + r'AddFileList\(', [this, pb, vec])
    ex.oblige('the number of those left out', st.cond, Eq(r, ERR(n)))
    ex.oblige('every file that can be is added, once', st.cond, zi(ex.m.load(st.mem, cnt, 'i64')) == GOT(n))
    return h.fin()


def opening(b, kmz):
    """OpenFromString, IsZipData: an archive is what starts with its mark"""
    h = HZ(b)
    ex, st, S = h.ex, h.st, h.S
    data, pd = h.string('data')
    is_ = S.sub(data, 0, 4) == S.lit(b'PK\x03\x04')
    h.on(r'^' + Z + r'ZipFile\(string const&\)', h.rec('opened', lambda a, st: (ex.lib.gets(a[1], st),)))
    r = h.call((K if kmz else Z) + (r'IsKmz\(' if kmz else r'IsZipData\('), [pd])
    ex.oblige('whether it is one', st.cond, zb(r) == is_)
    r = h.call((K if kmz else Z) + r'OpenFromString\(', [pd])
    ex.oblige('what is one is opened, nothing else', st.cond, zb(Not(Eq(r.obj, 0))) == is_)
    h.once('opened', is_, (data,))
    return h.fin(And(st.cond, is_), And(st.cond, Not(is_)))


def create(b, what):
    """CreateFromElement, WriteKmz: the KML file first, then the files it refers to"""
    h = HZ(b)
    ex, st, S = h.ex, h.st, h.S
    path, pp = h.string('kmz_path')
    base, pb = h.string('base')
    kml, pk = h.string('kml')
    made, links, there, addok = [z3.Bool(x) for x in ('made', 'has_links', 'there', 'added')]
    kz, elem = ex.new_input_obj(), ex.new_input_obj()
    ep = ex.alloc(8)
    st.mem = ex.m.store(st.mem, ep, 'ptr', elem)
    h.on('^' + K + r'Create\(', h.rec('made', lambda a, st: (h.text(a[0], st),), Ptr(ite(made, kz.obj, 0), 0)))
    h.on(r'^kmldom::SerializePretty\(', lambda ex, nm, a, st: (h.note(st, 'serialized', ex.m.load(st.mem, a[1], 'ptr').obj), ex.lib.sets(a[0], kml, st))[1])
    h.on('^' + K + r'AddFile\(', h.rec('KML added', lambda a, st: (a[0].obj, ex.lib.gets(a[1], st), ex.lib.gets(a[2], st)), addok))
    h.on(r'^kmlengine::GetRelativeLinks\(', lambda ex, nm, a, st: (h.note(st, 'links', ex.lib.gets(a[0], st)), ex.lib.set_vsize(a[1], z3.Int('nlinks'), st), setattr(h, 'lv', a[1]), links)[3])
    h.on('^' + K + r'AddFileList\(', h.rec('files added', lambda a, st: (a[0].obj, ex.lib.gets(a[1], st), a[2].obj, a[2].off), z3.Int('left_out')))
    h.on(r'^kmlbase::File::Exists\(', lambda ex, nm, a, st: (h.note(st, 'looked for'), there)[1])
    h.on(r'^(void )?(boost::checked_delete|boost::sp_|kmlengine::KmzFile::~|kmlbase::Referent::|kmlbase::intrusive)', lambda ex, nm, a, st: None)
    doc = S.lit(b'doc.kml')
    if what == 'CreateFromElement':
        r = h.call(K + r'CreateFromElement\(', [ep, pb, pp])
        go = And(zi(S.len(path)) > 0, made)
        ex.oblige('whether it was made', st.cond, zb(r) == zb(And(go, there)))
        h.once('made', zi(S.len(path)) > 0, (path,))
        h.once('serialized', go, (elem.obj,))
        h.once('KML added', go, (kz.obj, kml, doc))
        h.once('links', go, (kml,))
        h.once('files added', And(go, links), (kz.obj, base, h.lv.obj, h.lv.off))
        order = [e[1] for e in h.log if e[1] in ('KML added', 'files added')]
        ex.oblige('the KML file comes first', st.cond, order == ['KML added', 'files added'])
        return h.fin(And(st.cond, r), And(st.cond, Not(r)))
    cp = ex.lib.data_ptr(pp, st)
    r = h.call(K + r'WriteKmz\(', [cp, pk])
    ex.oblige('whether it was made', st.cond, zb(r) == zb(And(made, addok, there)))
    h.once('made', True, (path,))
    h.once('KML added', made, (kz.obj, kml, doc))
    return h.fin(And(st.cond, r), And(st.cond, Not(r)))


def units(b):
    return [Unit('ZipFile::OpenFromString', lambda: opening(b, False)), Unit('KmzFile::OpenFromString', lambda: opening(b, True)),
            Unit('CreateFromElement', lambda: create(b, 'CreateFromElement')), Unit('WriteKmz', lambda: create(b, 'WriteKmz')),
            Unit('stream', lambda: stream(b)), Unit('ZipFile', lambda: toc(b)), Unit('IsInToc', lambda: lookup(b)), Unit('FindFirstOf', lambda: findfirst(b)), Unit('GetEntry', lambda: entry(b, False)),
            Unit('GetEntry, nothing asked for', lambda: entry(b, True)), Unit('AddEntry', lambda: add(b)), Unit('KmzFile', lambda: read(b)), Unit('AddFileList', lambda: filelist(b))]
