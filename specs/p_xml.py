"""Writing XML: the text the serializer produces (property D06)."""
from .baselib import *
from . import domlib as D

MODULE = 'dom'
X_ = 'kmldom::XmlSerializer<kmldom::StringAdapter>'
XR = r'kmldom::XmlSerializer<kmldom::StringAdapter>::'
I = z3.IntSort()
ENT = {'&': '&amp;', '<': '&lt;', '>': '&gt;', "'": '&apos;', '"': '&quot;', '\r': '&#13;'}
ATT = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;', '\t': '&#9;', '\n': '&#10;', '\r': '&#13;'}


def copy_(st, c=None):
    return type(st)(st.cond if c is None else And(st.cond, c), st.mem, dict(st.env))


class Ser:
    """an arbitrary serializer in the middle of its work, writing to a string that already holds O"""
    def __init__(self, b, pretty, pending):
        self.b = b
        ex = self.ex = D.new_exec(b.dom)
        st = self.st = start(ex)
        S = self.S = ex.lib.str
        self.this = ex.new_input_obj()
        ex.m.private.add(self.this.obj)
        self.ad = ex.alloc(8)
        self.o = ex.alloc(32)
        self.O = z3.Const('O', ex.S)
        st.mem = ex.m.store(st.mem, self.ad, 'ptr', self.o)
        st.mem = ex.m.store(st.mem, self.o, 'str', self.O)
        self.nl, self.ind = (S.lit(b'\n'), S.lit(b'  ')) if pretty else (S.lit(b''), S.lit(b''))
        f = b.fn(XR + r'XmlSerializer\(')
        c1, c2 = self.cstr(self.nl), self.cstr(self.ind)
        ex.call(f, [self.this, c1, c2, self.ad], st)
        at = lambda m: self.this.plus(b.off(X_, m))
        self.stack, self.pend, self.at = at('tag_stack_'), at('start_pending_'), at('serialized_attributes_')
        for nm, k, v in (('newline_', 'str', self.nl), ('indent_', 'str', self.ind)):
            ex.oblige('the constructor keeps ' + nm, st.cond, Eq(ex.m.load(st.mem, at(nm), k), v))
        ex.oblige('a new serializer has no open element', st.cond, And(Eq(ex.lib.vsize(self.stack, st), 0), Eq(ex.m.load(st.mem, self.pend, 'i8'), 0), Eq(ex.m.load(st.mem, self.at, 'str'), S.lit(b''))))
        self.n = z3.Int('depth')
        ex.axiom(And(self.n >= (1 if pending else 0), self.n < (1 << 56)))
        ex.lib.set_vsize(self.stack, self.n, st)
        st.mem = ex.m.store(st.mem, self.pend, 'i8', 1 if pending else 0)
        self.A = z3.Const('attrs', ex.S) if pending else S.lit(b'')
        st.mem = ex.m.store(st.mem, self.at, 'str', self.A)
        self.pending, self.pretty = pending, pretty
        self.fname = z3.Function('NAME', I, ex.S)
        self.fq = z3.Function('QUOTED', ex.S, ex.S)
        self.find = z3.Function('INDENT', I, ex.S)
        ex.axiom(self.find(0) == S.lit(b''))
        self.top = self.tag(self.n - 1)

        def name(ex, nm, a, st):
            '''the name of that element (verified: Xsd tables, D05)'''
            if len(a) == 3:
                st.mem = ex.m.store(st.mem, a[0], 'str', self.fname(zi(a[2])))
                return None
            p = ex.alloc(32)
            st.mem = ex.m.store(st.mem, p, 'str', self.fname(zi(a[1])))
            return p

        def quote(ex, nm, a, st):
            '''the value in a form XML readers give back (verified: MaybeQuoteString)'''
            st.mem = ex.m.store(st.mem, a[0], 'str', self.fq(ex.m.load(st.mem, a[-1], 'str')))

        def indent(ex, nm, a, st):
            '''writes one indentation per open element (verified: Indent)'''
            self.put(st, self.IND(ex.lib.vsize(self.stack, st)))
        self.indent = indent
        ex.contracts += [(RX(r'^kmldom::Xsd::ElementName'), name), (RX(r'^kmldom::Serializer::MaybeQuoteString'), quote), (RX(r'^' + XR + 'Indent'), indent)]
        ex.vcontracts['Indent'] = indent

    def tag(self, i):
        return self.ex.m.load(self.st.mem, self.ex.lib.velem(self.stack, i, 4), 'i32')

    def cstr(self, s):
        p = self.ex.alloc(32)
        self.st.mem = self.ex.m.store(self.st.mem, p, 'str', s)
        return self.ex.lib.data_ptr(p, self.st)

    def put(self, st, *ts):
        o = self.ex.m.load(st.mem, self.o, 'str')
        st.mem = self.ex.m.store(st.mem, self.o, 'str', self.cat(o, *ts))

    def cat(self, o, *ts):
        S = self.S
        r = S.lit(b'')
        for t in (o,) + ts:
            r = S.cat(r, S.lit(t) if isinstance(t, bytes) else t)
        return r

    def IND(self, n):
        return self.find(zi(n)) if self.pretty else self.S.lit(b'')

    def out(self, st):
        return self.ex.m.load(st.mem, self.o, 'str')

    def started(self):
        """what is written when the start tag waiting to be written is written, by something that follows in the element"""
        return (b'<', self.fname(zi(self.top)), self.A, b'>', self.nl) if self.pending else ()

    def state(self, what, st, n, pending, attrs, top=None):
        ex = self.ex
        ex.oblige(what + ': open elements', st.cond, Eq(ex.lib.vsize(self.stack, st), n))
        j = z3.Int('j')
        ex.axiom(j >= 0)
        old = ex.m.load(self.st0.mem, ex.lib.velem(self.stack, j, 4), 'i32')
        new = ex.m.load(st.mem, ex.lib.velem(self.stack, j, 4), 'i32')
        want = old if top is None else z3.If(j == self.n, zi(top), zi(old))
        ex.oblige(what + ': which elements are open', And(st.cond, j < zi(n)), Eq(new, want))
        ex.oblige(what + ': start tag pending', st.cond, Eq(ex.m.load(st.mem, self.pend, 'i8'), 1 if pending else 0))
        ex.oblige(what + ': attributes waiting', st.cond, Eq(ex.m.load(st.mem, self.at, 'str'), attrs))

    def text(self, what, st, *ts):
        self.ex.oblige(what + ': exactly this text is written', st.cond, Eq(self.out(st), self.cat(self.O, *ts)))


def strarg(s, v):
    p = s.ex.alloc(32)
    s.st.mem = s.ex.m.store(s.st.mem, p, 'str', v)
    return p


def begin(b, pretty, pending):
    s = Ser(b, pretty, pending)
    ex, st = s.ex, s.st
    ta = z3.Const('attr_text', ex.S)
    na = z3.Int('n_attrs')
    ex.axiom(And(na >= 0, na < (1 << 56)))
    attrs = ex.new_input_obj()

    def ser(ex, nm, a, st):
        '''appends the attributes as text (verified: Attributes::Serialize)'''
        ex.oblige('the attributes given are written', st.cond, ptr_eq(a[0], attrs))
        st.mem = ex.m.store(st.mem, a[1], 'str', s.S.cat(ex.m.load(st.mem, a[1], 'str'), z3.If(na > 0, ta, s.S.lit(b''))))
    ex.contracts += [(RX(r'^kmlbase::Attributes::Serialize\('), ser), (RX(r'^kmlbase::Attributes::GetSize'), lambda ex, nm, a, st: na)]
    t = z3.Int('type_id')
    f = b.fn(XR + r'BeginById\(')
    s.st0 = copy_(st)
    ex.call(f, [s.this, t, attrs], st)
    s.text('BeginById', st, *s.started(), s.IND(s.n))
    s.state('BeginById', st, s.n + 1, True, z3.If(na > 0, ta, s.S.lit(b'')), top=t)
    return fin(s, f)


def fin(s, *fs):
    s.ex.under_contract = [s.b.m.dem[f] for f in fs]
    s.ex.covers = [s.st.cond]
    return s.ex


def end(b, pretty, pending):
    s = Ser(b, pretty, pending)
    ex, st = s.ex, s.st
    ex.axiom(s.n >= 1)
    f = b.fn(XR + r'End\(')
    s.st0 = copy_(st)
    ex.call(f, [s.this], st)
    nm = s.fname(zi(s.top))
    if pending:
        s.text('End of an empty element', st, b'<', nm, s.A, b'/>', s.nl)
    else:
        s.text('End', st, s.IND(s.n - 1), b'</', nm, b'>', s.nl)
    s.state('End', st, s.n - 1, False, s.S.lit(b''))
    return fin(s, f)


def field(b, pretty, pending):
    s = Ser(b, pretty, pending)
    ex, st = s.ex, s.st
    v = z3.Const('value', ex.S)
    t = z3.Int('type_id')
    p = strarg(s, v)
    f = b.fn(XR + r'SaveStringFieldById\(')
    s.st0 = copy_(st)
    ex.call(f, [s.this, t, p], st)
    nm = s.fname(t)
    e = Eq(v, s.S.lit(b''))
    o = s.out(st)
    ex.oblige('SaveStringFieldById: an empty value gives an empty element', And(st.cond, e), Eq(o, s.cat(s.O, *s.started(), s.IND(s.n), b'<', nm, b'/>', s.nl)))
    ex.oblige('SaveStringFieldById: exactly this text is written', And(st.cond, Not(e)), Eq(o, s.cat(s.O, *s.started(), s.IND(s.n), b'<', nm, b'>', s.fq(v), b'</', nm, b'>', s.nl)))
    s.state('SaveStringFieldById', st, s.n, False, s.S.lit(b''))
    return fin(s, f)


def content(b, pretty, pending):
    s = Ser(b, pretty, pending)
    ex, st = s.ex, s.st
    v = z3.Const('value', ex.S)
    p = strarg(s, v)
    f = b.fn(XR + r'SaveContent\(')
    s.st0 = copy_(st)
    st0 = copy_(st)
    ex.call(f, [s.this, p, True], st)
    s.text('SaveContent, quoting', st, *s.started(), s.fq(v))
    s.state('SaveContent', st, s.n, False, s.S.lit(b''))
    s2 = copy_(st0)
    ex.call(f, [s.this, p, False], s2)
    s.text('SaveContent, verbatim', s2, *s.started(), v)
    s.state('SaveContent, verbatim', s2, s.n, False, s.S.lit(b''))
    return fin(s, f)


def vec3(b, pretty, pending):
    s = Ser(b, pretty, pending)
    ex, st = s.ex, s.st
    p = ex.new_input_obj()
    d = [z3.Const('x%d' % i, z3.Float64()) for i in range(3)]
    for i, x in enumerate(d):
        st.mem = ex.m.store(st.mem, p.plus(8 * i), 'f64', x)
    T = lambda x: ex.lib.fmt('double', x)
    f = b.fn(XR + r'SaveVec3\(')
    s.st0 = copy_(st)
    ex.call(f, [s.this, p], st)
    s.text('SaveVec3', st, *s.started(), s.IND(s.n), T(d[0]), b',', T(d[1]), b',', T(d[2]), b'\n')
    s.state('SaveVec3', st, s.n, False, s.S.lit(b''))
    return fin(s, f)


def color(b, pretty, pending):
    s = Ser(b, pretty, pending)
    ex, st = s.ex, s.st
    c = ex.new_input_obj()
    f = b.fn(XR + r'SaveColor\(')
    hex_ = z3.Const('hex', ex.S)
    t = z3.Int('type_id')
    log = ex.newlog()

    def tostr(ex, nm, a, st):
        '''the 8 digits (verified: V02)'''
        ex.oblige('the colour given is written', st.cond, ptr_eq(a[1], c))
        st.mem = ex.m.store(st.mem, a[0], 'str', hex_)

    def fld(ex, nm, a, st):
        '''writes the field (verified: SaveStringFieldById)'''
        log.append((st.cond, a[1], ex.m.load(st.mem, a[2], 'str')))
        pend = ex.m.load(st.mem, s.pend, 'i8')
        if as_const(pend) != 0:
            s.put(st, *s.started())
            st.mem = ex.m.store(st.mem, s.pend, 'i8', 0)
            st.mem = ex.m.store(st.mem, s.at, 'str', s.S.lit(b''))
        s.put(st, z3.Const('FIELD', ex.S))
    ex.contracts.append((RX(r'^kmlbase::Color32::to_string_abgr'), tostr))
    ex.vcontracts['SaveStringFieldById'] = fld
    ex.contracts.append((RX('^' + XR + 'SaveStringFieldById'), fld))
    s.st0 = copy_(st)
    ex.call(f, [s.this, t, c], st)
    ex.oblige('SaveColor writes one field, the digits', st.cond, And(len(log) == 1, *[And(x, Eq(i, t), Eq(v, hex_)) for x, i, v in log]))
    s.text('SaveColor', st, *s.started(), z3.Const('FIELD', ex.S))
    s.state('SaveColor', st, s.n, False, s.S.lit(b''))
    return fin(s, f)


def indent(b, pretty):
    s = Ser(b, pretty, False)
    ex, st = s.ex, s.st
    ex.contracts = [c for c in ex.contracts if c[1] is not s.indent]
    f = b.fn(XR + r'Indent\(')

    def gen(ex, rec):
        for nm, g, w in rec.ints:
            try:
                v = g(rec.hdr)
                for t in (rec.entry, rec.hdr):
                    g(t)
            except Unsupported:
                continue
            for how, k in (('left', lambda x: s.n - zi(x)), ('done', lambda x: zi(x))):
                kv = k(v)
                ex.axiom(z3.Implies(kv >= 0, s.S.fcat(s.S.fcat(s.O, s.find(kv)), s.ind) == s.S.fcat(s.O, s.find(kv + 1))))
                ex.add_cand(rec, '%s %s' % (nm, how), lambda t, g=g, k=k: Eq(s.out(t), s.S.fcat(s.O, s.find(simp(k(g(t)))))))
    ex.inv_gens.append(gen)
    ex.axiom(s.S.fcat(s.O, s.S.lit(b'')) == s.O)
    s.st0 = copy_(st)
    ex.call(f, [s.this], st)
    ex.oblige('Indent writes one indentation per open element', st.cond, Eq(s.out(st), s.S.fcat(s.O, s.find(s.n)) if pretty else s.O))
    s.state('Indent', st, s.n, False, s.S.lit(b''))
    return fin(s, f)


def escp_fn(ex, name, table, s):
    """prefix fold: the text of the first k characters with those of the table replaced"""
    S = ex.lib.str
    F = z3.Function(name, ex.S, I, ex.S)

    def one(c):
        t = S.byte(c)
        for k, v in table.items():
            t = z3.If(zb(Eq(c, ord(k))), S.lit(v.encode()), t)
        return t

    def step(k):
        """F(s, k+1) = F(s, k) . one(s[k])"""
        c = S.at(s, k)
        ex.axiom(z3.Implies(And(zi(k) >= 0, zi(k) < zi(S.len(s))), And(F(s, zi(k) + 1) == S.fcat(F(s, zi(k)), one(c)), *[z3.Implies(zb(Eq(c, ord(x))), one(c) == S.lit(y.encode())) for x, y in table.items()])))
    ex.axiom(F(s, 0) == S.lit(b''))
    return F, step


def escape_gen(ex, F, step, s, get, O=None):
    """loop invariants: the text so far is the fold of the characters consumed"""
    S = ex.lib.str

    def gen(ex, rec):
        for nm, g, w in rec.ints:
            try:
                v = g(rec.hdr)
            except Unsupported:
                continue
            if is_z(v):
                step(v)
                if O is not None:
                    x = S.at(s, v)
                    F1 = F(s, zi(v) + 1)
                    b = z3.Const('%s.step' % rec.tag, ex.S)
                    ex.axiom(z3.Implies(And(zi(v) >= 0, zi(v) < zi(S.len(s)), S.fcat(F(s, zi(v)), b) == F1), S.fcat(S.fcat(O, F(s, zi(v))), b) == S.fcat(O, F1)))
            ex.add_cand(rec, nm + ' characters consumed', lambda t, g=g: Eq(get(t), F(s, zi(g(t))) if O is None else S.fcat(O, F(s, zi(g(t))))))
            ex.add_cand(rec, nm + ' in range', lambda t, g=g: And(zi(g(t)) >= 0, zi(g(t)) <= zi(S.len(s))))
    return gen


def escape(b):
    ex = D.new_exec(b.dom)
    st = start(ex)
    S = ex.lib.str
    f = b.fn(r'kmldom::EnityEscapeXml\(')
    v = z3.Const('value', ex.S)
    p, ret = ex.alloc(32), ex.alloc(32)
    st.mem = ex.m.store(st.mem, p, 'str', v)
    F, step = escp_fn(ex, 'ESCP', ENT, v)
    ex.inv_gens.append(escape_gen(ex, F, step, v, lambda t: ex.m.load(t.mem, ret, 'str')))
    ex.call(f, [ret, p], st)
    ex.oblige('each character is written as itself or as its entity', st.cond, Eq(ex.m.load(st.mem, ret, 'str'), F(v, zi(S.len(v)))))
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def quote(b):
    ex = D.new_exec(b.dom)
    st = start(ex)
    S = ex.lib.str
    f = b.fn(r'kmldom::Serializer::MaybeQuoteString\(')
    v = z3.Const('value', ex.S)
    j = z3.Int('j')
    ex.axiom(And(j >= 0, j < zi(S.len(v))))
    ex.probes.append(j)
    p, ret, this = ex.alloc(32), ex.alloc(32), ex.new_input_obj()
    st.mem = ex.m.store(st.mem, p, 'str', v)
    E = z3.Function('ESC', ex.S, ex.S)

    def esc(ex, nm, a, st):
        '''each character as itself or its entity (verified: EnityEscapeXml)'''
        st.mem = ex.m.store(st.mem, a[0], 'str', E(ex.m.load(st.mem, a[1], 'str')))
    ex.contracts.append((RX(r'^kmldom::EnityEscapeXml'), esc))
    st0 = copy_(st)
    ex.call(f, [ret, this, p] if len(b.m.funcs[f].params) == 3 else [ret, p], st)
    r = ex.m.load(st.mem, ret, 'str')
    ce = And(j + 2 < zi(S.len(v)), S.match(v, j, b']]>'))
    c = S.at(v, j)
    cr = Eq(c, 13)           # readers turn a carriage return into a newline
    plain = And(Not(Eq(c, ord('&'))), Not(Eq(c, ord('<'))), Not(ce), Not(cr))
    cd = S.cat(S.lit(b'<![CDATA['), S.cat(v, S.lit(b']]>')))
    ex.oblige('the text is written escaped, or in a CDATA section it does not end, or as it is when nothing in it is markup', st.cond,
              Or(Eq(r, E(v)), And(Eq(r, cd), Not(ce), Not(cr)), And(Eq(r, v), plain)))
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def attrval(b):
    ex = D.new_exec(b.dom)
    st = start(ex)
    S = ex.lib.str
    f = b.fn(r'kmlbase::AppendAttributeValue\(')
    v, O = z3.Const('value', ex.S), z3.Const('O', ex.S)
    p, o = ex.alloc(32), ex.alloc(32)
    st.mem = ex.m.store(st.mem, p, 'str', v)
    st.mem = ex.m.store(st.mem, o, 'str', O)
    F, step = escp_fn(ex, 'ATTP', ATT, v)
    get = lambda t: ex.m.load(t.mem, o, 'str')
    ex.axiom(S.fcat(O, S.lit(b'')) == O)

    def gen(ex, rec):
        for nm, g, w in rec.ints:
            try:
                k = g(rec.hdr)
            except Unsupported:
                continue
            if is_z(k):
                c = S.at(v, k)
                prev, nxt = S.fcat(O, F(v, zi(k))), S.fcat(O, F(v, zi(k) + 1))
                one = S.byte(c)
                cs = And(zi(k) >= 0, zi(k) < zi(S.len(v)))
                for x, y in ATT.items():
                    ex.axiom(z3.Implies(And(cs, Eq(c, ord(x))), S.fcat(prev, S.lit(y.encode())) == nxt))
                ex.axiom(z3.Implies(And(cs, *[Not(Eq(c, ord(x))) for x in ATT]), S.fcat(prev, one) == nxt))
            ex.add_cand(rec, nm + ' characters consumed', lambda t, g=g: Eq(get(t), S.fcat(O, F(v, zi(g(t))))))
            ex.add_cand(rec, nm + ' in range', lambda t, g=g: And(zi(g(t)) >= 0, zi(g(t)) <= zi(S.len(v))))
    ex.inv_gens.append(gen)
    ex.call(f, [p, o], st)
    ex.oblige('each character of an attribute value is written as itself or as its entity', st.cond, Eq(get(st), S.fcat(O, F(v, zi(S.len(v))))))
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def attributes(b):
    """Attributes::Serialize: every attribute in turn"""
    ex = D.new_exec(b.dom)
    st = start(ex)
    S = ex.lib.str
    f = b.fn(r'kmlbase::Attributes::Serialize\(')
    this, o = ex.new_input_obj(), ex.alloc(32)
    O = z3.Const('O', ex.S)
    st.mem = ex.m.store(st.mem, o, 'str', O)
    n = z3.Int('n')
    ex.axiom(And(n >= 0, n < (1 << 56)))
    mp = this.plus(b.off('kmlbase::Attributes', 'attributes_map_'))
    q = ex.lib.seq_view(mp, n)
    st0 = copy_(st)
    V = z3.Function('ATTVAL', ex.S, ex.S)
    P = z3.Function('ATTRS', I, ex.S)       # text of the first k attributes
    ex.axiom(P(0) == S.lit(b''))
    ex.axiom(S.fcat(O, S.lit(b'')) == O)

    def av(ex, nm, a, st):
        '''appends the escaped value (verified: AppendAttributeValue)'''
        st.mem = ex.m.store(st.mem, a[1], 'str', S.cat(ex.m.load(st.mem, a[1], 'str'), V(ex.m.load(st.mem, a[0], 'str'))))
    ex.contracts.append((RX(r'^kmlbase::AppendAttributeValue'), av))

    def kv(i):
        p = Ptr(q.nodes.obj, ex.mul_c(i, ex.lib.STRIDE))
        return ex.m.load(st0.mem, p, 'str'), ex.m.load(st0.mem, p.plus(32), 'str')
    get = lambda t: ex.m.load(t.mem, o, 'str')

    def gen(ex, rec):
        for nm, g, w in rec.ints:
            try:
                k = g(rec.hdr)
            except Unsupported:
                continue
            if is_z(k):
                K_, V_ = kv(k)
                one = S.cat(S.lit(b' '), S.cat(K_, S.cat(S.lit(b'="'), S.cat(V(V_), S.lit(b'"')))))
                base = get(rec.hdr)
                ex.axiom(z3.Implies(base == S.fcat(O, P(zi(k))), S.fcat(base, one) == S.fcat(O, P(zi(k) + 1))))
            ex.add_cand(rec, nm + ' attributes written', lambda t, g=g: Eq(get(t), S.fcat(O, P(zi(g(t))))))
            ex.add_cand(rec, nm + ' in range', lambda t, g=g: And(zi(g(t)) >= 0, zi(g(t)) <= n))
    ex.inv_gens.append(gen)
    ex.call(f, [this, o], st)
    ex.oblige('every attribute is written, name and value, in order', st.cond, Eq(get(st), S.fcat(O, P(n))))
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def simplevec3(b):
    ex = D.new_exec(b.dom)
    st = start(ex)
    S = ex.lib.str
    f = b.fn(r'kmldom::Serializer::SaveSimpleVec3\(')
    this, p, dl = ex.new_input_obj(), ex.new_input_obj(), ex.alloc(32)
    d = [z3.Const('x%d' % i, z3.Float64()) for i in range(3)]
    for i, x in enumerate(d):
        st.mem = ex.m.store(st.mem, p.plus(8 * i), 'f64', x)
    sep = z3.Const('delimiter', ex.S)
    st.mem = ex.m.store(st.mem, dl, 'str', sep)
    log = ex.newlog()
    ex.vcontracts['SaveStringFieldById'] = lambda ex, n, a, st: log.append((st.cond, a[1], ex.m.load(st.mem, a[2], 'str')))
    t = z3.Int('type_id')
    ex.call(f, [this, t, p, dl], st)
    T = lambda x: ex.lib.fmt('double', x)
    w = S.cat(S.cat(S.cat(S.cat(T(d[0]), sep), T(d[1])), sep), T(d[2]))
    ex.oblige('one field with the three numbers, separated', st.cond, And(len(log) == 1, *[And(c, Eq(i, t), Eq(v, w)) for c, i, v in log]))
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def enum(b):
    ex = D.new_exec(b.dom)
    st = start(ex)
    S = ex.lib.str
    f = b.fn(r'kmldom::Serializer::SaveEnum\(')
    this = ex.new_input_obj()
    t, v = z3.Int('type_id'), z3.Int('value')
    N = z3.Const('enum_text', ex.S)

    def ev(ex, nm, a, st):
        '''the text of the value, empty if there is none (verified: Xsd tables, D05)'''
        ex.oblige('the value asked for', st.cond, And(Eq(a[2], t), Eq(a[3], v)))
        st.mem = ex.m.store(st.mem, a[0], 'str', N)
    ex.contracts.append((RX(r'^kmldom::Xsd::EnumValue'), ev))
    log = ex.newlog()
    ex.vcontracts['SaveStringFieldById'] = lambda ex, n, a, st: log.append((st.cond, a[1], ex.m.load(st.mem, a[2], 'str')))
    ex.call(f, [this, t, v], st)
    ne = Not(Eq(N, S.lit(b'')))
    ex.oblige('a value with a text is written', And(st.cond, ne), Or(*[And(c, Eq(i, t), Eq(x, N)) for c, i, x in log]))
    ex.oblige('written once, and only if it has a text', st.cond, And(len(log) == 1, *[z3.Implies(zb(c), zb(ne)) for c, i, x in log]))
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def whole(b, name, nl, ind):
    """SerializeRaw / SerializePretty: a new serializer, the root written by it, its text returned"""
    ex = D.new_exec(b.dom)
    st = start(ex)
    S = ex.lib.str
    f = b.fn(r'kmldom::%s\(' % name)
    ret, rp = ex.alloc(32), ex.alloc(8)
    root_ = ex.input_ptr('root', nonnull=False)
    st.mem = ex.m.store(st.mem, rp, 'ptr', root_)
    T = z3.Const('TEXT', ex.S)
    log = ex.newlog()

    def ser(ex, n, a, st):
        '''writes the element with the serializer (verified: D02 and the methods of the serializer)'''
        at = lambda m: a[1].plus(b.off(X_, m))
        log.append(st.cond)
        ex.oblige('the root is written', st.cond, ptr_eq(a[0], root_))
        ex.oblige('with the line breaks and indentation of this form', st.cond, And(Eq(ex.m.load(st.mem, at('newline_'), 'str'), S.lit(nl)), Eq(ex.m.load(st.mem, at('indent_'), 'str'), S.lit(ind))))
        ex.oblige('by a serializer in its initial state', st.cond, And(Eq(ex.lib.vsize(at('tag_stack_'), st), 0), Eq(ex.m.load(st.mem, at('start_pending_'), 'i8'), 0), Eq(ex.m.load(st.mem, at('serialized_attributes_'), 'str'), S.lit(b''))))
        ad = ex.m.load(st.mem, at('output_'), 'ptr')
        o = ex.m.load(st.mem, ad, 'ptr')
        st.mem = ex.m.store(st.mem, o, 'str', S.cat(ex.m.load(st.mem, o, 'str'), T))
    ex.vcontracts['Serialize'] = ser
    ex.call(f, [ret, rp], st)
    r = ex.m.load(st.mem, ret, 'str')
    nn = Not(Eq(root_.obj, 0))
    ex.oblige('the text written is returned', And(st.cond, nn), Eq(r, T))
    ex.oblige('no element, no text', And(st.cond, Not(nn)), Eq(r, S.lit(b'')))
    ex.oblige('the root is written once', st.cond, len(log) == 1)
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def units(dom):
    b = EngMod(dom)
    out = []
    for fn, nm in ((begin, 'BeginById'), (end, 'End'), (field, 'SaveStringFieldById'), (content, 'SaveContent'), (vec3, 'SaveVec3'), (color, 'SaveColor')):
        for pretty in (False, True):
            for pending in (False, True):
                out.append(Unit('%s %s%s' % (nm, 'pretty' if pretty else 'raw', ', start tag pending' if pending else ''), lambda fn=fn, p=pretty, q=pending: fn(b, p, q)))
    for pretty in (False, True):
        out.append(Unit('Indent ' + ('pretty' if pretty else 'raw'), lambda p=pretty: indent(b, p)))
    out += [Unit('EnityEscapeXml', lambda: escape(b)), Unit('MaybeQuoteString', lambda: quote(b)), Unit('AppendAttributeValue', lambda: attrval(b)), Unit('Attributes::Serialize', lambda: attributes(b)),
            Unit('SaveSimpleVec3', lambda: simplevec3(b)), Unit('SaveEnum', lambda: enum(b)),
            Unit('SerializeRaw', lambda: whole(b, 'SerializeRaw', b'', b'')), Unit('SerializePretty', lambda: whole(b, 'SerializePretty', b'\n', b'  '))]
    return out
