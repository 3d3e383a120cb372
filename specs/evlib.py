"""Event logs: which calls a function makes, under which conditions, with which arguments and in which order."""
from .baselib import *
from . import domlib as D
from .p_xml import copy_

I = z3.IntSort()


class Ev:
    """an executor for one function of the engine module, with a log of the calls it makes"""
    def __init__(self, b, **k):
        self.b = b
        self.ex = D.new_exec(b.dom, **k)
        self.st = start(self.ex)
        self.S = self.ex.lib.str
        self.ev, self.seq = {}, 0
        self.ex.logs.append((lambda: {k: len(v) for k, v in self.ev.items()}, lambda x: [v.__delitem__(slice(x.get(k, 0), None)) for k, v in self.ev.items()]))
        self.TYPE = z3.Function('TYPE', I, I)
        self.ex.vcontracts['Type'] = lambda ex, n, a, st: self.TYPE(zi(a[0].obj))

    def obj(self):
        p = self.ex.new_input_obj()
        self.ex.m.private.add(p.obj)
        return p

    def str(self, st, p):
        return self.ex.m.load(st.mem, p, 'str')

    def ptr(self, st, p):
        return self.ex.m.load(st.mem, p, 'ptr')

    def strarg(self, v):
        p = self.ex.alloc(32)
        self.st.mem = self.ex.m.store(self.st.mem, p, 'str', v)
        return p

    def ptrarg(self, v):
        p = self.ex.alloc(8)
        self.st.mem = self.ex.m.store(self.st.mem, p, 'ptr', v)
        return p

    def rec(self, what, args, ret=None, doc=None):
        def h(ex, n, a, st):
            self.seq += 1
            r = ret(st, a) if callable(ret) else ret
            if not ex.suppress:
                self.ev.setdefault(what, []).append((st.cond, args(st, a), self.seq, copy_(st)))
            return r
        h.__doc__ = doc or what
        return h

    def isa(self, x, t):
        """is the element x of the class with type id t, or of one derived from it (verified: D05)"""
        from .p_parse import hierarchy
        if not hasattr(self, '_hier'):
            self._hier = hierarchy(self.b.dom)
        return Or(*[Eq(self.TYPE(x), k) for k in sorted({c for c, s in self._hier.items() if c is not None and t in s} | {t})])

    def casts(self):
        """IsA and the As... casts, by the type of the element"""
        from .p_parse import ids
        T = ids()
        low = {k.lower(): v for k, v in T.items()}

        def cast(ex, n, a, st):
            '''the element itself if it is of that class, else null (verified: D05)'''
            t = low['type_' + self.ascast.match(ex.mod.dem.get(n, n)).group(1).lower()]
            x = self.ptr(st, a[1])
            st.mem = ex.m.store(st.mem, a[0], 'ptr', Ptr(z3.If(zb(And(zi(x.obj) != 0, self.isa(zi(x.obj), t))), zi(x.obj), z3.IntVal(0)), x.off))

        def isa(ex, n, a, st):
            '''whether it is of that class (verified: D05)'''
            if is_z(a[1]):
                raise Unsupported('IsA of a variable type')
            return self.isa(zi(a[0].obj), a[1])
        import re
        self.ascast = re.compile(r'^kmldom::As(\w+)\(')
        self.ex.contracts.append((RX(r'^kmldom::As(Feature|Document|StyleSelector|Style|StyleMap|Object|Update|Placemark|Folder|Container|Kml|Pair|NetworkLink|Model|Element|Geometry)\('), cast))
        self.ex.vcontracts['IsA'] = isa

    def on(self, rx, what, args, ret=None, doc=None):
        self.ex.contracts.append((RX(rx), self.rec(what, args, ret, doc)))

    def von(self, name, what, args, ret=None, doc=None):
        self.ex.vcontracts[name] = self.rec(what, args, ret, doc)

    def happens(self, what, cond, st, args=None, pred=None):
        """the event happens exactly once when cond holds, with these arguments, and not otherwise"""
        l = self.ev.get(what, [])
        ex = self.ex
        if cond is not False:
            ex.oblige('%s happens when it should' % what, And(st.cond, cond), Or(*[c for c, _, _, _ in l]))
        for k, (c, a, q, s) in enumerate(l):
            ex.oblige('%s happens only when it should' % what, c, cond)
            for c2, _, _, _ in l[k + 1:]:
                ex.oblige('%s happens once' % what, c, Not(And(c, c2)))
            if args is not None:
                ex.oblige('%s: with the right arguments' % what, c, And(*[ptr_eq(x, y) if isinstance(y, Ptr) else Eq(x, y) for x, y in zip(a, args)]))
            if pred is not None:
                pred(c, a, s)

    def events(self, what, st, expected):
        """the events of this kind are exactly those of the list [(cond, args)], in that order"""
        l = self.ev.get(what, [])
        ex = self.ex
        match = lambda a, args: And(*[ptr_eq(x, y) if isinstance(y, Ptr) else Eq(x, y) for x, y in zip(a, args)])
        for i, (c0, args) in enumerate(expected):
            ex.oblige('%s (%d) happens' % (what, i + 1), And(st.cond, c0), Or(*[And(c, match(a, args)) for c, a, _, _ in l]))
        for k, (c, a, q, s) in enumerate(l):
            ex.oblige('no other %s' % what, c, Or(*[And(c0, match(a, args)) for c0, args in expected]))
            for c2, a2, q2, _ in l[k + 1:]:
                # ordered: whatever comes later in the run is later in the list
                ex.oblige('%s in order, each once' % what, And(c, c2), Or(*[And(e1[0], e2[0], match(a, e1[1]), match(a2, e2[1])) for i1, e1 in enumerate(expected) for e2 in expected[i1 + 1:]]))

    def before(self, first, second):
        """every event of the one kind comes before every event of the other"""
        for c, a, q, s in self.ev.get(first, []):
            for c2, a2, q2, s2 in self.ev.get(second, []):
                if q >= q2:
                    self.ex.oblige('%s comes before %s' % (first, second), And(c, c2), False)

    def fin(self, *fs):
        self.ex.under_contract = [self.b.m.dem[f] for f in fs]
        self.ex.covers = [self.st.cond]
        return self.ex
