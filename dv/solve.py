"""Discharge phase: Houdini over loop-invariant candidates, then every obligation, each in its own solver query."""
import os, time, subprocess, tempfile
import z3
from .core import *


class Res:
    __slots__ = ('name', 'tag', 'status', 't', 'info', 'backend', 'aux', 'fn')

    def __init__(self, name, tag, status, t=0.0, info='', backend='z3', aux=False, fn=''):
        self.name, self.tag, self.status, self.t, self.info, self.backend, self.aux, self.fn = name, tag, status, t, info, backend, aux, fn


def cvc5_check(smt2, tmo):
    """second back end for queries z3 leaves open: -> 'unsat'/'sat'/'unknown'"""
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(smt2)
        p = f.name
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', '--strings-exp', '--tlimit=%d' % tmo, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=tmo / 1000 + 5)
        o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
        return o if o in ('sat', 'unsat') else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(p)


AUDIT = os.environ.get('DV_AUDIT')


class Solver:
    def __init__(self, ex, tmo=15000, cvc5=True):
        self.ex = ex
        self.tmo = tmo
        self.cvc5 = cvc5
        self.n = 0
        self.base = [zb(a) for a in ex.axioms]
        self.time = 0.0
        self.drops = []

    def relevant(self, fs):
        """axioms reachable through shared symbols (sound: dropping axioms only loses proofs)"""
        if len(self.base) <= 60:
            return self.base
        if not hasattr(self, '_sym'):
            self._sym = [(a, self.syms(a)) for a in self.base]
        cur = set()
        for f in fs:
            cur |= self.syms(f)
        out, left = [], list(self._sym)
        while True:
            nx = []
            grew = False
            for a, s in left:
                if not s or s & cur:
                    out.append(a)
                    if not s <= cur:
                        cur |= s
                        grew = True
                else:
                    nx.append((a, s))
            left = nx
            if not grew:
                return out

    def syms(self, t):
        c = self.__dict__.setdefault('_sc', {})
        r = c.get(t.get_id())
        if r is not None:
            return r[0]
        out = set()
        st = [t]
        seen = set()
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                st.append(x.body())
                continue
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    if x.num_args() == 0:
                        out.add(x.decl().name())
                    else:
                        # ground application: keyed by the term itself
                        out.add(i)
                st.extend(x.children())
        c[t.get_id()] = (out, t)
        return out

    def valid(self, hyps, cond, f, tmo=None, final=True):
        """is axioms /\\ hyps /\\ cond -> f valid?  -> (status, info, backend)"""
        g = And(cond, Not(f))
        if g is False:
            return 'ok', '', 'simplifier'
        t = time.time()
        s = z3.Solver()
        s.set('timeout', tmo or self.tmo)
        g = zb(g)
        hy = [zb(h) for h in hyps]
        s.add(*self.relevant([g] + hy))
        s.add(*hy)
        s.add(g)
        try:
            r = s.check()
        except z3.Z3Exception as e:
            r = z3.unknown
        self.time += time.time() - t
        self.n += 1
        if r == z3.unsat:
            return 'ok', '', 'z3'
        if r == z3.sat:
            try:
                return 'refuted', model_text(s.model(), g), 'z3'
            except z3.Z3Exception:
                return 'refuted', '', 'z3'
        if final and self.cvc5:
            t = time.time()
            c = cvc5_check(s.to_smt2(), tmo or self.tmo)
            self.time += time.time() - t
            if c == 'unsat':
                return 'ok', '', 'cvc5'
            if c == 'sat':
                return 'refuted', 'cvc5: sat', 'cvc5'
        return 'unknown', str(s.reason_unknown()), 'z3'

    def houdini(self):
        ex = self.ex
        loops = [r for r in ex.loops if not r.suppressed]
        live = [(r, c) for r in loops for c in r.cands]
        if not live:
            self.hyps = []
            return
        # what may be used is what was established before: for the entry of a loop the invariants of enclosing and earlier loops,
        # for the preservation also its own and those of the loops within it; never those of later loops (that would be circular).
        # So each outermost loop, with the loops within it, is settled before the next one.
        loops.sort(key=lambda r: r.index)
        done = []
        memo = {}
        while loops:
            top = loops[0]
            group = [r for r in loops if r.index < max(top.end, top.index + 1)]
            loops = loops[len(group):]
            live = [(r, c) for r in group for c in r.cands]
            while True:
                keep = []
                for r, c in live:
                    eh = [(r2, c2) for r2, c2 in done + live if r2.index < r.index]
                    hyps = [(r2, c2) for r2, c2 in done + live if r2.index < r.end]
                    why = None
                    for k, (hy, bc, bf, tmo, final) in enumerate([(eh, r.entry.cond, c.entry, 4000, False)] + [(hyps, bc, bf, 6000, c.must) for bc, bf in c.backs]):
                        key = (id(c), k)
                        ids = tuple(id(x) for _, x in hy)
                        if memo.get(key) == ids:
                            continue
                        st, info, _ = self.valid([Implies(r2.hdr.cond, c2.hdr) for r2, c2 in hy], bc, bf, tmo, final)
                        if st != 'ok':
                            why = ('preservation' if k else 'entry', st, info)
                            break
                        memo[key] = ids
                    if why is None:
                        keep.append((r, c))
                    else:
                        self.drops.append((r, c, why))
                same = len(keep) == len(live)
                live = keep
                if same:
                    break
            done += live
        self.live = done
        self.hyps = [Implies(r.hdr.cond, c.hdr) for r, c in done]

    def run(self):
        out = []
        self.houdini()
        for r, c, why in self.drops:
            if c.must:
                out.append(Res('loop invariant: ' + c.name, 'inv', 'refuted' if why[1] == 'refuted' else 'unknown', 0, why[0] + ' ' + why[2], aux=True, fn=r.fn))
        for r, c in getattr(self, 'live', []):
            if c.must:
                out.append(Res('loop invariant: ' + c.name, 'inv', 'ok', 0, '', fn=r.fn))
        for o in self.ex.obls:
            t = time.time()
            st, info, be = self.valid(self.hyps, o.cond, o.f)
            out.append(Res(o.name, o.tag, st, time.time() - t, info, be, o.aux, self.ex.mod.dem.get(o.where, o.where)))
            if st == 'ok' and AUDIT:          # development aid: obligations nothing can ever put to the test
                c = zb(o.cond)
                f = zb(o.f)
                if z3.is_implies(f):
                    c = And(c, f.arg(0))
                out[-1].info = '' if self.reachable(c) else 'VACUOUS'
        return out

    def reachable(self, cond, hyps=True):
        """vacuity guard: some execution satisfies every assumption and reaches cond"""
        s = z3.Solver()
        s.set('timeout', self.tmo)
        s.add(*self.base)
        if hyps:
            s.add(*[zb(h) for h in self.hyps])
        s.add(zb(cond))
        r = s.check()
        return r != z3.unsat


def model_text(m, g, limit=40):
    out = []
    for d in m.decls():
        n = d.name()
        if len(out) >= limit:
            break
        try:
            v = str(m[d])
        except Exception:
            continue
        if len(v) < 200:
            out.append('%s = %s' % (n, v))
    return '; '.join(out)
