"""Verification units: one contract of one function (or one lemma over contracts).  Units run in forked workers."""
import os, sys, time, pickle, traceback, signal, select, resource
import z3
from .core import Unsupported, State, root
from . import solve, exec as X


class Unit:
    def __init__(self, name, fn, funcs=(), tmo=120, solver_tmo=15000):
        """fn() -> list of Exec (already executed, with obligations); funcs: real functions under contract"""
        self.name, self.fn, self.funcs, self.tmo, self.solver_tmo = name, fn, list(funcs), tmo, solver_tmo


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.res = []
        self.error = None          # Unsupported / internal error text
        self.funcs = []
        self.inlined = []
        self.used_contracts = {}
        self.lib = {}
        self.solver_s = 0.0
        self.queries = 0
        self.wall = 0.0
        self.loops = 0
        self.invs = 0
        self.vacuous = False
        self.closed_world = False

    def ok(self):
        return self.error is None and not self.vacuous and all(r.status == 'ok' for r in self.res) and self.res

    def failed(self):
        return [r for r in self.res if r.status != 'ok']


def run_one(u):
    r = UnitResult(u.name)
    t = time.time()
    try:
        exs = u.fn()
        if not isinstance(exs, (list, tuple)):
            exs = [exs]
        r.funcs = list(u.funcs)
        for ex in exs:
            s = solve.Solver(ex, u.solver_tmo)
            r.res += s.run()
            r.solver_s += s.time
            r.queries += s.n
            r.inlined += [ex.mod.dem.get(f, f) for f in ex.inlined]
            r.used_contracts.update(ex.used_contracts)
            r.lib.update(ex.lib.used)
            r.loops += len([l for l in ex.loops if not l.suppressed])
            r.invs += len(getattr(s, 'live', []))
            r.funcs += getattr(ex, 'under_contract', [])
            if hasattr(ex, 'axiom_note'):
                r.closed_world = True
            for c in getattr(ex, 'covers', []):
                if not s.reachable(c):
                    r.vacuous = True
            for l in ex.loops:      # no loop may be shown unreachable by the invariants alone
                if not l.suppressed and l.cands and not getattr(ex, 'dead_loops', False) and not s.reachable(l.hdr.cond) and s.reachable(l.hdr.cond, False):
                    r.vacuous = True
        if not r.res and r.error is None:
            r.error = 'no obligations generated'
    except Unsupported as e:
        r.error = 'unsupported: %s' % e
    except RecursionError:
        r.error = 'unsupported: recursion limit'
    except Exception as e:
        r.error = 'internal: ' + ''.join(traceback.format_exception_only(type(e), e)).strip() + ' @ ' + '|'.join(x.strip().split('\n')[0] for x in traceback.format_tb(e.__traceback__)[-3:])
        if os.environ.get('DV_DEBUG'):
            traceback.print_exc()
    r.wall = time.time() - t
    return r


def run_units(units, jobs=None, total_tmo=600):
    """fork-parallel; results in order"""
    jobs = jobs or int(os.environ.get('DV_JOBS', '8'))
    out = [None] * len(units)
    # static round robin with work stealing through small batches
    pend = list(range(len(units)))
    running = {}
    start = time.time()
    batch = max(1, min(12, len(units) // (jobs * 4) or 1))
    while pend or running:
        while pend and len(running) < jobs:
            idx = pend[:batch]
            del pend[:batch]
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
                except Exception:
                    pass
                with os.fdopen(wfd, 'wb') as w:
                    for i in idx:
                        rr = run_one(units[i])
                        b = pickle.dumps((i, rr))
                        w.write(len(b).to_bytes(8, 'big') + b)
                        w.flush()
                os._exit(0)
            os.close(wfd)
            running[rfd] = [pid, idx, b'', time.time(), sum(units[i].tmo for i in idx)]
        rl, _, _ = select.select(list(running), [], [], 1.0)
        for fd in rl:
            d = os.read(fd, 1 << 20)
            e = running[fd]
            if d:
                e[2] += d
                while len(e[2]) >= 8:
                    n = int.from_bytes(e[2][:8], 'big')
                    if len(e[2]) < 8 + n:
                        break
                    i, rr = pickle.loads(e[2][8:8+n])
                    out[i] = rr
                    e[2] = e[2][8+n:]
            else:
                os.close(fd)
                os.waitpid(e[0], 0)
                del running[fd]
                for i in e[1]:
                    if out[i] is None:
                        out[i] = UnitResult(units[i].name)
                        out[i].error = 'worker died'
        now = time.time()
        for fd, e in list(running.items()):
            if now - e[3] > e[4] or now - start > total_tmo:
                os.kill(e[0], signal.SIGKILL)
                os.waitpid(e[0], 0)
                os.close(fd)
                del running[fd]
                first = True
                for i in e[1]:
                    if out[i] is None:
                        if first or now - start > total_tmo:
                            out[i] = UnitResult(units[i].name)
                            out[i].error = 'timeout'
                            first = False
                        else:
                            pend.append(i)
        if now - start > total_tmo:
            for i in pend:
                out[i] = UnitResult(units[i].name)
                out[i].error = 'timeout'
            pend = []
    return out
