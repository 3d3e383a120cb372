"""Runs the units and the concrete companion of one property, decides the outcome, writes evidence and replay files."""
import os, sys, json, re, time, threading, shutil, traceback
from collections import Counter
from . import native, unit, front

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Prop:
    """units() -> list of Unit (built from /repo's current source); keep(res) selects the obligations that state this property;
    sections: [(harness key, section)] concrete companions; bounded: what those sections stand in for, permanently"""
    def __init__(self, id, units=None, sections=(), keep=None, assumptions=(), trusted=(), bounded=()):
        self.id, self.units, self.sections, self.keep = id, units, list(sections), keep
        self.forget = lambda: None
        self.assumptions, self.trusted, self.bounded = list(assumptions), list(trusted), list(bounded)


BASE_TRUST = [
    'clang 18 -O0 + mem2reg (for a unit whose proof fails on that form, a second time with simplifycfg, loop-rotate and jump-threading): the LLVM IR verified is what the compiler made of /repo\'s sources in this run (no hand-written text in between)',
    'dv symbolic executor / VC generator (/verif/dv/exec.py, core.py) and z3 / cvc5',
    'models of the C++ standard library at its interface (/verif/dv/lib.py): std::string as a value, std::vector / std::map as sequences and maps, allocation never fails',
    'signed machine integers treated as mathematical where no overflow obligation is generated; pointers to distinct allocations do not alias',
]


def known(pid):
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def run_sections(prop, tier, seed, harnesses, res, only=None):
    """concrete companions, grouped by harness build"""
    byk = {}
    for k, s in prop.sections:
        byk.setdefault(k, []).append(s)
    for k, ss in byk.items():
        try:
            h = harnesses[k]()
            exe, tmp = native.build(**h)
        except Exception as e:
            res['error'] = '%s: %s' % (k, str(e)[-1500:])
            continue
        try:
            for s in ss:
                res['sec'][s] = native.run(exe, tmp, s, tier, timeout=240 if tier == 'quick' else 1200, seed=seed)
        except Exception as e:
            res['error'] = '%s: %s' % (k, str(e)[-1500:])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def second_form(prop, rs, tier, t0):
    """units that fail are verified again on another form of the same code (dv/front.py ALT), which LLVM derives from the same sources"""
    bad = [i for i, r in enumerate(rs) if r.error or r.vacuous or any(x.status != 'ok' for x in r.res if prop.keep is None or x.aux or prop.keep(x))]
    if not bad or len(bad) > 60 or (tier == 'quick' and time.time() - t0 > 300):
        return []
    done = []
    old = front.PASSES[0]
    try:
        front.PASSES[0] = front.ALT
        prop.forget()
        names = {rs[i].name for i in bad}
        us = [u for u in prop.units() if u.name in names]
        two = {r.name: r for r in unit.run_units(us, total_tmo=120 if tier == 'quick' else 1500)}
        for i in bad:
            r = two.get(rs[i].name)
            if r and not r.error and not r.vacuous and r.res and all(x.status == 'ok' for x in r.res if prop.keep is None or x.aux or prop.keep(x)):
                rs[i] = r
                done.append(r.name)
    except Exception:
        if os.environ.get('DV_DEBUG'):
            traceback.print_exc()
    finally:
        front.PASSES[0] = old
        prop.forget()
    return done


def main(prop, harnesses, tier):
    t0 = time.time()
    pid = prop.id
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    nat = {'sec': {}, 'error': None}
    th = None
    rs, uerr, again = [], None, []
    if prop.units is not None:
        try:
            us = prop.units()
        except Exception as e:
            us, uerr = [], 'extraction: ' + str(e)[-1500:]
            if os.environ.get('DV_DEBUG'):
                traceback.print_exc()
        if tier == 'thorough':
            for u in us:
                u.solver_tmo *= 4
                u.tmo *= 4
        rs = unit.run_units(us, total_tmo=420 if tier == 'quick' else 3000)
        again = second_form(prop, rs, tier, t0)
    run_sections(prop, tier, seed, harnesses, nat)

    obl = disc = 0
    back = Counter()
    refuted, undecided, vac = [], [], []
    funcs, inl, contracts, lib = set(), set(), {}, {}
    solver_s = 0.0
    per_unit = []
    nq = loops = invs = 0
    for r in rs:
        keep = [x for x in r.res if prop.keep is None or x.aux or prop.keep(x)]
        if r.error:
            undecided.append((r.name, r.error))
        if r.vacuous:
            vac.append(r.name)
        obl += len(keep)
        for x in keep:
            if x.status == 'ok':
                disc += 1
                back[x.backend] += 1
            elif x.status == 'refuted':
                refuted.append((r.name, x))
            else:
                undecided.append((r.name, '%s: %s (%s)' % (x.name, x.status, x.info[:200])))
        funcs.update(r.funcs)
        inl.update(r.inlined)
        contracts.update({k: (v or '') for k, v in r.used_contracts.items()})
        lib.update(r.lib)
        solver_s += r.solver_s
        nq += r.queries
        loops += r.loops
        invs += r.invs
    if uerr:
        undecided.append(('extraction', uerr))
    fails = [(s, f) for s, v in nat['sec'].items() for f in v['fails']]
    kn = known(pid)
    new, seen = [], set()
    for s, f in fails:
        for rx, what in kn:
            if rx.search(f):
                seen.add(what)
                break
        else:
            new.append((s, f))
    newref = []
    for n, x in refuted:
        for rx, what in kn:
            if rx.search(n + ' | ' + x.name):
                seen.add(what)
                break
        else:
            newref.append((n, x))
    for w in sorted(seen):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    viol = bool(new or newref or (vac and not undecided))
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    os.makedirs(ROOT + '/replay', exist_ok=True)
    evals = sum(v['evals'] for v in nat['sec'].values())
    cov = dict(
        obligations=obl, discharged=disc,
        checker_cmd='python3-vt %s/check.py %s %s' % (ROOT, pid, tier),
        trusted_base=BASE_TRUST + prop.trusted + (['string/vector/map/stream operations used at their interface: ' + ', '.join(sorted(lib))[:6000]] if lib else []),
        units_proved_in_second_form=again, units=len(rs), units_proved=sum(1 for r in rs if r.ok()),
        functions_under_contract=sorted(funcs), functions_inlined=len(inl),
        contracts_used_at_call_sites={k: v for k, v in sorted(contracts.items())},
        back_ends=dict(back), solver_queries=nq, solver_seconds=round(solver_s, 2), loops=loops, loop_invariants_inferred=invs,
        undecided=['%s: %s' % (a, b[:300]) for a, b in undecided][:80],
        bounded_standins=prop.bounded + (['units above that the verifier left undecided: decided by the concrete companion only (bounded)'] if undecided else []),
        concrete_companion=dict(evaluations=evals, sections={s: dict(evaluations=v['evals'], ok=v['ok']) for s, v in nat['sec'].items()}, error=nat['error']),
        explanation='obligations of contracts on the real functions discharged one by one; the concrete companion executes the same contracts on the native (ASan) build: it supplies failing inputs and stands in, bounded, for what is listed under bounded_standins',
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=LEVEL.get(pid, 'proof'), coverage=cov, assumptions=prop.assumptions, wall_s=round(time.time() - t0, 2), violations=len(new) + len(newref))
    json.dump(ev, open('%s/evidence/%s.json' % (ROOT, pid), 'w'), indent=1)
    print('%s: %d units, %d/%d obligations discharged %s, %d undecided, companion %d evaluations%s, %.1f s' % (
        pid, len(rs), disc, obl, dict(back), len(undecided), evals, (' ERROR ' + nat['error'][:300]) if nat['error'] else '', time.time() - t0))
    for a, b in undecided[:10]:
        print('  undecided: %s: %s' % (a, b[:200]))
    if not viol:
        if not rs and not nat['sec']:
            print('nothing could be checked: %s %s' % (uerr, nat['error']))
            return 2
        if undecided and nat['error'] and not nat['sec']:
            print('proof incomplete and the bounded stand-in could not be built')
            return 2
        return 0
    rp = '%s/replay/%s.json' % (ROOT, pid)
    json.dump(dict(
        property=pid, seed=seed, tier=tier,
        failed_obligations=[dict(unit=n, obligation=x.name, status=x.status, backend=x.backend, verifier_output=x.info[:4000]) for n, x in newref[:40]],
        vacuous_units=vac,
        failing_inputs=[dict(section=s, what=f[:6000]) for s, f in new[:40]],
        rerun='VERIF_SEED=%d VERIF_TIER=%s python3-vt %s/check.py %s %s   (the concrete companion replays the failing inputs on the native build)' % (seed, tier, ROOT, pid, tier),
    ), open(rp, 'w'), indent=1)
    for n, x in newref[:8]:
        print('  failed obligation: %s | %s' % (n, x.name))
    for n in vac[:5]:
        print('  contract never returns: %s' % n)
    for s, f in new[:5]:
        print('  failing input: %s' % f[:400])
    print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if new else ' no-failing-input-found'))
    return 1


LEVEL = {}
