"""Runs the check of one property: proofs (symbolic harnesses), run-time contracts on random inputs, end-to-end sweeps.

usage: python -m sv.run C19 [quick|thorough]      python -m sv.run --replay FILE
"""
from . import env
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

warnings.filterwarnings('ignore')

EVID = os.path.join(env.VERIF, 'evidence')
KNOWN = os.path.join(env.VERIF, 'KNOWN_FINDINGS')


class Proof:
    """One contract harness.

    kind: 'proof'   - unbounded: every obligation over all inputs (and all iterations, by invariants)
          'bounded' - a fixed number of list elements / fixed shape, all scalars symbolic
    """

    def __init__(self, name, fn, funcs, kind='proof', bound='', stubs=(), secs=25, rnd=300, loops=None, modules=(),
                 thorough=None, abstract=False, **eng):
        self.abstract = abstract      # the symbolic run uses contracts in place of code: counter-models need not replay
        self.name, self.fn, self.funcs, self.kind, self.bound = name, fn, list(funcs), kind, bound
        self.stubs, self.secs, self.rnd, self.loops, self.modules = stubs, secs, rnd, loops, modules
        self.eng = eng
        self.thorough = thorough


class Sweep:
    """fn(seed:int, tier) -> Case; seeds are derived from VERIF_SEED and the case number."""

    def __init__(self, name, fn, quick=100, thorough=1500, secs=30, rule='', case_cpu=60, fixed=()):
        self.name, self.fn, self.quick, self.thorough, self.secs, self.rule = name, fn, quick, thorough, secs, rule
        self.case_cpu = case_cpu
        self.fixed = fixed        # list of explicit seeds always run


class Case:
    def __init__(self, violations=(), nontrivial=True, digest=None, sample=None):
        self.violations = list(violations)      # (tag, message)
        self.nontrivial = nontrivial
        self.digest = digest
        self.sample = sample


class Check:
    def __init__(self, pid, level, proofs=(), sweeps=(), assumptions=(), trusted=(), explanation=''):
        self.pid, self.level = pid, level
        self.proofs, self.sweeps = list(proofs), list(sweeps)
        self.assumptions, self.trusted, self.explanation = list(assumptions), list(trusted), explanation


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def case_seed(base, name, i):
    h = hashlib.sha256(f'{base}/{name}/{i}'.encode()).hexdigest()
    return int(h[:12], 16)


def run_case(sw, seed, tier):
    """-> (Case | None, note)"""
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, sw.case_cpu)
    try:
        return sw.fn(seed, tier), None
    except CaseTimeout:
        return Case([('hang', f'no result after {sw.case_cpu} s of CPU time')]), None
    except Exception as ex:
        kind, where = env.classify(ex)
        msg = f'{type(ex).__name__}: {str(ex)[:300]} at {where}'
        if kind == 'repo':
            return Case([('exception', msg)]), None
        return None, 'harness: ' + msg + ' | ' + ''.join(traceback.format_tb(ex.__traceback__)[-2:])[-400:]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


# ---- tasks executed in worker processes -----------------------------------------------------------------

_CHECK = None


def _task(t):
    kind = t[0]
    try:
        if kind == 'proof':
            return kind, t, _task_proof(*t[1:])
        if kind == 'random':
            return kind, t, _task_random(*t[1:])
        return kind, t, _task_sweep(*t[1:])
    except CaseTimeout:
        return kind, t, {'error': 'timeout'}
    except BaseException as ex:            # never let a worker die silently
        return kind, t, {'error': f'{type(ex).__name__}: {ex}', 'tb': traceback.format_exc()[-800:]}


def _task_proof(idx, tier):
    from . import pyvc, loops
    p = _CHECK.proofs[idx]
    for f in p.funcs:         # builtins are replaced in the modules loaded by then
        try:
            importlib.import_module(f.split(':')[0].removesuffix('.py').replace('/', '.'))
        except Exception:
            pass
    e = dict(p.eng)
    secs = p.secs * (6 if tier == 'thorough' else 1)
    def attempt():
        eng = pyvc.Engine(p.name, secs=secs, **e)
        with loops.installed(p.loops or []) as st:
            res = eng.run(p.fn, p.stubs)
            if st.problems:
                res.unsupported += st.problems
            for l in p.loops or []:
                if l.key not in st.iterated and not l.may_not_iterate:
                    res.unsupported.append(f'no iteration of loop {loops.short(l.key)} was followed')
        return res
    loops.DROP.clear()
    res = first = attempt()
    for _ in range(5):
        lost = {loops.NAMES[o.label] for o in res.refuted if o.label in loops.NAMES}
        if not lost:
            break
        loops.DROP |= lost
        res = attempt()
    if loops.DROP and not res.proved and not res.refuted:
        res = first               # the weaker invariants decide nothing: the first answer stands
        loops.DROP.clear()
    out = res.summary()
    out['dropped_invariants'] = sorted(f'{a}: {b}' for a, b in loops.DROP)
    out['proved'] = res.proved
    out['abstract'] = bool(p.loops) or p.abstract
    out['refuted'] = [dict(label=o.label, model=o.model, detail=o.detail) for o in res.refuted]
    out['unknown'] = [dict(label=o.label, detail=o.detail) for o in res.unknown]
    # replay counter-models on the untouched code
    fails = []
    for o in res.refuted:
        if o.model is None:
            continue
        r = pyvc.replay(p.fn, o.model)
        if r is not None:
            fails.append(dict(label=r[0], msg=r[1], inputs=o.model, obligation=o.label))
    out['replayed'] = fails
    return out


def _task_random(idx, tier, base, shard, n, secs):
    from . import pyvc
    p = _CHECK.proofs[idx]
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, secs * 2 + 60)
    try:
        ev, sk, labels, fail = pyvc.random_run(p.fn, f'{base}/{p.name}/{shard}', n, secs)
    except CaseTimeout:
        return dict(name=p.name, ev=0, sk=0, labels={}, fail=('hang', 'no result (CPU time limit)', {}, 0))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return dict(name=p.name, ev=ev, sk=sk, labels=labels, fail=fail)


def _task_sweep(idx, tier, base, lo, hi, deadline):
    sw = _CHECK.sweeps[idx]
    ev = nt = 0
    digs, viol, notes, samples = set(), [], [], []
    known, seen = {k for k, _ in known_findings(_CHECK.pid)}, set()
    for i in range(lo, hi):
        if time.time() > deadline:
            break
        seed = sw.fixed[i] if i < len(sw.fixed) else case_seed(base, sw.name, i)
        c, note = run_case(sw, seed, tier)
        if note:
            notes.append(note)
            if len(notes) > 5:
                break
            continue
        ev += 1
        if c.nontrivial:
            nt += 1
            digs.add(c.digest if c.digest is not None else seed)
        if c.sample and len(samples) < 2:
            samples.append(c.sample)
        for tag, msg in c.violations:
            if f'{sw.name}/{tag}' in known:
                if tag in seen:
                    continue
                seen.add(tag)
            viol.append(dict(sweep=sw.name, seed=seed, tag=tag, msg=str(msg)[:600]))
        if len(viol) - len(seen) >= 3:
            break
    return dict(name=sw.name, ev=ev, nt=nt, digs=sorted(map(str, digs)), viol=viol, notes=notes[:3], samples=samples)


# ---- known findings --------------------------------------------------------------------------------------

def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('KNOWN-FINDING:') and f'property={pid} ' in line:
                # KNOWN-FINDING: property=C05 key=<sweep>/<tag> <what fails>
                rest = line.split(f'property={pid} ', 1)[1]
                key, what = rest.split(' ', 1)
                out.append((key.removeprefix('key='), what))
    return out


# ---- main ------------------------------------------------------------------------------------------------

def load(pid):
    try:
        import sampo.scheduler  # noqa: F401  (other import orders run into circular imports)
    except Exception:
        pass
    return importlib.import_module(f'checks.{pid.lower()}').CHECK


def main(argv):
    global _CHECK
    if argv and argv[0] == '--replay':
        return replay_file(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        base = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        base = 1
    t0 = time.time()
    chk = load(pid)
    _CHECK = chk
    only = os.environ.get('SV_ONLY')
    budget = float(os.environ.get('SV_BUDGET', '120' if tier == 'quick' else '700'))
    mult = 1 if tier == 'quick' else 12

    tasks = []
    if tier == 'quick':
        chk.proofs = [p for p in chk.proofs if p.thorough != 'only']
    if os.environ.get('SV_KIND'):
        chk.proofs, chk.sweeps = [p for p in chk.proofs if p.kind == os.environ['SV_KIND']], []
    for i, p in enumerate(chk.proofs):
        if only and only not in p.name:
            continue
        tasks.append(('proof', i, tier))
    for i, p in enumerate(chk.proofs):
        if only and only not in p.name:
            continue
        n = p.rnd * mult
        if n:
            shards = 1 if tier == 'quick' else 4
            for s in range(shards):
                tasks.append(('random', i, tier, base, s, n // shards, 6 if tier == 'quick' else 60))
    for i, s in enumerate(chk.sweeps):
        if only and only not in s.name:
            continue
        n = s.quick if tier == 'quick' else s.thorough
        shards = min(8 if tier == 'quick' else 24, max(1, n // 4))
        dl = time.time() + budget
        for k in range(shards):
            tasks.append(('sweep', i, tier, base, k * n // shards, (k + 1) * n // shards, dl))
    # longest first: proofs, then sweeps interleaved
    procs = int(os.environ.get('SV_PROCS', '8'))
    results = []
    ctx = mp.get_context('fork')
    if procs == 1:
        results = [_task(t) for t in tasks]
    else:
        with ctx.Pool(procs, maxtasksperchild=40) as pool:
            its = [pool.apply_async(_task, (t,)) for t in tasks]
            hard = t0 + (300 if tier == 'quick' else 840)
            for t, it in zip(tasks, its):
                try:
                    results.append(it.get(timeout=max(1, hard - time.time())))
                except mp.TimeoutError:
                    results.append((t[0], t, {'error': 'hard time limit of the check'}))
            pool.terminate()
    return finish(chk, tier, base, results, t0)


def finish(chk, tier, base, results, t0):
    pid = chk.pid
    viol, notes, proofs, rnds, sweeps = [], [], [], {}, {}
    for kind, t, out in results:
        if 'error' in out:
            notes.append(f'{kind} {t[1:4]}: {out["error"]} {out.get("tb", "")}')
            if os.environ.get('SV_DEBUG'):
                print('ERROR', kind, t, out['error'], out.get('tb'), file=sys.stderr)
            continue
        if kind == 'proof':
            p = chk.proofs[t[1]]
            out['kind'], out['bound'], out['funcs'] = p.kind, p.bound, p.funcs
            proofs.append(out)
            for f in out['replayed']:
                viol.append(dict(kind='proof', harness=p.name, tag=f['label'], msg=f['msg'], inputs=f['inputs'],
                                 obligation=f['obligation'], key=f'{p.name}/{f["label"]}'))
        elif kind == 'random':
            p = chk.proofs[t[1]]
            d = rnds.setdefault(p.name, dict(ev=0, sk=0, labels={}))
            d['ev'] += out['ev']
            d['sk'] += out['sk']
            for k, v in out['labels'].items():
                d['labels'][k] = d['labels'].get(k, 0) + v
            if out['fail']:
                label, msg, drawn, i = out['fail']
                viol.append(dict(kind='random', harness=p.name, tag=label, msg=msg, inputs=drawn,
                                 key=f'{p.name}/{label}'))
        else:
            s = chk.sweeps[t[1]]
            d = sweeps.setdefault(s.name, dict(ev=0, nt=0, digs=set(), notes=[], samples=[], rule=s.rule))
            d['ev'] += out['ev']
            d['nt'] += out['nt']
            d['digs'].update(out['digs'])
            d['notes'] += out['notes']
            d['samples'] += out['samples']
            for v in out['viol']:
                v.update(kind='sweep', key=f'{s.name}/{v["tag"]}')
                viol.append(v)
    # refuted obligations without a concrete failing input
    concrete = bool(viol)
    for out in proofs:
        real = [o for o in out['refuted'] if o['label'] != 'no-exception'] if out.get('abstract') else []
        if out['refuted'] and not real and not out['replayed']:
            # the counter-model does not fail on the real code: the symbolic run was imprecise, nothing is decided
            out['unsupported'].append(f'counter-model of "{out["refuted"][0]["label"]}" does not replay: '
                                      f'{out["refuted"][0]["detail"]}'[:200])
            out['proved'] = False
        if real and not out['replayed'] and not concrete:
            o = real[0]
            viol.append(dict(kind='obligation', harness=out['harness'], tag=o['label'],
                             msg=f'obligation refuted by the solver: {o["label"]} {o["detail"]}', inputs=o['model'],
                             key=f'{out["harness"]}/{o["label"]}', noinput=True))
    known = known_findings(pid)
    kkeys = {k for k, _ in known}
    new = [v for v in viol if v['key'] not in kkeys]
    # evidence
    unb = [p for p in proofs if p['kind'] == 'proof']
    bnd = [p for p in proofs if p['kind'] != 'proof']
    n_obl = sum(p['obligations'] for p in unb)
    n_dis = sum(p['discharged'] for p in unb)
    evals = sum(d['ev'] for d in sweeps.values()) + sum(d['ev'] for d in rnds.values())
    nontriv = sum(len(d['digs']) for d in sweeps.values()) + sum(d['ev'] for d in rnds.values())
    samples = [s for d in sweeps.values() for s in d['samples'][:1]][:4]
    if not samples:
        samples = [dict(harness=p['harness'], labels=p['labels']) for p in proofs[:2]]
    cov = dict(
        obligations=n_obl, discharged=n_dis,
        checker_cmd=f'/opt/venv/bin/python -m sv.run {pid} {tier}   (z3 {_z3v()}, cvc5 1.1.2 second)',
        trusted_base=['pyvc engine (sv/pyvc.py, sv/loops.py): CPython executes the code of /repo on symbolic proxies',
                      'z3 5.3 (pip), cvc5 1.1.2', 'CPython 3.12, numpy, sortedcontainers as shipped'] + chk.trusted,
        evaluations=evals, distinct_nontrivial=nontriv,
        rule='; '.join(f'{k}: {d["rule"]}' for k, d in sweeps.items()) or 'run-time contract evaluations on random inputs',
        samples=samples,
        functions_under_contract=sorted({f for p in proofs for f in p['funcs']}),
        unbounded_harnesses=unb, bounded_harnesses=bnd,
        bounded_obligations=sum(p['obligations'] for p in bnd),
        bounded_discharged=sum(p['discharged'] for p in bnd),
        backends=sorted({b for p in proofs for b in p['backends']}),
        solver_ms=sum(p['solver_ms'] for p in proofs),
        runtime_contracts={k: dict(evaluated=d['ev'], outside_precondition=d['sk'], labels=d['labels']) for k, d in rnds.items()},
        sweeps={k: dict(evaluations=d['ev'], nontrivial=d['nt'], distinct=len(d['digs']), rule=d['rule'],
                        notes=d['notes'][:3]) for k, d in sweeps.items()},
        undecided=[dict(harness=p['harness'], unsupported=p['unsupported'], unknown=p['unknown'][:3])
                   for p in proofs if not p['proved']],
        explanation=chk.explanation or 'contracts over the real functions; see DESIGN.md',
    )
    if notes:
        cov['notes'] = notes[:10]
    ev = dict(property=pid, tier=tier, seed=base, level=chk.level, coverage=cov, assumptions=chk.assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f'.{pid}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, f'{pid}.json'))

    for k, what in known:
        print(f'KNOWN-FINDING: property={pid} key={k} {what}')
    for p in proofs:
        st = 'proved' if p['proved'] else ('REFUTED' if p['refuted'] and (p['abstract'] or p['replayed']) else 'undecided')
        print(f'  {p["harness"]}: {st} {p["discharged"]}/{p["obligations"]} obligations, {p["paths"]} paths, {p["seconds"]} s'
              f' [{p["kind"]}{": " + p["bound"] if p["bound"] else ""}]' + (f' {p["unsupported"][:2]}' if p['unsupported'] else ''))
    for k, d in sweeps.items():
        print(f'  sweep {k}: {d["ev"]} cases, {len(d["digs"])} distinct non-trivial' + (f' NOTES {d["notes"][:1]}' if d['notes'] else ''))
    for n in notes[:4]:
        print('  note:', n)
    print(f'{pid} {tier}: obligations {n_dis}/{n_obl} (unbounded), {cov["bounded_discharged"]}/{cov["bounded_obligations"]} '
          f'(bounded), {evals} evaluations, {ev["wall_s"]} s')
    if new:
        rp = os.path.join(EVID, 'replay')
        os.makedirs(rp, exist_ok=True)
        # concrete ones first
        new.sort(key=lambda v: bool(v.get('noinput')))
        seen = set()
        for n, v in enumerate(new):
            if v['key'] in seen:
                continue
            seen.add(v['key'])
            if len(seen) > 3:
                break
            path = os.path.join(rp, f'{pid}-{len(seen)}.json')
            v = dict(v, property=pid, tier=tier, seed_base=base,
                     how=f'cd /verif && /opt/venv/bin/python -W ignore -m sv.run --replay {path}')
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print(f'  {v["key"]}: {v["msg"][:300]}')
            print(f'VIOLATION property={pid} replay={path}' + (' no-failing-input-found' if v.get('noinput') else ''))
        return 1
    if not proofs and not evals:
        print('nothing was decided')
        return 3
    if sum(p['obligations'] for p in proofs) + evals == 0:
        print('nothing was decided: no obligation and no evaluation')
        return 3
    return 0


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


def replay_file(path):
    v = json.load(open(path))
    chk = load(v['property'])
    from . import pyvc
    if v['kind'] == 'sweep':
        for s in chk.sweeps:
            if s.name == v['sweep']:
                c, note = run_case(s, v['seed'], v['tier'])
                print(note or c.violations)
                return 1 if c and c.violations else 0
    for p in chk.proofs:
        if p.name == v['harness']:
            r = pyvc.replay(p.fn, v['inputs'])
            print(v['inputs'], '->', r)
            return 1 if r else 0
    return 2


if __name__ == '__main__':
    code = 3
    try:
        code = main(sys.argv[1:])
    except BaseException:
        traceback.print_exc()
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)
