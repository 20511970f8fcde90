"""Repeated scheduling of the same objects: what is compared, and the command that schedules in a fresh process."""
from . import env
import json
import os
import subprocess
import sys

DEFAULT_SPEC = "contractors=set(), assigned_workers={}, assigned_time=None, is_independent=False"
NAMES = ('heft', 'heftb', 'lft', 'rlft', 'topo', 'rtopo', 'heft-avg', 'heft-full', 'heft-mom', 'heftb-jit', 'pipe', 'pipe-heftb',
         'abs')


def _val(x):
    return sorted(map(repr, x)) if isinstance(x, (set, frozenset)) else repr(x)


def _edges(es):
    return [(e.start.id, e.finish.id, repr(e.lag), str(e.type)) for e in es]


def snapshot(scn):
    """everything a caller can see in the inputs"""
    out = {}
    for v in scn.wg.nodes:
        wu = v.work_unit
        out['node', v.id] = (sorted((k, _val(x)) for k, x in vars(wu).items()
                                    if k not in ('worker_reqs', 'equipment_reqs', 'object_reqs', 'material_reqs', 'zone_reqs')),
                             [[repr(sorted((k, _val(y)) for k, y in vars(q).items())) for q in getattr(wu, a)]
                              for a in ('worker_reqs', 'equipment_reqs', 'object_reqs', 'material_reqs', 'zone_reqs')],
                             _edges(v.edges_to), _edges(v.edges_from))
    out['graph'] = ([v.id for v in scn.wg.nodes], scn.wg.start.id, scn.wg.finish.id)
    for c in scn.contractors:
        out['contractor', c.id] = (c.id, c.name, [(k, sorted((a, _val(x)) for a, x in vars(w).items())) for k, w in c.workers.items()],
                                   [(k, sorted((a, _val(x)) for a, x in vars(w).items())) for k, w in c.equipments.items()])
    out['contractors'] = [c.id for c in scn.contractors]
    for k, ws in scn.spec._work2spec.items():
        t = (sorted(ws.contractors), sorted(ws.assigned_workers.items()), repr(ws.assigned_time), bool(ws.is_independent))
        if t != ([], [], 'None', False):      # reading a default entry creates it
            out['spec', k] = t
    return out


def changed(a, b):
    for k in list(a) + [k for k in b if k not in a]:
        if a.get(k) != b.get(k):
            return f'{k}: {a.get(k)} became {b.get(k)}'
    return None


def result(s):
    """works, times and teams (a work without workers has no team)"""
    return sorted([w.id, str(w.start_time), str(w.finish_time), str(w.contractor_id) if w.workers else '',
                   sorted([x.name, str(x.count), str(x.contractor_id)] for x in w.workers)] for w in s.works)


def mk(seed, pipeline=False):
    import random
    from .scen import scenario
    r = random.Random(seed * 7 + 1)
    wg = {} if pipeline else r.choice([{}, {}, dict(p_prio=.5), dict(n=9, kinds=2, p_edge=.08, p_ins=.3)])
    return scenario(seed, wg=wg, spec=dict(p_contr=.4, p_workers=.3, p_time=.2, p_indep=.2, p_partial=.4),
                    contractors=dict(m=r.choice([1, 2, 3]), slack=r.choice([0, 2, 4])), start='rand')


def attempt(scn, name, seed):
    from . import sched
    from sampo.schemas.exceptions import NoSufficientContractorError
    try:
        return result(sched.run(scn, name, seed % 1000))
    except NoSufficientContractorError:
        return 'refused'
    except AttributeError:
        if name == 'abs':
            return 'refused'
        raise


def seeds_of(batch, n=5):
    return [batch * 1009 + i for i in range(n)]


def names_of(seed):
    import random
    return random.Random(seed).sample(NAMES, 4) + (['ga-par', 'ga-ser'][seed % 2:][:1] if seed % 5 == 0 else [])


def batch(b):
    import contextlib
    out = []
    with contextlib.redirect_stdout(sys.stderr):
        for seed in seeds_of(b):
            for name in names_of(seed):
                out.append([seed, name, attempt(mk(seed, name.startswith('pipe')), name, seed)])
    return out


def fresh(b, hash_seed, timeout=180):
    """schedule a batch in a new process with the given seed of string hashing"""
    e = dict(os.environ, PYTHONHASHSEED=str(hash_seed), PYTHONDONTWRITEBYTECODE='1',
             PYTHONPATH=os.pathsep.join([env.VERIF, str(env.REPO)]))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'sv.repeat', str(b)], env=e, capture_output=True, text=True,
                       timeout=timeout, cwd=env.VERIF)
    line = [x for x in p.stdout.splitlines() if x.startswith('RESULT ')]
    if not line:
        raise RuntimeError('the process scheduling a batch ended without a result: ' + p.stderr[-400:])
    return json.loads(line[-1][7:])


if __name__ == '__main__':
    print('RESULT ' + json.dumps(batch(int(sys.argv[1]))))
