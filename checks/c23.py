"""C23 repeatable scheduling that leaves its inputs untouched"""
from sv import e2e, pool_any, repeat, sched
from sv.pyvc import And, time_stub_exact
from sv.run import Case, Check, Proof, Sweep

X = (time_stub_exact,)
CAP = 10 ** 6


def pool(m, k):
    """the pool that schedulers change consists of copies of the workers of the contractors"""
    def h(H):
        from sampo.schemas.contractor import Contractor
        from sampo.schemas.resources import Worker
        from sampo.scheduler.utils import get_worker_contractor_pool
        names = ['a', 'b', 'c'][:k]
        cnt, has, cs = {}, {}, []
        for c in range(m):
            has[c] = H.pick(f'kinds{c}', [tuple(names[:j]) for j in range(k + 1)] + ([tuple(names[1:])] if k > 1 else []))
            ws = {}
            for n in has[c]:
                cnt[c, n] = H.int(f'count{c}{n}', 0, CAP, rhi=9)
                ws[n] = Worker(f'{c}{n}', n, cnt[c, n], contractor_id=f'c{c}', cost_one_unit=H.int(f'cost{c}{n}', 0, CAP))
            cs.append(Contractor(f'c{c}', f'c{c}', ws, {}))
        before = {(c, n): dict(vars(cs[c].workers[n])) for c, n in cnt}
        p = get_worker_contractor_pool(cs)
        H.check({(n, c) for n in p for c in p[n]} == {(n, f'c{c}') for c, n in cnt}, 'the pool has every worker of every contractor')
        for c, n in cnt:
            w = p[n][f'c{c}']
            H.check(w is not cs[c].workers[n], 'the pool holds copies')
            H.check(And(w.count == cnt[c, n], w.name == n, w.contractor_id == f'c{c}', w.id == f'{c}{n}',
                        w.cost_one_unit == before[c, n]['cost_one_unit']), 'a copy equals the worker of the contractor')
            w.count = H.int(f'other{c}{n}', 0, CAP)
            w.contractor_id = 'other'
        for c, n in cnt:
            w = cs[c].workers[n]
            H.check(And(w.count == cnt[c, n], w.contractor_id == f'c{c}', w.cost_one_unit == before[c, n]['cost_one_unit']),
                    'changing the pool leaves the contractors as they were')
        H.check(And(*[set(cs[c].workers) == set(has[c]) for c in range(m)]), 'the contractors keep their kinds of workers')
    return h


def twice(tl, shape):
    """the same objects scheduled twice give the same schedule (the callees are functions of their arguments)"""
    n, edges = e2e.SHAPES[shape]

    class Optimizer:
        """a deterministic optimizer: its answer is a function of the limits it is given"""
        def __init__(self, H):
            self.H, self.seen = H, {}

        def optimize_resources(self, worker_pool, worker_team, optimize_array, down_border, up_border, get_finish_time):
            for j, w in enumerate(worker_team):
                if optimize_array is None or optimize_array[j]:
                    w.count = up_border[j] if self.H.flip else down_border[j]
            return worker_team

    def h(H):
        P = e2e.project(H, n, edges)
        H.flip = H.pick('largest teams', [False, True])
        old, e2e.Optimizer = e2e.Optimizer, Optimizer
        try:
            a = e2e.build(H, P, tl)
            calls = None if a is None else dict(P.est.calls)
            est = e2e.Estimator
            if calls is not None:
                class Same(est):
                    def __init__(self, H, fixed=None):
                        super().__init__(H, fixed)
                        self.calls = dict(calls)
                e2e.Estimator = Same
            try:
                b = e2e.build(H, P, tl) if a is not None else None
            finally:
                e2e.Estimator = est
        finally:
            e2e.Optimizer = old
        H.assume(a is not None)
        H.check(b is not None, 'the second call schedules as well')
        if b is None:
            return
        H.check(set(a) == set(b), 'the same works')
        for k in a:
            H.check(And(e2e.s_(a[k]) == e2e.s_(b[k]), e2e.f_(a[k]) == e2e.f_(b[k])), 'the same times')
            x, y = ({w.name: w for w in d[k].workers} for d in (a, b))
            H.check(set(x) == set(y) and (not x or a[k].contractor_id == b[k].contractor_id), 'the same teams')
            H.check(And(*[And(x[q].count == y[q].count, x[q].contractor_id == y[q].contractor_id) for q in x if q in y]),
                    'the same teams')
    return h


def history(names):
    """a history of schedule calls on the same objects"""
    def fn(seed, tier):
        import random
        r = random.Random(seed)
        out, seen, calls = [], {}, []
        scn = repeat.mk(seed, any(n.startswith('pipe') for n in names))
        base = repeat.snapshot(scn)
        some = r.sample(list(names), min(3, len(names)))
        todo = [n for n in some for _ in range(2)]
        r.shuffle(todo)
        for name in todo:
            calls.append(name)
            res = repeat.attempt(scn, name, seed)
            now = repeat.snapshot(scn)
            bad = repeat.changed(base, now)
            if bad:
                out.append(('changed', f'{name} changed its inputs: {bad}'))
                base = now
            if name in seen and seen[name] != res:
                d = 'refused once' if 'refused' in (res, seen[name]) else next(
                    (f'{x} and {y}' for x, y in zip(seen[name], res) if x != y), 'different works')
                out.append(('differs', f'{name} gives another schedule after {calls}: {d}'))
            seen.setdefault(name, res)
        return Case(out, any(x != 'refused' and len(x) > 4 for x in seen.values()), str(seed), dict(seed=seed, calls=calls))
    return fn


def reused(seed, tier):
    """one scheduler object used for several projects gives what a new object gives"""
    import contextlib
    import io
    import random
    from sampo.schemas.exceptions import NoSufficientContractorError
    from sampo.schemas.time import Time
    r = random.Random(seed)
    name = r.choice(('lft', 'heft', 'heftb', 'topo', 'lft', 'heft-avg', 'heft-mom', 'heftb-jit'))
    scns = [repeat.mk(seed), repeat.mk(seed + 7)]
    obj, out, ran = sched.make(name), [], 0
    fresh = [repeat.attempt(scn, name, seed) for scn in scns]
    for i in r.choice(([0, 0], [0, 1, 0], [1, 0, 0, 1])):
        scn = scns[i]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                res = repeat.result(obj.schedule(scn.wg, scn.contractors, scn.spec, start_time=Time(scn.start))[0])
            ran += len(res) > 4
        except NoSufficientContractorError:
            res = 'refused'
        if res != fresh[i]:
            d = 'refused once' if 'refused' in (res, fresh[i]) else next(f'{x} and {y}' for x, y in zip(fresh[i], res) if x != y)
            out.append(('memory', f'a {name} scheduler that was used before gives another schedule: {d}'))
    return Case(out, ran >= 2, str(seed), dict(seed=seed, scheduler=name))


def processes(seed, tier):
    """the same inputs in processes that differ in the hashing of strings"""
    b = seed % 100000
    one, two = repeat.fresh(b, 1 + seed % 50), repeat.fresh(b, 60 + seed % 41)
    out = []
    for x, y in zip(one, two):
        if x != y:
            d = next((f'{p} and {q}' for p, q in zip(x[2], y[2]) if p != q), 'different works') if 'refused' not in (x[2], y[2]) \
                else 'refused in one process only'
            out.append(('process', f'{x[1]} gives another schedule of scenario {x[0]} in another process: {d}'))
    return Case(out, len(one) == len(two) > 0, str(b), dict(batch=b, runs=[x[:2] for x in one]))


G, S, R = 'sampo/scheduler/utils/__init__.py:', 'sampo/schemas/', 'sampo/schemas/resources.py:Worker.copy'
PROOFS = pool_any.proofs() + [Proof(f'pool of copies/{m} contractors {k} kinds', pool(m, k), [G + 'get_worker_contractor_pool', R], kind='bounded',
                bound=f'{m} contractors with up to {k} kinds of workers, any numbers', stubs=X, rnd=300)
          for m, k in ((1, 2), (2, 2), (2, 3), (3, 1))]
PROOFS += e2e.proofs(e2e.untouched, shapes=('2', '2-link', '2-chain', '3-chain-mid'), tag=' untouched')
PROOFS += e2e.proofs(e2e.untouched, shapes=('2-link', '2-chain'), tag=' untouched/specification', assigned=True, independent=True,
                     note=', teams specified or not, resource-independent or not')
PROOFS += e2e.proofs(e2e.untouched, shapes=('1', '2-chain'), tag=' untouched/contractors', contractors=2, chosen=True,
                     note=', two contractors, chosen or not')
PROOFS += [Proof(f'twice/{tl}/{s}', twice(tl, s), e2e.FUNCS + e2e.TL_FUNCS[tl], kind='bounded',
                 bound=f'{e2e.SHAPES[s][0]} works, links {e2e.SHAPES[s][1]}, any numbers', stubs=X, secs=60, rnd=100, max_paths=20000)
           for tl in ('mom', 'jit') for s in ('2', '2-link', '2-chain')]
SWEEPS = [
    Sweep('histories', history(tuple(n for n in repeat.NAMES if not n.startswith('pipe'))), quick=300, thorough=9000,
          rule='calls of three schedulers, each twice, in random order on the same objects; inputs compared after every call; '
               'non-trivial: at least 3 works scheduled'),
    Sweep('pipeline histories', history(('pipe', 'pipe-heftb', 'heft')), quick=60, thorough=2000,
          rule='the same through the pipeline, priorities without contradictions'),
    Sweep('genetic histories', history(sched.GEN + ('heft',)), quick=24, thorough=700, rule='the same with the genetic scheduler and a seeded random source'),
    Sweep('reused schedulers', reused, quick=160, thorough=4000,
          rule='one scheduler object used for one or two projects in turn, every schedule compared with the one of a new object'),
    Sweep('processes', processes, quick=8, thorough=150, rule='batches of 5 scenarios and 4 to 5 schedulers in two fresh processes with '
          'different seeds of string hashing', case_cpu=180),
]
CHECK = Check('C23', 'bounded', proofs=PROOFS, sweeps=SWEEPS, assumptions=e2e.ASSUMED + [
    'a default entry of the specification created by reading it is not a change'])
