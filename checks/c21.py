"""C21 schedule measures and the critical path."""
import contextlib
import io
import itertools
import random
from sv import oracle, paths, sched, tl, sums
from sv.pyvc import And, Ite, Or, Not, Implies, Max, time_stub_exact
from sv.run import Check, Proof, Sweep, Case
from sv.scen import scenario

X = (time_stub_exact,)
BIG = 10 ** 6


def _T():
    from sampo.schemas.time import Time
    return Time


class _Frame:
    """the two columns of the schedule table that the measures read (contract of Schedule.full_schedule_df)"""

    def __init__(self, works):
        self.works = works

    def __getitem__(self, cols):
        import numpy as np
        a = np.empty((len(self.works), len(cols)), dtype=object)
        for i, w in enumerate(self.works):
            for j, c in enumerate(cols):
                a[i, j] = (w.start_time if c == 'start' else w.finish_time).value
        f = _Frame(self.works)
        f.to_numpy = lambda: a
        return f


class _Sched:
    def __init__(self, works):
        self.works = works
        self.full_schedule_df = _Frame(works)


def _swork(i, s, f, workers, contractor='c'):
    from sampo.schemas.contractor import Contractor
    from sampo.schemas.scheduled_work import ScheduledWork
    from sampo.schemas.works import WorkUnit
    Time = _T()
    return ScheduledWork(WorkUnit(f'w{i}', f'w{i}'), (Time(s), Time(f)), workers,
                         Contractor(contractor, contractor, {}, {}))


def totals(k):
    """sum and cost of k works, any times, counts and prices"""
    def h(H):
        from sampo.schemas.resources import Worker
        from sampo.utilities.resource_usage import resources_sum, resources_costs_sum
        works, want, cost = [], 0, 0
        names = H.pick('names', [None, ['a'], ['a', 'ba'], ['ba', 'zz'], []])
        for i in range(k):
            s = H.int(f's{i}', 0, BIG, rhi=9)
            d = H.int(f'd{i}', 0, BIG, rhi=9)
            kinds = H.pick(f'kinds{i}', [('a',), (), ('a', 'ba')])
            ws, c = [], 0
            for kd in kinds:
                n = H.int(f'n{kd}{i}', 0, BIG, rhi=5)
                p = H.int(f'p{kd}{i}', 0, BIG, rhi=7)
                ws.append(Worker(f'{kd}{i}', kd, n, 'c', cost_one_unit=p))
                c = c + n * p * d
                if names is None or kd in names:
                    want = want + n * d
                    cost = cost + n * p * d
            w = _swork(i, s, s + d, ws)
            H.check(H.eq(w.cost, c), 'cost of a work is workers times price times duration')
            works.append(w)
        H.check(H.eq(resources_sum(_Sched(works), names), want), 'total usage is the sum over works of workers times duration')
        H.check(H.eq(resources_costs_sum(_Sched(works), names), cost), 'total cost is the sum over works of workers times duration times price')
    h.__name__ = f'totals{k}'
    return h


def peaks(k, hi):
    """peak usage of k works; moments enumerated, counts symbolic"""
    def h(H):
        from sampo.schemas.resources import Worker
        from sampo.utilities.resource_usage import get_resources_peak_usage, resources_peaks_sum, get_total_resources_usage
        works, rows = [], []
        for i in range(k):
            s = H.pick(f's{i}', range(hi))
            f = H.pick(f'f{i}', range(hi))
            H.assume(s <= f)
            n = H.int(f'n{i}', 0, BIG, rhi=6)
            kd = H.pick(f'kind{i}', ['a', 'ba'] if i else ['a'])
            works.append(_swork(i, s, f, [Worker(f'x{i}', kd, n, H.pick(f'who{i}', ['c', 'd'] if i else ['c']))]))
            rows.append((s, f, n, kd))
        sc = _Sched(works)
        sc.execution_time = _T()(hi)
        got = get_resources_peak_usage(sc)
        tot = 0
        for kd in sorted({r[3] for r in rows}):
            at = [sum((n for s, f, n, q in rows if q == kd and s <= t < f), start=0) for t in range(hi)]
            H.check(kd in got and H.eq(got[kd], Max(*at)), 'peak equals the maximum of simultaneous use')
            tot = tot + Max(*at)
        H.check(set(got) == {r[3] for r in rows}, 'every kind in use is reported')
        H.check(H.eq(resources_peaks_sum(sc), tot), 'the sum of peaks')
        H.check(H.eq(resources_peaks_sum(sc, ['ba']), Max(0, *[sum((n for s, f, n, q in rows if q == 'ba' and s <= t < f), start=0)
                                                            for t in range(hi)])), 'peaks of the named kinds only')
    h.__name__ = f'peaks{k}'
    return h


# ---- critical path -----------------------------------------------------------------------------------------------

def _dags(n):
    pairs = [(i, j) for j in range(n) for i in range(j)]
    for bits in itertools.product([0, 1], repeat=len(pairs)):
        yield [p for p, b in zip(pairs, bits) if b]


def _nodes(n, edges, chain=None):
    """start, n inner works, finish (every inner work without parents hangs on start, without children on finish)"""
    from sampo.schemas.graph import GraphNode, EdgeType
    from sampo.schemas.works import WorkUnit
    ids = [f'm{(7 * i + 3) % 10}' for i in range(n)]
    start = GraphNode(WorkUnit('start', 'start', is_service_unit=True), [])
    nodes, has_child = [start], set()
    for j in range(n):
        ps = []
        for i, q in edges:
            if q == j:
                has_child.add(i)
                ps.append((nodes[1 + i], 0, EdgeType.InseparableFinishStart if chain == (i, j) else EdgeType.FinishStart))
        nodes.append(GraphNode(WorkUnit(ids[j], ids[j]), ps or [(start, 0, EdgeType.FinishStart)]))
    nodes.append(GraphNode(WorkUnit('finish', 'finish', is_service_unit=True),
                           [(nodes[1 + i], 0, EdgeType.FinishStart) for i in range(n) if i not in has_child] or [start]))
    return nodes


def longest(ids, preds, w):
    """longest total weight of a path that ends before the last of ids (topological order)"""
    best = {}
    for v in ids:
        b = 0
        for p in preds[v]:
            b = Max(b, best[p])
        best[v] = b + w[v]
    return best


def critical(n):
    dags = list(_dags(n))

    def h(H):
        from sampo.scheduler.utils import critical_path as cp
        edges = H.pick('edges', dags)
        chain = H.pick('chain', [None] + [(i, j) for i, j in edges if [e for e in edges if e[1] == j] == [(i, j)]])
        if n > 3:
            chain = None
        nodes = _nodes(n, edges, chain)
        d = {v.id: 0 if v.work_unit.is_service_unit else H.int('d_' + v.id, 0, BIG, rhi=6) for v in nodes}
        Time = _T()

        class Est:
            def estimate_time(s, wu, workers): return Time(d[wu.id])

        class SW:
            def __init__(s, x): s.duration = Time(x)
        how = H.pick('how', ['graph', 'schedule']) if n < 3 else 'graph'
        if how == 'graph':
            path = cp.critical_path_graph(nodes, Est())
        else:
            path = cp.critical_path_schedule(nodes, {k: SW(v) for k, v in d.items()})
        # independent merge of the chain and longest path; each work weighs its time plus one, a chain counts as one work
        head = {v.id: v.id for v in nodes}
        if chain:
            head[nodes[1 + chain[1]].id] = nodes[1 + chain[0]].id
        heads = [v.id for v in nodes if head[v.id] == v.id]
        preds = {x: set() for x in heads}
        for v in nodes:
            for p in v.parents:
                if head[p.id] != head[v.id]:
                    preds[head[v.id]].add(head[p.id])
        order = []
        while len(order) < len(heads):
            order.append(next(x for x in heads if x not in order and preds[x] <= set(order)))
        w = {x: 1 + sum((d[v.id] for v in nodes if head[v.id] == x), start=0) for x in heads}
        best = longest(order, preds, w)
        ids = [v.id for v in path]
        H.check(len(ids) > 0 and ids[0] == 'start', 'the path begins at the start')
        H.check(all(a in preds[b] for a, b in zip(ids, ids[1:] + ['finish'])), 'consecutive works depend on each other')
        tot = w['finish']
        for x in ids:
            tot = tot + w[x]
        H.check(H.eq(tot, best['finish']), 'the path has the greatest total length')
    h.__name__ = f'critical{n}'
    return h


def ordering(n):
    """order of the schedule table: a permutation sorted by start time, parents first"""
    dags = list(_dags(n))

    def h(H):
        from sampo.schemas.graph import WorkGraph
        from sampo.schemas.schedule import order_nodes_by_start_time
        edges = H.pick('edges', dags)
        nodes = _nodes(n, edges)
        t, works = {}, []
        for i, v in enumerate(nodes):
            t[v.id] = H.int('t_' + v.id, 0, BIG, rhi=4)
            for p in v.parents:
                H.assume(t[p.id] <= t[v.id])
            works.append(_swork(i, t[v.id], t[v.id], []))
            works[-1].id = v.id
        table = {v.id: v for v in nodes}

        perm = H.pick('perm', [0, 1, 2])
        if perm == 1:
            works.reverse()
        elif perm == 2:
            works = works[1::2] + works[::2]
        got = order_nodes_by_start_time(works, table)
        H.check(sorted(got) == sorted(t), 'every work is listed once')
        H.check(H.all(t[a] <= t[b] for a, b in zip(got, got[1:])), 'ascending start times')
        pos = {x: i for i, x in enumerate(got)}
        H.check(all(pos[p.id] < pos[v.id] for v in nodes for p in v.parents), 'parents precede their children')
    h.__name__ = f'ordering{n}'
    return h


# ---- whole schedules ---------------------------------------------------------------------------------------------

def definitions(schedule, names=None):
    """independent recomputation of the measures"""
    end = max(oracle.tv(w.finish_time) for w in schedule.works)
    use, cost, pts = 0, 0.0, {}
    for w in schedule.works:
        s, f = oracle.tv(w.start_time), oracle.tv(w.finish_time)
        for k in w.workers:
            if names is None or k.name in names:
                use += k.count * (f - s)
                cost += k.count * (f - s) * k.cost_one_unit
                pts.setdefault(k.name, []).append((s, f, k.count))
    peak = {}
    for n, rows in pts.items():
        peak[n] = max(sum(c for s, f, c in rows if s <= t < f) for t in {r[0] for r in rows})
    return end, use, cost, peak


def compare(schedule, names, label):
    from sampo.utilities import resource_usage as ru
    end, use, cost, peak = definitions(schedule, names)
    out = []

    def same(tag, a, b):
        if abs(a - b) > 1e-6 * max(1, abs(b)):
            out.append((tag, f'{label}: {a}, by definition {b}'))
    same('length', oracle.tv(schedule.execution_time), end)
    same('usage', ru.resources_sum(schedule, names), use)
    same('cost', ru.resources_costs_sum(schedule, names), cost)
    same('peaks', ru.resources_peaks_sum(schedule, names), sum(peak.values()))
    got = {k: v for k, v in ru.get_resources_peak_usage(schedule, names).items()}
    for k in set(got) | set(peak):
        same('peak', got.get(k, 0), peak.get(k, 0))
    if names is None:
        for w in schedule.works:
            same('work-cost', w.cost, sum(k.count * k.cost_one_unit * (oracle.tv(w.finish_time) - oracle.tv(w.start_time)) for k in w.workers))
    return out


def fitness(schedule, names, label):
    from sampo.scheduler.genetic import operators as op
    from sampo.schemas.time import Time
    end, use, cost, peak = definitions(schedule, names)
    pk = sum(peak.values())
    dl = Time(max(1, end - 5))
    late = max(1.0, end / dl.value)
    ev = lambda _: schedule
    out = []
    for name, args, want in (('TimeFitness', (), (end,)), ('SumOfResourcesPeaksFitness', (names,), (pk,)),
                             ('SumOfResourcesFitness', (names,), (use,)), ('TimeWithResourcesFitness', (names,), (end + pk,)),
                             ('DeadlineResourcesFitness', (dl, names), (pk * late,)), ('DeadlineCostFitness', (dl, names), (cost * late,)),
                             ('TimeAndResourcesFitness', (names,), (end, pk))):
        cls = getattr(op, name, None)
        if cls is None:
            continue
        got = cls(*args).evaluate(None, ev)
        if len(got) != len(want) or any(abs(a - b) > 1e-6 * max(1, abs(b)) for a, b in zip(got, want)):
            out.append(('fitness', f'{label}: {name} gives {got}, by definition {want}'))
        none = cls(*args).evaluate(None, lambda _: None)
        if any(x < 10 ** 9 for x in none):
            out.append(('fitness', f'{name} of an impossible schedule is {none}'))
    return out


def path_problems(scn, path, weight, label):
    head = {}
    for v in scn.wg.nodes:
        x = v
        while x.inseparable_parent is not None:
            x = x.inseparable_parent
        head[v.id] = x.id
    preds, w = {}, {}
    for v in scn.wg.nodes:
        preds.setdefault(head[v.id], set()).update(head[p.id] for p in v.parents if head[p.id] != head[v.id])
        w[head[v.id]] = w.get(head[v.id], 1) + weight(v)
    order, seen = [], set()
    todo = list(preds)
    while todo:
        x = next(x for x in todo if preds[x] <= seen)
        order.append(x)
        seen.add(x)
        todo.remove(x)
    best = longest(order, preds, w)
    ids = [v.id for v in path] + [scn.wg.finish.id]
    out = []
    if any(a not in preds[b] for a, b in zip(ids, ids[1:])):
        out.append(('path', f'{label}: {ids} is not a chain of dependent works'))
    elif abs(sum(w[x] for x in ids) - best[scn.wg.finish.id]) > 1e-6:
        out.append(('longest', f'{label}: length {sum(w[x] for x in ids)}, the longest path has {best[scn.wg.finish.id]}'))
    return out


def runs(seed, tier):
    from sampo.scheduler.utils.critical_path import critical_path_graph, critical_path_schedule
    from sampo.schemas.exceptions import NoSufficientContractorError
    from sampo.schemas.resources import Worker
    from sampo.schemas.schedule import Schedule
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    r = random.Random(seed)
    prof = sched.PROFILES[r.randrange(len(sched.PROFILES))]
    scn = scenario(seed, **prof)
    name = r.choice(sched.HEUR)
    try:
        s = sched.run(scn, name, seed % 1000)
    except NoSufficientContractorError:
        return Case([], False)
    if not oracle.is_finite(s):
        return Case([], False)
    kinds = sorted({k.name for w in s.works for k in w.workers})
    out = []
    for names in (None, r.sample(kinds, r.randint(0, len(kinds))) + ['nobody']):
        out += compare(s, names, name) + fitness(s, names, name)
    ids = [w.id for w in s.works]
    st = [oracle.tv(w.start_time) for w in s.works]
    if st != sorted(st):
        out.append(('order', f'{name}: the table is not sorted by start time'))
    pos = {x: i for i, x in enumerate(ids)}
    if any(pos[p.id] > pos[v.id] for v in scn.wg.nodes for p in v.parents):
        out.append(('order', f'{name}: a work is listed before its parent'))
    est = DefaultWorkEstimator()

    def avg(v):
        a = [[Worker('', q.kind, c(q)) for q in v.work_unit.worker_reqs] for c in (lambda q: q.min_count, lambda q: q.max_count)]
        # a chain is estimated with the team of its first work
        return sum(oracle.tv(est.estimate_time(v.work_unit, t)) for t in a) / 2
    if all(len({(q.kind, q.min_count, q.max_count) for c in v.get_inseparable_chain_with_self() for q in c.work_unit.worker_reqs})
           == len(v.work_unit.worker_reqs) for v in scn.wg.nodes):
        out += path_problems(scn, critical_path_graph(scn.wg.nodes, est), avg, 'estimated critical path')
    sw = {w.id: w for w in s.works}
    out += path_problems(scn, critical_path_schedule(scn.wg.nodes, sw), lambda v: oracle.tv(sw[v.id].duration), 'scheduled critical path')
    return Case(out, len(ids) > 4, str(seed), dict(seed=seed, scheduler=name))


def stages(seed, tier):
    """projects of the pipeline whose works were split into stages: the united schedule and the critical path over works"""
    from sampo.pipeline import SchedulingPipeline
    from sampo.pipeline.lag_optimization import LagOptimizationStrategy
    from sampo.scheduler.utils.critical_path import critical_path_schedule
    from sampo.schemas.exceptions import NoSufficientContractorError
    r = random.Random(seed)
    prof = sched.PROFILES[r.randrange(len(sched.PROFILES))]
    scn = scenario(seed, **prof)
    made = SchedulingPipeline.create().wg(scn.wg).contractors(scn.contractors).spec(scn.spec)
    if r.random() < .8:
        made = made.lag_optimize(LagOptimizationStrategy.AUTO)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            project = made.schedule(sched.make(r.choice(['heft', 'heftb', 'lft']), seed)).finish()[0]
    except NoSufficientContractorError:
        return Case([], False)
    raw = {w.id: w for w in project.raw_schedule.works}
    parts = {}
    for v in project.raw_wg.nodes:
        parts.setdefault(v.id.split('_stage_')[0], []).append(raw[v.id])
    out = []
    ids = [w.id for w in project.schedule.works]
    if sorted(ids) != sorted(v.id for v in scn.wg.nodes):
        out.append(('united', f'united schedule has {sorted(ids)}, the graph has {sorted(v.id for v in scn.wg.nodes)}'))
        return Case(out, True, str(seed), dict(seed=seed))
    for w in project.schedule.works:
        ps = parts[w.id]
        a, b = min(oracle.tv(x.start_time) for x in ps), max(oracle.tv(x.finish_time) for x in ps)
        if (oracle.tv(w.start_time), oracle.tv(w.finish_time)) != (a, b):
            out.append(('united', f'{w.id} is [{w.start_time},{w.finish_time}), its stages are in [{a},{b})'))
        vol = scn.wg[w.id].work_unit.volume
        if abs(float(w.volume) - vol) > 1e-6 * max(1, abs(vol)):
            out.append(('united', f'{w.id} has volume {w.volume}, the work has {vol}'))
    got = project.critical_path()
    want = []
    for v in critical_path_schedule(project.raw_wg.nodes, raw):
        last = v.get_inseparable_chain_with_self()[-1].id
        if last not in want:
            want.append(last)
    if [v.id for v in got] != want or any(v is not scn.wg[v.id] for v in got):
        out.append(('critical', f'critical path {[v.id for v in got]}, by stages {want}'))
    mock = type('S', (), {})()
    mock.wg = project.raw_wg
    out += path_problems(mock, critical_path_schedule(project.raw_wg.nodes, raw), lambda v: oracle.tv(raw[v.id].duration),
                         'critical path of the stages')
    return Case(out, len(raw) > len(ids), str(seed), dict(seed=seed))


def tables(seed, tier):
    """random tables of works"""
    from sampo.schemas.resources import Worker
    from sampo.schemas.schedule import Schedule
    r = random.Random(seed)
    works, t = [], 0
    for i in range(r.randint(1, 12)):
        s = r.randint(0, 12)
        f = s + r.choice([0, 0, 1, 2, 5, 9])
        t = max(t, f)
        who = r.choice(['c', 'd'])
        works.append(_swork(i, s, f, [Worker(f'{k}{i}', k, r.randint(0, 6), who, cost_one_unit=r.choice([0.0, 1.5, 7, None]))
                                      for k in r.sample(['a', 'ba', 'e'], r.randint(0, 3))], who))
    works.append(_swork('end', t, t, []))
    s = Schedule.from_scheduled_works(works)
    out = []
    for names in (None, r.sample(['a', 'ba', 'e', 'z'], r.randint(0, 4))):
        out += compare(s, names, 'table') + fitness(s, names, 'table')
    return Case(out, len(works) > 3, str(seed))


U = 'sampo/utilities/resource_usage.py:'
CP = 'sampo/scheduler/utils/critical_path.py:'
PROOFS = []
for _k in (0, 1, 2, 3):
    PROOFS.append(Proof(f'totals/{_k}', totals(_k), [U + 'resources_sum', U + 'resources_costs_sum',
                        'sampo/schemas/scheduled_work.py:ScheduledWork.__init__'], stubs=X, kind='bounded', bound=f'{_k} works'))
for _k, _h in ((1, 4), (2, 4), (3, 3)):
    PROOFS.append(Proof(f'peaks/{_k}', peaks(_k, _h), [U + 'get_total_resources_usage', U + 'get_resources_peak_usage',
                        U + 'resources_peaks_sum'], stubs=X, kind='bounded', bound=f'{_k} works, moments below {_h}, any counts',
                        secs=60, max_paths=20000))
for _k in (1, 2, 3, 4):
    PROOFS.append(Proof(f'critical path/{_k}', critical(_k), [CP + 'ford_bellman', CP + '_critical_path', CP + 'critical_path_graph',
                        CP + 'critical_path_schedule'], stubs=X, kind='bounded', bound=f'all graphs of {_k} works, any times',
                        secs=60, max_paths=20000, rnd=300))
for _k in (1, 2, 3):
    PROOFS.append(Proof(f'table order/{_k}', ordering(_k), ['sampo/schemas/schedule.py:order_nodes_by_start_time'], stubs=X,
                        kind='bounded', bound=f'all graphs of {_k} works, any start times', secs=60, max_paths=20000, rnd=300))
SWEEPS = [Sweep('schedules', runs, quick=120, thorough=4000, rule='random projects, a heuristic scheduler each; non-trivial: more '
                'than 4 works'),
          Sweep('stages', stages, quick=100, thorough=3000, rule='projects of the pipeline, most of them restructured; non-trivial: some '
                'work was split'),
          Sweep('tables', tables, quick=250, thorough=8000, rule='random tables of works; non-trivial: more than 3 works')]
PROOFS += sums.proofs() + paths.proofs_ranks() + paths.proofs_critical()
CHECK = Check('C21', 'bounded', proofs=PROOFS, sweeps=SWEEPS,
              assumptions=['costs are compared up to a relative error of 1e-6 (floating point)'])
