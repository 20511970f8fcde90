"""Whole schedules of a bounded number of works, with every number symbolic.

`build(H, ...)` lets the real GenericScheduler.build_scheduler (contractor search, specification of teams, timeline search,
booking, chains) construct a schedule of a project of a given shape.  Lags, minimal and maximal team sizes, capacities,
durations, the project start and the specified values are arbitrary integers.  Two callees are represented by their
contracts: the resource optimizer (C08: any team inside the limits it is given, positions excluded from the optimization
unchanged) and the estimator (C20: some non-negative time for each work and team).
"""
from . import env  # noqa: F401
import sampo.scheduler  # noqa: F401
from .pyvc import And, Ite, Or, Not, Implies, Max
from .tl import TMAX

CAP = 10 ** 5


class Optimizer:
    """contract of ResourceOptimizer.optimize_resources (proved in C08)"""

    def __init__(self, H):
        self.H, self.k = H, 0

    def optimize_resources(self, worker_pool, worker_team, optimize_array, down_border, up_border, get_finish_time):
        self.k += 1
        for j, w in enumerate(worker_team):
            if optimize_array is not None and not optimize_array[j]:
                continue
            n = self.H.int(f'team{self.k}_{j}', 0, CAP, rlo=0, rhi=4)
            lo, hi = down_border[j], up_border[j]
            if self.H.symbolic:
                self.H.assume(And(lo <= n, n <= hi))
            else:
                n = lo + n % (hi - lo + 1) if hi >= lo else lo
            w.count = n
        return worker_team


class Estimator:
    """contract of WorkTimeEstimator.estimate_time (C20): non-negative, a function of the work and the team"""

    def __init__(self, H, fixed=None):
        self.H, self.calls, self.fixed = H, {}, fixed
        self.least = 0

    def estimate_time(self, work_unit, worker_list):
        from sampo.schemas.time import Time
        if not work_unit.worker_reqs:
            return Time(0)
        if work_unit.id not in self.calls:
            self.calls[work_unit.id] = self.H.int(f'dur_{work_unit.id}', self.least, TMAX, rhi=6)
        return Time(self.calls[work_unit.id])


class Project:
    pass


def project(H, n, edges, kinds=1, contractors=1, independent=False, fixed_time=False, assigned=False, chosen=False,
            zones=(), pattern=None):
    """n works between start and finish; edges (u, v, 'FS' | 'IFS'); zones: statuses of one zone to choose from"""
    from sampo.schemas.contractor import Contractor
    from sampo.schemas.graph import EdgeType, GraphNode, get_start_stage, get_finish_stage
    from sampo.schemas.requirements import WorkerReq
    from sampo.schemas.resources import Worker
    from sampo.schemas.schedule_spec import ScheduleSpec
    from sampo.schemas.time import Time
    from sampo.schemas.works import WorkUnit
    P = Project()
    P.start = get_start_stage(work_id='s')
    P.names = ['a', 'b'][:kinds]
    chain_of = list(range(n))
    for u, v, t in edges:
        if t == 'IFS':
            chain_of[v] = chain_of[u]
    P.reqs = {}
    P.nodes, P.edges, used = [], [], set()
    for i in range(n):
        h = chain_of[i]
        if h == i:
            rs = []
            for k in P.names:
                lo = H.int(f'min_{k}{i}', 1, CAP, rhi=2)
                hi = H.int(f'max_{k}{i}', 1, CAP, rhi=4)
                if not H.symbolic:
                    hi = max(lo, hi)
                H.assume(lo <= hi)
                rs.append((k, lo, hi))
            P.reqs[i] = rs
        else:
            P.reqs[i] = P.reqs[h]
        vol = H.int(f'vol{i}', 1, CAP, rhi=5) if fixed_time else 1
        wu = WorkUnit(f'w{i}', f'w{i}', worker_reqs=[WorkerReq(k, Time(1), lo, hi) for k, lo, hi in P.reqs[i]], volume=vol)
        par = []
        for u, v, t in edges:
            if v == i:
                lag = H.int(f'lag{u}{v}', 0, TMAX, rhi=4) if t == 'FS' else 0
                used.add(u)
                par.append((P.nodes[u], lag, EdgeType.FinishStart if t == 'FS' else EdgeType.InseparableFinishStart))
                P.edges.append((u, v, lag))
        if not par:
            par = [P.start]
        P.nodes.append(GraphNode(wu, par))
    P.finish = get_finish_stage([P.nodes[i] for i in range(n) if i not in used], work_id='f')
    P.chain_of = chain_of
    P.heads = [i for i in range(n) if chain_of[i] == i]
    # chains are scheduled as a whole: heads in an order in which all predecessors of a whole chain come first
    succ = {i: set() for i in P.heads}
    for u, v, t in edges:
        if chain_of[u] != chain_of[v]:
            succ[chain_of[u]].add(chain_of[v])
    order, left = [], list(P.heads)
    while left:
        free = [i for i in left if not any(i in succ[j] for j in left if j != i)]
        if not free:
            raise ValueError('shape with a cycle of chains')
        order.append(free[0])
        left.remove(free[0])
    P.order = order
    P.ordered_nodes = [P.start] + [P.nodes[i] for i in order] + [P.finish]
    P.contractors = []
    P.cap = {}
    for c in range(contractors):
        ws = {}
        for k in P.names:
            cnt = H.int(f'cap_{c}{k}', 0 if contractors > 1 else 1, CAP, rlo=1, rhi=5)
            P.cap[f'c{c}', k] = cnt
            ws[k] = Worker(f'{c}{k}', k, cnt, contractor_id=f'c{c}')
        P.contractors.append(Contractor(f'c{c}', f'c{c}', ws, {}))
    P.spec = ScheduleSpec()
    P.independent, P.fixed, P.assigned, P.allowed = {}, {}, {}, {}
    for i in P.heads:
        ws = P.spec.get_work_spec(f'w{i}')
        if independent and H.pick(f'indep{i}', [False, True]):
            ws.is_independent = True
            P.independent[i] = True
        if fixed_time and H.pick(f'fix{i}', [False, True]):
            P.fixed[i] = H.int(f'fixed{i}', 0, TMAX, rhi=9)
            ws.assigned_time = Time(P.fixed[i])
        if assigned:
            ks = H.pick(f'given{i}', [(), tuple(P.names)] if kinds == 1 else [(), tuple(P.names), ('a',), ('b',)])
            P.assigned[i] = {}
            for k in ks:
                v = H.int(f'given{i}{k}', 1, CAP, rhi=4)
                lo, hi = [(lo, hi) for kk, lo, hi in P.reqs[i] if kk == k][0]
                if H.symbolic:
                    # the specification itself is admissible: inside the requirement and the capacity of every contractor
                    H.assume(And(lo <= v, v <= hi, *[v <= P.cap[c.id, k] for c in P.contractors]))
                else:
                    v = min(max(lo, v), hi)
                    H.assume(all(v <= P.cap[c.id, k] for c in P.contractors))
                P.assigned[i][k] = v
            if ks:
                ws.assigned_workers = dict(P.assigned[i])
        if chosen:
            P.allowed[i] = H.pick(f'allowed{i}', [None, ('c0',), ('c1',)])
            if P.allowed[i]:
                ws.contractors = set(P.allowed[i])
    P.s0 = H.int('start', 0, TMAX, rhi=7)
    P.zone, P.landscape = {}, None
    if zones or pattern:
        from sampo.schemas.landscape import LandscapeConfiguration
        from sampo.schemas.requirements import ZoneReq
        from sampo.schemas.zones import ZoneConfiguration
        from .zones import Costs
        P.status0 = H.pick('initial status', [0, 1] if zones else [1])
        P.costs = Costs(H)
        for i in P.heads:
            q = H.pick(f'status{i}', list(zones) if zones else [pattern[i]])
            if q is not None:
                P.zone[i] = q
                P.nodes[i].work_unit.zone_reqs = [ZoneReq('z', q)]
        P.landscape = LandscapeConfiguration(zone_config=ZoneConfiguration(start_statuses={'z': P.status0}, time_costs=P.costs))
    return P


def timeline_class(name):
    from sampo.scheduler.timeline import JustInTimeTimeline, MomentumTimeline
    return {'jit': JustInTimeTimeline, 'mom': MomentumTimeline}[name]


def build(H, P, tl):
    """-> {index | 's' | 'f': ScheduledWork} or None when the scheduler refuses"""
    from sampo.scheduler.base import SchedulerType
    from sampo.scheduler.generic import GenericScheduler
    from sampo.schemas.exceptions import NoSufficientContractorError
    from sampo.schemas.time import Time
    P.est = Estimator(H)
    P.est.least = 1 if P.landscape is not None else 0
    more = {} if P.landscape is None else dict(landscape=P.landscape)

    class S(GenericScheduler):
        def __init__(self):
            super().__init__(SchedulerType.HEFTAddEnd, Optimizer(H), timeline_class(tl), None,
                             self.get_default_res_opt_function(), P.est)
    try:
        works, start, P.timeline = S().build_scheduler(P.ordered_nodes, P.contractors, spec=P.spec, work_estimator=P.est,
                                                       assigned_parent_time=Time(P.s0), **more)
    except NoSufficientContractorError:
        return None
    P.works = list(works)
    out = {}
    for w in P.works:
        k = w.id if w.id in ('s', 'f') else int(w.id[1:])
        out[k] = w
    return out


def s_(w): return w.start_end_time[0].value


def f_(w): return w.start_end_time[1].value


# ---- what the schedule must satisfy -------------------------------------------------------------------------

def precedence(H, P, sw):
    H.check(And(*[s_(sw[v]) >= f_(sw[u]) + lag for u, v, lag in P.edges]),
            'every work starts after each predecessor has finished and the lag has passed')
    H.check(And(*[s_(sw[k]) >= P.s0 for k in sw]), 'no work starts before the project')
    H.check(And(*[s_(sw[i]) >= f_(sw['s']) for i in P.heads]), 'works start after the start of the project')
    H.check(And(*[s_(sw['f']) >= f_(sw[i]) for i in range(len(P.nodes))]), 'the finish comes after every work')


def capacity(H, P, sw):
    """at the start of each work, the workers of the works running then fit the capacity (usage only grows at starts)"""
    n = len(P.nodes)
    for c in P.contractors:
        for k in P.names:
            for i in range(n):
                use = 0
                x = s_(sw[i])
                for j in range(n):
                    for w in sw[j].workers:
                        if w.name == k and w.contractor_id == c.id:
                            use = use + Ite(And(s_(sw[j]) <= x, x < f_(sw[j])), w.count, 0)
                H.check(use <= P.cap[c.id, k], f'the workers of a contractor busy at the same time are at most those it has',
                        lambda: f'{c.id} {k} at the start of work {i}')


def team(H, P, sw):
    for i in range(len(P.nodes)):
        ws = sw[i].workers
        H.check(sorted(w.name for w in ws) == sorted(k for k, _, _ in P.reqs[i]), 'exactly the required kinds are assigned')
        cs = {w.contractor_id for w in ws}
        H.check(len(cs) == 1 and sw[i].contractor_id in cs, 'all workers of a work belong to its contractor')
        h = P.chain_of[i]
        if P.allowed.get(h):
            H.check(sw[i].contractor_id in P.allowed[h], 'the contractor is one of the allowed')
        by = {w.name: w.count for w in ws}
        for k, lo, hi in P.reqs[i]:
            if k in by:
                H.check(And(by[k] >= lo, by[k] <= hi), 'team sizes stay inside the requirement')
                if k in P.assigned.get(h, {}):
                    H.check(by[k] == P.assigned[h][k], 'the specified number of workers is assigned')


def refusal(H, P):
    """refused: some work has no allowed contractor that can supply its minimum"""
    def able(c, i):
        return And(*[And(P.cap[c.id, k] >= lo, P.cap[c.id, k] >= P.assigned.get(i, {}).get(k, 0)) for k, lo, hi in P.reqs[i]])
    H.check(Or(*[Not(Or(*[able(c, i) for c in P.contractors if not P.allowed.get(i) or c.id in P.allowed[i]])) for i in P.heads]),
            'refused only when some work has no able allowed contractor')


def complete(H, P, sw):
    H.check(len(P.works) == len(P.nodes) + 2 and len(sw) == len(P.nodes) + 2 and set(sw) == {'s', 'f', *range(len(P.nodes))},
            'every work is scheduled exactly once')
    H.check(And(*[s_(w) <= f_(w) for w in sw.values()]), 'no work finishes before it starts')
    par = {}
    for u, v, lag in P.edges:
        par.setdefault(v, []).append((u, lag))
    for i in range(len(P.nodes)):
        h = P.chain_of[i]
        if h != i:
            prev = max(j for j in range(i) if P.chain_of[j] == h)
            same = sorted((w.name, w.contractor_id) for w in sw[i].workers) == sorted((w.name, w.contractor_id) for w in sw[h].workers)
            H.check(same and sw[i].contractor_id == sw[h].contractor_id, 'one team does the whole chain')
            a, b = ({w.name: w.count for w in sw[x].workers} for x in (h, i))
            H.check(And(*[a[k] == b[k] for k in a if k in b]), 'one team does the whole chain')
            H.check(s_(sw[i]) >= f_(sw[prev]), 'works of a chain follow each other')
            H.check(s_(sw[i]) <= Max(f_(sw[prev]), *[f_(sw[u]) + lag for u, lag in par.get(i, [])]),
                    'the chain waits only for other predecessors')


def duration(H, P, sw):
    for h in P.heads:
        ch = [i for i in range(len(P.nodes)) if P.chain_of[i] == h]
        if h in P.fixed:
            H.check(sum(f_(sw[i]) - s_(sw[i]) for i in ch) == P.fixed[h], 'the chain lasts as long as specified')
            H.check(And(*[f_(sw[i]) >= s_(sw[i]) for i in ch]), 'no work has a negative duration')
        else:
            for i in ch:
                H.check(f_(sw[i]) - s_(sw[i]) == P.est.calls[f'w{i}'], 'a work lasts as long as the estimator says')
    H.check(And(f_(sw['s']) == s_(sw['s']), f_(sw['f']) == s_(sw['f'])), 'service works take no time')


def exclusive(H, P, sw):
    def last(h): return f_(sw[max(i for i in range(len(P.nodes)) if P.chain_of[i] == h)])
    for h in P.independent:
        for o in P.heads:
            if o != h and sw[o].contractor_id == sw[h].contractor_id:
                H.check(Or(last(h) <= s_(sw[o]), last(o) <= s_(sw[h]), s_(sw[h]) == last(h), s_(sw[o]) == last(o)),
                        'nothing of the same kinds runs during a resource-independent work')


def zone(H, P, sw):
    from .zones import legal
    books = []
    for h, q in P.zone.items():
        last = max(i for i in range(len(P.nodes)) if P.chain_of[i] == h)
        if q != 0:
            books.append((s_(sw[h]), f_(sw[last]), q))
    legal(H, P.status0, books, P.costs, 'the zone has the required status while works run, and time to be switched')


def untouched(H, P, sw):
    for c in P.contractors:
        for k in P.names:
            w = c.workers[k]
            H.check(And(w.count == P.cap[c.id, k], w.contractor_id == c.id), 'the contractors keep their workers')
    for i in P.heads:
        ws = P.spec._work2spec[f'w{i}']
        H.check(set(ws.assigned_workers) == set(P.assigned.get(i, {})) and bool(ws.is_independent) == bool(P.independent.get(i)),
                'the specification is unchanged')
        H.check(And(*[ws.assigned_workers[k] == v for k, v in P.assigned.get(i, {}).items()]), 'the specification is unchanged')
        if i in P.fixed:
            H.check(ws.assigned_time.value == P.fixed[i], 'the specification is unchanged')
        else:
            H.check(ws.assigned_time is None, 'the specification is unchanged')
        H.check(set(ws.contractors) == set(P.allowed.get(i) or ()), 'the specification is unchanged')
    for i, node in enumerate(P.nodes):
        for r, (k, lo, hi) in zip(node.work_unit.worker_reqs, P.reqs[i]):
            H.check(And(r.kind == k, r.min_count == lo, r.max_count == hi), 'the graph is unchanged')


FS, IFS = 'FS', 'IFS'
SHAPES = {
    '1': (1, []),
    '2': (2, []),
    '2-link': (2, [(0, 1, FS)]),
    '2-chain': (2, [(0, 1, IFS)]),
    '3': (3, []),
    '3-link': (3, [(0, 1, FS)]),
    '3-path': (3, [(0, 1, FS), (1, 2, FS)]),
    '3-join': (3, [(0, 2, FS), (1, 2, FS)]),
    '3-fork': (3, [(0, 1, FS), (0, 2, FS)]),
    '3-tri': (3, [(0, 1, FS), (0, 2, FS), (1, 2, FS)]),
    '3-chain+1': (3, [(0, 1, IFS)]),
    '3-chain-wait': (3, [(0, 2, IFS), (1, 2, FS)]),
    '3-chain-then': (3, [(0, 1, IFS), (1, 2, FS)]),
    '3-chain-mid': (3, [(0, 1, IFS), (0, 2, FS)]),
    '3-chain3': (3, [(0, 1, IFS), (1, 2, IFS)]),
}


def harness(tl, shape, oracle, refuse=None, **opts):
    n, edges = SHAPES[shape]

    def h(H):
        P = project(H, n, edges, **opts)
        sw = build(H, P, tl)
        if sw is None:
            if refuse:
                refuse(H, P)
            else:
                from .pyvc import PathEnd, Skip
                H.assume(False)
            return
        oracle(H, P, sw)
    h.__name__ = f'e2e_{tl}_{shape}'
    return h


ASSUMED = ['in the symbolic schedules the resource optimizer is represented by its contract (any team inside the limits it is given; C08) '
           'and the estimator by an arbitrary non-negative time per work (C20)',
           'times stay below the saturation of Time (C19)']
FUNCS = ['sampo/scheduler/generic.py:GenericScheduler.build_scheduler',
         'sampo/scheduler/generic.py:GenericScheduler.get_default_res_opt_function',
         'sampo/scheduler/base.py:Scheduler.optimize_resources_using_spec',
         'sampo/scheduler/utils/multi_contractor.py:get_worker_borders',
         'sampo/scheduler/utils/multi_contractor.py:run_contractor_search',
         'sampo/schemas/graph.py:GraphNode.min_start_time']
TL_FUNCS = {k: [f'sampo/scheduler/timeline/{m}.py:{c}.{f}' for f in
                ('find_min_start_time_with_additional', '_find_min_start_time', 'schedule', '_schedule_with_inseparables',
                 'update_timeline')]
            for k, m, c in (('jit', 'just_in_time_timeline', 'JustInTimeTimeline'), ('mom', 'momentum_timeline', 'MomentumTimeline'))}
QUICK = {'jit': ('1', '2', '2-link', '2-chain', '3-chain-wait', '3-chain3'),
         'mom': ('1', '2', '2-link', '2-chain', '3-path', '3-join', '3-fork', '3-tri', '3-chain+1', '3-chain-wait',
                 '3-chain-then', '3-chain-mid', '3-chain3')}
THOROUGH = {'jit': ('3-chain-mid', '3-chain+1', '3-chain-then'), 'mom': ('3-link', '3')}


def proofs(oracle, tls=('jit', 'mom'), shapes=None, refuse=None, tag='', secs=60, thorough=True, note='', only=False, **opts):
    """one bounded harness for every timeline and shape"""
    from .pyvc import time_stub_exact
    from .run import Proof
    out = []
    for tl in tls:
        for shape in (shapes or QUICK[tl]) + (THOROUGH[tl] if thorough and shapes is None else ()):
            n, edges = SHAPES[shape]
            desc = f'{n} works between start and finish' + (', links ' + ' '.join(f'{u}{"->" if t == FS else "=>"}{v}' for u, v, t in edges)
                                                           if edges else '') + note
            out.append(Proof(f'schedule{tag}/{tl}/{shape}', harness(tl, shape, oracle, refuse, **opts), FUNCS + TL_FUNCS[tl],
                             kind='bounded', bound=desc, stubs=(time_stub_exact,), secs=secs, rnd=150, max_paths=20000,
                             thorough='only' if only or shape in THOROUGH[tl] and shapes is None else None))
    return out
