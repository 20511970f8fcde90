"""C12 processing orders."""
import contextlib
import io
import itertools
import random
from checks.c21 import _dags, _nodes, longest
from sv import paths, sched
from sv.pyvc import Max, time_stub_exact
from sv.run import Check, Proof, Sweep, Case
from sv.scen import mk_wg, chains_acyclic, scenario

X = (time_stub_exact,)
BIG = 10 ** 6


def _maps(nodes):
    """chain heads in a topological order with head relations, computed here from the edges"""
    head = {}
    for v in nodes:
        x = v
        while x.inseparable_parent is not None:
            x = x.inseparable_parent
        head[v] = x
    par = {v.id: set() for v in nodes if head[v] is v}
    chi = {v.id: set() for v in nodes if head[v] is v}
    for v in nodes:
        for p in v.parents:
            if head[p] is not head[v]:
                par[head[v].id].add(head[p].id)
                chi[head[p].id].add(head[v].id)
    todo = sorted(par)
    by = {v.id: v for v in nodes}
    out, seen = [], set()
    while todo:
        x = next(x for x in todo if par[x] <= seen)
        out.append(by[x])
        seen.add(x)
        todo.remove(x)
    return out, par, chi


def problems(order, heads, par, prio=True):
    ids = [v.id for v in order]
    if sorted(ids) != sorted(v.id for v in heads):
        return [('permutation', f'{ids} is not a permutation of the {len(heads)} works')]
    pos = {x: i for i, x in enumerate(ids)}
    out = []
    for v in heads:
        for p in par[v.id]:
            if pos[p] > pos[v.id]:
                out.append(('precedence', f'{v.id} comes before its predecessor {p} in {ids}'))
    if prio:
        pr = [v.work_unit.priority for v in order]
        if pr != sorted(pr):
            out.append(('priority', f'priorities in order: {pr}'))
    return out


def _agree(H, order, heads, par):
    for tag, what in problems(order, heads, par):
        H.check(False, {'permutation': 'every work exactly once', 'precedence': 'predecessors come first',
                        'priority': 'smaller priorities come first'}[tag])
    H.check(True, 'order is a precedence-consistent permutation')


def _setup(H, n, dags, chains=True, prios=True):
    edges = H.pick('edges', dags)
    chain = None
    if chains:
        chain = H.pick('chain', [None] + [(i, j) for i, j in edges if [e for e in edges if e[1] == j] == [(i, j)]])
    nodes = _nodes(n, edges, chain)
    if prios:
        lev = {}
        for v in nodes:
            low = max([lev[p.id] for p in v.parents], default=1)
            if v.work_unit.is_service_unit or v.inseparable_parent is not None:
                lev[v.id] = low
            else:
                lev[v.id] = H.pick('prio_' + v.id, [low] if low > 1 else [1, 2])
            v.work_unit.priority = lev[v.id]
    heads, par, chi = _maps(nodes)
    if prios:
        by = {v.id: v for v in nodes}
        H.assume(all(by[p].work_unit.priority <= v.work_unit.priority for v in heads for p in par[v.id]))
    # any topological listing of the heads may be handed over
    return nodes, heads, par, chi


class _Est:
    def __init__(self, d):
        self.d = d

    def estimate_time(self, wu, workers):
        from sampo.schemas.time import Time
        return Time(self.d[wu.id])


def _times(H, nodes, hi=BIG):
    return {v.id: 0 if v.work_unit.is_service_unit else H.int('d_' + v.id, 0, hi, rhi=6) for v in nodes}


def ranks(n):
    """path weights of all graphs of n works, any weights"""
    dags = list(_dags(n))

    def h(H):
        from sampo.scheduler.utils import critical_path as cp
        _, heads, par, chi = _setup(H, n, dags, False, False)
        w = {v.id: H.int('w_' + v.id, 1, BIG, rhi=7) for v in heads}
        got = cp.ford_bellman(heads, {k: -x for k, x in w.items()}, par)
        # length of the longest path over successors: from v down to (not including) the finish
        best = {}
        for v in reversed(heads):
            b = 0
            for c in chi[v.id]:
                b = Max(b, best[c] + w[v.id])
            best[v.id] = b
        H.check(set(got) == set(w), 'every work has a rank')
        H.check(H.all(H.eq(got[k], -best[k]) for k in w), 'the rank is the longest path to the finish')
    h.__name__ = f'ranks{n}'
    return h


def heft(n):
    dags = list(_dags(n))

    def h(H):
        from sampo.scheduler.heft.prioritization import prioritization
        nodes, heads, par, chi = _setup(H, n, dags)
        _agree(H, prioritization(list(heads), par, chi, _Est(_times(H, nodes))), heads, par)
    h.__name__ = f'heft{n}'
    return h


def lft(n):
    dags = list(_dags(n))

    def h(H):
        from sampo.scheduler.lft import prioritization as m
        nodes, heads, par, chi = _setup(H, n, dags)
        d = _times(H, nodes)
        _agree(H, m.lft_prioritization(list(heads), par, chi, d, m.lft_prioritization_core), heads, par)
    h.__name__ = f'lft{n}'
    return h


def bounds(n):
    """latest finish and start times"""
    dags = list(_dags(n))

    def h(H):
        from sampo.scheduler.lft import prioritization as m
        nodes, heads, par, chi = _setup(H, n, dags, False, False)
        d = _times(H, nodes)
        f, s = m.map_lft_lst(list(heads), chi, d)
        H.check(set(f) == set(d) and set(s) == set(d), 'every work has both bounds')
        for v in heads:
            H.check(H.eq(s[v.id], f[v.id] - d[v.id]), 'latest start is latest finish minus duration')
            if chi[v.id]:
                H.check(H.all(f[v.id] <= s[c] for c in chi[v.id]) and H.any(H.eq(f[v.id], s[c]) for c in chi[v.id]),
                        'latest finish is the least latest start of the successors')
    h.__name__ = f'bounds{n}'
    return h


def rlft(n):
    dags = list(_dags(n))

    def h(H):
        from sampo.scheduler.lft import prioritization as m
        nodes, heads, par, chi = _setup(H, n, dags)
        d = {v.id: 0 if v.work_unit.is_service_unit else H.pick('d_' + v.id, [0, 3]) for v in nodes}
        k = [0]

        class R:
            def random(s):
                return 0.3

            def choices(s, xs, weights=None, **kw):
                xs = list(xs)
                H.check(len(xs) > 0 and (weights is None or (len(weights) == len(xs) and min(weights) >= 0 and sum(weights) > 0)),
                        'there is something to choose from')
                k[0] += 1
                return [xs[H.pick(f'choice{k[0]}', range(len(xs)))]]
        _agree(H, m.lft_prioritization(list(heads), par, chi, d, m.lft_randomized_prioritization_core, R()), heads, par)
    h.__name__ = f'rlft{n}'
    return h


def topo(n):
    dags = list(_dags(n))

    def h(H):
        from sampo.scheduler.topological.base import TopologicalScheduler
        nodes, heads, par, chi = _setup(H, n, dags)
        k = [0]

        class T(TopologicalScheduler):
            def _shuffle(s, level):
                xs = sorted(level)
                out = []
                while xs:
                    k[0] += 1
                    out.append(xs.pop(H.pick(f'shuffle{k[0]}', range(len(xs)))))
                return out
        _agree(H, T().prioritization(list(heads), par, chi, _Est({})), heads, par)
    h.__name__ = f'topo{n}'
    return h


def correction(n):
    """priority correction of any priorities on graphs with a chain"""
    dags = list(_dags(n))

    def h(H):
        from sampo.schemas.graph import WorkGraph
        from sampo.utilities.priority import check_and_correct_priorities
        edges = H.pick('edges', dags)
        # a link inside the chain may go along with other predecessors of the second work
        chain = H.pick('chain', [None] + list(edges))
        nodes = _nodes(n, edges, chain)
        heads, par, chi = _acyclic(nodes)
        H.assume(heads is not None)
        old = {}
        for v in nodes:
            old[v.id] = v.work_unit.priority = H.int('p_' + v.id, 0, BIG, rhi=4)
        by = {v.id: v for v in nodes}
        fine = H.all(old[p] <= old[v.id] for v in heads for p in par[v.id])
        inner = H.all(old[p.id] <= old[v.id] for v in nodes for p in v.parents)
        chains = H.all(H.eq(old[v.id], old[v.inseparable_parent.id]) for v in nodes if v.inseparable_parent is not None)
        check_and_correct_priorities(WorkGraph(nodes[0], nodes[-1]), verbose=False)
        H.check(H.all(by[p].work_unit.priority <= v.work_unit.priority for v in heads for p in par[v.id]),
                'after the correction priorities never decrease along the relations of chains')
        H.check(H.all(v.work_unit.priority <= old[v.id] for v in nodes), 'the correction never makes a work less urgent')
        H.check(H.any([fine == False, inner == False, chains == False,  # noqa: E712
                       H.all(H.eq(v.work_unit.priority, old[v.id]) for v in nodes)]), 'consistent priorities are kept')
    h.__name__ = f'correction{n}'
    return h


def _acyclic(nodes):
    try:
        return _maps(nodes)
    except StopIteration:
        return None, None, None


def linear(heads, par):
    """all precedence-consistent permutations"""
    def go(done, left):
        if not left:
            yield list(done)
        for x in left:
            if par[x] <= set(done):
                yield from go(done + [x], [y for y in left if y != x])
    yield from go([], [v.id for v in heads])


def swap_case(heads, par, order, area):
    from sampo.scheduler.utils.local_optimization import SwapOrderLocalOptimizer
    before = list(order)
    with contextlib.redirect_stdout(io.StringIO()):
        got = SwapOrderLocalOptimizer().optimize(list(order), area)
    out = problems(got, heads, par, prio=False)
    if any(a is not b for i, (a, b) in enumerate(zip(got, before)) if i not in area):
        out.append(('outside', f'works outside of {area} moved'))
    return out


def swap(n):
    """order tuning of every order of every graph of n works in every area"""
    dags = list(_dags(n))

    def fn(seed, tier):
        out, c = [], 0
        edges = dags[seed % len(dags)]
        for chain in [None] + [(i, j) for i, j in edges if [e for e in edges if e[1] == j] == [(i, j)]]:
            nodes = _nodes(n, edges, chain)
            heads, par, _ = _maps(nodes)
            by = {v.id: v for v in nodes}
            for o in linear(heads, par):
                order = [by[x] for x in o]
                for a in range(len(o)):
                    for b in range(a, len(o) + 1):
                        out += swap_case(heads, par, order, range(a, b))
                        c += 1
        return Case(out, c > 1, str(seed % len(dags)), dict(edges=edges))
    return fn


def orders(seed, tier):
    """all prioritizations on random projects"""
    from sampo.scheduler.heft.prioritization import prioritization
    from sampo.scheduler.lft import prioritization as m
    from sampo.scheduler.topological.base import TopologicalScheduler, RandomizedTopologicalScheduler
    from sampo.scheduler.utils import get_head_nodes_with_connections_mappings
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    r = random.Random(seed)
    k = 0
    while True:
        wg = mk_wg(random.Random(f'{seed}/{k}'), n=r.choice([4, 8, 14, 25]), p_prio=r.choice([0, 0.3, 0.6]),
                   p_edge=r.choice([0.1, 0.25, 0.45]), p_ins=r.choice([0, 0.2, 0.4]), kinds=2)
        if chains_acyclic(wg):
            break
        k += 1
    heads, par, chi = _maps(wg.nodes)
    given, gpar, gchi = get_head_nodes_with_connections_mappings(wg)
    out = []
    d = {v.id: r.choice([0, 1, 2, 5, 30]) for v in heads}
    mk = {
        'heft': lambda: prioritization(list(given), gpar, gchi, DefaultWorkEstimator()),
        'lft': lambda: m.lft_prioritization(list(given), gpar, gchi, d, m.lft_prioritization_core),
        'rlft': lambda: m.lft_prioritization(list(given), gpar, gchi, d, m.lft_randomized_prioritization_core, random.Random(seed)),
        'topo': lambda: TopologicalScheduler().prioritization(list(given), gpar, gchi, DefaultWorkEstimator()),
        'rtopo': lambda: RandomizedTopologicalScheduler(random_seed=seed % 2 ** 31).prioritization(
            list(given), gpar, gchi, DefaultWorkEstimator()),
    }
    for name, f in mk.items():
        got = f()
        out += [(t, f'{name}: {w}') for t, w in problems(got, heads, par)]
        for _ in range(3):
            a = r.randrange(len(got))
            area = range(a, r.randint(a, len(got)))
            if not out:
                out += [(t, f'tuned {name}: {w}') for t, w in swap_case(heads, par, got, area)]
        if not out:
            out += swap_case(heads, par, got, range(1, len(got)))
            out += swap_case(heads, par, got, range(0, len(got) - 1))
    return Case(out, len(heads) > 4, str(seed), dict(seed=seed, works=len(heads)))


def used(seed, tier):
    """the orders that schedulers report with their schedules"""
    from sampo.schemas.exceptions import NoSufficientContractorError
    r = random.Random(seed)
    scn = scenario(seed, **sched.PROFILES[r.randrange(len(sched.PROFILES))])
    heads, par, _ = _maps(scn.wg.nodes)
    out = []
    for name in r.sample(sched.HEUR, 3):
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                res = sched.make(name, seed % 1000).schedule_with_cache(scn.wg, scn.contractors, scn.spec)
            except NoSufficientContractorError:
                return Case([], False)
        for s, _, _, order in res:
            if order:
                out += [(t, f'{name}: {w}') for t, w in problems(order, heads, par)]
    return Case(out, len(heads) > 4, str(seed), dict(seed=seed))


def pipeline(seed, tier):
    """priorities given by the user are made consistent by the pipeline before ordering"""
    from sampo.utilities.priority import check_and_correct_priorities
    r = random.Random(seed)
    k = 0
    while True:
        wg = mk_wg(random.Random(f'{seed}/{k}'), n=r.choice([4, 7, 10]), p_edge=r.choice([0.1, 0.25, 0.4]), p_ins=r.choice([0, 0.3, 0.5]), kinds=1)
        if chains_acyclic(wg):
            break
        k += 1
    heads, par, _ = _maps(wg.nodes)
    by = {v.id: v for v in wg.nodes}
    old = {}
    for v in wg.nodes:
        old[v.id] = v.work_unit.priority = r.randint(0, 4)
    check_and_correct_priorities(wg, verbose=False)
    out = []
    for v in heads:
        for p in par[v.id]:
            if by[p].work_unit.priority > v.work_unit.priority:
                out.append(('correction', f'{p} has priority {by[p].work_unit.priority}, its successor {v.id} {v.work_unit.priority}'))
    if any(v.work_unit.priority > old[v.id] for v in wg.nodes):
        out.append(('correction', 'a work became less urgent'))
    return Case(out, len(heads) > 3, str(seed), dict(seed=seed))


H_ = 'sampo/scheduler/heft/prioritization.py:'
L = 'sampo/scheduler/lft/prioritization.py:'
T_ = 'sampo/scheduler/topological/base.py:'
P_ = 'sampo/utilities/priority.py:'
PROOFS = []
for _k in (1, 2, 3):
    b = f'all graphs of {_k} works between start and finish'
    PROOFS += [
        Proof(f'ranks/{_k}', ranks(_k), ['sampo/scheduler/utils/critical_path.py:ford_bellman'], stubs=X, kind='bounded',
              bound=b + ', any weights', secs=60, max_paths=20000, rnd=200),
        Proof(f'lft bounds/{_k}', bounds(_k), [L + 'map_lft_lst'], stubs=X, kind='bounded', bound=b + ', any durations', secs=60,
              max_paths=20000, rnd=200),
        Proof(f'lft/{_k}', lft(_k), [L + 'map_lft_lst', L + 'lft_prioritization', L + 'lft_prioritization_core',
              P_ + 'extract_priority_groups_from_nodes'], stubs=X, kind='bounded',
              bound=b + ', any durations, two priorities, one chain', secs=60, max_paths=20000, rnd=200),
        Proof(f'topological/{_k}', topo(_k), [T_ + 'TopologicalScheduler._topological_sort', T_ + 'toposort',
              P_ + 'extract_priority_groups_from_nodes'], stubs=X, kind='bounded',
              bound=b + ', any shuffling, two priorities, one chain', secs=60, max_paths=20000, rnd=200),
        Proof(f'randomized lft/{_k}', rlft(_k), [L + 'lft_randomized_prioritization_core', L + 'map_lft_lst'], stubs=X, kind='bounded',
              bound=b + ', any random choices, two durations, two priorities, one chain', secs=60, max_paths=40000, rnd=200),
    ]
for _k in (1, 2, 3):
    PROOFS.append(Proof(f'heft/{_k}', heft(_k), [H_ + 'prioritization', H_ + 'prioritization_nodes',
                        'sampo/scheduler/utils/critical_path.py:ford_bellman', 'sampo/scheduler/utils/time_computaion.py:work_priority',
                        P_ + 'extract_priority_groups_from_nodes'], stubs=X, kind='bounded',
                        bound=f'all graphs of {_k} works, any durations, two priorities, one chain', secs=60, max_paths=20000, rnd=200))
for _k in (1, 2, 3):
    PROOFS.append(Proof(f'priority correction/{_k}', correction(_k), [P_ + 'check_and_correct_priorities', P_ + 'update_priority'], stubs=X,
                        kind='bounded', bound=f'all graphs of {_k} works with a chain, any priorities', secs=60, max_paths=20000, rnd=200))
SWEEPS = [
    Sweep('tuning-2', swap(2), quick=2, thorough=2, fixed=range(2), rule='every order, area and chain of every graph of 2 works'),
    Sweep('tuning-3', swap(3), quick=8, thorough=8, fixed=range(8), rule='every order, area and chain of every graph of 3 works'),
    Sweep('orders', orders, quick=120, thorough=4000, rule='every prioritization and order tuning on random projects'),
    Sweep('used', used, quick=60, thorough=1500, rule='orders reported by the schedulers'),
    Sweep('correction', pipeline, quick=200, thorough=5000, rule='random priorities on random graphs with chains'),
]
PROOFS += paths.proofs_ranks() + paths.proofs_heft()
CHECK = Check('C12', 'bounded', proofs=PROOFS, sweeps=SWEEPS,
              assumptions=['priorities do not decrease along the relations of chains (ensured by check_and_correct_priorities, which is '
                           'itself under contract) and start is the only source, finish the only sink',
                           'durations are at least zero'])
