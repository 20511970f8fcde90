"""C10 genetic operators keep individuals feasible."""
import contextlib
import io
import itertools
import random

import numpy as np

from sv import sched
from sv.genes import Rnd, sarr, toolbox, snapshot, linear_extensions, feasible
from sv.pyvc import And, Or, Implies, eq
from sv.run import Check, Proof, Sweep, Case
from sv.scen import scenario


def _ops():
    from sampo.scheduler.genetic import operators
    return operators


# ---- orders ----------------------------------------------------------------------------------------------------

def _perm(H, n, name='perm', within=None):
    left, out = list(range(n)), []
    for i in range(n):
        c = left if within is None else [v for v in left if within[v] == min(within[x] for x in left)]
        v = H.pick(f'{name}{i}', c)
        left.remove(v)
        out.append(v)
    return out


def _pairs_kept(H, child, p1, p2, label):
    """every pair of works ordered alike in both parents is ordered so in the child (hence any precedence both respect)"""
    n = len(p1)
    ok = sorted(int(x) for x in child) == list(range(n))
    H.check(ok, label + ': the child is a permutation', lambda: f'{list(p1)} x {list(p2)} -> {list(child)}')
    if not ok:
        return
    pos = [{int(v): i for i, v in enumerate(o)} for o in (child, p1, p2)]
    bad = [(a, b) for a in range(n) for b in range(n)
           if a != b and pos[1][a] < pos[1][b] and pos[2][a] < pos[2][b] and pos[0][a] > pos[0][b]]
    H.check(not bad, label + ': works ordered alike in both parents keep that order', lambda: f'{list(p1)} x {list(p2)} -> '
            f'{list(child)}')


def h_order_crossover(H):
    """two_point_order_crossover of any two orders with any admissible minimal amount"""
    o = _ops()
    n = 5 if H.symbolic else int(H.int('n', 2, 9))
    p1, p2 = list(range(n)), _perm(H, n)
    child, other = np.array(p1), np.array(p2)
    least = H.pick('least', list(range(0, (n - 1) // 3 + 1)))
    res = o.two_point_order_crossover(child, other, least, Rnd(H))
    _pairs_kept(H, child if res is None else res, p1, p2, 'crossover')
    H.check(list(other) == p2, 'the other parent is unchanged')


def _ind(order, res, borders):
    from sampo.schemas.schedule_spec import ScheduleSpec
    return (np.array(order), res, borders, ScheduleSpec(), np.zeros((len(order), 0), dtype=int))


def h_mate_order(H):
    """mate_scheduling_order of two orders sorted by priority"""
    o = _ops()
    n = 4 if H.symbolic else int(H.int('n', 1, 11))
    tb = toolbox()
    prio, cur = [], 1
    for i in range(n):
        if i:
            cur += H.pick(f'step{i}', [0, 1])
        prio.append(cur)
    p1, p2 = list(range(n)), _perm(H, n, within=prio)
    res = np.zeros((n, 2), dtype=int)
    i1, i2 = tb.Individual(_ind(p1, res, np.zeros((1, 1), dtype=int))), tb.Individual(_ind(p2, res.copy(), np.zeros((1, 1), dtype=int)))
    before = snapshot(i1), snapshot(i2)
    copy = H.pick('copy', [True, False])
    c1, c2 = o.mate_scheduling_order(i1, i2, Rnd(H), tb, np.array(prio), copy=copy)
    for c, nm in ((c1, 'first'), (c2, 'second')):
        _pairs_kept(H, c[0], p1, p2, nm + ' child')
        H.check([prio[int(v)] for v in c[0]] == prio, nm + ' child: smaller priorities come first')
        H.check(snapshot(c)[1:] == before[0][1:], nm + ' child: only the order changes')
    if copy:
        H.check((snapshot(i1), snapshot(i2)) == before, 'parents are unchanged')


def _rel(n, edges):
    par, chi = {i: set() for i in range(n)}, {i: set() for i in range(n)}
    for a, b in edges:
        par[b].add(a)
        chi[a].add(b)
    return par, chi


def _dag(H, n):
    """any relations along the identity order; the first work precedes all and the last one follows all"""
    edges = [(a, b) for a in range(1, n - 1) for b in range(a + 1, n - 1) if bool(H.bool(f'e{a}_{b}'))]
    for v in range(1, n - 1):
        edges += [(0, v), (v, n - 1)]
    return edges + ([(0, n - 1)] if n > 1 else [])


def _order_kept(H, order, edges, label):
    n = len(order)
    ok = sorted(int(x) for x in order) == list(range(n))
    H.check(ok, label + ': the order is a permutation', lambda: list(order))
    if ok:
        pos = {int(v): i for i, v in enumerate(order)}
        H.check(all(pos[a] < pos[b] for a, b in edges), label + ': predecessors come first', lambda: f'{list(order)} {edges}')


def h_mutate_order_core(H):
    """one part of an order mutated with any probability"""
    o = _ops()
    n = 6 if H.symbolic else int(H.int('n', 1, 9))
    edges = _dag(H, n)
    par, chi = _rel(n, edges)
    order = np.arange(n)
    o.mutate_scheduling_order_core(order, .5, Rnd(H, max_hits=2 if H.symbolic else None), par, chi)
    _order_kept(H, order, edges, 'mutation')


def h_mutate_order(H):
    """mutate_scheduling_order over priority groups"""
    o = _ops()
    n = 6 if H.symbolic else int(H.int('n', 1, 11))
    edges = [(a, b) for a in range(n) for b in range(a + 1, n)
             if (bool(H.bool(f'e{a}_{b}')) if (not H.symbolic or (a, b) in ((1, 2), (2, 3), (1, 3))) else False)]
    par, chi = _rel(n, edges)
    prio, cur = [], 1
    for i in range(n):
        if i:
            cur += H.pick(f'step{i}', [0, 1] if not H.symbolic or i > 3 else [0])
        prio.append(cur)
    res = np.zeros((n, 2), dtype=int)
    ind = list(_ind(range(n), res, np.zeros((1, 1), dtype=int)))
    before = snapshot(ind)
    out = o.mutate_scheduling_order(ind, .5, Rnd(H, max_hits=2 if H.symbolic else None), np.array(prio), par, chi)
    _order_kept(H, out[0], edges, 'mutation')
    H.check([prio[int(v)] for v in out[0]] == prio, 'smaller priorities come first')
    H.check(snapshot(out)[1:] == before[1:], 'only the order changes')


# ---- resources -------------------------------------------------------------------------------------------------

def _case(H, W, K, C, name='', borders=None, real=None):
    """a feasible resource part: counts, limits, work bounds, allowed contractors"""
    big = dict(lo=0, rhi=9)
    con = [H.pick(f'{name}con{w}', list(range(C))) for w in range(W)]
    real = real or [[H.int(f'real{c}_{k}', **big) for k in range(K)] for c in range(C)]
    bord = borders or [[H.int(f'{name}border{c}_{k}', **big) for k in range(K)] for c in range(C)]
    for c in range(C):
        for k in range(K):
            H.assume(bord[c][k] <= real[c][k])
    return con, real, bord


def _counts(H, con, bord, lo, hi, name=''):
    W, K = len(con), len(bord[0])
    r = [[H.int(f'{name}count{w}_{k}', 0, None, rhi=9) for k in range(K)] for w in range(W)]
    for w in range(W):
        for k in range(K):
            H.assume(And(lo[w][k] <= r[w][k], r[w][k] <= hi[w][k], r[w][k] <= bord[con[w]][k]))
    return r


def _bounds(H, W, K):
    lo = [[H.int(f'min{w}_{k}', 0, None, rhi=3) for k in range(K)] for w in range(W)]
    hi = [[H.int(f'max{w}_{k}', 0, None, rhi=9) for k in range(K)] for w in range(W)]
    for w in range(W):
        for k in range(K):
            H.assume(lo[w][k] <= hi[w][k])
    return lo, hi


def _check_res(H, ind, lo, hi, real, allowed, label):
    res, bord = ind[1], ind[2]
    W, K, C = len(lo), len(lo[0]), len(real)
    for w in range(W):
        c = int(res[w, K])
        if not 0 <= c < C:
            H.check(False, label + ': the contractor exists')
            return
        H.check(bool(allowed[w][c]), label + ': the contractor is allowed for the work')
        for k in range(K):
            v = res[w, k]
            H.check(And(lo[w][k] <= v, v <= hi[w][k]), label + ': counts stay within the bounds of the work')
            H.check(v <= bord[c, k], label + ': counts stay within the limits of the contractor')
    for c in range(C):
        for k in range(K):
            H.check(And(bord[c, k] >= 0, bord[c, k] <= real[c][k]), label + ': limits stay within the real contractor')


def h_mutate_values(H):
    """mutate_values on 1 row of 2 columns and one more"""
    o = _ops()
    W, K = (1, 2) if H.symbolic else (int(H.int('rows', 1, 4)), int(H.int('cols', 1, 4)))
    lo, hi = _bounds(H, W, K)
    cur = [[H.int(f'cur{w}_{k}', 0, None, rhi=9) for k in range(K)] + [7] for w in range(W)]
    mask = [[bool(H.bool(f'mask{w}_{k}')) for k in range(K)] for w in range(W)]
    for w in range(W):
        for k in range(K):
            H.assume(And(lo[w][k] <= cur[w][k], cur[w][k] <= hi[w][k]))
            if mask[w][k]:
                H.assume(lo[w][k] < hi[w][k])
    part = sarr(H, [[99] * (K + 1)] + cur)
    o.mutate_values(part, np.arange(1, W + 1), np.arange(K), sarr(H, lo), sarr(H, hi), np.array(mask), -1, Rnd(H))
    for w in range(W):
        for k in range(K):
            v = part[w + 1, k]
            H.check(And(lo[w][k] <= v, v <= hi[w][k]), 'values stay within their borders')
            if not mask[w][k]:
                H.check(eq(v, cur[w][k]), 'values outside the mask do not change')
        H.check(int(part[w + 1, K]) == 7, 'columns outside the mutated part do not change')
    H.check([int(x) for x in part[0]] == [99] * (K + 1), 'other rows do not change')


def _h_mutate_resources(W, K, C):
    def h(H, W=W, K=K, C=C):
        o = _ops()
        if not H.symbolic:
            W, K, C = int(H.int('W', 1, 5)), int(H.int('K', 1, 3)), int(H.int('C', 1, 3))
        con, real, bord = _case(H, W, K, C)
        lo, hi = _bounds(H, W, K)
        r = _counts(H, con, bord, lo, hi)
        allowed = [[1 if c == con[w] or bool(H.bool(f'allow{w}_{c}')) else 0 for c in range(C)] for w in range(W)]
        ind = list(_ind(range(W), sarr(H, [r[w] + [con[w]] for w in range(W)]), sarr(H, bord)))
        table = np.zeros((2, K, W), dtype=object if H.symbolic else float)
        for w in range(W):
            for k in range(K):
                table[0, k, w], table[1, k, w] = lo[w][k], hi[w][k]
        out = o.mutate_resources(ind, .5, Rnd(H), table, np.array(allowed))
        _check_res(H, out, lo, hi, real, allowed, 'mutation of resources')
        H.check([int(x) for x in out[0]] == list(range(W)), 'the order does not change')
        for c in range(C):
            for k in range(K):
                H.check(eq(out[2][c, k], bord[c][k]), 'limits do not change')
    return h


def _h_mutate_borders(W, K, C):
    def h(H, W=W, K=K, C=C):
        o = _ops()
        if not H.symbolic:
            W, K, C = int(H.int('W', 1, 5)), int(H.int('K', 1, 3)), int(H.int('C', 1, 3))
        con, real, bord = _case(H, W, K, C)
        lo, hi = _bounds(H, W, K)
        r = _counts(H, con, bord, lo, hi)
        allowed = [[1 if c == con[w] else 0 for c in range(C)] for w in range(W)]
        ind = list(_ind(range(W), sarr(H, [r[w] + [con[w]] for w in range(W)]), sarr(H, bord)))
        out = o.mutate_resource_borders(ind, .5, Rnd(H), sarr(H, real))
        _check_res(H, out, lo, hi, real, allowed, 'mutation of limits')
        for w in range(W):
            for k in range(K):
                H.check(eq(out[1][w, k], r[w][k]), 'counts do not change')
        H.check([int(x) for x in out[0]] == list(range(W)), 'the order does not change')
    return h


def _h_mate_resources(W, K, C):
    def h(H, W=W, K=K, C=C):
        o = _ops()
        if not H.symbolic:
            W, K, C = int(H.int('W', 1, 8)), int(H.int('K', 1, 3)), int(H.int('C', 1, 3))
        tb = toolbox()
        opt = H.pick('optimize', [True, False])
        con1, real, bord1 = _case(H, W, K, C, 'a')
        con2, _, bord2 = _case(H, W, K, C, 'b', real=real, borders=None if opt else bord1)
        lo, hi = _bounds(H, W, K)
        r1, r2 = _counts(H, con1, bord1, lo, hi, 'a'), _counts(H, con2, bord2, lo, hi, 'b')
        allowed = [[1 if c in (con1[w], con2[w]) else 0 for c in range(C)] for w in range(W)]
        i1 = tb.Individual(_ind(range(W), sarr(H, [r1[w] + [con1[w]] for w in range(W)]), sarr(H, bord1)))
        i2 = tb.Individual(_ind(range(W), sarr(H, [r2[w] + [con2[w]] for w in range(W)]), sarr(H, bord2)))
        b1, b2 = snapshot(i1), snapshot(i2)
        copy = H.pick('copy', [True, False])
        c1, c2 = o.mate_resources(i1, i2, Rnd(H), opt, tb, copy=copy)
        for c, nm in ((c1, 'first child'), (c2, 'second child')):
            _check_res(H, c, lo, hi, real, allowed, nm)
            H.check([int(x) for x in c[0]] == list(range(W)), nm + ': the order does not change')
        if copy:
            for i, b in ((i1, b1), (i2, b2)):
                for x, y in zip(snapshot(i), b):
                    H.check(len(x) == len(y) and And(*[eq(p, q) for p, q in zip(x, y)]), 'parents are unchanged')
    return h


def h_zones(H):
    """zone operators keep statuses among the available ones"""
    o = _ops()
    W, Z = (2, 1) if H.symbolic else (int(H.int('W', 1, 5)), int(H.int('Z', 0, 3)))
    n = int(H.int('statuses', 1, 2 if H.symbolic else 3))
    tb = toolbox()

    def mk(name):
        z = np.array([[int(H.int(f'{name}{w}_{k}', 0, n - 1)) for k in range(Z)] for w in range(W)], dtype=int).reshape(W, Z)
        return tb.Individual((np.arange(W), np.zeros((W, 2), dtype=int), np.zeros((1, 1), dtype=int), None, z))
    i1, i2 = mk('a'), mk('b')
    b1, b2 = snapshot(i1), snapshot(i2)
    c1, c2 = o.mate_for_zones(i1, i2, Rnd(H), tb)
    H.check((snapshot(i1), snapshot(i2)) == (b1, b2), 'parents are unchanged')
    m = o.mutate_for_zones(c1, .5, Rnd(H, name='m'), n)
    for c in (c1, c2, m):
        H.check(c[4].shape == (W, Z) and all(0 <= int(x) < n for x in c[4].flat), 'statuses stay among the available ones')


# ---- real individuals of random projects -------------------------------------------------------------------------

def mk_toolbox(scn, seed, pb=.4, extra=None):
    from sampo.scheduler.genetic.base import GeneticScheduler
    from sampo.scheduler.genetic.schedule_builder import create_toolbox
    from sampo.schemas.landscape import LandscapeConfiguration
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    kw = dict(extra or {})
    with contextlib.redirect_stdout(io.StringIO()):
        init = GeneticScheduler.generate_first_population(scn.wg, scn.contractors, LandscapeConfiguration(), scn.spec,
                                                          DefaultWorkEstimator())
        tb = create_toolbox(scn.wg, scn.contractors, selection_size=6, mutate_order=pb, mutate_resources=pb, mutate_zones=pb,
                            init_schedules=init, rand=random.Random(seed), spec=scn.spec, work_estimator=DefaultWorkEstimator(),
                            verbose=False, **kw)
        pop = tb.population(n=6)
    return tb, pop, init


def tables(tb):
    """indices as the toolbox uses them: works, kinds, contractors"""
    kw = tb.schedule_to_chromosome.keywords
    inv = lambda d: [k for k, _ in sorted(d.items(), key=lambda kv: kv[1])]
    return inv(kw['work_id2index']), inv(kw['worker_name2index']), inv(kw['contractor2index'])


P10 = [dict(), dict(wg=dict(p_prio=.5, n=10), contractors=dict(m=2)), dict(contractors=dict(m=3, slack=1), spec=dict(p_contr=.4)),
       dict(spec=dict(p_workers=.5, p_partial=.4, p_contr=.3)), dict(contractors=dict(m=3, missing=.4, slack=0)),
       dict(wg=dict(p_min0=.5, n=9)), dict(wg=dict(p_prio=.7, n=14, p_ins=.3, p_edge=.1)), dict(wg=dict(n=12, p_edge=.05, p_ins=.35))]


def sw_real(seed, tier):
    from sampo.schemas.exceptions import NoSufficientContractorError
    r = random.Random(seed)
    prof = P10[r.randrange(len(P10))]
    scn = scenario(seed, **prof)
    try:
        tb, pop, _ = mk_toolbox(scn, seed)
    except NoSufficientContractorError:
        return Case([], False)
    ids, kinds, cids = tables(tb)
    out = []

    def look(ind, what):
        bad = feasible(ind, tb, scn, ids, kinds, cids)
        if not bad and not tb.validate(ind):
            bad = [('validate', 'a feasible individual is judged incorrect')]
        out.extend((t, f'{what}: {m}') for t, m in bad[:2])
        return not bad
    for p in pop:
        if not look(p, 'initial population'):
            return Case(out, True, seed)
    # individuals of any size of limits: the limits optimization stage
    steps = []
    for step in range(10):
        opt = step >= 4
        a, b = r.sample(range(len(pop)), 2)
        what = r.choice(['mate', 'mate', 'mate_order', 'mate_resources', 'mutate', 'mutate_order', 'mutate_resources']
                        + (['mutate_resource_borders'] * 2 if opt else []))
        steps.append(what)
        if what.startswith('mate'):
            before = snapshot(pop[a]), snapshot(pop[b])
            args = {'mate': (opt,), 'mate_order': (), 'mate_resources': ()}[what]
            kw = dict(optimize_resources=opt) if what == 'mate_resources' else {}
            ch = getattr(tb, what)(pop[a], pop[b], *args, **kw)
            if (snapshot(pop[a]), snapshot(pop[b])) != before:
                out.append(('parents', f'{what} changes its input individuals'))
            new = list(ch)
        else:
            ind = tb.copy_individual(pop[a])
            new = [getattr(tb, what)(ind)]
        for i, c in zip((a, b), new):
            if not look(c, f'{"+".join(steps)} step {step} {what}'):
                return Case(out, True, seed)
            pop[i] = c
    return Case(out, True, seed, dict(seed=seed, profile=prof, works=len(ids), contractors=len(cids), steps=steps))


O = 'sampo/scheduler/genetic/operators.py:'
ASSUME = [
    'random.Random methods return an arbitrary value of the documented set (nondeterministic source in sv/genes.py)',
    'deap toolbox registration and numpy fancy indexing are executed as installed; numpy arrays hold symbolic integers as objects',
    'mate_resources without optimize_resources: both individuals have the same limits (as in the stage that does not optimize them)',
    'orders of feasible individuals are sorted by priority (C12)',
]


CHECK = Check('C10', 'bounded', proofs=[
        Proof('order-crossover', h_order_crossover, [O + 'two_point_order_crossover', O + 'get_order_part'], kind='bounded',
              bound='orders of 5 works (up to 9 in random runs), every other parent, amount and cut points', secs=90, rnd=500, max_paths=60000),
        Proof('mate-order', h_mate_order, [O + 'mate_scheduling_order', O + 'copy_individual'], kind='bounded',
              bound='4 works (up to 11 random), every split into priority groups, every pair of sorted orders', secs=90, rnd=400, max_paths=60000),
        Proof('mutate-order-part', h_mutate_order_core, [O + 'mutate_scheduling_order_core'], kind='bounded',
              bound='6 works with first and last (up to 9 random), all relations, up to 2 mutated works (any number random)', secs=90,
              rnd=500, max_paths=60000),
        Proof('mutate-order', h_mutate_order, [O + 'mutate_scheduling_order'], kind='bounded',
              bound='6 works in priority groups (up to 11 random)', secs=60, rnd=400, max_paths=60000),
        Proof('mutate-values', h_mutate_values, [O + 'mutate_values'], kind='bounded', bound='1 row, 2 columns, values any integers',
              secs=60, rnd=300),
        Proof('mutate-resources-1x2', _h_mutate_resources(1, 1, 2), [O + 'mutate_resources', O + 'mutate_values'], kind='bounded',
              bound='1 work, 1 kind, 2 contractors, counts, limits and bounds any integers', secs=90, rnd=400, max_paths=60000),
        Proof('mutate-resources-2', _h_mutate_resources(2, 1, 1), [O + 'mutate_resources'], kind='bounded',
              bound='2 works, 1 kind, 1 contractor, values any integers', secs=90, rnd=200, max_paths=60000),
        Proof('mutate-limits', _h_mutate_borders(2, 1, 2), [O + 'mutate_resource_borders', O + 'mutate_values'], kind='bounded',
              bound='2 works, 1 kind, 2 contractors, values any integers', secs=90, rnd=300, max_paths=60000),
        Proof('mate-resources', _h_mate_resources(2, 1, 2), [O + 'mate_resources', O + 'copy_individual'], kind='bounded',
              bound='2 works, 1 kind, 2 contractors, values any integers, every set of exchanged works', secs=120, rnd=300, max_paths=60000),
        Proof('zones', h_zones, [O + 'mate_for_zones', O + 'mutate_for_zones'], kind='bounded', bound='2 works, 1 zone, up to 2 statuses (3 random)',
              secs=60, rnd=200),
    ], sweeps=[
        Sweep('real', sw_real, quick=260, thorough=4000, secs=70, rule='random project, specification and contractors; 10 operators '
              'applied one after another; distinct scenario seeds'),
    ], assumptions=ASSUME, trusted=['numpy', 'deap'])
