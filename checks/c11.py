"""C11 schedules and chromosomes convert into each other."""
import contextlib
import copy
import io
import random

import numpy as np

from checks.c10 import mk_toolbox, tables, P10, _case, _bounds, _counts
from checks.c21 import _dags, _nodes
from sv import decode_any, encode_any, judge_any, tl, oracle
from sv.genes import Rnd, sarr, feasible, heads, snapshot
from sv.pyvc import And, Or, Not, Implies, Ite, eq, time_stub_exact
from sv.run import Check, Proof, Sweep, Case
from sv.scen import scenario

X = (time_stub_exact,)


def _o():
    from sampo.scheduler.genetic import operators
    return operators


def _c():
    from sampo.scheduler.genetic import converter
    return converter


def _contractor(i, counts=None):
    from sampo.schemas.contractor import Contractor
    return Contractor(f'c{i}', f'C{i}', {k: tl.worker(k, v, f'c{i}') for k, v in (counts or {}).items()})


def h_order_correct(H):
    """is_chromosome_order_correct <=> predecessors come first and have no bigger priority value"""
    n = 4 if H.symbolic else int(H.int('n', 1, 7))
    par = {i: set() for i in range(n)}
    for b in range(n):
        for a in range(b):
            if bool(H.bool(f'e{a}_{b}')):
                par[b].add(a)
    left, order = list(range(n)), []
    for i in range(n):
        v = H.pick(f'perm{i}', left)
        left.remove(v)
        order.append(v)
    pr = [H.int(f'prio{i}', 0, 3, rhi=2) for i in range(n)]

    class WU:
        def __init__(s, p): s.priority = p

    class Node:
        def __init__(s, i): s.work_unit, s.id = WU(pr[i]), f'n{i}'
    got = _o().is_chromosome_order_correct((np.array(order),), par, {i: Node(i) for i in range(n)})
    pos = {v: i for i, v in enumerate(order)}
    topo = all(pos[a] < pos[b] for b in par for a in par[b])
    want = And(topo, *[pr[a] <= pr[b] for b in par for a in par[b]])
    H.check(want if got else Not(want), 'judged correct exactly if predecessors come first and have no bigger priority value',
            lambda: f'{order} {par} {pr} -> {got}')


def _h_contractors(W, K, C):
    def h(H, W=W, K=K, C=C):
        """is_chromosome_contractors_correct <=> allowed contractors, counts within limits, limits of used ones within the contractor"""
        from sampo.schemas.schedule_spec import ScheduleSpec
        if not H.symbolic:
            W, K, C = int(H.int('W', 1, 5)), int(H.int('K', 1, 3)), int(H.int('C', 1, 3))
        con = [H.pick(f'con{w}', list(range(C))) for w in range(W)]
        cnt = [[H.int(f'count{w}_{k}', 0, None, rhi=4) for k in range(K)] for w in range(W)]
        bord = [[H.int(f'limit{c}_{k}', 0, None, rhi=5) for k in range(K)] for c in range(C)]
        real = [[H.int(f'real{c}_{k}', 0, None, rhi=6) for k in range(K)] for c in range(C)]
        spec, allowed = ScheduleSpec(), []
        for w in range(W):
            a = H.pick(f'allowed{w}', [set(), {f'c{con[w]}'}, {f'c{(con[w] + 1) % C}'}, {f'c{c}' for c in range(C)}])
            spec.assign_contractors(f'n{w}', a)
            allowed.append(not a or f'c{con[w]}' in a)

        class Node:
            def __init__(s, i): s.id = f'n{i}'
        ind = (np.arange(W), sarr(H, [cnt[w] + [con[w]] for w in range(W)]), sarr(H, bord), spec, None)
        got = _o().is_chromosome_contractors_correct(ind, list(range(W)), sarr(H, real), {i: Node(i) for i in range(W)},
                                                     {c: _contractor(c) for c in range(C)})
        want = And(all(allowed), *[cnt[w][k] <= bord[con[w]][k] for w in range(W) for k in range(K)],
                   *[bord[con[w]][k] <= real[con[w]][k] for w in range(W) for k in range(K)])
        H.check(want if got else Not(want), 'judged correct exactly if contractors are allowed and able to supply the workers',
                lambda: f'{con} {cnt} {bord} {real} -> {got}')
    return h


def _h_encode(n, K, C):
    def h(H, n=n, K=K, C=C):
        """convert_schedule_to_chromosome keeps order, teams and contractors"""
        from sampo.schemas.graph import GraphNode
        from sampo.schemas.landscape import LandscapeConfiguration
        from sampo.schemas.schedule_spec import ScheduleSpec
        from sampo.schemas.works import WorkUnit
        if not H.symbolic:
            n, K, C = int(H.int('n', 1, 6)), int(H.int('K', 1, 4)), int(H.int('C', 1, 3))
        rot = H.int('rot', 0, n - 1)
        rot = int(rot)
        ids = {f'n{i}': (i + rot) % n for i in range(n)}
        krot = int(H.int('krot', 0, K - 1))
        kinds = {f'k{i}': (i + krot) % K for i in range(K)}
        cons = {f'c{i}': C - 1 - i for i in range(C)}
        nodes = [GraphNode(WorkUnit(f'n{i}', f'n{i}'), []) for i in range(n)]
        left, order = list(nodes), []
        for i in range(n):
            v = H.pick(f'perm{i}', left)
            left.remove(v)
            order.append(v)
        works, cnt, who = {}, {}, {}

        class SW:
            def __init__(s, ws, c): s.workers, s.contractor_id, s.contractor = ws, c, c
        spec = ScheduleSpec()
        for v in nodes:
            who[v.id] = H.pick('con_' + v.id, list(cons))
            has = [k for k in kinds if bool(H.bool(f'has_{v.id}_{k}'))]
            cnt[v.id] = {k: H.int(f'cnt_{v.id}_{k}', 1, None, rhi=9) for k in has}
            works[v.id] = SW([tl.worker(k, cnt[v.id][k], who[v.id]) for k in has], who[v.id])
            if bool(H.bool(f'spec_{v.id}')):
                spec.assign_contractors(v.id, {who[v.id]})

        class S:
            to_schedule_work_dict = works
        real = sarr(H, [[H.int(f'real{c}_{k}', 0, None, rhi=9) for k in range(K)] for c in range(C)])
        before = [x for x in real.flat]
        ch = _c().convert_schedule_to_chromosome(ids, kinds, cons, real, S(), spec, LandscapeConfiguration(), order)
        H.check([int(x) for x in ch[0]] == [ids[v.id] for v in order], 'the order is kept')
        for v in nodes:
            row = ch[1][ids[v.id]]
            for k in kinds:
                H.check(eq(row[kinds[k]], cnt[v.id].get(k, 0)), 'the team is kept')
            if cnt[v.id]:
                H.check(int(row[K]) == cons[who[v.id]], 'the contractor is kept')
            else:
                a = spec[v.id].contractors or set(cons)
                H.check(int(row[K]) in [cons[c] for c in a], 'a work without workers gets an allowed contractor')
        H.check(And(*[eq(a, b) for a, b in zip(ch[2].flat, before)]) and ch[2] is not real, 'limits are those of the contractors, copied')
        H.check(ch[3] is not spec and ch[3]._work2spec == spec._work2spec and
                all(ch[3]._work2spec[x] is not spec._work2spec[x] for x in spec._work2spec if x in ch[3]._work2spec),
                'the specification is copied')
    return h


def _some(n):
    r = random.Random(n)
    ps = [(a, b) for a in range(n) for b in range(a + 1, n)]
    return [[e for e in ps if r.random() < p] for p in (0, .1, .2, .3, .4) for _ in range(8)]


def _h_decode(n, scheme, dags=None, times=True, symbolic=True):
    dags = list(dags or _dags(n))

    def h(H):
        """decoding of a feasible chromosome"""
        from sampo.api.genetic_api import ScheduleGenerationScheme as S
        from sampo.schemas.landscape import LandscapeConfiguration
        from sampo.schemas.requirements import WorkerReq
        from sampo.schemas.schedule_spec import ScheduleSpec
        from sampo.schemas.time import Time
        from sampo.scheduler.utils import get_worker_contractor_pool
        edges = H.pick('edges', dags if symbolic or not H.symbolic else [[(i, i + 1) for i in range(n - 1)]])
        nodes = _nodes(n, edges)
        inner = nodes[1:-1]
        own = H.int('own', 1, 10 ** 6, rhi=8)
        lim = H.int('limit', 1, 10 ** 6, rhi=6)
        H.assume(lim <= own)
        dur, cnt, spec = {}, {}, ScheduleSpec()
        for v in inner:
            v.work_unit.worker_reqs = [WorkerReq('a', Time(5), 1, 10 ** 6)]
            cnt[v.id] = H.int('cnt_' + v.id, 1, 10 ** 6, rhi=4)
            H.assume(cnt[v.id] <= lim)
            dur[v.id] = H.int('dur_' + v.id, 0, 10 ** 6, rhi=4)
        st0 = H.int('start', 0, 10 ** 6, rhi=5) if times else 0
        cs = [_contractor(0, dict(a=own))]
        pool = get_worker_contractor_pool(cs)
        # order: any linear extension
        left, order = list(inner), [nodes[0]]
        while left:
            ok = [v for v in left if all(p is nodes[0] or p in order for p in v.parents)]
            v = H.pick(f'next{len(order)}', ok)
            left.remove(v)
            order.append(v)
        order.append(nodes[-1])
        idx = {v.id: i for i, v in enumerate(nodes)}
        ch = (np.array([idx[v.id] for v in order]), sarr(H, [[cnt.get(v.id, 0), 0] for v in nodes]), sarr(H, [[lim]]), spec,
              np.zeros((len(nodes), 0), dtype=int))
        before = snapshot(ch)

        class Est:
            def estimate_time(s, wu, workers): return Time(dur.get(wu.id, 0))
        res = _c().convert_chromosome_to_schedule(ch, pool, {i: v for i, v in enumerate(nodes)}, {0: cs[0]}, {}, {0: {0: cs[0].workers['a']}},
                                                  {'a': 0}, {'c0': 0}, LandscapeConfiguration(), None, Time(st0), Est(), getattr(S, scheme))
        sw = {v.id: w for v, w in res[0].items()}
        H.check(sorted(sw) == sorted(idx), 'every work is scheduled once')
        if sorted(sw) != sorted(idx):
            return
        s = {x: w.start_time.value for x, w in sw.items()}
        f = {x: w.finish_time.value for x, w in sw.items()}
        for v in nodes:
            ws = {w.name: w for w in sw[v.id].workers if eq(w.count, 0) is not True and not (v.id not in cnt and w.count == 0)}
            H.check(set(ws) == ({'a'} if v.id in cnt else set()) and all(w.contractor_id == 'c0' for w in ws.values()),
                    'the team is of the prescribed kinds and contractor')
            if v.id in cnt and 'a' in ws:
                H.check(eq(ws['a'].count, cnt[v.id]), 'the team is the prescribed one')
                H.check(sw[v.id].contractor_id == 'c0', 'the contractor is the prescribed one')
            H.check(s[v.id] >= st0, 'nothing starts before the start of the project')
            H.check(eq(f[v.id] - s[v.id], dur.get(v.id, 0)), 'the duration is the estimated one')
            for p in v.parents:
                H.check(f[p.id] <= s[v.id], 'predecessors finish first')
        for v in inner:
            # the sum changes at starts only
            busy = sum((Ite(And(s[u.id] <= s[v.id], s[v.id] < f[u.id]), cnt[u.id], 0) for u in inner), start=0)
            H.check(Or(eq(dur[v.id], 0), busy <= lim), 'limits of the chromosome are respected')
        H.check(And(*[And(*[eq(a, b) for a, b in zip(x, y)]) for x, y in zip(snapshot(ch), before)]), 'the chromosome is unchanged')
        H.check(eq(pool['a']['c0'].count, own), 'the given pool is unchanged')
    return h


# ---- real projects ---------------------------------------------------------------------------------------------

def _limits_scn(scn, ind, kinds, cids):
    """the project with contractors that own exactly the limits of the chromosome"""
    s = copy.copy(scn)
    cs = []
    for c in scn.contractors:
        i = cids.index(c.id)
        d = copy.copy(c)
        d.workers = {}
        for nm, w in c.workers.items():
            d.workers[nm] = tl.worker(nm, int(ind[2][i][kinds.index(nm)]), c.id)
        cs.append(d)
    s.contractors = cs
    return s


def decode_problems(ind, tb, scn, scheme, start):
    from sampo.api.genetic_api import ScheduleGenerationScheme as S
    from sampo.schemas.schedule import Schedule
    from sampo.schemas.time import Time
    ids, kinds, cids = tables(tb)
    before = snapshot(ind)
    works = tb.chromosome_to_schedule(ind, sgs_type=getattr(S, scheme), assigned_parent_time=Time(start))[0]
    out = []
    if snapshot(ind) != before:
        out.append(('changed', f'{scheme}: decoding changes the chromosome'))
    sch = Schedule.from_scheduled_works(works.values(), scn.wg)
    if not oracle.is_finite(sch):
        return [('infinite', f'{scheme}: infinite times')], None
    lim = _limits_scn(scn, ind, kinds, cids)
    lim.start = start
    for fn in (oracle.check_complete, oracle.check_precedence, oracle.check_start, oracle.check_capacity, oracle.check_chain,
               oracle.check_spec):
        out += [(t, f'{scheme}: {m}') for t, m in fn(sch, lim)]
    chain = oracle.chain_of(scn)
    sw = oracle.sworks(sch)
    for v in scn.wg.nodes:
        if v.id not in sw:
            continue
        h = chain[v.id]
        row = ind[1][ids.index(h.id)]
        want = {k: int(row[i]) for i, k in enumerate(kinds) if row[i] and k in {q.kind for q in h.work_unit.worker_reqs}}
        got = {w.name: w.count for w in sw[v.id].workers if w.count}
        cid = cids[int(row[-1])]
        if got != want:
            out.append(('team', f'{scheme}: {v.id} has team {got}, the chromosome prescribes {want}'))
        if sw[v.id].contractor_id != cid or any(w.contractor_id != cid for w in sw[v.id].workers):
            out.append(('contractor', f'{scheme}: {v.id} is done by {sw[v.id].contractor_id} '
                        f'({ {w.contractor_id for w in sw[v.id].workers} }), the chromosome prescribes {cid}'))
    return out, sch


def sw_decode(seed, tier):
    from sampo.schemas.exceptions import NoSufficientContractorError
    r = random.Random(seed)
    prof = (P10 + [dict(spec=dict(p_time=.4)), dict(spec=dict(p_indep=.4))])[r.randrange(len(P10) + 2)]
    scn = scenario(seed, **prof)
    try:
        tb, pop, init = mk_toolbox(scn, seed)
    except NoSufficientContractorError:
        return Case([], False)
    ids, kinds, cids = tables(tb)
    out = []
    # encoding of the heuristic schedules
    for nm, (sch, order, sp, _) in sorted(init.items()):
        if sch is None:
            continue
        ch = tb.schedule_to_chromosome(schedule=sch, order=order)
        if [ids[int(i)] for i in ch[0]] != [v.id for v in order]:
            out.append(('order', f'{nm}: order of the chromosome differs from the order of the schedule'))
        sw = oracle.sworks(sch)
        for v in order:
            row = ch[1][ids.index(v.id)]
            got = {k: int(row[i]) for i, k in enumerate(kinds) if row[i]}
            want = {w.name: w.count for w in sw[v.id].workers if w.count}
            if got != want:
                out.append(('encode-team', f'{nm}: {v.id} has team {want}, encoded as {got}'))
            if want and cids[int(row[-1])] != sw[v.id].workers[0].contractor_id:
                out.append(('encode-contractor', f'{nm}: {v.id} is done by {sw[v.id].workers[0].contractor_id}, encoded as {cids[int(row[-1])]}'))
    # decoding of varied individuals
    for i in range(3):
        ind = tb.copy_individual(pop[r.randrange(len(pop))])
        for _ in range(r.randint(0, 3)):
            ind = getattr(tb, r.choice(['mutate', 'mutate_resource_borders']))(ind)
        if feasible(ind, tb, scn, ids, kinds, cids):
            continue          # C10
        if not tb.validate(ind):
            out.append(('validate', 'a feasible individual is judged incorrect'))
            continue
        for scheme in ('Parallel', 'Serial'):
            out += decode_problems(ind, tb, scn, scheme, r.choice([0, 0, 11]))[0]
        # what is judged correct must be correct
        bad = tb.copy_individual(ind)
        w = r.randrange(len(ids))
        how = r.choice(['swap', 'count', 'contractor', 'limit'])
        if how == 'swap':
            a, b = r.sample(range(len(ids)), 2)
            bad[0][a], bad[0][b] = bad[0][b], bad[0][a]
        elif how == 'count':
            bad[1][w, r.randrange(len(kinds))] += r.randint(1, 6)
        elif how == 'contractor':
            bad[1][w, -1] = r.randrange(len(cids))
        else:
            bad[2][r.randrange(len(cids)), r.randrange(len(kinds))] += r.randint(-4, 4)
        probs = feasible(bad, tb, scn, ids, kinds, cids)
        used = {int(x) for x in bad[1][:, -1]}
        hs, par = heads(scn.wg)
        probs = [p for p in probs if p[0] in ('precedence', 'permutation', 'contractor', 'limits')
                 or (p[0] == 'borders' and any((bad[2][c] > ind[2][c]).any() for c in used))]
        if probs and tb.validate(bad):
            out.append(('accepted', f'judged correct although {probs[0][1]} ({how})'))
        if out:
            break
    return Case(out[:4], True, seed, dict(seed=seed, profile=prof, works=len(ids), contractors=len(cids)))


C = 'sampo/scheduler/genetic/converter.py:'
O = 'sampo/scheduler/genetic/operators.py:'
DEC = {'Parallel': [C + 'parallel_schedule_generation_scheme', C + 'convert_chromosome_to_schedule'],
       'Serial': [C + 'serial_schedule_generation_scheme', C + 'convert_chromosome_to_schedule']}
PROOFS = [
    Proof('judge-order', h_order_correct, [O + 'is_chromosome_order_correct'], kind='bounded',
          bound='4 works (up to 7 random), every order and relation, symbolic priorities', secs=60, rnd=400, max_paths=60000),
    Proof('judge-contractors', _h_contractors(2, 1, 2), [O + 'is_chromosome_contractors_correct'], kind='bounded',
          bound='2 works, 1 kind, 2 contractors (5, 3, 3 random), counts and limits any integers', secs=60, rnd=400, max_paths=60000),
    Proof('encode', _h_encode(2, 2, 2), [C + 'convert_schedule_to_chromosome'], kind='bounded',
          bound='2 works, 2 kinds, 2 contractors (6, 4, 3 random), counts any integers', secs=60, rnd=300, max_paths=60000),
]
for _n, _s, _secs in ((1, 'Parallel', 30), (2, 'Parallel', 60), (1, 'Serial', 30), (2, 'Serial', 60)):
    PROOFS.append(Proof(f'decode-{_s.lower()}/{_n}', _h_decode(_n, _s), DEC[_s], kind='bounded', stubs=X,
                        bound=f'every graph of {_n} works of one kind and contractor, counts, limit, durations and start any integers',
                        secs=_secs, rnd=200, max_paths=60000))
PROOFS.append(Proof('decode-serial/3', _h_decode(3, 'Serial', [[(0, 1)], [(0, 2), (1, 2)]]), DEC['Serial'], kind='bounded', stubs=X,
                    bound='two graphs of 3 works', secs=90, rnd=50, max_paths=60000))
for _s in ('Parallel', 'Serial'):
    PROOFS.append(Proof(f'decode-{_s.lower()}/5', _h_decode(5, _s, _some(5), symbolic=False), DEC[_s], kind='bounded', stubs=X,
                        bound='a sequence of 5 works; random graphs of 5 works in random runs', secs=90, rnd=300))
PROOFS += encode_any.proofs() + judge_any.proofs() + decode_any.proofs()
SWEEPS = [Sweep('conversion', sw_decode, quick=200, thorough=4000, secs=70, rule='random projects; schedules of the heuristics encoded, '
                'mutated individuals decoded by both schemes and damaged individuals judged')]
CHECK = Check('C11', 'bounded', proofs=PROOFS, sweeps=SWEEPS, assumptions=[
    'numpy arrays hold symbolic integers as objects', 'orders are permutations of the works (C10)',
    'a work without workers may be given to any allowed contractor when encoded'], trusted=['numpy', 'sortedcontainers'])
