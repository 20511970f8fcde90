"""Seeded scenario generator: project graphs, contractors, specifications, landscapes."""
from . import env  # noqa: F401
import random
from dataclasses import dataclass, field

import sampo.scheduler  # noqa: F401  (import order matters in SAMPO)
from sampo.schemas.contractor import Contractor
from sampo.schemas.graph import EdgeType, GraphNode, WorkGraph
from sampo.schemas.requirements import WorkerReq, MaterialReq, ZoneReq
from sampo.schemas.resources import Worker
from sampo.schemas.schedule_spec import ScheduleSpec
from sampo.schemas.time import Time
from sampo.schemas.works import WorkUnit

KINDS = ['driver', 'fitter', 'manager', 'handyman', 'electrician', 'engineer']


@dataclass
class Scenario:
    seed: int
    wg: WorkGraph
    contractors: list
    spec: ScheduleSpec
    landscape: object = None
    opts: dict = field(default_factory=dict)
    start: int = 0


def mk_wg(r: random.Random, n=8, kinds=3, p_edge=0.35, p_ins=0.15, lags=True, frac_lags=False, neg_lags=False,
          p_prio=0.0, vol=(1, 40), ffs=True, p_noreq=0.08, inner_parents=True, shuffle_ids=True, ss_ff=False,
          p_min0=0.0, wide=False):
    ks = KINDS[:kinds]
    ids = [f'n{i:02d}' for i in range(n)]
    if shuffle_ids:
        r.shuffle(ids)
    nodes = []
    reqs_of = {}
    ins_son = set()

    def mkreqs():
        if r.random() < p_noreq:
            return []
        k = r.randint(1, min(3, len(ks)))
        out = []
        for kind in r.sample(ks, k):
            mn = r.randint(1, 3)
            if r.random() < p_min0:
                mn = 0
            mx = mn + r.randint(0, 4)
            if mx == 0:
                mx = 1
            out.append(WorkerReq(kind, Time(r.randint(*vol)), mn, mx))
        return out

    def lag():
        if not lags or r.random() < 0.45:
            return 0
        if neg_lags and r.random() < 0.25:
            return -1
        if frac_lags and r.random() < 0.3:
            return round(r.uniform(0, 6), 2)
        return r.randint(1, 9)

    for i in range(n):
        edges = []
        ins_parent = None
        if i and r.random() < p_ins:
            cands = [p for p in nodes if p.id not in ins_son and reqs_of[p.id]]
            # the last candidates keep chains likely
            if cands:
                ins_parent = r.choice(cands[-3:])
                ins_son.add(ins_parent.id)
        if ins_parent is not None:
            base = reqs_of[ins_parent.id]
            reqs = [WorkerReq(q.kind, Time(r.randint(*vol)), q.min_count, q.max_count) for q in base]
            edges.append((ins_parent, 0, EdgeType.InseparableFinishStart))
        else:
            reqs = mkreqs()
        if ins_parent is None or inner_parents:
            for p in nodes:
                if p is ins_parent:
                    continue
                pe = p_edge * (0.4 if ins_parent is not None else 1.0)
                if r.random() < pe:
                    if ins_parent is not None and _reaches_chain(ins_parent, p):
                        continue
                    t = EdgeType.FinishStart
                    if ffs and r.random() < 0.25:
                        t = EdgeType.LagFinishStart
                    if ss_ff and r.random() < 0.3:
                        t = r.choice([EdgeType.StartStart, EdgeType.FinishFinish])
                    edges.append((p, lag(), t))
        wu = WorkUnit(ids[i], f'work_{ids[i]}', worker_reqs=reqs, volume=float(r.randint(1, 60)),
                      group=f'g{i % 3}', priority=1)
        node = GraphNode(wu, edges)
        reqs_of[wu.id] = reqs
        nodes.append(node)
    if p_prio:
        # priorities are made consistent: a child never has a smaller priority value than its parents
        for node in nodes:
            base = max([p.work_unit.priority for p in node.parents], default=1)
            node.work_unit.priority = base + (1 if r.random() < p_prio else 0)
        for node in nodes:       # chains share one priority
            ch = node.get_inseparable_chain()
            if ch:
                m = max(c.work_unit.priority for c in ch)
                for c in ch:
                    c.work_unit.priority = m
        changed = True
        while changed:
            changed = False
            for node in nodes:
                m = max([p.work_unit.priority for p in node.parents], default=1)
                if node.work_unit.priority < m:
                    node.work_unit.priority = m
                    changed = True
            for node in nodes:
                ch = node.get_inseparable_chain()
                if ch and len({c.work_unit.priority for c in ch}) > 1:
                    m = max(c.work_unit.priority for c in ch)
                    for c in ch:
                        c.work_unit.priority = m
                    changed = True
    return WorkGraph.from_nodes(nodes, rand=random.Random(r.randint(0, 10 ** 9)))


def _reaches_chain(ins_parent, p):
    """True if making p a parent of a new inseparable son of ins_parent would make the flattened chain graph cyclic:
    p must not be a (flattened) descendant of the chain that ends in ins_parent."""
    head = ins_parent
    while head.inseparable_parent is not None:
        head = head.inseparable_parent
    chain = set(x.id for x in head.get_inseparable_chain_with_self())
    seen = set()
    stack = [p]
    while stack:
        v = stack.pop()
        if v.id in seen:
            continue
        seen.add(v.id)
        if v.id in chain:
            return True
        h = v
        while h.inseparable_parent is not None:
            h = h.inseparable_parent
        for c in h.get_inseparable_chain_with_self():
            for e in c.edges_to:
                stack.append(e.start)
    return False


def chains_acyclic(wg):
    """The flattened (inseparable chains merged) graph must be acyclic for any schedule to exist."""
    from sampo.scheduler.utils import get_head_nodes_with_connections_mappings
    try:
        get_head_nodes_with_connections_mappings(wg)
        return True
    except Exception:
        return False


def mk_contractors(r: random.Random, wg, m=2, slack=3, shuffle=True, missing=0.0, tight=True, full_first=True):
    need_min, need_max = {}, {}
    for node in wg.nodes:
        for q in node.work_unit.worker_reqs:
            need_min[q.kind] = max(need_min.get(q.kind, 0), q.min_count)
            need_max[q.kind] = max(need_max.get(q.kind, 0), q.max_count)
    kinds = sorted(need_min) or ['driver']
    out = []
    for j in range(m):
        ks = list(kinds)
        if shuffle:
            r.shuffle(ks)
        workers = {}
        for k in ks:
            lo = max(1, need_min.get(k, 1))
            cnt = lo + r.randint(0, slack)
            if j > 0 and r.random() < missing:
                if r.random() < 0.5:
                    continue
                cnt = max(1, lo - 1)
            workers[k] = Worker(f'w{j}{k}', k, cnt, contractor_id=f'c{j}', cost_one_unit=float(r.randint(1, 9)))
        if r.random() < 0.25:
            workers['extra'] = Worker(f'w{j}x', 'extra', 2, contractor_id=f'c{j}')
            if shuffle:
                items = list(workers.items())
                r.shuffle(items)
                workers = dict(items)
        out.append(Contractor(id=f'c{j}', name=f'Contractor {j}', workers=workers, equipments={}))
    if shuffle:
        r.shuffle(out)
    return out


def able(contractor, node):
    return all(q.kind in contractor.workers and contractor.workers[q.kind].count >= q.min_count
               for q in node.work_unit.worker_reqs)


def mk_spec(r: random.Random, wg, contractors, p_contr=0.2, p_time=0.0, p_workers=0.0, p_partial=0.0, p_indep=0.0):
    spec = ScheduleSpec()
    for node in wg.nodes:
        wu = node.work_unit
        if wu.is_service_unit or node.is_inseparable_son():
            continue
        chain = node.get_inseparable_chain_with_self()
        if r.random() < p_contr:
            good = [c.id for c in contractors if able(c, node)]
            if good:
                ids = set(r.sample(good, r.randint(1, len(good))))
                for c in chain:
                    spec.assign_contractors(c.id, set(ids))
        if r.random() < p_time and wu.worker_reqs:
            spec.set_exec_time(wu.id, Time(r.randint(1, 25)))
        if r.random() < p_workers and wu.worker_reqs:
            ws = spec.get_work_spec(wu.id)
            cs = [c for c in contractors if (not ws.contractors or c.id in ws.contractors) and able(c, node)]
            if cs:
                c = r.choice(cs)
                full = {q.kind: r.randint(max(1, q.min_count), max(1, min(q.max_count, c.workers[q.kind].count)))
                        for q in wu.worker_reqs}
                if all(v >= 1 for v in full.values()):
                    if p_partial and len(full) > 1 and r.random() < p_partial:
                        k = r.choice(sorted(full))
                        full.pop(k)
                    spec.assign_workers_dict(wu.id, full)
                    for ch in chain:
                        spec.assign_contractors(ch.id, {c.id})
        if r.random() < p_indep and wu.worker_reqs:
            spec.get_work_spec(wu.id).is_independent = True
    return spec


def scenario(seed: int, **o) -> Scenario:
    """One random scenario; `o` overrides generator options."""
    k = 0
    while True:
        r = random.Random(f'{seed}/{k}')
        g = dict(n=r.randint(3, 11), kinds=r.randint(1, 4), p_edge=r.choice([0.1, 0.25, 0.45]),
                 p_ins=r.choice([0.0, 0.2, 0.35]), frac_lags=r.random() < 0.3, p_prio=r.choice([0.0, 0.0, 0.25]))
        g.update(o.get('wg', {}))
        wg = mk_wg(r, **g)
        if chains_acyclic(wg):
            break
        k += 1
    c = dict(m=r.randint(1, 3), slack=r.choice([0, 2, 5]), missing=r.choice([0, 0.3]))
    c.update(o.get('contractors', {}))
    contractors = mk_contractors(r, wg, **c)
    s = dict()
    s.update(o.get('spec', {}))
    spec = mk_spec(r, wg, contractors, **s)
    start = 0 if o.get('start') is None else (r.choice([0, 0, 7, 113]) if o['start'] == 'rand' else o['start'])
    return Scenario(seed, wg, contractors, spec, opts=dict(g=g, c=c, s=s), start=start)
