"""Independent oracles over produced schedules: they only read public data (works, times, teams) and recompute everything."""
from . import env  # noqa: F401
from collections import defaultdict

INF = 2_000_000_000


def sworks(schedule):
    return {w.id: w for w in schedule.works}


def tv(t):
    return int(getattr(t, 'value', t))


def is_finite(schedule):
    return all(abs(tv(w.finish_time)) < INF and abs(tv(w.start_time)) < INF for w in schedule.works)


def check_complete(schedule, scn):
    out = []
    ids = [w.id for w in schedule.works]
    want = [n.id for n in scn.wg.nodes]
    if len(ids) != len(set(ids)):
        out.append(('duplicate', f'work scheduled twice: {sorted(i for i in set(ids) if ids.count(i) > 1)[:3]}'))
    miss = set(want) - set(ids)
    extra = set(ids) - set(want)
    if miss:
        out.append(('missing', f'works of the graph absent from the schedule: {sorted(miss)[:3]}'))
    if extra:
        out.append(('extra', f'works not in the graph: {sorted(extra)[:3]}'))
    for w in schedule.works:
        if tv(w.start_time) > tv(w.finish_time):
            out.append(('negative', f'{w.id}: finish {w.finish_time} before start {w.start_time}'))
    return out


def check_precedence(schedule, scn):
    out = []
    sw = sworks(schedule)
    for node in scn.wg.nodes:
        if node.id not in sw:
            continue
        for e in node.edges_to:
            if e.start.id not in sw:
                continue
            lo = tv(sw[e.start.id].finish_time) + int(e.lag)
            if tv(sw[node.id].start_time) < lo:
                out.append(('precedence', f'{node.id} starts at {sw[node.id].start_time}, but parent {e.start.id} '
                            f'finishes at {sw[e.start.id].finish_time} with lag {e.lag} ({e.type})'))
    return out


def check_start(schedule, scn):
    out = []
    for w in schedule.works:
        if tv(w.start_time) < scn.start:
            out.append(('start', f'{w.id} starts at {w.start_time} before the project start {scn.start}'))
    return out


def usage_events(schedule):
    ev = defaultdict(list)
    for w in schedule.works:
        s, f = tv(w.start_time), tv(w.finish_time)
        if f <= s:
            continue
        for wk in w.workers:
            ev[(wk.contractor_id, wk.name)] += [(s, 1, wk.count, w.id), (f, 0, -wk.count, w.id)]
    return ev


def check_capacity(schedule, scn):
    out = []
    cap = {(c.id, w.name): w.count for c in scn.contractors for w in c.workers.values()}
    for key, ev in usage_events(schedule).items():
        cur = 0
        for t, _, d, wid in sorted(ev, key=lambda x: (x[0], x[1])):
            cur += d
            if cur > cap.get(key, 0):
                out.append(('capacity', f'{key}: {cur} workers busy at {t}, contractor has {cap.get(key, 0)} ({wid})'))
                break
    return out


def chain_of(scn):
    m = {}
    for node in scn.wg.nodes:
        if not node.is_inseparable_son():
            for c in node.get_inseparable_chain_with_self():
                m[c.id] = node
    return m


def check_team(schedule, scn):
    out = []
    sw = sworks(schedule)
    heads = chain_of(scn)
    by_id = {c.id: c for c in scn.contractors}
    for node in scn.wg.nodes:
        w = sw.get(node.id)
        if w is None:
            continue
        reqs = {q.kind: q for q in node.work_unit.worker_reqs}
        if not reqs:
            if w.workers and any(x.count for x in w.workers) and not heads[node.id].work_unit.worker_reqs:
                out.append(('team', f'{node.id} needs no workers but got {w.workers}'))
            continue
        names = [x.name for x in w.workers]
        if len(set(names)) != len(names):
            out.append(('team', f'{node.id}: duplicate kinds {names}'))
        got = {x.name: x.count for x in w.workers}
        for k, q in reqs.items():
            if got.get(k, 0) < q.min_count:
                out.append(('team-min', f'{node.id}: {got.get(k, 0)} {k}, minimum {q.min_count}'))
            if got.get(k, 0) > q.max_count:
                out.append(('team-max', f'{node.id}: {got.get(k, 0)} {k}, maximum {q.max_count}'))
        for k in got:
            if k not in reqs and got[k]:
                out.append(('team-kind', f'{node.id}: {got[k]} {k} not required'))
        cs = {x.contractor_id for x in w.workers}
        if len(cs) > 1:
            out.append(('team-contractor', f'{node.id}: workers of several contractors {sorted(cs)}'))
        if cs and w.contractor_id not in cs:
            out.append(('team-contractor', f'{node.id}: contractor {w.contractor_id}, workers of {sorted(cs)}'))
        if w.contractor_id not in by_id:
            out.append(('team-contractor', f'{node.id}: unknown contractor {w.contractor_id!r}'))
    return out


def check_spec(schedule, scn):
    out = []
    sw = sworks(schedule)
    heads = chain_of(scn)
    for node in scn.wg.nodes:
        w = sw.get(node.id)
        if w is None or not node.work_unit.worker_reqs:
            continue
        hs = scn.spec._work2spec.get(heads[node.id].id)
        if hs is None:
            continue
        if hs.contractors and w.contractor_id not in hs.contractors:
            out.append(('spec-contractor', f'{node.id}: contractor {w.contractor_id} not in {sorted(hs.contractors)}'))
        got = {x.name: x.count for x in w.workers}
        for k, v in hs.assigned_workers.items():
            if got.get(k, 0) != v:
                out.append(('spec-workers', f'{node.id}: {got.get(k, 0)} {k} but the specification assigns {v}'))
    return out


def check_chain(schedule, scn):
    """works of one inseparable chain: same contractor, same team, in order."""
    out = []
    sw = sworks(schedule)
    for node in scn.wg.nodes:
        p = node.inseparable_parent
        if p is None or node.id not in sw or p.id not in sw:
            continue
        a, b = sw[p.id], sw[node.id]
        if tv(b.start_time) < tv(a.finish_time):
            out.append(('chain-order', f'{node.id} starts at {b.start_time} before its chain predecessor {p.id} ends at '
                        f'{a.finish_time}'))
        ta = sorted((x.name, x.count, x.contractor_id) for x in a.workers if x.count)
        tb = sorted((x.name, x.count, x.contractor_id) for x in b.workers if x.count)
        if ta != tb or a.contractor_id != b.contractor_id:
            out.append(('chain-team', f'{p.id} and {node.id} are inseparable but have teams {ta} / {tb}'))
        # a gap is only ever caused by another parent (or its lag) of the later work
        if scn.landscape is None and tv(b.start_time) > tv(a.finish_time):
            need = max(tv(sw[e.start.id].finish_time) + int(e.lag) for e in node.edges_to if e.start.id in sw)
            if tv(b.start_time) > max(need, tv(a.finish_time)):
                out.append(('chain-gap', f'{node.id} starts at {b.start_time}, its chain predecessor ended at '
                            f'{a.finish_time} and its dependencies at {need}'))
    return out


def check_duration(schedule, scn, estimator, chain_level=False):
    """duration = estimator's time for the assigned team, or the chain total equals the specification's time."""
    out = []
    sw = sworks(schedule)
    for node in scn.wg.nodes:
        if node.is_inseparable_son() or node.id not in sw:
            continue
        chain = node.get_inseparable_chain_with_self()
        if any(c.id not in sw for c in chain):
            continue
        hs = scn.spec._work2spec.get(node.id)
        at = hs.assigned_time if hs is not None else None
        durs = [tv(sw[c.id].finish_time) - tv(sw[c.id].start_time) for c in chain]
        if at is not None:
            if sum(durs) != tv(at):
                out.append(('assigned-time', f'chain {[c.id for c in chain]} lasts {durs}, specification says {at}'))
        elif chain_level:
            wants = [tv(estimator.estimate_time(c.work_unit, sw[c.id].workers)) if c.work_unit.worker_reqs else 0
                     for c in chain]
            if sum(durs) != sum(wants):
                out.append(('duration', f'chain {[c.id for c in chain]} lasts {durs}, the estimator gives {wants}'))
        else:
            for c, d in zip(chain, durs):
                want = tv(estimator.estimate_time(c.work_unit, sw[c.id].workers)) if c.work_unit.worker_reqs else 0
                if d != want:
                    out.append(('duration', f'{c.id} lasts {d}, the estimator gives {want} for {sw[c.id].workers}'))
    return out


def check_independent(schedule, scn):
    out = []
    sw = sworks(schedule)
    heads = chain_of(scn)
    span = {}
    for node in scn.wg.nodes:
        h = heads[node.id]
        if node.id in sw:
            w = sw[node.id]
            a, b = tv(w.start_time), tv(w.finish_time)
            if h.id in span:
                span[h.id] = (min(span[h.id][0], a), max(span[h.id][1], b))
            else:
                span[h.id] = (a, b)
    for hid, (a, b) in span.items():
        hs = scn.spec._work2spec.get(hid)
        if hs is None or not hs.is_independent or a == b:
            continue
        mine = {(x.contractor_id, x.name) for x in sw[hid].workers if x.count}
        for oid, (c, d) in span.items():
            if oid == hid or c == d:
                continue
            theirs = {(x.contractor_id, x.name) for x in sw[oid].workers if x.count}
            if mine & theirs and c < b and a < d:
                out.append(('independent', f'{hid} [{a},{b}) is resource-independent but {oid} [{c},{d}) uses '
                            f'{sorted(mine & theirs)[0]} in parallel'))
    return out
