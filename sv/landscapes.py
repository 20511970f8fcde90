"""Scenarios with zones and with materials on a landscape, and the oracles for them."""
from . import env  # noqa: F401
import math
import random
import numpy as np
from .scen import scenario
from sampo.schemas.landscape import LandscapeConfiguration, ResourceHolder, Vehicle
from sampo.schemas.landscape_graph import LandGraph, LandGraphNode, ResourceStorageUnit
from sampo.schemas.requirements import MaterialReq, ZoneReq
from sampo.schemas.resources import Material
from sampo.schemas.zones import ZoneConfiguration


def tv(t):
    return int(getattr(t, 'value', t))


def zone_scn(seed, costs=True, zero=False, nz=2, **opts):
    s = scenario(seed, **opts)
    r = random.Random(f'z{seed}')
    zs = [f'z{i}' for i in range(nz)]
    for n in s.wg.nodes:
        if n.work_unit.is_service_unit or n.is_inseparable_son():
            continue
        for z in zs:
            if r.random() < 0.5:
                n.work_unit.zone_reqs.append(ZoneReq(z, r.randint(0 if zero else 1, 2)))
    tc = np.array([[0 if i == j else (r.randint(0, 8) if costs else 0) for j in range(3)] for i in range(3)])
    s.landscape = LandscapeConfiguration(
        zone_config=ZoneConfiguration(start_statuses={z: r.randint(0, 2) for z in zs}, time_costs=tc))
    s.tc = tc
    return s


def check_zones(sch, s):
    out = []
    tc = s.tc
    sw = {w.id: w for w in sch.works}
    cfg = s.landscape.zone_config
    for z, st0 in cfg.start_statuses.items():
        iv = []
        for n in s.wg.nodes:
            if n.is_inseparable_son():
                continue
            ch = n.get_inseparable_chain_with_self()
            for q in n.work_unit.zone_reqs:
                if q.kind == z and q.required_status != 0:
                    a, b = tv(sw[ch[0].id].start_time), tv(sw[ch[-1].id].finish_time)
                    iv.append((a, b, q.required_status, n.id))
        iv.sort()
        for i, (a, b, st, i1) in enumerate(iv):
            for (c, d, st2, i2) in iv[i + 1:]:
                if st != st2 and a < b and c < d and c < b:
                    out.append(('zone-overlap', f'{z}: {i1} [{a},{b}) needs status {st}, {i2} [{c},{d}) needs {st2}'))
        cur, last = {st0}, 0            # a work that takes no time may have switched the zone as well
        for a, b, st, i1 in iv:
            if a == b:
                cur = cur | {st}
                continue
            if st not in cur:
                least = min(tc[c, st] for c in cur)
                if a < last + least:
                    out.append(('zone-switch', f'{z}: {i1} starts at {a} in status {st}, the zone was in {sorted(cur)} until {last} '
                                f'and switching takes {least}'))
            cur = {st}
            last = max(last, b)
    return out


def mat_scn(seed, chains=True, p=0.6, **opts):
    o = dict(opts)
    o.setdefault('wg', {})
    o['wg'] = dict(o['wg'], p_ins=0.25 if chains else 0.0)
    s = scenario(seed, **o)
    r = random.Random(f'm{seed}')
    mats = ['brick', 'sand'][:r.randint(1, 2)]
    plats = []
    for i in range(r.randint(1, 3)):
        plats.append(LandGraphNode(f'p{i}', f'p{i}', ResourceStorageUnit({m: r.randint(10, 40) for m in mats})))
    nodes = [n for n in s.wg.nodes if not n.work_unit.is_service_unit]
    for n in nodes:
        p_ = r.choice(plats)
        if n.is_inseparable_son():
            h = n
            while h.inseparable_parent is not None:
                h = h.inseparable_parent
            p_ = [q for q in plats if h in q.nodes][0]
        p_.add_works(n)
        if r.random() < p:
            for m in mats:
                if r.random() < 0.8:
                    n.work_unit.material_reqs.append(MaterialReq(m, r.randint(1, p_.resource_storage_unit.capacity[m])))
    hs = []
    for i in range(r.randint(1, 2)):
        hs.append(LandGraphNode(f'h{i}', f'h{i}', ResourceStorageUnit({m: r.randint(1000, 2000) for m in mats})))
    allv = plats + hs
    r.shuffle(allv)
    for i in range(1, len(allv)):
        j = r.randrange(i)
        allv[i].add_neighbours([(allv[j], float(max(0, r.randint(-2, 30))), r.randint(4, 6))])
        if i > 1 and r.random() < 0.3:
            k = r.randrange(i)
            if k != j:
                allv[i].add_neighbours([(allv[k], float(max(0, r.randint(-2, 30))), r.randint(1, 6))])
    holders = []
    for i, h in enumerate(hs):
        c = [Material(f'x{m}', m, r.randint(10, 20)) for m in mats]
        holders.append(ResourceHolder(f'hold{i}', f'hold{i}', [Vehicle(f'v{i}{k}', f'v{i}{k}', c) for k in range(4)],
                                      node=h))
    s.landscape = LandscapeConfiguration(holders=holders, lg=LandGraph(nodes=allv))
    return s


def check_mat(sch, s):
    out = []
    sw = {w.id: w for w in sch.works}
    for n in s.wg.nodes:
        w = sw[n.id]
        for m, ds in w.materials.delivery.items():
            for c, a, b, h in ds:
                if tv(b) > tv(w.start_time):
                    out.append(('late', f'{n.id} starts at {w.start_time}, its delivery of {m} ends at {b}'))
                if tv(a) < 0 or tv(b) < tv(a):
                    out.append(('delivery-time', f'{n.id}: {m} leaves at {a}, arrives at {b}'))
                if c <= 0:
                    out.append(('delivery-count', f'{n.id}: delivery of {c} {m}'))
    for p in s.landscape.platforms:
        for m, cap in p.resource_storage_unit.capacity.items():
            ev = []
            for n in p.works:
                w = sw[n.id]
                for q in n.work_unit.material_reqs:
                    if q.kind == m:
                        ev.append((tv(w.start_time), 1, -q.count, n.id))
                for c, a, b, h in w.materials.delivery.get(m, []):
                    ev.append((tv(b), 0, c, n.id))
            ev.sort()
            st = cap
            for t, k, d, i in ev:
                st += d
                if st < 0:
                    out.append(('platform-stock', f'{p.id}: stock of {m} is {st} at {t} after {i}'))
                    break
    for h in s.landscape.holders:
        for m, cap in h.node.resource_storage_unit.capacity.items():
            tot = sum(c for w in sch.works for c, a, b, hh in w.materials.delivery.get(m, []) if hh == h.name)
            if tot > cap:
                out.append(('depot-stock', f'{h.id}: {tot} of {m} delivered, depot has {cap}'))
        trips = {}
        for w in sch.works:
            for m, ds in w.materials.delivery.items():
                for c, a, b, hh in ds:
                    if hh == h.name:
                        trips.setdefault((w.id, tv(a), tv(b)), {})[m] = c
        ev = []
        for (i, a, b), need in trips.items():
            v = max(math.ceil(need[x.name] / x.count) for x in h.vehicles[0].capacity if x.name in need)
            # the way back takes at least the pure travel time of the fastest route
            plat = [p for p in s.landscape.platforms if any(n.id == i for n in p.works)][0]
            ev += [(a, 1, v), (b + _fastest(s.landscape, plat, h.node), 0, -v)]
        ev.sort()
        cur = 0
        for t, k, d in ev:
            cur += d
            if cur > len(h.vehicles):
                out.append(('vehicles', f'{h.id}: {cur} vehicles busy at {t}, depot has {len(h.vehicles)}'))
                break
    return out


def _fastest(landscape, a, b):
    """pure travel time of the fastest route (every road passable in both directions)"""
    speed = {r.id: int(r.overcome_time) for r in landscape.roads}
    dist = {a.id: 0}
    for _ in range(len(landscape.lg.nodes) + 1):
        for n in landscape.lg.nodes:
            if n.id in dist:
                for e in n.roads:
                    d = dist[n.id] + speed[e.id]
                    if d < dist.get(e.finish.id, 10 ** 9):
                        dist[e.finish.id] = d
    return dist.get(b.id, 0)
