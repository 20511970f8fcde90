"""C17 materials"""
from sv import loops, sched, tl
from sv.loops import Loop
from sv.pyvc import And, Implies, Ite, Not, Or, time_stub_exact
from sv.run import Check, Proof, Sweep
from sv.seq import Forall
from sv.tl import TMAX

X = (time_stub_exact,)
BIG = 10 ** 6


def world(H, nodes_at, stock, caps, vehicles=2, carries=None, lengths=((0, 1, 2),), bands=None):
    """platforms p0.., depots after them; lengths: roads (i, j, time to pass)"""
    from sampo.schemas.landscape import LandscapeConfiguration, ResourceHolder, Vehicle
    from sampo.schemas.landscape_graph import LandGraph, LandGraphNode, ResourceStorageUnit
    from sampo.schemas.resources import Material
    plats = [LandGraphNode(f'p{i}', f'p{i}', ResourceStorageUnit(dict(c))) for i, c in enumerate(caps)]
    deps = [LandGraphNode(f'd{i}', f'd{i}', ResourceStorageUnit(dict(c))) for i, c in enumerate(stock)]
    alln = plats + deps
    for k, (i, j, t) in enumerate(lengths):
        alln[i].add_neighbours([(alln[j], 5.0 * t, bands[k] if bands else vehicles)])
    for n, p in nodes_at:
        plats[p].add_works(n)
    hs = [ResourceHolder(f'h{i}', f'h{i}', [Vehicle(f'v{i}{k}', f'v{i}{k}', [Material(m, m, c) for m, c in carries.items()])
                                           for k in range(vehicles)], node=d) for i, d in enumerate(deps)]
    return LandscapeConfiguration(holders=hs, lg=LandGraph(nodes=alln))


def work(i, needs):
    from sampo.schemas.graph import GraphNode
    from sampo.schemas.requirements import MaterialReq
    from sampo.schemas.works import WorkUnit
    return GraphNode(WorkUnit(f'w{i}', f'w{i}', material_reqs=[MaterialReq(m, c) for m, c in needs.items()]), [])


def supply(H, *a, **kw):
    from sampo.scheduler.timeline.hybrid_supply_timeline import HybridSupplyTimeline
    land = world(H, *a, **kw)
    return HybridSupplyTimeline(land), land


# ---- search for free vehicles -----------------------------------------------------------------------------------

def slot_any(H):
    """vehicles of a depot or road, any number of bookings: enough of them are free during the whole interval found"""
    from sampo.scheduler.timeline.hybrid_supply_timeline import HybridSupplyTimeline as S
    from sampo.schemas.time import Time
    cap = H.int('cap', 0, BIG, rhi=5)
    if H.symbolic:
        P = tl.SymEvents(H, cap, ties=False)
        st = P.seq
    else:
        k = H.int('k', 0, 6)
        evs = tl.booked_state(H, k, cap)
        P = tl.Profile(cap, evs)
        st = tl.fill_momentum(tl.momentum({'a': cap}), 'a', evs)
    par, d = H.int('parent', 0, TMAX, rhi=14), H.int('exec', 0, TMAX, rhi=6)
    n = H.int('need', 0, BIG, rhi=5)
    H.assume(n <= cap)
    x = H.int('x', 0, 4 * TMAX, rhi=30)
    tl.G.clear()
    tl.G.update(P=P, par=par, d=d, n=n)
    r = S._find_earliest_start_time(st, n, Time(par), Time(d)).value
    H.check(r >= par, 'not before the requested moment')
    if H.symbolic:
        if And(r <= x, x < r + d):
            H.check(P.at(x) >= n, 'enough free vehicles during the whole interval')
    else:
        H.check(Implies(And(r <= x, x < r + d), lambda: P.at(x) >= n), 'enough free vehicles during the whole interval')


def slot_loops():
    T = 'sampo.scheduler.timeline.hybrid_supply_timeline:HybridSupplyTimeline._find_earliest_start_time'

    def outer(E):
        P, par = tl.G['P'], tl.G['par']
        t, i = E.current_start_time.value, E.base_ind
        P.seq.touch(i)
        P.seq.touch(i + 1)
        return [('not before the requested moment', t >= par),
                ('index in range', And(0 <= i, i < P.n)),
                ('the base event has begun', P.kt(i) <= t),
                ('the next event has not passed', Or(i == P.n - 1, P.kt(i + 1) >= t))]

    def inner(E):
        P, n = tl.G['P'], tl.G['n']
        return [('index unchanged', E.base_ind == E.old.base_ind),
                ('nothing found yet', Not(E.not_enough_resources)),
                ('checked events have enough vehicles', Forall(P.seq, lambda j: P.v(j) >= n, E.end_ind - E.i, E.end_ind))]
    return [Loop(T, 0, outer), Loop(T, 1, inner)]


# ---- bookings ---------------------------------------------------------------------------------------------------

def book(k, endless):
    """a booking takes exactly the booked number during its interval and nothing else"""
    def h(H):
        from sampo.schemas.time import Time
        from sampo.schemas.types import EventType, ScheduleEvent
        cap = H.int('cap', 0, BIG, rhi=6)
        s, _ = supply(H, [], [{'m': cap}], [{'m': 1}], carries={'m': 1})
        st = s._timeline['h0']['m']
        evs, last = [], None
        for i in range(k):
            t, v = H.int(f't{i}', 0, TMAX, rhi=8), H.int(f'v{i}', 0, BIG, rhi=6)
            H.assume(v <= cap)
            if i:
                H.assume(evs[-1][0] <= t)
            evs.append((t, v))
            st.add(ScheduleEvent(i, EventType.START, Time(t), None, v))
        s._task_index = k
        P = tl.Profile(cap, evs)
        a, c = H.int('from', 0, TMAX, rhi=8), H.int('count', 0, BIG, rhi=4)
        d = H.int('length', 0, TMAX, rhi=6)
        # the search that precedes every booking has found enough of the resource
        if endless:
            H.assume(And(P.at(a) >= c, *[Implies(t > a, v >= c) for t, v in evs]))
            end = Time(a) + Time.inf()
        else:
            H.assume(And(P.at(a) >= c, *[Implies(And(t > a, t < a + d), v >= c) for t, v in evs]))
            end = Time(a + d)
        s._update_timeline({'h0': [('m', c, Time(a), end)]})
        Q = tl.profile_of(st, cap)
        x = H.int('x', 0, 3 * TMAX, rhi=20)
        inside = x >= a if endless else And(a <= x, x < a + d)
        H.check(Q.at(x) == P.at(x) - Ite(inside, c, 0), 'a booking changes the availability by exactly its amount during its interval')
    return h


# ---- platform ---------------------------------------------------------------------------------------------------

def platform(k):
    """what a platform lacks is what is requested; what is taken is what the work needs"""
    def h(H):
        from sampo.schemas.resources import Material
        from sampo.schemas.time import Time
        from sampo.schemas.types import EventType, ScheduleEvent
        mats = ['m', 'n'][:H.pick('materials', [1, 2])]
        cap = {m: H.int(f'cap {m}', 0, BIG, rhi=9) for m in mats}
        need = {m: H.int(f'need {m}', 1, BIG, rhi=9) for m in mats}
        H.assume(And(*[need[m] <= cap[m] for m in mats]))
        w = work(0, need)
        s, land = supply(H, [(w, 0)], [{m: BIG for m in mats}], [cap], carries={m: 1 for m in mats})
        p = s._platform_timeline
        last, level = {}, {}
        for m in mats:
            st = p._timeline['p0'][m]
            last[m], level[m] = 0, cap[m]
            for i in range(k):
                t, v = H.int(f't{m}{i}', 0, TMAX, rhi=8), H.int(f'v{m}{i}', 0, BIG, rhi=9)
                H.assume(And(last[m] <= t, v <= cap[m]))
                last[m], level[m] = t, v
                st.add(ScheduleEvent(i, EventType.START, Time(t), None, v))
        p._task_index = k
        t = H.int('from', 0, TMAX, rhi=9)
        ms = w.work_unit.need_materials()
        r, req = p.find_min_material_time_with_additional(w, Time(t), ms)
        r = r.value
        H.check(And(r >= t, *[r >= last[m] for m in mats]), 'materials are taken after those taken before')
        H.check(r <= max(t, *[last[m] for m in mats]) if not H.symbolic else
                Or(r == t, *[r == last[m] for m in mats]), 'no longer than the last taking')
        lack = {q.name: q.count for q in req}
        for m in mats:
            H.check(And(level[m] < need[m]) if m in lack else level[m] >= need[m], 'exactly the lacking materials are requested')
            if m in lack:
                H.check(And(lack[m] > 0, lack[m] >= need[m] - level[m], lack[m] + level[m] <= cap[m]),
                        'the delivery suffices and fits the platform')
        ok = p.can_schedule_at_the_moment(w, Time(t), ms)
        H.check(And(*[Implies(True if ok else False, t >= last[m]) for m in mats]), 'not before the last taking')
        if not req:
            H.check(p.can_provide_resources(w, Time(r), ms), 'the platform provides what it has')
            for m in mats:
                Q = p._timeline['p0'][m][-1]
                H.check(And(Q.time.value == r, Q.available_workers_count == level[m] - need[m]), 'the work takes what it needs')
        else:
            H.check(not p.can_provide_resources(w, Time(r), ms), 'nothing is provided by a platform that lacks something')
            for m in mats:
                H.check(p._timeline['p0'][m][-1].available_workers_count == level[m], 'nothing is taken')
    return h


def enough_vehicles(k):
    def h(H):
        from sampo.schemas.resources import Material
        from sampo.scheduler.timeline.hybrid_supply_timeline import HybridSupplyTimeline as S
        names = [f'm{i}' for i in range(k)]
        carry = {m: H.pick(f'carries {m}', [None, 1, 2, 3, 7, 10]) for m in names}
        carry = {m: c for m, c in carry.items() if c is not None}
        need = {m: H.int(f'need {m}', 1, BIG, rhi=20) for m in names}
        H.assume(len(carry) == k)
        from sampo.schemas.landscape import Vehicle

        class D:
            vehicles = [Vehicle('v', 'v', [Material(m, m, c) for m, c in carry.items()] + [Material('other', 'other', 1)])]
        v = S._get_necessary_vehicles_amount(D, [Material(m, m, need[m]) for m in names])
        H.check(And(*[v * carry[m] >= need[m] for m in names]), 'the vehicles carry everything')
        H.check(Or(*[(v - 1) * carry[m] < need[m] for m in names]), 'no vehicle is superfluous')
    return h


# ---- histories of deliveries -------------------------------------------------------------------------------------

def in_use(s, key, t):
    """vehicles taken from a depot or road at the moment t"""
    evs = list(s._timeline[key]['vehicles'])
    out = evs[0].available_workers_count
    for e in evs[1:]:
        out = Ite(e.time.value <= t, e.available_workers_count, out)
    return evs[0].available_workers_count - out


def histories(n, plats=1, deps=1, vehicles=2, roads=((0, 1, 2),), bands=None, given=False, late=3, busy=None):
    """n works booked one after another; all amounts are arbitrary, the moments small"""
    def h(H):
        from sampo.schemas.exceptions import NotEnoughMaterialsInDepots
        from sampo.schemas.time import Time
        cap = [H.int(f'capacity{p}', 0, BIG, rhi=9) for p in range(plats)]
        stock = [H.int(f'stock{d}', 0, BIG, rhi=40) for d in range(deps)]
        one = H.int('carries', 1, BIG, rlo=1, rhi=9)
        at = [0] + [H.pick(f'at{i}', list(range(plats))) for i in range(1, n)]
        need = [H.int(f'need{i}', 1, BIG, rhi=9) for i in range(n)]
        for i in range(n):
            H.assume(need[i] <= cap[at[i]])
        for c in cap:
            H.assume(c <= vehicles * one)      # a depot owns enough vehicles for one delivery
        ws = [work(i, {'m': need[i]}) for i in range(n)]
        s, land = supply(H, [(w, p) for w, p in zip(ws, at)], [{'m': c} for c in stock], [{'m': c} for c in cap], vehicles=vehicles,
                         carries={'m': one}, lengths=roads, bands=bands)
        done, trips, now = [], [], 0
        others = None
        if busy:
            # traffic of others on the first road
            u = H.pick('busy from', list(range(busy)))
            others = (land.roads[0].id, u, u + H.pick('busy for', [1, 3]), H.pick('busy lanes', sorted({1, land.roads[0].vehicles})))
            s._update_timeline({others[0]: [('vehicles', others[3], Time(u), Time(others[2]))]})
        for i, w in enumerate(ws):
            t = H.pick(f'from{i}', list(range(late)))
            ms = w.work_unit.need_materials()
            try:
                if given:
                    # as the parallel generation scheme: forward in time, at any moment that is declared possible
                    now = now + t
                    r = Time(now)
                    H.assume(True if s.can_schedule_at_the_moment(w, r, ms) else False)
                else:
                    r = s.find_min_material_time(w, Time(t), ms)
                    H.check(r.value >= t, 'the search never returns a moment before the requested one')
                delivery, start = s.deliver_resources(w, r, ms)
            except NotEnoughMaterialsInDepots:
                lack = [And(c - sum(q for a, b, q, dd in trips if dd == d) < cap[at[i]]) for d, c in enumerate(stock)]
                H.check(And(*lack), 'refused only when no depot can fill the platform')
                return
            H.check(start.value == r.value, 'the delivery keeps the moment that was found')
            a_ = None
            for m, ds in delivery.delivery.items():
                for c, a, b, hold in ds:
                    H.check(And(a.value >= 0, a.value <= b.value, b.value <= start.value, c > 0), 'delivered before the work starts')
                    trips.append((a.value, b.value, c, int(hold[1:])))
                    a_ = (b.value, c)
            done.append((start.value, need[i], at[i], a_))
            for p in range(plats):
                for t0, *_ in done:
                    st = cap[p]
                    for u, q, pp, dl in done:
                        if pp == p:
                            st = st - Ite(u <= t0, q, 0)
                            if dl:
                                st = st + Ite(dl[0] <= t0, dl[1], 0)
                    H.check(st >= 0, 'the stock of a platform never becomes negative')
            for k, res in s._timeline.items():
                for nm, evs in res.items():
                    H.check(And(*[e.available_workers_count >= 0 for e in evs]), 'no stock and no number of free vehicles becomes negative')
            for d in range(deps):
                H.check(sum(q for a, b, q, dd in trips if dd == d) <= stock[d], 'the stock of a depot never becomes negative')
        # who is on a road is away from his depot
        holders = [h.id for h in land.holders]
        for key in holders + [r.id for r in land.roads]:
            for e in s._timeline[key]['vehicles']:
                t = e.time.value
                on = sum(in_use(s, r.id, t) for r in land.roads)
                if others:
                    on = on - Ite(And(others[1] <= t, t < others[2]), others[3], 0)
                H.check(on <= sum(in_use(s, k, t) for k in holders), 'a vehicle on a road is not free in its depot')
        for d in range(deps):
            mine = [x for x in trips if x[3] == d]
            for a, b, q, _ in mine:
                back = 2 * (b - a) + a if plats == 1 and deps == 1 else b
                used = 0
                for a2, b2, q2, _ in mine:
                    end = b2 + min(t for i, j, t in roads)
                    v = -(-q2 // one) if not H.symbolic else None
                    if H.symbolic:
                        # vehicles needed: the least number that carries everything
                        v = Ite(q2 <= one, 1, Ite(q2 <= 2 * one, 2, 3))
                    used = used + Ite(And(a2 <= a, a < end), v, 0)
                H.check(used <= vehicles, 'a depot uses no more vehicles than it owns')
    return h


S = 'sampo/scheduler/timeline/hybrid_supply_timeline.py:HybridSupplyTimeline.'
PT = 'sampo/scheduler/timeline/platform_timeline.py:PlatformTimeline.'
PF = [PT + f for f in ('find_min_material_time_with_additional', '_check_material_availability_on_platform', 'get_material_for_delivery',
                       'can_provide_resources', 'update_timeline', 'can_schedule_at_the_moment')]
PROOFS = [Proof('free vehicles', slot_any, [S + '_find_earliest_start_time'], loops=slot_loops(), stubs=X, secs=60, rnd=600)]
for _k in (0, 1, 2, 3):
    for _e in (False, True):
        PROOFS.append(Proof(f'booking/{_k} {"endless" if _e else ""}'.strip(), book(_k, _e), [S + '_update_timeline'], kind='bounded',
                            bound=f'{_k} earlier events, any times and amounts' + (', taken for good' if _e else ''), stubs=X, rnd=300,
                            secs=60))
for _k in (0, 1, 2):
    PROOFS.append(Proof(f'platform/{_k}', platform(_k), PF, kind='bounded', bound=f'1-2 materials taken {_k} times before, any amounts and times',
                        stubs=X, rnd=300, secs=60))
for _k in (1, 2):
    PROOFS.append(Proof(f'vehicles/{_k}', enough_vehicles(_k), [S + '_get_necessary_vehicles_amount'], kind='bounded',
                        bound=f'{_k} materials, any needs, listed capacities of a vehicle', stubs=X, rnd=300))
HF = [S + f for f in ('find_min_material_time', '_supply_resources', 'deliver_resources', '_find_best_holders_by_dist',
                      '_get_route_with_additional', '_update_timeline', '_find_earliest_start_time')] + PF
for _n, _kw, _t in ((1, {}, 'one road'), (2, {}, 'one road'), (2, dict(vehicles=1), 'one vehicle'), (3, dict(late=2), 'one road'),
                    (2, dict(vehicles=3), 'three vehicles'), (2, dict(roads=((0, 1, 0),)), 'road without length'),
                    (3, dict(given=True), 'moments given'), (3, dict(given=True, vehicles=1), 'moments given one vehicle'),
                    (2, dict(vehicles=2, roads=((0, 1, 1), (0, 1, 3)), bands=(1, 2)), 'two roads of different bandwidth'),
                    (2, dict(deps=2, roads=((0, 1, 1), (0, 2, 2))), 'two depots'),
                    (3, dict(deps=2, roads=((0, 1, 1), (0, 2, 2)), late=2, given=True), 'two depots moments given'),
                    (2, dict(plats=2, roads=((0, 2, 1), (1, 2, 2))), 'two platforms'),
                    (2, dict(plats=2, roads=((0, 1, 1), (1, 2, 2))), 'platform behind a platform'),
                    (3, dict(plats=2, vehicles=1, roads=((0, 1, 1), (1, 2, 2)), late=2), 'platform behind a platform'),
                    (1, dict(busy=6), 'traffic of others'), (2, dict(busy=4, late=2), 'traffic of others'),
                    (2, dict(busy=5, plats=2, roads=((0, 1, 1), (1, 2, 2)), late=2), 'platform behind a platform, traffic'),
                    (4, dict(late=2), 'one road'), (4, dict(given=True, late=2), 'moments given')):
    PROOFS.append(Proof(f'deliveries/{_n} works {_t}', histories(_n, **_kw), HF, kind='bounded',
                        bound=f'{_n} works, {_t}, any stocks, needs and carrying capacities, small moments', stubs=X, rnd=200, secs=90,
                        max_paths=20000, thorough='only' if _n > 3 else None))
SWEEPS = [
    Sweep('materials', sched.mat_sweep(sched.HEUR), quick=300, thorough=8000,
          rule='random projects with material needs on random roads, depots and platforms; heuristic schedulers'),
    Sweep('materials-genetic', sched.mat_sweep(sched.GEN), quick=32, thorough=600, rule='as above, genetic scheduler'),
]
CHECK = Check('C17', 'bounded', proofs=PROOFS, sweeps=SWEEPS)
