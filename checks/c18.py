"""C18 zones"""
from sv import e2e, sched, zones_any
from sv.pyvc import And, Or, time_stub_exact
from sv.run import Check, Proof, Sweep
from sv.tl import TMAX
from sv.zones import Costs, legal

X = (time_stub_exact,)


def history(n, zones, mode, initial=(0, 1), statuses=(1, 2), seq=None):
    """any n works booked one after another; each at the moment the search returns, or (mode 'given') the last one at any
    moment that is declared possible and not before the start of the earlier ones (the parallel generation scheme goes
    forward in time).  Statuses 1 and 2 play the same role, so one of them is enough as the initial one."""
    def h(H):
        from sampo.schemas.requirements import ZoneReq
        from sampo.schemas.time import Time
        from sampo.schemas.zones import Zone, ZoneConfiguration
        from sampo.scheduler.timeline.zone_timeline import ZoneTimeline
        names = [f'z{j}' for j in range(zones)]
        st0 = {z: H.pick(f'initial {z}', list(initial)) for z in names}
        cfg = ZoneConfiguration(start_statuses=dict(st0), end_statuses={z: 1 for z in names}, time_costs=Costs(H))
        tl = ZoneTimeline(cfg)
        books = {z: [] for z in names}
        for i in range(n):
            req = {z: seq[i] if seq else H.pick(f'status {i} {z}', list(statuses) + ([None] if zones > 1 else [])) for z in names}
            req = {z: q for z, q in req.items() if q is not None}
            length = H.int(f'length{i}', 1, TMAX, rhi=5)
            t = H.int(f'from{i}', 0, TMAX, rhi=9)
            reqs = [ZoneReq(z, q) for z, q in req.items()]
            if mode == 'given' and i == n - 1 or mode == 'all given':
                H.assume(And(*[t >= b[0] for z in names for b in books[z]]))
                H.assume(True if tl.can_schedule_at_the_moment(reqs, Time(t), Time(length)) else False)
                s = t
            else:
                s = tl.find_min_start_time(reqs, Time(t), Time(length)).value
                H.check(s >= t, 'the search never returns a moment before the requested one')
            tl.update_timeline(i, [Zone(z, q) for z, q in req.items()], Time(s), Time(length))
            for z, q in req.items():
                if q != 0:
                    books[z].append((s, s + length, q))
            if i == n - 1:
                for z in names:
                    legal(H, st0[z], books[z], cfg.time_costs, 'zones have the required status while works run, and time to be switched')
        end, last = tl.finish_statuses()
        for z in names:
            # the switch to the finishing status begins after the works, from the status they left, and takes its time
            moves = [m for m in last if m.name == z]
            H.check(len(moves) <= 1, 'at most one switch to the finishing status')
            latest = [(q, And(*[e >= b[1] for b in books[z]])) for s, e, q in books[z]] or [(st0[z], True)]
            for m in moves:
                a, b = m.start_time.value, m.end_time.value
                H.check(And(m.to_status == 1, Or(*[c for q, c in latest if q == m.from_status]), *[a >= e for s, e, q in books[z]],
                            b - a == cfg.time_costs[m.from_status, m.to_status], end.value >= b),
                        'the switch to the finishing status comes after the works, from the status they left, and takes its time')
            if not moves and not any(c is True and q == 1 for q, c in latest):
                H.check(Or(*[c for q, c in latest if q == 1]), 'a zone without a last switch has the finishing status')
            H.check(And(*[Or(s >= e, end.value >= e) for s, e, q in books[z]]), 'the finishing statuses come after the works')
    return h


Z = 'sampo/scheduler/timeline/zone_timeline.py:ZoneTimeline.'
FUNCS = [Z + f for f in ('find_min_start_time', '_find_earliest_time_slot', '_is_inside_interval', '_validate', 'update_timeline')]
PROOFS = []
for _n, _z, _m, _i, _s, _q in [(1, 1, 'search', (0, 1), (0, 1, 2), None), (1, 2, 'search', (0, 1), (1, 2), None),
                               (2, 1, 'search', (0,), (0, 1, 2), None), (2, 1, 'search', (1,), (0, 1, 2), None),
                               (2, 1, 'given', (0, 1), (1, 2), None)] + \
        [(3, 1, m, (1,), (1, 2), q) for m, q in (('search', (1, 2, 1)), ('given', (2, 1, 2)), ('given', (1, 2, 1)),
                                                   ('given', (2, 1, 1)))] + \
        [(2, 2, 'search', (1,), (1, 2), q) for q in ((1, 2), (2, 1), (2, 2))]:
    _txt = f'statuses {"-".join(map(str, _q))}' if _q else f'statuses of {_s}'
    PROOFS.append(Proof(f'bookings/{_n} works {_z} zones {_m} {_txt} from {_i}', history(_n, _z, _m, _i, _s, _q),
                        FUNCS + ([Z + 'can_schedule_at_the_moment'] if _m != 'search' else []) + [Z + 'append_statuses'], kind='bounded',
                        bound=f'{_n} works, {_z} zones, {_txt}, initially of {_i}, any times, lengths and switching times', stubs=X, secs=120,
                        rnd=300, max_paths=20000, thorough='only' if _n > 2 else None))
PROOFS += e2e.proofs(e2e.zone, shapes=('1', '2-chain'), zones=(1, 2), note=', one zone')
PROOFS += e2e.proofs(e2e.zone, ('mom',), shapes=('2-link',), zones=(1, 2), note=', one zone')
PROOFS += e2e.proofs(e2e.zone, ('mom',), shapes=('3-path',), zones=(1, 2), note=', one zone', only=True)
for _p in ((1, 2), (2, 1), (2, 2), (1, 1)):
    PROOFS += e2e.proofs(e2e.zone, ('jit',), shapes=('2-link', '2'), pattern=_p, tag=f' statuses {_p}', note=f', statuses {_p} of a zone', only=True)
    PROOFS += e2e.proofs(e2e.zone, ('mom',), shapes=('2',), pattern=_p, tag=f' statuses {_p}', note=f', statuses {_p} of a zone', only=True)
SWEEPS = [
    Sweep('zones', sched.zone_sweep(sched.HEUR), quick=400, thorough=10000,
          rule='random projects with zone requirements, start statuses and switching times; heuristic schedulers'),
    Sweep('zones-genetic', sched.zone_sweep(sched.GEN), quick=48, thorough=1000, rule='as above, genetic scheduler'),
]
PROOFS += zones_any.PROOFS
CHECK = Check('C18', 'bounded', proofs=PROOFS, sweeps=SWEEPS, assumptions=e2e.ASSUMED)
