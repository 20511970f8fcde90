"""C09 the schedule validator accepts exactly the valid schedules."""
import copy
import random
from sv import oracle, sched, tl, valid_any
from sv.pyvc import And, Ite, Or, Not, Implies, time_stub_exact
from sv.run import Check, Proof, Sweep, Case
from sv.scen import scenario

X = (time_stub_exact,)
BIG = 10 ** 6


def _T():
    from sampo.schemas.time import Time
    return Time


class _Sched:
    def __init__(self, works):
        self.works = works
        self.execution_time = works[-1].finish_time if works else _T()(0)


class _WG:
    def __init__(self, nodes):
        self.nodes = nodes

    def __getitem__(self, i):
        return next(n for n in self.nodes if n.id == i)


def accepted(sch, wg, contractors, spec):
    from sampo.utilities.validation import validate_schedule
    try:
        validate_schedule(sch, wg, contractors, spec)
        return True
    except (AssertionError, KeyError):
        return False


def _spec():
    from sampo.schemas.schedule_spec import ScheduleSpec
    return ScheduleSpec()


def _node(i, reqs=(), parents=(), service=False):
    from sampo.schemas.graph import GraphNode
    from sampo.schemas.works import WorkUnit
    return GraphNode(WorkUnit(f'w{i}', f'w{i}', worker_reqs=list(reqs), is_service_unit=service), list(parents))


def _req(kind, lo, hi):
    from sampo.schemas.requirements import WorkerReq
    return WorkerReq(kind, _T()(1), lo, hi)


def _contractor(cid, counts):
    from sampo.schemas.contractor import Contractor
    from sampo.schemas.resources import Worker
    return Contractor(cid, cid, {k: Worker(k, k, n, cid) for k, n in counts.items()}, {})


def _swork(node, s, f, team, who):
    from sampo.schemas.resources import Worker
    from sampo.schemas.scheduled_work import ScheduledWork
    Time = _T()
    return ScheduledWork(node.work_unit, (Time(s), Time(f)), [Worker(k, k, n, who.id) for k, n in team.items()], who)


def capacity(k, kinds=1, owners=1):
    """k independent works; rejected exactly when somebody is over-used at some moment"""
    def h(H):
        ks = ['a', 'b'][:kinds]
        cs = [_contractor(f'c{j}', {q: H.int(f'cap{j}{q}', 0, BIG, rhi=5) for q in ks}) for j in range(owners)]
        nodes, works, rows = [], [], []
        for i in range(k):
            who = cs[H.pick(f'who{i}', range(owners))]
            s, d = H.int(f's{i}', 0, BIG, rhi=8), H.int(f'd{i}', 0, BIG, rhi=5)
            n = {q: H.int(f'n{i}{q}', 0, BIG, rhi=4) for q in (ks if kinds == 1 else H.pick(f'kinds{i}', [ks, ks[:1], ks[1:]]))}
            nodes.append(_node(i, [_req(q, 0, BIG) for q in n]))
            works.append(_swork(nodes[-1], s, s + d, n, who))
            rows += [(who.id, q, s, s + d, c) for q, c in n.items()]
        if works:
            H.assume(And(*[works[-1].finish_time.value >= w.finish_time.value for w in works]))
        ok = accepted(_Sched(works), _WG(nodes), cs, _spec())
        # use can only rise at a start
        fine = []
        for c, q, s, f, n in rows:
            use = 0
            for c2, q2, s2, f2, n2 in rows:
                if (c2, q2) == (c, q):
                    use = use + Ite(And(s2 <= s, s < f2), n2, 0)
            cap = next(x for x in cs if x.id == c).workers[q].count
            fine.append(Implies(s < f, use <= cap))
        H.check(And(*fine) if ok else Not(And(*fine)) if fine else ok, 'accepted exactly when nobody is over-used' if ok else 'rejected only for an over-use')
    h.__name__ = f'capacity{k}'
    return h


def dependencies(n):
    import itertools
    pairs = [(i, j) for j in range(n) for i in range(j)]
    dags = [[p for p, b in zip(pairs, bits) if b] for bits in itertools.product([0, 1], repeat=len(pairs))]

    def h(H):
        from sampo.schemas.graph import EdgeType
        edges = H.pick('edges', dags)
        who = _contractor('c', {'a': 5})
        kind = H.pick('type', [EdgeType.FinishStart, EdgeType.InseparableFinishStart]) if n == 2 else EdgeType.FinishStart
        nodes, works, ok_ = [], [], []
        times = []
        for j in range(n):
            nodes.append(_node(j, [], [(nodes[i], 0, kind) for i, q in edges if q == j], service=False))
            s, f = H.int(f's{j}', 0, BIG, rhi=8), H.int(f'f{j}', 0, BIG, rhi=9)
            times.append((s, f))
            works.append(_swork(nodes[j], s, f, {}, who))
        for i, j in edges:
            ok_ += [times[i][0] <= times[i][1], times[i][1] <= times[j][0], times[j][0] <= times[j][1]]
        miss = H.pick('missing', [None] + list(range(n)))
        sw = [w for i, w in enumerate(works) if i != miss]
        if not sw:
            return
        ok = accepted(_Sched(sw), _WG(nodes), [who], _spec())
        if miss is not None:
            H.check(not ok, 'a missing work is rejected')
        elif ok:
            H.check(And(*ok_), 'accepted only when every work follows its predecessors')
        else:
            H.check(Not(And(*ok_)), 'rejected only when some work does not follow a predecessor')
    h.__name__ = f'dependencies{n}'
    return h


def teams(H):
    lo, hi = [], []
    kinds = ['a', 'b']
    for q in kinds:
        lo.append(H.int('lo' + q, 0, BIG, rhi=3))
        hi.append(H.int('hi' + q, 0, BIG, rhi=5))
        H.assume(lo[-1] <= hi[-1])
    req = H.pick('required', [('a', 'b'), ('a',), ()])
    have = H.pick('have', [('a', 'b'), ('b', 'a'), ('a',), ('b',), ()])
    n = {q: H.int('n' + q, 0, BIG, rhi=6) for q in have}
    who = _contractor('c', {'a': BIG, 'b': BIG})
    node = _node(0, [_req(q, lo[i], hi[i]) for i, q in enumerate(kinds) if q in req])
    other = _node(1)
    works = [_swork(node, 0, 3, n, who), _swork(other, 3, 3, {}, who)]
    ok = accepted(_Sched(works), _WG([node, other]), [who], _spec())
    good = all(q in req for q in have)
    conds = []
    for i, q in enumerate(kinds):
        if q in req:
            c = n.get(q, 0)
            conds.append(And(lo[i] <= c, c <= hi[i]) if q in have else lo[i] == 0)
    if ok:
        H.check(good, 'workers of a kind that is not required are rejected')
        H.check(And(*conds), 'accepted only when the team is within its bounds')
    else:
        H.check(Not(And(*conds)) if good else True, 'rejected only when the team leaves its bounds')


def service_and_spec(H):
    cs = [_contractor(x, {'a': 9}) for x in ('c', 'd')]
    who = H.pick('who', cs)
    allowed = H.pick('allowed', [None, {'c'}, {'d'}, {'c', 'd'}, set()])
    service = H.pick('service', [False, True])
    d = H.int('d', 0, BIG, rhi=2)
    node, other = _node(0, service=service), _node(1)
    works = [_swork(node, 1, 1 + d, {}, who), _swork(other, 1, 1 + d, {}, cs[0])]
    spec = _spec()
    if allowed is not None:
        spec.assign_contractors('w0', set(allowed))
    ok = accepted(_Sched(works), _WG([node, other]), cs, spec)
    legal = not allowed or who.id in allowed
    if ok:
        H.check(legal, 'a contractor not allowed by the specification is rejected')
        H.check(Or(not service, d == 0), 'a service work that lasts is rejected')
    else:
        H.check(Or(not legal, And(service, d > 0)), 'rejected only for a forbidden contractor or a lasting service work')


# ---- real schedules, intact and perturbed ----------------------------------------------------------------------------

def valid(works, scn):
    """the definition, recomputed"""
    sw = {w.id: w for w in works}
    if any(n.id not in sw for n in scn.wg.nodes):
        return 'missing work'
    for n in scn.wg.nodes:
        s, f = (oracle.tv(x) for x in sw[n.id].start_end_time)
        for p in n.parents:
            ps, pf = (oracle.tv(x) for x in sw[p.id].start_end_time)
            if not ps <= pf <= s <= f:
                return 'precedence'
        ws = scn.spec._work2spec.get(n.id)
        if ws is not None and ws.contractors and sw[n.id].contractor_id not in ws.contractors:
            return 'contractor'
        if n.work_unit.is_service_unit and f != s:
            return 'service'
        team = {k.name: k.count for k in sw[n.id].workers}
        reqs = {q.kind: q for q in n.work_unit.worker_reqs}
        if set(team) - set(reqs) or any(not q.min_count <= team.get(k, 0) <= q.max_count for k, q in reqs.items()):
            return 'team'
    cap = {(c.id, k.name): k.count for c in scn.contractors for k in c.workers.values()}
    for w in works:
        s = oracle.tv(w.start_time)
        for k in w.workers:
            use = sum(x.count for v in works if oracle.tv(v.start_time) <= s < oracle.tv(v.finish_time)
                      for x in v.workers if (x.contractor_id, x.name) == (k.contractor_id, k.name))
            if use > cap.get((k.contractor_id, k.name), 0):
                return 'capacity'
    return None


def perturbed(seed, tier):
    from sampo.schemas.exceptions import NoSufficientContractorError
    from sampo.schemas.schedule import Schedule
    from sampo.utilities.validation import validate_schedule
    Time = _T()
    r = random.Random(seed)
    scn = scenario(seed, **sched.PROFILES[r.randrange(len(sched.PROFILES))])
    try:
        s = sched.run(scn, r.choice(sched.HEUR), seed % 1000)
    except NoSufficientContractorError:
        return Case([], False)
    if not oracle.is_finite(s):
        return Case([], False)
    out = []
    base = list(s.works)
    # chains whose later works need other kinds have no team of their own
    if valid(base, scn) is None:
        try:
            validate_schedule(s, scn.wg, scn.contractors, scn.spec)
        except (AssertionError, KeyError) as ex:
            out.append(('valid-rejected', f'a valid schedule is rejected: {ex}'[:200]))
    for _ in range(8 if tier == 'quick' else 20):
        works = copy.deepcopy(base)
        what = r.choice(['shift', 'stretch', 'count', 'drop-kind', 'drop', 'swap', 'who', 'early', 'slots'])
        w = r.choice(works[:-1])
        st, f = (oracle.tv(x) for x in w.start_end_time)
        if what == 'shift':
            k = r.choice([-3, -1, 1, 2])
            if st + k < 0:
                continue
            w.start_end_time = (Time(st + k), Time(f + k))
        elif what == 'early':
            k = r.randint(0, st)
            w.start_end_time = (Time(k), Time(k + f - st))
        elif what == 'stretch':
            w.start_end_time = (Time(st), Time(f + r.choice([-1, 1, 5])))
            if oracle.tv(w.finish_time) < st:
                continue
        elif what == 'count' and w.workers:
            k = r.choice(w.workers)
            k.count = max(0, k.count + r.choice([-2, -1, 1, 2, 9]))
        elif what == 'drop-kind' and w.workers:
            w.workers.remove(r.choice(w.workers))
        elif what == 'drop':
            works.remove(w)
        elif what == 'swap':
            v = r.choice(works[:-1])
            w.start_end_time, v.start_end_time = v.start_end_time, w.start_end_time
        elif what == 'who' and len(scn.contractors) > 1 and w.workers:
            c = r.choice(scn.contractors)
            w.contractor_id, w.contractor = c.id, c.name
            for k in w.workers:
                k.contractor_id = c.id
        elif what == 'slots':
            v = r.choice(works[:-1])
            d = f - st
            w.start_end_time = (v.start_time, Time(oracle.tv(v.start_time) + d))
        sch = Schedule.from_scheduled_works(works)
        why = valid(works, scn)
        ok = accepted(sch, scn.wg, scn.contractors, scn.spec)
        if ok != (why is None):
            out.append(('accepted-' + why if ok else 'rejected', f'{what} of {w.id}: ' + (f'accepted although: {why}' if ok else
                                                                                         'a valid schedule is rejected')))
    return Case(out, len(base) > 4, str(seed), dict(seed=seed))


V = 'sampo/utilities/validation.py:'
ALL = [V + 'validate_schedule']
PROOFS = [Proof(f'capacity/{k}', capacity(k), ALL + [V + 'check_all_allocated_workers_do_not_exceed_capacity_of_contractors'],
                stubs=X, kind='bounded', bound=f'{k} works of one kind and contractor', secs=60, max_paths=20000, rnd=400)
          for k in (1, 2, 3)]
PROOFS += [
    Proof('capacity/2 kinds, 2 contractors', capacity(2, 2, 2), ALL, stubs=X, kind='bounded', secs=60, max_paths=20000, rnd=600,
          bound='2 works, 2 kinds, 2 contractors'),
    Proof('teams', teams, ALL + [V + '_check_all_workers_correspond_to_worker_reqs'], stubs=X, kind='bounded', bound='2 kinds', rnd=300),
    Proof('service and specification', service_and_spec, ALL + [V + '_check_all_tasks_have_valid_duration',
          V + '_check_all_tasks_corresponds_to_spec'], stubs=X, kind='bounded', bound='2 contractors', rnd=100)]
PROOFS += [Proof(f'dependencies/{k}', dependencies(k), ALL + [V + '_check_parent_dependencies', V + '_check_all_tasks_scheduled'],
                 stubs=X, kind='bounded', bound=f'all graphs of {k} works, any times', secs=60, max_paths=20000, rnd=300)
           for k in (1, 2, 3)]
SWEEPS = [Sweep('perturbed schedules', perturbed, quick=160, thorough=5000,
                rule='schedules of real runs, intact and changed in one place; non-trivial: more than 4 works')]
PROOFS += valid_any.PROOFS
CHECK = Check('C09', 'bounded', proofs=PROOFS, sweeps=SWEEPS)
