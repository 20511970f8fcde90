"""C08 resource optimizers stay in bounds; the best contractor is chosen."""
from sv import loops, sched, tl
from sv.pyvc import And, Ite, Or, Not, Implies, time_stub_exact
from sv.run import Check, Proof, Sweep, Case

X = (time_stub_exact,)
BIG = 10 ** 6


def _T():
    from sampo.schemas.time import Time
    return Time


def _arr(xs):
    import numpy as np
    return np.array(list(xs), dtype=object) if any(not isinstance(x, int) or type(x) is not int for x in xs) \
        else np.array(list(xs), dtype=int)


# ---- one-dimensional search, any interval, any function -------------------------------------------------------

DI = 'sampo.utilities.base_opt:dichotomy_int'


def dichotomy(H):
    import sampo.utilities.base_opt as bo
    Time = _T()
    d = H.int('down', -5, BIG, rhi=30)
    u = H.int('up', -5, BIG, rhi=60)
    H.assume(d <= u)
    tl.G.clear()
    tl.G.update(d=d, u=u)
    n = [0]

    def f(x):
        H.check(And(d <= x, x <= u), 'the function is asked inside the interval only')
        n[0] += 1
        return Time(H.int(f'f{n[0]}', 0, BIG, rhi=9))
    r = bo.dichotomy_int(d, u, f)
    H.check(And(d <= r, r <= u), 'the result lies in the interval')


def _dich_loops():
    def inv(E):
        d, u = tl.G['d'], tl.G['u']
        return [('inside the given interval', And(d <= E.down, E.down <= E.up, E.up <= u))]
    return [loops.Loop(DI, 0, inv, variant=lambda E: E.up - E.down)]


# ---- optimizers ------------------------------------------------------------------------------------------------

def _setting(H, k, masks):
    """k workers with bounds, an optimize mask (or None) and start counts"""
    lo = [H.int(f'lo{i}', 0, BIG, rhi=6) for i in range(k)]
    hi = [H.int(f'hi{i}', 0, BIG, rhi=9) for i in range(k)]
    for a, b in zip(lo, hi):
        H.assume(a <= b)
    mask = None
    if H.pick('mask?', [False, True]) and masks:
        mask = [H.pick(f'mask{i}', [True, False]) for i in range(k)]
    cnt = [H.int(f'c{i}', 0, BIG, rhi=12) for i in range(k)]
    team = [tl.worker(f'w{i}', cnt[i]) for i in range(k)]
    return lo, hi, mask, cnt, team


def _bounds_ok(H, team, lo, hi, mask, cnt, when):
    for i, w in enumerate(team):
        if mask is None or mask[i]:
            H.check(And(lo[i] <= w.count, w.count <= hi[i]), f'optimized counts are inside their bounds {when}')
        else:
            H.check(w.count == cnt[i], f'fixed counts are not touched {when}')


def _fitness(H, lo, hi, mask, cnt):
    Time = _T()
    memo = {}
    n = [0]

    def f(team):
        _bounds_ok(H, team, lo, hi, mask, cnt, 'in every trial')
        key = tuple(str(w.count) for w in team)
        if key not in memo:
            n[0] += 1
            if n[0] > 400:
                H.check(False, 'the search ends')
            memo[key] = Time(H.int(f'f{n[0]}', 0, BIG, rhi=9))
        return memo[key]
    return f


def average(k):
    def h(H):
        import numpy as np
        from sampo.scheduler.resource.average_req import AverageReqResourceOptimizer
        lo, hi, mask, cnt, team = _setting(H, k, True)
        kk = H.real('k', 1, 100, rlo=1, rhi=5)
        AverageReqResourceOptimizer(kk).optimize_resources({}, team, None if mask is None else np.array(mask), _arr(lo),
                                                           _arr(hi), None)
        _bounds_ok(H, team, lo, hi, mask, cnt, 'at the end')
    h.__name__ = f'average{k}'
    return h


def descent(k):
    """coordinate descent with any one-dimensional optimizer that obeys the contract of dichotomy_int"""
    def h(H):
        import numpy as np
        from sampo.scheduler.resource.coordinate_descent import CoordinateDescentResourceOptimizer
        lo, hi, mask, cnt, team = _setting(H, k, True)
        n = [0]

        def method(d, u, f):
            H.check(d <= u, 'the one-dimensional search gets a non-empty interval')
            n[0] += 1
            q = H.int(f'q{n[0]}', 0, BIG, rhi=9)
            r = H.int(f'r{n[0]}', 0, BIG, rhi=9)
            H.assume(And(d <= q, q <= u, d <= r, r <= u))
            f(q)
            return r
        CoordinateDescentResourceOptimizer(method).optimize_resources(
            {}, team, None if mask is None else np.array(mask), _arr(lo), _arr(hi), _fitness(H, lo, hi, mask, cnt))
        _bounds_ok(H, team, lo, hi, mask, cnt, 'at the end')
    h.__name__ = f'descent{k}'
    return h


FS = 'sampo.scheduler.resource.full_scan:FullScanResourceOptimizer.optimize_resources'


def full(k, contract):
    def h(H):
        import numpy as np
        from sampo.scheduler.resource.full_scan import FullScanResourceOptimizer
        lo, hi, mask, cnt, team = _setting(H, k, True)
        if mask is not None and contract:
            for i in range(k):
                if not mask[i]:
                    H.assume(And(lo[i] <= cnt[i], cnt[i] <= hi[i]))
        tl.G.clear()
        tl.G.update(lo=[l if mask is None or mask[i] else cnt[i] for i, l in enumerate(lo)],
                    hi=[x if mask is None or mask[i] else cnt[i] for i, x in enumerate(hi)])
        opt = FullScanResourceOptimizer()
        if H.symbolic:
            # the class keeps a reference to the uncut function: use the cut one (same source)
            import sampo.utilities.base_opt as bo
            from sampo.scheduler.resource.coordinate_descent import CoordinateDescentResourceOptimizer
            opt._coordinate_descent_optimizer = CoordinateDescentResourceOptimizer(bo.dichotomy_int)
        fit = _fitness(H, lo, hi, mask, cnt)
        opt.optimize_resources({}, team, None if mask is None else np.array(mask), _arr(lo), _arr(hi), fit)
        _bounds_ok(H, team, lo, hi, mask, cnt, 'at the end')
    h.__name__ = f'full{k}'
    return h


def _full_loops():
    import numpy as np

    def fresh(E, name):
        return loops.pyvc_array(len(getattr(E, name)), name)

    def inv(E):
        lo, hi = tl.G['lo'], tl.G['hi']
        out = []
        for i in range(len(lo)):
            out.append((f'diagonal bounds keep their order ({i})', And(lo[i] <= E.down_border[i], E.down_border[i] <= E.mid[i],
                                                                     E.mid[i] <= E.up_border[i], E.up_border[i] <= hi[i])))
        return out
    hv = {n: (lambda E, n=n: fresh(E, n)) for n in ('mid', 'down_border', 'up_border')}
    return [loops.Loop(FS, 1, inv, havoc=hv)] + _dich_call_loops()


def _dich_call_loops():
    """dichotomy_int inside the whole optimizer: the same cut, with its own interval"""
    def inv(E):
        return [('inside the given interval', And(E.old.down <= E.down, E.down <= E.up, E.up <= E.old.up))]
    return [loops.Loop(DI, 0, inv, may_not_iterate=True)]


# ---- contractor search -----------------------------------------------------------------------------------------

RCS = 'sampo.scheduler.utils.multi_contractor:run_contractor_search'


def _search_post(H, fin, size, idx, b, INF):
    """b is a best index among idx"""
    return And(fin[b] != INF, *[Or(fin[j] == INF, fin[b] < fin[j], And(fin[b] == fin[j], size[b] <= size[j]))
                                for j in idx if j != b])


def search(m):
    def h(H):
        from sampo.scheduler.utils.multi_contractor import run_contractor_search
        from sampo.schemas.contractor import Contractor
        from sampo.schemas.exceptions import NoSufficientContractorError
        from sampo.schemas.schedule_spec import WorkSpec
        from sampo.schemas.time import TIME_INF as INF
        Time = _T()
        size = [H.int(f'size{i}', 0, BIG, rhi=4) for i in range(m)]
        cs = [Contractor(f'c{i}', f'c{i}', {'a': tl.worker('a', size[i])}) for i in range(m)]
        allowed = list(range(m))
        named = H.pick('named', [False, True]) if m else False
        spec = WorkSpec()
        if named:
            allowed = [i for i in range(m) if H.pick(f'allow{i}', [True, False])]
            spec = WorkSpec(contractors={f'c{i}' for i in allowed} or {'nobody'})
        fin, sta, teams = [], [], []
        for i in range(m):
            inf = H.pick(f'inf{i}', [False, True])
            fin.append(INF if inf else H.int(f'fin{i}', 0, BIG, rhi=3))
            sta.append(H.int(f'st{i}', 0, BIG, rhi=3))
            teams.append([tl.worker('a', 1)])
        seen = []

        def runner(c):
            i = int(c.id[1:])
            seen.append(i)
            return Time(sta[i]), Time(fin[i]), teams[i]
        try:
            st, ft, c, team = run_contractor_search(cs, spec, runner)
        except NoSufficientContractorError:
            H.check(all(type(fin[i]) is int and fin[i] == INF for i in allowed),
                    'refused only when no allowed contractor has a finite finish')
            return
        b = int(c.id[1:])
        H.check(b in allowed, 'the contractor is an allowed one')
        H.check(c is cs[b], 'the contractor object is the given one')
        H.check(_search_post(H, fin, size, allowed, b, INF), 'earliest finite finish, the smaller contractor on ties')
        H.check(And(st.value == sta[b], ft.value == fin[b]), 'times are those of the chosen contractor')
        H.check(team is teams[b], 'the team is that of the chosen contractor')
        H.check(all(i in allowed for i in seen), 'contractors that are not allowed are not asked')
    h.__name__ = f'search{m}'
    return h


def search_any(H):
    """any number of contractors"""
    from sampo.scheduler.utils.multi_contractor import run_contractor_search
    from sampo.schemas.exceptions import NoSufficientContractorError
    from sampo.schemas.time import TIME_INF as INF
    Time = _T()
    if not H.symbolic:
        return
    from sv.seq import SymSeq, field, _i
    n = H.int('n', 0)
    fin, size, sta = field(H, 'fin'), field(H, 'size'), field(H, 'sta')
    rf, rs = [0], []

    class C:
        def __init__(self, i):
            self.i = i
            self.id = f'c{i}'
            self.workers = {'a': tl.worker('a', size(i))}

        def __repr__(self): return 'C'

    class Spec:
        def filter_contractors(self, cs):
            return cs
    tl.G.clear()
    cs = SymSeq(n, C, 'contractors')
    cs.fact(lambda i: And(fin(i) >= 0, fin(i) <= INF, size(i) >= 0, size(i) <= BIG))
    tl.G.update(cs=cs, fin=fin, size=size, C=C, INF=INF)
    teams = {}

    def runner(c):
        return Time(sta(c.i)), Time(fin(c.i)), ('team', c)
    j = H.int('j', 0)
    H.assume(j < n)
    cs.touch(j)
    try:
        st, ft, c, team = run_contractor_search(cs, Spec(), runner)
    except NoSufficientContractorError:
        H.check(fin(j) == INF, 'refused only when no allowed contractor has a finite finish')
        return
    b = c.i
    H.check(And(0 <= b, b < n), 'the contractor is an allowed one')
    H.check(And(fin(b) != INF, Or(fin(j) == INF, fin(b) < fin(j), And(fin(b) == fin(j), size(b) <= size(j)))),
            'earliest finite finish, the smaller contractor on ties')
    H.check(And(st.value == sta(b), ft.value == fin(b), H.eq(team[1].i, b)), 'times and team are those of the chosen contractor')


def _search_loops():
    from sv.seq import Forall

    def best(E):
        g = tl.G
        if E.best_contractor is None:
            return ('nothing chosen yet', And(E.best_finish_time.value == g['INF'],)), lambda j: g['fin'](j) == g['INF']
        b = E.best_contractor.i
        g['cs'].touch(b)
        return (('the chosen one is consistent',
                 And(0 <= b, b < E.i, E.best_finish_time.value == g['fin'](b), g['fin'](b) != g['INF'],
                     E.best_contractor_size == g['size'](b))),
                lambda j: Or(g['fin'](j) == g['INF'], g['fin'](b) < g['fin'](j),
                             And(g['fin'](b) == g['fin'](j), g['size'](b) <= g['size'](j))))

    def inv(E):
        first, rest = best(E)
        return [first, ('best of those seen', Forall(tl.G['cs'], rest, 0, E.i))]

    def havoc_contractor(E):
        from sv.seq import fresh_int
        from sv.pyvc import ctx
        b = fresh_int('best', -1)
        if b == -1:
            return None
        return tl.G['C'](b)

    def havoc_size(E):
        from sv.seq import fresh_int
        # before the first choice the size is the float infinity
        return float('inf') if E.best_contractor is None else fresh_int('bestsize', 0)
    return [loops.Loop(RCS, 0, inv, havoc=dict(best_contractor=havoc_contractor, best_contractor_size=havoc_size))]


def borders(k):
    def h(H):
        from sampo.scheduler.utils.multi_contractor import get_worker_borders
        from sampo.schemas.contractor import Contractor
        from sampo.schemas.requirements import WorkerReq
        Time = _T()
        kinds = [f'k{i}' for i in range(k)]
        reqs, pool, own, has = [], {}, [], []
        for i, kd in enumerate(kinds):
            mn = H.int(f'min{i}', 0, BIG, rhi=4)
            mx = H.int(f'max{i}', 0, BIG, rhi=6)
            H.assume(mn <= mx)
            reqs.append(WorkerReq(kd, Time(5), mn, mx))
            own.append(H.int(f'own{i}', 0, BIG, rhi=6))
            has.append(H.pick(f'has{i}', [True, False]))
            pool[kd] = {'other': tl.worker(kd, 7, 'other')}
            if has[i]:
                pool[kd]['c'] = tl.worker(kd, own[i], 'c')
        c = Contractor('c', 'c', {})
        mn, mx, ws = get_worker_borders(pool, c, reqs)
        able = H.all([True] + [And(h, o >= r.min_count) for h, o, r in zip(has, own, reqs)])
        if len(ws) != k or (k and len(mn) != k):
            H.check(Not(able), 'refused only when the contractor cannot satisfy the requirements')
            H.check(len(ws) == 0 and len(mn) == 0 and len(mx) == 0, 'a refusal is an empty answer')
            return
        H.check(able, 'accepted only when the contractor can satisfy the requirements')
        for i in range(k):
            H.check(mn[i] == reqs[i].min_count, 'lower bound is the minimum of the requirement')
            H.check(mx[i] == Ite(reqs[i].max_count < own[i], reqs[i].max_count, own[i]),
                    'upper bound is the smaller of the maximum and what the contractor owns')
            H.check(ws[i] is pool[kinds[i]]['c'], 'workers of this contractor in the order of the requirements')
    h.__name__ = f'borders{k}'
    return h


def using_spec(k):
    def h(H):
        from sampo.scheduler.base import Scheduler
        from sampo.schemas.requirements import WorkerReq
        from sampo.schemas.schedule_spec import WorkSpec
        from sampo.schemas.works import WorkUnit
        Time = _T()
        cnt = [H.int(f'c{i}', 0, BIG, rhi=9) for i in range(k)]
        team = [tl.worker(f'w{i}', cnt[i]) for i in range(k)]
        order = list(range(k))
        if k > 1 and H.pick('reversed', [False, True]):
            order.reverse()
        wu = WorkUnit('x', 'x', worker_reqs=[WorkerReq(f'w{i}', Time(1), 1, 5) for i in order])
        fixed = [i for i in range(k) if H.pick(f'fix{i}', [False, True])]
        want = {i: H.int(f'want{i}', 1, BIG, rhi=9) for i in fixed}
        spec = WorkSpec(assigned_workers={f'w{i}': want[i] for i in fixed})
        calls = []

        def opt(mask):
            calls.append(mask)
            H.check(H.all(team[i].count == want[i] for i in fixed), 'given counts are set before optimizing')
            for i in range(k):
                if mask is None or mask[i]:
                    team[i].count = 77
        Scheduler.optimize_resources_using_spec(wu, team, spec, opt)
        H.check(H.all(team[i].count == want[i] for i in fixed), 'given counts are used')
        if len(fixed) == k and k:
            H.check(not calls or calls[0] is not None and not any(calls[0]), 'nothing is optimized when all counts are given')
        else:
            H.check(len(calls) == 1, 'the rest is optimized once')
            H.check(all(team[i].count == 77 for i in range(k) if i not in fixed) if not H.symbolic else
                    H.all(team[i].count == 77 for i in range(k) if i not in fixed), 'all other counts are optimized')
    h.__name__ = f'using_spec{k}'
    return h


# ---- the search as the schedulers run it -----------------------------------------------------------------------

def live_search(seed, tier):
    """every contractor search of a real scheduling run, re-judged"""
    import random
    import sampo.scheduler.generic as g
    from sampo.schemas.exceptions import NoSufficientContractorError
    from sv.scen import scenario
    r = random.Random(seed)
    scn = scenario(seed, contractors=dict(m=r.randint(2, 4)), **(r.choice([{}, dict(spec=dict(p_contr=.5, p_partial=.3))])))
    name = r.choice(list(sched.HEUR) + ['heft-avg', 'heft-full'])
    orig = g.run_contractor_search
    out = []
    n = [0]

    def wrapped(contractors, spec, runner):
        n[0] += 1
        try:
            res = orig(contractors, spec, runner)
        except NoSufficientContractorError:
            res = None
        ok = [c for c in contractors if not spec.contractors or c.id in spec.contractors]
        offers = []
        for c in ok:
            st, ft, team = runner(c)
            if not ft.is_inf():
                offers.append((ft.value, sum(w.count for w in c.workers.values()), c.id, st.value,
                               [(w.name, w.count, w.contractor_id) for w in team]))
        if res is None:
            if offers:
                out.append(('refused', f'{name}: no contractor found although {offers[0][2]} finishes at {offers[0][0]}'))
            raise NoSufficientContractorError('none')
        st, ft, c, team = res
        if not offers:
            out.append(('impossible', f'{name}: {c.id} chosen with an infinite finish'))
            return res
        best = min(offers)[:2]
        mine = [o for o in offers if o[2] == c.id]
        if not mine:
            out.append(('contractor', f'{name}: {c.id} is not an allowed contractor with a finite finish'))
        elif mine[0][:2] != best:
            out.append(('best', f'{name}: {c.id} {mine[0][:2]} chosen, best is {best}'))
        elif (mine[0][3], mine[0][0]) != (st.value, ft.value) or \
                mine[0][4] != [(w.name, w.count, w.contractor_id) for w in team]:
            out.append(('times', f'{name}: the times or the team are not those of {c.id}'))
        return res
    g.run_contractor_search = wrapped
    try:
        try:
            sched.run(scn, name, seed % 1000)
        except NoSufficientContractorError:
            pass
    finally:
        g.run_contractor_search = orig
    return Case(out[:3], n[0] > 3, str(seed), dict(seed=seed, scheduler=name, searches=n[0]))


U = 'sampo/utilities/base_opt.py:'
R = 'sampo/scheduler/resource/'
MC = 'sampo/scheduler/utils/multi_contractor.py:'
PROOFS = [
    Proof('dichotomy_int', dichotomy, [U + 'dichotomy_int'], loops=_dich_loops(), stubs=X),
    Proof('contractor search', search_any, [MC + 'run_contractor_search'], loops=_search_loops(), stubs=X, rnd=0),
]
for _k in (1, 2):
    PROOFS.append(Proof(f'full scan/{_k} kinds', full(_k, True), [R + 'full_scan.py:optimize_resources', U + 'coordinate_descent',
                  U + 'dichotomy_int'], loops=_full_loops(), stubs=X, secs=60, kind='bounded',
                  bound=f'{_k} worker kinds (all bounds and fitness functions)'))
for _k in (1, 2, 3):
    PROOFS.append(Proof(f'average/{_k} kinds', average(_k), [R + 'average_req.py:optimize_resources'], stubs=X, kind='bounded',
                        bound=f'{_k} worker kinds'))
    PROOFS.append(Proof(f'coordinate descent/{_k} kinds', descent(_k), [R + 'coordinate_descent.py:optimize_resources',
                  U + 'coordinate_descent'], stubs=X, kind='bounded', bound=f'{_k} worker kinds, any one-dimensional search'))
for _k in (0, 1, 2, 3):
    PROOFS.append(Proof(f'contractor search/{_k}', search(_k), [MC + 'run_contractor_search', 'sampo/schemas/schedule_spec.py:'
                  'WorkSpec.filter_contractors'], stubs=X, kind='bounded', bound=f'{_k} contractors', secs=40))
    PROOFS.append(Proof(f'worker borders/{_k}', borders(_k), [MC + 'get_worker_borders'], stubs=X, kind='bounded',
                        bound=f'{_k} requirements', secs=40))
for _k in (1, 2, 3):
    PROOFS.append(Proof(f'specification/{_k}', using_spec(_k), ['sampo/scheduler/base.py:Scheduler.optimize_resources_using_spec'],
                        stubs=X, kind='bounded', bound=f'{_k} worker kinds'))
SWEEPS = [Sweep('searches of real runs', live_search, quick=120, thorough=3000, rule='every contractor search made while a '
                'scheduler runs on a random project, judged against all offers; non-trivial: more than 3 searches')]
CHECK = Check('C08', 'bounded', proofs=PROOFS, sweeps=SWEEPS)
