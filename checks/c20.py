"""C20 work-time estimation."""
import math
from fractions import Fraction
from sv import loops, tl
from sv.pyvc import And, Ite, Or, Not, Implies, quot, time_stub_exact
from sv.run import Check, Proof, Sweep, Case

X = (time_stub_exact,)
BIG = 10 ** 6
ET = 'sampo.schemas.time_estimator:DefaultWorkEstimator.estimate_time'


def _T():
    from sampo.schemas.time import Time
    return Time


def _ceil(v, p):
    return quot(v, p).__ceil__()


def any_reqs(H):
    """any number of requirements, any team; the productivity function by its contract (any number)"""
    if not H.symbolic:
        return
    import sampo.schemas.time_estimator as te
    from sampo.schemas.time import TIME_INF as INF
    from sv.seq import SymSeq, field
    Time = _T()
    n = H.int('n', 0)
    vol, mn, mx, cnt = (field(H, x) for x in ('vol', 'min', 'max', 'cnt'))
    prod = field(H, 'prod', real=True)

    class Req:
        def __init__(s, i): s.i, s.kind = i, ('kind', i)
        @property
        def volume(s): return Time(vol(s.i))
        @property
        def min_count(s): return mn(s.i)
        @property
        def max_count(s): return mx(s.i)

    class W:
        def __init__(s, i): s.i, s.name, s.contractor_id = i, ('kind', i), 'c'
        @property
        def count(s): return cnt(s.i)

    class Index:
        """contract of build_index over the team: worker of the kind, if there is one"""
        def get(s, kind, default=None):
            return W(kind[1]) if cnt(kind[1]) > 0 else default

        def __getitem__(s, kind): return W(kind[1])

    reqs = SymSeq(n, Req, 'reqs')
    reqs.fact(lambda i: And(mn(i) >= 0, mn(i) <= mx(i), vol(i) >= 0, vol(i) <= BIG, cnt(i) >= 0,
                              # the time a requirement needs is representable (see C19 for saturation)
                              Or(prod(i) == 0, vol(i) <= prod(i) * 10 ** 9, vol(i) <= prod(i) * -10 ** 9)))
    est = te.DefaultWorkEstimator()
    est._get_productivity = lambda worker, m: prod(worker.i)
    last = []

    class WU:
        worker_reqs = reqs
    j = H.int('j', 0)
    H.assume(j < n)
    reqs.touch(j)
    tl.G.clear()
    # the requirement under examination is the contract for all of them
    req = lambda i: Implies(mn(i) != 0, lambda: And(cnt(i) >= mn(i), prod(i) != 0))

    def need(i):
        return Implies(mn(i) != 0, lambda: tl.G['m'] >= 0)
    tl.G.update(reqs=reqs, vol=vol, mn=mn, cnt=cnt, prod=prod, Time=Time, INF=INF)
    from sv.pyvc import patched
    with patched((te, 'build_index', lambda *a, **k: Index())):
        r = est.estimate_time(WU, [tl.worker('x', 1)])
    v = r.value
    H.check(v >= 0, 'never negative')
    loop = loops_of(ET + '#0')
    if loop is not None and loop.get('cur') is not None:
        pass
    finite = v < INF
    if finite:
        H.check(req(j), 'finite only when every requirement is staffed and productive')
        if mn(j) != 0:
            H.check(v >= _ceil(vol(j), prod(j)), 'not less than any requirement needs')
        w = loops.ghost(ET + '#0', 'w')
        H.check(Or(v == 0, And(0 <= w, w < n, mn(w) != 0, lambda_eq(v, vol(w), prod(w), Time))), 'some requirement needs that long')
    else:
        w = loops.current(ET + '#0')
        H.check(And(mn(w) != 0, Or(cnt(w) < mn(w), prod(w) == 0)), 'infinite only when a requirement is not staffed')


def lambda_eq(v, vol, prod, Time):
    return v == _ceil(vol, prod)


def loops_of(key):
    from sv.pyvc import ctx
    return getattr(ctx(), 'loops', {}).get(key)


def _est_loops():
    from sv.seq import Forall, MaxBag, fresh_int

    def mval(E):
        t = E.times
        if isinstance(t, MaxBag):
            return t.m
        m = 0
        for x in t:
            m = Ite(x.value > m, x.value, m)
        return m

    def inv(E):
        g = tl.G
        m = mval(E)
        w = E.g['w']

        def done(i):
            return Implies(g['mn'](i) != 0, lambda: And(g['cnt'](i) >= g['mn'](i), g['prod'](i) != 0,
                                                        m >= _ceil(g['vol'](i), g['prod'](i))))
        return [('maximum so far is not negative and finite', And(m >= 0, m < g['INF'])),
                ('covers the requirements seen', Forall(g['reqs'], done, 0, E.i)),
                ('attained', Or(m == 0, lambda_attained(g, w, E.i, m)))]

    def lambda_attained(g, w, i, m):
        g['reqs'].touch(w)
        return And(0 <= w, w < i, g['mn'](w) != 0, m == _ceil(g['vol'](w), g['prod'](w)))

    def up(E):
        return Ite(E.times.m > E.times.m0, E.i - 1, E.g['w'])

    def havoc_times(E):
        return MaxBag(fresh_int('m'))
    return [loops.Loop(ET, 0, inv, havoc=dict(times=havoc_times), ghost={'w': (lambda E: 0, up)})]


def bounded(k):
    """k requirements, real productivity tables; the exact rational result"""
    def h(H):
        from sampo.schemas.interval import IntervalGaussian
        from sampo.schemas.requirements import WorkerReq
        from sampo.schemas.time_estimator import DefaultWorkEstimator
        from sampo.schemas.time import TIME_INF as INF
        from sampo.schemas.works import WorkUnit
        Time = _T()
        kinds = ['driver', 'fitter', 'manager'][:k]
        est = DefaultWorkEstimator()
        reqs, team, spec = [], [], []
        for i, kd in enumerate(kinds):
            mn = H.pick(f'min{i}', [0, 1, 2] if k < 2 else [0, 2])
            mx = H.pick(f'max{i}', [2, 3, 5] if k < 2 else [3])
            vol = H.int(f'vol{i}', 0, BIG, rhi=10 ** 6 if H.pick(f'big{i}', [False, True]) else 60)
            # small counts are listed: the productivity is a cubic function of the count
            cnt = H.pick(f'cnt{i}', [None, 0, 1, 2, 3, 5, 6, 9] if k < 2 else [None, 0, 2, 3])
            mean = H.pick(f'mean{i}', [1, 0, 2, Fraction(1, 2), 4096, 10 ** 6] if k < 2 else [1, 0])
            if mean != 1:
                who = H.pick(f'who{i}', [None, 'c', 'other'] if k < 2 else ['c'])
                est.set_worker_productivity(IntervalGaussian(float(mean), 0.0, float(mean), float(mean)), kd, who)
                if who == 'other':
                    mean = 1
            reqs.append(WorkerReq(kd, Time(vol), mn, mx))
            if cnt is not None:
                team.append(tl.worker(kd, cnt))
            spec.append((mn, mx, vol, cnt or 0, Fraction(mean)))
        if k > 1 and H.pick('reversed', [False, True]):
            team.reverse()
        empty = not team
        r = est.estimate_time(WorkUnit('x', 'x', worker_reqs=reqs), team).value
        H.check(r >= 0, 'never negative')
        if empty:
            H.check(r == 0, 'zero for an empty team')
            return
        bad, ends = False, [0]
        for mn, mx, vol, cnt, mean in spec:
            if mn == 0:
                continue
            p = mean * cnt * Fraction(-2 * cnt ** 3 + 3 * cnt ** 2 + (6 * mx ** 2 - 1) * cnt, 6 * mx ** 2)
            if cnt < mn or p == 0:
                bad = True
            else:
                ends.append((vol, p))
        H.check((r == INF) == bad if not H.symbolic else (r == INF if bad else r < INF),
                'infinite exactly when a requirement is not staffed or not productive')
        if bad:
            return
        # r is the least integer with r * p >= vol for all productive requirements (r >= 0); the code computes in floating
        # point, so a relative error of 1e-9 is left open
        E = Fraction(1, 10 ** 9)
        for vol, p in ends[1:]:
            if p > 0:
                H.check(vol <= r * (p * (1 + E)), 'not less than any requirement needs')
        H.check(H.any([r == 0] + [And(vol * (1 + E) > (r - 1) * p - E) for vol, p in ends[1:] if p > 0]), 'some requirement needs that long')
    h.__name__ = f'bounded{k}'
    return h


def cascade(k):
    """chains of k works: the chain head takes the sum, followers nothing"""
    def h(H):
        from sampo.schemas.graph import GraphNode, EdgeType
        from sampo.schemas.works import WorkUnit
        from sampo.scheduler.utils.time_computaion import calculate_working_time_cascade, calculate_working_time, \
            calculate_scheduled_time_cascade, work_priority
        from sampo.schemas.requirements import WorkerReq
        Time = _T()
        nodes = []
        req = [WorkerReq('driver', Time(1), 2, 7)]
        for i in range(k):
            nodes.append(GraphNode(WorkUnit(f'n{i}', 'n', worker_reqs=req),
                                   [(nodes[-1], 0, EdgeType.InseparableFinishStart)] if nodes else []))
        d = [H.int(f'd{i}', 0, BIG, rhi=9) for i in range(k)]
        dm = [H.int(f'm{i}', 0, BIG, rhi=9) for i in range(k)]

        class Est:
            asked = []

            def estimate_time(s, wu, workers):
                s.asked.append([(w.name, w.count) for w in workers])
                return Time(d[int(wu.id[1:])] if workers[0].count == 2 else dm[int(wu.id[1:])])
        e = Est()
        team = [tl.worker('driver', 2)]
        s = 0
        for x in d:
            s = s + x
        sm = 0
        for x in dm:
            sm = sm + x
        for i, n in enumerate(nodes):
            r = calculate_working_time_cascade(n, team, e)
            H.check(r.value == (s if i == 0 else 0), 'the head of a chain takes the time of the whole chain, its followers none')
            H.check(calculate_working_time(n.work_unit, team, e).value == d[i], 'time of one work')

        class SW:
            def __init__(s, x): s.duration = Time(x)
        r = calculate_scheduled_time_cascade(nodes[0], id2swork={f'n{i}': SW(d[i]) for i in range(k)})
        H.check(r.value == s, 'scheduled time of a chain')
        p = work_priority(nodes[0], calculate_working_time_cascade, e)
        H.check(And(2 * (p - 1) <= s + sm, s + sm <= 2 * (p - 1) + 1) if H.symbolic else abs(p - 1 - (s + sm) / 2) <= .5,
                'priority is the average of the times with the least and the most workers')
    h.__name__ = f'cascade{k}'
    return h


def monotone_volume(H):
    """any team: a bigger volume never takes less time (productivity of the team by its table)"""
    from sampo.schemas.requirements import WorkerReq
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    from sampo.schemas.works import WorkUnit
    Time = _T()
    a = H.int('a', 0, BIG, rhi=50)
    b = H.int('b', 0, BIG, rhi=50)
    H.assume(a <= b)
    cnt = H.pick('cnt', [1, 2, 3, 4])
    est = DefaultWorkEstimator()
    f = lambda v: est.estimate_time(WorkUnit('x', 'x', worker_reqs=[WorkerReq('driver', Time(v), 1, 4)]), [tl.worker('driver', cnt)])
    H.check(f(a).value <= f(b).value, 'more volume never takes less time')


P = 'sampo/schemas/time_estimator.py:DefaultWorkEstimator.'
C = 'sampo/scheduler/utils/time_computaion.py:'
PROOFS = [
    Proof('any number of requirements', any_reqs, [P + 'estimate_time'], loops=_est_loops(), stubs=X, rnd=0, secs=40),
    Proof('one requirement', bounded(1), [P + 'estimate_time', P + '_get_productivity', P + 'set_worker_productivity',
          'sampo/schemas/time_estimator.py:communication_coefficient'], stubs=X, kind='bounded', secs=60, max_paths=8000,
          bound='1 requirement, listed counts and productivities, any volume', rnd=3000),
    Proof('two requirements', bounded(2), [P + 'estimate_time', P + '_get_productivity'], stubs=X, kind='bounded', secs=60,
          max_paths=8000, bound='2 requirements, listed counts and productivities, any volumes', rnd=1500),
    Proof('volume', monotone_volume, [P + 'estimate_time'], stubs=X, kind='bounded', bound='1 requirement, 4 counts'),
]
for _k in (1, 2, 4):
    PROOFS.append(Proof(f'chain of {_k}', cascade(_k), [C + 'calculate_working_time_cascade', C + 'calculate_working_time',
                  C + 'calculate_scheduled_time_cascade', C + 'work_priority'], stubs=X, kind='bounded', bound=f'chains of {_k} works'))


CHECK = Check('C20', 'bounded', proofs=PROOFS,
              assumptions=['floating-point evaluation of the productivity formula is exact up to a relative error of 1e-9'])
