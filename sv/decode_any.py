"""Chromosome -> schedule by the serial scheme for any number of works, kinds and contractors: what is handed to the timeline."""
from types import SimpleNamespace
from . import env
env.z3path()
import z3
from .encode_any import Named
from .loops import Compr, Loop
from .pyvc import And, Implies, Ite, Not, Or, PathEnd, SBool, SInt, Unsupported, patched, time_stub_exact
from .run import Proof
from .seq import Filtered, Mapped, SymSeq, _add, _i, field, fresh_int
from .slots import T, field2

X = (time_stub_exact,)
CM = 'sampo.scheduler.genetic.converter:'
C = 'sampo/scheduler/genetic/converter.py:'
F = 'serial_schedule_generation_scheme'
P = 'parallel_schedule_generation_scheme'
G = {}


class Pool(SymSeq):
    """kind -> contractor -> worker"""

    def __init__(self, count, own=True):
        self.count, self.own = count, own
        super().__init__(G['K'], lambda k: Named('kind', k), 'kinds')

    def __getitem__(self, kind):
        if not isinstance(kind, Named):
            raise Unsupported('what the pool is asked for')
        return PoolRow(self, kind.at)


class PoolRow(SymSeq):
    def __init__(self, pool, k):
        self.pool, self.k = pool, k
        super().__init__(G['C'], lambda c: Named('contractor', c), 'contractors')

    def __getitem__(self, con):
        if not isinstance(con, Named) or con.what != 'contractor':
            raise Unsupported('what the pool is asked for')
        return Cell(self.pool, self.k, con.at)


class Cell:
    """a worker of the pool, or a copy of it"""

    def __init__(self, pool, k, c, count=None):
        self.pool, self.k, self.c, self._count = pool, k, c, count
        self.name, self.contractor_id = Named('kind', k), Named('contractor', c)

    @property
    def count(self):
        return self.pool.count(self.k, self.c) if self._count is None else self._count

    def copy(self): return Cell(self.pool, self.k, self.c, self.count)

    def with_count(self, x):
        x = _i(x)
        if self._count is not None:
            self._count = x
            return self
        G['H'].check(self.pool is not G['given'], 'the given pool is unchanged')
        old, k, c = self.pool.count, self.k, self.c
        self.pool.count = lambda a, b: Ite(And(a == k, b == c), x, old(a, b))
        return self


class Copier:
    def deepcopy(self, x):
        if x is not G['given']:
            raise Unsupported('a copy of something else')
        G['own'] = Pool(x.count)
        return G['own']

    def copy(self, x): raise Unsupported('a shallow copy')


def _world(H):
    """a chromosome and the tables of a project, each as unknown functions of indices"""
    G.clear()
    n = H.int('works', 1)
    G.update(H=H, K=H.int('kinds', 0), C=H.int('contractors', 1))
    apt = H.int('project start', 0)
    w, st, fin, ends, zone = (field(H, x) for x in ('work at', 'start found', 'finish found', 'end', 'zones switched'))
    m, con, nz = field(H, 'requirements'), field(H, 'contractor of'), H.int('zones', 0)
    kind, num, lim, has, status = field2('kind'), field2('prescribed'), field2('limit'), field2('owned'), field2('status')
    G['given'] = Pool(lambda k, c: has(k, c))
    k0, c0, q0 = fresh_int('an arbitrary kind', 0), fresh_int('an arbitrary contractor', 0), fresh_int('an arbitrary requirement', 0)
    _add(And(k0 < G['K'], c0 < G['C']))

    class Req:
        def __init__(s, x, p): s.kind = Named('kind', kind(x, p))

    class WU:
        def __init__(s, x):
            s.x = x
            s.worker_reqs = SymSeq(m(x), lambda p: Req(x, p), 'requirements')
            s.worker_reqs.fact(lambda p: And(0 <= kind(x, p), kind(x, p) < G['K']))

    class Node:
        def __init__(s, x): s.x, s.id, s.work_unit = x, Named('work', x), WU(x)

    class WS:
        def __init__(s, x): s.x, s.assigned_time = x, ('given', x)

    class Spec:
        def get_work_spec(s, i): return WS(i.at)

        def __getitem__(s, i): return WS(i.at)

    class Row:
        def __init__(s, x, whole=False): s.x = x

        def __getitem__(s, k):
            if isinstance(k, slice):
                return s
            if type(k) is int and k == -1:
                return con(s.x)
            return num(s.x, k)

    class Res:
        def __getitem__(s, k):
            if not isinstance(k, tuple):
                return Row(k)
            x, c = k
            if isinstance(c, slice):
                H.check(c == slice(None, -1, None), 'all columns but that of the contractor')
                return Row(x)
            return Row(x)[c]

    class Border:
        def __getitem__(s, k):
            if not isinstance(k, tuple):
                raise Unsupported('a row of the limits')
            return lim(*k)

    class Statuses:
        def __getitem__(s, x): return SymSeq(nz, lambda z: status(x, z), 'statuses')

    class Nodes:
        def __getitem__(s, x): return Node(x)

    class Con:
        def __init__(s, c): s.c, s.id = c, Named('contractor', c)

    class Cons:
        def __getitem__(s, c): return Con(c)

    class Zs:
        def __getitem__(s, z): return ('zone', z)

    class Ix:
        def __init__(s, what): s.what = what

        def __getitem__(s, x):
            if not isinstance(x, Named) or x.what != s.what:
                raise KeyError(x)
            return x.at
    order = SymSeq(n, lambda i: w(i), 'order')
    order.fact(lambda i: And(m(w(i)) >= 0, 0 <= con(w(i)), con(w(i)) < G['C'], st(i) >= apt, fin(i) >= st(i)))
    return SimpleNamespace(**{k: v for k, v in locals().items() if k != 'H'})


def decode_any(H):
    from sampo.scheduler.genetic import converter as cv
    if not H.symbolic:
        return
    W = _world(H)
    n, w, st, ends, zone, m, con, kind, num, lim, has, apt = W.n, W.w, W.st, W.ends, W.zone, W.m, W.con, W.kind, W.num, W.lim, W.has, W.apt
    fin, k0, c0, q0 = W.fin, W.k0, W.c0, W.q0
    land, est, spec = object(), object(), W.Spec()
    calls, specs, listed = [], [], []
    G.update(calls=calls, specs=specs, listed=listed, n=n, w=w, k0=k0, c0=c0, lim=lim, has=has)

    class Works:
        """the works scheduled so far"""
        def __getitem__(s, nd):
            return SimpleNamespace()

        def values(s):
            k = fresh_int('scheduled', 0)
            starts, size = field(H, 'start of scheduled'), field(H, 'workers of scheduled')

            class SW:
                def __init__(s, i): s.start_time, s.workers = T(starts(i)), SymSeq(size(i), lambda p: None, 'workers')
            s.all = SymSeq(k, SW, 'scheduled works')
            s.all.fact(lambda i: And(size(i) >= 0, starts(i) >= 0))
            s.starts, s.size, s.k = starts, size, k
            return s.all
    works = Works()
    G['works'] = works

    def team_fits(team, x, what):
        if not isinstance(team, SymSeq):
            raise Unsupported('the kind of the team')
        H.check(team.n == m(x), f'{what}: one kind for every requirement')
        if bool(q0 < m(x)):
            a = team.at(q0)
            a0 = kind(x, q0)
            H.check(And(a.k == a0, a.c == con(x), a.count == num(x, a0)), f'{what}: the prescribed number of workers of the prescribed contractor')
            H.check(a._count is not None, f'{what}: copies of the workers')

    class Zones:
        def find_min_start_time(s, reqs, at, exec_time):
            H.check(at.value == ends(G['i']), 'zones are switched after the work')
            return T(zone(G['i']))

        def update_timeline(s, index, zones, at, exec_time): return 'switched'

    class TL:
        def __init__(s, pool, landscape):
            H.check(pool is not G['given'] and landscape is land, 'the timeline is built for a copy of the workers and the landscape')
            H.check(pool.count(k0, c0) == lim(c0, k0), 'the timeline is limited by the chromosome')
            s.zone_timeline = Zones()

        def find_min_start_time_with_additional(s, node, team, node2swork, ws, assigned_start_time=None, assigned_parent_time=T(0),
                                                work_estimator=None):
            i = G['i']
            H.check(node.x == w(i), 'works are decoded in order')
            team_fits(team, node.x, 'search')
            H.check(len(specs) == 1, 'the specification is applied before the search')
            H.check(And(ws.x == node.x, assigned_parent_time.value == apt) and work_estimator is est and assigned_start_time is None,
                    'the search sees the specification, the project start and the estimator')
            return T(st(i)), T(fin(i)), {}

        def schedule(s, node, node2swork, team, contractor, ws, start=None, given=None, parent=T(0), estimator=None):
            calls.append(node)
            i = G['i']
            H.check(And(node.x == w(i), len(calls) == 1), 'every work is scheduled once, in order')
            team_fits(team, node.x, 'schedule')
            H.check(contractor.c == con(node.x), 'the contractor is the prescribed one')
            H.check(And(ws.x == node.x, given[1] == node.x, parent.value == apt) and estimator is est,
                    'under the specification, the project start and the estimator')
            H.check(start.value == Ite(i == 0, apt, st(i)), 'at the moment that was found')
            return T(ends(i))

    class Sch:
        @staticmethod
        def optimize_resources_using_spec(wu, team, ws):
            specs.append(wu)
            H.check(And(wu.x == w(G['i']), ws.x == wu.x), 'the specification of the work is applied')
            team_fits(team, wu.x, 'specification')

    class ZR:
        def __init__(s, kind, required_status): s.kind, s.required_status = kind, required_status

        def to_zone(s): return s
    with patched((cv, 'copy', Copier()), (cv, 'MomentumTimeline', TL), (cv, 'Scheduler', Sch), (cv, 'ZoneReq', ZR)):
        r = getattr(cv, F)((W.order, W.Res(), W.Border(), spec, W.Statuses()), G['given'], W.Nodes(), W.Cons(), W.Zs(), None, W.Ix('kind'), W.Ix('contractor'),
                           land, None, T(apt), est)
    H.check(r[0] is works and isinstance(r[2], TL), 'all scheduled works are returned with their timeline')
    t = r[1].value
    i = fresh_int('a scheduled work', 0)
    if hasattr(works, 'all'):
        works.all.touch(i)
        H.check(Implies(And(i < works.k, works.size(i) > 0), lambda: t <= works.starts(i)), 'the schedule starts with its first work that needs workers')


class Listed:
    def append(self, node):
        G['listed'].append(node)
        G['H'].check(And(node.x == G['w'](G['i']), len(G['listed']) == 1), 'the order of the works is returned')


def _limits(t):
    """the two loops that set the limits"""

    def pool(E):
        G['H'].check(E.worker_pool is not G['given'], 'the limits are set in a copy of the given pool')
        f = z3.Function(f'pool{fresh_int("p").e}', z3.IntSort(), z3.IntSort(), z3.IntSort())
        return Pool(lambda a, b: SInt(f(_i(a).e, _i(b).e)))

    def kinds(E):
        k0, c0 = G['k0'], G['c0']
        return [('limits of the kinds so far', E.worker_pool.count(k0, c0) == Ite(E.i > k0, G['lim'](c0, k0), E.worker_pool.count(k0, c0)))]

    def contractors(E):
        k0, c0 = G['k0'], G['c0']
        old = E.old.worker_pool.count(k0, c0)
        return [('limits of the contractors so far', E.worker_pool.count(k0, c0) ==
                 Ite(And(E.worker_index.at == k0, E.i > c0), G['lim'](c0, k0), old))]

    return [Compr(t), Loop(t, 0, kinds, havoc={'worker_pool': pool}), Loop(t, 1, contractors, havoc={'worker_pool': pool})]


def loops():
    t = CM + F

    def works(E):
        if E.pre is not None:
            return [('!every work is scheduled', And(len(G['calls']) == 1, len(G['listed']) == 1))]
        G['i'] = E.i
        for k in ('calls', 'specs', 'listed'):
            G[k].clear()
        return []
    return _limits(t) + [
            Loop(t, 2, works, havoc={'node2swork': lambda E: G['works'], 'order_nodes': lambda E: Listed(), 'timeline': lambda E: E.timeline})]


class Remaining:
    """contract of LinkedList (see linked_any.py) for the works that are left: the predicate is asked about each of them, those it accepts are removed"""

    def __init__(self, iterable=None):
        self.items, self.n = iterable, iterable.n
        G['remaining'] = self

    def __len__(self): raise Unsupported('the number of remaining works')

    def sym_len(self): return self.n

    def remove_if(self, accepted):
        H, i = G['H'], fresh_int('a remaining work', 0)
        if bool(i < self.items.n):                   # an arbitrary one that may remain; the effect on all is used on the other path
            G['i'] = i
            for k in ('calls', 'specs', 'events', 'asked'):
                G[k].clear()
            x = self.items.at(i)
            del G['asked'][:]
            G['now'] = None
            r = accepted(x)
            H.check(And(r == (len(G['calls']) == 1), len(G['calls']) == len(G['events'])), 'exactly the scheduled works are removed and recorded')
            H.check(len(G['asked']) == 1, 'the timeline decides whether the work can start')
            H.check(Implies(G['asked'][0][1], len(G['calls']) == 1), 'a work that can start is scheduled')
            raise PathEnd()
        left = fresh_int('left', 0)
        _add(left <= self.n)
        self.n = left


class Moments:
    """contract of GeneralTimeline: moments in order, starting with zero"""

    def __init__(self):
        self.n = SInt(z3.IntVal(1))

    def sym_len(self): return self.n

    def __len__(self): raise Unsupported('the number of moments')

    def __getitem__(self, k):
        G['H'].check(And(0 <= k, k < self.n), 'a moment of the list')
        t = fresh_int('moment', 0)
        return T(t)

    def update_timeline(self, start, exec_time, obj):
        G['events'].append(start)
        G['H'].check(And(start.value == G['calls'][-1][1].value, exec_time.value == G['lasts']), 'start and end of the work are recorded')
        self.n = fresh_int('moments', 3)


def parallel_any(H):
    from sampo.scheduler.genetic import converter as cv
    if not H.symbolic:
        return
    W = _world(H)
    n, w, m, con, kind, num, lim, apt = W.n, W.w, W.m, W.con, W.kind, W.num, W.lim, W.apt
    k0, c0 = W.k0, W.c0
    land, est = object(), object()
    calls, specs, asked, events = [], [], [], []
    G.update(calls=calls, specs=specs, asked=asked, events=events, k0=k0, c0=c0, lim=lim)
    a0 = fresh_int('an arbitrary column', 0)
    _add(a0 < G['K'])
    given, cascade, done = field(H, 'time given'), field(H, 'time estimated'), field(H, 'zones done')
    has_time = z3.Function('has a given time', z3.IntSort(), z3.BoolSort())

    class WS:
        def __init__(s, x): s.x = x

        @property
        def assigned_time(s): return T(given(s.x)) if bool(SBool(has_time(s.x.e))) else None

    class Spec:
        def get_work_spec(s, i): return WS(i.at)

        def __getitem__(s, i): return WS(i.at)
    spec = Spec()

    class Counts:
        """the counts of a work"""
        def __init__(s, x): s.x = x

    class Res(W.Res):
        def __getitem__(s, k):
            if isinstance(k, tuple) and isinstance(k[1], slice):
                H.check(k[1] == slice(None, -1, None), 'all columns but that of the contractor')
                counts = SymSeq(G['K'], lambda a: num(k[0], a), 'counts')
                counts.fact(lambda a: num(k[0], a) >= 0)
                return counts
            return super().__getitem__(k)

    class Table:
        """worker_pool_indices: the workers of the pool that was given, by the numbers of kind and contractor"""
        def __getitem__(s, k): return TableRow(k)

    class TableRow:
        def __init__(s, k): s.k = k

        def __getitem__(s, c): return Cell(G['given'], s.k, c)

    def team_fits(team, x, what):
        if not isinstance(team, Filtered):
            raise Unsupported('the kind of the team')
        r = team.lazy.some(a0)
        H.check(And(team.lazy.base.n == G['K'], len(r) == Ite(num(x, a0) > 0, 1, 0)), f'{what}: every kind that is used, and only those')
        for a in r:
            H.check(And(a.k == a0, a.c == con(x), a.count == num(x, a0)), f'{what}: the prescribed number of workers of the prescribed contractor')
            H.check(a._count is not None, f'{what}: copies of the workers')

    def duration(x): return Ite(SBool(has_time(x.e)), given(x), cascade(x))

    class Zones:
        def finish_statuses(s): return T(done(G['i'])), 'final'

    class Works:
        def __getitem__(s, nd): return SimpleNamespace()
    works = Works()
    G['works'] = works

    class TL:
        def __init__(s, pool, landscape):
            H.check(pool is not G['given'] and landscape is land, 'the timeline is built for a copy of the workers and the landscape')
            H.check(pool.count(k0, c0) == lim(c0, k0), 'the timeline is limited by the chromosome')
            s.zone_timeline = Zones()

        def can_schedule_at_the_moment(s, node, team, ws, node2swork, start, exec_time):
            ok = bool(SBool(z3.Bool(f'possible{fresh_int("p").e}')))
            asked.append((start, ok))
            x = w(G['i'])
            H.check(And(node.x == x, ws.x == x, exec_time.value == duration(x), node2swork is works), 'the question is about this work')
            team_fits(team, x, 'question')
            H.check(len(specs) == 1, 'the specification is applied before')
            return ok

        def schedule(s, node, node2swork, team, contractor, ws, start=None, given=None, parent=T(0), estimator=None):
            calls.append((node, start))
            x, i = w(G['i']), G['i']
            G['lasts'] = duration(x)
            H.check(And(node.x == x, ws.x == x, len(calls) == 1, node2swork is works), 'every work is scheduled once')
            H.check(len(asked) == 1 and asked[0][1], 'only if the timeline allows it')
            team_fits(team, x, 'schedule')
            H.check(contractor.c == con(x), 'the contractor is the prescribed one')
            H.check(And(parent.value == apt, Not(SBool(has_time(x.e))) if given is None else given.value == duration(x)) and estimator is est, 'for its duration, under the project start and the estimator')
            at = asked[0][0].value
            at = Ite(i == 0, apt, at)
            last = Ite(asked[0][0].value >= done(i), asked[0][0].value, done(i))
            H.check(start.value == Ite(i == n - 1, last, at), 'at the moment that was asked about')
            return start

    class Sch:
        @staticmethod
        def optimize_resources_using_spec(wu, team, ws):
            specs.append(wu)
            H.check(And(wu.x == w(G['i']), ws.x == wu.x), 'the specification of the work is applied')
            team_fits(team, wu.x, 'specification')

    def estimate(node, team, estimator):
        H.check(And(node.x == w(G['i']), len(specs) == 1) and estimator is est, 'the duration is estimated for the final team')
        team_fits(team, node.x, 'estimate')
        return T(cascade(node.x))
    with patched((cv, 'copy', Copier()), (cv, 'JustInTimeTimeline', TL), (cv, 'Scheduler', Sch), (cv, 'LinkedList', Remaining),
                 (cv, 'GeneralTimeline', Moments), (cv, 'calculate_working_time_cascade', estimate)):
        r = getattr(cv, P)((W.order, Res(), W.Border(), spec, W.Statuses()), G['given'], W.Nodes(), W.Cons(), W.Zs(), Table(), W.Ix('kind'),
                           W.Ix('contractor'), land, None, T(apt), est)
    H.check(r[0] is works and isinstance(r[2], TL), 'all scheduled works are returned with their timeline')
    H.check(r[1].value == apt, 'the schedule starts with the project')
    rem = G['remaining']
    H.check(rem.items.n == n, 'all works are to be scheduled')


def parallel_loops():
    t = CM + P

    def step(E):
        return [('not before the first moment', 0 <= E.ckpt_idx), ('not behind the last moment', E.ckpt_idx <= E.work_timeline.n)]

    def moments(E):
        x = Moments()
        x.n = fresh_int('moments', 1)
        return x

    def remaining(E):
        x = E.enumerated_works_remaining
        if not isinstance(x, Remaining):
            raise Unsupported('the list of the remaining works')
        x.n = fresh_int('remaining', 0)
        return x
    return _limits(t) + [Loop(t, 2, step, havoc={'node2swork': lambda E: G['works'], 'work_timeline': moments, 'timeline': lambda E: E.timeline,
                                                 'enumerated_works_remaining': remaining}, also=['node2swork', 'work_timeline'])]


def proofs():
    return [Proof('decode by the parallel scheme/any number of works', parallel_any, [f'sampo/scheduler/genetic/converter.py:{P}'], stubs=X, rnd=0, secs=60,
                  loops=parallel_loops()),
            Proof('decode by the serial scheme/any number of works', decode_any, [C + F], stubs=X, rnd=0, secs=60, loops=loops())]
