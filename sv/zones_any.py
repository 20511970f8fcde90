"""Zones: any number of zones and of events in each."""
from . import env
env.z3path()
import z3
from . import loops, pyvc, slots
from .loops import Compr, Loop
from .pyvc import And, Implies, Ite, Max, Not, Or, SBool, SInt, patched, time_stub_exact
from .run import Proof
from .seq import Forall, SymSeq, _add, _i, field, fresh_int
from .slots import BIG, Kinds, T, field2

X = (time_stub_exact,)
G = {}
ZT = 'sampo/scheduler/timeline/zone_timeline.py:ZoneTimeline.'
ZM = 'sampo.scheduler.timeline.zone_timeline:ZoneTimeline.'


def pred(name, n=2):
    f = z3.Function(name, *[z3.IntSort()] * n, z3.BoolSort())
    return lambda *a: SBool(f(*[_i(x).e for x in a]))


class Zones:
    """any number of zones with a required status each"""

    def __init__(self, H):
        n = self.n = H.int('zones', 1)
        need = self.need = field(H, 'required')

        class Req:
            def __init__(s, i): s.i, s.kind, s.name, s.required_status, s.status = i, ('zone', i), ('zone', i), need(i), need(i)
        self.seq = SymSeq(n, Req, 'zones')


def search_any(H):
    """find_min_start_time over any number of zones, on the contract of the search for one zone"""
    if not H.symbolic:
        return
    import sampo.scheduler.timeline.zone_timeline as zt
    G.clear()
    Z = Zones(H)
    ok, nx = pred('slot'), field2('next slot')
    par, d, t0 = H.int('requested', 0, BIG), H.int('length', 0, BIG), H.int('earlier', 0, BIG)

    class Timeline:
        def __getitem__(s, kind): return kind

    class Index:
        def __getitem__(s, kind): return Z.need(kind[1])

    def slot(state, start, length, status):
        k, t = state[1], start.value
        H.check(And(length.value == d, status == Z.need(k)), 'the slot is searched for the whole time and the required status')
        r = nx(k, t)
        _add(And(r >= t, ok(k, r), r <= BIG, Implies(And(t <= t0, t0 < r), lambda: Not(ok(k, t0)))))
        return T(r)

    class Self:
        _timeline = Timeline()
        _find_earliest_time_slot = staticmethod(slot)
    G.update(Z=Z, ok=ok, par=par, t0=t0)
    k = fresh_int('zone', 0)
    H.assume(k < Z.n)
    Z.seq.touch(k)
    with patched((zt, 'deque', lambda x: Kinds(x, lambda k: And(0 <= k, k < Z.n), 'queue')), (zt, 'build_index', lambda *a: Index())):
        r = zt.ZoneTimeline.find_min_start_time(Self(), Z.seq, T(par), T(d)).value
    H.check(r >= par, 'not before the requested moment')
    H.check(ok(k, r), 'every zone can have its status from the returned moment on')


def search_loops():
    t = ZM + 'find_min_start_time'

    def queue(E):
        Z, q, s, st, ok, par = G['Z'], E.queue, E.scheduled_wreqs, E.start.value, G['ok'], G['par']
        if isinstance(s, list):
            had = list(s)
            s = Kinds(Z.seq, lambda k: Or(SBool(z3.BoolVal(False)), *[k == x.i for x in had]))
        qh, sh = q.has, s.has
        return [('not before the requested moment', And(st >= par, st <= BIG)),
                ('every zone waits or has a slot', Forall(Z.seq, lambda k: Or(qh(k), sh(k)))),
                ('slots begin at the current moment', Forall(Z.seq, lambda k: Implies(sh(k), lambda: ok(k, st))))]
    return [Compr(t), Loop(t, 0, queue, havoc={'queue': lambda E: Kinds.any_set(G['Z'].seq, 'queue'),
                                               'scheduled_wreqs': lambda E: Kinds.any_set(G['Z'].seq, 'scheduled')})]


class States:
    """events of every zone in time order, the first is the initial one"""

    def __init__(self, H, Z):
        from sampo.schemas.types import EventType
        self.n, self.kt, self.st, self.sw = field(H, 'events'), field2('time of'), field2('status after'), field2('kind of')
        self.Z = Z
        self.memo = {}

    def touch(self, j):
        for s in list(self.memo.values()):
            s.touch(j)
            s.touch(j + 1)

    def __getitem__(self, zone):
        from .seq import _key
        i = zone[1]
        k = _key(_i(i))
        if k in self.memo:
            return self.memo[k]
        me = self
        kt, st = (lambda j: me.kt(i, j)), (lambda j: me.st(i, j))

        class Ev:
            def __init__(s, j): s.j = j
            @property
            def time(s): return T(Ite(s.j == 0, 0, kt(s.j)))
            @property
            def available_workers_count(s): return st(s.j)
            @property
            def event_type(s): return me.memo[k].kind(s.j)

        class Seq(SymSeq):
            def bisect_right(s, t):
                if not hasattr(t, 'value'):
                    raise pyvc.Unsupported('bisect_right of a tuple')
                p = fresh_int('p', 1)
                _add(p <= s.n)
                s.fact(lambda j: Implies(j < p, lambda: kt(j) <= t.value))
                s.fact(lambda j: Implies(j >= p, lambda: kt(j) > t.value))
                s.touch(p)
                s.touch(p - 1)
                return p
        s = Seq(self.n(i), Ev, 'events')
        _add(And(self.n(i) >= 1, kt(0) == -1))
        s.fact(lambda j: Implies(j > 0, lambda: And(kt(j) >= 0, kt(j) <= BIG)))
        s.pair_fact(lambda a, b: kt(a) <= kt(b))
        self.memo[k] = s
        return s


def allowed_any(H):
    """can_schedule_at_the_moment over any number of zones and events: exactly when for every zone the status in force fits, or can
    still be switched, and every change of status during the work fits"""
    if not H.symbolic:
        return
    import sampo.scheduler.timeline.zone_timeline as zt
    G.clear()
    Z = Zones(H)
    S = States(H, Z)
    fit, cost, bal = pred('fits'), field2('cost'), pred('balanced')
    t, d = H.int('moment', 0, BIG), H.int('length', 0, BIG)

    class Costs:
        def __getitem__(s, ab):
            c = cost(*ab)
            _add(And(c >= 0, c <= BIG))
            return c

    class Config:
        time_costs = Costs()

    class Self:
        _timeline = S
        _config = Config

        def _match_status(s, a, b): return bool(fit(a, b))

        def _is_inside_interval(s, state, idx): return bool(bal(idx, state.n))
    G.update(Z=Z, S=S, t=t, d=d, fit=fit, cost=cost)
    k = fresh_int('zone', 0)
    j = fresh_int('event', 0)
    r = zt.ZoneTimeline.can_schedule_at_the_moment(Self(), Z.seq, T(t), T(d))
    if r:
        H.assume(k < Z.n)
        Z.seq.touch(k)
        s = S[('zone', k)]
        H.assume(j < s.n)
        s.touch(j)
        s.touch(j + 1)
        H.check(during(k, j), 'possible only if every change of status during the work fits')
        H.check(before(k, j), 'possible only if the status at the beginning fits or there is time to switch it')
        return
    i = loops.current(ZM + 'can_schedule_at_the_moment#0')
    s = S[('zone', i)]
    for x in list(s.touched.values()):
        s.touch(x - 1)
    good = [And(0 <= x, x < s.n, Not(And(during(i, x), before(i, x)))) for x in list(s.touched.values())]
    good += [And(0 <= x, x < s.n, Not(bal(x, s.n))) for x in list(s.touched.values())] + [Not(bal(s.n, s.n))]
    H.check(Or(*good), 'refused only if some change of status, or the status at the beginning, does not fit')


def during(i, j):
    """event j of zone i does not come in the way of the work"""
    S, t, d, fit, need = G['S'], G['t'], G['d'], G['fit'], G['Z'].need
    return Implies(And(S.kt(i, j) > t, S.kt(i, j) <= t + d), lambda: fit(S.st(i, j), need(i)))


def before(i, j):
    """if event j is the last one not after the beginning: its status fits, or nothing happens while it is switched"""
    S, t, fit, need, cost = G['S'], G['t'], G['fit'], G['Z'].need, G['cost']
    s = S[('zone', i)]
    last = And(S.kt(i, j) <= t, Or(j + 1 == s.n, S.kt(i, j + 1) > t))
    c = cost(S.st(i, j), need(i))
    return Implies(last, lambda: Or(fit(S.st(i, j), need(i)), And(t >= c, S.kt(i, j) <= t - c)))


def allowed_loops():
    t = ZM + 'can_schedule_at_the_moment'

    def outer(E):
        Z, S = G['Z'], G['S']
        return [('the zones so far allow it', AllEvents(Z.seq, S, 0, E.i))]

    def inner(E):
        S, k = G['S'], E.zone.i
        s = S[('zone', k)]
        lo = E.start_idx
        return [('the changes so far fit', Forall(s, lambda j: G['fit'](S.st(k, j), G['Z'].need(k)), lo, lo + E.i))]
    return [Loop(t, 0, outer), Loop(t, 1, inner)]


class AllEvents(Forall):
    """for every zone i in [lo, hi) and every event j of it"""

    def __init__(self, seq, S, lo, hi):
        super().__init__(seq, None, lo, hi)
        self.S = S

    def assume(self):
        lo, hi, S = self.lo, self.hi, self.S

        def zone(i):
            s = S[('zone', i)]
            s.fact(lambda j: Implies(And(lo <= i, i < hi), lambda: And(during(i, j), before(i, j))))
            return True
        self.seq.fact(zone)

    def prove(self, eng, c, label):
        i, j = fresh_int('zone', 0), fresh_int('event', 0)
        self.seq.touch(i)
        s = self.S[('zone', i)]
        self.S.touch(j)
        eng.prove(c, pyvc._b(Implies(And(self.lo <= i, i < self.hi, j < s.n), lambda: And(during(i, j), before(i, j)))), label)


def slot_any(H):
    """the search for one zone, any number of events: the status in force at the returned moment fits or can be switched after the last
    event, and every change of status during the work fits"""
    if not H.symbolic:
        return
    import sampo.scheduler.timeline.zone_timeline as zt
    from sampo.schemas.types import EventType
    G.clear()
    Z = Zones(H)
    S = States(H, Z)
    fit, cost, bal = pred('fits'), field2('cost'), pred('balanced')
    t, d, need = H.int('requested', 0, BIG), H.int('length', 0, BIG), H.int('required', 0)
    i = SInt(z3.IntVal(0))
    s = S[('zone', i)]
    starts = pred('is a start', 1)
    s.kind = lambda j: EventType.START if starts(j) else EventType.END

    class Costs:
        def __getitem__(self, ab):
            c = cost(*ab)
            _add(And(c >= 0, c <= BIG))
            return c

    class Config:
        time_costs = Costs()

    class Self:
        _config = Config

        def _match_status(self, a, b): return bool(fit(a, b))

        def _is_inside_interval(self, state, idx): return bool(bal(idx, state.n))

        def _validate(self, *a): pass
    for x in (s.n - 1, SInt(z3.IntVal(0))):
        s.touch(x)
    G.update(s=s, i=i, S=S, t=t, d=d, fit=fit, need=need)
    r = zt.ZoneTimeline._find_earliest_time_slot(Self(), s, T(t), T(d), need).value
    j = fresh_int('event', 0)
    H.assume(j < s.n)
    for x in (j, j + 1, s.n - 1):
        s.touch(x)
    kt, st = (lambda j: S.kt(i, j)), (lambda j: S.st(i, j))
    H.check(r >= t, 'not before the requested moment')
    H.check(Implies(And(kt(j) > r, kt(j) <= r + d), lambda: fit(st(j), need)), 'every change of status during the work fits')
    now = And(kt(j) <= r, Or(j + 1 == s.n, kt(j + 1) > r))
    H.check(Implies(now, lambda: Or(fit(st(j), need), And(j + 1 == s.n, r >= Ite(j == 0, 0, kt(j)) + cost(st(j), need)))),
            'the status at the beginning fits, or there is time to switch it after the last event')


def slot_loops():
    t = ZM + '_find_earliest_time_slot'

    def search(E):
        s, S, i = G['s'], G['S'], G['i']
        c, m = E.current_start_idx, E.current_start_time.value
        for x in (c, c + 1):
            s.touch(x)
        return [('not before the requested moment', m >= G['t']),
                ('a place in the list', And(0 <= c, c < s.n)),
                ('what follows is after the requested moment', Or(c + 1 == s.n, S.kt(i, c + 1) > G['t'])),
                ('the moment is not before the event', S.kt(i, c) <= m)]

    def look(E):
        s, S, i = G['s'], G['S'], G['i']
        s.touch(E.end_idx - E.i)
        return [('the changes so far fit', Forall(s, lambda j: G['fit'](S.st(i, j), G['need']), E.end_idx - E.i, E.end_idx)),
                ('nothing found yet', Not(E.not_compatible_status_found))]
    return [Loop(t, 0, search, variant=lambda E: G['s'].n - E.current_start_idx), Loop(t, 1, look)]


def finish_any(H):
    """append_statuses over any number of zones: each zone is switched after its last event, in the time the switch takes, and the
    returned moment is not before any of the switches"""
    if not H.symbolic:
        return
    import sampo.scheduler.timeline.zone_timeline as zt
    G.clear()
    Z = Zones(H)
    last, st, cost, fit = field(H, 'last event'), field(H, 'status left'), field2('cost'), pred('fits')

    class Costs:
        def __getitem__(self, ab):
            c = cost(*ab)
            _add(And(c >= 0, c <= BIG))
            return c

    class Statuses:
        def match_status(self, a, b): return bool(fit(a, b))

    class Config:
        time_costs, statuses = Costs(), Statuses()

    class State:
        def __init__(s, i): s.i = i

        def __getitem__(s, j):
            class E:
                time, available_workers_count = T(last(s.i)), st(s.i)
            H.check(j == -1, 'the last event of the zone')
            return E

        def add(s, e):
            H.check(e.time.value >= last(s.i), 'what is added comes after everything done in the zone')

    class Timeline:
        def __getitem__(s, zone): return State(zone[1])

    class Self:
        _timeline, _config = Timeline(), Config

    need = Z.need

    def takes(k):
        return Ite(fit(st(k), need(k)), 0, cost(st(k), need(k)))

    class Log:
        def append(self, m):
            k = m.name[1]
            H.check(And(m.from_status == st(k), m.to_status == need(k), m.start_time.value >= last(k),
                        m.end_time.value == m.start_time.value + takes(k)),
                    'a switch leads from the status left to the required one, after everything done in the zone, and takes its time')
            G['logged'] = k

        def __len__(self): return 0
    Z.seq.fact(lambda k: And(last(k) >= 0, last(k) <= BIG, cost(st(k), need(k)) >= 0, cost(st(k), need(k)) <= BIG))
    G.update(Z=Z, Log=Log, st=st, last=last, takes=takes)
    k = fresh_int('zone', 0)
    H.assume(k < Z.n)
    Z.seq.touch(k)
    end, moves = zt.ZoneTimeline.append_statuses(Self(), Z.seq)
    H.check(end.value >= last(k) + takes(k), 'the finishing statuses are reached after everything done in the zones')


def finish_loops():
    def inv(E):
        Z, logged = G['Z'], G.pop('logged', None)
        out = [('not before any of the zones so far', E.global_finish_time.value >= 0),
               ('after the switches so far', Forall(Z.seq, lambda k: E.global_finish_time.value >= G['last'](k) + G['takes'](k), 0, E.i))]
        if E.pre is not None:
            k = E.zone.i
            out.append(('!a status that differs is switched',
                        logged == k if logged is not None else Or(G['st'](k) == Z.need(k), Z.need(k) == 0)))
        return out
    return [Loop(ZM + 'append_statuses', 0, inv, havoc={'sworks': lambda E: G['Log']()}, frame=('state',))]


PROOFS = [Proof('search/any number of zones', search_any, [ZT + 'find_min_start_time'], stubs=X, rnd=0, secs=60, loops=search_loops()),
          Proof('possible/any number of zones and events', allowed_any, [ZT + 'can_schedule_at_the_moment'], stubs=X, rnd=0, secs=60,
                loops=allowed_loops()),
          Proof('search in one zone/any number of events', slot_any, [ZT + '_find_earliest_time_slot'], stubs=X, rnd=0, secs=60,
                loops=slot_loops()),
          Proof('finishing statuses/any number of zones', finish_any, [ZT + 'append_statuses'], stubs=X, rnd=0, secs=60, loops=finish_loops())]
