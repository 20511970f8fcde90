"""Symbolic and concrete states of the timelines, shared by the harnesses of several properties."""
from . import env  # noqa: F401
import sampo.scheduler  # noqa: F401
from .pyvc import And, Ite, Or, Not, Implies
TMAX = 10 ** 6          # all times of a harness stay below: far from the saturation of Time (see C19)


def landscape():
    from sampo.schemas.landscape import LandscapeConfiguration
    return LandscapeConfiguration()


def worker(kind, count, contractor='c', price=1.0):
    from sampo.schemas.resources import Worker
    return Worker(f'w{kind}', kind, count, contractor_id=contractor, cost_one_unit=price)


def pool(caps, contractor='c'):
    """{kind: count} -> WorkerContractorPool"""
    return {k: {contractor: worker(k, v, contractor)} for k, v in caps.items()}


def momentum(caps, contractor='c'):
    from sampo.scheduler.timeline import MomentumTimeline
    return MomentumTimeline(pool(caps, contractor), landscape())


def jit(caps, contractor='c'):
    from sampo.scheduler.timeline import JustInTimeTimeline
    return JustInTimeTimeline(pool(caps, contractor), landscape())


def spec(**kw):
    from sampo.schemas.schedule_spec import WorkSpec
    return WorkSpec(**kw)


class Profile:
    """events (time, value) in time order; value at x = value of the last event not after x, cap before the first"""

    def __init__(self, cap, evs):
        self.cap, self.evs = cap, list(evs)

    def at(self, x):
        v = self.cap
        for t, a in self.evs:
            v = Ite(t <= x, a, v)
        return v

    def free(self, y, d, n):
        """n available during [y, y + d), as a formula over the event times"""
        return And(self.at(y) >= n, *[Implies(And(t > y, t < y + d), self.at(t) >= n) for t, _ in self.evs])


def booked_state(H, k, cap, name=''):
    """k events after the initial one, sorted, satisfying the representation invariant of MomentumTimeline: availability
    between 0 and the capacity, not increasing inside a group of equal times, everything free after the last event"""
    ts, vs = [], []
    for i in range(k):
        t = H.int(f'{name}t{i}', 0, TMAX, rhi=12)
        v = H.int(f'{name}v{i}', 0, 10 ** 6, rhi=5)
        if i:
            H.assume(ts[-1] <= t)
            H.assume(Implies(ts[-1] == t, lambda: v <= vs[-1]))
        else:
            H.assume(Implies(t == 0, lambda: v <= cap))
        H.assume(v <= cap)
        ts.append(t)
        vs.append(v)
    if k:
        H.assume(vs[-1] == cap)
    return list(zip(ts, vs))


def fill_momentum(tl, kind, evs, contractor='c'):
    from sampo.schemas.types import ScheduleEvent, EventType
    from sampo.schemas.time import Time
    st = tl._timeline[contractor][kind]
    for i, (t, v) in enumerate(evs):
        st.add(ScheduleEvent(i, EventType.START, Time(t), None, v))
    tl._task_index = len(evs)
    return st


def profile_of(state, cap):
    """the profile stored in a MomentumTimeline state (initial event dropped)"""
    from sampo.schemas.types import EventType
    return Profile(cap, [(e.time.value, e.available_workers_count) for e in state if e.event_type is not EventType.INITIAL])


# ---- states of any length ------------------------------------------------------------------------------------

G = {}        # ghost values of the running harness, read by the loop invariants


class SymEvents:
    """MomentumTimeline state with any number of events; the sorted list is used through the contract of
    sortedcontainers.SortedKeyList (bisect positions), everything else is symbolic"""

    def __init__(self, H, cap, ties=True):
        from .seq import SymSeq, field, fresh_int
        from sampo.schemas.types import ScheduleEvent, EventType
        from sampo.schemas.time import Time
        self.cap = cap
        self.n = H.int('n_events', 1)
        self.kt = field(H, 'kt')        # sort key: time, but -1 for the initial event
        self.v = field(H, 'avail')
        outer = self

        class Ev:
            __slots__ = ('i',)

            def __init__(s, i): s.i = i
            @property
            def time(s):
                t = Time.__new__(Time)
                t.value = Ite(s.i == 0, 0, outer.kt(s.i))
                return t
            @property
            def available_workers_count(s): return outer.v(s.i)
            @property
            def event_type(s): return EventType.INITIAL if (s.i == 0) else EventType.START

        class Seq(SymSeq):
            def bisect_right(s, t):
                if not hasattr(t, 'value'):
                    from .pyvc import Unsupported
                    raise Unsupported('bisect_right of a tuple')
                return s._bisect(lambda j: outer.kt(j) <= t.value)

            def bisect_left(s, key):
                t, seq, _ = key
                if seq != -1:
                    from .pyvc import Unsupported
                    raise Unsupported('bisect_left key')
                return s._bisect(lambda j: outer.kt(j) < t.value)

            def _bisect(s, below):
                p = fresh_int('p', 0)
                from . import pyvc
                pyvc.ctx().add((p <= s.n).e)
                s.fact(lambda j: Implies(j < p, lambda: below(j)))
                s.fact(lambda j: Implies(j >= p, lambda: Not(below(j))))
                s.touch(p)
                s.touch(p - 1)
                return p

        s = self.seq = Seq(self.n, Ev, 'state')
        kt, v = self.kt, self.v
        # representation invariant
        H.assume(kt(0) == -1)
        s.fact(lambda i: And(v(i) >= 0, v(i) <= cap, Implies(i > 0, lambda: And(kt(i) >= 0, kt(i) <= TMAX))))
        s.pair_fact(lambda i, j: And(kt(i) <= kt(j), *([Implies(kt(i) == kt(j), lambda: v(i) >= v(j))] if ties else [])))
        H.assume(v(self.n - 1) == cap)
        H.assume(v(0) == cap)
        s.touch(self.n - 1)
        s.touch(0 + 0 * self.n)

    def cover(self, x):
        """index of the event in force at x (x >= 0)"""
        from .seq import fresh_int
        from . import pyvc
        p = fresh_int('cover', 0)
        pyvc.ctx().add(pyvc._b(And(p < self.n, self.kt(p) <= x, Or(p == self.n - 1, self.kt(p + 1) > x))))
        self.seq.touch(p)
        self.seq.touch(p + 1)
        return p

    def at(self, x):
        return self.v(self.cover(x))


def state_any(H, cap):
    """-> (state, profile) ; symbolic: any length, concrete: up to 6 events"""
    if H.symbolic:
        se = SymEvents(H, cap)
        return se.seq, se
    k = H.int('k', 0, 6)
    evs = booked_state(H, k, cap)
    m = momentum({'a': cap})
    return fill_momentum(m, 'a', evs), Profile(cap, evs)
