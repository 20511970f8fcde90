"""Bookings of the interval timeline: any number of kinds and of events of a kind."""
from . import env
env.z3path()
import z3
from . import pyvc, tl
from .loops import Loop
from .pyvc import And, Implies, Ite, Not, Or, SBool, SInt, Unsupported, time_stub_exact
from .run import Proof
from .seq import Forall, SymSeq, _add, _i, field, fresh_int

X = (time_stub_exact,)
BIG = 10 ** 6
G = {}
MT = 'sampo/scheduler/timeline/momentum_timeline.py:MomentumTimeline.'
MM = 'sampo.scheduler.timeline.momentum_timeline:MomentumTimeline.'


def T(v):
    from sampo.schemas.time import Time
    return Time(v)


class State:
    """events of a kind in the order of the sorted list (contract of sortedcontainers.SortedKeyList over the timeline's key):
    kt - time, -1 for the initial event; v - workers available from it on.  Maps are replaced, never changed."""

    def __init__(self, k, n, kt, v, cap):
        self.k, self.n, self.kt, self.v, self.cap = k, n, kt, v, cap
        self.uni = SymSeq(n + 4, lambda j: j, 'events')
        for j in (0, n - 1):
            self.uni.touch(_i(j))
        self.uni.fact(lambda j: Implies(j < n, lambda: And(
            v(j) >= 0, v(j) <= cap, Implies(j > 0, lambda: And(kt(j) >= 0, kt(j) <= BIG)),
            Implies(j + 1 < n, lambda: And(kt(j) <= kt(j + 1), Implies(kt(j) == kt(j + 1), lambda: v(j) >= v(j + 1)))))))
        _add(And(n >= 1, kt(0) == -1, v(0) == cap, v(n - 1) == cap))

    def sym_len(self): return self.n

    def __len__(self): raise Unsupported('length of the events')

    def _pos(self, below):
        """first index whose event is not below"""
        n, p = self.n, fresh_int('p', 0)
        _add(p <= n)
        self.uni.fact(lambda j: Implies(j < n, lambda: And(Implies(j < p, lambda: below(j)), Implies(j >= p, lambda: Not(below(j))))))
        for j in (p - 1, p):
            self.uni.touch(j)
        return p

    def bisect_right(self, t):
        if not hasattr(t, 'value'):
            raise Unsupported('bisect_right of a tuple')
        kt = self.kt
        return self._pos(lambda j: kt(j) <= t.value)

    def bisect_left(self, key):
        if not isinstance(key, tuple) or key[1] != -1:
            raise Unsupported('bisect_left key')
        kt, t = self.kt, key[0].value
        return self._pos(lambda j: kt(j) < t)

    def cover(self, x):
        """index of the event in force at x"""
        kt, n = self.kt, self.n
        p = self._pos(lambda j: kt(j) <= x) - 1
        _add(Or(p == n - 1, kt(p + 1) > x))
        return p

    def event(self, i):
        self.uni.touch(i)
        me = self

        class Event:
            individual = True

            @property
            def time(s):
                return T(Ite(i == 0, 0, me.kt(i)))

            @property
            def available_workers_count(s): return me.v(i)

            @available_workers_count.setter
            def available_workers_count(s, x):
                old = me.v
                me.v = lambda j: Ite(j == i, x, old(j))
        return Event()

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None or i.start is None or i.stop is None:
                raise Unsupported('slice of the events')
            lo, hi = i.start, i.stop
            if not bool(And(lo >= 0, hi >= 0, hi <= self.n)):
                raise Unsupported('slice of the events')
            G['slice'] = lo
            return SymSeq(Ite(hi < lo, 0, hi - lo), lambda j: self.event(lo + j), 'events in the interval')
        if type(i) is int and i < 0:
            i = self.n + i
        i = _i(i)
        if not bool(And(0 <= i, i < self.n)):
            raise IndexError('list index out of range')
        return self.event(i)

    def add(self, e):
        from sampo.schemas.types import EventType
        if e.event_type is EventType.INITIAL or e.seq_id is not G['task']:
            raise Unsupported('an event that is not the newest of its time')
        p, t, x = self.bisect_right(e.time), e.time.value, e.available_workers_count
        kt, v = self.kt, self.v
        self.kt = lambda j: Ite(j == p, t, kt(j - Ite(j > p, 1, 0)))
        self.v = lambda j: Ite(j == p, x, v(j - Ite(j > p, 1, 0)))
        self.n = self.n + 1
        G['added'] = G.get('added', ()) + (p,)


class States:
    """{contractor: {kind: events}}: every kind on its own"""

    def __init__(self, H):
        self.kt, self.v = (z3.Function(x, z3.IntSort(), z3.IntSort(), z3.IntSort()) for x in ('event time', 'available'))
        self.len, self.cap, self.count = field(H, 'events'), field(H, 'owned'), field(H, 'taken')
        self.n = H.int('kinds', 1)
        me = self

        class W:
            individual = True

            def __init__(s, k): s.i, s.count, s.name, s.contractor_id = k, me.count(k), ('kind', k), 'c'

            def get_agent_id(s): return ('c', s.name)
        self.team = SymSeq(self.n, W, 'team')
        self.team.fact(lambda k: And(me.count(k) >= 0, me.cap(k) >= 0))

    def state(self, k):
        kt, v = self.kt, self.v
        return State(k, self.len(k), lambda j: SInt(kt(_i(k).e, _i(j).e)), lambda j: SInt(v(_i(k).e, _i(j).e)), self.cap(k))

    def __getitem__(self, c):
        G['H'].check(c == 'c', 'the workers of the contractor of the team')
        me = self

        class Of:
            def __getitem__(s, kind):
                k = kind[1]
                me.team.touch(k)
                G['state'] = me.state(k)
                if 'given' in G:
                    G['given'](G['state'])
                return G['state']
        return Of()


def book_any(H):
    from sampo.scheduler.timeline.momentum_timeline import MomentumTimeline as M
    if not H.symbolic:
        return
    G.clear()
    g = States(H)
    s, d = H.int('start', 0, BIG), H.int('time', 0, BIG)
    alone = bool(H.bool('independent'))
    x = H.int('moment', 0, 2 * BIG)
    first = H.int('bookings', 0)

    def given(st):
        """precondition: the interval is free for the team"""
        k, kt, v, n = st.k, st.kt, st.v, st.n
        took = g.cap(k) if alone else g.count(k)
        p = st.cover(s)
        _add(And(v(p) >= took, g.count(k) <= g.cap(k)))
        st.uni.fact(lambda j: Implies(And(j < n, s < kt(j), kt(j) < s + d), lambda: v(j) >= took))
        _add(kt(n - 1) <= BIG)

    class Self:
        _timeline, _task_index = g, first
    me = Self()
    G.update(g=g, H=H, s=s, d=d, alone=alone, x=x, task=first, given=given)
    M.update_timeline(me, T(s + d), T(d), None, g.team, tl.spec(is_independent=alone))
    if bool(d == 0):
        H.check('state' not in G, 'a work that takes no time books nothing')
    else:
        H.check(me._task_index > first, 'later bookings have later numbers')


def book_loops():
    t = MM + 'update_timeline'

    def each(E):
        if E.pre is None:
            return []
        g, st, x, s, d = G['g'], G.pop('state', None), G['x'], G['s'], G['d']
        if st is None:
            return [('!every kind is booked', False)]
        k, ps = E.seq.at(E.i - 1).i, G.get('added', ())
        G['added'] = ()
        before = g.state(k)
        took = g.cap(k) if G['alone'] else g.count(k)
        p = before.cover(x)
        n, kt, v = st.n, st.kt, st.v

        def shifts(j):
            """old indices an index of the new list may come from"""
            for a in (j - 2, j - 1, j):
                for b in (a - 1, a, a + 1):
                    st.uni.touch(b)
                    before.uni.touch(b)
        q = fresh_int('now in force', 0)
        for y in (q, q + 1, *ps, n - 1):
            shifts(y)
        force = And(q < n, kt(q) <= x, Or(q == n - 1, kt(q + 1) > x))
        last = SInt(z3.IntVal(0)) + n - 1

        class Order(Forall):
            def prove(self, eng, c, label):
                fn = self.fn

                def goal(j):
                    shifts(j)
                    shifts(j + 1)
                    return fn(j)
                Forall(self.seq, goal, self.lo, self.hi).prove(eng, c, label)
        return [('!the kind of the worker is booked', st.k == k),
                ('!availability changes by exactly the booking',
                 Implies(force, lambda: v(q) == before.v(p) - Ite(And(s <= x, x < s + d), took, 0))),
                ('!the first event says what is owned', And(kt(0) == -1, v(0) == g.cap(k))),
                ('!everything is free in the end', v(last) == g.cap(k)),
                ('!availability stays between zero and what is owned', Order(st.uni, lambda j: And(v(j) >= 0, v(j) <= g.cap(k)), 0, n)),
                ('!events stay ordered', Order(st.uni, lambda j: Implies(j + 1 < n, lambda: And(
                    kt(j) <= kt(j + 1), Implies(kt(j) == kt(j + 1), lambda: v(j) >= v(j + 1)))), 0, n))]

    def inner(E):
        st, lo, i, g = G['state'], G['slice'], E.i, G['g']
        took = g.cap(st.k) if G['alone'] else g.count(st.k)
        v, was, n = st.v, G['was'], st.n
        if E.pre is not None:
            st.uni.touch(lo + i - 1)
        return [('workers are taken from the events so far',
                 Forall(st.uni, lambda j: v(j) == was(j) - Ite(And(lo <= j, j < lo + i), took, 0), 0, n))]

    def enter(E):
        if E.pre is None and type(E.i) is int:
            G['was'] = G['state'].v
        return inner(E)

    def changed(E):
        st, c = G['state'], fresh_int('map')
        f = z3.Function(f'available {c.e}', z3.IntSort(), z3.IntSort())
        st.v = lambda j: SInt(f(_i(j).e))
    return [Loop(t, 0, each, frame=('state', 'event')), Loop(t, 1, enter, havoc={'frame!': changed}, frame=('event', 'state'))]


def can_any(H):
    """can_schedule_at_the_moment of the interval timeline: yes exactly if the workers are free in the whole interval
    (an independent work: nothing is booked later), and materials and zones allow it"""
    from sampo.scheduler.timeline.momentum_timeline import MomentumTimeline as M
    if not H.symbolic:
        return
    G.clear()
    g = States(H)
    s, d = H.int('start', 0, BIG), H.int('time', 1, BIG)
    alone, mat, zone = (bool(H.bool(x)) for x in ('independent', 'materials can be brought', 'zones can be prepared'))
    asked = []

    class WU:
        zone_reqs = object()

        @staticmethod
        def need_materials(): return WU

    class N:
        work_unit, id, individual = WU, 'n', True
    node = N()

    class Materials:
        def can_schedule_at_the_moment(me, n, t, what):
            asked.append(H.eq(t.value, s) if n is node and what is WU else False)
            return mat

    class Zones:
        def can_schedule_at_the_moment(me, zones, t, length):
            asked.append(And(t.value == s, length.value == d) if zones is WU.zone_reqs else False)
            return zone

    class Self:
        _timeline, _material_timeline, zone_timeline, _task_index = g, Materials(), Zones(), 0
    k, j = fresh_int('kind', 0), fresh_int('event', 0)
    H.assume(k < g.n)
    g.team.touch(k)
    before = g.state(k)
    H.assume(j < before.n)
    G.update(g=g, H=H, s=s, d=d, alone=alone, before=before, k=k, j=j)
    r = M.can_schedule_at_the_moment(Self(), node, g.team, tl.spec(is_independent=alone), {}, T(s), T(d))
    H.check(And(*asked), 'materials and zones are asked about the work, the moment and the time')
    if r:
        H.check(ok(k, before, j), 'possible only if the workers of every kind are free')
        H.check(alone or (mat and zone), 'possible only if materials and zones allow it')
        return
    from . import loops
    if not alone and not (mat and zone):
        return
    t = MM + 'can_schedule_at_the_moment'
    i = loops.current(t + ('#0' if alone else '#1'))
    st = G['state']
    H.check(st.k == i, 'the kind of the worker is looked at')
    if alone:
        H.check(st.kt(st.n - 1) > s, 'refused only while something is booked later')
        return
    p = st.cover(s)
    e = loops.current(t + '#2') + G['slice']
    for y in (e - 1, e, e + 1):
        st.uni.touch(y)
    H.check(Or(Not(ok(i, st, p)), And(e < st.n, Not(ok(i, st, e)))), 'refused only if workers of some kind are missing')


def ok(k, st, j):
    """the event j does not stand against the work"""
    s, d, g = G['s'], G['d'], G['g']
    kt, v, n = st.kt, st.v, st.n
    for x in (j, j + 1, n - 1):
        st.uni.touch(x)
    if G['alone']:
        return kt(n - 1) <= s
    force = And(kt(j) <= s, Or(j == n - 1, kt(j + 1) > s))
    return Implies(Or(force, And(s < kt(j), kt(j) < s + d)), lambda: v(j) >= g.count(k))


def can_loops():
    t = MM + 'can_schedule_at_the_moment'

    def each(E):
        b, j, k = G['before'], G['j'], G['k']
        if E.pre is not None:
            G['g'].team.touch(E.i - 1)
            for y in (j, j + 1):
                G['state'].uni.touch(y)
        return [('the kinds so far are free', Implies(k < E.i, lambda: ok(k, b, j)))]

    def inner(E):
        st, lo = G['state'], G['slice']
        v, need = st.v, G['g'].count(st.k)
        if E.pre is not None:
            st.uni.touch(lo + E.i - 1)
        return [('enough in the events so far', Forall(st.uni, lambda y: v(y) >= need, lo, lo + E.i))]
    return [Loop(t, 0, each), Loop(t, 1, each), Loop(t, 2, inner)]


def proofs():
    return [Proof('momentum/update_timeline/any number of events and kinds', book_any, [MT + 'update_timeline'], stubs=X, rnd=0, secs=60,
                  loops=book_loops()),
            Proof('momentum/can_schedule_at_the_moment/any number of events and kinds', can_any, [MT + 'can_schedule_at_the_moment'], stubs=X, rnd=0,
                  secs=60, loops=can_loops())]
