"""Slot searches over any number of worker kinds and of events / groups of workers."""
from . import env
env.z3path()
import z3
from . import tl
from .loops import Compr, Loop
from . import pyvc
from .pyvc import And, Implies, Ite, Max, Not, Or, SBool, SInt, patched, time_stub_exact
from .run import Proof
from .seq import Forall, SymSeq, _add, _i, field, fresh_int

X = (time_stub_exact,)
BIG = 10 ** 6
G = {}
JT = 'sampo/scheduler/timeline/just_in_time_timeline.py:JustInTimeTimeline.'
MT = 'sampo/scheduler/timeline/momentum_timeline.py:MomentumTimeline.'
JM = 'sampo.scheduler.timeline.just_in_time_timeline:JustInTimeTimeline.'
MM = 'sampo.scheduler.timeline.momentum_timeline:MomentumTimeline.'


def T(v):
    from sampo.schemas.time import Time
    return Time(v)


def field2(name):
    f = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.IntSort())
    return lambda a, b: SInt(f(_i(a).e, _i(b).e))


# ---- just in time: groups of workers, the last group is free first ----------------------------------------------------

class Groups:
    """for every kind a stack of (time, number) with falling times; rest(k, j): workers in the groups from j on"""

    def __init__(self, H):
        self.n = H.int('kinds', 1)
        self.count, self.len, self.w = field(H, 'count'), field(H, 'groups'), field(H, 'taken from')
        self.time, self.num, self.rest = field2('free at'), field2('number'), field2('workers from')
        me = self

        class W:
            def __init__(s, k): s.i, s.count, s.name, s.contractor_id = k, me.count(k), ('kind', k), 'c'

            def get_agent_id(s): return ('c', s.name)
        self.team = SymSeq(self.n, W, 'team')
        self.team.fact(lambda k: And(me.count(k) >= 0, me.len(k) >= 1))
        self.stacks = {}

    def stack(self, k):
        from .seq import _key
        key = _key(_i(k))
        if key not in self.stacks:
            s = SymSeq(self.len(k), lambda j: (T(self.time(k, j)), self.num(k, j)), 'stack')
            s.fact(lambda j: And(self.time(k, j) >= 0, self.time(k, j) <= BIG, self.num(k, j) >= 0, self.rest(k, j) == self.num(k, j) + self.rest(k, j + 1),
                                 self.rest(k, j + 1) >= 0, Implies(j + 1 < self.len(k), lambda: self.time(k, j) >= self.time(k, j + 1))))
            _add(self.rest(k, self.len(k)) == 0)
            self.stacks[key] = s
        return self.stacks[key]

    def __getitem__(self, agent):
        return self.stack(agent[1][1])

    # enough(k, t): the groups from w(k) on are free at t and are enough; one group less would not be
    def enough(self, k, t):
        w = self.w(k)
        return And(0 <= w, w <= self.len(k), self.rest(k, w) >= self.count(k), Or(w == self.len(k), self.time(k, w) <= t))

    def least(self, k):
        w = self.w(k)
        return And(w < self.len(k), self.rest(k, w + 1) < self.count(k))


def jit_find_any(H):
    from sampo.scheduler.timeline.just_in_time_timeline import JustInTimeTimeline as J
    if not H.symbolic:
        return
    G.clear()
    g = Groups(H)
    par = H.int('requested', 0, BIG)
    G.update(g=g, par=par)

    class Self:
        _timeline = g
    k = fresh_int('kind', 0)
    H.assume(k < g.n)
    g.team.touch(k)
    alone = bool(H.bool('independent'))
    r = J._find_min_start_time(Self(), g.team, T(par), tl.spec(is_independent=alone))
    from . import loops
    if alone:
        H.check(And(r.value >= par, r.value >= _top(g, k)), 'an independent work starts after everyone of its kinds has finished')
        return
    if r.is_inf():
        # left from within the loop over the kinds
        i = loops.current(JM + '_find_min_start_time#1')
        H.check(g.rest(i, 0) < g.count(i), 'infinite only when the contractor has too few workers')
        return
    H.check(r.value >= par, 'not before the requested moment')
    H.check(g.enough(k, r.value), 'enough workers of every kind are free')
    w = loops.ghost(JM + '_find_min_start_time#1', 'latest')
    H.check(Or(r.value == par, And(0 <= w, w < g.n, r.value == g.time(w, g.w(w)), g.least(w))), 'no moment is skipped')


def jit_find_loops():
    t = JM + '_find_min_start_time'

    def alone(E):
        g, m = G['g'], E.max_agent_time.value
        return [('not before the requested moment', m >= G['par']),
                ('after everyone of the kinds so far', Forall(g.team, lambda k: _top(g, k) <= m, 0, E.i))]

    def outer(E):
        g, m, i = G['g'], E.max_agent_time.value, E.i
        if E.pre is not None:
            g.team.touch(i - 1)
            _add(g.w(i - 1) == E.ind + 1)          # the group the search of this kind ended at
        w = E.g['latest']
        if not (type(i) is int and i == 0):
            g.team.touch(w)
        return [('not before the requested moment', And(m >= G['par'], m <= BIG)),
                ('enough of the kinds so far', Forall(g.team, lambda k: g.enough(k, m), 0, i)),
                ('nothing skipped', Or(m == G['par'], And(0 <= w, w < g.n, m == g.time(w, g.w(w)), g.least(w))))]

    def later(E):
        return Ite(E.max_agent_time.value > E.pre.max_agent_time.value, E.i - 1, E.g['latest'])

    def inner(E):
        g, k = G['g'], E.worker.i
        s = g.stack(k)
        ind, left, m, m0 = E.ind, E.needed_count, E.max_agent_time.value, E.old.max_agent_time.value
        for j in (ind, ind + 1, ind + 2):
            s.touch(j)
        at_top = ind == g.len(k) - 1
        done = [('index in range', And(-1 <= ind, ind < g.len(k))),
                ('workers still needed', left == Max(0, g.count(k) - g.rest(k, ind + 1))),
                ('time of the last group', m == Ite(at_top, m0, Max(m0, g.time(k, ind + 1)))),
                ('the last group was needed', Or(at_top, g.rest(k, ind + 2) < g.count(k)))]
        return done

    return [Loop(t, 0, alone), Loop(t, 1, outer, ghost={'latest': (lambda E: SInt(z3.IntVal(-1)), later)}),
            Loop(t, 2, inner)]


def jit_can_any(H):
    """can_schedule_at_the_moment of the just-in-time timeline: yes exactly if nothing stands against the moment"""
    from sampo.scheduler.timeline.just_in_time_timeline import JustInTimeTimeline as J
    if not H.symbolic:
        return
    G.clear()
    g = Groups(H)
    at, first, length = H.int('moment', 0, BIG), H.int('predecessors done', 0, BIG), H.int('time', 0, BIG)
    mat, zone = bool(H.bool('materials can be brought')), bool(H.bool('zones can be prepared'))
    scheduled = H.pick('predecessors', ['none', 'scheduled', 'waiting'])

    class WU:
        zone_reqs = object()

        @staticmethod
        def need_materials(): return WU

    class N:
        work_unit, id, individual = WU, 'n', True

        def __init__(s, parents): s.parents = parents

        def get_inseparable_chain_with_self(s): return [s]

        def min_start_time(s, done): return T(first)
    p = N([])
    node = N([p] if scheduled != 'none' else [])
    asked = []

    class Materials:
        def can_schedule_at_the_moment(s, n, t, what):
            asked.append(H.eq(t.value, at) if n is node and what is WU else False)
            return mat

    class Zones:
        def can_schedule_at_the_moment(s, zones, t, d):
            asked.append(And(t.value == at, d.value == length) if zones is WU.zone_reqs else False)
            return zone

    class Self:
        _timeline, _material_timeline, zone_timeline = g, Materials(), Zones()
    G.update(g=g, par=0)
    k = fresh_int('kind', 0)
    H.assume(k < g.n)
    g.team.touch(k)
    alone = bool(H.bool('independent'))
    r = J.can_schedule_at_the_moment(Self(), node, g.team, tl.spec(is_independent=alone), {p: 1} if scheduled == 'scheduled' else {},
                                     T(at), T(length))
    H.check(And(*asked), 'materials and zones are asked about the work, the moment and the time')
    other = scheduled == 'waiting' or not mat or not zone
    if r:
        H.check(not other, 'possible only if predecessors, materials and zones allow it')
        H.check(first <= at, 'possible only after the predecessors')
        H.check((_top(g, k) <= at) if alone else g.enough(k, at),
                'possible only if the workers of every kind are free (all of them for an independent work)')
        return
    from . import loops
    if other or bool(first > at):
        return
    if alone:
        i = loops.current(JM + 'can_schedule_at_the_moment#1')
        H.check(_top(g, i) > at, 'refused only if somebody of a kind is still at work')
    elif bool(loops.current(JM + 'can_schedule_at_the_moment#2') < g.n):         # left from within the loop over the kinds
        i = loops.current(JM + 'can_schedule_at_the_moment#2')
        H.check(g.rest(i, 0) < g.count(i), 'refused only if some kind lacks workers')
    else:
        w = loops.ghost(JM + 'can_schedule_at_the_moment#2', 'latest')
        H.check(And(0 <= w, w < g.n, g.time(w, g.w(w)) > at, g.least(w)), 'refused only if some kind lacks workers')


def jit_can_loops():
    t = JM + 'can_schedule_at_the_moment'
    _, outer, inner = jit_find_loops()

    def alone(E):
        g = G['g']
        return [('everyone of the kinds so far is free', Forall(g.team, lambda k: _top(g, k) <= E.start_time.value, 0, E.i))]
    return [Loop(t, 1, alone), Loop(t, 2, outer.inv, ghost=outer.ghost), Loop(t, 3, inner.inv)]


def _top(g, k):
    g.stack(k).touch(0)
    return g.time(k, 0)


# ---- interval timeline: any number of kinds ---------------------------------------------------------------------------

class Kinds:
    """set of requirement indices (deque and list of the search hold every requirement at most once)"""

    def __init__(self, seq, has, name='set'):
        self.seq, self.has, self.name = seq, has, name

    @staticmethod
    def any_set(seq, name):
        f = z3.Function(f'{name}!{pyvc.ctx().fresh(z3.IntSort(), name)}', z3.IntSort(), z3.BoolSort())
        return Kinds(seq, lambda k: SBool(f(_i(k).e)), name)

    def _empty(self):
        c = pyvc.ctx()
        if bool(SBool(c.fresh(z3.BoolSort(), self.name + ' is empty'))):
            h = self.has
            self.seq.fact(lambda k: Not(h(k)))
            return True
        w = fresh_int('member', 0)
        self.seq.touch(w)
        _add(And(w < self.seq.n, self.has(w)))
        return False

    def sym_len(self):
        return 0 if self._empty() else 1          # compared with 0 only

    def __len__(self):
        return 0 if self._empty() else 1

    def popleft(self):
        w = fresh_int('first', 0)
        self.seq.touch(w)
        _add(And(w < self.seq.n, self.has(w)))
        h = self.has
        self.has = lambda k: And(h(k), Not(k == w))
        return self.seq.at(w)

    pop = popleft

    def extend(self, other):
        h, o = self.has, other.has
        self.has = lambda k: Or(h(k), o(k))

    def append(self, x):
        h, i = self.has, x.i
        self.has = lambda k: Or(h(k), k == i)

    def clear(self):
        self.has = lambda k: SBool(z3.BoolVal(False))


def mom_team_any(H):
    import sampo.scheduler.timeline.momentum_timeline as mt
    if not H.symbolic:
        return
    from sampo.schemas.types import EventType
    G.clear()
    n, m = H.int('kinds', 1), H.int('chain', 1)
    need, cap = field(H, 'need'), field(H, 'owned')
    okf = z3.Function('slot', z3.IntSort(), z3.IntSort(), z3.BoolSort())
    nx = z3.Function('next slot', z3.IntSort(), z3.IntSort(), z3.IntSort())
    ok = lambda k, t: SBool(okf(_i(k).e, _i(t).e))
    par, d, t0 = H.int('requested', 0, BIG), H.int('length', 0, BIG), H.int('earlier', 0, BIG)

    class Req:
        def __init__(s, i): s.i, s.kind, s.min_count, s.max_count = i, ('kind', i), 0, 0

    class W:
        def __init__(s, i): s.i, s.name, s.count, s.contractor_id = i, ('kind', i), need(i), 'c'
    reqs = SymSeq(n, Req, 'reqs')
    team = SymSeq(n, W, 'team')

    class WU:
        is_service_unit, worker_reqs = False, reqs

    class Node:
        def __init__(s, i): s.work_unit = WU
    chain = SymSeq(m, Node, 'chain')

    class State:
        def __init__(s, k): s.k = k

        def __getitem__(s, j):
            class E:
                event_type, available_workers_count = EventType.INITIAL, cap(s.k)
            H.check(j == 0, 'what the contractor owns is the first event')
            return E

    class Timeline:
        def __getitem__(s, kind): return State(kind[1])

    class Index:
        def __getitem__(s, kind): return need(kind[1])

    def slot(state, start, length, count, spec):
        """contract of the search for one kind (momentum/find_earliest_time_slot)"""
        k, t = state.k, start.value
        H.check(And(length.value == d, count == need(k)), 'the slot is searched for the whole time and the wanted number')
        H.check(need(k) <= cap(k), 'a slot is only searched when the contractor owns enough')
        r = SInt(nx(_i(k).e, _i(t).e))
        _add(And(r >= t, ok(k, r), r <= BIG, Implies(And(t <= t0, t0 < r), lambda: Not(ok(k, t0)))))
        return T(r)

    class Self:
        _find_earliest_time_slot = staticmethod(slot)
    G.update(n=n, reqs=reqs, need=need, cap=cap, ok=ok, par=par, t0=t0)
    k = fresh_int('kind', 0)
    H.assume(k < n)
    for s in (reqs, team):
        s.touch(k)
        s.touch(0)
    chain.touch(0)
    with patched((mt, 'deque', lambda x: Kinds(x, lambda k: And(0 <= k, k < n), 'queue')), (mt, 'build_index', lambda *a: Index())):
        r = mt.MomentumTimeline._find_min_start_time(Self(), Timeline(), chain, tl.spec(), T(par), T(d), team)
    from . import loops
    if r.is_inf():
        i = loops.current(MM + '_find_min_start_time#1')
        H.check(cap(i) < need(i), 'infinite only when the contractor owns too few workers')
        return
    r = r.value
    H.check(r >= par, 'not before the requested moment')
    H.check(ok(k, r), 'a slot of every kind begins at the proposed moment')
    b = loops.ghost(MM + '_find_min_start_time#2', 'lacking')
    H.check(Implies(And(par <= t0, t0 < r), lambda: And(0 <= b, b < n, Not(ok(b, t0)))), 'no earlier moment would have done')


def mom_team_loops():
    t = MM + '_find_min_start_time'
    owns = lambda k: G['need'](k) <= G['cap'](k)

    def outer(E):
        if not (type(E.i) is int and E.i == 0):
            return [('the contractor owns enough', Forall(G['reqs'], lambda k: Or(SBool(z3.BoolVal(False)), Implies(E.i > 0, lambda: owns(k)))))]
        return []

    def inner(E):
        return [('the contractor owns enough of the kinds so far', Forall(G['reqs'], owns, 0, E.i))]

    def queue(E):
        q, s, st, ok, t0, par = E.queue, E.scheduled_wreqs, E.start.value, G['ok'], G['t0'], G['par']
        if isinstance(s, list):
            had = list(s)
            s = Kinds(G['reqs'], lambda k: Or(SBool(z3.BoolVal(False)), *[k == x.i for x in had]))
        b = E.g['lacking'] if 'lacking' in E.g else SInt(z3.IntVal(0))
        qh, sh = q.has, s.has
        return [('not before the requested moment', And(st >= par, st <= BIG)),
                ('every kind waits or has a slot', Forall(G['reqs'], lambda k: Or(qh(k), sh(k)))),
                ('slots begin at the current moment', Forall(G['reqs'], lambda k: Implies(sh(k), lambda: ok(k, st)))),
                ('earlier moments lack some kind',
                 Implies(And(par <= t0, t0 < st), lambda: And(0 <= b, b < G['n'], Not(ok(b, t0)))))]

    def lacking(E):
        return Ite(E.start.value > Max(E.pre.start.value, G['t0']), Ite(G['t0'] >= E.pre.start.value, E.wreq.i, E.g['lacking']), E.g['lacking'])
    return [Compr(t), Loop(t, 0, outer), Loop(t, 1, inner),
            Loop(t, 2, queue, havoc={'queue': lambda E: Kinds.any_set(G['reqs'], 'queue'),
                                     'scheduled_wreqs': lambda E: Kinds.any_set(G['reqs'], 'scheduled')},
                 ghost={'lacking': (lambda E: SInt(z3.IntVal(0)), lacking)})]


# ---- booking of the just-in-time timeline -------------------------------------------------------------------------------

class Stack(SymSeq):
    """list of (time, number) that is popped, appended to and written at a position; what is known about its entries is
    kept at the indices of `uni`, which all states of the list share"""

    def __init__(self, k, n, at, orig, uni, prefix=None):
        super().__init__(n, at, 'stack')
        self.k, self.orig, self.uni = k, orig, uni
        if prefix is not None:
            self.prefix = prefix

    def at(self, j):
        self.orig.touch(j)
        self.uni.touch(j)
        return self.get_fn(j)

    def pop(self):
        self.n = self.n - 1
        G['H'].check(self.n >= 0, 'nothing is taken from an empty list')
        return self.at(self.n)

    def append(self, x):
        old, k = self.get_fn, self.n
        self.get_fn = lambda j: _pick(j == k, x, old(j))
        self.n = self.n + 1

    def clear(self): self.n = SInt(z3.IntVal(0))

    def __setitem__(self, k, x):
        G['H'].check(And(0 <= k, k < self.n), 'index within the list')
        old = self.get_fn
        self.get_fn = lambda j: _pick(j == k, x, old(j))


class Around(Forall):
    """a goal about j may use what is known about the entries next to it"""

    def __init__(self, st, n, fn, also=()):
        super().__init__(st.uni, fn, 0, n)
        self.st, self.also = st, also

    def prove(self, eng, c, label):
        fn, st = self.fn, self.st

        def goal(j):
            for x in (j - 1, j, j + 1, *self.also):
                st.orig.touch(x)
                st.uni.touch(x)
            return fn(j)
        Forall(self.seq, goal, self.lo, self.hi).prove(eng, c, label)


def _pick(c, x, y):
    return (T(Ite(c, x[0].value, y[0].value)), Ite(c, x[1], y[1]))


def _same(x, y):
    return And(x[0].value == y[0].value, x[1] == y[1])


def jit_book_any(H):
    """update_timeline of the just-in-time timeline: the workers of every kind that are free first are taken and put back at the finish"""
    from sampo.scheduler.timeline.just_in_time_timeline import JustInTimeTimeline as J
    if not H.symbolic:
        return
    G.clear()
    g = Groups(H)
    g.team.fact(lambda k: g.rest(k, 0) >= g.count(k))          # the timeline was asked before
    finish = H.int('finish', 0, BIG)
    alone = bool(H.bool('independent'))
    book = {}

    class Timeline:
        def __getitem__(s, agent):
            H.check(agent[0] == 'c', 'the workers of the contractor of the team')
            k = agent[1][1]
            g.team.touch(k)
            orig = g.stack(k)
            book['stack'] = Stack(k, g.len(k), orig.get_fn, orig, SymSeq(g.len(k) + 2, lambda j: j, 'entries'),
                                  (lambda j: g.num(k, j), lambda n: g.rest(k, 0)))
            return book['stack']

    class Self:
        _timeline = Timeline()
    G.update(g=g, H=H, finish=finish, book=book)
    J.update_timeline(Self(), T(finish), T(H.int('time', 0, BIG)), None, g.team, tl.spec(is_independent=alone))


def jit_book_loops():
    t = JM + 'update_timeline'

    def booked(E):
        """the list of the kind of the worker after the iteration"""
        st = G['book'].pop('stack', None)
        return [('!the kind of the worker is booked', False if st is None else st.k == E.worker.i)], st

    def alone(E):
        if E.pre is None:
            return []
        r, st = booked(E)
        if st is not None:
            x = st.at(SInt(z3.IntVal(0)))
            r.append(('!everyone of the kind returns at the finish',
                      And(st.n == 1, x[0].value == G['finish'], x[1] == G['g'].rest(E.worker.i, 0))))
        return r

    def taken(k, m, at, st, must=''):
        """the first m groups are left; the last of them has lost as many workers as the others do not cover"""
        g = G['g']
        for j in (m - 1, m):
            st.orig.touch(j)
        left = g.count(k) - g.rest(k, m)
        return [(must + 'as many workers are taken as the work needs',
                 And(0 <= m, m <= g.len(k), left >= 0, Implies(left > 0, lambda: And(m > 0, left <= g.num(k, m - 1))))),
                (must + 'the other groups are untouched',
                 Around(st, m, lambda j: _same(at(j), (T(g.time(k, j)), g.num(k, j) - Ite(j == m - 1, left, 0)))))]

    def each(E):
        if E.pre is None:
            return []
        r, st = booked(E)
        if st is None:
            return r
        g, k, at, ind, n = G['g'], E.worker.i, st.get_fn, E.ind, st.n
        old = lambda j: at(j + Ite(j >= ind, 1, 0))
        r += taken(k, n - 1, old, st, '!')
        x = st.at(ind)
        r.append(('!they return at the finish', And(0 <= ind, ind < n, x[0].value == G['finish'], x[1] == g.count(k))))
        r.append(('!in order of time', Around(st, n, lambda j: Implies(j + 1 < n, lambda: at(j)[0].value >= at(j + 1)[0].value),
                                             (ind - 1, ind, ind + 1))))
        return r

    def consume(E):
        g, st, k, need = G['g'], E.worker_timeline, E.worker.i, E.needed_count
        at, m = st.get_fn, st.n
        for j in (m - 1, m):
            st.orig.touch(j)
        return [('groups left', And(0 <= m, m <= g.len(k))), ('workers still needed', And(need >= 0, need == g.count(k) - g.rest(k, m))),
                ('the other groups are untouched', Forall(st.uni, lambda j: _same(at(j), (T(g.time(k, j)), g.num(k, j))), 0, m))]

    def bubble(E):
        st, ind, fin, k = E.worker_timeline, E.ind, G['finish'], E.worker.i
        at, was, n, g = st.get_fn, G['was'], G['n'], G['g']
        for j in (ind - 1, ind, ind + 1, n - 1, n - 2):
            st.orig.touch(j)
            st.uni.touch(j)

        def place(j):
            return And(Implies(j < ind, lambda: _same(at(j), was(j))),
                       Implies(j == ind, lambda: And(at(j)[0].value == fin, at(j)[1] == g.count(k))),
                       Implies(j > ind, lambda: And(_same(at(j), was(j - 1)), was(j - 1)[0].value < fin)))
        return [('nothing is lost', st.n == n), ('place of the new entry', And(0 <= ind, ind < n)),
                ('the new entry moves through the list', Around(st, n, place, (ind - 1, ind, ind + 1)))]

    def enter(E):
        if E.pre is None and E.worker_timeline is E.old.worker_timeline:
            st = E.worker_timeline
            G['was'], G['n'] = st.get_fn, st.n
            return taken(E.worker.i, st.n - 1, st.get_fn, st) + bubble(E)
        return bubble(E)

    def popped(E):
        return _any(E, fresh_int('groups left', 0))

    def moved(E):
        return _any(E, E.worker_timeline.n)

    def _any(E, n):
        st, c = E.worker_timeline, fresh_int('list')
        f, h = field2(f'time {c.e}'), field2(f'number {c.e}')
        G['book']['stack'] = Stack(st.k, n, lambda j: (T(f(0, j)), h(0, j)), st.orig, st.uni)
        return G['book']['stack']
    return [Compr(t), Loop(t, 0, alone, frame=('worker_timeline',)), Loop(t, 1, each, frame=('worker_timeline',)),
            Loop(t, 2, consume, havoc={'worker_timeline': popped}, variant=lambda E: E.worker_timeline.n),
            Loop(t, 3, enter, havoc={'worker_timeline': moved}, variant=lambda E: E.ind)]


def proofs_jit():
    return [Proof('jit/find_min_start_time/any number of groups and kinds', jit_find_any, [JT + '_find_min_start_time'], stubs=X, rnd=0,
                  secs=60, loops=jit_find_loops()),
            Proof('jit/can_schedule_at_the_moment/any number of groups and kinds', jit_can_any, [JT + 'can_schedule_at_the_moment'], stubs=X,
                  rnd=0, secs=60, loops=jit_can_loops()),
            Proof('jit/update_timeline/any number of groups and kinds', jit_book_any, [JT + 'update_timeline'], stubs=X, rnd=0, secs=60,
                  loops=jit_book_loops())]


def proofs_mom():
    return [Proof('momentum/find_min_start_time/any number of kinds', mom_team_any, [MT + '_find_min_start_time'], stubs=X, rnd=0,
                  secs=60, loops=mom_team_loops())]
