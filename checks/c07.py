"""C07 timelines: earliest feasible slot, exact booking."""
from sv import books, chains, loops, slots, tl
from sv.pyvc import And, Ite, Or, Not, Implies, time_stub_exact
from sv.run import Check, Proof, Sweep
from sv.tl import TMAX


def _T():
    from sampo.schemas.time import Time
    return Time


def momentum_slot(k):
    def h(H):
        Time = _T()
        cap = H.int('cap', 0, 10 ** 6, rhi=5)
        evs = tl.booked_state(H, k, cap)
        m = tl.momentum({'a': cap})
        st = tl.fill_momentum(m, 'a', evs)
        P = tl.Profile(cap, evs)
        par = H.int('parent', 0, TMAX, rhi=14)
        d = H.int('exec', 0, TMAX, rhi=6)
        n = H.int('need', 0, 10 ** 6, rhi=5)
        H.assume(n <= cap)
        ind = H.pick('independent', [False, True])
        r = m._find_earliest_time_slot(st, Time(par), Time(d), n, tl.spec(is_independent=ind)).value
        H.check(r >= par, 'not before the requested moment')
        x = H.int('x', 0, 4 * TMAX, rhi=30)
        H.check(Implies(And(r <= x, x < r + d), lambda: P.at(x) >= (cap if ind else n)),
                'enough free workers during the whole interval')
        y = H.int('y', 0, 4 * TMAX, rhi=20)
        if not ind:
            H.check(Implies(And(par <= y, y < r), lambda: Not(P.free(y, d, n))), 'no earlier feasible moment is skipped')
        H.check(Implies(d == 0, r == par), 'a work without duration needs no slot')
        H.check(len(st) == k + 1, 'the search does not change the timeline')
    h.__name__ = f'momentum_slot{k}'
    return h


def momentum_team(ka, kb):
    """the start for a team of two kinds agrees with both profiles"""
    def h(H):
        Time = _T()
        from sampo.schemas.requirements import WorkerReq
        ca, cb = H.int('capa', 0, 10 ** 6, rhi=4), H.int('capb', 0, 10 ** 6, rhi=4)
        ea, eb = tl.booked_state(H, ka, ca, 'a'), tl.booked_state(H, kb, cb, 'b')
        m = tl.momentum({'a': ca, 'b': cb})
        tl.fill_momentum(m, 'a', ea)
        tl.fill_momentum(m, 'b', eb)
        A, B = tl.Profile(ca, ea), tl.Profile(cb, eb)
        par = H.int('parent', 0, TMAX, rhi=14)
        d = H.int('exec', 0, TMAX, rhi=6)
        na, nb = H.int('needa', 0, 10 ** 6, rhi=5), H.int('needb', 0, 10 ** 6, rhi=5)
        node = _node([WorkerReq('a', Time(1), 0, 9), WorkerReq('b', Time(1), 0, 9)])
        team = [tl.worker('a', na), tl.worker('b', nb)]
        r = m._find_min_start_time(m._timeline['c'], [node], tl.spec(), Time(par), Time(d), team)
        if r.is_inf():
            H.check(Or(na > ca, nb > cb), 'infinite only when the contractor has too few workers')
            return
        r = r.value
        H.check(And(na <= ca, nb <= cb), 'finite only when the contractor has enough workers')
        H.check(r >= par, 'not before the requested moment')
        H.check(Implies(d > 0, lambda: A.free(r, d, na)), 'the first kind is free during the whole interval')
        H.check(Implies(d > 0, lambda: B.free(r, d, nb)), 'the second kind is free during the whole interval')
        y = H.int('y', 0, 4 * TMAX, rhi=20)
        H.check(Implies(And(par <= y, y < r), lambda: And(d > 0, Not(And(A.free(y, d, na), B.free(y, d, nb))))),
                'no earlier moment suits both kinds')
    h.__name__ = f'momentum_team{ka}x{kb}'
    return h


def momentum_book(k):
    def h(H):
        Time = _T()
        cap = H.int('cap', 0, 10 ** 6, rhi=5)
        evs = tl.booked_state(H, k, cap)
        other = H.int('other', 0, 10 ** 6, rhi=5)
        m = tl.momentum({'a': cap, 'b': other})
        st = tl.fill_momentum(m, 'a', evs)
        P = tl.Profile(cap, evs)
        s = H.int('start', 0, TMAX, rhi=14)
        d = H.int('exec', 0, TMAX, rhi=6)
        n = H.int('count', 0, 10 ** 6, rhi=5)
        H.assume(n <= cap)
        ind = H.pick('independent', [False, True])
        H.assume(P.free(s, d, cap if ind else n))
        m.update_timeline(Time(s + d), Time(d), None, [tl.worker('a', n)], tl.spec(is_independent=ind))
        Q = tl.profile_of(st, cap)
        x = H.int('x', 0, 4 * TMAX, rhi=24)
        took = cap if ind else n
        H.check(Q.at(x) == P.at(x) - Ite(And(s <= x, x < s + d), took, 0), 'availability changes by exactly the booking')
        ev = list(st)
        H.check(H.all(a.time.value <= b.time.value for a, b in zip(ev[1:], ev[2:])), 'events stay ordered by time')
        H.check(H.all(And(e.available_workers_count >= 0, e.available_workers_count <= cap) for e in ev),
                'availability stays between zero and the capacity')
        H.check(H.all(Implies(a.time.value == b.time.value, a.available_workers_count >= b.available_workers_count)
                      for a, b in zip(ev[1:], ev[2:])), 'not increasing inside a group of equal times')
        H.check(ev[-1].available_workers_count == cap, 'everything is free in the end')
        H.check(ev[0].available_workers_count == cap, 'total count is conserved')
        ob = m._timeline['c']['b']
        H.check(len(ob) == 1 and ob[0].available_workers_count is other or len(ob) == 1 and
                H.eq(ob[0].available_workers_count, other), 'other kinds are not touched')
    h.__name__ = f'momentum_book{k}'
    return h


def momentum_can(k):
    def h(H):
        Time = _T()
        cap = H.int('cap', 0, 10 ** 6, rhi=5)
        evs = tl.booked_state(H, k, cap)
        m = tl.momentum({'a': cap})
        tl.fill_momentum(m, 'a', evs)
        P = tl.Profile(cap, evs)
        s = H.int('start', 0, TMAX, rhi=14)
        d = H.int('exec', 1, TMAX, rhi=6)
        n = H.int('count', 0, 10 ** 6, rhi=5)
        ind = H.pick('independent', [False, True])
        r = m.can_schedule_at_the_moment(_node(), [tl.worker('a', n)], tl.spec(is_independent=ind), {}, Time(s), Time(d))
        if ind:
            x = H.int('x', 0, 4 * TMAX, rhi=24)
            if r:
                H.check(Implies(x >= s, lambda: P.at(x) == cap), 'independent works wait for the kind to be idle')
            else:
                H.check(H.any(t > s for t, _ in evs), 'refused only while something is booked later')
        elif r:
            H.check(P.free(s, d, n), 'accepted only when the workers are free')
        else:
            H.check(Not(P.free(s, d, n)), 'refused only when the workers are not free')
    h.__name__ = f'momentum_can{k}'
    return h


def _node(reqs=()):
    from sampo.schemas.graph import GraphNode
    from sampo.schemas.works import WorkUnit
    return GraphNode(WorkUnit('n', 'n', worker_reqs=list(reqs)), [])


# ---- just-in-time timeline: a stack of (time, count), times descending -------------------------------------

def jit_stack(H, k, name=''):
    out = []
    for i in range(k):
        t = H.int(f'{name}t{i}', 0, TMAX, rhi=12)
        c = H.int(f'{name}c{i}', 0, 10 ** 6, rhi=4)
        if i:
            H.assume(out[-1][0] >= t)
        out.append((t, c))
    return out


def free_at(stack, x):
    """workers released until x"""
    r = 0
    for t, c in stack:
        r = r + Ite((t.value if hasattr(t, 'value') else t) <= x, c, 0)
    return r


def total(stack):
    r = 0
    for _, c in stack:
        r = r + c
    return r


def jit_state(H, k, name='a', extra=()):
    Time = _T()
    st = jit_stack(H, k, name)
    m = tl.jit({name: total(st), **{e: 1 for e in extra}})
    m._timeline[('c', name)] = [(Time(t), c) for t, c in st]
    return m, st


def jit_find(k, kinds=1):
    def h(H):
        Time = _T()
        names = ['a', 'b'][:kinds]
        m, sts, team = None, [], []
        for nm in names:
            mm, st = jit_state(H, k, nm)
            if m is None:
                m = mm
            else:
                m._timeline.update(mm._timeline)
            n = H.int(f'{nm}need', 0, 10 ** 6, rhi=5)
            sts.append((st, n))
            team.append(tl.worker(nm, n))
        par = H.int('parent', 0, TMAX, rhi=14)
        ind = H.pick('independent', [False, True])
        r = m._find_min_start_time(team, Time(par), tl.spec(is_independent=ind))
        if not ind and r.is_inf():
            H.check(H.any(n > total(st) for st, n in sts), 'infinite only when the contractor has too few workers')
            return
        v = r.value
        H.check(v >= par, 'not before the requested moment')
        if ind:
            H.check(H.all(And(*[v >= t for t, _ in st]) for st, _ in sts), 'independent works wait for the whole kind')
            H.check(Or(v == par, *[v == t for st, _ in sts for t, _ in st]), 'not later than necessary')
        else:
            H.check(H.all(n <= total(st) for st, n in sts), 'finite only when the contractor has enough workers')
            H.check(H.all(free_at(st, v) >= n for st, n in sts), 'the whole team is free at the proposed moment')
            y = H.int('y', 0, TMAX, rhi=14)
            H.check(Implies(And(par <= y, y < v), lambda: Not(H.all(free_at(st, y) >= n for st, n in sts))),
                    'no earlier moment has the whole team free')
        H.check(H.all(len(m._timeline[('c', nm)]) == k for nm in names), 'the search does not change the timeline')
    h.__name__ = f'jit_find{k}x{kinds}'
    return h


def jit_book(k):
    def h(H):
        Time = _T()
        m, st = jit_state(H, k, 'a', ('b',))
        n = H.int('need', 0, 10 ** 6, rhi=5)
        s = H.int('start', 0, TMAX, rhi=14)
        d = H.int('exec', 0, TMAX, rhi=6)
        ind = H.pick('independent', [False, True])
        f = s + d
        if ind:
            H.assume(And(*[t <= s for t, _ in st]))
            H.assume(n <= total(st))
        else:
            H.assume(free_at(st, s) >= n)
        m.update_timeline(Time(f), Time(d), None, [tl.worker('a', n)], tl.spec(is_independent=ind))
        new = m._timeline[('c', 'a')]
        took = total(st) if ind else n
        H.check(total(new) == total(st), 'total worker count is conserved')
        H.check(H.all(a[0].value >= b[0].value for a, b in zip(new, new[1:])), 'the stack stays ordered')
        H.check(H.all(c >= 0 for _, c in new), 'counts stay non-negative')
        x = H.int('x', 0, 4 * TMAX, rhi=24)
        H.check(Implies(x >= f, lambda: free_at(new, x) == free_at(st, x)), 'everything is back after the finish')
        H.check(Implies(And(s <= x, x < f), lambda: free_at(new, x) == free_at(st, x) - took),
                'exactly the booked number is missing during the work')
        H.check([(t.value, c) for t, c in m._timeline[('c', 'b')]] == [(0, 1)], 'other kinds are not touched')
    h.__name__ = f'jit_book{k}'
    return h


def jit_can(k):
    def h(H):
        Time = _T()
        m, st = jit_state(H, k, 'a')
        n = H.int('need', 0, 10 ** 6, rhi=5)
        s = H.int('start', 0, TMAX, rhi=14)
        ind = H.pick('independent', [False, True])
        r = m.can_schedule_at_the_moment(_node(), [tl.worker('a', n)], tl.spec(is_independent=ind), {}, Time(s), Time(3))
        if ind:
            want = And(*[t <= s for t, _ in st])
        else:
            want = free_at(st, s) >= n
        H.check(want if r else Not(want), 'schedulable exactly when the team is free')
    h.__name__ = f'jit_can{k}'
    return h


SLOT = 'sampo.scheduler.timeline.momentum_timeline:MomentumTimeline._find_earliest_time_slot'


def momentum_slot_any(H):
    Time = _T()
    from sampo.scheduler.timeline import MomentumTimeline
    cap = H.int('cap', 0, 10 ** 6, rhi=5)
    st, P = tl.state_any(H, cap)
    par = H.int('parent', 0, TMAX, rhi=14)
    d = H.int('exec', 0, TMAX, rhi=6)
    n = H.int('need', 0, 10 ** 6, rhi=5)
    H.assume(n <= cap)
    y = H.int('y', 0, 4 * TMAX, rhi=20)
    x = H.int('x', 0, 4 * TMAX, rhi=30)
    tl.G.clear()
    tl.G.update(P=P, y=y, par=par, d=d, n=n, st=st)
    r = MomentumTimeline._find_earliest_time_slot(st, Time(par), Time(d), n, tl.spec()).value
    H.check(r >= par, 'not before the requested moment')
    H.check(Implies(d == 0, r == par), 'a work without duration needs no slot')
    if H.symbolic:
        if And(r <= x, x < r + d):
            H.check(P.at(x) >= n, 'enough free workers during the whole interval')
        if And(par <= y, y < r):
            w = loops.ghost(SLOT + '#0', 'w')
            z = Ite(P.kt(w) <= y, y, P.kt(w))
            H.check(And(y <= z, z < y + d, P.at(z) < n), 'no earlier feasible moment is skipped')
    else:
        H.check(Implies(And(r <= x, x < r + d), lambda: P.at(x) >= n), 'enough free workers during the whole interval')
        H.check(Implies(And(par <= y, y < r), lambda: Not(P.free(y, d, n))), 'no earlier feasible moment is skipped')


def _slot_loops():
    from sv.loops import Loop
    from sv.seq import Forall
    T = SLOT

    def bad(w):
        P, y, d, n = tl.G['P'], tl.G['y'], tl.G['d'], tl.G['n']
        P.seq.touch(w)
        P.seq.touch(w + 1)
        return And(0 <= w, w < P.n, P.v(w) < n, P.kt(w) < y + d, Or(w == P.n - 1, P.kt(w + 1) > y))

    def outer(E):
        P, par, y = tl.G['P'], tl.G['par'], tl.G['y']
        t, i = E.current_start_time.value, E.current_start_idx
        P.seq.touch(i)
        P.seq.touch(i + 1)
        w = E.g['w']
        return [('not before the requested moment', t >= par),
                ('index in range', And(0 <= i, i < P.n)),
                ('the current event has begun', P.kt(i) <= t),
                ('the next event has not passed', Or(i == P.n - 1, P.kt(i + 1) >= t)),
                ('no feasible moment skipped', Implies(And(par <= y, y < t), lambda: bad(w)))]

    def inner(E):
        P, n = tl.G['P'], tl.G['n']
        e = E.end_idx
        return [('index unchanged', E.current_start_idx == E.old.current_start_idx),
                ('nothing found yet', Not(E.not_enough_workers_found)),
                ('checked events have enough workers', Forall(P.seq, lambda j: P.v(j) >= n, e - E.i, e))]
    return [Loop(T, 0, outer, ghost={'w': (lambda E: 0, lambda E: Ite(tl.G['y'] < E.pre.current_start_time.value, E.g['w'], E.current_start_idx - 1))}), Loop(T, 1, inner)]


M = 'sampo/scheduler/timeline/momentum_timeline.py:MomentumTimeline.'
J = 'sampo/scheduler/timeline/just_in_time_timeline.py:JustInTimeTimeline.'
X = (time_stub_exact,)
PROOFS = [
    Proof('momentum/find_earliest_time_slot', momentum_slot_any, [M + '_find_earliest_time_slot'], loops=_slot_loops(),
          stubs=X, secs=60),
]
for _k in (0, 1, 2, 3):
    PROOFS.append(Proof(f'momentum/find_earliest_time_slot/{_k}', momentum_slot(_k), [M + '_find_earliest_time_slot'],
                        kind='bounded', bound=f'{_k} booked events', stubs=X, secs=40))
for _k, _l in ((1, 1), (2, 1), (2, 2)):
    PROOFS.append(Proof(f'momentum/find_min_start_time/{_k}x{_l}', momentum_team(_k, _l), [M + '_find_min_start_time'],
                        kind='bounded', bound=f'2 kinds with {_k} and {_l} booked events', stubs=X, secs=60, rnd=800))
for _k in (0, 1, 2, 3):
    PROOFS.append(Proof(f'momentum/update_timeline/{_k}', momentum_book(_k), [M + 'update_timeline'], kind='bounded',
                        bound=f'{_k} booked events', stubs=X, secs=40))
for _k in (1, 3):
    PROOFS.append(Proof(f'momentum/can_schedule/{_k}', momentum_can(_k), [M + 'can_schedule_at_the_moment'],
                        kind='bounded', bound=f'{_k} booked events', stubs=X, secs=40))
for _k in (1, 2, 3, 4):
    PROOFS.append(Proof(f'jit/find_min_start_time/{_k}', jit_find(_k), [J + '_find_min_start_time'], kind='bounded',
                        bound=f'{_k} stack entries', stubs=X, secs=40))
PROOFS.append(Proof('jit/find_min_start_time/2 kinds', jit_find(2, 2), [J + '_find_min_start_time'], kind='bounded',
                    bound='2 kinds, 2 stack entries each', stubs=X, secs=40))
for _k in (1, 2, 3, 4):
    PROOFS.append(Proof(f'jit/update_timeline/{_k}', jit_book(_k), [J + 'update_timeline'], kind='bounded',
                        bound=f'{_k} stack entries', stubs=X, secs=40))
for _k in (1, 3):
    PROOFS.append(Proof(f'jit/can_schedule/{_k}', jit_can(_k), [J + 'can_schedule_at_the_moment'], kind='bounded',
                        bound=f'{_k} stack entries', stubs=X, secs=40))

PROOFS.sort(key=lambda p: p.name != 'momentum/find_min_start_time/2x2')
PROOFS = slots.proofs_jit() + slots.proofs_mom() + books.proofs() + chains.proofs(['search-jit', 'search-mom']) + PROOFS
CHECK = Check('C07', 'bounded', proofs=PROOFS)
