"""Contracts over inseparable chains, links and orders of any length: what the timelines and the scheduler do with every
single work, whatever the number of links, of works in the chain and of works in the project."""
from . import tl
from .loops import Compr, Loop
from .pyvc import And, Implies, Ite, Max, Not, Or, patched
from .run import Proof
from .pyvc import time_stub_exact

X = (time_stub_exact,)
BIG = 10 ** 6
G = {}          # ghost values of the running harness
GR = 'sampo/schemas/graph.py:GraphNode.'
JT = 'sampo/scheduler/timeline/just_in_time_timeline.py:JustInTimeTimeline.'
MT = 'sampo/scheduler/timeline/momentum_timeline.py:MomentumTimeline.'
UT = 'sampo/scheduler/timeline/utils.py:get_exec_times_from_assigned_time_for_chain'
GS = 'sampo/scheduler/generic.py:GenericScheduler.build_scheduler'


def T(v):
    from sampo.schemas.time import Time
    return Time(v)


# ---- a work waits for all its predecessors ------------------------------------------------------------------------

def links_any(H):
    """min_start_time over any number of links: no earlier than the finish of every scheduled predecessor plus lag, and no
    later than necessary"""
    from sampo.schemas.graph import GraphNode
    if not H.symbolic:
        return
    from .seq import SymSeq, field, fresh_int
    fin, lag, done = field(H, 'finish'), field(H, 'lag'), field(H, 'done')

    class End:
        def __init__(s, i): s.i = i

    class Edge:
        def __init__(s, i): s.start, s.lag, s.finish = End(i), lag(i), None

    class Works:
        def __contains__(s, e): return bool(done(e.i) > 0)

        def __getitem__(s, e):
            class W:
                finish_time = T(fin(e.i))
            return W
    n = H.int('links', 0)
    seq = SymSeq(n, Edge, 'edges_to')
    seq.fact(lambda i: And(fin(i) >= 0, lag(i) >= -BIG))

    class N:
        edges_to = seq
    r = GraphNode.min_start_time(N, Works()).value
    k = fresh_int('link', 0)
    H.assume(k < n)
    seq.touch(k)
    H.check(Implies(done(k) > 0, lambda: r >= fin(k) + lag(k)), 'no earlier than every scheduled predecessor plus lag')
    w = [i for i in seq.touched.values()]
    H.check(Or(r == 0, *[And(i < n, done(i) > 0, r == fin(i) + lag(i)) for i in w]), 'no later than necessary')


# ---- a chain of any length ------------------------------------------------------------------------------------------

class Chain:
    """inseparable chain of any length; S, F: start and finish booked for every work (defined when they are written)"""

    def __init__(self, H, name=''):
        from .seq import SymSeq, field
        self.H = H
        self.n = H.int(name + 'chain', 1)
        self.P, self.D, self.M, self.S, self.F, self.L = (field(H, name + x) for x in
                                                          ('ready', 'work', 'material', 'start', 'finish', 'lag'))
        self.O = field(H, name + 'before')          # time from the beginning of the chain to the beginning of a work
        ch = self

        class WU:
            def __init__(s, i):
                s.i, s.id, s.volume, s.priority = i, 'x', 1, 1
                s.model_name = s.display_name = 'x'
                s.is_service_unit = False
                s.zone_reqs, s.worker_reqs = [], ['req']

            def need_materials(s): return []

        class N:
            def __init__(s, i): s.i, s.work_unit, s.id = i, WU(i), 'x'

            def min_start_time(s, works):
                """contract proved by links_any: not before the preceding work of the chain"""
                if ch.placed is not None:
                    from .seq import _add
                    _add(Implies(s.i > 0, lambda: ch.P(s.i) >= ch.F(s.i - 1)))
                return T(ch.P(s.i))

            def is_inseparable_son(s): return bool(s.i > 0)

            @property
            def inseparable_parent(s): return N(s.i - 1)

            def get_inseparable_chain_with_self(s): return ch.seq
        self.N = N
        self.placed = None
        self.seq = SymSeq(self.n, N, 'chain')
        self.seq.fact(lambda i: And(self.P(i) >= 0, self.D(i) >= 0, self.M(i) >= 0, self.L(i) >= 0))
        self.memo = {}


class Works:
    """node2swork of the chain: every work is written once"""

    def __init__(self, ch, team, contractor):
        self.ch, self.team, self.contractor, self.written = ch, team, contractor, []
        ch.placed = self

    def __contains__(self, n):
        return True

    def sym_len(self):
        return self.ch.n

    def __getitem__(self, n):
        ch = self.ch

        class W:
            start_time, finish_time, start_end_time = T(ch.S(n.i)), T(ch.F(n.i)), (T(ch.S(n.i)), T(ch.F(n.i)))
        return W

    def __setitem__(self, n, w):
        from .seq import _add
        H, ch = self.ch.H, self.ch
        H.check(not self.written, 'every work of the chain is written once')
        self.written.append(w)
        H.check(w.workers is self.team and w.contractor_id == self.contractor.id,
                'the whole chain is done by the given team of the given contractor')
        H.check(w.id == n.work_unit.id and w.materials == 'delivery', 'the work itself and its delivery are written')
        _add(And(ch.S(n.i) == w.start_time.value, ch.F(n.i) == w.finish_time.value))


class Materials:
    def __init__(self, ch): self.ch = ch

    def deliver_resources(self, node, start, materials):
        return 'delivery', T(self.ch.M(node.i))


class Zones:
    calls = None

    def update_timeline(self, index, zones, start, length):
        return []


def chain_any(which):
    """_schedule_with_inseparables over a chain of any length"""
    def h(H):
        if not H.symbolic:
            return
        from sampo.scheduler.timeline.just_in_time_timeline import JustInTimeTimeline as J
        from sampo.scheduler.timeline.momentum_timeline import MomentumTimeline as M
        from sampo.schemas.contractor import Contractor
        from sampo.schemas.schedule_spec import WorkSpec
        ch = Chain(H)
        G.clear()
        st = H.int('start time', 0)
        team = [tl.worker('a', H.int('a', 0)), tl.worker('b', H.int('b', 0))]
        con = Contractor(id='c', name='c', workers={})
        fixed = H.bool('times are given') if which == 'jit' else True
        booked = []

        class Times:
            def __contains__(s, n): return bool(fixed)

            def __getitem__(s, n): return T(ch.L(n.i)), T(ch.D(n.i))

        class Est:
            def estimate_time(s, wu, workers):
                H.check(workers is team, 'the time is estimated for the team that is booked')
                return T(ch.D(wu.i))

        class Self:
            _material_timeline = Materials(ch)
            zone_timeline = Zones()

            def update_timeline(s, finish, length, node, workers, spec):
                booked.append((finish, length, workers))
        works = Works(ch, team, con)
        G.update(ch=ch, st=st, fixed=fixed)

        class Sink:
            """the entry of the first work gets its zones"""
            zones_pre = None
        node = ch.N(0)
        orig = works.__getitem__
        from .seq import fresh_int
        k = fresh_int('work', 0)
        H.assume(k < ch.n)
        ch.seq.touch(k)
        ch.seq.touch(k - 1)
        ch.seq.touch(ch.n - 1)
        spec = WorkSpec()
        if which == 'jit':
            J._schedule_with_inseparables(Self(), node, works, team, con, spec, ch.seq, T(st), Times(), Est())
        else:
            M._schedule_with_inseparables(Self(), node, works, ch.seq, spec, team, con, T(st), Times(), Est())
        H.check(And(ch.S(k) >= st, Implies(k > 0, lambda: ch.S(k) >= ch.F(k - 1))),
                'every work of the chain follows the preceding one')
        H.check(ch.F(k) == ch.S(k) + ch.D(k), 'every work lasts the time of its team or the given one')
        if which == 'jit':
            H.check(ch.S(k) >= ch.P(k), 'every work of the chain waits for its own predecessors')
            H.check(ch.S(k) == Max(Ite(k > 0, ch.F(k - 1), st) + Ite(fixed, ch.L(k), 0), ch.P(k), ch.M(k)),
                    'no work of the chain waits longer than necessary')
        else:
            H.check(ch.S(k) == Max(Ite(k > 0, ch.F(k - 1), st) + ch.L(k), ch.M(k)),
                    'no work of the chain waits longer than necessary')
        H.check(len(booked) == 1 and booked[0][2] is team, 'the team is booked once')
        if booked:
            f, d, _ = booked[0]
            H.check(And(f.value == ch.F(ch.n - 1), f.value - d.value == st), 'the team is booked from the start to the last finish')
            H.check(ch.F(k) <= f.value, 'every work of the chain lies within the booking')
    h.__name__ = f'chain_{which}'
    return h


def _rel(i, which):
    ch, st, fixed = G['ch'], G['st'], G['fixed']
    prev = Ite(i > 0, ch.F(i - 1), st)
    lag = Ite(fixed, ch.L(i), 0)
    ready = ch.P(i) if which == 'jit' else 0
    return And(ch.S(i) == Max(prev + lag, ready, ch.M(i)), ch.F(i) == ch.S(i) + ch.D(i), ch.S(i) >= st, ch.S(i) >= prev)


def chain_loops(which):
    t = {'jit': 'sampo.scheduler.timeline.just_in_time_timeline:JustInTimeTimeline._schedule_with_inseparables',
         'mom': 'sampo.scheduler.timeline.momentum_timeline:MomentumTimeline._schedule_with_inseparables'}[which]
    var = 'c_ft' if which == 'jit' else 'curr_time'

    def inv(E):
        ch, st = G['ch'], G['st']
        i = E.i if E.i is not None else 0
        cur = getattr(E, var).value
        if not (type(i) is int and i == 0):
            ch.seq.touch(i - 1)
        return [('current time is the last finish', cur == (st if type(i) is int and i == 0 else Ite(i > 0, ch.F(i - 1), st))),
                ('time does not go back', cur >= st),
                ('works so far', Forall_(ch.seq, lambda j: And(_rel(j, which), ch.F(j) <= cur), i))]

    def fresh_works(E):
        w = E.node2swork
        w.written.clear()
        return w
    return [Loop(t, 0, inv, havoc={'node2swork': fresh_works})]


# ---- the moment proposed for a chain of any length ------------------------------------------------------------------

class Resources:
    """contracts of the three searches a start time has to agree with: never before the asked moment, and the search repeated
    from its own answer returns it (workers, materials, zones are available)"""

    def __init__(self, H):
        import z3
        from .pyvc import SBool, SInt
        from .seq import _i
        self.H = H
        f = {k: z3.Function('ok_' + k, z3.IntSort(), z3.BoolSort()) for k in ('workers', 'materials', 'zones')}
        g = {k: z3.Function('next_' + k, z3.IntSort(), z3.IntSort()) for k in f}
        self.ok = {k: (lambda t, q=q: SBool(q(_i(t).e))) for k, q in f.items()}
        self.next = {k: (lambda t, q=q: SInt(q(_i(t).e))) for k, q in g.items()}

    def ask(self, k, t):
        from .seq import _add
        r = self.next[k](t)
        _add(And(r >= t, self.ok[k](r), Implies(r == t, lambda: self.ok[k](t))))
        return r


def search_any(which):
    """find_min_start_time_with_additional for a chain of any length"""
    def h(H):
        if not H.symbolic:
            return
        from sampo.scheduler.timeline import just_in_time_timeline as jt, momentum_timeline as mt
        from sampo.schemas.schedule_spec import WorkSpec
        from .seq import fresh_int
        ch = Chain(H)
        R = Resources(H)
        G.clear()
        apt = H.int('project start', 0)
        team = [tl.worker('a', H.int('a', 1)), tl.worker('b', H.int('b', 1))]
        if bool(H.bool('no workers are needed')):
            team = []
        fixed = H.bool('the user fixed the time')
        lengths = []

        class Est:
            def estimate_time(s, wu, workers):
                H.check(workers is team, 'the time is estimated for the team in question')
                return T(ch.D(wu.i))

        class Mat:
            def find_min_material_time(s, node, start, materials): return T(R.ask('materials', start.value))

        class Zon:
            def find_min_start_time(s, reqs, start, length):
                lengths.append((start.value, length.value))
                return T(R.ask('zones', start.value))

        class Self:
            _material_timeline, zone_timeline, _timeline = Mat(), Zon(), {'c': 'resources of the contractor'}

            def _find_min_start_time(s, *a):
                if which == 'jit':
                    t = a[1]
                    H.check(a[0] is team, 'workers are searched for the team in question')
                else:
                    t = a[3]
                    H.check(a[5] is team and a[0] == 'resources of the contractor', 'workers are searched for the team in question')
                    H.check(a[4].value == G['total'](ch.n), 'workers are searched for the whole time of the chain')
                return T(R.ask('workers', t.value))

            def _validate(s, *a): pass

        class Done:
            """something has been scheduled before"""
            def __len__(s): return 1

        def given(chain, time):
            """contract of get_exec_times_from_assigned_time_for_chain"""
            H.check(chain is ch.seq, 'the given time is split over the chain')

            class D:
                def __getitem__(s, n): return T(0), T(ch.D(n.i))
            return D()
        spec = WorkSpec(assigned_time=T(H.int('given time', 0)) if bool(fixed) else None)
        k = fresh_int('work', 0)
        H.assume(k < ch.n)
        for i in (k, k - 1, 0, 1):
            ch.seq.touch(i)
        from .seq import field
        Pre = field(H, 'length before')      # time of the works before, waiting included
        ch.seq.fact(lambda i: And(Pre(i) >= 0))
        import z3
        from .pyvc import SInt
        from .seq import _i
        f2 = z3.Function('finish from', z3.IntSort(), z3.IntSort(), z3.IntSort())
        G.update(ch=ch, apt=apt, R=R, total=Pre, times=Times2(ch), FIN=lambda a, b: SInt(f2(_i(a).e, _i(b).e)))
        mod = jt if which == 'jit' else mt
        cls = jt.JustInTimeTimeline if which == 'jit' else mt.MomentumTimeline
        with patched((mod, 'get_exec_times_from_assigned_time_for_chain', given)):
            st, ft, ex = cls.find_min_start_time_with_additional(Self(), ch.N(0), team, Done(), spec, None, T(apt), Est())
        st, ft = st.value, ft.value
        H.check(And(st >= apt, st >= ch.P(0)), 'not before the project start and the predecessors')
        if team or which == 'jit':
            for n in ('workers', 'materials', 'zones'):
                H.check(R.ok[n](st), f'{n} are available at the proposed start')
        if which == 'mom':
            H.check(Or(ft == st + Pre(ch.n), And(ft == st, Or(not team, T(st).is_inf()))), 'the proposed finish is that of the whole chain')
            # what _schedule_with_inseparables makes of the lags: the start of work k is at least st + O(k)
            H.check(st + ch.O(k) >= ch.P(k), 'every work of the chain starts after its own predecessors')
            H.check(And(ch.L(k) >= 0, ch.O(k) == Pre(k) + ch.L(k), Implies(k > 0, lambda: Pre(k) == ch.O(k - 1) + ch.D(k - 1))),
                    'lags and times of the works add up')
        else:
            H.check(ft == G['FIN'](st, ch.n - 1), 'the proposed finish is that of the last work when every work waits for its '
                                                  'predecessors')
    h.__name__ = f'search_{which}'
    return h


def define(i, st):
    """finish of work i when the chain begins at st (a definition by recursion over the chain)"""
    from .seq import _add
    ch, FIN = G['ch'], G['FIN']
    _add(Implies(i >= 0, lambda: FIN(st, i) == Max(Ite(i > 0, FIN(st, i - 1), st), ch.P(i)) + ch.D(i)))


class Times2:
    """exec_times of the interval timeline: written once per work"""

    def __init__(self, ch):
        self.ch, self.written = ch, []

    def __setitem__(self, n, v):
        from .seq import _add
        H, ch = self.ch.H, self.ch
        lag, time = v
        lag = lag.value if hasattr(lag, 'value') else lag
        H.check(not self.written, 'every work of the chain gets its times once')
        self.written.append(n)
        H.check(time.value == ch.D(n.i), 'the time of a work is the estimate or its part of the given time')
        _add(And(ch.L(n.i) == lag, ch.O(n.i) == G['total'](n.i) + lag, G['total'](n.i + 1) == ch.O(n.i) + time.value))

    def __getitem__(self, n):
        return T(self.ch.L(n.i)), T(self.ch.D(n.i))


def search_loops(which):
    if which == 'mom':
        t = 'sampo.scheduler.timeline.momentum_timeline:MomentumTimeline.find_min_start_time_with_additional'

        def times(E):
            ch, Pre = G['ch'], G['total']
            i = E.i
            if not (type(i) is int and i == 0):
                ch.seq.touch(i - 1)
            begin = Max(ch.P(0), G['apt'])
            from .seq import _add
            if type(i) is int and i == 0:
                _add(Pre(0) == 0)
            return [('time of the works so far', E.exec_time.value == Pre(i)), ('not negative', Pre(i) >= 0),
                    ('predecessors of the works so far',
                     Forall_(ch.seq, lambda j: And(ch.L(j) >= 0, ch.O(j) == Pre(j) + ch.L(j), Pre(j + 1) == ch.O(j) + ch.D(j),
                                                   begin + ch.O(j) >= ch.P(j)), i))]

        def fresh(E):
            G['times'].written.clear()
            return G['times']
        return [Compr(t), Loop(t, 0, times, havoc={'exec_times': fresh}),
                Loop(t, 1, lambda E: _agree(E))]
    t = 'sampo.scheduler.timeline.just_in_time_timeline:JustInTimeTimeline.find_min_start_time_with_additional'

    def end(E):
        from .seq import _add
        ch, FIN, st = G['ch'], G['FIN'], E.start_time.value
        i = E.i
        if type(i) is int and i == 0:
            want = st
        else:
            ch.seq.touch(i - 1)
            for j in (i - 1, i):
                define(j, st)
            want = Ite(i > 0, FIN(st, i - 1), st)
        return [('finish of the works so far', E.new_finish_time.value == want)]
    return [Loop(t, 0, end), Loop(t, 1, lambda E: _agree(E))]


def _agree(E):
    R, t = G['R'], E.cur_start_time.value
    return [('not before the project start and the predecessors', And(t >= G['apt'], t >= G['ch'].P(0))),
            ('found means available', Implies(E.found_earliest_time,
                                              lambda: And(R.ok['workers'](t), R.ok['materials'](t), R.ok['zones'](t))))]


# ---- splitting a given time over a chain of any length --------------------------------------------------------------

def split_any(H):
    from sampo.scheduler.timeline.utils import get_exec_times_from_assigned_time_for_chain as f
    if not H.symbolic:
        return
    from .seq import SymSeq, field, fresh_int
    G.clear()
    n = H.int('chain', 1)
    vol, Pre, E = field(H, 'volume', real=True), field(H, 'volume before', real=True), field(H, 'part')

    class WU:
        def __init__(s, i): s.volume = vol(i)

    class N:
        def __init__(s, i): s.i, s.work_unit = i, WU(i)
    memo = {}

    def get(i):
        from .seq import _key
        k = _key(i)
        if k not in memo:
            memo[k] = N(i)
        return memo[k]
    seq = SymSeq(n, get, 'chain')
    seq.fact(lambda i: And(vol(i) >= 0, Pre(i + 1) == Pre(i) + vol(i), Pre(i) >= 0, Pre(i) <= Pre(i + 1), Pre(i + 1) <= Pre(n)))
    seq.prefix = (vol, Pre)
    from .seq import _add
    _add(Pre(0) == 0)
    t = H.int('time', 0, BIG)
    written = []

    class Parts:
        def __setitem__(s, k, v):
            lag, part = v
            H.check(lag.value == 0, 'no lags inside the chain')
            H.check(part.value >= 0, 'every part is non-negative')
            if G.get('given') is not None:
                _add(E(k.i) == part.value)
            written.append((k, part.value))

        def sym_len(s): return n - 1
    G.update(n=n, Pre=Pre, vol=vol, t=t, seq=seq, parts=Parts(), written=written)
    from . import loops
    r = f(seq, T(t))
    if isinstance(r, Parts):
        H.check(len(written) == 1 and bool(written[0][0].i == n - 1), 'the last work gets the rest')
        H.check(loops.ghost(LOOP, 'given') + written[0][1] == t, 'the parts sum up to the given time')
    else:
        d = r
        k = fresh_int('work', 0)
        H.assume(k < n - 1)
        part = d.f(N(k))
        (lag, part), = part.values()
        H.check(And(lag.value == 0, part.value >= 0), 'every part is non-negative')
        H.check(len(d.over) == 1 and bool(d.over[0][0].i == n - 1), 'the last work gets the rest')
        last = d.over[0][1]
        H.check(And(last[0].value == 0, last[1].value >= 0), 'every part is non-negative')
        H.check(last[1].value + part.value * (n - 1) == t, 'the parts sum up to the given time')


LOOP = 'sampo.scheduler.timeline.utils:get_exec_times_from_assigned_time_for_chain#0'


def split_loops():
    t = LOOP.split('#')[0]

    def inv(E):
        i, g = E.i, E.g['given'] if 'given' in E.g else 0
        G['given'] = g
        rest = E.remaining_time.value
        if not (type(i) is int and i == 0):
            G['seq'].touch(i - 1)
            G['seq'].touch(i)
        return [('volume of the works left', E.total_volume == G['Pre'](G['n']) - G['Pre'](i)),
                ('what is left is not negative', rest >= 0), ('nothing is lost', rest + g == G['t'])]

    def fresh(E):
        G['written'].clear()
        return G['parts']

    def more(E):
        return E.g['given'] + G['written'][-1][1]
    return [Compr(t), Loop(t, 0, inv, havoc={'exec_times': fresh}, ghost={'given': (lambda E: 0, more)})]


# ---- the scheduling loop over any number of works ---------------------------------------------------------------------

def build_any(H):
    """build_scheduler over any number of works: each is scheduled once, in the given order, by the contractor and the team and
    at the moment the optimization found for it"""
    import sampo.scheduler.generic as gm
    if not H.symbolic:
        return
    from .seq import SymSeq, field
    G.clear()
    n = H.int('works', 1)
    apt = H.int('project start', 0)
    st, fin, zone = field(H, 'start found'), field(H, 'finish found'), H.int('zones are finished', 0)
    indep = H.int('time given', 0)

    class WU:
        def __init__(s, i): s.i, s.id = i, ('id', i)

    class N:
        def __init__(s, i): s.i, s.work_unit, s.id = i, WU(i), ('id', i)

    class WS:
        def __init__(s, i): s.i, s.assigned_time = i, ('given', i)
    memo = {}

    def spec_of(i):
        from .seq import _key, _i
        return memo.setdefault(_key(_i(i)), WS(i))

    class Spec:
        def get_work_spec(s, id): return spec_of(id[1])
    seq = SymSeq(n, N, 'ordered_nodes')
    seq.fact(lambda i: And(st(i) >= apt, fin(i) >= st(i)))
    calls = []
    G.update(n=n, calls=calls)
    team, con, contractors, landscape, est = ['team'], 'contractor', ['contractors'], 'landscape', 'estimator'

    class Works:
        last = None

        def __getitem__(s, nd):
            class W:
                pass
            s.last = W
            return W

        def values(s): return 'scheduled works'
    works = Works()
    G['works'] = works

    class Zones:
        def finish_statuses(s): return T(zone), 'finalizing'

    class TL:
        def __init__(s, pool, land):
            H.check(pool == 'pool' and land is landscape, 'the timeline is built for the given workers and landscape')
            s.zone_timeline = Zones()

        def schedule(s, node, node2swork, workers, contractor, ws, start, given, parent, estimator):
            calls.append(node)
            i = node.i
            H.check(G.get('i') is not None and bool(i == G['i']) and len(calls) == 1, 'works are scheduled one by one in order')
            H.check(workers is team and contractor is con, 'by the contractor and the team that were found')
            H.check(ws is spec_of(i) and given == ws.assigned_time, 'under the specification of the work')
            H.check(parent.value == apt and estimator is est, 'with the given start of the project and estimator')
            s0 = Ite(i == 0, apt, st(i))
            H.check(start.value == Ite(i == n - 1, Max(s0, zone), s0), 'at the moment that was found')
            H.check(start.value >= apt, 'not before the project start')

    def optimize(node, cons, ws, pool, node2swork, parent, timeline, estimator):
        H.check(cons is contractors and ws is spec_of(node.i) and pool == 'pool' and isinstance(timeline, TL) and estimator is est
                and bool(parent.value == apt), 'the optimization sees the works, contractors and times as they are')
        return T(st(node.i)), T(fin(node.i)), con, team

    class Self:
        _timeline_type, optimize_resources = TL, staticmethod(optimize)
    with patched((gm, 'get_worker_contractor_pool', lambda c: 'pool')):
        r, s, tline = gm.GenericScheduler.build_scheduler(Self(), seq, contractors, landscape, Spec(), est, T(apt), None)
    H.check(r == 'scheduled works' and isinstance(tline, TL) and s.value == apt, 'all scheduled works are returned')


def build_loops():
    t = 'sampo.scheduler.generic:GenericScheduler.build_scheduler'

    def inv(E):
        if E.pre is not None:
            E.seq.touch(E.i - 1)
            return [('!every work is scheduled', len(G['calls']) == 1)]
        G['i'] = E.i
        G['calls'].clear()
        return []
    return [Loop(t, 0, inv, havoc={'node2swork': lambda E: G['works'], 'timeline': lambda E: E.timeline})]


def Forall_(seq, fn, hi):
    from .seq import Forall
    return Forall(seq, fn, 0, hi)


def proofs(which):
    """which: names of the contracts a property needs"""
    out = []
    for w in which:
        if w == 'links':
            out.append(Proof('links/any number', links_any, [GR + 'min_start_time'], stubs=X, rnd=0, secs=40,
                             loops=[Compr('sampo.schemas.graph:GraphNode.min_start_time')]))
        elif w.startswith('chain'):
            k = w.split('-')[1]
            out.append(Proof(f'{w}/any length', chain_any(k), [{'jit': JT, 'mom': MT}[k] + '_schedule_with_inseparables'],
                             stubs=X, rnd=0, secs=60, loops=chain_loops(k)))
        elif w == 'build':
            out.append(Proof('schedule/any number of works', build_any, [GS], stubs=X, rnd=0, secs=60, loops=build_loops()))
        elif w == 'split':
            out.append(Proof('split of a given time/any length', split_any, [UT], stubs=X, rnd=0, secs=60, loops=split_loops()))
        elif w.startswith('search'):
            k = w.split('-')[1]
            out.append(Proof(f'{w}/any length', search_any(k), [{'jit': JT, 'mom': MT}[k] + 'find_min_start_time_with_additional'],
                             stubs=X, rnd=0, secs=60, loops=search_loops(k)))
    return out


# ---- the same function on random chains (an input to show when the proof above fails) ----------------------------------

def split_case(seed, tier):
    import random
    from sampo.scheduler.timeline.utils import get_exec_times_from_assigned_time_for_chain as f
    from sampo.schemas.graph import GraphNode, EdgeType
    from sampo.schemas.time import Time
    from sampo.schemas.works import WorkUnit
    from .run import Case
    rnd = random.Random(seed)
    n = rnd.randint(1, 7)
    kind = rnd.choice(['none', 'some', 'equal', 'wide'])
    vols = {'none': [0] * n, 'some': [rnd.choice([0, 0, 1, 2.5]) for _ in range(n)], 'equal': [3] * n,
            'wide': [round(10 ** rnd.uniform(-2, 4), 2) for _ in range(n)]}[kind]
    nodes = []
    for i, v in enumerate(vols):
        nodes.append(GraphNode(WorkUnit(f'w{i}', f'w{i}', volume=v),
                               [(nodes[-1], 0, EdgeType.InseparableFinishStart)] if nodes else []))
    t = rnd.choice([0, 1, n - 1, n, n + 1, rnd.randint(0, 40), rnd.randint(0, 10 ** 6)])
    parts = f(list(nodes), Time(t))
    bad = []
    if set(parts) != set(nodes):
        bad.append(('complete', f'parts for {sorted(x.id for x in parts)} of {n} works'))
    else:
        got = [parts[x] for x in nodes]
        show = f'volumes {vols}, time {t}: {[(int(a), int(b)) for a, b in got]}'
        if any(int(a) != 0 for a, _ in got):
            bad.append(('lag', f'a lag inside the chain: {show}'))
        if any(int(b) < 0 for _, b in got):
            bad.append(('negative', f'a negative part: {show}'))
        if sum(int(b) for _, b in got) != t:
            bad.append(('sum', f'the parts do not sum up to the time: {show}'))
    return Case(bad, nontrivial=n > 1, digest=f'{vols}/{t}', sample=dict(volumes=vols, time=t))
