"""C26 blocks are auctioned in dependency order to the best agent."""
import contextlib
import importlib
import importlib.util
import io
import itertools
import random
import sys
import types
from copy import deepcopy
from unittest.mock import MagicMock
import sampo.scheduler  # noqa: F401
from sv import loops, oracle, sched, tl
from sv.pyvc import And, Or, Not, Implies, time_stub_exact
from sv.run import Check, Proof, Sweep, Case

X = (time_stub_exact,)
BIG = 10 ** 6
MA = 'sampo.scheduler.multi_agency.multi_agency'


def _stand_ins():
    """the package imports torch, ray and sklearn for neural networks that are not part of this property: missing ones are replaced by
    empty stand-ins"""
    for top, subs in (('torch', ('nn', 'nn.functional', 'utils', 'utils.data', 'optim')), ('ray', ('air', 'tune')), ('sklearn', ('model_selection',))):
        if top in sys.modules or importlib.util.find_spec(top) is not None:
            continue
        for name in (top,) + tuple(f'{top}.{s}' for s in subs):
            m = types.ModuleType(name)
            m.__getattr__ = lambda a, name=name: type(a, (), {}) if a[:1].isupper() and not a.startswith('__') else _missing(a)
            m.__path__ = []
            sys.modules[name] = m
        for s in subs:
            head, _, last = f'{top}.{s}'.rpartition('.')
            setattr(sys.modules[head], last, sys.modules[f'{top}.{s}'])



def _load():
    return importlib.import_module(MA)


def _missing(a):
    if a.startswith('__'):
        raise AttributeError(a)
    return MagicMock(name=a)


_stand_ins()


def _T():
    from sampo.schemas.time import Time
    return Time


def t(x):
    return x.value if hasattr(x, 'value') else x


# ---- an auction among any number of agents

def auction_any(stochastic):
    def h(H):
        M = _load()
        from sampo.schemas.time import TIME_INF as INF
        Time = _T()
        if not H.symbolic:
            return
        from sv.seq import SymSeq, field
        n = H.int('n', 1)
        fin, sta, name = field(H, 'fin'), field(H, 'sta'), field(H, 'name')
        log = dict(confirm=[], asked=[])
        conf = H.pick('confidence', [1]) if stochastic else 1

        class A:
            def __init__(self, i):
                self.i = i
                self.name = name(i)
                self._scheduler = types.SimpleNamespace(work_estimator=types.SimpleNamespace(set_productivity_mode=lambda m: None))

            def offer(self, wg, parent_time):
                H.check(And(wg == 'wg', t(parent_time) == par), 'offers are asked for the given block and time')
                return Time(sta(self.i)), Time(fin(self.i)), ('schedule', self.i), ('timeline', self.i)

            def confirm(self, timeline, start, end):
                log['confirm'].append((self.i, timeline, start, end))

            def update_stat(self, start):
                pass
        tl.G.clear()
        agents = SymSeq(n, A, 'agents')
        agents.fact(lambda i: And(sta(i) >= 0, sta(i) <= fin(i), fin(i) <= INF))
        tl.G.update(agents=agents, fin=fin, sta=sta, A=A, INF=INF, b=None)
        k, j = H.int('k', 0), H.int('j', 0)
        H.assume(And(k < n, j < n))
        agents.touch(k)
        agents.touch(j)
        H.assume(fin(k) < INF)          # some agent is able to do the block
        par = H.int('parent', 0, BIG)
        m = (M.StochasticManager if stochastic else M.Manager).__new__(M.StochasticManager if stochastic else M.Manager)
        m._agents = agents
        if stochastic:
            class Conf:
                def __getitem__(self, x): return conf
                def __setitem__(self, x, v): H.check(False, 'confidence does not change when the agent keeps its promise')
            m._confidence = Conf()
        st, ft, schedule, agent = m.run_auction('wg', Time(par))
        b = agent.i
        agents.touch(b)
        H.check(And(0 <= b, b < n), 'the winner is one of the agents')
        H.check(fin(b) <= fin(j), 'no agent offered an earlier finish')
        H.check(And(t(st) == sta(b), t(ft) == fin(b), H.eq(schedule[1], b)), 'times and schedule are those of the offer of the winner')
        H.check(len(log['confirm']) == 1, 'exactly one offer is confirmed')
        for i, tm, s, f in log['confirm']:
            H.check(And(H.eq(i, b), H.eq(tm[1], b), t(s) == sta(b), t(f) == fin(b)), 'the confirmed offer is that of the winner')
    h.__name__ = 'auction_any'
    return h


def _auction_loops(cls, second):
    from sv.seq import Forall

    def draw():
        from sv.seq import fresh_int
        if tl.G['b'] is None:
            b = fresh_int('best', -1)
            tl.G['b'] = -1 if b == -1 else b
        return tl.G['b']

    def inv(E):
        g = tl.G
        if E.best_agent is None:
            return [('nothing chosen yet', E.best_end_time.value == g['INF']), ('all offers are infinite', Forall(g['agents'], lambda j: g['fin'](j) >= g['INF'], 0, E.i))]
        b = E.best_agent.i
        g['agents'].touch(b)
        same = [('the chosen one is one of those seen', And(0 <= b, b < E.i)),
                ('finish of the chosen one', E.best_end_time.value == g['fin'](b)), ('a finite offer', g['fin'](b) < g['INF'])]
        if not second and E.has('best_start_time'):
            same.append(('start of the chosen one', t(E.best_start_time) == g['sta'](b)))
        return same + [('best of those seen', Forall(g['agents'], lambda j: g['fin'](b) <= g['fin'](j), 0, E.i))]
    obj = lambda f, none: (lambda E: none if draw() is -1 or (type(draw()) is int) else f(draw()))  # noqa: F632
    T = lambda x: _T()(x)
    hv = dict(best_agent=obj(lambda b: tl.G['A'](b), None), best_schedule=obj(lambda b: ('schedule', b), None),
              best_timeline=obj(lambda b: ('timeline', b), None), best_start_time=obj(lambda b: T(tl.G['sta'](b)), 0),
              offered_end_time=lambda E: None)
    tgt = f'{MA}:{cls}.run_auction'
    return [loops.Loop(tgt, 0, inv, havoc=hv), loops.Loop(tgt, 1, lambda E: [])]


# ---- blocks in any number

def manage_any(H):
    M = _load()
    Time = _T()
    if not H.symbolic:
        return
    from sv.seq import SymSeq, field, fresh_int
    import z3
    from sv.pyvc import SInt
    n = H.int('n', 0)
    START, END, pc = field(H, 'start'), field(H, 'end'), field(H, 'pcount')
    PAR = z3.Function('par', z3.IntSort(), z3.IntSort(), z3.IntSort())
    par = lambda i, k: SInt(PAR(_e(i), _e(k)))

    class Block:
        obstruction = None

        def __init__(self, i):
            self.i = i
            self.id = i
            self.wg = types.SimpleNamespace(start=types.SimpleNamespace(id=i), i=i)
            self._from = None

        @property
        def blocks_from(self):
            if self._from is None:
                i = self.i
                self._from = SymSeq(pc(i), lambda k: Block(par(i, k)), 'parents')
                # contract of toposort: dependencies come before the block
                self._from.fact(lambda k: And(0 <= par(i, k), par(i, k) < i))
                self._from.touch(tl.G['k'])
            return self._from

        def is_service(self):
            return False
    blocks = SymSeq(n, Block, 'blocks')
    blocks.fact(lambda i: pc(i) >= 0)

    class Map:
        """the index built so far: blocks 0 .. i-1"""
        def __init__(self):
            self.set = []

        def __getitem__(self, k):
            H.check(And(0 <= k, k < tl.G['i']()), 'only blocks that are scheduled already are asked')
            blocks.touch(k)
            return types.SimpleNamespace(id=k, start_time=Time(START(k)), end_time=Time(END(k)))

        def __setitem__(self, k, v):
            self.set.append((k, v))
            H.assume(And(START(k) == t(v.start_time), END(k) == t(v.end_time)))
    auctions = []

    class Mgr(M.Manager):
        def __init__(self):
            self._agents = []

        def run_auction(self, wg, parent_time=None):
            # contract of the auction: the agents respect the given time
            s, f = fresh_int('s', 0), fresh_int('f', 0)
            H.assume(And(s >= t(parent_time), f >= s))
            auctions.append(wg.i)
            return Time(s), Time(f), None, types.SimpleNamespace(_scheduler='s')
    tl.G.clear()
    tl.G.update(blocks=blocks, START=START, END=END, pc=pc, par=par, Map=Map, auctions=auctions, map=None, i=None)
    j, k = H.int('j', 0), H.int('k', 0)
    H.assume(And(j < n, k < pc(j)))
    blocks.touch(j)
    tl.G['k'] = k
    bg = types.SimpleNamespace(toposort=lambda: blocks)
    out = Mgr().manage_blocks(bg)
    if n == 0:
        return
    H.check(out is tl.G['map'], 'the index of all blocks is returned')
    H.check(START(j) >= END(par(j, k)), 'a block starts when everything it depends on has ended')
    H.check(END(j) >= START(j), 'a block ends after its start')


def _e(x):
    from sv.seq import _i
    return _i(x).e


def _manage_loops():
    from sv.seq import Forall, fresh_int
    import z3
    from sv.pyvc import SInt

    def inv(E):
        g = tl.G
        k = g['k']
        good = lambda j: And(g['END'](j) >= g['START'](j), Implies(k < g['pc'](j), lambda: g['START'](j) >= g['END'](g['par'](j, k))))
        out = [('every scheduled block starts after those it depends on', Forall(g['blocks'], good, 0, E.i))]
        if g['map'] is not None and g['map'].set:
            out.append(('!each block is auctioned and entered once', And(len(g['map'].set) == 1, len(g['auctions']) == 1,
                                                                        g['map'].set[0][0] == E.pre.i, g['auctions'][0] == E.pre.i)))
        elif g['map'] is not None and E.pre is not None:
            out.append(('!each block is entered', False))
        return out

    def hmap(E):
        tl.G['map'] = tl.G['Map']()
        return tl.G['map']

    def frame(E):
        tl.G['i'] = lambda: E.i
    return [loops.Loop(f'{MA}:Manager.manage_blocks', 0, inv, havoc={'id2sblock': hmap, 'frame!': frame}, frame=('id2sblock',))]


# ---- one agent

def agent(H):
    """an offer changes nothing of the agent, confirming adopts the offered timeline"""
    M = _load()
    Time = _T()

    class Sch:
        def schedule_with_cache(self, wg, contractors, spec=None, validate=False, assigned_parent_time=None, timeline=None, **k):
            seen.append((wg, contractors, t(assigned_parent_time), list(timeline) if timeline is not None else None))
            tm = timeline if timeline is not None else []
            tm.append(wg)
            sch = types.SimpleNamespace(execution_time=Time(ends[wg]))
            return [(sch, Time(t(assigned_parent_time) + delay[wg]), tm, [])]
    seen, ends, delay = [], {}, {}
    cs = ['contractors']
    a = M.Agent('a', Sch(), cs)
    last, down, mine = 0, 0, []
    for b in range(3):
        par = H.int(f'parent{b}', 0, BIG, rhi=30)
        delay[b] = H.int(f'delay{b}', 0, BIG, rhi=5)
        ends[b] = H.int(f'end{b}', 0, 2 * BIG, rhi=60)
        H.assume(ends[b] >= par + delay[b])
        before = (t(a.end_time), t(a.downtime))
        st, ft, sch, tm = a.offer(b, Time(par))
        H.check(And(t(st) == par + delay[b], t(ft) == ends[b]), 'the offer is what the scheduler of the agent computes')
        H.check(seen[-1][0] == b and seen[-1][1] is cs, 'the block is scheduled with the contractors of the agent')
        H.check(H.eq(seen[-1][2], par), 'the block is scheduled from the given time')
        H.check((seen[-1][3] or []) == mine, 'an offer is computed on the confirmed blocks of the agent')
        H.check(And(t(a.end_time) == before[0], t(a.downtime) == before[1]), 'an offer does not change the agent')
        st2, ft2, _, _ = a.offer(b, Time(par))
        H.check((seen[-1][3] or []) == mine, 'an offer does not change the timeline of the agent')
        H.check(And(t(st) == t(st2), t(ft) == t(ft2)), 'the same offer is given again')
        if H.pick(f'wins{b}', [True, False]):
            a.confirm(tm, st, ft)
            mine = mine + [b]
            H.check(H.eq(t(a.end_time), t(ft)), 'the agent is busy until the end of the confirmed block')
            last = t(ft)
        else:
            a.update_stat(st)
            H.check(H.eq(t(a.end_time), before[0]), 'a lost auction does not occupy the agent')
        gap = par + delay[b] - before[0]
        H.check(Or(And(gap > 0, t(a.downtime) == before[1] + gap), And(gap <= 0, t(a.downtime) == before[1])), 'downtime grows by the idle time before the block')


# ---- block graphs of a bounded size, all agents real

def _blocks(M, n, edges, order):
    from sampo.scheduler.multi_agency.block_graph import BlockGraph, BlockNode

    def node(i):
        s = types.SimpleNamespace(id=f'b{(5 * i + 3) % 7}')
        return BlockNode(types.SimpleNamespace(start=s, vertex_count=9, i=i))
    ns = [node(i) for i in range(n)]
    for a, b in edges:
        BlockGraph.add_edge(ns[a], ns[b])
    return BlockGraph([ns[i] for i in order]), ns


def topo(n):
    def h(H):
        M = _load()
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
        edges = [p for p in pairs if H.pick(f'{p}', [False, True])]
        if H.pick('reversed', [False, True]):
            edges = edges[::-1]
        order = H.pick('order', list(itertools.permutations(range(n))))
        bg, ns = _blocks(M, n, edges, order)
        out = bg.toposort()
        pos = {x: i for i, x in enumerate(out)}
        H.check(len(out) == n and set(map(id, out)) == set(map(id, ns)), 'every block is in the order once')
        H.check(all(pos[ns[a]] < pos[ns[b]] for a, b in edges), 'blocks come after those they depend on')
        H.check(all(sum(x is ns[a] for x in ns[b].blocks_from) == 1 for a, b in edges) and sum(len(x.blocks_from) for x in ns) == len(edges),
                'dependencies are kept')
    h.__name__ = f'topo_{n}'
    return h


class StubScheduler:
    """a scheduler with a timeline that lists what was scheduled on it"""
    def __init__(self, H, name, starts, ends):
        self.H, self.name, self.starts, self.ends = H, name, starts, ends
        self.work_estimator = types.SimpleNamespace(set_productivity_mode=lambda m: None)

    def schedule_with_cache(self, wg, contractors, spec=None, validate=False, assigned_parent_time=None, timeline=None, **k):
        Time = _T()
        tm = timeline if timeline is not None else []
        tm.append(wg.i)
        s = t(assigned_parent_time) + self.starts[wg.i]
        return [(types.SimpleNamespace(execution_time=Time(s + self.ends[wg.i]), by=self.name), Time(s), tm, [])]


def managed(n, m, cls):
    """every graph of n blocks, m agents with any offers"""
    def h(H):
        M = _load()
        Time = _T()
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
        edges = [p for p in pairs if H.pick(f'{p}', [False, True])]
        orders = list(itertools.permutations(range(n)))
        bg, ns = _blocks(M, n, edges, H.pick('order', orders if n < 3 else [orders[0], orders[-1], orders[2]]))
        names = [f'a{i}' for i in range(m)]
        ag = []
        for q in range(m):
            starts = [H.int(f'delay{q}_{i}', 0, BIG, rhi=4) for i in range(n)]
            ends = [H.int(f'duration{q}_{i}', 0, BIG, rhi=9) for i in range(n)]
            ag.append(M.Agent(names[q], StubScheduler(H, names[q], starts, ends), ['c']))
        mgr = getattr(M, cls)(ag)
        rounds = []
        orig = type(mgr).run_auction

        def run(wg, parent_time=Time(0)):
            before = [list(a._timeline or []) for a in ag]
            offers = [tuple(t(x) for x in a.offer(wg, parent_time)[:2]) for a in ag]
            r = orig(mgr, wg, parent_time)
            rounds.append((wg.i, t(parent_time), offers, r, before, [list(a._timeline or []) for a in ag]))
            return r
        mgr.run_auction = run
        out = mgr.manage_blocks(bg)
        H.check(sorted(x[0] for x in rounds) == list(range(n)), 'every block is auctioned once')
        H.check(set(out) == {x.id for x in ns} and all(out[x.id].id == x.id and out[x.id].wg is x.wg for x in ns), 'every block is in the result under its id')
        if set(out) != {x.id for x in ns} or len(rounds) != n:
            return
        for a, b in edges:
            H.check(t(out[ns[b].id].start_time) >= t(out[ns[a].id].end_time), 'a block starts after the end of the blocks it depends on')
        for i, parent, offers, (st, ft, sch, win), before, after in rounds:
            q = ag.index(win)
            sb = out[ns[i].id]
            H.check(sb.agent is win and sb.schedule is sch, 'the block carries the winner and its schedule')
            H.check(sch.by == names[q], 'the schedule is the one of the winner')
            H.check(And(t(sb.start_time) == offers[q][0], t(sb.end_time) == offers[q][1]), 'the block has the times offered by the winner')
            if cls == 'Manager' or True:
                H.check(H.all(offers[q][1] <= o[1] for o in offers), 'no agent offered an earlier finish')
            H.check(all(a == (b + [i] if x == q else b) for x, (b, a) in enumerate(zip(before, after))), "only the winner's timeline is updated")
    h.__name__ = f'managed_{n}_{m}_{cls}'
    return h


def validation(H):
    """block validation accepts exactly the plans in which blocks follow those they depend on"""
    M = _load()
    from sampo.scheduler.multi_agency import block_validation as V
    Time = _T()
    n = 3
    pairs = [(0, 1), (0, 2), (1, 2)]
    edges = [p for p in pairs if H.pick(f'{p}', [False, True])]
    bg, ns = _blocks(M, n, edges, (0, 1, 2))
    s = [H.int(f'start{i}', 0, BIG, rhi=9) for i in range(n)]
    f = [H.int(f'end{i}', 0, BIG, rhi=9) for i in range(n)]
    sched_ok = [H.pick(f'ok{i}', [True, False]) if i == 1 else True for i in range(n)]
    shared = H.pick('shared contractor', [False, True])
    class C:
        def __init__(self, i): self.id = i
    ca, cb = C('x'), C('y')
    ag = [M.Agent('a', 'sa', [ca]), M.Agent('b', 'sb', [ca if shared else cb])]
    plan = {ns[i].id: M.ScheduledBlock(wg=ns[i].wg, schedule=i, agent=ag[i % 2], start_time=Time(s[i]), end_time=Time(f[i])) for i in range(n)}

    def check(schedule, wg, contractors, *a):
        assert sched_ok[schedule]
        H.check(wg is ns[schedule].wg and contractors is ag[schedule % 2].contractors, 'a block is validated with its graph and the contractors of its agent')
    old = V.validate_schedule
    V.validate_schedule = check
    try:
        V.validate_block_schedule(bg, plan, ag)
        ok = True
    except AssertionError:
        ok = False
    finally:
        V.validate_schedule = old
    want = H.all([all(sched_ok), not shared] + [And(s[a] <= f[a], f[a] <= s[b], s[b] <= f[b]) for a, b in edges])
    H.check(want if ok else Not(want), 'accepted exactly when blocks follow those they depend on and every block is valid')


# ---- real runs

def _block_wg(r, tag):
    from sv.scen import mk_wg, chains_acyclic
    while True:
        wg = mk_wg(r, n=r.randint(1, 7), kinds=r.randint(1, 3), p_edge=r.choice([.1, .3]), p_ins=r.choice([0, .2]), frac_lags=r.random() < .3)
        if chains_acyclic(wg):
            break
    for v in wg.nodes:
        v.work_unit.id = f'{tag}{v.work_unit.id}'
    wg.reinit()
    return wg


def _agents(M, r, wgs, how):
    from sv.scen import mk_contractors
    every = types.SimpleNamespace(nodes=[v for wg in wgs for v in wg.nodes])
    out = []
    for q in range(r.randint(1, 3)):
        cs = mk_contractors(r, every, m=r.randint(1, 2), slack=r.choice([0, 2, 6]))
        for c in cs:
            c.id = f'{q}{c.id}'
            for w in c.workers.values():
                w.contractor_id = c.id
        name = r.choice(sched.HEUR + ('heft-avg',) if r.random() < .85 else sched.GEN)
        if how == 'stochastic' and name in sched.GEN:
            name = 'heft'
        sch = sched.make(name, r.randint(0, 99))
        if how == 'stochastic':
            # schedulers need an estimator that answers the same every time; the stochastic manager switches its mode
            from sampo.schemas.time_estimator import DefaultWorkEstimator
            sch.work_estimator = DefaultWorkEstimator()
            sch.work_estimator.set_productivity_mode = lambda m: None
        out.append((M.Agent(f'agent{q}', sch, cs), name))
    return out


class Trainer:
    def __init__(self, r, n):
        self.r, self.n = r, n

    def predict(self, x):
        return self.r.randrange(self.n) if self.n else [[self.r.randint(1, 5)]]

    def predict_proba(self, x):
        return None


def plan(seed, tier):
    M = _load()
    from sampo.scheduler.multi_agency.block_graph import BlockGraph
    from sampo.scheduler.multi_agency.block_generator import generate_block_graph, SyntheticBlockGraphType
    from sampo.scheduler.multi_agency import block_validation as V
    from sampo.scheduler.utils.obstruction import OneInsertObstruction
    Time = _T()
    r = random.Random(seed)
    how = r.choice(['Manager', 'Manager', 'stochastic', 'neural'])
    deps = []
    if r.random() < .12:
        k = r.choice(list(SyntheticBlockGraphType))
        q = r.randint(1, 3)
        kw = dict(queues_num=q, queues_blocks=[r.randint(1, 2) for _ in range(q)]) if k.name == 'QUEUES' else {}
        bg = generate_block_graph(k, r.randint(1, 3), [1, 1, 1], lambda i: (r.choice([None, 12]), 20), r.choice([.3, .5]), r, logger=lambda s: None, **kw)
        for node in bg.nodes:
            deps += [(node.id, x.id) for x in node.blocks_to]
    else:
        n = r.randint(1, 6)
        wgs = [_block_wg(r, f'b{i}_') for i in range(n)]
        bg = BlockGraph.pure(wgs)
        nodes = list(bg.nodes)
        r.shuffle(bg.nodes)
        for a in range(n):
            for b in range(a + 1, n):
                if r.random() < .35:
                    bg.add_edge(nodes[a], nodes[b])
                    deps.append((nodes[a].id, nodes[b].id))
    wgs = [x.wg for x in bg.nodes]
    ag = _agents(M, r, wgs, how)
    if r.random() < .15 and how != 'stochastic':
        extra = _block_wg(r, 'x')
        bg.nodes[0].obstruction = OneInsertObstruction.from_static_graph(0, r, extra)
    agents = [a for a, _ in ag]
    out, rounds = [], []
    order = bg.toposort()
    if how == 'neural':
        algos = [a.scheduler for a in agents]
        mgr = M.NeuralManager(agents, Trainer(r, len(algos)), Trainer(r, 0), algos, order, [None] * len(order))
    else:
        mgr = (M.Manager if how == 'Manager' else M.StochasticManager)(agents)
    orig = type(mgr).run_auction

    def run(wg, *a, **kw):
        p = a[-1] if a else kw.get('parent_time', Time(0))
        before = [deepcopy(a._timeline) is None for a in agents], [id(a._timeline) for a in agents], [t(a.end_time) for a in agents]
        offers = [t(a.offer(wg, p)[1]) for a, nm in ag] if how == 'Manager' and not any(nm in ('rlft', 'rtopo') + sched.GEN for _, nm in ag) else None
        x = orig(mgr, wg, *a, **kw)
        rounds.append((wg.start.id, t(p), offers, agents.index(x[3]), before, [id(a._timeline) for a in agents], [t(a.end_time) for a in agents]))
        return x
    mgr.run_auction = run
    with contextlib.redirect_stdout(io.StringIO()):
        res = mgr.manage_blocks() if how == 'neural' else mgr.manage_blocks(bg)
    ids = [x.id for x in bg.nodes]
    if sorted(x[0] for x in rounds) != sorted(ids) or sorted(res) != sorted(ids):
        out.append(('once', f'auctions of {[x[0] for x in rounds]}, results {sorted(res)}, blocks {sorted(ids)}'))
        return Case(out, True, str(seed), dict(seed=seed))
    pos = {x.id: i for i, x in enumerate(order)}
    for a, b in deps:
        if pos[a] > pos[b]:
            out.append(('order', f'{b} before {a}'))
        lo = max([oracle.tv(w.finish_time) for w in res[a].schedule.works] + [t(res[a].end_time)])
        hi = min([oracle.tv(w.start_time) for w in res[b].schedule.works] + [t(res[b].start_time)])
        if hi < lo:
            out.append(('dependency', f'block {b} starts at {hi} before block {a} ends at {lo}'))
    for i, p, offers, win, before, after, ends in rounds:
        b = res[i]
        if b.agent is not agents[win] or i != b.wg.start.id:
            out.append(('winner', f'{i} is given to {b.agent}, the auction was won by {agents[win]}'))
        if offers and t(b.end_time) > min(offers):
            out.append(('best', f'{i} is given to an agent that ends at {b.end_time}, others offered {offers}'))
        for q in range(len(agents)):
            if (before[1][q] != after[q]) != (q == win) or (q != win and before[2][q] != ends[q]):
                out.append(('timeline', f'auction of {i} won by {win}: timeline of {q} {"is not" if q == win else "is"} replaced'))
        fin = max(oracle.tv(w.finish_time) for w in b.schedule.works)
        if fin != t(b.end_time) or t(b.start_time) > min((oracle.tv(w.start_time) for w in b.schedule.works if w.workers), default=t(b.start_time)):
            out.append(('times', f'block {i}: [{b.start_time}, {b.end_time}], its works end at {fin}'))
    # the blocks of one agent share its workers
    for q, a in enumerate(agents):
        mine = types.SimpleNamespace(works=[w for b in res.values() if b.agent is a for w in b.schedule.works])
        out += [('capacity', f'agent {q} ({ag[q][1]}): {m}') for tag, m in oracle.check_capacity(mine, types.SimpleNamespace(contractors=a.contractors))]
    for b in res.values():
        scn = types.SimpleNamespace(wg=b.wg, contractors=b.agent.contractors)
        for _, m in oracle.check_complete(b.schedule, scn) + oracle.check_precedence(b.schedule, scn):
            out.append(('block', f'{b.id}: {m}'))
    if not out:
        try:
            V.validate_block_schedule(bg, res, agents)
        except AssertionError as ex:
            out.append(('validation', f'a correct plan is not accepted: {ex} {ex.__cause__}'))
    return Case(out[:4], len(deps) > 0 and len(agents) > 1, str(seed), dict(seed=seed, blocks=len(ids), agents=[nm for _, nm in ag], how=how))


P = 'sampo/scheduler/multi_agency/'
FA = [P + 'multi_agency.py:Manager.run_auction', P + 'multi_agency.py:Manager.run_auction_with_obstructions']
PROOFS = [
    Proof('auction/any number of agents', auction_any(False), [P + 'multi_agency.py:Manager.run_auction'], stubs=X, secs=25,
          loops=_auction_loops('Manager', False)),
    Proof('stochastic auction/any number of agents', auction_any(True), [P + 'multi_agency.py:StochasticManager.run_auction'], stubs=X, secs=25,
          loops=_auction_loops('StochasticManager', True)),
    Proof('blocks/any number', manage_any, [P + 'multi_agency.py:Manager.manage_blocks'], stubs=X, secs=25, loops=_manage_loops()),
    Proof('agent', agent, [P + 'multi_agency.py:Agent.' + x for x in ('offer', 'confirm', 'update_stat')], stubs=X, kind='bounded',
          bound='three auctions in a row, any times', secs=25, rnd=300),
    Proof('topological order/3', topo(3), [P + 'block_graph.py:BlockGraph.toposort', P + 'block_graph.py:BlockGraph.add_edge'], stubs=X, kind='bounded',
          bound='block graphs of 3 blocks in every order', secs=25, rnd=100),
    Proof('topological order/4', topo(4), [P + 'block_graph.py:BlockGraph.toposort', P + 'block_graph.py:BlockGraph.add_edge'], stubs=X, kind='bounded',
          bound='block graphs of 4 blocks in every order', secs=40, rnd=300, max_paths=8000),
    Proof('validation', validation, [P + 'block_validation.py:validate_block_schedule', P + 'block_validation.py:_check_block_dependencies'], stubs=X,
          kind='bounded', bound='block graphs of 3 blocks, any times', secs=25, rnd=300)]
for _n, _m, _c in ((1, 3, 'Manager'), (2, 2, 'Manager'), (3, 2, 'Manager'), (2, 2, 'StochasticManager')):
    PROOFS.append(Proof(f'plan/{_n} blocks, {_m} agents{"" if _c == "Manager" else ", stochastic"}', managed(_n, _m, _c),
                        FA + [P + 'multi_agency.py:Manager.manage_blocks', P + 'block_graph.py:BlockGraph.toposort'], stubs=X, kind='bounded',
                        bound=f'every graph of {_n} blocks, {_m} agents with any offers', secs=40, rnd=200, max_paths=8000))
SWEEPS = [Sweep('plans', plan, quick=500, thorough=9000, rule='random block graphs, agents with different schedulers, all managers')]
CHECK = Check('C26', 'bounded', proofs=PROOFS, sweeps=SWEEPS,
              assumptions=['schedulers of agents are functions of the block, the time and the timeline (no stochastic estimator)',
                           'agents have different names and do not share contractors', 'torch, ray and sklearn are replaced by empty stand-ins when they are not installed',
                           'auctions: at least one agent is able to do the block'])
