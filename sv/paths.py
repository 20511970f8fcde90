"""Longest paths of a project of any size: ranks of the works, the critical path."""
from . import env
env.z3path()
import z3
from . import pyvc
from .loops import Compr, Loop
from .pyvc import And, Implies, Ite, Not, Or, SBool, SInt, SReal
from .run import Proof
from .seq import Forall, Mapped, SymSeq, _add, _i, field, fresh_int

G = {}
CP = 'sampo/scheduler/utils/critical_path.py:'
CM = 'sampo.scheduler.utils.critical_path:'


class Name:
    """id of the i-th work"""
    is_name = True

    def __init__(self, i): self.i = i

    def __eq__(self, o): return isinstance(o, Name) and self.i == o.i

    def __ne__(self, o): return Not(self == o)

    __hash__ = object.__hash__


class Node:
    def __init__(self, i): self.i, self.id = i, Name(i)


class Near(Forall):
    """a goal about i may use what is known about the works and links that `near(i)` looks up"""

    def __init__(self, seq, fn, near):
        super().__init__(seq, fn)
        self.near = near

    def prove(self, eng, c, label):
        fn, near = self.fn, self.near
        def goal(i):
            near(i)
            return fn(i)
        Forall(self.seq, goal).prove(eng, c, label)


class Map:
    """numbers of the works"""

    def __init__(self, at): self.at = at

    @staticmethod
    def any_map(name):
        f = z3.Function(f'{name} {pyvc.ctx().fresh(z3.IntSort(), name)}', z3.IntSort(), z3.RealSort())
        return Map(lambda i: SReal(f(_i(i).e)))

    def __getitem__(self, k): return self.at(k.i)

    def __contains__(self, k): return bool(And(0 <= k.i, k.i < G['n']))

    def __setitem__(self, k, v):
        old, i = self.at, k.i
        self.at = lambda j: Ite(j == i, v, old(j))


def _now(m):
    """the numbers at this moment (a Map is written to in place: facts must not read it later)"""
    return m.at if isinstance(m, Map) else lambda k: m[Name(k)]


class Project:
    """n works with weights; par(i, j) - the j-th predecessor of work i (may be a work outside the list).  For the proof only: the
    lengths L of the longest ways to the end, defined by their equation (`over(p)`, `way(p)`: the link that attains L(p)), and
    heights that fall along every link (the works form no cycle)"""

    def __init__(self, H):
        n = self.n = H.int('works', 1)
        self.nodes = SymSeq(n, Node, 'works')
        self.w, self.L = field(H, 'weight', True), field(H, 'longest', True)
        self.np, self.over, self.way, self.h = (field(H, x) for x in ('predecessors', 'over', 'way', 'height'))
        f = z3.Function('predecessor', z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.par = lambda i, j: SInt(f(_i(i).e, _i(j).e))
        self.lists = {}
        P = self
        L, w, h, over, way = self.L, self.w, self.h, self.over, self.way
        self.nodes.fact(lambda i: And(
            P.np(i) >= 0, h(i) >= 0, h(i) < n, L(i) <= 0,
            Or(L(i) == 0, And(0 <= over(i), over(i) < n, 0 <= way(i), way(i) < P.np(over(i)), P.par(over(i), way(i)) == i,
                              h(over(i)) < h(i), L(i) == L(over(i)) + w(i)))))

    def of(self, i):
        """predecessors of work i"""
        from .seq import _key
        k = _key(_i(i))
        if k not in self.lists:
            par, n, L, w, h = self.par, self.n, self.L, self.w, self.h
            s = SymSeq(self.np(i), lambda j: Name(par(i, j)), 'predecessors')
            s.fact(lambda j: Implies(And(0 <= i, i < n, 0 <= par(i, j), par(i, j) < n),
                                     lambda: And(h(i) < h(par(i, j)), L(par(i, j)) <= L(i) + w(par(i, j)))))
            self.lists[k] = s
        return self.lists[k]

    def link(self, p):
        """place of the link that attains L(p) in the list of links"""
        self.nodes.touch(p)
        self.nodes.touch(self.over(p))
        es = getattr(pyvc.ctx(), 'pairs', [])
        if not es:
            return None
        c = self.over(p)
        self.of(c).touch(self.way(p))
        return es[-1].listed(c, self.way(p))


class Weights:
    def __init__(self, P): self.P = P

    def __getitem__(self, k): return self.P.w(k.i)


class Preds:
    def __init__(self, P): self.P = P

    def __getitem__(self, k): return self.P.of(k.i)


def ranks_any(H):
    if not H.symbolic:
        return
    import sampo.scheduler.utils.critical_path as cp
    G.clear()
    P = Project(H)
    G.update(P=P, n=P.n)
    r = cp.ford_bellman(P.nodes, Weights(P), Preds(P))
    k = fresh_int('work', 0)
    H.assume(k < P.n)
    P.link(k)
    # by induction over the heights: the works below have their length
    b = P.over(k)
    _add(Implies(And(0 <= b, b < P.n, P.h(b) < P.h(k)), lambda: r[Name(b)] <= P.L(b)))
    H.check(r[Name(k)] >= P.L(k), 'the rank is not longer than the longest way to the end')
    H.check(r[Name(k)] <= P.L(k), 'the rank is not shorter than the longest way to the end')


def ranks_loops():
    t = CM + 'ford_bellman'

    def outer(E):
        P, pw = G['P'], E.path_weights
        G['edges'] = E.edges
        n, L, h = P.n, P.L, P.h
        v = _now(pw)                       # the ranks now (the object is written to later)
        return [('nothing counts as changed before a pass', Not(E.changed)),
                ('no longer than the longest way', Forall(P.nodes, lambda k: And(L(k) <= v(k), v(k) <= 0))),
                ('exact for the works near the end', Near(P.nodes, lambda k: Implies(h(k) <= E.i, lambda: v(k) <= L(k)), P.link))]

    def inner(E):
        P, at, at0, k = G['P'], _now(E.path_weights), _now(E.old.path_weights), E.i          # the ranks now, not the object
        edges, L = G['edges'], P.L
        old = at0
        c = E.cur_finish.i
        fw, changed = E.cur_finish_weight, E.changed
        now = lambda j: Ite(j == c, fw, at(j))
        def link(j):
            f, s, _ = edges.at(j)
            for x in (f, s):
                P.nodes.touch(x.i)
            return now(f.i) <= old(s.i) + P.w(f.i)
        return [('the class at work', And(0 <= c, c < P.n)),
                ('ranks only grow in a pass', Forall(P.nodes, lambda j: And(now(j) <= old(j), at(j) <= old(j)))),
                ('no longer than the longest way', Forall(P.nodes, lambda j: And(L(j) <= now(j), L(j) <= at(j)))),
                ('links so far', Forall(edges, link, 0, k)),
                ('unchanged unless said so', Forall(P.nodes, lambda j: Or(changed, And(now(j) == old(j), at(j) == old(j)))))]
    mp = {'path_weights': lambda E: Map.any_map('ranks')}
    some = lambda E: Name(fresh_int('class'))
    return [Compr(t), Loop(t, 0, outer, havoc={**mp, 'cur_finish': some, 'cur_finish_weight': lambda E: SReal(pyvc.ctx().fresh(z3.RealSort(), 'w'))}),
            Loop(t, 1, inner, havoc={**mp, 'cur_finish': some, 'cur_finish_weight': lambda E: SReal(pyvc.ctx().fresh(z3.RealSort(), 'w'))})]


def proofs_ranks():
    return [Proof('ranks/any number of works', ranks_any, [CP + 'ford_bellman'], rnd=0, secs=60, loops=ranks_loops())]


# ---- the critical path ----------------------------------------------------------------------------------------------------

class Ranks(Map):
    def items(self):
        return Mapped(G['P'].nodes, lambda v: (v.id, self.at(v.i)), 'ranks')


class Way:
    """the path so far: what its works weigh together and the last of them"""

    def __init__(self, total, last): self.total, self.last = total, last

    def append(self, node):
        P = G['P']
        G['H'].check(Or(self.last < 0, P.follows(self.last, node.i)), 'every work of the path directly follows the one before it')
        self.total, self.last = self.total + P.w(node.i), node.i


def critical_any(H):
    if not H.symbolic:
        return
    import sampo.scheduler.utils.critical_path as cp
    from .pyvc import patched
    G.clear()
    n = H.int('works', 1)

    class P:
        pass
    P.n, P.w, P.L, P.h = n, field(H, 'weight', True), field(H, 'longest', True), field(H, 'height')
    P.nc, P.best = field(H, 'successors'), field(H, 'best')
    fl = z3.Function('follows', z3.IntSort(), z3.IntSort(), z3.BoolSort())
    P.follows = lambda i, j: SBool(fl(_i(i).e, _i(j).e))
    f = z3.Function('successor', z3.IntSort(), z3.IntSort(), z3.IntSort())
    P.child = lambda i, j: SInt(f(_i(i).e, _i(j).e))

    class N(Node):
        @property
        def children(s): return P.kids(s.i)
    P.nodes = SymSeq(n, N, 'works')
    L, w = P.L, P.w
    # the contract of ford_bellman (ranks/any number of works), for weights that are not positive
    P.nodes.fact(lambda i: And(
        P.nc(i) >= 0, P.h(i) >= 0, w(i) <= 0, L(i) <= 0, Implies(P.nc(i) == 0, lambda: L(i) == 0),
        Implies(P.nc(i) > 0, lambda: And(0 <= P.best(i), P.best(i) < P.nc(i), L(i) == L(P.child(i, P.best(i))) + w(i)))))
    memo = {}

    def kids(i):
        from .seq import _key
        P.nodes.touch(i)
        k = _key(_i(i))
        if k not in memo:
            s = SymSeq(P.nc(i), lambda j: Name(P.child(i, j)), 'successors')
            s.fact(lambda j: And(0 <= P.child(i, j), P.child(i, j) < n, P.follows(i, P.child(i, j)), P.h(P.child(i, j)) < P.h(i), L(i) <= L(P.child(i, j)) + w(i)))
            s.touch(P.best(i))
            memo[k] = s
        return memo[k]
    P.kids = kids

    class Kids:
        def __getitem__(s, k):
            return kids(k.i)
    weights, preds = object(), object()

    def ranks(nodes, ws, parents):
        H.check(nodes is P.nodes and ws is weights and parents is preds, 'the ranks of the works themselves are used')
        return Ranks(L)
    G.update(P=P, H=H, n=n)
    with patched((cp, 'ford_bellman', ranks)):
        r = cp._critical_path(P.nodes, weights, preds, Kids())
    k = fresh_int('work', 0)
    H.assume(k < n)
    P.nodes.touch(k)
    P.nodes.touch(0)
    total = r.total if isinstance(r, Way) else sum((w(x.i) for x in r), 0)
    H.check(total <= L(k), 'no path to the end is longer')
    H.check(total == L(G['start']), 'the path is as long as the rank of its first work')


def critical_loops():
    t = CM + '_critical_path'

    def inv(E):
        P, cp, c = G['P'], E.critical_path, E.node.i
        if isinstance(cp, list):
            G['start'] = c
            total, last = 0, -1
        else:
            total, last = cp.total, cp.last
        P.nodes.touch(c)
        P.nodes.touch(G['start'])
        return [('the current work', And(0 <= c, c < P.n)),
                ('length so far', total + P.L(c) == P.L(G['start'])),
                ('the current work follows the last one', Or(last < 0, P.follows(last, c)))]

    def any_node(E):
        return G['P'].nodes.at(fresh_int('current', 0))
    return [Compr(t), Loop(t, 0, inv, havoc={'critical_path': lambda E: Way(SReal(pyvc.ctx().fresh(z3.RealSort(), 'so far')), fresh_int('last', -1)),
                                  'node': any_node}, variant=lambda E: G['P'].h(E.node.i))]


def proofs_critical():
    return [Proof('critical path/any number of works', critical_any, [CP + '_critical_path'], rnd=0, secs=60, loops=critical_loops())]


# ---- HEFT: works of one priority group are ordered by their ranks ---------------------------------------------------------------

class Ordered:
    def __init__(self, key): self.key = key


def heft_any(H):
    if not H.symbolic:
        return
    import sampo.scheduler.heft.prioritization as hp
    from .pyvc import patched
    G.clear()
    P = Project(H)
    prio = field(H, 'time', True)
    preds, est = Preds(P), object()
    G.update(P=P, n=P.n)
    k = fresh_int('work', 0)
    j = fresh_int('link', 0)
    p = P.par(k, j)
    H.assume(And(k < P.n, j < P.np(k), 0 <= p, p < P.n))
    for x in (k, p):
        P.nodes.touch(x)
        H.assume(And(prio(x) >= 0, P.w(x) == -prio(x)))
    P.of(k).touch(j)

    def priority(node, comp_cost, estimator):
        H.check(estimator is est, 'the given estimator is asked')
        return prio(node.i)

    def ranks(nodes, ws, parents):
        H.check(nodes is P.nodes and parents is preds, 'ranks of the works of the group')
        H.check(And(ws[Name(k)] == P.w(k), ws[Name(p)] == P.w(p)), 'the weight of a work is the time it takes, negated')
        return Ranks(P.L)

    def by(xs, key=None, reverse=False):
        H.check(xs is P.nodes and not reverse and key is not None, 'the works of the group are sorted by rank')
        return Ordered(key)
    with patched((hp, 'work_priority', priority), (hp, 'ford_bellman', ranks), (hp, 'sorted', by)):
        r = hp.prioritization_nodes(P.nodes, preds, est)
    if r is P.nodes:
        H.check(P.n == 1, 'a single work stays as it is')
        return
    a, b = r.key(Node(p)), r.key(Node(k))
    H.check(And(a <= b, Implies(prio(p) > 0, lambda: a < b)), 'a predecessor that takes time comes before its successors')


def proofs_heft():
    return [Proof('heft group/any number of works', heft_any, ['sampo/scheduler/heft/prioritization.py:prioritization_nodes'], rnd=0, secs=60,
                  loops=[Compr('sampo.scheduler.heft.prioritization:prioritization_nodes')])]
