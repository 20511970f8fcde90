"""Distances and routes between any number of land nodes."""
from . import env
env.z3path()
import z3
from . import loops, pyvc
from .loops import Compr, Loop
from .pyvc import And, Implies, Ite, Not, Or, SBool, SInt, patched, _b
from .run import Proof
from .seq import Forall, Mapped, SymSeq, _add, _i, _key, field, fresh_int

G = {}
LC = 'sampo/schemas/landscape.py:LandscapeConfiguration.'
LM = 'sampo.schemas.landscape:LandscapeConfiguration.'
INF = float('inf')


class Grid:
    """facts about all pairs and triples of land nodes, instantiated at all nodes that are looked at"""

    def __init__(self, n):
        self.n, self.nodes, self.done, self.facts = n, {}, set(), []

    def touch(self, *xs):
        new = False
        for x in xs:
            k = _key(_i(x))
            if k not in self.nodes:
                self.nodes[k] = _i(x)
                new = True
        if new:
            self._fire()

    def fact(self, arity, f):
        self.facts.append((arity, f))
        self._fire()

    def _fire(self):
        import itertools
        n = self.n
        for q, (arity, f) in enumerate(list(self.facts)):
            for ks in itertools.product(list(self.nodes), repeat=arity):
                if (q, ks) not in self.done:
                    self.done.add((q, ks))
                    xs = [self.nodes[k] for k in ks]
                    _add(Implies(And(*[And(0 <= x, x < n) for x in xs]), lambda: f(*xs)))


class All(Forall):
    """for all nodes a, b (, c)"""

    def __init__(self, grid, arity, fn):
        self.grid, self.arity, self.fn = grid, arity, fn

    def assume(self):
        self.grid.fact(self.arity, self.fn)

    def prove(self, eng, c, label):
        # what is looked up for this goal only is forgotten afterwards
        g = self.grid
        kept = len(c.pc), len(c.trace), dict(g.nodes), set(g.done), len(g.facts)
        c.solver.push()
        self._prove(eng, c, label)
        if len(c.trace) == kept[1] and len(g.facts) == kept[4]:
            c.solver.pop()
            del c.pc[kept[0]:]
            g.nodes, g.done = kept[2], kept[3]

    def _prove(self, eng, c, label):
        xs = [fresh_int('node', 0) for _ in range(self.arity)]
        _add(And(*[x < self.grid.n for x in xs]))
        self.grid.touch(*xs)
        near = G.get('near')
        if near:
            near(*xs)
        eng.prove(c, _b(self.fn(*xs)), label)


class Ext:
    """a number or infinity"""

    def __init__(self, fin, val): self.fin, self.val = fin, val

    @staticmethod
    def of(x):
        if isinstance(x, Ext):
            return x
        if isinstance(x, float) and x == INF:
            return Ext(SBool(z3.BoolVal(False)), SInt(z3.IntVal(0)))
        return Ext(SBool(z3.BoolVal(True)), _i(x))

    def __add__(self, o):
        o = Ext.of(o)
        return Ext(And(self.fin, o.fin), self.val + o.val)
    __radd__ = __add__

    def __lt__(self, o):
        o = Ext.of(o)
        return And(self.fin, Or(Not(o.fin), self.val < o.val))

    def __le__(self, o): return Not(Ext.of(o) < self)

    def __gt__(self, o): return Ext.of(o) < self

    def __ge__(self, o): return Not(self < o)

    def __eq__(self, o):
        o = Ext.of(o)
        return Or(And(self.fin, o.fin, self.val == o.val), And(Not(self.fin), Not(o.fin)))

    def __ne__(self, o): return Not(self == o)

    __hash__ = None


def choose(c, a, b):
    if isinstance(a, Ext) or isinstance(b, Ext):
        a, b = Ext.of(a), Ext.of(b)
        return Ext(SBool(z3.If(_b(c), _b(a.fin), _b(b.fin))), Ite(c, a.val, b.val))
    return Ite(c, a, b)


class Row:
    def __init__(self, m, u): self.m, self.u = m, u

    def __getitem__(self, v): return self.m.get(self.u, v)

    def __setitem__(self, v, x): self.m.put(self.u, v, x)


class Matrix:
    def __init__(self, at, conv=lambda x: x): self.at, self.conv = at, conv

    def get(self, u, v):
        G['grid'].touch(u, v)
        return self.at(_i(u), _i(v))

    def put(self, u, v, x):
        G['grid'].touch(u, v)
        old, a, b, x = self.at, _i(u), _i(v), self.conv(x)
        self.at = lambda p, q: choose(And(p == a, q == b), x, old(p, q))

    def __getitem__(self, u):
        return self.get(*u) if isinstance(u, tuple) else Row(self, u)

    def __setitem__(self, u, x):
        if not isinstance(u, tuple):
            raise pyvc.Unsupported('a whole row is written')
        self.put(*u, x)

    def copy(self): return Matrix(self.at, self.conv)

    @staticmethod
    def ints(name):
        c = pyvc.ctx()
        f = z3.Function(f'{name} {c.fresh(z3.IntSort(), name)}', z3.IntSort(), z3.IntSort(), z3.IntSort())
        return lambda u, v: SInt(f(_i(u).e, _i(v).e))

    @staticmethod
    def lengths(name):
        c = pyvc.ctx()
        k = c.fresh(z3.IntSort(), name)
        f = z3.Function(f'{name} finite {k}', z3.IntSort(), z3.IntSort(), z3.BoolSort())
        val = Matrix.ints(name)
        return lambda u, v: Ext(SBool(f(_i(u).e, _i(v).e)), val(u, v))


class RoadId:
    def __init__(self, v, k): self.v, self.k = v, k


def cell(m, a, b):
    """cell of the road matrix as a number: which of the roads from a, -1 if none was written"""
    if isinstance(m, Matrix):
        return m.at(a, b)
    G['H'].check(isinstance(m, Mapped), 'the matrix of roads')
    x = m.at(a).at(b)
    return SInt(z3.IntVal(-1)) if isinstance(x, str) else x.k


class Land:
    """n land nodes, any roads with lengths of at least `low`; w: the adjacency matrix with the length of the shortest road
    between two nodes (LandGraph._to_adj_matrix), infinite if there is none and on the diagonal"""

    def __init__(self, H, low=0):
        n = self.n = H.int('nodes', 1)
        grid = self.grid = Grid(n)
        w = self.w = Matrix.lengths('road')
        self.nr = field(H, 'roads of')
        self.to, self.len, self.arg = Matrix.ints('leads to'), Matrix.ints('length of'), Matrix.ints('shortest road')
        G.update(H=H, grid=grid, land=self)
        grid.fact(2, lambda a, b: And(w(a, b).val >= low, Implies(a == b, lambda: Not(w(a, b).fin)),
                                      Implies(w(a, b).fin, lambda: And(0 <= self.arg(a, b), self.arg(a, b) < self.nr(a),
                                                                       self.to(a, self.arg(a, b)) == b,
                                                                       self.len(a, self.arg(a, b)) == w(a, b).val))))
        me = self
        self.memo = {}

        class Road:
            def __init__(s, v, k):
                class F:
                    i = me.to(v, k)
                s.id, s.finish, s.weight = RoadId(v, k), F, me.len(v, k)
                s.k = k

        class Node:
            def __init__(s, v): s.i = v

            @property
            def roads(s):
                k = _key(_i(s.i))
                if k not in me.memo:
                    me.memo[k] = SymSeq(me.nr(s.i), lambda j: Road(s.i, j), 'roads')
                return me.memo[k]

        class Nodes:
            def __getitem__(s, v): return Node(v)

        class Ind:
            def __getitem__(s, v): return v.i

        class Lg:
            vertex_count, nodes, node2ind, adj_matrix = n, Nodes(), Ind(), Matrix(w)
        self.lg = Lg

    def good_road(self, a, b, k):
        return And(0 <= k, k < self.nr(a), self.to(a, k) == b, self.len(a, k) == self.w(a, b).val)


class NP:
    inf = INF

    def __init__(self, np): self.np = np

    def full(self, shape, v, *a, **k): return Matrix(lambda p, q: _i(v))

    def __getattr__(self, n): return getattr(self.np, n)


def table_any(H):
    """_build_routes: distances between any number of nodes"""
    if not H.symbolic:
        return
    import sampo.schemas.landscape as ls
    G.clear()
    L = Land(H)

    class Self:
        lg = L.lg
    self = Self()
    with patched((ls, 'np', NP(ls.np))):
        ls.LandscapeConfiguration._build_routes(self)
    d, p, w = self.dist_mx.at, self.path_mx.at, L.w
    a, b, c = (fresh_int(x, 0) for x in ('a', 'b', 'c'))
    H.assume(And(a < L.n, b < L.n, c < L.n))
    L.grid.touch(a, b, c, p(a, b))
    H.check(d(a, b) <= w(a, b), 'no road is shorter than the distance')
    H.check(Implies(And(d(a, b).fin, d(b, c).fin), lambda: d(a, c) <= d(a, b) + d(b, c)), 'no detour is shorter than the distance')
    walked = H.int('walked', 0)
    H.check(Implies(And(d(a, b).fin, walked >= d(a, b).val, w(b, c).fin), lambda: d(a, c) <= walked + w(b, c)),
            'no walk is shorter than the distance (by induction over its roads)')
    H.check(Implies(And(Not(a == b), d(a, b).fin), lambda: last_hop(d, p, w, a, b)), 'the distance is that of a way whose last road is known')
    H.check(Implies(w(a, b).fin, lambda: L.good_road(a, b, cell(self.road_mx, a, b))), 'the road between neighbours is the shortest one')


def last_hop(d, p, w, a, b):
    x = p(a, b)
    return And(0 <= x, x < G['grid'].n, Not(x == b), w(x, b).fin,
               Or(And(x == a, d(a, b).val >= w(a, b).val),
                  And(Not(x == a), d(a, x).fin, d(a, b).val >= d(a, x).val + w(x, b).val)))


def table_loops():
    t = LM + '_build_routes'

    def start(E, done, road=None):
        L = G['land']
        w, p = L.w, E.path_mx.at
        m = E.road_mx
        return [('neighbours have their predecessor',
                 All(L.grid, 2, lambda a, b: Implies(And(done(a, b), Not(a == b), w(a, b).fin), lambda: p(a, b) == a))),
                ('neighbours have their road',
                 All(L.grid, 2, lambda a, b: Implies(And((road or done)(a, b), Not(a == b), w(a, b).fin),
                                                     lambda: L.good_road(a, b, cell(m, a, b)))))]

    def rows(E):
        return start(E, lambda a, b: a < E.i)

    def cols(E):
        return start(E, lambda a, b: Or(a < E.v, And(a == E.v, b < E.i)))

    def roads(E):
        L, v, u = G['land'], E.v, E.u
        L.grid.touch(v, u)
        before = lambda a, b: Or(a < v, And(a == v, b < u))
        return start(E, before, lambda a, b: Or(before(a, b), And(a == v, b == u, L.arg(a, b) < E.i)))

    def inf(E):
        L = G['land']
        w, d, p, g, i = L.w, E.dist_mx.at, E.path_mx.at, L.grid, E.i
        G['near'] = (lambda *xs: g.touch(p(xs[0], xs[1]))) if E.pre is not None or True else None
        return [('distances are not negative', All(g, 2, lambda a, b: Implies(d(a, b).fin, lambda: d(a, b).val >= 0))),
                ('no road is shorter', All(g, 2, lambda a, b: d(a, b) <= w(a, b))),
                ('no detour over the nodes so far is shorter',
                 All(g, 3, lambda a, j, b: Implies(And(j < i, d(a, j).fin, d(j, b).fin), lambda: d(a, b) <= d(a, j) + d(j, b)))),
                ('the last road is known',
                 All(g, 2, lambda a, b: Implies(And(Not(a == b), d(a, b).fin), lambda: last_hop(d, p, w, a, b))))]

    def relaxed(E, done):
        L, i = G['land'], E.i if False else G['i'](E)
        o = pyvc.ctx().loops[f'{t}#4']['old']
        d0, p0, d, p = o.dist_mx.at, o.path_mx.at, E.dist_mx.at, E.path_mx.at
        L.grid.touch(i)
        G['near'] = lambda *xs: L.grid.touch(p0(xs[0], xs[1]), p0(i, xs[1]))
        better = lambda a, b: And(done(a, b), d0(a, i) + d0(i, b) < d0(a, b))
        return [('relaxed distances', All(L.grid, 2, lambda a, b: d(a, b) == choose(better(a, b), d0(a, i) + d0(i, b), d0(a, b)))),
                ('their predecessors', All(L.grid, 2, lambda a, b: p(a, b) == Ite(better(a, b), p0(i, b), p0(a, b))))]

    G0 = lambda E: E._d['i']

    def frm(E):
        G['i'] = G0
        return relaxed(E, lambda a, b: a < E.i)

    def to(E):
        G['i'] = G0
        u = E.u
        return relaxed(E, lambda a, b: Or(a < u, And(a == u, b < E.i)))
    P = {'path_mx': lambda E: Matrix(Matrix.ints('path'))}
    R = {'road_mx': lambda E: Matrix(Matrix.ints('roads'), conv=lambda x: x.k if isinstance(x, RoadId) else x)}
    D = {'dist_mx': lambda E: Matrix(Matrix.lengths('dist'))}
    return [Compr(t), Loop(t, 0, rows, havoc={**P, **R}), Loop(t, 1, cols, havoc={**P, **R}), Loop(t, 2, roads, havoc=R),
            Loop(t, 3, inf, havoc={**P, **D}), Loop(t, 4, frm, havoc={**P, **D}), Loop(t, 5, to, havoc={**P, **D})]


class Line:
    """list of nodes that is appended to"""

    def __init__(self, n, at): self.n, self.at = n, at

    @staticmethod
    def of(x):
        if isinstance(x, Line):
            return x
        xs = [_i(y) for y in x]
        def at(k):
            r = xs[-1]
            for j in range(len(xs) - 1):
                r = Ite(k == j, xs[j], r)
            return r
        return Line(_i(len(xs)), at)

    def append(self, x):
        old, k = self.at, self.n
        self.at = lambda j: Ite(j == k, x, old(j))
        self.n = self.n + 1

    def sym_len(self): return self.n

    def __getitem__(self, k):
        if type(k) is int and k < 0:
            k = self.n + k
        G['H'].check(And(0 <= k, k < self.n), 'index within the path')
        return self.at(k)


def route_any(H):
    """get_route on the contracts of the table: the roads lead from the one node to the other and are together no longer than the
    distance"""
    if not H.symbolic:
        return
    from sampo.schemas.landscape import LandscapeConfiguration as LConf
    G.clear()
    L = Land(H, low=1)
    g, w, n = L.grid, L.w, L.n
    d, p, r = Matrix.lengths('dist'), Matrix.ints('path'), Matrix.ints('roads')
    g.fact(2, lambda a, b: And(w(a, b).fin == w(b, a).fin, Implies(w(a, b).fin, lambda: w(a, b).val == w(b, a).val)))
    g.fact(2, lambda a, b: Implies(d(a, b).fin, lambda: d(a, b).val >= 0))
    g.fact(2, lambda a, b: Implies(And(Not(a == b), d(a, b).fin), lambda: last_hop(d, p, w, a, b)))
    g.fact(2, lambda a, b: Implies(w(a, b).fin, lambda: L.good_road(a, b, r(a, b))))

    class P:
        def __init__(s, i): s.i = i
    a, b = P(H.int('from', 0)), P(H.int('to', 0))
    H.assume(And(a.i < n, b.i < n, Not(a.i == b.i), d(a.i, b.i).fin))
    g.touch(a.i, b.i)

    class Self:
        dist_mx, path_mx, road_mx = Matrix(d), Matrix(p), Matrix(r)

        class _node2ind:
            def __class_getitem__(s, v): return v.i
        lg = L.lg
    G.update(d=d, a=a.i, b=b.i)
    got = LConf.get_route(Self(), a, b)
    line, total = Line.of(G['line']), G['total']
    x = fresh_int('road', 0)
    H.check(got.n == line.n - 1, 'a road for every two nodes that follow each other')
    H.assume(x < got.n)
    y = got.n - 1 - x              # the route is the path backwards
    u, v = line.at(y + 1), line.at(y)
    g.touch(u, v)
    G['links'](y)
    H.check(Or(L.good_road(v, u, got.at(x)), L.good_road(u, v, got.at(x))), 'the roads are those between the nodes of the path')
    H.check(And(line.at(0) == b.i, line.at(line.n - 1) == a.i), 'the path leads from the one node to the other')
    H.check(total <= d(a.i, b.i).val, 'the roads are together no longer than the distance')


def route_loops():
    t = LM + 'get_route'

    def links(line, hi=None):
        g, w = G['grid'], G['land'].w
        return lambda k: And(0 <= line.at(k), line.at(k) < g.n, 0 <= line.at(k + 1), line.at(k + 1) < g.n, w(line.at(k + 1), line.at(k)).fin)

    class Links(Forall):
        """nodes that follow each other in the path are neighbours"""

        def __init__(self, line): self.line, self.n = line, line.n

        def assume(self):
            ok, n = links(Line(self.n, self.line.at)), self.n
            G['links'] = lambda k: _add(Implies(And(0 <= k, k + 1 < n), lambda: ok(k)))

        def prove(self, eng, c, label):
            k = fresh_int('place', 0)
            if 'links' in G:
                G['links'](k)
            ok = links(self.line)
            G['grid'].touch(self.line.at(k), self.line.at(k + 1))
            eng.prove(c, _b(Implies(k + 1 < self.n, lambda: ok(k))), label)

    def inv(E):
        g, d, a, b, w = G['grid'], G['d'], G['a'], G['b'], G['land'].w
        line, to = Line.of(E.path), E.to
        g.touch(to)
        if E.pre is None:
            if isinstance(E.path, list):
                G.pop('links', None)
        tot = E.g['total']
        G['line'], G['w'] = E.path, w
        G['total'] = tot + w(a, to).val
        return [('within the land', And(0 <= to, to < g.n, Not(to == a), d(a, to).fin)),
                ('the path so far', And(line.n >= 1, line.at(0) == b, line.at(line.n - 1) == to)),
                ('its nodes are neighbours', Links(line)),
                ('its length so far', And(tot >= 0, tot + d(a, to).val <= d(a, b).val))]

    def any_line(E):
        n = fresh_int('path', 1)
        f = z3.Function(f'path {pyvc.ctx().fresh(z3.IntSort(), "p")}', z3.IntSort(), z3.IntSort())
        return Line(n, lambda k: SInt(f(_i(k).e)))
    return [Compr(t), Loop(t, 0, inv, havoc={'path': any_line}, variant=lambda E: G['d'](G['a'], E.to).val,
                           ghost={'total': (lambda E: SInt(z3.IntVal(0)), lambda E: E.g['total'] + G['land'].w(E.to, E.pre.to).val)})]


PROOFS = [Proof('distances/any number of nodes', table_any, [LC + '_build_routes'], rnd=0, secs=60, loops=table_loops()),
          Proof('route/any number of nodes', route_any, [LC + 'get_route'], rnd=0, secs=60, loops=route_loops())]
