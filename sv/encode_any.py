"""Schedule -> chromosome for any number of works, workers of a work, kinds and contractors."""
from . import env
env.z3path()
import z3
from .loops import Compr, Loop
from .pyvc import And, Implies, Ite, Not, Or, SBool, SInt, Unsupported, patched
from .run import Proof
from .seq import SymSeq, _add, _i, field, fresh_int
from .slots import field2

CM = 'sampo.scheduler.genetic.converter:'
C = 'sampo/scheduler/genetic/converter.py:'
F = 'convert_schedule_to_chromosome'
G = {}


class Named:
    """a name whose index is known: of a work, of a kind of workers, of a contractor"""
    individual = True

    def __init__(self, what, at): self.what, self.at = what, at

    def __hash__(self): return 0

    def __eq__(self, other):
        if not isinstance(other, Named) or other.what != self.what:
            return False
        return self.at == other.at


class Index:
    """the dictionary name -> index"""

    def __init__(self, what, n): self.what, self.n = what, n

    def sym_len(self): return self.n

    def __getitem__(self, name):
        if not isinstance(name, Named) or name.what != self.what:
            raise KeyError(name)
        return name.at

    def __iter__(self): raise Unsupported('iteration over the names')

    def __contains__(self, name): return isinstance(name, Named) and name.what == self.what

    def keys(self):
        return SymSeq(self.n, lambda i: Named(self.what, i), self.what)
    sym_keys = keys


class Rect:
    """a matrix of integers"""

    def __init__(self, rows, cols, at, tag='matrix'):
        self.rows, self.cols, self.at, self.tag = rows, cols, at, tag
        self.shape = rows, cols

    def _cell(self, k):
        if not (isinstance(k, tuple) and len(k) == 2):
            raise Unsupported('a whole row of a matrix')
        r, c = k
        if type(c) is int and c < 0:
            c = self.cols + c
        return _i(r), _i(c)

    def __getitem__(self, k):
        return self.at(*self._cell(k))

    def __setitem__(self, k, v):
        r, c = self._cell(k)
        G['H'].check(And(0 <= r, r < self.rows, 0 <= c, c < self.cols), 'a cell of the chromosome is written')
        old, v = self.at, _i(v)
        self.at = lambda p, q: Ite(And(p == r, q == c), v, old(p, q))

    @staticmethod
    def fresh(rows, cols):
        f = z3.Function(f'cell{fresh_int("matrix").e}', z3.IntSort(), z3.IntSort(), z3.IntSort())
        return Rect(rows, cols, lambda p, q: SInt(f(_i(p).e, _i(q).e)))


class NP:
    """the numpy functions the conversion uses"""
    ndarray, int64 = object, int

    def array(self, x, dtype=None):
        return x if isinstance(x, SymSeq) else __import__('numpy').array(x)

    def zeros(self, shape, dtype=float):
        G['H'].check(dtype is not float, 'counts are integers')
        return Rect(shape[0], shape[1], lambda p, q: _i(0))

    def zeros_like(self, *a, **k): raise Unsupported('zeros_like')

    def copy(self, x):
        return Copied(x)


class Copied:
    def __init__(self, of): self.of = of


class Copier:
    def deepcopy(self, x): return Copied(x)

    def copy(self, x): raise Unsupported('a shallow copy')


def encode_any(H):
    from sampo.scheduler.genetic import converter as cv
    if not H.symbolic:
        return
    G.clear()
    n, K, Cn = H.int('works', 1), H.int('kinds', 0), H.int('contractors', 1)
    ix, m, who, given = field(H, 'index of'), field(H, 'team of'), field(H, 'contractor of'), field(H, 'contractors named for')
    kind, count, named = field2('kind'), field2('number'), field2('named')

    okf = z3.Function('is named for', z3.IntSort(), z3.IntSort(), z3.BoolSort())

    def ok(j, c):
        return SBool(okf(_i(j).e, _i(c).e))

    class W:
        individual = True

        def __init__(s, j, p):
            s.name, s.count, s.contractor_id = Named('kind', kind(j, p)), count(j, p), Named('contractor', who(j))
    v = fresh_int('an arbitrary work', 0)
    _add(v < n)
    k = fresh_int('an arbitrary kind', 0)
    _add(k < K)
    has = bool(H.bool('the kind is in the team of the work'))
    q = fresh_int('its place', 0)
    teams, specs = {}, {}

    def team(j):
        from .seq import _key
        if _key(j) not in teams:
            s = teams[_key(j)] = SymSeq(m(j), lambda p: W(j, p), 'team')
            s.fact(lambda p: And(0 <= kind(j, p), kind(j, p) < K, count(j, p) >= 1))
            # every kind once in a team; the arbitrary kind is at place q of the team of the arbitrary work, or nowhere
            s.fact(lambda p: Implies(j == v, (lambda: (kind(j, p) == k) == (p == q)) if has else (lambda: kind(j, p) != k)))
            if has:
                _add(Implies(j == v, lambda: q < m(j)))
        return teams[_key(j)]

    def allowed(j):
        from .seq import _key
        if _key(j) not in specs:
            s = specs[_key(j)] = SymSeq(given(j), lambda p: Named('contractor', named(j, p)), 'named')
            s.fact(lambda p: And(0 <= named(j, p), named(j, p) < Cn, ok(j, named(j, p))))
        return specs[_key(j)]

    class Node:
        individual = True

        def __init__(s, j): s.j, s.id = j, Id(j)

    class Id(Named):
        def __init__(s, j): s.j, s.what, s.at = j, 'work', ix(j)

    class SW:
        def __init__(s, j): s.workers, s.contractor_id = team(j), Named('contractor', who(j))

    class WS:
        def __init__(s, j): s.contractors = allowed(j)

    class ByWork:
        def __init__(s, f): s.f = f

        def __getitem__(s, i): return s.f(i.j)

    class Spec(ByWork):
        get_work_spec = ByWork.__getitem__

    class Sched:
        to_schedule_work_dict = ByWork(SW)

    class Zone:
        class zone_config:
            start_statuses = SymSeq(H.int('zones', 0), lambda i: ('zone', i), 'zones')
    order = SymSeq(n, Node, 'order')
    order.fact(lambda j: And(0 <= ix(j), ix(j) < n, 0 <= who(j), who(j) < Cn, m(j) >= 0, given(j) >= 0))
    order.fact(lambda j: Implies(j != v, lambda: ix(j) != ix(v)))
    order.touch(v)
    r = ix(v)
    want = count(v, q) if has else _i(0)
    spec, borders = Spec(WS), object()

    def fits(c):
        """the contractor is the one of the team, or one of those allowed for a work without a team"""
        return And(0 <= c, c < Cn, Implies(m(v) > 0, lambda: c == who(v)), Implies(And(m(v) == 0, given(v) > 0), lambda: ok(v, c)))
    G.update(H=H, n=n, K=K, v=v, k=k, r=r, q=q, want=want, has=has, fits=fits, who=who, count=count)

    def seq(x, *a, **kw):
        if isinstance(x, SymSeq) and not a and not kw:
            return x
        if isinstance(x, Index):
            return x.keys()
        return None
    import builtins as b
    with patched((cv, 'np', NP()), (cv, 'copy', Copier()),
                 (cv, 'sorted', lambda x, *a, **kw: b.sorted(x, *a, **kw) if seq(x, *a, **kw) is None else seq(x)),
                 (cv, 'list', lambda x=(): b.list(x) if seq(x) is None else seq(x))):
        ch = getattr(cv, F)(Index('work', n), Index('kind', K), Index('contractor', Cn), borders, Sched, spec, Zone, order)
    t = fresh_int('place in the order', 0)
    _add(t < n)
    order.touch(t)
    H.check(And(ch[0].sym_len() == n, ch[0].at(t) == ix(t)), 'the order is kept')
    res = ch[1]
    H.check(And(res.rows == n, res.cols == K + 1), 'a row for every work, a column for every kind and one for the contractor')
    H.check(res.at(r, k) == want, 'the team is kept')
    c = res.at(r, K)
    team(v)
    if bool(m(v) > 0):
        H.check(c == who(v), 'the contractor is kept')
    elif bool(given(v) > 0):
        H.check(ok(v, c), 'a work without workers gets a contractor named for it')
    else:
        H.check(And(0 <= c, c < Cn), 'a work without workers gets a contractor')
    H.check(And(ch[4].rows == n, ch[4].at(r, k) == 0), 'no zone is switched')
    H.check(isinstance(ch[2], Copied) and ch[2].of is borders, 'limits are those of the contractors, copied')
    H.check(isinstance(ch[3], Copied) and ch[3].of is spec, 'the specification is copied')


def encode_loops():
    t = CM + F

    def fresh(E): return Rect.fresh(G['n'], G['K'] + 1)

    def works(E):
        v, k, r, K, R = G['v'], G['k'], G['r'], G['K'], E.resource_chromosome
        c = R.at(r, K)
        return [('count', R.at(r, k) == Ite(E.i > v, G['want'], 0)),
                ('contractor', Ite(E.i > v, G['fits'](c), c == 0))]

    def workers(E):
        v, k, r, K, R = G['v'], G['k'], G['r'], G['K'], E.resource_chromosome
        O = E.old.resource_chromosome
        mine = E.node.j == v
        part = And(G['has'], G['q'] < E.i) if G['has'] else False
        return [('count', R.at(r, k) == Ite(mine, Ite(part, G['want'], O.at(r, k)), O.at(r, k))),
                ('contractor', R.at(r, K) == Ite(And(mine, E.i > 0), G['who'](v), O.at(r, K)))]
    return [Compr(t), Loop(t, 0, works, havoc={'resource_chromosome': fresh}), Loop(t, 1, workers, havoc={'resource_chromosome': fresh})]


def proofs():
    return [Proof('encode/any number of works', encode_any, [C + F], rnd=0, secs=40, loops=encode_loops())]
