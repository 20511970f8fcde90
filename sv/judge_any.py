"""The judge of work orders for any number of works and predecessors."""
from . import env
env.z3path()
import z3
from . import loops as lp
from .loops import Compr, Loop
from .pyvc import And, Implies, Ite, Not, Or, SBool, SInt, Unsupported, patched
from .run import Proof
from .seq import Forall, Mapped, SymSeq, _add, _i, _key, field, fresh_int
from .slots import field2

OM = 'sampo.scheduler.genetic.operators:'
O = 'sampo/scheduler/genetic/operators.py:'
F = 'is_chromosome_order_correct'
G = {}


class Used:
    """the set of the works met so far"""

    def __init__(self, at): self.at = at

    @staticmethod
    def fresh():
        f = z3.Function(f'used{fresh_int("u").e}', z3.IntSort(), z3.BoolSort())
        return Used(lambda x: SBool(f(_i(x).e)))

    def add(self, x):
        old, x = self.at, _i(x)
        G['works'].touch(x)
        self.at = lambda y: Or(y == x, old(y))

    def __contains__(self, x):
        G['works'].touch(_i(x))
        return bool(self.at(_i(x)))

    def issuperset(self, ps): return ps.issubset(self)

    def __iter__(self): raise Unsupported('iteration over a set')

    def __len__(self): raise Unsupported('size of a set')


def judge_any(H):
    from sampo.scheduler.genetic import operators as op
    if not H.symbolic:
        return
    G.clear()
    n, N = H.int('length of the order', 0), H.int('works', 0)
    w, place, npar, prio = (field(H, x) for x in ('work at', 'place of', 'predecessors of', 'priority of'))
    par = field2('predecessor')
    order = SymSeq(n, lambda t: (works.touch(w(t)), w(t))[1], 'order')
    works = SymSeq(N, lambda x: x, 'works')
    works.fact(lambda x: And(0 <= place(x), place(x) <= n, npar(x) >= 0,
                             Implies(place(x) < n, lambda: w(place(x)) == x)))
    order.fact(lambda t: And(0 <= w(t), w(t) < N, place(w(t)) == t))
    lists, j = {}, fresh_int('a predecessor', 0)

    class Parents(SymSeq):
        def issubset(self, used):
            if not isinstance(used, Used):
                raise Unsupported('subset of what')
            return not self.sym_exists(lambda p: Not(used.at(_i(p))), 'not met yet')

        def __le__(self, used): return self.issubset(used)

    def parents(x):
        k = _key(_i(x))
        if k not in lists:
            def get(j):
                works.touch(par(x, j))
                return par(x, j)
            s = lists[k] = Parents(npar(x), get, 'predecessors')
            s.fact(lambda q: And(0 <= par(x, q), par(x, q) < N, par(x, q) != x))
            s.touch(j)
            works.touch(par(x, j))
        return lists[k]

    class ByWork:
        def __init__(s, f): s.f = f

        def __getitem__(s, x):
            works.touch(_i(x))
            return s.f(_i(x))

    class Node:
        individual = True

        def __init__(s, x):
            s.x = x

            class WU:
                priority = prio(x)
            s.work_unit = WU
    G.update(H=H, works=works, place=place)
    t = fresh_int('a place', 0)
    _add(t < n)
    x = order.at(t)
    _add(j < npar(x))
    p = parents(x).at(j)
    G.update(t=t, p=p, x=x, prio=prio)

    def make(*a):
        if a:
            raise Unsupported('a set of something')
        return Used(lambda y: SBool(z3.BoolVal(False)))
    with patched((op, 'set', make)):
        r = op.is_chromosome_order_correct((order,), ByWork(parents), ByWork(Node))
    if r:
        H.check(And(place(p) <= t, prio(p) <= prio(x)), 'judged correct only if predecessors come first and have no bigger priority value')
    else:
        i = lp.current(f'{OM}{F}#0')
        y = w(i)
        bad = [And(0 <= q, q < npar(y), Or(place(par(y, q)) > i, prio(par(y, q)) > prio(y))) for q in parents(y).touched.values()]
        H.check(And(0 <= i, i < n, Or(*bad)), 'judged wrong only if some predecessor comes later or has a bigger priority value')


def order_loops():
    t = OM + F

    def inv(E):
        place, tt, p, x, prio = (G[k] for k in ('place', 't', 'p', 'x', 'prio'))
        used = E.used
        return [('what has been met', Forall(G['works'], lambda y: used.at(y) == (place(y) < E.i))),
                ('the works so far come after their predecessors', Implies(tt < E.i, lambda: And(place(p) <= tt, prio(p) <= prio(x))))]
    return [Compr(t), Loop(t, 0, inv, havoc={'used': lambda E: Used.fresh()})]


def proofs():
    return [Proof('judge of orders/any number of works', judge_any, [O + F], rnd=0, secs=40, loops=order_loops())]
