"""The checks of the validator over any number of works and links."""
from . import env
env.z3path()
import z3
from . import loops, pyvc
from .loops import Compr, Loop
from .pyvc import And, Implies, Not, Or, SBool, SInt, time_stub_exact
from .run import Proof
from .seq import Forall, SymSeq, _add, _i, _key, field, fresh_int
from .slots import BIG, T

X = (time_stub_exact,)
G = {}
V = 'sampo/utilities/validation.py:'
VM = 'sampo.utilities.validation:'


class Id:
    def __init__(self, i): self.i = i


class World:
    """n works of a graph, the j-th predecessor of work i is work par(i, j); m scheduled works, `where(i)`: which of them has the id
    of work i (-1: none)"""

    def __init__(self, H):
        n, m = self.n, self.m = H.int('works', 0), H.int('scheduled', 0)
        self.where, self.np, self.s, self.f, self.kind = (field(H, x) for x in ('place of', 'predecessors', 'start', 'finish', 'service'))
        g = z3.Function('predecessor', z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.par = lambda i, j: SInt(g(_i(i).e, _i(j).e))
        me = self
        self.lists = {}

        class WU:
            def __init__(s, i): s.id = Id(i)

        class Node:
            def __init__(s, i): s.i, s.id, s.work_unit = i, Id(i), WU(i)

            @property
            def parents(s):
                me.nodes.touch(s.i)
                k = _key(_i(s.i))
                if k not in me.lists:
                    q = me.lists[k] = SymSeq(me.np(s.i), lambda j: (me.nodes.touch(me.par(s.i, j)), Node(me.par(s.i, j)))[1], 'parents')
                    q.fact(lambda j: And(0 <= me.par(s.i, j), me.par(s.i, j) < n))
                return me.lists[k]
        self.Node = Node

        class Work:
            def __init__(s, p):
                class I:
                    at = p
                s.id = I
                s.p, s.start_time, s.finish_time, s.contractor_id = p, T(me.s(p)), T(me.f(p)), ('contractor', p)
                s.start_end_time = (s.start_time, s.finish_time)
                s.duration = T(me.f(p) - me.s(p))
                s.is_service_unit = me.kind(p) > 0

        class Works(SymSeq):
            def find(s, k): return me.where(k.i)

            def same(s, got, k): G['H'].check(_i(got.at) == me.where(k.i), 'a scheduled work is looked up by its id')
        self.works = Works(m, Work, 'schedule')
        self.works.fact(lambda p: And(me.s(p) >= 0, me.f(p) >= me.s(p), me.f(p) <= BIG))
        self.nodes = SymSeq(n, Node, 'works')
        self.nodes.fact(lambda i: And(me.np(i) >= 0, me.where(i) >= -1, me.where(i) < m))
        G['W'] = self

        class Graph:
            nodes = self.nodes

        class Schedule:
            works = self.works
        self.wg, self.schedule = Graph, Schedule


def run(H, f, *a):
    try:
        f(*a)
        return True
    except AssertionError:
        return False


def scheduled_any(H):
    if not H.symbolic:
        return
    from sampo.utilities import validation as v
    G.clear()
    G['H'] = H
    W = World(H)
    k = fresh_int('work', 0)
    H.assume(k < W.n)
    W.nodes.touch(k)
    if run(H, v._check_all_tasks_scheduled, W.schedule, W.wg):
        H.check(W.where(k) >= 0, 'accepted only if every work is scheduled')
    else:
        H.check(Or(*[And(0 <= i, i < W.n, W.where(i) < 0) for i in W.nodes.touched.values()]), 'rejected only if a work is missing')


def order_any(H):
    if not H.symbolic:
        return
    from sampo.utilities import validation as v
    G.clear()
    G['H'] = H
    W = World(H)
    W.nodes.fact(lambda i: W.where(i) >= 0)
    k, j = fresh_int('work', 0), fresh_int('link', 0)
    H.assume(And(k < W.n, j < W.np(k)))
    W.nodes.touch(k)
    W.Node(k).parents.touch(j)
    W.nodes.touch(W.par(k, j))

    def fits(i, j):
        a, b = W.where(i), W.where(W.par(i, j))
        return W.f(b) <= W.s(a)
    G.update(fits=fits, k=k)
    if run(H, v._check_parent_dependencies, W.schedule, W.wg):
        H.check(fits(k, j), 'accepted only if every work begins after its predecessors have finished')
    else:
        i = loops.current(VM + '_check_parent_dependencies#0')
        x = loops.current(VM + '_check_parent_dependencies#1')
        for y in (i, W.par(i, x)):
            W.nodes.touch(y)
            W.works.touch(W.where(y))
        H.check(Not(fits(i, x)), 'rejected only if a work begins before a predecessor has finished')


def order_loops():
    t = VM + '_check_parent_dependencies'

    def outer(E):
        W, fits = G['W'], G['fits']
        out = []

        class AllLinks(Forall):
            def __init__(s, hi): s.hi = hi

            def assume(s):
                hi = s.hi
                def of(i):
                    W.Node(i).parents.fact(lambda j: Implies(And(0 <= i, i < hi), lambda: fits(i, j)))
                    return True
                of(G['k'])

            def prove(s, eng, c, label):
                i, j = G['k'], fresh_int('link', 0)
                _add(j < W.np(i))
                for q in W.lists.values():
                    q.touch(j)
                hi = s.hi
                eng.prove(c, pyvc._b(Implies(And(0 <= i, i < hi), lambda: fits(i, j))), label)
        return [('the links of the works so far', AllLinks(E.i))]

    def inner(E):
        W, fits = G['W'], G['fits']
        i = E.node.i
        return [('the links of this work so far', Forall(E.node.parents, lambda j: fits(i, j), 0, E.i))]
    return [Compr(t), Loop(t, 0, outer), Loop(t, 1, inner)]


def service_any(H):
    if not H.symbolic:
        return
    from sampo.utilities import validation as v
    G.clear()
    G['H'] = H
    W = World(H)
    p = fresh_int('scheduled work', 0)
    H.assume(p < W.m)
    W.works.touch(p)
    bad = lambda p: And(W.kind(p) > 0, Not(W.s(p) == W.f(p)))
    if run(H, v._check_all_tasks_have_valid_duration, W.schedule):
        H.check(Not(bad(p)), 'accepted only if service works take no time')
    else:
        H.check(Or(*[And(0 <= x, x < W.m, bad(x)) for x in W.works.touched.values()]), 'rejected only if a service work takes time')


def spec_any(H):
    if not H.symbolic:
        return
    from sampo.utilities import validation as v
    G.clear()
    G['H'] = H
    W = World(H)
    W.nodes.fact(lambda i: W.where(i) >= 0)
    some, fits = field(H, 'given'), z3.Function('may do', z3.IntSort(), z3.IntSort(), z3.BoolSort())
    may = lambda i, p: SBool(fits(_i(i).e, _i(p).e))

    class Spec:
        def __getitem__(s, id):
            class C:
                contractors = some(id.i) > 0

                @staticmethod
                def is_contractor_enabled(c): return bool(may(id.i, c[1]))
            return C
    k = fresh_int('work', 0)
    H.assume(k < W.n)
    W.nodes.touch(k)
    ok = lambda i: Or(some(i) <= 0, may(i, W.where(i)))
    G.update(ok=ok)
    if run(H, v._check_all_tasks_corresponds_to_spec, W.schedule, W.wg, Spec()):
        H.check(ok(k), 'accepted only if every work has a contractor its specification allows')
    else:
        i = loops.current(VM + '_check_all_tasks_corresponds_to_spec#0')
        H.check(Not(ok(i)), 'rejected only if a work has a contractor its specification does not allow')


def spec_loops():
    t = VM + '_check_all_tasks_corresponds_to_spec'
    return [Compr(t), Loop(t, 0, lambda E: [('the works so far', Forall(G['W'].nodes, G['ok'], 0, E.i))])]


def _p(name, fn, f, ls):
    return Proof(name + '/any number of works', fn, [V + f], stubs=X, rnd=0, secs=60, loops=ls)


PROOFS = [_p('scheduled', scheduled_any, '_check_all_tasks_scheduled', [Compr(VM + '_check_all_tasks_scheduled')]),
          _p('dependencies', order_any, '_check_parent_dependencies', order_loops()),
          _p('service works', service_any, '_check_all_tasks_have_valid_duration', [Compr(VM + '_check_all_tasks_have_valid_duration')]),
          _p('specification', spec_any, '_check_all_tasks_corresponds_to_spec', spec_loops())]
