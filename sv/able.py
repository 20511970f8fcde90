"""Which contractors can do the works at all: any number of works, contractors and requirements."""
from . import env
env.z3path()
import z3
from . import loops, pyvc
from .loops import Loop
from .pyvc import And, Implies, Not, Or, SBool, SInt
from .run import Proof
from .seq import Forall, SymSeq, _add, _i, _key, field, fresh_int
from .slots import field2

G = {}
DM = 'sampo.pipeline.default:'


def able_any(H):
    """contractors_can_perform_work_graph says yes exactly when every work has a contractor that owns enough of every required kind"""
    if not H.symbolic:
        return
    from sampo.pipeline.default import contractors_can_perform_work_graph as f
    G.clear()
    n, m = H.int('works', 0), H.int('contractors', 0)
    nr, need = field(H, 'requirements'), field2('least number')
    own = z3.Function('owned', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    has = z3.Function('knows', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
    able, lacks = field(H, 'who can'), field2('what is lacking')

    def ok(i, c, j):
        t = [_i(x).e for x in (c, i, j)]
        return And(SBool(has(*t)), need(i, j) <= SInt(own(*t)))
    k, j, c = fresh_int('work', 0), fresh_int('requirement', 0), fresh_int('contractor', 0)
    H.assume(And(k < n, j < nr(k), c < m))
    memo = {}

    class Req:
        def __init__(s, i, q): s.i, s.q, s.kind, s.min_count = i, q, ('kind', i, q), need(i, q)

    class Offers:
        def __init__(s, c): s.c = c

        def __contains__(s, kind): return bool(SBool(has(*[_i(x).e for x in (s.c, kind[1], kind[2])])))

        def __getitem__(s, kind):
            H.check(kind in s, 'only the number of a kind that is there is asked for')

            class W:
                count = SInt(own(*[_i(x).e for x in (s.c, kind[1], kind[2])]))
            return W

    class Contractor:
        def __init__(s, c): s.c, s.workers = c, Offers(c)

    class Node:
        def __init__(s, i):
            s.i = i
            q = _key(_i(i))
            if q not in memo:
                memo[q] = SymSeq(nr(i), lambda j: Req(i, j), 'reqs')
                memo[q].touch(j)

            class WU:
                worker_reqs = memo[q]
            s.work_unit = WU
    nodes, contractors = SymSeq(n, Node, 'works'), SymSeq(m, Contractor, 'contractors')
    nodes.fact(lambda i: nr(i) >= 0)

    class WG:
        pass
    WG.nodes = nodes
    nodes.touch(k)
    G.update(k=k, j=j, c=c, n=n, m=m, nr=nr, ok=ok, able=able, lacks=lacks)
    if f(contractors, WG):
        a = able(k)
        H.check(And(0 <= a, a < m, ok(k, a, j)), 'yes only if some contractor has enough of everything the work requires')
    else:
        i = loops.current(DM + 'contractors_can_perform_work_graph#0')
        x = lacks(i, c)
        H.check(And(0 <= x, x < nr(i), Not(ok(i, c, x))), 'no only if every contractor lacks something of what some work requires')


def able_loops():
    t = DM + 'contractors_can_perform_work_graph'
    flag = lambda E: [('nobody is ruled out yet', E.is_at_least_one_contractor_can_perform)]
    none = lambda E: [('nobody is found yet', E.num_contractors_can_perform_node == 0)]

    def works(E):
        k, j, m, ok, able = (G[x] for x in ('k', 'j', 'm', 'ok', 'able'))
        if E.pre is not None:
            # the contractor at which the search for this work ended
            _add(able(E.pre.i) == E.contractor.c)
        return flag(E) + none(E) + [('the works so far have their contractor', Implies(k < E.i, lambda: And(0 <= able(k), able(k) < m, ok(k, able(k), j))))]

    def contractors(E):
        c, ok, lacks, nr = (G[x] for x in ('c', 'ok', 'lacks', 'nr'))
        i = E.node.i
        if E.pre is not None:
            _add(lacks(i, E.pre.i) == E.req.q)
        x = lacks(i, c)
        return flag(E) + none(E) + [('the contractors so far lack something', Implies(c < E.i, lambda: And(0 <= x, x < nr(i), Not(ok(i, c, x)))))]

    def reqs(E):
        ok, i, a = G['ok'], E.node.i, E.contractor.c
        return flag(E) + [('the contractor has enough of the kinds so far', Forall(E.reqs, lambda q: ok(i, a, q), 0, E.i))]
    return [Loop(t, 0, works), Loop(t, 1, contractors), Loop(t, 2, reqs)]


PROOFS = [Proof('who can do the works/any number', able_any, ['sampo/pipeline/default.py:contractors_can_perform_work_graph'], rnd=0, secs=60,
                loops=able_loops())]
