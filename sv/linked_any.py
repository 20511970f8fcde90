"""Removing elements from a linked list of any length."""
from . import env
env.z3path()
import z3
from .loops import Loop
from .pyvc import And, Implies, Ite, Not, SBool, SInt
from .run import Proof
from .seq import Forall, SymSeq, _add, _i, field, fresh_int

LM = 'sampo.utilities.linked_list:'
L = 'sampo/utilities/linked_list.py:'
G = {}


class Nd:
    """the k-th node of the list that was given; suffixes of a list that begin at different nodes are never equal"""

    def __init__(self, k): self.k, self.value = k, Value(k)

    @property
    def next(self):
        G['nodes'].touch(self.k)
        return node(G['next'](self.k))

    @next.setter
    def next(self, x):
        old, k, to = G['next'], self.k, G['n'] if x is None else x.k
        G['nodes'].touch(k)
        G['next'] = lambda a: Ite(a == k, to, old(a))

    def __eq__(self, o): return isinstance(o, Nd) and bool(self.k == o.k)

    __hash__ = None


class Value:
    individual = True

    def __init__(self, k): self.k = k


def node(k):
    """the end of the list is written as node number n"""
    k = _i(k)
    return None if bool(k == G['n']) else Nd(k)


def at(x):
    return G['n'] if x is None else x.k


def remove_any(H):
    from sampo.utilities.linked_list import LinkedList
    if not H.symbolic:
        return
    G.clear()
    n = H.int('length', 0)
    G.update(H=H, n=n)
    keep = z3.Function('is kept', z3.IntSort(), z3.BoolSort())
    kp = lambda a: SBool(keep(_i(a).e))
    N, P, D = field(H, 'next kept from'), field(H, 'last kept before'), field(H, 'removed before')
    nodes = SymSeq(n, lambda a: a, 'nodes')
    nodes.fact(lambda a: And(N(a) == Ite(kp(a), a, N(a + 1)), P(a + 1) == Ite(kp(a), a, P(a)), D(a + 1) == D(a) + Ite(kp(a), 0, 1)))
    _add(And(N(n) == n, P(0) == -1, D(0) == 0))
    G.update(nodes=nodes, N=N, P=P, D=D, kp=kp, next=lambda a: a + 1, asked=_i(0), keep=keep)
    nodes.touch(_i(0))
    lst = LinkedList()
    lst._root, lst._tail, lst._len = node(_i(0)), (node(n - 1) if bool(n > 0) else None), n
    G['lst'] = lst

    def condition(v):
        H.check(v.k == G['asked'], 'every element is asked about once, in order')
        G['asked'] = G['asked'] + 1
        nodes.touch(v.k)
        return bool(Not(kp(v.k)))
    lst.remove_if(condition)
    a = fresh_int('an arbitrary element', 0)
    _add(And(a < n, kp(a)))
    nodes.touch(a)
    H.check(G['asked'] == n, 'every element is asked about')
    H.check(at(lst._root) == N(0), 'the list begins with the first element that is kept')
    H.check(G['next'](a) == N(a + 1), 'every element that is kept is followed by the next one that is kept')
    H.check(lst._len == n - D(n), 'the length is the number of the elements that are kept')
    if bool(P(n) >= 0):
        H.check(at(lst._tail) == P(n), 'the list ends with the last element that is kept')


def remove_loops():
    t = LM + 'LinkedList.remove_if'

    def havoc(E):
        lst, it = E.self, E.it
        k = E.g['k']
        _add(And(0 <= k, k <= G['n']))
        G['nodes'].touch(k)
        none = bool(G['P'](k) == -1)
        it._node = node(k)
        it._prev = None if none else node(G['P'](k))
        lst._root = node(k) if none else node(G['N'](0))
        lst._len = fresh_int('length')
        lst._tail = node(fresh_int('tail', 0))
        f = z3.Function(f'next{fresh_int("x").e}', z3.IntSort(), z3.IntSort())
        G['next'] = lambda a: SInt(f(_i(a).e))
        G['asked'] = fresh_int('asked', 0)

    def inv(E):
        k, N, P, D, n, kp, nxt = E.g['k'], G['N'], G['P'], G['D'], G['n'], G['kp'], G['next']
        lst, it = E.self, E.it
        G['nodes'].touch(k)
        return [('place', And(0 <= k, k <= n)), ('asked', G['asked'] == k),
                ('node', at(it._node) == k), ('last kept', And(P(k) >= -1, P(k) < k, Implies(P(k) >= 0, lambda: kp(P(k))))),
                ('previous', Implies(P(k) >= 0, lambda: And(it._prev is not None, at(it._prev) == P(k)))),
                ('first', at(lst._root) == Ite(P(k) == -1, k, N(0))), ('nothing kept between', N(P(k) + 1) == N(k)),
                ('first kept', Implies(P(k) == -1, lambda: N(0) == N(k))),
                ('first is before', Implies(P(k) >= 0, lambda: N(0) <= P(k))),
                ('length', lst._len == n - D(k)),
                ('tail', Implies(And(n > 0, k < n), lambda: at(lst._tail) == n - 1)),
                ('end', Implies(And(k == n, P(n) >= 0), lambda: at(lst._tail) == P(n))),
                ('links', Forall(G['nodes'], lambda a: Ite(a >= k, nxt(a) == a + 1,
                                                           Implies(kp(a), lambda: nxt(a) == Ite(a == P(k), k, N(a + 1))))))]
    return [Loop(t, 0, inv, havoc={'frame!': havoc}, frame={'it', 'self'}, variant=lambda E: G['n'] - E.g['k'],
                 ghost={'k': (lambda E: 0, lambda E: E.g['k'] + 1)})]


def proofs():
    return [Proof('removal from a linked list/any length', remove_any,
                  [L + x for x in ('LinkedList.remove_if', 'Iterator.remove', 'Iterator.next', 'Iterator.get', 'Iterator.has_next')],
                  rnd=0, secs=60, loops=remove_loops())]
