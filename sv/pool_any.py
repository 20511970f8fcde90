"""The pool of workers of any number of contractors with any number of kinds."""
from . import env
env.z3path()
import z3
from .encode_any import Named
from .loops import Compr, Loop
from .pyvc import And, Implies, Ite, Not, SBool, SInt, Unsupported, _b, patched
from .run import Proof
from .seq import Mapped, SymSeq, _add, _i, _key, field, fresh_int
from .slots import field2

UM = 'sampo.scheduler.utils:'
U = 'sampo/scheduler/utils/__init__.py:'
F = 'get_worker_contractor_pool'
G = {}
NONE = -1


class Pool:
    """kind -> contractor -> worker: at(kind, contractor) is the place of the copied worker in the contractor's list, or NONE"""

    def __init__(self, at): self.at = at

    def __getitem__(self, kind): return Row(self, kind)

    def __setitem__(self, kind, row): raise Unsupported('a row of the pool')

    @staticmethod
    def fresh():
        f = z3.Function(f'pool{fresh_int("p").e}', z3.IntSort(), z3.IntSort(), z3.IntSort())
        return Pool(lambda a, b: SInt(f(_i(a).e, _i(b).e)))


class Row:
    def __init__(self, p, kind): self.p, self.kind = p, kind

    def setdefault(self, contractor, worker): raise Unsupported('setdefault')

    def __setitem__(self, contractor, worker):
        H = G['H']
        if not isinstance(worker, Copy):
            H.check(not isinstance(worker, Worker), 'the pool holds copies of the workers')
            raise Unsupported('what the pool holds')
        a, b, old = self.kind.at, contractor.at, self.p.at
        H.check(And(worker.c == b, worker.kind == a), 'a worker is put under its kind and contractor')
        self.p.at = lambda x, y: Ite(And(x == a, y == b), _i(worker.p), old(x, y))


class Worker:
    individual = True

    def __init__(self, c, p, kind): self.c, self.p, self.kind, self.name = c, p, kind, Named('kind', kind)

    def copy(self): return Copy(self)


class Copy:
    individual = True

    def __init__(self, w): self.c, self.p, self.kind = w.c, w.p, w.kind


def pool_any(H):
    import sampo.scheduler.utils as u
    if not H.symbolic:
        return
    G.clear()
    n, m, kind = H.int('contractors', 0), field(H, 'kinds of'), field2('kind')
    v = fresh_int('an arbitrary contractor', 0)
    _add(v < n)
    k, q, has = fresh_int('an arbitrary kind', 0), fresh_int('its place', 0), bool(H.bool('the contractor has the kind'))
    lists = {}

    def items(c):
        if _key(c) not in lists:
            s = lists[_key(c)] = SymSeq(m(c), lambda p: (Named('kind', kind(c, p)), Worker(c, p, kind(c, p))), 'workers')
            # a contractor has every kind once; the arbitrary kind is at place q of the arbitrary contractor, or nowhere
            s.fact(lambda p: Implies(c == v, (lambda: (kind(c, p) == k) == (p == q)) if has else (lambda: kind(c, p) != k)))
            if has:
                _add(Implies(c == v, lambda: q < m(c)))
        return lists[_key(c)]

    class Workers:
        def __init__(s, c): s.c = c

        def items(s): return items(s.c)

        def values(s):
            return Mapped(items(s.c), lambda x: x[1], 'workers')

        def keys(s):
            return Mapped(items(s.c), lambda x: x[0], 'kinds')

    class Contractor:
        individual = True

        def __init__(s, c): s.c, s.id, s.workers = c, Named('contractor', c), Workers(c)
    cs = SymSeq(n, Contractor, 'contractors')
    cs.fact(lambda c: m(c) >= 0)
    cs.touch(v)
    G.update(H=H, v=v, k=k, q=q, has=has)
    with patched((u, 'defaultdict', lambda make=None: Pool(lambda a, b: _i(NONE)))):
        r = getattr(u, F)(cs)
    if not isinstance(r, Pool):
        raise Unsupported('the kind of the result')
    got = r.at(k, v)
    if has:
        H.check(got == q, 'every kind of every contractor is in the pool')
    else:
        H.check(got == NONE, 'nothing else is in the pool')


def loops():
    t = UM + F

    def havoc(E): return Pool.fresh()

    def want(): return G['q'] if G['has'] else _i(NONE)

    def contractors(E):
        return [('of the contractors so far', E.worker_pool.at(G['k'], G['v']) == Ite(E.i > G['v'], want(), NONE))]

    def kinds(E):
        v, k = G['v'], G['k']
        old, mine = E.old.worker_pool.at(k, v), E.contractor.c == v
        part = And(G['has'], mine, G['q'] < E.i) if G['has'] else False
        return [('of the kinds so far', E.worker_pool.at(k, v) == Ite(part, want(), old))]
    return [Compr(t), Loop(t, 0, contractors, havoc={'worker_pool': havoc}), Loop(t, 1, kinds, havoc={'worker_pool': havoc})]


def proofs():
    return [Proof('pool of workers/any number of contractors', pool_any, [U + F], rnd=0, secs=40, loops=loops())]
