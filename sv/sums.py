"""Measures that are sums: any number of works and of workers of a work."""
from . import env
env.z3path()
from .loops import Compr
from .pyvc import Ite, Unsupported, time_stub_exact
from .run import Proof
from .seq import SymSeq, _i, field
from .slots import T, field2

X = (time_stub_exact,)
BIG = 10 ** 6
RU = 'sampo/utilities/resource_usage.py:'
RM = 'sampo.utilities.resource_usage:'


class Model:
    def __init__(self, H, names):
        from sampo.schemas.resources import Worker
        self.n, self.len = H.int('works', 0), field(H, 'workers')
        self.dur, self.total, self.whole = field(H, 'duration'), field(H, 'total of a work'), field(H, 'total of the first works')
        self.count, self.price, self.sub = field2('number'), field2('price'), field2('total of the first workers')
        self.named = field2('counted')
        me = self

        class W:
            individual = True

            def __init__(s, k, j): s.k, s.j, s.count, s.cost_one_unit, s.name = k, j, me.count(k, j), me.price(k, j), Name(k, j)
            get_cost = Worker.get_cost

        class Work:
            individual = True

            def __init__(s, k):
                s.k, s.duration = k, T(me.dur(k))
                s.workers = SymSeq(me.len(k), lambda j: W(k, j), 'workers')
                s.workers.prefix = (lambda j: Ite(me.counted(k, j), me.value(k, j), 0), lambda n: me.total(k))
        self.works = SymSeq(self.n, Work, 'works')
        self.works.fact(lambda k: me.len(k) >= 0)
        self.works.prefix = (me.total, lambda n: me.whole(n))
        self.names = names

    def counted(self, k, j):
        return True if self.names is None else self.named(k, j) != 0

    def workers(self, k, j):
        return self.count(k, j) * self.dur(k)

    def cost(self, k, j):
        return self.price(k, j) * self.count(k, j) * self.dur(k)


class Name:
    """name of a kind; the only question asked about it is whether it is among those counted"""
    individual = True

    def __init__(self, k, j): self.k, self.j = k, j

    def __eq__(self, other): raise Unsupported('comparison of names')

    def __hash__(self): return 0


class Names:
    """names of the kinds that are counted"""

    def __init__(self, g): self.g = g

    def __contains__(self, name):
        return bool(self.g.named(name.k, name.j) != 0)

    def __iter__(self):
        raise Unsupported('order of names')


def measure(fn, value):
    def h(H):
        import sampo.utilities.resource_usage as ru
        if not H.symbolic:
            return
        from .pyvc import patched
        every = bool(H.bool('all kinds'))
        g = Model(H, None if every else True)
        g.value = getattr(g, value)

        class S:
            works = g.works
        with patched((ru, 'set', lambda x=(): x if isinstance(x, Names) else __import__('builtins').set(x))):
            r = getattr(ru, fn)(S(), None if every else Names(g))
        H.check(r == g.whole(g.n), 'the sum over the works and their workers of the kinds that are counted')
    h.__name__ = fn
    return h


def proofs():
    out = [Proof(f'{fn}/any number of works', measure(fn, v), [RU + fn], stubs=X, rnd=0, secs=30, loops=[Compr(RM + fn)])
           for fn, v in (('resources_sum', 'workers'), ('resources_costs_sum', 'cost'))]
    return out
