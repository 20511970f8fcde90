"""Nondeterministic random source, symbolic individuals and an independent feasibility oracle for the genetic operators."""
from . import env  # noqa: F401
import itertools
import random

import numpy as np

from .pyvc import And, Or, is_sym, ctx
from .npsym import SArr, SymInts


class Rnd(random.Random):
    """Contract of random.Random: every method returns an arbitrary value of the set its documentation names. `random()` is compared
    with probabilities only: it returns a value below or above `pb`."""

    def __init__(self, H, pb=0.5, name='r', max_hits=None):
        super().__init__(0)
        self.H, self.pb, self.nm, self.k, self.hits, self.max_hits = H, pb, name, 0, 0, max_hits

    def _n(self, what):
        self.k += 1
        return f'{self.nm}{self.k}_{what}'

    def random(self):
        if self.max_hits is not None and self.hits >= self.max_hits:
            return (1 + self.pb) / 2
        b = bool(self.H.bool(self._n('hit')))
        self.hits += b
        return self.pb / 2 if b else (1 + self.pb) / 2

    def getrandbits(self, k):
        return int(self.H.int(self._n('bits'), 0, 2 ** k - 1))

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def randrange(self, start, stop=None, step=1):
        return self.choice(range(start) if stop is None else range(start, stop, step))

    def randint(self, a, b):
        if not a <= b:
            raise ValueError(f'empty range in randrange({a}, {b + 1})')
        v = self.H.int(self._n('int'), int(a), int(b))
        return v if (is_sym(a) or is_sym(b)) else int(v)

    def choice(self, seq):
        if isinstance(seq, SymInts):
            return seq.element(self.H, self._n('choice'))
        if not len(seq):
            raise IndexError('Cannot choose from an empty sequence')
        return self.H.pick(self._n('choice'), list(seq))

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        if isinstance(population, SymInts):
            return [population.element(self.H, self._n('choice')) for _ in range(k)]
        if len(population) == 0:
            raise IndexError('list index out of range')
        if weights is not None and len(weights) != len(population):
            raise ValueError('The number of weights does not match the population')
        pop = [p for i, p in enumerate(population) if weights is None or weights[i] > 0]
        if not pop:
            raise ValueError('Total of weights must be greater than zero')
        return [self.H.pick(self._n('choice'), pop) for _ in range(k)]

    def sample(self, population, k, *, counts=None):
        n = len(population)
        if not 0 <= k <= n:
            raise ValueError('Sample larger than population or is negative')
        left, out = list(population), []
        for _ in range(k):
            out.append(left.pop(self.H.pick(self._n('sample'), list(range(len(left))))))
        return out

    def shuffle(self, x):
        vals = [x[i] for i in range(len(x))]
        for i in range(len(x)):
            x[i] = vals.pop(self.H.pick(self._n('shuffle'), list(range(len(vals)))))


def sarr(H, rows):
    """2-dimensional array of integers (symbolic elements in symbolic runs)"""
    if H.symbolic:
        return SArr.of(rows)
    return np.array([[int(x) for x in r] for r in rows], dtype=int)


def toolbox():
    from deap import base
    from sampo.scheduler.genetic import operators as o
    tb = base.Toolbox()
    o.register_individual_constructor((-1,), toolbox=tb)
    tb.register('copy_individual', o.copy_individual, toolbox=tb)
    return tb


def snapshot(ind):
    return [[x for x in np.asarray(ind[k], dtype=object).flat] for k in (0, 1, 2, 4)]


def linear_extensions(n, edges):
    for p in itertools.permutations(range(n)):
        pos = {v: i for i, v in enumerate(p)}
        if all(pos[a] < pos[b] for a, b in edges):
            yield p


# ---- oracle on real scenarios --------------------------------------------------------------------------------------

def heads(wg):
    """chain heads and the relations between them, recomputed from the edges"""
    head = {}
    for v in wg.nodes:
        x = v
        while x.inseparable_parent is not None:
            x = x.inseparable_parent
        head[v.id] = x
    hs = [v for v in wg.nodes if head[v.id] is v]
    par = {v.id: set() for v in hs}
    for v in wg.nodes:
        for e in v.edges_to:
            a, b = head[e.start.id], head[v.id]
            if a is not b:
                par[b.id].add(a.id)
    return hs, par


def order_problems(order, ids, par, prio):
    """order: ids in order"""
    if sorted(order) != sorted(ids):
        return [('permutation', f'{list(order)} is not a permutation of the {len(ids)} works')]
    pos = {x: i for i, x in enumerate(order)}
    out = []
    for v in ids:
        for p in par[v]:
            if pos[p] > pos[v]:
                out.append(('precedence', f'{v} comes before its predecessor {p} in {list(order)}'))
    ps = [prio[x] for x in order]
    if ps != sorted(ps):
        out.append(('priority', f'priorities in order: {ps}'))
    return out


def feasible(ind, tb, scn, work_ids, kinds, cids, base_spec=None):
    """work_ids: work id per index; kinds: worker kind per column; cids: contractor id per index"""
    out = []
    hs, par = heads(scn.wg)
    by = {v.id: v for v in hs}
    order = [work_ids[int(i)] for i in ind[0]]
    out += order_problems(order, list(by), par, {v.id: v.work_unit.priority for v in hs})
    if out:
        return out
    cs = {c.id: c for c in scn.contractors}
    cap = {(c.id, w.name): w.count for c in scn.contractors for w in c.workers.values()}
    spec = (base_spec or scn.spec)._work2spec
    for i, wid in enumerate(work_ids):
        row = ind[1][i]
        c = int(row[-1])
        if not 0 <= c < len(cids):
            out.append(('contractor', f'{wid}: contractor index {c}'))
            continue
        ws = spec.get(wid)
        if ws is not None and ws.contractors and cids[c] not in ws.contractors:
            out.append(('contractor', f'{wid}: contractor {cids[c]} is not allowed ({sorted(ws.contractors)})'))
        reqs = {q.kind: q for q in by[wid].work_unit.worker_reqs}
        for k, kind in enumerate(kinds):
            v = int(row[k])
            q = reqs.get(kind)
            if q is None:
                if v:
                    out.append(('counts', f'{wid}: {v} {kind} not required'))
                continue
            fixed = ws.assigned_workers.get(kind) if ws is not None else None
            if fixed:
                if v != fixed:
                    out.append(('counts', f'{wid}: {v} {kind}, the specification assigns {fixed}'))
            elif not q.min_count <= v <= q.max_count:
                out.append(('counts', f'{wid}: {v} {kind}, allowed {q.min_count}..{q.max_count}'))
            if v > int(ind[2][c][k]):
                out.append(('limits', f'{wid}: {v} {kind}, the limit of contractor {cids[c]} is {ind[2][c][k]}'))
    for c, cid in enumerate(cids):
        for k, kind in enumerate(kinds):
            if not 0 <= int(ind[2][c][k]) <= cap.get((cid, kind), 0):
                out.append(('borders', f'limit {ind[2][c][k]} {kind} of {cid}, who has {cap.get((cid, kind), 0)}'))
    return out
