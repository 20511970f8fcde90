"""C25 landscape routes are real and shortest."""
import itertools
import random
from sv import floyd
from sv.pyvc import And, Ite, Or, Not, Implies, Min, time_stub_exact
from sv.run import Check, Proof, Sweep, Case

X = (time_stub_exact,)
BIG = 10 ** 6
INF = float('inf')


def _land(n, roads):
    """n land nodes; roads: list of (i, j, length)"""
    from sampo.schemas.landscape import LandscapeConfiguration, ResourceHolder
    from sampo.schemas.landscape_graph import LandGraph, LandGraphNode, ResourceStorageUnit
    nodes = [LandGraphNode(f'land{(5 * i + 2) % 11}', f'p{i}', ResourceStorageUnit({})) for i in range(n)]
    ids = []
    for i, j, w in roads:
        nodes[i].add_neighbours((nodes[j], w, 1))
        ids.append(nodes[i]._roads[-1].id)
    lg = LandGraph(nodes)
    return nodes, ids, lg, lambda hs: LandscapeConfiguration([ResourceHolder('h' + nodes[k].id, 'h', [], nodes[k]) for k in hs], lg)


def walks(n, roads, use, a, b):
    """all simple paths from a to b over the roads `use` (indices): lists of road indices"""
    out = []

    def go(v, seen, path):
        if v == b:
            out.append(list(path))
            return
        for k in use:
            i, j, _ = roads[k]
            if v in (i, j):
                u = j if v == i else i
                if u not in seen:
                    go(u, seen | {u}, path + [k])
    go(a, {a}, [])
    return out


def lengths(roads, ps):
    out = []
    for p in ps:
        s = 0
        for k in p:
            s = s + roads[k][2]
        out.append(s)
    return out


def _topologies(n, parallel):
    pairs = [(i, j) for j in range(n) for i in range(j)]
    out = []
    for bits in itertools.product([0, 1] + ([2] if parallel else []), repeat=len(pairs)):
        es = [p for p, b in zip(pairs, bits) for _ in range(b)]
        if {x for e in es for x in e} == set(range(n)) and sum(b == 2 for b in bits) < 2 and (n < 4 or len(es) <= 4):
            out.append(es)
    return out


def table(n, parallel):
    tops = _topologies(n, parallel)

    def h(H):
        es = H.pick('roads', tops)
        roads = [(i, j, H.int(f'w{k}', 0, BIG, rhi=7)) for k, (i, j) in enumerate(es)]
        nodes, ids, lg, conf = _land(n, roads)
        ls = conf([0])
        for a in range(n):
            for b in range(n):
                if a == b:
                    continue
                ps = lengths(roads, walks(n, roads, range(len(roads)), a, b))
                d = ls.dist_mx[a][b]
                if not ps:
                    H.check(not H_lt_inf(d), 'infinite distance exactly when no route exists')
                else:
                    H.check(H_lt_inf(d), 'infinite distance exactly when no route exists')
                    H.check(H.eq(d, Min(*ps)), 'the distance is that of the shortest way')
        got = list(ls.get_sorted_holders(nodes[n - 1]))
        ps = lengths(roads, walks(n, roads, range(len(roads)), n - 1, 0))
        H.check(len(got) == (1 if ps else 0) and (not ps or H.eq(got[0][0], Min(*ps))), 'holders are listed with their distance')
    h.__name__ = f'table{n}'
    return h


def H_lt_inf(d):
    return not (type(d) is float and d == INF) and not (hasattr(d, 'dtype') and d == INF)


def route(n, parallel, free=False):
    tops = _topologies(n, parallel)
    if n == 4:
        tops = [[(1, 0), (2, 0), (3, 1), (3, 2)], [(1, 0), (2, 1), (3, 2), (3, 0), (2, 0)]]

    def h(H):
        es = H.pick('roads', tops)
        roads = [(i, j, H.int(f'w{k}', 0, BIG, rhi=6)) for k, (i, j) in enumerate(es)]
        nodes, ids, lg, conf = _land(n, roads)
        ls = conf([])
        if n < 4:
            use = [k for k in range(len(roads)) if H.pick(f'open{k}', [True, False])]
        else:
            shut = H.pick('shut', [None] + (list(range(len(roads))) if len(es) == 4 else []))
            use = [k for k in range(len(roads)) if k != shut]
        a, b = H.pick('ends', [(0, n - 1)] if H.symbolic and n > 2 else [(x, y) for x in range(n) for y in range(n) if x != y])
        by = {r.id: r for r in ls.roads}
        got = ls.construct_route(nodes[a], nodes[b], [by[ids[k]] for k in use])
        ps = lengths(roads, walks(n, roads, use, a, b))
        H.check(bool(got) == bool(ps), 'empty exactly when no route exists')
        if not got:
            return
        H.check(all(x in ids and ids.index(x) in use for x in got), 'only available roads')
        v, tot = a, 0
        for x in got:
            i, j, w = roads[ids.index(x)]
            H.check(v in (i, j), 'the roads are connected')
            v = j if v == i else i
            tot = tot + w
        H.check(v == b, 'the route ends at the destination')
        H.check(H.eq(tot, Min(*ps)), 'the route has the smallest total length')
    h.__name__ = f'route{n}'
    return h


def holders(n):
    def h(H):
        """star around the last node: holders are sorted by distance"""
        w = [H.int(f'w{i}', 0, BIG, rhi=9) for i in range(n)]
        nodes, ids, lg, conf = _land(n + 1, [(i, n, w[i]) for i in range(n)])
        ls = conf(range(n))
        got = list(ls.get_sorted_holders(nodes[n]))
        H.check(sorted(x[1] for x in got) == sorted(nodes[i].id for i in range(n)), 'every reachable holder is listed once')
        H.check(H.all(H.eq(d, w[[v.id for v in nodes].index(i)]) for d, i in got), 'with its distance')
        H.check(H.all(x[0] <= y[0] for x, y in zip(got, got[1:])), 'nearest first')
    h.__name__ = f'holders{n}'
    return h


def dijkstra(n, roads, use, a):
    best = [INF] * n
    best[a] = 0
    for _ in range(n):
        for k in use:
            i, j, w = roads[k]
            best[i] = min(best[i], best[j] + w)
            best[j] = min(best[j], best[i] + w)
    return best


def lands(seed, tier):
    r = random.Random(seed)
    n = r.randint(2, 9)
    roads = [(i, r.randrange(i), 0) for i in range(1, n) if r.random() < .9]
    for _ in range(r.randint(0, 2 * n)):
        i, j = r.sample(range(n), 2)
        roads.append((i, j, 0))
    for i in range(n):
        if not any(i in e[:2] for e in roads):
            roads.append((i, r.choice([j for j in range(n) if j != i]), 0))
    r.shuffle(roads)
    mode = r.choice(['int', 'small', 'float', 'zero'])
    wt = dict(int=lambda: r.randint(1, 50), small=lambda: r.randint(1, 3), float=lambda: r.choice([.5, .25, 1.75, 12.5, 3]),
              zero=lambda: r.choice([0, 1, 2, 5]))[mode]
    roads = [(i, j, wt()) for i, j, _ in roads]
    nodes, ids, lg, conf = _land(n, roads)
    hs = sorted(r.sample(range(n), r.randint(0, n)))
    ls = conf(hs)
    out = []
    allr = range(len(roads))
    if True:
        for a in range(n):
            want = dijkstra(n, roads, allr, a)
            for b in range(n):
                if a != b and abs(float(ls.dist_mx[a][b]) - want[b]) > 1e-9 and not (want[b] == INF == ls.dist_mx[a][b]):
                    out.append(('distance', f'{a}->{b}: {ls.dist_mx[a][b]}, shortest is {want[b]}; roads {roads}'))
            got = list(ls.get_sorted_holders(nodes[a]))
            if [x[0] for x in got] != sorted(x[0] for x in got) or \
                    {x[1] for x in got} - {nodes[a].id} != {nodes[k].id for k in hs if k != a and want[k] < INF}:
                out.append(('holders', f'holders of {a}: {got}'))
    by = {x.id: x for x in ls.roads}
    if set(by) != set(ids):
        out.append(('roads', 'roads of the landscape are not those of the land graph'))
    for _ in range(6):
        use = [k for k in allr if r.random() < r.choice([.4, .8, 1])]
        a, b = r.sample(range(n), 2)
        got = ls.construct_route(nodes[a], nodes[b], [by[ids[k]] for k in use])
        want = dijkstra(n, roads, use, a)[b]
        if not got:
            if want < INF:
                out.append(('empty', f'no route {a}->{b} although one of length {want} exists; roads {roads} open {use}'))
            continue
        v, tot = a, 0
        for x in got:
            if x not in ids or ids.index(x) not in use:
                out.append(('unavailable', f'road {x} is not available'))
                break
            i, j, w = roads[ids.index(x)]
            if v not in (i, j):
                out.append(('connected', f'{a}->{b}: roads are not connected'))
                break
            v, tot = (j if v == i else i), tot + w
        else:
            if v != b:
                out.append(('end', f'{a}->{b}: ends at {v}'))
            elif abs(tot - want) > 1e-9:
                out.append(('shortest', f'{a}->{b}: length {tot}, shortest is {want}; roads {roads} open {use}'))
    return Case(out[:3], n > 3, str(seed))


L = 'sampo/schemas/landscape.py:LandscapeConfiguration.'
G = 'sampo/schemas/landscape_graph.py:LandGraph.'
PROOFS = []
for _n, _p in ((2, True), (3, True), (4, False)):
    b = f'all road networks of {_n} land nodes' + (', up to two roads between two nodes' if _p else '') + ', any lengths'
    PROOFS.append(Proof(f'distances/{_n}', table(_n, _p), [L + '_build_routes', G + '_to_adj_matrix', L + 'get_sorted_holders'],
                        stubs=X, kind='bounded', bound=b, secs=80, max_paths=40000, rnd=200))
for _n, _p in ((2, True), (3, True), (4, False)):
    PROOFS.append(Proof(f'routes/{_n}', route(_n, _p), [L + 'construct_route', L + '_dijkstra'], stubs=X, kind='bounded',
                        bound=f'{"all" if _n < 4 else "two"} road networks of {_n} land nodes, any lengths and availability',
                        secs=80, max_paths=40000, rnd=300))
PROOFS.append(Proof('holders/3', holders(3), [L + 'get_sorted_holders'], stubs=X, kind='bounded', bound='3 holders', rnd=100))
SWEEPS = [Sweep('random landscapes', lands, quick=300, thorough=10000,
                rule='random road networks with parallel roads, all distances and six routes each; non-trivial: more than 3 nodes')]
PROOFS += floyd.PROOFS
CHECK = Check('C25', 'bounded', proofs=PROOFS, sweeps=SWEEPS)
