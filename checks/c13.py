"""C13 work graphs and the merging of chains."""
import itertools
import random
from checks.c12 import _maps, _acyclic
from checks.c21 import _dags
from sv.pyvc import time_stub_exact
from sv.run import Check, Proof, Sweep, Case
from sv.scen import mk_wg

X = (time_stub_exact,)
DEP = ('FS', 'IFS', 'FFS')


def _node(i, vol=None, service=False):
    from sampo.schemas.graph import GraphNode
    from sampo.schemas.requirements import WorkerReq
    from sampo.schemas.time import Time
    from sampo.schemas.works import WorkUnit
    reqs = [] if vol is None else [WorkerReq(f'k{j}', Time(v), 1, 2) for j, v in enumerate(vol)]
    return GraphNode(WorkUnit(i, i, reqs, is_service_unit=service), [])


def views(nodes, edges):
    """disagreements between the views of the nodes and the list of edges [(start, finish, lag, kind)] in order of insertion"""
    out = []
    for v in nodes:
        to = [(a.id, lag, k) for a, b, lag, k in edges if b is v]
        frm = [(b.id, lag, k) for a, b, lag, k in edges if a is v]
        if sorted((e.start.id, e.lag, e.type.value) for e in v.edges_to) != sorted(to) \
                or any(e.finish is not v for e in v.edges_to):
            out.append(('edges', f'incoming links of {v.id}: {[(e.start.id, e.lag, e.type.value) for e in v.edges_to]}, added {to}'))
        if sorted((e.finish.id, e.lag, e.type.value) for e in v.edges_from) != sorted(frm) \
                or any(e.start is not v for e in v.edges_from):
            out.append(('edges', f'outgoing links of {v.id}: {[(e.finish.id, e.lag, e.type.value) for e in v.edges_from]}, added {frm}'))
        ps = sorted(i for i, _, k in to if k in DEP)
        cs = sorted(i for i, _, k in frm if k in DEP)
        if sorted(p.id for p in v.parents) != ps or {p.id for p in v.parents_set} != set(ps):
            out.append(('parents', f'predecessors of {v.id}: {[p.id for p in v.parents]}, by links {ps}'))
        if sorted(p.id for p in v.children) != cs or {p.id for p in v.children_set} != set(cs):
            out.append(('children', f'successors of {v.id}: {[p.id for p in v.children]}, by links {cs}'))
        if sorted(p.id for p in v.neighbors) != sorted(i for i, _, k in to if k == 'SS'):
            out.append(('neighbours', f'start-start neighbours of {v.id}: {[p.id for p in v.neighbors]}'))
        ip = [i for i, _, k in to if k == 'IFS']
        ic = [i for i, _, k in frm if k == 'IFS']
        if (v.inseparable_parent.id if v.inseparable_parent is not None else None) != (ip[0] if ip else None) \
                or v.is_inseparable_son() != bool(ip):
            out.append(('chain', f'chain predecessor of {v.id}: {v.inseparable_parent}, by links {ip}'))
        if (v.inseparable_son.id if v.inseparable_son is not None else None) != (ic[0] if ic else None) \
                or v.is_inseparable_parent() != bool(ic):
            out.append(('chain', f'chain successor of {v.id}: {v.inseparable_son}, by links {ic}'))
    son = {a.id: b for a, b, _, k in edges if k == 'IFS'}
    dad = {b.id for a, b, _, k in edges if k == 'IFS'}
    for v in nodes:
        ch = [v]
        while v.id not in dad and ch[-1].id in son:
            ch.append(son[ch[-1].id])
        if v.id not in dad and [x.id for x in v.get_inseparable_chain_with_self()] != [x.id for x in ch]:
            out.append(('chain', f'chain of {v.id}: {v.get_inseparable_chain_with_self()}, by links {[x.id for x in ch]}'))
        got = v.get_inseparable_chain()
        if (got is None) != (len(ch) == 1) or got and [x.id for x in got] != [x.id for x in ch]:
            out.append(('chain', f'chain of {v.id}: {got}, by links {[x.id for x in ch]}'))
    return out


def tables(wg, edges, weights=True):
    """disagreements between the tables of a graph and its links"""
    out, reach, todo = [], {wg.start.id: wg.start}, [wg.start]
    while todo:
        v = todo.pop()
        for a, b, _, _ in edges:
            if a is v and b.id not in reach:
                reach[b.id] = b
                todo.append(b)
    ids = [v.id for v in wg.nodes]
    if sorted(ids) != sorted(reach):
        return [('listing', f'listed {sorted(ids)}, reachable {sorted(reach)}')]
    pos = {x: i for i, x in enumerate(ids)}
    if any(pos[a.id] >= pos[b.id] for a, b, _, _ in edges if a.id in pos):
        out.append(('order', f'{ids} is not a predecessors-first order'))
    if ids[0] != wg.start.id or ids[-1] != wg.finish.id:
        out.append(('ends', f'{ids} does not begin with {wg.start.id} and end with {wg.finish.id}'))
    if wg.vertex_count != len(reach):
        out.append(('count', f'{wg.vertex_count} works counted, {len(reach)} are there'))
    if set(wg.dict_nodes) != set(reach) or any(wg.dict_nodes[x] is not reach[x] or wg[x] is not reach[x] for x in reach):
        out.append(('lookup', 'the lookup table does not agree with the works'))
    if not weights:
        return out
    m = wg.adj_matrix
    if m.shape != (len(ids), len(ids)):
        out.append(('adjacency', f'shape {m.shape} for {len(ids)} works'))
    else:
        dep = {(pos[a.id], pos[b.id]) for a, b, _, k in edges if k in DEP and a.id in pos}
        for i, v in enumerate(wg.nodes):
            big = max([float(int(q.volume)) for q in v.work_unit.worker_reqs], default=1e-6)
            for j in range(len(ids)):
                x = m[i, j]
                if ((i, j) in dep and (abs(x - big) >= 1 or big > 0 and x <= 0)) or ((i, j) not in dep and x != 0):
                    out.append(('adjacency', f'weight {x} from {ids[i]} to {ids[j]} (link: {(i, j) in dep}, greatest volume {big})'))
    return out


_WORDS = dict(edges='links are exactly the added ones', parents='predecessors agree with the links', children='successors agree with the links',
              neighbours='start-start neighbours agree with the links', chain='chains agree with the links',
              listing='exactly the reachable works are listed, once', order='predecessors are listed first',
              ends='start is listed first and finish last', count='the count of works', lookup='lookup tables agree with the works',
              adjacency='adjacency agrees with the links')


def _agree(H, bad, label):
    for tag, what in bad:
        H.check(False, _WORDS[tag])
    H.check(True, label)


def _link(nodes, rows):
    """add links (grouped by finish, as constructors do); returns the list of links"""
    from sampo.schemas.graph import EdgeType
    edges = []
    for b, ps in itertools.groupby(rows, key=lambda r: r[1]):
        ps = list(ps)
        nodes[b].add_parents([(nodes[a], lag, EdgeType(k)) for a, _, lag, k in ps])
        edges += [(nodes[a], nodes[b], lag, k) for a, _, lag, k in ps]
    return edges


def building(n):
    """all graphs of n works, any kinds of links: start, finish, listing and tables"""
    dags = list(_dags(n))

    def h(H):
        from sampo.schemas.graph import WorkGraph
        es = H.pick('edges', dags)
        vol = [H.pick(f'vol{i}', [None, (7,), (3, 40000)] if i == 0 else [(2,)]) for i in range(n)]
        nodes = [_node(f'm{(7 * i + 3) % 10}', vol[i]) for i in range(n)]
        kinds = ['FS', 'IFS', 'FFS', 'SS', 'FF'] if len(es) < 3 else ['FS', 'IFS', 'SS']
        ks = [H.pick(f'kind{a}{b}', kinds) for a, b in es]
        H.assume(all(sum(1 for (a, b), k in zip(es, ks) if k == 'IFS' and a == x) < 2
                     and sum(1 for (a, b), k in zip(es, ks) if k == 'IFS' and b == x) < 2 for x in range(n)))
        edges = _link(nodes, sorted([(a, b, 0 if k in ('FS', 'IFS') else 2, k) for (a, b), k in zip(es, ks)], key=lambda r: r[1]))
        if H.pick('read first', [False, True]):
            _agree(H, views(nodes, edges), 'views agree with the links')
        given = list(nodes)
        if H.pick('reversed', [False, True]):
            given.reverse()
        wg = WorkGraph.from_nodes(given)
        full = list(edges)
        full += [(wg.start, v, 0, 'FS') for v in nodes if not any(b is v and k in DEP for _, b, _, k in edges)]
        full += [(v, wg.finish, 0, 'FS') for v in nodes if not any(a is v and k in DEP for a, _, _, k in edges)]
        _agree(H, views(nodes + [wg.start, wg.finish], full), 'start and finish are linked exactly to the works without predecessors / successors')
        _agree(H, tables(wg, full), 'the tables of the graph agree with its links')
    h.__name__ = f'building{n}'
    return h


def history(steps):
    """links added one after another with views read in between"""
    def h(H):
        from sampo.schemas.graph import EdgeType
        nodes = [_node(x) for x in ('b', 'a', 'c')]
        edges, fresh = [], True
        for s in range(steps):
            b = H.pick(f'to{s}', [1, 2] if steps < 3 else [2])
            a = H.pick(f'from{s}', range(b))
            k = H.pick(f'kind{s}', ['FS', 'IFS', 'SS', None] if steps < 3 else ['IFS', 'SS', None])
            H.assume(k != 'IFS' or not any(e[3] == 'IFS' and (e[0] is nodes[a] or e[1] is nodes[b]) for e in edges))
            if H.pick(f'read{s}', [True, False]):
                _agree(H, views(nodes, edges), 'views agree with the links at every moment')
            nodes[b].add_parents([nodes[a]] if k is None else [(nodes[a], s, EdgeType(k))])
            edges.append((nodes[a], nodes[b], 0, 'FS') if k is None else (nodes[a], nodes[b], s, k))
        _agree(H, views(nodes, edges), 'views agree with the links at every moment')
    h.__name__ = f'history{steps}'
    return h


def head_problems(nodes, got):
    order, par, chi = got
    heads, hpar, hchi = _maps(nodes)
    out = []
    if sorted(v.id for v in order) != sorted(v.id for v in heads) or any(all(v is not x for x in nodes) for v in order):
        out.append(('heads', f'{[v.id for v in order]} are not the heads {[v.id for v in heads]}'))
    pos = {v.id: i for i, v in enumerate(order)}
    for name, g, w in (('predecessors', par, hpar), ('successors', chi, hchi)):
        if {k: set(v) for k, v in g.items()} != w:
            out.append(('relations', f'{name} of heads: {g}, by links {w}'))
    if any(x not in pos or pos[x] >= pos[v] for v in pos for x in par.get(v, ())):
        out.append(('order', f'{[v.id for v in order]} is not a predecessors-first order'))
    return out


_WORDS |= dict(heads='exactly the first works of chains are heads', relations='head relations are exactly the links between different chains')


def heads(n):
    dags = list(_dags(n))

    def h(H):
        from sampo.schemas.graph import EdgeType
        from sampo.scheduler.utils import get_head_nodes_with_connections_mappings_nodes as f
        es = H.pick('edges', dags)
        opts = [()]
        for r in (1, 2, 3):
            opts += [c for c in itertools.combinations(es, r) if len({a for a, _ in c}) == r and len({b for _, b in c}) == r]
        ins = H.pick('chains', opts)
        nodes = [_node(f'm{(7 * i + 3) % 10}') for i in range(n)]
        side = H.pick('side', [None] + ([(0, n - 1)] if n > 1 and (0, n - 1) not in es else []))
        _link(nodes, sorted([(a, b, 0, 'IFS' if (a, b) in ins else 'FS') for a, b in es]
                            + ([(*side, 1, 'SS')] if side else []), key=lambda r: r[1]))
        ok, _, _ = _acyclic(nodes)
        H.assume(ok is not None)
        _agree(H, head_problems(nodes, f(list(nodes))), 'heads, their relations and their order')
    h.__name__ = f'heads{n}'
    return h


def graphs(seed, tier):
    """random graphs, read and extended"""
    from sampo.scheduler.utils import get_head_nodes_with_connections_mappings as f
    from sampo.schemas.graph import EdgeType
    r = random.Random(seed)
    wg = mk_wg(r, n=r.choice([3, 6, 12, 25]), kinds=r.randint(1, 4), p_edge=r.choice([0.1, 0.25, 0.45]),
               p_ins=r.choice([0, 0.2, 0.4]), ss_ff=r.random() < 0.5, vol=r.choice([(1, 40), (30000, 200000)]))

    def links():
        return [(e.start, e.finish, e.lag, e.type.value) for v in wg.nodes for e in v.edges_to]
    out = views(wg.nodes, links()) + tables(wg, links())
    had = {id(v): (list(v.edges_to), list(v.edges_from)) for v in wg.nodes}
    edges = links()
    for _ in range(r.randint(1, 6)):
        i = r.randrange(1, len(wg.nodes) - 1)
        j = r.randrange(i + 1, len(wg.nodes)) if r.random() < 0.8 else len(wg.nodes) - 1
        a, b = wg.nodes[i], wg.nodes[j]
        k = r.choice(['FS', 'FFS', 'SS', 'FF'])
        if r.random() < 0.3:
            b.add_parents([a])
            edges.append((a, b, 0, 'FS'))
        else:
            b.add_parents([(a, 3, EdgeType(k))])
            edges.append((a, b, 3, k))
        if r.random() < 0.5:
            out += views(wg.nodes, edges)
    out += views(wg.nodes, edges)
    wg.reinit()
    out += tables(wg, edges)
    if _acyclic(wg.nodes)[0] is not None:
        out += head_problems(wg.nodes, f(wg))
    return Case(out[:3], len(wg.nodes) > 4, str(seed), dict(seed=seed, works=len(wg.nodes)))


G = 'sampo/schemas/graph.py:'
PROOFS = []
for _k in (1, 2, 3):
    PROOFS.append(Proof(f'building/{_k}', building(_k), [G + x for x in ('GraphNode.add_parents', 'GraphNode.traverse_children',
                        'WorkGraph.from_nodes', 'WorkGraph.reinit', 'WorkGraph._to_adj_matrix', 'get_finish_stage', 'get_start_stage',
                        'GraphNode.parents', 'GraphNode.children', 'GraphNode.get_inseparable_chain_with_self')], stubs=X, kind='bounded',
                        bound=f'all graphs of {_k} works, all kinds of links, read before or not', secs=60, max_paths=20000, rnd=200))
for _k in (1, 2, 3):
    PROOFS.append(Proof(f'history/{_k}', history(_k), [G + x for x in ('GraphNode.add_parents', 'GraphNode.invalidate_parents_cache',
                        'GraphNode.invalidate_children_cache', 'GraphNode.get_inseparable_chain', 'GraphNode.inseparable_son',
                        'GraphNode.inseparable_parent', 'GraphNode.neighbors')], stubs=X, kind='bounded',
                        bound=f'all histories of {_k} link additions among three works', secs=60, max_paths=40000, rnd=200))
for _k in (1, 2, 3, 4):
    PROOFS.append(Proof(f'heads/{_k}', heads(_k), ['sampo/scheduler/utils/__init__.py:get_head_nodes_with_connections_mappings_nodes'], stubs=X,
                        kind='bounded', bound=f'all graphs of {_k} works with any chains', secs=60, max_paths=20000, rnd=200))
SWEEPS = [Sweep('graphs', graphs, quick=200, thorough=6000, rule='random graphs with later link additions; non-trivial: more than 4 works')]
CHECK = Check('C13', 'bounded', proofs=PROOFS, sweeps=SWEEPS,
              assumptions=['links form no cycle (also between chains), works have different identifiers, a work has at most one chain '
                           'predecessor and one chain successor, no two graphs share works'])
