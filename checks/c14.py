"""C14 graph editing."""
import random
from collections import Counter
from checks.c13 import views, tables
from checks.c21 import _dags
from sv.pyvc import time_stub_exact
from sv.run import Check, Proof, Sweep, Case

X = (time_stub_exact,)
DEP = ('FS', 'IFS', 'FFS')
ATTRS = ('model_name', 'worker_reqs', 'equipment_reqs', 'object_reqs', 'material_reqs', 'zone_reqs', 'description', 'group', 'priority',
         'is_service_unit', 'volume', 'display_name')
FIELDS = ('kind', 'volume', 'min_count', 'max_count', 'name', 'required_status', 'count', 'value')


def canon(x):
    if isinstance(x, (list, tuple)):
        return tuple(canon(y) for y in x)
    if isinstance(x, dict):
        return tuple(sorted((k, canon(v)) for k, v in x.items()))
    fs = [f for f in FIELDS if hasattr(x, f)] if not isinstance(x, (int, float, str, bool, type(None))) else []
    return tuple((f, canon(getattr(x, f))) for f in fs) if fs else x


def desc(wg):
    """contents of a graph by the names of its works: attributes and links"""
    works = {v.work_unit.display_name: {a: canon(getattr(v.work_unit, a)) for a in ATTRS} for v in wg.nodes}
    links = Counter((e.start.work_unit.display_name, v.work_unit.display_name, e.lag, e.type.value) for v in wg.nodes for e in v.edges_to)
    return works, links


def ids(wg):
    return {v.work_unit.display_name: v.id for v in wg.nodes}


def sound(wg):
    es = [(e.start, e.finish, e.lag, e.type.value) for v in wg.nodes for e in v.edges_to]
    return [('sound', w) for _, w in views(wg.nodes, es) + tables(wg, es)]


def differ(got, want, what):
    out = []
    (gw, gl), (ww, wl) = got, want
    if set(gw) != set(ww):
        out.append(('works', f'{what}: works {sorted(gw)}, expected {sorted(ww)}'))
    for x in set(gw) & set(ww):
        for a in ATTRS:
            if gw[x][a] != ww[x][a]:
                out.append(('attributes', f'{what}: {a} of {x} is {gw[x][a]}, expected {ww[x][a]}'))
    if gl != wl:
        out.append(('links', f'{what}: extra links {sorted((gl - wl).items(), key=str)}, missing links {sorted((wl - gl).items(), key=str)}'))
    return out


def order_of(links, names):
    """transitive precedence by dependency links"""
    succ = {n: set() for n in names}
    for a, b, _, k in links:
        if k in DEP:
            succ[a].add(b)
    out = set()
    for a in names:
        todo, seen = [a], set()
        while todo:
            for y in succ[todo.pop()]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        out |= {(a, b) for b in seen}
    return out


def unchanged(wg, before, before_ids, nodes):
    out = differ(desc(wg), before, 'the original after the edit')
    if ids(wg) != before_ids or [id(v) for v in wg.nodes] != nodes:
        out.append(('original', 'identifiers or works of the original changed'))
    return [('original', w) for _, w in out + sound(wg)]


def _ids_rule(new, old_ids, change, what, extra=()):
    out = []
    now = ids(new)
    if len(set(now.values())) != len(now):
        out.append(('ids', f'{what}: repeated identifiers'))
    for n, x in now.items():
        if n in old_ids and n not in extra:
            if not change and x != old_ids[n]:
                out.append(('ids', f'{what}: {n} was renamed although identifiers are to be kept'))
            if change and x in old_ids.values():
                out.append(('ids', f'{what}: {n} has an identifier of the original although new ones are asked for'))
    return out


def independent(new, wg):
    """a change of the requirements of the copy does not reach the original"""
    before = desc(wg)
    for v in new.nodes:
        for a in ATTRS:
            x = getattr(v.work_unit, a)
            if isinstance(x, list):
                x.append(0)
            elif isinstance(x, dict):
                x['added'] = 1
    bad = desc(wg) != before
    for v in new.nodes:
        for a in ATTRS:
            x = getattr(v.work_unit, a)
            if isinstance(x, list):
                x.pop()
            elif isinstance(x, dict):
                x.pop('added')
    return [('shared', 'the copy shares requirement lists with the original')] if bad else []


def do_copy(wg, excluded, change, simple):
    from sampo.schemas.graph import WorkGraph
    from sampo.structurator.prepare_wg_copy import prepare_work_graph_copy, new_start_finish
    from sampo.structurator.light_modifications import work_graph_ids_simplification
    works, links = desc(wg)
    old = ids(wg)
    if simple is not None:
        new = work_graph_ids_simplification(wg, simple)
        out = differ(desc(new), (works, links), 'copy with numeric ids')
        if sorted(ids(new).values()) != sorted(str(simple + i) for i in range(len(works))):
            out.append(('ids', f'numeric ids {sorted(ids(new).values())}'))
        return out + sound(new) + independent(new, wg)
    gone = {wg.dict_nodes[old[x]] for x in excluded}
    nodes, m = prepare_work_graph_copy(wg, list(gone), change_id=change) if gone else prepare_work_graph_copy(wg, change_id=change)
    back = {b: a for a, b in m.items()}
    out = []
    if set(m) != set(old.values()) - {v.id for v in gone} or set(m.values()) != set(nodes) or any(k != v.id for k, v in nodes.items()):
        out.append(('ids', 'the identifier table of the copy is wrong'))
    gw = {v.work_unit.display_name: {a: canon(getattr(v.work_unit, a)) for a in ATTRS} for v in nodes.values()}
    gl = Counter((e.start.work_unit.display_name, v.work_unit.display_name, e.lag, e.type.value) for v in nodes.values() for e in v.edges_to)
    want = ({k: v for k, v in works.items() if k not in excluded},
            Counter({k: c for k, c in links.items() if k[0] not in excluded and k[1] not in excluded}))
    out += differ((gw, gl), want, f'copy without {sorted(excluded)}')
    if any(wg.dict_nodes.get(back.get(v.id)) is None or wg.dict_nodes[back[v.id]].work_unit.display_name != v.work_unit.display_name
           for v in nodes.values()):
        out.append(('ids', 'the identifier table maps a work to another one'))
    if not gone:
        new = WorkGraph(*new_start_finish(wg, nodes, m))
        out += differ(desc(new), (works, links), 'copy') + sound(new) + _ids_rule(new, old, change, 'copy') + independent(new, wg)
    return out


def do_delete(wg, name, change):
    from sampo.structurator.delete_graph_node import delete_graph_node
    works, links = desc(wg)
    old = ids(wg)
    v = wg.dict_nodes[old[name]]
    while v.inseparable_parent is not None:
        v = v.inseparable_parent
    gone = {c.work_unit.display_name for c in v.get_inseparable_chain_with_self()}
    new = delete_graph_node(wg, old[name], change_id=change)
    gw, gl = desc(new)
    what = f'after deleting {sorted(gone)}'
    rest = {k: x for k, x in works.items() if k not in gone}
    kept = Counter({k: c for k, c in links.items() if k[0] not in gone and k[1] not in gone})
    out = differ((gw, Counter()), (rest, Counter()), what)
    if kept - gl:
        out.append(('links', f'{what}: lost links {list((kept - gl).items())}'))
    if set(gw) == set(rest):
        was = {(a, b) for a, b in order_of(links, works) if a not in gone and b not in gone}
        now = order_of(gl, gw)
        if now != was:
            out.append(('ordering', f'{what}: lost orderings {sorted(was - now)}, invented {sorted(now - was)}'))
        extra = [k for k in gl - kept if k[3] != 'FS' or k[2] != 0]
        if extra:
            out.append(('links', f'{what}: unexpected links {extra}'))
    return new, out + sound(new) + _ids_rule(new, old, change, what)


def do_insert(wg, name, parents, children, change):
    """parents / children: names or (name, lag, kind)"""
    from sampo.schemas.graph import EdgeType
    from sampo.schemas.time import Time
    from sampo.schemas.requirements import WorkerReq
    from sampo.schemas.works import WorkUnit
    from sampo.structurator.insert_wu import insert_work_unit
    works, links = desc(wg)
    old = ids(wg)

    def side(xs):
        return [wg.dict_nodes[old[x]] if isinstance(x, str) else (wg.dict_nodes[old[x[0]]], x[1], EdgeType(x[2])) for x in xs]
    wu = WorkUnit('id' + name, name, [WorkerReq('k', Time(4), 1, 2)], description='new', priority=3, volume=2)
    new = insert_work_unit(wg, wu, side(parents), side(children), change_id=change)
    want = Counter(links)
    for x in parents:
        want[(x, name, 0, 'FS') if isinstance(x, str) else (x[0], name, x[1], x[2])] += 1
    for x in children:
        want[(name, x, 0, 'FS') if isinstance(x, str) else (name, x[0], x[1], x[2])] += 1
    exp = dict(works)
    exp[name] = {a: canon(getattr(wu, a)) for a in ATTRS}
    return new, differ(desc(new), (exp, want), f'after inserting {name}') + sound(new) + _ids_rule(new, old, change, 'insertion', {name})


def do_join(wg, a, b, slave, change):
    from sampo.structurator.graph_insertion import graph_in_graph_insertion
    works, links = desc(wg)
    sw, sl = desc(slave)
    s0, s1 = slave.start.work_unit.display_name, slave.finish.work_unit.display_name
    old, sold = ids(wg), ids(slave)
    new = graph_in_graph_insertion(wg, wg.dict_nodes[old[a]], wg.dict_nodes[old[b]], slave, change_id=change)
    want = Counter(links)
    for (x, y, lag, k), c in sl.items():
        want[(a if x == s0 else x, b if y == s1 else y, lag, k)] += c
    exp = dict(works)
    exp.update({k: v for k, v in sw.items() if k not in (s0, s1)})
    out = differ(desc(new), (exp, want), f'after inserting a graph between {a} and {b}')
    return new, out + sound(new) + _ids_rule(new, {**old, **{k: v for k, v in sold.items() if k not in (s0, s1)}}, change, 'graph insertion')


_SAY = dict(works='exactly the expected works', attributes='requirements and attributes are intact', links='exactly the expected links',
            sound='the new graph is consistent', original='the original graph is unchanged', ids='identifiers as asked for',
            ordering='orderings between the other works are kept', shared='requirements of the copy are its own')


def _agree(H, bad, label):
    for tag, what in bad:
        H.check(False, _SAY[tag])
    H.check(True, label)


def _graph(H, n, es, kinds, tag='', names=None):
    from sampo.schemas.graph import GraphNode, WorkGraph, EdgeType
    from sampo.schemas.requirements import WorkerReq, MaterialReq, ZoneReq, ConstructionObjectReq, EquipmentReq
    from sampo.schemas.time import Time
    from sampo.schemas.works import WorkUnit
    ks = [H.pick(f'kind{tag}{a}{b}', kinds) for a, b in es]
    H.assume(all(sum(1 for (a, b), k in zip(es, ks) if k == 'IFS' and a == x) < 2
                 and sum(1 for (a, b), k in zip(es, ks) if k == 'IFS' and b == x) < 2 for x in range(n)))
    start = GraphNode(WorkUnit(tag + 's', tag + 'start', is_service_unit=True), [])
    nodes, dep_out, dep_in = [], set(), set()
    for j in range(n):
        name = tag + 'ABCD'[j]
        wu = WorkUnit(f'{tag}m{(7 * j + 3) % 10}', {'granular_name': name, 'measurement': f'u{j}', 'deep': [j]},
                      [WorkerReq('k', Time(3 + j), 1, 2 + j), WorkerReq('l', Time(2), 0, 1)][:1 + j % 2],
                      [EquipmentReq('crane', j)] if j == 1 else [], [MaterialReq('m', 5 + j)] if j != 1 else [],
                      [ConstructionObjectReq('road', j)] if j == 0 else [], [ZoneReq('z', 1 + j)] if j == 0 else [],
                      description=f'about {j}', group=f'g{j}', priority=1 + j, volume=1.5 + j, display_name=name)
        ps = []
        for (a, b), k in zip(es, ks):
            if b == j:
                ps.append((nodes[a], 0 if k in ('FS', 'IFS') else a + 2, EdgeType(k)))
                if k in DEP:
                    dep_out.add(a)
                    dep_in.add(b)
        if j not in dep_in:
            ps.append((start, 0, EdgeType.FinishStart))
        nodes.append(GraphNode(wu, ps))
    fin = GraphNode(WorkUnit(tag + 'f', tag + 'finish', is_service_unit=True, priority=9),
                    [(nodes[j], 2 if j == 0 else 0, EdgeType.LagFinishStart if j == 0 else EdgeType.FinishStart)
                     for j in range(n) if j not in dep_out])
    return WorkGraph(start, fin)


def _kinds(es):
    return ['FS', 'IFS', 'SS', 'FFS'] if len(es) < 2 else ['FS', 'IFS', 'SS'] if len(es) < 3 else ['FS', 'IFS']


def copying(n):
    dags = list(_dags(n))

    def h(H):
        es = H.pick('edges', dags)
        wg = _graph(H, n, es, _kinds(es))
        was = desc(wg), ids(wg), [id(v) for v in wg.nodes]
        names = [x for x in was[0][0] if x not in ('start', 'finish')]
        how = H.pick('how', ['keep ids', 'new ids', 'part', 'numbers'])
        gone = [x for x in names + ['start', 'finish'] if H.pick('exclude ' + x, [False, True])] if how == 'part' else []
        H.assume(len(gone) < len(names) + 2)
        _agree(H, do_copy(wg, gone, how != 'keep ids', H.pick('offset', [0, 5]) if how == 'numbers' else None),
               'the copy has the same works, requirements and links')
        _agree(H, unchanged(wg, *was), 'the original graph is unchanged')
    h.__name__ = f'copying{n}'
    return h


def deleting(n):
    dags = list(_dags(n))

    def h(H):
        es = H.pick('edges', dags)
        wg = _graph(H, n, es, _kinds(es))
        was = desc(wg), ids(wg), [id(v) for v in wg.nodes]
        names = [x for x in was[0][0] if x not in ('start', 'finish')]
        new, bad = do_delete(wg, H.pick('delete', names), H.pick('new ids', [True, False]))
        _agree(H, bad, 'only the work is deleted and every ordering is kept')
        _agree(H, unchanged(wg, *was), 'the original graph is unchanged')
    h.__name__ = f'deleting{n}'
    return h


def inserting(n):
    dags = list(_dags(n))

    def h(H):
        es = H.pick('edges', dags)
        wg = _graph(H, n, es, ['FS', 'IFS'])
        was = desc(wg), ids(wg), [id(v) for v in wg.nodes]
        names = [v.work_unit.display_name for v in wg.nodes]
        i = H.pick('parent', range(len(names) - 1))
        j = H.pick('child', range(i + 1, len(names)))
        two = H.pick('second parent', [None] + [x for x in range(i)])
        form = H.pick('form', ['nodes', 'links'])
        ps = [names[i]] + ([names[two]] if two is not None else [])
        cs = [names[j]]
        if form == 'links':
            ps = [(x, 3, H.pick('kind in ' + x, ['FS', 'SS', 'FFS'])) for x in ps]
            cs = [(x, 0, H.pick('kind out ' + x, ['FS', 'FF'])) for x in cs]
            H.assume(any(k in DEP for _, _, k in ps))
        new, bad = do_insert(wg, 'NEW', ps, cs, H.pick('new ids', [True, False]))
        _agree(H, bad, 'the new work has exactly the requested links')
        _agree(H, unchanged(wg, *was), 'the original graph is unchanged')
    h.__name__ = f'inserting{n}'
    return h


def joining(n, m):
    dags, sdags = list(_dags(n)), list(_dags(m))

    def h(H):
        es, ss = H.pick('edges', dags), H.pick('slave edges', sdags)
        wg = _graph(H, n, es, ['FS', 'IFS'])
        slave = _graph(H, m, ss, ['FS', 'IFS', 'SS'], 'x')
        was = desc(wg), ids(wg), [id(v) for v in wg.nodes]
        swas = desc(slave), ids(slave), [id(v) for v in slave.nodes]
        names = [v.work_unit.display_name for v in wg.nodes]
        i = H.pick('from', range(len(names) - 1))
        j = H.pick('to', range(i + 1, len(names)))
        new, bad = do_join(wg, names[i], names[j], slave, H.pick('new ids', [True, False]))
        _agree(H, bad, 'both graphs are intact in the union')
        _agree(H, unchanged(wg, *was) + unchanged(slave, *swas), 'the original graphs are unchanged')
    h.__name__ = f'joining{n}{m}'
    return h


def edits(seed, tier):
    """random sequences of edits"""
    from sv.scen import mk_wg
    r = random.Random(seed)

    def fresh(tag, n):
        g = mk_wg(r, n=n, kinds=r.randint(1, 3), p_edge=r.choice([0.1, 0.25, 0.45]), p_ins=r.choice([0, 0.2, 0.4]), ss_ff=r.random() < 0.4,
                  frac_lags=r.random() < 0.3)
        for i, v in enumerate(g.nodes):
            v.work_unit.display_name = f'{tag}{i}'
            v.work_unit.description = f'd{i}'
            v.work_unit.priority = r.randint(1, 3)
        return g
    wg = fresh('w', r.choice([3, 6, 10]))
    out, log = [], []
    for step in range(r.randint(1, 5)):
        was = desc(wg), ids(wg), [id(v) for v in wg.nodes]
        names = [v.work_unit.display_name for v in wg.nodes]
        inner = [x for x in names if x not in (wg.start.work_unit.display_name, wg.finish.work_unit.display_name)]
        op = r.choice(['copy', 'delete', 'insert', 'join'])
        change = r.random() < 0.6
        new = None
        log.append(op)
        if op == 'copy':
            out += do_copy(wg, set(r.sample(inner, r.randint(0, len(inner)))) if r.random() < 0.5 else (), change,
                           r.choice([None, None, 0, 9]))
        elif op == 'delete' and len(inner) > 1 and not any(
                e.type.value not in DEP for v in wg.nodes for e in v.edges_to if not v.parents or not e.start.children):
            new, bad = do_delete(wg, r.choice(inner), change)
            out += bad
        elif op == 'insert':
            i = r.randrange(len(names) - 1)
            j = r.randrange(i + 1, len(names))
            ps, cs = {names[i]} | set(r.sample(names[:i], min(i, r.randint(0, 2)))), {names[j]} | set(r.sample(names[j:], min(len(names) - j, r.randint(0, 2))))
            ps, cs = sorted(ps), sorted(cs)
            if r.random() < 0.6:
                ps = [(x, r.choice([0, 1, 2.5]), r.choice(['FS', 'SS', 'FFS']) if q else 'FS') for q, x in enumerate(ps)]
                cs = [(x, r.choice([0, 1]), r.choice(['FS', 'FF']) if q else 'FS') for q, x in enumerate(cs)]
            new, bad = do_insert(wg, f'new{step}', ps, cs, change)
            out += bad
        elif op == 'join':
            slave = fresh(f's{step}_', r.choice([2, 4]))
            swas = desc(slave), ids(slave), [id(v) for v in slave.nodes]
            if set(ids(slave).values()) & set(ids(wg).values()) - {slave.start.id, slave.finish.id}:
                change = True
            i = r.randrange(len(names) - 1)
            j = r.randrange(i + 1, len(names))
            new, bad = do_join(wg, names[i], names[j], slave, change)
            out += bad + unchanged(slave, *swas)
        out += unchanged(wg, *was)
        if out:
            break
        if new is not None:
            wg = new
    return Case([(t, f'{log}: {w}') for t, w in out[:3]], len(log) > 1, str(seed), dict(seed=seed, edits=log))


S = 'sampo/structurator/'
CP = [S + 'prepare_wg_copy.py:' + x for x in ('copy_graph_node', 'restore_parents', 'prepare_work_graph_copy', 'new_start_finish')]
PROOFS = []
for _k in (1, 2, 3):
    PROOFS.append(Proof(f'copy/{_k}', copying(_k), CP + [S + 'light_modifications.py:work_graph_ids_simplification'], stubs=X, kind='bounded',
                        bound=f'all graphs of {_k} works, any kinds of links, any excluded part', secs=60, max_paths=20000, rnd=200))
for _k in (1, 2, 3):
    PROOFS.append(Proof(f'delete/{_k}', deleting(_k), CP + [S + 'delete_graph_node.py:' + x for x in ('delete_graph_node', '_node_deletion')],
                        stubs=X, kind='bounded', bound=f'all graphs of {_k} works, any kinds of links, any work', secs=60, max_paths=20000, rnd=200))
for _k in (1, 2):
    PROOFS.append(Proof(f'insert/{_k}', inserting(_k), CP + [S + 'insert_wu.py:' + x for x in ('insert_work_unit', '_new_edges', '_reduce_to_tuple_type')],
                        stubs=X, kind='bounded', bound=f'all graphs of {_k} works, any position, one or two predecessors', secs=60,
                        max_paths=20000, rnd=200))
for _k, _m in ((1, 1), (2, 1), (1, 2), (2, 2)):
    PROOFS.append(Proof(f'join/{_k}+{_m}', joining(_k, _m), CP + [S + 'graph_insertion.py:graph_in_graph_insertion'], stubs=X, kind='bounded',
                        bound=f'all graphs of {_k} works into which all graphs of {_m} works are inserted, any position', secs=60,
                        max_paths=20000, rnd=200))
SWEEPS = [Sweep('edits', edits, quick=200, thorough=6000, rule='random sequences of edits on random graphs; non-trivial: several edits')]
CHECK = Check('C14', 'bounded', proofs=PROOFS, sweeps=SWEEPS,
              assumptions=['deleted works are neither start nor finish; every work has a dependency predecessor and successor; inserted links make '
                           'no cycle; an inserted graph has works and no direct link from its start to its finish; kept identifiers do not clash'])
