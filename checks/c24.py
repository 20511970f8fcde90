"""C24 imported tables become acyclic graphs."""
import itertools
import os
import random
import shutil
import tempfile
from collections import Counter
from sv.pyvc import time_stub_exact
from sv.run import Check, Proof, Sweep, Case

X = (time_stub_exact,)
KINDS = ('FS', 'SS', 'FF', 'FFS', 'IFS')


def reach(links, a, banned=()):
    out, todo = set(), [a]
    while todo:
        x = todo.pop()
        for u, v in links:
            if u == x and (u, v) not in banned and v not in out:
                out.add(v)
                todo.append(v)
    return out


def on_cycle(links):
    """links (pairs) that lie on a cycle of the given links"""
    return {(u, v) for u, v in set(links) if u in reach(links, v) or u == v}


def acyclic(links):
    return not on_cycle(links)


def lightest(links, weight, e, H):
    """some cycle through e on which no link is lighter than e"""
    u, v = e
    if u == v:
        return True
    ws = {p: [weight[i] for i, q in enumerate(links) if q == p] for p in set(links)}
    light = lambda p: H.any(w <= x for w in ws[e] for x in ws[p]) if len(ws[p]) == 1 else \
        H.all(H.any(w <= x for w in ws[e]) for x in ws[p])
    out = []

    def walk(x, seen, cond):
        if x == u:
            out.append(H.all(cond) if cond else True)
            return
        for p in set(links):
            if p[0] == x and p[1] not in seen:
                walk(p[1], seen | {p[1]}, cond + [light(p)])
    walk(v, {v}, [])
    return H.any(out) if out else False


def verdict(H, links, weight, kept):
    """obligations about the links that are kept; several links between the same nodes stay or go together"""
    ok = lambda c, what: H.check(c, what, dict(links=[str(x) for x in links], kept=[str(x) for x in kept]))
    ok(not Counter(kept) - Counter(links), 'no link is invented')
    ok(acyclic(kept), 'the result is acyclic')
    cyc = on_cycle(links)
    gone = sorted(set(links) - set(kept))
    ok(all(e in cyc for e in gone), 'only links that lie on a cycle are removed')
    ok(all(Counter(kept)[e] in (0, n) for e, n in Counter(links).items()), 'links between the same works are removed together')
    for e in gone:
        ok(lightest(links, weight, e, H), 'a removed link is the lightest link of a cycle')


def _pick_links(H, n, loops, lo, hi):
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j or loops]
    subsets = [c for k in range(lo, hi + 1) for c in itertools.combinations(pairs, k)]
    if loops:
        subsets = [c for c in subsets if sum(i == j for i, j in c) <= 1]
    if H.symbolic and n > 3:
        # up to renaming of the nodes; the order of insertion is chosen separately
        seen, out = set(), []
        for c in subsets:
            k = min(tuple(sorted((p[i], p[j]) for i, j in c)) for p in itertools.permutations(range(n)))
            if k not in seen:
                seen.add(k)
                out.append(c)
        subsets = out
    return list(subsets[H.pick('links', range(len(subsets)))])


def structure(n, lo, hi, loops=False, double=False, order=False):
    """the cycle eliminator on every small graph with any weights"""
    def h(H):
        from sampo.userinput.parser.general_build import Graph
        links = _pick_links(H, n, loops, lo, hi)
        if order:
            k = H.pick('order', range(6))
            links = [list(links), links[::-1], links[1:] + links[:1], links[::2] + links[1::2], sorted(links, key=lambda e: (e[1], e[0])),
                     sorted(links, key=lambda e: (-e[1], e[0]))][k]
        if double:
            links.append(links[H.pick('twice', range(len(links)))])
        weight = [H.int(f'weight{i}', 0, 10 ** 6, rhi=3) for i in range(len(links))]
        g = Graph()
        for (u, v), w in zip(links, weight):
            g.add_edge(f'n{u}', f'n{v}', w)
        g.eliminate_cycles()
        kept = [(int(u[1:]), int(v[1:])) for u, vs in g.graph.items() for v in vs]
        verdict(H, links, weight, kept)
    h.__name__ = f'cycles_{n}_{lo}_{hi}'
    return h


def frame(n, lo, hi):
    """the table form: links with kinds and lags, any weights"""
    def h(H):
        import pandas as pd
        from sampo.schemas.graph import EdgeType
        from sampo.userinput.parser.general_build import break_loops_in_input_graph
        links = _pick_links(H, n, False, lo, hi)
        weight = [H.int(f'weight{i}', 0, 10 ** 6, rhi=3) for i in range(len(links))]
        lag = [H.real(f'lag{i}', 0, 1000, rhi=9) for i in range(len(links))]
        rows = dict(activity_id=[f'n{i}' for i in range(n)], predecessor_ids=[], connection_types=[], lags=[], counts=[])
        for i in range(n):
            mine = [k for k, (u, v) in enumerate(links) if v == i]
            none = not mine and i % 2 == 0
            rows['predecessor_ids'].append([f'n{links[k][0]}' for k in mine] or (['-1'] if none else []))
            rows['connection_types'].append([EdgeType(KINDS[k % 5]) for k in mine] or ([EdgeType('FS')] if none else []))
            rows['lags'].append([lag[k] for k in mine] or ([0.0] if none else []))
            rows['counts'].append([weight[k] for k in mine] or ([1] if none else []))
        out = break_loops_in_input_graph(pd.DataFrame(rows))
        kept = []
        for i in range(n):
            row = out[out['activity_id'] == f'n{i}'].iloc[0]
            cells = [list(row[c]) for c in ('predecessor_ids', 'connection_types', 'lags')]
            if not H.check(len({len(c) for c in cells}) == 1, 'links, kinds and lags stay aligned', cells) and len({len(c) for c in cells}) > 1:
                return
            for p, kind, lg in zip(*cells):
                if p == '-1':
                    continue
                k = [j for j, e in enumerate(links) if e == (int(p[1:]), i)]
                if not k:
                    H.check(False, 'no link is invented', (p, i))
                    return
                H.check(kind.value == KINDS[k[0] % 5], 'kinds of the kept links are kept')
                H.check(H.eq(lg, lag[k[0]]), 'lags of the kept links are kept')
                kept.append(links[k[0]])
        H.check(len(out) == n, 'every work is kept')
        verdict(H, links, weight, kept)
    h.__name__ = f'frame_{n}'
    return h


# ---- random tables

class Dump:
    symbolic = False
    def __init__(self):
        self.bad = []
    def check(self, c, what, detail=None):
        if not c:
            self.bad.append((what.replace(' ', '-'), f'{what}: {detail}'))
        return bool(c)
    all, any = staticmethod(all), staticmethod(any)


def _ids(r, n):
    style = r.choice(['int', 'word', 'zero', 'gap', 'dot', 'mixed'])
    if style == 'int':
        return list(range(1, n + 1)), style
    if style == 'word':
        return [f'w{i}' for i in range(n)], style
    if style == 'zero':
        return [f'{i:03d}' for i in range(1, n + 1)], style
    if style == 'gap':
        return r.sample(range(100), n), style
    if style == 'dot':
        return [f'1.{i}' for i in range(1, n + 1)], style
    return [f'{i}' if r.random() < .5 else f'x{i}' for i in range(1, n + 1)], style


def table(r):
    """columns of a random works table and what it says"""
    n = r.choice([1, 2, 4, 7, 12])
    ids, style = _ids(r, n)
    sid = [str(i) for i in ids]
    order = r.sample(range(n), n)
    kinds = r.choice([KINDS, KINDS[:4]])
    cyc = r.choice([0, 0, .1, .4])
    p = r.choice([.1, .25, .5])
    listed = {}
    for b in range(n):
        for a in range(n):
            if a == b and r.random() > .03 or (order[a] > order[b] and r.random() > cyc) or r.random() > p:
                continue
            for _ in range(r.choice([1] * 9 + [2])):
                listed.setdefault(sid[b], []).append((sid[a], r.choice(kinds), r.choice([0.0, 1.0, 2.5, 7.0, 100.0])))
    for b in sid:
        if r.random() < .1:
            listed.setdefault(b, []).append(('unknown', 'FS', 1.0))
        r.shuffle(listed.get(b, []))
    no_kinds, no_lags, sep = r.random() < .15, r.random() < .15, r.choice([',', ',', ', '])
    empty = r.choice(['', float('nan')])
    want = {b: [(a, 'FS' if no_kinds else k, 0.0 if no_lags else g) for a, k, g in listed.get(b, [])] for b in sid}
    cols = dict(activity_id=ids, activity_name=[f'name {i}' for i in range(n)], granular_name=[f'g{i}' for i in range(n)],
                model_name=[str({'granular_name': f'g{i}', 'measurement': 'u'}) for i in range(n)])
    part = lambda f: [sep.join(f(x) for x in listed[b]) if b in listed else empty for b in sid]
    cols['predecessor_ids'] = part(lambda x: x[0])
    if not no_kinds:
        # a link without a kind is a finish-start link, a link without a lag has none
        cols['connection_types'] = part(lambda x: x[1])
    if not no_lags:
        num = lambda g: f'{g:g}' if r.random() < .5 else str(g)
        cols['lags'] = part(lambda x: num(x[2]))
    for b in sid:
        i = sid.index(b)
        for col, k, none in (('connection_types', 1, 'FS'), ('lags', 2, 0.0)):
            if col in cols and listed.get(b) and r.random() < .15:
                j = r.randrange(len(listed[b]))
                parts = cols[col][i].split(sep)
                parts[j] = ''
                cols[col][i] = sep.join(parts)
                want[b][j] = want[b][j][:k] + (none,) + want[b][j][k + 1:]
    vols = [r.choice([0.5, 3.0, 120.0, 7.25, round(r.uniform(0, 500), 3)]) for _ in range(n)]
    comma = r.random() < .2
    cols['volume'] = [str(v).replace('.', ',') for v in vols] if comma else vols
    attrs = {b: dict(volume=v, display_name=f'name {i}') for i, (b, v) in enumerate(zip(sid, vols))}
    if r.random() < .5:
        res = ['driver', 'fitter', 'manager', 'handyman', 'electrician', 'engineer']
        req = [{k: (r.randint(1, 4), r.randint(0, 5), r.randint(1, 90)) for k in r.sample(res, r.randint(0, 3))} for _ in range(n)]
        text = str if r.random() < .5 else (lambda d: d)
        cols['min_req'] = [text({k: a for k, (a, d, v) in q.items()}) for q in req]
        cols['max_req'] = [text({k: a + d for k, (a, d, v) in q.items()}) for q in req]
        cols['req_volume'] = [{k: v for k, (a, d, v) in q.items()} for q in req]
        for b, q in zip(sid, req):
            attrs[b]['reqs'] = sorted((k, v, a, a + d) for k, (a, d, v) in q.items())
    for col, val in (('priority', lambda: r.randint(0, 5)), ('group', lambda: r.choice('abc')), ('description', lambda: r.choice(['', 'text', 'текст'])),
                     ('required_statuses', lambda: str({r.choice('xyz'): r.randint(1, 3)} if r.random() < .5 else {}))):
        if r.random() < .4:
            cols[col] = [val() for _ in range(n)]
            for b, v in zip(sid, cols[col]):
                attrs[b][col] = v
    return cols, sid, want, attrs, style


def history(r, n):
    """dates of works with the given names on several sites"""
    rows = dict(granular_name=[], first_day=[], last_day=[], upper_works=[])
    for site in range(r.randint(1, 4)):
        for i in range(n):
            if r.random() < .6:
                s, d = r.randint(1, 20), r.randint(0, 8)
                rows['granular_name'].append(f'g{i}')
                rows['first_day'].append(f'2020-01-{s:02d}')
                rows['last_day'].append(f'2020-01-{s + d:02d}')
                rows['upper_works'].append(f'site{site}')
    return rows


def compare(wg, sid, want, attrs, allowed=()):
    """what the graph says against what the table says"""
    from checks.c13 import views, tables
    out = []
    nodes = {v.id: v for v in wg.nodes}
    mine = [v for v in wg.nodes if v.id in set(sid)]
    extra = [v for v in wg.nodes if v.id not in set(sid)]
    if sorted(v.id for v in mine) != sorted(sid) or len(extra) != 2 or wg.start not in extra or wg.finish not in extra:
        return [('works', f'works {sorted(map(str, nodes))}, the table has {sorted(sid)}')]
    for b in sid:
        w, a = nodes[b].work_unit, attrs[b]
        got = dict(volume=w.volume, display_name=w.display_name)
        if 'reqs' in a:
            got['reqs'] = sorted((q.kind, int(q.volume), q.min_count, q.max_count) for q in w.worker_reqs)
        for f in ('priority', 'group', 'description'):
            if f in a:
                got[f] = getattr(w, f)
        if 'required_statuses' in a:
            got['required_statuses'] = str({z.kind: z.required_status for z in w.zone_reqs})
        out += [('attribute', f'{f} of {b}: {got[f]!r}, the table says {a[f]!r}') for f in a if got[f] != a[f]]
        if w.is_service_unit != (not w.worker_reqs):
            out.append(('service', f'{b}: service {w.is_service_unit} with requirements {w.worker_reqs}'))
    links, kept, given = [], [], []
    table_links = {}
    for b in sid:
        ls = [x for x in want[b] if x[0] in nodes]
        table_links[b] = Counter(ls)
        links += [(a, b) for a, *_ in ls]
    for b in sid:
        got = Counter((e.start.id, e.type.value, float(e.lag)) for e in nodes[b].edges_to if e.start is not wg.start)
        more = got - table_links[b]
        bad = [x for x in more if (x[0], b) not in allowed]
        if bad:
            out.append(('invented', f'links {bad} to {b} are not in the table, which says {want[b]}'))
        kept += [(a, b) for a, *_ in (got - more).elements()]
        given += [(a, b) for a, *_ in got.elements()]
    H = Dump()
    if not allowed:
        verdict(H, links, [1] * len(links), kept)
    else:
        H.check(acyclic(given), 'the result is acyclic', given)
        cyc = on_cycle(links)
        H.check(all(e in cyc for e in set(links) - set(kept)), 'only links that lie on a cycle of the table are removed', (links, kept))
    out += H.bad
    es = [(e.start, e.finish, e.lag, e.type.value) for v in wg.nodes for e in v.edges_to]
    if any(k == 'IFS' for *_, k in es):     # tables may ask for chains that are not chains
        return out
    return out + [('sound', m) for _, m in views(wg.nodes, es) + tables(wg, es)]


def tables_(seed, tier):
    import pandas as pd
    from sampo.userinput.parser.csv_parser import CSVParser
    r = random.Random(seed)
    cols, sid, want, attrs, style = table(r)
    how = r.choice(['frame', 'frame', 'file'])
    if style in ('zero', 'dot') and how == 'file':
        how = 'frame'          # pandas reads such identifiers as numbers
    past = history(r, len(sid)) if r.random() < .3 else None
    mode = r.choice([True, False])
    sites = {}
    for g, s in zip(*(past[k] for k in ('granular_name', 'upper_works'))) if past else ():
        sites.setdefault(s, set()).add(int(g[1:]))
    allowed = {(sid[a], sid[b]) for gs in sites.values() for a in gs for b in gs if a != b} if past and not mode else ()
    hist = pd.DataFrame(past if past else {k: [] for k in ('granular_name', 'first_day', 'last_day', 'upper_works')})
    df = pd.DataFrame(cols)
    before = df.copy(deep=True)
    if how == 'file':
        d = tempfile.mkdtemp(prefix='c24')
        try:
            p, q = os.path.join(d, 'works.csv'), os.path.join(d, 'history.csv')
            if 'req_volume' in df:
                for c in ('min_req', 'max_req', 'req_volume'):
                    df = df.drop(columns=c)
                for a in attrs.values():
                    a.pop('reqs')
            if 'description' in df:
                df['description'] = ['text'] * len(df)
                for a in attrs.values():
                    a['description'] = 'text'
            df.to_csv(p, sep=';', index=False)
            hist.to_csv(q, sep=';', index=False)
            info = CSVParser.read_graph_info(p, q, all_connections=mode)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    else:
        info = CSVParser.read_graph_info(df, hist, all_connections=mode)
    wg, _ = CSVParser.work_graph_and_contractors(info) if r.random() < .1 else (CSVParser.work_graph(info), None)
    out = compare(wg, sid, want, attrs, allowed)
    if how == 'frame' and not before.equals(df):
        out.append(('input', 'the table of the user changed'))
    return Case(out[:4], len(sid) > 2, str(seed), dict(seed=seed, works=len(sid), style=style, how=how, mode=mode, history=bool(past)))


def weights(seed, tier):
    """larger graphs with weights"""
    from sampo.userinput.parser.general_build import Graph
    r = random.Random(seed)
    n = r.choice([3, 5, 8])
    p = r.choice([.15, .3, .5])
    links = [(a, b) for a in range(n) for b in range(n) if r.random() < (p if a != b else .05)]
    r.shuffle(links)
    links += [e for e in links if r.random() < .05]
    if r.random() < .2:
        weight = [None] * len(links)
    else:
        weight = [r.choice([0, 1, 1, 2, 5, 50, 9223372036854775807]) for _ in links]
    g = Graph()
    for (u, v), w in zip(links, weight):
        g.add_edge(str(u), str(v), w)
    g.eliminate_cycles()
    kept = [(int(u), int(v)) for u, vs in g.graph.items() for v in vs]
    H = Dump()
    if len(links) < 22:
        verdict(H, links, [1 if w is None else w for w in weight], kept)
    else:
        H.check(not Counter(kept) - Counter(links), 'no link is invented', links)
        H.check(acyclic(kept), 'the result is acyclic', links)
        H.check(set(links) - set(kept) <= on_cycle(links), 'only links that lie on a cycle are removed', links)
    return Case(H.bad[:3], bool(on_cycle(links)), str(seed), dict(seed=seed, links=links, weight=weight))


B = 'sampo/userinput/parser/general_build.py:'
FN = [B + 'Graph.' + x for x in ('add_edge', 'dfs_cycle', 'find_cycle', 'eliminate_cycle', 'eliminate_cycles')]
PROOFS = [Proof(f'cycles/{nm}', structure(n, lo, hi, **kw), FN, stubs=X, kind='bounded', bound=f'{bd}, any weights', secs=40, max_paths=40000, rnd=300)
          for nm, n, lo, hi, kw, bd in (
              ('3', 3, 0, 6, dict(order=True), 'graphs of three works'),
              ('3/self', 3, 1, 5, dict(loops=True), 'graphs of three works with a link of a work to itself'),
              ('3/double', 3, 1, 4, dict(double=True), 'graphs of three works with a repeated link'),
              ('4/4', 4, 3, 4, dict(order=True), 'graphs of four works and three or four links up to renaming, six orders'),
              ('4/5', 4, 5, 5, dict(), 'graphs of four works and five links up to renaming'),
              ('4/6', 4, 6, 6, dict(), 'graphs of four works and six links up to renaming'))]
PROOFS += [Proof(f'frame/{n}/{lo}', frame(n, lo, hi), [B + 'break_loops_in_input_graph'] + FN, stubs=X, kind='bounded',
                 bound=f'tables of {n} works with {lo} to {hi} links, any weights and lags', secs=40, max_paths=20000, rnd=120)
           for n, lo, hi in ((2, 0, 2), (3, 0, 3), (3, 4, 6))]
SWEEPS = [Sweep('tables', tables_, quick=2000, thorough=20000, rule='random tables of works, as frames and files, with cycles, missing values and histories'),
          Sweep('weights', weights, quick=3000, thorough=60000, rule='random graphs with weights through the cycle eliminator')]
CHECK = Check('C24', 'bounded', proofs=PROOFS, sweeps=SWEEPS,
              assumptions=['pandas, networkx and the csv format behave as documented',
                           'requirements are of kinds the estimator knows with 0 < minimum <= maximum; the table has a model_name column',
                           'lists in a cell have equal lengths unless the column or the cell is empty'])
