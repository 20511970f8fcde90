"""C15 restructuring of graphs."""
import random
from collections import Counter
from checks.c12 import _acyclic
from checks.c13 import views, tables
from sv.pyvc import time_stub_exact, is_sym, matrix_stub
from sv.run import Check, Proof, Sweep, Case

X = (time_stub_exact, matrix_stub)
DEP = ('FS', 'IFS', 'FFS')
REQS = (('worker_reqs', 'volume'), ('equipment_reqs', 'count'), ('object_reqs', 'count'), ('material_reqs', 'count'))


def amount(req, attr):
    x = getattr(req, attr)
    return getattr(x, 'value', x)


def stages_of(old, new):
    """chain of stages of every original work: from the first stage to the node with the original identifier"""
    out = {}
    for v in old.nodes:
        if v.id not in new.dict_nodes:
            return None
        x = new.dict_nodes[v.id]
        chain = [x]
        # stages of this work are the works before it in its chain that are not themselves original works
        while x.inseparable_parent is not None and x.inseparable_parent.id not in old.dict_nodes:
            x = x.inseparable_parent
            chain.insert(0, x)
        out[v.id] = chain
    return out


def structure(old, new, weights=True):
    """[(tag, message)] about everything that does not depend on amounts"""
    out = []
    es = [(e.start, e.finish, e.lag, e.type.value) for v in new.nodes for e in v.edges_to]
    bad = sorted({k for *_, k in es} - {'FS', 'IFS'})
    if bad:
        out.append(('kinds', f'links of kinds {bad} are left'))
    st = stages_of(old, new)
    if st is None:
        return out + [('works', 'a work of the original graph is missing')]
    ids = [c.id for ch in st.values() for c in ch]
    if len(set(ids)) != len(ids) or len({v.id for v in new.nodes}) != len(new.nodes):
        out.append(('ids', 'repeated identifiers'))
    if sorted(ids) != sorted(v.id for v in new.nodes):
        out.append(('works', f'works that are no stage of an original work: {sorted(set(v.id for v in new.nodes) - set(ids))}'))
    out += [('sound', w) for _, w in views(new.nodes, es) + tables(new, es, weights)]
    if new.start.id != old.start.id or new.finish.id != old.finish.id:
        out.append(('works', 'start or finish changed'))
    for v in old.nodes:
        ch = st[v.id]
        for e in v.edges_to:
            k = e.type.value
            first, plast = ch[0], st[e.start.id][-1]
            if k in ('FS', 'IFS'):
                links = [x for x in first.edges_to if x.start is plast and x.type.value == k]
                if not links:
                    out.append(('ordering', f'{k} link {e.start.id} -> {v.id} is lost'))
                elif k == 'FS' and max(x.lag for x in links) < e.lag:
                    out.append(('ordering', f'lag of the link {e.start.id} -> {v.id} became smaller'))
            else:
                pairs = [(x.start, c) for c in ch for x in c.edges_to]
                if k in ('SS',) and not any(a in st[e.start.id] and c is first for a, c in pairs):
                    out.append(('ordering', f'start-start link {e.start.id} -> {v.id} is lost'))
                if k in ('FF',) and not any(a is plast for a, c in pairs):
                    out.append(('ordering', f'finish-finish link {e.start.id} -> {v.id} is lost'))
                if k == 'FFS' and (not any(a in st[e.start.id] and c is first for a, c in pairs) or not any(a is plast for a, c in pairs)):
                    out.append(('ordering', f'lag link {e.start.id} -> {v.id} is lost'))
        for c in ch:
            a, b = c.work_unit, v.work_unit
            for f in ('description', 'group', 'display_name', 'is_service_unit', 'zone_reqs'):
                if getattr(a, f) != getattr(b, f):
                    out.append(('attributes', f'{f} of a stage of {v.id}: {getattr(a, f)}, original {getattr(b, f)}'))
    return out


def conserved(old, new, H=None):
    """volumes and amounts of stages; with a harness the sums are obligations"""
    st = stages_of(old, new)
    out = []

    def same(a, b):
        # floating point in evaluations, exact reals in proofs
        return H.eq(a, b) if H.symbolic else abs(a - b) <= 1e-6 * max(1, abs(b))
    for v in old.nodes:
        ch = st[v.id]
        vol = sum((c.work_unit.volume for c in ch[1:]), start=ch[0].work_unit.volume)
        if H is not None:
            H.check(same(vol, v.work_unit.volume), 'volumes of the stages sum to the volume of the work')
            H.check(H.all(c.work_unit.volume >= (0 if H.symbolic else -1e-9) for c in ch), 'no stage has a negative volume')
        else:
            if abs(vol - v.work_unit.volume) > 1e-6 * max(1, abs(v.work_unit.volume)):
                out.append(('volume', f'stages of {v.id} have volume {vol}, the work {v.work_unit.volume}'))
            if any(c.work_unit.volume < -1e-9 for c in ch):
                out.append(('negative', f'volumes of the stages of {v.id}: {[c.work_unit.volume for c in ch]}'))
        for reqs, attr in REQS:
            base = getattr(v.work_unit, reqs)
            if any(len(getattr(c.work_unit, reqs)) != len(base) for c in ch):
                out.append(('requirements', f'{reqs} of the stages of {v.id} are not those of the work'))
                if H is not None:
                    H.check(False, 'stages have the requirements of the work')
                continue
            for i, q in enumerate(base):
                xs = [amount(getattr(c.work_unit, reqs)[i], attr) for c in ch]
                tot = sum(xs[1:], start=xs[0])
                if H is not None:
                    H.check(H.eq(tot, amount(q, attr)), 'amounts of the stages sum to the amount of the work')
                    H.check(H.all(x >= 0 for x in xs), 'no stage has a negative amount')
                else:
                    if tot != amount(q, attr):
                        out.append(('amount', f'{reqs} of {v.id}: stages {xs}, the work {amount(q, attr)}'))
                    if any(x < 0 for x in xs):
                        out.append(('negative', f'{reqs} of {v.id}: stages {xs}'))
                for c in ch:
                    x = getattr(c.work_unit, reqs)[i]
                    if any(getattr(x, f, None) != getattr(q, f, None) for f in ('kind', 'name', 'min_count', 'max_count')):
                        out.append(('requirements', f'{reqs} of a stage of {v.id} differ in more than the amount'))
    return out


def shares(old, new, opt, H=None):
    """which part of a work is done before a start-start or lag link and which part remains after a finish-finish or lag link"""
    st = stages_of(old, new)
    out = []

    def same(a, b):
        return H.eq(a, b) if H is not None and H.symbolic else abs(a - b) <= 1e-6 * max(1, abs(b))
    for v in old.nodes:
        for e in v.edges_to:
            k = e.type.value
            if k not in ('SS', 'FF', 'FFS'):
                continue
            ch, pch = st[v.id], st[e.start.id]
            pv, vv = e.start.work_unit.volume, v.work_unit.volume
            part = e.lag / pv if opt and 0 < e.lag <= pv else 0
            for side in ((k in ('SS', 'FFS')) * 's', (k in ('FF', 'FFS') and (opt or k == 'FF')) * 'f'):
                if side == 's':
                    want = pv * part if opt or k == 'SS' else pv
                    cands = [sum((c.work_unit.volume for c in pch[:i + 1]), 0) for i, p in enumerate(pch)
                             if any(x.start is p for x in ch[0].edges_to)]
                    what = f'{k} link {e.start.id} -> {v.id} with lag {e.lag}: done before it {cands}, expected {want}'
                    name = 'the lag is the part of the predecessor done before the start of the successor'
                elif side == 'f':
                    want = vv * part
                    cands = [sum((c.work_unit.volume for c in ch[i:]), 0) for i, c in enumerate(ch)
                             if any(x.start is pch[-1] for x in c.edges_to)]
                    what = f'{k} link {e.start.id} -> {v.id} with lag {e.lag}: left after it {cands}, expected {want}'
                    name = 'the share of the lag is the part of the successor left after the end of the predecessor'
                else:
                    continue
                if H is not None:
                    H.check(H.any(same(x, want) for x in cands), name)
                elif not any(same(x, want) for x in cands):
                    out.append(('share', what))
    return out


def _work(H, i, amounts):
    from sampo.schemas.requirements import WorkerReq, MaterialReq, ConstructionObjectReq, EquipmentReq
    from sampo.schemas.time import Time
    from sampo.schemas.works import WorkUnit
    vol = H.real(f'volume{i}', 0, 1000, rhi=20) if amounts == 'volumes' else H.pick(f'volume{i}', [8, 0]) if i else 8
    w = [H.int(f'workers{i}', 0, 10 ** 4, rhi=9)] if amounts == 'amounts' else [5]
    wu = WorkUnit(f'm{(7 * i + 3) % 10}', {'granular_name': f'w{i}', 'measurement': 'u'}, [WorkerReq('k', Time(x), 1, 3) for x in w],
                  [EquipmentReq('crane', 2 * i + 1)], [MaterialReq('m', H.int(f'material{i}', 0, 10 ** 4, rhi=9) if amounts == 'amounts' else 7)],
                  [ConstructionObjectReq('road', 3)], description=f'd{i}', group=f'g{i}', priority=1, volume=0, display_name=f'w{i}')
    wu.volume = vol if is_sym(vol) else float(vol)
    return wu


_SAY = dict(kinds='only finish-start style links are left', works='the stages are exactly the original works', ids='identifiers are unique',
            sound='the new graph is consistent', ordering='orderings of the original graph are kept between stages',
            attributes='stages keep the attributes of the work', requirements='stages have the requirements of the work')


def pair(combo, opt, amounts):
    """two works joined by the given kinds of links with any lags"""
    def h(H):
        from sampo.schemas.graph import GraphNode, WorkGraph, EdgeType
        from sampo.schemas.works import WorkUnit
        from sampo.structurator.base import graph_restructuring
        start = GraphNode(WorkUnit('s', 'start', is_service_unit=True), [])
        a = GraphNode(_work(H, 0, amounts), [start])
        lags = [0 if k == 'IFS' else H.real(f'lag{i}', 0, 1000, rhi=20) if amounts == 'volumes' and i < 1
                else H.pick(f'lag{i}', [0, 2.5, 6, 8, 100] if len(combo) < 3 and amounts == 'amounts' else [0, 6]) for i, k in enumerate(combo)]
        b = GraphNode(_work(H, 1, amounts if amounts == 'amounts' else None), [(a, lag, EdgeType(k)) for lag, k in zip(lags, combo)]
                      + ([] if set(combo) & set(DEP) else [(start, 0, EdgeType.FinishStart)]))
        fin = GraphNode(WorkUnit('f', 'finish', is_service_unit=True), [b] if set(combo) & set(DEP) else [a, b])
        wg = WorkGraph(start, fin)
        new = graph_restructuring(wg, opt)
        for tag, what in structure(wg, new, not H.symbolic):
            H.check(False, _SAY[tag])
        for tag, what in conserved(wg, new, H):
            H.check(False, _SAY[tag])
        shares(wg, new, opt, H)
        H.check(True, 'structure of the new graph')
    h.__name__ = 'pair_' + '_'.join(combo) + str(opt)
    return h


def fan(kinds, opt):
    """one work with several links on either side, any lags"""
    def h(H):
        from sampo.schemas.graph import GraphNode, WorkGraph, EdgeType
        from sampo.schemas.works import WorkUnit
        from sampo.structurator.base import graph_restructuring
        start = GraphNode(WorkUnit('s', 'start', is_service_unit=True), [])
        a = GraphNode(_work(H, 0, None), [start])
        wu = _work(H, 1, None)
        wu.volume = 8.0
        v = GraphNode(wu, [(a, H.pick('lag in', [0, 3, 8]), EdgeType(kinds[0])), (start, 0, EdgeType.FinishStart)])
        out = [GraphNode(_work(H, 2 + i, None), [(v, H.real(f'lag{i}', 0, 1000, rhi=20) if i == 0 else H.pick(f'lag{i}', [0, 4]),
                                                   EdgeType(k)), (start, 0, EdgeType.FinishStart)])
               for i, k in enumerate(kinds[1:])]
        wg = WorkGraph(start, GraphNode(WorkUnit('f', 'finish', is_service_unit=True), [a, v] + out))
        new = graph_restructuring(wg, opt)
        for tag, what in structure(wg, new, not H.symbolic):
            H.check(False, _SAY[tag])
        for tag, what in conserved(wg, new, H):
            H.check(False, _SAY[tag])
        shares(wg, new, opt, H)
        H.check(True, 'structure of the new graph')
    h.__name__ = 'fan_' + '_'.join(kinds) + str(opt)
    return h


def graphs(seed, tier):
    from sampo.structurator.base import graph_restructuring
    from sv.scen import mk_wg
    from checks.c14 import desc
    from sampo.schemas.graph import EdgeType
    r = random.Random(seed)
    wg = mk_wg(r, n=r.choice([2, 4, 8, 15]), kinds=r.randint(1, 4), p_edge=r.choice([0.1, 0.25, 0.45]), p_ins=r.choice([0, 0.2, 0.4]),
               ss_ff=True, frac_lags=r.random() < 0.5, vol=r.choice([(1, 40), (1, 3), (1000, 99999)]))
    if r.random() < 0.3:     # several links between the same works
        for v in wg.nodes:
            for e in list(v.edges_to):
                if r.random() < 0.2 and v is not wg.finish and e.start is not wg.start:
                    v.add_parents([(e.start, r.choice([0, 1, 2.5]), EdgeType(r.choice(['SS', 'FF', 'FFS', 'FS'])))])
        wg.reinit()
    for v in wg.nodes:
        if r.random() < 0.2 and not v.work_unit.is_service_unit:
            v.work_unit.volume = r.choice([0.0, 0.3, 3.0, 10.0, 7.7])
    out = []
    for opt in (False, True):
        before = desc(wg), [v.id for v in wg.nodes]
        new = graph_restructuring(wg, opt)
        out += structure(wg, new)
        if not out:
            out += conserved(wg, new)
        if not out:
            out += shares(wg, new, opt)
        if (desc(wg), [v.id for v in wg.nodes]) != before:
            out.append(('original', 'the original graph changed'))
        if not opt and not out:
            # a restructured graph has no links to restructure
            again = graph_restructuring(new, True)
            if len(again.nodes) != len(new.nodes):
                out.append(('again', 'a second restructuring splits works'))
    return Case(out[:3], len(wg.nodes) > 4, str(seed), dict(seed=seed, works=len(wg.nodes)))


B = 'sampo/structurator/base.py:'
FN = [B + x for x in ('graph_restructuring', 'split_node_into_stages', 'fill_parents_to_new_nodes', 'make_new_node_id')]
PROOFS = []
for _o in (False, True):
    for _c in (('FS',), ('IFS',), ('SS',), ('FF',), ('FFS',), ('SS', 'FF'), ('IFS', 'SS'), ('FS', 'FFS'), ('SS', 'FFS'), ('FF', 'FFS'),
               ('SS', 'SS'), ('FFS', 'FFS'), ('FF', 'FF'), ('SS', 'FF', 'FFS')):
        _n = '+'.join(_c)
        PROOFS.append(Proof(f'pair/{_n}{"/lags" if _o else ""}/amounts', pair(_c, _o, 'amounts'), FN, stubs=X, kind='bounded',
                            bound=f'two works joined by {_n}, any amounts of workers and materials, some volumes and lags', secs=25, max_paths=8000, rnd=60))
        if _o:
            PROOFS.append(Proof(f'pair/{_n}/lags/volumes', pair(_c, _o, 'volumes'), FN, stubs=X, kind='bounded',
                                bound=f'two works joined by {_n}, any volume of the first and any lag of the first link', secs=25, max_paths=8000, rnd=60))
    for _c in (('FF', 'SS', 'SS'), ('FFS', 'FFS', 'SS'), ('FF', 'FFS', 'FFS'), ('FFS', 'SS', 'FFS'), ('IFS', 'SS', 'FFS')):
        _n = '+'.join(_c)
        PROOFS.append(Proof(f'fan/{_n}{"/lags" if _o else ""}', fan(_c, _o), FN, stubs=X, kind='bounded',
                            bound=f'one work with an incoming and two outgoing links {_n}, any first lag', secs=25, max_paths=8000, rnd=100))
SWEEPS = [Sweep('graphs', graphs, quick=1200, thorough=12000, rule='random graphs with all kinds of links, restructured with and without lags')]
CHECK = Check('C15', 'bounded', proofs=PROOFS, sweeps=SWEEPS,
              assumptions=['every work has a dependency predecessor and successor; identifiers do not contain the stage separator',
                           'volumes are compared up to a relative error of 1e-6 on random inputs (floating point); in proofs they are exact reals'])
