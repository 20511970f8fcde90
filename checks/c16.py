"""C16 serialization: what is written is read back."""
import json
import pickle
import random
import shutil
import tempfile
from copy import deepcopy
import sampo.scheduler  # noqa: F401  (import order matters in SAMPO)
from sv.pyvc import time_stub_exact, is_sym, matrix_stub
from sv.run import Check, Proof, Sweep, Case

X = (time_stub_exact, matrix_stub)


def ignored(x):
    f = getattr(type(x), 'ignored_fields', ())
    return f if isinstance(f, (list, tuple, set, frozenset)) else ()


def same(a, b, H=None, path=''):
    """differences between a serialized attribute and the one that was read back: [(path, message)]; numbers are obligations of H"""
    if is_sym(a) or is_sym(b):
        # Time inside Time and wrappers: the class of the values has to agree as well
        if type(a) is not type(b):
            return [(path, f'{type(b).__name__} instead of {type(a).__name__}')]
        H.check(H.eq(a, b), 'numbers are read back as they were written')
        return []
    if type(a) is not type(b):
        return [(path, f'{type(b).__name__} {b!r} instead of {type(a).__name__} {a!r}')]
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return [(path, f'{len(b)} entries instead of {len(a)}')]
        return [d for i, (x, y) in enumerate(zip(a, b)) for d in same(x, y, H, f'{path}[{i}]')]
    if isinstance(a, dict):
        if list(a) != list(b) and set(a) != set(b):
            return [(path, f'keys {list(b)} instead of {list(a)}')]
        return [d for k in a for d in same(a[k], b[k], H, f'{path}[{k!r}]')]
    if isinstance(a, (set, frozenset, str, int, float, bool, type(None))):
        return [] if a == b else [(path, f'{b!r} instead of {a!r}')]
    if hasattr(a, '__dict__') and type(a).__module__.startswith('sampo.'):
        da, db = vars(a), vars(b)
        ks = [k for k in da if k not in ignored(a)]
        missing = [k for k in ks if k not in db]
        if missing:
            return [(path, f'attributes {missing} are missing')]
        return [d for k in ks for d in same(da[k], db[k], H, f'{path}.{k}')]
    return [] if a == b else [(path, f'{b!r} instead of {a!r}')]


def through_dict(x):
    return type(x).loadd(x.dumpd())


def through_dict_twice(x):
    d = x.dumpd()
    type(x).loadd(d)
    return type(x).loadd(d)


def through_text(x):
    return type(x).loads(x.dumps())


def through_pickle(x):
    return pickle.loads(pickle.dumps(x))


def through_copy(x):
    return deepcopy(x)


def through_dill(x):
    import dill
    return dill.loads(dill.dumps(x))


def through_file(x):
    d = tempfile.mkdtemp(prefix='c16')
    try:
        x.dump(d, 'object')
        return type(x).loadf(d, 'object')
    finally:
        shutil.rmtree(d, ignore_errors=True)


WAYS = dict(dict=through_dict, again=through_dict_twice, text=through_text, pickle=through_pickle, copy=through_copy, file=through_file)

NAMES = ['a', '', 'имя работы', 'line\nbreak "quoted" \\', "it's", '0', 'None', '{"a": 1}', 'x' * 80]


def _symbolic(kind):
    """any numbers in an object of the given kind, through the dictionary form and back"""
    def h(H):
        from sampo.schemas.time import Time
        from sampo.schemas.requirements import WorkerReq, EquipmentReq, MaterialReq, ConstructionObjectReq, ZoneReq
        from sampo.schemas.resources import Worker, Equipment, Material, ConstructionObject
        from sampo.schemas.contractor import Contractor
        from sampo.schemas.works import WorkUnit
        from sampo.schemas.scheduled_work import ScheduledWork
        from sampo.schemas.zones import ZoneTransition
        names = NAMES if kind not in ('work', 'scheduled') else NAMES[:3]
        nm = lambda k: H.pick(k, names)
        B = 10 ** 9
        num = lambda k, lo=-B, hi=B: H.int(k, lo, hi, rlo=0, rhi=99)
        if kind == 'time':
            x = Time(num('value'))
        elif kind == 'worker requirement':
            x = WorkerReq(nm('kind'), Time(num('volume')), num('min'), num('max'), H.pick('name', ['', None, 'n']))
        elif kind == 'other requirements':
            x = H.pick('class', [EquipmentReq, MaterialReq, ConstructionObjectReq, ZoneReq])(nm('kind'), num('count'), H.pick('name', ['', None, 'n']))
        elif kind == 'worker':
            x = Worker(nm('id'), nm('name'), 1, H.pick('contractor', ['', None, 'c']), cost_one_unit=H.real('cost', -B, B, rhi=9))
            x._count = num('count')
        elif kind == 'resource':
            x = H.pick('class', [Equipment, Material, ConstructionObject])(nm('id'), nm('name'), num('count'))
            if type(x).__name__ == 'Material':
                x.cost_one_unit = H.real('cost', -B, B, rhi=9)
        elif kind == 'contractor':
            ws = {f'k{i}': Worker(f'w{i}', nm(f'name{i}'), 1, cost_one_unit=H.real(f'cost{i}', -B, B, rhi=9)) for i in range(2)}
            for i, w in enumerate(ws.values()):
                w._count = num(f'count{i}')
            x = Contractor('c', 'name', ws, {'crane': Equipment('e', 'crane', num('cranes'))} if H.pick('has equipment', [True, False]) else {})
        elif kind == 'transition':
            x = ZoneTransition(nm('name'), num('from'), num('to'), Time(num('start')), Time(num('end')))
        elif kind in ('work', 'scheduled'):
            opt = [False, True] if kind == 'work' else [False]
            x = WorkUnit('id', {'granular_name': nm('granular'), 'measurement': 'u'},
                         [WorkerReq(f'k{i}', Time(num(f'volume{i}')), num(f'min{i}'), num(f'max{i}')) for i in range(H.pick('workers', [0, 2] if kind == 'work' else [0]))],
                         [EquipmentReq('crane', num('cranes'))] if H.pick('has equipment', opt) else None,
                         [MaterialReq('m', num('material'))] if H.pick('has material', opt) else None,
                         [ConstructionObjectReq('o', num('objects'))] if H.pick('has objects', opt) else None,
                         [ZoneReq('z', num('status'))] if H.pick('has zones', opt) else None,
                         description=nm('description'), group='g', is_service_unit=H.pick('service', [False, True]), display_name='shown')
            x.priority = num('priority')
            x.volume = H.real('work volume', -B, B, rhi=50)
        if kind == 'scheduled':
            teams = []
            for i in range(H.pick('team', [0, 2])):
                w = Worker(f'w{i}', 'n', 1, 'c', cost_one_unit=H.real(f'cost{i}', 0, 1000, rhi=9))
                w._count = H.int(f'count{i}', 0, 1000, rhi=9)
                teams.append(w)
            s, f = num('start'), num('finish')
            zs = [ZoneTransition('z', num('from'), num('to'), Time(s), Time(f))] if H.pick('has transitions', [False, True]) else None
            x = ScheduledWork(x, (Time(s), Time(f)), teams, Contractor('c', nm('contractor'), {}, {}) if H.pick('has contractor', [True, False]) else None,
                              zones_pre=zs, zones_post=zs)
        for how in ('dict', 'again') + (('copy',) if kind == 'work' else ()):
            y = WAYS[how](x)
            for path, what in same(x, y, H):
                H.check(False, 'attributes are read back as they were written', f'{how}: {path}: {what}')
            H.check(True, 'attributes are read back as they were written')
    h.__name__ = 'kind_' + kind.replace(' ', '_')
    return h


def _name(r):
    return r.choice(NAMES + [''.join(r.choice('aбв"\\\n\t{}[]:, 01') for _ in range(r.randint(1, 6)))])


def _reqs(r):
    from sampo.schemas.requirements import EquipmentReq, MaterialReq, ConstructionObjectReq, ZoneReq
    one = lambda cls: [cls(_name(r), r.randint(0, 9), r.choice(['', None, 'n'])) for _ in range(r.choice([0, 0, 1, 2]))]
    return dict(equipment_reqs=one(EquipmentReq), material_reqs=one(MaterialReq), object_reqs=one(ConstructionObjectReq), zone_reqs=one(ZoneReq))


def _round(x, ways, out, what, cmp):
    for how in ways:
        try:
            y = (WAYS | {'dill': through_dill})[how](x)
        except RecursionError:
            raise
        except Exception as ex:
            out.append(('refused', f'{what} through {how}: {type(ex).__name__}: {ex}'))
            continue
        try:
            out += [(tag, f'{what} through {how}: {m}') for tag, m in cmp(x, y)]
        except (TypeError, KeyError, IndexError, ValueError) as ex:
            out.append(('broken', f'{what} through {how}: the result cannot be examined: {type(ex).__name__}: {ex}'))


def _attrs(x, y):
    return [('attribute', f'{p}: {m}') for p, m in same(x, y)]


def objects(seed, tier):
    import numpy as np
    from sampo.schemas.time import Time
    from sampo.schemas.requirements import WorkerReq
    from sampo.schemas.resources import Worker, Equipment, Material, ConstructionObject
    from sampo.schemas.contractor import Contractor
    from sampo.schemas.works import WorkUnit
    r = random.Random(seed)
    n = lambda: r.choice([0, 1, -1, r.randint(-10 ** 6, 10 ** 6), 2 ** 40])
    req = lambda: WorkerReq(_name(r), Time(r.randint(-9, 10 ** 6)), r.randint(0, 9), r.randint(0, 99), r.choice(['', None, _name(r)]))
    extra = r.choice([{}, {'k': 1}, {'k': [1, 2.5, None]}, {'deep': {'a': True}}])
    work = WorkUnit(_name(r), r.choice([_name(r), {'granular_name': _name(r), **extra}]), [req() for _ in range(r.randint(0, 3))], description=_name(r),
                    group=_name(r), priority=r.randint(-3, 9), is_service_unit=r.random() < .3, volume=r.choice([0, 1, 0.1, 1e-9, 12345.678, r.random()]),
                    display_name=_name(r), **_reqs(r))
    num = lambda k: r.choice([k, np.int32(k), np.int64(k)])
    w = Worker(_name(r), _name(r), 1, r.choice(['', None, _name(r)]), cost_one_unit=r.choice([None, 0.5, 3]))
    w._count = num(r.randint(0, 99))
    c = Contractor(_name(r), _name(r), {_name(r): w, _name(r): Worker('i', 'n', 3)}, {_name(r): Equipment('e', _name(r), 2) for _ in range(r.randint(0, 2))})
    out = []
    for x in [Time(n()), req(), work, w, c, Material('m', _name(r), 3, r.random()), ConstructionObject('o', _name(r), 2)] \
            + work.equipment_reqs + work.material_reqs + work.object_reqs + work.zone_reqs:
        _round(x, ('dict', 'again', 'text', 'pickle', 'copy', 'file'), out, type(x).__name__, _attrs)
    return Case(out[:4], True, str(seed), dict(seed=seed))


def _graphs_differ(a, b):
    from checks.c13 import views, tables
    es = [(e.start, e.finish, e.lag, e.type.value) for v in b.nodes for e in v.edges_to]
    out = [('graph', m) for _, m in views(b.nodes, es) + tables(b, es)]
    A, B = {v.id: v for v in a.nodes}, {v.id: v for v in b.nodes}
    if set(A) != set(B) or len(a.nodes) != len(b.nodes) or a.start.id != b.start.id or a.finish.id != b.finish.id:
        return out + [('graph', f'works {sorted(B)} instead of {sorted(A)}')]
    link = lambda v: sorted((e.start.id, float(e.lag), e.type.value) for e in v.edges_to)
    for k in A:
        out += [('attribute', f'{k}{p}: {m}') for p, m in same(A[k].work_unit, B[k].work_unit)]
        if link(A[k]) != link(B[k]):
            out.append(('links', f'{k}: {link(B[k])} instead of {link(A[k])}'))
        if A[k] is B[k] or A[k].work_unit is B[k].work_unit:
            out.append(('shared', f'{k} is shared with the original'))
    return out


def _whole(wg):
    return [(v.id, deepcopy(vars(v.work_unit)), [(e.start.id, e.lag, e.type) for e in v.edges_to]) for v in wg.nodes]


def graphs(seed, tier):
    from sv.scen import mk_wg
    r = random.Random(seed)
    wg = mk_wg(r, n=r.choice([1, 3, 6, 12]), p_edge=r.choice([.1, .3, .5]), p_ins=r.choice([0, .3]), ss_ff=True, frac_lags=r.random() < .5,
               neg_lags=r.random() < .3, p_prio=r.choice([0, .4]))
    for v in wg.nodes:
        for k, q in _reqs(r).items():
            setattr(v.work_unit, k, q)
        v.work_unit.description = _name(r)
        v.work_unit.display_name = _name(r)
    out, before = [], _whole(wg)
    _round(wg, ('dict', 'again', 'text', 'pickle', 'copy', 'file', 'dill'), out, 'graph', _graphs_differ)
    if same(before, _whole(wg)):
        out.append(('original', f'the graph changed when it was serialized: {same(before, _whole(wg))[:2]}'))
    return Case(out[:4], len(wg.nodes) > 4, str(seed), dict(seed=seed, works=len(wg.nodes)))


def _schedules_differ(a, b):
    fa, fb = a.full_schedule_df, b.full_schedule_df
    out = []
    if list(fa.columns) != list(fb.columns) or len(fa) != len(fb):
        return [('table', f'columns or rows differ: {list(fb.columns)} x {len(fb)} instead of {list(fa.columns)} x {len(fa)}')]
    for c in fa.columns:
        if c == 'scheduled_work_object' or c == 'idx':
            continue
        if list(fa[c]) != list(fb[c]):
            out.append(('table', f'column {c}: {list(fb[c])} instead of {list(fa[c])}'))
    for x, y in zip(a.works, b.works):
        out += [('attribute', f'{x.id}{p}: {m}') for p, m in same(x, y)]
    if a.execution_time != b.execution_time:
        out.append(('time', f'{b.execution_time} instead of {a.execution_time}'))
    return out


def _projects_differ(a, b):
    out = _graphs_differ(a.wg, b.wg) + _schedules_differ(a.schedule, b.schedule)
    return out + [('attribute', f'contractors{p}: {m}') for p, m in same(a.contractors, b.contractors)]


def schedules(seed, tier):
    from sampo.schemas.exceptions import NoSufficientContractorError
    from sampo.schemas.project import ScheduledProject
    from sampo.structurator.base import graph_restructuring
    from sv.landscapes import zone_scn, mat_scn
    from sv.scen import scenario
    from sv import sched, oracle
    r = random.Random(seed)
    how = r.choice(['plain', 'plain', 'zones', 'materials'])
    scn = dict(plain=scenario, zones=zone_scn, materials=mat_scn)[how](seed)
    if how == 'plain':
        for c in scn.contractors:
            for w in c.workers.values():
                w.cost_one_unit = r.choice([0.5, 10, 3, 0.1])
    if how == 'plain' and r.random() < .5:
        scn.wg = graph_restructuring(scn.wg, r.random() < .5)
    try:
        sch = sched.run(scn, r.choice(sched.HEUR if how != 'plain' or r.random() < .8 else sched.GEN), seed % 1000, scn.landscape)
    except (NoSufficientContractorError, AssertionError):
        return Case([], False, None, dict(seed=seed))
    if not oracle.is_finite(sch):
        return Case([], False, None, dict(seed=seed))
    out = []
    _round(sch, ('dict', 'again', 'text', 'file', 'pickle'), out, 'schedule', _schedules_differ)
    if how == 'plain':
        _round(ScheduledProject(scn.wg, scn.wg, scn.contractors, sch), ('dict', 'again', 'text', 'file'), out, 'project', _projects_differ)
    return Case(out[:4], len(sch.works) > 4, str(seed), dict(seed=seed, kind=how, works=len(sch.works)))


S = 'sampo/schemas/'
CORE = [S + 'serializable.py:AutoJSONSerializable._serialize', S + 'serializable.py:AutoJSONSerializable._deserialize']
_P = {'time': ([S + 'time.py:Time.set_time'], 'proof', 'any value'),
      'worker requirement': ([S + 'requirements.py:WorkerReq'], 'proof', 'any numbers, listed strings'),
      'other requirements': ([S + 'requirements.py:EquipmentReq', S + 'requirements.py:MaterialReq', S + 'requirements.py:ConstructionObjectReq',
                              S + 'requirements.py:ZoneReq'], 'proof', 'any numbers, listed strings'),
      'worker': ([S + 'resources.py:Worker'], 'proof', 'any numbers, listed strings'),
      'resource': ([S + 'resources.py:Equipment', S + 'resources.py:Material', S + 'resources.py:ConstructionObject'], 'proof', 'any numbers, listed strings'),
      'contractor': ([S + 'contractor.py:Contractor.serialize_workers', S + 'contractor.py:Contractor.deserialize_workers'], 'bounded',
                     'two kinds of workers and up to one kind of equipment, any numbers'),
      'transition': ([S + 'zones.py:ZoneTransition'], 'proof', 'any numbers, listed strings'),
      'work': ([S + 'works.py:WorkUnit.serialize_serializable_list', S + 'works.py:WorkUnit.__getstate__', S + 'works.py:WorkUnit.__setstate__'], 'bounded',
               'up to two worker requirements and one of every other kind, any numbers'),
      'scheduled': ([S + 'scheduled_work.py:ScheduledWork.serialize_serializable_list', S + 'scheduled_work.py:ScheduledWork.deserialize_time',
                     S + 'scheduled_work.py:ScheduledWork.deserialize_workers'], 'bounded', 'teams of up to two, up to one zone transition, any numbers')}
PROOFS = [Proof(f'kind/{k}', _symbolic(k), CORE + f, stubs=X, kind=kind, bound=b if kind == 'bounded' else '', secs=25, max_paths=8000, rnd=120)
          for k, (f, kind, b) in _P.items()]
SWEEPS = [Sweep('objects', objects, quick=1500, thorough=30000, rule='random works, requirements, contractors and resources through every form'),
          Sweep('graphs', graphs, quick=300, thorough=6000, rule='random graphs with all kinds of links and requirements through every form'),
          Sweep('schedules', schedules, quick=160, thorough=3000, rule='schedules of random projects, with zones and materials, through every form')]
CHECK = Check('C16', 'bounded', proofs=PROOFS, sweeps=SWEEPS,
              assumptions=['attributes declared in ignored_fields are not serialized attributes',
                           'json, pickle, dill and the file system write and read what they are given',
                           'strings of the proofs come from a list; numbers are arbitrary'])
