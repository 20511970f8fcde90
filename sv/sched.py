"""End-to-end runs of the real schedulers on random scenarios with oracles (run-time contracts on the untouched package)."""
from . import env  # noqa: F401
import contextlib
import io
import random
from . import oracle
from .run import Case
from .scen import scenario, able

HEUR = ('heft', 'heftb', 'lft', 'rlft', 'topo', 'rtopo')
GEN = ('ga-par', 'ga-ser')


def make(name, seed=1):
    from sampo.scheduler.heft.base import HEFTScheduler, HEFTBetweenScheduler
    from sampo.scheduler.lft.base import LFTScheduler, RandomizedLFTScheduler
    from sampo.scheduler.topological.base import TopologicalScheduler, RandomizedTopologicalScheduler
    if name == 'heft':
        return HEFTScheduler()
    if name == 'heftb':
        return HEFTBetweenScheduler()
    if name == 'lft':
        return LFTScheduler()
    if name == 'rlft':
        return RandomizedLFTScheduler(rand=random.Random(seed))
    if name == 'topo':
        return TopologicalScheduler()
    if name == 'rtopo':
        return RandomizedTopologicalScheduler(random_seed=seed)
    if name == 'heft-avg':
        from sampo.scheduler.resource import AverageReqResourceOptimizer
        return HEFTScheduler(resource_optimizer=AverageReqResourceOptimizer())
    if name == 'heft-full':
        from sampo.scheduler.resource.full_scan import FullScanResourceOptimizer
        return HEFTScheduler(resource_optimizer=FullScanResourceOptimizer())
    if name == 'heftb-jit':
        from sampo.scheduler.timeline import JustInTimeTimeline
        return HEFTScheduler(timeline_type=JustInTimeTimeline)
    if name == 'heft-mom':
        from sampo.scheduler.timeline import MomentumTimeline
        return HEFTScheduler(timeline_type=MomentumTimeline)
    if name in GEN:
        from sampo.scheduler.genetic.base import GeneticScheduler
        from sampo.scheduler.genetic.converter import ScheduleGenerationScheme as S
        return GeneticScheduler(number_of_generation=3, size_of_population=8, mutate_order=.3, mutate_resources=.3,
                                rand=random.Random(seed), sgs_type=S.Parallel if name == 'ga-par' else S.Serial)
    raise KeyError(name)


DEADLINE = ('abs', 'ga-deadline', 'ga-modes')
PIPE = ('pipe', 'pipe-heftb', 'pipe-swap', 'pipe-parallelize', 'pipe-auto')
MULTI = ('ga-processes',)


def _pipeline(scn, name, seed):
    from sampo.pipeline import SchedulingPipeline
    from sampo.pipeline.lag_optimization import LagOptimizationStrategy
    from sampo.scheduler.timeline import JustInTimeTimeline, MomentumTimeline
    from sampo.scheduler.utils import get_head_nodes_with_connections_mappings
    from sampo.scheduler.utils.local_optimization import ParallelizeScheduleLocalOptimizer, SwapOrderLocalOptimizer
    from sampo.schemas.time import Time
    r = random.Random(f'{seed}/{name}')
    n = len(get_head_nodes_with_connections_mappings(scn.wg)[0])

    def area():
        a = r.choice([0, 0, r.randrange(n)])
        return range(a, r.choice([n, r.randint(a, n)]))
    made = SchedulingPipeline.create().wg(scn.wg).contractors(scn.contractors).spec(scn.spec).time_shift(Time(scn.start))
    if name == 'pipe-swap' or name == 'pipe-parallelize' and r.random() < .3:
        for _ in range(r.randint(1, 2)):
            made = made.optimize_local(SwapOrderLocalOptimizer(), area())
    if name == 'pipe-auto':
        made = made.lag_optimize(LagOptimizationStrategy.AUTO)
    done = made.schedule(make('heftb' if name == 'pipe-heftb' or r.random() < .4 and name != 'pipe' else 'heft', seed))
    if name == 'pipe-parallelize':
        for _ in range(r.randint(1, 2)):
            done = done.optimize_local(
                ParallelizeScheduleLocalOptimizer(r.choice([JustInTimeTimeline, MomentumTimeline])), area())
    project = done.finish()[0]
    if name == 'pipe-auto':
        # the schedule of the graph the pipeline chose
        scn.wg = project.raw_wg
        return project.raw_schedule
    return project.schedule


def _processes(scn, name, seed):
    """the genetic scheduler with its population computed in other processes"""
    from sampo.backend.multiproc import MultiprocessingComputationalBackend
    from sampo.base import SAMPO
    from sampo.schemas.time import Time
    before = SAMPO.backend
    SAMPO.backend = back = MultiprocessingComputationalBackend(2)
    try:
        return make(random.Random(seed).choice(GEN), seed).schedule(scn.wg, scn.contractors, scn.spec,
                                                                    start_time=Time(scn.start))[0]
    finally:
        SAMPO.backend = before
        if back._pool is not None:
            back._pool.terminate()
            back._pool.join()


def _extra(scn, name, seed):
    from sampo.schemas.time import Time
    start = Time(scn.start)
    if name.startswith('pipe'):
        return _pipeline(scn, name, seed)
    if name in MULTI:
        return _processes(scn, name, seed)
    base = make('heft').schedule(scn.wg, scn.contractors, scn.spec, start_time=start)[0]
    dur = int(base.execution_time.value)
    r = random.Random(seed)
    deadline = Time(int(dur * r.choice([.7, 1, 1, 1.3, 2])) + r.choice([0, 1, 3]))
    if name == 'abs':
        from sampo.scheduler.resources_in_time.average_binary_search import \
            AverageBinarySearchResourceOptimizingScheduler as Abs
        return Abs(make(r.choice(['heft', 'heftb']))).schedule_with_cache(
            scn.wg, scn.contractors, deadline, scn.spec, assigned_parent_time=start)[0][0]
    if name == 'ga-modes':
        from sampo.scheduler.genetic import operators as op
        from sampo.scheduler.genetic.base import GeneticScheduler
        from sampo.scheduler.genetic.converter import ScheduleGenerationScheme as S
        several = r.random() < .4
        fit, weights = (op.TimeAndResourcesFitness(), (-1, -1)) if several else r.choice([
            (op.TimeFitness(), (-1,)), (op.SumOfResourcesFitness(), (-1,)), (op.SumOfResourcesPeaksFitness(), (-1,)),
            (op.DeadlineCostFitness(deadline), (-1,)), (op.DeadlineResourcesFitness(deadline), (-1,))])
        ga = GeneticScheduler(number_of_generation=4, size_of_population=r.choice([4, 8, 12]), mutate_order=.4, mutate_resources=.5,
                              seed=seed, sgs_type=r.choice([S.Parallel, S.Serial]), fitness_constructor=fit,
                              fitness_weights=weights, is_multiobjective=several, only_lft_initialization=r.random() < .3,
                              optimize_resources=r.random() < .5)
        if r.random() < .3:
            ga.set_weights([r.randint(1, 5) for _ in range(7)])
        if r.random() < .3:
            ga.set_max_plateau_steps(r.randint(1, 3))
        if r.random() < .3 and not several:
            ga.set_deadline(deadline)
        done = ga.schedule(scn.wg, scn.contractors, scn.spec, start_time=start)
        return r.choice(done)
    if name == 'ga-deadline':
        ga = make(r.choice(GEN), seed)
        ga.set_deadline(deadline)
        return ga.schedule(scn.wg, scn.contractors, scn.spec, start_time=start)[0]
    raise KeyError(name)


def run(scn, name, seed=1, landscape=None):
    from sampo.schemas.time import Time
    kw = {}
    if landscape is not None:
        kw['landscape'] = landscape
    with contextlib.redirect_stdout(io.StringIO()):
        if name in DEADLINE or name in PIPE or name in MULTI:
            return _extra(scn, name, seed)
        return make(name, seed).schedule(scn.wg, scn.contractors, scn.spec, start_time=Time(scn.start), **kw)[0]


def refusal_justified(scn):
    """no allowed contractor able to supply the minimum of some work"""
    for node in scn.wg.nodes:
        ws = scn.spec._work2spec.get(node.id)
        cs = [c for c in scn.contractors if ws is None or not ws.contractors or c.id in ws.contractors]
        if not any(able(c, node) for c in cs):
            return True
    return False


ORACLES = dict(
    complete=lambda s, scn: oracle.check_complete(s, scn),
    precedence=lambda s, scn: oracle.check_precedence(s, scn),
    start=lambda s, scn: oracle.check_start(s, scn),
    capacity=lambda s, scn: oracle.check_capacity(s, scn),
    team=lambda s, scn: oracle.check_team(s, scn),
    spec=lambda s, scn: oracle.check_spec(s, scn),
    chain=lambda s, scn: oracle.check_chain(s, scn),
    independent=lambda s, scn: oracle.check_independent(s, scn),
)


def sweep(oracles, schedulers, profiles, with_duration=False, refusals=False, chain_duration=False):
    """-> fn(seed, tier): one scenario (profile chosen by seed), two schedulers"""
    from sampo.schemas.exceptions import NoSufficientContractorError

    def fn(seed, tier):
        r = random.Random(seed)
        prof = profiles[r.randrange(len(profiles))]
        names = r.sample(list(schedulers), min(2, len(schedulers)))
        out, nontrivial, dig = [], False, None
        for name in names:
            scn = scenario(seed, **prof)
            try:
                sch = run(scn, name, seed % 1000)
            except NoSufficientContractorError as ex:
                if refusals and not refusal_justified(scn):
                    out.append(('refused', f'{name}: {ex} although every work has an able allowed contractor'))
                continue
            if not oracle.is_finite(sch):
                if refusals:
                    out.append(('infinite', f'{name}: schedule with infinite times although every work can be done'))
                continue
            for o in oracles:
                out += [(t, f'{name}: {m}') for t, m in ORACLES[o](sch, scn)]
            if with_duration:
                from sampo.schemas.time_estimator import DefaultWorkEstimator
                out += [(t, f'{name}: {m}') for t, m in
                        oracle.check_duration(sch, scn, DefaultWorkEstimator(), chain_level=name.startswith('ga'))]
            nontrivial = nontrivial or len(sch.works) > 4
            dig = f'{seed}'
        return Case(out, nontrivial, dig, dict(seed=seed, profile=prof, schedulers=names,
                                               works=scn.wg.vertex_count, contractors=len(scn.contractors)))
    return fn


PROFILES = [
    {},
    dict(spec=dict(p_time=0.4)),
    dict(spec=dict(p_workers=0.5, p_partial=0.4)),
    dict(spec=dict(p_indep=0.4)),
    dict(spec=dict(p_contr=0.5, p_time=0.3, p_workers=0.3, p_partial=0.3, p_indep=0.2), start='rand'),
    dict(wg=dict(n=12, p_edge=0.1, p_ins=0.3), contractors=dict(slack=0)),
    dict(wg=dict(n=12, p_ins=0.45, frac_lags=True), spec=dict(p_time=0.5), start='rand'),
    dict(wg=dict(n=14, kinds=2, p_edge=0.05, p_ins=0.0), contractors=dict(m=1, slack=2)),
    dict(wg=dict(n=9, kinds=2, p_edge=0.08, p_ins=0.15), contractors=dict(m=1, slack=3), spec=dict(p_indep=0.5, p_time=0.3)),
    dict(wg=dict(p_prio=0.5)),
]


def late_chain_materials(scn):
    return any(n.is_inseparable_son() and n.work_unit.material_reqs for n in scn.wg.nodes)


def _momentum_file():
    import sampo.scheduler.timeline.momentum_timeline as m
    return m.__file__


def _landscape_sweep(mk, check, oracles, schedulers):
    from sampo.schemas.exceptions import NoSufficientContractorError

    def fn(seed, tier):
        r = random.Random(seed)
        out, nontrivial = [], False
        opts = r.choice([{}, dict(spec=dict(p_time=0.3)), dict(wg=dict(p_edge=0.05), contractors=dict(slack=6)),
                         dict(start='rand')])
        kw = mk(r)
        for name in r.sample(list(schedulers), min(2, len(schedulers))):
            scn = check.make(seed, **kw, **opts)
            try:
                sch = run(scn, name, seed % 1000, scn.landscape)
            except NoSufficientContractorError:
                continue
            except AssertionError as ex:
                if late_chain_materials(scn) and env.classify(ex)[1].startswith(_momentum_file()):
                    out.append(('late-chain-materials', f'{name}: the team is not free for as long as the chain lasts '
                                'when a later work of the chain waits for materials'))
                    continue
                raise
            if not oracle.is_finite(sch):
                out.append(('infinite', f'{name}: infinite schedule'))
                continue
            out += [(t, f'{name}: {m}') for t, m in check.check(sch, scn)]
            for o in oracles:
                out += [(t, f'{name}: {m}') for t, m in ORACLES[o](sch, scn)]
            nontrivial = nontrivial or len(sch.works) > 4
        return Case(out, nontrivial, str(seed), dict(seed=seed, options=str(opts)))
    return fn


class _Zones:
    from .landscapes import zone_scn as make, check_zones as check
    make, check = staticmethod(make), staticmethod(check)


class _Mats:
    from .landscapes import mat_scn as make, check_mat as check
    make, check = staticmethod(make), staticmethod(check)


def zone_sweep(schedulers, oracles=('precedence', 'start', 'capacity', 'complete')):
    return _landscape_sweep(lambda r: dict(costs=r.random() < .8, zero=r.random() < .3, nz=r.randint(1, 2)),
                            _Zones, oracles, schedulers)


def mat_sweep(schedulers, oracles=('precedence', 'start', 'capacity', 'complete')):
    return _landscape_sweep(lambda r: dict(chains=r.random() < .6), _Mats, oracles, schedulers)
