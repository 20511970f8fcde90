"""C06 resource-independent works"""
from sv import books, e2e, sched, slots
from sv.run import Check, Sweep

H = sched.HEUR + ('heft-avg', 'heft-full', 'heft-mom', 'heftb-jit')
SWEEPS = [
    Sweep('heuristics', sched.sweep(['independent'], H, [p for p in sched.PROFILES if p.get('spec', {}).get('p_indep')]), quick=400, thorough=12000,
          rule='random projects, specifications and start times; every heuristic scheduler and timeline; '
               'non-trivial: at least 3 works scheduled'),
    Sweep('genetic', sched.sweep(['independent'], sched.GEN, [p for p in sched.PROFILES if p.get('spec', {}).get('p_indep')]), quick=48, thorough=1500,
          rule='the genetic scheduler, both generation schemes, 3 generations of 8; non-trivial as above'),
    Sweep('deadline', sched.sweep(['independent'], sched.DEADLINE, [p for p in sched.PROFILES if p.get('spec', {}).get('p_indep')]), quick=80, thorough=3000,
          rule='resource search for a deadline (direct and genetic), the genetic scheduler with other goals and settings; non-trivial as above'),
    Sweep('pipeline', sched.sweep(['independent'], sched.PIPE, [p for p in sched.PROFILES if p.get('spec', {}).get('p_indep')]), quick=120, thorough=4000,
          rule='the pipeline: plain, with optimizers of the order and of the schedule, with both restructurings; non-trivial as above'),
    Sweep('processes', sched.sweep(['independent'], sched.MULTI, [p for p in sched.PROFILES if p.get('spec', {}).get('p_indep')]), quick=16, thorough=400,
          rule='the genetic scheduler with its population in two other processes; non-trivial as above'),
]
PROOFS = slots.proofs_jit() + books.proofs() + e2e.proofs(e2e.exclusive, independent=True, shapes=('2', '2-link', '3-chain-mid', '3-chain+1')) + \
    e2e.proofs(e2e.exclusive, ('mom',), independent=True, shapes=('3-path', '3-join'))
CHECK = Check('C06', 'bounded', proofs=PROOFS, sweeps=SWEEPS, assumptions=e2e.ASSUMED)
