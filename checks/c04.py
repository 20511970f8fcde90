"""C04 completeness and inseparable chains"""
from sv import chains, e2e, sched
from sv.run import Check, Sweep

H = sched.HEUR + ('heft-avg', 'heft-full', 'heft-mom', 'heftb-jit')
SWEEPS = [
    Sweep('heuristics', sched.sweep(['complete', 'chain'], H, sched.PROFILES), quick=400, thorough=12000,
          rule='random projects, specifications and start times; every heuristic scheduler and timeline; '
               'non-trivial: at least 3 works scheduled'),
    Sweep('genetic', sched.sweep(['complete', 'chain'], sched.GEN, sched.PROFILES), quick=48, thorough=1500,
          rule='the genetic scheduler, both generation schemes, 3 generations of 8; non-trivial as above'),
    Sweep('deadline', sched.sweep(['complete', 'chain'], sched.DEADLINE, sched.PROFILES), quick=100, thorough=3000,
          rule='resource search for a deadline (direct and genetic), the genetic scheduler with other goals and settings; non-trivial as above'),
    Sweep('pipeline', sched.sweep(['complete', 'chain'], sched.PIPE, sched.PROFILES), quick=120, thorough=4000,
          rule='the pipeline: plain, with optimizers of the order and of the schedule, with both restructurings; non-trivial as above'),
    Sweep('processes', sched.sweep(['complete', 'chain'], sched.MULTI, sched.PROFILES), quick=16, thorough=400,
          rule='the genetic scheduler with its population in two other processes; non-trivial as above'),
]
PROOFS = chains.proofs(['build', 'chain-jit', 'chain-mom']) + \
    e2e.proofs(e2e.complete)
CHECK = Check('C04', 'bounded', proofs=PROOFS, sweeps=SWEEPS, assumptions=e2e.ASSUMED)
