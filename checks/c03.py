"""C03 teams and specification; refusals only when justified"""
from sv import able, e2e, sched
from sv.run import Check, Sweep

H = sched.HEUR + ('heft-avg', 'heft-full', 'heft-mom', 'heftb-jit')
SWEEPS = [
    Sweep('heuristics', sched.sweep(['team', 'spec'], H, sched.PROFILES, refusals=True), quick=400, thorough=12000,
          rule='random projects, specifications and start times; every heuristic scheduler and timeline; '
               'non-trivial: at least 3 works scheduled'),
    Sweep('genetic', sched.sweep(['team', 'spec'], sched.GEN, sched.PROFILES, refusals=True), quick=48, thorough=1500,
          rule='the genetic scheduler, both generation schemes, 3 generations of 8; non-trivial as above'),
    Sweep('deadline', sched.sweep(['team', 'spec'], sched.DEADLINE, sched.PROFILES, refusals=True), quick=80, thorough=3000,
          rule='resource search for a deadline (direct and genetic), the genetic scheduler with other goals and settings; non-trivial as above'),
    Sweep('pipeline', sched.sweep(['team', 'spec'], sched.PIPE, sched.PROFILES, refusals=True), quick=120, thorough=4000,
          rule='the pipeline: plain, with optimizers of the order and of the schedule, with both restructurings; non-trivial as above'),
    Sweep('processes', sched.sweep(['team', 'spec'], sched.MULTI, sched.PROFILES, refusals=True), quick=16, thorough=400,
          rule='the genetic scheduler with its population in two other processes; non-trivial as above'),
]
PROOFS = e2e.proofs(e2e.team, assigned=True, refuse=e2e.refusal, shapes=('1', '2', '2-link', '2-chain')) + \
    e2e.proofs(e2e.team, ('mom',), assigned=True, refuse=e2e.refusal, kinds=2, contractors=2, chosen=True, shapes=('1', '2-chain'),
               tag='-2x2', note=', 2 contractors, 2 kinds') + \
    e2e.proofs(e2e.team, ('jit',), assigned=True, refuse=e2e.refusal, contractors=2, chosen=True, shapes=('1', '2-chain'),
               tag='-2x1', note=', 2 contractors') + \
    e2e.proofs(e2e.team, ('jit',), assigned=True, refuse=e2e.refusal, kinds=2, contractors=2, chosen=True, shapes=('1', '2-chain'),
               tag='-2x2', note=', 2 contractors, 2 kinds', only=True)
PROOFS += able.PROOFS
CHECK = Check('C03', 'bounded', proofs=PROOFS, sweeps=SWEEPS, assumptions=e2e.ASSUMED)
