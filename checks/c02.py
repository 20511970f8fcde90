"""C02 contractor capacity"""
from sv import books, chains, e2e, pool_any, sched, slots
from sv.run import Check, Sweep

H = sched.HEUR + ('heft-avg', 'heft-full', 'heft-mom', 'heftb-jit')
SWEEPS = [
    Sweep('heuristics', sched.sweep(['capacity'], H, sched.PROFILES), quick=400, thorough=12000,
          rule='random projects, specifications and start times; every heuristic scheduler and timeline; '
               'non-trivial: at least 3 works scheduled'),
    Sweep('genetic', sched.sweep(['capacity'], sched.GEN, sched.PROFILES), quick=48, thorough=1500,
          rule='the genetic scheduler, both generation schemes, 3 generations of 8; non-trivial as above'),
    Sweep('deadline', sched.sweep(['capacity'], sched.DEADLINE, sched.PROFILES), quick=100, thorough=3000,
          rule='resource search for a deadline (direct and genetic), the genetic scheduler with other goals and settings; non-trivial as above'),
    Sweep('pipeline', sched.sweep(['capacity'], sched.PIPE, sched.PROFILES), quick=120, thorough=4000,
          rule='the pipeline: plain, with optimizers of the order and of the schedule, with both restructurings; non-trivial as above'),
    Sweep('processes', sched.sweep(['capacity'], sched.MULTI, sched.PROFILES), quick=16, thorough=400,
          rule='the genetic scheduler with its population in two other processes; non-trivial as above'),
]
PROOFS = slots.proofs_jit() + books.proofs() + pool_any.proofs() + chains.proofs(['build', 'chain-jit', 'chain-mom']) + \
    e2e.proofs(e2e.capacity) + e2e.proofs(e2e.capacity, shapes=('1', '2-chain'), contractors=2, kinds=2, tag='-2x2', note=', 2 contractors, 2 kinds')
CHECK = Check('C02', 'bounded', proofs=PROOFS, sweeps=SWEEPS, assumptions=e2e.ASSUMED)
