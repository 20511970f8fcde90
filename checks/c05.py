"""C05 durations"""
from sv import chains, e2e, sched
from sv.run import Check, Sweep

H = sched.HEUR + ('heft-avg', 'heft-full', 'heft-mom', 'heftb-jit')
SWEEPS = [
    Sweep('heuristics', sched.sweep([], H, sched.PROFILES, with_duration=True), quick=400, thorough=12000,
          rule='random projects, specifications and start times; every heuristic scheduler and timeline; '
               'non-trivial: at least 3 works scheduled'),
    Sweep('genetic', sched.sweep([], sched.GEN, sched.PROFILES, with_duration=True), quick=48, thorough=1500,
          rule='the genetic scheduler, both generation schemes, 3 generations of 8; non-trivial as above'),
    Sweep('deadline', sched.sweep([], sched.DEADLINE, sched.PROFILES, with_duration=True), quick=80, thorough=3000,
          rule='resource search for a deadline (direct and genetic), the genetic scheduler with other goals and settings; non-trivial as above'),
    Sweep('pipeline', sched.sweep([], sched.PIPE, sched.PROFILES, with_duration=True), quick=120, thorough=4000,
          rule='the pipeline: plain, with optimizers of the order and of the schedule, with both restructurings; non-trivial as above'),
    Sweep('processes', sched.sweep([], sched.MULTI, sched.PROFILES, with_duration=True), quick=16, thorough=400,
          rule='the genetic scheduler with its population in two other processes; non-trivial as above'),
    Sweep('split', chains.split_case, quick=400, thorough=20000,
          rule='user-fixed times divided over random chains of 1-7 works (also without volumes); non-trivial: at least 2 works'),
]
PROOFS = chains.proofs(['chain-jit', 'chain-mom', 'split']) + \
    e2e.proofs(e2e.duration, fixed_time=True, shapes=('1', '2', '2-link', '2-chain')) + \
    e2e.proofs(e2e.duration, ('mom',), fixed_time=True, shapes=('3-path', '3-chain-wait', '3-chain-mid', '3-chain3'))
CHECK = Check('C05', 'bounded', proofs=PROOFS, sweeps=SWEEPS, assumptions=e2e.ASSUMED)
