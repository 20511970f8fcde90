NA = {}
SYM = ('contract-based deductive verification: the real functions of /repo are executed symbolically against pre/postconditions '
       'and loop invariants, every obligation discharged by z3/cvc5')
RAC = 'the same contracts evaluated at run time on random inputs, and end-to-end schedules against an independent oracle'


def _n(level, note, tech=SYM + '; ' + RAC):
    return dict(technique=tech, level=level, note=note)


NOTES = {
 'C01': _n('bounded', 'any number of links of a work, of works of a chain and of works of a project: contracts of the functions on the way proved by loop invariants; whole schedules of 1-3 works (chains and links) with every number symbolic through the real build_scheduler and both timelines; every scheduler, the deadline search and the pipeline end-to-end on random inputs'),
 'C02': _n('bounded', 'build loop and chain loops for any number of works proved by loop invariants; whole schedules of 1-3 works with every number symbolic through the real build_scheduler and both timelines against the capacity definition; every scheduler end-to-end on random inputs'),
 'C03': _n('bounded', 'teams and refusals of whole schedules with all limits, capacities and specifications symbolic (1-3 works, up to 2 contractors and kinds); every scheduler end-to-end on random inputs'),
 'C04': _n('bounded', 'build loop and chain loops for any number of works proved by loop invariants; completeness and chains of whole schedules of 1-3 works with every number symbolic; every scheduler end-to-end on random inputs'),
 'C05': _n('bounded', 'chain loops and the split of a given time for any length of a chain proved by loop invariants; durations in whole schedules of 1-3 works with every number and fixed time symbolic; every scheduler end-to-end on random inputs'),
 'C06': _n('bounded', 'exclusivity in whole schedules of 2-3 works with every number symbolic; every scheduler end-to-end on random inputs'),
 'C07': _n('bounded', 'slot search of MomentumTimeline for any number of events and kinds, the just-in-time search for any number of groups and '
           'kinds and the searches over chains of any length proved by loop invariants; booking for a bounded number of events with '
           'all scalars symbolic'),
 'C08': _n('bounded', 'integer bisection and the contractor loop proved for every range and any number of contractors; optimizers for a '
           'bounded number of kinds with all scalars symbolic'),
 'C20': _n('bounded', 'estimate_time proved for any number of requirements; the other estimator functions for a bounded number of kinds'),
 'C22': _n('bounded', 'containers of a bounded number of elements with symbolic keys; random operation histories against a plain model'),
 'C09': _n('bounded', 'acceptance is equivalent to the definition for a bounded number of works with symbolic times, counts and '
           'capacities; perturbed real schedules'),
 'C21': _n('bounded', 'measures of a bounded number of works, critical path over all graphs of up to 4 works with symbolic times; real schedules'),
 'C25': _n('bounded', 'distances and routes over all small road networks with symbolic lengths and availability; random landscapes'),
 'C10': _n('bounded', 'every operator on individuals of a bounded number of works with symbolic counts, limits and bounds and an arbitrary '
           'random source; operator sequences on real individuals of random projects'),
 'C11': _n('bounded', 'schedule to chromosome and back for a bounded number of works with symbolic counts and times; both generation '
           'schemes on individuals of a bounded number of works; random real schedules and individuals'),
 'C12': _n('bounded', 'every prioritization over all graphs of up to 3 works with symbolic durations, priorities, chains and random '
           'choices; priority correction with symbolic priorities; order tuning over every order and area; one known finding'),
 'C13': _n('bounded', 'listing, tables, views and chain heads over all graphs of up to 3-4 works with all kinds of links and all short '
           'histories of link additions; random larger graphs'),
 'C14': _n('bounded', 'copying, deleting, inserting and joining over all graphs of up to 3 works with all kinds of links and positions; '
           'random edit sequences'),
 'C15': _n('bounded', 'two works joined by every combination of up to three kinds of links and fans of three, any volumes, amounts and '
           'lags (proved within that bound); random graphs'),
 'C16': _n('bounded', 'dictionary form of every object with any numbers (and listed strings); random objects, graphs, schedules and projects '
           'through every form'),
 'C23': _n('bounded', 'inputs after whole schedules of 1-3 works with every number symbolic, and the same objects scheduled twice; histories of '
           'calls on the same objects and processes with different string hashing on random inputs'),
 'C24': _n('bounded', 'cycle removal on every graph of up to 3-4 works with any weights, in the graph and in the table form; random tables, '
           'files and histories'),
 'C26': _n('bounded', 'the auction for any number of agents and the block loop for any number of blocks proved by loop invariants; topological '
           'order over all graphs of up to 4 blocks; real schedulers on random block graphs'),
 'C17': _n('bounded', 'search for free vehicles proved for any number of bookings; bookings, platforms and histories of 1-4 deliveries with all '
           'amounts symbolic; end-to-end deliveries and stocks against an independent oracle; one known finding'),
 'C18': _n('bounded', 'bookings of 1-3 works in 1-2 zones and whole schedules of 1-3 works with all times, lengths and switching times symbolic; '
           'end-to-end zone statuses against an independent oracle'),
 'C19': _n('proof', 'every operator of Time for all integers (floats as exact reals); hashing on listed points only'),
}
