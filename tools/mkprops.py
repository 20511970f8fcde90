"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)

TL = 'sampo/scheduler/timeline/'
p('C01', 'Precedence, edge lags and the project start are respected',
  'In every schedule a SAMPO scheduler returns, no work starts before the given project start time, and no work starts before '
  'each of its direct predecessors has finished plus the lag of the connecting edge. This holds for every scheduler (HEFT, '
  'HEFT-between, LFT, topological, randomized, genetic), also when works have user-fixed durations, belong to inseparable chains '
  'or are marked resource-independent.',
  ['inputs', 'configurations', 'schedules'],
  'all acyclic work graphs with any lags and chains, all contractor pools, all specifications, all start times, all schedulers',
  'Tests schedule a few generated graphs, mostly with zero lags and start time 0, and check only finish<=start without the lag.',
  ['sampo/schemas/graph.py', TL + 'just_in_time_timeline.py', TL + 'momentum_timeline.py', 'sampo/scheduler/generic.py',
   'sampo/scheduler/genetic/converter.py'],
  [('earliest start from predecessors', 'GraphNode.min_start_time'),
   ('chain placement', 'JustInTimeTimeline._schedule_with_inseparables, MomentumTimeline._schedule_with_inseparables'),
   ('start search', 'find_min_start_time_with_additional of both timelines'),
   ('parallel decoding admissibility test', 'can_schedule_at_the_moment'),
   ('list order', 'GenericScheduler.build_scheduler')],
  [('node2swork', 'works placed so far', 'build_scheduler, schedule generation schemes')],
  ['Schedule.works: start_time / finish_time against WorkGraph.nodes[*].edges_to'])
p('C02', 'A contractor never has more busy workers than it owns',
  'In every schedule a SAMPO scheduler returns, at every moment and for every contractor and worker kind, the workers taken by '
  'all works in progress never exceed the number that contractor owns. This holds for every scheduler and specification.',
  ['inputs', 'configurations', 'schedules'],
  'all graphs, contractors (any order of worker kinds, kinds missing at some contractors), specifications and schedulers',
  'Tests run a handful of fixed set-ups through a validator that itself skips the last group of simultaneous events.',
  [TL + 'just_in_time_timeline.py', TL + 'momentum_timeline.py', 'sampo/scheduler/genetic/converter.py',
   'sampo/scheduler/genetic/utils.py', 'sampo/scheduler/utils/multi_contractor.py'],
  [('release stacks', 'JustInTimeTimeline._find_min_start_time / update_timeline'),
   ('availability events', 'MomentumTimeline._find_earliest_time_slot / update_timeline'),
   ('contractor limits', 'get_worker_borders, prepare_optimized_data_structures')],
  [('_timeline', 'workers released / available over time per contractor and kind', 'both timelines')],
  ['Schedule.works: workers, start_time, finish_time'])
p('C03', 'Teams satisfy the work requirements and the user specification',
  'Each scheduled work with worker requirements gets its whole team from one contractor, only kinds the work (or its inseparable '
  'chain) requires, and for each kind a number between the minimum and maximum of the requirement. Contractors allowed by the '
  'specification and worker counts fixed by it are obeyed. A schedule is refused (an error) only when no allowed contractor can '
  'supply the minimum.',
  ['inputs', 'configurations'],
  'all requirement sets (including minimum 0), contractors, full and partial specifications, schedulers and optimizers',
  'Existing tests use one-contractor pools and no partial worker specification.',
  ['sampo/scheduler/base.py', 'sampo/scheduler/generic.py', 'sampo/scheduler/utils/multi_contractor.py',
   'sampo/schemas/schedule_spec.py', 'sampo/scheduler/resource', 'sampo/scheduler/lft/base.py'],
  [('limits per contractor', 'get_worker_borders'), ('specification', 'Scheduler.optimize_resources_using_spec'),
   ('contractor filter', 'WorkSpec.filter_contractors, run_contractor_search')],
  None, ['ScheduledWork.workers, ScheduledWork.contractor_id'])
p('C04', 'Every work is scheduled exactly once and chains stay together',
  'The returned schedule contains every work of the graph exactly once and nothing else. All works of an inseparable chain are '
  'done in chain order by the same team of the same contractor, and a later chain work is delayed past its predecessor only by '
  'its other predecessors, their lags or material delivery.',
  ['inputs', 'configurations'],
  'all graphs with chains of any length (also with outside predecessors in the middle), all schedulers',
  'Tests count works on a few graphs; chains with outside predecessors in the middle are not covered.',
  ['sampo/scheduler/utils/__init__.py', 'sampo/schemas/graph.py', TL + 'just_in_time_timeline.py', TL + 'momentum_timeline.py',
   'sampo/schemas/schedule.py'],
  [('flattening chains to heads', 'get_head_nodes_with_connections_mappings'),
   ('chain discovery', 'GraphNode.get_inseparable_chain_with_self'),
   ('chain placement', '_schedule_with_inseparables of both timelines'),
   ('ordering the table', 'order_nodes_by_start_time, Schedule.from_scheduled_works')],
  None, ['Schedule.works'])
p('C05', 'Work durations equal the estimate or the user-fixed time',
  'A scheduled work lasts exactly what the work-time estimator gives for its assigned team, and zero when it needs no workers; '
  'for an inseparable chain the working times sum to the sum of the estimates. A user-fixed duration is met exactly: split over '
  'the works of the chain, every part is non-negative and the parts sum to the fixed time.',
  ['inputs', 'configurations'],
  'all volumes (zero, fractional, huge), chain lengths, fixed times, teams and schedulers',
  'Tests pick a few volumes and one fixed time; sums and non-negativity over all volumes are not checked.',
  [TL + 'utils.py', TL + 'just_in_time_timeline.py', TL + 'momentum_timeline.py', 'sampo/scheduler/utils/time_computaion.py'],
  [('split of a fixed time', 'get_exec_times_from_assigned_time_for_chain'),
   ('chain placement', '_schedule_with_inseparables of both timelines'),
   ('total working time', 'calculate_working_time_cascade')],
  None, ['ScheduledWork.start_end_time'])
p('C06', 'Resource-independent works run alone on their worker kinds',
  'While a work marked as resource-independent in the specification is in progress, no other work uses any worker kind of the '
  'same contractor that the marked work uses.',
  ['inputs', 'configurations'], 'all graphs and specifications with any subset of works marked, all schedulers',
  'No baseline test schedules more than one marked work or checks the mark on the result.',
  [TL + 'just_in_time_timeline.py', TL + 'momentum_timeline.py'],
  [('exclusive search', '_find_min_start_time, _find_earliest_time_slot'), ('exclusive booking', 'update_timeline'),
   ('parallel decoding', 'can_schedule_at_the_moment')], None, ['Schedule.works'])
p('C07', 'Timelines find feasible earliest slots and book exactly what was asked',
  'The start time a timeline proposes for a team and duration never precedes the requested moment and has enough free workers '
  'during the whole interval, and no earlier moment at which the resource profile allows the work is skipped by the interval '
  'timeline. Booking a team reduces availability of exactly the booked kinds, by the booked number, over exactly the booked '
  'interval, and total worker counts are conserved.',
  ['histories', 'inputs'], 'all sequences of bookings, all team sizes, durations (zero included) and request times',
  'Tests book one scripted sequence; the profile after arbitrary booking histories is not explored.',
  [TL + 'just_in_time_timeline.py', TL + 'momentum_timeline.py'],
  [('slot search', 'MomentumTimeline._find_earliest_time_slot, _find_min_start_time, JustInTimeTimeline._find_min_start_time'),
   ('booking', 'update_timeline of both timelines'), ('admissibility', 'can_schedule_at_the_moment')],
  [('_timeline', 'release stacks / availability events', 'both timelines')], ['timeline objects after each operation'])
p('C08', 'Resource optimizers stay in bounds and the best contractor is chosen',
  'Every resource optimizer leaves each worker count inside its lower and upper bound and does not touch positions it was told '
  'not to optimize. Among the allowed contractors the search returns one with the earliest finite finish time, preferring the '
  'smaller contractor on ties, together with the times and team computed for it.',
  ['inputs'], 'all bounds, optimize masks, fitness functions, contractor lists and finish times',
  'Tests run the optimizers through whole schedules on one pool; bounds and masks are never quantified over.',
  ['sampo/scheduler/resource/average_req.py', 'sampo/scheduler/resource/coordinate_descent.py',
   'sampo/scheduler/resource/full_scan.py', 'sampo/utilities/base_opt.py', 'sampo/scheduler/utils/multi_contractor.py'],
  [('optimizers', 'optimize_resources of each optimizer'), ('one-dimensional search', 'dichotomy_int, coordinate_descent'),
   ('contractor search', 'run_contractor_search, get_worker_borders')], None, ['Worker.count after the call', 'return values'])
p('C09', 'The schedule validator accepts valid and rejects invalid schedules',
  'Validation of a schedule of finite length raises no error if it obeys the graph, the requirements, the capacities and the allowed contractors. It '
  'raises an error whenever a work is missing, a work starts before a predecessor ends, a contractor not allowed by the '
  'specification is used, a team size leaves its bounds, a service work lasts, or a contractor is over-used at any moment.',
  ['inputs', 'schedules'], 'all graphs, schedules (valid, or corrupted in one place) and contractors',
  'Tests break a few schedules in a few fixed ways, at fixed places.',
  ['sampo/utilities/validation.py'],
  [('checks', 'validate_schedule and its _check_* functions')], None, ['AssertionError raised or not'])
p('C10', 'Genetic operators keep individuals feasible',
  'Applied to feasible individuals, every crossover and mutation operator yields feasible individuals: the work order stays a '
  'permutation that respects precedence and priorities, resource counts stay within the work bounds and the limits of the '
  'assigned contractor, the contractor stays one allowed for the work, and limits stay within the real contractor. Operators '
  'that copy leave their input individuals unchanged.',
  ['inputs', 'histories'], 'all feasible individuals, random choices, probabilities and operator sequences',
  'The genetic operator tests are not part of the stable suite and sample a few seeds.',
  ['sampo/scheduler/genetic/operators.py', 'sampo/scheduler/genetic/utils.py'],
  [('order operators', 'mate_scheduling_order, two_point_order_crossover, mutate_scheduling_order(_core)'),
   ('resource operators', 'mate_resources, mutate_resources, mutate_resource_borders, mutate_values'),
   ('feasibility test', 'is_chromosome_correct')], None, ['Individual contents'])
p('C11', 'Schedules and chromosomes convert into each other faithfully',
  'Converting a schedule into a chromosome keeps its work order, teams and contractors, and decoding a feasible chromosome with '
  'either generation scheme gives a complete schedule with exactly the teams and contractors the chromosome prescribes, that '
  'respects precedence and the limits of the chromosome. A chromosome judged correct is one whose order is topological, whose '
  'contractors are allowed and able to supply the workers.',
  ['inputs', 'configurations'], 'all schedules, feasible chromosomes, both schemes, any contractor and kind order',
  'Conversion tests are outside the stable suite and use one contractor order.',
  ['sampo/scheduler/genetic/converter.py', 'sampo/scheduler/genetic/utils.py', 'sampo/scheduler/genetic/operators.py'],
  [('encoding', 'convert_schedule_to_chromosome, prepare_optimized_data_structures'),
   ('decoding', 'serial_/parallel_schedule_generation_scheme'), ('feasibility test', 'is_chromosome_correct')],
  None, ['chromosome arrays, decoded works'])
p('C12', 'Processing orders are precedence-consistent permutations',
  'Every prioritization (HEFT, LFT, randomized LFT, topological, randomized topological) returns each schedulable work exactly '
  'once, every work after all its predecessors, and works of a smaller priority value first where precedence allows. Local '
  'optimization of an order keeps it a precedence-consistent permutation.',
  ['inputs', 'configurations'], 'all acyclic graphs, priorities that do not decrease along relations of chains (the pipeline corrects others), estimators and random seeds',
  'Tests check a few orders on generated graphs without priorities.',
  ['sampo/scheduler/heft/prioritization.py', 'sampo/scheduler/lft/prioritization.py', 'sampo/scheduler/topological/base.py',
   'sampo/utilities/priority.py', 'sampo/scheduler/utils/local_optimization.py', 'sampo/scheduler/utils/__init__.py'],
  [('ranks', 'ford_bellman, prioritization, lft_prioritization, lft_randomized_prioritization'),
   ('topological orders', 'toposort of TopologicalScheduler'), ('order tuning', 'SwapOrderLocalOptimizer')],
  None, ['returned node lists'])
p('C13', 'Work graphs are complete, consistent and topologically listed',
  'A work graph lists exactly the works reachable from its start, each once, predecessors first, start first and finish last, and '
  'its lookup tables, predecessor and successor views and adjacency agree with the edges. Merging chains to heads gives '
  'symmetric, self-free head relations in topological order that cover every edge between different chains.',
  ['inputs', 'histories'], 'all acyclic graphs, edge kinds and edge-adding histories',
  'Tests inspect a few hand-made graphs.',
  ['sampo/schemas/graph.py', 'sampo/scheduler/utils/__init__.py'],
  [('listing', 'WorkGraph._to_adj_matrix, GraphNode.traverse_children'), ('linking', 'GraphNode.add_parents and cached views'),
   ('heads', 'get_head_nodes_with_connections_mappings')], None, ['WorkGraph.nodes, dict_nodes, adj_matrix'])
p('C14', 'Graph editing changes exactly what was asked and keeps ordering',
  'Copying a graph or a part of it, inserting a work, inserting a graph into a graph and deleting a work return a new graph with '
  'all other works, their requirements and their links intact; the original graph is unchanged. Deleting keeps every ordering '
  'that existed through the deleted work; insertion adds exactly the requested links.',
  ['inputs', 'histories'], 'all graphs, edit positions, edge kinds and edit sequences',
  'Tests edit a few graphs and mainly check node counts.',
  ['sampo/structurator/prepare_wg_copy.py', 'sampo/structurator/insert_wu.py', 'sampo/structurator/delete_graph_node.py',
   'sampo/structurator/graph_insertion.py'],
  [('copy', 'prepare_work_graph_copy, copy_graph_node, restore_parents'), ('edits', 'insert_work_unit, delete_graph_node, '
    'graph_in_graph_insertion')], None, ['WorkGraph nodes and edges'])
p('C15', 'Restructuring a graph conserves volumes and ordering',
  'Restructuring returns a graph with only finish-start style links in which the stages of each original work form an '
  'inseparable chain whose volumes and requirement amounts sum to those of the original work. Every finish-start ordering of '
  'the original graph is kept between the first and last stages; no stage amount is negative and identifiers are unique. With the lag option a lag '
  'up to the volume of the predecessor (otherwise nothing) is the part of it done before a start-start or lag successor starts, '
  'and that share of the successor remains after the end of a finish-finish or lag predecessor.',
  ['inputs'], 'all graphs with any mix of edge kinds and lags, with and without lag optimization',
  'Tests restructure a few generated graphs and check structural counts.',
  ['sampo/structurator/base.py'],
  [('splitting', 'split_node_into_stages'), ('reconnecting', 'fill_parents_to_new_nodes'), ('driver', 'graph_restructuring')],
  None, ['WorkGraph returned'])
p('C16', 'Serialization round trips lose nothing',
  'Serializing a work graph, contractor, worker, requirement, time or schedule and reading it back yields an object equal in '
  'every serialized attribute: works, requirements, links with lags and kinds, teams, times, costs and volumes.',
  ['inputs'], 'all graphs, contractors, requirements, zones and schedules, through dict, JSON text, pickle and files',
  'Serialization tests of schedules are not in the stable suite; others use one generated object.',
  ['sampo/schemas/serializable.py', 'sampo/schemas/graph.py', 'sampo/schemas/works.py', 'sampo/schemas/schedule.py',
   'sampo/schemas/scheduled_work.py', 'sampo/schemas/resources.py', 'sampo/utilities/serializers.py'],
  [('reflection based serializers', 'AutoJSONSerializable, custom_serializer'), ('graph', 'WorkGraph._serialize/_deserialize')],
  None, ['reloaded objects'])
p('C17', 'Material supply respects stocks, vehicles, roads and work starts',
  'When works need materials, each work starts only when its platform has or has been delivered everything it needs. Stocks of '
  'depots and platforms never become negative and the vehicles in use never exceed what a depot owns or a road admits at any '
  'moment, nor is a vehicle that is on a road free in its depot; bookings change availability by exactly the delivered amounts.',
  ['inputs', 'histories'], 'all landscapes, material demands, work sequences and schedulers',
  'The material tests are mostly excluded from the stable suite and use one landscape.',
  [TL + 'hybrid_supply_timeline.py', TL + 'platform_timeline.py', 'sampo/schemas/landscape.py'],
  [('supply search', 'HybridSupplyTimeline._supply_resources, _find_earliest_start_time'),
   ('booking', 'HybridSupplyTimeline._update_timeline, PlatformTimeline.update_timeline'),
   ('stock on platform', 'PlatformTimeline.get_material_for_delivery')],
  [('_timeline', 'available amounts over time', 'both supply timelines')], ['ScheduledWork.materials, supply timelines'])
p('C18', 'Zone statuses required by works hold while they run',
  'A work with zone requirements starts only when each zone already has, or has had time to be switched to, the required status, '
  'and no other work needing a different status of that zone runs at the same time. The search never returns a moment before '
  'the requested one. Switches to the finishing statuses come after the works and take the configured times.',
  ['inputs', 'histories'], 'all zone configurations, change costs, requirement sets and booking histories',
  'The zone timeline test is excluded from the stable suite; others cover two statuses on one zone.',
  [TL + 'zone_timeline.py', 'sampo/schemas/zones.py'],
  [('search', 'ZoneTimeline.find_min_start_time, _find_earliest_time_slot'), ('booking', 'ZoneTimeline.update_timeline'),
   ('matching', 'DefaultZoneStatuses.match_status')],
  [('_timeline', 'status events per zone', 'ZoneTimeline')], ['Schedule.works zone overlaps, zone timeline'])
p('C19', 'Time arithmetic is exact and saturates at infinity',
  'Time values add, subtract, multiply, divide and compare like integers, with results saturated to plus or minus infinity so '
  'that no operation leaves the representable range; a saturated time is recognised as infinite. Operations never change their '
  'operands, and equality agrees with ordering and hashing.',
  ['inputs'], 'all integer operands, in and beyond the saturation range, Time/Time and Time/int mixtures',
  'Tests try a dozen literal values.',
  ['sampo/schemas/time.py'], [('operators', 'Time.__add__ ... Time.set_time, is_inf')], None, ['Time.value'])
p('C20', 'Work-time estimation is non-negative and infinite exactly below minimum',
  'The default estimator returns a non-negative time that is the largest, over the requirements, of volume divided by team '
  'productivity rounded up. It is infinite exactly when some requirement with a positive minimum is under-staffed (or its '
  'productivity is zero), and zero for an empty team.',
  ['inputs'], 'all requirement sets, team sizes within and outside bounds, volumes',
  'Tests evaluate a few teams.',
  ['sampo/schemas/time_estimator.py', 'sampo/scheduler/utils/time_computaion.py'],
  [('estimate', 'DefaultWorkEstimator.estimate_time, _get_productivity, communication_coefficient'),
   ('chain estimate', 'calculate_working_time_cascade'), ('average for priorities', 'work_priority')], None, ['returned Time'])
p('C21', 'Schedule measures equal their definitions',
  'The reported schedule length is the latest finish time; peak resource usage equals the true maximum of simultaneous use per '
  'worker kind, total usage and cost equal the sums over works of workers times duration and price. The critical path '
  'returned is a chain of dependent works whose total length (time of each work or chain plus one) is the graph\'s longest path.',
  ['inputs', 'schedules'], 'all schedules and graphs, with ties, zero-length works and several contractors',
  'Tests compare against one or two precomputed values.',
  ['sampo/schemas/schedule.py', 'sampo/utilities/resource_usage.py', 'sampo/scheduler/utils/critical_path.py',
   'sampo/schemas/scheduled_work.py'],
  [('length', 'Schedule.execution_time, order_nodes_by_start_time'), ('usage', 'get_total_resources_peaks, resources_sum, '
    'resources_costs_sum'), ('longest path', 'critical_path_graph, critical_path_schedule')], None, ['returned numbers and lists'])
p('C22', 'Ordered containers keep order and contents',
  'The sorted list with merging, the general timeline, the linked list with removal and the priority queue keep exactly the '
  'elements that were added and not removed, in the promised order, after any sequence of operations.',
  ['histories'], 'all operation sequences and element values including ties',
  'Tests run short scripted sequences, without removal at the ends or duplicates at bucket edges.',
  ['sampo/schemas/sorted_list.py', TL + 'general_timeline.py', 'sampo/utilities/linked_list.py',
   'sampo/utilities/priority_queue.py', 'sampo/utilities/collections_util.py'],
  [('containers', 'ExtendedSortedList.merge, GeneralTimeline.update_timeline, LinkedList.remove_if, PriorityQueue')],
  None, ['iteration over the container'])
p('C23', 'Scheduling is repeatable and leaves its inputs untouched',
  'Scheduling the same input twice with a deterministic scheduler (or with the same random seed) gives the same works, times and '
  'teams, whatever was scheduled before and whatever the hashing of strings in the process; a schedule call does not change the '
  'given graph, contractors, specification or start time (the announced correction of contradictory priorities by the pipeline '
  'aside).',
  ['inputs', 'histories'], 'all inputs and schedulers, repeated calls on the same objects in any order',
  'Tests compare no repeated runs and never look at the inputs afterwards.',
  ['sampo/scheduler/generic.py', 'sampo/scheduler/utils/__init__.py', 'sampo/scheduler/lft/base.py',
   'sampo/scheduler/topological/base.py', 'sampo/scheduler/base.py'],
  [('copies of workers', 'get_worker_contractor_pool, Worker.copy'), ('fresh timeline per call', 'build_scheduler'),
   ('seeded randomness', 'RandomizedTopologicalScheduler, RandomizedLFTScheduler')], None, ['inputs and Schedule.works'])
p('C24', 'Imported tables become the same acyclic graph',
  'Building a graph from a works table keeps every work with its volume, requirements and priority, and every listed link with '
  'its kind and lag between known works. When the table contains cycles, links are removed until it is acyclic, only links '
  'that lie on a cycle are removed, and no others are invented.',
  ['inputs'], 'all tables, link lists, weights and cycle structures',
  'Tests import two files; cycle removal is tested on fixed examples.',
  ['sampo/userinput/parser/general_build.py', 'sampo/userinput/parser/csv_parser.py'],
  [('cycle removal', 'Graph.find_cycle, eliminate_cycle(s), break_loops_in_input_graph'),
   ('table to graph', 'preprocess_graph_df, add_graph_info, topsort_graph_df, build_work_graph')], None, ['WorkGraph, DataFrame'])
p('C25', 'Landscape routes are real and shortest',
  'The distance table between different land nodes equals the shortest distances over the roads, and a constructed route is a connected sequence of '
  'available roads from the origin to the destination with the smallest total length, empty exactly when none exists.',
  ['inputs'], 'all land graphs, road lengths, one-way and two-way roads, subsets of available roads',
  'Tests look at one small landscape.',
  ['sampo/schemas/landscape.py', 'sampo/schemas/landscape_graph.py'],
  [('all pairs', 'LandscapeConfiguration._build_routes'), ('route', 'construct_route, _dijkstra, get_route'),
   ('nearest depots', 'get_sorted_holders')], None, ['dist_mx, returned routes'])
p('C26', 'Blocks are auctioned in dependency order to the best agent',
  'The multi-agent manager schedules every block exactly once, starts a block only after all blocks it depends on have ended, '
  'assigns it to an agent with the earliest offered finish, and updates only the winner\'s timeline. The order of blocks is a '
  'topological order of the block graph.',
  ['inputs', 'histories'], 'all block graphs, agents and schedulers',
  'Tests run generated block graphs with one agent configuration.',
  ['sampo/scheduler/multi_agency/multi_agency.py', 'sampo/scheduler/multi_agency/block_graph.py',
   'sampo/scheduler/multi_agency/block_validation.py'],
  [('auction', 'Manager.manage_blocks, run_auction, Agent.offer/confirm'), ('order', 'BlockGraph.toposort')],
  None, ['ScheduledBlock index, agents'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
print(len(P))
