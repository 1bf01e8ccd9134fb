"""The table behind properties.jsonl and MANIFEST.json."""

TRUST = ('Seeded search, not proof: it trusts the simulated dask cluster (client, scheduler, '
         'workers, as_completed, futures) to allow every behaviour the real one can show, and '
         'the reference oracle in the property module.')
TRUST_LOCAL = ('Seeded search, not proof: it trusts the reference oracle in the property module '
               'and the simulated environment described there.')


def fill(prop, NA):
    prop('C01', 'An asynchronous run spends exactly its birth budget',
         'An asynchronous steady-state run always terminates, and the number of evaluations it '
         'collects is exactly the initial population size plus the birth budget (plus, only when '
         'the offspring pipeline yields batches, an overshoot smaller than one batch). When failed '
         'evaluations are configured not to count, every failed evaluation, including one in the '
         'initial population or among the very last to arrive, is replaced by one more birth; when '
         'they count, none is. Every evaluation that is started is also collected, and the birth '
         'count published in the run state at the end is the number of births charged.',
         ['schedules', 'fault_sequences', 'configurations'],
         'every completion order, worker crash/re-execution pattern, evaluation failure pattern, '
         'population size, budget and batch size',
         'Tests run one small LocalCluster schedule with no failing evaluations; the budget '
         'arithmetic only goes wrong for particular orders of failure and completion.',
         ['leap_ec/distrib/asynchronous.py', 'leap_ec/util.py', 'leap_ec/distrib/evaluate.py'],
         [('steady-state loop and birth counter', 'leap_ec/distrib/asynchronous.py: steady_state'),
          ('birth counter', 'leap_ec/util.py: inc_births'),
          ('initial fan-out', 'leap_ec/distrib/asynchronous.py: eval_population')],
         observe=['individuals handed to the evaluated probe', 'births in the run context',
                  'tasks submitted to the client'],
         tech='seeded schedules, crashes and evaluation failures of the real steady-state loop on a '
              'simulated dask cluster, budget accounting checked over the recorded history',
         note=TRUST)

    prop('C02', 'Asynchronous evaluations are integrated exactly once',
         'In an asynchronous steady-state run every individual sent for evaluation is reported to '
         'the evaluation probe exactly once and offered to the population exactly once, however '
         'late, reordered or re-executed its evaluation is, and the population probe sees the '
         'population right after each insertion. The population never exceeds its capacity, never '
         'shrinks, never holds the same individual twice or an unevaluated one, changes only by '
         'those insertions, and its members are not altered afterwards; the returned population is '
         'the one after the last insertion. If an evaluation is lost for good the run fails loudly '
         'instead of returning normally.',
         ['schedules', 'fault_sequences', 'crash_points'],
         'every completion order, delay, worker crash before/during/after execution, and permanent '
         'loss of a task',
         'Tests only look at the final size of one run on a healthy local cluster.',
         ['leap_ec/distrib/asynchronous.py'],
         [('completion loop', 'leap_ec/distrib/asynchronous.py: steady_state'),
          ('insertion', 'leap_ec/distrib/asynchronous.py: tournament_insert_into_pop, greedy_insert_into_pop')],
         observe=['evaluated_probe', 'pop_probe', 'inserter calls', 'returned population'],
         tech='exactly-once and population-invariant checks over the history of seeded faulty '
              'schedules on a simulated dask cluster', note=TRUST)

    prop('C03', 'Steady-state replacement never trades a better solution for a worse one',
         'While the population is below capacity every evaluated individual is admitted; at '
         'capacity an arrival displaces at most one member, and only a member whose evaluation '
         'failed or that is strictly worse. Failed members always lose, even to another failed '
         'arrival, and a failed arrival never displaces a successfully evaluated member; under '
         'greedy insertion the displaced member is a failed one if any, else a worst one, and an '
         'arrival better than the worst is always admitted; under tournament insertion the arrival '
         'meets one randomly drawn member. Consequently the best fitness ever evaluated is always '
         'present in the population.',
         ['schedules', 'fault_sequences', 'histories'],
         'every arrival order and every mix of failed and successful evaluations, maximising and '
         'minimising',
         'Tests check two hand-built insertions; ordering with failed (NaN) fitness is position and '
         'history dependent.',
         ['leap_ec/distrib/asynchronous.py', 'leap_ec/individual.py', 'leap_ec/problem.py'],
         [('replacement', 'leap_ec/distrib/asynchronous.py: replace_if and the inserters'),
          ('ordering with NaN', 'leap_ec/problem.py: ScalarProblem.worse_than')],
         observe=['population before and after each insertion'],
         tech='every insertion of seeded faulty schedules compared with a reference replacement '
              'policy', note=TRUST)

    prop('C04', 'A distributed evaluation reports the execution that produced it',
         'An individual that comes back from a distributed evaluation is the one that was sent: '
         'same identity, birth number, genome and parents. The host, process, start time and stop '
         'time it carries are those of the worker execution whose result was delivered, read from '
         "that worker's clock before and after the evaluation, even if the evaluation failed, was "
         'executed several times on different workers, or the clock jumped.',
         ['schedules', 'crash_points', 'fault_sequences'],
         'every assignment of tasks to workers, crash and re-execution, clock skew and jump, and '
         'evaluation failure',
         'Tests check that some attributes exist after a run on one healthy machine.',
         ['leap_ec/distrib/evaluate.py', 'leap_ec/distrib/individual.py',
          'leap_ec/distrib/synchronous.py', 'leap_ec/distrib/asynchronous.py'],
         [('worker-side evaluation', 'leap_ec/distrib/evaluate.py: evaluate'),
          ('identity', 'leap_ec/distrib/individual.py: DistributedIndividual')],
         observe=['attributes of returned individuals'],
         tech='per-execution ledger of the simulated workers compared with what individuals carry '
              'back, under crashes, re-execution and clock faults', note=TRUST)

    prop('C05', 'A failing evaluation is contained, marked and counted',
         'If evaluating (or decoding) an individual raises any ordinary exception, the run goes on '
         'and that individual, and no other, is marked not viable, gets a NaN fitness and carries '
         'the exception; an evaluation that succeeds is marked viable, has exactly the value the '
         'problem returned and carries no exception, even if it descends from, or is a '
         're-evaluation of, a failed one. In distributed runs the failure count in the run state '
         'equals the number of individuals that came back failed.',
         ['fault_sequences', 'schedules', 'inputs'],
         'every exception type, every subset of failing evaluations, serial, synchronous and '
         'asynchronous evaluation, and worker re-execution',
         'Tests raise one exception type once in one process.',
         ['leap_ec/individual.py', 'leap_ec/distrib/evaluate.py', 'leap_ec/distrib/individual.py',
          'leap_ec/distrib/synchronous.py', 'leap_ec/distrib/asynchronous.py'],
         [('containment', 'leap_ec/individual.py: RobustIndividual.evaluate'),
          ('worker-side evaluation', 'leap_ec/distrib/evaluate.py: evaluate'),
          ('counting', 'leap_ec/distrib/evaluate.py: count_non_viable')],
         observe=['is_viable, fitness and exception of every individual', 'failure count in the context'],
         tech='exceptions injected at drawn evaluation and decoding points of serial and simulated '
              'distributed runs, compared with the application ledger', note=TRUST)

    prop('C06', 'Synchronous distributed evaluation is a complete, ordered map',
         'Synchronous distributed evaluation returns exactly the individuals it was given, in the '
         'order given and each evaluated once, whatever the order in which workers finish, crash or '
         're-execute; a pooled evaluation takes exactly the requested number of individuals from '
         'the pipeline and no more. A generational run with distributed evaluation performs '
         'exactly as many evaluations as its population size and offspring per generation imply. '
         'If an evaluation is permanently lost, or an individual type that does not contain errors '
         'raises, the caller gets an error instead of a shortened, reordered or unevaluated result.',
         ['schedules', 'fault_sequences', 'crash_points'],
         'every completion order, worker crash, re-execution, permanent loss, population and pool size '
         '(empty ones included)',
         'Tests evaluate one small population on a healthy in-process cluster, where results always '
         'come back.',
         ['leap_ec/distrib/synchronous.py', 'leap_ec/distrib/evaluate.py', 'leap_ec/algorithm.py'],
         [('map/reduce evaluation', 'leap_ec/distrib/synchronous.py: eval_population, eval_pool'),
          ('generational loop', 'leap_ec/algorithm.py: generational_ea')],
         observe=['returned populations', 'individuals pulled from the pipeline', 'application ledger'],
         tech='order and exactly-once checks over seeded faulty schedules of the synchronous '
              'evaluators on a simulated dask cluster', note=TRUST)

    prop('C07', 'Identities are unique and lineage is true',
         'Every individual an algorithm creates has an identity no other individual of the process '
         'has or had, and distributed individuals have strictly increasing birth numbers across '
         'all runs. The recorded parents of a clone are exactly the individual it was cloned from; '
         'after recombination both children list exactly the union of the parents of the two '
         'individuals that were recombined, and without recombination the parents are unchanged; '
         'an emigrant is a new individual whose recorded parent is the one that sponsored it. '
         'Mutation and evaluation change neither identity, birth number nor parents.',
         ['schedules', 'histories', 'fault_sequences'],
         'every algorithm, operator sequence, recombination decision, evaluation failure and '
         'sequence of runs',
         'Tests check one clone and one crossover; identity and lineage are statements about whole '
         'histories of breeding.',
         ['leap_ec/individual.py', 'leap_ec/distrib/individual.py', 'leap_ec/ops.py'],
         [('identity', 'leap_ec/individual.py: Individual.__init__, clone'),
          ('birth numbers', 'leap_ec/distrib/individual.py: DistributedIndividual'),
          ('lineage of recombination', 'leap_ec/ops.py: Crossover.__call__'),
          ('emigrants', 'leap_ec/ops.py: migrate')],
         observe=['uuid, birth_id and parents at every pipeline step'],
         tech='complete seeded runs of all algorithms with every pipeline step tapped, lineage '
              'compared with a reference genealogy', note=TRUST)

    prop('C08', 'A fitness always belongs to the genome that carries it',
         'After any pipeline, an individual that has a fitness has the fitness of the genome it now '
         'carries: operators that change a genome leave the individual unevaluated, and evaluation '
         '(one by one, grouped, pooled or distributed, with individual types that contain errors or '
         'not) stores the value of the current genome. Individuals that were not handed '
         'to an operator, in particular the originals of clones and all other members of the '
         'population, keep genome and fitness unchanged, because no two individuals ever share '
         'mutable genome data, not even segments of segmented genomes. Decoding an individual, clone '
         'or original, yields the phenome of the genome it now carries. All this also holds when an '
         'evaluation fails or a pipeline is abandoned half-way.',
         ['histories', 'inputs', 'fault_sequences'],
         'every sequence of cloning, mutation, crossover, segment and evaluation operators on '
         'vector and segmented genomes, with failures and abandoned pipelines',
         'Tests look at single operators on fresh individuals; aliasing only shows when a later '
         'operator touches an individual that shares data with an earlier one.',
         ['leap_ec/individual.py', 'leap_ec/ops.py', 'leap_ec/binary_rep/ops.py',
          'leap_ec/real_rep/ops.py', 'leap_ec/int_rep/ops.py', 'leap_ec/segmented_rep/ops.py',
          'leap_ec/problem.py'],
         [('cloning', 'leap_ec/individual.py: Individual.clone'),
          ('mutation', 'leap_ec/*_rep/ops.py'), ('recombination', 'leap_ec/ops.py: Crossover'),
          ('segments', 'leap_ec/segmented_rep/ops.py: copy_segment, add_segment'),
          ('grouped evaluation', 'leap_ec/ops.py: grouped_evaluate')],
         observe=['genome and fitness of every living individual after every pipeline'],
         tech='seeded sequences of breeding pipelines with injected failures and abandonment; all '
              'living individuals compared with a shadow copy after each', note=TRUST)

    prop('C09', 'Generational runs keep their best and can be resumed',
         'A generational run evaluates and keeps exactly the configured numbers of individuals in '
         'every generation, runs the generations from the start generation to the maximum, stops at '
         'the first generation for which the stop condition holds, and publishes the current '
         'generation number in the run state. Random search evaluates exactly the configured number of '
         'individuals, publishes the current step and hands over the evaluated individuals in order. Elitist survival keeps exactly the best among the offspring and the k best '
         'parents, truncation keeps exactly the best, insertion considers every offspring, all by fitness '
         'or by the parsimony key they are given, and '
         'none of them loses the best individual or prefers a failed evaluation to a successful '
         'one. A run that is killed at any point and resumed from a checkpoint of population, '
         'generation and random state ends exactly as the uninterrupted run would have.',
         ['crash_points', 'histories', 'fault_sequences'],
         'every population and offspring size, elite size, start generation, stop condition, '
         'failure pattern and crash point',
         'Tests use one size and no failures, and never crash a run.',
         ['leap_ec/algorithm.py', 'leap_ec/ops.py', 'leap_ec/util.py'],
         [('generational loop', 'leap_ec/algorithm.py: generational_ea'),
          ('elitism', 'leap_ec/ops.py: elitist_survival'),
          ('truncation', 'leap_ec/ops.py: truncation_selection'),
          ('insertion', 'leap_ec/ops.py: insertion_selection'),
          ('generation counter', 'leap_ec/util.py: inc_generation')],
         observe=['population at every stop decision', 'generation in the run context', 'final population'],
         tech='seeded runs observed at every generation, killed at drawn evaluations and resumed '
              'from simulated checkpoints, compared with the uninterrupted run', note=TRUST_LOCAL)

    prop('C10', 'Distribution is transparent and seeded runs are reproducible',
         'A seeded generational or island run gives the same genomes and fitnesses whether '
         'evaluated serially or on a distributed cluster, however workers are scheduled, crash or '
         're-execute, including which evaluations fail. Two runs with the same seeds of the two '
         'standard random generators give the same result whatever the host, process '
         'number, identifiers and clocks, also for random search and, given the same order of '
         'completions, for asynchronous runs.',
         ['schedules', 'crash_points', 'configurations'],
         'every completion order, worker fault, machine identity and clock, for every algorithm',
         'Tests run either serially or distributed, never both against each other, and on one '
         'machine.',
         ['leap_ec/algorithm.py', 'leap_ec/ops.py', 'leap_ec/distrib/synchronous.py',
          'leap_ec/distrib/asynchronous.py', 'leap_ec/distrib/evaluate.py'],
         [('distributed map', 'leap_ec/distrib/synchronous.py'),
          ('use of randomness', 'leap_ec/ops.py and the representations')],
         observe=['genomes and fitnesses of every population'],
         tech='the same seeded run executed twice: serially and on a faulty simulated cluster, or '
              'under two different simulated machine identities, clocks and identifiers', note=TRUST)

    prop('C11', 'Migration delivers every emigrant exactly once to a neighbour',
         'In an island run, at every generation that is a multiple of the migration gap each island '
         'with neighbours sends a copy of exactly one of its own members, chosen by the emigrant selector, to exactly '
         'one neighbour in the topology, which receives it the next time it takes its turn and '
         'only then; nothing is lost, duplicated or delivered elsewhere, and islands without '
         'neighbours keep everybody. An immigrant, with the customs stamp applied on arrival, replaces '
         'exactly the member the replacement selector chose unless that one is better; population sizes never change, sender and '
         'immigrant share no genome data, and every migration is logged in one correct row when '
         'logging is on. Islands take turns in order, each with its own pipeline, and the current '
         'island is published in the run state.',
         ['histories', 'configurations', 'fault_sequences'],
         'every topology (directed, disconnected), gap, selector, failure '
         'pattern and evaluation schedule',
         'Tests check one migration between two fixed islands.',
         ['leap_ec/ops.py', 'leap_ec/algorithm.py', 'leap_ec/multiobjective/ops.py'],
         [('migration', 'leap_ec/ops.py: migrate'),
          ('metric', 'leap_ec/ops.py: migration_metric'),
          ('island loop', 'leap_ec/algorithm.py: multi_population_ea')],
         state=['immigrants in transit in the closure of the migration operator'],
         observe=['every island population before and after migration', 'migration log'],
         tech='seeded island runs over drawn topologies with failing evaluations and faulty '
              'clusters, each migration step compared with a reference mailbox model', note=TRUST)

    prop('C12', 'Asynchronous NSGA-II keeps the population correctly ranked',
         'After every arrival, in whatever order evaluations complete, each member of an asynchronous '
         'multiobjective population carries the rank a full nondominated sort would give it, '
         'failed evaluations rank behind every successful one, and crowding distances are those '
         'of the member\'s front. The population never exceeds its capacity or loses anybody '
         'before it is full; when full, exactly one individual goes, a most crowded one of the '
         'last front.',
         ['schedules', 'histories', 'fault_sequences'],
         'every arrival order, number of objectives, mixture of maximised and minimised objectives, '
         'tie and failure pattern',
         'Tests insert a few handmade points; incremental rank updates go wrong only for particular '
         'arrival orders.',
         ['leap_ec/multiobjective/asynchronous.py', 'leap_ec/multiobjective/ops.py',
          'leap_ec/multiobjective/problems.py'],
         [('incremental ranking', 'leap_ec/multiobjective/asynchronous.py: ENLUInserter'),
          ('crowding', 'leap_ec/multiobjective/ops.py: crowding_distance_calc'),
          ('dominance', 'leap_ec/multiobjective/problems.py: MultiObjectiveProblem.worse_than')],
         observe=['population, rank and distance after every insertion'],
         tech='every arrival of seeded faulty asynchronous runs compared with a reference '
              'nondominated sort', note=TRUST)

    prop('C13', 'Generational NSGA-II keeps the best fronts',
         'In every generation of a generational multiobjective run the survivors of parents and '
         'offspring are the best fronts, the last one cut by crowding with the extremes kept first, '
         'and there are exactly as many as the population size. Both ranking procedures give every '
         'individual the rank of a true nondominated sort, crowding distances are those of its '
         'front, nobody is lost or duplicated by ranking, and failed evaluations '
         'rank behind every successful one. The run counts generations from its start generation, '
         'honours its stop condition and evaluates each offspring exactly once.',
         ['inputs', 'histories', 'fault_sequences'],
         'every set of objective values (ties and single-valued fronts included), number of '
         'objectives and failure pattern, serial and distributed',
         'Tests rank a few handmade points with no ties or failures.',
         ['leap_ec/multiobjective/nsga2.py', 'leap_ec/multiobjective/ops.py',
          'leap_ec/multiobjective/problems.py'],
         [('run', 'leap_ec/multiobjective/nsga2.py: generalized_nsga_2'),
          ('ranking', 'leap_ec/multiobjective/ops.py: fast_nondominated_sort, rank_ordinal_sort'),
          ('crowding', 'leap_ec/multiobjective/ops.py: crowding_distance_calc')],
         observe=['population, rank and distance in every generation'],
         tech='every generation of seeded serial and faulty distributed runs compared with a '
              'reference nondominated sort and survivor selection', note=TRUST)

    prop('C14', 'Logs of asynchronous runs are complete and durable',
         'At every moment of an asynchronous run, and so also after the client is killed at any '
         'point, the worker log on disk holds one complete row, in arrival order and with the '
         'right values, for every evaluation whose logging call returned, and the population log '
         'holds every complete snapshot that was due (every n-th call, starting with the first); only the call '
         'under way may leave a partial row at the end. A header is written at most once and '
         'only if asked for; a write error is reported to the caller and never silently dropped.',
         ['crash_points', 'fault_sequences', 'schedules'],
         'every crash point, disk error, completion order and logging interval',
         'Tests write to a healthy in-memory stream and never crash.',
         ['leap_ec/distrib/probe.py', 'leap_ec/distrib/asynchronous.py'],
         [('worker log', 'leap_ec/distrib/probe.py: log_worker_location'),
          ('population log', 'leap_ec/distrib/probe.py: log_pop')],
         state=['simulated disk contents'],
         observe=['bytes on the simulated disk after the crash or at the end'],
         tech='simulated buffered files with crash points and disk errors under seeded '
              'asynchronous runs; surviving bytes compared with the history', note=TRUST)

    prop('C15', 'Probes only watch, record what was there, and fail cleanly',
         'Putting a probe (printing, CSV, data frame, plot or diversity metric) into a pipeline '
         'changes neither the individuals that pass it nor the '
         'course of the run, and every row, value, point, rule box or graph it records or shows describes the population as it was '
         'at that moment and generation, even if individuals change afterwards; the best-so-far '
         'value never gets worse. A failing stream, metric or display surfaces as an error, and after any '
         'error or interruption, as after any normal call, global numpy printing is as before.',
         ['histories', 'fault_sequences', 'crash_points'],
         'every placement of probes, generation, population, stream failure, metric failure and '
         'interruption point',
         'Tests compare one CSV on a healthy stream; they never compare a run with and without '
         'probes and never fail a write.',
         ['leap_ec/probe.py', 'leap_ec/ops.py', 'leap_ec/executable_rep/rules.py',
          'leap_ec/executable_rep/neural_network.py'],
         [('program plots', 'leap_ec/executable_rep/rules.py: PlotPittRuleProbe; neural_network.py: GraphPhenotypeProbe'),
          ('attribute log', 'leap_ec/probe.py: AttributesCSVProbe'),
          ('statistics', 'leap_ec/probe.py: FitnessStatsCSVProbe, PopulationMetricsPlotProbe'),
          ('best so far', 'leap_ec/probe.py: BestSoFarProbe, BestSoFarIterProbe'),
          ('printing', 'leap_ec/probe.py: print_population, print_individual')],
         observe=['rows written', 'population before and after each probe', 'runs with and without probes',
                  'numpy print options'],
         tech='seeded runs with and without drawn probes compared, streams, metrics and '
              'interruptions failing at drawn points', note=TRUST_LOCAL)

    prop('C16', 'Fitness from an external program is right or refused',
         'When fitness comes from an external program, every individual gets the value the program '
         'printed for it, in order, whether evaluated alone, in groups, averaged over repetitions '
         'or on a cluster. If the program cannot be started, dies, exits with an error, or prints '
         'too few, too many, torn or non-numeric lines, an error is raised (or contained as a '
         'failed evaluation by individuals that contain errors) and no individual gets a number '
         'from that output.',
         ['fault_sequences', 'inputs', 'schedules'],
         'every population, group size, repetition count and way of failing of the program',
         'Tests run one healthy program.',
         ['leap_ec/problem.py', 'leap_ec/ops.py', 'leap_ec/individual.py'],
         [('external evaluation', 'leap_ec/problem.py: ExternalProcessProblem'),
          ('averaging', 'leap_ec/problem.py: AverageFitnessProblem'),
          ('groups', 'leap_ec/ops.py: grouped_evaluate')],
         observe=['fitness of every individual', 'errors raised'],
         tech='a simulated external program that fails to start, dies or tears its output at drawn '
              'points, compared with what it really printed', note=TRUST_LOCAL)

    prop('C17', 'Cooperative fitness comes from current collaborators',
         'Under cooperative coevolution the fitness of an individual is the mean of exactly the '
         'configured number of complete evaluations, each of a solution that has the individual in '
         'its own island\'s place and, in every other place, a member of that island\'s current '
         'population, newly chosen for every evaluation. The collaboration log, if any, has one correct set of rows per evaluation; an error '
         'of the complete problem or of the log reaches the caller and no individual gets a '
         'fitness from fewer evaluations.',
         ['histories', 'configurations', 'fault_sequences'],
         'every number of islands, turn order, collaborator choice, trial count and failure point',
         'Tests check one combination of two islands.',
         ['leap_ec/ops.py', 'leap_ec/problem.py', 'leap_ec/algorithm.py'],
         [('collaboration operator', 'leap_ec/ops.py: CooperativeEvaluate'),
          ('collaboration problem', 'leap_ec/problem.py: CooperativeProblem')],
         observe=['complete solutions evaluated', 'fitness', 'log rows'],
         tech='seeded coevolutionary runs with failing evaluations and logs; each complete '
              'evaluation compared with the current island populations', note=TRUST_LOCAL)

    prop('C18', 'Environment fitness comes from whole, separate episodes',
         'An environment evaluation runs exactly the configured number of episodes. Each starts '
         'with a reset, takes at most the configured number of steps, answers every observation '
         'with the controller\'s action for that observation, and ends at once when the '
         'environment reports termination or truncation unless it was configured to go on for '
         'all its steps. Reward fitness is the '
         'mean over the episodes of the summed rewards; survival fitness is the mean number of '
         'observations per episode; nothing leaks from one episode or individual to the next. A '
         'failing environment or controller surfaces as an error or, for individuals that contain '
         'errors, as a failed evaluation, and the environment stays usable for the next '
         'individual. The problem reports the dimensions of the observation and action spaces.',
         ['histories', 'fault_sequences', 'inputs'],
         'every reward stream, episode length, termination and truncation point, failure point, '
         'number of runs and step limit',
         'Tests evaluate one controller in one healthy environment.',
         ['leap_ec/executable_rep/problems.py'],
         [('episodes', 'leap_ec/executable_rep/problems.py: EnvironmentProblem.evaluate'),
          ('dimensions', 'leap_ec/executable_rep/problems.py: EnvironmentProblem.num_inputs, num_outputs, space_dimensions'),
          ('fitness from histories', 'leap_ec/executable_rep/problems.py: EnvironmentProblem._reward_fitness, _survival_fitness')],
         observe=['calls the environment receives', 'fitness', 'errors'],
         tech='a simulated environment with drawn rewards, endings and failures records every call; '
              'fitness compared with the recorded episodes', note=TRUST_LOCAL)

    prop('C19', 'Pipelines sharing operators can be interleaved and abandoned',
         'Pipelines that share operators may be pulled in any order and dropped at any point. A '
         'crossover operator pulls two parents per pair and never yields anything but their '
         'children; with persistent children every child of a pair comes out exactly once, even '
         'if the pipeline that bred it was abandoned or another one pulled in between, and a '
         'pipeline hands out left-over children before breeding; without persistence a pipeline '
         'yields only children it bred itself. Cyclic selections over the same or different '
         'populations advance independently, each visiting every member once per tour, and leave '
         'the population order as it was. A built-in operator fed the wrong kind of stream (a list for an '
         'iterator, an iterator for a list, or an unfinished operator) refuses it and takes nothing from it.',
         ['schedules', 'histories'],
         'every interleaving of pulls from, and abandonment of, any number of pipelines',
         'Tests drain one pipeline at a time.',
         ['leap_ec/ops.py', 'leap_ec/binary_rep/ops.py', 'leap_ec/real_rep/ops.py'],
         [('second child', 'leap_ec/ops.py: Crossover.__call__'),
          ('cyclic selections', 'leap_ec/ops.py: cyclic_selection, naive_cyclic_selection')],
         state=['second_child of a Crossover'],
         observe=['individuals pulled from every pipeline', 'pulls from upstream'],
         tech='a seeded scheduler interleaves, abandons and restarts real pipelines that share '
              'operators; what comes out is checked for exactly-once delivery', note=TRUST_LOCAL)

    prop('C20', 'Runs with contexts of their own do not disturb each other',
         'Several algorithm runs in one process, each with its own run state (context), give '
         'exactly the results they give alone under the same random numbers, however their steps '
         'interleave and even if one of them fails; the default context and the contexts of '
         'others are not touched; the generation, birth and failure counts in a run\'s own '
         'context are those of that run; and a run started in a context used before gives the '
         'same as in a fresh one, apart from accumulated counters.',
         ['schedules', 'histories', 'fault_sequences'],
         'every interleaving of generational, multi-population, random-search, NSGA-II and '
         'asynchronous runs with and without failures',
         'Tests execute one run at a time, nearly always in the default context.',
         ['leap_ec/algorithm.py', 'leap_ec/util.py', 'leap_ec/ops.py',
          'leap_ec/multiobjective/nsga2.py', 'leap_ec/distrib/asynchronous.py', 'leap_ec/probe.py'],
         [('generation counter', 'leap_ec/util.py: inc_generation'),
          ('birth counter', 'leap_ec/util.py: inc_births'),
          ('algorithms', 'leap_ec/algorithm.py: generational_ea, multi_population_ea, random_search'),
          ('schedules and migration', 'leap_ec/ops.py: migrate; leap_ec/real_rep/ops.py')],
         state=['leap_ec.global_vars.context', 'a context dict per run'],
         observe=['returned populations', 'contexts', 'probe records'],
         tech='seeded cooperative interleaving of whole runs, each compared with itself alone', note=TRUST_LOCAL)

    prop('C21', 'Whatever the random numbers, operators stay in bounds and conserve genes',
         'For every outcome of the random number generators, including the extreme ones: genes '
         'initialised or mutated under hard bounds lie within them; operators keep genome type '
         'and length; crossover of equally long parents puts at each locus the two parents\' '
         'genes, conserving them, with no more exchange points than asked; convexity sampling '
         'combines two different design points, point and value with the same weight, and stays '
         'between them; probability 0 never and probability 1 always '
         'acts; selections return members of the population (and their right indices), '
         'proportional and stochastic universal selection never return a member with no share, '
         'the latter giving each its expected count rounded up or down; adding, removing and '
         'copying segments leaves the other segments intact and never empties a genome, a mutation per '
         'segment is applied to its own segments only, and rule sets hold whole rules within the '
         'bounds of their decoder.',
         ['inputs', 'schedules'],
         'every sequence of random draws, population, probability, bound and genome length',
         'Tests sample ordinary draws; the endpoints of the generators\' ranges practically never '
         'occur under a test seed.',
         ['leap_ec/ops.py', 'leap_ec/real_rep', 'leap_ec/int_rep', 'leap_ec/binary_rep',
          'leap_ec/segmented_rep', 'leap_ec/executable_rep/cgp.py',
          'leap_ec/executable_rep/rules.py', 'leap_ec/landscape_features'],
         [('crossover', 'leap_ec/ops.py: UniformCrossover, NAryCrossover'),
          ('selection', 'leap_ec/ops.py: sus_selection, proportional_selection, tournament_selection, random_selection'),
          ('mutation bounds', 'leap_ec/real_rep/ops.py, leap_ec/int_rep/ops.py, leap_ec/binary_rep/ops.py'),
          ('segments', 'leap_ec/segmented_rep/ops.py')],
         observe=['genomes before and after each operator', 'selected individuals and indices'],
         tech='the random number generators are the seam: every draw is drawn by the simulator, '
              'with legal extreme values injected; conservation and bounds checked on each step', note=TRUST_LOCAL)

    prop('C22', 'The one-call optimiser returns the best point it evaluated',
         'ea_solve returns the best point among everything it evaluated, the initial population '
         'included; it evaluates the initial population and then one population per generation, '
         'only at points within the bounds when hard bounds are asked for; its '
         'best-so-far log has one row per generation and never gets worse. With a client the offspring '
         'are evaluated on its cluster. This holds whether '
         'evaluations run locally or on a cluster with delays, crashes and re-execution; failed '
         'evaluations neither end the run nor win it, and an error of the log stream reaches the '
         'caller.',
         ['configurations', 'schedules', 'fault_sequences'],
         'every objective, dimension, bounds, population size, generation count, direction of '
         'optimisation and evaluation schedule',
         'Tests check that one run ends near the optimum of one function.',
         ['leap_ec/simple.py'],
         [('one-call optimiser', 'leap_ec/simple.py: ea_solve')],
         observe=['arguments of the objective', 'returned genome', 'printed rows'],
         tech='seeded runs, local and on the simulated cluster with failing output streams, '
              'compared with the history of evaluated points', note=TRUST_LOCAL)

    prop('C23', 'A repertoire remembers what it learnt and hands all of it on',
         'A population-seeding repertoire holds, in order, exactly the last solution reported on each '
         'problem it was trained on; a training that fails leaves it as it was. What was exported '
         'without an error is what a repertoire imported from that file holds, for real, integer '
         'and binary genomes, and disk errors reach the caller. Every application starts with all '
         'remembered genomes in order, as many as fit and each once, then fresh ones; applications '
         'may be interleaved, and neither they nor the training runs ever change what is '
         'remembered, even if they change their own genomes in place.',
         ['histories', 'schedules', 'fault_sequences'],
         'every history of training, export, import and interleaved application, with failing runs '
         'and disks',
         'No test touches the module.',
         ['leap_ec/contrib/transfer/sequential.py'],
         [('repertoire', 'leap_ec/contrib/transfer/sequential.py: PopulationSeedingRepertoire'),
          ('seeding', 'leap_ec/contrib/transfer/sequential.py: initialize_seeded')],
         state=['the repertoire list', 'the exported CSV file'],
         observe=['repertoire contents', 'initial populations of the wrapped algorithm', 'the simulated disk'],
         tech='seeded histories of training, exporting to a faulty simulated disk, importing and '
              'interleaved application, compared with a reference memory', note=TRUST_LOCAL)

    prop('C24', 'Counters, alternating problems and birth numbers are true to the run',
         'Generation and birth counters start where they are told, publish every value in the run '
         'state they were given before telling each callback once and in order, and do not depend '
         'on other run states; the step reported is the published generation or number of births, '
         'and is refused when both or neither are there. A problem that alternates judges every '
         'evaluation and comparison of a generational or island run, the initial population '
         'included, by exactly the problem due at the generation published in its own run state, '
         'also in resumed and interleaved runs and in run states used before. Birth branding gives '
         'every individual without a number that passes it, in populations or in pipelines pulled in any '
         'order, the next number once, and never changes a number.',
         ['schedules', 'histories', 'configurations', 'fault_sequences'],
         'every sequence of counter operations, interleaving of runs and of pipelines, start '
         'generation, and schedule of the evaluations',
         'Tests count in one run with one counter, and evaluate alternating problems by setting the '
         'generation by hand.',
         ['leap_ec/util.py', 'leap_ec/problem.py', 'leap_ec/algorithm.py'],
         [('counters', 'leap_ec/util.py: inc_generation, inc_births, get_step'),
          ('alternating problem', 'leap_ec/problem.py: AlternatingProblem'),
          ('birth numbers', 'leap_ec/util.py: birth_brander')],
         state=['generation and births in the run state', 'the brander\'s next number'],
         observe=['run state', 'callbacks', 'which problem evaluates or compares', 'birth numbers'],
         tech='seeded interleavings of runs, counters and pipelines, serial or on the faulty simulated '
              'cluster, every counter value, evaluation and comparison compared with a reference',
         note=TRUST_LOCAL)

    prop('C25', 'Controllers answer from their own genome and the events so far',
         'A decoded controller (CGP circuit with or without parameters, neural network, Pitt rule '
         'set, or the argmax of one) gives every observation the answer its own genome encodes, '
         'whatever it or other controllers sharing its decoder or primitives were asked, decoded or '
         'sent elsewhere before and whichever primitive failed in between; the failure of a '
         'primitive reaches the caller. Of the rules that match, the first fires; if none matches, one of the closest does. A '
         'keyboard controller answers with the action of the last key pressed by the time it '
         'answers, until a key with that action is released, a random one with one sample per '
         'question. Answers given, questions and genomes are never changed afterwards. Truth-table '
         'and image problems score all rows and pixels. Genomes that break the constraints of their '
         'decoder, and torn images, are refused.',
         ['histories', 'schedules', 'fault_sequences'],
         'every interleaving of decodings, questions, key strokes and transports over any number of '
         'controllers, and every failing primitive application',
         'Tests decode one genome and ask it a few questions in isolation; nothing fails, nothing is '
         'interleaved and no key is pressed while a question is being answered.',
         ['leap_ec/executable_rep/executable.py', 'leap_ec/executable_rep/cgp.py',
          'leap_ec/executable_rep/neural_network.py', 'leap_ec/executable_rep/rules.py',
          'leap_ec/executable_rep/problems.py'],
         [('circuits', 'leap_ec/executable_rep/cgp.py: CGPExecutable.__call__, CGPDecoder.decode, prune_graph'),
          ('networks', 'leap_ec/executable_rep/neural_network.py'),
          ('rules', 'leap_ec/executable_rep/rules.py: PittRulesExecutable'),
          ('keyboard', 'leap_ec/executable_rep/executable.py: KeyboardExecutable')],
         state=['node outputs in a circuit\'s graph', 'the current key action'],
         observe=['answers', 'genomes and questions after each call', 'errors'],
         tech='seeded interleavings of decodings, questions, key strokes (virtual clock), transports and '
              'failing primitives over real controllers, every answer compared with a reference', note=TRUST_LOCAL)

    prop('C26', 'Analyses of recorded runs report what the runs recorded',
         'Combining the CSV files that fitness-statistics probes wrote for any number of runs and experiments, '
         'finished, cut off between rows, resumed into another file or empty, keeps every recorded row '
         'exactly once and its values as numbers, whatever the order of the files; the mean curves, '
         'areas and maxima per run, and averages per experiment computed from them are those of exactly '
         'the recorded rows, runs with the same job number in different experiments being different runs. '
         'A file that cannot be read or written makes the analysis fail, and a later one is right again.',
         ['histories', 'crash_points', 'fault_sequences'],
         'every set of runs, lengths, intervals, interruption points between rows, file orders and I/O errors',
         'Tests do not touch the analysis at all.',
         ['leap_ec/contrib/analysis.py', 'leap_ec/probe.py'],
         [('combining', 'leap_ec/contrib/analysis.py: cat_csv_files'),
          ('analysis', 'leap_ec/contrib/analysis.py: CurveAnalyzer, auc, max_value, analyze'),
          ('curves', 'leap_ec/contrib/analysis.py: CurvePlotter.plot_curves')],
         state=['the CSV files'],
         observe=['tables returned and written', 'lines of the plot', 'errors'],
         tech='seeded sets of real recorded runs on a simulated disk, cut off, resumed and reordered, with failing '
              'opens and writes, every table compared with one computed from what the probes were shown',
         note=TRUST_LOCAL)

    prop('N01', 'Benchmark functions compute their published formulas',
         'Every benchmark problem (spheroid, Rastrigin, Ackley, Langermann, Lunacek, DeceptiveTrap, '
         'LeadingOnes, ZDT and so on) returns the value of its definition for every phenome.',
         ['inputs'], 'every phenome in the domain of the function',
         'Tests sample a few points per function.',
         ['leap_ec/real_rep/problems.py', 'leap_ec/binary_rep/problems.py',
          'leap_ec/multiobjective/problems.py'],
         [('functions', 'leap_ec/real_rep/problems.py, leap_ec/binary_rep/problems.py')],
         observe=['returned fitness'])
    NA['N01'] = ('Pure functions of one argument: no schedule, time, I/O or fault for a simulator '
                 'to control, so simulation adds nothing over plain input testing.')

    prop('N02', 'Binary decoders compute the numbers their genome encodes',
         'Binary-to-integer and binary-to-real decoding, with and without Gray codes, and segmented decoding '
         'compute exactly the numbers the genome describes.',
         ['inputs'], 'every genome',
         'Tests sample a few genomes.',
         ['leap_ec/binary_rep/decoders.py', 'leap_ec/segmented_rep/decoders.py'],
         [('decoding', 'leap_ec/binary_rep/decoders.py; leap_ec/segmented_rep/decoders.py')],
         observe=['decoded phenome'])
    NA['N02'] = ('Pure functions of one genome; nothing nondeterministic for deterministic '
                 'simulation to control. Controllers, which have state, are claimed in C25.')

    prop('N03', 'Stochastic operators follow their stated distributions',
         'Tournament, proportional, rank and stochastic universal selection, mutation rates and '
         'step sizes follow the probability distributions their documentation states.',
         ['inputs'], 'every population and parameter setting, in distribution',
         'Tests use loose statistical thresholds on a few populations.',
         ['leap_ec/ops.py', 'leap_ec/real_rep/ops.py', 'leap_ec/binary_rep/ops.py'],
         [('distributions', 'leap_ec/ops.py; leap_ec/real_rep/ops.py')],
         observe=['empirical frequencies'])
    NA['N03'] = ('A statement about distributions, not about executions: no single simulated run '
                 'violates it, and replacing the generators (the seam) removes the very '
                 'distribution in question. What must hold for every draw is claimed in C21.')
