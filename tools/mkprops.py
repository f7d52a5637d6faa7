import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Budgeted runs stop at each budget and store one faithful checkpoint per budget",
 "A budgeted run lets the algorithm take another step exactly while the cost it has charged so far is below the current budget, working through the requested budgets in ascending order, and it stores exactly one result for every requested budget, under that budget's name. Each stored result is the algorithm's final population at that very moment, together with the problem's true objective values of exactly those individuals, in order, and the cost charged so far.",
 ["inputs","histories","configurations"],"every list of budgets (any order, spacing, duplicates), every sequence of per-step costs an algorithm may charge (including zero-cost and overshooting steps that cross several budgets) and every algorithm, including the island and hierarchical ones",
 "Tests run two budgets (50,100) with NSGAII on one problem and only look for a crash; stop conditions, skipped checkpoints, stale or empty populations and unsorted budgets are never compared with anything.",
 ["simulation/worker.py","algorithms/base/driver.py","simulation/factory.py","algorithms/IMGA/IMGA.py","simulation/serializer.py"],
 [("step loop guarded by cost < budget","algorithms/base/driver.py BudgetRun._start"),("checkpoint on completion of every budget","simulation/worker.py BudgetWorker.run_driver"),("budgets parsed and sorted","simulation/factory.py parse_budgets"),("final population of the island model","algorithms/IMGA/IMGA.py finalized_population")],
 [("cost","cost charged so far","Driver.cost"),("checkpoints","stored <budget>.pickle files","results dir")],["stored result files","sequence of step() and finalized_population() calls on the algorithm"])

p("C02","Timed runs sample at every multiple of the sampling step up to the timeout",
 "A timed run reports progress at consecutive multiples of the sampling step, with no gap, duplicate or reordering and never beyond the timeout, each report carrying the progress of the last step finished before the one that crossed the sampling instant; instants that pass before any earlier step has finished are reported as soon as the next step ends. Only time spent inside algorithm steps counts, no step is begun once that time has reached the timeout, and one result file is stored per reported instant under its time, holding the algorithm's then-current final population with the problem's true objective values and the cost charged by then.",
 ["inputs","histories","schedules"],"every sampling step and timeout, and every sequence of step durations, including steps longer than several sampling intervals, exact hits and a last step that overruns the timeout",
 "The only time test uses one hand-picked sequence of durations against a wall clock and is not in the stable set; nothing covers a step longer than the timeout, exact boundaries or the stored files.",
 ["algorithms/base/driver.py","simulation/worker.py","simulation/factory.py"],
 [("slot emission loop","algorithms/base/driver.py TimeRun._start"),("one file per emission","simulation/worker.py TimeWorker.run_driver")],
 [("time_elapsed","time spent in steps","TimeRun.time_elapsed"),("step_no","last slot emitted","TimeRun.step_no")],["emitted TimeProgressMessage stream","stored result files"])

p("C03","Every step yields exactly one report, numbered in order, with monotone true cost",
 "Every call that advances an algorithm performs exactly one step and returns exactly one progress report; reports are numbered 0, 1, 2, ... over the algorithm's lifetime, and each carries the cost charged by the algorithm at that moment, which never decreases. A run of n steps performs exactly n steps and delivers exactly n reports, and reports that carry a population carry the population the algorithm currently holds.",
 ["histories","configurations","inputs"],"every interleaving of direct stepping, n-step runs and budgeted runs on the same algorithm object, for every single-deme algorithm, the island model and the hierarchical model, and for subclasses that override stepping",
 "Unit tests check three consecutive reports of one dummy algorithm and one combined algorithm; other algorithms, inherited stepping, and mixed run types are not sampled.",
 ["algorithms/base/driver.py","algorithms/base/model.py","algorithms/IMGA/IMGA.py","algorithms/HGS/HGS.py","algorithms/JGBL/JGBL.py"],
 [("step counting metaclass","algorithms/base/driver.py StepCountingDriver"),("report built from the live algorithm","algorithms/base/model.py ProgressMessageAdapter"),("n-step run","algorithms/base/driver.py StepsRun")],
 [("step_no","number of reports already delivered","Driver.step_no")],["progress messages"])

p("C04","Cost equals the number of candidate evaluations performed",
 "The cost an algorithm reports equals the number of candidate solutions it has submitted for evaluation since it was created: each newly produced candidate is charged exactly once, whatever number of objectives the problem has, and a candidate found in a supplied cache of evaluations is free. Reading the final population or the current population charges nothing.",
 ["inputs","histories","configurations"],"every single-deme algorithm, every problem (any number of variables and objectives), every population size, every content of the evaluation cache and every number of steps",
 "Cost drives every budget, but the tests only check that some runs end; no test compares cost with the evaluations really made.",
 ["algorithms/NSGAII/NSGAII.py","algorithms/NSGAIII/NSGAIII.py","algorithms/SPEA2/SPEA2.py","algorithms/IBEA/IBEA.py","algorithms/SMSEMOA/SMSEMOA.py","algorithms/OMOPSO/OMOPSO.py","algorithms/NSLS/NSLS.py","algorithms/JGBL/JGBL.py"],
 [("objective calculation with cache lookup","*/calculate_objectives, _calculate_objectives, _scale_objectives")],
 [("cost","evaluations charged","Driver.cost"),("fitness_archive","cache of evaluations","constructor argument")],["calls received by the objective functions","reported cost"])

p("C05","Populations stay inside the search box and keep their size",
 "After construction and after every step, each individual of an algorithm's current population and final population has one value per decision variable and lies inside the problem's bounds. Once it has made a step, the algorithm's final population has exactly as many individuals as the initial one (for the particle-swarm algorithm: its current population does), and constructing or running an algorithm never alters the initial population it was given.",
 ["inputs","histories","configurations"],"every single-deme algorithm, every non-degenerate box (asymmetric, negative, tiny), every initial population of at least two individuals, including points on the bounds and duplicates, every mutation and crossover rate, every number of steps",
 "Tests use one problem with bounds [0,1] and never look at a variable's value.",
 ["algorithms/base/drivertools.py","algorithms/NSGAII/NSGAII.py","algorithms/NSGAIII/NSGAIII.py","algorithms/NSLS/NSLS.py","algorithms/OMOPSO/OMOPSO.py","algorithms/JGBL/JGBL.py","algorithms/SPEA2/SPEA2.py","algorithms/IBEA/IBEA.py","algorithms/SMSEMOA/SMSEMOA.py","evotools/ea_utils.py"],
 [("polynomial mutation clamps","algorithms/base/drivertools.py mutate"),("crossover clamps","algorithms/base/drivertools.py crossover"),("position clamping and bounce","algorithms/OMOPSO/OMOPSO.py move"),("selection keeps population_size","*_environmental_selection, next_generation, create_final_population")],
 None,["population","finalized_population()","the initial population object"])

p("C06","Selection never discards a candidate that dominates one it keeps",
 "When an elitist algorithm cuts its candidates (parents, archive and offspring) down to the population size, no discarded candidate Pareto-dominates a kept one. The algorithms that rank by fronts or strength (NSGA-II, JGBL, SPEA2, SMS-EMOA, NSLS) keep a dominated candidate only when every non-dominated one is kept, and NSGA-II, JGBL and SMS-EMOA fill whole layers in order. Kept candidates are always a sub-multiset of the candidates offered, of exactly the population size (for NSGA-III, whose ranking is by theta-dominance, only this last sentence holds).",
 ["inputs","histories"],"every candidate set with any pattern of ties, duplicates and dominated chains, and every number of objectives, for NSGA-II, JGBL, SPEA2, IBEA, SMS-EMOA, NSLS and NSGA-III",
 "No test inspects survivors; the effect of a selection mistake is a slightly worse front in a random run.",
 ["algorithms/NSGAII/NSGAII.py","algorithms/SPEA2/SPEA2.py","algorithms/IBEA/IBEA.py","algorithms/SMSEMOA/SMSEMOA.py","algorithms/NSLS/NSLS.py","algorithms/JGBL/JGBL.py"],
 [("rank then crowding","algorithms/NSGAII/NSGAII.py _environmental_selection"),("strength fitness and truncation","algorithms/SPEA2/SPEA2.py environmental_selection"),("indicator fitness","algorithms/IBEA/IBEA.py _environmental_selection"),("hypervolume contribution of the worst front","algorithms/SMSEMOA/SMSEMOA.py reduce_population"),("front filling","algorithms/NSLS/NSLS.py next_generation")],
 None,["candidates before and survivors after selection"])

p("C07","Dominance tests, front layering and non-dominated filtering are exact",
 "One objective vector dominates another exactly when it is no worse in every objective and better in at least one. Layering a set puts every element in exactly one layer, layer k holding exactly those elements not dominated by any element outside layers 1..k-1; filtering keeps exactly the distinct-or-repeated elements that no other element dominates, whatever the order or duplication of the input.",
 ["inputs"],"all pairs and all multisets of objective vectors, with ties and duplicates, for two or more objectives, and every implementation of these operations in the platform",
 "The existing unit tests list a handful of example fronts; ties and duplicates across three objectives and the algorithm-private copies of the sort are not covered.",
 ["evotools/ea_utils.py","algorithms/NSGAII/NSGAII.py","algorithms/SMSEMOA/SMSEMOA.py","algorithms/NSLS/NSLS.py","metrics/metrics_utils.py"],
 [("three-way comparison","evotools/ea_utils.py domination_cmp"),("layering","evotools/ea_utils.py paretofront_layers"),("fast sort","algorithms/NSGAII/NSGAII.py _nd_sort, algorithms/SMSEMOA/SMSEMOA.py nd_sort, algorithms/NSLS/NSLS.py nd_sort"),("filter","metrics/metrics_utils.py filter_not_dominated")],
 None,["returned layers and filters"])

p("C08","Particle-swarm archives stay mutually non-dominated and bounded",
 "At every moment no leader of the particle-swarm algorithm dominates or equals another leader in objective space, there are at most as many leaders as particles, and no member of the result archive dominates another one under the archive's tolerance or equals it in objective space; every candidate ever evaluated is weakly dominated by an archive member under the tolerance. A candidate is refused only because a member dominates or equals it, and a member is evicted only because the newcomer dominates it or, for leaders, because the bound is exceeded.",
 ["inputs","histories"],"every sequence of candidates with positive objectives offered to the archives (any order, ties, duplicates, one candidate dominating several adjacent members) and every number of steps",
 "Archives are only exercised through random runs whose content nobody checks.",
 ["algorithms/OMOPSO/OMOPSO.py"],
 [("insertion with eviction","algorithms/OMOPSO/OMOPSO.py Archive.add"),("pruning","algorithms/OMOPSO/OMOPSO.py LeaderArchive.prune")],
 [("archive","result archive","OMOPSO.archive"),("leader_archive","leaders","OMOPSO.leader_archive")],["archive contents after each insertion and each step"])

p("C09","Island migration moves individuals without losing or copying any",
 "The initial individuals are dealt out so that every one lands on exactly one island and island sizes differ by at most one; every epoch each island performs exactly the configured number of steps, then sends exactly the configured number of migrants to each of its neighbours and to nobody else. Across migration the multiset of all individuals is unchanged, every island keeps its size, migrants come from the sender's population as it was before migration, and the reported cost is the sum of the islands' costs.",
 ["histories","inputs","configurations","schedules"],"every island count, topology, migrant count, epoch length and population (with duplicates), every thread schedule of the islands' epochs, and every algorithm the island model can drive",
 "One test uses dummy algorithms with a fixed cost and checks a sum and a count; who goes where and whether anyone is lost is never checked.",
 ["algorithms/IMGA/IMGA.py","algorithms/IMGA/message.py","algorithms/SPEA2/message.py","algorithms/SMSEMOA/message.py","algorithms/OMOPSO/message.py","evotools/random_tools.py"],
 [("dealing out","algorithms/IMGA/IMGA.py create_islands"),("exchange","algorithms/IMGA/IMGA.py migration / Island.emigrate / immigrate / assimilate"),("per-algorithm exchange","algorithms/*/message.py *IMGAMessageAdapter"),("cost sum","algorithms/IMGA/IMGA.py update_cost")],
 [("visa office","migrants waiting","Island.visa_office")],["island populations before and after migration","message adapter calls"])

p("C10","The migration topology is symmetric, loop-free and connected at every size",
 "For every number of islands the topology lists, for each island, only other existing islands; being a neighbour is mutual, every island can be reached from every other one when there are at least two, and no island has more than four neighbours.",
 ["configurations"],"every torus width and every number of islands",
 "Tests use two or three islands only; incomplete rows behave differently for every residue.",
 ["algorithms/IMGA/topology.py"],
 [("torus construction with incomplete last row","algorithms/IMGA/topology.py TorusTopology.create")],
 None,["adjacency list returned"])

p("C11","The sequential hierarchical strategy obeys its sprout life-cycle rules",
 "In every step only living demes evolve, each for exactly its level's metaepoch length, and then: a living deme dies exactly when it stopped progressing (it then becomes ripe) or is closer than its level's distance to a ripe deme or to an older deme of its level that was still alive after the progress check; only ripe demes above the lowest level sprout, each at most the configured number per step and releasing no sprout that would exceed the limit of living sprouts, each sprout starting around one of the parent's delegates that is not redundant with a deme of the child level that has already run, varied at its own level's rate and run with its own level's parameters. A ripe deme whose ancestors are all ripe releases as many sprouts as these rules allow. Dead demes keep their population, and only when no deme is alive are the ripe demes revived, relaxing the progress thresholds by half, so that some deme is alive after every step.",
 ["histories","inputs","configurations"],"every history of deme progress, positions, delegates and costs over any number of steps, and every configuration of levels' sizes, thresholds, sproutiveness and sprout limit",
 "One stable test checks step numbering of the model; life-cycle decisions depend on long histories (at least three metaepochs per deme) that tests never reach or inspect.",
 ["algorithms/HGS/classic/ClassicHGS.py","algorithms/HGS/HGS.py"],
 [("trim, release, revive","algorithms/HGS/classic/ClassicHGS.py trim_not_progressing / trim_redundant / Node.release_new_sprouts / revive_root")],
 [("alive, ripe","deme status","ClassicHGS.Node"),("sprouts","child demes","ClassicHGS.Node.sprouts")],["deme tree after every step"])

p("C12","Hierarchical cost is the level-weighted sum of deme costs; fitness is unbiased",
 "After every step the hierarchical model's cost has grown by the sum over the demes that ran of their level's cost modifier times the cost they charged in that metaepoch, and its final population is the concatenation of all demes' last populations. In the sequential and the distributed variant alike, a level configured with no noise sees exactly the problem's objective values whatever their sign, and every individual of a deme is representable with its level's number of mantissa bits.",
 ["histories","inputs","configurations"],"every sequence of deme costs, every vector of cost modifiers, every problem including negative objectives, and every mantissa setting",
 "Tests use equal modifiers and do not compare cost with the demes; objectives that are negative appear only in problems the tests do not run.",
 ["algorithms/HGS/classic/ClassicHGS.py","algorithms/HGS/tools.py","algorithms/HGS/HGS.py","algorithms/HGS/distributed/actors.py"],
 [("cost weighting","algorithms/HGS/classic/ClassicHGS.py run_metaepoch / _update_cost"),("noise","algorithms/HGS/classic/ClassicHGS.py blurred_fitnesses, algorithms/HGS/tools.py blurred_fitnesses"),("coding precision","trim_vector")],
 None,["reported cost vs costs of the demes","values seen by the demes' algorithms"])

p("C13","The distributed strategy answers every request once under any schedule",
 "Whatever the order in which messages between the coordinator and the demes are delivered, every request of a step is answered exactly once, and the step returns only after every deme involved has done its part, so a step always completes; no deme runs a metaepoch twice or skips one in a step. The cost grows by the largest weighted cost among the demes that ran, and the returned population is the union of all demes' last populations, each exactly once.",
 ["schedules","histories","configurations"],"every delivery order that respects the order between each pair of actors, every tree of demes and every number of steps",
 "The distributed variant is not in the stable tests at all (it needs an actor system); a real run shows one schedule.",
 ["algorithms/HGS/distributed/actors.py","algorithms/HGS/distributed/hgs_tasks.py","algorithms/HGS/distributed/node_tasks.py","algorithms/HGS/distributed/DistributedHGS.py"],
 [("task per request with counted replies","algorithms/HGS/distributed/hgs_tasks.py"),("node tasks","algorithms/HGS/distributed/node_tasks.py")],
 [("tasks","open requests","TaskActor.tasks")],["messages between actors"])

p("C14","The distributed strategy applies the same sprout life-cycle rules",
 "In the distributed variant too, a living deme dies exactly when it stopped progressing (becoming ripe) or is closer than its level's distance to a ripe deme or to a deme of its level compared before it (the demes alive after the progress check are compared in some order); only ripe demes sprout, each at most the configured number per step, releasing no sprout that would exceed the limit of living sprouts, and never around a delegate redundant with a deme of the child level that has already run. A ripe deme goes on releasing while these rules allow and a delegate is left that is also not redundant with a sprout of this step. A sprout is varied at its own level's rate and run with its own level's parameters. Ripe demes are revived, and thresholds halved, exactly when no deme is alive at the end of a step.",
 ["histories","schedules","configurations"],"every history of deme progress, positions and delegates, every delivery order, and every configuration",
 "No stable test executes the distributed variant.",
 ["algorithms/HGS/distributed/hgs_tasks.py","algorithms/HGS/distributed/node_tasks.py","algorithms/HGS/distributed/actors.py"],
 [("redundancy trimming","algorithms/HGS/distributed/hgs_tasks.py TrimRedundantHgsTask"),("sprouting","algorithms/HGS/distributed/node_tasks.py ReleaseSproutsNodeTask"),("revival","algorithms/HGS/distributed/hgs_tasks.py ReviveHgsTask")],
 [("alive, ripe","deme status","Node actor")],["deme state after every step"])

p("C15","Runs are isolated: nothing a run does changes a later run",
 "Running any algorithm on any problem leaves the platform's configuration, the problem's bounds, objectives and reference front, and the populations handed to other runs exactly as they were, so that preparing the same configuration again yields the same parameters whatever was run before. Two algorithm instances prepared in the same process never share mutable state such as individuals, archives, caches or thresholds.",
 ["histories","programs"],"every sequence of simulations executed in one process, in any order, including failing ones",
 "Tests run each configuration once in a fresh state, so leakage from one run to the next cannot show.",
 ["simulation/factory.py","simulation/run_config.py","algorithms/HGS/classic/ClassicHGS.py","algorithms/HGS/distributed/DistributedHGS.py","algorithms/OMOPSO/OMOPSO.py","algorithms/IMGA/IMGA.py"],
 [("per-run configuration dictionaries","simulation/factory.py prepare_with_driver"),("threshold relaxation on revival","algorithms/HGS/classic/ClassicHGS.py revive_root")],
 [("algo_base","shared defaults","simulation/run_config.py")],["configuration before and after runs","parameters of successive preparations"])

p("C16","Stored results survive, are found again exactly, and survive a crash mid-write",
 "Every stored checkpoint is later loaded back with exactly the population, objective values and cost that were stored, listed once under its problem, algorithm and budget, in ascending budget order and with runs numbered in a stable order; distinct simulations never write to the same place. If the process is killed at any point while storing, everything stored earlier still loads and the interrupted checkpoint is either absent or complete.",
 ["histories","crash_points","inputs"],"every set of stored runs and checkpoints (budgets of different digit counts, several problems and algorithms, unrelated files in the folders) and every crash point during storing",
 "Tests store and never load back; crash points are not reachable by unit tests.",
 ["simulation/serializer.py","simulation/serialization.py","simulation/model.py"],
 [("store/load","simulation/serializer.py Serializer"),("enumeration","simulation/serialization.py each_result"),("unique ids","simulation/model.py get_simulation_id")],
 None,["result directory tree","results yielded when loading"])

p("C17","The job queue runs every selected simulation exactly once, whatever fails",
 "The queue consists of exactly the requested repetitions of every selected problem and algorithm pair, each with its own run number and the requested parameters, and every one of them is executed exactly once in some order. A simulation that fails, or whose configuration is not viable, neither stops nor disturbs the others: its algorithm object is released, it is reported as an error, and the remaining simulations still run and are stored.",
 ["fault_sequences","histories","inputs","configurations"],"every selection, repetition count and queue order, and every subset of simulations failing at preparation, construction, a step, or storing",
 "The smoke test runs two successful simulations; no test makes a simulation fail.",
 ["simulation/run_parallel.py","simulation/worker.py","simulation/factory.py"],
 [("queue","simulation/run_parallel.py run_parallel"),("failure containment","simulation/worker.py SimulationWorker.run")],
 [("results","outcomes in queue order","run_parallel")],["workers executed","files stored","error summary"])

p("C18","Command-line selection and layered configuration resolve to documented values",
 "Requested problems and algorithms are matched by exact name ignoring case, unknown names select nothing, and omitting the option selects all of them. For every algorithm chain each parameter takes its value from the most specific configuration layer that defines it (problem, sub-algorithm, algorithm defaults, algorithm with sub-algorithms, problem-specific, then initialisation functions from general to specific), a combination without the required communication adapter is rejected as not viable, and a default-size population inside the bounds is generated exactly when none is configured.",
 ["configurations","inputs"],"every combination of layers defining a parameter, every chain of one to three algorithms, every problem, and every selection string",
 "Tests use one spelling of one selection and never override a layer.",
 ["simulation/factory.py","simulation/run_config.py"],
 [("layer merge","simulation/factory.py prepare_with_driver"),("selection","simulation/factory.py parse_algorithms / parse_problems"),("viability","simulation/factory.py prepare_message_adapter_class")],
 None,["simulation list","parameters of the prepared algorithm"])

p("C19","Cached indicator values always describe the results they are attached to",
 "An indicator value read from the cache equals the value computed from scratch for that very result, and asking for a cached value with different parameters fails loudly instead of answering. The Pareto dominance indicator of a run compares it with exactly the corresponding checkpoints (same budget, same run number) of all algorithms present, and is recomputed for every run once any result of that problem has been added, removed or changed.",
 ["histories","inputs"],"every history of adding results, adding algorithms and querying indicators, and every naming and creation order of run folders",
 "The stable test computes statistics once on fresh results; no test adds runs between queries.",
 ["simulation/metrics_processor.py","simulation/serialization.py","metrics/metrics_utils.py"],
 [("indicator cache","simulation/metrics_processor.py get_metric"),("dominance cache and invalidation","simulation/metrics_processor.py filter_non_dominated_in_cache / clear_old_pdi_metrics")],
 [("*.pickle caches","cached indicator values","results dir")],["indicator values returned"])

p("C20","Hypervolume is the exact measure of the dominated region",
 "The hypervolume of a set equals the measure of the union of boxes between its points and the reference point, ignoring points not strictly better than the reference point in every objective. It therefore does not depend on order, duplicates or dominated points, and the input set is left unchanged.",
 ["inputs"],"every finite set of points in two or more objectives, with ties, duplicates, dominated points and points at or beyond the reference point, and every reference point",
 "No test of the hypervolume exists; it is used to steer selection and sprouting as well as to report quality.",
 ["algorithms/base/hv.py"],
 [("dimension sweep","algorithms/base/hv.py HyperVolume")],
 None,["value returned"])

p("C21","Rankings and indicator statistics follow their definitions",
 "The result used for a budget is the latest checkpoint whose mean cost does not exceed the allowance, or none; the winner of a comparison is the best score for the indicator's direction, and exactly the other algorithms within the tolerance are its ties. Indicator values are what their definitions give: distance indicators are zero exactly when the covered front is met, the dominance ratio is the share of the joint front that the run attains, and none of them depends on the order of the points.",
 ["inputs"],"every list of checkpoints with any costs, every score list, every pair of finite point sets",
 "Statistics are only exercised through one plotting smoke run.",
 ["statistic/ranking.py","statistic/stats.py","statistic/stats_bootstrap.py","metrics/metrics_utils.py","metrics/metrics.py","metrics/epsilon.py","simulation/metrics_processor.py"],
 [("acceptable checkpoint","statistic/stats_bootstrap.py find_acceptable_result_for_budget"),("ties","statistic/ranking.py get_weak_winners"),("indicators","metrics/metrics_utils.py, metrics/epsilon.py")],
 None,["returned values"])
p("C22","Reports and figures show exactly the stored results",
 "Whatever history of storing, rewriting and removing results came before, in whatever order the file system lists the folders and in whatever results directory the user names, each reporting command shows each stored value in its own place and nothing else: the summary counts the runs of every problem, algorithm and checkpoint; stats prints for each of them and every indicator the mean over exactly its runs, within an interval inside their range; the curves over time have one point per checkpoint, the mean, all inside the plot; the score summary, the fronts and the violins show for every algorithm with a plot style the checkpoint that represents it (and omit it if there is none), the score relative to the best of its own problem, the population of its first run, and the values of its runs. A problem or algorithm without results, without acceptable results or without a style never prevents the report on the others.",
 ["histories","inputs","configurations"],"every history of results stored, replaced and removed, every content, every set of problems and algorithms, every results directory and selection",
 "One smoke run of pictures_summary is all the tests do with reports; no test compares a number shown with a stored result.",
 ["statistic/summary.py","statistic/stats.py","plots/pictures.py","plots/best_fronts.py","plots/violin.py","simulation/serialization.py","evogil.py"],
 [("rows","statistic/summary.py analyse_results, statistic/stats.py statistics"),("figures","plots/pictures.py pictures_time / pictures_summary, plots/best_fronts.py best_fronts, plots/violin.py violin"),("dispatch","evogil.py main_worker")],
 [("results directory","stored checkpoints of every problem, algorithm and run","simulation/serialization.py each_result")],["printed rows and the contents of the figures saved"])
p("C23","Benchmark problems agree with the Pareto fronts they declare",
 "Every benchmark problem with a known Pareto front (ZDT1-4, ZDT6, UF1-UF10) evaluates every point of its box, whatever was evaluated before and in whatever order, to the same finite values and leaves the point as it was, and its declared front is the true one up to its mesh: no point of the box beats a declared point in all objectives, declared points have one value per objective and do not dominate each other, every declared point is attained by a point of the box, no point of the box goes beyond the front by more than the spacing of the declared points, and the best value of every objective is declared. Every indicator computed against the front (distances, epsilon, Hausdorff) rests on this.",
 ["inputs","histories"],"every point of every problem's box and every order of evaluations",
 "No test evaluates a benchmark objective against the front it declares; a front of unattainable points silently shifts every indicator.",
 ["problems"],
 [("objectives","problems/*/problem.py fitnesses"),("box","problems/*/problem.py dims"),("fronts","problems/*/problem.py pareto_front")],
 [("point of the box","objective values","problems/*/problem.py fitnesses")],["values returned by the objective functions; pareto_front, dims"])
p("C24","Survivor selection follows each algorithm's own diversity measure",
 "Where Pareto dominance leaves open which candidates survive, each elitist algorithm decides by its own measure of diversity: in the layer that does not fit whole, NSGA-II and JGBL keep the best of every objective and then the candidates with the largest crowding distance within that layer (the normalised gap between the neighbours in each objective, the worst value counting twice its distance to its neighbour); SMS-EMOA drops the member of the last layer whose exclusive share of the hypervolume is smallest; SPEA2 truncates too many non-dominated candidates one at a time, always the one closest to the others (nearest distance first, ties decided by the next ones), and fills up too few by the least total strength of their dominators and, among equals, the largest distance to the k-th nearest candidate; IBEA removes one at a time the candidate with the worst additive-epsilon fitness among those still there; NSGA-III ranks the candidates nearest to the same reference line by theta fitness (position along the line plus theta times the distance from it, objectives scaled from the ideal point seen so far to the worst values of the pool), keeps whole ranks in order and fills up from the next one. Ties may go either way.",
 ["inputs","histories"],"every multiset of objective vectors, every population size, every generation",
 "The tests never look at which of several mutually non-dominated candidates survives; losing diversity leaves results plausible but wrong.",
 ["algorithms/NSGAII","algorithms/JGBL","algorithms/SPEA2","algorithms/SMSEMOA","algorithms/IBEA","algorithms/NSGAIII"],
 [("crowding","algorithms/NSGAII/NSGAII.py _crowding, _environmental_selection; algorithms/JGBL/JGBL.py"),("volume","algorithms/SMSEMOA/SMSEMOA.py reduce_population"),("strength and truncation","algorithms/SPEA2/SPEA2.py calculate_fitnesses, environmental_selection"),("indicator","algorithms/IBEA/IBEA.py _calculate_fitness, _environmental_selection"),("reference lines","algorithms/NSGAIII/NSGAIII.py clustering, calculate_theta_fitness, create_final_population")],
 [("candidates offered","population (and archive) before the cut, with their objective values","population, finalized_population"),("kept","what is left after it","finalized_population")],["population and finalized_population, read between steps"])
with open("/verif/properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
