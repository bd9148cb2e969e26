prop('C01', 'Constrained floating point parameters never leave their value range',
 'A constrained floating point parameter with lower boundary l and upper boundary u hands out only values v with l <= v < u, for every internal value an adaption may have produced: inside the range the value is unchanged, outside it is reflected. Setting a value or boundaries either succeeds with exactly the requested state or throws and changes nothing; inadmissible boundaries or values outside of them are always refused.',
 ['inputs'], 'all finite 64-bit values, all admissible boundary pairs and all requested values/boundaries including NaN and infinities',
 'the unit tests transfer a few hundred values per boundary pair; rounding at the seams and extreme boundary pairs are never sampled',
 ['include/geneva/GConstrainedFPT.hpp', 'include/geneva/GConstrainedNumT.hpp', 'src/geneva/GConstrainedDoubleObject.cpp'],
 [('transfer', 'GConstrainedFPT::transfer'), ('value and boundary setters', 'GConstrainedNumT::setValue/setBoundaries, GConstrainedFPT::setValue')],
 note='All entries are unbounded (all doubles) except transfer_fold (accuracy of the reflection), a bounded native comparison with a tolerance.')
prop('C02', 'Constrained integer parameters never leave their value range',
 'A constrained integer parameter with boundaries l and u hands out only values v with l <= v <= u for every internal value: inside the range it is unchanged, outside it is the exact reflection of the internal value, without any integer overflow. Setting a value or boundaries either succeeds with exactly the requested state or throws and changes nothing.',
 ['inputs'], 'all 32-bit internal values, all admissible boundary pairs, all requested values and boundaries',
 'the unit tests use a handful of boundary pairs and values near them; overflow needs extreme boundary pairs',
 ['include/geneva/GConstrainedIntT.hpp', 'include/geneva/GConstrainedNumT.hpp', 'src/geneva/GConstrainedInt32Object.cpp'],
 [('transfer', 'GConstrainedIntT::transfer'), ('value and boundary setters', 'GConstrainedNumT::setValue/setBoundaries, GConstrainedIntT')],
 note='Unbounded in all inputs; includes absence of undefined integer behaviour in the functions under contract.')
prop('C03', 'The bounded buffer is a linearisable FIFO that never exceeds its capacity',
 'Items leave the thread-safe buffer in the order in which they entered it, none is lost or duplicated, and at no time does it hold more items than its capacity. Non-blocking operations succeed exactly when there is room or an item, blocking and timed ones take effect only in such a state, and a failed operation changes nothing. Shared state is touched only while the buffer lock is held, every operation releases the lock, and every completed operation wakes up a waiter of the opposite side.',
 ['schedules', 'histories', 'inputs'], 'all item values, all states the other threads may produce while an operation waits (rely condition: any content within the capacity), spurious wake-ups and timeouts, per operation',
 'the tests run a few producer/consumer threads; a lost wake-up or an access outside of the lock shows up only in rare interleavings',
 ['include/common/GBoundedBufferT.hpp'],
 [('push and pop variants', 'GBoundedBufferT::try_push_*, push_and_block_*, push_and_wait_*, try_pop_*, pop_and_block_*, pop_and_wait_*'), ('monitor', 'm_mutex, m_not_empty, m_not_full')],
 note='Monitor contracts for each operation, rely/guarantee for other threads. Instantiated for capacities 0, 1, 2 and contents up to 2 items (bounded in that respect); liveness itself (fairness) is not decided, only the notification obligations.')
prop('C04', 'The fixed-size priority queue keeps exactly the best distinct items, sorted',
 'After any sequence of additions the queue holds the best distinct items among those it held and those added, at most as many as its maximum size, sorted with the best first, for minimisation and maximisation. Cloning happens exactly on request, shrinking and removal keep the best and return it, a maximum size of zero means unlimited, and copies are deep.',
 ['histories', 'inputs'], 'all evaluations (finite doubles, including ties), all insertion orders and id collisions, both sort orders, maximum sizes 0 to 3',
 'no unit test exercises the queue directly; optimisation runs add whole populations to a queue that is empty or full',
 ['include/common/GFixedSizePriorityQueueT.hpp'],
 [('add', 'GFixedSizePriorityQueueT::add (single and several items)'), ('size handling', 'GFixedSizePriorityQueueT::setMaxSize, pop, clear')],
 note='All evaluations; bounded in the queue content (up to 2 items before, 2 added, 4 ids).')
prop('C05', 'Numeric helpers respect ranges, extremes and statistics for every input',
 'Range checks accept exactly the values of the requested (half-)open range and otherwise throw or, if so requested, only warn; clamping leaves values inside the range unchanged; nothing is better than the best or worse than the worst case. Minima and maxima bound all values and are attained, per component; vector operations work element by element and reject different sizes; mean, standard deviation, sums, linear regression and error propagation follow their definitions.',
 ['inputs'], 'all double, float, signed and unsigned integer values and ranges; vectors of up to 3 elements with arbitrary content',
 'the tests call few of these functions, with ordinary values; open boundaries, signedness and per-component mistakes need specific inputs',
 ['include/common/GCommonMathHelperFunctionsT.hpp', 'src/common/GCommonMathHelperFunctions.cpp'],
 [('range checks', 'checkValueRange, checkRangeCompliance, enforceRangeConstraint, getWorstCase, getBestCase'), ('extremes and statistics', 'getMinMax, GMean, GStandardDeviation, GVecStandardDeviation, addVec, subtractVec, multVecConst, getRegressionParameters, getRatioError')],
 note='Floating point sums and products are uninterpreted in the proofs (the contract states the same formula); regression, sigmoid and error propagation are bounded native comparisons.')
prop('C06', 'Containers of smart pointers copy deeply and keep their sequence semantics',
 'A copy or assignment of a container of cloneable objects has the same number of items with the same types and values as its source and shares none of them, whatever the target held before, and leaves the source alone; empty pointers stay empty. Inserting, appending, resizing and erasing change exactly the positions they name, clone exactly where they promise to, and refuse empty pointers without a change. Cross-over exchanges the items behind a position. Views and conversion iterators visit exactly the items of the requested type in their order; counting and searching compare contents.',
 ['inputs', 'histories'], 'containers of up to three items of two types (and empty pointers) with arbitrary contents, all positions and amounts up to three',
 'the unit tests copy containers of equal structure and insert at fixed positions; different types and empty pointers in the target need specific histories',
 ['include/common/GPtrVectorT.hpp', 'include/common/GPODVectorT.hpp', 'include/common/GCommonHelperFunctionsT.hpp'],
 [('containers', 'GPtrVectorT, GPODVectorT'), ('copies', 'copyCloneableSmartPointer, copyCloneableSmartPointerContainer, copySmartPointerVector, copyCloneableObjectsContainer, copyArrays'), ('erasure', 'erase_if, erase_according_to_flags')],
 note='Bounded in the numbers of items; all contents are arbitrary.')
prop('C07', 'Copies of individuals, algorithms and factories reproduce the complete state',
 'Copy construction, clone() and load() of an individual, an optimization algorithm or a factory yield an object that agrees with its source in every member that belongs to its state: parameters, personality traits, constraints, processors, results, settings, counters, populations, executors. The copy owns its parts, the source is not changed, and load() does so whatever the target was before, including targets of another structure or personality.',
 ['inputs', 'histories'], 'arbitrary values of all scalar members, populations and containers of up to two elements, all combinations of present and absent parts and of types of personality traits and parameters',
 'the unit tests copy objects with one modified member at a time and compare them with the very comparison functions that may share the omission; mixed structures of source and target do not occur',
 ['src/geneva/GParameterSet.cpp', 'include/courtier/GProcessingContainerT.hpp', 'src/geneva/G_OptimizationAlgorithm_Base.cpp', 'src/geneva/G_OptimizationAlgorithm_ParChild.cpp', 'src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp', 'src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp', 'src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp', 'src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp', 'src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp', 'include/geneva/GParameterSetFactory.hpp'],
 [('copies', 'copy constructors, clone_() and load_() of GParameterSet, the algorithms and GParameterSetFactory')],
 note='Bounded in container sizes; all scalar members arbitrary.')
prop('P01', 'Work items follow their status machine and hand out only valid results',
 'A work item is processed only when it is due for processing, exactly once, after its pre-processor and before its post-processor. Success leaves it in state PROCESSED with all registered results; an exception or an error flagged by user code in any stage leaves it in an error state with a description, without results, and is reported to the caller. Results can be retrieved exactly in state PROCESSED. Status changes on request are limited to DO_IGNORE and DO_PROCESS and drop old results and errors; copies keep every member.',
 ['inputs', 'histories'], 'all states, requested transitions, outcomes of the stages (normal, several exception types, flagged errors), vetoes and results',
 'the tests process well-behaved items; the error paths need specific combinations of state, stage and outcome',
 ['include/courtier/GProcessingContainerT.hpp'],
 [('processing', 'GProcessingContainerT::process, markAsProcessedWith, force_set_error'), ('status machine', 'GProcessingContainerT::set_processing_status, mark_as_due_for_processing, get_and_clear_exceptions')],
 note='Up to 3 stored results per item.')
prop('P02', 'Executors process each due item exactly once and report exactly what came back',
 'A submission processes each item that is due exactly once and touches no other item; items stay in, or return to, their own position, tagged with iteration, position and resubmission number. Processing errors stay with the item and are reported through has_errors instead of leaving workOn(); items in an error state, empty items, concurrent calls and external counters that go back are refused. Items that have not returned are resubmitted at most as often as allowed, never those that have returned. Late items of earlier iterations never replace current ones; processed ones are handed out sorted and without duplicates. The completeness status and all counters are exact, partial returns are accepted exactly from the requested percentage on, nothing is waited for that cannot come, a wait factor of zero or less disables the time limit that otherwise follows from earlier return times, and the item errors are treated alike by serial, multi-threaded and brokered execution.',
 ['inputs', 'histories', 'schedules'], 'all mixes of item states and outcomes, all subsets of items returned per cycle, all orders of return including copies, late items and timeouts, all iteration counters',
 'the tests submit uniform batches of items that all succeed and all return; partial returns, late items, errors during resubmission and release builds are not exercised',
 ['include/courtier/GExecutorT.hpp'],
 [('submission cycle', 'GBaseExecutorT::workOn, submitAllWorkItems, iterationFinalize_, checkExecutionState'), ('retrieval', 'GBrokerExecutorT::addWorkItemAndCheckCompleteness, waitForFullReturn, waitForTimeOut, minPartialReturnRateReached'), ('in-process executors', 'GSerialExecutorT, GMTExecutorT')],
 note='Bounded in the number of items (2 to 3 per submission). The multi-threaded executor is a bounded native stand-in (11 items, 3 threads, debug and release builds).')
prop('P03', 'The broker hands out each item once and returns it to the port it came from',
 'Buffer ports keep raw and processed items apart and hand them out first in, first out. The broker serves all connected ports in turn, returns each item to the port it was submitted through and to no other, and refuses items of unknown origin. Enrolled ports get an id that no connected port uses, disconnected ports are removed, connected ones keep their place. Consumers are enrolled and started once, and shut down exactly once; a full return is promised only if all of them are capable of it. A local worker processes everything it fetched exactly once and returns it, whether or not processing failed. The lists of ports are touched only while their locks are held, a port in use stays alive, and nobody waits for items while holding such a lock.',
 ['inputs', 'histories'], 'all port ids, all sets of connected and disconnected ports, all distributions of items to ports, all processing outcomes',
 'the tests use one or two producers with well-behaved items; re-enrolment, id reuse and fairness between ports need specific histories',
 ['include/courtier/GBrokerT.hpp', 'include/courtier/GBufferPortT.hpp', 'include/courtier/GWorkerT.hpp'],
 [('routing', 'GBrokerT::get, put, getNextRawBufferPort, getProcessedBufferPort'), ('enrolment', 'GBrokerT::enrol_buffer_port, getNextBufferPortId, enrol_consumer, finalize'), ('ports', 'GBufferPortT::push_raw, pop_raw, push_processed, pop_processed'), ('workers', 'GWorkerT::run, GLocalConsumerWorkerT')],
 note='Bounded: up to 3 ports, 3 consumers and 3 items. Sequential contracts of each operation; network consumers are under P04.')
prop('P04', 'Networked processing hands out and takes back each work item exactly once',
 'For each request for work a server session (plain Asio or websocket) asks the broker for exactly one item and hands that item to the client, or tells it that there is no data. Each result is put into the broker exactly once, before the next item is handed out. A message that cannot be read, is incomplete or has an unknown command neither fetches nor delivers anything, and no error of the broker leaves the session. A client processes each item it is given exactly once and returns that very item, also if processing failed, with the error recorded in it; it asks again after a pause when there was no data, counts what it has done, answers nothing it does not understand, reconnects as often as allowed, and halts exactly after an error, on request, at the maximum number of items or at the time limit.',
 ['inputs', 'histories'], 'all commands, items present or missing, garbage, all outcomes of processing, all serialization modes, any earlier message (the state of session and client before the message is arbitrary), all counters and limits',
 'no test of the suite runs a network client: they need several processes; failing items, missing payloads and broken connections do not occur in the examples either',
 ['include/courtier/GAsioConsumerT.hpp', 'include/courtier/GWebsocketConsumerT.hpp', 'include/courtier/GBaseClientT.hpp', 'include/courtier/GCommandContainerT.hpp'],
 [('sessions', 'GAsioConsumerSessionT::process_request, when_read; GWebsocketConsumerSessionT::process_request'), ('clients', 'GAsioConsumerClientT::async_process_request, when_read, when_connected; GWebsocketClientT::process_request; GBaseClientT::halt'), ('containers', 'GCommandContainerT')],
 note='One message from an arbitrary earlier state, hence sequences of any length. Serialisation and the sockets are assumed contracts; the MPI consumer does not build here.')

prop('G01', 'The optimisation loop counts, halts and tracks the best exactly as configured',
 'Each iteration runs exactly one cycle and increases the iteration counter by one, starting from the offset. The loop halts in the first iteration in which one of the configured halt criteria is met and never before the minimum iteration; each criterion triggers exactly when its threshold is reached. The best fitness known never gets worse in the direction of the optimisation, improvements are detected by the transformed fitness, the stall counter counts the iterations since the last improvement and triggers the stall action at the requested number. Minimum and maximum iteration stay consistent, limits that contradict each other are refused, and checkpoints are written in exactly the iterations requested; the latest checkpoint is never removed.',
 ['inputs', 'histories'], 'all iteration counters, offsets, limits, thresholds, fitness values of both optimisation modes, sequences of up to 3 iterations',
 'the tests run a few iterations of one optimisation; combinations of halt criteria and stall histories are not exercised',
 ['include/geneva/G_OptimizationAlgorithm_Base.hpp', 'src/geneva/G_OptimizationAlgorithm_Base.cpp'],
 [('loop', 'G_OptimizationAlgorithm_Base::optimize_, halt, cycleLogic'), ('halt criteria', 'maxIterationReached, qualityThresholdHalt, stallHalt, touchHalt, timedHalt'), ('progress', 'updateStallCounter, progress, isBetter'), ('checkpoints', 'checkpoint, setCheckpointInterval')],
 note='Bounded in the number of iterations of one run (3); clocks and files by contract.')
prop('G02', 'Individuals evaluate once, order by transformed fitness and obey constraints',
 'An individual evaluates its fitness function exactly once per processing, unless its parameters violate a constraint under a policy that does not need the evaluation; its transformed fitness then follows the configured policy and is never better than the worst valid one known. Adapting, swapping or setting parameters marks it as due for processing, and adaption attempts report exactly what changed. Constraints are fulfilled exactly if their value lies in the valid range, combined constraints follow their combination policy. A fitness handed over from elsewhere is stored under the same policies and leaves the individual processed. Cross-over yields a new individual that takes, for each type of parameter, its first values from one parent and the others from the other; initialisation, adaption, stalls and queries reach each parameter exactly once. Comparison by (minimisation) fitness mirrors for maximisation. Copies of individuals and constraints carry every member.',
 ['inputs', 'histories'], 'all fitness and validity values, all policies, both optimisation modes, outcomes of the adaption attempts, ranges of individuals to be processed',
 'the tests evaluate unconstrained individuals; combinations of policy, validity and mode are not exercised',
 ['include/geneva/GParameterSet.hpp', 'src/geneva/GParameterSet.cpp', 'include/geneva/GMultiConstraintT.hpp'],
 [('evaluation', 'GParameterSet::process_, setFitness_, transformed_fitness, isGoodEnough'), ('changes', 'GParameterSet::adapt, crossOverWith, randomInit, customAdaptions, cannibalize, swap, mark_as_due_for_processing'), ('fitness from elsewhere', 'setFitness_, sumCombiner, squaredSumCombiner, weighedSquaredSumCombiner'), ('constraints', 'GPreEvaluationValidityCheckT, GCheckCombinerT'), ('order', 'minOnly_transformed_fitness, isBetter, setProcessingFlag')],
 note='Fitness and validity values are taken from tables where products are formed; the sigmoid policy is a bounded native comparison.')
prop('G03', 'Evolutionary algorithms select the best, lose nobody and recombine as configured',
 'Each cycle adapts every child exactly once, evaluates children (and parents in the first iteration) exactly once and selects. Selection restores the nominal population size by rearranging the individuals; new parents are the best of those that the scheme (plus, comma, retaining the best parent) admits, sorted with the best first, and with Pareto selection they come from the non-dominated individuals. Individuals lost or failed are replaced by copies, late children join, late parents are dropped, evaluated individuals are never dropped. Recombination overwrites children only, with copies or cross-overs of parents chosen by the configured method. Populations grow as configured and are refused if too small. When an optimisation stalls, the adaptors of all parents except the best one are told so.',
 ['inputs', 'histories'], 'all fitness values of both optimisation modes, all outcomes of the evaluation, all random decisions, populations of up to 5 individuals',
 'the tests run whole optimisations whose random course hides wrong selections; ties, lost and late individuals do not occur',
 ['src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp', 'src/geneva/G_OptimizationAlgorithm_ParChild.cpp'],
 [('selection', 'GEvolutionaryAlgorithm::selectBest_, sortMuPlusNuMode, sortMuCommaNuMode, sortMunu1pretainMode, sortMuPlusNuParetoMode, sortMuCommaNuParetoMode'), ('evaluation and repair', 'runFitnessCalculation_, fixAfterJobSubmission'), ('recombination', 'G_OptimizationAlgorithm_ParChild::recombine, doRecombine, randomRecombine, valueRecombine'), ('population', 'cycleLogic_, adjustPopulation_, populationSanityChecks_')],
 note='Bounded in the population size (up to 5; native stand-ins up to 20); random numbers, executor and thread pool by contract.')
prop('G04', 'Simulated annealing accepts by the Metropolis rule and cools as configured',
 'The best children compete with one parent each, the i-th best child with the i-th parent: a child that is not worse always replaces its parent, one that is worse by d only if a random number is below exp(-d/T), for minimisation and maximisation. After the selection the parents are sorted with the best first, the population has its nominal size, and the temperature has been multiplied by the cooling factor exactly once; optimisations start with the start temperature. Temperatures and factors must be positive, and each parent needs a child to compete with. Adaption, evaluation and repair of the population follow the same rules as in evolutionary algorithms.',
 ['inputs', 'histories'], 'all random decisions, temperatures and cooling factors, fitness tables with ties in both modes, all outcomes of the evaluation',
 'the tests only run whole optimisations, whose random course hides wrong acceptance',
 ['src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp', 'src/geneva/G_OptimizationAlgorithm_ParChild.cpp'],
 [('acceptance', 'GSimulatedAnnealing::sortSAMode, saProb, selectBest_'), ('cooling', 'updateTemperature, resetToOptimizationStart_, setT0, setTDegradationStrength'), ('evaluation and repair', 'runFitnessCalculation_, fixAfterJobSubmission, populationSanityChecks_')],
 note='Bounded in the population size (up to 4; native stand-ins up to 20); exp is uninterpreted with its sign and monotonicity facts.')
prop('G05', 'Parameter trees and their flat views stay consistent',
 'The flat vectors and maps of the values of a parameter tree list exactly the parameters of the requested type and activity mode in the order of the tree, their length is the count, and writing values (or their boundaries) back assigns each one to its own parameter; too short, too long or wrongly named inputs are refused. Initialisation at random stays in the ranges, arithmetic operations act on exactly the parameters of the requested type and activity, element by element, and keep constrained values in their ranges. Adaption changes active parameters only, and says how many. Copies reproduce each leaf.',
 ['inputs'], 'all values and boundaries of the parameters, all combinations of active and inactive leaves, all random numbers',
 'the unit tests use homogeneous collections in which every parameter is active; mixed activity and mixed kinds need specific trees',
 ['include/geneva/GParameterCollectionT.hpp', 'include/geneva/GParameterT.hpp', 'include/geneva/GParameterBase.hpp', 'include/geneva/GNumCollectionT.hpp', 'include/geneva/GConstrainedFPNumCollectionT.hpp', 'src/geneva/GDoubleObject.cpp', 'src/geneva/GDoubleCollection.cpp', 'src/geneva/GConstrainedDoubleCollection.cpp', 'src/geneva/GConstrainedDoubleObject.cpp', 'src/geneva/GInt32Object.cpp', 'src/geneva/GInt32Collection.cpp', 'src/geneva/GConstrainedInt32Object.cpp', 'src/geneva/GBooleanObject.cpp', 'src/geneva/GBooleanCollection.cpp', 'src/geneva/GParameterObjectCollection.cpp'],
 [('flat views', 'GParameterBase::streamline, assignValueVector, countParameters, boundaries'), ('operations', 'add, subtract, multiplyBy, multiplyByRandom, fixedValueInit, randomInit'), ('adaption', 'GParameterBase::adapt, GParameterBaseWithAdaptorsT')],
 note='Bounded in the size and shape of the trees (all kinds of leaves of one base type, 5 to 7 parameters); sums and products are uninterpreted.')
prop('G06', 'Adaptors respect their ranges, probabilities and modes',
 'An adaptor adapts a value exactly when its mode or a random draw below the current adaption probability says so, counts what it adapted, and does not touch the value otherwise. Sigmas, adaption probabilities and bi-Gauss parameters always stay inside of their ranges and change only by their adaption rules, when due. Settings are taken over exactly or refused without a change, wrong or not-a-number ranges included; stalls reset to the values given at construction; queries report the current values; copies reproduce all members. Bits flip, integers change by at least one.',
 ['inputs', 'histories'], 'all probabilities, sigmas, ranges, rates and random numbers, all counter values',
 'the unit tests sample adaptors with the default settings; values at the boundaries of ranges and thresholds need specific draws',
 ['include/geneva/GAdaptorT.hpp', 'include/geneva/GNumGaussAdaptorT.hpp', 'include/geneva/GNumBiGaussAdaptorT.hpp', 'include/geneva/GFPGaussAdaptorT.hpp', 'include/geneva/GIntGaussAdaptorT.hpp', 'include/geneva/GIntFlipAdaptorT.hpp', 'src/geneva/GBooleanAdaptor.cpp'],
 [('decision', 'GAdaptorT::adapt'), ('self adaption', 'adaptAdaption, customAdaptAdaption'), ('stalls', 'updateOnStall')],
 note='All entries hold for all inputs except adapt() on vectors (0 to 2 values). Random draws are arbitrary; exp and products are uninterpreted with sign and monotonicity facts.')
prop('G07', 'Swarms move towards the best positions known and keep their population',
 'Each individual moves by its own velocity, updated from the distances to its personal best, the best of its own neighborhood and the global best with the weights set, limited to the configured percentage of the range. Personal, neighborhood and global bests are replaced exactly by better evaluated individuals. After each evaluation every neighborhood has its nominal number of members: late individuals compete only in their own neighborhood, missing ones are replaced. Individuals are processed once per position. Settings that contradict each other are refused, settings and copies reproduce the state.',
 ['inputs', 'histories'], 'all positions, velocities, fitness values and weights, all subsets of individuals returned or late, all numbers of neighborhoods and members up to three',
 'the tests run swarms in which everything returns; lost and late individuals and uneven neighborhoods do not occur',
 ['src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp', 'include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp'],
 [('moves', 'updateIndividualPositions, swarmLogic, pruneVelocity'), ('bests', 'findBests, updatePersonalBest'), ('repair', 'adjustNeighborhoods, runFitnessCalculation')],
 note='Bounded: up to 3 neighborhoods of up to 3 members with up to 2 parameters; products are uninterpreted.')
prop('G08', 'Gradient descents step along the measured differences',
 'For each starting point and each parameter exactly one child is evaluated, which differs from its parent by the finite step of this parameter only. Each starting point then moves against (or, for maximisation, along) the measured differences by the step width, parameter by parameter, and only with its own children. Every individual is evaluated when it has changed, failures are refused, the best fitness reported is the best of all starting points. The population always consists of the starting points followed by their children. Settings outside of the admissible ranges are refused.',
 ['inputs', 'histories'], 'all positions and fitness values, both directions of optimisation, all outcomes of the evaluation',
 'the tests run a few iterations on a parabola, with the same boundaries for all parameters',
 ['src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp'],
 [('children and parents', 'updateChildParameters, updateParentIndividuals'), ('evaluation', 'runFitnessCalculation, cycleLogic'), ('population', 'adjustPopulation_, init')],
 note='Bounded: up to 3 starting points with up to 3 parameters; the steps of the parents (extended precision) are checked on a table of values.')
prop('G09', 'Parameter scans visit each requested combination exactly once',
 'A grid scan evaluates every combination of the values of the scanned parameters exactly once, parameters that are not scanned keep their values; each grid starts at the lower boundary, has the requested number of values and stays within its boundaries, random scans draw the requested number of values from the range. Simple scans perform exactly the requested number of random scans. A scan ends when everything was visited and can be repeated. Each individual is evaluated once, failures are refused, the best of each iteration is reported; copies keep all scan parameters.',
 ['inputs', 'histories'], 'all boundaries, all numbers of steps up to three per parameter, all random numbers, all outcomes of the evaluation, populations of up to four',
 'the tests scan one configuration; populations that do not divide the number of combinations and mixtures of parameter types need specific settings',
 ['src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp', 'include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp'],
 [('enumeration', 'updateSelectedParameters, switchToNextParameterSet, GBaseScanParT'), ('grids', 'fillWithData'), ('simple scans', 'randomShuffle')],
 note='Bounded in the numbers of parameters, values and individuals; the parser of the specification is executed natively only.')
