import json, os
N = dict(
 C01=dict(by='contracts on `GConstrainedFPT<double>::transfer` (range, identity inside), constructors, `setValue`, `setBoundaries`, `operator=`, `value()`; the proof of the range is over the full binary64 semantics including the final clamp', cost='~60 s (two FP queries dominate)'),
 C02=dict(by='the same contracts on `GConstrainedIntT<int32_t>`; the fold is compared with a mathematical reflection in 128-bit arithmetic; UB traps on', cost='~110 s'),
 C03=dict(by='monitor contracts per operation (`harness/lib/monitor.hpp`): invariant assumed at lock/after wait, established at unlock/wait, rely = any content within capacity; accesses outside the lock, missing notifications and lost items are obligations', cost='~15 s'),
 C04=dict(by='contracts on `add`, `setMaxSize`, `pop`, `clear`, copy/load against a multiset specification (kept = best distinct of old and added)', cost='~40 s (order encoding)'),
 C05=dict(by='per function contracts against the mathematical definition; comparisons exactly, sums/products through the same formula', cost='~35 s'),
 P01=dict(by='contracts on `process`, `set_processing_status`, `force_set_error`, `load`, result accessors with scripted user code (pre/post-processors, exceptions, vetoes)', cost='~25 s'),
 P02=dict(by='contracts on `workOn` of each executor and on each step of `GBrokerExecutorT` with a scripted consumer that returns any subset in any order, late items, copies and timeouts', cost='~110 s'),
 P03=dict(by='contracts on `GBrokerT`, `GBufferPortT`, `GWorkerT::run` with arbitrary port histories; lock discipline of the lists of ports, with another thread enrolling and leaving whenever one waits', cost='~65 s'),
 P04=dict(by='contracts on `process_request` of both kinds of sessions, `async_process_request`/`process_request` of both clients, connection steps, `GBaseClientT::halt`, `GCommandContainerT`, each for one message from an arbitrary earlier state; what is read and written is recorded by specialisations of `container_from_string`/`container_to_string` and of the socket operations (assumed contracts)', cost='~25 s'),
 G01=dict(by='contracts on `halt` against its definition, `updateStallCounter`, `optimize`/`optimize_` of a minimal derived algorithm with arbitrary cycle results, limits, records, checkpoint decisions', cost='~110 s'),
 G02=dict(by='contracts on evaluation, constraints, adaption loop, comparison helpers, cross-over, fitness from elsewhere and copies of `GParameterSet`', cost='~105 s'),
 G03=dict(by='contracts on each selection mode, Pareto sorting, recombination, evaluation with scripted executor outcomes, population repair', cost='~150 s (order encoding)'),
 G04=dict(by='contracts on `sortSAMode`, `saProb`, cooling, repair and sanity checks', cost='~170 s'),
 G05=dict(by='contracts on parameter trees of all double/int/bool kinds: streamline/assign by vector and map, counts, boundaries, random initialisation, arithmetic operations, adaption, clone/load', cost='~65 s'),
 G06=dict(by='contracts on `GAdaptorT::adapt`, thresholds, probabilities and ranges, Gauss/bi-Gauss/flip adaptors, stall updates, copies', cost='~66 s'),
 G07=dict(by='contracts on `updateIndividualPositions`, `swarmLogic`, `findBests`, `runFitnessCalculation` (scripted executor: any subset returns, late ones of any neighborhood), `adjustNeighborhoods`, settings and copies', cost='~86 s'),
 G08=dict(by='contracts on `updateChildParameters`, `updateParentIndividuals`, `runFitnessCalculation`, `cycleLogic`, `init`, `adjustPopulation_`', cost='~50 s'),
 G09=dict(by='contracts on each scan parameter type (grids, random values), on the whole sequence of combinations iteration by iteration, on simple scans, evaluation and copies', cost='~73 s'),
 C06=dict(by='contracts on every operation of `GPtrVectorT`/`GPODVectorT` with items of two types and empty pointers against a sequence specification (ghost vectors of contents and addresses), on the copy helpers and `erase_if`', cost='~40 s'),
 C07=dict(by='contracts on copy construction, `clone` and `load` of individuals, algorithms and factories: source and target get arbitrary member values and structures, every member is compared bit by bit afterwards', cost='~60 s'),
)
N['seeds'] = {k: k.split('-')[0] + ': ' + v for k, v in {'G01-quality-current': 'halt', 'G02-sigmoid-primary': 'evaluate, sigmoid_order', 'G03-pretain-children': 'select, select_big', 'G04-children-nth': 'select, select_big', 'G07-missing-from-first': 'repair', 'G08-step-drift': 'children', 'G09-single-left': 'combinations', 'C07-parchild-growth': 'ea_members, sa_members', 'P03-fullreturn-last': 'consumers', 'P03-worker-failed': 'worker', 'P02-caught-unreported': 'serial_workon, resubmission', 'P02-returned-count': 'serial_workon', 'P01-flagged-keeps-results': 'process_outcome', 'P01-load-postprocessor': 'copies', 'C06-erase-tail': 'erasure', 'G06-stall-raise-only': 'stalls', 'P04-fetch-first': 'asio_session, asio_session_errors'}.items()}
json.dump(N, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'design_notes.json'), 'w'), indent=1)
