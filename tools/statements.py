T = 'The unit tests run a handful of fixed inputs and sizes; '
P('P01', 'Task manager hands out every task exactly once', 'For any number of processes, any task count and any interleaving of requests, the task manager gives each task index 0..n-1 to exactly one requester, then tells every process there is no more work and keeps doing so. After the task count is set again the same holds for the new set, and cancelling makes every later request report no work.',
  ['schedules', 'histories'], 'every interleaving of the processes\' requests, every task count up to the bound', T + 'one schedule per run is observed.',
  ['parallel/task_manager.hpp'], [('nextTask/set/cancel', 'parallel/task_manager.hpp')])
P('P02', 'Communicator divide/split gives the documented partition of the ranks', 'Dividing a communicator into groups of a given size, or splitting it by colour, yields communicators in which every process of the parent appears exactly once, with consecutive ranks in the order of the parent ranks (or key) and a size equal to the number of members. Reductions and synchronisation on a sub-communicator involve exactly its members.',
  ['inputs', 'schedules'], 'all process counts, group sizes and colour assignments within bounds', T + 'process counts are those of the test machine.',
  ['parallel/communicator.cpp', 'parallel/communicator.hpp'], [('divide/split', 'parallel/communicator.cpp')])
P('P03', 'Global store and global vector return exactly what was put', 'Values contributed by any process under an index are, after upload, returned unchanged and complete to every process that asks for that index, whatever the lengths and distribution of the contributions.',
  ['inputs', 'schedules'], 'all contributions, lengths and index sets within bounds', T + 'one regular pattern of indices is stored.',
  ['parallel/global_store.hpp', 'parallel/global_vector.hpp'], [('upload/getVector', 'parallel/global_store.hpp'), ('upload/getData', 'parallel/global_vector.hpp')])
P('P04', 'Distributed index hash finds every stored pair and nothing else', 'After key-value pairs are added on any processes, looking up any multiset of keys (or key pairs) returns on each process, for each requested key, all values stored for it and only those, independent of which process stored or asked.',
  ['inputs', 'schedules'], 'all key/value/request sets within bounds', T + 'keys are a regular sequence.',
  ['parallel/index_hash.cpp'], [('addPairs/getValues', 'parallel/index_hash.cpp')])
P('P05', 'Shuffler delivers each item exactly once to its destination', 'Moving items to destination processes leaves on each process exactly the items addressed to it, each once and unchanged, for any distribution of items and destinations.',
  ['inputs', 'schedules'], 'all item counts and destination assignments within bounds', T + 'random destinations of one run.',
  ['parallel/shuffler.hpp', 'parallel/ga_shuffler.hpp'], [('operator()', 'parallel/shuffler.hpp')])
P('P06', 'Network topology queries agree with what was added', 'Whatever sequence of buses and branches is added, the network reports exactly those buses and branches: original, global and local indices are stored and found consistently, neighbour lists contain each incident branch and its far bus exactly once, branch endpoints are the given buses, and cleaning removes exactly the inactive elements while keeping every index, neighbour list and the reference bus consistent.',
  ['inputs', 'histories'], 'all graphs (including parallel branches and isolated buses) and active flags within bounds', T + 'a regular grid is used.',
  ['network/base_network.hpp'], [('addBus/addBranch/clean/resetGlobalIndices/get*', 'network/base_network.hpp')])
P('P07', 'Ghost exchange makes every ghost equal to its owner', 'After an update of bus or branch exchange data, the exchange buffer of every ghost bus or branch on every process equals the buffer of the process that owns it, owned data are unchanged, and nothing else is written, for any distribution of a network over processes.',
  ['inputs', 'schedules'], 'all small partitioned graphs and buffer contents within bounds', T + 'one partition of a regular grid is used.',
  ['network/base_network.hpp'], [('initBusUpdate/updateBuses/initBranchUpdate/updateBranches', 'network/base_network.hpp')])
P('P08', 'Component wiring matches the network topology', 'After component set-up every branch component knows exactly its two end-bus components, every bus component knows exactly its incident branches and neighbour buses, matrix-vector indices are unique and consistent between a ghost and its original, and whole-network checks report the conjunction over all processes.',
  ['inputs'], 'all small graphs and distributions within bounds', T + 'a regular grid is used.',
  ['factory/base_factory.hpp', 'component/base_component.cpp'], [('setComponents/setExchange/checkTrue', 'factory/base_factory.hpp')])
P('P09', 'Bus-vector and full-matrix mappers place every contribution exactly once', 'The mapped vector and matrix contain every value contributed by a component at the offset belonging to its bus (or bus pair, each bus pair being joined by at most one branch), incrementing adds contributions to what is there, overwriting replaces contributed entries and leaves the others, all other entries of a freshly mapped matrix or vector are zero, and mapping a vector back to the buses returns each component its own block; components reporting no contribution occupy no rows, and a bus occupies the same rows, columns and vector elements.',
  ['inputs', 'configurations'], 'all small graphs, block sizes, contributing subsets and distributions within bounds', T + 'fixed block sizes on a grid are used.',
  ['mapper/bus_vector_map.hpp', 'mapper/full_map.hpp'], [('mapToVector/mapToBus', 'mapper/bus_vector_map.hpp'), ('mapToMatrix/increment/overwrite', 'mapper/full_map.hpp')], note='The math library (PETSc) is replaced by a model of its documented interface.')
P('P10', 'Generalised mappers number and place all elements uniquely', 'Each row/column and vector element declared by a bus or branch gets a distinct index, the indices form a contiguous range, all declared values (of buses at their own rows, of branches at their own rows or those of their end buses) appear exactly at their declared positions, and mapping a generalised vector or slab back to the network returns every component the values at its own indices.',
  ['inputs', 'configurations'], 'all small graphs, element counts and distributions within bounds', T + 'fixed counts on a grid are used.',
  ['mapper/gen_matrix_map.hpp', 'mapper/gen_vector_map.hpp', 'mapper/gen_slab_map.hpp'], [('mapToMatrix', 'mapper/gen_matrix_map.hpp'), ('mapToVector/mapToNetwork', 'mapper/gen_vector_map.hpp'), ('mapToMatrix/mapToNetwork', 'mapper/gen_slab_map.hpp')], note='The math library (PETSc) is replaced by a model of its documented interface.')
P('P11', 'Data collections behave as typed dictionaries', 'An element added to a data collection under a name, or a name and any integer index, is returned by a get of that name, index and type with the value last set; a get or set for a name, index or type that was never added reports failure and changes nothing, and adding an existing element leaves its value. Assigning one collection to another yields an equal, independent copy.',
  ['histories', 'inputs'], 'all histories of add/set/get over the seven value types within the bound; arbitrary values', T + 'each accessor is called once with one value.',
  ['component/data_collection.cpp', 'component/data_collection.hpp'], [('addValue/setValue/getValue', 'component/data_collection.cpp')], ['return values of getValue'])
P('P12', 'Serialising components and data collections is lossless', 'Packing a bus, branch or data collection on one process and unpacking it on another yields an object whose queries, matrix and vector contributions equal those of the original, at once and after any further operations applied to both (setting up again, undoing earlier changes, resetting), for every parameter value, list length and earlier history; a collection that is unpacked into loses its previous content. What the network re-attaches after a transfer (neighbours, exchange buffers, measurements) is not part of the object.',
  ['inputs'], 'all parameter values and list lengths within bounds', T + 'partitioned runs only show aggregate results.',
  ['component/data_collection.hpp', 'component/base_component.hpp', 'applications/components'], [('serialize', 'component/base_component.hpp')])
P('P13', 'Text fields are tokenised by the documented quoting rules', 'Splitting any line on blanks yields exactly its blank-separated fields in order, with a quoted field (up to its closing quote or the end of the line) kept whole; splitting on a separator yields exactly the maximal separator-free pieces. Identifier clean-up returns the unquoted, unpadded identifier, one-character ones padded to two characters; quote and blank trimming keep inner text, and boolean words are recognised regardless of case and padding, all others reading as false.',
  ['inputs'], 'every string up to the length bound', 'There is no exhaustive test; the functions are exercised by sample strings only.',
  ['utilities/string_utils.hpp'], [('blankTokenizer/charTokenizer/clean2Char/trimQuotes/getBool', 'utilities/string_utils.hpp')])
P('P14', 'The power-flow driver iterates the equations of the current state and reports convergence truthfully', 'In every iteration of a power-flow solution the linear (or library nonlinear) solver receives the mismatch and the Jacobian of the current bus voltages, numbered alike, its result is applied to exactly the buses and unknowns it belongs to and reaches every ghost copy, the iteration limit is kept, and success is reported only if the last mismatch norm met the tolerance; with reactive limits enforced, the solution is repeated until no voltage-controlled bus is beyond its limits, buses held at a limit are solved with that fixed injection, and buses without connection take no part.',
  ['inputs', 'configurations', 'histories'], 'all states, injections, limits, tolerances, solver results and norms on small networks and distributions, bounded number of iterations', T + 'only the end result of sample cases on the test machine is seen.',
  ['applications/modules/powerflow/pf_app_module.cpp', 'applications/modules/powerflow/pf_helper.hpp', 'applications/components/pf_matrix/pf_components.cpp', 'mapper/full_map.hpp'], [('PFAppModule::solve/nl_solve', 'applications/modules/powerflow/pf_app_module.cpp'), ('PFSolverHelper', 'applications/modules/powerflow/pf_helper.hpp')], note='The math library (PETSc) is replaced by a model of its documented interface; the result of the linear solver and the norms are arbitrary.')
P('P15', 'Network admittances follow the branch and bus circuit model', 'For all line, transformer and shunt parameters and service states, the off-diagonal admittance of a branch and the diagonal admittance of a bus equal those of the pi-circuit with off-nominal tap and phase shift of its in-service elements, so out-of-service elements contribute nothing and the from and to sides are treated consistently.',
  ['inputs', 'configurations'], 'all real parameter values; up to the bound of parallel elements, branches per bus and shunts', T + 'a few sample networks are compared with stored results.',
  ['applications/components/y_matrix/ymatrix_components.cpp'], [('YMBranch::setYBus/YMBus::setYBus', 'applications/components/y_matrix/ymatrix_components.cpp')])
P('P16', 'Power-flow Jacobian is the derivative of the power mismatch', 'For every voltage state, admittance and injection, the power-flow mismatch of a bus equals scheduled minus flow-equation power and the assembled Jacobian blocks equal the partial derivatives of that mismatch with respect to the angle and magnitude unknowns, with fixed quantities of reference and voltage-controlled buses removed.',
  ['inputs', 'configurations'], 'all real states and parameters; all combinations of bus types on small networks', T + 'convergence of sample cases is all that is observed.',
  ['applications/components/pf_matrix/pf_components.cpp'], [('matrixDiagValues/matrixForwardValues/vectorValues', 'applications/components/pf_matrix/pf_components.cpp')])
P('P17', 'Reactive limit enforcement fixes violated generators and is reversible', 'A voltage-controlled bus whose required reactive output lies outside the sum of its in-service generator limits becomes a load bus with its generation fixed at the violated limit and is otherwise left alone; clearing the limits restores the bus type and generator states that held before.',
  ['inputs', 'histories'], 'all limits, injections and generator states within bounds', T + 'no test checks limits directly.',
  ['applications/components/pf_matrix/pf_components.cpp'], [('chkQlim/clearQlim', 'applications/components/pf_matrix/pf_components.cpp')])
P('P18', 'Undoing a contingency restores the pre-contingency system', 'Applying any contingency (generator or branch outages) and then undoing it leaves every bus and branch with the same service states, type and admittance contribution as before, and while it is applied exactly the named elements are out of service.',
  ['histories', 'configurations'], 'all element sets and initial states within bounds', T + 'only end results of sample contingencies are seen.',
  ['applications/modules/powerflow/pf_app_module.cpp', 'applications/modules/powerflow/pf_factory_module.cpp', 'applications/components/pf_matrix/pf_components.cpp'], [('setContingency/unSetContingency', 'applications/modules/powerflow/pf_app_module.cpp'), ('checkLoneBus/clearLoneBus', 'applications/modules/powerflow/pf_factory_module.cpp')])
P('P19', 'State-estimation Jacobian is the derivative of the measurement functions', 'For every voltage state and every set of measurements on a bus or branch, the Jacobian row of each measurement (voltage, angle, power injection, power flow or current magnitude at either end of a line element) equals the partial derivatives of the measured quantity with respect to the angle and magnitude unknowns, the residual equals the measured value minus the quantity of the network model, and the weight is the inverse square of the deviation; elements out of service carry no flow, isolated buses contribute nothing, and a solved correction is added to the variables of its columns.',
  ['inputs', 'configurations'], 'all states, parameters and measurement types on small networks', T + 'only sample estimates are compared.',
  ['applications/components/se_matrix/se_components.cpp'], [('matrixGetValues/vectorGetElementValues', 'applications/components/se_matrix/se_components.cpp')])
P('P20', 'Raw-file records are stored field by field under the documented names', 'Reading a PSS/E raw file (version 33, 34 or 35) stores every field of a bus, load, fixed or switched shunt, generator, branch, transformer, area, impedance-correction and multi-section record unchanged, with its documented type, under its own name on the element it belongs to, whatever the length of the record, the separators, comments, quoted text and whether buses are given by number or name; fields beyond the end of a short record are not stored. Repeated devices on one element get consecutive indices from 0 and the count is recorded; parallel elements share one branch, a record given in the opposite direction is marked as switched; records for unknown elements change nothing. Transformer impedances are converted from their stated base to the case base, tap ratios from the stated units, a three-winding transformer becomes a star of three branches on a new bus with the service state, ratings and tap of each winding.',
  ['inputs', 'configurations'], 'all field values, record lengths and placements within bounds', T + 'a few sample files are parsed and spot-checked.',
  ['parser/PTI33_parser.hpp', 'parser/PTI34_parser.hpp', 'parser/PTI35_parser.hpp', 'parser/block_parsers'], [('block parsers', 'parser/block_parsers'), ('transformers', 'parser/block_parsers/transformer_parser33.cpp')])
P('P23', 'Control blocks follow their transfer functions and limits', 'A linear control block (transfer function, PI, filter, lead-lag, integrator) outputs C x + D u held between its output limits, moves its state with the derivative its transfer function (b0 s + b1)/(a0 s + a1) prescribes, held between the rate and state limits (half the sum of the two derivatives in the corrector), rejects a0 = 0, and started for a given output or input stands still at it. A limited gain, gate, slope, piecewise function (points in increasing or decreasing order of the input) and dead band are exactly the function of their parameters; the inverse start of a piecewise function finds the input of a given output. Backlash stays within half its width of the input and moves no more than it must; an intentional dead band gives zero inside, follows outside, with the configured hysteresis.',
  ['inputs', 'histories'], 'all real parameters, inputs and states; a bounded number of steps', T + 'the block test prints one trajectory.',
  ['applications/modules/dynamic_simulation_full_y/cblock.cpp', 'applications/modules/dynamic_simulation_full_y/dblock.cpp', 'applications/modules/dynamic_simulation_full_y/model_classes'], [('Cblock', 'applications/modules/dynamic_simulation_full_y/cblock.cpp'), ('discontinuous blocks', 'applications/modules/dynamic_simulation_full_y/dblock.cpp'), ('backlash and dead band', 'applications/modules/dynamic_simulation_full_y/model_classes/DBIntClass.cpp')])
P('P24', 'Partitioning keeps every element and gives complete ghost neighbourhoods', 'Redistributing a network over processes keeps every bus and branch owned by exactly one process, gives each process a ghost copy of every far bus of its branches and every branch of its buses, and the adjacency list built from branch end points lists for each node exactly its neighbours.',
  ['inputs', 'schedules'], 'all small graphs and destination assignments within bounds', T + 'sample networks on the test machine\'s process count.',
  ['partition/adjacency_list.cpp', 'partition/graph_partitioner_implementation.cpp', 'network/base_network.hpp'], [('partition', 'network/base_network.hpp')])
P('P25', 'Result statistics equal the statistics of the stored samples', 'For any samples and masks written by any processes, the reports are those of the valid samples alone (mask at least the threshold): per row the mean, the sample standard deviation, the root of the summed squared deviation from the base case (column 0) over n - 1, smallest and largest value with their sample numbers and distances from the base case (the base case itself always counts), the row bounds, the number of samples whose mask equals a value; per column the sum over the valid rows. Every row carries its own label, tables of more than one block of 100 rows are complete, and a column written again counts with its last values.',
  ['inputs', 'schedules'], 'all sample values and masks within bounds', T + 'one regular pattern is used.',
  ['analysis/stat_block.cpp'], [('writeMeanAndRMS/writeMinAndMax/writeMaskValueCount', 'analysis/stat_block.cpp')])
P('P28', 'Islands and isolated buses are identified exactly', 'For every branch service pattern, buses without in-service connection are marked isolated and only those, and clearing the marks restores them.',
  ['inputs', 'configurations'], 'all small graphs and service states', T + 'one contingency sample.',
  ['applications/modules/powerflow/pf_factory_module.cpp', 'analysis/network_analytics.hpp'], [('checkLoneBus/clearLoneBus', 'applications/modules/powerflow/pf_factory_module.cpp')])
P('P26', 'Violation reports and area totals cover exactly the elements concerned', 'After a power-flow solution the list of voltage violations contains every bus outside its limits and only those, the list of line overloads every in-service line above its rating and only those, each once and the same on every process, restricted to the requested area or elements and leaving out the elements set to be ignored; load and generation totals of an area or zone are the sums over its in-service devices, and scaling loads or generation multiplies exactly those devices until reset.',
  ['inputs', 'configurations'], 'all real states, limits and ratings, all marks and service states on small networks and distributions', T + 'no test checks the violation lists.',
  ['applications/modules/powerflow/pf_factory_module.cpp', 'applications/components/pf_matrix/pf_components.cpp'], [('checkVoltageViolations/checkLineOverloadViolations/getTotalLoad', 'applications/modules/powerflow/pf_factory_module.cpp')])
P('P30', 'Governor and exciter models stand still at their operating point and follow their block diagrams', 'A turbine governor or excitation system (TGOV1, GAST, HYGOV, WSIEG1, SEXS, EXDC1, IEEET1, ESST1A, ESST4B) loaded from its data and started with the mechanical power or field voltage of the power-flow solution gives back exactly that value for as long as its inputs do not change (models that widen their limits for the starting point: for every starting point; the others: for every point within their limits). When speed, terminal voltage, field current or stabiliser signal change, each predictor and corrector stage gives the output of the documented block diagram: every block with its own gain, time constants and limits from the data, in the documented order, with the documented signs.',
  ['inputs', 'configurations', 'histories'], 'all real operating points and inputs; a bounded number of steps and a few sets of constants including switched-off time constants', T + 'no test starts these models.',
  ['applications/modules/dynamic_simulation_full_y/model_classes', 'applications/modules/dynamic_simulation_full_y/base_classes'], [('load/init/predictor/corrector of the governor and exciter models', 'applications/modules/dynamic_simulation_full_y/model_classes')])
P('P29', 'Input streams return every line of the source once and in order', 'Reading a stream opened on a file or on a list of strings returns each line once, in order and unchanged, then reports the end, also after the stream is closed and opened on another source.',
  ['inputs', 'histories'], 'all contents within bounds', T + 'files ending in a newline only.',
  ['stream/input_stream.hpp', 'stream/input_stream.cpp'], [('openFile/openStringVector/nextLine', 'stream/input_stream.cpp')])
