# The property table. gen.py turns it into properties.jsonl / MANIFEST.json.
S = 'src/'
MK = ['src/module/markov/markov.cpp', 'src/module/markov/gamma3_updates.cpp', 'src/module/diagram/diagram.cpp', 'src/module/diagram/component.cpp']
PROPS = []
def P(id, title, statement, over, q, why, files, mech):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech))

P('P01', 'Every Monte Carlo update keeps the diagram a well-formed skeleton',
  'Starting from any well-formed diagram, every update - accepted or rejected - leaves a diagram in which each vertex has exactly one incoming propagator, one outgoing propagator and one interaction line, all end-point links are mutual, the numbers of propagators, interactions and vertices match the order, every line and vertex can be found under its own number, and the order stays within the configured maximum.',
  ['histories', 'inputs'], 'every well-formed diagram (topology, worm, attributes) x every update x every random draw',
  'The tests run a handful of hand-written diagrams and seeds; corruption depends on the coincidence of topology, worm position and draw.',
  MK, [('update functions', 'Markov::CreateWorm ... Markov::JumpFromWWGammaW'), ('component pools', 'src/module/diagram/component_bundle.cpp')])
P('P02', 'Momentum is conserved at every vertex and the momentum registers stay exact',
  'After every update, accepted or rejected, momentum is conserved (modulo the momentum period) at every vertex, with the worm momentum flowing between its two ends, and every propagator and interaction momentum is legal. The registers used to reject reducible diagrams mark exactly the momenta carried by the current propagators and interactions, which stay pairwise distinct; no interaction carries zero momentum.',
  ['histories', 'inputs'], 'every consistent diagram x update x draw; every momentum value',
  'Conservation is checked by tests on a few short runs only; stale register entries never show up as a failure, only as wrong statistics.',
  MK + ['src/utility/momentum.cpp'], [('hash registers', 'Diagram::AddGHash/RemoveGHash/ReplaceGHash and W counterparts'), ('updates', 'Markov::*')])
P('P03', 'Spin is conserved along propagators and across interactions',
  'After every update, accepted or rejected, both ends of every propagator carry the same spin, and the total spin change at the two ends of each interaction is zero once the spin carried by the worm ends is accounted for.',
  ['histories', 'inputs'], 'every consistent diagram x update x draw; every spin assignment',
  'Tests sample few spin assignments; a wrong flip is only visible for particular worm/spin combinations.',
  MK, [('spin flips', 'Markov::CreateWorm/DeleteWorm/MoveWorm*/ChangeSpinOnVertex'), ('vertex spins', 'Vertex::SetSpin/SetVertex')])
P('P04', 'The stored diagram weight, phase and sign equal the recomputed ones',
  'After every update, accepted or rejected, each line stores the weight that its current end points, type and the active external vertex give, the diagram weight is their product times the fermion-loop sign and the order sign, the stored fermion-loop sign is that of the current topology, and the stored phase is the phase of the diagram weight.',
  ['histories', 'inputs'], 'every consistent diagram x update x draw, for an arbitrary (uninterpreted) weight function',
  'Incremental weight updates drift only on specific branches; tests compare a few sampled diagrams with a tolerance.',
  MK + ['src/module/weight/component_MC.cpp'], [('incremental weight ratio', 'Markov::* Weight ratio / Diag->Weight'), ('fermi sign', 'Diag->SignFermiLoop')])
P('P05', 'Acceptance obeys detailed balance for the target distribution',
  'Every update is accepted exactly with the Metropolis probability min(1, ratio), where ratio is the target-density ratio of the new and old configurations (absolute weight, order, worm, polarization and three-vertex reweighting factors) times the ratio of proposal probabilities of the update and of its inverse. Momentum labels and the direction given to an undirected interaction are not part of the configuration.',
  ['histories', 'inputs'], 'every consistent diagram x update x draw; every positive reweighting factor, call probability, temperature and weight value',
  'Detailed balance is a statement about all pairs of configurations; tests cannot observe acceptance probabilities.',
  MK, [('acceptance test', 'prob >= 1.0 || RNG->urn() < prob in each update'), ('proposal densities', 'Markov::Prob*/RandomPick*')])
P('P06', 'A rejected or inapplicable update leaves the configuration unchanged',
  'When an update is rejected, or finds that it cannot be applied, the diagram - topology, attributes, momenta and their registers, worm, weights, sign, phase, measurement marks and external vertex - is exactly what it was before.',
  ['histories', 'inputs'], 'every consistent diagram x update x draw ending without acceptance',
  'Half-undone proposals differ from the original state only in rarely compared attributes.',
  MK, [('undo paths', 'rejection branches of Markov::*')])
P('P07', 'Measuring, delta, worm and three-vertex marks stay consistent',
  'After every update, accepted or rejected, exactly one line is the measuring line and it is the one the diagram points at; instantaneous interactions join equal times and are never the measuring or three-vertex line; the worm ends are distinct vertices and exactly the interactions they sit on are marked as worm interactions; and when a three-vertex is active exactly one non-measuring line carries it, with the external vertex attached to its end points.',
  ['histories', 'inputs'], 'every consistent diagram x update x draw',
  'Flags are never observed by the tests except through aggregate weight checks.',
  MK, [('flags', 'IsMeasure/IsDelta/IsWorm/IsGGGammaG/IsWWGammaW')])
P('P08', 'Lattice site <-> index conversion is a bijection and displacements are periodic',
  'On every lattice size, converting a site to its index and back is the identity, indices cover exactly the range of the lattice volume, wrapping a coordinate gives the unique equivalent site inside the cell, and the displacement between two sites is translation invariant and periodic.',
  ['inputs', 'configurations'], 'every lattice size within the bound x every site, coordinate and pair of sites',
  'Tests use one 8x4 lattice and a few sites.',
  ['src/lattice/lattice.cpp', 'src/lattice/lattice.h', 'src/utility/vector.h'], [('index maps', 'Lattice::Vec2Index/Index2Vec/Shift/CoordiIndex')])
P('P09', 'Momentum arithmetic is exact modulo its period and never leaves the legal range',
  'Sums, differences, negation and scalar products of momenta stay in the legal symmetric range and equal the exact integer result modulo the period; register slots of distinct momenta are distinct and in range.',
  ['inputs'], 'every pair of legal momenta; every integer operand within the bound',
  'Tests check a few sums.', ['src/utility/momentum.cpp', 'src/utility/momentum.h'], [('wrapping', 'Momentum::Shift and operators')])
P('P14', 'Random number helpers stay in range and reach every value',
  'For every output of the underlying generator the uniform real is in [0,1) and increases with the generator output, and the uniform integer lies within the closed interval asked for and can reach every value of it.',
  ['inputs'], 'every 32-bit generator output; every integer interval within the bound',
  'Statistical tests miss single boundary outputs.', ['src/utility/rng.cpp', 'src/utility/rng.h'], [('urn/irn', 'RandomFactory::urn, RandomFactory::irn')])
P('P28', 'Vector arithmetic is component-wise',
  'Addition, subtraction, scaling, equality and in-place forms of lattice and real vectors act on every component independently and leave other operands unchanged.',
  ['inputs'], 'every pair of vectors within the bound',
  'Tests print vectors, they check few operations.', ['src/utility/vector.h', 'src/utility/vector.cpp'], [('operators', 'Vec<T>')])
P('P10', 'Weight tables are laid out as one row-major array of spin, site and time',
  'The index of an entry of the G, W, self-energy and polarization tables is the row-major position of (spin in, sublattice in, spin out, sublattice out, periodic displacement, time bin); distinct arguments have distinct indices, every index is inside the table, and the reported shape is that of the table the Python side exchanges.',
  ['inputs', 'configurations'], 'every lattice size, sublattice and time-bin count within the bound x every spin, site pair and bin',
  'The tests never compare the layout; a transposed axis still gives a running simulation with wrong physics.',
  ['src/module/weight/index_map.cpp', 'src/module/weight/index_map.h', 'src/lattice/lattice.cpp'], [('index maps', 'IndexMapSPIN2/SPIN4::GetIndex, GetShape')])
P('P11', 'Imaginary-time differences fall into the right bin with the right sign',
  'A time difference within (-Beta, Beta) is mapped, after shifting negative values by Beta, to the bin of width Beta/N that contains it; bin centres map back to their own bin; and the (anti)periodicity sign of a time difference is -1 exactly for antisymmetric tables when the difference is not positive.',
  ['inputs'], 'every time difference; inverse temperatures and bin counts within the bound',
  'Boundary and negative differences are single points in a continuum that sampling misses.',
  ['src/module/weight/index_map.cpp', 'src/module/weight/index_map.h'], [('bins', 'IndexMap::TauIndex/IndexToTau/GetTauSymmetryFactor')])
P('P12', 'Propagator and interaction weights are read from the right table entry',
  'The weight of a propagator or interaction is the table entry of its end-point spins, sublattices, displacement and time difference, taken from the measuring, instantaneous or smooth table according to the kind of line, with the antiperiodicity sign; looking a line up from either end gives the same weight, and a worm interaction uses the all-up entry.',
  ['inputs', 'configurations'], 'every spin, site pair, time pair and line kind on every lattice within the bound, for arbitrary table contents',
  'Tests look at a single entry; a swapped argument is invisible when the table is symmetric.',
  ['src/module/weight/component_MC.cpp', 'src/module/weight/component.cpp', 'src/module/weight/index_map.cpp'], [('lookups', 'weight::GClass::Weight, weight::WClass::Weight')])
P('P13', 'The component pools never lose, duplicate or hand out a line twice',
  'The pools of propagators, interactions and vertices hold a permutation of their objects: adding hands out an unused object whose name is its position and is refused when the pool is full, removing takes exactly that object out of use while all others keep being found by their own name, and a removal or addition can be undone.',
  ['histories', 'inputs'], 'every arrangement of the pool x every operation',
  'Tests add three objects and reverse them; corruption needs a particular arrangement after many removals.',
  ['src/module/diagram/component_bundle.h', 'src/module/diagram/component_bundle.cpp'], [('pool', 'diag::Bundle<T>::Add/Remove/Recover/Exist')])
P('P15', 'Complex arithmetic obeys the field laws',
  'Addition, subtraction, multiplication, division, powers, square root, exponential, modulus, phase and argument of complex numbers, in every mixed real/complex and in-place form (also with both operands the same object), equal their mathematical definitions component by component.',
  ['inputs'], 'every pair of complex and real numbers within the bound',
  'No test covers the class; a wrong component is only seen through mixed-type operators that are used rarely.',
  ['src/utility/complex.h', 'src/utility/complex.cpp'], [('operators', 'Complex and its free functions')])
P('P16', 'Measurement series report the right mean and error',
  'Measuring adds a value and one to the norm; the mean is their ratio; recorded histories hold the running means in order, thin out evenly (every second entry, doubled interval) when full and never overflow; the error is half the spread of the history without its first third; rescaling, clearing and bundling act on every series and leave the mean and the others alone.',
  ['histories', 'inputs'], 'every state of a series (number recorded, interval, pending count, values) x every operation',
  'The thinning branch needs 10000 recorded entries, which no test reaches.',
  ['src/estimator/estimator.cpp', 'src/estimator/estimator.h'], [('series', 'Estimator<T>, EstimatorBundle<T>')])
P('P17', 'A measurement is accumulated in exactly one right table entry',
  'Measuring the self-energy or the polarization adds the given weight, with the antiperiodicity sign, to the entry of its order, spins, sublattices, displacement and time bin, and changes no other entry and no normalization; the accumulators are large enough for every order up to the maximum, and their normalization is fixed by temperature, volume and the number of bins.',
  ['inputs', 'configurations'], 'every order, spin, site pair, time pair and weight on every lattice within the bound, for an arbitrary probe entry',
  'The accumulated tables are too large to be compared by tests; one wrong entry looks like noise.',
  ['src/module/weight/component_MC.cpp', 'src/module/weight/weight_estimator.cpp', 'src/module/weight/component.cpp'], [('accumulators', 'weight::SigmaClass::Measure, weight::PolarClass::Measure, WeightEstimator')])
P('P18', 'Each configuration is measured in its own section of the configuration space',
  'A measurement adds one count to exactly the series of the current order and worm state and of the current section (self-energy, polarization or one of the three-vertices); a worm configuration contributes nothing else; at order 0 the normalization of the measured section (and of its three-vertex) grows by the inverse order factor; otherwise exactly one accumulator receives the diagram phase divided by the order factor (and by the three-vertex factor; negative for the polarization), at the points, times and spins at which the measuring line is cut.',
  ['inputs', 'configurations'], 'every order, worm state, measuring line, three-vertex state, phase, factor, site, time and spin',
  'A wrong branch gives plausible but wrong physics; no test calls it.',
  ['src/module/markov/markov_monitor.cpp'], [('measurement', 'MarkovMonitor::Measure')])
P('P19', 'Reweighting equalizes the sections and touches nothing else',
  'Adjusting the reweighting factors is refused, with every factor unchanged, unless every order and section has enough samples; otherwise each order, worm, polarization and three-vertex factor is multiplied by the declared ratio of counts and the order-0 factor is 1. The statistics are not changed; reporting changes nothing; squeezing divides every series, norm and table by the factor once.',
  ['inputs', 'histories'], 'every count, norm and factor',
  'The refusal and the three-vertex paths need long runs to be reached.',
  ['src/module/markov/markov_monitor.cpp', 'src/estimator/estimator.cpp'], [('reweighting', 'MarkovMonitor::AdjustOrderReWeight/PrintOrderReWeight/SqueezeStatistics')])
P('P20', 'Three-vertex tables are read and accumulated symmetrically',
  'Looking up or measuring a three-vertex uses the entry of its spin, displacement from the external vertex and the two time differences (reduced by the symmetry maps supplied), with the sign, conjugation and symmetry factor its spin state and time flag require; lookup and measurement use the same entry, from whichever end a line is looked up; measuring changes no other entry; norms, squeezing and clearing act on the whole table; and a change of temperature reaches the time bins and the norm while keeping the accumulated weight.',
  ['inputs', 'configurations'], 'every spin, site triple, time triple and symmetry map within the bound, for arbitrary table contents',
  'No test touches three-vertices.',
  ['src/module/weight/gamma3.cpp', 'src/module/weight/component_MC.cpp', 'src/module/weight/weight.cpp'], [('tables', 'weight::GammaGClass, weight::GammaWClass'), ('lookup', 'GClass::Weight/WClass::Weight with a three-vertex line')])
P('P21', 'A termination signal never interrupts a checkpoint and is never lost',
  'A termination or interrupt signal that arrives while saving is protected is held back and ends the program, with its own number, as soon as the protection ends; at any other time it ends the program at once; protection is reported exactly while it is on, and the default handling is restored afterwards.',
  ['schedules', 'crash points'], 'every interleaving of protect/release calls and signals within the bound',
  'Tests never deliver a signal inside the protected section.',
  ['src/utility/abort.cpp', 'src/utility/abort.h'], [('handlers', 'InterruptHandler')])
P('P22', 'Interval timers fire when due and not before',
  'A timer asked whether an interval has passed answers yes exactly when at least that many seconds have passed since it was started or last fired, and then starts anew; asking too early, or starting it again, does not postpone it; the accumulated running time is the sum over its runs.',
  ['schedules'], 'every sequence of timer calls within the bound under every non-decreasing clock',
  'Tests would have to wait for wall-clock time.',
  ['src/utility/timer.cpp', 'src/utility/timer.h'], [('timer', 'timer::start/restart/check/stop')])
P('P30', 'Weight tables and accumulators keep their contents, size and normalization',
  'Allocating, assigning, scaling and shifting a weight table act on every entry and never reach outside it: a source longer than the table or an unallocated table is refused. The accumulator norms add up, squeezing divides and clearing resets norm and every entry; annealing to a new temperature keeps the accumulated weight, gives the norm of a run started at that temperature, is idempotent, and makes every table bin times at the new temperature.',
  ['inputs', 'histories'], 'every table contents, accumulator state and pair of temperatures within the bound',
  'Tests never anneal or reload with another order.',
  ['src/module/weight/weight_array.cpp', 'src/module/weight/weight_estimator.cpp', 'src/module/weight/component.cpp'], [('tables', 'WeightArray'), ('accumulators', 'WeightEstimator::Allocate/Anneal/SqueezeStatistics')])
P('P24', 'Rebuilding a diagram derives everything from its lines and nothing else',
  'Restoring or resetting a diagram recomputes every vertex link and direction, every line weight and worm mark, the order, the worm weight, the diagram weight and phase from the lines, vertices, worm ends and fermion-loop sign alone, whatever stale values were there; the configuration itself is kept, the given lattice and tables are the ones used, and a diagram that carries an active three-vertex is refused.',
  ['histories', 'configurations'], 'every diagram within the bound x every stale value of the derived data',
  'Tests only rebuild the diagram they have just loaded.',
  ['src/module/diagram/diagram.cpp'], [('rebuild', 'Diagram::FixDiagram, Diagram::Reset')])
P('P23', 'The diagram self-check accepts exactly the consistent diagrams',
  'The built-in consistency check refuses a diagram (by failing or stopping) whenever the numbers of lines and vertices do not match the order, an end-point link is not mutual or leads to an unused object, a vertex direction is wrong, the measuring line is missing, doubled or not the one pointed at, a worm mark does not match the worm, an instantaneous line joins different times or measures, momentum is not conserved, a propagator joins different spins, a line weight is zero or not its table value, or the diagram weight is not the signed product; and it accepts every diagram where all of this is right.',
  ['configurations'], 'every corrupted or uncorrupted value of each kind of data, on every topology within the bound',
  'Tests only feed it diagrams that are right.',
  ['src/module/diagram/diagram_check.cpp'], [('self-check', 'Diagram::CheckDiagram')])
P('P25', 'A checkpoint restores the run exactly',
  'Saving changes nothing. Loading into a fresh or used object restores the diagram (lines, end points, momenta, marks, sites, times, spins, worm, fermion-loop sign, and everything derived from them), the measurement series (sums, norms, history and how densely it is recorded), the accumulators and their norms, the weight and three-vertex tables and maps, and the run parameters (temperature, lattice, order and reweighting factors, progress, timers, random-generator state); series and orders the file does not hold start empty; data that does not fit (another shape, too long a history, too many orders, too few order factors) is refused and never written outside its place.',
  ['crash points', 'histories', 'configurations'], 'every saved state x every stale state of the object loaded into, within the bound',
  'Tests write and read back one default-built object; a checkpoint is loaded after a crash, into whatever the new run holds.',
  ['src/module/diagram/diagram_IO.cpp', 'src/estimator/estimator.cpp', 'src/module/weight/weight_estimator.cpp', 'src/module/weight/weight_array.cpp', 'src/module/weight/gamma3.cpp', 'src/module/parameter/parameter.cpp', 'src/module/markov/markov_monitor.cpp'],
  [('diagram', 'Diagram::ToDict/FromDict'), ('data', 'Estimator/WeightEstimator/WeightArray/GammaGClass/GammaWClass ToDict/FromDict'), ('parameters', 'ParaMC::ToDict/FromDict'), ('monitor', 'MarkovMonitor::ToDict/FromDict')])
P('P26', 'A new parameter message is applied completely, once, or not at all',
  'A run follows a message of the self-consistency loop exactly when the message and the weight file can be read, its version is newer than the one applied last, and no three-vertex is active. Then version and temperature become those of the message, the new tables (and three-vertex tables of a three-vertex run) are loaded, the accumulated statistics are kept, moved to the new temperature and squeezed once by its factor, and the diagram, the chain and the monitor go on with the new tables and temperature; a diagram that fails its check afterwards stops the run. Otherwise nothing changes and it says so. Messages are written and read back unchanged.',
  ['histories', 'schedules', 'crash points'], 'every message, run state and availability of files within the bound',
  'No test sends a message; a stale temperature, a table loaded for nothing, a message applied twice or half looks like ordinary noise.',
  ['src/environment/envMonteCarlo.cpp', 'src/module/parameter/message.cpp', 'src/module/parameter/parameter.cpp'], [('annealing', 'EnvMonteCarlo::ListenToMessage, para::Message, Parameter::UpdateWithMessage')])
P('P27', 'Runs start, checkpoint and resume as one history',
  'A new run takes its parameters from the input file and its tables (and three-vertex tables of a three-vertex run) from the weight file, has empty statistics and a new diagram, and leaves a parameter file from which it can be resumed. A resumed run takes the parameters and the diagram of the parameter file (of the input file and a new diagram if there is none), the tables of the weight file and the statistics of the statistics file; a missing file it needs stops it. Saving changes nothing in the run, writes only the parameter and the statistics file, both or (while a three-vertex is active) neither, and resuming from them gives every part what it had saved.',
  ['crash points', 'histories'], 'every combination of present and missing files, every parameter set and three-vertex state within the bound',
  'Tests never start, kill and resume a run.',
  ['src/environment/envMonteCarlo.cpp', 'src/module/parameter/parameter.cpp'], [('environment', 'EnvMonteCarlo::BuildNew/Load/Save')])
P('P29', 'Every step tries one update, chosen with its declared probability',
  'The declared probabilities are non-negative and add up to one; the three-vertex updates have one exactly in three-vertex runs, every other enabled update always. Every step of the chain draws once, advances the step counter by one and tries at most one update, each as often as declared and the disabled ones never; a sweep makes that many steps. Building or resetting the chain connects it to the parameters, diagram, worm, tables, lattice and random generator of the run, a reset keeps the probabilities, and the statistics of tries start empty.',
  ['inputs', 'schedules'], 'every random number (in pairs) with and without the three-vertex run',
  'A skewed or unreachable update still gives a plausible chain.',
  ['src/module/markov/markov.cpp', 'src/module/markov/markov.h'], [('dispatch', 'Markov::Hop'), ('set-up', 'Markov::BuildNew/Reset')])
P('P31', 'A new run starts from a consistent order-1 diagram',
  'Diagram::BuildNew, and SetTest, called on a new Diagram object or on one already used for a diagram of another order, leave the diagram of order 1 with two vertices, two propagators and one interaction: links, momenta and registers, spins, line weights, total weight, phase and '
  'marks satisfy everything stated in P01-P04 and P07; there is no worm and no three-vertex, the lattice and the weight tables are the ones given, and both vertices are at time 0 on sublattice 0, which exist at every temperature and on every lattice. Nothing of an earlier diagram remains.',
  ['histories', 'configurations'], 'every earlier content of the diagram object within the bound',
  'A test looks at one freshly built object; a leftover register or mark of an earlier diagram only shows up many updates later.',
  ['src/module/diagram/diagram_IO.cpp', 'src/module/diagram/diagram.cpp'], [('start', 'Diagram::BuildNew, Diagram::SetTest'), ('rebuild', 'Diagram::Reset, FromDict, ClearDiagram, FixDiagram')])
P('P32', 'Every weight table is built for the run and saved and loaded as itself',
  'The container of weight tables (weight::Weight) builds each table for the lattice, temperature, number of time bins, order and time symmetry of the run, with the normalization factor of its lattice, and empty for a new run. Saving writes exactly the groups asked for (propagators, self-energies, three-vertices, '
  'three-vertex statistics) and changes nothing; loading puts each entry into its own table and leaves the other groups alone, connects the three-vertex tables to the propagator and the interaction, and lets missing three-vertex statistics start empty. Annealing reaches every table that exists. '
  'A run of order 0 and basis functions of another temperature are refused.',
  ['inputs', 'histories'], 'every temperature, basis temperature, group of tables, earlier content of the container within the bound',
  'No test loads, anneals or rebuilds the container; a table built with the wrong bins or loaded from a sibling entry gives plausible numbers.',
  ['src/module/weight/weight.cpp', 'src/module/weight/component.cpp', 'src/module/weight/gamma3.cpp'], [('container', 'weight::Weight::BuildNew/FromDict/ToDict/Anneal')])
P('P33', 'The main loop measures every sweep and acts exactly once on every due timer',
  'The program takes its input file from the command line (-p/--PID N for infile/_in_MC_N, -f/--file PATH), refuses anything else, and runs the Monte Carlo loop for jobs of type MC only. The loop resumes a saved run if the job says so and starts a new one otherwise, exactly once and before the first sweep, '
  'looks for a message once before the first sweep, and then alternates sweeps of the given length: the first Toss of them are not measured, every later one is followed by exactly one measurement; the series are recorded once every 100 measurements, and the four timers, each with its own interval, are looked at then. '
  'Whatever is due (checking the diagram and printing, checkpoint, message, reweighting) is done exactly once, before the next sweep, and nothing else is; a checkpoint is written only while signals are deferred, and they are released before the next sweep. A diagram that fails its check stops the run.',
  ['histories', 'inputs'], 'every history of due timers, order and command line within the bound',
  'The loop never ends and is not run by any test; a measurement skipped, made twice or made while thermalizing, or a checkpoint outside the protected section, shows up only as a bias or a rare loss.',
  ['src/main.cpp'], [('loop', 'MonteCarlo(const para::Job&), main')])
NOT_APPLICABLE = {}

MKM = ('`h_markov.cpp`/`markov_state.h`: a symbolic diagram of the given order is built in the real `Diagram` object - every pairing of vertices by propagators and interactions, every '
       'labelling, worm position, mark, spin, site, time, momentum - constrained to be consistent (the invariant of P01-P04, P07 is the precondition); the real update function is executed '
       'with symbolic draws; ')
METHOD = dict(
 P01=MKM + 'afterwards the structure invariant is asserted. One inductive step: with a consistent start (P24/P27 build one) it holds on histories of any length.',
 P02=MKM + 'afterwards conservation at every vertex (modulo the period), legality, distinctness and register contents for an arbitrary slot are asserted.',
 P03=MKM + 'afterwards spin equality along propagators and the spin balance of each interaction are asserted.',
 P04=MKM + 'afterwards every line weight is compared with the uninterpreted weight function at the line\'s current arguments, the fermion-loop sign with the parity of the vertex permutation, the diagram weight with the product.',
 P05=MKM + 'on every path the decision is compared with an independently written target density times the proposal probability of the update and its inverse: accepted paths must have draw < ratio, rejected draw >= ratio.',
 P06=MKM + 'on each path where the update counts as not accepted, the whole state is compared with a copy taken before.',
 P07=MKM + 'afterwards uniqueness of the measuring line, instantaneous, worm and three-vertex marks are asserted.',
 P08='`h_lattice.cpp`: symbolic lattice size, coordinates and displacement; bijection, range, wrap-around uniqueness and translation invariance of the real Lattice functions.',
 P09='`h_momentum.cpp`: two symbolic legal momenta and integers, all operators; exact integer oracle modulo the period.',
 P10='`h_index.cpp`: the real IndexMap against a Horner-form row-major position, plus injectivity by construction and shape.',
 P11='`h_index.cpp`: symbolic time difference; the bin must contain it (two-sided inequality); sign.',
 P12='`h_weight.cpp`: the table is an uninterpreted function of the entry (symbolic region); the value returned by the real G/W.Weight in each form is compared with the entry computed independently.',
 P13='`h_pool.cpp`: arbitrary pool permutation; Add/Remove/Recover and lookups.',
 P14='`h_rng.cpp`: the 32-bit output of the generator is symbolic; range, monotonicity, and for onto-ness the solver produces the output that reaches any chosen value.',
 P15='`h_complex.cpp`: component formulae over the reals, all operator forms, aliasing.',
 P16='`h_estimator.cpp`: arbitrary series (bounded buffer), one operation each; oracle for mean, thinning, error.',
 P17='`h_weight.cpp`: one measurement into an arbitrary accumulator; the entry chosen and an arbitrary other entry are checked.',
 P18='`h_monitor.cpp`: an arbitrary configuration is measured by the real MarkovMonitor::Measure; recorders instead of the accumulators tell where what was added.',
 P19='`h_monitor.cpp`: arbitrary counts and factors through AdjustOrderReWeight, PrintOrderReWeight, SqueezeStatistics.',
 P20='`h_gamma.cpp`: the real three-vertex classes on arbitrary tables and symmetry maps.',
 P21='`h_signal.cpp`: every sequence of protect/release/signal events against the real InterruptHandler; signal/exit modelled.',
 P22='`h_timer.cpp`: every sequence of timer calls under an arbitrary clock.',
 P23='`h_check.cpp`: an arbitrary, possibly inconsistent diagram is given to the real CheckDiagram; verdict equals an independently written consistency predicate in both directions.',
 P24='`h_markov.cpp` h_fix: arbitrary stale derived data; FixDiagram/Reset must reproduce the derived data of the configuration.',
 P25='`h_ckpt.cpp`, `h_ckdata.cpp`, `h_ckpara.cpp`, `h_ckmon.cpp`: ToDict of an arbitrary object, FromDict into an arbitrary other object, compare field by field.',
 P26='`h_env.cpp`: the real EnvMonteCarlo::ListenToMessage over a modelled file system with symbolic files and messages; parts are recorders; the order and arguments of calls are compared with the declared protocol.',
 P27='`h_env.cpp`: BuildNew, Load, Save over symbolic presence of files.',
 P28='`h_vec.cpp`: component-wise oracle, all operators; integers as bitvectors, doubles as IEEE.',
 P29='`h_hop.cpp`: the real Hop with updates replaced by recorders; the two engine outputs are symbolic; the update chosen must be the one whose cumulative interval contains the draw.',
 P33='`h_main.cpp`: the real main and MonteCarlo with the environment, timers and signal handler replaced by recorders; which timers are due is symbolic; the obligations are asserted at every recorded call.',
 P32='`h_tables.cpp`: the real container with tables of arbitrary content; ToDict, FromDict into a container with other or equal shapes, BuildNew, Anneal; part by part comparison.',
 P31='`h_new.cpp`: the real Diagram constructor or an arbitrary used object, then the real BuildNew/SetTest with the embedded text parsed; the invariants of P01-P04, P07 are asserted.',
 P30='`h_table.cpp`: arbitrary contents of arrays and accumulators, each operation; refusal of mis-sized sources; Anneal.',
)
COST = dict(P33='30 s', P01='140 s', P02='345 s', P03='140 s', P04='150 s', P05='150 s', P06='140 s', P07='150 s', P08='20 s', P09='20 s', P10='62 s', P11='24 s', P12='70 s', P13='8 s', P14='10 s', P15='3 s',
            P16='4 s', P17='55 s', P18='5 s', P19='6 s', P20='235 s', P21='3 s', P22='14 s', P23='80 s', P24='85 s', P25='29 s', P26='4 s', P27='4 s', P28='50 s', P29='7 s', P30='19 s', P31='5 s', P32='10 s')
MUT = ('''Random single-token and statement-deletion mutants of the source files were run against the checks of the properties anchored there (tools/mutate.py; mutants that do not compile are not counted; killed/total): '''
 '''environment 38/45, parameters 21/25, messages 9/12, measurement series 43/60, monitor 40/50, weight accumulators 13/16, three-vertices 4/5, lattice 23/25, momentum 24/25, complex 40/50, pools 20/24, vectors 3/15 (stream operators mostly), main loop 26/32. '''
 '''Every survivor was read. Most are equivalent or outside the properties: text that is logged or printed, stream output, deletion of files, the PID field, the convergence ratio, an overload that no header declares, debug-only assertions. '''
 '''The rest were gaps and led to stronger checks: estimator bundles restored by name (P25), equality of real vectors (P28), the whole container of weight tables (P32), powers of complex numbers at moderate arguments so that a counterexample survives the replay in floating point (P15), the norm threshold of three-vertex reweighting (P19), a failed self-check stopping the run (P33).''')
