prop("V04", "Query simplification never changes an answer",
     "For every net and query, verifying with query simplification gives the same verdict as the query's meaning, wherever the simplification and per-program time limits strike and whichever linear-programming calls fail or give up. A failed or interrupted simplification may leave a query unsimplified, never decide it wrongly.",
     ["inputs", "configurations", "fault_sequences"], "all bounded nets x reachability, CTL and LTL queries with linear and nonlinear arithmetic x simplification time limits x outcomes of every solver call; " + ENV,
     TESTS + " They never make the solver fail and never let a time limit expire half-way.",
     ["src/PetriEngine/PQL/Simplifier.cpp", "src/PetriEngine/Simplification", "src/PetriEngine/PQL/PushNegation.cpp", "src/PetriEngine/PQL/PotencyVisitor.cpp", "src/VerifyPN.cpp"],
     [("state-equation simplification", "PetriEngine/PQL/Simplifier.cpp"), ("linear programs and their unions", "PetriEngine/Simplification/LinearPrograms.cpp, LinearProgram.cpp, LPCache"), ("potency initialisation", "PetriEngine/PQL/PotencyVisitor.cpp")],
     note=NOTE)
prop("V06", "Printed traces are real runs that witness the verdict",
     "Whenever a trace is printed for a query, it is a firing sequence of the original net from its initial marking that demonstrates the reported verdict: it ends in a marking satisfying (or violating) the predicate, or, for LTL, describes a lasso, deadlocked or open run that satisfies (or violates) the formula. Replaying the printed trace in a second process is accepted.",
     ["inputs", "configurations", "schedules", "histories"], "all bounded nets x reachability and LTL queries x search engines, partial-order and structural reductions x environments; " + ENV,
     TESTS + " No test looks at a trace.",
     ["src/PetriEngine/Reachability/ResultPrinter.cpp", "src/PetriEngine/Reducer.cpp", "src/LTL/Algorithm", "src/LTL/Replay.cpp", "include/PetriEngine/Structures/StateSet.h", "src/PetriEngine/TraceReplay.cpp"],
     [("trace printing", "ResultPrinter::printTrace"), ("trace reconstruction after reductions", "Reducer::postFire, initFire"), ("LTL counterexamples", "LTL build_trace, LTLSearch::_print_trace")],
     note=NOTE)
prop("V07", "Upper bounds, structural properties and state-space figures are exact",
     "For every bounded net, each upper-bounds query prints exactly the largest token sum over the reachable markings, the special properties (deadlock, k-safety, liveness, quasi-liveness, stable marking) print their truth, and state-space exploration prints the exact number of markings and largest token counts, for every search order and environment.",
     ["inputs", "configurations", "schedules"], "all bounded nets x bounds and property queries x search orders, simplification, reduction settings x environments; " + ENV,
     TESTS + " No test checks a bound or a count against an independent computation.",
     ["src/PetriEngine/Reachability", "src/PetriEngine/PQL/Evaluation.cpp", "src/PetriEngine/PQL/Simplifier.cpp", "src/PetriEngine/PQL/PQLParser.y", "src/PetriParse/QueryXMLParser.cpp"],
     [("bounds tracking", "UnfoldedUpperBoundsCondition, ReachabilitySearch::checkQueries"), ("state set", "PetriEngine/Structures/StateSet.h, AlignedEncoder"), ("special properties", "QueryXMLParser, PQL/Expressions.cpp")],
     note=NOTE)
prop("V11", "An answer from an abstraction engine is always right",
     "Whenever the over-approximation, trace-abstraction-refinement or siphon-trap analysis prints a verdict for a query, the verdict is the truth of that query in the net, whatever time limits expire, solver calls fail, and wherever the run is interrupted. These engines may give no answer.",
     ["inputs", "configurations", "fault_sequences", "crash_points"], "all bounded nets (without inhibitor arcs for refinement) x reachability queries x abstraction engines x interruption points x environments; " + ENV,
     TESTS + " The tests that run here only unit-test the range sets of the refinement engine.",
     ["src/PetriEngine/TAR", "src/PetriEngine/STSolver.cpp", "src/PetriEngine/PQL/Simplifier.cpp", "src/VerifyPN.cpp"],
     [("trace abstraction refinement", "PetriEngine/TAR/TARReachability.cpp, Solver.cpp, TraceSet.cpp"), ("over-approximation", "VerifyPN.cpp, PQL/Simplifier.cpp"), ("siphon-trap", "PetriEngine/STSolver.cpp")],
     note=NOTE + " Missing answers, and refinement runs that end without one, are not violations of this property.")
prop("V08", "Coloured nets are answered as their unfolding",
     "For every coloured net and query over it, the verdict printed is that of the net obtained by instantiating every transition with every binding of its variables that satisfies its guard. This holds for every combination and order of coloured reductions, colour fixed point, colour partitioning, variable symmetry and their interval and time limits, wherever a limit strikes, and every query of the batch gets exactly one verdict.",
     ["inputs", "configurations", "schedules", "fault_sequences"], "all coloured nets with cyclic, range and product sorts, guards, constants, successor/predecessor, all-terms, weighted sums and differences, inhibitor arcs x reachability, CTL, LTL and bounds queries x coloured reduction rules, fixed point, partitioning, symmetry settings and limits x environments; " + ENV,
     TESTS + " The unfolding is only unit-tested on a few multisets and partitions; no test compares a verdict with an independent unfolding.",
     ["src/PetriEngine/Colored", "src/PetriEngine/Colored/Reduction", "src/PetriParse/PNMLParser.cpp", "src/VerifyPN.cpp", "src/PetriEngine/Colored/Unfolder.cpp"],
     [("unfolding", "PetriEngine/Colored/Unfolder.cpp, BindingGenerator.cpp, EvaluationVisitor.cpp"), ("colour fixed point", "PetriEngine/Colored/ForwardFixedPoint.cpp, IntervalGenerator.cpp, GuardRestrictor.cpp"), ("colour partitioning", "PetriEngine/Colored/PartitionBuilder.cpp"), ("coloured reductions", "PetriEngine/Colored/Reduction"), ("coloured PNML input", "PetriParse/PNMLParser.cpp")],
     note=NOTE)
prop("V09", "The explicit coloured engine answers as the unfolding",
     "For every coloured net and every EF or AG query the explicit coloured engine supports, the verdict it prints (and the exit status that repeats it) is that of the net obtained by instantiating every transition with every binding of its variables that satisfies its guard, and a printed trace is a sequence of such firings from the initial marking that demonstrates the verdict. This holds for every search order, successor generator, random stream, coloured reduction, clock and solver outcome; a query the engine does not support is refused, never answered wrongly.",
     ["inputs", "configurations", "schedules", "fault_sequences"], "all coloured nets with cyclic, range and product sorts, guards, constants, successor/predecessor, all-terms, weighted sums and differences, inhibitor arcs x EF/AG queries over token counts and firability x search orders, successor generators, coloured reductions and limits x environments; " + ENV,
     TESTS + " They exercise single compilers of this engine on a few expressions; none compares a verdict or a trace with an independent semantics.",
     ["src/PetriEngine/ExplicitColored", "include/PetriEngine/ExplicitColored", "src/PetriEngine/Colored/PnmlWriter.cpp", "src/main.cpp"],
     [("guard, arc and query compilers", "PetriEngine/ExplicitColored/ArcCompiler.cpp, ExpressionCompilers"), ("successor generation", "PetriEngine/ExplicitColored/SuccessorGenerator"), ("explicit search", "PetriEngine/ExplicitColored/Algorithms/ExplicitWorklist.cpp"), ("colour-ignorant over-approximation", "PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp, ExplicitColoredModelChecker.cpp"), ("trace printing", "PetriEngine/ExplicitColored/ColoredResultPrinter.cpp")],
     note=NOTE + " A reported UNSUPPORTED or a refused query is allowed outside the supported fragment; traces are checked without coloured reductions only.")
prop("V12", "Synthesis answers match the game and strategies win",
     "For every net with controllable and uncontrollable transitions, each synthesis query (control: AG p or AF p) is reported TRUE exactly when the controller can force p whatever the environment does, every such query of the batch gets exactly one answer, and a strategy written for a winning query names, for every marking the play can reach under it, moves that are enabled, belong to the controller and keep the play winning. This holds for every search order, partial-order and query-simplification setting, coloured unfolding, clock, random stream and solver outcome.",
     ["inputs", "configurations", "schedules", "fault_sequences"], "all bounded game nets (inhibitor arcs, weights, deadlocks, coloured nets) x control queries x search orders, game partial-order reduction, query simplification and limits x environments; " + ENV,
     TESTS + " No test solves a game or looks at a strategy.",
     ["src/PetriEngine/Synthesis", "src/PetriEngine/Stubborn", "include/PetriEngine/Synthesis", "src/main.cpp", "src/VerifyPN.cpp"],
     [("backward-propagating game solver", "PetriEngine/Synthesis/SimpleSynthesis.cpp"), ("game successor generation and stubborn sets", "PetriEngine/Synthesis/GameSuccessorGenerator.cpp, GameStubbornSet.cpp, IntervalVisitor.cpp"), ("strategy output", "SimpleSynthesis::print_strategy"), ("query preparation for games", "PQL/PushNegation.cpp, VerifyPN.cpp")],
     note=NOTE + " The environment may fire any of its enabled transitions; a controller with an enabled transition has to commit to one when the environment cannot move.")
prop("V13", "Written nets and queries mean the same when read back",
     "Whenever the tool writes a net or query file (simplified queries in XML or binary form, reduced, unfolded or coloured-reduced nets) and reports success, a later run that reads the files answers every query exactly as the original net and query demand, and no query is lost. When writing fails or the process dies at any point, either the failure is reported by the exit status or the files are complete; a torn file is never answered wrongly.",
     ["inputs", "configurations", "fault_sequences", "crash_points", "histories"], "all bounded nets and coloured nets x reachability, CTL, LTL and bounds query batches x output stage (simplified, reduced, unfolded, coloured-reduced; XML or binary) x write errors, short writes, open errors and crashes at every write; " + ENV,
     TESTS + " The printers are only unit-tested on a few formulas and never under faults.",
     ["src/PetriEngine/PQL", "src/PetriParse", "src/VerifyPN.cpp", "src/main.cpp", "src/PetriEngine/PetriNet.cpp", "src/PetriEngine/Colored/PnmlWriter.cpp", "src/PetriEngine/Colored/Reduction/ColoredReducer.cpp"],
     [("query writers", "PQL/XMLPrinter.cpp, PQL/BinaryPrinter.cpp, VerifyPN.cpp writeQueries"), ("query readers", "PetriParse/QueryXMLParser.cpp, QueryBinaryParser.cpp"), ("net writers", "PetriNet.cpp toXML, Colored/PnmlWriter.cpp"), ("failure reports", "main.cpp, VerifyPN.cpp")],
     note=NOTE)
prop("V15", "Simplification by several threads gives the same answers",
     "When query simplification and potency initialisation run in several threads (builds with VERIFYPN_MC_Simplification, option -z), every query of the batch gets exactly one verdict and it is the truth, however the threads interleave, whichever time limits strike and whichever linear-programming calls fail; the threads never deadlock, crash or lose a query.",
     ["schedules", "inputs", "fault_sequences", "configurations"], "all bounded nets x query batches (reachability, CTL, LTL, bounds, coloured) x 2 to 5 threads x thread interleavings at the granularity of memory accesses x environments; " + ENV,
     TESTS + " They are built without this option and run no second thread.",
     ["src/VerifyPN.cpp", "src/PetriEngine/PQL/Simplifier.cpp", "src/PetriEngine/PQL/PushNegation.cpp", "src/PetriEngine/Simplification", "include/PetriEngine/Simplification/LPCache.h"],
     [("work distribution and joining", "VerifyPN.cpp simplify_queries, initialize_potency"), ("state shared by the threads", "PQL/Simplifier.cpp, Simplification, shared formula nodes")],
     note=NOTE + " Interleavings are sequentially consistent: effects of weaker memory ordering are not explored. Code inside GLPK and libstdc++ is not preempted, except at allocations.")
prop("V16", "Running out of memory never yields a wrong answer",
     "Whichever memory allocation of a run fails, once or for good, every verdict printed is the truth of its query, no query is answered twice, and a run that reports success has answered every query. A run whose memory ran out may end early and then says so by its exit status; query simplification may be given up and the query decided without it.",
     ["inputs", "configurations", "fault_sequences"], "all bounded nets and coloured nets x query batches of every logic x engines and options x the allocation that fails, alone or with all later ones; " + ENV,
     TESTS + " No test makes an allocation fail.",
     ["src/PetriEngine/PQL/Simplifier.cpp", "src/VerifyPN.cpp", "src/main.cpp", "src/PetriEngine/Simplification"],
     [("giving up a simplification", "PQL/Simplifier.cpp handlers of std::bad_alloc"), ("failure reports", "main.cpp, VerifyPN.cpp")],
     note=NOTE + " Allocation failures are injected into malloc and operator new, in the linear-programming library too; how the run ends (error or signal) is not judged, only what it printed.")
prop("V17", "Damaged or unreadable input is refused, never misread",
     "When the model or query file ends early, or reading it fails at any point, the run ends without crashing or hanging, never prints a verdict that is false for the intact files, and reports the failure by its exit status unless it answered every query. Input whose every byte can be read, however few bytes each read returns and however often it is interrupted, is answered in full.",
     ["inputs", "fault_sequences", "crash_points"], "all bounded nets and coloured nets x query batches in XML, binary and text form x truncation points x read errors, short reads, interruptions and open errors at every call; " + ENV,
     TESTS + " No test reads a damaged file or meets a read error.",
     ["src/PetriParse", "src/PetriEngine/PQL/PQLParser.y", "src/VerifyPN.cpp", "src/main.cpp"],
     [("model reader", "PetriParse/PNMLParser.cpp"), ("query readers", "PetriParse/QueryXMLParser.cpp, QueryBinaryParser.cpp, VerifyPN.cpp readQueries"), ("error reports", "main.cpp")],
     note=NOTE)
prop("V10", "Interactive sessions follow the net",
     "In an interactive session over a coloured net, every reply lists exactly the bindings enabled in the current marking, each once; after a firing it shows exactly the marking that firing leads to, and after a marking is set the bindings are those of that marking. Each reply is complete and visible before the next request is awaited, however the request bytes are delivered and however long the session. A request that is malformed, incomplete or names something unknown or not enabled is refused with an error; the session ends on EXIT and when the client goes away at any point.",
     ["inputs", "histories", "schedules", "crash_points"], "all coloured nets the explicit engine accepts x request sequences (set marking, fire) x splits of the input stream x ends of the session (EXIT, client lost between or within requests, bad requests); " + ENV,
     TESTS + " No test runs a session.",
     ["src/PetriEngine/ExplicitColored/ExplicitColoredInteractiveMode.cpp", "src/PetriEngine/ExplicitColored/SuccessorGenerator", "src/PetriEngine/ExplicitColored/ExplicitColoredPetriNetBuilder.cpp", "src/PetriEngine/Colored/PnmlWriter.cpp", "src/PetriParse/PNMLParser.cpp"],
     [("session loop and request parsing", "PetriEngine/ExplicitColored/ExplicitColoredInteractiveMode.cpp"), ("enabled bindings", "PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.cpp"), ("markings in and out", "PNMLParser::parseMarking, Colored/PnmlWriter.cpp")],
     note=NOTE)
