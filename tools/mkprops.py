import json
S="dwave/optimization/src/"; N=S+"nodes/"; I="dwave/optimization/include/dwave-optimization/"; P="dwave/optimization/"
NODES=[N+x for x in ("collections.cpp","constants.cpp","flow.cpp","indexing.cpp","manipulation.cpp","mathematical.cpp","numbers.cpp","quadratic_model.cpp")]
def p(id,title,statement,over,text,why,files,mech):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=m,where=files[min(i,len(files)-1)]) for i,m in enumerate(mech)]))
L=[
p("C01","Incremental updates agree with evaluating the model from scratch",
 "After any sequence of decision-variable moves, each propagated through the model and then either accepted or rejected, every symbol holds exactly the values and shape it would have if a fresh state were initialised with the current decision values. This holds for every kind of symbol, for fixed-size and dynamically sized arrays, for any number of moves batched before one propagation, and no matter how the symbols are composed (up to floating-point rounding).",
 ["histories","programs","inputs"],"all models, all histories of (batched moves, propagate, accept|reject)",
 "The stable suite is Python only and never propagates an update: it only initialises states. Even the C++ samples check a handful of fixed move sequences.",
 NODES+[S+"graph.cpp",S+"utils.cpp"],["each symbol's propagation step patches its cached output from the change reports of its predecessors","graph-level propagation in topological order over the descendants of the moved decisions"]),
p("C02","A rejected move leaves no trace",
 "Rejecting a proposed batch of moves restores every symbol (values, sizes, shapes, empty change report) to exactly what it was before the moves, and from then on the state is indistinguishable from one on which the moves were never made, whatever moves follow.",
 ["histories","programs"],"all models and histories in which any subset of the proposals is rejected",
 "No stable test reverts anything; whether leftovers matter depends on which moves follow the rejection.",
 NODES+[S+"graph.cpp",I+"state.hpp"],["per-symbol undo buffers used on rejection","graph-level propose/revert over changed symbols"]),
p("C03","Change reports are exact",
 "Between two commits, applying the changes a symbol reports, in order, to its previously committed contents yields its current contents: every reported old value is the value then held, growth and shrinkage happen only at the end of the array, and the reported size change is the actual one. After a commit or a rejection nothing is reported.",
 ["histories","programs","inputs"],"all symbols, all batches of moves, after each propagation",
 "Downstream symbols rely on it for any predecessor behaviour; tests look at a few explicit diffs and none of the stable ones look at any.",
 NODES+[S+"utils.cpp",I+"array.hpp"],["change-report buffers of each symbol","merging of repeated updates to one element"]),
p("C04","Advertised value and size ranges are never exceeded",
 "Whatever assignment the decision variables take, every symbol's values lie (up to floating-point rounding) between its advertised minimum and maximum, are integers when it is advertised as integral and 0/1 when advertised as logical, and its size lies between its advertised minimum and maximum size (and equals the advertised size when that is fixed), so that its state never takes more bytes than announced.",
 ["inputs","programs","histories"],"all symbols over all reachable decision assignments, including negative, mixed-sign and empty ranges",
 "Each combination of operator and operand ranges has its own bound formula; tests sample a few and never the extremes of sign-crossing ranges.",
 NODES+[S+"array.cpp",I+"array.hpp"],["range computation of every operator","size information of dynamically sized symbols"]),
p("C05","Every symbol evaluates to its documented meaning",
 "For every assignment of the decision variables, the value and shape of every symbol built with the public operators, methods and mathematical functions equal what NumPy gives for the same expression (with the documented conventions, such as x mod 0 = 0 and a quadratic model being its quadratic form), up to floating-point rounding; an expression whose operands plainly fit (equal fixed shapes, or a scalar) is never refused, except a division or a square root that might be undefined within the declared ranges.",
 ["inputs","programs"],"all operators over all small operand shapes, broadcasts and value assignments; composed expressions",
 "Tests evaluate each operator on one or two hand-picked inputs.",
 [P+"_model.pyx",P+"symbols.pyx",P+"mathematical.py",P+"model.py"]+NODES,["operator overloads and symbol constructors","initialisation of each symbol from its predecessors"]),
p("C06","Moves never take a decision variable outside its domain",
 "Whatever sequence of moves (specific or default, for any random numbers) is applied, accepted or rejected, every decision variable's state is a member of its domain: integers within bounds, 0/1 binaries, lists with distinct elements of the range and admissible length, sets likewise, disjoint sets and lists forming a partition. Each specific move changes exactly what it documents and nothing else.",
 ["histories","inputs"],"all move sequences and all random outcomes for small variables; all admissible domains, including negative bounds and size limits",
 "No stable test performs a move.",
 [N+"numbers.cpp",N+"collections.cpp",I+"nodes/numbers.hpp",I+"nodes/collections.hpp"],["exchange/rotate/grow/shrink/flip/set/swap/pop moves","default moves driven by a random generator"]),
p("C07","State assignment accepts exactly the valid values",
 "Explicitly setting a decision variable's state succeeds exactly for the members of its domain and then reads back unchanged; any other value is refused with an error and neither that refusal nor the assignment ever changes the state of any other variable or of another state index. (Non-integral numbers are truncated, arrays are taken in row-major order.) A variable that was never set takes a member of its domain by default.",
 ["inputs","histories"],"all candidate assignments up to a small size, all decision kinds and domains",
 "Tests try a few valid and a few invalid assignments per kind.",
 [P+"symbols.pyx",P+"_model.pyx",N+"numbers.cpp",N+"collections.cpp"],["explicit state initialisation with validation","default state initialisation"]),
p("C08","Saving and loading a model preserves it",
 "Writing a model to a file and reading it back yields an equivalent model: the same symbols of the same kinds with the same parameters, the same objective and constraints, equal behaviour on every assignment, and a second save/load changes nothing further. Saving never alters the model being saved.",
 ["programs","inputs"],"all models over the available symbol kinds, alone and composed, with shared sub-expressions, before and after removal of unused symbols",
 "Tests round-trip each symbol once with one parameterisation and compare the kind and a single state.",
 [P+"_model.pyx",P+"symbols.pyx",P+"model.py"],["zip container with header","per-symbol save/load of constructor arguments"]),
p("C09","Saving and loading states preserves them",
 "Writing states to a file (alone or with their model) and reading them back reproduces, for every state index and every decision variable, exactly the values that were set and leaves unset what was unset, so that every derived symbol evaluates equally. Loading states saved for a model that does not match fails with an error.",
 ["histories","inputs","programs"],"all decision kinds, all set/unset patterns over several state indices, models locked or unlocked",
 "Tests save one or two full states.",
 [P+"states.pyx",P+"_model.pyx",P+"symbols.pyx"],["state serialisation per symbol and index","replacement of states on load"]),
p("C10","State lifecycle never exposes stale or foreign values",
 "Under any sequence of setting, resetting, clearing, resizing, locking, unlocking, adding symbols and reading, a derived symbol read at a state index reports the value implied by the decision values currently set at that index, a reset index behaves as never set, reading an index that does not exist raises an error, and adding symbols to or removing symbols from a locked model is refused; every such operation comes to an end, however many paths lead through the model.",
 ["histories"],"all operation sequences up to a bounded depth on small models with several states",
 "Tests run a few fixed scenarios; staleness depends on the order of operations.",
 [P+"_model.pyx",P+"states.pyx",P+"model.py",S+"graph.cpp"],["reset of dependants on assignment","reset of intermediate values on unlock","lazy initialisation on read"]),
p("C11","Independent states do not influence each other",
 "Any number of states of one model can be worked on in any interleaving (moves, propagation, acceptance, rejection, reading): each state evolves exactly as if it were the only one.",
 ["schedules","histories"],"all interleavings of the operations of two (or more) states of a model",
 "Tests use one state at a time; interference appears only under particular interleavings.",
 NODES+[S+"graph.cpp"],["all mutable data lives in the state, not in the symbol"]),
p("C12","Removing unused symbols keeps exactly what matters; ordering is sound",
 "Removing unused symbols removes exactly those symbols that no objective, constraint, decision variable or user-held reference depends on, reports how many it removed, and changes no value of what remains (the symbols that make up a disjoint list or bit-set variable stay with it). Locking orders the symbols so that every symbol comes after everything it is computed from.",
 ["programs","configurations"],"all small model graphs with every choice of objective, constraints and held references",
 "Tests use a few hand-made graphs.",
 [S+"graph.cpp",P+"_model.pyx",I+"graph.hpp"],["topological sort","reachability from objective, constraints, decisions and listeners"]),
p("C13","Objective and feasibility reflect the registered symbols",
 "The objective value reported for a state is the value of the symbol last registered with minimize, and a state is feasible exactly when every registered constraint evaluates to true, for any mixture of added constraints, replaced objectives, removed symbols and moves.",
 ["inputs","histories","configurations"],"all small combinations of constraints, objectives, assignments and histories",
 "Tests check one or two constraints on one state.",
 [S+"graph.cpp",P+"_model.pyx",P+"model.py",P+"symbols.pyx"],["registration of objective and constraints","energy and feasibility evaluation"]),
p("C14","Problem generators encode the problem they document",
 "For every instance accepted by a generator, the generated model's decision space, objective and constraints coincide with the documented problem: an assignment is feasible exactly when it solves the instance's constraints and its objective value is the documented cost; malformed instances are refused, and the arguments are left as they were.",
 ["inputs"],"all assignments of all tiny instances of each generator",
 "Tests build each generator on a few instances and check shapes or one solution.",
 [P+"generators.py"],["one model-building function per problem class"]),
p("C15","Indexing selects exactly the elements NumPy selects",
 "Indexing a symbol with any combination of integers, slices (any start and stop, including negative and out-of-range ones, and any positive step) and index symbols yields the elements, order and shape that NumPy yields, also when the indexed array or the index changes size or contents through moves; indices out of range of a fixed axis are refused when the symbol is built.",
 ["inputs","histories","programs"],"all slices and index tuples over all small shapes; dynamic arrays of every small size",
 "The number of index combinations is far beyond the sampled ones; dynamic slices depend on the current size.",
 [N+"indexing.cpp",I+"nodes/indexing.hpp",I+"array.hpp",P+"_model.pyx",P+"symbols.pyx"],["slice fitting","strided views and gather of index arrays"]),
p("C16","Every way of traversing an array reads the same elements",
 "Iterating forwards or backwards, jumping by any offset, subscripting, measuring distances and comparing positions over the contents of any array (contiguous, strided or masked) are mutually consistent and agree with its row-major contents, and none of these operations alters another position.",
 ["inputs","histories"],"all walks up to a bounded length over all small shapes and strides",
 "Reads through strided iterators are exercised by tests only in a few directions.",
 [I+"array.hpp",S+"array.cpp"],["random-access iterator over strided memory"]),
p("C17","Symbol identity, equality and lifetime are sound",
 "Two symbol handles compare as the same symbol exactly when they denote the same node; structural equality holds only between symbols that evaluate alike and always holds for identically built ones; a symbol is never removed or freed while a handle to it exists, whatever else is dropped, removed or added; enumerating a model's symbols, decisions, constraints, predecessors and successors (one by one or exported as a graph) is consistent with how it was built.",
 ["programs","histories"],"all pairs of small models and symbols; all histories of removal",
 "Tests compare a few pairs.",
 [P+"_model.pyx",P+"symbols.pyx"],["pointer identity plus expiry flag","structural comparison through predecessors and parameters"]),
p("C18","A torn or damaged file is refused, never silently misread",
 "If a saved model or states file is cut short at any byte or damaged in its header, or if reading or writing it fails part way, an error is raised rather than a model or states returned that differ from those saved; no content of a file makes loading crash or hang, or yield a malformed model; and a model whose states were to be loaded or that was to be saved keeps its states and remains usable.",
 ["crash_points","fault_sequences","inputs"],"every truncation point and every single damaged header byte of saved files",
 "Tests load only intact files and one bad version.",
 [P+"_model.pyx",P+"states.pyx"],["header check","zip central directory and checksums"]),
p("C19","The numeric and index primitives are exact",
 "Condensing any list of changes to an array leaves exactly the net change of every place, in order, whatever was changed back, placed or removed in between; flat and multi indices convert into one another for every shape; two shapes broadcast as NumPy broadcasts them or are refused; a slice fitted to a length selects what Python's does; fractions are exact and reduced; a compensated sum is within twice the rounding of its terms however long; and a number counts as an integer exactly when it is one.",
 ["inputs","histories"],"all short consistent change lists; all small shapes, indices, slices and fractions; all short words of terms, repeated",
 "Tests check a handful of values of each; a wrong answer for a rare list, shape or length stays latent until a node meets it.",
 [S+"utils.cpp",I+"utils.hpp",S+"array.cpp",I+"array.hpp"],["deduplicate_diff","broadcast_shape, unravel_index, ravel_multi_index","Slice::fit and size","fraction, double_kahan, is_integer"]),
]
with open("/verif/properties.jsonl","w") as f:
    for x in L: f.write(json.dumps(x)+"\n")
for x in L: assert len(x["title"])<=80,x["id"]
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in L: jsonschema.validate(x,sch)
