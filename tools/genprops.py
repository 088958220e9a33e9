#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
PR="modelchecker/processor.go"; TH="modelchecker/thread.go"; IN="modelchecker/invariants.go"
p("C01","Explored states and steps are exactly those the language semantics allows",
 "For every model whose exploration finishes within its bounds, the states reported at scheduling points and the steps between them are exactly those the documented semantics (atomic/serial/oneof/parallel flow, if/for/while/break/continue/return, require, any/oneof choice, enabling rules, interleaving and thread limits) allows: nothing reachable is missing and nothing unreachable is reported. An action that is not enabled contributes no step.",
 ["programs","schedules"],"all models built from the core statement language over integer/boolean/list/dict/set state, and all interleavings of their actions",
 "the tests compare a handful of fixed example specs with recorded counts (many of which are stale and fail); they sample neither programs nor nestings of control flow, and a count does not say the states are right",
 [PR,TH,"modelchecker/clone.go","modelchecker/starlark.go","modelchecker/checker.go"],
 [("breadth/depth-first worklist with visited map",PR),("statement interpreter and program counters",TH),("enabled flag / ThreadProgress dropping of disabled actions",PR),("state cloning on fork","modelchecker/clone.go")],
 ["Processor.Start + GetAllNodes (state JSON, link names)","CLI state counts"])
p("C02","always assertions: verdict is right and the counterexample is a real run",
 "An always assertion is reported violated if and only if some reachable scheduling-point state makes it false; when it is reported, the failing state really falsifies the named assertion and the reported path is a contiguous execution from the initial state to it, each step named after the transition that was taken. Assertions in any position of the list are checked alike.",
 ["programs","schedules"],"all models and all assertion predicates over their state, including several assertions of which one fails",
 "tests assert pass/fail for a few fixed specs; they do not evaluate predicates over arbitrary state graphs nor replay the reported path",
 [IN,PR,"modelchecker/graph.go","main.go"],
 [("invariant evaluation at yield nodes",IN),("failed-node tracking",PR),("failure path extraction","modelchecker/graph.go")],
 ["Start() failed node","GenerateFailurePath / error-graph.json"])
p("C03","transition assertions are checked on exactly the state-changing steps",
 "A transition assertion is reported violated if and only if some reachable step that changes the model state takes a before-state to an after-state for which it returns false; steps that leave the state unchanged never violate it. The states given to it are the real state before and after that step.",
 ["programs","schedules"],"all models and all two-state predicates, both for atomic actions and for steps of interleaved serial actions",
 "two example specs exercise it; which node counts as the step's predecessor for interleaved, duplicate or revisited states is never varied",
 [IN,PR],[("transition invariant evaluation with before/after structs",IN),("predecessor lookup and stutter skip",PR)],
 ["Start() failed node and its recorded failed assertions"])
p("C04","exists assertions are satisfied exactly when a reachable state is a witness",
 "A model with exists assertions is accepted if and only if each of them holds in at least one reachable scheduling-point state; otherwise an assertion without a witness is reported. The answer does not depend on exploration order or on how many exists assertions there are.",
 ["programs","schedules"],"all models and all sets of exists predicates, with witnesses at any depth or absent",
 "few specs contain exists assertions; witness bookkeeping with deduplicated and early-visited nodes is not varied",
 [IN,PR,"main.go"],[("witness table filled at yield nodes",IN),("CheckSimpleExistsWitness",IN)],["CheckSimpleExistsWitness","CLI message 'Expected states never reached'"])
p("C05","Deadlock is reported exactly when a reachable state has no enabled step",
 "With deadlock detection on and bounds that do not cut the exploration short, a deadlock is reported if and only if some reachable scheduling-point state has no outgoing non-crash step (self-loops count as steps); the reported state is one of those and its path is a real execution. With detection off none is reported.",
 ["programs","schedules","configurations"],"all finite models, with and without disabled actions, no-op actions and crash steps",
 "fixed specs only; the interaction of disabled threads, crash edges, pruning of non-yield nodes and duplicates with the detection is never varied",
 [PR,"modelchecker/graph.go","main.go"],[("live-path computation in GetAllNodes","modelchecker/graph.go"),("early deadlock detection",PR)],["GetAllNodes deadlock node","CLI 'DEADLOCK detected'"])
p("C06","Strict liveness verdicts follow the fairness semantics",
 "With liveness checking set to strict, an 'always eventually' ('eventually always') assertion is reported violated if and only if the reachable graph has an infinite execution, fair with respect to the weak and strong fairness declared on actions, on which the predicate holds only finitely often (is false infinitely often). A reported violation comes with a path from the initial state into a cycle that exhibits it.",
 ["programs","schedules"],"all finite models, all state predicates and all assignments of unfair/weak/strong fairness to actions",
 "example specs cover a few small shapes; correctness over arbitrary graphs (several SCCs, self-loops, fairness toggling inside an SCC) is not sampled",
 [IN,"modelchecker/graph.go","main.go"],[("cycle search with fairness filter",IN)],["CheckStrictLiveness","CLI 'Liveness check failed'"])
p("C07","Nondeterministic-eventual liveness mode gives the same kind of verdict",
 "With liveness checking set to eventual/nondeterministic, an assertion is reported violated if and only if some reachable state cannot reach a good state by steps of fair actions, where a state is good if the predicate holds in it (always eventually), or in it and in everything reachable from it (eventually always). The reported path is a real execution into such a state.",
 ["programs","schedules"],"all finite models and all predicates",
 "hardly exercised by tests at all",[IN,"main.go"],[("reverse reachability from good states",IN)],["CheckFastLiveness"])
p("C08","Exploration bounds and per-action limits are enforced exactly",
 "No explored execution starts more than max_actions actions, runs more than max_concurrent_actions at once, or starts an action (globally, per role type, or per role instance) more often or more concurrently than its action_options allow; and every execution within the limits is explored when the model's state tells how many actions were started.",
 ["programs","configurations","schedules"],"all option combinations over all models, limits 0..n, for plain and role actions",
 "tests fix the options in the spec files; off-by-one and key-precedence errors at other values are invisible",
 [PR,TH,"modelchecker/options.go"],[("depth check and action count limits",PR)],["reported states containing per-action counters"])
p("C09","Crash faults are injected at every yield point, and only where allowed",
 "With crash_on_yield on (and not turned off for the action in progress), at every yield point of a non-atomic action or call chain there is an execution in which that thread stops there for good, and every role instance with a durability annotation that is not waiting for the result of a call it made can crash there, losing exactly its ephemeral fields (reset to their initial values) and its own running threads while its durable fields and all other roles stay as they were; with it off no such execution exists. Atomic actions are never cut in the middle.",
 ["programs","crash_points","configurations"],"all yield points of generated serial/parallel models, all durable/ephemeral field splits, per-action overrides",
 "a few example specs with recorded counts; which crash points are reached and what is lost is not varied",
 [PR,"modelchecker/durability.go"],[("crashThread/crashRole forks at yields",PR),("ephemeral field reset","modelchecker/durability.go")],["states reported after crash links"])
p("C10","Exploration strategy and memory modes do not change the result",
 "When the bounds do not cut the exploration short, breadth-first, depth-first and random exploration, the processed-queue mode and the mode that keeps no graph explore the same set of distinct states and give the same verdict (pass, assertion violated, deadlock) for the same model; the mode that drops return values does so up to those values.",
 ["programs","configurations"],"all models explored to completion under all strategy/mode combinations",
 "the tests run one strategy per spec and compare fixed counts",
 [PR,"main.go","lib/queue.go","lib/stack.go","lib/randomqueue.go"],[("strategy-specific work lists","lib/queue.go"),("processed-queue loop",PR),("no-graph mode",PR)],["unique state counts, verdicts"])
p("C11","Symmetry reduction never changes a verdict and merges only symmetric states",
 "For models whose behaviour is symmetric in the declared values or roles, exploring with symmetry reduction gives the same verdicts for always, transition and exists assertions and for deadlock as exploring without it; every state kept is reachable, and every reachable state is a symmetric image of a kept one.",
 ["programs","schedules","configurations"],"all models symmetric by construction over symmetric_values, nominal/ordinal/interval/rotational domains (with reflection) and symmetric roles",
 "tests compare fixed state counts of some example specs; a count cannot show that a merged state was truly symmetric or that none was lost",
 [PR,"lib/symmetry.go","modelchecker/symmetry_check.go","modelchecker/clone.go"],[("canonical hash over permutations",PR),("permutation generators","lib/symmetry.go"),("permuting clone","modelchecker/clone.go")],["Start with and without symmetry reduction"])
p("C12","Simulation follows real executions and its seed reproduces it",
 "Every simulation run visits only states and takes only steps that exhaustive exploration of the same model contains, reports a violation only if the last state really violates the named assertion (or deadlock), and never exceeds the bounds. The same seed reproduces the same run exactly.",
 ["programs","schedules","inputs"],"all models, all seeds",
 "simulation is random, and tests can only check that it ran",
 [PR,"pkg/modelchecker/simulation.go","main.go"],[("single random path selection",PR),("seeded generator",PR)],["RunSimulation result; simulation nodes"])
p("C13","A guided trace replays exactly the named execution",
 "Replaying the step names of any execution of the model reaches exactly the states at which executions with those step names end, stops there, and says whether the trace was used up; with an extension depth it additionally explores what follows up to that depth. A trace that is not an execution of the model does not reach a state by skipping steps.",
 ["programs","histories"],"all models, all of their executions and corrupted variants of those",
 "only a few hand-written traces are used",
 ["modelchecker/trace.go",PR,"main.go"],[("trace filtering of scheduled transitions",PR),("trace parsing","modelchecker/trace.go")],["states reached with --trace / --trace-file"])
p("C14","Checking a model is deterministic and independent of earlier runs",
 "Checking the same model with the same options and seed twice, in the same process or in different ones and after any other model was checked, gives identical states, steps, verdict and counterexample. Nothing a run does is visible to another run.",
 ["programs","histories"],"all sequences of models checked by one process, repeated runs",
 "each test runs once in its own sequence; map-order and leaked-global dependence only shows across runs",
 [PR,"lib/symmetry.go","lib/starlark_role.go","lib/starlark_types.go"],[("per-run reset of reference counters",PR)],["state graph, counterexample, counts of repeated runs"])
p("C15","Executions are isolated: a step changes only the successor state",
 "Mutating any shared, nested or aliased value (list, dict, set, bag, generic set/map, record, role field) in one branch never changes a previously reported state, a sibling branch, or the initial state; inside one state, references to the same object stay references to the same object after any number of steps.",
 ["programs","schedules"],"all value shapes and aliasing patterns created at initialisation, all mutation sequences",
 "a bug here needs a particular container nesting plus branching; tests use a handful of shapes",
 ["modelchecker/clone.go",PR,TH,"lib/starlark_types.go"],[("deep clone with reference map","modelchecker/clone.go"),("copy on fork",PR)],["reported state JSON before and after exploring siblings"])
p("C16","States are merged exactly when they are equal",
 "Two reached configurations are treated as the same state if and only if their variables, role fields, in-flight threads, pending return values and messages are equal: the order in which set, dict or bag content was produced does not create different states, and any difference in a value (of one variable, at any nesting) keeps states apart.",
 ["programs","inputs"],"all values of the supported types used as state, in all construction orders",
 "the tests contain few value types and never pairs that nearly collide",
 ["lib/jsonmarshaller.go",PR,"modelchecker/clone.go","lib/starlark_types.go"],[("canonical JSON of values","lib/jsonmarshaller.go"),("hash of heap, threads, returns, channels",PR)],["number of distinct states; exported canonical JSON"])
p("C17","next_states() lists exactly the enabled one-step successors",
 "Inside an always assertion next_states() contains exactly the transitions enabled in that state, each with its name, kind, role and resulting state as exploration without bounds would produce, independent of max_actions, concurrency caps and per-action limits and without crash steps; evaluating it does not change the exploration.",
 ["programs","schedules","configurations"],"all models, with limits of any size, plain and role actions and in-flight threads",
 "four example specs with one predicate each",
 [PR,IN],[("successor probe",PR)],["assertions that compare next_states() with the expected list"])
p("C18","Roles, functions and calls behave like objects with isolated state",
 "Each role instance has its own fields, a call passes its arguments and delivers the callee's return value to the caller's target variable with the callee acting on its own instance, local variables never leak between frames, and calls between roles from a non-atomic context explore request loss, response loss and success with the callee's effects as documented.",
 ["programs","schedules"],"all call graphs of generated models: instances, nested calls, atomic/serial callees, argument and return values, interleaved callers",
 "example specs use one or two calls each; interleavings of in-flight calls with different arguments and nested returns are not varied",
 [TH,PR,"lib/starlark_role.go","modelchecker/clone.go"],[("call frames and argument binding",TH),("role objects and id allocation","lib/starlark_role.go")],["reported states, role fields, link names"])
p("C19","A channel delivers every message exactly once, in any order",
 "A call through a stub of a channel returns at once and leaves one pending message; in every state each pending message may be acted on next, in any order, by the addressed instance with the arguments it was sent with, and is then gone. No message is lost, duplicated, invented or altered, at whatever point of which block it was sent or delivered, and every delivery schedule is explored.",
 ["programs","schedules"],"all models of instances that send over one or two channels from any kind of block, action, function or handler",
 "no test uses a channel",
 ["modelchecker/channel_message.go","lib/starlark_channels.go",PR,TH],[("pending message lists and delivery forks",PR)],["reported states after delivery links"])
p("C20","A pre-init hook is equivalent to editing the constants",
 "Running a model with a pre-init hook that assigns constants gives exactly the result of running the model with the resulting values of those constants written in the source, also in functions that read them: same states, steps and verdict. A hook that fails is reported as an error and not ignored.",
 ["programs","inputs"],"all models with constants, all hook assignments (including values computed from other constants)",
 "only one fixed hook is tested",
 [PR,"main.go","pkg/modelchecker/simulation.go"],[("hook executed before Init on the module globals",PR)],["states with hook versus edited source"])
p("C21","Built-in collection types agree with their mathematical models",
 "genericset, genericmap, bag, record, enum, sum/min/max style helpers and the itertools functions behave like the mathematical set, map, multiset, mutable struct, enumeration and iterator they are documented as, for every sequence of operations and every element type including unhashable ones; an operation that fails reports an error and leaves the value unchanged.",
 ["inputs","histories"],"all operation sequences over values of all element types, including equal-but-differently-built elements",
 "unit tests touch a few operations with fixed small values",
 ["lib/starlark_types.go","lib/starlark_itertools.go","lib/starlarkstruct.go","lib/types.go"],[("element lookup by equality in generic containers","lib/starlark_types.go"),("itertools","lib/starlark_itertools.go")],["values computed by expressions of a model"])
p("C22","Symmetric value domains obey their declared algebra",
 "fresh() returns a value different from all values in use and fails when the limit is reached, values()/choices() return the values a model may use without duplicates, the ordering of ordinal and interval values and the arithmetic of interval and rotational values agree with integers (modulo the size for rotational), segments partition the order, and operations the domain kind does not define are errors.",
 ["inputs","histories"],"all domain kinds and parameters (limit, start, divergence, reflection, materialize), all reachable usage histories",
 "the tests fix a handful of small domains",
 ["lib/symmetry.go",PR],[("domain objects and values","lib/symmetry.go")],["values computed by expressions of a model; set of reached states"])
p("C23","Work lists and permutation helpers are complete and order-correct",
 "The queue is first-in-first-out, the stack last-in-first-out, the random queue a seeded permutation, each returning every pushed element exactly once and correct lengths under any operation sequence; the permutation helpers return every arrangement exactly once.",
 ["histories","inputs"],"all operation sequences across internal growth/compaction boundaries; all small input multisets",
 "unit tests push a few elements and never cross buffer boundaries",
 ["lib/queue.go","lib/stack.go","lib/randomqueue.go","lib/permutations.go"],[("ring/slice containers","lib/queue.go"),("permutation generation","lib/permutations.go")],["exported lib API"])
p("C24","Exported graphs are faithful to the explored graph",
 "The saved state and link files contain exactly the explored states and steps: every index refers to the right state, every link has its source, target, name, type, labels, calls, return values and weight, and nothing is lost where the files are split. The graph drawings (also with odd characters in values) parse and show the same states and steps with their fairness and failures, and the communication diagram shows who calls whom. The error trace files, drawing and page have the steps of the counterexample, ending in the reported failing state.",
 ["programs","inputs"],"all explored graphs, including self-loops, parallel links, role fields, odd characters in values, and any number of states",
 "tests compare a few fixed graphs",
 ["modelchecker/graph.go","modelchecker/visualization.go","modelchecker/markovchain.go","main.go"],[("proto and dot export","modelchecker/graph.go"),("error page","modelchecker/visualization.go")],["nodes_*.pb, adjacency_lists_*.pb, error-graph.json, graph.dot"])
p("C25","Steady-state and metric computations match the Markov chain they describe",
 "In the analysis of a state graph, a transition whose labels have probabilities has their sum, the others (all of them when no probability is given) share the rest equally, a state without transitions is never left, and probabilities of more than 1 in total are rejected. The distribution computed is a probability vector and, whenever that chain converges, its limit from the initial state (for the cost of liveness: from any of the states between steps with equal probability, stopped in states that satisfy the assertion). The mean of a counter is the expected sum of its values over the steps on the way, when that is finite.",
 ["inputs","programs"],"all finite graphs with labels, probabilities and counters, including absorbing, periodic and reducible ones",
 "unit tests use a few hand-built chains",
 ["modelchecker/markovchain.go","modelchecker/perf_checker.go"],[("power iteration","modelchecker/markovchain.go")],["steadyStateDistribution, FindAbsorptionCosts and checkLivenessAndCost on generated graphs"])
p("C26","Composed specifications synchronise exactly on their shared variables",
 "In a joint step of composed specifications each of them takes one of its steps or stays in one of its states, the projections before it are equal in all specifications, those after it too, and at least one specification changes its state (variables or fields of roles). An assertion of the composition is reported violated if and only if such a joint step ends in a state (for a transition assertion: is a step) that violates it, and the assertion and joint states shown are those of such a step. A specification that fails by itself is reported and ends the run.",
 ["programs","schedules"],"all tuples of small component models and projections",
 "two example compositions only",
 ["modelchecker/composition_types.go",PR,"main.go"],[("join of projected transitions","main.go")],["CLI verdict and states of composition specs"])
p("C27","Refinement is accepted exactly when every concrete step maps to an abstract one",
 "A specification is reported to refine another if and only if each of its steps that changes its state is mapped, before and after, to a step of the other or to a state of it that stays the same. Otherwise the mapped values reported and the end of the counterexample are those of a step that is not.",
 ["programs","schedules"],"all pairs of small models and mappings",
 "single fixed examples only",
 [PR,"main.go"],[("joined transition hashes",PR)],["CLI verdict of refinement specs"])
p("C28","The model-based-testing plugin reports the implementation faithfully",
 "For every request the Go plugin executes exactly the registered action of the addressed role instance (or of the model), once, with the argument names and values sent, and its answer stands for the value the action returned and, when states are asked for, for the current states of all roles; an unknown role or action, an action that is not implemented and one that fails are reported as such and never as OK. Several sequences of one request run concurrently, each in order, and no answer contains results of another request; reported intervals enclose the executions. RunTests starts the runner with the plugin's address and the options given (flags take precedence) and reports its failure.",
 ["inputs","histories","schedules"],"all argument, return and state values (integers, strings, booleans, none, sentinels, lists and maps of them, in any Go type that holds them), all request histories including concurrent ones",
 "the plugin has no tests in this repository",
 ["mbt/lib/go/plugin_service.go","mbt/lib/go/plugin.go","mbt/lib/go/types.go"],[("value encoding/decoding","mbt/lib/go/plugin_service.go"),("action dispatch","mbt/lib/go/plugin_service.go")],["responses of the plugin service, over its encoding and over gRPC"])
p("C29","Options in configuration files and on the command line take effect as documented",
 "Every documented option given in fizz.yaml, in the front matter (which overrides fizz.yaml option by option and action by action) or as a flag reaches the exploration with the value given, and unspecified options take their defaults: the effective options written to the output directory, the verdict and the states are those of a run with the merged options. Configuration that cannot be understood (unknown option, wrong type, malformed text, contradictory flags) is rejected rather than ignored.",
 ["configurations","inputs"],"all combinations of documented options, values and flags, over generated models",
 "tests set one or two options at a time and never run the binary",
 ["modelchecker/options.go","main.go"],[("yaml to options","modelchecker/options.go"),("merging and default filling","main.go")],["state_config.json, verdict, number of states and exit status of the binary"])
p("C30","A command-line run reports the verdict of the model, once and truthfully",
 "For every model the command-line checker reports exactly one of pass, assertion failure, deadlock, unreachable expected state or liveness failure - the one the model has - names the assertion, writes the counterexample of that failure, and reports the number of distinct states explored.",
 ["programs","configurations"],"all models of the core language with assertions of all kinds",
 "shell-level behaviour is not covered by the Go tests except for fixed specs",
 ["main.go"],[("verdict reporting","main.go")],["stdout, exit status and output files of the binary"])
p("C31","Errors raised by the model are reported, never swallowed as a pass",
 "If some reachable step, assertion, call or initialisation raises an evaluation error (division by zero, missing key, undefined name, type error, failing built-in), the run ends with that error reported and does not claim success; if no reachable step raises one, no error is reported.",
 ["programs","schedules"],"all placements of a faulty expression in a model: guard, branch, loop, choice, argument, return, assertion, reachable or not",
 "tests have a few error specs in one position",
 [TH,PR,IN,"modelchecker/error.go"],[("error propagation through panics/returned errors",TH)],["Start() error result, CLI output"])
p("C32","Parsing preserves the meaning of the specification text",
 "The syntax tree produced for a specification denotes the program text: same actions, modifiers, expressions and nesting, with comments and formatting irrelevant.",
 ["inputs","programs"],"all specification texts","only fixed files are parsed by tests",
 ["parser/fizz.py","parser/parser.py"],[("ANTLR grammar and tree visitor","parser/")],["AST JSON"])
p("C33","Performance analysis of a saved state graph is numerically right",
 "The performance tool's reported probabilities and expected costs equal those of the Markov chain given by the saved graph and the performance configuration.",
 ["inputs"],"all saved graphs and configurations","fixed examples only",
 ["performance/main.py"],[("matrix iteration","performance/")],["tool output"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
