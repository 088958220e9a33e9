PBT = "property-based testing: "
CLAIMED = {
 "C01": (PBT + "random specifications, differential against a reference interpreter (bisimulation of the explored graph)",
         "generated specifications with up to 1500 states; see evidence for counts"),
 "C02": (PBT + "random specifications and assertions, verdict and counterexample compared with a reference interpreter's reachable states",
         "generated specifications with up to 1500 states and up to 5 assertions"),
 "C03": (PBT + "random specifications and transition assertions, verdict and failing step compared with a reference interpreter's steps",
         "generated specifications with up to 1500 states"),
 "C04": (PBT + "random specifications and exists assertions, witnesses compared with a reference interpreter's reachable states",
         "generated specifications with up to 1500 states, three strategies"),
 "C05": (PBT + "random specifications, deadlock verdict and path compared with the stuck states of a reference graph",
         "generated specifications with up to 1500 states"),
 "C09": (PBT + "random specifications with durable and ephemeral role fields, explored executions with crashes compared (from below and above) with a reference interpreter that crashes",
         "generated specifications with up to 1500 states; channels are generated by C19"),
 "C10": (PBT + "random specifications explored in nine modes, verdict and state sets compared with each other and a reference interpreter",
         "generated specifications with up to 1500 states; bounds never cut the exploration short"),
 "C11": (PBT + "random models symmetric by construction, explored with and without symmetry reduction; graphs compared by bisimulation under a brute-force canonical form, verdicts compared",
         "generated models with up to 2 domains of up to 5 values and 3 symmetric role instances, up to 4 steps"),
 "C12": (PBT + "random specifications, simulated runs checked against the exhaustive graph; same seed run twice",
         "generated specifications, several seeds each"),
 "C13": (PBT + "random specifications and traces (real, mutated, truncated), replay compared with the executions of the full graph",
         "generated specifications with up to 1500 states, traces up to the model's depth"),
 "C14": (PBT + "random specifications checked repeatedly, interleaved with other models, results compared byte for byte",
         "generated specifications; same process and order permutations"),
 "C06": (PBT + "random specifications with fair actions and choices, verdict and reported lasso compared with a Streett emptiness check on a reference graph",
         "generated specifications with up to 1500 states; several actions in progress at once (fairness of threads) are not generated"),
 "C07": (PBT + "random specifications with fair actions, verdict and path compared with reachability on a reference graph",
         "generated specifications of atomic actions"),
 "C08": (PBT + "random specifications and limits, explored graph compared with a reference interpreter that counts started actions",
         "generated specifications, limits 1 to 5"),
 "C15": (PBT + "random object graphs with sharing and random mutations through every way to reach an object, explored graph compared with a reference interpreter",
         "object graphs of up to 8 objects of 8 kinds, up to 1500 states"),
 "C16": (PBT + "random values (equal ones built differently, nearly equal ones) at every kind of place in a state, number of states compared with the number of different values; random specifications, no two idle states equal",
         "values up to depth 3, up to 4 different ones, 20 kinds of places; values that differ in type only are a known finding"),
 "C17": (PBT + "random specifications; the transitions next_states() lists in every reachable state compared with a reference interpreter without bounds, and exploration compared with and without the call",
         "generated specifications with up to 1500 states; channels are not generated"),
 "C18": (PBT + "random models of role instances calling each other's functions (nested, recursive, with callbacks, interrupted anywhere, crashing), explored graph and recorded calls compared with a reference interpreter",
         "generated models of up to 4 instances of 2 roles, calls up to 4 deep, up to 600 states"),
 "C19": (PBT + "random models of instances that send messages over channels, explored graph compared with a reference interpreter that delivers pending messages in every order",
         "generated models of up to 4 instances, 1 or 2 channels, up to 3 messages, up to 400 states"),
 "C20": (PBT + "random models with constants and random hooks, explored graph and verdict compared with the model with edited constants and with a reference interpreter; failing hooks",
         "hooks of up to 4 statements over 5 constants read directly and by 3 functions"),
 "C21": (PBT + "random operation sequences over the collection types and helpers against a mathematical model",
         "sequences of up to 40 operations, element values up to depth 3"),
 "C22": (PBT + "random histories of domain operations against an integer model of each domain kind",
         "domains up to 6 values, histories up to 30 operations"),
 "C23": (PBT + "random operation sequences on the work lists against list models; permutation helpers against enumeration",
         "sequences of up to 3000 operations across the internal buffer boundaries"),
 "C28": (PBT + "random models, registries, request histories and concurrent requests sent to the Go plugin (over the message encoding and over gRPC through RunTests), answers compared with what the recording implementation did and with independently known encodings",
         "up to 8 requests (each possibly of several sequences) per history; values nested up to 3 deep"),
 "C24": (PBT + "random specifications (also with odd strings, calls, channels, crashes) explored and exported; files, drawings and error pages read back and compared with the explored graph and a reference interpreter's; graphs beyond the size of one file",
         "generated specifications with up to 600 states; fabricated graphs of 1,000,001 nodes and 10 million links"),
 "C25": (PBT + "random graphs with labels, probabilities and counters given to the analysis; distribution and means compared with an independent chain built from the links and iterated to its limit",
         "up to 9 states and 40 transitions; chains that come within 1e-9 of their limit in 500 steps"),
 "C26": (PBT + "random tuples of specifications with random projections composed by the binary; verdict, assertion and drawn joint states compared with the joint steps of a reference interpreter's graphs",
         "2 or 3 components of up to 60 states; up to 4000 joint steps"),
 "C27": (PBT + "random pairs of specifications (related and unrelated) and mappings given to the binary; verdict, reported mapped step and end of the counterexample compared with the projected steps of a reference interpreter's graphs",
         "specifications of up to 200 states; one abstract specification"),
 "C29": (PBT + "random option files, front matters and flags given to the binary; options in effect, verdict and number of states compared with a merge model and with the library run with the merged options; invalid configurations must be rejected",
         "generated models of up to 300 states; the documented options and the flags of the single-specification mode"),
 "C30": (PBT + "random models with assertions of all kinds given to the binary in all exhaustive modes; the reported verdict, names, counterexample and state count compared with a reference interpreter's truth",
         "generated specifications with up to 1500 states"),
 "C31": (PBT + "random models with a failing expression planted anywhere; the run must end in that error exactly when a reference interpreter reaches it",
         "generated specifications with up to 1500 states, 18 kinds of errors"),
}
NA = {
 "C32": "the parser is Python with an ANTLR runtime that is not installed in this sandbox, so it cannot be executed here",
 "C33": "the performance model checker is Python code whose dependencies are not installed in this sandbox",
}
