"""How each property is decided (text for DESIGN.md)."""

HOW = {
"S01": """The oracle reads the completed operations of every product from the event
log and requires: each prescribed process once (with its multiplicity), one at a time, each after
all its predecessors in the declared sequence/graph, creation before the first, exactly one finish
after the last, at a sink of the product's type. For precedence graphs the graph itself is
symbolic: the adjacency is a vector of nondeterministic choices, so one scenario covers every
acyclic graph of the size and, because the router's pick is a choice too, every admissible order.""",
"S02": """For each operation the segments (start / interrupted / resumed / end) are read from
the log; the sum of segment lengths is required to equal the value drawn for this very operation
(draws are recorded at the time model), for all arrival, process and failure times; an operation is
never started twice and its first start is the only one without a preceding interruption.""",
"S03": """Down intervals are read from the breakdown states' log rows (machine, transporter or
single process); z3 must show that no segment of work overlaps the interior of a covering interval,
that intervals have the drawn length and start one drawn time-between-failures after the previous
repair, and that interrupted work resumes at the instant the last covering breakdown ends (if its
slot is free).""",
"S04": """For each operation of a resource z3 must show that at its start fewer than `capacity`
others (fewer than the declared slots of the same process) have not ended; every product is
finished at the end of the run.""",
"S05": """After every simulation event the real queue objects are inspected (never more items
than capacity); from the log, the time products wait for space is checked for blocking (a machine
does not start what it could not put down, a transport does not start towards a full queue), and
every run of a feed-forward line must end with all products finished.""",
"S06": """A hook runs after every event: every product is in at most one queue, a product in a
queue is not on a machine or transporter, created minus finished equals in-system, finished products
are recorded once. Over the whole log, work and pick-ups happen where the product was put last.""",
"S07": """From the log the arrival of each product at a resource and the start of its operation
are related: z3 must show that whenever one waits, all slots are taken; that durations are the drawn
ones; that loaded trips follow empty trips without delay; that finishing happens at arrival at the
sink.""",
"S08": """At every start the set of requests that must / may be waiting is derived from the log
(a request arriving at the very instant of the decision may or may not count); the chosen one must be
minimal for the policy's key (arrival order, process time, distance of the pick-up point, queue
lengths) among those that must be waiting.""",
"S09": """At every routing decision (the start of the transport towards the chosen resource) the
number of products routed to each candidate and not yet taken into work is bounded from below and above
(coincidences may count either way); the chosen candidate must be minimal / available / capable, and
waiting is only allowed while no candidate has room. All random picks are explored.""",
"S10": """The sequence of processes executed on the machine is read from the log; between two
consecutive operations exactly the declared setup must appear, with its drawn duration, starting when
something waits for the new process and ending when work starts.""",
"S11": """Positions are symbolic. For every trip the oracle computes the distance between the
log's origin and target in the declared metric and requires the trip's duration to be distance over speed
plus reaction plus handling times; empty trips lead from where the transporter was to where the product
is; over links each leg is a declared link and the total is at most that of every alternative
path (enumerated over the declared graph, lengths symbolic).""",
"S12": """Failure draws are nondeterministic choices (rate 0 and 1 fixed). The oracle replays the
sequence of operations of each product against its failure history: each failure is matched to exactly
one later rework operation of a process declared for it, blocking ones before the next prescribed
process, non-blocking ones after all prescribed processes; nothing is reworked without a failure.""",
"S13": """Operations on the batch machine are grouped by start; each group must have exactly the batch
size, one process, one drawn time, one end; products of an incomplete batch are not started; every
complete batch finishes.""",
"S14": """From the start/end-of-usage log rows every use of an auxiliary becomes an interval; with the
declared quantity they must form a work-conserving system with as many servers as auxiliaries (nobody waits
while one is free, never two users). Each use consists of one trip that brings the auxiliary to the product before
the product moves and one that returns it to its storage after the product is finished, each with its transport
time; at the end all auxiliaries are back in their storages.""",
"S15": """Operations are grouped into working intervals per resource; a reference model follows the used time
since the last charging exactly and requires a charging interval of exactly the charging time before the first
operation that starts with more than 0.9 of the battery time used, none otherwise, and no operation inside it.""",
"S16": """An automaton reads the real log row by row (per resource, state and product) and z3
must show every time relation on it (order, announced end equals end, remaining time kept over an
interruption). Its scenarios are those of the other checks: plain flow, machine, carrier and process
failures, setups, legs over links, batteries, batches, auxiliaries, rework, times of zero, and runs stopped after any
event. The list of events the runner returns is compared row by row.""",
"S17": """Gaps, schedule entries and draws are symbolic (coincidences included); the creation rows of
every source are compared with the times computed from the declared entries. Products travel
longer than the observed time, so only sources act; a second group of scenarios blocks a source with a full queue.""",
"S18": """The numpy/random samplers are replaced by stand-ins that return fresh symbols (standard variates) and
record their arguments; z3 must show that each value returned by the time model is the declared function of the
next unused variate (location + scale * variate, exponentials and logs as uninterpreted functions), clamped at 0;
distances are compared with the metric's definition (Euclid by its square).""",
"S19": """Every random generator is replaced by a stream object: the k-th number after seeding with s is
one unknown per (generator, s, k), so numbers agree only when seed and position agree; sets iterate in any
order (a choice). The same configuration is run twice in one path with different histories before, and all rows of the
logs must be equal; generator states and the configuration's fields before and after are compared.""",
"K01": """The simulation runs symbolically as for S01; its event log, with symbolic times, is then given to the real
PostProcessor. pandas works on the log through an extension array (`symx/frame.py`) whose elements are symbolic: sorting,
grouping, comparing, summing, shifting and cumulative operations fork on the order of symbolic times or produce symbolic
forms; nothing of the post processor is modelled. The figures are compared with creation and completion times read off
the log. A validation run repeats the path with concrete numbers and the ordinary pandas data types.""",
"K02": """As K01; output and throughput compared with counts and the observed time read off the log (multiplied out, no
rounding).""",
"K03": """As K01; a reference sweep over the log rows follows running operations, breakdowns, setup and charging and adds up
the time per state; the reported times must agree exactly and the percentages must be their shares and add up to 100.
The percentages are compared as exact linear forms times the total.""",
"K04": """As K01; the reference counts creations minus completions at every instant; every dynamic figure must equal it,
the list must contain every change.""",
"K05": """As K01; the reference adds up production and transport operations per product and the time in the system.""",
"K06": """As K01; availability from the reference sweep of K03; the comparison allows the rounding to two decimals.""",
"K07": """The post processor gets a log of creations and completions with symbolic times. The oracle compares the products
kept with the creation times; for the static ratio the exact cut-off is required.""",
"K08": """As K01; the reference counts arrivals and departures of products per station (ends and starts of loaded transports)
and starts and ends of usages per type of auxiliary; the last row of every instant must give exactly that level. Means are only bounded
(the code averages over events, not over time).""",
"O01": """The real `mutation`, `crossover` and random-configuration functions run on configurations with symbolic machine
positions and side offsets; `random.choice`, `sample`, `shuffle` and friends are nondeterministic choices, so every outcome of every random
decision is explored. Before and after, a snapshot of the configuration is taken; the oracle checks the invariants of a consistent
configuration (references, IDs, queue ownership, capacities, setups and breakdowns that fit the processes), the frame (the one allowed
change and nothing else), the scenario's limits, that no object is shared between parents and children, and that the real
JSON writer and reader give the configuration back. Times of breakdown states that are alike after rounding to whole units count as alike
(tolerance of `check_heterogenous_time_models`).""",
"O02": """The real functions run on configurations whose costs, limits, quantities, places and sides are symbolic; fleets and
kinds of processes are chosen by branching. The oracle recounts modules and costs and states validity as one formula over the same symbols;
the answer of `check_valid_configuration` must equal it on every path. Symbolic coordinates may be hashed (sets of places): a hash branches
over the concrete numbers of the configuration.""",
"O03": """`evaluate` runs the real simulation with symbolic draws once per seed; the runs are recorded and each objective is recomputed
from the event logs (work in progress: from the post processor's own data frame per type, see K04). Known configurations: all pairs out of 18 differences are judged in
sequence; the oracle knows what decides a configuration's behaviour (no names of resources). Weights, energies and scores: symbolic values and
weights; the searches are stopped where they start, then their scoring and neighbourhood functions run with mutation and validity as
nondeterministic stand-ins. Tabu search runs with symbolic scores over new and known states; the Pareto functions run on arrays of symbolic numbers.""",
"M01": """The real `hash` methods run on two copies of one configuration with every kind of entity. In `one-number` and
`two-numbers` the chosen numbers of both copies are independent symbols; in `reference` a reference is turned to another part, in `removed`
a part is left out. `hashlib.md5` is replaced by an injective digest over texts that may contain symbolic numbers, so that comparing two hashes
is a comparison of the numbers in them. The oracle resolves the references of the plain data (without any code of prodsys) into a nested,
name-free description; hashes must be equal exactly if the descriptions are, for all values. Not covered: the control policy, batch sizes,
auxiliaries of products and details of rework processes, which the hash leaves out.""",
"M02": """Each reference of a system with every kind of entity becomes a string that is symbolic over the names in the system and one more
that stands for any other string; the real pydantic validators run on it. The data must be accepted exactly on the paths on which the name is
one of the right kind; the error must be a `ValidationError` that contains the name. Queues: given or not on each side, symbolic capacities.
`validate_configuration` runs with symbolic places and with the processes of products and resources exchanged; the oracle states from the plain data
which processes are needed and provided (by name, by capability, inside compound processes).""",
"M03": """The same system, with every kind of entity and symbolic numbers, is written down twice: as data and with the express API. The real
`to_model` methods run; the two are compared field by field, z3 decides equality of the numbers (which pass the compiled parts of pydantic
and the JSON text as opaque tokens). For files, each optional part is present or not; the file is written and read by the real code into a fresh
adapter and into one that held another system. Both forms are also simulated and their logs compared.""",
"M04": """Which resource offers what is a nondeterministic choice, capabilities are symbolic strings (listed or any other). The work lasts
longer than the observed time, so each resource takes one product at most and the set of resources that do something must be exactly the set
that a plain oracle finds able to (name, kind and capability equal; links that join the places). If it is empty the run must be refused.""",
}

FALSE = [
    "S08, S09: work that arrives or leaves at the very instant of a decision was first counted strictly; the order of simultaneous events is not promised, so it may now count either way.",
    "S07, S08: the equations for capacity 2 first included coincidences of arrivals and ends; the part that is a genuine defect is kept in its own scenario (`capacity-2-ties`, open finding), the other scenarios assume pairwise different instants.",
    "Replays with values that are not exact binary floats can order mathematically equal times differently. Counterexamples and validation runs use dyadic values where the path permits; scenarios avoid symbolic divisors where they are not the point (a scenario of S06 with a symbolic speed had to be changed for this).",
    "S06: products on their way between two places at an instant (taken out of the queue, trip starts at the same instant) are in no queue; the statement only forbids two places and loss over time, so the hook checks 'at most one place' per event and conservation by counting.",
]

NA_TEXT = [
    "`prodsys.optimization.math_opt` (Gurobi model): needs a commercial solver that is not installed; the module cannot be imported or executed here.",
    "`prodsys.util.gym` style reinforcement learning environments: wrappers around the simulation whose reward and observation functions are supplied by the user; no promise of their own beyond S01-S14.",
    "Charts, dash boards and `prodsys.util.kpi_visualization`: produce pictures; there is no observable promise to state.",
    "Statistical convergence of optimisers (simulated annealing, tabu search, evolutionary): their results are statistical; the moves they make are in scope (O-properties).",
]
