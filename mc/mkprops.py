"""Write properties.jsonl."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
CH="src/channel"
p("C01","Simulation results do not depend on thread scheduling",
"Running the same program again gives the same result whatever the operating system does: every context that only uses blocking operations (enqueue, wait for space, dequeue, peek-next) or takes its inputs earliest-first sees the same values, the same element timestamps and the same local times, and the run reports the same elapsed cycles and success. Only what a non-blocking peek happens to see, and local times after a receiver has learnt that its stream ended, may differ.",
["schedules","programs"],"every interleaving of the program's threads (at the level of individual atomic, lock, park and channel operations), every program, channel capacity and latency",
"A test run takes one of astronomically many interleavings of time reads, signal registration and channel operations; the existing tests never compare two runs, let alone all.",
[f"{CH}/mod.rs",f"{CH}/receiver/",f"{CH}/sender/","src/view/basic.rs","src/simulation/initialized.rs"],
[("timestamps computed from the sender's and receiver's local times only",f"{CH}/sender/bounded.rs, {CH}/sender/unbounded.rs"),("waiting for the sender's clock before claiming an absence",f"{CH}/receiver/cyclic.rs"),("wait_until",f"src/view/basic.rs BasicContextView")],
observe=["values and ChannelElement.time returned by dequeue/peek_next","TimeManager::tick","Executed::elapsed_cycles"])
p("C02","Elements are delivered once, in order, with their exact timestamp",
"Every element successfully enqueued on a channel is dequeued at most once, in the order of the enqueues, with its value unchanged, and all of them arrive if the receiver keeps dequeueing until the end of the stream. An element's timestamp is the later of the time the sender gave it and the sender's local time (once space was available) plus the channel's latency; a dequeue moves the receiver's local time to the later of its own time and that timestamp, and never anywhere else. Elements sent to a void channel disappear without delaying the sender.",
["schedules","programs","inputs"],"every schedule, every sequence of operations on both ends, every capacity, latency and timestamp pattern (including timestamps in the sender's past and future)",
"The channel tests push one stream with random sleeps and check values only; timestamps and local times are not compared with the rules, and the schedules are whatever the sleeps produce.",
[f"{CH}/mod.rs",f"{CH}/sender/",f"{CH}/receiver/",f"{CH}/handle.rs"],
[("enqueue: timestamp update and transmission",f"{CH}/sender/bounded.rs, unbounded.rs, void.rs"),("dequeue: head buffering and local time update",f"{CH}/receiver/mod.rs, acyclic.rs, cyclic.rs")],
[("head",  "the element a receiver has already taken out of the underlying channel while peeking")],
["Receiver::dequeue / peek_next results","TimeManager::tick before and after every operation"])
p("C03","Backpressure is exact",
"A bounded channel of capacity N never holds more than N elements that the receiver has not dequeued: the (N+k)-th enqueue completes only after the k-th dequeue, at the later of the sender's own local time and the local time of that dequeue plus the response latency, and an enqueue that has space never moves the sender's local time. Waiting for availability first moves the local time to exactly the same moment, reserves or loses nothing however often it is repeated, and the following enqueue then proceeds without a further wait. Unbounded channels never delay the sender.",
["schedules","programs","configurations"],"every schedule; every capacity, send latency and response latency; every pattern of enqueues, explicit waits and dequeues on either side",
"The tests use capacities larger than or unrelated to the traffic and do not look at the sender's clock; an off-by-one in the number of outstanding responses or a lost response only shows when a full channel meets a specific order of events.",
[f"{CH}/sender/bounded.rs",f"{CH}/receiver/acyclic.rs",f"{CH}/receiver/cyclic.rs",f"{CH}/handle.rs"],
[("counting outstanding responses",f"{CH}/sender/bounded.rs send_receive_delta"),("responses sent on dequeue",f"{CH}/receiver/acyclic.rs, cyclic.rs")],
[("send_receive_delta","elements sent whose response has not been consumed"),("next_available","a response consumed ahead of the enqueue it belongs to")],
["TimeManager::tick of the sender around Sender::enqueue and Sender::wait_until_available"])
p("C04","Programs that can finish always finish",
"If a program terminates when its contexts are run as plain communicating processes over queues of the given capacities, then the simulation terminates under every schedule: no context stays parked, blocked on a channel or spinning for ever, whichever order threads start, wake (also spuriously), get the time, and end. In particular a context waiting for another's clock is always woken when that clock reaches the awaited time or that context ends.",
["schedules","programs"],"every interleaving including spurious wake-ups and (for part of the programs) weakly ordered memory accesses; every program of the families, acyclic, cyclic, self-loops, early leavers",
"A lost wake-up or a missed closure needs one particular interleaving of registering, checking and signalling; a hanging test is the only symptom and appears once in millions of runs.",
["src/view/basic.rs","src/datastructures/time.rs",f"{CH}/",  "src/simulation/initialized.rs"],
[("register under the lock, re-check, park; scan and unpark on every change","src/view/basic.rs scan_and_write_signals / wait_until"),("time set to infinite on drop","src/view/basic.rs TimeManager::drop")],
[("signal_buffer","threads to be woken and when")],
["return of Initialized::run"])
p("C05","What peeking claims about a channel is true",
"When a peek or next-event query reports an element, that is exactly the next element the receiver will dequeue; when it reports nothing up to a time, no element with a timestamp up to that time will ever arrive, and the reported time is not before the receiver's own local time; when it reports closed, no element remains. Peeking consumes nothing and moves no clock; peek-next waits for the next element and moves the local time to its timestamp without consuming it. Hence a context that always serves the earliest of several inputs processes elements in timestamp order, ties going to the earlier input.",
["schedules","programs"],"every schedule of sender and receiver around the query, every pattern of pacing, latencies and future timestamps, both channel kinds and flavors",
"The single existing peek test compares results with each other for one random trace; a wrong 'nothing until' is only visible when the sender acts between the reading of its clock and of the channel.",
[f"{CH}/receiver/",f"{CH}/utils.rs",f"{CH}/mod.rs"],
[("reading the sender's clock before looking into the channel",f"{CH}/receiver/cyclic.rs, acyclic.rs"),("next_event",f"{CH}/utils.rs Peekable for &Receiver")],
[("head","remembered result of the previous peek")],
["PeekResult / EventTime values compared with what is dequeued later"])
p("C06","End of stream is reported exactly when it is reached",
"A receiver learns that a channel is closed only after it has dequeued every element that was sent, always learns it once the sender is dropped or its context ends (normally or by failure), and keeps learning it from then on; this moves its local time at most one cycle past the sender's last local time. A sender whose receiver is gone gets an error instead of blocking, and never for an element that is delivered.",
["schedules","programs","fault_sequences"],"every interleaving of the last elements, the drop of either end and the final clock update; sender or receiver leaving at every point of the exchange",
"The race between the last element, the disconnection and the clock becoming infinite cannot be steered by a test, and no existing test drops an end early.",
[f"{CH}/receiver/",f"{CH}/sender/","src/view/basic.rs"],
[("disconnection of the underlying channel as closure",f"{CH}/receiver/*.rs"),("finished contexts have infinite time","src/view/basic.rs cleanup")],
observe=["DequeueError / EnqueueError / PeekResult::Closed"])
p("C07","Clocks only move forward and views of them never overstate",
"A context's local time never decreases: incrementing adds exactly the given amount and advancing goes to exactly the later of the two times, and finishing makes it infinite for observers. Another context's view of it is always a lower bound that never goes back; waiting for a time returns only when the clock has reached it (or the context has ended), returns a time that is really reached, and returns promptly whoever else is waiting. A composite's view is the earliest of its members' clocks.",
["schedules"],"every interleaving of clock updates with any number of readers and waiters, sequentially consistent and weakly ordered memory, spurious wake-ups; single and nested composite views",
"No test looks at a clock from another thread; wrong memory ordering or a wrong wake-up threshold is invisible without control of the schedule.",
["src/view/basic.rs","src/view/parent.rs","src/datastructures/time.rs"],
[("AtomicTime load/try_advance/incr_cycles/set_infinite","src/datastructures/time.rs"),("wait_until, tick_lower_bound","src/view/basic.rs, src/view/parent.rs")],
[("time / done","the clock and whether the context has finished")],
["TimeManager and TimeView public methods"])
p("C08","Flavor inference never changes a program's outcome",
"Initializing a program with flavor inference gives exactly the results of initializing it without: the same values, timestamps, local times, closures and termination, for programs of every connection graph, including cycles, self-loops, several channels between the same contexts, and contexts that declare which of their inputs influence which outputs. In particular no channel on a cycle is ever treated as if it were not.",
["programs","schedules","configurations"],"every program shape of the families (acyclic, cyclic, mixed, explicit connections) run inferred under every schedule of the bound and judged by the same rules as without inference",
"The tests run one two-context program with inference; misclassified channels only misbehave (hang or mis-time) under particular shapes and schedules.",
["src/simulation/building.rs",f"{CH}/receiver/acyclic.rs",f"{CH}/sender/bounded.rs"],
[("strongly connected components decide the flavor","src/simulation/building.rs initialize"),("acyclic receivers wait for the sender","src/channel/receiver/acyclic.rs")],
observe=["all results of C01-C06 with run_flavor_inference(true)"])
p("C09","Broadcast delivers every element to every target at the same time",
"A broadcast context forwards every input element, in order and unchanged, exactly once to each of its targets, with the same timestamp on all of them: one cycle after the moment at which the element has arrived and all targets have space. The slowest target therefore delays all others equally, and the end of the input is passed on to all targets only after every element.",
["schedules","programs","configurations"],"every schedule; zero to two targets of every channel kind including void; every pacing of source and sinks; a target that leaves early",
"Existing tests broadcast into unbounded channels and look at values only.",
["src/utility_contexts/broadcast_context.rs"],
[("wait for all, then enqueue with one timestamp","src/utility_contexts/broadcast_context.rs run")],
observe=["elements and timestamps on each target channel"])
p("C10","A failing context is contained and reported, and the rest runs on",
"When contexts panic in run or return an error, the simulation still terminates and reports exactly those contexts as failed, each once, identified and with its error; the run counts as passed only if there are none. To every other context a failure looks like the failed context having ended at that point: elements it sent before are delivered, its channels close, blocked peers are released, and all contexts that can run to their end do so with correct results.",
["fault_sequences","schedules","programs"],"a panic or an error injected at every operation position of every context of the program families, one or several at once, under every schedule of the bound",
"One existing test has one failing checker and only looks at the overall flag.",
["src/context/mod.rs","src/simulation/initialized.rs","src/simulation/executed.rs"],
[("catch_unwind around run","src/context/mod.rs run_falliable"),("failure queue and dropping the context at the end of its thread","src/simulation/initialized.rs run")],
observe=["Executed::passed, run_failures","histories of the surviving contexts"])
p("C11","Initialization accepts exactly the well-formed programs",
"A program is accepted if and only if every channel has an attached sender, every channel other than a void has an attached receiver, and every attached context (or the composite it belongs to) has been added; otherwise initialization returns an error naming an actual defect of the right kind and nothing is run. An accepted program initializes each context exactly once before any runs and then runs each exactly once.",
["programs"],"every graph of up to 3 channels (thorough: 4) of each kind over up to 3 contexts with every assignment of channel ends, every subset of contexts added, with and without inference",
"No existing test initializes an ill-formed program.",
["src/simulation/programdata.rs","src/simulation/building.rs",f"{CH}/channel_spec.rs"],
[("check","src/simulation/programdata.rs"),("ids of composites' members","src/context/mod.rs ids")],
observe=["ProgramBuilder::initialize result, num_children, init/run calls"])
p("C12","A datastore read sees exactly the latest write up to its time",
"Reading an address as of a time returns the value of the write to that address with the largest time not after it (the last such write if several have that time), regardless of the order in which reads and writes were issued and of writes at later times. An address never written by then gives the default value when the behavior says so and is refused otherwise; addresses beyond the capacity wrap around when the behavior says so and are refused otherwise. Concurrent accesses to different or equal addresses neither lose nor mix values.",
["histories","schedules","inputs"],"every sequence of writes and reads up to the bound over addresses and times in any order, every behavior, and every interleaving of concurrent readers and writers",
"The existing PMU/DRAM tests write everything before reading in increasing time.",
["src/templates/datastore.rs"],
[("per-address history ordered by time","src/templates/datastore.rs")],
observe=["Datastore::read / write"])
p("C13","The PMU serves requests in time order with consistent memory",
"Each reader bundle's responses appear in the order of its addresses, one per request, and each writer's acknowledgements one per pair of address and data; every pipeline serves its bundles earliest-first, one request per cycle, each at the moment the whole request has arrived. A read served at a time returns the latest write served up to and including that time, even if the write pipeline gets there later in real time. When the inputs end the PMU finishes and closes its outputs, with and without flavor inference.",
["schedules","programs","configurations"],"every schedule of the bound over request streams with every relative timing of reads and writes (same cycle, one apart), several bundles, closed loops through acknowledgements and read data",
"The unit test runs one stream of non-conflicting requests on one schedule and compares data only.",
["src/templates/pmu.rs","src/templates/datastore.rs","src/channel/utils.rs"],
[("earliest-first service and waiting for the write pipeline","src/templates/pmu.rs ReadPipeline, WritePipeline"),("declared dependencies between channels","src/templates/pmu.rs edge_connections")],
observe=["elements and timestamps on response and acknowledgement channels"])
p("C14","The DRAM bank keeps its timing and memory contract",
"Requests are served earliest-first once all their parts have arrived, at most as many in flight as configured; each access starts at the later of its service time plus the latency and the end of the previous transfer, and takes its size in bits divided by the bandwidth. A write becomes visible and is acknowledged when its transfer ends, a read returns what is visible at its start, in request order with one element per cycle. When the inputs end the bank finishes and closes its outputs.",
["schedules","programs","configurations"],"every schedule of the bound; request mixes, sizes, wrap-around, parts arriving late, several readers and writers, window counts, bandwidths and latencies",
"The unit test runs one write-then-read program and does not look at any timestamp.",
["src/templates/dram.rs","src/templates/datastore.rs"],
[("request windows and transfer times","src/templates/dram.rs run")],
[("request_windows","end times of the requests in flight")],
["elements and timestamps on data and acknowledgement channels"],
"constructors for the configuration and the bundles, whose fields are private")
p("C15","The PCU is an exact pipeline",
"For each set of inputs, one from every input channel, the PCU computes its stages in order - each stage's operation on the declared registers of the previous stage and of its own previous result, its results in the declared output registers, the forwarded registers after that, all other registers kept, missing stages copying the whole row - and sends the results on every output channel in the order of the inputs, using one value per register. A set of inputs is taken at the earliest time at which all of them have arrived, the result is stamped pipeline depth cycles later (or later still if an output has no space), and successive sets start at least one cycle apart. When any input ends, the PCU finishes, without a result for the incomplete set, and closes its outputs.",
["schedules","inputs","programs"],"every schedule; every pipeline of up to the bounded number of stages, registers and operations; all patterns of arrival, missing inputs and slow outputs of the bound",
"One test runs one pipeline on one stream and compares values only; timestamps, partial inputs, register forwarding and accumulation are not looked at.",
["src/templates/pcu.rs","src/templates/ops.rs"],
[("PipelineStage::run","src/templates/pcu.rs"),("PCU::run, READ_ALL_INPUTS, WRITE_ALL_RESULTS","src/templates/pcu.rs"),("ALU operations","src/templates/ops.rs")],
[("registers","one row per stage, kept from one set of inputs to the next")],
["elements and timestamps on the output channels"])
p("C16","Combined events say exactly what their parts imply",
"The any-event of several sources reports ready at a time only if that is the earliest next element of all, nothing before a time only if no source can have an element by then, and closed only if all are closed. The all-event reports ready only when every source's next element is known, at the latest of their times; it never claims more than its parts support, and reports closed when some source can never deliver.",
["inputs","schedules"],"every combination of verdicts of up to 3 (thorough 4) sources, and every schedule of the bound for real receivers",
"No test covers combination; wrong precedence shows only for mixed verdicts.",
["src/channel/utils.rs"],
[("min / max over event times","src/channel/utils.rs EventAny, EventAll, EventTime order")],
observe=["next_event of any_event() / all_events()"])
p("C17","Utility sources, sinks and checkers do what they say",
"A generator sends every item of its iterator in order, one per cycle as space allows; a trace sends each item in order, stamped with its given time, or with the earliest later one that its clock, the latency and the available space permit; a random trace numbers its items and each of its steps is within the given limits; a consumer or printer takes everything, one element per cycle, and the printer prints each; all of them finish exactly when their stream is done, and a source whose receiver leaves before everything is sent fails. A checker passes if and only if the received stream starts with the whole expected sequence, and reports a mismatch or an early end with its position by failing (an approximate checker compares with the given function); a function context runs its function exactly once.",
["schedules","inputs","programs"],"every schedule of the bound; every short stream, every mismatch position, missing and surplus elements, late and early peers",
"The tests use these contexts as scaffolding, nearly always in the passing direction.",
["src/utility_contexts/"],
[("run of each utility context","src/utility_contexts/*.rs")],
observe=["elements and timestamps on their channels","Executed::passed"])
p("C19","Time values are ordered and computed consistently",
"Finite times are ordered like their cycle counts and every infinite time is later than every finite one and equal to every other; equality, ordering, maximum and sorting agree with each other. Adding and subtracting cycles is exact and subtracting below zero is refused; no sequence of clock operations makes a clock go back; updating an element's timestamp never makes it earlier, and converting an element keeps its timestamp.",
["inputs","histories"],"every pair and triple of representative times (boundaries, infinities with different counts) and every clock history up to the bound",
"No existing test covers time arithmetic.",
["src/datastructures/time.rs"],
[("Time order and arithmetic, AtomicTime","src/datastructures/time.rs")],
observe=["Time operators and TimeManager"])
p("C20","Run results account for every context",
"The elapsed cycles of a run are exactly the largest local time reached by any context that completed, counting the members of composites and not timestamps of elements in the future, and absent for a program without completed contexts. The run returns only after every context has finished, and the number of children, the pass flag and the list of failures agree with what was added and what happened.",
["programs","schedules","fault_sequences"],"every combination of clock histories of up to 3 contexts in each way of writing contexts, composites nested in every grouping and with clocks of their own, failures in any of them, every schedule of the bound",
"Tests print the elapsed cycles at most.",
["src/simulation/executed.rs","src/simulation/initialized.rs","src/context/summary.rs","src/context/proxy.rs"],
[("summaries queue; max over nodes and children","src/simulation/*.rs, src/context/summary.rs")],
observe=["Executed::elapsed_cycles, passed, run_failures; ProgramBuilder::num_children"])
p("C21","The DOT export draws the program",
"The DOT graph of an initialized program contains every context that is not a composite exactly once, with its name and identifier, every composite as a cluster containing exactly its members, and every channel between two contexts as exactly one edge from the sending to the receiving context, carrying the channel's identifier, capacity and latencies; and nothing else. The graph of the executed program draws the same for all contexts that completed and adds to each the cycles it ran for.",
["programs"],"all programs of up to 3 contexts (thorough: 4) in every grouping into composites, with every choice of up to 2 channels of 4 kinds, with and without inference, declared connections and a failing context",
"The tests only print the graph of one program and look at nothing in it.",
["src/simulation/dot.rs","src/simulation/initialized.rs","src/simulation/executed.rs","src/context/mod.rs"],
[("nodes and clusters","src/simulation/initialized.rs, src/simulation/executed.rs"),("edges","src/simulation/dot.rs")],
observe=["DotConvertible::to_dot_string of Initialized and Executed"])
p("C22","Build configurations and run modes do not change results",
"Whether contexts run on operating-system threads or on coroutines, under whichever run mode and number of workers, over bounded or unbounded transport queues, and stepping cycle by cycle or not, a program is accepted, terminates and gives the same values, timestamps, local times, closures, failures and elapsed cycles.",
["configurations","programs","schedules"],"programs of all families and components in 4 builds (thorough: 7) of the simulator and every run mode, every schedule of the bound in each",
"The tests run in one configuration only.",
["src/shim/","src/channel/handle.rs","src/datastructures/time.rs","src/simulation/initialized.rs","src/view/basic.rs"],
[("threads or coroutines","src/shim/*.rs"),("transport queues","src/channel/handle.rs"),("cycle-like stepping","src/datastructures/time.rs")],
observe=["histories of all contexts, Executed, in each configuration"])
p("C25","Sizes of data types are exact and unevaluated data stay so",
"The size of an element in bits, on which memory timing is based, is exactly that of its type: a scalar's width, the sum over a pair, nothing for the unit, the number of elements visible in an array times their size, and for an unevaluated type that of the type it stands for. Operations on unevaluated data never compute, compare or fail, and give unevaluated data of the result type; parsing one accepts exactly what its type accepts. An index converts to exactly its value.",
["inputs"],"every scalar type, all pairs of them, all array shapes up to 4x3x3x2 incl. empty, transposed and cut ones, every operation of unevaluated types, all 8 and 16 bit indices",
"The tests look at four values.",
["src/types/"],
[("sizes","src/types/scalar.rs, src/types/tensor.rs"),("unevaluated operations","src/types/unevaluated.rs"),("indices","src/types/mod.rs")],
observe=["DAMType::dam_size, StaticallySized::SIZE, IndexLike::to_usize, operators of Unevaluated"])
p("C23","Adapters are transparent",
"Using a channel end through a type-converting adapter behaves exactly like using it directly: the same elements (converted), timestamps, waits, closures and errors, attachment included, for every operation of senders and receivers.",
["programs","schedules"],"the program families of the channel properties with every end used through adapters, every schedule of the bound",
"No existing test uses the adapters.",
["src/channel/adapters.rs"],
[("forwarding with conversion","src/channel/adapters.rs")],
observe=["results of all channel operations through RecvAdapter / SendAdapter"])
p("C24","Identifiers are unique",
"No two contexts ever get the same identifier and no two channels the same channel identifier, however many threads create them at the same time and in however many programs; both ends of a channel report the same one.",
["schedules","programs"],"every interleaving of up to 3 threads (thorough: 4) creating identifiers, also under weakly ordered memory; every kind of component",
"Tests build their programs on one thread.",
["src/datastructures/identifier.rs","src/channel/channel_id.rs"],
[("atomic counters","src/datastructures/identifier.rs, src/channel/channel_id.rs")],
observe=["Identifiable::id, Sender::id, Receiver::id"])
p("C26","Grouping contexts into composites changes nothing",
"Contexts that run as members of a composite context (each on its own thread, released early through a proxy, nested to any depth, with or without declared connections) behave exactly as if they had been added to the program directly: same results, same termination, accepted by initialization, and counted in the run's elapsed cycles. A proxy gives access to the running context, drops it when cleaned and from then on gives its final summary and clock.",
["programs","schedules"],"every grouping of the program families' contexts (together, apart, nested), with and without inference and declared connections, every schedule of the bound",
"The only composite in the tests is the PMU, with one program.",
["src/context/proxy.rs","src/context/summary.rs","src/context/mod.rs","src/view/parent.rs","src/simulation/"],
[("ProxyContext, ids, summarize, ParentView","src/context/*.rs, src/view/parent.rs")],
observe=["histories of the member contexts, Executed"])
p("C18","The event log of a run is complete and faithful",
"With logging enabled, every event a context logs (channel operations, clock events and its own) that the filter chosen for that context permits is recorded exactly once, and nothing else is: under the identifier of the context that logged it (members of composites under their own), in the order in which the context logged them, with its type name, contents, the context's local time of that moment and the microseconds since the run began. All of it has been handed to the database when the run returns, also what contexts that failed logged before; log filters answer exactly for the listed names, a deferred event is computed only if it is going to be recorded, and logging changes no result of the simulation.",
["schedules","programs","configurations","fault_sequences"],"the program families of the channel, failure and composite properties under every kind of filter and with a slow database, every schedule of the bound, including those of the log writer's thread",
"The only test of logging needs a database server and is not among those that run.",
["src/logging/","src/simulation/initialized.rs","src/context/mod.rs","src/view/basic.rs","src/simulation/logging_options/"],
[("per-context log interface and filter","src/logging/mod.rs, src/logging/log_interface.rs"),("log writer thread, batches, shutdown","src/logging/mongo_logger.rs, src/simulation/initialized.rs"),("ticks attached to events","src/view/basic.rs, src/logging/mod.rs")],
observe=["documents inserted in the (stand-in) database","results of log_event and log_event_cb","LogFilter, LogInterface"])
P.sort(key=lambda x:x["id"])
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
