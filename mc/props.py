"""What `check` needs to know about each property: the builds it explores and how its cases are made."""

ASSUMPTIONS = [
    "the explored programs are the real sources of /repo/src compiled against facades of crossbeam channels, "
    "parking_lot, std threads/atomics/mutexes, may, thread-priority and mongodb; the facades are trusted to have the "
    "documented semantics of the libraries they stand for",
    "sequentially consistent memory unless the job says weak",
    "bounds: the programs listed by `harness list`, the delay/preemption bound or full partial-order reduction named "
    "in each job, and the execution caps reported",
]

CH = (
    "A job is one small program built with the public API; every schedule of it within the job's bound is executed on "
    "the real code and judged against the timing rules; programs enumerate shapes x capacities x latencies x pacing."
)
DEV = (
    "A job is one small program around the component, built with the public API; every schedule within the job's bound "
    "is executed on the real code; the component's outputs are judged against a sequential reference model fed with "
    "what the surrounding scripts sent, and all contexts against the channel timing rules."
)
DPOR = "stateless model checking of the implementation (controlled scheduler, delay-bounded and full DPOR exploration)"
SEQ = "bounded exhaustive enumeration of operation sequences and inputs on the implementation against a reference model"
BOTH = "stateless model checking of the implementation plus exhaustive enumeration of bounded operation sequences"

PROPS = {
    "C01": {"builds": ["os"], "rule": CH, "technique": DPOR},
    "C02": {"builds": ["os"], "rule": CH, "technique": DPOR},
    "C03": {"builds": ["os"], "rule": CH, "technique": DPOR},
    "C04": {"builds": ["os"], "rule": CH, "technique": DPOR},
    "C05": {"builds": ["os"], "rule": CH, "technique": DPOR},
    "C06": {"builds": ["os"], "rule": CH, "technique": DPOR},
    "C07": {
        "builds": ["os"],
        "rule": "Every schedule of clock owners, readers and waiters over the real TimeManager and views, full partial-"
        "order reduction and weak-memory delay-bounded; each reading is checked against the interval of values the "
        "clock can have had.",
        "technique": DPOR,
    },
    "C08": {"builds": ["os"], "rule": CH + " All with flavor inference.", "technique": DPOR},
    "C09": {"builds": ["os"], "rule": DEV, "technique": DPOR},
    "C10": {
        "builds": ["os"],
        "rule": "A panic or an error is put at every operation position of every context of each program; every "
        "schedule of each resulting program is executed and judged: survivors obey the timing rules against the "
        "truncated histories, the reported failures are exactly the contexts that reached theirs.",
        "technique": "fault injection at every position under stateless model checking of the implementation",
    },
    "C11": {
        "builds": ["os"],
        "rule": "Every graph of the bound (channel kinds x ends x subset of contexts added x inference) is built and "
        "initialized with the real code and accepted ones are run; verdicts are compared with the set of defects.",
        "technique": SEQ,
    },
    "C12": {
        "builds": ["os"],
        "rule": "Every sequence of reads and writes of the bound, and every interleaving of short concurrent "
        "sequences, on the real datastore against a reference history.",
        "technique": BOTH,
    },
    "C13": {"builds": ["os"], "rule": DEV, "technique": DPOR},
    "C14": {"builds": ["os"], "rule": DEV, "technique": DPOR},
    "C15": {
        "builds": ["os"],
        "rule": DEV + " Plus every stage over the bounded registers.",
        "technique": BOTH,
    },
    "C16": {"builds": ["os"], "rule": DEV + " Plus every combination of part verdicts.", "technique": BOTH},
    "C17": {"builds": ["os"], "rule": DEV, "technique": DPOR},
    "C18": {
        "builds": ["os,log", "co,log"],
        "budget": {"quick": 110, "thorough": 600},
        "rule": CH + " All with logging to a stand-in database; what it received is compared with what the contexts did.",
        "technique": DPOR,
    },
    "C19": {
        "builds": ["os"],
        "rule": "Every pair and triple of representative times and every clock history of the bound.",
        "technique": SEQ,
    },
    "C20": {"builds": ["os"], "rule": CH + " Plus every combination of clock-only contexts.", "technique": BOTH},
    "C21": {
        "builds": ["os,dot"],
        "rule": "Every program of the bound (contexts x grouping into composites x channels x inference) is drawn before "
        "and after its run; the drawing is parsed and compared with the program.",
        "technique": SEQ,
    },
    "C22": {
        "builds": ["os", "co", "os,unb", "os,cyc"],
        "builds_thorough": ["os", "co", "os,unb", "os,cyc", "co,unb", "co,cyc", "os,unb,cyc"],
        "rule": CH + " The same jobs are explored in every build of the simulator and in every run mode, judged by the "
        "same rules, and their outcomes are compared across the builds.",
        "technique": DPOR,
        "budget": {"quick": 100, "thorough": 620},
    },
    "C25": {
        "builds": ["os"],
        "rule": "Every data type and every array shape of the bound; every operation of unevaluated types.",
        "technique": SEQ,
    },
    "C23": {"builds": ["os"], "rule": CH + " All channel ends used through the adapters.", "technique": DPOR},
    "C24": {
        "builds": ["os"],
        "rule": "Every interleaving of threads creating identifiers, sequentially consistent and weakly ordered.",
        "technique": DPOR,
    },
    "C26": {
        "builds": ["os"],
        "rule": CH + " The contexts are grouped into composites in every way of the bound.",
        "technique": DPOR,
    },
}
