"""Which scenario decides which property, and how much of it."""
FORKS = ["frontier", "homestead", "dao_fork", "tangerine_whistle", "spurious_dragon", "byzantium",
         "constantinople", "istanbul", "muir_glacier", "berlin", "london", "arrow_glacier",
         "gray_glacier", "paris", "shanghai", "cancun", "prague", "osaka"]

PROPS = {}


def legs(paramlist, quick, thorough, batch=1, env=None):
    return [{"params": p, "quick": quick, "thorough": thorough, "batch": batch, "env": env or {}} for p in paramlist]


PROPS["C13"] = dict(
    module="dst.scen.store",
    legs=legs([{"mode": "equiv", "fork": f} for f in FORKS], 600, 20000, batch=20),
    rule="one run = one seeded sequence of store operations with nested transactions applied in lock step to the "
         "plain state, the optimized state and the model; non-trivial = a run that completed with at least one "
         "comparison, distinct by event-log digest",
    state_measure="(fork, operation, nesting depth, number of accounts, number of slots)",
    real=["ethereum_optimized.state_db over rust_pyspec_glue/mdbx", "ethereum.<fork>.state", "ethereum.<fork>.trie"],
    stubs=["none; the block-processing code that would call the store is replaced by the generated operations"],
    assumptions=["storage is only written for existing accounts, as the interpreter does"],
)
PROPS["C14"] = dict(
    module="dst.scen.store",
    legs=legs([{"mode": "crash", "fork": f} for f in FORKS], 500, 15000, batch=20),
    level="exploration",
    rule="one run = 1-5 incarnations of the store on one path, each ended by a crash before/after a chosen database "
         "call, inside a commit, between operations, by a full disk, or by a clean close; then reopened and read back; "
         "non-trivial = completed with at least one recovery check; distinct by event-log digest",
    state_measure="(crash position, fork) and (operation, depth, sizes)",
    real=["ethereum_optimized.state_db", "rust_pyspec_glue/mdbx on real files in a scratch directory"],
    stubs=["database handle wrapped by a counting proxy that crashes or fails one call"],
    assumptions=["process crash: file contents as the kernel sees them at the crash instant survive; loss of the page "
                 "cache (power failure) is mdbx's fsync discipline and is not simulated"],
)

_SYNC = dict(
    module="dst.scen.syncsim",
    state_measure="hash of the thread schedule of each incarnation; (schedule or boundary, ending, mode)",
    real=["ethereum_spec_tools.sync (main and download threads)", "ethereum_spec_tools.forks", "ethereum.fork_criteria",
          "queue.Queue", "block decoding in all forks", "apply_fork in all forks", "ethereum_optimized.state_db over mdbx"],
    stubs=["block validation (state_transition) replaced by a recorder that writes a marker into the real state",
           "RPC server and network", "threads, locks, clock"],
    assumptions=["line-level preemption only inside sync.py"],
)
PROPS["C06"] = dict(_SYNC, legs=legs([{"mode": "fork"}], 400, 20000, batch=4),
    rule="one run = one fork schedule (custom or a published mainnet boundary), one synthetic chain, a thread schedule and "
         "up to four crash/restarts; every imported block's rule set and decoding and every transition is checked; "
         "distinct by event-log digest")
PROPS["C15"] = dict(_SYNC, legs=legs([{"mode": "benign"}, {"mode": "fault"}], 250, 12000, batch=4),
    rule="one run = one synthetic chain served by a slow, reordering, duplicating or failing server under one thread "
         "schedule; the imported sequence must be the served chain in order; distinct by event-log digest")
PROPS["C16"] = dict(_SYNC, legs=legs([{"mode": "crash"}], 500, 20000, batch=4),
    rule="one run = one chain synced over up to five incarnations, each but the last crashed at a drawn scheduling step; "
         "after each crash database number, timestamp, chain id and state must agree, and the next incarnation must continue "
         "at the next block with the right ancestors; distinct by event-log digest")
PROPS["C17"] = dict(_SYNC, legs=legs([{"mode": "fault"}, {"mode": "benign"}], 300, 12000, batch=4),
    rule="one run = one sync under faults; it must end within the simulated time limit, normally if the server answered, with "
         "an error if the server failed; distinct by event-log digest")

_EXEC = dict(
    module="dst.scen.execsim",
    state_measure="(fork, transaction type, outcome, halt cause, destroyed accounts, logs, refund)",
    real=["ethereum.<fork>.fork.state_transition and everything under it: decoding, validation, the interpreter, state, "
          "trie, precompiles"],
    stubs=["ethash cache and hashimoto (keyed hash)", "network and producers: blocks are built by the reference model"],
    assumptions=["elliptic-curve pairing/addition precompiles and the KZG point evaluation are only called with inputs the "
                 "model can answer (N02 covers the arithmetic itself)"],
)


def per_fork(mode, quick, thorough, batch, forks=FORKS, **more):
    return [{"params": {"mode": mode, "fork": f}, "quick": quick, "thorough": thorough, "batch": batch,
             "env": dict(more, forks=[f])} for f in forks]


_ONE = "one run = one generated world and 1-3 blocks of generated transactions on one fork, each executed by the real " \
       "state transition and by the reference model with the same injected halts at drawn instructions; "
PROPS["C03"] = dict(_EXEC, legs=per_fork("ether", 300, 8000, 20),
    rule=_ONE + "total ether is recomputed from the real state and compared with issuance minus burn after every block")
PROPS["C08"] = dict(_EXEC, legs=per_fork("abort", 240, 8000, 20),
    rule=_ONE + "after every block state root, receipts, gas and traced instructions must equal the model's")
PROPS["C09"] = dict(_EXEC, legs=per_fork("fees", 300, 8000, 20),
    rule=_ONE + "gas charged, nonces, fees, refunds, receipts and totals must equal the model's")
PROPS["C10"] = dict(_EXEC, legs=per_fork("static", 280, 9000, 20, FORKS[5:]),
    rule=_ONE + "worlds biased to nested static calls attempting every kind of write")
PROPS["C11"] = dict(_EXEC, legs=per_fork("scope", 300, 8000, 20),
    rule=_ONE + "worlds biased to transient storage, warm access, refunds, self-destructs across consecutive transactions")

_NET = dict(
    module="dst.scen.netsim",
    state_measure="(fork, rule broken or ok, mode)",
    real=["ethereum.<fork>.fork.state_transition and everything under it, one chain object per node", "block decoding in every fork",
          "in the disk-backed legs ethereum_optimized.state_db over mdbx and ethereum_optimized.fork"],
    stubs=["ethash cache, hashimoto and the native ethash library (keyed hash)", "network, fork choice and orphan handling of a node",
           "producers: blocks are built by the reference model and then mutated"],
    assumptions=["the reference model in dst/ref states the fork rules; elliptic-curve pairing/addition precompiles and KZG point "
                 "evaluation are not called with valid inputs (N02)"],
)
_NETONE = "one run = 2-3 nodes running the real chain code, fed by producers and byzantine mutators over a lossy, reordering, " \
          "duplicating, partitioned network with crash/restart; every delivery is judged by the reference model; "
POS = FORKS[13:]
PROPS["C01"] = dict(_NET, legs=per_fork("valid", 130, 6000, 20) + per_fork("valid", 40, 1500, 20, optimized=1),
    rule=_NETONE + "an accepted block must satisfy every header, body and transaction rule, a refused one must break one; distinct by "
                   "event-log digest")
PROPS["C02"] = dict(_NET,
    legs=per_fork("agree", 80, 4000, 20) + per_fork("agree", 40, 2000, 20, optimized=1)
    + per_fork("agree", 20, 500, 20, hashseed=77), nondeterminism_is_violation=True,
    rule=_NETONE + "all nodes, however backed and restarted, must hold the model's state, receipts root and history for their head; "
                   "distinct by event-log digest")
PROPS["C04"] = dict(_NET, legs=per_fork("hashes", 90, 4000, 20, preload=1),
    rule=_NETONE + "starting up to 300 blocks deep, contracts probe BLOCKHASH and the history contract around both window edges; "
                   "distinct by event-log digest")
PROPS["C05"] = dict(_NET, legs=per_fork("ommers", 170, 7000, 20, FORKS[:13] + ["paris", "cancun", "osaka"]),
    rule=_NETONE + "blocks with ommers at every depth, duplicates, ancestors, cousins and wrong headers; distinct by event-log digest")
PROPS["C07"] = dict(_NET, legs=per_fork("requests", 250, 9000, 20, ["shanghai", "cancun", "prague", "osaka"]),
    rule=_NETONE + "blocks with withdrawals, system calls, deposits and requests, and mutations of each; distinct by event-log digest")
PROPS["C12"] = dict(_NET, legs=per_fork("replay", 170, 7000, 20),
    rule=_NETONE + "transactions and authorizations are captured and replayed later, on other branches and across chain ids; "
                   "distinct by event-log digest")

_T8N = dict(
    module="dst.scen.t8nsim",
    state_measure="(fork, transaction type, verdict or halt cause, input form, output form)",
    real=["ethereum_spec_tools.evm_tools entry point, argument parsing, loaders, T8N, tracers and writers",
          "ethereum.<fork> transaction processing, interpreter, state, trie; in chained runs also state_transition"],
    stubs=["the git call of the argument parser", "files and streams: real files in a scratch directory behind a shim that fails calls"],
    assumptions=["the reference model in dst/ref states the fork rules",
                 "environments are ones the tool's documentation allows for the fork"],
)
_T8NONE = "one run = one environment, pre-state and list of valid and invalid transactions given to the real tool on one fork, " \
          "with injected halts; "
PROPS["C20"] = dict(_T8N, legs=per_fork("t8n", 180, 9000, 20),
    rule=_T8NONE + "result, allocation, body and rejections must equal the model's, and in chained runs the block of the accepted "
                   "transactions must import to the same roots; distinct by event-log digest")
PROPS["C21"] = dict(_T8N, legs=per_fork("trace", 150, 8000, 20),
    rule=_T8NONE + "tracers are drawn, combined and switched between transactions; results must not change and every trace line must "
                   "be the model's instruction event; distinct by event-log digest")
PROPS["C22"] = dict(_T8N, legs=per_fork("files", 90, 6000, 20),
    rule=_T8NONE + "input and output files are drawn, stale outputs left behind, and single I/O calls failed; success is only allowed "
                   "with complete output; distinct by event-log digest")

_DAEMON = dict(
    module="dst.scen.daemonsim",
    state_measure="hash of the thread schedule; (request kind, outcome, tracing, position) and (idle limit, accepted, kinds)",
    real=["ethereum_spec_tools.evm_tools from its command line entry: daemon, parser, tool, tracers",
          "http.server and socketserver of the standard library", "files in a scratch directory"],
    stubs=["Unix sockets, readiness polling, threads, clocks (simulated)", "the git call of the argument parser"],
    assumptions=["a client that sends half a request or does not read its answer leaves some day: the service answers one "
                 "connection at a time"],
)
GROUPS = [["frontier", "berlin", "prague"], ["homestead", "dao_fork", "london"], ["tangerine_whistle", "spurious_dragon", "cancun"],
          ["byzantium", "constantinople", "osaka"], ["istanbul", "muir_glacier", "paris"], ["arrow_glacier", "gray_glacier", "shanghai"]]
PROPS["C18"] = dict(_DAEMON,
    legs=[{"params": {"mode": "isolate", "forks": g}, "quick": 75, "thorough": 3000, "batch": 1, "env": {"forks": g}} for g in GROUPS],
    rule="one run = one life of the service with 2-7 clients: good, failing, malformed and interrupted requests with mixed forks and "
         "options; every answer and the directory tree must equal those of one-shot runs in a pristine process; distinct by "
         "event-log digest")
PROPS["C19"] = dict(_DAEMON,
    legs=[{"params": {"mode": "idle"}, "quick": 2000, "thorough": 60000, "batch": 20, "env": {"forks": ["frontier"]}}],
    rule="one run = one life of the service under one idle limit, arrival times around it, request durations, client failures, clock "
         "jumps and thread schedule; it must answer what reaches it in time and end idle within a bound; distinct by event-log digest")
