"""Writes /verif/properties.jsonl (kept in a script only so it is reviewable)."""
import json, os
H="src/ethereum/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe,hook_needed=hook)))
ST="src/ethereum/<fork>/fork.py"
UNT="The stable tests exercise genesis, ethash, RLP-level helpers, two storage-cache unit cases and lint tools only; "

p("C01","Only valid blocks extend the chain",
 "A node's chain is extended by a delivered block exactly when that block is a valid child of the chain's tip under the rules of the fork in force: header linkage and bounds, commitments to the body, transaction validity, ommers, withdrawals, blobs and requests. Any corrupted, forged, stale, duplicated or reordered block is refused with an error, and refusing it leaves the node's accepted block history exactly as it was. After any sequence of refusals the node still accepts the next valid block once it resumes from its last accepted state.",
 ["inputs","histories","fault_sequences"],
 "every fork, every chain history, every single-rule violation by a Byzantine producer and every corruption, loss, duplication or reordering of the delivered blocks",
 UNT+"no stable test imports a block at all, and a fixed vector cannot enumerate delivery orders or corruptions.",
 [ST,"src/ethereum/<fork>/blocks.py","src/ethereum/<fork>/transactions.py","src/ethereum/<fork>/vm/gas.py"],
 [("block import",ST+":state_transition"),("header rules",ST+":validate_header"),("transaction rules",ST+":check_transaction, validate_transaction")],
 ["exception or return of importing a block","length and contents of the accepted block list"])

p("C02","Replicas that import the same blocks agree, and match the protocol",
 "Nodes of the same fork that start from the same genesis and accept the same blocks hold the same accounts, balances, nonces, code and storage, and that state, the gas used, receipts, logs and bloom are the ones the protocol defines for those blocks. This does not depend on what else was delivered, in which order, on reorganisations, restarts from stored state, the process, or the hash seed.",
 ["histories","schedules","fault_sequences","programs"],
 "all block histories with generated transactions and contract programs, delivery schedules, reorgs and restarts, for every fork",
 UNT+"there is no independent oracle in the repository, and agreement is a property over all delivery histories.",
 [ST,"src/ethereum/<fork>/state.py","src/ethereum/<fork>/trie.py","src/ethereum/<fork>/vm/interpreter.py","src/ethereum/<fork>/vm/instructions/system.py"],
 [("body application",ST+":apply_body"),("state root","src/ethereum/<fork>/state.py:state_root")],
 ["state root, receipts root, logs bloom, gas used of the accepted block","full account and storage enumeration"])

p("C03","Ether is conserved",
 "Across every block the total ether in all accounts changes by exactly the issuance the fork prescribes (block and ommer rewards, withdrawals) minus exactly what the fork burns (base fees, blob fees, ether destroyed with a self-destructing account). Failing, reverting or running out of gas at any instant neither creates nor destroys ether, and no balance is ever negative or above the protocol maximum.",
 ["histories","programs","fault_sequences"],
 "all transaction mixes, nested calls with value, creations, self-destructs and aborts at every instruction, in every fork",
 UNT+"no test sums balances across a block, and the leak needs a particular abort point or nesting.",
 [ST,"src/ethereum/<fork>/state.py","src/ethereum/<fork>/vm/interpreter.py","src/ethereum/<fork>/vm/instructions/system.py"],
 [("transfer","src/ethereum/<fork>/state.py:move_ether"),("fees",ST+":process_transaction"),("issuance",ST+":pay_rewards, process_withdrawals")],
 ["sum of all balances before and after each imported block"])

p("C04","Programs see the true recent block hashes",
 "A program asking for an ancestor's hash gets the real hash of that ancestor on the chain the block extends when it is one of the 256 most recent ancestors, and zero otherwise; the on-chain history and beacon-root contracts are fed exactly the parent hash and parent beacon root once per block in the forks that have them. This holds at chain start, across the 256-block window, after reorganisations and after a restart.",
 ["histories","fault_sequences"],
 "all chain lengths around the window, reorganisations, restarts, and forks",
 UNT+"no test runs a chain long enough to leave the window nor reorganises one.",
 [ST,"src/ethereum/<fork>/vm/instructions/block.py"],
 [("ancestor list",ST+":get_last_256_block_hashes"),("chain trimming",ST+":state_transition"),("system calls","src/ethereum/{cancun,prague,osaka}/fork.py:process_system_transaction")],
 ["storage written by observing contracts"])

p("C05","Ommers are rewarded at most once and only when eligible",
 "In proof-of-work forks a block including ommers is accepted only if there are at most two, each a valid header at most six generations removed, not an ancestor, not already included by a recent ancestor and not duplicated, and then each ommer's beneficiary and the including miner receive exactly the prescribed rewards. Whatever the order of competing branches, reorganisations and deliveries, no ommer is paid twice on one chain; later forks admit none.",
 ["histories","schedules","fault_sequences"],
 "all trees of competing blocks and inclusion attempts, all proof-of-work forks, plus ommer injection in later forks",
 UNT+"no stable test builds a block with an ommer.",
 ["src/ethereum/<pow fork>/fork.py"],
 [("ommer rules",ST+":validate_ommers"),("rewards",ST+":pay_rewards")],
 ["block acceptance","balances of beneficiaries"])

p("C06","Rule sets activate exactly at the scheduled block or time",
 "A client following the published fork schedule applies to every block exactly the rule set scheduled for that block's number or timestamp, switching at the first block that meets the criterion, never earlier, never later and never back. This holds when several forks activate at once, when the client restarts or resumes at, just before or just after a boundary, and the chain carries over intact with one-off transition effects applied exactly once.",
 ["histories","configurations","crash_points"],
 "all fork schedules the supported chain configurations express (including coinciding forks; at most one timestamp fork in the 255 blocks before a resume point), boundary positions, block spacings and restart points",
 UNT+"fork-criteria ordering is unit-tested, but not following a chain over boundaries or resuming near one.",
 ["src/ethereum_spec_tools/sync.py","src/ethereum_spec_tools/forks.py","src/ethereum/fork_criteria.py","src/ethereum/dao_fork/fork.py","src/ethereum/london/fork.py","src/ethereum/paris/fork.py"],
 [("fork tracking","src/ethereum_spec_tools/sync.py:ForkTracking"),("transition",ST+":apply_fork"),("criteria","src/ethereum/fork_criteria.py")],
 ["module processing each block","chain and state after the boundary"])

p("C07","Validator requests and withdrawals take effect exactly once, in order",
 "In forks with validator requests, a block commits to exactly the deposits logged by successful calls in that block and the entries the request queues hand out, in order, and to nothing from reverted or failed calls. Withdrawals credit each listed amount exactly once whatever the recipient is. A block whose commitments or list differ is refused.",
 ["histories","programs","fault_sequences"],
 "all interleavings of succeeding, reverting and aborting request-making calls across transactions and blocks, with reorganisations",
 UNT+"no stable test executes a request or withdrawal.",
 ["src/ethereum/prague/fork.py","src/ethereum/prague/requests.py","src/ethereum/osaka/fork.py","src/ethereum/osaka/requests.py","src/ethereum/{shanghai,cancun,prague,osaka}/fork.py"],
 [("requests","src/ethereum/{prague,osaka}/fork.py:process_general_purpose_requests"),("deposits","src/ethereum/{prague,osaka}/requests.py:parse_deposit_requests"),("withdrawals",ST+":process_withdrawals")],
 ["requests hash the node accepts","balances"])

p("C08","An aborted call leaves nothing behind",
 "When a message call or contract creation fails - by exception, exhausted gas, revert or a failing precompile, at any instant and any nesting depth - every balance, nonce, code, storage, transient-storage, log, self-destruct, warm-access and refund effect made inside it disappears, and every effect made outside it stays. The caller continues with a failure indicator and exactly the gas the protocol leaves it.",
 ["programs","fault_sequences","crash_points"],
 "all nested programs and every instruction boundary as the failure instant, in every fork",
 UNT+"no stable test executes a nested failing call; the failure instants are unbounded.",
 ["src/ethereum/<fork>/vm/interpreter.py","src/ethereum/<fork>/vm/__init__.py","src/ethereum/<fork>/state.py","src/ethereum/<fork>/vm/instructions/system.py"],
 [("snapshots","src/ethereum/<fork>/state.py:begin_transaction, rollback_transaction"),("frames","src/ethereum/<fork>/vm/interpreter.py:process_message"),("child merging","src/ethereum/<fork>/vm/__init__.py:incorporate_child_on_success/_on_error")],
 ["post state, logs, refund and gas"])

p("C09","A transaction is charged exactly once, whatever happens inside it",
 "Every included transaction, whether it succeeds, reverts, aborts or runs out of gas at any instant, increments its sender's nonce exactly once, charges the sender exactly gas used times the effective price (plus blob fees) with unused and capped refund gas returned, pays the block beneficiary its share, and produces exactly one receipt whose status and cumulative gas agree. It never uses more gas than its limit nor less than its intrinsic minimum, and the block's totals equal the sum over its transactions.",
 ["programs","fault_sequences","inputs"],
 "all transaction kinds, fee settings, refund-earning programs and abort instants, in every fork",
 UNT+"no stable test runs a transaction to completion.",
 [ST,"src/ethereum/<fork>/vm/gas.py","src/ethereum/<fork>/vm/interpreter.py","src/ethereum/<fork>/transactions.py"],
 [("charging",ST+":process_transaction"),("refunds",ST+":process_transaction"),("receipts",ST+":make_receipt")],
 ["balances of sender and beneficiary, nonce, receipt, gas totals"])

p("C10","Static calls cannot change anything",
 "While a static call is running, at any depth below it and in whichever contract, no storage, transient storage, balance, nonce, code, log or self-destruct effect can happen: an attempt fails that frame, and the world is the same after the static call as before it except for gas and cached access.",
 ["programs","fault_sequences"],
 "all nestings of static and ordinary calls, creations, delegations and every state-changing instruction, from byzantium on",
 UNT+"no stable test runs a static call.",
 ["src/ethereum/<byzantium and later>/vm/instructions/system.py","src/ethereum/<byzantium and later>/vm/instructions/storage.py","src/ethereum/<byzantium and later>/vm/instructions/log.py","src/ethereum/<byzantium and later>/vm/interpreter.py"],
 [("static flag","src/ethereum/<fork>/vm/__init__.py:Message.is_static")],
 ["state and logs before and after each static call"])

p("C11","Transaction-scoped data never outlives its transaction",
 "Transient storage, warm-access marks, refund counters, original-value bookkeeping, created-in-this-transaction marks and pending self-destructs start empty in each transaction and system call and have no effect on any later one in the same or another block, however the earlier one ended. Replaying a later transaction alone on the same pre-state gives the same outcome.",
 ["histories","programs","fault_sequences"],
 "all sequences of transactions sharing accounts and slots with every kind of ending, in every fork",
 UNT+"no stable test runs two transactions in one block.",
 [ST,"src/ethereum/<fork>/state.py","src/ethereum/<fork>/vm/__init__.py","src/ethereum/<fork>/utils/message.py"],
 [("per-transaction environment",ST+":process_transaction"),("storage snapshots","src/ethereum/<fork>/state.py:begin_transaction/commit_transaction/get_storage_original")],
 ["gas and results of later transactions"])

p("C12","A signed transaction or authorization takes effect at most once per chain",
 "A signed transaction is executed at most once on a chain and only for the sender that signed it and, when it names a chain, only on that chain; a signed delegation likewise takes effect at most once, only for the account that signed it, and persists even when the transaction carrying it fails. Duplicates, replays from another chain, reorderings and reorganisations never make one count twice or out of nonce order.",
 ["histories","schedules","fault_sequences"],
 "all delivery histories of signed messages with duplication, replay across chains, reordering and reorganisation",
 UNT+"no stable test submits the same signed message twice or across chains.",
 [ST,"src/ethereum/<fork>/transactions.py","src/ethereum/{prague,osaka}/vm/eoa_delegation.py"],
 [("nonce check",ST+":check_transaction"),("sender recovery","src/ethereum/<fork>/transactions.py:recover_sender"),("delegation","src/ethereum/{prague,osaka}/vm/eoa_delegation.py:set_delegation")],
 ["nonces, balances, delegation code, block acceptance"])

p("C13","The disk-backed state behaves exactly like the in-memory state",
 "For every sequence of account and storage reads, writes, destructions, nested transactions, commits and rollbacks, the optimized disk-backed state returns the same values and the same state roots as the plain in-memory state, including original-value lookups and resurrection of destroyed accounts. Rolling back restores exactly what was visible when that transaction began.",
 ["histories","programs","crash_points"],
 "all operation sequences with nested begin/commit/rollback, memory-mode and disk-mode, and disk commits at any point between transactions",
 "The two stable unit cases for this cover one resurrection and one key order only; the interplay of nesting, destruction and rollback is unbounded.",
 ["src/ethereum_optimized/state_db.py","src/ethereum/<fork>/state.py"],
 [("journal","src/ethereum_optimized/state_db.py:begin_transaction/rollback_transaction"),("dirty caches","src/ethereum_optimized/state_db.py:State")],
 ["return value of each read, state root after each step"])

p("C14","A restarted node resumes from exactly its last durable commit",
 "After a crash at any instant, reopening the state store shows exactly the accounts, storage, code and metadata as of the last completed commit to disk: nothing of a later uncommitted change, nothing missing, and the same state root. A store that was closed and reopened without a crash loses and invents nothing either.",
 ["crash_points","histories","fault_sequences"],
 "all operation histories, commit placements and crash instants, including repeated crashes during recovery",
 UNT+"no test reopens a store after a crash.",
 ["src/ethereum_optimized/state_db.py","src/ethereum_spec_tools/sync.py"],
 [("commit","src/ethereum_optimized/state_db.py:commit_db_transaction"),("metadata","src/ethereum_optimized/state_db.py:set_metadata")],
 ["reads, metadata and state root after reopening"])

p("C15","Chain sync imports exactly the served chain, in order",
 "While following a server, the sync client hands every block of the requested range to import exactly once, in order, decoded under the right fork and unaltered, whatever the batching, timing, slowness, reply order, thread scheduling and transient server errors are. A failing, incomplete or mismatched reply stops the client rather than making it import a gap, a repeat or an altered block: what was imported is always an unbroken prefix.",
 ["schedules","fault_sequences","configurations"],
 "all thread interleavings, reply delays and orders, batch and queue sizes, rate limits and server misbehaviours",
 UNT+"the sync client has no stable test at all.",
 ["src/ethereum_spec_tools/sync.py"],
 [("download thread","src/ethereum_spec_tools/sync.py:BlockDownloader"),("import loop","src/ethereum_spec_tools/sync.py:Sync.process_blocks")],
 ["sequence of blocks given to the fork's import function","final chain and state"])

p("C16","An interrupted sync resumes to the same result",
 "If the sync client is stopped or crashes at any instant and is started again on the same database, it continues from the last persisted block, re-imports nothing before it and skips nothing after it, and finally reaches the same chain tip and state as a run that was never interrupted.",
 ["crash_points","schedules","fault_sequences"],
 "all crash instants, numbers of crashes, commit intervals, and fork boundaries near the resume point",
 UNT+"no test runs the client twice.",
 ["src/ethereum_spec_tools/sync.py","src/ethereum_optimized/state_db.py"],
 [("persist and resume","src/ethereum_spec_tools/sync.py:Sync.persist, Sync.__init__")],
 ["first block requested and imported after restart, final state root"])

p("C17","Sync always finishes or reports failure, never hangs",
 "As long as the server answers, the sync client makes progress and terminates once the requested last block is imported; if the server fails permanently the client ends with an error instead of waiting forever. No thread is left running that prevents the process from ending.",
 ["schedules","fault_sequences"],
 "all thread interleavings, server stalls, errors and recoveries",
 UNT+"a hang depends on which thread sees the failure first; no test runs the threads.",
 ["src/ethereum_spec_tools/sync.py"],
 [("queue and threads","src/ethereum_spec_tools/sync.py:BlockDownloader.take_block, download")],
 ["termination of the client within a bounded simulated time"])

p("C18","Requests to the transition-tool service are isolated and deterministic",
 "Each request to the long-running transition-tool service gets exactly the answer a fresh one-shot run of the tool on that request would give, regardless of which requests, failures, malformed messages, disconnects, tracing options and forks came before it on the same service. No request writes files another request asked for.",
 ["histories","fault_sequences"],
 "all sequences of valid, failing, malformed, slow, truncated and disconnected requests with mixed forks and options",
 UNT+"the service has no stable test.",
 ["src/ethereum_spec_tools/evm_tools/daemon.py","src/ethereum_spec_tools/evm_tools/__init__.py","src/ethereum_spec_tools/evm_tools/t8n/__init__.py","src/ethereum/trace.py"],
 [("request handler","src/ethereum_spec_tools/evm_tools/daemon.py:_EvmToolHandler"),("global tracer","src/ethereum/trace.py:set_evm_trace")],
 ["response bytes and files written per request"])

p("C19","The transition-tool service keeps serving and stops only when idle",
 "The service answers every well-formed request that reaches it, survives malformed or interrupted ones, and shuts itself down only after its configured idle time has passed without a request, within a bounded delay, and never while it is answering. Without an idle limit it never stops by itself.",
 ["schedules","fault_sequences","configurations"],
 "all arrival times, request durations, timeouts, clock positions and client failures",
 UNT+"timer and server thread interleavings are never run by a test.",
 ["src/ethereum_spec_tools/evm_tools/daemon.py"],
 [("idle timer","src/ethereum_spec_tools/evm_tools/daemon.py:Daemon.check_timeout"),("server loop","src/ethereum_spec_tools/evm_tools/daemon.py:_UnixSocketHttpServer")],
 ["responses and shutdown time in simulated time"])

p("C20","The transition tool agrees with block import; rejected txs leave no trace",
 "Running the transition tool on an environment, pre-state and transaction list gives the same post-state root, receipts, gas, bloom and rejections as importing a block made of the accepted transactions. A rejected transaction is reported and, whatever rule it broke, changes neither the state, the gas counter, receipts nor the treatment of later transactions.",
 ["inputs","histories","fault_sequences"],
 "all transaction lists mixing valid and invalid transactions at any position, for every fork",
 UNT+"tool tests are not among the stable ones (fixtures absent).",
 ["src/ethereum_spec_tools/evm_tools/t8n/__init__.py","src/ethereum_spec_tools/evm_tools/t8n/env.py","src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py","src/ethereum_spec_tools/evm_tools/loaders/transaction_loader.py"],
 [("tool run","src/ethereum_spec_tools/evm_tools/t8n/__init__.py:T8N.run_blockchain_test, backup_state")],
 ["result and alloc output"])

p("C21","Tracing observes without interfering",
 "Executing any block with any of the provided tracers on or off, and switching them on and off between transactions, gives identical states, receipts, gas and errors. The emitted trace lists every executed instruction in order with the gas, depth and outcome that actually happened, also when the traced call aborts.",
 ["programs","configurations","fault_sequences"],
 "all programs, abort instants and tracer configurations, in every fork",
 UNT+"only one stable test calls a tracer, on a fabricated event.",
 ["src/ethereum/trace.py","src/ethereum_spec_tools/evm_tools/t8n/evm_trace/eip3155.py","src/ethereum_spec_tools/evm_tools/t8n/evm_trace/count.py","src/ethereum_spec_tools/evm_tools/t8n/evm_trace/group.py","src/ethereum/<fork>/vm/interpreter.py"],
 [("trace seam","src/ethereum/trace.py:evm_trace"),("writers","src/ethereum_spec_tools/evm_tools/t8n/evm_trace/eip3155.py")],
 ["outcome with and without tracer; trace events"])

p("C22","The transition tool reports success only with complete output",
 "If the transition tool reports success, every requested output (state, result, body, traces) is complete, well formed and from this run, whatever was in the output location before; if reading inputs or writing outputs fails at any point it reports failure and never success.",
 ["fault_sequences","crash_points","configurations"],
 "all input/output failures (missing, unreadable, truncated input; full disk, short write, failing open) at every I/O step and all output configurations",
 UNT+"no stable test injects an I/O failure into the tool.",
 ["src/ethereum_spec_tools/evm_tools/t8n/__init__.py","src/ethereum_spec_tools/evm_tools/__init__.py","src/ethereum_spec_tools/evm_tools/t8n/evm_trace/eip3155.py"],
 [("output writing","src/ethereum_spec_tools/evm_tools/t8n/__init__.py:T8N.run")],
 ["exit status and contents of the output files/streams"])

# not applicable
NA="pure function of its input: no schedule, clock, fault, multi-party or crash behaviour for a simulator to decide"
def na(id,title,statement,text,why,files,mech,observe):
    p(id,title,statement,["inputs"],text,why,files,mech,observe)
na("N01","Arithmetic and bitwise instructions compute exact 256-bit results",
 "Every arithmetic, comparison and bitwise instruction returns the exact 256-bit result for all operand values.",
 "all operand values","tests sample operands; stable tests have none",
 ["src/ethereum/<fork>/vm/instructions/arithmetic.py","src/ethereum/<fork>/vm/instructions/bitwise.py","src/ethereum/<fork>/vm/instructions/comparison.py"],[("instructions","src/ethereum/<fork>/vm/instructions")],["stack result"])
na("N02","Precompiled contracts compute their cryptographic functions",
 "Each precompiled contract returns the value of its mathematical function for every input and fails for every invalid input.",
 "all byte inputs","tests sample vectors",
 ["src/ethereum/<fork>/vm/precompiled_contracts","src/ethereum/crypto"],[("precompiles","src/ethereum/<fork>/vm/precompiled_contracts")],["output bytes"])
na("N03","Trie roots depend only on contents",
 "The root of a key-value trie is determined by its contents alone and distinct contents give distinct roots.",
 "all key-value maps","tests sample a few fixtures",
 ["src/ethereum/<fork>/trie.py"],[("root","src/ethereum/<fork>/trie.py:root")],["root hash"])
na("N04","Ethash verification accepts exactly sealed headers",
 "The proof-of-work check accepts a header exactly when its nonce and mix digest are a valid seal for its difficulty.",
 "all headers","tests sample a few mainnet headers",
 ["src/ethereum/ethash.py","src/ethereum/frontier/fork.py"],[("hashimoto","src/ethereum/ethash.py:hashimoto_light")],["accept or reject"])
na("N05","Transaction encodings round-trip",
 "Decoding an encoded transaction, block or receipt gives back the same value, and malformed encodings are refused.",
 "all encodable values","tests sample values",
 ["src/ethereum/<fork>/transactions.py","src/ethereum/<fork>/blocks.py"],[("codec","src/ethereum/<fork>/transactions.py:encode_transaction, decode_transaction")],["bytes"])
na("N06","Developer lint and patch tools preserve code",
 "The repository's lint, fork-creation and patching developer tools report and transform source files as documented.",
 "all source trees","tests cover fixed snippets",
 ["src/ethereum_spec_tools/lint","src/ethereum_spec_tools/new_fork.py","src/ethereum_spec_tools/patch_tool.py"],[("tools","src/ethereum_spec_tools")],["tool output"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
