"""Generates properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/ethereum/"
IN, PR, HI, CF, SC, FA, CR = ("inputs", "programs", "histories",
    "configurations", "schedules", "fault_sequences", "crash_points")
NOEVM = ("The stable tests never execute a block, a transaction or an EVM "
         "instruction; ")
P = []
def p(id, title, statement, over, q, why, files, mech, observe, tech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q,
                  why=why, files=files, mech=mech, observe=observe,
                  tech=tech, note=note))

REF = ("path-sensitive value-numbering of every function of the region, "
       "compared semantically with reviewed per-fork reference rules")
RN = ("All inputs within the analysed functions: both sides are reduced to "
      "canonical guarded terms (results, effects, exceptions); a reported "
      "difference is a definite semantic difference. Trusts the reviewed "
      "reference rules and the meaning of external packages; functions whose "
      "conditions exceed the budget are reported as undecided, not alarmed.")

p("C01", "Invalid headers are rejected, valid ones accepted",
  "For every fork, a block is accepted only if its header obeys every header rule of that fork relative to its parent: number, parent hash, strictly increasing timestamp, gas limit bounds, extra-data length, difficulty or its proof-of-stake constants, base fee, and excess/used blob gas where the fork defines them. Any header that breaks one is rejected as an invalid block, never with another outcome, and no header that obeys all of them is rejected.",
  [IN, HI], "every header and every chain tip, in each of the 18 forks",
  NOEVM + "fixture vectors sample a handful of bad headers per fork.",
  ["src/ethereum/*/fork.py", "src/ethereum/*/blocks.py", "src/ethereum/*/vm/gas.py"],
  [("validate_header, check_gas_limit, calculate_base_fee_per_gas, calculate_block_difficulty", "src/ethereum/*/fork.py"),
   ("calculate_excess_blob_gas", "src/ethereum/{cancun,prague,osaka}/vm/gas.py")],
  ["state_transition raising InvalidBlock or extending the chain"],
  REF + "; header-field coverage rule; interprocedural exception-family rule at the block boundary", RN)

p("C02", "A block joins the chain only if all its commitments match execution",
  "A block is appended only if the state root, transactions root, receipts root, logs bloom, gas used and, where the fork defines them, withdrawals root, blob gas used and requests hash in its header equal the values obtained by executing that block on its parent state. A mismatch in any one of them rejects the block and leaves the list of accepted blocks unchanged. Each receipt and trie entry is filed under its own index with cumulative gas.",
  [IN, HI], "every block and every prior chain, in each fork",
  NOEVM + "sampled vectors check only agreement on well-formed blocks.",
  ["src/ethereum/*/fork.py", "src/ethereum/*/bloom.py", "src/ethereum/*/blocks.py", "src/ethereum/*/vm/__init__.py"],
  [("state_transition compares header fields with the block output", "src/ethereum/*/fork.py"),
   ("apply_body, process_transaction, make_receipt", "src/ethereum/*/fork.py")],
  ["BlockChain.blocks after state_transition"],
  REF + "; header-commitment coverage and append-after-checks (dominance) rules", RN)

p("C03", "A transaction is executed only if it is admissible",
  "A transaction is included only if its signature recovers a sender under the fork's signature rules, its nonce equals the sender's, the sender can pay the maximum cost and is not a contract, its gas fits in the block, its fee caps cover the base and blob fees, its type exists in the fork, and its type-specific conditions (chain id, blob versioned hashes, authorization list, creation limits) hold. Otherwise the block is rejected and nothing of the transaction is applied; no admissible transaction is refused.",
  [IN, HI], "every transaction of every type, against every account state and block position",
  NOEVM + "boundary combinations of type, fee and balance are unbounded.",
  ["src/ethereum/*/fork.py", "src/ethereum/*/transactions.py", "src/ethereum/*/vm/gas.py", "src/ethereum/crypto/elliptic_curve.py"],
  [("check_transaction, validate_transaction, recover_sender", "src/ethereum/*/{fork,transactions}.py")],
  ["state_transition / process_transaction raising InvalidTransaction/InvalidBlock"],
  REF + "; admission-before-effects (dominance) rule; exception-family rule at the block boundary", RN)

p("C04", "Intrinsic gas is charged in full before execution",
  "Before any code runs, a transaction pays the intrinsic cost its fork prescribes for base, calldata bytes, creation, init code words, access list entries and authorizations; a gas limit below that cost (or below the calldata floor where it exists) makes it invalid. After execution, the gas charged is never below the calldata floor in forks that define one.",
  [IN], "every transaction payload, access list, authorization list and gas limit",
  NOEVM + "calldata composition is unbounded.",
  ["src/ethereum/*/transactions.py", "src/ethereum/*/fork.py", "src/ethereum/*/vm/gas.py"],
  [("calculate_intrinsic_cost, validate_transaction", "src/ethereum/*/transactions.py"), ("init_code_cost", "src/ethereum/*/vm/gas.py")],
  ["process_transaction"], REF, RN)

p("C05", "Ether is moved, never created or lost, except as the fork prescribes",
  "Every balance change is a matched debit and credit, apart from the prescribed mint (block and ommer rewards, withdrawals) and burn (base fee, blob fee, self-destruct to self, where the fork says so). A transaction's sender pays exactly gas used times effective price plus transferred value plus blob fee, the fee recipient receives exactly its share, and unused gas and capped refunds return to the sender.",
  [IN, PR, HI], "every transaction, call tree and block",
  NOEVM + "conservation is a statement over all call trees.",
  ["src/ethereum/*/fork.py", "src/ethereum/*/state.py", "src/ethereum/*/vm/interpreter.py", "src/ethereum/*/vm/instructions/system.py", "src/ethereum/dao_fork/dao.py"],
  [("process_transaction fee settlement; move_ether; pay_rewards; process_withdrawals; selfdestruct; apply_dao", "src/ethereum/*/fork.py, state.py, vm/instructions/system.py")],
  ["account balances in the state after each transaction and block"],
  REF + "", RN)

p("C06", "Every opcode byte executes the instruction its fork assigns to it",
  "In each fork, each of the 256 byte values either executes exactly the instruction that fork defines for it or is an invalid opcode; no fork exposes an instruction before its introduction or loses one after it. Jumps land only on jump-destination bytes that are not inside push data.",
  [PR, IN], "every bytecode in every fork",
  NOEVM + "256 opcodes times 18 forks times code layouts are not sampled.",
  ["src/ethereum/*/vm/instructions/__init__.py", "src/ethereum/*/vm/interpreter.py", "src/ethereum/*/vm/runtime.py"],
  [("Ops and op_implementation tables", "src/ethereum/*/vm/instructions/__init__.py"), ("get_valid_jump_destinations", "src/ethereum/*/vm/runtime.py"), ("execute_code dispatch", "src/ethereum/*/vm/interpreter.py")],
  ["execution of one opcode by execute_code"],
  "exhaustive opcode table (256 bytes x 18 forks) against an EIP-derived table; " + REF,
  RN)

p("C07", "Instructions compute the specified results on stack, memory and pc",
  "For all operands, each arithmetic, comparison, bitwise, hashing, environment, block, memory, stack, storage-access and logging instruction removes exactly its operands, leaves exactly the specified 256-bit result or memory contents, and moves the program counter past itself and its immediate data. Stack underflow, overflow above 1024 items and out-of-range operands have the specified outcome.",
  [PR, IN], "every operand value, stack depth and memory size",
  NOEVM + "operands range over 2^256 values.",
  ["src/ethereum/*/vm/instructions/*.py", "src/ethereum/*/vm/stack.py", "src/ethereum/*/vm/memory.py", "src/ethereum/utils/*.py"],
  [("one handler per instruction", "src/ethereum/*/vm/instructions/*.py"), ("push, pop, memory_write, memory_read_bytes, buffer_read", "src/ethereum/*/vm/{stack,memory}.py")],
  ["Evm.stack, Evm.memory, Evm.pc after an instruction"],
  REF + "; stack-arity and pc-advance rules on every path of every handler", RN)

p("C08", "Every instruction and precompile costs what its fork prescribes",
  "For every operand, memory size, account and storage status, each instruction and precompiled contract consumes exactly the gas its fork's schedule prescribes, including memory expansion, per-word, per-byte, per-topic, cold/warm, value-transfer, new-account and refund components. Repricings apply from their fork on and not before.",
  [PR, IN, HI], "every operand and access history in every fork",
  NOEVM + "a wrong coefficient shows only for particular sizes.",
  ["src/ethereum/*/vm/gas.py", "src/ethereum/*/vm/instructions/*.py", "src/ethereum/*/vm/precompiled_contracts/*.py"],
  [("charge_gas call sites and gas constants", "src/ethereum/*/vm/gas.py, instructions, precompiled_contracts")],
  ["Evm.gas_left and Evm.refund_counter after an instruction"],
  REF + "; static gas table per opcode and fork", RN)

p("C09", "Gas is charged before the work and the effects it pays for",
  "On every path of every instruction and precompiled contract, the gas is charged before memory grows, before the state, transient storage, logs, output or return data change, before hashing, copying or curve arithmetic is done and before a child frame starts, so running out of gas leaves no lasting effect of that instruction and does none of its work. Every memory range an instruction reads or writes was paid for and allocated.",
  [PR, IN, FA], "every path through every instruction, including the path where gas runs out",
  NOEVM + "only the exact out-of-gas point distinguishes the orders.",
  ["src/ethereum/*/vm/instructions/*.py", "src/ethereum/*/vm/gas.py", "src/ethereum/*/vm/memory.py"],
  [("pop / charge_gas / effect / pc layout of each handler", "src/ethereum/*/vm/instructions/*.py")],
  ["Evm fields at an OutOfGasError"],
  "effect-ordering (typestate) analysis over the resolved statement graph of each handler; " + REF, RN)

p("C10", "A static call changes no state",
  "From the fork that introduces static calls on, no instruction executed inside a static call, at any nesting depth, changes storage, transient storage, balances, nonces, code, logs or the set of accounts to delete; an attempt is an exceptional halt. Static mode is inherited by every child frame and cannot be left.",
  [PR], "every program and call tree under a static call",
  NOEVM + "nesting and opcode combinations are unbounded.",
  ["src/ethereum/*/vm/instructions/{storage,log,system}.py", "src/ethereum/*/vm/interpreter.py"],
  [("is_static guards", "src/ethereum/*/vm/instructions/*.py"), ("is_static propagation in child messages", "src/ethereum/*/vm/instructions/system.py")],
  ["state, logs and accounts_to_delete after a static frame"],
  "guard-dominance analysis: every state-writing effect is unreachable when the static flag is set; " + REF, RN)

p("C11", "A failing frame leaves no trace in the state",
  "Every state snapshot opened for a transaction, call, creation or system call is either committed once or rolled back once on every path, and a frame that ends in an error rolls back exactly the storage, balance, nonce, code and transient-storage changes made within it. Original values used for storage gas refer to the state before the transaction.",
  [PR, FA, HI], "every nesting of successful and failing frames",
  NOEVM + "nesting depth and failure points are unbounded.",
  ["src/ethereum/*/vm/interpreter.py", "src/ethereum/*/state.py"],
  [("begin_transaction / commit_transaction / rollback_transaction", "src/ethereum/*/state.py"), ("process_message, process_create_message", "src/ethereum/*/vm/interpreter.py")],
  ["state after a failing frame; depth of the snapshot stack"],
  "typestate (paired begin / commit-or-rollback) over all paths; " + REF, RN)

p("C12", "EVM faults stay inside their frame",
  "Any fault of a running program ends only its own frame: an exceptional halt consumes all of that frame's gas and returns no data, a revert keeps the remaining gas and returns its data, and in both cases the caller continues and sees failure. No program can make the interpreter raise out of message processing or abort the block.",
  [PR, IN, FA], "every program and every faulting operation",
  NOEVM + "the faulting paths are per-operand.",
  ["src/ethereum/*/vm/interpreter.py", "src/ethereum/*/vm/exceptions.py", "src/ethereum/*/vm/instructions/*.py", "src/ethereum/*/vm/precompiled_contracts/**/*.py"],
  [("execute_code exception handlers", "src/ethereum/*/vm/interpreter.py"), ("ExceptionalHalt hierarchy", "src/ethereum/*/vm/exceptions.py")],
  ["exceptions leaving process_message; Evm.error, gas_left, output"],
  "interprocedural may-raise analysis of everything a frame can run against the handlers; " + REF, RN)

p("C13", "Calls give each child frame the right context and fold it back",
  "Each call-family instruction starts a child with the fork's prescribed caller, target, value, code, data, depth, static flag and gas (all-but-one-64th rule, stipend), or fails softly when depth or balance forbids it. On return, unused gas, return data, and only on success logs, refunds, self-destructs and accessed sets, are merged into the caller, and at most the requested output is copied to memory.",
  [PR, IN], "every call tree, operand and remaining-gas value",
  NOEVM + "call trees are unbounded.",
  ["src/ethereum/*/vm/instructions/system.py", "src/ethereum/*/vm/__init__.py", "src/ethereum/*/vm/gas.py", "src/ethereum/*/utils/message.py"],
  [("call, callcode, delegatecall, staticcall, generic_call", "src/ethereum/*/vm/instructions/system.py"), ("incorporate_child_on_success/error", "src/ethereum/*/vm/__init__.py"), ("calculate_message_call_gas, max_message_call_gas", "src/ethereum/*/vm/gas.py")],
  ["the Message of the child and the parent's Evm after return"],
  REF + "", RN)

p("C14", "Contract creation follows the fork's address, collision and code rules",
  "A creation deploys at the address derived from creator and nonce (or creator, salt and init code), fails on an occupied address, bumps the creator's nonce exactly once, runs with the fork's gas, starts the new account with the fork's initial nonce and empty storage, and stores the returned code only if its size, first byte and deposit gas satisfy the fork. A failed creation leaves no code.",
  [PR, IN], "every creating program or transaction in every fork",
  NOEVM + "collision, size and gas boundaries are not sampled.",
  ["src/ethereum/*/vm/interpreter.py", "src/ethereum/*/vm/instructions/system.py", "src/ethereum/*/utils/address.py", "src/ethereum/*/utils/message.py"],
  [("process_create_message", "src/ethereum/*/vm/interpreter.py"), ("generic_create, create, create2", "src/ethereum/*/vm/instructions/system.py"), ("compute_contract_address, compute_create2_contract_address", "src/ethereum/*/utils/address.py")],
  ["code, nonce and storage at the created address; value pushed"], REF, RN)

p("C15", "Access lists, storage metering and transient storage are exact",
  "From the forks that define them on, an address or storage slot is charged as cold exactly on its first touch in the transaction (touches of failed frames are forgotten) and warm afterwards; storage writes pay and refund according to original, current and new value; transient storage is private to the contract, reverts with its frame and is empty at the start of every transaction.",
  [PR, HI], "every access sequence across frames within a transaction",
  NOEVM + "the result depends on the whole access history.",
  ["src/ethereum/*/vm/instructions/{storage,environment,system}.py", "src/ethereum/*/state.py", "src/ethereum/*/fork.py", "src/ethereum/*/utils/message.py"],
  [("accessed_addresses / accessed_storage_keys handling", "src/ethereum/*/vm/instructions/*.py"), ("sstore, get_storage_original, TransientStorage", "src/ethereum/*/vm/instructions/storage.py, state.py")],
  ["gas charged and refunds of account and storage accesses"], REF, RN)

p("C16", "Precompiles answer at their address, charge first and validate inputs",
  "Each fork exposes exactly its precompiled contracts at exactly their addresses; each charges the prescribed gas before computing, treats short input as zero-padded where specified, rejects malformed input in the specified way (failure or empty output), and returns the specified encoding of the result.",
  [IN, CF], "every input to every precompile in every fork",
  NOEVM + "only fixtures sample the precompiles.",
  ["src/ethereum/*/vm/precompiled_contracts/**/*.py", "src/ethereum/crypto/*.py"],
  [("PRE_COMPILED_CONTRACTS", "src/ethereum/*/vm/precompiled_contracts/mapping.py"), ("one function per precompile", "src/ethereum/*/vm/precompiled_contracts/")],
  ["output, gas and failure of a call to a precompile address"],
  "exhaustive precompile address table per fork; " + REF, RN)

p("C17", "Encodings are faithful and signing domains never overlap",
  "Transactions, receipts, accounts, headers and authorizations are encoded with exactly their consensus fields in consensus order, and decoding a typed payload accepts exactly the types of the fork and inverts the encoding. The message signed for each transaction type and for authorizations covers every field except the signature and carries a domain (type byte or chain id) that no other kind of message shares.",
  [IN], "every transaction, receipt, header and authorization",
  "Tests round-trip a few objects; domain separation and field coverage are statements over all pairs of objects.",
  ["src/ethereum/*/transactions.py", "src/ethereum/*/blocks.py", "src/ethereum/*/fork_types.py", "src/ethereum/*/vm/eoa_delegation.py"],
  [("encode/decode_transaction, signing_hash_*", "src/ethereum/*/transactions.py"), ("encode/decode_receipt", "src/ethereum/*/blocks.py"), ("recover_authority", "src/ethereum/*/vm/eoa_delegation.py")],
  ["bytes produced for hashing, signing and tries"],
  "record-layout, type-byte and signed-field tables (EIP-derived) over sibling encode, decode, receipt and signing functions; " + REF, RN)

p("C18", "Account delegation is applied, resolved and charged as specified",
  "From the fork that introduces set-code transactions on, each authorization takes effect only if its chain id, nonce, signature and authority's current code allow it, otherwise it is skipped without failing the transaction. A delegated account executes its delegate's code in its own context, resolved one level only, and every access pays for resolving it.",
  [IN, PR], "every authorization list and every call to a delegated account",
  NOEVM + "order and repetition inside the list matter.",
  ["src/ethereum/{prague,osaka}/vm/eoa_delegation.py", "src/ethereum/{prague,osaka}/vm/interpreter.py", "src/ethereum/{prague,osaka}/vm/instructions/system.py"],
  [("set_delegation, recover_authority, access_delegation", "src/ethereum/{prague,osaka}/vm/eoa_delegation.py")],
  ["code and nonce of authorities; code executed by calls"], REF, RN)

p("C19", "System calls, withdrawals and requests follow the fork",
  "In forks that define them, each block first runs the prescribed system calls with the prescribed caller, target, input and gas, credits every withdrawal exactly once in full after the transactions, and collects deposit, withdrawal and consolidation requests in order and under their type bytes; a block whose required system call fails or whose deposit logs are malformed is invalid. System calls and withdrawals consume no block gas.",
  [IN, HI], "every block body and every system-contract behaviour",
  NOEVM + "contract behaviour and log layouts are arbitrary.",
  ["src/ethereum/*/fork.py", "src/ethereum/{prague,osaka}/requests.py"],
  [("apply_body, process_system_transaction variants, process_withdrawals, process_general_purpose_requests", "src/ethereum/*/fork.py"), ("parse_deposit_requests, extract_deposit_data", "src/ethereum/{prague,osaka}/requests.py")],
  ["state, requests list and requests hash after a block"], REF, RN)

p("C20", "The state behaves as a map of accounts and its root depends on content only",
  "Reading an account, nonce, balance, code or slot returns the last value written to it and not rolled back; writing an absent or empty value deletes it; no write to one account or slot affects another. The root is a function of the resulting contents alone, with deleted and default entries indistinguishable from never-written ones and fork rules for empty accounts applied.",
  [HI, IN], "every sequence of state operations",
  "Two state tests exist and cover the optimized variant on two short sequences.",
  ["src/ethereum/*/state.py", "src/ethereum/*/trie.py"],
  [("get/set_account, get/set_storage, modify_state, destroy_*", "src/ethereum/*/state.py"), ("trie_set, trie_get, copy_trie, patricialize, root", "src/ethereum/*/trie.py")],
  ["values read back and state_root"],
  REF + "; ownership rule: only the state layer touches the tries and snapshots", RN)

p("C21", "Execution is deterministic and has no hidden inputs",
  "The result of executing a block or transaction depends only on the chain, the block and the fork: never on time, randomness, environment, process identity, hash order of sets, file or network access, or on state left behind by an earlier block. No constant or shared default is mutated by execution.",
  [SC, HI, CF], "every execution, in any process, order or repetition",
  "A hidden input shows only across runs; tests run once.",
  ["src/ethereum/**/*.py"],
  [("absence of effectful imports, module-level mutable state and order-sensitive set iteration", "src/ethereum/**/*.py")],
  ["state_transition"],
  "effect and provenance lints over the resolved call graph: forbidden sources, global mutation, unordered iteration feeding results, shared mutable defaults, unsound caches", "Covers every function under src/ethereum; a purely syntactic-resolution analysis, so reflection would escape it (none is used; its use is itself flagged).")

p("C22", "Forks are isolated, totally ordered and activate at one point",
  "Each fork's rules use only that fork's own definitions (apart from the one documented use of its predecessor's trie), so changing one fork cannot change another. Activation criteria order the forks totally and consistently, each block and timestamp selects exactly one active fork, and moving to a fork changes the chain only as prescribed (irregular state change, otherwise nothing).",
  [CF, HI], "every pair of forks and every block number and timestamp",
  "Fork selection tests cover a few criteria; isolation is a statement over all references.",
  ["src/ethereum/*/**/*.py", "src/ethereum/fork_criteria.py", "src/ethereum_spec_tools/forks.py"],
  [("relative imports inside each fork package", "src/ethereum/*/"), ("ForkCriteria ordering; FORK_CRITERIA constants", "src/ethereum/fork_criteria.py, src/ethereum/*/__init__.py"), ("Hardfork discovery", "src/ethereum_spec_tools/forks.py")],
  ["Hardfork.discover, ForkCriteria comparison, apply_fork"],
  "resolved cross-package reference (isolation) analysis and activation table; " + REF, RN)

p("C23", "Every error that is detected is raised",
  "Whenever code detects an invalid condition and constructs an error for it, that error is raised; no detected error is dropped, swallowed by an over-broad handler, or turned into a silent default, except where the rules say a failure is skipped.",
  [IN, FA], "every error path of the whole repository",
  "Error paths are not exercised; a dropped error is invisible until the bad input arrives.",
  ["src/**/*.py"],
  [("raise sites and exception handlers", "src/**/*.py")],
  ["the exception (or its absence) at each detection point"],
  "dropped-value lint on resolved exception classes; handler-scope rule against the reviewed list of handlers; unreachable-code rule", "All raise sites and handlers in the three packages are enumerated and counted.")

p("C24", "The transition and block-building tools apply the same rules as the chain",
  "For every fork and input, the transition tool executes the transactions, system calls, withdrawals, rewards and requests of a block in the same order and with the same rules as block execution, reports exactly the resulting roots, receipts, gas and rejected transactions, and a rejected transaction leaves no trace. The block builder and state-test runner encode and report what they were given.",
  [IN, CF], "every tool input, option and fork",
  "The tool tests need downloaded fixtures and are not stable offline.",
  ["src/ethereum_spec_tools/evm_tools/**/*.py"],
  [("T8N.run_state_test, run_blockchain_test, Result.update", "src/ethereum_spec_tools/evm_tools/t8n/"), ("B11R.build_block", "src/ethereum_spec_tools/evm_tools/b11r/"), ("StateTest", "src/ethereum_spec_tools/evm_tools/statetest/")],
  ["JSON written by the tools"], REF + "; block-order agreement rule between the tool's run and each fork's apply_body; dynamic-name resolution", RN)

p("C25", "Proof of work, difficulty, ommers and rewards are exact",
  "In proof-of-work forks a header is accepted only with a seal that meets its difficulty under the epoch's cache, difficulty follows the fork's adjustment and bomb, ommers are accepted only if at most two, distinct, recent, valid and not already included, and rewards are paid to the miner and each ommer's miner in the prescribed amounts. In proof-of-stake forks none of these apply.",
  [IN, HI], "every header, ommer set and ancestry",
  "Hashing tests cover fixed vectors for cache and mix; difficulty, ommer and reward logic is not executed.",
  ["src/ethereum/ethash.py", "src/ethereum/*/fork.py"],
  [("hashimoto, hashimoto_light, cache_size, dataset_size", "src/ethereum/ethash.py"), ("validate_proof_of_work, validate_ommers, pay_rewards, calculate_block_difficulty", "src/ethereum/*/fork.py")],
  ["acceptance of the header; balances of coinbases"], REF, RN)

p("C26", "Loading external data loses and invents nothing",
  "Genesis configurations, JSON fixtures, RPC blocks and hexadecimal values are turned into blocks, transactions and states field by field: every field of the target record is filled from its own source field with the right width and type, no field is silently defaulted where the source has it, and malformed values are refused.",
  [IN, CF], "every genesis file, fixture and RPC response",
  "Genesis tests load three known files; loaders run only on downloaded fixtures.",
  ["src/ethereum/genesis.py", "src/ethereum/utils/hexadecimal.py", "src/ethereum_spec_tools/evm_tools/loaders/*.py", "src/ethereum_spec_tools/sync.py"],
  [("add_genesis_block, get_genesis_configuration", "src/ethereum/genesis.py"), ("Load, TransactionLoad, ForkLoad", "src/ethereum_spec_tools/evm_tools/loaders/"), ("BlockDownloader, Sync", "src/ethereum_spec_tools/sync.py")],
  ["the constructed objects"],
  "resolution of every dynamically looked-up name and its call signature in every fork; " + REF, RN)

p("C27", "The optimized state and hashing are drop-in replacements",
  "Every operation of the database-backed state has the same observable behaviour as the plain state for every sequence of operations that execution performs, including nested snapshots, rollbacks, destroyed accounts, original values and roots, and the optimized proof-of-work check accepts exactly the same headers. The patches replace exactly the intended functions in the intended fork.",
  [HI, CF, FA], "every operation sequence in every fork",
  "Two short sequences are tested.",
  ["src/ethereum_optimized/*.py"],
  [("get_optimized_state_patches, monkey_patch", "src/ethereum_optimized/")],
  ["results of the state functions after patching"],
  REF + "; patch-agreement rule (signature of each patch against its target, unpatched readers of plain state fields)", RN)

p("C28", "Tracing only observes",
  "Installing, removing or changing a tracer never changes the outcome of execution: tracers do not modify the frame they are shown, and execution ignores anything they return. Every traced step reports the state at that point.",
  [PR, CF], "every program with every tracer configuration",
  "Would need running every program twice.",
  ["src/ethereum/trace.py", "src/ethereum_spec_tools/evm_tools/t8n/evm_trace/*.py", "src/ethereum/*/vm/interpreter.py"],
  [("evm_trace call sites; tracer classes", "src/ethereum/trace.py, src/ethereum_spec_tools/evm_tools/t8n/evm_trace/")],
  ["Evm before and after each tracer call"],
  "interprocedural alias and effect (taint) analysis of tracers; use analysis of every trace call site; " + REF, RN)

p("C29", "Base fee and blob fee markets follow their update rules",
  "The next block's base fee and excess blob gas are the prescribed functions of the parent's fields, the blob base fee is the prescribed exponential of excess blob gas, and each transaction is priced with exactly these. Bounds, targets, update fractions and the reserve-price rule are those of the fork.",
  [IN, HI], "every parent header and blob count",
  NOEVM + "rounding and boundary behaviour is over unbounded integers.",
  ["src/ethereum/*/fork.py", "src/ethereum/{cancun,prague,osaka}/vm/gas.py", "src/ethereum/utils/numeric.py"],
  [("calculate_base_fee_per_gas", "src/ethereum/*/fork.py"), ("calculate_excess_blob_gas, calculate_blob_gas_price, taylor_exponential", "src/ethereum/{cancun,prague,osaka}/vm/gas.py, src/ethereum/utils/numeric.py")],
  ["base_fee_per_gas, excess_blob_gas, fees paid"], REF, RN)

p("C30", "Maintenance tools report exactly the violations they define",
  "The lint, fork-cloning, patch and documentation tools act on exactly the definitions they are meant to: a lint reports a diagnostic if and only if its rule is broken, a cloned fork contains every file with exactly the intended substitutions, and a patch is carried to exactly the forks given.",
  [IN, CF], "every source tree, fork and option",
  "Tests cover one lint with small examples.",
  ["src/ethereum_spec_tools/{lint,new_fork,patch_tool,docc,forks}*"],
  [("Lint subclasses", "src/ethereum_spec_tools/lint/"), ("ForkCreator", "src/ethereum_spec_tools/new_fork.py")],
  ["diagnostics and files written"], REF, RN)

p("C31", "Only the last 256 block hashes are visible, and history stays bounded",
  "During execution exactly the hashes of the most recent 256 ancestors (fewer near genesis) are visible, each under its own number; any other number, including the current and future blocks, yields zero. The chain keeps enough recent blocks for this and no more.",
  [HI, PR], "every chain length and requested number",
  NOEVM + "needs chains longer than 256 blocks.",
  ["src/ethereum/*/fork.py", "src/ethereum/*/vm/instructions/block.py"],
  [("get_last_256_block_hashes, state_transition truncation", "src/ethereum/*/fork.py"), ("block_hash", "src/ethereum/*/vm/instructions/block.py")],
  ["value pushed by the block-hash instruction; BlockChain.blocks"], REF, RN)

p("C32", "Logs survive exactly the frames that succeed and reach receipt and bloom",
  "A log emitted by a frame appears in the transaction's receipt, in emission order with its address, topics and data, if and only if that frame and all its ancestors succeed. The bloom of a receipt and of the block contains exactly the bits of the addresses and topics of those logs, and the receipt carries the right status or root and cumulative gas.",
  [PR, HI], "every call tree and sequence of transactions",
  NOEVM + "depends on which frames fail.",
  ["src/ethereum/*/vm/instructions/log.py", "src/ethereum/*/bloom.py", "src/ethereum/*/vm/__init__.py", "src/ethereum/*/fork.py"],
  [("log_n", "src/ethereum/*/vm/instructions/log.py"), ("incorporate_child_on_success/error", "src/ethereum/*/vm/__init__.py"), ("logs_bloom, add_to_bloom, make_receipt", "src/ethereum/*/bloom.py, fork.py")],
  ["receipts and block bloom"], REF, RN)

NA = []
def na(id, title, statement, over, q, why, files, mech, observe, reason):
    p(id, title, statement, over, q, why, files, mech, observe, None, None)
    NA.append((id, reason))

na("C33", "Cryptographic primitives compute their mathematical functions",
  "Hashing, signature recovery, curve arithmetic, pairings, modular exponentiation and commitment verification return the mathematically defined result for every input.",
  [IN], "every input of every primitive", "Vectors sample a few points.",
  ["src/ethereum/crypto/*.py"], [("wrappers around external libraries", "src/ethereum/crypto/")],
  ["outputs of the primitives"],
  "The arithmetic is done by external libraries (pycryptodome, coincurve, py_ecc, cryptography) outside this source; the wrappers' argument checks and plumbing are decided under C16/C17, but functional correctness of field and curve arithmetic is a runtime-value property no static dataflow argument can bound.")
na("C34", "Execution terminates within resources bounded by gas",
  "Every transaction terminates, and time and memory used are bounded by a function of its gas limit.",
  [PR], "every program", "Worst-case programs are not enumerated.",
  ["src/ethereum/*/vm/interpreter.py"], [("gas metering", "src/ethereum/*/vm/")],
  ["wall time and memory"],
  "Termination and cost bounds depend on runtime quantities (gas left, operand sizes, interpreter cost per unit of gas); the static part, that every instruction charges before it works, is decided under C09.")
na("C35", "The executable rules agree with independent client implementations",
  "For every block, the specification accepts it with the same post-state as independently written clients.",
  [HI, PR], "every block", "Cross-client vectors are samples.",
  ["src/ethereum/**"], [("the whole specification", "src/ethereum/")], ["state_transition"],
  "No other client's source is in the repository or sandbox, so there is nothing to analyse on the other side; the reviewed reference rules used elsewhere stand in for the agreed protocol.")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps({
                "id": x["id"], "title": x["title"],
                "statement": x["statement"],
                "quantifier": {"over": x["over"], "text": x["q"]},
                "why_tests_cant": x["why"],
                "anchors": {"files": x["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                            "observe_at": x["observe"], "hook_needed": None},
            }) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py",
         "checks": [], "not_applicable": [{"property": a, "reason": b} for a, b in NA],
         "notes": "Static analysis only (Python ast); no hooks are needed in /repo. known_findings.txt records the genuine defects found, each repaired by a fix: commit."}
    for x in P:
        if x["tech"] is None: continue
        m["checks"].append({"property": x["id"],
            "quick_cmd": f"python3 check.py {x['id']} --tier quick",
            "thorough_cmd": f"python3 check.py {x['id']} --tier thorough",
            "technique": "static analysis: " + x["tech"], "level": "other",
            "level_note": x["note"]})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        n = x["statement"].count(". ") + 1
        assert n <= 3, (x["id"], n)
main()
