#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

NOTEST = "The C runtime has no unit tests at all, and the contract tests (which need an external mock chain and cannot run here) each run one fixed transaction without faults; "

p("P01", "Storage reads see the latest effective write; failed transactions leave none",
  "Every storage read made by a contract returns the value most recently written to that slot of that contract by a still-effective write, or zero, no matter in which representation (256-bit number or 32-byte word) slot and value were supplied and read. When a call frame or a whole transaction reverts or is aborted by the host at any point, none of its storage writes is ever visible again, and writes of a transaction that completed are never lost. No operation other than the storage writes the contract asked for changes storage.",
  ["histories", "crash_points", "fault_sequences"],
  "all histories of transactions over several contracts with nested calls, delegate calls, reverts, and a host failure or node crash placed at any host call",
  NOTEST + "no test mixes representations over a history, reverts after partial writes, or stops a transaction at an arbitrary host call.",
  ["stdlib/chain.c", "stdlib/hostapi.h", "src/yul2ir/instruction.rs"],
  [("storage load/store wrappers convert both representations to one big-endian slot and value", "stdlib/chain.c wrapper_sload_*, wrapper_sstore_*"),
   ("little-endian host entry points used by the optimised code paths", "stdlib/chain.c *_using_little_endian_hostapi")],
  [("contract storage", "slot to 32-byte value map per contract, owned by the host", "host storageLoad/storageStore")],
  ["host storage calls", "committed state after each transaction", "values returned to the contract"])

p("P02", "Transient storage lives for one transaction and is separate from storage",
  "A transient read returns the last still-effective transient write to that slot by the same contract within the current transaction, also across re-entrant calls, and zero otherwise. Transient values are dropped when the transaction ends, are rolled back together with a reverting frame, and never appear in, or come from, persistent storage.",
  ["histories", "crash_points", "fault_sequences"],
  "all transaction histories with nested and re-entrant calls, reverting frames and host failures",
  NOTEST + "the single transient-storage test stores and loads one small constant in one frame.",
  ["stdlib/chain.c", "stdlib/hostapi.h"],
  [("transient wrappers for both representations", "stdlib/chain.c wrapper_tload_*, wrapper_tstore_*")],
  None, ["host transient calls", "values returned to the contract", "transaction boundaries"])

p("P03", "Contract memory is a zero-initialised byte array across growth",
  "For any sequence of writes, reads, copies (including overlapping ones), hashes and bulk loads, every byte a contract reads from its memory equals the byte most recently written at that offset, or zero if none was. Growing the memory, at any moment and in either placement mode, neither moves, loses nor alters existing contents.",
  ["histories", "configurations", "fault_sequences"],
  "all operation sequences over offsets the runtime can address, in both memory placement modes, debug and optimised runtime builds, with memory growth interleaved at arbitrary points and allowed to fail",
  NOTEST + "no test grows memory beyond what is preallocated, copies overlapping ranges, or reads memory never written.",
  ["stdlib/evm_memory.c", "stdlib/chain.c", "stdlib/stdlib.c"],
  [("expansion before access", "stdlib/evm_memory.c evm_make_sure_memory"), ("two placements of the memory region", "stdlib/evm_memory.c __init_evm_heap"),
   ("store/load/copy wrappers", "stdlib/chain.c wrapper_mstore_*, wrapper_mload_*, wrapper_mcopy, wrapper_data_copy")],
  [("contract memory", "contiguous region [begin, end) in linear memory", "stdlib/evm_memory.c")],
  ["values read back", "data handed to the host (hash input, return data, log data, call input)"])

p("P04", "Resource exhaustion and host failure abort the transaction, never corrupt it",
  "If linear memory cannot be grown, an allocation overflows, or the host aborts execution in the middle of any operation, the transaction either still produces exactly the result it would have produced without the failure or is aborted with no effect. It never continues with damaged data or commits a partial result. After the failure, a fresh execution of the same contract works normally again.",
  ["fault_sequences", "crash_points", "histories"],
  "memory growth refused at any growth step, host abort at any host call, over arbitrary operation sequences and both runtime builds, followed by fault-free transactions",
  NOTEST + "no test limits memory or fails a host call.",
  ["stdlib/evm_memory.c", "stdlib/evm_memory.h", "stdlib/chain.c"],
  [("abort on failed growth", "stdlib/evm_memory.h __abort, evm_memory.c"), ("abort on failed working-buffer growth", "stdlib/chain.c memory_alloca_bytes32"),
   ("overflow check of the free-memory allocator", "stdlib/chain.c wrapper_allocate_memory")],
  None, ["transaction status", "committed state", "results of operations after the fault"])

p("P05", "Runtime working values, caches and contract memory never overlap",
  "Every 32-byte working value the runtime hands out stays unchanged until its owner overwrites it, for any number of values in one execution, whatever the contract does to its own memory, call data, return data or other working values. No runtime operation writes outside the result or memory range it was asked to write. Contract memory contents are likewise unaffected by working values being created.",
  ["histories", "fault_sequences", "configurations"],
  "all interleavings of working-value creation (far past the built-in pool), memory growth, loads, copies and calls, in both placement modes, with growth allowed to fail",
  NOTEST + "no test creates more working values than the built-in pool or checks neighbouring memory.",
  ["stdlib/chain.c", "stdlib/evm_memory.c"],
  [("pool then page-wise extension of working values", "stdlib/chain.c memory_alloca_bytes32"), ("shared constant zero word", "stdlib/chain.c wrapper_zero_bytes32")],
  [("working value pool", "static array followed by grown pages", "stdlib/chain.c")],
  ["contents of all outstanding working values and guard bytes around every operand"])

p("P06", "An external call's outcome and output reach the caller exactly",
  "For every call, delegate call and static call the callee receives exactly the caller's target, value, gas and input bytes; on success the caller sees success and the first bytes of the callee's output, limited to the shorter of output and requested length, with all other memory unchanged. On failure the caller either sees failure, or is itself reverted with the callee's revert data or a fixed error text; it never sees success, and never gains output the callee did not produce. A host-level fatal failure always reverts the caller.",
  ["histories", "fault_sequences", "inputs"],
  "all call trees over contracts and precompile addresses with arbitrary output lengths and requested lengths, callee success, revert, host-level fatal failure or host abort at any call",
  NOTEST + "the call tests use cooperative callees with exactly matching output size.",
  ["stdlib/chain.c", "stdlib/hostapi.h", "src/yul2ir/instruction.rs"],
  [("status and output handling", "stdlib/chain.c write_call_data"), ("call wrappers", "stdlib/chain.c wrapper_call_contract, wrapper_delegatecall, wrapper_staticcall"),
   ("precompile recognition", "stdlib/chain.c is_precompiled_contract")],
  None, ["arguments received by the host", "flag returned to the contract", "caller memory", "revert data"])

p("P07", "Contract creation is exact and all-or-nothing",
  "Creating a contract passes the host exactly the declared code, the remaining bytes as constructor arguments, the value and (for salted creation) the salt, and yields the new address as a clean 32-byte word. If creation fails for any reason the creating frame is reverted and neither code, balance nor any other effect of the attempt remains. Existing contracts are never altered by a creation.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of plain and salted creations with any code and argument lengths, constructors that succeed, revert or are aborted, and host refusal at any creation",
  NOTEST + "the create tests run one successful creation each.",
  ["stdlib/chain.c", "stdlib/hostapi.h"],
  [("split of code and constructor arguments by the 4-byte length prefix", "stdlib/chain.c wrapper_create, wrapper_create2"), ("revert on a non-zero host status", "stdlib/chain.c wrapper_create*")],
  None, ["arguments received by the host", "address word returned", "world state after failed creations"])

p("P08", "Immutable values are set once and then fixed for the contract's life",
  "An immutable read returns the value assigned to it during deployment, in every later transaction and frame, and zero if it was never assigned. A second assignment of the same immutable reverts and changes nothing, whatever value was stored first. A deployment that fails part-way leaves no immutable set.",
  ["histories", "crash_points", "fault_sequences"],
  "all histories of deployments and transactions assigning and reading several immutables, with host failures between the individual host calls of one assignment",
  NOTEST + "tests set each immutable once and read it in one later call.",
  ["stdlib/chain.c"],
  [("set-once marker slot next to the value slot", "stdlib/chain.c wrapper_setimmutable"), ("read", "stdlib/chain.c wrapper_loadimmutable")],
  None, ["values read", "revert on reassignment", "committed storage"])

p("P09", "Call data reads the transaction's input, zero-padded, in every frame",
  "In every frame, loading, copying, sizing and selector extraction of call data return exactly that frame's input bytes, with zeros beyond its end, for any offset and length, in any order and repetition. This holds equally for short and long inputs, and a nested or re-entrant frame's input is never confused with its caller's.",
  ["histories", "inputs", "schedules"],
  "all frames of all call trees, any input length (across every internal caching boundary), any offset and length the runtime can express, any order of reads",
  NOTEST + "tests read a few aligned offsets inside inputs of at most 100 bytes, and never past the end.",
  ["stdlib/chain.c"],
  [("size and content caches for short input", "stdlib/chain.c cachedCallDataSize, cachedCallDataCopy"), ("load/copy/selector wrappers", "stdlib/chain.c wrapper_calldata*")],
  [("cached input", "first 100 bytes of the frame's input", "stdlib/chain.c static buffers")],
  ["values returned", "memory after bulk copies"])

p("P10", "Environment queries report the current frame's and block's values exactly",
  "Caller, own address, origin, coinbase, call value, balances, chain id, gas price, fees, block number, block time, gas and block hash queries return exactly the value the host defines for the current frame at that moment, as a clean number or left-padded 32-byte word. A query writes nothing but its own result, and values of one frame or block never leak into another.",
  ["histories", "schedules", "configurations"],
  "all call trees and block sequences (clock and block advancing arbitrarily between transactions, balances moving during them), all address and amount values, result buffers holding arbitrary earlier contents",
  NOTEST + "tests compare each query once with one constant of the mock chain.",
  ["stdlib/chain.c", "stdlib/hostapi.h"],
  [("left padding of 20-byte results", "stdlib/chain.c clear_first_12_bytes and callers"), ("big-endian to number conversion", "stdlib/chain.c u256_from_big_endian_bytes")],
  None, ["values returned", "guard bytes around results"])

p("P11", "Events are recorded exactly, in order, and only if their frame survives",
  "Each event a contract emits appears in the log with exactly its data bytes and its topics in order, attributed to the emitting contract, in emission order. Events of reverted or aborted frames and transactions do not appear, and no other event does.",
  ["histories", "crash_points", "fault_sequences"],
  "all histories with zero to four topics, any data range, nested calls, reverting frames and host failures",
  NOTEST + "tests check that emitting does not fail, not what was recorded after reverts.",
  ["stdlib/chain.c", "stdlib/hostapi.h"],
  [("log wrappers", "stdlib/chain.c wrapper_log0..wrapper_log4")],
  None, ["log records received by the host and kept after commit"])

p("P12", "Return and revert end the frame with exactly the requested data",
  "Returning, stopping, reverting, destroying the contract or executing the invalid instruction ends the frame at that point: no later operation of the frame has any effect. The data delivered to the caller is exactly the requested memory range, and the outcome (success with effects kept, or failure with effects undone) is the one requested.",
  ["histories", "fault_sequences"],
  "all frames of all call trees, ending by each kind of exit at any point with any data range, including ranges never written",
  NOTEST + "tests check one fixed return value per contract.",
  ["stdlib/chain.c", "stdlib/hostapi.h"],
  [("exit wrappers", "stdlib/chain.c wrapper_return, wrapper_revert, wrapper_stop, wrapper_selfdestruct, wrapper_invalid")],
  None, ["frame status and data seen by the caller", "effects kept or undone"])

p("P13", "The built-in token transfer equals the reference transfer and conserves supply",
  "The specialised token transfer has exactly the effect of the reference transfer: same balances, same event, and the same error with the same data for zero addresses and insufficient balance. Over any history of transfers, including self-transfers, overlapping accounts and transfers cut short by a host failure at any point, balances change only by committed transfers and their sum stays constant.",
  ["histories", "crash_points", "fault_sequences"],
  "all histories of transfers with arbitrary accounts and amounts, with reverts and host failures between any two host calls of a transfer",
  NOTEST + "the transfer tests run a handful of successful transfers.",
  ["stdlib/chain.c", "src/yul2ir/transform.rs"],
  [("specialised transfer", "stdlib/chain.c wrapper_optimized_erc20_fun_transfer"), ("recognition of the reference pattern", "src/yul2ir/transform.rs")],
  None, ["committed balances", "events", "revert data"])

p("P14", "Return data and code introspection deliver exactly the selected bytes",
  "Copying return data, the contract's own code, another account's code, deployment arguments or an embedded data section into memory delivers exactly the selected bytes and leaves all other memory unchanged; sizes and hashes agree with what is copied. Return data always belongs to the most recent completed call of the current frame, also after failed, nested and re-entrant calls.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of calls (succeeding, failing, aborted) and copies with any offsets and lengths within what exists, in deployment and normal frames",
  NOTEST + "tests copy one full return value after one successful call.",
  ["stdlib/chain.c"],
  [("copy wrappers", "stdlib/chain.c wrapper_returndata_copy, wrapper_codecopy, wrapper_extcode_copy, wrapper_data_copy"), ("sizes", "stdlib/chain.c wrapper_returndata_size, wrapper_current_contract_code_size, wrapper_extcode_size")],
  None, ["memory after copies", "sizes and hashes returned"])

p("P15", "Frames of the same contract are isolated from each other",
  "Each call frame of a contract starts from pristine runtime state: memory contents, caches, working values, free-memory pointer and deployment flag of one frame are never visible in another frame of the same or another contract, however calls nest and re-enter. When a nested frame ends, normally or not, the caller's own state is exactly what it was, apart from the output range it asked for. Running the start-up routine again does not disturb a frame that is already running.",
  ["histories", "schedules", "fault_sequences"],
  "all re-entrant call trees with state inspected before, between and after nested frames, with nested frames succeeding, reverting or aborted",
  NOTEST + "no test re-enters a contract.",
  ["stdlib/evm_memory.c", "stdlib/chain.c"],
  [("idempotent start-up", "stdlib/evm_memory.c __init_evm_heap"), ("static per-instance state", "stdlib/chain.c static caches, flags, pools")],
  None, ["all values read in every frame"])

p("P16", "Free-memory allocation hands out disjoint, stable regions",
  "Successive allocations from a contract's free-memory area return regions that start where the previous free area began, are at least as large as requested, are rounded to whole words and never overlap each other, for any sizes including zero. An allocation that cannot be represented aborts the transaction instead of returning a region.",
  ["histories", "fault_sequences"],
  "all sequences of allocations of any size mixed with explicit moves of the free pointer and memory use",
  NOTEST + "tests allocate one or two small buffers.",
  ["stdlib/chain.c", "src/yul2ir/transform.rs"],
  [("free pointer and allocator", "stdlib/chain.c wrapper_allocate_memory, wrapper_set_memptr_global")],
  [("free pointer", "start of the free area", "stdlib/chain.c evm_memptr_global")],
  ["returned offsets", "contents of allocated regions"])

p("P20", "A compiled contract behaves like the EVM contract it was compiled from",
  "For every accepted source program and every history of deployments and transactions, the compiled contract produces the same outcome, return or revert data, events, storage and calls as executing the source under EVM semantics, for arithmetic, comparisons, control flow, functions, scoping, memory, storage and call operations. This includes histories in which callees fail or the host aborts execution part-way.",
  ["programs", "histories", "fault_sequences"],
  "all programs of the supported language and all transaction histories with callee failures and host aborts",
  "The end-to-end tests are fixed programs with fixed inputs and cannot even be built without the external LLVM binding; none compares against an independent executable semantics.",
  ["src/yul.lalrpop", "src/yul2ir/transform.rs", "src/yul2ir/instruction.rs", "src/yul2ir/context.rs", "src/yul2ir/infer.rs", "src/yul2ir/var_scope.rs", "stdlib/chain.c", "stdlib/chain_math.c"],
  [("parsing", "src/yul.lalrpop"), ("lowering of statements and expressions", "src/yul2ir/transform.rs"), ("lowering of built-ins", "src/yul2ir/instruction.rs"), ("runtime", "stdlib/*.c")],
  None, ["transaction status and data", "events", "storage", "calls received by other contracts"])

p("P21", "Compiler options never change what a contract does",
  "Compiling the same program with different optimisation levels, debug or release mode, or with the extra optimisers switched on or off yields contracts with the same observable behaviour for every history of transactions, including failing ones.",
  ["programs", "configurations", "histories"],
  "all programs and histories, across all combinations of the command-line options that affect code generation",
  "Tests compile each program with one option set and never compare option sets.",
  ["src/main.rs", "src/yul2ir/config.rs", "src/yul2ir/context.rs", "src/yul2ir/transform.rs", "src/yul2ir/infer.rs", "src/yul2ir/function_deduplicator.rs"],
  [("option handling", "src/yul2ir/config.rs"), ("extra optimisers", "src/yul2ir/transform.rs, src/yul2ir/instruction.rs, src/yul2ir/function_deduplicator.rs")],
  None, ["transaction status and data", "events", "storage"])

p("P22", "Compilation is deterministic",
  "Compiling the same program with the same options always yields the same contract code, independent of process, working directory, hash seeds, temporary names and of what was compiled before.",
  ["programs", "configurations", "schedules"],
  "all programs, repeated compilation in differently seeded processes and environments",
  "No test compiles anything twice; the nondeterminism (randomised hash tables, random temporary names) differs per process.",
  ["src/main.rs", "src/yul2ir/context.rs", "src/yul2ir/transform.rs", "src/yul2ir/wasm.rs"],
  [("ordered tables for everything emitted", "src/yul2ir/context.rs, src/yul2ir/transform.rs")],
  None, ["bytes of the generated code"])

p("P23", "A failed compilation never looks like a successful one",
  "If the input cannot be read, is not a valid program, or any output cannot be written completely, the compiler reports failure and exits unsuccessfully. After success every output it promises is complete and they all describe the same contract.",
  ["fault_sequences", "crash_points", "inputs"],
  "all inputs, with file-system errors (missing or unreadable input, full disk, failing or partial writes) at any file operation",
  "No test exercises the command-line program at all.",
  ["src/main.rs"],
  [("file handling and error exits", "src/main.rs")],
  None, ["exit status", "output files"])

p("P30", "The parser builds the tree the grammar prescribes and rejects everything else",
  "Every valid source text yields exactly one tree, whose structure follows the language grammar; every text outside the grammar is rejected with an error.",
  ["inputs"], "all source texts", "Tests parse a few programs.",
  ["src/yul.lalrpop", "src/yul2ir/ast.rs"], [("grammar", "src/yul.lalrpop")])

p("P31", "Comment removal changes nothing but comments",
  "Removing comments keeps every character outside comments, including comment-like text within strings, and removes all comments.",
  ["inputs"], "all source texts", "Two examples are tested.",
  ["src/yul2ir/utils.rs"], [("comment scanner", "src/yul2ir/utils.rs")])

p("P32", "256-bit word primitives compute the EVM operation in either representation",
  "Each comparison, bitwise, shift, addition, exponentiation and sign-extension primitive returns exactly the EVM result for all operands, in the number and in the word representation.",
  ["inputs"], "all operand values", "Tests try a handful of operands.",
  ["stdlib/chain_math.c", "stdlib/chain.c"], [("word primitives", "stdlib/chain_math.c")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
