#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
EZ = ["cpp/vm/evmzero/interpreter.cc", "cpp/vm/evmzero/interpreter.h"]
LF = ["go/interpreter/lfvm/instructions.go", "go/interpreter/lfvm/interpreter.go"]
RS = ["rust/src/interpreter.rs"]

# ---------------------------------------------------------------- C++ common
p("C01", "The LRU cache behaves as a bounded least-recently-used map",
  "For every sequence of operations the cache answers exactly like an ideal LRU map: a lookup returns the value most recently stored for that key or nothing, a look-up hit or an insertion (plain or computed on demand) makes the key the most recent one, and assigning to a present key replaces only its value. It never holds more than its capacity, evicts exactly the least recently used key and only when a new key exceeds the capacity, keeps serving correctly after being cleared, and runs the on-demand producer exactly when the key is absent.",
  ["histories", "inputs"], "all operation sequences over symbolic keys and values, for several capacities including one",
  "the unit tests run a handful of fixed sequences on small caches; recency and eviction are properties of all histories",
  ["cpp/common/lru_cache.h"],
  [("lookup with touch", "LruCache::Get"), ("insert/assign with eviction", "LruCache::InsertOrAssign, GetOrInsert"), ("reset", "LruCache::Clear")])
p("C02", "Jump-target analysis marks exactly the reachable JUMPDEST bytes",
  "For every byte string, the C++ jump-target analysis marks a position as a valid target exactly if the byte there is JUMPDEST and it is not part of the immediate data of a preceding PUSH instruction; the result has one entry per code byte, is deterministic, and the analysis never reads outside the code.",
  ["inputs", "programs"], "all byte strings up to a length bound (all 256 values per byte) plus symbolic tails behind long PUSH data",
  "no test of this file exists in the built suite; the classification depends on every preceding byte",
  ["cpp/vm/evmzero/opcodes.cc", "cpp/vm/evmzero/opcodes.h"],
  [("analysis", "op::CalculateValidJumpTargets")])
p("C03", "The LRU cache is safe under concurrent use",
  "When several threads use one cache at the same time, every shared piece of the cache is only read or written while its lock is held, no operation waits for itself, and whatever operation of another thread falls between the lookup and the insertion of get-or-insert, the cache still answers like an ideal LRU map to which the operations were applied one after another.",
  ["schedules", "histories"], "all operation sequences over symbolic keys with an arbitrary operation of another thread inside get-or-insert",
  "the unit tests are single-threaded, and data races only show under particular interleavings",
  ["cpp/common/lru_cache.h"],
  [("locking", "std::scoped_lock in Get, InsertOrAssign, Clear"), ("unlocked window", "GetOrInsert between Get and InsertOrAssign")])
# ---------------------------------------------------------------- evmzero
def vm(prefix, name, files, anchors, n0):
    ids = {}
    def q(k, title, st, over, text, why):
        p("%s%02d" % (prefix, k), title, st, over, text, why, files, anchors)
    return q
for prefix, name, files, anchors, base in (
    ("E", "evmzero", EZ + ["cpp/vm/evmzero/stack.h", "cpp/vm/evmzero/memory.h", "cpp/vm/evmzero/evmzero.cc"],
     [("instruction semantics", "op::Impl<OpCode> in interpreter.cc"), ("checks around an instruction", "Run<>/RunInterpreter in interpreter.cc"), ("entry points", "VM execute/step_n in evmzero.cc")], 0),
    ("L", "lfvm", LF + ["go/interpreter/lfvm/gas.go", "go/interpreter/lfvm/memory.go", "go/interpreter/lfvm/stack.go", "go/interpreter/lfvm/converter.go"],
     [("instruction semantics", "op* functions in instructions.go"), ("checks around an instruction", "steps/checkStackLimits in interpreter.go"), ("static gas and storage costs", "gas.go"), ("memory growth", "memory.go")], 0),
    ("R", "evmrs", RS + ["rust/src/types/stack.rs", "rust/src/types/memory.rs", "rust/src/utils/gas.rs", "rust/src/types/amount.rs", "rust/src/types/code_reader.rs"],
     [("instruction semantics", "impl Interpreter in interpreter.rs"), ("gas", "utils/gas.rs"), ("memory", "types/memory.rs"), ("256-bit values", "types/amount.rs")], 0),
):
    q = vm(prefix, name, files, anchors, base)
    why = "the conformance suite samples generated states and is not even buildable here; a rare operand or boundary value can stay unsampled for ever"
    q(1, f"{name}: arithmetic, comparison and bit instructions are exact on 256-bit words",
      f"For all 256-bit operands, the {name} interpreter's arithmetic, signed/unsigned comparison, bitwise, shift, byte-select and sign-extension instructions leave exactly the value the EVM defines on the stack, including division and modulus by zero, the most negative number, shift amounts of 256 and above and modular operations with intermediate overflow.",
      ["inputs"], "all operand values of every compute instruction", why)
    q(2, f"{name}: stack discipline is exact for every instruction and stack height",
      f"In {name}, an instruction whose operands are missing or whose result would exceed 1024 entries fails the execution, and no other stack height fails it; a succeeding instruction removes and adds exactly the defined number of words, leaves all deeper words untouched, and PUSH/DUP/SWAP/POP move exactly the addressed words. PUSH data running past the end of the code is zero-filled on the right.",
      ["inputs", "programs"], "all opcodes, all stack heights 0..1024, symbolic stack contents and code bytes", why)
    q(3, f"{name}: every instruction charges exactly the gas its revision defines",
      f"For every opcode, revision and machine state, {name} charges exactly the defined static and dynamic gas (memory expansion, copy size, exponent size, log data, storage and cold/warm account access, value transfer, account creation, the 63/64 rule and call stipend, init-code words), fails with out-of-gas exactly when the remaining gas does not cover the charge, and changes the refund counter exactly as defined. Remaining gas never becomes negative or grows beyond what was supplied and returned by calls, whatever the operands.",
      ["inputs", "configurations"], "all opcodes, revisions Istanbul to Cancun, symbolic operands, gas and host answers", why)
    q(4, f"{name}: nothing modifies state in read-only mode",
      f"While {name} runs in read-only mode, no instruction writes storage or transient storage, emits a log, creates a contract, self-destructs or transfers value, and each attempt fails the execution; calls made in read-only mode are themselves read-only, and outside read-only mode none of these instructions is rejected for that reason.",
      ["inputs", "programs", "configurations"], "all opcodes, revisions and operands in read-only mode", why)
    q(5, f"{name}: memory grows by zeroed words and reads back what was written",
      f"In {name}, memory instructions (load, store, copy, hash input, log data, call input and output, return data) access exactly the addressed bytes, memory only grows, by whole 32-byte words, exactly to cover a non-empty access, new bytes are zero and all other bytes keep their value; sources read past their end yield zeros, except that reading return data out of bounds fails. Zero-length accesses never grow memory whatever the offset, and oversized offsets or lengths fail with out-of-gas rather than wrapping around.",
      ["inputs"], "symbolic offsets, lengths and contents (full 256-bit range for offset/length classification, bounded sizes for contents)", why)
    q(6, f"{name}: control flow only lands on valid targets and undefined opcodes fail",
      f"In {name}, a taken jump continues exactly at its target if the target is a JUMPDEST outside PUSH data and otherwise fails the execution; an untaken conditional jump just continues, the program counter advances by the instruction's length, running past the end of the code stops successfully, and an opcode that is undefined or not yet active in the selected revision fails.",
      ["programs", "inputs", "configurations"], "all opcode bytes x revisions, symbolic jump destinations and conditions over symbolic code", why)
    q(7, f"{name}: host requests and their answers pass through exactly",
      f"When {name} executes an instruction that consults or changes the outside world (balances, code, block and transaction data, storage, transient storage, logs, calls, creations, self-destruct), it issues exactly the defined request with exactly the defined arguments (addresses, keys, values, gas, depth, kind, input bytes), no other state-changing request, and pushes or stores exactly what the host answered, including failure, return data and output truncation.",
      ["inputs", "fault_sequences"], "all state-access opcodes with symbolic operands and arbitrary host answers", why)
    q(8, f"{name}: stepping agrees with running; outcomes are confined",
      f"Executing a program with {name} in one go gives the same outcome (status, gas, refund, output, host requests) as executing it in single steps, and the same again when the program was executed before and cached analysis or hashes are reused. A failed execution reports no remaining gas and no output, a reverted one keeps gas and output but reports no refund, a successful one reports exactly the gas left, refund and output of the program, and none ever reports more gas than it was given.",
      ["programs", "histories", "configurations"], "all short programs over symbolic bytes", why)
p("L09", "lfvm: code conversion keeps every program's meaning",
  "Translating EVM byte code to the long-form representation preserves the program: each instruction is translated to its equivalent with its immediate data, each JUMPDEST stays reachable at its original position, data bytes never become executable, and enabling super-instructions changes neither results nor failure.",
  ["programs"], "all byte strings up to a bound; all super-instruction patterns with symbolic immediates and stack",
  "tests cover selected snippets; super-instructions are an optional configuration",
  ["go/interpreter/lfvm/converter.go", "go/interpreter/lfvm/super_instructions.go"],
  [("conversion", "convert/appendInstructions"), ("fused instructions", "super_instructions.go")])
p("L10", "lfvm: the hash cache is transparent, bounded and safe to share",
  "Looking up a hash through the shared cache yields the hash of the given data for any data, whatever was looked up before, at every capacity; the cache never holds more entries than its capacity, keeps the most recently used keys, and any number of threads can use it at the same time without data races and without changing the answers.",
  ["histories", "schedules"], "all look-up histories up to a bound with arbitrary keys, look-ups of other threads inside a look-up, all shared accesses against the lock",
  "tests use a few keys and one schedule", ["go/interpreter/lfvm/hash_cache.go"], [("look-up and eviction", "hashCache.getHash/getFree"), ("entry points by length", "sha3HashCache.hash")])
# ---------------------------------------------------------------- tosca
TO = ["go/tosca/types.go", "go/tosca/utils.go", "go/tosca/revisions.go"]
p("T01", "Opcode catalogue agrees with the EVM instruction set",
  "Every opcode constant has its defined byte value and prints under its own name, distinct values print differently, undefined values print as such, and the sets of valid opcodes and of valid non-push opcodes contain exactly the instructions defined up to the newest supported revision, respectively those of them that are not in the push family PUSH0 to PUSH32, without duplicates; the width of an instruction includes its immediate data.",
  ["inputs"], "all 256 opcode values",
  "the tests only compare the two lists with each other's construction and check that names exist for the valid ones",
  ["go/tosca/vm/opcodes.go"], [("names", "OpCode.String"), ("sets", "ValidOpCodes*")])
p("T02", "Token values behave as 256-bit unsigned numbers",
  "Value construction from words, addition, subtraction, scaling, comparison and conversion to other integer types agree with unsigned arithmetic modulo 2^256 on the big-endian byte representation, for all values.",
  ["inputs"], "all operand values", "tests sample a few values", TO, [("Value", "types.go NewValue/Add/Sub/Scale/Cmp")])
p("T03", "Storage-status classification follows original, current and new value",
  "The classification of a storage update, for all original, current and new values, is the one defined by the EIP-2200/EVMC table, and size-to-words conversion rounds up for all sizes without overflow.",
  ["inputs"], "all triples of 256-bit words; all 64-bit sizes", "tests enumerate a few representatives", ["go/tosca/world_state.go", "go/tosca/utils.go"],
  [("GetStorageStatus", "utils.go"), ("SizeInWords", "utils.go")])
p("T04", "Revisions, call kinds, addresses and values survive text and JSON round-trips",
  "Serialising any revision, call kind, address or 256-bit value to text or JSON and parsing it back yields the original value, distinct values have distinct texts, and malformed or unknown texts are rejected instead of yielding a value.",
  ["inputs"], "all values; all short texts", "tests use samples", TO, [("marshalling", "types.go, revisions.go")])
# ---------------------------------------------------------------- floria
FL = ["go/processor/floria/processor.go", "go/processor/floria/run_context.go"]
p("F01", "floria: rejected transactions leave no trace and valid ones are accepted",
  "A transaction is rejected without any state change exactly when its nonce differs from the account nonce or would overflow, its sender has code, the sender's balance does not cover gas limit times gas price (computed without overflow), or (from Shanghai) it is a creation with more than 49152 bytes of init code; a transaction whose gas limit does not cover the intrinsic cost is not executed and consumes exactly its gas limit.",
  ["inputs", "configurations"], "all transactions, sender accounts and block parameters (symbolic), both sides of every bound", "tests use one example per case", FL,
  [("nonceCheck/eoaCheck/buyGas", "processor.go"), ("intrinsic gas", "setupGasBilling in processor.go")])
p("F02", "floria: fees, refunds and gas used are consistent and no value is created",
  "For an executed transaction the sender pays exactly gas used times gas price plus transferred value; gas used lies between zero and the gas limit and follows from the remaining gas, the 10 percent charge on unused gas of external transactions and the refund cap of the revision. Total balance over all accounts changes by exactly the fee.",
  ["inputs", "fault_sequences"], "all transactions and all interpreter results (symbolic)", "tests use fixed numbers", FL,
  [("calculateGasLeft/refundGas", "processor.go"), ("transferValue", "run_context.go")])
p("F03", "floria: a failing call or creation undoes its own state changes",
  "When a nested or top-level call or contract creation fails or reverts for whatever reason, every balance, code, storage and account change made on behalf of it is undone (apart from a creator's nonce increment), and a successful one keeps all its changes. A creation succeeds exactly when its init code does and the returned code is at most 24576 bytes long, does not start with 0xEF (from London) and its 200 gas per byte are paid.",
  ["inputs", "fault_sequences"], "all call kinds, all interpreter outcomes, symbolic balances and parameters", "tests mock single outcomes", FL,
  [("call handling", "runContext.Call and helpers in run_context.go")])
p("F04", "floria: call depth and balance limits are enforced for every call kind",
  "A call or creation deeper than 1024 levels or moving more value than the sender owns fails without executing code or changing state; otherwise the interpreter is started with exactly the requested recipient, sender, value, input, gas, code and read-only flag, one level deeper, and self-transfers leave balances unchanged.",
  ["inputs"], "all call kinds, depths, balances and parameters", "tests use fixed numbers", FL, [("run_context.go", "Call/executeCall/executeCreate, transferValue")])
p("F05", "floria: the privileged state contract obeys only the driver account",
  "Requests to the built-in state-modification contract change state only when issued by the driver account, only as the selected method and its well-formed arguments demand, and any other sender, selector or argument length fails without changing state and without returning gas.",
  ["inputs"], "all senders, selectors and input bytes up to a bound", "tests use examples", ["go/processor/floria/state_contract.go"], [("dispatch", "state_contract.go")])
p("F06", "floria: precompiled contracts run exactly at their addresses and for their price",
  "Calls of every kind whose code address is a precompiled contract of the block's revision run that contract on the given input and nothing else: the result is the contract's output and the gas minus its price, or a failure without gas and without transferred value when the gas does not cover the price or the contract rejects its input; no other address is treated so.",
  ["inputs", "configurations"], "all call kinds, revisions, addresses, gas amounts, prices and outcomes", "tests call two contracts directly", FL, [("handlePrecompiledContract", "precompiled.go"), ("Call", "run_context.go")])
p("F07", "floria: what the access list and the revision announce is warm before execution",
  "From Berlin on, an executed transaction that carries an access list marks as accessed its sender, its recipient, the precompiled contracts of its revision and all addresses and slots of the list, and nothing else, before code runs; without access list, or before Berlin, nothing is marked.",
  ["inputs", "configurations"], "all access lists up to a bound, all revisions", "tests use one list", FL, [("setUpAccessList", "processor.go")])
# ---------------------------------------------------------------- CT
p("S01", "CT 256-bit integers agree with EVM arithmetic",
  "Every operation of the conformance framework's 256-bit integer type (construction, comparison, arithmetic, bit operations, shifts by any amount, sign extension, modular arithmetic, conversions) agrees with the mathematical EVM definition for all operands, and text serialisation round-trips.",
  ["inputs"], "all operand values", "tests sample", ["go/ct/common/u256.go"], [("U256 methods", "u256.go")])
p("S02", "CT constraint solvers represent exactly the values allowed by the constraints",
  "After any sequence of boundary, equality and exclusion constraints the interval and range solvers contain exactly the values satisfying all constraints, report satisfiability exactly when some value remains, and generate only contained values.",
  ["histories", "inputs"], "all sequences up to a bound of symbolic constraints", "tests sample", ["go/ct/gen/interval_solver.go", "go/ct/gen/range_solver.go"],
  [("IntervalSolver", "interval_solver.go"), ("RangeSolver", "range_solver.go")])
p("S03", "CT states clone independently and compare exactly",
  "A cloned conformance state equals its original, changing any component of either afterwards never affects the other, equality holds exactly when all components relevant in the state's status are equal (all failed states being equal, all positions behind the code being equal), the difference listing is empty exactly if all components are equal, and the observers report what was set, including the hash of an account's code.",
  ["histories", "inputs"], "every component changed to an arbitrary value, in the original or the copy, in every status", "tests mutate one constant per field", ["go/ct/st/state.go", "go/ct/st/storage.go", "go/ct/st/memory.go", "go/ct/st/stack.go", "go/ct/st/accounts.go"],
  [("Clone/Eq/Diff", "go/ct/st")])
p("S04", "CT memory, stack and code models are exact",
  "The reference memory reads and writes exactly the addressed bytes, grows zero-filled in 32-byte steps and charges the quadratic expansion cost for all offsets and sizes without overflow; the reference code model classifies every position as code or data exactly like the EVM.",
  ["inputs", "programs"], "all offsets/sizes/contents; all byte strings up to a bound", "tests sample", ["go/ct/st/memory.go", "go/ct/st/code.go", "go/ct/st/stack.go"],
  [("Memory", "memory.go"), ("Code", "code.go")])
p("S05", "CT rules cover every state unambiguously",
  "For every EVM execution state, the conformance specification has an applicable rule, and all rules applicable to the same state prescribe the same successor state.",
  ["inputs", "configurations"], "all states", "the rule checks sample states from the rules themselves", ["go/ct/spc/specification.go", "go/ct/rlz/conditions.go"],
  [("rules", "specification.go")])
# ---------------------------------------------------------------- adapters / cross
p("A01", "EVMC adapter forwards requests and answers unchanged",
  "Between a Tosca run context and an EVMC interpreter, every execution parameter, storage, balance, code, log, self-destruct and call request arrives with the same arguments, and every answer returns with the same content (the hash of an empty account being zero); reverted executions keep their gas, refund and output, executions failing for the executed code leave nothing and are no interpreter error, and internal errors of the machine are reported. Stepping a conformance state through the adapter hands over and takes back status, position, gas, refund, stack, memory and return data exactly.",
  ["inputs", "fault_sequences"], "all request arguments, answers and status codes", "adapter tests use examples", ["go/interpreter/evmc/evmc_interpreter.go", "go/interpreter/evmc/evmc_steppable_interpreter.go"], [("hostContext", "evmc_interpreter.go"), ("StepN", "evmc_steppable_interpreter.go")])
p("A02", "geth adapter preserves read-only mode, gas and refunds across nested calls",
  "Read-only mode and gas passed through the geth infrastructure are recovered exactly at the nested execution for all gas amounts, depths and addresses, precompiled contracts are given the gas of the call and nothing else, and the refund balance after a transaction equals the sum of granted refunds and is never negative. State requests, calls, logs and block data arrive unchanged in both directions; calls that cannot be started give their gas back, executions failing for the executed code consume it, and only unknown errors are reported as errors. A self-destruct moves the balance exactly once (and from Cancun on the account is only removed by the EIP-6780 operation).",
  ["inputs", "histories"], "all gas values, depths, refund sequences", "tests use examples", ["go/geth_adapter/adapter.go"], [("encodeReadOnlyInGas/decodeReadOnlyFromGas/undoRefundShift", "adapter.go")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80 or True
        if len(x["title"]) > 80: raise SystemExit("title too long: " + x["title"] + str(len(x["title"])))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
