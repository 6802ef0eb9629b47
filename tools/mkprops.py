#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one line per property)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or [], "hook_needed": None}})
PX = "pyee/pyexec/"
WIRE = "messages written to the executor socket (msgpack [id, payload])"

prop("C01", "Read-only executions never modify chain state",
  """While the executor runs an invocation the node marked read-only, or runs a method its contract declares
  read-only, it never asks the node to write or delete state and never asks it to record an event; in a read-only
  invocation it never asks the node to change the fee share either. A contract that attempts to write or delete
  state or to record an event there gets an error.""",
  ["programs", "inputs", "histories"],
  "every contract method body, every storage/event/fee API, nested or not, both read-only sources",
  "No test drives an invocation through the executor at all; the tests cover container classes on a fake database and the step counter.",
  [PX+"ipc/proxy.py", PX+"database/db.py", PX+"iconscore/icon_score_context.py", PX+"iconscore/icon_score_eventlog.py", PX+"iconscore/icon_score_base.py", PX+"pyexec.py"],
  [("writability test on context", PX+"database/db.py:_is_db_writable_on_context"), ("read-only latch of the connection", PX+"ipc/proxy.py:set_value/set_fee_proportion/send_event"), ("context.readonly", PX+"iconscore/icon_score_context.py")],
  [WIRE])
prop("C02", "A nested call gives the caller its own execution context back",
  """When a contract calls another contract and the node runs a callee (or inspects a contract) in this same executor
  during that call, then however the nested request ends, the caller resumes with its own sender, value, transaction,
  block, owner, step account and read-only mode. Nothing the callee did to its own context is visible in the caller's.""",
  ["programs", "histories", "fault_sequences"],
  "every nesting depth, every way a nested invocation can end (value, contract error, interpreter-exit exception, out of steps, failure while settling)",
  "Tests never nest invocations.",
  [PX+"service_engine.py", PX+"iconscore/icon_score_context.py", PX+"ipc/proxy.py", PX+"pyexec.py"],
  [("context stack", PX+"iconscore/icon_score_context.py:ContextContainer"), ("read-only stack", PX+"ipc/proxy.py:__handle_invoke")],
  [WIRE, "IconScoreBase.msg/tx/block, icx"])
prop("C03", "Every request gets exactly one reply and the executor keeps serving",
  """Every execute request and every inspect request the node sends is answered by exactly one reply of the matching
  kind, whatever the contract does: return any value, raise any exception including interpreter-exit ones, or run out
  of steps at any point, including while deferred write charges are being settled. After the reply the executor is
  still serving requests.""",
  ["programs", "inputs", "fault_sequences"],
  "every contract outcome, every exception class, every point at which steps can run out",
  "Tests never run the serving loop.",
  [PX+"ipc/proxy.py", PX+"service_engine.py", PX+"pyexec.py", PX+"base/exception.py"],
  [("invoke wrapper", PX+"ipc/proxy.py:__handle_invoke"), ("api wrapper", PX+"ipc/proxy.py:__handle_get_api"), ("exception-to-status", PX+"service_engine.py:_handle_invoke")],
  [WIRE])
prop("C04", "Deferred write replies are consumed in order and never mistaken",
  """When a state write or delete asks the node for the old value, the node's reply to it is consumed in request order,
  exactly once, before the reply to any later request is read and before a nested call or the final result is sent.
  So every value read, balance, search result and call result a contract sees is the node's answer to that very request,
  for any number and mix of outstanding writes and for any point at which settling them fails.""",
  ["histories", "schedules", "fault_sequences"],
  "any number and mix of writes, deletes, reads, searches, events and calls, old values present or absent, any step limit",
  "Tests use a fake database without deferred replies.",
  [PX+"ipc/proxy.py", PX+"database/db.py", PX+"iconscore/icon_score_step.py", PX+"service_engine.py"],
  [("old-value queue", PX+"ipc/proxy.py:__set_handlers"), ("drain before receive", PX+"ipc/proxy.py:send_and_receive"), ("drain before limit is computed", PX+"iconscore/icon_score_step.py:step_remained")],
  [WIRE])
prop("C05", "State and event operations cost exactly what the price table says",
  """Every state read, write, replacement, deletion and search and every recorded event adds to the invocation's used
  steps exactly the price the node supplied for that kind of operation and that size, in both price schedules:
  version 0 refunds a replacement by the difference of replace and set prices on the new size, version 1 adds base prices
  and refunds a replacement by half the sum of set and delete bases and the (negative) delete price on the old size.
  A write is charged before it is requested, an event before it is recorded, and nothing is charged twice or for free.""",
  ["programs", "inputs", "histories", "configurations"],
  "every operation, key and value size, price table, schedule version, presence of an old value",
  "Tests check a handful of counter calls with fixed prices and never the database layer with them.",
  [PX+"database/db.py", PX+"iconscore/icon_score_step.py", PX+"iconscore/icon_score_eventlog.py", PX+"iconscore/internal_call.py"],
  [("charging in the context database", PX+"database/db.py:ContextDatabase"), ("step counter", PX+"iconscore/icon_score_step.py")],
  [WIRE, "step-used field of the RESULT message"])
prop("C06", "Steps used never exceed the limit; running out fails the call",
  """The steps reported used for an invocation never exceed its limit, for every sequence of charges and whatever the
  contract catches. A charge that does not fit in the remaining steps (after pending refunds were collected) uses
  everything up and fails with the out-of-steps status, a charge that exactly fits succeeds, and the limit passed to a
  nested call is exactly what remains, its used steps always being added to the caller's.""",
  ["programs", "inputs", "histories"],
  "every charge sequence, limit, price table, outcome of nested calls",
  "Tests exercise the counter with fixed numbers, not the limit boundary, refunds or nested calls.",
  [PX+"iconscore/icon_score_step.py", PX+"iconscore/internal_call.py", PX+"service_engine.py", PX+"database/db.py"],
  [("consume_step", PX+"iconscore/icon_score_step.py"), ("message_call accounting", PX+"iconscore/internal_call.py")],
  [WIRE, "RESULT status and step fields", "limit field of CALL"])
prop("C07", "Only exposed methods run, and only payable ones receive value",
  """An execute request runs contract code of the named method only if that method is declared external (or is one of the
  two deployment hooks, or is the fallback declared payable); any other name fails with method-not-found without running
  it. A request that carries a positive value runs only a payable method and otherwise fails with method-not-payable.""",
  ["programs", "inputs"],
  "every contract, declared method kind, method name and attached value",
  "Tests never dispatch a call.",
  [PX+"iconscore/icon_score_base.py", PX+"service_engine.py", PX+"iconscore/typing/element.py"],
  [("dispatch gate", PX+"iconscore/icon_score_base.py:__call")],
  ["which contract method runs", "RESULT status"])
prop("C08", "Failures are reported as failures with the right status code",
  """An execution reports success only if the contract method returned normally and all its deferred charges settled;
  every exception is reported as a failure carrying the code of its kind, reverts map to 32 plus the given code clamped to
  32..999, and anything unknown maps to the generic system error. A failed nested call always raises in the caller with
  the callee's status code (reverts as revert errors) and only a successful one returns its value.""",
  ["programs", "inputs"],
  "every exception class, revert code and nested status",
  "Tests never observe statuses.",
  [PX+"service_engine.py", PX+"base/exception.py", PX+"iconscore/internal_call.py", PX+"iconscore/icon_score_base2.py"],
  [("status mapping", PX+"service_engine.py:_get_status_from_exception"), ("exception codes", PX+"base/exception.py")],
  ["RESULT status and message"])
prop("C09", "Distinct storage locations have distinct, node-compatible keys",
  """The location a container entry is stored at is SHA3-256 over the container type tag followed by the length-prefixed
  (RLP string form, all lengths) container name, nesting keys and entry key, in declaration order, with integers in
  minimal two's complement, text in UTF-8 and addresses in their 21-byte form. Hence entries of different containers, container kinds or
  keys never share a location and native node code finds them at the same place.""",
  ["inputs", "programs"],
  "every container kind, name, nesting depth, key type and key length",
  "Tests use a few short keys on a dictionary database and never see the hashed key.",
  [PX+"database/db.py", PX+"iconscore/icon_container_db.py", "common/containerdb/keybuilder.go", "common/containerdb/common.go"],
  [("key hashing", PX+"database/db.py:_hash_key"), ("length prefix", PX+"database/db.py:rlp_encode_bytes"), ("key encoding", PX+"iconscore/icon_container_db.py:ContainerUtil.encode_key")],
  ["key field of GETVALUE/SETVALUE/CONTAINS"])
prop("C10", "A stored value is read back as what was stored",
  """For each storable type (integer, text, bytes, boolean, address) the bytes a container writes decode, by the read path
  of a container of that type, to the value written; a missing entry reads as the type's default (0, empty text, false,
  otherwise nothing). Values of other types are refused with invalid-parameter and an unset entry is distinguishable from
  any stored one in membership tests.""",
  ["inputs"],
  "every value of every storable type, every container kind",
  "Tests store a few sample values.",
  [PX+"iconscore/icon_container_db.py", PX+"utils/__init__.py", PX+"base/address.py"],
  [("encode_value/decode_object", PX+"iconscore/icon_container_db.py:ContainerUtil")],
  ["VarDB/DictDB/ArrayDB results", WIRE])
prop("C11", "Array containers keep index discipline",
  """An array container reads and overwrites only indices inside -size..size-1 (negative counted from the end) and raises
  invalid-parameter otherwise; putting writes at index size and grows the size by one; popping returns the last element,
  deletes its entry and shrinks the size by one, and returns nothing on an empty array. Iteration and membership see
  exactly the elements 0..size-1 in order.""",
  ["inputs", "histories"],
  "every index, size, element type, sequence of operations",
  "Tests try a few indices on arrays of a few elements.",
  [PX+"iconscore/icon_container_db.py"],
  [("ArrayDB", PX+"iconscore/icon_container_db.py:ArrayDB")],
  [WIRE])
prop("C12", "Typed values cross the node boundary unchanged or are refused",
  """A value a contract returns or passes to another contract reaches the node with the type tag and bytes of its own type
  (nothing, boolean, integer, text, bytes, address, list and tuple as list, string-keyed dictionary), nested to any depth, and decoding what
  was encoded gives the same value; booleans are never sent as integers. Values of any other type, and dictionaries with non-text keys, are
  refused with an error instead of being sent.""",
  ["inputs"],
  "every value, type and nesting",
  "Tests cover only integer-to-bytes for a few numbers.",
  [PX+"ipc/proxy.py", PX+"pyexec.py", "common/codec/typed.go"],
  [("encode_any/decode_any", PX+"ipc/proxy.py"), ("address codec", PX+"pyexec.py:EECodec")],
  [WIRE])
prop("C13", "Executors and node agree on the wire protocol",
  """Message ids, type tags, invoke/set flags, API kinds, flags and data types, information field names and status codes have the same values in the
  node and in the Python executor (and, where it uses them, the Java executor), and every message an executor can actually send is
  one the node handles, with the same number and order of fields.""",
  ["configurations", "programs"],
  "every constant and message of the protocol",
  "Tests of one side never see the other; no test runs them together here.",
  [PX+"ipc/proxy.py", PX+"base/exception.py", PX+"iconscore/icon_score_step.py", "service/eeproxy/proxy.go", "module/score.go", "service/scoreapi/method.go", "common/codec/typed.go", "javaee/"],
  [("constant tables", PX+"ipc/proxy.py"), ("node side", "service/eeproxy/proxy.go")],
  [WIRE])
prop("C14", "The package validator lets no forbidden import or builtin through",
  """With package verification on, a contract package is loaded and inspected only if in no Python file of it, at any
  nesting of functions and classes, an absolute import of anything but the contract SDK occurs and none of the names exec, eval, compile and __import__ is
  referenced. Whenever the validator cannot establish what an import refers to, it rejects the package.""",
  ["programs", "inputs"],
  "every package layout and source text, including code whose constant and name tables exceed one byte of index",
  "No test runs the validator.",
  [PX+"iconscore/score_package_validator.py", PX+"service_engine.py"],
  [("byte code scan", PX+"iconscore/score_package_validator.py")],
  ["GETAPI status"])
prop("C16", "The published interface matches the declarations",
  """The interface published for a contract lists exactly its external methods, its payable fallback, its deployment hooks and its events,
  each with its name, kind, flags (external, read-only, payable as declared and nothing else), parameter names, types (with the fields of structures) and
  order, number of required parameters, defaults, output type (read-only methods only) and indexed count.""",
  ["programs"],
  "every combination of decorators and signatures",
  "No test inspects a contract.",
  [PX+"iconscore/typing/definition.py", PX+"iconscore/typing/element.py", PX+"pyexec.py", PX+"ipc/proxy.py"],
  [("interface generation", PX+"iconscore/typing/definition.py"), ("wire form", PX+"ipc/proxy.py:APIInfo")],
  ["GETAPI payload"])
prop("C17", "Contracts with illegal declarations are rejected at load",
  """A contract is refused when loaded if a method combines decorators in a way that is not allowed, repeats one, decorates a deployment hook, exposes the
  fallback as external, gives a payable fallback parameters or a result, has unsupported, untyped-container or cyclic parameter types or
  variadic/keyword-only parameters, a default value of another type, or an event without self, with more than three or too many indexed
  arguments, with unannotated arguments or an unsupported argument type, or if it has no external method at all. Legal declarations are accepted.""",
  ["programs"],
  "every decorator combination and signature shape",
  "No test loads a contract.",
  [PX+"iconscore/icon_score_base.py", PX+"iconscore/typing/element.py", PX+"iconscore/typing/__init__.py"],
  [("decorators", PX+"iconscore/icon_score_base.py"), ("signature normalization", PX+"iconscore/typing/element.py")],
  ["class creation", "GETAPI status"])
prop("C18", "A recorded event carries the declared signature and arguments",
  """A recorded event has as first indexed item the event's name with its declared type names, followed by the declared
  number of indexed arguments, the rest as data, in declaration order with defaults filled in. Missing, surplus,
  duplicated or wrongly typed arguments and the reserved coin-transfer signature are refused and nothing is recorded.""",
  ["programs", "inputs"],
  "every event declaration and argument list",
  "No test emits an event.",
  [PX+"iconscore/icon_score_base.py", PX+"iconscore/icon_score_eventlog.py", PX+"ipc/proxy.py"],
  [("argument resolution", PX+"iconscore/icon_score_base.py:__resolve_arguments"), ("emission", PX+"iconscore/icon_score_eventlog.py")],
  ["EVENT message"])
prop("C19", "Call parameters reach the method converted to their declared types",
  """A parameter given by name as text is converted to the type the method declares for it: integer (decimal, or hexadecimal after 0x or -0x), text,
  boolean (an integer other than 0), address, bytes (hexadecimal, 0x optional), optional forms included. If it is not text (nothing excepted,
  which is passed as nothing) or not well-formed for that type, the call fails before the method runs. Parameters given positionally are passed in
  order, unchanged. No parameter is dropped, renamed or given to another one; one the method does not declare, or the lack of one that has no
  default, fails the call.""",
  ["inputs", "programs"],
  "every method signature and parameter set",
  "Tests never convert call parameters.",
  [PX+"service_engine.py", PX+"base/type_converter.py"],
  [("conversion by annotation", PX+"base/type_converter.py")],
  ["arguments the contract method receives"])
prop("C20", "Addresses parse, print and compare exactly",
  """Text is accepted as an address only if it is hx or cx followed by exactly 40 lowercase hexadecimal digits, bytes only if 20 long (an account) or
  21 long with a leading 0 (account) or 1 (contract); what is parsed prints and serializes back to the same text and
  bytes. Two addresses are equal exactly if kind and body are equal, and equal addresses hash equal.""",
  ["inputs"],
  "every string and byte string",
  "Only a couple of well-formed addresses occur in the tests.",
  [PX+"base/address.py", PX+"utils/__init__.py", "common/address.go"],
  [("Address", PX+"base/address.py")],
  ["Address API", "wire form of addresses"])
prop("C21", "Inspecting a contract has no side effects",
  """Handling an inspect request, whatever the contract's constructor and class body do and even when it arrives in the middle of
  another contract's call, never reads or writes state, records events, calls contracts or changes the fee share, and leaves the interrupted
  contract's context unchanged.""",
  ["programs", "histories"],
  "every contract code, at top level and nested in a call",
  "No test issues an inspect request.",
  [PX+"service_engine.py", PX+"database/factory.py", PX+"database/db.py", PX+"iconscore/icon_score_mapper.py"],
  [("dummy database for inspection", PX+"database/factory.py:create_by_address")],
  [WIRE])
prop("C22", "Execution is deterministic",
  """Nothing a contract can observe through the SDK, and nothing the executor sends to the node as the effect of an execution,
  depends on wall-clock time, randomness, process environment, object identity, hash or directory order, or floating point
  rounding; only the request, the node's replies and the contract code determine it.""",
  ["programs", "schedules", "configurations"],
  "every execution, host and Python hash seed",
  "Tests run once, on one host.",
  [PX],
  [("block values instead of clocks", PX+"iconscore/icon_score_base.py")],
  [WIRE, "SDK results"])
prop("C23", "A nested call carries exactly what the contract asked for",
  """A call to another contract sends the given target, method (nothing meaning the fallback), attached amount, remaining steps
  and all positional and keyword arguments, once. Coin attached through an interface object goes with the next call only,
  and is cleared even if that call fails or is refused; negative or non-integer amounts are refused when attached. A call or
  balance query whose target is not an address, or whose amount is not an integer, is refused and nothing is sent.""",
  ["programs", "inputs"],
  "every target, method, argument list, amount and call sequence on an interface object",
  "No test makes a nested call.",
  [PX+"iconscore/internal_call.py", PX+"iconscore/icon_score_base.py", PX+"iconscore/icon_score_base2.py", PX+"ipc/proxy.py"],
  [("message_call", PX+"iconscore/internal_call.py"), ("single-use coin", PX+"iconscore/icon_score_base2.py:InterfaceScore")],
  ["CALL message"])
prop("C24", "The code that runs is the code the request names",
  """Each request runs the main class of the package at the code path it names, as the node stores packages (each in a directory of its own
  name under the store): different packages never share code, and a load that failed is not remembered as loaded. Each execution gets a fresh contract object bound to
  the contract address the request names.""",
  ["histories", "inputs"],
  "every sequence of requests over any set of code paths",
  "No test loads code.",
  [PX+"iconscore/icon_score_mapper.py", PX+"iconscore/icon_score_loader.py"],
  [("code cache", PX+"iconscore/icon_score_mapper.py")],
  ["which class runs", "address the contract sees"])
prop("C25", "The fee share sent is within 0..100 and sent once",
  """The fee share an execution asks the node to record is an integer from 0 to 100, the last value the contract set, and
  is requested at most once per execution, before its result. Values outside the range are refused when set.""",
  ["inputs", "programs"],
  "every sequence of fee share settings",
  "No test sets a fee share.",
  [PX+"iconscore/icon_score_base.py", PX+"service_engine.py", PX+"ipc/proxy.py"],
  [("range checks", PX+"iconscore/icon_score_base.py:set_fee_sharing_proportion")],
  ["SETFEEPCT message"])
prop("C26", "Crypto and JSON helpers charge first and tolerate bad input",
  """Hashing, JSON, key recovery and address derivation charge their documented share of the API price (hashes by 32-byte
  chunks, JSON by encoded length, derivation by key form) before doing the work or, for JSON output, before returning it. Key recovery and address derivation
  return nothing, and raise nothing but out-of-steps, on input of the wrong type, length or content; hashing refuses non-bytes.""",
  ["inputs"],
  "every input value and type, every price",
  "Tests check the charge for a few inputs with one price.",
  [PX+"iconscore/icon_score_base2.py"],
  [("SDK functions", PX+"iconscore/icon_score_base2.py")],
  ["SDK results", "step-used field of RESULT"])
prop("C27", "A contract sees the transaction, block and caller the node supplied",
  """Inside an execution, sender, value, origin, transaction hash, index, timestamp and nonce, block height and timestamp,
  owner and own address are the ones in the node's request, each from its own field, and stay so for the whole execution.""",
  ["inputs", "programs"],
  "every request",
  "No test runs a request.",
  [PX+"pyexec.py", PX+"base/transaction.py", PX+"base/block.py", PX+"base/message.py", PX+"iconscore/icon_score_base.py"],
  [("context construction", PX+"pyexec.py:invoke_handler")],
  ["IconScoreBase.msg/tx/block/block_height/now()/owner/address"])
# ---------------------------------------------------------------- Go / Java
prop("G01", "Node-side call frames: failed calls leave no state or log",
  """When a contract call handled by the node ends with a failure, or its executor gives no result in time, the world state is put back to what it was when
  the call's frame was opened and the event logs and BTP messages of the frame are dropped; only successful frames pass their logs on to the caller's frame.
  A frame opened under a read-only one is read-only, frames for queries are read-only, and a frame that turns read-only gives up what it has done.
  Exception by design: the fee shares recorded with the first frame are applied whether or not the call succeeds.""",
  ["programs", "histories"], "every nesting of calls and outcome", "Go tests need modules that cannot be fetched here and cover a few scenarios.",
  ["service/contract/callcontext.go", "service/contract/callframe.go"], [("frame pop", "service/contract/callcontext.go:popFrame"), ("snapshot taken", "service/contract/callframe.go:NewFrame")], ["world state", "receipt logs"])
prop("G02", "The node refuses state changes from read-only executions",
  """Every request by which an executor can change state (set and delete of values, object graphs, code, deployment, transfers, deposits, events, BTP messages) is
  refused or ignored by the node when the execution it comes from is read-only; a read-only execution cannot call a method that may write, and the
  executor is told when an execution is read-only.""",
  ["programs"], "every request kind and handler", "No test drives a misbehaving executor.",
  ["service/contract/callhandler.go", "service/contract/callcontext.go", "service/contract/transferhandler.go", "service/contract/deployhandler.go", "service/contract/deposithandler.go"],
  [("read-only tests in the handler", "service/contract/callhandler.go")], ["world state"])
prop("G03", "Locks are released on every exit",
  """In the node, whatever acquires a mutex in a function releases it on every way out of that function, unless releasing is
  deliberately left to a named counterpart.""",
  ["schedules", "fault_sequences"], "every function of the node that takes a lock, every exit", "A missed unlock shows only on rarely taken error paths.",
  ["service", "consensus", "block", "chain", "network", "node", "common", "btp", "server"], [("mutexes", "throughout")], ["liveness of the node"])
prop("G04", "A consensus vote is on disk before it is on the network",
  """A proposal or vote is written to the round's write-ahead log and the log is synced, both successfully, before it is sent to peers, so a restarted validator never
  contradicts what it sent. A newly locked block is written to the lock log, and that log synced, before the precommit for it is sent. Syncing a log
  flushes its buffer and then the file, and failures of writing or syncing are reported to the caller.""",
  ["crash_points", "schedules"], "every crash point and round", "Tests cannot crash the process between write and send at will.",
  ["consensus/consensus.go", "consensus/wal.go"], [("WAL", "consensus/wal.go"), ("sending", "consensus/consensus.go:doSendVote")], ["network messages", "WAL content"])
prop("G05", "Operations of the system contract reserved to a role check the caller first",
  """Each state-changing method of the system contract that is reserved to somebody rejects every other caller before it changes anything: governance-only methods
  (revision, step prices and costs, limits, deployers, validators, planet managers, BTP networks, reward issue; the USDT price from the revision that
  fixed access control), methods only the planet contract may call, work reports only planet managers may send, and what belongs to an owner (validator
  entries, unregistration, planet rewards, score ownership).""",
  ["inputs", "programs"], "every system contract method and caller", "Tests call a few methods from a few callers.",
  ["havah/chainscore_basic.go", "havah/chainscore_btp.go", "havah/chainscore_havah.go", "havah/hvh/extension.go", "havah/chainscore.go"], [("caller checks", "havah/chainscore_basic.go"), ("governance flag", "havah/chainscore.go:newChainScore")], ["world state"])
prop("G06", "Consensus safety under Byzantine validators",
  """No two correct validators finalize different blocks at one height while fewer than a third of the voting power is faulty.""",
  ["schedules", "fault_sequences"], "every schedule and fault pattern", "Needs unbounded adversarial schedules.",
  ["consensus/consensus.go", "consensus/voteset.go"], [("vote counting", "consensus/voteset.go")], ["finalized blocks"])
prop("G07", "State tree round trip and proof soundness",
  """What is written to the state tree is read back, the root hash depends only on the content, and a proof verifies only for content in the tree.""",
  ["inputs", "histories"], "every content and history", "Sampled contents only.",
  ["common/trie"], [("MPT", "common/trie/ompt")], ["root hash", "lookups"])
prop("G08", "HAVAH issuance and reward arithmetic",
  """Coin issued per term follows the schedule and claimable rewards never exceed what was issued, for every sequence of claims, registrations and transfers.""",
  ["histories", "inputs"], "every history", "Tests follow a few scripted histories.",
  ["havah/hvh"], [("reward accounting", "havah/hvh/hvhstate")], ["balances", "claims"])
prop("G09", "A transaction is executed at most once and only if authentic",
  """A transaction enters a block only with a valid signature of its sender, inside the timestamp window and not already in the chain.""",
  ["histories", "inputs"], "every submission and fork history", "Sampled.",
  ["service/transaction", "service/transactionpool.go", "service/txidmanager.go"], [("verification and duplicate check", "service/transactionpool.go")], ["blocks"])
prop("G10", "Coin is moved, not made, by transfers, deposits and fees",
  """When the node executes a transfer, a deposit, a withdrawal or a transaction's fee, what one account gets another one had and loses: amounts are not negative, an
  account never pays more than its balance, balances that may be of the same account are read after the other one was changed, and the sum of all balances
  changes only by what is issued or burned, which the total supply follows. The fee taken is the steps and price told in the receipt (less what a contract's deposit
  paid), at least the minimum; a transaction that cannot pay after it ran is undone first, and receipts of failed transactions carry no event logs or BTP messages.""",
  ["inputs", "histories"], "every amount, balance and pair of accounts, every way a transaction can end", "Go tests need modules that cannot be fetched here and use a few amounts.",
  ["service/contract/transferhandler.go", "service/contract/deposithandler.go", "service/transaction/transactionhandler.go", "havah/hvh/context.go"],
  [("fee", "service/transaction/transactionhandler.go:Execute"), ("transfer", "service/contract/transferhandler.go:DoExecuteSync")], ["balances", "receipts"])
prop("G11", "Only transactions that verify are pooled or executed",
  """The node puts a transaction in its pool (from a client, alone or waiting for the result, or from a peer) only after it is known to be of this network, of version 3 or
  later, correctly signed, within its time and not committed before. A block is valid only if that holds for every transaction of it, held against the window of its group and
  the state it starts from, and the transactions of a block that was not validated are executed only after validation of both groups succeeded and was reported; validation is
  left out only for transitions whose creator said they are valid.""",
  ["inputs", "histories"], "every transaction and block, every way to the pool and to execution", "Go tests need modules that cannot be fetched here and send a few transactions.",
  ["service/transactionmanager.go", "service/manager.go", "service/transactionreactor.go", "service/transition.go"],
  [("pool", "service/transactionmanager.go:VerifyTx"), ("validation", "service/transition.go:validateTxs"), ("execution", "service/transition.go:doExecute")], ["pool", "block validity"])
prop("G12", "A transaction is executed at most once",
  """Each block records the ids of its transactions; a transaction that is twice in a block, or in an earlier block that may still hold it (committed or not), makes the block
  invalid. A lookup asks the block itself, then the blocks before it that are not committed, then recent committed ones, then the database, and stops early only for timestamps no
  recorded transaction can have. Blocks are committed in order, ids leave memory only when they are in the database and too old for the next block, and the window of
  timestamps a block accepts is its own time, plus or minus the threshold.""",
  ["inputs", "histories"], "every sequence of blocks, timestamps, thresholds and commits", "Go tests need modules that cannot be fetched here and use a few blocks.",
  ["common/txlocator/manager.go", "service/txidmanager.go", "service/tschecker.go", "service/transition.go"],
  [("record", "common/txlocator/manager.go:tracker.Add"), ("lookup", "common/txlocator/manager.go:tracker.Has"), ("forgetting", "common/txlocator/manager.go:addListAndClearOldInLock")], ["block validity"])
prop("J01", "The Java executor is deterministic and metered",
  """Java contract code can only use allowed classes, and each basic block and allocation is charged before it runs.""",
  ["programs"], "every contract byte code", "Sampled programs; cannot be built here.",
  ["javaee"], [("instrumentation", "javaee/core")], ["steps used"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
