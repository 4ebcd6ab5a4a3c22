NA = []
S = 'crates/host/state/src/'
C = 'crates/host/codec/src/'

prop('S01', 'Global state behaves as a versioned map of accounts and templates',
 'After any history of creating accounts and templates, writing balances, counters and variables, checkpoint, rollback, commit, rewind and reopening, every read returns what a simple model gives: the last value written that was not rolled back or rewound, zero bytes for a variable never written, and "not found" for what was never created. Checkpoint keeps changes, rollback drops exactly those since the last checkpoint, commit numbers layers consecutively and refuses unsaved changes, rewind refuses unsaved changes and drops exactly the later layers, and has_uncommitted_changes says whether anything is uncommitted. The same holds for a state kept in memory, and however much time passes between operations.',
 ['histories', 'inputs'], 'all histories of state operations over any accounts, templates and layouts',
 'Tests run a few fixed sequences; the interaction of dirty, saved and committed changes with rewinds depends on the order.',
 [S + 'storage.rs', S + 'global_state.rs', S + 'account_storage.rs', S + 'template_storage.rs'],
 [('Storage (dirty/checkpointed changes)', S + 'storage.rs'), ('GlobalState', S + 'global_state.rs'), ('AccountStorage', S + 'account_storage.rs'), ('TemplateStorage', S + 'template_storage.rs')],
 'stateful model-based testing: generated histories run against GlobalState and a reference model',
 'Random histories of up to 43 operations over up to 5 accounts.')

prop('S02', 'Committed layers survive reopening, uncommitted changes do not',
 'When the database of a global state is opened again, after closing it or after the process was killed, the current state and every committed layer (contents, number, fingerprint) are those that were committed, nothing that was not committed is seen, the genesis templates are there and are not set up again, and further layers go on from there.',
 ['histories', 'crash_points'], 'all histories and all points of reopening between operations',
 'Tests keep the state in memory or open a database once.',
 [S + 'storage.rs', S + 'global_state.rs'],
 [('Storage::new', S + 'storage.rs'), ('GlobalState::new', S + 'global_state.rs')],
 'stateful model-based testing with reopening (clean and from a copy of the live files)',
 'Random histories with several reopenings each.')

prop('S03', 'Commit is atomic and durable under crashes and I/O errors',
 'Wherever a crash interrupts committing a layer or rewinding, the reopened database holds exactly the state before or exactly the state after that operation, and what was acknowledged before is kept in full. A commit that fails with an I/O error leaves the state as it was, loses no change, and succeeds when retried.',
 ['crash_points', 'fault_sequences', 'histories'], 'all crash points between file operations with any subset of unsynced ones lost; all I/O errors during a commit',
 'No test crashes or fails I/O.',
 [S + 'storage.rs'], [('Storage::commit', S + 'storage.rs'), ('Storage::rewind', S + 'storage.rs')],
 'fault injection: recorded file operations replayed up to generated crash points, and injected I/O errors, against a reference model',
 'Interposes write/fsync/ftruncate/unlink; crash points enumerated per generated history (capped), write tearing not modelled.', 'fault_enumeration')

prop('S04', 'The state fingerprint commits to the contents and nothing else',
 'The fingerprint of a layer is determined by the contents of the state: the same names, balances, counters and variables reached by any history (order of writes, overwritten values, checkpoints, rollbacks, splitting into layers, rewinds) give the same fingerprint, and contents that differ in any name, balance, counter or variable give different ones.',
 ['histories', 'inputs'], 'all contents and all histories reaching them',
 'Tests compare a few fixed fingerprints; both directions quantify over pairs of histories.',
 [S + 'storage.rs'], [('fingerprint (XOR of hashes of key-value pairs)', S + 'storage.rs')],
 'metamorphic property-based testing: pairs of generated histories with equal or with minimally different contents',
 'The fingerprint of contents produced by permuted, split and undone histories; single-field differences.')

prop('S05', 'Past layers can be read and returned to exactly',
 'Reading as of a committed layer gives the balances, counters, variables, names and templates exactly as they were when that layer was committed, whatever was written, checkpointed or committed since and including what did not exist then; rewinding to a layer makes that the current state, with its fingerprint, keeps the earlier layers readable and removes the later ones for good; rewinding to a layer that was never committed is refused without any effect, and the state stays usable.',
 ['histories'], 'all histories, all layers of them',
 'Tests read a couple of layers of fixed histories.',
 [S + 'storage.rs', S + 'global_state.rs', S + 'account_storage.rs'],
 [('Storage::get at a layer', S + 'storage.rs'), ('layer_query_parameter_mut', S + 'global_state.rs'), ('Storage::rewind', S + 'storage.rs')],
 'stateful model-based testing: every layer of a generated history compared with the model\'s snapshots',
 'Random histories of up to tens of layers.')

prop('A01', 'Account variables are isolated from each other',
 'Writing a variable of an account, by whichever setter, changes exactly that variable of that account: every other variable of it and of other accounts keeps its value, whatever the sizes, offsets and alignment of the variables in the layout, and the variable reads back, by every getter, as exactly what was written.',
 ['inputs', 'histories'], 'all layouts with variables of at least one byte, all sequences of writes',
 'Variables share 32-byte segments; tests use a couple of layouts.',
 [S + 'account_storage.rs', 'crates/host/layout/src'],
 [('AccountStorage::set_var / get_var', S + 'account_storage.rs'), ('FixedLayout', 'crates/host/layout/src/fixed.rs')],
 'model-based property testing over generated layouts and write sequences',
 'Layouts of up to 14 variables, offsets up to 200 kB.')

prop('X01', 'Binary messages, templates and receipts round-trip in the documented format',
 'Every envelope, context, call, spawn, template (any subset and order of sections) and receipt (any kind, outcome, error, logs) encodes to the documented binary layout, and decoding those bytes, alone or followed by others, gives back an equal value and consumes exactly the encoding. Equal receipts have equal encodings, decoding a template with a selection of sections yields exactly those, and error messages too long for the format are cut at a character boundary without affecting anything else. A value with a length or count beyond what the format holds is refused, never encoded as something else.',
 ['inputs'], 'all encodable values',
 'Tests round-trip a few hand-made values; lengths, counts, section orders and error kinds are unbounded.',
 [C + 'codec.rs', C + 'receipt', C + 'section', C + 'template.rs'],
 [('Codec', C + 'codec.rs'), ('SectionsEncoder/SectionsDecoder', C + 'section')],
 'property-based testing: generated values vs an independent reference encoder, round-trip',
 'Random exploration of the full encodable domain with boundary bias; assumes the documented layouts.')

prop('X02', 'Decoding is total, strict and stable on untrusted bytes',
 'Whatever bytes a decoder of envelopes, contexts, calls, spawns, templates or receipts is given, it returns a value or an error, without crashing or allocating what the input merely announces. Every strict prefix of a valid encoding is an error. A value that is accepted can be encoded again and decodes to itself; for envelopes, contexts, calls, spawns and deploy receipts its encoding is exactly the accepted bytes.',
 ['inputs'], 'all byte strings',
 'Tests feed well-formed bytes; malformed ones are unbounded.',
 [C], [('ReadExt', C + 'ext.rs'), ('ParseError', C + 'error.rs')],
 'mutation fuzzing of the decoders with a decode/re-encode/decode oracle',
 'Random and mutated byte strings and all strict prefixes of generated encodings.')

RT = 'crates/host/runtime/src/'
RT_ANCH = [('DefaultRuntime (transaction execution)', RT + 'runtime/runtime.rs'), ('host functions', RT + 'vmcalls')]
RT_FILES = [RT + 'runtime', RT + 'vmcalls', RT + 'func_env.rs']
NODE = 'stateful model-based testing: generated templates, accounts and histories of transactions run on a real node and on a reference model'

prop('C01', 'Coins are conserved and only their owner can spend them',
 'The total of all balances changes only by creating an account with a balance or increasing one; transfers, calls, spawns, verifications and commits never create or destroy coins. Coins leave an account only by its own code calling svm_transfer or by Runtime::transfer from it, and by exactly the amount given, which arrives in full. A transfer of more than the balance, overflowing the destination, to a missing account or from another account fails and moves nothing; a self-transfer changes nothing.',
 ['histories', 'inputs', 'programs'], 'all histories of transfers, transactions, increases, rewinds and restarts with any amounts',
 'Tests transfer a few fixed amounts between two accounts.',
 RT_FILES + [RT + 'vmcalls/transfer.rs'],
 [('svm_transfer', RT + 'vmcalls/transfer.rs'), ('Runtime::transfer / increase_balance', RT + 'runtime/runtime.rs')],
 NODE + ' that moves coins',
 'Histories of up to 20 steps over up to 8 accounts; amounts clustered at balances and overflow limits.')

prop('R01', 'A transaction takes effect entirely or not at all',
 'A transaction that fails, at whatever point and for whatever reason (trap, out of bounds, misused host function, missing variable, function, account or template, wrong constructor, gas), leaves no account, balance, counter, variable, template or layer changed, and keeps the earlier uncommitted changes. One that succeeds applies all its effects, which later transactions see, and which the next commit makes a new layer.',
 ['histories', 'programs', 'inputs'], 'all histories of successful and failing transactions, all failure points',
 'Tests check outcomes of single transactions, hardly the state after failures.',
 RT_FILES, RT_ANCH, NODE + ' in which a failed transaction does nothing',
 'Histories of up to 16 steps; functions of up to 6 generated operations.')

prop('R02', 'Deployed templates and spawned accounts have the right identity and contents',
 'A deployed template is stored, unchanged in every section, at the address given by the hash of its code (the first 20 bytes of blake3), which its receipt names; deploying the same again changes nothing. A spawned account is at the address derived from its template, which the receipt names, and has the given name and template, balance 0, counter 0, and the variables its constructor wrote; spawning fails for a template that does not exist. A genesis account has the given name, balance and counter. Spawning never replaces an account that exists.',
 ['inputs', 'histories', 'programs'], 'all templates and histories of deploys and spawns',
 'Tests deploy and spawn one or two fixed templates.',
 [RT + 'runtime/runtime.rs', S + 'template_storage.rs', S + 'account_storage.rs', RT + 'runtime/function.rs'],
 [('deploy / spawn', RT + 'runtime/runtime.rs'), ('TemplateStorage::create', S + 'template_storage.rs'), ('AccountStorage::create', S + 'account_storage.rs')],
 NODE + ' with independently computed addresses',
 'Known finding: the address of an account depends on its template only, so that a second spawn replaces the first account.')

prop('R03', 'Gas limits admit exactly the transactions they can pay for',
 'A deploy is admitted if and only if its gas limit is at least 1000 per byte of its message, and then its receipt reports exactly that as gas used; a spawn if and only if its limit is at least 1000 per byte of its message plus the fixed price of its constructor. A transaction without enough gas fails with an out-of-gas receipt and no effect; without a limit it is always admitted.',
 ['inputs', 'programs'], 'all messages, constructors and limits',
 'Tests try a limit of zero and a very large one.',
 [RT + 'runtime/runtime.rs', RT + 'price_registry.rs', 'crates/host/gas/src'],
 [('deploy/spawn gas checks', RT + 'runtime/runtime.rs'), ('ProgramPricing', 'crates/host/gas/src')],
 NODE + '; limits generated at and around independently computed prices',
 'Prices of generated constructors (branches, helpers, host calls) are computed while generating them.')

prop('R04', 'Receipts tell what the transaction did',
 'The receipt of a deploy, spawn or call says whether it succeeded, and if not with the error that occurred (kind, account, template, function); if it did, with exactly the returndata set last and as touched accounts exactly those involved; its logs are exactly those written, in order, also if it failed; and the state it names is the fingerprint of the current committed layer. Every receipt can be encoded: a transaction with more than 255 logs, or with a log or returndata of more than 65535 bytes, fails.',
 ['programs', 'inputs', 'histories'], 'all transactions and functions',
 'Tests check single fields of a few receipts.',
 RT_FILES, RT_ANCH, NODE + ' that predicts the receipt',
 'Functions of up to 6 generated operations with logs, branches, traps and out-of-bounds accesses.')

prop('R05', 'Execution is deterministic across nodes and restarts',
 'Two nodes that run the same transactions, commits and rewinds produce byte-identical receipts and the same layers with the same fingerprints, whatever else they were asked in between and however often they were restarted at a committed layer.',
 ['histories', 'programs', 'configurations'], 'all histories, all points of restarting or querying one of the nodes',
 'Needs two nodes; iteration order of hash maps differs between runs.',
 RT_FILES + [C + 'receipt', S + 'storage.rs'], RT_ANCH + [('receipt encoding', C + 'receipt')],
 'differential testing: one generated history run on two nodes, one of them restarted and queried at generated points',
 'Histories of up to 22 steps; both nodes on the same machine and toolchain.')

prop('R06', 'Functions run only in the roles and with the access they have',
 'A constructor can only be run by spawning and only constructors can be; other functions only by calling; a function that does not exist or has another signature is refused with the respective error. svm_alloc, run to place the calldata, can neither read nor write storage nor move coins, and verify never changes any state, whatever svm_verify does.',
 ['programs', 'histories', 'inputs'], 'all templates (including hostile svm_alloc and svm_verify), all names called',
 'Tests do not contain templates that misuse svm_alloc or svm_verify.',
 RT_FILES, [('exec_call / call_ctor / verify', RT + 'runtime/runtime.rs'), ('FuncEnv (protected mode)', RT + 'func_env.rs')],
 NODE + ' with the access rules',
 'The succeeding outcome of verify is not claimed: it never succeeds in this code base.')

prop('R07', 'Host storage functions read and write the account\'s variables exactly',
 'svm_get32/64 return the variable of the executing account, its bytes read as a little-endian number, exactly as last written by svm_set32/64 (or 0), svm_load160/store160 copy exactly 20 bytes between the variable and memory at the given offset, each touches nothing else, in this account or another, and using a variable that does not exist or is larger than the function handles fails the transaction.',
 ['programs', 'histories', 'inputs'], 'all layouts, variables, values and sequences of host calls',
 'Tests exercise each host function once or twice with one layout.',
 [RT + 'vmcalls', S + 'account_storage.rs'],
 [('svm_get32/set32/get64/set64', RT + 'vmcalls'), ('svm_load160/store160', RT + 'vmcalls')],
 NODE + ' of the variables',
 'Functions of up to 12 generated storage operations on layouts of up to several variables.')

G = 'crates/host/gas/src/'
PG = 'crates/host/program/src/'
prop('G01', 'Deploy validation accepts exactly the allowed programs',
 'Runtime::validate_deploy accepts a well-formed template if and only if its code is valid Wasm without floating-point instructions, loops, indirect calls and direct or mutual recursion anywhere in it (also in code that is not reachable, not called or not exported), at most 65535 functions (imported ones included), and exports svm_alloc and svm_verify as functions of its own with the required signatures; otherwise the error names a reason that applies, and a call cycle reported by the gas validation is one.',
 ['programs'], 'all Wasm programs',
 'Tests validate a dozen of fixed programs; call graphs and placements of instructions are unbounded.',
 [G + 'validation.rs', G + 'graph', G + 'call_graph', PG + 'program.rs', PG + 'lib.rs', RT + 'runtime/runtime.rs'],
 [('ProgramValidator', G + 'validation.rs'), ('try_topological_sort', G + 'graph/sort.rs'), ('Program::new', PG + 'program.rs')],
 'property-based testing: generated programs with planted flaws against an independent decision on the generated structure',
 'Programs of up to 7 functions of structured type-correct code.')

prop('G02', 'The fixed price of a function is the most its execution can cost',
 'The price that pricing gives each function of a valid program equals the maximum, over all paths through its control flow, of the sum of the prices of the instructions and host calls on the path and of the prices of the functions called (control instructions other than block are free), or the largest 64-bit number if that is more; no execution costs more than the price, and a path attains it. This holds for any price table and for the default one, and wherever functions and imports are in the module.',
 ['programs', 'configurations'], 'all valid programs and price tables',
 'Tests price a few fixed functions; control-flow graphs are unbounded.',
 [G + 'cfg', G + 'pricing', G + 'graph'],
 [('build_func_cfg', G + 'cfg/mod.rs'), ('ProgramPricing', G + 'pricing/mod.rs'), ('compute_max_weight_path', G + 'graph/weight.rs')],
 'property-based testing: generated structured programs and price tables against a recursive reference and simulated executions',
 'Programs of up to 6 functions of up to 25 nodes.')

prop('V01', 'Hostile templates cannot crash a node',
 'Whatever bytes validate_deploy is given it returns, and every template it accepts can be deployed, spawned by any of its constructors or other names, called and verified by any name with any calldata and gas limit, and committed, each ending in a receipt and never in a panic of the node.',
 ['programs', 'inputs'], 'all templates, messages and names',
 'Tests use well-behaved templates.',
 [RT + 'runtime/runtime.rs', PG + 'program.rs', G, C + 'template.rs'],
 [('validate_deploy', RT + 'runtime/runtime.rs'), ('Program::new', PG + 'program.rs'), ('check_gas_for_func', RT + 'runtime/runtime.rs')],
 'fuzzing: generated and mutated templates driven through validate, deploy, spawn, call, verify and commit',
 'Structured generation with byte mutations; no coverage guidance.')

W = 'crates/wasm/'
prop('B01', 'ABI values round-trip in the documented encoding',
 'Every value of the ABI (booleans, integers of 8 to 64 bits of both signs, amounts, addresses, options, unit, arrays of up to ten of these and tuples of them) encodes to the bytes that the documented table of markers gives, integers in the fewest bytes; decoding gives the value back, and with it each of the values that follow; the announced byte size is the exact length of the encoding and never exceeds the announced maximum of the type; converting a decoded value to a Rust type of another kind or length aborts.',
 ['inputs'], 'all values of all ABI types, and all sequences of them',
 'Tests encode a value or two of each type; encoded widths, array lengths and nesting in options and tuples are combinatorial.',
 [W + 'abi-layout', W + 'abi-encoder', W + 'abi-decoder'],
 [('Encoder, ByteSize', W + 'abi-encoder/src'), ('Decoder, CallData', W + 'abi-decoder/src'), ('layout', W + 'abi-layout/src')],
 'property-based testing: generated values vs an independent reference encoder, and round-trip',
 'Random exploration biased to the changes of encoded width; sequences of up to a few tens of values.')

prop('B02', 'Decoding ABI bytes is memory-safe and exact on any input',
 'Whatever bytes calldata consists of, decoding it value by value yields exactly the values that the documented encoding gives them and aborts at the first place where it gives none (an unknown marker, a truncated value): it never reads outside of the calldata, never yields a value that the bytes do not encode, and never hangs.',
 ['inputs'], 'all byte strings',
 'Tests decode well-formed calldata only.',
 [W + 'abi-decoder', W + 'abi-layout'],
 [('Decoder, Cursor', W + 'abi-decoder/src')],
 'mutation fuzzing of the decoder next to an inaccessible page against a reference decoder',
 'Random and mutated byte strings and all strict prefixes of generated encodings.')

prop('X03', 'The JSON API and the binary formats agree',
 'Encoding input data, calls and spawns from JSON gives exactly the documented binary format, decoding it gives equal JSON back, and decoding a receipt renders each field of it exactly. JSON that has no encoding (a value out of the range of its type or of another type, a missing or malformed field, an array of more than ten, a name or data too long for its length prefix, types and values of different numbers) and binary that does not decode give an error, never a crash and never an encoding of something else.',
 ['inputs'], 'all JSON texts, all binary messages and receipts',
 'Tests convert a handful of values of each kind.',
 [C + 'api/json'],
 [('json::encode_inputdata / decode_inputdata', C + 'api/json'), ('json::encode_call / decode_call, encode_spawn / decode_spawn', C + 'api/json'), ('json::decode_receipt', C + 'api/json')],
 'property-based testing: generated and spoiled JSON vs reference encoders and a reference rendering, round-trip',
 'Up to 8 values per input data; binary input data inside decoded transactions is well-formed.')

prop('X04', 'The Wasm API wraps the JSON API through safe buffers',
 'Buffers returned by wasm_alloc have a header with their length and capacity and data of that size which no other call disturbs until they are freed. Each wasm_encode_* and wasm_decode_* function, given a buffer with any contents, returns a new buffer whose first byte tells success or failure and whose rest is what the JSON API gives for the contents, or the text of the error; contents that are not UTF-8 are such an error.',
 ['histories', 'inputs'], 'all sequences of allocations, calls and frees, all contents of buffers',
 'Tests make one call with one valid input for each function.',
 [C + 'api/wasm'],
 [('wasm_alloc, wasm_free', C + 'api/wasm'), ('wasm_encode_*, wasm_decode_*', C + 'api/wasm')],
 'stateful model-based testing: sequences of calls compared with the JSON API and a model of the live buffers',
 'Run natively with 64-bit pointers, not in a Wasm engine.')

prop('K01', 'The SDK\'s containers and formatting behave as the standard ones',
 'The fixed-capacity Vec, String, StringBuilder, Option and Result of svm-sdk-std behave like those of the standard library in every history of operations within the capacity, and abort instead of exceeding it; numbers, booleans, digits, amounts, layers and addresses format to the same text as with the standard library (addresses in hexadecimal), for every value.',
 ['histories', 'inputs'], 'all histories of operations, all values formatted',
 'Tests run a few operations on small values.',
 [W + 'sdk-std', W + 'sdk-types'],
 [('Vec', W + 'sdk-std/src/vec.rs'), ('String, StringBuilder, ToString', W + 'sdk-std/src')],
 'stateful model-based testing against the standard library',
 'Histories of up to 60 operations; compiled for the host.')

prop('K02', 'Amounts never wrap around',
 'Addition, subtraction and multiplication of amounts, between amounts and with integers, in all operator and assigning forms, give the exact result if it is representable and abort otherwise; comparisons are those of the numbers.',
 ['inputs'], 'all pairs of amounts and all operators',
 'Tests compute with small amounts; overflow depends on pairs of 64-bit values.',
 [W + 'sdk-types/src/amount.rs'], [('Amount', W + 'sdk-types/src/amount.rs')],
 'property-based testing against 128-bit arithmetic',
 'Pairs clustered at the limits of each operation.')

prop('K03', 'The SDK\'s storage and host mocks are faithful',
 'Through the SDK\'s storage accessors every variable and every element of an array of variables reads back, as each supported type, what was written to it last and nothing else changes it; an index beyond the length aborts. The mock host answers with the balances, targets, calldata, returndata, logs and layer that were set; its transfers move exactly the amount given, conserve the total, change nothing when made to oneself, and abort without effect when the balance does not suffice or the target\'s would overflow.',
 ['histories', 'inputs'], 'all histories of storage and host operations',
 'Tests set and get single values.',
 [W + 'sdk-storage', W + 'sdk-storage-mock', W + 'sdk-host-mock', W + 'sdk-types'],
 [('storage accessors', W + 'sdk-storage/src'), ('MockStorage', W + 'sdk-storage-mock/src'), ('MockHost', W + 'sdk-host-mock/src')],
 'stateful model-based testing: histories over the mocks compared with a model',
 'Histories of up to 40 operations.')

FF = 'crates/host/runtime-ffi/src/'
prop('F01', 'The C API does what the Rust API does and never crashes',
 'Every function of the C API (validating, deploying, spawning, verifying, calling, committing, rewinding, layer and account queries, genesis accounts, increasing balances and transferring) has the same effects and gives the same receipts, byte for byte, as the Rust API; what fails there, including by a panic, is an error result with a text, and so is using a pointer that is not one of a live runtime, without any effect. Runtimes are independent of each other, counted exactly, release what they hold when destroyed, are opened again with what was committed, and can be used by different threads at once; a runtime that cannot be created, or a rewind that is refused, is an error that affects nothing afterwards. Each result is either plain, or a receipt, or an error, and its memory can be freed exactly once, by svm_free_result or, as documented, with free of C, and copied.',
 ['histories', 'inputs'], 'all sequences of calls over any number of runtimes',
 'Tests make a handful of calls and never free, clone, unwrap a receipt, or use a stale pointer.',
 [FF],
 [('svm_* functions', FF + 'c_api.rs'), ('svm_result_t', FF + 'result.rs'), ('ResourceTracker', FF + 'resource_tracker.rs')],
 'differential stateful testing: generated histories of C API calls against the Rust API on a second node',
 'Histories of up to 35 calls over up to three runtimes.')

prop('R08', 'Blocks of svm_static_alloc are disjoint and inside of the memory',
 'The blocks that a template gets from svm_static_alloc, by itself or for its calldata in svm_alloc, during one transaction lie inside of its memory, are as large as asked for, do not start at offset 0 and do not overlap each other, so that what is written to one disturbs neither another nor the calldata; a request for more than is left of the memory fails the transaction, one well within it succeeds, and each transaction starts afresh.',
 ['programs', 'inputs'], 'all sequences of requests, all memory sizes',
 'The one test of it calls the function once and never uses the block.',
 [RT + 'vmcalls/alloc.rs'],
 [('static_alloc', RT + 'vmcalls/alloc.rs')],
 'property-based testing: generated allocating programs that mark and read back their blocks, against invariants of the offsets',
 'Up to ten blocks in up to three pages; memories that do not grow.')

prop('R09', 'Executing transactions uses nothing up',
 'Whatever transactions a node has executed, successful or failed in any way, it holds no more resources than before: the memory of a transaction\'s Wasm instance is released when its receipt is there, so that the outcome of a transaction never depends on how many were executed before it, and when a runtime is dropped its database is closed.',
 ['histories', 'programs'], 'all histories of transactions',
 'Tests execute a few transactions per process; what each leaves behind shows after some thousands.',
 RT_FILES, RT_ANCH,
 'stateful testing: generated histories of transactions with the address space and the open files of the process as invariants',
 'Histories of up to 33 transactions; growth of less than the memory of one instance is not seen.')

prop('E01', 'Templates written with the SDK do on a node what their source says',
 'A template written with the SDK (a storage struct with variables and arrays of all primitive types, constructors and endpoints) and compiled to Wasm deploys, spawns and runs on a node exactly as its Rust source reads: arguments arrive as they were encoded, every storage accessor reads and writes exactly its own variable or element, an index beyond the length of an array, or missing arguments, fail the transaction without effect, and results (single, arrays and tuples) arrive in the receipt in the ABI encoding.',
 ['programs', 'histories', 'inputs'], 'all templates expressible with the SDK, all histories of calls of them',
 'Tests of the macros compare generated metadata of fixed templates or run single functions; none runs a compiled SDK template with storage arrays, tuples or hooks on a node.',
 [W + 'sdk-macros', W + 'sdk-storage', W + 'sdk-host', W + 'sdk-alloc', W + 'abi-encoder', W + 'abi-decoder', RT],
 [('#[template], #[storage], #[endpoint], #[ctor], #[fundable]', W + 'sdk-macros/src'), ('storage accessors', W + 'sdk-storage/src'), ('vmcalls', RT + 'vmcalls')],
 'differential testing: generated SDK templates compiled to Wasm and run on a node against an interpreter of their specification',
 'Some 30 templates per quick run, each with many generated histories; types which the compiled code of deployment validation rejects are left out.')

prop('K04', 'Templates written with the SDK behave under the SDK\'s mocks as their source says',
 'Templates written with the SDK and built for the host with its mocks do, in every history of calls, what their source says: arguments of all types including arrays, storage, results, logs and host queries (value, layer, principal, target) are exact, the fundable hook that applies (the named one, else the default of the template) runs before the function if and only if coins come along and the function is fundable, and the metadata which the macros emit (storage schema with ids, offsets, sizes and lengths; API with names, parameters, results, documentation and flags) describes exactly the template.',
 ['programs', 'histories', 'inputs'], 'all templates expressible with the SDK, all histories of calls of them under the mocks',
 'Tests of the mocks run single fixed functions.',
 [W + 'sdk-macros', W + 'sdk-storage', W + 'sdk-storage-mock', W + 'sdk-host-mock', W + 'sdk-mock'],
 [('#[template]', W + 'sdk-macros/src'), ('MockStorage', W + 'sdk-storage-mock/src'), ('MockHost', W + 'sdk-host-mock/src')],
 'differential testing: generated SDK templates compiled with the mocks and run against an interpreter of their specification',
 'Some 24 templates per quick run; one process per history.')

prop('L01', 'The command line does what the library does and nothing else',
 'svm-cli tx writes exactly the documented binary message of a spawn or call for its JSON input; craft-deploy writes exactly the template (code, layout and constructors) of the given Wasm file and SDK metadata; each to the output file. An input that is malformed, or that has no encoding, ends with a failure status and leaves the output file as it was. validate, given a module as text or binary, says that it is valid if and only if it parses and keeps the restrictions that deployment imposes on Wasm (no loops, floats, indirect or recursive calls), then prints the price of every function, and never crashes.',
 ['inputs', 'programs'], 'all inputs of the commands',
 'There are no tests of the command line.',
 ['crates/host/cli/src'],
 [('subcmd_tx', 'crates/host/cli/src/subcmd_tx.rs'), ('subcmd_craft_deploy', 'crates/host/cli/src/subcmd_craft_deploy'), ('subcmd_validate', 'crates/host/cli/src/subcmd_validate.rs')],
 'property-based testing: generated and spoiled inputs run through the built svm-cli, against reference encoders and an independent validator',
 'Imports are those which the price resolver of the command knows; Wasm type errors are left to deployment.')

prop('Q01', 'Storage queries render what is stored or say that they cannot',
 'Running a query gives one answer per request, in order: integers and balances of 1 to 8 bytes as the big-endian number they hold (signed or not, as the schema says), booleans as such, blobs as upper-case hexadecimal text, and addresses and public keys the same behind 0x. A variable that is not in the schema, that the storage does not have, or whose bytes do not fit its type or length gives no answer; no query panics or renders another value than the one stored.',
 ['inputs'], 'all schemas, stored bytes and queries',
 'Tests render one value per type, of the one length that works.',
 ['crates/host/query/src'],
 [('StorageQuery::run', 'crates/host/query/src/query.rs'), ('JsonVarRenderer', 'crates/host/query/src/render.rs'), ('Schema', 'crates/host/query/src/schema.rs')],
 'property-based testing: generated schemas, storages and queries against an independent rendering',
 'Storages of up to some 90 bytes, 8 variables and 9 requests.')

prop('T01', 'Amounts of gas, addresses, digests, sections and layouts follow their laws',
 'An amount of gas behaves as an optional number (no limit is more than any number, takes and gives without change; taking more than there is is refused and changes nothing). Addresses, states and transaction ids are made of exactly their number of bytes, compare, hash, print and take apart as those bytes. A digest is the Blake3 digest of the bytes given, in however many pieces. Wasm types and values and layers convert without loss. The sections of a template are a map by kind, and its accessors (constructors, code, mandatory and other sections) agree with it. A layout places its variables one after another from its first id and finds each by its id. Price resolvers are found by the version they were added for.',
 ['inputs', 'histories'], 'all values, sequences of operations, sizes and pieces',
 'Tests use a couple of values each; boundaries and sequences are not sampled.',
 ['crates/host/types/src', 'crates/host/hash/src/lib.rs', 'crates/host/layout/src', 'crates/host/runtime/src/price_registry.rs'],
 [('Gas', 'crates/host/types/src/gas'), ('BytesPrimitive', 'crates/host/types/src/lib.rs'), ('Blake3Hasher', 'crates/host/hash/src/lib.rs'), ('Sections, Template', 'crates/host/types/src/template'), ('FixedLayout', 'crates/host/layout/src/fixed.rs'), ('PriceResolverRegistry', 'crates/host/runtime/src/price_registry.rs')],
 'model-based property testing: generated values and histories against plain numbers, byte arrays, maps and the reference Blake3',
 'Sums of gas beyond 64 bits and lookups of ids outside of a layout are not specified.')
