#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script so that edits stay reviewable).
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))
CPP='cpp/vm/evmzero/'
INT=CPP+'interpreter.cc'
# ---------------------------------------------------------------- C++ common
p('C01','C++ LRU cache: bounded map with least-recently-used eviction',
  'After any sequence of lookups, insertions and clears, a lookup in the C++ LRU cache returns exactly the value last stored under that key, unless that key has since been evicted or cleared, in which case it returns nothing. An insertion of a new key into a full cache evicts exactly one key, the one whose most recent first insertion or successful lookup is oldest (an overwrite of a present key changes its value only), and the number of cached keys never exceeds the capacity. This holds for every capacity of at least one.',
  ['histories','configurations'],'every capacity >= 1 and every finite sequence of Get / InsertOrAssign / GetOrInsert / Clear calls with arbitrary keys and values',
  'The seven LruCacheTest cases run a few hand-written sequences on capacities 2 to 4; recency order and linked-list integrity depend on the whole history and on the capacity.',
  ['cpp/common/lru_cache.h'],[('doubly linked recency list threaded through a pre-allocated entry array plus an index map','cpp/common/lru_cache.h Touch/GetNewHead/Clear')],
  [('recency list','order of use of the cached keys','cpp/common/lru_cache.h head_/tail_/pred/succ')],['Get','InsertOrAssign','GetOrInsert','Clear','GetMaxSize'])
p('C02','C++ LRU cache: shared state is only touched while its lock is held',
  'Every public operation of the C++ LRU cache reads and writes the shared cache contents only while holding the cache lock, releases the lock on every exit, and never tries to take it twice. A value returned by a lookup is a copy taken under the lock, so it stays valid and unchanged no matter what other threads do to the cache afterwards.',
  ['schedules','histories'],'every public operation, every state of the cache, every path through the operation (hence every interleaving of threads)',
  'The existing tests are single threaded; a missing lock is invisible to them.',
  ['cpp/common/lru_cache.h'],[('scoped lock in each public operation','cpp/common/lru_cache.h')],[('mutex','protects list, map and entries','cpp/common/lru_cache.h mutex_')])
p('C03','C++ byte hashing: a pure, in-bounds function of every content byte',
  'The C++ hash of a fixed-size byte array reads exactly the bytes of that array, and is a pure function of them: equal arrays hash equally on every call and wherever they are stored. Every byte of the array takes part in the hash, arrays that differ only in their last byte never collide, and the range hash of a sequence is the left-to-right fold of the element combination step over exactly the elements of the range.',
  ['inputs'],'all array contents for the array sizes used in the project (and neighbouring odd sizes), all sequences, all seeds',
  'There are only benchmarks for the hash utilities; no test checks coverage of all bytes or purity, and 2^160 keys cannot be sampled.',
  ['cpp/common/hash_utils.h'],[('word-wise fold plus byte-wise tail','cpp/common/hash_utils.h HashBytes/HashRange/CombineHash')])
# ---------------------------------------------------------------- C++ evmzero
p('C04','C++ jump analysis marks exactly the JUMPDESTs outside push data',
  'For every byte string, the C++ jump-target analysis returns one flag per code byte, and a flag is set exactly when that byte is a JUMPDEST reached by scanning from the start of the code and skipping the immediate data of each PUSH. The analysis never reads beyond the code, whatever the code ends with.',
  ['programs','inputs'],'all byte strings of every length',
  'Unit tests use a few short codes; the definition quantifies over all codes and all truncations of trailing push data.',
  [CPP+'opcodes.cc',CPP+'opcodes.h'],[('single scan with push-data skip',CPP+'opcodes.cc CalculateValidJumpTargets')])
p('C05','C++ opcode table: byte values, names and classes follow the EVM',
  'For every byte value, the C++ opcode table agrees with the EVM instruction set: whether the byte is an instruction, its name, whether it is a call-like instruction and whether it interacts with the world outside the interpreter. No two names share a byte and no defined instruction is reported as unused.',
  ['inputs'],'all 256 byte values','The C++ tests check single opcodes indirectly and are not buildable here; the claim ranges over the whole table.',
  [CPP+'opcodes.inc',CPP+'opcodes.h',CPP+'opcodes.cc'],[('X-macro opcode list',CPP+'opcodes.inc')])
p('C06','C++ execution memory: word-aligned zero-extended byte array',
  'The C++ execution memory behaves as an infinite zero-initialised byte array of which a prefix, always a multiple of 32 bytes, is materialised: an access of non-zero size grows it to exactly the smallest multiple of 32 covering the access, and never shrinks it or changes existing bytes. Reads return, and writes (copies with padding, overlapping moves included) change, exactly the addressed bytes, and accesses of size zero change nothing.',
  ['inputs','histories'],'every memory content and size, every offset and size whose sum is representable, every source buffer',
  'Tests sample small offsets; overlap, padding and alignment relations range over unbounded offsets and sizes.',
  [CPP+'memory.h',CPP+'memory.cc'],[('Grow rounding to words before every access',CPP+'memory.h')],[('memory bytes','contents of execution memory',CPP+'memory.h memory_')])
p('C07','C++ operand stack: LIFO of 256-bit words, independent copies',
  'The C++ operand stack is a last-in-first-out sequence of up to 1024 words: push, pop, indexing, size and equality agree with the abstract sequence, and copies and assignments are independent deep copies. Recycled stack storage is never shared between two live stacks and never leaks the previous content into a new stack.',
  ['inputs','histories'],'every stack content and depth from 0 to 1024, every interleaving of creating, copying and destroying stacks',
  'Tests use stacks of a few elements and never reuse storage across many live stacks.',
  [CPP+'stack.h',CPP+'stack.cc'],[('downward-growing block with a free list',CPP+'stack.cc Data::Get/Release')],[('free list','released blocks',CPP+'stack.cc')])
p('C08','C++ interpreter: arithmetic and bitwise instructions compute EVM results',
  'For all operands, each arithmetic, comparison, bitwise, shift and byte-selection instruction of the C++ interpreter replaces its operands by exactly the 256-bit result defined by the EVM (including division and modulo by zero, signed overflow, shift counts and indices beyond the word size, and the gas charged for exponent bytes). All deeper stack words, memory and return data stay unchanged.',
  ['inputs'],'all 256-bit operands, all stack contents and depths, all gas amounts',
  'Interpreter tests use a handful of operands per instruction; the domain is 2^512 or larger, and corner cases lie at isolated points.',
  [INT,CPP+'uint256.h'],[('per-instruction implementation',INT+' op::Impl<...>::Run')],observe=['interpreter run loop','single-step interface'])
p('C09','C++ interpreter: gas, stack, revision and static-mode checks precede effects',
  'In every state and revision, each instruction of the C++ interpreter fails without side effects if it is not part of the revision, writes in static mode, lacks stack operands or room, or is not covered by the remaining gas for its fixed cost, and otherwise charges exactly the fixed cost of that instruction and changes the stack depth by exactly its defined amount. A failed execution ends with zero gas and an error outcome, and the run loop and the single-step interface agree on all of this.',
  ['inputs','programs','configurations'],'all instructions, all revisions from Istanbul to Cancun, all stack depths 0..1024, all gas values, static and non-static calls, both dispatch modes',
  'Tests check boundary cases per instruction by hand, for one revision and one depth.',
  [INT],[('common pre-check in the dispatch routine and per-instruction attribute tables',INT+' internal::Run / OpInfo')])
p('C10','C++ interpreter: memory instructions move the right bytes at the right price',
  'Every memory-accessing instruction of the C++ interpreter (loads, stores, data copies, hashing, logging, return and revert) reads and writes exactly the addressed bytes, treating missing source bytes as zero, and leaves every other byte unchanged. It charges the quadratic memory-expansion fee of the EVM plus the per-word or per-byte fee, and when the gas does not cover the fee, or an offset or size is out of the addressable range, it fails before growing memory.',
  ['inputs','programs'],'all offsets, sizes and destinations over the full 256-bit range, all memory sizes, all source buffers, all gas values',
  'Tests sample few offsets; overflow of offset plus size, and expansion fees near their bounds, need the full range.',
  [INT,CPP+'memory.h'],[('memory-expansion cost computation',INT+' Context::MemoryExpansionCost'),('per-instruction implementation',INT)])
p('C11','C++ interpreter: control flow follows the code',
  'The C++ interpreter executes instructions in code order: pushes load exactly their immediate bytes (zero-extended at the end of code), jumps succeed exactly when the target is a valid jump destination of the code, and execution past the end of the code stops successfully. The single-step interface and the run loop reach the same outcome.',
  ['programs','inputs'],'all codes, all program counters, all jump targets over the full 256-bit range, all push widths',
  'Tests use a few short programs.',
  [INT],[('dispatch loop, code padding and jump-destination check',INT+' RunInterpreter / PadCode / CheckJumpDest')])
p('C12','C++ interpreter: storage and account-access instructions follow gas schedules',
  'For every storage transition and access-list state the C++ interpreter charges and refunds exactly the gas prescribed for the active revision for storage loads and stores, transient storage, balance and code queries and self-destruct, and issues exactly the prescribed host requests with the executing account, key and value.',
  ['inputs','configurations'],'all revisions Istanbul..Cancun, all nine storage transitions, warm and cold, all gas values, all operands',
  'The cross product of revisions, transitions and gas boundaries is sampled by tests.',
  [INT],[('storage cost tables and access-status queries',INT+' SSTORE/SLOAD/...')])
p('C13','C++ interpreter: calls and creates forward exactly the prescribed message',
  'For every call and create instruction the C++ interpreter hands the host exactly one message with the prescribed kind, flags, depth, parties, value, input and gas (at most all but one 64th, plus the stipend for value transfers), or none if the balance or gas checks fail. Afterwards it charges the prescribed cost minus the returned gas, pushes the prescribed result, copies exactly the available return data into the requested window and accumulates the refund.',
  ['inputs','configurations','fault_sequences'],'all operands, all revisions, all host answers (status, gas left, refund, output size), all gas values',
  'Tests use a mocked host with few answers.',
  [INT],[('call and create implementation',INT+' CallImpl/CreateImpl')])
p('C14','C++ interpreter: outcome reported to the host reflects the execution',
  'The status, remaining gas, refund and output reported to the host by the C++ EVM are a function of how execution ended: success, revert and each failure map to the corresponding status, failures report zero gas and no output, and only return and revert report output, which equals the returned bytes. Stepping through a contract reports the same.',
  ['inputs','programs','histories'],'all ways an execution can end, all gas, refund and output values',
  'End-to-end tests check few outcomes.',
  [CPP+'evmzero.cc',INT],[('status translation and result construction',CPP+'evmzero.cc VM::Execute / StepN')])
p('C15','C++ hash cache is invisible: hashing equals Keccak-256 of the input',
  'Hashing through the C++ cache of Keccak results always returns the Keccak-256 digest of exactly the given bytes, independent of earlier calls, for inputs of every length including those with dedicated caches.',
  ['histories','inputs'],'all inputs of all lengths, all preceding histories of calls',
  'Tests exercise a couple of inputs; a stale or cross-length cache hit depends on history.',
  [CPP+'sha3_cache.h'],[('per-length caches keyed by the full input',CPP+'sha3_cache.h')])
p('C16','C++ interpreter: environment instructions report the right values',
  'Each environment, block and transaction query instruction of the C++ interpreter pushes exactly the value the host or the message provides for it (correct field, byte order and zero extension), and block-hash and blob-hash queries return zero outside their valid range. The queries change nothing else.',
  ['inputs'],'all field values, all operands over the full 256-bit range, all revisions that define the instruction',
  'Tests use a few recognisable constants.',
  [INT],[('environment instruction implementations',INT)])
# ---------------------------------------------------------------- Go base
T='go/tosca/'
p('G01','Go opcode table: byte values, names and validity follow the EVM',
  'For every byte value, the Go opcode table of the EVM agrees with the EVM instruction set on numbering, printed name, validity and encoded width, and the list of valid non-push instructions contains each valid non-push instruction exactly once. The Go and the C++ tables agree with each other.',
  ['inputs'],'all 256 byte values','Existing tests count opcodes and print them but do not compare values with the EVM definition.',
  ['go/tosca/vm/opcodes.go'],[('constant table, name switch, validity table','go/tosca/vm/opcodes.go')])
p('G02','Go currency values: 256-bit arithmetic, comparison and byte order are exact',
  'Sums, differences, scalings and comparisons of token amounts in the Go interface equal 256-bit modular arithmetic on the represented numbers, and conversions between numbers, machine words and big-endian bytes preserve the number. Constructing an amount from words orders them from most to least significant.',
  ['inputs'],'all 256-bit values and all 64-bit scale factors','Tests sample a handful of values.',
  [T+'types.go'],[('limb-wise arithmetic',T+'types.go NewValue/Add/Sub/Scale/Cmp')])
p('G03','Go storage transition classification follows the EVM definition',
  'For every triple of original, current and new value of a storage slot, the Go classification of the transition is the one defined by the EVM gas rules, and exactly one class applies. Equal current and new values are always classified as a plain assignment.',
  ['inputs'],'all triples of 256-bit words','Tests enumerate one triple per class.',
  [T+'utils.go',T+'world_state.go'],[('case analysis',T+'utils.go GetStorageStatus')])
p('G04','Go word-size computation never overflows',
  'The number of 32-byte words needed for a byte count is the exact ceiling of the quotient for every 64-bit byte count, including those close to the maximum.',
  ['inputs'],'all 64-bit byte counts','Tests sample a few sizes.',
  [T+'utils.go'],[('word size helper',T+'utils.go SizeInWords')])
# ---------------------------------------------------------------- lfvm
L='go/interpreter/lfvm/'
p('L01','lfvm: arithmetic and bitwise instructions compute EVM results',
  'For all operands, each arithmetic, comparison, bitwise, shift and byte-selection instruction of the Go interpreter replaces its operands by exactly the 256-bit result defined by the EVM, and leaves all deeper stack words and the memory unchanged.',
  ['inputs'],'all 256-bit operands, all stack contents and depths','Tests use a handful of operands.',
  [L+'instructions.go',L+'stack.go'],[('instruction functions',L+'instructions.go')])
p('L02','lfvm: gas, stack, revision and static-mode checks precede effects',
  'In every state and revision, each instruction of the Go interpreter fails without side effects when it lacks operands, room, gas for its fixed cost, or is not available in the revision or in static mode; otherwise it charges exactly the fixed cost for the revision and changes stack depth by exactly its defined amount.',
  ['inputs','configurations','programs'],'all instructions, all revisions, all stack depths 0..1024, all gas values','Tests check single boundaries by hand.',
  [L+'interpreter.go',L+'gas.go',L+'stack_usage.go',L+'instructions.go'],[('limit tables and step loop',L+'interpreter.go steps')])
p('L03','lfvm: execution memory is a word-aligned zero-extended byte array',
  'The Go execution memory behaves as a zero-initialised byte array that grows to whole words covering each non-empty access, charges exactly the quadratic expansion fee for growth, and fails without growth when gas does not cover it or the size is out of range. Reads and writes affect exactly the addressed bytes.',
  ['inputs','histories'],'all memory sizes and contents, all 64-bit offsets and sizes, all gas values','Tests sample few offsets.',
  [L+'memory.go',L+'gas.go'],[('expansion with fee',L+'memory.go')])
p('L04','lfvm: storage and account-access instructions follow gas schedules',
  'For every storage transition and access-list state the Go interpreter charges and refunds exactly the gas prescribed for the active revision, and issues exactly the prescribed world-state requests.',
  ['inputs','configurations'],'all revisions, all nine storage transitions, warm and cold, all gas values','Cross product is sampled by tests.',
  [L+'gas.go',L+'instructions.go'],[('storage gas functions',L+'gas.go')])
p('L05','lfvm: code conversion preserves instructions, immediates and jump targets',
  'For every EVM code up to the size limit for deployed contracts, the translated code the Go interpreter executes performs the same instruction sequence: every instruction maps to its counterpart with the same immediate, bytes inside push data never become instructions or jump targets, and each jump destination sits at the same offset as in the original code.',
  ['programs'],'all byte strings up to the translation limit','Tests and fuzzing sample codes.',
  [L+'converter.go'],[('bytecode translation',L+'converter.go')])
p('L06','lfvm: control flow and result reporting',
  'The Go interpreter jumps exactly to valid jump destinations, ends successfully at the end of code, and reports success, gas left, refund and output according to how execution ended; failures report no gas, no refund and no output.',
  ['programs','inputs'],'all ways of ending an execution, all targets over the full 256-bit range','Tests check few programs.',
  [L+'interpreter.go',L+'instructions.go'],[('jump checks and result generation',L+'interpreter.go generateResult')])
p('L07','lfvm: calls and creates forward exactly the prescribed parameters',
  'For every call and create instruction the Go interpreter issues exactly one request with the prescribed kind, parties, value, input and gas (at most all but one 64th plus stipend), or none if a check fails, and afterwards accounts returned gas, refund, result and return data exactly as the EVM prescribes.',
  ['inputs','configurations','fault_sequences'],'all operands, revisions and answers of the callee','Tests mock few answers.',
  [L+'instructions.go'],[('call and create instruction functions',L+'instructions.go')])
# ---------------------------------------------------------------- floria
F='go/processor/floria/'
p('F01','floria: intrinsic gas, gas purchase, refund cap and gas return are exact',
  'For every transaction the Go transaction processor charges exactly the intrinsic gas for its kind, data bytes and access list, buys gas for exactly limit times price or rejects the transaction unchanged, keeps a tenth of the unused gas of external transactions, caps the refund to the share of the revision, and returns to the sender exactly the price of the gas it reports as unused. A rejected transaction (nonce, sender with code, balance, oversized init code) changes nothing; an accepted one increases the nonce, makes one call with exactly the gas beyond the intrinsic gas, and reports success and gas used accordingly.',
  ['inputs','configurations'],'all transactions (limits, prices, data, access lists), all execution results, all revisions','Tests sample a few transactions.',
  [F+'processor.go'],[('gas billing functions',F+'processor.go')])
p('F02','floria: value transfers conserve balance and never overdraw',
  'A value transfer between accounts by the Go transaction processor either moves exactly the value, leaving the sum of both balances unchanged, or changes nothing and is reported as failed when the sender balance does not cover it or the receiver balance would overflow.',
  ['inputs'],'all balances and values, equal or distinct parties','Tests sample a few balances.',
  [F+'run_context.go'],[('checked transfer',F+'run_context.go transferValue')])
# ---------------------------------------------------------------- conformance tool
C='go/ct/'
p('T01','Conformance tool: 256-bit integer type computes EVM arithmetic',
  'Each operation of the 256-bit integer type used by the Go conformance specification equals the EVM definition for all operands, including zero divisors, oversized shifts and indices, and signed corner cases. Conversions to and from words and big-endian bytes preserve the value.',
  ['inputs'],'all 256-bit operands','Tests sample.',[C+'common/u256.go'],[('wrapper operations',C+'common/u256.go')])
p('T02','Conformance tool: constraint solvers represent exactly the admitted values',
  'After any sequence of added bounds, equalities and exclusions, the range and interval solvers of the Go conformance tool report as admitted exactly the values satisfying all added constraints, report satisfiability exactly if such a value exists, and only generate admitted values.',
  ['inputs','histories'],'all constraint sequences over the 64-bit domain','Tests use short sequences with small numbers.',
  [C+'gen/range_solver.go',C+'gen/interval_solver.go'],[('interval arithmetic',C+'gen/interval_solver.go')])
# ---------------------------------------------------------------- Rust
R='rust/src/'
p('R01','Rust 256-bit word type computes EVM arithmetic',
  'Each operation of the Rust interpreter word type (arithmetic, signed and modular arithmetic, comparison, shifts, sign extension, byte selection, conversions) equals the EVM definition for all operands and never panics.',
  ['inputs'],'all 256-bit operands','Tests sample.',[R+'types/amount.rs'],[('word type',R+'types/amount.rs')])
p('R02','Rust interpreter memory and gas accounting are exact and panic-free',
  'The Rust execution memory grows to whole words covering each non-empty access, reads and writes exactly the addressed bytes, charges exactly the expansion fee and fails with out-of-gas instead of growing when the fee or range is not covered; gas never becomes negative and no offset or size makes it panic.',
  ['inputs','histories'],'all 256-bit offsets and sizes, all memory sizes and gas values','Tests sample.',
  [R+'types/memory.rs',R+'utils/gas.rs',R+'types/stack.rs'],[('memory expansion and gas counter',R+'types/memory.rs')])
p('R03','Rust code analysis marks exactly the JUMPDESTs outside push data',
  'For every code, the Rust code analysis classifies each byte as instruction, jump destination or data exactly as defined by the EVM, and the code reader never reads past the end, zero-extending truncated push data.',
  ['programs','inputs'],'all byte strings','Tests use short codes.',
  [R+'types/code_analysis.rs',R+'types/code_reader.rs'],[('analysis scan','rust/src/types/code_analysis.rs')])
# ---------------------------------------------------------------- cross-cutting, outside the family
p('X01','Concurrent executions on one EVM instance do not influence each other',
  'Any number of threads may execute contracts on one EVM instance at the same time; each execution produces the result it would produce alone.',
  ['schedules'],'all interleavings of executions sharing code caches, hash caches and stack pools','Tests run at most a few threads without control over the schedule.',
  ['cpp/vm/evmzero/evmzero.cc','go/interpreter/lfvm/converter.go','rust/src/types/code_analysis.rs'],[('locks around shared caches','cpp/common/lru_cache.h')])
p('X02','All interpreters agree with each other on every program',
  'Given the same parameters and world state, the Go, C++ and Rust interpreters produce the same success flag, gas, refund, output and sequence of world-state requests for every program.',
  ['programs','configurations'],'all programs, all parameters, all world states','The conformance tests enumerate generated states for single steps only.',
  ['go/ct/spc/specification.go','go/interpreter'],[('shared single-step specification','go/ct/spc/specification.go')])
with open(sys.argv[1] if len(sys.argv)>1 else '/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
assert len({x['id'] for x in P})==len(P)
for x in P:
    assert len(x['title'])<=80,x['title']
print(len(P))
