"""Which contracts decide which property."""

# calls replaced by the callee's contract (each proved of the callee in the same check)
CALLEES = {'Context19MemoryExpansionCost': 'vcontract_memory_expansion_cost', 'Memory4Grow': 'vcontract_memory_grow',
           'Memory16ReadFromWithSize': 'vcontract_memory_read_from_with_size', 'Memory7MemCopy': 'vcontract_memory_mem_copy'}
# std::vector operations of the standard library, assumed to do what the standard says
VECTOR = {'vectorIhSaIhEE6assignIPKhvEEvT_S5_': 'vcontract_vector_assign', 'vectorIhSaIhEE5clearEv': 'vcontract_vector_clear'}
# parts of the Go interpreter outside the verifier's language: the cgo hash binding (an unspecified function) and the adapter to the
# conformance tool
LFVM = {'go/interpreter/lfvm/keccak.go': 'lfvm_keccak.go', 'go/interpreter/lfvm/ct.go': 'lfvm_empty.go'}
LP = 'go/interpreter/lfvm'
UINT = ['github.com/holiman/uint256 (absent; its documented operations are assumed: stubs/go/uint256)']
FP = 'go/processor/floria'
GETH = ['github.com/ethereum/go-ethereum (absent; hash and address derivation are unspecified functions, precompiled contracts arbitrary: stubs/go/geth)']
EXPAND = {'lfvm_Memory_expandMemory': 'vcontract_expand'}
CHECKS = {
    'G01': dict(lang='go', src=[('go/tosca/vm', 'g01_opcodes.go')], opts={'loop_limit': 1200}, under=['vm.OpCode constants, String, Width, IsValid, ValidOpCodesNoPush']),
    'C01': dict(lang='cpp', src='c01_lru.cc', opts={'loop_limit': 1200}, under=['LruCache (constructor, Get, InsertOrAssign, GetOrInsert, Clear, GetMaxSize, Touch, GetNewHead) for capacities 1, 2, 3, 4, 8, 1024 and 65536']),
    'C02': dict(lang='cpp', src='c02_lru_lock.cc', under=['LruCache (Get, InsertOrAssign, GetOrInsert, Clear, Touch, GetNewHead) for capacities 1, 2, 4, 8, 1024 and 65536']),
    'C03': dict(lang='cpp', src='c03_hash.cc', opts={'sym_loop_limit': 3}, under=['tosca::CombineHash, HashRange, HashBytes<N>::operator()']),
    'C04': dict(lang='cpp', src='c04_jumps.cc', opts={'sym_loop_limit': 3}, under=['evmzero::op::CalculateValidJumpTargets']),
    'C05': dict(lang='cpp', src='c05_opcodes.cc', under=['evmzero::op::OpCode, IsUsedOpCode, IsCallOpCode, IsExternalOpCode, ToString and the opcode counts, for all 256 byte values']),
    'C06': dict(lang='cpp', src='c06_memory.cc', under=['evmzero::Memory (constructors, Grow, GetSpan, ReadFrom, ReadFromWithSize, WriteTo, MemCopy, operator[], GetSize)']),
    'C07': dict(lang='cpp', src='c07_stack.cc', opts={'sym_loop_limit': 3}, under=['evmzero::Stack (constructors, copies, Push, Pop, Top, SetTop, GetSize, operator[], operator==, destructor) and Stack::Data (Get, Release)']),
    'C08': dict(lang='cpp', src='c08_arith.cc', slim=True, under=['evmzero::internal::RunInterpreter and op::Impl<...>::Run of the arithmetic, comparison, bitwise, shift and byte instructions']),
    'C09': dict(lang='cpp', src='c09_prechecks.cc', slim=True, under=['evmzero::internal::RunInterpreter<NoObserver, stepping and run loop> (dispatch, Run<op>, final accounting) for all 256 byte values']),
    'C10': dict(lang='cpp', src=['c10_memory_ops.cc', 'c06_memory.cc'], slim=True, contracts=CALLEES, under=['evmzero::internal::RunInterpreter, Context::MemoryExpansionCost, evmzero::Memory and op::Impl<...>::Run of MLOAD, MSTORE, MSTORE8, CALLDATACOPY, CODECOPY, EXTCODECOPY, RETURNDATACOPY, MCOPY, SHA3, LOG0..LOG4, RETURN, REVERT']),
    'C11': dict(lang='cpp', src='c11_flow.cc', slim=True, under=['evmzero::internal::RunInterpreter, Run<op>, Context::CheckJumpDest, PadCode and op::Impl<...>::Run of STOP, JUMP, JUMPI, JUMPDEST, PUSH0..PUSH32, DUP1..DUP16, SWAP1..SWAP16, POP']),
    'C12': dict(lang='cpp', src='c12_storage.cc', slim=True, under=['evmzero::internal::RunInterpreter and op::Impl<...>::Run of SLOAD, SSTORE, TLOAD, TSTORE, BALANCE, EXTCODESIZE, EXTCODEHASH, SELFDESTRUCT']),
    'C14': dict(lang='cpp', src=['c14_interpret.cc', 'c14_vm.cc'], slim=True, contracts={'RunInterpreter': 'vcontract_run'}, opts={'sym_loop_limit': 3}, under=['evmzero::Interpret<NoObserver>, InterpretNSteps, VM::Execute, VM::StepN, ToEvmcStatusCode, ToRunStateCode, ToEvmcStepStatusCode']),
    'C15': dict(lang='cpp', src='c15_sha3.cc', under=['evmzero::Sha3Cache::Hash and the LruCache operations it uses'], trusted=['ethash::keccak256 (an uninterpreted function of the input bytes)']),
    'C16': dict(lang='cpp', src='c16_env.cc', slim=True, under=['evmzero::internal::RunInterpreter and op::Impl<...>::Run of the environment, block and transaction query instructions']),
    'C13': dict(lang='cpp', src=['c13_calls.cc', 'c06_memory.cc'], slim=True, contracts=dict(CALLEES, **VECTOR),
                trusted=['std::vector<uint8_t>::assign and clear (contracts of the standard library, assumed)'], under=['evmzero::internal::RunInterpreter, Context::MemoryExpansionCost, evmzero::Memory and op::Impl<...>::Run of CALL, CALLCODE, DELEGATECALL, STATICCALL, CREATE, CREATE2']),
    'G02': dict(lang='go', src=[('go/tosca', 'g02_values.go')], under=['tosca.Add, Sub, Value.Scale, Value.Cmp, NewValue, ValueFromUint256, Value.ToUint256, getInternalUint64'],
                trusted=UINT),
    'G03': dict(lang='go', src=[('go/tosca', 'g03_storage.go')], under=['tosca.GetStorageStatus and the StorageStatus constants']),
    'G04': dict(lang='go', src=[('go/tosca', 'g04_words.go')], under=['tosca.SizeInWords']),
    'L01': dict(lang='go', src=[(LP, 'l01_arith.go+lfvm_base.go')], replace=LFVM, trusted=UINT, opts={'loop_limit': 1200},
                under=['lfvm.steps (dispatch), checkStackLimits, useGas and the op* functions of the arithmetic, comparison, bitwise, shift and byte instructions']),
    'L03': dict(lang='go', src=[(LP, 'l03_memory.go+lfvm_memory.go+lfvm_base.go')], replace=LFVM, trusted=UINT, opts={'loop_limit': 1200}, contracts=EXPAND,
                under=['lfvm.Memory: expandMemory, getExpansionCostsAndSize, getSlice, readWord, set, length, NewMemory']),
    'L02': dict(lang='go', src=[(LP, 'l02_checks.go+lfvm_host.go+lfvm_memory.go+lfvm_base.go')], replace=LFVM, trusted=UINT, opts={'loop_limit': 1200}, contracts=EXPAND,
                under=['lfvm.execute, steps, checkStackLimits, computeStackUsage, static gas tables, useGas and all instruction functions of the EVM instruction set']),
    'L04': dict(lang='go', src=[(LP, 'l04_storage.go+lfvm_host.go+lfvm_memory.go+lfvm_base.go')], replace=LFVM, trusted=UINT, opts={'loop_limit': 1200},
                under=['lfvm.execute, steps and opSload, opSstore, opTload, opTstore, opBalance, opSelfbalance, opExtcodesize, opExtcodehash, opSelfdestruct, opBlockhash, isEmpty, getAccessCost, getDynamicCostsForSstore, getRefundForSstore']),
    'L06': dict(lang='go', src=[(LP, 'l06_control.go+lfvm_host.go+lfvm_memory.go+lfvm_base.go')], replace=LFVM, trusted=UINT, opts={'loop_limit': 1200}, contracts=EXPAND,
                under=['lfvm.Run, run, generateResult, vanillaRunner.run, execute, steps, opJump, opJumpi, checkJumpDest, opPc, opStop, opEndWithResult, NewStack, ReturnStack']),
    'L07': dict(lang='go', src=[(LP, 'l07_calls.go+lfvm_host.go+lfvm_memory.go+lfvm_base.go')], replace=LFVM, trusted=UINT, opts={'loop_limit': 1200}, contracts={'lfvm_Memory_getSlice': 'vcontract_slice'},
                under=['lfvm.execute, steps, opCall, opCallCode, opDelegateCall, opStaticCall, genericCall, genericCreate, computeCodeSizeCost, getAccessCost, isEmpty, Memory.getSlice']),
    'L05': dict(lang='go', src=[(LP, 'l05_convert.go+lfvm_host.go+lfvm_memory.go+lfvm_base.go')], replace=LFVM, trusted=UINT, opts={'loop_limit': 1200}, contracts=EXPAND,
                bounded=['composition of the steps by the conversion loop (vch_whole_*): codes of at most 3 arbitrary bytes, and one push of any width followed by one instruction'],
                under=['lfvm.convert, convertWithObserver, appendInstructions, codeBuilder, Converter.Convert, NewConverter, common.RightPadSlice, opPush*, opJumpTo']),
    'F01': dict(lang='go', src=[(FP, 'f01_billing.go+floria_base.go')], trusted=UINT + GETH + ['floria.setUpAccessList, runContext.Call (assumed contracts in the proof of Run)'], opts={'sym_loop_limit': 3},
                contracts={'floria_runContext_Call': 'vcontract_call', 'floria_setUpAccessList': 'vcontract_declare', 'floria_setupGasBilling': 'vcontract_billing',
                           'floria_buyGas': 'vcontract_buy', 'floria_refundGas': 'vcontract_refund'},
                under=['floria.processor.Run, nonceCheck, eoaCheck, callKind, callParameters, setupGasBilling, buyGas, refundGas, calculateGasLeft, tosca.Add, Sub, Value.Scale, Value.Cmp']),
    'F02': dict(lang='go', src=[(FP, 'f02_transfer.go+floria_base.go')], trusted=UINT + GETH,
                under=['floria.transferValue, tosca.Add, Sub, Value.Cmp']),
}
NOT_APPLICABLE = {
    'R01': 'The Rust interpreter does not compile here: its dependencies (evmc-vm, ethnum, bnum, sha3) are absent, and the installed Rust verifiers (Verus, Kani) need a crate that type checks or a retyped copy, which would be a model.',
    'R02': 'As R01: the Rust interpreter does not compile here without its dependencies.',
    'R03': 'As R01: the Rust interpreter does not compile here without its dependencies.',
    'T01': 'No contracts were built for the conformance-test number type within the session (the technique applies).',
    'T02': 'No contracts were built for the conformance-test state representation within the session (the technique applies in part: its generators depend on absent modules).',
    'X01': 'Whole-program concurrency (independence of simultaneous executions, Go registry and caches under every schedule) is not expressible in the sequential contracts of this technique; the lock discipline of the C++ cache and stack pool is covered by C02 and C07.',
    'X02': 'Agreement of the interpreters on whole programs needs a relational proof over unbounded executions of four interpreters; per-instruction contracts (C08-C16, L01-L07, R01-R02) are the part this technique decides.',
}
