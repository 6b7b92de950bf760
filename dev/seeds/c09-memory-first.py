PROPERTY="C09"
NEEDS="EXTCODECOPY with a huge memory range and too little gas"
BREAKS="memory is expanded before the gas for it is charged, so an out-of-gas frame has already done the work"
EDITS=[("ethereum/berlin/vm/instructions/environment.py",'''        evm.accessed_addresses.add(address)
        access_gas_cost = GAS_COLD_ACCOUNT_ACCESS

    charge_gas(evm, access_gas_cost + copy_gas_cost + extend_memory.cost)

    # OPERATION
    evm.memory += b"\\x00" * extend_memory.expand_by
    code =''','''        evm.accessed_addresses.add(address)
        access_gas_cost = GAS_COLD_ACCOUNT_ACCESS

    evm.memory += b"\\x00" * extend_memory.expand_by
    charge_gas(evm, access_gas_cost + copy_gas_cost + extend_memory.cost)

    # OPERATION
    code =''')]
DEMO='''
f = Fork("berlin")
f.account(0xAA, op(push(1000000), push(0), push(0), push(0xBB), 0x3C))
e = f.call(gas=3000)
assert type(e.error).__name__ == "OutOfGasError", e.error
assert len(e.memory) == 0, len(e.memory)
'''
