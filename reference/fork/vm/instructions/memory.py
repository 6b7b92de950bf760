#: module frontier..osaka
#: frontier..osaka
from ethereum_types.bytes import Bytes
from ethereum_types.numeric import U256, Uint
#: cancun..osaka
from ethereum.utils.numeric import ceil32
#: frontier..osaka
from .. import Evm
#: frontier..shanghai
from ..gas import GAS_BASE, GAS_VERY_LOW, calculate_gas_extend_memory, charge_gas
#: cancun..osaka
from ..gas import GAS_BASE, GAS_COPY, GAS_VERY_LOW, calculate_gas_extend_memory, charge_gas
#: frontier..osaka
from ..memory import memory_read_bytes, memory_write
from ..stack import pop, push
def mstore(evm: Evm) -> None:
    start_position = pop(evm.stack)
    value = pop(evm.stack).to_be_bytes32()
    extend_memory = calculate_gas_extend_memory(evm.memory, [(start_position, U256(len(value)))])
    charge_gas(evm, GAS_VERY_LOW + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    memory_write(evm.memory, start_position, value)
    evm.pc += Uint(1)
def mstore8(evm: Evm) -> None:
    start_position = pop(evm.stack)
    value = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(start_position, U256(1))])
    charge_gas(evm, GAS_VERY_LOW + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    normalized_bytes_value = Bytes([value & U256(255)])
    memory_write(evm.memory, start_position, normalized_bytes_value)
    evm.pc += Uint(1)
def mload(evm: Evm) -> None:
    start_position = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(start_position, U256(32))])
    charge_gas(evm, GAS_VERY_LOW + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    value = U256.from_be_bytes(memory_read_bytes(evm.memory, start_position, U256(32)))
    push(evm.stack, value)
    evm.pc += Uint(1)
def msize(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    push(evm.stack, U256(len(evm.memory)))
    evm.pc += Uint(1)
#: cancun..osaka
def mcopy(evm: Evm) -> None:
    destination = pop(evm.stack)
    source = pop(evm.stack)
    length = pop(evm.stack)
    words = ceil32(Uint(length)) // Uint(32)
    copy_gas_cost = GAS_COPY * words
    extend_memory = calculate_gas_extend_memory(evm.memory, [(source, length), (destination, length)])
    charge_gas(evm, GAS_VERY_LOW + copy_gas_cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    value = memory_read_bytes(evm.memory, source, length)
    memory_write(evm.memory, destination, value)
    evm.pc += Uint(1)
