#: module frontier..osaka
#: frontier..osaka
from ethereum_types.numeric import U256, Uint
from ethereum.crypto.hash import keccak256
from ethereum.utils.numeric import ceil32
from .. import Evm
from ..gas import GAS_KECCAK256, GAS_KECCAK256_WORD, calculate_gas_extend_memory, charge_gas
from ..memory import memory_read_bytes
from ..stack import pop, push
def keccak(evm: Evm) -> None:
    memory_start_index = pop(evm.stack)
    size = pop(evm.stack)
    words = ceil32(Uint(size)) // Uint(32)
    word_gas_cost = GAS_KECCAK256_WORD * words
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_start_index, size)])
    charge_gas(evm, GAS_KECCAK256 + word_gas_cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    data = memory_read_bytes(evm.memory, memory_start_index, size)
    hash = keccak256(data)
    push(evm.stack, U256.from_be_bytes(hash))
    evm.pc += Uint(1)
