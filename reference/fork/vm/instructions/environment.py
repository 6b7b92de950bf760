#: module frontier..osaka
#: frontier..spurious_dragon
from ethereum_types.numeric import U256, Uint
#: cancun..osaka
from ethereum_types.bytes import Bytes32
#: byzantium..osaka
from ethereum_types.numeric import U256, Uint, ulen
#: constantinople..osaka
from ethereum.crypto.hash import keccak256
#: frontier..osaka
from ethereum.utils.numeric import ceil32
#: constantinople..osaka
from ...fork_types import EMPTY_ACCOUNT
#: frontier..osaka
from ...state import get_account
from ...utils.address import to_address_masked
from ...vm.memory import buffer_read, memory_write
from .. import Evm
#: frontier..spurious_dragon
from ..gas import GAS_BALANCE, GAS_BASE, GAS_COPY, GAS_EXTERNAL, GAS_VERY_LOW, calculate_gas_extend_memory, charge_gas
#: byzantium..osaka
from ..exceptions import OutOfBoundsRead
#: byzantium
from ..gas import GAS_BALANCE, GAS_BASE, GAS_COPY, GAS_EXTERNAL, GAS_RETURN_DATA_COPY, GAS_VERY_LOW, calculate_gas_extend_memory, charge_gas
#: constantinople
from ..gas import GAS_BALANCE, GAS_BASE, GAS_CODE_HASH, GAS_COPY, GAS_EXTERNAL, GAS_RETURN_DATA_COPY, GAS_VERY_LOW, calculate_gas_extend_memory, charge_gas
#: istanbul..muir_glacier
from ..gas import GAS_BALANCE, GAS_BASE, GAS_CODE_HASH, GAS_COPY, GAS_EXTERNAL, GAS_FAST_STEP, GAS_RETURN_DATA_COPY, GAS_VERY_LOW, calculate_gas_extend_memory, charge_gas
#: berlin..shanghai
from ..gas import GAS_BASE, GAS_COLD_ACCOUNT_ACCESS, GAS_COPY, GAS_FAST_STEP, GAS_RETURN_DATA_COPY, GAS_VERY_LOW, GAS_WARM_ACCESS, calculate_gas_extend_memory, charge_gas
#: cancun..osaka
from ..gas import GAS_BASE, GAS_BLOBHASH_OPCODE, GAS_COLD_ACCOUNT_ACCESS, GAS_COPY, GAS_FAST_STEP, GAS_RETURN_DATA_COPY, GAS_VERY_LOW, GAS_WARM_ACCESS, calculate_blob_gas_price, calculate_gas_extend_memory, charge_gas
#: frontier..osaka
from ..stack import pop, push
def address(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    push(evm.stack, U256.from_be_bytes(evm.message.current_target))
    evm.pc += Uint(1)
#: frontier..muir_glacier
def balance(evm: Evm) -> None:
    address = to_address_masked(pop(evm.stack))
    charge_gas(evm, GAS_BALANCE)
    balance = get_account(evm.message.block_env.state, address).balance
    push(evm.stack, balance)
    evm.pc += Uint(1)
#: berlin..osaka
def balance(evm: Evm) -> None:
    address = to_address_masked(pop(evm.stack))
    if address in evm.accessed_addresses:
        charge_gas(evm, GAS_WARM_ACCESS)
    else:
        evm.accessed_addresses.add(address)
        charge_gas(evm, GAS_COLD_ACCOUNT_ACCESS)
    balance = get_account(evm.message.block_env.state, address).balance
    push(evm.stack, balance)
    evm.pc += Uint(1)
#: frontier..osaka
def origin(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    push(evm.stack, U256.from_be_bytes(evm.message.tx_env.origin))
    evm.pc += Uint(1)
def caller(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    push(evm.stack, U256.from_be_bytes(evm.message.caller))
    evm.pc += Uint(1)
def callvalue(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    push(evm.stack, evm.message.value)
    evm.pc += Uint(1)
def calldataload(evm: Evm) -> None:
    start_index = pop(evm.stack)
    charge_gas(evm, GAS_VERY_LOW)
    value = buffer_read(evm.message.data, start_index, U256(32))
    push(evm.stack, U256.from_be_bytes(value))
    evm.pc += Uint(1)
def calldatasize(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    push(evm.stack, U256(len(evm.message.data)))
    evm.pc += Uint(1)
def calldatacopy(evm: Evm) -> None:
    memory_start_index = pop(evm.stack)
    data_start_index = pop(evm.stack)
    size = pop(evm.stack)
    words = ceil32(Uint(size)) // Uint(32)
    copy_gas_cost = GAS_COPY * words
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_start_index, size)])
    charge_gas(evm, GAS_VERY_LOW + copy_gas_cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    value = buffer_read(evm.message.data, data_start_index, size)
    memory_write(evm.memory, memory_start_index, value)
    evm.pc += Uint(1)
def codesize(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    push(evm.stack, U256(len(evm.code)))
    evm.pc += Uint(1)
def codecopy(evm: Evm) -> None:
    memory_start_index = pop(evm.stack)
    code_start_index = pop(evm.stack)
    size = pop(evm.stack)
    words = ceil32(Uint(size)) // Uint(32)
    copy_gas_cost = GAS_COPY * words
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_start_index, size)])
    charge_gas(evm, GAS_VERY_LOW + copy_gas_cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    value = buffer_read(evm.code, code_start_index, size)
    memory_write(evm.memory, memory_start_index, value)
    evm.pc += Uint(1)
def gasprice(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    push(evm.stack, U256(evm.message.tx_env.gas_price))
    evm.pc += Uint(1)
#: frontier..muir_glacier
def extcodesize(evm: Evm) -> None:
    address = to_address_masked(pop(evm.stack))
    charge_gas(evm, GAS_EXTERNAL)
    code = get_account(evm.message.block_env.state, address).code
    codesize = U256(len(code))
    push(evm.stack, codesize)
    evm.pc += Uint(1)
def extcodecopy(evm: Evm) -> None:
    address = to_address_masked(pop(evm.stack))
    memory_start_index = pop(evm.stack)
    code_start_index = pop(evm.stack)
    size = pop(evm.stack)
    words = ceil32(Uint(size)) // Uint(32)
    copy_gas_cost = GAS_COPY * words
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_start_index, size)])
    charge_gas(evm, GAS_EXTERNAL + copy_gas_cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    code = get_account(evm.message.block_env.state, address).code
    value = buffer_read(code, code_start_index, size)
    memory_write(evm.memory, memory_start_index, value)
    evm.pc += Uint(1)
#: berlin..osaka
def extcodesize(evm: Evm) -> None:
    address = to_address_masked(pop(evm.stack))
    if address in evm.accessed_addresses:
        access_gas_cost = GAS_WARM_ACCESS
    else:
        evm.accessed_addresses.add(address)
        access_gas_cost = GAS_COLD_ACCOUNT_ACCESS
    charge_gas(evm, access_gas_cost)
    code = get_account(evm.message.block_env.state, address).code
    codesize = U256(len(code))
    push(evm.stack, codesize)
    evm.pc += Uint(1)
def extcodecopy(evm: Evm) -> None:
    address = to_address_masked(pop(evm.stack))
    memory_start_index = pop(evm.stack)
    code_start_index = pop(evm.stack)
    size = pop(evm.stack)
    words = ceil32(Uint(size)) // Uint(32)
    copy_gas_cost = GAS_COPY * words
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_start_index, size)])
    if address in evm.accessed_addresses:
        access_gas_cost = GAS_WARM_ACCESS
    else:
        evm.accessed_addresses.add(address)
        access_gas_cost = GAS_COLD_ACCOUNT_ACCESS
    charge_gas(evm, access_gas_cost + copy_gas_cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    code = get_account(evm.message.block_env.state, address).code
    value = buffer_read(code, code_start_index, size)
    memory_write(evm.memory, memory_start_index, value)
    evm.pc += Uint(1)
#: byzantium..osaka
def returndatasize(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    push(evm.stack, U256(len(evm.return_data)))
    evm.pc += Uint(1)
def returndatacopy(evm: Evm) -> None:
    memory_start_index = pop(evm.stack)
    return_data_start_position = pop(evm.stack)
    size = pop(evm.stack)
    words = ceil32(Uint(size)) // Uint(32)
    copy_gas_cost = GAS_RETURN_DATA_COPY * words
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_start_index, size)])
    charge_gas(evm, GAS_VERY_LOW + copy_gas_cost + extend_memory.cost)
    if Uint(return_data_start_position) + Uint(size) > ulen(evm.return_data):
        raise OutOfBoundsRead
    evm.memory += b'\x00' * extend_memory.expand_by
    value = evm.return_data[return_data_start_position:return_data_start_position + size]
    memory_write(evm.memory, memory_start_index, value)
    evm.pc += Uint(1)
#: constantinople..muir_glacier
def extcodehash(evm: Evm) -> None:
    address = to_address_masked(pop(evm.stack))
    charge_gas(evm, GAS_CODE_HASH)
    account = get_account(evm.message.block_env.state, address)
    if account == EMPTY_ACCOUNT:
        codehash = U256(0)
    else:
        code = account.code
        codehash = U256.from_be_bytes(keccak256(code))
    push(evm.stack, codehash)
    evm.pc += Uint(1)
#: berlin..osaka
def extcodehash(evm: Evm) -> None:
    address = to_address_masked(pop(evm.stack))
    if address in evm.accessed_addresses:
        access_gas_cost = GAS_WARM_ACCESS
    else:
        evm.accessed_addresses.add(address)
        access_gas_cost = GAS_COLD_ACCOUNT_ACCESS
    charge_gas(evm, access_gas_cost)
    account = get_account(evm.message.block_env.state, address)
    if account == EMPTY_ACCOUNT:
        codehash = U256(0)
    else:
        code = account.code
        codehash = U256.from_be_bytes(keccak256(code))
    push(evm.stack, codehash)
    evm.pc += Uint(1)
#: istanbul..osaka
def self_balance(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_FAST_STEP)
    balance = get_account(evm.message.block_env.state, evm.message.current_target).balance
    push(evm.stack, balance)
    evm.pc += Uint(1)
#: london..osaka
def base_fee(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    push(evm.stack, U256(evm.message.block_env.base_fee_per_gas))
    evm.pc += Uint(1)
#: cancun..osaka
def blob_hash(evm: Evm) -> None:
    index = pop(evm.stack)
    charge_gas(evm, GAS_BLOBHASH_OPCODE)
    if int(index) < len(evm.message.tx_env.blob_versioned_hashes):
        blob_hash = evm.message.tx_env.blob_versioned_hashes[index]
    else:
        blob_hash = Bytes32(b'\x00' * 32)
    push(evm.stack, U256.from_be_bytes(blob_hash))
    evm.pc += Uint(1)
def blob_base_fee(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    blob_base_fee = calculate_blob_gas_price(evm.message.block_env.excess_blob_gas)
    push(evm.stack, U256(blob_base_fee))
    evm.pc += Uint(1)
