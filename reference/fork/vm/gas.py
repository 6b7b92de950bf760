#: module frontier..osaka
#: frontier..osaka
from dataclasses import dataclass
from typing import List, Tuple
#: frontier..shanghai
from ethereum_types.numeric import U256, Uint
#: cancun..osaka
from ethereum_types.numeric import U64, U256, Uint
#: frontier..osaka
from ethereum.trace import GasAndRefund, evm_trace
#: frontier..shanghai
from ethereum.utils.numeric import ceil32
#: frontier..dao_fork
from ..fork_types import Address
from ..state import State, account_exists
#: cancun..osaka
from ethereum.utils.numeric import ceil32, taylor_exponential
from ..blocks import Header
from ..transactions import BlobTransaction, Transaction
#: frontier..osaka
from . import Evm
from .exceptions import OutOfGasError
GAS_JUMPDEST = Uint(1)
GAS_BASE = Uint(2)
GAS_VERY_LOW = Uint(3)
#: frontier..dao_fork
GAS_SLOAD = Uint(50)
#: tangerine_whistle..constantinople
GAS_SLOAD = Uint(200)
#: istanbul..muir_glacier
GAS_SLOAD = Uint(800)
#: frontier..osaka
GAS_STORAGE_SET = Uint(20000)
GAS_STORAGE_UPDATE = Uint(5000)
#: frontier..berlin
GAS_STORAGE_CLEAR_REFUND = Uint(15000)
#: london..osaka
GAS_STORAGE_CLEAR_REFUND = Uint(4800)
#: frontier..osaka
GAS_LOW = Uint(5)
GAS_MID = Uint(8)
GAS_HIGH = Uint(10)
GAS_EXPONENTIATION = Uint(10)
#: frontier..tangerine_whistle
GAS_EXPONENTIATION_PER_BYTE = Uint(10)
#: spurious_dragon..osaka
GAS_EXPONENTIATION_PER_BYTE = Uint(50)
#: frontier..osaka
GAS_MEMORY = Uint(3)
GAS_KECCAK256 = Uint(30)
GAS_KECCAK256_WORD = Uint(6)
GAS_COPY = Uint(3)
GAS_BLOCK_HASH = Uint(20)
#: frontier..dao_fork
GAS_EXTERNAL = Uint(20)
GAS_BALANCE = Uint(20)
#: tangerine_whistle..muir_glacier
GAS_EXTERNAL = Uint(700)
#: tangerine_whistle..constantinople
GAS_BALANCE = Uint(400)
#: istanbul..muir_glacier
GAS_BALANCE = Uint(700)
#: frontier..osaka
GAS_LOG = Uint(375)
GAS_LOG_DATA = Uint(8)
GAS_LOG_TOPIC = Uint(375)
GAS_CREATE = Uint(32000)
GAS_CODE_DEPOSIT = Uint(200)
GAS_ZERO = Uint(0)
#: frontier..dao_fork
GAS_CALL = Uint(40)
#: tangerine_whistle..muir_glacier
GAS_CALL = Uint(700)
#: frontier..osaka
GAS_NEW_ACCOUNT = Uint(25000)
GAS_CALL_VALUE = Uint(9000)
GAS_CALL_STIPEND = Uint(2300)
#: frontier..dao_fork
REFUND_SELF_DESTRUCT = Uint(24000)
#: tangerine_whistle..osaka
GAS_SELF_DESTRUCT = Uint(5000)
GAS_SELF_DESTRUCT_NEW_ACCOUNT = Uint(25000)
#: tangerine_whistle..berlin
REFUND_SELF_DESTRUCT = 24000
#: frontier..osaka
GAS_ECRECOVER = Uint(3000)
#: osaka
GAS_P256VERIFY = Uint(6900)
#: frontier..osaka
GAS_SHA256 = Uint(60)
GAS_SHA256_WORD = Uint(12)
GAS_RIPEMD160 = Uint(600)
GAS_RIPEMD160_WORD = Uint(120)
GAS_IDENTITY = Uint(15)
GAS_IDENTITY_WORD = Uint(3)
#: byzantium..osaka
GAS_RETURN_DATA_COPY = Uint(3)
#: constantinople
GAS_CODE_HASH = Uint(400)
#: istanbul..muir_glacier
GAS_CODE_HASH = Uint(700)
#: istanbul..osaka
GAS_FAST_STEP = Uint(5)
GAS_BLAKE2_PER_ROUND = Uint(1)
#: berlin..osaka
GAS_COLD_SLOAD = Uint(2100)
GAS_COLD_ACCOUNT_ACCESS = Uint(2600)
GAS_WARM_ACCESS = Uint(100)
#: shanghai..osaka
GAS_INIT_CODE_WORD_COST = Uint(2)
#: cancun..osaka
GAS_BLOBHASH_OPCODE = Uint(3)
GAS_POINT_EVALUATION = Uint(50000)
GAS_PER_BLOB = U64(2 ** 17)
#: cancun
TARGET_BLOB_GAS_PER_BLOCK = U64(393216)
#: prague
TARGET_BLOB_GAS_PER_BLOCK = U64(786432)
#: osaka
BLOB_SCHEDULE_TARGET = U64(6)
TARGET_BLOB_GAS_PER_BLOCK = GAS_PER_BLOB * BLOB_SCHEDULE_TARGET
BLOB_BASE_COST = Uint(2 ** 13)
BLOB_SCHEDULE_MAX = U64(9)
#: cancun..osaka
MIN_BLOB_GASPRICE = Uint(1)
#: cancun
BLOB_BASE_FEE_UPDATE_FRACTION = Uint(3338477)
#: prague..osaka
BLOB_BASE_FEE_UPDATE_FRACTION = Uint(5007716)
GAS_BLS_G1_ADD = Uint(375)
GAS_BLS_G1_MUL = Uint(12000)
GAS_BLS_G1_MAP = Uint(5500)
GAS_BLS_G2_ADD = Uint(600)
GAS_BLS_G2_MUL = Uint(22500)
GAS_BLS_G2_MAP = Uint(23800)
#: frontier..osaka
@dataclass
class ExtendMemory:
    cost: Uint
    expand_by: Uint
@dataclass
class MessageCallGas:
    cost: Uint
    sub_call: Uint
def charge_gas(evm: Evm, amount: Uint) -> None:
    evm_trace(evm, GasAndRefund(int(amount)))
    if evm.gas_left < amount:
        raise OutOfGasError
    else:
        evm.gas_left -= amount
def calculate_memory_gas_cost(size_in_bytes: Uint) -> Uint:
    size_in_words = ceil32(size_in_bytes) // Uint(32)
    linear_cost = size_in_words * GAS_MEMORY
    quadratic_cost = size_in_words ** Uint(2) // Uint(512)
    total_gas_cost = linear_cost + quadratic_cost
    try:
        return total_gas_cost
    except ValueError:
        raise OutOfGasError
def calculate_gas_extend_memory(memory: bytearray, extensions: List[Tuple[U256, U256]]) -> ExtendMemory:
    size_to_extend = Uint(0)
    to_be_paid = Uint(0)
    current_size = Uint(len(memory))
    for start_position, size in extensions:
        if size == 0:
            continue
        before_size = ceil32(current_size)
        after_size = ceil32(Uint(start_position) + Uint(size))
        if after_size <= before_size:
            continue
        size_to_extend += after_size - before_size
        already_paid = calculate_memory_gas_cost(before_size)
        total_cost = calculate_memory_gas_cost(after_size)
        to_be_paid += total_cost - already_paid
        current_size = after_size
    return ExtendMemory(to_be_paid, size_to_extend)
#: frontier..dao_fork
def calculate_message_call_gas(state: State, gas: Uint, to: Address, value: U256) -> MessageCallGas:
    create_gas_cost = Uint(0) if account_exists(state, to) else GAS_NEW_ACCOUNT
    transfer_gas_cost = Uint(0) if value == 0 else GAS_CALL_VALUE
    cost = GAS_CALL + gas + create_gas_cost + transfer_gas_cost
    stipend = gas if value == 0 else GAS_CALL_STIPEND + gas
    return MessageCallGas(cost, stipend)
#: tangerine_whistle..osaka
def calculate_message_call_gas(value: U256, gas: Uint, gas_left: Uint, memory_cost: Uint, extra_gas: Uint, call_stipend: Uint=GAS_CALL_STIPEND) -> MessageCallGas:
    call_stipend = Uint(0) if value == 0 else call_stipend
    if gas_left < extra_gas + memory_cost:
        return MessageCallGas(gas + extra_gas, gas + call_stipend)
    gas = min(gas, max_message_call_gas(gas_left - memory_cost - extra_gas))
    return MessageCallGas(gas + extra_gas, gas + call_stipend)
def max_message_call_gas(gas: Uint) -> Uint:
    return gas - gas // Uint(64)
#: shanghai..osaka
def init_code_cost(init_code_length: Uint) -> Uint:
    return GAS_INIT_CODE_WORD_COST * ceil32(init_code_length) // Uint(32)
#: cancun..prague
def calculate_excess_blob_gas(parent_header: Header) -> U64:
    excess_blob_gas = U64(0)
    blob_gas_used = U64(0)
    if isinstance(parent_header, Header):
        excess_blob_gas = parent_header.excess_blob_gas
        blob_gas_used = parent_header.blob_gas_used
    parent_blob_gas = excess_blob_gas + blob_gas_used
    if parent_blob_gas < TARGET_BLOB_GAS_PER_BLOCK:
        return U64(0)
    return parent_blob_gas - TARGET_BLOB_GAS_PER_BLOCK
#: osaka
def calculate_excess_blob_gas(parent_header: Header) -> U64:
    excess_blob_gas = U64(0)
    blob_gas_used = U64(0)
    base_fee_per_gas = Uint(0)
    if isinstance(parent_header, Header):
        excess_blob_gas = parent_header.excess_blob_gas
        blob_gas_used = parent_header.blob_gas_used
        base_fee_per_gas = parent_header.base_fee_per_gas
    parent_blob_gas = excess_blob_gas + blob_gas_used
    if parent_blob_gas < TARGET_BLOB_GAS_PER_BLOCK:
        return U64(0)
    target_blob_gas_price = Uint(GAS_PER_BLOB)
    target_blob_gas_price *= calculate_blob_gas_price(excess_blob_gas)
    base_blob_tx_price = BLOB_BASE_COST * base_fee_per_gas
    if base_blob_tx_price > target_blob_gas_price:
        blob_schedule_delta = BLOB_SCHEDULE_MAX - BLOB_SCHEDULE_TARGET
        return excess_blob_gas + blob_gas_used * blob_schedule_delta // BLOB_SCHEDULE_MAX
    return parent_blob_gas - TARGET_BLOB_GAS_PER_BLOCK
#: cancun..osaka
def calculate_total_blob_gas(tx: Transaction) -> U64:
    if isinstance(tx, BlobTransaction):
        return GAS_PER_BLOB * U64(len(tx.blob_versioned_hashes))
    else:
        return U64(0)
def calculate_blob_gas_price(excess_blob_gas: U64) -> Uint:
    return taylor_exponential(MIN_BLOB_GASPRICE, Uint(excess_blob_gas), BLOB_BASE_FEE_UPDATE_FRACTION)
def calculate_data_fee(excess_blob_gas: U64, tx: Transaction) -> Uint:
    return Uint(calculate_total_blob_gas(tx)) * calculate_blob_gas_price(excess_blob_gas)
