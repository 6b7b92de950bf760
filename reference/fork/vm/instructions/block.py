#: module frontier..osaka
#: frontier..osaka
from ethereum_types.numeric import U256, Uint
from .. import Evm
from ..gas import GAS_BASE, GAS_BLOCK_HASH, charge_gas
from ..stack import pop, push
def block_hash(evm: Evm) -> None:
    block_number = Uint(pop(evm.stack))
    charge_gas(evm, GAS_BLOCK_HASH)
    max_block_number = block_number + Uint(256)
    current_block_number = evm.message.block_env.number
    if current_block_number <= block_number or current_block_number > max_block_number:
        hash = b'\x00'
    else:
        hash = evm.message.block_env.block_hashes[-(current_block_number - block_number)]
    push(evm.stack, U256.from_be_bytes(hash))
    evm.pc += Uint(1)
def coinbase(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    push(evm.stack, U256.from_be_bytes(evm.message.block_env.coinbase))
    evm.pc += Uint(1)
def timestamp(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    push(evm.stack, evm.message.block_env.time)
    evm.pc += Uint(1)
def number(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    push(evm.stack, U256(evm.message.block_env.number))
    evm.pc += Uint(1)
#: frontier..gray_glacier
def difficulty(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    push(evm.stack, U256(evm.message.block_env.difficulty))
    evm.pc += Uint(1)
#: paris..osaka
def prev_randao(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    push(evm.stack, U256.from_be_bytes(evm.message.block_env.prev_randao))
    evm.pc += Uint(1)
#: frontier..osaka
def gas_limit(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    push(evm.stack, U256(evm.message.block_env.block_gas_limit))
    evm.pc += Uint(1)
#: istanbul..osaka
def chain_id(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    push(evm.stack, U256(evm.message.block_env.chain_id))
    evm.pc += Uint(1)
