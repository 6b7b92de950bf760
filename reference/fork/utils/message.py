#: module frontier..osaka
#: frontier..osaka
from ethereum_types.bytes import Bytes, Bytes0
from ethereum_types.numeric import Uint
from ..fork_types import Address
from ..state import get_account
from ..transactions import Transaction
from ..vm import BlockEnvironment, Message, TransactionEnvironment
#: berlin..osaka
from ..vm.precompiled_contracts.mapping import PRE_COMPILED_CONTRACTS
#: frontier..osaka
from .address import compute_contract_address
#: frontier
def prepare_message(block_env: BlockEnvironment, tx_env: TransactionEnvironment, tx: Transaction) -> Message:
    if isinstance(tx.to, Bytes0):
        current_target = compute_contract_address(tx_env.origin, get_account(block_env.state, tx_env.origin).nonce - Uint(1))
        msg_data = Bytes(b'')
        code = tx.data
        code_address = None
    elif isinstance(tx.to, Address):
        current_target = tx.to
        msg_data = tx.data
        code = get_account(block_env.state, tx.to).code
        code_address = tx.to
    else:
        raise AssertionError('Target must be address or empty bytes')
    return Message(block_env=block_env, tx_env=tx_env, caller=tx_env.origin, target=tx.to, gas=tx_env.gas, value=tx.value, data=msg_data, code=code, depth=Uint(0), current_target=current_target, code_address=code_address, parent_evm=None)
#: homestead..spurious_dragon
def prepare_message(block_env: BlockEnvironment, tx_env: TransactionEnvironment, tx: Transaction) -> Message:
    if isinstance(tx.to, Bytes0):
        current_target = compute_contract_address(tx_env.origin, get_account(block_env.state, tx_env.origin).nonce - Uint(1))
        msg_data = Bytes(b'')
        code = tx.data
        code_address = None
    elif isinstance(tx.to, Address):
        current_target = tx.to
        msg_data = tx.data
        code = get_account(block_env.state, tx.to).code
        code_address = tx.to
    else:
        raise AssertionError('Target must be address or empty bytes')
    return Message(block_env=block_env, tx_env=tx_env, caller=tx_env.origin, target=tx.to, gas=tx_env.gas, value=tx.value, data=msg_data, code=code, depth=Uint(0), current_target=current_target, code_address=code_address, should_transfer_value=True, parent_evm=None)
#: byzantium..muir_glacier
def prepare_message(block_env: BlockEnvironment, tx_env: TransactionEnvironment, tx: Transaction) -> Message:
    if isinstance(tx.to, Bytes0):
        current_target = compute_contract_address(tx_env.origin, get_account(block_env.state, tx_env.origin).nonce - Uint(1))
        msg_data = Bytes(b'')
        code = tx.data
        code_address = None
    elif isinstance(tx.to, Address):
        current_target = tx.to
        msg_data = tx.data
        code = get_account(block_env.state, tx.to).code
        code_address = tx.to
    else:
        raise AssertionError('Target must be address or empty bytes')
    return Message(block_env=block_env, tx_env=tx_env, caller=tx_env.origin, target=tx.to, gas=tx_env.gas, value=tx.value, data=msg_data, code=code, depth=Uint(0), current_target=current_target, code_address=code_address, should_transfer_value=True, is_static=False, parent_evm=None)
#: berlin..cancun
def prepare_message(block_env: BlockEnvironment, tx_env: TransactionEnvironment, tx: Transaction) -> Message:
    accessed_addresses = set()
    accessed_addresses.add(tx_env.origin)
    accessed_addresses.update(PRE_COMPILED_CONTRACTS.keys())
    accessed_addresses.update(tx_env.access_list_addresses)
    if isinstance(tx.to, Bytes0):
        current_target = compute_contract_address(tx_env.origin, get_account(block_env.state, tx_env.origin).nonce - Uint(1))
        msg_data = Bytes(b'')
        code = tx.data
        code_address = None
    elif isinstance(tx.to, Address):
        current_target = tx.to
        msg_data = tx.data
        code = get_account(block_env.state, tx.to).code
        code_address = tx.to
    else:
        raise AssertionError('Target must be address or empty bytes')
    accessed_addresses.add(current_target)
    return Message(block_env=block_env, tx_env=tx_env, caller=tx_env.origin, target=tx.to, gas=tx_env.gas, value=tx.value, data=msg_data, code=code, depth=Uint(0), current_target=current_target, code_address=code_address, should_transfer_value=True, is_static=False, accessed_addresses=accessed_addresses, accessed_storage_keys=set(tx_env.access_list_storage_keys), parent_evm=None)
#: prague..osaka
def prepare_message(block_env: BlockEnvironment, tx_env: TransactionEnvironment, tx: Transaction) -> Message:
    accessed_addresses = set()
    accessed_addresses.add(tx_env.origin)
    accessed_addresses.update(PRE_COMPILED_CONTRACTS.keys())
    accessed_addresses.update(tx_env.access_list_addresses)
    if isinstance(tx.to, Bytes0):
        current_target = compute_contract_address(tx_env.origin, get_account(block_env.state, tx_env.origin).nonce - Uint(1))
        msg_data = Bytes(b'')
        code = tx.data
        code_address = None
    elif isinstance(tx.to, Address):
        current_target = tx.to
        msg_data = tx.data
        code = get_account(block_env.state, tx.to).code
        code_address = tx.to
    else:
        raise AssertionError('Target must be address or empty bytes')
    accessed_addresses.add(current_target)
    return Message(block_env=block_env, tx_env=tx_env, caller=tx_env.origin, target=tx.to, gas=tx_env.gas, value=tx.value, data=msg_data, code=code, depth=Uint(0), current_target=current_target, code_address=code_address, should_transfer_value=True, is_static=False, accessed_addresses=accessed_addresses, accessed_storage_keys=set(tx_env.access_list_storage_keys), disable_precompiles=False, parent_evm=None)
