#: module frontier..osaka
#: frontier..spurious_dragon
from ethereum_types.bytes import Bytes0
#: byzantium..osaka
from ethereum_types.bytes import Bytes, Bytes0
#: frontier..osaka
from ethereum_types.numeric import U256, Uint
#: constantinople..osaka
from ethereum.utils.numeric import ceil32
#: frontier..osaka
from ...fork_types import Address
#: frontier..dao_fork
from ...state import account_has_code_or_nonce, account_has_storage, get_account, increment_nonce, set_account_balance
#: tangerine_whistle
from ...state import account_exists, account_has_code_or_nonce, account_has_storage, get_account, increment_nonce, set_account_balance
#: spurious_dragon..gray_glacier
from ...state import account_exists_and_is_empty, account_has_code_or_nonce, account_has_storage, get_account, increment_nonce, is_account_alive, set_account_balance
#: frontier..byzantium
from ...utils.address import compute_contract_address, to_address_masked
#: paris..shanghai
from ...state import account_has_code_or_nonce, account_has_storage, get_account, increment_nonce, is_account_alive, set_account_balance
#: cancun..osaka
from ...state import account_has_code_or_nonce, account_has_storage, get_account, increment_nonce, is_account_alive, move_ether, set_account_balance
#: constantinople..osaka
from ...utils.address import compute_contract_address, compute_create2_contract_address, to_address_masked
#: prague..osaka
from ...vm.eoa_delegation import access_delegation
#: frontier..osaka
from .. import Evm, Message, incorporate_child_on_error, incorporate_child_on_success
#: frontier
from ..gas import GAS_CREATE, GAS_ZERO, REFUND_SELF_DESTRUCT, calculate_gas_extend_memory, calculate_message_call_gas, charge_gas
#: homestead..dao_fork
from ..gas import GAS_CALL, GAS_CREATE, GAS_ZERO, REFUND_SELF_DESTRUCT, calculate_gas_extend_memory, calculate_message_call_gas, charge_gas
#: byzantium..paris
from ..exceptions import Revert, WriteInStaticContext
#: tangerine_whistle..byzantium
from ..gas import GAS_CALL, GAS_CALL_VALUE, GAS_CREATE, GAS_NEW_ACCOUNT, GAS_SELF_DESTRUCT, GAS_SELF_DESTRUCT_NEW_ACCOUNT, GAS_ZERO, REFUND_SELF_DESTRUCT, calculate_gas_extend_memory, calculate_message_call_gas, charge_gas, max_message_call_gas
#: constantinople..muir_glacier
from ..gas import GAS_CALL, GAS_CALL_VALUE, GAS_CREATE, GAS_KECCAK256_WORD, GAS_NEW_ACCOUNT, GAS_SELF_DESTRUCT, GAS_SELF_DESTRUCT_NEW_ACCOUNT, GAS_ZERO, REFUND_SELF_DESTRUCT, calculate_gas_extend_memory, calculate_message_call_gas, charge_gas, max_message_call_gas
#: berlin
from ..gas import GAS_CALL_VALUE, GAS_COLD_ACCOUNT_ACCESS, GAS_CREATE, GAS_KECCAK256_WORD, GAS_NEW_ACCOUNT, GAS_SELF_DESTRUCT, GAS_SELF_DESTRUCT_NEW_ACCOUNT, GAS_WARM_ACCESS, GAS_ZERO, REFUND_SELF_DESTRUCT, calculate_gas_extend_memory, calculate_message_call_gas, charge_gas, max_message_call_gas
#: london..paris
from ..gas import GAS_CALL_VALUE, GAS_COLD_ACCOUNT_ACCESS, GAS_CREATE, GAS_KECCAK256_WORD, GAS_NEW_ACCOUNT, GAS_SELF_DESTRUCT, GAS_SELF_DESTRUCT_NEW_ACCOUNT, GAS_WARM_ACCESS, GAS_ZERO, calculate_gas_extend_memory, calculate_message_call_gas, charge_gas, max_message_call_gas
#: shanghai..osaka
from ..exceptions import OutOfGasError, Revert, WriteInStaticContext
from ..gas import GAS_CALL_VALUE, GAS_COLD_ACCOUNT_ACCESS, GAS_CREATE, GAS_KECCAK256_WORD, GAS_NEW_ACCOUNT, GAS_SELF_DESTRUCT, GAS_SELF_DESTRUCT_NEW_ACCOUNT, GAS_WARM_ACCESS, GAS_ZERO, calculate_gas_extend_memory, calculate_message_call_gas, charge_gas, init_code_cost, max_message_call_gas
#: frontier..osaka
from ..memory import memory_read_bytes, memory_write
from ..stack import pop, push
#: frontier
def create(evm: Evm) -> None:
    from ...vm.interpreter import STACK_DEPTH_LIMIT, process_create_message
    endowment = pop(evm.stack)
    memory_start_position = pop(evm.stack)
    memory_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_start_position, memory_size)])
    charge_gas(evm, GAS_CREATE + extend_memory.cost)
    create_message_gas = evm.gas_left
    evm.gas_left = Uint(0)
    evm.memory += b'\x00' * extend_memory.expand_by
    sender_address = evm.message.current_target
    sender = get_account(evm.message.block_env.state, sender_address)
    contract_address = compute_contract_address(evm.message.current_target, get_account(evm.message.block_env.state, evm.message.current_target).nonce)
    if sender.balance < endowment or sender.nonce == Uint(2 ** 64 - 1) or evm.message.depth + Uint(1) > STACK_DEPTH_LIMIT:
        push(evm.stack, U256(0))
        evm.gas_left += create_message_gas
    elif account_has_code_or_nonce(evm.message.block_env.state, contract_address) or account_has_storage(evm.message.block_env.state, contract_address):
        increment_nonce(evm.message.block_env.state, evm.message.current_target)
        push(evm.stack, U256(0))
    else:
        call_data = memory_read_bytes(evm.memory, memory_start_position, memory_size)
        increment_nonce(evm.message.block_env.state, evm.message.current_target)
        child_message = Message(block_env=evm.message.block_env, tx_env=evm.message.tx_env, caller=evm.message.current_target, target=Bytes0(), gas=create_message_gas, value=endowment, data=b'', code=call_data, current_target=contract_address, depth=evm.message.depth + Uint(1), code_address=None, parent_evm=evm)
        child_evm = process_create_message(child_message)
        if child_evm.error:
            incorporate_child_on_error(evm, child_evm)
            push(evm.stack, U256(0))
        else:
            incorporate_child_on_success(evm, child_evm)
            push(evm.stack, U256.from_be_bytes(child_evm.message.current_target))
    evm.pc += Uint(1)
#: homestead..dao_fork
def create(evm: Evm) -> None:
    from ...vm.interpreter import STACK_DEPTH_LIMIT, process_create_message
    endowment = pop(evm.stack)
    memory_start_position = pop(evm.stack)
    memory_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_start_position, memory_size)])
    charge_gas(evm, GAS_CREATE + extend_memory.cost)
    create_message_gas = evm.gas_left
    evm.gas_left = Uint(0)
    evm.memory += b'\x00' * extend_memory.expand_by
    sender_address = evm.message.current_target
    sender = get_account(evm.message.block_env.state, sender_address)
    contract_address = compute_contract_address(evm.message.current_target, get_account(evm.message.block_env.state, evm.message.current_target).nonce)
    if sender.balance < endowment or sender.nonce == Uint(2 ** 64 - 1) or evm.message.depth + Uint(1) > STACK_DEPTH_LIMIT:
        push(evm.stack, U256(0))
        evm.gas_left += create_message_gas
    elif account_has_code_or_nonce(evm.message.block_env.state, contract_address) or account_has_storage(evm.message.block_env.state, contract_address):
        increment_nonce(evm.message.block_env.state, evm.message.current_target)
        push(evm.stack, U256(0))
    else:
        call_data = memory_read_bytes(evm.memory, memory_start_position, memory_size)
        increment_nonce(evm.message.block_env.state, evm.message.current_target)
        child_message = Message(block_env=evm.message.block_env, tx_env=evm.message.tx_env, caller=evm.message.current_target, target=Bytes0(), gas=create_message_gas, value=endowment, data=b'', code=call_data, current_target=contract_address, depth=evm.message.depth + Uint(1), code_address=None, should_transfer_value=True, parent_evm=evm)
        child_evm = process_create_message(child_message)
        if child_evm.error:
            incorporate_child_on_error(evm, child_evm)
            push(evm.stack, U256(0))
        else:
            incorporate_child_on_success(evm, child_evm)
            push(evm.stack, U256.from_be_bytes(child_evm.message.current_target))
    evm.pc += Uint(1)
#: tangerine_whistle..spurious_dragon
def create(evm: Evm) -> None:
    from ...vm.interpreter import STACK_DEPTH_LIMIT, process_create_message
    endowment = pop(evm.stack)
    memory_start_position = pop(evm.stack)
    memory_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_start_position, memory_size)])
    charge_gas(evm, GAS_CREATE + extend_memory.cost)
    create_message_gas = max_message_call_gas(Uint(evm.gas_left))
    evm.gas_left -= create_message_gas
    evm.memory += b'\x00' * extend_memory.expand_by
    sender_address = evm.message.current_target
    sender = get_account(evm.message.block_env.state, sender_address)
    contract_address = compute_contract_address(evm.message.current_target, get_account(evm.message.block_env.state, evm.message.current_target).nonce)
    if sender.balance < endowment or sender.nonce == Uint(2 ** 64 - 1) or evm.message.depth + Uint(1) > STACK_DEPTH_LIMIT:
        push(evm.stack, U256(0))
        evm.gas_left += create_message_gas
    elif account_has_code_or_nonce(evm.message.block_env.state, contract_address) or account_has_storage(evm.message.block_env.state, contract_address):
        increment_nonce(evm.message.block_env.state, evm.message.current_target)
        push(evm.stack, U256(0))
    else:
        call_data = memory_read_bytes(evm.memory, memory_start_position, memory_size)
        increment_nonce(evm.message.block_env.state, evm.message.current_target)
        child_message = Message(block_env=evm.message.block_env, tx_env=evm.message.tx_env, caller=evm.message.current_target, target=Bytes0(), gas=create_message_gas, value=endowment, data=b'', code=call_data, current_target=contract_address, depth=evm.message.depth + Uint(1), code_address=None, should_transfer_value=True, parent_evm=evm)
        child_evm = process_create_message(child_message)
        if child_evm.error:
            incorporate_child_on_error(evm, child_evm)
            push(evm.stack, U256(0))
        else:
            incorporate_child_on_success(evm, child_evm)
            push(evm.stack, U256.from_be_bytes(child_evm.message.current_target))
    evm.pc += Uint(1)
#: byzantium
def create(evm: Evm) -> None:
    from ...vm.interpreter import STACK_DEPTH_LIMIT, process_create_message
    endowment = pop(evm.stack)
    memory_start_position = pop(evm.stack)
    memory_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_start_position, memory_size)])
    charge_gas(evm, GAS_CREATE + extend_memory.cost)
    create_message_gas = max_message_call_gas(Uint(evm.gas_left))
    evm.gas_left -= create_message_gas
    if evm.message.is_static:
        raise WriteInStaticContext
    evm.memory += b'\x00' * extend_memory.expand_by
    evm.return_data = b''
    sender_address = evm.message.current_target
    sender = get_account(evm.message.block_env.state, sender_address)
    contract_address = compute_contract_address(evm.message.current_target, get_account(evm.message.block_env.state, evm.message.current_target).nonce)
    if sender.balance < endowment or sender.nonce == Uint(2 ** 64 - 1) or evm.message.depth + Uint(1) > STACK_DEPTH_LIMIT:
        push(evm.stack, U256(0))
        evm.gas_left += create_message_gas
    elif account_has_code_or_nonce(evm.message.block_env.state, contract_address) or account_has_storage(evm.message.block_env.state, contract_address):
        increment_nonce(evm.message.block_env.state, evm.message.current_target)
        push(evm.stack, U256(0))
    else:
        call_data = memory_read_bytes(evm.memory, memory_start_position, memory_size)
        increment_nonce(evm.message.block_env.state, evm.message.current_target)
        child_message = Message(block_env=evm.message.block_env, tx_env=evm.message.tx_env, caller=evm.message.current_target, target=Bytes0(), gas=create_message_gas, value=endowment, data=b'', code=call_data, current_target=contract_address, depth=evm.message.depth + Uint(1), code_address=None, should_transfer_value=True, is_static=False, parent_evm=evm)
        child_evm = process_create_message(child_message)
        if child_evm.error:
            incorporate_child_on_error(evm, child_evm)
            evm.return_data = child_evm.output
            push(evm.stack, U256(0))
        else:
            incorporate_child_on_success(evm, child_evm)
            evm.return_data = b''
            push(evm.stack, U256.from_be_bytes(child_evm.message.current_target))
    evm.pc += Uint(1)
#: constantinople..muir_glacier
def generic_create(evm: Evm, endowment: U256, contract_address: Address, memory_start_position: U256, memory_size: U256) -> None:
    from ...vm.interpreter import STACK_DEPTH_LIMIT, process_create_message
    call_data = memory_read_bytes(evm.memory, memory_start_position, memory_size)
    create_message_gas = max_message_call_gas(Uint(evm.gas_left))
    evm.gas_left -= create_message_gas
    if evm.message.is_static:
        raise WriteInStaticContext
    evm.return_data = b''
    sender_address = evm.message.current_target
    sender = get_account(evm.message.block_env.state, sender_address)
    if sender.balance < endowment or sender.nonce == Uint(2 ** 64 - 1) or evm.message.depth + Uint(1) > STACK_DEPTH_LIMIT:
        evm.gas_left += create_message_gas
        push(evm.stack, U256(0))
        return
    if account_has_code_or_nonce(evm.message.block_env.state, contract_address) or account_has_storage(evm.message.block_env.state, contract_address):
        increment_nonce(evm.message.block_env.state, evm.message.current_target)
        push(evm.stack, U256(0))
        return
    call_data = memory_read_bytes(evm.memory, memory_start_position, memory_size)
    increment_nonce(evm.message.block_env.state, evm.message.current_target)
    child_message = Message(block_env=evm.message.block_env, tx_env=evm.message.tx_env, caller=evm.message.current_target, target=Bytes0(), gas=create_message_gas, value=endowment, data=b'', code=call_data, current_target=contract_address, depth=evm.message.depth + Uint(1), code_address=None, should_transfer_value=True, is_static=False, parent_evm=evm)
    child_evm = process_create_message(child_message)
    if child_evm.error:
        incorporate_child_on_error(evm, child_evm)
        evm.return_data = child_evm.output
        push(evm.stack, U256(0))
    else:
        incorporate_child_on_success(evm, child_evm)
        evm.return_data = b''
        push(evm.stack, U256.from_be_bytes(child_evm.message.current_target))
#: berlin..paris
def generic_create(evm: Evm, endowment: U256, contract_address: Address, memory_start_position: U256, memory_size: U256) -> None:
    from ...vm.interpreter import STACK_DEPTH_LIMIT, process_create_message
    call_data = memory_read_bytes(evm.memory, memory_start_position, memory_size)
    create_message_gas = max_message_call_gas(Uint(evm.gas_left))
    evm.gas_left -= create_message_gas
    if evm.message.is_static:
        raise WriteInStaticContext
    evm.return_data = b''
    sender_address = evm.message.current_target
    sender = get_account(evm.message.block_env.state, sender_address)
    if sender.balance < endowment or sender.nonce == Uint(2 ** 64 - 1) or evm.message.depth + Uint(1) > STACK_DEPTH_LIMIT:
        evm.gas_left += create_message_gas
        push(evm.stack, U256(0))
        return
    evm.accessed_addresses.add(contract_address)
    if account_has_code_or_nonce(evm.message.block_env.state, contract_address) or account_has_storage(evm.message.block_env.state, contract_address):
        increment_nonce(evm.message.block_env.state, evm.message.current_target)
        push(evm.stack, U256(0))
        return
    increment_nonce(evm.message.block_env.state, evm.message.current_target)
    child_message = Message(block_env=evm.message.block_env, tx_env=evm.message.tx_env, caller=evm.message.current_target, target=Bytes0(), gas=create_message_gas, value=endowment, data=b'', code=call_data, current_target=contract_address, depth=evm.message.depth + Uint(1), code_address=None, should_transfer_value=True, is_static=False, accessed_addresses=evm.accessed_addresses.copy(), accessed_storage_keys=evm.accessed_storage_keys.copy(), parent_evm=evm)
    child_evm = process_create_message(child_message)
    if child_evm.error:
        incorporate_child_on_error(evm, child_evm)
        evm.return_data = child_evm.output
        push(evm.stack, U256(0))
    else:
        incorporate_child_on_success(evm, child_evm)
        evm.return_data = b''
        push(evm.stack, U256.from_be_bytes(child_evm.message.current_target))
#: constantinople..paris
def create(evm: Evm) -> None:
    endowment = pop(evm.stack)
    memory_start_position = pop(evm.stack)
    memory_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_start_position, memory_size)])
    charge_gas(evm, GAS_CREATE + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    contract_address = compute_contract_address(evm.message.current_target, get_account(evm.message.block_env.state, evm.message.current_target).nonce)
    generic_create(evm, endowment, contract_address, memory_start_position, memory_size)
    evm.pc += Uint(1)
def create2(evm: Evm) -> None:
    endowment = pop(evm.stack)
    memory_start_position = pop(evm.stack)
    memory_size = pop(evm.stack)
    salt = pop(evm.stack).to_be_bytes32()
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_start_position, memory_size)])
    call_data_words = ceil32(Uint(memory_size)) // Uint(32)
    charge_gas(evm, GAS_CREATE + GAS_KECCAK256_WORD * call_data_words + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    contract_address = compute_create2_contract_address(evm.message.current_target, salt, memory_read_bytes(evm.memory, memory_start_position, memory_size))
    generic_create(evm, endowment, contract_address, memory_start_position, memory_size)
    evm.pc += Uint(1)
#: shanghai..cancun
def generic_create(evm: Evm, endowment: U256, contract_address: Address, memory_start_position: U256, memory_size: U256) -> None:
    from ...vm.interpreter import MAX_INIT_CODE_SIZE, STACK_DEPTH_LIMIT, process_create_message
    call_data = memory_read_bytes(evm.memory, memory_start_position, memory_size)
    if len(call_data) > MAX_INIT_CODE_SIZE:
        raise OutOfGasError
    create_message_gas = max_message_call_gas(Uint(evm.gas_left))
    evm.gas_left -= create_message_gas
    if evm.message.is_static:
        raise WriteInStaticContext
    evm.return_data = b''
    sender_address = evm.message.current_target
    sender = get_account(evm.message.block_env.state, sender_address)
    if sender.balance < endowment or sender.nonce == Uint(2 ** 64 - 1) or evm.message.depth + Uint(1) > STACK_DEPTH_LIMIT:
        evm.gas_left += create_message_gas
        push(evm.stack, U256(0))
        return
    evm.accessed_addresses.add(contract_address)
    if account_has_code_or_nonce(evm.message.block_env.state, contract_address) or account_has_storage(evm.message.block_env.state, contract_address):
        increment_nonce(evm.message.block_env.state, evm.message.current_target)
        push(evm.stack, U256(0))
        return
    increment_nonce(evm.message.block_env.state, evm.message.current_target)
    child_message = Message(block_env=evm.message.block_env, tx_env=evm.message.tx_env, caller=evm.message.current_target, target=Bytes0(), gas=create_message_gas, value=endowment, data=b'', code=call_data, current_target=contract_address, depth=evm.message.depth + Uint(1), code_address=None, should_transfer_value=True, is_static=False, accessed_addresses=evm.accessed_addresses.copy(), accessed_storage_keys=evm.accessed_storage_keys.copy(), parent_evm=evm)
    child_evm = process_create_message(child_message)
    if child_evm.error:
        incorporate_child_on_error(evm, child_evm)
        evm.return_data = child_evm.output
        push(evm.stack, U256(0))
    else:
        incorporate_child_on_success(evm, child_evm)
        evm.return_data = b''
        push(evm.stack, U256.from_be_bytes(child_evm.message.current_target))
#: prague..osaka
def generic_create(evm: Evm, endowment: U256, contract_address: Address, memory_start_position: U256, memory_size: U256) -> None:
    from ...vm.interpreter import MAX_INIT_CODE_SIZE, STACK_DEPTH_LIMIT, process_create_message
    call_data = memory_read_bytes(evm.memory, memory_start_position, memory_size)
    if len(call_data) > MAX_INIT_CODE_SIZE:
        raise OutOfGasError
    create_message_gas = max_message_call_gas(Uint(evm.gas_left))
    evm.gas_left -= create_message_gas
    if evm.message.is_static:
        raise WriteInStaticContext
    evm.return_data = b''
    sender_address = evm.message.current_target
    sender = get_account(evm.message.block_env.state, sender_address)
    if sender.balance < endowment or sender.nonce == Uint(2 ** 64 - 1) or evm.message.depth + Uint(1) > STACK_DEPTH_LIMIT:
        evm.gas_left += create_message_gas
        push(evm.stack, U256(0))
        return
    evm.accessed_addresses.add(contract_address)
    if account_has_code_or_nonce(evm.message.block_env.state, contract_address) or account_has_storage(evm.message.block_env.state, contract_address):
        increment_nonce(evm.message.block_env.state, evm.message.current_target)
        push(evm.stack, U256(0))
        return
    increment_nonce(evm.message.block_env.state, evm.message.current_target)
    child_message = Message(block_env=evm.message.block_env, tx_env=evm.message.tx_env, caller=evm.message.current_target, target=Bytes0(), gas=create_message_gas, value=endowment, data=b'', code=call_data, current_target=contract_address, depth=evm.message.depth + Uint(1), code_address=None, should_transfer_value=True, is_static=False, accessed_addresses=evm.accessed_addresses.copy(), accessed_storage_keys=evm.accessed_storage_keys.copy(), disable_precompiles=False, parent_evm=evm)
    child_evm = process_create_message(child_message)
    if child_evm.error:
        incorporate_child_on_error(evm, child_evm)
        evm.return_data = child_evm.output
        push(evm.stack, U256(0))
    else:
        incorporate_child_on_success(evm, child_evm)
        evm.return_data = b''
        push(evm.stack, U256.from_be_bytes(child_evm.message.current_target))
#: shanghai..osaka
def create(evm: Evm) -> None:
    endowment = pop(evm.stack)
    memory_start_position = pop(evm.stack)
    memory_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_start_position, memory_size)])
    init_code_gas = init_code_cost(Uint(memory_size))
    charge_gas(evm, GAS_CREATE + extend_memory.cost + init_code_gas)
    evm.memory += b'\x00' * extend_memory.expand_by
    contract_address = compute_contract_address(evm.message.current_target, get_account(evm.message.block_env.state, evm.message.current_target).nonce)
    generic_create(evm, endowment, contract_address, memory_start_position, memory_size)
    evm.pc += Uint(1)
def create2(evm: Evm) -> None:
    endowment = pop(evm.stack)
    memory_start_position = pop(evm.stack)
    memory_size = pop(evm.stack)
    salt = pop(evm.stack).to_be_bytes32()
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_start_position, memory_size)])
    call_data_words = ceil32(Uint(memory_size)) // Uint(32)
    init_code_gas = init_code_cost(Uint(memory_size))
    charge_gas(evm, GAS_CREATE + GAS_KECCAK256_WORD * call_data_words + extend_memory.cost + init_code_gas)
    evm.memory += b'\x00' * extend_memory.expand_by
    contract_address = compute_create2_contract_address(evm.message.current_target, salt, memory_read_bytes(evm.memory, memory_start_position, memory_size))
    generic_create(evm, endowment, contract_address, memory_start_position, memory_size)
    evm.pc += Uint(1)
#: frontier..osaka
def return_(evm: Evm) -> None:
    memory_start_position = pop(evm.stack)
    memory_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_start_position, memory_size)])
    charge_gas(evm, GAS_ZERO + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    evm.output = memory_read_bytes(evm.memory, memory_start_position, memory_size)
    evm.running = False
    pass
#: frontier
def generic_call(evm: Evm, gas: Uint, value: U256, caller: Address, to: Address, code_address: Address, memory_input_start_position: U256, memory_input_size: U256, memory_output_start_position: U256, memory_output_size: U256) -> None:
    from ...vm.interpreter import STACK_DEPTH_LIMIT, process_message
    if evm.message.depth + Uint(1) > STACK_DEPTH_LIMIT:
        evm.gas_left += gas
        push(evm.stack, U256(0))
        return
    call_data = memory_read_bytes(evm.memory, memory_input_start_position, memory_input_size)
    code = get_account(evm.message.block_env.state, code_address).code
    child_message = Message(block_env=evm.message.block_env, tx_env=evm.message.tx_env, caller=caller, target=to, gas=gas, value=value, data=call_data, code=code, current_target=to, depth=evm.message.depth + Uint(1), code_address=code_address, parent_evm=evm)
    child_evm = process_message(child_message)
    if child_evm.error:
        incorporate_child_on_error(evm, child_evm)
        push(evm.stack, U256(0))
    else:
        incorporate_child_on_success(evm, child_evm)
        push(evm.stack, U256(1))
    actual_output_size = min(memory_output_size, U256(len(child_evm.output)))
    memory_write(evm.memory, memory_output_start_position, child_evm.output[:actual_output_size])
def call(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    to = to_address_masked(pop(evm.stack))
    value = pop(evm.stack)
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    code_address = to
    message_call_gas = calculate_message_call_gas(evm.message.block_env.state, gas, to, value)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    sender_balance = get_account(evm.message.block_env.state, evm.message.current_target).balance
    if sender_balance < value:
        push(evm.stack, U256(0))
        evm.gas_left += message_call_gas.sub_call
    else:
        generic_call(evm, message_call_gas.sub_call, value, evm.message.current_target, to, code_address, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size)
    evm.pc += Uint(1)
def callcode(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    code_address = to_address_masked(pop(evm.stack))
    value = pop(evm.stack)
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    to = evm.message.current_target
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    message_call_gas = calculate_message_call_gas(evm.message.block_env.state, gas, to, value)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    sender_balance = get_account(evm.message.block_env.state, evm.message.current_target).balance
    if sender_balance < value:
        push(evm.stack, U256(0))
        evm.gas_left += message_call_gas.sub_call
    else:
        generic_call(evm, message_call_gas.sub_call, value, evm.message.current_target, to, code_address, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size)
    evm.pc += Uint(1)
#: homestead..spurious_dragon
def generic_call(evm: Evm, gas: Uint, value: U256, caller: Address, to: Address, code_address: Address, should_transfer_value: bool, memory_input_start_position: U256, memory_input_size: U256, memory_output_start_position: U256, memory_output_size: U256) -> None:
    from ...vm.interpreter import STACK_DEPTH_LIMIT, process_message
    if evm.message.depth + Uint(1) > STACK_DEPTH_LIMIT:
        evm.gas_left += gas
        push(evm.stack, U256(0))
        return
    call_data = memory_read_bytes(evm.memory, memory_input_start_position, memory_input_size)
    code = get_account(evm.message.block_env.state, code_address).code
    child_message = Message(block_env=evm.message.block_env, tx_env=evm.message.tx_env, caller=caller, target=to, gas=gas, value=value, data=call_data, code=code, current_target=to, depth=evm.message.depth + Uint(1), code_address=code_address, should_transfer_value=should_transfer_value, parent_evm=evm)
    child_evm = process_message(child_message)
    if child_evm.error:
        incorporate_child_on_error(evm, child_evm)
        push(evm.stack, U256(0))
    else:
        incorporate_child_on_success(evm, child_evm)
        push(evm.stack, U256(1))
    actual_output_size = min(memory_output_size, U256(len(child_evm.output)))
    memory_write(evm.memory, memory_output_start_position, child_evm.output[:actual_output_size])
#: homestead..dao_fork
def call(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    to = to_address_masked(pop(evm.stack))
    value = pop(evm.stack)
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    code_address = to
    message_call_gas = calculate_message_call_gas(evm.message.block_env.state, gas, to, value)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    sender_balance = get_account(evm.message.block_env.state, evm.message.current_target).balance
    if sender_balance < value:
        push(evm.stack, U256(0))
        evm.gas_left += message_call_gas.sub_call
    else:
        generic_call(evm, message_call_gas.sub_call, value, evm.message.current_target, to, code_address, True, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size)
    evm.pc += Uint(1)
def callcode(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    code_address = to_address_masked(pop(evm.stack))
    value = pop(evm.stack)
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    to = evm.message.current_target
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    message_call_gas = calculate_message_call_gas(evm.message.block_env.state, gas, to, value)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    sender_balance = get_account(evm.message.block_env.state, evm.message.current_target).balance
    if sender_balance < value:
        push(evm.stack, U256(0))
        evm.gas_left += message_call_gas.sub_call
    else:
        generic_call(evm, message_call_gas.sub_call, value, evm.message.current_target, to, code_address, True, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size)
    evm.pc += Uint(1)
#: frontier..dao_fork
def selfdestruct(evm: Evm) -> None:
    beneficiary = to_address_masked(pop(evm.stack))
    gas_cost = GAS_ZERO
    originator = evm.message.current_target
    refunded_accounts = evm.accounts_to_delete
    parent_evm = evm.message.parent_evm
    while parent_evm is not None:
        refunded_accounts.update(parent_evm.accounts_to_delete)
        parent_evm = parent_evm.message.parent_evm
    if originator not in refunded_accounts:
        evm.refund_counter += int(REFUND_SELF_DESTRUCT)
    charge_gas(evm, gas_cost)
    beneficiary_balance = get_account(evm.message.block_env.state, beneficiary).balance
    originator_balance = get_account(evm.message.block_env.state, originator).balance
    set_account_balance(evm.message.block_env.state, beneficiary, beneficiary_balance + originator_balance)
    set_account_balance(evm.message.block_env.state, originator, U256(0))
    evm.accounts_to_delete.add(originator)
    evm.running = False
    pass
#: homestead..dao_fork
def delegatecall(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    code_address = to_address_masked(pop(evm.stack))
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    charge_gas(evm, GAS_CALL + gas + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    generic_call(evm, gas, evm.message.value, evm.message.caller, evm.message.current_target, code_address, False, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size)
    evm.pc += Uint(1)
#: tangerine_whistle
def call(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    to = to_address_masked(pop(evm.stack))
    value = pop(evm.stack)
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    code_address = to
    _account_exists = account_exists(evm.message.block_env.state, to)
    create_gas_cost = Uint(0) if _account_exists else GAS_NEW_ACCOUNT
    transfer_gas_cost = Uint(0) if value == 0 else GAS_CALL_VALUE
    message_call_gas = calculate_message_call_gas(value, gas, Uint(evm.gas_left), extend_memory.cost, GAS_CALL + create_gas_cost + transfer_gas_cost)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    sender_balance = get_account(evm.message.block_env.state, evm.message.current_target).balance
    if sender_balance < value:
        push(evm.stack, U256(0))
        evm.gas_left += message_call_gas.sub_call
    else:
        generic_call(evm, message_call_gas.sub_call, value, evm.message.current_target, to, code_address, True, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size)
    evm.pc += Uint(1)
#: spurious_dragon
def call(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    to = to_address_masked(pop(evm.stack))
    value = pop(evm.stack)
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    code_address = to
    create_gas_cost = GAS_NEW_ACCOUNT
    if value == 0 or is_account_alive(evm.message.block_env.state, to):
        create_gas_cost = Uint(0)
    transfer_gas_cost = Uint(0) if value == 0 else GAS_CALL_VALUE
    message_call_gas = calculate_message_call_gas(value, gas, Uint(evm.gas_left), extend_memory.cost, GAS_CALL + create_gas_cost + transfer_gas_cost)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    sender_balance = get_account(evm.message.block_env.state, evm.message.current_target).balance
    if sender_balance < value:
        push(evm.stack, U256(0))
        evm.gas_left += message_call_gas.sub_call
    else:
        generic_call(evm, message_call_gas.sub_call, value, evm.message.current_target, to, code_address, True, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size)
    evm.pc += Uint(1)
#: tangerine_whistle..spurious_dragon
def callcode(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    code_address = to_address_masked(pop(evm.stack))
    value = pop(evm.stack)
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    to = evm.message.current_target
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    transfer_gas_cost = Uint(0) if value == 0 else GAS_CALL_VALUE
    message_call_gas = calculate_message_call_gas(value, gas, Uint(evm.gas_left), extend_memory.cost, GAS_CALL + transfer_gas_cost)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    sender_balance = get_account(evm.message.block_env.state, evm.message.current_target).balance
    if sender_balance < value:
        push(evm.stack, U256(0))
        evm.gas_left += message_call_gas.sub_call
    else:
        generic_call(evm, message_call_gas.sub_call, value, evm.message.current_target, to, code_address, True, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size)
    evm.pc += Uint(1)
#: tangerine_whistle
def selfdestruct(evm: Evm) -> None:
    beneficiary = to_address_masked(pop(evm.stack))
    gas_cost = GAS_SELF_DESTRUCT
    if not account_exists(evm.message.block_env.state, beneficiary):
        gas_cost += GAS_SELF_DESTRUCT_NEW_ACCOUNT
    originator = evm.message.current_target
    refunded_accounts = evm.accounts_to_delete
    parent_evm = evm.message.parent_evm
    while parent_evm is not None:
        refunded_accounts.update(parent_evm.accounts_to_delete)
        parent_evm = parent_evm.message.parent_evm
    if originator not in refunded_accounts:
        evm.refund_counter += REFUND_SELF_DESTRUCT
    charge_gas(evm, gas_cost)
    beneficiary_balance = get_account(evm.message.block_env.state, beneficiary).balance
    originator_balance = get_account(evm.message.block_env.state, originator).balance
    set_account_balance(evm.message.block_env.state, beneficiary, beneficiary_balance + originator_balance)
    set_account_balance(evm.message.block_env.state, originator, U256(0))
    evm.accounts_to_delete.add(originator)
    evm.running = False
    pass
#: spurious_dragon
def selfdestruct(evm: Evm) -> None:
    beneficiary = to_address_masked(pop(evm.stack))
    gas_cost = GAS_SELF_DESTRUCT
    if not is_account_alive(evm.message.block_env.state, beneficiary) and get_account(evm.message.block_env.state, evm.message.current_target).balance != 0:
        gas_cost += GAS_SELF_DESTRUCT_NEW_ACCOUNT
    originator = evm.message.current_target
    refunded_accounts = evm.accounts_to_delete
    parent_evm = evm.message.parent_evm
    while parent_evm is not None:
        refunded_accounts.update(parent_evm.accounts_to_delete)
        parent_evm = parent_evm.message.parent_evm
    if originator not in refunded_accounts:
        evm.refund_counter += REFUND_SELF_DESTRUCT
    charge_gas(evm, gas_cost)
    beneficiary_balance = get_account(evm.message.block_env.state, beneficiary).balance
    originator_balance = get_account(evm.message.block_env.state, originator).balance
    set_account_balance(evm.message.block_env.state, beneficiary, beneficiary_balance + originator_balance)
    set_account_balance(evm.message.block_env.state, originator, U256(0))
    evm.accounts_to_delete.add(originator)
    if account_exists_and_is_empty(evm.message.block_env.state, beneficiary):
        evm.touched_accounts.add(beneficiary)
    evm.running = False
    pass
#: tangerine_whistle..spurious_dragon
def delegatecall(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    code_address = to_address_masked(pop(evm.stack))
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    message_call_gas = calculate_message_call_gas(U256(0), gas, Uint(evm.gas_left), extend_memory.cost, GAS_CALL)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    generic_call(evm, message_call_gas.sub_call, evm.message.value, evm.message.caller, evm.message.current_target, code_address, False, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size)
    evm.pc += Uint(1)
#: byzantium..muir_glacier
def generic_call(evm: Evm, gas: Uint, value: U256, caller: Address, to: Address, code_address: Address, should_transfer_value: bool, is_staticcall: bool, memory_input_start_position: U256, memory_input_size: U256, memory_output_start_position: U256, memory_output_size: U256) -> None:
    from ...vm.interpreter import STACK_DEPTH_LIMIT, process_message
    evm.return_data = b''
    if evm.message.depth + Uint(1) > STACK_DEPTH_LIMIT:
        evm.gas_left += gas
        push(evm.stack, U256(0))
        return
    call_data = memory_read_bytes(evm.memory, memory_input_start_position, memory_input_size)
    code = get_account(evm.message.block_env.state, code_address).code
    child_message = Message(block_env=evm.message.block_env, tx_env=evm.message.tx_env, caller=caller, target=to, gas=gas, value=value, data=call_data, code=code, current_target=to, depth=evm.message.depth + Uint(1), code_address=code_address, should_transfer_value=should_transfer_value, is_static=True if is_staticcall else evm.message.is_static, parent_evm=evm)
    child_evm = process_message(child_message)
    if child_evm.error:
        incorporate_child_on_error(evm, child_evm)
        evm.return_data = child_evm.output
        push(evm.stack, U256(0))
    else:
        incorporate_child_on_success(evm, child_evm)
        evm.return_data = child_evm.output
        push(evm.stack, U256(1))
    actual_output_size = min(memory_output_size, U256(len(child_evm.output)))
    memory_write(evm.memory, memory_output_start_position, child_evm.output[:actual_output_size])
def call(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    to = to_address_masked(pop(evm.stack))
    value = pop(evm.stack)
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    code_address = to
    create_gas_cost = GAS_NEW_ACCOUNT
    if value == 0 or is_account_alive(evm.message.block_env.state, to):
        create_gas_cost = Uint(0)
    transfer_gas_cost = Uint(0) if value == 0 else GAS_CALL_VALUE
    message_call_gas = calculate_message_call_gas(value, gas, Uint(evm.gas_left), extend_memory.cost, GAS_CALL + create_gas_cost + transfer_gas_cost)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    if evm.message.is_static and value != U256(0):
        raise WriteInStaticContext
    evm.memory += b'\x00' * extend_memory.expand_by
    sender_balance = get_account(evm.message.block_env.state, evm.message.current_target).balance
    if sender_balance < value:
        push(evm.stack, U256(0))
        evm.return_data = b''
        evm.gas_left += message_call_gas.sub_call
    else:
        generic_call(evm, message_call_gas.sub_call, value, evm.message.current_target, to, code_address, True, False, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size)
    evm.pc += Uint(1)
def callcode(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    code_address = to_address_masked(pop(evm.stack))
    value = pop(evm.stack)
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    to = evm.message.current_target
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    transfer_gas_cost = Uint(0) if value == 0 else GAS_CALL_VALUE
    message_call_gas = calculate_message_call_gas(value, gas, Uint(evm.gas_left), extend_memory.cost, GAS_CALL + transfer_gas_cost)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    sender_balance = get_account(evm.message.block_env.state, evm.message.current_target).balance
    if sender_balance < value:
        push(evm.stack, U256(0))
        evm.return_data = b''
        evm.gas_left += message_call_gas.sub_call
    else:
        generic_call(evm, message_call_gas.sub_call, value, evm.message.current_target, to, code_address, True, False, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size)
    evm.pc += Uint(1)
#: byzantium
def selfdestruct(evm: Evm) -> None:
    beneficiary = to_address_masked(pop(evm.stack))
    gas_cost = GAS_SELF_DESTRUCT
    if not is_account_alive(evm.message.block_env.state, beneficiary) and get_account(evm.message.block_env.state, evm.message.current_target).balance != 0:
        gas_cost += GAS_SELF_DESTRUCT_NEW_ACCOUNT
    originator = evm.message.current_target
    refunded_accounts = evm.accounts_to_delete
    parent_evm = evm.message.parent_evm
    while parent_evm is not None:
        refunded_accounts.update(parent_evm.accounts_to_delete)
        parent_evm = parent_evm.message.parent_evm
    if originator not in refunded_accounts:
        evm.refund_counter += REFUND_SELF_DESTRUCT
    charge_gas(evm, gas_cost)
    if evm.message.is_static:
        raise WriteInStaticContext
    beneficiary_balance = get_account(evm.message.block_env.state, beneficiary).balance
    originator_balance = get_account(evm.message.block_env.state, originator).balance
    set_account_balance(evm.message.block_env.state, beneficiary, beneficiary_balance + originator_balance)
    set_account_balance(evm.message.block_env.state, originator, U256(0))
    evm.accounts_to_delete.add(originator)
    if account_exists_and_is_empty(evm.message.block_env.state, beneficiary):
        evm.touched_accounts.add(beneficiary)
    evm.running = False
    pass
#: constantinople..muir_glacier
def selfdestruct(evm: Evm) -> None:
    beneficiary = to_address_masked(pop(evm.stack))
    gas_cost = GAS_SELF_DESTRUCT
    if not is_account_alive(evm.message.block_env.state, beneficiary) and get_account(evm.message.block_env.state, evm.message.current_target).balance != 0:
        gas_cost += GAS_SELF_DESTRUCT_NEW_ACCOUNT
    originator = evm.message.current_target
    refunded_accounts = evm.accounts_to_delete
    parent_evm = evm.message.parent_evm
    while parent_evm is not None:
        refunded_accounts.update(parent_evm.accounts_to_delete)
        parent_evm = parent_evm.message.parent_evm
    if originator not in refunded_accounts:
        evm.refund_counter += REFUND_SELF_DESTRUCT
    charge_gas(evm, gas_cost)
    if evm.message.is_static:
        raise WriteInStaticContext
    originator = evm.message.current_target
    beneficiary_balance = get_account(evm.message.block_env.state, beneficiary).balance
    originator_balance = get_account(evm.message.block_env.state, originator).balance
    set_account_balance(evm.message.block_env.state, beneficiary, beneficiary_balance + originator_balance)
    set_account_balance(evm.message.block_env.state, originator, U256(0))
    evm.accounts_to_delete.add(originator)
    if account_exists_and_is_empty(evm.message.block_env.state, beneficiary):
        evm.touched_accounts.add(beneficiary)
    evm.running = False
    pass
#: byzantium..muir_glacier
def delegatecall(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    code_address = to_address_masked(pop(evm.stack))
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    message_call_gas = calculate_message_call_gas(U256(0), gas, Uint(evm.gas_left), extend_memory.cost, GAS_CALL)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    generic_call(evm, message_call_gas.sub_call, evm.message.value, evm.message.caller, evm.message.current_target, code_address, False, False, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size)
    evm.pc += Uint(1)
def staticcall(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    to = to_address_masked(pop(evm.stack))
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    code_address = to
    message_call_gas = calculate_message_call_gas(U256(0), gas, Uint(evm.gas_left), extend_memory.cost, GAS_CALL)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    generic_call(evm, message_call_gas.sub_call, U256(0), evm.message.current_target, to, code_address, True, True, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size)
    evm.pc += Uint(1)
#: berlin..cancun
def generic_call(evm: Evm, gas: Uint, value: U256, caller: Address, to: Address, code_address: Address, should_transfer_value: bool, is_staticcall: bool, memory_input_start_position: U256, memory_input_size: U256, memory_output_start_position: U256, memory_output_size: U256) -> None:
    from ...vm.interpreter import STACK_DEPTH_LIMIT, process_message
    evm.return_data = b''
    if evm.message.depth + Uint(1) > STACK_DEPTH_LIMIT:
        evm.gas_left += gas
        push(evm.stack, U256(0))
        return
    call_data = memory_read_bytes(evm.memory, memory_input_start_position, memory_input_size)
    code = get_account(evm.message.block_env.state, code_address).code
    child_message = Message(block_env=evm.message.block_env, tx_env=evm.message.tx_env, caller=caller, target=to, gas=gas, value=value, data=call_data, code=code, current_target=to, depth=evm.message.depth + Uint(1), code_address=code_address, should_transfer_value=should_transfer_value, is_static=True if is_staticcall else evm.message.is_static, accessed_addresses=evm.accessed_addresses.copy(), accessed_storage_keys=evm.accessed_storage_keys.copy(), parent_evm=evm)
    child_evm = process_message(child_message)
    if child_evm.error:
        incorporate_child_on_error(evm, child_evm)
        evm.return_data = child_evm.output
        push(evm.stack, U256(0))
    else:
        incorporate_child_on_success(evm, child_evm)
        evm.return_data = child_evm.output
        push(evm.stack, U256(1))
    actual_output_size = min(memory_output_size, U256(len(child_evm.output)))
    memory_write(evm.memory, memory_output_start_position, child_evm.output[:actual_output_size])
def call(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    to = to_address_masked(pop(evm.stack))
    value = pop(evm.stack)
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    if to in evm.accessed_addresses:
        access_gas_cost = GAS_WARM_ACCESS
    else:
        evm.accessed_addresses.add(to)
        access_gas_cost = GAS_COLD_ACCOUNT_ACCESS
    code_address = to
    create_gas_cost = GAS_NEW_ACCOUNT
    if value == 0 or is_account_alive(evm.message.block_env.state, to):
        create_gas_cost = Uint(0)
    transfer_gas_cost = Uint(0) if value == 0 else GAS_CALL_VALUE
    message_call_gas = calculate_message_call_gas(value, gas, Uint(evm.gas_left), extend_memory.cost, access_gas_cost + create_gas_cost + transfer_gas_cost)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    if evm.message.is_static and value != U256(0):
        raise WriteInStaticContext
    evm.memory += b'\x00' * extend_memory.expand_by
    sender_balance = get_account(evm.message.block_env.state, evm.message.current_target).balance
    if sender_balance < value:
        push(evm.stack, U256(0))
        evm.return_data = b''
        evm.gas_left += message_call_gas.sub_call
    else:
        generic_call(evm, message_call_gas.sub_call, value, evm.message.current_target, to, code_address, True, False, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size)
    evm.pc += Uint(1)
def callcode(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    code_address = to_address_masked(pop(evm.stack))
    value = pop(evm.stack)
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    to = evm.message.current_target
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    if code_address in evm.accessed_addresses:
        access_gas_cost = GAS_WARM_ACCESS
    else:
        evm.accessed_addresses.add(code_address)
        access_gas_cost = GAS_COLD_ACCOUNT_ACCESS
    transfer_gas_cost = Uint(0) if value == 0 else GAS_CALL_VALUE
    message_call_gas = calculate_message_call_gas(value, gas, Uint(evm.gas_left), extend_memory.cost, access_gas_cost + transfer_gas_cost)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    sender_balance = get_account(evm.message.block_env.state, evm.message.current_target).balance
    if sender_balance < value:
        push(evm.stack, U256(0))
        evm.return_data = b''
        evm.gas_left += message_call_gas.sub_call
    else:
        generic_call(evm, message_call_gas.sub_call, value, evm.message.current_target, to, code_address, True, False, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size)
    evm.pc += Uint(1)
#: berlin
def selfdestruct(evm: Evm) -> None:
    beneficiary = to_address_masked(pop(evm.stack))
    gas_cost = GAS_SELF_DESTRUCT
    if beneficiary not in evm.accessed_addresses:
        evm.accessed_addresses.add(beneficiary)
        gas_cost += GAS_COLD_ACCOUNT_ACCESS
    if not is_account_alive(evm.message.block_env.state, beneficiary) and get_account(evm.message.block_env.state, evm.message.current_target).balance != 0:
        gas_cost += GAS_SELF_DESTRUCT_NEW_ACCOUNT
    originator = evm.message.current_target
    refunded_accounts = evm.accounts_to_delete
    parent_evm = evm.message.parent_evm
    while parent_evm is not None:
        refunded_accounts.update(parent_evm.accounts_to_delete)
        parent_evm = parent_evm.message.parent_evm
    if originator not in refunded_accounts:
        evm.refund_counter += REFUND_SELF_DESTRUCT
    charge_gas(evm, gas_cost)
    if evm.message.is_static:
        raise WriteInStaticContext
    originator = evm.message.current_target
    beneficiary_balance = get_account(evm.message.block_env.state, beneficiary).balance
    originator_balance = get_account(evm.message.block_env.state, originator).balance
    set_account_balance(evm.message.block_env.state, beneficiary, beneficiary_balance + originator_balance)
    set_account_balance(evm.message.block_env.state, originator, U256(0))
    evm.accounts_to_delete.add(originator)
    if account_exists_and_is_empty(evm.message.block_env.state, beneficiary):
        evm.touched_accounts.add(beneficiary)
    evm.running = False
    pass
#: london..gray_glacier
def selfdestruct(evm: Evm) -> None:
    beneficiary = to_address_masked(pop(evm.stack))
    gas_cost = GAS_SELF_DESTRUCT
    if beneficiary not in evm.accessed_addresses:
        evm.accessed_addresses.add(beneficiary)
        gas_cost += GAS_COLD_ACCOUNT_ACCESS
    if not is_account_alive(evm.message.block_env.state, beneficiary) and get_account(evm.message.block_env.state, evm.message.current_target).balance != 0:
        gas_cost += GAS_SELF_DESTRUCT_NEW_ACCOUNT
    charge_gas(evm, gas_cost)
    if evm.message.is_static:
        raise WriteInStaticContext
    originator = evm.message.current_target
    beneficiary_balance = get_account(evm.message.block_env.state, beneficiary).balance
    originator_balance = get_account(evm.message.block_env.state, originator).balance
    set_account_balance(evm.message.block_env.state, beneficiary, beneficiary_balance + originator_balance)
    set_account_balance(evm.message.block_env.state, originator, U256(0))
    evm.accounts_to_delete.add(originator)
    if account_exists_and_is_empty(evm.message.block_env.state, beneficiary):
        evm.touched_accounts.add(beneficiary)
    evm.running = False
    pass
#: paris..shanghai
def selfdestruct(evm: Evm) -> None:
    beneficiary = to_address_masked(pop(evm.stack))
    gas_cost = GAS_SELF_DESTRUCT
    if beneficiary not in evm.accessed_addresses:
        evm.accessed_addresses.add(beneficiary)
        gas_cost += GAS_COLD_ACCOUNT_ACCESS
    if not is_account_alive(evm.message.block_env.state, beneficiary) and get_account(evm.message.block_env.state, evm.message.current_target).balance != 0:
        gas_cost += GAS_SELF_DESTRUCT_NEW_ACCOUNT
    charge_gas(evm, gas_cost)
    if evm.message.is_static:
        raise WriteInStaticContext
    originator = evm.message.current_target
    beneficiary_balance = get_account(evm.message.block_env.state, beneficiary).balance
    originator_balance = get_account(evm.message.block_env.state, originator).balance
    set_account_balance(evm.message.block_env.state, beneficiary, beneficiary_balance + originator_balance)
    set_account_balance(evm.message.block_env.state, originator, U256(0))
    evm.accounts_to_delete.add(originator)
    evm.running = False
    pass
#: prague..osaka
def generic_call(evm: Evm, gas: Uint, value: U256, caller: Address, to: Address, code_address: Address, should_transfer_value: bool, is_staticcall: bool, memory_input_start_position: U256, memory_input_size: U256, memory_output_start_position: U256, memory_output_size: U256, code: Bytes, disable_precompiles: bool) -> None:
    from ...vm.interpreter import STACK_DEPTH_LIMIT, process_message
    evm.return_data = b''
    if evm.message.depth + Uint(1) > STACK_DEPTH_LIMIT:
        evm.gas_left += gas
        push(evm.stack, U256(0))
        return
    call_data = memory_read_bytes(evm.memory, memory_input_start_position, memory_input_size)
    child_message = Message(block_env=evm.message.block_env, tx_env=evm.message.tx_env, caller=caller, target=to, gas=gas, value=value, data=call_data, code=code, current_target=to, depth=evm.message.depth + Uint(1), code_address=code_address, should_transfer_value=should_transfer_value, is_static=True if is_staticcall else evm.message.is_static, accessed_addresses=evm.accessed_addresses.copy(), accessed_storage_keys=evm.accessed_storage_keys.copy(), disable_precompiles=disable_precompiles, parent_evm=evm)
    child_evm = process_message(child_message)
    if child_evm.error:
        incorporate_child_on_error(evm, child_evm)
        evm.return_data = child_evm.output
        push(evm.stack, U256(0))
    else:
        incorporate_child_on_success(evm, child_evm)
        evm.return_data = child_evm.output
        push(evm.stack, U256(1))
    actual_output_size = min(memory_output_size, U256(len(child_evm.output)))
    memory_write(evm.memory, memory_output_start_position, child_evm.output[:actual_output_size])
def call(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    to = to_address_masked(pop(evm.stack))
    value = pop(evm.stack)
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    if to in evm.accessed_addresses:
        access_gas_cost = GAS_WARM_ACCESS
    else:
        evm.accessed_addresses.add(to)
        access_gas_cost = GAS_COLD_ACCOUNT_ACCESS
    code_address = to
    disable_precompiles, code_address, code, delegated_access_gas_cost = access_delegation(evm, code_address)
    access_gas_cost += delegated_access_gas_cost
    create_gas_cost = GAS_NEW_ACCOUNT
    if value == 0 or is_account_alive(evm.message.block_env.state, to):
        create_gas_cost = Uint(0)
    transfer_gas_cost = Uint(0) if value == 0 else GAS_CALL_VALUE
    message_call_gas = calculate_message_call_gas(value, gas, Uint(evm.gas_left), extend_memory.cost, access_gas_cost + create_gas_cost + transfer_gas_cost)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    if evm.message.is_static and value != U256(0):
        raise WriteInStaticContext
    evm.memory += b'\x00' * extend_memory.expand_by
    sender_balance = get_account(evm.message.block_env.state, evm.message.current_target).balance
    if sender_balance < value:
        push(evm.stack, U256(0))
        evm.return_data = b''
        evm.gas_left += message_call_gas.sub_call
    else:
        generic_call(evm, message_call_gas.sub_call, value, evm.message.current_target, to, code_address, True, False, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size, code, disable_precompiles)
    evm.pc += Uint(1)
def callcode(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    code_address = to_address_masked(pop(evm.stack))
    value = pop(evm.stack)
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    to = evm.message.current_target
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    if code_address in evm.accessed_addresses:
        access_gas_cost = GAS_WARM_ACCESS
    else:
        evm.accessed_addresses.add(code_address)
        access_gas_cost = GAS_COLD_ACCOUNT_ACCESS
    disable_precompiles, code_address, code, delegated_access_gas_cost = access_delegation(evm, code_address)
    access_gas_cost += delegated_access_gas_cost
    transfer_gas_cost = Uint(0) if value == 0 else GAS_CALL_VALUE
    message_call_gas = calculate_message_call_gas(value, gas, Uint(evm.gas_left), extend_memory.cost, access_gas_cost + transfer_gas_cost)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    sender_balance = get_account(evm.message.block_env.state, evm.message.current_target).balance
    if sender_balance < value:
        push(evm.stack, U256(0))
        evm.return_data = b''
        evm.gas_left += message_call_gas.sub_call
    else:
        generic_call(evm, message_call_gas.sub_call, value, evm.message.current_target, to, code_address, True, False, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size, code, disable_precompiles)
    evm.pc += Uint(1)
#: cancun..osaka
def selfdestruct(evm: Evm) -> None:
    beneficiary = to_address_masked(pop(evm.stack))
    gas_cost = GAS_SELF_DESTRUCT
    if beneficiary not in evm.accessed_addresses:
        evm.accessed_addresses.add(beneficiary)
        gas_cost += GAS_COLD_ACCOUNT_ACCESS
    if not is_account_alive(evm.message.block_env.state, beneficiary) and get_account(evm.message.block_env.state, evm.message.current_target).balance != 0:
        gas_cost += GAS_SELF_DESTRUCT_NEW_ACCOUNT
    charge_gas(evm, gas_cost)
    if evm.message.is_static:
        raise WriteInStaticContext
    originator = evm.message.current_target
    originator_balance = get_account(evm.message.block_env.state, originator).balance
    move_ether(evm.message.block_env.state, originator, beneficiary, originator_balance)
    if originator in evm.message.block_env.state.created_accounts:
        set_account_balance(evm.message.block_env.state, originator, U256(0))
        evm.accounts_to_delete.add(originator)
    evm.running = False
    pass
#: berlin..cancun
def delegatecall(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    code_address = to_address_masked(pop(evm.stack))
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    if code_address in evm.accessed_addresses:
        access_gas_cost = GAS_WARM_ACCESS
    else:
        evm.accessed_addresses.add(code_address)
        access_gas_cost = GAS_COLD_ACCOUNT_ACCESS
    message_call_gas = calculate_message_call_gas(U256(0), gas, Uint(evm.gas_left), extend_memory.cost, access_gas_cost)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    generic_call(evm, message_call_gas.sub_call, evm.message.value, evm.message.caller, evm.message.current_target, code_address, False, False, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size)
    evm.pc += Uint(1)
def staticcall(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    to = to_address_masked(pop(evm.stack))
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    if to in evm.accessed_addresses:
        access_gas_cost = GAS_WARM_ACCESS
    else:
        evm.accessed_addresses.add(to)
        access_gas_cost = GAS_COLD_ACCOUNT_ACCESS
    code_address = to
    message_call_gas = calculate_message_call_gas(U256(0), gas, Uint(evm.gas_left), extend_memory.cost, access_gas_cost)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    generic_call(evm, message_call_gas.sub_call, U256(0), evm.message.current_target, to, code_address, True, True, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size)
    evm.pc += Uint(1)
#: prague..osaka
def delegatecall(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    code_address = to_address_masked(pop(evm.stack))
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    if code_address in evm.accessed_addresses:
        access_gas_cost = GAS_WARM_ACCESS
    else:
        evm.accessed_addresses.add(code_address)
        access_gas_cost = GAS_COLD_ACCOUNT_ACCESS
    disable_precompiles, code_address, code, delegated_access_gas_cost = access_delegation(evm, code_address)
    access_gas_cost += delegated_access_gas_cost
    message_call_gas = calculate_message_call_gas(U256(0), gas, Uint(evm.gas_left), extend_memory.cost, access_gas_cost)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    generic_call(evm, message_call_gas.sub_call, evm.message.value, evm.message.caller, evm.message.current_target, code_address, False, False, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size, code, disable_precompiles)
    evm.pc += Uint(1)
def staticcall(evm: Evm) -> None:
    gas = Uint(pop(evm.stack))
    to = to_address_masked(pop(evm.stack))
    memory_input_start_position = pop(evm.stack)
    memory_input_size = pop(evm.stack)
    memory_output_start_position = pop(evm.stack)
    memory_output_size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_input_start_position, memory_input_size), (memory_output_start_position, memory_output_size)])
    if to in evm.accessed_addresses:
        access_gas_cost = GAS_WARM_ACCESS
    else:
        evm.accessed_addresses.add(to)
        access_gas_cost = GAS_COLD_ACCOUNT_ACCESS
    code_address = to
    disable_precompiles, code_address, code, delegated_access_gas_cost = access_delegation(evm, code_address)
    access_gas_cost += delegated_access_gas_cost
    message_call_gas = calculate_message_call_gas(U256(0), gas, Uint(evm.gas_left), extend_memory.cost, access_gas_cost)
    charge_gas(evm, message_call_gas.cost + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    generic_call(evm, message_call_gas.sub_call, U256(0), evm.message.current_target, to, code_address, True, True, memory_input_start_position, memory_input_size, memory_output_start_position, memory_output_size, code, disable_precompiles)
    evm.pc += Uint(1)
#: byzantium..osaka
def revert(evm: Evm) -> None:
    memory_start_index = pop(evm.stack)
    size = pop(evm.stack)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_start_index, size)])
    charge_gas(evm, extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    output = memory_read_bytes(evm.memory, memory_start_index, size)
    evm.output = Bytes(output)
    raise Revert
