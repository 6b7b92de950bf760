#: module frontier..osaka
#: frontier..osaka
from dataclasses import dataclass
from typing import Optional, Set, Tuple
#: frontier..cancun
from ethereum_types.bytes import Bytes0
#: prague..osaka
from ethereum_types.bytes import Bytes, Bytes0
#: frontier..osaka
from ethereum_types.numeric import U256, Uint, ulen
from ethereum.exceptions import EthereumException
from ethereum.trace import EvmStop, OpEnd, OpException, OpStart, PrecompileEnd, PrecompileStart, TransactionEnd, evm_trace
from ..blocks import Log
from ..fork_types import Address
#: frontier..tangerine_whistle
from ..state import account_has_code_or_nonce, account_has_storage, begin_transaction, commit_transaction, destroy_storage, move_ether, rollback_transaction, set_code, touch_account
#: spurious_dragon..constantinople
from ..state import account_exists_and_is_empty, account_has_code_or_nonce, account_has_storage, begin_transaction, commit_transaction, destroy_storage, increment_nonce, move_ether, rollback_transaction, set_code, touch_account
#: istanbul..gray_glacier
from ..state import account_exists_and_is_empty, account_has_code_or_nonce, account_has_storage, begin_transaction, commit_transaction, destroy_storage, increment_nonce, mark_account_created, move_ether, rollback_transaction, set_code, touch_account
#: paris..cancun
from ..state import account_has_code_or_nonce, account_has_storage, begin_transaction, commit_transaction, destroy_storage, increment_nonce, mark_account_created, move_ether, rollback_transaction, set_code
#: prague..osaka
from ..state import account_has_code_or_nonce, account_has_storage, begin_transaction, commit_transaction, destroy_storage, get_account, increment_nonce, mark_account_created, move_ether, rollback_transaction, set_code
#: frontier..osaka
from ..vm import Message
#: prague..osaka
from ..vm.eoa_delegation import get_delegated_code_address, set_delegation
#: frontier..osaka
from ..vm.gas import GAS_CODE_DEPOSIT, charge_gas
from ..vm.precompiled_contracts.mapping import PRE_COMPILED_CONTRACTS
from . import Evm
#: frontier..tangerine_whistle
from .exceptions import AddressCollision, ExceptionalHalt, InvalidOpcode, StackDepthLimitError
#: spurious_dragon
from .exceptions import AddressCollision, ExceptionalHalt, InvalidOpcode, OutOfGasError, StackDepthLimitError
#: byzantium..berlin
from .exceptions import AddressCollision, ExceptionalHalt, InvalidOpcode, OutOfGasError, Revert, StackDepthLimitError
#: london..osaka
from .exceptions import AddressCollision, ExceptionalHalt, InvalidContractPrefix, InvalidOpcode, OutOfGasError, Revert, StackDepthLimitError
#: frontier..osaka
from .instructions import Ops, op_implementation
from .runtime import get_valid_jump_destinations
STACK_DEPTH_LIMIT = Uint(1024)
#: paris..osaka
MAX_CODE_SIZE = 24576
#: shanghai..osaka
MAX_INIT_CODE_SIZE = 2 * MAX_CODE_SIZE
#: frontier..tangerine_whistle,paris..cancun
@dataclass
class MessageCallOutput:
    gas_left: Uint
    refund_counter: U256
    logs: Tuple[Log, ...]
    accounts_to_delete: Set[Address]
    error: Optional[EthereumException]
def process_message_call(message: Message) -> MessageCallOutput:
    block_env = message.block_env
    refund_counter = U256(0)
    if message.target == Bytes0(b''):
        is_collision = account_has_code_or_nonce(block_env.state, message.current_target) or account_has_storage(block_env.state, message.current_target)
        if is_collision:
            return MessageCallOutput(Uint(0), U256(0), tuple(), set(), AddressCollision())
        else:
            evm = process_create_message(message)
    else:
        evm = process_message(message)
    if evm.error:
        logs: Tuple[Log, ...] = ()
        accounts_to_delete = set()
    else:
        logs = evm.logs
        accounts_to_delete = evm.accounts_to_delete
        refund_counter += U256(evm.refund_counter)
    tx_end = TransactionEnd(int(message.gas) - int(evm.gas_left), evm.output, evm.error)
    evm_trace(evm, tx_end)
    return MessageCallOutput(gas_left=evm.gas_left, refund_counter=refund_counter, logs=logs, accounts_to_delete=accounts_to_delete, error=evm.error)
#: frontier
def process_create_message(message: Message) -> Evm:
    state = message.block_env.state
    begin_transaction(state)
    destroy_storage(state, message.current_target)
    evm = process_message(message)
    if not evm.error:
        contract_code = evm.output
        contract_code_gas = Uint(len(contract_code)) * GAS_CODE_DEPOSIT
        try:
            charge_gas(evm, contract_code_gas)
        except ExceptionalHalt:
            evm.output = b''
        else:
            set_code(state, message.current_target, contract_code)
        commit_transaction(state)
    else:
        rollback_transaction(state)
    return evm
def process_message(message: Message) -> Evm:
    state = message.block_env.state
    if message.depth > STACK_DEPTH_LIMIT:
        raise StackDepthLimitError('Stack depth limit reached')
    begin_transaction(state)
    touch_account(state, message.current_target)
    if message.value != 0:
        move_ether(state, message.caller, message.current_target, message.value)
    evm = execute_code(message)
    if evm.error:
        rollback_transaction(state)
    else:
        commit_transaction(state)
    return evm
#: homestead..tangerine_whistle
def process_create_message(message: Message) -> Evm:
    state = message.block_env.state
    begin_transaction(state)
    destroy_storage(state, message.current_target)
    evm = process_message(message)
    if not evm.error:
        contract_code = evm.output
        contract_code_gas = Uint(len(contract_code)) * GAS_CODE_DEPOSIT
        try:
            charge_gas(evm, contract_code_gas)
        except ExceptionalHalt as error:
            rollback_transaction(state)
            evm.gas_left = Uint(0)
            evm.error = error
        else:
            set_code(state, message.current_target, contract_code)
            commit_transaction(state)
    else:
        rollback_transaction(state)
    return evm
#: spurious_dragon..gray_glacier
MAX_CODE_SIZE = 24576
@dataclass
class MessageCallOutput:
    gas_left: Uint
    refund_counter: U256
    logs: Tuple[Log, ...]
    accounts_to_delete: Set[Address]
    touched_accounts: Set[Address]
    error: Optional[EthereumException]
def process_message_call(message: Message) -> MessageCallOutput:
    block_env = message.block_env
    refund_counter = U256(0)
    if message.target == Bytes0(b''):
        is_collision = account_has_code_or_nonce(block_env.state, message.current_target) or account_has_storage(block_env.state, message.current_target)
        if is_collision:
            return MessageCallOutput(Uint(0), U256(0), tuple(), set(), set(), AddressCollision())
        else:
            evm = process_create_message(message)
    else:
        evm = process_message(message)
        if account_exists_and_is_empty(block_env.state, Address(message.target)):
            evm.touched_accounts.add(Address(message.target))
    if evm.error:
        logs: Tuple[Log, ...] = ()
        accounts_to_delete = set()
        touched_accounts = set()
    else:
        logs = evm.logs
        accounts_to_delete = evm.accounts_to_delete
        touched_accounts = evm.touched_accounts
        refund_counter += U256(evm.refund_counter)
    tx_end = TransactionEnd(int(message.gas) - int(evm.gas_left), evm.output, evm.error)
    evm_trace(evm, tx_end)
    return MessageCallOutput(gas_left=evm.gas_left, refund_counter=refund_counter, logs=logs, accounts_to_delete=accounts_to_delete, touched_accounts=touched_accounts, error=evm.error)
#: spurious_dragon
def process_create_message(message: Message) -> Evm:
    state = message.block_env.state
    begin_transaction(state)
    destroy_storage(state, message.current_target)
    increment_nonce(state, message.current_target)
    evm = process_message(message)
    if not evm.error:
        contract_code = evm.output
        contract_code_gas = Uint(len(contract_code)) * GAS_CODE_DEPOSIT
        try:
            charge_gas(evm, contract_code_gas)
            if len(contract_code) > MAX_CODE_SIZE:
                raise OutOfGasError
        except ExceptionalHalt as error:
            rollback_transaction(state)
            evm.gas_left = Uint(0)
            evm.error = error
        else:
            set_code(state, message.current_target, contract_code)
            commit_transaction(state)
    else:
        rollback_transaction(state)
    return evm
#: byzantium..constantinople
def process_create_message(message: Message) -> Evm:
    state = message.block_env.state
    begin_transaction(state)
    destroy_storage(state, message.current_target)
    increment_nonce(state, message.current_target)
    evm = process_message(message)
    if not evm.error:
        contract_code = evm.output
        contract_code_gas = Uint(len(contract_code)) * GAS_CODE_DEPOSIT
        try:
            charge_gas(evm, contract_code_gas)
            if len(contract_code) > MAX_CODE_SIZE:
                raise OutOfGasError
        except ExceptionalHalt as error:
            rollback_transaction(state)
            evm.gas_left = Uint(0)
            evm.output = b''
            evm.error = error
        else:
            set_code(state, message.current_target, contract_code)
            commit_transaction(state)
    else:
        rollback_transaction(state)
    return evm
#: istanbul..berlin
def process_create_message(message: Message) -> Evm:
    state = message.block_env.state
    begin_transaction(state)
    destroy_storage(state, message.current_target)
    mark_account_created(state, message.current_target)
    increment_nonce(state, message.current_target)
    evm = process_message(message)
    if not evm.error:
        contract_code = evm.output
        contract_code_gas = Uint(len(contract_code)) * GAS_CODE_DEPOSIT
        try:
            charge_gas(evm, contract_code_gas)
            if len(contract_code) > MAX_CODE_SIZE:
                raise OutOfGasError
        except ExceptionalHalt as error:
            rollback_transaction(state)
            evm.gas_left = Uint(0)
            evm.output = b''
            evm.error = error
        else:
            set_code(state, message.current_target, contract_code)
            commit_transaction(state)
    else:
        rollback_transaction(state)
    return evm
#: london..shanghai
def process_create_message(message: Message) -> Evm:
    state = message.block_env.state
    begin_transaction(state)
    destroy_storage(state, message.current_target)
    mark_account_created(state, message.current_target)
    increment_nonce(state, message.current_target)
    evm = process_message(message)
    if not evm.error:
        contract_code = evm.output
        contract_code_gas = Uint(len(contract_code)) * GAS_CODE_DEPOSIT
        try:
            if len(contract_code) > 0:
                if contract_code[0] == 239:
                    raise InvalidContractPrefix
            charge_gas(evm, contract_code_gas)
            if len(contract_code) > MAX_CODE_SIZE:
                raise OutOfGasError
        except ExceptionalHalt as error:
            rollback_transaction(state)
            evm.gas_left = Uint(0)
            evm.output = b''
            evm.error = error
        else:
            set_code(state, message.current_target, contract_code)
            commit_transaction(state)
    else:
        rollback_transaction(state)
    return evm
#: homestead..gray_glacier
def process_message(message: Message) -> Evm:
    state = message.block_env.state
    if message.depth > STACK_DEPTH_LIMIT:
        raise StackDepthLimitError('Stack depth limit reached')
    begin_transaction(state)
    touch_account(state, message.current_target)
    if message.should_transfer_value and message.value != 0:
        move_ether(state, message.caller, message.current_target, message.value)
    evm = execute_code(message)
    if evm.error:
        rollback_transaction(state)
    else:
        commit_transaction(state)
    return evm
#: frontier..tangerine_whistle
def execute_code(message: Message) -> Evm:
    code = message.code
    valid_jump_destinations = get_valid_jump_destinations(code)
    evm = Evm(pc=Uint(0), stack=[], memory=bytearray(), code=code, gas_left=message.gas, valid_jump_destinations=valid_jump_destinations, logs=(), refund_counter=0, running=True, message=message, output=b'', accounts_to_delete=set(), error=None)
    try:
        if evm.message.code_address in PRE_COMPILED_CONTRACTS:
            evm_trace(evm, PrecompileStart(evm.message.code_address))
            PRE_COMPILED_CONTRACTS[evm.message.code_address](evm)
            evm_trace(evm, PrecompileEnd())
            return evm
        while evm.running and evm.pc < ulen(evm.code):
            try:
                op = Ops(evm.code[evm.pc])
            except ValueError:
                raise InvalidOpcode(evm.code[evm.pc])
            evm_trace(evm, OpStart(op))
            op_implementation[op](evm)
            evm_trace(evm, OpEnd())
        evm_trace(evm, EvmStop(Ops.STOP))
    except ExceptionalHalt as error:
        evm_trace(evm, OpException(error))
        evm.gas_left = Uint(0)
        evm.error = error
    return evm
#: spurious_dragon
def execute_code(message: Message) -> Evm:
    code = message.code
    valid_jump_destinations = get_valid_jump_destinations(code)
    evm = Evm(pc=Uint(0), stack=[], memory=bytearray(), code=code, gas_left=message.gas, valid_jump_destinations=valid_jump_destinations, logs=(), refund_counter=0, running=True, message=message, output=b'', accounts_to_delete=set(), touched_accounts=set(), error=None)
    try:
        if evm.message.code_address in PRE_COMPILED_CONTRACTS:
            evm_trace(evm, PrecompileStart(evm.message.code_address))
            PRE_COMPILED_CONTRACTS[evm.message.code_address](evm)
            evm_trace(evm, PrecompileEnd())
            return evm
        while evm.running and evm.pc < ulen(evm.code):
            try:
                op = Ops(evm.code[evm.pc])
            except ValueError:
                raise InvalidOpcode(evm.code[evm.pc])
            evm_trace(evm, OpStart(op))
            op_implementation[op](evm)
            evm_trace(evm, OpEnd())
        evm_trace(evm, EvmStop(Ops.STOP))
    except ExceptionalHalt as error:
        evm_trace(evm, OpException(error))
        evm.gas_left = Uint(0)
        evm.error = error
    return evm
#: byzantium..muir_glacier
def execute_code(message: Message) -> Evm:
    code = message.code
    valid_jump_destinations = get_valid_jump_destinations(code)
    evm = Evm(pc=Uint(0), stack=[], memory=bytearray(), code=code, gas_left=message.gas, valid_jump_destinations=valid_jump_destinations, logs=(), refund_counter=0, running=True, message=message, output=b'', accounts_to_delete=set(), touched_accounts=set(), return_data=b'', error=None)
    try:
        if evm.message.code_address in PRE_COMPILED_CONTRACTS:
            evm_trace(evm, PrecompileStart(evm.message.code_address))
            PRE_COMPILED_CONTRACTS[evm.message.code_address](evm)
            evm_trace(evm, PrecompileEnd())
            return evm
        while evm.running and evm.pc < ulen(evm.code):
            try:
                op = Ops(evm.code[evm.pc])
            except ValueError:
                raise InvalidOpcode(evm.code[evm.pc])
            evm_trace(evm, OpStart(op))
            op_implementation[op](evm)
            evm_trace(evm, OpEnd())
        evm_trace(evm, EvmStop(Ops.STOP))
    except ExceptionalHalt as error:
        evm_trace(evm, OpException(error))
        evm.gas_left = Uint(0)
        evm.output = b''
        evm.error = error
    except Revert as error:
        evm_trace(evm, OpException(error))
        evm.error = error
    return evm
#: berlin..gray_glacier
def execute_code(message: Message) -> Evm:
    code = message.code
    valid_jump_destinations = get_valid_jump_destinations(code)
    evm = Evm(pc=Uint(0), stack=[], memory=bytearray(), code=code, gas_left=message.gas, valid_jump_destinations=valid_jump_destinations, logs=(), refund_counter=0, running=True, message=message, output=b'', accounts_to_delete=set(), touched_accounts=set(), return_data=b'', error=None, accessed_addresses=message.accessed_addresses, accessed_storage_keys=message.accessed_storage_keys)
    try:
        if evm.message.code_address in PRE_COMPILED_CONTRACTS:
            evm_trace(evm, PrecompileStart(evm.message.code_address))
            PRE_COMPILED_CONTRACTS[evm.message.code_address](evm)
            evm_trace(evm, PrecompileEnd())
            return evm
        while evm.running and evm.pc < ulen(evm.code):
            try:
                op = Ops(evm.code[evm.pc])
            except ValueError:
                raise InvalidOpcode(evm.code[evm.pc])
            evm_trace(evm, OpStart(op))
            op_implementation[op](evm)
            evm_trace(evm, OpEnd())
        evm_trace(evm, EvmStop(Ops.STOP))
    except ExceptionalHalt as error:
        evm_trace(evm, OpException(error))
        evm.gas_left = Uint(0)
        evm.output = b''
        evm.error = error
    except Revert as error:
        evm_trace(evm, OpException(error))
        evm.error = error
    return evm
#: paris..shanghai
def process_message(message: Message) -> Evm:
    state = message.block_env.state
    if message.depth > STACK_DEPTH_LIMIT:
        raise StackDepthLimitError('Stack depth limit reached')
    begin_transaction(state)
    if message.should_transfer_value and message.value != 0:
        move_ether(state, message.caller, message.current_target, message.value)
    evm = execute_code(message)
    if evm.error:
        rollback_transaction(state)
    else:
        commit_transaction(state)
    return evm
#: prague..osaka
@dataclass
class MessageCallOutput:
    gas_left: Uint
    refund_counter: U256
    logs: Tuple[Log, ...]
    accounts_to_delete: Set[Address]
    error: Optional[EthereumException]
    return_data: Bytes
def process_message_call(message: Message) -> MessageCallOutput:
    block_env = message.block_env
    refund_counter = U256(0)
    if message.target == Bytes0(b''):
        is_collision = account_has_code_or_nonce(block_env.state, message.current_target) or account_has_storage(block_env.state, message.current_target)
        if is_collision:
            return MessageCallOutput(Uint(0), U256(0), tuple(), set(), AddressCollision(), Bytes(b''))
        else:
            evm = process_create_message(message)
    else:
        if message.tx_env.authorizations != ():
            refund_counter += set_delegation(message)
        delegated_address = get_delegated_code_address(message.code)
        if delegated_address is not None:
            message.disable_precompiles = True
            message.accessed_addresses.add(delegated_address)
            message.code = get_account(block_env.state, delegated_address).code
            message.code_address = delegated_address
        evm = process_message(message)
    if evm.error:
        logs: Tuple[Log, ...] = ()
        accounts_to_delete = set()
    else:
        logs = evm.logs
        accounts_to_delete = evm.accounts_to_delete
        refund_counter += U256(evm.refund_counter)
    tx_end = TransactionEnd(int(message.gas) - int(evm.gas_left), evm.output, evm.error)
    evm_trace(evm, tx_end)
    return MessageCallOutput(gas_left=evm.gas_left, refund_counter=refund_counter, logs=logs, accounts_to_delete=accounts_to_delete, error=evm.error, return_data=evm.output)
#: cancun..osaka
def process_create_message(message: Message) -> Evm:
    state = message.block_env.state
    transient_storage = message.tx_env.transient_storage
    begin_transaction(state, transient_storage)
    destroy_storage(state, message.current_target)
    mark_account_created(state, message.current_target)
    increment_nonce(state, message.current_target)
    evm = process_message(message)
    if not evm.error:
        contract_code = evm.output
        contract_code_gas = Uint(len(contract_code)) * GAS_CODE_DEPOSIT
        try:
            if len(contract_code) > 0:
                if contract_code[0] == 239:
                    raise InvalidContractPrefix
            charge_gas(evm, contract_code_gas)
            if len(contract_code) > MAX_CODE_SIZE:
                raise OutOfGasError
        except ExceptionalHalt as error:
            rollback_transaction(state, transient_storage)
            evm.gas_left = Uint(0)
            evm.output = b''
            evm.error = error
        else:
            set_code(state, message.current_target, contract_code)
            commit_transaction(state, transient_storage)
    else:
        rollback_transaction(state, transient_storage)
    return evm
def process_message(message: Message) -> Evm:
    state = message.block_env.state
    transient_storage = message.tx_env.transient_storage
    if message.depth > STACK_DEPTH_LIMIT:
        raise StackDepthLimitError('Stack depth limit reached')
    begin_transaction(state, transient_storage)
    if message.should_transfer_value and message.value != 0:
        move_ether(state, message.caller, message.current_target, message.value)
    evm = execute_code(message)
    if evm.error:
        rollback_transaction(state, transient_storage)
    else:
        commit_transaction(state, transient_storage)
    return evm
#: paris..cancun
def execute_code(message: Message) -> Evm:
    code = message.code
    valid_jump_destinations = get_valid_jump_destinations(code)
    evm = Evm(pc=Uint(0), stack=[], memory=bytearray(), code=code, gas_left=message.gas, valid_jump_destinations=valid_jump_destinations, logs=(), refund_counter=0, running=True, message=message, output=b'', accounts_to_delete=set(), return_data=b'', error=None, accessed_addresses=message.accessed_addresses, accessed_storage_keys=message.accessed_storage_keys)
    try:
        if evm.message.code_address in PRE_COMPILED_CONTRACTS:
            evm_trace(evm, PrecompileStart(evm.message.code_address))
            PRE_COMPILED_CONTRACTS[evm.message.code_address](evm)
            evm_trace(evm, PrecompileEnd())
            return evm
        while evm.running and evm.pc < ulen(evm.code):
            try:
                op = Ops(evm.code[evm.pc])
            except ValueError:
                raise InvalidOpcode(evm.code[evm.pc])
            evm_trace(evm, OpStart(op))
            op_implementation[op](evm)
            evm_trace(evm, OpEnd())
        evm_trace(evm, EvmStop(Ops.STOP))
    except ExceptionalHalt as error:
        evm_trace(evm, OpException(error))
        evm.gas_left = Uint(0)
        evm.output = b''
        evm.error = error
    except Revert as error:
        evm_trace(evm, OpException(error))
        evm.error = error
    return evm
#: prague..osaka
def execute_code(message: Message) -> Evm:
    code = message.code
    valid_jump_destinations = get_valid_jump_destinations(code)
    evm = Evm(pc=Uint(0), stack=[], memory=bytearray(), code=code, gas_left=message.gas, valid_jump_destinations=valid_jump_destinations, logs=(), refund_counter=0, running=True, message=message, output=b'', accounts_to_delete=set(), return_data=b'', error=None, accessed_addresses=message.accessed_addresses, accessed_storage_keys=message.accessed_storage_keys)
    try:
        if evm.message.code_address in PRE_COMPILED_CONTRACTS:
            if message.disable_precompiles:
                return evm
            evm_trace(evm, PrecompileStart(evm.message.code_address))
            PRE_COMPILED_CONTRACTS[evm.message.code_address](evm)
            evm_trace(evm, PrecompileEnd())
            return evm
        while evm.running and evm.pc < ulen(evm.code):
            try:
                op = Ops(evm.code[evm.pc])
            except ValueError:
                raise InvalidOpcode(evm.code[evm.pc])
            evm_trace(evm, OpStart(op))
            op_implementation[op](evm)
            evm_trace(evm, OpEnd())
        evm_trace(evm, EvmStop(Ops.STOP))
    except ExceptionalHalt as error:
        evm_trace(evm, OpException(error))
        evm.gas_left = Uint(0)
        evm.output = b''
        evm.error = error
    except Revert as error:
        evm_trace(evm, OpException(error))
        evm.error = error
    return evm
