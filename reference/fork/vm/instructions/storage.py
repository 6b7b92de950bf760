#: module frontier..osaka
#: frontier..osaka
from ethereum_types.numeric import Uint
#: frontier..constantinople
from ...state import get_storage, set_storage
#: istanbul..shanghai
from ...state import get_storage, get_storage_original, set_storage
#: cancun..osaka
from ...state import get_storage, get_storage_original, get_transient_storage, set_storage, set_transient_storage
#: frontier..osaka
from .. import Evm
#: byzantium..constantinople
from ..exceptions import WriteInStaticContext
#: frontier..constantinople
from ..gas import GAS_SLOAD, GAS_STORAGE_CLEAR_REFUND, GAS_STORAGE_SET, GAS_STORAGE_UPDATE, charge_gas
#: istanbul..osaka
from ..exceptions import OutOfGasError, WriteInStaticContext
#: istanbul..muir_glacier
from ..gas import GAS_CALL_STIPEND, GAS_SLOAD, GAS_STORAGE_CLEAR_REFUND, GAS_STORAGE_SET, GAS_STORAGE_UPDATE, charge_gas
#: berlin..osaka
from ..gas import GAS_CALL_STIPEND, GAS_COLD_SLOAD, GAS_STORAGE_CLEAR_REFUND, GAS_STORAGE_SET, GAS_STORAGE_UPDATE, GAS_WARM_ACCESS, charge_gas
#: frontier..osaka
from ..stack import pop, push
#: frontier..muir_glacier
def sload(evm: Evm) -> None:
    key = pop(evm.stack).to_be_bytes32()
    charge_gas(evm, GAS_SLOAD)
    value = get_storage(evm.message.block_env.state, evm.message.current_target, key)
    push(evm.stack, value)
    evm.pc += Uint(1)
#: frontier..spurious_dragon
def sstore(evm: Evm) -> None:
    key = pop(evm.stack).to_be_bytes32()
    new_value = pop(evm.stack)
    state = evm.message.block_env.state
    current_value = get_storage(state, evm.message.current_target, key)
    if new_value != 0 and current_value == 0:
        gas_cost = GAS_STORAGE_SET
    else:
        gas_cost = GAS_STORAGE_UPDATE
    if new_value == 0 and current_value != 0:
        evm.refund_counter += int(GAS_STORAGE_CLEAR_REFUND)
    charge_gas(evm, gas_cost)
    set_storage(state, evm.message.current_target, key, new_value)
    evm.pc += Uint(1)
#: byzantium..constantinople
def sstore(evm: Evm) -> None:
    key = pop(evm.stack).to_be_bytes32()
    new_value = pop(evm.stack)
    state = evm.message.block_env.state
    current_value = get_storage(state, evm.message.current_target, key)
    if new_value != 0 and current_value == 0:
        gas_cost = GAS_STORAGE_SET
    else:
        gas_cost = GAS_STORAGE_UPDATE
    if new_value == 0 and current_value != 0:
        evm.refund_counter += int(GAS_STORAGE_CLEAR_REFUND)
    charge_gas(evm, gas_cost)
    if evm.message.is_static:
        raise WriteInStaticContext
    set_storage(state, evm.message.current_target, key, new_value)
    evm.pc += Uint(1)
#: istanbul..muir_glacier
def sstore(evm: Evm) -> None:
    key = pop(evm.stack).to_be_bytes32()
    new_value = pop(evm.stack)
    if evm.gas_left <= GAS_CALL_STIPEND:
        raise OutOfGasError
    state = evm.message.block_env.state
    original_value = get_storage_original(state, evm.message.current_target, key)
    current_value = get_storage(state, evm.message.current_target, key)
    if original_value == current_value and current_value != new_value:
        if original_value == 0:
            gas_cost = GAS_STORAGE_SET
        else:
            gas_cost = GAS_STORAGE_UPDATE
    else:
        gas_cost = GAS_SLOAD
    if current_value != new_value:
        if original_value != 0 and current_value != 0 and (new_value == 0):
            evm.refund_counter += int(GAS_STORAGE_CLEAR_REFUND)
        if original_value != 0 and current_value == 0:
            evm.refund_counter -= int(GAS_STORAGE_CLEAR_REFUND)
        if original_value == new_value:
            if original_value == 0:
                evm.refund_counter += int(GAS_STORAGE_SET - GAS_SLOAD)
            else:
                evm.refund_counter += int(GAS_STORAGE_UPDATE - GAS_SLOAD)
    charge_gas(evm, gas_cost)
    if evm.message.is_static:
        raise WriteInStaticContext
    set_storage(state, evm.message.current_target, key, new_value)
    evm.pc += Uint(1)
#: berlin..osaka
def sload(evm: Evm) -> None:
    key = pop(evm.stack).to_be_bytes32()
    if (evm.message.current_target, key) in evm.accessed_storage_keys:
        charge_gas(evm, GAS_WARM_ACCESS)
    else:
        evm.accessed_storage_keys.add((evm.message.current_target, key))
        charge_gas(evm, GAS_COLD_SLOAD)
    value = get_storage(evm.message.block_env.state, evm.message.current_target, key)
    push(evm.stack, value)
    evm.pc += Uint(1)
def sstore(evm: Evm) -> None:
    key = pop(evm.stack).to_be_bytes32()
    new_value = pop(evm.stack)
    if evm.gas_left <= GAS_CALL_STIPEND:
        raise OutOfGasError
    state = evm.message.block_env.state
    original_value = get_storage_original(state, evm.message.current_target, key)
    current_value = get_storage(state, evm.message.current_target, key)
    gas_cost = Uint(0)
    if (evm.message.current_target, key) not in evm.accessed_storage_keys:
        evm.accessed_storage_keys.add((evm.message.current_target, key))
        gas_cost += GAS_COLD_SLOAD
    if original_value == current_value and current_value != new_value:
        if original_value == 0:
            gas_cost += GAS_STORAGE_SET
        else:
            gas_cost += GAS_STORAGE_UPDATE - GAS_COLD_SLOAD
    else:
        gas_cost += GAS_WARM_ACCESS
    if current_value != new_value:
        if original_value != 0 and current_value != 0 and (new_value == 0):
            evm.refund_counter += int(GAS_STORAGE_CLEAR_REFUND)
        if original_value != 0 and current_value == 0:
            evm.refund_counter -= int(GAS_STORAGE_CLEAR_REFUND)
        if original_value == new_value:
            if original_value == 0:
                evm.refund_counter += int(GAS_STORAGE_SET - GAS_WARM_ACCESS)
            else:
                evm.refund_counter += int(GAS_STORAGE_UPDATE - GAS_COLD_SLOAD - GAS_WARM_ACCESS)
    charge_gas(evm, gas_cost)
    if evm.message.is_static:
        raise WriteInStaticContext
    set_storage(state, evm.message.current_target, key, new_value)
    evm.pc += Uint(1)
#: cancun..osaka
def tload(evm: Evm) -> None:
    key = pop(evm.stack).to_be_bytes32()
    charge_gas(evm, GAS_WARM_ACCESS)
    value = get_transient_storage(evm.message.tx_env.transient_storage, evm.message.current_target, key)
    push(evm.stack, value)
    evm.pc += Uint(1)
def tstore(evm: Evm) -> None:
    key = pop(evm.stack).to_be_bytes32()
    new_value = pop(evm.stack)
    charge_gas(evm, GAS_WARM_ACCESS)
    if evm.message.is_static:
        raise WriteInStaticContext
    set_transient_storage(evm.message.tx_env.transient_storage, evm.message.current_target, key, new_value)
    evm.pc += Uint(1)
