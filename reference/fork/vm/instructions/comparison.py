#: module frontier..osaka
#: frontier..osaka
from ethereum_types.numeric import U256, Uint
from .. import Evm
from ..gas import GAS_VERY_LOW, charge_gas
from ..stack import pop, push
def less_than(evm: Evm) -> None:
    left = pop(evm.stack)
    right = pop(evm.stack)
    charge_gas(evm, GAS_VERY_LOW)
    result = U256(left < right)
    push(evm.stack, result)
    evm.pc += Uint(1)
def signed_less_than(evm: Evm) -> None:
    left = pop(evm.stack).to_signed()
    right = pop(evm.stack).to_signed()
    charge_gas(evm, GAS_VERY_LOW)
    result = U256(left < right)
    push(evm.stack, result)
    evm.pc += Uint(1)
def greater_than(evm: Evm) -> None:
    left = pop(evm.stack)
    right = pop(evm.stack)
    charge_gas(evm, GAS_VERY_LOW)
    result = U256(left > right)
    push(evm.stack, result)
    evm.pc += Uint(1)
def signed_greater_than(evm: Evm) -> None:
    left = pop(evm.stack).to_signed()
    right = pop(evm.stack).to_signed()
    charge_gas(evm, GAS_VERY_LOW)
    result = U256(left > right)
    push(evm.stack, result)
    evm.pc += Uint(1)
def equal(evm: Evm) -> None:
    left = pop(evm.stack)
    right = pop(evm.stack)
    charge_gas(evm, GAS_VERY_LOW)
    result = U256(left == right)
    push(evm.stack, result)
    evm.pc += Uint(1)
def is_zero(evm: Evm) -> None:
    x = pop(evm.stack)
    charge_gas(evm, GAS_VERY_LOW)
    result = U256(x == 0)
    push(evm.stack, result)
    evm.pc += Uint(1)
