#: module frontier..osaka
#: frontier..osaka
from ethereum_types.numeric import U256, Uint
from .. import Evm
#: frontier..prague
from ..gas import GAS_VERY_LOW, charge_gas
#: osaka
from ..gas import GAS_LOW, GAS_VERY_LOW, charge_gas
#: frontier..osaka
from ..stack import pop, push
def bitwise_and(evm: Evm) -> None:
    x = pop(evm.stack)
    y = pop(evm.stack)
    charge_gas(evm, GAS_VERY_LOW)
    push(evm.stack, x & y)
    evm.pc += Uint(1)
def bitwise_or(evm: Evm) -> None:
    x = pop(evm.stack)
    y = pop(evm.stack)
    charge_gas(evm, GAS_VERY_LOW)
    push(evm.stack, x | y)
    evm.pc += Uint(1)
def bitwise_xor(evm: Evm) -> None:
    x = pop(evm.stack)
    y = pop(evm.stack)
    charge_gas(evm, GAS_VERY_LOW)
    push(evm.stack, x ^ y)
    evm.pc += Uint(1)
def bitwise_not(evm: Evm) -> None:
    x = pop(evm.stack)
    charge_gas(evm, GAS_VERY_LOW)
    push(evm.stack, ~x)
    evm.pc += Uint(1)
def get_byte(evm: Evm) -> None:
    byte_index = pop(evm.stack)
    word = pop(evm.stack)
    charge_gas(evm, GAS_VERY_LOW)
    if byte_index >= U256(32):
        result = U256(0)
    else:
        extra_bytes_to_right = U256(31) - byte_index
        word = word >> extra_bytes_to_right * U256(8)
        word = word & U256(255)
        result = word
    push(evm.stack, result)
    evm.pc += Uint(1)
#: constantinople..osaka
def bitwise_shl(evm: Evm) -> None:
    shift = Uint(pop(evm.stack))
    value = Uint(pop(evm.stack))
    charge_gas(evm, GAS_VERY_LOW)
    if shift < Uint(256):
        result = U256(value << shift & Uint(U256.MAX_VALUE))
    else:
        result = U256(0)
    push(evm.stack, result)
    evm.pc += Uint(1)
def bitwise_shr(evm: Evm) -> None:
    shift = pop(evm.stack)
    value = pop(evm.stack)
    charge_gas(evm, GAS_VERY_LOW)
    if shift < U256(256):
        result = value >> shift
    else:
        result = U256(0)
    push(evm.stack, result)
    evm.pc += Uint(1)
def bitwise_sar(evm: Evm) -> None:
    shift = int(pop(evm.stack))
    signed_value = pop(evm.stack).to_signed()
    charge_gas(evm, GAS_VERY_LOW)
    if shift < 256:
        result = U256.from_signed(signed_value >> shift)
    elif signed_value >= 0:
        result = U256(0)
    else:
        result = U256.MAX_VALUE
    push(evm.stack, result)
    evm.pc += Uint(1)
#: osaka
def count_leading_zeros(evm: Evm) -> None:
    x = pop(evm.stack)
    charge_gas(evm, GAS_LOW)
    bit_length = U256(x.bit_length())
    result = U256(256) - bit_length
    push(evm.stack, result)
    evm.pc += Uint(1)
