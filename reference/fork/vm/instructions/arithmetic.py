#: module frontier..osaka
#: frontier..osaka
from ethereum_types.bytes import Bytes
from ethereum_types.numeric import U256, Uint
from ethereum.utils.numeric import get_sign
from .. import Evm
from ..gas import GAS_EXPONENTIATION, GAS_EXPONENTIATION_PER_BYTE, GAS_LOW, GAS_MID, GAS_VERY_LOW, charge_gas
from ..stack import pop, push
def add(evm: Evm) -> None:
    x = pop(evm.stack)
    y = pop(evm.stack)
    charge_gas(evm, GAS_VERY_LOW)
    result = x.wrapping_add(y)
    push(evm.stack, result)
    evm.pc += Uint(1)
def sub(evm: Evm) -> None:
    x = pop(evm.stack)
    y = pop(evm.stack)
    charge_gas(evm, GAS_VERY_LOW)
    result = x.wrapping_sub(y)
    push(evm.stack, result)
    evm.pc += Uint(1)
def mul(evm: Evm) -> None:
    x = pop(evm.stack)
    y = pop(evm.stack)
    charge_gas(evm, GAS_LOW)
    result = x.wrapping_mul(y)
    push(evm.stack, result)
    evm.pc += Uint(1)
def div(evm: Evm) -> None:
    dividend = pop(evm.stack)
    divisor = pop(evm.stack)
    charge_gas(evm, GAS_LOW)
    if divisor == 0:
        quotient = U256(0)
    else:
        quotient = dividend // divisor
    push(evm.stack, quotient)
    evm.pc += Uint(1)
U255_CEIL_VALUE = 2 ** 255
def sdiv(evm: Evm) -> None:
    dividend = pop(evm.stack).to_signed()
    divisor = pop(evm.stack).to_signed()
    charge_gas(evm, GAS_LOW)
    if divisor == 0:
        quotient = 0
    elif dividend == -U255_CEIL_VALUE and divisor == -1:
        quotient = -U255_CEIL_VALUE
    else:
        sign = get_sign(dividend * divisor)
        quotient = sign * (abs(dividend) // abs(divisor))
    push(evm.stack, U256.from_signed(quotient))
    evm.pc += Uint(1)
def mod(evm: Evm) -> None:
    x = pop(evm.stack)
    y = pop(evm.stack)
    charge_gas(evm, GAS_LOW)
    if y == 0:
        remainder = U256(0)
    else:
        remainder = x % y
    push(evm.stack, remainder)
    evm.pc += Uint(1)
def smod(evm: Evm) -> None:
    x = pop(evm.stack).to_signed()
    y = pop(evm.stack).to_signed()
    charge_gas(evm, GAS_LOW)
    if y == 0:
        remainder = 0
    else:
        remainder = get_sign(x) * (abs(x) % abs(y))
    push(evm.stack, U256.from_signed(remainder))
    evm.pc += Uint(1)
def addmod(evm: Evm) -> None:
    x = Uint(pop(evm.stack))
    y = Uint(pop(evm.stack))
    z = Uint(pop(evm.stack))
    charge_gas(evm, GAS_MID)
    if z == 0:
        result = U256(0)
    else:
        result = U256((x + y) % z)
    push(evm.stack, result)
    evm.pc += Uint(1)
def mulmod(evm: Evm) -> None:
    x = Uint(pop(evm.stack))
    y = Uint(pop(evm.stack))
    z = Uint(pop(evm.stack))
    charge_gas(evm, GAS_MID)
    if z == 0:
        result = U256(0)
    else:
        result = U256(x * y % z)
    push(evm.stack, result)
    evm.pc += Uint(1)
def exp(evm: Evm) -> None:
    base = Uint(pop(evm.stack))
    exponent = Uint(pop(evm.stack))
    exponent_bits = exponent.bit_length()
    exponent_bytes = (exponent_bits + Uint(7)) // Uint(8)
    charge_gas(evm, GAS_EXPONENTIATION + GAS_EXPONENTIATION_PER_BYTE * exponent_bytes)
    result = U256(pow(base, exponent, Uint(U256.MAX_VALUE) + Uint(1)))
    push(evm.stack, result)
    evm.pc += Uint(1)
def signextend(evm: Evm) -> None:
    byte_num = pop(evm.stack)
    value = pop(evm.stack)
    charge_gas(evm, GAS_LOW)
    if byte_num > U256(31):
        result = value
    else:
        value_bytes = Bytes(value.to_be_bytes32())
        value_bytes = value_bytes[31 - int(byte_num):]
        sign_bit = value_bytes[0] >> 7
        if sign_bit == 0:
            result = U256.from_be_bytes(value_bytes)
        else:
            num_bytes_prepend = U256(32) - (byte_num + U256(1))
            result = U256.from_be_bytes(bytearray([255] * num_bytes_prepend) + value_bytes)
    push(evm.stack, result)
    evm.pc += Uint(1)
