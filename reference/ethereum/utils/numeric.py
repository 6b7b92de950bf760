from typing import Sequence, SupportsInt, Tuple
from ethereum_types.numeric import U32, Uint
def get_sign(value: int) -> int:
    if value < 0:
        return -1
    elif value == 0:
        return 0
    else:
        return 1
def ceil32(value: Uint) -> Uint:
    ceiling = Uint(32)
    remainder = value % ceiling
    if remainder == Uint(0):
        return value
    else:
        return value + ceiling - remainder
def is_prime(number: SupportsInt) -> bool:
    number = int(number)
    if number <= 1:
        return False
    for x in range(2, int(number ** 0.5) + 1):
        if number % x == 0:
            return False
    return True
def le_bytes_to_uint32_sequence(data: bytes) -> Tuple[U32, ...]:
    sequence = []
    for i in range(0, len(data), 4):
        sequence.append(U32.from_le_bytes(data[i:i + 4]))
    return tuple(sequence)
def le_uint32_sequence_to_bytes(sequence: Sequence[U32]) -> bytes:
    result_bytes = b''
    for item in sequence:
        result_bytes += item.to_le_bytes4()
    return result_bytes
def le_uint32_sequence_to_uint(sequence: Sequence[U32]) -> Uint:
    sequence_as_bytes = le_uint32_sequence_to_bytes(sequence)
    return Uint.from_le_bytes(sequence_as_bytes)
def taylor_exponential(factor: Uint, numerator: Uint, denominator: Uint) -> Uint:
    i = Uint(1)
    output = Uint(0)
    numerator_accumulated = factor * denominator
    while numerator_accumulated > Uint(0):
        output += numerator_accumulated
        numerator_accumulated = numerator_accumulated * numerator // (denominator * i)
        i += Uint(1)
    return output // denominator
