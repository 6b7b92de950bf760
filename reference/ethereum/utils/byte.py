from ethereum_types.bytes import Bytes
from ethereum_types.numeric import FixedUnsigned, Uint
def left_pad_zero_bytes(value: Bytes, size: int | FixedUnsigned | Uint) -> Bytes:
    return value.rjust(int(size), b'\x00')
def right_pad_zero_bytes(value: Bytes, size: int | FixedUnsigned | Uint) -> Bytes:
    return value.ljust(int(size), b'\x00')
