#: module frontier..osaka
#: byzantium..prague
from typing import Union
#: frontier..osaka
from ethereum_types.bytes import Bytes
from ethereum_types.numeric import U256, Uint
from ethereum.utils.byte import right_pad_zero_bytes
def memory_write(memory: bytearray, start_position: U256, value: Bytes) -> None:
    memory[start_position:int(start_position) + len(value)] = value
def memory_read_bytes(memory: bytearray, start_position: U256, size: U256) -> Bytes:
    return Bytes(memory[start_position:Uint(start_position) + Uint(size)])
#: frontier..spurious_dragon
def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
    return right_pad_zero_bytes(buffer[start_position:Uint(start_position) + Uint(size)], size)
#: byzantium..cancun
def buffer_read(buffer: Bytes, start_position: Union[U256, Uint], size: U256) -> Bytes:
    return right_pad_zero_bytes(buffer[start_position:Uint(start_position) + Uint(size)], size)
#: prague
def buffer_read(buffer: Bytes, start_position: Union[U256, Uint], size: U256) -> Bytes:
    buffer_slice = buffer[start_position:Uint(start_position) + Uint(size)]
    return right_pad_zero_bytes(bytes(buffer_slice), size)
#: osaka
def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
    buffer_slice = buffer[start_position:Uint(start_position) + Uint(size)]
    return right_pad_zero_bytes(bytes(buffer_slice), size)
