#: module frontier..osaka
#: frontier..osaka
from typing import Set
from ethereum_types.bytes import Bytes
from ethereum_types.numeric import Uint, ulen
from .instructions import Ops
def get_valid_jump_destinations(code: Bytes) -> Set[Uint]:
    valid_jump_destinations = set()
    pc = Uint(0)
    while pc < ulen(code):
        try:
            current_opcode = Ops(code[pc])
        except ValueError:
            pc += Uint(1)
            continue
        if current_opcode == Ops.JUMPDEST:
            valid_jump_destinations.add(pc)
        elif Ops.PUSH1.value <= current_opcode.value <= Ops.PUSH32.value:
            push_data_size = current_opcode.value - Ops.PUSH1.value + 1
            pc += Uint(push_data_size)
        pc += Uint(1)
    return valid_jump_destinations
