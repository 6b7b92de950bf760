#: module frontier..osaka
#: frontier..osaka
from ethereum_types.numeric import U256, Uint
from ...vm.gas import GAS_BASE, GAS_HIGH, GAS_JUMPDEST, GAS_MID, charge_gas
from .. import Evm
from ..exceptions import InvalidJumpDestError
from ..stack import pop, push
def stop(evm: Evm) -> None:
    pass
    pass
    evm.running = False
    evm.pc += Uint(1)
def jump(evm: Evm) -> None:
    jump_dest = Uint(pop(evm.stack))
    charge_gas(evm, GAS_MID)
    if jump_dest not in evm.valid_jump_destinations:
        raise InvalidJumpDestError
    evm.pc = Uint(jump_dest)
def jumpi(evm: Evm) -> None:
    jump_dest = Uint(pop(evm.stack))
    conditional_value = pop(evm.stack)
    charge_gas(evm, GAS_HIGH)
    if conditional_value == 0:
        destination = evm.pc + Uint(1)
    elif jump_dest not in evm.valid_jump_destinations:
        raise InvalidJumpDestError
    else:
        destination = jump_dest
    evm.pc = destination
def pc(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    push(evm.stack, U256(evm.pc))
    evm.pc += Uint(1)
def gas_left(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_BASE)
    push(evm.stack, U256(evm.gas_left))
    evm.pc += Uint(1)
def jumpdest(evm: Evm) -> None:
    pass
    charge_gas(evm, GAS_JUMPDEST)
    pass
    evm.pc += Uint(1)
