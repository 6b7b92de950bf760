#: module frontier..osaka
#: frontier..osaka
from typing import List
from ethereum_types.numeric import U256
from .exceptions import StackOverflowError, StackUnderflowError
def pop(stack: List[U256]) -> U256:
    if len(stack) == 0:
        raise StackUnderflowError
    return stack.pop()
def push(stack: List[U256], value: U256) -> None:
    if len(stack) == 1024:
        raise StackOverflowError
    return stack.append(value)
