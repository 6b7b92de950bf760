import functools
from abc import ABC, abstractmethod
from typing import Final, Literal, SupportsInt, Tuple
from ethereum_types.numeric import U256, Uint
from typing_extensions import override
@functools.total_ordering
class ForkCriteria(ABC):
    BLOCK_NUMBER: Final[int] = 0
    TIMESTAMP: Final[int] = 1
    UNSCHEDULED: Final[int] = 2
    _internal: Tuple[int, int]

    def __eq__(self, other: object) -> bool:
        if isinstance(other, ForkCriteria):
            return self._internal == other._internal
        return NotImplemented

    def __lt__(self, other: object) -> bool:
        if isinstance(other, ForkCriteria):
            return self._internal < other._internal
        return NotImplemented

    def __hash__(self) -> int:
        return hash(self._internal)

    @abstractmethod
    def check(self, block_number: Uint, timestamp: U256) -> bool:
        raise NotImplementedError()

    @abstractmethod
    def __repr__(self) -> str:
        raise NotImplementedError()
class ByBlockNumber(ForkCriteria):
    block_number: Uint

    def __init__(self, block_number: SupportsInt):
        self._internal = (ForkCriteria.BLOCK_NUMBER, int(block_number))
        self.block_number = Uint(int(block_number))

    @override
    def check(self, block_number: Uint, timestamp: U256) -> bool:
        return block_number >= self.block_number

    def __repr__(self) -> str:
        return f'ByBlockNumber({self.block_number})'
class ByTimestamp(ForkCriteria):
    timestamp: U256

    def __init__(self, timestamp: SupportsInt):
        self._internal = (ForkCriteria.TIMESTAMP, int(timestamp))
        self.timestamp = U256(timestamp)

    @override
    def check(self, block_number: Uint, timestamp: U256) -> bool:
        return timestamp >= self.timestamp

    def __repr__(self) -> str:
        return f'ByTimestamp({self.timestamp})'
class Unscheduled(ForkCriteria):

    def __init__(self) -> None:
        self._internal = (ForkCriteria.UNSCHEDULED, 0)

    @override
    def check(self, block_number: Uint, timestamp: U256) -> Literal[False]:
        return False

    def __repr__(self) -> str:
        return 'Unscheduled()'
