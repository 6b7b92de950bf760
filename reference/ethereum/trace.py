import enum
from dataclasses import dataclass
from typing import Optional, Protocol
from ethereum_types.bytes import Bytes
from ethereum.exceptions import EthereumException
@dataclass
class TransactionStart:
    pass
@dataclass
class TransactionEnd:
    gas_used: int
    output: Bytes
    error: Optional[EthereumException]
@dataclass
class PrecompileStart:
    address: Bytes
@dataclass
class PrecompileEnd:
    pass
@dataclass
class OpStart:
    op: enum.Enum
@dataclass
class OpEnd:
    pass
@dataclass
class OpException:
    error: Exception
@dataclass
class EvmStop:
    op: enum.Enum
@dataclass
class GasAndRefund:
    gas_cost: int
TraceEvent = TransactionStart | TransactionEnd | PrecompileStart | PrecompileEnd | OpStart | OpEnd | OpException | EvmStop | GasAndRefund
def discard_evm_trace(evm: object, event: TraceEvent) -> None:
    pass
class EvmTracer(Protocol):

    def __call__(self, evm: object, event: TraceEvent) -> None:
        pass
_evm_trace: EvmTracer = discard_evm_trace
def set_evm_trace(tracer: EvmTracer) -> EvmTracer:
    global _evm_trace
    old = _evm_trace
    _evm_trace = tracer
    return old
def evm_trace(evm: object, event: TraceEvent) -> None:
    global _evm_trace
    _evm_trace(evm, event)
