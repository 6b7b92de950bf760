from typing import Optional, Protocol, runtime_checkable
from ethereum_types.bytes import Bytes
from ethereum_types.numeric import U256, Uint
@runtime_checkable
class TransactionEnvironment(Protocol):
    index_in_block: Uint | None
    tx_hash: Bytes | None
@runtime_checkable
class Message(Protocol):
    depth: int
    tx_env: TransactionEnvironment
    parent_evm: Optional['Evm']
@runtime_checkable
class Evm(Protocol):
    pc: Uint
    stack: list[U256]
    memory: bytearray
    code: Bytes
    gas_left: Uint
    refund_counter: int
    running: bool
    message: Message
@runtime_checkable
class EvmWithReturnData(Evm, Protocol):
    return_data: Bytes
