#: module frontier..osaka
#: frontier..osaka
from dataclasses import dataclass, field
from typing import List, Optional, Set, Tuple
#: frontier..muir_glacier
from ethereum_types.bytes import Bytes, Bytes0
#: berlin..osaka
from ethereum_types.bytes import Bytes, Bytes0, Bytes32
#: frontier..osaka
from ethereum_types.numeric import U64, U256, Uint
from ethereum.crypto.hash import Hash32
from ethereum.exceptions import EthereumException
#: frontier..paris
from ..blocks import Log, Receipt
#: shanghai..osaka
from ..blocks import Log, Receipt, Withdrawal
#: frontier..shanghai
from ..fork_types import Address
#: frontier..tangerine_whistle,paris..shanghai
from ..state import State
#: spurious_dragon..gray_glacier
from ..state import State, account_exists_and_is_empty
#: frontier..muir_glacier
from ..transactions import Transaction
#: cancun
from ..fork_types import Address, VersionedHash
#: prague..osaka
from ..fork_types import Address, Authorization, VersionedHash
#: cancun..osaka
from ..state import State, TransientStorage
#: berlin..osaka
from ..transactions import LegacyTransaction
#: frontier..osaka
from ..trie import Trie
#: spurious_dragon..gray_glacier
from .precompiled_contracts import RIPEMD160_ADDRESS
#: frontier..osaka
__all__ = ('Environment', 'Evm', 'Message')
#: frontier..berlin
@dataclass
class BlockEnvironment:
    chain_id: U64
    state: State
    block_gas_limit: Uint
    block_hashes: List[Hash32]
    coinbase: Address
    number: Uint
    time: U256
    difficulty: Uint
#: frontier..muir_glacier
@dataclass
class BlockOutput:
    block_gas_used: Uint = Uint(0)
    transactions_trie: Trie[Bytes, Optional[Transaction]] = field(default_factory=lambda: Trie(secured=False, default=None))
    receipts_trie: Trie[Bytes, Optional[Receipt]] = field(default_factory=lambda: Trie(secured=False, default=None))
    receipt_keys: Tuple[Bytes, ...] = field(default_factory=tuple)
    block_logs: Tuple[Log, ...] = field(default_factory=tuple)
@dataclass
class TransactionEnvironment:
    origin: Address
    gas_price: Uint
    gas: Uint
    index_in_block: Uint
    tx_hash: Optional[Hash32]
#: frontier
@dataclass
class Message:
    block_env: BlockEnvironment
    tx_env: TransactionEnvironment
    caller: Address
    target: Bytes0 | Address
    current_target: Address
    gas: Uint
    value: U256
    data: Bytes
    code_address: Optional[Address]
    code: Bytes
    depth: Uint
    parent_evm: Optional['Evm']
#: homestead..spurious_dragon
@dataclass
class Message:
    block_env: BlockEnvironment
    tx_env: TransactionEnvironment
    caller: Address
    target: Bytes0 | Address
    current_target: Address
    gas: Uint
    value: U256
    data: Bytes
    code_address: Optional[Address]
    code: Bytes
    depth: Uint
    should_transfer_value: bool
    parent_evm: Optional['Evm']
#: frontier..tangerine_whistle
@dataclass
class Evm:
    pc: Uint
    stack: List[U256]
    memory: bytearray
    code: Bytes
    gas_left: Uint
    valid_jump_destinations: Set[Uint]
    logs: Tuple[Log, ...]
    refund_counter: int
    running: bool
    message: Message
    output: Bytes
    accounts_to_delete: Set[Address]
    error: Optional[EthereumException]
def incorporate_child_on_success(evm: Evm, child_evm: Evm) -> None:
    evm.gas_left += child_evm.gas_left
    evm.logs += child_evm.logs
    evm.refund_counter += child_evm.refund_counter
    evm.accounts_to_delete.update(child_evm.accounts_to_delete)
def incorporate_child_on_error(evm: Evm, child_evm: Evm) -> None:
    evm.gas_left += child_evm.gas_left
#: spurious_dragon
@dataclass
class Evm:
    pc: Uint
    stack: List[U256]
    memory: bytearray
    code: Bytes
    gas_left: Uint
    valid_jump_destinations: Set[Uint]
    logs: Tuple[Log, ...]
    refund_counter: int
    running: bool
    message: Message
    output: Bytes
    accounts_to_delete: Set[Address]
    touched_accounts: Set[Address]
    error: Optional[EthereumException]
#: byzantium..muir_glacier
@dataclass
class Message:
    block_env: BlockEnvironment
    tx_env: TransactionEnvironment
    caller: Address
    target: Bytes0 | Address
    current_target: Address
    gas: Uint
    value: U256
    data: Bytes
    code_address: Optional[Address]
    code: Bytes
    depth: Uint
    should_transfer_value: bool
    is_static: bool
    parent_evm: Optional['Evm']
@dataclass
class Evm:
    pc: Uint
    stack: List[U256]
    memory: bytearray
    code: Bytes
    gas_left: Uint
    valid_jump_destinations: Set[Uint]
    logs: Tuple[Log, ...]
    refund_counter: int
    running: bool
    message: Message
    output: Bytes
    accounts_to_delete: Set[Address]
    touched_accounts: Set[Address]
    return_data: Bytes
    error: Optional[EthereumException]
#: spurious_dragon..muir_glacier
def incorporate_child_on_success(evm: Evm, child_evm: Evm) -> None:
    evm.gas_left += child_evm.gas_left
    evm.logs += child_evm.logs
    evm.refund_counter += child_evm.refund_counter
    evm.accounts_to_delete.update(child_evm.accounts_to_delete)
    evm.touched_accounts.update(child_evm.touched_accounts)
    if account_exists_and_is_empty(evm.message.block_env.state, child_evm.message.current_target):
        evm.touched_accounts.add(child_evm.message.current_target)
#: london..gray_glacier
@dataclass
class BlockEnvironment:
    chain_id: U64
    state: State
    block_gas_limit: Uint
    block_hashes: List[Hash32]
    coinbase: Address
    number: Uint
    base_fee_per_gas: Uint
    time: U256
    difficulty: Uint
#: paris..shanghai
@dataclass
class BlockEnvironment:
    chain_id: U64
    state: State
    block_gas_limit: Uint
    block_hashes: List[Hash32]
    coinbase: Address
    number: Uint
    base_fee_per_gas: Uint
    time: U256
    prev_randao: Bytes32
#: berlin..paris
@dataclass
class BlockOutput:
    block_gas_used: Uint = Uint(0)
    transactions_trie: Trie[Bytes, Optional[Bytes | LegacyTransaction]] = field(default_factory=lambda: Trie(secured=False, default=None))
    receipts_trie: Trie[Bytes, Optional[Bytes | Receipt]] = field(default_factory=lambda: Trie(secured=False, default=None))
    receipt_keys: Tuple[Bytes, ...] = field(default_factory=tuple)
    block_logs: Tuple[Log, ...] = field(default_factory=tuple)
#: shanghai
@dataclass
class BlockOutput:
    block_gas_used: Uint = Uint(0)
    transactions_trie: Trie[Bytes, Optional[Bytes | LegacyTransaction]] = field(default_factory=lambda: Trie(secured=False, default=None))
    receipts_trie: Trie[Bytes, Optional[Bytes | Receipt]] = field(default_factory=lambda: Trie(secured=False, default=None))
    receipt_keys: Tuple[Bytes, ...] = field(default_factory=tuple)
    block_logs: Tuple[Log, ...] = field(default_factory=tuple)
    withdrawals_trie: Trie[Bytes, Optional[Bytes | Withdrawal]] = field(default_factory=lambda: Trie(secured=False, default=None))
#: berlin..shanghai
@dataclass
class TransactionEnvironment:
    origin: Address
    gas_price: Uint
    gas: Uint
    access_list_addresses: Set[Address]
    access_list_storage_keys: Set[Tuple[Address, Bytes32]]
    index_in_block: Optional[Uint]
    tx_hash: Optional[Hash32]
#: cancun..osaka
@dataclass
class BlockEnvironment:
    chain_id: U64
    state: State
    block_gas_limit: Uint
    block_hashes: List[Hash32]
    coinbase: Address
    number: Uint
    base_fee_per_gas: Uint
    time: U256
    prev_randao: Bytes32
    excess_blob_gas: U64
    parent_beacon_block_root: Hash32
#: cancun
@dataclass
class BlockOutput:
    block_gas_used: Uint = Uint(0)
    transactions_trie: Trie[Bytes, Optional[Bytes | LegacyTransaction]] = field(default_factory=lambda: Trie(secured=False, default=None))
    receipts_trie: Trie[Bytes, Optional[Bytes | Receipt]] = field(default_factory=lambda: Trie(secured=False, default=None))
    receipt_keys: Tuple[Bytes, ...] = field(default_factory=tuple)
    block_logs: Tuple[Log, ...] = field(default_factory=tuple)
    withdrawals_trie: Trie[Bytes, Optional[Bytes | Withdrawal]] = field(default_factory=lambda: Trie(secured=False, default=None))
    blob_gas_used: U64 = U64(0)
@dataclass
class TransactionEnvironment:
    origin: Address
    gas_price: Uint
    gas: Uint
    access_list_addresses: Set[Address]
    access_list_storage_keys: Set[Tuple[Address, Bytes32]]
    transient_storage: TransientStorage
    blob_versioned_hashes: Tuple[VersionedHash, ...]
    index_in_block: Optional[Uint]
    tx_hash: Optional[Hash32]
#: berlin..cancun
@dataclass
class Message:
    block_env: BlockEnvironment
    tx_env: TransactionEnvironment
    caller: Address
    target: Bytes0 | Address
    current_target: Address
    gas: Uint
    value: U256
    data: Bytes
    code_address: Optional[Address]
    code: Bytes
    depth: Uint
    should_transfer_value: bool
    is_static: bool
    accessed_addresses: Set[Address]
    accessed_storage_keys: Set[Tuple[Address, Bytes32]]
    parent_evm: Optional['Evm']
#: berlin..gray_glacier
@dataclass
class Evm:
    pc: Uint
    stack: List[U256]
    memory: bytearray
    code: Bytes
    gas_left: Uint
    valid_jump_destinations: Set[Uint]
    logs: Tuple[Log, ...]
    refund_counter: int
    running: bool
    message: Message
    output: Bytes
    accounts_to_delete: Set[Address]
    touched_accounts: Set[Address]
    return_data: Bytes
    error: Optional[EthereumException]
    accessed_addresses: Set[Address]
    accessed_storage_keys: Set[Tuple[Address, Bytes32]]
def incorporate_child_on_success(evm: Evm, child_evm: Evm) -> None:
    evm.gas_left += child_evm.gas_left
    evm.logs += child_evm.logs
    evm.refund_counter += child_evm.refund_counter
    evm.accounts_to_delete.update(child_evm.accounts_to_delete)
    evm.touched_accounts.update(child_evm.touched_accounts)
    if account_exists_and_is_empty(evm.message.block_env.state, child_evm.message.current_target):
        evm.touched_accounts.add(child_evm.message.current_target)
    evm.accessed_addresses.update(child_evm.accessed_addresses)
    evm.accessed_storage_keys.update(child_evm.accessed_storage_keys)
#: spurious_dragon..gray_glacier
def incorporate_child_on_error(evm: Evm, child_evm: Evm) -> None:
    if RIPEMD160_ADDRESS in child_evm.touched_accounts:
        evm.touched_accounts.add(RIPEMD160_ADDRESS)
    if child_evm.message.current_target == RIPEMD160_ADDRESS:
        if account_exists_and_is_empty(evm.message.block_env.state, child_evm.message.current_target):
            evm.touched_accounts.add(RIPEMD160_ADDRESS)
    evm.gas_left += child_evm.gas_left
#: prague..osaka
@dataclass
class BlockOutput:
    block_gas_used: Uint = Uint(0)
    transactions_trie: Trie[Bytes, Optional[Bytes | LegacyTransaction]] = field(default_factory=lambda: Trie(secured=False, default=None))
    receipts_trie: Trie[Bytes, Optional[Bytes | Receipt]] = field(default_factory=lambda: Trie(secured=False, default=None))
    receipt_keys: Tuple[Bytes, ...] = field(default_factory=tuple)
    block_logs: Tuple[Log, ...] = field(default_factory=tuple)
    withdrawals_trie: Trie[Bytes, Optional[Bytes | Withdrawal]] = field(default_factory=lambda: Trie(secured=False, default=None))
    blob_gas_used: U64 = U64(0)
    requests: List[Bytes] = field(default_factory=list)
@dataclass
class TransactionEnvironment:
    origin: Address
    gas_price: Uint
    gas: Uint
    access_list_addresses: Set[Address]
    access_list_storage_keys: Set[Tuple[Address, Bytes32]]
    transient_storage: TransientStorage
    blob_versioned_hashes: Tuple[VersionedHash, ...]
    authorizations: Tuple[Authorization, ...]
    index_in_block: Optional[Uint]
    tx_hash: Optional[Hash32]
@dataclass
class Message:
    block_env: BlockEnvironment
    tx_env: TransactionEnvironment
    caller: Address
    target: Bytes0 | Address
    current_target: Address
    gas: Uint
    value: U256
    data: Bytes
    code_address: Optional[Address]
    code: Bytes
    depth: Uint
    should_transfer_value: bool
    is_static: bool
    accessed_addresses: Set[Address]
    accessed_storage_keys: Set[Tuple[Address, Bytes32]]
    disable_precompiles: bool
    parent_evm: Optional['Evm']
#: paris..osaka
@dataclass
class Evm:
    pc: Uint
    stack: List[U256]
    memory: bytearray
    code: Bytes
    gas_left: Uint
    valid_jump_destinations: Set[Uint]
    logs: Tuple[Log, ...]
    refund_counter: int
    running: bool
    message: Message
    output: Bytes
    accounts_to_delete: Set[Address]
    return_data: Bytes
    error: Optional[EthereumException]
    accessed_addresses: Set[Address]
    accessed_storage_keys: Set[Tuple[Address, Bytes32]]
def incorporate_child_on_success(evm: Evm, child_evm: Evm) -> None:
    evm.gas_left += child_evm.gas_left
    evm.logs += child_evm.logs
    evm.refund_counter += child_evm.refund_counter
    evm.accounts_to_delete.update(child_evm.accounts_to_delete)
    evm.accessed_addresses.update(child_evm.accessed_addresses)
    evm.accessed_storage_keys.update(child_evm.accessed_storage_keys)
def incorporate_child_on_error(evm: Evm, child_evm: Evm) -> None:
    evm.gas_left += child_evm.gas_left
