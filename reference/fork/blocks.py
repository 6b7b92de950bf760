#: module frontier..osaka
#: frontier..osaka
from dataclasses import dataclass
from typing import Tuple
#: berlin..osaka
from ethereum_rlp import rlp
#: frontier..osaka
from ethereum_types.bytes import Bytes, Bytes8, Bytes32
from ethereum_types.frozen import slotted_freezable
#: frontier..paris
from ethereum_types.numeric import U256, Uint
#: shanghai..osaka
from ethereum_types.numeric import U64, U256, Uint
#: frontier..osaka
from ..crypto.hash import Hash32
from .fork_types import Address, Bloom, Root
#: frontier..muir_glacier
from .transactions import Transaction
#: berlin
from .transactions import AccessListTransaction, LegacyTransaction, Transaction
#: frontier..berlin
@slotted_freezable
@dataclass
class Header:
    parent_hash: Hash32
    ommers_hash: Hash32
    coinbase: Address
    state_root: Root
    transactions_root: Root
    receipt_root: Root
    bloom: Bloom
    difficulty: Uint
    number: Uint
    gas_limit: Uint
    gas_used: Uint
    timestamp: U256
    extra_data: Bytes
    mix_digest: Bytes32
    nonce: Bytes8
#: frontier..muir_glacier
@slotted_freezable
@dataclass
class Block:
    header: Header
    transactions: Tuple[Transaction, ...]
    ommers: Tuple[Header, ...]
#: london..shanghai
from .transactions import AccessListTransaction, FeeMarketTransaction, LegacyTransaction, Transaction
#: london..gray_glacier
@slotted_freezable
@dataclass
class Header:
    parent_hash: Hash32
    ommers_hash: Hash32
    coinbase: Address
    state_root: Root
    transactions_root: Root
    receipt_root: Root
    bloom: Bloom
    difficulty: Uint
    number: Uint
    gas_limit: Uint
    gas_used: Uint
    timestamp: U256
    extra_data: Bytes
    mix_digest: Bytes32
    nonce: Bytes8
    base_fee_per_gas: Uint
#: paris
@slotted_freezable
@dataclass
class Header:
    parent_hash: Hash32
    ommers_hash: Hash32
    coinbase: Address
    state_root: Root
    transactions_root: Root
    receipt_root: Root
    bloom: Bloom
    difficulty: Uint
    number: Uint
    gas_limit: Uint
    gas_used: Uint
    timestamp: U256
    extra_data: Bytes
    prev_randao: Bytes32
    nonce: Bytes8
    base_fee_per_gas: Uint
#: berlin..paris
@slotted_freezable
@dataclass
class Block:
    header: Header
    transactions: Tuple[Bytes | LegacyTransaction, ...]
    ommers: Tuple[Header, ...]
#: cancun
from .transactions import AccessListTransaction, BlobTransaction, FeeMarketTransaction, LegacyTransaction, Transaction
#: prague..osaka
from .transactions import AccessListTransaction, BlobTransaction, FeeMarketTransaction, LegacyTransaction, SetCodeTransaction, Transaction
#: shanghai..osaka
@slotted_freezable
@dataclass
class Withdrawal:
    index: U64
    validator_index: U64
    address: Address
    amount: U64
#: shanghai
@slotted_freezable
@dataclass
class Header:
    parent_hash: Hash32
    ommers_hash: Hash32
    coinbase: Address
    state_root: Root
    transactions_root: Root
    receipt_root: Root
    bloom: Bloom
    difficulty: Uint
    number: Uint
    gas_limit: Uint
    gas_used: Uint
    timestamp: U256
    extra_data: Bytes
    prev_randao: Bytes32
    nonce: Bytes8
    base_fee_per_gas: Uint
    withdrawals_root: Root
#: cancun
@slotted_freezable
@dataclass
class Header:
    parent_hash: Hash32
    ommers_hash: Hash32
    coinbase: Address
    state_root: Root
    transactions_root: Root
    receipt_root: Root
    bloom: Bloom
    difficulty: Uint
    number: Uint
    gas_limit: Uint
    gas_used: Uint
    timestamp: U256
    extra_data: Bytes
    prev_randao: Bytes32
    nonce: Bytes8
    base_fee_per_gas: Uint
    withdrawals_root: Root
    blob_gas_used: U64
    excess_blob_gas: U64
    parent_beacon_block_root: Root
#: prague..osaka
@slotted_freezable
@dataclass
class Header:
    parent_hash: Hash32
    ommers_hash: Hash32
    coinbase: Address
    state_root: Root
    transactions_root: Root
    receipt_root: Root
    bloom: Bloom
    difficulty: Uint
    number: Uint
    gas_limit: Uint
    gas_used: Uint
    timestamp: U256
    extra_data: Bytes
    prev_randao: Bytes32
    nonce: Bytes8
    base_fee_per_gas: Uint
    withdrawals_root: Root
    blob_gas_used: U64
    excess_blob_gas: U64
    parent_beacon_block_root: Root
    requests_hash: Hash32
#: shanghai..osaka
@slotted_freezable
@dataclass
class Block:
    header: Header
    transactions: Tuple[Bytes | LegacyTransaction, ...]
    ommers: Tuple[Header, ...]
    withdrawals: Tuple[Withdrawal, ...]
#: frontier..osaka
@slotted_freezable
@dataclass
class Log:
    address: Address
    topics: Tuple[Hash32, ...]
    data: Bytes
#: frontier..spurious_dragon
@slotted_freezable
@dataclass
class Receipt:
    post_state: Root
    cumulative_gas_used: Uint
    bloom: Bloom
    logs: Tuple[Log, ...]
#: byzantium..osaka
@slotted_freezable
@dataclass
class Receipt:
    succeeded: bool
    cumulative_gas_used: Uint
    bloom: Bloom
    logs: Tuple[Log, ...]
#: berlin
def encode_receipt(tx: Transaction, receipt: Receipt) -> Bytes | Receipt:
    if isinstance(tx, AccessListTransaction):
        return b'\x01' + rlp.encode(receipt)
    else:
        return receipt
def decode_receipt(receipt: Bytes | Receipt) -> Receipt:
    if isinstance(receipt, Bytes):
        assert receipt[0] == 1
        return rlp.decode_to(Receipt, receipt[1:])
    else:
        return receipt
#: london..shanghai
def encode_receipt(tx: Transaction, receipt: Receipt) -> Bytes | Receipt:
    if isinstance(tx, AccessListTransaction):
        return b'\x01' + rlp.encode(receipt)
    elif isinstance(tx, FeeMarketTransaction):
        return b'\x02' + rlp.encode(receipt)
    else:
        return receipt
def decode_receipt(receipt: Bytes | Receipt) -> Receipt:
    if isinstance(receipt, Bytes):
        assert receipt[0] in (1, 2)
        return rlp.decode_to(Receipt, receipt[1:])
    else:
        return receipt
#: cancun
def encode_receipt(tx: Transaction, receipt: Receipt) -> Bytes | Receipt:
    if isinstance(tx, AccessListTransaction):
        return b'\x01' + rlp.encode(receipt)
    elif isinstance(tx, FeeMarketTransaction):
        return b'\x02' + rlp.encode(receipt)
    elif isinstance(tx, BlobTransaction):
        return b'\x03' + rlp.encode(receipt)
    else:
        return receipt
def decode_receipt(receipt: Bytes | Receipt) -> Receipt:
    if isinstance(receipt, Bytes):
        assert receipt[0] in (1, 2, 3)
        return rlp.decode_to(Receipt, receipt[1:])
    else:
        return receipt
#: prague..osaka
def encode_receipt(tx: Transaction, receipt: Receipt) -> Bytes | Receipt:
    if isinstance(tx, AccessListTransaction):
        return b'\x01' + rlp.encode(receipt)
    elif isinstance(tx, FeeMarketTransaction):
        return b'\x02' + rlp.encode(receipt)
    elif isinstance(tx, BlobTransaction):
        return b'\x03' + rlp.encode(receipt)
    elif isinstance(tx, SetCodeTransaction):
        return b'\x04' + rlp.encode(receipt)
    else:
        return receipt
def decode_receipt(receipt: Bytes | Receipt) -> Receipt:
    if isinstance(receipt, Bytes):
        assert receipt[0] in (1, 2, 3, 4)
        return rlp.decode_to(Receipt, receipt[1:])
    else:
        return receipt
