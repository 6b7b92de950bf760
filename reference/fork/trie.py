#: module frontier..osaka
#: frontier..osaka
import copy
from dataclasses import dataclass, field
#: frontier..cancun
from typing import Callable, Dict, Generic, List, Mapping, MutableMapping, Optional, Sequence, Tuple, TypeVar, assert_type, cast
#: prague..osaka
from typing import Callable, Dict, Generic, List, Mapping, MutableMapping, Optional, Sequence, Tuple, TypeVar, cast
#: frontier..osaka
from ethereum_rlp import Extended, rlp
from ethereum_types.bytes import Bytes
from ethereum_types.frozen import slotted_freezable
from ethereum_types.numeric import U256, Uint
#: prague..osaka
from typing_extensions import assert_type
#: constantinople..istanbul,london,gray_glacier,prague
from ethereum.__PREV__ import trie as previous_trie
#: frontier..osaka
from ethereum.crypto.hash import keccak256
#: homestead..byzantium,muir_glacier..berlin,arrow_glacier,paris..cancun,osaka
from ethereum.__PREV__ import trie as previous_trie
#: frontier..osaka
from ethereum.utils.hexadecimal import hex_to_bytes
#: frontier..paris
from .blocks import Receipt
#: shanghai..osaka
from .blocks import Receipt, Withdrawal
#: frontier..osaka
from .fork_types import Account, Address, Root, encode_account
#: frontier..muir_glacier
from .transactions import Transaction
#: berlin..osaka
from .transactions import LegacyTransaction
#: frontier..osaka
EMPTY_TRIE_ROOT = Root(hex_to_bytes('56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421'))
#: frontier..muir_glacier
Node = Account | Bytes | Transaction | Receipt | Uint | U256 | None
#: berlin..paris
Node = Account | Bytes | LegacyTransaction | Receipt | Uint | U256 | None
#: shanghai..osaka
Node = Account | Bytes | LegacyTransaction | Receipt | Uint | U256 | Withdrawal | None
#: frontier..osaka
K = TypeVar('K', bound=Bytes)
#: frontier..muir_glacier
V = TypeVar('V', Optional[Account], Optional[Bytes], Bytes, Optional[Transaction], Optional[Receipt], Uint, U256)
#: berlin..paris
V = TypeVar('V', Optional[Account], Optional[Bytes], Bytes, Optional[LegacyTransaction | Bytes], Optional[Receipt | Bytes], Uint, U256)
#: shanghai..osaka
V = TypeVar('V', Optional[Account], Optional[Bytes], Bytes, Optional[LegacyTransaction | Bytes], Optional[Receipt | Bytes], Optional[Withdrawal | Bytes], Uint, U256)
#: frontier..osaka
@slotted_freezable
@dataclass
class LeafNode:
    rest_of_key: Bytes
    value: Extended
@slotted_freezable
@dataclass
class ExtensionNode:
    key_segment: Bytes
    subnode: Extended
BranchSubnodes = Tuple[Extended, Extended, Extended, Extended, Extended, Extended, Extended, Extended, Extended, Extended, Extended, Extended, Extended, Extended, Extended, Extended]
@slotted_freezable
@dataclass
class BranchNode:
    subnodes: BranchSubnodes
    value: Extended
InternalNode = LeafNode | ExtensionNode | BranchNode
def encode_internal_node(node: Optional[InternalNode]) -> Extended:
    unencoded: Extended
    if node is None:
        unencoded = b''
    elif isinstance(node, LeafNode):
        unencoded = (nibble_list_to_compact(node.rest_of_key, True), node.value)
    elif isinstance(node, ExtensionNode):
        unencoded = (nibble_list_to_compact(node.key_segment, False), node.subnode)
    elif isinstance(node, BranchNode):
        unencoded = list(node.subnodes) + [node.value]
    else:
        raise AssertionError(f'Invalid internal node type {type(node)}!')
    encoded = rlp.encode(unencoded)
    if len(encoded) < 32:
        return unencoded
    else:
        return keccak256(encoded)
#: frontier
def encode_node(node: Node, storage_root: Optional[Bytes]=None) -> Bytes:
    if isinstance(node, Account):
        assert storage_root is not None
        return encode_account(node, storage_root)
    elif isinstance(node, (Transaction, Receipt, U256)):
        return rlp.encode(node)
    elif isinstance(node, Bytes):
        return node
    else:
        raise AssertionError(f'encoding for {type(node)} is not currently implemented')
#: homestead..muir_glacier
def encode_node(node: Node, storage_root: Optional[Bytes]=None) -> Bytes:
    if isinstance(node, Account):
        assert storage_root is not None
        return encode_account(node, storage_root)
    elif isinstance(node, (Transaction, Receipt, U256)):
        return rlp.encode(node)
    elif isinstance(node, Bytes):
        return node
    else:
        return previous_trie.encode_node(node, storage_root)
#: berlin..paris
def encode_node(node: Node, storage_root: Optional[Bytes]=None) -> Bytes:
    if isinstance(node, Account):
        assert storage_root is not None
        return encode_account(node, storage_root)
    elif isinstance(node, (LegacyTransaction, Receipt, U256)):
        return rlp.encode(node)
    elif isinstance(node, Bytes):
        return node
    else:
        return previous_trie.encode_node(node, storage_root)
#: shanghai..osaka
def encode_node(node: Node, storage_root: Optional[Bytes]=None) -> Bytes:
    if isinstance(node, Account):
        assert storage_root is not None
        return encode_account(node, storage_root)
    elif isinstance(node, (LegacyTransaction, Receipt, Withdrawal, U256)):
        return rlp.encode(node)
    elif isinstance(node, Bytes):
        return node
    else:
        return previous_trie.encode_node(node, storage_root)
#: frontier..osaka
@dataclass
class Trie(Generic[K, V]):
    secured: bool
    default: V
    _data: Dict[K, V] = field(default_factory=dict)
def copy_trie(trie: Trie[K, V]) -> Trie[K, V]:
    return Trie(trie.secured, trie.default, copy.copy(trie._data))
def trie_set(trie: Trie[K, V], key: K, value: V) -> None:
    if value == trie.default:
        if key in trie._data:
            del trie._data[key]
    else:
        trie._data[key] = value
def trie_get(trie: Trie[K, V], key: K) -> V:
    return trie._data.get(key, trie.default)
def common_prefix_length(a: Sequence, b: Sequence) -> int:
    for i in range(len(a)):
        if i >= len(b) or a[i] != b[i]:
            return i
    return len(a)
def nibble_list_to_compact(x: Bytes, is_leaf: bool) -> Bytes:
    compact = bytearray()
    if len(x) % 2 == 0:
        compact.append(16 * (2 * is_leaf))
        for i in range(0, len(x), 2):
            compact.append(16 * x[i] + x[i + 1])
    else:
        compact.append(16 * (2 * is_leaf + 1) + x[0])
        for i in range(1, len(x), 2):
            compact.append(16 * x[i] + x[i + 1])
    return Bytes(compact)
def bytes_to_nibble_list(bytes_: Bytes) -> Bytes:
    nibble_list = bytearray(2 * len(bytes_))
    for byte_index, byte in enumerate(bytes_):
        nibble_list[byte_index * 2] = (byte & 240) >> 4
        nibble_list[byte_index * 2 + 1] = byte & 15
    return Bytes(nibble_list)
def _prepare_trie(trie: Trie[K, V], get_storage_root: Optional[Callable[[Address], Root]]=None) -> Mapping[Bytes, Bytes]:
    mapped: MutableMapping[Bytes, Bytes] = {}
    for preimage, value in trie._data.items():
        if isinstance(value, Account):
            assert get_storage_root is not None
            address = Address(preimage)
            encoded_value = encode_node(value, get_storage_root(address))
        else:
            encoded_value = encode_node(value)
        if encoded_value == b'':
            raise AssertionError
        key: Bytes
        if trie.secured:
            key = keccak256(preimage)
        else:
            key = preimage
        mapped[bytes_to_nibble_list(key)] = encoded_value
    return mapped
def root(trie: Trie[K, V], get_storage_root: Optional[Callable[[Address], Root]]=None) -> Root:
    obj = _prepare_trie(trie, get_storage_root)
    root_node = encode_internal_node(patricialize(obj, Uint(0)))
    if len(rlp.encode(root_node)) < 32:
        return keccak256(rlp.encode(root_node))
    else:
        assert isinstance(root_node, Bytes)
        return Root(root_node)
def patricialize(obj: Mapping[Bytes, Bytes], level: Uint) -> Optional[InternalNode]:
    if len(obj) == 0:
        return None
    arbitrary_key = next(iter(obj))
    if len(obj) == 1:
        leaf = LeafNode(arbitrary_key[level:], obj[arbitrary_key])
        return leaf
    substring = arbitrary_key[level:]
    prefix_length = len(substring)
    for key in obj:
        prefix_length = min(prefix_length, common_prefix_length(substring, key[level:]))
        if prefix_length == 0:
            break
    if prefix_length > 0:
        prefix = arbitrary_key[int(level):int(level) + prefix_length]
        return ExtensionNode(prefix, encode_internal_node(patricialize(obj, level + Uint(prefix_length))))
    branches: List[MutableMapping[Bytes, Bytes]] = []
    for _ in range(16):
        branches.append({})
    value = b''
    for key in obj:
        if len(key) == level:
            if isinstance(obj[key], (Account, Receipt, Uint)):
                raise AssertionError
            value = obj[key]
        else:
            branches[key[level]][key] = obj[key]
    subnodes = tuple((encode_internal_node(patricialize(branches[k], level + Uint(1))) for k in range(16)))
    return BranchNode(cast(BranchSubnodes, assert_type(subnodes, Tuple[Extended, ...])), value)
