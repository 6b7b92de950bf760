#: module frontier..osaka
#: frontier..osaka
from dataclasses import dataclass
#: berlin..osaka
from typing import Tuple
#: frontier..osaka
from ethereum_rlp import rlp
#: frontier..muir_glacier
from ethereum_types.bytes import Bytes, Bytes0
#: berlin..osaka
from ethereum_types.bytes import Bytes, Bytes0, Bytes32
#: frontier..osaka
from ethereum_types.frozen import slotted_freezable
#: frontier..muir_glacier
from ethereum_types.numeric import U64, U256, Uint
#: berlin..osaka
from ethereum_types.numeric import U64, U256, Uint, ulen
#: frontier..osaka
from ethereum.crypto.elliptic_curve import SECP256K1N, secp256k1_recover
from ethereum.crypto.hash import Hash32, keccak256
#: frontier..muir_glacier
from ethereum.exceptions import InsufficientTransactionGasError, InvalidSignatureError, NonceOverflowError
#: berlin..osaka
from ethereum.exceptions import InsufficientTransactionGasError, InvalidSignatureError, InvalidTransaction, NonceOverflowError
#: berlin..paris
from .exceptions import TransactionTypeError
#: shanghai..prague
from .exceptions import InitCodeTooLargeError, TransactionTypeError
#: frontier..shanghai
from .fork_types import Address
#: cancun
from .fork_types import Address, VersionedHash
#: osaka
from .exceptions import InitCodeTooLargeError, TransactionGasLimitExceededError, TransactionTypeError
#: prague..osaka
from .fork_types import Address, Authorization, VersionedHash
#: frontier..osaka
TX_BASE_COST = Uint(21000)
#: frontier..constantinople
TX_DATA_COST_PER_NON_ZERO = Uint(68)
#: istanbul..cancun
TX_DATA_COST_PER_NON_ZERO = Uint(16)
#: frontier..cancun
TX_DATA_COST_PER_ZERO = Uint(4)
#: prague..osaka
FLOOR_CALLDATA_COST = Uint(10)
STANDARD_CALLDATA_TOKEN_COST = Uint(4)
#: homestead..osaka
TX_CREATE_COST = Uint(32000)
#: frontier..muir_glacier
@slotted_freezable
@dataclass
class Transaction:
    nonce: U256
    gas_price: Uint
    gas: Uint
    to: Bytes0 | Address
    value: U256
    data: Bytes
    v: U256
    r: U256
    s: U256
#: berlin..osaka
TX_ACCESS_LIST_ADDRESS_COST = Uint(2400)
TX_ACCESS_LIST_STORAGE_KEY_COST = Uint(1900)
#: osaka
TX_MAX_GAS_LIMIT = Uint(16777216)
#: berlin..osaka
@slotted_freezable
@dataclass
class LegacyTransaction:
    nonce: U256
    gas_price: Uint
    gas: Uint
    to: Bytes0 | Address
    value: U256
    data: Bytes
    v: U256
    r: U256
    s: U256
@slotted_freezable
@dataclass
class Access:
    account: Address
    slots: Tuple[Bytes32, ...]
@slotted_freezable
@dataclass
class AccessListTransaction:
    chain_id: U64
    nonce: U256
    gas_price: Uint
    gas: Uint
    to: Bytes0 | Address
    value: U256
    data: Bytes
    access_list: Tuple[Access, ...]
    y_parity: U256
    r: U256
    s: U256
#: berlin
Transaction = LegacyTransaction | AccessListTransaction
def encode_transaction(tx: Transaction) -> LegacyTransaction | Bytes:
    if isinstance(tx, LegacyTransaction):
        return tx
    elif isinstance(tx, AccessListTransaction):
        return b'\x01' + rlp.encode(tx)
    else:
        raise Exception(f'Unable to encode transaction of type {type(tx)}')
def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
    if isinstance(tx, Bytes):
        if len(tx) == 0:
            raise InvalidTransaction('empty transaction')
        if tx[0] != 1:
            raise TransactionTypeError(tx[0])
        return rlp.decode_to(AccessListTransaction, tx[1:])
    else:
        return tx
#: london..osaka
@slotted_freezable
@dataclass
class FeeMarketTransaction:
    chain_id: U64
    nonce: U256
    max_priority_fee_per_gas: Uint
    max_fee_per_gas: Uint
    gas: Uint
    to: Bytes0 | Address
    value: U256
    data: Bytes
    access_list: Tuple[Access, ...]
    y_parity: U256
    r: U256
    s: U256
#: london..shanghai
Transaction = LegacyTransaction | AccessListTransaction | FeeMarketTransaction
def encode_transaction(tx: Transaction) -> LegacyTransaction | Bytes:
    if isinstance(tx, LegacyTransaction):
        return tx
    elif isinstance(tx, AccessListTransaction):
        return b'\x01' + rlp.encode(tx)
    elif isinstance(tx, FeeMarketTransaction):
        return b'\x02' + rlp.encode(tx)
    else:
        raise Exception(f'Unable to encode transaction of type {type(tx)}')
def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
    if isinstance(tx, Bytes):
        if len(tx) == 0:
            raise InvalidTransaction('empty transaction')
        if tx[0] == 1:
            return rlp.decode_to(AccessListTransaction, tx[1:])
        elif tx[0] == 2:
            return rlp.decode_to(FeeMarketTransaction, tx[1:])
        else:
            raise TransactionTypeError(tx[0])
    else:
        return tx
#: frontier..paris
def validate_transaction(tx: Transaction) -> Uint:
    intrinsic_gas = calculate_intrinsic_cost(tx)
    if intrinsic_gas > tx.gas:
        raise InsufficientTransactionGasError('Insufficient gas')
    if U256(tx.nonce) >= U256(U64.MAX_VALUE):
        raise NonceOverflowError('Nonce too high')
    return intrinsic_gas
#: frontier
def calculate_intrinsic_cost(tx: Transaction) -> Uint:
    data_cost = Uint(0)
    for byte in tx.data:
        if byte == 0:
            data_cost += TX_DATA_COST_PER_ZERO
        else:
            data_cost += TX_DATA_COST_PER_NON_ZERO
    return TX_BASE_COST + data_cost
def recover_sender(tx: Transaction) -> Address:
    v, r, s = (tx.v, tx.r, tx.s)
    if v != 27 and v != 28:
        raise InvalidSignatureError('bad v')
    if U256(0) >= r or r >= SECP256K1N:
        raise InvalidSignatureError('bad r')
    if U256(0) >= s or s >= SECP256K1N:
        raise InvalidSignatureError('bad s')
    public_key = secp256k1_recover(r, s, v - U256(27), signing_hash(tx))
    return Address(keccak256(public_key)[12:32])
#: homestead..muir_glacier
def calculate_intrinsic_cost(tx: Transaction) -> Uint:
    data_cost = Uint(0)
    for byte in tx.data:
        if byte == 0:
            data_cost += TX_DATA_COST_PER_ZERO
        else:
            data_cost += TX_DATA_COST_PER_NON_ZERO
    if tx.to == Bytes0(b''):
        create_cost = TX_CREATE_COST
    else:
        create_cost = Uint(0)
    return TX_BASE_COST + data_cost + create_cost
#: homestead..tangerine_whistle
def recover_sender(tx: Transaction) -> Address:
    v, r, s = (tx.v, tx.r, tx.s)
    if v != 27 and v != 28:
        raise InvalidSignatureError('bad v')
    if U256(0) >= r or r >= SECP256K1N:
        raise InvalidSignatureError('bad r')
    if U256(0) >= s or s > SECP256K1N // U256(2):
        raise InvalidSignatureError('bad s')
    public_key = secp256k1_recover(r, s, v - U256(27), signing_hash(tx))
    return Address(keccak256(public_key)[12:32])
#: frontier..tangerine_whistle
def signing_hash(tx: Transaction) -> Hash32:
    return keccak256(rlp.encode((tx.nonce, tx.gas_price, tx.gas, tx.to, tx.value, tx.data)))
#: spurious_dragon..muir_glacier
def recover_sender(chain_id: U64, tx: Transaction) -> Address:
    v, r, s = (tx.v, tx.r, tx.s)
    if U256(0) >= r or r >= SECP256K1N:
        raise InvalidSignatureError('bad r')
    if U256(0) >= s or s > SECP256K1N // U256(2):
        raise InvalidSignatureError('bad s')
    if v == 27 or v == 28:
        public_key = secp256k1_recover(r, s, v - U256(27), signing_hash_pre155(tx))
    else:
        chain_id_x2 = U256(chain_id) * U256(2)
        if v != U256(35) + chain_id_x2 and v != U256(36) + chain_id_x2:
            raise InvalidSignatureError('bad v')
        public_key = secp256k1_recover(r, s, v - U256(35) - chain_id_x2, signing_hash_155(tx, chain_id))
    return Address(keccak256(public_key)[12:32])
#: berlin
def calculate_intrinsic_cost(tx: Transaction) -> Uint:
    data_cost = Uint(0)
    for byte in tx.data:
        if byte == 0:
            data_cost += TX_DATA_COST_PER_ZERO
        else:
            data_cost += TX_DATA_COST_PER_NON_ZERO
    if tx.to == Bytes0(b''):
        create_cost = TX_CREATE_COST
    else:
        create_cost = Uint(0)
    access_list_cost = Uint(0)
    if isinstance(tx, AccessListTransaction):
        for access in tx.access_list:
            access_list_cost += TX_ACCESS_LIST_ADDRESS_COST
            access_list_cost += ulen(access.slots) * TX_ACCESS_LIST_STORAGE_KEY_COST
    return TX_BASE_COST + data_cost + create_cost + access_list_cost
def recover_sender(chain_id: U64, tx: Transaction) -> Address:
    r, s = (tx.r, tx.s)
    if U256(0) >= r or r >= SECP256K1N:
        raise InvalidSignatureError('bad r')
    if U256(0) >= s or s > SECP256K1N // U256(2):
        raise InvalidSignatureError('bad s')
    if isinstance(tx, LegacyTransaction):
        v = tx.v
        if v == 27 or v == 28:
            public_key = secp256k1_recover(r, s, v - U256(27), signing_hash_pre155(tx))
        else:
            chain_id_x2 = U256(chain_id) * U256(2)
            if v != U256(35) + chain_id_x2 and v != U256(36) + chain_id_x2:
                raise InvalidSignatureError('bad v')
            public_key = secp256k1_recover(r, s, v - U256(35) - chain_id_x2, signing_hash_155(tx, chain_id))
    elif isinstance(tx, AccessListTransaction):
        if tx.y_parity not in (U256(0), U256(1)):
            raise InvalidSignatureError('bad y_parity')
        public_key = secp256k1_recover(r, s, tx.y_parity, signing_hash_2930(tx))
    return Address(keccak256(public_key)[12:32])
#: spurious_dragon..berlin
def signing_hash_pre155(tx: Transaction) -> Hash32:
    return keccak256(rlp.encode((tx.nonce, tx.gas_price, tx.gas, tx.to, tx.value, tx.data)))
def signing_hash_155(tx: Transaction, chain_id: U64) -> Hash32:
    return keccak256(rlp.encode((tx.nonce, tx.gas_price, tx.gas, tx.to, tx.value, tx.data, chain_id, Uint(0), Uint(0))))
#: frontier..muir_glacier
def get_transaction_hash(tx: Transaction) -> Hash32:
    return keccak256(rlp.encode(tx))
#: london..paris
def calculate_intrinsic_cost(tx: Transaction) -> Uint:
    data_cost = Uint(0)
    for byte in tx.data:
        if byte == 0:
            data_cost += TX_DATA_COST_PER_ZERO
        else:
            data_cost += TX_DATA_COST_PER_NON_ZERO
    if tx.to == Bytes0(b''):
        create_cost = TX_CREATE_COST
    else:
        create_cost = Uint(0)
    access_list_cost = Uint(0)
    if isinstance(tx, (AccessListTransaction, FeeMarketTransaction)):
        for access in tx.access_list:
            access_list_cost += TX_ACCESS_LIST_ADDRESS_COST
            access_list_cost += ulen(access.slots) * TX_ACCESS_LIST_STORAGE_KEY_COST
    return TX_BASE_COST + data_cost + create_cost + access_list_cost
#: cancun..osaka
@slotted_freezable
@dataclass
class BlobTransaction:
    chain_id: U64
    nonce: U256
    max_priority_fee_per_gas: Uint
    max_fee_per_gas: Uint
    gas: Uint
    to: Address
    value: U256
    data: Bytes
    access_list: Tuple[Access, ...]
    max_fee_per_blob_gas: U256
    blob_versioned_hashes: Tuple[VersionedHash, ...]
    y_parity: U256
    r: U256
    s: U256
#: cancun
Transaction = LegacyTransaction | AccessListTransaction | FeeMarketTransaction | BlobTransaction
def encode_transaction(tx: Transaction) -> LegacyTransaction | Bytes:
    if isinstance(tx, LegacyTransaction):
        return tx
    elif isinstance(tx, AccessListTransaction):
        return b'\x01' + rlp.encode(tx)
    elif isinstance(tx, FeeMarketTransaction):
        return b'\x02' + rlp.encode(tx)
    elif isinstance(tx, BlobTransaction):
        return b'\x03' + rlp.encode(tx)
    else:
        raise Exception(f'Unable to encode transaction of type {type(tx)}')
def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
    if isinstance(tx, Bytes):
        if len(tx) == 0:
            raise InvalidTransaction('empty transaction')
        if tx[0] == 1:
            return rlp.decode_to(AccessListTransaction, tx[1:])
        elif tx[0] == 2:
            return rlp.decode_to(FeeMarketTransaction, tx[1:])
        elif tx[0] == 3:
            return rlp.decode_to(BlobTransaction, tx[1:])
        else:
            raise TransactionTypeError(tx[0])
    else:
        return tx
#: shanghai..cancun
def validate_transaction(tx: Transaction) -> Uint:
    from .vm.interpreter import MAX_INIT_CODE_SIZE
    intrinsic_gas = calculate_intrinsic_cost(tx)
    if intrinsic_gas > tx.gas:
        raise InsufficientTransactionGasError('Insufficient gas')
    if U256(tx.nonce) >= U256(U64.MAX_VALUE):
        raise NonceOverflowError('Nonce too high')
    if tx.to == Bytes0(b'') and len(tx.data) > MAX_INIT_CODE_SIZE:
        raise InitCodeTooLargeError('Code size too large')
    return intrinsic_gas
#: shanghai
def calculate_intrinsic_cost(tx: Transaction) -> Uint:
    from .vm.gas import init_code_cost
    data_cost = Uint(0)
    for byte in tx.data:
        if byte == 0:
            data_cost += TX_DATA_COST_PER_ZERO
        else:
            data_cost += TX_DATA_COST_PER_NON_ZERO
    if tx.to == Bytes0(b''):
        create_cost = TX_CREATE_COST + init_code_cost(ulen(tx.data))
    else:
        create_cost = Uint(0)
    access_list_cost = Uint(0)
    if isinstance(tx, (AccessListTransaction, FeeMarketTransaction)):
        for access in tx.access_list:
            access_list_cost += TX_ACCESS_LIST_ADDRESS_COST
            access_list_cost += ulen(access.slots) * TX_ACCESS_LIST_STORAGE_KEY_COST
    return TX_BASE_COST + data_cost + create_cost + access_list_cost
#: london..shanghai
def recover_sender(chain_id: U64, tx: Transaction) -> Address:
    r, s = (tx.r, tx.s)
    if U256(0) >= r or r >= SECP256K1N:
        raise InvalidSignatureError('bad r')
    if U256(0) >= s or s > SECP256K1N // U256(2):
        raise InvalidSignatureError('bad s')
    if isinstance(tx, LegacyTransaction):
        v = tx.v
        if v == 27 or v == 28:
            public_key = secp256k1_recover(r, s, v - U256(27), signing_hash_pre155(tx))
        else:
            chain_id_x2 = U256(chain_id) * U256(2)
            if v != U256(35) + chain_id_x2 and v != U256(36) + chain_id_x2:
                raise InvalidSignatureError('bad v')
            public_key = secp256k1_recover(r, s, v - U256(35) - chain_id_x2, signing_hash_155(tx, chain_id))
    elif isinstance(tx, AccessListTransaction):
        if tx.y_parity not in (U256(0), U256(1)):
            raise InvalidSignatureError('bad y_parity')
        public_key = secp256k1_recover(r, s, tx.y_parity, signing_hash_2930(tx))
    elif isinstance(tx, FeeMarketTransaction):
        if tx.y_parity not in (U256(0), U256(1)):
            raise InvalidSignatureError('bad y_parity')
        public_key = secp256k1_recover(r, s, tx.y_parity, signing_hash_1559(tx))
    return Address(keccak256(public_key)[12:32])
#: cancun
def calculate_intrinsic_cost(tx: Transaction) -> Uint:
    from .vm.gas import init_code_cost
    data_cost = Uint(0)
    for byte in tx.data:
        if byte == 0:
            data_cost += TX_DATA_COST_PER_ZERO
        else:
            data_cost += TX_DATA_COST_PER_NON_ZERO
    if tx.to == Bytes0(b''):
        create_cost = TX_CREATE_COST + init_code_cost(ulen(tx.data))
    else:
        create_cost = Uint(0)
    access_list_cost = Uint(0)
    if isinstance(tx, (AccessListTransaction, FeeMarketTransaction, BlobTransaction)):
        for access in tx.access_list:
            access_list_cost += TX_ACCESS_LIST_ADDRESS_COST
            access_list_cost += ulen(access.slots) * TX_ACCESS_LIST_STORAGE_KEY_COST
    return TX_BASE_COST + data_cost + create_cost + access_list_cost
def recover_sender(chain_id: U64, tx: Transaction) -> Address:
    r, s = (tx.r, tx.s)
    if U256(0) >= r or r >= SECP256K1N:
        raise InvalidSignatureError('bad r')
    if U256(0) >= s or s > SECP256K1N // U256(2):
        raise InvalidSignatureError('bad s')
    if isinstance(tx, LegacyTransaction):
        v = tx.v
        if v == 27 or v == 28:
            public_key = secp256k1_recover(r, s, v - U256(27), signing_hash_pre155(tx))
        else:
            chain_id_x2 = U256(chain_id) * U256(2)
            if v != U256(35) + chain_id_x2 and v != U256(36) + chain_id_x2:
                raise InvalidSignatureError('bad v')
            public_key = secp256k1_recover(r, s, v - U256(35) - chain_id_x2, signing_hash_155(tx, chain_id))
    elif isinstance(tx, AccessListTransaction):
        if tx.y_parity not in (U256(0), U256(1)):
            raise InvalidSignatureError('bad y_parity')
        public_key = secp256k1_recover(r, s, tx.y_parity, signing_hash_2930(tx))
    elif isinstance(tx, FeeMarketTransaction):
        if tx.y_parity not in (U256(0), U256(1)):
            raise InvalidSignatureError('bad y_parity')
        public_key = secp256k1_recover(r, s, tx.y_parity, signing_hash_1559(tx))
    elif isinstance(tx, BlobTransaction):
        if tx.y_parity not in (U256(0), U256(1)):
            raise InvalidSignatureError('bad y_parity')
        public_key = secp256k1_recover(r, s, tx.y_parity, signing_hash_4844(tx))
    return Address(keccak256(public_key)[12:32])
#: prague..osaka
@slotted_freezable
@dataclass
class SetCodeTransaction:
    chain_id: U64
    nonce: U64
    max_priority_fee_per_gas: Uint
    max_fee_per_gas: Uint
    gas: Uint
    to: Address
    value: U256
    data: Bytes
    access_list: Tuple[Access, ...]
    authorizations: Tuple[Authorization, ...]
    y_parity: U256
    r: U256
    s: U256
Transaction = LegacyTransaction | AccessListTransaction | FeeMarketTransaction | BlobTransaction | SetCodeTransaction
def encode_transaction(tx: Transaction) -> LegacyTransaction | Bytes:
    if isinstance(tx, LegacyTransaction):
        return tx
    elif isinstance(tx, AccessListTransaction):
        return b'\x01' + rlp.encode(tx)
    elif isinstance(tx, FeeMarketTransaction):
        return b'\x02' + rlp.encode(tx)
    elif isinstance(tx, BlobTransaction):
        return b'\x03' + rlp.encode(tx)
    elif isinstance(tx, SetCodeTransaction):
        return b'\x04' + rlp.encode(tx)
    else:
        raise Exception(f'Unable to encode transaction of type {type(tx)}')
def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
    if isinstance(tx, Bytes):
        if len(tx) == 0:
            raise InvalidTransaction('empty transaction')
        if tx[0] == 1:
            return rlp.decode_to(AccessListTransaction, tx[1:])
        elif tx[0] == 2:
            return rlp.decode_to(FeeMarketTransaction, tx[1:])
        elif tx[0] == 3:
            return rlp.decode_to(BlobTransaction, tx[1:])
        elif tx[0] == 4:
            return rlp.decode_to(SetCodeTransaction, tx[1:])
        else:
            raise TransactionTypeError(tx[0])
    else:
        return tx
#: prague
def validate_transaction(tx: Transaction) -> Tuple[Uint, Uint]:
    from .vm.interpreter import MAX_INIT_CODE_SIZE
    intrinsic_gas, calldata_floor_gas_cost = calculate_intrinsic_cost(tx)
    if max(intrinsic_gas, calldata_floor_gas_cost) > tx.gas:
        raise InsufficientTransactionGasError('Insufficient gas')
    if U256(tx.nonce) >= U256(U64.MAX_VALUE):
        raise NonceOverflowError('Nonce too high')
    if tx.to == Bytes0(b'') and len(tx.data) > MAX_INIT_CODE_SIZE:
        raise InitCodeTooLargeError('Code size too large')
    return (intrinsic_gas, calldata_floor_gas_cost)
#: osaka
def validate_transaction(tx: Transaction) -> Tuple[Uint, Uint]:
    from .vm.interpreter import MAX_INIT_CODE_SIZE
    intrinsic_gas, calldata_floor_gas_cost = calculate_intrinsic_cost(tx)
    if max(intrinsic_gas, calldata_floor_gas_cost) > tx.gas:
        raise InsufficientTransactionGasError('Insufficient gas')
    if U256(tx.nonce) >= U256(U64.MAX_VALUE):
        raise NonceOverflowError('Nonce too high')
    if tx.to == Bytes0(b'') and len(tx.data) > MAX_INIT_CODE_SIZE:
        raise InitCodeTooLargeError('Code size too large')
    if tx.gas > TX_MAX_GAS_LIMIT:
        raise TransactionGasLimitExceededError('Gas limit too high')
    return (intrinsic_gas, calldata_floor_gas_cost)
#: prague..osaka
def calculate_intrinsic_cost(tx: Transaction) -> Tuple[Uint, Uint]:
    from .vm.eoa_delegation import PER_EMPTY_ACCOUNT_COST
    from .vm.gas import init_code_cost
    zero_bytes = 0
    for byte in tx.data:
        if byte == 0:
            zero_bytes += 1
    tokens_in_calldata = Uint(zero_bytes + (len(tx.data) - zero_bytes) * 4)
    calldata_floor_gas_cost = tokens_in_calldata * FLOOR_CALLDATA_COST + TX_BASE_COST
    data_cost = tokens_in_calldata * STANDARD_CALLDATA_TOKEN_COST
    if tx.to == Bytes0(b''):
        create_cost = TX_CREATE_COST + init_code_cost(ulen(tx.data))
    else:
        create_cost = Uint(0)
    access_list_cost = Uint(0)
    if isinstance(tx, (AccessListTransaction, FeeMarketTransaction, BlobTransaction, SetCodeTransaction)):
        for access in tx.access_list:
            access_list_cost += TX_ACCESS_LIST_ADDRESS_COST
            access_list_cost += ulen(access.slots) * TX_ACCESS_LIST_STORAGE_KEY_COST
    auth_cost = Uint(0)
    if isinstance(tx, SetCodeTransaction):
        auth_cost += Uint(PER_EMPTY_ACCOUNT_COST * len(tx.authorizations))
    return (Uint(TX_BASE_COST + data_cost + create_cost + access_list_cost + auth_cost), calldata_floor_gas_cost)
def recover_sender(chain_id: U64, tx: Transaction) -> Address:
    r, s = (tx.r, tx.s)
    if U256(0) >= r or r >= SECP256K1N:
        raise InvalidSignatureError('bad r')
    if U256(0) >= s or s > SECP256K1N // U256(2):
        raise InvalidSignatureError('bad s')
    if isinstance(tx, LegacyTransaction):
        v = tx.v
        if v == 27 or v == 28:
            public_key = secp256k1_recover(r, s, v - U256(27), signing_hash_pre155(tx))
        else:
            chain_id_x2 = U256(chain_id) * U256(2)
            if v != U256(35) + chain_id_x2 and v != U256(36) + chain_id_x2:
                raise InvalidSignatureError('bad v')
            public_key = secp256k1_recover(r, s, v - U256(35) - chain_id_x2, signing_hash_155(tx, chain_id))
    elif isinstance(tx, AccessListTransaction):
        if tx.y_parity not in (U256(0), U256(1)):
            raise InvalidSignatureError('bad y_parity')
        public_key = secp256k1_recover(r, s, tx.y_parity, signing_hash_2930(tx))
    elif isinstance(tx, FeeMarketTransaction):
        if tx.y_parity not in (U256(0), U256(1)):
            raise InvalidSignatureError('bad y_parity')
        public_key = secp256k1_recover(r, s, tx.y_parity, signing_hash_1559(tx))
    elif isinstance(tx, BlobTransaction):
        if tx.y_parity not in (U256(0), U256(1)):
            raise InvalidSignatureError('bad y_parity')
        public_key = secp256k1_recover(r, s, tx.y_parity, signing_hash_4844(tx))
    elif isinstance(tx, SetCodeTransaction):
        if tx.y_parity not in (U256(0), U256(1)):
            raise InvalidSignatureError('bad y_parity')
        public_key = secp256k1_recover(r, s, tx.y_parity, signing_hash_7702(tx))
    return Address(keccak256(public_key)[12:32])
#: london..osaka
def signing_hash_pre155(tx: LegacyTransaction) -> Hash32:
    return keccak256(rlp.encode((tx.nonce, tx.gas_price, tx.gas, tx.to, tx.value, tx.data)))
def signing_hash_155(tx: LegacyTransaction, chain_id: U64) -> Hash32:
    return keccak256(rlp.encode((tx.nonce, tx.gas_price, tx.gas, tx.to, tx.value, tx.data, chain_id, Uint(0), Uint(0))))
#: berlin..osaka
def signing_hash_2930(tx: AccessListTransaction) -> Hash32:
    return keccak256(b'\x01' + rlp.encode((tx.chain_id, tx.nonce, tx.gas_price, tx.gas, tx.to, tx.value, tx.data, tx.access_list)))
#: london..osaka
def signing_hash_1559(tx: FeeMarketTransaction) -> Hash32:
    return keccak256(b'\x02' + rlp.encode((tx.chain_id, tx.nonce, tx.max_priority_fee_per_gas, tx.max_fee_per_gas, tx.gas, tx.to, tx.value, tx.data, tx.access_list)))
#: cancun..osaka
def signing_hash_4844(tx: BlobTransaction) -> Hash32:
    return keccak256(b'\x03' + rlp.encode((tx.chain_id, tx.nonce, tx.max_priority_fee_per_gas, tx.max_fee_per_gas, tx.gas, tx.to, tx.value, tx.data, tx.access_list, tx.max_fee_per_blob_gas, tx.blob_versioned_hashes)))
#: prague..osaka
def signing_hash_7702(tx: SetCodeTransaction) -> Hash32:
    return keccak256(b'\x04' + rlp.encode((tx.chain_id, tx.nonce, tx.max_priority_fee_per_gas, tx.max_fee_per_gas, tx.gas, tx.to, tx.value, tx.data, tx.access_list, tx.authorizations)))
#: berlin..osaka
def get_transaction_hash(tx: Bytes | LegacyTransaction) -> Hash32:
    assert isinstance(tx, (LegacyTransaction, Bytes))
    if isinstance(tx, LegacyTransaction):
        return keccak256(rlp.encode(tx))
    else:
        return keccak256(tx)
