#: module frontier..osaka
#: frontier..osaka
from dataclasses import dataclass
from ethereum_rlp import rlp
from ethereum_types.bytes import Bytes, Bytes20, Bytes256
from ethereum_types.frozen import slotted_freezable
#: frontier..cancun
from ethereum_types.numeric import U256, Uint
#: prague..osaka
from ethereum_types.numeric import U8, U64, U256, Uint
#: frontier..osaka
from ..crypto.hash import Hash32, keccak256
Address = Bytes20
Root = Hash32
#: cancun..osaka
VersionedHash = Hash32
#: frontier..osaka
Bloom = Bytes256
@slotted_freezable
@dataclass
class Account:
    nonce: Uint
    balance: U256
    code: Bytes
EMPTY_ACCOUNT = Account(nonce=Uint(0), balance=U256(0), code=b'')
def encode_account(raw_account_data: Account, storage_root: Bytes) -> Bytes:
    return rlp.encode((raw_account_data.nonce, raw_account_data.balance, storage_root, keccak256(raw_account_data.code)))
#: prague..osaka
@slotted_freezable
@dataclass
class Authorization:
    chain_id: U256
    address: Address
    nonce: U64
    y_parity: U8
    r: U256
    s: U256
