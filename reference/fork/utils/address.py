#: module frontier..osaka
#: frontier..osaka
from ethereum_rlp import rlp
#: constantinople..osaka
from ethereum_types.bytes import Bytes, Bytes32
#: frontier..osaka
from ethereum_types.numeric import U256, Uint
from ethereum.crypto.hash import keccak256
from ethereum.utils.byte import left_pad_zero_bytes
from ..fork_types import Address
def to_address_masked(data: Uint | U256) -> Address:
    return Address(data.to_be_bytes32()[-20:])
def compute_contract_address(address: Address, nonce: Uint) -> Address:
    computed_address = keccak256(rlp.encode([address, nonce]))
    canonical_address = computed_address[-20:]
    padded_address = left_pad_zero_bytes(canonical_address, 20)
    return Address(padded_address)
#: constantinople..osaka
def compute_create2_contract_address(address: Address, salt: Bytes32, call_data: Bytes) -> Address:
    preimage = b'\xff' + address + salt + keccak256(call_data)
    computed_address = keccak256(preimage)
    canonical_address = computed_address[-20:]
    padded_address = left_pad_zero_bytes(canonical_address, 20)
    return Address(padded_address)
