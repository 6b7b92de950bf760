from ethereum_types.bytes import Bytes, Bytes8, Bytes32, Bytes256
from ethereum_types.numeric import U8, U64, U256, Uint
from ethereum.crypto.hash import Hash32
def has_hex_prefix(hex_string: str) -> bool:
    return hex_string.startswith('0x')
def remove_hex_prefix(hex_string: str) -> str:
    if has_hex_prefix(hex_string):
        return hex_string[len('0x'):]
    return hex_string
def hex_to_bytes(hex_string: str) -> Bytes:
    return Bytes.fromhex(remove_hex_prefix(hex_string))
def hex_to_bytes8(hex_string: str) -> Bytes8:
    return Bytes8(Bytes.fromhex(remove_hex_prefix(hex_string).rjust(16, '0')))
def hex_to_bytes32(hex_string: str) -> Bytes32:
    return Bytes32(Bytes.fromhex(remove_hex_prefix(hex_string).rjust(64, '0')))
def hex_to_bytes256(hex_string: str) -> Bytes256:
    return Bytes256(Bytes.fromhex(remove_hex_prefix(hex_string).rjust(512, '0')))
def hex_to_hash(hex_string: str) -> Hash32:
    return Hash32(Bytes.fromhex(remove_hex_prefix(hex_string)))
def hex_to_uint(hex_string: str) -> Uint:
    return Uint(int(remove_hex_prefix(hex_string), 16))
def hex_to_u8(hex_string: str) -> U8:
    return U8(int(remove_hex_prefix(hex_string), 16))
def hex_to_u64(hex_string: str) -> U64:
    return U64(int(remove_hex_prefix(hex_string), 16))
def hex_to_u256(hex_string: str) -> U256:
    return U256(int(remove_hex_prefix(hex_string), 16))
