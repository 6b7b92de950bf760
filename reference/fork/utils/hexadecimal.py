#: module frontier..osaka
#: frontier..osaka
from ethereum_types.bytes import Bytes
from ethereum.utils.hexadecimal import remove_hex_prefix
from ..fork_types import Address, Root
def hex_to_root(hex_string: str) -> Root:
    return Root(Bytes.fromhex(remove_hex_prefix(hex_string)))
def hex_to_address(hex_string: str) -> Address:
    return Address(Bytes.fromhex(remove_hex_prefix(hex_string).rjust(40, '0')))
