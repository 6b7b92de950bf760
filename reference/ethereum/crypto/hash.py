from Crypto.Hash import keccak
from ethereum_types.bytes import Bytes, Bytes32, Bytes64
Hash32 = Bytes32
Hash64 = Bytes64
def keccak256(buffer: Bytes | bytearray) -> Hash32:
    k = keccak.new(digest_bits=256)
    return Hash32(k.update(buffer).digest())
def keccak512(buffer: Bytes | bytearray) -> Hash64:
    k = keccak.new(digest_bits=512)
    return Hash64(k.update(buffer).digest())
