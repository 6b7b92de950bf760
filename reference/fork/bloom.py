#: module frontier..osaka
#: frontier..osaka
from typing import Tuple
from ethereum_types.bytes import Bytes
from ethereum_types.numeric import Uint
from ethereum.crypto.hash import keccak256
from .blocks import Log
from .fork_types import Bloom
def add_to_bloom(bloom: bytearray, bloom_entry: Bytes) -> None:
    hash = keccak256(bloom_entry)
    for idx in (0, 2, 4):
        bit_to_set = Uint.from_be_bytes(hash[idx:idx + 2]) & Uint(2047)
        bit_index = 2047 - int(bit_to_set)
        byte_index = bit_index // 8
        bit_value = 1 << 7 - bit_index % 8
        bloom[byte_index] = bloom[byte_index] | bit_value
def logs_bloom(logs: Tuple[Log, ...]) -> Bloom:
    bloom: bytearray = bytearray(b'\x00' * 256)
    for log in logs:
        add_to_bloom(bloom, log.address)
        for topic in log.topics:
            add_to_bloom(bloom, topic)
    return Bloom(bloom)
