from typing import Callable, Tuple
from ethereum_types.bytes import Bytes, Bytes8
from ethereum_types.numeric import U32, Uint, ulen
from ethereum.crypto.hash import Hash32, Hash64, keccak256, keccak512
from ethereum.utils.numeric import is_prime, le_bytes_to_uint32_sequence, le_uint32_sequence_to_bytes, le_uint32_sequence_to_uint
EPOCH_SIZE = Uint(30000)
INITIAL_CACHE_SIZE = Uint(2 ** 24)
CACHE_EPOCH_GROWTH_SIZE = Uint(2 ** 17)
INITIAL_DATASET_SIZE = Uint(2 ** 30)
DATASET_EPOCH_GROWTH_SIZE = Uint(2 ** 23)
HASH_BYTES = Uint(64)
MIX_BYTES = Uint(128)
CACHE_ROUNDS = 3
DATASET_PARENTS = Uint(256)
HASHIMOTO_ACCESSES = 64
def epoch(block_number: Uint) -> Uint:
    return block_number // EPOCH_SIZE
def cache_size(block_number: Uint) -> Uint:
    size = INITIAL_CACHE_SIZE + CACHE_EPOCH_GROWTH_SIZE * epoch(block_number)
    size -= HASH_BYTES
    while not is_prime(size // HASH_BYTES):
        size -= Uint(2) * HASH_BYTES
    return size
def dataset_size(block_number: Uint) -> Uint:
    size = INITIAL_DATASET_SIZE + DATASET_EPOCH_GROWTH_SIZE * epoch(block_number)
    size -= MIX_BYTES
    while not is_prime(size // MIX_BYTES):
        size -= Uint(2) * MIX_BYTES
    return size
def generate_seed(block_number: Uint) -> Hash32:
    epoch_number = epoch(block_number)
    seed = b'\x00' * 32
    while epoch_number != 0:
        seed = keccak256(seed)
        epoch_number -= Uint(1)
    return Hash32(seed)
def generate_cache(block_number: Uint) -> Tuple[Tuple[U32, ...], ...]:
    seed = generate_seed(block_number)
    cache_size_bytes = cache_size(block_number)
    cache_size_words = cache_size_bytes // HASH_BYTES
    cache = [keccak512(seed)]
    for index in range(1, cache_size_words):
        cache_item = keccak512(cache[index - 1])
        cache.append(cache_item)
    for _ in range(CACHE_ROUNDS):
        for index in range(cache_size_words):
            first_cache_item = cache[(index - 1 + int(cache_size_words)) % int(cache_size_words)]
            second_cache_item = cache[U32.from_le_bytes(cache[index][0:4]) % U32(cache_size_words)]
            result = Bytes([a ^ b for a, b in zip(first_cache_item, second_cache_item)])
            cache[index] = keccak512(result)
    return tuple((le_bytes_to_uint32_sequence(cache_item) for cache_item in cache))
def fnv(a: Uint | U32, b: Uint | U32) -> U32:
    result = (Uint(a) * Uint(16777619) ^ Uint(b)) & Uint(U32.MAX_VALUE)
    return U32(result)
def fnv_hash(mix_integers: Tuple[U32, ...], data: Tuple[U32, ...]) -> Tuple[U32, ...]:
    return tuple((fnv(mix_integers[i], data[i]) for i in range(len(mix_integers))))
def generate_dataset_item(cache: Tuple[Tuple[U32, ...], ...], index: Uint) -> Hash64:
    mix = keccak512((le_uint32_sequence_to_uint(cache[index % ulen(cache)]) ^ index).to_le_bytes64())
    mix_integers = le_bytes_to_uint32_sequence(mix)
    for j in (Uint(k) for k in range(DATASET_PARENTS)):
        mix_word: U32 = mix_integers[j % Uint(16)]
        cache_index = fnv(index ^ j, mix_word) % U32(len(cache))
        parent = cache[cache_index]
        mix_integers = fnv_hash(mix_integers, parent)
    mix = Hash64(le_uint32_sequence_to_bytes(mix_integers))
    return keccak512(mix)
def generate_dataset(block_number: Uint) -> Tuple[Hash64, ...]:
    dataset_size_bytes: Uint = dataset_size(block_number)
    cache: Tuple[Tuple[U32, ...], ...] = generate_cache(block_number)
    return tuple((generate_dataset_item(cache, Uint(index)) for index in range(dataset_size_bytes // HASH_BYTES)))
def hashimoto(header_hash: Hash32, nonce: Bytes8, dataset_size: Uint, fetch_dataset_item: Callable[[Uint], Tuple[U32, ...]]) -> Tuple[Bytes, Hash32]:
    nonce_le = Bytes(reversed(nonce))
    seed_hash = keccak512(header_hash + nonce_le)
    seed_head = U32.from_le_bytes(seed_hash[:4])
    rows = dataset_size // Uint(128)
    mix = le_bytes_to_uint32_sequence(seed_hash) * (MIX_BYTES // HASH_BYTES)
    for i in range(HASHIMOTO_ACCESSES):
        new_data: Tuple[U32, ...] = ()
        parent = fnv(U32(i) ^ seed_head, mix[i % len(mix)]) % U32(rows)
        for j in range(MIX_BYTES // HASH_BYTES):
            new_data += fetch_dataset_item(Uint(2) * Uint(parent) + Uint(j))
        mix = fnv_hash(mix, new_data)
    compressed_mix = []
    for i in range(0, len(mix), 4):
        compressed_mix.append(fnv(fnv(fnv(mix[i], mix[i + 1]), mix[i + 2]), mix[i + 3]))
    mix_digest = le_uint32_sequence_to_bytes(compressed_mix)
    result = keccak256(seed_hash + mix_digest)
    return (mix_digest, result)
def hashimoto_light(header_hash: Hash32, nonce: Bytes8, cache: Tuple[Tuple[U32, ...], ...], dataset_size: Uint) -> Tuple[Bytes, Hash32]:

    def fetch_dataset_item(index: Uint) -> Tuple[U32, ...]:
        item: Hash64 = generate_dataset_item(cache, index)
        return le_bytes_to_uint32_sequence(item)
    return hashimoto(header_hash, nonce, dataset_size, fetch_dataset_item)
