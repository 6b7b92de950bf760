import struct
from dataclasses import dataclass
from typing import Final, List, Tuple
from ethereum_types.numeric import Uint
def spit_le_to_uint(data: bytes, start: int, num_words: int) -> List[Uint]:
    words = []
    for i in range(num_words):
        start_position = start + i * 8
        words.append(Uint.from_le_bytes(data[start_position:start_position + 8]))
    return words
@dataclass
class Blake2:
    w: Uint
    mask_bits: Uint
    word_format: str
    R1: Uint
    R2: Uint
    R3: Uint
    R4: Uint

    @property
    def max_word(self) -> Uint:
        return Uint(2) ** self.w

    @property
    def w_R1(self) -> Uint:
        return self.w - self.R1

    @property
    def w_R2(self) -> Uint:
        return self.w - self.R2

    @property
    def w_R3(self) -> Uint:
        return self.w - self.R3

    @property
    def w_R4(self) -> Uint:
        return self.w - self.R4
    sigma: Tuple[Tuple[int, ...], ...] = ((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15), (14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3), (11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4), (7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8), (9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13), (2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9), (12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11), (13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10), (6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5), (10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0))
    IV: Tuple[Uint, ...] = (Uint(7640891576956012808), Uint(13503953896175478587), Uint(4354685564936845355), Uint(11912009170470909681), Uint(5840696475078001361), Uint(11170449401992604703), Uint(2270897969802886507), Uint(6620516959819538809))
    MIX_TABLE: Final[Tuple[Tuple[Uint, Uint, Uint, Uint], ...]] = ((Uint(0), Uint(4), Uint(8), Uint(12)), (Uint(1), Uint(5), Uint(9), Uint(13)), (Uint(2), Uint(6), Uint(10), Uint(14)), (Uint(3), Uint(7), Uint(11), Uint(15)), (Uint(0), Uint(5), Uint(10), Uint(15)), (Uint(1), Uint(6), Uint(11), Uint(12)), (Uint(2), Uint(7), Uint(8), Uint(13)), (Uint(3), Uint(4), Uint(9), Uint(14)))

    @property
    def sigma_len(self) -> int:
        return len(self.sigma)

    def get_blake2_parameters(self, data: bytes) -> Tuple:
        rounds = Uint.from_be_bytes(data[:4])
        h = spit_le_to_uint(data, 4, 8)
        m = spit_le_to_uint(data, 68, 16)
        t_0, t_1 = spit_le_to_uint(data, 196, 2)
        f = Uint.from_be_bytes(data[212:])
        return (rounds, h, m, t_0, t_1, f)

    def G(self, v: List, a: Uint, b: Uint, c: Uint, d: Uint, x: Uint, y: Uint) -> List:
        v[a] = (v[a] + v[b] + x) % self.max_word
        v[d] = (v[d] ^ v[a]) >> self.R1 ^ ((v[d] ^ v[a]) << self.w_R1) % self.max_word
        v[c] = (v[c] + v[d]) % self.max_word
        v[b] = (v[b] ^ v[c]) >> self.R2 ^ ((v[b] ^ v[c]) << self.w_R2) % self.max_word
        v[a] = (v[a] + v[b] + y) % self.max_word
        v[d] = (v[d] ^ v[a]) >> self.R3 ^ ((v[d] ^ v[a]) << self.w_R3) % self.max_word
        v[c] = (v[c] + v[d]) % self.max_word
        v[b] = (v[b] ^ v[c]) >> self.R4 ^ ((v[b] ^ v[c]) << self.w_R4) % self.max_word
        return v

    def compress(self, num_rounds: Uint, h: List[Uint], m: List[Uint], t_0: Uint, t_1: Uint, f: bool) -> bytes:
        v = [Uint(0)] * 16
        v[0:8] = h
        v[8:15] = self.IV
        v[12] = t_0 ^ self.IV[4]
        v[13] = t_1 ^ self.IV[5]
        if f:
            v[14] = v[14] ^ self.mask_bits
        for r in range(num_rounds):
            s = self.sigma[r % self.sigma_len]
            v = self.G(v, *self.MIX_TABLE[0], m[s[0]], m[s[1]])
            v = self.G(v, *self.MIX_TABLE[1], m[s[2]], m[s[3]])
            v = self.G(v, *self.MIX_TABLE[2], m[s[4]], m[s[5]])
            v = self.G(v, *self.MIX_TABLE[3], m[s[6]], m[s[7]])
            v = self.G(v, *self.MIX_TABLE[4], m[s[8]], m[s[9]])
            v = self.G(v, *self.MIX_TABLE[5], m[s[10]], m[s[11]])
            v = self.G(v, *self.MIX_TABLE[6], m[s[12]], m[s[13]])
            v = self.G(v, *self.MIX_TABLE[7], m[s[14]], m[s[15]])
        result_message_words = (h[i] ^ v[i] ^ v[i + 8] for i in range(8))
        return struct.pack('<8%s' % self.word_format, *result_message_words)
@dataclass
class Blake2b(Blake2):
    w: Uint = Uint(64)
    mask_bits: Uint = Uint(18446744073709551615)
    word_format: str = 'Q'
    R1: Uint = Uint(32)
    R2: Uint = Uint(24)
    R3: Uint = Uint(16)
    R4: Uint = Uint(63)
