#: module frontier..osaka
#: frontier..osaka
import hashlib
from ethereum_types.numeric import Uint
from ethereum.utils.byte import left_pad_zero_bytes
from ethereum.utils.numeric import ceil32
from ...vm import Evm
from ...vm.gas import GAS_RIPEMD160, GAS_RIPEMD160_WORD, charge_gas
def ripemd160(evm: Evm) -> None:
    data = evm.message.data
    word_count = ceil32(Uint(len(data))) // Uint(32)
    charge_gas(evm, GAS_RIPEMD160 + GAS_RIPEMD160_WORD * word_count)
    hash_bytes = hashlib.new('ripemd160', data).digest()
    padded_hash = left_pad_zero_bytes(hash_bytes, 32)
    evm.output = padded_hash
