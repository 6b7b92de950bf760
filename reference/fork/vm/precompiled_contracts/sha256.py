#: module frontier..osaka
#: frontier..osaka
import hashlib
from ethereum_types.numeric import Uint
from ethereum.utils.numeric import ceil32
from ...vm import Evm
from ...vm.gas import GAS_SHA256, GAS_SHA256_WORD, charge_gas
def sha256(evm: Evm) -> None:
    data = evm.message.data
    word_count = ceil32(Uint(len(data))) // Uint(32)
    charge_gas(evm, GAS_SHA256 + GAS_SHA256_WORD * word_count)
    evm.output = hashlib.sha256(data).digest()
