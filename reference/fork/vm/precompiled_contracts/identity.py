#: module frontier..osaka
#: frontier..osaka
from ethereum_types.numeric import Uint
from ethereum.utils.numeric import ceil32
from ...vm import Evm
from ...vm.gas import GAS_IDENTITY, GAS_IDENTITY_WORD, charge_gas
def identity(evm: Evm) -> None:
    data = evm.message.data
    word_count = ceil32(Uint(len(data))) // Uint(32)
    charge_gas(evm, GAS_IDENTITY + GAS_IDENTITY_WORD * word_count)
    evm.output = data
