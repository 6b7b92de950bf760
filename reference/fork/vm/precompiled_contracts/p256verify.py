#: module osaka
#: osaka
from ethereum_types.numeric import U256
from ethereum.crypto.elliptic_curve import SECP256R1N, SECP256R1P, is_on_curve_secp256r1, secp256r1_verify
from ethereum.crypto.hash import Hash32
from ethereum.exceptions import InvalidSignatureError
from ethereum.utils.byte import left_pad_zero_bytes
from ...vm import Evm
from ...vm.gas import GAS_P256VERIFY, charge_gas
from ...vm.memory import buffer_read
def p256verify(evm: Evm) -> None:
    data = evm.message.data
    charge_gas(evm, GAS_P256VERIFY)
    if len(data) != 160:
        return
    message_hash_bytes = buffer_read(data, U256(0), U256(32))
    message_hash = Hash32(message_hash_bytes)
    r = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
    s = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
    public_key_x = U256.from_be_bytes(buffer_read(data, U256(96), U256(32)))
    public_key_y = U256.from_be_bytes(buffer_read(data, U256(128), U256(32)))
    if r <= U256(0) or r >= SECP256R1N:
        return
    if s <= U256(0) or s >= SECP256R1N:
        return
    if public_key_x < U256(0) or public_key_x >= SECP256R1P:
        return
    if public_key_y < U256(0) or public_key_y >= SECP256R1P:
        return
    if not is_on_curve_secp256r1(public_key_x, public_key_y):
        return
    if public_key_x == U256(0) and public_key_y == U256(0):
        return
    try:
        secp256r1_verify(r, s, public_key_x, public_key_y, message_hash)
    except InvalidSignatureError:
        return
    evm.output = left_pad_zero_bytes(b'\x01', 32)
