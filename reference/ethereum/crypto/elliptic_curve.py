import coincurve
from Crypto.Util.asn1 import DerSequence
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import Prehashed
from ethereum_types.bytes import Bytes
from ethereum_types.numeric import U256
from ethereum.exceptions import InvalidSignatureError
from .hash import Hash32
SECP256K1B = U256(7)
SECP256K1P = U256(115792089237316195423570985008687907853269984665640564039457584007908834671663)
SECP256K1N = U256(115792089237316195423570985008687907852837564279074904382605163141518161494337)
def secp256k1_recover(r: U256, s: U256, v: U256, msg_hash: Hash32) -> Bytes:
    is_square = pow(pow(r, U256(3), SECP256K1P) + SECP256K1B, (SECP256K1P - U256(1)) // U256(2), SECP256K1P)
    if is_square != 1:
        raise InvalidSignatureError('r is not the x-coordinate of a point on the secp256k1 curve')
    r_bytes = r.to_be_bytes32()
    s_bytes = s.to_be_bytes32()
    signature = bytearray([0] * 65)
    signature[32 - len(r_bytes):32] = r_bytes
    signature[64 - len(s_bytes):64] = s_bytes
    signature[64] = v
    try:
        public_key = coincurve.PublicKey.from_signature_and_message(bytes(signature), msg_hash, hasher=None)
    except ValueError as e:
        raise InvalidSignatureError from e
    public_key = public_key.format(compressed=False)[1:]
    return public_key
SECP256R1N = U256(115792089210356248762697446949407573529996955224135760342422259061068512044369)
SECP256R1P = U256(115792089210356248762697446949407573530086143415290314195533631308867097853951)
SECP256R1A = U256(115792089210356248762697446949407573530086143415290314195533631308867097853948)
SECP256R1B = U256(41058363725152142129326129780047268409114441015993725554835256314039467401291)
def secp256r1_verify(r: U256, s: U256, x: U256, y: U256, msg_hash: Hash32) -> None:
    r_int = int(r)
    s_int = int(s)
    x_int = int(x)
    y_int = int(y)
    sig = DerSequence([r_int, s_int]).encode()
    pubnum = ec.EllipticCurvePublicNumbers(x_int, y_int, ec.SECP256R1())
    pubkey = pubnum.public_key(default_backend())
    try:
        pubkey.verify(sig, msg_hash, ec.ECDSA(Prehashed(hashes.SHA256())))
    except InvalidSignature as e:
        raise InvalidSignatureError from e
def is_on_curve_secp256r1(x: U256, y: U256) -> bool:
    x_int = int(x)
    y_int = int(y)
    p_int = int(SECP256R1P)
    a_int = int(SECP256R1A)
    b_int = int(SECP256R1B)
    y_squared = y_int * y_int % p_int
    x_cubed = x_int * x_int * x_int % p_int
    ax = a_int * x_int % p_int
    right_side = (x_cubed + ax + b_int) % p_int
    return y_squared == right_side
