#: module frontier..osaka
#: frontier..osaka
from ethereum.exceptions import EthereumException
class ExceptionalHalt(EthereumException):
    pass
#: byzantium..osaka
class Revert(EthereumException):
    pass
#: frontier..osaka
class StackUnderflowError(ExceptionalHalt):
    pass
class StackOverflowError(ExceptionalHalt):
    pass
class OutOfGasError(ExceptionalHalt):
    pass
class InvalidOpcode(ExceptionalHalt):
    code: int

    def __init__(self, code: int) -> None:
        super().__init__(code)
        self.code = code
class InvalidJumpDestError(ExceptionalHalt):
    pass
class StackDepthLimitError(ExceptionalHalt):
    pass
#: byzantium..osaka
class WriteInStaticContext(ExceptionalHalt):
    pass
class OutOfBoundsRead(ExceptionalHalt):
    pass
class InvalidParameter(ExceptionalHalt):
    pass
#: london..osaka
class InvalidContractPrefix(ExceptionalHalt):
    pass
#: frontier..osaka
class AddressCollision(ExceptionalHalt):
    pass
#: cancun..osaka
class KZGProofError(ExceptionalHalt):
    pass
