class EthereumException(Exception):
    pass
class InvalidBlock(EthereumException):
    pass
class StateWithEmptyAccount(EthereumException):
    pass
class InvalidTransaction(EthereumException):
    pass
class InvalidSenderError(InvalidTransaction):
    pass
class InvalidSignatureError(InvalidTransaction):
    pass
class InsufficientBalanceError(InvalidTransaction):
    pass
class NonceMismatchError(InvalidTransaction):
    pass
class GasUsedExceedsLimitError(InvalidTransaction):
    pass
class InsufficientTransactionGasError(InvalidTransaction):
    pass
class NonceOverflowError(InvalidTransaction):
    pass
