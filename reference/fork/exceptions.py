#: module berlin..osaka
#: berlin..shanghai
from typing import Final
#: cancun..osaka
from typing import TYPE_CHECKING, Final
#: london..osaka
from ethereum_types.numeric import Uint
#: berlin..osaka
from ethereum.exceptions import InvalidTransaction
#: cancun..osaka
if TYPE_CHECKING:
    from .transactions import Transaction
#: berlin..osaka
class TransactionTypeError(InvalidTransaction):
    transaction_type: Final[int]

    def __init__(self, transaction_type: int):
        super().__init__(f'unknown transaction type `{transaction_type}`')
        self.transaction_type = transaction_type
#: cancun..osaka
class TransactionTypeContractCreationError(InvalidTransaction):
    transaction: 'Transaction'

    def __init__(self, transaction: 'Transaction'):
        super().__init__(f'transaction type `{type(transaction).__name__}` not allowed to create contracts')
        self.transaction = transaction
class BlobGasLimitExceededError(InvalidTransaction):
    pass
class InsufficientMaxFeePerBlobGasError(InvalidTransaction):
    pass
#: london..osaka
class InsufficientMaxFeePerGasError(InvalidTransaction):
    transaction_max_fee_per_gas: Final[Uint]
    block_base_fee_per_gas: Final[Uint]

    def __init__(self, transaction_max_fee_per_gas: Uint, block_base_fee_per_gas: Uint):
        super().__init__(f'Insufficient max fee per gas ({transaction_max_fee_per_gas} < {block_base_fee_per_gas})')
        self.transaction_max_fee_per_gas = transaction_max_fee_per_gas
        self.block_base_fee_per_gas = block_base_fee_per_gas
#: cancun..osaka
class InvalidBlobVersionedHashError(InvalidTransaction):
    pass
class NoBlobDataError(InvalidTransaction):
    pass
#: osaka
class BlobCountExceededError(InvalidTransaction):
    pass
#: london..osaka
class PriorityFeeGreaterThanMaxFeeError(InvalidTransaction):
    pass
#: prague..osaka
class EmptyAuthorizationListError(InvalidTransaction):
    pass
#: shanghai..osaka
class InitCodeTooLargeError(InvalidTransaction):
    pass
#: osaka
class TransactionGasLimitExceededError(InvalidTransaction):
    pass
