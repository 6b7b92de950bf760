import importlib
from typing import Any
from ethereum_spec_tools.forks import Hardfork
class ForkLoad:
    _fork_module: str
    _forks: Any

    def __init__(self, fork_module: str):
        self._fork_module = fork_module
        self._forks = Hardfork.discover()

    @property
    def fork_module(self) -> str:
        return self._fork_module

    def _module(self, name: str) -> Any:
        return importlib.import_module(f'ethereum.{self._fork_module}.{name}')

    @property
    def proof_of_stake(self) -> bool:
        for fork in self._forks:
            if fork.name == 'ethereum.' + self._fork_module:
                return fork.consensus.is_pos()
        raise Exception(f'fork {self._fork_module} not discovered')

    def is_after_fork(self, target_fork_name: str) -> bool:
        return_value = False
        for fork in self._forks:
            if fork.name == target_fork_name:
                return_value = True
            if fork.name == 'ethereum.' + self._fork_module:
                break
        return return_value

    @property
    def BEACON_ROOTS_ADDRESS(self) -> Any:
        return self._module('fork').BEACON_ROOTS_ADDRESS

    @property
    def HISTORY_STORAGE_ADDRESS(self) -> Any:
        return self._module('fork').HISTORY_STORAGE_ADDRESS

    @property
    def BLOCK_REWARD(self) -> Any:
        return self._module('fork').BLOCK_REWARD

    @property
    def process_general_purpose_requests(self) -> Any:
        return self._module('fork').process_general_purpose_requests

    @property
    def process_unchecked_system_transaction(self) -> Any:
        return self._module('fork').process_unchecked_system_transaction

    @property
    def process_withdrawals(self) -> Any:
        return self._module('fork').process_withdrawals

    @property
    def calculate_block_difficulty(self) -> Any:
        return self._module('fork').calculate_block_difficulty

    @property
    def calculate_base_fee_per_gas(self) -> Any:
        return self._module('fork').calculate_base_fee_per_gas

    @property
    def logs_bloom(self) -> Any:
        return self._module('bloom').logs_bloom

    @property
    def BlockChain(self) -> Any:
        return self._module('fork').BlockChain

    @property
    def state_transition(self) -> Any:
        return self._module('fork').state_transition

    @property
    def pay_rewards(self) -> Any:
        return self._module('fork').pay_rewards

    @property
    def signing_hash(self) -> Any:
        return self._module('transactions').signing_hash

    @property
    def signing_hash_pre155(self) -> Any:
        return self._module('transactions').signing_hash_pre155

    @property
    def signing_hash_155(self) -> Any:
        return self._module('transactions').signing_hash_155

    @property
    def signing_hash_2930(self) -> Any:
        return self._module('transactions').signing_hash_2930

    @property
    def signing_hash_1559(self) -> Any:
        return self._module('transactions').signing_hash_1559

    @property
    def signing_hash_7702(self) -> Any:
        return self._module('transactions').signing_hash_7702

    @property
    def signing_hash_4844(self) -> Any:
        return self._module('transactions').signing_hash_4844

    @property
    def get_transaction_hash(self) -> Any:
        return self._module('transactions').get_transaction_hash

    @property
    def process_transaction(self) -> Any:
        return self._module('fork').process_transaction

    @property
    def MAX_BLOB_GAS_PER_BLOCK(self) -> Any:
        return self._module('fork').MAX_BLOB_GAS_PER_BLOCK

    @property
    def Block(self) -> Any:
        return self._module('blocks').Block

    @property
    def decode_receipt(self) -> Any:
        return self._module('blocks').decode_receipt

    @property
    def compute_requests_hash(self) -> Any:
        return self._module('requests').compute_requests_hash

    @property
    def Bloom(self) -> Any:
        return self._module('fork_types').Bloom

    @property
    def EMPTY_ACCOUNT(self) -> Any:
        return self._module('fork_types').EMPTY_ACCOUNT

    @property
    def Header(self) -> Any:
        return self._module('blocks').Header

    @property
    def Account(self) -> Any:
        return self._module('fork_types').Account

    @property
    def Transaction(self) -> Any:
        return self._module('transactions').Transaction

    @property
    def LegacyTransaction(self) -> Any:
        return self._module('transactions').LegacyTransaction

    @property
    def Access(self) -> Any:
        return self._module('transactions').Access

    @property
    def AccessListTransaction(self) -> Any:
        return self._module('transactions').AccessListTransaction

    @property
    def FeeMarketTransaction(self) -> Any:
        return self._module('transactions').FeeMarketTransaction

    @property
    def BlobTransaction(self) -> Any:
        return self._module('transactions').BlobTransaction

    @property
    def SetCodeTransaction(self) -> Any:
        return self._module('transactions').SetCodeTransaction

    @property
    def Withdrawal(self) -> Any:
        return self._module('blocks').Withdrawal

    @property
    def encode_transaction(self) -> Any:
        return self._module('transactions').encode_transaction

    @property
    def decode_transaction(self) -> Any:
        return self._module('transactions').decode_transaction

    @property
    def State(self) -> Any:
        return self._module('state').State

    @property
    def set_account(self) -> Any:
        return self._module('state').set_account

    @property
    def set_storage(self) -> Any:
        return self._module('state').set_storage

    @property
    def state_root(self) -> Any:
        return self._module('state').state_root

    @property
    def close_state(self) -> Any:
        return self._module('state').close_state

    @property
    def create_ether(self) -> Any:
        return self._module('state').create_ether

    @property
    def root(self) -> Any:
        return self._module('trie').root

    @property
    def copy_trie(self) -> Any:
        return self._module('trie').copy_trie

    @property
    def trie_get(self) -> Any:
        return self._module('trie').trie_get

    @property
    def trie_set(self) -> Any:
        return self._module('trie').trie_set

    @property
    def hex_to_address(self) -> Any:
        return self._module('utils.hexadecimal').hex_to_address

    @property
    def hex_to_root(self) -> Any:
        return self._module('utils.hexadecimal').hex_to_root

    @property
    def BlockEnvironment(self) -> Any:
        return self._module('vm').BlockEnvironment

    @property
    def BlockOutput(self) -> Any:
        return self._module('vm').BlockOutput

    @property
    def Authorization(self) -> Any:
        return self._module('fork_types').Authorization

    @property
    def TARGET_BLOB_GAS_PER_BLOCK(self) -> Any:
        return self._module('vm.gas').TARGET_BLOB_GAS_PER_BLOCK

    @property
    def GAS_PER_BLOB(self) -> Any:
        return self._module('vm.gas').GAS_PER_BLOB

    @property
    def BLOB_BASE_COST(self) -> Any:
        return self._module('vm.gas').BLOB_BASE_COST

    @property
    def BLOB_SCHEDULE_MAX(self) -> Any:
        return self._module('vm.gas').BLOB_SCHEDULE_MAX

    @property
    def BLOB_SCHEDULE_TARGET(self) -> Any:
        return self._module('vm.gas').BLOB_SCHEDULE_TARGET

    @property
    def calculate_blob_gas_price(self) -> Any:
        return self._module('vm.gas').calculate_blob_gas_price

    @property
    def apply_dao(self) -> Any:
        return self._module('dao').apply_dao
