#: module frontier..osaka
#: frontier..osaka
from dataclasses import dataclass
#: frontier..spurious_dragon
from typing import List, Set, Tuple
#: byzantium..gray_glacier
from typing import List, Optional, Set, Tuple
#: paris..osaka
from typing import List, Optional, Tuple
#: frontier..osaka
from ethereum_rlp import rlp
#: frontier..spurious_dragon
from ethereum_types.bytes import Bytes32
#: berlin..osaka
from ethereum_types.bytes import Bytes
#: frontier..osaka
from ethereum_types.numeric import U64, U256, Uint
from ethereum.crypto.hash import Hash32, keccak256
#: frontier..gray_glacier
from ethereum.ethash import dataset_size, generate_cache, hashimoto_light
#: frontier..spurious_dragon
from ethereum.exceptions import GasUsedExceedsLimitError, InsufficientBalanceError, InvalidBlock, InvalidSenderError, NonceMismatchError
#: byzantium..osaka
from ethereum.exceptions import EthereumException, GasUsedExceedsLimitError, InsufficientBalanceError, InvalidBlock, InvalidSenderError, NonceMismatchError
#: frontier..homestead,tangerine_whistle..berlin,arrow_glacier..osaka
from . import vm
#: dao_fork,london
from . import FORK_CRITERIA, vm
#: frontier..muir_glacier
from .blocks import Block, Header, Log, Receipt
#: berlin..paris
from .blocks import Block, Header, Log, Receipt, encode_receipt
#: shanghai..osaka
from .blocks import Block, Header, Log, Receipt, Withdrawal, encode_receipt
#: frontier..osaka
from .bloom import logs_bloom
#: dao_fork
from .dao import apply_dao
#: london..shanghai
from .exceptions import InsufficientMaxFeePerGasError, PriorityFeeGreaterThanMaxFeeError
#: frontier..paris
from .fork_types import Address
#: frontier..tangerine_whistle
from .state import State, create_ether, destroy_account, get_account, increment_nonce, set_account_balance, state_root
#: spurious_dragon..gray_glacier
from .state import State, account_exists_and_is_empty, create_ether, destroy_account, destroy_touched_empty_accounts, get_account, increment_nonce, set_account_balance, state_root
#: frontier..muir_glacier
from .transactions import Transaction, get_transaction_hash, recover_sender, validate_transaction
#: berlin
from .transactions import AccessListTransaction, LegacyTransaction, Transaction, decode_transaction, encode_transaction, get_transaction_hash, recover_sender, validate_transaction
#: paris
from .state import State, account_exists_and_is_empty, destroy_account, get_account, increment_nonce, set_account_balance, state_root
#: shanghai
from .fork_types import Account, Address
from .state import State, account_exists_and_is_empty, destroy_account, get_account, increment_nonce, modify_state, set_account_balance, state_root
#: london..shanghai
from .transactions import AccessListTransaction, FeeMarketTransaction, LegacyTransaction, Transaction, decode_transaction, encode_transaction, get_transaction_hash, recover_sender, validate_transaction
#: cancun
from .exceptions import BlobGasLimitExceededError, InsufficientMaxFeePerBlobGasError, InsufficientMaxFeePerGasError, InvalidBlobVersionedHashError, NoBlobDataError, PriorityFeeGreaterThanMaxFeeError, TransactionTypeContractCreationError
from .fork_types import Account, Address, VersionedHash
#: prague
from .exceptions import BlobGasLimitExceededError, EmptyAuthorizationListError, InsufficientMaxFeePerBlobGasError, InsufficientMaxFeePerGasError, InvalidBlobVersionedHashError, NoBlobDataError, PriorityFeeGreaterThanMaxFeeError, TransactionTypeContractCreationError
#: osaka
from .exceptions import BlobCountExceededError, BlobGasLimitExceededError, EmptyAuthorizationListError, InsufficientMaxFeePerBlobGasError, InsufficientMaxFeePerGasError, InvalidBlobVersionedHashError, NoBlobDataError, PriorityFeeGreaterThanMaxFeeError, TransactionTypeContractCreationError
#: prague..osaka
from .fork_types import Account, Address, Authorization, VersionedHash
from .requests import CONSOLIDATION_REQUEST_TYPE, DEPOSIT_REQUEST_TYPE, WITHDRAWAL_REQUEST_TYPE, compute_requests_hash, parse_deposit_requests
#: cancun..osaka
from .state import State, TransientStorage, account_exists_and_is_empty, destroy_account, get_account, increment_nonce, modify_state, set_account_balance, state_root
#: cancun
from .transactions import AccessListTransaction, BlobTransaction, FeeMarketTransaction, LegacyTransaction, Transaction, decode_transaction, encode_transaction, get_transaction_hash, recover_sender, validate_transaction
#: prague..osaka
from .transactions import AccessListTransaction, BlobTransaction, FeeMarketTransaction, LegacyTransaction, SetCodeTransaction, Transaction, decode_transaction, encode_transaction, get_transaction_hash, recover_sender, validate_transaction
#: frontier..osaka
from .trie import root, trie_set
#: cancun..osaka
from .utils.hexadecimal import hex_to_address
#: frontier..osaka
from .utils.message import prepare_message
#: frontier..shanghai
from .vm.interpreter import process_message_call
#: frontier..spurious_dragon
BLOCK_REWARD = U256(5 * 10 ** 18)
#: byzantium
BLOCK_REWARD = U256(3 * 10 ** 18)
#: constantinople..gray_glacier
BLOCK_REWARD = U256(2 * 10 ** 18)
#: cancun..osaka
from .vm import Message
#: prague..osaka
from .vm.eoa_delegation import is_valid_delegation
#: cancun..osaka
from .vm.gas import calculate_blob_gas_price, calculate_data_fee, calculate_excess_blob_gas, calculate_total_blob_gas
from .vm.interpreter import MessageCallOutput, process_message_call
#: london..osaka
BASE_FEE_MAX_CHANGE_DENOMINATOR = Uint(8)
ELASTICITY_MULTIPLIER = Uint(2)
#: frontier..osaka
GAS_LIMIT_ADJUSTMENT_FACTOR = Uint(1024)
GAS_LIMIT_MINIMUM = Uint(5000)
#: frontier..gray_glacier
MINIMUM_DIFFICULTY = Uint(131072)
#: london
INITIAL_BASE_FEE = Uint(1000000000)
#: frontier..gray_glacier
MAX_OMMER_DEPTH = Uint(6)
#: byzantium
BOMB_DELAY_BLOCKS = 3000000
#: constantinople..istanbul
BOMB_DELAY_BLOCKS = 5000000
#: muir_glacier..berlin
BOMB_DELAY_BLOCKS = 9000000
#: london
BOMB_DELAY_BLOCKS = 9700000
#: arrow_glacier
BOMB_DELAY_BLOCKS = 10700000
#: gray_glacier
BOMB_DELAY_BLOCKS = 11400000
#: byzantium..osaka
EMPTY_OMMER_HASH = keccak256(rlp.encode([]))
#: cancun..osaka
SYSTEM_ADDRESS = hex_to_address('0xfffffffffffffffffffffffffffffffffffffffe')
BEACON_ROOTS_ADDRESS = hex_to_address('0x000F3df6D732807Ef1319fB7B8bB8522d0Beac02')
SYSTEM_TRANSACTION_GAS = Uint(30000000)
#: cancun
MAX_BLOB_GAS_PER_BLOCK = U64(786432)
#: prague..osaka
MAX_BLOB_GAS_PER_BLOCK = U64(1179648)
#: cancun..osaka
VERSIONED_HASH_VERSION_KZG = b'\x01'
#: prague..osaka
WITHDRAWAL_REQUEST_PREDEPLOY_ADDRESS = hex_to_address('0x00000961Ef480Eb55e80D19ad83579A64c007002')
CONSOLIDATION_REQUEST_PREDEPLOY_ADDRESS = hex_to_address('0x0000BBdDc7CE488642fb579F8B00f3a590007251')
HISTORY_STORAGE_ADDRESS = hex_to_address('0x0000F90827F1C53a10cb7A02335B175320002935')
#: osaka
MAX_BLOCK_SIZE = 10485760
SAFETY_MARGIN = 2097152
MAX_RLP_BLOCK_SIZE = MAX_BLOCK_SIZE - SAFETY_MARGIN
BLOB_COUNT_LIMIT = 6
#: frontier..osaka
@dataclass
class BlockChain:
    blocks: List[Block]
    state: State
    chain_id: U64
#: frontier..homestead,tangerine_whistle..osaka
def apply_fork(old: BlockChain) -> BlockChain:
    return old
#: dao_fork
def apply_fork(old: BlockChain) -> BlockChain:
    apply_dao(old.state)
    return old
#: frontier..osaka
def get_last_256_block_hashes(chain: BlockChain) -> List[Hash32]:
    recent_blocks = chain.blocks[-255:]
    if len(recent_blocks) == 0:
        return []
    recent_block_hashes = []
    for block in recent_blocks:
        prev_block_hash = block.header.parent_hash
        recent_block_hashes.append(prev_block_hash)
    most_recent_block_hash = keccak256(rlp.encode(recent_blocks[-1].header))
    recent_block_hashes.append(most_recent_block_hash)
    return recent_block_hashes
#: frontier..berlin
def state_transition(chain: BlockChain, block: Block) -> None:
    validate_header(chain, block.header)
    validate_ommers(block.ommers, block.header, chain)
    block_env = vm.BlockEnvironment(chain_id=chain.chain_id, state=chain.state, block_gas_limit=block.header.gas_limit, block_hashes=get_last_256_block_hashes(chain), coinbase=block.header.coinbase, number=block.header.number, time=block.header.timestamp, difficulty=block.header.difficulty)
    block_output = apply_body(block_env=block_env, transactions=block.transactions, ommers=block.ommers)
    block_state_root = state_root(block_env.state)
    transactions_root = root(block_output.transactions_trie)
    receipt_root = root(block_output.receipts_trie)
    block_logs_bloom = logs_bloom(block_output.block_logs)
    if block_output.block_gas_used != block.header.gas_used:
        raise InvalidBlock(f'{block_output.block_gas_used} != {block.header.gas_used}')
    if transactions_root != block.header.transactions_root:
        raise InvalidBlock
    if block_state_root != block.header.state_root:
        raise InvalidBlock
    if receipt_root != block.header.receipt_root:
        raise InvalidBlock
    if block_logs_bloom != block.header.bloom:
        raise InvalidBlock
    chain.blocks.append(block)
    if len(chain.blocks) > 255:
        chain.blocks = chain.blocks[-255:]
#: frontier..homestead,tangerine_whistle..spurious_dragon
def validate_header(chain: BlockChain, header: Header) -> None:
    if header.number < Uint(1):
        raise InvalidBlock
    parent_header_number = header.number - Uint(1)
    first_block_number = chain.blocks[0].header.number
    last_block_number = chain.blocks[-1].header.number
    if parent_header_number < first_block_number or parent_header_number > last_block_number:
        raise InvalidBlock
    parent_header = chain.blocks[parent_header_number - first_block_number].header
    if header.gas_used > header.gas_limit:
        raise InvalidBlock
    if header.timestamp <= parent_header.timestamp:
        raise InvalidBlock
    if header.number != parent_header.number + Uint(1):
        raise InvalidBlock
    if not check_gas_limit(header.gas_limit, parent_header.gas_limit):
        raise InvalidBlock
    if len(header.extra_data) > 32:
        raise InvalidBlock
    block_difficulty = calculate_block_difficulty(header.number, header.timestamp, parent_header.timestamp, parent_header.difficulty)
    if header.difficulty != block_difficulty:
        raise InvalidBlock
    block_parent_hash = keccak256(rlp.encode(parent_header))
    if header.parent_hash != block_parent_hash:
        raise InvalidBlock
    validate_proof_of_work(header)
#: dao_fork
def validate_header(chain: BlockChain, header: Header) -> None:
    if header.number < Uint(1):
        raise InvalidBlock
    parent_header_number = header.number - Uint(1)
    first_block_number = chain.blocks[0].header.number
    last_block_number = chain.blocks[-1].header.number
    if parent_header_number < first_block_number or parent_header_number > last_block_number:
        raise InvalidBlock
    parent_header = chain.blocks[parent_header_number - first_block_number].header
    if header.gas_used > header.gas_limit:
        raise InvalidBlock
    if header.timestamp <= parent_header.timestamp:
        raise InvalidBlock
    if header.number != parent_header.number + Uint(1):
        raise InvalidBlock
    if not check_gas_limit(header.gas_limit, parent_header.gas_limit):
        raise InvalidBlock
    if len(header.extra_data) > 32:
        raise InvalidBlock
    block_difficulty = calculate_block_difficulty(header.number, header.timestamp, parent_header.timestamp, parent_header.difficulty)
    if header.difficulty != block_difficulty:
        raise InvalidBlock
    block_parent_hash = keccak256(rlp.encode(parent_header))
    if header.parent_hash != block_parent_hash:
        raise InvalidBlock
    if header.number >= FORK_CRITERIA.block_number and header.number < FORK_CRITERIA.block_number + Uint(10):
        if header.extra_data != b'dao-hard-fork':
            raise InvalidBlock
    validate_proof_of_work(header)
#: byzantium..berlin
def validate_header(chain: BlockChain, header: Header) -> None:
    if header.number < Uint(1):
        raise InvalidBlock
    parent_header_number = header.number - Uint(1)
    first_block_number = chain.blocks[0].header.number
    last_block_number = chain.blocks[-1].header.number
    if parent_header_number < first_block_number or parent_header_number > last_block_number:
        raise InvalidBlock
    parent_header = chain.blocks[parent_header_number - first_block_number].header
    if header.gas_used > header.gas_limit:
        raise InvalidBlock
    parent_has_ommers = parent_header.ommers_hash != EMPTY_OMMER_HASH
    if header.timestamp <= parent_header.timestamp:
        raise InvalidBlock
    if header.number != parent_header.number + Uint(1):
        raise InvalidBlock
    if not check_gas_limit(header.gas_limit, parent_header.gas_limit):
        raise InvalidBlock
    if len(header.extra_data) > 32:
        raise InvalidBlock
    block_difficulty = calculate_block_difficulty(header.number, header.timestamp, parent_header.timestamp, parent_header.difficulty, parent_has_ommers)
    if header.difficulty != block_difficulty:
        raise InvalidBlock
    block_parent_hash = keccak256(rlp.encode(parent_header))
    if header.parent_hash != block_parent_hash:
        raise InvalidBlock
    validate_proof_of_work(header)
#: frontier..berlin
def generate_header_hash_for_pow(header: Header) -> Hash32:
    header_data_without_pow_artefacts = (header.parent_hash, header.ommers_hash, header.coinbase, header.state_root, header.transactions_root, header.receipt_root, header.bloom, header.difficulty, header.number, header.gas_limit, header.gas_used, header.timestamp, header.extra_data)
    return keccak256(rlp.encode(header_data_without_pow_artefacts))
#: london..gray_glacier
def state_transition(chain: BlockChain, block: Block) -> None:
    validate_header(chain, block.header)
    validate_ommers(block.ommers, block.header, chain)
    block_env = vm.BlockEnvironment(chain_id=chain.chain_id, state=chain.state, block_gas_limit=block.header.gas_limit, block_hashes=get_last_256_block_hashes(chain), coinbase=block.header.coinbase, number=block.header.number, base_fee_per_gas=block.header.base_fee_per_gas, time=block.header.timestamp, difficulty=block.header.difficulty)
    block_output = apply_body(block_env=block_env, transactions=block.transactions, ommers=block.ommers)
    block_state_root = state_root(block_env.state)
    transactions_root = root(block_output.transactions_trie)
    receipt_root = root(block_output.receipts_trie)
    block_logs_bloom = logs_bloom(block_output.block_logs)
    if block_output.block_gas_used != block.header.gas_used:
        raise InvalidBlock(f'{block_output.block_gas_used} != {block.header.gas_used}')
    if transactions_root != block.header.transactions_root:
        raise InvalidBlock
    if block_state_root != block.header.state_root:
        raise InvalidBlock
    if receipt_root != block.header.receipt_root:
        raise InvalidBlock
    if block_logs_bloom != block.header.bloom:
        raise InvalidBlock
    chain.blocks.append(block)
    if len(chain.blocks) > 255:
        chain.blocks = chain.blocks[-255:]
#: paris
def state_transition(chain: BlockChain, block: Block) -> None:
    validate_header(chain, block.header)
    if block.ommers != ():
        raise InvalidBlock
    block_env = vm.BlockEnvironment(chain_id=chain.chain_id, state=chain.state, block_gas_limit=block.header.gas_limit, block_hashes=get_last_256_block_hashes(chain), coinbase=block.header.coinbase, number=block.header.number, base_fee_per_gas=block.header.base_fee_per_gas, time=block.header.timestamp, prev_randao=block.header.prev_randao)
    block_output = apply_body(block_env=block_env, transactions=block.transactions)
    block_state_root = state_root(block_env.state)
    transactions_root = root(block_output.transactions_trie)
    receipt_root = root(block_output.receipts_trie)
    block_logs_bloom = logs_bloom(block_output.block_logs)
    if block_output.block_gas_used != block.header.gas_used:
        raise InvalidBlock(f'{block_output.block_gas_used} != {block.header.gas_used}')
    if transactions_root != block.header.transactions_root:
        raise InvalidBlock
    if block_state_root != block.header.state_root:
        raise InvalidBlock
    if receipt_root != block.header.receipt_root:
        raise InvalidBlock
    if block_logs_bloom != block.header.bloom:
        raise InvalidBlock
    chain.blocks.append(block)
    if len(chain.blocks) > 255:
        chain.blocks = chain.blocks[-255:]
#: shanghai
def state_transition(chain: BlockChain, block: Block) -> None:
    validate_header(chain, block.header)
    if block.ommers != ():
        raise InvalidBlock
    block_env = vm.BlockEnvironment(chain_id=chain.chain_id, state=chain.state, block_gas_limit=block.header.gas_limit, block_hashes=get_last_256_block_hashes(chain), coinbase=block.header.coinbase, number=block.header.number, base_fee_per_gas=block.header.base_fee_per_gas, time=block.header.timestamp, prev_randao=block.header.prev_randao)
    block_output = apply_body(block_env=block_env, transactions=block.transactions, withdrawals=block.withdrawals)
    block_state_root = state_root(block_env.state)
    transactions_root = root(block_output.transactions_trie)
    receipt_root = root(block_output.receipts_trie)
    block_logs_bloom = logs_bloom(block_output.block_logs)
    withdrawals_root = root(block_output.withdrawals_trie)
    if block_output.block_gas_used != block.header.gas_used:
        raise InvalidBlock(f'{block_output.block_gas_used} != {block.header.gas_used}')
    if transactions_root != block.header.transactions_root:
        raise InvalidBlock
    if block_state_root != block.header.state_root:
        raise InvalidBlock
    if receipt_root != block.header.receipt_root:
        raise InvalidBlock
    if block_logs_bloom != block.header.bloom:
        raise InvalidBlock
    if withdrawals_root != block.header.withdrawals_root:
        raise InvalidBlock
    chain.blocks.append(block)
    if len(chain.blocks) > 255:
        chain.blocks = chain.blocks[-255:]
#: cancun
def state_transition(chain: BlockChain, block: Block) -> None:
    validate_header(chain, block.header)
    if block.ommers != ():
        raise InvalidBlock
    block_env = vm.BlockEnvironment(chain_id=chain.chain_id, state=chain.state, block_gas_limit=block.header.gas_limit, block_hashes=get_last_256_block_hashes(chain), coinbase=block.header.coinbase, number=block.header.number, base_fee_per_gas=block.header.base_fee_per_gas, time=block.header.timestamp, prev_randao=block.header.prev_randao, excess_blob_gas=block.header.excess_blob_gas, parent_beacon_block_root=block.header.parent_beacon_block_root)
    block_output = apply_body(block_env=block_env, transactions=block.transactions, withdrawals=block.withdrawals)
    block_state_root = state_root(block_env.state)
    transactions_root = root(block_output.transactions_trie)
    receipt_root = root(block_output.receipts_trie)
    block_logs_bloom = logs_bloom(block_output.block_logs)
    withdrawals_root = root(block_output.withdrawals_trie)
    if block_output.block_gas_used != block.header.gas_used:
        raise InvalidBlock(f'{block_output.block_gas_used} != {block.header.gas_used}')
    if transactions_root != block.header.transactions_root:
        raise InvalidBlock
    if block_state_root != block.header.state_root:
        raise InvalidBlock
    if receipt_root != block.header.receipt_root:
        raise InvalidBlock
    if block_logs_bloom != block.header.bloom:
        raise InvalidBlock
    if withdrawals_root != block.header.withdrawals_root:
        raise InvalidBlock
    if block_output.blob_gas_used != block.header.blob_gas_used:
        raise InvalidBlock
    chain.blocks.append(block)
    if len(chain.blocks) > 255:
        chain.blocks = chain.blocks[-255:]
#: prague
def state_transition(chain: BlockChain, block: Block) -> None:
    validate_header(chain, block.header)
    if block.ommers != ():
        raise InvalidBlock
    block_env = vm.BlockEnvironment(chain_id=chain.chain_id, state=chain.state, block_gas_limit=block.header.gas_limit, block_hashes=get_last_256_block_hashes(chain), coinbase=block.header.coinbase, number=block.header.number, base_fee_per_gas=block.header.base_fee_per_gas, time=block.header.timestamp, prev_randao=block.header.prev_randao, excess_blob_gas=block.header.excess_blob_gas, parent_beacon_block_root=block.header.parent_beacon_block_root)
    block_output = apply_body(block_env=block_env, transactions=block.transactions, withdrawals=block.withdrawals)
    block_state_root = state_root(block_env.state)
    transactions_root = root(block_output.transactions_trie)
    receipt_root = root(block_output.receipts_trie)
    block_logs_bloom = logs_bloom(block_output.block_logs)
    withdrawals_root = root(block_output.withdrawals_trie)
    requests_hash = compute_requests_hash(block_output.requests)
    if block_output.block_gas_used != block.header.gas_used:
        raise InvalidBlock(f'{block_output.block_gas_used} != {block.header.gas_used}')
    if transactions_root != block.header.transactions_root:
        raise InvalidBlock
    if block_state_root != block.header.state_root:
        raise InvalidBlock
    if receipt_root != block.header.receipt_root:
        raise InvalidBlock
    if block_logs_bloom != block.header.bloom:
        raise InvalidBlock
    if withdrawals_root != block.header.withdrawals_root:
        raise InvalidBlock
    if block_output.blob_gas_used != block.header.blob_gas_used:
        raise InvalidBlock
    if requests_hash != block.header.requests_hash:
        raise InvalidBlock
    chain.blocks.append(block)
    if len(chain.blocks) > 255:
        chain.blocks = chain.blocks[-255:]
#: osaka
def state_transition(chain: BlockChain, block: Block) -> None:
    if len(rlp.encode(block)) > MAX_RLP_BLOCK_SIZE:
        raise InvalidBlock('Block rlp size exceeds MAX_RLP_BLOCK_SIZE')
    validate_header(chain, block.header)
    if block.ommers != ():
        raise InvalidBlock
    block_env = vm.BlockEnvironment(chain_id=chain.chain_id, state=chain.state, block_gas_limit=block.header.gas_limit, block_hashes=get_last_256_block_hashes(chain), coinbase=block.header.coinbase, number=block.header.number, base_fee_per_gas=block.header.base_fee_per_gas, time=block.header.timestamp, prev_randao=block.header.prev_randao, excess_blob_gas=block.header.excess_blob_gas, parent_beacon_block_root=block.header.parent_beacon_block_root)
    block_output = apply_body(block_env=block_env, transactions=block.transactions, withdrawals=block.withdrawals)
    block_state_root = state_root(block_env.state)
    transactions_root = root(block_output.transactions_trie)
    receipt_root = root(block_output.receipts_trie)
    block_logs_bloom = logs_bloom(block_output.block_logs)
    withdrawals_root = root(block_output.withdrawals_trie)
    requests_hash = compute_requests_hash(block_output.requests)
    if block_output.block_gas_used != block.header.gas_used:
        raise InvalidBlock(f'{block_output.block_gas_used} != {block.header.gas_used}')
    if transactions_root != block.header.transactions_root:
        raise InvalidBlock
    if block_state_root != block.header.state_root:
        raise InvalidBlock
    if receipt_root != block.header.receipt_root:
        raise InvalidBlock
    if block_logs_bloom != block.header.bloom:
        raise InvalidBlock
    if withdrawals_root != block.header.withdrawals_root:
        raise InvalidBlock
    if block_output.blob_gas_used != block.header.blob_gas_used:
        raise InvalidBlock
    if requests_hash != block.header.requests_hash:
        raise InvalidBlock
    chain.blocks.append(block)
    if len(chain.blocks) > 255:
        chain.blocks = chain.blocks[-255:]
#: london..osaka
def calculate_base_fee_per_gas(block_gas_limit: Uint, parent_gas_limit: Uint, parent_gas_used: Uint, parent_base_fee_per_gas: Uint) -> Uint:
    parent_gas_target = parent_gas_limit // ELASTICITY_MULTIPLIER
    if not check_gas_limit(block_gas_limit, parent_gas_limit):
        raise InvalidBlock
    if parent_gas_used == parent_gas_target:
        expected_base_fee_per_gas = parent_base_fee_per_gas
    elif parent_gas_used > parent_gas_target:
        gas_used_delta = parent_gas_used - parent_gas_target
        parent_fee_gas_delta = parent_base_fee_per_gas * gas_used_delta
        target_fee_gas_delta = parent_fee_gas_delta // parent_gas_target
        base_fee_per_gas_delta = max(target_fee_gas_delta // BASE_FEE_MAX_CHANGE_DENOMINATOR, Uint(1))
        expected_base_fee_per_gas = parent_base_fee_per_gas + base_fee_per_gas_delta
    else:
        gas_used_delta = parent_gas_target - parent_gas_used
        parent_fee_gas_delta = parent_base_fee_per_gas * gas_used_delta
        target_fee_gas_delta = parent_fee_gas_delta // parent_gas_target
        base_fee_per_gas_delta = target_fee_gas_delta // BASE_FEE_MAX_CHANGE_DENOMINATOR
        expected_base_fee_per_gas = parent_base_fee_per_gas - base_fee_per_gas_delta
    return Uint(expected_base_fee_per_gas)
#: london
def validate_header(chain: BlockChain, header: Header) -> None:
    if header.number < Uint(1):
        raise InvalidBlock
    parent_header_number = header.number - Uint(1)
    first_block_number = chain.blocks[0].header.number
    last_block_number = chain.blocks[-1].header.number
    if parent_header_number < first_block_number or parent_header_number > last_block_number:
        raise InvalidBlock
    parent_header = chain.blocks[parent_header_number - first_block_number].header
    if header.gas_used > header.gas_limit:
        raise InvalidBlock
    expected_base_fee_per_gas = INITIAL_BASE_FEE
    if header.number != FORK_CRITERIA.block_number:
        expected_base_fee_per_gas = calculate_base_fee_per_gas(header.gas_limit, parent_header.gas_limit, parent_header.gas_used, parent_header.base_fee_per_gas)
    elif not check_gas_limit(header.gas_limit, parent_header.gas_limit * ELASTICITY_MULTIPLIER):
        raise InvalidBlock
    if expected_base_fee_per_gas != header.base_fee_per_gas:
        raise InvalidBlock
    parent_has_ommers = parent_header.ommers_hash != EMPTY_OMMER_HASH
    if header.timestamp <= parent_header.timestamp:
        raise InvalidBlock
    if header.number != parent_header.number + Uint(1):
        raise InvalidBlock
    if len(header.extra_data) > 32:
        raise InvalidBlock
    block_difficulty = calculate_block_difficulty(header.number, header.timestamp, parent_header.timestamp, parent_header.difficulty, parent_has_ommers)
    if header.difficulty != block_difficulty:
        raise InvalidBlock
    block_parent_hash = keccak256(rlp.encode(parent_header))
    if header.parent_hash != block_parent_hash:
        raise InvalidBlock
    validate_proof_of_work(header)
#: arrow_glacier..gray_glacier
def validate_header(chain: BlockChain, header: Header) -> None:
    if header.number < Uint(1):
        raise InvalidBlock
    parent_header_number = header.number - Uint(1)
    first_block_number = chain.blocks[0].header.number
    last_block_number = chain.blocks[-1].header.number
    if parent_header_number < first_block_number or parent_header_number > last_block_number:
        raise InvalidBlock
    parent_header = chain.blocks[parent_header_number - first_block_number].header
    if header.gas_used > header.gas_limit:
        raise InvalidBlock
    expected_base_fee_per_gas = calculate_base_fee_per_gas(header.gas_limit, parent_header.gas_limit, parent_header.gas_used, parent_header.base_fee_per_gas)
    if expected_base_fee_per_gas != header.base_fee_per_gas:
        raise InvalidBlock
    parent_has_ommers = parent_header.ommers_hash != EMPTY_OMMER_HASH
    if header.timestamp <= parent_header.timestamp:
        raise InvalidBlock
    if header.number != parent_header.number + Uint(1):
        raise InvalidBlock
    if len(header.extra_data) > 32:
        raise InvalidBlock
    block_difficulty = calculate_block_difficulty(header.number, header.timestamp, parent_header.timestamp, parent_header.difficulty, parent_has_ommers)
    if header.difficulty != block_difficulty:
        raise InvalidBlock
    block_parent_hash = keccak256(rlp.encode(parent_header))
    if header.parent_hash != block_parent_hash:
        raise InvalidBlock
    validate_proof_of_work(header)
#: london..gray_glacier
def generate_header_hash_for_pow(header: Header) -> Hash32:
    header_data_without_pow_artefacts = (header.parent_hash, header.ommers_hash, header.coinbase, header.state_root, header.transactions_root, header.receipt_root, header.bloom, header.difficulty, header.number, header.gas_limit, header.gas_used, header.timestamp, header.extra_data, header.base_fee_per_gas)
    return keccak256(rlp.encode(header_data_without_pow_artefacts))
#: frontier..gray_glacier
def validate_proof_of_work(header: Header) -> None:
    header_hash = generate_header_hash_for_pow(header)
    cache = generate_cache(header.number)
    mix_digest, result = hashimoto_light(header_hash, header.nonce, cache, dataset_size(header.number))
    if mix_digest != header.mix_digest:
        raise InvalidBlock
    limit = Uint(U256.MAX_VALUE) + Uint(1)
    if Uint.from_be_bytes(result) > limit // header.difficulty:
        raise InvalidBlock
#: frontier..tangerine_whistle
def check_transaction(block_env: vm.BlockEnvironment, block_output: vm.BlockOutput, tx: Transaction) -> Address:
    gas_available = block_env.block_gas_limit - block_output.block_gas_used
    if tx.gas > gas_available:
        raise GasUsedExceedsLimitError('gas used exceeds limit')
    sender_address = recover_sender(tx)
    sender_account = get_account(block_env.state, sender_address)
    max_gas_fee = tx.gas * tx.gas_price
    if sender_account.nonce > Uint(tx.nonce):
        raise NonceMismatchError('nonce too low')
    elif sender_account.nonce < Uint(tx.nonce):
        raise NonceMismatchError('nonce too high')
    if Uint(sender_account.balance) < max_gas_fee + Uint(tx.value):
        raise InsufficientBalanceError('insufficient sender balance')
    if sender_account.code:
        raise InvalidSenderError('not EOA')
    return sender_address
#: spurious_dragon..berlin
def check_transaction(block_env: vm.BlockEnvironment, block_output: vm.BlockOutput, tx: Transaction) -> Address:
    gas_available = block_env.block_gas_limit - block_output.block_gas_used
    if tx.gas > gas_available:
        raise GasUsedExceedsLimitError('gas used exceeds limit')
    sender_address = recover_sender(block_env.chain_id, tx)
    sender_account = get_account(block_env.state, sender_address)
    max_gas_fee = tx.gas * tx.gas_price
    if sender_account.nonce > Uint(tx.nonce):
        raise NonceMismatchError('nonce too low')
    elif sender_account.nonce < Uint(tx.nonce):
        raise NonceMismatchError('nonce too high')
    if Uint(sender_account.balance) < max_gas_fee + Uint(tx.value):
        raise InsufficientBalanceError('insufficient sender balance')
    if sender_account.code:
        raise InvalidSenderError('not EOA')
    return sender_address
#: frontier..spurious_dragon
def make_receipt(post_state: Bytes32, cumulative_gas_used: Uint, logs: Tuple[Log, ...]) -> Receipt:
    receipt = Receipt(post_state=post_state, cumulative_gas_used=cumulative_gas_used, bloom=logs_bloom(logs), logs=logs)
    return receipt
#: byzantium..muir_glacier
def make_receipt(error: Optional[EthereumException], cumulative_gas_used: Uint, logs: Tuple[Log, ...]) -> Receipt:
    receipt = Receipt(succeeded=error is None, cumulative_gas_used=cumulative_gas_used, bloom=logs_bloom(logs), logs=logs)
    return receipt
#: frontier..muir_glacier
def apply_body(block_env: vm.BlockEnvironment, transactions: Tuple[Transaction, ...], ommers: Tuple[Header, ...]) -> vm.BlockOutput:
    block_output = vm.BlockOutput()
    for i, tx in enumerate(transactions):
        process_transaction(block_env, block_output, tx, Uint(i))
    pay_rewards(block_env.state, block_env.number, block_env.coinbase, ommers)
    return block_output
#: paris..shanghai
def validate_header(chain: BlockChain, header: Header) -> None:
    if header.number < Uint(1):
        raise InvalidBlock
    parent_header = chain.blocks[-1].header
    if header.gas_used > header.gas_limit:
        raise InvalidBlock
    expected_base_fee_per_gas = calculate_base_fee_per_gas(header.gas_limit, parent_header.gas_limit, parent_header.gas_used, parent_header.base_fee_per_gas)
    if expected_base_fee_per_gas != header.base_fee_per_gas:
        raise InvalidBlock
    if header.timestamp <= parent_header.timestamp:
        raise InvalidBlock
    if header.number != parent_header.number + Uint(1):
        raise InvalidBlock
    if len(header.extra_data) > 32:
        raise InvalidBlock
    if header.difficulty != 0:
        raise InvalidBlock
    if header.nonce != b'\x00\x00\x00\x00\x00\x00\x00\x00':
        raise InvalidBlock
    if header.ommers_hash != EMPTY_OMMER_HASH:
        raise InvalidBlock
    block_parent_hash = keccak256(rlp.encode(parent_header))
    if header.parent_hash != block_parent_hash:
        raise InvalidBlock
#: london..shanghai
def check_transaction(block_env: vm.BlockEnvironment, block_output: vm.BlockOutput, tx: Transaction) -> Tuple[Address, Uint]:
    gas_available = block_env.block_gas_limit - block_output.block_gas_used
    if tx.gas > gas_available:
        raise GasUsedExceedsLimitError('gas used exceeds limit')
    sender_address = recover_sender(block_env.chain_id, tx)
    sender_account = get_account(block_env.state, sender_address)
    if isinstance(tx, FeeMarketTransaction):
        if tx.max_fee_per_gas < tx.max_priority_fee_per_gas:
            raise PriorityFeeGreaterThanMaxFeeError('priority fee greater than max fee')
        if tx.max_fee_per_gas < block_env.base_fee_per_gas:
            raise InsufficientMaxFeePerGasError(tx.max_fee_per_gas, block_env.base_fee_per_gas)
        priority_fee_per_gas = min(tx.max_priority_fee_per_gas, tx.max_fee_per_gas - block_env.base_fee_per_gas)
        effective_gas_price = priority_fee_per_gas + block_env.base_fee_per_gas
        max_gas_fee = tx.gas * tx.max_fee_per_gas
    else:
        if tx.gas_price < block_env.base_fee_per_gas:
            raise InvalidBlock
        effective_gas_price = tx.gas_price
        max_gas_fee = tx.gas * tx.gas_price
    if sender_account.nonce > Uint(tx.nonce):
        raise NonceMismatchError('nonce too low')
    elif sender_account.nonce < Uint(tx.nonce):
        raise NonceMismatchError('nonce too high')
    if Uint(sender_account.balance) < max_gas_fee + Uint(tx.value):
        raise InsufficientBalanceError('insufficient sender balance')
    if sender_account.code:
        raise InvalidSenderError('not EOA')
    return (sender_address, effective_gas_price)
#: cancun..osaka
def validate_header(chain: BlockChain, header: Header) -> None:
    if header.number < Uint(1):
        raise InvalidBlock
    parent_header = chain.blocks[-1].header
    excess_blob_gas = calculate_excess_blob_gas(parent_header)
    if header.excess_blob_gas != excess_blob_gas:
        raise InvalidBlock
    if header.gas_used > header.gas_limit:
        raise InvalidBlock
    expected_base_fee_per_gas = calculate_base_fee_per_gas(header.gas_limit, parent_header.gas_limit, parent_header.gas_used, parent_header.base_fee_per_gas)
    if expected_base_fee_per_gas != header.base_fee_per_gas:
        raise InvalidBlock
    if header.timestamp <= parent_header.timestamp:
        raise InvalidBlock
    if header.number != parent_header.number + Uint(1):
        raise InvalidBlock
    if len(header.extra_data) > 32:
        raise InvalidBlock
    if header.difficulty != 0:
        raise InvalidBlock
    if header.nonce != b'\x00\x00\x00\x00\x00\x00\x00\x00':
        raise InvalidBlock
    if header.ommers_hash != EMPTY_OMMER_HASH:
        raise InvalidBlock
    block_parent_hash = keccak256(rlp.encode(parent_header))
    if header.parent_hash != block_parent_hash:
        raise InvalidBlock
#: cancun
def check_transaction(block_env: vm.BlockEnvironment, block_output: vm.BlockOutput, tx: Transaction) -> Tuple[Address, Uint, Tuple[VersionedHash, ...], U64]:
    gas_available = block_env.block_gas_limit - block_output.block_gas_used
    blob_gas_available = MAX_BLOB_GAS_PER_BLOCK - block_output.blob_gas_used
    if tx.gas > gas_available:
        raise GasUsedExceedsLimitError('gas used exceeds limit')
    tx_blob_gas_used = calculate_total_blob_gas(tx)
    if tx_blob_gas_used > blob_gas_available:
        raise BlobGasLimitExceededError('blob gas limit exceeded')
    sender_address = recover_sender(block_env.chain_id, tx)
    sender_account = get_account(block_env.state, sender_address)
    if isinstance(tx, (FeeMarketTransaction, BlobTransaction)):
        if tx.max_fee_per_gas < tx.max_priority_fee_per_gas:
            raise PriorityFeeGreaterThanMaxFeeError('priority fee greater than max fee')
        if tx.max_fee_per_gas < block_env.base_fee_per_gas:
            raise InsufficientMaxFeePerGasError(tx.max_fee_per_gas, block_env.base_fee_per_gas)
        priority_fee_per_gas = min(tx.max_priority_fee_per_gas, tx.max_fee_per_gas - block_env.base_fee_per_gas)
        effective_gas_price = priority_fee_per_gas + block_env.base_fee_per_gas
        max_gas_fee = tx.gas * tx.max_fee_per_gas
    else:
        if tx.gas_price < block_env.base_fee_per_gas:
            raise InvalidBlock
        effective_gas_price = tx.gas_price
        max_gas_fee = tx.gas * tx.gas_price
    if isinstance(tx, BlobTransaction):
        if not isinstance(tx.to, Address):
            raise TransactionTypeContractCreationError(tx)
        if len(tx.blob_versioned_hashes) == 0:
            raise NoBlobDataError('no blob data in transaction')
        for blob_versioned_hash in tx.blob_versioned_hashes:
            if blob_versioned_hash[0:1] != VERSIONED_HASH_VERSION_KZG:
                raise InvalidBlobVersionedHashError('invalid blob versioned hash')
        blob_gas_price = calculate_blob_gas_price(block_env.excess_blob_gas)
        if Uint(tx.max_fee_per_blob_gas) < blob_gas_price:
            raise InsufficientMaxFeePerBlobGasError('insufficient max fee per blob gas')
        max_gas_fee += Uint(calculate_total_blob_gas(tx)) * Uint(tx.max_fee_per_blob_gas)
        blob_versioned_hashes = tx.blob_versioned_hashes
    else:
        blob_versioned_hashes = ()
    if sender_account.nonce > Uint(tx.nonce):
        raise NonceMismatchError('nonce too low')
    elif sender_account.nonce < Uint(tx.nonce):
        raise NonceMismatchError('nonce too high')
    if Uint(sender_account.balance) < max_gas_fee + Uint(tx.value):
        raise InsufficientBalanceError('insufficient sender balance')
    if sender_account.code:
        raise InvalidSenderError('not EOA')
    return (sender_address, effective_gas_price, blob_versioned_hashes, tx_blob_gas_used)
#: prague
def check_transaction(block_env: vm.BlockEnvironment, block_output: vm.BlockOutput, tx: Transaction) -> Tuple[Address, Uint, Tuple[VersionedHash, ...], U64]:
    gas_available = block_env.block_gas_limit - block_output.block_gas_used
    blob_gas_available = MAX_BLOB_GAS_PER_BLOCK - block_output.blob_gas_used
    if tx.gas > gas_available:
        raise GasUsedExceedsLimitError('gas used exceeds limit')
    tx_blob_gas_used = calculate_total_blob_gas(tx)
    if tx_blob_gas_used > blob_gas_available:
        raise BlobGasLimitExceededError('blob gas limit exceeded')
    sender_address = recover_sender(block_env.chain_id, tx)
    sender_account = get_account(block_env.state, sender_address)
    if isinstance(tx, (FeeMarketTransaction, BlobTransaction, SetCodeTransaction)):
        if tx.max_fee_per_gas < tx.max_priority_fee_per_gas:
            raise PriorityFeeGreaterThanMaxFeeError('priority fee greater than max fee')
        if tx.max_fee_per_gas < block_env.base_fee_per_gas:
            raise InsufficientMaxFeePerGasError(tx.max_fee_per_gas, block_env.base_fee_per_gas)
        priority_fee_per_gas = min(tx.max_priority_fee_per_gas, tx.max_fee_per_gas - block_env.base_fee_per_gas)
        effective_gas_price = priority_fee_per_gas + block_env.base_fee_per_gas
        max_gas_fee = tx.gas * tx.max_fee_per_gas
    else:
        if tx.gas_price < block_env.base_fee_per_gas:
            raise InvalidBlock
        effective_gas_price = tx.gas_price
        max_gas_fee = tx.gas * tx.gas_price
    if isinstance(tx, BlobTransaction):
        if len(tx.blob_versioned_hashes) == 0:
            raise NoBlobDataError('no blob data in transaction')
        for blob_versioned_hash in tx.blob_versioned_hashes:
            if blob_versioned_hash[0:1] != VERSIONED_HASH_VERSION_KZG:
                raise InvalidBlobVersionedHashError('invalid blob versioned hash')
        blob_gas_price = calculate_blob_gas_price(block_env.excess_blob_gas)
        if Uint(tx.max_fee_per_blob_gas) < blob_gas_price:
            raise InsufficientMaxFeePerBlobGasError('insufficient max fee per blob gas')
        max_gas_fee += Uint(calculate_total_blob_gas(tx)) * Uint(tx.max_fee_per_blob_gas)
        blob_versioned_hashes = tx.blob_versioned_hashes
    else:
        blob_versioned_hashes = ()
    if isinstance(tx, (BlobTransaction, SetCodeTransaction)):
        if not isinstance(tx.to, Address):
            raise TransactionTypeContractCreationError(tx)
    if isinstance(tx, SetCodeTransaction):
        if not any(tx.authorizations):
            raise EmptyAuthorizationListError('empty authorization list')
    if sender_account.nonce > Uint(tx.nonce):
        raise NonceMismatchError('nonce too low')
    elif sender_account.nonce < Uint(tx.nonce):
        raise NonceMismatchError('nonce too high')
    if Uint(sender_account.balance) < max_gas_fee + Uint(tx.value):
        raise InsufficientBalanceError('insufficient sender balance')
    if sender_account.code and (not is_valid_delegation(sender_account.code)):
        raise InvalidSenderError('not EOA')
    return (sender_address, effective_gas_price, blob_versioned_hashes, tx_blob_gas_used)
#: osaka
def check_transaction(block_env: vm.BlockEnvironment, block_output: vm.BlockOutput, tx: Transaction) -> Tuple[Address, Uint, Tuple[VersionedHash, ...], U64]:
    gas_available = block_env.block_gas_limit - block_output.block_gas_used
    blob_gas_available = MAX_BLOB_GAS_PER_BLOCK - block_output.blob_gas_used
    if tx.gas > gas_available:
        raise GasUsedExceedsLimitError('gas used exceeds limit')
    tx_blob_gas_used = calculate_total_blob_gas(tx)
    if tx_blob_gas_used > blob_gas_available:
        raise BlobGasLimitExceededError('blob gas limit exceeded')
    sender_address = recover_sender(block_env.chain_id, tx)
    sender_account = get_account(block_env.state, sender_address)
    if isinstance(tx, (FeeMarketTransaction, BlobTransaction, SetCodeTransaction)):
        if tx.max_fee_per_gas < tx.max_priority_fee_per_gas:
            raise PriorityFeeGreaterThanMaxFeeError('priority fee greater than max fee')
        if tx.max_fee_per_gas < block_env.base_fee_per_gas:
            raise InsufficientMaxFeePerGasError(tx.max_fee_per_gas, block_env.base_fee_per_gas)
        priority_fee_per_gas = min(tx.max_priority_fee_per_gas, tx.max_fee_per_gas - block_env.base_fee_per_gas)
        effective_gas_price = priority_fee_per_gas + block_env.base_fee_per_gas
        max_gas_fee = tx.gas * tx.max_fee_per_gas
    else:
        if tx.gas_price < block_env.base_fee_per_gas:
            raise InvalidBlock
        effective_gas_price = tx.gas_price
        max_gas_fee = tx.gas * tx.gas_price
    if isinstance(tx, BlobTransaction):
        blob_count = len(tx.blob_versioned_hashes)
        if blob_count == 0:
            raise NoBlobDataError('no blob data in transaction')
        if blob_count > BLOB_COUNT_LIMIT:
            raise BlobCountExceededError(f'Tx has {blob_count} blobs. Max allowed: {BLOB_COUNT_LIMIT}')
        for blob_versioned_hash in tx.blob_versioned_hashes:
            if blob_versioned_hash[0:1] != VERSIONED_HASH_VERSION_KZG:
                raise InvalidBlobVersionedHashError('invalid blob versioned hash')
        blob_gas_price = calculate_blob_gas_price(block_env.excess_blob_gas)
        if Uint(tx.max_fee_per_blob_gas) < blob_gas_price:
            raise InsufficientMaxFeePerBlobGasError('insufficient max fee per blob gas')
        max_gas_fee += Uint(calculate_total_blob_gas(tx)) * Uint(tx.max_fee_per_blob_gas)
        blob_versioned_hashes = tx.blob_versioned_hashes
    else:
        blob_versioned_hashes = ()
    if isinstance(tx, (BlobTransaction, SetCodeTransaction)):
        if not isinstance(tx.to, Address):
            raise TransactionTypeContractCreationError(tx)
    if isinstance(tx, SetCodeTransaction):
        if not any(tx.authorizations):
            raise EmptyAuthorizationListError('empty authorization list')
    if sender_account.nonce > Uint(tx.nonce):
        raise NonceMismatchError('nonce too low')
    elif sender_account.nonce < Uint(tx.nonce):
        raise NonceMismatchError('nonce too high')
    if Uint(sender_account.balance) < max_gas_fee + Uint(tx.value):
        raise InsufficientBalanceError('insufficient sender balance')
    if sender_account.code and (not is_valid_delegation(sender_account.code)):
        raise InvalidSenderError('not EOA')
    return (sender_address, effective_gas_price, blob_versioned_hashes, tx_blob_gas_used)
#: berlin..osaka
def make_receipt(tx: Transaction, error: Optional[EthereumException], cumulative_gas_used: Uint, logs: Tuple[Log, ...]) -> Bytes | Receipt:
    receipt = Receipt(succeeded=error is None, cumulative_gas_used=cumulative_gas_used, bloom=logs_bloom(logs), logs=logs)
    return encode_receipt(tx, receipt)
#: berlin..gray_glacier
def apply_body(block_env: vm.BlockEnvironment, transactions: Tuple[LegacyTransaction | Bytes, ...], ommers: Tuple[Header, ...]) -> vm.BlockOutput:
    block_output = vm.BlockOutput()
    for i, tx in enumerate(map(decode_transaction, transactions)):
        process_transaction(block_env, block_output, tx, Uint(i))
    pay_rewards(block_env.state, block_env.number, block_env.coinbase, ommers)
    return block_output
#: frontier..gray_glacier
def validate_ommers(ommers: Tuple[Header, ...], block_header: Header, chain: BlockChain) -> None:
    block_hash = keccak256(rlp.encode(block_header))
    if keccak256(rlp.encode(ommers)) != block_header.ommers_hash:
        raise InvalidBlock
    if len(ommers) == 0:
        return
    for ommer in ommers:
        if Uint(1) > ommer.number or ommer.number >= block_header.number:
            raise InvalidBlock
        validate_header(chain, ommer)
    if len(ommers) > 2:
        raise InvalidBlock
    ommers_hashes = [keccak256(rlp.encode(ommer)) for ommer in ommers]
    if len(ommers_hashes) != len(set(ommers_hashes)):
        raise InvalidBlock
    recent_canonical_blocks = chain.blocks[-(MAX_OMMER_DEPTH + Uint(1)):]
    recent_canonical_block_hashes = {keccak256(rlp.encode(block.header)) for block in recent_canonical_blocks}
    recent_ommers_hashes: Set[Hash32] = set()
    for block in recent_canonical_blocks:
        recent_ommers_hashes = recent_ommers_hashes.union({keccak256(rlp.encode(ommer)) for ommer in block.ommers})
    for ommer_index, ommer in enumerate(ommers):
        ommer_hash = ommers_hashes[ommer_index]
        if ommer_hash == block_hash:
            raise InvalidBlock
        if ommer_hash in recent_canonical_block_hashes:
            raise InvalidBlock
        if ommer_hash in recent_ommers_hashes:
            raise InvalidBlock
        ommer_age = block_header.number - ommer.number
        if Uint(1) > ommer_age or ommer_age > MAX_OMMER_DEPTH:
            raise InvalidBlock
        if ommer.parent_hash not in recent_canonical_block_hashes:
            raise InvalidBlock
        if ommer.parent_hash == block_header.parent_hash:
            raise InvalidBlock
def pay_rewards(state: State, block_number: Uint, coinbase: Address, ommers: Tuple[Header, ...]) -> None:
    ommer_count = U256(len(ommers))
    miner_reward = BLOCK_REWARD + ommer_count * (BLOCK_REWARD // U256(32))
    create_ether(state, coinbase, miner_reward)
    for ommer in ommers:
        ommer_age = U256(block_number - ommer.number)
        ommer_miner_reward = (U256(8) - ommer_age) * BLOCK_REWARD // U256(8)
        create_ether(state, ommer.coinbase, ommer_miner_reward)
#: frontier..tangerine_whistle
def process_transaction(block_env: vm.BlockEnvironment, block_output: vm.BlockOutput, tx: Transaction, index: Uint) -> None:
    trie_set(block_output.transactions_trie, rlp.encode(Uint(index)), tx)
    intrinsic_gas = validate_transaction(tx)
    sender = check_transaction(block_env=block_env, block_output=block_output, tx=tx)
    sender_account = get_account(block_env.state, sender)
    gas = tx.gas - intrinsic_gas
    increment_nonce(block_env.state, sender)
    gas_fee = tx.gas * tx.gas_price
    sender_balance_after_gas_fee = Uint(sender_account.balance) - gas_fee
    set_account_balance(block_env.state, sender, U256(sender_balance_after_gas_fee))
    tx_env = vm.TransactionEnvironment(origin=sender, gas_price=tx.gas_price, gas=gas, index_in_block=index, tx_hash=get_transaction_hash(tx))
    message = prepare_message(block_env, tx_env, tx)
    tx_output = process_message_call(message)
    tx_gas_used_before_refund = tx.gas - tx_output.gas_left
    tx_gas_refund = min(tx_gas_used_before_refund // Uint(2), Uint(tx_output.refund_counter))
    tx_gas_used_after_refund = tx_gas_used_before_refund - tx_gas_refund
    tx_gas_left = tx.gas - tx_gas_used_after_refund
    gas_refund_amount = tx_gas_left * tx.gas_price
    transaction_fee = tx_gas_used_after_refund * tx.gas_price
    sender_balance_after_refund = get_account(block_env.state, sender).balance + U256(gas_refund_amount)
    set_account_balance(block_env.state, sender, sender_balance_after_refund)
    coinbase_balance_after_mining_fee = get_account(block_env.state, block_env.coinbase).balance + U256(transaction_fee)
    set_account_balance(block_env.state, block_env.coinbase, coinbase_balance_after_mining_fee)
    for address in tx_output.accounts_to_delete:
        destroy_account(block_env.state, address)
    block_output.block_gas_used += tx_gas_used_after_refund
    receipt = make_receipt(state_root(block_env.state), block_output.block_gas_used, tx_output.logs)
    receipt_key = rlp.encode(Uint(index))
    block_output.receipt_keys += (receipt_key,)
    trie_set(block_output.receipts_trie, receipt_key, receipt)
    block_output.block_logs += tx_output.logs
#: spurious_dragon
def process_transaction(block_env: vm.BlockEnvironment, block_output: vm.BlockOutput, tx: Transaction, index: Uint) -> None:
    trie_set(block_output.transactions_trie, rlp.encode(Uint(index)), tx)
    intrinsic_gas = validate_transaction(tx)
    sender = check_transaction(block_env=block_env, block_output=block_output, tx=tx)
    sender_account = get_account(block_env.state, sender)
    gas = tx.gas - intrinsic_gas
    increment_nonce(block_env.state, sender)
    gas_fee = tx.gas * tx.gas_price
    sender_balance_after_gas_fee = Uint(sender_account.balance) - gas_fee
    set_account_balance(block_env.state, sender, U256(sender_balance_after_gas_fee))
    tx_env = vm.TransactionEnvironment(origin=sender, gas_price=tx.gas_price, gas=gas, index_in_block=index, tx_hash=get_transaction_hash(tx))
    message = prepare_message(block_env, tx_env, tx)
    tx_output = process_message_call(message)
    tx_gas_used_before_refund = tx.gas - tx_output.gas_left
    tx_gas_refund = min(tx_gas_used_before_refund // Uint(2), Uint(tx_output.refund_counter))
    tx_gas_used_after_refund = tx_gas_used_before_refund - tx_gas_refund
    tx_gas_left = tx.gas - tx_gas_used_after_refund
    gas_refund_amount = tx_gas_left * tx.gas_price
    transaction_fee = tx_gas_used_after_refund * tx.gas_price
    sender_balance_after_refund = get_account(block_env.state, sender).balance + U256(gas_refund_amount)
    set_account_balance(block_env.state, sender, sender_balance_after_refund)
    coinbase_balance_after_mining_fee = get_account(block_env.state, block_env.coinbase).balance + U256(transaction_fee)
    if coinbase_balance_after_mining_fee != 0:
        set_account_balance(block_env.state, block_env.coinbase, coinbase_balance_after_mining_fee)
    elif account_exists_and_is_empty(block_env.state, block_env.coinbase):
        destroy_account(block_env.state, block_env.coinbase)
    for address in tx_output.accounts_to_delete:
        destroy_account(block_env.state, address)
    destroy_touched_empty_accounts(block_env.state, tx_output.touched_accounts)
    block_output.block_gas_used += tx_gas_used_after_refund
    receipt = make_receipt(state_root(block_env.state), block_output.block_gas_used, tx_output.logs)
    receipt_key = rlp.encode(Uint(index))
    block_output.receipt_keys += (receipt_key,)
    trie_set(block_output.receipts_trie, receipt_key, receipt)
    block_output.block_logs += tx_output.logs
#: byzantium..muir_glacier
def process_transaction(block_env: vm.BlockEnvironment, block_output: vm.BlockOutput, tx: Transaction, index: Uint) -> None:
    trie_set(block_output.transactions_trie, rlp.encode(Uint(index)), tx)
    intrinsic_gas = validate_transaction(tx)
    sender = check_transaction(block_env=block_env, block_output=block_output, tx=tx)
    sender_account = get_account(block_env.state, sender)
    gas = tx.gas - intrinsic_gas
    increment_nonce(block_env.state, sender)
    gas_fee = tx.gas * tx.gas_price
    sender_balance_after_gas_fee = Uint(sender_account.balance) - gas_fee
    set_account_balance(block_env.state, sender, U256(sender_balance_after_gas_fee))
    tx_env = vm.TransactionEnvironment(origin=sender, gas_price=tx.gas_price, gas=gas, index_in_block=index, tx_hash=get_transaction_hash(tx))
    message = prepare_message(block_env, tx_env, tx)
    tx_output = process_message_call(message)
    tx_gas_used_before_refund = tx.gas - tx_output.gas_left
    tx_gas_refund = min(tx_gas_used_before_refund // Uint(2), Uint(tx_output.refund_counter))
    tx_gas_used_after_refund = tx_gas_used_before_refund - tx_gas_refund
    tx_gas_left = tx.gas - tx_gas_used_after_refund
    gas_refund_amount = tx_gas_left * tx.gas_price
    transaction_fee = tx_gas_used_after_refund * tx.gas_price
    sender_balance_after_refund = get_account(block_env.state, sender).balance + U256(gas_refund_amount)
    set_account_balance(block_env.state, sender, sender_balance_after_refund)
    coinbase_balance_after_mining_fee = get_account(block_env.state, block_env.coinbase).balance + U256(transaction_fee)
    if coinbase_balance_after_mining_fee != 0:
        set_account_balance(block_env.state, block_env.coinbase, coinbase_balance_after_mining_fee)
    elif account_exists_and_is_empty(block_env.state, block_env.coinbase):
        destroy_account(block_env.state, block_env.coinbase)
    for address in tx_output.accounts_to_delete:
        destroy_account(block_env.state, address)
    destroy_touched_empty_accounts(block_env.state, tx_output.touched_accounts)
    block_output.block_gas_used += tx_gas_used_after_refund
    receipt = make_receipt(tx_output.error, block_output.block_gas_used, tx_output.logs)
    receipt_key = rlp.encode(Uint(index))
    block_output.receipt_keys += (receipt_key,)
    trie_set(block_output.receipts_trie, receipt_key, receipt)
    block_output.block_logs += tx_output.logs
#: berlin
def process_transaction(block_env: vm.BlockEnvironment, block_output: vm.BlockOutput, tx: Transaction, index: Uint) -> None:
    trie_set(block_output.transactions_trie, rlp.encode(index), encode_transaction(tx))
    intrinsic_gas = validate_transaction(tx)
    sender = check_transaction(block_env=block_env, block_output=block_output, tx=tx)
    sender_account = get_account(block_env.state, sender)
    gas = tx.gas - intrinsic_gas
    increment_nonce(block_env.state, sender)
    gas_fee = tx.gas * tx.gas_price
    sender_balance_after_gas_fee = Uint(sender_account.balance) - gas_fee
    set_account_balance(block_env.state, sender, U256(sender_balance_after_gas_fee))
    access_list_addresses = set()
    access_list_storage_keys = set()
    if isinstance(tx, AccessListTransaction):
        for access in tx.access_list:
            access_list_addresses.add(access.account)
            for slot in access.slots:
                access_list_storage_keys.add((access.account, slot))
    tx_env = vm.TransactionEnvironment(origin=sender, gas_price=tx.gas_price, gas=gas, access_list_addresses=access_list_addresses, access_list_storage_keys=access_list_storage_keys, index_in_block=index, tx_hash=get_transaction_hash(encode_transaction(tx)))
    message = prepare_message(block_env, tx_env, tx)
    tx_output = process_message_call(message)
    tx_gas_used_before_refund = tx.gas - tx_output.gas_left
    tx_gas_refund = min(tx_gas_used_before_refund // Uint(2), Uint(tx_output.refund_counter))
    tx_gas_used_after_refund = tx_gas_used_before_refund - tx_gas_refund
    tx_gas_left = tx.gas - tx_gas_used_after_refund
    gas_refund_amount = tx_gas_left * tx.gas_price
    transaction_fee = tx_gas_used_after_refund * tx.gas_price
    sender_balance_after_refund = get_account(block_env.state, sender).balance + U256(gas_refund_amount)
    set_account_balance(block_env.state, sender, sender_balance_after_refund)
    coinbase_balance_after_mining_fee = get_account(block_env.state, block_env.coinbase).balance + U256(transaction_fee)
    if coinbase_balance_after_mining_fee != 0:
        set_account_balance(block_env.state, block_env.coinbase, coinbase_balance_after_mining_fee)
    elif account_exists_and_is_empty(block_env.state, block_env.coinbase):
        destroy_account(block_env.state, block_env.coinbase)
    for address in tx_output.accounts_to_delete:
        destroy_account(block_env.state, address)
    destroy_touched_empty_accounts(block_env.state, tx_output.touched_accounts)
    block_output.block_gas_used += tx_gas_used_after_refund
    receipt = make_receipt(tx, tx_output.error, block_output.block_gas_used, tx_output.logs)
    receipt_key = rlp.encode(Uint(index))
    block_output.receipt_keys += (receipt_key,)
    trie_set(block_output.receipts_trie, receipt_key, receipt)
    block_output.block_logs += tx_output.logs
#: london..gray_glacier
def process_transaction(block_env: vm.BlockEnvironment, block_output: vm.BlockOutput, tx: Transaction, index: Uint) -> None:
    trie_set(block_output.transactions_trie, rlp.encode(index), encode_transaction(tx))
    intrinsic_gas = validate_transaction(tx)
    sender, effective_gas_price = check_transaction(block_env=block_env, block_output=block_output, tx=tx)
    sender_account = get_account(block_env.state, sender)
    effective_gas_fee = tx.gas * effective_gas_price
    gas = tx.gas - intrinsic_gas
    increment_nonce(block_env.state, sender)
    sender_balance_after_gas_fee = Uint(sender_account.balance) - effective_gas_fee
    set_account_balance(block_env.state, sender, U256(sender_balance_after_gas_fee))
    access_list_addresses = set()
    access_list_storage_keys = set()
    if isinstance(tx, (AccessListTransaction, FeeMarketTransaction)):
        for access in tx.access_list:
            access_list_addresses.add(access.account)
            for slot in access.slots:
                access_list_storage_keys.add((access.account, slot))
    tx_env = vm.TransactionEnvironment(origin=sender, gas_price=effective_gas_price, gas=gas, access_list_addresses=access_list_addresses, access_list_storage_keys=access_list_storage_keys, index_in_block=index, tx_hash=get_transaction_hash(encode_transaction(tx)))
    message = prepare_message(block_env, tx_env, tx)
    tx_output = process_message_call(message)
    tx_gas_used_before_refund = tx.gas - tx_output.gas_left
    tx_gas_refund = min(tx_gas_used_before_refund // Uint(5), Uint(tx_output.refund_counter))
    tx_gas_used_after_refund = tx_gas_used_before_refund - tx_gas_refund
    tx_gas_left = tx.gas - tx_gas_used_after_refund
    gas_refund_amount = tx_gas_left * effective_gas_price
    priority_fee_per_gas = effective_gas_price - block_env.base_fee_per_gas
    transaction_fee = tx_gas_used_after_refund * priority_fee_per_gas
    sender_balance_after_refund = get_account(block_env.state, sender).balance + U256(gas_refund_amount)
    set_account_balance(block_env.state, sender, sender_balance_after_refund)
    coinbase_balance_after_mining_fee = get_account(block_env.state, block_env.coinbase).balance + U256(transaction_fee)
    if coinbase_balance_after_mining_fee != 0:
        set_account_balance(block_env.state, block_env.coinbase, coinbase_balance_after_mining_fee)
    elif account_exists_and_is_empty(block_env.state, block_env.coinbase):
        destroy_account(block_env.state, block_env.coinbase)
    for address in tx_output.accounts_to_delete:
        destroy_account(block_env.state, address)
    destroy_touched_empty_accounts(block_env.state, tx_output.touched_accounts)
    block_output.block_gas_used += tx_gas_used_after_refund
    receipt = make_receipt(tx, tx_output.error, block_output.block_gas_used, tx_output.logs)
    receipt_key = rlp.encode(Uint(index))
    block_output.receipt_keys += (receipt_key,)
    trie_set(block_output.receipts_trie, receipt_key, receipt)
    block_output.block_logs += tx_output.logs
#: paris
def apply_body(block_env: vm.BlockEnvironment, transactions: Tuple[LegacyTransaction | Bytes, ...]) -> vm.BlockOutput:
    block_output = vm.BlockOutput()
    for i, tx in enumerate(map(decode_transaction, transactions)):
        process_transaction(block_env, block_output, tx, Uint(i))
    return block_output
def process_transaction(block_env: vm.BlockEnvironment, block_output: vm.BlockOutput, tx: Transaction, index: Uint) -> None:
    trie_set(block_output.transactions_trie, rlp.encode(index), encode_transaction(tx))
    intrinsic_gas = validate_transaction(tx)
    sender, effective_gas_price = check_transaction(block_env=block_env, block_output=block_output, tx=tx)
    sender_account = get_account(block_env.state, sender)
    effective_gas_fee = tx.gas * effective_gas_price
    gas = tx.gas - intrinsic_gas
    increment_nonce(block_env.state, sender)
    sender_balance_after_gas_fee = Uint(sender_account.balance) - effective_gas_fee
    set_account_balance(block_env.state, sender, U256(sender_balance_after_gas_fee))
    access_list_addresses = set()
    access_list_storage_keys = set()
    if isinstance(tx, (AccessListTransaction, FeeMarketTransaction)):
        for access in tx.access_list:
            access_list_addresses.add(access.account)
            for slot in access.slots:
                access_list_storage_keys.add((access.account, slot))
    tx_env = vm.TransactionEnvironment(origin=sender, gas_price=effective_gas_price, gas=gas, access_list_addresses=access_list_addresses, access_list_storage_keys=access_list_storage_keys, index_in_block=index, tx_hash=get_transaction_hash(encode_transaction(tx)))
    message = prepare_message(block_env, tx_env, tx)
    tx_output = process_message_call(message)
    tx_gas_used_before_refund = tx.gas - tx_output.gas_left
    tx_gas_refund = min(tx_gas_used_before_refund // Uint(5), Uint(tx_output.refund_counter))
    tx_gas_used_after_refund = tx_gas_used_before_refund - tx_gas_refund
    tx_gas_left = tx.gas - tx_gas_used_after_refund
    gas_refund_amount = tx_gas_left * effective_gas_price
    priority_fee_per_gas = effective_gas_price - block_env.base_fee_per_gas
    transaction_fee = tx_gas_used_after_refund * priority_fee_per_gas
    sender_balance_after_refund = get_account(block_env.state, sender).balance + U256(gas_refund_amount)
    set_account_balance(block_env.state, sender, sender_balance_after_refund)
    coinbase_balance_after_mining_fee = get_account(block_env.state, block_env.coinbase).balance + U256(transaction_fee)
    if coinbase_balance_after_mining_fee != 0:
        set_account_balance(block_env.state, block_env.coinbase, coinbase_balance_after_mining_fee)
    elif account_exists_and_is_empty(block_env.state, block_env.coinbase):
        destroy_account(block_env.state, block_env.coinbase)
    for address in tx_output.accounts_to_delete:
        destroy_account(block_env.state, address)
    block_output.block_gas_used += tx_gas_used_after_refund
    receipt = make_receipt(tx, tx_output.error, block_output.block_gas_used, tx_output.logs)
    receipt_key = rlp.encode(Uint(index))
    block_output.receipt_keys += (receipt_key,)
    trie_set(block_output.receipts_trie, receipt_key, receipt)
    block_output.block_logs += tx_output.logs
#: shanghai
def apply_body(block_env: vm.BlockEnvironment, transactions: Tuple[LegacyTransaction | Bytes, ...], withdrawals: Tuple[Withdrawal, ...]) -> vm.BlockOutput:
    block_output = vm.BlockOutput()
    for i, tx in enumerate(map(decode_transaction, transactions)):
        process_transaction(block_env, block_output, tx, Uint(i))
    process_withdrawals(block_env, block_output, withdrawals)
    return block_output
def process_transaction(block_env: vm.BlockEnvironment, block_output: vm.BlockOutput, tx: Transaction, index: Uint) -> None:
    trie_set(block_output.transactions_trie, rlp.encode(index), encode_transaction(tx))
    intrinsic_gas = validate_transaction(tx)
    sender, effective_gas_price = check_transaction(block_env=block_env, block_output=block_output, tx=tx)
    sender_account = get_account(block_env.state, sender)
    effective_gas_fee = tx.gas * effective_gas_price
    gas = tx.gas - intrinsic_gas
    increment_nonce(block_env.state, sender)
    sender_balance_after_gas_fee = Uint(sender_account.balance) - effective_gas_fee
    set_account_balance(block_env.state, sender, U256(sender_balance_after_gas_fee))
    access_list_addresses = set()
    access_list_storage_keys = set()
    access_list_addresses.add(block_env.coinbase)
    if isinstance(tx, (AccessListTransaction, FeeMarketTransaction)):
        for access in tx.access_list:
            access_list_addresses.add(access.account)
            for slot in access.slots:
                access_list_storage_keys.add((access.account, slot))
    tx_env = vm.TransactionEnvironment(origin=sender, gas_price=effective_gas_price, gas=gas, access_list_addresses=access_list_addresses, access_list_storage_keys=access_list_storage_keys, index_in_block=index, tx_hash=get_transaction_hash(encode_transaction(tx)))
    message = prepare_message(block_env, tx_env, tx)
    tx_output = process_message_call(message)
    tx_gas_used_before_refund = tx.gas - tx_output.gas_left
    tx_gas_refund = min(tx_gas_used_before_refund // Uint(5), Uint(tx_output.refund_counter))
    tx_gas_used_after_refund = tx_gas_used_before_refund - tx_gas_refund
    tx_gas_left = tx.gas - tx_gas_used_after_refund
    gas_refund_amount = tx_gas_left * effective_gas_price
    priority_fee_per_gas = effective_gas_price - block_env.base_fee_per_gas
    transaction_fee = tx_gas_used_after_refund * priority_fee_per_gas
    sender_balance_after_refund = get_account(block_env.state, sender).balance + U256(gas_refund_amount)
    set_account_balance(block_env.state, sender, sender_balance_after_refund)
    coinbase_balance_after_mining_fee = get_account(block_env.state, block_env.coinbase).balance + U256(transaction_fee)
    if coinbase_balance_after_mining_fee != 0:
        set_account_balance(block_env.state, block_env.coinbase, coinbase_balance_after_mining_fee)
    elif account_exists_and_is_empty(block_env.state, block_env.coinbase):
        destroy_account(block_env.state, block_env.coinbase)
    for address in tx_output.accounts_to_delete:
        destroy_account(block_env.state, address)
    block_output.block_gas_used += tx_gas_used_after_refund
    receipt = make_receipt(tx, tx_output.error, block_output.block_gas_used, tx_output.logs)
    receipt_key = rlp.encode(Uint(index))
    block_output.receipt_keys += (receipt_key,)
    trie_set(block_output.receipts_trie, receipt_key, receipt)
    block_output.block_logs += tx_output.logs
#: cancun
def process_system_transaction(block_env: vm.BlockEnvironment, target_address: Address, system_contract_code: Bytes, data: Bytes) -> MessageCallOutput:
    tx_env = vm.TransactionEnvironment(origin=SYSTEM_ADDRESS, gas_price=block_env.base_fee_per_gas, gas=SYSTEM_TRANSACTION_GAS, access_list_addresses=set(), access_list_storage_keys=set(), transient_storage=TransientStorage(), blob_versioned_hashes=(), index_in_block=None, tx_hash=None)
    system_tx_message = Message(block_env=block_env, tx_env=tx_env, caller=SYSTEM_ADDRESS, target=target_address, gas=SYSTEM_TRANSACTION_GAS, value=U256(0), data=data, code=system_contract_code, depth=Uint(0), current_target=target_address, code_address=target_address, should_transfer_value=False, is_static=False, accessed_addresses=set(), accessed_storage_keys=set(), parent_evm=None)
    system_tx_output = process_message_call(system_tx_message)
    return system_tx_output
#: prague..osaka
def process_system_transaction(block_env: vm.BlockEnvironment, target_address: Address, system_contract_code: Bytes, data: Bytes) -> MessageCallOutput:
    tx_env = vm.TransactionEnvironment(origin=SYSTEM_ADDRESS, gas_price=block_env.base_fee_per_gas, gas=SYSTEM_TRANSACTION_GAS, access_list_addresses=set(), access_list_storage_keys=set(), transient_storage=TransientStorage(), blob_versioned_hashes=(), authorizations=(), index_in_block=None, tx_hash=None)
    system_tx_message = Message(block_env=block_env, tx_env=tx_env, caller=SYSTEM_ADDRESS, target=target_address, gas=SYSTEM_TRANSACTION_GAS, value=U256(0), data=data, code=system_contract_code, depth=Uint(0), current_target=target_address, code_address=target_address, should_transfer_value=False, is_static=False, accessed_addresses=set(), accessed_storage_keys=set(), disable_precompiles=False, parent_evm=None)
    system_tx_output = process_message_call(system_tx_message)
    return system_tx_output
def process_checked_system_transaction(block_env: vm.BlockEnvironment, target_address: Address, data: Bytes) -> MessageCallOutput:
    system_contract_code = get_account(block_env.state, target_address).code
    if len(system_contract_code) == 0:
        raise InvalidBlock(f'System contract address {target_address.hex()} does not contain code')
    system_tx_output = process_system_transaction(block_env, target_address, system_contract_code, data)
    if system_tx_output.error:
        raise InvalidBlock(f'System contract ({target_address.hex()}) call failed: {system_tx_output.error}')
    return system_tx_output
#: cancun..osaka
def process_unchecked_system_transaction(block_env: vm.BlockEnvironment, target_address: Address, data: Bytes) -> MessageCallOutput:
    system_contract_code = get_account(block_env.state, target_address).code
    return process_system_transaction(block_env, target_address, system_contract_code, data)
#: cancun
def apply_body(block_env: vm.BlockEnvironment, transactions: Tuple[LegacyTransaction | Bytes, ...], withdrawals: Tuple[Withdrawal, ...]) -> vm.BlockOutput:
    block_output = vm.BlockOutput()
    process_unchecked_system_transaction(block_env=block_env, target_address=BEACON_ROOTS_ADDRESS, data=block_env.parent_beacon_block_root)
    for i, tx in enumerate(map(decode_transaction, transactions)):
        process_transaction(block_env, block_output, tx, Uint(i))
    process_withdrawals(block_env, block_output, withdrawals)
    return block_output
def process_transaction(block_env: vm.BlockEnvironment, block_output: vm.BlockOutput, tx: Transaction, index: Uint) -> None:
    trie_set(block_output.transactions_trie, rlp.encode(index), encode_transaction(tx))
    intrinsic_gas = validate_transaction(tx)
    sender, effective_gas_price, blob_versioned_hashes, tx_blob_gas_used = check_transaction(block_env=block_env, block_output=block_output, tx=tx)
    sender_account = get_account(block_env.state, sender)
    if isinstance(tx, BlobTransaction):
        blob_gas_fee = calculate_data_fee(block_env.excess_blob_gas, tx)
    else:
        blob_gas_fee = Uint(0)
    effective_gas_fee = tx.gas * effective_gas_price
    gas = tx.gas - intrinsic_gas
    increment_nonce(block_env.state, sender)
    sender_balance_after_gas_fee = Uint(sender_account.balance) - effective_gas_fee - blob_gas_fee
    set_account_balance(block_env.state, sender, U256(sender_balance_after_gas_fee))
    access_list_addresses = set()
    access_list_storage_keys = set()
    access_list_addresses.add(block_env.coinbase)
    if isinstance(tx, (AccessListTransaction, FeeMarketTransaction, BlobTransaction)):
        for access in tx.access_list:
            access_list_addresses.add(access.account)
            for slot in access.slots:
                access_list_storage_keys.add((access.account, slot))
    tx_env = vm.TransactionEnvironment(origin=sender, gas_price=effective_gas_price, gas=gas, access_list_addresses=access_list_addresses, access_list_storage_keys=access_list_storage_keys, transient_storage=TransientStorage(), blob_versioned_hashes=blob_versioned_hashes, index_in_block=index, tx_hash=get_transaction_hash(encode_transaction(tx)))
    message = prepare_message(block_env, tx_env, tx)
    tx_output = process_message_call(message)
    tx_gas_used_before_refund = tx.gas - tx_output.gas_left
    tx_gas_refund = min(tx_gas_used_before_refund // Uint(5), Uint(tx_output.refund_counter))
    tx_gas_used_after_refund = tx_gas_used_before_refund - tx_gas_refund
    tx_gas_left = tx.gas - tx_gas_used_after_refund
    gas_refund_amount = tx_gas_left * effective_gas_price
    priority_fee_per_gas = effective_gas_price - block_env.base_fee_per_gas
    transaction_fee = tx_gas_used_after_refund * priority_fee_per_gas
    sender_balance_after_refund = get_account(block_env.state, sender).balance + U256(gas_refund_amount)
    set_account_balance(block_env.state, sender, sender_balance_after_refund)
    coinbase_balance_after_mining_fee = get_account(block_env.state, block_env.coinbase).balance + U256(transaction_fee)
    if coinbase_balance_after_mining_fee != 0:
        set_account_balance(block_env.state, block_env.coinbase, coinbase_balance_after_mining_fee)
    elif account_exists_and_is_empty(block_env.state, block_env.coinbase):
        destroy_account(block_env.state, block_env.coinbase)
    for address in tx_output.accounts_to_delete:
        destroy_account(block_env.state, address)
    block_output.block_gas_used += tx_gas_used_after_refund
    block_output.blob_gas_used += tx_blob_gas_used
    receipt = make_receipt(tx, tx_output.error, block_output.block_gas_used, tx_output.logs)
    receipt_key = rlp.encode(Uint(index))
    block_output.receipt_keys += (receipt_key,)
    trie_set(block_output.receipts_trie, receipt_key, receipt)
    block_output.block_logs += tx_output.logs
#: prague..osaka
def apply_body(block_env: vm.BlockEnvironment, transactions: Tuple[LegacyTransaction | Bytes, ...], withdrawals: Tuple[Withdrawal, ...]) -> vm.BlockOutput:
    block_output = vm.BlockOutput()
    process_unchecked_system_transaction(block_env=block_env, target_address=BEACON_ROOTS_ADDRESS, data=block_env.parent_beacon_block_root)
    process_unchecked_system_transaction(block_env=block_env, target_address=HISTORY_STORAGE_ADDRESS, data=block_env.block_hashes[-1])
    for i, tx in enumerate(map(decode_transaction, transactions)):
        process_transaction(block_env, block_output, tx, Uint(i))
    process_withdrawals(block_env, block_output, withdrawals)
    process_general_purpose_requests(block_env=block_env, block_output=block_output)
    return block_output
def process_general_purpose_requests(block_env: vm.BlockEnvironment, block_output: vm.BlockOutput) -> None:
    deposit_requests = parse_deposit_requests(block_output)
    requests_from_execution = block_output.requests
    if len(deposit_requests) > 0:
        requests_from_execution.append(DEPOSIT_REQUEST_TYPE + deposit_requests)
    system_withdrawal_tx_output = process_checked_system_transaction(block_env=block_env, target_address=WITHDRAWAL_REQUEST_PREDEPLOY_ADDRESS, data=b'')
    if len(system_withdrawal_tx_output.return_data) > 0:
        requests_from_execution.append(WITHDRAWAL_REQUEST_TYPE + system_withdrawal_tx_output.return_data)
    system_consolidation_tx_output = process_checked_system_transaction(block_env=block_env, target_address=CONSOLIDATION_REQUEST_PREDEPLOY_ADDRESS, data=b'')
    if len(system_consolidation_tx_output.return_data) > 0:
        requests_from_execution.append(CONSOLIDATION_REQUEST_TYPE + system_consolidation_tx_output.return_data)
def process_transaction(block_env: vm.BlockEnvironment, block_output: vm.BlockOutput, tx: Transaction, index: Uint) -> None:
    trie_set(block_output.transactions_trie, rlp.encode(index), encode_transaction(tx))
    intrinsic_gas, calldata_floor_gas_cost = validate_transaction(tx)
    sender, effective_gas_price, blob_versioned_hashes, tx_blob_gas_used = check_transaction(block_env=block_env, block_output=block_output, tx=tx)
    sender_account = get_account(block_env.state, sender)
    if isinstance(tx, BlobTransaction):
        blob_gas_fee = calculate_data_fee(block_env.excess_blob_gas, tx)
    else:
        blob_gas_fee = Uint(0)
    effective_gas_fee = tx.gas * effective_gas_price
    gas = tx.gas - intrinsic_gas
    increment_nonce(block_env.state, sender)
    sender_balance_after_gas_fee = Uint(sender_account.balance) - effective_gas_fee - blob_gas_fee
    set_account_balance(block_env.state, sender, U256(sender_balance_after_gas_fee))
    access_list_addresses = set()
    access_list_storage_keys = set()
    access_list_addresses.add(block_env.coinbase)
    if isinstance(tx, (AccessListTransaction, FeeMarketTransaction, BlobTransaction, SetCodeTransaction)):
        for access in tx.access_list:
            access_list_addresses.add(access.account)
            for slot in access.slots:
                access_list_storage_keys.add((access.account, slot))
    authorizations: Tuple[Authorization, ...] = ()
    if isinstance(tx, SetCodeTransaction):
        authorizations = tx.authorizations
    tx_env = vm.TransactionEnvironment(origin=sender, gas_price=effective_gas_price, gas=gas, access_list_addresses=access_list_addresses, access_list_storage_keys=access_list_storage_keys, transient_storage=TransientStorage(), blob_versioned_hashes=blob_versioned_hashes, authorizations=authorizations, index_in_block=index, tx_hash=get_transaction_hash(encode_transaction(tx)))
    message = prepare_message(block_env, tx_env, tx)
    tx_output = process_message_call(message)
    tx_gas_used_before_refund = tx.gas - tx_output.gas_left
    tx_gas_refund = min(tx_gas_used_before_refund // Uint(5), Uint(tx_output.refund_counter))
    tx_gas_used_after_refund = tx_gas_used_before_refund - tx_gas_refund
    tx_gas_used_after_refund = max(tx_gas_used_after_refund, calldata_floor_gas_cost)
    tx_gas_left = tx.gas - tx_gas_used_after_refund
    gas_refund_amount = tx_gas_left * effective_gas_price
    priority_fee_per_gas = effective_gas_price - block_env.base_fee_per_gas
    transaction_fee = tx_gas_used_after_refund * priority_fee_per_gas
    sender_balance_after_refund = get_account(block_env.state, sender).balance + U256(gas_refund_amount)
    set_account_balance(block_env.state, sender, sender_balance_after_refund)
    coinbase_balance_after_mining_fee = get_account(block_env.state, block_env.coinbase).balance + U256(transaction_fee)
    if coinbase_balance_after_mining_fee != 0:
        set_account_balance(block_env.state, block_env.coinbase, coinbase_balance_after_mining_fee)
    elif account_exists_and_is_empty(block_env.state, block_env.coinbase):
        destroy_account(block_env.state, block_env.coinbase)
    for address in tx_output.accounts_to_delete:
        destroy_account(block_env.state, address)
    block_output.block_gas_used += tx_gas_used_after_refund
    block_output.blob_gas_used += tx_blob_gas_used
    receipt = make_receipt(tx, tx_output.error, block_output.block_gas_used, tx_output.logs)
    receipt_key = rlp.encode(Uint(index))
    block_output.receipt_keys += (receipt_key,)
    trie_set(block_output.receipts_trie, receipt_key, receipt)
    block_output.block_logs += tx_output.logs
#: shanghai..osaka
def process_withdrawals(block_env: vm.BlockEnvironment, block_output: vm.BlockOutput, withdrawals: Tuple[Withdrawal, ...]) -> None:

    def increase_recipient_balance(recipient: Account) -> None:
        recipient.balance += U256(wd.amount) * U256(10 ** 9)
    for i, wd in enumerate(withdrawals):
        trie_set(block_output.withdrawals_trie, rlp.encode(Uint(i)), rlp.encode(wd))
        modify_state(block_env.state, wd.address, increase_recipient_balance)
        if account_exists_and_is_empty(block_env.state, wd.address):
            destroy_account(block_env.state, wd.address)
#: frontier..osaka
def check_gas_limit(gas_limit: Uint, parent_gas_limit: Uint) -> bool:
    max_adjustment_delta = parent_gas_limit // GAS_LIMIT_ADJUSTMENT_FACTOR
    if gas_limit >= parent_gas_limit + max_adjustment_delta:
        return False
    if gas_limit <= parent_gas_limit - max_adjustment_delta:
        return False
    if gas_limit < GAS_LIMIT_MINIMUM:
        return False
    return True
#: frontier
def calculate_block_difficulty(block_number: Uint, block_timestamp: U256, parent_timestamp: U256, parent_difficulty: Uint) -> Uint:
    max_adjustment_delta = parent_difficulty // Uint(2048)
    if block_timestamp < parent_timestamp + U256(13):
        difficulty = parent_difficulty + max_adjustment_delta
    else:
        difficulty = parent_difficulty - max_adjustment_delta
    num_bomb_periods = int(block_number) // 100000 - 2
    if num_bomb_periods >= 0:
        difficulty += 2 ** num_bomb_periods
    return max(difficulty, MINIMUM_DIFFICULTY)
#: homestead..spurious_dragon
def calculate_block_difficulty(block_number: Uint, block_timestamp: U256, parent_timestamp: U256, parent_difficulty: Uint) -> Uint:
    offset = int(parent_difficulty) // 2048 * max(1 - int(block_timestamp - parent_timestamp) // 10, -99)
    difficulty = int(parent_difficulty) + offset
    num_bomb_periods = int(block_number) // 100000 - 2
    if num_bomb_periods >= 0:
        difficulty += 2 ** num_bomb_periods
    return Uint(max(difficulty, int(MINIMUM_DIFFICULTY)))
#: byzantium..gray_glacier
def calculate_block_difficulty(block_number: Uint, block_timestamp: U256, parent_timestamp: U256, parent_difficulty: Uint, parent_has_ommers: bool) -> Uint:
    offset = int(parent_difficulty) // 2048 * max((2 if parent_has_ommers else 1) - int(block_timestamp - parent_timestamp) // 9, -99)
    difficulty = int(parent_difficulty) + offset
    num_bomb_periods = (int(block_number) - BOMB_DELAY_BLOCKS) // 100000 - 2
    if num_bomb_periods >= 0:
        difficulty += 2 ** num_bomb_periods
    return Uint(max(difficulty, int(MINIMUM_DIFFICULTY)))
