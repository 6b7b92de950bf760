#: module frontier..osaka
#: frontier..osaka
from dataclasses import dataclass, field
#: frontier..tangerine_whistle
from typing import Callable, Dict, List, Optional, Tuple
#: spurious_dragon..constantinople
from typing import Callable, Dict, Iterable, List, Optional, Tuple
#: istanbul..gray_glacier
from typing import Callable, Dict, Iterable, List, Optional, Set, Tuple
#: paris..osaka
from typing import Callable, Dict, List, Optional, Set, Tuple
#: frontier..osaka
from ethereum_types.bytes import Bytes, Bytes32
from ethereum_types.frozen import modify
from ethereum_types.numeric import U256, Uint
from .fork_types import EMPTY_ACCOUNT, Account, Address, Root
from .trie import EMPTY_TRIE_ROOT, Trie, copy_trie, root, trie_get, trie_set
#: frontier..constantinople
@dataclass
class State:
    _main_trie: Trie[Address, Optional[Account]] = field(default_factory=lambda: Trie(secured=True, default=None))
    _storage_tries: Dict[Address, Trie[Bytes32, U256]] = field(default_factory=dict)
    _snapshots: List[Tuple[Trie[Address, Optional[Account]], Dict[Address, Trie[Bytes32, U256]]]] = field(default_factory=list)
def close_state(state: State) -> None:
    del state._main_trie
    del state._storage_tries
    del state._snapshots
#: istanbul..osaka
@dataclass
class State:
    _main_trie: Trie[Address, Optional[Account]] = field(default_factory=lambda: Trie(secured=True, default=None))
    _storage_tries: Dict[Address, Trie[Bytes32, U256]] = field(default_factory=dict)
    _snapshots: List[Tuple[Trie[Address, Optional[Account]], Dict[Address, Trie[Bytes32, U256]]]] = field(default_factory=list)
    created_accounts: Set[Address] = field(default_factory=set)
#: cancun..osaka
@dataclass
class TransientStorage:
    _tries: Dict[Address, Trie[Bytes32, U256]] = field(default_factory=dict)
    _snapshots: List[Dict[Address, Trie[Bytes32, U256]]] = field(default_factory=list)
#: istanbul..osaka
def close_state(state: State) -> None:
    del state._main_trie
    del state._storage_tries
    del state._snapshots
    del state.created_accounts
#: frontier..shanghai
def begin_transaction(state: State) -> None:
    state._snapshots.append((copy_trie(state._main_trie), {k: copy_trie(t) for k, t in state._storage_tries.items()}))
#: frontier..constantinople
def commit_transaction(state: State) -> None:
    state._snapshots.pop()
def rollback_transaction(state: State) -> None:
    state._main_trie, state._storage_tries = state._snapshots.pop()
#: istanbul..shanghai
def commit_transaction(state: State) -> None:
    state._snapshots.pop()
    if not state._snapshots:
        state.created_accounts.clear()
def rollback_transaction(state: State) -> None:
    state._main_trie, state._storage_tries = state._snapshots.pop()
    if not state._snapshots:
        state.created_accounts.clear()
#: cancun..osaka
def begin_transaction(state: State, transient_storage: TransientStorage) -> None:
    state._snapshots.append((copy_trie(state._main_trie), {k: copy_trie(t) for k, t in state._storage_tries.items()}))
    transient_storage._snapshots.append({k: copy_trie(t) for k, t in transient_storage._tries.items()})
def commit_transaction(state: State, transient_storage: TransientStorage) -> None:
    state._snapshots.pop()
    if not state._snapshots:
        state.created_accounts.clear()
    transient_storage._snapshots.pop()
def rollback_transaction(state: State, transient_storage: TransientStorage) -> None:
    state._main_trie, state._storage_tries = state._snapshots.pop()
    if not state._snapshots:
        state.created_accounts.clear()
    transient_storage._tries = transient_storage._snapshots.pop()
#: frontier..osaka
def get_account(state: State, address: Address) -> Account:
    account = get_account_optional(state, address)
    if isinstance(account, Account):
        return account
    else:
        return EMPTY_ACCOUNT
def get_account_optional(state: State, address: Address) -> Optional[Account]:
    account = trie_get(state._main_trie, address)
    return account
def set_account(state: State, address: Address, account: Optional[Account]) -> None:
    trie_set(state._main_trie, address, account)
def destroy_account(state: State, address: Address) -> None:
    destroy_storage(state, address)
    set_account(state, address, None)
def destroy_storage(state: State, address: Address) -> None:
    if address in state._storage_tries:
        del state._storage_tries[address]
#: istanbul..osaka
def mark_account_created(state: State, address: Address) -> None:
    state.created_accounts.add(address)
#: frontier..osaka
def get_storage(state: State, address: Address, key: Bytes32) -> U256:
    trie = state._storage_tries.get(address)
    if trie is None:
        return U256(0)
    value = trie_get(trie, key)
    assert isinstance(value, U256)
    return value
def set_storage(state: State, address: Address, key: Bytes32, value: U256) -> None:
    assert trie_get(state._main_trie, address) is not None
    trie = state._storage_tries.get(address)
    if trie is None:
        trie = Trie(secured=True, default=U256(0))
        state._storage_tries[address] = trie
    trie_set(trie, key, value)
    if trie._data == {}:
        del state._storage_tries[address]
def storage_root(state: State, address: Address) -> Root:
    assert not state._snapshots
    if address in state._storage_tries:
        return root(state._storage_tries[address])
    else:
        return EMPTY_TRIE_ROOT
def state_root(state: State) -> Root:
    assert not state._snapshots

    def get_storage_root(address: Address) -> Root:
        return storage_root(state, address)
    return root(state._main_trie, get_storage_root=get_storage_root)
def account_exists(state: State, address: Address) -> bool:
    return get_account_optional(state, address) is not None
def account_has_code_or_nonce(state: State, address: Address) -> bool:
    account = get_account(state, address)
    return account.nonce != Uint(0) or account.code != b''
def account_has_storage(state: State, address: Address) -> bool:
    return address in state._storage_tries
#: spurious_dragon..osaka
def account_exists_and_is_empty(state: State, address: Address) -> bool:
    account = get_account_optional(state, address)
    return account is not None and account.nonce == Uint(0) and (account.code == b'') and (account.balance == 0)
def is_account_alive(state: State, address: Address) -> bool:
    account = get_account_optional(state, address)
    return account is not None and account != EMPTY_ACCOUNT
#: frontier..gray_glacier
def modify_state(state: State, address: Address, f: Callable[[Account], None]) -> None:
    set_account(state, address, modify(get_account(state, address), f))
#: paris..osaka
def modify_state(state: State, address: Address, f: Callable[[Account], None]) -> None:
    set_account(state, address, modify(get_account(state, address), f))
    if account_exists_and_is_empty(state, address):
        destroy_account(state, address)
#: frontier..osaka
def move_ether(state: State, sender_address: Address, recipient_address: Address, amount: U256) -> None:

    def reduce_sender_balance(sender: Account) -> None:
        if sender.balance < amount:
            raise AssertionError
        sender.balance -= amount

    def increase_recipient_balance(recipient: Account) -> None:
        recipient.balance += amount
    modify_state(state, sender_address, reduce_sender_balance)
    modify_state(state, recipient_address, increase_recipient_balance)
def set_account_balance(state: State, address: Address, amount: U256) -> None:

    def set_balance(account: Account) -> None:
        account.balance = amount
    modify_state(state, address, set_balance)
#: frontier..gray_glacier
def touch_account(state: State, address: Address) -> None:
    if not account_exists(state, address):
        set_account(state, address, EMPTY_ACCOUNT)
#: frontier..osaka
def increment_nonce(state: State, address: Address) -> None:

    def increase_nonce(sender: Account) -> None:
        sender.nonce += Uint(1)
    modify_state(state, address, increase_nonce)
def set_code(state: State, address: Address, code: Bytes) -> None:

    def write_code(sender: Account) -> None:
        sender.code = code
    modify_state(state, address, write_code)
#: frontier..gray_glacier
def create_ether(state: State, address: Address, amount: U256) -> None:

    def increase_balance(account: Account) -> None:
        account.balance += amount
    modify_state(state, address, increase_balance)
#: istanbul..osaka
def get_storage_original(state: State, address: Address, key: Bytes32) -> U256:
    if address in state.created_accounts:
        return U256(0)
    _, original_trie = state._snapshots[0]
    original_account_trie = original_trie.get(address)
    if original_account_trie is None:
        original_value = U256(0)
    else:
        original_value = trie_get(original_account_trie, key)
    assert isinstance(original_value, U256)
    return original_value
#: spurious_dragon..gray_glacier
def destroy_touched_empty_accounts(state: State, touched_accounts: Iterable[Address]) -> None:
    for address in touched_accounts:
        if account_exists_and_is_empty(state, address):
            destroy_account(state, address)
#: cancun..osaka
def get_transient_storage(transient_storage: TransientStorage, address: Address, key: Bytes32) -> U256:
    trie = transient_storage._tries.get(address)
    if trie is None:
        return U256(0)
    value = trie_get(trie, key)
    assert isinstance(value, U256)
    return value
def set_transient_storage(transient_storage: TransientStorage, address: Address, key: Bytes32, value: U256) -> None:
    trie = transient_storage._tries.get(address)
    if trie is None:
        trie = Trie(secured=True, default=U256(0))
        transient_storage._tries[address] = trie
    trie_set(trie, key, value)
    if trie._data == {}:
        del transient_storage._tries[address]
