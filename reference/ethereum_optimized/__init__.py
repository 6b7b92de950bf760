from importlib import import_module
from typing import Any, Optional, cast
from ethereum_spec_tools.forks import Hardfork
from .fork import get_optimized_pow_patches
from .state_db import get_optimized_state_patches
def monkey_patch_optimized_state_db(fork_name: str, state_path: Optional[str]) -> None:
    slow_state = cast(Any, import_module('ethereum.' + fork_name + '.state'))
    optimized_state_db_patches = get_optimized_state_patches(fork_name)
    for name, value in optimized_state_db_patches.items():
        setattr(slow_state, name, value)
    if state_path is not None:
        slow_state.State.default_path = state_path
def monkey_patch_optimized_spec(fork_name: str) -> None:
    slow_spec = import_module('ethereum.' + fork_name + '.fork')
    optimized_pow_patches = get_optimized_pow_patches(fork_name)
    for name, value in optimized_pow_patches.items():
        setattr(slow_spec, name, value)
def monkey_patch(state_path: Optional[str]) -> None:
    forks = Hardfork.discover()
    for fork in forks:
        monkey_patch_optimized_state_db(fork.short_name, state_path)
        if fork.consensus.is_pow():
            monkey_patch_optimized_spec(fork.short_name)
