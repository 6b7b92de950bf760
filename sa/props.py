"""Regions: which definitions decide which property.

Names are written with `F.` for any fork package; `*` matches anything.
A difference inside the region counts for the property if its aspect does.
"""
import fnmatch
import re

from . import terms as tm
from .project import FORKS

I = "F.vm.instructions."
P = "F.vm.precompiled_contracts"

NUM = ["ethereum.utils.numeric.*", "ethereum.utils.byte.*"]
HEX = ["ethereum.utils.hexadecimal.*", "F.utils.hexadecimal.*"]

REGION = {
    # --- block level
    "C01": ["F.fork.validate_header", "F.fork.check_gas_limit",
            "F.fork.calculate_base_fee_per_gas",
            "F.fork.calculate_block_difficulty",
            "F.fork.validate_proof_of_work",
            "F.fork.generate_header_hash_for_pow",
            "F.vm.gas.calculate_excess_blob_gas",
            "F.fork.state_transition", "F.blocks.Header",
            "F.fork.validate_ommers", "F.vm.gas.calculate_blob_gas_price",
            "ethereum.utils.numeric.taylor_exponential",
            "F.exceptions.*", "ethereum.exceptions.*"],
    "C02": ["F.fork.state_transition", "F.fork.apply_body",
            "F.fork.process_transaction", "F.fork.make_receipt",
            "F.fork.get_last_256_block_hashes", "F.bloom.*",
            "F.requests.compute_requests_hash", "F.blocks.*",
            "F.vm.BlockOutput*", "F.fork.process_withdrawals",
            "F.fork.process_*", "F.trie.*", "F.state.state_root",
            "F.state.storage_root", "F.requests.*",
            "F.vm.gas.calculate_total_blob_gas", "F.exceptions.*",
            "F.fork.BlockChain"],
    "C03": ["F.fork.check_transaction", "F.fork.process_transaction",
            "F.transactions.validate_transaction",
            "F.transactions.*",
            "F.vm.gas.calculate_total_blob_gas",
            "F.vm.gas.calculate_blob_gas_price",
            "F.vm.gas.calculate_data_fee",
            "F.vm.eoa_delegation.is_valid_delegation",
            "ethereum.crypto.elliptic_curve.secp256k1_recover",
            "F.fork.apply_body", "F.exceptions.*", "ethereum.exceptions.*",
            "F.state.account_has_code_or_nonce"],
    "C04": ["F.transactions.calculate_intrinsic_cost",
            "F.transactions.validate_transaction",
            "F.vm.gas.init_code_cost", "F.fork.process_transaction",
            "F.fork.check_transaction", "ethereum.utils.numeric.ceil32"],
    "C05": ["F.fork.process_transaction", "F.fork.check_transaction",
            "F.fork.pay_rewards", "F.fork.process_withdrawals",
            "F.fork.apply_fork", "F.dao.*", "F.state.*",
            "F.vm.gas.calculate_data_fee",
            "F.vm.gas.calculate_blob_gas_price",
            "F.vm.gas.calculate_total_blob_gas",
            "F.vm.interpreter.*", I + "system.*",
            "F.transactions.calculate_intrinsic_cost",
            "F.fork.calculate_base_fee_per_gas",
            "F.fork.validate_ommers",
            "F.fork.apply_body", "F.vm.incorporate_child_on_*"],
    "C06": ["F.vm.instructions.Ops", "F.vm.instructions.op_implementation",
            "F.vm.interpreter.execute_code",
            "F.vm.runtime.get_valid_jump_destinations",
            I + "control_flow.*"],
    "C07": [I + "arithmetic.*", I + "bitwise.*", I + "comparison.*",
            I + "stack.*", I + "memory.*", I + "keccak.*",
            I + "environment.*", I + "block.*", I + "control_flow.*",
            I + "log.*", I + "storage.*",
            "F.vm.stack.*", "F.vm.memory.*",
            "F.vm.runtime.get_valid_jump_destinations",
            "F.utils.address.to_address_masked",
            "F.vm.gas.calculate_blob_gas_price"] + NUM,
    "C08": [I + "*", "F.vm.gas.*", P + ".*", P,
            "ethereum.utils.numeric.ceil32",
            "ethereum.utils.numeric.taylor_exponential",
            "F.vm.eoa_delegation.access_delegation",
            "F.vm.interpreter.process_create_message"],
    "C09": [I + "*", "F.vm.gas.*", "F.vm.memory.*", P + ".*",
            "F.vm.eoa_delegation.access_delegation",
            "F.vm.interpreter.*"],
    "C10": [I + "*", "F.vm.interpreter.*", "F.vm.Message",
            "F.utils.message.prepare_message"],
    "C11": ["F.vm.interpreter.*", "F.state.*",
            "F.trie.copy_trie", "F.vm.incorporate_child_*", "F.fork.process_transaction",
            "F.fork.process_system_transaction",
            "F.fork.process_unchecked_system_transaction",
            "F.fork.process_checked_system_transaction",
            I + "system.generic_*"],
    "C12": ["F.vm.*", "F.state.*", "ethereum.crypto.*",
            "F.utils.address.*"] + NUM,
    "C13": [I + "system.*", "F.vm.gas.*", "F.vm.incorporate_child_*",
            "F.vm.Message", "F.vm.Evm", "F.vm.MessageCallGas",
            "F.utils.message.prepare_message",
            "F.vm.interpreter.*", "F.vm.ExecutionEnvironment",
            "F.vm.BlockEnvironment", "F.vm.TransactionEnvironment",
            I + "environment.returndata*", "F.vm.memory.*",
            "F.state.move_ether",
            "F.vm.eoa_delegation.access_delegation"],
    "C14": [I + "system.create*", I + "system.generic_create",
            I + "system.selfdestruct", "F.vm.interpreter.*",
            "F.utils.address.*", "F.utils.message.prepare_message",
            "F.state.*", "F.vm.gas.*", "F.vm.incorporate_child_*",
            "F.fork.process_transaction",
            "F.transactions.validate_transaction"],
    "C15": [I + "storage.*", I + "environment.*", I + "system.*",
            "F.vm.incorporate_child_*", "F.fork.process_transaction",
            "F.state.*", "F.vm.gas.*", "F.utils.message.prepare_message",
            "F.vm.eoa_delegation.*", "F.vm.interpreter.*",
            "F.vm.TransactionEnvironment", "F.vm.Evm", "F.vm.Message"],
    "C16": [P + ".*", P, "F.vm.interpreter.execute_code",
            "F.vm.interpreter.process_message", "F.vm.memory.buffer_read",
            "F.vm.gas.*", "ethereum.crypto.*", "ethereum.utils.byte.*",
            "ethereum.utils.numeric.*"],
    "C17": ["F.blocks.*", "F.transactions.*", "F.fork_types.*",
            "F.vm.eoa_delegation.recover_authority",
            "F.fork.generate_header_hash_for_pow",
            "F.trie.encode_*", "F.utils.address.compute_*", "F.vm.eoa_*",
            "F.fork.make_receipt", "F.requests.*", "ethereum.crypto.hash.*",
            "ethereum.crypto.elliptic_curve.secp256k1_recover"],
    "C18": ["F.vm.eoa_delegation.*", "F.fork.process_transaction",
            "F.fork.check_transaction", "F.transactions.*",
            "F.vm.interpreter.*",
            I + "system.*", I + "environment.extcode*", "F.utils.message.prepare_message",
            "F.fork_types.Authorization", "F.state.set_code",
            "F.state.increment_nonce"],
    "C19": ["F.fork.apply_body", "F.fork.process_*", "F.requests.*",
            "F.blocks.Withdrawal", "F.fork.state_transition",
            "F.state.create_ether", "F.exceptions.*",
            "F.vm.interpreter.process_message_call", "F.vm.BlockOutput"],
    "C20": ["F.state.*", "F.trie.*", "F.fork_types.*"],
    "C21": [],
    "C22": ["ethereum.fork_criteria.*", "ethereum_spec_tools.forks.*",
            "F.fork.apply_fork", "F.dao.*", "F", "F.trie.copy_trie",
            "F.trie.encode_node",
            "ethereum_spec_tools.sync.*",
            "ethereum_spec_tools.evm_tools.loaders.fork_loader.*"],
    "C23": ["*"],
    "C24": ["ethereum_spec_tools.evm_tools.t8n.*",
            "ethereum_spec_tools.evm_tools.b11r.*",
            "ethereum_spec_tools.evm_tools.statetest.*",
            "ethereum_spec_tools.evm_tools.daemon.*",
            "ethereum_spec_tools.evm_tools.utils.*",
            "ethereum_spec_tools.evm_tools.*",
            "ethereum_spec_tools.evm_tools.loaders.*"],
    "C25": ["ethereum.ethash.*", "F.fork.validate_proof_of_work",
            "F.fork.generate_header_hash_for_pow",
            "F.fork.calculate_block_difficulty", "F.fork.validate_ommers",
            "F.fork.pay_rewards", "F.fork.apply_body",
            "F.fork.validate_header", "F.fork.state_transition",
            "F.blocks.*",
            "ethereum.utils.numeric.*", "ethereum.crypto.hash.*",
            "ethereum_optimized.fork.*"],
    "C26": ["ethereum.genesis.*", "ethereum_spec_tools.sync.*",
            "ethereum_spec_tools.evm_tools.loaders.*",
            "F.utils.hexadecimal.*", "ethereum.utils.*",
            "ethereum_spec_tools.evm_tools.utils.*",
            "ethereum_spec_tools.evm_tools.t8n.t8n_types.*",
            "ethereum_spec_tools.evm_tools.t8n.env.*"],
    "C27": ["ethereum_optimized.*"],
    "C28": ["ethereum.trace.*",
            "ethereum_spec_tools.evm_tools.t8n.evm_trace.*",
            "F.vm.interpreter.*", "F.vm.gas.charge_gas"],
    "C29": ["F.vm.gas.calculate_excess_blob_gas",
            "F.vm.gas.calculate_blob_gas_price",
            "F.vm.gas.calculate_data_fee",
            "F.vm.gas.calculate_total_blob_gas",
            "F.fork.calculate_base_fee_per_gas", "F.fork.check_gas_limit",
            "F.fork.check_transaction", "F.fork.process_transaction",
            "F.fork.validate_header", "F.fork.apply_body",
            "F.exceptions.*",
            "F.vm.BlockEnvironment", "F.vm.TransactionEnvironment",
            "ethereum.utils.numeric.taylor_exponential",
            "F.fork.state_transition", I + "environment.blob_*",
            I + "environment.base_fee"],
    "C30": ["ethereum_spec_tools.lint.*", "ethereum_spec_tools.new_fork.*",
            "ethereum_spec_tools.patch_tool.*", "ethereum_spec_tools.docc.*",
            "ethereum_spec_tools.forks.*"],
    "C31": ["F.fork.get_last_256_block_hashes", I + "block.block_hash",
            "F.fork.state_transition", "F.fork.apply_body",
            "F.vm.BlockEnvironment", "F.fork.BlockChain",
            "F.fork.apply_fork"],
    "C32": [I + "log.*", "F.bloom.*", "F.fork.make_receipt",
            "F.vm.incorporate_child_*", "F.blocks.Log", "F.blocks.Receipt",
            "F.vm.interpreter.*", "F.fork.apply_body",
            "F.fork.state_transition", "F.vm.BlockOutput", "F.vm.Evm",
            "F.vm.interpreter.MessageCallOutput",
            "F.fork.process_transaction",
            "F.blocks.encode_receipt", "F.blocks.decode_receipt",
            I + "system.generic_*"],
}


def norm(q):
    p = q.split(".")
    if len(p) > 1 and p[0] == "ethereum" and p[1] in FORKS:
        return "F" + ("." + ".".join(p[2:]) if len(p) > 2 else "")
    return q


_rx = {}


def matcher(pats):
    k = tuple(pats)
    if k not in _rx:
        _rx[k] = re.compile("|".join(
            "(?:" + fnmatch.translate(p) + ")" for p in pats) or "(?!)")
    rx = _rx[k]
    return lambda q: rx.match(norm(q)) is not None


GASKEYS = ("charge_gas", "gas", "refund_counter", "OutOfGas", "cost")


def gas_aspect(q, d):
    """Differences that concern gas, not values."""
    n = norm(q)
    if d.comp == "fault":
        return n.startswith("F.vm.gas.")
    if n.startswith("F.vm.gas.") or n.startswith("ethereum.") \
            or n.startswith("F.vm.precompiled_contracts.modexp"):
        return True
    k = d.key if isinstance(d.key, str) else str(
        d.key[1] if isinstance(d.key, tuple) else d.key)
    return any(x in k for x in GASKEYS) or any(x in d.text for x in GASKEYS)


def value_aspect(q, d):
    if isinstance(d.key, tuple) and d.key[1] in ("gas_left",
                                                 "refund_counter"):
        return False
    if d.comp == "event" and "charge_gas" in d.text[:60]:
        return False
    return True


def static_aspect(q, d):
    if d.comp == "fault":
        return False
    t = d.text + str(d.key)
    return "is_static" in t or "WriteInStatic" in t or \
        "static" in q.lower() or norm(q).startswith("F.vm.interpreter.")


def error_aspect(q, d):
    """An error of the reviewed rule that is no longer raised or reported."""
    if d.comp == "fault":
        return False
    if d.comp == "abort":
        if d.ref is None:
            return True
        return tm.band(d.ref, tm.bnot(d.act)) is not tm.FALSE
    k = d.key[1] if isinstance(d.key, tuple) else d.key
    return "error" in str(k).lower()


def order_aspect(q, d):
    """Differences in what is charged, allocated or done at an abort."""
    n = norm(q)
    if d.comp == "fault":
        return False
    if d.comp == "abort" or n.startswith(("F.vm.gas.", "F.vm.memory.")):
        return True
    t = d.text + str(d.key)
    return any(x in t for x in GASKEYS) or "memory" in t


FAULT_CORE = matcher(["F.vm.interpreter.*", "F.vm.exceptions.*",
                      "F.vm.stack.*", "F.vm.memory.*", "F.vm.gas.charge_gas",
                      I + "system.*", I + "control_flow.*",
                      I + "environment.returndatacopy", P + ".*"])


def fault_aspect(q, d):
    """Everything where faults are handled, elsewhere only what is raised."""
    return d.comp in ("abort", "fault") or FAULT_CORE(q)


ASPECT = {"C09": order_aspect, "C12": fault_aspect, "C08": gas_aspect, "C07": value_aspect, "C10": static_aspect,
          "C23": error_aspect}

# properties about code paths, not about records and tables
FUNCTIONS_ONLY = {"C23"}
