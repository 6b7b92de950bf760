#: module frontier..osaka
#: frontier..osaka
from functools import partial
from ethereum_types.numeric import Uint
from ...blocks import Log
from .. import Evm
#: byzantium..osaka
from ..exceptions import WriteInStaticContext
#: frontier..osaka
from ..gas import GAS_LOG, GAS_LOG_DATA, GAS_LOG_TOPIC, calculate_gas_extend_memory, charge_gas
from ..memory import memory_read_bytes
from ..stack import pop
#: frontier..spurious_dragon
def log_n(evm: Evm, num_topics: int) -> None:
    memory_start_index = pop(evm.stack)
    size = pop(evm.stack)
    topics = []
    for _ in range(num_topics):
        topic = pop(evm.stack).to_be_bytes32()
        topics.append(topic)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_start_index, size)])
    charge_gas(evm, GAS_LOG + GAS_LOG_DATA * Uint(size) + GAS_LOG_TOPIC * Uint(num_topics) + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    log_entry = Log(address=evm.message.current_target, topics=tuple(topics), data=memory_read_bytes(evm.memory, memory_start_index, size))
    evm.logs = evm.logs + (log_entry,)
    evm.pc += Uint(1)
#: byzantium..osaka
def log_n(evm: Evm, num_topics: int) -> None:
    memory_start_index = pop(evm.stack)
    size = pop(evm.stack)
    topics = []
    for _ in range(num_topics):
        topic = pop(evm.stack).to_be_bytes32()
        topics.append(topic)
    extend_memory = calculate_gas_extend_memory(evm.memory, [(memory_start_index, size)])
    charge_gas(evm, GAS_LOG + GAS_LOG_DATA * Uint(size) + GAS_LOG_TOPIC * Uint(num_topics) + extend_memory.cost)
    evm.memory += b'\x00' * extend_memory.expand_by
    if evm.message.is_static:
        raise WriteInStaticContext
    log_entry = Log(address=evm.message.current_target, topics=tuple(topics), data=memory_read_bytes(evm.memory, memory_start_index, size))
    evm.logs = evm.logs + (log_entry,)
    evm.pc += Uint(1)
#: frontier..osaka
log0 = partial(log_n, num_topics=0)
log1 = partial(log_n, num_topics=1)
log2 = partial(log_n, num_topics=2)
log3 = partial(log_n, num_topics=3)
log4 = partial(log_n, num_topics=4)
