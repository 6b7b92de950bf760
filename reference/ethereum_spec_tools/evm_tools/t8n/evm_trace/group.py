from typing import Final
from typing_extensions import override
from ethereum.trace import EvmTracer, TraceEvent
class GroupTracer(EvmTracer):
    tracers: Final[set[EvmTracer]]

    def __init__(self) -> None:
        self.tracers = set()

    def add(self, tracer: EvmTracer) -> None:
        self.tracers.add(tracer)

    @override
    def __call__(self, evm: object, event: TraceEvent) -> None:
        for tracer in self.tracers:
            tracer(evm, event)
