"""Static analysis framework for ethereum/execution-specs (see DESIGN.md)."""
