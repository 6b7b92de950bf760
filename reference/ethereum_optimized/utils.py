from typing import Any, Dict
def add_item(patches: Dict[str, Any]) -> Any:

    def inner(f: Any) -> Any:
        patches[f.__name__] = f
        return f
    return inner
