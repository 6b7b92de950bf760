from dataclasses import fields
from typing import Any
def has_field(class_: Any, name: str) -> bool:
    try:
        all_fields = fields(class_)
    except TypeError:
        return False
    return any((x.name == name for x in all_fields))
