PROPERTY="C21"
NEEDS="two different programs run at the same code address in one process"
BREAKS="jump destinations are remembered per address across executions, so the outcome depends on what ran earlier"
EDITS=[("ethereum/paris/vm/interpreter.py",'''    code = message.code
    valid_jump_destinations = get_valid_jump_destinations(code)
''','''    code = message.code
    key = (message.code_address, len(code))
    valid_jump_destinations = _JUMP_DESTINATIONS.get(key)
    if valid_jump_destinations is None:
        valid_jump_destinations = get_valid_jump_destinations(code)
        _JUMP_DESTINATIONS[key] = valid_jump_destinations
'''),("ethereum/paris/vm/interpreter.py",'''MAX_CODE_SIZE = 0x6000
''','''MAX_CODE_SIZE = 0x6000
_JUMP_DESTINATIONS: dict = {}
''')]
DEMO='''
f = Fork("paris")
f.account(0xAA, op(push(3), 0x56, 0x5B))
assert f.call().error is None
f.account(0xAA, op(push(3), 0x56, 0x01))
assert type(f.call().error).__name__ == "InvalidJumpDestError"
'''
