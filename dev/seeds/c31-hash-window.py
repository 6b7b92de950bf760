PROPERTY="C31"
NEEDS="BLOCKHASH of the 257th ancestor on a chain longer than 256 blocks"
BREAKS="the oldest visible ancestor is off by one: number-256 yields zero or the wrong hash"
EDITS=[("ethereum/tangerine_whistle/vm/instructions/block.py",'''        or current_block_number > max_block_number''','''        or current_block_number >= max_block_number''')]
DEMO='''
f = Fork("tangerine_whistle")
hs = [Bytes32((1000 + i).to_bytes(32, "big")) for i in range(256)]
def ask(n):
    f.account(0xAA, op(push(n), 0x40, push(0, 1), 0x55))
    e = f.call(be=f.block_env(number=Uint(500), block_hashes=hs))
    assert e.error is None, e.error
    return f.storage(0xAA, 0)
assert ask(500) == 0 and ask(243) == 0
assert ask(499) == 1255
assert ask(244) == 1000, ask(244)
'''
