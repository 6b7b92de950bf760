PROPERTY="C11"
NEEDS="a frame that writes transient storage, then fails, after the same key was written by its caller"
BREAKS="rolling back a failed frame keeps its transient storage writes"
EDITS=[("ethereum/cancun/state.py",'''    if not state._snapshots:
        state.created_accounts.clear()

    transient_storage._tries = transient_storage._snapshots.pop()
''','''    if not state._snapshots:
        state.created_accounts.clear()

    snapshot = transient_storage._snapshots.pop()
    if not transient_storage._snapshots:
        transient_storage._tries = snapshot
''')]
DEMO='''
f = Fork("cancun")
# child: TSTORE(1, 7) in the caller's context, then INVALID
f.account(0xBB, op(push(7), push(1), 0x5D, 0xFE))
# parent: TSTORE(1, 5); DELEGATECALL(child); SSTORE(0, TLOAD(1))
f.account(0xAA, op(push(5), push(1), 0x5D,
                   push(0), push(0), push(0), push(0), push(0xBB),
                   push(50000), 0xF4, 0x50,
                   push(1), 0x5C, push(0), 0x55))
e = f.call()
assert e.error is None, e.error
assert f.storage(0xAA, 0) == 5, f.storage(0xAA, 0)
'''
