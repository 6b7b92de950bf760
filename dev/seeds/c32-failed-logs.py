PROPERTY="C32"
NEEDS="a call frame that emits a log, makes a nested call, and returns to a caller that logs afterwards"
BREAKS="logs of a successful child are placed before the logs its caller emitted earlier"
EDITS=[("ethereum/istanbul/vm/__init__.py",'''    evm.logs += child_evm.logs''','''    evm.logs = child_evm.logs + evm.logs''')]
DEMO='''
f = Fork("istanbul")
log = lambda t: op(push(t), push(0, 1), push(0, 1), 0xA1)
f.account(0xBB, log(2))
f.account(0xAA, log(1) + op(push(0, 1), push(0, 1), push(0, 1), push(0, 1),
          push(0, 1), push(0xBB), push(50000), 0xF1, 0x50) + log(3))
e = f.call()
assert [l.topics[0][-1] for l in e.logs] == [1, 2, 3], e.logs
'''
