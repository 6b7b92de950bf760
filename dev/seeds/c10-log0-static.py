PROPERTY="C10"
NEEDS="LOG0 executed inside a static call"
BREAKS="a log without topics is accepted in a static frame and reaches the receipt"
EDITS=[("ethereum/shanghai/vm/instructions/log.py",'''    if evm.message.is_static:
        raise WriteInStaticContext''','''    if evm.message.is_static and num_topics:
        raise WriteInStaticContext''')]
DEMO='''
f = Fork("shanghai")
f.account(0xBB, op(push(0, 1), push(0, 1), 0xA0))
f.account(0xAA, op(push(0, 1), push(0, 1), push(0, 1), push(0, 1),
                   push(0xBB), push(50000), 0xFA, push(0, 1), 0x55))
e = f.call()
assert e.error is None and e.logs == () and f.storage(0xAA, 0) == 0, e.logs
'''
