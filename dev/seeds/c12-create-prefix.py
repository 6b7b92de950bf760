PROPERTY="C12"
NEEDS="a creation whose returned code starts with 0xEF"
BREAKS="the rejection of the code leaves process_create_message as an exception instead of failing only the creation frame, aborting the block"
EDITS=[("ethereum/cancun/vm/interpreter.py",'''        except ExceptionalHalt as error:
            rollback_transaction(state, transient_storage)
            evm.gas_left = Uint(0)''','''        except OutOfGasError as error:
            rollback_transaction(state, transient_storage)
            evm.gas_left = Uint(0)''')]
DEMO='''
f = Fork("cancun")
f.account(0xEE, balance=10**18)
init = op(push(0xEF), push(0), 0x53, push(1), push(0), 0xF3)
e = f.create(init)
assert e.error is not None and int(e.gas_left) == 0
assert f.code(0xBB) == b""
'''
