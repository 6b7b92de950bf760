PROPERTY="C19"
NEEDS="a block in which the consolidation contract returns data but the withdrawal contract returns none"
BREAKS="an empty withdrawal request list suppresses the consolidation requests, so the requests hash misses them"
EDITS=[("ethereum/prague/fork.py",'''    if len(system_withdrawal_tx_output.return_data) > 0:
        requests_from_execution.append(''','''    if len(system_withdrawal_tx_output.return_data) == 0:
        return
    else:
        requests_from_execution.append(''')]
DEMO='''
f = Fork("prague")
W = int.from_bytes(f.fork.WITHDRAWAL_REQUEST_PREDEPLOY_ADDRESS, "big")
C = int.from_bytes(f.fork.CONSOLIDATION_REQUEST_PREDEPLOY_ADDRESS, "big")
f.account(W, b"\\x00")
f.account(C, op(push(0x77), push(0), 0x53, push(1), push(0), 0xF3))
out = f.vm.BlockOutput()
f.fork.process_general_purpose_requests(f.block_env(), out)
assert list(out.requests) == [b"\\x02\\x77"], out.requests
'''
