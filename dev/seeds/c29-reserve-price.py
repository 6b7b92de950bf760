PROPERTY="C29"
NEEDS="a parent whose blob usage is at the target while the reserve price exceeds the blob price"
BREAKS="the reserve price rule compares against the wrong side when the prices are equal, so excess blob gas does not fall"
EDITS=[("ethereum/osaka/vm/gas.py",'''    if base_blob_tx_price > target_blob_gas_price:''','''    if base_blob_tx_price >= target_blob_gas_price:''')]
DEMO='''
f = Fork("osaka")
import ethereum.osaka.vm.gas as g
H = f.blocks.Header
def hdr(**kw):
    h = object.__new__(H)
    for k, v in kw.items():
        object.__setattr__(h, k, v)
    return h
base = Uint(int(g.GAS_PER_BLOB) // int(g.BLOB_BASE_COST))
h = hdr(excess_blob_gas=U64(0), blob_gas_used=U64(int(g.TARGET_BLOB_GAS_PER_BLOCK) + 131072),
        base_fee_per_gas=base)
assert g.calculate_excess_blob_gas(h) == U64(131072), g.calculate_excess_blob_gas(h)
'''
