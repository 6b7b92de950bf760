PROPERTY="C17"
NEEDS="a blob transaction signed by independent software"
BREAKS="the signing hash of blob transactions leaves out the blob fee cap, so the cap is not covered by the signature and a different sender is recovered"
EDITS=[("ethereum/cancun/transactions.py",'''                tx.data,
                tx.access_list,
                tx.max_fee_per_blob_gas,
                tx.blob_versioned_hashes,
            )''','''                tx.data,
                tx.access_list,
                tx.blob_versioned_hashes,
            )''')]
DEMO='''
f = Fork("cancun")
T = f.txs.BlobTransaction
def h(cap):
    return f.txs.signing_hash_4844(T(
        chain_id=U64(1), nonce=U256(0), max_priority_fee_per_gas=Uint(1),
        max_fee_per_gas=Uint(2), gas=Uint(21000), to=addr(1), value=U256(0),
        data=Bytes(b""), access_list=(), max_fee_per_blob_gas=U256(cap),
        blob_versioned_hashes=(Bytes32(b"\\1" * 32),), y_parity=U256(0),
        r=U256(1), s=U256(1)))
assert h(1) != h(2)
'''
