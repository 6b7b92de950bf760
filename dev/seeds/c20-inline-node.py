PROPERTY="C20"
NEEDS="a trie with a node whose encoding is exactly 32 bytes long"
BREAKS="the node is embedded instead of hashed, so the root differs from the root of the same contents"
EDITS=[("ethereum/constantinople/trie.py",'''    if len(encoded) < 32:
        return unencoded''','''    if len(encoded) <= 32:
        return unencoded''')]
DEMO='''
from ethereum_rlp import rlp
from ethereum.crypto.hash import keccak256
f = Fork("constantinople")
tr = f.trie
for n in range(1, 60):
    t = tr.Trie(secured=False, default=b"")
    a, b = b"\\x12\\x34", b"\\x12\\x44"
    tr.trie_set(t, a, b"\\x99" * n)
    tr.trie_set(t, b, b"\\x01")
    # independent computation: extension(1,2) -> branch{3: leaf, 4: leaf}
    def node(x):
        e = rlp.encode(x)
        return x if len(e) < 32 else keccak256(e)
    leaf1 = node([b"\\x34", b"\\x99" * n])
    leaf2 = node([b"\\x34", b"\\x01"])
    br = [b""] * 17
    br[3], br[4] = leaf1, leaf2
    ext = [b"\\x00\\x12", node(br)]
    want = keccak256(rlp.encode(ext))
    assert tr.root(t) == want, n
'''
