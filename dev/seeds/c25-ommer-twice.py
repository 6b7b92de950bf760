PROPERTY="C25"
NEEDS="an ommer already included two or more blocks ago is included again"
BREAKS="only the newest block's ommers are remembered, so an ommer can be included and rewarded twice"
EDITS=[("ethereum/homestead/fork.py",'''        recent_ommers_hashes = recent_ommers_hashes.union(
            {keccak256(rlp.encode(ommer)) for ommer in block.ommers}
        )''','''        recent_ommers_hashes = {
            keccak256(rlp.encode(ommer)) for ommer in block.ommers
        }''')]
DEMO='''
from ethereum_rlp import rlp
from ethereum.crypto.hash import keccak256
from ethereum.exceptions import InvalidBlock
f = Fork("homestead")
f.fork.validate_header = lambda chain, header: None   # seals are not the point
H = f.blocks.Header
def header(n, parent, extra=b"", ommers=()):
    z = Bytes32(b"\\0" * 32)
    return H(parent_hash=parent, ommers_hash=keccak256(rlp.encode(ommers)),
             coinbase=addr(1), state_root=z, transactions_root=z,
             receipt_root=z, bloom=b"\\0" * 256, difficulty=Uint(1),
             number=Uint(n), gas_limit=Uint(5000), gas_used=Uint(0),
             timestamp=U256(n), extra_data=Bytes(extra), mix_digest=z,
             nonce=b"\\0" * 8)
def run(at):
    blocks = []
    parent = Bytes32(b"\\0" * 32)
    om = None
    for n in range(10, 21):
        h = header(n, parent)
        blocks.append(f.blocks.Block(header=h, transactions=(),
                                     ommers=(om,) if om and n == at else ()))
        parent = keccak256(rlp.encode(h))
        if n == 15:
            om = header(16, parent, b"ommer")
    chain = f.fork.BlockChain(blocks=blocks, state=f.state, chain_id=U64(1))
    f.fork.validate_ommers((om,), header(21, parent, b"", (om,)), chain)
run(0)
for at in (17, 18, 20):
    try:
        run(at)
    except InvalidBlock:
        pass
    else:
        raise SystemExit("ommer of block %d accepted again" % at)
'''
