PROPERTY="C05"
NEEDS="a transaction whose sender is the block's fee recipient (coinbase)"
BREAKS="the fee recipient's balance is read before the sender's refund is credited, so a sender that is also the coinbase loses its refund"
EDITS=[("ethereum/london/fork.py",'''    # refund gas
    sender_balance_after_refund = get_account(
        block_env.state, sender
    ).balance + U256(gas_refund_amount)
    set_account_balance(block_env.state, sender, sender_balance_after_refund)

    # transfer miner fees
    coinbase_balance_after_mining_fee = get_account(
        block_env.state, block_env.coinbase
    ).balance + U256(transaction_fee)
''','''    # refund gas and transfer miner fees
    sender_balance_after_refund = get_account(
        block_env.state, sender
    ).balance + U256(gas_refund_amount)
    coinbase_balance_after_mining_fee = get_account(
        block_env.state, block_env.coinbase
    ).balance + U256(transaction_fee)
    set_account_balance(block_env.state, sender, sender_balance_after_refund)
''')]
DEMO='''
f = Fork("london")
import coincurve
from ethereum.crypto.hash import keccak256
key = coincurve.PrivateKey(b"\\x11" * 32)
sender = keccak256(key.public_key.format(False)[1:])[12:]
f.account(int.from_bytes(sender, "big"), balance=10**18)
LT = f.txs.LegacyTransaction
kw = dict(nonce=U256(0), gas_price=Uint(10), gas=Uint(100_000), to=addr(0xAA),
          value=U256(5), data=Bytes(b""))
t = LT(**kw, v=U256(0), r=U256(0), s=U256(0))
sig = key.sign_recoverable(f.txs.signing_hash_pre155(t), hasher=None)
t = LT(**kw, v=U256(27 + sig[64]), r=U256.from_be_bytes(sig[:32]),
       s=U256.from_be_bytes(sig[32:64]))
be = f.block_env(coinbase=Bytes20(sender))
out = f.vm.BlockOutput()
f.fork.process_transaction(be, out, t, Uint(0))
# value 5 and the burnt base fee (7 * 21000) leave; the tip comes back
got = f.balance(int.from_bytes(sender, "big"))
assert got == 10**18 - 5 - 7 * 21000, got
'''
