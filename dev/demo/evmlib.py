"""Runs message calls and transactions of one fork on an in-memory state."""
import dataclasses
import importlib
import os
import sys

sys.path.insert(0, os.path.join(os.getcwd(), "src"))

from ethereum_types.bytes import Bytes, Bytes0, Bytes20, Bytes32  # noqa
from ethereum_types.numeric import U64, U256, Uint  # noqa


def addr(n):
    return Bytes20(int(n).to_bytes(20, "big"))


class Fork:
    def __init__(self, name):
        self.name = name
        self.st = self.mod("state")
        self.vm = self.mod("vm")
        self.interp = self.mod("vm.interpreter")
        self.types = self.mod("fork_types")
        self.fork = self.mod("fork")
        self.txs = self.mod("transactions")
        self.blocks = self.mod("blocks")
        self.trie = self.mod("trie")
        self.state = self.st.State()

    def mod(self, n):
        return importlib.import_module(f"ethereum.{self.name}.{n}")

    def account(self, a, code=b"", balance=0, nonce=0, storage=None):
        a = addr(a)
        kw = dict(nonce=Uint(nonce), balance=U256(balance))
        f = {x.name if hasattr(x, "name") else x
             for x in dataclasses.fields(self.types.Account)}
        if "code" in f:
            kw["code"] = Bytes(code)
        self.st.set_account(self.state, a, self.types.Account(**kw))
        for k, v in (storage or {}).items():
            self.st.set_storage(self.state, a,
                                Bytes32(k.to_bytes(32, "big")), U256(v))

    def code(self, a):
        return self.st.get_account(self.state, addr(a)).code

    def balance(self, a):
        return int(self.st.get_account(self.state, addr(a)).balance)

    def storage(self, a, k):
        return int(self.st.get_storage(self.state, addr(a),
                                       Bytes32(k.to_bytes(32, "big"))))

    def make(self, cls, **kw):
        names = {f.name for f in dataclasses.fields(cls)}
        return cls(**{k: v for k, v in kw.items() if k in names})

    def block_env(self, **kw):
        d = dict(chain_id=U64(1), state=self.state,
                 block_gas_limit=Uint(30_000_000), block_hashes=[],
                 coinbase=addr(0xC0), number=Uint(100),
                 base_fee_per_gas=Uint(7), time=U256(10**9),
                 difficulty=Uint(1), prev_randao=Bytes32(b"\1" * 32),
                 excess_blob_gas=U64(0),
                 parent_beacon_block_root=Bytes32(b"\2" * 32))
        d.update(kw)
        return self.make(self.vm.BlockEnvironment, **d)

    def tx_env(self, **kw):
        d = dict(origin=addr(0xEE), gas_price=Uint(10), gas=Uint(10**7),
                 access_list_addresses=set(), access_list_storage_keys=set(),
                 blob_versioned_hashes=(), authorizations=(),
                 index_in_block=Uint(0), tx_hash=Bytes32(b"\3" * 32))
        if hasattr(self.st, "TransientStorage"):
            d["transient_storage"] = self.st.TransientStorage()
        d.update(kw)
        return self.make(self.vm.TransactionEnvironment, **d)

    def message(self, to=0xAA, gas=1_000_000, value=0, data=b"", code=None,
                be=None, te=None, **kw):
        be = be or self.block_env()
        te = te or self.tx_env()
        d = dict(block_env=be, tx_env=te, caller=addr(0xEE),
                 target=addr(to), current_target=addr(to), gas=Uint(gas),
                 value=U256(value), data=Bytes(data), code_address=addr(to),
                 code=Bytes(self.code(to) if code is None else code),
                 depth=Uint(0), should_transfer_value=True, is_static=False,
                 accessed_addresses=set(), accessed_storage_keys=set(),
                 disable_precompiles=False, parent_evm=None)
        d.update(kw)
        return self.make(self.vm.Message, **d)

    def call(self, **kw):
        return self.interp.process_message(self.message(**kw))

    def create(self, init, at=0xBB, **kw):
        kw.setdefault("code", init)
        return self.interp.process_create_message(self.message(
            to=at, target=Bytes0(b""), code_address=None, **kw))


def op(*xs):
    out = b""
    for x in xs:
        out += x if isinstance(x, bytes) else bytes([x])
    return out


def push(v, n=None):
    n = n or max(1, (v.bit_length() + 7) // 8)
    return bytes([0x5F + n]) + v.to_bytes(n, "big")
