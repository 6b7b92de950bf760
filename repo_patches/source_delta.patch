From f997168f988a283eccaf77170f3a4a5bd354b9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 1/9] fix: raise InvalidParameter for BLS12-381 scalar pairs of
 the wrong length

decode_g1_scalar_pair and decode_g2_scalar_pair built the exception and
discarded it, so over-long and short inputs were silently accepted.
---
 .../osaka/vm/precompiled_contracts/bls12_381/__init__.py      | 4 ++--
 .../prague/vm/precompiled_contracts/bls12_381/__init__.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ethereum/osaka/vm/precompiled_contracts/bls12_381/__init__.py b/src/ethereum/osaka/vm/precompiled_contracts/bls12_381/__init__.py
index b3aa439..f8413c3 100644
--- a/src/ethereum/osaka/vm/precompiled_contracts/bls12_381/__init__.py
+++ b/src/ethereum/osaka/vm/precompiled_contracts/bls12_381/__init__.py
@@ -413,7 +413,7 @@ def decode_g1_scalar_pair(
         If the subgroup check failed.
     """
     if len(data) != 160:
-        InvalidParameter("Input should be 160 bytes long")
+        raise InvalidParameter("Input should be 160 bytes long")
 
     point = bytes_to_g1(data[:128], subgroup_check=True)
 
@@ -607,7 +607,7 @@ def decode_g2_scalar_pair(
         If the subgroup check failed.
     """
     if len(data) != 288:
-        InvalidParameter("Input should be 288 bytes long")
+        raise InvalidParameter("Input should be 288 bytes long")
 
     point = bytes_to_g2(data[:256], subgroup_check=True)
     n = int.from_bytes(data[256 : 256 + 32], "big")
diff --git a/src/ethereum/prague/vm/precompiled_contracts/bls12_381/__init__.py b/src/ethereum/prague/vm/precompiled_contracts/bls12_381/__init__.py
index b3aa439..f8413c3 100644
--- a/src/ethereum/prague/vm/precompiled_contracts/bls12_381/__init__.py
+++ b/src/ethereum/prague/vm/precompiled_contracts/bls12_381/__init__.py
@@ -413,7 +413,7 @@ def decode_g1_scalar_pair(
         If the subgroup check failed.
     """
     if len(data) != 160:
-        InvalidParameter("Input should be 160 bytes long")
+        raise InvalidParameter("Input should be 160 bytes long")
 
     point = bytes_to_g1(data[:128], subgroup_check=True)
 
@@ -607,7 +607,7 @@ def decode_g2_scalar_pair(
         If the subgroup check failed.
     """
     if len(data) != 288:
-        InvalidParameter("Input should be 288 bytes long")
+        raise InvalidParameter("Input should be 288 bytes long")
 
     point = bytes_to_g2(data[:256], subgroup_check=True)
     n = int.from_bytes(data[256 : 256 + 32], "big")
-- 
2.43.0


From 14f1a13f933aed5a3f365c80fb4ae49728e553c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 2/9] fix: report the blob gas used in the t8n result

---
 src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
index d99b778..38aba78 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
@@ -319,6 +319,9 @@ class Result:
         if hasattr(block_env, "excess_blob_gas"):
             self.excess_blob_gas = block_env.excess_blob_gas
 
+        if hasattr(block_output, "blob_gas_used"):
+            self.blob_gas_used = block_output.blob_gas_used
+
         if hasattr(block_output, "requests"):
             self.requests = block_output.requests
             self.requests_hash = t8n.fork.compute_requests_hash(self.requests)
-- 
2.43.0


From a9d507c68e1e6b585f6652076d17958ae206156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 3/9] fix: run the t8n system calls in the order of block
 execution

---
 src/ethereum_spec_tools/evm_tools/t8n/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
index 2fad681..c905370 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
@@ -252,18 +252,18 @@ class T8N(Load):
         self.result.rejected = self.txs.rejected_txs
 
     def _run_blockchain_test(self, block_env: Any, block_output: Any) -> None:
-        if self.fork.is_after_fork("ethereum.prague"):
+        if self.fork.is_after_fork("ethereum.cancun"):
             self.fork.process_unchecked_system_transaction(
                 block_env=block_env,
-                target_address=self.fork.HISTORY_STORAGE_ADDRESS,
-                data=block_env.block_hashes[-1],  # The parent hash
+                target_address=self.fork.BEACON_ROOTS_ADDRESS,
+                data=block_env.parent_beacon_block_root,
             )
 
-        if self.fork.is_after_fork("ethereum.cancun"):
+        if self.fork.is_after_fork("ethereum.prague"):
             self.fork.process_unchecked_system_transaction(
                 block_env=block_env,
-                target_address=self.fork.BEACON_ROOTS_ADDRESS,
-                data=block_env.parent_beacon_block_root,
+                target_address=self.fork.HISTORY_STORAGE_ADDRESS,
+                data=block_env.block_hashes[-1],  # The parent hash
             )
 
         for i, tx in zip(self.txs.successfully_parsed, self.txs.transactions):
-- 
2.43.0


From 79e033192b20fc1222852ecea24b9f855c6e41aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 4/9] fix: leave rejected transactions out of the t8n
 transactions and receipts tries

---
 .../evm_tools/loaders/fork_loader.py                 |  5 +++++
 src/ethereum_spec_tools/evm_tools/t8n/__init__.py    | 12 +++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/ethereum_spec_tools/evm_tools/loaders/fork_loader.py b/src/ethereum_spec_tools/evm_tools/loaders/fork_loader.py
index deb975b..4814154 100644
--- a/src/ethereum_spec_tools/evm_tools/loaders/fork_loader.py
+++ b/src/ethereum_spec_tools/evm_tools/loaders/fork_loader.py
@@ -287,6 +287,11 @@ class ForkLoad:
         """trie_get function of the fork"""
         return self._module("trie").trie_get
 
+    @property
+    def trie_set(self) -> Any:
+        """trie_set function of the fork"""
+        return self._module("trie").trie_set
+
     @property
     def hex_to_address(self) -> Any:
         """hex_to_address function of the fork"""
diff --git a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
index c905370..9640c48 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
@@ -206,6 +206,12 @@ class T8N(Load):
         state = self.alloc.state
         state._main_trie, state._storage_tries = self.alloc.state_backup
 
+    def remove_transaction(self, block_output: Any, index: Uint) -> None:
+        """Remove a rejected transaction from the block output."""
+        self.fork.trie_set(
+            block_output.transactions_trie, rlp.encode(index), None
+        )
+
     def pay_block_rewards(self, block_reward: U256, block_env: Any) -> None:
         """Apply the block rewards to the block coinbase."""
         ommer_count = U256(len(self.env.ommers))
@@ -246,6 +252,7 @@ class T8N(Load):
             except EthereumException as e:
                 self.txs.rejected_txs[0] = f"Failed transaction: {e!r}"
                 self.restore_state()
+                self.remove_transaction(block_output, Uint(0))
                 self.logger.warning(f"Transaction {0} failed: {str(e)}")
 
         self.result.update(self, block_env, block_output)
@@ -267,14 +274,17 @@ class T8N(Load):
             )
 
         for i, tx in zip(self.txs.successfully_parsed, self.txs.transactions):
+            # Only the transactions that are not rejected are in the block.
+            index = Uint(len(block_output.receipt_keys))
             self.backup_state()
             try:
                 self.fork.process_transaction(
-                    block_env, block_output, tx, Uint(i)
+                    block_env, block_output, tx, index
                 )
             except EthereumException as e:
                 self.txs.rejected_txs[i] = f"Failed transaction: {e!r}"
                 self.restore_state()
+                self.remove_transaction(block_output, index)
                 self.logger.warning(f"Transaction {i} failed: {e!r}")
 
         if not self.fork.is_after_fork("ethereum.paris"):
-- 
2.43.0


From f2ca569ca072ad7cd2ea249ded14dac4c83fab9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 5/9] fix: restore storage when a repeated destroy_storage is
 rolled back

---
 src/ethereum_optimized/state_db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ethereum_optimized/state_db.py b/src/ethereum_optimized/state_db.py
index b0ea25f..50dbb1b 100644
--- a/src/ethereum_optimized/state_db.py
+++ b/src/ethereum_optimized/state_db.py
@@ -294,8 +294,8 @@ def get_optimized_state_patches(fork: str) -> Dict[str, Any]:
             elif type(item[1]) is dict:
                 # Restore storage that was destroyed by `destroy_storage()`
                 state.destroyed_accounts[item[0]] -= Uint(1)
+                state.dirty_storage[item[0]] = item[1]
                 if state.destroyed_accounts[item[0]] == 0:
-                    state.dirty_storage[item[0]] = item[1]
                     del state.destroyed_accounts[item[0]]
             else:
                 # Revert a change to an account
-- 
2.43.0


From 5b13740d7580fe74dfcc8c036fbd708ba8d485de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 6/9] fix: modexp must not overflow on a base length near
 2**256

A base_length above 2**256 - 97 made the computation of the exponent's
position raise OverflowError, which is not an ExceptionalHalt and so
escaped the call frame instead of running out of gas.
---
 src/ethereum/arrow_glacier/vm/memory.py                     | 6 +++++-
 .../arrow_glacier/vm/precompiled_contracts/modexp.py        | 4 ++--
 src/ethereum/berlin/vm/memory.py                            | 6 +++++-
 src/ethereum/berlin/vm/precompiled_contracts/modexp.py      | 4 ++--
 src/ethereum/byzantium/vm/memory.py                         | 6 +++++-
 src/ethereum/byzantium/vm/precompiled_contracts/modexp.py   | 4 ++--
 src/ethereum/cancun/vm/memory.py                            | 6 +++++-
 src/ethereum/cancun/vm/precompiled_contracts/modexp.py      | 4 ++--
 src/ethereum/constantinople/vm/memory.py                    | 6 +++++-
 .../constantinople/vm/precompiled_contracts/modexp.py       | 4 ++--
 src/ethereum/gray_glacier/vm/memory.py                      | 6 +++++-
 .../gray_glacier/vm/precompiled_contracts/modexp.py         | 4 ++--
 src/ethereum/istanbul/vm/memory.py                          | 6 +++++-
 src/ethereum/istanbul/vm/precompiled_contracts/modexp.py    | 4 ++--
 src/ethereum/london/vm/memory.py                            | 6 +++++-
 src/ethereum/london/vm/precompiled_contracts/modexp.py      | 4 ++--
 src/ethereum/muir_glacier/vm/memory.py                      | 6 +++++-
 .../muir_glacier/vm/precompiled_contracts/modexp.py         | 4 ++--
 src/ethereum/paris/vm/memory.py                             | 6 +++++-
 src/ethereum/paris/vm/precompiled_contracts/modexp.py       | 4 ++--
 src/ethereum/prague/vm/memory.py                            | 6 +++++-
 src/ethereum/prague/vm/precompiled_contracts/modexp.py      | 4 ++--
 src/ethereum/shanghai/vm/memory.py                          | 6 +++++-
 src/ethereum/shanghai/vm/precompiled_contracts/modexp.py    | 4 ++--
 24 files changed, 84 insertions(+), 36 deletions(-)

diff --git a/src/ethereum/arrow_glacier/vm/memory.py b/src/ethereum/arrow_glacier/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/arrow_glacier/vm/memory.py
+++ b/src/ethereum/arrow_glacier/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py b/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py
index 790d2fd..21b0d79 100644
--- a/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/berlin/vm/memory.py b/src/ethereum/berlin/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/berlin/vm/memory.py
+++ b/src/ethereum/berlin/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/berlin/vm/precompiled_contracts/modexp.py b/src/ethereum/berlin/vm/precompiled_contracts/modexp.py
index 790d2fd..21b0d79 100644
--- a/src/ethereum/berlin/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/berlin/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/byzantium/vm/memory.py b/src/ethereum/byzantium/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/byzantium/vm/memory.py
+++ b/src/ethereum/byzantium/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py b/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py
index c5956d4..1e42b6c 100644
--- a/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/cancun/vm/memory.py b/src/ethereum/cancun/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/cancun/vm/memory.py
+++ b/src/ethereum/cancun/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/cancun/vm/precompiled_contracts/modexp.py b/src/ethereum/cancun/vm/precompiled_contracts/modexp.py
index 790d2fd..21b0d79 100644
--- a/src/ethereum/cancun/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/cancun/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/constantinople/vm/memory.py b/src/ethereum/constantinople/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/constantinople/vm/memory.py
+++ b/src/ethereum/constantinople/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py b/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py
index c5956d4..1e42b6c 100644
--- a/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/gray_glacier/vm/memory.py b/src/ethereum/gray_glacier/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/gray_glacier/vm/memory.py
+++ b/src/ethereum/gray_glacier/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py b/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py
index 790d2fd..21b0d79 100644
--- a/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/istanbul/vm/memory.py b/src/ethereum/istanbul/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/istanbul/vm/memory.py
+++ b/src/ethereum/istanbul/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py b/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py
index c5956d4..1e42b6c 100644
--- a/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/london/vm/memory.py b/src/ethereum/london/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/london/vm/memory.py
+++ b/src/ethereum/london/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/london/vm/precompiled_contracts/modexp.py b/src/ethereum/london/vm/precompiled_contracts/modexp.py
index 790d2fd..21b0d79 100644
--- a/src/ethereum/london/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/london/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/muir_glacier/vm/memory.py b/src/ethereum/muir_glacier/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/muir_glacier/vm/memory.py
+++ b/src/ethereum/muir_glacier/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py b/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py
index c5956d4..1e42b6c 100644
--- a/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/paris/vm/memory.py b/src/ethereum/paris/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/paris/vm/memory.py
+++ b/src/ethereum/paris/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/paris/vm/precompiled_contracts/modexp.py b/src/ethereum/paris/vm/precompiled_contracts/modexp.py
index 790d2fd..21b0d79 100644
--- a/src/ethereum/paris/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/paris/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/prague/vm/memory.py b/src/ethereum/prague/vm/memory.py
index d4d2b47..27b327e 100644
--- a/src/ethereum/prague/vm/memory.py
+++ b/src/ethereum/prague/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/prague/vm/precompiled_contracts/modexp.py b/src/ethereum/prague/vm/precompiled_contracts/modexp.py
index 790d2fd..21b0d79 100644
--- a/src/ethereum/prague/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/prague/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/shanghai/vm/memory.py b/src/ethereum/shanghai/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/shanghai/vm/memory.py
+++ b/src/ethereum/shanghai/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py b/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py
index 790d2fd..21b0d79 100644
--- a/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
-- 
2.43.0


From 1dbd1d296b2721b49e8b594a65c67d86c45e3348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 7/9] fix: reject an empty typed transaction as an invalid
 transaction

decode_transaction read the type byte of a transaction without any bytes
and let IndexError escape, so such a block was not rejected as invalid.
---
 src/ethereum/arrow_glacier/transactions.py | 3 +++
 src/ethereum/berlin/transactions.py        | 3 +++
 src/ethereum/cancun/transactions.py        | 3 +++
 src/ethereum/gray_glacier/transactions.py  | 3 +++
 src/ethereum/london/transactions.py        | 3 +++
 src/ethereum/osaka/transactions.py         | 3 +++
 src/ethereum/paris/transactions.py         | 3 +++
 src/ethereum/prague/transactions.py        | 3 +++
 src/ethereum/shanghai/transactions.py      | 3 +++
 9 files changed, 27 insertions(+)

diff --git a/src/ethereum/arrow_glacier/transactions.py b/src/ethereum/arrow_glacier/transactions.py
index 751ed8f..c14c6d9 100644
--- a/src/ethereum/arrow_glacier/transactions.py
+++ b/src/ethereum/arrow_glacier/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,6 +315,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/berlin/transactions.py b/src/ethereum/berlin/transactions.py
index 4832858..4d3319f 100644
--- a/src/ethereum/berlin/transactions.py
+++ b/src/ethereum/berlin/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -234,6 +235,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] != 1:
             raise TransactionTypeError(tx[0])
         return rlp.decode_to(AccessListTransaction, tx[1:])
diff --git a/src/ethereum/cancun/transactions.py b/src/ethereum/cancun/transactions.py
index 98a82bd..702b52a 100644
--- a/src/ethereum/cancun/transactions.py
+++ b/src/ethereum/cancun/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -411,6 +412,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/gray_glacier/transactions.py b/src/ethereum/gray_glacier/transactions.py
index 751ed8f..c14c6d9 100644
--- a/src/ethereum/gray_glacier/transactions.py
+++ b/src/ethereum/gray_glacier/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,6 +315,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/london/transactions.py b/src/ethereum/london/transactions.py
index 751ed8f..c14c6d9 100644
--- a/src/ethereum/london/transactions.py
+++ b/src/ethereum/london/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,6 +315,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/osaka/transactions.py b/src/ethereum/osaka/transactions.py
index 90b1dee..5fa9194 100644
--- a/src/ethereum/osaka/transactions.py
+++ b/src/ethereum/osaka/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -510,6 +511,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/paris/transactions.py b/src/ethereum/paris/transactions.py
index 751ed8f..c14c6d9 100644
--- a/src/ethereum/paris/transactions.py
+++ b/src/ethereum/paris/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,6 +315,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/prague/transactions.py b/src/ethereum/prague/transactions.py
index b4023f1..c6c2af2 100644
--- a/src/ethereum/prague/transactions.py
+++ b/src/ethereum/prague/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -504,6 +505,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/shanghai/transactions.py b/src/ethereum/shanghai/transactions.py
index 1dff83b..45c1243 100644
--- a/src/ethereum/shanghai/transactions.py
+++ b/src/ethereum/shanghai/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,6 +315,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
-- 
2.43.0


From 79dc1f789e0ee4c0fee90dbb4596c9d8aa9636ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 8/9] fix: check the gas limit of the first London block

The bound on the gas limit was only applied by calculate_base_fee_per_gas,
which is not called for the fork block: EIP-1559 bounds it by twice the
parent's gas limit.
---
 src/ethereum/london/fork.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ethereum/london/fork.py b/src/ethereum/london/fork.py
index 0d2c06f..fce0bb7 100644
--- a/src/ethereum/london/fork.py
+++ b/src/ethereum/london/fork.py
@@ -325,6 +325,12 @@ def validate_header(chain: BlockChain, header: Header) -> None:
             parent_header.gas_used,
             parent_header.base_fee_per_gas,
         )
+    elif not check_gas_limit(
+        header.gas_limit, parent_header.gas_limit * ELASTICITY_MULTIPLIER
+    ):
+        # The parent of the first block has the gas limit of the previous fork,
+        # which equals the gas target.
+        raise InvalidBlock
 
     if expected_base_fee_per_gas != header.base_fee_per_gas:
         raise InvalidBlock
-- 
2.43.0


From d4944d04ac684ad4d6d69b294a2eac52019d73a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 9/9] fix: the amount of a withdrawal is a 64-bit integer

EIP-4895 gives withdrawals a uint64 amount in Gwei. As U256, a block with
a larger amount was decoded and credited, or made the conversion to Wei
raise OverflowError out of the state transition.
---
 src/ethereum/cancun/blocks.py                               | 2 +-
 src/ethereum/cancun/fork.py                                 | 2 +-
 src/ethereum/osaka/blocks.py                                | 2 +-
 src/ethereum/osaka/fork.py                                  | 2 +-
 src/ethereum/prague/blocks.py                               | 2 +-
 src/ethereum/prague/fork.py                                 | 2 +-
 src/ethereum/shanghai/blocks.py                             | 2 +-
 src/ethereum/shanghai/fork.py                               | 2 +-
 src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py        | 4 ++--
 src/ethereum_spec_tools/evm_tools/loaders/fixture_loader.py | 2 +-
 src/ethereum_spec_tools/sync.py                             | 2 +-
 11 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/ethereum/cancun/blocks.py b/src/ethereum/cancun/blocks.py
index 94014b6..fa075eb 100644
--- a/src/ethereum/cancun/blocks.py
+++ b/src/ethereum/cancun/blocks.py
@@ -54,7 +54,7 @@ class Withdrawal:
     The execution-layer address receiving the withdrawn ETH.
     """
 
-    amount: U256
+    amount: U64
     """
     The amount of ETH being withdrawn.
     """
diff --git a/src/ethereum/cancun/fork.py b/src/ethereum/cancun/fork.py
index 1df3055..2f658f8 100644
--- a/src/ethereum/cancun/fork.py
+++ b/src/ethereum/cancun/fork.py
@@ -823,7 +823,7 @@ def process_withdrawals(
     """
 
     def increase_recipient_balance(recipient: Account) -> None:
-        recipient.balance += wd.amount * U256(10**9)
+        recipient.balance += U256(wd.amount) * U256(10**9)
 
     for i, wd in enumerate(withdrawals):
         trie_set(
diff --git a/src/ethereum/osaka/blocks.py b/src/ethereum/osaka/blocks.py
index fd906d8..f884d31 100644
--- a/src/ethereum/osaka/blocks.py
+++ b/src/ethereum/osaka/blocks.py
@@ -55,7 +55,7 @@ class Withdrawal:
     The execution-layer address receiving the withdrawn ETH.
     """
 
-    amount: U256
+    amount: U64
     """
     The amount of ETH being withdrawn.
     """
diff --git a/src/ethereum/osaka/fork.py b/src/ethereum/osaka/fork.py
index a4f3c23..e822996 100644
--- a/src/ethereum/osaka/fork.py
+++ b/src/ethereum/osaka/fork.py
@@ -999,7 +999,7 @@ def process_withdrawals(
     """
 
     def increase_recipient_balance(recipient: Account) -> None:
-        recipient.balance += wd.amount * U256(10**9)
+        recipient.balance += U256(wd.amount) * U256(10**9)
 
     for i, wd in enumerate(withdrawals):
         trie_set(
diff --git a/src/ethereum/prague/blocks.py b/src/ethereum/prague/blocks.py
index ab86d1d..09e87fa 100644
--- a/src/ethereum/prague/blocks.py
+++ b/src/ethereum/prague/blocks.py
@@ -55,7 +55,7 @@ class Withdrawal:
     The execution-layer address receiving the withdrawn ETH.
     """
 
-    amount: U256
+    amount: U64
     """
     The amount of ETH being withdrawn.
     """
diff --git a/src/ethereum/prague/fork.py b/src/ethereum/prague/fork.py
index c81e78d..aba0991 100644
--- a/src/ethereum/prague/fork.py
+++ b/src/ethereum/prague/fork.py
@@ -984,7 +984,7 @@ def process_withdrawals(
     """
 
     def increase_recipient_balance(recipient: Account) -> None:
-        recipient.balance += wd.amount * U256(10**9)
+        recipient.balance += U256(wd.amount) * U256(10**9)
 
     for i, wd in enumerate(withdrawals):
         trie_set(
diff --git a/src/ethereum/shanghai/blocks.py b/src/ethereum/shanghai/blocks.py
index 96441b8..6d4ca99 100644
--- a/src/ethereum/shanghai/blocks.py
+++ b/src/ethereum/shanghai/blocks.py
@@ -53,7 +53,7 @@ class Withdrawal:
     The execution-layer address receiving the withdrawn ETH.
     """
 
-    amount: U256
+    amount: U64
     """
     The amount of ETH being withdrawn.
     """
diff --git a/src/ethereum/shanghai/fork.py b/src/ethereum/shanghai/fork.py
index 0fa9bba..f9e4959 100644
--- a/src/ethereum/shanghai/fork.py
+++ b/src/ethereum/shanghai/fork.py
@@ -630,7 +630,7 @@ def process_withdrawals(
     """
 
     def increase_recipient_balance(recipient: Account) -> None:
-        recipient.balance += wd.amount * U256(10**9)
+        recipient.balance += U256(wd.amount) * U256(10**9)
 
     for i, wd in enumerate(withdrawals):
         trie_set(
diff --git a/src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py b/src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py
index b8b99b4..56854cd 100644
--- a/src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py
+++ b/src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py
@@ -26,7 +26,7 @@ class Body:
 
     transactions: rlp.Extended
     ommers: rlp.Extended
-    withdrawals: Optional[List[Tuple[U64, U64, Bytes20, Uint]]]
+    withdrawals: Optional[List[Tuple[U64, U64, Bytes20, U64]]]
 
     def __init__(self, options: Any, stdin: Any = None):
         # Parse transactions
@@ -82,7 +82,7 @@ class Body:
                     parse_hex_or_int(wd["index"], U64),
                     parse_hex_or_int(wd["validatorIndex"], U64),
                     Bytes20(hex_to_bytes(wd["address"])),
-                    parse_hex_or_int(wd["amount"], Uint),
+                    parse_hex_or_int(wd["amount"], U64),
                 )
             )
 
diff --git a/src/ethereum_spec_tools/evm_tools/loaders/fixture_loader.py b/src/ethereum_spec_tools/evm_tools/loaders/fixture_loader.py
index df11319..3759cda 100644
--- a/src/ethereum_spec_tools/evm_tools/loaders/fixture_loader.py
+++ b/src/ethereum_spec_tools/evm_tools/loaders/fixture_loader.py
@@ -90,7 +90,7 @@ class Load(BaseLoad):
             hex_to_u64(raw.get("index")),
             hex_to_u64(raw.get("validatorIndex")),
             self.fork.hex_to_address(raw.get("address")),
-            hex_to_u256(raw.get("amount")),
+            hex_to_u64(raw.get("amount")),
         ]
 
         return self.fork.Withdrawal(*parameters)
diff --git a/src/ethereum_spec_tools/sync.py b/src/ethereum_spec_tools/sync.py
index 78a62d8..b91ee6f 100644
--- a/src/ethereum_spec_tools/sync.py
+++ b/src/ethereum_spec_tools/sync.py
@@ -578,7 +578,7 @@ class BlockDownloader(ForkTracking):
                         self.module("utils.hexadecimal").hex_to_address(
                             j["address"]
                         ),
-                        hex_to_u256(j["amount"]),
+                        hex_to_u64(j["amount"]),
                     )
                 )
 
-- 
2.43.0

