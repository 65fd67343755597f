From 06f6aa58453cedfb75730282a273920fa71234be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:34 +0000
Subject: [PATCH 01/17] fix: restore destroyed storage when a nested
 destroy_storage is rolled back

Rolling back one of several destroy_storage() calls on the same account
dropped the dirty storage written between them (and then raised KeyError when
the outer writes were rolled back), because the saved slots were only put back
when the last destruction was undone.
---
 src/ethereum_optimized/state_db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ethereum_optimized/state_db.py b/src/ethereum_optimized/state_db.py
index b0ea25f..3b95302 100644
--- a/src/ethereum_optimized/state_db.py
+++ b/src/ethereum_optimized/state_db.py
@@ -293,9 +293,9 @@ def get_optimized_state_patches(fork: str) -> Dict[str, Any]:
                     state.dirty_storage[item[0]][item[1]] = item[2]
             elif type(item[1]) is dict:
                 # Restore storage that was destroyed by `destroy_storage()`
+                state.dirty_storage[item[0]] = item[1]
                 state.destroyed_accounts[item[0]] -= Uint(1)
                 if state.destroyed_accounts[item[0]] == 0:
-                    state.dirty_storage[item[0]] = item[1]
                     del state.destroyed_accounts[item[0]]
             else:
                 # Revert a change to an account
-- 
2.43.0


From ce86aa5a9e2a55f1b31cc887a4f39c1c0cc88582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 02/17] fix: sync: give transactions fetched over the eth_
 endpoints the right types

gas and fee fields were U256, which the fork modules refuse to compare with
Uint, and fee market transactions were built without their chain id.
---
 src/ethereum_spec_tools/sync.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ethereum_spec_tools/sync.py b/src/ethereum_spec_tools/sync.py
index 78a62d8..beba320 100644
--- a/src/ethereum_spec_tools/sync.py
+++ b/src/ethereum_spec_tools/sync.py
@@ -320,8 +320,8 @@ class BlockDownloader(ForkTracking):
                     self.module("transactions").AccessListTransaction(
                         hex_to_u64(t["chainId"]),
                         hex_to_u256(t["nonce"]),
-                        hex_to_u256(t["gasPrice"]),
-                        hex_to_u256(t["gas"]),
+                        hex_to_uint(t["gasPrice"]),
+                        hex_to_uint(t["gas"]),
                         self.module("utils.hexadecimal").hex_to_address(
                             t["to"]
                         )
@@ -340,9 +340,9 @@ class BlockDownloader(ForkTracking):
                     self.module("transactions").FeeMarketTransaction(
                         hex_to_u64(t["chainId"]),
                         hex_to_u256(t["nonce"]),
-                        hex_to_u256(t["maxPriorityFeePerGas"]),
-                        hex_to_u256(t["maxFeePerGas"]),
-                        hex_to_u256(t["gas"]),
+                        hex_to_uint(t["maxPriorityFeePerGas"]),
+                        hex_to_uint(t["maxFeePerGas"]),
+                        hex_to_uint(t["gas"]),
                         self.module("utils.hexadecimal").hex_to_address(
                             t["to"]
                         )
@@ -359,8 +359,8 @@ class BlockDownloader(ForkTracking):
             else:
                 return self.module("transactions").LegacyTransaction(
                     hex_to_u256(t["nonce"]),
-                    hex_to_u256(t["gasPrice"]),
-                    hex_to_u256(t["gas"]),
+                    hex_to_uint(t["gasPrice"]),
+                    hex_to_uint(t["gas"]),
                     self.module("utils.hexadecimal").hex_to_address(t["to"])
                     if t["to"]
                     else Bytes0(b""),
@@ -373,8 +373,8 @@ class BlockDownloader(ForkTracking):
         else:
             return self.module("transactions").Transaction(
                 hex_to_u256(t["nonce"]),
-                hex_to_u256(t["gasPrice"]),
-                hex_to_u256(t["gas"]),
+                hex_to_uint(t["gasPrice"]),
+                hex_to_uint(t["gas"]),
                 self.module("utils.hexadecimal").hex_to_address(t["to"])
                 if t["to"]
                 else Bytes0(b""),
-- 
2.43.0


From e75720e0946be9c8b6ba9906ebeee0abe6f4322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 03/17] fix: sync: decode ommers under the fork of the block
 including them

Ommers fetched over the eth_ endpoints were decoded before the download thread
advanced past the blocks of the same batch, so ommers after a fork boundary
inside a batch were built with the previous fork's header type.
---
 src/ethereum_spec_tools/sync.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ethereum_spec_tools/sync.py b/src/ethereum_spec_tools/sync.py
index beba320..391f1a5 100644
--- a/src/ethereum_spec_tools/sync.py
+++ b/src/ethereum_spec_tools/sync.py
@@ -455,7 +455,8 @@ class BlockDownloader(ForkTracking):
             for id in block_jsons:
                 self.advance_block(hex_to_u256(block_jsons[id]["timestamp"]))
                 blocks[id] = self.make_block(
-                    block_jsons[id], ommers.get(id, ())
+                    block_jsons[id],
+                    tuple(self.make_header(x) for x in ommers.get(id, ())),
                 )
 
             self.log.info("blocks [%d, %d) fetched", first, first + count)
@@ -517,9 +518,11 @@ class BlockDownloader(ForkTracking):
                         reply["error"]["message"],
                     )
                 else:
-                    ommers[reply_id // twenty][
-                        reply_id % twenty
-                    ] = self.make_header(reply["result"])
+                    # Not decoded yet, since the fork depends on the block
+                    # including the ommer.
+                    ommers[reply_id // twenty][reply_id % twenty] = reply[
+                        "result"
+                    ]
 
             self.log.info(
                 "ommers [%d, %d] fetched",
-- 
2.43.0


From aeaae167dbe9333030277fbdea8e670fa67cb3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 04/17] fix: sync: accept eth_ batch replies in any order,
 refuse incomplete ones

---
 src/ethereum_spec_tools/sync.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ethereum_spec_tools/sync.py b/src/ethereum_spec_tools/sync.py
index 391f1a5..f6cde42 100644
--- a/src/ethereum_spec_tools/sync.py
+++ b/src/ethereum_spec_tools/sync.py
@@ -429,12 +429,20 @@ class BlockDownloader(ForkTracking):
             ommers_needed: Dict[Uint, int] = {}
             blocks: Dict[Uint, Union[Any, RpcError]] = {}
 
+            # Replies to a batch can arrive in any order.
+            replies.sort(key=lambda reply: int(reply["id"], 0))
+
+            reply_ids = {Uint(int(reply["id"], 0)) for reply in replies}
+            if len(reply_ids) != count:
+                raise Exception(
+                    f"expected {count} blocks but only got {len(reply_ids)}"
+                )
+            if min(reply_ids) < first or max(reply_ids) >= first + count:
+                raise Exception("mismatched request id")
+
             for reply in replies:
                 reply_id = Uint(int(reply["id"], 0))
 
-                if reply_id < first or reply_id >= first + count:
-                    raise Exception("mismatched request id")
-
                 if "error" in reply:
                     blocks[reply_id] = RpcError(
                         reply["error"]["code"],
-- 
2.43.0


From 89041585ca9696e745f4b3d1b33c32cbebdc2afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 05/17] fix: sync: report download failures instead of waiting
 for blocks forever

---
 src/ethereum_spec_tools/sync.py | 39 +++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/ethereum_spec_tools/sync.py b/src/ethereum_spec_tools/sync.py
index f6cde42..998a61b 100644
--- a/src/ethereum_spec_tools/sync.py
+++ b/src/ethereum_spec_tools/sync.py
@@ -146,11 +146,38 @@ class BlockDownloader(ForkTracking):
         # Use a loop+timeout so that KeyboardInterrupt is still raised.
         while True:
             try:
-                return self.queue.get(timeout=1)
+                item = self.queue.get(timeout=1)
             except Empty:
-                pass
+                continue
+
+            if isinstance(item, Exception):
+                raise item
+            return item
 
     def download(self) -> None:
+        """
+        Download blocks until the end of the chain, and hand any failure over
+        to the thread taking the blocks.
+        """
+        try:
+            self.download_blocks()
+        except Exception as e:
+            self.log.exception("download failed")
+            self.push(e)
+
+    def push(self, item: Any) -> None:
+        """
+        Append an item to the download queue.
+        """
+        # Use a loop+timeout so that KeyboardInterrupt is still raised.
+        while True:
+            try:
+                self.queue.put(item, timeout=1)
+                break
+            except Full:
+                pass
+
+    def download_blocks(self) -> None:
         """
         Fetch chunks of blocks from the RPC provider.
         """
@@ -173,13 +200,7 @@ class BlockDownloader(ForkTracking):
                 else:
                     to_push = reply
 
-                # Use a loop+timeout so that KeyboardInterrupt is still raised.
-                while True:
-                    try:
-                        self.queue.put(to_push, timeout=1)
-                        break
-                    except Full:
-                        pass
+                self.push(to_push)
 
     def fetch_blocks(
         self,
-- 
2.43.0


From 049ba7229395c3cc9462851582c63ec4bd906062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:31 +0000
Subject: [PATCH 06/17] fix: sync: refuse incomplete ommer replies

---
 src/ethereum_spec_tools/sync.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ethereum_spec_tools/sync.py b/src/ethereum_spec_tools/sync.py
index 998a61b..64918a8 100644
--- a/src/ethereum_spec_tools/sync.py
+++ b/src/ethereum_spec_tools/sync.py
@@ -553,6 +553,14 @@ class BlockDownloader(ForkTracking):
                         "result"
                     ]
 
+            for block_number, num_ommers in ommers_needed.items():
+                got = len(ommers.get(block_number, {}))
+                if got != num_ommers:
+                    raise Exception(
+                        f"expected {num_ommers} ommers for block "
+                        f"{block_number} but got {got}"
+                    )
+
             self.log.info(
                 "ommers [%d, %d] fetched",
                 min(ommers_needed),
-- 
2.43.0


From b04a4ef8601f99c4d205f7c2a0e695a04de939ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:24 +0000
Subject: [PATCH 07/17] fix: london: check the gas limit of the first block

The check is part of the base fee calculation, which the first block skips,
so that block could set any gas limit. EIP-1559 bounds it by the parent's
limit scaled by the elasticity multiplier.
---
 src/ethereum/london/fork.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ethereum/london/fork.py b/src/ethereum/london/fork.py
index 0d2c06f..19946ae 100644
--- a/src/ethereum/london/fork.py
+++ b/src/ethereum/london/fork.py
@@ -325,6 +325,11 @@ def validate_header(chain: BlockChain, header: Header) -> None:
             parent_header.gas_used,
             parent_header.base_fee_per_gas,
         )
+    elif not check_gas_limit(
+        header.gas_limit, parent_header.gas_limit * ELASTICITY_MULTIPLIER
+    ):
+        # The first block may scale the gas limit by the elasticity multiplier.
+        raise InvalidBlock
 
     if expected_base_fee_per_gas != header.base_fee_per_gas:
         raise InvalidBlock
-- 
2.43.0


From 835e34e52c21f9135f6cd46bbe1bcda1f24838a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:24 +0000
Subject: [PATCH 08/17] fix: refuse typed transactions signed for another chain

The chain id inside an access list, fee market, blob or set code transaction
was hashed into the signing hash but never compared with the chain's own, so
a transaction signed for one chain could be included in another.
---
 src/ethereum/arrow_glacier/transactions.py |  7 ++++++-
 src/ethereum/berlin/transactions.py        |  5 ++++-
 src/ethereum/cancun/transactions.py        |  9 ++++++++-
 src/ethereum/gray_glacier/transactions.py  |  7 ++++++-
 src/ethereum/london/transactions.py        |  7 ++++++-
 src/ethereum/osaka/transactions.py         | 11 ++++++++++-
 src/ethereum/paris/transactions.py         |  7 ++++++-
 src/ethereum/prague/transactions.py        | 11 ++++++++++-
 src/ethereum/shanghai/transactions.py      |  7 ++++++-
 9 files changed, 62 insertions(+), 9 deletions(-)

diff --git a/src/ethereum/arrow_glacier/transactions.py b/src/ethereum/arrow_glacier/transactions.py
index 751ed8f..e1cfb16 100644
--- a/src/ethereum/arrow_glacier/transactions.py
+++ b/src/ethereum/arrow_glacier/transactions.py
@@ -413,7 +413,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
 
     This function takes chain_id and a transaction as parameters and returns
     the address of the sender of the transaction. It raises an
-    `InvalidSignatureError` if the signature values (r, s, v) are invalid.
+    `InvalidSignatureError` if the signature values (r, s, v) are invalid or
+    the transaction was signed for another chain.
     """
     r, s = tx.r, tx.s
     if U256(0) >= r or r >= SECP256K1N:
@@ -438,12 +439,16 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
                 signing_hash_155(tx, chain_id),
             )
     elif isinstance(tx, AccessListTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
             r, s, tx.y_parity, signing_hash_2930(tx)
         )
     elif isinstance(tx, FeeMarketTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
diff --git a/src/ethereum/berlin/transactions.py b/src/ethereum/berlin/transactions.py
index 4832858..c109809 100644
--- a/src/ethereum/berlin/transactions.py
+++ b/src/ethereum/berlin/transactions.py
@@ -330,7 +330,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
 
     This function takes chain_id and a transaction as parameters and returns
     the address of the sender of the transaction. It raises an
-    `InvalidSignatureError` if the signature values (r, s, v) are invalid.
+    `InvalidSignatureError` if the signature values (r, s, v) are invalid or
+    the transaction was signed for another chain.
     """
     r, s = tx.r, tx.s
     if U256(0) >= r or r >= SECP256K1N:
@@ -355,6 +356,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
                 signing_hash_155(tx, chain_id),
             )
     elif isinstance(tx, AccessListTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
diff --git a/src/ethereum/cancun/transactions.py b/src/ethereum/cancun/transactions.py
index 98a82bd..685b34b 100644
--- a/src/ethereum/cancun/transactions.py
+++ b/src/ethereum/cancun/transactions.py
@@ -526,7 +526,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
 
     This function takes chain_id and a transaction as parameters and returns
     the address of the sender of the transaction. It raises an
-    `InvalidSignatureError` if the signature values (r, s, v) are invalid.
+    `InvalidSignatureError` if the signature values (r, s, v) are invalid or
+    the transaction was signed for another chain.
     """
     r, s = tx.r, tx.s
     if U256(0) >= r or r >= SECP256K1N:
@@ -551,18 +552,24 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
                 signing_hash_155(tx, chain_id),
             )
     elif isinstance(tx, AccessListTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
             r, s, tx.y_parity, signing_hash_2930(tx)
         )
     elif isinstance(tx, FeeMarketTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
             r, s, tx.y_parity, signing_hash_1559(tx)
         )
     elif isinstance(tx, BlobTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
diff --git a/src/ethereum/gray_glacier/transactions.py b/src/ethereum/gray_glacier/transactions.py
index 751ed8f..e1cfb16 100644
--- a/src/ethereum/gray_glacier/transactions.py
+++ b/src/ethereum/gray_glacier/transactions.py
@@ -413,7 +413,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
 
     This function takes chain_id and a transaction as parameters and returns
     the address of the sender of the transaction. It raises an
-    `InvalidSignatureError` if the signature values (r, s, v) are invalid.
+    `InvalidSignatureError` if the signature values (r, s, v) are invalid or
+    the transaction was signed for another chain.
     """
     r, s = tx.r, tx.s
     if U256(0) >= r or r >= SECP256K1N:
@@ -438,12 +439,16 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
                 signing_hash_155(tx, chain_id),
             )
     elif isinstance(tx, AccessListTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
             r, s, tx.y_parity, signing_hash_2930(tx)
         )
     elif isinstance(tx, FeeMarketTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
diff --git a/src/ethereum/london/transactions.py b/src/ethereum/london/transactions.py
index 751ed8f..e1cfb16 100644
--- a/src/ethereum/london/transactions.py
+++ b/src/ethereum/london/transactions.py
@@ -413,7 +413,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
 
     This function takes chain_id and a transaction as parameters and returns
     the address of the sender of the transaction. It raises an
-    `InvalidSignatureError` if the signature values (r, s, v) are invalid.
+    `InvalidSignatureError` if the signature values (r, s, v) are invalid or
+    the transaction was signed for another chain.
     """
     r, s = tx.r, tx.s
     if U256(0) >= r or r >= SECP256K1N:
@@ -438,12 +439,16 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
                 signing_hash_155(tx, chain_id),
             )
     elif isinstance(tx, AccessListTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
             r, s, tx.y_parity, signing_hash_2930(tx)
         )
     elif isinstance(tx, FeeMarketTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
diff --git a/src/ethereum/osaka/transactions.py b/src/ethereum/osaka/transactions.py
index 90b1dee..447de8f 100644
--- a/src/ethereum/osaka/transactions.py
+++ b/src/ethereum/osaka/transactions.py
@@ -658,7 +658,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
 
     This function takes chain_id and a transaction as parameters and returns
     the address of the sender of the transaction. It raises an
-    `InvalidSignatureError` if the signature values (r, s, v) are invalid.
+    `InvalidSignatureError` if the signature values (r, s, v) are invalid or
+    the transaction was signed for another chain.
     """
     r, s = tx.r, tx.s
     if U256(0) >= r or r >= SECP256K1N:
@@ -683,24 +684,32 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
                 signing_hash_155(tx, chain_id),
             )
     elif isinstance(tx, AccessListTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
             r, s, tx.y_parity, signing_hash_2930(tx)
         )
     elif isinstance(tx, FeeMarketTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
             r, s, tx.y_parity, signing_hash_1559(tx)
         )
     elif isinstance(tx, BlobTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
             r, s, tx.y_parity, signing_hash_4844(tx)
         )
     elif isinstance(tx, SetCodeTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
diff --git a/src/ethereum/paris/transactions.py b/src/ethereum/paris/transactions.py
index 751ed8f..e1cfb16 100644
--- a/src/ethereum/paris/transactions.py
+++ b/src/ethereum/paris/transactions.py
@@ -413,7 +413,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
 
     This function takes chain_id and a transaction as parameters and returns
     the address of the sender of the transaction. It raises an
-    `InvalidSignatureError` if the signature values (r, s, v) are invalid.
+    `InvalidSignatureError` if the signature values (r, s, v) are invalid or
+    the transaction was signed for another chain.
     """
     r, s = tx.r, tx.s
     if U256(0) >= r or r >= SECP256K1N:
@@ -438,12 +439,16 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
                 signing_hash_155(tx, chain_id),
             )
     elif isinstance(tx, AccessListTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
             r, s, tx.y_parity, signing_hash_2930(tx)
         )
     elif isinstance(tx, FeeMarketTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
diff --git a/src/ethereum/prague/transactions.py b/src/ethereum/prague/transactions.py
index b4023f1..a95ba94 100644
--- a/src/ethereum/prague/transactions.py
+++ b/src/ethereum/prague/transactions.py
@@ -650,7 +650,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
 
     This function takes chain_id and a transaction as parameters and returns
     the address of the sender of the transaction. It raises an
-    `InvalidSignatureError` if the signature values (r, s, v) are invalid.
+    `InvalidSignatureError` if the signature values (r, s, v) are invalid or
+    the transaction was signed for another chain.
     """
     r, s = tx.r, tx.s
     if U256(0) >= r or r >= SECP256K1N:
@@ -675,24 +676,32 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
                 signing_hash_155(tx, chain_id),
             )
     elif isinstance(tx, AccessListTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
             r, s, tx.y_parity, signing_hash_2930(tx)
         )
     elif isinstance(tx, FeeMarketTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
             r, s, tx.y_parity, signing_hash_1559(tx)
         )
     elif isinstance(tx, BlobTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
             r, s, tx.y_parity, signing_hash_4844(tx)
         )
     elif isinstance(tx, SetCodeTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
diff --git a/src/ethereum/shanghai/transactions.py b/src/ethereum/shanghai/transactions.py
index 1dff83b..f0665ae 100644
--- a/src/ethereum/shanghai/transactions.py
+++ b/src/ethereum/shanghai/transactions.py
@@ -425,7 +425,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
 
     This function takes chain_id and a transaction as parameters and returns
     the address of the sender of the transaction. It raises an
-    `InvalidSignatureError` if the signature values (r, s, v) are invalid.
+    `InvalidSignatureError` if the signature values (r, s, v) are invalid or
+    the transaction was signed for another chain.
     """
     r, s = tx.r, tx.s
     if U256(0) >= r or r >= SECP256K1N:
@@ -450,12 +451,16 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
                 signing_hash_155(tx, chain_id),
             )
     elif isinstance(tx, AccessListTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
             r, s, tx.y_parity, signing_hash_2930(tx)
         )
     elif isinstance(tx, FeeMarketTransaction):
+        if tx.chain_id != chain_id:
+            raise InvalidSignatureError("bad chain id")
         if tx.y_parity not in (U256(0), U256(1)):
             raise InvalidSignatureError("bad y_parity")
         public_key = secp256k1_recover(
-- 
2.43.0


From db53e9ab464055c358308ac520f8a82ef22a11e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:51 +0000
Subject: [PATCH 09/17] fix: frontier: let the difficulty bomb go off

Adding a plain integer to the Uint difficulty raised a TypeError, so no
frontier block from number 200000 on could be imported.
---
 src/ethereum/frontier/fork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ethereum/frontier/fork.py b/src/ethereum/frontier/fork.py
index 95407d2..78a539c 100644
--- a/src/ethereum/frontier/fork.py
+++ b/src/ethereum/frontier/fork.py
@@ -768,7 +768,7 @@ def calculate_block_difficulty(
     # See https://github.com/ethereum/go-ethereum/pull/1588
     num_bomb_periods = (int(block_number) // 100000) - 2
     if num_bomb_periods >= 0:
-        difficulty += 2**num_bomb_periods
+        difficulty += Uint(2**num_bomb_periods)
 
     # Some clients raise the difficulty to `MINIMUM_DIFFICULTY` prior to adding
     # the bomb. This bug does not matter because the difficulty is always much
-- 
2.43.0


From 00480b27729f75bc49fc564fbb478c6b67a1a7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:51 +0000
Subject: [PATCH 10/17] fix: refuse proof-of-work blocks that are not children
 of the chain's tip

A header is checked against the block at the height before it, which lets
ommers be checked with the same function. For the block itself nothing made
that height the tip's, so a block that names an older ancestor as its parent
but commits to a state computed on top of the tip was appended to the chain.
---
 src/ethereum/arrow_glacier/fork.py     | 2 ++
 src/ethereum/berlin/fork.py            | 2 ++
 src/ethereum/byzantium/fork.py         | 2 ++
 src/ethereum/constantinople/fork.py    | 2 ++
 src/ethereum/dao_fork/fork.py          | 2 ++
 src/ethereum/frontier/fork.py          | 2 ++
 src/ethereum/gray_glacier/fork.py      | 2 ++
 src/ethereum/homestead/fork.py         | 2 ++
 src/ethereum/istanbul/fork.py          | 2 ++
 src/ethereum/london/fork.py            | 2 ++
 src/ethereum/muir_glacier/fork.py      | 2 ++
 src/ethereum/spurious_dragon/fork.py   | 2 ++
 src/ethereum/tangerine_whistle/fork.py | 2 ++
 13 files changed, 26 insertions(+)

diff --git a/src/ethereum/arrow_glacier/fork.py b/src/ethereum/arrow_glacier/fork.py
index ef4669a..b50ccca 100644
--- a/src/ethereum/arrow_glacier/fork.py
+++ b/src/ethereum/arrow_glacier/fork.py
@@ -170,6 +170,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/berlin/fork.py b/src/ethereum/berlin/fork.py
index a2b59a5..9dda415 100644
--- a/src/ethereum/berlin/fork.py
+++ b/src/ethereum/berlin/fork.py
@@ -162,6 +162,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/byzantium/fork.py b/src/ethereum/byzantium/fork.py
index 71b6ff1..83e2e7a 100644
--- a/src/ethereum/byzantium/fork.py
+++ b/src/ethereum/byzantium/fork.py
@@ -157,6 +157,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/constantinople/fork.py b/src/ethereum/constantinople/fork.py
index 404ff57..03309c4 100644
--- a/src/ethereum/constantinople/fork.py
+++ b/src/ethereum/constantinople/fork.py
@@ -157,6 +157,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/dao_fork/fork.py b/src/ethereum/dao_fork/fork.py
index 4b8fcf8..935e50a 100644
--- a/src/ethereum/dao_fork/fork.py
+++ b/src/ethereum/dao_fork/fork.py
@@ -164,6 +164,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/frontier/fork.py b/src/ethereum/frontier/fork.py
index 78a539c..0067b2b 100644
--- a/src/ethereum/frontier/fork.py
+++ b/src/ethereum/frontier/fork.py
@@ -154,6 +154,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/gray_glacier/fork.py b/src/ethereum/gray_glacier/fork.py
index 479d457..7e4d1fe 100644
--- a/src/ethereum/gray_glacier/fork.py
+++ b/src/ethereum/gray_glacier/fork.py
@@ -170,6 +170,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/homestead/fork.py b/src/ethereum/homestead/fork.py
index 088e418..63aa14e 100644
--- a/src/ethereum/homestead/fork.py
+++ b/src/ethereum/homestead/fork.py
@@ -154,6 +154,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/istanbul/fork.py b/src/ethereum/istanbul/fork.py
index 404ff57..03309c4 100644
--- a/src/ethereum/istanbul/fork.py
+++ b/src/ethereum/istanbul/fork.py
@@ -157,6 +157,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/london/fork.py b/src/ethereum/london/fork.py
index 19946ae..19a6716 100644
--- a/src/ethereum/london/fork.py
+++ b/src/ethereum/london/fork.py
@@ -171,6 +171,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/muir_glacier/fork.py b/src/ethereum/muir_glacier/fork.py
index 39e6e1f..dcd2463 100644
--- a/src/ethereum/muir_glacier/fork.py
+++ b/src/ethereum/muir_glacier/fork.py
@@ -157,6 +157,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/spurious_dragon/fork.py b/src/ethereum/spurious_dragon/fork.py
index e3652c9..5227124 100644
--- a/src/ethereum/spurious_dragon/fork.py
+++ b/src/ethereum/spurious_dragon/fork.py
@@ -155,6 +155,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/tangerine_whistle/fork.py b/src/ethereum/tangerine_whistle/fork.py
index 2489eb6..b5e9c09 100644
--- a/src/ethereum/tangerine_whistle/fork.py
+++ b/src/ethereum/tangerine_whistle/fork.py
@@ -153,6 +153,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
-- 
2.43.0


From 33a56948ed0f71aff96604cb7af1887f0105bc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 11/17] fix: t8n: uninstall the tracers when the run is over

The tracers of one run stayed installed, so that in a process running
several (such as the daemon) later runs without tracing kept writing
trace files for the first.
---
 .../evm_tools/t8n/__init__.py                 | 35 ++++++++++++++-----
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
index 2fad681..9091b91 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
@@ -6,7 +6,8 @@ import argparse
 import fnmatch
 import json
 import os
-from typing import Any, Final, TextIO, Type, TypeVar
+from contextlib import contextmanager
+from typing import Any, Final, Iterator, TextIO, Type, TypeVar
 
 from ethereum_rlp import rlp
 from ethereum_types.numeric import U64, U256, Uint
@@ -128,7 +129,6 @@ class T8N(Load):
 
         maybe_tracers: GroupTracer | None
         if tracers.tracers:
-            trace.set_evm_trace(tracers)
             maybe_tracers = tracers
         else:
             maybe_tracers = None
@@ -150,6 +150,21 @@ class T8N(Load):
             self.env.block_difficulty, self.env.base_fee_per_gas
         )
 
+    @contextmanager
+    def _tracing(self) -> Iterator[None]:
+        """
+        Install the tracers of this run, and put back the previous one after.
+        """
+        if self.tracers is None:
+            yield
+            return
+
+        previous = trace.set_evm_trace(self.tracers)
+        try:
+            yield
+        finally:
+            trace.set_evm_trace(previous)
+
     def _tracer(self, type_: Type[T]) -> T:
         group = self.tracers
         if group is None:
@@ -237,12 +252,13 @@ class T8N(Load):
         if len(self.txs.transactions) > 0:
             tx = self.txs.transactions[0]
             try:
-                self.fork.process_transaction(
-                    block_env=block_env,
-                    block_output=block_output,
-                    tx=tx,
-                    index=Uint(0),
-                )
+                with self._tracing():
+                    self.fork.process_transaction(
+                        block_env=block_env,
+                        block_output=block_output,
+                        tx=tx,
+                        index=Uint(0),
+                    )
             except EthereumException as e:
                 self.txs.rejected_txs[0] = f"Failed transaction: {e!r}"
                 self.restore_state()
@@ -301,7 +317,8 @@ class T8N(Load):
         block_output = self.fork.BlockOutput()
 
         try:
-            self._run_blockchain_test(block_env, block_output)
+            with self._tracing():
+                self._run_blockchain_test(block_env, block_output)
         except InvalidBlock as e:
             self.result.block_exception = f"{e}"
 
-- 
2.43.0


From 9148d19b55d29020b618043bf8874d73347ff0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 12/17] fix: daemon: survive requests that make the tool exit

The tool calls sys.exit() for bad arguments and unsupported forks, which
ended the daemon.
---
 src/ethereum_spec_tools/evm_tools/daemon.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ethereum_spec_tools/evm_tools/daemon.py b/src/ethereum_spec_tools/evm_tools/daemon.py
index 2acf6fd..386c4fa 100644
--- a/src/ethereum_spec_tools/evm_tools/daemon.py
+++ b/src/ethereum_spec_tools/evm_tools/daemon.py
@@ -112,7 +112,11 @@ class _EvmToolHandler(BaseHTTPRequestHandler):
         with TextIOWrapper(
             self.wfile, encoding="utf-8"  # type: ignore[type-var]
         ) as out_wrapper:
-            main(args=args, out_file=out_wrapper, in_file=input)
+            try:
+                main(args=args, out_file=out_wrapper, in_file=input)
+            except SystemExit as e:
+                # Exiting ends the tool run, not the daemon.
+                raise Exception(f"tool exited: {e.code}") from e
 
 
 class _UnixSocketHttpServer(socketserver.UnixStreamServer):
-- 
2.43.0


From 32b70805698188b300cfeb904960d4407473a5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 13/17] fix: daemon: do not shut down while answering a request

A request taking longer than the timeout made the daemon stop right after
it, dropping the requests waiting behind it.
---
 src/ethereum_spec_tools/evm_tools/daemon.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ethereum_spec_tools/evm_tools/daemon.py b/src/ethereum_spec_tools/evm_tools/daemon.py
index 386c4fa..fb491e3 100644
--- a/src/ethereum_spec_tools/evm_tools/daemon.py
+++ b/src/ethereum_spec_tools/evm_tools/daemon.py
@@ -122,11 +122,13 @@ class _EvmToolHandler(BaseHTTPRequestHandler):
 class _UnixSocketHttpServer(socketserver.UnixStreamServer):
     last_response: float
     shutdown_timeout: int
+    busy: bool
 
     def __init__(
         self, *args: Any, shutdown_timeout: int, **kwargs: Any
     ) -> None:
         self.shutdown_timeout = shutdown_timeout
+        self.busy = False
         # Add a 60-second allowance to prevent server from timing out during
         # startup
         self.last_response = time.monotonic() + 60.0
@@ -139,14 +141,19 @@ class _UnixSocketHttpServer(socketserver.UnixStreamServer):
     def finish_request(
         self, request: Union[socket, Tuple[bytes, socket]], client_address: Any
     ) -> None:
+        self.busy = True
         try:
             super().finish_request(request, client_address)
         finally:
             self.last_response = time.monotonic()
+            self.busy = False
 
     def check_timeout(self) -> None:
         while self.shutdown_timeout != 0:
             time.sleep(11.0)
+            if self.busy:
+                # Answering a request is not being idle, however long it takes.
+                continue
             now = time.monotonic()
             last_response = self.last_response
             if last_response is None:
-- 
2.43.0


From 83895be79a655f87dc2c70d64b28f7c03148b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 14/17] fix: t8n: pay the rewards of ommers

Ommers given to the tool have an age and an address, not a number and a
coinbase, so every run with ommers failed with an AttributeError.
---
 src/ethereum_spec_tools/evm_tools/t8n/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
index 9091b91..d072db5 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
@@ -233,12 +233,12 @@ class T8N(Load):
 
         for ommer in self.env.ommers:
             # Ommer age with respect to the current block.
-            ommer_age = U256(block_env.number - ommer.number)
+            ommer_age = parse_hex_or_int(ommer.delta, U256)
             ommer_miner_reward = (
                 (U256(8) - ommer_age) * block_reward
             ) // U256(8)
             self.fork.create_ether(
-                block_env.state, ommer.coinbase, ommer_miner_reward
+                block_env.state, ommer.address, ommer_miner_reward
             )
 
     def run_state_test(self) -> Any:
-- 
2.43.0


From be54d2eca0c5072ab20d9a96dd9a859141802deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 15/17] fix: t8n: keep the chain id of typed transactions given
 as JSON

Every transaction was taken to be for chain 1, so that the sender of one
signed for another chain was recovered wrongly.
---
 .../evm_tools/loaders/transaction_loader.py                  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ethereum_spec_tools/evm_tools/loaders/transaction_loader.py b/src/ethereum_spec_tools/evm_tools/loaders/transaction_loader.py
index 2c4e652..50fb4e6 100644
--- a/src/ethereum_spec_tools/evm_tools/loaders/transaction_loader.py
+++ b/src/ethereum_spec_tools/evm_tools/loaders/transaction_loader.py
@@ -42,7 +42,10 @@ class TransactionLoad:
 
     def json_to_chain_id(self) -> U64:
         """Get chain ID for the transaction."""
-        return U64(1)
+        chain_id = self.raw.get("chainId")
+        if chain_id is None:
+            return U64(1)
+        return parse_hex_or_int(chain_id, U64)
 
     def json_to_nonce(self) -> U256:
         """Get the nonce for the transaction."""
-- 
2.43.0


From b0805557d180cceb98fda94cbb589c2201219201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 16/17] fix: t8n: put typed transactions given as JSON into the
 body in their envelope

---
 src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
index d99b778..7979b60 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
@@ -177,13 +177,12 @@ class Txs:
         if "secretKey" in raw_tx and v == r == s == 0:
             self.sign_transaction(raw_tx)
 
-        tx = TransactionLoad(raw_tx, t8n.fork).read()
-        self.all_txs.append(tx)
+        transaction = TransactionLoad(raw_tx, t8n.fork).read()
 
         if t8n.fork.is_after_fork("ethereum.berlin"):
-            transaction = t8n.fork.decode_transaction(tx)
+            self.all_txs.append(t8n.fork.encode_transaction(transaction))
         else:
-            transaction = tx
+            self.all_txs.append(transaction)
 
         return transaction
 
-- 
2.43.0


From c944e78fd54d3fb1c08339964f146acb040a00bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 17/17] fix: t8n: report the blob gas used

---
 src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
index 7979b60..811901e 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
@@ -318,6 +318,9 @@ class Result:
         if hasattr(block_env, "excess_blob_gas"):
             self.excess_blob_gas = block_env.excess_blob_gas
 
+        if hasattr(block_output, "blob_gas_used"):
+            self.blob_gas_used = block_output.blob_gas_used
+
         if hasattr(block_output, "requests"):
             self.requests = block_output.requests
             self.requests_hash = t8n.fork.compute_requests_hash(self.requests)
-- 
2.43.0

