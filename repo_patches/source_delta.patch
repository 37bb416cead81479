From 4d31e4982e3449ab2bde0ea405d5c514bfe6f051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 01/42] fix: stash nonce increments and the coinbase fee so
 that they reach the committed state

The nonce increment of a transaction was left in the cache: the next
failing transaction reverted it, and that of the last transaction was
never committed. The fee credited to the coinbase was never committed.
---
 core/executor/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/executor/src/lib.rs b/core/executor/src/lib.rs
index 53061b0..9a8529b 100644
--- a/core/executor/src/lib.rs
+++ b/core/executor/src/lib.rs
@@ -125,6 +125,7 @@ impl<DB: TrieDB> Executor for TransactionExecutor<DB> {
             };
 
             self.account_contract.inc_nonce(Rc::clone(&ictx))?;
+            self.stash()?;
 
             let receipt = Receipt {
                 state_root: Hash::from_empty(),
@@ -151,6 +152,7 @@ impl<DB: TrieDB> Executor for TransactionExecutor<DB> {
                 Balance::from(cycles_used.cycle),
             )?;
         }
+        self.stash()?;
 
         // commit state
         let state_root = self.commit()?;
-- 
2.43.0


From e3f2798fc424b99ff19298df05af4ab63f945ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 02/42] fix: a transaction from a sender without an account
 must not abort the whole block

inc_nonce returned AccountNotFound, which exec propagated: no receipt was
produced for any transaction of the block.
---
 core/executor/src/native_contract/account.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/executor/src/native_contract/account.rs b/core/executor/src/native_contract/account.rs
index 8de79bf..280eaa1 100644
--- a/core/executor/src/native_contract/account.rs
+++ b/core/executor/src/native_contract/account.rs
@@ -110,7 +110,7 @@ impl<StateAdapter: ContractStateAdapter> AccountContract<StateAdapter>
 
     fn inc_nonce(&mut self, ictx: RcInvokeContext) -> ProtocolResult<()> {
         let caller = &ictx.borrow().caller;
-        let account = self.get_account(caller)?;
+        let account = self.find_or_create(caller)?;
 
         let modified_account = match account {
             Account::User(user) => Account::User(UserAccount {
-- 
2.43.0


From 79026474be25ecaf22df33ecc89822e8a045e7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 03/42] fix: unsupported transactions fail instead of panicking
 the node

Anyone can submit a call, an approval or the deployment of a non-asset
contract; executing it aborted the node.
---
 core/executor/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/executor/src/lib.rs b/core/executor/src/lib.rs
index 9a8529b..9aaeb8a 100644
--- a/core/executor/src/lib.rs
+++ b/core/executor/src/lib.rs
@@ -190,7 +190,7 @@ impl<DB: TrieDB> TransactionExecutor<DB> {
                 code,
                 contract_type,
             } => self.handle_deploy(Rc::clone(&ictx), code, contract_type)?,
-            _ => panic!("Unsupported transaction"),
+            _ => return Err(TransactionExecutorError::UnsupportedTransaction.into()),
         };
 
         Ok(res)
@@ -256,7 +256,7 @@ impl<DB: TrieDB> TransactionExecutor<DB> {
                     contract_type: ContractType::Asset,
                 })
             }
-            _ => panic!("Unsupported transaction"),
+            _ => Err(TransactionExecutorError::UnsupportedTransaction.into()),
         }
     }
 
@@ -407,6 +407,9 @@ fn gen_invoke_ctx(
 pub enum TransactionExecutorError {
     FromHex(hex::FromHexError),
     ParseInt(ParseIntError),
+
+    #[display(fmt = "unsupported transaction")]
+    UnsupportedTransaction,
 }
 
 impl Error for TransactionExecutorError {}
-- 
2.43.0


From c1efa3d136191c6946ef97ae6b9e374b6be763f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 04/42] fix: create_account stores the account it creates

A genesis account without assets was returned but never written.
---
 core/executor/src/native_contract/account.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/executor/src/native_contract/account.rs b/core/executor/src/native_contract/account.rs
index 280eaa1..78157a3 100644
--- a/core/executor/src/native_contract/account.rs
+++ b/core/executor/src/native_contract/account.rs
@@ -55,7 +55,12 @@ impl<StateAdapter: ContractStateAdapter> AccountContract<StateAdapter>
     }
 
     fn create_account(&mut self, address: &Address) -> ProtocolResult<Account> {
-        self.find_or_create(address)
+        let account = self.find_or_create(address)?;
+
+        self.state_adapter
+            .borrow_mut()
+            .insert_cache::<FixedAccountSchema>(address.clone(), account.clone())?;
+        Ok(account)
     }
 
     fn add_balance(
-- 
2.43.0


From 32c40cb741b6fa7f042289b7714f67fbfacf6e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 05/42] executor: hook: re-export the contract state adapter
 and native contracts under cfg(verif_hooks)

---
 core/executor/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/executor/src/lib.rs b/core/executor/src/lib.rs
index 9aaeb8a..17950f3 100644
--- a/core/executor/src/lib.rs
+++ b/core/executor/src/lib.rs
@@ -419,3 +419,11 @@ impl From<TransactionExecutorError> for ProtocolError {
         ProtocolError::new(ProtocolErrorKind::Executor, Box::new(err))
     }
 }
+
+/// Access for the verification harness; not part of a normal build.
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub use crate::adapter::GeneralContractStateAdapter;
+    pub use crate::fixed_types::{FixedAccountSchema, FixedAssetSchema, FixedBytesSchema};
+    pub use crate::native_contract::{NativeAccountContract, NativeBankContract};
+}
-- 
2.43.0


From 11adff6f1d16eda1e3a0fb2a6b28fb8d1c8e59cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 06/42] fix: a contract account cannot spend a balance it does
 not have

---
 core/executor/src/native_contract/account.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/executor/src/native_contract/account.rs b/core/executor/src/native_contract/account.rs
index 78157a3..337a5e2 100644
--- a/core/executor/src/native_contract/account.rs
+++ b/core/executor/src/native_contract/account.rs
@@ -274,12 +274,16 @@ impl<StateAdapter: ContractStateAdapter> NativeAccountContract<StateAdapter> {
         account: &mut ContractAccount,
         amount: Balance,
     ) -> ProtocolResult<()> {
-        account
-            .assets
-            .entry(id.clone())
-            .and_modify(|balance| *balance -= amount.clone())
-            .or_insert(amount);
-        Ok(())
+        if let Some(balance) = account.assets.get_mut(id) {
+            if *balance < amount {
+                return Err(NativeAccountContractError::InsufficientBalance.into());
+            }
+
+            *balance -= amount;
+            return Ok(());
+        }
+
+        Err(NativeAccountContractError::InsufficientBalance.into())
     }
 }
 
-- 
2.43.0


From a800d0ce1cf5684dc5350f8eea84b4ba5bb1a516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 07/42] fix: memory storage keeps records of different
 categories apart

---
 core/storage/src/adapter/memory.rs | 31 ++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/core/storage/src/adapter/memory.rs b/core/storage/src/adapter/memory.rs
index 8e4abf5..f4946d4 100644
--- a/core/storage/src/adapter/memory.rs
+++ b/core/storage/src/adapter/memory.rs
@@ -8,7 +8,7 @@ use derive_more::{Display, From};
 use parking_lot::RwLock;
 
 use protocol::codec::ProtocolCodec;
-use protocol::traits::{StorageAdapter, StorageBatchModify, StorageSchema};
+use protocol::traits::{StorageAdapter, StorageBatchModify, StorageCategory, StorageSchema};
 use protocol::{ProtocolError, ProtocolErrorKind, ProtocolResult};
 
 #[derive(Debug)]
@@ -39,7 +39,7 @@ impl StorageAdapter for MemoryAdapter {
         mut key: <S as StorageSchema>::Key,
         mut val: <S as StorageSchema>::Value,
     ) -> ProtocolResult<()> {
-        let key = key.encode().await?.to_vec();
+        let key = category_key::<S>(&key.encode().await?);
         let val = val.encode().await?.to_vec();
 
         self.db.write().insert(key, val);
@@ -51,9 +51,9 @@ impl StorageAdapter for MemoryAdapter {
         &self,
         mut key: <S as StorageSchema>::Key,
     ) -> ProtocolResult<Option<<S as StorageSchema>::Value>> {
-        let key = key.encode().await?;
+        let key = category_key::<S>(&key.encode().await?);
 
-        let opt_bytes = self.db.read().get(&key.to_vec()).cloned();
+        let opt_bytes = self.db.read().get(&key).cloned();
 
         if let Some(bytes) = opt_bytes {
             let val = <_>::decode(bytes).await?;
@@ -68,7 +68,7 @@ impl StorageAdapter for MemoryAdapter {
         &self,
         mut key: <S as StorageSchema>::Key,
     ) -> ProtocolResult<()> {
-        let key = key.encode().await?.to_vec();
+        let key = category_key::<S>(&key.encode().await?);
 
         self.db.write().remove(&key);
 
@@ -79,7 +79,7 @@ impl StorageAdapter for MemoryAdapter {
         &self,
         mut key: <S as StorageSchema>::Key,
     ) -> ProtocolResult<bool> {
-        let key = key.encode().await?.to_vec();
+        let key = category_key::<S>(&key.encode().await?);
 
         Ok(self.db.read().get(&key).is_some())
     }
@@ -93,10 +93,10 @@ impl StorageAdapter for MemoryAdapter {
             return Err(MemoryAdapterError::BatchLengthMismatch.into());
         }
 
-        let mut pairs: Vec<(Bytes, Option<Bytes>)> = Vec::with_capacity(keys.len());
+        let mut pairs: Vec<(Vec<u8>, Option<Bytes>)> = Vec::with_capacity(keys.len());
 
         for (mut key, value) in keys.into_iter().zip(vals.into_iter()) {
-            let key = key.encode().await?;
+            let key = category_key::<S>(&key.encode().await?);
 
             let value = match value {
                 StorageBatchModify::Insert(mut value) => Some(value.encode().await?),
@@ -108,8 +108,8 @@ impl StorageAdapter for MemoryAdapter {
 
         for (key, value) in pairs.into_iter() {
             match value {
-                Some(value) => self.db.write().insert(key.to_vec(), value.to_vec()),
-                None => self.db.write().remove(&key.to_vec()),
+                Some(value) => self.db.write().insert(key, value.to_vec()),
+                None => self.db.write().remove(&key),
             };
         }
 
@@ -117,6 +117,17 @@ impl StorageAdapter for MemoryAdapter {
     }
 }
 
+// Equal keys of different categories are different records.
+fn category_key<S: StorageSchema>(key: &[u8]) -> Vec<u8> {
+    let prefix = match S::category() {
+        StorageCategory::Epoch => 0u8,
+        StorageCategory::Receipt => 1u8,
+        StorageCategory::SignedTransaction => 2u8,
+    };
+
+    [&[prefix], key].concat()
+}
+
 #[derive(Debug, Display, From)]
 pub enum MemoryAdapterError {
     #[display(fmt = "batch length dont match")]
-- 
2.43.0


From efa29d8fdea7f1ad5af040574487d02390f9d8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 08/42] fix: get_epoch_by_hash never answers with an epoch of
 another hash

---
 core/storage/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/storage/src/lib.rs b/core/storage/src/lib.rs
index e029971..9e2ef77 100644
--- a/core/storage/src/lib.rs
+++ b/core/storage/src/lib.rs
@@ -167,9 +167,15 @@ impl<Adapter: StorageAdapter> Storage for ImplStorage<Adapter> {
     }
 
     async fn get_epoch_by_hash(&self, epoch_hash: Hash) -> ProtocolResult<Epoch> {
-        let epoch_id = get!(self, epoch_hash, HashEpochSchema);
+        let epoch_id = get!(self, epoch_hash.clone(), HashEpochSchema);
         let epoch = get!(self, epoch_id, EpochSchema);
 
+        // Another epoch may have been stored at this height since.
+        let mut header = epoch.header.clone();
+        if Hash::digest(header.encode().await?) != epoch_hash {
+            return Err(StorageError::GetNone.into());
+        }
+
         Ok(epoch)
     }
 
-- 
2.43.0


From 83c646a7b7cda628389ecdcb89a6e5404aefbaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 09/42] fix: protobuf keeps the contract type of deployments

---
 protocol/src/codec/primitive.rs   | 20 ++++++++++++++------
 protocol/src/codec/receipt.rs     |  3 ++-
 protocol/src/codec/transaction.rs |  3 ++-
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/protocol/src/codec/primitive.rs b/protocol/src/codec/primitive.rs
index c4bc1a1..9612791 100644
--- a/protocol/src/codec/primitive.rs
+++ b/protocol/src/codec/primitive.rs
@@ -206,6 +206,19 @@ impl TryFrom<UserAddress> for protocol_primitive::UserAddress {
     }
 }
 
+// ContractType
+
+impl From<protocol_primitive::ContractType> for ContractType {
+    fn from(contract_type: protocol_primitive::ContractType) -> ContractType {
+        match contract_type {
+            protocol_primitive::ContractType::Asset => ContractType::Asset,
+            protocol_primitive::ContractType::Library => ContractType::Library,
+            protocol_primitive::ContractType::App => ContractType::App,
+            protocol_primitive::ContractType::Native => ContractType::Native,
+        }
+    }
+}
+
 // ContractAddress
 
 impl From<protocol_primitive::ContractAddress> for ContractAddress {
@@ -213,12 +226,7 @@ impl From<protocol_primitive::ContractAddress> for ContractAddress {
         let value = contract.as_bytes().to_vec();
         let address = Some(Address { value });
 
-        let contract_type = match contract.contract_type() {
-            protocol_primitive::ContractType::Asset => ContractType::Asset,
-            protocol_primitive::ContractType::Library => ContractType::Library,
-            protocol_primitive::ContractType::App => ContractType::App,
-            protocol_primitive::ContractType::Native => ContractType::Native,
-        };
+        let contract_type = ContractType::from(contract.contract_type());
 
         ContractAddress {
             value:         address,
diff --git a/protocol/src/codec/receipt.rs b/protocol/src/codec/receipt.rs
index f04f8f2..3d95f24 100644
--- a/protocol/src/codec/receipt.rs
+++ b/protocol/src/codec/receipt.rs
@@ -141,7 +141,7 @@ impl From<receipt::ReceiptResult> for ReceiptResult {
             } => {
                 let deploy = Deploy {
                     contract:      Some(ContractAddress::from(contract)),
-                    contract_type: contract_type as i32,
+                    contract_type: ContractType::from(contract_type) as i32,
                 };
 
                 ReceiptResult::Deploy(deploy)
@@ -216,6 +216,7 @@ impl TryFrom<ReceiptResult> for receipt::ReceiptResult {
                     0 => protocol_primitive::ContractType::Asset,
                     1 => protocol_primitive::ContractType::Library,
                     2 => protocol_primitive::ContractType::App,
+                    3 => protocol_primitive::ContractType::Native,
                     _ => return Err(CodecError::InvalidContractType(deploy.contract_type).into()),
                 };
 
diff --git a/protocol/src/codec/transaction.rs b/protocol/src/codec/transaction.rs
index 3b24e40..6bb5594 100644
--- a/protocol/src/codec/transaction.rs
+++ b/protocol/src/codec/transaction.rs
@@ -181,7 +181,7 @@ impl From<transaction::TransactionAction> for TransactionAction {
             } => {
                 let deploy = Deploy {
                     code:          code.to_vec(),
-                    contract_type: contract_type as i32,
+                    contract_type: ContractType::from(contract_type) as i32,
                 };
 
                 TransactionAction::Deploy(deploy)
@@ -255,6 +255,7 @@ impl TryFrom<TransactionAction> for transaction::TransactionAction {
                     0 => protocol_primitive::ContractType::Asset,
                     1 => protocol_primitive::ContractType::Library,
                     2 => protocol_primitive::ContractType::App,
+                    3 => protocol_primitive::ContractType::Native,
                     _ => return Err(CodecError::InvalidContractType(deploy.contract_type).into()),
                 };
 
-- 
2.43.0


From 8e5bc99e941b60d8e69896a80d3aa88fd061e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 10/42] fix: rlp encodes approvals

---
 protocol/src/fixed_codec/receipt.rs     | 24 +++++++++++++-
 protocol/src/fixed_codec/transaction.rs | 43 ++++++++++++++++++++++++-
 2 files changed, 65 insertions(+), 2 deletions(-)

diff --git a/protocol/src/fixed_codec/receipt.rs b/protocol/src/fixed_codec/receipt.rs
index 07a38e8..7548f0b 100644
--- a/protocol/src/fixed_codec/receipt.rs
+++ b/protocol/src/fixed_codec/receipt.rs
@@ -45,6 +45,7 @@ const TRANSFER_RESULT_FLAG: u8 = 0;
 const DEPLOY_RESULT_FLAG: u8 = 1;
 const CALL_RESULT_FLAG: u8 = 2;
 const FAIL_RESULT_FLAG: u8 = 3;
+const APPROVE_RESULT_FLAG: u8 = 4;
 
 impl rlp::Encodable for ReceiptResult {
     fn rlp_append(&self, s: &mut rlp::RlpStream) {
@@ -93,7 +94,17 @@ impl rlp::Encodable for ReceiptResult {
                     .append(&system.as_bytes())
                     .append(&user.as_bytes());
             }
-            _ => {}
+            ReceiptResult::Approve {
+                spender,
+                asset_id,
+                max,
+            } => {
+                s.begin_list(4)
+                    .append(&APPROVE_RESULT_FLAG)
+                    .append(asset_id)
+                    .append(&max.to_bytes_be())
+                    .append(spender);
+            }
         }
     }
 }
@@ -152,6 +163,17 @@ impl rlp::Decodable for ReceiptResult {
 
                 Ok(ReceiptResult::Fail { system, user })
             }
+            APPROVE_RESULT_FLAG => {
+                let asset_id = rlp::decode(r.at(1)?.as_raw())?;
+                let max = Balance::from_bytes_be(r.at(2)?.data()?);
+                let spender = rlp::decode(r.at(3)?.as_raw())?;
+
+                Ok(ReceiptResult::Approve {
+                    spender,
+                    asset_id,
+                    max,
+                })
+            }
             _ => Err(rlp::DecoderError::RlpListLenWithZeroPrefix),
         }
     }
diff --git a/protocol/src/fixed_codec/transaction.rs b/protocol/src/fixed_codec/transaction.rs
index 9e7a8bc..be76b05 100644
--- a/protocol/src/fixed_codec/transaction.rs
+++ b/protocol/src/fixed_codec/transaction.rs
@@ -14,6 +14,7 @@ const TRANSFER_ACTION_FLAG: u8 = 0;
 const DEPLOY_ACTION_FLAG: u8 = 1;
 const CALL_ACTION_WITH_ASSET_FLAG: u8 = 2;
 const CALL_ACTION_WITHOUT_ASSET_FLAG: u8 = 3;
+const APPROVE_ACTION_FLAG: u8 = 4;
 
 impl rlp::Encodable for RawTransaction {
     fn rlp_append(&self, s: &mut rlp::RlpStream) {
@@ -102,7 +103,26 @@ impl rlp::Encodable for RawTransaction {
                 s.append(&contract.as_bytes().to_vec());
                 s.append(&method.as_bytes());
             }
-            _ => {}
+            TransactionAction::Approve {
+                spender,
+                asset_id,
+                max,
+            } => {
+                s.begin_list(9);
+                s.append(&APPROVE_ACTION_FLAG);
+
+                // Append tx basic fields
+                s.append(&self.chain_id.as_bytes().to_vec());
+                s.append(&self.fee.asset_id.as_bytes().to_vec());
+                s.append(&self.fee.cycle);
+                s.append(&self.nonce.as_bytes().to_vec());
+                s.append(&self.timeout);
+
+                // Append tx action fields
+                s.append(&asset_id.as_bytes().to_vec());
+                s.append(&max.to_bytes_be());
+                s.append(&spender.as_bytes().to_vec());
+            }
         }
     }
 }
@@ -221,6 +241,27 @@ impl rlp::Decodable for RawTransaction {
                     })
                 }
             }
+            APPROVE_ACTION_FLAG => {
+                // Decode tx basic fields
+                let (chain_id, fee, nonce, timeout) = help_decode_raw_tx(r)?;
+
+                // Decode tx action fields
+                let action = TransactionAction::Approve {
+                    asset_id: Hash::from_bytes(Bytes::from(r.at(6)?.data()?))
+                        .map_err(|_| rlp::DecoderError::RlpInvalidLength)?,
+                    max:      Balance::from_bytes_be(r.at(7)?.data()?),
+                    spender:  ContractAddress::from_bytes(Bytes::from(r.at(8)?.data()?))
+                        .map_err(|_| rlp::DecoderError::RlpInvalidLength)?,
+                };
+
+                Ok(RawTransaction {
+                    chain_id,
+                    nonce,
+                    timeout,
+                    fee,
+                    action,
+                })
+            }
             _ => Err(rlp::DecoderError::RlpListLenWithZeroPrefix),
         }
     }
-- 
2.43.0


From 7cd02674ac50b3acd652b9403a95a80db742c755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 11/42] fix: malformed rlp is an error, not a panic

---
 protocol/src/fixed_codec/epoch.rs       | 10 +++++-----
 protocol/src/fixed_codec/genesis.rs     | 17 +++++------------
 protocol/src/fixed_codec/primitive.rs   |  6 +++---
 protocol/src/fixed_codec/transaction.rs |  2 +-
 4 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/protocol/src/fixed_codec/epoch.rs b/protocol/src/fixed_codec/epoch.rs
index aa79ac1..ffe2a32 100644
--- a/protocol/src/fixed_codec/epoch.rs
+++ b/protocol/src/fixed_codec/epoch.rs
@@ -96,7 +96,7 @@ impl rlp::Decodable for EpochHeader {
         }
 
         let chain_id: Hash = rlp::decode(r.at(0)?.as_raw())?;
-        let confirm_root: Vec<Hash> = rlp::decode_list(r.at(1)?.as_raw());
+        let confirm_root: Vec<Hash> = r.at(1)?.as_list()?;
         let cycles_used: u64 = r.at(2)?.as_val()?;
         let epoch_id: u64 = r.at(3)?.as_val()?;
         let logs_bloom: Bloom = rlp::decode(r.at(4)?.as_raw())?;
@@ -104,11 +104,11 @@ impl rlp::Decodable for EpochHeader {
         let pre_hash = rlp::decode(r.at(6)?.as_raw())?;
         let proof: Proof = rlp::decode(r.at(7)?.as_raw())?;
         let proposer = rlp::decode(r.at(8)?.as_raw())?;
-        let receipt_root: Vec<Hash> = rlp::decode_list(r.at(9)?.as_raw());
+        let receipt_root: Vec<Hash> = r.at(9)?.as_list()?;
         let state_root = rlp::decode(r.at(10)?.as_raw())?;
         let timestamp: u64 = r.at(11)?.as_val()?;
         let validator_version: u64 = r.at(12)?.as_val()?;
-        let validators: Vec<Validator> = rlp::decode_list(r.at(13)?.as_raw());
+        let validators: Vec<Validator> = r.at(13)?.as_list()?;
 
         Ok(EpochHeader {
             chain_id,
@@ -144,7 +144,7 @@ impl rlp::Decodable for Epoch {
         }
 
         let header: EpochHeader = rlp::decode(r.at(0)?.as_raw())?;
-        let ordered_tx_hashes: Vec<Hash> = rlp::decode_list(r.at(1)?.as_raw());
+        let ordered_tx_hashes: Vec<Hash> = r.at(1)?.as_list()?;
 
         Ok(Epoch {
             header,
@@ -168,7 +168,7 @@ impl rlp::Decodable for Pill {
         }
 
         let epoch: Epoch = rlp::decode(r.at(0)?.as_raw())?;
-        let propose_hashes: Vec<Hash> = rlp::decode_list(r.at(1)?.as_raw());
+        let propose_hashes: Vec<Hash> = r.at(1)?.as_list()?;
 
         Ok(Pill {
             epoch,
diff --git a/protocol/src/fixed_codec/genesis.rs b/protocol/src/fixed_codec/genesis.rs
index 7a80c18..2cd453d 100644
--- a/protocol/src/fixed_codec/genesis.rs
+++ b/protocol/src/fixed_codec/genesis.rs
@@ -27,19 +27,12 @@ impl rlp::Decodable for GenesisSystemToken {
             return Err(rlp::DecoderError::RlpIncorrectListLen);
         }
 
-        let mut values = Vec::with_capacity(4);
-
-        for val in r {
-            let data = val.data()?;
-            values.push(data)
-        }
-
-        let code = String::from_utf8(values[0].to_vec())
+        let code = String::from_utf8(r.at(0)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
-        let name = String::from_utf8(values[1].to_vec())
+        let name = String::from_utf8(r.at(1)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
         let supply: u64 = r.at(2)?.as_val()?;
-        let symbol = String::from_utf8(values[3].to_vec())
+        let symbol = String::from_utf8(r.at(3)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
 
         Ok(GenesisSystemToken {
@@ -90,7 +83,7 @@ impl rlp::Decodable for GenesisStateAlloc {
 
         let address = String::from_utf8(r.at(0)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
-        let assets: Vec<GenesisStateAsset> = rlp::decode_list(r.at(1)?.as_raw());
+        let assets: Vec<GenesisStateAsset> = r.at(1)?.as_list()?;
 
         Ok(GenesisStateAlloc { address, assets })
     }
@@ -114,7 +107,7 @@ impl rlp::Decodable for Genesis {
 
         let prevhash = String::from_utf8(r.at(0)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
-        let state_alloc: Vec<GenesisStateAlloc> = rlp::decode_list(r.at(1)?.as_raw());
+        let state_alloc: Vec<GenesisStateAlloc> = r.at(1)?.as_list()?;
         let system_token = rlp::decode(r.at(2)?.as_raw())?;
         let timestamp = r.at(3)?.as_val()?;
 
diff --git a/protocol/src/fixed_codec/primitive.rs b/protocol/src/fixed_codec/primitive.rs
index 320b456..065ecf9 100644
--- a/protocol/src/fixed_codec/primitive.rs
+++ b/protocol/src/fixed_codec/primitive.rs
@@ -208,7 +208,7 @@ impl rlp::Decodable for Account {
 
         match flag {
             USER_ACCOUNT_FLAG => {
-                let asset_list: Vec<FixedUserAsset> = rlp::decode_list(r.at(1)?.as_raw());
+                let asset_list: Vec<FixedUserAsset> = r.at(1)?.as_list()?;
                 let nonce = r.at(2)?.as_val()?;
 
                 let mut assets = BTreeMap::new();
@@ -223,7 +223,7 @@ impl rlp::Decodable for Account {
                 Ok(Account::User(UserAccount { nonce, assets }))
             }
             CONTRACT_ACCOUNT_FLAG => {
-                let asset_list: Vec<FixedContractAsset> = rlp::decode_list(r.at(1)?.as_raw());
+                let asset_list: Vec<FixedContractAsset> = r.at(1)?.as_list()?;
 
                 let mut assets = BTreeMap::new();
 
@@ -276,7 +276,7 @@ impl rlp::Encodable for FixedUserAsset {
 
 impl rlp::Decodable for FixedUserAsset {
     fn decode(r: &rlp::Rlp) -> Result<Self, rlp::DecoderError> {
-        let approved_list: Vec<FixedUserAssetApproved> = rlp::decode_list(r.at(0)?.as_raw());
+        let approved_list: Vec<FixedUserAssetApproved> = r.at(0)?.as_list()?;
 
         let mut approved = BTreeMap::new();
         for v in approved_list {
diff --git a/protocol/src/fixed_codec/transaction.rs b/protocol/src/fixed_codec/transaction.rs
index be76b05..e928969 100644
--- a/protocol/src/fixed_codec/transaction.rs
+++ b/protocol/src/fixed_codec/transaction.rs
@@ -189,7 +189,7 @@ impl rlp::Decodable for RawTransaction {
                 let (chain_id, fee, nonce, timeout) = help_decode_raw_tx(r)?;
 
                 // Decode tx action fields
-                let args: Vec<String> = rlp::decode_list(r.at(6)?.as_raw());
+                let args: Vec<String> = r.at(6)?.as_list()?;
                 let args: Result<Vec<_>, _> = args.iter().map(|arg| hex_to_bytes(&arg)).collect();
                 let args = args?;
 
-- 
2.43.0


From 8227a612c684911aa21110fc7057494b4b164dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 12/42] fix: a logs bloom of wrong length is a decoding error,
 not a panic

---
 protocol/src/codec/epoch.rs     | 5 ++---
 protocol/src/codec/primitive.rs | 8 +++++++-
 protocol/src/codec/receipt.rs   | 8 +++++---
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/protocol/src/codec/epoch.rs b/protocol/src/codec/epoch.rs
index 86df6bb..d241873 100644
--- a/protocol/src/codec/epoch.rs
+++ b/protocol/src/codec/epoch.rs
@@ -5,12 +5,11 @@ use prost::Message;
 
 use crate::{
     codec::{
-        primitive::{Hash, UserAddress},
+        primitive::{bloom_from_slice, Hash, UserAddress},
         CodecError, ProtocolCodecSync,
     },
     field, impl_default_bytes_codec_for,
     types::primitive as protocol_primitive,
-    types::Bloom,
     ProtocolError, ProtocolResult,
 };
 
@@ -236,7 +235,7 @@ impl TryFrom<EpochHeader> for epoch::EpochHeader {
             epoch_id: epoch_header.epoch_id,
             pre_hash: protocol_primitive::Hash::try_from(pre_hash)?,
             timestamp: epoch_header.timestamp,
-            logs_bloom: Bloom::from_slice(&epoch_header.logs_bloom),
+            logs_bloom: bloom_from_slice(&epoch_header.logs_bloom)?,
             order_root: protocol_primitive::Hash::try_from(order_root)?,
             confirm_root,
             state_root: protocol_primitive::Hash::try_from(state_root)?,
diff --git a/protocol/src/codec/primitive.rs b/protocol/src/codec/primitive.rs
index 9612791..f5b3690 100644
--- a/protocol/src/codec/primitive.rs
+++ b/protocol/src/codec/primitive.rs
@@ -8,6 +8,7 @@ use crate::{
     codec::{CodecError, ProtocolCodecSync},
     field, impl_default_bytes_codec_for,
     types::primitive as protocol_primitive,
+    types::Bloom,
     ProtocolError, ProtocolResult,
 };
 
@@ -340,7 +341,12 @@ impl_default_bytes_codec_for!(primitive, [
 // Util
 // #####################
 
-#[allow(dead_code)]
+pub(crate) fn bloom_from_slice(bytes: &[u8]) -> Result<Bloom, CodecError> {
+    ensure_len(bytes.len(), Bloom::len_bytes())?;
+
+    Ok(Bloom::from_slice(bytes))
+}
+
 fn ensure_len(real: usize, expect: usize) -> Result<(), CodecError> {
     if real != expect {
         return Err(CodecError::WrongBytesLength { expect, real });
diff --git a/protocol/src/codec/receipt.rs b/protocol/src/codec/receipt.rs
index 3d95f24..35f7fa2 100644
--- a/protocol/src/codec/receipt.rs
+++ b/protocol/src/codec/receipt.rs
@@ -5,12 +5,14 @@ use prost::{Message, Oneof};
 
 use crate::{
     codec::{
-        primitive::{AssetID, Balance, ContractAddress, ContractType, Fee, Hash, UserAddress},
+        primitive::{
+            bloom_from_slice, AssetID, Balance, ContractAddress, ContractType, Fee, Hash,
+            UserAddress,
+        },
         CodecError, ProtocolCodecSync,
     },
     field, impl_default_bytes_codec_for,
     types::primitive as protocol_primitive,
-    types::Bloom,
     ProtocolError, ProtocolResult,
 };
 
@@ -233,7 +235,7 @@ impl TryFrom<ReceiptResult> for receipt::ReceiptResult {
                 let action = receipt::ReceiptResult::Call {
                     contract:     protocol_primitive::ContractAddress::try_from(contract)?,
                     return_value: Bytes::from(call.return_value),
-                    logs_bloom:   Box::new(Bloom::from_slice(&call.logs_bloom)),
+                    logs_bloom:   Box::new(bloom_from_slice(&call.logs_bloom)?),
                 };
 
                 Ok(action)
-- 
2.43.0


From dad25b7c8e193fc480ac95989a507bf906b14563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:55 +0000
Subject: [PATCH 13/42] fix: there is no merkle proof in an empty list

---
 common/merkle/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/merkle/src/lib.rs b/common/merkle/src/lib.rs
index 6314deb..ec54d7c 100644
--- a/common/merkle/src/lib.rs
+++ b/common/merkle/src/lib.rs
@@ -27,6 +27,9 @@ impl Merkle {
     }
 
     pub fn get_proof_by_input_index(&self, input_index: usize) -> Option<Vec<ProofNode>> {
+        // The tree of no hashes would answer with an empty proof.
+        self.tree.get_root_hash()?;
+
         self.tree
             .get_proof_by_input_index(input_index)
             .map(|proof| {
-- 
2.43.0


From d7dca4ac59bd786ca7905639a2c94b44098543d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:57 +0000
Subject: [PATCH 14/42] network: hook: re-export the router, rpc map, peer
 manager and connection events under cfg(verif_hooks)

---
 core/network/src/lib.rs            | 24 ++++++++++++++++++++++++
 core/network/src/protocols/mod.rs  |  2 ++
 core/network/src/protocols/ping.rs |  6 ++++++
 core/network/src/reactor/mod.rs    |  2 ++
 core/network/src/service.rs        | 20 ++++++++++++++++++++
 5 files changed, 54 insertions(+)

diff --git a/core/network/src/lib.rs b/core/network/src/lib.rs
index 611d804..9e4b057 100644
--- a/core/network/src/lib.rs
+++ b/core/network/src/lib.rs
@@ -17,3 +17,27 @@ mod traits;
 pub use config::NetworkConfig;
 pub use message::{serde, serde_multi};
 pub use service::{NetworkService, NetworkServiceHandle};
+
+/// Access for the verification harness; not part of a normal build.
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub use crate::compression::Snappy;
+    pub use crate::connection::{
+        ConnectionConfig, ConnectionService, ConnectionServiceControl, ConnectionServiceKeeper,
+    };
+    pub use crate::endpoint::{Endpoint, RpcEndpoint};
+    pub use crate::error::{ErrorKind, NetworkError};
+    pub use crate::event::{
+        ConnectionEvent, ConnectionType, MultiUsersMessage, PeerManagerEvent, RemoveKind,
+        RetryKind, Session,
+    };
+    pub use crate::message::{NetworkMessage, RawSessionMessage};
+    pub use crate::outbound::{NetworkGossip, NetworkRpc};
+    pub use crate::peer_manager::{
+        DiscoveryAddrManager, IdentifyCallback, Peer, PeerManager, PeerManagerConfig,
+    };
+    pub use crate::protocols::{verif_ping_reporter, CoreProtocol};
+    pub use crate::reactor::{Reactor, VerifRouter as MessageRouter};
+    pub use crate::rpc_map::RpcMap;
+    pub use crate::traits::{Compression, MessageSender, NetworkContext, NetworkProtocol};
+}
diff --git a/core/network/src/protocols/mod.rs b/core/network/src/protocols/mod.rs
index e8ec783..d4f2ccc 100644
--- a/core/network/src/protocols/mod.rs
+++ b/core/network/src/protocols/mod.rs
@@ -8,3 +8,5 @@ mod ping;
 mod transmitter;
 
 pub use self::core::{CoreProtocol, CoreProtocolBuilder};
+#[cfg(verif_hooks)]
+pub use ping::verif_reporter as verif_ping_reporter;
diff --git a/core/network/src/protocols/ping.rs b/core/network/src/protocols/ping.rs
index 5198771..1d7933d 100644
--- a/core/network/src/protocols/ping.rs
+++ b/core/network/src/protocols/ping.rs
@@ -134,3 +134,9 @@ impl Sender<PingEvent> for PingEventReporter {
         })
     }
 }
+
+/// Access for the verification harness; not part of a normal build.
+#[cfg(verif_hooks)]
+pub fn verif_reporter(reporter: UnboundedSender<PeerManagerEvent>) -> impl Sender<PingEvent> {
+    PingEventReporter::new(reporter)
+}
diff --git a/core/network/src/reactor/mod.rs b/core/network/src/reactor/mod.rs
index c2fa11d..970c4fe 100644
--- a/core/network/src/reactor/mod.rs
+++ b/core/network/src/reactor/mod.rs
@@ -1,5 +1,7 @@
 mod router;
 pub(crate) use router::MessageRouter;
+#[cfg(verif_hooks)]
+pub use router::MessageRouter as VerifRouter;
 
 use std::{
     convert::TryFrom,
diff --git a/core/network/src/service.rs b/core/network/src/service.rs
index 3f1b428..430991b 100644
--- a/core/network/src/service.rs
+++ b/core/network/src/service.rs
@@ -273,6 +273,26 @@ impl NetworkService {
     }
 }
 
+/// Access for the verification harness; not part of a normal build.
+#[cfg(verif_hooks)]
+impl NetworkService {
+    /// The inbound half of the service: where received frames enter, the
+    /// router with the registered endpoints, and the pending calls.
+    pub fn verif_inbound(
+        &mut self,
+    ) -> (
+        UnboundedSender<RawSessionMessage>,
+        Option<MessageRouter<Snappy>>,
+        Arc<RpcMap>,
+    ) {
+        (
+            self.raw_msg_tx.clone(),
+            self.router.take(),
+            Arc::clone(&self.rpc_map),
+        )
+    }
+}
+
 impl Future for NetworkService {
     type Output = ();
 
-- 
2.43.0


From a4029df0d8a2d43a150e1ccec26f1ab6580b4e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:34 +0000
Subject: [PATCH 15/42] fix: an unknown address that timed out once is tried
 again

UnknownAddr::reach_max_retry was inverted: every address was dropped after its
first timeout.
---
 core/network/src/peer_manager/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index d597586..bad02e5 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -85,7 +85,7 @@ impl UnknownAddr {
     }
 
     pub fn reach_max_retry(&self) -> bool {
-        MAX_RETRY_COUNT + 1 >= self.retry_count
+        MAX_RETRY_COUNT <= self.retry_count
     }
 }
 
-- 
2.43.0


From df52b391918de4e111e4668570fa9dcc1a743878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:34 +0000
Subject: [PATCH 16/42] fix: a peer without address is not taken for being
 dialed

unconnected_peers picked peers without any address. Nothing was dialed, but they
stayed in the connecting set and used up the connection limit until they came
back on their own.
---
 core/network/src/peer_manager/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index bad02e5..1693b84 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -361,7 +361,12 @@ impl Inner {
         let qualified_peers = pool.values().filter(|peer| {
             let pid = peer.id();
 
-            !connected.contains(pid) && !connecting.contains(pid) && peer.retry_ready()
+            // A peer without address cannot be dialed, it would stay in
+            // connecting forever
+            !connected.contains(pid)
+                && !connecting.contains(pid)
+                && !peer.addrs().is_empty()
+                && peer.retry_ready()
         });
 
         qualified_peers
-- 
2.43.0


From cf29477a624347f3b062827e5a7bbd19941ad21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:34 +0000
Subject: [PATCH 17/42] fix: a peer whose dial failed is dialed again later

A failed dial left the peer in the connecting set for good: it was never dialed
again, and each such peer took one connection from the limit. An address that
cannot be connected did not count as a failure of its peer either.
---
 core/network/src/peer_manager/mod.rs | 32 ++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index 1693b84..444c050 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -343,6 +343,10 @@ impl Inner {
         }
     }
 
+    pub fn stop_connecting(&self, peer_id: &PeerId) {
+        self.connecting.write().remove(peer_id);
+    }
+
     pub fn peer_alive(&self, peer_id: &PeerId) -> Option<u64> {
         self.pool.read().get(peer_id).map(Peer::alive)
     }
@@ -760,6 +764,17 @@ impl PeerManager {
         }
     }
 
+    // A dial to one of this peer's addresses failed. If peer is already
+    // connected, don't need to reconnect.
+    fn connect_peer_failed(&mut self, pid: &PeerId) {
+        if self.inner.peer_connected(pid) {
+            return;
+        }
+
+        self.inner.stop_connecting(pid);
+        self.increase_peer_retry(pid);
+    }
+
     fn connected_peers_ip(&self) -> Vec<(PeerId, Option<IpAddr>)> {
         let connected_pids = self.inner.connected_peers();
 
@@ -963,12 +978,17 @@ impl PeerManager {
             PeerManagerEvent::UnconnectableAddress { addr, .. } => {
                 self.unknown_addrs.remove(&addr.clone().into());
 
+                let opt_pid = self.inner.match_pid(&addr);
+
                 if self.bootstraps.contains(&addr) {
                     error!("network: unconnectable bootstrap address {}", addr);
-                    return;
+                } else {
+                    self.inner.try_remove_addr(&addr);
                 }
 
-                self.inner.try_remove_addr(&addr);
+                if let Some(pid) = opt_pid {
+                    self.connect_peer_failed(&pid);
+                }
             }
             PeerManagerEvent::ReconnectLater { addr, .. } => {
                 if let Some(mut unknown) = self.unknown_addrs.take(&addr.clone().into()) {
@@ -981,13 +1001,7 @@ impl PeerManager {
                 }
 
                 if let Some(pid) = self.inner.match_pid(&addr) {
-                    // If peer is already connected, don't need to reconnect
-                    // this address.
-                    if self.inner.peer_connected(&pid) {
-                        return;
-                    }
-
-                    self.increase_peer_retry(&pid);
+                    self.connect_peer_failed(&pid);
                 }
             }
             PeerManagerEvent::AddListenAddr { addr } => {
-- 
2.43.0


From 71fd1118502fefd9c4128a6e296bda2f234d1754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:34 +0000
Subject: [PATCH 18/42] fix: the session of a removed peer is closed

A removed peer was forgotten while its session stayed open: it was neither
counted nor reachable for multicasts, and could not be connected again since the
transport refuses a second session.
---
 core/network/src/peer_manager/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index 444c050..daaa630 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -737,6 +737,15 @@ impl PeerManager {
     }
 
     fn cleanly_remove_peer(&mut self, pid: &PeerId) {
+        // Make sure that we disconnect this peer
+        if let Some(sid) = self.peer_session.get(pid) {
+            let disconnect_peer = ConnectionEvent::Disconnect(*sid);
+
+            if self.conn_tx.unbounded_send(disconnect_peer).is_err() {
+                debug!("network: connection service exit");
+            }
+        }
+
         // Clean up session mapping
         self.close_peer_session(&pid);
 
-- 
2.43.0


From 23978cd2806398b5212f9eef61b568369e0ad2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:34 +0000
Subject: [PATCH 19/42] fix: a late or malformed report does not end the peer
 manager

Identified addresses and repeated connections may be reported for a peer that was
removed in between, and discovered addresses are whatever other peers announce.
All three were debug assertions, which end the peer manager in debug builds.
---
 core/network/src/peer_manager/mod.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index daaa630..7628974 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -209,9 +209,8 @@ impl Inner {
         let mut pool = self.pool.write();
 
         if !pool.contains_key(&peer_id) {
-            debug_assert!(false, "peer {:?} not found", peer_id);
-
-            error!("network: peer {:?} not found", peer_id);
+            // Peer may be removed before its identified addresses arrive
+            warn!("network: peer {:?} not found", peer_id);
             return;
         }
 
@@ -241,12 +240,11 @@ impl Inner {
 
         // Try root match
         let comps = addr.iter().collect::<Vec<_>>();
-        debug_assert!(
-            comps.len() > 1,
-            "network: multiaddr should contains at least 2 components",
-        );
 
+        // Addresses come from other peers
         if comps.len() < 2 {
+            warn!("network: multiaddr should contains at least 2 components");
+
             return None;
         }
 
@@ -614,9 +612,8 @@ impl PeerManager {
         self.unknown_addrs.remove(&addr.clone().into());
 
         if !self.session_peer.contains_key(&sid) {
-            debug_assert!(false, "session {} no peer id", sid);
-
-            error!("network: fatal!!! session {} no peer id", sid);
+            // Peer may be removed while its session is closing
+            warn!("network: session {} no peer id", sid);
             return;
         }
 
-- 
2.43.0


From 93f52f626c876b36a27003b7f9c06b4040843133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 20/42] fix: a transaction inserted during a flush of it is
 flushed

---
 core/mempool/src/map.rs      | 17 +++++++++--------
 core/mempool/src/tx_cache.rs |  5 ++++-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/core/mempool/src/map.rs b/core/mempool/src/map.rs
index 73d2ea6..4e7c138 100644
--- a/core/mempool/src/map.rs
+++ b/core/mempool/src/map.rs
@@ -44,7 +44,7 @@ where
     }
 
     // TODO: concurrently delete
-    pub fn deletes(&self, tx_hashes: &[Hash]) {
+    pub fn deletes(&self, tx_hashes: &[Hash]) -> Vec<V> {
         let mut h: HashMap<usize, Vec<Hash>> = HashMap::new();
 
         for hash in tx_hashes.iter() {
@@ -52,9 +52,9 @@ where
             h.entry(index).or_insert_with(|| vec![]).push(hash.clone());
         }
 
-        h.into_par_iter().for_each(|(index, hashes)| {
-            self.buckets[index].deletes(&hashes);
-        });
+        h.into_par_iter()
+            .flat_map(|(index, hashes)| self.buckets[index].deletes(&hashes))
+            .collect()
     }
 
     pub fn remove(&self, tx_hash: &Hash) {
@@ -111,11 +111,12 @@ where
         self.store.read().get(tx_hash).map(Clone::clone)
     }
 
-    fn deletes(&self, tx_hashes: &[Hash]) {
+    fn deletes(&self, tx_hashes: &[Hash]) -> Vec<V> {
         let mut store = self.store.write();
-        for hash in tx_hashes {
-            store.remove(hash);
-        }
+        tx_hashes
+            .iter()
+            .filter_map(|hash| store.remove(hash))
+            .collect()
     }
 
     fn remove(&self, tx_hash: &Hash) {
diff --git a/core/mempool/src/tx_cache.rs b/core/mempool/src/tx_cache.rs
index 54f6cb6..d3d2d71 100644
--- a/core/mempool/src/tx_cache.rs
+++ b/core/mempool/src/tx_cache.rs
@@ -173,7 +173,10 @@ impl TxCache {
             }
         }
         // Dividing set removed and remove into two loops is to avoid lock competition.
-        self.map.deletes(tx_hashes);
+        // A transaction may be inserted between them, mark it as well.
+        for shared_tx in self.map.deletes(tx_hashes) {
+            shared_tx.set_removed();
+        }
     }
 
     pub fn package(
-- 
2.43.0


From 7f6813dbaaa8a997433e8459424ae4bdd631f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:44 +0000
Subject: [PATCH 21/42] fix: one transaction over the cycle limit does not
 empty every package

---
 core/mempool/src/tx_cache.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/core/mempool/src/tx_cache.rs b/core/mempool/src/tx_cache.rs
index d3d2d71..73b9ce3 100644
--- a/core/mempool/src/tx_cache.rs
+++ b/core/mempool/src/tx_cache.rs
@@ -213,17 +213,27 @@ impl TxCache {
                         len: queue_role.candidate.len(),
                     })?;
 
-                if stage == Stage::Finished
-                    || (stage == Stage::ProposeTxs && shared_tx.is_proposed())
-                {
+                // A transaction over the limit on its own never fits, it should not end a stage.
+                let cycle = shared_tx.tx.raw.fee.cycle;
+                if cycle > cycle_limit {
                     continue;
                 }
                 // Accumulate cycles. The order_tx_hashes and the propose_tx_hashes both collect
                 // transactions under cycle limit.
-                cycle_count += shared_tx.tx.raw.fee.cycle;
-                if cycle_count > cycle_limit {
+                if stage == Stage::OrderTxs && cycle > cycle_limit - cycle_count {
                     stage = stage.next();
-                    cycle_count = shared_tx.tx.raw.fee.cycle;
+                    cycle_count = 0;
+                }
+                if stage == Stage::ProposeTxs {
+                    if shared_tx.is_proposed() {
+                        continue;
+                    }
+                    if cycle > cycle_limit - cycle_count {
+                        stage = stage.next();
+                    }
+                }
+                if stage != Stage::Finished {
+                    cycle_count += cycle;
                 }
 
                 match stage {
-- 
2.43.0


From 55010f6e4bff288a77318dbdc238617e85b3fc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:09 +0000
Subject: [PATCH 22/42] fix: flushed transactions do not use up the room for
 new ones

---
 core/mempool/src/tx_cache.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/core/mempool/src/tx_cache.rs b/core/mempool/src/tx_cache.rs
index 73b9ce3..105b3c9 100644
--- a/core/mempool/src/tx_cache.rs
+++ b/core/mempool/src/tx_cache.rs
@@ -1,7 +1,7 @@
 use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 use std::sync::Arc;
 
-use crossbeam_queue::ArrayQueue;
+use crossbeam_queue::{ArrayQueue, PushError};
 
 use protocol::traits::MixedTxHashes;
 use protocol::types::{Hash, SignedTransaction};
@@ -308,10 +308,13 @@ impl TxCache {
         }
 
         self.concurrent_count.fetch_add(1, Ordering::SeqCst);
-        let rst = self
-            .get_queue_role()
-            .incumbent
-            .push(Arc::<TxWrapper>::clone(&shared_tx));
+        let queue = self.get_queue_role().incumbent;
+        let mut rst = queue.push(Arc::<TxWrapper>::clone(&shared_tx));
+        if rst.is_err() {
+            // Flushed transactions stay in queue until next package, make room.
+            self.purge_removed(queue);
+            rst = queue.push(Arc::<TxWrapper>::clone(&shared_tx));
+        }
         self.concurrent_count.fetch_sub(1, Ordering::SeqCst);
 
         // If queue inserts into queue failed, removes from map.
@@ -324,6 +327,21 @@ impl TxCache {
         }
     }
 
+    // Drop transactions marked removed from queue, the others keep their order.
+    fn purge_removed(&self, queue: &ArrayQueue<SharedTx>) {
+        for _ in 0..queue.len() {
+            if let Ok(shared_tx) = queue.pop() {
+                if shared_tx.is_removed() {
+                    continue;
+                }
+                if let Err(PushError(shared_tx)) = queue.push(shared_tx) {
+                    // Concurrent insertions took the place.
+                    self.map.remove(&shared_tx.tx.tx_hash);
+                }
+            }
+        }
+    }
+
     // Process transactions insert into previous incumbent queue during role switch.
     fn process_omission_txs(&self, queue_role: QueueRole) {
         'outer: loop {
-- 
2.43.0


From 980cc2f884546c9acad9bb17ac6ddf02b5298dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:09 +0000
Subject: [PATCH 23/42] fix: a transaction whose timeout has passed is not
 admitted

---
 core/mempool/src/adapter/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/mempool/src/adapter/mod.rs b/core/mempool/src/adapter/mod.rs
index cff2676..9202d6a 100644
--- a/core/mempool/src/adapter/mod.rs
+++ b/core/mempool/src/adapter/mod.rs
@@ -276,7 +276,8 @@ where
             return Err(invalid_timeout.into());
         }
 
-        if stx.raw.timeout < latest_epoch_id {
+        // A transaction must still be in time in the next epoch
+        if stx.raw.timeout <= latest_epoch_id {
             let timeout = MemPoolError::Timeout {
                 tx_hash: stx.tx_hash,
                 timeout: stx.raw.timeout,
-- 
2.43.0


From 382eba073bf316924040db41b223526356ed7e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 24/42] fix: transactions a peer supplies are checked before
 they are used

---
 core/mempool/src/lib.rs | 47 +++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index 91f66e0..cbef316 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -14,6 +14,7 @@ pub use adapter::message::{
 pub use adapter::DefaultMemPoolAdapter;
 pub use adapter::{DEFAULT_BROADCAST_TXS_INTERVAL, DEFAULT_BROADCAST_TXS_SIZE};
 
+use std::collections::HashSet;
 use std::error::Error;
 
 use async_trait::async_trait;
@@ -56,6 +57,25 @@ where
         }
     }
 
+    /// Check a transaction a peer supplied before it is used as one of the
+    /// requested.
+    async fn check_pulled_tx(
+        &self,
+        ctx: Context,
+        requested: &HashSet<Hash>,
+        tx: SignedTransaction,
+    ) -> ProtocolResult<()> {
+        let tx_hash = tx.tx_hash.clone();
+        if !requested.contains(&tx_hash) {
+            return Err(MemPoolError::NotRequested { tx_hash }.into());
+        }
+        self.adapter
+            .check_signature(ctx.clone(), tx.clone())
+            .await?;
+        self.adapter.check_transaction(ctx.clone(), tx).await?;
+        self.adapter.check_storage_exist(ctx, tx_hash).await
+    }
+
     pub fn get_tx_cache(&self) -> &TxCache {
         &self.tx_cache
     }
@@ -148,15 +168,21 @@ where
         let unknown_hashes = self.tx_cache.show_unknown(order_tx_hashes);
         if !unknown_hashes.is_empty() {
             let unknown_len = unknown_hashes.len();
+            let requested: HashSet<Hash> = unknown_hashes.iter().cloned().collect();
             let txs = self.adapter.pull_txs(ctx.clone(), unknown_hashes).await?;
-            // Make sure response signed_txs is the same size of request hashes.
-            if txs.len() != unknown_len {
+            let pulled: HashSet<Hash> = txs.iter().map(|tx| tx.tx_hash.clone()).collect();
+            // Make sure response signed_txs cover request hashes.
+            if txs.len() != unknown_len || pulled != requested {
                 return Err(MemPoolError::EnsureBreak {
                     require:  unknown_len,
                     response: txs.len(),
                 }
                 .into());
             }
+            for tx in txs.iter() {
+                self.check_pulled_tx(ctx.clone(), &requested, tx.clone())
+                    .await?;
+            }
             txs.into_iter().for_each(|tx| {
                 self.callback_cache.insert(tx.tx_hash.clone(), tx);
             });
@@ -172,12 +198,16 @@ where
     ) -> ProtocolResult<()> {
         let unknown_hashes = self.tx_cache.show_unknown(propose_tx_hashes);
         if !unknown_hashes.is_empty() {
+            let requested: HashSet<Hash> = unknown_hashes.iter().cloned().collect();
             let txs = self.adapter.pull_txs(ctx.clone(), unknown_hashes).await?;
-            txs.into_iter().for_each(|tx| {
-                // Should not handle error here, it is normal that transactions response here
-                // are exist in pool.
-                let _ = self.tx_cache.insert_propose_tx(tx);
-            });
+            for tx in txs {
+                let checked = self.check_pulled_tx(ctx.clone(), &requested, tx.clone());
+                if checked.await.is_ok() {
+                    // Should not handle error here, it is normal that transactions response here
+                    // are exist in pool.
+                    let _ = self.tx_cache.insert_propose_tx(tx);
+                }
+            }
         }
         Ok(())
     }
@@ -197,6 +227,9 @@ pub enum MemPoolError {
     #[display(fmt = "Pull txs, require: {}, response: {}", require, response)]
     EnsureBreak { require: usize, response: usize },
 
+    #[display(fmt = "Tx: {:?} is not one of the requested", tx_hash)]
+    NotRequested { tx_hash: Hash },
+
     #[display(fmt = "Fetch full txs, require: {}, response: {}", require, response)]
     MisMatch { require: usize, response: usize },
 
-- 
2.43.0


From 088747c61dd67c1827cf09bb279b508649f8daf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:26 +0000
Subject: [PATCH 25/42] fix: a failed broadcast does not fail the insertion of
 another transaction

---
 core/mempool/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index cbef316..8d03963 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -19,6 +19,7 @@ use std::error::Error;
 
 use async_trait::async_trait;
 use derive_more::{Display, From};
+use log::error;
 
 use protocol::traits::{Context, MemPool, MemPoolAdapter, MixedTxHashes};
 use protocol::types::{Hash, SignedTransaction};
@@ -111,7 +112,10 @@ where
         self.tx_cache.insert_new_tx(tx.clone())?;
 
         if !ctx.is_network_origin_txs() {
-            self.adapter.broadcast_tx(ctx, tx).await?;
+            // The transaction is in pool, a failed broadcast does not undo it.
+            if let Err(err) = self.adapter.broadcast_tx(ctx, tx).await {
+                error!("mempool: broadcast tx failed: {}", err);
+            }
         }
 
         Ok(())
-- 
2.43.0


From 65b155026315e7d0755a6f6fca7ce9f8a70edf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 26/42] fix: a transaction committed while it is inserted does
 not stay in pool

---
 core/mempool/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index 8d03963..e97bf3e 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -110,6 +110,15 @@ where
             .check_storage_exist(ctx.clone(), tx_hash.clone())
             .await?;
         self.tx_cache.insert_new_tx(tx.clone())?;
+        // It may have been committed and flushed since the check.
+        if let Err(err) = self
+            .adapter
+            .check_storage_exist(ctx.clone(), tx_hash.clone())
+            .await
+        {
+            self.tx_cache.flush(&[tx_hash.clone()]);
+            return Err(err);
+        }
 
         if !ctx.is_network_origin_txs() {
             // The transaction is in pool, a failed broadcast does not undo it.
-- 
2.43.0


From 674f28fd4db260721d5c9c3c45982cc82a823231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 27/42] mempool: hook: points inside insert, flush and package

---
 core/mempool/src/lib.rs         |  4 ++++
 core/mempool/src/tx_cache.rs    | 12 ++++++++++++
 core/mempool/src/verif_hooks.rs | 23 +++++++++++++++++++++++
 3 files changed, 39 insertions(+)
 create mode 100644 core/mempool/src/verif_hooks.rs

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index e97bf3e..ebc3fe5 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -6,6 +6,8 @@ mod map;
 #[cfg(test)]
 mod tests;
 mod tx_cache;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 
 pub use adapter::message::{
     MsgPushTxs, NewTxsHandler, PullTxsHandler, END_GOSSIP_NEW_TXS, END_RESP_PULL_TXS,
@@ -109,6 +111,8 @@ where
         self.adapter
             .check_storage_exist(ctx.clone(), tx_hash.clone())
             .await?;
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::point("insert:checked");
         self.tx_cache.insert_new_tx(tx.clone())?;
         // It may have been committed and flushed since the check.
         if let Err(err) = self
diff --git a/core/mempool/src/tx_cache.rs b/core/mempool/src/tx_cache.rs
index 105b3c9..fbbe4f1 100644
--- a/core/mempool/src/tx_cache.rs
+++ b/core/mempool/src/tx_cache.rs
@@ -172,6 +172,8 @@ impl TxCache {
                 shared_tx.set_removed();
             }
         }
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::point("flush:marked");
         // Dividing set removed and remove into two loops is to avoid lock competition.
         // A transaction may be inserted between them, mark it as well.
         for shared_tx in self.map.deletes(tx_hashes) {
@@ -196,6 +198,8 @@ impl TxCache {
 
         loop {
             if let Ok(shared_tx) = queue_role.incumbent.pop() {
+                #[cfg(verif_hooks)]
+                crate::verif_hooks::point("package:popped");
                 let tx_hash = &shared_tx.tx.tx_hash;
 
                 if shared_tx.is_removed() {
@@ -242,13 +246,19 @@ impl TxCache {
                     Stage::Finished => {}
                 }
             } else {
+                #[cfg(verif_hooks)]
+                crate::verif_hooks::point("package:drained");
                 // Switch queue_roles
                 let new_role = self.switch_queue_role();
+                #[cfg(verif_hooks)]
+                crate::verif_hooks::point("package:switched");
                 // Transactions may insert into previous incumbent queue during role switch.
                 self.process_omission_txs(new_role);
                 break;
             }
         }
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::point("package:listed");
         // Remove timeout tx in map
         self.map.deletes(&timeout_tx_hashes);
 
@@ -307,6 +317,8 @@ impl TxCache {
             return Err(MemPoolError::Dup { tx_hash }.into());
         }
 
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::point("insert:mapped");
         self.concurrent_count.fetch_add(1, Ordering::SeqCst);
         let queue = self.get_queue_role().incumbent;
         let mut rst = queue.push(Arc::<TxWrapper>::clone(&shared_tx));
diff --git a/core/mempool/src/verif_hooks.rs b/core/mempool/src/verif_hooks.rs
new file mode 100644
index 0000000..a931ba5
--- /dev/null
+++ b/core/mempool/src/verif_hooks.rs
@@ -0,0 +1,23 @@
+//! Lets verification code run another operation in the middle of one, at named
+//! points.
+use std::cell::RefCell;
+
+type Callback = Box<dyn FnMut(&str)>;
+
+thread_local! {
+    static CALLBACK: RefCell<Option<Callback>> = RefCell::new(None);
+}
+
+pub fn set(callback: Option<Callback>) {
+    CALLBACK.with(|c| *c.borrow_mut() = callback);
+}
+
+pub(crate) fn point(name: &str) {
+    let taken = CALLBACK.with(|c| c.borrow_mut().take());
+    if let Some(mut callback) = taken {
+        callback(name);
+        CALLBACK.with(|c| {
+            c.borrow_mut().get_or_insert(callback);
+        });
+    }
+}
-- 
2.43.0


From 9f86a37ed14f27aac58c0c30264665c8d55deff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:18 +0000
Subject: [PATCH 28/42] fix: an epoch already synchronized is not committed
 again

---
 core/consensus/src/engine.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index bb045c4..85ae8b5 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -143,6 +143,11 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<FixedPill, FixedSignedTxs>
             );
         }
 
+        // It may have been synchronized since it was decided.
+        if self.current_consensus_status.read().epoch_id != epoch_id {
+            return Err(ProtocolError::from(ConsensusError::MissingEpochHeader(epoch_id)).into());
+        }
+
         let pill = commit.content.inner;
 
         // Sorage save the lastest proof.
-- 
2.43.0


From 75d51d01dea7112b486a168d61d0a79643ba612e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:18 +0000
Subject: [PATCH 29/42] fix: committed and synchronized transactions leave the
 mempool after they are saved

---
 core/consensus/src/engine.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 85ae8b5..3c37f20 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -168,11 +168,6 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<FixedPill, FixedSignedTxs>
             .get_full_txs(ctx.clone(), pill.epoch.ordered_tx_hashes.clone())
             .await?;
 
-        // TODO: parallelism
-        self.adapter
-            .flush_mempool(ctx.clone(), pill.epoch.ordered_tx_hashes.clone())
-            .await?;
-
         // Execute transactions
         let status = self.current_consensus_status.read().clone();
         let coinbase = Address::User(pill.epoch.header.proposer.clone());
@@ -348,6 +343,8 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
     /// 3. Save the latest proof.
     /// 4. Save the new epoch.
     /// 5. Save the receipt.
+    /// 6. Flush them from the mempool, where they cannot return as they are
+    /// saved.
     pub async fn update_status(
         &self,
         epoch_id: u64,
@@ -401,7 +398,10 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
                 vec![receipt_root]
             };
         }
-        Ok(())
+
+        self.adapter
+            .flush_mempool(Context::new(), epoch.ordered_tx_hashes)
+            .await
     }
 
     pub async fn save_proof(&self, ctx: Context, proof: Proof) -> ProtocolResult<()> {
-- 
2.43.0


From 86652811489236779699561aca5e205ac0e1aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:18 +0000
Subject: [PATCH 30/42] fix: a failed announcement does not fail a finished
 commit

---
 core/consensus/src/engine.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 3c37f20..933c8bf 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -6,6 +6,7 @@ use async_trait::async_trait;
 use bincode::serialize;
 use bytes::Bytes;
 use futures::lock::Mutex;
+use log::error;
 use overlord::types::{Commit, Node, OverlordMsg, Status};
 use overlord::Consensus as Engine;
 use parking_lot::RwLock;
@@ -190,14 +191,19 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<FixedPill, FixedSignedTxs>
         self.update_status(epoch_id, pill.epoch, proof, exec_resp, full_txs)
             .await?;
 
-        self.adapter
+        // The epoch is committed, whether or not the others are told.
+        if let Err(err) = self
+            .adapter
             .transmit(
                 ctx.clone(),
                 msg,
                 END_GOSSIP_RICH_EPOCH_ID,
                 MessageTarget::Broadcast,
             )
-            .await?;
+            .await
+        {
+            error!("consensus: broadcast rich epoch id failed: {}", err);
+        }
 
         let current_consensus_status = self.current_consensus_status.read();
         let status = Status {
-- 
2.43.0


From cce78b7382703a9cead6cb8d068f88b1b97f9f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:32 +0000
Subject: [PATCH 31/42] fix: announcements of low heights and an unreadable
 chain do not start a synchronization

---
 core/consensus/src/consensus.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index 7fcd99d..dea2b13 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -72,16 +72,12 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
         // Reveive the rich epoch ID.
         let epoch_id: FixedEpochID =
             deserialize(&msg).map_err(|_| ConsensusError::DecodeErr(MsgType::RichEpochID))?;
-        let rich_epoch_id = epoch_id.inner - 1;
+        let rich_epoch_id = epoch_id.inner.saturating_sub(1);
 
         // TODO: fix to get_epoch_by_epoch_id()
-        let current_epoch_id = self
-            .engine
-            .get_current_epoch_id(ctx.clone())
-            .await
-            .unwrap_or(1u64);
+        let current_epoch_id = self.engine.get_current_epoch_id(ctx.clone()).await?;
 
-        if current_epoch_id >= rich_epoch_id - 1 {
+        if rich_epoch_id <= current_epoch_id + 1 {
             return Ok(());
         }
 
-- 
2.43.0


From af1c6ccb55b7a66d361e152278097ee7293c3f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:07 +0000
Subject: [PATCH 32/42] fix: a synchronization starts from the chain as it is
 when commits are locked out

---
 core/consensus/src/consensus.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index dea2b13..12c9e0a 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -74,6 +74,12 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
             deserialize(&msg).map_err(|_| ConsensusError::DecodeErr(MsgType::RichEpochID))?;
         let rich_epoch_id = epoch_id.inner.saturating_sub(1);
 
+        // Lock the consensus engine, block commit process.
+        let commit_lock = self.engine.lock.try_lock();
+        if commit_lock.is_none() {
+            return Ok(());
+        }
+
         // TODO: fix to get_epoch_by_epoch_id()
         let current_epoch_id = self.engine.get_current_epoch_id(ctx.clone()).await?;
 
@@ -81,12 +87,6 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
             return Ok(());
         }
 
-        // Lock the consensus engine, block commit process.
-        let commit_lock = self.engine.lock.try_lock();
-        if commit_lock.is_none() {
-            return Ok(());
-        }
-
         info!("self {}, chain {}", current_epoch_id, rich_epoch_id);
         info!("consensus: start synchronization");
 
-- 
2.43.0


From 14bb06b14a1c261849d0e609a035463a7542edb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:07 +0000
Subject: [PATCH 33/42] fix: a synchronization executes from the state the
 latest epoch produced

---
 core/consensus/src/consensus.rs | 4 ++--
 core/consensus/src/engine.rs    | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index 12c9e0a..851ee32 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -90,13 +90,13 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
         info!("self {}, chain {}", current_epoch_id, rich_epoch_id);
         info!("consensus: start synchronization");
 
-        let mut state_root = Hash::from_empty();
+        // The state which the current epoch produced.
+        let mut state_root = self.engine.get_current_state_root();
         let mut current_hash = if current_epoch_id != 0 {
             let current_epoch = self
                 .engine
                 .get_epoch_by_id(ctx.clone(), current_epoch_id)
                 .await?;
-            state_root = current_epoch.header.state_root.clone();
             let tmp = Hash::digest(current_epoch.encode_fixed()?);
 
             // Check epoch for the first time.
diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 933c8bf..22fade7 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -414,6 +414,10 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
         self.adapter.save_proof(ctx, proof).await
     }
 
+    pub fn get_current_state_root(&self) -> MerkleRoot {
+        self.current_consensus_status.read().state_root.clone()
+    }
+
     pub fn get_current_interval(&self) -> u64 {
         let current_consensus_status = self.current_consensus_status.read();
         current_consensus_status.consensus_interval
-- 
2.43.0


From f40e6aa2d5c56c8c2f2ec9bc03bf032b7f8e4484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:07 +0000
Subject: [PATCH 34/42] fix: a synchronized epoch has to extend the chain, the
 first one as well

---
 core/consensus/src/consensus.rs | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index 851ee32..5ef287e 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -92,27 +92,11 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
 
         // The state which the current epoch produced.
         let mut state_root = self.engine.get_current_state_root();
-        let mut current_hash = if current_epoch_id != 0 {
-            let current_epoch = self
-                .engine
-                .get_epoch_by_id(ctx.clone(), current_epoch_id)
-                .await?;
-            let tmp = Hash::digest(current_epoch.encode_fixed()?);
-
-            // Check epoch for the first time.
-            let epoch_header = self
-                .engine
-                .pull_epoch(ctx.clone(), current_epoch_id + 1)
-                .await?
-                .header;
-            self.check_proof(current_epoch_id + 1, epoch_header.proof.clone())?;
-            if tmp != epoch_header.pre_hash {
-                return Err(ConsensusError::SyncEpochHashErr(current_epoch_id + 1).into());
-            }
-            tmp
-        } else {
-            Hash::from_empty()
-        };
+        let current_epoch = self
+            .engine
+            .get_epoch_by_id(ctx.clone(), current_epoch_id)
+            .await?;
+        let mut current_hash = Hash::digest(current_epoch.encode_fixed()?);
 
         // Start to synchronization.
         for id in (current_epoch_id + 1)..=rich_epoch_id {
@@ -126,7 +110,7 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
             debug!("consensus: synchronization check proof and previous hash");
             let proof = epoch.header.proof.clone();
             self.check_proof(id, proof.clone())?;
-            if id != 1 && current_hash != epoch.header.pre_hash {
+            if id != epoch.header.epoch_id || current_hash != epoch.header.pre_hash {
                 return Err(ConsensusError::SyncEpochHashErr(id).into());
             }
             self.engine.save_proof(ctx.clone(), proof.clone()).await?;
-- 
2.43.0


From c6be2baa753ce786554a5e2d2d40854cd9f47d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:07 +0000
Subject: [PATCH 35/42] fix: pulled transactions have to be the ones of the
 synchronized epoch

---
 core/consensus/src/consensus.rs | 23 +++++++++++++++++++++--
 core/consensus/src/lib.rs       |  4 ++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index 5ef287e..74c5461 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -9,10 +9,10 @@ use overlord::types::{AggregatedVote, Node, OverlordMsg, SignedProposal, SignedV
 use overlord::{DurationConfig, Overlord, OverlordHandler};
 use parking_lot::RwLock;
 
-use common_crypto::{PrivateKey, Secp256k1PrivateKey};
+use common_crypto::{Crypto, PrivateKey, Secp256k1, Secp256k1PrivateKey};
 
 use protocol::traits::{Consensus, ConsensusAdapter, CurrentConsensusStatus, NodeInfo};
-use protocol::types::{Address, Hash, Proof, Validator};
+use protocol::types::{Address, Epoch, Hash, Proof, SignedTransaction, Validator};
 use protocol::{fixed_codec::ProtocolFixedCodec, ProtocolResult};
 
 use crate::engine::ConsensusEngine;
@@ -121,6 +121,7 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
                 .engine
                 .pull_txs(ctx.clone(), epoch.ordered_tx_hashes.clone())
                 .await?;
+            check_pulled_txs(id, &epoch, &txs)?;
 
             // After get the signed transactions:
             // 1. Execute the signed transactions.
@@ -227,6 +228,24 @@ impl<Adapter: ConsensusAdapter + 'static> OverlordConsensus<Adapter> {
     }
 }
 
+/// The pulled transactions have to be the ones of the epoch, in its order.
+fn check_pulled_txs(id: u64, epoch: &Epoch, txs: &[SignedTransaction]) -> ProtocolResult<()> {
+    if txs.len() != epoch.ordered_tx_hashes.len() {
+        return Err(ConsensusError::SyncEpochTxsErr(id).into());
+    }
+
+    for (hash, tx) in epoch.ordered_tx_hashes.iter().zip(txs.iter()) {
+        if hash != &tx.tx_hash || hash != &Hash::digest(tx.raw.encode_fixed()?) {
+            return Err(ConsensusError::SyncEpochTxsErr(id).into());
+        }
+
+        Secp256k1::verify_signature(&hash.as_bytes(), &tx.signature, &tx.pubkey)
+            .map_err(|_| ConsensusError::SyncEpochTxsErr(id))?;
+    }
+
+    Ok(())
+}
+
 fn gen_overlord_status(epoch_id: u64, interval: u64, validators: Vec<Validator>) -> Status {
     let mut authority_list = validators
         .into_iter()
diff --git a/core/consensus/src/lib.rs b/core/consensus/src/lib.rs
index c410c19..562a54b 100644
--- a/core/consensus/src/lib.rs
+++ b/core/consensus/src/lib.rs
@@ -81,6 +81,10 @@ pub enum ConsensusError {
     #[display(fmt = "Synchronization {} proof error", _0)]
     SyncEpochProofErr(u64),
 
+    /// The synchronous transactions are not the ones of the epoch.
+    #[display(fmt = "Synchronization {} transactions error", _0)]
+    SyncEpochTxsErr(u64),
+
     /// The Rpc response mismatch the request.
     #[display(fmt = "Synchronization Rpc {:?} message mismatch", _0)]
     RpcErr(MsgType),
-- 
2.43.0


From 4eaf8129213da9def794002fe779ff1f5e9c2227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:26 +0000
Subject: [PATCH 36/42] fix: a proposal that does not extend the committed
 chain is rejected

---
 core/consensus/src/engine.rs | 27 ++++++++++++++++++++++++++-
 core/consensus/src/lib.rs    |  4 ++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 22fade7..dcbaf54 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -102,7 +102,7 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<FixedPill, FixedSignedTxs>
     async fn check_epoch(
         &self,
         ctx: Context,
-        _epoch_id: u64,
+        epoch_id: u64,
         hash: Bytes,
         epoch: FixedPill,
     ) -> Result<FixedSignedTxs, Box<dyn Error + Send>> {
@@ -114,6 +114,7 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<FixedPill, FixedSignedTxs>
         // If the epoch is proposed by self, it does not need to check. Get full signed
         // transactions directly.
         if !exemption {
+            self.check_proposal(epoch_id, &epoch.inner.epoch)?;
             self.adapter
                 .sync_txs(ctx.clone(), epoch.get_propose_hashes())
                 .await?;
@@ -301,6 +302,30 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
         }
     }
 
+    /// A proposal has to extend the committed chain by what was executed here.
+    fn check_proposal(&self, epoch_id: u64, epoch: &Epoch) -> ProtocolResult<()> {
+        let status = self.current_consensus_status.read();
+        let header = &epoch.header;
+        let hashes = &epoch.ordered_tx_hashes;
+        let order_root = Merkle::from_hashes(hashes.clone())
+            .get_root_hash()
+            .unwrap_or_else(Hash::from_empty);
+
+        if header.epoch_id != epoch_id
+            || header.epoch_id != status.epoch_id
+            || header.chain_id != self.node_info.chain_id
+            || header.pre_hash != status.prev_hash
+            || header.order_root != order_root
+            || header.confirm_root != [status.order_root.clone()]
+            || header.state_root != status.state_root
+            || header.receipt_root != status.receipt_root
+            || hashes.iter().collect::<HashSet<_>>().len() != hashes.len()
+        {
+            return Err(ConsensusError::ProposalErr(epoch_id).into());
+        }
+        Ok(())
+    }
+
     pub async fn get_current_epoch_id(&self, ctx: Context) -> ProtocolResult<u64> {
         self.adapter.get_current_epoch_id(ctx).await
     }
diff --git a/core/consensus/src/lib.rs b/core/consensus/src/lib.rs
index 562a54b..bbe2e60 100644
--- a/core/consensus/src/lib.rs
+++ b/core/consensus/src/lib.rs
@@ -73,6 +73,10 @@ pub enum ConsensusError {
     #[display(fmt = "Crypto error {:?}", _0)]
     CryptoErr(Box<CryptoError>),
 
+    /// The proposal does not extend the committed chain.
+    #[display(fmt = "Proposal of {} epoch error", _0)]
+    ProposalErr(u64),
+
     /// The synchronous epoch does not pass the checks.
     #[display(fmt = "Synchronization {} epoch error", _0)]
     SyncEpochHashErr(u64),
-- 
2.43.0


From 77b563d6916030a0bd6cd648b90705c8dc54a473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:26 +0000
Subject: [PATCH 37/42] fix: a short signature is an error

---
 core/consensus/src/util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/consensus/src/util.rs b/core/consensus/src/util.rs
index be63645..3a3893f 100644
--- a/core/consensus/src/util.rs
+++ b/core/consensus/src/util.rs
@@ -39,6 +39,12 @@ impl Crypto for OverlordCrypto {
         mut signature: Bytes,
         hash: Bytes,
     ) -> Result<Bytes, Box<dyn Error + Send>> {
+        if signature.len() < 33 {
+            return Err(ProtocolError::from(ConsensusError::Other(
+                "signature without public key".to_string(),
+            ))
+            .into());
+        }
         let tmp = signature.split_off(33);
         let pub_key = signature;
         let signature = tmp;
-- 
2.43.0


From 8b065682822ca06dabbc4e3a0d44b682534ffbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:26 +0000
Subject: [PATCH 38/42] fix: a response of no known kind is an error

---
 core/consensus/src/fixed_types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/consensus/src/fixed_types.rs b/core/consensus/src/fixed_types.rs
index 714af44..435dcfb 100644
--- a/core/consensus/src/fixed_types.rs
+++ b/core/consensus/src/fixed_types.rs
@@ -47,6 +47,9 @@ impl MessageCodec for ConsensusRpcResponse {
 
     async fn decode(mut bytes: Bytes) -> ProtocolResult<Self> {
         let len = bytes.len();
+        if len == 0 {
+            return Err(ConsensusError::DecodeErr(MsgType::RpcPullEpochs).into());
+        }
         let flag = bytes.split_off(len - 1);
 
         match flag.as_ref() {
@@ -60,7 +63,7 @@ impl MessageCodec for ConsensusRpcResponse {
                     .map_err(|_| ConsensusError::DecodeErr(MsgType::RpcPullTxs))?;
                 Ok(ConsensusRpcResponse::PullTxs(Box::new(res)))
             }
-            _ => unreachable!(),
+            _ => Err(ConsensusError::DecodeErr(MsgType::RpcPullEpochs).into()),
         }
     }
 }
-- 
2.43.0


From 1a84b1e31d956fb88392d8c66402259cfdcc4f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:01 +0000
Subject: [PATCH 39/42] fix: a restarted node continues from the state its
 latest epoch produced

---
 core/consensus/src/lib.rs    |  1 +
 core/consensus/src/status.rs | 60 ++++++++++++++++++++++++++++++++++++
 src/main.rs                  | 51 +++++++++++++-----------------
 3 files changed, 82 insertions(+), 30 deletions(-)
 create mode 100644 core/consensus/src/status.rs

diff --git a/core/consensus/src/lib.rs b/core/consensus/src/lib.rs
index bbe2e60..1de606a 100644
--- a/core/consensus/src/lib.rs
+++ b/core/consensus/src/lib.rs
@@ -4,6 +4,7 @@ pub mod adapter;
 pub mod consensus;
 pub mod fixed_types;
 pub mod message;
+pub mod status;
 pub mod util;
 
 pub use overlord::DurationConfig;
diff --git a/core/consensus/src/status.rs b/core/consensus/src/status.rs
new file mode 100644
index 0000000..85fe572
--- /dev/null
+++ b/core/consensus/src/status.rs
@@ -0,0 +1,60 @@
+use common_merkle::Merkle;
+
+use protocol::fixed_codec::ProtocolFixedCodec;
+use protocol::traits::{CurrentConsensusStatus, Storage};
+use protocol::types::{Hash, MerkleRoot, Receipt, Validator};
+use protocol::ProtocolResult;
+
+pub(crate) fn order_root(hashes: &[Hash]) -> MerkleRoot {
+    Merkle::from_hashes(hashes.to_vec())
+        .get_root_hash()
+        .unwrap_or_else(Hash::from_empty)
+}
+
+pub(crate) fn receipt_root(receipts: &[Receipt]) -> ProtocolResult<MerkleRoot> {
+    let mut hashes = Vec::with_capacity(receipts.len());
+    for receipt in receipts {
+        hashes.push(Hash::digest(receipt.encode_fixed()?));
+    }
+
+    Ok(order_root(&hashes))
+}
+
+/// The status after the latest epoch in the storage, as it was when that epoch
+/// had been executed.
+pub async fn restore_status<S: Storage>(
+    storage: &S,
+    cycles_price: u64,
+    cycles_limit: u64,
+    validators: Vec<Validator>,
+    consensus_interval: u64,
+) -> ProtocolResult<CurrentConsensusStatus> {
+    let epoch = storage.get_latest_epoch().await?;
+    let prev_hash = Hash::digest(epoch.encode_fixed()?);
+    let proof = storage.get_latest_proof().await?;
+    let receipts = storage
+        .get_receipts(epoch.ordered_tx_hashes.clone())
+        .await?;
+    // The header holds the state before the epoch, its receipts hold the one after.
+    let state_root = receipts
+        .last()
+        .map(|receipt| receipt.state_root.clone())
+        .unwrap_or_else(|| epoch.header.state_root.clone());
+    let order_root = order_root(&epoch.ordered_tx_hashes);
+
+    Ok(CurrentConsensusStatus {
+        cycles_price,
+        cycles_limit,
+        epoch_id: epoch.header.epoch_id + 1,
+        prev_hash,
+        logs_bloom: epoch.header.logs_bloom,
+        order_root: order_root.clone(),
+        confirm_root: vec![order_root],
+        state_root,
+        receipt_root: vec![receipt_root(&receipts)?],
+        cycles_used: epoch.header.cycles_used,
+        proof,
+        validators,
+        consensus_interval,
+    })
+}
diff --git a/src/main.rs b/src/main.rs
index d694507..c65bf0d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -20,6 +20,7 @@ use core_consensus::message::{
     VoteMessageHandler, END_GOSSIP_AGGREGATED_VOTE, END_GOSSIP_RICH_EPOCH_ID,
     END_GOSSIP_SIGNED_PROPOSAL, END_GOSSIP_SIGNED_VOTE, RPC_RESP_SYNC_PULL, RPC_SYNC_PULL,
 };
+use core_consensus::status::restore_status;
 use core_executor::trie::RocksTrieDB;
 use core_executor::TransactionExecutorFactory;
 use core_mempool::{
@@ -30,11 +31,11 @@ use core_network::{NetworkConfig, NetworkService};
 use core_storage::{adapter::rocks::RocksAdapter, ImplStorage};
 
 use protocol::traits::executor::ExecutorFactory;
-use protocol::traits::{CurrentConsensusStatus, NodeInfo, Storage};
+use protocol::traits::{NodeInfo, Storage};
 use protocol::types::{
     Address, Bloom, Epoch, EpochHeader, Genesis, Hash, MerkleRoot, Proof, UserAddress, Validator,
 };
-use protocol::{fixed_codec::ProtocolFixedCodec, ProtocolResult};
+use protocol::ProtocolResult;
 
 use crate::config::Config;
 
@@ -189,7 +190,6 @@ async fn start(cfg: &Config) -> ProtocolResult<()> {
         .unwrap();
 
     // Init mempool
-    let current_epoch = storage.get_latest_epoch().await.unwrap();
     let mempool_adapter = DefaultMemPoolAdapter::<Secp256k1, _, _>::new(
         network_service.handle(),
         Arc::clone(&storage),
@@ -247,33 +247,24 @@ async fn start(cfg: &Config) -> ProtocolResult<()> {
         chain_id:     chain_id.clone(),
         self_address: my_address.clone(),
     };
-    let current_header = &current_epoch.header;
-    let prevhash = Hash::digest(current_epoch.encode_fixed()?);
-
-    let current_consensus_status = CurrentConsensusStatus {
-        cycles_price:       cfg.consensus.cycles_price,
-        cycles_limit:       cfg.consensus.cycles_limit,
-        epoch_id:           current_epoch.header.epoch_id + 1,
-        prev_hash:          prevhash,
-        logs_bloom:         current_header.logs_bloom,
-        order_root:         Hash::from_empty(),
-        confirm_root:       vec![Hash::from_empty()],
-        state_root:         current_header.state_root.clone(),
-        receipt_root:       vec![Hash::from_empty()],
-        cycles_used:        current_header.cycles_used,
-        proof:              current_header.proof.clone(),
-        validators:         cfg
-            .consensus
-            .verifier_list
-            .iter()
-            .map(|v| Validator {
-                address:        UserAddress::from_hex(v).unwrap(),
-                propose_weight: 1,
-                vote_weight:    1,
-            })
-            .collect(),
-        consensus_interval: cfg.consensus.interval,
-    };
+    let validators = cfg
+        .consensus
+        .verifier_list
+        .iter()
+        .map(|v| Validator {
+            address:        UserAddress::from_hex(v).unwrap(),
+            propose_weight: 1,
+            vote_weight:    1,
+        })
+        .collect();
+    let current_consensus_status = restore_status(
+        storage.as_ref(),
+        cfg.consensus.cycles_price,
+        cfg.consensus.cycles_limit,
+        validators,
+        cfg.consensus.interval,
+    )
+    .await?;
 
     let overlord_consensus = Arc::new(OverlordConsensus::new(
         current_consensus_status,
-- 
2.43.0


From 0dbe08cacfbac1f5536d9a8a7e2fd1f581974c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:01 +0000
Subject: [PATCH 40/42] fix: requests for transactions are answered

---
 src/main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index c65bf0d..b1a0098 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -24,8 +24,8 @@ use core_consensus::status::restore_status;
 use core_executor::trie::RocksTrieDB;
 use core_executor::TransactionExecutorFactory;
 use core_mempool::{
-    DefaultMemPoolAdapter, HashMemPool, MsgPushTxs, NewTxsHandler, END_GOSSIP_NEW_TXS,
-    END_RESP_PULL_TXS, END_RPC_PULL_TXS,
+    DefaultMemPoolAdapter, HashMemPool, MsgPushTxs, NewTxsHandler, PullTxsHandler,
+    END_GOSSIP_NEW_TXS, END_RESP_PULL_TXS, END_RPC_PULL_TXS,
 };
 use core_network::{NetworkConfig, NetworkService};
 use core_storage::{adapter::rocks::RocksAdapter, ImplStorage};
@@ -215,7 +215,10 @@ async fn start(cfg: &Config) -> ProtocolResult<()> {
     network_service
         .register_endpoint_handler(
             END_RPC_PULL_TXS,
-            Box::new(NewTxsHandler::new(Arc::clone(&mempool))),
+            Box::new(PullTxsHandler::new(
+                network_service.handle(),
+                Arc::clone(&mempool),
+            )),
         )
         .unwrap();
 
-- 
2.43.0


From 86c86bceb20d6ee6c61628d16dbddb94936cc662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:05 +0000
Subject: [PATCH 41/42] fix: a commit waits for a synchronization instead of
 failing

---
 core/consensus/src/engine.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index dcbaf54..0dbecb5 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -137,13 +137,8 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<FixedPill, FixedSignedTxs>
         epoch_id: u64,
         commit: Commit<FixedPill>,
     ) -> Result<Status, Box<dyn Error + Send>> {
-        let lock = self.lock.try_lock();
-
-        if lock.is_none() {
-            return Err(
-                ProtocolError::from(ConsensusError::Other("lock in sync".to_string())).into(),
-            );
-        }
+        // A synchronization, or an announcement being looked at, delays the commit.
+        let _lock = self.lock.lock().await;
 
         // It may have been synchronized since it was decided.
         if self.current_consensus_status.read().epoch_id != epoch_id {
-- 
2.43.0


From 8d8cd923ae7e764bb5bb019de8c543809d19df1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:49 +0000
Subject: [PATCH 42/42] fix: a node that died while it wrote the genesis can
 start again

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index b1a0098..dc9594f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -142,6 +142,8 @@ async fn handle_init(cfg: &Config, genesis_path: impl AsRef<Path>) -> ProtocolRe
         validators:        vec![],
     };
     let latest_proof = genesis_epoch_header.proof.clone();
+    // The epoch comes last, it tells that the genesis is complete.
+    storage.update_latest_proof(latest_proof).await.unwrap();
     storage
         .insert_epoch(Epoch {
             header:            genesis_epoch_header,
@@ -149,7 +151,6 @@ async fn handle_init(cfg: &Config, genesis_path: impl AsRef<Path>) -> ProtocolRe
         })
         .await
         .unwrap();
-    storage.update_latest_proof(latest_proof).await.unwrap();
     Ok(())
 }
 
-- 
2.43.0

