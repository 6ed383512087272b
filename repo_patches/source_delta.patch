From 2efbc82173fc9cc84eee74e18717d28f4817d4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:10 +0000
Subject: [PATCH 01/60] fix: reconcile the pools only once a reorg is committed

A fork that lost or failed validation still evicted the mempool's transactions and dropped its orphans, since both happened inside the batch that was then rolled back.
---
 src/BlockChain/Processors/BlockProcessor.cpp | 23 ++++++++++++++++----
 src/BlockChain/Processors/BlockProcessor.h   |  1 +
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/BlockChain/Processors/BlockProcessor.cpp b/src/BlockChain/Processors/BlockProcessor.cpp
index d429276..2f8eb1a 100644
--- a/src/BlockChain/Processors/BlockProcessor.cpp
+++ b/src/BlockChain/Processors/BlockProcessor.cpp
@@ -78,6 +78,7 @@ EBlockChainStatus BlockProcessor::ProcessBlockInternal(const FullBlock& block)
 		ValidateAndAddBlock(block, pBatch);
 		pConfirmedChain->AddBlock(block.GetHash(), block.GetHeight());
 		pBatch->Commit();
+		OnBlockConfirmed(block, pBatch);
 	}
 
 	return EBlockChainStatus::SUCCESS;
@@ -165,6 +166,11 @@ void BlockProcessor::HandleReorg(Writer<ChainState> pBatch, const std::vector<Fu
 		}
 
 		pBatch->Commit();
+
+		for (const FullBlock::CPtr& pBlock : reorgBlocks)
+		{
+			OnBlockConfirmed(*pBlock, pBatch);
+		}
 	}
 	else
 	{
@@ -178,15 +184,18 @@ void BlockProcessor::HandleReorg(Writer<ChainState> pBatch, const std::vector<Fu
 		}
 
 		pBlockDB->Commit();
+
+		for (const FullBlock::CPtr& pBlock : reorgBlocks)
+		{
+			pBatch->GetOrphanPool()->RemoveOrphan(pBlock->GetHeight(), pBlock->GetHash());
+		}
 	}
 }
 
 void BlockProcessor::ValidateAndAddBlock(const FullBlock& block, Writer<ChainState> pBatch)
 {
-	auto pOrphanPool = pBatch->GetOrphanPool();
 	auto pBlockDB = pBatch->GetBlockDB();
 	auto pTxHashSet = pBatch->GetTxHashSetManager()->GetTxHashSet();
-	auto pTxPool = pBatch->GetTransactionPool();
 
 	const Hash& previousHash = block.GetPreviousHash();
 	auto pPreviousHeader = pBlockDB->GetBlockHeader(previousHash);
@@ -220,6 +229,12 @@ void BlockProcessor::ValidateAndAddBlock(const FullBlock& block, Writer<ChainSta
 
 	pBlockDB->AddBlockSums(block.GetHash(), blockSums);
 	pBlockDB->AddBlock(block);
-	pOrphanPool->RemoveOrphan(block.GetHeight(), block.GetHash());
-	pTxPool->ReconcileBlock(pBlockDB, pTxHashSet, block);
+}
+
+void BlockProcessor::OnBlockConfirmed(const FullBlock& block, Writer<ChainState> pBatch)
+{
+	auto pTxHashSet = pBatch->GetTxHashSetManager()->GetTxHashSet();
+
+	pBatch->GetOrphanPool()->RemoveOrphan(block.GetHeight(), block.GetHash());
+	pBatch->GetTransactionPool()->ReconcileBlock(pBatch->GetBlockDB(), pTxHashSet, block);
 }
\ No newline at end of file
diff --git a/src/BlockChain/Processors/BlockProcessor.h b/src/BlockChain/Processors/BlockProcessor.h
index f53a4ed..4c6c8a7 100644
--- a/src/BlockChain/Processors/BlockProcessor.h
+++ b/src/BlockChain/Processors/BlockProcessor.h
@@ -28,6 +28,7 @@ private:
 	EBlockChainStatus ProcessBlockInternal(const FullBlock& block);
 	void HandleReorg(Writer<ChainState> pBatch, const std::vector<FullBlock::CPtr>& reorgBlocks);
 	void ValidateAndAddBlock(const FullBlock& block, Writer<ChainState> pLockedState);
+	void OnBlockConfirmed(const FullBlock& block, Writer<ChainState> pBatch);
 
 	BlockProcessingInfo DetermineBlockStatus(const FullBlock& block, Writer<ChainState> pLockedState);
 
-- 
2.43.0


From 5d5189710356d0de71e973c83eded1f4eff326b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:10 +0000
Subject: [PATCH 02/60] fix: refuse bodies with duplicate inputs, outputs or
 kernels

Inputs were compared together with their features, so spending one output twice under different features passed (and crashed when applied); kernels were not compared at all.
---
 src/Core/Validation/TxBodyValidator.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/Core/Validation/TxBodyValidator.cpp b/src/Core/Validation/TxBodyValidator.cpp
index 43be51d..59da9f5 100644
--- a/src/Core/Validation/TxBodyValidator.cpp
+++ b/src/Core/Validation/TxBodyValidator.cpp
@@ -30,17 +30,26 @@ void TxBodyValidator::VerifySorted(const TransactionBody& body)
 		throw BAD_DATA_EXCEPTION(EBanReason::BadTransaction, "Inputs, outputs, and/or kernels not sorted.");
 	}
 
-	for (size_t i = 1; i < body.GetInputs().size(); i++) {
-		if (body.GetInput(i) == body.GetInput(i - 1)) {
+	// The features are part of the hash that inputs and outputs are sorted by, so duplicates may not be adjacent.
+	std::set<Commitment> input_commits;
+	for (const TransactionInput& input : body.GetInputs()) {
+		if (!input_commits.insert(input.GetCommitment()).second) {
 			throw BAD_DATA_EXCEPTION(EBanReason::BadTransaction, "Duplicate inputs.");
 		}
 	}
 
-	for (size_t i = 1; i < body.GetOutputs().size(); i++) {
-		if (body.GetOutput(i) == body.GetOutput(i - 1)) {
+	std::set<Commitment> output_commits;
+	for (const TransactionOutput& output : body.GetOutputs()) {
+		if (!output_commits.insert(output.GetCommitment()).second) {
 			throw BAD_DATA_EXCEPTION(EBanReason::BadTransaction, "Duplicate outputs.");
 		}
 	}
+
+	for (size_t i = 1; i < body.GetKernels().size(); i++) {
+		if (body.GetKernel(i) == body.GetKernel(i - 1)) {
+			throw BAD_DATA_EXCEPTION(EBanReason::BadTransaction, "Duplicate kernels.");
+		}
+	}
 }
 
 // Verify that no input is spending an output from the same block.
-- 
2.43.0


From 1f7d93fd598bafdfe861ec0213bf84dc9993b550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 03/60] fix: compare header timestamps with the future limit in
 seconds

The limit was in nanoseconds, so no header was ever too far in the future.
---
 src/BlockChain/Validators/BlockHeaderValidator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BlockChain/Validators/BlockHeaderValidator.cpp b/src/BlockChain/Validators/BlockHeaderValidator.cpp
index 41ab9ee..e5c8bd5 100644
--- a/src/BlockChain/Validators/BlockHeaderValidator.cpp
+++ b/src/BlockChain/Validators/BlockHeaderValidator.cpp
@@ -16,7 +16,9 @@ void BlockHeaderValidator::Validate(const BlockHeader& header, const BlockHeader
     }
 
     // Validate Timestamp - Ensure timestamp not too far in the future
-    if (header.GetTimestamp() > Consensus::GetMaxBlockTime(std::chrono::system_clock::now())) {
+    // GetMaxBlockTime is in the clock's own resolution, whereas header timestamps are in seconds.
+    const std::chrono::system_clock::duration maxBlockTime(Consensus::GetMaxBlockTime(std::chrono::system_clock::now()));
+    if (header.GetTimestamp() > std::chrono::duration_cast<std::chrono::seconds>(maxBlockTime).count()) {
         throw BAD_DATA_EXCEPTION_F(EBanReason::BadBlockHeader, "Timestamp beyond maxBlockTime for header {}", header);
     }
 
-- 
2.43.0


From e0cbb074d89355b5091e24cf8fa9b95aecc57bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 04/60] fix: refuse headers in a list that do not extend the
 one before them

Lists of sync headers were only checked to have consecutive heights, so a header naming another parent was accepted.
---
 src/BlockChain/Validators/BlockHeaderValidator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BlockChain/Validators/BlockHeaderValidator.cpp b/src/BlockChain/Validators/BlockHeaderValidator.cpp
index e5c8bd5..20012a0 100644
--- a/src/BlockChain/Validators/BlockHeaderValidator.cpp
+++ b/src/BlockChain/Validators/BlockHeaderValidator.cpp
@@ -15,6 +15,11 @@ void BlockHeaderValidator::Validate(const BlockHeader& header, const BlockHeader
         throw BAD_DATA_EXCEPTION_F(EBanReason::BadBlockHeader, "Invalid height for header {}", header);
     }
 
+    // Validate link
+    if (header.GetPreviousHash() != prev_header.GetHash()) {
+        throw BAD_DATA_EXCEPTION_F(EBanReason::BadBlockHeader, "Previous hash doesn't match for header {}", header);
+    }
+
     // Validate Timestamp - Ensure timestamp not too far in the future
     // GetMaxBlockTime is in the clock's own resolution, whereas header timestamps are in seconds.
     const std::chrono::system_clock::duration maxBlockTime(Consensus::GetMaxBlockTime(std::chrono::system_clock::now()));
-- 
2.43.0


From c19360ddc20ed0cddbd01fb736d7809a17590c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 05/60] fix: process waiting orphans of forks too

Only the candidate chain's block right after the confirmed tip was ever taken from the orphan pool. An orphan on a heavier fork that leaves the confirmed chain below its tip was never reconsidered, and GetBlocksNeeded never asked for it again.
---
 src/BlockChain/BlockChainImpl.cpp        | 36 +++++++++---------------
 src/BlockChain/ChainState.cpp            | 23 +++++++++++++++
 src/BlockChain/ChainState.h              |  1 +
 src/BlockChain/OrphanPool/OrphanPool.cpp | 24 ++++++++++++++++
 src/BlockChain/OrphanPool/OrphanPool.h   |  2 ++
 5 files changed, 64 insertions(+), 22 deletions(-)

diff --git a/src/BlockChain/BlockChainImpl.cpp b/src/BlockChain/BlockChainImpl.cpp
index d1f97ed..0e45fa2 100644
--- a/src/BlockChain/BlockChainImpl.cpp
+++ b/src/BlockChain/BlockChainImpl.cpp
@@ -385,37 +385,29 @@ std::vector<std::pair<uint64_t, Hash>> BlockChain::GetBlocksNeeded(const uint64_
 
 bool BlockChain::ProcessNextOrphanBlock()
 {
-	BlockHeaderPtr pNextHeader = nullptr;
-	std::shared_ptr<const FullBlock> pOrphanBlock = nullptr;
-
+	std::shared_ptr<const FullBlock> pOrphanBlock = m_pChainState->Read()->GetNextOrphanBlock();
+	if (pOrphanBlock == nullptr)
 	{
-		auto pReader = m_pChainState->Read();
-		const uint64_t height = pReader->GetHeight(EChainType::CONFIRMED) + 1;
-		pNextHeader = pReader->GetBlockHeaderByHeight(height, EChainType::CANDIDATE);
-		if (pNextHeader == nullptr)
-		{
-			return false;
-		}
-
-		pOrphanBlock = pReader->GetOrphanBlock(height, pNextHeader->GetHash());
-		if (pOrphanBlock == nullptr)
-		{
-			return false;
-		}
+		return false;
 	}
 
 	try
 	{
-		return BlockProcessor(m_pChainState).ProcessBlock(*pOrphanBlock) == EBlockChainStatus::SUCCESS;
+		if (BlockProcessor(m_pChainState).ProcessBlock(*pOrphanBlock) == EBlockChainStatus::SUCCESS)
+		{
+			return true;
+		}
 	}
 	catch (std::exception&)
 	{
-		m_pChainState->
-			Write()->
-			GetOrphanPool()->
-			RemoveOrphan(pNextHeader->GetHeight(), pNextHeader->GetHash());
-		return false;
+		LOG_WARNING_F("Failed to process orphan {}", *pOrphanBlock);
 	}
+
+	m_pChainState->
+		Write()->
+		GetOrphanPool()->
+		RemoveOrphan(pOrphanBlock->GetHeight(), pOrphanBlock->GetHash());
+	return false;
 }
 
 bool BlockChain::HasOrphan(const Hash& blockHash) const
diff --git a/src/BlockChain/ChainState.cpp b/src/BlockChain/ChainState.cpp
index 7a0eb0a..61f109a 100644
--- a/src/BlockChain/ChainState.cpp
+++ b/src/BlockChain/ChainState.cpp
@@ -166,6 +166,29 @@ std::shared_ptr<const FullBlock> ChainState::GetOrphanBlock(const uint64_t heigh
 	return m_pOrphanPool->GetOrphanBlock(height, hash);
 }
 
+std::shared_ptr<const FullBlock> ChainState::GetNextOrphanBlock() const
+{
+	// The next block of the candidate chain, if it's waiting.
+	const uint64_t nextHeight = GetHeight(EChainType::CONFIRMED) + 1;
+	auto pNextIndex = GetChainStore()->GetCandidateChain()->GetByHeight(nextHeight);
+	if (pNextIndex != nullptr)
+	{
+		auto pOrphanBlock = m_pOrphanPool->GetOrphanBlock(nextHeight, pNextIndex->GetHash());
+		if (pOrphanBlock != nullptr && GetChainStore()->GetConfirmedChain()->GetTipHash() == pOrphanBlock->GetPreviousHash())
+		{
+			return pOrphanBlock;
+		}
+	}
+
+	// Otherwise, any orphan whose previous block has been processed, since it may be on a fork.
+	return m_pOrphanPool->FindOrphanBlock(
+		[this](const FullBlock& orphan) {
+			return GetChainStore()->GetConfirmedChain()->IsOnChain(orphan.GetHeight() - 1, orphan.GetPreviousHash())
+				|| GetBlockDB()->GetBlock(orphan.GetPreviousHash()) != nullptr;
+		}
+	);
+}
+
 std::unique_ptr<BlockWithOutputs> ChainState::GetBlockWithOutputs(const uint64_t height) const
 {
 	auto pBlockIndex = GetChainStore()->GetChain(EChainType::CONFIRMED)->GetByHeight(height);
diff --git a/src/BlockChain/ChainState.h b/src/BlockChain/ChainState.h
index a88e25c..5200e63 100644
--- a/src/BlockChain/ChainState.h
+++ b/src/BlockChain/ChainState.h
@@ -43,6 +43,7 @@ public:
 	std::unique_ptr<FullBlock> GetBlockByHash(const Hash& hash) const;
 	std::unique_ptr<FullBlock> GetBlockByHeight(const uint64_t height) const;
 	std::shared_ptr<const FullBlock> GetOrphanBlock(const uint64_t height, const Hash& hash) const;
+	std::shared_ptr<const FullBlock> GetNextOrphanBlock() const;
 
 	std::unique_ptr<BlockWithOutputs> GetBlockWithOutputs(const uint64_t height) const;
 
diff --git a/src/BlockChain/OrphanPool/OrphanPool.cpp b/src/BlockChain/OrphanPool/OrphanPool.cpp
index 80eedd1..49079ed 100644
--- a/src/BlockChain/OrphanPool/OrphanPool.cpp
+++ b/src/BlockChain/OrphanPool/OrphanPool.cpp
@@ -82,6 +82,30 @@ std::shared_ptr<const FullBlock> OrphanPool::GetNextOrphanBlock(const uint64_t h
 	return std::shared_ptr<const FullBlock>(nullptr);
 }
 
+// Finds the lowest orphan that satisfies the predicate.
+std::shared_ptr<const FullBlock> OrphanPool::FindOrphanBlock(const std::function<bool(const FullBlock&)>& predicate) const
+{
+	std::shared_ptr<const FullBlock> pLowest = nullptr;
+	for (const auto& heightOrphans : m_orphansByHeight)
+	{
+		if (pLowest != nullptr && pLowest->GetHeight() <= heightOrphans.first)
+		{
+			continue;
+		}
+
+		for (const Orphan& orphan : heightOrphans.second)
+		{
+			if (predicate(*orphan.GetBlock()))
+			{
+				pLowest = orphan.GetBlock();
+				break;
+			}
+		}
+	}
+
+	return pLowest;
+}
+
 void OrphanPool::RemoveOrphan(const uint64_t height, const Hash& hash)
 {
 	auto iter = m_orphansByHeight.find(height);
diff --git a/src/BlockChain/OrphanPool/OrphanPool.h b/src/BlockChain/OrphanPool/OrphanPool.h
index 7a7a3e0..beceac9 100644
--- a/src/BlockChain/OrphanPool/OrphanPool.h
+++ b/src/BlockChain/OrphanPool/OrphanPool.h
@@ -4,6 +4,7 @@
 
 #include <Crypto/Models/Hash.h>
 #include <Core/Models/FullBlock.h>
+#include <functional>
 #include <unordered_map>
 #include <caches/Cache.h>
 
@@ -16,6 +17,7 @@ public:
 	void AddOrphanBlock(const FullBlock& block);
 	std::shared_ptr<const FullBlock> GetOrphanBlock(const uint64_t height, const Hash& hash) const;
 	std::shared_ptr<const FullBlock> GetNextOrphanBlock(const uint64_t height, const Hash& previousHash) const;
+	std::shared_ptr<const FullBlock> FindOrphanBlock(const std::function<bool(const FullBlock&)>& predicate) const;
 	void RemoveOrphan(const uint64_t height, const Hash& hash);
 
 	void AddOrphanHeader(BlockHeaderPtr pHeader);
-- 
2.43.0


From 0a786dc9b4321b3bf28815159c9752df3265c0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 06/60] fix: weigh blocks with the block weights at every
 height

---
 include/Core/Models/FullBlock.h              | 5 ++++-
 src/Core/Validation/TransactionValidator.cpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/Core/Models/FullBlock.h b/include/Core/Models/FullBlock.h
index a9e6dba..ddd7e7f 100644
--- a/include/Core/Models/FullBlock.h
+++ b/include/Core/Models/FullBlock.h
@@ -4,6 +4,7 @@
 // Distributed under the MIT software license, see the accompanying
 // file LICENSE or http://www.opensource.org/licenses/mit-license.php.
 
+#include <Consensus.h>
 #include <Core/Models/BlockHeader.h>
 #include <Core/Models/TransactionBody.h>
 #include <Core/Serialization/ByteBuffer.h>
@@ -81,7 +82,9 @@ public:
 	}
 
 	uint64_t GetTotalFees() const noexcept { return m_transactionBody.CalcFee(); }
-	uint64_t CalcWeight() const noexcept { return m_transactionBody.CalcWeight(GetHeight()); }
+
+	// The weight counted against MAX_BLOCK_WEIGHT, which unlike the one fees are based on, is the same at every height.
+	uint64_t CalcWeight() const noexcept { return Consensus::CalculateWeightV5(GetInputs().size(), GetOutputs().size(), GetKernels().size()); }
 
 	uint64_t GetHeight() const noexcept { return m_pBlockHeader->GetHeight(); }
 	const Hash& GetPreviousHash() const noexcept { return m_pBlockHeader->GetPreviousHash(); }
diff --git a/src/Core/Validation/TransactionValidator.cpp b/src/Core/Validation/TransactionValidator.cpp
index 41c9e82..a6aa4c7 100644
--- a/src/Core/Validation/TransactionValidator.cpp
+++ b/src/Core/Validation/TransactionValidator.cpp
@@ -26,7 +26,7 @@ void TransactionValidator::Validate(const Transaction& transaction, const uint64
 
 void TransactionValidator::ValidateWeight(const TransactionBody& body, const uint64_t block_height) const
 {
-	uint64_t weight = body.CalcWeight(block_height);
+	uint64_t weight = Consensus::CalculateWeightV5(body.GetInputs().size(), body.GetOutputs().size(), body.GetKernels().size());
 
 	// Reserve enough space for a coinbase output and kernel
 	uint64_t reserve_weight = (Consensus::OUTPUT_WEIGHT + Consensus::KERNEL_WEIGHT);
-- 
2.43.0


From 29ca3b1ffdb3de1403a5464ba545daf5f5a243c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 07/60] fix: stamp pooled transactions with the time they
 arrived

---
 src/TxPool/Pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TxPool/Pool.cpp b/src/TxPool/Pool.cpp
index b875915..604c826 100644
--- a/src/TxPool/Pool.cpp
+++ b/src/TxPool/Pool.cpp
@@ -33,7 +33,7 @@ void Pool::AddTransaction(TransactionPtr pTransaction, const EDandelionStatus st
 {
 	LOG_DEBUG_F("Transaction added: {}", pTransaction->GetHash());
 
-	m_transactions.emplace_back(TxPoolEntry(pTransaction, status, std::time_t()));
+	m_transactions.emplace_back(TxPoolEntry(pTransaction, status, std::time(nullptr)));
 }
 
 bool Pool::ContainsTransaction(const Transaction& transaction) const
-- 
2.43.0


From f619819d7972665babd2f70f12ec262097933843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 08/60] fix: refuse transactions that conflict with the mempool

---
 src/TxPool/Pool.cpp                | 51 ++++++++++++++++++++++++++++++
 src/TxPool/Pool.h                  |  1 +
 src/TxPool/TransactionPoolImpl.cpp |  7 ++++
 3 files changed, 59 insertions(+)

diff --git a/src/TxPool/Pool.cpp b/src/TxPool/Pool.cpp
index 604c826..107c696 100644
--- a/src/TxPool/Pool.cpp
+++ b/src/TxPool/Pool.cpp
@@ -49,6 +49,57 @@ bool Pool::ContainsTransaction(const Transaction& transaction) const
 	return false;
 }
 
+// Two transactions can't both be mined if they spend the same output, create the same output, or share a kernel.
+bool Pool::ConflictsWith(const Transaction& transaction) const
+{
+	std::set<Commitment> inputs;
+	for (const TransactionInput& input : transaction.GetInputs())
+	{
+		inputs.insert(input.GetCommitment());
+	}
+
+	std::set<Commitment> outputs;
+	for (const TransactionOutput& output : transaction.GetOutputs())
+	{
+		outputs.insert(output.GetCommitment());
+	}
+
+	std::set<Hash> kernels;
+	for (const TransactionKernel& kernel : transaction.GetKernels())
+	{
+		kernels.insert(kernel.GetHash());
+	}
+
+	for (const TxPoolEntry& txPoolEntry : m_transactions)
+	{
+		for (const TransactionInput& input : txPoolEntry.GetTransaction()->GetInputs())
+		{
+			if (inputs.count(input.GetCommitment()) > 0)
+			{
+				return true;
+			}
+		}
+
+		for (const TransactionOutput& output : txPoolEntry.GetTransaction()->GetOutputs())
+		{
+			if (outputs.count(output.GetCommitment()) > 0)
+			{
+				return true;
+			}
+		}
+
+		for (const TransactionKernel& kernel : txPoolEntry.GetTransaction()->GetKernels())
+		{
+			if (kernels.count(kernel.GetHash()) > 0)
+			{
+				return true;
+			}
+		}
+	}
+
+	return false;
+}
+
 std::vector<TransactionPtr> Pool::FindTransactionsByKernel(const std::set<TransactionKernel>& kernels) const
 {
 	std::set<TransactionPtr> transactionSet;
diff --git a/src/TxPool/Pool.h b/src/TxPool/Pool.h
index 8c1ce18..83a8d30 100644
--- a/src/TxPool/Pool.h
+++ b/src/TxPool/Pool.h
@@ -20,6 +20,7 @@ public:
 
 	void AddTransaction(TransactionPtr pTransaction, const EDandelionStatus status);
 	bool ContainsTransaction(const Transaction& transaction) const;
+	bool ConflictsWith(const Transaction& transaction) const;
 	void RemoveTransaction(const Transaction& transaction);
 	void ReconcileBlock(
 		std::shared_ptr<const IBlockDB> pBlockDB,
diff --git a/src/TxPool/TransactionPoolImpl.cpp b/src/TxPool/TransactionPoolImpl.cpp
index a3a5529..c084ac9 100644
--- a/src/TxPool/TransactionPoolImpl.cpp
+++ b/src/TxPool/TransactionPoolImpl.cpp
@@ -67,6 +67,13 @@ EAddTransactionStatus TransactionPool::AddTransaction(
 		return EAddTransactionStatus::NOT_ADDED;
 	}
 
+	// The transactions in the mempool must be jointly valid.
+	if (poolType == EPoolType::MEMPOOL && m_memPool.ConflictsWith(*pTransaction))
+	{
+		LOG_WARNING_F("Transaction conflicts with the mempool ({})", *pTransaction);
+		return EAddTransactionStatus::NOT_ADDED;
+	}
+
 	if (poolType == EPoolType::MEMPOOL)
 	{
 		m_memPool.AddTransaction(pTransaction, EDandelionStatus::FLUFFED);
-- 
2.43.0


From b854170365372d5a073b967e76e616dc42401219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 09/60] fix: drop pooled transactions a reorg made premature

---
 src/TxPool/ValidTransactionFinder.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/TxPool/ValidTransactionFinder.cpp b/src/TxPool/ValidTransactionFinder.cpp
index bbc455b..3158cd3 100644
--- a/src/TxPool/ValidTransactionFinder.cpp
+++ b/src/TxPool/ValidTransactionFinder.cpp
@@ -47,6 +47,15 @@ bool ValidTransactionFinder::IsValidTransaction(
 		const uint64_t next_block_height = pTxHashSet->GetFlushedBlockHeader()->GetHeight() + 1;
 		TransactionValidator().Validate(*pTransaction, next_block_height);
 
+		// A reorg can lower the height, so a kernel that was due may not be anymore.
+		for (const TransactionKernel& kernel : pTransaction->GetKernels())
+		{
+			if (kernel.GetLockHeight() > next_block_height)
+			{
+				return false;
+			}
+		}
+
 		// Validate the tx against current chain state.
 		// Check all inputs are in the current UTXO set.
 		// Check all outputs are unique in current UTXO set.
-- 
2.43.0


From 2b809aff9bbfeadc3da087c6c411993820da668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 10/60] fix: do not hand out stem transactions by kernel hash

---
 src/TxPool/TransactionPoolImpl.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/TxPool/TransactionPoolImpl.cpp b/src/TxPool/TransactionPoolImpl.cpp
index c084ac9..1f1b3b8 100644
--- a/src/TxPool/TransactionPoolImpl.cpp
+++ b/src/TxPool/TransactionPoolImpl.cpp
@@ -108,13 +108,8 @@ TransactionPtr TransactionPool::FindTransactionByKernelHash(const Hash& kernelHa
 {
 	std::shared_lock<std::shared_mutex> readLock(m_mutex);
 
-	TransactionPtr pTransaction = m_memPool.FindTransactionByKernelHash(kernelHash);
-	if (pTransaction == nullptr)
-	{
-		pTransaction = m_stemPool.FindTransactionByKernelHash(kernelHash);
-	}
-
-	return pTransaction;
+	// Peers ask for transactions by kernel, so the ones still in the stem phase must not be found.
+	return m_memPool.FindTransactionByKernelHash(kernelHash);
 }
 
 void TransactionPool::ReconcileBlock(std::shared_ptr<const IBlockDB> pBlockDB, ITxHashSetConstPtr pTxHashSet, const FullBlock& block)
-- 
2.43.0


From 2b3d76181f41b3f4e65916073a339d172a4ddace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 11/60] fix: keep no stem transaction that is public already

---
 src/TxPool/TransactionPoolImpl.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/TxPool/TransactionPoolImpl.cpp b/src/TxPool/TransactionPoolImpl.cpp
index 1f1b3b8..003d8f4 100644
--- a/src/TxPool/TransactionPoolImpl.cpp
+++ b/src/TxPool/TransactionPoolImpl.cpp
@@ -33,6 +33,12 @@ EAddTransactionStatus TransactionPool::AddTransaction(
 		return EAddTransactionStatus::DUPL_TX;
 	}
 
+	if (poolType == EPoolType::STEMPOOL && (m_stemPool.ContainsTransaction(*pTransaction) || m_memPool.ContainsTransaction(*pTransaction)))
+	{
+		LOG_TRACE_F("Duplicate stem transaction ({})", *pTransaction);
+		return EAddTransactionStatus::DUPL_TX;
+	}
+
 	// Verify fee meets minimum
 	if (!pTransaction->FeeMeetsMinimum(next_block_height))
 	{
@@ -77,7 +83,13 @@ EAddTransactionStatus TransactionPool::AddTransaction(
 	if (poolType == EPoolType::MEMPOOL)
 	{
 		m_memPool.AddTransaction(pTransaction, EDandelionStatus::FLUFFED);
-		m_stemPool.RemoveTransaction(*pTransaction);
+
+		// Whether on their own or as part of this one, stem transactions with any of these kernels are public now.
+		const std::set<TransactionKernel> kernels(pTransaction->GetKernels().cbegin(), pTransaction->GetKernels().cend());
+		for (const TransactionPtr& pStemTransaction : m_stemPool.FindTransactionsByKernel(kernels))
+		{
+			m_stemPool.RemoveTransaction(*pStemTransaction);
+		}
 	}
 	else if (poolType == EPoolType::STEMPOOL)
 	{
-- 
2.43.0


From 53fabd69399af06a1799cb4f7807bf33267ca5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 12/60] fix: clear a table completely inside a batch

---
 src/Database/RocksDB/RocksDB.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Database/RocksDB/RocksDB.h b/src/Database/RocksDB/RocksDB.h
index a959524..ac3b353 100644
--- a/src/Database/RocksDB/RocksDB.h
+++ b/src/Database/RocksDB/RocksDB.h
@@ -231,15 +231,22 @@ public:
 		rocksdb::Status status;
 		if (m_pTransaction != nullptr)
 		{
+			// Deleting while iterating would change what the iterator has yet to visit.
+			std::vector<std::string> keys;
 			std::unique_ptr<rocksdb::Iterator> it(m_pTransaction->GetIterator(rocksdb::ReadOptions(), table.GetHandle()));
 			for (it->SeekToFirst(); it->Valid(); it->Next())
 			{
-				status = m_pTransaction->Delete(table.GetHandle(), it->key());
+				keys.push_back(it->key().ToString());
+			}
+
+			for (const std::string& key : keys)
+			{
+				status = m_pTransaction->Delete(table.GetHandle(), key);
 				if (!status.ok())
 				{
 					LOG_ERROR(
 						"Error while attempting to delete {} from table {}. Error: {}",
-						it->key().data(),
+						rocksdb::Slice(key).ToString(true),
 						table,
 						status.getState()
 					);
-- 
2.43.0


From 49779ebcc0b0c6c4db7240f80fe976233474f02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 13/60] fix: release the lock when opening a writer fails

---
 include/Core/Traits/Lockable.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/Core/Traits/Lockable.h b/include/Core/Traits/Lockable.h
index c43a543..3f2c5f7 100644
--- a/include/Core/Traits/Lockable.h
+++ b/include/Core/Traits/Lockable.h
@@ -108,7 +108,16 @@ class Writer : public Reader<T>
 				m_pMutex->lock();
 			}
 
-			OnInitWrite(batched);
+			try
+			{
+				OnInitWrite(batched);
+			}
+			catch (...)
+			{
+				// The destructor won't run, so the lock must be released here.
+				m_pMutex->unlock();
+				throw;
+			}
 		}
 
 		~InnerWriter()
-- 
2.43.0


From 92014e9e493371daaf04a836581fc294c38d9ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 14/60] fix: go past banned peers when choosing a peer

---
 src/P2P/Seed/PeerManager.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/P2P/Seed/PeerManager.cpp b/src/P2P/Seed/PeerManager.cpp
index 3709062..2fa14be 100644
--- a/src/P2P/Seed/PeerManager.cpp
+++ b/src/P2P/Seed/PeerManager.cpp
@@ -233,7 +233,7 @@ std::vector<PeerPtr> PeerManager::GetPeersWithCapability(
     auto iter = m_peersByAddress.begin();
     std::advance(iter, CSPRNG::GenerateRandom(0, numPeers));
 
-    for (size_t i = 0; i < numPeers; i++) {
+    for (size_t i = 0; i < numPeers; i++, iter++) {
         if (iter == m_peersByAddress.end()) {
             iter = m_peersByAddress.begin();
         }
@@ -257,8 +257,6 @@ std::vector<PeerPtr> PeerManager::GetPeersWithCapability(
                 return peersFound;
             }
         }
-
-        iter++;
     }
 
     return peersFound;
-- 
2.43.0


From 72bde8a72b8145f3751de981d0caa73622797ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 15/60] fix: do not hand out banned peers to others

---
 src/P2P/Seed/PeerManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Seed/PeerManager.cpp b/src/P2P/Seed/PeerManager.cpp
index 2fa14be..f7b96fa 100644
--- a/src/P2P/Seed/PeerManager.cpp
+++ b/src/P2P/Seed/PeerManager.cpp
@@ -241,7 +241,7 @@ std::vector<PeerPtr> PeerManager::GetPeersWithCapability(
         PeerEntry& peerEntry = iter->second;
         const PeerPtr& peer = peerEntry.m_peer;
 
-        if (connectingToPeer && peer->GetLastBanTime() > maxBanTime) {
+        if (peer->GetLastBanTime() > maxBanTime) {
             continue;
         }
 
-- 
2.43.0


From 48f5bb952bcdf26a686e138a705697a4d8192df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 16/60] fix: keep a banned peer until its ban is over

---
 src/P2P/Seed/PeerManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Seed/PeerManager.cpp b/src/P2P/Seed/PeerManager.cpp
index f7b96fa..fed0c2a 100644
--- a/src/P2P/Seed/PeerManager.cpp
+++ b/src/P2P/Seed/PeerManager.cpp
@@ -85,7 +85,7 @@ void PeerManager::Thread_ManagePeers(PeerManager& peerManager)
                 {
                     peersToUpdate.push_back(peerEntry.m_peer);
                     peerEntry.m_peer->SetDirty(false);
-                } else if (peerEntry.m_peer->GetLastContactTime() > 0 && peerEntry.m_peer->GetLastContactTime() < minimumContactTime)
+                } else if (peerEntry.m_peer->GetLastContactTime() > 0 && peerEntry.m_peer->GetLastContactTime() < minimumContactTime && !peerEntry.m_peer->IsBanned())
                 {
                     peersToDelete.push_back(peerEntry.m_peer);
                 }
-- 
2.43.0


From 625ad4b8ae5d0043ed521d835c352106c455a016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 17/60] fix: refuse proofs of work on graphs too small to be
 either primary or secondary

---
 src/PoW/PoWValidator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PoW/PoWValidator.cpp b/src/PoW/PoWValidator.cpp
index dd2bd6e..428b81b 100644
--- a/src/PoW/PoWValidator.cpp
+++ b/src/PoW/PoWValidator.cpp
@@ -17,6 +17,12 @@ bool PoWValidator::IsPoWValid(const BlockHeader& header, const BlockHeader& prev
         return false;
     }
 
+    // Only the primary and secondary graph sizes prove work: cycles in smaller graphs can be found at no cost.
+    if (!header.IsPrimaryPoW() && !header.IsSecondaryPoW()) {
+        LOG_WARNING_F("Invalid number of edge bits {} for block {}", header.GetEdgeBits(), header);
+        return false;
+    }
+
     const uint64_t max_difficulty = GetMaximumDifficulty(header);
     const uint64_t targetDifficulty = header.GetTotalDifficulty() - previousHeader.GetTotalDifficulty();
     if (max_difficulty < targetDifficulty) {
-- 
2.43.0


From af9f6697ff1b4c73656feb7f0cc53863ae8c0f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 18/60] fix: measure a proof's work by the graph weight at its
 height, so that 31-bit graphs phase out

---
 src/PoW/PoWValidator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PoW/PoWValidator.cpp b/src/PoW/PoWValidator.cpp
index 428b81b..97b3fcf 100644
--- a/src/PoW/PoWValidator.cpp
+++ b/src/PoW/PoWValidator.cpp
@@ -70,7 +70,7 @@ uint64_t PoWValidator::GetMaximumDifficulty(const BlockHeader& header) const
     if (proofOfWork.GetEdgeBits() == Consensus::SECOND_POW_EDGE_BITS) {
         scalingDifficulty = header.GetScalingDifficulty();
     } else {
-        scalingDifficulty = Consensus::ScalingDifficulty(proofOfWork.GetEdgeBits());
+        scalingDifficulty = Consensus::GraphWeight(header.GetHeight(), proofOfWork.GetEdgeBits());
     }
 
     std::vector<uint8_t> temp;
-- 
2.43.0


From b9dcb78cb7488fd53857869ffd1950f0fb474934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:23 +0000
Subject: [PATCH 19/60] fix: estimate the fee from the mature coins and the
 outputs a send would use

---
 src/Wallet/Wallet.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Wallet/Wallet.cpp b/src/Wallet/Wallet.cpp
index 377d213..93249f7 100644
--- a/src/Wallet/Wallet.cpp
+++ b/src/Wallet/Wallet.cpp
@@ -169,14 +169,18 @@ std::optional<TorAddress> Wallet::AddTorListener(const KeyChainPath& path, const
 FeeEstimateDTO Wallet::EstimateFee(const EstimateFeeCriteria& criteria) const
 {
 	// Select inputs using desired selection strategy.
-	const uint8_t totalNumOutputs = criteria.GetNumChangeOutputs() + 1;
+	const int64_t totalNumOutputs = criteria.SendEntireBalance() ? 1 : (int64_t)criteria.GetNumChangeOutputs() + 1;
 	const uint64_t numKernels = 1;
 	std::vector<OutputDataEntity> all_outputs = m_walletDB.Read()->GetOutputs(m_master_seed);
+	const uint64_t current_height = m_walletDB.Read()->GetRefreshBlockHeight();
     std::vector<OutputDataEntity> available_coins;
     std::copy_if(
         all_outputs.cbegin(), all_outputs.cend(),
         std::back_inserter(available_coins),
-        [](const OutputDataEntity& output_data) { return output_data.GetStatus() == EOutputStatus::SPENDABLE; }
+        [current_height](const OutputDataEntity& output_data) {
+            return output_data.GetStatus() == EOutputStatus::SPENDABLE
+                && !WalletUtil::IsOutputImmature(output_data.GetFeatures(), output_data.GetBlockHeight().value_or(0), current_height);
+        }
     );
 
 	std::vector<OutputDataEntity> inputs = available_coins;
-- 
2.43.0


From a4ec0b0c0f9193fa675e377294d81257aaba82af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:39 +0000
Subject: [PATCH 20/60] fix: refuse to spend all coins, or any, when they do
 not cover the amount and the fee

---
 src/Wallet/SlateBuilder/CoinSelection.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Wallet/SlateBuilder/CoinSelection.cpp b/src/Wallet/SlateBuilder/CoinSelection.cpp
index e1e7774..20d0ac9 100644
--- a/src/Wallet/SlateBuilder/CoinSelection.cpp
+++ b/src/Wallet/SlateBuilder/CoinSelection.cpp
@@ -4,6 +4,12 @@
 #include <Wallet/Exceptions/InsufficientFundsException.h>
 #include <Common/Logger.h>
 
+// Whether the coins found pay for the amount and the fee. The sum of the two may not fit 64 bits.
+static bool IsEnough(const uint64_t amountFound, const uint64_t amount, const uint64_t fee)
+{
+	return amountFound >= amount && amountFound - amount >= fee;
+}
+
 // If strategy is "ALL", spend all available coins to reduce the fee.
 std::vector<OutputDataEntity> CoinSelection::SelectCoinsToSpend(
 	const std::vector<OutputDataEntity>& availableCoins, 
@@ -53,7 +59,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingSmallestInputs(
 		selectedCoins.push_back(coin);
 
 		const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)selectedCoins.size(), numOutputs, numKernels);
-		if (amountFound >= (amount + fee))
+		if (IsEnough(amountFound, amount, fee))
 		{
 			return selectedCoins;
 		}
@@ -81,7 +87,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingFewestInputs(
 		selectedCoins.push_back(coin);
 
 		const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)selectedCoins.size(), numOutputs, numKernels);
-		if (amountFound >= (amount + fee)) {
+		if (IsEnough(amountFound, amount, fee)) {
 			return selectedCoins;
 		}
 	}
@@ -105,7 +111,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingAllInputs(
 	}
 
 	const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)availableCoins.size(), numOutputs, numKernels);
-	if (amount < amount + fee) {
+	if (IsEnough(amountFound, amount, fee)) {
 		return availableCoins;
 	}
 
@@ -134,7 +140,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingCustomInputs(
 	}
 
 	const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)selectedCoins.size(), numOutputs, numKernels);
-	if (amountFound >= (amount + fee))
+	if (IsEnough(amountFound, amount, fee))
 	{
 		return selectedCoins;
 	}
-- 
2.43.0


From 4adde47be56445d1cf7ca750fb1cd683290a23b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:39 +0000
Subject: [PATCH 21/60] fix: refuse a custom selection of coins when one of
 them is not available

---
 src/Wallet/SlateBuilder/CoinSelection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Wallet/SlateBuilder/CoinSelection.cpp b/src/Wallet/SlateBuilder/CoinSelection.cpp
index 20d0ac9..d0348b7 100644
--- a/src/Wallet/SlateBuilder/CoinSelection.cpp
+++ b/src/Wallet/SlateBuilder/CoinSelection.cpp
@@ -140,7 +140,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingCustomInputs(
 	}
 
 	const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)selectedCoins.size(), numOutputs, numKernels);
-	if (IsEnough(amountFound, amount, fee))
+	if (selectedCoins.size() == inputs.size() && IsEnough(amountFound, amount, fee))
 	{
 		return selectedCoins;
 	}
-- 
2.43.0


From 21d9e9355ab7ed9056dfea99acf212522fa1d655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:49 +0000
Subject: [PATCH 22/60] fix: refuse to send everything when it does not pay the
 fee, and count 255 change outputs rightly

---
 src/Wallet/SlateBuilder/SendSlateBuilder.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
index 31d4408..c48aa5b 100644
--- a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
@@ -7,6 +7,7 @@
 #include <Consensus.h>
 #include <Core/Exceptions/WalletException.h>
 #include <Core/Util/FeeUtil.h>
+#include <Wallet/Exceptions/InsufficientFundsException.h>
 #include <Common/Util/FunctionalUtil.h>
 #include <Common/Logger.h>
 #include <Net/Tor/TorAddressParser.h>
@@ -32,7 +33,7 @@ Slate SendSlateBuilder::BuildSendSlate(
 	const std::vector<SlatepackAddress>& recipients) const
 {
 	const uint8_t numChangeOutputs = sendEntireBalance ? 0 : maxChangeOutputs;
-	const uint8_t totalNumOutputs = 1 + numChangeOutputs;
+	const uint64_t totalNumOutputs = 1 + (uint64_t)numChangeOutputs;
 	const uint64_t numKernels = 1;
 
 	// Select inputs using desired selection strategy.
@@ -66,6 +67,12 @@ Slate SendSlateBuilder::BuildSendSlate(
 		(int64_t)totalNumOutputs,
 		(int64_t)numKernels
 	);
+	if (inputTotal < fee)
+	{
+		WALLET_ERROR("Not enough funds to pay the fee.");
+		throw InsufficientFundsException();
+	}
+
 	uint64_t amountToSend = sendEntireBalance ? (inputTotal - fee) : amount;
 	if (numChangeOutputs == 0)
 	{
-- 
2.43.0


From 48cae2cdda4f073cf6b8962e4a216503e8907ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 23/60] fix: finalize only a transaction that is still waiting
 for its response

---
 src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp b/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
index 65e3b6e..d7434b0 100644
--- a/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
@@ -20,8 +20,9 @@ std::pair<Slate, Transaction> FinalizeSlateBuilder::Finalize(const Slate& rcvSla
 	// Load original send Slate
 	Slate sendSlate = m_pWallet->GetSlate(finalizeSlate.GetId(), ESlateStage::STANDARD_SENT);
 
-	// Load WalletTx
-	WalletTx walletTx = m_pWallet->GetTransactionBySlateId(finalizeSlate.GetId());
+	// Load WalletTx. Only a transaction still waiting for this response may be finalized: signing again, or
+	// for one that was canceled, would reuse the nonce or spend outputs that were released.
+	WalletTx walletTx = m_pWallet->GetTransactionBySlateId(finalizeSlate.GetId(), EWalletTxType::SENDING_STARTED);
 
 	// Load private context
 	SlateContextEntity slateContext = m_pWallet->GetSlateContext(finalizeSlate.GetId());
-- 
2.43.0


From 1cee5809971749f8c2ca7ee047eebcfe2a126150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 24/60] fix: refuse a slate that was received before, whatever
 other transactions it has

---
 src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp b/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
index 88c6502..c5cc86b 100644
--- a/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
@@ -92,9 +92,14 @@ bool ReceiveSlateBuilder::VerifySlateStatus(
 	const Slate& slate) const
 {
 	// Slate was already received.
-	std::unique_ptr<WalletTx> pWalletTx = pWallet->GetTxBySlateId(masterSeed, slate.GetId());
-	if (pWalletTx != nullptr) {
-		const EWalletTxType status = pWalletTx->GetType();
+	// There can be several transactions for the slate: one that was canceled, or our own send.
+	const std::vector<WalletTx> transactions = pWallet->GetDatabase().Read()->GetTransactions(masterSeed);
+	for (const WalletTx& walletTx : transactions) {
+		if (!walletTx.GetSlateId().has_value() || walletTx.GetSlateId().value() != slate.GetId()) {
+			continue;
+		}
+
+		const EWalletTxType status = walletTx.GetType();
 		if (status != EWalletTxType::RECEIVED_CANCELED && status != EWalletTxType::SENDING_STARTED) {
 			WALLET_ERROR_F("Already received slate {}", uuids::to_string(slate.GetId()));
 			return false;
-- 
2.43.0


From 6342e2f0923c1a8a9c7ad1afa9e77adf0218de4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:40 +0000
Subject: [PATCH 25/60] fix: keep the height of a spendable output up to date
 when a reorg moves it

---
 src/Wallet/WalletRefresher.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Wallet/WalletRefresher.cpp b/src/Wallet/WalletRefresher.cpp
index fa03b1f..dca69fd 100644
--- a/src/Wallet/WalletRefresher.cpp
+++ b/src/Wallet/WalletRefresher.cpp
@@ -119,12 +119,13 @@ void WalletRefresher::RefreshOutputs(const SecureVector& masterSeed, Writer<IWal
         auto iter = outputLocations.find(outputData.GetCommitment());
         if (iter != outputLocations.cend()) {
             // Output is on chain, so unless it's being spent, then we can mark it as spendable.
-            if (current_status == EOutputStatus::LOCKED) {
-                continue;
-            }
+            // Then, only its height may have changed, in a reorg.
+            if (current_status == EOutputStatus::LOCKED || current_status == EOutputStatus::SPENDABLE) {
+                if (outputData.GetBlockHeight() != iter->second.GetBlockHeight()) {
+                    outputData.SetBlockHeight(iter->second.GetBlockHeight());
+                    pBatch->SaveOutput(masterSeed, outputData);
+                }
 
-            // If spendable status, it's already up-to-date.
-            if (current_status == EOutputStatus::SPENDABLE) {
                 continue;
             }
 
-- 
2.43.0


From 7bb6bdec8e188ffa3ce4817e896621285a240aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:40 +0000
Subject: [PATCH 26/60] fix: keep an output locked when it comes back to the
 chain while a transaction is spending it

---
 src/Wallet/WalletRefresher.cpp | 22 ++++++++++++++++++----
 src/Wallet/WalletRefresher.h   |  3 ++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/Wallet/WalletRefresher.cpp b/src/Wallet/WalletRefresher.cpp
index dca69fd..7c2597e 100644
--- a/src/Wallet/WalletRefresher.cpp
+++ b/src/Wallet/WalletRefresher.cpp
@@ -7,6 +7,7 @@
 #include <Wallet/NodeClient.h>
 #include <Wallet/WalletDB/WalletDB.h>
 #include <unordered_map>
+#include <unordered_set>
 
 // TODO: Rewrite this && use cache - Shouldn't refresh when block height = same
 // 0. Initial login after upgrade - for every output, find matching WalletTx and update OutputDataEntity TxId. If none found, create new WalletTx.
@@ -64,7 +65,7 @@ std::vector<OutputDataEntity> WalletRefresher::Refresh(const SecureVector& maste
     }
 
     // 3. Refresh status for all wallet outputs
-    RefreshOutputs(masterSeed, pBatch, walletOutputs);
+    RefreshOutputs(masterSeed, pBatch, walletOutputs, walletTransactions);
 
     // 4. For all wallet outputs, update matching WalletTx status.
     RefreshTransactions(masterSeed, pBatch, walletOutputs, walletTransactions);
@@ -101,8 +102,20 @@ std::vector<OutputDataEntity> WalletRefresher::FindNewOutputs(
     return new_outputs;
 }
 
-void WalletRefresher::RefreshOutputs(const SecureVector& masterSeed, Writer<IWalletDB> pBatch, std::vector<OutputDataEntity>& walletOutputs)
+void WalletRefresher::RefreshOutputs(const SecureVector& masterSeed, Writer<IWalletDB> pBatch, std::vector<OutputDataEntity>& walletOutputs, const std::vector<WalletTx>& walletTransactions)
 {
+    // Outputs that are being spent by transactions still under way.
+    std::unordered_set<Commitment> spending;
+    for (const WalletTx& walletTx : walletTransactions) {
+        const bool underWay = walletTx.GetType() == EWalletTxType::SENDING_STARTED || walletTx.GetType() == EWalletTxType::SENDING_FINALIZED;
+        const auto& tx = walletTx.GetTransaction();
+        if (underWay && tx.has_value()) {
+            for (const TransactionInput& input : tx.value().GetInputs()) {
+                spending.insert(input.GetCommitment());
+            }
+        }
+    }
+
     std::vector<Commitment> commitments;
     std::transform(
         walletOutputs.begin(), walletOutputs.end(),
@@ -129,9 +142,10 @@ void WalletRefresher::RefreshOutputs(const SecureVector& masterSeed, Writer<IWal
                 continue;
             }
 
-            WALLET_DEBUG_F("Marking output as spendable: {}", outputData);
+            const bool locked = spending.find(outputData.GetCommitment()) != spending.end();
+            WALLET_DEBUG_F("Marking output as {}: {}", locked ? "locked" : "spendable", outputData);
             outputData.SetBlockHeight(iter->second.GetBlockHeight());
-            outputData.SetStatus(EOutputStatus::SPENDABLE);
+            outputData.SetStatus(locked ? EOutputStatus::LOCKED : EOutputStatus::SPENDABLE);
             pBatch->SaveOutput(masterSeed, outputData);
         } else {
             // NO_CONFIRMATIONS means the output is being received, but hasn't been seen on chain yet.
diff --git a/src/Wallet/WalletRefresher.h b/src/Wallet/WalletRefresher.h
index 6cb8825..2f37a55 100644
--- a/src/Wallet/WalletRefresher.h
+++ b/src/Wallet/WalletRefresher.h
@@ -37,7 +37,8 @@ private:
 	void RefreshOutputs(
 		const SecureVector& masterSeed,
 		Writer<IWalletDB> pBatch,
-		std::vector<OutputDataEntity>& walletOutputs
+		std::vector<OutputDataEntity>& walletOutputs,
+		const std::vector<WalletTx>& walletTransactions
 	);
 
 	void RefreshTransactions(
-- 
2.43.0


From f4f5862127f39de1af347ed57f9e41886efbbd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:48 +0000
Subject: [PATCH 27/60] fix: verify no range proofs without reading the first
 of none

---
 src/Crypto/Bulletproofs.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Crypto/Bulletproofs.cpp b/src/Crypto/Bulletproofs.cpp
index 5088209..0f0bfeb 100644
--- a/src/Crypto/Bulletproofs.cpp
+++ b/src/Crypto/Bulletproofs.cpp
@@ -32,6 +32,10 @@ Bulletproofs::~Bulletproofs()
 
 bool Bulletproofs::VerifyBulletproofs(const std::vector<std::pair<Commitment, RangeProof>>& rangeProofs) const
 {
+	if (rangeProofs.empty()) {
+		return true;
+	}
+
 	std::shared_lock<std::shared_mutex> readLock(m_mutex);
 
 	const size_t numBits = 64;
-- 
2.43.0


From ae9e7e2994c4018b62b978e62f4a129a1be88e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:48 +0000
Subject: [PATCH 28/60] fix: refuse range proofs of differing lengths instead
 of reading past the shorter ones

---
 src/Crypto/Bulletproofs.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Crypto/Bulletproofs.cpp b/src/Crypto/Bulletproofs.cpp
index 0f0bfeb..ccc6d3e 100644
--- a/src/Crypto/Bulletproofs.cpp
+++ b/src/Crypto/Bulletproofs.cpp
@@ -48,6 +48,12 @@ bool Bulletproofs::VerifyBulletproofs(const std::vector<std::pair<Commitment, Ra
 	bulletproofPointers.reserve(rangeProofs.size());
 	for (const std::pair<Commitment, RangeProof>& rangeProof : rangeProofs)
 	{
+		// All proofs are verified at once, as proofs of the same length.
+		if (rangeProof.second.GetProofBytes().size() != proofLength) {
+			LOG_ERROR_F("Rangeproof of {} has length {}, not {}", rangeProof.first, rangeProof.second.GetProofBytes().size(), proofLength);
+			return false;
+		}
+
 		if (!m_cache.WasAlreadyVerified(rangeProof.first))
 		{
 			commitments.push_back(rangeProof.first);
-- 
2.43.0


From a6b8b1aad95d6a8e79ad90d5b07b73dc094c06f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:48 +0000
Subject: [PATCH 29/60] fix: take a range proof as verified only when the very
 same proof was

---
 src/Crypto/BulletProofsCache.h | 11 ++++++-----
 src/Crypto/Bulletproofs.cpp    | 10 +++++++---
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/Crypto/BulletProofsCache.h b/src/Crypto/BulletProofsCache.h
index 81aa04b..bbc0f86 100644
--- a/src/Crypto/BulletProofsCache.h
+++ b/src/Crypto/BulletProofsCache.h
@@ -2,6 +2,7 @@
 
 #include <caches/Cache.h>
 #include <Crypto/Models/Commitment.h>
+#include <Crypto/Models/RangeProof.h>
 #include <mutex>
 
 class BulletProofsCache
@@ -13,20 +14,20 @@ public:
 
 	}
 
-	void AddToCache(const Commitment& commitment)
+	void AddToCache(const Commitment& commitment, const RangeProof& proof)
 	{
 		std::unique_lock<std::mutex> lock(m_mutex);
 
-		m_bulletproofsCache.Put(commitment, commitment);
+		m_bulletproofsCache.Put(commitment, proof.GetProofBytes());
 	}
 
-	bool WasAlreadyVerified(const Commitment& commitment) const
+	bool WasAlreadyVerified(const Commitment& commitment, const RangeProof& proof) const
 	{
 		std::unique_lock<std::mutex> lock(m_mutex);
 
 		if (m_bulletproofsCache.Cached(commitment))
 		{
-			return m_bulletproofsCache.Get(commitment) == commitment;
+			return m_bulletproofsCache.Get(commitment) == proof.GetProofBytes();
 		}
 
 		return false;
@@ -34,5 +35,5 @@ public:
 
 private:
 	mutable std::mutex m_mutex;
-	mutable LRUCache<Commitment, Commitment> m_bulletproofsCache;
+	mutable LRUCache<Commitment, std::vector<unsigned char>> m_bulletproofsCache;
 };
\ No newline at end of file
diff --git a/src/Crypto/Bulletproofs.cpp b/src/Crypto/Bulletproofs.cpp
index ccc6d3e..26be64c 100644
--- a/src/Crypto/Bulletproofs.cpp
+++ b/src/Crypto/Bulletproofs.cpp
@@ -44,6 +44,9 @@ bool Bulletproofs::VerifyBulletproofs(const std::vector<std::pair<Commitment, Ra
 	std::vector<Commitment> commitments;
 	commitments.reserve(rangeProofs.size());
 
+	std::vector<RangeProof> proofs;
+	proofs.reserve(rangeProofs.size());
+
 	std::vector<const unsigned char*> bulletproofPointers;
 	bulletproofPointers.reserve(rangeProofs.size());
 	for (const std::pair<Commitment, RangeProof>& rangeProof : rangeProofs)
@@ -54,9 +57,10 @@ bool Bulletproofs::VerifyBulletproofs(const std::vector<std::pair<Commitment, Ra
 			return false;
 		}
 
-		if (!m_cache.WasAlreadyVerified(rangeProof.first))
+		if (!m_cache.WasAlreadyVerified(rangeProof.first, rangeProof.second))
 		{
 			commitments.push_back(rangeProof.first);
+			proofs.push_back(rangeProof.second);
 			bulletproofPointers.emplace_back(rangeProof.second.GetProofBytes().data());
 		}
 	}
@@ -85,9 +89,9 @@ bool Bulletproofs::VerifyBulletproofs(const std::vector<std::pair<Commitment, Ra
 		return false;
 	}
 
-	for (const Commitment& commitment : commitments)
+	for (size_t i = 0; i < commitments.size(); i++)
 	{
-		m_cache.AddToCache(commitment);
+		m_cache.AddToCache(commitments[i], proofs[i]);
 	}
 
 	return true;
-- 
2.43.0


From 7d4e6a323aa4de87160b3b98ca9bc4c51b27f0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 30/60] fix: refuse to send with a fee that does not fit in a
 kernel

---
 src/Wallet/SlateBuilder/SendSlateBuilder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
index c48aa5b..a857518 100644
--- a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
@@ -80,6 +80,13 @@ Slate SendSlateBuilder::BuildSendSlate(
 		fee = inputTotal - amountToSend;
 	}
 
+	// A kernel's fee has 40 bits.
+	if (fee >= ((uint64_t)1 << 40))
+	{
+		WALLET_ERROR_F("A fee of {} is more than a transaction can pay.", fee);
+		throw WALLET_EXCEPTION("Fee is too high.");
+	}
+
 	return Build(
 		pWallet.GetShared(),
 		masterSeed,
-- 
2.43.0


From 0f1bd6423b9eb504876eef90ae2e2823fc8774ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:37 +0000
Subject: [PATCH 31/60] fix: refuse a session token whose key is not the
 session's, and do not read past a short one

---
 src/Wallet/SessionManager.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/SessionManager.cpp b/src/Wallet/SessionManager.cpp
index 3aed8df..ff8f173 100644
--- a/src/Wallet/SessionManager.cpp
+++ b/src/Wallet/SessionManager.cpp
@@ -192,6 +192,8 @@ void SessionManager::Logout(const SessionToken& token)
 	auto iter = m_sessionsById.find(token.GetSessionId());
 	if (iter != m_sessionsById.end())
 	{
+		GetSeed(token); // Throws if the token's key is not the session's
+
 		std::string username = iter->second->m_wallet.Read()->GetUsername();
 		m_pForeignController->StopListener(iter->second->m_wallet.Read()->GetUsername());
 		if (!m_pForeignController->IsListening(username)) {
@@ -207,7 +209,11 @@ SecureVector SessionManager::GetSeed(const SessionToken& token) const
 	if (iter != m_sessionsById.end())
 	{
 		std::shared_ptr<const LoggedInSession> pSession = iter->second;
-		
+		if (token.GetTokenKey().size() != pSession->m_encryptedSeedWithCS.size())
+		{
+			throw SessionTokenException();
+		}
+
 		std::vector<unsigned char> seedWithCS(pSession->m_encryptedSeedWithCS.size());
 		for (size_t i = 0; i < seedWithCS.size(); i++)
 		{
@@ -235,6 +241,8 @@ Locked<Wallet> SessionManager::GetWallet(const SessionToken& token) const
 	auto iter = m_sessionsById.find(token.GetSessionId());
 	if (iter != m_sessionsById.end())
 	{
+		GetSeed(token); // Throws if the token's key is not the session's
+
 		return iter->second->m_wallet;
 	}
 
@@ -246,6 +254,8 @@ Locked<WalletImpl> SessionManager::GetWalletImpl(const SessionToken& token) cons
 	auto iter = m_sessionsById.find(token.GetSessionId());
 	if (iter != m_sessionsById.end())
 	{
+		GetSeed(token); // Throws if the token's key is not the session's
+
 		return iter->second->m_walletImpl;
 	}
 
-- 
2.43.0


From 2374d749728e1c7f587df7f0c9d624e794a51d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:37 +0000
Subject: [PATCH 32/60] fix: close the session of a login that fails

---
 src/Wallet/WalletManagerImpl.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/WalletManagerImpl.cpp b/src/Wallet/WalletManagerImpl.cpp
index 51b2258..e29adca 100644
--- a/src/Wallet/WalletManagerImpl.cpp
+++ b/src/Wallet/WalletManagerImpl.cpp
@@ -204,7 +204,16 @@ LoginResponse WalletManager::Login(
 		);
 
 		WALLET_INFO_F("Login successful for username: {}", criteria.GetUsername());
-		CheckForOutputs(token, false);
+		try
+		{
+			CheckForOutputs(token, false);
+		}
+		catch (...)
+		{
+			// The caller never learns the token, so nobody else could close the session.
+			m_sessionManager.Write()->Logout(token);
+			throw;
+		}
 
 		auto pWallet = m_sessionManager.Read()->GetWallet(token).Read();
 		return LoginResponse(
-- 
2.43.0


From 74058eac2d62fda841093202db2459b06ec85534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:37 +0000
Subject: [PATCH 33/60] fix: refuse usernames that lead out of their own wallet
 directory

---
 src/Wallet/WalletDB/Sqlite/SqliteStore.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp b/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp
index 33e7162..2957b2b 100644
--- a/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp
+++ b/src/Wallet/WalletDB/Sqlite/SqliteStore.cpp
@@ -16,6 +16,15 @@
 
 static const uint8_t ENCRYPTION_FORMAT = 0;
 
+// A username is the name of a directory in the wallet directory, and must not lead anywhere else.
+static void ValidateUsername(const std::string& username)
+{
+	if (username.empty() || username == "." || username == ".." || username.find_first_of(std::string("/\\\0", 3)) != std::string::npos) {
+		WALLET_ERROR_F("Invalid username: '{}'", username);
+		throw WALLET_STORE_EXCEPTION("Invalid username.");
+	}
+}
+
 std::shared_ptr<SqliteStore> SqliteStore::Open(const Config& config)
 {
 	return std::make_shared<SqliteStore>(SqliteStore(config.GetWalletPath()));
@@ -80,6 +89,8 @@ void SqliteStore::CloseWallet(const std::string& username)
 
 Locked<IWalletDB> SqliteStore::CreateWallet(const std::string& username, const EncryptedSeed& encryptedSeed)
 {
+	ValidateUsername(username);
+
 	const fs::path userDBPath = m_walletDirectory / username;
 	const fs::path seedFile = userDBPath / "seed.json";
 	if (FileUtil::Exists(seedFile)) {
@@ -105,6 +116,8 @@ Locked<IWalletDB> SqliteStore::CreateWallet(const std::string& username, const E
 
 void SqliteStore::DeleteWallet(const std::string& username)
 {
+	ValidateUsername(username);
+
 	if (m_userDBs.find(username) != m_userDBs.end()) {
 		WALLET_ERROR_F("User '{}' still logged in. Can't delete wallet.", username);
 		throw WALLET_STORE_EXCEPTION("User still logged in.");
@@ -124,6 +137,8 @@ void SqliteStore::DeleteWallet(const std::string& username)
 
 void SqliteStore::ChangePassword(const std::string& username, const EncryptedSeed& encryptedSeed)
 {
+	ValidateUsername(username);
+
 	const fs::path userDBPath = m_walletDirectory / username;
 	const fs::path seedFile = userDBPath / "seed.json";
 
@@ -172,6 +187,8 @@ SqliteDB::Ptr SqliteStore::CreateWalletDB(const std::string& username)
 
 EncryptedSeed SqliteStore::LoadWalletSeed(const std::string& username) const
 {
+	ValidateUsername(username);
+
 	const auto wideUsername = StringUtil::ToWide(username);
 
 	WALLET_TRACE_F("Loading wallet seed for {}", wideUsername);
-- 
2.43.0


From 61ad8e284abea7e093265fcdd9dfa35424b794d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:37 +0000
Subject: [PATCH 34/60] fix: keep the old file when its replacement cannot be
 written

---
 src/Common/Util/FileUtil.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/Common/Util/FileUtil.cpp b/src/Common/Util/FileUtil.cpp
index d6520fc..099d341 100644
--- a/src/Common/Util/FileUtil.cpp
+++ b/src/Common/Util/FileUtil.cpp
@@ -38,13 +38,6 @@ bool FileUtil::ReadFile(const fs::path& filePath, std::vector<uint8_t>& data)
 void FileUtil::RenameFile(const fs::path& source, const fs::path& destination)
 {
 	std::error_code ec;
-	fs::remove(destination, ec);
-	if (ec)
-	{
-		LOG_ERROR_F("Failed to remove {}. Error: {}", destination, ec.message());
-		throw FILE_EXCEPTION_F("Failed to remove {}. Error: {}", destination, ec.message());
-	}
-
 	fs::rename(source, destination, ec);
 	if (ec)
 	{
@@ -63,8 +56,13 @@ void FileUtil::SafeWriteToFile(const fs::path& filePath, const std::vector<uint8
 		throw FILE_EXCEPTION_F("Failed to open {}", tmpFilePath);
 	}
 
-	file.write((const char*)&data[0], data.size());
+	file.write((const char*)data.data(), data.size());
 	file.close();
+	if (file.fail())
+	{
+		LOG_ERROR_F("Failed to write {}", tmpFilePath);
+		throw FILE_EXCEPTION_F("Failed to write {}", tmpFilePath);
+	}
 
 	RenameFile(tmpFilePath, filePath);
 }
-- 
2.43.0


From 964cec22dd09e50784a178cec5f85f2c894c9c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:25 +0000
Subject: [PATCH 35/60] fix: close the connection of a peer that sent a
 malformed message instead of deadlocking

Connection::Disconnect() takes the lock HandleReceivedBody already holds, which blocked
the only thread serving all connections.
---
 src/P2P/MessageProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/MessageProcessor.cpp b/src/P2P/MessageProcessor.cpp
index cc486da..88a48d1 100644
--- a/src/P2P/MessageProcessor.cpp
+++ b/src/P2P/MessageProcessor.cpp
@@ -98,7 +98,7 @@ void MessageProcessor::ProcessMessage(const std::shared_ptr<Connection>& pConnec
             MessageTypes::ToString(messageType),
             pConnection
         );
-        pConnection->Disconnect();
+        throw; // The connection closes itself. It can't be disconnected here, since its lock is held.
     }
 }
 
-- 
2.43.0


From 98fafac941bf45a597cbc49acb93218aa77e04cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:25 +0000
Subject: [PATCH 36/60] fix: only the connection that marked a peer connected
 marks it disconnected

A second connection that failed its handshake left the peer looking disconnected while
another connection was up. Also initializes m_receivingDisabled.
---
 src/P2P/Connection.cpp | 20 ++++++++++++++------
 src/P2P/Connection.h   |  4 ++++
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/P2P/Connection.cpp b/src/P2P/Connection.cpp
index 9aa6577..aee8407 100644
--- a/src/P2P/Connection.cpp
+++ b/src/P2P/Connection.cpp
@@ -24,8 +24,17 @@ void Connection::Disconnect()
 
     if (!m_terminate) {
         m_terminate = true;
-        m_pSocket->CloseSocket();
-        m_connectedPeer.GetPeer()->SetConnected(false);
+        Close();
+    }
+}
+
+void Connection::Close()
+{
+    m_pSocket->CloseSocket();
+
+    // Another connection of the same peer may be up, so only the one that marked it connected unmarks it.
+    if (m_established.exchange(false)) {
+        GetPeer()->SetConnected(false);
     }
 }
 
@@ -91,6 +100,7 @@ void Connection::Thread_Connect(std::shared_ptr<Connection> pConnection)
         pConnection->m_lastReceived = system_clock::now();
 
         LOG_DEBUG_F("Connected to {}", pConnection->m_connectedPeer);
+        pConnection->m_established = true;
         pConnection->GetPeer()->SetConnected(true);
         pConnection->m_connectionManager.AddConnection(pConnection);
 
@@ -169,8 +179,7 @@ void Connection::HandleReceivedHeader(const asio::error_code& ec, const size_t b
     }
 
     LOG_INFO_F("Disconnecting from socket {}. Error: {}", GetSocket(), ec ? ec.message() : "<none>");
-    m_pSocket->CloseSocket();
-    GetPeer()->SetConnected(false);
+    Close();
 }
 
 void Connection::HandleReceivedBody(MessageHeader msg_header, const asio::error_code& ec, const size_t bytes_received)
@@ -215,8 +224,7 @@ void Connection::HandleReceivedBody(MessageHeader msg_header, const asio::error_
     }
 
     LOG_INFO_F("Disconnecting from socket {}. Error: {}", GetSocket(), ec ? ec.message() : "<none>");
-    m_pSocket->CloseSocket();
-    GetPeer()->SetConnected(false);
+    Close();
 }
 
 void Connection::CheckPing()
diff --git a/src/P2P/Connection.h b/src/P2P/Connection.h
index 142ebf9..a2b179f 100644
--- a/src/P2P/Connection.h
+++ b/src/P2P/Connection.h
@@ -46,6 +46,8 @@ public:
 		m_pMessageProcessor(pMessageProcessor),
 		m_terminate(false),
 		m_sendingDisabled(false),
+		m_receivingDisabled(false),
+		m_established(false),
 		m_advertisedBlocks(256) { }
 
 	Connection(const Connection&) = delete;
@@ -94,6 +96,7 @@ private:
 	void HandleReceivedBody(MessageHeader msg_header, const asio::error_code& ec, const size_t bytes_received);
 
 	void ConnectOutbound();
+	void Close();
 
 	ConnectionManager& m_connectionManager;
 	SyncStatusConstPtr m_pSyncStatus;
@@ -106,6 +109,7 @@ private:
 	std::atomic<bool> m_terminate;
 	std::atomic<bool> m_sendingDisabled;
 	std::atomic<bool> m_receivingDisabled;
+	std::atomic<bool> m_established; // True from the handshake until the socket is closed
 	std::thread m_connectionThread;
 	const uint64_t m_connectionId;
 	ConnectedPeer m_connectedPeer;
-- 
2.43.0


From 439ca00a18302e5abad61bf1d0c5bd530c416a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:25 +0000
Subject: [PATCH 37/60] fix: close the connection of a peer when banning it

m_terminate kept Disconnect() from ever closing the socket.
---
 src/P2P/Connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Connection.cpp b/src/P2P/Connection.cpp
index aee8407..8305d93 100644
--- a/src/P2P/Connection.cpp
+++ b/src/P2P/Connection.cpp
@@ -281,5 +281,5 @@ void Connection::BanPeer(const EBanReason reason)
 {
     LOG_WARNING_F("Banning peer {} for '{}'.", GetIPAddress(), BanReason::Format(reason));
     GetPeer()->Ban(reason);
-    m_terminate = true;
+    Close();
 }
\ No newline at end of file
-- 
2.43.0


From 4b79ac352ea70028fba0515bf098a93b5d26157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:25 +0000
Subject: [PATCH 38/60] fix: keep a message alive until it was sent, and lock
 the queue of messages

async_write was given the buffer of a vector that was gone before longer messages were
written, and the queue was used by several threads without a lock.
---
 include/Net/Socket.h |  3 ++-
 src/Net/Socket.cpp   | 35 +++++++++++++++++------------------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/include/Net/Socket.h b/include/Net/Socket.h
index c353af6..90e3def 100644
--- a/include/Net/Socket.h
+++ b/include/Net/Socket.h
@@ -79,6 +79,7 @@ public:
 private:
 	bool HasReceivedData();
 	void ThrowSocketException(const asio::error_code& ec);
+	void WriteNext();
 	void HandleSent(const asio::error_code& ec, size_t bytes_transferred);
 
 	std::shared_mutex m_socketMutex;
@@ -93,7 +94,7 @@ private:
 	RateCounter m_rateCounter;
 
 	std::mutex m_writeQueueMutex;
-	SharedQueue<std::vector<uint8_t>> m_writeQueue; // TODO: Use strand instead of queue
+	std::deque<std::shared_ptr<const std::vector<uint8_t>>> m_writeQueue; // TODO: Use strand instead of queue
 
 	asio::error_code m_errorCode;
 	std::atomic_bool m_socketOpen;
diff --git a/src/Net/Socket.cpp b/src/Net/Socket.cpp
index 6db95ea..2afa793 100644
--- a/src/Net/Socket.cpp
+++ b/src/Net/Socket.cpp
@@ -183,21 +183,28 @@ bool Socket::SendSync(const std::vector<uint8_t>& message, const bool incrementC
 
 void Socket::SendAsync(const std::vector<uint8_t>& message)
 {
-    bool first_in_queue = m_writeQueue.empty();
-    m_writeQueue.push_back(message);
+    std::unique_lock<std::mutex> queueLock(m_writeQueueMutex);
+    m_writeQueue.push_back(std::make_shared<const std::vector<uint8_t>>(message));
 
-    if (!first_in_queue) {
-        // There is already an async_write in process.
-        // It will send this message when it completes.
-        return;
+    // If there is already an async_write in process, it will send this message when it completes.
+    if (m_writeQueue.size() == 1) {
+        WriteNext();
     }
+}
+
+// The message written stays at the front of the queue until it was sent.
+void Socket::WriteNext()
+{
+    std::shared_ptr<const std::vector<uint8_t>> pMessage = m_writeQueue.front();
 
     std::shared_lock<std::shared_mutex> socketLock(m_socketMutex);
     if (m_socketOpen) {
         asio::async_write(
             *m_pSocket,
-            asio::buffer(message.data(), message.size()),
-            std::bind(&Socket::HandleSent, shared_from_this(), std::placeholders::_1, std::placeholders::_2)
+            asio::buffer(pMessage->data(), pMessage->size()),
+            [pSocket = shared_from_this(), pMessage](const asio::error_code& ec, size_t bytes_transferred) {
+                pSocket->HandleSent(ec, bytes_transferred);
+            }
         );
     }
 }
@@ -206,6 +213,7 @@ void Socket::HandleSent(const asio::error_code& ec, size_t)
 {
     m_rateCounter.AddMessageSent();
 
+    std::unique_lock<std::mutex> queueLock(m_writeQueueMutex);
     if (!m_writeQueue.empty()) {
         m_writeQueue.pop_front();
     }
@@ -213,16 +221,7 @@ void Socket::HandleSent(const asio::error_code& ec, size_t)
     if (ec) {
         LOG_INFO_F("Failed to send message to {}: {}", *this, ec.message());
     } else if (!m_writeQueue.empty()) {
-        std::vector<uint8_t> message = m_writeQueue.front();
-
-        std::shared_lock<std::shared_mutex> socketLock(m_socketMutex);
-        if (m_socketOpen) {
-            asio::async_write(
-                *m_pSocket,
-                asio::buffer(message.data(), message.size()),
-                std::bind(&Socket::HandleSent, shared_from_this(), std::placeholders::_1, std::placeholders::_2)
-            );
-        }
+        WriteNext();
     }
 }
 
-- 
2.43.0


From 72b34ee4bea9db9d1b2f852a75541493d2d98035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 39/60] fix: go on accepting peers after one that is blocked or
 gone already

A peer that reset its connection before it was accepted made remote_endpoint() throw, which
terminated the node, and a blocked one left the listener without a pending accept.
---
 src/P2P/Seed/Seeder.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/P2P/Seed/Seeder.cpp b/src/P2P/Seed/Seeder.cpp
index 5178643..420a0a3 100644
--- a/src/P2P/Seed/Seeder.cpp
+++ b/src/P2P/Seed/Seeder.cpp
@@ -125,24 +125,24 @@ void Seeder::Accept(const asio::error_code& ec)
     
     if (ec) return;
     
-    if (m_connectionManager.GetNumberOfActiveConnections() < Global::GetConfig().GetMaxPeers()) {
-        SocketAddress socket_address = SocketAddress::FromEndpoint(m_pSocket->remote_endpoint());
-        SocketPtr pSocket(new Socket(SocketAddress::FromEndpoint(m_pSocket->remote_endpoint()), m_pAsioContext, m_pSocket));
+    // The peer may be gone already, in which case the socket has no remote endpoint.
+    asio::error_code endpointError;
+    const asio::ip::tcp::endpoint endpoint = m_pSocket->remote_endpoint(endpointError);
+
+    if (!endpointError && m_connectionManager.GetNumberOfActiveConnections() < Global::GetConfig().GetMaxPeers()) {
+        SocketPtr pSocket(new Socket(SocketAddress::FromEndpoint(endpoint), m_pAsioContext, m_pSocket));
         pSocket->SetOpen(true);
 
+        PeerPtr pPeer = nullptr;
         if (Global::GetConfig().IsPeerBlocked(pSocket->GetIPAddress())) {
             LOG_TRACE_F("peer is blocked: {}",  pSocket->GetIPAddress());
-            return;
+        } else if (!Global::GetConfig().IsPeerAllowed(pSocket->GetIPAddress())) {
+            LOG_TRACE_F("peer is not allowed: {}",  pSocket->GetIPAddress());
+        } else {
+            pPeer = m_peerManager.Write()->GetPeer( pSocket->GetIPAddress());
         }
 
-        if (!Global::GetConfig().IsPeerAllowed(pSocket->GetIPAddress())) {
-            LOG_TRACE_F("peer is not allowed: {}",  pSocket->GetIPAddress());        
-            return;
-        }
-
-        auto pPeer = m_peerManager.Write()->GetPeer( pSocket->GetIPAddress());
-
-        if (!pPeer->IsBanned()) {
+        if (pPeer != nullptr && !pPeer->IsBanned()) {
             auto pConnection = std::make_shared<Connection>(
                 pSocket,
                 m_nextId++,
-- 
2.43.0


From b747dbbc79b541c0b9b9d01d1fb28bfa1f5f803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 40/60] fix: refuse the handshake of a peer with another
 genesis block

---
 src/P2P/Seed/HandShake.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/P2P/Seed/HandShake.cpp b/src/P2P/Seed/HandShake.cpp
index 7bc9438..264401c 100644
--- a/src/P2P/Seed/HandShake.cpp
+++ b/src/P2P/Seed/HandShake.cpp
@@ -45,6 +45,10 @@ void HandShake::PerformOutboundHandshake(const Socket::Ptr& pSocket, ConnectedPe
     ByteBuffer buffer(pReceived->GetPayload());
     ShakeMessage shakeMessage = ShakeMessage::Deserialize(buffer);
 
+    if (shakeMessage.GetHash() != Global::GetGenesisHash()) {
+        throw PROTOCOL_EXCEPTION("Peer is on a different chain");
+    }
+
     uint32_t version = (std::min)(P2P::PROTOCOL_VERSION, shakeMessage.GetVersion());
     connectedPeer.UpdateVersion(version);
     connectedPeer.UpdateCapabilities(shakeMessage.GetCapabilities());
@@ -71,6 +75,10 @@ void HandShake::PerformInboundHandshake(const Socket::Ptr& pSocket, ConnectedPee
         throw PROTOCOL_EXCEPTION("Connected to self");
     }
 
+    if (hand_message.GetHash() != Global::GetGenesisHash()) {
+        throw PROTOCOL_EXCEPTION("Peer is on a different chain");
+    }
+
     if (m_connectionManager.IsConnected(connectedPeer.GetIPAddress())) {
         throw PROTOCOL_EXCEPTION("Already connected to peer");
     }
-- 
2.43.0


From 962e3e065aad1f63881a8ce5664c832503451555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 41/60] fix: send the last part of a state archive, and go on
 sending when there is none to send

---
 src/P2P/Pipeline/TxHashSetPipe.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/P2P/Pipeline/TxHashSetPipe.cpp b/src/P2P/Pipeline/TxHashSetPipe.cpp
index 94c7728..4604e5b 100644
--- a/src/P2P/Pipeline/TxHashSetPipe.cpp
+++ b/src/P2P/Pipeline/TxHashSetPipe.cpp
@@ -179,6 +179,7 @@ void TxHashSetPipe::Thread_SendTxHashSet(
 {
 	auto pHeader = pBlockChain->GetBlockHeaderByHash(block_hash);
 	if (pHeader == nullptr) {
+		pConnection->DisableSends(false);
 		return;
 	}
 
@@ -188,6 +189,7 @@ void TxHashSetPipe::Thread_SendTxHashSet(
 		zipFilePath = pBlockChain->SnapshotTxHashSet(pHeader);
 	}
 	catch (std::exception&) {
+		pConnection->DisableSends(false);
 		return;
 	}
 
@@ -197,6 +199,7 @@ void TxHashSetPipe::Thread_SendTxHashSet(
 	std::ifstream file(zipFilePath, std::ios::in | std::ios::ate | std::ios::binary);
 	if (!file.is_open()) {
 		FileUtil::RemoveFile(zipFilePath);
+		pConnection->DisableSends(false);
 		return;
 	}
 
@@ -208,7 +211,7 @@ void TxHashSetPipe::Thread_SendTxHashSet(
 
 		std::vector<uint8_t> buffer(BUFFER_SIZE, 0);
 			
-		while (file.read((char*)buffer.data(), BUFFER_SIZE)) {
+		while (file.read((char*)buffer.data(), BUFFER_SIZE) || file.gcount() > 0) {
 			std::vector<uint8_t> bytesToSend(
 				buffer.cbegin(),
 				buffer.cbegin() + file.gcount()
-- 
2.43.0


From 81c3c2569467424dc99581f00452694dc8e6c63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 42/60] fix: refuse a state archive that was not requested

Any peer could make the node replace its state, or have a failed download make it request
a state at a height below 0, which ended the sync thread with a null dereference.
---
 src/P2P/Pipeline/TxHashSetPipe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/P2P/Pipeline/TxHashSetPipe.cpp b/src/P2P/Pipeline/TxHashSetPipe.cpp
index 4604e5b..75770b1 100644
--- a/src/P2P/Pipeline/TxHashSetPipe.cpp
+++ b/src/P2P/Pipeline/TxHashSetPipe.cpp
@@ -39,8 +39,8 @@ void TxHashSetPipe::ReceiveTxHashSet(const Connection::Ptr& pConnection, const T
 	if (m_pSyncStatus->GetStatus() != ESyncStatus::SYNCING_TXHASHSET)
 	{
 		LOG_WARNING_F("Received TxHashSet from {} when not requested.", *pConnection);
-		// connection.BanPeer(EBanReason::Abusive);
-		// return;
+		pConnection->BanPeer(EBanReason::Abusive);
+		return;
 	}
 
 	const bool processing = m_processing.exchange(true);
-- 
2.43.0


From 11fe071868e1d79d2e9d10680d56833c5f37ccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 43/60] fix: ban a peer that sends an invalid block, as is done
 while syncing

---
 src/P2P/MessageProcessor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/P2P/MessageProcessor.cpp b/src/P2P/MessageProcessor.cpp
index 88a48d1..c1c08a8 100644
--- a/src/P2P/MessageProcessor.cpp
+++ b/src/P2P/MessageProcessor.cpp
@@ -249,6 +249,8 @@ void MessageProcessor::ProcessMessageInternal(const std::shared_ptr<Connection>&
                     {
                         pConnection->SendAsync(GetCompactBlockMessage{ block.GetPreviousHash() });
                     }
+                } else if (added == EBlockChainStatus::INVALID) {
+                    pConnection->BanPeer(EBanReason::BadBlock);
                 }
             }
 
-- 
2.43.0


From 69528ea6eea2aa11cf9af1d52389fd0eda75875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 44/60] fix: answer a locator with the headers after one that
 is part of the chain

A known header of a fork was taken for the common one, and the headers sent didn't connect to it.
---
 src/P2P/BlockLocator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/P2P/BlockLocator.cpp b/src/P2P/BlockLocator.cpp
index 900b856..58b4d81 100644
--- a/src/P2P/BlockLocator.cpp
+++ b/src/P2P/BlockLocator.cpp
@@ -84,6 +84,13 @@ BlockHeaderPtr BlockLocator::FindCommonHeader(const std::vector<Hash>& locatorHa
 		auto pHeader = m_pBlockChain->GetBlockHeaderByHash(locatorHash);
 		if (pHeader != nullptr)
 		{
+			// The headers sent are those of the candidate chain, so they only follow headers that are part of it.
+			auto pCandidate = m_pBlockChain->GetBlockHeaderByHeight(pHeader->GetHeight(), EChainType::CANDIDATE);
+			if (pCandidate == nullptr || pCandidate->GetHash() != locatorHash)
+			{
+				continue;
+			}
+
 			return pHeader;
 		}
 	}
-- 
2.43.0


From b3b2e4023b95b8593a6835f3c251ed761f094452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 45/60] fix: sync the blocks of a chain that is shorter than
 the horizon

The height less the horizon wrapped around, so that state sync was never done.
---
 src/P2P/Sync/StateSyncer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Sync/StateSyncer.cpp b/src/P2P/Sync/StateSyncer.cpp
index 58e4c91..2ed1d44 100644
--- a/src/P2P/Sync/StateSyncer.cpp
+++ b/src/P2P/Sync/StateSyncer.cpp
@@ -16,7 +16,7 @@ bool StateSyncer::SyncState(SyncStatus& syncStatus)
 	}
 
 	// If state sync is still in progress, return true to delay block sync.
-	if (syncStatus.GetBlockHeight() < (syncStatus.GetHeaderHeight() - Consensus::CUT_THROUGH_HORIZON))
+	if (syncStatus.GetBlockHeight() + Consensus::CUT_THROUGH_HORIZON < syncStatus.GetHeaderHeight())
 	{
 		return true;
 	}
-- 
2.43.0


From 7d4396f62b184422101800e85a459ba176a8c986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 46/60] fix: listen again to a peer whose chain state was
 downloaded

---
 src/P2P/Connection.cpp             | 17 +++++++++++++++++
 src/P2P/Connection.h               |  1 +
 src/P2P/Pipeline/TxHashSetPipe.cpp |  1 +
 3 files changed, 19 insertions(+)

diff --git a/src/P2P/Connection.cpp b/src/P2P/Connection.cpp
index 8305d93..0d9a7b0 100644
--- a/src/P2P/Connection.cpp
+++ b/src/P2P/Connection.cpp
@@ -277,6 +277,23 @@ bool Connection::ReceiveSync(std::vector<uint8_t>& bytes, const size_t num_bytes
     return true;
 }
 
+// Goes back to listening for messages after receives were disabled to read raw data.
+void Connection::ResumeReceives()
+{
+    std::unique_lock<std::mutex> write_lock(m_mutex);
+
+    m_receivingDisabled = false;
+    if (m_pSocket->IsOpen()) {
+        m_received.clear();
+        m_received.resize(11);
+        asio::async_read(
+            *m_pSocket->GetAsioSocket(),
+            asio::buffer(m_received, m_received.size()),
+            std::bind(&Connection::HandleReceivedHeader, shared_from_this(), std::placeholders::_1, std::placeholders::_2)
+        );
+    }
+}
+
 void Connection::BanPeer(const EBanReason reason)
 {
     LOG_WARNING_F("Banning peer {} for '{}'.", GetIPAddress(), BanReason::Format(reason));
diff --git a/src/P2P/Connection.h b/src/P2P/Connection.h
index a2b179f..94b77c3 100644
--- a/src/P2P/Connection.h
+++ b/src/P2P/Connection.h
@@ -67,6 +67,7 @@ public:
 
 	void DisableReceives(bool disabled) { m_receivingDisabled = disabled; }
 	bool ReceiveSync(std::vector<uint8_t>& bytes, const size_t num_bytes);
+	void ResumeReceives();
 
 	bool ExceedsRateLimit() const;
 	void BanPeer(const EBanReason reason);
diff --git a/src/P2P/Pipeline/TxHashSetPipe.cpp b/src/P2P/Pipeline/TxHashSetPipe.cpp
index 75770b1..c87436a 100644
--- a/src/P2P/Pipeline/TxHashSetPipe.cpp
+++ b/src/P2P/Pipeline/TxHashSetPipe.cpp
@@ -135,6 +135,7 @@ void TxHashSetPipe::Thread_ProcessTxHashSet(TxHashSetPipe& pipeline, Connection:
 		else
 		{
 			pSyncStatus->UpdateStatus(ESyncStatus::SYNCING_BLOCKS);
+			pConnection->ResumeReceives();
 		}
 
 		LOG_TRACE("END");
-- 
2.43.0


From acd1f16ccd228d10e6b38e7a7777a07e29486dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:15 +0000
Subject: [PATCH 47/60] fix: a state asked of another peer has not been
 downloaded yet

StateSyncer gives a peer ten seconds to begin sending the state it was asked
for. It tells by the number of bytes downloaded, which still told of the
previous peer's download when that one had failed: the next peer was then
waited on for two hours.
---
 src/P2P/Sync/StateSyncer.cpp | 5 ++++-
 src/P2P/Sync/StateSyncer.h   | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/P2P/Sync/StateSyncer.cpp b/src/P2P/Sync/StateSyncer.cpp
index 2ed1d44..9a4ea99 100644
--- a/src/P2P/Sync/StateSyncer.cpp
+++ b/src/P2P/Sync/StateSyncer.cpp
@@ -87,7 +87,7 @@ bool StateSyncer::IsStateSyncDue(const SyncStatus& syncStatus) const
 	return false;
 }
 
-bool StateSyncer::RequestState(const SyncStatus& syncStatus)
+bool StateSyncer::RequestState(SyncStatus& syncStatus)
 {
 	if (m_pPeer != nullptr)
 	{
@@ -102,6 +102,9 @@ bool StateSyncer::RequestState(const SyncStatus& syncStatus)
 		const uint64_t requestedHeight = headerHeight - Consensus::STATE_SYNC_THRESHOLD;
 		Hash hash = m_pBlockChain->GetBlockHeaderByHeight(requestedHeight, EChainType::CANDIDATE)->GetHash();
 
+		// Nothing was downloaded from the next peer yet, whatever came from the previous one.
+		syncStatus.UpdateDownloaded(0);
+
 		const TxHashSetRequestMessage txHashSetRequestMessage(std::move(hash), requestedHeight);
 		m_pPeer = m_pConnectionManager.lock()->SendMessageToMostWorkPeer(txHashSetRequestMessage);
 
diff --git a/src/P2P/Sync/StateSyncer.h b/src/P2P/Sync/StateSyncer.h
index cdbe1ac..e1fffc9 100644
--- a/src/P2P/Sync/StateSyncer.h
+++ b/src/P2P/Sync/StateSyncer.h
@@ -23,7 +23,7 @@ public:
 
 private:
 	bool IsStateSyncDue(const SyncStatus& syncStatus) const;
-	bool RequestState(const SyncStatus& syncStatus);
+	bool RequestState(SyncStatus& syncStatus);
 
 	std::chrono::time_point<std::chrono::system_clock> m_timeRequested;
 	uint64_t m_requestedHeight;
-- 
2.43.0


From 74b9c30d601edd80d8c962317083f2866d47cab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:38 +0000
Subject: [PATCH 48/60] fix: keep the text of an error message with the message

ErrorMessage held a reference to a string that its decoder destroys.
---
 src/P2P/Messages/ErrorMessage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Messages/ErrorMessage.h b/src/P2P/Messages/ErrorMessage.h
index f0a92f5..b49189d 100644
--- a/src/P2P/Messages/ErrorMessage.h
+++ b/src/P2P/Messages/ErrorMessage.h
@@ -62,5 +62,5 @@ private:
 	const uint32_t m_errorCode; // TODO: Create EErrorType enum
 
 	// Error Message
-	const std::string& m_message;
+	const std::string m_message;
 };
\ No newline at end of file
-- 
2.43.0


From 30a269e127c7337f970477a2b80fcc312b986cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:38 +0000
Subject: [PATCH 49/60] fix: bound the lists of a decoded segment by the bytes
 that are left

A count of up to 2^64 was allocated for before the first element was read.
---
 include/PMMR/Common/Segment.h      | 8 ++++++++
 include/PMMR/Common/SegmentProof.h | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/include/PMMR/Common/Segment.h b/include/PMMR/Common/Segment.h
index 6d85823..03d5b98 100644
--- a/include/PMMR/Common/Segment.h
+++ b/include/PMMR/Common/Segment.h
@@ -94,6 +94,10 @@ public:
     {
         SegmentIdentifier segmentId = SegmentIdentifier::Deserialize(byteBuffer);
         const uint64_t numHashes = byteBuffer.Read<uint64_t>();
+        if (numHashes > byteBuffer.GetRemainingSize() / (sizeof(uint64_t) + 32)) {
+            throw DESERIALIZATION_EXCEPTION_F("Segment is too short for {} hashes", numHashes);
+        }
+
         std::vector<uint64_t> hashPos(numHashes);
         for (uint64_t i = 0; i < numHashes; ++i) {
             hashPos[i] = byteBuffer.Read<uint64_t>();
@@ -104,6 +108,10 @@ public:
             hashes.push_back(byteBuffer.ReadBigInteger<32>());
         }
         const uint64_t numLeaves = byteBuffer.Read<uint64_t>();
+        if (numLeaves > byteBuffer.GetRemainingSize() / sizeof(uint64_t)) {
+            throw DESERIALIZATION_EXCEPTION_F("Segment is too short for {} leaves", numLeaves);
+        }
+
         std::vector<uint64_t> leafPos(numLeaves);
         for (uint64_t i = 0; i < numLeaves; ++i) {
             leafPos[i] = byteBuffer.Read<uint64_t>();
diff --git a/include/PMMR/Common/SegmentProof.h b/include/PMMR/Common/SegmentProof.h
index 6495ab7..28572e7 100644
--- a/include/PMMR/Common/SegmentProof.h
+++ b/include/PMMR/Common/SegmentProof.h
@@ -51,6 +51,10 @@ public:
 	static SegmentProof Deserialize(ByteBuffer& byteBuffer)
 	{
 		const uint64_t size = byteBuffer.Read<uint64_t>();
+		if (size > byteBuffer.GetRemainingSize() / 32) {
+			throw DESERIALIZATION_EXCEPTION_F("Segment proof is too short for {} hashes", size);
+		}
+
 		std::vector<Hash> hashes;
 		hashes.reserve(size);
 		for (uint64_t i = 0; i < size; ++i) {
-- 
2.43.0


From ba5cd797b0401354549fbf759996fd74a0c32304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:38 +0000
Subject: [PATCH 50/60] fix: refuse proofs of work with non-zero padding bits

The bits after the last nonce were hashed but not kept, so a header with some of them
set had one hash when received and another when sent on or read back from disk.
---
 src/Core/Models/ProofOfWork.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Core/Models/ProofOfWork.cpp b/src/Core/Models/ProofOfWork.cpp
index 0149c79..30cc5dc 100644
--- a/src/Core/Models/ProofOfWork.cpp
+++ b/src/Core/Models/ProofOfWork.cpp
@@ -66,6 +66,15 @@ std::vector<uint64_t> ProofOfWork::DeserializeProofNonces(const std::vector<unsi
 		throw DESERIALIZATION_EXCEPTION_F("Invalid number of edge bits: {}", edgeBits);
 	}
 
+	// The bits after the last nonce are not part of any nonce, but are covered by the hash.
+	for (size_t bit = (size_t)edgeBits * Consensus::PROOFSIZE; bit < bits.size() * 8; bit++)
+	{
+		if ((bits[bit / 8] & (1 << (bit % 8))) != 0)
+		{
+			throw DESERIALIZATION_EXCEPTION("Proof of work has non-zero padding");
+		}
+	}
+
 	//const uint64_t nonce_bits = (uint64_t)edgeBits;
 	//const uint64_t bits_len = nonce_bits * Consensus::PROOFSIZE;
 	//const uint64_t bytes_len = (bits_len + 7) / 8;
-- 
2.43.0


From a2123b5ed4596a26b1dba6690df46853155e893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:38 +0000
Subject: [PATCH 51/60] fix: refuse unknown output and kernel features when
 decoding

They were kept as they came; the same bytes then meant different things in different
protocol versions, and some passed for coinbase.
---
 include/Core/Models/Features.h        | 20 ++++++++++++++++++++
 src/Core/Models/OutputIdentifier.cpp  |  2 +-
 src/Core/Models/TransactionInput.cpp  |  2 +-
 src/Core/Models/TransactionKernel.cpp |  2 +-
 src/Core/Models/TransactionOutput.cpp |  2 +-
 5 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/Core/Models/Features.h b/include/Core/Models/Features.h
index 8d82edf..25f63f6 100644
--- a/include/Core/Models/Features.h
+++ b/include/Core/Models/Features.h
@@ -32,6 +32,16 @@ namespace OutputFeatures
 		return "";
 	}
 
+	static EOutputFeatures FromByte(const uint8_t value)
+	{
+		if (value > EOutputFeatures::COINBASE_OUTPUT)
+		{
+			throw DESERIALIZATION_EXCEPTION_F("Invalid output features: {}", value);
+		}
+
+		return (EOutputFeatures)value;
+	}
+
 	static EOutputFeatures FromString(const std::string& string)
 	{
 		std::string upper = StringUtil::ToUpper(string);
@@ -82,6 +92,16 @@ namespace KernelFeatures
 		return "";
 	}
 
+	static EKernelFeatures FromByte(const uint8_t value)
+	{
+		if (value > EKernelFeatures::NO_RECENT_DUPLICATE)
+		{
+			throw DESERIALIZATION_EXCEPTION_F("Invalid kernel features: {}", value);
+		}
+
+		return (EKernelFeatures)value;
+	}
+
 	static EKernelFeatures FromString(const std::string& string)
 	{
 		if (string == "Plain")
diff --git a/src/Core/Models/OutputIdentifier.cpp b/src/Core/Models/OutputIdentifier.cpp
index c3b5656..e116939 100644
--- a/src/Core/Models/OutputIdentifier.cpp
+++ b/src/Core/Models/OutputIdentifier.cpp
@@ -26,7 +26,7 @@ void OutputIdentifier::Serialize(Serializer& serializer) const
 OutputIdentifier OutputIdentifier::Deserialize(ByteBuffer& byteBuffer)
 {
 	// Read OutputFeatures (1 byte)
-	const EOutputFeatures features = (EOutputFeatures)byteBuffer.ReadU8();
+	const EOutputFeatures features = OutputFeatures::FromByte(byteBuffer.ReadU8());
 
 	// Read Commitment (33 bytes)
 	Commitment commitment = Commitment::Deserialize(byteBuffer);
diff --git a/src/Core/Models/TransactionInput.cpp b/src/Core/Models/TransactionInput.cpp
index ddac512..35cbb81 100644
--- a/src/Core/Models/TransactionInput.cpp
+++ b/src/Core/Models/TransactionInput.cpp
@@ -30,7 +30,7 @@ TransactionInput TransactionInput::Deserialize(ByteBuffer& byteBuffer)
 		EOutputFeatures features = Global::GetCoinView()->GetOutputType(commitment);
 		return TransactionInput(features, std::move(commitment));
 	} else {
-		EOutputFeatures features = (EOutputFeatures)byteBuffer.ReadU8();
+		EOutputFeatures features = OutputFeatures::FromByte(byteBuffer.ReadU8());
 		Commitment commitment = Commitment::Deserialize(byteBuffer);
 		return TransactionInput(features, std::move(commitment));
 	}
diff --git a/src/Core/Models/TransactionKernel.cpp b/src/Core/Models/TransactionKernel.cpp
index 71de1cd..5280fe4 100644
--- a/src/Core/Models/TransactionKernel.cpp
+++ b/src/Core/Models/TransactionKernel.cpp
@@ -60,7 +60,7 @@ void TransactionKernel::Serialize(Serializer& serializer) const
 TransactionKernel TransactionKernel::Deserialize(ByteBuffer& byteBuffer)
 {
 	// Read KernelFeatures (1 byte)
-	const EKernelFeatures features = (EKernelFeatures)byteBuffer.ReadU8();
+	const EKernelFeatures features = KernelFeatures::FromByte(byteBuffer.ReadU8());
 
 	Fee fee;
 	uint64_t lockHeight = 0;
diff --git a/src/Core/Models/TransactionOutput.cpp b/src/Core/Models/TransactionOutput.cpp
index b099183..949a96a 100644
--- a/src/Core/Models/TransactionOutput.cpp
+++ b/src/Core/Models/TransactionOutput.cpp
@@ -29,7 +29,7 @@ void TransactionOutput::Serialize(Serializer& serializer) const
 TransactionOutput TransactionOutput::Deserialize(ByteBuffer& byteBuffer)
 {
 	// Read OutputFeatures (1 byte)
-	const EOutputFeatures features = (EOutputFeatures)byteBuffer.ReadU8();
+	const EOutputFeatures features = OutputFeatures::FromByte(byteBuffer.ReadU8());
 
 	// Read Commitment (33 bytes)
 	Commitment commitment = Commitment::Deserialize(byteBuffer);
-- 
2.43.0


From 5761b17a0cc97c4bdb7dcfc12c29af7ba5565a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:59 +0000
Subject: [PATCH 52/60] fix: bound the lists of a decoded bitmap segment by the
 bytes that are left

Two bytes made the decoder set aside several megabytes.
---
 include/PMMR/Common/BitmapSegment.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/PMMR/Common/BitmapSegment.h b/include/PMMR/Common/BitmapSegment.h
index 32aac1c..8151497 100644
--- a/include/PMMR/Common/BitmapSegment.h
+++ b/include/PMMR/Common/BitmapSegment.h
@@ -106,6 +106,10 @@ public:
             case ESerializationMode::UnsetPositions:
             {
                 const uint16_t count = byteBuffer.Read<uint16_t>();
+                if (count > byteBuffer.GetRemainingSize() / sizeof(uint16_t)) {
+                    throw DESERIALIZATION_EXCEPTION_F("Bitmap block is too short for {} positions", count);
+                }
+
                 std::vector<uint16_t> positions;
                 positions.reserve(count);
                 for (uint16_t i = 0; i < count; ++i) {
@@ -166,6 +170,10 @@ public:
     {
         SegmentIdentifier identifier = SegmentIdentifier::Deserialize(byteBuffer);
         const uint16_t numBlocks = byteBuffer.Read<uint16_t>();
+        if (numBlocks > byteBuffer.GetRemainingSize() / 2) {
+            throw DESERIALIZATION_EXCEPTION_F("Bitmap segment is too short for {} blocks", numBlocks);
+        }
+
 
         std::vector<BitmapSegmentBlock> blocks;
         blocks.reserve(numBlocks);
-- 
2.43.0


From 9395e4e4e0d19a1dfbeac24ebbe7a6e4c42f9824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:03 +0000
Subject: [PATCH 53/60] fix: refuse kernels with a fee or lock height their
 features do not have

---
 src/Core/Models/TransactionKernel.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Core/Models/TransactionKernel.cpp b/src/Core/Models/TransactionKernel.cpp
index 5280fe4..3528ea8 100644
--- a/src/Core/Models/TransactionKernel.cpp
+++ b/src/Core/Models/TransactionKernel.cpp
@@ -84,6 +84,14 @@ TransactionKernel TransactionKernel::Deserialize(ByteBuffer& byteBuffer)
 	{
 		fee = Fee::Deserialize(byteBuffer);
 		lockHeight = byteBuffer.ReadU64();
+
+		// Version 1 has room for what some features do not have.
+		const bool hasFee = features != EKernelFeatures::COINBASE_KERNEL;
+		const bool hasLockHeight = features == EKernelFeatures::HEIGHT_LOCKED || features == EKernelFeatures::NO_RECENT_DUPLICATE;
+		if ((!hasFee && fee != Fee()) || (!hasLockHeight && lockHeight != 0))
+		{
+			throw DESERIALIZATION_EXCEPTION_F("Unexpected fee or lock height for kernel features {}", (uint8_t)features);
+		}
 	}
 
 	// Read ExcessCommitment (33 bytes)
-- 
2.43.0


From 394f823e8858ece0703aeb607fa94f8dcff25489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:03 +0000
Subject: [PATCH 54/60] fix: read the shift of a fee from JSON

---
 include/Core/Models/Fee.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/Core/Models/Fee.h b/include/Core/Models/Fee.h
index b1a5ae2..6137aa8 100644
--- a/include/Core/Models/Fee.h
+++ b/include/Core/Models/Fee.h
@@ -62,7 +62,9 @@ public:
 
 	static Fee FromJSON(const Json::Value& json)
 	{
-		return Fee::From(JsonUtil::ConvertToUInt64(json));
+		// The inverse of ToJSON: the shift precedes the 40 bits of the fee.
+		const uint64_t fields = JsonUtil::ConvertToUInt64(json);
+		return Fee((uint8_t)((fields >> 40) & 0x0f), fields & 0xffffffffffull);
 	}
 
 private:
-- 
2.43.0


From 3804594c43892c06db41b9d5e82eab800f569198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:23 +0000
Subject: [PATCH 55/60] fix: read coinbase and no-recent-duplicate kernels back
 from their JSON

---
 src/Core/Models/TransactionKernel.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Core/Models/TransactionKernel.cpp b/src/Core/Models/TransactionKernel.cpp
index 3528ea8..91413d8 100644
--- a/src/Core/Models/TransactionKernel.cpp
+++ b/src/Core/Models/TransactionKernel.cpp
@@ -123,7 +123,7 @@ Json::Value TransactionKernel::ToJSON() const
 		features_attrs_json["fee"] = m_fee.ToJSON();
 	}
 
-	if (m_features == EKernelFeatures::HEIGHT_LOCKED) {
+	if (m_features == EKernelFeatures::HEIGHT_LOCKED || m_features == EKernelFeatures::NO_RECENT_DUPLICATE) {
 		features_attrs_json["lock_height"] = GetLockHeight();
 	}
 
@@ -144,12 +144,15 @@ TransactionKernel TransactionKernel::FromJSON(const Json::Value& transactionKern
 	Json::Value feature_json = features_json.get(feature_str, Json::nullValue);
 
 	Fee fee;
-	auto fee_json_opt = JsonUtil::GetOptionalField(feature_json, "fee");
-	if (fee_json_opt.has_value()) {
-		fee = Fee::FromJSON(fee_json_opt.value());
-	}
+	uint64_t lockHeight = 0;
+	if (!feature_json.isNull()) { // A coinbase has no attributes.
+		auto fee_json_opt = JsonUtil::GetOptionalField(feature_json, "fee");
+		if (fee_json_opt.has_value()) {
+			fee = Fee::FromJSON(fee_json_opt.value());
+		}
 
-	uint64_t lockHeight = JsonUtil::GetUInt64Opt(feature_json, "lock_height").value_or(0);
+		lockHeight = JsonUtil::GetUInt64Opt(feature_json, "lock_height").value_or(0);
+	}
 
 	Commitment excessCommitment = JsonUtil::GetCommitment(transactionKernelJSON, "excess");
 	Signature excessSignature = Crypto::ParseCompactSignature(JsonUtil::GetCompactSignature(transactionKernelJSON, "excess_sig"));
-- 
2.43.0


From 43490bb9f8bac5e0cd0e5380c92497c8fe2a51c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:23 +0000
Subject: [PATCH 56/60] fix: keep the lock height of a slate read from JSON

---
 include/Wallet/Models/Slate/SlateFeatureArgs.h | 2 +-
 src/Wallet/Models/Slate/Slate.cpp              | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/Wallet/Models/Slate/SlateFeatureArgs.h b/include/Wallet/Models/Slate/SlateFeatureArgs.h
index 9d35bd6..7535906 100644
--- a/include/Wallet/Models/Slate/SlateFeatureArgs.h
+++ b/include/Wallet/Models/Slate/SlateFeatureArgs.h
@@ -18,7 +18,7 @@ struct SlateFeatureArgs
         return json;
     }
 
-    SlateFeatureArgs FromJSON(const Json::Value& json)
+    static SlateFeatureArgs FromJSON(const Json::Value& json)
     {
         SlateFeatureArgs args;
         args.lockHeightOpt = JsonUtil::GetUInt64Opt(json, "lock_hgt");
diff --git a/src/Wallet/Models/Slate/Slate.cpp b/src/Wallet/Models/Slate/Slate.cpp
index 9c9d62c..662b8d0 100644
--- a/src/Wallet/Models/Slate/Slate.cpp
+++ b/src/Wallet/Models/Slate/Slate.cpp
@@ -387,7 +387,10 @@ Slate Slate::FromJSON(const Json::Value& json)
 
 	slate.amount = JsonUtil::GetUInt64Opt(json, "amt").value_or(0);
 	slate.kernelFeatures = (EKernelFeatures)JsonUtil::GetUInt8Opt(json, "feat").value_or(0);
-	// TODO: Feat args
+	if (slate.kernelFeatures != EKernelFeatures::DEFAULT_KERNEL) {
+		auto feat_args_opt = JsonUtil::GetOptionalField(json, "feat_args");
+		slate.featureArgsOpt = std::make_optional(feat_args_opt.has_value() ? SlateFeatureArgs::FromJSON(feat_args_opt.value()) : SlateFeatureArgs{});
+	}
 	slate.ttl = JsonUtil::GetUInt64Opt(json, "ttl").value_or(0);
 
 	std::vector<Json::Value> sigs = JsonUtil::GetRequiredArray(json, "sigs");
-- 
2.43.0


From 1f2633346c7bc442da7ae7831939a473a2e437b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:23 +0000
Subject: [PATCH 57/60] fix: refuse slates and slatepacks with unknown features
 or modes

---
 include/Wallet/Models/Slate/SlateCommitment.h      | 2 +-
 include/Wallet/Models/Slatepack/SlatepackMessage.h | 6 +++++-
 src/Wallet/Models/Slate/Slate.cpp                  | 4 ++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/Wallet/Models/Slate/SlateCommitment.h b/include/Wallet/Models/Slate/SlateCommitment.h
index fad5a32..bfa1d81 100644
--- a/include/Wallet/Models/Slate/SlateCommitment.h
+++ b/include/Wallet/Models/Slate/SlateCommitment.h
@@ -41,7 +41,7 @@ struct SlateCommitment
         const uint8_t hasProof = byteBuffer.ReadU8();
 
         SlateCommitment ret;
-        ret.features = (EOutputFeatures)byteBuffer.ReadU8();
+        ret.features = OutputFeatures::FromByte(byteBuffer.ReadU8());
         ret.commitment = Commitment::Deserialize(byteBuffer);
 
         if (hasProof > 0) {
diff --git a/include/Wallet/Models/Slatepack/SlatepackMessage.h b/include/Wallet/Models/Slatepack/SlatepackMessage.h
index 637641b..a40b506 100644
--- a/include/Wallet/Models/Slatepack/SlatepackMessage.h
+++ b/include/Wallet/Models/Slatepack/SlatepackMessage.h
@@ -153,7 +153,11 @@ struct SlatepackMessage
 
         SlatepackMessage slatepack{ };
         slatepack.m_version = Version::Deserialize(byteBuffer);
-        slatepack.m_mode = (EMode)byteBuffer.ReadU8();
+        const uint8_t mode = byteBuffer.ReadU8();
+        if (mode > EMode::ENCRYPTED) {
+            throw DESERIALIZATION_EXCEPTION_F("Invalid slatepack mode: {}", mode);
+        }
+        slatepack.m_mode = (EMode)mode;
 
         uint16_t opt_flags = byteBuffer.ReadU16();
         uint32_t opt_fields_len = byteBuffer.ReadU32();
diff --git a/src/Wallet/Models/Slate/Slate.cpp b/src/Wallet/Models/Slate/Slate.cpp
index 662b8d0..5252f4d 100644
--- a/src/Wallet/Models/Slate/Slate.cpp
+++ b/src/Wallet/Models/Slate/Slate.cpp
@@ -262,7 +262,7 @@ Slate Slate::Deserialize(ByteBuffer& byteBuffer)
 	}
 
 	if (fieldStatus.include_feat) {
-		slate.kernelFeatures = (EKernelFeatures)byteBuffer.ReadU8();
+		slate.kernelFeatures = KernelFeatures::FromByte(byteBuffer.ReadU8());
 	}
 
 	if (fieldStatus.include_ttl) {
@@ -386,7 +386,7 @@ Slate Slate::FromJSON(const Json::Value& json)
 	}
 
 	slate.amount = JsonUtil::GetUInt64Opt(json, "amt").value_or(0);
-	slate.kernelFeatures = (EKernelFeatures)JsonUtil::GetUInt8Opt(json, "feat").value_or(0);
+	slate.kernelFeatures = KernelFeatures::FromByte(JsonUtil::GetUInt8Opt(json, "feat").value_or(0));
 	if (slate.kernelFeatures != EKernelFeatures::DEFAULT_KERNEL) {
 		auto feat_args_opt = JsonUtil::GetOptionalField(json, "feat_args");
 		slate.featureArgsOpt = std::make_optional(feat_args_opt.has_value() ? SlateFeatureArgs::FromJSON(feat_args_opt.value()) : SlateFeatureArgs{});
-- 
2.43.0


From 3c4501afb80d478681da578fe4a4ddb7173b8049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:23 +0000
Subject: [PATCH 58/60] fix: read hardened indices back from a keychain path

---
 include/Wallet/KeyChainPath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Wallet/KeyChainPath.h b/include/Wallet/KeyChainPath.h
index 4be5fd7..cd73039 100644
--- a/include/Wallet/KeyChainPath.h
+++ b/include/Wallet/KeyChainPath.h
@@ -112,7 +112,7 @@ public:
 			remaining = remaining.substr(1);
 
 			size_t sz;
-			const uint32_t keyIndex = (uint32_t)std::stoi(remaining, &sz);
+			const uint32_t keyIndex = (uint32_t)std::stoul(remaining, &sz);
 			keyIndices.push_back(keyIndex);
 			remaining = remaining.substr(sz);
 		}
-- 
2.43.0


From 6d18e95b69ffe000ea6c4bde66e7e25c01928529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:15 +0000
Subject: [PATCH 59/60] fix: keep the leading zero bytes of a slatepack's
 checksum

---
 src/Core/Serialization/Base58.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Core/Serialization/Base58.cpp b/src/Core/Serialization/Base58.cpp
index fdc9c34..975d6d2 100644
--- a/src/Core/Serialization/Base58.cpp
+++ b/src/Core/Serialization/Base58.cpp
@@ -209,12 +209,12 @@ std::string Base58::SimpleEncodeCheck(const std::vector<unsigned char>& vchIn)
 
     vch.insert(vch.end(), vchIn.cbegin(), vchIn.cend());
 
-    return Encode(vch.data(), vch.data() + vch.size(), false);
+    return Encode(vch.data(), vch.data() + vch.size(), true);
 }
 
 std::vector<uint8_t> Base58::SimpleDecodeCheck(const std::string& str)
 {
-    std::vector<uint8_t> decoded = Decode(str.data(), false);
+    std::vector<uint8_t> decoded = Decode(str.data(), true);
 
     if (decoded.size() < 4) {
         throw std::exception();
-- 
2.43.0


From 07b98ac92588cd78f6a4b0bb1687ced0904246a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:05 +0000
Subject: [PATCH 60/60] fix: do not enter the genesis header twice when a node
 without headers is started again

---
 src/BlockChain/ChainState.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BlockChain/ChainState.cpp b/src/BlockChain/ChainState.cpp
index 61f109a..c2d6ac8 100644
--- a/src/BlockChain/ChainState.cpp
+++ b/src/BlockChain/ChainState.cpp
@@ -50,6 +50,7 @@ std::shared_ptr<Locked<ChainState>> ChainState::Create(
 	{
 		auto locked = MultiLocker().Lock(*pDatabase, *pHeaderMMR);
 		std::get<0>(locked)->AddBlockHeader(genesisBlock.GetHeader());
+		std::get<1>(locked)->Rewind(0); // The genesis header may already be there, from an earlier start.
 		std::get<1>(locked)->AddHeader(*genesisBlock.GetHeader());
 		pTxHashSetManager->Write()->Open(genesisBlock.GetHeader());
 
-- 
2.43.0

