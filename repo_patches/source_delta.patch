From cecd914edd61d12fe14db5838f298efaa475834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 01/59] fix: process orphaned blocks of a heavier fork that
 starts below the confirmed tip

ProcessNextOrphanBlock only looked one block above the confirmed tip, so when the first block of a heavier fork
arrived after its child, the child stayed in the orphan pool forever, was not requested again, and the node stayed on
the lighter chain.
---
 src/BlockChain/BlockChainImpl.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/BlockChain/BlockChainImpl.cpp b/src/BlockChain/BlockChainImpl.cpp
index d1f97ed..b9798d8 100644
--- a/src/BlockChain/BlockChainImpl.cpp
+++ b/src/BlockChain/BlockChainImpl.cpp
@@ -389,18 +389,23 @@ bool BlockChain::ProcessNextOrphanBlock()
 	std::shared_ptr<const FullBlock> pOrphanBlock = nullptr;
 
 	{
+		// The candidate chain may have forked off below the confirmed tip, so start from the fork point
+		// and look for the first orphan that has all of its ancestors available.
 		auto pReader = m_pChainState->Read();
-		const uint64_t height = pReader->GetHeight(EChainType::CONFIRMED) + 1;
-		pNextHeader = pReader->GetBlockHeaderByHeight(height, EChainType::CANDIDATE);
-		if (pNextHeader == nullptr)
+		uint64_t height = pReader->GetChainStore()->FindCommonIndex(EChainType::CANDIDATE, EChainType::CONFIRMED)->GetHeight();
+		while (pOrphanBlock == nullptr)
 		{
-			return false;
-		}
+			pNextHeader = pReader->GetBlockHeaderByHeight(++height, EChainType::CANDIDATE);
+			if (pNextHeader == nullptr)
+			{
+				return false;
+			}
 
-		pOrphanBlock = pReader->GetOrphanBlock(height, pNextHeader->GetHash());
-		if (pOrphanBlock == nullptr)
-		{
-			return false;
+			pOrphanBlock = pReader->GetOrphanBlock(height, pNextHeader->GetHash());
+			if (pOrphanBlock == nullptr && pReader->GetBlockByHash(pNextHeader->GetHash()) == nullptr)
+			{
+				return false;
+			}
 		}
 	}
 
-- 
2.43.0


From 9e008bed39be1e2d36ba476bab95fe7a54ea0dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 02/59] fix: refuse a block that spends the same output twice

Two inputs with the same commitment but different features are not caught as duplicates; the second lookup returned a
null output that was dereferenced, so such a block crashed the node.
---
 src/PMMR/TxHashSetImpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PMMR/TxHashSetImpl.cpp b/src/PMMR/TxHashSetImpl.cpp
index 36048d8..65e5e7f 100644
--- a/src/PMMR/TxHashSetImpl.cpp
+++ b/src/PMMR/TxHashSetImpl.cpp
@@ -115,7 +115,10 @@ bool TxHashSet::ApplyBlock(std::shared_ptr<IBlockDB> pBlockDB, const FullBlock&
 		}
 
 		auto pOutput = m_pOutputPMMR->GetAt(pOutputPosition->GetLeafIndex());
-		assert(pOutput != nullptr);
+		if (pOutput == nullptr || pOutput->GetCommitment() != commitment) {
+			LOG_WARNING_F("Output {} not found or already spent in block {}", commitment, block);
+			return false;
+		}
 
 		if (pOutput->IsCoinbase() && pOutputPosition->GetBlockHeight() > maximumBlockHeight) {
 			LOG_WARNING_F("Coinbase {} not mature", input.GetCommitment());
-- 
2.43.0


From 3759f3cbddae3a6421d0968ca5140d21f812faa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 03/59] fix: check the MMR sizes of a block against its header

ValidateRoots compared the roots at the sizes claimed by the header, so a header carrying the sizes and roots of its
parent was accepted with any body, although its outputs and kernels were committed to by nothing.
---
 src/PMMR/TxHashSetImpl.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/PMMR/TxHashSetImpl.cpp b/src/PMMR/TxHashSetImpl.cpp
index 65e5e7f..856f059 100644
--- a/src/PMMR/TxHashSetImpl.cpp
+++ b/src/PMMR/TxHashSetImpl.cpp
@@ -167,6 +167,17 @@ bool TxHashSet::ApplyBlock(std::shared_ptr<IBlockDB> pBlockDB, const FullBlock&
 
 bool TxHashSet::ValidateRoots(const BlockHeader& blockHeader) const
 {
+    // The roots only prove the leaves up to the sizes in the header, so the sizes must be those of the MMRs.
+    if (m_pKernelMMR->GetSize() != blockHeader.GetKernelMMRSize()) {
+        LOG_ERROR_F("Kernel MMR size not matching for header ({})", blockHeader);
+        return false;
+    }
+
+    if (m_pOutputPMMR->GetSize() != blockHeader.GetOutputMMRSize() || m_pRangeProofPMMR->GetSize() != blockHeader.GetOutputMMRSize()) {
+        LOG_ERROR_F("Output MMR size not matching for header ({})", blockHeader);
+        return false;
+    }
+
     if (m_pKernelMMR->Root(blockHeader.GetKernelMMRSize()) != blockHeader.GetKernelRoot()) {
         LOG_ERROR_F("Kernel root not matching for header ({})", blockHeader);
         return false;
-- 
2.43.0


From 0c32fe05ad53c4ae5f4a746e25229d03405fa114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 04/59] fix: enforce the future time limit of headers

Header timestamps are in seconds but were compared with clock ticks (nanoseconds), so no timestamp was ever refused.
---
 src/BlockChain/Validators/BlockHeaderValidator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BlockChain/Validators/BlockHeaderValidator.cpp b/src/BlockChain/Validators/BlockHeaderValidator.cpp
index 41ab9ee..fa552fa 100644
--- a/src/BlockChain/Validators/BlockHeaderValidator.cpp
+++ b/src/BlockChain/Validators/BlockHeaderValidator.cpp
@@ -16,7 +16,9 @@ void BlockHeaderValidator::Validate(const BlockHeader& header, const BlockHeader
     }
 
     // Validate Timestamp - Ensure timestamp not too far in the future
-    if (header.GetTimestamp() > Consensus::GetMaxBlockTime(std::chrono::system_clock::now())) {
+    // NOTE: GetMaxBlockTime is in ticks of the system clock, while header timestamps are in seconds.
+    const std::chrono::system_clock::duration maxBlockTime(Consensus::GetMaxBlockTime(std::chrono::system_clock::now()));
+    if (header.GetTimestamp() > std::chrono::duration_cast<std::chrono::seconds>(maxBlockTime).count()) {
         throw BAD_DATA_EXCEPTION_F(EBanReason::BadBlockHeader, "Timestamp beyond maxBlockTime for header {}", header);
     }
 
-- 
2.43.0


From 99d79bfc29ca2851a7a02bb4e0adaf6700749750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 05/59] fix: refuse a transaction body with the same kernel
 twice

---
 src/Core/Validation/TxBodyValidator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Core/Validation/TxBodyValidator.cpp b/src/Core/Validation/TxBodyValidator.cpp
index 43be51d..2ecec69 100644
--- a/src/Core/Validation/TxBodyValidator.cpp
+++ b/src/Core/Validation/TxBodyValidator.cpp
@@ -41,6 +41,12 @@ void TxBodyValidator::VerifySorted(const TransactionBody& body)
 			throw BAD_DATA_EXCEPTION(EBanReason::BadTransaction, "Duplicate outputs.");
 		}
 	}
+
+	for (size_t i = 1; i < body.GetKernels().size(); i++) {
+		if (body.GetKernel(i) == body.GetKernel(i - 1)) {
+			throw BAD_DATA_EXCEPTION(EBanReason::BadTransaction, "Duplicate kernels.");
+		}
+	}
 }
 
 // Verify that no input is spending an output from the same block.
-- 
2.43.0


From 73d72eddf910a2e5fd97caeefd3073df18a84403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 06/59] fix: AppendOnlyFile::Read fails instead of reading
 beyond the end

A read past the end of the file (or past what a rewind left of it) read unmapped or stale memory.
DataFile::GetDataAt already turns a failed read into a FileException.
---
 src/Core/File/AppendOnlyFile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Core/File/AppendOnlyFile.cpp b/src/Core/File/AppendOnlyFile.cpp
index 6b77226..790e4dc 100644
--- a/src/Core/File/AppendOnlyFile.cpp
+++ b/src/Core/File/AppendOnlyFile.cpp
@@ -77,6 +77,11 @@ uint64_t AppendOnlyFile::GetSize() const noexcept
 
 bool AppendOnlyFile::Read(const uint64_t position, const uint64_t numBytes, std::vector<unsigned char>& data) const
 {
+	if (position > GetSize() || numBytes > (GetSize() - position))
+	{
+		return false;
+	}
+
 	// TODO: Handle partial read from m_mmap and m_buffer
 	if (position < m_bufferIndex)
 	{
-- 
2.43.0


From 42f677c18490a709b41f4e308f44b995f45369f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 07/59] fix: convert every leaf of an old position bitmap

Index::GetLeafIndex is only defined for leaf positions, so for most file sizes the last leaves were dropped.
---
 include/Core/File/BitmapFile.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/Core/File/BitmapFile.h b/include/Core/File/BitmapFile.h
index b58bf2c..eecb4b9 100644
--- a/include/Core/File/BitmapFile.h
+++ b/include/Core/File/BitmapFile.h
@@ -241,7 +241,12 @@ private:
 				throw FILE_EXCEPTION_F("Failed to read file: {}", m_path);
 			}
 
-			const uint64_t numLeaves = Index::At(data.size() * 8).GetLeafIndex();
+			// NOTE: The number of bits is rarely a complete MMR size, so the leaves below it have to be counted.
+			uint64_t numLeaves = 0;
+			while (LeafIndex::At(numLeaves).GetPosition() < data.size() * 8) {
+				++numLeaves;
+			}
+
 			std::vector<uint8_t> converted((numLeaves / 8) + 1);
 			for (LeafIndex leaf_idx = LeafIndex::At(0); leaf_idx.Get() < numLeaves; ++leaf_idx) {
 				if (data[leaf_idx.GetPosition() / 8] & BitToByte(leaf_idx.GetPosition() % 8)) {
-- 
2.43.0


From 99682b8054e37dd281666af9fdf0eb32ff8bc539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 08/59] fix: drop a partially written record when opening a
 data file

After a crash in the middle of a write, later records were added behind the partial one and read misaligned.
---
 include/Core/File/DataFile.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/Core/File/DataFile.h b/include/Core/File/DataFile.h
index 49efd9d..2af231d 100644
--- a/include/Core/File/DataFile.h
+++ b/include/Core/File/DataFile.h
@@ -21,6 +21,16 @@ public:
 		std::shared_ptr<AppendOnlyFile> pFile = std::make_shared<AppendOnlyFile>(path);
 		pFile->Load();
 
+		// A write that was cut short may have left part of a record behind, which would misalign everything added after it.
+		const uint64_t partial = pFile->GetSize() % NUM_BYTES;
+		if (partial != 0)
+		{
+			if (!pFile->Rewind(pFile->GetSize() - partial) || !pFile->Flush())
+			{
+				throw FILE_EXCEPTION("Failed to remove partial record.");
+			}
+		}
+
 		return std::make_shared<DataFile>(DataFile(pFile));
 	}
 
-- 
2.43.0


From 7a2fc5ab7b46b0a810df176419a8791cb90e3ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:52 +0000
Subject: [PATCH 09/59] fix: replace a file in one step instead of removing it
 first

---
 src/Common/Util/FileUtil.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/Common/Util/FileUtil.cpp b/src/Common/Util/FileUtil.cpp
index d6520fc..a1c5077 100644
--- a/src/Common/Util/FileUtil.cpp
+++ b/src/Common/Util/FileUtil.cpp
@@ -37,14 +37,8 @@ bool FileUtil::ReadFile(const fs::path& filePath, std::vector<uint8_t>& data)
 
 void FileUtil::RenameFile(const fs::path& source, const fs::path& destination)
 {
+	// Replaces the destination in one step, so that it never goes missing.
 	std::error_code ec;
-	fs::remove(destination, ec);
-	if (ec)
-	{
-		LOG_ERROR_F("Failed to remove {}. Error: {}", destination, ec.message());
-		throw FILE_EXCEPTION_F("Failed to remove {}. Error: {}", destination, ec.message());
-	}
-
 	fs::rename(source, destination, ec);
 	if (ec)
 	{
-- 
2.43.0


From 15cb08eb76dbe203e74681e17e19da3307804310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 10/59] fix: a node restarted before its first header kept a
 second genesis in the header MMR

---
 src/BlockChain/ChainState.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BlockChain/ChainState.cpp b/src/BlockChain/ChainState.cpp
index 7a0eb0a..c67b313 100644
--- a/src/BlockChain/ChainState.cpp
+++ b/src/BlockChain/ChainState.cpp
@@ -50,6 +50,7 @@ std::shared_ptr<Locked<ChainState>> ChainState::Create(
 	{
 		auto locked = MultiLocker().Lock(*pDatabase, *pHeaderMMR);
 		std::get<0>(locked)->AddBlockHeader(genesisBlock.GetHeader());
+		std::get<1>(locked)->Rewind(0); // It was already added by an earlier run that received no headers.
 		std::get<1>(locked)->AddHeader(*genesisBlock.GetHeader());
 		pTxHashSetManager->Write()->Open(genesisBlock.GetHeader());
 
-- 
2.43.0


From dd2579e7d172553fe91c4d8d112abf96392c114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 11/59] fix: make TxHashSet snapshots complete

A node keeps its unspent positions in pmmr_leafset.bin and has no prune list
file, so taking a snapshot failed when renaming pmmr_leaf.bin. Write the
leaf set snapshot and the prune list explicitly.
---
 src/PMMR/Common/PruneableMMR.h | 7 +++++++
 src/PMMR/TxHashSetManager.cpp  | 9 ++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/PMMR/Common/PruneableMMR.h b/src/PMMR/Common/PruneableMMR.h
index fa8eec1..5437dd3 100644
--- a/src/PMMR/Common/PruneableMMR.h
+++ b/src/PMMR/Common/PruneableMMR.h
@@ -147,6 +147,13 @@ public:
 		}
 	}
 
+	// Writes the files which only a snapshot needs: the unspent positions and the (possibly empty) prune list.
+	void Snapshot(const Hash& blockHash)
+	{
+		m_pLeafSet->Snapshot(blockHash);
+		m_pPruneList->Flush();
+	}
+
 	void Rollback() noexcept final
 	{
 		if (IsDirty())
diff --git a/src/PMMR/TxHashSetManager.cpp b/src/PMMR/TxHashSetManager.cpp
index 40a0fb5..a318756 100644
--- a/src/PMMR/TxHashSetManager.cpp
+++ b/src/PMMR/TxHashSetManager.cpp
@@ -124,17 +124,20 @@ fs::path TxHashSetManager::SaveSnapshot(std::shared_ptr<IBlockDB> pBlockDB, Bloc
 
 			// Flush Snapshot TxHashSet
 			snapshotTxHashSet.Commit();
+			pOutputPMMR->Snapshot(pHeader->GetHash());
+			pRangeProofPMMR->Snapshot(pHeader->GetHash());
 		}
 
-		// Rename pmmr_leaf files
+		// Rename leafset snapshots
+		const std::string leafSetName = StringUtil::Format("pmmr_leafset.bin.{}", pHeader->ShortHash());
 		const std::string newFileName = StringUtil::Format("pmmr_leaf.bin.{}", pHeader->ShortHash());
 		FileUtil::RenameFile(
-			snapshotDir / "output" / "pmmr_leaf.bin",
+			snapshotDir / "output" / leafSetName,
 			snapshotDir / "output" / newFileName
 		);
 
 		FileUtil::RenameFile(
-			snapshotDir / "rangeproof" / "pmmr_leaf.bin",
+			snapshotDir / "rangeproof" / leafSetName,
 			snapshotDir / "rangeproof" / newFileName
 		);
 
-- 
2.43.0


From ddba1fd536a3cfec23cb9a7fafb051c237609355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 12/59] fix: keep the chain state until a received TxHashSet is
 validated

A TxHashSet was extracted over the files of the current one, which was closed
first, so a bad or damaged archive left the node without any chain state.
Extract to a directory of its own and switch only once it was validated. Also
refuse an archive for a block at or below the confirmed chain, which left the
confirmed chain ahead of the output set.
---
 include/PMMR/TxHashSetManager.h               |  6 +++-
 .../Processors/TxHashSetProcessor.cpp         | 36 +++++++++++--------
 src/PMMR/TxHashSetManager.cpp                 | 15 ++++++--
 src/PMMR/Zip/TxHashSetZip.cpp                 |  8 ++---
 src/PMMR/Zip/TxHashSetZip.h                   |  5 ++-
 5 files changed, 45 insertions(+), 25 deletions(-)

diff --git a/include/PMMR/TxHashSetManager.h b/include/PMMR/TxHashSetManager.h
index 1496936..75db4e3 100644
--- a/include/PMMR/TxHashSetManager.h
+++ b/include/PMMR/TxHashSetManager.h
@@ -25,7 +25,11 @@ public:
 	std::shared_ptr<const ITxHashSet> GetTxHashSet() const { return m_pTxHashSet; }
 	void SetTxHashSet(ITxHashSetPtr pTxHashSet) { m_pTxHashSet = pTxHashSet; }
 
-	static ITxHashSetPtr LoadFromZip(const Config& config, const fs::path& zipFilePath, BlockHeaderPtr pHeader);
+	// Makes the files in the given directory the ones of this TxHashSet, and opens them.
+	std::shared_ptr<ITxHashSet> Replace(const fs::path& txHashSetPath, const BlockHeaderPtr& pHeader);
+
+	// Extracts the zip to the given directory, and loads the TxHashSet from there.
+	static ITxHashSetPtr LoadFromZip(const fs::path& txHashSetPath, const fs::path& zipFilePath, BlockHeaderPtr pHeader);
 	fs::path SaveSnapshot(std::shared_ptr<IBlockDB> pBlockDB, BlockHeaderPtr pHeader) const;
 
 	void Commit() final
diff --git a/src/BlockChain/Processors/TxHashSetProcessor.cpp b/src/BlockChain/Processors/TxHashSetProcessor.cpp
index a28b153..b89b493 100644
--- a/src/BlockChain/Processors/TxHashSetProcessor.cpp
+++ b/src/BlockChain/Processors/TxHashSetProcessor.cpp
@@ -6,6 +6,7 @@
 #include <BlockChain/BlockChain.h>
 #include <Common/Util/StringUtil.h>
 #include <Common/Util/HexUtil.h>
+#include <Core/File/FileRemover.h>
 
 TxHashSetProcessor::TxHashSetProcessor(
 	const Config& config,
@@ -27,18 +28,19 @@ bool TxHashSetProcessor::ProcessTxHashSet(const Hash& blockHash, const fs::path&
 		return false;
 	}
 
-	// 1. Close Existing TxHashSet
-	m_pChainState->Write()->GetTxHashSetManager()->Close();
+	// 1. Load and extract TxHashSet zip. The existing TxHashSet is left alone until the new one is known to be valid.
+	const fs::path newPath = m_config.GetTxHashSetPath().parent_path() / "TXHASHSET_NEW";
+	FileUtil::RemoveFile(newPath);
+	FileRemover newPathRemover(newPath);
 
-	// 2. Load and Extract TxHashSet Zip
-	ITxHashSetPtr pTxHashSet = TxHashSetManager::LoadFromZip(m_config, path, pHeader);
+	ITxHashSetPtr pTxHashSet = TxHashSetManager::LoadFromZip(newPath, path, pHeader);
 	if (pTxHashSet == nullptr)
 	{
 		LOG_ERROR_F("Failed to load {}", path);
 		return false;
 	}
 
-	// 3. Validate entire TxHashSet
+	// 2. Validate entire TxHashSet
 	auto pBlockSums = pTxHashSet->ValidateTxHashSet(*pHeader, m_blockChain, syncStatus);
 	if (pBlockSums == nullptr)
 	{
@@ -46,28 +48,28 @@ bool TxHashSetProcessor::ProcessTxHashSet(const Hash& blockHash, const fs::path&
 		return false;
 	}
 
-	// 4. Add BlockSums to DB
+	// 3. Add BlockSums to DB
 	auto pChainStateBatch = m_pChainState->BatchWrite();
 
 	pChainStateBatch->GetBlockDB()->AddBlockSums(pHeader->GetHash(), *pBlockSums);
 
-	// 5. Add Output positions to DB
+	// 4. Add Output positions to DB
 	LOG_DEBUG("Saving output positions.");
 	pTxHashSet->SaveOutputPositions(pChainStateBatch->GetChainStore()->GetCandidateChain(), pChainStateBatch->GetBlockDB());
 
-	// 6. Store TxHashSet
-	LOG_DEBUG("Using TxHashSet.");
-	pChainStateBatch->GetTxHashSetManager()->SetTxHashSet(pTxHashSet);
-
-	// 7. Update confirmed chain
+	// 5. Update confirmed chain
 	LOG_DEBUG("Updating confirmed chain.");
 	if (!UpdateConfirmedChain(pChainStateBatch, *pHeader))
 	{
 		LOG_ERROR_F("Failed to update confirmed chain for {}.", path);
-		pChainStateBatch->GetTxHashSetManager()->Close();
 		return false;
 	}
 
+	// 6. Switch to the new TxHashSet
+	LOG_DEBUG("Using TxHashSet.");
+	pTxHashSet.reset();
+	pChainStateBatch->GetTxHashSetManager()->Replace(newPath, pHeader);
+
 	pChainStateBatch->Commit();
 
 	return true;
@@ -79,12 +81,18 @@ bool TxHashSetProcessor::UpdateConfirmedChain(Writer<ChainState> pLockedState, c
 	std::shared_ptr<Chain> pConfirmedChain = pLockedState->GetChainStore()->GetConfirmedChain();
 	
 	std::shared_ptr<const BlockIndex> pBlockIndex = pCandidateChain->GetByHeight(blockHeader.GetHeight());
-	if (pBlockIndex->GetHash() != blockHeader.GetHash())
+	if (pBlockIndex == nullptr || pBlockIndex->GetHash() != blockHeader.GetHash())
 	{
 		return false;
 	}
 
 	std::shared_ptr<const BlockIndex> pCommonIndex = pLockedState->GetChainStore()->FindCommonIndex(EChainType::CANDIDATE, EChainType::CONFIRMED);
+	if (pCommonIndex->GetHeight() >= blockHeader.GetHeight())
+	{
+		// The chain state is already at or past this block.
+		return false;
+	}
+
 	pConfirmedChain->Rewind(pCommonIndex->GetHeight());
 
 	uint64_t height = pCommonIndex->GetHeight() + 1;
diff --git a/src/PMMR/TxHashSetManager.cpp b/src/PMMR/TxHashSetManager.cpp
index a318756..277579c 100644
--- a/src/PMMR/TxHashSetManager.cpp
+++ b/src/PMMR/TxHashSetManager.cpp
@@ -48,12 +48,21 @@ std::shared_ptr<ITxHashSet> TxHashSetManager::Open(const BlockHeaderPtr& pConfir
 	return m_pTxHashSet;
 }
 
-std::shared_ptr<ITxHashSet> TxHashSetManager::LoadFromZip(const Config& config, const fs::path& zipFilePath, BlockHeaderPtr pHeader)
+std::shared_ptr<ITxHashSet> TxHashSetManager::Replace(const fs::path& txHashSetPath, const BlockHeaderPtr& pHeader)
+{
+	Close();
+
+	FileUtil::RemoveFile(m_config.GetTxHashSetPath());
+	FileUtil::RenameFile(txHashSetPath, m_config.GetTxHashSetPath());
+
+	return Open(pHeader);
+}
+
+std::shared_ptr<ITxHashSet> TxHashSetManager::LoadFromZip(const fs::path& txHashSetPath, const fs::path& zipFilePath, BlockHeaderPtr pHeader)
 {
 	FileRemover fileRemover(zipFilePath);
 
-	const fs::path& txHashSetPath = config.GetTxHashSetPath();
-	const TxHashSetZip zip(config);
+	const TxHashSetZip zip(txHashSetPath);
 
 	try
 	{
diff --git a/src/PMMR/Zip/TxHashSetZip.cpp b/src/PMMR/Zip/TxHashSetZip.cpp
index 07084d9..f09e05c 100644
--- a/src/PMMR/Zip/TxHashSetZip.cpp
+++ b/src/PMMR/Zip/TxHashSetZip.cpp
@@ -7,8 +7,8 @@
 #include <Common/Logger.h>
 #include <filesystem.h>
 
-TxHashSetZip::TxHashSetZip(const Config& config)
-	: m_config(config)
+TxHashSetZip::TxHashSetZip(const fs::path& destination)
+	: m_destination(destination)
 {
 
 }
@@ -43,7 +43,7 @@ void TxHashSetZip::ExtractKernelFolder(const ZipFile& zipFile) const
 {
 	std::error_code ec;
 
-	const fs::path kernelPath = m_config.GetTxHashSetPath() / "kernel";
+	const fs::path kernelPath = m_destination / "kernel";
 	const bool exists = fs::exists(kernelPath, ec);
 	if (ec)
 	{
@@ -82,7 +82,7 @@ void TxHashSetZip::ExtractFolder(const ZipFile& zipFile, const std::string& fold
 {
 	std::error_code ec;
 
-	const fs::path dir = m_config.GetTxHashSetPath() / folderName;
+	const fs::path dir = m_destination / folderName;
 	const bool exists = fs::exists(dir, ec);
 	if (ec)
 	{
diff --git a/src/PMMR/Zip/TxHashSetZip.h b/src/PMMR/Zip/TxHashSetZip.h
index be3cfd0..dd17bd0 100644
--- a/src/PMMR/Zip/TxHashSetZip.h
+++ b/src/PMMR/Zip/TxHashSetZip.h
@@ -1,7 +1,6 @@
 #pragma once
 
 #include <Core/Models/BlockHeader.h>
-#include <Core/Config.h>
 #include <filesystem.h>
 
 // Forward Declarations
@@ -10,7 +9,7 @@ class ZipFile;
 class TxHashSetZip
 {
 public:
-	TxHashSetZip(const Config& config);
+	TxHashSetZip(const fs::path& destination);
 
 	bool Extract(const fs::path& path, const BlockHeader& header) const;
 
@@ -20,5 +19,5 @@ private:
 	void ExtractOutputFolder(const ZipFile& zipFile, const BlockHeader& header) const;
 	void ExtractRangeProofFolder(const ZipFile& zipFile, const BlockHeader& header) const;
 
-	const Config& m_config;
+	fs::path m_destination;
 };
\ No newline at end of file
-- 
2.43.0


From 0f5d48e846bd3f65a3b7e0b2b06e5b0921e796a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 13/59] fix: drop old output positions when a TxHashSet is
 installed

Positions of outputs that were spent since, or that are only on a fork, stayed.
They were reported as unspent, and could make a valid block look like it
creates an output that exists already.
---
 src/BlockChain/Processors/TxHashSetProcessor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BlockChain/Processors/TxHashSetProcessor.cpp b/src/BlockChain/Processors/TxHashSetProcessor.cpp
index b89b493..87425df 100644
--- a/src/BlockChain/Processors/TxHashSetProcessor.cpp
+++ b/src/BlockChain/Processors/TxHashSetProcessor.cpp
@@ -55,6 +55,7 @@ bool TxHashSetProcessor::ProcessTxHashSet(const Hash& blockHash, const fs::path&
 
 	// 4. Add Output positions to DB
 	LOG_DEBUG("Saving output positions.");
+	pChainStateBatch->GetBlockDB()->ClearOutputPositions();
 	pTxHashSet->SaveOutputPositions(pChainStateBatch->GetChainStore()->GetCandidateChain(), pChainStateBatch->GetBlockDB());
 
 	// 5. Update confirmed chain
-- 
2.43.0


From 61e1397cd0cde5c8a4f201d67d14c31178845eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 14/59] fix: verify the leaves of a received TxHashSet

Only parent hashes were verified, so kernels and unspent outputs that are not
the ones in the MMR were accepted, for example outputs with other features.
---
 src/PMMR/Common/MMRHashUtil.h   |  2 +-
 src/PMMR/TxHashSetValidator.cpp | 59 +++++++++++++++++++++++++++++++++
 src/PMMR/TxHashSetValidator.h   |  1 +
 3 files changed, 61 insertions(+), 1 deletion(-)

diff --git a/src/PMMR/Common/MMRHashUtil.h b/src/PMMR/Common/MMRHashUtil.h
index b0e765b..99438ea 100644
--- a/src/PMMR/Common/MMRHashUtil.h
+++ b/src/PMMR/Common/MMRHashUtil.h
@@ -40,8 +40,8 @@ public:
 	);
 
 	static Hash HashParentWithIndex(const Hash& leftChild, const Hash& rightChild, const uint64_t parentIndex);
+	static Hash HashLeafWithIndex(const std::vector<uint8_t>& serializedLeaf, const uint64_t mmrIndex);
 
 private:
-	static Hash HashLeafWithIndex(const std::vector<uint8_t>& serializedLeaf, const uint64_t mmrIndex);
 	static uint64_t GetShiftedIndex(const Index& mmr_idx, const PruneList::CPtr& pPruneList);
 };
\ No newline at end of file
diff --git a/src/PMMR/TxHashSetValidator.cpp b/src/PMMR/TxHashSetValidator.cpp
index 374e655..ad88ab9 100644
--- a/src/PMMR/TxHashSetValidator.cpp
+++ b/src/PMMR/TxHashSetValidator.cpp
@@ -49,6 +49,13 @@ std::unique_ptr<BlockSums> TxHashSetValidator::Validate(TxHashSet& txHashSet, co
 		return std::unique_ptr<BlockSums>(nullptr);
 	}
 
+	// Validate that the kernels, outputs and rangeproofs are the ones that were hashed
+	if (!ValidateLeaves(txHashSet))
+	{
+		LOG_ERROR("Invalid MMR leaves");
+		return std::unique_ptr<BlockSums>(nullptr);
+	}
+
 	syncStatus.UpdateProcessingStatus(10);
 
 	// Validate root for each MMR matches blockHeader
@@ -170,6 +177,58 @@ bool TxHashSetValidator::ValidateMMRHashes(std::shared_ptr<const MMR> pMMR) cons
 	return true;
 }
 
+// Verifies that the hash of each leaf is the one in the MMR. A spent leaf is never read again, so only unspent ones are checked.
+bool TxHashSetValidator::ValidateLeaves(TxHashSet& txHashSet) const
+{
+	auto matches = [](const MMR& mmr, const LeafIndex& leaf_idx, const Traits::ISerializable& leaf) {
+		const std::unique_ptr<Hash> pHash = mmr.GetHashAt(leaf_idx.GetIndex());
+		return pHash != nullptr && *pHash == MMRHashUtil::HashLeafWithIndex(leaf.Serialized(), leaf_idx.GetPosition());
+	};
+
+	try
+	{
+		const uint64_t kernel_size = txHashSet.GetKernelMMR()->GetSize();
+		for (LeafIndex leaf_idx = LeafIndex::At(0); leaf_idx.GetPosition() < kernel_size; leaf_idx++) {
+			auto pKernel = txHashSet.GetKernelMMR()->GetKernelAt(leaf_idx);
+			if (pKernel == nullptr || !matches(*txHashSet.GetKernelMMR(), leaf_idx, *pKernel)) {
+				LOG_ERROR_F("Invalid kernel at {}", leaf_idx);
+				return false;
+			}
+		}
+
+		const uint64_t output_size = txHashSet.GetOutputPMMR()->GetSize();
+		for (LeafIndex leaf_idx = LeafIndex::At(0); leaf_idx.GetPosition() < output_size; leaf_idx++) {
+			if (txHashSet.GetOutputPMMR()->IsUnpruned(leaf_idx) != txHashSet.GetRangeProofPMMR()->IsUnpruned(leaf_idx)) {
+				LOG_ERROR_F("Output and rangeproof not matching at {}", leaf_idx);
+				return false;
+			}
+
+			if (!txHashSet.GetOutputPMMR()->IsUnpruned(leaf_idx)) {
+				continue;
+			}
+
+			auto pOutput = txHashSet.GetOutputPMMR()->GetAt(leaf_idx);
+			if (pOutput == nullptr || !matches(*txHashSet.GetOutputPMMR(), leaf_idx, *pOutput)) {
+				LOG_ERROR_F("Invalid output at {}", leaf_idx);
+				return false;
+			}
+
+			auto pRangeProof = txHashSet.GetRangeProofPMMR()->GetAt(leaf_idx);
+			if (pRangeProof == nullptr || !matches(*txHashSet.GetRangeProofPMMR(), leaf_idx, *pRangeProof)) {
+				LOG_ERROR_F("Invalid rangeproof at {}", leaf_idx);
+				return false;
+			}
+		}
+	}
+	catch (std::exception& e)
+	{
+		LOG_ERROR_F("Exception thrown while validating leaves: {}", e.what());
+		return false;
+	}
+
+	return true;
+}
+
 bool TxHashSetValidator::ValidateKernelHistory(const KernelMMR& kernelMMR, const BlockHeader& blockHeader, SyncStatus& syncStatus) const
 {
 	const uint64_t totalHeight = blockHeader.GetHeight();
diff --git a/src/PMMR/TxHashSetValidator.h b/src/PMMR/TxHashSetValidator.h
index 46e6865..323a908 100644
--- a/src/PMMR/TxHashSetValidator.h
+++ b/src/PMMR/TxHashSetValidator.h
@@ -27,6 +27,7 @@ public:
 private:
 	bool ValidateSizes(TxHashSet& txHashSet, const BlockHeader& blockHeader) const;
 	bool ValidateMMRHashes(std::shared_ptr<const MMR> pMMR) const;
+	bool ValidateLeaves(TxHashSet& txHashSet) const;
 
 	bool ValidateKernelHistory(
 		const KernelMMR& kernelMMR,
-- 
2.43.0


From f2127de98b7d069f5c1d25296990120ae13522b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 15/59] fix: update the transaction and orphan pools only once
 blocks are accepted

A fork that was refused, or that is valid but has less work, took its
transactions out of the pool and its blocks out of the orphan pool.
---
 src/BlockChain/Processors/BlockProcessor.cpp | 27 +++++++++++++++++---
 src/BlockChain/Processors/BlockProcessor.h   |  1 +
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/BlockChain/Processors/BlockProcessor.cpp b/src/BlockChain/Processors/BlockProcessor.cpp
index d429276..5d131fd 100644
--- a/src/BlockChain/Processors/BlockProcessor.cpp
+++ b/src/BlockChain/Processors/BlockProcessor.cpp
@@ -78,6 +78,8 @@ EBlockChainStatus BlockProcessor::ProcessBlockInternal(const FullBlock& block)
 		ValidateAndAddBlock(block, pBatch);
 		pConfirmedChain->AddBlock(block.GetHash(), block.GetHeight());
 		pBatch->Commit();
+
+		UpdatePools({ std::make_shared<const FullBlock>(block) }, pBatch);
 	}
 
 	return EBlockChainStatus::SUCCESS;
@@ -165,6 +167,8 @@ void BlockProcessor::HandleReorg(Writer<ChainState> pBatch, const std::vector<Fu
 		}
 
 		pBatch->Commit();
+
+		UpdatePools(reorgBlocks, pBatch);
 	}
 	else
 	{
@@ -178,15 +182,18 @@ void BlockProcessor::HandleReorg(Writer<ChainState> pBatch, const std::vector<Fu
 		}
 
 		pBlockDB->Commit();
+
+		for (const FullBlock::CPtr& pBlock : reorgBlocks)
+		{
+			pBatch->GetOrphanPool()->RemoveOrphan(pBlock->GetHeight(), pBlock->GetHash());
+		}
 	}
 }
 
 void BlockProcessor::ValidateAndAddBlock(const FullBlock& block, Writer<ChainState> pBatch)
 {
-	auto pOrphanPool = pBatch->GetOrphanPool();
 	auto pBlockDB = pBatch->GetBlockDB();
 	auto pTxHashSet = pBatch->GetTxHashSetManager()->GetTxHashSet();
-	auto pTxPool = pBatch->GetTransactionPool();
 
 	const Hash& previousHash = block.GetPreviousHash();
 	auto pPreviousHeader = pBlockDB->GetBlockHeader(previousHash);
@@ -220,6 +227,18 @@ void BlockProcessor::ValidateAndAddBlock(const FullBlock& block, Writer<ChainSta
 
 	pBlockDB->AddBlockSums(block.GetHash(), blockSums);
 	pBlockDB->AddBlock(block);
-	pOrphanPool->RemoveOrphan(block.GetHeight(), block.GetHash());
-	pTxPool->ReconcileBlock(pBlockDB, pTxHashSet, block);
+}
+
+void BlockProcessor::UpdatePools(const std::vector<FullBlock::CPtr>& blocks, Writer<ChainState> pBatch)
+{
+	auto pOrphanPool = pBatch->GetOrphanPool();
+	auto pBlockDB = pBatch->GetBlockDB();
+	auto pTxHashSet = pBatch->GetTxHashSetManager()->GetTxHashSet();
+	auto pTxPool = pBatch->GetTransactionPool();
+
+	for (const FullBlock::CPtr& pBlock : blocks)
+	{
+		pOrphanPool->RemoveOrphan(pBlock->GetHeight(), pBlock->GetHash());
+		pTxPool->ReconcileBlock(pBlockDB, pTxHashSet, *pBlock);
+	}
 }
\ No newline at end of file
diff --git a/src/BlockChain/Processors/BlockProcessor.h b/src/BlockChain/Processors/BlockProcessor.h
index f53a4ed..4118271 100644
--- a/src/BlockChain/Processors/BlockProcessor.h
+++ b/src/BlockChain/Processors/BlockProcessor.h
@@ -28,6 +28,7 @@ private:
 	EBlockChainStatus ProcessBlockInternal(const FullBlock& block);
 	void HandleReorg(Writer<ChainState> pBatch, const std::vector<FullBlock::CPtr>& reorgBlocks);
 	void ValidateAndAddBlock(const FullBlock& block, Writer<ChainState> pLockedState);
+	void UpdatePools(const std::vector<FullBlock::CPtr>& blocks, Writer<ChainState> pLockedState);
 
 	BlockProcessingInfo DetermineBlockStatus(const FullBlock& block, Writer<ChainState> pLockedState);
 
-- 
2.43.0


From 56ec559e8722700f7428f7ac0390cfab2efcc2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 16/59] fix: refuse transactions that conflict with pooled ones

A transaction that spends an output which a pooled transaction spends, or
that creates the same output or kernel, was added next to it.
---
 src/TxPool/Pool.cpp                | 51 ++++++++++++++++++++++++++++++
 src/TxPool/Pool.h                  |  1 +
 src/TxPool/TransactionPoolImpl.cpp |  7 ++++
 3 files changed, 59 insertions(+)

diff --git a/src/TxPool/Pool.cpp b/src/TxPool/Pool.cpp
index b875915..924e690 100644
--- a/src/TxPool/Pool.cpp
+++ b/src/TxPool/Pool.cpp
@@ -49,6 +49,57 @@ bool Pool::ContainsTransaction(const Transaction& transaction) const
 	return false;
 }
 
+// True if a transaction in the pool spends one of the inputs, or creates one of the outputs or kernels.
+bool Pool::ConflictsWith(const Transaction& transaction) const
+{
+	std::set<Commitment> inputs;
+	for (const TransactionInput& input : transaction.GetInputs())
+	{
+		inputs.insert(input.GetCommitment());
+	}
+
+	std::set<Commitment> outputs;
+	for (const TransactionOutput& output : transaction.GetOutputs())
+	{
+		outputs.insert(output.GetCommitment());
+	}
+
+	std::set<Hash> kernels;
+	for (const TransactionKernel& kernel : transaction.GetKernels())
+	{
+		kernels.insert(kernel.GetHash());
+	}
+
+	for (const TxPoolEntry& txPoolEntry : m_transactions)
+	{
+		for (const TransactionInput& input : txPoolEntry.GetTransaction()->GetInputs())
+		{
+			if (inputs.count(input.GetCommitment()) > 0)
+			{
+				return true;
+			}
+		}
+
+		for (const TransactionOutput& output : txPoolEntry.GetTransaction()->GetOutputs())
+		{
+			if (outputs.count(output.GetCommitment()) > 0)
+			{
+				return true;
+			}
+		}
+
+		for (const TransactionKernel& kernel : txPoolEntry.GetTransaction()->GetKernels())
+		{
+			if (kernels.count(kernel.GetHash()) > 0)
+			{
+				return true;
+			}
+		}
+	}
+
+	return false;
+}
+
 std::vector<TransactionPtr> Pool::FindTransactionsByKernel(const std::set<TransactionKernel>& kernels) const
 {
 	std::set<TransactionPtr> transactionSet;
diff --git a/src/TxPool/Pool.h b/src/TxPool/Pool.h
index 8c1ce18..83a8d30 100644
--- a/src/TxPool/Pool.h
+++ b/src/TxPool/Pool.h
@@ -20,6 +20,7 @@ public:
 
 	void AddTransaction(TransactionPtr pTransaction, const EDandelionStatus status);
 	bool ContainsTransaction(const Transaction& transaction) const;
+	bool ConflictsWith(const Transaction& transaction) const;
 	void RemoveTransaction(const Transaction& transaction);
 	void ReconcileBlock(
 		std::shared_ptr<const IBlockDB> pBlockDB,
diff --git a/src/TxPool/TransactionPoolImpl.cpp b/src/TxPool/TransactionPoolImpl.cpp
index a3a5529..f8d217e 100644
--- a/src/TxPool/TransactionPoolImpl.cpp
+++ b/src/TxPool/TransactionPoolImpl.cpp
@@ -67,6 +67,13 @@ EAddTransactionStatus TransactionPool::AddTransaction(
 		return EAddTransactionStatus::NOT_ADDED;
 	}
 
+	// A transaction that is relayed on the stem must also fit to the ones that are already being relayed
+	if (m_memPool.ConflictsWith(*pTransaction) || (poolType == EPoolType::STEMPOOL && m_stemPool.ConflictsWith(*pTransaction)))
+	{
+		LOG_WARNING_F("Transaction conflicts with the pool ({})", *pTransaction);
+		return EAddTransactionStatus::NOT_ADDED;
+	}
+
 	if (poolType == EPoolType::MEMPOOL)
 	{
 		m_memPool.AddTransaction(pTransaction, EDandelionStatus::FLUFFED);
-- 
2.43.0


From 8a5f2ac945ff634ecbd781603418d8fa5c54ebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 17/59] fix: evict transactions that are locked again after a
 reorg

---
 src/TxPool/ValidTransactionFinder.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/TxPool/ValidTransactionFinder.cpp b/src/TxPool/ValidTransactionFinder.cpp
index bbc455b..649ab94 100644
--- a/src/TxPool/ValidTransactionFinder.cpp
+++ b/src/TxPool/ValidTransactionFinder.cpp
@@ -47,6 +47,15 @@ bool ValidTransactionFinder::IsValidTransaction(
 		const uint64_t next_block_height = pTxHashSet->GetFlushedBlockHeader()->GetHeight() + 1;
 		TransactionValidator().Validate(*pTransaction, next_block_height);
 
+		// After a reorg, the next block may be lower than it was when the tx was added.
+		for (const TransactionKernel& kernel : pTransaction->GetKernels())
+		{
+			if (kernel.GetLockHeight() > next_block_height)
+			{
+				return false;
+			}
+		}
+
 		// Validate the tx against current chain state.
 		// Check all inputs are in the current UTXO set.
 		// Check all outputs are unique in current UTXO set.
-- 
2.43.0


From e405351f969b1e8b2229e1b9792abc3364de2bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 18/59] fix: start the embargo of a stem transaction when it is
 added

The time of arrival was always 0, so that every stem transaction had expired
and was published by the next run of the dandelion monitor.
---
 src/TxPool/Pool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TxPool/Pool.cpp b/src/TxPool/Pool.cpp
index 924e690..5523137 100644
--- a/src/TxPool/Pool.cpp
+++ b/src/TxPool/Pool.cpp
@@ -4,6 +4,7 @@
 #include <Core/Util/TransactionUtil.h>
 #include <Common/Logger.h>
 #include <algorithm>
+#include <chrono>
 #include <unordered_map>
 
 std::vector<TransactionPtr> Pool::GetTransactionsByShortId(const Hash& hash, const uint64_t nonce, const std::set<ShortId>& missingShortIds) const
@@ -33,7 +34,7 @@ void Pool::AddTransaction(TransactionPtr pTransaction, const EDandelionStatus st
 {
 	LOG_DEBUG_F("Transaction added: {}", pTransaction->GetHash());
 
-	m_transactions.emplace_back(TxPoolEntry(pTransaction, status, std::time_t()));
+	m_transactions.emplace_back(TxPoolEntry(pTransaction, status, std::chrono::system_clock::to_time_t(std::chrono::system_clock::now())));
 }
 
 bool Pool::ContainsTransaction(const Transaction& transaction) const
-- 
2.43.0


From e54ac2828049f4b82828e8f47b692716cd99dbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 19/59] fix: do not serve stem transactions to peers that ask
 for a kernel

---
 src/TxPool/TransactionPoolImpl.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/TxPool/TransactionPoolImpl.cpp b/src/TxPool/TransactionPoolImpl.cpp
index f8d217e..c52145b 100644
--- a/src/TxPool/TransactionPoolImpl.cpp
+++ b/src/TxPool/TransactionPoolImpl.cpp
@@ -108,13 +108,8 @@ TransactionPtr TransactionPool::FindTransactionByKernelHash(const Hash& kernelHa
 {
 	std::shared_lock<std::shared_mutex> readLock(m_mutex);
 
-	TransactionPtr pTransaction = m_memPool.FindTransactionByKernelHash(kernelHash);
-	if (pTransaction == nullptr)
-	{
-		pTransaction = m_stemPool.FindTransactionByKernelHash(kernelHash);
-	}
-
-	return pTransaction;
+	// Peers are served from here, so transactions that are still being stemmed must not be found.
+	return m_memPool.FindTransactionByKernelHash(kernelHash);
 }
 
 void TransactionPool::ReconcileBlock(std::shared_ptr<const IBlockDB> pBlockDB, ITxHashSetConstPtr pTxHashSet, const FullBlock& block)
-- 
2.43.0


From c74cd891b490035077f86c42eb3b45e5b8283f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 20/59] fix: rebuild a compact block only from exactly its
 kernels

A transaction with two kernels counted twice, so that a block was built
without the other transactions, or with kernels it does not have.
---
 src/BlockChain/BlockHydrator.cpp | 13 ++++++++++++-
 src/TxPool/Pool.cpp              |  6 +-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/BlockChain/BlockHydrator.cpp b/src/BlockChain/BlockHydrator.cpp
index 59e553a..aab17f0 100644
--- a/src/BlockChain/BlockHydrator.cpp
+++ b/src/BlockChain/BlockHydrator.cpp
@@ -23,7 +23,18 @@ std::unique_ptr<FullBlock> BlockHydrator::Hydrate(const CompactBlock& compactBlo
 		std::set<ShortId> shortIdsSet(shortIds.cbegin(), shortIds.cend());
 		std::vector<TransactionPtr> transactions = m_pTransactionPool->GetTransactionsByShortId(hash, nonce, shortIdsSet);
 
-		if (transactions.size() == shortIds.size())
+		// The kernels of the transactions must be exactly those of the block.
+		size_t numKernels = 0;
+		for (const TransactionPtr& pTransaction : transactions)
+		{
+			for (const TransactionKernel& kernel : pTransaction->GetKernels())
+			{
+				++numKernels;
+				shortIdsSet.erase(ShortId::Create(kernel.GetHash(), hash, nonce));
+			}
+		}
+
+		if (numKernels == shortIds.size() && shortIdsSet.empty())
 		{
 			return Hydrate(compactBlock, transactions);
 		}
diff --git a/src/TxPool/Pool.cpp b/src/TxPool/Pool.cpp
index 5523137..960b43d 100644
--- a/src/TxPool/Pool.cpp
+++ b/src/TxPool/Pool.cpp
@@ -18,11 +18,7 @@ std::vector<TransactionPtr> Pool::GetTransactionsByShortId(const Hash& hash, con
 			if (missingShortIds.find(shortId) != missingShortIds.cend())
 			{
 				transactionsFound.push_back(txPoolEntry.GetTransaction());
-
-				if (transactionsFound.size() == missingShortIds.size())
-				{
-					return transactionsFound;
-				}
+				break;
 			}
 		}
 	}
-- 
2.43.0


From 19e04b034b92251e47bcb8fe8f8bcd2f40932867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 21/59] fix: do not keep a rebuilt compact block that cannot be
 validated yet

---
 src/BlockChain/BlockChainImpl.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/BlockChain/BlockChainImpl.cpp b/src/BlockChain/BlockChainImpl.cpp
index b9798d8..980f061 100644
--- a/src/BlockChain/BlockChainImpl.cpp
+++ b/src/BlockChain/BlockChainImpl.cpp
@@ -147,6 +147,17 @@ EBlockChainStatus BlockChain::AddCompactBlock(const CompactBlock& compactBlock)
 		{
 			return EBlockChainStatus::ALREADY_EXISTS;
 		}
+
+		// A block whose parent is missing would be kept without being validated. Since pooled transactions
+		// can differ from those in the block even if their kernels are the same, ask for the full block instead.
+		const bool parentFound = height > 0 && (
+			pReader->GetChainStore()->GetConfirmedChain()->IsOnChain(height - 1, compactBlock.GetPreviousHash())
+			|| pReader->GetBlockByHash(compactBlock.GetPreviousHash()) != nullptr
+		);
+		if (!parentFound && !compactBlock.GetShortIds().empty())
+		{
+			return EBlockChainStatus::TRANSACTIONS_MISSING;
+		}
 	}
 
 	try
-- 
2.43.0


From 01484a207d3a8e15f8c0d1f9543dea884770893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 22/59] fix: check lengths of encoded strings and vectors
 without overflow

---
 include/Core/Serialization/ByteBuffer.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/Core/Serialization/ByteBuffer.h b/include/Core/Serialization/ByteBuffer.h
index 17ae678..ecd356b 100644
--- a/include/Core/Serialization/ByteBuffer.h
+++ b/include/Core/Serialization/ByteBuffer.h
@@ -29,7 +29,7 @@ public:
     template<class T>
     void ReadBigEndian(T& t)
     {
-        if (m_index + sizeof(T) > m_bytes.size()) {
+        if (sizeof(T) > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
@@ -48,7 +48,7 @@ public:
     template<class T>
     void ReadLittleEndian(T& t)
     {
-        if (m_index + sizeof(T) > m_bytes.size()) {
+        if (sizeof(T) > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
@@ -157,7 +157,7 @@ public:
             return "";
         }
 
-        if (m_index + stringLength > m_bytes.size()) {
+        if (stringLength > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
@@ -169,7 +169,7 @@ public:
 
     std::string ReadString(const size_t size)
     {
-        if (m_index + size > m_bytes.size()) {
+        if (size > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
@@ -182,7 +182,7 @@ public:
     template<size_t NUM_BYTES>
     CBigInteger<NUM_BYTES> ReadBigInteger()
     {
-        if (m_index + NUM_BYTES > m_bytes.size()) {
+        if (NUM_BYTES > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
@@ -195,7 +195,7 @@ public:
 
     std::vector<uint8_t> ReadVector(const uint64_t numBytes)
     {
-        if (m_index + numBytes > m_bytes.size()) {
+        if (numBytes > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
@@ -208,7 +208,7 @@ public:
     template<size_t T>
     std::array<uint8_t, T> ReadArray()
     {
-        if (m_index + T > m_bytes.size()) {
+        if (T > GetRemainingSize()) {
             throw DESERIALIZATION_EXCEPTION("Attempted to read past end of ByteBuffer.");
         }
 
-- 
2.43.0


From ef757577b507ce7e6e43ba1c7cd59cb9c1e38b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 23/59] fix: keep the text of an error message

The message kept a reference to a string that no longer existed.
---
 src/P2P/Messages/ErrorMessage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Messages/ErrorMessage.h b/src/P2P/Messages/ErrorMessage.h
index f0a92f5..b49189d 100644
--- a/src/P2P/Messages/ErrorMessage.h
+++ b/src/P2P/Messages/ErrorMessage.h
@@ -62,5 +62,5 @@ private:
 	const uint32_t m_errorCode; // TODO: Create EErrorType enum
 
 	// Error Message
-	const std::string& m_message;
+	const std::string m_message;
 };
\ No newline at end of file
-- 
2.43.0


From 689b9360ed14f4469ab65cfe8bd863d710aef8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 24/59] fix: refuse proofs of work with unused bits set

They are part of the hash but are not kept, so one header could have several
hashes, and a relayed header another hash than the one received.
---
 src/Core/Models/ProofOfWork.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Core/Models/ProofOfWork.cpp b/src/Core/Models/ProofOfWork.cpp
index 0149c79..c850a8b 100644
--- a/src/Core/Models/ProofOfWork.cpp
+++ b/src/Core/Models/ProofOfWork.cpp
@@ -52,6 +52,14 @@ ProofOfWork ProofOfWork::Deserialize(ByteBuffer& byteBuffer)
 
 	const int bytes_len = ((edgeBits * Consensus::PROOFSIZE) + 7) / 8;
 	const std::vector<unsigned char> bits = byteBuffer.ReadVector(bytes_len);
+
+	// The unused bits of the last byte are part of the hash, so they must be zero.
+	const int padding_bits = (bytes_len * 8) - (edgeBits * Consensus::PROOFSIZE);
+	if (padding_bits != 0 && (bits.back() >> (8 - padding_bits)) != 0)
+	{
+		throw DESERIALIZATION_EXCEPTION("Unused proof of work bits are not zero");
+	}
+
 	Hash hash = Hasher::Blake2b(bits);
 
 	std::vector<uint64_t> proofNonces = DeserializeProofNonces(bits, edgeBits);
-- 
2.43.0


From e07ce0c506f077c88fb560c5066ca54325278bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 25/59] fix: keep all bits of a kernel's fee

The reserved bits are part of the kernel hash. The shift was lost in JSON.
---
 include/Core/Models/Fee.h | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/Core/Models/Fee.h b/include/Core/Models/Fee.h
index b1a5ae2..4c0e386 100644
--- a/include/Core/Models/Fee.h
+++ b/include/Core/Models/Fee.h
@@ -25,8 +25,8 @@ public:
 	//
 	Fee& operator=(const Fee& fee) = default;
 	Fee& operator=(Fee&& fee) noexcept = default;
-	bool operator==(const Fee& rhs) const { return m_fee == rhs.m_fee && m_shift == rhs.m_shift; }
-	bool operator!=(const Fee& rhs) const { return m_fee != rhs.m_fee || m_shift != rhs.m_shift; }
+	bool operator==(const Fee& rhs) const { return m_fee == rhs.m_fee && m_shift == rhs.m_shift && m_reserved == rhs.m_reserved; }
+	bool operator!=(const Fee& rhs) const { return !(*this == rhs); }
 
 	//
 	// Getters
@@ -39,19 +39,23 @@ public:
 	//
 	void Serialize(Serializer& serializer) const final
 	{
-		serializer.Append<uint16_t>(0);
-		serializer.Append<uint8_t>(m_shift);
+		serializer.Append<uint16_t>((uint16_t)(m_reserved >> 4));
+		serializer.Append<uint8_t>((uint8_t)((m_reserved << 4) | m_shift));
 		serializer.Append<uint8_t>((uint8_t)(m_fee >> 32));
 		serializer.Append<uint32_t>((uint32_t)(m_fee & 0xffffffff));
 	}
 
 	static Fee Deserialize(ByteBuffer& byteBuffer)
 	{
-		byteBuffer.ReadU16();
-		uint8_t shift = byteBuffer.ReadU8() & 0x0f;
-		uint64_t fee = ((uint64_t)byteBuffer.ReadU8()) << 32;
-		fee += byteBuffer.ReadU32();
-		return Fee(shift, fee);
+		uint32_t reserved = ((uint32_t)byteBuffer.ReadU16()) << 4;
+		const uint8_t shift = byteBuffer.ReadU8();
+		reserved |= (shift >> 4);
+		uint64_t fee_amount = ((uint64_t)byteBuffer.ReadU8()) << 32;
+		fee_amount += byteBuffer.ReadU32();
+
+		Fee fee((uint8_t)(shift & 0x0f), fee_amount);
+		fee.m_reserved = reserved;
+		return fee;
 	}
 
 	Json::Value ToJSON() const
@@ -62,10 +66,14 @@ public:
 
 	static Fee FromJSON(const Json::Value& json)
 	{
-		return Fee::From(JsonUtil::ConvertToUInt64(json));
+		ByteBuffer buffer(Serializer().Append<uint64_t>(JsonUtil::ConvertToUInt64(json)).GetBytes());
+		return Fee::Deserialize(buffer);
 	}
 
 private:
 	uint8_t m_shift;
 	uint64_t m_fee;
+
+	// The upper 20 bits have no meaning (yet), but are part of the kernel hash.
+	uint32_t m_reserved{ 0 };
 };
\ No newline at end of file
-- 
2.43.0


From a0f71b4a3039200617ac9116f5d7fdd2713053aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 26/59] fix: refuse unknown output and kernel features and
 unused kernel fields

They were accepted, although other nodes refuse them. Unused fields of a kernel
are not signed, and are lost when it is relayed with another protocol version.
---
 include/Core/Models/Features.h                | 20 +++++++++++++++++++
 include/Wallet/Models/Slate/SlateCommitment.h |  2 +-
 src/Core/Models/OutputIdentifier.cpp          |  2 +-
 src/Core/Models/TransactionInput.cpp          |  2 +-
 src/Core/Models/TransactionKernel.cpp         | 13 +++++++++++-
 src/Core/Models/TransactionOutput.cpp         |  2 +-
 src/Wallet/Models/Slate/Slate.cpp             |  4 ++--
 7 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/include/Core/Models/Features.h b/include/Core/Models/Features.h
index 8d82edf..7e3f8b3 100644
--- a/include/Core/Models/Features.h
+++ b/include/Core/Models/Features.h
@@ -46,6 +46,16 @@ namespace OutputFeatures
 
 		throw DESERIALIZATION_EXCEPTION_F("Failed to deserialize output feature: {}", string);
 	}
+
+	static EOutputFeatures FromByte(const uint8_t byte)
+	{
+		if (byte > (uint8_t)EOutputFeatures::COINBASE_OUTPUT)
+		{
+			throw DESERIALIZATION_EXCEPTION_F("Invalid output features: {}", byte);
+		}
+
+		return (EOutputFeatures)byte;
+	}
 }
 
 enum EKernelFeatures
@@ -103,4 +113,14 @@ namespace KernelFeatures
 
 		throw DESERIALIZATION_EXCEPTION_F("Failed to deserialize kernel feature: {}", string);
 	}
+
+	static EKernelFeatures FromByte(const uint8_t byte)
+	{
+		if (byte > (uint8_t)EKernelFeatures::NO_RECENT_DUPLICATE)
+		{
+			throw DESERIALIZATION_EXCEPTION_F("Invalid kernel features: {}", byte);
+		}
+
+		return (EKernelFeatures)byte;
+	}
 }
\ No newline at end of file
diff --git a/include/Wallet/Models/Slate/SlateCommitment.h b/include/Wallet/Models/Slate/SlateCommitment.h
index fad5a32..bfa1d81 100644
--- a/include/Wallet/Models/Slate/SlateCommitment.h
+++ b/include/Wallet/Models/Slate/SlateCommitment.h
@@ -41,7 +41,7 @@ struct SlateCommitment
         const uint8_t hasProof = byteBuffer.ReadU8();
 
         SlateCommitment ret;
-        ret.features = (EOutputFeatures)byteBuffer.ReadU8();
+        ret.features = OutputFeatures::FromByte(byteBuffer.ReadU8());
         ret.commitment = Commitment::Deserialize(byteBuffer);
 
         if (hasProof > 0) {
diff --git a/src/Core/Models/OutputIdentifier.cpp b/src/Core/Models/OutputIdentifier.cpp
index c3b5656..e116939 100644
--- a/src/Core/Models/OutputIdentifier.cpp
+++ b/src/Core/Models/OutputIdentifier.cpp
@@ -26,7 +26,7 @@ void OutputIdentifier::Serialize(Serializer& serializer) const
 OutputIdentifier OutputIdentifier::Deserialize(ByteBuffer& byteBuffer)
 {
 	// Read OutputFeatures (1 byte)
-	const EOutputFeatures features = (EOutputFeatures)byteBuffer.ReadU8();
+	const EOutputFeatures features = OutputFeatures::FromByte(byteBuffer.ReadU8());
 
 	// Read Commitment (33 bytes)
 	Commitment commitment = Commitment::Deserialize(byteBuffer);
diff --git a/src/Core/Models/TransactionInput.cpp b/src/Core/Models/TransactionInput.cpp
index ddac512..35cbb81 100644
--- a/src/Core/Models/TransactionInput.cpp
+++ b/src/Core/Models/TransactionInput.cpp
@@ -30,7 +30,7 @@ TransactionInput TransactionInput::Deserialize(ByteBuffer& byteBuffer)
 		EOutputFeatures features = Global::GetCoinView()->GetOutputType(commitment);
 		return TransactionInput(features, std::move(commitment));
 	} else {
-		EOutputFeatures features = (EOutputFeatures)byteBuffer.ReadU8();
+		EOutputFeatures features = OutputFeatures::FromByte(byteBuffer.ReadU8());
 		Commitment commitment = Commitment::Deserialize(byteBuffer);
 		return TransactionInput(features, std::move(commitment));
 	}
diff --git a/src/Core/Models/TransactionKernel.cpp b/src/Core/Models/TransactionKernel.cpp
index 71de1cd..9a958bf 100644
--- a/src/Core/Models/TransactionKernel.cpp
+++ b/src/Core/Models/TransactionKernel.cpp
@@ -60,7 +60,7 @@ void TransactionKernel::Serialize(Serializer& serializer) const
 TransactionKernel TransactionKernel::Deserialize(ByteBuffer& byteBuffer)
 {
 	// Read KernelFeatures (1 byte)
-	const EKernelFeatures features = (EKernelFeatures)byteBuffer.ReadU8();
+	const EKernelFeatures features = KernelFeatures::FromByte(byteBuffer.ReadU8());
 
 	Fee fee;
 	uint64_t lockHeight = 0;
@@ -84,6 +84,17 @@ TransactionKernel TransactionKernel::Deserialize(ByteBuffer& byteBuffer)
 	{
 		fee = Fee::Deserialize(byteBuffer);
 		lockHeight = byteBuffer.ReadU64();
+
+		// Fields the features don't use are not signed, and are not sent by later versions.
+		if (features == EKernelFeatures::COINBASE_KERNEL && fee != Fee())
+		{
+			throw DESERIALIZATION_EXCEPTION("Coinbase kernel has a fee");
+		}
+
+		if ((features == EKernelFeatures::COINBASE_KERNEL || features == EKernelFeatures::DEFAULT_KERNEL) && lockHeight != 0)
+		{
+			throw DESERIALIZATION_EXCEPTION_F("Kernel with features {} has a lock height", (int)features);
+		}
 	}
 
 	// Read ExcessCommitment (33 bytes)
diff --git a/src/Core/Models/TransactionOutput.cpp b/src/Core/Models/TransactionOutput.cpp
index b099183..949a96a 100644
--- a/src/Core/Models/TransactionOutput.cpp
+++ b/src/Core/Models/TransactionOutput.cpp
@@ -29,7 +29,7 @@ void TransactionOutput::Serialize(Serializer& serializer) const
 TransactionOutput TransactionOutput::Deserialize(ByteBuffer& byteBuffer)
 {
 	// Read OutputFeatures (1 byte)
-	const EOutputFeatures features = (EOutputFeatures)byteBuffer.ReadU8();
+	const EOutputFeatures features = OutputFeatures::FromByte(byteBuffer.ReadU8());
 
 	// Read Commitment (33 bytes)
 	Commitment commitment = Commitment::Deserialize(byteBuffer);
diff --git a/src/Wallet/Models/Slate/Slate.cpp b/src/Wallet/Models/Slate/Slate.cpp
index 9c9d62c..1e3ecb0 100644
--- a/src/Wallet/Models/Slate/Slate.cpp
+++ b/src/Wallet/Models/Slate/Slate.cpp
@@ -262,7 +262,7 @@ Slate Slate::Deserialize(ByteBuffer& byteBuffer)
 	}
 
 	if (fieldStatus.include_feat) {
-		slate.kernelFeatures = (EKernelFeatures)byteBuffer.ReadU8();
+		slate.kernelFeatures = KernelFeatures::FromByte(byteBuffer.ReadU8());
 	}
 
 	if (fieldStatus.include_ttl) {
@@ -386,7 +386,7 @@ Slate Slate::FromJSON(const Json::Value& json)
 	}
 
 	slate.amount = JsonUtil::GetUInt64Opt(json, "amt").value_or(0);
-	slate.kernelFeatures = (EKernelFeatures)JsonUtil::GetUInt8Opt(json, "feat").value_or(0);
+	slate.kernelFeatures = KernelFeatures::FromByte(JsonUtil::GetUInt8Opt(json, "feat").value_or(0));
 	// TODO: Feat args
 	slate.ttl = JsonUtil::GetUInt64Opt(json, "ttl").value_or(0);
 
-- 
2.43.0


From 163cc839e47a1ed5426d5d4340904713c75d3282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 27/59] fix: check the size of a segment before allocating
 memory for it

---
 include/PMMR/Common/Segment.h      | 6 ++++++
 include/PMMR/Common/SegmentProof.h | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/include/PMMR/Common/Segment.h b/include/PMMR/Common/Segment.h
index 6d85823..90d4521 100644
--- a/include/PMMR/Common/Segment.h
+++ b/include/PMMR/Common/Segment.h
@@ -94,6 +94,9 @@ public:
     {
         SegmentIdentifier segmentId = SegmentIdentifier::Deserialize(byteBuffer);
         const uint64_t numHashes = byteBuffer.Read<uint64_t>();
+        if (numHashes > byteBuffer.GetRemainingSize() / (sizeof(uint64_t) + 32)) {
+            throw DESERIALIZATION_EXCEPTION_F("Segment is too short for {} hashes", numHashes);
+        }
         std::vector<uint64_t> hashPos(numHashes);
         for (uint64_t i = 0; i < numHashes; ++i) {
             hashPos[i] = byteBuffer.Read<uint64_t>();
@@ -104,6 +107,9 @@ public:
             hashes.push_back(byteBuffer.ReadBigInteger<32>());
         }
         const uint64_t numLeaves = byteBuffer.Read<uint64_t>();
+        if (numLeaves > byteBuffer.GetRemainingSize() / sizeof(uint64_t)) {
+            throw DESERIALIZATION_EXCEPTION_F("Segment is too short for {} leaves", numLeaves);
+        }
         std::vector<uint64_t> leafPos(numLeaves);
         for (uint64_t i = 0; i < numLeaves; ++i) {
             leafPos[i] = byteBuffer.Read<uint64_t>();
diff --git a/include/PMMR/Common/SegmentProof.h b/include/PMMR/Common/SegmentProof.h
index 6495ab7..9bcd302 100644
--- a/include/PMMR/Common/SegmentProof.h
+++ b/include/PMMR/Common/SegmentProof.h
@@ -51,6 +51,9 @@ public:
 	static SegmentProof Deserialize(ByteBuffer& byteBuffer)
 	{
 		const uint64_t size = byteBuffer.Read<uint64_t>();
+		if (size > byteBuffer.GetRemainingSize() / 32) {
+			throw DESERIALIZATION_EXCEPTION_F("Segment proof is too short for {} hashes", size);
+		}
 		std::vector<Hash> hashes;
 		hashes.reserve(size);
 		for (uint64_t i = 0; i < size; ++i) {
-- 
2.43.0


From 11f84e986abff3ca0ba72e13437e2b4845a74b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 28/59] fix: refuse proofs of work on graphs that are too small

---
 src/PoW/PoWValidator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PoW/PoWValidator.cpp b/src/PoW/PoWValidator.cpp
index dd2bd6e..a85b50d 100644
--- a/src/PoW/PoWValidator.cpp
+++ b/src/PoW/PoWValidator.cpp
@@ -11,6 +11,12 @@
 
 bool PoWValidator::IsPoWValid(const BlockHeader& header, const BlockHeader& previousHeader) const
 {
+    // Validate Edge Bits
+    if (!header.IsPrimaryPoW() && !header.IsSecondaryPoW()) {
+        LOG_WARNING_F("Edge bits {} not allowed for block {}", header.GetEdgeBits(), header);
+        return false;
+    }
+
     // Validate Total Difficulty
     if (header.GetTotalDifficulty() <= previousHeader.GetTotalDifficulty()) {
         LOG_WARNING_F("Target difficulty too low for block {}", header);
-- 
2.43.0


From 0ad86af31b1e23ef526510dbe2894f65dc9724dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 29/59] fix: end the verification of a Cuckarood proof that
 leads into a loop

---
 src/PoW/Cuckarood.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PoW/Cuckarood.cpp b/src/PoW/Cuckarood.cpp
index cea45b8..0230d1b 100644
--- a/src/PoW/Cuckarood.cpp
+++ b/src/PoW/Cuckarood.cpp
@@ -51,8 +51,8 @@ int verify_cuckarood(const word_t edges[PROOFSIZE], siphash_keys& keys)
         if (j == i) return POW_DEAD_END;  // no matching endpoint
         i = j ^ 1;
         n++;
-    } while (i != 0);           // must cycle back to start or we would have found branch
-    return n == PROOFSIZE ? POW_OK : POW_SHORT_CYCLE;
+    } while (i != 0 && n < PROOFSIZE); // two edges of one direction may lead to the same node, so the start may never be reached again
+    return i == 0 && n == PROOFSIZE ? POW_OK : POW_SHORT_CYCLE;
 }
 
 bool Cuckarood::Validate(const BlockHeader& blockHeader)
-- 
2.43.0


From fd6ad6ffe4f2c1e4378c79fc04b8e9252db0b2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:22 +0000
Subject: [PATCH 30/59] fix: release the lock when a write can't be started

---
 include/Core/Traits/Lockable.h | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/include/Core/Traits/Lockable.h b/include/Core/Traits/Lockable.h
index c43a543..23ab1fa 100644
--- a/include/Core/Traits/Lockable.h
+++ b/include/Core/Traits/Lockable.h
@@ -108,7 +108,16 @@ class Writer : public Reader<T>
 				m_pMutex->lock();
 			}
 
-			OnInitWrite(batched);
+			try
+			{
+				OnInitWrite(batched);
+			}
+			catch (...)
+			{
+				// The destructor won't run, so the lock must be released here.
+				m_pMutex->unlock();
+				throw;
+			}
 		}
 
 		~InnerWriter()
@@ -342,7 +351,7 @@ public:
 	std::tuple<Writer<T1>, Writer<T2>, Writer<TN> ...> Lock(const Locked<T1>& lock1, const Locked<T2>& lock2, const Locked<TN>&... lockN)
 	{
 		std::lock(*lock1.m_pMutex, *lock2.m_pMutex, ConvertArg(lockN) ...);
-		return std::make_tuple(GetWriter(lock1), GetWriter(lock2), GetWriter(lockN) ...);
+		return AdoptWriters(false, lock1, lock2, lockN ...);
 	}
 
 	//
@@ -352,7 +361,7 @@ public:
 	std::tuple<Writer<T1>, Writer<T2>, Writer<TN> ...> BatchLock(const Locked<T1>& lock1, const Locked<T2>& lock2, const Locked<TN>&... lockN)
 	{
 		std::lock(*lock1.m_pMutex, *lock2.m_pMutex, ConvertArg(lockN) ...);
-		return std::make_tuple(GetBatchWriter(lock1), GetBatchWriter(lock2), GetBatchWriter(lockN) ...);
+		return AdoptWriters(true, lock1, lock2, lockN ...);
 	}
 
 	//
@@ -384,16 +393,25 @@ private:
 		return SharedOnlyMutex(*lock.m_pMutex);
 	}
 
-	template<class T>
-	static Writer<T> GetWriter(Locked<T> lock)
+	//
+	// Creates the writers for mutexes that are already locked. If one of them can't be created, all of the mutexes are released.
+	//
+	template<class... T>
+	static std::tuple<Writer<T>...> AdoptWriters(const bool batch, const Locked<T>&... locks)
 	{
-		return lock.Write(std::adopt_lock);
+		std::unique_lock<std::shared_mutex> guards[] = {
+			std::unique_lock<std::shared_mutex>(ConvertArg(locks), std::adopt_lock)...
+		};
+
+		size_t index = 0;
+		return std::tuple<Writer<T>...>{ AdoptWriter(batch, guards[index++], locks)... };
 	}
 
 	template<class T>
-	static Writer<T> GetBatchWriter(Locked<T> lock)
+	static Writer<T> AdoptWriter(const bool batch, std::unique_lock<std::shared_mutex>& guard, Locked<T> lock)
 	{
-		return lock.BatchWrite(std::adopt_lock);
+		guard.release();
+		return batch ? lock.BatchWrite(std::adopt_lock) : lock.Write(std::adopt_lock);
 	}
 
 	template<class T>
-- 
2.43.0


From 24970010a2cc1b25a4f9f262535a0ed02f602ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:22 +0000
Subject: [PATCH 31/59] fix: read the state of a shared queue under its lock

---
 include/Common/SharedQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Common/SharedQueue.h b/include/Common/SharedQueue.h
index 335816e..b79d2fb 100644
--- a/include/Common/SharedQueue.h
+++ b/include/Common/SharedQueue.h
@@ -59,6 +59,7 @@ public:
 
     bool empty()
     {
+        std::unique_lock<std::mutex> mlock(mutex_);
         return queue_.empty();
     }
 
-- 
2.43.0


From 5eab35cef6291300d9f9c942343780a93a284339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:38 +0000
Subject: [PATCH 32/59] fix: let a peer's version and user agent be updated
 while other threads read them

---
 include/P2P/Peer.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/P2P/Peer.h b/include/P2P/Peer.h
index 04d7738..a75d77e 100644
--- a/include/P2P/Peer.h
+++ b/include/P2P/Peer.h
@@ -14,6 +14,7 @@
 #include <atomic>
 #include <chrono>
 #include <memory>
+#include <mutex>
 
 class Peer : public Traits::IPrintable
 {
@@ -78,9 +79,9 @@ public:
 	Peer& operator=(const Peer& other)
 	{
 		m_ipAddress = other.m_ipAddress;
-		m_version = other.m_version;
+		m_version = other.m_version.load();
 		m_capabilities = other.m_capabilities.load();
-		m_userAgent = other.m_userAgent;
+		UpdateUserAgent(other.GetUserAgent());
 		m_lastContactTime = other.m_lastContactTime.load();
 		m_lastBanTime = other.m_lastBanTime.load();
 		m_banReason = other.m_banReason.load();
@@ -116,7 +117,11 @@ public:
 		m_lastBanTime = 0;
 		m_dirty = true;
 	}
-	void UpdateUserAgent(const std::string& userAgent) noexcept { m_userAgent = userAgent; }
+	void UpdateUserAgent(const std::string& userAgent)
+	{
+		std::unique_lock<std::mutex> lock(m_userAgentMutex);
+		m_userAgent = userAgent;
+	}
 	void UpdateLastTxHashSetRequest() noexcept { m_lastTxHashSetRequest = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now()); }
 
 	//
@@ -127,7 +132,11 @@ public:
 	const IPAddress& GetIPAddress() const noexcept { return m_ipAddress; }
 	uint32_t GetVersion() const noexcept { return m_version; }
 	Capabilities GetCapabilities() const noexcept { return m_capabilities; }
-	const std::string& GetUserAgent() const noexcept { return m_userAgent; }
+	std::string GetUserAgent() const
+	{
+		std::unique_lock<std::mutex> lock(m_userAgentMutex);
+		return m_userAgent;
+	}
 	std::time_t GetLastContactTime() const noexcept { return m_lastContactTime; }
 	std::time_t GetLastBanTime() const noexcept { return m_lastBanTime; }
 	EBanReason GetBanReason() const noexcept { return m_banReason; }
@@ -144,9 +153,9 @@ public:
 	void Serialize(Serializer& serializer) const
 	{
 		SocketAddress(m_ipAddress, 0).Serialize(serializer);
-		serializer.Append<uint32_t>(m_version);
+		serializer.Append<uint32_t>(m_version.load());
 		m_capabilities.load().Serialize(serializer);
-		serializer.AppendVarStr(m_userAgent);
+		serializer.AppendVarStr(GetUserAgent());
 		serializer.Append<int64_t>(m_lastContactTime.load());
 		serializer.Append<int64_t>(m_lastBanTime.load());
 		serializer.Append<int32_t>(m_banReason.load());
@@ -193,9 +202,10 @@ private:
 	std::atomic_bool m_dirty;
 	std::atomic_bool m_connected;
 	IPAddress m_ipAddress;
-	uint32_t m_version;
+	std::atomic<uint32_t> m_version;
 	std::atomic<Capabilities> m_capabilities;
 	std::string m_userAgent;
+	mutable std::mutex m_userAgentMutex;
 	mutable std::atomic<std::time_t> m_lastContactTime;
 	std::atomic<std::time_t> m_lastBanTime;
 	std::atomic<EBanReason> m_banReason;
-- 
2.43.0


From 13aa5c385ea31a86599a04b368fe4de6cae23ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:24 +0000
Subject: [PATCH 33/59] fix: look past a banned peer when choosing a peer to
 connect to

---
 src/P2P/Seed/PeerManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/P2P/Seed/PeerManager.cpp b/src/P2P/Seed/PeerManager.cpp
index 3709062..5c92ef9 100644
--- a/src/P2P/Seed/PeerManager.cpp
+++ b/src/P2P/Seed/PeerManager.cpp
@@ -242,6 +242,7 @@ std::vector<PeerPtr> PeerManager::GetPeersWithCapability(
         const PeerPtr& peer = peerEntry.m_peer;
 
         if (connectingToPeer && peer->GetLastBanTime() > maxBanTime) {
+            iter++;
             continue;
         }
 
-- 
2.43.0


From a2641bb3ee4aee6286d0966591fb128b9fdf8e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:24 +0000
Subject: [PATCH 34/59] fix: don't forget a peer while it is banned

---
 src/P2P/Seed/PeerManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Seed/PeerManager.cpp b/src/P2P/Seed/PeerManager.cpp
index 5c92ef9..bb65d89 100644
--- a/src/P2P/Seed/PeerManager.cpp
+++ b/src/P2P/Seed/PeerManager.cpp
@@ -85,7 +85,7 @@ void PeerManager::Thread_ManagePeers(PeerManager& peerManager)
                 {
                     peersToUpdate.push_back(peerEntry.m_peer);
                     peerEntry.m_peer->SetDirty(false);
-                } else if (peerEntry.m_peer->GetLastContactTime() > 0 && peerEntry.m_peer->GetLastContactTime() < minimumContactTime)
+                } else if (!peerEntry.m_peer->IsBanned() && peerEntry.m_peer->GetLastContactTime() > 0 && peerEntry.m_peer->GetLastContactTime() < minimumContactTime)
                 {
                     peersToDelete.push_back(peerEntry.m_peer);
                 }
-- 
2.43.0


From c9dc3f91133bce8a1b269e2de1671f7eba27d0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:34 +0000
Subject: [PATCH 35/59] fix: initialise whether a connection receives

---
 src/P2P/Connection.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/P2P/Connection.h b/src/P2P/Connection.h
index 142ebf9..7a13d17 100644
--- a/src/P2P/Connection.h
+++ b/src/P2P/Connection.h
@@ -46,6 +46,7 @@ public:
 		m_pMessageProcessor(pMessageProcessor),
 		m_terminate(false),
 		m_sendingDisabled(false),
+		m_receivingDisabled(false),
 		m_advertisedBlocks(256) { }
 
 	Connection(const Connection&) = delete;
-- 
2.43.0


From e130311336b13c9411bab588c907ba573270f2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:34 +0000
Subject: [PATCH 36/59] fix: don't lock up when a message handler disconnects
 its peer

---
 src/P2P/Connection.cpp | 10 +++++-----
 src/P2P/Connection.h   |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/P2P/Connection.cpp b/src/P2P/Connection.cpp
index 9aa6577..13fa49f 100644
--- a/src/P2P/Connection.cpp
+++ b/src/P2P/Connection.cpp
@@ -20,7 +20,7 @@ void Connection::Connect()
 
 void Connection::Disconnect()
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     if (!m_terminate) {
         m_terminate = true;
@@ -143,7 +143,7 @@ void Connection::HandleConnected(const asio::error_code& ec)
 
 void Connection::HandleReceivedHeader(const asio::error_code& ec, const size_t bytes_received)
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     if (!ec && m_pSocket->IsOpen() && bytes_received == 11) {
         assert(m_received.size() == 11);
@@ -175,7 +175,7 @@ void Connection::HandleReceivedHeader(const asio::error_code& ec, const size_t b
 
 void Connection::HandleReceivedBody(MessageHeader msg_header, const asio::error_code& ec, const size_t bytes_received)
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     if (!ec && m_pSocket->IsOpen() && bytes_received == msg_header.GetLength()) {
         assert(m_received.size() == msg_header.GetLength());
@@ -221,7 +221,7 @@ void Connection::HandleReceivedBody(MessageHeader msg_header, const asio::error_
 
 void Connection::CheckPing()
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     if (!GetSocket()->IsActive()) {
         return;
@@ -257,7 +257,7 @@ bool Connection::SendSync(const IMessage& message)
 
 bool Connection::ReceiveSync(std::vector<uint8_t>& bytes, const size_t num_bytes)
 {
-    std::unique_lock<std::mutex> write_lock(m_mutex);
+    std::unique_lock<std::recursive_mutex> write_lock(m_mutex);
 
     bytes = m_pSocket->ReceiveSync(num_bytes, false);
     if (bytes.size() != num_bytes) {
diff --git a/src/P2P/Connection.h b/src/P2P/Connection.h
index 7a13d17..3695970 100644
--- a/src/P2P/Connection.h
+++ b/src/P2P/Connection.h
@@ -113,7 +113,7 @@ private:
 	mutable SocketPtr m_pSocket;
 
 	mutable LRUCache<Hash, Hash> m_advertisedBlocks;
-	mutable std::mutex m_mutex;
+	mutable std::recursive_mutex m_mutex;
 };
 
 typedef std::shared_ptr<Connection> ConnectionPtr;
\ No newline at end of file
-- 
2.43.0


From cff1a4c9fae3dc54833b49f4a742eb205faddfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 37/59] fix: end the connection of a peer that gets banned

---
 src/P2P/Connection.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/P2P/Connection.cpp b/src/P2P/Connection.cpp
index 13fa49f..82a9a2c 100644
--- a/src/P2P/Connection.cpp
+++ b/src/P2P/Connection.cpp
@@ -273,5 +273,4 @@ void Connection::BanPeer(const EBanReason reason)
 {
     LOG_WARNING_F("Banning peer {} for '{}'.", GetIPAddress(), BanReason::Format(reason));
     GetPeer()->Ban(reason);
-    m_terminate = true;
 }
\ No newline at end of file
-- 
2.43.0


From 2c5ebd5db9ea7a41c17e5838e9d9fed21f487a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:46 +0000
Subject: [PATCH 38/59] fix: don't skip a connection when removing the one
 before it

---
 src/P2P/ConnectionManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/P2P/ConnectionManager.cpp b/src/P2P/ConnectionManager.cpp
index fbee250..4ac6de9 100644
--- a/src/P2P/ConnectionManager.cpp
+++ b/src/P2P/ConnectionManager.cpp
@@ -193,7 +193,7 @@ void ConnectionManager::PruneConnections(const bool bInactiveOnly)
 	auto connectionsWriter = m_connections.Write();
 	std::vector<ConnectionPtr>& connections = *connectionsWriter;
 
-	for (auto iter = connections.begin(); iter < connections.end(); iter++) {
+	for (auto iter = connections.begin(); iter != connections.end();) {
 		ConnectionPtr pConnection = *iter;
 		if (!bInactiveOnly || !pConnection->IsConnectionActive()) {
 			try { 
@@ -202,7 +202,9 @@ void ConnectionManager::PruneConnections(const bool bInactiveOnly)
 			catch (std::exception& e) {
 				LOG_ERROR("Error disconnecting: {}", e.what());
 			}
-			connections.erase(iter);
+			iter = connections.erase(iter);
+		} else {
+			iter++;
 		}
 	}
 
-- 
2.43.0


From e8de8a9ac5aeedff7023980fb5a9a24e21c79817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:37 +0000
Subject: [PATCH 39/59] fix: answer a header request from the last common
 header of our chain

---
 src/P2P/BlockLocator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/P2P/BlockLocator.cpp b/src/P2P/BlockLocator.cpp
index 900b856..e44fd8f 100644
--- a/src/P2P/BlockLocator.cpp
+++ b/src/P2P/BlockLocator.cpp
@@ -84,7 +84,12 @@ BlockHeaderPtr BlockLocator::FindCommonHeader(const std::vector<Hash>& locatorHa
 		auto pHeader = m_pBlockChain->GetBlockHeaderByHash(locatorHash);
 		if (pHeader != nullptr)
 		{
-			return pHeader;
+			// Headers of forks are known too, but only those of our own chain can be followed by it.
+			auto pChainHeader = m_pBlockChain->GetBlockHeaderByHeight(pHeader->GetHeight(), EChainType::CANDIDATE);
+			if (pChainHeader != nullptr && pChainHeader->GetHash() == pHeader->GetHash())
+			{
+				return pHeader;
+			}
 		}
 	}
 
-- 
2.43.0


From b3da33f9b7162750020690174e154604ffb1cc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:30 +0000
Subject: [PATCH 40/59] fix: send queued messages whole, once and in order

---
 include/Net/Socket.h |  1 +
 src/Net/Socket.cpp   | 54 ++++++++++++++++++++++++++------------------
 2 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/include/Net/Socket.h b/include/Net/Socket.h
index c353af6..eeb89b8 100644
--- a/include/Net/Socket.h
+++ b/include/Net/Socket.h
@@ -79,6 +79,7 @@ public:
 private:
 	bool HasReceivedData();
 	void ThrowSocketException(const asio::error_code& ec);
+	void WriteAsync(const std::vector<uint8_t>& message);
 	void HandleSent(const asio::error_code& ec, size_t bytes_transferred);
 
 	std::shared_mutex m_socketMutex;
diff --git a/src/Net/Socket.cpp b/src/Net/Socket.cpp
index 6db95ea..6208d63 100644
--- a/src/Net/Socket.cpp
+++ b/src/Net/Socket.cpp
@@ -183,21 +183,32 @@ bool Socket::SendSync(const std::vector<uint8_t>& message, const bool incrementC
 
 void Socket::SendAsync(const std::vector<uint8_t>& message)
 {
-    bool first_in_queue = m_writeQueue.empty();
-    m_writeQueue.push_back(message);
-
-    if (!first_in_queue) {
-        // There is already an async_write in process.
-        // It will send this message when it completes.
-        return;
+    {
+        std::unique_lock<std::mutex> queueLock(m_writeQueueMutex);
+        bool first_in_queue = m_writeQueue.empty();
+        m_writeQueue.push_back(message);
+
+        if (!first_in_queue) {
+            // There is already an async_write in process.
+            // It will send this message when it completes.
+            return;
+        }
     }
 
+    WriteAsync(message);
+}
+
+void Socket::WriteAsync(const std::vector<uint8_t>& message)
+{
+    // The message must stay in memory until it's completely written.
+    auto pMessage = std::make_shared<const std::vector<uint8_t>>(message);
+
     std::shared_lock<std::shared_mutex> socketLock(m_socketMutex);
     if (m_socketOpen) {
         asio::async_write(
             *m_pSocket,
-            asio::buffer(message.data(), message.size()),
-            std::bind(&Socket::HandleSent, shared_from_this(), std::placeholders::_1, std::placeholders::_2)
+            asio::buffer(pMessage->data(), pMessage->size()),
+            [pSelf = shared_from_this(), pMessage](const asio::error_code& ec, size_t bytes_sent) { pSelf->HandleSent(ec, bytes_sent); }
         );
     }
 }
@@ -206,23 +217,22 @@ void Socket::HandleSent(const asio::error_code& ec, size_t)
 {
     m_rateCounter.AddMessageSent();
 
-    if (!m_writeQueue.empty()) {
-        m_writeQueue.pop_front();
+    std::vector<uint8_t> message;
+    {
+        std::unique_lock<std::mutex> queueLock(m_writeQueueMutex);
+        if (!m_writeQueue.empty()) {
+            m_writeQueue.pop_front();
+        }
+
+        if (!ec && !m_writeQueue.empty()) {
+            message = m_writeQueue.front();
+        }
     }
 
     if (ec) {
         LOG_INFO_F("Failed to send message to {}: {}", *this, ec.message());
-    } else if (!m_writeQueue.empty()) {
-        std::vector<uint8_t> message = m_writeQueue.front();
-
-        std::shared_lock<std::shared_mutex> socketLock(m_socketMutex);
-        if (m_socketOpen) {
-            asio::async_write(
-                *m_pSocket,
-                asio::buffer(message.data(), message.size()),
-                std::bind(&Socket::HandleSent, shared_from_this(), std::placeholders::_1, std::placeholders::_2)
-            );
-        }
+    } else if (!message.empty()) {
+        WriteAsync(message);
     }
 }
 
-- 
2.43.0


From 96090445af01d9cb357bf3add432d1fc8690dd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:37 +0000
Subject: [PATCH 41/59] fix: send the last part of a TxHashSet archive

---
 src/P2P/Pipeline/TxHashSetPipe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Pipeline/TxHashSetPipe.cpp b/src/P2P/Pipeline/TxHashSetPipe.cpp
index 94c7728..d0e6a94 100644
--- a/src/P2P/Pipeline/TxHashSetPipe.cpp
+++ b/src/P2P/Pipeline/TxHashSetPipe.cpp
@@ -208,7 +208,7 @@ void TxHashSetPipe::Thread_SendTxHashSet(
 
 		std::vector<uint8_t> buffer(BUFFER_SIZE, 0);
 			
-		while (file.read((char*)buffer.data(), BUFFER_SIZE)) {
+		while (file.read((char*)buffer.data(), BUFFER_SIZE) || file.gcount() > 0) {
 			std::vector<uint8_t> bytesToSend(
 				buffer.cbegin(),
 				buffer.cbegin() + file.gcount()
-- 
2.43.0


From 7abb5087dfd05dd399dbea2fee770aa56680ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:37 +0000
Subject: [PATCH 42/59] fix: go on answering a peer whose TxHashSet request
 can't be served

---
 src/P2P/Pipeline/TxHashSetPipe.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/P2P/Pipeline/TxHashSetPipe.cpp b/src/P2P/Pipeline/TxHashSetPipe.cpp
index d0e6a94..4604e5b 100644
--- a/src/P2P/Pipeline/TxHashSetPipe.cpp
+++ b/src/P2P/Pipeline/TxHashSetPipe.cpp
@@ -179,6 +179,7 @@ void TxHashSetPipe::Thread_SendTxHashSet(
 {
 	auto pHeader = pBlockChain->GetBlockHeaderByHash(block_hash);
 	if (pHeader == nullptr) {
+		pConnection->DisableSends(false);
 		return;
 	}
 
@@ -188,6 +189,7 @@ void TxHashSetPipe::Thread_SendTxHashSet(
 		zipFilePath = pBlockChain->SnapshotTxHashSet(pHeader);
 	}
 	catch (std::exception&) {
+		pConnection->DisableSends(false);
 		return;
 	}
 
@@ -197,6 +199,7 @@ void TxHashSetPipe::Thread_SendTxHashSet(
 	std::ifstream file(zipFilePath, std::ios::in | std::ios::ate | std::ios::binary);
 	if (!file.is_open()) {
 		FileUtil::RemoveFile(zipFilePath);
+		pConnection->DisableSends(false);
 		return;
 	}
 
-- 
2.43.0


From a50d891e16320ef99417521f0a6f6e495276aae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:37 +0000
Subject: [PATCH 43/59] fix: refuse peers that follow another genesis block

---
 src/P2P/Seed/HandShake.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/P2P/Seed/HandShake.cpp b/src/P2P/Seed/HandShake.cpp
index 7bc9438..033fb35 100644
--- a/src/P2P/Seed/HandShake.cpp
+++ b/src/P2P/Seed/HandShake.cpp
@@ -45,6 +45,10 @@ void HandShake::PerformOutboundHandshake(const Socket::Ptr& pSocket, ConnectedPe
     ByteBuffer buffer(pReceived->GetPayload());
     ShakeMessage shakeMessage = ShakeMessage::Deserialize(buffer);
 
+    if (shakeMessage.GetHash() != Global::GetGenesisHash()) {
+        throw PROTOCOL_EXCEPTION("Genesis block does not match");
+    }
+
     uint32_t version = (std::min)(P2P::PROTOCOL_VERSION, shakeMessage.GetVersion());
     connectedPeer.UpdateVersion(version);
     connectedPeer.UpdateCapabilities(shakeMessage.GetCapabilities());
@@ -71,6 +75,10 @@ void HandShake::PerformInboundHandshake(const Socket::Ptr& pSocket, ConnectedPee
         throw PROTOCOL_EXCEPTION("Connected to self");
     }
 
+    if (hand_message.GetHash() != Global::GetGenesisHash()) {
+        throw PROTOCOL_EXCEPTION("Genesis block does not match");
+    }
+
     if (m_connectionManager.IsConnected(connectedPeer.GetIPAddress())) {
         throw PROTOCOL_EXCEPTION("Already connected to peer");
     }
-- 
2.43.0


From dcb312fd8d34d0d1de38f678eaf589708f500451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:37 +0000
Subject: [PATCH 44/59] fix: keep listening after a peer was refused or
 vanished

---
 src/P2P/Seed/Seeder.cpp | 60 ++++++++++++++++++++++++-----------------
 src/P2P/Seed/Seeder.h   |  1 +
 2 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/src/P2P/Seed/Seeder.cpp b/src/P2P/Seed/Seeder.cpp
index 5178643..119c3e3 100644
--- a/src/P2P/Seed/Seeder.cpp
+++ b/src/P2P/Seed/Seeder.cpp
@@ -126,32 +126,12 @@ void Seeder::Accept(const asio::error_code& ec)
     if (ec) return;
     
     if (m_connectionManager.GetNumberOfActiveConnections() < Global::GetConfig().GetMaxPeers()) {
-        SocketAddress socket_address = SocketAddress::FromEndpoint(m_pSocket->remote_endpoint());
-        SocketPtr pSocket(new Socket(SocketAddress::FromEndpoint(m_pSocket->remote_endpoint()), m_pAsioContext, m_pSocket));
-        pSocket->SetOpen(true);
-
-        if (Global::GetConfig().IsPeerBlocked(pSocket->GetIPAddress())) {
-            LOG_TRACE_F("peer is blocked: {}",  pSocket->GetIPAddress());
-            return;
-        }
-
-        if (!Global::GetConfig().IsPeerAllowed(pSocket->GetIPAddress())) {
-            LOG_TRACE_F("peer is not allowed: {}",  pSocket->GetIPAddress());        
-            return;
+        // Whatever happens to this peer, other peers must still be able to connect.
+        try {
+            AcceptPeer();
         }
-
-        auto pPeer = m_peerManager.Write()->GetPeer( pSocket->GetIPAddress());
-
-        if (!pPeer->IsBanned()) {
-            auto pConnection = std::make_shared<Connection>(
-                pSocket,
-                m_nextId++,
-                m_connectionManager,
-                ConnectedPeer(pPeer, EDirection::INBOUND, pSocket->GetPort()),
-                m_pSyncStatus,
-                m_pMessageProcessor
-            );
-            pConnection->Connect();
+        catch (std::exception& e) {
+            LOG_INFO_F("Failed to accept peer: {}", e.what());
         }
     } else {
         asio::error_code ignoreError;
@@ -162,6 +142,36 @@ void Seeder::Accept(const asio::error_code& ec)
     m_pAcceptor->async_accept(*m_pSocket, std::bind(&Seeder::Accept, this, std::placeholders::_1));
 }
 
+void Seeder::AcceptPeer()
+{
+    SocketPtr pSocket(new Socket(SocketAddress::FromEndpoint(m_pSocket->remote_endpoint()), m_pAsioContext, m_pSocket));
+    pSocket->SetOpen(true);
+
+    if (Global::GetConfig().IsPeerBlocked(pSocket->GetIPAddress())) {
+        LOG_TRACE_F("peer is blocked: {}",  pSocket->GetIPAddress());
+        return;
+    }
+
+    if (!Global::GetConfig().IsPeerAllowed(pSocket->GetIPAddress())) {
+        LOG_TRACE_F("peer is not allowed: {}",  pSocket->GetIPAddress());
+        return;
+    }
+
+    auto pPeer = m_peerManager.Write()->GetPeer( pSocket->GetIPAddress());
+
+    if (!pPeer->IsBanned()) {
+        auto pConnection = std::make_shared<Connection>(
+            pSocket,
+            m_nextId++,
+            m_connectionManager,
+            ConnectedPeer(pPeer, EDirection::INBOUND, pSocket->GetPort()),
+            m_pSyncStatus,
+            m_pMessageProcessor
+        );
+        pConnection->Connect();
+    }
+}
+
 void Seeder::SeedNewConnection()
 {
     PeerPtr pPeer = m_peerManager.Write()->GetNewPeer(Capabilities::FAST_SYNC_NODE);
diff --git a/src/P2P/Seed/Seeder.h b/src/P2P/Seed/Seeder.h
index 5f67f58..ca3919b 100644
--- a/src/P2P/Seed/Seeder.h
+++ b/src/P2P/Seed/Seeder.h
@@ -49,6 +49,7 @@ private:
 	void StartListener();
 
 	void Accept(const asio::error_code& ec);
+	void AcceptPeer();
 	void SeedNewConnection();
 
 	ConnectionManager& m_connectionManager;
-- 
2.43.0


From 42e44427ab41e979b8d1ea7847fa30551fdd8156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:13 +0000
Subject: [PATCH 45/59] fix: sync blocks while the chain is shorter than the
 cut-through horizon

---
 src/P2P/Sync/StateSyncer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2P/Sync/StateSyncer.cpp b/src/P2P/Sync/StateSyncer.cpp
index 58e4c91..dfe357f 100644
--- a/src/P2P/Sync/StateSyncer.cpp
+++ b/src/P2P/Sync/StateSyncer.cpp
@@ -16,7 +16,7 @@ bool StateSyncer::SyncState(SyncStatus& syncStatus)
 	}
 
 	// If state sync is still in progress, return true to delay block sync.
-	if (syncStatus.GetBlockHeight() < (syncStatus.GetHeaderHeight() - Consensus::CUT_THROUGH_HORIZON))
+	if ((syncStatus.GetBlockHeight() + Consensus::CUT_THROUGH_HORIZON) < syncStatus.GetHeaderHeight())
 	{
 		return true;
 	}
-- 
2.43.0


From aeebd0730b561cd9f51a56e3da52cb6d12d96cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:14 +0000
Subject: [PATCH 46/59] fix: don't request the state of the chain where blocks
 suffice

---
 src/P2P/Sync/StateSyncer.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/P2P/Sync/StateSyncer.cpp b/src/P2P/Sync/StateSyncer.cpp
index dfe357f..9a9a3f7 100644
--- a/src/P2P/Sync/StateSyncer.cpp
+++ b/src/P2P/Sync/StateSyncer.cpp
@@ -36,12 +36,6 @@ bool StateSyncer::IsStateSyncDue(const SyncStatus& syncStatus) const
 		return false;
 	}
 
-	if (status == ESyncStatus::TXHASHSET_SYNC_FAILED)
-	{
-		LOG_WARNING("TxHashSet sync failed.");
-		return true;
-	}
-
 	// For the first week, there's no reason to request TxHashSet, since we can just download full blocks.
 	if (headerHeight < Consensus::CUT_THROUGH_HORIZON)
 	{
@@ -54,6 +48,12 @@ bool StateSyncer::IsStateSyncDue(const SyncStatus& syncStatus) const
 		return false;
 	}
 
+	if (status == ESyncStatus::TXHASHSET_SYNC_FAILED)
+	{
+		LOG_WARNING("TxHashSet sync failed.");
+		return true;
+	}
+
 	if (m_requestedHeight == 0)
 	{
 		LOG_INFO("Requesting TxHashSet for the first time.");
-- 
2.43.0


From 6aae1e161ac67654ac28b6ba7c669df1c07a5298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:37 +0000
Subject: [PATCH 47/59] fix: follow a fork that gets the most work only after
 its first 128 headers

---
 .../Processors/BlockHeaderProcessor.cpp       | 28 +++++++++++++------
 .../Processors/BlockHeaderProcessor.h         |  2 +-
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/BlockChain/Processors/BlockHeaderProcessor.cpp b/src/BlockChain/Processors/BlockHeaderProcessor.cpp
index ada2fb2..2ae3e65 100644
--- a/src/BlockChain/Processors/BlockHeaderProcessor.cpp
+++ b/src/BlockChain/Processors/BlockHeaderProcessor.cpp
@@ -160,12 +160,12 @@ EBlockChainStatus BlockHeaderProcessor::ProcessChunkedSyncHeaders(const std::vec
 
     const uint64_t totalDifficulty = pLockedState->GetTotalDifficulty(EChainType::CANDIDATE);
 
-    PrepareSyncChain(pLockedState, headers);
+    const std::vector<BlockHeaderPtr> syncHeaders = PrepareSyncChain(pLockedState, headers);
 
     // Filter out headers that are already part of sync chain.
     std::vector<BlockHeaderPtr> newHeaders;
-    for (size_t i = 0; i < headers.size(); i++) {
-        auto pHeader = headers[i];
+    for (size_t i = 0; i < syncHeaders.size(); i++) {
+        auto pHeader = syncHeaders[i];
         if (!newHeaders.empty() || !pCandidateChain->IsOnChain(pHeader)) {
             newHeaders.push_back(pHeader);
         }
@@ -198,19 +198,29 @@ EBlockChainStatus BlockHeaderProcessor::ProcessChunkedSyncHeaders(const std::vec
     return EBlockChainStatus::SUCCESS;
 }
 
-void BlockHeaderProcessor::PrepareSyncChain(Writer<ChainState> pLockedState, const std::vector<BlockHeaderPtr>& headers)
+std::vector<BlockHeaderPtr> BlockHeaderProcessor::PrepareSyncChain(Writer<ChainState> pLockedState, const std::vector<BlockHeaderPtr>& headers)
 {
     LOG_TRACE("Preparing candidate chain");
 
     auto pChainStore = pLockedState->GetChainStore();
     auto pCandidateChain = pChainStore->GetCandidateChain();
 
-    // Check if previous header exists and matches previous hash.
-    const uint64_t previousHeight = headers.front()->GetHeight() - 1;
-    const Hash& previousHash = headers.front()->GetPreviousHash();
-    if (!pCandidateChain->IsOnChain(previousHeight, previousHash)) {
-        throw BLOCK_CHAIN_EXCEPTION("Previous header not found on chain.");
+    // Earlier headers of a fork that didn't have enough work yet are stored, but not part of the candidate chain.
+    std::vector<BlockHeaderPtr> forkHeaders;
+    auto pFirst = headers.front();
+    while (!pCandidateChain->IsOnChain(pFirst->GetHeight() - 1, pFirst->GetPreviousHash())) {
+        auto pPrevious = pLockedState->GetBlockDB()->GetBlockHeader(pFirst->GetPreviousHash());
+        if (pPrevious == nullptr || pPrevious->GetHeight() == 0 || pPrevious->GetHeight() != (pFirst->GetHeight() - 1)) {
+            throw BLOCK_CHAIN_EXCEPTION("Previous header not found on chain.");
+        }
+
+        forkHeaders.push_back(pPrevious);
+        pFirst = pPrevious;
     }
+
+    std::vector<BlockHeaderPtr> syncHeaders(forkHeaders.crbegin(), forkHeaders.crend());
+    syncHeaders.insert(syncHeaders.end(), headers.cbegin(), headers.cend());
+    return syncHeaders;
 }
 
 void BlockHeaderProcessor::RewindMMR(Writer<ChainState> pLockedState, const std::vector<BlockHeaderPtr>& headers)
diff --git a/src/BlockChain/Processors/BlockHeaderProcessor.h b/src/BlockChain/Processors/BlockHeaderProcessor.h
index d34c517..48088c5 100644
--- a/src/BlockChain/Processors/BlockHeaderProcessor.h
+++ b/src/BlockChain/Processors/BlockHeaderProcessor.h
@@ -38,7 +38,7 @@ private:
 		const std::vector<BlockHeaderPtr>& headers
 	);
 
-	void PrepareSyncChain(
+	std::vector<BlockHeaderPtr> PrepareSyncChain(
 		Writer<ChainState> pLockedState,
 		const std::vector<BlockHeaderPtr>& headers
 	);
-- 
2.43.0


From e732c6c7999f1c8b472db2e7a1903e4f7da5d08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 48/59] fix: don't request the block at the height of the tip
 of a fork again and again

---
 src/P2P/Sync/BlockSyncer.cpp | 10 +++++++---
 src/P2P/Sync/BlockSyncer.h   |  1 +
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/P2P/Sync/BlockSyncer.cpp b/src/P2P/Sync/BlockSyncer.cpp
index 6338e2e..73d0e99 100644
--- a/src/P2P/Sync/BlockSyncer.cpp
+++ b/src/P2P/Sync/BlockSyncer.cpp
@@ -35,7 +35,10 @@ bool BlockSyncer::IsBlockSyncDue(const SyncStatus& syncStatus)
 
     // Remove downloaded blocks from queue.
     for (size_t i = m_lastHeight; i <= chainHeight; i++) {
-        m_requestedBlocks.erase(i);
+        auto requested_block = m_requestedBlocks.find(i);
+        if (requested_block != m_requestedBlocks.end() && m_pBlockChain->HasBlock(i, requested_block->second.BLOCK_HASH)) {
+            m_requestedBlocks.erase(requested_block);
+        }
     }
 
     m_lastHeight = chainHeight;
@@ -50,7 +53,7 @@ bool BlockSyncer::IsBlockSyncDue(const SyncStatus& syncStatus)
     std::vector<std::pair<uint64_t, Hash>> blocksNeeded = m_pBlockChain->GetBlocksNeeded(15);
     for (auto iter = blocksNeeded.cbegin(); iter != blocksNeeded.cend(); iter++) {
         auto requested_block = m_requestedBlocks.find(iter->first);
-        if (requested_block == m_requestedBlocks.end()) {
+        if (requested_block == m_requestedBlocks.end() || requested_block->second.BLOCK_HASH != iter->second) {
             LOG_TRACE_F("Block {} not requested yet.", iter->first);
             return true;
         }
@@ -106,7 +109,7 @@ bool BlockSyncer::RequestBlocks()
         }
 
         auto iter = m_requestedBlocks.find(blocksNeeded[blockIndex].first);
-        if (iter != m_requestedBlocks.end()) {
+        if (iter != m_requestedBlocks.end() && iter->second.BLOCK_HASH == blocksNeeded[blockIndex].second) {
             if (IsSlowPeer(iter->second.PEER) || iter->second.TIMEOUT < std::chrono::system_clock::now()) {
                 if (!iter->second.PEER->IsBanned()) {
                     if (!iter->second.RETRIED) {
@@ -145,6 +148,7 @@ bool BlockSyncer::RequestBlocks()
         if (m_pConnectionManager.lock()->SendMessageToPeer(getBlockMessage, mostWorkPeers[nextPeer])) {
             RequestedBlock blockRequested;
             blockRequested.BLOCK_HEIGHT = blocksToRequest[i].first;
+            blockRequested.BLOCK_HASH = blocksToRequest[i].second;
             blockRequested.PEER = mostWorkPeers[nextPeer];
             blockRequested.TIMEOUT = std::chrono::system_clock::now() + std::chrono::seconds(10);
             blockRequested.RETRIED = false;
diff --git a/src/P2P/Sync/BlockSyncer.h b/src/P2P/Sync/BlockSyncer.h
index 78a97ef..3342374 100644
--- a/src/P2P/Sync/BlockSyncer.h
+++ b/src/P2P/Sync/BlockSyncer.h
@@ -44,6 +44,7 @@ private:
 	{
 		PeerPtr PEER;
 		uint64_t BLOCK_HEIGHT;
+		Hash BLOCK_HASH;
 		std::chrono::time_point<std::chrono::system_clock> TIMEOUT;
 		bool RETRIED;
 		// TODO: Add retry?
-- 
2.43.0


From a14bba5acf34572987302e514fdd706bab06c9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 49/59] fix: don't request blocks of a fork that are already
 stored

---
 src/BlockChain/ChainState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BlockChain/ChainState.cpp b/src/BlockChain/ChainState.cpp
index c67b313..a892a14 100644
--- a/src/BlockChain/ChainState.cpp
+++ b/src/BlockChain/ChainState.cpp
@@ -206,7 +206,7 @@ std::vector<std::pair<uint64_t, Hash>> ChainState::GetBlocksNeeded(const uint64_
     uint64_t nextHeight = GetChainStore()->FindCommonIndex(EChainType::CANDIDATE, EChainType::CONFIRMED)->GetHeight() + 1;
     while (nextHeight <= candidateHeight) {
         auto pIndex = pCandidateChain->GetByHeight(nextHeight);
-        if (!m_pOrphanPool->IsOrphan(nextHeight, pIndex->GetHash())) {
+        if (!m_pOrphanPool->IsOrphan(nextHeight, pIndex->GetHash()) && GetBlockByHash(pIndex->GetHash()) == nullptr) {
             blocksNeeded.emplace_back(std::pair<uint64_t, Hash>(nextHeight, pIndex->GetHash()));
 
             if (blocksNeeded.size() == maxNumBlocks) {
-- 
2.43.0


From 4c13312aea489a982d0c3f33531a521f5a2b5681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:24 +0000
Subject: [PATCH 50/59] fix: refuse to receive a slate again when any of its
 transactions is not canceled

Only the first transaction with the slate's id was checked, so after a canceled
receive (or when paying yourself) the same slate could be received any number of
times, each time adding an output that is awaited but never comes.
---
 src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp b/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
index 88c6502..6d4d8c5 100644
--- a/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp
@@ -91,10 +91,15 @@ bool ReceiveSlateBuilder::VerifySlateStatus(
 	const SecureVector& masterSeed,
 	const Slate& slate) const
 {
-	// Slate was already received.
-	std::unique_ptr<WalletTx> pWalletTx = pWallet->GetTxBySlateId(masterSeed, slate.GetId());
-	if (pWalletTx != nullptr) {
-		const EWalletTxType status = pWalletTx->GetType();
+	// There may be several transactions for the same slate (eg. a canceled one), so all of them must be checked.
+	std::vector<WalletTx> transactions = pWallet->GetDatabase().Read()->GetTransactions(masterSeed);
+	for (const WalletTx& walletTx : transactions) {
+		if (walletTx.GetSlateId() != std::make_optional(slate.GetId())) {
+			continue;
+		}
+
+		// Slate was already received.
+		const EWalletTxType status = walletTx.GetType();
 		if (status != EWalletTxType::RECEIVED_CANCELED && status != EWalletTxType::SENDING_STARTED) {
 			WALLET_ERROR_F("Already received slate {}", uuids::to_string(slate.GetId()));
 			return false;
-- 
2.43.0


From 1f9b37fd9d4204a8a17e66cab8cc3579a43c01f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:24 +0000
Subject: [PATCH 51/59] fix: only finalize transactions that are neither
 canceled nor finalized already

A canceled transaction could still be finalized, though its inputs were released
and maybe committed to another transaction. Finalizing twice with different
receiver data signed with the same nonce, and made a confirmed transaction
cancelable again.
---
 src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp b/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
index 65e3b6e..cece6f0 100644
--- a/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp
@@ -20,8 +20,9 @@ std::pair<Slate, Transaction> FinalizeSlateBuilder::Finalize(const Slate& rcvSla
 	// Load original send Slate
 	Slate sendSlate = m_pWallet->GetSlate(finalizeSlate.GetId(), ESlateStage::STANDARD_SENT);
 
-	// Load WalletTx
-	WalletTx walletTx = m_pWallet->GetTransactionBySlateId(finalizeSlate.GetId());
+	// Load WalletTx. Only a transaction that's neither canceled nor finalized may be finalized,
+	// since the inputs of a canceled transaction are spendable again, and the nonce must never be used twice.
+	WalletTx walletTx = m_pWallet->GetTransactionBySlateId(finalizeSlate.GetId(), EWalletTxType::SENDING_STARTED);
 
 	// Load private context
 	SlateContextEntity slateContext = m_pWallet->GetSlateContext(finalizeSlate.GetId());
-- 
2.43.0


From 49725f975e977ba746683d03c41636232e076996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:24 +0000
Subject: [PATCH 52/59] fix: never select coins that cannot cover amount and
 fee

The ALL strategy compared the amount with itself plus the fee, the other
strategies accepted amounts for which amount + fee overflows, and sending the
entire balance of a wallet that cannot pay the fee underflowed. Each built a
slate whose change or amount had wrapped around.
---
 src/Wallet/SlateBuilder/CoinSelection.cpp    | 14 ++++++++++----
 src/Wallet/SlateBuilder/SendSlateBuilder.cpp |  6 ++++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/Wallet/SlateBuilder/CoinSelection.cpp b/src/Wallet/SlateBuilder/CoinSelection.cpp
index e1e7774..d63eee5 100644
--- a/src/Wallet/SlateBuilder/CoinSelection.cpp
+++ b/src/Wallet/SlateBuilder/CoinSelection.cpp
@@ -4,6 +4,12 @@
 #include <Wallet/Exceptions/InsufficientFundsException.h>
 #include <Common/Logger.h>
 
+// Avoids the overflow of (amount + fee).
+static bool CoversAmount(const uint64_t amountFound, const uint64_t amount, const uint64_t fee)
+{
+	return amountFound >= fee && (amountFound - fee) >= amount;
+}
+
 // If strategy is "ALL", spend all available coins to reduce the fee.
 std::vector<OutputDataEntity> CoinSelection::SelectCoinsToSpend(
 	const std::vector<OutputDataEntity>& availableCoins, 
@@ -53,7 +59,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingSmallestInputs(
 		selectedCoins.push_back(coin);
 
 		const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)selectedCoins.size(), numOutputs, numKernels);
-		if (amountFound >= (amount + fee))
+		if (CoversAmount(amountFound, amount, fee))
 		{
 			return selectedCoins;
 		}
@@ -81,7 +87,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingFewestInputs(
 		selectedCoins.push_back(coin);
 
 		const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)selectedCoins.size(), numOutputs, numKernels);
-		if (amountFound >= (amount + fee)) {
+		if (CoversAmount(amountFound, amount, fee)) {
 			return selectedCoins;
 		}
 	}
@@ -105,7 +111,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingAllInputs(
 	}
 
 	const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)availableCoins.size(), numOutputs, numKernels);
-	if (amount < amount + fee) {
+	if (CoversAmount(amountFound, amount, fee)) {
 		return availableCoins;
 	}
 
@@ -134,7 +140,7 @@ std::vector<OutputDataEntity> CoinSelection::SelectUsingCustomInputs(
 	}
 
 	const uint64_t fee = FeeUtil::CalculateFee(feeBase, (int64_t)selectedCoins.size(), numOutputs, numKernels);
-	if (amountFound >= (amount + fee))
+	if (CoversAmount(amountFound, amount, fee))
 	{
 		return selectedCoins;
 	}
diff --git a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
index 31d4408..4d25993 100644
--- a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
@@ -66,6 +66,12 @@ Slate SendSlateBuilder::BuildSendSlate(
 		(int64_t)totalNumOutputs,
 		(int64_t)numKernels
 	);
+	if (sendEntireBalance && inputTotal <= fee)
+	{
+		WALLET_ERROR("Not enough funds to pay the fee.");
+		throw InsufficientFundsException();
+	}
+
 	uint64_t amountToSend = sendEntireBalance ? (inputTotal - fee) : amount;
 	if (numChangeOutputs == 0)
 	{
-- 
2.43.0


From 0b28fe3002b68dc7027bdb556ed23f28c032489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:24 +0000
Subject: [PATCH 53/59] fix: recognize the confirmation of sent transactions
 without change

A transaction that sends the entire balance has no output of the sender, so it
stayed finalized (and cancelable) forever, even with thousands of confirmations.
---
 src/Wallet/WalletRefresher.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/Wallet/WalletRefresher.cpp b/src/Wallet/WalletRefresher.cpp
index fa03b1f..11fd650 100644
--- a/src/Wallet/WalletRefresher.cpp
+++ b/src/Wallet/WalletRefresher.cpp
@@ -194,19 +194,27 @@ void WalletRefresher::RefreshTransactions(
     for (WalletTx& walletTx : walletTransactions) {
         const auto& tx = walletTx.GetTransaction();
         if (tx.has_value() && walletTx.GetType() == EWalletTxType::SENDING_FINALIZED) {
+            std::vector<Commitment> commitments;
             for (const TransactionOutput& output : tx.value().GetOutputs()) {
-                auto pOutputData = FindOutput(refreshedOutputs, output.GetCommitment());
-                if (pOutputData != nullptr) {
-                    if (pOutputData->GetStatus() == EOutputStatus::SPENT) {
-                        WALLET_DEBUG_F("Output is spent. Marking transaction as sent: {}", walletTx.GetId());
-
-                        walletTx.SetType(EWalletTxType::SENT);
-                        pBatch->AddTransaction(masterSeed, walletTx);
-                    }
+                commitments.push_back(output.GetCommitment());
+            }
 
+            bool spent = false;
+            for (const Commitment& commitment : commitments) {
+                auto pOutputData = FindOutput(refreshedOutputs, commitment);
+                if (pOutputData != nullptr) {
+                    spent = (pOutputData->GetStatus() == EOutputStatus::SPENT);
                     break;
                 }
             }
+
+            // Without change outputs, the transaction is recognized by the outputs of the receiver.
+            if (spent || !m_pNodeClient->GetOutputsByCommitment(commitments).empty()) {
+                WALLET_DEBUG_F("Output is on chain or spent. Marking transaction as sent: {}", walletTx.GetId());
+
+                walletTx.SetType(EWalletTxType::SENT);
+                pBatch->AddTransaction(masterSeed, walletTx);
+            }
         }
     }
 }
-- 
2.43.0


From 388b643992472520ecab9e86ce60972f38df8bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:17 +0000
Subject: [PATCH 54/59] fix: update the height of outputs that a reorg moved to
 another block

---
 src/Wallet/WalletRefresher.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Wallet/WalletRefresher.cpp b/src/Wallet/WalletRefresher.cpp
index 11fd650..bc2c062 100644
--- a/src/Wallet/WalletRefresher.cpp
+++ b/src/Wallet/WalletRefresher.cpp
@@ -119,12 +119,12 @@ void WalletRefresher::RefreshOutputs(const SecureVector& masterSeed, Writer<IWal
         auto iter = outputLocations.find(outputData.GetCommitment());
         if (iter != outputLocations.cend()) {
             // Output is on chain, so unless it's being spent, then we can mark it as spendable.
-            if (current_status == EOutputStatus::LOCKED) {
-                continue;
-            }
-
-            // If spendable status, it's already up-to-date.
-            if (current_status == EOutputStatus::SPENDABLE) {
+            // If locked or spendable status, it's already up-to-date, unless a reorg moved it to a different block.
+            if (current_status == EOutputStatus::LOCKED || current_status == EOutputStatus::SPENDABLE) {
+                if (outputData.GetBlockHeight() != std::make_optional(iter->second.GetBlockHeight())) {
+                    outputData.SetBlockHeight(iter->second.GetBlockHeight());
+                    pBatch->SaveOutput(masterSeed, outputData);
+                }
                 continue;
             }
 
-- 
2.43.0


From 93ef7c262fe43c00c91e4a1ef8e5548fa9d9acc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:51 +0000
Subject: [PATCH 55/59] fix: keep outputs locked that reappear after a reorg
 while being spent

---
 src/Wallet/WalletRefresher.cpp | 30 ++++++++++++++++++++++++++----
 src/Wallet/WalletRefresher.h   |  3 ++-
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/Wallet/WalletRefresher.cpp b/src/Wallet/WalletRefresher.cpp
index bc2c062..cd4afd2 100644
--- a/src/Wallet/WalletRefresher.cpp
+++ b/src/Wallet/WalletRefresher.cpp
@@ -7,6 +7,7 @@
 #include <Wallet/NodeClient.h>
 #include <Wallet/WalletDB/WalletDB.h>
 #include <unordered_map>
+#include <unordered_set>
 
 // TODO: Rewrite this && use cache - Shouldn't refresh when block height = same
 // 0. Initial login after upgrade - for every output, find matching WalletTx and update OutputDataEntity TxId. If none found, create new WalletTx.
@@ -64,7 +65,7 @@ std::vector<OutputDataEntity> WalletRefresher::Refresh(const SecureVector& maste
     }
 
     // 3. Refresh status for all wallet outputs
-    RefreshOutputs(masterSeed, pBatch, walletOutputs);
+    RefreshOutputs(masterSeed, pBatch, walletOutputs, walletTransactions);
 
     // 4. For all wallet outputs, update matching WalletTx status.
     RefreshTransactions(masterSeed, pBatch, walletOutputs, walletTransactions);
@@ -101,8 +102,26 @@ std::vector<OutputDataEntity> WalletRefresher::FindNewOutputs(
     return new_outputs;
 }
 
-void WalletRefresher::RefreshOutputs(const SecureVector& masterSeed, Writer<IWalletDB> pBatch, std::vector<OutputDataEntity>& walletOutputs)
+void WalletRefresher::RefreshOutputs(
+    const SecureVector& masterSeed,
+    Writer<IWalletDB> pBatch,
+    std::vector<OutputDataEntity>& walletOutputs,
+    const std::vector<WalletTx>& walletTransactions)
 {
+    // Outputs being spent by transactions that are not confirmed yet
+    std::unordered_set<Commitment> reserved;
+    for (const WalletTx& walletTx : walletTransactions) {
+        const EWalletTxType type = walletTx.GetType();
+        if (type == EWalletTxType::SENDING_STARTED || type == EWalletTxType::SENDING_FINALIZED) {
+            const auto& tx = walletTx.GetTransaction();
+            if (tx.has_value()) {
+                for (const TransactionInput& input : tx.value().GetInputs()) {
+                    reserved.insert(input.GetCommitment());
+                }
+            }
+        }
+    }
+
     std::vector<Commitment> commitments;
     std::transform(
         walletOutputs.begin(), walletOutputs.end(),
@@ -128,9 +147,12 @@ void WalletRefresher::RefreshOutputs(const SecureVector& masterSeed, Writer<IWal
                 continue;
             }
 
-            WALLET_DEBUG_F("Marking output as spendable: {}", outputData);
+            // An output that was removed by a reorg, and is on chain again, is still being spent.
+            const bool lock = current_status == EOutputStatus::SPENT && reserved.count(outputData.GetCommitment()) > 0;
+
+            WALLET_DEBUG_F("Marking output as {}: {}", (lock ? "locked" : "spendable"), outputData);
             outputData.SetBlockHeight(iter->second.GetBlockHeight());
-            outputData.SetStatus(EOutputStatus::SPENDABLE);
+            outputData.SetStatus(lock ? EOutputStatus::LOCKED : EOutputStatus::SPENDABLE);
             pBatch->SaveOutput(masterSeed, outputData);
         } else {
             // NO_CONFIRMATIONS means the output is being received, but hasn't been seen on chain yet.
diff --git a/src/Wallet/WalletRefresher.h b/src/Wallet/WalletRefresher.h
index 6cb8825..2f37a55 100644
--- a/src/Wallet/WalletRefresher.h
+++ b/src/Wallet/WalletRefresher.h
@@ -37,7 +37,8 @@ private:
 	void RefreshOutputs(
 		const SecureVector& masterSeed,
 		Writer<IWalletDB> pBatch,
-		std::vector<OutputDataEntity>& walletOutputs
+		std::vector<OutputDataEntity>& walletOutputs,
+		const std::vector<WalletTx>& walletTransactions
 	);
 
 	void RefreshTransactions(
-- 
2.43.0


From 0cfbc921c5f38ac5d4c499a69f8a877c571c9e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:48 +0000
Subject: [PATCH 56/59] fix: count all change outputs when calculating the fee

---
 src/Wallet/SlateBuilder/SendSlateBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
index 4d25993..42b8a82 100644
--- a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
@@ -32,7 +32,7 @@ Slate SendSlateBuilder::BuildSendSlate(
 	const std::vector<SlatepackAddress>& recipients) const
 {
 	const uint8_t numChangeOutputs = sendEntireBalance ? 0 : maxChangeOutputs;
-	const uint8_t totalNumOutputs = 1 + numChangeOutputs;
+	const int64_t totalNumOutputs = 1 + (int64_t)numChangeOutputs;
 	const uint64_t numKernels = 1;
 
 	// Select inputs using desired selection strategy.
@@ -63,7 +63,7 @@ Slate SendSlateBuilder::BuildSendSlate(
 	uint64_t fee = FeeUtil::CalculateFee(
 		feeBase,
 		(int64_t)inputs.size(),
-		(int64_t)totalNumOutputs,
+		totalNumOutputs,
 		(int64_t)numKernels
 	);
 	if (sendEntireBalance && inputTotal <= fee)
-- 
2.43.0


From ce42df6a3dbfded159a022ce4b9f64ab7fd0550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:48 +0000
Subject: [PATCH 57/59] fix: refuse fees that do not fit into a kernel

---
 include/Core/Models/Fee.h                    |  3 +++
 include/Core/Util/FeeUtil.h                  | 10 +++++++++-
 src/Wallet/SlateBuilder/SendSlateBuilder.cpp |  7 +++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/Core/Models/Fee.h b/include/Core/Models/Fee.h
index 4c0e386..198239a 100644
--- a/include/Core/Models/Fee.h
+++ b/include/Core/Models/Fee.h
@@ -9,6 +9,9 @@
 class Fee : public Traits::ISerializable
 {
 public:
+	// 40 bits
+	static constexpr uint64_t MAX_FEE = 0xFFFFFFFFFF;
+
 	//
 	// Constructors
 	//
diff --git a/include/Core/Util/FeeUtil.h b/include/Core/Util/FeeUtil.h
index 0c560fc..8ef9eeb 100644
--- a/include/Core/Util/FeeUtil.h
+++ b/include/Core/Util/FeeUtil.h
@@ -1,12 +1,20 @@
 #pragma once
 
 #include <Consensus.h>
+#include <limits>
 
 class FeeUtil
 {
 public:
 	static uint64_t CalculateFee(const uint64_t feeBase, const int64_t numInputs, const int64_t numOutputs, const int64_t numKernels)
 	{
-		return feeBase * Consensus::CalculateWeightV5(numInputs, numOutputs, numKernels);
+		const uint64_t weight = Consensus::CalculateWeightV5(numInputs, numOutputs, numKernels);
+		if (weight != 0 && feeBase > (std::numeric_limits<uint64_t>::max)() / weight)
+		{
+			// Avoids wrap-around. No amount of coins covers this.
+			return (std::numeric_limits<uint64_t>::max)();
+		}
+
+		return feeBase * weight;
 	}
 };
\ No newline at end of file
diff --git a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
index 42b8a82..fe25591 100644
--- a/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
+++ b/src/Wallet/SlateBuilder/SendSlateBuilder.cpp
@@ -79,6 +79,13 @@ Slate SendSlateBuilder::BuildSendSlate(
 		fee = inputTotal - amountToSend;
 	}
 
+	// Kernels only have 40 bits for the fee.
+	if (fee > Fee::MAX_FEE)
+	{
+		WALLET_ERROR_F("Fee of {} is too large.", fee);
+		throw WALLET_EXCEPTION("Fee is too large.");
+	}
+
 	return Build(
 		pWallet.GetShared(),
 		masterSeed,
-- 
2.43.0


From dec8e2bc12ecf2af21394cd6866d88e11918eb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:48 +0000
Subject: [PATCH 58/59] fix: estimate the fee for the coins and outputs that
 would be used

---
 src/Wallet/Wallet.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/Wallet/Wallet.cpp b/src/Wallet/Wallet.cpp
index 377d213..c31c0b1 100644
--- a/src/Wallet/Wallet.cpp
+++ b/src/Wallet/Wallet.cpp
@@ -169,14 +169,19 @@ std::optional<TorAddress> Wallet::AddTorListener(const KeyChainPath& path, const
 FeeEstimateDTO Wallet::EstimateFee(const EstimateFeeCriteria& criteria) const
 {
 	// Select inputs using desired selection strategy.
-	const uint8_t totalNumOutputs = criteria.GetNumChangeOutputs() + 1;
+	const uint8_t numChangeOutputs = criteria.SendEntireBalance() ? 0 : criteria.GetNumChangeOutputs();
+	const int64_t totalNumOutputs = 1 + (int64_t)numChangeOutputs;
 	const uint64_t numKernels = 1;
 	std::vector<OutputDataEntity> all_outputs = m_walletDB.Read()->GetOutputs(m_master_seed);
+	const uint64_t current_height = m_walletDB.Read()->GetRefreshBlockHeight();
     std::vector<OutputDataEntity> available_coins;
     std::copy_if(
         all_outputs.cbegin(), all_outputs.cend(),
         std::back_inserter(available_coins),
-        [](const OutputDataEntity& output_data) { return output_data.GetStatus() == EOutputStatus::SPENDABLE; }
+        [current_height](const OutputDataEntity& output_data) {
+			return output_data.GetStatus() == EOutputStatus::SPENDABLE
+				&& !WalletUtil::IsOutputImmature(output_data.GetFeatures(), output_data.GetBlockHeight().value_or(0), current_height);
+		}
     );
 
 	std::vector<OutputDataEntity> inputs = available_coins;
@@ -194,10 +199,10 @@ FeeEstimateDTO Wallet::EstimateFee(const EstimateFeeCriteria& criteria) const
 	}
 
 	// Calculate the fee
-	const uint64_t fee = FeeUtil::CalculateFee(
+	uint64_t fee = FeeUtil::CalculateFee(
 		criteria.GetFeeBase(),
 		(int64_t)inputs.size(),
-		(int64_t)totalNumOutputs,
+		totalNumOutputs,
 		(int64_t)numKernels
 	);
 
@@ -215,11 +220,17 @@ FeeEstimateDTO Wallet::EstimateFee(const EstimateFeeCriteria& criteria) const
 			[](const uint64_t total, const OutputDataEntity& coin) { return total + coin.GetAmount(); }
 		);
 
-		if (total_amount < fee) {
+		if (total_amount <= fee) {
 			throw InsufficientFundsException();
 		}
 
 		amount = total_amount - fee;
+	} else if (numChangeOutputs == 0) {
+		// Without change, everything that is left is paid as fee.
+		fee = std::accumulate(
+			inputs.cbegin(), inputs.cend(), (uint64_t)0,
+			[](const uint64_t total, const OutputDataEntity& coin) { return total + coin.GetAmount(); }
+		) - amount;
 	}
 
 	return FeeEstimateDTO(amount, fee, std::move(inputDTOs));
-- 
2.43.0


From 591df22d011f77647289363b116c60a971114192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:24 +0000
Subject: [PATCH 59/59] fix: don't let the receiver of a slate change the
 features of inputs

---
 src/Wallet/Models/Slate/Slate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/Models/Slate/Slate.cpp b/src/Wallet/Models/Slate/Slate.cpp
index 1e3ecb0..53479ce 100644
--- a/src/Wallet/Models/Slate/Slate.cpp
+++ b/src/Wallet/Models/Slate/Slate.cpp
@@ -88,9 +88,10 @@ std::vector<TransactionOutput> Slate::GetOutputs() const noexcept
 
 void Slate::AddInput(const EOutputFeatures features, const Commitment& commitment)
 {
-	for (const auto& com : commitments)
+	for (auto& com : commitments)
 	{
 		if (com.commitment == commitment) {
+			com.features = features;
 			return;
 		}
 	}
-- 
2.43.0

