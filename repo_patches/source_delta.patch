From 487208b826005c926c17228bf04e9b8b69a65b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:36 +0000
Subject: [PATCH 01/50] fix: initialise the memory storage block info index and
 genesis info hash

---
 cryptonote/storage_memory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index d0cdd84..4c01499 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -34,6 +34,7 @@ func NewMemoryStorage() Storage {
 	return &memoryStorage{
 		blockIndex:                            map[uint32]*Block{},
 		blockInfosIndex:                       map[uint32]*blockInfo{},
+		blockInfosHashIndex:                   map[crypto.Hash]*blockInfo{},
 		transactionsIndex:                     map[uint32]*[]Transaction{},
 		spentKeysImagesIndex:                  map[uint32]*[]crypto.KeyImage{},
 		spentMultisignatureGlobalIndexesIndex: map[uint32]*[]MultisigAmountGlobalOutputIndexPair{},
@@ -43,6 +44,7 @@ func NewMemoryStorage() Storage {
 func (s *memoryStorage) Init(genesisBlock *Block) error {
 	info := blockInfo{
 		Index:                0,
+		Hash:                 *genesisBlock.Hash(),
 		CumulativeDifficulty: 1,
 		Size:                 genesisBlock.BaseTransaction.Size(),
 		TotalGeneratedCoins:  genesisBlock.BaseTransaction.Outputs[0].Amount,
-- 
2.43.0


From 204278bed6790de7b4b9764c4256f29b7a40378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:43 +0000
Subject: [PATCH 02/50] fix: release the read lock in memory storage TopIndex

---
 cryptonote/storage_memory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index 4c01499..3a444c1 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -57,7 +57,7 @@ func (s *memoryStorage) Init(genesisBlock *Block) error {
 func (s *memoryStorage) TopIndex() (uint32, error) {
 	s.RLock()
 	index := s.topBlock.Index()
-	s.Unlock()
+	s.RUnlock()
 	return index, nil
 }
 
-- 
2.43.0


From 44bcf45ebc84b0e756d7af0bd1c15f4fe00398b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:50 +0000
Subject: [PATCH 03/50] fix: read the whole window of ancestor sizes and
 cumulative difficulties

---
 cryptonote/chain.go      | 1 -
 cryptonote/difficulty.go | 1 -
 2 files changed, 2 deletions(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index b156932..4783118 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -600,7 +600,6 @@ func (bc *BlockChain) lastBLockSizes(count uint32, index uint32) []uint64 {
 
 		sizes = append(sizes, tempInfo.Size)
 		tempInfo = bc.storage.getBlockInfoAtIndex(index - i)
-		count--
 	}
 
 	return utils.SliceReverse(sizes)
diff --git a/cryptonote/difficulty.go b/cryptonote/difficulty.go
index d4d5355..ee1690c 100644
--- a/cryptonote/difficulty.go
+++ b/cryptonote/difficulty.go
@@ -36,7 +36,6 @@ func (bc *BlockChain) lastBlocksCumulativeDifficulties(count uint32, index uint3
 
 		difficulties = append(difficulties, tempInfo.CumulativeDifficulty)
 		tempInfo = bc.storage.getBlockInfoAtIndex(index - i)
-		count--
 	}
 
 	return utils.SliceReverse(difficulties)
-- 
2.43.0


From d310142abc49ed6b90af725af63746204d574b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:56 +0000
Subject: [PATCH 04/50] fix: take the median timestamp over the ancestors of
 the new block

---
 cryptonote/chain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 4783118..9e686f4 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -380,7 +380,7 @@ func (bc *BlockChain) validateBlock(blogger *log.Entry, block *Block, prevBlock
 	}
 
 	timestampCheckWindow := bc.Network.BlockTimestampCheckWindow(block.MajorVersion)
-	lastTimestamps := bc.lastBlocksTimestamps(timestampCheckWindow, block, true)
+	lastTimestamps := bc.lastBlocksTimestamps(timestampCheckWindow, prevBlock, true)
 	if uint32(len(lastTimestamps)) >= timestampCheckWindow {
 		if block.Timestamp < utils.MedianSlice(lastTimestamps) {
 			err := ErrBlockValidationTimestampTooFarInPast
-- 
2.43.0


From 905214ae56f07f8120a33c6add0bd794b721350e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 05/50] fix: pick the highest activated block major version

---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index fd0825f..a050afd 100644
--- a/config/network.go
+++ b/config/network.go
@@ -148,7 +148,7 @@ func (n *Network) GetBlockMajorVersion(blockIndex uint32) byte {
 	version := BlockMajorVersion1
 
 	for majorVersion, upgradeHeight := range n.blockUpgradesMap {
-		if blockIndex > upgradeHeight {
+		if blockIndex > upgradeHeight && majorVersion > version {
 			version = majorVersion
 		}
 	}
-- 
2.43.0


From e3ec76a4d85327b12f4af48f7740fb7d8ce78325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 06/50] fix: encode and decode the whole header of version 5
 blocks

---
 cryptonote/block.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 032779d..d846dd3 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -240,7 +240,7 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 		if err := prev.Read(reader); err != nil {
 			return err
 		}
-	case config.BlockMajorVersion1, config.BlockMajorVersion4:
+	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
 		ts, err = binary.ReadUvarint(reader)
 		if err != nil {
 			return err
@@ -285,7 +285,7 @@ func (h *BlockHeader) serialize() []byte {
 	switch h.MajorVersion {
 	case config.BlockMajorVersion2, config.BlockMajorVersion3:
 		serialized.Write(h.PreviousBlockHash[:])
-	case config.BlockMajorVersion1, config.BlockMajorVersion4:
+	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
 		written = binary.PutUvarint(buf, h.Timestamp)
 		serialized.Write(buf[:written])
 		serialized.Write(h.PreviousBlockHash[:])
-- 
2.43.0


From 6c52c8fdb3ba94f32fed473d1d9f3e1f6da3769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:16 +0000
Subject: [PATCH 07/50] fix: count the ring size of key inputs when checking
 the mixin

---
 cryptonote/transaction_validator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index f71626e..c5f0a5b 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -569,11 +569,12 @@ func (validator *blockTransactionsValidator) IsFusionTransaction(transaction *Tr
 func countMixin(transaction *Transaction) int {
 	mixin := 0
 	for _, input := range transaction.Inputs {
-		if _, ok := input.(InputKey); ok {
+		inputKey, ok := input.(InputKey)
+		if !ok {
 			continue
 		}
 
-		curMixin := len(input.(InputKey).OutputIndexes)
+		curMixin := len(inputKey.OutputIndexes)
 		if curMixin > mixin {
 			mixin = curMixin
 		}
-- 
2.43.0


From c128ed0029f3d9c9837eac029b38a5031d6346f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 08/50] fix: reject ring members referenced twice through a
 zero offset

---
 cryptonote/transaction_validator.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index c5f0a5b..0ff2705 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"github.com/r3volut1oner/go-karbo/config"
 	"github.com/r3volut1oner/go-karbo/crypto"
-	"github.com/r3volut1oner/go-karbo/utils"
 	log "github.com/sirupsen/logrus"
 	"math"
 )
@@ -155,10 +154,12 @@ func (validator *blockTransactionsValidator) validateInputs(transaction *Transac
 				}
 			}
 
-			if !utils.SliceIsUniqueUint32(&input.OutputIndexes) {
-				err := ErrTransactionInputIdenticalOutputIndexes
-				logger.Error(err)
-				return 0, err
+			for _, offset := range input.OutputIndexes[1:] {
+				if offset == 0 {
+					err := ErrTransactionInputIdenticalOutputIndexes
+					logger.Error(err)
+					return 0, err
+				}
 			}
 
 			if _, ok := validator.spentKeyImages[input.KeyImage]; ok {
-- 
2.43.0


From 1bed4962cdaceb5cc42d84a4cd013ae68f1f732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:29 +0000
Subject: [PATCH 09/50] fix: do not lock the checkpoints twice in
 AlternativeBlockAllowed

---
 config/checkpoints.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/config/checkpoints.go b/config/checkpoints.go
index 5d336cd..757b4d9 100644
--- a/config/checkpoints.go
+++ b/config/checkpoints.go
@@ -76,6 +76,11 @@ func (cp *checkpoints) IsInCheckpointZone(index uint32) bool {
 	cp.Lock()
 	defer cp.Unlock()
 
+	return cp.isInCheckpointZone(index)
+}
+
+// isInCheckpointZone is NOT safe for concurrent access
+func (cp *checkpoints) isInCheckpointZone(index uint32) bool {
 	// No checkpoints added
 	if len(cp.pointsSorted) == 0 {
 		return false
@@ -120,7 +125,7 @@ func (cp *checkpoints) AlternativeBlockAllowed(bcSize uint32, index uint32) erro
 	}
 
 	uw := MinedMoneyUnlockWindow
-	if index < bcSize-uw && bcSize > uw && !cp.IsInCheckpointZone(index) {
+	if index < bcSize-uw && bcSize > uw && !cp.isInCheckpointZone(index) {
 		err := ErrCheckpointsTooDeepReorg
 		logger.Error(err)
 		return err
-- 
2.43.0


From 6cf80c7d6358e1f3a935c7db14b2fa53fdc90b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 10/50] fix: keep transaction signatures aligned with the
 inputs

---
 cryptonote/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 8979ab7..f81ca5f 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -380,7 +380,7 @@ func (ts *TransactionSignatures) deserialize(br *bytes.Reader, t *Transaction) e
 			return errors.New("unexpected signatures")
 		}
 
-		if sigSize == 0 {
+		if signaturesNotExpected {
 			continue
 		}
 
-- 
2.43.0


From 8c17b76cd69e65896f4bdceb2c14c583df9ea6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 11/50] fix: bound decoded transaction counts by the available
 bytes

---
 cryptonote/transaction.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index f81ca5f..a98d67f 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"io"
 )
 
 const (
@@ -231,10 +232,13 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	 * Read transaction Inputs
 	 */
 	inputsLen, err := binary.ReadUvarint(br)
-	tp.Inputs = make([]TransactionInput, inputsLen)
 	if err != nil {
 		return err
 	}
+	if inputsLen > uint64(br.Len()) {
+		return io.ErrUnexpectedEOF
+	}
+	tp.Inputs = make([]TransactionInput, inputsLen)
 
 	for inputIndex := uint64(0); inputIndex < inputsLen; inputIndex++ {
 		var tag byte
@@ -294,10 +298,13 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	 * Read transaction Output
 	 */
 	outputLen, err := binary.ReadUvarint(br)
-	tp.Outputs = make([]TransactionOutput, outputLen)
 	if err != nil {
 		return err
 	}
+	if outputLen > uint64(br.Len()) {
+		return io.ErrUnexpectedEOF
+	}
+	tp.Outputs = make([]TransactionOutput, outputLen)
 
 	for outputIndex := uint64(0); outputIndex < outputLen; outputIndex++ {
 		amount, err := binary.ReadUvarint(br)
@@ -337,6 +344,9 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 		return err
 	}
 
+	if extraLen > uint64(br.Len()) {
+		return io.ErrUnexpectedEOF
+	}
 	tp.Extra = make([]byte, extraLen)
 	if err := binary.Read(br, binary.LittleEndian, &tp.Extra); err != nil {
 		return err
-- 
2.43.0


From a759738beaf1feb2a7ee78865408c4ce3a252d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:16 +0000
Subject: [PATCH 12/50] fix: report malformed block and parent block headers

---
 cryptonote/block.go        | 4 ++--
 cryptonote/block_parent.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index d846dd3..3ac3faa 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -227,12 +227,12 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 
 	majorVersion, err := binary.ReadUvarint(reader)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	minorVersion, err := binary.ReadUvarint(reader)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	switch uint8(majorVersion) {
diff --git a/cryptonote/block_parent.go b/cryptonote/block_parent.go
index 656e72b..e07a75c 100644
--- a/cryptonote/block_parent.go
+++ b/cryptonote/block_parent.go
@@ -68,17 +68,17 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 
 	majorVersion, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	minorVersion, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	timestamp, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	if err := prev.Read(r); err != nil {
-- 
2.43.0


From 2d3d1439daf02999af03c1d405022d472748baca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:22 +0000
Subject: [PATCH 13/50] fix: reject extra nonces whose size does not fit an int

---
 cryptonote/transaction_extra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/transaction_extra.go b/cryptonote/transaction_extra.go
index 3892d72..4200949 100644
--- a/cryptonote/transaction_extra.go
+++ b/cryptonote/transaction_extra.go
@@ -86,7 +86,7 @@ func TxExtraFromBytes(b []byte) (*TransactionExtraFields, error) {
 			if err != nil {
 				return nil, err
 			}
-			if int(size) > TxExtraNonceMax {
+			if size > uint64(TxExtraNonceMax) {
 				return nil, ErrNonceMax
 			}
 
-- 
2.43.0


From 3db896a854269d42dde07402cd2a9bafd5da360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:29 +0000
Subject: [PATCH 14/50] fix: restore timestamp and nonce of merge mined blocks
 from the parent block

---
 cryptonote/block.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 3ac3faa..57d669a 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -138,7 +138,10 @@ func (b *Block) Deserialize(r *bytes.Reader) error {
 			return err
 		}
 
+		// Merge mined block headers carry neither the timestamp nor the nonce, they are taken from the parent block.
 		b.Parent = parentBlock
+		b.Timestamp = parentBlock.Timestamp
+		b.Nonce = parentBlock.Nonce
 	}
 
 	if err := b.BaseTransaction.Deserialize(r); err != nil {
-- 
2.43.0


From 75a4a670fc52fbda11006585ec16f66c4a716d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:36 +0000
Subject: [PATCH 15/50] fix: compare the whole coinbase unlock height

---
 cryptonote/chain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 9e686f4..62cdad8 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -408,7 +408,7 @@ func (bc *BlockChain) validateBlock(blogger *log.Entry, block *Block, prevBlock
 		return 0, err
 	}
 
-	if uint32(block.BaseTransaction.UnlockHeight) != prevBlockIndex+1+bc.Network.MinedMoneyUnlockWindow() {
+	if block.BaseTransaction.UnlockHeight != uint64(prevBlockIndex+1+bc.Network.MinedMoneyUnlockWindow()) {
 		err := ErrTransactionWrongUnlockTime
 		blogger.Error(err)
 		return 0, err
-- 
2.43.0


From 640d6e5b7a0ca5d6614943edfb26a376e52250d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:43 +0000
Subject: [PATCH 16/50] fix: reject transaction bodies that are not canonically
 encoded

---
 cryptonote/chain.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 62cdad8..b273218 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -560,6 +560,13 @@ func (bc *BlockChain) deserializeTransactions(blogger *log.Entry, rt [][]byte) (
 			return nil, 0, ErrAddBlockTransactionDeserialization
 		}
 
+		// The transaction hash doesn't cover bytes lost on decoding, but the block size does.
+		if !bytes.Equal(transactions[i].Serialize(), rt[i]) {
+			err := ErrAddBlockTransactionDeserialization
+			tsLogger.Error(err)
+			return nil, 0, err
+		}
+
 		transactionsSize += tsSize
 	}
 
-- 
2.43.0


From 832c954fb0bdfc0b9d9a62b30f0f23e5300a29d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 17/50] fix: charge the extra field per byte

---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index a050afd..5e55b10 100644
--- a/config/network.go
+++ b/config/network.go
@@ -273,7 +273,7 @@ func (n *Network) MinimalFeeValidator(height uint32) uint64 {
 
 func (n *Network) GetFeePerByte(txExtraSize uint64, minFee uint64) uint64 {
 	if txExtraSize > 100 {
-		return minFee / (100 * (txExtraSize - 100))
+		return minFee / 100 * (txExtraSize - 100)
 	}
 
 	return 0
-- 
2.43.0


From 1ba809661b1b75fcf176c11020152daaf6fbe2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:57 +0000
Subject: [PATCH 18/50] fix: a day has 24 hours

---
 config/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/params.go b/config/params.go
index 519af10..f8477d2 100644
--- a/config/params.go
+++ b/config/params.go
@@ -67,7 +67,7 @@ const (
 	MaxExtraSize = 1024
 
 	difficultyTarget             = 240
-	expectedNumberOfBlocksPerDay = (25 * 60 * 60) / difficultyTarget
+	expectedNumberOfBlocksPerDay = (24 * 60 * 60) / difficultyTarget
 
 	difficultyWindow  = expectedNumberOfBlocksPerDay
 	difficultyWindow2 = 17
-- 
2.43.0


From 93332ac5ab78938c3c4f393d8e003f033d52c697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 19/50] fix: compare the outputs of fusion transactions with
 the expected decomposition

---
 cryptonote/transaction_validator.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index 0ff2705..252cbbc 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -6,6 +6,7 @@ import (
 	"github.com/r3volut1oner/go-karbo/crypto"
 	log "github.com/sirupsen/logrus"
 	"math"
+	"sort"
 )
 
 type blockTransactionsValidator struct {
@@ -548,12 +549,17 @@ func (validator *blockTransactionsValidator) IsFusionTransaction(transaction *Tr
 	}
 
 	expectedOutputsAmount := validator.bc.DecomposeAmount(inputAmount, dustThreshold)
-	// Why do we need sorting here?
-	//sort.Slice(expectedOutputsAmount, func(i, j int) bool {
-	//	return expectedOutputsAmount[i] < expectedOutputsAmount[j]
-	//})
+	// The dust is decomposed last, but the outputs are expected to be ordered by amount.
+	sort.Slice(expectedOutputsAmount, func(i, j int) bool {
+		return expectedOutputsAmount[i] < expectedOutputsAmount[j]
+	})
+
+	isDecomposed := len(expectedOutputsAmount) == len(outputsAmounts)
+	for i := 0; isDecomposed && i < len(outputsAmounts); i++ {
+		isDecomposed = expectedOutputsAmount[i] == outputsAmounts[i]
+	}
 
-	if len(expectedOutputsAmount) != len(outputsAmounts) {
+	if !isDecomposed {
 		logger := validator.logger.WithFields(log.Fields{
 			"expected_outputs_amount_len": len(expectedOutputsAmount),
 			"input_amounts_len":           len(outputsAmounts),
-- 
2.43.0


From 402dc495f7983b38e941626b7b99a4fad0327fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:33 +0000
Subject: [PATCH 20/50] fix: report the chain height and build the sparse chain
 from the top index

---
 cryptonote/chain.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index b273218..39c0de9 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -81,8 +81,7 @@ func (bc *BlockChain) Init() error {
 
 // Height returns current blockchain height
 func (bc *BlockChain) Height() uint32 {
-	// TODO: Implement
-	return 0
+	return bc.TopBlock().Index() + 1
 }
 
 // TopBlock returns current best block
@@ -318,9 +317,9 @@ func (bc *BlockChain) BuildSparseChain() ([]crypto.Hash, error) {
 
 	list = append(list, *topHash)
 
-	height := bc.Height()
-	for i := uint32(1); i < height; i *= 2 {
-		hash, err := bc.storage.HashAtIndex(height - i)
+	topIndex := topBlock.Index()
+	for i := uint32(1); i < topIndex; i *= 2 {
+		hash, err := bc.storage.HashAtIndex(topIndex - i)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From eefcb52b7b23b400f0b5f91c7501303ae318304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:39 +0000
Subject: [PATCH 21/50] fix: refuse to confirm a transaction twice

---
 cryptonote/chain.go          |  3 +--
 cryptonote/storage.go        |  3 +++
 cryptonote/storage_memory.go | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 39c0de9..e84c426 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -659,9 +659,8 @@ func (bc *BlockChain) ExtractKeyOutputKeys(amount uint64, height uint32, globalI
 }
 
 // hasTransaction check if transaction is stored in blockchain already
-// TODO: Implement
 func (bc *BlockChain) hasTransaction(txHash *crypto.Hash) bool {
-	return false
+	return bc.storage.haveTransaction(txHash)
 }
 
 // IsMultiSignatureOutputExists check if multisig output exists
diff --git a/cryptonote/storage.go b/cryptonote/storage.go
index 5749025..9180fc7 100644
--- a/cryptonote/storage.go
+++ b/cryptonote/storage.go
@@ -64,6 +64,9 @@ type Storage interface {
 
 	// getBlockInfoAtIndex return block info at specified index
 	getBlockInfoAtIndex(index uint32) *blockInfo
+
+	// haveTransaction verifies that transaction is confirmed by one of the saved blocks
+	haveTransaction(*crypto.Hash) bool
 }
 
 type MultisigAmountGlobalOutputIndexPair struct {
diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index 3a444c1..b96d565 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -21,6 +21,9 @@ type memoryStorage struct {
 
 	transactionsIndex map[uint32]*[]Transaction
 
+	// transactionsHashIndex keeps hashes of all the confirmed transactions
+	transactionsHashIndex map[crypto.Hash]bool
+
 	spentKeysImagesIndex map[uint32]*[]crypto.KeyImage
 
 	spentMultisignatureGlobalIndexesIndex map[uint32]*[]MultisigAmountGlobalOutputIndexPair
@@ -36,6 +39,7 @@ func NewMemoryStorage() Storage {
 		blockInfosIndex:                       map[uint32]*blockInfo{},
 		blockInfosHashIndex:                   map[crypto.Hash]*blockInfo{},
 		transactionsIndex:                     map[uint32]*[]Transaction{},
+		transactionsHashIndex:                 map[crypto.Hash]bool{},
 		spentKeysImagesIndex:                  map[uint32]*[]crypto.KeyImage{},
 		spentMultisignatureGlobalIndexesIndex: map[uint32]*[]MultisigAmountGlobalOutputIndexPair{},
 	}
@@ -100,6 +104,9 @@ func (s *memoryStorage) appendBlock(block *Block, info *blockInfo, details Trans
 	s.blockInfosHashIndex[*hash] = info
 
 	s.transactionsIndex[index] = &details.transactions
+	for _, txHash := range block.TransactionsHashes {
+		s.transactionsHashIndex[txHash] = true
+	}
 	s.spentKeysImagesIndex[index] = &details.spentKeyImages
 	s.spentMultisignatureGlobalIndexesIndex[index] = &details.spentMultisignatureGlobalIndexes
 
@@ -155,6 +162,13 @@ func (s *memoryStorage) getBlockInfoAtIndex(index uint32) *blockInfo {
 	return info
 }
 
+func (s *memoryStorage) haveTransaction(hash *crypto.Hash) bool {
+	s.RLock()
+	have := s.transactionsHashIndex[*hash]
+	s.RUnlock()
+	return have
+}
+
 func (s *memoryStorage) Close() error {
 	return nil
 }
-- 
2.43.0


From c83c9348eb12a99a27f4cc5a705f6073c5581430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 22/50] fix: weight every solve time in the version 3
 difficulty

---
 config/network.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/config/network.go b/config/network.go
index 5e55b10..d67a020 100644
--- a/config/network.go
+++ b/config/network.go
@@ -517,8 +517,8 @@ func (n *Network) nextDifficultyV3(timestamps []uint64, cumulativeDifficulties [
 	}
 
 	if len(timestamps) > N+1 {
-		timestamps = timestamps[N-1:]
-		cumulativeDifficulties = cumulativeDifficulties[N-1:]
+		timestamps = timestamps[:N+1]
+		cumulativeDifficulties = cumulativeDifficulties[:N+1]
 	}
 
 	// To get an average solvetime to within +/- ~0.1%, use an adjustment factor.
@@ -538,7 +538,7 @@ func (n *Network) nextDifficultyV3(timestamps []uint64, cumulativeDifficulties [
 		solveTime = int64(timestamps[i]) - int64(timestamps[i-1])
 		solveTime = utils.MinInt64(T*7, utils.MaxInt64(solveTime, -6*T))
 		difficulty = int64(cumulativeDifficulties[i]) - int64(cumulativeDifficulties[i-1])
-		LWMA += float64(solveTime*1) / k
+		LWMA += float64(solveTime*int64(i)) / k
 		sumInverseD += 1 / float64(difficulty)
 	}
 
-- 
2.43.0


From 621a6d3ca1761cae15e7310160f6f3808e43aad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 23/50] fix: divide by the weighted solve time in the version 4
 difficulty

---
 config/network.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index d67a020..aabb5a9 100644
--- a/config/network.go
+++ b/config/network.go
@@ -475,7 +475,12 @@ func (n *Network) nextDifficultyV4(height uint32, timestamps []uint64, cumulativ
 		}
 	}
 
-	nextD := int64(cumulativeDifficulties[N]-cumulativeDifficulties[0]) * T * (N * 1) / 2 * L
+	// Out of sequence timestamps can cancel each other
+	if L == 0 {
+		L = 1
+	}
+
+	nextD := int64(cumulativeDifficulties[N]-cumulativeDifficulties[0]) * T * (N + 1) / (2 * L)
 	nextD = (nextD * 99) / 100
 
 	prevD := int64(cumulativeDifficulties[N] - cumulativeDifficulties[N-1])
-- 
2.43.0


From ffbdea79a6e1e78c636fa76bb5a78b415a1847c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:57 +0000
Subject: [PATCH 24/50] fix: average the whole work of the window in the
 version 5 difficulty

---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index aabb5a9..2411bfe 100644
--- a/config/network.go
+++ b/config/network.go
@@ -395,7 +395,7 @@ func (n *Network) nextDifficultyV5(height uint32, majorVersion byte, timestamps
 	}
 
 	nextD := int64(0)
-	avgD := int64(cumulativeDifficulties[N]) - int64(cumulativeDifficulties[0])/N
+	avgD := (int64(cumulativeDifficulties[N]) - int64(cumulativeDifficulties[0])) / N
 
 	// Prevent round off error for small D and overflow for large D.
 	if avgD > 2000000*N*N*T {
-- 
2.43.0


From 80b55aeb90ef6637c34eec3b0c84cfce27672b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:33 +0000
Subject: [PATCH 25/50] fix: accept handshake responses of peers newer than the
 minimum version

---
 p2p/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 0bc6843..cf31084 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -149,7 +149,7 @@ func (p *Peer) handshake(n *Node) (*HandshakeResponse, error) {
 		return nil, errors.New("wrong network id received")
 	}
 
-	if n.Config.Network.P2PMinimumVersion < res.NodeData.Version {
+	if res.NodeData.Version < n.Config.Network.P2PMinimumVersion {
 		return nil, errors.New("node data version not match minimal")
 	}
 
-- 
2.43.0


From e22fe8f9a5a2a8603ac35b5a0da919f6d8da0e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:40 +0000
Subject: [PATCH 26/50] fix: do not handle a connection that failed to be
 accepted

---
 p2p/node.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/node.go b/p2p/node.go
index 049bae6..19a03a1 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -109,6 +109,7 @@ func (n *Node) runListener() {
 					continue
 				}
 				n.logger.Errorf("failed to accept connection: %s", err)
+				continue
 			}
 
 			go n.handleIncomingConnection(conn)
-- 
2.43.0


From 16d9942e22619f4fc1956a8806310c869f8bb419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 27/50] fix: close peer connections on disconnect and on node
 shutdown

---
 p2p/node.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/p2p/node.go b/p2p/node.go
index 19a03a1..9bdaca6 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -8,7 +8,6 @@ import (
 	"github.com/r3volut1oner/go-karbo/crypto"
 	"github.com/r3volut1oner/go-karbo/cryptonote"
 	"go.uber.org/zap"
-	"io"
 	"math"
 	"math/rand"
 	"net"
@@ -112,6 +111,7 @@ func (n *Node) runListener() {
 				continue
 			}
 
+			n.wg.Add(1)
 			go n.handleIncomingConnection(conn)
 		}
 	}
@@ -125,7 +125,6 @@ func (n *Node) handleIncomingConnection(conn *net.TCPConn) {
 
 	//// TODO: Add peer to peerstore. Make sure it is not exists.
 	//
-	n.wg.Add(1)
 	defer n.wg.Done()
 
 	n.connectionHandler(peer)
@@ -138,6 +137,19 @@ func (n *Node) handleIncomingConnection(conn *net.TCPConn) {
 }
 
 func (n *Node) connectionHandler(p *Peer) {
+	defer p.protocol.Conn.Close()
+
+	// Interrupt blocked reads and writes when the node is stopped
+	stopped := make(chan struct{})
+	defer close(stopped)
+	go func() {
+		select {
+		case <-n.context.Done():
+			_ = p.protocol.Conn.Close()
+		case <-stopped:
+		}
+	}()
+
 	for {
 		// Peer state changes asynchronously after handling some commands.
 		// Here we are taking care of handle different peer statuses.
@@ -168,12 +180,7 @@ func (n *Node) connectionHandler(p *Peer) {
 		// Read a next command from the connection
 		cmd, err := p.protocol.read()
 
-		// No command received continue to next loop cycle
-		if err == io.EOF {
-			continue
-		}
-
-		// On any error we move the peer to the grey list
+		// On any error, the connection closed by the peer included, we move the peer to the grey list
 		if err != nil {
 			n.logger.Errorf("error on read command: %s", err)
 			_ = n.ps.toGrey(p)
@@ -500,6 +507,8 @@ func (n *Node) syncWithAddr(addr string) {
 		return
 	}
 
+	defer peer.protocol.Conn.Close()
+
 	//handshake, err := peer.handshake(n)
 	_, err = peer.handshake(n)
 	if err != nil {
-- 
2.43.0


From 79f3ca9d38cba15a1a56f7cd8b110116810b001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 28/50] fix: serialise access to the peer store

---
 p2p/peerstore.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/p2p/peerstore.go b/p2p/peerstore.go
index 154e162..96e61a1 100644
--- a/p2p/peerstore.go
+++ b/p2p/peerstore.go
@@ -3,11 +3,14 @@ package p2p
 import (
 	"errors"
 	"fmt"
+	"sync"
 )
 
 type peerStore struct {
 	white *peerList
 	grey  *peerList
+
+	sync.RWMutex
 }
 
 type peerList struct {
@@ -16,12 +19,15 @@ type peerList struct {
 
 func NewPeerStore() *peerStore {
 	return &peerStore{
-		white: &peerList{map[uint64]*Peer{}},
-		grey:  &peerList{map[uint64]*Peer{}},
+		white: &peerList{peers: map[uint64]*Peer{}},
+		grey:  &peerList{peers: map[uint64]*Peer{}},
 	}
 }
 
 func (ps *peerStore) toPeerEntries() []PeerEntry {
+	ps.RLock()
+	defer ps.RUnlock()
+
 	var peers []PeerEntry
 
 	for _, p := range ps.white.peers {
@@ -36,6 +42,9 @@ func (ps *peerStore) toPeerEntries() []PeerEntry {
 }
 
 func (ps *peerStore) toWhite(p *Peer) error {
+	ps.Lock()
+	defer ps.Unlock()
+
 	_ = ps.grey.Remove(p)
 
 	if err := ps.white.Add(p); err != nil {
@@ -46,6 +55,9 @@ func (ps *peerStore) toWhite(p *Peer) error {
 }
 
 func (ps *peerStore) toGrey(p *Peer) error {
+	ps.Lock()
+	defer ps.Unlock()
+
 	_ = ps.white.Remove(p)
 
 	if err := ps.grey.Add(p); err != nil {
-- 
2.43.0


From ecc493bf86bf3f77afd866c44dd5cfb25a84ea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:59 +0000
Subject: [PATCH 29/50] fix: drop peers whose blocks are rejected and do not
 dump them to disk

---
 p2p/node.go                              | 19 -------------------
 p2p/notification_response_get_objects.go | 16 ++++++++++------
 2 files changed, 10 insertions(+), 25 deletions(-)

diff --git a/p2p/node.go b/p2p/node.go
index 9bdaca6..00ffa6e 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -440,25 +440,6 @@ func (n *Node) processNewObjects(blocks []*cryptonote.Block, transactions map[cr
 
 		if err := n.Blockchain.AddBlock(block, transactions[*block.Hash()]); err != nil {
 			return err
-			// TODO: Process proper error
-			//
-			//if (addResult == error::AddBlockErrorCondition::BLOCK_VALIDATION_FAILED ||
-			//	addResult == error::AddBlockErrorCondition::TRANSACTION_VALIDATION_FAILED ||
-			//	addResult == error::AddBlockErrorCondition::DESERIALIZATION_FAILED) {
-			//	logger(Logging::DEBUGGING) << context << "Block verification failed, dropping connection: " << addResult.message();
-			//	m_p2p->drop_connection(context, true);
-			//	return 1;
-			//} else if (addResult == error::AddBlockErrorCondition::BLOCK_REJECTED) {
-			//	logger(Logging::DEBUGGING) << context << "Block received at sync phase was marked as orphaned, dropping connection: " << addResult.message();
-			//	m_p2p->drop_connection(context, true);
-			//	return 1;
-			//} else if (addResult == error::AddBlockErrorCode::ALREADY_EXISTS) {
-			//	logger(Logging::DEBUGGING) << context << "Block already exists, switching to idle state: " << addResult.message();
-			//	context.m_state = CryptoNoteConnectionContext::state_idle;
-			//	context.m_needed_objects.clear();
-			//	context.m_requested_objects.clear();
-			//	return 1;
-			//}
 		}
 	}
 
diff --git a/p2p/notification_response_get_objects.go b/p2p/notification_response_get_objects.go
index 8e5f9fe..1579d02 100644
--- a/p2p/notification_response_get_objects.go
+++ b/p2p/notification_response_get_objects.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
 	"github.com/r3volut1oner/go-karbo/cryptonote"
-	"io/ioutil"
 )
 
 // NotificationResponseGetObjects == 2004
@@ -49,12 +48,8 @@ func (n *Node) HandleResponseGetObjects(p *Peer, nt NotificationResponseGetObjec
 		rawBlockReader := bytes.NewReader(rawBlock.Block)
 		if err := block.Deserialize(rawBlockReader); err != nil {
 			p.Shutdown()
-			// TODO: Remove this. It is debug only.
-			height := n.Blockchain.Height()
-			blockHeight := height + uint32(i)
-			_ = ioutil.WriteFile(fmt.Sprintf("./block_%d.dat", blockHeight), rawBlock.Block, 0644)
 			return errors.New(
-				fmt.Sprintf("[%s] (%d) failed to convert raw block (%d): %s", p, i, blockHeight, err),
+				fmt.Sprintf("[%s] (%d) failed to convert raw block: %s", p, i, err),
 			)
 		}
 
@@ -85,6 +80,15 @@ func (n *Node) HandleResponseGetObjects(p *Peer, nt NotificationResponseGetObjec
 	}
 
 	if err := n.processNewObjects(orderedBlocks, transactions); err != nil {
+		// The block was added in the meantime, there is no reason to blame this peer
+		if err == cryptonote.ErrAddBlockAlreadyExists {
+			p.state = PeerStateIdle
+			p.neededBlocks = nil
+			p.requestedBlocks = nil
+		} else {
+			p.Shutdown()
+		}
+
 		return err
 	}
 
-- 
2.43.0


From 38711d0e371fd664e979a520a44d85e234bcb740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 30/50] fix: reject chain entries whose height overflows

---
 p2p/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/node.go b/p2p/node.go
index 00ffa6e..27ab63a 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -291,7 +291,7 @@ func (n *Node) handleNotification(p *Peer, cmd *LevinCommand) error {
 		p.remoteHeight = notification.TotalHeight
 		p.lastResponseHeight = notification.StartHeight + uint32(len(notification.BlocksHashes)-1)
 
-		if p.lastResponseHeight > p.remoteHeight {
+		if p.lastResponseHeight < notification.StartHeight || p.lastResponseHeight > p.remoteHeight {
 			// TODO: Create new error instance
 			p.Shutdown()
 			return errors.New(
-- 
2.43.0


From 5d9610cf01eea2f7797b5726b434e8201a0e30bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 31/50] fix: continue the synchronisation when the remaining
 blocks are already known

---
 p2p/peer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index cf31084..3f5bd77 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -217,10 +217,14 @@ func (p *Peer) requestMissingBlocks(n *Node, checkHavingBlocks bool) error {
 			}
 
 			p.requestedBlocks = append(p.requestedBlocks, requestBlocks...)
+			p.neededBlocks = neededBlocks
+			return nil
 		}
 
 		p.neededBlocks = neededBlocks
-	} else if p.lastResponseHeight < (p.remoteHeight - 1) {
+	}
+
+	if p.lastResponseHeight < (p.remoteHeight - 1) {
 		if err := p.requestChain(n.Blockchain); err != nil {
 			return err
 		}
-- 
2.43.0


From c12446feee59624cdc2ece3275d6870d11de6ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:38 +0000
Subject: [PATCH 32/50] fix: drop peers that send notifications before the
 handshake

---
 p2p/node.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/p2p/node.go b/p2p/node.go
index 27ab63a..89bcf33 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -223,6 +223,12 @@ func (n *Node) handleNotification(p *Peer, cmd *LevinCommand) error {
 	//	panic(err)
 	//}
 
+	// The network of the peer is unknown until the handshake
+	if p.state == PeerStateBeforeHandshake {
+		p.Shutdown()
+		return errors.New(fmt.Sprintf("[%s] notification %d before handshake", p, cmd.Command))
+	}
+
 	nt, err := parseNotification(cmd)
 	if err != nil {
 		return err
-- 
2.43.0


From 2ebaf0a806cdbdcf2e458af9acfac638a7de795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 33/50] fix: refuse a second handshake of peers without an ID

---
 p2p/command_handshake.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/command_handshake.go b/p2p/command_handshake.go
index ac09d5f..17deab7 100644
--- a/p2p/command_handshake.go
+++ b/p2p/command_handshake.go
@@ -68,7 +68,7 @@ func (n *Node) HandleHandshake(p *Peer, req HandshakeRequest) error {
 		return err
 	}
 
-	if p.ID != 0 {
+	if p.ID != 0 || p.state != PeerStateBeforeHandshake {
 		err := ErrHandshakeHasID
 		p.logger.Error(err, zap.String("peerID", strconv.FormatUint(req.NodeData.PeerID, 10)))
 		p.Shutdown()
-- 
2.43.0


From 2d7e7b1bb2a574b2902a902ddc66cccd65046081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 34/50] fix: reject truncated key-value payloads

---
 encoding/binary/binary.go |  3 ++-
 encoding/binary/decode.go | 21 +++++++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/encoding/binary/binary.go b/encoding/binary/binary.go
index 101918b..e352901 100644
--- a/encoding/binary/binary.go
+++ b/encoding/binary/binary.go
@@ -3,6 +3,7 @@ package binary
 import (
 	"bytes"
 	"errors"
+	"io"
 	"reflect"
 )
 
@@ -30,7 +31,7 @@ func Unmarshal(b []byte, v interface{}) error {
 
 	var headBytes [headSize]byte
 	var headBlock storageBlockHeader
-	if _, err := reader.Read(headBytes[:]); err != nil {
+	if _, err := io.ReadFull(reader, headBytes[:]); err != nil {
 		return err
 	}
 
diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 04776f7..80d8ed9 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"reflect"
 )
 
@@ -26,8 +27,8 @@ func (d *Decoder) decode(v interface{}) error {
 	}
 
 	size, err := d.readVarInt()
-	if err == io.EOF {
-		return nil
+	if err != nil {
+		return err
 	}
 
 	metadata, err := getStructBinaryMetadata(reflect.ValueOf(v), false)
@@ -61,13 +62,13 @@ func (d *Decoder) decode(v interface{}) error {
 func (d *Decoder) readName() (string, error) {
 	var sizeByte [1]byte
 
-	if _, err := d.r.Read(sizeByte[:]); err != nil {
+	if _, err := io.ReadFull(d.r, sizeByte[:]); err != nil {
 		return "", err
 	}
 
 	str := make([]byte, sizeByte[0])
 
-	if _, err := d.r.Read(str); err != nil {
+	if _, err := io.ReadFull(d.r, str); err != nil {
 		return "", err
 	}
 
@@ -130,10 +131,14 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			return err
 		}
 
-		b := make([]byte, size)
-		if _, err := d.r.Read(b); err != nil {
+		// The size is controlled by the remote side, do not allocate more than it really sent
+		b, err := ioutil.ReadAll(io.LimitReader(d.r, int64(size)))
+		if err != nil {
 			return err
 		}
+		if uint64(len(b)) != size {
+			return io.ErrUnexpectedEOF
+		}
 
 		switch value.Kind() {
 		// For slice we don't know exact size of the data encoded.
@@ -193,7 +198,7 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 
 func (d *Decoder) readVarInt() (uint64, error) {
 	var sizeBytes [8]byte
-	if _, err := d.r.Read(sizeBytes[0:1]); err != nil {
+	if _, err := io.ReadFull(d.r, sizeBytes[0:1]); err != nil {
 		return 0, err
 	}
 
@@ -216,7 +221,7 @@ func (d *Decoder) readVarInt() (uint64, error) {
 	allBytes := make([]byte, 8)
 	allBytes[0] = sizeBytes[0]
 
-	if _, err := d.r.Read(allBytes[1:bytesLeft+1]); err != nil {
+	if _, err := io.ReadFull(d.r, allBytes[1:bytesLeft+1]); err != nil {
 		return 0, err
 	}
 
-- 
2.43.0


From 1d6564a5501425c3c16eb6d365afe30de7b393a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 35/50] fix: reject key-value payloads that do not fit the
 receiving field

---
 encoding/binary/decode.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 80d8ed9..b711fb3 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -174,6 +174,9 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 		// For binary data only [N]byte array supported.
 		case reflect.Array:
 			newArray := reflect.New(value.Type()).Elem()
+			if newArray.Len() != len(b) {
+				return errors.New(fmt.Sprintf("expected %d bytes, received %d", newArray.Len(), len(b)))
+			}
 			reflect.Copy(newArray, reflect.ValueOf(b))
 
 			value.Set(newArray)
@@ -183,6 +186,10 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			return errors.New(fmt.Sprintf("not supported kind '%s' for binary received", value.Kind()))
 		}
 	case typeObject:
+		if value.Kind() != reflect.Struct {
+			return errors.New(fmt.Sprintf("not supported kind '%s' for object received", value.Kind()))
+		}
+
 		v := reflect.New(value.Type())
 		if err := d.decode(v.Interface()); err != nil {
 			return err
-- 
2.43.0


From aa9543ad460c353baa7246d3051106185e02da6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 36/50] fix: use the version of the next block for its
 difficulty

---
 cryptonote/difficulty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/difficulty.go b/cryptonote/difficulty.go
index ee1690c..04da0ab 100644
--- a/cryptonote/difficulty.go
+++ b/cryptonote/difficulty.go
@@ -12,7 +12,7 @@ func (bc *BlockChain) difficultyForNextBlock(b *Block) (uint64, error) {
 		return 0, errors.New(fmt.Sprintf("unknown block hashIndex %d, top hashIndex is %d", b.Index(), bc.bestTip.Index()))
 	}
 
-	nextBlockMajorVersion := bc.Network.GetBlockMajorVersion(b.Index())
+	nextBlockMajorVersion := bc.Network.GetBlockMajorVersion(b.Index() + 1)
 	difficultyBlocksCount := bc.Network.DifficultyBlocksCountByBlockVersion(nextBlockMajorVersion)
 
 	timestamps := bc.lastBlocksTimestamps(difficultyBlocksCount, b, false)
-- 
2.43.0


From 03993e986c344fb6d8357c956f1632fbdbf45018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 37/50] fix: round the version 5 difficulty instead of halving
 it

---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index 2411bfe..aa958f6 100644
--- a/config/network.go
+++ b/config/network.go
@@ -408,7 +408,7 @@ func (n *Network) nextDifficultyV5(height uint32, majorVersion byte, timestamps
 	i := int64(1000000000)
 	for i > 1 {
 		if nextD > i*100 {
-			nextD = (((nextD + i) / 2) / i) * i
+			nextD = ((nextD + i/2) / i) * i
 			break
 		}
 
-- 
2.43.0


From 849147fe7df41d1f84028dab5bbc2e83f61995a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:39 +0000
Subject: [PATCH 38/50] fix: encode the transactions of a get objects response
 as an array

---
 p2p/notification_response_get_objects.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/notification_response_get_objects.go b/p2p/notification_response_get_objects.go
index 1579d02..071590d 100644
--- a/p2p/notification_response_get_objects.go
+++ b/p2p/notification_response_get_objects.go
@@ -11,7 +11,7 @@ import (
 // NotificationResponseGetObjects == 2004
 type NotificationResponseGetObjects struct {
 	// Exists in old legacy code in definition but not exists in notification
-	Transactions            []string      `binary:"txs,omitempty"`
+	Transactions            []string      `binary:"txs,array,omitempty"`
 	Blocks                  []RawBlock    `binary:"blocks,array"`
 	CurrentBlockchainHeight uint32        `binary:"current_blockchain_height"`
 	MissedIds               []crypto.Hash `binary:"missed_ids,binary,omitempty"`
-- 
2.43.0


From 3e3a7937d5136f7cb9bf7a620f5645ed4e312583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:45 +0000
Subject: [PATCH 39/50] fix: reject arrays of items that do not fit the
 receiving field

---
 encoding/binary/decode.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index b711fb3..165a6d3 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -105,6 +105,11 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			newSlice := reflect.New(value.Type()).Elem()
 			itemType := value.Type().Elem()
 
+			// The items are not looked at when the array is empty, so its type must be checked here
+			if !isItemOfType(itemType, itemTypeByte) {
+				return errors.New(fmt.Sprintf("array of type %v doesn't fit %s", itemTypeByte, value.Type()))
+			}
+
 			for i := uint64(0); i < size; i++ {
 				item := reflect.New(itemType)
 				if err := d.readValue(item.Elem(), itemTypeByte); err != nil {
@@ -203,6 +208,20 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 	return nil
 }
 
+// isItemOfType tells if an array item of the provided type byte can be stored in the go type
+func isItemOfType(typ reflect.Type, typeByte byte) bool {
+	switch typeByte {
+	case typeBinary:
+		return typ.Kind() == reflect.String || typ.Kind() == reflect.Slice || typ.Kind() == reflect.Array
+	case typeObject:
+		return typ.Kind() == reflect.Struct
+	}
+
+	kind, ok := mapBTypeToSimpleKind[typeByte]
+
+	return ok && kind == typ.Kind()
+}
+
 func (d *Decoder) readVarInt() (uint64, error) {
 	var sizeBytes [8]byte
 	if _, err := io.ReadFull(d.r, sizeBytes[0:1]); err != nil {
-- 
2.43.0


From d68e279a32d5ad3149a68fb5f6e321b552eaaa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:02 +0000
Subject: [PATCH 40/50] fix: reject blobs for slices of items without a fixed
 size

---
 encoding/binary/decode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 165a6d3..491cc08 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -162,6 +162,11 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			itemType := value.Type().Elem()
 			reader := bytes.NewReader(b)
 
+			// Without a fixed item size the reader is never exhausted
+			if binary.Size(reflect.Zero(itemType).Interface()) <= 0 {
+				return errors.New(fmt.Sprintf("binary data can't be read as %s", value.Type()))
+			}
+
 			for {
 				item := reflect.New(itemType)
 				err := binary.Read(reader, binary.LittleEndian, item.Interface())
-- 
2.43.0


From 5561b0107a23a49c1578a36f9e4214af88dab537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:11 +0000
Subject: [PATCH 41/50] fix: reject merge mining tags whose depth and root do
 not fill the tag

---
 cryptonote/transaction_extra.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptonote/transaction_extra.go b/cryptonote/transaction_extra.go
index 4200949..1e620bc 100644
--- a/cryptonote/transaction_extra.go
+++ b/cryptonote/transaction_extra.go
@@ -106,6 +106,7 @@ func TxExtraFromBytes(b []byte) (*TransactionExtraFields, error) {
 				return nil, ErrMergeMiningTagMax
 			}
 
+			start := r.Len()
 			depth, err := binary.ReadUvarint(r)
 			if err != nil {
 				return nil, err
@@ -115,6 +116,9 @@ func TxExtraFromBytes(b []byte) (*TransactionExtraFields, error) {
 			if err := h.Read(r); err != nil {
 				return nil, err
 			}
+			if uint64(start-r.Len()) != size {
+				return nil, ErrMergeMiningTagMax
+			}
 
 			tef.MiningTag = &TransactionExtraMergeMiningTag{depth, h}
 		default:
-- 
2.43.0


From 484cf8e858c84d596cf31d1d00baa411802c6615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:17 +0000
Subject: [PATCH 42/50] fix: reject numbers that do not fit the fields of
 blocks and transactions

---
 cryptonote/block.go        |  5 +++--
 cryptonote/block_parent.go |  7 ++++---
 cryptonote/transaction.go  |  7 ++++---
 cryptonote/utils.go        | 19 +++++++++++++++++++
 4 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 57d669a..1686e3c 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"github.com/r3volut1oner/go-karbo/config"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"math"
 	"unsafe"
 )
 
@@ -228,12 +229,12 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 	var ts uint64
 	var nonce uint32
 
-	majorVersion, err := binary.ReadUvarint(reader)
+	majorVersion, err := readUvarint(reader, math.MaxUint8)
 	if err != nil {
 		return err
 	}
 
-	minorVersion, err := binary.ReadUvarint(reader)
+	minorVersion, err := readUvarint(reader, math.MaxUint8)
 	if err != nil {
 		return err
 	}
diff --git a/cryptonote/block_parent.go b/cryptonote/block_parent.go
index e07a75c..576b26d 100644
--- a/cryptonote/block_parent.go
+++ b/cryptonote/block_parent.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"math"
 )
 
 type ParentBlock struct {
@@ -66,12 +67,12 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 	var prev crypto.Hash
 	var nonce uint32
 
-	majorVersion, err := binary.ReadUvarint(r)
+	majorVersion, err := readUvarint(r, math.MaxUint8)
 	if err != nil {
 		return err
 	}
 
-	minorVersion, err := binary.ReadUvarint(r)
+	minorVersion, err := readUvarint(r, math.MaxUint8)
 	if err != nil {
 		return err
 	}
@@ -89,7 +90,7 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 		return err
 	}
 
-	txCount, err := binary.ReadUvarint(r)
+	txCount, err := readUvarint(r, math.MaxUint16)
 	if err != nil {
 		return err
 	}
diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index a98d67f..bf6b857 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
 	"io"
+	"math"
 )
 
 const (
@@ -214,7 +215,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	/**
 	 * Read transaction version
 	 */
-	version, err := binary.ReadUvarint(br)
+	version, err := readUvarint(br, math.MaxUint8)
 	if err != nil {
 		return err
 	}
@@ -248,7 +249,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 
 		switch tag {
 		case TxTagCoinbase:
-			blockIndex, err := binary.ReadUvarint(br)
+			blockIndex, err := readUvarint(br, math.MaxUint32)
 			if err != nil {
 				return err
 			}
@@ -269,7 +270,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 			}
 
 			for i := uint64(0); i < size; i++ {
-				oi, err := binary.ReadUvarint(br)
+				oi, err := readUvarint(br, math.MaxUint32)
 				if err != nil {
 					return err
 				}
diff --git a/cryptonote/utils.go b/cryptonote/utils.go
index 7b120fb..ba94413 100644
--- a/cryptonote/utils.go
+++ b/cryptonote/utils.go
@@ -1,5 +1,11 @@
 package cryptonote
 
+import (
+	"encoding/binary"
+	"errors"
+	"io"
+)
+
 func DecomposeAmountIntoDigits(amount, dustThreshold uint64) ([]uint64, []uint64) {
 	var dusts []uint64
 	var chunks []uint64
@@ -34,3 +40,16 @@ func DecomposeAmountIntoDigits(amount, dustThreshold uint64) ([]uint64, []uint64
 
 	return chunks, dusts
 }
+
+// readUvarint reads a variable length number that must not be larger than max.
+func readUvarint(r io.ByteReader, max uint64) (uint64, error) {
+	n, err := binary.ReadUvarint(r)
+	if err != nil {
+		return 0, err
+	}
+	if n > max {
+		return 0, errors.New("number does not fit its field")
+	}
+
+	return n, nil
+}
-- 
2.43.0


From 361b2ecc1c9a5d9c0f562f4fd06799b900b37ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:41 +0000
Subject: [PATCH 43/50] fix: reject transactions of unknown versions

---
 cryptonote/transaction.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index bf6b857..06facda 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"github.com/r3volut1oner/go-karbo/config"
 	"github.com/r3volut1oner/go-karbo/crypto"
 	"io"
 	"math"
@@ -105,6 +106,10 @@ func (t *Transaction) Deserialize(r *bytes.Reader) error {
 		return err
 	}
 
+	if t.Version > config.TransactionVersion1 {
+		return fmt.Errorf("unknown transaction version: %d", t.Version)
+	}
+
 	if err := t.TransactionSignatures.deserialize(r, t); err != nil {
 		return err
 	}
-- 
2.43.0


From 5ca3b0c4094783e8773e23cfc7305d77de1e6135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:10 +0000
Subject: [PATCH 44/50] fix: reject ring signatures with another number of
 signatures than members

---
 crypto/signature.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto/signature.go b/crypto/signature.go
index 6d7da31..8849ae9 100644
--- a/crypto/signature.go
+++ b/crypto/signature.go
@@ -278,6 +278,10 @@ func GenerateRingSignature(prefixHash *Hash, image *KeyImage, pubs *[]PublicKey,
 }
 
 func CheckRingSignature(prefixHash *Hash, image *KeyImage, pubs *[]PublicKey, sigs *[]Signature, checkKeyImage bool) bool {
+	if len(*sigs) != len(*pubs) {
+		return false
+	}
+
 	// -------- ENABLED IN DEBUG MODE --------
 	for i := 0; i < len(*pubs); i++ {
 		if !(*pubs)[i].Check() {
-- 
2.43.0


From 732a82a3404b12ec2fdff8acb92bbab83cc7ecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 45/50] fix: a peer that announces height 0 has nothing more to
 offer

---
 p2p/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 3f5bd77..fce69ab 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -224,7 +224,7 @@ func (p *Peer) requestMissingBlocks(n *Node, checkHavingBlocks bool) error {
 		p.neededBlocks = neededBlocks
 	}
 
-	if p.lastResponseHeight < (p.remoteHeight - 1) {
+	if uint64(p.lastResponseHeight)+1 < uint64(p.remoteHeight) {
 		if err := p.requestChain(n.Blockchain); err != nil {
 			return err
 		}
-- 
2.43.0


From 1539c2006ae0c8909df0e3b104caa00524bf7d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 46/50] fix: memory for a packet body is taken as it arrives,
 not as announced

---
 p2p/levin.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/p2p/levin.go b/p2p/levin.go
index 12edd19..92fc833 100644
--- a/p2p/levin.go
+++ b/p2p/levin.go
@@ -1,6 +1,7 @@
 package p2p
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -129,15 +130,19 @@ func (p *LevinProtocol) read() (*LevinCommand, error) {
 		return nil, errors.New("levin packet size is too big")
 	}
 
-	payload := make([]byte, head.BodySize)
+	// The body is allocated as it arrives, the announced size costs the peer nothing
+	var payload bytes.Buffer
+	if _, err := io.CopyN(&payload, p.Conn, int64(head.BodySize)); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 
-	if _, err := io.ReadFull(p.Conn, payload); err != nil {
 		return nil, err
 	}
 
 	return &LevinCommand{
 		Command:    head.Command,
-		Payload:    payload,
+		Payload:    payload.Bytes(),
 		IsNotify:   !head.HaveToReturnData,
 		IsResponse: (head.Flags & LevinPacketResponse) == LevinPacketResponse,
 	}, nil
-- 
2.43.0


From ef1b784f043d7cab2e20f613d4e4ceb528e07b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 47/50] fix: interrupt an outgoing handshake when the node is
 stopped

---
 p2p/node.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/p2p/node.go b/p2p/node.go
index 89bcf33..9c75b5e 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -136,20 +136,29 @@ func (n *Node) handleIncomingConnection(conn *net.TCPConn) {
 	n.logger.Debugf("[%16x] sync closed", peer.ID)
 }
 
-func (n *Node) connectionHandler(p *Peer) {
-	defer p.protocol.Conn.Close()
+// closeOnStop interrupts blocked reads and writes of the peer when the node is stopped, until the returned function
+// is called.
+func (n *Node) closeOnStop(p *Peer) func() {
+	released := make(chan struct{})
 
-	// Interrupt blocked reads and writes when the node is stopped
-	stopped := make(chan struct{})
-	defer close(stopped)
 	go func() {
 		select {
 		case <-n.context.Done():
 			_ = p.protocol.Conn.Close()
-		case <-stopped:
+		case <-released:
 		}
 	}()
 
+	return func() {
+		close(released)
+	}
+}
+
+func (n *Node) connectionHandler(p *Peer) {
+	defer p.protocol.Conn.Close()
+
+	defer n.closeOnStop(p)()
+
 	for {
 		// Peer state changes asynchronously after handling some commands.
 		// Here we are taking care of handle different peer statuses.
@@ -495,6 +504,7 @@ func (n *Node) syncWithAddr(addr string) {
 	}
 
 	defer peer.protocol.Conn.Close()
+	defer n.closeOnStop(peer)()
 
 	//handshake, err := peer.handshake(n)
 	_, err = peer.handshake(n)
-- 
2.43.0


From 2539f0c69486116bc05ce910cc6091a25cd5a8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 48/50] fix: a chain announcement replaces the one before it

---
 p2p/node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/node.go b/p2p/node.go
index 9c75b5e..0d8308c 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -319,6 +319,10 @@ func (n *Node) handleNotification(p *Peer, cmd *LevinCommand) error {
 			)
 		}
 
+		// The blocks announced before are forgotten, or a peer could make these lists grow without limit
+		p.neededBlocks = nil
+		p.requestedBlocks = nil
+
 		allBlockKnown := true
 		for _, bh := range notification.BlocksHashes {
 			hasBlock := n.Blockchain.HaveBlock(&bh)
-- 
2.43.0


From e96c43d03d2523af64365073214ca84ddf63c549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 49/50] fix: release the block lists of a peer when its
 connection ends

---
 p2p/node.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/p2p/node.go b/p2p/node.go
index 0d8308c..2f6a574 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -156,9 +156,14 @@ func (n *Node) closeOnStop(p *Peer) func() {
 
 func (n *Node) connectionHandler(p *Peer) {
 	defer p.protocol.Conn.Close()
-
 	defer n.closeOnStop(p)()
 
+	// The store may keep the peer, its lists may be long
+	defer func() {
+		p.neededBlocks = nil
+		p.requestedBlocks = nil
+	}()
+
 	for {
 		// Peer state changes asynchronously after handling some commands.
 		// Here we are taking care of handle different peer statuses.
-- 
2.43.0


From 5232f79b39b3b1ddd151bfd8367841529b83d1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 50/50] fix: median of values whose sum does not fit in 64 bits

---
 utils/math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/math.go b/utils/math.go
index 10f991f..09da45a 100644
--- a/utils/math.go
+++ b/utils/math.go
@@ -17,7 +17,7 @@ func MedianSlice(sl []uint64) uint64 {
 
 	n := l / 2
 	if l%2 == 0 {
-		return (sl[n-1] + sl[n]) / 2
+		return sl[n-1] + (sl[n]-sl[n-1])/2 // the sum may not fit
 	} else {
 		return sl[n]
 	}
-- 
2.43.0

