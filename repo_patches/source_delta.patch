From d0d24a6f4f563488f332988d716643c55e85cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:59 +0000
Subject: [PATCH 01/41] fix: a block higher than another is not its ancestor
 (was a process exit)

isSameChain ended the process when asked about a root block higher than the
root tip, which happens whenever the heavier root chain is the shorter one, or
when a shard block depends on a root block confirming a block above its parent.
---
 core/common.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/common.go b/core/common.go
index 00cf3c4..7fe79ac 100644
--- a/core/common.go
+++ b/core/common.go
@@ -1,8 +1,6 @@
 package core
 
 import (
-	"runtime/debug"
-
 	"github.com/QuarkChain/goquarkchain/core/types"
 	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/log"
@@ -14,8 +12,8 @@ var (
 
 func isSameChain(getParentHash func(common.Hash) common.Hash, longerChainHeader, shorterChainHeader types.IBlock) bool {
 	if longerChainHeader.NumberU64() < shorterChainHeader.NumberU64() {
-		debug.PrintStack()
-		log.Crit("wrong parameter order", "long.Number", longerChainHeader.NumberU64(), "long.Hash", longerChainHeader.Hash().String(), "short.Number", shorterChainHeader.NumberU64(), "short.hash", shorterChainHeader.Hash().String())
+		// a block can not be an ancestor of a lower one
+		return false
 	}
 	if shorterChainHeader.NumberU64() == longerChainHeader.NumberU64() {
 		return shorterChainHeader.Hash() == longerChainHeader.Hash()
-- 
2.43.0


From c4030f0a742855902ebc96c832b20990edef4245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:59 +0000
Subject: [PATCH 02/41] fix: do not cache missing receipts

A block that causes a reorganisation is asked for its logs before its receipts
are written; the empty answer stayed in the cache, so receipts of its
transactions could not be found afterwards.
---
 core/minorblockchain.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 8e1e66f..86f7061 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -613,6 +613,10 @@ func (m *MinorBlockChain) GetReceiptsByHash(hash common.Hash) types.Receipts {
 		return nil
 	}
 	receipts := rawdb.ReadReceipts(m.db, hash)
+	if receipts == nil {
+		// not written yet (e.g. asked for while the block is being inserted)
+		return nil
+	}
 	m.receiptsCache.Add(hash, receipts)
 	return receipts
 }
-- 
2.43.0


From 5109dc7e913322281e49b345f6a7e0cb7edcdfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:25 +0000
Subject: [PATCH 03/41] fix: drop canonical height entries above the new head

When a root chain reorganisation moves the head to a lower block, lookups by
height kept returning the abandoned blocks above it, and a later root block
confirming one of those was taken as already canonical.
---
 core/minorblockchain_addon.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 3dbad5d..1ca2e3a 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1366,7 +1366,14 @@ func (m *MinorBlockChain) reWriteBlockIndexTo(oldBlock *types.MinorBlock, newBlo
 	if oldBlock == nil {
 		oldBlock = m.CurrentBlock()
 	}
-	return m.reorg(oldBlock, newBlock)
+	if err := m.reorg(oldBlock, newBlock); err != nil {
+		return err
+	}
+	// the head may have moved to a lower block: nothing is canonical above it
+	for number := newBlock.NumberU64() + 1; number <= oldBlock.NumberU64(); number++ {
+		rawdb.DeleteCanonicalHash(m.db, rawdb.ChainTypeMinor, number)
+	}
+	return nil
 }
 
 func (m *MinorBlockChain) GetBranch() account.Branch {
-- 
2.43.0


From 591931c2aced29341e50139169bcbbe1e5659eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:17 +0000
Subject: [PATCH 04/41] fix: a zero token amount is the same as an absent one
 on the wire

TokenBalances.Serialize wrote zero entries that Deserialize drops, so a block
whose reward listed a zero amount changed its hash in transit and its reward
check failed on every other node.
---
 core/minorblock_validator.go | 22 +++++++++++-----------
 core/types/token.go          |  5 ++++-
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/core/minorblock_validator.go b/core/minorblock_validator.go
index b91d3d3..06b7002 100644
--- a/core/minorblock_validator.go
+++ b/core/minorblock_validator.go
@@ -252,19 +252,19 @@ func compareXshardTxCursor(a, b *types.XShardTxCursorInfo) bool {
 }
 
 func compareCoinbaseAmountMap(a, b map[uint64]*big.Int) bool {
-	if len(a) != len(b) {
-		return false
-	}
-	for k, v := range a {
-		data, ok := b[k]
-		if !ok {
-			return false
-		}
-		if data.Cmp(v) != 0 {
-			return false
+	covers := func(x, y map[uint64]*big.Int) bool {
+		for k, v := range x {
+			data, ok := y[k]
+			if !ok { // an absent token is a zero amount
+				data = new(big.Int)
+			}
+			if data.Cmp(v) != 0 {
+				return false
+			}
 		}
+		return true
 	}
-	return true
+	return covers(a, b) && covers(b, a)
 }
 
 // ValidateState validates the various changes that happen after a state
diff --git a/core/types/token.go b/core/types/token.go
index 7d98ce9..ad4fc0f 100644
--- a/core/types/token.go
+++ b/core/types/token.go
@@ -314,7 +314,10 @@ func (t *TokenBalances) DecodeRLP(s *rlp.Stream) error {
 func (t *TokenBalances) Serialize(w *[]byte) error {
 	keys := make([]uint64, 0, t.Len())
 	num := uint32(0)
-	for k := range t.balances {
+	for k, v := range t.balances {
+		if v.Cmp(common.Big0) == 0 { // Deserialize drops these as well
+			continue
+		}
 		keys = append(keys, k)
 		num++
 	}
-- 
2.43.0


From 00898ff72af8ec1e5d6acfdba71cc01f9220cd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:17 +0000
Subject: [PATCH 05/41] fix: drop canonical root heights above a shorter,
 heavier root chain

---
 core/rootblockchain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index 0492f8c..2bf874c 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -869,6 +869,12 @@ func (bc *RootBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 	for _, item := range diff {
 		rawdb.DeleteBlockContentLookupEntry(batch, item.Hash())
 	}
+	// A heavier chain may be shorter: nothing is canonical above its head
+	for _, block := range oldChain {
+		if len(newChain) > 0 && block.NumberU64() > newChain[0].NumberU64() {
+			rawdb.DeleteCanonicalHash(batch, rawdb.ChainTypeRoot, block.NumberU64())
+		}
+	}
 	batch.Write()
 
 	if len(oldChain) > 0 {
-- 
2.43.0


From 0588e211b70591ffefee681930bdd28884de140a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:17 +0000
Subject: [PATCH 06/41] fix: rewrite every shard's miner count at a reorganised
 root height

---
 core/rootblockchain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index 2bf874c..623895e 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -1339,6 +1339,12 @@ func (bc *RootBlockChain) PutRootBlockIndex(block *types.RootBlock) error {
 		}
 	}
 
+	// Every shard's record at this height is rewritten, a reorganisation may leave an older one
+	for _, fullShardID := range bc.chainConfig.GetInitializedShardIdsBeforeRootHeight(block.Number()) {
+		if _, ok := shardRecipientCnt[fullShardID]; !ok {
+			shardRecipientCnt[fullShardID] = make(map[account.Recipient]uint32)
+		}
+	}
 	for _, header := range block.MinorBlockHeaders() {
 		fullShardID := header.Branch.GetFullShardID()
 		recipient := header.Coinbase.Recipient
-- 
2.43.0


From f2408d3a4fbb02d08f9ba675a163be77fffc7e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:51 +0000
Subject: [PATCH 07/41] fix: refuse a transfer to a shard that does not exist
 at the block's root block

A block depending on a root block at which the destination shard is not
initialized was accepted once the local root tip was higher. The receiving
shard ignores such a block's transfers (and expects no list for it), so the
value was lost, and handing out the lists panicked.
---
 core/minorblockchain_addon.go | 18 ++++++++++++++++++
 core/state_processor.go       |  3 +++
 2 files changed, 21 insertions(+)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 1ca2e3a..c355a20 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -326,6 +326,24 @@ func (m *MinorBlockChain) validateTx(tx *types.Transaction, evmState *state.Stat
 	return tx, nil
 }
 
+// validateDestination refuses a cross-shard transaction to a shard that does not exist yet at the root block
+// the minor block depends on: such a shard neither gets nor expects the block's transfers.
+func (m *MinorBlockChain) validateDestination(tx *types.Transaction, block *types.MinorBlock) error {
+	if !tx.EvmTx.IsCrossShard() {
+		return nil
+	}
+	rootBlock := m.GetRootBlockByHash(block.PrevRootBlockHash())
+	if rootBlock == nil {
+		return ErrRootBlockIsNil
+	}
+	for _, id := range m.clusterConfig.Quarkchain.GetInitializedShardIdsBeforeRootHeight(rootBlock.Number()) {
+		if id == tx.EvmTx.ToFullShardId() {
+			return nil
+		}
+	}
+	return errors.New("shard is not initialized at the previous root block")
+}
+
 func (m *MinorBlockChain) InitGenesisState(rBlock *types.RootBlock) (*types.MinorBlock, error) {
 	log.Info(m.logInfo, "InitGenesisState number", rBlock.Number(), "hash", rBlock.Hash().String())
 	defer log.Info(m.logInfo, "InitGenesisState", "end")
diff --git a/core/state_processor.go b/core/state_processor.go
index 15d4cb7..acfdbe5 100755
--- a/core/state_processor.go
+++ b/core/state_processor.go
@@ -79,6 +79,9 @@ func (p *StateProcessor) Process(block *types.MinorBlock, statedb *state.StateDB
 		if err != nil {
 			return nil, nil, 0, err
 		}
+		if err := p.bc.validateDestination(evmTx, block); err != nil {
+			return nil, nil, 0, err
+		}
 		statedb.Prepare(tx.Hash(), block.Hash(), i)
 		_, receipt, _, err := ApplyTransaction(p.config, p.bc, gp, statedb, header, evmTx, usedGas, cfg)
 		if err != nil {
-- 
2.43.0


From 9aeb618512aaaee44d82c1db7c6560f3b0728aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:38 +0000
Subject: [PATCH 08/41] fix: rolling back balances and re-creating an account
 keep the token trie

The journal saved only the cached balances and restored them into a balance
set without database and token trie, so balances kept in the token trie were
lost, and an account later exceeding the token threshold panicked.
---
 core/state/journal.go      | 13 ++++---------
 core/state/state_object.go | 12 +++++++-----
 core/state/statedb.go      |  4 ++--
 3 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/core/state/journal.go b/core/state/journal.go
index ba3461a..aea0637 100644
--- a/core/state/journal.go
+++ b/core/state/journal.go
@@ -17,8 +17,7 @@
 package state
 
 import (
-	"math/big"
-
+	"github.com/QuarkChain/goquarkchain/core/types"
 	"github.com/ethereum/go-ethereum/common"
 )
 
@@ -95,13 +94,13 @@ type (
 	suicideChange struct {
 		account     *common.Address
 		prev        bool // whether account had already suicided
-		prevbalance map[uint64]*big.Int
+		prevbalance *types.TokenBalances
 	}
 
 	// Changes to individual accounts.
 	balanceChange struct {
 		account *common.Address
-		prev    map[uint64]*big.Int
+		prev    *types.TokenBalances
 	}
 	nonceChange struct {
 		account *common.Address
@@ -172,11 +171,7 @@ func (ch touchChange) dirtied() *common.Address {
 }
 
 func (ch balanceChange) revert(s *StateDB) {
-	prev := make(map[uint64]*big.Int)
-	for k, v := range ch.prev {
-		prev[k] = v
-	}
-	s.getStateObject(*ch.account).setBalances(prev)
+	s.getStateObject(*ch.account).setBalances(ch.prev)
 }
 
 func (ch balanceChange) dirtied() *common.Address {
diff --git a/core/state/state_object.go b/core/state/state_object.go
index c58f99c..ab6bbde 100644
--- a/core/state/state_object.go
+++ b/core/state/state_object.go
@@ -321,7 +321,7 @@ func (c *stateObject) SubBalance(amount *big.Int, tokenID uint64) {
 func (self *stateObject) SetBalance(amount *big.Int, tokenID uint64) {
 	self.db.journal.append(balanceChange{
 		account: &self.address,
-		prev:    self.data.TokenBalances.GetBalanceMap(),
+		prev:    self.data.TokenBalances.CopyWithDB(),
 	})
 	self.setTokenBalance(amount, tokenID)
 }
@@ -329,17 +329,19 @@ func (self *stateObject) SetBalance(amount *big.Int, tokenID uint64) {
 func (self *stateObject) SetBalances(balances map[uint64]*big.Int) {
 	self.db.journal.append(balanceChange{
 		account: &self.address,
-		prev:    self.data.TokenBalances.GetBalanceMap(),
+		prev:    self.data.TokenBalances.CopyWithDB(),
 	})
-	self.setBalances(balances)
+	newBalances, _ := types.NewTokenBalances(nil, self.db.db.TrieDB())
+	newBalances.Add(balances)
+	self.setBalances(newBalances)
 }
 
 func (self *stateObject) setTokenBalance(amount *big.Int, tokenID uint64) {
 	self.data.TokenBalances.SetValue(amount, tokenID)
 }
 
-func (self *stateObject) setBalances(balances map[uint64]*big.Int) {
-	self.data.TokenBalances = types.NewTokenBalancesWithMap(balances)
+func (self *stateObject) setBalances(balances *types.TokenBalances) {
+	self.data.TokenBalances = balances
 }
 
 // Return the gas back to the origin. Used by the Virtual machine or Closures
diff --git a/core/state/statedb.go b/core/state/statedb.go
index 9215734..93e8768 100644
--- a/core/state/statedb.go
+++ b/core/state/statedb.go
@@ -403,7 +403,7 @@ func (s *StateDB) Suicide(addr common.Address) bool {
 	s.journal.append(suicideChange{
 		account:     &addr,
 		prev:        stateObject.suicided,
-		prevbalance: stateObject.data.TokenBalances.GetBalanceMap(),
+		prevbalance: stateObject.data.TokenBalances.CopyWithDB(),
 	})
 	stateObject.markSuicided()
 	stateObject.data.TokenBalances, _ = types.NewTokenBalances([]byte{}, s.db.TrieDB())
@@ -532,7 +532,7 @@ func (s *StateDB) createObject(addr common.Address) (newobj, prev *stateObject)
 func (s *StateDB) CreateAccount(addr common.Address) {
 	new, prev := s.createObject(addr)
 	if prev != nil {
-		new.setBalances(prev.data.TokenBalances.GetBalanceMap())
+		new.setBalances(prev.data.TokenBalances.CopyWithDB())
 	}
 }
 
-- 
2.43.0


From cd47d02c38ea2bdee5dd62311e66606e9e0112d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:41 +0000
Subject: [PATCH 09/41] fix: a copied account does not share its token trie
 with the original

Updating the copy's token trie changed the balances of the original.
---
 core/types/token.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/types/token.go b/core/types/token.go
index ad4fc0f..b57db3c 100644
--- a/core/types/token.go
+++ b/core/types/token.go
@@ -212,7 +212,9 @@ func (t *TokenBalances) IsBlank() bool {
 func (t *TokenBalances) CopyWithDB() *TokenBalances {
 	data := t.Copy()
 	data.db = t.db
-	data.tokenTrie = t.tokenTrie
+	if t.tokenTrie != nil {
+		data.tokenTrie = t.tokenTrie.Copy()
+	}
 	return data
 }
 
-- 
2.43.0


From 77906d75b3cc40442ead0a1556c92104938a58f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:04 +0000
Subject: [PATCH 10/41] fix: reading all balances of an account includes the
 token trie

The map of all balances left out balances stored in the token trie, so account
queries omitted them and the transaction pool dropped affordable transactions.
---
 core/state/statedb.go |  2 +-
 core/types/token.go   | 20 ++++++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/core/state/statedb.go b/core/state/statedb.go
index 93e8768..532e854 100644
--- a/core/state/statedb.go
+++ b/core/state/statedb.go
@@ -237,7 +237,7 @@ func (s *StateDB) GetBalance(addr common.Address, tokenID uint64) *big.Int {
 func (s *StateDB) GetBalances(addr common.Address) *types.TokenBalances {
 	stateObject := s.GetOrNewStateObject(addr)
 	if stateObject != nil {
-		return stateObject.data.TokenBalances.Copy()
+		return types.NewTokenBalancesWithMap(stateObject.data.TokenBalances.GetBalanceMap())
 	}
 	return types.NewEmptyTokenBalances()
 }
diff --git a/core/types/token.go b/core/types/token.go
index b57db3c..63a5a35 100644
--- a/core/types/token.go
+++ b/core/types/token.go
@@ -186,9 +186,25 @@ func (t *TokenBalances) GetTokenBalance(tokenID uint64) *big.Int {
 	return new(big.Int)
 }
 
+// GetBalanceMap returns a copy of all balances, including the ones stored in the token trie.
 func (t *TokenBalances) GetBalanceMap() map[uint64]*big.Int {
-	data := t.Copy()
-	return data.balances
+	data := t.Copy().balances
+	if t.tokenTrie == nil {
+		return data
+	}
+	it := trie.NewIterator(t.tokenTrie.NodeIterator(nil))
+	for it.Next() {
+		tokenID := new(big.Int).SetBytes(t.tokenTrie.GetKey(it.Key)).Uint64()
+		if _, ok := data[tokenID]; ok {
+			continue
+		}
+		balance := new(big.Int)
+		if err := rlp.DecodeBytes(it.Value, balance); err != nil {
+			panic(err)
+		}
+		data[tokenID] = balance
+	}
+	return data
 }
 
 func (t *TokenBalances) Len() int {
-- 
2.43.0


From d770b769082b3830130e5d16461c159caeaae602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:04 +0000
Subject: [PATCH 11/41] fix: committing a state to disk includes its token
 tries

Account leaves did not reference their token trie, so its nodes were not written
with the state root and the account could not be read after a restart.
---
 core/state/statedb.go | 3 +++
 core/types/token.go   | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/core/state/statedb.go b/core/state/statedb.go
index 532e854..f803844 100644
--- a/core/state/statedb.go
+++ b/core/state/statedb.go
@@ -727,6 +727,9 @@ func (s *StateDB) Commit(deleteEmptyObjects bool) (root common.Hash, err error)
 		if account.Root != emptyState {
 			s.db.TrieDB().Reference(account.Root, parent)
 		}
+		if tokenRoot, ok := account.TokenBalances.TokenTrieRoot(); ok && tokenRoot != emptyState {
+			s.db.TrieDB().Reference(tokenRoot, parent)
+		}
 		code := common.BytesToHash(account.CodeHash)
 		if code != emptyCode {
 			s.db.TrieDB().Reference(code, parent)
diff --git a/core/types/token.go b/core/types/token.go
index 63a5a35..8a3972e 100644
--- a/core/types/token.go
+++ b/core/types/token.go
@@ -207,6 +207,14 @@ func (t *TokenBalances) GetBalanceMap() map[uint64]*big.Int {
 	return data
 }
 
+// TokenTrieRoot returns the root of the token trie, false if the balances are not stored in one.
+func (t *TokenBalances) TokenTrieRoot() (common.Hash, bool) {
+	if t.tokenTrie == nil {
+		return common.Hash{}, false
+	}
+	return t.tokenTrie.Hash(), true
+}
+
 func (t *TokenBalances) Len() int {
 	return len(t.balances)
 }
-- 
2.43.0


From ac20f110fb2e3f7592b8e31ad15cc2a0bdff7d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:37 +0000
Subject: [PATCH 12/41] fix: refuse to encode integers longer than the one-byte
 length can say

---
 serialize/serializer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serialize/serializer.go b/serialize/serializer.go
index 76299c7..92e21a4 100644
--- a/serialize/serializer.go
+++ b/serialize/serializer.go
@@ -111,6 +111,9 @@ func serializeBigInt(i *big.Int, w *[]byte) error {
 	} else if cmp > 0 {
 		bytes = i.Bytes()
 	}
+	if len(bytes) > 255 {
+		return fmt.Errorf("ser: cannot serialize *big.Int of %d bytes", len(bytes))
+	}
 
 	*w = append(*w, uint8(len(bytes)))
 	*w = append(*w, bytes...)
-- 
2.43.0


From d5a7be4c711a8347e4112023e83c111c28df3e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:37 +0000
Subject: [PATCH 13/41] fix: refuse to encode a negative number as a fixed-size
 unsigned integer

---
 serialize/serializer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serialize/serializer.go b/serialize/serializer.go
index 92e21a4..ed147ff 100644
--- a/serialize/serializer.go
+++ b/serialize/serializer.go
@@ -91,6 +91,9 @@ func serializeFixSizeBigUint(val *big.Int, size int, w *[]byte) error {
 		*w = append(*w, bytes...)
 		return nil
 	}
+	if val.Sign() < 0 {
+		return fmt.Errorf("ser: cannot serialize negative *big.Int")
+	}
 	bytes, err := prefillByteArray(size, val.Bytes())
 	if err == nil {
 		*w = append(*w, bytes...)
-- 
2.43.0


From 49ffadac26f852df5ef524a2c348306a7a5d169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:37 +0000
Subject: [PATCH 14/41] fix: an absent token filter survives the
 transaction-list request

---
 cluster/rpc/grpc_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/rpc/grpc_types.go b/cluster/rpc/grpc_types.go
index 68eea11..317af27 100755
--- a/cluster/rpc/grpc_types.go
+++ b/cluster/rpc/grpc_types.go
@@ -182,7 +182,7 @@ type GetTransactionReceiptResponse struct {
 
 type GetTransactionListByAddressRequest struct {
 	Address         *account.Address `json:"address" gencodec:"required"`
-	TransferTokenID *uint64          `json:"transfer_token_id" gencodec:"required"`
+	TransferTokenID *uint64          `json:"transfer_token_id" gencodec:"required" ser:"nil"`
 	Start           []byte           `json:"start" gencodec:"required" bytesizeofslicelen:"4"`
 	Limit           uint32           `json:"limit" gencodec:"required"`
 }
-- 
2.43.0


From 2344ee2744138f1f361f98819191949217926b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:44 +0000
Subject: [PATCH 15/41] fix: write a shard's head, indexes and commit mark in
 one batch

---
 core/minorblockchain.go       | 62 ++++++++++++++++++++++++-----------
 core/minorblockchain_addon.go | 41 ++++++++++++-----------
 2 files changed, 63 insertions(+), 40 deletions(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 86f7061..253a52b 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -317,14 +317,23 @@ func (m *MinorBlockChain) SetHead(head uint64) error {
 func (m *MinorBlockChain) setHead(head uint64) error {
 	log.Warn(m.logInfo+" Rewinding blockchain", "target", head)
 	defer log.Warn(m.logInfo+" Rewinding blockchain-end", "target number", head)
-	// Rewind the header chain, deleting all block bodies until then
 	batch := m.db.NewBatch()
+	m.rewind(batch, head)
+	if err := batch.Write(); err != nil {
+		return err
+	}
+	return m.loadLastState()
+}
+
+// rewind moves the head down to the given height and puts what this changes
+// in the database, head marker included, into the batch.
+func (m *MinorBlockChain) rewind(batch ethdb.Batch, head uint64) {
+	// Rewind the header chain, deleting all block bodies until then
 	for block := m.CurrentBlock(); block != nil && block.NumberU64() > head; block = m.CurrentBlock() {
 		rawdb.DeleteMinorBlock(batch, block.Hash())
 		rawdb.DeleteCanonicalHash(batch, rawdb.ChainTypeMinor, block.NumberU64())
 		m.currentBlock.Store(m.GetMinorBlock(block.ParentHash()))
 	}
-	batch.Write()
 	if currentBlock := m.CurrentBlock(); currentBlock != nil {
 		if _, err := m.StateAt(currentBlock.GetMetaData().Root); err != nil {
 			// Rewound state missing, rolled back to before pivot, reset to genesis
@@ -336,7 +345,7 @@ func (m *MinorBlockChain) setHead(head uint64) error {
 	if currentBlock := m.CurrentBlock(); currentBlock == nil {
 		m.currentBlock.Store(m.genesisBlock)
 	}
-	rawdb.WriteHeadBlockHash(m.db, m.CurrentBlock().Hash())
+	rawdb.WriteHeadBlockHash(batch, m.CurrentBlock().Hash())
 
 	// Clear out any stale content from the caches
 	m.receiptsCache.Purge()
@@ -345,8 +354,6 @@ func (m *MinorBlockChain) setHead(head uint64) error {
 	m.crossShardTxListCache.Purge()
 	m.rootBlockCache.Purge()
 	m.lastConfirmCache.Purge()
-
-	return m.loadLastState()
 }
 
 // GasLimit returns the gas limit of the current HEAD block.
@@ -524,13 +531,17 @@ func (m *MinorBlockChain) ExportN(w io.Writer, first uint64, last uint64) error
 //
 // Note, this function assumes that the `mu` mutex is held!
 func (m *MinorBlockChain) insert(block *types.MinorBlock) {
-	// Add the block to the canonical chain number scheme and mark as the head
-	rawdb.WriteCanonicalHash(m.db, rawdb.ChainTypeMinor, block.Hash(), block.NumberU64())
-	rawdb.WriteHeadBlockHash(m.db, block.Hash())
+	m.writeHead(m.db, block)
 
 	m.currentBlock.Store(block)
 }
 
+// writeHead adds the block to the canonical chain number scheme and marks it as the head
+func (m *MinorBlockChain) writeHead(db rawdb.DatabaseWriter, block *types.MinorBlock) {
+	rawdb.WriteCanonicalHash(db, rawdb.ChainTypeMinor, block.Hash(), block.NumberU64())
+	rawdb.WriteHeadBlockHash(db, block.Hash())
+}
+
 // Genesis retrieves the chain's genesis block.
 func (m *MinorBlockChain) Genesis() *types.MinorBlock {
 	return m.genesisBlock
@@ -963,14 +974,15 @@ func (m *MinorBlockChain) WriteBlockWithState(block *types.MinorBlock, receipts
 		}
 	}
 
-	// Write other block data using a batch.
+	// Write other block data using a batch, so that after a crash the head, the
+	// indexes and the commit mark all agree on whether the block was added.
 	batch := m.db.NewBatch()
 	rawdb.WriteReceipts(batch, block.Hash(), receipts)
 
 	if updateTip {
 		// Reorganise the chain if the parent is not the head block
 		if block.ParentHash() != currentBlock.Hash() {
-			if err := m.reorg(currentBlock, block); err != nil {
+			if err := m.reorgInBatch(batch, currentBlock, block); err != nil {
 				return NonStatTy, err
 			}
 		}
@@ -979,11 +991,13 @@ func (m *MinorBlockChain) WriteBlockWithState(block *types.MinorBlock, receipts
 			panic(err)
 		}
 		rawdb.WritePreimages(batch, state.Preimages())
+		m.writeHead(batch, block)
 		status = CanonStatTy
 
 	} else {
 		status = SideStatTy
 	}
+	rawdb.WriteCommitMinorBlock(batch, block.Hash())
 
 	if err := batch.Write(); err != nil {
 		return NonStatTy, err
@@ -991,9 +1005,8 @@ func (m *MinorBlockChain) WriteBlockWithState(block *types.MinorBlock, receipts
 
 	// Set new head.
 	if status == CanonStatTy {
-		m.insert(block)
+		m.currentBlock.Store(block)
 	}
-	m.CommitMinorBlockByHash(block.Hash())
 	m.futureBlocks.Remove(block.Hash())
 	return status, nil
 }
@@ -1333,6 +1346,20 @@ func (m *MinorBlockChain) insertSidechain(it *insertIterator, isCheckDB bool) (i
 // to be part of the new canonical chain and accumulates potential missing transactions and post an
 // event about them
 func (m *MinorBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
+	batch := m.db.NewBatch()
+	if err := m.reorgInBatch(batch, oldBlock, newBlock); err != nil {
+		return err
+	}
+	if err := batch.Write(); err != nil {
+		return err
+	}
+	return m.loadLastState()
+}
+
+// reorgInBatch collects everything a reorg changes in the database in the batch:
+// after a crash either all of it is there or nothing. The current block follows
+// once the batch is written.
+func (m *MinorBlockChain) reorgInBatch(batch ethdb.Batch, oldBlock, newBlock types.IBlock) error {
 	if qkcCommon.IsNil(oldBlock) || qkcCommon.IsNil(newBlock) {
 		return errors.New("reorg err:block is nil")
 	}
@@ -1423,28 +1450,23 @@ func (m *MinorBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 		// we support reorg block from same chain,because we should delete and add tx index
 		log.Warn(m.logInfo+" reorg", "same chain curr", m.CurrentBlock().NumberU64(), "curr.Hash", m.CurrentBlock().Hash().TerminalString(),
 			"newBlock", newBlockNumber, "newBlock's hash", newBlockHash, "newBlock", m.GetMinorBlock(newBlockHash) == nil)
-		if err := m.setHead(newBlockNumber); err != nil {
-			return err
-		}
+		m.rewind(batch, newBlockNumber)
 	}
 
 	// When transactions get deleted from the database that means the
 	// receipts that were created in the fork must also be deleted
-	batch := m.db.NewBatch()
 	for i := len(oldChain) - 1; i >= 0; i-- {
 		if err := m.removeTxIndexFromBlock(batch, oldChain[i].(*types.MinorBlock)); err != nil {
 			return err
 		}
 	}
 
-	batch.Write()
-
 	// Insert the new chain, taking care of the proper incremental order
 	for i := len(newChain) - 1; i >= 0; i-- {
 		// insert the block in the canonical way, re-writing history
-		m.insert(newChain[i].(*types.MinorBlock))
+		m.writeHead(batch, newChain[i].(*types.MinorBlock))
 		// write lookup entries for hash based transaction/receipt searches
-		if err := m.putTxIndexFromBlock(m.db, newChain[i]); err != nil {
+		if err := m.putTxIndexFromBlock(batch, newChain[i]); err != nil {
 			return err
 		}
 	}
diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index c355a20..a4a1669 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1384,14 +1384,18 @@ func (m *MinorBlockChain) reWriteBlockIndexTo(oldBlock *types.MinorBlock, newBlo
 	if oldBlock == nil {
 		oldBlock = m.CurrentBlock()
 	}
-	if err := m.reorg(oldBlock, newBlock); err != nil {
+	batch := m.db.NewBatch()
+	if err := m.reorgInBatch(batch, oldBlock, newBlock); err != nil {
 		return err
 	}
 	// the head may have moved to a lower block: nothing is canonical above it
 	for number := newBlock.NumberU64() + 1; number <= oldBlock.NumberU64(); number++ {
-		rawdb.DeleteCanonicalHash(m.db, rawdb.ChainTypeMinor, number)
+		rawdb.DeleteCanonicalHash(batch, rawdb.ChainTypeMinor, number)
 	}
-	return nil
+	if err := batch.Write(); err != nil {
+		return err
+	}
+	return m.loadLastState()
 }
 
 func (m *MinorBlockChain) GetBranch() account.Branch {
@@ -1476,11 +1480,11 @@ func (m *MinorBlockChain) putTxIndexFromBlock(batch rawdb.DatabaseWriter, block
 		return errors.New("minor block is nil")
 	}
 	for index, tx := range minorBlock.Transactions() { // put qkc's inshard tx
-		if err := m.putTxHistoryIndex(tx, minorBlock.Number(), index); err != nil {
+		if err := m.putTxHistoryIndex(batch, tx, minorBlock.Number(), index); err != nil {
 			return err
 		}
 	}
-	return m.putTxHistoryIndexFromBlock(minorBlock) // put qkc's xshard tx
+	return m.putTxHistoryIndexFromBlock(batch, minorBlock) // put qkc's xshard tx
 }
 
 func (m *MinorBlockChain) removeTxIndexFromBlock(db rawdb.DatabaseDeleter, block *types.MinorBlock) error {
@@ -1498,7 +1502,7 @@ func (m *MinorBlockChain) removeTxIndexFromBlock(db rawdb.DatabaseDeleter, block
 			rawdb.DeleteBlockContentLookupEntry(db, hash)
 		}
 	}
-	return m.removeTxHistoryIndexFromBlock(block)
+	return m.removeTxHistoryIndexFromBlock(db, block)
 }
 
 func bytesSubOne(data []byte) []byte {
@@ -1722,13 +1726,10 @@ func (m *MinorBlockChain) GetLogsByFilterQuery(args *qrpc.FilterQuery) ([]*types
 	return filter.Logs()
 }
 
-func (m *MinorBlockChain) putTxIndexDB(key []byte) error {
-	err := m.db.Put(key, []byte("1")) //TODO????
-	return err
-}
-
-func (m *MinorBlockChain) deleteTxIndexDB(key []byte) error {
-	return m.db.Delete(key)
+func putTxIndexTo(db rawdb.DatabaseWriter) func(key []byte) error {
+	return func(key []byte) error {
+		return db.Put(key, []byte("1")) //TODO????
+	}
 }
 
 func (m *MinorBlockChain) updateTxHistoryIndex(tx *types.Transaction, height uint64, index int, f func(key []byte) error) error {
@@ -1758,13 +1759,13 @@ func (m *MinorBlockChain) updateTxHistoryIndex(tx *types.Transaction, height uin
 	return nil
 }
 
-func (m *MinorBlockChain) putTxHistoryIndex(tx *types.Transaction, height uint64, index int) error {
-	return m.updateTxHistoryIndex(tx, height, index, m.putTxIndexDB)
+func (m *MinorBlockChain) putTxHistoryIndex(db rawdb.DatabaseWriter, tx *types.Transaction, height uint64, index int) error {
+	return m.updateTxHistoryIndex(tx, height, index, putTxIndexTo(db))
 }
 
 func (m *MinorBlockChain) removeTxHistoryIndex(db rawdb.DatabaseDeleter, tx *types.Transaction, height uint64, index int) error {
 	rawdb.DeleteBlockContentLookupEntry(db, tx.Hash())
-	return m.updateTxHistoryIndex(tx, height, index, m.deleteTxIndexDB)
+	return m.updateTxHistoryIndex(tx, height, index, db.Delete)
 }
 
 func (m *MinorBlockChain) updateTxHistoryIndexFromBlock(block *types.MinorBlock, f func([]byte) error) error {
@@ -1791,12 +1792,12 @@ func (m *MinorBlockChain) updateTxHistoryIndexFromBlock(block *types.MinorBlock,
 	return nil
 }
 
-func (m *MinorBlockChain) putTxHistoryIndexFromBlock(block *types.MinorBlock) error {
-	return m.updateTxHistoryIndexFromBlock(block, m.putTxIndexDB)
+func (m *MinorBlockChain) putTxHistoryIndexFromBlock(db rawdb.DatabaseWriter, block *types.MinorBlock) error {
+	return m.updateTxHistoryIndexFromBlock(block, putTxIndexTo(db))
 }
 
-func (m *MinorBlockChain) removeTxHistoryIndexFromBlock(block *types.MinorBlock) error {
-	return m.updateTxHistoryIndexFromBlock(block, m.deleteTxIndexDB)
+func (m *MinorBlockChain) removeTxHistoryIndexFromBlock(db rawdb.DatabaseDeleter, block *types.MinorBlock) error {
+	return m.updateTxHistoryIndexFromBlock(block, db.Delete)
 }
 
 func (m *MinorBlockChain) ReadCrossShardTxList(hash common.Hash) *types.CrossShardTransactionDepositList {
-- 
2.43.0


From 0774ee362d6149c59f4af74e194cea8fd1ee5c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:44 +0000
Subject: [PATCH 16/41] fix: execute blocks again when a restarted shard lost
 the state of its head

---
 core/minorblockchain_addon.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index a4a1669..f8c6294 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -347,6 +347,20 @@ func (m *MinorBlockChain) validateDestination(tx *types.Transaction, block *type
 func (m *MinorBlockChain) InitGenesisState(rBlock *types.RootBlock) (*types.MinorBlock, error) {
 	log.Info(m.logInfo, "InitGenesisState number", rBlock.Number(), "hash", rBlock.Hash().String())
 	defer log.Info(m.logInfo, "InitGenesisState", "end")
+	initialized := m.initialized
+	gBlock, err := m.initGenesisState(rBlock)
+	if err != nil || initialized {
+		return gBlock, err
+	}
+	// the node may be restarted with blocks after the genesis block
+	m.currentEvmState, err = m.stateAfter(m.CurrentBlock())
+	if err != nil {
+		return nil, err
+	}
+	return gBlock, nil
+}
+
+func (m *MinorBlockChain) initGenesisState(rBlock *types.RootBlock) (*types.MinorBlock, error) {
 	m.mu.Lock() // used in initFromRootBlock and addRootBlock, so should lock
 	defer m.mu.Unlock()
 	var err error
@@ -549,6 +563,17 @@ func reverseList(block []types.IBlock) {
 	}
 }
 
+// stateAfter is the state after the block, which is executed again if its state
+// was lost in a restart.
+func (m *MinorBlockChain) stateAfter(block *types.MinorBlock) (*state.StateDB, error) {
+	if _, err := m.StateAt(block.Root()); err != nil {
+		if err := m.reRunBlockWithState(block); err != nil {
+			return nil, err
+		}
+	}
+	return m.StateAt(block.Root())
+}
+
 func (m *MinorBlockChain) reRunBlockWithState(block *types.MinorBlock) error {
 	blockWithoutState := make([]types.IBlock, 0)
 	for {
@@ -1152,14 +1177,14 @@ func (m *MinorBlockChain) AddRootBlock(rBlock *types.RootBlock) (bool, error) {
 		origBlock := m.GetMinorBlock(origHeaderTip.Hash())
 		newBlock := m.GetMinorBlock(headerTipHash)
 		log.Warn(m.logInfo+" reWrite", "orig_number", origBlock.Number(), "orig_hash", origBlock.Hash().TerminalString(), "new_number", newBlock.Number(), "new_hash", newBlock.Hash().TerminalString())
-		var err error
-		if err = m.reWriteBlockIndexTo(origBlock, newBlock); err != nil {
+		evmState, err := m.stateAfter(newBlock)
+		if err != nil {
 			return false, err
 		}
-		m.currentEvmState, err = m.StateAt(newBlock.Root())
-		if err != nil {
+		if err = m.reWriteBlockIndexTo(origBlock, newBlock); err != nil {
 			return false, err
 		}
+		m.currentEvmState = evmState
 	}
 	return true, nil
 }
-- 
2.43.0


From c64ee3b77b92320acafdb5634010417b49a82443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:44 +0000
Subject: [PATCH 17/41] fix: keep shard blocks above the confirmed one when a
 restart moves the head down

---
 core/minorblockchain.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 253a52b..bae6370 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -1450,7 +1450,13 @@ func (m *MinorBlockChain) reorgInBatch(batch ethdb.Batch, oldBlock, newBlock typ
 		// we support reorg block from same chain,because we should delete and add tx index
 		log.Warn(m.logInfo+" reorg", "same chain curr", m.CurrentBlock().NumberU64(), "curr.Hash", m.CurrentBlock().Hash().TerminalString(),
 			"newBlock", newBlockNumber, "newBlock's hash", newBlockHash, "newBlock", m.GetMinorBlock(newBlockHash) == nil)
-		m.rewind(batch, newBlockNumber)
+		// The blocks themselves stay: root blocks of another fork may confirm them.
+		for _, block := range oldChain {
+			rawdb.DeleteCanonicalHash(batch, rawdb.ChainTypeMinor, block.NumberU64())
+		}
+		if len(newChain) == 0 {
+			rawdb.WriteHeadBlockHash(batch, newBlockHash)
+		}
 	}
 
 	// When transactions get deleted from the database that means the
-- 
2.43.0


From 7ee4dac09ae5160fbac27b73e84cc40243feec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:44 +0000
Subject: [PATCH 18/41] fix: write a root block, its indexes and the head in
 one batch

---
 core/rootblockchain.go | 72 ++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index 623895e..457874d 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -331,6 +331,24 @@ func (bc *RootBlockChain) insert(block *types.RootBlock) {
 	bc.currentBlock.Store(block)
 }
 
+// insertInBatch collects the index entries and head marker of blocks that become
+// canonical, lowest first, in the batch.
+func (bc *RootBlockChain) insertInBatch(batch ethdb.Batch, blocks []*types.RootBlock) error {
+	counts, err := bc.GetBlockCount(blocks[0].Number() - 1)
+	if err != nil {
+		return err
+	}
+	for _, block := range blocks {
+		if err := bc.putRootBlockIndex(batch, block, counts); err != nil {
+			return err
+		}
+		// write lookup entries for hash based transaction/receipt searches
+		rawdb.WriteBlockContentLookupEntriesWithCrossShardHashList(batch, block, nil)
+		rawdb.WriteHeadBlockHash(batch, block.Hash())
+	}
+	return nil
+}
+
 // Genesis retrieves the chain's genesis block.
 func (bc *RootBlockChain) Genesis() *types.RootBlock {
 	return bc.genesisBlock
@@ -454,11 +472,10 @@ func (bc *RootBlockChain) WriteBlockWithState(block *types.RootBlock) (status Wr
 	localTd := currentBlock.TotalDifficulty()
 	externTd := block.TotalDifficulty()
 
-	rawdb.WriteRootBlock(bc.db, block)
-	bc.blockCache.Add(block.Hash(), block)
-
-	// Write other block data using a batch.
+	// Write the block and what it changes using one batch, so that after a crash
+	// the block, the indexes and the head agree.
 	batch := bc.db.NewBatch()
+	rawdb.WriteRootBlock(batch, block)
 
 	// If the total difficulty is higher than our known, add it to the canonical chain
 	// Second clause in the if statement reduces the vulnerability to selfish mining.
@@ -475,13 +492,12 @@ func (bc *RootBlockChain) WriteBlockWithState(block *types.RootBlock) (status Wr
 	if reorg {
 		// Reorganise the chain if the parent is not the head block
 		if block.ParentHash() != currentBlock.Hash() {
-			if err := bc.reorg(currentBlock, block); err != nil {
+			if err := bc.reorg(batch, currentBlock, block); err != nil {
 				return NonStatTy, err
 			}
+		} else if err := bc.insertInBatch(batch, []*types.RootBlock{block}); err != nil {
+			return NonStatTy, err
 		}
-		// Write the positional metadata for transaction/receipt lookups and preimages
-		rawdb.WriteBlockContentLookupEntriesWithCrossShardHashList(batch, block, nil)
-
 		status = CanonStatTy
 	} else {
 		status = SideStatTy
@@ -490,9 +506,11 @@ func (bc *RootBlockChain) WriteBlockWithState(block *types.RootBlock) (status Wr
 		return NonStatTy, err
 	}
 
+	bc.blockCache.Add(block.Hash(), block)
+
 	// Set new head.
 	if status == CanonStatTy {
-		bc.insert(block)
+		bc.currentBlock.Store(block)
 	}
 	bc.futureBlocks.Remove(block.Hash())
 	return status, nil
@@ -793,8 +811,8 @@ func (bc *RootBlockChain) insertSidechain(it *insertIterator) (int, []interface{
 
 // reorgs takes two blocks, an old chain and a new chain and will reconstruct the blocks and inserts them
 // to be part of the new canonical chain and accumulates potential missing transactions and post an
-// event about them
-func (bc *RootBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
+// event about them. What this changes in the database goes in the batch.
+func (bc *RootBlockChain) reorg(batch ethdb.Batch, oldBlock, newBlock types.IBlock) error {
 	log.Debug("reorg", "oldBlock", oldBlock.NumberU64(), "newBlock", newBlock.NumberU64())
 	log.Debug("reorg done")
 	var (
@@ -854,18 +872,19 @@ func (bc *RootBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 	}
 	// Insert the new chain, taking care of the proper incremental order
 	var addedHeaders types.MinorBlockHeaders
+	canonical := make([]*types.RootBlock, 0, len(newChain))
 	for i := len(newChain) - 1; i >= 0; i-- {
-		// insert the block in the canonical way, re-writing history
-		bc.insert(newChain[i].(*types.RootBlock))
-		// write lookup entries for hash based transaction/receipt searches
-		rawdb.WriteBlockContentLookupEntriesWithCrossShardHashList(bc.db, newChain[i].(*types.RootBlock), nil)
+		canonical = append(canonical, newChain[i].(*types.RootBlock))
 		addedHeaders = append(addedHeaders, newChain[i].(*types.RootBlock).MinorBlockHeaders()...)
 	}
+	// insert the blocks in the canonical way, re-writing history
+	if err := bc.insertInBatch(batch, canonical); err != nil {
+		return err
+	}
 	// calculate the difference between deleted and added transactions
 	diff := types.MinorHeaderDifference(deletedHeaders, addedHeaders)
 	// When transactions get deleted from the database that means the
 	// receipts that were created in the fork must also be deleted
-	batch := bc.db.NewBatch()
 	for _, item := range diff {
 		rawdb.DeleteBlockContentLookupEntry(batch, item.Hash())
 	}
@@ -875,7 +894,6 @@ func (bc *RootBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 			rawdb.DeleteCanonicalHash(batch, rawdb.ChainTypeRoot, block.NumberU64())
 		}
 	}
-	batch.Write()
 
 	if len(oldChain) > 0 {
 		go func() {
@@ -1324,11 +1342,6 @@ func (bc *RootBlockChain) AddBlock(block types.IBlock) error {
 }
 
 func (bc *RootBlockChain) PutRootBlockIndex(block *types.RootBlock) error {
-	rawdb.WriteCanonicalHash(bc.db, rawdb.ChainTypeRoot, block.Hash(), block.NumberU64())
-
-	if !bc.countMinorBlocks {
-		return nil
-	}
 	var (
 		shardRecipientCnt = make(map[uint32]map[account.Recipient]uint32)
 		err               error
@@ -1338,6 +1351,17 @@ func (bc *RootBlockChain) PutRootBlockIndex(block *types.RootBlock) error {
 			return err
 		}
 	}
+	return bc.putRootBlockIndex(bc.db, block, shardRecipientCnt)
+}
+
+// putRootBlockIndex writes the index entries of a block, shardRecipientCnt holds
+// the block counts up to its parent and is brought up to the block.
+func (bc *RootBlockChain) putRootBlockIndex(db rawdb.DatabaseWriter, block *types.RootBlock, shardRecipientCnt map[uint32]map[account.Recipient]uint32) error {
+	rawdb.WriteCanonicalHash(db, rawdb.ChainTypeRoot, block.Hash(), block.NumberU64())
+
+	if !bc.countMinorBlocks {
+		return nil
+	}
 
 	// Every shard's record at this height is rewritten, a reorganisation may leave an older one
 	for _, fullShardID := range bc.chainConfig.GetInitializedShardIdsBeforeRootHeight(block.Number()) {
@@ -1355,7 +1379,7 @@ func (bc *RootBlockChain) PutRootBlockIndex(block *types.RootBlock) error {
 		}
 		shardRecipientCnt[fullShardID][recipient] = newCount
 		blockID := encoder.IDEncoder(header.Hash().Bytes(), fullShardID)
-		bc.PutRootBlockConfirmingMinorBlock(blockID, block.Hash())
+		rawdb.PutRootBlockConfirmingMinorBlock(db, blockID, block.Hash())
 	}
 	for fullShardID, infoList := range shardRecipientCnt {
 		dataToDb := new(account.CoinbaseStatses)
@@ -1369,7 +1393,7 @@ func (bc *RootBlockChain) PutRootBlockIndex(block *types.RootBlock) error {
 		if err != nil {
 			return err
 		}
-		rawdb.WriteMinorBlockCnt(bc.db, fullShardID, block.Number(), data)
+		rawdb.WriteMinorBlockCnt(db, fullShardID, block.Number(), data)
 	}
 	return nil
 }
-- 
2.43.0


From ec294a0611b03b8e09d1d0e145aad48e272621c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:51 +0000
Subject: [PATCH 19/41] fix: write the genesis block in one batch

---
 core/genesis.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/core/genesis.go b/core/genesis.go
index 355c6de..b8213f6 100644
--- a/core/genesis.go
+++ b/core/genesis.go
@@ -239,17 +239,19 @@ func (g *Genesis) CommitRootBlock(db ethdb.Database) (*types.RootBlock, error) {
 	if block.Number() != 0 {
 		return nil, fmt.Errorf("can't commit genesis block with number > 0")
 	}
-	rawdb.WriteRootBlock(db, block)
-	rawdb.WriteCanonicalHash(db, rawdb.ChainTypeRoot, block.Hash(), block.NumberU64())
-	rawdb.WriteHeadBlockHash(db, block.Hash())
-	rawdb.WriteHeadHeaderHash(db, block.Hash())
+	// all or nothing: a start that was interrupted here is started again
+	batch := db.NewBatch()
+	rawdb.WriteRootBlock(batch, block)
+	rawdb.WriteCanonicalHash(batch, rawdb.ChainTypeRoot, block.Hash(), block.NumberU64())
+	rawdb.WriteHeadBlockHash(batch, block.Hash())
+	rawdb.WriteHeadHeaderHash(batch, block.Hash())
 
 	qkcConfig := g.qkcConfig
 	if qkcConfig == nil {
 		qkcConfig = config.NewQuarkChainConfig()
 	}
-	rawdb.WriteChainConfig(db, block.Hash(), qkcConfig)
-	return block, nil
+	rawdb.WriteChainConfig(batch, block.Hash(), qkcConfig)
+	return block, batch.Write()
 }
 
 // CommitMinorBlock writes the block and state of a genesis specification to the database.
@@ -265,19 +267,20 @@ func (g *Genesis) CommitMinorBlock(db ethdb.Database, rootBlock *types.RootBlock
 	if block.Number() != 0 {
 		return nil, fmt.Errorf("can't commit genesis block with number > 0")
 	}
-	rawdb.WriteMinorBlock(db, block)
-	rawdb.WriteReceipts(db, block.Hash(), nil)
-	rawdb.WriteCanonicalHash(db, rawdb.ChainTypeMinor, block.Hash(), block.Number())
-	rawdb.WriteHeadBlockHash(db, block.Hash())
-	rawdb.WriteHeadHeaderHash(db, block.Hash())
+	batch := db.NewBatch()
+	rawdb.WriteMinorBlock(batch, block)
+	rawdb.WriteReceipts(batch, block.Hash(), nil)
+	rawdb.WriteCanonicalHash(batch, rawdb.ChainTypeMinor, block.Hash(), block.Number())
+	rawdb.WriteHeadBlockHash(batch, block.Hash())
+	rawdb.WriteHeadHeaderHash(batch, block.Hash())
 
 	qkcConfig := g.qkcConfig
 	if qkcConfig == nil {
 		qkcConfig = config.NewQuarkChainConfig()
 	}
-	rawdb.WriteCommitMinorBlock(db, block.Hash())
-	rawdb.WriteChainConfig(db, block.Hash(), qkcConfig)
-	return block, nil
+	rawdb.WriteCommitMinorBlock(batch, block.Hash())
+	rawdb.WriteChainConfig(batch, block.Hash(), qkcConfig)
+	return block, batch.Write()
 }
 
 // MustCommit writes the genesis block and state to db, panicking on error.
-- 
2.43.0


From 7d253ec281523d8b732c7433f6ca2150ed9270f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:08 +0000
Subject: [PATCH 20/41] fix: the miner's control calls and loops no longer wait
 for each other for ever

---
 cluster/miner/miner.go | 67 +++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 23 deletions(-)

diff --git a/cluster/miner/miner.go b/cluster/miner/miner.go
index 2d556a5..82b03ad 100644
--- a/cluster/miner/miner.go
+++ b/cluster/miner/miner.go
@@ -72,28 +72,44 @@ func (m *Miner) getTip() uint64 {
 func (m *Miner) interrupt() {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	m.interruptLocked()
+}
+
+func (m *Miner) interruptLocked() {
 	if m.stopCh != nil {
 		close(m.stopCh)
 		m.stopCh = make(chan struct{})
 	}
 }
 
-func (m *Miner) allowMining() bool {
-	if !m.IsMining() ||
-		time.Now().Sub(m.ctx.GetTimestamp()).Seconds() > deadtime {
-		return false
+// start requests new work to be committed. A request that is still queued
+// covers this one as well, so the call never waits for commitLoop.
+func (m *Miner) start() {
+	select {
+	case m.startCh <- struct{}{}:
+	default:
 	}
-	return true
+}
+
+func (m *Miner) currentStopCh() chan struct{} {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+	return m.stopCh
+}
+
+// isDead tells whether there was no contact with the master for too long.
+func (m *Miner) isDead() bool {
+	return time.Now().Sub(m.ctx.GetTimestamp()).Seconds() > deadtime
 }
 
 func (m *Miner) commit(addr *account.Address) {
-	// don't allow to mine
-	if m.api.IsSyncing() {
-		time.Sleep(500 * time.Millisecond)
-		m.startCh <- struct{}{}
+	if !m.IsMining() {
 		return
 	}
-	if !m.allowMining() {
+	// don't allow to mine for now
+	if m.api.IsSyncing() || m.isDead() {
+		time.Sleep(500 * time.Millisecond)
+		m.start()
 		return
 	}
 	m.interrupt()
@@ -102,17 +118,20 @@ func (m *Miner) commit(addr *account.Address) {
 		log.Error(m.logInfo, "create block to mine err", err)
 		// retry to create block to mine
 		time.Sleep(2 * time.Second)
-		m.startCh <- struct{}{}
+		m.start()
 		return
 	}
 	tip := m.getTip()
 	if block.NumberU64() <= tip {
 		log.Error(m.logInfo, "block's height small than tipHeight after commit blockNumber ,no need to seal", block.NumberU64(), "tip", m.getTip())
 		time.Sleep(2 * time.Second)
-		m.startCh <- struct{}{}
+		m.start()
 		return
 	}
-	m.workCh <- workAdjusted{block, diff, optionalDivider}
+	select {
+	case m.workCh <- workAdjusted{block, diff, optionalDivider}:
+	case <-m.exitCh:
+	}
 }
 
 func (m *Miner) commitLoop() {
@@ -135,13 +154,17 @@ func (m *Miner) sealLoop() {
 		select {
 		case work := <-m.workCh: // to discuss:need this?
 			log.Debug(m.logInfo, "ready to seal height", work.block.NumberU64(), "coinbase", work.block.Coinbase().ToHex())
-			m.mu.Lock()
-			if err := m.engine.Seal(nil, work.block, work.adjustedDifficulty, work.optionalDivider, m.resultCh, m.stopCh); err != nil {
+			if work.block.NumberU64() <= m.getTip() {
+				// overtaken by a newer tip while it was queued
+				m.start()
+				continue
+			}
+			if err := m.engine.Seal(nil, work.block, work.adjustedDifficulty, work.optionalDivider, m.resultCh, m.currentStopCh()); err != nil {
 				log.Error(m.logInfo, "Seal block to mine err", err)
 				coinbase := work.block.Coinbase()
-				m.commit(&coinbase)
+				// commit hands its work to this loop, which must not wait for it
+				go m.commit(&coinbase)
 			}
-			m.mu.Unlock()
 
 		case <-m.exitCh:
 			log.Error("sealLoop exit")
@@ -183,9 +206,9 @@ func (m *Miner) SetMining(mining bool) {
 	defer m.mu.Unlock()
 	m.isMining = mining
 	if mining {
-		m.startCh <- struct{}{}
+		m.start()
 	} else {
-		m.interrupt()
+		m.interruptLocked()
 	}
 }
 
@@ -203,7 +226,7 @@ func (m *Miner) GetWork(coinbaseAddr *account.Address) (*consensus.MiningWork, e
 				work := workAdjusted{block, diff, optionalDivider}
 				go func() {
 					if err := m.engine.Seal(nil, work.block, work.adjustedDifficulty, work.optionalDivider,
-						m.resultCh, m.stopCh); err != nil {
+						m.resultCh, m.currentStopCh()); err != nil {
 						log.Error(m.logInfo, "Seal block to mine err", err)
 						coinbase := work.block.Coinbase()
 						m.commit(&coinbase)
@@ -229,9 +252,7 @@ func (m *Miner) SubmitWork(nonce uint64, hash, digest common.Hash, signature *[6
 func (m *Miner) HandleNewTip() {
 	log.Debug(m.logInfo, "handle new tip: height", m.getTip())
 	m.engine.RefreshWork(m.api.GetTip())
-	if m.api.IsSyncing() == false {
-		m.startCh <- struct{}{}
-	}
+	m.start()
 }
 
 func (m *Miner) IsMining() bool {
-- 
2.43.0


From 620f486af7e445e50890e31863b7d8b1da441ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:08 +0000
Subject: [PATCH 21/41] fix: work issued again is current again, and fetching
 work takes its lock

---
 consensus/remote.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/consensus/remote.go b/consensus/remote.go
index 6e484e3..5c8f932 100644
--- a/consensus/remote.go
+++ b/consensus/remote.go
@@ -55,10 +55,6 @@ func (c *CommonEngine) remote() {
 
 	makeWork := func(block types.IBlock, adjustedDiff *big.Int, optionalDivider uint64) {
 		hash := block.IHeader().SealHash()
-		if works.Contains(hash) {
-			return
-		}
-
 		diff := block.IHeader().GetDifficulty()
 		if adjustedDiff != nil {
 			diff = adjustedDiff
@@ -188,6 +184,9 @@ func (c *currentWorks) len() int {
 }
 
 func (c *currentWorks) getWorkByAddr(addr account.Address) (*MiningWork, error) {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+
 	work := c.works[addr]
 	if work == nil {
 		return nil, ErrNoMiningWork
-- 
2.43.0


From bca8a782e9722da31a59d4c340ac55aa08d949d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:19 +0000
Subject: [PATCH 22/41] fix: a sync task with no common ancestor ends with an
 error, and compares total difficulties

The ancestor search ends without an ancestor when the two chains share no block within
the staleness window, and the task then dereferenced nil.  The tip a peer returns with
root headers was compared with the difficulty of the announced header instead of its
total difficulty.
---
 cluster/sync/minor_task.go | 2 +-
 cluster/sync/root_task.go  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cluster/sync/minor_task.go b/cluster/sync/minor_task.go
index 368148c..79e66d7 100644
--- a/cluster/sync/minor_task.go
+++ b/cluster/sync/minor_task.go
@@ -55,7 +55,7 @@ func NewMinorChainTask(
 				return nil, err
 			}
 
-			if !bc.HasBlock(ancestor.Hash()) {
+			if ancestor == nil || !bc.HasBlock(ancestor.Hash()) {
 				return nil, errors.New("Bad ancestor ")
 			}
 
diff --git a/cluster/sync/root_task.go b/cluster/sync/root_task.go
index 877c7b8..404b0ec 100644
--- a/cluster/sync/root_task.go
+++ b/cluster/sync/root_task.go
@@ -65,7 +65,7 @@ func NewRootChainTask(
 				return nil, err
 			}
 
-			if !bc.HasBlock(ancestor.Hash()) {
+			if ancestor == nil || !bc.HasBlock(ancestor.Hash()) {
 				return nil, errors.New("Bad ancestor ")
 			}
 
@@ -154,7 +154,7 @@ func (r *rootChainTask) downloadBlockHeaderListAndCheck(start uint32, skip,
 	r.stats.HeadersDownloaded += uint64(len(resp.BlockHeaderList))
 
 	// check total difficulty
-	if resp.RootTip.ToTalDifficulty.Cmp(r.header.GetDifficulty()) <= 0 {
+	if resp.RootTip.ToTalDifficulty.Cmp(r.header.ToTalDifficulty) < 0 {
 		return nil, errors.New("Bad peer sending root block tip with lower TD ")
 	}
 
-- 
2.43.0


From d3016e186eb872716955219664818b60264e2b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:19 +0000
Subject: [PATCH 23/41] fix: sync only takes the blocks it asked for

A peer could answer a block request with other blocks, for example ones already known,
so that the task never got past its ancestor and never ended.
---
 cluster/sync/task.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cluster/sync/task.go b/cluster/sync/task.go
index e066ead..65f5adb 100644
--- a/cluster/sync/task.go
+++ b/cluster/sync/task.go
@@ -85,6 +85,7 @@ func (t *task) Run(bc blockchain) error {
 
 		for len(hashlist) > 0 {
 			var blocks []types.IBlock
+			requested := hashlist
 			if len(hashlist) > t.batchSize {
 				blocks, err = t.getBlocks(hashlist[:t.batchSize])
 				if err != nil {
@@ -111,6 +112,12 @@ func (t *task) Run(bc blockchain) error {
 				return err
 			}
 
+			for i, blk := range blocks {
+				if blk.Hash() != requested[i] {
+					return fmt.Errorf("bad peer sending a block that was not asked for, expect: %s, actual: %s", requested[i].String(), blk.Hash().String())
+				}
+			}
+
 			counter := 0
 			for _, blk := range blocks {
 				if t.syncBlock != nil {
-- 
2.43.0


From 3d5c7c0d1d05faab863383e364cfc02a6bcc2705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:27 +0000
Subject: [PATCH 24/41] fix: an unknown p2p command op prints as its number
 instead of crashing the node

---
 p2p/p2p_commands.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/p2p_commands.go b/p2p/p2p_commands.go
index 786742a..66309c5 100644
--- a/p2p/p2p_commands.go
+++ b/p2p/p2p_commands.go
@@ -68,7 +68,7 @@ var OPSerializerMap = map[P2PCommandOp]interface{}{
 
 func (p P2PCommandOp) String() string {
 	if _, ok := OPSerializerMap[p]; !ok {
-		strconv.Itoa(int(p))
+		return strconv.Itoa(int(p))
 	}
 	return reflect.TypeOf(OPSerializerMap[p]).Name()
 }
-- 
2.43.0


From 850458a27bf9aecd2ef3a96cddfb5db9bba070e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:47 +0000
Subject: [PATCH 25/41] fix: no message of a peer can crash the master or block
 its session

---
 cluster/master/handle.go | 38 +++++++-------------------------------
 cluster/master/peer.go   | 26 +++++++++++++++++++++-----
 2 files changed, 28 insertions(+), 36 deletions(-)

diff --git a/cluster/master/handle.go b/cluster/master/handle.go
index 5b92e4a..1d9f610 100644
--- a/cluster/master/handle.go
+++ b/cluster/master/handle.go
@@ -266,11 +266,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		if err := serialize.DeserializeFromBytes(qkcMsg.Data, &blockHeaderResp); err != nil {
 			return err
 		}
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
-			c <- &blockHeaderResp
-		} else {
-			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
-		}
+		peer.deliver(qkcMsg.RpcID, &blockHeaderResp)
 
 	case qkcMsg.Op == p2p.GetRootBlockListRequestMsg:
 		var rootBlockReq p2p.GetRootBlockListRequest
@@ -290,11 +286,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		if err := serialize.DeserializeFromBytes(qkcMsg.Data, &blockResp); err != nil {
 			return err
 		}
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
-			c <- blockResp.RootBlockList
-		} else {
-			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
-		}
+		peer.deliver(qkcMsg.RpcID, blockResp.RootBlockList)
 
 	case qkcMsg.Op == p2p.GetRootBlockHeaderListWithSkipRequestMsg:
 		var rBHeadersSkip p2p.GetRootBlockHeaderListWithSkipRequest
@@ -312,11 +304,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		if err := serialize.DeserializeFromBytes(qkcMsg.Data, &minorBlockResp); err != nil {
 			return err
 		}
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
-			c <- &minorBlockResp
-		} else {
-			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
-		}
+		peer.deliver(qkcMsg.RpcID, &minorBlockResp)
 
 	case qkcMsg.Op == p2p.GetMinorBlockHeaderListRequestMsg:
 		go func() {
@@ -332,11 +320,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		}()
 
 	case qkcMsg.Op == p2p.GetMinorBlockHeaderListResponseMsg:
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
-			c <- qkcMsg.Data
-		} else {
-			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
-		}
+		peer.deliver(qkcMsg.RpcID, qkcMsg.Data)
 
 	case qkcMsg.Op == p2p.GetMinorBlockListRequestMsg:
 		go func() {
@@ -351,14 +335,10 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		}()
 
 	case qkcMsg.Op == p2p.GetMinorBlockListResponseMsg:
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
-			c <- qkcMsg.Data
-		} else {
-			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
-		}
+		peer.deliver(qkcMsg.RpcID, qkcMsg.Data)
 
 	case qkcMsg.Op == p2p.NewRootBlockMsg:
-		panic("not implemented")
+		return errors.New("NewRootBlockMsg is not implemented")
 
 	case qkcMsg.Op == p2p.GetMinorBlockHeaderListWithSkipRequestMsg:
 		go func() {
@@ -373,11 +353,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		}()
 
 	case qkcMsg.Op == p2p.GetMinorBlockHeaderListWithSkipResponseMsg:
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
-			c <- qkcMsg.Data
-		} else {
-			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
-		}
+		peer.deliver(qkcMsg.RpcID, qkcMsg.Data)
 
 	default:
 		return fmt.Errorf("unknown msg code %d", qkcMsg.Op)
diff --git a/cluster/master/peer.go b/cluster/master/peer.go
index f6fa80a..c18ec7a 100644
--- a/cluster/master/peer.go
+++ b/cluster/master/peer.go
@@ -17,6 +17,7 @@ import (
 	"github.com/QuarkChain/goquarkchain/p2p/nodefilter"
 	"github.com/QuarkChain/goquarkchain/serialize"
 	"github.com/ethereum/go-ethereum/common"
+	"github.com/ethereum/go-ethereum/log"
 )
 
 var (
@@ -259,6 +260,21 @@ func (p *Peer) getChan(rpcId uint64) chan interface{} {
 	return p.chans[rpcId]
 }
 
+// deliver hands a response to the request waiting for it. Only the first response
+// counts, more of them must not block the session.
+func (p *Peer) deliver(rpcId uint64, response interface{}) {
+	c := p.getChan(rpcId)
+	if c == nil {
+		log.Warn(fmt.Sprintf("chan for rpc %d is missing", rpcId))
+		return
+	}
+	select {
+	case c <- response:
+	default:
+		log.Warn(fmt.Sprintf("more than one response for rpc %d", rpcId))
+	}
+}
+
 func (p *Peer) addChan(rpcId uint64, rpcchan chan interface{}) {
 	p.chanLock.Lock()
 	defer p.chanLock.Unlock()
@@ -306,7 +322,7 @@ func (p *Peer) GetRootBlockHeaderList(req *p2p.GetRootBlockHeaderListWithSkipReq
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.(*p2p.GetRootBlockHeaderListResponse); !ok {
-			panic("invalid return result in GetRootBlockHeaderList")
+			return nil, errors.New("invalid return result in GetRootBlockHeaderList")
 		} else {
 			return ret, nil
 		}
@@ -343,7 +359,7 @@ func (p *Peer) GetMinorBlockHeaderListWithSkip(req *rpc.P2PRedirectRequest) (res
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]byte); !ok {
-			panic("invalid return result in GetMinorBlockHeaderList")
+			return nil, errors.New("invalid return result in GetMinorBlockHeaderList")
 		} else {
 			return ret, nil
 		}
@@ -365,7 +381,7 @@ func (p *Peer) GetMinorBlockHeaderList(req *rpc.P2PRedirectRequest) (res []byte,
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]byte); !ok {
-			panic("invalid return result in GetMinorBlockHeaderList")
+			return nil, errors.New("invalid return result in GetMinorBlockHeaderList")
 		} else {
 			return ret, nil
 		}
@@ -398,7 +414,7 @@ func (p *Peer) GetRootBlockList(hashes []common.Hash) ([]*types.RootBlock, error
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]*types.RootBlock); !ok {
-			panic("invalid return result in GetRootBlockList")
+			return nil, errors.New("invalid return result in GetRootBlockList")
 		} else {
 			return ret, nil
 		}
@@ -433,7 +449,7 @@ func (p *Peer) GetMinorBlockList(req *rpc.P2PRedirectRequest) ([]byte, error) {
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]byte); !ok {
-			panic("invalid return result in GetMinorBlockList")
+			return nil, errors.New("invalid return result in GetMinorBlockList")
 		} else {
 			return ret, nil
 		}
-- 
2.43.0


From 8dee46e4096957cd05e416ec63b3b774b259e5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:47 +0000
Subject: [PATCH 26/41] fix: a header request with a large skip does not wrap
 around

---
 cluster/master/handle.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cluster/master/handle.go b/cluster/master/handle.go
index 1d9f610..4cff201 100644
--- a/cluster/master/handle.go
+++ b/cluster/master/handle.go
@@ -514,15 +514,16 @@ func (pm *ProtocolManager) HandleGetRootBlockHeaderListWithSkipRequest(peerId st
 	}
 
 	var (
-		height     uint32
+		height     uint64
 		hash       common.Hash
 		rBHeader   *types.RootBlockHeader
+		step       = uint64(request.Skip) + 1
 		headerlist = make([]*types.RootBlockHeader, 0, request.Limit)
 	)
 
 	rTip := pm.rootBlockChain.CurrentHeader().(*types.RootBlockHeader)
 	if request.Type == 1 {
-		height = *request.GetHeight()
+		height = uint64(*request.GetHeight())
 	} else {
 		hash = request.GetHash()
 		iHeader := pm.rootBlockChain.GetHeader(hash)
@@ -536,19 +537,22 @@ func (pm *ProtocolManager) HandleGetRootBlockHeaderListWithSkipRequest(peerId st
 		if qkcom.IsNil(iHeader) || rBHeader.Hash() != iHeader.Hash() {
 			return &p2p.GetRootBlockHeaderListResponse{RootTip: rTip}, nil
 		}
-		height = rBHeader.Number
+		height = rBHeader.NumberU64()
 	}
 
-	for len(headerlist) < int(request.Limit) && height >= 0 && height <= rTip.Number {
-		iHeader := pm.rootBlockChain.GetHeaderByNumber(uint64(height))
+	for len(headerlist) < int(request.Limit) && height <= rTip.NumberU64() {
+		iHeader := pm.rootBlockChain.GetHeaderByNumber(height)
 		if qkcom.IsNil(iHeader) {
 			break
 		}
 		headerlist = append(headerlist, iHeader.(*types.RootBlockHeader))
 		if request.Direction == qkcom.DirectionToGenesis {
-			height -= request.Skip + 1
+			if height < step {
+				break
+			}
+			height -= step
 		} else {
-			height += request.Skip + 1
+			height += step
 		}
 	}
 
-- 
2.43.0


From 33a1a92a3caf211bfd8a6013c77877a05ded14cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 27/41] fix: transactions that cannot be paid for leave the
 pool and no others, whatever tokens they use

---
 core/tx_list.go | 53 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/core/tx_list.go b/core/tx_list.go
index 442965f..9efdfbd 100644
--- a/core/tx_list.go
+++ b/core/tx_list.go
@@ -263,8 +263,10 @@ func (l *txList) Add(tx *types.Transaction, priceBump uint64) (bool, *types.Tran
 	// Otherwise overwrite the old transaction with the current one
 	l.txs.Put(tx)
 
-	if cost := tx.EvmTx.Cost(); l.cmpCostCapValue(tx.EvmTx.TransferTokenID(), cost) < 0 {
-		l.costcap[tx.EvmTx.TransferTokenID()] = cost
+	for token, cost := range txCosts(tx) {
+		if l.costcap[token] == nil || l.costcap[token].Cmp(cost) < 0 {
+			l.costcap[token] = cost
+		}
 	}
 	if gas := tx.EvmTx.Gas(); l.gascap < gas {
 		l.gascap = gas
@@ -272,11 +274,25 @@ func (l *txList) Add(tx *types.Transaction, priceBump uint64) (bool, *types.Tran
 	return true, old
 }
 
-func (l *txList) cmpCostCapValue(token uint64, balance *big.Int) int {
-	if l.costcap[token] == nil {
-		l.costcap[token] = new(big.Int)
+// txCosts returns what a transaction takes at most from the sender's balance of each token.
+func txCosts(tx *types.Transaction) map[uint64]*big.Int {
+	costs := map[uint64]*big.Int{tx.EvmTx.TransferTokenID(): new(big.Int).Set(tx.EvmTx.Value())}
+	gas := new(big.Int).Mul(tx.EvmTx.GasPrice(), new(big.Int).SetUint64(tx.EvmTx.Gas()))
+	if value := costs[tx.EvmTx.GasTokenID()]; value != nil {
+		gas.Add(gas, value)
+	}
+	costs[tx.EvmTx.GasTokenID()] = gas
+	return costs
+}
+
+// covered returns whether the balances cover all the costs.
+func covered(costs, balances map[uint64]*big.Int) bool {
+	for token, cost := range costs {
+		if cost.Sign() > 0 && (balances[token] == nil || balances[token].Cmp(cost) < 0) {
+			return false
+		}
 	}
-	return l.costcap[token].Cmp(balance)
+	return true
 }
 
 // Forward removes all transactions from the list with a nonce lower than the
@@ -297,21 +313,26 @@ func (l *txList) Forward(threshold uint64) types.Transactions {
 // the newly invalidated transactions.
 func (l *txList) Filter(costLimit map[uint64]*big.Int, gasLimit uint64) (types.Transactions, types.Transactions) {
 	// If all transactions are below the threshold, short circuit
-	for token, bal := range costLimit {
-		if l.cmpCostCapValue(token, bal) <= 0 && l.gascap <= gasLimit {
-			return nil, nil
+	if covered(l.costcap, costLimit) && l.gascap <= gasLimit {
+		return nil, nil
+	}
+	// Lower the caps to the thresholds
+	for token, cost := range l.costcap {
+		limit := costLimit[token]
+		if limit == nil {
+			limit = new(big.Int)
+		}
+		if cost.Cmp(limit) > 0 {
+			l.costcap[token] = new(big.Int).Set(limit)
 		}
 	}
-
-	l.costcap = costLimit // Lower the caps to the thresholds
-	l.gascap = gasLimit
+	if l.gascap > gasLimit {
+		l.gascap = gasLimit
+	}
 
 	// Filter out all the transactions above the account's funds
 	removed := l.txs.Filter(func(tx *types.Transaction) bool {
-		if costLimit[tx.EvmTx.TransferTokenID()] == nil {
-			costLimit[tx.EvmTx.TransferTokenID()] = new(big.Int)
-		}
-		return tx.EvmTx.Cost().Cmp(costLimit[tx.EvmTx.TransferTokenID()]) > 0 || tx.EvmTx.Gas() > gasLimit
+		return tx.EvmTx.Gas() > gasLimit || !covered(txCosts(tx), costLimit)
 	})
 
 	// If the list was strict, filter anything above the lowest nonce
-- 
2.43.0


From cd678f70e639f6c43bf2f6a824fb90e8015751c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 28/41] fix: each transaction of a batch gets its own result

---
 core/tx_pool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/tx_pool.go b/core/tx_pool.go
index 3d51844..4c995ef 100644
--- a/core/tx_pool.go
+++ b/core/tx_pool.go
@@ -665,6 +665,7 @@ func (pool *TxPool) addTxs(txs []*types.Transaction, local, sync bool) []error {
 			nilSlot++
 		}
 		errs[nilSlot] = err
+		nilSlot++
 	}
 	// Reorg the pool internals if needed and return
 	done := pool.requestPromoteExecutables(dirtyAddrs)
-- 
2.43.0


From d15ba91e923f5c5f126a5b1bb282a00b4aa4d550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 29/41] fix: after a head change the pool continues the runs of
 nonces that remain

---
 core/tx_pool.go | 92 +++++++++++++++++++++++--------------------------
 1 file changed, 44 insertions(+), 48 deletions(-)

diff --git a/core/tx_pool.go b/core/tx_pool.go
index 4c995ef..9919156 100644
--- a/core/tx_pool.go
+++ b/core/tx_pool.go
@@ -883,6 +883,15 @@ func (pool *TxPool) runReorg(done chan struct{}, reset *txpoolResetRequest, dirt
 				delete(events, addr)
 			}
 		}
+		// Validate the pool of pending transactions. This will remove any transaction
+		// that has been included in the block or was invalidated because of another
+		// transaction (e.g. higher gas price). It comes before the promotion, which
+		// continues the runs of nonces that remain.
+		pool.demoteUnexecutables()
+		for addr, list := range pool.pending {
+			txs := list.Flatten()
+			pool.pendingNonces.set(addr, txs[len(txs)-1].EvmTx.Nonce()+1)
+		}
 		// Reset needs promote for all addresses
 		promoteAddrs = promoteAddrs[:0]
 		for addr := range pool.queue {
@@ -898,12 +907,6 @@ func (pool *TxPool) runReorg(done chan struct{}, reset *txpoolResetRequest, dirt
 		}
 		events[addr].Put(tx)
 	}
-	// If a new block appeared, validate the pool of pending transactions. This will
-	// remove any transaction that has been included in the block or was invalidated
-	// because of another transaction (e.g. higher gas price).
-	if reset != nil {
-		pool.demoteUnexecutables()
-	}
 	// Ensure pool.queue and pool.pending sizes stay within the configured limits.
 	pool.truncatePending()
 	pool.truncateQueue()
@@ -929,20 +932,33 @@ func (pool *TxPool) runReorg(done chan struct{}, reset *txpoolResetRequest, dirt
 // of the transaction pool is valid with regard to the chain state.
 func (pool *TxPool) reset(oldBlock, newBlock *types.MinorBlock) {
 	// If we're reorging an old state, reinject all dropped transactions
-	var reinject types.Transactions
-	var oldHead *types.MinorBlock
-	var newHead *types.MinorBlock
-	if oldBlock == nil {
-		oldHead = nil
-	} else {
-		oldHead = oldBlock
+	reinject := pool.droppedTxs(oldBlock, newBlock)
+	// Initialize the internal state to the current head
+	if newBlock == nil {
+		newBlock = pool.chain.CurrentBlock() // Special case during testing
+	}
+	statedb, err := pool.chain.stateAtWithSenderDisallowMap(newBlock, nil)
+	if err != nil {
+		log.Error("Failed to reset txpool state", "err", err)
+		return
 	}
+	pool.currentState = statedb
+	pool.currentState.SetQuarkChainConfig(pool.chain.Config())
+	pool.pendingNonces = newTxNoncer(statedb)
+	pool.currentMaxGas = newBlock.GasLimit().Uint64()
 
-	if newBlock == nil {
-		newHead = nil
-	} else {
-		newHead = newBlock
+	// Inject any transactions discarded due to reorgs
+	log.Debug("Reinjecting stale transactions", "count", len(reinject))
+	senderCacher.recover(pool.signer, reinject)
+	pool.addTxsLocked(reinject, false)
+	if pool.fakeChanForReset != nil {
+		pool.fakeChanForReset <- newBlock.NumberU64()
 	}
+}
+
+// droppedTxs returns the transactions which are on the old head's chain but not
+// on the new head's.
+func (pool *TxPool) droppedTxs(oldHead, newHead *types.MinorBlock) types.Transactions {
 	if newHead != nil && oldHead != nil && oldHead.Hash() != newHead.ParentHash() {
 		// If the reorg is too deep, avoid doing it (will happen during fast sync)
 		oldNum := oldHead.NumberU64()
@@ -960,7 +976,7 @@ func (pool *TxPool) reset(oldBlock, newBlock *types.MinorBlock) {
 			if rem == nil && add == nil {
 				log.Error("txpool issue:rem and add is nil", "old_Number", oldHead.Number, "old_hash", oldHead.Hash().String(),
 					"new_Number", newHead.Number, "new_Hash", newHead.Hash().String())
-				return
+				return nil
 			}
 			if rem == nil {
 				// This can happen if a setHead is performed, where we simply discard the old
@@ -976,63 +992,43 @@ func (pool *TxPool) reset(oldBlock, newBlock *types.MinorBlock) {
 					log.Warn("Transaction pool reset with missing oldhead",
 						"old", oldHead.Hash(), "oldnum", oldNum, "new", newHead.Hash(), "newnum", newNum)
 				}
-				return
+				return nil
 			}
 			if add == nil {
 				log.Error("txpool issue: add is nil", "old_Number", oldHead.Number, "old_hash", oldHead.Hash().String(),
 					"new_Number", newHead.Number, "new_Hash", newHead.Hash().String())
-				return
+				return nil
 			}
 			for rem.NumberU64() > add.NumberU64() {
 				discarded = append(discarded, rem.Transactions()...)
 				if rem = pool.chain.GetMinorBlock(rem.ParentHash()); rem == nil {
 					log.Error("Unrooted old chain seen by tx pool", "block", oldHead.Number, "hash", oldHead.Hash())
-					return
+					return nil
 				}
 			}
 			for add.NumberU64() > rem.NumberU64() {
 				included = append(included, add.Transactions()...)
 				if add = pool.chain.GetMinorBlock(add.ParentHash()); add == nil {
 					log.Error("Unrooted new chain seen by tx pool", "block", newHead.Number, "hash", newHead.Hash())
-					return
+					return nil
 				}
 			}
 			for rem.Hash() != add.Hash() {
 				discarded = append(discarded, rem.Transactions()...)
 				if rem = pool.chain.GetMinorBlock(rem.ParentHash()); rem == nil {
 					log.Error("Unrooted old chain seen by tx pool", "block", oldHead.Number, "hash", oldHead.Hash())
-					return
+					return nil
 				}
 				included = append(included, add.Transactions()...)
 				if add = pool.chain.GetMinorBlock(add.ParentHash()); add == nil {
 					log.Error("Unrooted new chain seen by tx pool", "block", newHead.Number, "hash", newHead.Hash())
-					return
+					return nil
 				}
 			}
-			reinject = types.TxDifference(discarded, included)
+			return types.TxDifference(discarded, included)
 		}
 	}
-	// Initialize the internal state to the current head
-	if newBlock == nil {
-		newBlock = pool.chain.CurrentBlock() // Special case during testing
-	}
-	statedb, err := pool.chain.stateAtWithSenderDisallowMap(newBlock, nil)
-	if err != nil {
-		log.Error("Failed to reset txpool state", "err", err)
-		return
-	}
-	pool.currentState = statedb
-	pool.currentState.SetQuarkChainConfig(pool.chain.Config())
-	pool.pendingNonces = newTxNoncer(statedb)
-	pool.currentMaxGas = newBlock.GasLimit().Uint64()
-
-	// Inject any transactions discarded due to reorgs
-	log.Debug("Reinjecting stale transactions", "count", len(reinject))
-	senderCacher.recover(pool.signer, reinject)
-	pool.addTxsLocked(reinject, false)
-	if pool.fakeChanForReset != nil {
-		pool.fakeChanForReset <- newBlock.NumberU64()
-	}
+	return nil
 }
 
 // promoteExecutables moves transactions that have become processable from the
@@ -1247,12 +1243,12 @@ func (pool *TxPool) demoteUnexecutables() {
 			pool.enqueueTx(hash, tx)
 		}
 
-		// If there's a gap in front, alert (should never happen) and postpone all transactions
+		// If there's a gap in front (the head moved back), postpone all transactions
 		if list.Len() > 0 && list.txs.Get(nonce) == nil {
 			gapped := list.Cap(0)
 			for _, tx := range gapped {
 				hash := tx.Hash()
-				log.Error("Demoting invalidated transaction", "hash", hash)
+				log.Trace("Demoting invalidated transaction", "hash", hash)
 				pool.enqueueTx(hash, tx)
 			}
 		}
-- 
2.43.0


From 8bd01a01d38835c072a98c379c2885ebd94e5544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 30/41] fix: a head change caused by a root block is announced,
 so that the pool follows it

---
 core/minorblockchain_addon.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index f8c6294..f9b8e90 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1185,6 +1185,8 @@ func (m *MinorBlockChain) AddRootBlock(rBlock *types.RootBlock) (bool, error) {
 			return false, err
 		}
 		m.currentEvmState = evmState
+		// the transactions of the dropped blocks go back to the pool
+		m.PostChainEvents([]interface{}{MinorChainHeadEvent{newBlock}}, nil)
 	}
 	return true, nil
 }
-- 
2.43.0


From 028679f85d9a16c176f429304151cded75c0fcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 31/41] fix: a block built from the pool leaves out what would
 make it invalid

---
 core/minorblockchain_addon.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index f9b8e90..9ea46ff 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -882,8 +882,23 @@ func (m *MinorBlockChain) addTransactionToBlock(block *types.MinorBlock, evmStat
 			}
 
 		}
+		if err := m.validateTxForBlock(stateT, tx, block); err != nil {
+			// the block would not be valid with it
+			if err != ErrNonceTooLow {
+				txs.Pop()
+			} else if err := txs.Shift(); err != nil {
+				return nil, nil, errors.New("txs.Shift error")
+			}
+			continue
+		}
 		stateT.Prepare(tx.Hash(), block.Hash(), txIndex)
+		snapshot, gasLeft := stateT.Snapshot(), gp.Gas()
 		_, receipt, _, err := ApplyTransaction(m.ChainConfig(), m, gp, stateT, block.IHeader().(*types.MinorBlockHeader), tx, usedGas, *m.GetVMConfig())
+		if err != nil {
+			// a transaction which is left out must not leave anything behind
+			stateT.RevertToSnapshot(snapshot)
+			*gp = GasPool(gasLeft)
+		}
 		switch err {
 		case ErrGasLimitReached:
 			txs.Pop()
@@ -915,6 +930,16 @@ func (m *MinorBlockChain) addTransactionToBlock(block *types.MinorBlock, evmStat
 	return types.NewMinorBlock(bHeader, block.Meta(), txsInBlock, receipts, nil), receipts, nil
 }
 
+// validateTxForBlock makes the checks which everybody makes of the transactions of a block.
+func (m *MinorBlockChain) validateTxForBlock(stateT *state.StateDB, tx *types.Transaction, block *types.MinorBlock) error {
+	xShardGasLimit := block.GetXShardGasLimit().Uint64()
+	tx, err := m.validateTx(tx, stateT, nil, nil, &xShardGasLimit)
+	if err != nil {
+		return err
+	}
+	return m.validateDestination(tx, block)
+}
+
 func (m *MinorBlockChain) checkTxBeforeApply(stateT *state.StateDB, tx *types.Transaction, header *types.MinorBlockHeader) error {
 	if tx == nil {
 		return ErrorTxBreak
-- 
2.43.0


From 46139a63540fd1835fe333cafc9c8ff417677e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:56 +0000
Subject: [PATCH 32/41] fix: token operations respect read-only calls, also
 nested ones

---
 core/vm/contracts.go | 10 +++++++++-
 core/vm/evm.go       | 10 ++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/core/vm/contracts.go b/core/vm/contracts.go
index cb8d8b7..62e27c4 100644
--- a/core/vm/contracts.go
+++ b/core/vm/contracts.go
@@ -558,7 +558,7 @@ func (c *transferMnt) Run(input []byte, evm *EVM, contract *Contract) ([]byte, e
 		return nil, errors.New("should 96")
 	}
 
-	if contract.IsStaticCall {
+	if evm.isReadOnly(contract) {
 		contract.Gas = 0
 		return nil, errors.New("transferMnt Run: static call not allowed ")
 	}
@@ -637,6 +637,10 @@ func (r *deploySystemContract) RequiredGas(input []byte) uint64 {
 }
 
 func (r *deploySystemContract) Run(input []byte, evm *EVM, contract *Contract) ([]byte, error) {
+	if evm.isReadOnly(contract) {
+		contract.Gas = 0
+		return nil, errWriteProtection
+	}
 	data := getData(input, 0, 32)
 	index := new(big.Int).SetBytes(data).Uint64()
 	contractIndex := 1
@@ -693,6 +697,10 @@ func (m *mintMNT) RequiredGas(input []byte) uint64 {
 
 //# 3 inputs: (minter, token ID, amount)
 func (m *mintMNT) Run(input []byte, evm *EVM, contract *Contract) ([]byte, error) {
+	if evm.isReadOnly(contract) {
+		contract.Gas = 0
+		return nil, errWriteProtection
+	}
 	minterBytes := getData(input, 0, 32)
 	minter := common.BytesToAddress(minterBytes)
 	mntBytes := getData(input, 32, 32)
diff --git a/core/vm/evm.go b/core/vm/evm.go
index 0368d70..0933c21 100644
--- a/core/vm/evm.go
+++ b/core/vm/evm.go
@@ -183,6 +183,16 @@ func (evm *EVM) Interpreter() Interpreter {
 	return evm.interpreter
 }
 
+// isReadOnly tells whether the contract was reached by a static call, directly or
+// through calls made within one.
+func (evm *EVM) isReadOnly(contract *Contract) bool {
+	if contract.IsStaticCall {
+		return true
+	}
+	in, ok := evm.interpreter.(*EVMInterpreter)
+	return ok && in.readOnly
+}
+
 func checkTokenIDQueried(err error, contract *Contract, txansferTokenID, defaultTokenID uint64) error {
 	if err == nil && len(contract.Code) != 0 && !contract.TokenIDQueried && txansferTokenID != defaultTokenID &&
 		contract.value.Cmp(new(big.Int)) != 0 {
-- 
2.43.0


From 023c9fe13727b2222d922a5f1f4382598c67891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:56 +0000
Subject: [PATCH 33/41] fix: a token id above 64 bits is out of range, not
 another token

---
 core/vm/contracts.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/vm/contracts.go b/core/vm/contracts.go
index 62e27c4..c4c95a6 100644
--- a/core/vm/contracts.go
+++ b/core/vm/contracts.go
@@ -713,7 +713,7 @@ func (m *mintMNT) Run(input []byte, evm *EVM, contract *Contract) ([]byte, error
 	}
 
 	// Token ID should be within range
-	if mnt.Uint64() > qCommon.TOKENIDMAX {
+	if mnt.Cmp(new(big.Int).SetUint64(qCommon.TOKENIDMAX)) > 0 {
 		return nil, fmt.Errorf("tokenid %v > TOKENIDMAX %v", mnt, qCommon.TOKENIDMAX)
 	}
 
@@ -763,7 +763,7 @@ func (m *balanceMNT) Run(input []byte, evm *EVM, contract *Contract) ([]byte, er
 	mntBytes := getData(input, 32, 32)
 	mnt := new(big.Int).SetBytes(mntBytes)
 	// Token ID should be within range
-	if mnt.Uint64() > qCommon.TOKENIDMAX {
+	if mnt.Cmp(new(big.Int).SetUint64(qCommon.TOKENIDMAX)) > 0 {
 		return nil, fmt.Errorf("tokenid %v > TOKENIDMAX %v", mnt, qCommon.TOKENIDMAX)
 	}
 
-- 
2.43.0


From 8ddfc008d9af11130ebe498d74531287fe8f487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:50 +0000
Subject: [PATCH 34/41] fix: a system contract index beyond the table is
 refused instead of crashing the node

---
 core/vm/contracts.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/vm/contracts.go b/core/vm/contracts.go
index c4c95a6..c6e83af 100644
--- a/core/vm/contracts.go
+++ b/core/vm/contracts.go
@@ -642,15 +642,15 @@ func (r *deploySystemContract) Run(input []byte, evm *EVM, contract *Contract) (
 		return nil, errWriteProtection
 	}
 	data := getData(input, 0, 32)
-	index := new(big.Int).SetBytes(data).Uint64()
-	contractIndex := 1
-	if index > 0 {
-		contractIndex = int(index)
-	}
-	if int(contractIndex) >= len(SystemContracts) {
+	index := new(big.Int).SetBytes(data)
+	if index.Cmp(big.NewInt(int64(len(SystemContracts)))) >= 0 {
 		contract.Gas = 0
 		return nil, ErrInvalidSystemContractIndex
 	}
+	contractIndex := 1
+	if index.Sign() > 0 {
+		contractIndex = int(index.Int64())
+	}
 
 	if SystemContractScopeMap[contractIndex] != ContractScopeGlobal {
 		if SystemContractScopeMap[contractIndex] != ContractScopeLocalChain0 {
-- 
2.43.0


From b46b698ecbcf99eacbfd95a5361ab3857e7fd31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:30 +0000
Subject: [PATCH 35/41] fix: transaction history pages run newest first and
 leave nothing out

---
 core/minorblockchain_addon.go | 22 ++++++++++++----------
 internal/qkcapi/api.go        |  2 +-
 qkcdb/rocksdb.go              | 12 ++++++++++++
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 9ea46ff..a90a854 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1621,7 +1621,7 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 
 	skipXShard := func(xShardTx *types.CrossShardTransactionDeposit) bool {
 		if xShardTx.IsFromRootChain {
-			return skipCoinbaseRewards || xShardTx.Value.Value.Uint64() == 0
+			return skipCoinbaseRewards || xShardTx.Value.Value.Sign() == 0
 		}
 		return transferTokenID != nil && xShardTx.TransferTokenID != *transferTokenID
 	}
@@ -1640,11 +1640,15 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 		index      uint32
 		txHashes   = make(map[common.Hash]struct{})
 	)
-	it.Seek(end)
-	for it.Valid() {
-		if bytes.Compare(it.Key(), start) > 0 {
-			break
-		}
+	defer it.Release()
+	// newest first: from start (inclusive) down to end
+	it.Seek(start)
+	if !it.Valid() {
+		it.Last()
+	} else if bytes.Compare(it.Key(), start) > 0 {
+		it.Prev()
+	}
+	for it.Valid() && bytes.Compare(it.Key(), end) >= 0 {
 		if getTxType == GetTxFromAddress {
 			height, crossShard, index, err = decodeTxKey(it.Key(), len(addressTxKey), 20)
 		} else if getTxType == GetAllTransaction {
@@ -1668,7 +1672,6 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 			tx := xShardReceiveTxList.TXList[index]
 			_, ok := txHashes[tx.TxHash]
 			if !ok && !skipXShard(tx) {
-				limit--
 				txHashes[tx.TxHash] = struct{}{}
 				txList = append(txList, &rpc.TransactionDetail{
 					TxHash:          tx.TxHash,
@@ -1690,7 +1693,6 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 			evmTx := tx.EvmTx
 			_, ok := txHashes[txHash]
 			if !ok && !skipTx(evmTx) {
-				limit--
 				receipt, _, _ := rawdb.ReadReceipt(m.db, tx.Hash())
 				sender, err := types.Sender(m.signer, evmTx)
 				if err != nil {
@@ -1729,10 +1731,10 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 
 		}
 		next = bytesSubOne(it.Key())
-		if limit == 0 {
+		if limit != 0 && len(txList) >= int(limit) {
 			break
 		}
-		it.Next()
+		it.Prev()
 	}
 	return txList, next, nil
 }
diff --git a/internal/qkcapi/api.go b/internal/qkcapi/api.go
index cc8bc5a..b29fd9a 100755
--- a/internal/qkcapi/api.go
+++ b/internal/qkcapi/api.go
@@ -434,7 +434,7 @@ func (p *PublicBlockChainAPI) GetCode(address account.Address, blockNr *rpc.Bloc
 }
 
 func (p *PublicBlockChainAPI) GetTransactionsByAddress(address account.Address, start *hexutil.Bytes, limit *hexutil.Uint, transferTokenID *hexutil.Uint64) (map[string]interface{}, error) {
-	limitValue := uint32(0)
+	limitValue := uint32(10)
 	if limit != nil {
 		limitValue = uint32(*limit)
 	}
diff --git a/qkcdb/rocksdb.go b/qkcdb/rocksdb.go
index 37d48f1..dee9d3c 100644
--- a/qkcdb/rocksdb.go
+++ b/qkcdb/rocksdb.go
@@ -176,6 +176,18 @@ func (q *QKCIterator) Valid() bool {
 	return q.it.Valid()
 }
 
+func (q *QKCIterator) Prev() {
+	q.it.Prev()
+}
+
+func (q *QKCIterator) Last() {
+	q.it.SeekToLast()
+}
+
+func (q *QKCIterator) Release() {
+	q.it.Close()
+}
+
 func (q *QKCIterator) Seek(b []byte) {
 	q.it.Seek(b)
 }
-- 
2.43.0


From 343e5c95dc56f60cbf0c076002a943615800af6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:30 +0000
Subject: [PATCH 36/41] fix: the slave answers GetAllTx with the result, cursor
 bytes passed on as they are

---
 cluster/slave/slave_grpc.go | 2 +-
 internal/qkcapi/api.go      | 6 +-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/cluster/slave/slave_grpc.go b/cluster/slave/slave_grpc.go
index aba890f..fa5be83 100755
--- a/cluster/slave/slave_grpc.go
+++ b/cluster/slave/slave_grpc.go
@@ -304,7 +304,7 @@ func (s *SlaveServerSideOp) GetAllTx(ctx context.Context, req *rpc.Request) (*rp
 		return nil, err
 	}
 
-	if response.Data, err = serialize.SerializeToBytes(gReq); err != nil {
+	if response.Data, err = serialize.SerializeToBytes(gRes); err != nil {
 		return nil, err
 	}
 	return response, nil
diff --git a/internal/qkcapi/api.go b/internal/qkcapi/api.go
index b29fd9a..4939507 100755
--- a/internal/qkcapi/api.go
+++ b/internal/qkcapi/api.go
@@ -495,15 +495,11 @@ func txDetailEncode(tx *qrpc.TransactionDetail) (map[string]interface{}, error)
 
 func (p *PublicBlockChainAPI) GetAllTransaction(fullShardKey hexutil.Uint, start *hexutil.Bytes, limit *hexutil.Uint) (map[string]interface{}, error) {
 	var (
-		err        error
 		startValue = make([]byte, 0)
 		limitValue = uint32(10)
 	)
 	if start != nil {
-		startValue, err = start.MarshalText()
-		if err != nil {
-			return nil, err
-		}
+		startValue = *start
 	}
 
 	if limit != nil {
-- 
2.43.0


From 1198a628786578b8bad28ffb7ed1107015dc8955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:30 +0000
Subject: [PATCH 37/41] fix: log queries report errors, honour blockHash,
 refuse pending

---
 internal/qkcapi/api.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/qkcapi/api.go b/internal/qkcapi/api.go
index 4939507..e86b096 100755
--- a/internal/qkcapi/api.go
+++ b/internal/qkcapi/api.go
@@ -103,6 +103,22 @@ func (c *CommonAPI) GetLogs(args *rpc.FilterQuery, fullShardKey *hexutil.Uint) (
 	if err != nil {
 		return nil, err
 	}
+	if args.BlockHash != nil {
+		branch := account.Branch{Value: fullShardID}
+		block, _, err := c.b.GetMinorBlockByHash(*args.BlockHash, branch, false)
+		if err != nil {
+			return nil, err
+		}
+		height := block.NumberU64()
+		canonical, _, err := c.b.GetMinorBlockByHeight(&height, branch, false)
+		if err != nil {
+			return nil, err
+		}
+		if canonical.Hash() != *args.BlockHash {
+			return nil, errors.New("the block is not on the canonical chain")
+		}
+		args.FromBlock, args.ToBlock = new(big.Int).SetUint64(height), new(big.Int).SetUint64(height)
+	}
 	if args.FromBlock == nil || args.FromBlock.Int64() == rpc.LatestBlockNumber.Int64() {
 		args.FromBlock = new(big.Int).SetUint64(lastBlockHeight)
 	}
@@ -111,9 +127,15 @@ func (c *CommonAPI) GetLogs(args *rpc.FilterQuery, fullShardKey *hexutil.Uint) (
 		args.ToBlock = new(big.Int).SetUint64(lastBlockHeight)
 	}
 
+	if args.FromBlock.Sign() < 0 || args.ToBlock.Sign() < 0 {
+		return nil, errors.New("pending blocks are not supported")
+	}
 	args.FullShardId = fullShardID
 
 	logs, err := c.b.GetLogs(args)
+	if err != nil {
+		return nil, err
+	}
 	return encoder.LogListEncoder(logs, false), nil
 }
 
-- 
2.43.0


From d2d1c781dac45813b0366f761fd34cfb3ea54eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:30 +0000
Subject: [PATCH 38/41] fix: receipts name the created contract

---
 internal/encoder/encoder.go |  2 +-
 internal/qkcapi/api.go      | 12 +-----------
 2 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/internal/encoder/encoder.go b/internal/encoder/encoder.go
index 90d1a6a..8556160 100644
--- a/internal/encoder/encoder.go
+++ b/internal/encoder/encoder.go
@@ -444,7 +444,7 @@ func ReceiptEncoder(block *types.MinorBlock, i int, receipt *types.Receipt) (map
 		"logs":              LogListEncoder(receipt.Logs, false),
 		"timestamp":         hexutil.Uint64(block.Time()),
 	}
-	if receipt.ContractAddress != (ethCommon.Address{}) {
+	if receipt.ContractAddress == (ethCommon.Address{}) {
 		field["contractAddress"] = nil
 	} else {
 		addr := account.Address{
diff --git a/internal/qkcapi/api.go b/internal/qkcapi/api.go
index e86b096..d8e0814 100755
--- a/internal/qkcapi/api.go
+++ b/internal/qkcapi/api.go
@@ -81,17 +81,7 @@ func (c *CommonAPI) GetTransactionReceipt(txID hexutil.Bytes) (map[string]interf
 	if minorBlock == nil {
 		return nil, nil
 	}
-	ret, err := encoder.ReceiptEncoder(minorBlock, int(index), receipt)
-	if receipt.ContractAddress != (common.Address{}) {
-		ret["contractAddress"] = nil
-	} else {
-		ret["contractAddress"] = account.Address{
-			Recipient:    receipt.ContractAddress,
-			FullShardKey: minorBlock.Branch().Value,
-		}.ToHex()
-	}
-
-	return ret, err
+	return encoder.ReceiptEncoder(minorBlock, int(index), receipt)
 }
 
 func (c *CommonAPI) GetLogs(args *rpc.FilterQuery, fullShardKey *hexutil.Uint) ([]map[string]interface{}, error) {
-- 
2.43.0


From e8c8b2f7de23530640fe2458822ddc79bfb7acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:30 +0000
Subject: [PATCH 39/41] fix: deposit logs carry the position of the deposit in
 the block

---
 core/minorblockchain_addon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index a90a854..1fc4b65 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1878,7 +1878,7 @@ func (m *MinorBlockChain) RunCrossShardTxWithCursor(evmState *state.StateDB,
 	txList := make([]*types.CrossShardTransactionDeposit, 0)
 	evmState.SetQuarkChainConfig(m.clusterConfig.Quarkchain)
 	gasUsed := new(uint64)
-	txIndex := 0
+	txIndex := len(mBlock.Transactions()) // deposits come after the block's own transactions
 	for true {
 		xShardDepositTx, err := cursor.getNextTx()
 		if err != nil {
-- 
2.43.0


From be0aeeb3368337e89fccd56a0a7b1ddc6dae4e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:30 +0000
Subject: [PATCH 40/41] fix: the log feed announces every log once, in order

---
 core/minorblockchain.go       | 31 ++-----------------------------
 core/minorblockchain_addon.go |  3 +++
 2 files changed, 5 insertions(+), 29 deletions(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index bae6370..7a0d8e9 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -1369,25 +1369,6 @@ func (m *MinorBlockChain) reorgInBatch(batch ethdb.Batch, oldBlock, newBlock typ
 		newChain       []types.IBlock
 		oldChain       []types.IBlock
 		commonBlock    types.IBlock
-		deletedLogs    []*types.Log
-		// collectLogs collects the logs that were generated during the
-		// processing of the block that corresponds with the given hash.
-		// These logs are later announced as deleted.
-		collectLogs = func(hash common.Hash) {
-			// Coalesce logs and set 'Removed'.
-			block := m.GetMinorBlock(hash)
-			if block == nil {
-				return
-			}
-			receipts := rawdb.ReadReceipts(m.db, hash)
-			for _, receipt := range receipts {
-				for _, log := range receipt.Logs {
-					del := *log
-					del.Removed = true
-					deletedLogs = append(deletedLogs, &del)
-				}
-			}
-		}
 	)
 
 	// first reduce whoever is higher bound
@@ -1395,7 +1376,6 @@ func (m *MinorBlockChain) reorgInBatch(batch ethdb.Batch, oldBlock, newBlock typ
 		// reduce old chain
 		for ; !qkcCommon.IsNil(oldBlock) && oldBlock.NumberU64() != newBlock.NumberU64(); oldBlock = m.GetBlock(oldBlock.ParentHash()) {
 			oldChain = append(oldChain, oldBlock)
-			collectLogs(oldBlock.Hash())
 		}
 	} else {
 		// reduce new chain and append new chain blocks for inserting later on
@@ -1418,7 +1398,6 @@ func (m *MinorBlockChain) reorgInBatch(batch ethdb.Batch, oldBlock, newBlock typ
 
 		oldChain = append(oldChain, oldBlock)
 		newChain = append(newChain, newBlock)
-		collectLogs(oldBlock.Hash())
 		if oldBlock.NumberU64() == 0 || newBlock.NumberU64() == 0 { //revert genesisBlock: no commonBlock
 			log.Warn("reorg", "ready to revert genesis? oldBlock", oldBlock.Hash().String(),
 				"newBlock", newBlock.Hash().String(), "currBlock", m.CurrentBlock().Hash().String())
@@ -1477,12 +1456,6 @@ func (m *MinorBlockChain) reorgInBatch(batch ethdb.Batch, oldBlock, newBlock typ
 		}
 	}
 
-	if len(deletedLogs) > 0 {
-		var logs [][]*types.Log
-		logs = append(logs, deletedLogs)
-		m.subLogsFeed.Send(LoglistEvent{Logs: logs, IsRemoved: true})
-	}
-
 	if len(oldChain) > 0 {
 		for _, iB := range oldChain {
 			m.subLogsFeed.Send(LoglistEvent{Logs: m.GetLogs(iB.Hash()), IsRemoved: true})
@@ -1493,8 +1466,8 @@ func (m *MinorBlockChain) reorgInBatch(batch ethdb.Batch, oldBlock, newBlock typ
 			}
 		}()
 	}
-	for _, iB := range newChain {
-		m.subLogsFeed.Send(LoglistEvent{Logs: m.GetLogs(iB.Hash()), IsRemoved: false})
+	for i := len(newChain) - 1; i >= 0; i-- {
+		m.subLogsFeed.Send(LoglistEvent{Logs: m.GetLogs(newChain[i].Hash()), IsRemoved: false})
 	}
 
 	return nil
diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 1fc4b65..05b0973 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -651,6 +651,9 @@ func (m *MinorBlockChain) runBlock(block *types.MinorBlock) (*state.StateDB, typ
 		return nil, nil, nil, 0, nil, err
 	}
 	receipts = append(receipts, xShardReceipts...)
+	for _, receipt := range xShardReceipts {
+		logs = append(logs, receipt.Logs...)
+	}
 	return evmState, receipts, logs, usedGas, xShardReceiveTxList, nil
 }
 
-- 
2.43.0


From c2d32d6106aece83a9c29912e7ebeb985c0d3100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:46 +0000
Subject: [PATCH 41/41] fix: a shard block that could not be published is taken
 back, so that repeating the call publishes it

---
 cluster/shard/api_backend.go  | 29 +++++++++++++++++++----------
 core/minorblockchain_addon.go | 29 +++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/cluster/shard/api_backend.go b/cluster/shard/api_backend.go
index 88bf148..b9d4de0 100755
--- a/cluster/shard/api_backend.go
+++ b/cluster/shard/api_backend.go
@@ -354,8 +354,8 @@ func (s *ShardBackend) AddMinorBlock(block *types.MinorBlock) error {
 		return nil
 	}
 	//TODO support BLOCK_COMMITTING
-	currHead := s.MinorBlockChain.CurrentBlock().Header()
-	log.Debug(s.logInfo, "currHead", currHead.Number)
+	currHead := s.MinorBlockChain.CurrentBlock()
+	log.Debug(s.logInfo, "currHead", currHead.Number())
 	_, xshardLst, err := s.MinorBlockChain.InsertChainForDeposits([]types.IBlock{block}, false)
 	if err != nil {
 		log.Error(s.logInfo+" Failed to add minor block", "err", err, "len", len(xshardLst))
@@ -378,12 +378,12 @@ func (s *ShardBackend) AddMinorBlock(block *types.MinorBlock) error {
 
 	prevRootHeight := s.MinorBlockChain.GetRootBlockByHash(block.PrevRootBlockHash()).Number()
 	if err := s.conn.BroadcastXshardTxList(block, xshardLst[0], prevRootHeight); err != nil {
-		s.setHead(currHead.Number)
+		s.undoInsert(currHead, []*types.MinorBlock{block})
 		return err
 	}
 	status, err := s.MinorBlockChain.GetShardStats()
 	if err != nil {
-		s.setHead(currHead.Number)
+		s.undoInsert(currHead, []*types.MinorBlock{block})
 		return err
 	}
 
@@ -396,7 +396,7 @@ func (s *ShardBackend) AddMinorBlock(block *types.MinorBlock) error {
 	}
 	err = s.conn.SendMinorBlockHeaderToMaster(requests)
 	if err != nil {
-		s.setHead(currHead.Number)
+		s.undoInsert(currHead, []*types.MinorBlock{block})
 		return err
 	}
 	s.MinorBlockChain.CommitMinorBlockByHash(block.Hash())
@@ -406,7 +406,7 @@ func (s *ShardBackend) AddMinorBlock(block *types.MinorBlock) error {
 	// block has been added to local state, broadcast tip so that peers can sync if needed
 	if currHead.Hash() != s.MinorBlockChain.CurrentBlock().Hash() {
 		if err = s.broadcastNewTip(); err != nil {
-			s.setHead(currHead.Number)
+			s.undoInsert(currHead, []*types.MinorBlock{block})
 			return err
 		}
 	}
@@ -433,6 +433,8 @@ func (s *ShardBackend) AddBlockListForSync(blockLst []*types.MinorBlock) error {
 	var (
 		blockHashToXShardList      = make(map[common.Hash]*XshardListTuple)
 		uncommittedBlockHeaderList = make([]*types.MinorBlockHeader, 0, len(blockLst))
+		currHead                   = s.MinorBlockChain.CurrentBlock()
+		inserted                   = make([]*types.MinorBlock, 0, len(blockLst))
 	)
 	for _, block := range blockLst {
 		blockHash := block.Hash()
@@ -446,19 +448,23 @@ func (s *ShardBackend) AddBlockListForSync(blockLst []*types.MinorBlock) error {
 		_, xshardLst, err := s.MinorBlockChain.InsertChainForDeposits([]types.IBlock{block}, false)
 		if err != nil {
 			log.Error(s.logInfo+" Failed to add minor block", "err", err)
+			s.undoInsert(currHead, inserted)
 			return err
 		}
 		if len(xshardLst) != 1 {
 			log.Warn(s.logInfo+" already have this block", "number", block.NumberU64(), "hash", block.Hash().String())
-			return nil
+			s.undoInsert(currHead, inserted)
+			return fmt.Errorf("minor block %v was not added", block.Hash().String())
 		}
+		inserted = append(inserted, block)
 		s.mBPool.delBlockInPool(block.Hash())
 		prevRootHeight := s.MinorBlockChain.GetRootBlockByHash(block.PrevRootBlockHash())
 		blockHashToXShardList[blockHash] = &XshardListTuple{XshardTxList: xshardLst[0], PrevRootHeight: prevRootHeight.Number()}
 		uncommittedBlockHeaderList = append(uncommittedBlockHeaderList, block.Header())
 	}
 	// interrupt the current miner and restart
-	if err := s.conn.BatchBroadcastXshardTxList(blockHashToXShardList, blockLst[0].Branch()); err != nil {
+	if err := s.conn.BatchBroadcastXshardTxList(blockHashToXShardList, s.branch); err != nil {
+		s.undoInsert(currHead, inserted)
 		return err
 	}
 
@@ -466,6 +472,7 @@ func (s *ShardBackend) AddBlockListForSync(blockLst []*types.MinorBlock) error {
 		MinorBlockHeaderList: uncommittedBlockHeaderList,
 	}
 	if err := s.conn.SendMinorBlockHeaderListToMaster(req); err != nil {
+		s.undoInsert(currHead, inserted)
 		return err
 	}
 	for _, header := range uncommittedBlockHeaderList {
@@ -528,8 +535,10 @@ func (s *ShardBackend) broadcastNewTip() (err error) {
 	return
 }
 
-func (s *ShardBackend) setHead(head uint64) {
-	if err := s.MinorBlockChain.SetHead(head); err != nil {
+// undoInsert takes blocks that could not be published out of the chain again,
+// so that they are processed and published when they are added once more.
+func (s *ShardBackend) undoInsert(head *types.MinorBlock, blocks []*types.MinorBlock) {
+	if err := s.MinorBlockChain.UndoInsert(head, blocks); err != nil {
 		panic(err)
 	}
 }
diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 05b0973..8b54a12 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1453,6 +1453,35 @@ func (m *MinorBlockChain) reWriteBlockIndexTo(oldBlock *types.MinorBlock, newBlo
 	return m.loadLastState()
 }
 
+// UndoInsert takes back the given blocks, which were added last: they no longer
+// count as added. If one of them is the head, the head goes back to the given block.
+func (m *MinorBlockChain) UndoInsert(head *types.MinorBlock, blocks []*types.MinorBlock) error {
+	current := m.CurrentBlock().Hash()
+	for _, block := range blocks {
+		if block.Hash() != current {
+			continue
+		}
+		if err := m.reWriteBlockIndexTo(nil, head); err != nil {
+			return err
+		}
+		evmState, err := m.stateAfter(head)
+		if err != nil {
+			return err
+		}
+		m.mu.Lock()
+		m.currentEvmState = evmState
+		m.mu.Unlock()
+		m.PostChainEvents([]interface{}{MinorChainHeadEvent{head}}, nil)
+	}
+	m.chainmu.Lock()
+	defer m.chainmu.Unlock()
+	batch := m.db.NewBatch()
+	for _, block := range blocks {
+		rawdb.DeleteMinorBlockCommitStatus(batch, block.Hash())
+	}
+	return batch.Write()
+}
+
 func (m *MinorBlockChain) GetBranch() account.Branch {
 	return m.branch
 }
-- 
2.43.0

