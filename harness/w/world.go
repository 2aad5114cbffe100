package w

import (
	"fmt"
	"math/big"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/rawdb"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/core/vm"
	"github.com/QuarkChain/goquarkchain/serialize"
	ethcommon "github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/params"

	"crypto/ecdsa"
)

// QKC is the default token.
var QKC = common.TokenIDEncode("QKC")

// Key is one test account.
type Key struct {
	Priv *ecdsa.PrivateKey
	Rec  account.Recipient
}

// K returns the i-th deterministic test key.
func K(i int) Key {
	b := make([]byte, 32)
	b[0], b[30], b[31] = 0x11, byte(i>>8), byte(i+1)
	p, err := crypto.ToECDSA(b)
	if err != nil {
		panic(err)
	}
	a := crypto.PubkeyToAddress(p.PublicKey)
	var r account.Recipient
	copy(r[:], a[:])
	return Key{p, r}
}

// Addr is key k's address with the given full shard key.
func (k Key) Addr(fullShardKey uint32) account.Address {
	return account.Address{Recipient: k.Rec, FullShardKey: fullShardKey}
}

// Opts describes a test cluster.
type Opts struct {
	Chains, Shards uint32
	Alloc          map[uint32]map[account.Recipient]map[string]int64 // by full shard id
	Tweak          func(c *config.ClusterConfig)
}

// NewCfg builds a cluster configuration.
func NewCfg(o Opts) *config.ClusterConfig {
	c := config.NewClusterConfig()
	q := c.Quarkchain
	q.NetworkID = 3
	q.Update(o.Chains, o.Shards, 10, 1)
	q.Root.DifficultyAdjustmentCutoffTime = 40
	q.Root.DifficultyAdjustmentFactor = 1024
	q.SkipMinorDifficultyCheck = true
	q.SkipRootCoinbaseCheck = true
	q.SkipRootDifficultyCheck = true
	c.EnableTransactionHistory = true
	q.MinMiningGasPrice = new(big.Int)
	q.MinTXPoolGasPrice = new(big.Int)
	q.EnableEvmTimeStamp = 1
	for id, m := range o.Alloc {
		sc := q.GetShardConfigByFullShardID(id)
		for rec, bal := range m {
			t := map[string]*big.Int{}
			for k, v := range bal {
				t[k] = big.NewInt(v)
			}
			sc.Genesis.Alloc[account.Address{Recipient: rec, FullShardKey: id}] = config.Allocation{Balances: t}
		}
	}
	if o.Tweak != nil {
		o.Tweak(c)
	}
	return c
}

// ShardID is the full shard id of shard s of chain ch when every chain has size shards.
func ShardID(ch, size, s uint32) uint32 { return ch<<16 | size | s }

// Cache is the trie cache setting used by default (archive: every block flushed).
func Cache(archive bool) *core.CacheConfig {
	return &core.CacheConfig{TrieCleanLimit: 32, TrieDirtyLimit: 32, TrieTimeLimit: 5 * time.Minute, Disabled: archive}
}

// RootGenesis commits the root genesis block into db.
func RootGenesis(c *config.ClusterConfig, db ethdb.Database) *types.RootBlock {
	return core.NewGenesis(c.Quarkchain).MustCommitRootBlock(db)
}

// NewShardOn opens a shard chain on an existing (or fresh) database.
func NewShardOn(c *config.ClusterConfig, db ethdb.Database, id uint32, eng consensus.Engine, archive bool) (*core.MinorBlockChain, *types.RootBlock, error) {
	rg := core.NewGenesis(c.Quarkchain).MustCommitRootBlock(db)
	core.NewGenesis(c.Quarkchain).MustCommitMinorBlock(db, rg, id)
	if eng == nil {
		eng = new(consensus.FakeEngine)
	}
	m, err := core.NewMinorBlockChain(db, Cache(archive), params.TestChainConfig, c, eng, vm.Config{}, nil, id)
	if err != nil {
		return nil, nil, err
	}
	return m, rg, nil
}

// OpenShard opens a shard chain on any database the way the program does.
func OpenShard(c *config.ClusterConfig, db ethdb.Database, id uint32, eng consensus.Engine, archive bool) (*core.MinorBlockChain, error) {
	g := core.NewGenesis(c.Quarkchain)
	if _, h, err := core.SetupGenesisMinorBlock(db, g, g.CreateRootBlock(), id); err != nil {
		rawdb.WriteChainConfig(db, h, c.Quarkchain)
	}
	if eng == nil {
		eng = new(consensus.FakeEngine)
	}
	return core.NewMinorBlockChain(db, Cache(archive), params.TestChainConfig, c, eng, vm.Config{}, nil, id)
}

// OpenRoot opens a root chain on any database the way the program does.
func OpenRoot(c *config.ClusterConfig, db ethdb.Database, eng consensus.Engine) (*core.RootBlockChain, error) {
	if _, h, err := core.SetupGenesisRootBlock(db, core.NewGenesis(c.Quarkchain)); err != nil {
		rawdb.WriteChainConfig(db, h, c.Quarkchain)
	}
	if eng == nil {
		eng = new(consensus.FakeEngine)
	}
	return core.NewRootBlockChain(db, c.Quarkchain, eng)
}

// NewShard builds a fresh shard chain at genesis.
func NewShard(c *config.ClusterConfig, db ethdb.Database, id uint32, eng consensus.Engine) (*core.MinorBlockChain, *types.RootBlock) {
	m, rg, err := NewShardOn(c, db, id, eng, true)
	if err != nil {
		panic(err)
	}
	if _, err := m.InitGenesisState(rg); err != nil {
		panic(err)
	}
	return m, rg
}

// NewRoot builds a root chain.
func NewRoot(c *config.ClusterConfig, db ethdb.Database, eng consensus.Engine) *core.RootBlockChain {
	core.NewGenesis(c.Quarkchain).MustCommitRootBlock(db)
	if eng == nil {
		eng = new(consensus.FakeEngine)
	}
	r, err := core.NewRootBlockChain(db, c.Quarkchain, eng)
	if err != nil {
		panic(err)
	}
	return r
}

// EncMinor and DecMinor pass a block through its wire form, so that no object
// is shared between two chains.
func EncMinor(b *types.MinorBlock) []byte {
	x, err := serialize.SerializeToBytes(b)
	if err != nil {
		panic(err)
	}
	return x
}

// DecMinor decodes a shard block.
func DecMinor(x []byte) *types.MinorBlock {
	b := new(types.MinorBlock)
	if err := serialize.DeserializeFromBytes(x, b); err != nil {
		panic(err)
	}
	return b
}

// EncRoot encodes a root block.
func EncRoot(b *types.RootBlock) []byte {
	x, err := serialize.SerializeToBytes(b)
	if err != nil {
		panic(err)
	}
	return x
}

// DecRoot decodes a root block.
func DecRoot(x []byte) *types.RootBlock {
	b := new(types.RootBlock)
	if err := serialize.DeserializeFromBytes(x, b); err != nil {
		panic(err)
	}
	return b
}

// NewRootBlock builds a root block on parent.
func NewRootBlock(parent *types.RootBlock, id int, diff int64, hs []*types.MinorBlockHeader, coinbase *account.Address, amount int64) *types.RootBlock {
	t := parent.Time() + 30
	b := parent.Header().CreateBlockToAppend(&t, big.NewInt(diff), coinbase, nil, []byte(fmt.Sprintf("r%d", id)))
	for _, h := range hs {
		b.AddMinorBlockHeader(h)
	}
	amt := types.NewEmptyTokenBalances()
	if amount != 0 {
		amt.SetValue(big.NewInt(amount), QKC)
	}
	b.Finalize(amt, coinbase, ethcommon.Hash{})
	return b
}

// Tx builds a signed transfer.
func Tx(k Key, nonce uint64, to *account.Recipient, value int64, gas uint64, price int64, fromKey, toKey uint32, data []byte, gasTok, tok uint64) *types.Transaction {
	return TxBig(k, nonce, to, big.NewInt(value), gas, big.NewInt(price), fromKey, toKey, data, gasTok, tok)
}

// TxBig is Tx with big integers.
func TxBig(k Key, nonce uint64, to *account.Recipient, value *big.Int, gas uint64, price *big.Int, fromKey, toKey uint32, data []byte, gasTok, tok uint64) *types.Transaction {
	var e *types.EvmTransaction
	if to == nil {
		e = types.NewEvmContractCreation(nonce, value, gas, price, fromKey, toKey, 3, 0, data, gasTok, tok)
	} else {
		e = types.NewEvmTransaction(nonce, *to, value, gas, price, fromKey, toKey, 3, 0, data, gasTok, tok)
	}
	s, err := types.SignTx(e, types.MakeSigner(3), k.Priv)
	if err != nil {
		panic(err)
	}
	return &types.Transaction{TxType: types.EvmTx, EvmTx: s}
}

// H is a short hash for messages.
func H(h ethcommon.Hash) string { return h.Hex()[2:10] }
