package w

import (
	"fmt"
	"math/big"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	qkccom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/consensus/simulate"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	ethcommon "github.com/ethereum/go-ethereum/common"
)

// RulesEngine is an engine with the real header rules and no proof of work.
func RulesEngine() consensus.Engine {
	d := &consensus.EthDifficultyCalculator{AdjustmentCutoff: 7, AdjustmentFactor: 512, MinimumDifficulty: big.NewInt(1)}
	return simulate.New(d, false, nil, 10)
}

// Dev is a deviation of spec/BlockRules.tla: field and value.
type Dev [2]interface{}

func (d Dev) Field() string { return fmt.Sprint(d[0]) }
func (d Dev) Val() string   { return fmt.Sprint(d[1]) }
func (d Dev) Int() int64    { f, _ := d[1].(float64); return int64(f) }

// DevCtx is what building a deviating block needs to know.
type DevCtx struct {
	Parent *types.MinorBlock
	Shard  uint32 // full shard id
	Other  uint32 // another shard's id
	User   Key    // funded account
	Nonce  uint64 // its next nonce after the block's transactions
	Limit  uint32 // extra data limit
}

// Pre tells whether the deviation is applied before the block is executed.
func (d Dev) Pre() bool {
	switch d.Field() {
	case "ver", "dh", "br", "dt", "far", "ex", "gl", "xgl", "txs", "cb":
		return true
	}
	return false
}

func bump(v *serialize.Uint256, by int64) *serialize.Uint256 {
	x := new(big.Int).Add(v.Value, big.NewInt(by))
	if x.Sign() < 0 {
		x = big.NewInt(2)
	}
	return &serialize.Uint256{Value: x}
}

// Rebuild assembles a block from parts.
func Rebuild(h *types.MinorBlockHeader, m *types.MinorBlockMeta, txs []*types.Transaction) *types.MinorBlock {
	return types.NewMinorBlockWithHeader(h, m).WithBody(txs, nil)
}

// DeviatePre changes a block that is not yet executed.
func DeviatePre(b *types.MinorBlock, d Dev, c *DevCtx) *types.MinorBlock {
	h, m, txs := b.Header(), b.Meta(), append([]*types.Transaction{}, b.Transactions()...)
	switch d.Field() {
	case "ver":
		h.Version = uint32(d.Int())
	case "dh":
		h.Number = uint64(int64(c.Parent.NumberU64()) + d.Int())
	case "br":
		h.Branch = account.Branch{Value: c.Other}
	case "dt":
		h.Time = uint64(int64(c.Parent.Time()) + d.Int())
	case "far":
		h.Time = uint64(time.Now().Unix()) + 100000
	case "ex":
		h.Extra = make([]byte, c.Limit+1)
	case "gl":
		h.GasLimit = bump(h.GasLimit, d.Int())
	case "xgl":
		m.XShardGasLimit = bump(m.XShardGasLimit, d.Int())
	case "cb":
		h.Coinbase.FullShardKey = c.Other
	case "txs":
		txs = append(txs, c.badTx(d.Val(), txs))
	}
	return Rebuild(h, m, txs)
}

func (c *DevCtx) badTx(kind string, txs []*types.Transaction) *types.Transaction {
	to := K(3).Rec
	net, key, toKey, nonce, k, gas := uint32(3), c.Shard, c.Shard, c.Nonce, c.User, uint64(21000)
	v := big.NewInt(1)
	switch kind {
	case "twice":
		return txs[len(txs)-1]
	case "net":
		net = 4
	case "shard":
		key = c.Other
	case "chain":
		toKey = 200 << 16
	case "future":
		nonce++
	case "broke":
		k, nonce = K(90), 0
	case "gas":
		gas = 20999
	case "big":
		gas = 1 << 40
	}
	e := types.NewEvmTransaction(nonce, to, v, gas, new(big.Int), key, toKey, net, 0, nil, QKC, QKC)
	if kind != "sig" {
		s, err := types.SignTx(e, types.MakeSigner(net), k.Priv)
		if err != nil {
			panic(err)
		}
		e = s
	}
	return &types.Transaction{TxType: types.EvmTx, EvmTx: e}
}

func flip(h ethcommon.Hash) ethcommon.Hash { h[5] ^= 0x40; return h }

// DeviatePost changes an executed block and repairs the commitments above the change.
func DeviatePost(b *types.MinorBlock, d Dev, c *DevCtx) *types.MinorBlock {
	h, m, txs := b.Header(), b.Meta(), append([]*types.Transaction{}, b.Transactions()...)
	remeta := true
	switch d.Field() {
	case "par":
		h.ParentHash = flip(h.ParentHash)
	case "meta":
		h.MetaHash = flip(h.MetaHash)
		remeta = false
	case "txh":
		m.TxHash = flip(m.TxHash)
	case "body":
		switch d.Val() {
		case "drop":
			txs = txs[:len(txs)-1]
		case "twice":
			txs = append(txs, txs[len(txs)-1])
		case "none":
			txs = nil
		}
	case "gas":
		m.GasUsed = bump(m.GasUsed, d.Int())
	case "xgas":
		m.CrossShardGasUsed = bump(m.CrossShardGasUsed, d.Int())
	case "bloom":
		h.Bloom[7] ^= 1
	case "rcpt":
		m.ReceiptHash = flip(m.ReceiptHash)
	case "root":
		m.Root = flip(m.Root)
	case "cur1", "cur2", "cur3":
		x := *m.XShardTxCursorInfo
		switch d.Field() {
		case "cur1":
			x.RootBlockHeight = uint64(int64(x.RootBlockHeight) + d.Int())
		case "cur2":
			x.MinorBlockIndex++
		case "cur3":
			x.XShardDepositIndex++
		}
		m.XShardTxCursorInfo = &x
	case "amt", "tok":
		a := map[uint64]*big.Int{}
		for k, v := range h.CoinbaseAmount.GetBalanceMap() {
			a[k] = new(big.Int).Set(v)
		}
		id := QKC
		if d.Field() == "tok" {
			id = qkccom.TokenIDEncode("XTK")
		}
		v := new(big.Int)
		if a[id] != nil {
			v = a[id]
		}
		v = new(big.Int).Add(v, big.NewInt(d.Int()))
		if v.Sign() < 0 {
			v = big.NewInt(2)
		}
		a[id] = v
		h.CoinbaseAmount = types.NewTokenBalancesWithMap(a)
	case "pr":
		h.PrevRootBlockHash = flip(h.PrevRootBlockHash)
	default:
		panic("unknown deviation " + d.Field())
	}
	if remeta {
		h.MetaHash = m.Hash()
	}
	return Rebuild(h, m, txs)
}
