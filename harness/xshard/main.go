// xshard replays behaviours of spec/CrossShard.tla on several real shard
// chains and compares, block by block, what was received, sent, paid, burnt
// and recorded.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	qcommon "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/rawdb"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/core/vm"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/w"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
)

type cfgT struct {
	Xlim, RateN, RateD, Evm, Ddos, Reward, Conv, Rr, Bank int64
}
type txT struct {
	F     int    `json:"f"`
	Ts    int    `json:"ts"`
	Tk    int    `json:"tk"`
	Gt    int    `json:"gt"`
	Kind  string `json:"kind"`
	To    int    `json:"to"`
	V     int64  `json:"v"`
	Price int64  `json:"price"`
	Gas   uint64 `json:"gas"`
	N     uint64 `json:"n"`
}
type depT struct {
	Kind  string `json:"kind"`
	F     int    `json:"f"`
	To    int    `json:"to"`
	Ts    int    `json:"ts"`
	V     int64  `json:"v"`
	Tk    int    `json:"tk"`
	Gas   int64  `json:"gas"`
	Price int64  `json:"price"`
	Rr    uint8  `json:"rr"`
}
type op struct {
	Op    string     `json:"op"`
	Cfg   *cfgT      `json:"cfg"`
	ID    int        `json:"id"`
	S     int        `json:"s"`
	P     int        `json:"p"`
	R     int        `json:"r"`
	H     uint64     `json:"h"`
	Miner int        `json:"miner"`
	Txs   []txT      `json:"txs"`
	Cur   []uint64   `json:"cur"`
	Bal   [][2]int64 `json:"bal"`
	Tok   [][2]int64 `json:"tok"`
	Nonce []uint64   `json:"nonce"`
	Gas   int64      `json:"gas"`
	Xgas  int64      `json:"xgas"`
	Cb    int64      `json:"cb"`
	Rc    []bool     `json:"rc"`
	Xrc   []bool     `json:"xrc"`
	Slot  int        `json:"slot"`
	Recv  [][3]int   `json:"recv"`
	Out   []depT     `json:"out"`
	L     []int      `json:"l"`
	Cs    int        `json:"cs"`
	Amt   int64      `json:"amt"`
	Dev   *w.Dev     `json:"dev"`
}

const funds, toks = 20000000, 600000

var tok2 = qcommon.TokenIDEncode("AB")
var sids = []uint32{0, w.ShardID(0, 2, 0), w.ShardID(0, 2, 1), w.ShardID(1, 2, 0)}

// key of account a in shard s; deliberately not the full shard id itself
func key(s, a int) uint32 {
	ch, sh := sids[s]>>16, sids[s]&1
	return ch<<16 | uint32(a)<<1 | sh
}
func rec(a int) account.Recipient {
	if a == 0 { // where gas that is not given back goes
		return account.Recipient{}
	}
	if a == 15 { // changes another token into the default one for gas
		return account.Recipient(vm.SystemContracts[vm.GENERAL_NATIVE_TOKEN].Address())
	}
	if a > 10 && a < 20 {
		var r account.Recipient
		r[0], r[19] = 0xcc, byte(a)
		return r
	}
	if a >= 100 { // created account: 100 + (s*10+f)*100 + nonce
		a -= 100
		s, f, n := a/1000, a/100%10, a%100
		k := key(s, f)
		return createdIn(s, f, uint64(n), k, false)
	}
	return w.K(a).Rec
}

// address of a contract created by transaction n of user f in shard s
func createdIn(s, f int, n uint64, k uint32, x bool) account.Recipient {
	if x {
		n++ // a transfer to another shard derives it after the nonce was counted
	}
	kk := k
	return account.Recipient(vm.CreateAddress(common.Address(w.K(f).Rec), &kk, n))
}

var codes = map[int][]byte{11: {0xfe}, 12: {0x60, 0, 0x60, 0, 0xfd}, 13: {0x00}, 14: {0x60, 0, 0x60, 0, 0x55, 0x00}}

func newCfg(c *cfgT) *config.ClusterConfig {
	alloc := map[uint32]map[account.Recipient]map[string]int64{}
	for s := 1; s <= 3; s++ {
		m := map[account.Recipient]map[string]int64{}
		for u := 1; u <= 3; u++ {
			m[rec(u)] = map[string]int64{"QKC": funds, "AB": toks}
		}
		alloc[sids[s]] = m
	}
	return w.NewCfg(w.Opts{Chains: 2, Shards: 2, Alloc: alloc, Tweak: func(k *config.ClusterConfig) {
		q := k.Quarkchain
		q.LocalFeeRate = big.NewRat(c.RateN, c.RateD)
		q.RewardTaxRate = new(big.Rat).Sub(big.NewRat(1, 1), q.LocalFeeRate)
		q.XShardGasDDOSFixRootHeight = uint64(c.Ddos)
		for s := 1; s <= 3; s++ {
			sc := q.GetShardConfigByFullShardID(sids[s])
			sc.CoinbaseAmount = big.NewInt(c.Reward)
			sc.ExtraShardBlocksInRootBlock = 20
			sc.Genesis.GasLimit = uint64(2 * c.Xlim)
			q.EnableEvmTimeStamp = sc.Genesis.Timestamp + uint64(c.Evm)
			// answers with the rate given back and the price asked about times conv
			sc.Genesis.Alloc[account.Address{Recipient: rec(15), FullShardKey: sids[s]}] = config.Allocation{Balances: map[string]*big.Int{"QKC": big.NewInt(c.Bank)},
				Code: []byte{0x60, byte(c.Rr), 0x60, 0, 0x52, 0x60, byte(c.Conv), 0x60, 68, 0x35, 0x02, 0x60, 32, 0x52, 0x60, 64, 0x60, 0, 0xf3}}
			for i, code := range codes {
				a := config.Allocation{Code: code}
				if i == 14 {
					a.Storage = map[common.Hash]common.Hash{{}: common.BigToHash(big.NewInt(1))}
				}
				sc.Genesis.Alloc[account.Address{Recipient: rec(i), FullShardKey: sids[s]}] = a
			}
		}
	}})
}

type mblk struct {
	s    int
	enc  []byte
	hash common.Hash
	outs []*types.CrossShardTransactionDeposit
}
type rblk struct {
	enc  []byte
	hash common.Hash
	l    []int
}
type shard struct {
	factory, node *core.MinorBlockChain
	db            ethdb.Database
}
type world struct {
	c     *cfgT
	cfg   *config.ClusterConfig
	sh    [4]*shard
	m     map[int]*mblk
	r     map[int]*rblk
	rep   *w.Rep
	names map[int]account.Recipient // created accounts
}

func main() { w.Main(replay) }

func replay(raw json.RawMessage, rep *w.Rep) {
	var ops []op
	if err := json.Unmarshal(raw, &ops); err != nil || len(ops) == 0 || ops[0].Cfg == nil {
		rep.Err("bad trace: %v", err)
		return
	}
	s := &world{c: ops[0].Cfg, cfg: newCfg(ops[0].Cfg), m: map[int]*mblk{}, r: map[int]*rblk{}, rep: rep, names: map[int]account.Recipient{}}
	var eng consensus.Engine
	if rep.Only() == "V02" && len(ops)%2 == 0 { // otherwise the chain's own rules must do
		eng = w.RulesEngine()
	}
	for i := 1; i <= 3; i++ {
		x := &shard{db: ethdb.NewMemDatabase()}
		var rg *types.RootBlock
		x.factory, rg = w.NewShard(s.cfg, ethdb.NewMemDatabase(), sids[i], eng)
		x.node, _ = w.NewShard(s.cfg, x.db, sids[i], eng)
		s.sh[i] = x
		s.r[1] = &rblk{enc: w.EncRoot(rg), hash: rg.Hash()}
		s.m[i] = &mblk{s: i, enc: w.EncMinor(x.factory.Genesis()), hash: x.factory.Genesis().Hash()}
		defer w.StopAll(x.factory, x.node)
	}
	for i, o := range ops[1:] {
		rep.Step = i + 1
		rep.Op(o.Op)
		o := o
		rep.Guard(pick(rep), func() {
			if o.Op == "M" || o.Op == "X" {
				s.minor(&o)
			} else {
				s.root(&o)
			}
		})
		if rep.Bad() {
			return
		}
	}
}

func pick(rep *w.Rep) string {
	if rep.Only() != "" {
		return rep.Only()
	}
	return "X01"
}

func (s *world) acct(a int) account.Recipient {
	if r, ok := s.names[a]; ok {
		return r
	}
	return rec(a)
}
func token(i int) uint64 {
	if i == 2 {
		return tok2
	}
	return w.QKC
}

func (s *world) minor(o *op) {
	rep, x := s.rep, s.sh[o.S]
	ph := s.m[o.P].hash
	parent := x.factory.GetMinorBlock(ph)
	if !rep.Check(parent != nil, "X01", "stored block %d disappeared", o.P) {
		return
	}
	rh := s.r[o.R].hash
	t := parent.Time() + 1
	miner := account.Address{Recipient: rec(o.Miner), FullShardKey: key(o.S, o.Miner)}
	b := parent.CreateBlockToAppend(&t, nil, &miner, nil, nil, big.NewInt(s.c.Xlim), []byte(fmt.Sprintf("m%d", o.ID)), nil, &rh)
	var txs []*types.Transaction
	for _, tx := range o.Txs {
		var to *account.Recipient
		var data []byte
		switch tx.Kind {
		case "create", "badcreate":
			data = []byte{0x00}
			if tx.Kind == "badcreate" {
				data = []byte{0xfe}
			}
			id := 100 + (o.S*10+tx.F)*100 + int(tx.N)
			if o.Op == "X" {
				break
			}
			if tx.Ts == o.S {
				s.names[id] = createdIn(o.S, tx.F, tx.N, key(o.S, tx.F), false)
			} else {
				s.names[id] = createdIn(o.S, tx.F, tx.N, key(o.S, tx.F), true)
			}
		default:
			r := s.acct(tx.To)
			to = &r
		}
		toKey := key(tx.Ts, tx.To)
		if to == nil {
			toKey = key(tx.Ts, tx.F)
		}
		e := w.Tx(w.K(tx.F), tx.N, to, tx.V, tx.Gas, tx.Price, key(o.S, tx.F), toKey, data, token(tx.Gt), token(tx.Tk))
		txs = append(txs, e)
		b.AddTx(e)
	}
	if o.Op == "X" {
		head := x.factory.CurrentBlock().Hash()
		_, _, err := x.factory.FinalizeAndAddBlock(b)
		tx := o.Txs[len(o.Txs)-1]
		rep.Check(err != nil, pick(rep), "a block of shard %d (parent %d, root block %d) whose last transaction cannot be executed was accepted: %+v", o.S, o.P, o.R, tx)
		rep.Check(x.factory.CurrentBlock().Hash() == head, pick(rep), "a refused block moved the head")
		return
	}
	var mined *types.MinorBlock
	if len(txs) == 0 && x.factory.CurrentBlock().Hash() == ph && x.factory.GetRootTip().Hash() == rh {
		f := false
		var err error
		mined, err = x.factory.CreateBlockToMine(&t, &miner, nil, nil, &f)
		rep.Check(err == nil, "X01", "creating an empty block on block %d failed: %v", o.P, err)
		rep.Op("mine")
	}
	var pre *types.MinorBlock
	ctx := &w.DevCtx{Parent: parent, Shard: sids[o.S], Other: sids[o.S%3+1], Limit: s.cfg.Quarkchain.BlockExtraDataSizeLimit}
	if rep.Only() == "V02" && o.Dev != nil && o.Dev.Pre() {
		pre = w.DeviatePre(w.Rebuild(b.Header(), b.Meta(), b.Transactions()), *o.Dev, ctx)
		_, _, err := x.factory.FinalizeAndAddBlock(pre)
		rep.Check(err != nil, "V02", "a block of shard %d on block %d breaking the rule %v was executed and accepted", o.S, o.P, *o.Dev)
	}
	fb, _, err := x.factory.FinalizeAndAddBlock(b)
	if !rep.Check(err == nil, pick(rep), "a valid block of shard %d (parent %d, root block %d, %d transactions) was refused: %v", o.S, o.P, o.R, len(txs), err) {
		return
	}
	mb := &mblk{s: o.S, enc: w.EncMinor(fb), hash: fb.Hash()}
	s.m[o.ID] = mb
	if mined != nil {
		rep.Check(mined.Meta().Hash() == fb.Meta().Hash() && mined.CoinbaseAmount().GetTokenBalance(w.QKC).Cmp(fb.CoinbaseAmount().GetTokenBalance(w.QKC)) == 0,
			"X01", "a block created for mining on block %d differs from the executed one", o.P)
	}
	if rep.Only() == "V02" && o.Dev != nil {
		if !o.Dev.Pre() {
			pre = w.DeviatePost(w.DecMinor(mb.enc), *o.Dev, ctx)
		}
		rep.Op("dev " + o.Dev.Field())
		head, st := x.node.CurrentBlock().Hash(), x.node.CurrentBlock().Root()
		_, lists, err := x.node.InsertChainForDeposits([]types.IBlock{w.DecMinor(w.EncMinor(pre))}, false)
		rep.Check(err != nil, "V02", "block %d of shard %d (root block %d, %d deposits received) changed in %v was accepted", o.ID, o.S, o.R, len(o.Recv), *o.Dev)
		rep.Check(len(lists) == 0, "V02", "refused block %d of shard %d changed in %v still yields transfers", o.ID, o.S, *o.Dev)
		rep.Check(x.node.CurrentBlock().Hash() == head && x.node.CurrentBlock().Root() == st && rawdb.ReadHeadBlockHash(x.db) == head,
			"V02", "refusing block %d of shard %d changed in %v moved the head", o.ID, o.S, *o.Dev)
	}
	_, lists, err := x.node.InsertChainForDeposits([]types.IBlock{w.DecMinor(mb.enc)}, false)
	if !rep.Check(err == nil && len(lists) == 1, pick(rep), "a valid block of shard %d (parent %d, root block %d) was refused: %v", o.S, o.P, o.R, err) {
		return
	}
	mb.outs = lists[0]
	s.checkBlock(o, fb)
	// hand the transfers to the other shards
	for i := 1; i <= 3; i++ {
		if i == o.S || o.R == 1 {
			continue
		}
		l := types.CrossShardTransactionDepositList{}
		for _, d := range mb.outs {
			id, err := s.cfg.Quarkchain.GetFullShardIdByFullShardKey(d.To.FullShardKey)
			if err == nil && id == sids[i] {
				l.TXList = append(l.TXList, d)
			}
		}
		s.sh[i].factory.AddCrossShardTxListByMinorBlockHash(mb.hash, l)
		s.sh[i].node.AddCrossShardTxListByMinorBlockHash(mb.hash, l)
	}
}

func (s *world) checkBlock(o *op, fb *types.MinorBlock) {
	rep, x := s.rep, s.sh[o.S]
	where := fmt.Sprintf("shard %d block %d (parent %d, root block %d)", o.S, o.ID, o.P, o.R)
	// what was received
	c := fb.Meta().XShardTxCursorInfo
	rep.Check(c.RootBlockHeight == o.Cur[0] && c.MinorBlockIndex == o.Cur[1] && c.XShardDepositIndex == o.Cur[2],
		"X01", "%s: receive cursor is (%d,%d,%d), specification says %v", where, c.RootBlockHeight, c.MinorBlockIndex, c.XShardDepositIndex, o.Cur)
	rep.Check(fb.CrossShardGasUsed().Int64() == o.Xgas, "X01", "%s: cross-shard gas used %v, specification says %d", where, fb.CrossShardGasUsed(), o.Xgas)
	got := rawdb.ReadConfirmedCrossShardTxList(x.db, fb.Hash())
	if rep.Check(got != nil && len(got.TXList) == len(o.Recv), "X01", "%s: received list has the wrong length, specification says %d", where, len(o.Recv)) {
		for i, p := range o.Recv {
			want := s.deposit(o, p)
			d := got.TXList[i]
			rep.Check(want != nil && d.TxHash == want.TxHash && d.From == want.From && d.To == want.To && d.Value.Value.Cmp(want.Value.Value) == 0,
				"X01", "%s: deposit %d received is not the one at position %v", where, i, p)
		}
	}
	// what was sent
	if rep.Check(len(s.m[o.ID].outs) == len(o.Out), "X01", "%s sends %d transfers, specification says %d", where, len(s.m[o.ID].outs), len(o.Out)) {
		j := 0
		for _, tx := range o.Txs {
			if tx.Ts == o.S {
				continue
			}
			d, e := s.m[o.ID].outs[j], o.Out[j]
			j++
			to := s.acct(e.To)
			id, _ := s.cfg.Quarkchain.GetFullShardIdByFullShardKey(d.To.FullShardKey)
			rep.Check(d.From.Recipient == rec(e.F) && d.From.FullShardKey == key(o.S, e.F) && d.To.Recipient == to && id == sids[e.Ts] &&
				d.Value.Value.Int64() == e.V && d.TransferTokenID == token(e.Tk) && d.GasTokenID == w.QKC && d.GasPrice.Value.Int64() == e.Price &&
				d.GasRemained.Value.Int64() == e.Gas && d.RefundRate == e.Rr && d.CreateContract == (e.Kind != "call") && !d.IsFromRootChain,
				"X01", "%s: outgoing transfer %d is %v -> %v value %v gas %v price %v, specification says %+v", where, j-1, d.From, d.To, d.Value.Value, d.GasRemained.Value, d.GasPrice.Value, e)
		}
	}
	// money
	rep.Check(fb.GasUsed().Int64() == o.Gas, "L01", "%s: gas used %v, specification says %d", where, fb.GasUsed(), o.Gas)
	rep.Check(fb.CoinbaseAmount().GetTokenBalance(w.QKC).Int64() == o.Cb, "L01", "%s: recorded reward %v, specification says %d", where, fb.CoinbaseAmount().GetTokenBalance(w.QKC), o.Cb)
	for _, bc := range []*core.MinorBlockChain{x.factory, x.node} {
		st, err := bc.StateAt(fb.Root())
		if !rep.Check(err == nil, "L01", "%s: no state: %v", where, err) {
			return
		}
		for _, v := range o.Bal {
			g := st.GetBalance(s.acct(int(v[0])), w.QKC)
			p := "L01"
			if rep.Only() == "X01" && len(o.Recv) > 0 {
				p = "X01"
			}
			rep.Check(g.IsInt64() && g.Int64() == v[1], p, "%s: balance of account %d is %v, specification says %d", where, v[0], g, v[1])
		}
		for _, v := range o.Tok {
			g := st.GetBalance(s.acct(int(v[0])), tok2)
			rep.Check(g.IsInt64() && g.Int64() == v[1], "L01", "%s: second-token balance of account %d is %v, specification says %d", where, v[0], g, v[1])
		}
		for u := 1; u <= 3; u++ {
			rep.Check(st.GetNonce(rec(u)) == o.Nonce[u-1], "L01", "%s: nonce of account %d is %d, specification says %d", where, u, st.GetNonce(rec(u)), o.Nonce[u-1])
		}
		rep.Check(st.GetState(rec(14), common.Hash{}).Big().Int64() == int64(o.Slot), "L01", "%s: contract storage is not %d", where, o.Slot)
		rc := bc.GetReceiptsByHash(fb.Hash())
		if rep.Check(len(rc) == len(o.Rc)+len(o.Xrc), "L01", "%s: %d receipts, specification says %d+%d", where, len(rc), len(o.Rc), len(o.Xrc)) {
			for i, r := range rc {
				want := false
				if i < len(o.Rc) {
					want = o.Rc[i]
				} else {
					want = o.Xrc[i-len(o.Rc)]
				}
				rep.Check((r.Status == 1) == want, "L01", "%s: receipt %d status %d, specification says %v", where, i, r.Status, want)
			}
		}
	}
}

// deposit at a position of the stream of shard o.S on root chain o.R
func (s *world) deposit(o *op, p [3]int) *types.CrossShardTransactionDeposit {
	r := w.DecRoot(s.r[o.R].enc)
	id := o.R
	for int(r.Number()) > p[0] {
		h := r.ParentHash()
		for k, x := range s.r {
			if x.hash == h {
				id, r = k, w.DecRoot(x.enc)
			}
		}
	}
	if p[1] == 0 {
		v := new(big.Int)
		br := account.Branch{Value: sids[o.S]}
		if fid, err := s.cfg.Quarkchain.GetFullShardIdByFullShardKey(r.Coinbase().FullShardKey); err == nil && fid == br.Value {
			v = r.CoinbaseAmount().GetTokenBalance(w.QKC)
		}
		d := &types.CrossShardTransactionDeposit{}
		d.TxHash, d.From, d.To = r.Hash(), r.Coinbase(), r.Coinbase()
		d.Value = u256(v)
		return d
	}
	m := s.m[s.r[id].l[p[1]-1]]
	k := 0
	for _, d := range m.outs {
		if fid, err := s.cfg.Quarkchain.GetFullShardIdByFullShardKey(d.To.FullShardKey); err == nil && fid == sids[o.S] {
			if k == p[2] {
				return d
			}
			k++
		}
	}
	return nil
}

func (s *world) root(o *op) {
	var hs []*types.MinorBlockHeader
	for _, i := range o.L {
		hs = append(hs, w.DecMinor(s.m[i].enc).Header())
	}
	c := account.Address{Recipient: rec(5), FullShardKey: key(o.Cs, 5)}
	b := w.NewRootBlock(w.DecRoot(s.r[o.P].enc), o.ID, 1000, hs, &c, o.Amt)
	rb := &rblk{enc: w.EncRoot(b), hash: b.Hash(), l: o.L}
	s.r[o.ID] = rb
	for i := 1; i <= 3; i++ {
		for _, bc := range []*core.MinorBlockChain{s.sh[i].factory, s.sh[i].node} {
			_, err := bc.AddRootBlock(w.DecRoot(rb.enc))
			s.rep.Check(err == nil, pick(s.rep), "shard %d refused a valid root block (parent %d, confirming %v): %v", i, o.P, o.L, err)
		}
	}
}

func u256(v *big.Int) *serialize.Uint256 { return &serialize.Uint256{Value: v} }
