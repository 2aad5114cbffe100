// mining replays behaviours of spec/Mining.tla on a real core.MinorBlockChain
// with the real double-SHA256 engine: required difficulty, staking discount,
// stake lock and block reward.
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/consensus/doublesha256"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/w"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
)

type cfgT struct {
	Ex                                   bool
	Cutoff, Factor, Mind, Gend           int64
	Epoch, Num, Den, Base, Rn, Rd        int64
	Win, Stake, Div                      int64
	Posw                                 bool
	EnT, BoostT, Mult, Steps, Intv, DecT int64
	Bal                                  []int64
}
type txT struct {
	K  string
	F  int
	To int
	V  int64
	G  uint64
	Q  int64
}
type op struct {
	Op  string `json:"op"`
	Cfg *cfgT  `json:"cfg"`
	ID  int    `json:"id"`
	P   int    `json:"p"`
	M   int    `json:"m"`
	Dt  uint64 `json:"dt"`
	Txs []txT  `json:"txs"`
	D   int64  `json:"d"`
	Eff int64  `json:"eff"`
	Cb  int64  `json:"cb"`
	Rw  int64  `json:"rw"`
	Bal []int64
	Res []bool
	Cnt uint64
	Sp  int64
	Nd  int64
	T   uint64
	Dv  uint64
}

type blkT struct {
	enc   []byte
	hash  common.Hash
	time  uint64
	nonce map[int]uint64
}
type world struct {
	rep           *w.Rep
	c             *cfgT
	u             *big.Int // scale of all amounts
	cfg           *config.ClusterConfig
	factory, node *core.MinorBlockChain
	b             map[int]*blkT
	rg            common.Hash
	t0            uint64
}

var sid = w.ShardID(0, 2, 0)
var other = w.ShardID(0, 2, 1)
var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

func main() { w.Main(replay) }

func (s *world) amt(x int64) *big.Int { return new(big.Int).Mul(big.NewInt(x), s.u) }

func replay(raw json.RawMessage, rep *w.Rep) {
	var ops []op
	if err := json.Unmarshal(raw, &ops); err != nil {
		rep.Err("bad trace: %v", err)
		return
	}
	rep.Prop = rep.Only()
	if rep.Prop == "" {
		rep.Prop = "W01"
	}
	s := &world{rep: rep, c: ops[0].Cfg, u: big.NewInt(1), b: map[int]*blkT{}}
	if s.c.Ex {
		s.u, _ = new(big.Int).SetString("7000000000000000000", 10)
	}
	s.setup()
	for i, o := range ops[1:] {
		rep.Step = i + 1
		rep.Op(o.Op)
		switch o.Op {
		case "B":
			s.block(o)
		case "Q":
			s.query(o)
		case "P":
			s.pure(o)
		default:
			rep.Err("unknown op %s", o.Op)
		}
		if rep.Bad() {
			break
		}
	}
	w.StopAll(s.node, s.factory)
}

func (s *world) calc(u *big.Int) *consensus.EthDifficultyCalculator {
	return &consensus.EthDifficultyCalculator{AdjustmentCutoff: uint32(s.c.Cutoff), AdjustmentFactor: uint32(s.c.Factor),
		MinimumDifficulty: new(big.Int).Mul(big.NewInt(s.c.Mind), u)}
}

func (s *world) setup() {
	c := s.c
	mk := func(skip bool) *config.ClusterConfig {
		return w.NewCfg(w.Opts{Chains: 1, Shards: 2, Tweak: func(k *config.ClusterConfig) {
			q := k.Quarkchain
			q.SkipMinorDifficultyCheck = skip
			q.LocalFeeRate = big.NewRat(c.Rn, c.Rd)
			q.RewardTaxRate = new(big.Rat).Sub(big.NewRat(1, 1), q.LocalFeeRate)
			q.BlockRewardDecayFactor = big.NewRat(c.Num, c.Den)
			sc := q.GetShardConfigByFullShardID(sid)
			t0 := sc.Genesis.Timestamp
			s.t0 = t0
			at := func(x int64) uint64 {
				if x == 0 {
					return 0
				}
				return t0 + uint64(x)
			}
			sc.CoinbaseAmount = s.amt(c.Base)
			sc.EpochInterval = uint64(c.Epoch)
			sc.Genesis.Difficulty = uint64(c.Gend)
			q.EnablePoswStakingDecayTimestamp = at(c.DecT)
			p := sc.PoswConfig
			p.Enabled, p.EnableTimestamp, p.DiffDivider, p.WindowSize = c.Posw, at(c.EnT), uint64(c.Div), uint64(c.Win)
			p.TotalStakePerBlock = s.amt(c.Stake)
			p.BoostTimestamp, p.BoostMultiplierPerStep, p.BoostSteps, p.BoostStepInterval = at(c.BoostT), uint64(c.Mult), uint64(c.Steps), uint64(c.Intv)
			for i, x := range c.Bal {
				sc.Genesis.Alloc[account.Address{Recipient: w.K(i + 1).Rec, FullShardKey: sid}] = config.Allocation{Balances: map[string]*big.Int{"QKC": s.amt(x)}}
			}
		}})
	}
	s.cfg = mk(false)
	var rg *types.RootBlock
	s.factory, rg = w.NewShard(mk(true), ethdb.NewMemDatabase(), sid, nil)
	s.node, _ = w.NewShard(s.cfg, ethdb.NewMemDatabase(), sid, doublesha256.New(s.calc(big.NewInt(1)), false, nil))
	miner := w.K(60).Addr(sid)
	r1 := w.NewRootBlock(rg, 1, 1000, nil, &miner, 0)
	for _, m := range []*core.MinorBlockChain{s.factory, s.node} {
		if _, err := m.AddRootBlock(w.DecRoot(w.EncRoot(r1))); err != nil {
			panic(err)
		}
	}
	s.rg = r1.Hash()
	g := s.factory.CurrentBlock()
	s.b[1] = &blkT{enc: w.EncMinor(g), hash: g.Hash(), time: g.Time(), nonce: map[int]uint64{}}
}

func pow(seal common.Hash, nonce uint64) *big.Int {
	var x [40]byte
	copy(x[:], seal[:])
	binary.BigEndian.PutUint64(x[32:], nonce)
	a := sha256.Sum256(x[:])
	b := sha256.Sum256(a[:])
	return new(big.Int).SetBytes(b[:])
}
func target(d int64) *big.Int {
	if d < 1 {
		d = 1
	}
	return new(big.Int).Div(two256, big.NewInt(d))
}

// grind finds a nonce whose result meets difficulty easy and (when hard > 0) misses difficulty hard.
func grind(seal common.Hash, easy, hard int64) (uint64, bool) {
	lo := big.NewInt(-1)
	if hard > 0 {
		lo = target(hard)
	}
	hi := target(easy)
	if lo.Cmp(hi) >= 0 {
		return 0, false
	}
	for n := uint64(0); n < 2000000; n++ {
		r := pow(seal, n)
		if r.Cmp(hi) <= 0 && r.Cmp(lo) > 0 {
			return n, true
		}
	}
	return 0, false
}

func (s *world) insert(b *types.MinorBlock) error {
	_, err := s.node.InsertChain([]types.IBlock{w.DecMinor(w.EncMinor(b))}, false)
	return err
}

func sealed(b *types.MinorBlock, n uint64) *types.MinorBlock {
	return b.WithMingResult(n, common.Hash{}, nil).(*types.MinorBlock)
}

func (s *world) block(o op) {
	rep := s.rep
	pb := s.b[o.P]
	t := pb.time + o.Dt
	miner := w.K(o.M).Addr(sid)
	// the mining side at the head
	if s.node.CurrentBlock().Hash() == pb.hash {
		no := false
		tt := t
		nb, err := s.node.CreateBlockToMine(&tt, &miner, nil, nil, &no)
		if rep.Check(err == nil, "D01", "creating a block on the head failed: %v", err) {
			rep.Check(nb.Difficulty().Cmp(big.NewInt(o.D)) == 0, "D01", "mining: difficulty after %d s is %v, specification says %d", o.Dt, nb.Difficulty(), o.D)
			got := nb.CoinbaseAmount().GetTokenBalance(w.QKC)
			rep.Check(got.Cmp(s.amt(o.Rw)) == 0, "D01", "mining: reward at height %d is %v, specification says %d x %v", nb.NumberU64(), got, o.Rw, s.u)
		}
	}
	parent := s.factory.GetMinorBlock(pb.hash)
	b := parent.CreateBlockToAppend(&t, big.NewInt(o.D), &miner, nil, nil, nil, []byte(fmt.Sprintf("b%d", o.ID)), nil, &s.rg)
	nonce := map[int]uint64{}
	for k, v := range pb.nonce {
		nonce[k] = v
	}
	for _, x := range o.Txs {
		to := &[]account.Recipient{w.K(x.To).Rec}[0]
		toKey := sid
		if x.K == "x" {
			toKey = other
		}
		if x.To == 0 {
			to = &[]account.Recipient{w.K(70).Rec}[0]
		}
		if x.K == "create" {
			to = nil
		}
		b.AddTx(w.TxBig(w.K(x.F), nonce[x.F], to, s.amt(x.V), x.G, s.amt(x.Q), sid, toKey, nil, w.QKC, w.QKC))
		nonce[x.F]++
	}
	fb, receipts, err := s.factory.FinalizeAndAddBlock(b)
	if !rep.Check(err == nil, "W01", "a valid block on %d by %d with transactions %v was refused: %v", o.P, o.M, o.Txs, err) {
		return
	}
	for i, want := range o.Res {
		rep.Check((receipts[i].Status == 1) == want, "W01", "transaction %+v succeeded=%v, specification says %v (block on %d by %d)", o.Txs[i], receipts[i].Status == 1, want, o.P, o.M)
	}
	got := fb.CoinbaseAmount().GetTokenBalance(w.QKC)
	rep.Check(got.Cmp(s.amt(o.Cb)) == 0, "D01", "reward and fees of a block at height %d are %v, specification says %d x %v", fb.NumberU64(), got, o.Cb, s.u)
	if rep.Bad() {
		return
	}
	// the validating side
	for _, x := range []int64{-1, 1, o.D} {
		h := fb.Header()
		h.Difficulty = big.NewInt(o.D + x)
		if h.Difficulty.Sign() <= 0 {
			continue
		}
		v := fb.WithSeal(h)
		if n, ok := grind(v.Header().SealHash(), o.D+x, 0); ok {
			err := s.insert(sealed(v, n))
			rep.Check(err != nil, "D01", "a block %d s after its parent with difficulty %d was accepted, required is %d", o.Dt, o.D+x, o.D)
		}
	}
	h := fb.Header()
	h.CoinbaseAmount = types.NewEmptyTokenBalances()
	h.CoinbaseAmount.SetValue(new(big.Int).Add(got, big.NewInt(1)), w.QKC)
	v := fb.WithSeal(h)
	if n, ok := grind(v.Header().SealHash(), o.D, 0); ok {
		rep.Check(s.insert(sealed(v, n)) != nil, "D01", "a block claiming one unit more than its reward was accepted")
	}
	seal := fb.Header().SealHash()
	if o.Eff == o.D { // one that would pass only with a discount
		easy := o.D / 2
		if n, ok := grind(seal, easy, o.D); ok {
			rep.Check(s.insert(sealed(fb, n)) != nil, "W01", "block on %d by %d passes with half the required difficulty %d", o.P, o.M, o.D)
		}
	} else if n, ok := grind(seal, 1, o.Eff); ok && o.Eff > 1 {
		rep.Check(s.insert(sealed(fb, n)) != nil, "W01", "block on %d by %d passes with less than the discounted difficulty %d", o.P, o.M, o.Eff)
	}
	hard := int64(0)
	if o.Eff < o.D {
		hard = o.D
	}
	n, ok := grind(seal, o.Eff, hard)
	if !ok {
		n, _ = grind(seal, o.Eff, 0)
	}
	final := sealed(fb, n)
	err = s.insert(final)
	if !rep.Check(err == nil, "W01", "block on %d by %d meeting difficulty %d (of %d) was refused: %v", o.P, o.M, o.Eff, o.D, err) {
		return
	}
	if _, err := s.factory.InsertChain([]types.IBlock{w.DecMinor(w.EncMinor(final))}, false); err != nil {
		rep.V("W01", "the sealed block was refused by the unsealed chain: %v", err)
		return
	}
	s.b[o.ID] = &blkT{enc: w.EncMinor(final), hash: final.Hash(), time: t, nonce: nonce}
	hash := final.Hash()
	for i, x := range o.Bal {
		bal, err := s.node.GetBalance(w.K(i+1).Rec, &hash)
		if rep.Check(err == nil, "W01", "no state at an accepted block: %v", err) {
			g := bal.GetTokenBalance(w.QKC)
			rep.Check(g.Cmp(s.amt(x)) == 0, "W01", "balance of producer %d after block %d is %v, specification says %d x %v", i+1, o.ID, g, x, s.u)
		}
	}
}

func (s *world) query(o op) {
	rep := s.rep
	pb := s.b[o.P]
	parent := s.node.GetMinorBlock(pb.hash)
	t := pb.time + o.Dt
	miner := w.K(o.M).Addr(sid)
	b := parent.CreateBlockToAppend(&t, big.NewInt(o.D), &miner, nil, nil, nil, nil, nil, &s.rg)
	d, div, err := s.node.GetAdjustedDifficulty(b.Header())
	if rep.Check(err == nil, "W01", "required difficulty of a block on %d: %v", o.P, err) {
		d = new(big.Int).Div(d, new(big.Int).SetUint64(div))
		rep.Check(d.Cmp(big.NewInt(o.Eff)) == 0, "W01", "a block on %d by %d after %d s needs %v, specification says %d (of %d)", o.P, o.M, o.Dt, d, o.Eff, o.D)
	}
	nd, err := s.node.Engine().CalcDifficulty(s.node, t, parent)
	rep.Check(err == nil && nd.Cmp(big.NewInt(o.D)) == 0, "D01", "difficulty of a block on %d after %d s is %v (%v), specification says %d", o.P, o.Dt, nd, err, o.D)
	sp := s.node.DecayByHeightAndTime(parent.NumberU64()+1, t)
	rep.Check(sp.Cmp(s.amt(o.Sp)) == 0, "D01", "stake per block at height %d is %v, specification says %d x %v", parent.NumberU64()+1, &sp, o.Sp, s.u)
	if s.c.Posw && s.node.CurrentBlock().Hash() == pb.hash {
		_, mined, err := s.node.GetMiningInfo(w.K(o.M).Rec, types.NewEmptyTokenBalances())
		rep.Check(err == nil && mined == o.Cnt, "W01", "mining info says %d made %d blocks in the window (%v), specification says %d", o.M, mined, err, o.Cnt)
	}
}

func (s *world) pure(o op) {
	for _, sc := range []string{"1", "1000000000000000", "1180591620717411303424"} {
		u, _ := new(big.Int).SetString(sc, 10)
		h := &types.MinorBlockHeader{Number: 5, Time: 1000000, Difficulty: new(big.Int).Mul(big.NewInt(o.D), u)}
		p := types.NewMinorBlockWithHeader(h, &types.MinorBlockMeta{})
		d, err := s.calc(u).CalculateDifficulty(p, 1000000+o.Dt)
		want := new(big.Int).Mul(big.NewInt(o.Nd), u)
		s.rep.Check(err == nil && d.Cmp(want) == 0, "D01", "difficulty %d x %s after %d s gives %v (%v), specification says %v", o.D, sc, o.Dt, d, err, want)
	}
	_, err := s.calc(big.NewInt(1)).CalculateDifficulty(types.NewMinorBlockWithHeader(&types.MinorBlockHeader{Time: 1000000, Difficulty: big.NewInt(o.D)}, &types.MinorBlockMeta{}), 999999)
	s.rep.Check(err != nil, "D01", "a block before its parent has a difficulty")
	got := s.cfg.Quarkchain.GetShardConfigByFullShardID(sid).PoswConfig.GetDiffDivider(s.t0 + o.T)
	s.rep.Check(got == o.Dv, "D01", "staking divisor at time %d is %d, specification says %d", o.T, got, o.Dv)
}
