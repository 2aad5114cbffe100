// rootmining replays behaviours of spec/RootMining.tla on a real
// core.RootBlockChain with the real double-SHA256 engine.
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	qkccom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/consensus/doublesha256"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/w"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb"
)

type stakeT struct {
	S  int64
	By int
	Ok bool
}
type cfgT struct {
	Cutoff, Factor, Mind, Gend     int64
	Epoch, Num, Den, Base, Rn, Rd  int64
	Win, Stake, Div                int64
	Posw                           bool
	EnT, BoostT, Mult, Steps, Intv int64
	Stk                            [][]stakeT
	Mq, Mx                         []int64
}
type op struct {
	Op  string
	Cfg *cfgT
	ID  int
	P   int
	M   int
	Dt  uint64
	Sig int
	K   int
	N   int
	D   int64
	Eff int64
	Tm  int64
	Q   int64
	X   int64
}
type blkT struct {
	enc  []byte
	hash common.Hash
	time uint64
}
type world struct {
	rep *w.Rep
	c   *cfgT
	cfg *config.ClusterConfig
	bc  *core.RootBlockChain
	b   map[int]*blkT
	hs  []*types.MinorBlockHeader
	num map[common.Hash]int
}

var sid = w.ShardID(0, 1, 0)
var xtok = qkccom.TokenIDEncode("XTK")
var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

const guard = 9

func main() { w.Main(replay) }

func replay(raw json.RawMessage, rep *w.Rep) {
	var ops []op
	if err := json.Unmarshal(raw, &ops); err != nil {
		rep.Err("bad trace: %v", err)
		return
	}
	rep.Prop = rep.Only()
	if rep.Prop == "" {
		rep.Prop = "W01"
	}
	s := &world{rep: rep, c: ops[0].Cfg, b: map[int]*blkT{}, num: map[common.Hash]int{}}
	s.setup()
	for i, o := range ops[1:] {
		rep.Step = i + 1
		rep.Op(o.Op)
		if o.Op == "B" {
			s.block(o)
		} else {
			s.query(o)
		}
		if rep.Bad() {
			break
		}
	}
	w.StopAll(s.bc)
}

func (s *world) setup() {
	c := s.c
	s.cfg = w.NewCfg(w.Opts{Chains: 1, Shards: 1, Tweak: func(k *config.ClusterConfig) {
		q := k.Quarkchain
		q.SkipRootDifficultyCheck = false
		q.SkipRootCoinbaseCheck = false
		q.RewardCalculateRate = big.NewRat(c.Rn, c.Rd)
		q.BlockRewardDecayFactor = big.NewRat(c.Num, c.Den)
		q.GuardianPublicKey = crypto.FromECDSAPub(&w.K(guard).Priv.PublicKey)
		q.GetShardConfigByFullShardID(sid).ExtraShardBlocksInRootBlock = 30
		r := q.Root
		t0 := uint64(r.Genesis.Timestamp)
		at := func(x int64) uint64 {
			if x == 0 {
				return 0
			}
			return t0 + uint64(x)
		}
		r.CoinbaseAmount, r.EpochInterval, r.Genesis.Difficulty = big.NewInt(c.Base), uint64(c.Epoch), uint64(c.Gend)
		p := r.PoSWConfig
		p.Enabled, p.EnableTimestamp, p.DiffDivider, p.WindowSize = c.Posw, at(c.EnT), uint64(c.Div), uint64(c.Win)
		p.TotalStakePerBlock = big.NewInt(c.Stake)
		p.BoostTimestamp, p.BoostMultiplierPerStep, p.BoostSteps, p.BoostStepInterval = at(c.BoostT), uint64(c.Mult), uint64(c.Steps), uint64(c.Intv)
	}})
	d := &consensus.EthDifficultyCalculator{AdjustmentCutoff: uint32(c.Cutoff), AdjustmentFactor: uint32(c.Factor), MinimumDifficulty: big.NewInt(c.Mind)}
	s.bc = w.NewRoot(s.cfg, ethdb.NewMemDatabase(), doublesha256.New(d, false, nil))
	s.bc.SetRootChainStakesFunc(func(a account.Address, last common.Hash) (*big.Int, *account.Recipient, error) {
		k, ok := s.num[last]
		if !ok {
			return nil, nil, errors.New("unknown shard block")
		}
		for m := 1; m <= 3; m++ {
			if a.Recipient == w.K(m).Rec {
				x := s.c.Stk[k-1][m-1]
				if !x.Ok {
					return nil, nil, errors.New("stake unknown")
				}
				signer := account.Recipient{}
				if x.By != 0 {
					signer = w.K(20 + x.By).Rec
				}
				return big.NewInt(x.S), &signer, nil
			}
		}
		return nil, nil, errors.New("unknown producer")
	})
	g := s.bc.CurrentBlock()
	s.b[1] = &blkT{w.EncRoot(g), g.Hash(), g.Time()}
	var prev common.Hash
	for i := range c.Mq {
		m := map[uint64]*big.Int{}
		if c.Mq[i] != 0 {
			m[w.QKC] = big.NewInt(c.Mq[i])
		}
		if c.Mx[i] != 0 {
			m[xtok] = big.NewInt(c.Mx[i])
		}
		h := &types.MinorBlockHeader{Branch: account.Branch{Value: sid}, Number: uint64(i), ParentHash: prev, CoinbaseAmount: types.NewTokenBalancesWithMap(m),
			Time: g.Time() + 1, Difficulty: big.NewInt(10), GasLimit: &serialize.Uint256{Value: big.NewInt(12000000)}, PrevRootBlockHash: g.Hash(),
			Coinbase: w.K(50).Addr(sid)}
		prev = h.Hash()
		s.hs = append(s.hs, h)
		s.num[prev] = i + 1
		s.bc.AddValidatedMinorBlockHeader(prev, h.CoinbaseAmount)
	}
}

func pow(seal common.Hash, nonce uint64) *big.Int {
	var x [40]byte
	copy(x[:], seal[:])
	binary.BigEndian.PutUint64(x[32:], nonce)
	a := sha256.Sum256(x[:])
	b := sha256.Sum256(a[:])
	return new(big.Int).SetBytes(b[:])
}
func target(d int64) *big.Int {
	if d < 1 {
		d = 1
	}
	return new(big.Int).Div(two256, big.NewInt(d))
}
func grind(seal common.Hash, easy, hard int64) (uint64, bool) {
	lo := big.NewInt(-1)
	if hard > 0 {
		lo = target(hard)
	}
	hi := target(easy)
	if lo.Cmp(hi) >= 0 {
		return 0, false
	}
	for n := uint64(0); n < 2000000; n++ {
		r := pow(seal, n)
		if r.Cmp(hi) <= 0 && r.Cmp(lo) > 0 {
			return n, true
		}
	}
	return 0, false
}

func sign(h *types.RootBlockHeader, by int) *[65]byte {
	if by == 0 {
		return nil
	}
	k := w.K(guard)
	if by != guard {
		k = w.K(20 + by)
	}
	seal := h.SealHash()
	x, err := crypto.Sign(seal[:], k.Priv)
	if err != nil {
		panic(err)
	}
	var r [65]byte
	copy(r[:], x)
	return &r
}

func (s *world) insert(b *types.RootBlock) error {
	_, err := s.bc.InsertChain([]types.IBlock{w.DecRoot(w.EncRoot(b))})
	return err
}

func (s *world) block(o op) {
	rep := s.rep
	p := w.DecRoot(s.b[o.P].enc)
	t := s.b[o.P].time + o.Dt
	miner := w.K(o.M).Addr(sid)
	list := s.hs[o.K : o.K+o.N]
	amt := map[uint64]*big.Int{w.QKC: big.NewInt(o.Q)}
	for _, h := range list {
		if h.CoinbaseAmount.GetTokenBalance(xtok).Sign() > 0 {
			amt[xtok] = big.NewInt(o.X)
		}
	}
	if s.bc.CurrentBlock().Hash() == p.Hash() {
		tt := t
		nb, err := s.bc.CreateBlockToMine(list, &miner, &tt)
		if rep.Check(err == nil, "D01", "creating a root block failed: %v", err) {
			rep.Check(nb.Difficulty().Cmp(big.NewInt(o.D)) == 0, "D01", "mining: root difficulty after %d s is %v, specification says %d", o.Dt, nb.Difficulty(), o.D)
			q, x := nb.CoinbaseAmount().GetTokenBalance(w.QKC), nb.CoinbaseAmount().GetTokenBalance(xtok)
			rep.Check(q.Cmp(big.NewInt(o.Q)) == 0 && x.Cmp(big.NewInt(o.X)) == 0, "D01", "mining: root reward at height %d confirming %d is %v and %v, specification says %d and %d", nb.NumberU64(), o.N, q, x, o.Q, o.X)
		}
	}
	build := func(d int64, dq int64) *types.RootBlock {
		b := p.Header().CreateBlockToAppend(&t, big.NewInt(d), &miner, nil, []byte(fmt.Sprintf("r%d", o.ID)))
		for _, h := range list {
			b.AddMinorBlockHeader(h)
		}
		a := types.NewTokenBalancesWithMap(amt).Copy()
		a.SetValue(big.NewInt(o.Q+dq), w.QKC)
		b.Finalize(a, &miner, common.Hash{})
		return b
	}
	sealed := func(b *types.RootBlock, sig int, n uint64) *types.RootBlock {
		return b.WithMingResult(n, common.Hash{}, sign(b.Header(), sig)).(*types.RootBlock)
	}
	for _, x := range []int64{-1, 1, o.D} {
		if o.D+x <= 0 {
			continue
		}
		v := build(o.D+x, 0)
		if n, ok := grind(v.Header().SealHash(), o.D+x, 0); ok {
			rep.Check(s.insert(sealed(v, o.Sig, n)) != nil, "D01", "a root block %d s after its parent with difficulty %d was accepted, required is %d", o.Dt, o.D+x, o.D)
		}
	}
	v := build(o.D, 1)
	if n, ok := grind(v.Header().SealHash(), o.D, 0); ok {
		rep.Check(s.insert(sealed(v, o.Sig, n)) != nil, "D01", "a root block claiming one unit more than its reward was accepted")
	}
	b := build(o.D, 0)
	seal := b.Header().SealHash()
	if o.Eff == o.D {
		for _, easy := range []int64{o.D / 2, o.D / 1000} {
			if n, ok := grind(seal, easy, o.D); ok {
				rep.Check(s.insert(sealed(b, o.Sig, n)) != nil, "W01", "root block on %d by %d signed by %d passes with difficulty %d of the required %d", o.P, o.M, o.Sig, easy, o.D)
			}
		}
	} else if o.Eff > 1 {
		if n, ok := grind(seal, 1, o.Eff); ok {
			rep.Check(s.insert(sealed(b, o.Sig, n)) != nil, "W01", "root block on %d by %d signed by %d passes with less than the reduced difficulty %d", o.P, o.M, o.Sig, o.Eff)
		}
	}
	hard := int64(0)
	if o.Eff < o.D {
		hard = o.D
	}
	n, ok := grind(seal, o.Eff, hard)
	if !ok {
		n, _ = grind(seal, o.Eff, 0)
	}
	f := sealed(b, o.Sig, n)
	err := s.insert(f)
	if !rep.Check(err == nil, "W01", "root block on %d by %d signed by %d meeting difficulty %d (of %d) was refused: %v", o.P, o.M, o.Sig, o.Eff, o.D, err) {
		return
	}
	s.b[o.ID] = &blkT{w.EncRoot(f), f.Hash(), t}
}

func (s *world) query(o op) {
	rep := s.rep
	p := w.DecRoot(s.b[o.P].enc)
	t := s.b[o.P].time + o.Dt
	miner := w.K(o.M).Addr(sid)
	b := p.Header().CreateBlockToAppend(&t, big.NewInt(o.D), &miner, nil, nil)
	h := b.Header()
	if x := sign(h, o.Sig); x != nil {
		h.Signature = *x
	}
	d, div, err := s.bc.GetAdjustedDifficulty(h)
	if rep.Check(err == nil && div > 0, "W01", "required difficulty of a root block on %d: %v", o.P, err) {
		d = new(big.Int).Div(d, new(big.Int).SetUint64(div))
		rep.Check(d.Cmp(big.NewInt(o.Eff)) == 0, "W01", "a root block on %d by %d signed by %d after %d s needs %v, specification says %d (of %d)", o.P, o.M, o.Sig, o.Dt, d, o.Eff, o.D)
	}
	d, div, err = s.bc.GetAdjustedDifficultyToMine(b.Header())
	if rep.Check(err == nil && div > 0, "W01", "difficulty to mine on %d: %v", o.P, err) {
		d = new(big.Int).Div(d, new(big.Int).SetUint64(div))
		rep.Check(d.Cmp(big.NewInt(o.Tm)) == 0, "W01", "mining a root block on %d by %d after %d s needs %v, specification says %d (of %d)", o.P, o.M, o.Dt, d, o.Tm, o.D)
	}
	nd, err := s.bc.Engine().CalcDifficulty(s.bc, t, p)
	rep.Check(err == nil && nd.Cmp(big.NewInt(o.D)) == 0, "D01", "difficulty of a root block on %d after %d s is %v (%v), specification says %d", o.P, o.Dt, nd, err, o.D)
}
