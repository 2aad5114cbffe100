// rootchain replays behaviours of spec/RootChain.tla on a real core.RootBlockChain.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/consensus/simulate"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/internal/encoder"
	"github.com/QuarkChain/goquarkchain/core/rawdb"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/w"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"

	qkccom "github.com/QuarkChain/goquarkchain/common"
)

type op struct {
	Op    string  `json:"op"`
	ID    int     `json:"id"`
	S     int     `json:"s"`
	P     int     `json:"p"`
	R     int     `json:"r"`
	D     int64   `json:"d"`
	T     uint64  `json:"t"`
	Q     int64   `json:"q"`
	X     int64   `json:"x"`
	L     []int   `json:"l"`
	Mut   string  `json:"mut"`
	B     []int   `json:"b"`
	Ok    bool    `json:"ok"`
	Dup   bool    `json:"dup"`
	Taken []int   `json:"taken"`
	Head  int     `json:"head"`
	Conf  [][]int `json:"conf"`
	Per   int     `json:"per"`
	// crash
	At    int  `json:"at"`
	Again bool `json:"again"`
	Re    bool `json:"re"`
}

var xtok = qkccom.TokenIDEncode("XTK")

func shardID(s int) uint32 { return w.ShardID(uint32(s-1), 1, 0) }

func newCfg(per int) *config.ClusterConfig {
	return w.NewCfg(w.Opts{Chains: 3, Shards: 1, Tweak: func(c *config.ClusterConfig) {
		q := c.Quarkchain
		q.SkipRootCoinbaseCheck = false
		q.Root.CoinbaseAmount = big.NewInt(40)
		q.Root.EpochInterval = 2
		q.RewardTaxRate = big.NewRat(1, 2)
		q.RewardCalculateRate = big.NewRat(1, 2)
		q.BlockRewardDecayFactor = big.NewRat(1, 2)
		for s := 1; s <= 3; s++ {
			sc := q.GetShardConfigByFullShardID(shardID(s))
			sc.ConsensusConfig.TargetBlockTime = 10
			sc.ExtraShardBlocksInRootBlock = uint32(per - 1)
			if s == 3 {
				sc.Genesis.RootHeight = 1
			}
		}
	}})
}

func amount(q, x int64) *types.TokenBalances {
	m := map[uint64]*big.Int{}
	if q != 0 {
		m[w.QKC] = big.NewInt(q)
	}
	if x != 0 {
		m[xtok] = big.NewInt(x)
	}
	return types.NewTokenBalancesWithMap(m)
}

type hdr struct {
	h    *types.MinorBlockHeader
	s, p int
	who  int
}
type rblk struct {
	p, h, td int
	l        []int
	enc      []byte
	hash     common.Hash
}

type world struct {
	cfg  *config.ClusterConfig
	bc   *core.RootBlockChain
	db   ethdb.Database
	rep  *w.Rep
	m    map[int]*hdr
	r    map[int]*rblk
	mid  map[common.Hash]int
	rid  map[common.Hash]int
	base uint64
	conf map[int][]int
	acc  map[int]bool
	prop string // report everything under this property
	ctx  string

	out         common.Hash // root block noted as going out
	cut, writes int
}

func main() { w.Main(replay) }

func engine(cfg *config.ClusterConfig) consensus.Engine {
	d := &consensus.EthDifficultyCalculator{AdjustmentCutoff: 40, AdjustmentFactor: 1024, MinimumDifficulty: big.NewInt(1)}
	return simulate.New(d, false, nil, 10)
}

func replay(raw json.RawMessage, rep *w.Rep) {
	var ops []op
	if err := json.Unmarshal(raw, &ops); err != nil {
		rep.Err("bad trace: %v", err)
		return
	}
	per := 2
	if ops[0].Op == "C" {
		per = ops[0].Per
	}
	s := &world{cfg: newCfg(per), rep: rep, m: map[int]*hdr{}, r: map[int]*rblk{}, mid: map[common.Hash]int{}, rid: map[common.Hash]int{}, conf: map[int][]int{}, acc: map[int]bool{1: true}}
	s.db = ethdb.NewMemDatabase()
	s.bc = w.NewRoot(s.cfg, s.db, engine(s.cfg))
	s.bc.SetEnableCountMinorBlocks(true)
	g := s.bc.CurrentBlock()
	s.base = g.Time()
	s.r[1] = &rblk{enc: w.EncRoot(g), hash: g.Hash()}
	s.rid[g.Hash()] = 1
	s.conf[1] = []int{0, 0, 0}
	crash := ops[len(ops)-1].Op == "crash"
	for i, o := range ops {
		rep.Step = i
		if crash && (o.Op == "dr" || o.Op == "v") {
			continue
		}
		if o.Op == "crash" {
			s.crash(ops, o)
			break
		}
		rep.Op(o.Op)
		ok := rep.Guard(propOf(o), func() { s.step(o) })
		if !ok || rep.Bad() {
			break
		}
	}
	w.StopAll(s.bc)
}

func propOf(o op) string {
	if o.Op == "dr" && !o.Ok {
		return "V01"
	}
	return "F03"
}

func (s *world) step(o op) {
	switch o.Op {
	case "M":
		h := &types.MinorBlockHeader{Branch: account.Branch{Value: shardID(o.S)}, CoinbaseAmount: amount(o.Q, o.X), Time: s.base + o.T,
			Difficulty: big.NewInt(10), GasLimit: &serialize.Uint256{Value: big.NewInt(12000000)}, PrevRootBlockHash: s.r[o.R].hash,
			Extra: []byte(fmt.Sprintf("m%d", o.ID))}
		who := 1 + o.ID%2
		h.Coinbase = w.K(who).Addr(shardID(o.S))
		if o.P != 0 {
			h.Number, h.ParentHash = s.m[o.P].h.Number+1, s.m[o.P].h.Hash()
		}
		s.m[o.ID] = &hdr{h, o.S, o.P, who}
		s.mid[h.Hash()] = o.ID
	case "R":
		s.makeRoot(o)
	case "v":
		s.bc.AddValidatedMinorBlockHeader(s.m[o.ID].h.Hash(), s.m[o.ID].h.CoinbaseAmount)
	case "dr":
		s.deliver(o)
	}
}

func (s *world) makeRoot(o op) {
	p := w.DecRoot(s.r[o.P].enc)
	c := w.K(60).Addr(shardID(1))
	t := s.base + o.T
	b := p.Header().CreateBlockToAppend(&t, big.NewInt(o.D*1000), &c, nil, []byte(fmt.Sprintf("r%d", o.ID)))
	for _, i := range o.L {
		b.AddMinorBlockHeader(s.m[i].h)
	}
	q, x := o.Q, o.X
	switch o.Mut {
	case "amount":
		q++
	case "amount2":
		x++
	}
	amt := map[uint64]*big.Int{w.QKC: big.NewInt(q)}
	for _, i := range o.L { // a token is listed as soon as some confirmed block paid it, even if the share rounds to zero
		if len(s.m[i].h.CoinbaseAmount.GetBalanceMap()) > 0 && s.m[i].h.CoinbaseAmount.GetTokenBalance(xtok).Sign() > 0 {
			amt[xtok] = big.NewInt(x)
		}
	}
	if x != 0 {
		amt[xtok] = big.NewInt(x)
	}
	b.Finalize(types.NewTokenBalancesWithMap(amt), &c, common.Hash{})
	h := b.Header()
	var track []byte
	l := b.MinorBlockHeaders()
	switch o.Mut {
	case "height":
		h.Number++
	case "time":
		h.Time = p.Time()
	case "td":
		h.ToTalDifficulty = new(big.Int).Add(h.ToTalDifficulty, big.NewInt(1))
	case "merkle":
		h.MinorHeaderHash = common.BytesToHash([]byte{1, 2})
	case "root":
		h.Root = common.BytesToHash([]byte{3})
	case "version":
		h.Version = 1
	case "extra":
		h.Extra = make([]byte, s.cfg.Quarkchain.BlockExtraDataSizeLimit+1)
		h.Extra[0] = byte(o.ID)
	case "track":
		track = make([]byte, s.cfg.Quarkchain.BlockExtraDataSizeLimit+1)
	}
	nb := types.NewRootBlockWithHeader(h).WithBody(l, nil)
	if track != nil {
		nb = w.DecRoot(append(w.EncRoot(nb)[:len(w.EncRoot(nb))-2], append([]byte{byte(len(track) >> 8), byte(len(track))}, track...)...))
	}
	s.r[o.ID] = &rblk{p: o.P, h: s.r[o.P].h + 1, td: s.r[o.P].td + int(o.D), l: o.L, enc: w.EncRoot(nb), hash: nb.Hash()}
	if _, dup := s.rid[nb.Hash()]; dup {
		s.rep.Err("two root blocks with one hash")
	}
	s.rid[nb.Hash()] = o.ID
}

func (s *world) deliver(o op) {
	rep := s.rep
	var bl []types.IBlock
	for _, i := range o.B {
		bl = append(bl, w.DecRoot(s.r[i].enc))
	}
	_, err := s.bc.InsertChain(bl)
	if !o.Dup {
		prop := "V01"
		if len(o.B) == 1 {
			if _, known := s.conf[s.r[o.B[0]].p]; !known {
				prop = "F03"
			}
		}
		rep.Check((err == nil) == o.Ok, prop, "delivering root block(s) %v: error %v, specification says accepted=%v", o.B, err, o.Ok)
	}
	for i, t := range o.Taken {
		s.conf[t] = o.Conf[i]
		s.acc[t] = true
	}
	head := s.rid[s.bc.CurrentBlock().Hash()]
	rep.Check(head == o.Head, "F03", "after delivering %v the root head is %d, specification says %d", o.B, head, o.Head)
	for id, b := range s.r {
		has := s.bc.GetBlock(b.hash)
		rep.Check(!qkccom.IsNil(has) == s.acc[id] && s.bc.HasBlock(b.hash) == s.acc[id], "V01", "after delivering %v root block %d known=%v, specification says %v", o.B, id, has != nil, s.acc[id])
	}
	s.records(o)
}

// check reports a wrong record.
func (s *world) check(ok bool, prop, f string, a ...interface{}) bool {
	if s.prop != "" {
		return s.rep.Check(ok, s.prop, "%s%s", s.ctx, fmt.Sprintf(f, a...))
	}
	return s.rep.Check(ok, prop, f, a...)
}

// records compares everything recorded about the head's chain.
func (s *world) records(o op) {
	rep := s
	rep.check(rawdb.ReadHeadBlockHash(s.db) == s.r[o.Head].hash, "F03", "stored head marker is not the head")
	for id, b := range s.r {
		if c, known := s.conf[id]; known && s.acc[id] {
			m := s.bc.GetLatestMinorBlockHeaders(b.hash)
			n := 0
			for k, want := range c {
				got := 0
				if h := m[shardID(k+1)]; h != nil {
					got = s.mid[h.Hash()]
				}
				if want != 0 {
					n++
				}
				rep.check(got == want, "F03", "root block %d records header %d as last confirmed of shard %d, its ancestry confirms %d", id, got, k+1, want)
				lh := s.bc.GetLastConfirmedMinorBlockHeader(b.hash, shardID(k+1))
				rep.check((lh == nil) == (want == 0) && (lh == nil || s.mid[lh.Hash()] == want), "F03", "last confirmed header of shard %d at root block %d is wrong", k+1, id)
			}
			rep.check(len(m) == n, "F03", "root block %d records %d shards, its ancestry confirms %d", id, len(m), n)
		}
	}
	at := map[int]int{}
	for i := o.Head; i != 0; i = s.r[i].p {
		at[s.r[i].h] = i
	}
	cnt := map[string]uint32{}
	for h := 0; h <= 8; h++ {
		got := 0
		if b := s.bc.GetBlockByNumber(uint64(h)); !qkccom.IsNil(b) {
			got = s.rid[b.Hash()]
		}
		rep.check(got == at[h], "F03", "root block by height %d is %d, the head's (%d) ancestor there is %d", h, got, o.Head, at[h])
		got = 0
		if b := s.bc.GetHeaderByNumber(uint64(h)); !qkccom.IsNil(b) {
			got = s.rid[b.Hash()]
		}
		rep.check(got == at[h], "F03", "root header by height %d is %d, want %d", h, got, at[h])
		if at[h] != 0 && h > 0 {
			for _, m := range s.r[at[h]].l {
				cnt[fmt.Sprint(s.m[m].s, "/", s.m[m].who)]++
				id := encoder.IDEncoder(s.m[m].h.Hash().Bytes(), shardID(s.m[m].s))
				rep.check(s.rid[s.bc.GetRootBlockConfirmingMinorBlock(id)] == at[h], "F03", "shard header %d is recorded as confirmed by root block %d, the head's chain confirms it in %d", m, s.rid[s.bc.GetRootBlockConfirmingMinorBlock(id)], at[h])
			}
			c, err := s.bc.GetBlockCount(uint32(h))
			rep.check(err == nil, "F03", "GetBlockCount(%d): %v", h, err)
			for k := 1; k <= 3; k++ {
				for who := 1; who <= 2; who++ {
					want := cnt[fmt.Sprint(k, "/", who)]
					if k == 3 && h <= 1 {
						want = 0
					}
					rep.check(c[shardID(k)][w.K(who).Rec] == want, "F03", "miner %d is credited %d blocks of shard %d at root height %d, the head's chain has %d", who, c[shardID(k)][w.K(who).Rec], k, h, want)
				}
			}
		}
	}
}
