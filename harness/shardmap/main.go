// Driver for ShardMap.tla: which shard an address belongs to (A01).
package main

import (
	"encoding/json"
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/w"
	"github.com/ethereum/go-ethereum/common"
)

type key struct{ C, L uint32 }
type op struct {
	Op       string
	Sizes    []uint32
	Total    int
	K1, K2   key
	B        []uint32
	H1, H2   []int64
	In1, In2 bool
	Same     bool
	Re       key
	X, Y     []uint32
	N        uint32
	Nb       bool
}

func pack(k key) uint32 { return k.C<<16 | k.L }

func run(raw json.RawMessage, rep *w.Rep) {
	rep.Prop = "A01"
	var ops []op
	if err := json.Unmarshal(raw, &ops); err != nil {
		rep.Err("%v", err)
		return
	}
	qc := config.NewQuarkChainConfig()
	size := ops[0].Sizes
	shards := map[uint32]*config.ShardConfig{}
	qc.ChainSize = uint32(len(size))
	for c, n := range size {
		cc := config.NewChainConfig()
		cc.ChainID, cc.ShardSize = uint32(c), n
		cc.ConsensusType, cc.ConsensusConfig, cc.Genesis = config.PoWSimulate, config.NewPOWConfig(), nil
		for s := uint32(0); s < n; s++ {
			sc := config.NewShardConfig(cc)
			sc.ShardID = s
			shards[sc.GetFullShardId()] = sc
		}
	}
	rep.Check(len(shards) == ops[0].Total, "A01", "%d distinct shard ids for %d shards", len(shards), ops[0].Total)
	qc.SetShardsAndValidate(shards)
	id := func(c, s uint32) uint32 { // the configured shard with these coordinates
		for i, sc := range shards {
			if sc.ChainID == c && sc.ShardID == s {
				return i
			}
		}
		panic("no such shard")
	}
	rcp := account.BytesToIdentityRecipient([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20})
	home := func(k key, h []int64, n string) uint32 {
		got, err := qc.GetFullShardIdByFullShardKey(pack(k))
		if h[0] < 0 {
			rep.Check(err != nil, "A01", "key %v of an unknown chain is assigned shard %#x", k, got)
			return 0
		}
		want := id(uint32(h[0]), uint32(h[1]))
		rep.Check(err == nil && got == want, "A01", "lookup of %s %v is %#x (%v), want %#x", n, k, got, err, want)
		a := account.NewAddress(rcp, pack(k))
		sz, err := qc.GetShardSizeByChainId(k.C)
		rep.Check(err == nil && sz == size[k.C], "A01", "chain %d has %d shards, want %d", k.C, sz, size[k.C])
		g, err := a.GetFullShardID(sz)
		rep.Check(err == nil && g == want, "A01", "address %v is in %#x (%v), want %#x", k, g, err, want)
		rep.Check(a.GetChainID() == k.C, "A01", "address %v has chain %d", k, a.GetChainID())
		// exactly one configured shard contains it
		in := 0
		for i := range shards {
			br := account.NewBranch(i)
			if br.IsInBranch(pack(k)) {
				in++
				rep.Check(i == want, "A01", "key %v is in branch %#x, want only %#x", k, i, want)
			}
		}
		rep.Check(in == 1, "A01", "key %v is in %d branches", k, in)
		return want
	}
	for n, o := range ops[1:] {
		rep.Step = n + 1
		rep.Op("query")
		h1, h2 := home(o.K1, o.H1, "key"), home(o.K2, o.H2, "second key")
		bid := id(o.B[0], o.B[1])
		br := account.NewBranch(bid)
		rep.Check(br.GetChainID() == o.B[0] && br.GetShardID() == o.B[1] && br.GetShardSize() == size[o.B[0]] && br.GetFullShardID() == bid, "A01",
			"branch %#x is chain %d shard %d of %d, want %v", bid, br.GetChainID(), br.GetShardID(), br.GetShardSize(), o.B)
		mk, err := account.CreatBranch(o.B[0], size[o.B[0]], o.B[1])
		rep.Check(err == nil && mk == br, "A01", "branch built from %v is %#x (%v), want %#x", o.B, mk.Value, err, bid)
		rep.Check(br.IsInBranch(pack(o.K1)) == o.In1, "A01", "key %v in branch %v: %v, want %v", o.K1, o.B, !o.In1, o.In1)
		rep.Check(br.IsInBranch(pack(o.K2)) == o.In2, "A01", "key %v in branch %v: %v, want %v", o.K2, o.B, !o.In2, o.In2)
		rep.Check(qc.IsSameFullShard(pack(o.K1), pack(o.K2)) == o.Same, "A01", "keys %v and %v in one shard: %v, want %v", o.K1, o.K2, !o.Same, o.Same)
		a := account.NewAddress(rcp, pack(o.K1))
		re := a.AddressInBranch(br)
		rep.Check(re.Recipient == rcp && re.FullShardKey == pack(o.Re), "A01", "address %v re-homed into %v is %#x, want %v", o.K1, o.B, re.FullShardKey, o.Re)
		rep.Check(br.IsInBranch(re.FullShardKey), "A01", "address %v re-homed into %v is not in it", o.K1, o.B)
		back, err := account.CreatAddressFromBytes(a.ToBytes())
		rep.Check(err == nil && back == a, "A01", "address %v reads back as %v (%v)", a, back, err)
		js, err := json.Marshal(a)
		var ja account.Address
		rep.Check(err == nil && json.Unmarshal(js, &ja) == nil && ja == a, "A01", "address %v reads back from JSON as %v", a, ja)
		if o.H1[0] >= 0 && o.H2[0] >= 0 {
			var tx *types.EvmTransaction
			if n%2 == 0 {
				tx = types.NewEvmTransaction(0, rcp, new(big.Int), 1, new(big.Int), pack(o.K1), pack(o.K2), 3, 0, nil, 1, 1)
			} else {
				tx = types.NewEvmContractCreation(0, new(big.Int), 1, new(big.Int), pack(o.K1), pack(o.K2), 3, 0, nil, 1, 1)
			}
			e1, e2 := tx.SetFromShardSize(size[o.K1.C]), tx.SetToShardSize(size[o.K2.C])
			rep.Check(e1 == nil && e2 == nil, "A01", "shard sizes refused: %v %v", e1, e2)
			rep.Check(tx.FromFullShardId() == h1 && tx.ToFullShardId() == h2, "A01", "transaction %v to %v goes from %#x to %#x, want %#x to %#x", o.K1, o.K2, tx.FromFullShardId(), tx.ToFullShardId(), h1, h2)
			rep.Check(tx.IsCrossShard() == !o.Same, "A01", "transaction %v to %v crosses shards: %v, want %v", o.K1, o.K2, tx.IsCrossShard(), !o.Same)
			rep.Check(tx.FromChainID() == o.K1.C && tx.ToChainID() == o.K2.C && tx.FromShardKey() == o.K1.L && tx.ToShardKey() == o.K2.L, "A01", "transaction %v to %v has other parts", o.K1, o.K2)
		}
		x, y := account.NewBranch(id(o.X[0], o.X[1])), account.NewBranch(id(o.Y[0], o.Y[1]))
		rep.Check(account.IsNeighbor(x, y, o.N) == o.Nb, "A01", "shards %v and %v neighbours among %d: %v, want %v", o.X, o.Y, o.N, !o.Nb, o.Nb)
		rep.Check(account.IsNeighbor(y, x, o.N) == o.Nb, "A01", "neighbour relation of %v and %v among %d is not symmetric", o.X, o.Y, o.N)
		if rep.Bad() {
			return
		}
	}
	for _, bad := range []uint32{3, 5, 6, 7, 12, 100} {
		_, err := account.CreatBranch(0, bad, 0)
		rep.Check(err != nil, "A01", "a branch of %d shards is accepted", bad)
	}
	_ = common.Hash{}
}

func main() { w.Main(run) }
