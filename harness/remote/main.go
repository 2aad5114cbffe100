// Driver for RemoteWork: histories of work issue, fetch, tip change and
// submission on the real remote sealer behind the real miner.
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"math/big"
	"sort"
	"sync"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/miner"
	"github.com/QuarkChain/goquarkchain/cluster/service"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/consensus/doublesha256"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/w"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

const P = "G01"

type blk struct {
	Id  int    `json:"id"`
	A   string `json:"a"`
	N   uint64 `json:"n"`
	D   int64  `json:"d"`
	Adj int64  `json:"adj"`
	Div uint64 `json:"div"`
}
type op struct {
	Op    string          `json:"op"`
	Root  bool            `json:"root"`
	B     blk             `json:"b"`
	A     string          `json:"a"`
	Want  json.RawMessage `json:"want"`
	Made  bool            `json:"made"`
	Id    int             `json:"id"`
	Level int64           `json:"level"`
	Sig   string          `json:"sig"`
	Ok    bool            `json:"ok"`
	Cur   map[string]int  `json:"cur"`
}

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

type node struct {
	mu      sync.Mutex
	rep     *w.Rep
	root    bool
	tip     uint64
	syncing bool
	plan    blk // what the chain would create next
	specs   map[int]blk
	blocks  map[int]types.IBlock
	got     []types.IBlock
	taken   []int
	eng     consensus.Engine
	m       *miner.Miner
	own     chan types.IBlock
	uniq    uint64
}

func addr(a string) account.Address {
	return w.K(1 + int(a[0]-'a')).Addr(uint32(a[0]-'a') << 16)
}

func (n *node) block(b blk) types.IBlock {
	if x, ok := n.blocks[b.Id]; ok && n.specs[b.Id] == b { // a planned block that was never made leaves its id
		return x
	}
	var x types.IBlock
	amt := types.NewTokenBalancesWithMap(map[uint64]*big.Int{w.QKC: big.NewInt(int64(b.Id))})
	if n.root {
		h := &types.RootBlockHeader{Number: uint32(b.N), Difficulty: big.NewInt(b.D), Coinbase: addr(b.A), Time: 1000 + uint64(b.Id), CoinbaseAmount: amt,
			ToTalDifficulty: big.NewInt(77), Extra: []byte{1, 2}}
		x = types.NewRootBlock(h, types.MinorBlockHeaders{&types.MinorBlockHeader{Number: 5, Difficulty: big.NewInt(3), CoinbaseAmount: amt}}, nil)
	} else {
		h := &types.MinorBlockHeader{Number: b.N, Difficulty: big.NewInt(b.D), Coinbase: addr(b.A), Time: 1000 + uint64(b.Id), CoinbaseAmount: amt, Extra: []byte{1, 2}}
		x = types.NewMinorBlockWithHeader(h, &types.MinorBlockMeta{})
	}
	n.blocks[b.Id], n.specs[b.Id] = x, b
	return x
}

func (n *node) GetDefaultCoinbaseAddress() account.Address { return addr("a") }
func (n *node) CreateBlockToMine(a *account.Address) (types.IBlock, *big.Int, uint64, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.block(n.plan), big.NewInt(n.plan.Adj), n.plan.Div, nil
}
func (n *node) InsertMinedBlock(b types.IBlock) error {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.got = append(n.got, b)
	return nil
}
func (n *node) IsSyncing() bool { n.mu.Lock(); defer n.mu.Unlock(); return n.syncing }
func (n *node) GetTip() uint64  { n.mu.Lock(); defer n.mu.Unlock(); return n.tip }

func (n *node) collect() {
	for {
		select {
		case b := <-n.own:
			n.mu.Lock()
			n.got = append(n.got, b)
			n.mu.Unlock()
		default:
			return
		}
	}
}

func until(f func() bool) bool {
	end := time.Now().Add(20 * time.Second)
	for i := 0; !f(); i++ {
		if time.Now().After(end) {
			return f()
		}
		if i > 20 {
			time.Sleep(time.Millisecond)
		} else {
			time.Sleep(20 * time.Microsecond)
		}
	}
	return true
}

func (n *node) same(wk *consensus.MiningWork, id int) bool {
	b := n.specs[id]
	return wk != nil && wk.HeaderHash == n.blocks[id].IHeader().SealHash() && wk.Number == b.N && wk.Difficulty != nil && wk.Difficulty.Cmp(big.NewInt(b.Adj)) == 0 && wk.OptionalDivider == b.Div
}

// expectWork checks that the engine hands out exactly work id for an address (0: none).
func (n *node) expectWork(a string, id int, when string) bool {
	if id == 0 {
		wk, err := n.eng.GetWork(addr(a))
		return n.rep.Check(err == consensus.ErrNoMiningWork, P, "%s: work %v handed out for %s although there is none (%v)", when, wk, a, err)
	}
	wk, err := n.eng.GetWork(addr(a))
	return n.rep.Check(err == nil && n.same(wk, id), P, "%s: work for %s is %+v (%v), expected block %d at height %d with difficulty %d/%d", when, a, wk, err, id, n.specs[id].N, n.specs[id].Adj, n.specs[id].Div)
}

// reaches waits for work that is issued in the background.
func (n *node) reaches(a string, id int, when string) bool {
	ok := until(func() bool { wk, err := n.eng.GetWork(addr(a)); return err == nil && n.same(wk, id) })
	return n.rep.Check(ok, P, "%s: work of block %d is not handed out for %s", when, id, a)
}

func quality(seal common.Hash, nonce uint64) *big.Int {
	var x [40]byte
	copy(x[:], seal[:])
	binary.BigEndian.PutUint64(x[32:], nonce)
	a := sha256.Sum256(x[:])
	b := sha256.Sum256(a[:])
	return new(big.Int).SetBytes(b[:])
}
func target(d int64) *big.Int {
	if d < 1 {
		d = 1
	}
	return new(big.Int).Div(two256, big.NewInt(d))
}

// solve finds a nonce that reaches difficulty level but none of the larger thresholds of the work.
func solve(b blk, seal common.Hash, level int64, from uint64) (uint64, bool) {
	l := []int64{b.D / 1000, b.D / int64(b.Div), b.Adj, b.D}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	hi, lo := two256, big.NewInt(-1)
	if level > 0 {
		hi = target(level)
	}
	for _, d := range l {
		if d > level {
			lo = target(d)
			break
		}
	}
	for k := from; k < from+3000000; k++ {
		q := quality(seal, k)
		if q.Cmp(hi) <= 0 && q.Cmp(lo) > 0 {
			return k, true
		}
	}
	return 0, false
}

func sign(seal common.Hash, by string) *[65]byte {
	k := w.K(40)
	switch by {
	case "none":
		return nil
	case "other":
		k = w.K(41)
	}
	x, err := crypto.Sign(seal[:], k.Priv)
	if err != nil {
		panic(err)
	}
	var r [65]byte
	copy(r[:], x)
	return &r
}

// sealed is the block completed with a solution, built independently.
func (n *node) sealed(id int, nonce uint64, mix common.Hash, sig *[65]byte) common.Hash {
	if n.root {
		h := *n.blocks[id].(*types.RootBlock).Header()
		h.Nonce, h.MixDigest = nonce, mix
		if sig != nil {
			copy(h.Signature[:], sig[:])
		}
		return types.NewRootBlockWithHeader(&h).Hash()
	}
	h := *n.blocks[id].(*types.MinorBlock).Header()
	h.Nonce, h.MixDigest = nonce, mix
	return types.NewMinorBlockWithHeader(&h, &types.MinorBlockMeta{}).Hash()
}

func replay(raw json.RawMessage, rep *w.Rep) {
	var ops []op
	if err := json.Unmarshal(raw, &ops); err != nil {
		rep.Err("trace: %v", err)
		return
	}
	ctx := &service.ServiceContext{}
	ctx.SetTimestamp(time.Now())
	n := &node{rep: rep, root: ops[0].Root, tip: 10, specs: map[int]blk{}, blocks: map[int]types.IBlock{}, own: make(chan types.IBlock, 200)}
	n.eng = doublesha256.New(&consensus.EthDifficultyCalculator{AdjustmentCutoff: 7, AdjustmentFactor: 512, MinimumDifficulty: big.NewInt(10)}, true,
		crypto.FromECDSAPub(&w.K(40).Priv.PublicKey))
	n.m = miner.New(ctx, n, n.eng)
	defer n.m.Stop()
	plan := func(o op) {
		n.mu.Lock()
		defer n.mu.Unlock()
		n.plan = o.B
		n.block(o.B)
	}
	delivered := 0
	var nonces uint64
	for i, o := range ops {
		rep.Step = i
		rep.Op(o.Op)
		switch o.Op {
		case "start":
		case "on":
			plan(o)
			n.m.SetMining(true)
			if o.Made && !n.reaches("a", o.B.Id, "mining started") {
				return
			}
		case "off":
			n.m.SetMining(false)
			if n.IsSyncing() {
				time.Sleep(700 * time.Millisecond) // let a pending round of the miner pass
			}
		case "tip":
			plan(o)
			n.mu.Lock()
			n.tip++
			n.mu.Unlock()
			n.m.HandleNewTip()
			if o.Made && !n.reaches("a", o.B.Id, "after a new tip") {
				return
			}
		case "syncon", "syncoff":
			if o.Op == "syncoff" {
				plan(o)
			}
			n.mu.Lock()
			n.syncing = o.Op == "syncon"
			n.mu.Unlock()
			if o.Made && !n.reaches("a", o.B.Id, "after synchronising") {
				return
			}
		case "issue":
			n.mu.Lock()
			b := n.block(o.B)
			n.mu.Unlock()
			if err := n.eng.Seal(nil, b, big.NewInt(o.B.Adj), o.B.Div, n.own, nil); err != nil {
				rep.Check(false, P, "issuing work failed: %v", err)
				return
			}
			if !n.expectWork(o.B.A, o.B.Id, "after issuing it") {
				return
			}
		case "fetch":
			var id int
			json.Unmarshal(o.Want, &id)
			if !n.expectWork(o.A, id, "fetch") {
				return
			}
		case "get":
			var id int
			json.Unmarshal(o.Want, &id)
			if id == o.B.Id {
				plan(o)
			}
			a := addr(o.B.A)
			wk, err := n.m.GetWork(&a)
			if !rep.Check(err == nil && n.same(wk, id), P, "the miner asked for work of %s and got %+v (%v), expected block %d", o.B.A, wk, err, id) || !n.reaches(o.B.A, id, "after a request") {
				return
			}
		case "submit":
			seal := n.blocks[o.Id].IHeader().SealHash()
			nonce, ok := solve(n.specs[o.Id], seal, o.Level, nonces*1000000007)
			nonces++
			if !ok {
				rep.Op("unsolved")
				if o.Ok { // keep in step: any nonce that is good enough
					nonce, _ = solve(blk{D: o.Level, Adj: o.Level, Div: 1}, seal, o.Level, 0)
				} else {
					continue
				}
			}
			sig := sign(seal, o.Sig)
			mix := common.BytesToHash([]byte{byte(i), 9})
			acc := n.m.SubmitWork(nonce, seal, mix, sig)
			if !rep.Check(acc == o.Ok, P, "solution of block %d (%+v) reaching difficulty %d with signature %q: accepted = %v, expected %v; current work %v", o.Id, n.specs[o.Id], o.Level, o.Sig, acc, o.Ok, o.Cur) {
				return
			}
			if o.Ok {
				delivered++
				ok := until(func() bool { n.collect(); n.mu.Lock(); defer n.mu.Unlock(); return len(n.got) >= delivered })
				if !rep.Check(ok, P, "an accepted solution of block %d was not delivered", o.Id) {
					return
				}
				n.mu.Lock()
				g := n.got[delivered-1]
				n.mu.Unlock()
				if !rep.Check(g.Hash() == n.sealed(o.Id, nonce, mix, sig) && g.IHeader().SealHash() == seal && g.NumberU64() == n.specs[o.Id].N, P, "the delivered block is not block %d completed with its solution", o.Id) {
					return
				}
				if r, is := g.(*types.RootBlock); is && !rep.Check(len(r.MinorBlockHeaders()) == 1, P, "the delivered root block lost its content") {
					return
				}
			}
			for a, id := range o.Cur {
				if !n.expectWork(a, id, "after a submission") {
					return
				}
			}
			if unknown := crypto.Keccak256Hash(seal[:]); !rep.Check(!n.m.SubmitWork(nonce, unknown, mix, sig), P, "a solution of unknown work was accepted") {
				return
			}
		case "take":
			n.collect()
			n.mu.Lock()
			c := len(n.got)
			n.mu.Unlock()
			if !rep.Check(c == delivered, P, "%d blocks were delivered for %d accepted solutions", c, delivered) {
				return
			}
		}
	}
	n.collect()
	rep.Check(len(n.got) == delivered, P, "%d blocks were delivered for %d accepted solutions", len(n.got), delivered)
}

func main() { w.Main(replay) }
