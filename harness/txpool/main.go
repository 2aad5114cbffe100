// txpool replays behaviours of spec/TxPool.tla on two transaction pools over one
// real core.MinorBlockChain (the chain's own and a separate one) and compares
// what they hold, offer, answer and announce.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"sync"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	qcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/w"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
)

type view struct {
	Pool  []int   `json:"pool"`
	Exec  [][]int `json:"exec"`
	Mined [][]int `json:"mined"`
	Next  []int   `json:"next"`
}
type outcome struct {
	Ok   []int `json:"ok"`
	View view  `json:"view"`
}
type op struct {
	Op   string    `json:"op"`
	ID   int       `json:"id"`
	P    int       `json:"p"`
	R    int       `json:"r"`
	D    int64     `json:"d"`
	L    []int     `json:"l"`
	Tx   []int     `json:"tx"`
	A    int       `json:"a"`
	N    uint64    `json:"n"`
	Pr   int64     `json:"pr"`
	G    uint64    `json:"g"`
	V    int64     `json:"v"`
	Tok  int       `json:"tok"`
	S    []int     `json:"s"`
	Loc  bool      `json:"loc"`
	Res  []string  `json:"res"`
	Tip  int       `json:"tip"`
	More bool      `json:"more"`
	View view      `json:"view"`
	Outs []outcome `json:"outs"`
}

const (
	fund0, fund1 = 3000000, 1000
	minPrice     = 5
	accts        = 2
	marker       = 9 // the account whose nonce tells at which block the pool stands
)

var (
	sid  = w.ShardID(0, 1, 0)
	tok1 = qcom.TokenIDEncode("QI")
	rich = int64(1000000000)
)

type pool interface {
	content() (map[common.Address]types.Transactions, map[common.Address]types.Transactions)
	add(txs []*types.Transaction, local bool) []error
	nonce(a common.Address) uint64
}
type ownPool struct{ p *core.TxPool }

func (o ownPool) content() (map[common.Address]types.Transactions, map[common.Address]types.Transactions) {
	return o.p.Content()
}
func (o ownPool) add(txs []*types.Transaction, local bool) []error {
	if local {
		if len(txs) == 1 {
			return []error{o.p.AddLocal(txs[0])}
		}
		return o.p.AddLocals(txs)
	}
	return o.p.AddRemotesSync(txs)
}
func (o ownPool) nonce(a common.Address) uint64 { return o.p.Nonce(a) }

type world struct {
	rep     *w.Rep
	factory *core.MinorBlockChain
	node    *core.MinorBlockChain
	own     ownPool
	m       map[int]*types.MinorBlock
	r       map[int]*types.RootBlock
	hash    map[common.Hash]int
	tx      map[int]*types.Transaction
	txOf    map[common.Hash]int
	pend    []types.IBlock
	evs     chan core.NewTxsEvent
	said    map[int]bool
	built   int
	tried   map[common.Hash]bool
}

func main() { w.Main(replay) }

func replay(raw json.RawMessage, rep *w.Rep) {
	rep.Prop = "T01"
	var ops []op
	if err := json.Unmarshal(raw, &ops); err != nil {
		rep.Err("bad trace: %v", err)
		return
	}
	alloc := map[account.Recipient]map[string]int64{w.K(marker).Rec: {"QKC": rich}}
	for a := 1; a <= accts; a++ {
		alloc[w.K(a).Rec] = map[string]int64{"QKC": fund0, "QI": fund1}
	}
	cfg := w.NewCfg(w.Opts{Chains: 1, Shards: 1, Alloc: map[uint32]map[account.Recipient]map[string]int64{sid: alloc},
		Tweak: func(c *config.ClusterConfig) { c.Quarkchain.MinTXPoolGasPrice = big.NewInt(minPrice) }})
	s := &world{rep: rep, m: map[int]*types.MinorBlock{}, r: map[int]*types.RootBlock{}, hash: map[common.Hash]int{}, tx: map[int]*types.Transaction{}, txOf: map[common.Hash]int{},
		evs: make(chan core.NewTxsEvent, 4096), said: map[int]bool{}, tried: map[common.Hash]bool{}}
	var rg *types.RootBlock
	s.factory, rg = w.NewShard(cfg, ethdb.NewMemDatabase(), sid, nil)
	s.node, _ = w.NewShard(cfg, ethdb.NewMemDatabase(), sid, nil)
	s.own = ownPool{core.NewTxPool(core.DefaultTxPoolConfig, s.node)}
	sub := s.own.p.SubscribeNewTxsEvent(s.evs)
	defer sub.Unsubscribe()
	g := s.factory.CurrentBlock()
	s.m[1], s.r[1], s.hash[g.Hash()] = g, rg, 1
	for i, o := range ops {
		rep.Step = i
		rep.Op(o.Op)
		if !s.step(o) || rep.Bad() {
			break
		}
	}
	w.StopAll(s.node, s.factory)
}

func (s *world) step(o op) bool {
	switch o.Op {
	case "T":
		to := w.K(20 + o.ID).Rec
		tok := w.QKC
		if o.Tok == 1 {
			tok = tok1
		}
		t := w.Tx(w.K(o.A), o.N, &to, o.V, o.G, o.Pr, sid, sid, nil, w.QKC, tok)
		s.tx[o.ID] = t
		s.txOf[t.Hash()] = o.ID
	case "M":
		return s.makeMinor(o)
	case "R":
		return s.makeRoot(o)
	case "add":
		s.add(o)
	case "dm":
		s.pend = append(s.pend, s.copyOf(o.ID))
		if o.More {
			return true
		}
		s.insert()
		s.settled(o)
	case "dr":
		if _, err := s.node.AddRootBlock(w.DecRoot(w.EncRoot(s.r[o.ID]))); err != nil {
			s.rep.V("F01", "root block %d refused: %v", o.ID, err)
			return false
		}
		s.settled(o)
	case "race":
		s.race(o)
	default:
		s.rep.Err("unknown op %q", o.Op)
		return false
	}
	return true
}

func (s *world) copyOf(id int) *types.MinorBlock { return w.DecMinor(w.EncMinor(s.m[id])) }

func (s *world) insert() {
	bs := s.pend
	s.pend = nil
	if _, err := s.node.InsertChain(bs, false); err != nil {
		s.rep.V("F01", "shard blocks refused: %v", err)
	}
}

func (s *world) makeMinor(o op) bool {
	parent := s.copyOf(o.P)
	rh := s.r[o.R].Hash()
	t := parent.Time() + 1
	miner := w.K(50).Addr(sid)
	b := parent.CreateBlockToAppend(&t, nil, &miner, nil, nil, nil, []byte(fmt.Sprintf("m%d", o.ID)), nil, &rh)
	for n := o.P; n < o.ID; n++ { // after block id the marker's nonce is id-1
		to := w.K(marker).Rec
		b.AddTx(w.Tx(w.K(marker), uint64(n-1), &to, 0, 21000, 2, sid, sid, nil, w.QKC, w.QKC))
	}
	for _, x := range o.Tx {
		b.AddTx(s.tx[x])
	}
	fb, _, err := s.factory.FinalizeAndAddBlock(b)
	if err != nil {
		s.rep.V("V01", "a valid shard block (parent %d, transactions %v) was refused: %v", o.P, o.Tx, err)
		return false
	}
	s.m[o.ID] = w.DecMinor(w.EncMinor(fb))
	s.hash[fb.Hash()] = o.ID
	return true
}

func (s *world) makeRoot(o op) bool {
	var hs []*types.MinorBlockHeader
	for _, i := range o.L {
		hs = append(hs, s.copyOf(i).Header())
	}
	c := w.K(60).Addr(sid)
	b := w.NewRootBlock(w.DecRoot(w.EncRoot(s.r[o.P])), o.ID, o.D*1000, hs, &c, 0)
	s.r[o.ID] = w.DecRoot(w.EncRoot(b))
	if _, err := s.factory.AddRootBlock(w.DecRoot(w.EncRoot(b))); err != nil {
		s.rep.V("F01", "a valid root block (parent %d, confirming %v) was refused: %v", o.P, o.L, err)
		return false
	}
	return true
}

func (s *world) txs(ids []int) []*types.Transaction {
	var out []*types.Transaction
	for _, i := range ids { // as they would arrive: a copy of their own
		d, err := serialize.SerializeToBytes(s.tx[i])
		t := new(types.Transaction)
		if err == nil {
			err = serialize.DeserializeFromBytes(d, t)
		}
		if err != nil {
			panic(err)
		}
		out = append(out, t)
	}
	return out
}

func (s *world) add(o op) {
	check := func(name string, errs []error) {
		if !s.rep.Check(len(errs) == len(o.S), "T01", "%s: %d results for %d transactions", name, len(errs), len(o.S)) {
			return
		}
		for i, e := range errs {
			s.rep.Check((e == nil) == (o.Res[i] == "ok"), "T01", "%s: submitting transactions %v: result %d is %v, the specification answers %v", name, o.S, i, e, o.Res)
		}
	}
	check("pool", s.own.add(s.txs(o.S), o.Loc))
	if len(o.S) == 1 {
		check("shard", []error{s.node.AddTx(s.txs(o.S)[0])})
	} else {
		check("shard", s.node.AddTxList(s.txs(o.S)))
	}
	s.compare(fmt.Sprintf("after submitting %v", o.S), []outcome{{View: o.View}}, nil)
}

// settled waits until both pools stand at block tip: its marker nonce is unique.
func (s *world) settled(o op) {
	s.wait(o.Tip, fmt.Sprintf("after %s %d", o.Op, o.ID))
	if !s.rep.Bad() {
		s.compare(fmt.Sprintf("after %s %d", o.Op, o.ID), []outcome{{View: o.View}}, nil)
	}
}

func (s *world) wait(tip int, when string) {
	if got := s.hash[s.node.CurrentBlock().Hash()]; got != tip {
		s.rep.V("F01", "%s the head is block %d, specification says %d", when, got, tip)
		return
	}
	z := w.K(marker).Rec
	end := time.Now().Add(10 * time.Second)
	for {
		a := s.own.nonce(z)
		b, _ := s.node.GetPoolNonce(z)
		if a == uint64(tip-1) && b == uint64(tip-1) {
			return
		}
		if time.Now().After(end) {
			s.rep.V("T01", "%s the head is block %d, but the pools still stand at blocks %d and %d", when, tip, a+1, b+1)
			return
		}
		time.Sleep(200 * time.Microsecond)
	}
}

func ids(of map[common.Hash]int, txs types.Transactions) []int {
	out := []int{}
	for _, t := range txs {
		out = append(out, of[t.Hash()])
	}
	return out
}

func eq(a, b []int) bool { return fmt.Sprint(a) == fmt.Sprint(b) }
func sorted(a []int) []int {
	b := append([]int{}, a...)
	sort.Ints(b)
	return b
}

// differs says how the separate pool differs from view v ("" if it does not).
func (s *world) differs(v view) string {
	pend, que := s.own.p.Content()
	all := []int{}
	for a := 1; a <= accts; a++ {
		e := ids(s.txOf, pend[w.K(a).Rec])
		if !eq(e, v.Exec[a-1]) {
			return fmt.Sprintf("account %d's executable transactions are %v, specification says %v", a, e, v.Exec[a-1])
		}
		q := ids(s.txOf, que[w.K(a).Rec])
		all = append(append(all, e...), q...)
		if n := s.own.nonce(w.K(a).Rec); n != uint64(v.Next[a-1]) {
			return fmt.Sprintf("account %d's next nonce is %d, specification says %d", a, n, v.Next[a-1])
		}
	}
	if !eq(sorted(all), sorted(v.Pool)) {
		return fmt.Sprintf("executable and waiting transactions are %v, specification says %v", sorted(all), sorted(v.Pool))
	}
	if n := len(pend[w.K(marker).Rec]) + len(que[w.K(marker).Rec]); n != 0 {
		return fmt.Sprintf("%d transactions below the price limit came back", n)
	}
	if got := ids(s.txOf, s.own.p.GetAllTxInPool()); !eq(sorted(got), sorted(v.Pool)) {
		return fmt.Sprintf("the pool knows %v, specification says %v", sorted(got), sorted(v.Pool))
	}
	p, q := s.own.p.Stats()
	if p+q != len(v.Pool) || s.own.p.PendingCount() != len(v.Pool) {
		return fmt.Sprintf("the pool counts %d+%d (%d), specification says %d", p, q, s.own.p.PendingCount(), len(v.Pool))
	}
	return ""
}

// differsNode does the same for the pool inside the shard, seen through its interface.
func (s *world) differsNode(v view) string {
	got0 := []int{}
	for id, t := range s.tx {
		if b, _ := s.node.GetTransactionByHash(t.Hash()); b != nil && s.hash[b.Hash()] == 0 {
			got0 = append(got0, id)
		}
	}
	if got := sorted(got0); !eq(got, sorted(v.Pool)) {
		return fmt.Sprintf("the shard's pool holds %v, specification says %v", got, sorted(v.Pool))
	}
	for a := 1; a <= accts; a++ {
		if n, err := s.node.GetPoolNonce(w.K(a).Rec); err != nil || n != uint64(v.Next[a-1]) {
			return fmt.Sprintf("the shard's next nonce of account %d is %d (%v), specification says %d", a, n, err, v.Next[a-1])
		}
	}
	miner := w.K(51).Addr(sid)
	b, err := s.node.CreateBlockToMine(nil, &miner, nil, nil, nil)
	if err != nil {
		return fmt.Sprintf("no block to mine: %v", err)
	}
	got := make([][]int, accts)
	for _, t := range b.Transactions() {
		id := s.txOf[t.Hash()]
		from, _ := types.Sender(types.MakeSigner(3), t.EvmTx)
		for a := 1; a <= accts; a++ {
			if from == w.K(a).Rec {
				got[a-1] = append(got[a-1], id)
			}
		}
	}
	n := 0
	for a := 1; a <= accts; a++ {
		n += len(got[a-1])
		if !eq(append([]int{}, got[a-1]...), v.Mined[a-1]) {
			return fmt.Sprintf("a block built now holds account %d's transactions %v, specification says %v", a, got[a-1], v.Mined[a-1])
		}
	}
	if n != len(b.Transactions()) {
		return "a block built now holds transactions of nobody in the pool"
	}
	// what was built is a valid block
	if s.built++; s.tried[b.Hash()] {
	} else if s.built%6 == 0 || fmt.Sprint(v.Mined) != fmt.Sprint(v.Exec) {
		s.tried[b.Hash()] = true
		if _, err := s.factory.InsertChain([]types.IBlock{w.DecMinor(w.EncMinor(b))}, false); err != nil {
			return fmt.Sprintf("a block built now (transactions %v) is not valid: %v", got, err)
		}
	}
	return ""
}

func (s *world) compare(when string, outs []outcome, _ []int) {
	check := func(f func(view) string) {
		why := ""
		for _, o := range outs {
			if why = f(o.View); why == "" {
				return
			}
		}
		s.rep.V("T01", "%s: %s (%d outcomes possible)", when, why, len(outs))
	}
	check(s.differs)
	check(s.differsNode)
	if s.rep.Bad() {
		return
	}
	// whatever is executable has been announced
	end := time.Now().Add(10 * time.Second)
	pend, _ := s.own.p.Content()
	for a := 1; a <= accts; a++ {
		for _, t := range ids(s.txOf, pend[w.K(a).Rec]) {
			for !s.said[t] {
				select {
				case ev := <-s.evs:
					for _, x := range ev.Txs {
						s.said[s.txOf[x.Hash()]] = true
					}
				case <-time.After(time.Until(end)):
					s.rep.V("T01", "%s: transaction %d became executable but was never announced", when, t)
					return
				}
			}
		}
	}
}

func (s *world) race(o op) {
	var wg sync.WaitGroup
	okOwn, okNode := make([]bool, len(o.S)), make([]bool, len(o.S))
	start := make(chan struct{})
	for i := range o.S {
		i := i
		wg.Add(2)
		a, b := s.txs(o.S[i : i+1])[0], s.txs(o.S[i : i+1])[0]
		go func() { defer wg.Done(); <-start; okOwn[i] = s.own.p.AddLocal(a) == nil }()
		go func() { defer wg.Done(); <-start; okNode[i] = s.node.AddTx(b) == nil }()
	}
	s.pend = append(s.pend, s.copyOf(o.ID))
	close(start)
	s.insert()
	wg.Wait()
	when := fmt.Sprintf("after %v raced with block %d", o.S, o.ID)
	s.wait(o.Tip, when)
	if s.rep.Bad() {
		return
	}
	pick := func(name string, ok []bool, f func(view) string) {
		got := []int{}
		for i, x := range o.S {
			if ok[i] {
				got = append(got, x)
			}
		}
		why := "the results fit no order"
		for _, x := range o.Outs {
			if !eq(sorted(x.Ok), sorted(got)) {
				continue
			}
			if why = f(x.View); why == "" {
				return
			}
		}
		s.rep.V("T01", "%s: %s: accepted %v, %s (%d outcomes possible)", when, name, got, why, len(o.Outs))
	}
	pick("pool", okOwn, s.differs)
	pick("shard", okNode, s.differsNode)
}
