// shardchain replays behaviours of spec/ShardChain.tla on a real
// core.MinorBlockChain and compares heads, indexes, state and history pages.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/rawdb"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/w"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
)

type op struct {
	Op   string `json:"op"`
	ID   int    `json:"id"`
	P    int    `json:"p"`
	R    int    `json:"r"`
	D    int64  `json:"d"`
	L    []int  `json:"l"`
	Tx   []int  `json:"tx"`
	Ok   bool   `json:"ok"`
	Dup  bool   `json:"dup"`
	Tip  int    `json:"tip"`
	Rtip int    `json:"rtip"`
	Kid  int    `json:"kid"`
	Dev  *w.Dev `json:"dev"`
	// crash
	At    int  `json:"at"`
	Ini   int  `json:"ini"`
	Conf  int  `json:"conf"`
	Arch  bool `json:"arch"`
	Again bool `json:"again"`
	Re    bool `json:"re"`
	N     int  `json:"n"`
}

type mblk struct {
	p, r, h int
	enc     []byte
	hash    common.Hash
	root    common.Hash
	txs     []common.Hash
	nonce   int // transactions up to and including this block
	variant []int
}
type rblk struct {
	p, h, conf int
	enc        []byte
	hash       common.Hash
}

const funds = 1000000000

var sid = w.ShardID(0, 1, 0)

func newCfg() *config.ClusterConfig {
	return w.NewCfg(w.Opts{Chains: 2, Shards: 1, Alloc: map[uint32]map[account.Recipient]map[string]int64{
		sid: {w.K(0).Rec: {"QKC": funds}}}})
}

type world struct {
	cfg     *config.ClusterConfig
	factory *core.MinorBlockChain
	node    *core.MinorBlockChain
	db      ethdb.Database
	m       map[int]*mblk
	r       map[int]*rblk
	byHash  map[common.Hash]int
	rByHash map[common.Hash]int
	txs     []txInfo
	rep     *w.Rep
	maxH    int
	order   map[string]int // creation order
	ext     []int          // blocks added at the end of a crash trace
	prop    string         // report index disagreements under this property
	ctx     string
	tried   map[int]bool // blocks a damaged version of which was delivered
}
type txInfo struct {
	hash common.Hash
}

func (s *world) chain(i int) []int { // head first
	var c []int
	for i != 0 {
		c = append(c, i)
		i = s.m[i].p
	}
	return c
}

func main() { w.Main(replay) }

func replay(raw json.RawMessage, rep *w.Rep) {
	var ops []op
	if err := json.Unmarshal(raw, &ops); err != nil {
		rep.Err("bad trace: %v", err)
		return
	}
	s := &world{cfg: newCfg(), m: map[int]*mblk{}, r: map[int]*rblk{}, byHash: map[common.Hash]int{}, rByHash: map[common.Hash]int{}, rep: rep, tried: map[int]bool{}, order: map[string]int{}}
	var rg *types.RootBlock
	var eng consensus.Engine
	for _, o := range ops {
		if o.Dev != nil && len(ops)%2 == 0 { // otherwise the chain's own rules must do
			eng = w.RulesEngine()
			break
		}
	}
	s.factory, rg = w.NewShard(s.cfg, ethdb.NewMemDatabase(), sid, eng)
	s.db = ethdb.NewMemDatabase()
	s.node, _ = w.NewShard(s.cfg, s.db, sid, eng)
	g := s.factory.CurrentBlock()
	s.m[1] = &mblk{r: 1, enc: w.EncMinor(g), hash: g.Hash(), root: g.Root()}
	s.r[1] = &rblk{enc: w.EncRoot(rg), hash: rg.Hash()}
	s.byHash[g.Hash()] = 1
	s.rByHash[rg.Hash()] = 1
	s.run(ops)
	w.StopAll(s.node, s.factory)
}

func (s *world) run(ops []op) {
	rep := s.rep
	last := ops[len(ops)-1]
	for i, o := range ops {
		rep.Step = i
		if last.Op == "crash" && (o.Op == "dm" || o.Op == "dr") {
			continue // replayed by crash
		}
		if o.Op == "M" || o.Op == "R" {
			s.order[map[string]string{"M": "m", "R": "r"}[o.Op]+fmt.Sprint(o.ID)] = i + 2
		}
		rep.Op(o.Op)
		switch o.Op {
		case "M":
			if !s.makeMinor(o) {
				return
			}
		case "R":
			if !s.makeRoot(o) {
				return
			}
		case "dm", "dr":
			s.deliver(o)
			if rep.Bad() {
				return
			}
		case "crash":
			if s.extend(o) {
				s.crash(ops, o)
			}
		case "dx", "db":
			o := o
			rep.Guard("V02", func() { s.damaged(o) })
			if rep.Bad() {
				return
			}
		default:
			rep.Err("unknown op %s", o.Op)
			return
		}
	}
}

// fresh is block o.ID before it is executed
func (s *world) fresh(b *mblk, id int) *types.MinorBlock {
	parent := w.DecMinor(s.m[b.p].enc)
	rh := s.r[b.r].hash
	t := parent.Time() + 1
	miner := w.K(50).Addr(sid)
	x := parent.CreateBlockToAppend(&t, nil, &miner, nil, nil, nil, []byte(fmt.Sprintf("m%d", id)), nil, &rh)
	for i, v := range b.variant {
		x.AddTx(s.tx(v, s.m[b.p].nonce+i))
	}
	return x
}

func (s *world) tx(v, n int) *types.Transaction {
	to := w.K(v).Rec
	return w.Tx(w.K(0), uint64(n), &to, int64(100*v+n), 21000, 1, sid, sid, nil, w.QKC, w.QKC)
}

// snapshot is everything a refused block must leave alone.
func (s *world) snapshot(bad common.Hash) string {
	n := s.node
	out := fmt.Sprintf("head %d root tip %d", s.byHash[n.CurrentBlock().Hash()], s.rByHash[n.GetRootTip().Hash()])
	out += fmt.Sprintf(" stored head %d", s.byHash[rawdb.ReadHeadBlockHash(s.db)])
	for h := 0; h <= s.maxH+3; h++ {
		id := 0
		if b, is := n.GetBlockByNumber(uint64(h)).(*types.MinorBlock); is && b != nil {
			if id = s.byHash[b.Hash()]; id == 0 {
				id = -1
			}
		}
		out += fmt.Sprintf(" %d:%d", h, id)
	}
	for i, t := range s.txs {
		b, idx := n.GetTransactionByHash(t.hash)
		id := 0
		if b != nil {
			if id = s.byHash[b.Hash()]; id == 0 && b.Hash() == bad { // otherwise the transaction waits in the pool
				id = -1
			}
		}
		out += fmt.Sprintf(" tx%d@%d/%d", i, id, idx)
	}
	st, err := n.State()
	if err != nil {
		return out + " no state"
	}
	out += fmt.Sprintf(" nonce %d", st.GetNonce(w.K(0).Rec))
	for v := 0; v <= 3; v++ {
		out += fmt.Sprintf(" bal%d=%v", v, st.GetBalance(w.K(v).Rec, w.QKC))
	}
	for _, h := range n.GetUnconfirmedHeaderList() {
		out += fmt.Sprintf(" u%d", s.byHash[h.Hash()])
	}
	nn, err := n.GetTransactionCount(w.K(0).Rec, nil)
	return out + fmt.Sprintf(" count %d %v", nn, err)
}

// bad builds the damaged version of block id.
func (s *world) bad(id int, d w.Dev) *types.MinorBlock {
	b := s.m[id]
	c := &w.DevCtx{Parent: w.DecMinor(s.m[b.p].enc), Shard: sid, Other: w.ShardID(1, 1, 0), User: w.K(0), Nonce: uint64(b.nonce), Limit: s.cfg.Quarkchain.BlockExtraDataSizeLimit}
	if d.Field() != "r" && !d.Pre() {
		return w.DecMinor(w.EncMinor(w.DeviatePost(w.DecMinor(b.enc), d, c)))
	}
	x := s.fresh(b, id)
	if d.Field() == "r" {
		h := x.Header()
		h.PrevRootBlockHash = s.r[int(d.Int())].hash
		x = w.Rebuild(h, x.Meta(), x.Transactions())
	} else {
		x = w.DeviatePre(x, d, c)
	}
	_, _, err := s.factory.FinalizeAndAddBlock(x)
	s.rep.Check(err != nil, "V02", "a block on block %d breaking the rule %v was executed and accepted", b.p, d)
	return w.DecMinor(w.EncMinor(x))
}

func (s *world) damaged(o op) {
	rep := s.rep
	d := *o.Dev
	rep.Op("dev " + d.Field())
	if o.Op == "dx" {
		s.tried[o.ID] = true
		x := s.bad(o.ID, d)
		before := s.snapshot(x.Hash())
		for n := 1; n <= 2; n++ {
			_, err := s.node.InsertChain([]types.IBlock{w.DecMinor(w.EncMinor(x))}, false)
			rep.Check(err != nil, "V02", "block %d changed in %v was accepted (delivery %d)", o.ID, d, n)
			after := s.snapshot(x.Hash())
			rep.Check(before == after, "V02", "refusing block %d changed in %v changed the chain from [%s] to [%s]", o.ID, d, before, after)
		}
		return
	}
	s.tried[o.Kid] = true
	x := s.bad(o.Kid, d)
	head := s.byHash[s.node.CurrentBlock().Hash()]
	_, err := s.node.InsertChain([]types.IBlock{w.DecMinor(s.m[o.ID].enc), w.DecMinor(w.EncMinor(x))}, false)
	rep.Check(err != nil, "V02", "batch of block %d and its child %d changed in %v was accepted", o.ID, o.Kid, d)
	now := s.byHash[s.node.CurrentBlock().Hash()]
	rep.Check(now == head || now == o.ID, "V02", "after a batch of block %d and a child changed in %v the head is %d, it was %d", o.ID, d, now, head)
	rep.Check(s.node.HasBlockAndState(s.m[o.ID].hash), "V02", "block %d, delivered in front of a child changed in %v, was not kept", o.ID, d)
	before := s.snapshot(x.Hash())
	_, err = s.node.InsertChain([]types.IBlock{w.DecMinor(w.EncMinor(x))}, false)
	rep.Check(err != nil, "V02", "block %d changed in %v was accepted after its batch", o.Kid, d)
	rep.Check(before == s.snapshot(x.Hash()), "V02", "refusing block %d changed in %v changed the chain from [%s] to [%s]", o.Kid, d, before, s.snapshot(x.Hash()))
}

func (s *world) makeMinor(o op) bool {
	p := s.m[o.P]
	parent := s.factory.GetMinorBlock(p.hash)
	if parent == nil {
		s.rep.V("F01", "accepted shard block %d is gone from the block store", o.P)
		return false
	}
	rh := s.r[o.R].hash
	t := parent.Time() + 1
	miner := w.K(50).Addr(sid)
	b := parent.CreateBlockToAppend(&t, nil, &miner, nil, nil, nil, []byte(fmt.Sprintf("m%d", o.ID)), nil, &rh)
	n := p.nonce
	mb := &mblk{p: o.P, r: o.R, h: p.h + 1}
	for _, v := range o.Tx {
		tx := s.tx(v, n)
		b.AddTx(tx)
		mb.txs = append(mb.txs, tx.Hash())
		seen := false
		for _, x := range s.txs {
			seen = seen || x.hash == tx.Hash()
		}
		if !seen {
			s.txs = append(s.txs, txInfo{tx.Hash()})
		}
		n++
	}
	mb.nonce, mb.variant = n, o.Tx
	fb, _, err := s.factory.FinalizeAndAddBlock(b)
	if err != nil {
		s.rep.V("F01", "a valid shard block (parent %d, root block %d, %d transactions) was refused: %v", o.P, o.R, len(o.Tx), err)
		return false
	}
	mb.enc, mb.hash, mb.root = w.EncMinor(fb), fb.Hash(), fb.Root()
	s.m[o.ID] = mb
	s.byHash[mb.hash] = o.ID
	if mb.h > s.maxH {
		s.maxH = mb.h
	}
	return true
}

func (s *world) makeRoot(o op) bool {
	var hs []*types.MinorBlockHeader
	conf := s.r[o.P].conf
	for _, i := range o.L {
		hs = append(hs, w.DecMinor(s.m[i].enc).Header())
		conf = i
	}
	c := w.K(60).Addr(sid)
	b := w.NewRootBlock(w.DecRoot(s.r[o.P].enc), o.ID, o.D*1000, hs, &c, 0)
	rb := &rblk{p: o.P, h: s.r[o.P].h + 1, conf: conf, enc: w.EncRoot(b), hash: b.Hash()}
	s.r[o.ID] = rb
	s.rByHash[rb.hash] = o.ID
	if _, err := s.factory.AddRootBlock(w.DecRoot(rb.enc)); err != nil {
		s.rep.V("F01", "a valid root block (parent %d, confirming %v) was refused: %v", o.P, o.L, err)
		return false
	}
	return true
}

func (s *world) deliver(o op) {
	rep := s.rep
	prevR := s.rByHash[s.node.GetRootTip().Hash()]
	if o.Op == "dm" {
		b := w.DecMinor(s.m[o.ID].enc)
		_, err := s.node.InsertChain([]types.IBlock{b}, false)
		if !o.Dup {
			if s.tried[o.ID] && o.Ok {
				rep.Check(err == nil, "V02", "shard block %d was refused after a damaged version of it was: %v", o.ID, err)
			}
			rep.Check((err == nil) == o.Ok, "F01", "delivering shard block %d: accepted=%v (%v), specification says %v", o.ID, err == nil, err, o.Ok)
		}
	} else {
		b := w.DecRoot(s.r[o.ID].enc)
		sw, err := s.node.AddRootBlock(b)
		if !o.Dup {
			rep.Check((err == nil) == o.Ok, "F01", "delivering root block %d: accepted=%v (%v), specification says %v", o.ID, err == nil, err, o.Ok)
		}
		rep.Check(sw == (prevR != o.Rtip), "F01", "delivering root block %d reported switch=%v, specification says root tip %d -> %d", o.ID, sw, prevR, o.Rtip)
	}
	head := s.node.CurrentBlock()
	hid, ok := s.byHash[head.Hash()]
	rep.Check(ok && hid == o.Tip, "F01", "after delivering %s %d the head is block %d, specification says %d", o.Op, o.ID, hid, o.Tip)
	rid := s.rByHash[s.node.GetRootTip().Hash()]
	rep.Check(rid == o.Rtip, "F01", "after delivering %s %d the root tip is %d, specification says %d", o.Op, o.ID, rid, o.Rtip)
	if !ok {
		return
	}
	s.indexes(hid)
	if rid != 0 {
		s.unconfirmed(hid, rid)
	}
	if rep.Only() == "Q01" {
		s.history(hid)
	}
}

func (s *world) unconfirmed(hid, rid int) {
	var want []int
	for _, x := range s.chain(hid) {
		if x == s.r[rid].conf {
			break
		}
		want = append([]int{x}, want...)
	}
	var got []int
	for _, h := range s.node.GetUnconfirmedHeaderList() {
		got = append(got, s.byHash[h.Hash()])
	}
	s.rep.Check(fmt.Sprint(got) == fmt.Sprint(want), "F01", "unconfirmed headers are %v, specification says %v", got, want)
}

func (s *world) indexes(hid int) {
	rep := s.rep
	prop := "F02"
	if s.prop != "" {
		prop = s.prop
	}
	at := map[int]int{}
	where := map[common.Hash][2]int{}
	for _, x := range s.chain(hid) {
		at[s.m[x].h] = x
		for i, t := range s.m[x].txs {
			where[t] = [2]int{x, i}
		}
	}
	for h := 0; h <= s.maxH+2; h++ {
		got := 0
		b := s.node.GetBlockByNumber(uint64(h))
		if mbk, is := b.(*types.MinorBlock); is && mbk != nil {
			got = s.byHash[mbk.Hash()]
		}
		rep.Check(got == at[h], prop, s.ctx+"block by height %d is %d, the head's (%d) ancestor at that height is %d", h, got, hid, at[h])
		hh := s.node.GetHeaderByNumber(uint64(h))
		got = 0
		if x, is := hh.(*types.MinorBlockHeader); is && x != nil {
			got = s.byHash[x.Hash()]
		}
		rep.Check(got == at[h], prop, s.ctx+"header by height %d is %d, want %d", h, got, at[h])
	}
	for _, t := range s.txs {
		b, idx := s.node.GetTransactionByHash(t.hash)
		got := [2]int{}
		if b != nil {
			if id, known := s.byHash[b.Hash()]; known {
				got = [2]int{id, int(idx)}
			}
		}
		want, in := where[t.hash]
		rep.Check(got[0] == want[0] && (!in || got[1] == want[1]), prop, s.ctx+"transaction lookup gives block %d position %d, want block %d position %d (head %d)", got[0], got[1], want[0], want[1], hid)
		rb, ri, rc := s.node.GetTransactionReceipt(t.hash)
		if in {
			if rep.Check(rb != nil && rc != nil && s.byHash[rb.Hash()] == want[0] && int(ri) == want[1] && rc.TxHash == t.hash && rc.Status == 1,
				prop, s.ctx+"receipt of a canonical transaction of block %d is missing or wrong", want[0]) {
				rep.Check(rc.CumulativeGasUsed == uint64(21000*(want[1]+1)), prop, s.ctx+"receipt of block %d position %d has cumulative gas %d", want[0], want[1], rc.CumulativeGasUsed)
			}
		} else {
			rep.Check(rc == nil, prop, s.ctx+"a transaction outside the head's ancestry has a receipt")
		}
	}
	// state at the head
	want := s.m[hid]
	st, err := s.node.State()
	if rep.Check(err == nil, prop, s.ctx+"no state at the head: %v", err) {
		rep.Check(st.GetNonce(w.K(0).Rec) == uint64(want.nonce), prop, s.ctx+"account nonce at the head is %d, want %d", st.GetNonce(w.K(0).Rec), want.nonce)
		recv := map[int]int64{}
		for _, x := range s.chain(hid) {
			n := s.m[x].nonce - len(s.m[x].variant)
			for i, v := range s.m[x].variant {
				recv[v] += int64(100*v + n + i)
			}
		}
		for v := 1; v <= 3; v++ {
			b := st.GetBalance(w.K(v).Rec, w.QKC)
			rep.Check(b.Int64() == recv[v], prop, s.ctx+"balance of receiver %d at the head %d is %v, its ancestry gives %d", v, hid, b, recv[v])
		}
	}
	nn, err := s.node.GetTransactionCount(w.K(0).Rec, nil)
	rep.Check(err == nil && nn == uint64(want.nonce), prop, s.ctx+"GetTransactionCount is %d (%v), want %d", nn, err, want.nonce)
	rep.Check(rawdb.ReadHeadBlockHash(s.db) == s.m[hid].hash, prop, s.ctx+"stored head marker is block %d, head is %d", s.byHash[rawdb.ReadHeadBlockHash(s.db)], hid)
}

// history pages through GetAllTx and GetTransactionByAddress.
func (s *world) history(hid int) {
	rep := s.rep
	var all []common.Hash // newest first
	per := map[int][]common.Hash{}
	for _, x := range s.chain(hid) {
		b := s.m[x]
		for i := len(b.txs) - 1; i >= 0; i-- {
			all = append(all, b.txs[i])
			per[b.variant[i]] = append(per[b.variant[i]], b.txs[i])
		}
	}
	for _, limit := range []uint32{1, 2, 7} {
		page := func(name string, want []common.Hash, f func(start []byte) ([]common.Hash, []byte, error)) {
			var got []common.Hash
			start := []byte{}
			for n := 0; n < 40; n++ {
				l, next, err := f(start)
				if !rep.Check(err == nil, "Q01", "%s: %v", name, err) {
					return
				}
				if len(l) == 0 {
					break
				}
				rep.Check(len(l) <= int(limit), "Q01", "%s returned %d entries, limit %d", name, len(l), limit)
				got = append(got, l...)
				if bytes.Equal(next, start) {
					break
				}
				start = next
			}
			same := len(got) == len(want)
			for i := 0; same && i < len(want); i++ {
				same = got[i] == want[i]
			}
			rep.Check(same, "Q01", "%s with page size %d gives %s, canonical newest-first is %s (head %d)", name, limit, short(got), short(want), hid)
		}
		page("GetAllTx", all, func(st []byte) ([]common.Hash, []byte, error) {
			l, n, e := s.node.GetAllTx(st, limit)
			var r []common.Hash
			for _, x := range l {
				r = append(r, x.TxHash)
			}
			return r, n, e
		})
		for v := 0; v <= 3; v++ {
			want := per[v]
			if v == 0 {
				want = all
			}
			page(fmt.Sprintf("GetTransactionByAddress(%d)", v), want, func(st []byte) ([]common.Hash, []byte, error) {
				l, n, e := s.node.GetTransactionByAddress(w.K(v).Addr(sid), nil, st, limit)
				var r []common.Hash
				for _, x := range l {
					r = append(r, x.TxHash)
				}
				return r, n, e
			})
		}
	}
}

func short(l []common.Hash) string {
	s := ""
	for _, x := range l {
		s += w.H(x) + " "
	}
	return s
}
