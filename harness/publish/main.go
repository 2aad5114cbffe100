// publish replays behaviours of spec/Publish.tla: a real slave with two shards
// takes in blocks of one of them; its master and the other slaves are stand-ins
// that record what they are told and fail when the specification says so.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/cluster/service"
	"github.com/QuarkChain/goquarkchain/cluster/shard"
	"github.com/QuarkChain/goquarkchain/cluster/slave"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/w"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/event"
)

// the shards: two chains of two, or one of 64 in which shard 3 is no neighbour of shard 0
func shards(big bool) [4]uint32 {
	if big {
		return [4]uint32{w.ShardID(0, 64, 0), w.ShardID(0, 64, 1), w.ShardID(0, 64, 3), w.ShardID(0, 64, 2)}
	}
	return [4]uint32{w.ShardID(0, 2, 0), w.ShardID(0, 2, 1), w.ShardID(1, 2, 0), w.ShardID(1, 2, 1)}
}

type op struct {
	Op    string
	ID    int
	P, R  int
	X     []int
	Bad   bool
	Kind  string
	Bs    []int
	Fail  string
	Shard int
	Host  int
	Eff   bool
	Ok    bool
	Ok2   bool
	Ins   []int
	Tip   bool
	Head  int
	Com   []int
	Big   bool
}

type blk struct {
	enc  []byte
	hash common.Hash
	txs  []*types.Transaction
	x    []int
	h    uint64
}

func (b *blk) block() *types.MinorBlock { return w.DecMinor(b.enc) }

// event: something the cluster was told
type ev struct {
	kind  string // x, hdr, tip
	shard int
	host  int
	b     []int
	fail  bool
	bad   string
}

type world struct {
	ids     [4]uint32
	need    [][2]int // shard, host
	rep     *w.Rep
	factory *core.MinorBlockChain
	sl      *slave.SlaveBackend
	a, b    *shard.ShardBackend
	m       map[int]*blk
	mid     map[common.Hash]int
	roots   []*types.RootBlock
	mu      sync.Mutex
	evs     []ev
	plan    *op
	gossip  int32
}

func main() { w.Main(replay) }

type client struct {
	rpc.Client
	s    *world
	host int // 0: the master
}

var errPlanned = errors.New("planned failure")

func (c *client) Close() {}
func (c *client) Call(_ string, q *rpc.Request) (*rpc.Response, error) {
	data, err := c.s.told(c.host, q)
	if err != nil {
		return nil, err
	}
	return &rpc.Response{RpcId: q.RpcId, Data: data}, nil
}

// fails tells whether this call is the one that is to fail.
func (s *world) fails(kind string, sh, host int) bool {
	if s.plan == nil || s.plan.Fail != kind || kind == "x" && (s.plan.Shard != sh || s.plan.Host != host) {
		return false
	}
	return true
}

func (s *world) told(host int, q *rpc.Request) ([]byte, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	var e ev
	var reply interface{}
	switch q.Op {
	case rpc.OpAddXshardTxList, rpc.OpBatchAddXshardTxList:
		e = ev{kind: "x", host: host}
		var l []*rpc.AddXshardTxListRequest
		if q.Op == rpc.OpAddXshardTxList {
			r := new(rpc.AddXshardTxListRequest)
			if err := serialize.DeserializeFromBytes(q.Data, r); err != nil {
				e.bad = err.Error()
			}
			l = append(l, r)
		} else {
			var r rpc.BatchAddXshardTxListRequest
			if err := serialize.DeserializeFromBytes(q.Data, &r); err != nil {
				e.bad = err.Error()
			}
			l = r.AddXshardTxListRequestList
		}
		for i, r := range l {
			sh := -1
			for k, id := range s.ids {
				if id == r.Branch {
					sh = k
				}
			}
			if i > 0 && e.shard != sh {
				e.bad = "lists for several shards in one request"
			}
			e.shard = sh
			id := s.mid[r.MinorBlockHash]
			if id == 0 {
				if s.a == nil { // a genesis block
					continue
				}
				e.bad = "list of an unknown block"
			} else if msg := s.listErr(s.m[id], sh, r.TxList); msg != "" {
				e.bad = msg
			}
			e.b = append(e.b, id)
		}
		if len(e.b) == 0 {
			return nil, nil
		}
	case rpc.OpAddMinorBlockHeader:
		e = ev{kind: "hdr"}
		var r rpc.AddMinorBlockHeaderRequest
		if err := serialize.DeserializeFromBytes(q.Data, &r); err != nil {
			e.bad = err.Error()
			break
		}
		reply = &rpc.AddMinorBlockHeaderResponse{ArtificialTxConfig: &rpc.ArtificialTxConfig{}}
		if r.MinorBlockHeader.Number == 0 {
			d, err := serialize.SerializeToBytes(reply)
			return d, err
		}
		id := s.mid[r.MinorBlockHeader.Hash()]
		e.b = []int{id}
		if id == 0 {
			e.bad = "header of an unknown block"
			break
		}
		b := s.m[id].block()
		want := b.CoinbaseAmount().GetBalanceMap()
		got := r.CoinbaseAmountMap.GetBalanceMap()
		same := len(want) == len(got)
		for t, v := range want {
			if got[t] == nil || got[t].Cmp(v) != 0 {
				same = false
			}
		}
		switch {
		case int(r.TxCount) != len(b.Transactions()):
			e.bad = fmt.Sprintf("%d transactions reported for %d", r.TxCount, len(b.Transactions()))
		case int(r.XShardTxCount) != len(s.m[id].x):
			e.bad = fmt.Sprintf("%d outgoing transfers reported for %d", r.XShardTxCount, len(s.m[id].x))
		case !same:
			e.bad = fmt.Sprintf("rewards %v reported for %v", got, want)
		case r.ShardStats == nil || r.ShardStats.Branch.Value != s.ids[0]:
			e.bad = "wrong shard status"
		}
	case rpc.OpAddMinorBlockHeaderList:
		e = ev{kind: "hdr"}
		var r rpc.AddMinorBlockHeaderListRequest
		if err := serialize.DeserializeFromBytes(q.Data, &r); err != nil {
			e.bad = err.Error()
			break
		}
		for _, h := range r.MinorBlockHeaderList {
			id := s.mid[h.Hash()]
			if id == 0 {
				e.bad = "header of an unknown block"
			}
			e.b = append(e.b, id)
		}
		if len(e.b) == 0 {
			return nil, nil
		}
	case rpc.OpBroadcastNewTip:
		e = ev{kind: "tip"}
		var r rpc.BroadcastNewTip
		if err := serialize.DeserializeFromBytes(q.Data, &r); err != nil {
			e.bad = err.Error()
			break
		}
		if len(r.MinorBlockHeaderList) != 1 || r.Branch != s.ids[0] || r.RootBlockHeader.Hash() != s.roots[2].Hash() {
			e.bad = "malformed tip"
			break
		}
		e.b = []int{s.mid[r.MinorBlockHeaderList[0].Hash()]}
	case rpc.OpBroadcastNewMinorBlock:
		var r rpc.P2PRedirectRequest
		var n p2p.NewBlockMinor
		if serialize.DeserializeFromBytes(q.Data, &r) != nil || serialize.DeserializeFromBytes(r.Data, &n) != nil || s.mid[n.Block.Hash()] == 0 || r.PeerID != "peer" {
			e = ev{kind: "relay", bad: "malformed block relayed"}
			break
		}
		atomic.AddInt32(&s.gossip, 1)
		return nil, nil
	default:
		return nil, nil
	}
	if e.kind == "hdr" { // the lists of the shard on the same host are there by now
		for _, id := range e.b {
			if id == 0 {
				continue
			}
			l := s.b.MinorBlockChain.ReadCrossShardTxList(s.m[id].hash)
			if l == nil {
				e.bad = "the shard on the same host lacks the list"
			} else if msg := s.listErr(s.m[id], 1, l.TXList); msg != "" {
				e.bad = "shard on the same host: " + msg
			}
		}
	}
	e.fail = s.fails(e.kind, e.shard, e.host)
	if e.fail {
		eff := s.plan.Eff
		s.plan = nil
		if eff {
			s.evs = append(s.evs, e)
		}
		return nil, errPlanned
	}
	s.evs = append(s.evs, e)
	if reply == nil {
		return nil, nil
	}
	return serialize.SerializeToBytes(reply)
}

// listErr says what is wrong with the list of block b for a shard.
func (s *world) listErr(b *blk, sh int, got []*types.CrossShardTransactionDeposit) string {
	k := 0
	for i, to := range b.x {
		if to != sh {
			continue
		}
		if k >= len(got) {
			return fmt.Sprintf("list for shard %d lacks transfer %d", sh, i)
		}
		tx := b.txs[i]
		if got[k].TxHash != tx.Hash() || got[k].Value.Value.Cmp(tx.EvmTx.Value()) != 0 || got[k].To.Recipient != *tx.EvmTx.To() || got[k].To.FullShardKey != tx.EvmTx.ToFullShardKey() {
			return fmt.Sprintf("list for shard %d has something else than transfer %d", sh, i)
		}
		k++
	}
	if k != len(got) {
		return fmt.Sprintf("list for shard %d has %d transfers, not %d", sh, len(got), k)
	}
	return ""
}

func newCfg(ids [4]uint32, big bool) *config.ClusterConfig {
	al := map[account.Recipient]map[string]int64{w.K(1).Rec: {"QKC": 1000000000}}
	if big {
		return w.NewCfg(w.Opts{Chains: 1, Shards: 64, Alloc: map[uint32]map[account.Recipient]map[string]int64{ids[0]: al}})
	}
	return w.NewCfg(w.Opts{Chains: 2, Shards: 2, Alloc: map[uint32]map[account.Recipient]map[string]int64{ids[0]: al}})
}

func replay(raw json.RawMessage, rep *w.Rep) {
	var ops []op
	if err := json.Unmarshal(raw, &ops); err != nil || len(ops) == 0 {
		rep.Err("bad trace: %v", err)
		return
	}
	rep.Prop = "C01"
	s := &world{rep: rep, m: map[int]*blk{}, mid: map[common.Hash]int{}}
	big := ops[0].Big
	s.ids, s.need = shards(big), [][2]int{{3, 1}, {3, 2}}
	if !big {
		s.need = append(s.need, [2]int{2, 1})
	}
	ids, cfg := s.ids, newCfg(shards(big), big)
	hosts := map[int][]uint32{1: {ids[2], ids[3]}, 2: {ids[3]}}
	var rg *types.RootBlock
	s.factory, rg = w.NewShard(cfg, ethdb.NewMemDatabase(), ids[0], nil)
	defer w.StopAll(s.factory)
	var err error
	s.sl, err = slave.New(&service.ServiceContext{EventMux: new(event.TypeMux)}, newCfg(ids, big), &config.SlaveConfig{ID: "S0", IP: "127.0.0.1", FullShardList: ids[:2]})
	if err != nil {
		rep.Err("slave: %v", err)
		return
	}
	cl, sh := map[string]rpc.Client{}, map[string][]uint32{}
	for h, l := range hosts {
		n := fmt.Sprint("S", h)
		cl[n], sh[n] = &client{rpc.NewClient(rpc.SlaveServer), s, h}, l
	}
	s.sl.ZzWire(&client{rpc.NewClient(rpc.MasterServer), s, 0}, cl, sh)
	g := s.factory.Genesis()
	if err = s.open(rg); err != nil {
		rep.Err("shards: %v", err)
		return
	}
	defer s.a.Stop()
	defer s.b.Stop()
	if s.a.MinorBlockChain.Genesis().Hash() != g.Hash() {
		rep.Err("the shards have different genesis blocks")
		return
	}
	s.m[1] = &blk{enc: w.EncMinor(g), hash: g.Hash()}
	s.mid[g.Hash()] = 1
	r1 := w.NewRootBlock(rg, 2, 3, []*types.MinorBlockHeader{g.Header()}, &account.Address{Recipient: w.K(7).Rec, FullShardKey: ids[2]}, 0)
	r2 := w.NewRootBlock(r1, 3, 3, nil, &account.Address{Recipient: w.K(7).Rec, FullShardKey: ids[2]}, 0)
	s.roots = []*types.RootBlock{rg, r1, r2}
	for _, r := range s.roots[1:] {
		if _, err := s.factory.AddRootBlock(w.DecRoot(w.EncRoot(r))); err != nil {
			rep.Err("root block: %v", err)
			return
		}
		if _, err := s.a.AddRootBlock(w.DecRoot(w.EncRoot(r))); err != nil {
			rep.Err("root block: %v", err)
			return
		}
	}
	s.mu.Lock()
	s.evs = nil
	s.mu.Unlock()
	for i := range ops {
		o := &ops[i]
		rep.Step = i
		rep.Op(o.Op + o.Kind)
		rep.Guard("C01", func() {
			if o.Op == "B" {
				s.make(o)
			} else if o.Op == "C" {
				s.call(o)
			}
		})
		if rep.Bad() {
			return
		}
	}
}

func (s *world) open(rg *types.RootBlock) error {
	if err := s.sl.CreateShards(w.DecRoot(w.EncRoot(rg)), false); err != nil {
		return err
	}
	s.a, s.b = s.sl.GetShard(s.ids[0]), s.sl.GetShard(s.ids[1])
	return nil
}

func (s *world) make(o *op) {
	p := s.m[o.P]
	parent := s.factory.GetMinorBlock(p.hash)
	if parent == nil {
		s.rep.Err("block %d is missing", o.P)
		return
	}
	rh := s.roots[o.R].Hash()
	t := parent.Time() + 10
	miner := account.Address{Recipient: w.K(9).Rec, FullShardKey: s.ids[0]}
	b := parent.CreateBlockToAppend(&t, nil, &miner, nil, nil, nil, []byte(fmt.Sprintf("m%d", o.ID)), nil, &rh)
	n, err := s.factory.GetTransactionCount(w.K(1).Rec, &p.hash)
	if err != nil {
		s.rep.Err("no nonce: %v", err)
		return
	}
	m := &blk{h: p.h + 1, x: o.X}
	for i, to := range o.X {
		r := w.K(2).Rec
		tx := w.Tx(w.K(1), n+uint64(i), &r, int64(100*o.ID+i), 50000, 1, s.ids[0], s.ids[to], nil, w.QKC, w.QKC)
		m.txs = append(m.txs, tx)
		b.AddTx(tx)
	}
	fb, _, err := s.factory.FinalizeAndAddBlock(b)
	if err != nil {
		s.rep.Err("building block %d: %v", o.ID, err)
		return
	}
	if o.Bad {
		h, meta := fb.Header(), fb.Meta()
		meta.Root[0] ^= 1
		h.MetaHash = meta.Hash()
		fb = w.Rebuild(h, meta, fb.Transactions())
	}
	m.enc, m.hash = w.EncMinor(fb), fb.Hash()
	s.m[o.ID] = m
	s.mid[m.hash] = o.ID
}

func (s *world) call(o *op) {
	rep := s.rep
	s.mu.Lock()
	s.evs, s.plan = nil, nil
	if o.Fail != "" {
		s.plan = o
	}
	s.mu.Unlock()
	where := fmt.Sprintf("%s of %v with failure %q (shard %d host %d effect %v)", o.Kind, o.Bs, o.Fail, o.Shard, o.Host, o.Eff)
	var err, err2 error
	switch o.Kind {
	case "add":
		err = s.a.AddMinorBlock(s.m[o.Bs[0]].block())
		err2 = err
	case "relay":
		err = s.a.NewMinorBlock("peer", s.m[o.Bs[0]].block())
		err2 = err
	case "pair":
		var wg sync.WaitGroup
		var es [2]error
		for i := range es {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				rep.Guard("C01", func() { es[i] = s.a.AddMinorBlock(s.m[o.Bs[0]].block()) })
			}()
		}
		wg.Wait()
		err, err2 = es[0], es[1]
		if (err == nil) != o.Ok {
			err, err2 = err2, err
		}
	case "batch":
		var l []*types.MinorBlock
		for _, b := range o.Bs {
			if b == 0 {
				l = append(l, s.b.MinorBlockChain.Genesis())
			} else {
				l = append(l, s.m[b].block())
			}
		}
		err = s.a.AddBlockListForSync(l)
		err2 = err
	}
	rep.Check((err == nil) == o.Ok, "C01", "%s: error %v, specification says ok=%v", where, err, o.Ok)
	if o.Kind == "pair" {
		rep.Check((err2 == nil) == o.Ok2, "C01", "%s: second call: error %v, specification says ok=%v", where, err2, o.Ok2)
	}
	ch := s.a.MinorBlockChain
	head := s.mid[ch.CurrentBlock().Hash()]
	rep.Check(head == o.Head, "C01", "%s: head is block %d, specification says %d", where, head, o.Head)
	com := map[int]bool{}
	for _, b := range o.Com {
		com[b] = true
	}
	for id, b := range s.m {
		rep.Check(ch.HasBlock(b.hash) == com[id], "C01", "%s: block %d counts as taken in: %v, specification says %v", where, id, ch.HasBlock(b.hash), com[id])
	}
	for b := ch.CurrentBlock(); b.NumberU64() > 0; {
		c := ch.GetBlockByNumber(b.NumberU64())
		if !rep.Check(c != nil && c.Hash() == b.Hash(), "C01", "%s: block at height %d is not the head's ancestor", where, b.NumberU64()) {
			break
		}
		if b = ch.GetMinorBlock(b.ParentHash()); !rep.Check(b != nil, "C01", "%s: an ancestor of the head is missing", where) {
			break
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	got := map[[3]int]int{}
	hdr := map[int]int{}
	var hdrs [][]int
	tip := 0
	for _, e := range s.evs {
		rep.Check(e.bad == "", "C01", "%s: %s: %s", where, e.kind, e.bad)
		switch e.kind {
		case "x":
			known := false
			for _, n := range s.need {
				known = known || n == [2]int{e.shard, e.host}
			}
			rep.Check(known, "C01", "%s: a list for shard %d went to host %d", where, e.shard, e.host)
			for _, b := range e.b {
				got[[3]int{b, e.shard, e.host}]++
			}
		case "hdr":
			for _, b := range e.b {
				for _, n := range s.need {
					rep.Check(got[[3]int{b, n[0], n[1]}] > 0, "C01", "%s: the master was told of block %d before host %d had the list for shard %d", where, b, n[1], n[0])
				}
				hdr[b]++
			}
			hdrs = append(hdrs, e.b)
		case "tip":
			rep.Check(len(e.b) == 1 && hdr[e.b[0]] > 0, "C01", "%s: tip %v announced before the master was told", where, e.b)
			if !e.fail {
				tip = e.b[0]
			}
		}
	}
	times := 1
	if o.Kind == "pair" && o.Fail != "" && !o.Ok && o.Ok2 {
		times = 2
	}
	for k, n := range got {
		in := false
		for _, b := range o.Ins {
			in = in || b == k[0]
		}
		rep.Check(in, "C01", "%s: list of block %d delivered, which was not to be processed", where, k[0])
		rep.Check(n <= times, "C01", "%s: list of block %d for shard %d delivered %d times to host %d", where, k[0], k[1], n, k[2])
	}
	for b, n := range hdr {
		rep.Check(n <= times, "C01", "%s: header of block %d sent %d times", where, b, n)
	}
	if len(o.Ins) == 0 {
		rep.Check(len(s.evs) == 0, "C01", "%s: nothing was to be processed, but the cluster was told %v", where, s.evs)
		return
	}
	if o.Fail == "x" && !o.Ok && times == 1 {
		rep.Check(len(hdrs) == 0, "C01", "%s: the master was told of %v", where, hdrs)
	}
	if (o.Fail == "x" || o.Fail == "hdr") && !o.Ok && times == 1 {
		rep.Check(tip == 0, "C01", "%s: tip %d announced", where, tip)
	}
	if o.Ok2 {
		for _, b := range o.Ins {
			for _, n := range s.need {
				rep.Check(got[[3]int{b, n[0], n[1]}] > 0, "C01", "%s: the list of block %d for shard %d was not delivered to host %d", where, b, n[0], n[1])
			}
		}
		last := []int{}
		if len(hdrs) > 0 {
			last = hdrs[len(hdrs)-1]
		}
		rep.Check(fmt.Sprint(last) == fmt.Sprint(o.Ins), "C01", "%s: the master was told of %v, specification says %v", where, last, o.Ins)
		want := 0
		if o.Tip {
			want = o.Head
		}
		rep.Check(tip == want, "C01", "%s: tip announced: %d, specification says %d (0: none)", where, tip, want)
	}
}
