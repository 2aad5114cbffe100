// Driver for PeerSession: a real ProtocolManager on a real root chain, peers at
// the other end of message pipes, and recording hosts.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math/big"
	"sync"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/cluster/master"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	qsync "github.com/QuarkChain/goquarkchain/cluster/sync"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/w"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/event"
	"github.com/ethereum/go-ethereum/p2p/enode"
)

const P = "P01"

type ref struct {
	B string `json:"b"`
	H int    `json:"h"`
}
type tip struct {
	Td  int64 `json:"td"`
	ID  int   `json:"id"`
	Num int   `json:"num"`
	N   int   `json:"n"`
}
type op struct {
	Op     string          `json:"op"`
	Fork   int             `json:"fork"`
	Main   int             `json:"main"`
	Side   int             `json:"side"`
	P      int             `json:"p"`
	Tip    tip             `json:"tip"`
	Kind   string          `json:"kind"`
	Up     bool            `json:"up"`
	Minors int             `json:"minors"`
	Task   bool            `json:"task"`
	B      int             `json:"b"`
	Count  int             `json:"count"`
	Match  bool            `json:"match"`
	Host   json.RawMessage `json:"host"`
	Fwd    bool            `json:"fwd"`
	Start  int             `json:"start"`
	Skip   int             `json:"skip"`
	Dir    int             `json:"dir"`
	Limit  uint32          `json:"limit"`
	Answer []ref           `json:"answer"`
	Top    json.RawMessage `json:"top"`
	Ref    ref             `json:"ref"`
	Refs   []ref           `json:"refs"`
	Block  ref             `json:"block"`
	Told   []int           `json:"told"`
	Onside bool            `json:"onside"`
	From   int             `json:"from"`
	Known  bool            `json:"known"`
	To     []int           `json:"to"`
	Reply  string          `json:"reply"`
}

func (o *op) hostBad() bool { return string(o.Host) == "false" || string(o.Host) == `"bad"` }
func (o *op) hostErr() error {
	if string(o.Host) == `"known"` {
		return fmt.Errorf("remote: %v", core.ErrKnownBlock)
	}
	if o.hostBad() {
		return errors.New("refused")
	}
	return nil
}

// shard ids of the model's branches; 9 is one nobody hosts
func shard(b int) uint32 {
	if b == 0 {
		return 0
	}
	return uint32(b-1)<<16 | 1
}

// call is one request a host got.
type call struct {
	host, kind, peer string
	branch           uint32
	data             []byte
}

type world struct {
	mu     sync.Mutex
	calls  []call
	err    error // what hosts answer
	tasks  []string
	synced bool
}

type host struct {
	rpc.ISlaveConn // anything else is not expected to be called
	w              *world
	name           string
	shards         []uint32
}

func (h *host) note(kind string, peer string, branch uint32, data []byte) error {
	h.w.mu.Lock()
	defer h.w.mu.Unlock()
	h.w.calls = append(h.w.calls, call{h.name, kind, peer, branch, data})
	return h.w.err
}
func (h *host) AddTransactions(r *rpc.P2PRedirectRequest) error {
	return h.note("txs", r.PeerID, r.Branch, r.Data)
}
func (h *host) HandleNewMinorBlock(r *rpc.P2PRedirectRequest) error {
	return h.note("block", r.PeerID, r.Branch, r.Data)
}
func (h *host) HandleNewTip(r *rpc.HandleNewTipRequest) error {
	d, _ := serialize.SerializeToBytes(&p2p.Tip{RootBlockHeader: r.RootBlockHeader, MinorBlockHeaderList: r.MinorBlockHeaderList})
	b := uint32(0)
	if len(r.MinorBlockHeaderList) > 0 {
		b = r.MinorBlockHeaderList[0].Branch.Value
	}
	return h.note("tip", r.PeerID, b, d)
}
func (h *host) serve(kind string, r *rpc.P2PRedirectRequest) ([]byte, error) {
	if err := h.note(kind, r.PeerID, r.Branch, r.Data); err != nil {
		return nil, err
	}
	return append([]byte(kind+" for "), r.Data...), nil
}
func (h *host) GetMinorBlocks(r *rpc.P2PRedirectRequest) ([]byte, error) {
	return h.serve("minorblocks", r)
}
func (h *host) GetMinorBlockHeaderList(r *rpc.P2PRedirectRequest) ([]byte, error) {
	return h.serve("minorheads", r)
}
func (h *host) GetMinorBlockHeaderListWithSkip(r *rpc.P2PRedirectRequest) ([]byte, error) {
	return h.serve("minorskip", r)
}

type conns struct{ all []*host }

func (c *conns) GetSlaveConnsById(id uint32) []rpc.ISlaveConn {
	var r []rpc.ISlaveConn
	for _, h := range c.all {
		for _, s := range h.shards {
			if s == id {
				r = append(r, h)
			}
		}
	}
	return r
}
func (c *conns) GetOneSlaveConnById(id uint32) rpc.ISlaveConn {
	if l := c.GetSlaveConnsById(id); len(l) > 0 {
		return l[0]
	}
	return nil
}
func (c *conns) GetSlaveConns() []rpc.ISlaveConn {
	var r []rpc.ISlaveConn
	for _, h := range c.all {
		r = append(r, h)
	}
	return r
}
func (c *conns) ConnCount() int { return len(c.all) }

type syncer struct{ w *world }

func (s *syncer) SubscribeSyncEvent(ch chan<- *qsync.SyncingResult) event.Subscription {
	return new(event.Feed).Subscribe(make(chan int))
}
func (s *syncer) AddTask(t qsync.Task) error {
	s.w.mu.Lock()
	defer s.w.mu.Unlock()
	s.w.tasks = append(s.w.tasks, fmt.Sprintf("%s td %v", t.PeerID(), t.Priority()))
	return nil
}
func (s *syncer) Close() error    { return nil }
func (s *syncer) IsSyncing() bool { return false }

// remote is the other end of a session.
type remote struct {
	id       string
	rw       *p2p.MsgPipeRW
	done     chan error
	ended    bool
	mu       sync.Mutex
	answers  map[uint64]p2p.QKCMsg
	hello    *p2p.HelloCmd
	asked    []p2p.QKCMsg
	tips     []string // announcements received
	blocks   []string
	txs      []string
	want     map[string][]string
	nextID   uint64
	nanswers int
}

func (r *remote) read() {
	for {
		m, err := r.rw.ReadMsg()
		if err != nil {
			return
		}
		b, err := ioutil.ReadAll(m.Payload)
		if err != nil {
			return
		}
		q, err := p2p.DecodeQKCMsg(b)
		if err != nil {
			continue
		}
		r.mu.Lock()
		switch q.Op {
		case p2p.Hello:
			h := new(p2p.HelloCmd)
			if serialize.DeserializeFromBytes(q.Data, h) == nil {
				r.hello = h
			}
		case p2p.NewTipMsg:
			r.tips = append(r.tips, fmt.Sprintf("%d:%x", q.MetaData.Branch, q.Data))
		case p2p.NewBlockMinorMsg:
			r.blocks = append(r.blocks, fmt.Sprintf("%d:%x", q.MetaData.Branch, q.Data))
		case p2p.NewTransactionListMsg:
			r.txs = append(r.txs, fmt.Sprintf("%d:%x", q.MetaData.Branch, q.Data))
		case p2p.GetRootBlockHeaderListRequestMsg, p2p.GetRootBlockListRequestMsg, p2p.GetMinorBlockListRequestMsg, p2p.GetMinorBlockHeaderListRequestMsg,
			p2p.GetRootBlockHeaderListWithSkipRequestMsg, p2p.GetMinorBlockHeaderListWithSkipRequestMsg:
			r.asked = append(r.asked, q)
		default:
			r.answers[q.RpcID] = q
			r.nanswers++
		}
		r.mu.Unlock()
	}
}

func (r *remote) send(o p2p.P2PCommandOp, branch uint32, id uint64, data []byte) error {
	m, err := p2p.MakeMsgWithSerializedData(o, id, p2p.Metadata{Branch: branch}, data)
	if err != nil {
		return err
	}
	return r.rw.WriteMsg(m)
}

func ser(x interface{}) []byte {
	b, err := serialize.SerializeToBytes(x)
	if err != nil {
		panic(err)
	}
	return b
}

// wait polls until f holds or the limit passes.
func wait(f func() bool) bool {
	for i := 0; i < 20000; i++ {
		if f() {
			return true
		}
		if i < 200 {
			time.Sleep(50 * time.Microsecond)
		} else {
			time.Sleep(time.Millisecond)
		}
	}
	return false
}

type run struct {
	rep    *w.Rep
	cfg    *config.ClusterConfig
	bc     *core.RootBlockChain
	pm     *master.ProtocolManager
	api    *master.PrivateP2PAPI
	wd     *world
	cs     *conns
	peers  map[int]*remote
	blocks map[ref]*types.RootBlock
	onside bool
	tasks  []string
	calls  int
	seq    int
}

func rootHeader(t tip) *types.RootBlockHeader {
	return &types.RootBlockHeader{Number: uint32(t.Num), Time: uint64(t.ID), Difficulty: big.NewInt(5), ToTalDifficulty: big.NewInt(t.Td), CoinbaseAmount: types.NewEmptyTokenBalances(), Extra: []byte{}, MixDigest: common.Hash{}}
}
func minorHeader(t tip, b int) *types.MinorBlockHeader {
	return &types.MinorBlockHeader{Number: uint64(t.N), Branch: account.Branch{Value: shard(b)}, Time: uint64(t.ID), Difficulty: big.NewInt(5), CoinbaseAmount: types.NewEmptyTokenBalances(), Extra: []byte{}}
}

func (x *run) top() *types.RootBlock { return x.bc.CurrentBlock() }

func (x *run) id(r ref) common.Hash {
	if b := x.blocks[r]; b != nil {
		return b.Hash()
	}
	return common.BytesToHash([]byte(fmt.Sprintf("unknown %s%d", r.B, r.H)))
}

func (x *run) addBlock(r ref, parent ref) bool {
	p := x.blocks[parent]
	diff := int64(10)
	b := w.NewRootBlock(p, len(x.blocks)+1, diff, nil, &account.Address{}, 0)
	if err := x.insert(b); err != nil {
		x.rep.Err("cannot build the root chain: %v", err)
		return false
	}
	x.blocks[r] = b
	return true
}

// request sends a request and returns its answer, nil when the session ended.
func (x *run) request(r *remote, o p2p.P2PCommandOp, branch uint32, data []byte) *p2p.QKCMsg {
	r.nextID++
	id := r.nextID
	if err := r.send(o, branch, id, data); err != nil {
		return nil
	}
	var res *p2p.QKCMsg
	wait(func() bool {
		r.mu.Lock()
		if a, ok := r.answers[id]; ok {
			res = &a
		}
		r.mu.Unlock()
		return res != nil || x.gone(r)
	})
	return res
}

// gone tells whether the session has ended.
func (x *run) gone(r *remote) bool {
	if r.ended {
		return true
	}
	select {
	case <-r.done:
		r.ended = true
		r.rw.Close()
		return true
	default:
		return false
	}
}

// barrier: the session still answers, so all its earlier messages were dealt with.
func (x *run) barrier(r *remote) bool {
	q := p2p.GetRootBlockHeaderListWithSkipRequest{Limit: 1}
	q.SetHeight(0)
	return x.request(r, p2p.GetRootBlockHeaderListWithSkipRequestMsg, 0, ser(&q)) != nil
}

// settle checks that peer p is, or is no longer, served.
func (x *run) settle(o *op, p int, up, late bool) {
	r := x.peers[p]
	if up {
		if !x.rep.Check(x.barrier(r), P, "%s from a peer that keeps the rules ended its session (or it is no longer answered)", o.Op) {
			delete(x.peers, p)
		}
		return
	}
	// errors of the handlers that run aside show with the next message
	ok := wait(func() bool {
		if x.gone(r) {
			return true
		}
		if late {
			r.send(p2p.GetRootBlockListResponseMsg, 0, 1<<40, ser(&p2p.GetRootBlockListResponse{}))
		}
		return false
	})
	x.rep.Check(ok, P, "%s (%s): the peer breaks the rules (or nobody can take its message) and is still connected", o.Op, o.Kind)
	if !ok {
		r.rw.Close()
	} else {
		x.rep.Check(x.pm.ZzPeer(r.id) == nil, P, "a session that ended is still in the peer set")
	}
	delete(x.peers, p)
}

// newCalls returns the host calls since the last look, once there are n of them.
func (x *run) newCalls(n int) []call {
	wait(func() bool {
		x.wd.mu.Lock()
		defer x.wd.mu.Unlock()
		return len(x.wd.calls)-x.calls >= n
	})
	x.wd.mu.Lock()
	defer x.wd.mu.Unlock()
	l := append([]call(nil), x.wd.calls[x.calls:]...)
	x.calls = len(x.wd.calls)
	return l
}

func (x *run) setErr(err error) {
	x.wd.mu.Lock()
	x.wd.err = err
	x.wd.mu.Unlock()
}

// forwarded checks that exactly the hosts of branch b got the message of peer p.
func (x *run) forwarded(o *op, kind string, peer string, branch uint32, data []byte, want bool, all bool) {
	var hosts []rpc.ISlaveConn
	if want {
		hosts = x.cs.GetSlaveConnsById(branch)
		if branch == 0 {
			hosts = x.cs.GetSlaveConns()
		}
		if !all && len(hosts) > 1 {
			hosts = hosts[:1]
		}
	}
	got := x.newCalls(len(hosts))
	if !x.rep.Check(len(got) == len(hosts), P, "%s for shard %d reached %d hosts, %d expected", kind, branch, len(got), len(hosts)) {
		return
	}
	seen := map[string]bool{}
	for _, c := range got {
		x.rep.Check(c.kind == kind && c.branch == branch && bytes.Equal(c.data, data) && !seen[c.host], P,
			"a host got %s (shard %d, %d bytes) for %s (shard %d, %d bytes)", c.kind, c.branch, len(c.data), kind, branch, len(data))
		if kind != "minorheads" {
			x.rep.Check(c.peer == peer, P, "a host was told the %s is from %q, it is from %q", kind, c.peer, peer)
		}
		ok := false
		for _, h := range x.cs.all {
			if h.name == c.host {
				for _, s := range h.shards {
					ok = ok || s == branch || branch == 0
				}
			}
		}
		x.rep.Check(ok, P, "%s for shard %d went to a host without it", kind, branch)
		seen[c.host] = true
	}
}

// told notes what peers must have received and waits for it.
func (x *run) told(kind string, ps []int, msg string) {
	for _, p := range ps {
		r := x.peers[p]
		if r == nil {
			continue
		}
		r.want[kind] = append(r.want[kind], msg)
		x.got(r, kind, false)
	}
}

func (x *run) got(r *remote, kind string, exact bool) {
	l := func() []string {
		r.mu.Lock()
		defer r.mu.Unlock()
		return append([]string(nil), map[string][]string{"tip": r.tips, "block": r.blocks, "txs": r.txs}[kind]...)
	}
	want := r.want[kind]
	wait(func() bool { return len(l()) >= len(want) || x.gone(r) })
	g := l()
	if !x.rep.Check(len(g) >= len(want), P, "a peer that should have been sent a %s was not", kind) {
		r.want[kind] = g
		return
	}
	for i := range g {
		if i >= len(want) {
			x.rep.V(P, "a peer was sent a %s it should not have been sent: %s", kind, cut(g[i]))
			r.want[kind] = g
			return
		}
		if !x.rep.Check(g[i] == want[i], P, "a peer was sent another %s than expected: %s for %s", kind, cut(g[i]), cut(want[i])) {
			r.want[kind] = append(append([]string(nil), g[:i+1]...), want[i+1:]...)
			return
		}
	}
}

func cut(s string) string {
	if len(s) > 80 {
		return s[:80]
	}
	return s
}

func (x *run) checkTasks() {
	x.wd.mu.Lock()
	defer x.wd.mu.Unlock()
	if !x.rep.Check(fmt.Sprint(x.wd.tasks) == fmt.Sprint(x.tasks), P, "queued synchronisation tasks are %v, expected %v", x.wd.tasks, x.tasks) {
		x.tasks = append([]string(nil), x.wd.tasks...)
	}
}

func (x *run) headers(r *remote, a *p2p.QKCMsg, o *op, what string) {
	if a == nil {
		x.rep.V(P, "%s: no answer", what)
		x.settle(o, o.P, false, false)
		return
	}
	var h p2p.GetRootBlockHeaderListResponse
	if err := serialize.DeserializeFromBytes(a.Data, &h); err != nil {
		x.rep.V(P, "%s: the answer cannot be decoded: %v", what, err)
		return
	}
	x.rep.Check(h.RootTip != nil && h.RootTip.Hash() == x.top().Hash(), P, "%s: the answer names another tip than the head", what)
	if !x.rep.Check(len(h.BlockHeaderList) == len(o.Answer), P, "%s: %d headers, expected %d", what, len(h.BlockHeaderList), len(o.Answer)) {
		return
	}
	for i, g := range h.BlockHeaderList {
		x.rep.Check(g.Hash() == x.id(o.Answer[i]), P, "%s: header %d is of height %d, expected %s%d", what, i, g.Number, o.Answer[i].B, o.Answer[i].H)
	}
}

func dir(d int) uint8 {
	if d < 0 {
		return 0
	}
	return 1
}

func (x *run) connect(o *op) {
	a, b := p2p.MsgPipe()
	var id enode.ID
	id[0], id[7], id[31] = byte(o.P), 7, byte(o.P)
	r := &remote{id: fmt.Sprintf("%x", id[:8]), rw: a, done: make(chan error, 1), answers: map[uint64]p2p.QKCMsg{}, want: map[string][]string{}, nextID: 1000}
	x.peers[o.P] = r
	pp := p2p.NewPeer(id, fmt.Sprintf("peer%d", o.P), nil)
	rep := x.rep
	go func() {
		var err error
		rep.Guard(P, func() { err = x.pm.ZzProtocol().Run(pp, b) })
		r.done <- err
		b.Close()
	}()
	go r.read()
	h := p2p.HelloCmd{Version: x.cfg.Quarkchain.P2PProtocolVersion, NetWorkID: x.cfg.Quarkchain.NetworkID, PeerID: common.Hash{byte(o.P)}, PeerPort: 1, RootBlockHeader: rootHeader(o.Tip),
		GenesisRootBlockHash: x.bc.Genesis().Hash()}
	switch o.Kind {
	case "network":
		h.NetWorkID++
	case "version":
		h.Version++
	case "genesis":
		h.GenesisRootBlockHash[3]++
	}
	data := ser(&h)
	var err error
	switch o.Kind {
	case "garbage":
		err = r.send(p2p.Hello, 0, 0, data[:len(data)/2])
	case "short":
		err = r.rw.WriteMsg(p2p.Msg{Size: 3, Payload: bytes.NewReader([]byte{1, 2, 3})})
	default:
		err = r.send(p2p.Hello, 0, 0, data)
	}
	if err != nil && o.Up {
		rep.V(P, "a peer that greets properly was refused: %v", err)
	}
	if o.Up {
		x.tasks = append(x.tasks, fmt.Sprintf("%s td %d", r.id, o.Tip.Td))
	}
	x.settle(o, o.P, o.Up, false)
	if o.Up {
		r.mu.Lock()
		hc := r.hello
		r.mu.Unlock()
		rep.Check(hc != nil && hc.GenesisRootBlockHash == x.bc.Genesis().Hash() && hc.NetWorkID == x.cfg.Quarkchain.NetworkID && hc.RootBlockHeader.Hash() == x.top().Hash(), P, "the greeting does not name this node's network, genesis or head")
	}
	x.checkTasks()
}

func (x *run) step(o *op) {
	rep := x.rep
	r := x.peers[o.P]
	if o.P != 0 && o.Op != "connect" && r == nil {
		rep.Err("no session %d", o.P)
		return
	}
	x.seq++
	switch o.Op {
	case "connect":
		x.connect(o)
	case "tip":
		t := &p2p.Tip{RootBlockHeader: rootHeader(o.Tip)}
		for i := 0; i < o.Minors; i++ {
			t.MinorBlockHeaderList = append(t.MinorBlockHeaderList, minorHeader(o.Tip, 1))
		}
		r.send(p2p.NewTipMsg, 0, 0, ser(t))
		if o.Task {
			x.tasks = append(x.tasks, fmt.Sprintf("%s td %d", r.id, o.Tip.Td))
		}
		x.settle(o, o.P, o.Up, false)
		x.checkTasks()
	case "mtip":
		t := &p2p.Tip{RootBlockHeader: rootHeader(o.Tip)}
		for i := 0; i < o.Count; i++ {
			h := minorHeader(o.Tip, o.B)
			if !o.Match {
				h.Branch.Value = shard(o.B + 1)
			}
			t.MinorBlockHeaderList = append(t.MinorBlockHeaderList, h)
		}
		x.setErr(o.hostErr())
		d := ser(t)
		r.send(p2p.NewTipMsg, shard(o.B), 0, d)
		x.settle(o, o.P, o.Up, false)
		x.forwarded(o, "tip", r.id, shard(o.B), d, o.Fwd, true)
		if o.Up {
			h, err := x.api.MinorHead(&rpc.MinorHeadRequest{Branch: shard(o.B), PeerID: r.id})
			rep.Check(err == nil && h.Hash() == t.MinorBlockHeaderList[0].Hash(), P, "the shard tip last announced by a peer is not the one kept (%v)", err)
		}
	case "block", "txs":
		d := []byte(fmt.Sprintf("%s %d", o.Op, x.seq))
		c := p2p.NewBlockMinorMsg
		if o.Op == "txs" {
			c = p2p.NewTransactionListMsg
		}
		x.setErr(o.hostErr())
		r.send(c, shard(o.B), 0, d)
		x.forwarded(o, o.Op, r.id, shard(o.B), d, o.Fwd, true)
		x.settle(o, o.P, o.Up, true)
	case "heads", "headsof":
		q := p2p.GetRootBlockHeaderListWithSkipRequest{Limit: o.Limit, Skip: uint32(o.Skip), Direction: dir(o.Dir)}
		what := fmt.Sprintf("headers from %s%d, skip %d, direction %d, limit %d", o.Ref.B, o.Ref.H, q.Skip, o.Dir, o.Limit)
		if o.Op == "heads" {
			q.SetHeight(uint32(o.Start))
			what = fmt.Sprintf("headers from height %d, skip %d, direction %d, limit %d", o.Start, q.Skip, o.Dir, o.Limit)
		} else {
			q.Data = x.id(o.Ref)
		}
		x.headers(r, x.request(r, p2p.GetRootBlockHeaderListWithSkipRequestMsg, 0, ser(&q)), o, what)
	case "walk":
		q := p2p.GetRootBlockHeaderListRequest{BlockHash: x.id(o.Ref), Limit: o.Limit}
		if !o.Up {
			r.send(p2p.GetRootBlockHeaderListRequestMsg, 0, 1, ser(&q))
			x.settle(o, o.P, false, false)
			return
		}
		x.headers(r, x.request(r, p2p.GetRootBlockHeaderListRequestMsg, 0, ser(&q)), o, fmt.Sprintf("%d ancestors of %s%d", o.Limit, o.Ref.B, o.Ref.H))
	case "blocks":
		var q p2p.GetRootBlockListRequest
		var want []common.Hash
		for _, f := range o.Refs {
			q.RootBlockHashList = append(q.RootBlockHashList, x.id(f))
			if x.blocks[f] != nil {
				want = append(want, x.id(f))
			}
		}
		a := x.request(r, p2p.GetRootBlockListRequestMsg, 0, ser(&q))
		if !rep.Check(a != nil, P, "no answer to a request for %d blocks", len(o.Refs)) {
			x.settle(o, o.P, false, false)
			return
		}
		var l p2p.GetRootBlockListResponse
		if err := serialize.DeserializeFromBytes(a.Data, &l); err != nil {
			rep.V(P, "the answer to a request for blocks cannot be decoded: %v", err)
			return
		}
		var got []common.Hash
		for _, b := range l.RootBlockList {
			got = append(got, b.Hash())
		}
		rep.Check(fmt.Sprint(got) == fmt.Sprint(want), P, "asked for blocks %v: got %d blocks, %d of them are known here", o.Refs, len(got), len(want))
	case "bad":
		x.bad(o, r)
		x.settle(o, o.P, o.Up, false)
	case "serve":
		d := []byte(fmt.Sprintf("ask %d", x.seq))
		c := map[string]p2p.P2PCommandOp{"minorblocks": p2p.GetMinorBlockListRequestMsg, "minorheads": p2p.GetMinorBlockHeaderListRequestMsg, "minorskip": p2p.GetMinorBlockHeaderListWithSkipRequestMsg}[o.Kind]
		rc := map[string]p2p.P2PCommandOp{"minorblocks": p2p.GetMinorBlockListResponseMsg, "minorheads": p2p.GetMinorBlockHeaderListResponseMsg, "minorskip": p2p.GetMinorBlockHeaderListWithSkipResponseMsg}[o.Kind]
		x.setErr(o.hostErr())
		if o.Up {
			a := x.request(r, c, shard(o.B), d)
			if rep.Check(a != nil, P, "no answer to %s for shard %d", o.Kind, shard(o.B)) {
				rep.Check(a.Op == rc && a.MetaData.Branch == shard(o.B) && bytes.Equal(a.Data, append([]byte(o.Kind+" for "), d...)), P, "the answer to %s for shard %d is not the host's", o.Kind, shard(o.B))
			}
		} else {
			r.send(c, shard(o.B), 2, d)
		}
		x.forwarded(o, o.Kind, r.id, shard(o.B), d, o.Up || o.B != 9, false)
		x.settle(o, o.P, o.Up, true)
	case "grow", "switch":
		if o.Op == "grow" {
			parent := ref{o.Block.B, o.Block.H - 1}
			if x.blocks[parent] == nil {
				parent.B = "m"
			}
			x.addBlock(o.Block, parent)
		} else {
			b := "m"
			if o.Onside {
				b = "s"
			}
			var top int
			json.Unmarshal(o.Top, &top)
			for h := o.From + 1; h <= top; h++ {
				x.addBlock(ref{b, h}, ref{b, h - 1})
			}
		}
		if !x.pm.ZzDrain(x.bc.Genesis()) {
			time.Sleep(20 * time.Millisecond)
		}
		x.told("tip", o.Told, fmt.Sprintf("0:%x", ser(&p2p.Tip{RootBlockHeader: x.top().Header()})))
	case "leave":
		r.rw.Close()
		x.settle(o, o.P, false, false)
	case "relay":
		d := []byte(fmt.Sprintf("relay %d", x.seq))
		src := "someone else"
		if o.Known {
			src = r.id
		}
		q := &rpc.P2PRedirectRequest{PeerID: src, Branch: shard(o.B), Data: d}
		if o.Kind == "block" {
			rep.Check(x.api.BroadcastMinorBlock(q) == nil, P, "relaying a block failed")
		} else if x.seq%2 == 0 {
			x.api.BroadcastTransactions(q, src)
		} else {
			x.pm.BroadcastTransactions(q, src)
		}
		x.told(o.Kind, o.To, fmt.Sprintf("%d:%x", q.Branch, d))
	case "announce":
		rh, mh := rootHeader(o.Tip), minorHeader(o.Tip, o.B)
		rep.Check(x.api.BroadcastNewTip(shard(o.B), rh, []*types.MinorBlockHeader{mh}) == nil, P, "announcing a shard tip failed")
		x.told("tip", o.Told, fmt.Sprintf("%d:%x", shard(o.B), ser(&p2p.Tip{RootBlockHeader: rh, MinorBlockHeaderList: []*types.MinorBlockHeader{mh}})))
	case "ask":
		x.ask(o, r)
		x.settle(o, o.P, true, false)
	default:
		rep.Err("unknown op %s", o.Op)
	}
}

func (x *run) bad(o *op, r *remote) {
	skip := func(f func(*p2p.GetRootBlockHeaderListWithSkipRequest)) {
		q := p2p.GetRootBlockHeaderListWithSkipRequest{Limit: 1}
		q.SetHeight(0)
		f(&q)
		r.send(p2p.GetRootBlockHeaderListWithSkipRequestMsg, 0, 3, ser(&q))
	}
	walk := func(q p2p.GetRootBlockHeaderListRequest) {
		r.send(p2p.GetRootBlockHeaderListRequestMsg, 0, 3, ser(&q))
	}
	g := x.bc.Genesis().Hash()
	switch o.Kind {
	case "hello":
		r.send(p2p.Hello, 0, 0, nil)
	case "op":
		r.send(p2p.P2PCommandOp(200), 0, 5, []byte{1})
	case "short":
		r.rw.WriteMsg(p2p.Msg{Size: 5, Payload: bytes.NewReader([]byte{0, 0, 0, 0, 1})})
	case "garbage":
		r.send([]p2p.P2PCommandOp{p2p.NewTipMsg, p2p.GetRootBlockHeaderListRequestMsg, p2p.GetRootBlockHeaderListResponseMsg, p2p.GetRootBlockListRequestMsg, p2p.GetRootBlockListResponseMsg,
			p2p.GetRootBlockHeaderListWithSkipRequestMsg, p2p.GetRootBlockHeaderListWithSkipResponseMsg}[x.seq%7], 0, 5, []byte{0, 0, 0xff, 1, 0xff})
	case "newroot":
		r.send(p2p.NewRootBlockMsg, 0, 0, ser(&p2p.NewRootBlockCommand{Block: x.top()}))
	case "ping":
		r.send(p2p.Ping, 0, 0, make([]byte, 32))
	case "peers":
		r.send(p2p.GetPeerListRequestMsg, 0, 1, []byte{0, 0, 0, 1})
	case "limit0":
		skip(func(q *p2p.GetRootBlockHeaderListWithSkipRequest) { q.Limit = 0 })
	case "limitbig":
		skip(func(q *p2p.GetRootBlockHeaderListWithSkipRequest) { q.Limit = 1001 })
	case "dir":
		skip(func(q *p2p.GetRootBlockHeaderListWithSkipRequest) { q.Direction = 2 })
	case "type":
		skip(func(q *p2p.GetRootBlockHeaderListWithSkipRequest) { q.Type = 2 })
	case "walkdir":
		walk(p2p.GetRootBlockHeaderListRequest{BlockHash: g, Limit: 1, Direction: 1})
	case "walkhash":
		walk(p2p.GetRootBlockHeaderListRequest{BlockHash: x.id(ref{"x", 1}), Limit: 1})
	case "walklimit":
		walk(p2p.GetRootBlockHeaderListRequest{BlockHash: g, Limit: []uint32{0, 1001}[x.seq%2]})
	case "manyblocks":
		r.send(p2p.GetRootBlockListRequestMsg, 0, 3, ser(&p2p.GetRootBlockListRequest{RootBlockHashList: make([]common.Hash, 2*qsync.RootBlockBatchSize+1)}))
	case "stray":
		r.send(p2p.GetRootBlockHeaderListResponseMsg, 0, 1<<41, ser(&p2p.GetRootBlockHeaderListResponse{RootTip: x.top().Header()}))
		r.send(p2p.GetMinorBlockListResponseMsg, 0, 1<<41, []byte{1})
	default:
		x.rep.Err("unknown kind %s", o.Kind)
	}
}

// ask makes the node ask the peer, and the peer answer.
func (x *run) ask(o *op, r *remote) {
	p := x.pm.ZzPeer(r.id)
	if !x.rep.Check(p != nil, P, "a connected peer is not in the peer set") {
		return
	}
	r.mu.Lock()
	r.asked = nil
	r.mu.Unlock()
	data := []byte(fmt.Sprintf("ask %d", x.seq))
	q := &rpc.P2PRedirectRequest{PeerID: r.id, Branch: shard(1), Data: data}
	res := make(chan string, 1)
	heads := []*types.RootBlockHeader{x.top().Header(), x.bc.Genesis().Header()}
	blocks := []*types.RootBlock{x.top()}
	answer := []byte(fmt.Sprintf("answer %d", x.seq))
	var want string
	right, wrong := p2p.GetMinorBlockListResponseMsg, p2p.GetRootBlockListResponseMsg
	wdata := ser(&p2p.GetRootBlockListResponse{RootBlockList: blocks})
	str := func(b []byte, err error) string { return fmt.Sprintf("%x %v", b, err == nil) }
	want = str(answer, nil)
	var call func() string
	var req p2p.P2PCommandOp
	switch o.Kind {
	case "rootheads":
		answer = ser(&p2p.GetRootBlockHeaderListResponse{RootTip: heads[0], BlockHeaderList: heads})
		right, req = p2p.GetRootBlockHeaderListWithSkipResponseMsg, p2p.GetRootBlockHeaderListWithSkipRequestMsg
		k := &p2p.GetRootBlockHeaderListWithSkipRequest{Limit: 2, Skip: 3, Direction: 1}
		data = ser(k)
		want = str(answer, nil)
		call = func() string {
			l, err := p.GetRootBlockHeaderList(k)
			if err != nil {
				return str(nil, err)
			}
			return str(ser(l), nil)
		}
	case "rootblocks":
		answer = wdata
		right, wrong, wdata, req = p2p.GetRootBlockListResponseMsg, p2p.GetMinorBlockListResponseMsg, []byte{1, 2, 3}, p2p.GetRootBlockListRequestMsg
		hs := []common.Hash{blocks[0].Hash()}
		data = ser(&p2p.GetRootBlockListRequest{RootBlockHashList: hs})
		want = str(answer, nil)
		call = func() string {
			l, err := p.GetRootBlockList(hs)
			if err != nil {
				return str(nil, err)
			}
			return str(ser(&p2p.GetRootBlockListResponse{RootBlockList: l}), nil)
		}
	case "minorblocks":
		req = p2p.GetMinorBlockListRequestMsg
		call = func() string { return str(x.api.GetMinorBlockList(q)) }
	case "minorheads":
		right, req = p2p.GetMinorBlockHeaderListResponseMsg, p2p.GetMinorBlockHeaderListRequestMsg
		call = func() string { return str(x.api.GetMinorBlockHeaderList(q)) }
	case "minorskip":
		right, req = p2p.GetMinorBlockHeaderListWithSkipResponseMsg, p2p.GetMinorBlockHeaderListWithSkipRequestMsg
		call = func() string { return str(x.api.GetMinorBlockHeaderListWithSkip(q)) }
	}
	rep := x.rep
	go func() {
		s := "it panicked"
		rep.Guard(P, func() { s = call() })
		res <- s
	}()
	var m p2p.QKCMsg
	if !rep.Check(wait(func() bool {
		r.mu.Lock()
		defer r.mu.Unlock()
		if len(r.asked) > 0 {
			m = r.asked[0]
		}
		return len(r.asked) > 0
	}), P, "%s: the peer was not asked", o.Kind) {
		return
	}
	rep.Check(m.Op == req && bytes.Equal(m.Data, data) && (m.MetaData.Branch == q.Branch || o.Kind[0] == 'r'), P, "%s: the peer was asked something else", o.Kind)
	switch o.Reply {
	case "right":
		r.send(right, m.MetaData.Branch, m.RpcID, answer)
	case "wrong":
		r.send(wrong, m.MetaData.Branch, m.RpcID, wdata)
	case "twice":
		for i := 0; i < 40; i++ {
			if r.send(right, m.MetaData.Branch, m.RpcID, answer) != nil {
				break
			}
		}
	}
	select {
	case s := <-res:
		if o.Reply == "wrong" {
			rep.Check(s == str(nil, errors.New("")), P, "%s: an answer of another kind was taken: %s", o.Kind, cut(s))
		} else {
			rep.Check(s == want, P, "%s: the peer's answer did not come back as sent: %s", o.Kind, cut(s))
		}
	case <-time.After(20 * time.Second):
		rep.V(P, "%s: no answer came back", o.Kind)
	}
}

func trace(raw json.RawMessage, rep *w.Rep) {
	var ops []op
	if err := json.Unmarshal(raw, &ops); err != nil {
		rep.Err("bad trace: %v", err)
		return
	}
	c := w.NewCfg(w.Opts{Chains: 2, Shards: 1})
	// a fixed key, so that making the manager needs no randomness
	c.P2P.PrivKey = "b71c71a67e1177ad4e901695e1b4b9ee17ae16c6668d313eac2f96dbcda3f291"
	wd := &world{}
	cs := &conns{[]*host{{w: wd, name: "A", shards: []uint32{shard(1)}}, {w: wd, name: "B", shards: []uint32{shard(1), shard(2)}}}}
	x := &run{rep: rep, cfg: c, wd: wd, cs: cs, peers: map[int]*remote{}, blocks: map[ref]*types.RootBlock{}}
	x.bc = w.NewRoot(c, ethdb.NewMemDatabase(), nil)
	defer w.StopAll(x.bc)
	x.blocks[ref{"m", 0}] = x.bc.Genesis()
	for i := range ops {
		o := &ops[i]
		rep.Step = i
		rep.Op(o.Op)
		if o.Op == "start" {
			for h := 1; h <= o.Main; h++ {
				x.addBlock(ref{"m", h}, ref{"m", h - 1})
			}
			for h := o.Fork + 1; h <= o.Side; h++ {
				b := "s"
				if h == o.Fork+1 {
					b = "m"
				}
				x.addBlock(ref{"s", h}, ref{b, h - 1})
			}
			pm, err := master.NewProtocolManager(*c, x.bc, make(chan *rpc.ShardStatus, 1), &syncer{wd}, cs)
			if err != nil {
				rep.Err("manager: %v", err)
				return
			}
			x.pm = pm
			pm.Start(100)
			x.api = pm.ZzAPI()
			continue
		}
		x.step(o)
		if rep.Bad() {
			break
		}
	}
	// nobody was sent more than expected
	for _, r := range x.peers {
		if !rep.Bad() && !x.barrier(r) {
			rep.V(P, "a session of a peer that keeps the rules ended")
		}
		for _, k := range []string{"tip", "block", "txs"} {
			x.got(r, k, true)
		}
	}
	x.checkTasks()
	rep.Check(len(x.newCalls(0)) == 0, P, "hosts were called without reason")
	for _, r := range x.peers {
		r.rw.Close()
	}
	if x.pm != nil {
		done := make(chan bool)
		go func() { x.pm.Stop(); close(done) }()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			rep.V(P, "the manager does not stop")
		}
	}
}

func main() { w.Main(trace) }

func (x *run) insert(b *types.RootBlock) error {
	_, err := x.bc.InsertChain([]types.IBlock{b})
	return err
}
