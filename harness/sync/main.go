// Driver for Sync and SyncSched: real synchronisation tasks against scripted
// peers.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"sync"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	qsync "github.com/QuarkChain/goquarkchain/cluster/sync"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/w"
	"github.com/ethereum/go-ethereum/common"
)

const P = "Y01"

type kase struct {
	Op       string `json:"op"`
	Root     bool   `json:"root"`
	L        int    `json:"l"`
	M        int    `json:"m"`
	K        int    `json:"k"`
	Heavier  bool   `json:"heavier"`
	Dev      string `json:"dev"`
	At       int    `json:"at"`
	Searches int    `json:"searches"`
	Fired    bool   `json:"fired"`
	Lo       int    `json:"lo"`
	Hi       int    `json:"hi"`
	Err      bool   `json:"err"`
	Skip     bool   `json:"skip"`
	Reach    bool   `json:"reach"`
}

// hd is a header of either kind with its block made on demand.
type hd struct {
	h     types.IHeader
	hash  common.Hash
	minor []*types.MinorBlockHeader // of a root block
}

func (x *hd) block() types.IBlock {
	if r, ok := x.h.(*types.RootBlockHeader); ok {
		return types.NewRootBlock(r, x.minor, nil)
	}
	return types.NewMinorBlockWithHeader(x.h.(*types.MinorBlockHeader), &types.MinorBlockMeta{GasUsed: new(serialize.Uint256), XShardGasLimit: new(serialize.Uint256), CrossShardGasUsed: new(serialize.Uint256), XShardTxCursorInfo: &types.XShardTxCursorInfo{}})
}

const branch = 1<<16 | 1

func mk(root bool, n int, parent common.Hash, salt uint64) *hd {
	if root {
		h := &types.RootBlockHeader{Number: uint32(n), ParentHash: parent, Difficulty: big.NewInt(10), ToTalDifficulty: big.NewInt(int64(1000 + 10*n)), Time: salt,
			CoinbaseAmount: types.NewEmptyTokenBalances()}
		x := &hd{h: h}
		if n%4 != 0 && n < 1<<20 { // most root blocks confirm blocks of two shards
			for i := 0; i < n%4; i++ {
				x.minor = append(x.minor, &types.MinorBlockHeader{Number: uint64(n), Branch: account.Branch{Value: uint32(i%2)<<16 | 1}, Time: salt + uint64(i), Difficulty: big.NewInt(1), CoinbaseAmount: types.NewEmptyTokenBalances()})
			}
			h.MinorHeaderHash = types.CalculateMerkleRoot(types.MinorBlockHeaders(x.minor))
		}
		if len(x.minor) == 0 {
			h.MinorHeaderHash = types.EmptyHash
		}
		x.hash = h.Hash()
		return x
	}
	h := &types.MinorBlockHeader{Number: uint64(n), Branch: account.Branch{Value: branch}, ParentHash: parent, Difficulty: big.NewInt(10), Time: salt, CoinbaseAmount: types.NewEmptyTokenBalances()}
	return &hd{h: h, hash: h.Hash()}
}

// the chain every case shares, as long as any case needs it
var (
	sharedMu sync.Mutex
	shared   = map[bool][]*hd{}
)

func prefix(root bool, n int) []*hd {
	sharedMu.Lock()
	defer sharedMu.Unlock()
	s := shared[root]
	for len(s) <= n {
		p := common.Hash{}
		if len(s) > 0 {
			p = s[len(s)-1].hash
		}
		s = append(s, mk(root, len(s), p, 1))
	}
	shared[root] = s
	return s[: n+1 : n+1]
}

// chain is what the task synchronises.
type chain struct {
	mu     sync.Mutex
	rep    *w.Rep
	root   bool
	tip    types.IHeader
	known  map[common.Hash]bool
	shared func(common.Hash) bool
	bad    map[common.Hash]bool // seals that do not hold
	fail   common.Hash          // adding this block fails
	added  []int
	hashes []common.Hash
	minors map[common.Hash]bool // shard blocks downloaded
	failed bool
}

func (c *chain) HasBlock(h common.Hash) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.known[h]
}
func (c *chain) CurrentHeader() types.IHeader { return c.tip }
func (c *chain) Validator() core.Validator    { return (*validator)(c) }
func (c *chain) AddBlock(b types.IBlock) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	h := b.IHeader()
	c.rep.Check(c.known[h.GetParentHash()], P, "block %d was handed to the chain before its parent was known", h.NumberU64())
	if c.failed {
		c.rep.V(P, "block %d was handed to the chain after the chain refused an earlier one", h.NumberU64())
	}
	if r, ok := b.(*types.RootBlock); ok {
		for _, m := range r.MinorBlockHeaders() {
			c.rep.Check(c.minors[m.Hash()], P, "root block %d was handed to the chain before the shard block %d of shard %x it confirms was downloaded", h.NumberU64(), m.Number, m.Branch.Value)
		}
	}
	if b.Hash() == c.fail {
		c.failed = true
		return errors.New("refused")
	}
	c.known[b.Hash()] = true
	c.added = append(c.added, int(h.NumberU64()))
	c.hashes = append(c.hashes, b.Hash())
	return nil
}
func (c *chain) AddValidatedMinorBlockHeader(h common.Hash, t *types.TokenBalances) {}
func (c *chain) IsMinorBlockValidated(h common.Hash) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.minors[h]
}

type validator chain

func (v *validator) ValidateBlock(types.IBlock, bool) error { return nil }
func (v *validator) ValidateState(a, b types.IBlock, s *state.StateDB, r types.Receipts, g uint64) error {
	return nil
}
func (v *validator) ValidateSeal(h types.IHeader, posw bool) error {
	if v.bad[h.Hash()] {
		return errors.New("bad seal")
	}
	return nil
}

// conns downloads the shard blocks a root block confirms.
type conns struct {
	c    *chain
	fail common.Hash
}

func (s *conns) GetOneSlaveConnById(id uint32) rpc.ISlaveConn { return &conn{s: s, id: id} }
func (s *conns) GetSlaveConnsById(id uint32) []rpc.ISlaveConn {
	return []rpc.ISlaveConn{&conn{s: s, id: id}}
}
func (s *conns) GetSlaveConns() []rpc.ISlaveConn { return []rpc.ISlaveConn{&conn{s: s}} }
func (s *conns) ConnCount() int                  { return 1 }

type conn struct {
	rpc.ISlaveConn
	s  *conns
	id uint32
}

func (x *conn) AddBlockListForSync(r *rpc.AddBlockListForSyncRequest) (*rpc.ShardStatus, error) {
	c := x.s.c
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rep.Check(r.Branch == x.id && r.PeerId == "peer", P, "shard blocks of %x were asked of the host of %x (peer %q)", r.Branch, x.id, r.PeerId)
	for _, h := range r.MinorBlockHashList {
		if h == x.s.fail {
			c.failed = true
			return nil, errors.New("shard blocks refused")
		}
	}
	for _, h := range r.MinorBlockHashList {
		c.minors[h] = true
	}
	return &rpc.ShardStatus{}, nil
}

// peer answers requests from its chain, and once deviates.
type peer struct {
	k       kase
	c       *chain
	s       *conns
	rep     *w.Rep
	id      string
	chain   []*hd
	other   []*hd // another chain of the same heights, sharing nothing
	tip     *hd
	headReq int
	blkReq  int
	reqs    int
	byHash  map[common.Hash]*hd
	indexed int
	fired   bool
	badLow  int // nothing at or above this height of the deviating answer may be taken
	gate    chan struct{}
	began   func()
}

func (p *peer) PeerID() string                   { return p.id }
func (p *peer) RootHead() *types.RootBlockHeader { return p.tip.h.(*types.RootBlockHeader) }
func (p *peer) at(h int) *hd                     { return p.chain[h] }
func (p *peer) foreign(h int) *hd {
	for len(p.other) <= h {
		par := common.Hash{9}
		if n := len(p.other); n > 0 {
			par = p.other[n-1].hash
		}
		p.other = append(p.other, mk(p.k.Root, len(p.other), par, 77))
	}
	return p.other[h]
}

var errPeer = errors.New("no answer")

// headers answers a request for headers; light: the tip reported is lighter than the announced one.
func (p *peer) headers(start, skip, limit int) (out []*hd, light bool, err error) {
	if p.gate != nil {
		p.began()
		<-p.gate
		return nil, false, errPeer
	}
	p.reqs++
	if p.reqs > 20000 {
		p.rep.V(P, "the attempt does not end: more than 20000 requests")
		return nil, false, errPeer
	}
	p.headReq++
	p.grow()
	phase, n := "search", p.headReq
	if p.headReq > p.k.Searches {
		phase, n = "head", p.headReq-p.k.Searches
	}
	for h := start; h >= 0 && h < len(p.chain) && len(out) < limit; h += skip + 1 {
		out = append(out, p.at(h))
	}
	d := p.k.Dev
	if p.fired || n != p.k.At || len(d) < len(phase) || d[:len(phase)] != phase || len(out) == 0 {
		return out, false, nil
	}
	p.fired, p.badLow = true, start
	last := len(out) - 1
	lastNo := int(out[last].h.NumberU64())
	switch d[len(phase)+1:] {
	case "error":
		return nil, false, errPeer
	case "empty":
		return nil, false, nil
	case "short":
		out = out[:last]
	case "long":
		out = append(out, p.foreign(lastNo+1))
	case "range":
		out = append(append([]*hd{}, out[:last]...), mk(p.k.Root, lastNo+p.k.L+p.k.M+5, common.Hash{8}, 6))
	case "order":
		if last > 0 {
			o := append([]*hd{}, out...)
			o[last], o[last-1] = o[last-1], o[last]
			out = o
		}
	case "light":
		light = true
	case "fake":
		o := make([]*hd, len(out))
		for i := range out {
			o[i] = p.foreign(int(out[i].h.NumberU64()))
		}
		out = o
	case "unlinked": // one header (not the first, if there are several) is another chain's
		o := append([]*hd{}, out...)
		o[(last+1)/2] = p.foreign(int(out[(last+1)/2].h.NumberU64()))
		out = o
	case "seal":
		p.c.bad[out[last/2].hash] = true
	case "other":
		o := make([]*hd, len(out))
		for i := range out {
			o[i] = p.foreign(int(out[i].h.NumberU64()))
		}
		out = o
	case "gap": // linked headers whose heights do not follow each other
		o := append([]*hd{}, out...)
		if last == 0 {
			o[0] = mk(p.k.Root, start, common.Hash{7}, 5)
		} else {
			i := (last + 1) / 2
			for j := i; j <= last; j++ {
				o[j] = mk(p.k.Root, start+j+1, o[j-1].hash, 5)
			}
		}
		out = o
	default:
		p.rep.Err("unknown deviation %s", d)
	}
	return out, light, nil
}

func (p *peer) grow() {
	if p.k.Dev == "grow" && len(p.chain)-1 < p.k.M+p.k.At {
		n := len(p.chain)
		p.chain = append(p.chain, mk(p.k.Root, n, p.chain[n-1].hash, 3))
		p.tip = p.chain[n]
	}
}

func (p *peer) blocks(hashes []common.Hash) (out []types.IBlock, err error) {
	p.blkReq++
	p.reqs++
	if p.reqs > 20000 {
		p.rep.V(P, "the attempt does not end: more than 20000 requests")
		return nil, errPeer
	}
	for ; p.indexed < len(p.chain); p.indexed++ {
		if p.byHash == nil {
			p.byHash = map[common.Hash]*hd{}
		}
		p.byHash[p.chain[p.indexed].hash] = p.chain[p.indexed]
	}
	var hs []*hd
	for _, h := range hashes {
		if x := p.byHash[h]; x != nil {
			hs = append(hs, x)
			out = append(out, x.block())
		}
	}
	if !p.rep.Check(len(hs) == len(hashes), P, "blocks were asked for which the peer never mentioned") {
		return out, nil
	}
	for i, x := range hs {
		p.rep.Check(out[i].Hash() == x.hash, P, "harness: block hash")
	}
	d := p.k.Dev
	if p.fired || p.blkReq != p.k.At || len(hs) == 0 {
		return out, nil
	}
	mid := len(hs) / 2
	no := int(hs[0].h.NumberU64())
	p.badLow = no
	switch d {
	case "block-error":
		p.fired = true
		return nil, errPeer
	case "block-empty":
		p.fired = true
		return nil, nil
	case "block-short":
		p.fired = true
		return append(append([]types.IBlock{}, out[:mid]...), out[mid+1:]...), nil
	case "block-long":
		p.fired = true
		return append(out, p.foreign(no+len(hs)).block()), nil
	case "block-swap":
		p.fired = true
		if len(out) > 1 {
			out[0], out[len(out)-1] = out[len(out)-1], out[0]
		} else {
			out[0] = p.foreign(no).block()
		}
	case "block-other":
		p.fired = true
		out[mid] = p.foreign(no + mid).block()
	case "block-known": // blocks this node has already
		p.fired = true
		for i := range out {
			b := p.chain[max(0, no-1-i)].block()
			if !p.c.known[b.Hash()] {
				b = p.foreign(no + i).block()
			}
			out[i] = b
		}
	case "add-fails":
		p.fired = true
		p.badLow = no + mid
		p.c.fail = hs[mid].hash
	case "minor-fails":
		p.fired = true
		p.badLow = no + mid
		if len(hs[mid].minor) > 0 {
			p.s.fail = hs[mid].minor[len(hs[mid].minor)-1].Hash()
		} else {
			p.c.fail = hs[mid].hash
		}
	}
	return out, nil
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (p *peer) reported(light bool) *types.RootBlockHeader {
	h := *p.tip.h.(*types.RootBlockHeader)
	if light {
		h.ToTalDifficulty = new(big.Int).Sub(h.ToTalDifficulty, big.NewInt(1))
	}
	return &h
}

// the two peer interfaces
type rootPeer struct{ *peer }

func (p rootPeer) GetRootBlockHeaderList(r *p2p.GetRootBlockHeaderListWithSkipRequest) (*p2p.GetRootBlockHeaderListResponse, error) {
	if p.gate == nil && !p.rep.Check(r.GetHeight() != nil && r.Direction == 1, P, "request of an unknown kind") {
		return nil, errPeer
	}
	out, light, err := p.headers(int(*r.GetHeight()), int(r.Skip), int(r.Limit))
	if err != nil {
		return nil, err
	}
	resp := &p2p.GetRootBlockHeaderListResponse{RootTip: p.reported(light)}
	for _, x := range out {
		resp.BlockHeaderList = append(resp.BlockHeaderList, x.h.(*types.RootBlockHeader))
	}
	return resp, nil
}
func (p rootPeer) GetRootBlockList(hashes []common.Hash) ([]*types.RootBlock, error) {
	bs, err := p.blocks(hashes)
	var out []*types.RootBlock
	for _, b := range bs {
		out = append(out, b.(*types.RootBlock))
	}
	return out, err
}

type minorPeer struct{ *peer }

func (p minorPeer) GetMinorBlockHeaderList(r *rpc.GetMinorBlockHeaderListWithSkipRequest) ([]*types.MinorBlockHeader, error) {
	if p.gate == nil && !p.rep.Check(r.GetHeight() != nil && r.Direction == 1 && r.Branch.Value == branch && r.PeerID == p.id, P, "request of an unknown kind, of another branch or of another peer") {
		return nil, errPeer
	}
	out, _, err := p.headers(int(*r.GetHeight()), int(r.Skip), int(r.Limit))
	if err != nil {
		return nil, err
	}
	var resp []*types.MinorBlockHeader
	for _, x := range out {
		resp = append(resp, x.h.(*types.MinorBlockHeader))
	}
	return resp, nil
}
func (p minorPeer) GetMinorBlockList(hashes []common.Hash, b uint32) ([]*types.MinorBlock, error) {
	p.rep.Check(b == branch, P, "blocks asked of branch %x", b)
	bs, err := p.blocks(hashes)
	var out []*types.MinorBlock
	for _, b := range bs {
		out = append(out, b.(*types.MinorBlock))
	}
	return out, err
}

func (p *peer) task(header types.IHeader) qsync.Task {
	if p.k.Root {
		status := make(chan *rpc.ShardStatus)
		go func() {
			for range status {
			}
		}()
		return qsync.NewRootChainTask(rootPeer{p}, header.(*types.RootBlockHeader), &qsync.BlockSychronizerStats{}, status, p.s)
	}
	return qsync.NewMinorChainTask(minorPeer{p}, header.(*types.MinorBlockHeader))
}

func attempt(k kase, rep *w.Rep) {
	rep.Op(k.Dev)
	c := &chain{rep: rep, root: k.Root, known: map[common.Hash]bool{}, bad: map[common.Hash]bool{}, minors: map[common.Hash]bool{}}
	s := &conns{c: c}
	p := &peer{k: k, c: c, s: s, rep: rep, id: "peer", badLow: 1 << 30}
	// the peer's chain: shared up to K
	if k.K >= 0 {
		p.chain = append([]*hd{}, prefix(k.Root, k.K)...)
	}
	for len(p.chain) <= k.M {
		par := common.Hash{1}
		if n := len(p.chain); n > 0 {
			par = p.chain[n-1].hash
		}
		p.chain = append(p.chain, mk(k.Root, len(p.chain), par, 2))
	}
	p.tip = p.chain[k.M]
	for i := 0; i <= k.K; i++ {
		c.known[p.chain[i].hash] = true
	}
	// this node's own tip
	if k.L <= k.K {
		c.tip = p.chain[k.L].h
	} else {
		c.tip = mk(k.Root, k.L, common.Hash{3}, 4).h
	}
	if h, ok := c.tip.(*types.RootBlockHeader); ok && k.L > k.K {
		h.ToTalDifficulty = new(big.Int).Set(p.tip.h.GetTotalDifficulty())
		if k.Heavier {
			h.ToTalDifficulty.Sub(h.ToTalDifficulty, big.NewInt(1))
		} else if k.L%2 == 0 {
			h.ToTalDifficulty.Add(h.ToTalDifficulty, big.NewInt(1))
		}
	}
	c.known[c.tip.Hash()] = true
	var err error
	if !rep.Guard(P, func() { err = p.task(p.tip.h).Run(c) }) {
		return
	}
	lo, hi := -2, -2
	for i, h := range c.added {
		if i == 0 {
			lo = h
		} else if h != hi+1 {
			rep.V(P, "block %d was taken right after block %d", h, hi)
		}
		hi = h
	}
	on := func(i int) bool { return c.added[i] < len(p.chain) && p.chain[c.added[i]].hash == c.hashes[i] }
	for i := range c.added {
		if !on(i) {
			rep.V(P, "a block at height %d that is not of the peer's chain was taken", c.added[i])
			break
		}
	}
	what := fmt.Sprintf("(own tip %d, peer's tip %d, shared up to %d, deviation %s at %d)", k.L, k.M, k.K, k.Dev, k.At)
	switch {
	case k.Skip:
		rep.Check(err == nil && len(c.added) == 0, P, "nothing to synchronise, but result %v and %d blocks taken %s", err, len(c.added), what)
	case k.Dev == "search-fake" || k.Dev == "search-order":
		if err == nil && p.fired {
			rep.Check(hi == k.M, P, "ended without error at %d instead of the peer's tip %s", hi, what)
		}
		if !p.fired {
			rep.Check((err != nil) == k.Err && lo == k.Lo && hi == k.Hi, P, "result %v with blocks %d..%d, want error %v and %d..%d %s", err, lo, hi, k.Err, k.Lo, k.Hi, what)
		}
	case k.Dev == "grow":
		if k.Err {
			rep.Check(err != nil && len(c.added) == 0, P, "no common ancestor within reach, but result %v and %d blocks taken %s", err, len(c.added), what)
		} else {
			rep.Check(err == nil && hi >= k.M && hi <= k.M+k.At && lo <= k.K+1, P, "result %v with blocks %d..%d, want %d..%d to %d %s", err, lo, hi, k.K+1, k.M, k.M+k.At, what)
		}
	case p.fired:
		rep.Check(err != nil, P, "the deviation was not noticed: no error, blocks %d..%d %s", lo, hi, what)
		rep.Check(hi < p.badLow, P, "blocks up to %d were taken although the answer from %d on deviates (result %v) %s", hi, p.badLow, err, what)
	default:
		rep.Check(k.Fired == p.fired, P, "the attempt ended before the deviation: result %v, blocks %d..%d %s", err, lo, hi, what)
		rep.Check((err != nil) == k.Err && lo == k.Lo && hi == k.Hi, P, "result %v with blocks %d..%d, want error %v and %d..%d %s", err, lo, hi, k.Err, k.Lo, k.Hi, what)
	}
}

// sched replays a history of the task queue.
func sched(ops []json.RawMessage, root bool, rep *w.Rep) {
	rep.Op("sched")
	c := &chain{rep: rep, root: root, known: map[common.Hash]bool{}}
	c.tip = mk(root, 0, common.Hash{}, 1).h
	c.known[c.tip.Hash()] = true
	sy := qsync.NewSynchronizer(c)
	var mu sync.Mutex
	var started []int
	gates := map[int]chan struct{}{}
	running := 0
	// the specification starts one of several equals; if the code starts another, the two swap names from then on
	peerOf, idOf := map[string]string{}, map[int]int{}
	pn := func(p string) string {
		if q, ok := peerOf[p]; ok {
			return q
		}
		return p
	}
	idn := func(i int) int {
		if j, ok := idOf[i]; ok {
			return j
		}
		return i
	}
	wait := func(f func() bool) bool {
		for i := 0; i < 4000; i++ {
			mu.Lock()
			ok := f()
			mu.Unlock()
			if ok {
				return true
			}
			time.Sleep(50 * time.Microsecond * time.Duration(1+i/100))
		}
		return false
	}
	for i, raw := range ops {
		var o struct {
			Op   string `json:"op"`
			Peer string `json:"peer"`
			Id   int    `json:"id"`
			P    int    `json:"p"`
			Run  int    `json:"run"`
			Ties []struct {
				Peer string `json:"peer"`
				Id   int    `json:"id"`
			} `json:"ties"`
		}
		json.Unmarshal(raw, &o)
		rep.Step = i
		rep.Op(o.Op)
		switch o.Op {
		case "add":
			id, gate := o.Id, make(chan struct{})
			mu.Lock()
			gates[id] = gate
			mu.Unlock()
			p := &peer{k: kase{Root: root}, rep: rep, id: pn(o.Peer), gate: gate, s: &conns{c: c}}
			p.began = func() { mu.Lock(); started = append(started, id); mu.Unlock() }
			// priorities: total difficulty of root headers, height of shard headers
			h := mk(root, 5+o.P, common.Hash{5}, uint64(id))
			if root {
				h = mk(root, 5+(o.P*7)%13, common.Hash{5}, uint64(id))
				h.h.(*types.RootBlockHeader).ToTalDifficulty = big.NewInt(int64(5000 + o.P))
			}
			p.tip = h
			sy.AddTask(p.task(h.h))
		case "done":
			mu.Lock()
			g := gates[running]
			mu.Unlock()
			if g == nil {
				rep.V(P, "no task runs")
				return
			}
			close(g)
		}
		want := o.Run
		ok := wait(func() bool {
			if want == 0 {
				return true
			}
			if len(started) == 0 {
				return false
			}
			last := started[len(started)-1]
			if last == idn(want) {
				return true
			}
			for _, t := range o.Ties {
				if last == idn(t.Id) {
					for _, m := range o.Ties {
						if m.Id == want {
							peerOf[t.Peer], peerOf[m.Peer] = pn(m.Peer), pn(t.Peer)
						}
					}
					idOf[t.Id], idOf[want] = idn(want), idn(t.Id)
					rep.Op("swap")
					return true
				}
			}
			return false
		})
		mu.Lock()
		st := append([]int{}, started...)
		mu.Unlock()
		if !rep.Check(ok, P, "task %d should run now (of the equals %v), tasks started so far: %v", idn(want), o.Ties, st) {
			return
		}
		running = idn(want)
		if want != 0 {
			rep.Check(sy.IsSyncing(), P, "a task runs but the synchroniser says it is not synchronising")
		} else if !wait(func() bool { return !sy.IsSyncing() }) {
			rep.V(P, "no task is left but the synchroniser says it is synchronising")
		}
	}
	time.Sleep(300 * time.Microsecond)
	mu.Lock()
	seen := map[int]bool{}
	for _, x := range started {
		rep.Check(!seen[x], P, "task %d ran twice", x)
		seen[x] = true
	}
	mu.Unlock()
	done := make(chan struct{})
	go func() { sy.Close(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		rep.V(P, "the idle synchroniser does not stop")
	}
}

func main() {
	w.Main(func(raw json.RawMessage, rep *w.Rep) {
		rep.Prop = P
		var ops []json.RawMessage
		if json.Unmarshal(raw, &ops) == nil && len(ops) > 0 {
			var first kase
			json.Unmarshal(ops[0], &first)
			if first.Op == "sched" {
				sched(ops[1:], first.Root, rep)
				return
			}
		}
		var k kase
		if err := json.Unmarshal(raw, &k); err != nil {
			rep.Err("trace: %v", err)
			return
		}
		attempt(k, rep)
	})
}
