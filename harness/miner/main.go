// Driver for Miner/MinerGen: replays schedules of control calls, environment
// changes and outcomes of block creation, sealing and insertion on the real
// miner, and decides whether calls return and the current tip gets worked on.
package main

import (
	"encoding/json"
	"errors"
	"math/big"
	"sync"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/miner"
	"github.com/QuarkChain/goquarkchain/cluster/service"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/w"
	"github.com/ethereum/go-ethereum/common"
)

type Op struct {
	Op   string `json:"op"`
	K    string `json:"k"`
	On   bool   `json:"on"`
	Ok   bool   `json:"ok"`
	Dead bool   `json:"dead"`
}

const (
	patience = 25 * time.Second        // far above the longest pause of the miner (3 s)
	gateWait = 4500 * time.Millisecond // how long a schedule waits for a loop to reach a gate
)

type sealing struct {
	block   types.IBlock
	results chan<- types.IBlock
	stop    <-chan struct{}
}

// node is the environment of one miner: chain, engine and the gates.
type node struct {
	mu      sync.Mutex
	tip     uint64
	syncing bool
	cok     bool
	open    bool // gates open: everything succeeds at once
	waiting map[string][]chan bool
	seals   []sealing
	refresh uint64
	refrN   int
	sealN   int
	m       *miner.Miner
	pending map[int]string
	callID  int
	ctx     *service.ServiceContext
}

func (n *node) gate(name string) (ok, isOpen bool) {
	n.mu.Lock()
	if n.open {
		n.mu.Unlock()
		return true, true
	}
	c := make(chan bool, 1)
	n.waiting[name] = append(n.waiting[name], c)
	n.mu.Unlock()
	ok = <-c
	n.mu.Lock()
	isOpen = n.open
	n.mu.Unlock()
	return ok, isOpen
}

// release lets the first caller waiting at a gate continue.
func (n *node) release(name string, ok bool) bool {
	end := time.Now().Add(gateWait)
	for {
		n.mu.Lock()
		if l := n.waiting[name]; len(l) > 0 {
			n.waiting[name] = l[1:]
			n.mu.Unlock()
			l[0] <- ok
			time.Sleep(time.Millisecond)
			return true
		}
		n.mu.Unlock()
		if time.Now().After(end) {
			return false
		}
		time.Sleep(time.Millisecond)
	}
}

func (n *node) openAll() {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.open = true
	for k, l := range n.waiting {
		for _, c := range l {
			c <- true
		}
		delete(n.waiting, k)
	}
}

// MinerAPI
func (n *node) GetDefaultCoinbaseAddress() account.Address { return account.Address{} }
func (n *node) CreateBlockToMine(addr *account.Address) (types.IBlock, *big.Int, uint64, error) {
	n.gate("create")
	n.mu.Lock()
	defer n.mu.Unlock()
	if !n.cok {
		return nil, nil, 1, errors.New("no block")
	}
	h := &types.MinorBlockHeader{Number: n.tip + 1, Difficulty: big.NewInt(1)}
	if addr != nil {
		h.Coinbase = *addr
	}
	return types.NewMinorBlockWithHeader(h, &types.MinorBlockMeta{}), big.NewInt(1), 1, nil
}
func (n *node) InsertMinedBlock(b types.IBlock) error {
	ok, _ := n.gate("insert")
	n.mu.Lock()
	defer n.mu.Unlock()
	if !ok || b.NumberU64() != n.tip+1 {
		return errors.New("not inserted")
	}
	n.tip++
	n.callLocked("tip")
	return nil
}
func (n *node) IsSyncing() bool { n.mu.Lock(); defer n.mu.Unlock(); return n.syncing }
func (n *node) GetTip() uint64  { n.mu.Lock(); defer n.mu.Unlock(); return n.tip }

// engine
type engine struct {
	consensus.Engine
	n *node
}

func (e *engine) SetThreads(int) {}
func (e *engine) Seal(_ consensus.ChainReader, b types.IBlock, _ *big.Int, _ uint64, results chan<- types.IBlock, stop <-chan struct{}) error {
	ok, _ := e.n.gate("seal")
	if !ok {
		return errors.New("sealing failed")
	}
	e.n.mu.Lock()
	defer e.n.mu.Unlock()
	e.n.sealN++
	e.n.seals = append(e.n.seals, sealing{b, results, stop})
	return nil
}
func (e *engine) RefreshWork(tip uint64) {
	e.n.mu.Lock()
	defer e.n.mu.Unlock()
	e.n.refresh = tip
	e.n.refrN++
}
func (e *engine) GetWork(account.Address) (*consensus.MiningWork, error) {
	return nil, consensus.ErrNoMiningWork
}
func (e *engine) SubmitWork(uint64, common.Hash, common.Hash, *[65]byte) bool { return false }
func (e *engine) Close() error                                                { return nil }

// active is the sealing of a block on the current tip that nobody interrupted.
func (n *node) active() (sealing, bool) {
	for i := len(n.seals) - 1; i >= 0; i-- {
		s := n.seals[i]
		stopped := false
		select {
		case <-s.stop:
			stopped = true
		default:
		}
		if !stopped {
			return s, true
		}
	}
	return sealing{}, false
}

func (n *node) onTip() bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	for _, s := range n.seals {
		select {
		case <-s.stop:
			continue
		default:
		}
		if s.block.NumberU64() == n.tip+1 {
			return true
		}
	}
	return false
}

func (n *node) callLocked(k string) {
	n.callID++
	id := n.callID
	n.pending[id] = k
	go func() {
		switch k {
		case "on":
			n.m.SetMining(true)
		case "off":
			n.m.SetMining(false)
		case "tip":
			n.m.HandleNewTip()
		case "is":
			n.m.IsMining()
		case "work":
			n.m.GetWork(&account.Address{FullShardKey: 7})
		}
		n.mu.Lock()
		delete(n.pending, id)
		n.mu.Unlock()
	}()
}

func (n *node) call(k string) {
	n.mu.Lock()
	if k == "tip" {
		n.tip++
	}
	n.callLocked(k)
	n.mu.Unlock()
	time.Sleep(300 * time.Microsecond)
}

func (n *node) setSync(on, dead bool) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.syncing = on && !dead
	if on && dead {
		n.ctx.SetTimestamp(time.Now().Add(-time.Hour))
	} else {
		n.ctx.SetTimestamp(time.Now())
	}
}

// until polls a condition.
func until(f func() bool) bool {
	end := time.Now().Add(patience)
	for !f() {
		if time.Now().After(end) {
			return f()
		}
		time.Sleep(2 * time.Millisecond)
	}
	return true
}

func (n *node) returned() bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	return len(n.pending) == 0
}

func (n *node) pend() string {
	n.mu.Lock()
	defer n.mu.Unlock()
	s := ""
	for _, k := range n.pending {
		s += " " + k
	}
	return s
}

func replay(raw json.RawMessage, rep *w.Rep) {
	var ops []Op
	if err := json.Unmarshal(raw, &ops); err != nil {
		rep.Err("trace: %v", err)
		return
	}
	ctx := &service.ServiceContext{}
	ctx.SetTimestamp(time.Now())
	n := &node{cok: true, waiting: map[string][]chan bool{}, pending: map[int]string{}, ctx: ctx}
	n.m = miner.New(ctx, n, &engine{n: n})
	const P = "M01"
	missed := 0
	gate := func(name string, ok bool) {
		if missed >= 3 {
			return
		}
		if !n.release(name, ok) {
			missed++
			rep.Op("unreached " + name)
		}
	}
	for i, o := range ops {
		rep.Step = i
		rep.Op(o.Op)
		switch o.Op {
		case "call":
			n.call(o.K)
		case "sync":
			n.setSync(o.On, o.Dead)
		case "cok":
			n.mu.Lock()
			n.cok = o.On
			n.mu.Unlock()
		case "create":
			gate("create", true)
		case "seal":
			gate("seal", o.Ok)
		case "insert":
			gate("insert", o.Ok)
		case "found":
			n.mu.Lock()
			s, ok := n.active()
			n.mu.Unlock()
			if ok {
				select {
				case s.results <- s.block:
				default:
				}
				time.Sleep(300 * time.Microsecond)
			}
		}
	}
	// From here on the environment is quiet and everything succeeds.
	rep.Step = len(ops)
	n.setSync(false, false)
	n.mu.Lock()
	n.cok = true
	n.mu.Unlock()
	n.openAll()
	settle := func(when string) bool {
		if !rep.Check(until(n.returned), P, "%s: control calls do not return:%s", when, n.pend()) {
			return false
		}
		if !n.m.IsMining() {
			return true
		}
		return rep.Check(until(n.onTip), P, "%s: mining is enabled but nothing is sealed on the current tip %d", when, n.GetTip())
	}
	if !settle("at the end of the schedule") {
		return
	}
	step := func(k, when string, mining bool) bool {
		rep.Step++
		before := n.refrN
		n.call(k)
		if !settle(when) || !rep.Check(n.m.IsMining() == mining, P, "%s: IsMining = %v", when, !mining) {
			return false
		}
		if k == "tip" {
			n.mu.Lock()
			defer n.mu.Unlock()
			return rep.Check(n.refrN > before && n.refresh >= n.tip, P, "%s: work on the previous tip was not withdrawn", when)
		}
		return true
	}
	m := n.m.IsMining()
	if !(step("tip", "after a new tip", m) && step("off", "after stopping", false) && step("on", "after starting again", true) &&
		step("tip", "after a new tip while mining", true) && step("is", "asking", true) && step("work", "fetching work", true)) {
		return
	}
	done := make(chan bool, 1)
	go func() { n.m.Stop(); done <- true }()
	select {
	case <-done:
	case <-time.After(patience):
		rep.V(P, "Stop does not return")
	}
}

func main() { w.Main(replay) }
