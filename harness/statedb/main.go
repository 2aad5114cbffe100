// Driver for StateDB.tla: replays generated operation sequences on the real
// state database and compares every readable value after them (S01).
package main

import (
	"encoding/json"
	"math/big"

	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/w"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb"
)

type acct struct {
	Ex bool
	N  uint64
	C  int
	B  []int64
	S  []int
	O  []int
	D  bool
}
type reads struct {
	Acc    []acct
	Refund uint64
	Logs   int
}
type op struct {
	Op         string
	I, X, T, V int
	E          reads
}

func addr(x int) common.Address { return common.BigToAddress(big.NewInt(int64(0xaa00 + x))) }
func tok(t int) uint64          { return uint64(t)*uint64(t)*7919 + 35760 }
func slot(k int) common.Hash    { return common.BigToHash(big.NewInt(int64(k - 1))) }
func val(v int) common.Hash     { return common.BigToHash(new(big.Int).Lsh(big.NewInt(int64(v)), 200)) }
func code(c int) []byte {
	if c == 0 {
		return nil
	}
	return []byte{0x60, byte(c), 0x60, 0}
}

var th = common.HexToHash("0x77")

type db struct {
	s      *state.StateDB
	sh     *state.StateDB // the same effective history, without anything rolled back
	pend   []op
	snaps  []int
	snapAt []int
	e      reads
	have   bool
	closed bool
}

// apply performs one plain operation.
func apply(s *state.StateDB, o op) {
	a := addr(o.X)
	switch o.Op {
	case "bal":
		s.SetBalance(a, big.NewInt(int64(o.V)), tok(o.T))
	case "add":
		s.AddBalance(a, big.NewInt(int64(o.V)), tok(o.T))
	case "sub":
		s.SubBalance(a, big.NewInt(int64(o.V)), tok(o.T))
	case "fill":
		for t := 1; t <= o.T; t++ {
			s.SetBalance(a, big.NewInt(int64(o.V)), tok(t))
		}
	case "nonce":
		s.SetNonce(a, uint64(o.V))
	case "code":
		s.SetCode(a, code(o.V))
	case "store":
		s.SetState(a, slot(o.T), val(o.V))
	case "create":
		s.CreateAccount(a)
		s.SetNonce(a, 1)
	case "kill":
		s.Suicide(a)
	case "refund":
		s.AddRefund(uint64(o.V))
	case "log":
		s.AddLog(&types.Log{Recipient: addr(1), Data: []byte{1}})
	}
}

func compare(rep *w.Rep, s *state.StateDB, e reads, what string) {
	for i, m := range e.Acc {
		a := addr(i + 1)
		if !rep.Check(s.Exist(a) == m.Ex, "S01", "%s: account %d exists %v, want %v", what, i+1, s.Exist(a), m.Ex) || !m.Ex {
			continue
		}
		all := s.GetBalances(a).GetBalanceMap()
		for t, b := range m.B {
			got := all[tok(t+1)]
			if got == nil {
				got = new(big.Int)
			}
			rep.Check(got.Cmp(big.NewInt(b)) == 0, "S01", "%s: account %d token %d in all balances %v, want %d", what, i+1, t+1, got, b)
		}
		empty := m.N == 0 && m.C == 0
		for t, b := range m.B {
			got := s.GetBalance(a, tok(t+1))
			rep.Check(got.Cmp(big.NewInt(b)) == 0, "S01", "%s: account %d token %d balance %v, want %d", what, i+1, t+1, got, b)
			if b > 0 {
				empty = false
			}
		}
		if !empty {
			rep.Check(!s.Empty(a), "S01", "%s: account %d counts as empty", what, i+1)
		}
		rep.Check(s.GetNonce(a) == m.N, "S01", "%s: account %d nonce %d, want %d", what, i+1, s.GetNonce(a), m.N)
		rep.Check(string(s.GetCode(a)) == string(code(m.C)), "S01", "%s: account %d code %x, want %x", what, i+1, s.GetCode(a), code(m.C))
		rep.Check(s.GetCodeHash(a) == crypto.Keccak256Hash(code(m.C)), "S01", "%s: account %d code hash differs", what, i+1)
		if m.C > 0 {
			rep.Check(s.GetCodeSize(a) == len(code(m.C)), "S01", "%s: account %d code size %d", what, i+1, s.GetCodeSize(a))
		}
		rep.Check(s.HasSuicided(a) == m.D, "S01", "%s: account %d destroyed %v, want %v", what, i+1, s.HasSuicided(a), m.D)
		for k, v := range m.S {
			rep.Check(s.GetState(a, slot(k+1)) == val(v), "S01", "%s: account %d storage %d is %x, want %d", what, i+1, k+1, s.GetState(a, slot(k+1)), v)
			rep.Check(s.GetCommittedState(a, slot(k+1)) == val(m.O[k]), "S01", "%s: account %d transaction-start storage %d is %x, want %d", what, i+1, k+1, s.GetCommittedState(a, slot(k+1)), m.O[k])
		}
	}
	rep.Check(s.GetRefund() == e.Refund, "S01", "%s: refund %d, want %d", what, s.GetRefund(), e.Refund)
	ls := s.GetLogs(th)
	rep.Check(len(ls) == e.Logs, "S01", "%s: %d logs, want %d", what, len(ls), e.Logs)
	for i, l := range ls {
		rep.Check(int(l.Index) == i, "S01", "%s: log %d has index %d", what, i, l.Index)
	}
}

func open(root common.Hash, d state.Database) (*state.StateDB, error) {
	s, err := state.New(root, d)
	if s != nil {
		s.Prepare(th, common.Hash{}, 0)
	}
	return s, err
}

func run(raw json.RawMessage, rep *w.Rep) {
	var ops []op
	if err := json.Unmarshal(raw, &ops); err != nil {
		rep.Err("%v", err)
		return
	}
	rep.Prop = "S01"
	disk := ethdb.NewMemDatabase()
	sdb := state.NewDatabase(disk)
	shd := state.NewDatabase(ethdb.NewMemDatabase()) // never pruned or restarted
	var roots []common.Hash
	var dbs []*db
	s0, _ := open(common.Hash{}, sdb)
	h0, _ := open(common.Hash{}, shd)
	dbs = append(dbs, &db{s: s0, sh: h0})
	always := len(raw)%2 == 0 // half of the traces read after every step, half only after the big ones

	// catch the shadow up with what was not rolled back
	flush := func(d *db) {
		for _, p := range d.pend {
			apply(d.sh, p)
		}
		d.pend = nil
	}
	for n, o := range ops {
		rep.Step = n
		rep.Op(o.Op)
		big := false
		if o.Op == "restart" {
			for _, d := range dbs {
				d.closed = true
			}
			sdb = state.NewDatabase(disk)
			s, err := open(roots[o.T-1], sdb)
			if !rep.Check(err == nil, "S01", "restart: opening committed root %d from disk: %v", o.T, err) {
				return
			}
			h, err := open(roots[o.T-1], shd)
			if err != nil {
				rep.Err("shadow: %v", err)
				return
			}
			dbs = append(dbs, &db{s: s, sh: h, e: o.E, have: true})
			compare(rep, s, o.E, "after restart")
			if rep.Bad() {
				return
			}
			continue
		}
		d := dbs[o.I-1]
		switch o.Op {
		case "snap":
			d.snaps = append(d.snaps, d.s.Snapshot())
			d.snapAt = append(d.snapAt, len(d.pend))
		case "revert":
			big = true
			d.s.RevertToSnapshot(d.snaps[o.T-1])
			d.pend = d.pend[:d.snapAt[o.T-1]]
			d.snaps, d.snapAt = d.snaps[:o.T-1], d.snapAt[:o.T-1]
		case "end":
			big = true
			r := d.s.IntermediateRoot(true)
			if d.sh != nil {
				flush(d)
				hr := d.sh.IntermediateRoot(true)
				rep.Check(r == hr, "S01", "end of transaction: root %x, without the rolled back work %x", r[:4], hr[:4])
			}
			d.snaps, d.snapAt, d.pend = nil, nil, nil
		case "commit":
			big = true
			r, err := d.s.Commit(true)
			if !rep.Check(err == nil, "S01", "commit: %v", err) {
				return
			}
			sdb.TrieDB().Reference(r, common.Hash{})
			if d.sh != nil {
				flush(d)
				hr, err := d.sh.Commit(true)
				if err != nil {
					rep.Err("shadow commit: %v", err)
					return
				}
				rep.Check(r == hr, "S01", "commit: root %x, without the rolled back work %x", r[:4], hr[:4])
			}
			if d.sh == nil { // a copy: bring the shadow database to the same contents
				if err := mirror(sdb, shd, r); err != nil {
					rep.Err("mirror: %v", err)
					return
				}
			}
			if o.V == 1 {
				if err := sdb.TrieDB().Commit(r, false); err != nil {
					rep.V("S01", "writing the committed state to disk: %v", err)
					return
				}
			}
			roots = append(roots, r)
			d.snaps, d.snapAt, d.pend = nil, nil, nil
		case "copy":
			big = true
			c := d.s.Copy()
			c.Prepare(th, common.Hash{}, 0)
			dbs = append(dbs, &db{s: c})
			compare(rep, c, o.E, "copy")
			dbs[len(dbs)-1].e, dbs[len(dbs)-1].have = o.E, true
			if rep.Bad() {
				return
			}
			continue
		case "open":
			big = true
			s, err := open(roots[o.T-1], sdb)
			if !rep.Check(err == nil, "S01", "opening committed root %d: %v", o.T, err) {
				return
			}
			h, err := open(roots[o.T-1], shd)
			if err != nil {
				rep.Err("shadow: %v", err)
				return
			}
			*d = db{s: s, sh: h}
		case "prune":
			big = true
			sdb.TrieDB().Dereference(roots[o.T-1])
		default:
			if o.Op == "log" {
				d.s.Prepare(th, common.Hash{}, 0)
			}
			apply(d.s, o)
			if d.sh != nil {
				d.pend = append(d.pend, o)
			}
		}
		d.e, d.have = o.E, true
		if always || big {
			compare(rep, d.s, o.E, "after "+o.Op)
			if !rep.Bad() && (big || n%4 == 0) {
				for j, x := range dbs {
					if x != d && !x.closed && x.have {
						_ = j
						compare(rep, x.s, x.e, "another state after "+o.Op)
					}
				}
			}
		}
		if rep.Bad() {
			return
		}
	}
}

// mirror re-creates the trie nodes below root in the shadow database.
func mirror(from, to state.Database, root common.Hash) error {
	if m, ok := from.TrieDB().DiskDB().(*ethdb.MemDatabase); ok {
		for _, k := range m.Keys() {
			v, _ := m.Get(k)
			to.TrieDB().DiskDB().(*ethdb.MemDatabase).Put(k, v)
		}
	}
	for _, h := range from.TrieDB().Nodes() {
		b, err := from.TrieDB().Node(h)
		if err == nil && len(b) > 0 {
			if db, ok := to.TrieDB().DiskDB().(ethdb.Database); ok {
				if err := db.Put(h[:], b); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func main() { w.Main(run) }
