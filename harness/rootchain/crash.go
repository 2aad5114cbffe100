package main

import (
	"fmt"

	qkccom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/w"
	"github.com/ethereum/go-ethereum/common"
)

func (s *world) open(db *w.LogDB) *core.RootBlockChain {
	n, err := w.OpenRoot(s.cfg, db, engine(s.cfg))
	if err != nil {
		s.rep.V("R02", "the database cannot be opened: %v", err)
		return nil
	}
	n.SetEnableCountMinorBlocks(true)
	return n
}

func (s *world) feed(x op) {
	switch x.Op {
	case "v":
		s.bc.AddValidatedMinorBlockHeader(s.m[x.ID].h.Hash(), s.m[x.ID].h.CoinbaseAmount)
	case "dr":
		var bl []types.IBlock
		for _, i := range x.B {
			bl = append(bl, w.DecRoot(s.r[i].enc))
		}
		s.bc.InsertChain(bl)
	}
}

// again delivers the blocks that were accepted, each alone: a batch that starts
// with a known block is refused as a whole.
func (s *world) again(x op) {
	if x.Op != "dr" {
		s.feed(x)
		return
	}
	for _, i := range x.Taken {
		s.feed(op{Op: "dr", B: []int{i}})
	}
}

// crash replays ops[:o.At] on a fresh root chain, then dies after every
// possible number of writes of ops[o.At] and checks what is left. At -1 is the
// first start of the program.
func (s *world) crash(ops []op, o op) {
	rep := s.rep
	saved, savedDB := s.bc, s.db
	defer func() { s.bc, s.db = saved, savedDB }()
	db := w.NewLogDB(nil)
	base := db.Content()
	s.bc = s.open(db)
	if s.bc == nil {
		return
	}
	acc := map[int]bool{1: true}
	heads := map[int]bool{1: true}
	what := "the first start"
	final := 1
	for _, x := range ops {
		if x.Op == "dr" {
			final = x.Head
			for i, t := range x.Taken {
				s.conf[t] = x.Conf[i]
			}
		}
	}
	may := map[int]bool{}
	if o.At >= 0 {
		before := 1
		for _, x := range ops[:o.At] {
			s.feed(x)
			if x.Op == "dr" {
				before = x.Head
				for _, t := range x.Taken {
					acc[t] = true
				}
			}
		}
		base = db.Content()
		x := ops[o.At]
		// the master's order: note what is going out, take it in, hand it to the shards, remove the note
		s.out = s.r[x.Taken[0]].hash
		s.bc.WriteCommittingHash(s.out)
		s.feed(x)
		s.bc.ClearCommittingHash()
		what = fmt.Sprintf("delivering %v", x.B)
		// the blocks of a batch are taken one by one
		heads = map[int]bool{before: true, x.Head: true}
		for _, t := range x.Taken {
			may[t] = true
			if len(x.Taken) > 1 {
				heads[t] = true
			}
		}
	} else {
		o.At = 0
	}
	log := db.Writes()
	s.writes = len(log)
	w.StopAll(s.bc)
	for k := 0; k <= len(log) && !rep.Bad(); k++ {
		rep.Op("crash point")
		s.cut = k
		s.restart(ops, o, w.After(base, log, k), acc, may, heads, final, fmt.Sprintf("died after %d of %d writes of %s", k, len(log), what), o.Again)
	}
}

func (s *world) restart(ops []op, o op, db *w.LogDB, acc, may, heads map[int]bool, final int, what string, again bool) {
	rep := s.rep
	var base map[string][]byte
	if again {
		base = w.NewLogDB(db.Content()).Content()
	}
	rep.Guard("R02", func() {
		s.bc, s.db = s.open(db), db
		if s.bc == nil {
			return
		}
		defer w.StopAll(s.bc)
		writes := db.Writes()
		if o.At > 0 && s.cut >= 0 {
			note := common.Hash{}
			if s.cut > 0 && s.cut < s.writes {
				note = s.out
			}
			rep.Check(s.bc.GetCommittingBlockHash() == note, "R02", "%s: the root block noted as being handed to the shards is %x, want %x", what, s.bc.GetCommittingBlockHash(), note)
		}
		head := s.rid[s.bc.CurrentBlock().Hash()]
		if !rep.Check(heads[head], "R02", "%s: the head after opening is %d, neither the head before nor after", what, head) {
			return
		}
		known := map[int]bool{}
		for id, b := range s.r {
			known[id] = s.bc.HasBlock(b.hash) && !qkccom.IsNil(s.bc.GetBlock(b.hash))
			rep.Check(known[id] || !acc[id], "R02", "%s: root block %d, accepted before, is gone", what, id)
			rep.Check(!known[id] || acc[id] || may[id], "R02", "%s: root block %d is known, but was never delivered", what, id)
		}
		s.acc = known
		s.prop, s.ctx = "R02", what+": "
		s.records(op{Head: head})
		for _, x := range ops[:o.At] {
			if x.Op == "v" || o.Re && len(x.Taken) > 0 {
				s.again(x)
			}
		}
		for _, x := range ops[o.At : len(ops)-1] {
			s.again(x)
		}
		for _, x := range ops {
			for _, t := range x.Taken {
				s.acc[t] = true
				rep.Check(s.bc.HasBlock(s.r[t].hash), "R02", "%s: root block %d, delivered again, is not known", what, t)
			}
		}
		head = s.rid[s.bc.CurrentBlock().Hash()]
		rep.Check(head == final, "R02", "%s: after all blocks the head is %d, a node that did not die is at %d", what, head, final)
		s.ctx = what + ", at the end: "
		s.records(op{Head: head})
		s.prop, s.ctx = "", ""
		if again {
			for k := 1; k < len(writes) && !rep.Bad(); k++ {
				rep.Op("second crash point")
				s.restart(ops, o, w.After(base, writes, k), acc, may, heads, final, fmt.Sprintf("%s, died again after %d of %d writes", what, k, len(writes)), false)
			}
		}
	})
	s.prop, s.ctx = "", ""
}
