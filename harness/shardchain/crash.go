package main

import (
	"fmt"

	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/zzverif/w"
	"github.com/ethereum/go-ethereum/common"
)

// crash replays ops[:o.At] on a fresh node, then dies after every possible
// number of writes of ops[o.At] and checks what a restart makes of it.
func (s *world) crash(ops []op, o op) {
	rep := s.rep
	db := w.NewLogDB(nil)
	base := db.Content()
	n := s.open(db, o.Arch)
	if n == nil {
		return
	}
	if _, err := n.InitGenesisState(w.DecRoot(s.r[1].enc)); err != nil {
		rep.Err("genesis: %v", err)
		return
	}
	what0 := "the first start"
	if o.At >= 0 {
		for _, x := range ops[:o.At] {
			s.feed(n, x)
		}
		base = db.Content()
		s.feed(n, ops[o.At])
		what0 = fmt.Sprintf("%s %d", ops[o.At].Op, ops[o.At].ID)
	} else {
		o.At = 0
	}
	log := db.Writes()
	w.StopAll(n)
	rep.Op(fmt.Sprintf("crash %v", o.Arch))
	for k := 0; k <= len(log) && !rep.Bad(); k++ {
		rep.Op("crash point")
		what := fmt.Sprintf("died after %d of %d writes of %s (archive %v), restarted at root block %d", k, len(log), what0, o.Arch, o.Ini)
		s.restart(ops, o, w.After(base, log, k), what, o.Again)
	}
}

func (s *world) feed(n *core.MinorBlockChain, x op) {
	switch x.Op {
	case "dm":
		n.InsertChain([]types.IBlock{w.DecMinor(s.m[x.ID].enc)}, false)
	case "dr":
		n.AddRootBlock(w.DecRoot(s.r[x.ID].enc))
	}
}

func (s *world) open(db *w.LogDB, arch bool) *core.MinorBlockChain {
	n, err := w.OpenShard(s.cfg, db, sid, nil, arch)
	if err != nil {
		s.rep.V("R01", "the database cannot be opened: %v", err)
		return nil
	}
	return n
}

// restart opens db and brings the node back into service.
func (s *world) restart(ops []op, o op, db *w.LogDB, what string, again bool) {
	rep := s.rep
	saved := s.node
	defer func() { s.node = saved }()
	var base map[string][]byte
	if again {
		base = w.NewLogDB(db.Content()).Content()
	}
	ok := rep.Guard("R01", func() {
		n := s.open(db, o.Arch)
		if n == nil {
			return
		}
		s.node, s.db = n, db
		defer w.StopAll(n)
		head := n.CurrentBlock()
		hid, known := s.byHash[head.Hash()]
		if !rep.Check(known && n.GetMinorBlock(head.Hash()) != nil, "R01", "%s: the head after opening is no known block", what) {
			return
		}
		// what was stored completely is not lost
		kept := map[int]bool{}
		for id, b := range s.m {
			kept[id] = n.HasBlock(b.hash)
			if id != 1 && !kept[id] {
				for _, x := range ops[:o.At] {
					rep.Check(!(x.Op == "dm" && x.Ok && x.ID == id), "R01", "%s: block %d, accepted before, is gone", what, id)
				}
			}
		}
		roots := map[int]bool{}
		for id, b := range s.r {
			roots[id] = n.GetRootBlockByHash(b.hash) != nil
			if id != 1 && !roots[id] {
				for _, x := range ops[:o.At] {
					rep.Check(!(x.Op == "dr" && x.Ok && x.ID == id), "R01", "%s: root block %d, accepted before, is gone", what, id)
				}
			}
		}
		var err error
		if o.Ini == 1 {
			_, err = n.InitGenesisState(w.DecRoot(s.r[1].enc))
		} else {
			err = n.InitFromRootBlock(w.DecRoot(s.r[o.Ini].enc))
		}
		if !rep.Check(err == nil, "R01", "%s: starting service failed: %v", what, err) {
			return
		}
		writes := db.Writes()
		h2 := s.byHash[n.CurrentBlock().Hash()]
		if o.Conf != 0 {
			rep.Check(h2 == o.Conf, "R01", "%s: the head is block %d, the confirmed block is %d", what, h2, o.Conf)
		} else {
			rep.Check(h2 == hid, "R01", "%s: starting service moved the head from block %d to %d", what, hid, h2)
		}
		rid := s.rByHash[n.GetRootTip().Hash()]
		rep.Check(rid == o.Ini, "R01", "%s: the root tip is %d", what, rid)
		s.asR01(what, h2)
		for id, k := range kept {
			rep.Check(!k || n.HasBlock(s.m[id].hash) && n.GetMinorBlock(s.m[id].hash) != nil, "R01", "%s: starting service dropped block %d", what, id)
		}
		for id, k := range roots {
			rep.Check(!k || n.GetRootBlockByHash(s.r[id].hash) != nil, "R01", "%s: starting service dropped root block %d", what, id)
		}
		// everything again, oldest first, then what was still to come
		for id := 2; id <= len(ops) && o.Re; id++ {
			for _, x := range ops[:o.At+1] {
				if x.Ok && (x.Op == "dm" || x.Op == "dr") && s.order[x.Op[1:]+fmt.Sprint(x.ID)] == id {
					s.feed(n, x)
					if x.Op == "dm" {
						rep.Check(n.HasBlockAndState(s.m[x.ID].hash), "R01", "%s: block %d, delivered again, is not stored with its state", what, x.ID)
					}
				}
			}
		}
		for _, x := range ops[o.At : len(ops)-1] {
			s.feed(n, x)
		}
		s.asR01(what+", fed again", s.byHash[n.CurrentBlock().Hash()])
		rep.Check(s.rByHash[n.GetRootTip().Hash()] == o.Rtip, "R01", "%s, fed again: root tip is %d, a node that did not die is at %d", what, s.rByHash[n.GetRootTip().Hash()], o.Rtip)
		for _, x := range s.ext {
			_, err := n.InsertChain([]types.IBlock{w.DecMinor(s.m[x].enc)}, false)
			rep.Check(err == nil, "R01", "%s: block %d (height %d) on the final head %d was refused: %v", what, x, s.m[x].h, o.Tip, err)
		}
		last := o.Tip
		if len(s.ext) > 0 {
			last = s.ext[len(s.ext)-1]
		}
		h3 := s.byHash[n.CurrentBlock().Hash()]
		rep.Check(h3 == last, "R01", "%s: after all blocks the head is %d, a node that did not die is at %d", what, h3, last)
		s.asR01(what+", at the end", h3)
		if again {
			// dying once more while the service starts
			for k := 1; k < len(writes) && !rep.Bad(); k++ {
				rep.Op("second crash point")
				s.restart(ops, o, w.After(base, writes, k), fmt.Sprintf("%s, died again after %d of %d writes", what, k, len(writes)), false)
			}
		}
	})
	_ = ok
}

// asR01 checks all indexes for a head and reports them under R01.
func (s *world) asR01(what string, hid int) {
	if hid == 0 {
		s.rep.V("R01", "%s: unknown head", what)
		return
	}
	s.prop, s.ctx = "R01", what+": "
	s.indexes(hid)
	s.prop, s.ctx = "", ""
}

func (s *world) extend(o op) bool {
	p := o.Tip
	for i := 0; i < o.N; i++ {
		id := 1000 + i
		if !s.makeMinor(op{ID: id, P: p, R: o.Rtip, Tx: []int{1 + i%3}}) {
			return false
		}
		s.ext = append(s.ext, id)
		p = id
	}
	return true
}

var _ = common.Hash{}
