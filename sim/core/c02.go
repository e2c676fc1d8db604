package core

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// snap is what was on storage of a committed version.
type snap struct {
	dir   string
	ver   string
	files map[string]string
	state State
	block string // created, message, user
}

// Ledger remembers committed versions.
type Ledger struct {
	h     *Hist
	snaps map[string][]*snap
}

func (h *Hist) NewLedger() *Ledger {
	l := &Ledger{h: h, snaps: map[string][]*snap{}}
	h.onForeign = func(id string) { delete(l.snaps, id) }
	return l
}

// block is what an inventory tells about a version besides its files.
func (v *VVer) block() string {
	return v.Time.UTC().Format(time.RFC3339Nano) + "|" + v.Msg + "|" + v.User + "|" + v.Addr
}

// Note records versions of the model which are not recorded yet.
func (l *Ledger) Note() {
	v := l.h.Read()
	for id, m := range l.h.Model {
		o := v.Objs[id]
		if o == nil {
			continue
		}
		for i := len(l.snaps[id]); i < len(m.Vers) && i < len(o.Vers); i++ {
			vv := o.Vers[i]
			s := &snap{dir: o.Dir, ver: vv.Dir, files: map[string]string{}, state: vv.Digests, block: vv.block()}
			pre := o.Dir + "/" + vv.Dir + "/"
			for p, b := range v.Files {
				if strings.HasPrefix(p, pre) {
					s.files[p] = string(b)
				}
			}
			l.snaps[id] = append(l.snaps[id], s)
		}
	}
}

// Check compares the storage with the recorded versions.
func (l *Ledger) Check(when string) {
	r := l.h.r
	files, err := r.files(l.h.dir)
	if err != nil {
		r.Fail("changed", "%s: the container is not readable any more: %v", when, err)
	}
	v := ReadRoot(files)
	ids := make([]string, 0)
	for id := range l.snaps {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		for _, s := range l.snaps[id] {
			got := State{}
			pre := s.dir + "/" + s.ver + "/"
			for p, b := range files {
				if strings.HasPrefix(p, pre) {
					got[p] = string(b)
				}
			}
			if d := diffStates(State(s.files), got); d != "" {
				r.Fail("changed", "%s: stored files of %q %s changed: %s", when, id, s.ver, d)
			}
		}
		// later inventories describe it identically
		o := v.Objs[id]
		if o == nil || len(o.Vers) == 0 {
			continue // damaged root inventory: other properties
		}
		for i, s := range l.snaps[id] {
			if i >= len(o.Vers) {
				r.Fail("changed", "%s: the inventory of %q has no version %d any more", when, id, i+1)
			}
			vv := o.Vers[i]
			if d := diffStates(s.state, vv.Digests); d != "" {
				r.Fail("changed", "%s: the inventory describes %q v%d differently: %s", when, id, i+1, d)
			}
			if b := vv.block(); b != s.block {
				r.Fail("changed", "%s: the inventory describes %q v%d as %q instead of %q", when, id, i+1, b, s.block)
			}
		}
	}
}

// genTrouble turns some updates into failing or interrupted ones and adds reading.
func genTrouble(g *Rng, c *Case) {
	var ops []Op
	seen := map[int]bool{}
	for i := range c.Ops {
		op := c.Ops[i]
		if op.K == "upd" {
			if seen[op.Obj] && !c.Cfg.Zip && g.P(35) {
				bad := op
				switch g.N(4) {
				case 0:
					bad.Abort = g.Pick("end", "close")
				case 1:
					bad.Faults = append(bad.Faults, genFault(g, "st", writeFaults, 40))
				case 2:
					bad.Faults = append(bad.Faults, genFault(g, g.Pick("st", "src"), readFaults, 40))
				case 3:
					bad.Faults = append(bad.Faults, genCrash(g, 40))
				}
				bad.K = "trouble"
				ops = append(ops, bad)
				if g.P(50) {
					ops = append(ops, op) // and then properly
				}
				continue
			}
			seen[op.Obj] = true
		}
		ops = append(ops, op)
		if g.P(20) {
			ops = append(ops, Op{K: "read", S: g.Pick(readOps...), Obj: op.Obj, V: "latest"})
		}
	}
	c.Ops = ops
}

func runC02(r *Run) {
	h := r.NewHist()
	h.MustCreate()
	l := h.NewLedger()
	dirty := false
	n := 0
	for i := range r.C.Ops {
		op := &r.C.Ops[i]
		when := fmt.Sprintf("after step %d (%s)", i, op.K)
		switch op.K {
		case "upd":
			if dirty {
				// whether the repetition succeeds is another property's business; the
				// committed versions stay in any case
				h.mount(op)
				before := h.Read().Objs[r.C.IDs[op.Obj]]
				o := r.Do("update after trouble", nil, func() error { return h.DoUpdate(op) })
				r.W.Boot()
				h.sess = nil
				r.W.Settle()
				if before == nil || o.Bad() || o.Err != nil {
					l.Check(when)
					n++
					continue
				}
				l.Check(when)
				n++
				l.adopt(op)
				continue
			}
			h.Update(op)
		case "trouble":
			h.Reopen()
			h.mount(op)
			o := r.Do("trouble", op.Faults, func() error { return h.DoUpdate(op) })
			if o.Crash && g0(op) {
				rnd := NewRng(uint64(op.Faults[0].N) + 5)
				r.W.PowerLoss("/st", rnd.U64)
				r.Probe("power loss")
			}
			r.W.Boot()
			h.sess = nil
			dirty = true
			r.Probe("trouble")
			l.Check(when)
			n++
			l.adopt(op)
			continue
		case "reopen":
			h.Reopen()
			continue
		case "read":
			h.Reopen()
			if m := h.Model[r.C.IDs[op.Obj]]; m == nil {
				continue
			}
			r.Do("read "+op.S, nil, func() error {
				_, err := r.ReadOp(op.S, h.dir, r.C.IDs[op.Obj], op.V, "", op.Man)
				return err
			})
			h.sess = nil
		}
		l.Check(when)
		n++
		l.Note()
	}
	r.NonTriv = h.versions() > 1
	r.Note = fmt.Sprintf("%d comparisons, %d versions of %d objects", n, h.versions(), len(h.Model))
}

func g0(op *Op) bool { return len(op.Faults) > 0 && op.Faults[0].N%3 == 0 }

// adopt takes over what is on storage as committed, if it is a complete new version.
func (l *Ledger) adopt(op *Op) {
	h := l.h
	v := h.Read()
	for id, m := range h.Model {
		o := v.Objs[id]
		if o == nil || len(h.hard(o)) > 0 {
			continue
		}
		for i := len(m.Vers); i < len(o.Vers); i++ {
			m.Vers = append(m.Vers, &VerModel{State: o.Vers[i].State, Loose: true})
		}
	}
	l.Note()
}
