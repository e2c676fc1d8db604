package core

import "fmt"

// runHist performs the history of a case; after is called behind every update.
func (h *Hist) runOps(after func(i int, op *Op)) {
	r := h.r
	for i := range r.C.Ops {
		op := &r.C.Ops[i]
		switch op.K {
		case "upd":
			if op.T != 0 {
				setClock(op.T)
			}
			h.Update(op)
		case "reopen":
			h.Reopen()
		case "validate":
			h.CheckValid(fmt.Sprintf("after step %d", i))
		}
		if after != nil {
			after(i, op)
		}
	}
}

// Reopen continues as a new process.
func (h *Hist) Reopen() {
	r := h.r
	if h.sess != nil {
		r.Ok("close storage", "failed", h.leave)
	}
	h.sess = nil
	r.W.Boot()
}

func (h *Hist) MustCreate() {
	o := h.CreateRoot(nil)
	h.r.MustEnd("creation of the storage root", o)
	if o.Err != nil {
		h.r.Fail("failed", "creation of the storage root failed without any fault: %s", errStr(o.Err))
	}
}

func init() {
	Experiments["C01"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			GenHist(g, c, Opt{MaxObj: 2, MaxUpd: 5, Acts: g.P(50), Names: g.N(2), Zip: 10, Ext: g.P(20), Areas: g.P(15), Links: true, Index: 8})
		},
		Run: func(r *Run) {
			h := r.NewHist()
			h.MustCreate()
			h.runOps(nil)
			h.Reopen()
			h.CheckExtract()
			n := 0
			for _, m := range h.Model {
				n += len(m.Vers)
			}
			r.NonTriv = n > 1
			r.Note = fmt.Sprintf("%d versions of %d objects, layout %s", n, len(h.Model), r.C.Cfg.Layout)
		},
	}
}
