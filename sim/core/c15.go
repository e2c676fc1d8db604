package core

import (
	"bytes"
	"sort"
	"strings"
	"time"

	"verifsim/simos"
)

// C15: a zip container holds the same archive as a directory.

func init() {
	Experiments["C15"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			GenHist(g, c, Opt{MaxObj: 3, MaxUpd: 5, Names: g.N(2), Zip: 100, Ext: g.P(40), Areas: g.P(30), AreaActs: g.P(30), Links: true, Index: 15, Dedup: 60, Acts: g.P(50)})
			for i := range c.Ops {
				c.Ops[i].Keep = false // a container is closed after each update
			}
			if g.P(45) && markLast(g, c, func(op *Op) { op.K = "fault" }) {
				op := &c.Ops[len(c.Ops)-1]
				if g.P(60) {
					op.Faults = []simos.Fault{genCrash(g, 100000)}
					if g.P(50) {
						op.Faults[0].Op = g.Pick("rename", "remove", "close", "write")
					}
				} else {
					op.Faults = []simos.Fault{genFault(g, "st", writeFaults, 100000)}
					if g.P(30) {
						op.Faults = []simos.Fault{genFault(g, "st", readFaults, 100000)}
					}
				}
			}
		},
		Run: runC15,
	}
}

// onceEach drops the calls which touch a path which the update has touched already:
// what they replace stays in a container (known finding).
func (c *Config) onceEach(op *Op) {
	seen := map[string]bool{}
	keep := []Act{}
	for i := range op.Acts {
		a := op.Acts[i]
		var ps []string
		switch a.A {
		case "folder":
			for p := range c.Apply(State{}, &Op{Files: op.Files, Src2: op.Src2, Acts: []Act{a}}) {
				ps = append(ps, p)
			}
		case "file", "data":
			ps = append(ps, c.logical(a.Area, a.P))
		case "reader":
			for _, p := range a.Ps {
				ps = append(ps, c.logical(a.Area, p))
			}
		case "del":
			ps = append(ps, a.P)
		case "ren":
			ps = append(ps, a.P, a.To)
		}
		dup := false
		for _, p := range ps {
			dup = dup || seen[p] && !c.inGenerated(p)
		}
		if dup {
			continue
		}
		for _, p := range ps {
			seen[p] = true
		}
		keep = append(keep, a)
	}
	op.Acts = keep
}

func (h *Hist) runHistory() {
	r := h.r
	h.MustCreate()
	for i := range r.C.Ops {
		op := &r.C.Ops[i]
		setClock(1_700_000_000_000_000_000 + int64(i)*int64(24*time.Hour))
		switch op.K {
		case "upd":
			h.Update(op)
		case "reopen":
			h.Reopen()
		}
	}
}

func (h *Hist) contentTree() map[string][]byte {
	t := map[string][]byte{}
	for p, b := range normTimes(h.snapshotFiles()) {
		t[p] = unpack(p, b)
	}
	return t
}

func runC15(r *Run) {
	if !r.C.Cfg.Zip {
		panic(&Inconclusive{"not a container"})
	}
	var op *Op
	if k := len(r.C.Ops); k > 0 && r.C.Ops[k-1].K == "fault" {
		op = &r.C.Ops[k-1]
	}
	h := r.NewHist()
	h.noAmb = r.C.X["ambiguous"] != ""
	h.runHistory()
	zipped := h.contentTree()
	for p, b := range h.answers() {
		zipped[p] = b
	}
	zm := h.Model
	if op != nil {
		h.faultyClose(op)
	}

	// the same on a directory
	r.W = simos.NewWorld()
	simos.W = r.W
	r.W.Boot()
	r.C.Cfg.Zip = false
	d := r.NewHist()
	d.runHistory()
	plain := d.contentTree()
	for p, b := range d.answers() {
		plain[p] = b
	}
	if op == nil && len(zm) > 0 {
		r.NonTriv = true
	}
	var ps []string
	for p := range plain {
		ps = append(ps, p)
	}
	for p := range zipped {
		if _, ok := plain[p]; !ok {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	for _, p := range ps {
		a, ok1 := zipped[p]
		b, ok2 := plain[p]
		if ok1 && ok2 && bytes.Equal(a, b) {
			continue
		}
		switch {
		case !ok1:
			r.Fail("twin", "%s exists in the directory, but not in the container", p)
		case !ok2:
			r.Fail("twin", "%s exists in the container, but not in the directory", p)
		}
		r.Fail("twin", "%s differs between container and directory: %s", p, firstDiff(map[string][]byte{p: a}, map[string][]byte{p: b}))
	}
	r.Probe("container and directory equal")
}

// faultyClose performs the last update with trouble.
func (h *Hist) faultyClose(op *Op) {
	r := h.r
	h.Reopen()
	h.mount(op)
	count, _, ok := h.dry(op, func() error { return h.DoUpdate(op) })
	if !ok {
		panic(&Inconclusive{"update fails without faults"})
	}
	fs := aimAll(op.Faults, count)
	r.W.Settle()
	id := r.C.IDs[op.Obj]
	alt := r.C.Cfg.Apply(h.obj(id).head(), op)
	o := r.Do("update with trouble", fs, func() error { return h.DoUpdate(op) })
	r.MustEnd("update", o)
	h.Reopen2()
	r.NonTriv = o.Fired > 0 || o.Crash
	what := "update with trouble"
	for _, f := range fs {
		what += " [" + f.Op + " " + f.Kind + "]"
	}
	// the container, or what was to become the container
	find := func() (string, string) {
		files := h.snapshotFiles()
		ok, why := h.complete(files, id, alt)
		if ok {
			return "container", ""
		}
		tmp := join(h.dir, "archive.zip.tmp")
		if r.W.Exists(tmp) && !r.W.Exists(join(h.dir, "archive.zip")) {
			r.W.Move(tmp, join(h.dir, "archive.zip"))
			if ok, why2 := h.complete(h.snapshotFiles(), id, alt); ok {
				return "new container not renamed", ""
			} else {
				why += "; " + why2
			}
		}
		return "", why
	}
	switch {
	case o.Crash:
		st, why := find()
		if st == "" {
			r.Fail("torn", "%s was cut off, and neither the previous nor the new container is complete: %s", what, why)
		}
		r.Probe("cut off: " + st)
	case o.Err != nil:
		r.Probe("reported")
	default:
		files := h.snapshotFiles()
		if ok, why := h.complete(files, id, alt); !ok {
			r.Fail("untold", "%s reports success, but the container is not complete: %s", what, why)
		}
		m := h.obj(id)
		if v := ReadRoot(files).Objs[id]; v == nil || len(m.Vers) > 0 && v.N == len(m.Vers) && !alt.equal(m.head()) {
			r.Fail("untold", "%s reports success, but the new version is missing", what)
		}
		r.Probe("success")
	}
	if strings.Contains(what, "rename") {
		r.Probe("trouble at the rename")
	}
}
