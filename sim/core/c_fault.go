package core

import (
	"fmt"
	"slices"
	"strings"

	"verifsim/simos"
)

// dry performs an operation on a copy of the machine to learn how many file system
// operations it takes. Everything is as before afterwards.
func (h *Hist) dry(op *Op, fn func() error) (count map[string]int, after map[string][]byte, ok bool) {
	w := h.r.W
	saved := map[string]simos.Snapshot{}
	for _, d := range []string{"/st", "/tmp", "/dst"} {
		saved[d] = w.Save(d)
	}
	made, n := h.made, h.n
	w.Boot()
	h.sess = nil
	o := h.r.Do("dry run", nil, fn)
	count = map[string]int{}
	for k, v := range w.Count {
		count[k] = v
	}
	h.r.MustEnd("operation", o)
	ok = o.Err == nil
	after = h.snapshotFiles()
	for d, s := range saved {
		w.Restore(d, s)
	}
	h.made, h.n = made, n
	w.Boot()
	h.sess = nil
	return
}

// snapshotFiles are the stored files (without empty folders).
func (h *Hist) snapshotFiles() map[string][]byte {
	f, err := h.r.files(h.dir)
	if err != nil {
		return map[string][]byte{"unreadable": nil}
	}
	return f
}

// aim points a fault at one of the operations that will happen.
func aim(f simos.Fault, count map[string]int) simos.Fault {
	n := count[f.Dom+":"+f.Op]
	if n > 0 {
		f.N = 1 + (f.N*7919+f.Keep)%n
	}
	return f
}

func (h *Hist) fullArea() string {
	if h.r.C.Cfg.hasExt("NNNN-content-subpath") {
		return "full"
	}
	return ""
}

// readAllOrError extracts every version of the model; success must be exact. alt is an
// additional state which is accepted as the newest version of an object.
func (h *Hist) readAllOrError(id0 string, alt State, strict func(id string) bool) {
	r := h.r
	for _, id := range r.C.IDs {
		m := h.Model[id]
		if m == nil {
			continue
		}
		type q struct {
			vn   string
			want []State
		}
		var qs []q
		for i := range m.Vers {
			qs = append(qs, q{h.vname(id, i+1), []State{m.Vers[i].State}})
		}
		last := []State{}
		if len(m.Vers) > 0 {
			last = append(last, m.head())
		}
		if id == id0 && alt != nil {
			last = append(last, alt)
			qs = append(qs, q{h.vname(id, len(m.Vers)+1), []State{alt}})
		}
		qs = append(qs, q{"latest", last})
		for _, x := range qs {
			h.Reopen2()
			got, o := h.ExtractVersion(id, x.vn, false, h.fullArea(), nil, true)
			r.MustEnd("extraction", o)
			if o.Err != nil {
				if strict != nil && strict(id) && len(x.want) > 0 {
					r.Fail("lost", "extraction of %q %s fails though the object was not touched: %s", id, x.vn, errStr(o.Err))
				}
				r.Probe("refused")
				continue
			}
			good := false
			d := "nothing is committed"
			for _, w := range x.want {
				if d = h.sameState(w, got); d == "" {
					good = true
				}
			}
			if !good {
				r.Fail("wrong", "extraction of %q %s reports success but: %s", id, x.vn, d)
			}
			r.Probe("read exactly")
		}
	}
}

// Reopen2 forgets everything without closing.
func (h *Hist) Reopen2() {
	h.sess = nil
	h.r.W.Boot()
}

// complete tells whether the independent reader finds a sound storage root in which
// every object has a state of the model, or alt for object id0.
func (h *Hist) complete(files map[string][]byte, id0 string, alt State) (bool, string) {
	v := ReadRoot(files)
	if len(v.Problems) > 0 {
		return false, v.Problems[0]
	}
	for id, o := range v.Objs {
		for _, p := range h.hard(o) {
			if !h.ignoreLost || !strings.HasSuffix(p, " has no inventory") {
				return false, p
			}
		}
		m := h.Model[id]
		want := []State{}
		if m != nil {
			for _, mv := range m.Vers {
				want = append(want, mv.State)
			}
		}
		if id == id0 && len(o.Vers) == len(want)+1 && alt != nil {
			want = append(want, alt)
		}
		if len(want) != len(o.Vers) {
			return false, fmt.Sprintf("object %q has %d versions", id, len(o.Vers))
		}
		for i := range want {
			if d := h.sameState(want[i], o.Vers[i].State); d != "" {
				return false, fmt.Sprintf("object %q v%d: %s", id, i+1, d)
			}
		}
	}
	for id, m := range h.Model {
		if len(m.Vers) > 0 && v.Objs[id] == nil {
			return false, fmt.Sprintf("object %q is missing", id)
		}
	}
	return true, ""
}

func withoutDocs(t map[string][]byte) map[string][]byte {
	r := map[string][]byte{}
	for p, b := range t {
		if !strings.Contains(p, "/") && strings.HasSuffix(p, ".md") {
			continue
		}
		r[p] = b
	}
	return r
}

// markLast turns the last update into one with trouble.
func markLast(g *Rng, c *Case, f func(op *Op)) bool {
	for i := len(c.Ops) - 1; i >= 0; i-- {
		if c.Ops[i].K == "upd" {
			c.Ops = c.Ops[:i+1]
			f(&c.Ops[i])
			return true
		}
	}
	return false
}

// lastKnown turns the last update into one of an object which exists already.
func lastKnown(g *Rng, c *Case) {
	last := -1
	seen := map[int]int{}
	for i, op := range c.Ops {
		if op.K == "upd" {
			seen[op.Obj]++
			last = i
		}
	}
	if last < 0 || seen[c.Ops[last].Obj] > 1 {
		return
	}
	for i := last - 1; i >= 0; i-- {
		if c.Ops[i].K == "upd" {
			c.Ops[last].Obj = c.Ops[i].Obj
			return
		}
	}
	c.Ops = append(c.Ops, c.Ops[last])
	op := &c.Ops[last+1]
	t := tree{}
	for _, f := range op.Files {
		if f.L == "" && !strings.HasSuffix(f.P, "/") {
			t[f.P] = f.C
		}
	}
	t.mutate(g, Opt{Small: true}, nil, nil)
	op.Files = t.specs()
	op.Acts = []Act{{A: "folder"}}
	op.Src2 = nil
}

func init() {
	Experiments["C03"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			GenHist(g, c, Opt{MaxObj: 2, MaxUpd: 4, Acts: g.P(40), Names: g.N(2), Ext: g.P(25), Areas: g.P(15), AlwaysNew: true, Index: 10})
			if g.P(12) {
				c.Ops = nil
			}
			markLast(g, c, func(op *Op) { op.K = "crash" })
			if len(c.Ops) == 0 {
				c.Ops = []Op{{K: "crashroot"}}
			}
			op := &c.Ops[len(c.Ops)-1]
			f := simos.Fault{Dom: "st", Op: "mut", N: g.N(100000), Kind: "crash"}
			switch g.N(4) {
			case 0:
				f.Keep = 1 + g.N(99)
			case 1:
				f.Kind = "crashafter"
			}
			if g.P(10) {
				f.Op = g.Pick("close", "rename", "create")
			}
			op.Faults = []simos.Fault{f}
			if g.P(25) {
				op.V = "power"
				op.N = g.N(100000)
			}
		},
		Run: runC03,
	}
	Experiments["C04"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			GenHist(g, c, Opt{MaxObj: 2, MaxUpd: 3, Acts: g.P(40), Names: g.N(2), Zip: 12, Ext: g.P(35), Areas: g.P(20), Links: true, Index: 15})
			if g.P(15) {
				c.Ops = nil
			}
			fault := func(op *Op) {
				for j := 1 + g.N(4)/3; j > 0; j-- {
					switch g.N(6) {
					case 0:
						op.Faults = append(op.Faults, genFault(g, "src", readFaults, 30))
					case 1:
						op.Faults = append(op.Faults, genFault(g, "st", readFaults, 30))
					case 2:
						op.Faults = append(op.Faults, genFault(g, "tmp", append(writeFaults, readFaults...), 10))
					default:
						op.Faults = append(op.Faults, genFault(g, "st", writeFaults, 30))
					}
				}
			}
			if len(c.Ops) == 0 {
				c.Ops = []Op{{K: "root"}}
				fault(&c.Ops[0])
				return
			}
			markLast(g, c, func(op *Op) { op.K = "fault"; fault(op) })
		},
		Run: runC04,
	}
	Experiments["C05"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			GenHist(g, c, Opt{MaxObj: 2, MaxUpd: 3, Acts: g.P(50), Names: g.N(2), Zip: 15, Ext: g.P(40), Areas: g.P(20), Links: true, Rec: g.P(25), FailRec: 35, Index: 15, Big: g.P(10)})
			one := func(op *Op) {
				for j := 1 + g.N(3)/2; j > 0; j-- {
					d := g.Pick("st", "st", "st", "src", "dst", "tmp")
					l := readFaults
					if g.P(50) && d != "src" {
						l = writeFaults
					}
					f := genFault(g, d, l, 40)
					f.Sticky = g.P(30)
					op.Faults = append(op.Faults, f)
				}
			}
			var ops []Op
			if g.P(10) {
				ops = append(ops, Op{K: "root"})
				one(&ops[0])
			}
			for _, op := range c.Ops {
				if op.K == "upd" && g.P(40) {
					bad := op
					bad.K = "fault"
					one(&bad)
					ops = append(ops, bad)
					if g.P(50) {
						continue
					}
				}
				ops = append(ops, op)
			}
			for j := g.N(4); j > 0; j-- {
				op := Op{K: "read", S: g.Pick(readOps...), Obj: g.N(len(c.IDs)), V: g.Pick("v1", "latest"), Man: g.P(50), Area: ""}
				one(&op)
				ops = append(ops, op)
			}
			c.Ops = ops
		},
		Run: runC05,
	}
	Experiments["C21"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			GenHist(g, c, Opt{MaxObj: 2, MaxUpd: 4, Acts: g.P(40), Names: g.N(2), Ext: g.P(45), Areas: g.P(15), AlwaysNew: true, Zip: 8, Index: 35})
			lastKnown(g, c)
			markLast(g, c, func(op *Op) {
				op.K = "fail"
				switch g.N(5) {
				case 0, 1:
					op.Faults = []simos.Fault{genCrash(g, 100000)}
				case 2, 3:
					op.Faults = []simos.Fault{genFault(g, "st", writeFaults, 100000)}
				case 4:
					op.Faults = []simos.Fault{genFault(g, g.Pick("st", "src"), readFaults, 100000)}
				}
				if g.P(10) {
					op.Faults = nil
					op.Abort = g.Pick("end", "close")
				}
				if g.P(40) {
					op.V = "other" // the repetition has different files
				}
			})
			if k := len(c.Ops); k > 0 && c.Ops[k-1].V == "other" {
				// different source for the repetition
				op := c.Ops[k-1]
				op.K, op.V, op.Faults, op.Abort = "retry", "", nil, ""
				t := tree{}
				for _, f := range op.Files {
					if f.L == "" && !strings.HasSuffix(f.P, "/") {
						t[f.P] = f.C
					}
				}
				t.mutate(g, Opt{Small: true}, nil, nil)
				op.Files = t.specs()
				op.Acts = []Act{{A: "folder"}}
				op.Src2 = nil
				op.Echo = true
				if k > 1 && g.P(50) {
					// nothing is stored: files are removed or renamed only
					var ps []string
					for i := range c.Ops[:k-1] {
						if p := &c.Ops[i]; p.K == "upd" && p.Obj == op.Obj {
							ps = nil
							for _, f := range p.Files {
								if f.L == "" && !strings.HasSuffix(f.P, "/") {
									ps = append(ps, f.P)
								}
							}
						}
					}
					if len(ps) > 0 {
						op.Echo = false
						op.Acts = []Act{{A: "del", P: ps[g.N(len(ps))]}}
						if g.P(30) {
							op.Acts = []Act{{A: "ren", P: ps[g.N(len(ps))], To: "renamed/after failure.txt"}}
						}
					}
				}
				c.Ops = append(c.Ops, op)
			}
		},
		Run: runC21,
	}
}

func runC03(r *Run) {
	h := r.NewHist()
	op := &r.C.Ops[len(r.C.Ops)-1]
	if op.K == "crashroot" {
		count, whole, _ := h.dry(op, func() error {
			if _, err := h.session(); err != nil {
				return err
			}
			return h.leave()
		})
		h.made = false
		f := aim(op.Faults[0], count)
		o := h.CreateRoot([]simos.Fault{f})
		r.MustEnd("creation of the storage root", o)
		h.Reopen2()
		if !o.Crash {
			return
		}
		if op.V == "power" {
			r.W.PowerLoss("/st", NewRng(uint64(op.N)).U64)
		}
		r.Probe("crash while creating the storage root")
		files := h.snapshotFiles()
		r.NonTriv = true
		if len(files) == 0 || sameTree(withoutDocs(files), withoutDocs(whole)) {
			return
		}
		if _, there := files["ocfl_layout.json"]; op.V == "power" && !there {
			// the description of the layout is optional: gocfl does not need it, the extension is there
			files["ocfl_layout.json"] = whole["ocfl_layout.json"]
			if sameTree(withoutDocs(files), withoutDocs(whole)) {
				r.Probe("description of the layout lost")
				return
			}
			delete(files, "ocfl_layout.json")
		}
		h.mustReport(fmt.Sprintf("creation of the storage root was cut off at change %d (%s)", f.N, treeDiff(withoutDocs(whole), withoutDocs(files))))
		return
	}
	h.MustCreate()
	l := h.NewLedger()
	for i := range r.C.Ops {
		if p := &r.C.Ops[i]; p.K == "upd" {
			h.Update(p)
			l.Note()
		} else if p.K == "reopen" {
			h.Reopen()
		}
	}
	if op.K != "crash" {
		return
	}
	h.Reopen()
	h.mount(op)
	count, _, ok := h.dry(op, func() error { return h.DoUpdate(op) })
	if !ok {
		panic(&Inconclusive{"update fails without faults"})
	}
	f := aim(op.Faults[0], count)
	r.W.Settle()
	before := h.snapshotFiles()
	id := r.C.IDs[op.Obj]
	m := h.obj(id)
	alt := r.C.Cfg.Apply(m.head(), op)
	o := r.Do("interrupted update", []simos.Fault{f}, func() error { return h.DoUpdate(op) })
	r.MustEnd("update", o)
	h.Reopen2()
	if !o.Crash {
		r.Probe("not interrupted")
		return
	}
	if op.V == "power" {
		r.W.PowerLoss("/st", NewRng(uint64(op.N)).U64)
		r.Probe("power loss")
	}
	if len(m.Vers) == 0 {
		r.Probe("interrupted creation of an object")
	} else {
		r.Probe("interrupted update of an object")
	}
	r.NonTriv = true
	when := fmt.Sprintf("update of %q cut off at change %d", id, f.N)
	l.Check(when)
	files := h.snapshotFiles()
	h.readAllOrError(id, alt, func(x string) bool { return x != id })
	if sameTree(files, before) {
		r.Probe("state before")
		return
	}
	if ok, why := h.complete(files, id, alt); ok {
		r.Probe("state after")
	} else {
		// The inventory of a version is merely recommended: when the only thing a loss of power took is
		// such an inventory, a warning will do.
		lost := []string{}
		if op.V == "power" {
			h.ignoreLost = true
			if ok, _ := h.complete(files, id, alt); ok {
				lost = []string{"W010"}
			}
			h.ignoreLost = false
		}
		h.mustReport(fmt.Sprintf("%s (%s)", when, why), lost...)
	}
}

// mustReport demands that validation finds an error, or one of the given warnings.
func (h *Hist) mustReport(what string, warnings ...string) {
	r := h.r
	h.Reopen2()
	var f *Findings
	o := r.Do("validate", nil, func() error {
		var err error
		f, err = r.Validate(h.dir)
		return err
	})
	r.MustEnd("validation", o)
	if o.Err != nil {
		r.Probe("validation refused")
		return
	}
	if len(f.Errors) == 0 {
		for _, w := range f.Warnings {
			if slices.Contains(warnings, w) {
				r.Probe("validation warns")
				return
			}
		}
		r.Fail("silent", "%s: validation reports no error (%s)", what, f)
	}
	r.Probe("validation reports")
}

var mustTell = map[string]bool{"create": true, "write": true, "close": true, "sync": true}

func (r *Run) told(what string, o *Outcome, before map[string]int) {
	if o.Err != nil {
		return
	}
	for k, n := range r.W.Fired {
		if n == before[k] {
			continue
		}
		p := strings.Split(k, ":")
		if len(p) < 3 {
			continue
		}
		if (p[0] == "st" && mustTell[p[1]]) || (p[0] == "src" && (p[1] == "open" || p[1] == "read")) {
			r.Fail("untold", "%s reports success though %s on %s failed with %s", what, p[1], p[0], p[2])
		}
	}
}

func (r *Run) firedNow() map[string]int {
	m := map[string]int{}
	for k, v := range r.W.Fired {
		m[k] = v
	}
	return m
}

func runC04(r *Run) {
	h := r.NewHist()
	op := &r.C.Ops[len(r.C.Ops)-1]
	if op.K == "root" {
		count, whole, _ := h.dry(op, func() error {
			if _, err := h.session(); err != nil {
				return err
			}
			return h.leave()
		})
		h.made = false
		fs := aimAll(op.Faults, count)
		fb := r.firedNow()
		o := h.CreateRoot(fs)
		r.MustEnd("creation of the storage root", o)
		r.NonTriv = o.Fired > 0
		if o.Err != nil {
			r.Probe("reported")
			return
		}
		r.told("creation of the storage root", o, fb)
		h.Reopen2()
		if o.Fired > 0 {
			r.Probe("success with faults")
		}
		if files := h.snapshotFiles(); !sameTree(files, whole) {
			r.Fail("incomplete", "creation of the storage root reports success (%d faults): %s", o.Fired, treeDiff(whole, files))
		}
		return
	}
	h.MustCreate()
	for i := range r.C.Ops {
		if p := &r.C.Ops[i]; p.K == "upd" {
			h.Update(p)
		} else if p.K == "reopen" {
			h.Reopen()
		}
	}
	if op.K != "fault" {
		return
	}
	h.Reopen()
	h.mount(op)
	count, _, ok := h.dry(op, func() error { return h.DoUpdate(op) })
	if !ok {
		panic(&Inconclusive{"update fails without faults"})
	}
	fb := r.firedNow()
	o := r.Do("faulty update", aimAll(op.Faults, count), func() error { return h.DoUpdate(op) })
	r.MustEnd("update", o)
	r.NonTriv = o.Fired > 0
	if o.Err != nil {
		r.Probe("reported")
		return
	}
	if o.Fired > 0 {
		r.Probe("success with faults")
	}
	h.Reopen2()
	r.told("update", o, fb)
	h.Commit(op)
	h.CheckFormat(true)
	h.CheckExtract()
	h.CheckValid("after success")
}

func aimAll(fs []simos.Fault, count map[string]int) []simos.Fault {
	var r []simos.Fault
	for _, f := range fs {
		r = append(r, aim(f, count))
	}
	return r
}

func runC05(r *Run) {
	h := r.NewHist()
	ended := func(what string, o *Outcome) bool {
		r.MustEnd(what, o)
		if o.Leak > 0 {
			r.Fail("leak", "%s left %d goroutines behind which wait forever (result: %s)\n%s", what, o.Leak, o, trimStack(o.Stack))
		}
		if o.Fired > 0 {
			r.NonTriv = true
			r.Probe("faulty operation ended")
		}
		return o.Err == nil
	}
	start := 0
	if len(r.C.Ops) > 0 && r.C.Ops[0].K == "root" {
		op := &r.C.Ops[0]
		count, _, _ := h.dry(op, func() error {
			if _, err := h.session(); err != nil {
				return err
			}
			return h.leave()
		})
		h.made = false
		if !ended("creation of the storage root", h.CreateRoot(aimAll(op.Faults, count))) {
			return
		}
		start = 1
	} else {
		h.MustCreate()
	}
	dirty := false
	for i := start; i < len(r.C.Ops); i++ {
		op := &r.C.Ops[i]
		switch op.K {
		case "upd", "fault":
			h.mount(op)
			fs := op.Faults
			if len(fs) > 0 {
				h.Reopen2()
				var count map[string]int
				w := r.W
				sv := w.Save("/st")
				o := r.Do("dry run", nil, func() error { return h.DoUpdate(op) })
				count = map[string]int{}
				for k, v := range w.Count {
					count[k] = v
				}
				ended("update", o)
				w.Restore("/st", sv)
				h.Reopen2()
				fs = aimAll(fs, count)
			}
			o := r.Do("update", fs, func() error { return h.DoUpdate(op) })
			if !ended("update", o) {
				dirty = true
			}
			if dirty || len(fs) > 0 {
				h.Reopen2()
			}
		case "reopen":
			h.Reopen2()
		case "read":
			h.Reopen2()
			id := r.C.IDs[op.Obj]
			if r.W.Exists("/st") {
				o := r.Do("dry run", nil, func() error {
					_, err := r.ReadOp(op.S, h.dir, id, op.V, h.fullArea(), op.Man)
					return err
				})
				ended("reading operation "+op.S, o)
				count := map[string]int{}
				for k, v := range r.W.Count {
					count[k] = v
				}
				h.Reopen2()
				o = r.Do("read "+op.S, aimAll(op.Faults, count), func() error {
					_, err := r.ReadOp(op.S, h.dir, id, op.V, h.fullArea(), op.Man)
					return err
				})
				ended("reading operation "+op.S, o)
			}
		}
	}
}

func runC21(r *Run) {
	h := r.NewHist()
	h.MustCreate()
	var op, retry *Op
	for i := range r.C.Ops {
		switch p := &r.C.Ops[i]; p.K {
		case "upd":
			h.Update(p)
		case "reopen":
			h.Reopen()
		case "fail":
			op = p
		case "retry":
			retry = p
		}
	}
	if op == nil {
		return
	}
	id := r.C.IDs[op.Obj]
	m := h.obj(id)
	if len(m.Vers) == 0 {
		panic(&Inconclusive{"first version"})
	}
	h.Reopen()
	h.mount(op)
	fs := op.Faults
	if len(fs) > 0 {
		good := *op
		count, _, ok := h.dry(op, func() error { return h.DoUpdate(&good) })
		if !ok {
			panic(&Inconclusive{"update fails without faults"})
		}
		fs = aimAll(fs, count)
	}
	r.W.Settle()
	rootInv := func() string {
		f := h.snapshotFiles()
		v := ReadRoot(f)
		o := v.Objs[id]
		if o == nil {
			return ""
		}
		return string(f[o.Dir+"/inventory.json"]) + string(f[o.Dir+"/inventory.json."+o.Alg])
	}
	before := rootInv()
	o := r.Do("failing update", fs, func() error { return h.DoUpdate(op) })
	if o.Bad() {
		panic(&Inconclusive{"update did not end"})
	}
	h.Reopen2()
	r.W.Settle()
	if rootInv() != before {
		r.Probe("already replaced")
		return
	}
	if o.Err == nil && !o.Crash && op.Abort == "" {
		r.Probe("nothing failed")
		return
	}
	if o.Crash {
		r.Probe("crashed")
	} else {
		r.Probe("failed")
	}
	r.NonTriv = true
	again := *op
	again.Faults, again.Abort = nil, ""
	if retry != nil {
		again = *retry
		h.mount(&again)
	}
	r.Ok("repeated update", "failed", func() error { return h.DoUpdate(&again) })
	h.Commit(&again)
	h.Reopen()
	h.CheckFormat(true)
	h.CheckExtract()
	h.Reopen()
	h.CheckValid("after the repeated update")
	h.checkMeta("after the repeated update")
	if retry != nil {
		r.Probe("repeated differently")
	} else {
		r.Probe("repeated")
	}
}
