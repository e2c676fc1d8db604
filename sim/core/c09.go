package core

import (
	"fmt"
	"sort"
	"strings"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
)

// inArea gives the files of an area, named as they are extracted.
func (c *Config) inArea(s State, area string) State {
	if len(c.Areas) == 0 {
		return s
	}
	if area == "" {
		area = c.defArea()
	}
	if area == "full" {
		return s
	}
	pre, ok := c.Areas[area]
	if !ok {
		return nil
	}
	n := State{}
	for k, v := range s {
		if strings.HasPrefix(k, pre+"/") {
			n[k[len(pre)+1:]] = v
		}
	}
	return n
}

// extractOp runs one extraction into an empty target.
func (h *Hist) extractOp(op *Op) *Outcome {
	r := h.r
	r.W.Clear("/dst")
	id := r.C.IDs[op.Obj]
	return r.Do(fmt.Sprintf("extract %q %q area %q", id, op.V, op.Area), op.Faults, func() error {
		s, err := r.LoadRO(h.dir)
		if err != nil {
			return fmt.Errorf("open storage root: %w", err)
		}
		dst, err := osfsrw.NewFS("/dst", r.Log)
		if err != nil {
			return err
		}
		folder := ""
		switch op.S {
		case "all":
			id = ""
		case "folder":
			o, err := s.Root.LoadObjectByID(id)
			if err != nil {
				return err
			}
			_ = o
			v := h.folders[id]
			folder, id = v, ""
		}
		return s.Root.Extract(dst, folder, id, op.V, op.Man, op.Area)
	})
}

func (h *Hist) noteFolders() {
	h.folders = map[string]string{}
	for d, o := range h.Read().ByDir {
		h.folders[o.ID] = d
	}
}

// wantExtract is what an extraction has to deliver; nil if it has to be refused.
func (h *Hist) wantExtract(id, version, area string) State {
	m := h.Model[id]
	if m == nil || len(m.Vers) == 0 {
		return nil
	}
	n := len(m.Vers)
	if version != "" && version != "latest" {
		k := 1
		for k <= n && version != h.vname(id, k) {
			k++
		}
		if k > n {
			return nil
		}
		n = k
	}
	return h.r.C.Cfg.inArea(m.Vers[n-1].State, area)
}

// checkManifest compares a manifest with what was extracted.
func (h *Hist) checkManifest(id string, got State, pre string) (State, string) {
	name := pre + "manifest." + h.alg(id)
	b, ok := got[name]
	if !ok {
		return got, "no manifest " + name
	}
	rest := got.clone()
	delete(rest, name)
	lines := map[string]int{}
	for _, l := range strings.SplitAfter(b, "\n") {
		if l != "" {
			if st := h.styles[id]; st != nil && st.Upper {
				d, p, _ := strings.Cut(l, " ")
				l = strings.ToLower(d) + " " + p
			}
			lines[l]++
		}
	}
	want := map[string]int{}
	for p, c := range rest {
		if strings.HasPrefix(p, pre) {
			want[fmt.Sprintf("%s %s\n", digestOf(h.alg(id), []byte(c)), p[len(pre):])]++
		}
	}
	var bad []string
	for l, n := range want {
		if lines[l] != n {
			bad = append(bad, fmt.Sprintf("%d times %q", lines[l], l))
		}
	}
	for l := range lines {
		if want[l] == 0 {
			bad = append(bad, fmt.Sprintf("additional %q", l))
		}
	}
	sort.Strings(bad)
	if len(bad) > 0 {
		return rest, "manifest: " + strings.Join(bad, ", ")
	}
	return rest, ""
}

// judgeExtract compares an extraction which reported success.
func (h *Hist) judgeExtract(op *Op, what string) {
	r := h.r
	got := treeState(r.W.Tree("/dst", false))
	ids := []string{r.C.IDs[op.Obj]}
	if op.S == "all" {
		ids = nil
		for id, m := range h.Model {
			if len(m.Vers) > 0 {
				ids = append(ids, id)
			}
		}
		sort.Strings(ids)
	}
	all := State{}
	rest := got
	for _, id := range ids {
		pre := ""
		if op.S == "all" {
			pre = h.folders[id] + "/"
		}
		if op.Man {
			var why string
			if rest, why = h.checkManifest(id, rest, pre); why != "" {
				r.Fail("manifest", "%s of %q %q: %s", what, id, op.V, why)
			}
		}
		want := h.wantExtract(id, op.V, op.Area)
		if want == nil {
			r.Fail("accepted", "%s of %q version %q area %q reports success", what, id, op.V, op.Area)
		}
		for k, v := range want {
			all[pre+k] = v
		}
	}
	if d := h.sameState(all, rest); d != "" {
		r.Fail("wrong", "%s of %q %q area %q reports success: %s", what, ids, op.V, op.Area, d)
	}
}

func genExtract(g *Rng, c *Case) Op {
	op := Op{K: "xtract", Obj: g.N(len(c.IDs)), V: g.Pick("v1", "v2", "v3", "latest", "latest", ""), Man: g.P(60), S: g.Pick("", "", "", "folder", "all")}
	if g.P(4) {
		op.V = g.Pick("v0", "v99", "v", "1", "v1x", "V1", "v01", "head")
	}
	if len(c.Cfg.Areas) > 0 {
		op.Area = g.Pick("", "full", "content", "metadata", "extra")
		if g.P(5) {
			op.Area = "nowhere"
		}
	}
	if op.S == "all" && len(c.IDs) > 1 && op.V != "latest" && op.V != "" {
		op.V = "v1"
	}
	return op
}

func init() {
	Experiments["C09"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			GenHist(g, c, Opt{MaxObj: 3, MaxUpd: 4, Acts: g.P(25), Names: g.N(2), Zip: 10, Ext: g.P(20), Areas: g.P(35), Links: true, Index: 8})
			if g.P(8) {
				// a file which is called like the manifest
				for i := range c.Ops {
					if c.Ops[i].K == "upd" {
						c.Ops[i].Files = append(c.Ops[i].Files, FileSpec{P: "manifest." + c.Cfg.Digest, C: "A.12"})
						break
					}
				}
			}
			for i := 2 + g.N(5); i > 0; i-- {
				if g.P(35) {
					c.Ops = append(c.Ops, Op{K: "damage", S: g.Pick(damageKinds...), N: g.N(1 << 20), Area: "content content inventory sidecar declaration"})
				}
				op := genExtract(g, c)
				if g.P(60) {
					for j := 1 + g.N(2); j > 0; j-- {
						if g.P(50) {
							op.Faults = append(op.Faults, genFault(g, "dst", writeFaults, 40))
						} else {
							op.Faults = append(op.Faults, genFault(g, "st", readFaults, 60))
						}
					}
				}
				c.Ops = append(c.Ops, op)
			}
		},
		Run: runC09,
	}
}

func runC09(r *Run) {
	h := r.NewHist()
	h.MustCreate()
	damaged, ready := false, false
	h.runOps(func(i int, op *Op) {
		if op.K != "damage" && op.K != "xtract" {
			return
		}
		if !ready {
			h.Reopen()
			h.noteFolders()
			ready = true
		}
		if op.K == "damage" {
			h.Damage(op)
			damaged = true
			return
		}
		before := r.firedNow()
		op = h.named(op)
		o := h.extractOp(op)
		r.MustEnd("extraction", o)
		what := "extraction"
		if damaged {
			what = "extraction of a damaged storage root"
		}
		if o.Fired > 0 {
			what += " with I/O errors"
		}
		if o.Err != nil {
			r.Probe("refused")
			if !damaged && o.Fired == 0 && h.mayExtract(op) {
				r.Fail("failed", "extraction of %q %q area %q fails without any reason: %s", r.C.IDs[op.Obj], op.V, op.Area, errStr(o.Err))
			}
			if damaged || o.Fired > 0 {
				r.NonTriv = true
			}
			return
		}
		h.judgeExtract(op, what)
		if o.Fired > 0 {
			for k, n := range r.W.Fired {
				p := strings.Split(k, ":")
				if n != before[k] && len(p) > 2 && p[0] == "dst" && mustTell[p[1]] {
					r.Fail("untold", "extraction reports success though %s on %s failed with %s", p[1], p[0], p[2])
				}
			}
		}
		r.Probe("extracted exactly")
		if damaged || o.Fired > 0 {
			r.NonTriv = true
			r.Probe("exact in spite of damage or faults")
		}
	})
	nt := r.NonTriv
	h.note()
	r.NonTriv = nt
}

// named is the operation with the version called as the object calls it.
func (h *Hist) named(op *Op) *Op {
	k := 0
	if _, err := fmt.Sscanf(op.V, "v%d", &k); err != nil || op.V != fmt.Sprintf("v%d", k) || h.styles == nil || k > 20 {
		return op
	}
	x := *op
	x.V = h.vname(h.r.C.IDs[op.Obj], k)
	return &x
}

// mayExtract tells whether the extraction of an undamaged storage root has to succeed.
func (h *Hist) mayExtract(op *Op) bool {
	ids := []string{h.r.C.IDs[op.Obj]}
	if op.S == "all" {
		ids = nil
		for id := range h.Model {
			ids = append(ids, id)
		}
	}
	for _, id := range ids {
		w := h.wantExtract(id, op.V, op.Area)
		if w == nil {
			return false
		}
		if _, ok := w["manifest."+h.alg(id)]; ok && op.Man {
			return false
		}
	}
	return true
}
