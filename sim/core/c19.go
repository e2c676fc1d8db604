package core

import (
	"fmt"
	"sort"
	"strings"
)

// C19: areas keep content and records apart.

func init() {
	Experiments["C19"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			GenHist(g, c, Opt{MaxObj: 2, MaxUpd: 5, Acts: g.P(15), Names: g.N(2), Zip: 6, Ext: g.P(40), Areas: true, AreaActs: g.P(70), Links: true, Index: 10})
			for i := g.N(3); i > 0; i-- {
				c.Ops = append(c.Ops, genExtract(g, c))
			}
		},
		Run: runC19,
	}
}

// recordFolders are the only folders records may be in, empty for none.
func (c *Config) recordFolders() []string {
	var out []string
	for _, e := range []string{"NNNN-filesystem", "NNNN-metafile", "NNNN-indexer"} {
		m, ok := c.EP[e].(map[string]any)
		if !ok || !c.hasExt(e) {
			continue
		}
		n, _ := m["storageName"].(string)
		switch m["storageType"] {
		case "area":
			out = append(out, c.Areas[n]+"/")
		case "path":
			out = append(out, c.logical("", n)+"/")
		}
	}
	return out
}

func runC19(r *Run) {
	h := r.NewHist()
	h.MustCreate()
	c := &r.C.Cfg
	n := 0
	h.runOps(func(i int, op *Op) {
		switch op.K {
		case "upd":
			h.CheckFormat(false)
			for id, o := range h.Read().Objs {
				for _, v := range o.Vers {
					for p := range v.State {
						if !c.record(p) {
							continue
						}
						ok := false
						for _, f := range c.recordFolders() {
							ok = ok || strings.HasPrefix(p, f) && !strings.Contains(p[len(f):], "/")
						}
						if !ok {
							r.Fail("record", "%q %s: the record %q is not in %q", id, v.Dir, p, c.recordFolders())
						}
					}
				}
			}
		case "xtract":
			h.Reopen()
			h.noteFolders()
			o := h.extractOp(op)
			r.MustEnd("extraction", o)
			if o.Err == nil {
				h.judgeExtract(op, "extraction")
				n++
			} else if h.mayExtract(op) {
				r.Fail("failed", "extraction of %q %q area %q fails without any reason: %s", r.C.IDs[op.Obj], op.V, op.Area, errStr(o.Err))
			}
		}
	})
	h.Reopen()
	h.noteFolders()
	areas := []string{"", "full"}
	for a := range c.Areas {
		areas = append(areas, a)
	}
	sort.Strings(areas)
	v := h.Read()
	multi := false
	for _, id := range r.C.IDs {
		m := h.Model[id]
		if m == nil {
			continue
		}
		for k := range m.Vers {
			if k > 2 && k < len(m.Vers)-1 {
				continue
			}
			in := 0
			for _, a := range areas {
				op := &Op{K: "xtract", V: h.vname(id, k+1), Area: a, Man: k%2 == 0}
				for x, y := range r.C.IDs {
					if y == id {
						op.Obj = x
					}
				}
				o := h.extractOp(op)
				r.MustEnd("extraction", o)
				if o.Err != nil {
					if !h.mayExtract(op) {
						continue
					}
					r.Fail("failed", "extraction of %q v%d area %q fails: %s", id, k+1, a, errStr(o.Err))
				}
				h.judgeExtract(op, "extraction")
				n++
				// exactly what the storage has in this area, records included
				got := treeState(r.W.Tree("/dst", false))
				delete(got, "manifest."+c.Digest)
				want := c.inArea(v.Objs[id].Vers[k].State, a)
				delete(want, "manifest."+c.Digest)
				if !want.equal(got) {
					r.Fail("area", "extraction of %q v%d area %q: %s", id, k+1, a, diffStates(want, got))
				}
				if a != "" && a != "full" && len(got) > 0 {
					in++
				}
			}
			multi = multi || in > 1
		}
	}
	h.note()
	r.NonTriv = n > 0 && multi
	r.Note += fmt.Sprintf(", %d extractions of areas %v", n, c.Areas)
}
