package core

import (
	"fmt"
	"strings"

	"github.com/je4/gocfl/v2/pkg/ocfl"
)

// C22: objects of other software. The history of another property runs with objects
// which were stored anew, in every conformant way, by the harness.

var foreignBases = []string{"C01", "C01", "C01", "C02", "C02", "C03", "C04", "C05", "C09", "C17"}

func init() {
	Experiments["C22"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			base := foreignBases[g.N(len(foreignBases))]
			for {
				*c = Case{Prop: c.Prop, Seed: c.Seed, Sched: c.Sched}
				Experiments[base].Gen(g, c, n)
				// records of extensions tell how the object was stored before
				if !c.Cfg.Zip && !c.Cfg.hasExt("NNNN-indexer") && !c.Cfg.hasExt("NNNN-filesystem") {
					break
				}
			}
			c.X = merge(c.X, "base", base)
			k := 0
			last := map[int]int{}
			for i := range c.Ops {
				if op := &c.Ops[i]; op.K == "upd" {
					last[op.Obj] = i
					if g.P(60) {
						op.Fo = g.U64() | 1
						k++
					}
				}
			}
			if base == "C01" && len(c.Ops) > 9 && g.P(60) {
				for i := range c.Ops {
					if c.Ops[i].Fo != 0 {
						c.Ops[i].Want = "full"
					}
				}
			}
			if k == 0 {
				for i := range c.Ops {
					if op := &c.Ops[i]; op.K == "upd" {
						op.Fo = g.U64() | 1
						break
					}
				}
			}
		},
		Run: func(r *Run) {
			base := r.C.X["base"]
			if base == "" {
				base = "C01"
			}
			if base != "C01" {
				Experiments[base].Run(r)
				return
			}
			runC22(r)
		},
	}
}

func merge(m map[string]string, k, v string) map[string]string {
	r := map[string]string{k: v}
	for a, b := range m {
		r[a] = b
	}
	r[k] = v
	return r
}

func runC22(r *Run) {
	h := r.NewHist()
	h.MustCreate()
	l := h.NewLedger()
	n := 0
	h.runOps(func(i int, op *Op) {
		if op.K != "upd" {
			return
		}
		when := fmt.Sprintf("after step %d", i)
		id := r.C.IDs[op.Obj]
		if op.Fo != 0 {
			n++
		}
		l.Check(when)
		l.Note()
		h.CheckFormat(true)
		h.CheckValid(when + h.style(id))
	})
	h.Reopen()
	h.CheckExtract()
	h.Reopen()
	v := h.Read()
	for _, id := range r.C.IDs {
		m := h.Model[id]
		if m == nil || len(m.Vers) == 0 {
			continue
		}
		s, err := r.LoadRO(h.dir)
		if err != nil {
			r.Fail("failed", "the storage root cannot be opened: %s", errStr(err))
		}
		var got *ocfl.ObjectMetadata
		r.Ok("metadata of "+id+h.style(id), "failed", func() error {
			x, err := s.Root.ExtractMeta("", id)
			if err != nil {
				return err
			}
			om, ok := x.Objects[id]
			if !ok {
				return fmt.Errorf("no metadata of %q", id)
			}
			got = om
			return nil
		})
		h.judgeMeta("metadata"+h.style(id), id, got, v)
	}
	r.NonTriv = n > 0
	r.Note = strings.TrimSpace(fmt.Sprintf("%d foreign objects, %d versions", n, h.versions()))
}
