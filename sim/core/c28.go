package core

import (
	"sort"
	"strings"
)

// C28: operations give back what they took: open files, temporary files, goroutines.

// the experiments whose operations are watched
var tidyBases = []string{"C01", "C04", "C04", "C05", "C09", "C12", "C13", "C15", "C17", "C18", "C18", "C20", "C21", "C22", "C23", "C24", "C24", "C25", "C25", "C26", "C27"}

func init() {
	Experiments["C28"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			b := tidyBases[g.N(len(tidyBases))]
			Experiments[b].Gen(g, c, n)
			if c.X == nil {
				c.X = map[string]string{}
			}
			c.X["tidy"] = b
		},
		Run: func(r *Run) {
			r.tidy = true
			defer func() {
				p := recover()
				if p == nil {
					return
				}
				// what else is wrong is the matter of the other properties
				if v, ok := p.(*Violation); ok && !strings.HasPrefix(v.Class, "left ") {
					r.T("%s: %s", v.Class, v.Msg)
					return
				}
				panic(p)
			}()
			Experiments[r.C.X["tidy"]].Run(r)
		},
	}
}

// left is what an operation could have left behind.
func (r *Run) left() map[string]bool {
	l := map[string]bool{}
	for f := range r.W.OpenHandles {
		// the library of the indexer never closes what it reads
		if n := f.Name(); r.C.Cfg.Cache && strings.HasPrefix(n, "/tmp/gocfl_") && !f.Writable() {
			continue
		}
		// a container stays open as long as its session
		if n := f.Name(); !strings.HasSuffix(n, "archive.zip") && !strings.HasSuffix(n, "archive.zip.tmp") {
			l["file "+n+" open"] = true
		}
	}
	for n := range r.W.Tree("/tmp", true) {
		l["temporary file "+n] = true
	}
	return l
}

func (r *Run) checkTidy(name string, before map[string]bool, out *Outcome) {
	if out.Crash || out.Bad() {
		return
	}
	var l []string
	stuck := false // temporary files could not be removed
	for k := range r.W.Fired {
		stuck = stuck || strings.HasPrefix(k, "tmp:remove")
	}
	for n := range r.left() {
		if !before[n] && !(stuck && strings.HasPrefix(n, "temporary")) {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	if len(l) > 0 {
		class := "left open"
		if !strings.HasPrefix(l[0], "file") {
			class = "left file"
		}
		r.Fail(class, "%s (%s) left %s", name, out, strings.Join(l, ", "))
	}
	if out.Leak > 0 {
		r.Fail("left goroutine", "%s (%s) left %d goroutines behind which wait forever\n%s", name, out, out.Leak, trimStack(out.Stack))
	}
	r.NonTriv = true
	if out.Err != nil {
		r.Probe("failed operation")
		if out.Fired > 0 {
			r.Probe("faulty operation")
		}
	} else {
		r.Probe("successful operation")
	}
}
