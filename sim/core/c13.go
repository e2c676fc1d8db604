package core

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"verifsim/simos"
)

// C13: parallel work on different objects equals sequential work.

func init() {
	Experiments["C13"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			o := Opt{MaxObj: 5, MaxUpd: 10, Small: g.P(60), Acts: g.P(20), Names: g.N(2), Ext: g.P(40), Areas: g.P(20), Index: 15, Dedup: 60}
			GenHist(g, c, o)
			c.Sched.Yield = []uint32{1, 2, 3, 5, 7, 20, 50}[g.N(7)]
			cut := 0
			if len(c.Ops) > 0 {
				cut = g.N(len(c.Ops))
			}
			var ops []Op
			for i, op := range c.Ops {
				op.Keep = false
				if i == cut && g.P(50) {
					ops = append(ops, Op{K: "damage", S: g.Pick("alter", "truncate", "empty", "append", "remove", "add"), N: g.N(100000), Area: g.Pick("content", "sidecar", "declaration", "content inventory")})
				}
				if i >= cut && op.K == "upd" {
					op.K = "par"
					if g.P(8) {
						op.V = "gone"
					}
				}
				ops = append(ops, op)
				if i >= cut {
					for g.P(45) {
						ops = append(ops, Op{K: "pread", Obj: g.N(len(c.IDs)), S: g.Pick("checkobj", "checkobj", "extract", "object", "metaobj", "meta"), V: g.Pick("latest", "latest", "v1", "v2"), Man: g.P(40)})
					}
				}
			}
			c.Ops = ops
		},
		Run: runC13,
	}
}

// work is what one worker has to do and what came out.
type work struct {
	id   string
	ops  []*Op
	h    *Hist
	res  []string
	died string
}

func (h *Hist) parallel(s *Sess, together bool) (map[string][]byte, string) {
	r := h.r
	byID := map[string]*work{}
	var ws []*work
	for i := range r.C.Ops {
		op := &r.C.Ops[i]
		if op.K != "par" && op.K != "pread" {
			continue
		}
		id := r.C.IDs[op.Obj]
		w := byID[id]
		if w == nil {
			w = &work{id: id, h: &Hist{r: r, dir: h.dir, sess: s, made: true, n: 1000 * (len(ws) + 1), Model: map[string]*ObjModel{}}}
			if m := h.Model[id]; m != nil {
				w.h.Model[id] = m
			}
			byID[id] = w
			ws = append(ws, w)
			r.W.MustMkdirAll("/dst/" + fmt.Sprint(len(ws)))
		}
		w.ops = append(w.ops, op)
	}
	// all sources are there from the beginning
	for _, w := range ws {
		n := w.h.n
		for _, op := range w.ops {
			if op.K == "par" {
				w.h.mount(op)
				if op.V == "gone" {
					r.W.Delete(w.h.src(""))
				}
			}
		}
		w.h.n = n
	}
	r.W.Settle()
	run := func(k int, w *work) {
		defer func() {
			if p := recover(); p != nil {
				w.died = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
		}()
		for _, op := range w.ops {
			if op.K == "par" {
				w.h.n++
				w.h.last = nil
				err := w.h.DoUpdate(op)
				if err == nil {
					m := w.h.obj(w.id)
					m.Vers = append(m.Vers, &VerModel{State: r.C.Cfg.Apply(m.head(), op), Msg: op.Msg, User: op.User, Addr: op.Addr})
				}
				w.res = append(w.res, fmt.Sprintf("update of %q: %s", w.id, okErr(err)))
				continue
			}
			var a string
			var err error
			if op.S == "checkobj" {
				err = s.Root.CheckObjectByID(w.id)
			} else {
				a, err = r.readOn(s, "/dst/"+fmt.Sprint(k+1), op.S, w.id, "", op.V, "", op.Man)
			}
			if err != nil {
				a = ""
			}
			if op.S == "extract" {
				var l []string
				for _, x := range strings.Split(a, "\n") {
					if p := strings.Split(x, " ")[0]; !strings.HasPrefix(p, "manifest.") && !r.C.Cfg.record(p) {
						l = append(l, x)
					}
				}
				a = strings.Join(l, "\n")
			}
			w.res = append(w.res, fmt.Sprintf("%s of %q: %s %s", op.S, w.id, okErr(err), reStamp.ReplaceAllString(a, "time")))
		}
	}
	o := r.Do("work", nil, func() error {
		if !together {
			for k, w := range ws {
				run(k, w)
			}
			return nil
		}
		var wg sync.WaitGroup
		for k, w := range ws {
			wg.Add(1)
			go func() {
				defer wg.Done()
				run(k, w)
			}()
		}
		wg.Wait()
		return nil
	})
	r.MustEnd("parallel work", o)
	r.W.Settle()
	out := map[string][]byte{}
	for _, w := range ws {
		if w.died != "" {
			r.Fail("panic", "work on %q terminated the program: %s", w.id, trimStack(w.died))
		}
		for i, x := range w.res {
			out[fmt.Sprintf("result %d for %s", i, w.id)] = []byte(x)
		}
		if m := w.h.Model[w.id]; m != nil {
			h.Model[w.id] = m
		}
	}
	f, err := findings(s.Ctx)
	if err != nil {
		r.Fail("findings", "no findings: %v", err)
	}
	sort.Strings(f.Full)
	out["findings"] = []byte(strings.Join(f.Full, "\n"))
	if together {
		r.NonTriv = len(ws) > 1
		if len(f.Full) > 0 {
			r.Probe("findings of parallel validations")
		}
	}
	return out, fmt.Sprintf("%d workers", len(ws))
}

func okErr(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

// parTwin runs the whole history.
func (r *Run) parTwin(together bool) map[string][]byte {
	r.W = simos.NewWorld()
	simos.W = r.W
	r.W.Boot()
	h := r.NewHist()
	h.MustCreate()
	for i := range r.C.Ops {
		op := &r.C.Ops[i]
		setClock(1_700_000_000_000_000_000 + int64(i)*int64(24*time.Hour))
		switch op.K {
		case "upd":
			h.Update(op)
		case "damage":
			h.Damage(op)
		}
	}
	h.sess = nil
	var s *Sess
	r.Ok("open storage root", "failed", func() error {
		var err error
		s, err = r.Load(h.dir)
		return err
	})
	out, note := h.parallel(s, together)
	h.sess = nil
	for p, b := range normTimes(h.snapshotTree()) {
		out[p] = unpack(p, b)
	}
	for k, b := range h.answers() {
		out[k] = b
	}
	if together {
		r.Note = note
	}
	return out
}

func runC13(r *Run) {
	if r.C.Cfg.Zip {
		panic(&Inconclusive{"container"})
	}
	a := r.parTwin(false)
	b := r.parTwin(true)
	var ps []string
	for p := range a {
		ps = append(ps, p)
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	// results first
	sort.SliceStable(ps, func(i, j int) bool {
		x, y := !strings.Contains(ps[i], "/") || strings.HasPrefix(ps[i], "result "), !strings.Contains(ps[j], "/") || strings.HasPrefix(ps[j], "result ")
		return x && !y
	})
	for _, p := range ps {
		x, ok1 := a[p]
		y, ok2 := b[p]
		switch {
		case !ok1:
			r.Fail("differs", "%s exists only after parallel work", p)
		case !ok2:
			r.Fail("differs", "%s is missing after parallel work", p)
		case string(x) != string(y):
			r.Fail("differs", "%s differs between sequential and parallel work: %s", p, firstDiff(map[string][]byte{p: x}, map[string][]byte{p: y}))
		}
	}
	r.Probe("parallel equals sequential")
}
