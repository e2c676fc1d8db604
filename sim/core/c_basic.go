package core

import (
	"encoding/json"
	"fmt"
	"net/url"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"time"
	"unicode/utf8"
)

func toJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "json: " + err.Error()
	}
	return string(b)
}

func (h *Hist) versions() int {
	n := 0
	for _, m := range h.Model {
		n += len(m.Vers)
	}
	return n
}

func (h *Hist) note() {
	h.r.NonTriv = h.versions() > 1
	h.r.Note = fmt.Sprintf("%d versions of %d objects, layout %s", h.versions(), len(h.Model), h.r.C.Cfg.Layout)
}

// allowed warnings of an archive written by the software itself.
func (c *Config) warnOK(w string) bool {
	switch w {
	case "W004": // sha256 instead of sha512
		return c.Digest != "sha512"
	case "W005": // identifier is not a URI
		return true
	case "W013": // community extension which is not registered
		return true
	case "W007", "W008", "W009": // user or message
		return true
	}
	return false
}

func init() {
	wide := func(g *Rng) Opt {
		return Opt{MaxObj: 3, MaxUpd: 6, Acts: g.P(50), Names: g.N(2), Zip: 15, Ext: g.P(35), Areas: g.P(25), Links: true}
	}

	// C02: committed versions never change
	Experiments["C02"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			o := wide(g)
			o.MaxUpd = 5
			o.Zip = 8
			GenHist(g, c, o)
			genTrouble(g, c)
		},
		Run: runC02,
	}

	// C08: what is stored is an OCFL storage root by the specification
	Experiments["C08"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) { GenHist(g, c, wide(g)) },
		Run: func(r *Run) {
			h := r.NewHist()
			h.MustCreate()
			h.CheckFormat(true)
			h.runOps(func(i int, op *Op) {
				if op.K == "upd" {
					h.CheckFormat(true)
				}
			})
			h.note()
		},
	}

	// C07: what gocfl wrote it finds valid
	Experiments["C07"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) { GenHist(g, c, wide(g)) },
		Run: func(r *Run) {
			h := r.NewHist()
			h.MustCreate()
			check := func(when string) {
				h.Reopen()
				f := h.CheckValid(when)
				h.Reopen()
				f2 := h.CheckValid(when + " (again)")
				h.Reopen()
				if sortedCodes(f) != sortedCodes(f2) {
					r.Fail("repeat", "validation %s found [%s], repeated [%s]", when, sortedCodes(f), sortedCodes(f2))
				}
				for i, w := range f.Warnings {
					if !r.C.Cfg.warnOK(w) {
						r.Fail("validate", "validation %s warns without reason: %s: %s", when, w, f.Full[i])
					}
					r.Probe("warning " + w)
				}
			}
			check("of the empty storage root")
			n := 0
			h.runOps(func(i int, op *Op) {
				if op.K == "upd" {
					n++
					check(fmt.Sprintf("after update %d", n))
				}
			})
			h.note()
		},
	}

	// C11: unchanged content is neither stored nor versioned again
	Experiments["C11"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			GenHist(g, c, Opt{MaxObj: 2, MaxUpd: 6, Acts: g.P(30), Names: g.N(2), Zip: 10, Areas: g.P(15), Dedup: [2]int{100, 65}[g.N(2)], Links: true, Long: 15})
			// updates repeated without any change
			var ops []Op
			for _, op := range c.Ops {
				ops = append(ops, op)
				if op.K == "upd" && op.Dedup && onlyFolders(&op) && g.P(50) {
					if g.P(50) {
						ops = append(ops, Op{K: "reopen"})
					}
					rep := op
					rep.Msg = "again"
					ops = append(ops, Op{K: "same"}, rep)
				}
			}
			c.Ops = ops
		},
		Run: runC11,
	}

	// C12: a storage root is found again with exactly its objects
	Experiments["C12"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			GenHist(g, c, Opt{MaxObj: 6, MaxUpd: 8, Small: true, Names: g.N(2), Zip: 12, Areas: g.P(10)})
			for i := g.N(4); i > 0; i-- {
				// an identifier like another one
				id := aliasID(g, &c.Cfg, c.IDs[g.N(len(c.IDs))])
				known := false
				for _, o := range c.IDs {
					known = known || o == id
				}
				if known || id == "" || !utf8.ValidString(id) || c.Cfg.Zip && nestedID(c.IDs, id) {
					continue
				}
				c.IDs = append(c.IDs, id)
				op := Op{K: "alias", Obj: len(c.IDs) - 1, Dedup: g.P(50), Echo: g.P(50), Msg: "alias", User: "u", Addr: "mailto:u@example.org", Files: []FileSpec{{P: "alias.txt", C: fmt.Sprintf("Q%d.20", i)}}, Acts: []Act{{A: "folder"}}}
				// when all others are there
				at := 0
				for x := range c.IDs {
					for y := range c.Ops {
						if c.Ops[y].K == "upd" && c.Ops[y].Obj == x {
							at = max(at, y+1)
							break
						}
					}
				}
				at += g.N(len(c.Ops) + 1 - at)
				c.Ops = append(c.Ops[:at], append([]Op{op}, c.Ops[at:]...)...)
			}
		},
		Run: runC12,
	}

	// C14: reading never writes
	Experiments["C14"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			o := wide(g)
			o.MaxUpd = 3
			GenHist(g, c, o)
			if g.P(40) {
				c.Ops = append(c.Ops, Op{K: "damage", S: g.Pick(damageKinds...), N: g.N(1 << 20)})
			}
			for i := 0; i < 3+g.N(6); i++ {
				op := Op{K: "read", S: g.Pick(readOps...), Obj: g.N(len(c.IDs)), V: g.Pick("v1", "v2", "latest", ""), Man: g.P(50), Area: g.Pick("", "full", "content")}
				if g.P(25) {
					op.Faults = append(op.Faults, genFault(g, "st", readFaults, 60))
				}
				c.Ops = append(c.Ops, op)
			}
		},
		Run: runC14,
	}

	// C16: the clock does not matter
	Experiments["C16"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			GenHist(g, c, Opt{MaxObj: 2, MaxUpd: 6, Acts: g.P(30), Names: 0, Zip: 8, Areas: g.P(10), Small: true})
			for i := range c.Ops {
				op := &c.Ops[i]
				if op.K != "upd" {
					continue
				}
				switch g.N(5) {
				case 0:
					op.T = 1 // 1970
				case 1:
					op.T = int64(g.N(4_000_000_000))*1_000_000_000 + int64(g.N(1_000_000_000))
				case 2:
					op.T = 1_700_000_000_000_000_000 // stands still
				case 3:
					op.T = 1_700_000_000_000_000_000 - int64(g.N(100_000))*1_000_000_000
				}
				for j := g.N(3); j > 0; j-- {
					op.Faults = append(op.Faults, clockFault(g))
				}
			}
		},
		Run: runC16,
	}
}

func (h *Hist) snapshotTree() map[string][]byte {
	if h.r.C.Cfg.Zip {
		f, err := h.r.files(h.dir)
		if err != nil {
			h.r.Fail("container", "the container is not readable: %v", err)
		}
		return f
	}
	return h.r.W.Tree(h.dir, true)
}

var readmePath = regexp.MustCompile(`^v[0-9]+/[^/]+/README\.md$`)

func runC11(r *Run) {
	h := r.NewHist()
	h.MustCreate()
	var before map[string][]byte
	stored := map[string]map[string][]string{} // object, digest, content paths
	readmes := map[string]int{}                // object and digest
	h.runOps(func(i int, op *Op) {
		switch op.K {
		case "same":
			before = h.snapshotTree()
		case "upd":
			if before != nil {
				after := h.snapshotTree()
				if !sameTree(before, after) {
					r.Fail("changed", "an update without any change altered the storage root: %s", treeDiff(before, after))
				}
				r.Probe("unchanged update")
				before = nil
			}
			h.CheckFormat(false)
			v := h.Read()
			id := r.C.IDs[op.Obj]
			o := v.objByID(id)
			if o == nil {
				return
			}
			if h.last != nil && h.last.GetID() == id && h.last.GetInventory().GetHead() != o.Head {
				r.Fail("head", "object %q: the head is %s after the update, the open object says %s", id, o.Head, h.last.GetInventory().GetHead())
			}
			man := map[string][]string{}
			for d, ps := range o.Manifest {
				for _, p := range ps {
					if !r.C.Cfg.record(p) && !strings.HasSuffix(p, "/README.md") {
						man[d] = append(man[d], p)
					}
				}
			}
			if op.Dedup && !byReader(op) {
				for d, ps := range man {
					old := stored[id][d]
					if len(old) > 0 && len(ps) > len(old) {
						r.Fail("stored", "object %q: content held as %q is stored again: %q", id, old, ps)
					}
					if len(old) == 0 && len(ps) > 1 {
						r.Fail("stored", "object %q: content stored %d times by one update: %q", id, len(ps), ps)
					}
					if len(old) > 1 {
						r.Probe("stored more than once before")
					}
				}
			}
			stored[id] = man
			// the description of the areas is content too, the extension asks for deduplication
			for d, ps := range o.Manifest {
				var rd []string
				for _, p := range ps {
					if readmePath.MatchString(p) && r.C.Cfg.hasExt("NNNN-content-subpath") {
						rd = append(rd, p)
					}
				}
				if old := readmes[id+"\x00"+d]; old > 0 && len(rd) > old {
					r.Fail("stored", "object %q: the unchanged description of the areas is stored again: %q", id, rd)
				} else if old > 0 {
					r.Probe("description of areas kept")
				}
				readmes[id+"\x00"+d] = len(rd)
			}
		}
	})
	h.note()
}

// byReader tells whether an update stores something with AddReader, which takes no
// part in deduplication.
func byReader(op *Op) bool {
	for _, a := range op.Acts {
		if a.A == "reader" {
			return true
		}
	}
	return false
}

// aliasID returns an identifier which might be taken for another one.
func aliasID(g *Rng, c *Config, id string) string {
	l := []string{id + "/", "/" + id, "./" + id, id + "/.", id + "//", id + " ", " " + id, strings.ToUpper(id), strings.ToLower(id), strings.ToUpper(id[:1]) + id[1:], id + "/x", id + "/v1", id + "/v1/content", id + "/extensions", id[:(len(id)+1)/2], id + "x", strings.ReplaceAll(id, ":", "_"), strings.ReplaceAll(id, ":", "+"), strings.ReplaceAll(id, "/", "="), strings.ReplaceAll(id, "/", "//"), strings.ReplaceAll(id, "/", "_"), url.QueryEscape(id), url.PathEscape(id), strings.ReplaceAll(id, "-", "~"), id + "\n", id + "\t", strings.ReplaceAll(id, " ", "\u00a0"), strings.ReplaceAll(id, ":", "=u003A"), "=u" + id}
	switch c.Layout {
	case "0006", "0007":
		d, _ := c.LP["delimiter"].(string)
		if d != "" {
			if i := strings.LastIndex(id, d); i >= 0 {
				l = append(l, "zz"+d+id[i+len(d):], id[i+len(d):], d+id[i+len(d):], "a"+d+"b"+d+id[i+len(d):], id[:i+len(d)]+"0"+id[i+len(d):], id+"0", "yy"+d+id, strings.ToUpper(id[:i])+id[i:], strings.ToUpper(id[:i])+id[i:], id[:i]+strings.ToUpper(id[i:]))
			}
		}
	case "pairtree":
		l = append(l, "info:"+id, strings.TrimPrefix(id, "info:"), id[:1]+"="+id[1:], strings.ReplaceAll(id, "/", "="), strings.ReplaceAll(id, ":", "+"), id+"yz", id+"yzzz")
	}
	return l[g.N(len(l))]
}

// Alias writes an object whose identifier resembles another one.
func (h *Hist) Alias(op *Op) {
	r := h.r
	h.Reopen()
	before := h.snapshotFiles()
	id := r.C.IDs[op.Obj]
	h.mount(op)
	o := r.Do("update of "+id, nil, func() error { return h.DoUpdate(op) })
	r.MustEnd("update of "+id, o)
	if o.Err == nil {
		h.Commit(op)
		r.Probe("alias accepted")
		h.CheckFormat(false)
	} else {
		if r.C.Cfg.Zip {
			h.Reopen2()
		}
		h.sess = nil
		r.T("alias refused: %v", o.Err)
		r.Probe("alias refused")
		if after := h.snapshotFiles(); !sameTree(before, after) {
			r.Fail("alias", "the refused update of %q changed the storage root: %s", id, treeDiff(before, after))
		}
	}
	h.Reopen()
}

func runC12(r *Run) {
	h := r.NewHist()
	h.MustCreate()
	alias := map[string]bool{}
	for i := range r.C.Ops {
		if op := &r.C.Ops[i]; op.K == "alias" {
			alias[r.C.IDs[op.Obj]] = true
		}
	}
	check := func() {
		h.Reopen()
		v := h.Read()
		r.Ok("list and load", "failed", func() error {
			s, err := r.LoadRO(h.dir)
			if err != nil {
				return err
			}
			fs, err := s.Root.GetObjectFolders()
			if err != nil {
				return err
			}
			seen := map[string]bool{}
			for _, f := range fs {
				if seen[f] {
					r.T("folder %q twice", f)
					h.class = fmt.Sprintf("object folder %q listed twice", f)
				}
				seen[f] = true
				if v.ByDir[f] == nil {
					h.class = fmt.Sprintf("folder %q listed which is no object", f)
				}
				o, err := s.Root.LoadObjectByFolder(f)
				if err != nil {
					return fmt.Errorf("load folder %q: %w", f, err)
				}
				if v.ByDir[f] != nil && o.GetID() != v.ByDir[f].ID {
					h.class = fmt.Sprintf("folder %q loads object %q instead of %q", f, o.GetID(), v.ByDir[f].ID)
				}
			}
			n := 0
			for _, id := range r.C.IDs {
				m := h.Model[id]
				want := m != nil && len(m.Vers) > 0
				if !want && (alias[id] || len(alias) > 0) {
					// there may be something in its place, but it is not this object
					if _, err := s.Root.LoadObjectByID(id); err == nil {
						h.class = fmt.Sprintf("loading %q, which does not exist, gives an object", id)
					}
					continue
				}
				ex, err := s.Root.ObjectExists(id)
				if err != nil {
					return fmt.Errorf("exists %q: %w", id, err)
				}
				if ex != want {
					h.class = fmt.Sprintf("object %q exists: %v instead of %v", id, ex, want)
				}
				if !want {
					continue
				}
				n++
				o, err := s.Root.LoadObjectByID(id)
				if err != nil {
					return fmt.Errorf("load %q: %w", id, err)
				}
				if o.GetID() != id {
					h.class = fmt.Sprintf("loading %q gives object %q", id, o.GetID())
				}
				st := o.GetInventory().GetVersionStrings()
				if len(st) != len(m.Vers) {
					h.class = fmt.Sprintf("object %q has %d versions instead of %d", id, len(st), len(m.Vers))
				}
				r.Probe("loaded")
			}
			if len(fs) != n {
				h.class = fmt.Sprintf("%d object folders listed for %d objects: %v", len(fs), n, fs)
			}
			if s.St.zip {
				return s.Close()
			}
			return nil
		})
		if h.class != "" {
			r.Fail("lookup", "%s", h.class)
		}
	}
	check()
	h.runOps(func(i int, op *Op) {
		if op.K == "alias" {
			h.Alias(op)
			check()
		}
		if op.K == "upd" {
			h.CheckFormat(false)
			if i%2 == 0 {
				check()
			}
			// creating it again is refused
			id := r.C.IDs[op.Obj]
			if m := h.Model[id]; m == nil || len(m.Vers) == 0 {
				return
			}
			h.Reopen()
			before := h.snapshotTree()
			o := r.Do("create again", nil, func() error {
				s, err := r.Load(h.dir)
				if err != nil {
					r.T("load: %v", err)
					return nil
				}
				m, err := r.objMgr(s)
				if err != nil {
					return err
				}
				_, err = s.Root.CreateObject(id, s.Root.GetVersion(), s.Root.GetDigest(), algs(r.C.Cfg.Fixity), m)
				if s.St.zip {
					if e := s.Close(); e != nil {
						r.T("close: %v", e)
					}
				}
				return err
			})
			r.MustEnd("creation of an existing object", o)
			if o.Err == nil {
				r.Fail("recreate", "creation of the existing object %q was not refused", id)
			}
			if after := h.snapshotTree(); !sameTree(before, after) {
				r.Fail("recreate", "refused creation of %q changed the storage root: %s", id, treeDiff(before, after))
			}
			h.Reopen()
		}
	})
	check()
	// the same configuration, everything within one process
	v := h.Read()
	h2 := &Hist{r: r, dir: "/st2", Model: map[string]*ObjModel{}}
	r.W.MustMkdirAll("/st2")
	h2.MustCreate()
	for i := range r.C.Ops {
		switch op := &r.C.Ops[i]; op.K {
		case "upd":
			h2.Update(op)
		case "alias":
			h2.Alias(op)
		}
	}
	if r.C.Cfg.Zip {
		h2.Reopen()
	}
	w := h2.Read()
	for id, o := range v.Objs {
		if p := w.Objs[id]; p == nil || p.Dir != o.Dir {
			d := "nowhere"
			if p != nil {
				d = p.Dir
			}
			r.Fail("mapping", "object %q is at %q in the reopened storage root, at %q in one that stayed open", id, o.Dir, d)
		}
	}
	// and what is described as layout is what was configured
	f, _ := r.files(h.dir)
	var lay struct{ Extension string }
	if b, ok := f["ocfl_layout.json"]; ok {
		json.Unmarshal(b, &lay)
		if lay.Extension != r.C.Cfg.layoutName() {
			r.Fail("layout", "ocfl_layout.json names %q instead of %q", lay.Extension, r.C.Cfg.layoutName())
		}
	} else {
		r.Fail("layout", "no ocfl_layout.json")
	}
	r.NonTriv = len(v.Objs) > 1
	r.Note = fmt.Sprintf("%d objects, layout %s", len(v.Objs), r.C.Cfg.Layout)
}

func runC14(r *Run) {
	h := r.NewHist()
	h.MustCreate()
	answers := map[string]string{}
	n := 0
	for i := range r.C.Ops {
		op := &r.C.Ops[i]
		switch op.K {
		case "upd":
			h.Update(op)
		case "reopen":
			h.Reopen()
		case "damage":
			h.Reopen()
			h.Damage(op)
		case "read":
			h.Reopen()
			before := r.W.Tree("/st", true)
			id := r.C.IDs[op.Obj]
			key := toJSON([]any{op.S, id, op.V, op.Area, op.Man})
			r.W.Log, r.W.LogOn = nil, true
			var ans string
			o := r.Do("read "+op.S, op.Faults, func() error {
				var err error
				ans, err = r.ReadOp(op.S, h.dir, id, op.V, op.Area, op.Man)
				return err
			})
			r.W.LogOn = false
			for _, rec := range r.W.Log {
				if rec.Mut && rec.Dom == "st" {
					r.Fail("writes", "reading operation %s performed %s %s", op.S, rec.Op, rec.Path)
				}
			}
			if after := r.W.Tree("/st", true); !sameTree(before, after) {
				r.Fail("changed", "reading operation %s changed the storage root: %s", op.S, treeDiff(before, after))
			}
			n++
			if o.Bad() {
				r.Probe("crashed reader") // other properties' business
				return
			}
			if o.Fired == 0 {
				a := ans
				if o.Err != nil {
					a = "error"
				}
				if prev, ok := answers[key]; ok {
					r.Probe("repeated")
					if prev != a {
						r.Fail("repeat", "reading operation %s gives another answer when repeated:\n%s", key, lineDiff(prev, a))
					}
				}
				answers[key] = a
				// again at once
				r.W.Boot()
				var ans2 string
				o2 := r.Do("again "+op.S, nil, func() error {
					var err error
					ans2, err = r.ReadOp(op.S, h.dir, id, op.V, op.Area, op.Man)
					return err
				})
				if o2.Bad() {
					return
				}
				if o2.Err != nil {
					ans2 = "error"
				}
				if ans2 != a {
					r.Fail("repeat", "reading operation %s gives another answer when repeated:\n%s", key, lineDiff(a, ans2))
				}
			}
		}
	}
	r.NonTriv = n > 0 && h.versions() > 0
	r.Note = fmt.Sprintf("%d reading operations on %d versions", n, h.versions())
}

func cut(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

func runC16(r *Run) {
	h := r.NewHist()
	r.W.Jump = jumpClock
	h.MustCreate()
	type span struct{ a, b time.Time }
	at := map[string][]span{}
	for i := range r.C.Ops {
		op := &r.C.Ops[i]
		switch op.K {
		case "upd":
			if op.T != 0 {
				setClock(op.T)
			}
			h.mount(op)
			m := h.obj(r.C.IDs[op.Obj])
			n0 := len(m.Vers)
			// clock readings that were possible during the operation
			lo := runtime.SimWall()
			cur := lo
			hi := lo
			r.W.Jump = func(sec int64) {
				jumpClock(sec)
				cur = runtime.SimWall()
				if cur < lo {
					lo = cur
				}
				if cur > hi {
					hi = cur
				}
			}
			o := r.Do("update", op.Faults, func() error { return h.DoUpdate(op) })
			r.MustEnd("update", o)
			if o.Err != nil {
				r.Fail("failed", "update failed though only the clock moved: %s", errStr(o.Err))
			}
			if c := runtime.SimWall(); c > hi {
				hi = c
			}
			h.Commit(op)
			if len(m.Vers) > n0 {
				at[m.ID] = append(at[m.ID], span{time.Unix(0, lo), time.Unix(0, hi)})
			}
			r.W.Jump = jumpClock
		case "reopen":
			h.Reopen()
		}
	}
	h.Reopen()
	h.CheckFormat(true)
	v := h.Read()
	for id, m := range h.Model {
		o := v.Objs[id]
		if o == nil {
			continue
		}
		for i := range m.Vers {
			c := o.Vers[i].Time
			sp := at[id][i]
			if c.Before(sp.a.Truncate(time.Second)) || c.After(sp.b.Add(time.Second)) {
				r.Fail("time", "object %q v%d has creation time %s, the clock showed %s to %s", id, i+1, o.Vers[i].Created, sp.a.UTC().Format(time.RFC3339Nano), sp.b.UTC().Format(time.RFC3339Nano))
			}
		}
		// latest is the newest version
		area := ""
		if r.C.Cfg.hasExt("NNNN-content-subpath") {
			area = "full"
		}
		if len(m.Vers) > 0 {
			for _, vn := range []string{"latest", ""} {
				got, oc := h.ExtractVersion(id, vn, false, area, nil, true)
				r.MustEnd("extraction", oc)
				if oc.Err != nil {
					r.Fail("extract", "extraction of %q %q failed: %s", id, vn, errStr(oc.Err))
				}
				if d := h.sameState(m.head(), got); d != "" {
					r.Fail("extract", "%q of %q is not the newest version: %s", vn, id, d)
				}
			}
		}
	}
	h.CheckValid("at the end")
	// the same with a well behaved clock
	setClock(1_700_000_000_000_000_000)
	a := normTimes(h.snapshotTree())
	h2 := &Hist{r: r, dir: "/st2", Model: map[string]*ObjModel{}}
	r.W.MustMkdirAll("/st2")
	h2.MustCreate()
	for i := range r.C.Ops {
		switch op := &r.C.Ops[i]; op.K {
		case "upd":
			h2.Update(op)
		case "reopen":
			h2.Reopen()
		}
	}
	b := normTimes(h2.snapshotTree())
	if !sameTree(a, b) {
		r.Fail("differs", "the clock changed more than times: %s", treeDiff(b, a))
	}
	h.note()
}

var reTime = regexp.MustCompile(`"created"\s*:\s*"[^"]*"`)

// normTimes removes creation times, and digests of inventories.
func normTimes(t map[string][]byte) map[string][]byte {
	r := map[string][]byte{}
	for p, b := range t {
		base := p[strings.LastIndexByte(p, '/')+1:]
		if base == "inventory.json" {
			b = normInv(b)
		} else if strings.HasPrefix(base, "inventory.json.") {
			if _, ok := t[p[:len(p)-len(base)]+"inventory.json"]; ok {
				b = []byte("digest")
			}
		}
		r[p] = b
	}
	return r
}

// normInv is an inventory without times, with lists in order.
func normInv(b []byte) []byte {
	b = reTime.ReplaceAll(b, []byte(`"created":""`))
	var v any
	if json.Unmarshal(b, &v) != nil {
		return b
	}
	var walk func(v any)
	walk = func(v any) {
		switch x := v.(type) {
		case map[string]any:
			for _, y := range x {
				walk(y)
			}
		case []any:
			sort.Slice(x, func(i, j int) bool { return fmt.Sprint(x[i]) < fmt.Sprint(x[j]) })
		}
	}
	walk(v)
	b, _ = json.Marshal(v)
	return b
}
