package core

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
)

// C20: nothing is written outside the object or the extraction target.

var evilNames = []string{
	"../evil", "../../evil", "..", ".", "", "a/../../evil", "a/../b", "./c", "a//b", "/abs", "/st2/evil", "/../evil", "../../../../../../../st2/evil",
	"../evil/x.txt", "../../inventory.json", "../../../inventory.json", "..\\evil", "a/./b", "evil/", "...", "..hidden", "a/..", "a/../..", "../content/x",
	"../../v1/content/a.txt", "../../../other/x", "~/x", "a\x00b", "a\nb", "../../extensions/initial/config.json", "a/../../../v1/inventory.json", " ..", ".. /x", "../ x", "\t../x", "../../0=ocfl_object_1.1", "=u002E./x", "::..", "a:..", "a:../../evil", "ab:..", "caf\ue0e9.txt", "\ue0ff\ue0fe", "dir\ue0e9/x.txt", ". .", "-..", "~..", "  ../..",
}

var evilIDs = append([]string{
	"extensions", "extensions/x", "x:..", "ns:..", "ns:../evil", "o-..", "o-../evil", "0=ocfl_1.1", "ocfl_layout.json", "info:..", "ns:.", "ns:/", "ns:", "/", "//", ":", "ns:extensions", "o-extensions", "../st", "object-1/v1", "object-1/v1/content", "a/b/..", "%2e%2e/x", "..%2fx",
}, evilNames...)

func evilName(g *Rng) string {
	n := evilNames[g.N(len(evilNames))]
	if g.P(25) {
		n = g.Pick("a/", "../", "x/../", "/", "./") + n
	}
	if g.P(15) {
		n += g.Pick("/x", "/..", "/../..", "/.", "x")
	}
	return n
}

// wire turns what a case stands for into bytes which are not valid UTF-8.
func wire(s string) string {
	for i, c := range s {
		if c >= 0xe080 && c <= 0xe0ff {
			return s[:i] + string([]byte{byte(c)}) + wire(s[i+3:])
		}
	}
	return s
}

// craft alters the storage so that following operations meet crafted names.
func (h *Hist) craft(op *Op) {
	r := h.r
	g := NewRng(uint64(op.N) + 3)
	f, err := r.files(h.dir)
	if err != nil {
		return
	}
	v := ReadRoot(f)
	var ks []string
	for k := range f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	switch op.S {
	case "inventory":
		id := r.C.IDs[op.Obj]
		o := v.Objs[id]
		if o == nil {
			return
		}
		var m map[string]any
		if json.Unmarshal(f[o.Dir+"/inventory.json"], &m) != nil {
			return
		}
		sub := func(x map[string]any, k string) map[string]any { y, _ := x[k].(map[string]any); return y }
		pickKey := func(x map[string]any) string {
			var l []string
			for k := range x {
				l = append(l, k)
			}
			sort.Strings(l)
			if len(l) == 0 {
				return ""
			}
			return l[g.N(len(l))]
		}
		rename := func(x map[string]any) {
			k := pickKey(x)
			if l, ok := x[k].([]any); ok && len(l) > 0 {
				if g.P(50) {
					l[g.N(len(l))] = evilName(g)
				} else {
					x[k] = append(l, evilName(g))
				}
			}
		}
		for i := 1 + g.N(2); i > 0; i-- {
			switch g.N(9) {
			case 0, 1, 2, 3:
				vs := sub(m, "versions")
				rename(sub(sub(vs, pickKey(vs)), "state"))
			case 4, 5:
				rename(sub(m, "manifest"))
			case 6:
				m["contentDirectory"] = g.Pick("..", "../..", "../../evil", "/st2", "a/../../..", ".", "a/b", "../v1")
			case 7:
				// head and version
				n := g.Pick("../v9", "v1/../../x", "v0", "/v1", "v1/../..", "..", "v2/../../evil")
				vs := sub(m, "versions")
				if k, ok := m["head"].(string); ok {
					vs[n] = vs[k]
					if g.P(50) {
						delete(vs, k)
					}
				}
				m["head"] = n
			case 8:
				m["id"] = evilIDs[g.N(len(evilIDs))]
			}
		}
		b, _ := json.MarshalIndent(m, "", "  ")
		ch := map[string][]byte{}
		for _, d := range []string{o.Dir, o.Dir + "/" + o.Head} {
			if !fs.ValidPath(d) {
				continue
			}
			ch[d+"/inventory.json"] = b
			ch[d+"/inventory.json."+o.Alg] = []byte(digestOf(o.Alg, b) + " inventory.json\n")
		}
		h.storeFiles(ch, nil)
	case "config":
		var l []string
		for _, k := range ks {
			if path.Base(k) == "config.json" {
				l = append(l, k)
			}
		}
		if len(l) == 0 {
			return
		}
		p := l[g.N(len(l))]
		b := f[p]
		var sp []jspan
		for _, x := range spans(b) {
			if x.ka >= 0 && b[x.a] == '"' && !strings.Contains(string(b[x.ka:x.kb]), "extensionName") {
				sp = append(sp, x)
			}
		}
		if len(sp) == 0 {
			return
		}
		x := sp[g.N(len(sp))]
		q, _ := json.Marshal(evilName(g))
		n := append(append(append([]byte{}, b[:x.a]...), q...), b[x.b:]...)
		h.storeFiles(map[string][]byte{p: n}, nil)
		r.T("craft %s: %s", p, lineDiff(string(b), string(n)))
	}
}

func init() {
	Experiments["C20"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			GenHist(g, c, Opt{MaxObj: 2, MaxUpd: 2, Acts: g.P(20), Zip: 6, Ext: g.P(35), Areas: g.P(35), Index: 10})
			c.X = map[string]string{"ids": ""}
			ops := c.Ops
			if g.P(15) {
				ops = nil // crafted from the start
			}
			for i := 1 + g.N(3); i > 0; i-- {
				o := g.N(len(c.IDs))
				switch g.N(8) {
				case 0, 1: // identifier
					id := evilIDs[g.N(len(evilIDs))]
					if g.P(25) {
						id = g.Pick("../", "a/", "ns:", "/", "o-") + id
					}
					known := false
					for _, x := range c.IDs {
						known = known || x == id
					}
					if !known {
						c.IDs = append(c.IDs, id)
					}
					for x, y := range c.IDs {
						if y == id {
							o = x
						}
					}
				case 2:
					ops = append(ops, Op{K: "craft", S: "inventory", N: g.N(1 << 20), Obj: o})
				case 3:
					ops = append(ops, Op{K: "craft", S: "config", N: g.N(1 << 20), Obj: o})
				}
				if g.P(35) {
					x := genExtract(g, c)
					x.Obj = o
					ops = append(ops, x)
					continue
				}
				op := Op{K: "evil", Obj: o, Msg: "m", User: "u", Addr: "mailto:u@example.org", Dedup: g.P(50), Echo: g.P(40), Files: []FileSpec{{P: "a.txt", C: "A.12"}, {P: "b/c.txt", C: fmt.Sprintf("B%d.30", g.N(9))}}}
				if g.P(8) {
					op.Files = append(op.Files, FileSpec{P: g.Pick("caf\ue0e9.txt", "d\ue0ff/x.txt"), C: "F.9"})
				}
				op.Acts = append(op.Acts, Act{A: "folder"})
				area := func() string {
					if len(c.Cfg.Areas) == 0 {
						return ""
					}
					return g.Pick("", "content", "metadata", "extra", "full", "full", "nowhere", "../x")
				}
				for j := g.N(4); j > 0; j-- {
					switch g.N(6) {
					case 0, 1:
						op.Acts = append(op.Acts, Act{A: "data", P: evilName(g), C: fmt.Sprintf("E%d.20", g.N(99)), Area: area()})
					case 2, 3:
						a := Act{A: "reader", Ps: []string{evilName(g)}, C: fmt.Sprintf("E%d.20", g.N(99)), Area: area()}
						if g.P(30) {
							a.Ps = append(a.Ps, evilName(g))
						}
						op.Acts = append(op.Acts, a)
					case 4:
						op.Acts = append(op.Acts, Act{A: "rawren", P: g.Pick("a.txt", "b/c.txt"), To: evilName(g)})
					case 5:
						op.Acts = append(op.Acts, Act{A: "rawdel", P: evilName(g)})
					}
				}
				ops = append(ops, op)
			}
			x := genExtract(g, c)
			ops = append(ops, x)
			c.Ops = ops
		},
		Run: runC20,
	}
}

// inVersion tells whether a folder is in a version folder of an object.
func inVersion(d string, objs *VRoot) bool {
	for o := range objs.ByDir {
		if r := strings.TrimPrefix(strings.TrimPrefix(d, "/"), o+"/v"); len(r) < len(d)-1 && r != "" && r[0] >= '0' && r[0] <= '9' {
			return true
		}
	}
	return false
}

func within(p, dir string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }

// outside judges what was written. folder is where the object is, if it is known.
func (h *Hist) outside(what, folder string, dst bool, before map[string][]byte, objs *VRoot) {
	r := h.r
	var muts []string
	for _, rec := range r.W.Log {
		if rec.Mut && rec.Err == "" {
			muts = append(muts, rec.Path)
			if rec.Path2 != "" {
				muts = append(muts, rec.Path2)
			}
		}
	}
	if r.C.Cfg.Zip && !dst {
		for _, p := range muts {
			if p != h.dir+"/archive.zip" && !strings.HasPrefix(p, h.dir+"/archive.zip.") && !within(p, "/tmp") {
				r.Fail("outside", "%s wrote %s, which is not the container", what, p)
			}
		}
		after, err := r.files(h.dir)
		if err != nil {
			return
		}
		muts = nil
		for p, b := range after {
			if ob, ok := before[p]; !ok || string(ob) != string(b) {
				muts = append(muts, join(h.dir, p))
			}
			if !fs.ValidPath(p) {
				r.Fail("outside", "%s made the container entry %q", what, p)
			}
		}
		for p := range before {
			if _, ok := after[p]; !ok {
				muts = append(muts, join(h.dir, p))
			}
		}
		sort.Strings(muts)
	}
	if !dst && folder == "" {
		// a new object is where its declaration is made
		for _, p := range muts {
			if d := path.Dir(p); strings.HasPrefix(path.Base(p), "0=ocfl_object_") && !r.W.IsDir(p) && (folder == "" || len(d) < len(folder)) && !inVersion(strings.TrimPrefix(d, h.dir), objs) {
				folder = path.Dir(p)
			}
		}
	}
	if !dst && folder == "" {
		// or it is one of those which are there
		for _, p := range muts {
			for d := range objs.ByDir {
				if within(p, join(h.dir, d)) && len(join(h.dir, d)) > len(folder) {
					folder = join(h.dir, d)
				}
			}
		}
	}
	for _, p := range muts {
		p = path.Clean(p)
		switch {
		case within(p, "/tmp") || strings.HasPrefix(p, h.dir+"/archive.zip"):
		case dst && within(p, "/dst"):
		case dst:
			r.Fail("outside", "%s wrote %s", what, p)
		case folder != "" && within(p, folder):
		case folder != "" && within(folder, p) && within(p, h.dir) && len(p) > len(h.dir):
			// a folder on the way to the object
		case folder == "" && within(p, h.dir) && before[strings.TrimPrefix(p, h.dir+"/")] == nil && !r.W.Exists(p):
			// nothing was made
		case folder == "" && within(p, h.dir) && p != h.dir && r.W.IsDir(p):
			// a folder for an object that failed
		default:
			r.Fail("outside", "%s wrote %s, the object is in %q", what, p, folder)
		}
	}
	if dst || folder == "" {
		return
	}
	if folder == h.dir || !within(folder, h.dir) {
		r.Fail("outside", "%s put the object in %s", what, folder)
	}
	rel := strings.TrimPrefix(folder, h.dir+"/")
	if within(rel, "extensions") {
		r.Fail("outside", "%s put the object in %s", what, folder)
	}
	for d := range objs.ByDir {
		if d != rel && (within(rel, d) || within(d, rel) && r.C.Cfg.Layout != "pairtree") {
			r.Fail("outside", "%s put the object in %q while another is in %q", what, rel, d)
		}
	}
}

func runC20(r *Run) {
	c := *r.C
	c.IDs = append([]string{}, c.IDs...)
	for i := range c.IDs {
		c.IDs[i] = wire(c.IDs[i])
	}
	r.C = &c
	h := r.NewHist()
	h.MustCreate()
	crafted := map[string]bool{}
	rootCrafted := false
	n := 0
	for i := range r.C.Ops {
		op := &r.C.Ops[i]
		switch op.K {
		case "upd":
			h.Update(op)
		case "reopen":
			h.Reopen()
		case "craft":
			h.Reopen()
			h.noteFolders()
			h.craft(op)
			crafted[r.C.IDs[op.Obj]] = true
			rootCrafted = rootCrafted || op.S == "config"
		case "xtract":
			h.Reopen()
			if h.folders == nil {
				h.noteFolders()
			}
			r.W.Log, r.W.LogOn = nil, true
			o := h.extractOp(op)
			r.W.LogOn = false
			r.T("extract: %s", o)
			h.outside(fmt.Sprintf("extraction of %q %q", r.C.IDs[op.Obj], op.V), "", true, nil, nil)
			n++
			if o.Bad() {
				return
			}
		case "evil":
			h.Reopen()
			f, err := r.files(h.dir)
			if err != nil {
				return
			}
			v := ReadRoot(f)
			id := r.C.IDs[op.Obj]
			folder := ""
			if h.folders == nil {
				h.noteFolders()
			}
			if d, ok := h.folders[id]; ok && !rootCrafted {
				folder = join(h.dir, d)
			}
			h.mount(op)
			r.W.Log, r.W.LogOn = nil, true
			o := r.Do("crafted update", nil, func() error { return h.evilUpdate(op) })
			r.W.LogOn = false
			r.T("evil update of %q: %s", id, o)
			h.sess = nil
			what := fmt.Sprintf("update of %q with %s", id, toJSON(op.Acts))
			h.outside(what, folder, false, f, v)
			n++
			if o.Bad() {
				r.Probe("crash")
				return
			}
			r.W.Boot()
			if o.Err != nil {
				r.Probe("refused")
				if f, err = r.files(h.dir); err != nil {
					return
				}
				// goes on from here
				crafted[id] = true
				h.noteFolders()
				continue
			}
			r.Probe("accepted")
			h.noteFolders()
			if crafted[id] || rootCrafted {
				continue
			}
			// what is described as part of the object is inside
			w := h.Read()
			if len(crafted) == 0 && len(w.Problems) > 0 {
				r.Fail("broken", "%s was accepted and left: %s", what, strings.Join(w.Problems, "; "))
			}
			if len(crafted) == 0 && !rootCrafted && !r.C.Cfg.Zip {
				if fi, err := r.Validate(h.dir); err != nil {
					r.Fail("broken", "%s was accepted, validation failed: %v", what, err)
				} else if len(fi.Errors) > 0 {
					r.Fail("broken", "%s was accepted, but is not valid: %q", what, fi.Errors)
				}
			}
			if w.Objs[id] == nil {
				r.Fail("broken", "%s was accepted, but there is no such object", what)
			}
			if x := w.Objs[id]; x != nil {
				for _, vv := range x.Vers {
					for p := range vv.State {
						if !fs.ValidPath(p) || p == "." {
							r.Fail("name", "%s made the logical path %q", what, p)
						}
					}
				}
				for _, l := range x.Manifest {
					for _, p := range l {
						if !fs.ValidPath(p) || p == "." {
							r.Fail("name", "%s made the content path %q", what, p)
						}
					}
				}
			}
		}
	}
	r.NonTriv = n > 0
	r.Note = fmt.Sprintf("%d operations with crafted names, layout %s", n, r.C.Cfg.Layout)
}

// evilUpdate passes crafted names on; errors of single calls are ignored sometimes.
func (h *Hist) evilUpdate(op *Op) error {
	r := h.r
	s, err := h.session()
	if err != nil {
		return err
	}
	id := r.C.IDs[op.Obj]
	o, _, err := r.OpenObj(s, id)
	if err != nil {
		return err
	}
	src, err := openOS(r, h.src(""))
	if err != nil {
		return err
	}
	vfs, err := o.StartUpdate(src, op.Msg, op.User, op.Addr, op.Echo)
	if err != nil {
		return err
	}
	var first error
	for _, a := range op.Acts {
		var err error
		a.P, a.To = wire(a.P), wire(a.To)
		ps := []string{}
		for _, p := range a.Ps {
			ps = append(ps, wire(p))
		}
		a.Ps = ps
		switch a.A {
		case "folder":
			err = o.AddFolder(src, vfs, op.Dedup, a.Area)
		case "data":
			err = o.AddData(Content(a.C), a.P, op.Dedup, a.Area, false, false)
		case "reader":
			_, err = o.AddReader(&closeTrack{Reader: &chunkReader{b: Content(a.C)}}, a.Ps, a.Area, false, false)
		case "rawren":
			for _, f := range op.Files {
				if f.P == a.P {
					err = o.RenameFile(r.C.Cfg.logical("", a.P), a.To, digestOf(r.C.Cfg.Digest, Content(f.C)))
				}
			}
		case "rawdel":
			err = o.DeleteFile(a.P, "")
		}
		if err != nil {
			r.T("%s: %v", a.A, err)
			if first == nil {
				first = err
			}
			if op.Dedup { // gives up
				return err
			}
		}
	}
	if err := o.EndUpdate(); err != nil {
		return err
	}
	if err := o.Close(); err != nil {
		return err
	}
	if err := h.leave(); err != nil {
		return err
	}
	return nil
}
