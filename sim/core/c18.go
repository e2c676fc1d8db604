package core

import (
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"
)

var mangleKinds = []string{"json", "json", "json", "json", "json", "keys", "record", "record", "damage", "tree", "tree", "bytes", "cross", "config", "config"}

// mangle makes the storage root malformed; op.N chooses.
func (h *Hist) mangle(op *Op) {
	r := h.r
	g := NewRng(uint64(op.N) + 5)
	kind := op.S
	if r.C.Cfg.Zip && g.P(25) {
		// the container itself
		p := join(h.dir, "archive.zip")
		b, ok := r.W.Get(p)
		if !ok || len(b) == 0 {
			return
		}
		b = append([]byte{}, b...)
		switch g.N(4) {
		case 0:
			b = b[:g.N(len(b))]
		case 1:
			for i := 1 + g.N(4); i > 0; i-- {
				b[g.N(len(b))] ^= byte(1 + g.N(255))
			}
		case 2:
			// the directory at the end
			for i := 1 + g.N(4); i > 0; i-- {
				k := len(b) - 1 - g.N(min(len(b), 600))
				b[k] = byte(g.N(256))
			}
		default:
			b = append(b, make([]byte, g.N(100))...)
		}
		r.W.Put(p, b)
		r.W.Settle()
		r.T("mangle container")
		return
	}
	f, err := r.files(h.dir)
	if err != nil || len(f) == 0 {
		return
	}
	var ks, js, inv []string
	dirs := map[string]bool{}
	for k := range f {
		ks = append(ks, k)
		if path.Base(k) == "inventory.json" {
			inv = append(inv, k)
		} else if strings.HasSuffix(k, ".json") {
			js = append(js, k)
		}
		for d := path.Dir(k); d != "."; d = path.Dir(d) {
			dirs[d] = true
		}
	}
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ks)
	sort.Strings(js)
	sort.Strings(inv)
	sort.Strings(ds)
	put := func(p string, b []byte) {
		change := map[string][]byte{p: b}
		if path.Base(p) == "inventory.json" && g.P(75) {
			for _, a := range []string{"sha512", "sha256"} {
				if _, ok := f[p+"."+a]; ok {
					change[p+"."+a] = []byte(digestOf(a, b) + " inventory.json\n")
				}
			}
		}
		h.storeFiles(change, nil)
		r.T("mangle %s", p)
	}
	var rec []string
	for _, k := range ks {
		if recordName.MatchString(path.Base(k)) {
			rec = append(rec, k)
		}
	}
	if kind == "record" && len(rec) == 0 {
		kind = g.Pick("json", "bytes", "config")
	}
	switch kind {
	case "record":
		r.Probe("damaged record " + path.Ext(rec[0]))
		// what an extension has written about a version
		p := rec[g.N(len(rec))]
		b := append([]byte{}, f[p]...)
		switch g.N(5) {
		case 0:
			b = b[:g.N(len(b)+1)]
		case 1:
			b = nil
		case 2:
			for i := 1 + g.N(4); i > 0 && len(b) > 0; i-- {
				b[g.N(len(b))] ^= byte(1 + g.N(255))
			}
		case 3:
			b = []byte(g.Pick("x", "{}", "null", "[]\n", "\n\n", "{\"path\":1}\n", "{\"path\":\"x\"}\n", "{\"Path\":null,\"Indexer\":[]}\n", "\x1f\x8b", "\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff"))
		case 4:
			// the text of a record, packed again
			b = repack(p, mutJSON(g, unpack(p, b)))
		}
		put(p, b)
	case "keys":
		// several things missing from one inventory
		if len(inv) == 0 {
			return
		}
		p := inv[g.N(len(inv))]
		var m map[string]any
		if json.Unmarshal(f[p], &m) != nil {
			return
		}
		var drop func(m map[string]any)
		drop = func(m map[string]any) {
			var l []string
			for k := range m {
				l = append(l, k)
			}
			sort.Strings(l)
			for _, k := range l {
				x, ok := m[k].(map[string]any)
				switch {
				case g.P(12):
					delete(m, k)
				case g.P(6):
					m[k] = nil
				case g.P(6):
					m[k] = map[string]any{}
				case g.P(6):
					m[k] = []any{}
				case ok:
					drop(x)
				}
			}
		}
		drop(m)
		b, _ := json.Marshal(m)
		put(p, b)
		d := path.Dir(p)
		for _, q := range inv {
			if path.Dir(path.Dir(q)) == d && g.P(60) {
				put(q, b)
			}
		}
	case "json", "cross":
		l := inv
		if g.P(25) && len(js) > 0 || len(l) == 0 {
			l = js
		}
		if len(l) == 0 {
			return
		}
		p := l[g.N(len(l))]
		b := f[p]
		if kind == "cross" && len(inv) > 1 {
			// inventory of another object or version with its own digest
			p = inv[g.N(len(inv))]
			b = f[inv[g.N(len(inv))]]
		} else {
			b = mutJSON(g, b)
		}
		put(p, b)
		if kind == "json" && g.P(30) {
			// the same in the newest version's folder
			d := path.Dir(p)
			for _, q := range inv {
				if path.Dir(path.Dir(q)) == d && g.P(60) {
					put(q, b)
				}
			}
		}
	case "config":
		// parameters of an extension
		var l []string
		for _, k := range js {
			if path.Base(k) == "config.json" {
				l = append(l, k)
			}
		}
		if len(l) == 0 {
			return
		}
		p := l[g.N(len(l))]
		b := f[p]
		var sp []jspan
		for _, x := range spans(b) {
			if x.ka >= 0 && !strings.Contains(string(b[x.ka:x.kb]), "extensionName") {
				sp = append(sp, x)
			}
		}
		if len(sp) == 0 {
			return
		}
		x := sp[g.N(len(sp))]
		n := append([]byte{}, b[:x.a]...)
		n = append(n, g.Pick("-1", "0", "1", "2", "33", "1000000", "-1000000", `""`, `"x"`, `"left"`, "null", "true", "false", `"md5"`, `"/"`, `".."`, "[]", `"extension"`, `"area"`, `"sha512"`)...)
		put(p, append(n, b[x.b:]...))
	case "bytes":
		p := ks[g.N(len(ks))]
		b := make([]byte, g.N(200))
		for i := range b {
			b[i] = byte(g.U64())
		}
		put(p, b)
	case "damage":
		h.Damage(&Op{S: damageKinds[g.N(len(damageKinds))], N: op.N})
	case "tree":
		d := ds[g.N(len(ds))]
		k := ks[g.N(len(ks))]
		full := func(p string) string { return join(h.dir, p) }
		if r.C.Cfg.Zip {
			h.storeFiles(map[string][]byte{path.Join(d, g.Pick("x", "v9/x", "extensions/y/config.json", "0=ocfl_object_1.1", "0=ocfl_1.0")): []byte("x")}, nil)
			r.T("mangle: added below %s", d)
			return
		}
		switch g.N(9) {
		case 0: // file becomes a folder
			r.W.Delete(full(k))
			r.W.MustMkdirAll(full(k))
			if g.P(50) {
				r.W.Put(full(k)+"/x", []byte("x"))
			}
			r.T("mangle: folder %s", k)
		case 1: // folder becomes a file
			for p := range f {
				if strings.HasPrefix(p, d+"/") {
					r.W.Delete(full(p))
				}
			}
			r.W.Delete(full(d))
			r.W.Put(full(d), []byte("x"))
			r.T("mangle: file %s", d)
		case 2: // folder missing
			r.W.Delete(full(d))
			r.T("mangle: no %s", d)
		case 3: // folder with another name
			n := path.Join(path.Dir(d), g.Pick("v0", "v1", "v2", "v9", "v01", "vx", "extensions", "content", "x", "logs", "v99999999999999999999"))
			if !r.W.Exists(full(n)) && !strings.HasPrefix(n+"/", d+"/") {
				r.W.Move(full(d), full(n))
				r.T("mangle: %s renamed to %s", d, n)
			}
		case 4: // additional file
			p := path.Join(d, g.Pick("0=ocfl_object_1.0", "0=ocfl_object_1.1", "0=ocfl_object_2.0", "0=ocfl_object_", "0=ocfl_1.1", "0=ocfl_1.0", "inventory.json", "inventory.json.md5", "inventory.json.sha256", "inventory.json.sha512", "v3", "x", "config.json"))
			if !r.W.Exists(full(p)) {
				r.W.Put(full(p), []byte(g.Pick("", "x", "ocfl_object_1.1\n", "{}", "null")))
				r.T("mangle: additional %s", p)
			}
		case 5: // additional folder
			p := path.Join(d, g.Pick("v2", "v9", "extensions", "extensions/initial", "extensions/0004-hashed-n-tuple-storage-layout", "empty", "a/b/c/d/e", "content"))
			if !r.W.Exists(full(p)) {
				r.W.MustMkdirAll(full(p))
				r.T("mangle: additional folder %s", p)
			}
		case 6: // link
			p := path.Join(d, g.Pick("link", "v2", "inventory.json", "extensions"))
			if !r.W.Exists(full(p)) {
				r.W.PutLink(full(p), g.Pick(".", "..", "link", "/st", "/", "nowhere", path.Base(k)))
				r.T("mangle: link %s", p)
			}
		case 7: // declarations
			for _, p := range ks {
				if strings.HasPrefix(path.Base(p), "0=") && g.P(60) {
					r.W.Put(full(p), []byte(g.Pick("", "x", "ocfl_object_1.0\n", "ocfl_1.1\n", strings.Repeat("y", 5000))))
				}
			}
			r.T("mangle: declarations")
		case 8: // an object within an object
			for _, q := range ks {
				if strings.HasPrefix(path.Base(q), "0=ocfl_object_") {
					r.W.CopyTree(full(path.Dir(q)), full(path.Join(d, "nested")))
					r.T("mangle: %s in %s", path.Dir(q), d)
					break
				}
			}
		}
		r.W.Settle()
	}
}

func init() {
	Experiments["C18"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			recs := g.P(20)
			base := g.Pick("C24", "C25", "C26")
			if recs && g.P(40) {
				// migrations, thumbnails, documents
				Experiments[base].Gen(g, c, n)
				ops, seen := c.Ops[:0], map[int]bool{}
				for _, op := range c.Ops {
					if op.K == "upd" && !seen[op.Obj] {
						ops, seen[op.Obj] = append(ops, op), true
					}
				}
				c.Ops = ops
				if c.X == nil {
					c.X = map[string]string{}
				}
				c.X["base"] = base
			} else {
				base = ""
			}
			if base == "" {
				GenHist(g, c, Opt{MaxObj: 2, MaxUpd: 3, Names: g.N(2), Zip: 8, Ext: recs || g.P(40), Areas: g.P(20), Small: true, Long: 1, Index: 15})
			}
			for i := 1 + g.N(3); i > 0; i-- {
				m := Op{K: "mangle", S: g.Pick(mangleKinds...), N: g.N(1 << 30)}
				if recs {
					m.S = "record"
				}
				c.Ops = append(c.Ops, m)
				for j := 1 + g.N(3); j > 0; j-- {
					kinds := readOps
					if m.S == "record" && g.P(75) {
						kinds = []string{"meta", "metaobj"}
					}
					op := Op{K: "read", S: g.Pick(kinds...), Obj: g.N(len(c.IDs)), V: g.Pick("v1", "v2", "latest", "", "v9"), Man: g.P(50), N: g.N(3)}
					if len(c.Cfg.Areas) > 0 {
						op.Area = g.Pick("", "full", "metadata")
					}
					c.Ops = append(c.Ops, op)
				}
			}
		},
		Run: runC18,
	}
}

func runC18(r *Run) {
	h := r.NewHist()
	h.MustCreate()
	mangled := false
	step := func(i int, op *Op) {
		switch op.K {
		case "mangle":
			if !mangled {
				h.Reopen()
				h.noteFolders()
			}
			h.mangle(op)
			mangled = true
		case "read":
			if !mangled {
				return
			}
			id := r.C.IDs[op.Obj]
			folder := ""
			if op.N == 1 {
				folder = h.folders[id]
			}
			o := r.Do("read "+op.S, nil, func() error {
				_, err := r.readOp(op.S, h.dir, id, folder, op.V, op.Area, op.Man)
				return err
			})
			r.MustEnd(fmt.Sprintf("reading operation %s on malformed storage", op.S), o)
			r.NonTriv = true
			if o.Err != nil {
				r.Probe("refused " + op.S)
			} else {
				r.Probe("answered " + op.S)
			}
		}
	}
	if b := r.C.X["base"]; b != "" {
		r.Probe("base " + b)
		for i := range r.C.Ops {
			op := &r.C.Ops[i]
			if op.K == "upd" {
				h.Update(op)
			} else {
				step(i, op)
			}
		}
	} else {
		h.runOps(step)
	}
	nt := r.NonTriv
	h.note()
	r.NonTriv = nt
}
