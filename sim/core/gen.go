package core

import (
	"fmt"
	"path"
	"sort"
	"strings"
)

// Opt selects what a generator may use.
type Opt struct {
	Layouts   []string
	MaxObj    int
	MaxUpd    int
	Ext       bool // object extensions with records
	Areas     bool
	AreaActs  bool // calls which concern single areas
	Acts      bool // calls other than AddFolder
	Zip       int  // percent
	NoMirror  bool
	Names     int // 0 plain, 1 unusual but legal
	Small     bool
	AutoVer   bool
	AlwaysNew bool // every update changes something
	Dedup     int  // percent of updates with deduplication (default 60)
	Links     bool
	NoNest    bool // no area within another one
	Rec       bool // recording consumers
	FailRec   int  // percent of the recording consumers which end with an error
	Index     int  // percent of configurations with the indexer
	Big       bool // contents around the sizes of the buffers
	Long      int  // percent of histories with ten and more versions (default 3)
}

var allLayouts = []string{"flat", "0003", "0004", "0006", "0007", "clean", "direct", "pairtree"}

// GenCfg draws a configuration.
func GenCfg(g *Rng, o Opt) Config {
	c := Config{Version: g.Pick("1.0", "1.1", "1.1"), Digest: g.Pick("sha512", "sha512", "sha256")}
	ls := o.Layouts
	if len(ls) == 0 {
		ls = allLayouts
	}
	c.Layout = ls[g.N(len(ls))]
	c.LP = genLP(g, c.Layout)
	for _, f := range []string{"md5", "sha1", "sha256", "blake2b-512", "sha512", "blake2b-160", "blake2b-256", "blake2b-384"} {
		if g.P(14) && f != c.Digest {
			c.Fixity = append(c.Fixity, f)
		}
	}
	if g.P(15) {
		c.NoMgr = true
	}
	if g.P(o.Zip) {
		c.Zip = true
		c.Store = g.P(40)
	}
	c.EP = map[string]any{}
	addExt := func(n string, p map[string]any) {
		c.Ext = append(c.Ext, n)
		if p != nil {
			c.EP[n] = p
		}
	}
	switch g.N(5) {
	case 0, 1, 2:
		addExt("NNNN-direct-clean-path-layout", cleanParams(g))
	case 3:
		addExt("NNNN-direct-path-layout", nil)
	}
	if g.P(40) || len(c.Fixity) > 0 {
		addExt("0001-digest-algorithms", nil)
	}
	if o.Areas {
		c.Areas = map[string]string{"content": "data", "metadata": g.Pick("meta", "metadata", "data2", "dat"), "extra": g.Pick("x/y", "extra", "datax")}
		if c.Zip {
			for k, v := range c.Areas {
				if w := map[string]string{"data2": "records", "dat": "records", "datax": "more"}[v]; w != "" {
					c.Areas[k] = w
				}
			}
		}
		if g.P(20) && !o.NoNest {
			c.Areas["metadata"] = "data/meta"
		}
		m := map[string]any{}
		for a, p := range c.Areas {
			m[a] = map[string]any{"path": p, "description": "area " + a}
		}
		addExt("NNNN-content-subpath", map[string]any{"subPath": m})
		c.Area = g.Pick("", "content", "content")
	}
	if o.Ext && g.P(60) {
		addExt("NNNN-filesystem", map[string]any{"folders": g.Pick("", "", ".keep"), "storageType": g.Pick("extension", "path", "area"), "storageName": "metadata", "compress": g.Pick("none", "gzip", "brotli")})
		fixArea(&c, "NNNN-filesystem", g)
	}
	if o.Ext && g.P(40) {
		addExt("NNNN-metafile", map[string]any{"storageType": g.Pick("extension", "path", "area"), "storageName": "metadata", "name": "info.json", "schema": metaSchemaName, "schemaUrl": ""})
		fixArea(&c, "NNNN-metafile", g)
	}
	if o.Index > 0 && g.P(o.Index) {
		m := map[string]any{"storageType": g.Pick("extension", "path", "area"), "storageName": "metadata", "compress": g.Pick("none", "gzip", "brotli")}
		a := []string{}
		for _, n := range []string{"siegfried", "tika", "xml"} {
			if g.P(60) {
				a = append(a, n)
			}
		}
		m["actions"] = a
		c.Cache = g.P(35)
		addExt("NNNN-indexer", m)
		fixArea(&c, "NNNN-indexer", g)
	}
	if o.Rec {
		for _, n := range []string{"a", "b", "c"} {
			m := map[string]any{"limit": -1, "chunk": []int{1000, 4096, 65536, 7, 1 << 20}[g.N(5)]}
			if n == "c" {
				m["limit"] = []int{0, 10, 300, 4097}[g.N(4)]
			}
			if m["chunk"] == 7 && o.Big {
				m["chunk"] = 700
			}
			if g.P(30) {
				m["sleep"] = 30
			}
			if g.P(o.FailRec) {
				m["fail"] = true
			}
			if n != "b" && g.P(50) {
				continue
			}
			addExt("NNNN-recorder-"+n, m)
		}
	}
	return c
}

// fixArea: records can only go to an area when there is one.
func fixArea(c *Config, e string, g *Rng) {
	m := c.EP[e].(map[string]any)
	if len(c.Areas) > 0 {
		return
	}
	if m["storageType"] == "area" {
		m["storageType"] = g.Pick("extension", "path")
	}
	if m["storageType"] == "path" {
		m["storageName"] = g.Pick("metadata", "rec/ords")
	}
}

func cleanParams(g *Rng) map[string]any {
	m := map[string]any{
		"maxPathnameLen": 32000, "maxPathSegmentLen": 127, "replacementString": "_", "whitespaceReplacementString": " ",
		"utfEncode": g.P(60), "fallbackDigestAlgorithm": g.Pick("md5", "sha512", "sha1"), "fallbackFolder": "fallback",
		"numberOfFallbackTuples": g.N(4), "fallbackTupleSize": 1 + g.N(3),
	}
	if g.P(30) {
		m["maxPathSegmentLen"] = 20
	}
	if g.P(15) {
		m["maxPathnameLen"] = 60
		m["fallbackDigestAlgorithm"] = "md5" // longer digests do not fit
	}
	if g.P(30) {
		m["whitespaceReplacementString"] = "_"
	}
	return m
}

func genLP(g *Rng, l string) map[string]any {
	switch l {
	case "0003":
		return map[string]any{"digestAlgorithm": g.Pick("sha256", "md5", "sha512"), "tupleSize": 1 + g.N(4), "numberOfTuples": 1 + g.N(4)}
	case "0004":
		return map[string]any{"digestAlgorithm": g.Pick("sha256", "md5", "sha512"), "tupleSize": 1 + g.N(4), "numberOfTuples": 1 + g.N(4), "shortObjectRoot": g.P(50)}
	case "0006":
		return map[string]any{"delimiter": g.Pick(":", "/", "o-")}
	case "0007":
		return map[string]any{"delimiter": ":", "tupleSize": 1 + g.N(4), "numberOfTuples": 1 + g.N(4), "zeroPadding": g.Pick("left", "right"), "reverseObjectRoot": g.P(50)}
	case "clean":
		return cleanParams(g)
	case "pairtree":
		return map[string]any{"uriBase": g.Pick("", "info:"), "storeDir": g.Pick("store", "pairtree_root"), "shortyLength": 2 + g.N(2), "digestAlgorithm": "sha512"}
	}
	return nil
}

// GenIDs draws distinct identifiers a layout accepts.
func GenIDs(g *Rng, c *Config, n int) []string {
	var pool []string
	switch c.Layout {
	case "flat", "direct":
		pool = []string{"object-1", "object_01", "a", "obj:12", "12cd.ef", "info obj", "öbject", "object-10", "extensions-2", "v1", "ext"}
	case "0006":
		d := c.LP["delimiter"].(string)
		pool = []string{"ns" + d + "one", "ns" + d + "two", "ns" + d + "x" + d + "three", "other" + d + "four"}
	case "0007":
		pool = []string{"ns:12887296", "ns:1", "ns:ab:cdefghij", "ns:00000000000000", "x:6", "y:abcdefghijklmno"}
	case "pairtree":
		pool = []string{"abcd", "info:abcdefgh", "what-the-*@?#!^!?", "ark:/13030/xt12t3", "a", "ab"}
	default:
		pool = []string{"object-1", "info:abc/def-1", "http://example.org/object/1", "ark:/12148/btv1b8449691v", "urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8", "äöü 12", "..hidden", "A.B/c:d", "object-2", "extern", "v2/content"}
		if g.P(10) {
			pool = append(pool, strings.Repeat("long/identifier:", 20))
		}
	}
	var ids []string
	for len(ids) < n && len(pool) > 0 {
		i := g.N(len(pool))
		id := pool[i]
		pool = append(pool[:i], pool[i+1:]...)
		// known finding: pairtree puts "abcd" into the folder of "ab"
		// known finding: in a zip container "a" exists when "ab" does
		if (c.Layout == "pairtree" || c.Zip) && nestedID(ids, id) || c.Zip && strings.HasPrefix(id, "ext") {
			continue
		}
		ids = append(ids, id)
	}
	return ids
}

// plain gives the paths names which the zip library does not confuse: a folder "a" and a
// name beginning with "a" beside it (known finding of C15).
func (c *Case) plain(op *Op) {
	f := func(p string) string { return plainer.Replace(p) }
	all := func(fs []FileSpec) {
		for i := range fs {
			fs[i].P, fs[i].L = f(fs[i].P), f(fs[i].L)
		}
	}
	all(op.Files)
	for _, fs := range op.Src2 {
		all(fs)
	}
	for i := range op.Acts {
		a := &op.Acts[i]
		a.P, a.To = f(a.P), f(a.To)
		for j := range a.Ps {
			a.Ps[j] = f(a.Ps[j])
		}
	}
}

var plainer = strings.NewReplacer("dir2", "2dir", "dir.ext", "ext.dir", "dir\\", "back\\", "dir /", "folder /", "data.xml", "xml.xml", "data2", "2data")

func nestedID(ids []string, id string) bool {
	for _, o := range ids {
		if strings.HasPrefix(o, id) || strings.HasPrefix(id, o) {
			return true
		}
	}
	return false
}

var plainNames = []string{"a.txt", "b.txt", "c.bin", "dir/a.txt", "dir/b.txt", "dir/sub/c.txt", "x/y/z/deep.dat", "dir2/a.txt", "readme.md", "data.xml"}
var oddNames = []string{"with space.txt", "ümläut.txt", "dir/.hidden", "a+b=c.txt", "per%20cent.txt", "quote'\".txt", "semi;colon", "hash#tag.txt", "tilde~", "A.TXT", "dir.ext/file", "very_long_name_that_exceeds_the_small_limit_of_path_segments.txt", "日本語.txt", "[b]{c}.txt", "trailing.", "inventory.json", "content/a.txt", "v1/content/a.txt", "extensions/x.txt", "0=ocfl_object_1.1", "data/a.txt", "data2/b.txt", "dir/a.txt.bak", "d", "dir\\back.txt", "star*.txt", "question?.txt", "pipe|.txt", "a:b.txt", "dir /sp.txt", "-dash", "tab\tx.txt"}

var smallContents = []string{"A.12", "B.1", "C.300", "e.0", "D.12", "tE.40", "tF.41"}
var bigContents = []string{"G.32768", "H.32769", "z.65536", "K.40000", "L.100000", "M.32767"}

var hugeContents = []string{"M.4095", "N.4096", "O.4097", "P.8192", "Q.32767", "R.32768", "S.32769", "T.65537", "U.1048575", "V.1048576", "W.1048577", "X.1081344", "Y.511", "Z.512", "AA.513", "e.0", "BB.1", "CC.3072"}

func genContent(g *Rng, o Opt) string {
	if o.Big && g.P(30) {
		return hugeContents[g.N(len(hugeContents))]
	}
	if !o.Small && g.P(12) {
		return bigContents[g.N(len(bigContents))]
	}
	if g.P(25) {
		return fmt.Sprintf("u%d.%d", g.N(1000), 1+g.N(60))
	}
	return smallContents[g.N(len(smallContents))]
}

func genName(g *Rng, o Opt) string {
	if o.Names > 0 && g.P(35) {
		return oddNames[g.N(len(oddNames))]
	}
	return plainNames[g.N(len(plainNames))]
}

// conflict tells whether p is a folder of, below, or equal up to case to another name.
func conflict(m map[string]string, p string) bool {
	if _, ok := m[p]; ok {
		return false
	}
	for q := range m {
		if strings.HasPrefix(q, p+"/") || strings.HasPrefix(p, q+"/") {
			return true
		}
	}
	return false
}

// tree is the source of an object while the history is generated.
type tree map[string]string

func (t tree) specs() []FileSpec {
	var r []FileSpec
	for p, c := range t {
		r = append(r, FileSpec{P: p, C: c})
	}
	sort.Slice(r, func(i, j int) bool { return r[i].P < r[j].P })
	return r
}

func (t tree) keys() []string {
	r := make([]string, 0, len(t))
	for k := range t {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (t tree) clone() tree {
	r := tree{}
	for k, v := range t {
		r[k] = v
	}
	return r
}

func (t tree) mutate(g *Rng, o Opt, old []tree, all map[string]string) {
	n := 1 + g.N(4)
	if len(t) == 0 {
		n = 1 + g.N(6)
	}
	for i := 0; i < n; i++ {
		ks := t.keys()
		switch x := g.N(10); {
		case x < 3 || len(ks) == 0:
			p := genName(g, o)
			if !conflict(t, p) && (all == nil || !conflict(all, p)) {
				t[p] = genContent(g, o)
			}
		case x < 5:
			t[ks[g.N(len(ks))]] = genContent(g, o)
		case x < 7:
			delete(t, ks[g.N(len(ks))])
		case x < 8: // rename or copy
			p, q := ks[g.N(len(ks))], genName(g, o)
			if !conflict(t, q) && (all == nil || !conflict(all, q)) {
				t[q] = t[p]
				if g.P(60) && p != q {
					delete(t, p)
				}
			}
		case x < 9: // swap
			p, q := ks[g.N(len(ks))], ks[g.N(len(ks))]
			t[p], t[q] = t[q], t[p]
		default: // as in an earlier version
			if len(old) > 0 {
				ot := old[g.N(len(old))]
				if g.P(50) {
					for k := range t {
						delete(t, k)
					}
					for k, v := range ot {
						if all == nil || !conflict(all, k) {
							t[k] = v
						}
					}
				} else if ks := ot.keys(); len(ks) > 0 {
					k := ks[g.N(len(ks))]
					if !conflict(t, k) && (all == nil || !conflict(all, k)) {
						t[k] = ot[k]
					}
				}
			}
		}
	}
}

// GenHist fills the case with a history of updates.
func GenHist(g *Rng, c *Case, o Opt) {
	c.Cfg = GenCfg(g, o)
	if c.Cfg.Zip {
		// known finding: content replaced within one update stays in a container
		defer func() {
			for i := range c.Ops {
				c.plain(&c.Ops[i])
				c.Cfg.onceEach(&c.Ops[i])
			}
		}()
	}
	nobj := 1
	if o.MaxObj > 1 {
		nobj = 1 + g.N(o.MaxObj)
	}
	c.IDs = GenIDs(g, &c.Cfg, nobj)
	nobj = len(c.IDs)
	src := make([]tree, nobj)
	old := make([][]tree, nobj)
	for i := range src {
		src[i] = tree{}
	}
	state := make([]State, nobj)
	for i := range state {
		state[i] = State{}
	}
	nupd := 1 + g.N(o.MaxUpd)
	if o.Long == 0 {
		o.Long = 3
	}
	if o.MaxUpd > 1 && g.P(o.Long) {
		nobj = 1
		c.IDs = c.IDs[:1]
		nupd = 10 + g.N(4)
		o.Small, o.AlwaysNew, o.Ext = true, true, false
	}
	for k := 0; k < nupd; k++ {
		i := k
		if k >= nobj {
			i = g.N(nobj)
		}
		op := GenUpdate(g, &c.Cfg, o, i, src[i], old[i], state[i], k)
		state[i] = c.Cfg.Apply(state[i], op)
		old[i] = append(old[i], src[i].clone())
		c.Ops = append(c.Ops, *op)
		if g.P(40) {
			c.Ops = append(c.Ops, Op{K: "reopen"})
		}
	}
}

func GenUpdate(g *Rng, cfg *Config, o Opt, obj int, src tree, old []tree, st State, k int) *Op {
	op := &Op{K: "upd", Obj: obj}
	op.Msg = fmt.Sprintf("update %d", k)
	if g.P(15) {
		op.Msg = g.Pick("Ünï\"quote\"\\", "line\nbreak", "<tag>&amp;", " ")
	}
	u := g.N(3)
	op.User, op.Addr = fmt.Sprintf("user %d", u), fmt.Sprintf("mailto:user%d@example.org", u)
	d := o.Dedup
	if d == 0 {
		d = 60
	}
	op.Dedup = g.P(d)
	op.Keep = len(st) > 0 && g.P(30)
	op.Echo = !o.NoMirror && g.P(50)
	all := map[string]string{}
	for p := range st {
		all[p] = ""
	}
	lim := all
	if op.Echo {
		lim = nil
	}
	first := len(st) == 0
	if !first && g.P(12) && !o.AlwaysNew {
		// same source again
	} else if op.Echo {
		src.mutate(g, o, old, lim)
	} else {
		src.mutate(g, o, old, lim)
	}
	if !op.Echo {
		for p := range src {
			if conflict(all, p) {
				delete(src, p)
			}
		}
	}
	if first && len(src) == 0 && g.P(80) {
		src["a.txt"] = "A.12"
	}
	op.Files = src.specs()
	if g.P(10) {
		op.Files = append(op.Files, FileSpec{P: "emptydir/"})
	}
	if o.Links && g.P(15) {
		for _, f := range op.Files {
			if !strings.Contains(f.P, "/") {
				op.Files = append(op.Files, FileSpec{P: "link.lnk", L: f.P})
				break
			}
		}
	}
	if !o.Acts || first || g.P(55) {
		op.Acts = []Act{{A: "folder"}}
	}
	if o.Acts && (len(op.Acts) == 0 || g.P(20)) {
		genActs(g, cfg, o, op, st, src)
	}
	if o.Areas {
		op.Src2 = map[string][]FileSpec{}
		as := make([]string, 0)
		for a := range cfg.Areas {
			if a != cfg.defArea() {
				as = append(as, a)
			}
		}
		sort.Strings(as)
		for _, a := range as {
			if g.P(50) {
				t := tree{}
				t.mutate(g, o, nil, nil)
				op.Src2[a] = t.specs()
				op.Acts = append(op.Acts, Act{A: "folder", Area: a})
			}
		}
		if o.AreaActs {
			genAreaActs(g, cfg, o, op, st)
		}
	}
	return op
}

// genAreaActs adds what concerns single areas.
func genAreaActs(g *Rng, cfg *Config, o Opt, op *Op, st State) {
	// like the command line tool: one area after the other
	if g.P(60) {
		var acts []Act
		for _, a := range op.Acts {
			if a.A != "folder" || g.P(15) {
				acts = append(acts, a)
				continue
			}
			n := a.Area
			if n == "" {
				n = cfg.defArea()
			}
			acts = append(acts, Act{A: "beginarea", Area: n}, a, Act{A: "endarea", Area: n})
		}
		op.Acts = acts
	}
	names := []string{"", "full"}
	for a := range cfg.Areas {
		names = append(names, a)
	}
	sort.Strings(names)
	for i := g.N(4); i > 0; i-- {
		all := map[string]string{}
		for p := range cfg.Apply(st, op0(op)) {
			all[p] = ""
		}
		for p := range st {
			all[p] = ""
		}
		for _, pre := range cfg.Areas {
			all[pre+"/."] = ""
		}
		a := names[g.N(len(names))]
		p := genName(g, o)
		if g.P(30) { // a name another area has, too
			ks := make([]string, 0)
			for k := range all {
				if !strings.HasSuffix(k, "/.") {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			if len(ks) > 0 {
				k := ks[g.N(len(ks))]
				for _, pre := range cfg.Areas {
					if strings.HasPrefix(k, pre+"/") && g.P(70) {
						k = k[len(pre)+1:]
						break
					}
				}
				p = k
			}
		}
		l := cfg.logical(a, p)
		if path.Clean(p) != p || conflict(all, l) || cfg.inGenerated(l) || cfg.record(l) {
			continue
		}
		switch {
		case g.P(25):
			ks := cfg.Apply(st, op0(op)).keys()
			if len(ks) > 0 {
				if k := ks[g.N(len(ks))]; !cfg.inGenerated(k) && !cfg.record(k) {
					op.Acts = append(op.Acts, Act{A: "del", P: k})
				}
			}
		case g.P(40):
			op.Acts = append(op.Acts, Act{A: "reader", Ps: []string{p}, C: genContent(g, o), Area: a})
		default:
			op.Acts = append(op.Acts, Act{A: "data", P: p, C: genContent(g, o), Area: a})
		}
	}
}

func genActs(g *Rng, cfg *Config, o Opt, op *Op, st State, src tree) {
	n := 1 + g.N(4)
	for i := 0; i < n; i++ {
		cur := cfg.Apply(st, op0(op))
		ks := cur.keys()
		for i, k := range ks {
			if k == "README.md" && cur[k] == readmeMark {
				ks = append(ks[:i], ks[i+1:]...)
				break
			}
		}
		all := map[string]string{}
		for p := range cur {
			all[p] = ""
		}
		switch x := g.N(10); {
		case x < 2:
			fs := src.keys()
			if len(fs) > 0 {
				p := fs[g.N(len(fs))]
				if !conflict(all, p) {
					op.Acts = append(op.Acts, Act{A: "file", P: p})
				}
			}
		case x < 4:
			p := genName(g, o)
			if !conflict(all, p) {
				op.Acts = append(op.Acts, Act{A: "data", P: p, C: genContent(g, o)})
			}
		case x < 6:
			var ps []string
			for j := 0; j < 1+g.N(3); j++ {
				p := genName(g, o)
				if !conflict(all, p) {
					all[p] = ""
					dup := false
					for _, q := range ps {
						dup = dup || q == p
					}
					if !dup {
						ps = append(ps, p)
					}
				}
			}
			if len(ps) > 0 {
				op.Acts = append(op.Acts, Act{A: "reader", Ps: ps, C: genContent(g, o)})
			}
		case x < 8:
			if len(ks) > 0 {
				op.Acts = append(op.Acts, Act{A: "del", P: ks[g.N(len(ks))]})
			}
		default:
			if len(ks) > 0 {
				p, q := ks[g.N(len(ks))], genName(g, o)
				delete(all, p)
				if p != q && !conflict(all, q) {
					op.Acts = append(op.Acts, Act{A: "ren", P: p, To: q})
				}
			}
		}
	}
}

// op0 is the update so far without the final mirroring.
func op0(op *Op) *Op {
	q := *op
	q.Echo = false
	return &q
}

var _ = path.Clean
