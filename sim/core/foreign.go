package core

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"
	"time"
)

// Style is how other software wrote an object. The zero value is the style of gocfl.
type Style struct {
	Pad    int    // digits of padded version names
	CDir   string // content directory
	Alg    string // digest algorithm of the newest inventory
	Soft   bool   // recommendations of the standard are not followed
	Zone   bool   // creation times with fractions or other zones
	Upper  bool
	Bare   bool
	Frozen string // what the style consists of, for messages
}

// full tells whether no version after the n-th can be named.
func (s *Style) full(n int) bool {
	return s != nil && s.Pad > 0 && len(fmt.Sprint(n+1)) > s.Pad-1
}

func (s *Style) vname(n int) string {
	if s == nil || s.Pad == 0 {
		return fmt.Sprintf("v%d", n)
	}
	return fmt.Sprintf("v%0*d", s.Pad, n)
}

// style names the style of an object in messages.
func (h *Hist) style(id string) string {
	if s := h.styles[id]; s != nil {
		return " (" + s.Frozen + ")"
	}
	return ""
}

// vname is the name of a version (counted from 1) of an object.
func (h *Hist) vname(id string, n int) string { return h.styles[id].vname(n) }

func (h *Hist) alg(id string) string {
	if s := h.styles[id]; s != nil {
		return s.Alg
	}
	return h.r.C.Cfg.Digest
}

// hard are the problems of an object which are not recommendations only.
func (h *Hist) hard(o *VObj) []string {
	if s := h.styles[o.ID]; s == nil || !s.Soft {
		return o.Problems
	}
	soft := map[string]int{}
	for _, p := range o.Soft {
		soft[p]++
	}
	var r []string
	for _, p := range o.Problems {
		if soft[p] > 0 {
			soft[p]--
			continue
		}
		r = append(r, p)
	}
	return r
}

// jw writes JSON as other software might: order of keys and white space vary.
type jw struct {
	b      strings.Builder
	g      *Rng
	indent string
	esc    bool
	order  int
}

type kv struct {
	k string
	v any
}

func (w *jw) str(s string) {
	b, _ := json.Marshal(s)
	t := string(b)
	if w.esc {
		var x strings.Builder
		for _, r := range t {
			if r < 0x80 {
				x.WriteRune(r)
			} else if r < 0x10000 {
				fmt.Fprintf(&x, "\\u%04x", r)
			} else {
				r -= 0x10000
				fmt.Fprintf(&x, "\\u%04x\\u%04x", 0xd800+(r>>10), 0xdc00+(r&0x3ff))
			}
		}
		t = strings.ReplaceAll(x.String(), "/", "\\/")
	} else {
		t = strings.NewReplacer("\\u003c", "<", "\\u003e", ">", "\\u0026", "&").Replace(t)
	}
	w.b.WriteString(t)
}

func (w *jw) val(v any, pre string) {
	nl, in := "", ""
	if w.indent != "" {
		nl, in = "\n", pre+w.indent
	}
	switch x := v.(type) {
	case string:
		w.str(x)
	case rawJSON:
		w.b.WriteString(string(x))
	case []string:
		if w.order > 0 {
			x = append([]string{}, x...)
			w.shuffle(len(x), func(i, j int) { x[i], x[j] = x[j], x[i] })
		}
		w.b.WriteString("[")
		for i, s := range x {
			if i > 0 {
				w.b.WriteString(",")
			}
			w.b.WriteString(nl + in)
			w.str(s)
		}
		if len(x) > 0 {
			w.b.WriteString(nl)
			if nl != "" {
				w.b.WriteString(pre)
			}
		}
		w.b.WriteString("]")
	case map[string][]string:
		w.val(sortedKV(x), pre)
	case []kv:
		if w.order > 0 {
			x = append([]kv{}, x...)
			w.shuffle(len(x), func(i, j int) { x[i], x[j] = x[j], x[i] })
		}
		w.b.WriteString("{")
		for i, e := range x {
			if i > 0 {
				w.b.WriteString(",")
			}
			w.b.WriteString(nl + in)
			w.str(e.k)
			w.b.WriteString(":")
			if nl != "" {
				w.b.WriteString(" ")
			}
			w.val(e.v, in)
		}
		if len(x) > 0 {
			w.b.WriteString(nl)
			if nl != "" {
				w.b.WriteString(pre)
			}
		}
		w.b.WriteString("}")
	}
}

type rawJSON string

func (w *jw) shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, w.g.N(i+1))
	}
}

func sortedKV(m map[string][]string) []kv {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []kv
	for _, k := range ks {
		r = append(r, kv{k, m[k]})
	}
	return r
}

// fInv is an inventory before it is written.
type fInv struct {
	id, typ, alg, head string
	cdir               *string
	manifest           map[string][]string
	fixity             map[string]map[string][]string
	versions           []fVer
	extra              []kv
	drop               map[string]bool
}

type fVer struct {
	name    string
	created any
	state   map[string][]string
	msg     any // nil: no message
	user    any // nil: no user
	drop    map[string]bool
	extra   []kv
	whole   any // instead of everything
}

func (w *jw) inv(i *fInv) []byte {
	w.b.Reset()
	var l []kv
	add := func(k string, v any) {
		if !i.drop[k] {
			l = append(l, kv{k, v})
		}
	}
	add("id", i.id)
	add("type", i.typ)
	add("digestAlgorithm", i.alg)
	add("head", i.head)
	if i.cdir != nil {
		add("contentDirectory", *i.cdir)
	}
	if len(i.fixity) > 0 {
		var f []kv
		ks := make([]string, 0)
		for k := range i.fixity {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			f = append(f, kv{k, i.fixity[k]})
		}
		add("fixity", f)
	}
	add("manifest", i.manifest)
	var vs []kv
	for _, v := range i.versions {
		var e []kv
		put := func(k string, x any) {
			if x != nil && !v.drop[k] {
				e = append(e, kv{k, x})
			}
		}
		put("created", v.created)
		put("state", v.state)
		put("message", v.msg)
		put("user", v.user)
		e = append(e, v.extra...)
		if v.whole != nil {
			vs = append(vs, kv{v.name, v.whole})
		} else {
			vs = append(vs, kv{v.name, e})
		}
	}
	add("versions", vs)
	l = append(l, i.extra...)
	w.val(l, "")
	if w.indent != "" && w.g.P(50) {
		w.b.WriteString("\n")
	}
	return []byte(w.b.String())
}

// fObj is an object of other software before it is stored.
type fObj struct {
	st      Style
	ver     string
	invs    []*fInv           // per version
	noInv   map[int]bool      // versions (from 0) without inventory
	content map[string][]byte // stored files
	other   map[string][]byte // logs, extensions, declaration
	w       *jw
	names   []string // folders of the versions
	root    *fInv    // inventory of the object if it is not that of the newest version
	pad     string   // behind that inventory
	soft    map[string]bool
	side    string // format of the digest file
	sideUp  bool
}

func hexCase(d string, up bool) string {
	if up {
		return strings.ToUpper(d)
	}
	return d
}

// files renders the object.
func (o *fObj) files() map[string][]byte {
	f := map[string][]byte{}
	for p, b := range o.content {
		f[p] = b
	}
	for p, b := range o.other {
		f[p] = b
	}
	put := func(pre string, inv *fInv, b []byte) {
		alg := inv.alg
		if digestOf(alg, nil) == "" {
			alg = "sha512"
		}
		f[pre+"inventory.json"] = b
		f[pre+"inventory.json."+inv.alg] = []byte(fmt.Sprintf(o.side, hexCase(digestOf(alg, b), o.sideUp)))
	}
	for k, inv := range o.invs {
		if o.noInv[k] && k < len(o.invs)-1 {
			continue
		}
		b := o.w.inv(inv)
		if !o.noInv[k] {
			put(o.names[k]+"/", inv, b)
		}
		if k == len(o.invs)-1 {
			switch {
			case o.pad != "":
				// the very text of the version, and some space
				inv, b = o.root, append(append([]byte{}, b...), o.pad...)
			case o.root != nil:
				inv, b = o.root, o.w.inv(o.root)
			}
			put("", inv, b)
		}
	}
	return f
}

var fixAlgs = []string{"md5", "sha1", "sha256", "sha512", "sha512/256", "blake2b-512", "blake2b-160", "blake2b-256", "blake2b-384"}

// foreign builds the object as other software would have stored it. what reads the
// features wanted; the generator decides the rest.
func foreign(g *Rng, id string, src *VObj, keep map[string][]byte, c *Config, want string, verif string) *fObj {
	is := func(f string, p int) bool {
		x := g.P(p)
		for _, e := range strings.Fields(want) {
			if e == f {
				return true
			}
			if e == "-"+f || e == "-all" {
				return false
			}
		}
		return x
	}
	o := &fObj{noInv: map[int]bool{}, content: map[string][]byte{}, other: map[string][]byte{}}
	var feats []string
	feat := func(f string, a ...any) { feats = append(feats, fmt.Sprintf(f, a...)) }
	n := len(src.Vers)
	st := &o.st
	st.Alg = src.Alg
	if is("pad", 35) {
		w := 2 + g.N(4)
		if w == 2 && (n >= 9 || strings.Contains(want, "long")) {
			w = 3
		}
		st.Pad = w
		feat("pad%d", w)
	}
	if is("full", 0) && n <= 9 {
		if st.Pad == 0 {
			feat("pad2")
		}
		st.Pad = 2
	}
	var cdir *string
	st.CDir = "content"
	if is("cdir", 40) {
		st.CDir = g.Pick("content", "data", "Inhalt", "content2", "con", "v1", "files-1.0", "dos\u00e9", "inventory", "a b", "extensions", "content.d")
		s := st.CDir
		cdir = &s
		feat("cdir=%s", s)
	}
	algOf := make([]string, n)
	if is("alg", 30) {
		st.Alg = g.Pick("sha512", "sha256")
		feat(st.Alg)
	}
	for i := range algOf {
		algOf[i] = st.Alg
	}
	if n > 1 && is("algchange", 12) {
		k := 1 + g.N(n-1)
		other := map[string]string{"sha512": "sha256", "sha256": "sha512"}[st.Alg]
		for i := 0; i < k; i++ {
			algOf[i] = other
		}
		st.Soft = true
		feat("algchange@%d", k)
	}
	o.ver = src.Ver
	if is("old", 25) {
		o.ver = "1.0"
		feat("ocfl1.0")
	}
	verOf := make([]string, n)
	for i := range verOf {
		verOf[i] = o.ver
	}
	if o.ver == "1.1" && n > 1 && is("upgraded", 15) {
		k := 1 + g.N(n-1)
		for i := 0; i < k; i++ {
			verOf[i] = "1.0"
		}
		feat("upgraded@%d", k)
	}
	st.Upper = is("upper", 12)
	if st.Upper {
		feat("upper")
	}
	fixUpper := is("fixupper", 8)
	o.sideUp = is("sideupper", 8)
	o.side = "%s inventory.json"
	if is("side", 50) {
		o.side = g.Pick("%s  inventory.json\n", "%s\tinventory.json\n", "%s inventory.json\n", "%s \t inventory.json", "%s    inventory.json")
	}
	o.w = &jw{g: g, indent: g.Pick("", " ", "  ", "\t", "   "), esc: is("esc", 25), order: g.N(2)}
	// content
	naming := g.N(5)
	dup := is("dup", 35)
	stored := map[string][]string{} // bytes -> paths
	first := map[string]int{}       // path -> version
	num := 0
	store := func(i int, logical, b string) {
		var p string
		switch naming {
		case 0:
			p = fmt.Sprintf("f%d", num)
		case 1:
			d := hex.EncodeToString([]byte(digestOf("md5", []byte(b))))
			p = fmt.Sprintf("%s/%s/%d", d[:2], d[2:4], num)
		case 2:
			p = g.Pick("0=ocfl_object_1.0", "inventory.json", "v1", "content", "x y", "\u00fc", "..a", "a..", "-", "a:b", "a\\b", "extensions") + fmt.Sprintf("_%d", num)
		default:
			p = logical
		}
		num++
		p = st.vname(i+1) + "/" + st.CDir + "/" + p
		o.content[p] = []byte(b)
		stored[b] = append(stored[b], p)
		first[p] = i
	}
	for i, v := range src.Vers {
		for _, p := range v.State.keys() {
			b := v.State[p]
			if len(stored[b]) > 0 {
				old := i > 0 && src.Vers[i-1].State[p] == b
				if !dup || old || !g.P(50) {
					continue
				}
			}
			if _, there := o.content[st.vname(i+1)+"/"+st.CDir+"/"+p]; there {
				continue
			}
			store(i, p, b)
		}
	}
	if dup {
		feat("dup")
	}
	// fixity
	var fix []string
	if is("fixity", 40) {
		for k := 1 + g.N(3); k > 0; k-- {
			fix = append(fix, fixAlgs[g.N(len(fixAlgs))])
		}
		feat("fixity%v", fix)
	}
	fixOf := map[string]map[string]bool{}
	for _, a := range fix {
		fixOf[a] = map[string]bool{}
		all := g.P(60)
		for _, p := range sortedKeys(o.content) {
			if all || g.P(50) {
				fixOf[a][p] = true
			}
		}
	}
	// metadata
	meta := make([]fVer, n)
	t := time.Unix(1500000000+int64(g.N(50000000)), 0).UTC()
	st.Zone = is("zone", 50)
	noUser := is("nouser", 20)
	for i := range meta {
		t = t.Add(time.Duration(1+g.N(1000000)) * time.Second)
		m := &meta[i]
		m.name = st.vname(i + 1)
		m.created = t.Format(time.RFC3339)
		if st.Zone {
			x := t
			if g.P(60) {
				x = x.Add(time.Duration(1+g.N(999)) * []time.Duration{time.Millisecond, time.Microsecond, 1}[g.N(3)])
			}
			if g.P(60) {
				x = x.In(time.FixedZone("", []int{3600, -5 * 3600, 19800, 0, 45 * 60, 14 * 3600}[g.N(6)]))
			}
			m.created = x.Format(time.RFC3339Nano)
			if g.P(15) {
				m.created = strings.Replace(m.created.(string), "Z", "+00:00", 1)
			}
		}
		if !noUser || g.P(50) {
			m.msg = g.Pick("first", "m\u00e4ssage <&>", "", "a\nb", "\u2028")
			u := []kv{{"name", g.Pick("Alice", "B\u00f6b \"x\"", "C")}}
			if g.P(70) {
				u = append(u, kv{"address", g.Pick("mailto:a@example.org", "https://orcid.org/0000-0001", "info:x", "room 5", "a@example.org")})
			}
			m.user = u
			if g.P(10) {
				m.msg = nil
			}
			if g.P(10) {
				m.user = nil
			}
		}
	}
	if noUser {
		feat("nouser")
	}
	if n > 1 && is("noinv", 15) {
		for i := range meta {
			// there has to be a folder of the version
			has := false
			for _, k := range first {
				has = has || k == i
			}
			if has && g.P(50) {
				o.noInv[i] = true
			}
		}
		st.Soft = true
		feat("noinv%v", len(o.noInv))
	}
	reword := n > 1 && is("reword", 10)
	if reword {
		st.Soft = true
		feat("reword")
	}
	// inventories
	for i := range src.Vers {
		inv := &fInv{id: id, typ: "https://ocfl.io/" + verOf[i] + "/spec/#inventory", alg: algOf[i], head: st.vname(i + 1), cdir: cdir, manifest: map[string][]string{}}
		dg := func(b string) string { return hexCase(digestOf(algOf[i], []byte(b)), st.Upper) }
		for _, p := range sortedKeys(o.content) {
			if first[p] <= i {
				d := dg(string(o.content[p]))
				inv.manifest[d] = append(inv.manifest[d], p)
			}
		}
		for _, a := range fix {
			if a == algOf[i] {
				continue
			}
			m := map[string][]string{}
			for _, p := range sortedKeys(o.content) {
				if first[p] <= i && fixOf[a][p] {
					d := hexCase(digestOf(a, o.content[p]), fixUpper)
					m[d] = append(m[d], p)
				}
			}
			if inv.fixity == nil {
				inv.fixity = map[string]map[string][]string{}
			}
			inv.fixity[a] = m
		}
		for k := 0; k <= i; k++ {
			v := meta[k]
			v.state = map[string][]string{}
			for _, p := range src.Vers[k].State.keys() {
				d := dg(src.Vers[k].State[p])
				v.state[d] = append(v.state[d], p)
			}
			if reword && i < n-1 && g.P(50) {
				v.msg = "as it was called then"
			}
			inv.versions = append(inv.versions, v)
		}
		o.invs = append(o.invs, inv)
		o.names = append(o.names, inv.head)
	}
	o.other["0=ocfl_object_"+o.ver] = []byte("ocfl_object_" + o.ver + "\n")
	for p, b := range keep {
		o.other[p] = b
	}
	if is("logs", 15) {
		o.other["logs/"+g.Pick("a.log", "2020/b.log", "inventory.json")] = []byte("log")
		feat("logs")
	}
	if is("extradir", 10) {
		// to be ignored
		d := st.vname(1+g.N(n)) + "/" + g.Pick("extra", "content", st.CDir+"2", "tmp", ".git", "con")
		if path.Base(d) != st.CDir {
			o.other[d+"/"+g.Pick("f", "x/y", "inventory.json")] = []byte("ignored")
			st.Soft = true
			feat("extradir")
		}
	}
	if is("unknownext", 15) {
		n := g.Pick("0099-other-software", "local-ext", "0005-mutable-head-not", "\u00e4")
		o.other["extensions/"+n+"/config.json"] = []byte(g.Pick(`{"extensionName": "`+n+`"}`, `{"extensionName": "`+n+`", "a": [1, {"b": null}]}`))
		if g.P(50) {
			o.other["extensions/"+n+"/data/x.bin"] = []byte{0, 1, 2}
		}
		feat("ext %s", n)
	}
	st.Frozen = strings.Join(feats, " ")
	return o
}

func sortedKeys(m map[string][]byte) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Foreign stores an object anew in the way other software would.
func (h *Hist) Foreign(id string, seed uint64, want string) *fObj {
	o, dir := h.restyle(id, seed, want)
	h.putForeign(id, dir, o)
	return o
}

// restyle builds an object of the storage root anew in the way other software would.
func (h *Hist) restyle(id string, seed uint64, want string) (*fObj, string) {
	r := h.r
	g := NewRng(seed)
	if h.sess != nil {
		h.Reopen()
	}
	v := h.Read()
	src := v.Objs[id]
	m := h.Model[id]
	if src == nil || m == nil || len(h.hard(src)) > 0 || len(src.Vers) != len(m.Vers) {
		panic(&Inconclusive{"no sound object to start from: " + h.unsound(id)})
	}
	keep := map[string][]byte{}
	pre := src.Dir + "/"
	for p, b := range v.Files {
		if strings.HasPrefix(p, pre+"extensions/") {
			keep[p[len(pre):]] = b
		}
	}
	c := &r.C.Cfg
	if upd := 0; !strings.Contains(want, "full") {
		for _, op := range r.C.Ops {
			if op.K == "upd" {
				upd++
			}
		}
		if upd > 8 {
			want += " long"
		}
	}
	o := foreign(g, id, src, keep, c, want, "")
	// software without extensions
	if len(c.Ext) == 0 && g.P(40) {
		for p := range o.other {
			if strings.HasPrefix(p, "extensions/") && (strings.Contains(p, "NNNN-gocfl") || strings.Contains(p, "extensions/initial/")) {
				delete(o.other, p)
			}
		}
		o.st.Bare = true
	}
	return o, src.Dir
}

func (h *Hist) putForeign(id, dir string, o *fObj) {
	r, m := h.r, h.Model[id]
	h.place(dir, o.files())
	if h.styles == nil {
		h.styles = map[string]*Style{}
	}
	h.styles[id] = &o.st
	r.T("object %q as of other software: %s", id, o.st.Frozen)
	for _, f := range strings.Fields(o.st.Frozen) {
		r.Probe("foreign " + f)
	}
	if h.onForeign != nil {
		h.onForeign(id)
	}
	last := o.invs[len(o.invs)-1]
	for i, mv := range m.Vers {
		x := last.versions[i]
		mv.Msg, mv.User, mv.Addr, mv.Loose = "", "", "", false
		if s, ok := x.msg.(string); ok {
			mv.Msg = s
		}
		if u, ok := x.user.([]kv); ok {
			for _, e := range u {
				if e.k == "name" {
					mv.User = e.v.(string)
				} else {
					mv.Addr = e.v.(string)
				}
			}
		}
		t, err := time.Parse(time.RFC3339, x.created.(string))
		if err != nil {
			panic(&Inconclusive{"creation time: " + err.Error()})
		}
		mv.At = t
	}
	// the harness must agree with itself
	w := h.Read().Objs[id]
	if w == nil {
		panic(&Inconclusive{"foreign object is not found"})
	}
	if p := h.hard(w); len(p) > 0 {
		panic("foreign object is not sound: " + strings.Join(p, "; ") + " (" + o.st.Frozen + ")")
	}
	for i, mv := range m.Vers {
		if d := h.sameState(mv.State, w.Vers[i].State); d != "" {
			panic("foreign object is not equal: " + d)
		}
	}
}

func (h *Hist) unsound(id string) string {
	o, m := h.Read().Objs[id], h.Model[id]
	if o == nil || m == nil {
		return "missing"
	}
	return fmt.Sprint(len(o.Vers), len(m.Vers), h.hard(o))
}

// place replaces the files of an object.
func (h *Hist) place(dir string, files map[string][]byte) {
	w := h.r.W
	w.Delete(path.Join(h.dir, dir))
	for _, p := range sortedKeys(files) {
		w.Put(path.Join(h.dir, dir, p), files[p])
	}
	w.Settle()
	w.Boot()
	h.sess, h.last = nil, nil
}
