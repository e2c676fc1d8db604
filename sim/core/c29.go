package core

import (
	"encoding/json"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"
)

// C29: objects lie where the definition of the storage layout puts them. The oracle reads
// the layout and its configuration from the storage root as other software would do, and
// maps identifiers by its own implementation of the published definitions (0002, 0003,
// 0004, 0006, 0007) and of those in the documentation (clean, direct, pairtree).

// layoutDefaults are the values of parameters a configuration leaves out.
var layoutDefaults = map[string]map[string]any{
	"0003-hash-and-id-n-tuple-storage-layout": {"digestAlgorithm": "sha256", "tupleSize": 3, "numberOfTuples": 3},
	"0004-hashed-n-tuple-storage-layout":      {"digestAlgorithm": "sha256", "tupleSize": 3, "numberOfTuples": 3, "shortObjectRoot": false},
	"0007-n-tuple-omit-prefix-storage-layout": {"tupleSize": 3, "numberOfTuples": 3, "zeroPadding": "left", "reverseObjectRoot": false},
	"NNNN-direct-clean-path-layout":           {"maxPathnameLen": 32000, "maxPathSegmentLen": 127, "replacementString": "_", "whitespaceReplacementString": " ", "utfEncode": false, "fallbackDigestAlgorithm": "md5", "fallbackFolder": "fallback", "numberOfFallbackTuples": 0, "fallbackTupleSize": 1},
}

type layout struct {
	name string
	m    map[string]any
}

func (l *layout) get(k string) any {
	if v, ok := l.m[k]; ok {
		return v
	}
	return layoutDefaults[l.name][k]
}

func (l *layout) num(k string) int {
	switch v := l.get(k).(type) {
	case float64:
		return int(v)
	case int:
		return v
	}
	return 0
}

func (l *layout) str(k string) string { s, _ := l.get(k).(string); return s }
func (l *layout) is(k string) bool    { b, _ := l.get(k).(bool); return b }

// layoutOf reads the layout of a storage root.
func layoutOf(files map[string][]byte) (*layout, error) {
	b, ok := files["ocfl_layout.json"]
	if !ok {
		return nil, fmt.Errorf("no ocfl_layout.json")
	}
	var x map[string]any
	if err := json.Unmarshal(b, &x); err != nil {
		return nil, fmt.Errorf("ocfl_layout.json: %v", err)
	}
	n, _ := x["extension"].(string)
	if d, _ := x["description"].(string); n == "" || d == "" || len(x) != 2 {
		return nil, fmt.Errorf("ocfl_layout.json: %s", b)
	}
	l := &layout{name: n}
	if b, ok := files["extensions/"+n+"/config.json"]; ok {
		if err := json.Unmarshal(b, &l.m); err != nil {
			return nil, fmt.Errorf("configuration of %s: %v", n, err)
		}
		if l.m["extensionName"] != n {
			return nil, fmt.Errorf("configuration of %s is that of %v", n, l.m["extensionName"])
		}
	}
	return l, nil
}

// place returns the folder of an identifier: "" if the layout has none for it; sure is
// false where the definition leaves it open.
func (l *layout) place(id string) (dir string, sure bool) {
	if id == "" || !utf8.ValidString(id) {
		return "", true
	}
	sure = true
	tuples := func(d string) []string {
		n, s := l.num("numberOfTuples"), l.num("tupleSize")
		var p []string
		for i := 0; i < n && s > 0; i++ {
			if len(d) < (i+1)*s {
				return nil
			}
			p = append(p, d[i*s:(i+1)*s])
		}
		return p
	}
	switch l.name {
	case "0002-flat-direct-storage-layout":
		dir, sure = id, !strings.Contains(id, "/")
	case "0003-hash-and-id-n-tuple-storage-layout":
		d := digestOf(l.str("digestAlgorithm"), []byte(id))
		if len(d) < l.num("numberOfTuples")*l.num("tupleSize") {
			return "", true
		}
		e := ""
		for _, b := range []byte(id) {
			if strings.IndexByte("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", b) >= 0 {
				e += string(b)
			} else {
				e += fmt.Sprintf("%%%02x", b)
			}
		}
		if len(e) > 100 {
			e = e[:100] + "-" + d
		}
		dir = strings.Join(append(tuples(d), e), "/")
	case "0004-hashed-n-tuple-storage-layout":
		d := digestOf(l.str("digestAlgorithm"), []byte(id))
		n := l.num("numberOfTuples") * l.num("tupleSize")
		if len(d) < n || len(d) == n && l.is("shortObjectRoot") {
			return "", len(d) < n
		}
		p := tuples(d)
		if l.is("shortObjectRoot") {
			d = d[n:]
		}
		dir = strings.Join(append(p, d), "/")
	case "0006-flat-omit-prefix-storage-layout", "0007-n-tuple-omit-prefix-storage-layout":
		rest, del := id, l.str("delimiter")
		if del == "" {
			return "", false
		}
		if i := strings.LastIndex(id, del); i >= 0 {
			rest = id[i+len(del):]
		}
		// the definition takes the delimiter without regard to case
		if i := strings.LastIndex(strings.ToLower(id), strings.ToLower(del)); i != strings.LastIndex(id, del) {
			return "", false
		}
		if rest == "" {
			return "", true
		}
		if strings.Contains(rest, "/") {
			sure = false
		}
		if l.name[:4] == "0006" {
			dir = rest
			break
		}
		for i := 0; i < len(rest); i++ {
			sure = sure && rest[i] < 128
		}
		n := l.num("tupleSize") * l.num("numberOfTuples")
		x := rest
		for len(x) < n {
			if l.str("zeroPadding") == "right" {
				x += "0"
			} else {
				x = "0" + x
			}
		}
		if l.is("reverseObjectRoot") {
			y := []byte(x)
			for i, j := 0, len(y)-1; i < j; i, j = i+1, j-1 {
				y[i], y[j] = y[j], y[i]
			}
			x = string(y)
		}
		dir = strings.Join(append(tuples(x), rest), "/")
	case "NNNN-direct-path-layout":
		dir = path.Join("", id)
		sure = path.Clean("/"+id) == "/"+id
	case "NNNN-pairtree-storage-layout":
		s := ""
		for _, b := range []byte(id) {
			switch {
			case b < 0x21 || b > 0x7e || strings.IndexByte("\"*+,<=>?\\^|", b) >= 0:
				s += fmt.Sprintf("^%02x", b)
			case b == '/':
				s += "="
			case b == ':':
				s += "+"
			case b == '.':
				s += ","
			default:
				s += string(b)
			}
		}
		dir = l.shorties(s)
	case "NNNN-direct-clean-path-layout":
		dir, sure = l.clean(id)
	default:
		return "", false
	}
	for i, p := range strings.Split(dir, "/") {
		if p == "" || p == "." || p == ".." || len(p) > 255 || strings.ContainsRune(p, 0) || i == 0 && p == "extensions" {
			return "", sure
		}
	}
	if strings.Contains(dir, "\\") || strings.HasPrefix(dir, "0=ocfl_") || dir == "ocfl_layout.json" {
		sure = false
	}
	return dir, sure
}

func (l *layout) shorties(s string) string {
	var p []string
	for n := l.num("shortyLength"); s != ""; {
		k := min(n, len(s))
		p, s = append(p, s[:k]), s[k:]
	}
	return strings.Join(p, "/")
}

// oddPairtree is where the pairtree layout puts an object: known finding.
func (l *layout) oddPairtree(id string) string {
	s := ""
	for _, r := range id {
		switch {
		case r < 0x21 || r > 0x7e || strings.ContainsRune("\"*+c<=>?^|", r):
			s += fmt.Sprintf("^%x", r)
		default:
			s += string(r)
		}
	}
	return l.shorties(strings.NewReplacer("/", "=", ":", "+", ".", ",").Replace(s))
}

const cleanSpaces = "\u0009\u000a\u000b\u000c\u000d\u0020\u0085\u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u200b\u200c\u200d\u200e\u200f\u2028\u2029\u202f\u205f\u3000"
const cleanOthers = "*?:[]\"<>|(){}&'!;#@"

var cleanCode = regexp.MustCompile("=u[a-zA-Z0-9]{4}")

func (l *layout) clean(id string) (string, bool) {
	sure := true
	var out []string
	long := func(s string) (string, bool) {
		d := digestOf(l.str("fallbackDigestAlgorithm"), []byte(s))
		seg := l.num("maxPathSegmentLen")
		var p []string
		for i, n := 0, l.num("numberOfFallbackTuples"); i < n; i++ {
			// definition and its reference implementation differ for more
			k := l.num("fallbackTupleSize")
			sure = sure && (n <= 1 || k == 1)
			p = append(p, d[i*k:(i+1)*k])
		}
		for d != "" {
			k := min(seg, len(d))
			p, d = append(p, d[:k]), d[k:]
		}
		r := strings.Join(append([]string{l.str("fallbackFolder")}, p...), "/")
		if len(r) > l.num("maxPathnameLen") {
			return "", sure
		}
		return r, sure
	}
	code := func(r rune) string { return fmt.Sprintf("=u%04X", r) }
	for _, n := range strings.Split(id, "/") {
		if n == "" {
			continue
		}
		rs := []rune(n)
		var b strings.Builder
		if l.is("utfEncode") {
			for i, r := range rs {
				if r == '=' && cleanCode.MatchString(string(rs[i:min(i+6, len(rs))])) {
					b.WriteString("=u003D")
				} else if r < 0x20 || r == 0x7f || strings.ContainsRune(cleanSpaces+cleanOthers, r) {
					b.WriteString(code(r))
				} else {
					b.WriteRune(r)
				}
			}
			n = b.String()
			if n[0] == '~' || strings.Trim(n, ".") == "" {
				n = code(rune(n[0])) + n[1:]
			}
		} else {
			for _, r := range rs {
				if strings.ContainsRune(cleanSpaces, r) {
					b.WriteString(l.str("whitespaceReplacementString"))
				} else if r < 0x20 || r == 0x7f || strings.ContainsRune(cleanOthers, r) {
					b.WriteString(l.str("replacementString"))
				} else {
					b.WriteRune(r)
				}
			}
			n = strings.TrimLeft(b.String(), "-~"+cleanSpaces)
			// the implementation takes more than spaces from the end
			if r, _ := utf8.DecodeLastRuneInString(n); r >= 0x2010 && r <= 0x20a0 {
				sure = false
			}
			n = strings.TrimRight(n, cleanSpaces)
			if n != "" && strings.Trim(n, ".") == "" {
				n = l.str("replacementString") + n[1:]
			}
		}
		if len(n) > l.num("maxPathSegmentLen") {
			return long(id)
		}
		if n != "" {
			out = append(out, n)
		}
	}
	s := strings.Join(out, "/")
	if len(s) > l.num("maxPathnameLen") {
		// the implementation takes the digest of the cleaned name
		r, _ := long(s)
		return r, s == id && sure
	}
	return s, sure
}

// placeLP draws parameters of layouts, with their bounds.
func placeLP(g *Rng, l string) map[string]any {
	m := genLP(g, l)
	switch l {
	case "0003", "0004":
		m["digestAlgorithm"] = g.Pick("sha256", "sha256", "md5", "sha512", "sha1", "blake2b-160")
		switch g.N(6) {
		case 0:
			m["tupleSize"], m["numberOfTuples"] = 0, 0
		case 1:
			m["tupleSize"], m["numberOfTuples"] = 3, 3
		case 2:
			m["digestAlgorithm"], m["tupleSize"], m["numberOfTuples"] = "sha256", (1 + g.N(2)), 32
			if l == "0004" {
				m["shortObjectRoot"] = false
			}
		case 3:
			m["digestAlgorithm"], m["tupleSize"], m["numberOfTuples"] = "md5", 32, 1
			if l == "0004" {
				m["shortObjectRoot"] = false
			}
		}
	case "0006":
		m["delimiter"] = g.Pick(":", "/", "o-", "edu/", "::", "ß")
	case "0007":
		m["delimiter"] = g.Pick(":", "/", "edu/", "::")
		if g.P(30) {
			m["tupleSize"], m["numberOfTuples"] = 3, 3
		}
		if g.P(10) {
			m["tupleSize"], m["numberOfTuples"] = (1 + g.N(32)), (1 + g.N(32))
		}
	}
	return m
}

// placeIDs are identifiers worth to be mapped.
func placeIDs(g *Rng, c *Config) []string {
	l := []string{"object-1", "object_01", "a", "obj:12", "12cd.ef", "info obj", "öbject", "ext", "v1", "abc123", "A-B_c~d", "..hor_rib:lé-$id", "=u003Dx", "x=u12", "trailing ", " leading", "-dash", "~tilde", "...", "tab\there", "line\nbreak", "\x01\x0f\x10", "a\\b", "äöü 12", "日本語", "per%20cent", "0", "zz\u00a0x", "end\u2026", "COM1", "x" + strings.Repeat("y", (90+g.N(21))), strings.Repeat("é", (10 + g.N(51))), strings.Repeat("long:", (18 + g.N(43))), "[b]{c}(d)<e>|f;g#h@i!j&k'l\"m*n?o"}
	// names which just fit, names which just do not
	fill := func(n int) string {
		if n < 2 {
			return "q"
		}
		return "q" + strings.Repeat("w", n-1)
	}
	num := func(k string, d int) int {
		if n, ok := c.LP[k].(int); ok {
			return n
		}
		return d
	}
	switch c.Layout {
	case "0003":
		for k := 99; k <= 101; k++ {
			l = append(l, fill(k), ":"+fill(k-3), fill(k-6)+"é")
		}
	case "clean", "direct":
		seg, all := num("maxPathSegmentLen", 127), num("maxPathnameLen", 32000)
		for k := seg - 1; k <= seg+1; k++ {
			l = append(l, fill(k), "a/"+fill(k)+"/b", fill(k-2)+"é")
		}
		for k := all - 1; k <= all+1 && all < 500; k++ {
			// segments which are short enough, together as long as a path may be
			var b []string
			n := k
			for n > seg {
				b = append(b, fill(seg/2))
				n -= seg/2 + 1
			}
			l = append(l, strings.Join(append(b, fill(n)), "/"))
		}
	}
	switch c.Layout {
	case "flat":
	case "pairtree":
		// known finding: other characters have another encoding than defined
		if g.P(95) {
			l = []string{"abd", "info:abdefgh", "what-the-*@?#!^!?", "ark:/13030/xt12t3", "a", "ab", "http://n2t.info/urn:nbn:se:kb:repos-1", "x y", "a+b", "<>", "\"|\"", "a=b", "trailing ", "~", "\x7f\x10", strings.Repeat("long:", 30)}
		}
	case "0006", "0007":
		d := c.LP["delimiter"].(string)
		var m []string
		for _, x := range append(l, "12887296", "6e8bc430-9c3a-11d9-9669-0800200c9a66", "f8.05v", "ab", "1", "..") {
			switch g.N(5) {
			case 0:
				m = append(m, x)
			case 1:
				m = append(m, "ns"+d+"x"+d+x)
			case 2:
				m = append(m, "ns"+d+x)
			case 3:
				m = append(m, "https://institution.edu/"+d+x, d+x)
			case 4:
				m = append(m, x+d, strings.ToUpper(d)+x)
			}
		}
		l = m
	default:
		l = append(l, "info:abc/def-1", "http://example.org/object/1", "ark:/12148/btv1b8449691v", "urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8", "A.B/c:d", "extensions/x", "a//b/", "/lead/ing", "./x", "x/../y", "what-the-*@?#!^!?", strings.Repeat("long/identifier:", (3+g.N(22))), "https://hdl.handle.net/XXXXX/test/bl ah", "~ info:fedora/-obj#ec@t-\"01 ", "/test/ ~/.../blah")
	}
	return l
}

func init() {
	Experiments["C29"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			GenHist(g, c, Opt{MaxObj: 1, MaxUpd: 2, Small: true, Names: 0})
			c.Ops = nil
			c.Cfg.Layout = g.Pick("flat", "0003", "0003", "0004", "0004", "0006", "0006", "0007", "0007", "clean", "clean", "direct", "pairtree")
			c.Cfg.LP = placeLP(g, c.Cfg.Layout)
			c.X = map[string]string{"root": g.Pick("own", "foreign", "foreign")}
			c.X["rseed"] = fmt.Sprint(g.U64() >> 12)
			pool := placeIDs(g, &c.Cfg)
			c.IDs = nil
			for i := (2 + g.N(5)); i > 0 && len(pool) > 0; i-- {
				k := g.N(len(pool))
				if b := len(pool) - 1; pool[b][:1] == "q" && g.P(30) {
					k = b - g.N(min(12, b+1))
				}
				c.IDs = append(c.IDs, pool[k])
				pool = append(pool[:k], pool[k+1:]...)
			}
			seen := map[string]bool{}
			ids := c.IDs[:0]
			for _, id := range c.IDs {
				if !seen[id] && id != "" {
					ids = append(ids, id)
				}
				seen[id] = true
			}
			c.IDs = ids
			for i := (2 + g.N(7)); i > 0; i-- {
				o := g.N(len(c.IDs))
				c.Ops = append(c.Ops, Op{K: "place", Obj: o, Dedup: g.P(50), Echo: true, Msg: "m", User: "u", Addr: "mailto:u@example.org",
					Files: []FileSpec{{P: "a.txt", C: fmt.Sprintf("A%d.%d", i, 10+o)}}, Acts: []Act{{A: "folder"}}})
			}
		},
		Run: runC29,
	}
}

// strange writes the storage root as other software would have done: without the parameters
// which have their default value, without the extensions only this software knows.
func (h *Hist) strange(g *Rng) string {
	r := h.r
	f, err := r.files(h.dir)
	if err != nil {
		panic(&Inconclusive{"storage root unreadable"})
	}
	l, err := layoutOf(f)
	if err != nil {
		r.Fail("layout", "%v", err)
	}
	var what []string
	ch := map[string][]byte{}
	var rm []string
	for p := range f {
		if strings.HasPrefix(p, "extensions/initial/") || strings.HasPrefix(p, "extensions/NNNN-gocfl-extension-manager/") {
			rm = append(rm, p)
		}
	}
	sort.Strings(rm)
	if len(rm) > 0 {
		what = append(what, "no manager")
		r.W.Delete(join(h.dir, "extensions/initial"))
		r.W.Delete(join(h.dir, "extensions/NNNN-gocfl-extension-manager"))
	}
	var ks []string
	for k := range l.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		d, ok := layoutDefaults[l.name][k]
		if !ok || !g.P(60) {
			continue
		}
		if (fmt.Sprint(d) == fmt.Sprint(l.m[k]) || g.P(30)) && !(k == "maxPathnameLen" || k == "maxPathSegmentLen") {
			delete(l.m, k)
			what = append(what, "no "+k)
		}
	}
	// both are zero or none
	if l.name[:4] == "0003" || l.name[:4] == "0004" {
		if (l.num("tupleSize") == 0) != (l.num("numberOfTuples") == 0) {
			delete(l.m, "tupleSize")
			delete(l.m, "numberOfTuples")
		}
		if n := l.num("tupleSize") * l.num("numberOfTuples"); n > len(digestOf(l.str("digestAlgorithm"), nil)) {
			delete(l.m, "digestAlgorithm")
			delete(l.m, "tupleSize")
			delete(l.m, "numberOfTuples")
		}
	}
	b, _ := json.Marshal(l.m)
	if g.P(50) {
		b, _ = json.MarshalIndent(l.m, "", "\t")
	}
	cfg := "extensions/" + l.name + "/config.json"
	ch[cfg] = b
	if l.name[:4] == "0002" && g.P(60) {
		delete(ch, cfg)
		r.W.Delete(join(h.dir, "extensions"))
		what = append(what, "no extensions")
	}
	ch["ocfl_layout.json"], _ = json.Marshal(map[string]string{"extension": l.name, "description": "layout of " + l.name})
	h.storeFiles(ch, nil)
	return strings.Join(what, ", ")
}

func (h *Hist) judgePlaces(l *layout, when string) {
	r := h.r
	v := h.Read()
	for _, id := range r.C.IDs {
		m := h.Model[id]
		if m == nil || len(m.Vers) == 0 {
			continue
		}
		o := v.Objs[id]
		if o == nil {
			r.Fail("lost", "%s: there is no object %q", when, id)
		}
		dir, sure := l.place(id)
		if sure && dir != o.Dir {
			if l.name == "NNNN-pairtree-storage-layout" && o.Dir == l.oddPairtree(id) {
				r.Fail("place", "%s: pairtree encoding of %q in %q, its place is %q", when, id, o.Dir, dir)
			}
			r.Fail("place", "%s: object %q is in %q, its place in %s %s is %q", when, id, o.Dir, l.name, toJSON(l.m), dir)
		}
		if sure {
			r.Probe("place in " + l.name)
		}
	}
}

func runC29(r *Run) {
	h := r.NewHist()
	h.MustCreate()
	root := "own root"
	if r.C.X["root"] == "foreign" {
		h.Reopen()
		var seed uint64
		fmt.Sscan(r.C.X["rseed"], &seed)
		root = "root of other software (" + h.strange(NewRng(seed)) + ")"
		r.T("%s", root)
	}
	h.Reopen()
	f, err := r.files(h.dir)
	if err != nil {
		panic(&Inconclusive{"storage root unreadable"})
	}
	l, err := layoutOf(f)
	if err != nil {
		r.Fail("layout", "%v", err)
	}
	r.Ok("open the "+root, "failed", func() error {
		_, err := r.LoadRO(h.dir)
		return err
	})
	n := 0
	for i := range r.C.Ops {
		op := &r.C.Ops[i]
		id := r.C.IDs[op.Obj]
		when := fmt.Sprintf("%s, step %d", root, i)
		h.Reopen()
		dir, sure := l.place(id)
		// an object must not be within another one
		free := true
		for o, m := range h.Model {
			d, _ := l.place(o)
			if o != id && len(m.Vers) > 0 && (d == dir || strings.HasPrefix(d, dir+"/") || strings.HasPrefix(dir, d+"/") || d == "" || strings.EqualFold(d, dir)) {
				free = false
			}
		}
		before := h.snapshotFiles()
		h.mount(op)
		o := r.Do("update of "+id, nil, func() error { return h.DoUpdate(op) })
		r.MustEnd("update of "+id, o)
		if o.Err == nil {
			if dir == "" && sure {
				r.Fail("accepted", "%s: object %q is created though %s %s has no place for it", when, id, l.name, toJSON(l.m))
			}
			h.Commit(op)
			n++
		} else {
			if sure && dir != "" && free {
				r.Fail("refused", "%s: object %q, whose place in %s %s is %q, cannot be written: %s", when, id, l.name, toJSON(l.m), dir, errStr(o.Err))
			}
			if m := h.Model[id]; m != nil && len(m.Vers) > 0 {
				r.Fail("refused", "%s: the next version of object %q cannot be written: %s", when, id, errStr(o.Err))
			}
			h.sess = nil
			r.W.Boot()
			if after := h.snapshotFiles(); !sameTree(before, after) {
				r.Fail("written", "%s: object %q is refused (%s), but it changes the storage root: %s", when, id, errStr(o.Err), treeDiff(before, after))
			}
			r.Probe("refused")
		}
		h.Reopen()
		h.judgePlaces(l, when)
	}
	h.CheckFormat(true)
	h.Reopen()
	h.CheckExtract()
	h.Reopen()
	h.CheckValid(root)
	g, err := r.files(h.dir)
	if err != nil {
		panic(&Inconclusive{"storage root unreadable"})
	}
	for _, p := range []string{"ocfl_layout.json", "extensions/" + l.name + "/config.json"} {
		if string(g[p]) != string(f[p]) {
			r.Fail("layout", "%s: %s has changed: %s", root, p, lineDiff(string(f[p]), string(g[p])))
		}
	}
	r.NonTriv = n > 0
	r.Note = fmt.Sprintf("%s, %d objects", root, n)
}
