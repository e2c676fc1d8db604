package core

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"verifsim/simos"
)

type fk struct{ op, kind string }

var readFaults = []fk{{"open", "eio"}, {"open", "eacces"}, {"open", "emfile"}, {"read", "eio"}, {"read", "eio"}, {"stat", "eio"}, {"stat", "eacces"}, {"readdir", "eio"}, {"readdir", "eacces"}, {"rclose", "eio"}, {"any", "eio"}, {"any", "estale"}}
var writeFaults = []fk{{"create", "eio"}, {"create", "enospc"}, {"create", "eacces"}, {"write", "enospc"}, {"write", "eio"}, {"write", "short"}, {"close", "eio"}, {"close", "enospc"}, {"mkdir", "enospc"}, {"mkdir", "eacces"}, {"rename", "eio"}, {"remove", "eacces"}, {"mut", "eio"}, {"mut", "enospc"}, {"mut", "eio"}}

// genFault draws a fault among the first max operations.
func genFault(g *Rng, dom string, list []fk, max int) simos.Fault {
	k := list[g.N(len(list))]
	f := simos.Fault{Dom: dom, Op: k.op, Kind: k.kind, N: 1 + g.N(max)}
	if g.P(50) { // most operations of a kind are few
		f.N = 1 + g.N(8)
	}
	if k.kind == "short" {
		f.Keep = g.N(100)
	}
	if g.P(12) {
		f.Sticky = true
	}
	return f
}

func clockFault(g *Rng) simos.Fault {
	return simos.Fault{Dom: "st", Op: "any", N: 1 + g.N(80), Kind: "clock", Keep: g.N(2_000_000) - 1_000_000}
}

// genCrash draws a crash point.
func genCrash(g *Rng, max int) simos.Fault {
	f := simos.Fault{Dom: "st", Op: "mut", N: 1 + g.N(max), Kind: "crash"}
	switch g.N(4) {
	case 0:
		f.Keep = 1 + g.N(99) // torn
	case 1:
		f.Kind = "crashafter"
	}
	return f
}

var damageKinds = []string{"alter", "truncate", "empty", "swap", "remove", "add", "append"}

// store replaces the stored files (of a directory or of the container).
func (h *Hist) storeFiles(change map[string][]byte, remove []string) {
	r := h.r
	if !r.C.Cfg.Zip {
		for p, b := range change {
			r.W.Put(join(h.dir, p), b)
		}
		for _, p := range remove {
			r.W.Delete(join(h.dir, p))
		}
		r.W.Settle()
		return
	}
	f, err := r.files(h.dir)
	if err != nil {
		panic(&Inconclusive{"container unreadable"})
	}
	for p, b := range change {
		f[p] = b
	}
	for _, p := range remove {
		delete(f, p)
	}
	ks := make([]string, 0, len(f))
	for k := range f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var buf bytes.Buffer
	z := zip.NewWriter(&buf)
	for _, k := range ks {
		w, err := z.Create(k)
		if err == nil {
			_, err = w.Write(f[k])
		}
		if err != nil {
			panic(err)
		}
	}
	z.Close()
	r.W.Put(join(h.dir, "archive.zip"), buf.Bytes())
	r.W.Settle()
}

// Hit describes a damage.
type Hit struct {
	Kind string
	Path string
	Obj  string // identifier of the object, if any
	Part string // content inventory sidecar declaration extension other
}

func (d *Hit) String() string { return fmt.Sprintf("%s %s (%s of %q)", d.Kind, d.Path, d.Part, d.Obj) }

var reSideName = regexp.MustCompile(`(^|/)inventory\.json\.[a-z0-9]+$`)

// part classifies a stored file.
func partOf(v *VRoot, p string) (part, id string, o *VObj) {
	for d, x := range v.ByDir {
		if strings.HasPrefix(p, d+"/") {
			o, id = x, x.ID
			p = p[len(d)+1:]
			break
		}
	}
	if o == nil {
		if strings.HasPrefix(p, "0=") {
			return "rootdecl", "", nil
		}
		return "root", "", nil
	}
	switch {
	case strings.HasPrefix(p, "extensions/"):
		part = "extension"
	case strings.HasPrefix(p, "0="):
		part = "declaration"
	case p == "inventory.json":
		part = "inventory"
	case strings.Count(p, "/") == 1 && strings.HasSuffix(p, "/inventory.json"):
		part = "vinventory"
	case strings.Count(p, "/") <= 1 && reSideName.MatchString(p):
		part = "sidecar"
		if strings.Contains(p, "/") {
			part = "vsidecar"
		}
	default:
		part = "content"
	}
	return
}

// Damage alters the storage. op.N chooses what, op.S how.
func (h *Hist) Damage(op *Op) *Hit {
	f, err := h.r.files(h.dir)
	if err != nil || len(f) == 0 {
		return nil
	}
	v := ReadRoot(f)
	var ks []string
	for k := range f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	g := NewRng(uint64(op.N) + 99)
	// all parts are equally likely
	parts := map[string][]string{}
	for _, k := range ks {
		pt, _, _ := partOf(v, k)
		if op.Area == "" || strings.Contains(op.Area, pt) {
			parts[pt] = append(parts[pt], k)
		}
	}
	var pn []string
	for k := range parts {
		pn = append(pn, k)
	}
	sort.Strings(pn)
	if len(pn) == 0 {
		return nil
	}
	l := parts[pn[g.N(len(pn))]]
	p := l[g.N(len(l))]
	part, id, _ := partOf(v, p)
	hit := &Hit{Kind: op.S, Path: p, Obj: id, Part: part}
	b := append([]byte{}, f[p]...)
	switch op.S {
	case "alter":
		if len(b) == 0 {
			b = []byte{0}
		} else {
			i := g.N(len(b))
			b[i] ^= byte(1 << g.N(8))
		}
	case "truncate":
		if len(b) == 0 {
			hit.Kind = "append"
			b = []byte("x")
		} else {
			b = b[:g.N(len(b))]
		}
	case "append":
		b = append(b, []byte(g.Pick("\x00", "x", "\n\n", "{}"))...)
	case "empty":
		if len(b) == 0 {
			b = []byte("was empty")
			hit.Kind = "append"
		} else {
			b = nil
		}
	case "swap":
		q := ks[g.N(len(ks))]
		if bytes.Equal(f[q], b) {
			b = append(b, 'y')
			hit.Kind = "append"
		} else {
			b = f[q]
		}
	case "remove":
		h.storeFiles(nil, []string{p})
		h.r.T("damage %s", hit)
		return hit
	case "add":
		p = p + g.Pick(".bak", "~", "2")
		hit.Path = p
		if part == "extension" || part == "root" || part == "rootdecl" {
			hit.Part = "addother"
		} else {
			hit.Part = "add" + part
		}
		b = []byte("additional")
	}
	h.storeFiles(map[string][]byte{p: b}, nil)
	h.r.T("damage %s", hit)
	return hit
}

// ---- mutation of JSON documents ----

var jsonJunk = []string{`null`, `""`, `[]`, `{}`, `0`, `-1`, `1e308`, `true`, `"v1"`, `"v0"`, `"v01"`, `"v99999999999999999999"`, `"latest"`, `"/"`, `"../x"`, `"a//b"`, `"."`, `"\u0000"`, `[null]`, `[""]`, `[[]]`, `{"":null}`, `{"a":{}}`, `"\ud800"`, `[1,2]`, `"content"`, `"2023-13-45T99:99:99Z"`, `"sha512"`, `"md5"`, `["v1/content/a.txt","v1/content/a.txt"]`, `"x y\tz"`, `"v1/inventory.json"`}

// mutJSON changes one to three places of a JSON document.
func mutJSON(g *Rng, b []byte) []byte {
	for n := 1 + g.N(3); n > 0; n-- {
		b = mutJSON1(g, b)
	}
	return b
}

type jspan struct {
	a, b int // value
	ka   int // start of the key, or -1
	kb   int
}

// spans finds the values of a JSON text.
func spans(b []byte) []jspan {
	var out []jspan
	i := 0
	ws := func() {
		for i < len(b) && (b[i] == ' ' || b[i] == '\n' || b[i] == '\t' || b[i] == '\r') {
			i++
		}
	}
	str := func() {
		i++
		for i < len(b) && b[i] != '"' {
			if b[i] == '\\' {
				i++
			}
			i++
		}
		i++
	}
	var val func(ka, kb int)
	val = func(ka, kb int) {
		ws()
		if i >= len(b) {
			return
		}
		s := i
		switch b[i] {
		case '{':
			i++
			for {
				ws()
				if i >= len(b) {
					return
				}
				if b[i] == '}' {
					i++
					break
				}
				if b[i] == ',' {
					i++
					continue
				}
				if b[i] != '"' {
					i++
					continue
				}
				k := i
				str()
				ke := i
				ws()
				if i < len(b) && b[i] == ':' {
					i++
				}
				val(k, ke)
			}
		case '[':
			i++
			for {
				ws()
				if i >= len(b) {
					return
				}
				if b[i] == ']' {
					i++
					break
				}
				if b[i] == ',' {
					i++
					continue
				}
				p := i
				val(-1, -1)
				if i == p {
					i++
				}
			}
		case '"':
			str()
		default:
			for i < len(b) && !strings.ContainsRune(",]} \n\t\r", rune(b[i])) {
				i++
			}
		}
		if i > len(b) {
			i = len(b)
		}
		out = append(out, jspan{s, i, ka, kb})
	}
	val(-1, -1)
	return out
}

func mutJSON1(g *Rng, b []byte) []byte {
	sp := spans(b)
	if len(sp) == 0 {
		return []byte(jsonJunk[g.N(len(jsonJunk))])
	}
	s := sp[g.N(len(sp))]
	cp := func(parts ...[]byte) []byte {
		var r []byte
		for _, p := range parts {
			r = append(r, p...)
		}
		return r
	}
	junk := func() []byte {
		if g.P(40) { // another value of the document
			t := sp[g.N(len(sp))]
			return append([]byte{}, b[t.a:t.b]...)
		}
		return []byte(jsonJunk[g.N(len(jsonJunk))])
	}
	switch g.N(8) {
	case 0, 1, 2:
		return cp(b[:s.a], junk(), b[s.b:])
	case 3: // other key
		if s.ka >= 0 {
			k := junk()
			if len(k) == 0 || k[0] != '"' {
				k = []byte(g.Pick(`""`, `"v3"`, `"v01"`, `"x"`, `"head"`, `"abc"`, `"/"`))
			}
			return cp(b[:s.ka], k, b[s.kb:])
		}
	case 4: // duplicate
		if s.ka >= 0 {
			return cp(b[:s.b], []byte(","), b[s.ka:s.kb], []byte(":"), junk(), b[s.b:])
		}
		return cp(b[:s.b], []byte(","), b[s.a:s.b], b[s.b:])
	case 5: // remove
		from := s.a
		if s.ka >= 0 {
			from = s.ka
		}
		x := cp(b[:from], b[s.b:])
		x = regexp.MustCompile(`,\s*([,\]}])`).ReplaceAll(x, []byte("$1"))
		x = regexp.MustCompile(`([\[{])\s*,`).ReplaceAll(x, []byte("$1"))
		if json.Valid(x) {
			return x
		}
		return x
	case 6: // within a string
		if b[s.a] == '"' && s.b-s.a > 2 {
			switch g.N(4) {
			case 0:
				i := s.a + 1 + g.N(s.b-s.a-2)
				return cp(b[:i], []byte(g.Pick("/", "..", "x", "Z", " ", "\\u0000", "//", "v")), b[i:])
			case 1:
				return cp(b[:s.a], []byte(strings.ToUpper(string(b[s.a:s.b]))), b[s.b:])
			case 2:
				return cp(b[:s.a], []byte(`"`+strings.Repeat("A/", 3000)+`"`), b[s.b:])
			default:
				i := s.a + 1 + g.N(s.b-s.a-2)
				return cp(b[:i], b[i+1:])
			}
		}
	}
	if len(b) > 2 && g.P(20) {
		return b[:g.N(len(b))]
	}
	return cp(b[:s.a], junk(), b[s.b:])
}
