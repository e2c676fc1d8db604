package core

import (
	"fmt"
	"path"
	"sort"
	"strings"
)

// C23: objects which break a rule of the standard are reported, and nothing else is.
// An object of the storage root is written anew by the harness, consistent in itself
// (inventory digests fit), with exactly one rule broken.

// breaker is an object about to break a rule.
type breaker struct {
	g    *Rng
	o    *fObj
	n    int     // versions
	k    int     // index of an inventory which is stored
	j    int     // index of a version
	inv  []*fInv // inventories which are changed
	hit  string  // what was done
	post func(map[string][]byte)
	dirs []string // empty folders
}

func (b *breaker) last() *fInv { return b.o.invs[b.n-1] }

// vers calls fn with the block of version j in the inventories concerned.
func (b *breaker) vers(fn func(v *fVer)) bool {
	done := false
	for _, inv := range b.inv {
		if b.j < len(inv.versions) {
			fn(&inv.versions[b.j])
			done = true
		}
	}
	return done
}

func (b *breaker) each(fn func(inv *fInv)) bool {
	for _, inv := range b.inv {
		fn(inv)
	}
	return len(b.inv) > 0
}

func (b *breaker) raw(l ...string) rawJSON {
	s := l[b.g.N(len(l))]
	b.hit += " " + s
	return rawJSON(s)
}

// swap replaces the value of a key of the inventory.
func (b *breaker) swap(key string, v any) bool {
	return b.each(func(inv *fInv) {
		if inv.drop == nil {
			inv.drop = map[string]bool{}
		}
		inv.drop[key] = true
		if v != nil {
			inv.extra = append(inv.extra, kv{key, v})
		}
	})
}

func (b *breaker) swapVer(key string, v any) bool {
	return b.vers(func(x *fVer) {
		if x.drop == nil {
			x.drop = map[string]bool{}
		}
		x.drop[key] = true
		if v != nil {
			x.extra = append(x.extra, kv{key, v})
		}
	})
}

func keysOf(m map[string][]string) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// pathOf chooses a digest and one of its paths.
func (b *breaker) pathOf(m map[string][]string) (string, int) {
	ks := keysOf(m)
	if len(ks) == 0 {
		return "", 0
	}
	d := ks[b.g.N(len(ks))]
	if len(m[d]) == 0 {
		return "", 0
	}
	return d, b.g.N(len(m[d]))
}

func flipCase(d string) string {
	if u := strings.ToUpper(d); u != d {
		return u
	}
	return strings.ToLower(d)
}

func badPath(g *Rng, p string) string {
	i := strings.LastIndex(p, "/")
	dir, f := p[:i+1], p[i+1:]
	return g.Pick("/"+p, p+"/", dir+"./"+f, dir+"/"+f, dir+"x/../"+f, "./"+p, "../"+p, "", "/", ".", "..", p+"/..", dir+"..")
}

type rule struct {
	name string
	code string // what the standard calls it
	p    int
	fn   func(b *breaker) bool
}

var rules = []rule{
	{"no id", "E036", 2, func(b *breaker) bool { return b.swap("id", b.pickNil(`""`, `5`, `null`, `{}`)) }},
	{"other id", "E037", 3, func(b *breaker) bool {
		// one inventory differs
		if b.n < 2 {
			return false
		}
		if !b.stored() {
			return false
		}
		b.one()
		return b.each(func(inv *fInv) { inv.id += b.g.Pick("x", " ", "/") })
	}},
	{"no type", "E036", 2, func(b *breaker) bool {
		return b.swap("type", b.pickNil(`"https://ocfl.io/1.7/spec/#inventory"`, `"x"`, `""`, `3`, `"https://ocfl.io/1.0/spec/"`, `"http://ocfl.io/1.0/spec/#inventory"`))
	}},
	{"type of other version", "E038", 2, func(b *breaker) bool {
		t := map[string]string{"1.0": "1.1", "1.1": "1.0"}[b.o.ver]
		b.all()
		return b.each(func(inv *fInv) { inv.typ = "https://ocfl.io/" + t + "/spec/#inventory" })
	}},
	{"no digest algorithm", "E036", 2, func(b *breaker) bool { return b.swap("digestAlgorithm", b.pickNil(`""`, `5`, `["sha512"]`)) }},
	{"wrong digest algorithm", "E025", 3, func(b *breaker) bool {
		a := b.g.Pick("md5", "sha1", "SHA512", "foo", "blake2b-512", "sha-512", "sha512 ")
		return b.each(func(inv *fInv) { inv.alg = a })
	}},
	{"digests of other algorithm", "E039", 2, func(b *breaker) bool {
		return b.each(func(inv *fInv) { inv.alg = map[string]string{"sha512": "sha256", "sha256": "sha512"}[inv.alg] }) && len(b.inv[0].manifest) > 0
	}},
	{"no head", "E036", 2, func(b *breaker) bool { return b.swap("head", b.pickNil(`""`, `1`, `null`, `[]`)) }},
	{"wrong head", "E040", 4, func(b *breaker) bool {
		return b.each(func(inv *fInv) {
			k := len(inv.versions)
			l := []string{b.o.st.vname(k + 1), "v99", "1", "V" + inv.head[1:], inv.head + " ", inv.head + ".0", "v"}
			if k > 1 {
				l = append(l, b.o.st.vname(k-1), b.o.st.vname(1))
			}
			inv.head = l[b.g.N(len(l))]
		})
	}},
	{"no manifest", "E041", 3, func(b *breaker) bool {
		return b.swap("manifest", b.pickNil(`[]`, `"x"`, `5`, `null`, `true`)) // an object without content has an empty manifest
	}},
	{"manifest of wrong structure", "E106", 2, func(b *breaker) bool {
		d := digestOf("sha512", []byte("x"))
		return b.swap("manifest", b.raw(`{"`+d+`": "v1/content/x"}`, `{"`+d+`": [1]}`, `{"`+d+`": {"a":"b"}}`, `{"`+d+`": [["v1/content/a"]]}`))
	}},
	{"no versions", "E043", 2, func(b *breaker) bool { return b.swap("versions", b.pickNil(`{}`, `[]`, `"x"`, `null`, `7`)) }},
	{"version is no object", "E047", 3, func(b *breaker) bool {
		w := b.raw(`[]`, `"x"`, `5`, `null`, `[{}]`, `{}`)
		return b.vers(func(v *fVer) { v.whole = w })
	}},
	{"version missing", "E010", 3, func(b *breaker) bool {
		if b.n < 2 {
			return false
		}
		b.j = b.g.N(b.n - 1)
		b.from(b.j + 1)
		return b.each(func(inv *fInv) {
			if b.j < len(inv.versions)-1 {
				inv.versions = append(append([]fVer{}, inv.versions[:b.j]...), inv.versions[b.j+1:]...)
			}
		})
	}},
	{"version too many", "E040", 2, func(b *breaker) bool {
		return b.each(func(inv *fInv) {
			v := inv.versions[len(inv.versions)-1]
			v.name = b.o.st.vname(len(inv.versions) + 1)
			inv.versions = append(inv.versions[:len(inv.versions):len(inv.versions)], v)
		})
	}},
	{"name of version", "E104", 4, func(b *breaker) bool {
		i := b.j + 1
		nm := b.g.Pick("V%d", "%d", "v%d.0", "v-%d", "v%d ", " v%d", "v+%d", "version%d", "v%dx", "xv%d", "v0x%d")
		if b.o.st.Pad == 0 {
			nm = b.g.Pick(nm, "v0%d", "v00%d")
		} else {
			nm = b.g.Pick(nm, "v%d", fmt.Sprintf("v%%0%dd", b.o.st.Pad+1))
		}
		nm = fmt.Sprintf(nm, i)
		moved := b.n > 1 && b.g.P(50)
		head := b.g.P(70)
		old := b.o.st.vname(i)
		ok := b.vers(func(v *fVer) { v.name = nm })
		if moved {
			// folder and all references as well
			b.each(func(inv *fInv) {
				for d, ps := range inv.manifest {
					for x, p := range ps {
						if strings.HasPrefix(p, old+"/") {
							ps[x] = nm + p[len(old):]
						}
					}
					inv.manifest[d] = ps
				}
				inv.fixity = nil
			})
			c := map[string][]byte{}
			for p, x := range b.o.content {
				if strings.HasPrefix(p, old+"/") {
					p = nm + p[len(old):]
				}
				c[p] = x
			}
			b.o.content = c
			b.o.names[b.j] = nm
		}
		if head {
			b.each(func(inv *fInv) {
				if inv.head == old {
					inv.head = nm
				}
			})
		}
		b.hit += fmt.Sprintf(" %q moved %v head %v", nm, moved, head)
		return ok
	}},
	{"version 0", "E009", 1, func(b *breaker) bool {
		if b.o.st.Pad > 0 {
			return false
		}
		b.all()
		// all versions are counted from 0
		ren := func(p string) string {
			for i := 0; i < b.n; i++ {
				if o := b.o.st.vname(i + 1); p == o || strings.HasPrefix(p, o+"/") {
					return fmt.Sprintf("v%d", i) + p[len(o):]
				}
			}
			return p
		}
		b.each(func(inv *fInv) {
			inv.head = ren(inv.head)
			for i := range inv.versions {
				inv.versions[i].name = ren(inv.versions[i].name)
			}
			for _, ps := range inv.manifest {
				for x := range ps {
					ps[x] = ren(ps[x])
				}
			}
			inv.fixity = nil
		})
		c := map[string][]byte{}
		for p, x := range b.o.content {
			c[ren(p)] = x
		}
		b.o.content = c
		for i := range b.o.names {
			b.o.names[i] = ren(b.o.names[i])
		}
		return true
	}},
	{"content directory", "E017", 3, func(b *breaker) bool {
		s := b.g.Pick("a/b", ".", "..", "/", "content/", "../content")
		return b.each(func(inv *fInv) { inv.cdir = &s })
	}},
	{"content directory changes", "E019", 3, func(b *breaker) bool {
		if b.n < 2 {
			return false
		}
		if !b.stored() {
			return false
		}
		b.one()
		return b.each(func(inv *fInv) {
			s := "changed"
			if b.o.st.CDir != "content" && b.g.P(40) {
				s = "content"
			}
			inv.cdir = &s
			if s == "content" && b.g.P(50) {
				inv.cdir = nil
			}
		})
	}},
	{"extra file in object folder", "E001", 3, func(b *breaker) bool {
		return b.file(b.g.Pick("x.txt", "inventory.json.bak", ".DS_Store", "v1.txt", "extensions.txt", "0=ocfl_1.0", "README", "v", "manifest-sha512.txt"))
	}},
	{"extra folder in object folder", "E001", 3, func(b *breaker) bool {
		return b.file(b.g.Pick("foo", "content", "V1", "v", "x1", "v1a", "log", "extension", "1") + "/" + b.g.Pick("a", "content/a"))
	}},
	{"folder of no version", "E046", 3, func(b *breaker) bool {
		nm := b.o.st.vname(b.n + 1 + b.g.N(2))
		if b.o.st.full(b.n + 1) {
			return false
		}
		return b.file(nm + "/" + b.g.Pick("inventory.json", "a", b.o.st.CDir+"/a"))
	}},
	{"second declaration", "E003", 2, func(b *breaker) bool {
		v := map[string]string{"1.0": "1.1", "1.1": "1.0"}[b.o.ver]
		b.o.other["0=ocfl_object_"+v] = []byte("ocfl_object_" + v + "\n")
		return true
	}},
	{"no declaration", "E003", 2, func(b *breaker) bool {
		delete(b.o.other, "0=ocfl_object_"+b.o.ver)
		if b.g.P(50) {
			v := b.g.Pick("9.9", "1", "", "1.0.0", "x")
			b.o.other["0=ocfl_object_"+v] = []byte("ocfl_object_" + v + "\n")
		}
		return true
	}},
	{"wrong declaration", "E007", 2, func(b *breaker) bool {
		v := "ocfl_object_" + b.o.ver
		b.o.other["0="+v] = []byte(b.g.Pick("", v, v+"\n\n", "ocfl_object_1.2\n", " "+v+"\n", "0="+v+"\n", strings.ToUpper(v)+"\n"))
		return true
	}},
	{"extra file in version folder", "E015", 3, func(b *breaker) bool {
		return b.file(b.o.names[b.k] + "/" + b.g.Pick("x.txt", "inventory.json.bak", "readme", b.o.st.CDir+".txt", ".hidden", "inventory.md5"))
	}},
	{"content outside the content directory", "E015", 3, func(b *breaker) bool {
		return b.move(func(p, ver, rest string) string {
			return b.g.Pick(ver+"/other/"+rest, ver+"/"+path.Base(rest)+".x", "elsewhere/"+rest, ver+"/"+b.o.st.CDir+"2/"+rest)
		})
	}},
	{"content not in the manifest", "E023", 4, func(b *breaker) bool {
		return b.file(b.o.names[b.g.N(b.n)] + "/" + b.o.st.CDir + "/" + b.g.Pick("extra", "d/extra", "a b", ".x"))
	}},
	{"manifest incomplete", "E023", 4, func(b *breaker) bool {
		// one of several copies is not recorded
		for _, d := range keysOf(b.last().manifest) {
			if ps := b.last().manifest[d]; len(ps) > 1 {
				p := ps[b.g.N(len(ps))]
				ok := false
				b.each(func(inv *fInv) {
					ok = dropPath(inv.manifest, p) || ok
					for _, f := range inv.fixity {
						dropPath(f, p)
					}
				})
				return ok
			}
		}
		return false
	}},
	{"empty folder in content", "E024", 1, func(b *breaker) bool {
		b.dirs = append(b.dirs, b.o.names[b.g.N(b.n)]+"/"+b.o.st.CDir+"/"+b.g.Pick("empty", "e/f"))
		return true
	}},
	{"inventory is no JSON", "E033", 3, func(b *breaker) bool {
		return b.bytes(func(x []byte) []byte {
			switch b.g.N(6) {
			case 0:
				return x[:len(x)/2]
			case 1:
				return nil
			case 2:
				return []byte("[]")
			case 3:
				return append([]byte{0xef, 0xbb, 0xbf, 0xef}, x...)
			case 4:
				return append(append([]byte{}, x...), "}"...)
			}
			return []byte(strings.Replace(string(x), ":", "=", 1))
		})
	}},
	{"created missing", "E048", 2, func(b *breaker) bool { return b.swapVer("created", nil) }},
	{"created of wrong format", "E049", 8, func(b *breaker) bool {
		return b.swapVer("created", b.raw(`""`, `"2020-01-01"`, `"2020-01-01T10:00:00"`, `"2020-01-01T10:00Z"`, `"2020-13-01T10:00:00Z"`, `"2020-02-30T10:00:00Z"`,
			`"2020-01-01T25:00:00Z"`, `"2020-01-01T10:00:00+0100"`, `12345`, `{}`, `"yesterday"`, `"01.01.2020 10:00:00"`, `"2020-1-1T10:00:00Z"`, `" 2020-01-01T10:00:00Z"`,
			`"2020-01-01T10:00:00Z "`, `"2020-01-01T10:00:00 Z"`, `"20-01-01T10:00:00Z"`, `"2020-01-01T1:00:00Z"`, `"2020-01-01T10:00:00,5Z"`, `"2020-01-01T10:00:00+24:00"`, `"2020-01-01T10:00:00+01:60"`))
	}},
	{"state missing", "E048", 2, func(b *breaker) bool { return b.swapVer("state", nil) }},
	{"state of wrong structure", "E050", 3, func(b *breaker) bool {
		d, _ := b.pathOf(b.last().manifest)
		return b.swapVer("state", b.raw(`[]`, `"x"`, `5`, `{"`+d+`": "x"}`, `{"`+d+`": [1]}`, `{"`+d+`": {}}`))
	}},
	{"digest of state unknown", "E050", 3, func(b *breaker) bool {
		d := digestOf(b.last().alg, []byte("unknown"))
		return b.vers(func(v *fVer) { v.state[d] = []string{"unknown.txt"} })
	}},
	{"logical path", "E052", 5, func(b *breaker) bool {
		p := badPath(b.g, "q/r.txt")
		ok := false
		d, _ := b.pathOf(b.last().versions[b.j].state)
		b.vers(func(v *fVer) {
			if _, there := v.state[d]; there {
				v.state[d] = append(v.state[d], p)
				ok = true
			}
		})
		b.hit += fmt.Sprintf(" %q", p)
		return ok
	}},
	{"logical paths conflict", "E095", 5, func(b *breaker) bool {
		st := b.last().versions[b.j].state
		d, i := b.pathOf(st)
		if d == "" {
			return false
		}
		p := st[d][i]
		e := keysOf(st)[b.g.N(len(st))]
		if b.g.P(60) {
			if b.g.P(50) && strings.Contains(p, "/") {
				p = p[:strings.Index(p, "/")]
			} else {
				p += b.g.Pick("/x", "/y/z")
			}
		}
		b.hit += fmt.Sprintf(" %q", p)
		ok := false
		b.vers(func(v *fVer) {
			if _, there := v.state[e]; there {
				if _, there := v.state[d]; there {
					v.state[e] = append(v.state[e], p)
					ok = true
				}
			}
		})
		return ok
	}},
	{"user", "E054", 4, func(b *breaker) bool {
		return b.swapVer("user", b.raw(`"Alice"`, `[]`, `5`, `{}`, `{"address":"mailto:a@b"}`, `{"name":5}`, `{"name":"a","address":7}`, `{"name":["a"]}`, `{"name":{"x":1}}`, `{"name":null}`))
	}},
	{"message", "E094", 3, func(b *breaker) bool { return b.swapVer("message", b.raw(`5`, `{}`, `["a"]`, `true`)) }},
	{"no digest file", "E058", 3, func(b *breaker) bool {
		return b.sides(func(f map[string][]byte, p string, x []byte) { delete(f, p) })
	}},
	{"digest file of wrong name", "E059", 2, func(b *breaker) bool {
		return b.sides(func(f map[string][]byte, p string, x []byte) {
			delete(f, p)
			i := strings.LastIndex(p, ".")
			f[p[:i]+map[string]string{".sha512": ".sha256", ".sha256": ".sha512"}[p[i:]]] = x
		})
	}},
	{"wrong inventory digest", "E060", 4, func(b *breaker) bool {
		return b.sides(func(f map[string][]byte, p string, x []byte) {
			y := append([]byte{}, x...)
			i := b.g.N(60)
			if y[i] == '0' {
				y[i] = '1'
			} else {
				y[i] = '0'
			}
			if b.g.P(30) {
				y = append(y[:10], y[12:]...)
			}
			f[p] = y
		})
	}},
	{"digest file of wrong format", "E061", 4, func(b *breaker) bool {
		return b.sides(func(f map[string][]byte, p string, x []byte) {
			d := strings.Fields(string(x))[0]
			f[p] = []byte(b.g.Pick(d, d+"\n", d+" inventory.jsn\n", d+" v1/inventory.json\n", d+"inventory.json\n", "inventory.json "+d+"\n", "", d+" inventory.json\n"+d+" x\n", "SHA512 ("+d+")\n", d+" *inventory.json\n", "x"+d+" inventory.json\n", d+" inventory.json x\n", d[:20]+" "+d[20:]+" inventory.json\n"))
		})
	}},
	{"no inventory", "E063", 3, func(b *breaker) bool {
		side := b.g.P(50)
		b.post = func(f map[string][]byte) {
			delete(f, "inventory.json")
			if side {
				delete(f, "inventory.json."+b.last().alg)
			}
		}
		return true
	}},
	{"inventories of object and newest version differ", "E064", 4, func(b *breaker) bool {
		if b.o.noInv[b.n-1] {
			return false
		}
		b.o.root = cloneInv(b.last())
		v := &b.o.root.versions[b.j]
		st := map[string][]string{}
		var ds []string
		for _, x := range sortedKV(v.state) {
			st[x.k] = append([]string{}, v.state[x.k]...)
			if len(st[x.k]) > 0 {
				ds = append(ds, x.k)
			}
		}
		v.state = st
		switch b.g.N(8) {
		case 6, 7: // the same in other words
			b.o.pad = b.g.Pick("\n", "  ", "\r\n\t")
			b.hit += " bytes"
		case 0:
			v.msg = "another message"
		case 1:
			v.user = []kv{{"name", "Mallory"}}
		case 2:
			v.created = "2001-02-03T04:05:06Z"
		case 4: // another name
			if len(ds) == 0 {
				return false
			}
			st[ds[0]][0] += "-other"
		case 5: // the same names with other content
			if len(ds) < 2 {
				return false
			}
			st[ds[0]], st[ds[1]] = st[ds[1]], st[ds[0]]
		case 3:
			if b.o.root.fixity == nil {
				b.o.root.fixity = map[string]map[string][]string{}
			}
			b.o.root.fixity["md5"] = map[string][]string{}
			for p, x := range b.o.content {
				b.o.root.fixity["md5"][digestOf("md5", x)] = []string{p}
				break
			}
			if len(b.o.root.fixity["md5"]) == 0 || len(b.last().fixity["md5"]) > 0 {
				return false
			}
		}
		return true
	}},
	{"inventory of the object is an older one", "E046", 3, func(b *breaker) bool {
		if b.n < 2 {
			return false
		}
		b.o.root = b.o.invs[b.g.N(b.n-1)]
		return true
	}},
	{"older inventory has another state", "E066", 6, func(b *breaker) bool {
		if !b.older() {
			return false
		}
		b.j = b.g.N(len(b.inv[0].versions))
		st := b.inv[0].versions[b.j].state
		d, i := b.pathOf(st)
		if d == "" {
			return false
		}
		switch b.g.N(3) {
		case 0: // renamed
			st[d][i] += ".x"
		case 1: // missing
			st[d] = append(append([]string{}, st[d][:i]...), st[d][i+1:]...)
			if len(st[d]) == 0 {
				delete(st, d)
			}
		case 2: // exchanged
			ks := keysOf(st)
			e := ks[b.g.N(len(ks))]
			if e == d || len(st[e]) == 0 {
				return false
			}
			st[d][i], st[e][0] = st[e][0], st[d][i]
			b.hit += " exchanged"
		}
		return true
	}},
	{"file in the extensions folder", "E067", 2, func(b *breaker) bool { return b.file("extensions/" + b.g.Pick("x", "README.md", "config.json")) }},
	{"content is missing", "E092", 2, func(b *breaker) bool {
		p := b.content()
		delete(b.o.content, p)
		return p != ""
	}},
	{"content is changed", "E092", 2, func(b *breaker) bool {
		p := b.content()
		b.o.content[p] = append([]byte("!"), b.o.content[p]...)
		return p != ""
	}},
	{"manifest has a file which does not exist", "E092", 3, func(b *breaker) bool {
		p := b.o.names[b.g.N(b.n)] + "/" + b.o.st.CDir + "/nowhere"
		d, _ := b.pathOf(b.inv[0].manifest)
		b.each(func(inv *fInv) {
			if ps, ok := inv.manifest[d]; ok {
				inv.manifest[d] = append(ps, p)
			}
		})
		return d != ""
	}},
	{"manifest exchanges content", "E092", 3, func(b *breaker) bool {
		return b.each(func(inv *fInv) {}) && exchange(b, b.inv[0].manifest)
	}},
	{"digest unused", "E107", 3, func(b *breaker) bool {
		i := b.n - 1
		p := b.o.names[i] + "/" + b.o.st.CDir + "/unused"
		b.o.content[p] = []byte("not used by any version")
		b.last().manifest[hexCase(digestOf(b.last().alg, b.o.content[p]), b.o.st.Upper)] = []string{p}
		return true
	}},
	{"content path", "E099", 5, func(b *breaker) bool {
		// additional spelling or instead of the right one
		d, i := b.pathOf(b.inv[0].manifest)
		if d == "" {
			return false
		}
		p := b.inv[0].manifest[d][i]
		q := badPath(b.g, p)
		more := b.g.P(50)
		b.hit += fmt.Sprintf(" %q", q)
		return b.each(func(inv *fInv) {
			for x := range inv.manifest[d] {
				if inv.manifest[d][x] == p && !more {
					inv.manifest[d][x] = q
					return
				}
			}
			if _, ok := inv.manifest[d]; ok {
				inv.manifest[d] = append(inv.manifest[d], q)
			}
		})
	}},
	{"content path twice", "E101", 4, func(b *breaker) bool {
		d, i := b.pathOf(b.inv[0].manifest)
		if d == "" {
			return false
		}
		p := b.inv[0].manifest[d][i]
		ks := keysOf(b.inv[0].manifest)
		e := ks[b.g.N(len(ks))]
		b.each(func(inv *fInv) {
			if _, ok := inv.manifest[e]; ok {
				inv.manifest[e] = append(inv.manifest[e], p)
			}
		})
		return true
	}},
	{"digest twice", "E096", 4, func(b *breaker) bool {
		d, i := b.pathOf(b.inv[0].manifest)
		if d == "" || flipCase(d) == d {
			return false
		}
		p := b.inv[0].manifest[d][i]
		return b.each(func(inv *fInv) {
			if _, ok := inv.manifest[d]; ok {
				inv.manifest[flipCase(d)] = []string{p}
			}
		})
	}},
	{"fixity is wrong", "E093", 10, func(b *breaker) bool {
		a := b.fix()
		if a == "" {
			return false
		}
		p := b.content()
		if p == "" {
			return false
		}
		d := digestOf(a, []byte("other"))
		if q := b.content(); string(b.o.content[p]) != string(b.o.content[q]) {
			// the digest of another file
			d = digestOf(a, b.o.content[q])
		}
		first := b.g.P(50)
		return b.each(func(inv *fInv) {
			if inv.has(p) {
				dropPath(inv.fixity[a], p)
				k := d
				for x := range inv.fixity[a] {
					if strings.EqualFold(x, d) {
						k = x
					}
				}
				if l := inv.fixity[a][k]; first {
					inv.fixity[a][k] = append([]string{p}, l...)
				} else {
					inv.fixity[a][k] = append(l[:len(l):len(l)], p)
				}
			}
		}) && b.inv[0].has(p)
	}},
	{"fixity of a file which does not exist", "E093", 3, func(b *breaker) bool {
		a := b.fix()
		p := b.o.names[b.g.N(b.n)] + "/" + b.o.st.CDir + "/nowhere"
		return a != "" && b.each(func(inv *fInv) { inv.fixity[a][digestOf(a, []byte("other"))] = []string{p} })
	}},
	{"fixity of wrong structure", "E057", 3, func(b *breaker) bool {
		return b.swap("fixity", b.raw(`[]`, `"x"`, `5`, `{"md5":[]}`, `{"md5":"x"}`, `{"md5":{"d41d8cd98f00b204e9800998ecf8427e":"v1/content/a"}}`, `{"md5":{"d41d8cd98f00b204e9800998ecf8427e":[1]}}`))
	}},
	{"fixity algorithm", "E056", 2, func(b *breaker) bool {
		a := b.g.Pick("foo", "MD5", "md6", "", "sha-1")
		p := b.content()
		return p != "" && b.each(func(inv *fInv) {
			if inv.fixity == nil {
				inv.fixity = map[string]map[string][]string{}
			}
			inv.fixity[a] = map[string][]string{"00": {p}}
		}) && b.inv[0].has(p)
	}},
	{"fixity digest twice", "E097", 3, func(b *breaker) bool {
		a := b.fix()
		if a == "" {
			return false
		}
		d, i := b.pathOf(b.inv[0].fixity[a])
		if d == "" || flipCase(d) == d {
			return false
		}
		p := b.inv[0].fixity[a][d][i]
		return b.each(func(inv *fInv) {
			if _, ok := inv.fixity[a][d]; ok {
				inv.fixity[a][flipCase(d)] = []string{p}
			}
		})
	}},
	{"fixity path", "E099", 3, func(b *breaker) bool {
		a := b.fix()
		if a == "" {
			return false
		}
		d, i := b.pathOf(b.inv[0].fixity[a])
		if d == "" {
			return false
		}
		p := badPath(b.g, b.inv[0].fixity[a][d][i])
		b.hit += fmt.Sprintf(" %q", p)
		return b.each(func(inv *fInv) {
			if _, ok := inv.fixity[a][d]; ok {
				inv.fixity[a][d] = append(inv.fixity[a][d], p)
			}
		})
	}},
	{"unknown key", "E102", 3, func(b *breaker) bool {
		e := kv{b.g.Pick("foo", "Id", "comment", "updated"), b.raw(`1`, `"x"`, `{}`, `null`)}
		switch b.g.N(3) {
		case 0:
			return b.each(func(inv *fInv) { inv.extra = append(inv.extra, e) })
		case 1:
			return b.vers(func(v *fVer) { v.extra = append(v.extra, e) })
		}
		return b.vers(func(v *fVer) { v.user = []kv{{"name", "A"}, {"address", "mailto:a@b.c"}, e} })
	}},
	{"earlier version of the standard", "E103", 4, func(b *breaker) bool {
		if b.n < 2 || b.o.ver != "1.0" {
			return false
		}
		// an old version is of a later standard
		if !b.older() {
			return false
		}
		return b.each(func(inv *fInv) { inv.typ = "https://ocfl.io/1.1/spec/#inventory" })
	}},
	{"version folder missing", "E046", 3, func(b *breaker) bool {
		b.post = func(f map[string][]byte) {
			for p := range f {
				if strings.HasPrefix(p, b.o.names[b.j]+"/") {
					delete(f, p)
				}
			}
		}
		return true
	}},
}

func dropPath(m map[string][]string, p string) bool {
	for d, ps := range m {
		for i := range ps {
			if ps[i] == p {
				m[d] = append(append([]string{}, ps[:i]...), ps[i+1:]...)
				if len(m[d]) == 0 {
					delete(m, d)
				}
				return true
			}
		}
	}
	return false
}

func exchange(b *breaker, m map[string][]string) bool {
	ks := keysOf(m)
	if len(ks) < 2 {
		return false
	}
	i := b.g.N(len(ks))
	d, e := ks[i], ks[(i+1)%len(ks)]
	p, q := m[d][0], m[e][0]
	b.each(func(inv *fInv) {
		if len(inv.manifest[d]) > 0 && len(inv.manifest[e]) > 0 && inv.manifest[d][0] == p && inv.manifest[e][0] == q {
			inv.manifest[d][0], inv.manifest[e][0] = q, p
		}
	})
	return true
}

func (i *fInv) has(p string) bool {
	for _, ps := range i.manifest {
		for _, q := range ps {
			if p == q {
				return true
			}
		}
	}
	return false
}

func cloneInv(i *fInv) *fInv {
	c := *i
	c.versions = append([]fVer{}, i.versions...)
	c.extra = append([]kv{}, i.extra...)
	c.fixity = nil
	for a, f := range i.fixity {
		if c.fixity == nil {
			c.fixity = map[string]map[string][]string{}
		}
		c.fixity[a] = f
	}
	return &c
}

func (b *breaker) pickNil(l ...string) any {
	if b.g.P(40) {
		return nil
	}
	return b.raw(l...)
}

// one changes a single inventory which is not that of the object.
func (b *breaker) one() {
	b.inv = []*fInv{b.o.invs[b.k]}
}

func (b *breaker) all() { b.inv = b.o.invs }

func (b *breaker) from(k int) { b.inv = b.o.invs[k:] }

// older chooses an inventory of an older version.
func (b *breaker) older() bool {
	var l []int
	for k := 0; k < b.n-1; k++ {
		if !b.o.noInv[k] {
			l = append(l, k)
		}
	}
	if len(l) == 0 {
		return false
	}
	b.k = l[b.g.N(len(l))]
	b.one()
	return true
}

// stored tells whether an inventory is left which is not changed with that of version k.
func (b *breaker) stored() bool {
	for k := 0; k < b.n; k++ {
		if k != b.k && (!b.o.noInv[k] || k == b.n-1) {
			return true
		}
	}
	return false
}

func (b *breaker) content() string {
	ks := sortedKeys(b.o.content)
	if len(ks) == 0 {
		return ""
	}
	return ks[b.g.N(len(ks))]
}

// fix returns a fixity algorithm which can be calculated.
func (b *breaker) fix() string {
	a := b.g.Pick("md5", "sha1", "sha256", "blake2b-512", "blake2b-160", "blake2b-256", "blake2b-384")
	var l []string
	for x := range b.inv[0].fixity {
		if x != "sha512/256" {
			l = append(l, x)
		}
	}
	sort.Strings(l)
	if len(l) > 0 && b.g.P(70) {
		a = l[b.g.N(len(l))]
	}
	for _, inv := range b.inv {
		if inv.alg == a {
			return ""
		}
	}
	b.each(func(inv *fInv) {
		if inv.fixity == nil {
			inv.fixity = map[string]map[string][]string{}
		}
		if inv.fixity[a] != nil {
			return
		}
		inv.fixity[a] = map[string][]string{}
		for _, p := range sortedKeys(b.o.content) {
			if inv.has(p) {
				d := digestOf(a, b.o.content[p])
				inv.fixity[a][d] = append(inv.fixity[a][d], p)
			}
		}
	})
	return a
}

func (b *breaker) file(p string) bool {
	b.hit += fmt.Sprintf(" %q", p)
	if _, ok := b.o.content[p]; ok {
		return false
	}
	// not a folder or below a file
	for q := range b.o.content {
		if strings.HasPrefix(q, p+"/") || strings.HasPrefix(p, q+"/") {
			return false
		}
	}
	b.o.other[p] = []byte("extra")
	return true
}

// move stores a content file elsewhere, with all references.
func (b *breaker) move(to func(p, ver, rest string) string) bool {
	p := b.content()
	if p == "" {
		return false
	}
	ver := p[:strings.Index(p, "/")]
	q := to(p, ver, strings.TrimPrefix(p, ver+"/"+b.o.st.CDir+"/"))
	b.hit += fmt.Sprintf(" %q", q)
	b.o.content[q] = b.o.content[p]
	delete(b.o.content, p)
	for _, inv := range b.o.invs {
		for _, m := range append([]map[string][]string{inv.manifest}, fixMaps(inv)...) {
			for _, ps := range m {
				for i := range ps {
					if ps[i] == p {
						ps[i] = q
					}
				}
			}
		}
	}
	return true
}

func fixMaps(i *fInv) []map[string][]string {
	var r []map[string][]string
	for _, m := range i.fixity {
		r = append(r, m)
	}
	return r
}

// stored are the folders of inventories which are changed: that of version k, and of
// the object if that is the newest one.
func (b *breaker) folders() []string {
	f := []string{b.o.names[b.k] + "/"}
	if b.k == b.n-1 && b.o.noInv[b.k] {
		return []string{""}
	}
	if b.k == b.n-1 {
		f = append(f, "")
		if b.g.P(50) {
			f = f[b.g.N(2):][:1]
		}
	}
	return f
}

// sides changes the digest files of inventories.
func (b *breaker) sides(fn func(f map[string][]byte, p string, x []byte)) bool {
	dirs := b.folders()
	b.hit += fmt.Sprintf(" in %q", dirs)
	b.post = func(f map[string][]byte) {
		for _, d := range dirs {
			p := d + "inventory.json." + b.o.invs[b.k].alg
			if x, ok := f[p]; ok {
				fn(f, p, x)
			}
		}
	}
	return true
}

// bytes changes inventories as files; the digests fit.
func (b *breaker) bytes(fn func(x []byte) []byte) bool {
	dirs := b.folders()
	b.hit += fmt.Sprintf(" in %q", dirs)
	b.post = func(f map[string][]byte) {
		var y []byte
		for _, d := range dirs {
			p := d + "inventory.json"
			if x, ok := f[p]; ok {
				if y == nil {
					y = fn(x)
				}
				f[p] = y
				alg := b.o.invs[b.k].alg
				f[p+"."+alg] = []byte(fmt.Sprintf(b.o.side, digestOf(alg, y)))
			}
		}
	}
	return true
}

// breakRule writes an object anew which breaks a rule of the standard.
func breakRule(g *Rng, o *fObj, name string) (*breaker, *rule) {
	var l []*rule
	for i := range rules {
		for k := 0; k < rules[i].p; k++ {
			l = append(l, &rules[i])
		}
	}
	for try := 0; try < 40; try++ {
		r := l[g.N(len(l))]
		if name != "" {
			for i := range rules {
				if rules[i].name == name {
					r = &rules[i]
				}
			}
		}
		b := &breaker{g: g, o: o, n: len(o.invs)}
		b.k = g.N(b.n)
		if b.n > 1 && g.P(40) {
			b.k = b.n - 1
		}
		if o.noInv[b.k] {
			b.k = b.n - 1
		}
		b.j = g.N(b.n)
		// in a single inventory or in all which have the version
		if g.P(30) {
			b.inv = []*fInv{o.invs[b.k]}
			b.j = g.N(b.k + 1)
			b.hit = fmt.Sprintf(" in the inventory of %s", o.names[b.k])
		} else {
			b.inv = nil
			for x, inv := range o.invs[b.j:] {
				if k := b.j + x; k == b.n-1 || !o.noInv[k] { // the others are not written
					b.inv = append(b.inv, inv)
				}
			}
		}
		b.hit += fmt.Sprintf(" (version %d)", b.j+1)
		// what is tried must not leave traces
		save := *o
		o.invs = nil
		for _, inv := range save.invs {
			o.invs = append(o.invs, deepInv(inv))
		}
		for x, inv := range b.inv {
			for i := range save.invs {
				if save.invs[i] == inv {
					b.inv = append(append(append([]*fInv{}, b.inv[:x]...), o.invs[i]), b.inv[x+1:]...)
				}
			}
		}
		o.content, o.other, o.names = map[string][]byte{}, map[string][]byte{}, append([]string{}, save.names...)
		for p, x := range save.content {
			o.content[p] = x
		}
		for p, x := range save.other {
			o.other[p] = x
		}
		if r.fn(b) {
			return b, r
		}
		*o = save
	}
	return nil, nil
}

func deepMap(m map[string][]string) map[string][]string {
	c := map[string][]string{}
	for k, v := range m {
		c[k] = append([]string{}, v...)
	}
	return c
}

func deepInv(i *fInv) *fInv {
	c := cloneInv(i)
	c.manifest = deepMap(i.manifest)
	for a, f := range i.fixity {
		c.fixity[a] = deepMap(f)
	}
	for x := range c.versions {
		c.versions[x].state = deepMap(c.versions[x].state)
	}
	return c
}

// warnings are the recommendations the object does not follow: those which must be told
// and those which may be.
func (o *fObj) warnings(id string) (must, may map[string]bool) {
	must, may = map[string]bool{}, map[string]bool{"W005": true, "W008": true}
	if o.st.Pad > 0 {
		must["W001"] = true
	}
	if len(o.noInv) > 0 {
		must["W010"] = true
		may["W000"] = true
	}
	if !strings.Contains(id, ":") {
		must["W005"] = true
	}
	last := o.invs[len(o.invs)-1]
	for k, inv := range o.invs {
		if o.noInv[k] && k < len(o.invs)-1 {
			continue
		}
		if inv.alg == "sha256" {
			must["W004"] = true
		}
		if inv.alg != last.alg {
			may["W000"] = true
		}
		if len(inv.fixity["sha512/256"]) > 0 || inv.fixity["sha512/256"] != nil {
			may["W000"] = true
		}
		for i, v := range inv.versions {
			if v.msg == nil || v.user == nil {
				must["W007"] = true
			}
			if u, ok := v.user.([]kv); ok {
				a := ""
				for _, e := range u {
					if e.k == "address" {
						a, _ = e.v.(string)
					}
				}
				if a == "" {
					must["W008"] = true
				} else if !strings.Contains(a, ":") {
					must["W009"] = true
				}
			}
			if fmt.Sprint(v.msg) != fmt.Sprint(last.versions[i].msg) {
				must["W011"] = true
			}
		}
	}
	for p := range o.other {
		if strings.HasPrefix(p, "extensions/") {
			may["W013"], may["W000"] = true, true
		}
		if strings.HasPrefix(p, "v") {
			must["W002"] = true
		}
	}
	return must, may
}

func init() {
	Experiments["C23"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			for {
				*c = Case{Prop: c.Prop, Seed: c.Seed, Sched: c.Sched}
				GenHist(g, c, Opt{MaxObj: 4, MaxUpd: 6, Acts: g.P(30), Names: g.N(2), Ext: g.P(20), Long: 1})
				if !c.Cfg.Zip && !c.Cfg.hasExt("NNNN-indexer") && !c.Cfg.hasExt("NNNN-filesystem") {
					break
				}
			}
			k := 0
			for i := range c.IDs {
				switch {
				case g.P(60):
					c.Ops = append(c.Ops, Op{K: "break", Obj: i, Fo: g.U64() | 1, Want: g.Pick("", "", "-all")})
					k++
				case g.P(40):
					c.Ops = append(c.Ops, Op{K: "soft", Obj: i, Fo: g.U64() | 1})
				}
			}
			if g.P(50) {
				c.Ops = append(c.Ops, Op{K: "root", Fo: g.U64() | 1})
			}
			if k == 0 && g.P(70) {
				c.Ops = append(c.Ops, Op{K: "break", Obj: g.N(len(c.IDs)), Fo: g.U64() | 1})
			}
		},
		Run: runC23,
	}
}

func runC23(r *Run) {
	h := r.NewHist()
	h.MustCreate()
	h.runOps(nil)
	h.Reopen()
	for i := range r.C.Ops {
		r.NonTriv = r.NonTriv || r.C.Ops[i].K == "root"
	}
	type fate struct {
		id, dir, rule, hit, style string
		must, may                 map[string]bool
	}
	var fates []*fate
	broken := map[string]*fate{}
	for i := range r.C.Ops {
		op := &r.C.Ops[i]
		if op.K != "break" && op.K != "soft" || op.Obj >= len(r.C.IDs) {
			continue
		}
		id := r.C.IDs[op.Obj]
		if m := h.Model[id]; m == nil || len(m.Vers) == 0 || broken[id] != nil {
			continue
		}
		if op.K == "soft" {
			o := h.Foreign(id, op.Fo, op.Want)
			f := &fate{id: id, dir: h.dirOf(id), style: h.style(id)}
			f.must, f.may = o.warnings(id)
			for _, x := range fates {
				if x.id == id {
					x.id = ""
				}
			}
			fates = append(fates, f)
			continue
		}
		o, dir := h.restyle(id, op.Fo, op.Want)
		b, ru := breakRule(NewRng(op.Fo^0x9e3779b97f4a7c15), o, op.V)
		if b == nil {
			continue
		}
		f := &fate{id: id, dir: dir, rule: ru.code + " " + ru.name, hit: b.hit, style: o.st.Frozen}
		files := o.files()
		if b.post != nil {
			b.post(files)
		}
		h.place(dir, files)
		for _, d := range b.dirs {
			r.W.MustMkdirAll(path.Join(h.dir, dir, d))
		}
		r.W.Settle()
		broken[id] = f
		fates = append(fates, f)
		r.T("object %q breaks %s%s [%s]", id, f.rule, f.hit, f.style)
		r.Probe("rule " + ru.name)
	}
	r.NonTriv = r.NonTriv || len(fates) > 0
	var l []string
	for _, f := range broken {
		l = append(l, fmt.Sprintf("%s%s [%s]", f.rule, f.hit, f.style))
	}
	sort.Strings(l)
	desc := strings.Join(l, " AND ")
	// the whole storage root
	var f *Findings
	out := r.Do("validate", nil, func() error {
		var err error
		f, err = r.Validate(h.dir)
		return err
	})
	r.MustEnd("validation of "+desc, out)
	if f == nil {
		f = &Findings{}
	}
	names := func(s, id, dir string) bool {
		if strings.HasPrefix(s, "[object '") {
			if i := strings.Index(s, "] Validation "); i > 0 {
				return strings.HasSuffix(s[:i], "- '"+id+"'") || strings.Contains(s[:i], "("+path.Join(h.dir, dir)+")")
			}
		}
		return strings.Contains(s, "'"+id+"'") || strings.Contains(s, "'"+dir+"'") || strings.Contains(s, "("+path.Join(h.dir, dir)+")")
	}
	told := func(x *fate) bool {
		for _, s := range f.Full {
			if strings.Contains(s, "Validation Error #E") && names(s, x.id, x.dir) {
				return true
			}
		}
		return out.Err != nil && names(out.Err.Error(), x.id, x.dir)
	}
	for _, x := range fates {
		if x.id == "" {
			continue
		}
		if x.rule != "" {
			if !told(x) {
				r.Fail("missed", "validation does not report object %q, which breaks rule %s%s [%s]; it says %s", x.id, x.rule, x.hit, x.style, brief(f, out))
			}
			continue
		}
	}
	for _, id := range r.C.IDs {
		if m := h.Model[id]; m == nil || len(m.Vers) == 0 || broken[id] != nil {
			continue
		}
		dir := h.dirOf(id)
		for _, s := range f.Full {
			if strings.Contains(s, "Validation Error #E") && names(s, id, dir) && !namesOther(broken, s, names, id) {
				r.Fail("blamed", "validation reports the sound object %q%s: %s", id, h.style(id), s)
			}
		}
	}
	// warnings
	for _, x := range fates {
		if x.rule != "" || x.id == "" || broken[x.id] != nil {
			continue
		}
		got := map[string]bool{}
		s, err := r.LoadRO(h.dir)
		if err != nil {
			r.Fail("failed", "the storage root cannot be opened: %s", errStr(err))
		}
		r.Ok("check of "+x.id, "failed", func() error { return s.Root.CheckObjectByID(x.id) })
		fs, err := findings(s.Ctx)
		if err != nil {
			r.Fail("failed", "no findings: %s", errStr(err))
		}
		for _, e := range fs.Errors {
			r.Fail("blamed", "check of object %q%s reports %s: %s", x.id, x.style, e, fs.Full)
		}
		for _, s := range fs.Full {
			i := strings.Index(s, " #W")
			if i < 0 || !names(s, x.id, x.dir) {
				continue
			}
			w := s[i+2 : i+6]
			got[w] = true
			if !x.must[w] && !x.may[w] {
				r.Fail("warning", "check of object %q%s warns without reason: %s %s", x.id, x.style, w, strings.Join(fs.Full, " | "))
			}
		}
		for w := range x.must {
			if !got[w] {
				r.Fail("warning", "check of object %q%s does not warn of %s: %v", x.id, x.style, w, fs.Warnings)
			}
			r.Probe("warning " + w)
		}
		_ = s.Close()
	}
	// single objects
	for _, id := range r.C.IDs {
		x := broken[id]
		if x == nil {
			continue
		}
		for _, by := range []string{"id", "folder"} {
			s, err := r.LoadRO(h.dir)
			if err != nil {
				r.Fail("failed", "the storage root cannot be opened: %s", errStr(err))
			}
			o := r.Do("check by "+by, nil, func() error {
				if by == "id" {
					return s.Root.CheckObjectByID(id)
				}
				return s.Root.CheckObjectByFolder(x.dir)
			})
			r.MustEnd("check of "+desc, o)
			fs, err := findings(s.Ctx)
			if err != nil {
				r.Fail("failed", "no findings: %s", errStr(err))
			}
			if o.Err == nil && len(fs.Errors) == 0 {
				r.Fail("missed", "check by %s does not report object %q, which breaks rule %s%s [%s]; it says %s", by, id, x.rule, x.hit, x.style, brief(fs, o))
			}
			_ = s.Close()
		}
	}
	r.Note = desc
	for i := range r.C.Ops {
		if op := &r.C.Ops[i]; op.K == "root" {
			h.breakRoot(op, f, out.Err != nil, func(id string) bool { return broken[id] != nil })
			break
		}
	}
}

// breakRoot breaks a rule for storage roots, or does something which is allowed there.
func (h *Hist) breakRoot(op *Op, was *Findings, failed bool, broken func(id string) bool) {
	r, w := h.r, h.r.W
	g := NewRng(op.Fo ^ 0x517cc1b727220a95)
	var decl []string
	for _, p := range w.List(h.dir) {
		if strings.HasPrefix(path.Base(p), "0=ocfl_") {
			decl = append(decl, path.Base(p))
		}
	}
	root := h.Read()
	var nested []string
	for d, o := range root.ByDir {
		if broken(o.ID) || h.Model[o.ID] == nil {
			continue
		}
		for p := path.Dir(d); p != "."; p = path.Dir(p) {
			nested = append(nested, p)
		}
	}
	sort.Strings(nested)
	newer := map[string]bool{}
	for id, o := range root.Objs {
		if o.Ver == "1.1" && !broken(id) && h.Model[id] != nil {
			newer[id] = true
		}
	}
	other := map[string]string{"0=ocfl_1.1": "1.0", "0=ocfl_1.0": "1.1"}
	if len(decl) != 1 || other[decl[0]] == "" {
		return
	}
	at := func(p string) string { return path.Join(h.dir, p) }
	what, bad, exempt, all := "", true, map[string]bool{}, false
	for what == "" {
		switch g.N(9) {
		case 0:
			w.Delete(at(decl[0]))
			what, all = "has no declaration", true
		case 1:
			v := other[decl[0]]
			w.Put(at("0=ocfl_"+v), []byte("ocfl_"+v+"\n"))
			what, all = "has two declarations", true
		case 2:
			x := g.Pick("", "ocfl_1.1", "ocfl_1.0", "ocfl_object_1.1\n", "ocfl_"+other[decl[0]]+"\n", "ocfl_1.2\n", "OCFL_1.1\n")
			w.Put(at(decl[0]), []byte(x))
			what, all = fmt.Sprintf("has the declaration %q in %s", x, decl[0]), true
		case 3:
			x := g.Pick(`{}`, `[]`, `"x"`, ``, `{"extension":"0002-flat-direct-storage-layout"}`, `{"description":"flat"}`, `{"extension":5,"description":"flat"}`,
				`{"extension":"0002-flat-direct-storage-layout","description":"flat"`, `null`)
			w.Put(at("ocfl_layout.json"), []byte(x))
			what = fmt.Sprintf("has the ocfl_layout.json %q", x)
		case 4:
			p := g.Pick("stray/README.md", "stray/a/b.txt", "0stray/x", "extensions2/config.json")
			if w.Exists(at(path.Dir(p))) {
				continue
			}
			w.MustMkdirAll(at(path.Dir(p)))
			w.Put(at(p), []byte("stray"))
			what = fmt.Sprintf("has the file %q outside of objects", p)
		case 5:
			if len(nested) == 0 {
				continue
			}
			p := nested[g.N(len(nested))] + "/" + g.Pick("!", "README.md", "~", "ocfl_layout.json")
			if w.Exists(at(p)) {
				continue
			}
			w.Put(at(p), []byte("stray"))
			what = fmt.Sprintf("has the file %q outside of objects", p)
		case 6:
			if len(newer) == 0 {
				continue
			}
			w.Delete(at(decl[0]))
			w.Put(at("0=ocfl_1.0"), []byte("ocfl_1.0\n"))
			what, exempt = "is of version 1.0, but has objects of version 1.1", newer
		case 7:
			w.MustMkdirAll(at("extensions"))
			p := "extensions/" + g.Pick("README.md", "config.json", "x")
			w.Put(at(p), []byte("{}"))
			what = fmt.Sprintf("has the file %q", p)
		default:
			p := g.Pick("README.md", "ocfl_1.1.txt", "0=ocfl_1.0.bak", "0=ocfl_1.1~", "1=ocfl_1.1", "00=ocfl_1.1", "x0=ocfl_1.0", "inventory.json", "ocfl_extensions_1.0.md", "0=ocfl_object_1.1.txt")
			w.Put(at(p), []byte("allowed"))
			what, bad = fmt.Sprintf("has the file %q", p), false
		}
	}
	w.Settle()
	r.T("the storage root %s", what)
	r.Probe("root " + strings.SplitN(what, "\"", 2)[0])
	var f *Findings
	out := r.Do("validate", nil, func() error {
		var err error
		f, err = r.Validate(h.dir)
		return err
	})
	r.MustEnd("validation of a storage root which "+what, out)
	if f == nil {
		f = &Findings{}
	}
	// findings are about an object or the storage root; those about an object are of no
	// certain number and wording
	about := func(s string) string { return s[:strings.Index(s, "] Validation ")+1] }
	code := func(s string) string { i := strings.Index(s, " #E"); return about(s) + s[i:i+6] }
	onRoot := func(s string) bool { return strings.HasPrefix(s, "[storage root ") }
	errs := func(f *Findings) (l []string) {
		for _, s := range f.Full {
			if strings.Contains(s, "] Validation Error #E") {
				l = append(l, s)
			}
		}
		return l
	}
	before := map[string]int{}
	for _, s := range errs(was) {
		before[about(s)] = 1
		before[code(s)]++
	}
	var more []string
	after := map[string]bool{}
	for _, s := range errs(f) {
		after[about(s)] = true
		k := code(s)
		if before[k] == 0 && (onRoot(s) || before[about(s)] == 0) || onRoot(s) && before[k] == 1<<20 {
			more = append(more, s)
		}
		if onRoot(s) && before[k] > 0 {
			if before[k]--; before[k] == 0 {
				before[k] = 1 << 20
			}
		}
	}
	if !bad && (len(more) > 0 || out.Err != nil && !failed) {
		r.Fail("blamed", "validation reports a storage root which %s, which is allowed: %s %v", what, errStr(out.Err), more)
	}
	if bad && len(more) == 0 && out.Err == nil {
		r.Fail("missed", "validation does not report that the storage root %s; it says %s", what, brief(f, out))
	}
	// the objects are judged as before
	if all || out.Err != nil {
		return
	}
	for _, id := range r.C.IDs {
		m := h.Model[id]
		if m == nil || len(m.Vers) == 0 || broken(id) {
			continue
		}
		o := root.Objs[id]
		if o == nil {
			continue
		}
		for _, s := range more {
			if !exempt[id] && (strings.Contains(s, "'"+id+"'") || strings.Contains(s, "'"+o.Dir+"'")) {
				r.Fail("blamed", "validation of a storage root which %s reports the sound object %q: %s", what, id, s)
			}
		}
		if exempt[id] {
			told := false
			for _, s := range more {
				told = told || strings.Contains(s, "'"+id+"'") || strings.Contains(s, "'"+o.Dir+"'")
			}
			if !told {
				r.Fail("missed", "the storage root %s, but validation does not report %q: %s", what, id, brief(f, out))
			}
		}
	}
	for _, s := range errs(was) {
		if !onRoot(s) && !after[about(s)] {
			r.Fail("missed", "the storage root %s, and validation does not report this any more: %s", what, s)
		}
	}
}

func namesOther[T any](broken map[string]T, s string, names func(s, id, dir string) bool, id string) bool {
	for b := range broken {
		if b != id && strings.Contains(s, "'"+b+"'") {
			return true
		}
	}
	return false
}

func brief(f *Findings, o *Outcome) string {
	s := fmt.Sprintf("%v", append(append([]string{}, f.Errors...), f.Warnings...))
	if o.Err != nil {
		s += " error: " + errStr(o.Err)
	}
	return s
}

// dirOf is the folder of an object in the storage root.
func (h *Hist) dirOf(id string) string {
	if o := h.Read().Objs[id]; o != nil {
		return o.Dir
	}
	return "?"
}
