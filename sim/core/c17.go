package core

import (
	"encoding/json"
	"fmt"
	"path"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/je4/gocfl/v2/pkg/ocfl"
)

// C17: recorded metadata of each version survives and matches its files.

func init() {
	Experiments["C17"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			o := Opt{MaxObj: 2, MaxUpd: 5, Acts: g.P(40), Names: g.N(2), Zip: 6, Ext: true, Areas: g.P(40), AreaActs: g.P(40), Links: true, Index: 60, Dedup: 50}
			GenHist(g, c, o)
			c.X = map[string]string{"meta": "vary", "msrc": g.Pick("", "", "yaml", "toml", "bare")}
			if c.Cfg.hasExt("NNNN-metafile") {
				first := map[int]bool{}
				for i := range c.Ops {
					op := &c.Ops[i]
					if op.K != "upd" {
						continue
					}
					if first[op.Obj] && g.P(15) {
						op.Src = g.Pick("none", "empty")
					} else if g.P(10) {
						op.Src = g.Pick("none", "empty")
					}
					first[op.Obj] = true
				}
			}
		},
		Run: runC17,
	}
}

// recordOf returns the record an extension has stored for a version, nil if there is none.
func (c *Config) recordOf(v *VRoot, o *VObj, ext, name string, k int) []byte {
	m, _ := c.EP[ext].(map[string]any)
	sn, _ := m["storageName"].(string)
	if m["storageType"] == "extension" {
		b, ok := v.Files[join(o.Dir, "extensions", ext, sn, name)]
		if !ok {
			return nil
		}
		return unpack(name, b)
	}
	var p string
	if m["storageType"] == "area" {
		p = join(c.Areas[sn], name)
	} else {
		p = c.logical("", join(sn, name))
	}
	s, ok := o.Vers[k].State[p]
	if !ok {
		return nil
	}
	return unpack(name, []byte(s))
}

func (c *Config) recordLines(v *VRoot, o *VObj, ext, name string, k int) ([]map[string]any, bool) {
	m, _ := c.EP[ext].(map[string]any)
	suffix := map[string]string{"gzip": ".gz", "brotli": ".br"}[fmt.Sprint(m["compress"])]
	b := c.recordOf(v, o, ext, fmt.Sprintf("%s_%s.jsonl%s", name, o.Vers[k].Dir, suffix), k)
	if b == nil {
		return nil, false
	}
	var out []map[string]any
	for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		var x map[string]any
		if l != "" && json.Unmarshal([]byte(l), &x) == nil {
			out = append(out, x)
		}
	}
	return out, true
}

// newContent are the files a version has brought: path in the object -> bytes.
func (o *VObj) newContent(k int) map[string]string {
	out := map[string]string{}
	for p, b := range o.Content {
		if strings.HasPrefix(p, o.Vers[k].Dir+"/") {
			out[p] = b
		}
	}
	return out
}

func asJSON(x any) any {
	b, _ := json.Marshal(x)
	var v any
	_ = json.Unmarshal(b, &v)
	return v
}

func sameSet(a, b []string) bool {
	x, y := append([]string{}, a...), append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	return len(x) == len(y) && (len(x) == 0 || reflect.DeepEqual(x, y))
}

// judgeMeta compares the metadata of an object with the model and the storage.
func (h *Hist) judgeMeta(what, id string, m *ocfl.ObjectMetadata, v *VRoot) (records int) {
	r := h.r
	c := &r.C.Cfg
	mod := h.Model[id]
	o := v.Objs[id]
	if o == nil || m == nil {
		r.Fail("metadata", "%s of %q: no object", what, id)
	}
	fail := func(class, f string, a ...any) { r.Fail(class, "%s of %q: %s", what, id, fmt.Sprintf(f, a...)) }
	if m.ID != id || string(m.DigestAlgorithm) != h.alg(id) || m.Head != h.vname(id, len(mod.Vers)) {
		fail("metadata", "%q %q %q", m.ID, m.DigestAlgorithm, m.Head)
	}
	if len(m.Versions) != len(mod.Vers) {
		fail("versions", "%d versions instead of %d", len(m.Versions), len(mod.Vers))
	}
	for k, w := range mod.Vers {
		x := m.Versions[h.vname(id, k+1)]
		if x == nil {
			fail("versions", "v%d is missing", k+1)
		}
		if !w.Loose && (x.Message != w.Msg || x.Name != w.User || x.Address != w.Addr) {
			fail("versions", "v%d by %q %q: %q instead of %q %q %q", k+1, x.Name, x.Address, x.Message, w.User, w.Addr, w.Msg)
		}
		if d := x.Created.Sub(o.Vers[k].Time); d >= time.Second || d <= -time.Second {
			fail("versions", "v%d created %v, stored is %v", k+1, x.Created, o.Vers[k].Time)
		}
	}
	// every content with all its names and digests
	for d, ps := range o.Manifest {
		f := m.Files[d]
		for k, x := range m.Files {
			if f == nil && strings.EqualFold(k, d) {
				f = x
			}
		}
		if f == nil {
			fail("files", "%q is missing", ps)
		}
		if !sameSet(f.InternalName, ps) {
			fail("files", "content %q is reported as %q", ps, f.InternalName)
		}
		for _, ver := range o.Vers {
			var names []string
			for p, x := range ver.Digests {
				if strings.EqualFold(x, d) {
					names = append(names, p)
				}
			}
			if !sameSet(names, f.VersionName[ver.Dir]) {
				fail("files", "content %q has the names %q in %s instead of %q", ps, f.VersionName[ver.Dir], ver.Dir, names)
			}
		}
		if len(f.VersionName) > len(o.Vers) {
			fail("files", "content %q has names in %d versions", ps, len(f.VersionName))
		}
		want := map[string]bool{}
		for alg, ds := range o.Fixity {
			for fd, fps := range ds {
				for _, p := range fps {
					if contains(ps, p) {
						want[alg] = true
						_ = fd
					}
				}
			}
		}
		for alg, sum := range f.Checksums {
			if !want[string(alg)] {
				fail("digests", "content %q has a %s digest which is not recorded", ps, alg)
			}
			if digestOf(string(alg), []byte(o.Content[ps[0]])) != strings.ToLower(sum) {
				fail("digests", "content %q has the wrong %s digest %s", ps, alg, sum)
			}
			delete(want, string(alg))
		}
		for alg := range want {
			fail("digests", "the %s digest of content %q is missing", alg, ps)
		}
	}
	for d, f := range m.Files {
		if _, ok := o.Manifest[d]; !ok && o.Manifest[strings.ToUpper(d)] == nil {
			fail("files", "there is no content %s %q", d, f.InternalName)
		}
	}
	byPath := map[string]string{}
	for d, ps := range o.Manifest {
		for _, p := range ps {
			byPath[p] = d
		}
	}
	objExt, _ := asJSON(m.Extension).(map[string]any)
	// records of the indexer
	if e := "NNNN-indexer"; c.hasExt(e) {
		want := map[string][]any{}
		for k := range o.Vers {
			ls, _ := c.recordLines(v, o, e, "indexer", k)
			for _, l := range ls {
				p, _ := l["Path"].(string)
				if d, ok := byPath[p]; ok {
					want[d] = append(want[d], l["Indexer"])
					judgeStub(c, fail, l, p, o.Content[p])
				}
			}
		}
		for d, f := range m.Files {
			got, ok := f.Extension[e]
			if !ok {
				if len(want[d]) > 0 {
					fail("lost", "the record of %s about %q", e, f.InternalName)
				}
				continue
			}
			found := false
			for _, w := range want[d] {
				found = found || reflect.DeepEqual(asJSON(w), asJSON(got))
			}
			if !found {
				fail("record", "%s says %s about %q, recorded is %s", e, cut(toJSON(got)), f.InternalName, cut(toJSON(want[d])))
			}
			records++
		}
	}
	if e := "NNNN-filesystem"; c.hasExt(e) {
		for d, f := range m.Files {
			got, _ := asJSON(f.Extension[e]).(map[string]any)
			for k, ver := range o.Vers {
				var want []string
				ls, _ := c.recordLines(v, o, e, "filesystem", k)
				for _, l := range ls {
					p, _ := l["path"].(string)
					if x, ok := ver.Digests[p]; ok && x == d {
						want = append(want, toJSON(l))
					}
				}
				var have []string
				gl, _ := got[ver.Dir].([]any)
				for _, l := range gl {
					have = append(have, toJSON(l))
				}
				if !sameSet(want, have) {
					class := "record"
					if len(have) < len(want) {
						class = "lost"
					}
					fail(class, "%s has %d records about %q in %s: %s; stored are %d: %s", e, len(have), f.InternalName, ver.Dir, cut(strings.Join(have, " ")), len(want), cut(strings.Join(want, " ")))
				}
				records += len(have)
			}
			if len(got) > len(o.Vers) {
				fail("record", "%s has records of too many versions about %q", e, f.InternalName)
			}
		}
	}
	if e := "NNNN-metafile"; c.hasExt(e) {
		var want any
		for k := range o.Vers {
			if b := c.recordOf(v, o, e, "info.json", k); b != nil {
				var x any
				if json.Unmarshal(b, &x) == nil {
					want = x
				}
			}
		}
		if want != nil {
			if !reflect.DeepEqual(want, objExt[e]) {
				fail("record", "%s says %s, stored is %s", e, toJSON(objExt[e]), toJSON(want))
			}
			records++
		}
	}
	return records
}

// judgeStub checks a record of the simulated programs of the indexer.
func judgeStub(c *Config, fail func(class, f string, a ...any), l map[string]any, p, content string) {
	x, _ := l["Indexer"].(map[string]any)
	m, _ := x["metadata"].(map[string]any)
	for _, a := range toStrings(c.EP["NNNN-indexer"].(map[string]any)["actions"]) {
		got, ok := m[a].(map[string]any)
		if !ok {
			continue
		}
		b := []byte(content)
		if n := stubActions[a]; n >= 0 && len(b) > n {
			b = b[:n]
		}
		// the reader of the indexer library swallows contents shorter than 512 bytes
		if len(content) < 512 && reflect.DeepEqual(asJSON(stubRecord(a, nil)), asJSON(got)) {
			continue
		}
		if !reflect.DeepEqual(asJSON(stubRecord(a, b)), asJSON(got)) {
			fail("record", "the record of %q is about other content: %s", p, toJSON(got))
		}
	}
}

func toStrings(x any) []string {
	var out []string
	b, _ := json.Marshal(x)
	_ = json.Unmarshal(b, &out)
	return out
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// ingest is how often and as what an update ingests a logical path.
type ingest struct {
	n     int
	facts []map[string]string
}

// is tells whether a record is about one of the files.
func (i *ingest) is(m map[string]any) bool {
	for _, f := range i.facts {
		ok := true
		for k, w := range f {
			g := ""
			if m[k] != nil {
				g = fmt.Sprint(m[k])
			}
			if strings.HasSuffix(k, "Time") {
				t, err := time.Parse(time.RFC3339Nano, g)
				x, _ := time.Parse(time.RFC3339Nano, w)
				ok = ok && err == nil && t.Equal(x)
			} else if x, err := strconv.ParseFloat(g, 64); err == nil && k == "size" {
				ok = ok && fmt.Sprint(int64(x)) == w
			} else {
				ok = ok && g == w
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// ingested are the logical paths which the source file system contributes to an update,
// with the folder markers.
func (h *Hist) ingested(op *Op) map[string]*ingest {
	c := &h.r.C.Cfg
	m := map[string]*ingest{}
	add := func(area, dir, p, src string) {
		k := c.logical(area, p)
		if m[k] == nil {
			m[k] = &ingest{}
		}
		m[k].n++
		if f, ok := h.r.W.Facts(path.Join(dir, wire(src))); ok {
			m[k].facts = append(m[k].facts, f)
		}
	}
	for i := range op.Acts {
		a := &op.Acts[i]
		if a.A != "folder" && a.A != "file" {
			continue
		}
		dir := h.src("")
		if _, ok := op.Src2[a.Area]; ok && a.A == "folder" {
			dir = h.src(a.Area)
		}
		if a.A == "file" {
			add(a.Area, dir, a.P, a.P)
			continue
		}
		dirs := map[string]bool{".": true}
		for _, f := range op.filesOf(a.Area) {
			p := f.P
			if !strings.HasSuffix(p, "/") {
				add(a.Area, dir, p, p)
				p = path.Dir(p)
			}
			for p = path.Clean(p); p != "." && p != "/"; p = path.Dir(p) {
				dirs[p] = true
			}
		}
		if mk := c.folderMarker(); mk != "" {
			for d := range dirs {
				add(a.Area, dir, path.Join(d, mk), d)
			}
		}
	}
	return m
}

// judgeGathered: what an update has stored is in the records of its version.
func (h *Hist) judgeGathered(op *Op, v *VRoot) {
	r := h.r
	c := &r.C.Cfg
	id := r.C.IDs[op.Obj]
	o := v.Objs[id]
	if o == nil || o.N == 0 || o.N != len(h.Model[id].Vers) {
		return
	}
	k := o.N - 1
	ver := o.Vers[k]
	src := map[string]bool{} // logical paths of files of the source
	other := map[string]bool{}
	brought := map[string]bool{} // contents brought by other acts
	for i := range op.Acts {
		if a := &op.Acts[i]; a.C != "" {
			brought[string(Content(a.C))] = true
		}
		switch a := &op.Acts[i]; a.A {
		case "folder":
			for _, f := range op.filesOf(a.Area) {
				if !strings.HasSuffix(f.P, "/") {
					src[c.logical(a.Area, f.P)] = true
				}
			}
		case "file":
			src[c.logical(a.Area, a.P)] = true
		case "data":
			other[c.logical(a.Area, a.P)] = true
		case "reader":
			for _, p := range a.Ps {
				other[c.logical(a.Area, p)] = true
			}
		case "del", "ren":
			other[a.P], other[a.To] = true, true
		}
	}
	if e := "NNNN-filesystem"; c.hasExt(e) {
		ls, ok := c.recordLines(v, o, e, "filesystem", k)
		last := map[string]map[string]any{}
		dig := map[string]bool{}
		count, times := map[string]int{}, h.ingested(op)
		for _, l := range ls {
			p, _ := l["path"].(string)
			m, _ := l["meta"].(map[string]any)
			last[p] = m
			dig[ver.Digests[p]] = true
			if m["stateVersion"] != ver.Dir {
				r.Fail("record", "the record of %q in %s is about %v", id, ver.Dir, m["stateVersion"])
			}
			// gathered in this update, and not more often than the file was ingested
			count[p]++
			if n := times[p]; n == nil {
				r.Fail("record", "%s: %q of %q %s has a record though it was not ingested", e, p, id, ver.Dir)
			} else if count[p] > n.n {
				r.Fail("duplicate", "%s: %d records of %q of %q %s which was ingested %d times", e, count[p], p, id, ver.Dir, n.n)
			} else if !n.is(m) {
				r.Fail("record", "%s: %q of %q %s is %v, not %s", e, p, id, ver.Dir, n.facts, toJSON(m))
			}
		}
		for p := range src {
			b, in := ver.State[p]
			if !in || other[p] {
				continue
			}
			if !op.Dedup && last[p] == nil {
				r.Fail("lost", "%s has no record about %q of %q %s (any: %v)", e, p, id, ver.Dir, ok)
			}
			if m := last[p]; m != nil {
				if fmt.Sprint(m["size"]) != fmt.Sprint(len(b)) && b != "" {
					r.Fail("record", "%s: %q of %q %s has size %v instead of %d", e, p, id, ver.Dir, m["size"], len(b))
				}
			}
		}
		for p, b := range o.newContent(k) {
			if c.record(p) || len(b) == 0 {
				continue
			}
			// stored for a file of the source?
			need, replaced := false, false
			for l := range src {
				replaced = replaced || other[l]
				if !other[l] && ver.Digests[l] != "" && contains(o.Manifest[ver.Digests[l]], p) {
					need = true
				}
			}
			if need && !replaced && !brought[b] {
				d := ""
				for x, ps := range o.Manifest {
					if contains(ps, p) {
						d = x
					}
				}
				if !dig[d] {
					r.Fail("lost", "%s has no record about %q of %q %s (any: %v)", e, p, id, ver.Dir, ok)
				}
			}
		}
	}
	if e := "NNNN-indexer"; c.hasExt(e) {
		ls, ok := c.recordLines(v, o, e, "indexer", k)
		seen := map[string]bool{}
		for _, l := range ls {
			p, _ := l["Path"].(string)
			if seen[p] {
				r.Fail("duplicate", "%s has several records about %q of %q %s", e, p, id, ver.Dir)
			}
			seen[p] = true
		}
		for p, b := range o.newContent(k) {
			skip := len(b) == 0 && c.folderMarker() != ""
			for l, x := range ver.State {
				if x == b && (c.inGenerated(l) || c.record(l)) {
					skip = true
				}
			}
			if !skip && !seen[p] {
				r.Fail("lost", "%s has no record about %q of %q (any: %v)", e, p, id, ok)
			}
		}
	}
	if e := "NNNN-metafile"; c.hasExt(e) {
		want := h.metaTitle(id)
		if h.fresh {
			b := c.recordOf(v, o, e, "info.json", k)
			if !strings.Contains(string(b), want) {
				r.Fail("lost", "%s of %q %s: %q, the source has %q", e, id, ver.Dir, cut(string(b)), want)
			}
		}
	}
}

func (h *Hist) checkMeta(what string) int {
	r := h.r
	v := h.Read()
	n := 0
	var one, all *ocfl.StorageRootMetadata
	for _, id := range r.C.IDs {
		if h.Model[id] == nil {
			continue
		}
		r.Ok("metadata "+what, "failed", func() error {
			s, err := r.LoadRO(h.dir)
			if err != nil {
				return err
			}
			if one, err = s.Root.ExtractMeta("", id); err != nil {
				return err
			}
			if all, err = s.Root.ExtractMeta("", ""); err != nil {
				return err
			}
			return s.Close()
		})
		if len(one.Objects) != 1 {
			r.Fail("metadata", "metadata of %q: %d objects", id, len(one.Objects))
		}
		n += h.judgeMeta("metadata "+what, id, one.Objects[id], v)
		h.judgeMeta("metadata of all "+what, id, all.Objects[id], v)
		if len(all.Objects) != len(v.Objs) {
			r.Fail("metadata", "metadata of the storage root: %d objects instead of %d", len(all.Objects), len(v.Objs))
		}
	}
	return n
}

func runC17(r *Run) {
	h := r.NewHist()
	h.MustCreate()
	n := 0
	for i := range r.C.Ops {
		op := &r.C.Ops[i]
		switch op.K {
		case "upd":
			id := r.C.IDs[op.Obj]
			before := 0
			if m := h.Model[id]; m != nil {
				before = len(m.Vers)
			}
			if op.Src == "none" && before == 0 {
				// there is no metadata for the first version
				h.mount(op)
				saved := r.W.Save("/st")
				o := r.Do("first update without a source of metadata", nil, func() error { return h.DoUpdate(op) })
				r.MustEnd("update", o)
				if o.Err == nil {
					r.Fail("lost", "the first version of %q was made without its metadata, though it is configured", id)
				}
				r.Probe("first version without metadata refused")
				r.W.Restore("/st", saved)
				h.Reopen2()
				h.last = nil
				again := *op
				again.Src = ""
				op = &again
			}
			h.fresh = !op.Keep && op.Src == ""
			h.Update(op)
			if len(h.Model[id].Vers) == before {
				continue
			}
			h.judgeGathered(op, h.Read())
			if o := h.last; o != nil && o.GetID() == id && !r.C.Cfg.Zip {
				var m *ocfl.ObjectMetadata
				r.Ok("metadata of the open object", "failed", func() (err error) {
					m, err = o.GetMetadata()
					return err
				})
				n += h.judgeMeta("metadata of the open object", id, m, h.Read())
			}
		case "reopen":
			h.Reopen()
		}
		if i%2 == 1 {
			n += h.checkMeta("after updates")
		}
	}
	h.Reopen()
	n += h.checkMeta("at the end")
	h.note()
	r.NonTriv = n > 0
	r.Note += fmt.Sprintf(", %d records", n)
}
