package core

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/je4/filesystem/v3/pkg/writefs"
	"github.com/je4/gocfl/v2/pkg/ocfl"

	"verifsim/simos"
)

// C27: reports about storage roots and objects.

func init() {
	Experiments["C27"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			GenHist(g, c, Opt{MaxObj: 3, MaxUpd: 5, Acts: g.P(50), Names: g.N(2), Zip: 10, Ext: g.P(30), Areas: g.P(25), Links: true, Index: 30, Dedup: 70})
			var ops []Op
			for _, op := range c.Ops {
				if op.K == "upd" && !c.Cfg.Zip && !c.Cfg.hasExt("NNNN-indexer") && !c.Cfg.hasExt("NNNN-filesystem") && g.P(25) {
					op.Fo = g.U64() | 1
				}
				ops = append(ops, op)
				if g.P(50) {
					ops = append(ops, genQuery(g, len(c.IDs)))
				}
			}
			for i := 2 + g.N(4); i > 0; i-- {
				ops = append(ops, genQuery(g, len(c.IDs)))
			}
			c.Ops = ops
		},
		Run: runC27,
	}
}

func genQuery(g *Rng, n int) Op {
	op := Op{K: "query", Obj: g.N(n), S: g.Pick("root", "id", "folder", "id", "folder", "unknown", "nofolder", "meta", "check")}
	switch g.N(4) {
	case 0: // everything, as nothing was chosen
	case 1:
		op.N = 1<<len(allStat) - 1
	default:
		op.N = g.N(1 << len(allStat))
	}
	switch g.N(5) {
	case 0:
		op.T = int64(1 + g.N(4000)) // the writer fails after so many bytes
	case 1:
		op.Faults = []simos.Fault{genFault(g, "st", readFaults, 300)}
	}
	return op
}

func (op *Op) infos() (l []ocfl.StatInfo) {
	for i, s := range allStat {
		if op.N>>i&1 != 0 {
			l = append(l, s)
		}
	}
	return
}

func (op *Op) asked(s ocfl.StatInfo) bool { return op.N == 0 || op.N>>uint(s)&1 != 0 }

// fullWriter cannot take more than so many bytes.
type fullWriter struct {
	b    strings.Builder
	room int // negative: everything
	full bool
}

var errFull = errors.New("no space left for the report")

func (w *fullWriter) Write(p []byte) (int, error) {
	if w.room < 0 {
		return w.b.Write(p)
	}
	if len(p) > w.room {
		n := w.room
		w.b.Write(p[:n])
		w.room = 0
		w.full = true
		return n, errFull
	}
	w.room -= len(p)
	return w.b.Write(p)
}

// ask opens the storage root for reading, does fn and closes it again.
func (h *Hist) ask(name string, faults []simos.Fault, fn func(s *Sess) error) *Outcome {
	r := h.r
	return r.Do(name, faults, func() (err error) {
		s, err := r.LoadRO(h.dir)
		if err != nil {
			return err
		}
		if s.St.zip {
			defer func() {
				if e := writefs.Close(s.St.FS); e != nil && err == nil {
					err = e
				}
			}()
		}
		return fn(s)
	})
}

func runC27(r *Run) {
	h := r.NewHist()
	h.MustCreate()
	h.runOps(func(i int, op *Op) {
		if op.K == "query" {
			h.Reopen()
			h.query(op)
		}
	})
	h.Reopen()
	h.CheckValid("at the end")
}

func (h *Hist) query(op *Op) {
	r := h.r
	id := r.C.IDs[op.Obj]
	v := h.Read()
	o := v.Objs[id]
	before := h.snapshotTree()
	defer func() {
		if d := treeDiff(before, h.snapshotTree()); d != "" {
			r.Fail("changed", "a report changed the storage root: %s", d)
		}
	}()
	path, oid := "", ""
	switch op.S {
	case "root":
	case "id":
		oid = id
	case "folder":
		if o == nil {
			oid = id
		} else {
			path = o.Dir
		}
	case "unknown":
		// a layout may not be able to place it at all
		oid = id + "unknown"
		if v.Objs[oid] != nil {
			return
		}
	case "nofolder":
		path = "no/such/folder"
		if o != nil {
			path = join(o.Dir, "v1")
		}
	case "meta":
		h.sameMeta(op, v)
		return
	case "check":
		h.sameCheck(op, v, o)
		return
	}
	name := fmt.Sprintf("stat path %q id %q %v", path, oid, op.infos())
	w := &fullWriter{room: -1}
	if op.T > 0 {
		w.room = int(op.T)
	}
	out := h.ask(name, op.Faults, func(s *Sess) error { return s.Root.Stat(w, path, oid, op.infos()) })
	r.MustEnd("stat", out)
	got := w.b.String()
	exists := path == "" && oid == "" || path != "" && v.ByDir[path] != nil || oid != "" && v.Objs[oid] != nil
	if !exists {
		if out.Err == nil {
			r.Fail("unknown", "%s does not fail: %s", name, got)
		}
		r.Probe("unknown object")
		return
	}
	if out.Err != nil {
		if w.full || out.Fired > 0 {
			r.Probe("report failed")
			return
		}
		r.Fail("failed", "%s failed without any fault: %s", name, errStr(out.Err))
	}
	if w.full {
		r.Fail("cutoff", "%s is reported as successful though the report could not be written", name)
	}
	h.judgeStat(name, op, v, path, oid, got)
	r.NonTriv = true
	if out.Fired > 0 {
		r.Probe("report despite fault")
		return
	}
	// asked again
	w2 := &fullWriter{room: -1}
	out = h.ask(name+" again", nil, func(s *Sess) error { return s.Root.Stat(w2, path, oid, op.infos()) })
	r.MustEnd("stat", out)
	if out.Err != nil {
		r.Fail("failed", "%s failed the second time: %s", name, errStr(out.Err))
	}
	if w2.b.String() != got {
		r.Fail("differs", "%s tells something else the second time: %s", name, lineDiff(got, w2.b.String()))
	}
}

// judgeStat compares a report with the stored objects.
func (h *Hist) judgeStat(name string, op *Op, v *VRoot, path, oid, got string) {
	r := h.r
	if !strings.HasPrefix(got, "Storage Root\n") || !strings.Contains(got, "OCFL Version: "+v.Version+"\n") {
		r.Fail("version", "%s does not tell the version %s of the storage root: %.200s", name, v.Version, got)
	}
	parts := strings.Split(got, "\nObject: ")
	head, parts := parts[0]+"\n", parts[1:]
	cfgs := 0
	for f := range v.Files {
		if p := strings.Split(f, "/"); len(p) == 3 && p[0] == "extensions" && p[2] == "config.json" && p[1] != "initial" && r.C.Cfg.known(p[1]) {
			cfgs++
			h.wantConfig(name, head, p[1], op.asked(ocfl.StatExtensionConfigs))
		}
	}
	var want []*VObj
	switch {
	case path != "":
		want = append(want, v.ByDir[path])
	case oid != "":
		want = append(want, v.Objs[oid])
	default:
		var dirs []string
		for d := range v.ByDir {
			dirs = append(dirs, d)
		}
		sort.Strings(dirs)
		if i := strings.Index(head, "Object Folders: "); i < 0 && op.asked(ocfl.StatObjectFolders) {
			r.Fail("folders", "%s does not tell the folders of objects: %.200s", name, got)
		} else if i >= 0 {
			l, _, _ := strings.Cut(head[i+len("Object Folders: "):], "\n")
			f := strings.Split(l, ", ")
			sort.Strings(f)
			if strings.Join(f, "\n") != strings.Join(dirs, "\n") && !strings.Contains(strings.Join(dirs, ""), ", ") {
				r.Fail("folders", "%s tells the folders %q instead of %q", name, f, dirs)
			}
		}
		if op.asked(ocfl.StatObjects) {
			for _, d := range dirs {
				want = append(want, v.ByDir[d])
			}
		}
	}
	if len(parts) != len(want) {
		r.Fail("objects", "%s tells %d objects instead of %d", name, len(parts), len(want))
	}
	for _, o := range want {
		var found bool
		for _, p := range parts {
			title, body, _ := strings.Cut(p, "\n")
			if title != o.Dir && title != o.ID || !strings.HasPrefix(body, "["+o.ID+"] ") {
				continue
			}
			if found {
				r.Fail("objects", "%s tells %q twice", name, o.ID)
			}
			found = true
			h.judgeObjStat(fmt.Sprintf("%s about %q", name, o.ID), op, v, o, body)
		}
		if !found {
			r.Fail("objects", "%s does not tell about %q in %q: %.300s", name, o.ID, o.Dir, got)
		}
	}
}

// known tells whether an extension is one of those the program knows.
func (c *Config) known(n string) bool { return c.Layout == n || c.hasExt(n) }

func (h *Hist) wantConfig(name, text, ext string, asked bool) {
	has := strings.Contains(text, fmt.Sprintf("\"extensionName\": %q", ext))
	if has != asked {
		h.r.Fail("extension", "%s: configuration of %s: told %v, asked for %v", name, ext, has, asked)
	}
	if has {
		h.r.Probe("configuration")
	}
}

func (h *Hist) judgeObjStat(name string, op *Op, v *VRoot, o *VObj, body string) {
	r := h.r
	pre := "[" + o.ID + "] "
	body = strings.TrimSuffix(body, "\n") + "\n"
	exts := ""
	if i := strings.Index(body, pre+"Initial Extension:\n"); i >= 0 {
		body, exts = body[:i], body[i:]
	}
	for f := range v.Files {
		if rest, ok := strings.CutPrefix(f, o.Dir+"/extensions/"); ok {
			if p := strings.Split(rest, "/"); len(p) == 2 && p[1] == "config.json" && p[0] != "initial" && r.C.Cfg.hasExt(p[0]) {
				h.wantConfig(name, exts, p[0], op.asked(ocfl.StatObjectExtensionConfigs))
			}
		}
	}
	vers := strings.Split(body, "\n"+pre+"Version ")
	head, vers := vers[0]+"\n", vers[1:]
	n := 0
	for _, l := range o.Manifest {
		n += len(l)
	}
	has := func(l string) {
		if !strings.Contains("\n"+head, "\n"+pre+l+"\n") {
			r.Fail("header", "%s does not tell %q: %s", name, l, head)
		}
	}
	has("Head: " + o.Head)
	has("Digest: " + o.Alg)
	has(fmt.Sprintf("Manifest: %d files (%d unique files)", n, len(o.Manifest)))
	var algs []string
	for a := range o.Fixity {
		algs = append(algs, a)
	}
	sort.Strings(algs)
	_, l, _ := strings.Cut("\n"+head, "\n"+pre+"Fixity: ")
	l, _, _ = strings.Cut(l, "\n")
	f := strings.Split(l, ", ")
	sort.Strings(f)
	if strings.Join(f, " ") != strings.Join(algs, " ") {
		r.Fail("header", "%s tells the fixity %q instead of %q", name, f, algs)
	}
	if !op.asked(ocfl.StatObjectVersions) {
		if len(vers) > 0 {
			r.Fail("chosen", "%s tells versions, which were not chosen", name)
		}
		return
	}
	if len(vers) != len(o.Vers) {
		r.Fail("versions", "%s tells %d versions instead of %d", name, len(vers), len(o.Vers))
	}
	for k, w := range o.Vers {
		t, ok := strings.CutPrefix(vers[k], w.Dir+"\n")
		if !ok {
			r.Fail("versions", "%s tells %.20q instead of %s", name, vers[k], w.Dir)
		}
		h.judgeVerStat(name+" "+w.Dir, op, o, w, strings.TrimSuffix(t, "\n")+"\n")
		r.Probe("version")
	}
}

func (h *Hist) judgeVerStat(name string, op *Op, o *VObj, w *VVer, t string) {
	r := h.r
	pre := "[" + o.ID + "] "
	take := func(l string) bool {
		u, ok := strings.CutPrefix(t, pre+l+"\n")
		if ok {
			t = u
		}
		return ok
	}
	must := func(l string) {
		if !take(l) {
			r.Fail("version", "%s does not tell %q: %.300s", name, l, t)
		}
	}
	must(fmt.Sprintf("    User: %s (%s)", w.User, w.Addr))
	if !take("    Created: "+w.Time.String()) && !take("    Created: "+w.Time.Format(time.RFC3339)) {
		must("    Created: " + w.Created)
	}
	must("    Message: " + w.Msg)
	if !op.asked(ocfl.StatObjectVersionState) {
		if t != "" {
			r.Fail("chosen", "%s tells what was not chosen: %.300s", name, t)
		}
		return
	}
	left := map[string]bool{}
	for p := range w.State {
		left[p] = true
	}
	for len(left) > 0 {
		found := ""
		for _, p := range sortedSet(left) {
			if take("       " + p) {
				found = p
				break
			}
		}
		if found == "" {
			r.Fail("state", "%s does not tell the files %q: %.300s", name, sortedSet(left), t)
		}
		delete(left, found)
		r.Probe("file")
		if !op.asked(ocfl.StatObjectManifest) {
			continue
		}
		stored := map[string]bool{}
		for d, l := range o.Manifest {
			if strings.EqualFold(d, w.Digests[found]) {
				for _, x := range l {
					stored[x] = true
				}
			}
		}
		for len(stored) > 0 {
			got := ""
			for _, x := range sortedSet(stored) {
				if take("          " + x) {
					got = x
					break
				}
			}
			if got == "" {
				r.Fail("content", "%s: %q is not told to be stored in %q: %.300s", name, found, sortedSet(stored), t)
			}
			delete(stored, got)
		}
	}
	if t != "" {
		r.Fail("state", "%s tells more than there is: %.300s", name, t)
	}
}

func sortedSet(m map[string]bool) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// sameMeta compares the metadata of the storage root with that of its objects.
func (h *Hist) sameMeta(op *Op, v *VRoot) {
	r := h.r
	var all *ocfl.StorageRootMetadata
	out := h.ask("metadata of the storage root", op.Faults, func(s *Sess) (err error) {
		all, err = s.Root.ExtractMeta("", "")
		return
	})
	r.MustEnd("metadata", out)
	if out.Err != nil {
		if out.Fired == 0 {
			r.Fail("failed", "metadata of the storage root cannot be extracted: %s", errStr(out.Err))
		}
		return
	}
	if len(all.Objects) != len(v.Objs) {
		r.Fail("meta", "metadata tells %d objects instead of %d", len(all.Objects), len(v.Objs))
	}
	var ids []string
	for id := range v.Objs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		want := toJSON(all.Objects[id])
		for i, what := range []string{"identifier", "folder"} {
			var m *ocfl.StorageRootMetadata
			out := h.ask(fmt.Sprintf("metadata of %q by %s", id, what), nil, func(s *Sess) (err error) {
				if i == 0 {
					m, err = s.Root.ExtractMeta("", id)
				} else {
					m, err = s.Root.ExtractMeta(v.Objs[id].Dir, "")
				}
				return
			})
			r.MustEnd("metadata", out)
			if out.Err != nil {
				r.Fail("failed", "metadata of %q by %s cannot be extracted: %s", id, what, errStr(out.Err))
			}
			if len(m.Objects) != 1 {
				r.Fail("meta", "metadata of %q by %s tells %d objects", id, what, len(m.Objects))
			}
			if got := toJSON(m.Objects[id]); got != want {
				r.Fail("meta", "metadata of %q by %s differs from that of the storage root: %s", id, what, lineDiff(want, got))
			}
			r.Probe("metadata")
		}
	}
	r.NonTriv = true
	// an object which does not exist
	out = h.ask("metadata of an unknown object", nil, func(s *Sess) error {
		_, err := s.Root.ExtractMeta("", "unknown:object/0")
		return err
	})
	r.MustEnd("metadata", out)
	if out.Err == nil {
		r.Fail("unknown", "metadata of an unknown object does not fail")
	}
}

// sameCheck compares what validation says about an object by identifier and by folder.
func (h *Hist) sameCheck(op *Op, v *VRoot, o *VObj) {
	r := h.r
	if o == nil {
		return
	}
	var a [2]string
	for i := range a {
		out := h.ask(fmt.Sprintf("check %q (%d)", o.ID, i), nil, func(s *Sess) error {
			var err error
			if i == 0 {
				err = s.Root.CheckObjectByID(o.ID)
			} else {
				err = s.Root.CheckObjectByFolder(o.Dir)
			}
			if err != nil {
				return err
			}
			f, err := findings(s.Ctx)
			if err != nil {
				return err
			}
			a[i] = sortedCodes(f)
			return nil
		})
		r.MustEnd("check", out)
		if out.Err != nil {
			r.Fail("failed", "check of %q failed: %s", o.ID, errStr(out.Err))
		}
	}
	if a[0] != a[1] {
		r.Fail("check", "check of %q says %q, by folder %q", o.ID, a[0], a[1])
	}
	r.Probe("check")
}
