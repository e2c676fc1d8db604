package core

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"path"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
	"github.com/je4/gocfl/v2/pkg/ocfl"

	"verifsim/simos"
)

// VerModel is a committed version of the reference model.
type VerModel struct {
	State State
	Msg   string
	User  string
	Addr  string
	At    time.Time
	Loose bool // message etc. of an automatic version
}

// ObjModel is the reference model of an object.
type ObjModel struct {
	ID   string
	Vers []*VerModel
}

func (m *ObjModel) head() State {
	if len(m.Vers) == 0 {
		return State{}
	}
	return m.Vers[len(m.Vers)-1].State
}

// Hist executes the operations of a case against one storage root and the model.
type Hist struct {
	tried, output map[string]bool // contents which were migrated, results of migrations

	r          *Run
	dir        string
	sess       *Sess
	Model      map[string]*ObjModel
	n          int
	made       bool
	noAmb      bool
	class      string // violation class prefix
	last       ocfl.Object
	lastS      *Sess
	folders    map[string]string
	styles     map[string]*Style
	onForeign  func(id string)
	ignoreLost bool // complete: versions without an inventory are fine
	fresh      bool
}

func (r *Run) NewHist() *Hist {
	return &Hist{r: r, dir: "/st", Model: map[string]*ObjModel{}}
}

func (h *Hist) obj(id string) *ObjModel {
	m := h.Model[id]
	if m == nil {
		m = &ObjModel{ID: id}
		h.Model[id] = m
	}
	return m
}

// mount puts the source files of an operation on the simulated machine.
func (h *Hist) mount(op *Op) {
	h.n++
	w := h.r.W
	put := func(dir string, files []FileSpec) {
		w.MustMkdirAll(dir)
		for _, f := range files {
			p := path.Join(dir, wire(f.P))
			if f.L != "" {
				w.PutLink(p, f.L)
			} else if strings.HasSuffix(f.P, "/") {
				w.MustMkdirAll(p)
			} else {
				w.Put(p, Content(f.C))
				w.SetMode(p, []fs.FileMode{0644, 0600, 0755, 0444}[(len(f.P)+len(f.C))%4])
			}
		}
	}
	put(h.src(""), op.Files)
	h.r.srcDir = h.src("")
	var areas []string
	for a := range op.Src2 {
		areas = append(areas, a)
	}
	sort.Strings(areas)
	for _, a := range areas {
		put(h.src(a), op.Src2[a])
	}
	// metadata source of the metafile extension
	ext, line, sep := ".json", "%q: %q", ",\n"
	switch h.r.C.X["msrc"] {
	case "yaml":
		ext, line, sep = ".yaml", "%s: %q", "\n"
	case "toml":
		ext, line, sep = ".toml", "%s = %q", "\n"
	}
	for _, id := range h.r.C.IDs {
		if p := path.Clean("/src/meta/" + id + ext); strings.HasPrefix(p, "/src/meta/") && !strings.ContainsRune(p, 0) && fitsNames(p) {
			l := []string{fmt.Sprintf(line, "title", h.metaTitle(id))}
			if a := h.r.C.X["agents"]; a != "" {
				for _, k := range strings.Fields(a) {
					l = append(l, fmt.Sprintf(line, k, h.metaAgent(k)))
				}
			}
			text := strings.Join(l, sep)
			if ext == ".json" {
				text = "{" + text + "}"
			}
			w.Put(p, []byte(text+"\n"))
		}
	}
	if op.Src != h.r.metaSrc {
		// another process
		h.r.metaSrc = op.Src
		h.sess, h.last = nil, nil
	}
	w.Settle()
}

// fitsNames says whether a file system can hold a path of these names.
func fitsNames(p string) bool {
	for _, n := range strings.Split(p, "/") {
		if len(n) > 255 {
			return false
		}
	}
	return true
}

func (h *Hist) src(area string) string {
	if area == "" {
		return fmt.Sprintf("/src/u%d", h.n)
	}
	return fmt.Sprintf("/src/u%d_%s", h.n, area)
}

func (op *Op) filesOf(area string) []FileSpec {
	if area != "" {
		if fs, ok := op.Src2[area]; ok {
			return fs
		}
	}
	return op.Files
}

// logical maps a source path of an area to the path in the object.
func (c *Config) logical(area, p string) string {
	if len(c.Areas) == 0 {
		return path.Clean(p)
	}
	if area == "" {
		area = c.defArea()
	}
	if area == "full" {
		return path.Clean(p)
	}
	return path.Join(c.Areas[area], p)
}

func (c *Config) defArea() string {
	if c.Area != "" {
		return c.Area
	}
	return "content"
}

func specContent(fs []FileSpec, f FileSpec) string {
	if f.L == "" {
		return string(Content(f.C))
	}
	t := f.L
	for _, g := range fs {
		if g.P == path.Join(path.Dir(f.P), t) && g.L == "" {
			return string(Content(g.C))
		}
	}
	return ""
}

// Apply computes the state after the update.
func (c *Config) Apply(prev State, op *Op) State { return c.apply(prev, op, true) }

// apply computes the state after the calls of an update, and the end of it.
func (c *Config) apply(prev State, op *Op, end bool) State {
	st := prev.clone()
	touched := map[string]bool{}
	set := func(p, content string) {
		st[p] = content
		touched[p] = true
	}
	marker := c.folderMarker()
	for i := range op.Acts {
		a := &op.Acts[i]
		switch a.A {
		case "folder":
			fs := op.filesOf(a.Area)
			dirs := map[string]bool{".": true}
			for _, f := range fs {
				p := f.P
				isDir := strings.HasSuffix(p, "/")
				if !isDir {
					set(c.logical(a.Area, p), specContent(fs, f))
					p = path.Dir(p)
				}
				for p = path.Clean(p); p != "." && p != "/"; p = path.Dir(p) {
					dirs[p] = true
				}
			}
			if marker != "" {
				for d := range dirs {
					set(c.logical(a.Area, path.Join(d, marker)), "")
				}
			}
		case "file":
			for _, f := range op.filesOf(a.Area) {
				if f.P == a.P {
					set(c.logical(a.Area, a.P), specContent(op.filesOf(a.Area), f))
				}
			}
		case "data":
			set(c.logical(a.Area, a.P), string(Content(a.C)))
		case "reader":
			for _, p := range a.Ps {
				set(c.logical(a.Area, p), string(Content(a.C)))
			}
		case "del":
			delete(st, a.P)
		case "ren":
			if v, ok := st[a.P]; ok && a.P != a.To {
				st[a.To] = v
				delete(st, a.P)
			}
		case "endarea":
			if op.Echo {
				pre := c.Areas[a.Area] + "/"
				for p := range st {
					if strings.HasPrefix(p, pre) && !touched[p] {
						delete(st, p)
					}
				}
			}
		}
	}
	if op.Echo && end {
		for p := range st {
			if touched[p] || c.inGenerated(p) {
				continue
			}
			if len(c.Areas) > 0 && !strings.HasPrefix(p, c.Areas[c.defArea()]+"/") {
				continue
			}
			delete(st, p)
		}
	}
	if c.hasExt("NNNN-content-subpath") {
		st["README.md"] = readmeMark
	}
	return st
}

const readmeMark = "\x00README"

// inGenerated tells whether the software itself creates the logical path.
func (c *Config) inGenerated(p string) bool {
	return c.hasExt("NNNN-content-subpath") && p == "README.md"
}

func (c *Config) hasExt(n string) bool {
	for _, e := range c.Ext {
		if e == n {
			return true
		}
	}
	return false
}

func (c *Config) folderMarker() string {
	if m, ok := c.EP["NNNN-filesystem"].(map[string]any); ok && c.hasExt("NNNN-filesystem") {
		s, _ := m["folders"].(string)
		return s
	}
	return ""
}

// metaTitle is what the metadata source says at the moment.
func (h *Hist) metaTitle(id string) string {
	if h.r.C.X["meta"] == "vary" {
		return fmt.Sprintf("object %d, state %d", len(id), h.n)
	}
	return fmt.Sprintf("object %d", len(id))
}

// metaAgent is what the metadata source says about the agent k.
func (h *Hist) metaAgent(k string) string {
	if k == "user" && h.r.C.X["meta"] == "vary" && h.n%3 == 0 {
		return ""
	}
	return fmt.Sprintf("%s <\"Ü\" & %d>", k, len(h.metaTitle("")))
}

// inMirror tells whether the records of an extension are files like any other, which
// an update with echo deletes.
func (c *Config) inMirror(e string) bool {
	m, _ := c.EP[e].(map[string]any)
	return c.hasExt(e) && m["storageType"] != "extension"
}

// session opens the storage root if it is not open.
func (h *Hist) session() (*Sess, error) {
	if h.sess != nil {
		return h.sess, nil
	}
	var err error
	if h.made {
		h.sess, err = h.r.Load(h.dir)
	} else {
		h.sess, err = h.r.Create(h.dir)
		if err == nil {
			h.made = true
		}
	}
	return h.sess, err
}

// CreateRoot creates the storage root (and closes it when it is a container).
func (h *Hist) CreateRoot(faults []simos.Fault) *Outcome {
	o := h.r.Do("create root", faults, func() error {
		if _, err := h.session(); err != nil {
			return err
		}
		return h.leave()
	})
	if o.Err != nil || o.Crash || o.Bad() {
		h.sess = nil
	}
	if o.Err == nil && !o.Crash && !o.Bad() {
		h.r.W.Settle()
	}
	return o
}

// leave ends the session if the storage must be closed to be complete.
func (h *Hist) leave() error {
	if h.sess == nil || !h.sess.St.zip {
		return nil
	}
	s := h.sess
	h.sess = nil
	return s.Close()
}

// Forget drops the session as a new process would.
func (h *Hist) Forget() { h.sess = nil }

type closeTrack struct {
	io.Reader
	closed bool
}

func (c *closeTrack) Close() error { c.closed = true; return nil }

// DoUpdate performs the calls of an update. Nothing is recorded in the model.
func (h *Hist) DoUpdate(op *Op) error {
	r := h.r
	s, err := h.session()
	if err != nil {
		return fmt.Errorf("open storage root: %w", err)
	}
	id := r.C.IDs[op.Obj]
	o := h.last
	h.last = nil
	if op.Keep && o != nil && o.GetID() == id && h.lastS == s {
		r.Probe("object stays open")
	} else {
		if o, _, err = r.OpenObj(s, id); err != nil {
			return fmt.Errorf("open object: %w", err)
		}
	}
	if err := h.actsOf(o, op); err != nil {
		return err
	}
	if op.Abort == "end" {
		h.sess = nil
		return nil
	}
	if err := o.EndUpdate(); err != nil {
		return fmt.Errorf("EndUpdate: %w", err)
	}
	if op.Abort == "close" {
		h.sess = nil
		return nil
	}
	if err := o.Close(); err != nil {
		return fmt.Errorf("Close: %w", err)
	}
	if op.Abort == "store" {
		h.sess = nil
		return nil
	}
	h.last, h.lastS = o, s
	if err := h.leave(); err != nil {
		return fmt.Errorf("close container: %w", err)
	}
	return nil
}

func (h *Hist) actsOf(o ocfl.Object, op *Op) error {
	r := h.r
	srcFS, err := osfsrw.NewFS(h.src(""), r.Log)
	if err != nil {
		return fmt.Errorf("open source: %w", err)
	}
	vfs, err := o.StartUpdate(srcFS, op.Msg, op.User, op.Addr, op.Echo)
	if err != nil {
		return fmt.Errorf("StartUpdate: %w", err)
	}
	cur := State{}
	if m := h.Model[r.C.IDs[op.Obj]]; m != nil {
		cur = m.head().clone()
	}
	done := 0
	for i := range op.Acts {
		a := &op.Acts[i]
		done++
		switch a.A {
		case "folder":
			fsys := srcFS
			if a.Area != "" {
				if _, ok := op.Src2[a.Area]; ok {
					if fsys, err = osfsrw.NewFS(h.src(a.Area), r.Log); err != nil {
						return fmt.Errorf("open source: %w", err)
					}
				}
			}
			if err := o.AddFolder(fsys, vfs, op.Dedup, a.Area); err != nil {
				return fmt.Errorf("AddFolder: %w", err)
			}
		case "file":
			if err := o.AddFile(srcFS, vfs, a.P, op.Dedup, a.Area, false, false); err != nil {
				return fmt.Errorf("AddFile: %w", err)
			}
		case "data":
			if err := o.AddData(Content(a.C), a.P, op.Dedup, a.Area, false, false); err != nil {
				return fmt.Errorf("AddData: %w", err)
			}
		case "reader":
			rd := &chunkReader{b: Content(a.C), s: r.C.Sched.Short}
			if _, err := o.AddReader(&closeTrack{Reader: rd}, a.Ps, a.Area, false, false); err != nil {
				return fmt.Errorf("AddReader: %w", err)
			}
		case "del", "ren":
			// the caller knows the content of the file it deletes or renames
			tmp := &Op{Acts: op.Acts[:done-1], Files: op.Files, Src2: op.Src2, Echo: op.Echo}
			st := r.C.Cfg.apply(cur, tmp, false)
			c, ok := st[a.P]
			if !ok {
				continue
			}
			d := digestOf(h.alg(r.C.IDs[op.Obj]), []byte(c))
			if a.A == "del" {
				if err := o.DeleteFile(a.P, d); err != nil {
					return fmt.Errorf("DeleteFile: %w", err)
				}
			} else if err := o.RenameFile(a.P, a.To, d); err != nil {
				return fmt.Errorf("RenameFile: %w", err)
			}
		case "beginarea":
			o.BeginArea(a.Area)
		case "endarea":
			if err := o.EndArea(); err != nil {
				return fmt.Errorf("EndArea: %w", err)
			}
		}
	}
	return nil
}

// chunkReader delivers content in pieces.
type chunkReader struct {
	b []byte
	s uint64
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if c.s != 0 {
		c.s = c.s*6364136223846793005 + 1442695040888963407
		if c.s>>40&1 == 0 {
			n = 1 + int((c.s>>33)%uint64(n))
		}
	}
	n = copy(p[:n], c.b)
	c.b = c.b[n:]
	if len(c.b) == 0 && c.s>>41&1 == 1 {
		return n, io.EOF // data together with EOF is legal
	}
	return n, nil
}

// Update performs an update which must succeed, and records it.
func (h *Hist) Update(op *Op) {
	r := h.r
	h.mount(op)
	if id := r.C.IDs[op.Obj]; h.styles[id].full(len(h.obj(id).Vers)) {
		before := h.snapshotFiles()
		name := fmt.Sprintf("update of %s, which can have no further version", id)
		out := r.Do(name, nil, func() error { return h.DoUpdate(op) })
		r.MustEnd(name, out)
		if out.Err == nil {
			r.Fail("failed", "a version after %s of %q was made%s", h.vname(id, len(h.obj(id).Vers)), id, h.style(id))
		}
		r.W.Settle()
		if d := treeDiff(before, h.snapshotFiles()); d != "" {
			r.Fail("failed", "a refused update of %q changed the storage root: %s%s", id, d, h.style(id))
		}
		r.Probe("refused: no further version")
		h.Foreign(id, op.Fo+uint64(len(op.Msg)), "-all")
		return
	}
	r.Ok(fmt.Sprintf("update of %s", r.C.IDs[op.Obj]), "failed", func() error { return h.DoUpdate(op) })
	h.Commit(op)
	if op.Fo != 0 && len(h.Model[r.C.IDs[op.Obj]].Vers) > 0 {
		h.Foreign(r.C.IDs[op.Obj], op.Fo, op.Want)
	}
}

// Commit records a successful update in the model.
func (h *Hist) Commit(op *Op) bool {
	r := h.r
	r.W.Settle()
	h.zipAmbiguous()
	m := h.obj(r.C.IDs[op.Obj])
	st := r.C.Cfg.Apply(m.head(), op)
	if len(m.Vers) > 0 && st.equal(m.head()) {
		// no change. Whether content stored again makes a version is not the model's
		// business unless deduplication is on.
		v := h.Read()
		o := v.Objs[m.ID]
		if o == nil || o.N == len(m.Vers) {
			return false
		}
		if op.Dedup && onlyFolders(op) && !r.C.Cfg.hasExt("NNNN-metafile") && !r.C.Cfg.hasExt("NNNN-filesystem") && !r.C.Cfg.inMirror("NNNN-indexer") && !r.C.Cfg.inMirror("NNNN-migration") && !r.C.Cfg.inMirror(thumbName) && !r.C.Cfg.hasExt(metsName) {
			r.Fail("version", "an update without any change made version %d of %q", o.N, m.ID)
		}
	}
	m.Vers = append(m.Vers, &VerModel{State: st, Msg: op.Msg, User: op.User, Addr: op.Addr, At: time.Unix(0, runtime.SimWall())})
	return true
}

// zipAmbiguous ends a run whose container has a folder whose name is the beginning of
// a sibling's name: the zip library mixes them up (known finding of C15).
func (h *Hist) zipAmbiguous() {
	if !h.r.C.Cfg.Zip || h.noAmb {
		return
	}
	f, err := h.r.files(h.dir)
	if err != nil {
		return
	}
	if d := ambiguous(f); d != "" {
		panic(&Inconclusive{"container with ambiguous folder " + d})
	}
}

func ambiguous(f map[string][]byte) string {
	dirs := map[string]bool{}
	all := map[string]bool{}
	for p := range f {
		all[p] = true
		for i := 0; i < len(p); i++ {
			if p[i] == '/' {
				dirs[p[:i]] = true
				all[p[:i]] = true
			}
		}
	}
	ks := make([]string, 0, len(all))
	for k := range all {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		// the proper prefixes of k which end within its last element
		for i := strings.LastIndexByte(k, '/') + 2; i < len(k); i++ {
			if dirs[k[:i]] {
				return k[:i]
			}
		}
	}
	return ""
}

func onlyFolders(op *Op) bool {
	for _, a := range op.Acts {
		if a.A != "folder" {
			return false
		}
	}
	return true
}

// Read reads the storage with the independent reader.
func (h *Hist) Read() *VRoot {
	f, err := h.r.files(h.dir)
	if err != nil {
		h.r.Fail("container", "the container is not readable: %v", err)
	}
	return ReadRoot(f)
}

var recordName = regexp.MustCompile(`^(filesystem|indexer|migration|thumbnail)_v\d+\.jsonl(\.gz|\.br)?$`)

// record tells whether a path is a record written by a metadata extension.
func (c *Config) record(p string) bool {
	b := path.Base(p)
	return recordName.MatchString(b) || b == "info.json" && c.hasExt("NNNN-metafile") || c.hasExt(thumbName) && thumbFile.MatchString(p) || c.inMETS(p)
}

// sameState compares allowing for generated files.
func (h *Hist) sameState(want, got State) string {
	w, g := want.clone(), got.clone()
	for _, m := range []State{w, g} {
		for k := range m {
			if h.r.C.Cfg.record(k) {
				delete(m, k)
			}
		}
	}
	for k, v := range w {
		if v == readmeMark {
			if _, ok := g[k]; ok {
				g[k] = readmeMark
			}
		}
	}
	if w.equal(g) {
		return ""
	}
	return diffStates(w, g)
}

// CheckFormat compares storage and model with the independent reader.
func (h *Hist) CheckFormat(format bool) {
	r := h.r
	v := h.Read()
	if format {
		if len(v.Problems) > 0 {
			r.Fail("format", "storage root: %s", strings.Join(v.Problems, "; "))
		}
	}
	for id, m := range h.Model {
		o := v.Objs[id]
		if len(m.Vers) == 0 {
			if o != nil {
				r.Fail("format", "object %q exists though it was never created", id)
			}
			continue
		}
		if o == nil {
			r.Fail("format", "object %q is not on storage", id)
		}
		if p := h.hard(o); format && len(p) > 0 {
			r.Fail("format", "object %q%s: %s", id, h.style(id), strings.Join(p, "; "))
		}
		if o.N != len(m.Vers) {
			r.Fail("format", "object %q has %d versions instead of %d", id, o.N, len(m.Vers))
		}
		for i, mv := range m.Vers {
			if i >= len(o.Vers) {
				r.Fail("format", "object %q: version %d is unreadable: %s", id, i+1, strings.Join(o.Problems, "; "))
			}
			if d := h.sameState(mv.State, o.Vers[i].State); d != "" {
				r.Fail("format", "object %q%s v%d: %s", id, h.style(id), i+1, d)
			}
		}
	}
	for id := range v.Objs {
		if m := h.Model[id]; m == nil || len(m.Vers) == 0 {
			r.Fail("format", "unexpected object %q on storage", id)
		}
	}
}

// ExtractVersion extracts one version into an empty folder and returns the files.
func (h *Hist) ExtractVersion(id, version string, man bool, area string, faults []simos.Fault, clear bool) (State, *Outcome) {
	r := h.r
	if clear {
		r.W.Clear("/dst")
	}
	o := r.Do(fmt.Sprintf("extract %s %s", id, version), faults, func() error {
		s, err := h.session()
		if err != nil {
			return fmt.Errorf("open storage root: %w", err)
		}
		dst, err := osfsrw.NewFS("/dst", r.Log)
		if err != nil {
			return err
		}
		if err := s.Root.Extract(dst, "", id, version, man, area); err != nil {
			return err
		}
		return h.leaveRO()
	})
	return treeState(r.W.Tree("/dst", false)), o
}

// leaveRO ends a session which only read. A container opened for writing has to be
// closed (it rewrites itself).
func (h *Hist) leaveRO() error { return h.leave() }

// CheckExtract extracts every version of every object and compares.
func (h *Hist) CheckExtract() {
	r := h.r
	for _, id := range r.C.IDs {
		m := h.Model[id]
		if m == nil {
			continue
		}
		for i := range m.Vers {
			names := []string{h.vname(id, i+1)}
			if i == len(m.Vers)-1 {
				names = append(names, "latest", "")
			}
			for _, vn := range names {
				area := ""
				if r.C.Cfg.hasExt("NNNN-content-subpath") {
					area = "full"
				}
				got, o := h.ExtractVersion(id, vn, false, area, nil, true)
				r.MustEnd("extraction", o)
				if o.Err != nil {
					r.Fail("extract", "extraction of %q %s failed without any fault: %s", id, vn, errStr(o.Err))
				}
				if d := h.sameState(m.Vers[i].State, got); d != "" {
					r.Fail("extract", "extraction of %q %q (v%d): %s", id, vn, i+1, d)
				}
				r.Probe("extracted")
			}
		}
	}
}

// CheckValid validates the storage root with gocfl.
func (h *Hist) CheckValid(when string) *Findings {
	r := h.r
	var f *Findings
	r.W.LogOn = false
	o := r.Do("validate", nil, func() error {
		var err error
		f, err = r.Validate(h.dir)
		return err
	})
	r.MustEnd("validation", o)
	if o.Err != nil {
		r.Fail("validate", "validation %s failed: %s", when, errStr(o.Err))
	}
	if len(f.Errors) > 0 {
		var l []string
		for _, x := range f.Full {
			if !strings.Contains(x, "Validation Warning") {
				l = append(l, x)
			}
		}
		r.Fail("validate", "validation %s reports errors: %s", when, strings.Join(l, " | "))
	}
	h.sess = nil
	return f
}

var _ = bytes.NewReader
