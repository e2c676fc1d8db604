package core

import (
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
	"github.com/je4/filesystem/v3/pkg/writefs"
	"github.com/je4/filesystem/v3/pkg/zipfs"
	"github.com/je4/gocfl/v2/pkg/ocfl"

	"runtime"
)

func jumpClock(sec int64) {
	t := runtime.SimWall() + sec*1_000_000_000
	if t < 1_000_000_000 {
		t = 1_000_000_000
	}
	runtime.SimSetWall(t)
}

// lineDiff shows the lines which differ.
func lineDiff(a, b string) string {
	count := map[string]int{}
	for _, l := range strings.Split(a, "\n") {
		count[l]++
	}
	for _, l := range strings.Split(b, "\n") {
		count[l]--
	}
	var out []string
	for l, n := range count {
		if n > 0 {
			out = append(out, "- "+l)
		} else if n < 0 {
			out = append(out, "+ "+l)
		}
	}
	sort.Strings(out)
	return cut(strings.Join(out, "\n"))
}

// LoadRO opens an existing storage root as the reading commands do.
func (r *Run) LoadRO(dir string) (*Sess, error) {
	base, err := osfsrw.NewFS(dir, r.Log)
	if err != nil {
		return nil, err
	}
	s := &Store{r: r, base: base, FS: base, dir: dir}
	if r.C.Cfg.Zip {
		z, err := zipfs.NewFSFile(base, "archive.zip", r.Log)
		if err != nil {
			return nil, err
		}
		s.FS, s.zip = z, true
	}
	f := r.factory(nil)
	ctx := r.newCtx()
	root, err := ocfl.LoadStorageRoot(ctx, s.FS, f, r.Log)
	if err != nil {
		if s.zip {
			writefs.Close(s.FS)
		}
		return nil, err
	}
	return &Sess{St: s, Root: root, Ctx: ctx, F: f}, nil
}

// Read operations. Each opens the storage root as a new process would and returns a
// canonical description of what it found.
var readOps = []string{"validate", "stat", "list", "meta", "extract", "object", "checkobj", "metaobj"}

var allStat = []ocfl.StatInfo{ocfl.StatObjectFolders, ocfl.StatExtension, ocfl.StatExtensionConfigs, ocfl.StatObjects, ocfl.StatObjectVersions, ocfl.StatObjectVersionState, ocfl.StatObjectManifest, ocfl.StatObjectExtension, ocfl.StatObjectExtensionConfigs}

// ReadOp performs one reading operation; the answer is only meaningful without error.
func (r *Run) ReadOp(kind, dir, id, version, area string, man bool) (answer string, err error) {
	return r.readOp(kind, dir, id, "", version, area, man)
}

func (r *Run) readOp(kind, dir, id, folder, version, area string, man bool) (answer string, err error) {
	s, err := r.LoadRO(dir)
	if err != nil {
		return "", err
	}
	defer func() {
		if s.St.zip {
			if e := writefs.Close(s.St.FS); e != nil && err == nil {
				err = e
			}
		}
	}()
	return r.readOn(s, "/dst", kind, id, folder, version, area, man)
}

// readOn does it on an opened storage root; dst is where to extract to.
func (r *Run) readOn(s *Sess, dstDir, kind, id, folder, version, area string, man bool) (answer string, err error) {
	load := func() (ocfl.Object, error) {
		if folder != "" {
			return s.Root.LoadObjectByFolder(folder)
		}
		return s.Root.LoadObjectByID(id)
	}
	switch kind {
	case "validate":
		if err := s.Root.Check(); err != nil {
			return "", err
		}
		f, err := findings(s.Ctx)
		if err != nil {
			return "", err
		}
		return sortedCodes(f), nil
	case "checkobj":
		if folder != "" {
			err = s.Root.CheckObjectByFolder(folder)
		} else {
			err = s.Root.CheckObjectByID(id)
		}
		if err != nil {
			return "", err
		}
		f, err := findings(s.Ctx)
		if err != nil {
			return "", err
		}
		return sortedCodes(f), nil
	case "stat":
		var b strings.Builder
		if err := s.Root.Stat(&b, "", "", allStat); err != nil {
			return "", err
		}
		if id != "" {
			if err := s.Root.Stat(&b, "", id, allStat); err != nil {
				return "", err
			}
		}
		return sortedLines(b.String()), nil
	case "list":
		fs, err := s.Root.GetObjectFolders()
		if err != nil {
			return "", err
		}
		ds, err := s.Root.GetFolders()
		if err != nil {
			return "", err
		}
		ff, err := s.Root.GetFiles()
		if err != nil {
			return "", err
		}
		ex, err := s.Root.ObjectExists(id)
		if err != nil {
			return "", err
		}
		sort.Strings(fs)
		sort.Strings(ds)
		sort.Strings(ff)
		return fmt.Sprintf("%v %v %v %v", fs, ds, ff, ex), nil
	case "meta":
		m, err := s.Root.ExtractMeta("", id)
		if err != nil {
			return "", err
		}
		return toJSON(m), nil
	case "metaobj", "object":
		o, err := load()
		if err != nil {
			return "", err
		}
		if kind == "object" {
			var b strings.Builder
			if err := o.Stat(&b, allStat); err != nil {
				return "", err
			}
			inv := o.GetInventory()
			return fmt.Sprintf("%s %v %s %s", o.GetID(), inv.GetVersionStrings(), inv.GetHead(), sortedLines(b.String())), nil
		}
		m, err := o.GetMetadata()
		if err != nil {
			return "", err
		}
		return toJSON(m), nil
	case "extract":
		r.W.Clear(dstDir)
		dst, err := osfsrw.NewFS(dstDir, r.Log)
		if err != nil {
			return "", err
		}
		if folder != "" {
			err = s.Root.Extract(dst, folder, "", version, man, area)
		} else {
			err = s.Root.Extract(dst, "", id, version, man, area)
		}
		if err != nil {
			return "", err
		}
		t := r.W.Tree(dstDir, true)
		var l []string
		for p, b := range t {
			if strings.HasPrefix(p, "manifest.") {
				x := strings.Split(string(b), "\n")
				sort.Strings(x)
				b = []byte(strings.Join(x, "\n"))
			}
			l = append(l, p+" "+hash8(string(b)))
		}
		sort.Strings(l)
		return strings.Join(l, "\n"), nil
	}
	return "", fmt.Errorf("unknown operation %s", kind)
}

// sortedLines is a text without the order of its lines and lists.
func sortedLines(s string) string {
	l := strings.Split(s, "\n")
	for i := range l {
		if h, t, ok := strings.Cut(l[i], "Fixity: "); ok {
			e := strings.Split(t, ", ")
			sort.Strings(e)
			l[i] = h + "Fixity: " + strings.Join(e, ", ")
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func sortedCodes(f *Findings) string {
	a := append([]string{}, f.Errors...)
	a = append(a, f.Warnings...)
	sort.Strings(a)
	return strings.Join(a, " ")
}

// treeDiff describes the difference of two trees.
func treeDiff(a, b map[string][]byte) string {
	return diffStates(treeState(a), treeState(b))
}

func sameTree(a, b map[string][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || string(v) != string(w) {
			return false
		}
	}
	return true
}

var _ = io.Discard
