package core

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"path"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
	"github.com/je4/gocfl/v2/config"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/gocfl/v2/pkg/subsystem/migration"
	configutil "github.com/je4/utils/v2/pkg/config"

	"verifsim/simexec"
	"verifsim/simos"
)

// C24: migration of files into other formats.

// migFunc is a configured migration.
type migFunc struct {
	Name     string   `json:"name"`
	Strategy string   `json:"strategy"`
	Re       string   `json:"re"`
	Repl     string   `json:"repl"`
	Pronoms  []string `json:"pronoms"`
	Timeout  int      `json:"timeout"` // seconds
}

// migRun is one execution of a program.
type migRun struct {
	fn, content, src, dst string
}

const migName = "NNNN-migration"
const autoMsg, autoUser, autoAddr = "automated version", "gocfl", "https://github.com/je4/gocfl"

func (r *Run) migFuncs() []migFunc {
	var out []migFunc
	_ = json.Unmarshal([]byte(r.C.X["mig"]), &out)
	return out
}

// pronomOf is the format the simulated program of the indexer finds: the reader of the
// indexer library swallows short contents, so that only the name can tell.
func pronomOf(name string) string {
	e := path.Ext(name)
	if path.Base(name) == "README.md" {
		return "fmt/readme"
	}
	return fmt.Sprintf("fmt/%d", int(hash32(e)%5))
}

func hash32(s string) uint32 {
	x := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		x = (x ^ uint32(s[i])) * 16777619
	}
	return x ^ x>>15
}

// fates of a conversion.
var migFates = []string{"ok", "ok", "ok", "ok", "ok", "ok", "identity", "same", "empty", "big", "slow", "fail", "partial", "nothing", "hang"}

// fate of the conversion of a content by a function: what is written, whether it succeeds.
func (r *Run) fate(fn, content string) (kind, out string, ok bool) {
	kind = "ok"
	if r.C.X["fates"] != "" {
		kind = migFates[int(hash32(r.C.X["fates"]+fn+"\x00"+content))%len(migFates)]
	}
	out = "converted by " + fn + " " + digestOf("md5", []byte(content)) + "\n"
	switch kind {
	case "identity":
		out = content
	case "same":
		out = "the same for all"
	case "empty":
		out = ""
	case "big":
		out += strings.Repeat("0123456789abcdef", 5000)
	}
	return kind, out, kind != "fail" && kind != "partial" && kind != "nothing" && kind != "hang"
}

// convert is the simulated program behind a function.
func (r *Run) convert(fn string) simexec.Program {
	return func(ctx context.Context, c *simexec.Cmd) error {
		if len(c.Args) < 3 {
			return errors.New("usage")
		}
		src, dst := c.Args[1], c.Args[2]
		b, ok := simos.W.Get(src)
		if !ok {
			r.Fail("convert", "program %s is called with %q, which does not exist", fn, src)
		}
		r.made++
		r.migRuns = append(r.migRuns, migRun{fn, string(b), src, dst})
		kind, out, good := r.fate(fn, string(b))
		r.Probe("conversion: " + kind)
		switch kind {
		case "nothing":
			return nil
		case "fail":
			return &simexec.ExitError{Code: "exit status 1"}
		case "partial":
			simos.W.Put(dst, []byte(out[:len(out)/2]))
			return &simexec.ExitError{Code: "exit status 2"}
		case "hang":
			simos.W.Put(dst, []byte(out[:len(out)/2]))
			<-ctx.Done()
			return ctx.Err()
		case "slow":
			select {
			case <-ctx.Done():
				return ctx.Err()
			case <-time.After(3 * time.Second):
			}
		}
		if !good {
			panic("fate")
		}
		simos.W.Put(dst, []byte(out))
		return nil
	}
}

// migrations is what the configuration of the software says.
func (r *Run) migrations() (*migration.Migration, error) {
	conf := &config.GOCFLConfig{Migration: &config.Migration{Enabled: true, Function: map[string]*config.MigrationFunction{}}}
	for _, f := range r.migFuncs() {
		simexec.Programs["convert-"+f.Name] = r.convert(f.Name)
		conf.Migration.Function[f.Name] = &config.MigrationFunction{ID: "id-" + f.Name, Title: f.Name, Command: "convert-" + f.Name + " {source} {destination}",
			Strategy: f.Strategy, FilenameRegexp: f.Re, FilenameReplacement: f.Repl, Timeout: configutil.Duration(time.Duration(f.Timeout) * time.Second), Pronoms: f.Pronoms}
	}
	return migration.GetMigrations(conf)
}

func (r *Run) addMigration(f *ocfl.ExtensionFactory) {
	if r.C.X["mig"] == "" {
		return
	}
	m, err := r.migrations()
	if err != nil {
		panic(&Inconclusive{err.Error()})
	}
	if r.C.X["srcfs"] != "" {
		m.SetSourceFS(&srcFS{r})
	}
	f.AddCreator(migName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewMigrationFS(x, m, r.Log) })
}

// srcFS is the source of the update in progress, which the command line tool gives to the
// extensions: a file just written into a container cannot be opened there.
type srcFS struct{ r *Run }

func (s *srcFS) Open(name string) (fs.File, error) {
	f, err := osfsrw.NewFS(s.r.srcDir, s.r.Log)
	if err != nil {
		return nil, err
	}
	return f.Open(name)
}

// genSrc decides whether the extensions know the source.
func genSrc(g *Rng, c *Case, o *Opt) {
	if o.Zip == 0 {
		if g.P(40) {
			c.X["srcfs"] = "1"
		}
		return
	}
	c.X["srcfs"] = "1"
	// what is not in the source cannot be read in a container which is still written
	if m, ok := c.Cfg.EP["NNNN-filesystem"].(map[string]any); ok {
		m["folders"] = ""
	}
}

func genMig(g *Rng, c *Case) {
	var fs []migFunc
	free := []string{"fmt/0", "fmt/1", "fmt/2", "fmt/3", "fmt/4"}
	for i, n := 0, 1+g.N(3); i < n && len(free) > 1; i++ {
		f := migFunc{Name: string(rune('p' + i)), Strategy: g.Pick("add", "replace", "folder"), Timeout: 5 + g.N(20)}
		for k := 1 + g.N(3); k > 0 && len(free) > 1; k-- {
			x := g.N(len(free))
			f.Pronoms = append(f.Pronoms, free[x])
			free = append(free[:x], free[x+1:]...)
		}
		if f.Strategy == "folder" {
			f.Re, f.Repl = `^(.+/)?([^/]+)$`, `${2}.png`
			if g.P(40) {
				f.Re, f.Repl = `^(?:.*/)?([^/.]+)[^/]*$`, `$1.mig`
			}
		} else {
			switch g.N(6) {
			case 0, 1:
				f.Re, f.Repl = `^(.*)$`, `$1.png`
			case 2, 3:
				f.Re, f.Repl = `^(.+?)(\.[^./]*)?$`, `$1.mig`
			case 4:
				f.Re, f.Repl = `^(.*)$`, `$1`
			case 5:
				f.Re, f.Repl = `^(.*/)?[^/]*$`, `${1}converted.dat`
			}
		}
		fs = append(fs, f)
	}
	c.X = map[string]string{"mig": toJSON(fs)}
	if g.P(75) {
		c.X["fates"] = fmt.Sprint(g.N(1000000))
	}
	// the extension
	c.Cfg.NoMgr = false
	if !c.Cfg.hasExt("NNNN-indexer") {
		panic("no indexer")
	}
	ix := c.Cfg.EP["NNNN-indexer"].(map[string]any)
	a := []string{"siegfried"}
	for _, x := range toStrings(ix["actions"]) {
		if x != "siegfried" {
			a = append(a, x)
		}
	}
	ix["actions"] = a
	c.Cfg.Ext = append(c.Cfg.Ext, migName)
	c.Cfg.EP[migName] = map[string]any{"storageType": g.Pick("extension", "path", "area"), "storageName": "metadata", "compress": g.Pick("none", "gzip", "brotli")}
	fixArea(&c.Cfg, migName, g)
}

func init() {
	Experiments["C24"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			o := Opt{MaxObj: 2, MaxUpd: 4, Acts: g.P(40), Ext: g.P(50), Areas: g.P(25), Links: g.P(20), Index: 100, Dedup: 50}
			if g.P(25) {
				o.Names = 1
			}
			o.AreaActs = o.Areas && g.P(50)
			if g.P(15) {
				o.Zip, o.Acts, o.AreaActs, o.Links, o.NoNest = 100, false, false, false, true
			}
			GenHist(g, c, o)
			genMig(g, c)
			genSrc(g, c, &o)
			if o.Zip == 0 && g.P(50) && len(c.Ops) > 0 {
				op := &c.Ops[g.N(len(c.Ops))]
				if op.K == "upd" {
					op.K = "fault"
					op.N = g.N(2)
					switch g.N(6) {
					case 0:
						op.Faults = []simos.Fault{genFault(g, "tmp", append(writeFaults, readFaults...), 100000)}
					case 1:
						op.Faults = []simos.Fault{genFault(g, "st", readFaults, 100000)}
					case 2, 3:
						op.Faults = []simos.Fault{genFault(g, "st", writeFaults, 100000)}
					default:
						op.Faults = []simos.Fault{genCrash(g, 100000)}
					}
				}
			}
		},
		Run: runC24,
	}
}

// migRecord is one line of the record of a version.
type migRecord struct {
	Path      string `json:"path"`
	Migration struct {
		Source string `json:"source"`
		Error  string `json:"error"`
		ID     string `json:"id"`
	} `json:"migration"`
}

func (c *Config) migRecords(v *VRoot, o *VObj, k int) ([]migRecord, bool) {
	ls, ok := c.recordLines(v, o, migName, "migration", k)
	var out []migRecord
	_ = json.Unmarshal([]byte(toJSON(ls)), &out)
	return out, ok
}

// pronoms are the formats of the contents by the records of the indexer up to version n.
func (c *Config) pronoms(v *VRoot, o *VObj, n int) map[string]string {
	byPath := map[string]string{}
	for d, ps := range o.Manifest {
		for _, p := range ps {
			byPath[p] = d
		}
	}
	out := map[string]string{}
	for k := 0; k < n; k++ {
		ls, _ := c.recordLines(v, o, "NNNN-indexer", "indexer", k)
		for _, l := range ls {
			p, _ := l["Path"].(string)
			x, _ := l["Indexer"].(map[string]any)
			if d, ok := byPath[p]; ok {
				out[d], _ = x["pronom"].(string)
			}
		}
	}
	return out
}

// migNames are the names the result of a migration gets, and the new names of the source.
func (c *Config) migNames(f *migFunc, srcs []string, head string, migrated bool) (dst []string, ren map[string]string) {
	re := regexp.MustCompile(f.Re)
	ren = map[string]string{}
	seen := map[string]bool{}
	for _, s := range srcs {
		d := re.ReplaceAllString(s, f.Repl)
		if f.Strategy == "folder" {
			if migrated {
				// the prefix of an earlier migration is replaced
				rest := path.Base(s)
				if _, x, ok := strings.Cut(rest, "."); ok && x != "" && rest[0] != '.' {
					rest = x
				}
				d = path.Join(path.Dir(s), head+"."+rest)
			} else {
				d = path.Join(s, head+"."+d)
			}
		}
		if !seen[d] {
			seen[d] = true
			dst = append(dst, d)
		}
	}
	for _, s := range srcs {
		switch {
		case seen[s]:
		case f.Strategy == "replace":
			ren[s] = ""
		case f.Strategy == "folder" && !migrated:
			ren[s] = path.Join(s, path.Base(s))
		}
	}
	return
}

// judgeMig looks at what an update of object id has stored; the model has the versions
// up to the user's one.
// With faults a migration may have failed for other reasons, if it is recorded so.
func (h *Hist) judgeMig(id string, before int, loose bool) {
	r := h.r
	c := &r.C.Cfg
	v := h.Read()
	m := h.Model[id]
	o := v.Objs[id]
	fail := func(class, f string, a ...any) { r.Fail(class, "%q: %s", id, fmt.Sprintf(f, a...)) }
	if len(m.Vers) == before {
		if o != nil && o.N != before {
			fail("version", "%d versions instead of %d", o.N, before)
		}
		if len(r.migRuns) > 0 {
			fail("convert", "program %s ran though there is no new version", r.migRuns[0].fn)
		}
		return
	}
	k := before // index of the user's version
	user := m.Vers[k]
	if o == nil || o.N <= k {
		fail("version", "the version of the user is missing")
	}
	if c.Zip && len(o.Problems) > 0 && strings.HasSuffix(o.Problems[0], "is in no state") {
		// two results of the same name: nothing can be taken out of a container
		panic(&Inconclusive{"replaced content in the container"})
	}
	if len(o.Problems) > 0 && len(h.hard(o)) > 0 {
		fail("format", "%s", h.hard(o)[0])
	}
	// what is to be done
	if h.tried == nil {
		h.tried, h.output = map[string]bool{}, map[string]bool{}
	}
	type job struct {
		f        *migFunc
		d        string
		names    []string
		dst      []string
		ren      map[string]string
		out      string
		ok       bool
		migrated bool
		amb      bool // named as a first or a further result
	}
	funcs := r.migFuncs()
	pro := c.pronoms(v, o, k+1)
	jobs := map[string]*job{}
	for d, p := range pro {
		if h.tried[id+"\x00"+d] {
			continue
		}
		var f *migFunc
		for i := range funcs {
			if contains(funcs[i].Pronoms, p) {
				f = &funcs[i]
			}
		}
		if f == nil {
			continue
		}
		var names []string
		for n, x := range o.Vers[k].Digests {
			if x == d && (len(c.Areas) == 0 || strings.HasPrefix(n, c.Areas[c.defArea()]+"/")) {
				names = append(names, n)
			}
		}
		if len(names) == 0 {
			continue
		}
		sort.Strings(names)
		j := &job{f: f, d: d, names: names, migrated: h.output[id+"\x00"+d]}
		j.dst, j.ren = c.migNames(f, names, h.vname(id, k+2), j.migrated)
		recorded := false
		for y := 0; y < k; y++ {
			ls, _ := c.migRecords(v, o, y)
			for _, l := range ls {
				recorded = recorded || contains(o.Manifest[d], l.Path)
			}
		}
		if j.migrated && !recorded && len(o.Vers) > k+1 {
			j.amb = true
			// the record of the result may be of another one of the same name by now
			alt, ren := c.migNames(f, names, h.vname(id, k+2), false)
			all := true
			for _, n := range alt {
				_, ok := o.Vers[k+1].State[n]
				all = all && ok
			}
			if all {
				j.dst, j.ren = alt, ren
				r.Probe("migrated again by first name")
			}
		}
		_, j.out, j.ok = r.fate(f.Name, o.Content[o.Manifest[d][0]])
		jobs[d] = j
	}
	if len(jobs) == 0 {
		if o.N != k+1 {
			fail("version", "nothing is to be migrated, but there is version %d", o.N)
		}
		if len(r.migRuns) > 0 {
			fail("convert", "program %s ran though nothing is to be migrated", r.migRuns[0].fn)
		}
		return
	}
	if o.N != k+2 {
		fail("version", "there are %d versions; %d contents are to be migrated in version %d", o.N, len(jobs), k+2)
	}
	x := o.Vers[k+1]
	// the programs
	ran := map[string]int{}
	for _, y := range r.migRuns {
		d := digestOf(o.Alg, []byte(y.content))
		j := jobs[d]
		if j == nil {
			fail("convert", "program %s ran for content %s, which is not to be migrated", y.fn, d)
		}
		if y.fn != j.f.Name {
			fail("convert", "program %s ran for %q instead of %s", y.fn, j.names, j.f.Name)
		}
		if w := path.Ext(j.dst[0]); len(j.dst) == 1 && !j.amb && !strings.HasSuffix(y.dst, w) {
			fail("convert", "the program is to make %q for %q", path.Base(y.dst), j.dst[0])
		}
		ran[d]++
	}
	// the records
	byPath := map[string]string{}
	for d, ps := range o.Manifest {
		for _, p := range ps {
			byPath[p] = d
		}
	}
	recs, ok := c.migRecords(v, o, k+1)
	if !ok && !loose {
		fail("record", "there is no record of the migration in %s", x.Dir)
	}
	got := map[string]*migRecord{}
	for i := range recs {
		d := byPath[recs[i].Migration.Source]
		if jobs[d] == nil {
			fail("record", "%s records the migration of %q, which was not to be migrated", x.Dir, recs[i].Migration.Source)
		}
		if got[d] != nil {
			fail("record", "%s records the migration of %q twice", x.Dir, recs[i].Migration.Source)
		}
		got[d] = &recs[i]
	}
	want := user.State.clone()
	alts := map[string]map[string]bool{} // results of several migrations with the same name
	var ds []string
	for d := range jobs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		j, l := jobs[d], got[d]
		if ran[d] != 1 && !(loose && ran[d] == 0) {
			fail("convert", "the program for %q ran %d times", j.names, ran[d])
		}
		if l == nil && loose && ran[d] == 0 {
			// the content could not be opened: another time
			r.Probe("migration put off")
			j.ok = false
			continue
		}
		if l == nil {
			fail("record", "%s has no record of the migration of %q", x.Dir, j.names)
		}
		if l.Migration.ID != "id-"+j.f.Name {
			fail("record", "the migration of %q is recorded as one by %q", j.names, l.Migration.ID)
		}
		if loose && j.ok && l.Migration.Error != "" {
			r.Probe("migration failed by a fault")
			j.ok = false
		}
		if (l.Migration.Error == "") != j.ok {
			fail("record", "the migration of %q (success: %v) is recorded with error %q", j.names, j.ok, l.Migration.Error)
		}
		h.tried[id+"\x00"+d] = true
		if !j.ok {
			continue
		}
		r.Probe("migrated: " + j.f.Strategy)
		if j.migrated {
			r.Probe("migrated again")
		}
		od := digestOf(o.Alg, []byte(j.out))
		h.output[id+"\x00"+od] = true
		for s := range j.ren {
			delete(want, s)
		}
	}
	for _, d := range ds {
		j := jobs[d]
		if !j.ok {
			continue
		}
		for s, t := range j.ren {
			if t != "" {
				want[t] = user.State[s]
			}
		}
	}
	for _, d := range ds {
		j := jobs[d]
		if !j.ok {
			continue
		}
		for _, n := range j.dst {
			if alts[n] == nil {
				alts[n] = map[string]bool{}
			}
			alts[n][j.out] = true
			want[n] = j.out
		}
	}
	for _, d := range ds {
		for n := range jobs[d].ren {
			// the name of a source is that of another one's result, with the same content
			if _, ok := x.State[n]; !ok && jobs[d].ok && alts[n][user.State[n]] {
				delete(want, n)
			}
		}
	}
	for n, a := range alts {
		if len(a) > 1 {
			r.Probe("migrations with the same name")
			if a[x.State[n]] {
				want[n] = x.State[n]
			}
		}
	}
	if d := h.sameState(want, x.State); d != "" {
		fail("state", "%s after migration: %s", x.Dir, d)
	}
	if x.Msg != autoMsg || x.User != autoUser || x.Addr != autoAddr {
		fail("version", "%s is by %q %q: %q", x.Dir, x.User, x.Addr, x.Msg)
	}
	m.Vers = append(m.Vers, &VerModel{State: want, Msg: autoMsg, User: autoUser, Addr: autoAddr, At: x.Time})
	r.Probe("automated version")
	if len(ds) > 1 {
		r.Probe("several migrations")
	}
}

// checkMigMeta: the metadata tells where the results come from.
func (h *Hist) checkMigMeta() {
	r := h.r
	c := &r.C.Cfg
	v := h.Read()
	for _, id := range r.C.IDs {
		o := v.Objs[id]
		if o == nil {
			continue
		}
		var m *ocfl.ObjectMetadata
		r.Ok("metadata", "failed", func() error {
			s, err := r.LoadRO(h.dir)
			if err != nil {
				return err
			}
			defer s.St.Close()
			ob, err := s.Root.LoadObjectByID(id)
			if err != nil {
				return err
			}
			m, err = ob.GetMetadata()
			return err
		})
		for k := range o.Vers {
			recs, _ := c.migRecords(v, o, k)
			for _, l := range recs {
				var d string
				for x, ps := range o.Manifest {
					if l.Migration.Error == "" && contains(ps, l.Path) || l.Migration.Error != "" && contains(ps, l.Migration.Source) {
						d = x
					}
				}
				f := m.Files[d]
				if d == "" {
					r.Probe("result replaced by another one")
					continue
				}
				if f == nil {
					r.Fail("metadata", "%q: nothing about the result %q of a migration in v%d", id, l.Path, k+1)
				}
				if f.Extension[migName] == nil {
					r.Fail("metadata", "%q: %q has no record of its migration in v%d", id, l.Path, k+1)
				}
				r.Probe("metadata of a migration")
			}
		}
	}
}

// inFile finds a file which is also a folder.
func inFile(s State) string {
	for p := range s {
		for d := path.Dir(p); d != "."; d = path.Dir(d) {
			if _, ok := s[d]; ok {
				return p
			}
		}
	}
	return ""
}

// migUpdate performs an update. Migration into a folder makes one of a file: the file
// cannot be stored again, which has to be refused.
func (h *Hist) migUpdate(op *Op) bool {
	r := h.r
	id := r.C.IDs[op.Obj]
	h.mount(op)
	p := inFile(r.C.Cfg.Apply(h.obj(id).head(), op))
	if p == "" {
		h.Update(op)
		return true
	}
	before, saved := h.snapshotFiles(), r.W.Save("/st")
	o := r.Do(fmt.Sprintf("update of %s with a file in a file", id), nil, func() error { return h.DoUpdate(op) })
	r.MustEnd("update", o)
	if o.Err == nil {
		r.Fail("version", "update of %q with %q, which is in a file, was made", id, p)
	}
	h.Reopen2()
	v, w := ReadRoot(before), h.Read()
	if a, b := v.Objs[id], w.Objs[id]; (a == nil) != (b == nil) || a != nil && a.N != b.N {
		r.Fail("version", "the refused update of %q has changed it", id)
	}
	r.Probe("refused: file in a file")
	r.W.Restore("/st", saved)
	h.Reopen2()
	return false
}

// faultyMig performs an update with faults. It tells whether to go on.
func (h *Hist) faultyMig(op *Op) bool {
	r := h.r
	id := r.C.IDs[op.Obj]
	h.mount(op)
	m := h.obj(id)
	if inFile(r.C.Cfg.Apply(m.head(), op)) != "" {
		return true
	}
	good := *op
	good.Faults = nil
	count, _, ok := h.dry(op, func() error { return h.DoUpdate(&good) })
	if !ok {
		panic(&Inconclusive{"update fails without faults"})
	}
	r.migRuns = nil
	r.W.Settle()
	rootInv := func() string {
		f := h.snapshotFiles()
		o := ReadRoot(f).Objs[id]
		if o == nil {
			return ""
		}
		return string(f[o.Dir+"/inventory.json"]) + string(f[o.Dir+"/inventory.json."+o.Alg])
	}
	before, n := rootInv(), len(m.Vers)
	l := h.NewLedger()
	l.Note()
	o := r.Do("faulty update", aimAll(op.Faults, count), func() error { return h.DoUpdate(op) })
	r.MustEnd("update", o)
	h.Reopen2()
	if o.Fired > 0 {
		r.Probe("faulty update")
	}
	if o.Err == nil && !o.Crash {
		if o.Fired > 0 {
			r.Probe("success with faults")
		}
		for f, n := range r.W.Fired {
			if n > 0 && (strings.Contains(f, "remove") || strings.Contains(f, "stat")) {
				r.W.Clear("/tmp")
			}
		}
		if l := r.W.List("/tmp"); len(l) > 0 {
			r.Fail("leftover", "temporary files are left: %q", l)
		}
		h.Commit(&good)
		h.judgeMig(id, n, o.Fired > 0)
		h.CheckFormat(true)
		return true
	}
	r.W.Clear("/tmp")
	l.Check("failed update")
	if rootInv() != before {
		r.Probe("failed, inventory replaced")
		return false
	}
	if n == 0 {
		r.Probe("failed at the first version")
		return false
	}
	r.Probe("failed before the inventory")
	r.migRuns = nil
	if op.N == 1 {
		h.Update(&good)
		h.judgeMig(id, n, false)
		h.CheckFormat(true)
		h.CheckValid("after the failed update was repeated")
	}
	// the folders of the failed update are in the way of the checks
	op2 := Op{K: "upd", Obj: op.Obj, Acts: []Act{{A: "data", P: "after/fault.txt", C: "Z.77"}}, Msg: "after fault", User: "u", Addr: "mailto:u@example.org"}
	n = len(m.Vers)
	r.migRuns = nil
	h.Update(&op2)
	h.judgeMig(id, n, false)
	h.CheckFormat(true)
	h.CheckValid("of the update after the failed one")
	return true
}

func runC24(r *Run) {
	h := r.NewHist()
	h.MustCreate()
	for i := range r.C.Ops {
		op := &r.C.Ops[i]
		switch op.K {
		case "upd":
			id := r.C.IDs[op.Obj]
			before := len(h.obj(id).Vers)
			r.migRuns = nil
			if !h.migUpdate(op) {
				continue
			}
			h.judgeMig(id, before, false)
			h.CheckFormat(true)
			if l := r.W.List("/tmp"); len(l) > 0 {
				r.Fail("leftover", "temporary files are left: %q", l)
			}
		case "fault":
			h.Reopen()
			if !h.faultyMig(op) {
				return
			}
		case "reopen":
			h.Reopen()
		}
	}
	h.Reopen()
	h.CheckValid("at the end")
	h.checkMigMeta()
	h.CheckExtract()
	h.note()
	r.NonTriv = r.made > 0
}
