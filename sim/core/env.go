package core

import (
	"context"
	"crypto/rand"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	mrand "math/rand"
	"os"
	"path"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"testing/fstest"
	"time"

	"github.com/google/uuid"
	"github.com/je4/filesystem/v3/pkg/osfsrw"
	"github.com/je4/filesystem/v3/pkg/writefs"
	"github.com/je4/filesystem/v3/pkg/zipfsrw"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/utils/v2/pkg/checksum"
	"github.com/je4/utils/v2/pkg/zLogger"
	"github.com/rs/zerolog"

	"verifsim/simos"
	"verifsim/simrt"
)

// Violation ends a case.
type Violation struct {
	Msg   string
	Class string
}

// Inconclusive ends a case whose preparation did not lead anywhere.
type Inconclusive struct{ Msg string }

// Run is the state of one executing case.
type Run struct {
	C     *Case
	W     *simos.World
	Log   zLogger.ZLogger
	Trace []string
	// measures
	Ops       int
	Probes    map[string]int
	SimTime   int64
	Note      string
	NonTriv   bool
	opName    string
	timedOut  bool
	streams   []*StreamRec
	migRuns   []migRun
	thumbRuns []thumbRun
	made      int              // results of programs
	srcDir    string           // source of the update
	metaSrc   string           // how the source of metadata is given
	inj       []ocfl.Extension // extensions of the harness added to every manager
	noHook    bool
	tidy      bool // operations must leave nothing open
}

// Fail reports a violation of the property.
func (r *Run) Fail(class, f string, a ...any) {
	panic(&Violation{Class: class, Msg: fmt.Sprintf(f, a...)})
}

// Probe counts a condition reached.
func (r *Run) Probe(s string) { r.Probes[s]++ }

// T adds to the event log, which must be the same in every execution.
func (r *Run) T(f string, a ...any) { r.Trace = append(r.Trace, fmt.Sprintf(f, a...)) }

type detRand struct{ r *Rng }

func (d *detRand) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(d.r.U64())
	}
	return len(p), nil
}

// Outcome of one operation run under the simulator.
type Outcome struct {
	Err   error
	Hang  bool
	Crash bool // the simulated process was stopped by the fault plan
	Panic string
	Stack string
	Leak  int
	Fired int
}

func (o *Outcome) Bad() bool { return o.Hang || o.Panic != "" }

func (o *Outcome) String() string {
	switch {
	case o.Panic != "":
		return "panic: " + o.Panic
	case o.Hang:
		return "hang"
	case o.Crash:
		return "crash"
	case o.Err != nil:
		return "error: " + errStr(o.Err)
	}
	return "ok"
}

func errStr(err error) string {
	if err == nil {
		return "nil"
	}
	s := err.Error()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return strings.ReplaceAll(s, "\n", " ")
}

const opBudget = 4_000_000

// hour of virtual time after which a blocked operation counts as hanging: it only
// passes when every goroutine is blocked.
const hangAfter = 24 * 365 * time.Hour

// Do runs fn as the simulated process, with the given faults armed.
func (r *Run) Do(name string, faults []simos.Fault, fn func() error) *Outcome {
	r.Ops++
	r.opName = name
	out := &Outcome{}
	base := runtime.NumGoroutine()
	var before map[string]bool
	if r.tidy {
		before = r.left()
	}
	r.W.Arm(faults)
	simrt.Budget(opBudget)
	done := make(chan struct{})
	crash := r.W.CrashCh
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				out.Panic = fmt.Sprint(p)
				out.Stack = string(debug.Stack())
			}
		}()
		out.Err = fn()
	}()
	t := time.NewTimer(hangAfter)
	select {
	case <-done:
	case <-crash:
		out.Crash = true
	case <-t.C:
		out.Hang = true
		out.Stack = stacks()
	}
	t.Stop()
	// let everything that can still run come to rest
	time.Sleep(time.Nanosecond)
	if out.Crash {
		time.Sleep(time.Hour)
		out.Err = nil
	} else if !out.Hang {
		n := runtime.NumGoroutine()
		if n > base {
			// timers and finishing goroutines
			time.Sleep(time.Second)
			n = runtime.NumGoroutine()
		}
		if n > base {
			out.Leak = n - base
			out.Stack = stacks()
		}
	}
	out.Fired = r.W.Disarm()
	r.T("%s: %s leak=%d", name, out, out.Leak)
	if r.tidy {
		r.checkTidy(name, before, out)
	}
	return out
}

// Ok runs fn without faults; anything but success is a violation of class.
func (r *Run) Ok(name, class string, fn func() error) {
	o := r.Do(name, nil, fn)
	r.MustEnd(name, o)
	if o.Err != nil {
		if m := o.Err.Error(); r.C.X["mig"] != "" && strings.Contains(m, "DoNewVersion()") && strings.HasSuffix(m, ": not a directory") {
			// one result is called like the folder of another one: there is no such version
			panic(&Inconclusive{"names of migration results exclude each other"})
		}
		r.Fail(class, "%s failed without any fault: %s", name, errStr(o.Err))
	}
}

// MustEnd reports hangs and panics.
func (r *Run) MustEnd(name string, o *Outcome) {
	if o.Panic != "" {
		r.Fail("panic", "%s terminated the program: %s\n%s", name, o.Panic, trimStack(o.Stack))
	}
	if o.Hang {
		r.Fail("hang", "%s never returns\n%s", name, trimStack(o.Stack))
	}
}

func stacks() string {
	b := make([]byte, 1<<18)
	return string(b[:runtime.Stack(b, true)])
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "verifsim/core") || strings.HasPrefix(l, "runtime.") || strings.Contains(l, "/src/runtime/") {
			continue
		}
		out = append(out, l)
		if len(out) > 60 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func newLogger() zLogger.ZLogger {
	l := zerolog.New(io.Discard).Level(zerolog.Disabled)
	var z zLogger.ZLogger = &l
	return z
}

// ---- extension factory ----

func (r *Run) factory(params map[string]string) *ocfl.ExtensionFactory {
	if params == nil {
		params = map[string]string{}
	}
	for k, v := range r.extParams() {
		if _, ok := params[k]; !ok {
			params[k] = v
		}
	}
	f, err := ocfl.NewExtensionFactory(params, r.Log)
	if err != nil {
		panic(err)
	}
	add := func(name string, c func(fs.FS) (ocfl.Extension, error)) { f.AddCreator(name, c) }
	add(extension.InitialName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewInitialFS(x) })
	add(extension.GOCFLExtensionManagerName, func(x fs.FS) (ocfl.Extension, error) {
		m, err := extension.NewGOCFLExtensionManagerFS(x)
		if err != nil {
			return nil, err
		}
		for _, e := range r.inj {
			if err := m.Add(e); err != nil {
				return nil, err
			}
		}
		return m, nil
	})
	add(extension.DigestAlgorithmsName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewDigestAlgorithmsFS(x) })
	add(extension.StorageLayoutFlatDirectName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewStorageLayoutFlatDirectFS(x) })
	add(extension.StorageLayoutHashAndIdNTupleName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewStorageLayoutHashAndIdNTupleFS(x) })
	add(extension.StorageLayoutHashedNTupleName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewStorageLayoutHashedNTupleFS(x) })
	add(extension.FlatOmitPrefixStorageLayoutName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewFlatOmitPrefixStorageLayoutFS(x) })
	add(extension.NTupleOmitPrefixStorageLayoutName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewNTupleOmitPrefixStorageLayoutFS(x) })
	add(extension.DirectCleanName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewDirectCleanFS(x) })
	add(extension.PathDirectName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewPathDirectFS(x) })
	add(extension.StorageLayoutPairTreeName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewStorageLayoutPairTreeFS(x) })
	add(extension.ContentSubPathName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewContentSubPathFS(x) })
	add(extension.MetaFileName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewMetaFileFS(x) })
	add(extension.FilesystemName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewFilesystemFS(x, r.Log) })
	r.addMore(f)
	return f
}

// layouts maps a short name to the extension and its parameters.
func (c *Config) layoutName() string {
	switch c.Layout {
	case "flat":
		return extension.StorageLayoutFlatDirectName
	case "0003":
		return extension.StorageLayoutHashAndIdNTupleName
	case "0004":
		return extension.StorageLayoutHashedNTupleName
	case "0006":
		return extension.FlatOmitPrefixStorageLayoutName
	case "0007":
		return extension.NTupleOmitPrefixStorageLayoutName
	case "clean":
		return extension.DirectCleanName
	case "direct":
		return extension.PathDirectName
	case "pairtree":
		return extension.StorageLayoutPairTreeName
	}
	panic("layout " + c.Layout)
}

func conf(m map[string]any) *fstest.MapFile {
	b, err := json.MarshalIndent(m, "", " ")
	if err != nil {
		panic(err)
	}
	return &fstest.MapFile{Data: b, Mode: 0644}
}

func withName(name string, p any) map[string]any {
	m := map[string]any{"extensionName": name}
	if mm, ok := p.(map[string]any); ok {
		for k, v := range mm {
			m[k] = v
		}
	}
	return m
}

func (r *Run) rootExtFS() fs.FS {
	m := fstest.MapFS{}
	c := &r.C.Cfg
	mgr := map[string]any{}
	if !c.NoMgr {
		mgr = map[string]any{
			"sort":      map[string]any{"StorageRootPath": []string{extension.DirectCleanName}},
			"exclusion": map[string]any{"StorageRootPath": [][]string{{extension.DirectCleanName, extension.StorageLayoutHashAndIdNTupleName, extension.StorageLayoutHashedNTupleName, extension.StorageLayoutFlatDirectName, extension.FlatOmitPrefixStorageLayoutName, extension.StorageLayoutPairTreeName, extension.PathDirectName}}},
		}
	}
	m["initial/config.json"] = conf(withName(extension.InitialName, map[string]any{"extension": extension.GOCFLExtensionManagerName}))
	m[extension.GOCFLExtensionManagerName+"/config.json"] = conf(withName(extension.GOCFLExtensionManagerName, mgr))
	m[c.layoutName()+"/config.json"] = conf(withName(c.layoutName(), c.LP))
	return m
}

func (r *Run) objExtFS() fs.FS {
	m := fstest.MapFS{}
	c := &r.C.Cfg
	mgr := map[string]any{}
	if !c.NoMgr {
		change := []string{"NNNN-indexer", extension.MetaFileName}
		if c.hasExt(extension.METSName) {
			change = append(change, extension.FilesystemName, extension.MigrationName, thumbName, extension.METSName)
		}
		mgr = map[string]any{
			"sort": map[string]any{
				"ObjectContentPath": []string{extension.DirectCleanName, extension.ContentSubPathName},
				"ObjectChange":      change,
			},
			"exclusion": map[string]any{"ObjectContentPath": [][]string{{extension.DirectCleanName, extension.PathDirectName}}},
		}
	}
	m["initial/config.json"] = conf(withName(extension.InitialName, map[string]any{"extension": extension.GOCFLExtensionManagerName}))
	m[extension.GOCFLExtensionManagerName+"/config.json"] = conf(withName(extension.GOCFLExtensionManagerName, mgr))
	for _, e := range c.Ext {
		p, _ := c.EP[e].(map[string]any)
		m[e+"/config.json"] = conf(withName(e, p))
		if e == extension.MetaFileName {
			m[e+"/"+metaSchemaName] = &fstest.MapFile{Data: []byte(metaSchema), Mode: 0644}
		}
	}
	return m
}

const metaSchemaName = "info-schema.json"
const metaSchema = `{"$schema":"https://json-schema.org/draft/2020-12/schema","type":"object","properties":{"title":{"type":"string"}},"required":["title"]}`

// ---- storage ----

// Store is an opened storage location.
type Store struct {
	r    *Run
	FS   fs.FS
	base fs.FS
	zip  bool
	dir  string
}

// OpenStore opens the location of the storage root.
func (r *Run) OpenStore(dir string) (*Store, error) {
	base, err := osfsrw.NewFS(dir, r.Log)
	if err != nil {
		return nil, err
	}
	s := &Store{r: r, base: base, FS: base, dir: dir}
	if r.C.Cfg.Zip {
		z, err := zipfsrw.NewFSFile(base, "archive.zip", r.C.Cfg.Store, r.Log)
		if err != nil {
			return nil, err
		}
		s.FS, s.zip = z, true
	}
	return s, nil
}

func (s *Store) Close() error {
	if !s.zip {
		return nil
	}
	return writefs.Close(s.FS)
}

// Sess is an opened storage root.
type Sess struct {
	St   *Store
	Root ocfl.StorageRoot
	Ctx  context.Context
	F    *ocfl.ExtensionFactory
}

func (r *Run) newCtx() context.Context { return ocfl.NewContextValidation(context.TODO()) }

// Create makes a storage root.
func (r *Run) Create(dir string) (*Sess, error) {
	st, err := r.OpenStore(dir)
	if err != nil {
		return nil, err
	}
	f := r.factory(nil)
	mgr, err := f.LoadExtensions(r.rootExtFS(), nil)
	if err != nil {
		return nil, err
	}
	ctx := r.newCtx()
	root, err := ocfl.CreateStorageRoot(ctx, st.FS, ocfl.OCFLVersion(r.C.Cfg.Version), f, mgr, checksum.DigestAlgorithm(r.C.Cfg.Digest), r.Log)
	if err != nil {
		return nil, err
	}
	return &Sess{St: st, Root: root, Ctx: ctx, F: f}, nil
}

// Load opens an existing storage root.
func (r *Run) Load(dir string) (*Sess, error) {
	st, err := r.OpenStore(dir)
	if err != nil {
		return nil, err
	}
	f := r.factory(nil)
	ctx := r.newCtx()
	root, err := ocfl.LoadStorageRoot(ctx, st.FS, f, r.Log)
	if err != nil {
		return nil, err
	}
	// as the command line tool does after loading
	if root.GetDigest() == "" {
		root.SetDigest(checksum.DigestAlgorithm(r.C.Cfg.Digest))
	}
	return &Sess{St: st, Root: root, Ctx: ctx, F: f}, nil
}

func (s *Sess) Close() error { return s.St.Close() }

// Findings are the results of a validation.
type Findings struct {
	Errors   []string
	Warnings []string
	Full     []string
}

func (f *Findings) String() string {
	return fmt.Sprintf("errors %v warnings %v", f.Errors, f.Warnings)
}

func findings(ctx context.Context) (*Findings, error) {
	st, err := ocfl.GetValidationStatus(ctx)
	if err != nil {
		return nil, err
	}
	f := &Findings{}
	for _, e := range st.Errors {
		f.Full = append(f.Full, e.Error())
		if len(e.Code) > 0 && e.Code[0] == 'W' {
			f.Warnings = append(f.Warnings, string(e.Code))
		} else {
			f.Errors = append(f.Errors, string(e.Code))
		}
	}
	return f, nil
}

// Validate opens the storage root like the command line tool and checks it.
// A returned error is a failure to validate (which is a report of damage, too).
func (r *Run) Validate(dir string) (*Findings, error) {
	s, err := r.Load(dir)
	if err != nil {
		return nil, err
	}
	err = s.Root.Check()
	f, err2 := findings(s.Ctx)
	if err == nil {
		err = err2
	}
	if s.St.zip {
		if e := s.Close(); e != nil && err == nil {
			err = e
		}
	}
	return f, err
}

func (r *Run) objMgr(s *Sess) (ocfl.ExtensionManager, error) {
	return s.F.LoadExtensions(r.objExtFS(), nil)
}

func algs(names []string) []checksum.DigestAlgorithm {
	a := []checksum.DigestAlgorithm{}
	for _, n := range names {
		a = append(a, checksum.DigestAlgorithm(n))
	}
	return a
}

// OpenObj loads an object or creates it.
func (r *Run) OpenObj(s *Sess, id string) (ocfl.Object, bool, error) {
	ex, err := s.Root.ObjectExists(id)
	if err != nil {
		return nil, false, err
	}
	if ex {
		o, err := s.Root.LoadObjectByID(id)
		return o, true, err
	}
	m, err := r.objMgr(s)
	if err != nil {
		return nil, false, err
	}
	o, err := s.Root.CreateObject(id, s.Root.GetVersion(), s.Root.GetDigest(), algs(r.C.Cfg.Fixity), m)
	return o, false, err
}

var capture *os.File

// quiet suppresses what the code under test prints (progress lines).
func init() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		capture = f
	}
}

// ---- execution of a case ----

// Result of a case.
type Result struct {
	Seed    uint64         `json:"seed"`
	V       string         `json:"v,omitempty"`
	Class   string         `json:"class,omitempty"`
	Incon   string         `json:"incon,omitempty"`
	Ops     int            `json:"ops"`
	Steps   uint64         `json:"steps"`
	Yields  uint64         `json:"yields"`
	Picks   uint64         `json:"picks"`
	Sched   uint64         `json:"sched"`
	MaxRun  uint32         `json:"maxrun"`
	Hash    string         `json:"hash"`
	Fired   map[string]int `json:"fired,omitempty"`
	Probes  map[string]int `json:"probes,omitempty"`
	SimNS   int64          `json:"simns"`
	Dirty   bool           `json:"dirty,omitempty"` // goroutines were left behind: start a new process
	NonTriv bool           `json:"nt,omitempty"`
	Sample  string         `json:"sample,omitempty"`
	Trace   []string       `json:"trace,omitempty"`
}

// Exec runs a case. fn is the experiment of the property.
func Exec(c *Case, keepTrace bool) *Result {
	res := &Result{Seed: c.Seed}
	runtime.GC()
	// the collector's goroutines must be at rest
	time.Sleep(time.Hour)
	runtime.SimLogging = keepTrace
	runtime.SimStart(c.Sched.Seed, c.Sched.Mode)
	runtime.SimSetWall(1_700_000_000_000_000_000)
	// the database library seeds the common source, which makes it ignore the runtime's
	mrand.Seed(int64(c.Sched.Seed))
	rand.Reader = &detRand{NewRng(c.Sched.Seed ^ 77)}
	uuid.SetRand(rand.Reader)
	r := &Run{C: c, W: simos.NewWorld(), Log: newLogger(), Probes: map[string]int{}}
	simos.W = r.W
	r.W.Boot()
	r.W.ShortReads = c.Sched.Short
	simrt.Start(c.Sched.Seed^0x51, c.Sched.Yield, opBudget)
	base := runtime.NumGoroutine()
	t0 := runtime.SimMono()
	func() {
		defer func() {
			if p := recover(); p != nil {
				switch v := p.(type) {
				case *Violation:
					res.V, res.Class = v.Msg, v.Class
				case *Inconclusive:
					res.Incon = v.Msg
				default:
					if strings.Contains(string(debug.Stack()), "/repo/") {
						panic(p)
					}
					res.Incon = fmt.Sprintf("harness: %v", p) // a mistake of the harness is not one of the code
				}
			}
		}()
		e, ok := Experiments[c.Prop]
		if !ok {
			panic("no experiment for " + c.Prop)
		}
		e.Run(r)
	}()
	res.Steps, res.Yields = simrt.Stats()
	simrt.Stop()
	runtime.SimStop()
	res.Picks, res.Sched, res.MaxRun = runtime.SimStats()
	res.Ops = r.Ops
	res.Fired, res.Probes = r.W.Fired, r.Probes
	res.SimNS = runtime.SimMono() - t0
	res.Dirty = runtime.NumGoroutine() > base
	res.NonTriv = r.NonTriv
	res.Sample = r.Note
	r.T("end %s %d %d %x", res.Class, res.Steps, res.Picks, res.Sched)
	res.Hash = hash8(pointers.ReplaceAllString(strings.Join(r.Trace, "\n"), "0x"))
	if keepTrace {
		for _, l := range runtime.SimLog() {
			r.T("%v", l)
		}
		res.Trace = r.Trace
	}
	return res
}

// Experiment of one property.
type Experiment struct {
	Gen func(r *Rng, c *Case, n uint64)
	Run func(r *Run)
}

// Experiments by property.
// Tier is quick or thorough.
var Tier = "quick"

var Experiments = map[string]*Experiment{}

// GenCase derives the case of a seed.
func GenCase(prop string, seed uint64) *Case {
	e := Experiments[prop]
	h := uint64(14695981039346656037)
	for _, b := range []byte(prop) {
		h = (h ^ uint64(b)) * 1099511628211
	}
	rng := NewRng(seed*0x9e3779b97f4a7c15 + h)
	c := &Case{Prop: prop, Seed: seed}
	genSched(rng, c)
	e.Gen(rng, c, seed)
	return c
}

func genSched(g *Rng, c *Case) {
	c.Sched.Seed = g.U64() >> 12
	c.Sched.Mode = uint32(g.N(4))
	c.Sched.Yield = []uint32{0, 2, 3, 7, 20, 100}[g.N(6)]
	if g.P(30) {
		c.Sched.Short = g.U64() >> 12
	}
}

func join(a ...string) string { return path.Join(a...) }

var pointers = regexp.MustCompile(`0x[0-9a-f]{6,}`)
