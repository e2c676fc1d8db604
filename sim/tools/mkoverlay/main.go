// mkoverlay writes the build overlay of the simulator:
//
//   - a patched copy of the Go runtime in which one seeded generator decides
//     which goroutine runs next, every map order and every random number, and in
//     which time is virtual (build tag faketime);
//   - copies of the code under test (from /repo's working tree) and of the
//     directory storage adapter in which the operating system is replaced by the
//     simulated one and every statement is a possible preemption point.
//
// Nothing is written outside the output directory.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "mkoverlay: "+f+"\n", a...)
	os.Exit(3)
}

var overlay = map[string]string{}
var outDir string
var nOut int

func put(orig string, content []byte) {
	nOut++
	dst := filepath.Join(outDir, fmt.Sprintf("%04d_%s", nOut, filepath.Base(orig)))
	if err := os.WriteFile(dst, content, 0644); err != nil {
		die("%v", err)
	}
	overlay[orig] = dst
}

type repl struct{ old, new string }

func patch(file string, rs ...repl) {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	s := string(b)
	for _, r := range rs {
		if strings.Count(s, r.old) != 1 {
			die("%s: %d matches of %q", file, strings.Count(s, r.old), r.old)
		}
		s = strings.Replace(s, r.old, r.new, 1)
	}
	put(file, []byte(s))
}

func patchRuntime(goroot string) {
	rt := filepath.Join(goroot, "src", "runtime")
	patch(filepath.Join(rt, "proc.go"), repl{`const haveSysmon = GOARCH != "wasm"`, `const haveSysmon = false`},
		repl{`	dropg()
	lock(&sched.lock)
	globrunqput(gp)
	unlock(&sched.lock)
`, `	dropg()
	if simSt.on {
		runqput(getg().m.p.ptr(), gp, false)
	} else {
		lock(&sched.lock)
		globrunqput(gp)
		unlock(&sched.lock)
	}
`},
		repl{`		gp := pp.runq[h%uint32(len(pp.runq))].ptr()
		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume
			return gp, false
		}
`, `		if simSt.on && t-h > 1 {
			k := simPick(pp, h, t-h)
			if k != 0 {
				n := uint32(len(pp.runq))
				a := pp.runq[h%n]
				pp.runq[h%n] = pp.runq[(h+k)%n]
				pp.runq[(h+k)%n] = a
			}
		}
		gp := pp.runq[h%uint32(len(pp.runq))].ptr()
		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume
			return gp, false
		}
`})
	patch(filepath.Join(rt, "rand.go"),
		repl{`	seed := &globalRand.seed
	if startupRand != nil {
`, `	seed := &globalRand.seed
	simSt.rnd = 0x5eed0f5eed
	simSt.cheap = 0x5eed0f5eee
	simSt.init = true
	if true {
		clear(seed[:])
		seed[0] = 1
	} else if startupRand != nil {
`},
		repl{`	mp := getg().m
	c := &mp.chacha8
	for {
`, `	if simSt.init {
		return simNext(&simSt.rnd)
	}
	mp := getg().m
	c := &mp.chacha8
	for {
`},
		repl{`func cheaprand() uint32 {
	mp := getg().m
`, `func cheaprand() uint32 {
	if simSt.init {
		return uint32(simNext(&simSt.cheap) >> 16)
	}
	mp := getg().m
`})
	put(filepath.Join(rt, "sim_verif.go"), []byte(`package runtime

// State of the seeded scheduler (see /verif/sim/tools/mkoverlay).
var simSt struct {
	init  bool
	on    bool
	mode  uint32
	seed  uint64
	rnd   uint64
	cheap uint64
	sched uint64
	prio  uint64
	base  uint64
	picks uint64
	hash  uint64
	max   uint32
}

//go:nosplit
func simNext(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func simMix(a, b uint64) uint64 {
	s := a ^ (b * 0xd6e8feb86659fd93)
	return simNext(&s)
}

// SimLogging turns on SimLog.
var SimLogging bool


var simLog [1 << 12][8]int64

// SimLog returns the runnable goroutines of every choice and the one chosen.
func SimLog() [][8]int64 {
	n := simSt.picks
	if n > uint64(len(simLog)) {
		n = uint64(len(simLog))
	}
	return simLog[:n]
}

// simPick chooses which of the n runnable goroutines of pp runs next.
func simPick(pp *p, h, n uint32) uint32 {
	var k uint32
	r := simNext(&simSt.sched)
	switch simSt.mode {
	case 1: // random priorities, occasionally reshuffled
		if r%23 == 0 {
			simSt.prio = simNext(&simSt.sched)
		}
		var best uint64
		for i := uint32(0); i < n; i++ {
			g := pp.runq[(h+i)%uint32(len(pp.runq))].ptr()
			var v uint64
			if g.goid > simSt.base {
				v = g.goid - simSt.base
			}
			v = simMix(simSt.prio, v)
			if i == 0 || v > best {
				best, k = v, i
			}
		}
	case 2: // newest first
		if r%5 == 0 {
			k = uint32((r >> 8) % uint64(n))
		} else {
			k = n - 1
		}
	case 3: // oldest first
		if r%9 == 0 {
			k = uint32((r >> 8) % uint64(n))
		}
	default:
		k = uint32((r >> 8) % uint64(n))
	}
	simSt.picks++
	if n > simSt.max {
		simSt.max = n
	}
	simSt.hash = simMix(simSt.hash, uint64(k)<<32|uint64(n))
	if SimLogging && simSt.picks <= uint64(len(simLog)) {
		simLog[simSt.picks-1] = [8]int64{}
		for i := uint32(0); i < n && i < 7; i++ {
			simLog[simSt.picks-1][i] = int64(pp.runq[(h+i)%uint32(len(pp.runq))].ptr().goid)-int64(simSt.base)
		}
		simLog[simSt.picks-1][7] = int64(n)<<8 + int64(k)
	}
	if simSt.on {
		// what the others drew since must not matter to the one that goes on
		simSt.rnd = simMix(simSt.seed, simSt.picks|1<<48)
		simSt.cheap = simSt.rnd ^ 0x5851f42d4c957f2d
	}
	return k
}

// SimStart seeds the scheduler and every source of randomness of the process.
func SimStart(seed uint64, mode uint32) {
	simSt.seed = seed
	simSt.rnd = simMix(seed, 1)
	simSt.cheap = simMix(seed, 2)
	simSt.sched = simMix(seed, 3)
	simSt.prio = simMix(seed, 4)
	simSt.mode = mode
	simSt.picks, simSt.hash, simSt.max = 0, 0, 0
	pp := getg().m.p.ptr()
	simSt.base = pp.goidcache
	simSt.on = true
}

// SimReseed makes the randomness of maps and selects a function of the seed and n: what
// ran before in this process (filled caches) must not influence it.
func SimReseed(n uint64) {
	if simSt.on {
		simSt.rnd = simMix(simSt.seed, n)
		simSt.cheap = simSt.rnd ^ 0x5851f42d4c957f2d
	}
}

// SimSwitch goes on with other choices.
func SimSwitch(seed uint64, mode uint32) {
	simSt.seed = seed
	simSt.rnd = simMix(seed, 1)
	simSt.cheap = simMix(seed, 2)
	simSt.sched = simMix(seed, 3)
	simSt.prio = simMix(seed, 4)
	simSt.mode = mode
}

func SimStop() { simSt.on = false }

// SimStats returns the number of scheduling choices made, their hash, and the
// largest number of runnable goroutines met.
func SimStats() (uint64, uint64, uint32) { return simSt.picks, simSt.hash, simSt.max }

// SimCoin draws from the scheduler's generator.
func SimCoin() uint64 { return simNext(&simSt.sched) }

var simWall int64

// SimAdvance moves the (monotonic and wall) clock forward; SimSetWall sets the wall clock.
func SimAdvance(ns int64)  { if ns > 0 { faketime += ns } }
func SimSetWall(ns int64)  { simWall = ns - faketime }
func SimWall() int64       { return faketime + simWall }
func SimMono() int64       { return faketime }
`))
	patch(filepath.Join(rt, "time_fake.go"),
		repl{`	return faketime / 1e9, int32(faketime % 1e9), faketime
`, `	w := faketime + simWall
	return w / 1e9, int32(w % 1e9), faketime
`},
		repl{`	if !(fd == 1 || fd == 2) {
`, `	if true {
`})
}

// ---- instrumentation of Go source ----

type ins struct {
	off  int
	text string
	end  int // replace [off,end) when end>off
}

// split makes a preemption point between reading and writing shared data.
func split(s ast.Stmt, src []byte, tf *token.File) []ins {
	shared := func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.SelectorExpr:
			_, ok := x.X.(*ast.Ident)
			return ok
		case *ast.IndexExpr:
			return true
		}
		return false
	}
	text := func(n ast.Node) string { return string(src[tf.Offset(n.Pos()):tf.Offset(n.End())]) }
	switch x := s.(type) {
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !shared(x.Lhs[0]) {
			return nil
		}
		r := x.Rhs[0]
		switch x.Tok {
		case token.ASSIGN:
			c, ok := r.(*ast.CallExpr)
			if !ok {
				return nil
			}
			if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "append" {
				return nil
			}
			return []ins{{off: tf.Offset(r.Pos()), text: "verif_simrt.V("}, {off: tf.Offset(r.End()), text: ")"}}
		case token.ADD_ASSIGN:
			if _, ok := x.Lhs[0].(*ast.SelectorExpr); !ok {
				return nil
			}
			return []ins{{off: tf.Offset(x.TokPos), end: tf.Offset(x.TokPos) + 2, text: "= verif_simrt.V(" + text(x.Lhs[0]) + ") + ("}, {off: tf.Offset(r.End()), text: ")"}}
		}
	case *ast.IncDecStmt:
		if _, ok := x.X.(*ast.SelectorExpr); !ok || !shared(x.X) {
			return nil
		}
		op := "+"
		if x.Tok == token.DEC {
			op = "-"
		}
		return []ins{{off: tf.Offset(x.TokPos), end: tf.Offset(x.TokPos) + 2, text: " = verif_simrt.V(" + text(x.X) + ") " + op + " 1"}}
	}
	return nil
}

var siteFile []string // site id -> file:line

func instrument(file string, rel string, yields bool, osToSim bool) {
	src, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	tf := fset.File(f.Pos())
	var edits []ins
	changed := false
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		var to string
		switch {
		case p == "os" && osToSim:
			to = "verifsim/simos"
		case p == "os/exec" && osToSim:
			to = "verifsim/simexec"
		}
		if to == "" {
			continue
		}
		name := filepath.Base(p)
		if im.Name != nil {
			name = im.Name.Name
		}
		edits = append(edits, ins{off: tf.Offset(im.Pos()), end: tf.Offset(im.End()), text: name + " " + strconv.Quote(to)})
		changed = true
	}
	sites := 0
	if yields {
		var list func(ss []ast.Stmt)
		list = func(ss []ast.Stmt) {
			for _, s := range ss {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				id := len(siteFile)
				siteFile = append(siteFile, fmt.Sprintf("%s:%d", rel, tf.Line(s.Pos())))
				edits = append(edits, ins{off: tf.Offset(s.Pos()), text: fmt.Sprintf("verif_simrt.Y(%d);", id)})
				sites++
				edits = append(edits, split(s, src, tf)...)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			case *ast.SwitchStmt:
				// the block of a switch holds clauses, not statements
				ast.Inspect(x.Body, func(ast.Node) bool { return false })
			}
			return true
		})
		// drop insertions in front of case/comm clauses (they are statements of the switch block)
		var keep []ins
		clause := map[int]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CaseClause:
				clause[tf.Offset(x.Pos())] = true
			case *ast.CommClause:
				clause[tf.Offset(x.Pos())] = true
			}
			return true
		})
		for _, e := range edits {
			if e.end == 0 && clause[e.off] {
				sites--
				continue
			}
			keep = append(keep, e)
		}
		edits = keep
	}
	if sites > 0 {
		edits = append(edits, ins{off: tf.Offset(f.Name.End()), text: "; import verif_simrt \"verifsim/simrt\""})
		changed = true
	}
	if !changed {
		return
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out []byte
	pos := 0
	for _, e := range edits {
		out = append(out, src[pos:e.off]...)
		out = append(out, e.text...)
		pos = e.off
		if e.end > e.off {
			pos = e.end
		}
	}
	out = append(out, src[pos:]...)
	put(file, out)
}

func goFiles(dir string) []string {
	var r []string
	es, err := os.ReadDir(dir)
	if err != nil {
		die("%v", err)
	}
	for _, e := range es {
		n := e.Name()
		if !e.IsDir() && strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			r = append(r, filepath.Join(dir, n))
		}
	}
	return r
}

func main() {
	goroot := flag.String("goroot", "", "")
	modcache := flag.String("modcache", "", "")
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.Parse()
	outDir = *out
	if err := os.MkdirAll(outDir, 0755); err != nil {
		die("%v", err)
	}
	patchRuntime(*goroot)
	// code under test: every package below pkg (and the packages it is made of)
	var dirs []string
	err := filepath.WalkDir(filepath.Join(*repo, "pkg"), func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if d.Name() == "testdata" || strings.HasPrefix(d.Name(), ".") {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	for _, d := range dirs {
		rel, _ := filepath.Rel(*repo, d)
		if rel == "pkg/subsystem/indexer" || strings.HasPrefix(rel, "pkg/dilcis") {
			continue
		}
		for _, f := range goFiles(d) {
			r, _ := filepath.Rel(*repo, f)
			instrument(f, r, true, true)
		}
	}
	for _, f := range goFiles(filepath.Join(*modcache, "github.com/je4/filesystem/v3@v3.0.12/pkg/osfsrw")) {
		instrument(f, "osfsrw/"+filepath.Base(f), false, true)
	}
	// the dispatcher of the indexer reads temporary files
	instrument(filepath.Join(*modcache, "github.com/je4/indexer/v3@v3.0.5/pkg/indexer/actionDispatcher.go"), "indexer/actionDispatcher.go", false, true)
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(outDir, "overlay.json"), b, 0644); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(outDir, "sites.txt"), []byte(strings.Join(siteFile, "\n")+"\n"), 0644); err != nil {
		die("%v", err)
	}
}
