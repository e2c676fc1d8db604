// Package simos stands in for package os in the code under test: an in-memory
// file system with an operation log, a fault plan and crash points.
package simos

import (
	"fmt"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifsim/simrt"
)

// Node is a file, folder or symbolic link.
type Node struct {
	Mode  fs.FileMode
	Data  []byte
	Kids  map[string]*Node
	Link  string
	MTime time.Time
	Ino   uint64
	// Epoch is the operation window in which the content was last written without sync.
	Dirty bool
	// Old holds the content before the current operation window (nil if new).
	Old   []byte
	IsNew bool
}

// World is the simulated machine's file system.
type World struct {
	Jump    func(sec int64) // moves the wall clock
	root    *Node
	nextIno uint64
	putIno  uint64 // of what the harness puts, so that it does not depend on the rest
	gen     int
	Log     []Rec
	LogOn   bool
	faults  []*armed
	// Counters per domain since the last Arm.
	Count map[string]int
	// Fired counts injected faults by kind.
	Fired map[string]int
	// CrashCh is closed when the simulated process stops.
	CrashCh chan struct{}
	Crashed bool
	// Quota is the number of bytes that can still be written to a domain (-1: unlimited).
	// Open handles by domain.
	OpenHandles map[*File]bool
	tmpN        int
	Cwd         string
	ShortReads  uint64 // seed; 0 = full reads
	ops         uint64
}

// Rec is one logged operation.
type Rec struct {
	Op    string
	Dom   string
	Path  string
	Path2 string
	N     int
	Err   string
	Mut   bool
}

// W is the current world.
var W = NewWorld()

// NewWorld returns an empty file system with the folders of the simulation.
func NewWorld() *World {
	w := &World{Count: map[string]int{}, Fired: map[string]int{}, OpenHandles: map[*File]bool{}, Cwd: "/st"}
	w.root = w.newDir()
	for _, d := range []string{"/st", "/src", "/dst", "/tmp", "/out"} {
		w.MustMkdirAll(d)
	}
	return w
}

func (w *World) newDir() *Node {
	w.nextIno++
	return &Node{Mode: fs.ModeDir | 0755, Kids: map[string]*Node{}, MTime: time.Now(), Ino: w.nextIno, IsNew: true}
}

// put gives a node which the harness has made its number.
func (w *World) put(n *Node) *Node {
	w.putIno++
	n.Ino = 1_000_000 + w.putIno
	return n
}

func (w *World) newFile() *Node {
	w.nextIno++
	return &Node{Mode: 0644, MTime: time.Now(), Ino: w.nextIno, IsNew: true, Dirty: true}
}

func clean(w *World, p string) string {
	if !strings.HasPrefix(p, "/") {
		p = w.Cwd + "/" + p
	}
	return path.Clean(p)
}

func split(p string) []string {
	p = strings.Trim(p, "/")
	if p == "" {
		return nil
	}
	return strings.Split(p, "/")
}

func (w *World) lookup(p string, follow bool) (*Node, syscall.Errno) {
	return w.walk(clean(w, p), follow, 0)
}

func (w *World) walk(p string, follow bool, depth int) (*Node, syscall.Errno) {
	if depth > 20 {
		return nil, syscall.ELOOP
	}
	n := w.root
	parts := split(p)
	cur := "/"
	for i, c := range parts {
		if n.Mode&fs.ModeDir == 0 {
			return nil, syscall.ENOTDIR
		}
		if len(c) > 255 {
			return nil, syscall.ENAMETOOLONG
		}
		k, ok := n.Kids[c]
		if !ok {
			return nil, syscall.ENOENT
		}
		if k.Mode&fs.ModeSymlink != 0 && (follow || i < len(parts)-1) {
			t := k.Link
			if !strings.HasPrefix(t, "/") {
				t = path.Join(cur, t)
			}
			return w.walk(path.Join(append([]string{t}, parts[i+1:]...)...), follow, depth+1)
		}
		n = k
		cur = path.Join(cur, c)
	}
	return n, 0
}

func (w *World) parent(p string) (*Node, string, syscall.Errno) {
	p = clean(w, p)
	if p == "/" {
		return nil, "", syscall.EINVAL
	}
	n, e := w.lookup(path.Dir(p), true)
	if e != 0 {
		return nil, "", e
	}
	if n.Mode&fs.ModeDir == 0 {
		return nil, "", syscall.ENOTDIR
	}
	b := path.Base(p)
	if strings.ContainsRune(b, 0) || strings.ContainsRune(p, 0) {
		return nil, "", syscall.EINVAL
	}
	if len(b) > 255 {
		return nil, "", syscall.ENAMETOOLONG
	}
	return n, b, 0
}

// ---- direct access for the harness (no log, no faults) ----

func (w *World) MustMkdirAll(p string) {
	n := w.root
	for _, c := range split(clean(w, p)) {
		k, ok := n.Kids[c]
		if !ok {
			k = w.put(w.newDir())
			n.Kids[c] = k
		}
		if k.Mode&fs.ModeDir == 0 {
			panic("simos: not a folder: " + p)
		}
		n = k
	}
}

// Put writes a file, creating folders.
func (w *World) Put(p string, data []byte) {
	p = clean(w, p)
	w.MustMkdirAll(path.Dir(p))
	d, b, e := w.parent(p)
	if e != 0 {
		panic(fmt.Sprintf("simos.Put %s: %v", p, e))
	}
	n := w.put(w.newFile())
	n.Dirty, n.IsNew = false, false
	n.Data = append([]byte(nil), data...)
	d.Kids[b] = n
}

// PutLink creates a symbolic link.
func (w *World) PutLink(p, to string) {
	p = clean(w, p)
	w.MustMkdirAll(path.Dir(p))
	d, b, _ := w.parent(p)
	n := w.put(w.newFile())
	n.Mode = fs.ModeSymlink | 0777
	n.Link = to
	d.Kids[b] = n
}

// Facts are what the file system knows about a file: times and size (links followed),
// permissions and link target (links not followed).
func (w *World) Facts(p string) (map[string]string, bool) {
	n, e := w.lookup(clean(w, p), true)
	l, e2 := w.lookup(clean(w, p), false)
	if e != 0 || e2 != 0 {
		return nil, false
	}
	i := &info{n: n}
	st := i.Sys().(*syscall.Stat_t)
	at := func(t syscall.Timespec) string { return time.Unix(t.Sec, t.Nsec).UTC().Format(time.RFC3339Nano) }
	m := map[string]string{"mTime": at(st.Mtim), "aTime": at(st.Atim), "cTime": at(st.Ctim), "size": fmt.Sprint(i.Size()),
		"attr": l.Mode.Perm().String(), "symlink": ""}
	if l.Mode&fs.ModeSymlink != 0 {
		m["symlink"] = l.Link
	}
	return m, true
}

// SetMode sets the permissions of a file.
func (w *World) SetMode(p string, m fs.FileMode) {
	if n, e := w.lookup(clean(w, p), true); e == 0 {
		n.Mode = n.Mode&^fs.ModePerm | m
	}
}

// Get reads a file.
func (w *World) Get(p string) ([]byte, bool) {
	n, e := w.lookup(p, true)
	if e != 0 || n.Mode&fs.ModeDir != 0 {
		return nil, false
	}
	return n.Data, true
}

// Exists tells whether the path names anything.
func (w *World) Exists(p string) bool {
	_, e := w.lookup(p, false)
	return e == 0
}

// IsDir tells whether the path names a folder.
func (w *World) IsDir(p string) bool {
	n, e := w.lookup(p, true)
	return e == 0 && n.Mode&fs.ModeDir != 0
}

// Delete removes a file or folder with everything in it.
func (w *World) Delete(p string) {
	d, b, e := w.parent(p)
	if e == 0 {
		delete(d.Kids, b)
	}
}

// Move renames.
func (w *World) Move(a, b string) {
	d, n, e := w.parent(a)
	if e != 0 {
		return
	}
	k, ok := d.Kids[n]
	if !ok {
		return
	}
	w.MustMkdirAll(path.Dir(clean(w, b)))
	d2, n2, e := w.parent(b)
	if e != 0 {
		return
	}
	delete(d.Kids, n)
	d2.Kids[n2] = k
}

// List returns the sorted names in a folder.
func (w *World) List(p string) []string {
	n, e := w.lookup(p, true)
	if e != 0 || n.Kids == nil {
		return nil
	}
	var r []string
	for k := range n.Kids {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Tree returns path -> content of every file below p (relative names); folders are
// included with a trailing slash and nil content when dirs is set.
func (w *World) Tree(p string, dirs bool) map[string][]byte {
	r := map[string][]byte{}
	n, e := w.lookup(p, true)
	if e != 0 {
		return r
	}
	var rec func(n *Node, pre string)
	rec = func(n *Node, pre string) {
		for k, c := range n.Kids {
			if c.Mode&fs.ModeDir != 0 {
				if dirs {
					r[pre+k+"/"] = nil
				}
				rec(c, pre+k+"/")
			} else if c.Mode&fs.ModeSymlink != 0 {
				r[pre+k] = []byte("-> " + c.Link)
			} else {
				r[pre+k] = c.Data
			}
		}
	}
	rec(n, "")
	return r
}

// Clear empties a folder.
func (w *World) Clear(p string) {
	w.MustMkdirAll(p)
	n, _ := w.lookup(p, true)
	n.Kids = map[string]*Node{}
}

func (w *World) cloneNode(n *Node) *Node {
	c := *n
	c.Data = append([]byte(nil), n.Data...)
	if n.Kids != nil {
		c.Kids = make(map[string]*Node, len(n.Kids))
		for _, k := range sortedKeys(n.Kids) {
			c.Kids[k] = w.cloneNode(n.Kids[k])
		}
	}
	return &c
}

func sortedKeys(m map[string]*Node) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// CopyTree copies a folder.
func (w *World) CopyTree(from, to string) {
	n, e := w.lookup(from, true)
	if e != 0 {
		return
	}
	w.MustMkdirAll(path.Dir(clean(w, to)))
	d, b, _ := w.parent(to)
	d.Kids[b] = w.cloneNode(n)
}

// Snapshot is a saved subtree.
type Snapshot struct{ n *Node }

// Save copies a subtree, Restore puts it back.
func (w *World) Save(p string) Snapshot {
	n, e := w.lookup(p, true)
	if e != 0 {
		return Snapshot{}
	}
	return Snapshot{w.cloneNode(n)}
}

func (w *World) Restore(p string, s Snapshot) {
	if s.n == nil {
		w.Delete(p)
		return
	}
	w.MustMkdirAll(path.Dir(clean(w, p)))
	d, b, _ := w.parent(p)
	d.Kids[b] = w.cloneNode(s.n)
}

// Settle declares everything written so far durable.
func (w *World) Settle() {
	var rec func(n *Node)
	rec = func(n *Node) {
		n.Dirty, n.IsNew, n.Old = false, false, nil
		for _, k := range n.Kids {
			rec(k)
		}
	}
	rec(w.root)
}

// PowerLoss applies the loss of unsynced data below p: every file written since
// Settle and not synced is kept, cut, emptied, zeroed, reverted or dropped by rnd.
func (w *World) PowerLoss(p string, rnd func() uint64) {
	n, e := w.lookup(p, true)
	if e != 0 {
		return
	}
	var rec func(n *Node)
	rec = func(n *Node) {
		for _, k := range sortedKeys(n.Kids) {
			c := n.Kids[k]
			if c.Mode&fs.ModeDir != 0 {
				rec(c)
				if c.IsNew && len(c.Kids) == 0 && rnd()%2 == 0 {
					delete(n.Kids, k)
				}
				continue
			}
			if !c.Dirty {
				continue
			}
			w.Fired["powerloss-file"]++
			switch rnd() % 6 {
			case 0, 1: // kept
			case 2:
				if len(c.Data) > 0 {
					c.Data = c.Data[:rnd()%uint64(len(c.Data))]
				}
			case 3:
				c.Data = nil
			case 4:
				c.Data = make([]byte, len(c.Data))
			case 5:
				if c.IsNew {
					delete(n.Kids, k)
				} else {
					c.Data = append([]byte(nil), c.Old...)
				}
			}
		}
	}
	rec(n)
}

// ---- faults ----

// Fault describes one injected fault, relative to the operation window in which it is armed.
type Fault struct {
	Dom    string `json:"dom"`              // st, src, dst, tmp
	Op     string `json:"op"`               // open create read write close stat readdir mkdir rename remove sync | mut (any mutating) | any
	N      int    `json:"n"`                // 1-based index among the matching operations
	Kind   string `json:"kind"`             // eio enospc eacces short torn crash crashafter eof enoent emfile
	Keep   int    `json:"keep,omitempty"`   // percent of bytes of a torn/short write that reach the disk
	Sticky bool   `json:"sticky,omitempty"` // all later matching operations fail, too
	Match  string `json:"match,omitempty"`  // only paths containing this
}

type armed struct {
	Fault
	seen int
	hits int
}

// Arm installs the fault plan of an operation and resets the counters.
func (w *World) Arm(fs []Fault) {
	w.faults = nil
	for _, f := range fs {
		w.faults = append(w.faults, &armed{Fault: f})
	}
	w.Count = map[string]int{}
}

// Disarm removes the fault plan and tells how many faults fired.
func (w *World) Disarm() int {
	n := 0
	for _, f := range w.faults {
		n += f.hits
	}
	w.faults = nil
	return n
}

// Dom returns the domain of a path.
func Dom(p string) string {
	s := split(p)
	if len(s) == 0 {
		return "/"
	}
	return s[0]
}

func isMut(op string) bool {
	switch op {
	case "create", "write", "mkdir", "rename", "remove", "chmod", "truncate", "symlink":
		return true
	}
	return false
}

// begin logs an operation and returns the fault to apply to it, if any.
func (w *World) begin(gen int, op, p string, n int) *armed {
	simrt.Step()
	if w.Crashed || gen != w.gen {
		park()
	}
	dom := Dom(p)
	w.ops++
	w.Count[dom+":"+op]++
	if isMut(op) {
		w.Count[dom+":mut"]++
	}
	w.Count[dom+":any"]++
	var hit *armed
	for _, f := range w.faults {
		if f.Dom != dom {
			continue
		}
		if !(f.Op == op || f.Op == "any" || f.Op == "mut" && isMut(op)) {
			continue
		}
		if f.Match != "" && !strings.Contains(p, f.Match) {
			continue
		}
		f.seen++
		if f.seen == f.N || f.Sticky && f.seen > f.N {
			if hit == nil {
				hit = f
			}
		}
	}
	if hit != nil {
		hit.hits++
		if hit.Kind == "clock" {
			w.Fired["clock:jump"]++
			w.Jump(int64(hit.Keep))
			return nil
		}
		w.Fired[dom+":"+op+":"+hit.Kind]++
		if hit.Kind == "crash" {
			w.crash()
		}
	}
	return hit
}

// park blocks a goroutine of a process that does not exist any more.
func park() { select {} }

func (w *World) crash() {
	w.Crashed = true
	close(w.CrashCh)
	park()
}

// Boot starts a new simulated process: handles and goroutines of the old one are dead.
func (w *World) Boot() {
	w.gen++
	w.Crashed = false
	w.CrashCh = make(chan struct{})
	w.OpenHandles = map[*File]bool{}
}

// Gen returns the process generation.
func (w *World) Gen() int { return w.gen }

func errnoOf(kind string) syscall.Errno {
	switch kind {
	case "enospc":
		return syscall.ENOSPC
	case "eacces":
		return syscall.EACCES
	case "enoent":
		return syscall.ENOENT
	case "emfile":
		return syscall.EMFILE
	case "estale":
		return syscall.ESTALE
	}
	return syscall.EIO
}

func (w *World) end(op, p, p2 string, n int, err error, mut bool) {
	if !w.LogOn {
		return
	}
	r := Rec{Op: op, Dom: Dom(p), Path: p, Path2: p2, N: n, Mut: mut}
	if err != nil {
		r.Err = err.Error()
	}
	w.Log = append(w.Log, r)
}

func pe(op, p string, e error) error { return &os.PathError{Op: op, Path: p, Err: e} }
