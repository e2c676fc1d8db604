package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"syscall"
	"time"

	"verifsim/simrt"
)

// Seams of other simulated devices share the step counter.
func step() { simrt.Step() }

// File is an open file or folder.
type File struct {
	name   string
	abs    string
	n      *Node
	w      *World
	gen    int
	pos    int64
	flag   int
	closed bool
	listed []fs.DirEntry
	lpos   int
	wrote  bool
}

type info struct {
	name string
	n    *Node
}

func (i *info) Name() string { return i.name }
func (i *info) Size() int64 {
	if i.n.Mode&fs.ModeSymlink != 0 {
		return int64(len(i.n.Link))
	}
	return int64(len(i.n.Data))
}
func (i *info) Mode() fs.FileMode  { return i.n.Mode }
func (i *info) ModTime() time.Time { return i.n.MTime }
func (i *info) IsDir() bool        { return i.n.Mode.IsDir() }
func (i *info) Sys() any {
	t := func(s uint64) syscall.Timespec {
		return syscall.NsecToTimespec(i.n.MTime.Add(time.Duration(s) * time.Second).UnixNano())
	}
	// changed and read after it was written
	return &syscall.Stat_t{Ino: i.n.Ino, Size: i.Size(), Mtim: t(0), Ctim: t(1 + i.n.Ino%3), Atim: t(5 + i.n.Ino%7), Nlink: 1, Mode: uint32(i.n.Mode.Perm())}
}

func snap(name string, n *Node) *info {
	c := *n
	c.Kids = nil
	return &info{name: path.Base(name), n: &c}
}

func (w *World) open(op, name string, flag int, perm fs.FileMode) (*File, error) {
	abs := clean(w, name)
	creating := flag&(os.O_CREATE|os.O_TRUNC) != 0
	k := "open"
	if creating {
		k = "create"
	}
	gen := w.gen
	f := w.begin(gen, k, abs, 0)
	fail := func(e error) (*File, error) {
		err := pe("open", name, e)
		w.end(k, abs, "", 0, err, creating)
		return nil, err
	}
	if f != nil && f.Kind != "crashafter" && f.Kind != "closeerr" {
		return fail(errnoOf(f.Kind))
	}
	n, e := w.lookup(abs, true)
	if e != 0 && e != syscall.ENOENT {
		return fail(e)
	}
	if e == syscall.ENOENT {
		if flag&os.O_CREATE == 0 {
			return fail(syscall.ENOENT)
		}
		d, b, e := w.parent(abs)
		if e != 0 {
			return fail(e)
		}
		n = w.newFile()
		n.Mode = perm.Perm() & 0755
		d.Kids[b] = n
	} else {
		if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
			return fail(syscall.EEXIST)
		}
		if n.Mode.IsDir() && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return fail(syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 {
			n.dirty()
			n.Data = nil
			n.MTime = time.Now()
		}
	}
	fl := &File{name: name, abs: abs, n: n, w: w, gen: gen, flag: flag}
	w.OpenHandles[fl] = true
	if creating || w.LogOn {
		w.end(k, abs, "", 0, nil, creating)
	}
	if f != nil && f.Kind == "crashafter" {
		w.crash()
	}
	return fl, nil
}

func (n *Node) dirty() {
	if !n.Dirty {
		n.Dirty = true
		n.Old = append([]byte{}, n.Data...)
	}
}

func Open(name string) (*File, error) { return W.open("open", name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return W.open("open", name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	return W.open("open", name, flag, perm)
}

// Writable says whether the file was opened for writing.
func (f *File) Writable() bool { return f.flag&(os.O_WRONLY|os.O_RDWR) != 0 }

func (f *File) Name() string { return f.name }

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return pe(op, f.name, os.ErrClosed)
	}
	return nil
}

func (f *File) readLen(n int) int {
	w := f.w
	if w.ShortReads == 0 || n <= 1 {
		return n
	}
	w.ShortReads = w.ShortReads*6364136223846793005 + 1442695040888963407
	r := w.ShortReads >> 33
	switch r % 4 {
	case 0:
		return 1 + int((r>>3)%uint64(n))
	case 1:
		m := 1 + int((r>>3)%64)
		if m > n {
			m = n
		}
		return m
	}
	return n
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	h := f.w.begin(f.gen, "read", f.abs, len(b))
	if f.n.Mode.IsDir() {
		return 0, pe("read", f.name, syscall.EISDIR)
	}
	if h != nil {
		switch h.Kind {
		case "eof": // the file ends early without an error: a truncated source
			return 0, io.EOF
		case "short":
			m := len(b) * h.Keep / 100
			if rest := int64(len(f.n.Data)) - f.pos; int64(m) > rest {
				m = int(rest)
			}
			if m > 0 {
				copy(b, f.n.Data[f.pos:f.pos+int64(m)])
				f.pos += int64(m)
			}
			return m, pe("read", f.name, syscall.EIO)
		default:
			return 0, pe("read", f.name, errnoOf(h.Kind))
		}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.pos >= int64(len(f.n.Data)) {
		return 0, io.EOF
	}
	want := f.readLen(len(b))
	n := copy(b[:want], f.n.Data[f.pos:])
	f.pos += int64(n)
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if h := f.w.begin(f.gen, "read", f.abs, len(b)); h != nil {
		if h.Kind == "eof" {
			return 0, io.EOF
		}
		return 0, pe("read", f.name, errnoOf(h.Kind))
	}
	if off < 0 {
		return 0, pe("readat", f.name, errors.New("negative offset"))
	}
	if off >= int64(len(f.n.Data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, pe("write", f.name, syscall.EBADF)
	}
	h := f.w.begin2(f.gen, "write", f.abs, len(b), func(keep int) { f.put(b[:keep]) })
	if h != nil {
		m := 0
		switch h.Kind {
		case "short", "enospc":
			m = len(b) * h.Keep / 100
			f.put(b[:m])
		case "crashafter":
			f.put(b)
			f.w.end("write", f.abs, "", len(b), nil, true)
			f.w.crash()
		}
		kind := h.Kind
		if kind == "short" {
			kind = "enospc"
		}
		err := pe("write", f.name, errnoOf(kind))
		f.w.end("write", f.abs, "", m, err, true)
		return m, err
	}
	f.put(b)
	f.w.end("write", f.abs, "", len(b), nil, true)
	return len(b), nil
}

// begin2 is begin for writes: a crash may leave part of the data behind.
func (w *World) begin2(gen int, op, p string, n int, torn func(keep int)) *armed {
	for _, f := range w.faults {
		if f.Dom == Dom(p) && (f.Op == op || f.Op == "any" || f.Op == "mut") && f.Kind == "crash" && f.Keep > 0 && f.seen+1 == f.N && !w.Crashed && gen == w.gen && (f.Match == "" || contains(p, f.Match)) {
			torn(n * f.Keep / 100)
			w.Fired[Dom(p)+":torn-write"]++
		}
	}
	return w.begin(gen, op, p, n)
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

func (f *File) put(b []byte) {
	n := f.n
	n.dirty()
	if f.flag&os.O_APPEND != 0 {
		f.pos = int64(len(n.Data))
	}
	end := f.pos + int64(len(b))
	if end > int64(len(n.Data)) {
		if int64(cap(n.Data)) >= end {
			n.Data = n.Data[:end]
		} else {
			c := make([]byte, end, end*2)
			copy(c, n.Data)
			n.Data = c
		}
	}
	copy(n.Data[f.pos:], b)
	f.pos = end
	n.MTime = time.Now()
	f.wrote = true
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	old := f.pos
	f.pos = off
	n, err := f.Write(b)
	f.pos = old
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if h := f.w.begin(f.gen, "seek", f.abs, 0); h != nil {
		return 0, pe("seek", f.name, errnoOf(h.Kind))
	}
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.n.Data))
	}
	if off < 0 {
		return 0, pe("seek", f.name, syscall.EINVAL)
	}
	f.pos = off
	return off, nil
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return pe("close", f.name, os.ErrClosed)
	}
	op := "close"
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		op = "rclose"
	}
	h := f.w.begin(f.gen, op, f.abs, 0)
	f.closed = true
	delete(f.w.OpenHandles, f)
	if h != nil {
		switch h.Kind {
		case "crashafter":
			f.w.crash()
		case "torn": // delayed write error: part of the data never reaches the disk
			if f.wrote {
				f.n.Data = f.n.Data[:len(f.n.Data)*h.Keep/100]
			}
		}
		err := pe("close", f.name, errnoOf(h.Kind))
		f.w.end(op, f.abs, "", 0, err, false)
		return err
	}
	f.w.end(op, f.abs, "", 0, nil, false)
	return nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if h := f.w.begin(f.gen, "sync", f.abs, 0); h != nil {
		return pe("sync", f.name, errnoOf(h.Kind))
	}
	f.n.Dirty, f.n.Old, f.n.IsNew = false, nil, false
	f.w.end("sync", f.abs, "", 0, nil, false)
	return nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if h := f.w.begin(f.gen, "truncate", f.abs, 0); h != nil {
		return pe("truncate", f.name, errnoOf(h.Kind))
	}
	f.n.dirty()
	if size <= int64(len(f.n.Data)) {
		f.n.Data = f.n.Data[:size]
	} else {
		f.n.Data = append(f.n.Data, make([]byte, size-int64(len(f.n.Data)))...)
	}
	f.w.end("truncate", f.abs, "", 0, nil, true)
	return nil
}

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if h := f.w.begin(f.gen, "stat", f.abs, 0); h != nil {
		return nil, pe("stat", f.name, errnoOf(h.Kind))
	}
	return snap(f.abs, f.n), nil
}

func (f *File) Chmod(m fs.FileMode) error        { return Chmod(f.name, m) }
func (f *File) Chdir() error                     { return errors.ErrUnsupported }
func (f *File) Fd() uintptr                      { return ^uintptr(0) }
func (f *File) SetDeadline(time.Time) error      { return os.ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error  { return os.ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return os.ErrNoDeadline }

type entry struct {
	name string
	n    *Node
	abs  string
	w    *World
	gen  int
}

func (e *entry) Name() string      { return e.name }
func (e *entry) IsDir() bool       { return e.n.Mode.IsDir() }
func (e *entry) Type() fs.FileMode { return e.n.Mode.Type() }
func (e *entry) String() string    { return fs.FormatDirEntry(e) }
func (e *entry) Info() (fs.FileInfo, error) {
	if h := e.w.begin(e.gen, "stat", e.abs, 0); h != nil {
		return nil, pe("lstat", e.abs, errnoOf(h.Kind))
	}
	return snap(e.name, e.n), nil
}

func (w *World) readDir(name, abs string, n *Node, gen int) ([]fs.DirEntry, error) {
	h := w.begin(gen, "readdir", abs, 0)
	if n.Kids == nil {
		return nil, pe("readdirent", name, syscall.ENOTDIR)
	}
	var r []fs.DirEntry
	for _, k := range sortedKeys(n.Kids) {
		r = append(r, &entry{name: k, n: n.Kids[k], abs: path.Join(abs, k), w: w, gen: gen})
	}
	if h != nil {
		if h.Kind == "short" {
			return r[:len(r)*h.Keep/100], pe("readdirent", name, syscall.EIO)
		}
		return nil, pe("readdirent", name, errnoOf(h.Kind))
	}
	return r, nil
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	if f.listed == nil {
		l, err := f.w.readDir(f.name, f.abs, f.n, f.gen)
		if err != nil {
			return l, err
		}
		f.listed = l
	}
	rest := f.listed[f.lpos:]
	if n <= 0 {
		f.lpos = len(f.listed)
		return rest, nil
	}
	if len(rest) == 0 {
		return nil, io.EOF
	}
	if len(rest) > n {
		rest = rest[:n]
	}
	f.lpos += len(rest)
	return rest, nil
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	es, err := f.ReadDir(n)
	var r []fs.FileInfo
	for _, e := range es {
		i, e2 := e.Info()
		if e2 != nil {
			return r, e2
		}
		r = append(r, i)
	}
	return r, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var r []string
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r, err
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	es, err := f.ReadDir(-1)
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	return es, err
}

func stat(name string, follow bool, op string) (fs.FileInfo, error) {
	w := W
	abs := clean(w, name)
	if h := w.begin(w.gen, "stat", abs, 0); h != nil {
		err := pe(op, name, errnoOf(h.Kind))
		w.end("stat", abs, "", 0, err, false)
		return nil, err
	}
	n, e := w.lookup(abs, follow)
	if e != 0 {
		return nil, pe(op, name, e)
	}
	return snap(abs, n), nil
}

func Stat(name string) (fs.FileInfo, error)  { return stat(name, true, "stat") }
func Lstat(name string) (fs.FileInfo, error) { return stat(name, false, "lstat") }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	data := make([]byte, 0, 512)
	for {
		n, err := f.Read(data[len(data):cap(data)])
		data = data[:len(data)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return data, err
		}
		if len(data) >= cap(data) {
			d := append(data[:cap(data)], 0)
			data = d[:len(data)]
		}
	}
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Mkdir(name string, perm fs.FileMode) error {
	w := W
	abs := clean(w, name)
	h := w.begin(w.gen, "mkdir", abs, 0)
	var err error
	if h != nil && h.Kind != "crashafter" {
		err = pe("mkdir", name, errnoOf(h.Kind))
	} else if d, b, e := w.parent(abs); e != 0 {
		if abs == "/" {
			e = syscall.EEXIST
		}
		err = pe("mkdir", name, e)
	} else if _, ok := d.Kids[b]; ok {
		err = pe("mkdir", name, syscall.EEXIST)
	} else {
		d.Kids[b] = w.newDir()
	}
	w.end("mkdir", abs, "", 0, err, true)
	if h != nil && h.Kind == "crashafter" {
		w.crash()
	}
	return err
}

func MkdirAll(name string, perm fs.FileMode) error {
	fi, err := Stat(name)
	if err == nil {
		if fi.IsDir() {
			return nil
		}
		return pe("mkdir", name, syscall.ENOTDIR)
	}
	abs := clean(W, name)
	if p := path.Dir(abs); p != abs {
		if err := MkdirAll(p, perm); err != nil {
			return err
		}
	}
	err = Mkdir(name, perm)
	if err != nil {
		fi, err1 := Lstat(name)
		if err1 == nil && fi.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func Remove(name string) error {
	w := W
	abs := clean(w, name)
	h := w.begin(w.gen, "remove", abs, 0)
	var err error
	if h != nil && h.Kind != "crashafter" {
		err = pe("remove", name, errnoOf(h.Kind))
	} else if d, b, e := w.parent(abs); e != 0 {
		err = pe("remove", name, e)
	} else if k, ok := d.Kids[b]; !ok {
		err = pe("remove", name, syscall.ENOENT)
	} else if k.Mode.IsDir() && len(k.Kids) > 0 {
		err = pe("remove", name, syscall.ENOTEMPTY)
	} else {
		delete(d.Kids, b)
	}
	w.end("remove", abs, "", 0, err, true)
	if h != nil && h.Kind == "crashafter" {
		w.crash()
	}
	return err
}

func RemoveAll(name string) error {
	fi, err := Lstat(name)
	if err != nil {
		if errors.Is(err, fs.ErrNotExist) {
			return nil
		}
		return err
	}
	if fi.IsDir() {
		es, err := ReadDir(name)
		if err != nil {
			return err
		}
		for _, e := range es {
			if err := RemoveAll(path.Join(name, e.Name())); err != nil {
				return err
			}
		}
	}
	return Remove(name)
}

func Rename(a, b string) error {
	w := W
	aa, bb := clean(w, a), clean(w, b)
	h := w.begin(w.gen, "rename", bb, 0)
	le := func(e error) error { return &os.LinkError{Op: "rename", Old: a, New: b, Err: e} }
	err := func() error {
		if h != nil && h.Kind != "crashafter" {
			return le(errnoOf(h.Kind))
		}
		d, n, e := w.parent(aa)
		if e != 0 {
			return le(e)
		}
		k, ok := d.Kids[n]
		if !ok {
			return le(syscall.ENOENT)
		}
		d2, n2, e := w.parent(bb)
		if e != 0 {
			return le(e)
		}
		if old, ok := d2.Kids[n2]; ok && old != k {
			if old.Mode.IsDir() != k.Mode.IsDir() {
				if old.Mode.IsDir() {
					return le(syscall.EEXIST)
				}
				return le(syscall.ENOTDIR)
			}
			if old.Mode.IsDir() && len(old.Kids) > 0 {
				return le(syscall.ENOTEMPTY)
			}
		}
		delete(d.Kids, n)
		d2.Kids[n2] = k
		return nil
	}()
	w.end("rename", aa, bb, 0, err, true)
	if h != nil && h.Kind == "crashafter" {
		w.crash()
	}
	return err
}

func Readlink(name string) (string, error) {
	w := W
	abs := clean(w, name)
	if h := w.begin(w.gen, "stat", abs, 0); h != nil {
		return "", pe("readlink", name, errnoOf(h.Kind))
	}
	n, e := w.lookup(abs, false)
	if e != 0 {
		return "", pe("readlink", name, e)
	}
	if n.Mode&fs.ModeSymlink == 0 {
		return "", pe("readlink", name, syscall.EINVAL)
	}
	return n.Link, nil
}

func Symlink(to, name string) error {
	w := W
	abs := clean(w, name)
	if h := w.begin(w.gen, "symlink", abs, 0); h != nil {
		return pe("symlink", name, errnoOf(h.Kind))
	}
	d, b, e := w.parent(abs)
	if e != 0 {
		return pe("symlink", name, e)
	}
	if _, ok := d.Kids[b]; ok {
		return pe("symlink", name, syscall.EEXIST)
	}
	n := w.newFile()
	n.Mode, n.Link = fs.ModeSymlink|0777, to
	d.Kids[b] = n
	w.end("symlink", abs, "", 0, nil, true)
	return nil
}

func Link(a, b string) error { return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.EPERM} }

func Chmod(name string, mode fs.FileMode) error {
	w := W
	abs := clean(w, name)
	if h := w.begin(w.gen, "chmod", abs, 0); h != nil {
		return pe("chmod", name, errnoOf(h.Kind))
	}
	n, e := w.lookup(abs, true)
	if e != 0 {
		return pe("chmod", name, e)
	}
	n.Mode = n.Mode&^fs.ModePerm | mode.Perm()
	w.end("chmod", abs, "", 0, nil, true)
	return nil
}

func Chtimes(name string, a, m time.Time) error {
	w := W
	abs := clean(w, name)
	if h := w.begin(w.gen, "chmod", abs, 0); h != nil {
		return pe("chtimes", name, errnoOf(h.Kind))
	}
	n, e := w.lookup(abs, true)
	if e != 0 {
		return pe("chtimes", name, e)
	}
	n.MTime = m
	return nil
}

func Chown(string, int, int) error  { return nil }
func Lchown(string, int, int) error { return nil }

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			pre, suf = pattern[:i], pattern[i+1:]
			break
		}
	}
	for {
		W.tmpN++
		f, err := OpenFile(path.Join(dir, fmt.Sprintf("%s%d%s", pre, W.tmpN, suf)), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if err != nil && errors.Is(err, fs.ErrExist) {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	W.tmpN++
	p := path.Join(dir, fmt.Sprintf("%s%d", pattern, W.tmpN))
	return p, Mkdir(p, 0700)
}

func TempDir() string        { return "/tmp" }
func Getwd() (string, error) { return W.Cwd, nil }
func Chdir(d string) error   { W.Cwd = clean(W, d); return nil }
func SameFile(a, b fs.FileInfo) bool {
	x, ok := a.(*info)
	y, ok2 := b.(*info)
	return ok && ok2 && x.n.Ino == y.n.Ino
}

// OnExit is called when the code under test ends the process.
var OnExit func(code int)

func Exit(code int) {
	if OnExit != nil {
		OnExit(code)
	}
	os.Exit(code)
}

type dirFS string

func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, pe("open", name, os.ErrInvalid)
	}
	f, err := Open(filepath.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return f, nil
}

func (d dirFS) Stat(name string) (fs.FileInfo, error) {
	if !fs.ValidPath(name) {
		return nil, pe("stat", name, os.ErrInvalid)
	}
	return Stat(filepath.Join(string(d), name))
}

func (d dirFS) ReadFile(name string) ([]byte, error) {
	if !fs.ValidPath(name) {
		return nil, pe("open", name, os.ErrInvalid)
	}
	return ReadFile(filepath.Join(string(d), name))
}

func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
	if !fs.ValidPath(name) {
		return nil, pe("open", name, os.ErrInvalid)
	}
	return ReadDir(filepath.Join(string(d), name))
}

func CopyFS(dir string, src fs.FS) error {
	return fs.WalkDir(src, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		to := filepath.Join(dir, p)
		if d.IsDir() {
			return MkdirAll(to, 0777)
		}
		data, err := fs.ReadFile(src, p)
		if err != nil {
			return err
		}
		return WriteFile(to, data, 0666)
	})
}

var _ fs.ReadDirFile = (*File)(nil)
