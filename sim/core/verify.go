package core

import (
	"archive/zip"
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash"
	"io"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/crypto/blake2b"
)

// An OCFL reader written from the specification. It shares no code with gocfl.

type VVer struct {
	Dir     string
	State   State
	Digests State // logical path -> digest
	Created string
	Time    time.Time
	Msg     string
	HasMsg  bool
	User    string
	Addr    string
}

type VObj struct {
	Dir      string
	ID       string
	Alg      string
	Head     string
	N        int // number of versions
	Vers     []*VVer
	Content  map[string]string // stored content path -> bytes
	Fixity   map[string]map[string][]string
	Manifest map[string][]string
	Problems []string
	Soft     []string // those of the problems which break recommendations only
	Ver      string
}

type VRoot struct {
	Version  string
	Objs     map[string]*VObj // by id
	ByDir    map[string]*VObj
	Problems []string
	Files    map[string][]byte
}

func newHash(alg string) hash.Hash {
	switch alg {
	case "md5":
		return md5.New()
	case "sha1":
		return sha1.New()
	case "sha256":
		return sha256.New()
	case "sha512":
		return sha512.New()
	case "sha512/256":
		return sha512.New512_256()
	case "blake2b-512":
		h, _ := blake2b.New512(nil)
		return h
	case "blake2b-384":
		h, _ := blake2b.New384(nil)
		return h
	case "blake2b-256":
		h, _ := blake2b.New256(nil)
		return h
	case "blake2b-160":
		h, _ := blake2b.New(20, nil)
		return h
	}
	return nil
}

func digestOf(alg string, b []byte) string {
	h := newHash(alg)
	if h == nil {
		return ""
	}
	h.Write(b)
	return hex.EncodeToString(h.Sum(nil))
}

type invJSON struct {
	ID       string                         `json:"id"`
	Type     string                         `json:"type"`
	Alg      string                         `json:"digestAlgorithm"`
	Head     string                         `json:"head"`
	CDir     *string                        `json:"contentDirectory"`
	Manifest map[string][]string            `json:"manifest"`
	Fixity   map[string]map[string][]string `json:"fixity"`
	Versions map[string]struct {
		Created string              `json:"created"`
		State   map[string][]string `json:"state"`
		Message *string             `json:"message"`
		User    *struct {
			Name    *string `json:"name"`
			Address *string `json:"address"`
		} `json:"user"`
	} `json:"versions"`
}

var reVer = regexp.MustCompile(`^v(0*)([1-9][0-9]*)$`)
var reSide = regexp.MustCompile(`^([0-9a-fA-F]+)[ \t]+inventory\.json\n?$`)

// files returns the stored files of a location (inside the container for zip).
func (r *Run) files(dir string) (map[string][]byte, error) {
	if !r.C.Cfg.Zip {
		return r.W.Tree(dir, false), nil
	}
	b, ok := r.W.Get(join(dir, "archive.zip"))
	if !ok {
		return map[string][]byte{}, nil
	}
	return unzip(b)
}

func unzip(b []byte) (map[string][]byte, error) {
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, err
	}
	t := map[string][]byte{}
	for _, f := range zr.File {
		if _, dup := t[f.Name]; dup {
			return nil, fmt.Errorf("zip entry %q twice", f.Name)
		}
		rc, err := f.Open()
		if err != nil {
			return nil, err
		}
		d, err := io.ReadAll(rc)
		if err != nil {
			return nil, fmt.Errorf("zip entry %q: %w", f.Name, err)
		}
		t[f.Name] = d
	}
	return t, nil
}

// ReadRoot reads a storage root.
func ReadRoot(files map[string][]byte) *VRoot {
	v := &VRoot{Objs: map[string]*VObj{}, ByDir: map[string]*VObj{}, Files: files}
	names := make([]string, 0, len(files))
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	claimed := map[string]bool{}
	for _, n := range names {
		if !strings.Contains(n, "/") && strings.HasPrefix(n, "0=ocfl_") {
			if v.Version != "" {
				v.Problems = append(v.Problems, "two storage root declarations")
			}
			v.Version = strings.TrimPrefix(n, "0=ocfl_")
			if string(files[n]) != strings.TrimPrefix(n, "0=")+"\n" {
				v.Problems = append(v.Problems, "storage root declaration has wrong content")
			}
		}
	}
	if v.Version == "" {
		v.Problems = append(v.Problems, "no storage root declaration")
	}
	for _, n := range names {
		i := strings.LastIndexByte(n, '/')
		if i < 0 || !strings.HasPrefix(n[i+1:], "0=ocfl_object_") {
			continue
		}
		dir := n[:i]
		if strings.HasPrefix(dir, "extensions/") || dir == "extensions" {
			continue
		}
		// a declaration inside the content of another object is content
		inside := false
		for d := range v.ByDir {
			if strings.HasPrefix(dir, d+"/") {
				inside = true
			}
		}
		if inside {
			continue
		}
		sub := map[string][]byte{}
		for _, m := range names {
			if strings.HasPrefix(m, dir+"/") {
				sub[m[len(dir)+1:]] = files[m]
				claimed[m] = true
			}
		}
		o := ReadObj(sub)
		o.Dir = dir
		v.ByDir[dir] = o
		if p, ok := v.Objs[o.ID]; ok {
			v.Problems = append(v.Problems, fmt.Sprintf("object %q stored twice: %q and %q", o.ID, p.Dir, dir))
		}
		v.Objs[o.ID] = o
	}
	for _, n := range names {
		if claimed[n] || strings.HasPrefix(n, "extensions/") {
			continue
		}
		if !strings.Contains(n, "/") {
			if strings.HasPrefix(n, "0=ocfl_") || n == "ocfl_layout.json" || strings.HasPrefix(n, "ocfl_") || strings.HasSuffix(n, ".md") {
				continue
			}
		}
		v.Problems = append(v.Problems, fmt.Sprintf("file %q belongs to no object", n))
	}
	return v
}

// strictJSON finds duplicate keys, which encoding/json hides.
func dupKeys(b []byte) string {
	if !json.Valid(b) {
		return ""
	}
	d := json.NewDecoder(bytes.NewReader(b))
	var walk func() string
	walk = func() string {
		t, err := d.Token()
		if err != nil {
			return ""
		}
		switch t {
		case json.Delim('{'):
			seen := map[string]bool{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return ""
				}
				ks, _ := k.(string)
				if seen[ks] {
					return ks
				}
				seen[ks] = true
				if r := walk(); r != "" {
					return r
				}
			}
			d.Token()
		case json.Delim('['):
			for d.More() {
				if r := walk(); r != "" {
					return r
				}
			}
			d.Token()
		}
		return ""
	}
	return walk()
}

// ReadObj reads one object from its files.
func ReadObj(files map[string][]byte) *VObj {
	o := &VObj{Content: map[string]string{}}
	bad := func(f string, a ...any) { o.Problems = append(o.Problems, fmt.Sprintf(f, a...)) }
	soft := func(f string, a ...any) {
		bad(f, a...)
		o.Soft = append(o.Soft, o.Problems[len(o.Problems)-1])
	}
	for n := range files {
		if strings.HasPrefix(n, "0=ocfl_object_") {
			if o.Ver != "" {
				bad("two object declarations")
			}
			o.Ver = strings.TrimPrefix(n, "0=ocfl_object_")
			if string(files[n]) != strings.TrimPrefix(n, "0=")+"\n" {
				bad("object declaration has wrong content")
			}
		}
	}
	root := readInv(files, "", o, bad)
	if root == nil {
		return o
	}
	o.ID, o.Alg, o.Head, o.Fixity, o.Manifest = root.ID, root.Alg, root.Head, root.Fixity, root.Manifest
	cdir := "content"
	if root.CDir != nil {
		cdir = *root.CDir
	}
	if o.ID == "" {
		bad("no id")
	}
	if want := "https://ocfl.io/" + o.Ver + "/spec/#inventory"; root.Type != want {
		bad("inventory type %q instead of %q", root.Type, want)
	}
	if o.Alg != "sha512" && o.Alg != "sha256" {
		bad("digest algorithm %q", o.Alg)
	}
	// versions
	nums := map[int]string{}
	for v := range root.Versions {
		m := reVer.FindStringSubmatch(v)
		if m == nil {
			bad("version name %q", v)
			continue
		}
		n, _ := strconv.Atoi(m[2])
		if _, dup := nums[n]; dup {
			bad("version %d twice", n)
		}
		nums[n] = v
	}
	o.N = len(nums)
	for i := 1; i <= o.N; i++ {
		if _, ok := nums[i]; !ok {
			bad("versions are not consecutive: %d missing of %d", i, o.N)
			return o
		}
	}
	if o.N == 0 {
		bad("no version")
		return o
	}
	if o.Head != nums[o.N] {
		bad("head %q is not the newest version %q", o.Head, nums[o.N])
	}
	// manifest
	byPath := map[string]string{}
	checkPaths := func(what string, p string) {
		if p == "" || strings.HasPrefix(p, "/") || strings.HasSuffix(p, "/") {
			bad("%s path %q", what, p)
		}
		for _, e := range strings.Split(p, "/") {
			if e == "" || e == "." || e == ".." {
				bad("%s path %q has element %q", what, p, e)
			}
		}
	}
	lower := map[string]string{}
	for d, ps := range root.Manifest {
		if x, dup := lower[strings.ToLower(d)]; dup {
			bad("manifest digest %s.. twice (%s..)", d[:8], x[:8])
		}
		lower[strings.ToLower(d)] = d
		if len(ps) == 0 {
			bad("manifest digest without file")
		}
		for _, p := range ps {
			checkPaths("content", p)
			if _, dup := byPath[p]; dup {
				bad("content file %q listed twice in the manifest", p)
			}
			byPath[p] = d
			b, ok := files[p]
			if !ok {
				bad("content file %q does not exist", p)
				continue
			}
			if digestOf(o.Alg, b) != strings.ToLower(d) {
				bad("content file %q does not have its digest", p)
			}
			if e := strings.SplitN(p, "/", 3); len(e) < 3 || e[1] != cdir {
				bad("content file %q is not in a content folder", p)
			}
			o.Content[p] = string(b)
		}
	}
	for a, m := range root.Fixity {
		if newHash(a) == nil {
			bad("unknown fixity algorithm %q", a)
			continue
		}
		fseen := map[string]bool{}
		for d, ps := range m {
			for _, p := range ps {
				if _, ok := byPath[p]; !ok {
					bad("fixity of %q which is not in the manifest", p)
				}
				if fseen[p] {
					bad("fixity %s of %q twice", a, p)
				}
				fseen[p] = true
				if b, ok := files[p]; !ok || digestOf(a, b) != strings.ToLower(d) {
					bad("fixity %s of %q is wrong", a, p)
				}
			}
		}
	}
	// states
	used := map[string]bool{}
	for i := 1; i <= o.N; i++ {
		vn := nums[i]
		jv := root.Versions[vn]
		v := &VVer{Dir: vn, State: State{}, Digests: State{}, Created: jv.Created}
		t, err := time.Parse(time.RFC3339, jv.Created)
		if err != nil {
			bad("%s: creation time %q", vn, jv.Created)
		}
		v.Time = t
		if jv.Message != nil {
			v.Msg, v.HasMsg = *jv.Message, true
		}
		if jv.User != nil {
			if jv.User.Name == nil || *jv.User.Name == "" {
				bad("%s: user without name", vn)
			} else {
				v.User = *jv.User.Name
			}
			if jv.User.Address != nil {
				v.Addr = *jv.User.Address
			}
		}
		for d, ps := range jv.State {
			md, ok := lower[strings.ToLower(d)]
			if !ok {
				bad("%s: state digest %.8s.. not in manifest", vn, d)
				continue
			}
			if len(ps) > 0 {
				used[md] = true
			} else {
				bad("%s: state digest %.8s.. without logical path", vn, d)
			}
			var content []byte
			for _, cp := range root.Manifest[md] {
				content = files[cp]
			}
			for _, p := range ps {
				checkPaths("logical", p)
				if _, dup := v.State[p]; dup {
					bad("%s: logical path %q twice", vn, p)
				}
				v.State[p] = string(content)
				v.Digests[p] = strings.ToLower(d)
			}
		}
		for p := range v.State {
			for j := 0; j < len(p); j++ {
				if p[j] == '/' {
					if _, c := v.State[p[:j]]; c {
						bad("%s: logical path %q below logical path %q", vn, p, p[:j])
					}
				}
			}
		}
		o.Vers = append(o.Vers, v)
	}
	for md := range root.Manifest {
		if !used[md] {
			bad("manifest digest %.8s.. is in no state", md)
		}
	}
	// files on storage
	ns := make([]string, 0, len(files))
	for n := range files {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		e := strings.Split(n, "/")
		if len(e) == 1 {
			if n == "inventory.json" || n == "inventory.json."+o.Alg || strings.HasPrefix(n, "0=ocfl_object_") {
				continue
			}
			bad("file %q in the object root", n)
			continue
		}
		if e[0] == "extensions" || e[0] == "logs" {
			if e[0] == "extensions" && len(e) == 2 {
				bad("file %q in extensions", n)
			}
			continue
		}
		isVer := false
		for _, vn := range nums {
			if vn == e[0] {
				isVer = true
			}
		}
		if !isVer {
			bad("file %q belongs to no version", n)
			continue
		}
		if e[1] == cdir && len(e) > 2 {
			if _, ok := byPath[n]; !ok {
				bad("stored content %q is not in the manifest", n)
			}
			continue
		}
		if len(e) == 2 && (e[1] == "inventory.json" || strings.HasPrefix(e[1], "inventory.json.")) {
			continue
		}
		if len(e) > 2 {
			// ignored folder
			soft("file %q in version folder", n)
		} else {
			bad("file %q in version folder", n)
		}
	}
	// version inventories
	for i := 1; i <= o.N; i++ {
		vn := nums[i]
		if _, ok := files[vn+"/inventory.json"]; !ok {
			soft("%s has no inventory", vn)
			continue
		}
		vi := readInv(files, vn+"/", o, bad)
		if vi == nil {
			continue
		}
		if vi.Head != vn {
			bad("inventory of %s has head %q", vn, vi.Head)
		}
		if vi.ID != o.ID {
			bad("inventory of %s has id %q", vn, vi.ID)
		}
		if len(vi.Versions) != i {
			bad("inventory of %s lists %d versions", vn, len(vi.Versions))
		}
		for k, old := range vi.Versions {
			now, ok := root.Versions[k]
			if !ok {
				bad("inventory of %s has version %s which the newest does not have", vn, k)
				continue
			}
			if !sameFiles(files, vi, root, k) {
				bad("inventory of %s lists other files for %s than the newest inventory", vn, k)
			}
			if vi.Alg != root.Alg {
				soft("inventory of %s has another digest algorithm", vn)
				old.State, now.State = nil, nil
			}
			a, _ := json.Marshal(old)
			b, _ := json.Marshal(now)
			if !sameVersion(a, b) {
				soft("inventory of %s describes %s differently than the newest inventory", vn, k)
			}
		}
	}
	b, ok := files[o.Head+"/inventory.json"]
	if ok && !bytes.Equal(files["inventory.json"], b) {
		bad("root inventory differs from that of %s", o.Head)
	}
	return o
}

// sameFiles compares what two inventories of an object list for a version.
func sameFiles(files map[string][]byte, a, b *invJSON, ver string) bool {
	list := func(i *invJSON) State {
		s := State{}
		m := map[string]string{}
		for d, ps := range i.Manifest {
			for _, p := range ps {
				m[strings.ToLower(d)] = string(files[p])
			}
		}
		for d, ps := range i.Versions[ver].State {
			c, ok := m[strings.ToLower(d)]
			if !ok {
				c = "no content for " + d
			}
			for _, p := range ps {
				s[p] = c
			}
		}
		return s
	}
	return list(a).equal(list(b))
}

// sameVersion compares two version blocks up to order of paths.
func sameVersion(a, b []byte) bool {
	var x, y map[string]any
	json.Unmarshal(a, &x)
	json.Unmarshal(b, &y)
	norm := func(m map[string]any) string {
		if st, ok := m["state"].(map[string]any); ok {
			for k, v := range st {
				if l, ok := v.([]any); ok {
					var s []string
					for _, e := range l {
						s = append(s, fmt.Sprint(e))
					}
					sort.Strings(s)
					delete(st, k)
					st[strings.ToLower(k)] = s
				}
			}
		}
		if s, ok := m["created"].(string); ok {
			if t, err := time.Parse(time.RFC3339, s); err == nil {
				m["created"] = t.UTC().Format(time.RFC3339Nano)
			}
		}
		j, _ := json.Marshal(m)
		return string(j)
	}
	return norm(x) == norm(y)
}

func readInv(files map[string][]byte, pre string, o *VObj, bad func(string, ...any)) *invJSON {
	b, ok := files[pre+"inventory.json"]
	if !ok {
		bad("no %sinventory.json", pre)
		return nil
	}
	if k := dupKeys(b); k != "" {
		bad("%sinventory.json has key %q twice", pre, k)
	}
	var inv invJSON
	if err := json.Unmarshal(b, &inv); err != nil {
		bad("%sinventory.json: %v", pre, err)
		return nil
	}
	side, ok := files[pre+"inventory.json."+inv.Alg]
	if !ok {
		bad("%sinventory.json has no digest file", pre)
	} else if m := reSide.FindSubmatch(side); m == nil {
		bad("%sinventory.json digest file is malformed", pre)
	} else if strings.ToLower(string(m[1])) != digestOf(inv.Alg, b) {
		bad("%sinventory.json does not have the digest in its digest file", pre)
	}
	return &inv
}
