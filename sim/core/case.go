// Package core generates, executes and judges simulated runs of gocfl.
package core

import (
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verifsim/simos"
)

// Rng is the only source of randomness of case generation.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed ^ 0xa0761d6478bd642f} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) P(percent int) bool      { return r.N(100) < percent }
func (r *Rng) Pick(s ...string) string { return s[r.N(len(s))] }

// Sched is the schedule of a case.
type Sched struct {
	Seed  uint64 `json:"seed"`
	Mode  uint32 `json:"mode"`
	Yield uint32 `json:"yield"` // one in Yield statements is a preemption; 0 none
	Short uint64 `json:"short,omitempty"`
}

// Config is the configuration of the storage root and its objects.
type Config struct {
	Version string            `json:"version"`
	Digest  string            `json:"digest"`
	Fixity  []string          `json:"fixity,omitempty"`
	Layout  string            `json:"layout"` // key of layouts
	LP      map[string]any    `json:"lp,omitempty"`
	Ext     []string          `json:"ext,omitempty"` // object extensions
	EP      map[string]any    `json:"ep,omitempty"`
	NoMgr   bool              `json:"nomgr,omitempty"` // manager without sort/exclusion
	Zip     bool              `json:"zip,omitempty"`
	Store   bool              `json:"store,omitempty"` // zip without compression
	Areas   map[string]string `json:"areas,omitempty"` // content-subpath
	Area    string            `json:"area,omitempty"`  // default area
	Cache   bool              `json:"cache,omitempty"` // indexer works with temporary files
}

// FileSpec is one file of the source.
type FileSpec struct {
	P string `json:"p"`
	C string `json:"c"`           // content tag.size
	L string `json:"l,omitempty"` // symbolic link target
}

// Act is one call between StartUpdate and EndUpdate.
type Act struct {
	A    string   `json:"a"` // folder file data reader del ren
	P    string   `json:"p,omitempty"`
	Ps   []string `json:"ps,omitempty"`
	C    string   `json:"c,omitempty"`
	To   string   `json:"to,omitempty"`
	Area string   `json:"area,omitempty"`
	Src  int      `json:"src,omitempty"` // which source folder
}

// Op is one step of a case.
type Op struct {
	K      string                `json:"k"`
	Obj    int                   `json:"obj,omitempty"`
	Files  []FileSpec            `json:"files,omitempty"`
	Src2   map[string][]FileSpec `json:"src2,omitempty"` // area -> files
	Acts   []Act                 `json:"acts,omitempty"`
	Msg    string                `json:"msg,omitempty"`
	User   string                `json:"user,omitempty"`
	Addr   string                `json:"addr,omitempty"`
	Echo   bool                  `json:"echo,omitempty"`
	Dedup  bool                  `json:"dedup,omitempty"`
	Abort  string                `json:"abort,omitempty"` // give up before: end, close
	Keep   bool                  `json:"keep,omitempty"`  // goes on with the object as left by the update before
	Faults []simos.Fault         `json:"faults,omitempty"`
	V      string                `json:"v,omitempty"`
	Man    bool                  `json:"man,omitempty"`
	Area   string                `json:"area,omitempty"`
	N      int                   `json:"n,omitempty"`
	S      string                `json:"s,omitempty"`
	T      int64                 `json:"t,omitempty"`
	Src    string                `json:"src,omitempty"`  // source of metadata: none, empty
	Fo     uint64                `json:"fo,omitempty"`   // afterwards the object is stored anew in the style of other software
	Want   string                `json:"want,omitempty"` // features of that style
}

// Case is one simulated run, completely.
type Case struct {
	Prop  string            `json:"prop"`
	Seed  uint64            `json:"seed"`
	Sched Sched             `json:"sched"`
	Cfg   Config            `json:"cfg"`
	IDs   []string          `json:"ids"`
	Ops   []Op              `json:"ops"`
	Kind  string            `json:"kind,omitempty"` // variant of the property's experiment
	X     map[string]string `json:"x,omitempty"`
}

func (c *Case) JSON() []byte {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	return b
}

// Content expands a content tag to bytes. "tag.size"; tag "z" are zero bytes.
func Content(c string) []byte {
	if strings.HasPrefix(c, "img:") {
		return Image(c)
	}
	i := strings.LastIndexByte(c, '.')
	if i < 0 {
		return []byte(c)
	}
	n, _ := strconv.Atoi(c[i+1:])
	tag := c[:i]
	b := make([]byte, n)
	if tag == "z" {
		return b
	}
	h := sha512.Sum512([]byte(tag))
	r := NewRng(uint64(h[0])<<40 | uint64(h[1])<<32 | uint64(h[2])<<16 | uint64(h[3])<<8 | uint64(h[4]))
	pre := "<" + tag + ">"
	k := copy(b, pre)
	if strings.HasPrefix(tag, "t") { // text
		for ; k < n; k++ {
			b[k] = "abcdefghijklmnop qrstuvwxyz\n012"[r.N(31)]
		}
	} else {
		for ; k < n; k++ {
			b[k] = byte(r.U64())
		}
	}
	return b
}

// State maps logical path to bytes.
type State map[string]string

func (s State) clone() State {
	r := State{}
	for k, v := range s {
		r[k] = v
	}
	return r
}

func (s State) equal(t State) bool {
	if len(s) != len(t) {
		return false
	}
	for k, v := range s {
		if w, ok := t[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func (s State) keys() []string {
	r := make([]string, 0, len(s))
	for k := range s {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func short(b string) string {
	if len(b) > 24 {
		return fmt.Sprintf("%d bytes #%s", len(b), hash8(b))
	}
	return strconv.Quote(b)
}

func hash8(b string) string {
	h := sha512.Sum512([]byte(b))
	return hex.EncodeToString(h[:4])
}

// diffStates describes the first differences.
func diffStates(want, got State) string {
	var d []string
	for _, k := range want.keys() {
		g, ok := got[k]
		if !ok {
			d = append(d, fmt.Sprintf("missing %q", k))
		} else if g != want[k] {
			d = append(d, fmt.Sprintf("%q has %s instead of %s", k, short(g), short(want[k])))
		}
	}
	for _, k := range got.keys() {
		if _, ok := want[k]; !ok {
			d = append(d, fmt.Sprintf("additional %q", k))
		}
	}
	if len(d) > 5 {
		d = append(d[:5], fmt.Sprintf("... %d differences", len(d)))
	}
	return strings.Join(d, "; ")
}

func treeState(t map[string][]byte) State {
	s := State{}
	for k, v := range t {
		s[k] = string(v)
	}
	return s
}
