package core

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	mrand "math/rand"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/andybalholm/brotli"

	"verifsim/simos"
	"verifsim/simrt"
)

// C10: results do not depend on scheduling or iteration order.

func init() {
	Experiments["C10"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			o := Opt{MaxObj: 2, MaxUpd: 3, Acts: g.P(40), Names: g.N(2), Zip: 6, Ext: g.P(60), Areas: g.P(30), AreaActs: g.P(30), Links: true, Rec: g.P(70), Index: 40, Dedup: 40}
			o.Big = g.P(30)
			GenHist(g, c, o)
			c.X = map[string]string{}
			for i := 0; i < 1+g.N(2); i++ {
				c.X[fmt.Sprint(i)] = fmt.Sprintf("%d %d %d %d", g.U64()>>12, g.N(4), []int{0, 1, 2, 3, 7, 20, 100}[g.N(7)], g.N(2)*int(g.U64()>>12))
			}
		},
		Run: runC10,
	}
}

var reStamp = regexp.MustCompile(`\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(\.\d+)?( ?[+-]\d\d:?\d\d| ?Z| \+0000 UTC)?( UTC)?`)

// answers are what the reading operations say at the end.
func (h *Hist) answers() map[string][]byte {
	r := h.r
	out := map[string][]byte{}
	add := func(k, id string, man bool) {
		var a string
		o := r.Do(k, nil, func() error {
			var err error
			a, err = r.readOp(k, h.dir, id, "", "", "", man)
			return err
		})
		r.MustEnd(k, o)
		if o.Err != nil {
			a = "error"
		}
		if k == "extract" && o.Err == nil {
			a = ""
			for p, b := range r.W.Tree("/dst", false) {
				if strings.HasPrefix(p, "manifest.") {
					a += p + "\n" // digests of records
				} else {
					if r.C.Cfg.record(p) {
						b = unpack(p, b)
					}
					a += p + " " + hash8(string(b)) + "\n"
				}
			}
			a = sortedLines(a)
		}
		a = reStamp.ReplaceAllString(a, "time")
		out["answer to "+k+" "+id] = []byte(a)
	}
	add("validate", "", false)
	for _, id := range r.C.IDs {
		if h.Model[id] == nil {
			continue
		}
		for _, k := range []string{"list", "object", "metaobj", "extract"} {
			add(k, id, k == "extract")
		}
	}
	return out
}

func (h *Hist) runTwin(first bool) map[string][]byte {
	r := h.r
	h.MustCreate()
	k := 0
	for i := range r.C.Ops {
		op := &r.C.Ops[i]
		setClock(1_700_000_000_000_000_000 + int64(i)*int64(24*time.Hour))
		switch op.K {
		case "upd":
			r.streams = nil
			h.Update(op)
			h.judgeStreams(op)
			k += len(r.streams)
		case "reopen":
			h.Reopen()
		}
	}
	t := normTimes(h.snapshotTree())
	for p, b := range t {
		t[p] = unpack(p, b)
	}
	for p, b := range h.answers() {
		t[p] = b
	}
	if first {
		r.NonTriv = k > 0
		r.Note += fmt.Sprintf("%d streams, ", k)
	}
	return t
}

// judgeStreams: every consumer sees every ingested stream.
func (h *Hist) judgeStreams(op *Op) {
	r := h.r
	c := &r.C.Cfg
	known := map[string]bool{"": true}
	for i := range op.Acts {
		if a := &op.Acts[i]; a.C != "" {
			known[string(Content(a.C))] = true
		}
	}
	all := [][]FileSpec{op.Files}
	for _, fs := range op.Src2 {
		all = append(all, fs)
	}
	for _, fs := range all {
		for _, f := range fs {
			known[specContent(fs, f)] = true
		}
	}
	per := map[string][]string{}
	last := map[string]map[string]*StreamRec{}
	names := []string{}
	for _, e := range c.Ext {
		if strings.HasPrefix(e, "NNNN-recorder-") {
			names = append(names, e)
			last[e] = map[string]*StreamRec{}
		}
	}
	for _, s := range r.streams {
		if s.Lazy {
			ok := c.inGenerated(s.Dest)
			for k := range known {
				ok = ok || strings.HasPrefix(k, string(s.Data))
			}
			if !ok {
				r.Fail("stream", "%s saw %s for %q, which no source starts with", s.Ext, short(string(s.Data)), s.Dest)
			}
		} else {
			if s.Err != "EOF" {
				r.Fail("stream", "the stream of %q ended with %q for %s", s.Dest, s.Err, s.Ext)
			}
			if !known[string(s.Data)] && !c.inGenerated(s.Dest) && len(c.Areas) == 0 {
				r.Fail("stream", "%s saw %s for %q, which is no source", s.Ext, short(string(s.Data)), s.Dest)
			}
		}
		sort.Strings(s.Files)
		per[s.Ext] = append(per[s.Ext], fmt.Sprintf("%s %s %s %q", s.ID, s.Head, s.Dest, s.Files))
		last[s.Ext][s.Dest] = s
	}
	for i := 1; i < len(names); i++ {
		a, b := strings.Join(per[names[0]], "\n"), strings.Join(per[names[i]], "\n")
		if a != b {
			r.Fail("stream", "%s and %s saw different streams:\n%s", names[0], names[i], lineDiff(a, b))
		}
	}
	if len(names) == 0 {
		return
	}
	id := r.C.IDs[op.Obj]
	v := h.Read()
	o := v.Objs[id]
	if o == nil || o.N == 0 || len(h.Model[id].Vers) != o.N {
		return
	}
	head := o.Vers[o.N-1]
	f, err := r.files(h.dir)
	if err != nil {
		return
	}
	for p, b := range f {
		pre := o.Dir + "/" + head.Dir + "/"
		if !strings.HasPrefix(p, pre) || strings.Count(p[len(pre):], "/") == 0 {
			continue
		}
		in := p[len(o.Dir)+1:]
		skip := c.record(in) || len(b) == 0 && c.folderMarker() != ""
		for l, x := range head.State {
			if x == string(b) && (c.inGenerated(l) || c.record(l)) {
				skip = true
			}
		}
		if skip || len(r.streams) == 0 {
			continue
		}
		for _, n := range names {
			var s *StreamRec
			for d, x := range last[n] {
				if strings.HasSuffix(in, "/"+d) && strings.Count(in, "/") == strings.Count(d, "/")+2 {
					s = x
				}
			}
			if s == nil {
				if strings.HasSuffix(in, "/README.md") {
					continue
				}
				r.Fail("stream", "%s never saw the stored file %q; it saw %q", n, in, per[n])
			}
			if !s.Lazy && !bytes.Equal(s.Data, b) {
				r.Fail("stream", "%s saw %s for %q, stored is %s", n, short(string(s.Data)), in, short(string(b)))
			}
		}
	}
}

func runC10(r *Run) {
	h := r.NewHist()
	a := h.runTwin(true)
	h.noteFolders()
	for i := 0; ; i++ {
		x, ok := r.C.X[fmt.Sprint(i)]
		if !ok {
			break
		}
		var seed, short uint64
		var mode uint32
		var yield uint32
		fmt.Sscan(x, &seed, &mode, &yield, &short)
		runtime.SimSwitch(seed, mode)
		mrand.Seed(int64(seed))
		simrt.Switch(seed^0x51, yield)
		r.W = simos.NewWorld()
		simos.W = r.W
		r.W.Boot()
		r.W.ShortReads = short
		h2 := r.NewHist()
		b := h2.runTwin(false)
		if !sameTree(a, b) {
			r.Fail("differs", "another schedule (%s) leads to another result: %s\n%s", x, treeDiff(a, b), firstDiff(a, b))
		}
	}
	h.note()
	r.Note += fmt.Sprintf("; %d schedules", 1+len(r.C.X))
}

// unpack is the text of a record.
func unpack(p string, b []byte) []byte {
	var rd io.Reader
	switch {
	case strings.HasSuffix(p, ".gz"):
		z, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return b
		}
		rd = z
	case strings.HasSuffix(p, ".br"):
		rd = brotli.NewReader(bytes.NewReader(b))
	default:
		return b
	}
	t, err := io.ReadAll(rd)
	if err != nil {
		return b
	}
	return t
}

// repack is the record with this text.
func repack(p string, t []byte) []byte {
	var b bytes.Buffer
	switch {
	case strings.HasSuffix(p, ".gz"):
		w := gzip.NewWriter(&b)
		w.Write(t)
		w.Close()
	case strings.HasSuffix(p, ".br"):
		w := brotli.NewWriter(&b)
		w.Write(t)
		w.Close()
	default:
		return t
	}
	return b.Bytes()
}

// firstDiff shows where a file differs.
func firstDiff(a, b map[string][]byte) string {
	ks := treeState(a).keys()
	sort.SliceStable(ks, func(i, j int) bool { return strings.Contains(ks[i], ".jsonl") && !strings.Contains(ks[j], ".jsonl") })
	for _, p := range ks {
		if x, y := a[p], b[p]; b[p] != nil && !bytes.Equal(x, y) {
			i := 0
			for i < len(x) && i < len(y) && x[i] == y[i] {
				i++
			}
			f := max(0, i-40)
			return fmt.Sprintf("%s at %d:\n%q\n%q", p, i, x[f:min(len(x), i+80)], y[f:min(len(y), i+80)])
		}
	}
	return ""
}
