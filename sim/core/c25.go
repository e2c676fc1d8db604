package core

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"io/fs"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/je4/gocfl/v2/config"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/gocfl/v2/pkg/subsystem/thumbnail"
	configutil "github.com/je4/utils/v2/pkg/config"
	"golang.org/x/image/bmp"

	"verifsim/simexec"
	"verifsim/simos"
)

// C25: thumbnails.

const thumbName = "NNNN-thumbnail"

// thumbFunc is a configured program which makes thumbnails.
type thumbFunc struct {
	Name    string   `json:"name"`
	Pronoms []string `json:"pronoms"`
	Mime    []string `json:"mime"`
	Timeout int      `json:"timeout"` // seconds
}

type thumbRun struct {
	fn, content string
	args        []string
}

// Image makes the bytes of a picture of one colour: img:FORMAT:WIDTH:HEIGHT:COLOUR[:cut|:junk].
func Image(tag string) []byte {
	p := strings.Split(tag, ":")
	w, _ := strconv.Atoi(p[2])
	h, _ := strconv.Atoi(p[3])
	n, _ := strconv.Atoi(p[4])
	m := image.NewRGBA(image.Rect(0, 0, w, h))
	col := colour(n)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			m.Set(x, y, col)
		}
	}
	var b bytes.Buffer
	switch p[1] {
	case "png":
		_ = png.Encode(&b, m)
	case "jpeg":
		_ = jpeg.Encode(&b, m, &jpeg.Options{Quality: 95})
	case "gif":
		pal := image.NewPaletted(m.Bounds(), color.Palette{col, color.RGBA{0, 0, 0, 255}})
		_ = gif.Encode(&b, pal, nil)
	case "bmp":
		_ = bmp.Encode(&b, m)
	}
	if len(p) > 5 && p[5] == "cut" {
		return b.Bytes()[:b.Len()*2/3]
	}
	if len(p) > 5 && p[5] == "junk" {
		return append(b.Bytes(), Content("J.3000")...)
	}
	return b.Bytes()
}

func colour(n int) color.RGBA {
	return color.RGBA{uint8(40 + n*37%200), uint8(40 + n*91%200), uint8(40 + n*53%200), 255}
}

// sameColour compares the middle of two pictures.
func sameColour(a, b image.Image) bool {
	at := func(m image.Image) [3]int {
		r := m.Bounds()
		x, y, z, _ := m.At(r.Min.X+r.Dx()/2, r.Min.Y+r.Dy()/2).RGBA()
		return [3]int{int(x >> 8), int(y >> 8), int(z >> 8)}
	}
	p, q := at(a), at(b)
	for i := range p {
		if d := p[i] - q[i]; d > 12 || d < -12 {
			return false
		}
	}
	return true
}

func genImage(g *Rng) string {
	dim := func() int { return []int{1, 2, 3, 7, 16, 17, 31, 40, 64, 100}[g.N(10)] }
	w, h := dim(), dim()
	if g.P(6) {
		w, h = 1, 300
	} else if g.P(6) {
		w, h = 300, 1
	}
	f := g.Pick("png", "png", "jpeg", "gif", "bmp")
	if f == "bmp" && g.P(20) {
		h = 0
	}
	s := fmt.Sprintf("img:%s:%d:%d:%d", f, w, h, g.N(6))
	if g.P(10) {
		s += g.Pick(":cut", ":junk")
	}
	return s
}

func (r *Run) thumbFuncs() []thumbFunc {
	var out []thumbFunc
	_ = json.Unmarshal([]byte(r.C.X["th"]), &out)
	return out
}

var thumbFates = []string{"ok", "ok", "ok", "ok", "ok", "empty", "same", "slow", "fail", "partial", "nothing", "hang"}

func (r *Run) thumbFate(fn, content string) (kind, out string, ok bool) {
	kind = "ok"
	if r.C.X["fates"] != "" {
		kind = thumbFates[int(hash32(r.C.X["fates"]+fn+"\x00"+content))%len(thumbFates)]
	}
	out = "thumbnail by " + fn + " of " + digestOf("md5", []byte(content)) + "\n"
	switch kind {
	case "same":
		out = "the same for all"
	case "empty":
		out = ""
	}
	return kind, out, kind == "ok" || kind == "empty" || kind == "same" || kind == "slow"
}

func (r *Run) thumbProgram(fn string) simexec.Program {
	return func(ctx context.Context, c *simexec.Cmd) error {
		if len(c.Args) != 6 {
			r.Fail("program", "program %s is called with %q", fn, c.Args)
		}
		src, dst := c.Args[1], c.Args[2]
		b, ok := simos.W.Get(src)
		if !ok {
			r.Fail("program", "program %s is called with %q, which does not exist", fn, src)
		}
		r.made++
		r.thumbRuns = append(r.thumbRuns, thumbRun{fn, string(b), append([]string{}, c.Args[1:]...)})
		kind, out, good := r.thumbFate(fn, string(b))
		r.Probe("program: " + kind)
		switch kind {
		case "nothing":
			return nil
		case "fail":
			return &simexec.ExitError{Code: "exit status 1"}
		case "partial":
			simos.W.Put(dst, []byte(out[:len(out)/2]))
			return &simexec.ExitError{Code: "exit status 2"}
		case "hang":
			simos.W.Put(dst, []byte(out[:len(out)/2]))
			<-ctx.Done()
			return ctx.Err()
		case "slow":
			select {
			case <-ctx.Done():
				return ctx.Err()
			case <-time.After(3 * time.Second):
			}
		}
		if !good {
			return errors.New("fate")
		}
		simos.W.Put(dst, []byte(out))
		return nil
	}
}

func (r *Run) addThumbnail(f *ocfl.ExtensionFactory) {
	if r.C.X["th"] == "" {
		return
	}
	conf := &config.GOCFLConfig{Thumbnail: &config.Thumbnail{Enabled: true, Background: "#abcdef", Function: map[string]*config.ThumbnailFunction{}}}
	for _, x := range r.thumbFuncs() {
		simexec.Programs["thumb-"+x.Name] = r.thumbProgram(x.Name)
		conf.Thumbnail.Function[x.Name] = &config.ThumbnailFunction{ID: "id-" + x.Name, Title: x.Name, Command: "thumb-" + x.Name + " {source} {destination} {width} {height} {background}",
			Timeout: configutil.Duration(time.Duration(x.Timeout) * time.Second), Pronoms: x.Pronoms, Mime: x.Mime}
	}
	m, err := thumbnail.GetThumbnails(conf)
	if err != nil {
		panic(&Inconclusive{err.Error()})
	}
	if r.C.X["srcfs"] != "" {
		m.SetSourceFS(&srcFS{r})
	}
	f.AddCreator(thumbName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewThumbnailFS(x, m, r.Log) })
}

func genThumb(g *Rng, c *Case) {
	fs := []thumbFunc{}
	free := []string{"fmt/0", "fmt/1", "fmt/2", "fmt/3", "fmt/4"}
	for i, n := 0, g.N(4); i < n && len(free) > 1; i++ {
		f := thumbFunc{Name: string(rune('p' + i)), Timeout: 5 + g.N(20)}
		for k := 1 + g.N(2); k > 0 && len(free) > 1; k-- {
			x := g.N(len(free))
			f.Pronoms = append(f.Pronoms, free[x])
			free = append(free[:x], free[x+1:]...)
		}
		if i == 0 && g.P(30) {
			f.Mime = []string{g.Pick(`^test/sieg.*$`, `^test/`, `^other/x$`)}
		}
		fs = append(fs, f)
	}
	c.X = map[string]string{"th": toJSON(fs)}
	if g.P(75) {
		c.X["fates"] = fmt.Sprint(g.N(1000000))
	}
	c.Cfg.NoMgr = false
	if c.Cfg.hasExt("NNNN-indexer") {
		ix := c.Cfg.EP["NNNN-indexer"].(map[string]any)
		a := []string{"siegfried"}
		for _, x := range toStrings(ix["actions"]) {
			if x != "siegfried" {
				a = append(a, x)
			}
		}
		ix["actions"] = a
	}
	c.Cfg.Ext = append(c.Cfg.Ext, thumbName)
	dim := func() int { return []int{1, 8, 16, 20, 32, 64}[g.N(6)] }
	c.Cfg.EP[thumbName] = map[string]any{"storageType": g.Pick("extension", "path", "area"), "storageName": "metadata", "compress": g.Pick("none", "gzip", "brotli"),
		"ext": g.Pick("png", "png", "png", "jpeg", "jpeg", "PNG", "webp"), "width": dim(), "height": dim(), "singleDirectory": g.P(50)}
	fixArea(&c.Cfg, thumbName, g)
	// pictures
	img := map[string]string{}
	pic := func(x string) string {
		if _, ok := img[x]; !ok {
			img[x] = x
			if g.P(50) {
				img[x] = genImage(g)
			}
		}
		return img[x]
	}
	for i := range c.Ops {
		op := &c.Ops[i]
		for k := range op.Files {
			if op.Files[k].C != "" {
				op.Files[k].C = pic(op.Files[k].C)
			}
		}
		var as []string
		for a := range op.Src2 {
			as = append(as, a)
		}
		sort.Strings(as)
		for _, n := range as {
			a := op.Src2[n]
			for k := range a {
				if a[k].C != "" {
					a[k].C = pic(a[k].C)
				}
			}
		}
		for k := range op.Acts {
			if op.Acts[k].C != "" {
				op.Acts[k].C = pic(op.Acts[k].C)
			}
		}
	}
}

func init() {
	Experiments["C25"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			o := Opt{MaxObj: 2, MaxUpd: 4, Acts: g.P(40), Ext: g.P(30), Areas: g.P(35), Links: g.P(20), Index: 75, Dedup: 50}
			if g.P(25) {
				o.Names = 1
			}
			o.AreaActs = o.Areas && g.P(50)
			if g.P(15) {
				o.Zip, o.Acts, o.AreaActs, o.Links, o.NoNest = 100, false, false, false, true
			}
			GenHist(g, c, o)
			genThumb(g, c)
			genSrc(g, c, &o)
			if o.Zip == 0 && g.P(50) && len(c.Ops) > 0 {
				op := &c.Ops[g.N(len(c.Ops))]
				if op.K == "upd" {
					op.K = "fault"
					op.N = g.N(2)
					switch g.N(6) {
					case 0:
						op.Faults = []simos.Fault{genFault(g, "tmp", append(writeFaults, readFaults...), 100000)}
					case 1:
						op.Faults = []simos.Fault{genFault(g, "st", readFaults, 100000)}
					case 2, 3, 4:
						op.Faults = []simos.Fault{genFault(g, "st", writeFaults, 100000)}
					default:
						op.Faults = []simos.Fault{genCrash(g, 100000)}
					}
				}
			}
		},
		Run: runC25,
	}
}

// thumbFile matches what the extension stores among the files of an object.
var thumbFile = regexp.MustCompile(`(^|/)v\d+(/[0-9a-f]/[0-9a-f])?/\d{5}\.(png|jpeg|webp)$`)

type thumbRecord struct {
	Ext          string `json:"ext"`
	Error        string `json:"error"`
	ID           string `json:"id"`
	Filename     string `json:"filename"`
	ThumbDigest  string `json:"thumbDigest"`
	SourceDigest string `json:"sourceDigest"`
}

func (c *Config) thumbRecords(v *VRoot, o *VObj, k int) ([]thumbRecord, bool) {
	ls, ok := c.recordLines(v, o, thumbName, "thumbnail", k)
	var out []thumbRecord
	_ = json.Unmarshal([]byte(toJSON(ls)), &out)
	return out, ok
}

// stored returns a recorded thumbnail of version k.
func (c *Config) stored(v *VRoot, o *VObj, k int, name string) (string, bool) {
	m := c.EP[thumbName].(map[string]any)
	if m["storageType"] == "extension" {
		b, ok := v.Files[join(o.Dir, "extensions", thumbName, name)]
		return string(b), ok
	}
	s, ok := o.Vers[k].State[name]
	return s, ok
}

func (c *Config) thumbInt(n string) int {
	f, _ := strconv.Atoi(fmt.Sprint(c.EP[thumbName].(map[string]any)[n]))
	return f
}

// wantSize is how large the thumbnail of a picture is.
func wantSize(w, h, tw, th int) (int, int) {
	if w*th > h*tw {
		return tw, max(1, h*tw/w)
	}
	return max(1, w*th/h), th
}

// judgeThumbs looks at the versions made since an update began.
func (h *Hist) judgeThumbs(id string, before int, loose bool) {
	r := h.r
	c := &r.C.Cfg
	fail := func(class, f string, a ...any) { r.Fail(class, "%q: %s", id, fmt.Sprintf(f, a...)) }
	v := h.Read()
	o := v.Objs[id]
	if len(h.Model[id].Vers) == before {
		if len(r.thumbRuns) > 0 {
			fail("program", "program %s ran though there is no new version", r.thumbRuns[0].fn)
		}
		return
	}
	k := before
	if o == nil || o.N != k+1 {
		fail("version", "version %d is missing", k+1)
	}
	x := o.Vers[k]
	ext := strings.ToLower(fmt.Sprint(c.EP[thumbName].(map[string]any)["ext"]))
	internal := ext == "png" || ext == "jpeg"
	tw, th := c.thumbInt("width"), c.thumbInt("height")
	content := map[string]string{}
	for d, ps := range o.Manifest {
		content[d] = o.Content[ps[0]]
	}
	// records
	known := map[string]bool{}
	for y := 0; y < k; y++ {
		ls, _ := c.thumbRecords(v, o, y)
		for _, l := range ls {
			known[l.SourceDigest] = true
			if l.ThumbDigest != "" {
				known[strings.ToLower(l.ThumbDigest)] = true // nothing is made of thumbnails
			}
		}
	}
	recs, _ := c.thumbRecords(v, o, k)
	got := map[string]*thumbRecord{}
	files := map[string]string{}
	for i := range recs {
		l := &recs[i]
		d := l.SourceDigest
		if _, ok := content[d]; !ok {
			fail("record", "%s records a thumbnail of unknown content %q", x.Dir, d)
		}
		if got[d] != nil {
			fail("record", "%s records the thumbnail of %q twice", x.Dir, o.Manifest[d])
		}
		got[d] = l
		if l.Ext != "" && strings.ToLower(l.Ext) != ext {
			fail("record", "the thumbnail of %q is recorded as %q", o.Manifest[d], l.Ext)
		}
		if (l.Error == "") == (l.Filename == "") {
			fail("record", "the thumbnail of %q is recorded with name %q and error %q", o.Manifest[d], l.Filename, l.Error)
		}
		if l.Error != "" {
			continue
		}
		b, ok := c.stored(v, o, k, l.Filename)
		if !ok {
			fail("stored", "the thumbnail %q of %q does not exist", l.Filename, o.Manifest[d])
		}
		if e, ok := files[l.Filename]; ok {
			fail("stored", "%q is the thumbnail of %q and %q", l.Filename, o.Manifest[d], o.Manifest[e])
		}
		files[l.Filename] = d
		if td := strings.ToLower(l.ThumbDigest); c.inMirror(thumbName) && td != digestOf(o.Alg, []byte(b)) {
			fail("record", "the thumbnail %q of %q has the digest %s, recorded is %q", l.Filename, o.Manifest[d], digestOf(o.Alg, []byte(b)), td)
		}
		if l.ID != "internal" {
			continue
		}
		r.Probe("internal thumbnail")
		r.made++
		src, _, err := image.Decode(strings.NewReader(content[d]))
		if err != nil {
			fail("picture", "%q is no picture, but has the thumbnail %q", o.Manifest[d], l.Filename)
		}
		img, f, err := image.Decode(strings.NewReader(b))
		if err != nil || f != ext {
			fail("picture", "the thumbnail %q of %q is %s %v", l.Filename, o.Manifest[d], f, err)
		}
		if !sameColour(src, img) {
			fail("picture", "the thumbnail %q of %q shows another picture", l.Filename, o.Manifest[d])
		}
		s, g := src.Bounds(), img.Bounds()
		ww, wh := wantSize(s.Dx(), s.Dy(), tw, th)
		if g.Dx() > tw || g.Dy() > th || g.Dx() < ww-1 || g.Dy() < wh-1 || g.Dx() > ww+1 || g.Dy() > wh+1 {
			fail("picture", "the thumbnail %q of %q (%dx%d) has %dx%d; at most %dx%d is configured", l.Filename, o.Manifest[d], s.Dx(), s.Dy(), g.Dx(), g.Dy(), tw, th)
		}
		if s.Dx() != s.Dy() {
			r.Probe("thumbnail of an oblong picture")
		}
	}
	// every picture has one
	user := map[string]bool{}
	for n, d := range x.Digests {
		if !c.record(n) {
			user[d] = true
		}
	}
	var ds []string
	for d := range content {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	pro := c.indexed(v, o, k+1)
	funcs := r.thumbFuncs()
	ran := map[string]int{}
	for _, y := range r.thumbRuns {
		ran[digestOf(o.Alg, []byte(y.content))]++
	}
	for _, d := range ds {
		names := o.Manifest[d]
		l := got[d]
		if internal && user[d] && l == nil && !known[d] {
			img, _, err := image.Decode(strings.NewReader(content[d]))
			if err == nil && !img.Bounds().Empty() {
				fail("missing", "the picture %q has no thumbnail in %s", names, x.Dir)
			}
		}
		// programs
		var fs []*thumbFunc
		if p, ok := pro[d]; ok {
			for i := range funcs {
				if contains(funcs[i].Pronoms, p[0]) {
					fs = append(fs, &funcs[i])
				}
			}
			if len(fs) == 0 {
				for i := range funcs {
					for _, m := range funcs[i].Mime {
						if regexp.MustCompile(m).MatchString(p[1]) {
							fs = append(fs, &funcs[i])
						}
					}
				}
			}
		}
		want := 0
		if len(fs) > 0 && !known[d] && (l == nil || l.ID != "internal") {
			want = 1
		}
		put := false // not to be read before the container is closed
		if c.Zip && len(fs) > 0 {
			put = true
			for n, y := range x.Digests {
				if _, ok := h.Model[id].Vers[k].State[n]; ok && y == d && (len(c.Areas) == 0 || strings.HasPrefix(n, c.Areas[c.defArea()]+"/")) {
					put = false
				}
			}
		}
		if ran[d] != want && !((loose || put) && ran[d] < want) {
			fail("program", "a program ran %d times for %q", ran[d], names)
		}
		if l == nil && want == 1 && ran[d] == 0 {
			r.Probe("put off")
			continue
		}
		if want == 0 {
			if l != nil && l.ID != "internal" {
				fail("record", "%s records a thumbnail of %q by %q", x.Dir, names, l.ID)
			}
			continue
		}
		if l == nil {
			fail("missing", "there is no record in %s of the thumbnail of %q", x.Dir, names)
		}
		var f *thumbFunc
		for _, y := range fs {
			if l.ID == "id-"+y.Name {
				f = y
			}
		}
		if f == nil {
			fail("record", "the thumbnail of %q is recorded as one by %q", names, l.ID)
		}
		_, out, good := r.thumbFate(f.Name, content[d])
		if !good && l.Error == "" || good && l.Error != "" && !loose {
			fail("record", "the thumbnail of %q (success: %v) is recorded with error %q", names, good, l.Error)
		}
		if l.Error == "" {
			if b, _ := c.stored(v, o, k, l.Filename); b != out {
				fail("stored", "the thumbnail %q of %q is %s instead of %s", l.Filename, names, short(b), short(out))
			}
			r.Probe("thumbnail by program")
		} else if good {
			r.Probe("program failed by a fault")
		}
	}
	for _, y := range r.thumbRuns {
		d := digestOf(o.Alg, []byte(y.content))
		l := got[d]
		if _, ok := content[d]; !ok {
			fail("program", "program %s ran for something else than content", y.fn)
		}
		if l != nil && l.ID != "id-"+y.fn {
			fail("program", "program %s ran for %q instead of %s", y.fn, o.Manifest[d], l.ID)
		}
		if y.args[2] != fmt.Sprint(tw) || y.args[3] != fmt.Sprint(th) || y.args[4] != "#abcdef" || !strings.HasSuffix(y.args[1], "."+ext) {
			fail("program", "program %s is called with %q", y.fn, y.args)
		}
	}
}

// indexed are format and type of the contents by the records of the indexer up to version n.
func (c *Config) indexed(v *VRoot, o *VObj, n int) map[string][2]string {
	out := map[string][2]string{}
	if !c.hasExt("NNNN-indexer") {
		return out
	}
	byPath := map[string]string{}
	for d, ps := range o.Manifest {
		for _, p := range ps {
			byPath[p] = d
		}
	}
	for k := 0; k < n; k++ {
		ls, _ := c.recordLines(v, o, "NNNN-indexer", "indexer", k)
		for _, l := range ls {
			p, _ := l["Path"].(string)
			x, _ := l["Indexer"].(map[string]any)
			if d, ok := byPath[p]; ok {
				a, _ := x["pronom"].(string)
				b, _ := x["mimetype"].(string)
				out[d] = [2]string{a, b}
			}
		}
	}
	return out
}

// checkThumbMeta: the metadata tells the thumbnails, which can be found by their names.
func (h *Hist) checkThumbMeta() {
	r := h.r
	c := &r.C.Cfg
	v := h.Read()
	for _, id := range r.C.IDs {
		o := v.Objs[id]
		if o == nil {
			continue
		}
		var m *ocfl.ObjectMetadata
		r.Ok("metadata", "failed", func() error {
			s, err := r.LoadRO(h.dir)
			if err != nil {
				return err
			}
			defer s.St.Close()
			ob, err := s.Root.LoadObjectByID(id)
			if err != nil {
				return err
			}
			m, err = ob.GetMetadata()
			return err
		})
		last := map[string]*thumbRecord{}
		at := map[string]int{}
		thumbs := map[string]bool{}
		for k := range o.Vers {
			ls, _ := c.thumbRecords(v, o, k)
			for i := range ls {
				last[ls[i].SourceDigest] = &ls[i]
				at[ls[i].SourceDigest] = k
				thumbs[strings.ToLower(ls[i].ThumbDigest)] = true
			}
		}
		for d, l := range last {
			if thumbs[d] {
				r.Probe("thumbnail of a thumbnail")
				continue
			}
			f := m.Files[d]
			if f == nil || f.Extension[thumbName] == nil {
				r.Fail("metadata", "%q: nothing about the thumbnail of %q", id, o.Manifest[d])
			}
			var t thumbRecord
			if err := json.Unmarshal([]byte(toJSON(f.Extension[thumbName])), &t); err != nil {
				panic(err)
			}
			if t.Error != l.Error || t.ID != l.ID || strings.ToLower(t.ThumbDigest) != strings.ToLower(l.ThumbDigest) {
				r.Fail("metadata", "%q: metadata of the thumbnail of %q: %s, recorded is %s", id, o.Manifest[d], toJSON(t), toJSON(l))
			}
			if l.Error == "" {
				if _, ok := c.stored(v, o, at[d], t.Filename); !ok {
					r.Fail("metadata", "%q: the thumbnail of %q is to be %q, which does not exist (recorded: %q)", id, o.Manifest[d], t.Filename, l.Filename)
				}
			}
			r.Probe("metadata of a thumbnail")
		}
	}
}

// faultyThumb performs an update with faults. It tells whether to go on.
func (h *Hist) faultyUpdate(op, op2 *Op, reset func(), judge func(id string, n int, faulted bool)) bool {
	r := h.r
	id := r.C.IDs[op.Obj]
	h.mount(op)
	m := h.obj(id)
	good := *op
	good.Faults = nil
	count, _, ok := h.dry(op, func() error { return h.DoUpdate(&good) })
	if !ok {
		panic(&Inconclusive{"update fails without faults"})
	}
	reset()
	r.W.Settle()
	rootInv := func() string {
		f := h.snapshotFiles()
		o := ReadRoot(f).Objs[id]
		if o == nil {
			return ""
		}
		return string(f[o.Dir+"/inventory.json"]) + string(f[o.Dir+"/inventory.json."+o.Alg])
	}
	before, n := rootInv(), len(m.Vers)
	l := h.NewLedger()
	l.Note()
	o := r.Do("faulty update", aimAll(op.Faults, count), func() error { return h.DoUpdate(op) })
	r.MustEnd("update", o)
	h.Reopen2()
	if o.Fired > 0 {
		r.Probe("faulty update")
	}
	if o.Err == nil && !o.Crash {
		if o.Fired > 0 {
			r.Probe("success with faults")
		}
		for f, n := range r.W.Fired {
			if n > 0 && (strings.Contains(f, "remove") || strings.Contains(f, "stat")) {
				r.W.Clear("/tmp")
			}
		}
		if l := r.W.List("/tmp"); len(l) > 0 {
			r.Fail("leftover", "temporary files are left: %q", l)
		}
		h.Commit(&good)
		judge(id, n, o.Fired > 0)
		h.CheckFormat(true)
		return true
	}
	r.W.Clear("/tmp")
	l.Check("failed update")
	if rootInv() != before {
		r.Probe("failed, inventory replaced")
		return false
	}
	if n == 0 {
		r.Probe("failed at the first version")
		return false
	}
	r.Probe("failed before the inventory")
	if op.N == 1 {
		reset()
		h.Update(&good)
		judge(id, n, false)
		h.CheckFormat(true)
	}
	n = len(m.Vers)
	reset()
	h.Update(op2)
	judge(id, n, false)
	h.CheckFormat(true)
	h.CheckValid("of the update after the failed one")
	return true
}

func (h *Hist) faultyThumb(op *Op) bool {
	r := h.r
	op2 := Op{K: "upd", Obj: op.Obj, Acts: []Act{{A: "data", P: "after/fault.png", C: "img:png:33:9:4"}}, Msg: "after fault", User: "u", Addr: "mailto:u@example.org"}
	return h.faultyUpdate(op, &op2, func() { r.thumbRuns = nil }, h.judgeThumbs)
}

func runC25(r *Run) {
	h := r.NewHist()
	h.MustCreate()
	for i := range r.C.Ops {
		op := &r.C.Ops[i]
		switch op.K {
		case "upd":
			id := r.C.IDs[op.Obj]
			before := len(h.obj(id).Vers)
			r.thumbRuns = nil
			h.Update(op)
			h.judgeThumbs(id, before, false)
			h.CheckFormat(true)
			if l := r.W.List("/tmp"); len(l) > 0 {
				r.Fail("leftover", "temporary files are left: %q", l)
			}
		case "fault":
			h.Reopen()
			if !h.faultyThumb(op) {
				return
			}
		case "reopen":
			h.Reopen()
		}
	}
	h.Reopen()
	h.CheckValid("at the end")
	h.checkThumbMeta()
	h.CheckExtract()
	h.note()
	r.NonTriv = r.made > 0
}
