package core

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"net/url"
	"strings"
	"time"

	"verifsim/simos"

	"emperror.dev/errors"
	"github.com/je4/filesystem/v3/pkg/writefs"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	ironmaiden "github.com/je4/indexer/v3/pkg/indexer"
)

// Extensions of the harness.

// StreamRec is what one consumer saw of one ingested stream.
type StreamRec struct {
	Ext   string
	ID    string
	Head  string
	Dest  string
	Files []string
	Data  []byte
	Err   string // how the stream ended for a consumer which reads to the end
	Lazy  bool
}

// Recorder consumes the streams of an object and writes down what it saw.
type Recorder struct {
	r    *Run
	fsys fs.FS
	conf recorderConf
}

type recorderConf struct {
	*ocfl.ExtensionConfig
	Limit int  `json:"limit"` // stop after so many bytes; < 0: read all
	Chunk int  `json:"chunk"` // size of the buffer
	Sleep int  `json:"sleep"` // percent of reads with a pause before
	Fail  bool `json:"fail"`  // end with an error
}

func newRecorder(r *Run, x fs.FS) (*Recorder, error) {
	b, err := fs.ReadFile(x, "config.json")
	if err != nil {
		return nil, err
	}
	rec := &Recorder{r: r}
	if err := json.Unmarshal(b, &rec.conf); err != nil {
		return nil, err
	}
	return rec, nil
}

func (c *Recorder) GetName() string                   { return c.conf.ExtensionName }
func (c *Recorder) SetFS(f fs.FS, create bool)        { c.fsys = f }
func (c *Recorder) GetFS() fs.FS                      { return c.fsys }
func (c *Recorder) SetParams(map[string]string) error { return nil }
func (c *Recorder) GetConfig() any                    { return c.conf }
func (c *Recorder) IsRegistered() bool                { return false }
func (c *Recorder) Terminate() error                  { return nil }
func (c *Recorder) WriteConfig() error {
	b, err := json.Marshal(c.conf)
	if err != nil {
		return err
	}
	_, err = writefs.WriteFile(c.fsys, "config.json", b)
	return err
}

func (c *Recorder) StreamObject(o ocfl.Object, rd io.Reader, files []string, dest string) error {
	s := &StreamRec{Ext: c.conf.ExtensionName, ID: o.GetID(), Head: o.GetInventory().GetHead(), Dest: dest, Files: append([]string{}, files...), Lazy: c.conf.Limit >= 0}
	c.r.streams = append(c.r.streams, s)
	n := c.conf.Chunk
	if n < 1 {
		n = 4096
	}
	buf := make([]byte, n)
	g := NewRng(c.r.C.Sched.Seed + uint64(len(c.r.streams)))
	for {
		if s.Lazy && len(s.Data) >= c.conf.Limit {
			break
		}
		if g.P(c.conf.Sleep) {
			time.Sleep(time.Millisecond)
		}
		k, err := rd.Read(buf)
		s.Data = append(s.Data, buf[:k]...)
		if err != nil {
			s.Err = err.Error()
			break
		}
	}
	if c.conf.Fail {
		return errors.New("the consumer has failed")
	}
	return nil
}

// stubAction stands for a program of the indexer.
type stubAction struct {
	r    *Run
	name string
	lim  int
}

func (a *stubAction) Stream(ct string, rd io.Reader, filename string) (*ironmaiden.ResultV2, error) {
	if a.lim >= 0 {
		rd = io.LimitReader(rd, int64(a.lim))
	}
	b, err := io.ReadAll(rd)
	if err != nil {
		return nil, err
	}
	res := ironmaiden.NewResultV2()
	res.Mimetypes = []string{"test/" + a.name}
	res.Pronoms = []string{"fmt/" + a.name}
	if (a.r.C.X["mig"] != "" || a.r.C.X["th"] != "") && a.name == "siegfried" {
		res.Pronoms = []string{pronomOf(filename)}
	}
	res.Metadata[a.name] = stubRecord(a.name, b)
	if a.r.C.X["sf"] != "" {
		// what the METS documents tell
		switch h := sha256.Sum256(b); a.name {
		case "siegfried":
			var l []any
			for i := 0; i < int(h[0]%4); i++ {
				l = append(l, map[string]any{"ID": fmt.Sprintf("fmt/%d", h[i+1]), "Name": fmt.Sprintf("Format & %d", h[i+2]), "Basis": []string{"extension match", fmt.Sprintf("byte match at 0, %d", h[i+3])}})
			}
			res.Metadata[a.name] = l
			res.Size = uint64(len(b))
		case "tika":
			res.Width, res.Height, res.Duration = uint(h[4]%3), uint(h[5])+1, uint(h[6]%3)
		}
	}
	if len(b) > 2 && b[0]%7 == 3 {
		return nil, errors.New("not my format")
	}
	return res, nil
}

func stubRecord(name string, b []byte) map[string]any {
	h := sha256.Sum256(b)
	return map[string]any{"sum": hex.EncodeToString(h[:6]), "len": fmt.Sprint(len(b)), "by": name}
}
func (a *stubAction) DoV2(filename string) (*ironmaiden.ResultV2, error) {
	f, err := simos.Open(filename)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return a.Stream("", f, filename)
}
func (a *stubAction) CanHandle(ct string, fn string) bool {
	return a.name != "xml" || strings.HasSuffix(fn, ".xml")
}
func (a *stubAction) Do(*url.URL, string, *uint, *uint, *time.Duration, map[string]string) (interface{}, []string, []string, error) {
	return nil, nil, nil, errors.New("no")
}
func (a *stubAction) GetName() string                      { return a.name }
func (a *stubAction) GetCaps() ironmaiden.ActionCapability { return ironmaiden.ACTSTREAM }
func (a *stubAction) GetWeight() uint                      { return 1 }

// stubActions of the indexer: name, bytes it reads (-1: all).
var stubActions = map[string]int{"siegfried": -1, "tika": 100, "xml": -1}

func (r *Run) extParams() map[string]string {
	const p = "ext-NNNN-metafile-source"
	switch r.metaSrc {
	case "none":
		return map[string]string{}
	case "empty":
		return map[string]string{p: ""}
	}
	switch f := r.C.X["msrc"]; f {
	case "yaml", "toml":
		return map[string]string{p: "file:///src/meta/$ID." + f}
	case "bare":
		return map[string]string{p: "/src/meta/$ID.json"}
	}
	return map[string]string{p: "file:///src/meta/$ID.json"}
}

func (r *Run) addMore(f *ocfl.ExtensionFactory) {
	r.addMigration(f)
	r.addThumbnail(f)
	r.addMETS(f)
	for _, n := range []string{"a", "b", "c"} {
		f.AddCreator("NNNN-recorder-"+n, func(x fs.FS) (ocfl.Extension, error) { return newRecorder(r, x) })
	}
	f.AddCreator(extension.IndexerName, func(x fs.FS) (ocfl.Extension, error) {
		d := ironmaiden.NewActionDispatcher(nil)
		for _, n := range []string{"siegfried", "tika", "xml"} {
			d.RegisterAction(&stubAction{r, n, stubActions[n]})
		}
		return extension.NewIndexerFS(x, "", d, r.C.Cfg.Cache, r.Log)
	})
}
