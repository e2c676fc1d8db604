package core

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"

	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"

	"verifsim/simos"
)

// C26: METS and PREMIS documents.

const metsName = extension.METSName

func (r *Run) addMETS(f *ocfl.ExtensionFactory) {
	f.AddCreator(metsName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewMetsFS(x, r.Log) })
}

func (c *Config) metsParam(n string) string {
	m, _ := c.EP[metsName].(map[string]any)
	s, _ := m[n].(string)
	return s
}

var metsSchemas = []string{"schemas/mets.xsd", "schemas/premis.xsd", "schemas/xlink.xsd"}

// metsPath is the logical path of a file of the extension.
func (c *Config) metsPath(name string) string {
	if c.metsParam("storageType") == "area" {
		return join(c.Areas[c.metsParam("storageName")], name)
	}
	return c.logical("", join(c.metsParam("storageName"), name))
}

// inMETS tells whether a path is one of the extension's files.
func (c *Config) inMETS(p string) bool {
	if !c.hasExt(metsName) {
		return false
	}
	for _, n := range append([]string{c.metsParam("metsFile"), c.metsParam("premisFile")}, metsSchemas...) {
		if p == c.metsPath(n) || c.metsParam("storageType") == "path" && p == c.logical("", n) {
			return true
		}
	}
	return false
}

// xnode is an element of a document.
type xnode struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Kids    []*xnode   `xml:",any"`
	Text    string     `xml:",chardata"`
}

func (n *xnode) at(a string) string {
	for _, x := range n.Attrs {
		if x.Name.Local == a {
			return x.Value
		}
	}
	return ""
}

// all returns the elements of a name.
func (n *xnode) all(name string) (l []*xnode) {
	for _, k := range n.Kids {
		if k.XMLName.Local == name {
			l = append(l, k)
		}
		l = append(l, k.all(name)...)
	}
	return l
}

func (n *xnode) text(names ...string) string {
	for _, s := range names {
		l := n.all(s)
		if len(l) == 0 {
			return ""
		}
		n = l[0]
	}
	return strings.TrimSpace(n.Text)
}

func (n *xnode) walk(fn func(*xnode)) {
	fn(n)
	for _, k := range n.Kids {
		k.walk(fn)
	}
}

// metsFile returns a document of version k.
func (c *Config) metsFile(v *VRoot, o *VObj, k int, name string) (string, bool) {
	if c.metsParam("storageType") == "extension" {
		b, ok := v.Files[join(o.Dir, "extensions", metsName, c.metsParam("storageName"), strings.ReplaceAll(name, "%s", o.Vers[k].Dir))]
		return string(b), ok
	}
	s, ok := o.Vers[k].State[c.metsPath(name)]
	return s, ok
}

func init() {
	Experiments["C26"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			o := Opt{MaxObj: 2, MaxUpd: 4, Acts: g.P(40), Ext: g.P(60), Areas: g.P(70), Links: g.P(20), Index: 60, Dedup: 50}
			if g.P(25) {
				o.Names = 1
			}
			o.AreaActs = o.Areas && g.P(50)
			mig := g.P(20)
			if mig {
				o.Index = 100
			}
			if g.P(12) {
				o.Zip, o.Acts, o.AreaActs, o.Links, o.NoNest = 100, false, false, false, true
			}
			GenHist(g, c, o)
			if mig {
				genMig(g, c)
				genSrc(g, c, &o)
			}
			genMETS(g, c)
			if c.Cfg.hasExt("NNNN-indexer") && g.P(60) {
				if c.X == nil {
					c.X = map[string]string{}
				}
				c.X["sf"] = "1"
			}
			if c.Cfg.hasExt("NNNN-metafile") {
				if c.X == nil {
					c.X = map[string]string{}
				}
				if g.P(50) {
					c.X["agents"] = g.Pick("organisation organisation_address user address", "organisation user", "organisation_address", "address", "user address", "organisation organisation_address")
				}
				if g.P(50) {
					c.X["meta"] = "vary"
				}
				c.X["msrc"] = g.Pick("", "", "yaml", "toml", "bare")
			}
			if c.Cfg.metsParam("primaryDescriptiveMetadata") != "" {
				for i := range c.Ops {
					// it would remove that file
					c.Ops[i].Echo = false
				}
			}
			if g.P(40) && len(c.Ops) > 0 && !mig && o.Zip == 0 {
				op := &c.Ops[g.N(len(c.Ops))]
				if op.K == "upd" {
					op.K = "fault"
					op.N = g.N(2)
					switch g.N(4) {
					case 0:
						op.Faults = []simos.Fault{genFault(g, "st", readFaults, 100000)}
					case 1, 2:
						op.Faults = []simos.Fault{genFault(g, "st", writeFaults, 100000)}
					default:
						op.Faults = []simos.Fault{genCrash(g, 100000)}
					}
				}
			}
		},
		Run: runC26,
	}
}

func genMETS(g *Rng, c *Case) {
	c.Cfg.NoMgr = false
	c.Cfg.Ext = append(c.Cfg.Ext, metsName)
	p := map[string]any{"storageType": g.Pick("area", "area", "path", "extension"), "storageName": "metadata",
		"metsFile": g.Pick("mets.xml", "mets.xml", "METS.xml"), "premisFile": g.Pick("premis.xml", "premis.xml", "x/premis.xml"), "primaryDescriptiveMetadata": ""}
	c.Cfg.EP[metsName] = p
	fixArea(&c.Cfg, metsName, g)
	if c.Cfg.Zip && c.X["mig"] != "" && p["storageType"] == "extension" {
		// the documents of two versions cannot be written (known finding)
		p["storageType"] = "path"
	}
	if p["storageType"] == "extension" {
		p["metsFile"], p["premisFile"] = g.Pick("mets_%s.xml", "mets.xml"), g.Pick("premis_%s.xml", "premis.xml")
	}
	mf, _ := c.Cfg.EP["NNNN-metafile"].(map[string]any)
	if c.Cfg.hasExt("NNNN-metafile") && mf["storageType"] == "area" && g.P(80) {
		p["primaryDescriptiveMetadata"] = g.Pick("json", "EAD", "marc", "dc") + ":" + fmt.Sprint(mf["storageName"]) + ":info.json"
	}
	if c.Cfg.hasExt("NNNN-metafile") && mf["storageType"] == "path" && g.P(50) {
		p["primaryDescriptiveMetadata"] = g.Pick("json", "dc") + ":" + fmt.Sprint(mf["storageName"]) + "/info.json"
	}
}

func runC26(r *Run) {
	h := r.NewHist()
	h.MustCreate()
	for i := range r.C.Ops {
		op := &r.C.Ops[i]
		switch op.K {
		case "upd":
			id := r.C.IDs[op.Obj]
			before := len(h.obj(id).Vers)
			if r.C.X["mig"] != "" {
				r.migRuns = nil
				if !h.migUpdate(op) {
					continue
				}
				h.judgeMig(id, before, false)
			} else {
				h.Update(op)
			}
			h.judgeMETS(id, before)
			h.CheckFormat(true)
		case "fault":
			h.Reopen()
			op2 := Op{K: "upd", Obj: op.Obj, Acts: []Act{{A: "data", P: "after/fault.txt", C: "tF.41"}}, Msg: "after fault", User: "u", Addr: "mailto:u@example.org"}
			if !h.faultyUpdate(op, &op2, func() {}, func(id string, n int, faulted bool) { h.judgeMETS(id, n) }) {
				return
			}
		case "reopen":
			h.Reopen()
		}
	}
	h.Reopen()
	h.CheckValid("at the end")
	h.CheckExtract()
	h.note()
}

var metsAlgs = map[string]string{"SHA-512": "sha512", "SHA-384": "sha384", "SHA-256": "sha256", "SHA-1": "sha1", "MD5": "md5"}

func parseXML(s string) (*xnode, error) {
	n := &xnode{}
	d := xml.NewDecoder(strings.NewReader(s))
	if err := d.Decode(n); err != nil {
		return nil, err
	}
	if t, err := d.Token(); err == nil {
		return nil, fmt.Errorf("more after the document: %v", t)
	}
	return n, nil
}

// metsRef is a reference to a file.
type metsRef struct {
	id, href, alg, sum, size string
	internal                 bool
	group, mime              string
}

func metsRefs(n *xnode) (l []metsRef) {
	n.walk(func(x *xnode) {
		switch x.XMLName.Local {
		case "file":
			for _, f := range x.all("FLocat") {
				l = append(l, metsRef{x.at("ID"), f.at("href"), x.at("CHECKSUMTYPE"), x.at("CHECKSUM"), x.at("SIZE"), f.at("OTHERLOCTYPE") == "URL:internal", "", x.at("MIMETYPE")})
			}
		case "dmdSec", "digiprovMD":
			for _, f := range x.all("mdRef") {
				l = append(l, metsRef{x.at("ID"), f.at("href"), f.at("CHECKSUMTYPE"), f.at("CHECKSUM"), f.at("SIZE"), f.at("OTHERLOCTYPE") == "URL:internal", x.at("GROUPID"), f.at("MIMETYPE")})
			}
		}
	})
	return l
}

// judgeMETS compares the documents of the newest version with the object.
func (h *Hist) judgeMETS(id string, before int) {
	r := h.r
	c := &r.C.Cfg
	v := h.Read()
	o := v.Objs[id]
	if o == nil || o.N == before {
		return
	}
	k := o.N - 1
	ver := o.Vers[k]
	name := fmt.Sprintf("%q %s (%s)", id, ver.Dir, c.metsParam("storageType"))
	ext := c.metsParam("storageType") == "extension"
	m, ok := c.metsFile(v, o, k, c.metsParam("metsFile"))
	if !ok {
		r.Fail("missing", "%s has no METS document", name)
	}
	p, ok := c.metsFile(v, o, k, c.metsParam("premisFile"))
	if !ok {
		r.Fail("missing", "%s has no PREMIS document", name)
	}
	r.T("METS of %s: %s", name, m)
	r.T("PREMIS of %s: %s", name, p)
	r.NonTriv = true
	mets, err := parseXML(m)
	if err != nil {
		r.Fail("xml", "METS of %s: %v", name, err)
	}
	pr, err := parseXML(p)
	if err != nil {
		r.Fail("xml", "PREMIS of %s: %v", name, err)
	}
	if mets.XMLName.Local != "mets" || pr.XMLName.Local != "premis" {
		r.Fail("xml", "%s: the documents are %v and %v", name, mets.XMLName, pr.XMLName)
	}
	if mets.at("OBJID") != id {
		r.Fail("header", "METS of %s is about the object %q", name, mets.at("OBJID"))
	}
	if l := mets.all("metsHdr"); len(l) != 1 || l[0].at("CREATEDATE") != ver.Time.Format("2006-01-02T15:04:05") {
		r.Fail("header", "METS of %s is not of %s", name, ver.Created)
	}
	if w := "METS Container for Object " + id + " version " + ver.Dir + " - " + ver.Msg; mets.at("LABEL") != w {
		r.Fail("header", "METS of %s is labelled %q", name, mets.at("LABEL"))
	}
	// identifiers
	ids := map[string]bool{}
	mets.walk(func(x *xnode) {
		if i := x.at("ID"); i != "" {
			if ids[i] {
				r.Fail("ids", "METS of %s has the ID %q twice", name, i)
			}
			ids[i] = true
		}
	})
	for _, f := range mets.all("fptr") {
		if !ids[f.at("FILEID")] {
			r.Fail("ids", "METS of %s refers to %q, which is not in there", name, f.at("FILEID"))
		}
	}
	maps := map[string]bool{}
	for _, sm := range mets.all("structMap") {
		maps[sm.at("TYPE")] = true
		n := map[string]int{}
		for _, f := range sm.all("fptr") {
			n[f.at("FILEID")]++
		}
		for _, x := range metsRefs(mets) {
			if strings.HasPrefix(x.id, "uuid-") && n[x.id] != 1 {
				r.Fail("structure", "METS of %s mentions %q (%s) %d times in the %s structure", name, x.href, x.id, n[x.id], sm.at("TYPE"))
			}
		}
	}
	if !maps["physical"] || !maps["logical"] {
		r.Fail("structure", "METS of %s has the structures %v", name, maps)
	}
	// references
	own := map[string]bool{}
	if !ext {
		own[c.metsPath(c.metsParam("metsFile"))] = true
		own[c.metsPath(c.metsParam("premisFile"))] = true
	}
	check := func(what string, x metsRef, b string) {
		a := metsAlgs[x.alg]
		if a == "" || strings.ToLower(x.sum) != digestOf(a, []byte(b)) {
			r.Fail("digest", "METS of %s: %s %q does not have the digest %s %q", name, what, x.href, x.alg, x.sum)
		}
		if x.size != "" && x.size != fmt.Sprint(len(b)) {
			r.Fail("size", "METS of %s: %s %q is %d bytes long, not %s", name, what, x.href, len(b), x.size)
		}
		r.Probe("reference")
	}
	indexed := h.indexed(v, o)
	refs := metsRefs(mets)
	told := map[string]int{}
	primary := map[string]bool{}
	premis := 0
	content := map[string]string{} // by ID
	for _, x := range refs {
		var b string
		what := "the file"
		if x.internal {
			y, ok := v.Files[join(o.Dir, x.href)]
			if !ok {
				r.Fail("reference", "METS of %s refers to the stored file %q, which does not exist", name, x.href)
			}
			b, what = string(y), "the stored file"
		} else {
			y, ok := ver.State[x.href]
			if !ok {
				r.Fail("reference", "METS of %s refers to the file %q, which is not in this version", name, x.href)
			}
			b = y
			if x.group != "primary-metadata" {
				told[x.href]++
			}
		}
		check(what, x, b)
		if b == p && (x.internal && ext || own[x.href] || x.internal && path.Base(x.href) == path.Base(c.metsParam("premisFile"))) {
			premis++
		}
		if x.group == "primary-metadata" {
			primary[b] = true
			if strings.Count(c.metsParam("primaryDescriptiveMetadata"), ":") == 2 {
				told[x.href]++
			} // else it is one of the content files, too
		}
		if strings.HasPrefix(x.id, "uuid-") || x.group == "primary-metadata" || x.group == "area-metadata" {
			ok := len(indexed[b]) == 0 && x.mime == "application/octet-stream"
			for _, f := range indexed[b] {
				ok = ok || f["mimetype"] == x.mime
			}
			if !ok {
				r.Fail("formats", "METS of %s: %s %q has the type %q; the records say %v", name, what, x.href, x.mime, len(indexed[b]))
			}
		}
		if strings.HasPrefix(x.id, "uuid-") {
			content[x.id] = b
		}
	}
	if premis == 0 {
		r.Fail("premis", "METS of %s does not refer to PREMIS", name)
	}
	for f, b := range ver.State {
		if own[f] || ext && false {
			continue
		}
		if told[f] == 0 && !primary[b] && !(c.inMETS(f)) {
			r.Fail("incomplete", "METS of %s does not mention %q", name, f)
		}
		if told[f] > 1 {
			r.Fail("twice", "METS of %s mentions %q %d times", name, f, told[f])
		}
	}
	// descriptive metadata
	if d := c.metsParam("primaryDescriptiveMetadata"); d != "" {
		q := strings.Split(d, ":")
		var want string
		if len(q) == 2 {
			want = ver.State[c.logical("", q[1])]
		} else {
			want = ver.State[join(c.Areas[q[1]], q[2])]
		}
		n := 0
		for _, x := range mets.all("dmdSec") {
			if x.at("GROUPID") != "primary-metadata" {
				continue
			}
			n++
			ref := x.all("mdRef")[0]
			t := ref.at("MDTYPE")
			if t == "OTHER" {
				t = ref.at("OTHERMDTYPE")
			}
			if t != strings.ToUpper(q[0]) {
				r.Fail("metadata", "METS of %s: the descriptive metadata is of type %s, not %s", name, t, q[0])
			}
		}
		if n == 0 || !primary[want] || len(primary) != 1 {
			r.Fail("metadata", "METS of %s: the descriptive metadata is not %q", name, d)
		}
		r.Probe("descriptive metadata")
	} else if len(primary) > 0 {
		r.Fail("metadata", "METS of %s refers to descriptive metadata", name)
	}
	ag := h.agentsOf(v, o, k)
	person := false
	for _, x := range mets.all("metsHdr")[0].all("agent") {
		if x.at("ROLE") == "ARCHIVIST" {
			if n, a := x.text("name"), x.text("note"); n != ag.person[0] || a != ag.person[1] {
				r.Fail("agents", "METS of %s: the archivist is %q, %q instead of %q", name, n, a, ag.person)
			}
			person = true
		}
	}
	if !person {
		r.Fail("agents", "METS of %s tells no archivist", name)
	}
	h.judgePREMIS(name, v, o, k, pr, content)
}

// agents of a document: name, identifier.
type agents struct{ org, person [2]string }

// agentsOf are the agents which the documents of version k have to tell.
func (h *Hist) agentsOf(v *VRoot, o *VObj, k int) (a agents) {
	c := &h.r.C.Cfg
	m := map[string]any{}
	if e := "NNNN-metafile"; c.hasExt(e) {
		for i := k; i >= 0; i-- {
			if b := c.recordOf(v, o, e, "info.json", i); b != nil {
				if err := json.Unmarshal(b, &m); err != nil {
					h.r.Fail("record", "metadata of %q %s: %v", o.ID, o.Vers[i].Dir, err)
				}
				break
			}
		}
	}
	s := func(k string) string { x, _ := m[k].(string); return x }
	a.org = [2]string{s("organisation"), s("organisation_address")}
	a.person = [2]string{s("user"), s("address")}
	if a.person[0] == "" {
		a.person = [2]string{o.Vers[k].User, o.Vers[k].Addr}
	} else {
		h.r.Probe("agent of the metadata")
	}
	if a.org[0] != "" {
		h.r.Probe("organisation of the metadata")
	}
	return
}

func (h *Hist) judgePREMIS(name string, v *VRoot, o *VObj, k int, pr *xnode, content map[string]string) {
	r := h.r
	objs := map[string]*xnode{}
	for _, x := range pr.all("object") {
		i := x.text("objectIdentifier", "objectIdentifierValue")
		if i == "" || objs[i] != nil || x.at("xmlID") != i {
			r.Fail("ids", "PREMIS of %s has the object %q (%q) twice or without identifier", name, i, x.at("xmlID"))
		}
		objs[i] = x
	}
	indexed := h.indexed(v, o)
	byDigest := map[string]string{}
	for _, b := range o.Vers[k].State {
		for _, a := range []string{"sha512", "sha256"} {
			byDigest[digestOf(a, []byte(b))] = b
		}
	}
	for i, b := range content {
		x := objs[i]
		if x == nil {
			r.Fail("premis", "PREMIS of %s has no object for %q", name, i)
		}
		for _, f := range x.all("fixity") {
			a, d := f.text("messageDigestAlgorithm"), f.text("messageDigest")
			alg := metsAlgs[a]
			if alg == "" {
				alg = a
			}
			if w := digestOf(alg, []byte(b)); w != strings.ToLower(d) {
				r.Fail("digest", "PREMIS of %s: the %s of %q is not %q", name, a, i, d)
			}
			r.Probe("fixity")
		}
		h.judgeIndexed(name, i, x, indexed[b])
		for _, f := range x.all("size") {
			if s := strings.TrimSpace(f.Text); s != fmt.Sprint(len(b)) {
				r.Fail("size", "PREMIS of %s: %q is of size %d, not %s", name, i, len(b), s)
			}
			r.Probe("size")
		}
	}
	ag := h.agentsOf(v, o, k)
	var told [][2]string
	for _, x := range pr.all("agent") {
		told = append(told, [2]string{x.text("agentName"), x.text("agentIdentifier", "agentIdentifierValue")})
	}
	if len(told) != 3 || told[0] != ag.org || told[1] != ag.person || told[2][1] != "https://github.com/je4/gocfl" {
		r.Fail("agents", "PREMIS of %s tells the agents %q instead of %q, %q", name, told, ag.org, ag.person)
	}
	evs := map[string]bool{}
	packed := map[string][]string{}
	for _, e := range pr.all("event") {
		i := e.text("eventIdentifier", "eventIdentifierValue")
		if i == "" || evs[i] {
			r.Fail("ids", "PREMIS of %s has the event %q twice", name, i)
		}
		evs[i] = true
		for _, l := range e.all("linkingObjectIdentifier") {
			x := l.text("linkingObjectIdentifierValue")
			if objs[x] == nil {
				r.Fail("ids", "PREMIS of %s: an event is about %q, which is not in there", name, x)
			}
			if e.text("eventType") == "packing" {
				packed[x] = append(packed[x], e.text("eventDateTime"))
				by := map[string]bool{}
				for _, l := range e.all("linkingAgentIdentifier") {
					by[l.text("linkingAgentIdentifierValue")] = true
				}
				found := false
				for _, w := range o.Vers {
					found = found || w.Time.Format("2006-01-02T15:04:05Z07:00") == e.text("eventDateTime") && by[w.Addr]
				}
				if !found || !by[ag.org[1]] || !by["https://github.com/je4/gocfl"] {
					r.Fail("agents", "PREMIS of %s: %q was packed by %v", name, x, by)
				}
			}
		}
	}
	h.judgeMigEvents(name, v, o, k, pr, content)
	// a file was packed with every version which has it
	for i, b := range content {
		if strings.HasPrefix(b, "<mets ") || strings.HasPrefix(b, "<premis ") {
			// this update replaces the documents of the version before
			continue
		}
		var want []string
		for _, w := range o.Vers {
			for _, x := range w.State {
				if x == b {
					want = append(want, w.Time.Format("2006-01-02T15:04:05Z07:00"))
					break
				}
			}
		}
		got := packed[i]
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(got, " ") != strings.Join(want, " ") {
			r.Fail("events", "PREMIS of %s: %q was packed at %v instead of %v", name, i, got, want)
		}
		r.Probe("packing")
	}
}

// indexed are the results of the indexer about every content.
func (h *Hist) indexed(v *VRoot, o *VObj) map[string][]map[string]any {
	c := &h.r.C.Cfg
	if !c.hasExt("NNNN-indexer") {
		return nil
	}
	out := map[string][]map[string]any{}
	for k := range o.Vers {
		ls, _ := c.recordLines(v, o, "NNNN-indexer", "indexer", k)
		for _, l := range ls {
			p, _ := l["Path"].(string)
			b, ok := o.Content[p]
			if x, y := l["Indexer"].(map[string]any); ok && y {
				out[b] = append(out[b], x)
			}
		}
	}
	return out
}

// judgeIndexed compares what PREMIS tells about a file with what the indexer has found.
func (h *Hist) judgeIndexed(name, id string, x *xnode, found []map[string]any) {
	r := h.r
	tell := func(l []string) string { sort.Strings(l); return strings.Join(l, "; ") }
	var got []string
	for _, p := range x.all("significantProperties") {
		got = append(got, p.text("significantPropertiesType")+"="+p.text("significantPropertiesValue"))
	}
	for _, f := range x.all("format") {
		var notes []string
		for _, n := range f.all("formatNote") {
			notes = append(notes, strings.TrimSpace(n.Text))
		}
		got = append(got, fmt.Sprintf("%s/%s/%q", f.text("formatDesignation", "formatName"), f.text("formatRegistry", "formatRegistryKey"), notes))
	}
	var wants []string
	for _, f := range found {
		var want []string
		num := func(k string) (n float64) { n, _ = f[k].(float64); return }
		if num("width") > 0 {
			want = append(want, fmt.Sprintf("width=%v", num("width")), fmt.Sprintf("height=%v", num("height")))
		}
		if num("duration") > 0 {
			want = append(want, fmt.Sprintf("duration=%v", num("duration")))
		}
		if m, _ := f["mimetype"].(string); m != "" {
			want = append(want, fmt.Sprintf("%s//%q", m, []string{"IANA MIME-type"}))
		}
		if p, _ := f["pronom"].(string); p != "" {
			m, _ := f["metadata"].(map[string]any)
			l, _ := m["siegfried"].([]any)
			for _, e := range l {
				e, _ := e.(map[string]any)
				notes := []string{"siegfried"}
				for _, b := range toStrings(e["Basis"]) {
					notes = append(notes, "Basis: "+b)
				}
				want = append(want, fmt.Sprintf("%s/%s/%q", e["Name"], e["ID"], notes))
				r.Probe("format of the registry")
			}
		}
		w := tell(want)
		if w == tell(got) {
			r.Probe("indexed file")
			return
		}
		wants = append(wants, w)
	}
	if len(found) == 0 {
		wants = []string{fmt.Sprintf("application/octet-stream//%q", []string{"IANA MIME-type"})}
		if tell(got) == wants[0] {
			return
		}
	}
	r.Fail("formats", "PREMIS of %s tells of %q %q; the records say %q", name, id, tell(got), wants)
}

// judgeMigEvents compares the migrations which PREMIS tells with those which are recorded.
func (h *Hist) judgeMigEvents(name string, v *VRoot, o *VObj, k int, pr *xnode, content map[string]string) {
	r := h.r
	c := &r.C.Cfg
	type mig struct {
		source, id string
		ok         bool
		when       string
	}
	byPath := map[string]string{}
	for d, ps := range o.Manifest {
		for _, p := range ps {
			byPath[p] = d
		}
	}
	// by the content which the record is about
	want := map[string]mig{}
	if c.hasExt(migName) {
		for y := 0; y <= k; y++ {
			recs, _ := c.migRecords(v, o, y)
			for _, l := range recs {
				d := byPath[l.Path]
				if l.Migration.Error != "" {
					d = byPath[l.Migration.Source]
				}
				want[strings.ToLower(d)] = mig{strings.ToLower(byPath[l.Migration.Source]), l.Migration.ID, l.Migration.Error == "", o.Vers[y].Time.Format("2006-01-02T15:04:05Z07:00")}
			}
		}
	}
	objs := map[string]*xnode{}
	for _, x := range pr.all("object") {
		objs[x.text("objectIdentifier", "objectIdentifierValue")] = x
	}
	dig := func(i string) string {
		if b, ok := content[i]; ok {
			return strings.ToLower(digestOf(o.Alg, []byte(b)))
		}
		// a file of the metadata
		for _, f := range objs[i].all("fixity") {
			a := f.text("messageDigestAlgorithm")
			if x := metsAlgs[a]; x != "" {
				a = x
			}
			if a == o.Alg {
				return strings.ToLower(f.text("messageDigest"))
			}
		}
		return ""
	}
	here := map[string]bool{}
	for i := range content {
		here[dig(i)] = true
	}
	got := map[string]int{}
	outcomes := map[string]bool{}
	for _, e := range pr.all("event") {
		if e.text("eventType") != "migration" {
			continue
		}
		if len(want) == 0 {
			r.Fail("events", "PREMIS of %s tells a migration, but nothing was migrated", name)
		}
		src, dst := "", ""
		for _, l := range e.all("linkingObjectIdentifier") {
			x := l.text("linkingObjectIdentifierValue")
			switch role := l.text("linkingObjectRole"); role {
			case "source":
				src = dig(x)
			case "outcome":
				dst = dig(x)
			default:
				r.Fail("events", "PREMIS of %s: %q has the role %q in a migration", name, x, role)
			}
		}
		ok := e.text("eventOutcomeInformation", "eventOutcome") == "success"
		about := dst
		if !ok {
			about = src
			if dst != "" {
				r.Fail("events", "PREMIS of %s: a failed migration has an outcome", name)
			}
		}
		w, found := want[about]
		if about == "" || !found || w.ok != ok {
			r.Fail("events", "PREMIS of %s: a migration (success: %v) of %s to %s is not recorded (%v: %v)", name, ok, src, dst, found, w)
		}
		if src != w.source && (src != "" || here[w.source]) {
			r.Fail("events", "PREMIS of %s: the source of the migration to %s is %q instead of %q", name, dst, src, w.source)
		}
		if t := e.text("eventDateTime"); t != w.when {
			r.Fail("events", "PREMIS of %s: the migration to %s is said to be of %s, not %s", name, dst, t, w.when)
		}
		if a := e.text("linkingAgentIdentifier", "linkingAgentIdentifierValue"); a != w.id {
			r.Fail("events", "PREMIS of %s: the migration to %s is said to be done by %q, not %q", name, dst, a, w.id)
		}
		got[about]++
		if dst != "" {
			for _, l := range e.all("linkingObjectIdentifier") {
				if l.text("linkingObjectRole") == "outcome" {
					x := l.text("linkingObjectIdentifierValue")
					if outcomes[x] {
						r.Fail("events", "PREMIS of %s tells two migrations to %q", name, x)
					}
					outcomes[x] = true
				}
			}
		}
		r.Probe("migration event")
	}
	for d, w := range want {
		if here[d] && got[d] == 0 {
			r.Fail("events", "PREMIS of %s does not tell the migration (success: %v) to %s", name, w.ok, d)
		}
	}
}
