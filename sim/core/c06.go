package core

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"verifsim/simos"
)

// C06: damage to one object must be reported, the others must not be blamed.

var harmKinds = []string{
	"alter", "alter", "truncate", "append", "empty", "replace", "replace", "exchange", "exchange", "remove", "remove", "move",
	"add", "add", "add", "add", "rollback", "rmversion", "rmcontent", "rewrite", "rewrite", "rewriteold", "edit",
}

// harm damages the object in the folder d. It returns what was done and to which part, or an
// empty part if nothing was changed that matters.
func (h *Hist) harm(d string, op *Op) (part, what string) {
	f, err := h.r.files(h.dir)
	if err != nil {
		return
	}
	v := ReadRoot(f)
	o := v.ByDir[d]
	if o == nil || len(o.Problems) > 0 {
		return // damaged already
	}
	g := NewRng(uint64(op.N) + 7)
	parts := map[string][]string{}
	var own []string
	for p := range f {
		if pt, _, x := partOf(v, p); x == o {
			own = append(own, p)
			if pt != "extension" {
				parts[pt] = append(parts[pt], p)
			}
		}
	}
	sort.Strings(own)
	var pn []string
	for k, l := range parts {
		sort.Strings(l)
		pn = append(pn, k)
	}
	sort.Strings(pn)
	part = pn[g.N(len(pn))]
	if g.P(35) && len(parts["content"]) > 0 {
		part = "content"
	}
	l := parts[part]
	p := l[g.N(len(l))]
	b := append([]byte{}, f[p]...)
	change := map[string][]byte{}
	var remove []string
	kind := op.S
	what = kind + " " + p
	vdir := fmt.Sprintf("%s/v%d", d, 1+g.N(o.N))
	if o.N == 0 {
		return "", ""
	}
	switch kind {
	case "alter":
		if len(b) == 0 {
			b = []byte{0}
		} else {
			i, old := g.N(len(b)), byte(0)
			old, b[i] = b[i], b[i]^byte(1<<g.N(8))
			what += fmt.Sprintf(" at %d from %q to %q", i, old, b[i])
		}
		change[p] = b
	case "truncate":
		if len(b) == 0 {
			return "", ""
		}
		change[p] = b[:g.N(len(b))]
	case "append":
		change[p] = append(b, []byte(g.Pick("\x00", "x", "\n\n", "{}", " "))...)
	case "empty":
		change[p] = nil
	case "replace": // by another file of the object or the storage root
		src := own
		if g.P(40) {
			src = nil
			for q := range f {
				src = append(src, q)
			}
			sort.Strings(src)
		}
		if part == "content" && g.P(60) {
			src = parts["content"]
		}
		q := src[g.N(len(src))]
		change[p] = f[q]
		what += " by " + q
	case "exchange":
		q := l[g.N(len(l))]
		change[p], change[q] = f[q], f[p]
		what += " with " + q
	case "remove":
		remove = []string{p}
	case "move":
		q := g.Pick(vdir, p+".d", d, vdir+"/content", d+"/extensions") + "/" + g.Pick("x", p[strings.LastIndex(p, "/")+1:])
		if _, ok := f[q]; ok || strings.HasPrefix(q, p+"/") {
			return "", ""
		}
		change[q] = b
		remove = []string{p}
		what += " to " + q
	case "add":
		q := vdir + "/" + g.Pick("", "content/", "content/", "content/a/", "other/", "content/new/deep/", "content2/", "content.bak/", "conten/", "extensions/", "logs/", "contentx", "v1/", "v1/content/") + g.Pick("x", "x.txt", "inventory.json", "inventory.json.md5", "inventory.json.sha512", "inventory.json.bak", "0=ocfl_object_1.0", ".hidden", "0", "inventoryXjson")
		for x := range f {
			if x == q || strings.HasPrefix(x, q+"/") || strings.HasPrefix(q, x+"/") {
				return "", ""
			}
		}
		nb := []byte(g.Pick("additional", "", "more"))
		if g.P(30) && len(parts["content"]) > 0 { // same bytes as a stored file
			nb = f[parts["content"][g.N(len(parts["content"]))]]
		}
		change[q] = nb
		part, what = "added", "add "+q
	case "rollback": // root inventory as it was some versions ago
		if o.N < 2 {
			return "", ""
		}
		n := 1 + g.N(o.N-1)
		for _, x := range []string{"/inventory.json", "/inventory.json." + o.Alg} {
			nb, ok := f[fmt.Sprintf("%s/v%d%s", d, n, x)]
			if !ok {
				return "", ""
			}
			change[d+x] = nb
		}
		part, what = "inventory", fmt.Sprintf("rollback to v%d", n)
	case "rmversion", "rmcontent":
		pre := vdir + "/"
		if kind == "rmcontent" {
			pre += "content/"
		}
		part = "vinventory"
		for _, x := range own {
			if strings.HasPrefix(x, pre) {
				remove = append(remove, x)
				if pt, _, _ := partOf(v, x); pt == "content" {
					part = pt
				}
			}
		}
		what = kind + " " + pre
	case "edit", "rewrite", "rewriteold":
		// an inventory is altered, for the latter two together with its digest file
		p = d + "/inventory.json"
		part = "inventory"
		if kind == "rewriteold" || kind == "edit" && g.P(50) {
			p = vdir + "/inventory.json"
			part = "vinventory"
		}
		old, ok := f[p]
		if !ok {
			return "", ""
		}
		var nb []byte
		if kind == "rewriteold" {
			nb = editInventory(g, old)
		} else {
			nb = mutJSON1(g, append([]byte{}, old...))
		}
		if nb == nil || sameMeaning(old, nb) {
			return "", ""
		}
		change[p] = nb
		if kind != "edit" {
			change[p+"."+o.Alg] = []byte(digestOf(o.Alg, nb) + " inventory.json\n")
		}
		what = kind + " " + p + ": " + lineDiff(reformat(old), reformat(nb))
	}
	n := 0
	for q, nb := range change {
		if ob, ok := f[q]; ok && (bytes.Equal(ob, nb) || reSideName.MatchString(q) && sameSidecar(ob, nb)) {
			delete(change, q)
			continue
		}
		n++
	}
	if n+len(remove) == 0 {
		return "", ""
	}
	h.storeFiles(change, remove)
	h.r.T("harm %s (%s of %q)", what, part, o.ID)
	return part, what
}

// sameSidecar: white space and the case of the digits have no meaning.
func sameSidecar(a, b []byte) bool {
	x, y := strings.Fields(string(a)), strings.Fields(string(b))
	return len(x) == 2 && len(y) == 2 && strings.EqualFold(x[0], y[0]) && x[1] == y[1] && len(bytes.Split(b, []byte("\n"))) <= 3
}

func reformat(b []byte) string {
	var x any
	if json.Unmarshal(b, &x) != nil {
		return string(b)
	}
	b, _ = json.MarshalIndent(x, "", " ")
	return string(b)
}

func sameMeaning(a, b []byte) bool {
	var x, y any
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

// editInventory alters what an inventory says about its versions, keeping it well-formed.
func editInventory(g *Rng, b []byte) []byte {
	var m map[string]any
	if json.Unmarshal(b, &m) != nil {
		return nil
	}
	pick := func(x map[string]any) string {
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(ks) == 0 {
			return ""
		}
		return ks[g.N(len(ks))]
	}
	sub := func(x map[string]any, k string) map[string]any {
		y, _ := x[k].(map[string]any)
		return y
	}
	vers := sub(m, "versions")
	ver := sub(vers, pick(vers))
	man := sub(m, "manifest")
	if ver == nil || man == nil {
		return nil
	}
	state := sub(ver, "state")
	switch g.N(8) {
	case 0: // a logical path vanishes
		k := pick(state)
		l, _ := state[k].([]any)
		if len(l) == 0 {
			return nil
		}
		if len(l) == 1 {
			delete(state, k)
		} else {
			state[k] = l[1:]
		}
	case 1: // a logical path appears
		k := pick(man)
		if k == "" {
			return nil
		}
		l, _ := state[k].([]any)
		state[k] = append(l, "added/by damage")
	case 2: // two digests change places in the state
		a, c := pick(state), pick(state)
		if a == c {
			return nil
		}
		state[a], state[c] = state[c], state[a]
	case 3: // ... in the manifest
		a, c := pick(man), pick(man)
		if a == c {
			return nil
		}
		man[a], man[c] = man[c], man[a]
	case 4:
		ver["message"] = fmt.Sprint(ver["message"]) + "!"
	case 5:
		ver["created"] = "1999-12-31T23:59:59Z"
	case 6:
		u := sub(ver, "user")
		if u == nil {
			return nil
		}
		u["name"] = fmt.Sprint(u["name"]) + "x"
	case 7: // a logical path is renamed
		k := pick(state)
		l, _ := state[k].([]any)
		if len(l) == 0 {
			return nil
		}
		l[0] = fmt.Sprint(l[0]) + ".renamed"
	}
	nb, _ := json.MarshalIndent(m, "", "  ")
	return nb
}

func init() {
	Experiments["C06"] = &Experiment{
		Gen: func(g *Rng, c *Case, n uint64) {
			GenHist(g, c, Opt{MaxObj: 3, MaxUpd: 5, Acts: g.P(25), Names: g.N(2), Zip: 6, Ext: g.P(25), Areas: g.P(20), Links: true, Index: 8})
			for i := 1 + g.N(3); i > 0; i-- {
				k := harmKinds[g.N(len(harmKinds))]
				op := Op{K: "harm", S: k, N: g.N(1 << 20), Obj: g.N(len(c.IDs)), V: g.Pick("", "", "other")}
				if g.P(40) {
					for j := 1 + g.N(4); j > 0; j-- {
						op.Faults = append(op.Faults, genFault(g, "st", readFaults, 1<<20))
					}
				}
				c.Ops = append(c.Ops, op)
			}
		},
		Run: runC06,
	}
}

func runC06(r *Run) {
	h := r.NewHist()
	h.MustCreate()
	n := 0
	h.runOps(func(i int, op *Op) {
		if op.K != "harm" {
			return
		}
		if n == 0 {
			h.Reopen()
			h.noteFolders()
		} else {
			return
		}
		n++
		// everything from here on is damage; the first stands alone, then all together
		var clean map[string]string
		var base *Findings
		sched := func() {}
		_ = sched
		var ids []string
		for id, m := range h.Model {
			if len(m.Vers) > 0 {
				ids = append(ids, id)
			}
		}
		sort.Strings(ids)
		if len(ids) == 0 {
			return
		}
		check1 := func(id string) string {
			ans := ""
			o := r.Do("check object", nil, func() error {
				a, err := r.ReadOp("checkobj", h.dir, id, "", "", false)
				ans = a
				return err
			})
			r.MustEnd("validation of one object", o)
			if o.Err != nil {
				return "error"
			}
			return ans
		}
		validate := func(faults ...simos.Fault) (*Findings, error) {
			var f *Findings
			o := r.Do("validate", faults, func() error {
				var err error
				f, err = r.Validate(h.dir)
				return err
			})
			r.MustEnd("validation", o)
			return f, o.Err
		}
		var err error
		if base, err = validate(); err != nil || len(base.Errors) > 0 {
			panic(&Inconclusive{"not valid before the damage"})
		}
		clean = map[string]string{}
		for _, id := range ids {
			clean[id] = check1(id)
		}
		hurt := map[string]bool{}
		invHurt := false
		first := ""
		for j := i; j < len(r.C.Ops); j++ {
			hop := &r.C.Ops[j]
			if hop.K != "harm" {
				continue
			}
			id := ids[hop.Obj%len(ids)]
			if len(hurt) > 0 && hop.V == "" {
				for x := range hurt {
					id = x
				}
			}
			part, what := h.harm(h.folders[id], hop)
			if part == "" {
				continue
			}
			hurt[id] = true
			r.Probe(hop.S)
			r.Probe("part " + part)
			invHurt = invHurt || part == "inventory" || part == "vinventory" || hop.S == "replace" || hop.S == "exchange"
			if first == "" {
				first = what
			}
			f, err := validate()
			if err == nil && !moreFindings(base, f) {
				r.Fail("undetected", "%s: validation reports nothing (%v)", what, f)
			}
			if err == nil && part == "content" && len(f.Errors) == 0 {
				r.Fail("undetected", "%s: validation reports warnings only (%v)", what, f)
			}
			for _, x := range hop.Faults {
				// damage which cannot be read is reported nevertheless
				if f, err := validate(); err != nil || !moreFindings(base, f) {
					break
				}
				x = aim(x, r.W.Count)
				if f, err := validate(x); err == nil && !moreFindings(base, f) {
					r.Fail("undetected", "%s: validation with the fault %v reports nothing (%v)", what, x, f)
				}
				r.Probe("damage and fault")
			}
			if a := check1(id); a == clean[id] {
				r.Fail("undetected-object", "%s: validation of the object %q reports nothing (%s)", what, id, a)
			}
			for _, x := range ids {
				if hurt[x] {
					continue
				}
				if a := check1(x); a != clean[x] {
					r.Fail("blamed", "%s: validation of the undamaged object %q reports %s instead of %s", what, x, a, clean[x])
				}
				if f == nil || invHurt {
					continue
				}
				for _, s := range f.Full {
					if strings.Contains(s, "- '"+x+"']") && strings.Contains(s, "Validation Error") {
						r.Fail("blamed", "%s: validation blames the undamaged object %q: %s", what, x, s)
					}
				}
			}
			r.NonTriv = true
		}
		r.Note = fmt.Sprintf("%d of %d objects damaged: %s", len(hurt), len(ids), first)
	})
}

// moreFindings: something is reported that was not reported before.
func moreFindings(a, b *Findings) bool {
	c := map[string]int{}
	for _, s := range append(append([]string{}, a.Errors...), a.Warnings...) {
		c[s]++
	}
	for _, s := range append(append([]string{}, b.Errors...), b.Warnings...) {
		c[s]--
		if c[s] < 0 {
			return true
		}
	}
	return false
}
