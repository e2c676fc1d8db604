"""Planted bugs: edits of /repo and demonstrations."""
OB = "pkg/ocfl/objectbase.go"
IB = "pkg/ocfl/inventorybase.go"
SR = "pkg/ocfl/storagerootbase.go"
IT = "pkg/ocfl/inventorytypes.go"
X = "pkg/extension/"
BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug("s01-rename-shared-digest", "C01",
    "an object with at least two names for the same bytes, the one listed later gets renamed in an update",
    "the other names of the same bytes vanish from the new version",
    [(IB, "				newState[key] = append(newState[key], stateDest)\n", "				newState[key] = []string{stateDest}\n")],
    '''
func TestDemo(t *testing.T) {
	for _, n := range []string{"a.txt", "b.txt", "c.txt"} {
		d := newDemo(t)
		d.create()
		files := map[string]string{"a.txt": "same", "b.txt": "same", "c.txt": "same"}
		d.update("o", files, false)
		d.update("o", map[string]string{"new.txt": "new"}, false, func(o ocfl.Object) error {
			h := sha512.Sum512([]byte("same"))
			return o.RenameFile(n, "z.txt", fmt.Sprintf("%x", h[:]))
		})
		files["new.txt"] = "new"
		delete(files, n)
		files["z.txt"] = "same"
		d.want("o", "v2", files)
	}
}
''')

bug("s02-shared-state", "C02",
    "two sites together: the state of a new version shares its lists with the previous version, and renaming writes into the list in place; needs a rename in a later version",
    "the newest inventory describes the earlier version with the new name",
    [(IB, "				newState[key] = append(newState[key], stateDest)\n", "				newState[key] = append(state[:len(newState[key])], stateDest)\n"),
     ("pkg/ocfl/helper.go", "		dest[key] = make([]string, len(val))\n		copy(dest[key], val)\n", "		dest[key] = val[:len(val):len(val)]\n")],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.create()
	d.update("o", map[string]string{"a.txt": "same"}, false)
	d.update("o", map[string]string{"new.txt": "new"}, false, func(o ocfl.Object) error {
		h := sha512.Sum512([]byte("same"))
		return o.RenameFile("a.txt", "z.txt", fmt.Sprintf("%x", h[:]))
	})
	d.want("o", "v1", map[string]string{"a.txt": "same"})
	d.want("o", "v2", map[string]string{"z.txt": "same", "new.txt": "new"})
}
''')

bug("s03-inventory-order", "C03",
    "a crash between writing the root inventory and writing the version inventory",
    "after the crash the root inventory names a new version whose own inventory does not exist, and validation reports no error",
    [(OB, "	if err := object.StoreInventory(true, false); err != nil {\n		return errors.Wrap(err, \"cannot store inventory\")\n	}\n\n	if needVersion",
      "	if err := object.StoreInventory(true, true); err != nil {\n		return errors.Wrap(err, \"cannot store inventory\")\n	}\n\n	if needVersion")],
    '''
func TestDemo(t *testing.T) {
	// the process stops at the n-th change
	for n := 1; n < 40; n++ {
		d := newDemo(t)
		d.create()
		d.update("o", map[string]string{"a.txt": "one"}, false)
		before := tree(d.dir)
		cnt := 0
		d.fsys = newFaulty(d.dir, func(op, name string) error {
			if op == "create" || op == "remove" || op == "mkdir" {
				cnt++
			}
			if cnt >= n {
				return fmt.Errorf("stopped")
			}
			return nil
		})
		src := d.source(map[string]string{"b.txt": "two"})
		err := d.tryFS("o", src, false)
		d.fsys = nil
		if err == nil {
			return
		}
		now := tree(d.dir)
		eq := len(now) == len(before)
		for k, v := range before {
			eq = eq && now[k] == v
		}
		if eq {
			continue
		}
		if len(d.validate()) > 0 {
			continue
		}
		if now["o/inventory.json"] != now["o/v2/inventory.json"] {
			t.Errorf("stopped at change %d: incomplete object validates without error", n)
		}
	}
}
''')

bug("s04-sidecar-close", "C04",
    "closing the digest file of the root inventory fails (full disk, network file system)",
    "the update reports success though the digest file is not stored",
    [(OB, "		if err := iCSWriter.Close(); err != nil {\n			return errors.Wrapf(err, \"cannot close '%v/%s'\", object.fsys, csFileName)\n		}\n	}\n	if version {",
      "		defer iCSWriter.Close()\n	}\n	if version {")],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.create()
	d.fsys = newFaulty(d.dir, func(op, name string) error {
		if op == "close" && name == "o/inventory.json.sha512" {
			return fmt.Errorf("disk full")
		}
		return nil
	})
	if err := d.try("o", map[string]string{"a.txt": "one"}, false); err == nil {
		t.Error("failure to close the inventory digest is not reported")
	}
}
''')

bug("s06-latest-by-time", "C16",
    "the clock was set back between two updates",
    "extracting 'latest' delivers an older version",
    [(IB, """	if version == "latest" || version == "" {
		version = i.GetHead()
	}
	ver, err := i.Versions.GetVersion(version)
	if err != nil {
		return errors.Errorf("invalid version '%s'", version)
	}
	for digest""", """	if version == "latest" || version == "" {
		version = i.newest()
	}
	ver, err := i.Versions.GetVersion(version)
	if err != nil {
		return errors.Errorf("invalid version '%s'", version)
	}
	for digest"""),
     (IB, """// clear unmodified version
""", """// newest is the version which was created last
func (i *InventoryBase) newest() string {
	version := i.GetHead()
	for v, vv := range i.Versions.Versions {
		if vv.Created != nil && vv.Created.After(i.Versions.Versions[version].Created.Time) {
			version = v
		}
	}
	return version
}

// clear unmodified version
""")],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.create()
	d.update("o", map[string]string{"a.txt": "one"}, false)
	// the first update happened while the clock was ahead
	for _, dir := range []string{"o", "o/v1"} {
		p := filepath.Join(d.dir, dir, "inventory.json")
		b, err := os.ReadFile(p)
		if err != nil {
			t.Fatal(err)
		}
		var m map[string]any
		if err := json.Unmarshal(b, &m); err != nil {
			t.Fatal(err)
		}
		m["versions"].(map[string]any)["v1"].(map[string]any)["created"] = "2090-01-01T00:00:00Z"
		b, _ = json.Marshal(m)
		os.WriteFile(p, b, 0644)
		os.WriteFile(p+".sha512", []byte(fmt.Sprintf("%x inventory.json", sha512.Sum512(b))), 0644)
	}
	d.update("o", map[string]string{"a.txt": "two"}, false)
	d.want("o", "latest", map[string]string{"a.txt": "two"})
}
''')

bug("s07-v10", "C11",
    "an object with ten or more versions and an update which changes nothing",
    "an old version becomes the head again after an unchanged update",
    [(IB, """	// sort versions ascending
	sort.Ints(versions)
	lastVersion := versions[len(versions)-1]
	return versionString[lastVersion]
""", """	// sort versions ascending
	names := []string{}
	for _, v := range versions {
		names = append(names, versionString[v])
	}
	sort.Strings(names)
	return names[len(names)-1]
""")],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.create()
	files := map[string]string{}
	for i := 1; i <= 10; i++ {
		files["a.txt"] = fmt.Sprint("content ", i)
		d.update("o", files, false)
	}
	before := tree(d.dir)
	o, err := d.open("o")
	if err != nil {
		t.Fatal(err)
	}
	src := d.source(files)
	if _, err := o.StartUpdate(src, "m", "u", "mailto:a@b.c", false); err != nil {
		t.Fatal(err)
	}
	if err := o.AddFolder(src, nil, true, ""); err != nil {
		t.Fatal(err)
	}
	if err := o.EndUpdate(); err != nil {
		t.Fatal(err)
	}
	if h := o.GetInventory().GetHead(); h != "v10" {
		t.Errorf("head is %s after an unchanged update", h)
	}
	if err := o.Close(); err != nil {
		t.Fatal(err)
	}
	same(t, "storage root", tree(d.dir), before)
}
''')

bug("s08-stored-twice", "C11",
    "bytes which are stored under two content paths already (ingested without deduplication) and a third name for them",
    "the same bytes are stored a third time though deduplication is on",
    [(OB, """			// file already ingested, but new virtual name
			if dups := object.i.GetDuplicates(digest); len(dups) > 0 {""", """			// file already ingested, but new virtual name
			if dups := object.i.GetDuplicates(digest); len(dups) == 1 {""")],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.create()
	d.dedup = false
	d.update("o", map[string]string{"a.txt": "same", "b.txt": "same"}, false)
	d.dedup = true
	d.update("o", map[string]string{"a.txt": "same", "b.txt": "same", "c.txt": "same"}, false)
	d.want("o", "v2", map[string]string{"a.txt": "same", "b.txt": "same", "c.txt": "same"})
	if _, ok := tree(d.dir)["o/v2/content/c.txt"]; ok {
		t.Error("known bytes are stored again")
	}
}
''')

bug("s10-closes-early", "C05",
    "an extension consuming the content stream stops reading before the end with an error",
    "storing the content blocks for ever",
    [(X + "NNNN-gocfl-extension-manager.go", """			// discard remaining data
			_, _ = io.Copy(io.Discard, r)
""", """			// discard a remaining byte
			_, _ = io.CopyN(io.Discard, r, 1)
""")],
    '''
type failing struct{}

func (f *failing) GetName() string                                       { return "NNNN-failing" }
func (f *failing) SetFS(fs.FS, bool)                                     {}
func (f *failing) GetFS() fs.FS                                          { return nil }
func (f *failing) SetParams(map[string]string) error                     { return nil }
func (f *failing) WriteConfig() error                                    { return nil }
func (f *failing) GetConfig() any                                        { return map[string]any{} }
func (f *failing) IsRegistered() bool                                    { return true }
func (f *failing) Terminate() error                                      { return nil }
func (f *failing) StreamObject(ocfl.Object, io.Reader, []string, string) error {
	return fmt.Errorf("cannot process")
}

func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.add = []ocfl.Extension{&failing{}}
	d.create()
	c := make(chan error, 1)
	files := map[string]string{"a.bin": strings.Repeat("x", 5000000)}
	go func() { c <- d.try("o", files, false) }()
	select {
	case err := <-c:
		if err == nil {
			t.Error("failure of the extension is not reported")
		}
	case <-time.After(20 * time.Second):
		t.Error("update does not end")
	}
}
''')

bug("s11-first-object", "C12",
    "a storage layout with nested folders, where a folder contains an object and further folders follow",
    "objects are missing when the storage root is listed",
    [(SR, """				dirs, err := recurse(currPath)
				if err != nil {
					return nil, errors.Wrapf(err, "cannot recurse into %s", currPath)
				}
				result = append(result, dirs...)
""", """				dirs, err := recurse(currPath)
				if err != nil {
					return nil, errors.Wrapf(err, "cannot recurse into %s", currPath)
				}
				result = append(result[:0], dirs...)
""")],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.layout = map[string]any{"extensionName": "0007-n-tuple-omit-prefix-storage-layout", "delimiter": ":", "tupleSize": 2, "numberOfTuples": 2, "zeroPadding": "left", "reverseObjectRoot": false}
	d.create()
	for _, id := range []string{"a:112233", "a:112299", "a:118844", "a:771122"} {
		d.update(id, map[string]string{"a.txt": id}, false)
	}
	root, _, _ := d.load()
	got, err := root.GetObjectFolders()
	if err != nil {
		t.Fatal(err)
	}
	sort.Strings(got)
	if strings.Join(got, " ") != strings.Join(d.objects(), " ") {
		t.Errorf("listed %v instead of %v", got, d.objects())
	}
}
''')

bug("s12-fixity-alg", "C08",
    "an object with a fixity algorithm and a file which is stored without a content hook (fixity of a file stored twice)",
    "fixity of a later file with the same bytes is not recorded for its path, or for a wrong one",
    [(IB, """		if !slices.Contains(i.Fixity[alg][fixityDigest], manifestFilename) {
			i.Fixity[alg][fixityDigest] = append(i.Fixity[alg][fixityDigest], manifestFilename)
""", """		if !slices.Contains(i.Fixity[alg][fixityDigest], manifestFilename) {
			i.Fixity[alg][fixityDigest] = append(i.Fixity[alg][fixityDigest], stateFilenames...)
""")],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.fixity = []checksum.DigestAlgorithm{checksum.DigestSHA256}
	d.create()
	d.update("o", map[string]string{"a.txt": "one"}, false)
	var m struct {
		Fixity map[string]map[string][]string
	}
	if err := json.Unmarshal([]byte(tree(d.dir)["o/inventory.json"]), &m); err != nil {
		t.Fatal(err)
	}
	for _, x := range m.Fixity {
		for _, fs := range x {
			for _, f := range fs {
				if _, ok := tree(d.dir)["o/"+f]; !ok {
					t.Errorf("fixity of %q which does not exist", f)
				}
			}
		}
	}
}
''')

bug("s13-trust-manifest", "C09",
    "a stored file damaged without a change of its size, extracted without its manifest",
    "extraction delivers other bytes and reports success",
    [(OB, "				if copyDigest != digest {", "				if withManifest && copyDigest != digest {")],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.create()
	d.update("o", map[string]string{"a.txt": "content"}, false)
	if err := os.WriteFile(filepath.Join(d.dir, "o/v1/content/a.txt"), []byte("CONTENT"), 0644); err != nil {
		t.Fatal(err)
	}
	for _, m := range []bool{true, false} {
		if _, err := d.tryExtract("o", "v1", m, ""); err == nil {
			t.Errorf("damaged file is extracted without an error (manifest: %v)", m)
		}
	}
}
''')

bug("s14-fixity-first", "C23",
    "the fixity block has the digest of another stored file for the first of the paths with this digest",
    "validation does not report that a file does not match its fixity digest",
    [(IB, """			for _, file := range files {
				if !slices.Contains(csFilenames, file) {
					i.addValidationError(E093""", """			for _, file := range files[1:] {
				if !slices.Contains(csFilenames, file) {
					i.addValidationError(E093""")],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.fixity = []checksum.DigestAlgorithm{checksum.DigestSHA256}
	d.create()
	d.update("o", map[string]string{"a.txt": "one", "b.txt": "two"}, false)
	d.valid()
	// the digests exchanged with fitting sidecar files
	inv := tree(d.dir)["o/inventory.json"]
	var m map[string]any
	if err := json.Unmarshal([]byte(inv), &m); err != nil {
		t.Fatal(err)
	}
	m["fixity"] = map[string]any{"sha256": map[string]any{
		fmt.Sprintf("%x", sha256.Sum256([]byte("one"))): []string{"v1/content/b.txt"},
		fmt.Sprintf("%x", sha256.Sum256([]byte("two"))): []string{"v1/content/a.txt"},
	}}
	b, _ := json.Marshal(m)
	for _, f := range []string{"o", "o/v1"} {
		if err := os.WriteFile(filepath.Join(d.dir, f, "inventory.json"), b, 0644); err != nil {
			t.Fatal(err)
		}
		if err := os.WriteFile(filepath.Join(d.dir, f, "inventory.json.sha512"), []byte(fmt.Sprintf("%x inventory.json\\n", sha512.Sum512(b))), 0644); err != nil {
			t.Fatal(err)
		}
	}
	if len(d.validate()) == 0 {
		t.Errorf("wrong fixity digest is not reported")
	}
}
''')

bug("s15-ext-folder", "C12",
    "an object in a folder whose name begins with ext",
    "the object is not found when the storage root is listed, and not validated",
    [(SR, "		if dir == \"extensions\" {\n			continue", "		if strings.HasPrefix(dir, \"ext\") {\n			continue")],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.create()
	for _, id := range []string{"o", "extra-1"} {
		d.update(id, map[string]string{"a.txt": id}, false)
	}
	root, _, _ := d.load()
	got, err := root.GetObjectFolders()
	if err != nil {
		t.Fatal(err)
	}
	sort.Strings(got)
	if strings.Join(got, " ") != strings.Join(d.objects(), " ") {
		t.Errorf("listed %v instead of %v", got, d.objects())
	}
}
''')

bug("s16-records-latest", "C17",
    "a file with filesystem metadata which a later version no longer has",
    "the recorded metadata of the file is lost when metadata is extracted",
    [(X + "NNNN-filesystem.go", "inventory.IterateStateFiles(v, func(internals", "inventory.IterateStateFiles(\"latest\", func(internals")],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ext = map[string]map[string]any{"NNNN-filesystem": {"storageType": "extension", "storageName": "metadata", "compress": "none", "folders": ""}}
	d.create()
	d.update("o", map[string]string{"a.txt": "one", "b.txt": "two"}, true)
	d.update("o", map[string]string{"b.txt": "two", "c.txt": "three"}, true)
	root, _, _ := d.load()
	o, err := root.LoadObjectByID("o")
	if err != nil {
		t.Fatal(err)
	}
	m, err := o.GetMetadata()
	if err != nil {
		t.Fatal(err)
	}
	for _, c := range []string{"one", "two", "three"} {
		f := m.Files[fmt.Sprintf("%x", sha512.Sum512([]byte(c)))]
		if f == nil || f.Extension["NNNN-filesystem"] == nil {
			t.Errorf("metadata of %q is missing", c)
		}
	}
}
''')

bug("s17-two-failures", "C05",
    "two extensions which consume the content stream fail for the same file",
    "storing the content blocks for ever",
    [(X + "NNNN-gocfl-extension-manager.go", "make(chan error, len(manager.stream))", "make(chan error, 1)")],
    '''
type failing struct{ n string }

func (f *failing) GetName() string                   { return "NNNN-failing" + f.n }
func (f *failing) SetFS(fs.FS, bool)                 {}
func (f *failing) GetFS() fs.FS                      { return nil }
func (f *failing) SetParams(map[string]string) error { return nil }
func (f *failing) WriteConfig() error                { return nil }
func (f *failing) GetConfig() any                    { return map[string]any{} }
func (f *failing) IsRegistered() bool                { return true }
func (f *failing) Terminate() error                  { return nil }
func (f *failing) StreamObject(_ ocfl.Object, r io.Reader, _ []string, _ string) error {
	_, _ = io.Copy(io.Discard, r)
	return fmt.Errorf("cannot process")
}

func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.add = []ocfl.Extension{&failing{"1"}, &failing{"2"}, &failing{"3"}}
	d.create()
	c := make(chan error, 1)
	go func() { c <- d.try("o", map[string]string{"a.bin": "some content"}, false) }()
	select {
	case err := <-c:
		if err == nil {
			t.Error("failure of the extensions is not reported")
		}
	case <-time.After(20 * time.Second):
		t.Error("update does not end")
	}
}
''')

bug("s18-stat-count", "C27",
    "an object which has the same bytes stored under several content paths",
    "the report tells a wrong number of stored files",
    [(OB, "		cnt += len(fs)\n", "		if len(fs) > 0 {\n			cnt++\n		}\n")],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.dedup = false
	d.create()
	d.update("o", map[string]string{"a.txt": "same", "b.txt": "same", "c.txt": "other"}, false)
	root, _, _ := d.load()
	var b bytes.Buffer
	if err := root.Stat(&b, "", "o", nil); err != nil {
		t.Fatal(err)
	}
	n := 0
	for f := range tree(d.dir) {
		if strings.Contains(f, "/content/") {
			n++
		}
	}
	if !strings.Contains(b.String(), fmt.Sprintf("%d files (2 unique files)", n)) {
		t.Errorf("%d files are stored, but the report tells %s", n, b.String())
	}
}
''')

bug("s19-padding-nine", "C22",
    "an object of other software with zero-padded version folders whose newest version is v..9",
    "the version after it gets a name with another padding, which makes the object invalid",
    [(IB, """		if i.paddingLength <= 0 {
			i.Head.string = fmt.Sprintf("v%d", v+1)""", """		if i.paddingLength <= 0 || v >= 9 {
			i.Head.string = fmt.Sprintf("v%d", v+1)""")],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.create()
	d.update("o", map[string]string{"a.txt": "one"}, false)
	// an object which another software made: v0001
	inv := strings.ReplaceAll(tree(d.dir)["o/inventory.json"], "\\"v1", "\\"v0001")
	if err := os.Rename(filepath.Join(d.dir, "o/v1"), filepath.Join(d.dir, "o/v0001")); err != nil {
		t.Fatal(err)
	}
	for _, f := range []string{"o", "o/v0001"} {
		if err := os.WriteFile(filepath.Join(d.dir, f, "inventory.json"), []byte(inv), 0644); err != nil {
			t.Fatal(err)
		}
		if err := os.WriteFile(filepath.Join(d.dir, f, "inventory.json.sha512"), []byte(fmt.Sprintf("%x inventory.json\\n", sha512.Sum512([]byte(inv)))), 0644); err != nil {
			t.Fatal(err)
		}
	}
	d.valid()
	for i := 2; i <= 11; i++ {
		d.update("o", map[string]string{fmt.Sprintf("%d.txt", i): fmt.Sprint(i)}, false)
		v := fmt.Sprintf("v%04d", i)
		if _, ok := tree(d.dir)["o/"+v+"/inventory.json"]; !ok {
			t.Errorf("there is no version %s", v)
		}
	}
	d.valid()
}
''')

bug("s20-thumb-aspect", "C25",
    "thumbnails in a box which is not square and a picture whose proportions are between those of the box and a square",
    "the thumbnail is bigger than configured",
    [(X + "NNNN-thumbnail_native.go", "	if rectAspect > thumbAspect {", "	if rectAspect > max(1, thumbAspect) {")],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	x, err := extension.NewThumbnail(&extension.ThumbnailConfig{
		ExtensionConfig: &ocfl.ExtensionConfig{ExtensionName: extension.ThumbnailName},
		StorageType:     "extension", StorageName: "thumbs", Ext: "png", Width: 20, Height: 60, Compress: "none", SingleDirectory: true,
	}, &thumbnail.Thumbnail{}, logger())
	if err != nil {
		t.Fatal(err)
	}
	d.add = []ocfl.Extension{x}
	d.ext = map[string]map[string]any{}
	for i, s := range [][2]int{{100, 100}, {200, 100}, {60, 100}, {90, 100}, {10, 100}} {
		var b bytes.Buffer
		if err := png.Encode(&b, image.NewGray(image.Rect(0, 0, s[0], s[1]))); err != nil {
			t.Fatal(err)
		}
		if i == 0 {
			d.create()
		}
		d.update(fmt.Sprintf("o%d", i), map[string]string{"a.png": b.String()}, false)
	}
	n := 0
	for f, c := range tree(d.dir) {
		if strings.Contains(f, "/thumbs/") && strings.HasSuffix(f, ".png") {
			n++
			p, err := png.Decode(strings.NewReader(c))
			if err != nil {
				t.Errorf("%s: %v", f, err)
			} else if r := p.Bounds(); r.Dx() > 20 || r.Dy() > 60 {
				t.Errorf("%s has %d x %d pixels", f, r.Dx(), r.Dy())
			}
		}
	}
	if n == 0 {
		t.Error("there are no thumbnails")
	}
}
''')

bug("s21-mets-same-bytes", "C26",
    "a version which has the same bytes under several names",
    "the files of these names have the same identifier in METS and PREMIS",
    [(X + "NNNN-mets.go", "				uuidString := internalFiledata[extPath].uuid\n", "				uuidString := internalFiledata[extNames[0]].uuid\n")],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	x, err := extension.NewMets(&extension.MetsConfig{
		ExtensionConfig: &ocfl.ExtensionConfig{ExtensionName: extension.METSName},
		StorageType:     "extension", StorageName: "metadata", MetsFile: "mets.xml", PremisFile: "premis.xml",
	}, logger())
	if err != nil {
		t.Fatal(err)
	}
	d.add = []ocfl.Extension{x}
	d.create()
	d.update("o", map[string]string{"a.txt": "same", "b.txt": "same", "c.txt": "other"}, false)
	n := 0
	for f, c := range tree(d.dir) {
		if !strings.HasSuffix(f, "mets.xml") && !strings.Contains(filepath.Base(f), "mets") || !strings.HasSuffix(f, ".xml") {
			continue
		}
		n++
		ids := map[string]bool{}
		for _, p := range strings.Split(c, " ID=\\"")[1:] {
			id, _, _ := strings.Cut(p, "\\"")
			if ids[id] {
				t.Errorf("%s: identifier %s twice", f, id)
			}
			ids[id] = true
		}
	}
	if n == 0 {
		t.Error("there is no METS document")
	}
}
''')

bug("s22-readme-again", "C11",
    "an object with areas and an update which changes something",
    "the unchanged description of the areas is stored again by every version",
    [(X + "NNNN-content-subpath.go", '"README.md", true, "full", false, false)', '"README.md", false, "full", false, false)')],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ext = map[string]map[string]any{"NNNN-content-subpath": {"subPath": map[string]any{
		"content":  map[string]any{"path": "data", "description": "payload"},
		"metadata": map[string]any{"path": "meta", "description": "metadata"},
	}}}
	d.create()
	d.update("o", map[string]string{"a.txt": "one"}, false)
	d.update("o", map[string]string{"a.txt": "two"}, false)
	d.valid()
	n := map[string]int{}
	for f, c := range tree(d.dir) {
		if strings.Contains(f, "/content/") {
			n[c]++
			if n[c] > 1 {
				t.Errorf("%s is stored again", f)
			}
		}
	}
	if len(n) != 3 {
		t.Errorf("%d contents are stored", len(n))
	}
}
''')

bug("s23-trim-cutset", "C19",
    "an area whose path has several levels, and a file whose name begins with letters of this path",
    "extraction of the area cuts off the beginning of the name",
    [(X + "NNNN-content-subpath.go", 'strings.TrimLeft(strings.TrimPrefix(originalPath, subpath.Path), "/")', 'strings.TrimLeft(originalPath, subpath.Path+"/")')],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ext = map[string]map[string]any{"NNNN-content-subpath": {"subPath": map[string]any{
		"content":  map[string]any{"path": "files/data", "description": "payload"},
		"metadata": map[string]any{"path": "meta", "description": "metadata"},
	}}}
	d.create()
	in := map[string]string{"x.txt": "1", "atlas.txt": "2", "dates/x": "3"}
	d.update("o", in, false)
	got, err := d.tryExtract("o", "v1", false, "content")
	if err != nil {
		t.Fatal(err)
	}
	same(t, "area content", got, in)
}
''')

bug("s24-echo-stays", "C19",
    "an object which is kept open: an update which mirrors its source, then one which only adds files",
    "the second update removes the files it does not mention",
    [(OB, "	object.echo = echo\n", "	object.echo = object.echo || echo\n")],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.create()
	o, err := d.open("o")
	if err != nil {
		t.Fatal(err)
	}
	for i, in := range []map[string]string{{"a.txt": "one", "b.txt": "two"}, {"c.txt": "three"}} {
		src := d.source(in)
		if _, err := o.StartUpdate(src, "message", "user", "mailto:user@example.org", i == 0); err != nil {
			t.Fatal(err)
		}
		if err := o.AddFolder(src, nil, true, ""); err != nil {
			t.Fatal(err)
		}
		if err := o.EndUpdate(); err != nil {
			t.Fatal(err)
		}
	}
	if err := o.Close(); err != nil {
		t.Fatal(err)
	}
	d.want("o", "v2", map[string]string{"a.txt": "one", "b.txt": "two", "c.txt": "three"})
}
''')

bug("s25-segment-limit", "C29",
    "clean path layout and an identifier with a part exactly as long as a segment may be",
    "the object is stored in the fallback folder instead of its own",
    [(X + "NNNN-direct-clean-path-layout.go", "if lenN > sl.MaxPathSegmentLen {", "if lenN >= sl.MaxPathSegmentLen {")],
    '''
func TestDemo(t *testing.T) {
	for _, n := range []int{19, 20, 21} {
		d := newDemo(t)
		d.layout = map[string]any{"extensionName": "NNNN-direct-clean-path-layout", "maxPathSegmentLen": 20}
		d.create()
		id := "a/" + strings.Repeat("b", n) + "/c"
		d.update(id, map[string]string{"a.txt": "one"}, false)
		l := d.objects()
		if len(l) != 1 || (l[0] == id) != (n <= 20) {
			t.Errorf("object %s is in %v", id, l)
		}
	}
}
''')

bug("s26-ext-validate", "C06",
    "an object in a folder whose name continues the word extensions, and a damaged file in it",
    "the object is neither listed nor validated",
    [(SR, '		if dir == "extensions" {', '		if strings.HasPrefix(dir, "extensions") {')],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.create()
	d.update("extensions-2", map[string]string{"a.txt": "one"}, false)
	d.update("o", map[string]string{"a.txt": "one"}, false)
	d.valid()
	if err := os.WriteFile(filepath.Join(d.dir, "extensions-2/v1/content/a.txt"), []byte("two"), 0644); err != nil {
		t.Fatal(err)
	}
	if len(d.validate()) == 0 {
		t.Error("the damage is not reported")
	}
}
''')

bug("s27-shared-hash", "C13",
    "objects of one storage root used in parallel, with the hashed layout",
    "the location of one object is computed from the digest of another one",
    [(X + "0004-hashed-n-tuple-storage-layout.go", "	defer sl.hashMutex.Unlock()\n	sl.hash.Reset()\n", "	sl.hash.Reset()\n"),
     (X + "0004-hashed-n-tuple-storage-layout.go", "	digestBytes := sl.hash.Sum(nil)\n	digest := fmt.Sprintf(\"%x\", digestBytes)\n", "	sl.hashMutex.Unlock()\n	digest := fmt.Sprintf(\"%x\", sl.hash.Sum(nil))\n")],
    '''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	m := fstest.MapFS{"config.json": cfg(map[string]any{"extensionName": "0004-hashed-n-tuple-storage-layout", "digestAlgorithm": "sha512", "tupleSize": 3, "numberOfTuples": 3})}
	_ = d
	l, err := extension.NewStorageLayoutHashedNTupleFS(m)
	if err != nil {
		t.Fatal(err)
	}
	x, ok := any(l).(interface {
		BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error)
	})
	if !ok {
		t.Fatal("this is no layout")
	}
	bad := make(chan string, 100)
	done := make(chan bool)
	for w := 0; w < 8; w++ {
		go func(w int) {
			defer func() { done <- true }()
			for i := 0; i < 40000; i++ {
				id := fmt.Sprintf("object %d %d", w, i)
				p, err := x.BuildStorageRootPath(nil, id)
				if err != nil || !strings.HasSuffix(p, fmt.Sprintf("/%x", sha512.Sum512([]byte(id)))) {
					bad <- fmt.Sprintf("%s is in %s: %v", id, p, err)
					return
				}
			}
		}(w)
	}
	for w := 0; w < 8; w++ {
		<-done
	}
	if len(bad) > 0 {
		t.Error(<-bad)
	}
}
''')
