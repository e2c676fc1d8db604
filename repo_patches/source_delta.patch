From 49abf7ab8adf2abda467810f9056dabf2c527cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 001/132] fix: create missing parent folders of objects and
 extracted objects

Storage layouts with several folder levels could not be used on file systems
whose MkDir does not create parents, and the extraction of a whole storage
root failed for the same reason. The error of BuildStorageRootPath was ignored.
---
 pkg/ocfl/helper.go          | 14 ++++++++++++++
 pkg/ocfl/storagerootbase.go |  7 +++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 5ebe2ad..7a02cc5 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -132,6 +132,20 @@ func Fullpath(path string) (string, error) {
 	return filepath.ToSlash(filepath.Join(currdir, path)), nil
 }
 
+// subFSCreateAll creates a folder together with all its missing parents and returns
+// the sub filesystem of it. Not every filesystem creates parents on MkDir.
+func subFSCreateAll(fsys fs.FS, folder string) (fs.FS, error) {
+	for i, c := range folder {
+		if c != '/' || i == 0 {
+			continue
+		}
+		if err := writefs.MkDir(fsys, folder[:i]); err != nil && !errors.Is(err, fs.ErrExist) {
+			return nil, errors.Wrapf(err, "cannot create directory '%s'", folder[:i])
+		}
+	}
+	return writefs.SubFSCreate(fsys, folder)
+}
+
 // deep copy map of string slices
 func copyMapStringSlice(dest, src map[string][]string) {
 	for key, val := range src {
diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 988c00e..3fce8ae 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -390,7 +390,10 @@ func (osr *StorageRootBase) LoadObjectByID(id string) (object Object, err error)
 
 func (osr *StorageRootBase) CreateObject(id string, version OCFLVersion, digest checksum.DigestAlgorithm, fixity []checksum.DigestAlgorithm, manager ExtensionManager) (Object, error) {
 	folder, err := osr.extensionManager.BuildStorageRootPath(osr, id)
-	subfs, err := writefs.SubFSCreate(osr.fsys, folder)
+	if err != nil {
+		return nil, errors.Wrapf(err, "cannot create folder from id '%s'", id)
+	}
+	subfs, err := subFSCreateAll(osr.fsys, folder)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create sub fs of %v for '%s'", osr.fsys, folder)
 	}
@@ -665,7 +668,7 @@ func (osr *StorageRootBase) Extract(fsys fs.FS, path, id, version string, withMa
 			if err != nil {
 				return errors.Wrapf(err, "cannot open object in folder '%s'", oFolder)
 			}
-			subFS, err := fs.Sub(fsys, oFolder)
+			subFS, err := subFSCreateAll(fsys, oFolder)
 			if err != nil {
 				return errors.Wrapf(err, "cannot create subfolder '%s' of '%v'", oFolder, fsys)
 			}
-- 
2.43.0


From 2e66dfd1499db0531c3ee84a7dd1e4c4a11c99f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 002/132] fix: store the parameters of storage layout
 extensions

WriteConfig wrote only the name of the extension, so a storage root opened
again used other parameters than the ones its objects were stored with.
---
 pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go | 2 +-
 pkg/extension/0004-hashed-n-tuple-storage-layout.go      | 2 +-
 pkg/extension/0006-flat-omit-prefix-storage-layout.go    | 2 +-
 pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go | 2 +-
 pkg/extension/NNNN-pairtree-storage-layout.go            | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index 30f8dc5..e271cae 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -108,7 +108,7 @@ func (sl *StorageLayoutHashAndIdNTuple) WriteConfig() error {
 	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
+	if err := jenc.Encode(sl.StorageLayoutHashAndIdNTupleConfig); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
 	return nil
diff --git a/pkg/extension/0004-hashed-n-tuple-storage-layout.go b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
index 135b62d..9503d15 100644
--- a/pkg/extension/0004-hashed-n-tuple-storage-layout.go
+++ b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
@@ -107,7 +107,7 @@ func (sl *StorageLayoutHashedNTuple) WriteConfig() error {
 	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
+	if err := jenc.Encode(sl.StorageLayoutHashedNTupleConfig); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
 	return nil
diff --git a/pkg/extension/0006-flat-omit-prefix-storage-layout.go b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
index 72b359e..090200c 100644
--- a/pkg/extension/0006-flat-omit-prefix-storage-layout.go
+++ b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
@@ -88,7 +88,7 @@ func (sl *FlatOmitPrefixStorageLayout) WriteConfig() error {
 	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
+	if err := jenc.Encode(sl.FlatOmitPrefixStorageLayoutConfig); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
 	return nil
diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index 108a854..d8cb674 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -108,7 +108,7 @@ func (sl *NTupleOmitPrefixStorageLayout) WriteConfig() error {
 	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
+	if err := jenc.Encode(sl.NTupleOmitPrefixStorageLayoutConfig); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
 	return nil
diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index 611db44..587b86b 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -131,7 +131,7 @@ func (sl *StorageLayoutPairTree) WriteConfig() error {
 	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
+	if err := jenc.Encode(sl.StorageLayoutPairTreeConfig); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
 	return nil
-- 
2.43.0


From 96d9063f00546df132c61e9636e98d909e8c58c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 003/132] fix: unsupported extension in a storage root
 terminated the program

LoadStorageRoot passes no validation to CreateExtensions, which used it without
check. The extension named by an initial extension found under another name
replaced the extension name instead of the manager's name.
---
 pkg/extension/initial.go     | 2 +-
 pkg/ocfl/extensionFactory.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/extension/initial.go b/pkg/extension/initial.go
index 4bd7c64..5a2f5a0 100644
--- a/pkg/extension/initial.go
+++ b/pkg/extension/initial.go
@@ -77,7 +77,7 @@ func (sl *Initial) Terminate() error {
 }
 
 func (sl *Initial) SetExtension(ext string) {
-	sl.ExtensionName = ext
+	sl.Extension = ext
 }
 
 func (sl *Initial) GetExtension() string {
diff --git a/pkg/ocfl/extensionFactory.go b/pkg/ocfl/extensionFactory.go
index 8ecca6e..d29b438 100644
--- a/pkg/ocfl/extensionFactory.go
+++ b/pkg/ocfl/extensionFactory.go
@@ -94,6 +94,9 @@ func (f *ExtensionFactory) CreateExtensions(fsys fs.FS, validation Validation) (
 		ext, err := f.Create(sub)
 		if err != nil {
 			//errs = append(errs, errors.Wrapf(err, "cannot create extension %s", file.Name()))
+			if validation == nil {
+				continue
+			}
 			validation.addValidationWarning(W000, "extension %s not supported by gocfl %s", file.Name(), version.VERSION)
 		} else {
 			if !ext.IsRegistered() {
-- 
2.43.0


From e215f6d48c2d6524fa321165b831588b3ec3a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 004/132] fix: always write the config of the extension manager

The initial extension names the manager, so a manager without sort and exclusion
rules made the storage root or object unloadable.
---
 pkg/extension/NNNN-gocfl-extension-manager.go | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index fddb639..8f486b8 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -294,17 +294,15 @@ func (manager *GOCFLExtensionManager) WriteConfig() error {
 		}
 	}
 
-	if len(manager.Exclusion) != 0 || len(manager.Sort) != 0 {
-		configWriter, err := writefs.Create(manager.fsys, "config.json")
-		if err != nil {
-			return errors.Wrap(err, "cannot open config.json")
-		}
-		defer configWriter.Close()
-		jenc := json.NewEncoder(configWriter)
-		jenc.SetIndent("", "   ")
-		if err := jenc.Encode(manager.ExtensionManagerConfig); err != nil {
-			return errors.Wrapf(err, "cannot encode config to file")
-		}
+	configWriter, err := writefs.Create(manager.fsys, "config.json")
+	if err != nil {
+		return errors.Wrap(err, "cannot open config.json")
+	}
+	defer configWriter.Close()
+	jenc := json.NewEncoder(configWriter)
+	jenc.SetIndent("", "   ")
+	if err := jenc.Encode(manager.ExtensionManagerConfig); err != nil {
+		return errors.Wrapf(err, "cannot encode config to file")
 	}
 	return nil
 }
-- 
2.43.0


From 4276dc8c9e9d842105ee65bf8309d7ca92c6912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 005/132] fix: report failure to close extension config and
 layout files

Data still buffered is only known to be stored when closing succeeds.
---
 pkg/extension/0001-digest-algorithms.go                |  5 ++++-
 pkg/extension/0002-flat-direct-storage-layout.go       | 10 ++++++++--
 .../0003-hash-and-id-n-tuple-storage-layout.go         | 10 ++++++++--
 pkg/extension/0004-hashed-n-tuple-storage-layout.go    | 10 ++++++++--
 pkg/extension/0006-flat-omit-prefix-storage-layout.go  | 10 ++++++++--
 .../0007-n-tuple-omit-prefix-storage-layout.go         | 10 ++++++++--
 pkg/extension/NNNN-content-subpath.go                  |  5 ++++-
 pkg/extension/NNNN-direct-clean-path-layout.go         | 10 ++++++++--
 pkg/extension/NNNN-filesystem.go                       |  5 ++++-
 pkg/extension/NNNN-gocfl-extension-manager.go          | 10 ++++++++--
 pkg/extension/NNNN-indexer.go                          |  5 ++++-
 pkg/extension/NNNN-metafile.go                         |  5 ++++-
 pkg/extension/NNNN-mets.go                             |  5 ++++-
 pkg/extension/NNNN-pairtree-storage-layout.go          | 10 ++++++++--
 pkg/extension/NNNN-thumbnail.go                        |  5 ++++-
 pkg/extension/initial.go                               |  5 ++++-
 pkg/extension/pathdirect.go                            | 10 ++++++++--
 17 files changed, 104 insertions(+), 26 deletions(-)

diff --git a/pkg/extension/0001-digest-algorithms.go b/pkg/extension/0001-digest-algorithms.go
index 5fbcd1b..2b8b158 100644
--- a/pkg/extension/0001-digest-algorithms.go
+++ b/pkg/extension/0001-digest-algorithms.go
@@ -96,12 +96,15 @@ func (sl *DigestAlgorithms) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close config.json")
+	}
 	return nil
 }
 
diff --git a/pkg/extension/0002-flat-direct-storage-layout.go b/pkg/extension/0002-flat-direct-storage-layout.go
index bd6b470..f247c2b 100644
--- a/pkg/extension/0002-flat-direct-storage-layout.go
+++ b/pkg/extension/0002-flat-direct-storage-layout.go
@@ -83,12 +83,15 @@ func (sl *StorageLayoutFlatDirect) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close config.json")
+	}
 	return nil
 }
 
@@ -97,7 +100,6 @@ func (sl *StorageLayoutFlatDirect) WriteLayout(fsys fs.FS) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -107,8 +109,12 @@ func (sl *StorageLayoutFlatDirect) WriteLayout(fsys fs.FS) error {
 		Extension:   StorageLayoutFlatDirectName,
 		Description: StorageLayoutFlatDirectDescription,
 	}); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close ocfl_layout.json")
+	}
 	return nil
 }
 
diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index e271cae..b549b5b 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -105,12 +105,15 @@ func (sl *StorageLayoutHashAndIdNTuple) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.StorageLayoutHashAndIdNTupleConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close config.json")
+	}
 	return nil
 }
 
@@ -163,7 +166,6 @@ func (sl *StorageLayoutHashAndIdNTuple) WriteLayout(fsys fs.FS) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -173,8 +175,12 @@ func (sl *StorageLayoutHashAndIdNTuple) WriteLayout(fsys fs.FS) error {
 		Extension:   StorageLayoutHashAndIdNTupleName,
 		Description: StorageLayoutHashAndIdNTupleDescription,
 	}); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close ocfl_layout.json")
+	}
 	return nil
 }
 
diff --git a/pkg/extension/0004-hashed-n-tuple-storage-layout.go b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
index 9503d15..3463da0 100644
--- a/pkg/extension/0004-hashed-n-tuple-storage-layout.go
+++ b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
@@ -104,12 +104,15 @@ func (sl *StorageLayoutHashedNTuple) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.StorageLayoutHashedNTupleConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close config.json")
+	}
 	return nil
 }
 
@@ -140,7 +143,6 @@ func (sl *StorageLayoutHashedNTuple) WriteLayout(fsys fs.FS) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -150,8 +152,12 @@ func (sl *StorageLayoutHashedNTuple) WriteLayout(fsys fs.FS) error {
 		Extension:   StorageLayoutHashedNTupleName,
 		Description: StorageLayoutHashedNTupleDescription,
 	}); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close ocfl_layout.json")
+	}
 	return nil
 }
 
diff --git a/pkg/extension/0006-flat-omit-prefix-storage-layout.go b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
index 090200c..a8d8aa2 100644
--- a/pkg/extension/0006-flat-omit-prefix-storage-layout.go
+++ b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
@@ -85,12 +85,15 @@ func (sl *FlatOmitPrefixStorageLayout) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.FlatOmitPrefixStorageLayoutConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close config.json")
+	}
 	return nil
 }
 
@@ -99,7 +102,6 @@ func (sl *FlatOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -109,8 +111,12 @@ func (sl *FlatOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
 		Extension:   FlatOmitPrefixStorageLayoutName,
 		Description: FlatOmitPrefixStorageLayoutDescription,
 	}); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close ocfl_layout.json")
+	}
 	return nil
 }
 
diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index d8cb674..bb90bd9 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -105,12 +105,15 @@ func (sl *NTupleOmitPrefixStorageLayout) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.NTupleOmitPrefixStorageLayoutConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close config.json")
+	}
 	return nil
 }
 
@@ -119,7 +122,6 @@ func (sl *NTupleOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -129,8 +131,12 @@ func (sl *NTupleOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
 		Extension:   NTupleOmitPrefixStorageLayoutName,
 		Description: NTupleOmitPrefixStorageLayoutDescription,
 	}); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close ocfl_layout.json")
+	}
 	return nil
 }
 
diff --git a/pkg/extension/NNNN-content-subpath.go b/pkg/extension/NNNN-content-subpath.go
index 00387bc..9e05ebf 100644
--- a/pkg/extension/NNNN-content-subpath.go
+++ b/pkg/extension/NNNN-content-subpath.go
@@ -113,12 +113,15 @@ func (sl *ContentSubPath) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.ContentSubPathConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close config.json")
+	}
 
 	return nil
 }
diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index 6df6262..8604e45 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -162,12 +162,15 @@ func (sl *DirectClean) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.DirectCleanConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close config.json")
+	}
 	return nil
 }
 
@@ -176,7 +179,6 @@ func (sl *DirectClean) WriteLayout(fsys fs.FS) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -186,8 +188,12 @@ func (sl *DirectClean) WriteLayout(fsys fs.FS) error {
 		Extension:   PathDirectName,
 		Description: DirectCleanDescription,
 	}); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close ocfl_layout.json")
+	}
 	return nil
 }
 
diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index f1db651..e331e9a 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -335,12 +335,15 @@ func (extFS *Filesystem) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(extFS.FilesystemConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close config.json")
+	}
 	return nil
 
 }
diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index 8f486b8..7d4477a 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -298,12 +298,15 @@ func (manager *GOCFLExtensionManager) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(manager.ExtensionManagerConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close config.json")
+	}
 	return nil
 }
 
@@ -341,7 +344,6 @@ func (manager *GOCFLExtensionManager) WriteLayout(fsys fs.FS) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -351,8 +353,12 @@ func (manager *GOCFLExtensionManager) WriteLayout(fsys fs.FS) error {
 		Extension:   GOCFLExtensionManagerName,
 		Description: GOCFLExtensionManagerDescription,
 	}); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close ocfl_layout.json")
+	}
 	return nil
 }
 
diff --git a/pkg/extension/NNNN-indexer.go b/pkg/extension/NNNN-indexer.go
index 856f2c6..fcf1523 100644
--- a/pkg/extension/NNNN-indexer.go
+++ b/pkg/extension/NNNN-indexer.go
@@ -210,12 +210,15 @@ func (sl *Indexer) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.IndexerConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close config.json")
+	}
 	return nil
 }
 
diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index 32629f0..9f2a1d9 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -162,12 +162,15 @@ func (sl *MetaFile) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.MetaFileConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close config.json")
+	}
 
 	return nil
 }
diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index a98494b..a25859f 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -159,12 +159,15 @@ func (me *Mets) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot create config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(me.MetsConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close config.json")
+	}
 
 	return nil
 }
diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index 587b86b..6560958 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -55,7 +55,6 @@ func (sl *StorageLayoutPairTree) WriteLayout(fsys fs.FS) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -65,8 +64,12 @@ func (sl *StorageLayoutPairTree) WriteLayout(fsys fs.FS) error {
 		Extension:   StorageLayoutFlatDirectName,
 		Description: StorageLayoutFlatDirectDescription,
 	}); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close ocfl_layout.json")
+	}
 	return nil
 }
 
@@ -128,12 +131,15 @@ func (sl *StorageLayoutPairTree) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.StorageLayoutPairTreeConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close config.json")
+	}
 	return nil
 }
 
diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index b86a0c0..e792076 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -168,12 +168,15 @@ func (thumb *Thumbnail) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(thumb.ThumbnailConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close config.json")
+	}
 	return nil
 }
 
diff --git a/pkg/extension/initial.go b/pkg/extension/initial.go
index 5a2f5a0..1923b61 100644
--- a/pkg/extension/initial.go
+++ b/pkg/extension/initial.go
@@ -118,12 +118,15 @@ func (sl *Initial) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.InitialConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close config.json")
+	}
 
 	return nil
 }
diff --git a/pkg/extension/pathdirect.go b/pkg/extension/pathdirect.go
index 4e245c5..0d57647 100644
--- a/pkg/extension/pathdirect.go
+++ b/pkg/extension/pathdirect.go
@@ -77,7 +77,6 @@ func (sl *PathDirect) WriteLayout(fsys fs.FS) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -87,8 +86,12 @@ func (sl *PathDirect) WriteLayout(fsys fs.FS) error {
 		Extension:   StorageLayoutFlatDirectName,
 		Description: StorageLayoutFlatDirectDescription,
 	}); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close ocfl_layout.json")
+	}
 	return nil
 }
 
@@ -100,12 +103,15 @@ func (sl *PathDirect) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.PathDirectConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close config.json")
+	}
 	return nil
 }
 
-- 
2.43.0


From 16dd490e3065905956120d83662b01d9486a4f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 006/132] fix: inaccessible extension folder terminated the
 program

Setting the file system of the extensions panicked when a folder could not be
opened or was named differently than its extension. The folder is unusable then,
which is reported when it is used.
---
 pkg/extension/NNNN-gocfl-extension-manager.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index 7d4477a..d560635 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -168,7 +168,7 @@ func (manager *GOCFLExtensionManager) SetFS(fsys fs.FS, create bool) {
 				extFS, err = writefs.SubFSCreate(fsys, ext.GetName())
 			}
 			if err != nil {
-				panic(err)
+				extFS = &unusableFS{err: err}
 			}
 		}
 		ext.SetFS(extFS, create)
@@ -180,11 +180,25 @@ func (manager *GOCFLExtensionManager) SetFS(fsys fs.FS, create bool) {
 			manager.fsys, err = writefs.SubFSCreate(fsys, manager.GetName())
 		}
 		if err != nil {
-			panic(err)
+			manager.fsys = &unusableFS{err: err}
 		}
 	}
 }
 
+// unusableFS stands for an extension folder which is not accessible. Every use of it
+// reports why.
+type unusableFS struct {
+	err error
+}
+
+func (u *unusableFS) Open(name string) (fs.File, error) {
+	return nil, errors.Wrapf(u.err, "cannot open '%s'", name)
+}
+
+func (u *unusableFS) Create(path string) (writefs.FileWrite, error) {
+	return nil, errors.Wrapf(u.err, "cannot create '%s'", path)
+}
+
 func (manager *GOCFLExtensionManager) GetFSName(extName string) (fs.FS, error) {
 	for _, ext := range manager.extensions {
 		if ext.GetName() == extName {
-- 
2.43.0


From 187d26e511ee6e85579aca207e0cbde759922cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 007/132] fix: storage root without extension configs reported
 as created

Init ignored that the extensions folder could not be created.
---
 pkg/ocfl/storagerootbase.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 3fce8ae..41e4816 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -130,11 +130,12 @@ func (osr *StorageRootBase) Init(version OCFLVersion, digest checksum.DigestAlgo
 	}
 
 	subfs, err := writefs.SubFSCreate(osr.fsys, "extensions")
-	if err == nil {
-		osr.extensionManager.SetFS(subfs, true)
-		if err := osr.extensionManager.WriteConfig(); err != nil {
-			return errors.Wrap(err, "cannot store extension configs")
-		}
+	if err != nil {
+		return errors.Wrapf(err, "cannot create subfs of %v for folder extensions", osr.fsys)
+	}
+	osr.extensionManager.SetFS(subfs, true)
+	if err := osr.extensionManager.WriteConfig(); err != nil {
+		return errors.Wrap(err, "cannot store extension configs")
 	}
 	if err := osr.extensionManager.StoreRootLayout(osr.fsys); err != nil {
 		return errors.Wrap(err, "cannot store ocfl layout")
-- 
2.43.0


From cf058430e8aada4ee0b4f40f5106e8ec0f35a693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 008/132] fix: read errors made extensions disappear silently

An extension whose config could not be read was dropped like an unsupported one.
Without its layout extension a storage root looks for objects at other places.
---
 pkg/ocfl/extensionFactory.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/ocfl/extensionFactory.go b/pkg/ocfl/extensionFactory.go
index d29b438..2d47d2d 100644
--- a/pkg/ocfl/extensionFactory.go
+++ b/pkg/ocfl/extensionFactory.go
@@ -93,6 +93,11 @@ func (f *ExtensionFactory) CreateExtensions(fsys fs.FS, validation Validation) (
 
 		ext, err := f.Create(sub)
 		if err != nil {
+			// an extension which cannot be read must not be taken for an unsupported one
+			var pathErr *fs.PathError
+			if errors.As(err, &pathErr) && !errors.Is(err, fs.ErrNotExist) {
+				return nil, errors.Wrapf(err, "cannot read extension %s", file.Name())
+			}
 			//errs = append(errs, errors.Wrapf(err, "cannot create extension %s", file.Name()))
 			if validation == nil {
 				continue
-- 
2.43.0


From e0ea412fb4f6b8044ab15a6f85ac6f1d5819a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 009/132] fix: decide by the newest version whether a file is
 already there

AlreadyExists and IsUpdate looked at the last version which ever contained the
path. A file deleted before and ingested again with its old content was taken
for unchanged and missing in the new version. With zero-padded version names
every file ingested again failed.
---
 pkg/ocfl/inventorybase.go | 109 ++++++++------------------------------
 1 file changed, 23 insertions(+), 86 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index a2e0784..cfb15d4 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -788,55 +788,31 @@ func (i *InventoryBase) GetDuplicates(checksum string) []string {
 	}
 	return nil
 }
-func (i *InventoryBase) AlreadyExists(stateFilename, checksum string) (bool, error) {
-	i.logger.Debug().Msgf("'%s' [%s]", stateFilename, checksum)
-	if checksum == "" {
-		i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, false)
-		return false, nil
-	}
 
-	// first get checksum of last version of a file
-	css := map[string]string{}
-	for ver, version := range i.Versions.Versions {
-		for cs, filenames := range version.State.State {
-			found := false
-			for _, filename := range filenames {
-				if filename == stateFilename {
-					css[ver] = cs
-					found = true
-				}
-			}
-			if found {
-				break
-			}
+// headDigest returns the digest of a logical file in the newest version.
+func (i *InventoryBase) headDigest(stateFilename string) (string, bool) {
+	version, ok := i.Versions.Versions[i.GetHead()]
+	if !ok || version == nil || version.State == nil {
+		return "", false
+	}
+	for cs, filenames := range version.State.State {
+		if slices.Contains(filenames, stateFilename) {
+			return cs, true
 		}
 	}
-	if len(css) == 0 {
+	return "", false
+}
+
+func (i *InventoryBase) AlreadyExists(stateFilename, checksum string) (bool, error) {
+	i.logger.Debug().Msgf("'%s' [%s]", stateFilename, checksum)
+	if checksum == "" {
 		i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, false)
 		return false, nil
 	}
-	versions := []int{}
-
-	for ver := range css {
-		matches := vRegexp.FindStringSubmatch(ver)
-		if matches == nil {
-			return false, errors.New(fmt.Sprintf("invalid version in inventory - '%s'", ver))
-		}
-		versionInt, err := strconv.Atoi(matches[1])
-		if err != nil {
-			return false, errors.Wrapf(err, "cannot convert version number to int - '%s'", matches[1])
-		}
-		versions = append(versions, versionInt)
-	}
-	// sort versions ascending
-	sort.Ints(versions)
-	lastVersion := versions[len(versions)-1]
-	lastChecksum, ok := css[fmt.Sprintf("v%d", lastVersion)]
-	if !ok {
-		return false, errors.New(fmt.Sprintf("could not get checksum for v%d", lastVersion))
-	}
-	i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, lastChecksum == checksum)
-	return lastChecksum == checksum, nil
+	lastChecksum, ok := i.headDigest(stateFilename)
+	duplicate := ok && lastChecksum == checksum
+	i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, duplicate)
+	return duplicate, nil
 }
 
 func (i *InventoryBase) IsUpdate(virtualFilename, checksum string) (bool, error) {
@@ -845,49 +821,10 @@ func (i *InventoryBase) IsUpdate(virtualFilename, checksum string) (bool, error)
 		i.logger.Debug().Msgf("'%s' - update %v", virtualFilename, false)
 		return false, nil
 	}
-
-	// first get checksum of last version of a file
-	css := map[string]string{}
-	for ver, version := range i.Versions.Versions {
-		for cs, filenames := range version.State.State {
-			found := false
-			for _, filename := range filenames {
-				if filename == virtualFilename {
-					css[ver] = cs
-					found = true
-				}
-			}
-			if found {
-				break
-			}
-		}
-	}
-	if len(css) == 0 {
-		i.logger.Debug().Msgf("'%s' - update %v", virtualFilename, false)
-		return false, nil
-	}
-	versions := []int{}
-
-	for ver := range css {
-		matches := vRegexp.FindStringSubmatch(ver)
-		if matches == nil {
-			return false, errors.New(fmt.Sprintf("invalid version in inventory - '%s'", ver))
-		}
-		versionInt, err := strconv.Atoi(matches[1])
-		if err != nil {
-			return false, errors.Wrapf(err, "cannot convert version number to int - '%s'", matches[1])
-		}
-		versions = append(versions, versionInt)
-	}
-	// sort versions ascending
-	sort.Ints(versions)
-	lastVersion := versions[len(versions)-1]
-	lastChecksum, ok := css[fmt.Sprintf("v%d", lastVersion)]
-	if !ok {
-		return false, errors.New(fmt.Sprintf("could not get checksum for v%d", lastVersion))
-	}
-	i.logger.Debug().Msgf("'%s' - update %v", virtualFilename, lastChecksum != checksum)
-	return lastChecksum != checksum, nil
+	lastChecksum, ok := i.headDigest(virtualFilename)
+	update := ok && lastChecksum != checksum
+	i.logger.Debug().Msgf("'%s' - update %v", virtualFilename, update)
+	return update, nil
 }
 
 func (i *InventoryBase) echoDelete(existing []string, pathPrefix string) error {
-- 
2.43.0


From 71583038acec13973534f7be427f97ccd6b145a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 010/132] fix: keep the state of a version consistent on copy,
 rename and delete

A path copied from existing content stayed listed under its old digest, too. A
rename to a path already in use listed the path twice. Digests without any path
were left in the state.
---
 pkg/ocfl/inventorybase.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index cfb15d4..87cfdc6 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -861,7 +861,6 @@ func (i *InventoryBase) DeleteFile(stateFilename string) error {
 	var newState = map[string][]string{}
 	var found = false
 	for key, state := range i.Versions.Versions[i.GetHead()].State.State {
-		newState[key] = []string{}
 		for _, val := range state {
 			if val == stateFilename {
 				found = true
@@ -881,13 +880,15 @@ func (i *InventoryBase) DeleteFile(stateFilename string) error {
 func (i *InventoryBase) RenameFile(stateSource, stateDest string) error {
 	var newState = map[string][]string{}
 	var found = false
+	if _, found = i.headDigest(stateSource); !found || stateSource == stateDest {
+		return nil
+	}
 	for key, state := range i.Versions.Versions[i.GetHead()].State.State {
-		newState[key] = []string{}
 		for _, val := range state {
 			if val == stateSource {
 				newState[key] = append(newState[key], stateDest)
-				found = true
-			} else {
+			} else if val != stateDest {
+				// a file which had the new name before is replaced
 				newState[key] = append(newState[key], val)
 			}
 		}
@@ -910,6 +911,10 @@ func (i *InventoryBase) CopyFile(dest string, digest string) error {
 	if slices.Contains(i.Versions.Versions[i.Head.string].State.State[digest], dest) {
 		return nil
 	}
+	// the path may have had other content before
+	if err := i.DeleteFile(dest); err != nil {
+		return errors.Wrapf(err, "cannot delete old version of '%s' [%s]", dest, digest)
+	}
 	i.Versions.Versions[i.Head.string].State.State[digest] = append(i.Versions.Versions[i.Head.string].State.State[digest], dest)
 	i.modified = true
 	return nil
-- 
2.43.0


From 67f3e6e0183cfd3cff720df7f9b38e80481f086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 011/132] fix: list every stored content file once

A content file with several logical names was listed in the manifest as often as
it has names. A content file whose logical name did not change was stored without
the inventory being written.
---
 pkg/ocfl/inventorybase.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 87cfdc6..c9c41c4 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -947,6 +947,11 @@ func (i *InventoryBase) AddFile(stateFilenames []string, manifestFilename string
 		}
 	}
 
+	if manifestFilename != "" && !slices.Contains(i.Manifest.Manifest[digest], manifestFilename) {
+		i.Manifest.Manifest[digest] = append(i.Manifest.Manifest[digest], manifestFilename)
+		i.modified = true
+	}
+
 	for _, virtualFilename := range stateFilenames {
 		dup, err := i.AlreadyExists(virtualFilename, digest)
 		if err != nil {
@@ -957,13 +962,6 @@ func (i *InventoryBase) AddFile(stateFilenames []string, manifestFilename string
 			// return nil
 		}
 
-		if manifestFilename != "" {
-			if _, ok := i.Manifest.Manifest[digest]; !ok {
-				i.Manifest.Manifest[digest] = []string{}
-			}
-			i.Manifest.Manifest[digest] = append(i.Manifest.Manifest[digest], manifestFilename)
-		}
-
 		if _, ok := i.Versions.Versions[i.Head.string].State.State[digest]; !ok {
 			i.Versions.Versions[i.Head.string].State.State[digest] = []string{}
 		}
-- 
2.43.0


From a96832dd10f0548e6729a0dbc2932cdca9d2e835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 012/132] fix: files sharing a content path overwrote each
 other

Different logical names can be mapped to one content path (replaced characters),
and a path may be added again after a rename or copy. The file stored before was
overwritten silently.
---
 pkg/ocfl/inventory.go     |  1 +
 pkg/ocfl/inventorybase.go | 63 +++++++++++++++++++++++++++++++++++----
 pkg/ocfl/objectbase.go    |  1 +
 3 files changed, 60 insertions(+), 5 deletions(-)

diff --git a/pkg/ocfl/inventory.go b/pkg/ocfl/inventory.go
index e572747..f255920 100644
--- a/pkg/ocfl/inventory.go
+++ b/pkg/ocfl/inventory.go
@@ -51,6 +51,7 @@ type Inventory interface {
 	Clean() error
 
 	VersionLessOrEqual(v1, v2 string) bool
+	buildContentPath(internalPath string, stateFilenames []string) string
 	echoDelete(existing []string, pathprefix string) error
 }
 
diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index c9c41c4..667b7a9 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -709,6 +709,57 @@ func (i *InventoryBase) BuildManifestNameVersion(stateFilename string, version s
 	return filepath.ToSlash(filepath.Clean(filepath.Join(version, i.GetContentDir(), stateFilename)))
 }
 
+// buildContentPath returns the path below the content folder to store a file under. It
+// is the wanted path unless that already holds content of other files of the object.
+func (i *InventoryBase) buildContentPath(internalPath string, stateFilenames []string) string {
+	result := internalPath
+	for n := 1; i.contentInUse(i.BuildManifestName(result), stateFilenames); n++ {
+		result = fmt.Sprintf("%s~%d", internalPath, n)
+	}
+	return result
+}
+
+// contentInUse tells whether the stored file is the only one with the content of any
+// logical file not being replaced.
+func (i *InventoryBase) contentInUse(manifestFilename string, replaced []string) bool {
+	for digest, files := range i.Manifest.Manifest {
+		if !slices.Contains(files, manifestFilename) {
+			continue
+		}
+		if len(files) > 1 {
+			return false
+		}
+		version, ok := i.Versions.Versions[i.GetHead()]
+		if !ok || version == nil || version.State == nil {
+			return true
+		}
+		for _, name := range version.State.State[digest] {
+			if !slices.Contains(replaced, name) {
+				return true
+			}
+		}
+		return false
+	}
+	return false
+}
+
+// forgetContent removes a stored file from manifest and fixity.
+func (i *InventoryBase) forgetContent(manifestFilename string) {
+	remove := func(m map[string][]string) {
+		for digest, files := range m {
+			if idx := slices.Index(files, manifestFilename); idx >= 0 {
+				if m[digest] = slices.Delete(files, idx, idx+1); len(m[digest]) == 0 {
+					delete(m, digest)
+				}
+			}
+		}
+	}
+	remove(i.Manifest.Manifest)
+	for _, m := range i.Fixity {
+		remove(m)
+	}
+}
+
 func (i *InventoryBase) NewVersion(msg, UserName, UserAddress string) error {
 	/*
 		if i.IsWriteable() {
@@ -928,6 +979,13 @@ func (i *InventoryBase) AddFile(stateFilenames []string, manifestFilename string
 	}
 	digest = strings.ToLower(digest) // paranoia
 
+	if manifestFilename != "" && !slices.Contains(i.Manifest.Manifest[digest], manifestFilename) {
+		// the file may have been written with other content before
+		i.forgetContent(manifestFilename)
+		i.Manifest.Manifest[digest] = append(i.Manifest.Manifest[digest], manifestFilename)
+		i.modified = true
+	}
+
 	for alg, fixityDigest := range checksums {
 		if alg == i.GetDigestAlgorithm() {
 			continue
@@ -947,11 +1005,6 @@ func (i *InventoryBase) AddFile(stateFilenames []string, manifestFilename string
 		}
 	}
 
-	if manifestFilename != "" && !slices.Contains(i.Manifest.Manifest[digest], manifestFilename) {
-		i.Manifest.Manifest[digest] = append(i.Manifest.Manifest[digest], manifestFilename)
-		i.modified = true
-	}
-
 	for _, virtualFilename := range stateFilenames {
 		dup, err := i.AlreadyExists(virtualFilename, digest)
 		if err != nil {
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 9269f88..88bfbe4 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -726,6 +726,7 @@ func (object *ObjectBase) BuildNames(files []string, area string) (*NamesStruct,
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create manifest path for '%s'", files[0])
 	}
+	result.InternalPath = object.i.buildContentPath(result.InternalPath, result.ExternalPaths)
 	result.ManifestPath = object.i.BuildManifestName(result.InternalPath)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create virtual filename for '%s'", result.InternalPath)
-- 
2.43.0


From 00b49979a71fcbb772067160458373f69351e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 013/132] fix: adding data with an unmappable name terminated
 the program

---
 pkg/ocfl/objectbase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 88bfbe4..3bac3dc 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -743,6 +743,9 @@ func (object *ObjectBase) AddReader(r io.ReadCloser, files []string, area string
 	}
 	path := files[0]
 	names, err := object.BuildNames(files, area)
+	if err != nil {
+		return "", errors.Wrapf(err, "cannot create virtual filename for '%s'", path)
+	}
 
 	object.logger.Info().Msgf("adding file %s:%v", area, files)
 
-- 
2.43.0


From 2c2826c43fbbc6f7615a245e49e2800c57770ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 014/132] fix: write errors while storing content were lost or
 blocked the program

---
 pkg/ocfl/objectbase.go | 49 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 3bac3dc..be80d36 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -643,6 +643,24 @@ func (object *ObjectBase) AddFolder(fsys fs.FS, versionFS fs.FS, checkDuplicate
 	return nil
 }
 
+// errorWriter keeps the first error of its writer and ignores everything after that.
+type errorWriter struct {
+	io.Writer
+	err error
+}
+
+func (w *errorWriter) Write(p []byte) (int, error) {
+	if w.err != nil {
+		return len(p), nil
+	}
+	n, err := w.Writer.Write(p)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	w.err = err
+	return len(p), nil
+}
+
 func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *NamesStruct, noExtensionHook bool) (string, error) {
 
 	digestAlgorithms := object.i.GetFixityDigestAlgorithm()
@@ -659,11 +677,20 @@ func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *Nam
 	if err != nil {
 		return "", errors.Wrapf(err, "cannot create '%s'", names.ManifestPath)
 	}
-	defer writer.Close()
+	defer func() {
+		if writer != nil {
+			_ = writer.Close()
+		}
+	}()
+	// checksum.Copy would wait forever on a writer which stops accepting data
+	target := &errorWriter{Writer: writer}
 
 	var checksums map[checksum.DigestAlgorithm]string
 	if noExtensionHook {
-		checksums, err = checksum.Copy(digestAlgorithms, r, writer)
+		checksums, err = checksum.Copy(digestAlgorithms, r, target)
+		if err == nil {
+			err = target.err
+		}
 		if err != nil {
 			return "", errors.Wrapf(err, "cannot copy '%v' -> '%s'", names.ExternalPaths, names.ManifestPath)
 		}
@@ -677,14 +704,19 @@ func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *Nam
 			if err := object.extensionManager.StreamObject(object, pr, names.ExternalPaths, names.InternalPath); err != nil {
 				extErrors <- err
 			}
+			// nobody reads the rest, but the copy must not wait for it
+			_, _ = io.Copy(io.Discard, pr)
 		}()
-		checksums, err = checksum.Copy(digestAlgorithms, r, writer, pw)
-		_ = pw.Close()
-		if err != nil {
-			return "", errors.Wrapf(err, "cannot copy '%s' -> '%s'", names.ExternalPaths, names.ManifestPath)
+		checksums, err = checksum.Copy(digestAlgorithms, r, target, pw)
+		if err == nil {
+			err = target.err
 		}
+		_ = pw.CloseWithError(err)
 		wg.Wait()
 		close(extErrors)
+		if err != nil {
+			return "", errors.Wrapf(err, "cannot copy '%s' -> '%s'", names.ExternalPaths, names.ManifestPath)
+		}
 		select {
 		case err, ok := <-extErrors:
 			if ok {
@@ -693,6 +725,11 @@ func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *Nam
 		default:
 		}
 	}
+	err = writer.Close()
+	writer = nil
+	if err != nil {
+		return "", errors.Wrapf(err, "cannot close '%s'", names.ManifestPath)
+	}
 
 	if digest == "" {
 		var ok bool
-- 
2.43.0


From ff6fb10549773dd95ce548f050b9b689ba9d4d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 015/132] fix: unreadable folders were skipped on ingest

---
 pkg/ocfl/objectbase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index be80d36..09742c2 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -632,6 +632,9 @@ func (object *ObjectBase) AddFolder(fsys fs.FS, versionFS fs.FS, checkDuplicate
 	object.logger.Debug().Msgf("walking '%v'", fsys)
 	if err := fs.WalkDir(fsys, ".", func(path string, info fs.DirEntry, err error) error {
 		path = filepath.ToSlash(path)
+		if err != nil {
+			return errors.Wrapf(err, "cannot read '%v/%s'", fsys, path)
+		}
 		if err := object.AddFile(fsys, versionFS, path, checkDuplicate, area, false, info.IsDir()); err != nil {
 			return errors.Wrapf(err, "cannot add file '%s'", path)
 		}
-- 
2.43.0


From d16e14def716b46876d605681f58e8822ea9081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 016/132] fix: close source files which are already stored

---
 pkg/ocfl/objectbase.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 09742c2..514e77c 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -919,9 +919,13 @@ func (object *ObjectBase) AddFile(fsys fs.FS, versionFS fs.FS, path string, chec
 		if err != nil {
 			return errors.Wrapf(err, "cannot open file '%v/%s'", fsys, path)
 		}
+		defer func() {
+			if file != nil {
+				_ = file.Close()
+			}
+		}()
 		newPath, err := object.extensionManager.BuildObjectStatePath(object, path, area)
 		if err != nil {
-			file.Close()
 			return errors.Wrapf(err, "cannot map external path '%s'", path)
 		}
 
@@ -937,10 +941,11 @@ func (object *ObjectBase) AddFile(fsys fs.FS, versionFS fs.FS, path string, chec
 			if seeker, ok := file.(io.Seeker); ok {
 				// if we have a seeker, we just seek
 				if _, err := seeker.Seek(0, 0); err != nil {
-					panic(err)
+					return errors.Wrapf(err, "cannot seek in file '%v/%s'", fsys, path)
 				}
 			} else {
 				// otherwise reopen it
+				_ = file.Close()
 				file, err = fsys.Open(path)
 				if err != nil {
 					return errors.Wrapf(err, "cannot open file '%v/%s'", fsys, path)
@@ -976,10 +981,11 @@ func (object *ObjectBase) AddFile(fsys fs.FS, versionFS fs.FS, path string, chec
 
 		digest, err = object.addReader(file, versionFS, names, noExtensionHook)
 		if err != nil {
-			file.Close()
 			return errors.Wrapf(err, "cannot add file '%s' to object", path)
 		}
-		if err := file.Close(); err != nil {
+		err = file.Close()
+		file = nil
+		if err != nil {
 			return errors.Wrapf(err, "cannot close file '%s'", path)
 		}
 
-- 
2.43.0


From f1b0205d9d713c59055b0a08af32fb41c6f09dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 017/132] fix: program terminated when inventory could not be
 created

---
 pkg/ocfl/objectbase.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 514e77c..9b7e39e 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -363,10 +363,10 @@ func (object *ObjectBase) StoreInventory(version bool, objectRoot bool) error {
 	if objectRoot {
 		iWriter, err := writefs.Create(object.fsys, iFileName)
 		if err != nil {
-			iWriter.Close()
 			return errors.Wrap(err, "cannot create inventory.json")
 		}
 		if _, err := iWriter.Write(jsonBytes); err != nil {
+			iWriter.Close()
 			return errors.Wrap(err, "cannot write to inventory.json")
 		}
 		if err := iWriter.Close(); err != nil {
@@ -478,6 +478,9 @@ func (object *ObjectBase) Init(id string, digest checksum.DigestAlgorithm, fixit
 	}
 
 	object.i, err = object.CreateInventory(id, digest, fixity)
+	if err != nil {
+		return errors.Wrapf(err, "cannot create inventory of object '%s'", id)
+	}
 	return nil
 }
 
-- 
2.43.0


From 45e33cb8c4c836bbc09bdee2d27f3aab7baad9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 018/132] fix: echo update which only deletes files was lost

---
 pkg/ocfl/objectbase.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 9b7e39e..5bc5a85 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -573,16 +573,18 @@ func (object *ObjectBase) EndUpdate() error {
 		object.logger.Warn().Msgf(fmt.Sprintf("object '%s' not writeable", object.GetID()))
 		return nil
 	}
-	if !(object.i.IsModified()) {
-		object.logger.Info().Msgf(fmt.Sprintf("object '%s' not modified", object.GetID()))
-		return nil
-	}
-
+	// deleting files is a modification, too
 	if object.echo {
 		if err := object.echoDelete(); err != nil {
 			return errors.Wrap(err, "cannot delete files")
 		}
 	}
+	if !(object.i.IsModified()) {
+		object.logger.Info().Msgf(fmt.Sprintf("object '%s' not modified", object.GetID()))
+		// the prepared version is not needed
+		return errors.Wrap(object.i.Clean(), "cannot clean inventory")
+	}
+
 	if err := object.extensionManager.UpdateObjectAfter(object); err != nil {
 		return errors.Wrapf(err, "cannot execute ext.UpdateObjectAfter()")
 	}
-- 
2.43.0


From e9c3660986d0fa0faf3270db6f06c16b894dd607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 019/132] fix: object without any content was created without
 inventory

---
 pkg/ocfl/inventorybase.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 667b7a9..35ebc3d 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -768,6 +768,8 @@ func (i *InventoryBase) NewVersion(msg, UserName, UserAddress string) error {
 	*/
 	lastHead := i.Head.string
 	if lastHead == "" {
+		// an object has at least one version
+		i.modified = true
 		if i.paddingLength <= 0 {
 			i.Head.string = "v1"
 			i.Head.err = nil
-- 
2.43.0


From 36141ca8f0e3167f235178832948f149f886ed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 020/132] fix: echo update removed files of other areas

---
 pkg/ocfl/inventorybase.go | 2 +-
 pkg/ocfl/objectbase.go    | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 35ebc3d..d034ead 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -893,7 +893,7 @@ func (i *InventoryBase) echoDelete(existing []string, pathPrefix string) error {
 		}
 	}
 	for _, filename := range statefiles {
-		if !strings.HasPrefix(filename, pathPrefix) {
+		if pathPrefix != "" && filename != pathPrefix && !strings.HasPrefix(filename, pathPrefix+"/") {
 			continue
 		}
 		if _, found := slices.BinarySearch(existing, filename); !found {
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 5bc5a85..33c1dc3 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -512,7 +512,7 @@ func (object *ObjectBase) GetDigestAlgorithm() checksum.DigestAlgorithm {
 func (object *ObjectBase) echoDelete() error {
 	slices.Sort(object.updateFiles)
 	object.updateFiles = slices.Compact(object.updateFiles)
-	basePath, err := object.extensionManager.BuildObjectStatePath(object, ".", "")
+	basePath, err := object.extensionManager.BuildObjectStatePath(object, ".", object.area)
 	if err != nil {
 		return errors.Wrap(err, "cannot build external path for '.'")
 	}
@@ -550,6 +550,7 @@ func (object *ObjectBase) Close() error {
 func (object *ObjectBase) StartUpdate(sourceFS fs.FS, msg string, UserName string, UserAddress string, echo bool) (fs.FS, error) {
 	object.logger.Debug().Msgf("'%s' / '%s' / '%s'", msg, UserName, UserAddress)
 	object.echo = echo
+	object.updateFiles = []string{}
 
 	subfs, err := writefs.SubFSCreate(object.fsys, "extensions")
 	if err != nil {
@@ -619,7 +620,6 @@ func (object *ObjectBase) EndUpdate() error {
 
 func (object *ObjectBase) BeginArea(area string) {
 	object.area = area
-	object.updateFiles = []string{}
 }
 
 func (object *ObjectBase) EndArea() error {
@@ -628,7 +628,6 @@ func (object *ObjectBase) EndArea() error {
 			return errors.Wrap(err, "cannot remove files")
 		}
 	}
-	object.updateFiles = []string{}
 	object.area = ""
 	return nil
 }
-- 
2.43.0


From 32757120b9beea4c6ce799e173a83581f6637439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 021/132] fix: echo update removed stored empty folders

---
 pkg/extension/NNNN-filesystem.go | 38 +++++---------------------------
 1 file changed, 6 insertions(+), 32 deletions(-)

diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index e331e9a..420003b 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -9,7 +9,6 @@ import (
 	"github.com/andybalholm/brotli"
 	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
-	"github.com/je4/utils/v2/pkg/checksum"
 	"github.com/je4/utils/v2/pkg/zLogger"
 	"golang.org/x/exp/slices"
 	"io"
@@ -115,18 +114,6 @@ func (extFS *Filesystem) AddFileAfter(object ocfl.Object, sourceFS fs.FS, source
 
 	inventory := object.GetInventory()
 
-	var err error
-	var emptyChecksum string
-	var emptyExists bool
-	if isDir && extFS.Folders != "" {
-		emptyChecksum, err = checksum.Checksum(bytes.NewReader([]byte{}), inventory.GetDigestAlgorithm())
-		if err != nil {
-			return errors.Wrap(err, "cannot calculate checksum for empty file")
-		}
-		manifest := inventory.GetManifest()
-		_, emptyExists = manifest[emptyChecksum]
-	}
-
 	head := inventory.GetHead()
 	if _, ok := extFS.buffer[head]; !ok {
 		extFS.buffer[head] = &bytes.Buffer{}
@@ -160,26 +147,13 @@ func (extFS *Filesystem) AddFileAfter(object ocfl.Object, sourceFS fs.FS, source
 
 		if isDir {
 			newEmptyFile := filepath.ToSlash(filepath.Join(src, extFS.Folders))
-			if !emptyExists {
-				if _, err := object.AddReader(io.NopCloser(bytes.NewReader([]byte{})), []string{newEmptyFile}, area, true, false); err != nil {
-					return errors.Wrapf(err, "cannot add empty file '%s'", newEmptyFile)
-				}
-				emptyExists = true
-			} else {
-				// todo: make it more elegant
-				names, err := object.BuildNames([]string{newEmptyFile}, area)
-				if err != nil {
-					return errors.Wrapf(err, "cannot build names for '%s'", newEmptyFile)
-				}
-				if len(names.ExternalPaths) == 0 {
-					return errors.Errorf("cannot build external names for '%s'", newEmptyFile)
-				}
-				newEmptyFile = names.ExternalPaths[0]
-				if err := inventory.CopyFile(names.ExternalPaths[0], emptyChecksum); err != nil {
-					return errors.Wrapf(err, "cannot copy empty file to '%s'", newEmptyFile)
-				}
+			if err := object.AddData([]byte{}, newEmptyFile, true, area, true, false); err != nil {
+				return errors.Wrapf(err, "cannot add empty file '%s'", newEmptyFile)
+			}
+			newSrc, err = object.GetExtensionManager().BuildObjectStatePath(object, newEmptyFile, area)
+			if err != nil {
+				return errors.Wrapf(err, "cannot build object state path for '%s'", newEmptyFile)
 			}
-			newSrc = newEmptyFile
 		}
 
 		fsLine := &FileSystemLine{
-- 
2.43.0


From da5938785586d6480fbd5dc0b53a6e8178d42ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 022/132] fix: content replaced within one update was
 overwritten or left unreferenced

---
 pkg/ocfl/inventory.go     |  4 ++-
 pkg/ocfl/inventorybase.go | 52 ++++++++++++++++++++++++---------------
 pkg/ocfl/objectbase.go    | 21 +++++++++++++++-
 3 files changed, 55 insertions(+), 22 deletions(-)

diff --git a/pkg/ocfl/inventory.go b/pkg/ocfl/inventory.go
index f255920..54a019d 100644
--- a/pkg/ocfl/inventory.go
+++ b/pkg/ocfl/inventory.go
@@ -51,7 +51,9 @@ type Inventory interface {
 	Clean() error
 
 	VersionLessOrEqual(v1, v2 string) bool
-	buildContentPath(internalPath string, stateFilenames []string) string
+	buildContentPath(internalPath string) string
+	unusedContent() []string
+	forgetContent(manifestFilename string)
 	echoDelete(existing []string, pathprefix string) error
 }
 
diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index d034ead..dc90a30 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -710,37 +710,51 @@ func (i *InventoryBase) BuildManifestNameVersion(stateFilename string, version s
 }
 
 // buildContentPath returns the path below the content folder to store a file under. It
-// is the wanted path unless that already holds content of other files of the object.
-func (i *InventoryBase) buildContentPath(internalPath string, stateFilenames []string) string {
+// is the wanted path unless the object has already another file there.
+func (i *InventoryBase) buildContentPath(internalPath string) string {
 	result := internalPath
-	for n := 1; i.contentInUse(i.BuildManifestName(result), stateFilenames); n++ {
+	for n := 1; i.hasContent(i.BuildManifestName(result)); n++ {
 		result = fmt.Sprintf("%s~%d", internalPath, n)
 	}
 	return result
 }
 
-// contentInUse tells whether the stored file is the only one with the content of any
-// logical file not being replaced.
-func (i *InventoryBase) contentInUse(manifestFilename string, replaced []string) bool {
-	for digest, files := range i.Manifest.Manifest {
-		if !slices.Contains(files, manifestFilename) {
+// hasContent tells whether a stored file is part of the object.
+func (i *InventoryBase) hasContent(manifestFilename string) bool {
+	for _, files := range i.Manifest.Manifest {
+		if slices.Contains(files, manifestFilename) {
+			return true
+		}
+	}
+	return false
+}
+
+// unusedContent returns the files stored for the newest version which no version refers to.
+func (i *InventoryBase) unusedContent() []string {
+	used := map[string]bool{}
+	for _, version := range i.Versions.Versions {
+		if version == nil || version.State == nil {
 			continue
 		}
-		if len(files) > 1 {
-			return false
+		for digest, names := range version.State.State {
+			if len(names) > 0 {
+				used[digest] = true
+			}
 		}
-		version, ok := i.Versions.Versions[i.GetHead()]
-		if !ok || version == nil || version.State == nil {
-			return true
+	}
+	result := []string{}
+	for digest, files := range i.Manifest.Manifest {
+		if used[digest] {
+			continue
 		}
-		for _, name := range version.State.State[digest] {
-			if !slices.Contains(replaced, name) {
-				return true
+		for _, file := range files {
+			if strings.HasPrefix(file, i.GetHead()+"/") {
+				result = append(result, file)
 			}
 		}
-		return false
 	}
-	return false
+	slices.Sort(result)
+	return result
 }
 
 // forgetContent removes a stored file from manifest and fixity.
@@ -982,8 +996,6 @@ func (i *InventoryBase) AddFile(stateFilenames []string, manifestFilename string
 	digest = strings.ToLower(digest) // paranoia
 
 	if manifestFilename != "" && !slices.Contains(i.Manifest.Manifest[digest], manifestFilename) {
-		// the file may have been written with other content before
-		i.forgetContent(manifestFilename)
 		i.Manifest.Manifest[digest] = append(i.Manifest.Manifest[digest], manifestFilename)
 		i.modified = true
 	}
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 33c1dc3..18e1b72 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -590,6 +590,9 @@ func (object *ObjectBase) EndUpdate() error {
 		return errors.Wrapf(err, "cannot execute ext.UpdateObjectAfter()")
 	}
 
+	if err := object.removeUnusedContent(); err != nil {
+		return errors.Wrap(err, "cannot remove unused content")
+	}
 	if err := object.i.Clean(); err != nil {
 		return errors.Wrap(err, "cannot clean inventory")
 	}
@@ -618,6 +621,22 @@ func (object *ObjectBase) EndUpdate() error {
 	return nil
 }
 
+// removeUnusedContent removes files which have been stored for the new version, but were
+// replaced or deleted again before its end.
+func (object *ObjectBase) removeUnusedContent() error {
+	for _, file := range object.i.unusedContent() {
+		if err := writefs.Remove(object.fsys, file); err != nil {
+			if errors.Cause(err) == writefs.ErrNotImplemented {
+				object.logger.Warn().Msgf("object '%s' keeps unused file '%s'", object.GetID(), file)
+				continue
+			}
+			return errors.Wrapf(err, "cannot remove '%v/%s'", object.fsys, file)
+		}
+		object.i.forgetContent(file)
+	}
+	return nil
+}
+
 func (object *ObjectBase) BeginArea(area string) {
 	object.area = area
 }
@@ -770,7 +789,7 @@ func (object *ObjectBase) BuildNames(files []string, area string) (*NamesStruct,
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create manifest path for '%s'", files[0])
 	}
-	result.InternalPath = object.i.buildContentPath(result.InternalPath, result.ExternalPaths)
+	result.InternalPath = object.i.buildContentPath(result.InternalPath)
 	result.ManifestPath = object.i.BuildManifestName(result.InternalPath)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create virtual filename for '%s'", result.InternalPath)
-- 
2.43.0


From ba67da2ed71520ff8a7a605b9196e286a35332b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 023/132] fix: storage layout description named another layout

---
 pkg/extension/NNNN-direct-clean-path-layout.go | 2 +-
 pkg/extension/NNNN-pairtree-storage-layout.go  | 5 +++--
 pkg/extension/pathdirect.go                    | 5 +++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index 8604e45..5403085 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -185,7 +185,7 @@ func (sl *DirectClean) WriteLayout(fsys fs.FS) error {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
-		Extension:   PathDirectName,
+		Extension:   DirectCleanName,
 		Description: DirectCleanDescription,
 	}); err != nil {
 		configWriter.Close()
diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index 6560958..2cc37ba 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -15,6 +15,7 @@ import (
 )
 
 const StorageLayoutPairTreeName = "NNNN-pairtree-storage-layout"
+const StorageLayoutPairTreeDescription = "pairtree mapping of object identifiers"
 
 /*
 	https://pythonhosted.org/Pairtree/pairtree.pairtree_client.PairtreeStorageClient-class.html
@@ -61,8 +62,8 @@ func (sl *StorageLayoutPairTree) WriteLayout(fsys fs.FS) error {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
-		Extension:   StorageLayoutFlatDirectName,
-		Description: StorageLayoutFlatDirectDescription,
+		Extension:   StorageLayoutPairTreeName,
+		Description: StorageLayoutPairTreeDescription,
 	}); err != nil {
 		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
diff --git a/pkg/extension/pathdirect.go b/pkg/extension/pathdirect.go
index 0d57647..2cf21bb 100644
--- a/pkg/extension/pathdirect.go
+++ b/pkg/extension/pathdirect.go
@@ -11,6 +11,7 @@ import (
 )
 
 const PathDirectName = "NNNN-direct-path-layout"
+const PathDirectDescription = "one to one mapping of object identifiers or logical paths without changes"
 
 func NewPathDirectFS(fsys fs.FS) (ocfl.Extension, error) {
 	fp, err := fsys.Open("config.json")
@@ -83,8 +84,8 @@ func (sl *PathDirect) WriteLayout(fsys fs.FS) error {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
-		Extension:   StorageLayoutFlatDirectName,
-		Description: StorageLayoutFlatDirectDescription,
+		Extension:   PathDirectName,
+		Description: PathDirectDescription,
 	}); err != nil {
 		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
-- 
2.43.0


From ccb1b215cd209a6dd6cf22ad9d911b191c4657ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 024/132] fix: records stored below a path got an invalid or
 doubled path

---
 pkg/extension/NNNN-metafile.go | 2 +-
 pkg/extension/NNNN-mets.go     | 4 ++--
 pkg/ocfl/helper.go             | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index 9f2a1d9..e0f1eb9 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -326,7 +326,7 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 		targetname := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, sl.StorageName, sl.MetaName)), "/")
 
 		//targetname := fmt.Sprintf("%s/%s_%s.jsonl%s", name, storageName, head, ext)
-		if _, err := object.AddReader(io.NopCloser(bytes.NewBuffer(infoData)), []string{targetname}, "", true, false); err != nil {
+		if _, err := object.AddReader(io.NopCloser(bytes.NewBuffer(infoData)), []string{targetname}, "full", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", targetname)
 		}
 	case "extension":
diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index a25859f..e3c6671 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -1325,10 +1325,10 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, me.StorageName, me.PremisFile)), "/")
 
 		//		if err := object.AddReader(io.NopCloser(bytes.NewBuffer(metsBytes)), []string{metsName}, area, true, false); err != nil {
-		if err := object.AddData(metsBytes, metsName, false, "", true, false); err != nil {
+		if err := object.AddData(metsBytes, metsName, false, "full", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", metsName)
 		}
-		if _, err := object.AddReader(io.NopCloser(bytes.NewBuffer(premisBytes)), []string{premisName}, "", true, false); err != nil {
+		if _, err := object.AddReader(io.NopCloser(bytes.NewBuffer(premisBytes)), []string{premisName}, "full", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", premisName)
 		}
 		//		if err := object.AddReader(io.NopCloser(bytes.NewBuffer(specs.METSXSD)), []string{"schemas/mets.xsd"}, area, true, false); err != nil {
diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 7a02cc5..7cd743c 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -368,7 +368,7 @@ func ReadFile(object Object, name, version, storageType, storageName string, fsy
 		if err != nil {
 			return nil, errors.Wrapf(err, "cannot get area path for '%s'", "content")
 		}
-		targetname = object.GetInventory().BuildManifestNameVersion(fmt.Sprintf("%s/%s/%s", path, storageName, name), version)
+		targetname = object.GetInventory().BuildManifestNameVersion(strings.TrimLeft(filepath.ToSlash(filepath.Join(path, storageName, name)), "/"), version)
 		//targetname = fmt.Sprintf("%s/content/%s/indexer_%s.jsonl%s", v, sl.IndexerConfig.StorageName, v, ext)
 		fsys = object.GetFS()
 	case "extension":
@@ -409,7 +409,7 @@ func ReadJsonL(object Object, name, version, compress, storageType, storageName
 		if err != nil {
 			return nil, errors.Wrapf(err, "cannot get area path for '%s'", "content")
 		}
-		targetname = object.GetInventory().BuildManifestNameVersion(fmt.Sprintf("%s/%s/%s_%s.jsonl%s", path, storageName, name, version, ext), version)
+		targetname = object.GetInventory().BuildManifestNameVersion(strings.TrimLeft(filepath.ToSlash(filepath.Join(path, storageName, fmt.Sprintf("%s_%s.jsonl%s", name, version, ext))), "/"), version)
 		//targetname = fmt.Sprintf("%s/content/%s/indexer_%s.jsonl%s", v, sl.IndexerConfig.StorageName, v, ext)
 		fsys = object.GetFS()
 	case "extension":
@@ -490,10 +490,10 @@ func WriteJsonL(object Object, name string, brotliData []byte, compress, storage
 		if err != nil {
 			return errors.Wrapf(err, "cannot get area path for '%s'", "content")
 		}
-		targetname := fmt.Sprintf("%s/%s/%s_%s.jsonl%s", path, storageName, name, head, ext)
+		targetname := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, storageName, fmt.Sprintf("%s_%s.jsonl%s", name, head, ext))), "/")
 
 		//targetname := fmt.Sprintf("%s/%s_%s.jsonl%s", name, storageName, head, ext)
-		if _, err := object.AddReader(io.NopCloser(reader), []string{targetname}, "", true, false); err != nil {
+		if _, err := object.AddReader(io.NopCloser(reader), []string{targetname}, "full", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", targetname)
 		}
 	case "extension":
-- 
2.43.0


From 935b63fdd752694572616b32065f1e1e79e9a5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 025/132] fix: failure to close a record file was not reported

---
 pkg/ocfl/helper.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 7cd743c..75e62c2 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -502,10 +502,13 @@ func WriteJsonL(object Object, name string, brotliData []byte, compress, storage
 		if err != nil {
 			return errors.Wrapf(err, "cannot create '%v/%s'", fsys, targetname)
 		}
-		defer fp.Close()
 		if _, err := io.Copy(fp, reader); err != nil {
+			_ = fp.Close()
 			return errors.Wrapf(err, "cannot write '%v/%s'", fsys, targetname)
 		}
+		if err := fp.Close(); err != nil {
+			return errors.Wrapf(err, "cannot close '%v/%s'", fsys, targetname)
+		}
 	default:
 		return errors.Errorf("unsupported storage type '%s'", storageType)
 	}
-- 
2.43.0


From cbbb35ca63dd1f0fcea5a2d889062d833f421189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 026/132] fix: removing unused content left empty folders

---
 pkg/ocfl/objectbase.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 18e1b72..3b705ce 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -633,10 +633,26 @@ func (object *ObjectBase) removeUnusedContent() error {
 			return errors.Wrapf(err, "cannot remove '%v/%s'", object.fsys, file)
 		}
 		object.i.forgetContent(file)
+		object.removeEmptyFolders(filepath.ToSlash(filepath.Dir(file)))
 	}
 	return nil
 }
 
+// removeEmptyFolders removes a folder of the new version and the folders above it as
+// long as they are empty.
+func (object *ObjectBase) removeEmptyFolders(folder string) {
+	for ; folder != object.i.GetHead() && folder != "." && folder != "/"; folder = filepath.ToSlash(filepath.Dir(folder)) {
+		entries, err := fs.ReadDir(object.fsys, folder)
+		if err != nil || len(entries) > 0 {
+			return
+		}
+		if err := writefs.Remove(object.fsys, folder); err != nil {
+			object.logger.Warn().Err(err).Msgf("cannot remove empty folder '%v/%s'", object.fsys, folder)
+			return
+		}
+	}
+}
+
 func (object *ObjectBase) BeginArea(area string) {
 	object.area = area
 }
-- 
2.43.0


From 375be242ce219ac5701b98b10ee2a68493caabc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 027/132] fix: description of areas changed with every update

---
 pkg/extension/NNNN-content-subpath.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-content-subpath.go b/pkg/extension/NNNN-content-subpath.go
index 9e05ebf..652f753 100644
--- a/pkg/extension/NNNN-content-subpath.go
+++ b/pkg/extension/NNNN-content-subpath.go
@@ -9,6 +9,8 @@ import (
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"io"
 	"io/fs"
+	"golang.org/x/exp/maps"
+	"golang.org/x/exp/slices"
 	"path/filepath"
 	"strings"
 )
@@ -150,7 +152,10 @@ func (sl *ContentSubPath) UpdateObjectAfter(object ocfl.Object) error {
 	readme.WriteTitle("Description of folders", doc.LevelTitle).
 		WriteLines(2)
 	var row int
-	for _, entry := range sl.Paths {
+	areas := maps.Keys(sl.Paths)
+	slices.Sort(areas)
+	for _, area := range areas {
+		entry := sl.Paths[area]
 		readme.WriteTitle(entry.Path, doc.LevelNormal)
 		readme.Write(entry.Description)
 		readme.Write("\n\n")
-- 
2.43.0


From ec080533a5200544bc891563d2f96fed0f334000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 028/132] fix: unreadable inventory was taken for an empty one

---
 pkg/ocfl/objectbase.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 3b705ce..40ed14c 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -287,10 +287,7 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 	filename := filepath.ToSlash(filepath.Join(folder, "inventory.json"))
 	inventoryBytes, err := fs.ReadFile(object.fsys, filename)
 	if err != nil {
-		if errors.Cause(err) == fs.ErrNotExist {
-			return nil, err
-		}
-		return newInventory(object.ctx, object, folder, object.version, object.logger)
+		return nil, errors.Wrapf(err, "cannot read '%v/%s'", object.fsys, filename)
 	}
 	inventory, err := object.loadInventory(inventoryBytes, folder)
 	if err != nil {
@@ -302,7 +299,7 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 	sidecarPath := fmt.Sprintf("%s.%s", filename, digest)
 	sidecarBytes, err := fs.ReadFile(object.fsys, sidecarPath)
 	if err != nil {
-		if errors.Cause(err) == fs.ErrNotExist {
+		if errors.Is(err, fs.ErrNotExist) {
 			object.addValidationError(E058, "sidecar '%v/%s' does not exist", object.fsys, sidecarPath)
 		} else {
 			object.addValidationError(E060, "cannot read sidecar '%v/%s': %v", object.fsys, sidecarPath, err.Error())
@@ -500,6 +497,9 @@ func (object *ObjectBase) Load() (err error) {
 
 	// load the inventory
 	if object.i, err = object.LoadInventory("."); err != nil {
+		if errors.Is(err, fs.ErrNotExist) {
+			object.addValidationError(E063, "no inventory in '%v'", object.fsys)
+		}
 		return errors.Wrap(err, "cannot load inventory.json of root")
 	}
 	return nil
@@ -1483,7 +1483,7 @@ func (object *ObjectBase) getVersionInventories() (map[string]Inventory, error)
 	for _, ver := range versionStrings {
 		vi, err := object.LoadInventory(ver)
 		if err != nil {
-			if errors.Cause(err) == fs.ErrNotExist {
+			if errors.Is(err, fs.ErrNotExist) {
 				object.addValidationWarning(W010, "no inventory for version '%s'", ver)
 				continue
 			}
-- 
2.43.0


From d91a0e2c1a47306b62bbf36b0a0d16bf20d74fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 029/132] fix: validation crashed on unreadable folders and
 missing version inventories

---
 pkg/ocfl/objectbase.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 40ed14c..68ec352 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1147,10 +1147,17 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 		if _, ok := objectContentFiles[ver]; !ok {
 			objectContentFiles[ver] = []string{}
 		}
-		fs.WalkDir(
+		if err := fs.WalkDir(
 			object.fsys,
 			ver,
 			func(path string, d fs.DirEntry, err error) error {
+				if err != nil {
+					// a missing version folder is reported by Check()
+					if path == ver && errors.Is(err, fs.ErrNotExist) {
+						return nil
+					}
+					return errors.Wrapf(err, "cannot read '%v/%s'", object.fsys, path)
+				}
 				path = filepath.ToSlash(path)
 				if d.IsDir() {
 					if !strings.HasPrefix(path, versionContent) && path != ver && !strings.HasPrefix(ver+"/"+object.i.GetContentDir(), path) {
@@ -1171,11 +1178,13 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 				}
 				return nil
 			},
-		)
+		); err != nil {
+			return errors.Wrapf(err, "cannot walk version folder '%s'", ver)
+		}
 		if len(objectContentFiles[ver]) == 0 {
 			fi, err := fs.Stat(object.fsys, versionContent)
 			if err != nil {
-				if errors.Cause(err) != fs.ErrNotExist {
+				if !errors.Is(err, fs.ErrNotExist) {
 					return errors.Wrapf(err, "cannot stat '%s'", versionContent)
 				}
 			} else {
@@ -1199,9 +1208,12 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 		return errors.Wrap(err, "cannot check file digests for object root")
 	}
 
-	contentDir := ""
-	if len(versionStrings) > 0 {
-		contentDir = versionInventories[versionStrings[0]].GetRealContentDir()
+	contentDir := object.i.GetRealContentDir()
+	for _, ver := range versionStrings {
+		if inv := versionInventories[ver]; inv != nil {
+			contentDir = inv.GetRealContentDir()
+			break
+		}
 	}
 	for _, ver := range versionStrings {
 		inv := versionInventories[ver]
@@ -1284,6 +1296,7 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 			testV, ok := versions[verVer]
 			if !ok {
 				object.addValidationError(E066, "version '%s' in version folder '%s' not in object root manifest", ver, verVer)
+				continue
 			}
 			if !testV.EqualState(verVersion) {
 				object.addValidationError(E066, "version '%s' in version folder '%s' not equal to version in object root manifest", ver, verVer)
@@ -1426,6 +1439,13 @@ func (object *ObjectBase) createContentManifest() (map[checksum.DigestAlgorithm]
 			version,
 			func(path string, d fs.DirEntry, err error) error {
 				//object.logger.Debug(path)
+				if err != nil {
+					// a missing version folder is reported by Check()
+					if path == version && errors.Is(err, fs.ErrNotExist) {
+						return nil
+					}
+					return errors.Wrapf(err, "cannot read '%v/%s'", object.fsys, path)
+				}
 				if d.IsDir() {
 					return nil
 				}
-- 
2.43.0


From fbe44b61d89577dc3919bd11598b581b07d3c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 030/132] fix: incomplete storage root was declared as one

---
 pkg/ocfl/storagerootbase.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 41e4816..af4bbbf 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -98,13 +98,6 @@ func (osr *StorageRootBase) Init(version OCFLVersion, digest checksum.DigestAlgo
 		return errors.Wrapf(errorDetails.WithDetail(err, err.DetailString()), "storage root %v not empty", osr.fsys)
 	}
 
-	rootConformanceDeclaration := "ocfl_" + string(osr.version)
-	rootConformanceDeclarationFile := "0=" + rootConformanceDeclaration
-
-	if _, err := writefs.WriteFile(osr.fsys, rootConformanceDeclarationFile, []byte(rootConformanceDeclaration+"\n")); err != nil {
-		return errors.Wrapf(err, "cannot write %s", rootConformanceDeclarationFile)
-	}
-
 	extDocs, err := docs.ExtensionDocs.ReadDir(".")
 	if err != nil {
 		return errors.Wrap(err, "cannot read extension docs")
@@ -141,6 +134,14 @@ func (osr *StorageRootBase) Init(version OCFLVersion, digest checksum.DigestAlgo
 		return errors.Wrap(err, "cannot store ocfl layout")
 	}
 
+	// the declaration comes last: a folder without it is no (complete) storage root
+	rootConformanceDeclaration := "ocfl_" + string(osr.version)
+	rootConformanceDeclarationFile := "0=" + rootConformanceDeclaration
+
+	if _, err := writefs.WriteFile(osr.fsys, rootConformanceDeclarationFile, []byte(rootConformanceDeclaration+"\n")); err != nil {
+		return errors.Wrapf(err, "cannot write %s", rootConformanceDeclarationFile)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From e7abbde56acc51a23c676b5051b7ebccedc81a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 031/132] fix: failure to store compressed records left a
 goroutine behind

---
 pkg/ocfl/helper.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 75e62c2..8d862d0 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -463,6 +463,8 @@ func WriteJsonL(object Object, name string, brotliData []byte, compress, storage
 		ext = ".gz"
 		brotliReader := brotli.NewReader(bufReader)
 		pr, pw := io.Pipe()
+		// the compressor must not wait for a reader which gave up
+		defer pr.Close()
 		go func() {
 			defer pw.Close()
 			gzipWriter := gzip.NewWriter(pw)
-- 
2.43.0


From 1639c0f9f5b2b12c690c47b47bf176e35018863c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 032/132] fix: remains of an interrupted update ended up in the
 next version

---
 pkg/ocfl/objectbase.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 68ec352..a99ecba 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -561,6 +561,9 @@ func (object *ObjectBase) StartUpdate(sourceFS fs.FS, msg string, UserName strin
 	if err := object.i.NewVersion(msg, UserName, UserAddress); err != nil {
 		return nil, errors.Wrap(err, "cannot create new object version")
 	}
+	if err := object.removeLeftovers(object.i.GetHead()); err != nil {
+		return nil, errors.Wrapf(err, "cannot remove leftovers in '%v/%s'", object.fsys, object.i.GetHead())
+	}
 	if err := object.extensionManager.UpdateObjectBefore(object); err != nil {
 		return nil, errors.Wrapf(err, "cannot execute ext.UpdateObjectBefore()")
 	}
@@ -621,6 +624,35 @@ func (object *ObjectBase) EndUpdate() error {
 	return nil
 }
 
+// removeLeftovers removes what an interrupted update has stored for a version which did
+// not come into being.
+func (object *ObjectBase) removeLeftovers(version string) error {
+	paths := []string{}
+	if err := fs.WalkDir(object.fsys, version, func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			if path == version && errors.Is(err, fs.ErrNotExist) {
+				return nil
+			}
+			return errors.Wrapf(err, "cannot read '%v/%s'", object.fsys, path)
+		}
+		paths = append(paths, path)
+		return nil
+	}); err != nil {
+		return errors.WithStack(err)
+	}
+	// content of a folder first
+	for j := len(paths) - 1; j >= 0; j-- {
+		if err := writefs.Remove(object.fsys, paths[j]); err != nil {
+			if errors.Cause(err) == writefs.ErrNotImplemented {
+				object.logger.Warn().Msgf("object '%s' keeps leftover '%s'", object.GetID(), paths[j])
+				continue
+			}
+			return errors.Wrapf(err, "cannot remove '%v/%s'", object.fsys, paths[j])
+		}
+	}
+	return nil
+}
+
 // removeUnusedContent removes files which have been stored for the new version, but were
 // replaced or deleted again before its end.
 func (object *ObjectBase) removeUnusedContent() error {
-- 
2.43.0


From 015e7fc8d9f7acb3c22c520e5d766ef582e16da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:11 +0000
Subject: [PATCH 033/132] fix: extension with a damaged configuration was
 ignored as if not supported

---
 pkg/ocfl/extensionFactory.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/ocfl/extensionFactory.go b/pkg/ocfl/extensionFactory.go
index 2d47d2d..2a6a478 100644
--- a/pkg/ocfl/extensionFactory.go
+++ b/pkg/ocfl/extensionFactory.go
@@ -18,6 +18,8 @@ type ExtensionFactory struct {
 	logger             zLogger.ZLogger
 }
 
+var errUnknownExtension = errors.New("unknown extension")
+
 func NewExtensionFactory(params map[string]string, logger zLogger.ZLogger) (*ExtensionFactory, error) {
 	m := &ExtensionFactory{
 		creators:        map[string]creatorFunc{},
@@ -62,7 +64,7 @@ func (f *ExtensionFactory) create(fsys fs.FS, data []byte) (Extension, error) {
 	}
 	creator, ok := f.creators[name]
 	if !ok {
-		return nil, errors.Errorf("unknown extension '%s'", name)
+		return nil, errors.Wrapf(errUnknownExtension, "'%s'", name)
 	}
 	ext, err := creator(fsys)
 	if err != nil {
@@ -93,9 +95,8 @@ func (f *ExtensionFactory) CreateExtensions(fsys fs.FS, validation Validation) (
 
 		ext, err := f.Create(sub)
 		if err != nil {
-			// an extension which cannot be read must not be taken for an unsupported one
-			var pathErr *fs.PathError
-			if errors.As(err, &pathErr) && !errors.Is(err, fs.ErrNotExist) {
+			// an extension with an unreadable or broken configuration must not be taken for an unsupported one
+			if !errors.Is(err, errUnknownExtension) && !errors.Is(err, fs.ErrNotExist) {
 				return nil, errors.Wrapf(err, "cannot read extension %s", file.Name())
 			}
 			//errs = append(errs, errors.Wrapf(err, "cannot create extension %s", file.Name()))
-- 
2.43.0


From a07c063d99198255360d9ad9af85348fdcf04a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:11 +0000
Subject: [PATCH 034/132] fix: damaged ocfl_layout.json was not reported by
 validation

---
 pkg/ocfl/storagerootbase.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index af4bbbf..67319a9 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -473,8 +473,30 @@ func (osr *StorageRootBase) CheckDirectory() (err error) {
 	} else {
 		osr.version = version
 	}
+	return osr.checkLayoutFile()
+}
+
+// checkLayoutFile reports an ocfl_layout.json which is no valid description of the layout
+func (osr *StorageRootBase) checkLayoutFile() error {
+	data, err := fs.ReadFile(osr.fsys, "ocfl_layout.json")
+	if err != nil {
+		if errors.Is(err, fs.ErrNotExist) {
+			return nil
+		}
+		return errors.Wrap(err, "cannot read ocfl_layout.json")
+	}
+	var layout = map[string]any{}
+	if err := json.Unmarshal(data, &layout); err != nil {
+		return errors.WithStack(osr.addValidationError(E070, "cannot unmarshal ocfl_layout.json: %v", err))
+	}
+	for _, key := range []string{"extension", "description"} {
+		if _, ok := layout[key].(string); !ok {
+			return errors.WithStack(osr.addValidationError(E070, "no key '%s' in ocfl_layout.json", key))
+		}
+	}
 	return nil
 }
+
 func (osr *StorageRootBase) CheckObjectByFolder(objectFolder string) error {
 	fmt.Printf("object folder '%s'\n", objectFolder)
 	object, err := osr.LoadObjectByFolder(objectFolder)
-- 
2.43.0


From cdcd0d649d59e4f4fb692578a28105916e1fb5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 035/132] fix: second update of an open object made a version
 without any change

---
 pkg/ocfl/inventory.go     | 1 +
 pkg/ocfl/inventorybase.go | 1 +
 pkg/ocfl/objectbase.go    | 7 +++++++
 3 files changed, 9 insertions(+)

diff --git a/pkg/ocfl/inventory.go b/pkg/ocfl/inventory.go
index 54a019d..3d76628 100644
--- a/pkg/ocfl/inventory.go
+++ b/pkg/ocfl/inventory.go
@@ -42,6 +42,7 @@ type Inventory interface {
 	GetFixityDigestAlgorithm() []checksum.DigestAlgorithm
 	IsWriteable() bool
 	IsModified() bool
+	resetModified()
 	BuildManifestName(stateFilename string) string
 	BuildManifestNameVersion(stateFilename string, version string) string
 	NewVersion(msg, UserName, UserAddress string) error
diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index dc90a30..7ed1e63 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -197,6 +197,7 @@ func (i *InventoryBase) GetFixityDigestAlgorithm() []checksum.DigestAlgorithm {
 }
 func (i *InventoryBase) IsWriteable() bool { return i.writeable }
 func (i *InventoryBase) IsModified() bool  { return i.modified }
+func (i *InventoryBase) resetModified()    { i.modified = false }
 
 func (i *InventoryBase) GetVersionStrings() []string {
 	if len(i.Versions.Versions) == 0 {
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index a99ecba..de70f69 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -40,6 +40,7 @@ type ObjectBase struct {
 	echo               bool
 	updateFiles        []string
 	area               string
+	closed             bool
 }
 
 // newObjectBase creates an empty ObjectBase structure
@@ -544,6 +545,7 @@ func (object *ObjectBase) Close() error {
 	if err := object.StoreExtensions(); err != nil {
 		return errors.Wrap(err, "cannot store extensions")
 	}
+	object.closed = true
 	return nil
 }
 
@@ -551,6 +553,11 @@ func (object *ObjectBase) StartUpdate(sourceFS fs.FS, msg string, UserName strin
 	object.logger.Debug().Msgf("'%s' / '%s' / '%s'", msg, UserName, UserAddress)
 	object.echo = echo
 	object.updateFiles = []string{}
+	if object.closed {
+		// the modifications of the last update are stored already
+		object.closed = false
+		object.i.resetModified()
+	}
 
 	subfs, err := writefs.SubFSCreate(object.fsys, "extensions")
 	if err != nil {
-- 
2.43.0


From 3f5debe03fc53085e1bf8672340e7035cd855672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 036/132] fix: second update of an open object failed with
 closed record writer

---
 pkg/extension/NNNN-filesystem.go | 4 ++++
 pkg/extension/NNNN-indexer.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index 420003b..c8ce263 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -258,6 +258,10 @@ func (extFS *Filesystem) GetMetadata(object ocfl.Object) (map[string]any, error)
 }
 
 func (extFS *Filesystem) UpdateObjectBefore(object ocfl.Object) error {
+	// records of an update before belong to another version
+	delete(extFS.buffer, object.GetInventory().GetHead())
+	extFS.writer = nil
+	extFS.currentHead = ""
 	return nil
 }
 
diff --git a/pkg/extension/NNNN-indexer.go b/pkg/extension/NNNN-indexer.go
index fcf1523..c85d76f 100644
--- a/pkg/extension/NNNN-indexer.go
+++ b/pkg/extension/NNNN-indexer.go
@@ -223,6 +223,10 @@ func (sl *Indexer) WriteConfig() error {
 }
 
 func (sl *Indexer) UpdateObjectBefore(object ocfl.Object) error {
+	// records of an update before belong to another version
+	delete(sl.buffer, object.GetInventory().GetHead())
+	sl.writer = nil
+	sl.currentHead = ""
 	return nil
 }
 
-- 
2.43.0


From 26e7ee2c2b31c310c3b44e2ad3946f13db370d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 037/132] fix: extraction of an area missed files with the same
 content as a file of another area

---
 pkg/ocfl/objectbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index de70f69..96d1d58 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1581,7 +1581,7 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 			if err != nil {
 				errCause := errors.Cause(err)
 				if errors.Is(errCause, ExtensionObjectExtractPathWrongAreaError) {
-					return nil
+					continue
 				}
 				return errors.Wrapf(err, "cannot map path '%s'", external)
 			}
-- 
2.43.0


From 74261313d4b1ecdaf22d1f0ea59fc38144c8da4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 038/132] fix: failing writes blocked extraction for ever or
 were not reported

---
 pkg/ocfl/objectbase.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 96d1d58..455d5f5 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1599,9 +1599,16 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 				if err != nil {
 					return errors.Wrapf(err, "cannot create '%v/%s'", fsys, external)
 				}
-				defer target.Close()
 				object.logger.Debug().Msgf("writing '%v/%s' -> '%v/%s'", object.fsys, internal, fsys, external)
-				copyDigests, err := checksum.Copy([]checksum.DigestAlgorithm{digestAlg}, src, target)
+				// checksum.Copy would wait forever on a writer which stops accepting data
+				writer := &errorWriter{Writer: target}
+				copyDigests, err := checksum.Copy([]checksum.DigestAlgorithm{digestAlg}, src, writer)
+				if err == nil {
+					err = writer.err
+				}
+				if closeErr := target.Close(); err == nil {
+					err = closeErr
+				}
 				if err != nil {
 					return errors.Wrapf(err, "error copying '%v/%s' -> '%v/%s'", object.fsys, internal, fsys, external)
 				}
@@ -1631,9 +1638,12 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 			return errors.Wrapf(err, "cannot crate manifest file %v/%s", fsys, manifestName)
 		}
 		if _, err := io.WriteString(fp, manifest.String()); err != nil {
+			_ = fp.Close()
 			return errors.Wrapf(err, "cannot write manifest file %v/%s", fsys, manifestName)
 		}
-		defer fp.Close()
+		if err := fp.Close(); err != nil {
+			return errors.Wrapf(err, "cannot close manifest file %v/%s", fsys, manifestName)
+		}
 	}
 	object.logger.Debug().Msgf("object '%s' extracted", object.GetID())
 	return nil
-- 
2.43.0


From 07e46e13535ef5fcbdb221cb2d373d68b56ca2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 039/132] fix: extraction of an area contained files of areas
 with a longer folder name

---
 pkg/extension/NNNN-content-subpath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-content-subpath.go b/pkg/extension/NNNN-content-subpath.go
index 652f753..7a5bcb5 100644
--- a/pkg/extension/NNNN-content-subpath.go
+++ b/pkg/extension/NNNN-content-subpath.go
@@ -197,7 +197,7 @@ func (sl *ContentSubPath) BuildObjectExtractPath(object ocfl.Object, originalPat
 		return "", errors.Errorf("invalid area '%s'", area)
 	}
 	originalPath = strings.TrimLeft(originalPath, "/")
-	if !strings.HasPrefix(originalPath, subpath.Path) {
+	if !strings.HasPrefix(originalPath, strings.TrimRight(subpath.Path, "/")+"/") {
 		return "", errors.Wrapf(ocfl.ExtensionObjectExtractPathWrongAreaError, "'%s' does not belong to area '%s'", originalPath, area)
 	}
 	originalPath = strings.TrimLeft(strings.TrimPrefix(originalPath, subpath.Path), "/")
-- 
2.43.0


From 3e8af3ffacc14bf5bd646e6b4b35791175aab5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 040/132] fix: extraction of all objects ignored the area

---
 pkg/ocfl/storagerootbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 67319a9..6206e93 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -696,7 +696,7 @@ func (osr *StorageRootBase) Extract(fsys fs.FS, path, id, version string, withMa
 			if err != nil {
 				return errors.Wrapf(err, "cannot create subfolder '%s' of '%v'", oFolder, fsys)
 			}
-			if err := o.Extract(subFS, version, withManifest, ""); err != nil {
+			if err := o.Extract(subFS, version, withManifest, area); err != nil {
 				return errors.Wrapf(err, "cannot extract object in folder '%s'", oFolder)
 			}
 		}
-- 
2.43.0


From 603ec207ed245edb51e40f4436605fafe977dc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 041/132] fix: manifest replaced an extracted file with the
 same name

---
 pkg/ocfl/objectbase.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 455d5f5..fb88d6a 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1575,6 +1575,7 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 	var manifest strings.Builder
 	var err error
 	var digestAlg = object.i.GetDigestAlgorithm()
+	var manifestName = fmt.Sprintf("manifest.%s", digestAlg)
 	if err := object.i.IterateStateFiles(version, func(internals, externals []string, digest string) error {
 		for _, external := range externals {
 			external, err = object.extensionManager.BuildObjectExtractPath(object, external, area)
@@ -1585,6 +1586,9 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 				}
 				return errors.Wrapf(err, "cannot map path '%s'", external)
 			}
+			if withManifest && external == manifestName {
+				return errors.Errorf("file '%s' has the name of the manifest", external)
+			}
 			if err := func() error {
 				if len(internals) == 0 {
 					return errors.Errorf("no internal paths for '%v'", externals)
@@ -1632,7 +1636,6 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 		return errors.Wrap(err, "cannot iterate external files")
 	}
 	if withManifest {
-		manifestName := fmt.Sprintf("manifest.%s", digestAlg)
 		fp, err := writefs.Create(fsys, manifestName)
 		if err != nil {
 			return errors.Wrapf(err, "cannot crate manifest file %v/%s", fsys, manifestName)
-- 
2.43.0


From 9217503783f2846d48dbabff7b5a3c9a6cd932dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 042/132] fix: extraction relied on an inventory which does not
 match its digest

---
 pkg/ocfl/objectbase.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index fb88d6a..f93ede3 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -41,6 +41,7 @@ type ObjectBase struct {
 	updateFiles        []string
 	area               string
 	closed             bool
+	inventoryErr       error
 }
 
 // newObjectBase creates an empty ObjectBase structure
@@ -298,8 +299,10 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 
 	// check digest for inventory
 	sidecarPath := fmt.Sprintf("%s.%s", filename, digest)
+	var sidecarErr error
 	sidecarBytes, err := fs.ReadFile(object.fsys, sidecarPath)
 	if err != nil {
+		sidecarErr = errors.Wrapf(err, "cannot read sidecar '%v/%s'", object.fsys, sidecarPath)
 		if errors.Is(err, fs.ErrNotExist) {
 			object.addValidationError(E058, "sidecar '%v/%s' does not exist", object.fsys, sidecarPath)
 		} else {
@@ -311,6 +314,7 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 		//if !strings.HasSuffix(digestString, " inventory.json") {
 		matches := inventorySideCarFormat.FindStringSubmatch(digestString)
 		if /* matches == nil || */ len(matches) == 0 {
+			sidecarErr = errors.Errorf("invalid sidecar '%v/%s'", object.fsys, sidecarPath)
 			object.addValidationError(E061, "no suffix \" inventory.json\" in '%v/%s'", object.fsys, sidecarPath)
 		} else {
 			//digestString = strings.TrimSpace(strings.TrimSuffix(digestString, " inventory.json"))
@@ -324,10 +328,14 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 			sumBytes := h.Sum(nil)
 			inventoryDigestString := fmt.Sprintf("%x", sumBytes)
 			if digestString != inventoryDigestString {
+				sidecarErr = errors.Errorf("digest of '%v/%s' does not match its sidecar", object.fsys, filename)
 				object.addValidationError(E060, "'%s' != '%s'", digestString, inventoryDigestString)
 			}
 		}
 	}
+	if folder == "." {
+		object.inventoryErr = sidecarErr
+	}
 	return inventory, inventory.Finalize(false)
 }
 
@@ -1574,6 +1582,9 @@ func (object *ObjectBase) getAllDigests() ([]checksum.DigestAlgorithm, error) {
 func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool, area string) error {
 	var manifest strings.Builder
 	var err error
+	if object.inventoryErr != nil {
+		return errors.Wrapf(object.inventoryErr, "cannot rely on the inventory of object '%s'", object.GetID())
+	}
 	var digestAlg = object.i.GetDigestAlgorithm()
 	var manifestName = fmt.Sprintf("manifest.%s", digestAlg)
 	if err := object.i.IterateStateFiles(version, func(internals, externals []string, digest string) error {
-- 
2.43.0


From 7fc430146e7513567fe42b46faa416e094aee7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 043/132] fix: empty or short paths in an inventory terminated
 the program

---
 pkg/ocfl/inventorybase.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 7ed1e63..67a2b87 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -368,11 +368,12 @@ func (i *InventoryBase) checkManifest() error {
 		for _, path := range paths {
 			//allPaths = sliceInsertSorted(allPaths, path)
 			allPaths = append(allPaths, path)
-			if path[0] == '/' || path[len(path)-1] == '/' {
-				i.addValidationError(E100, "invalid path '%s' in manifest", path)
-			}
 			if path == "" {
 				i.addValidationError(E099, "empty path in manifest")
+				continue
+			}
+			if path[0] == '/' || path[len(path)-1] == '/' {
+				i.addValidationError(E100, "invalid path '%s' in manifest", path)
 			}
 			path2 := path
 			if path[0] == '/' {
@@ -414,11 +415,12 @@ func (i *InventoryBase) checkFixity() error {
 			}
 			// check content paths
 			for _, path := range paths {
-				if path[0] == '/' || path[len(path)-1] == '/' {
-					i.addValidationError(E100, "invalid path '%s' in fixity", path)
-				}
 				if path == "" {
 					i.addValidationError(E099, "empty path in fixity")
+					continue
+				}
+				if path[0] == '/' || path[len(path)-1] == '/' {
+					i.addValidationError(E100, "invalid path '%s' in fixity", path)
 				}
 				path2 := path
 				if path[0] == '/' {
@@ -532,11 +534,12 @@ func (i *InventoryBase) checkVersions() error {
 				}
 			}
 			for _, path := range paths {
-				if path[0] == '/' || path[len(path)-1] == '/' {
-					i.addValidationError(E053, "invalid path '%s' in state for version '%s'", path, ver)
-				}
 				if path == "" {
 					i.addValidationError(E051, "empty path in state for version '%s'", ver)
+					continue
+				}
+				if path[0] == '/' || path[len(path)-1] == '/' {
+					i.addValidationError(E053, "invalid path '%s' in state for version '%s'", path, ver)
 				}
 				path2 := path
 				if path[0] == '/' {
@@ -659,6 +662,7 @@ func (i *InventoryBase) GetFiles() map[string][]string {
 			parts := strings.Split(filename, "/")
 			if len(parts) < 3 {
 				i.addValidationError(E000, "invalid filepath in manifest '%s'", filename)
+				continue
 			}
 			version := parts[0]
 			//fn := parts[2]
-- 
2.43.0


From 006a02848fbedbb9e520618ca5e2732ba7ab2da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 044/132] fix: inventory with missing or null fields terminated
 the program

---
 pkg/ocfl/inventorybase.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 67a2b87..6c1b38d 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -116,6 +116,10 @@ func (i *InventoryBase) Init(id string, digest checksum.DigestAlgorithm, fixity
 	return nil
 }
 func (i *InventoryBase) Finalize(inCreation bool) (err error) {
+	if i.Head == nil {
+		// reported by check()
+		i.Head = NewOCFLString("")
+	}
 	if i.Manifest == nil {
 		if !inCreation {
 			i.addValidationError(E041, "no manifest in inventory")
@@ -132,12 +136,10 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 
 	i.versionValue = map[string]uint{}
 	for ver, version := range i.Versions.Versions {
-		vInt, err := strconv.Atoi(strings.TrimLeft(ver, "v0"))
-		if err != nil {
-			i.addValidationError(E104, "invalid version format '%s'", ver)
-			continue
+		if version == nil {
+			version = &Version{}
+			i.Versions.Versions[ver] = version
 		}
-		i.versionValue[ver] = uint(vInt)
 		if version.User == nil {
 			i.addValidationWarning(W007, "no user key in version '%s'", ver)
 			version.User = NewOCFLUser("", "")
@@ -147,12 +149,23 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 			i.addValidationWarning(W007, "no message key in version '%s'", ver)
 			version.Message = NewOCFLString("")
 		}
+		if version.Created == nil {
+			i.addValidationError(E048, "no created key in version '%s'", ver)
+			version.Created = &OCFLTime{}
+		}
 		if version.State == nil {
+			i.addValidationError(E048, "no state key in version '%s'", ver)
 			version.State = &OCFLState{
 				State: map[string][]string{},
 				err:   nil,
 			}
 		}
+		vInt, err := strconv.Atoi(strings.TrimLeft(ver, "v0"))
+		if err != nil {
+			i.addValidationError(E104, "invalid version format '%s'", ver)
+			continue
+		}
+		i.versionValue[ver] = uint(vInt)
 	}
 	for alg := range i.Fixity {
 		if !slices.Contains(i.fixityDigestAlgorithms, alg) {
-- 
2.43.0


From 09a8b920ecff62cb2f08fbce9bef67344b48819e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 045/132] fix: inventory with fields of a wrong type passed
 validation

---
 pkg/ocfl/objectbase.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index f93ede3..d8ef96f 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -274,6 +274,7 @@ func (object *ObjectBase) loadInventory(data []byte, folder string) (Inventory,
 			if _, ok := jsonMap["head"].(string); !ok {
 				addValidationErrors(object.ctx, GetValidationError(version, E040).AppendDescription("head is not of string type: %v", jsonMap["head"]).AppendContext("object '%v'", object.fsys))
 			}
+			addValidationErrors(object.ctx, GetValidationError(version, E033).AppendDescription("invalid inventory structure: %v", err).AppendContext("object '%v'", object.fsys))
 		}
 		//return nil, errors.Wrapf(err, "cannot marshal data - '%s'", string(data))
 	}
-- 
2.43.0


From dd3931625343963e5185da8db8c1917f2dde6a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 046/132] fix: invalid extension parameters terminated the
 program

---
 .../0003-hash-and-id-n-tuple-storage-layout.go      |  3 +++
 pkg/extension/0004-hashed-n-tuple-storage-layout.go |  3 +++
 .../0007-n-tuple-omit-prefix-storage-layout.go      | 13 +++++++++++++
 pkg/extension/NNNN-direct-clean-path-layout.go      |  9 +++++++++
 pkg/extension/NNNN-pairtree-storage-layout.go       |  3 +++
 5 files changed, 31 insertions(+)

diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index b549b5b..a8e196e 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -41,6 +41,9 @@ func NewStorageLayoutHashAndIdNTuple(config *StorageLayoutHashAndIdNTupleConfig)
 	if config.TupleSize > 32 {
 		config.TupleSize = 32
 	}
+	if config.TupleSize < 0 || config.NumberOfTuples < 0 {
+		return nil, errors.Errorf("invalid tupleSize %v or numberOfTuples %v", config.TupleSize, config.NumberOfTuples)
+	}
 	if config.TupleSize == 0 || config.NumberOfTuples == 0 {
 		config.NumberOfTuples = 0
 		config.TupleSize = 0
diff --git a/pkg/extension/0004-hashed-n-tuple-storage-layout.go b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
index 3463da0..8aa09a2 100644
--- a/pkg/extension/0004-hashed-n-tuple-storage-layout.go
+++ b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
@@ -41,6 +41,9 @@ func NewStorageLayoutHashedNTuple(config *StorageLayoutHashedNTupleConfig) (*Sto
 	if config.TupleSize > 32 {
 		config.TupleSize = 32
 	}
+	if config.TupleSize < 0 || config.NumberOfTuples < 0 {
+		return nil, errors.Errorf("invalid tupleSize %v or numberOfTuples %v", config.TupleSize, config.NumberOfTuples)
+	}
 	if config.TupleSize == 0 || config.NumberOfTuples == 0 {
 		config.NumberOfTuples = 0
 		config.TupleSize = 0
diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index bb90bd9..ab5da7d 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -47,6 +47,19 @@ func NewNTupleOmitPrefixStorageLayoutFS(fsys fs.FS) (*NTupleOmitPrefixStorageLay
 	return NewNTupleOmitPrefixStorageLayout(config)
 }
 func NewNTupleOmitPrefixStorageLayout(config *NTupleOmitPrefixStorageLayoutConfig) (*NTupleOmitPrefixStorageLayout, error) {
+	if config.TupleSize < 1 || config.TupleSize > 32 {
+		return nil, errors.Errorf("invalid tupleSize %v", config.TupleSize)
+	}
+	if config.NumberOfTuples < 1 || config.NumberOfTuples > 32 {
+		return nil, errors.Errorf("invalid numberOfTuples %v", config.NumberOfTuples)
+	}
+	switch config.ZeroPadding {
+	case "":
+		config.ZeroPadding = "left"
+	case "left", "right":
+	default:
+		return nil, errors.Errorf("invalid zeroPadding '%s'", config.ZeroPadding)
+	}
 	sl := &NTupleOmitPrefixStorageLayout{NTupleOmitPrefixStorageLayoutConfig: config}
 	if config.ExtensionName != sl.GetName() {
 		return nil, errors.New(fmt.Sprintf("invalid extension name'%s'for extension %s", config.ExtensionName, sl.GetName()))
diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index 5403085..f6232ef 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -94,6 +94,15 @@ func NewDirectClean(config *DirectCleanConfig) (ocfl.Extension, error) {
 	if sl.hash, err = checksum.GetHash(config.FallbackDigestAlgorithm); err != nil {
 		return nil, errors.Wrapf(err, "hash %s not supported", config.FallbackDigestAlgorithm)
 	}
+	if config.MaxPathSegmentLen < 1 || config.MaxPathnameLen < 1 {
+		return nil, errors.Errorf("invalid maxPathSegmentLen %v or maxPathnameLen %v", config.MaxPathSegmentLen, config.MaxPathnameLen)
+	}
+	// fallback() takes the tuples out of the hexadecimal digest
+	if digestLen := 2 * sl.hash.Size(); config.NumberOfFallbackTuples < 0 || config.FallbackTupleSize < 0 ||
+		config.NumberOfFallbackTuples > digestLen || config.FallbackTupleSize > digestLen ||
+		config.NumberOfFallbackTuples-1+config.FallbackTupleSize > digestLen {
+		return nil, errors.Errorf("invalid numberOfFallbackTuples %v or fallbackTupleSize %v", config.NumberOfFallbackTuples, config.FallbackTupleSize)
+	}
 
 	return sl, nil
 }
diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index 2cc37ba..49c44af 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -104,6 +104,9 @@ func NewStorageLayoutPairTreeFS(fsys fs.FS) (*StorageLayoutPairTree, error) {
 }
 
 func NewStorageLayoutPairTree(config *StorageLayoutPairTreeConfig) (*StorageLayoutPairTree, error) {
+	if config.ShortyLength < 1 {
+		return nil, errors.Errorf("invalid shortyLength %v", config.ShortyLength)
+	}
 	sl := &StorageLayoutPairTree{StorageLayoutPairTreeConfig: config}
 	var err error
 	if sl.hash, err = checksum.GetHash(checksum.DigestAlgorithm(config.DigestAlgorithm)); err != nil {
-- 
2.43.0


From d3898dd95435b447dd759a9c29b31d1040b4668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 047/132] fix: fallback name could be made from the digest of
 another name

---
 pkg/extension/NNNN-direct-clean-path-layout.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index f6232ef..85fbd11 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -218,15 +218,14 @@ func (sl *DirectClean) BuildObjectManifestPath(object ocfl.Object, originalPath
 func (sl *DirectClean) fallback(fname string) (string, error) {
 	// internal mutex for reusing the hash object
 	sl.hashMutex.Lock()
+	defer sl.hashMutex.Unlock()
 
 	// reset hash function
 	sl.hash.Reset()
 	// add path
 	if _, err := sl.hash.Write([]byte(fname)); err != nil {
-		sl.hashMutex.Unlock()
 		return "", errors.Wrapf(err, "cannot hash path '%s'", fname)
 	}
-	sl.hashMutex.Unlock()
 
 	// get digest and encode it
 	digestString := hex.EncodeToString(sl.hash.Sum(nil))
-- 
2.43.0


From 7e964152de96a6d208c533033df37b6475232c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 048/132] fix: inventory with other digests than the root
 inventory passed validation

---
 pkg/ocfl/inventorybase.go  | 20 +++++++++++---------
 pkg/ocfl/inventorytypes.go | 26 ++++++++++++++++++++++++++
 pkg/ocfl/objectbase.go     |  6 +++++-
 3 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 6c1b38d..7c8904a 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -60,6 +60,9 @@ func (i *InventoryBase) isEqual(i2 *InventoryBase) bool {
 	if !sliceContains(i.fixityDigestAlgorithms, i2.fixityDigestAlgorithms) || len(i.fixityDigestAlgorithms) != len(i2.fixityDigestAlgorithms) {
 		return false
 	}
+	if i.Id != i2.Id || i.DigestAlgorithm != i2.DigestAlgorithm {
+		return false
+	}
 	if i.Type != i2.Type {
 		return false
 	}
@@ -73,17 +76,16 @@ func (i *InventoryBase) isEqual(i2 *InventoryBase) bool {
 		return false
 	}
 	if i.Manifest != nil {
-		if len(i.Manifest.Manifest) != len(i.Manifest.Manifest) {
+		if !equalPaths(i.Manifest.Manifest, i2.Manifest.Manifest) {
 			return false
 		}
-		for key, vals := range i.Manifest.Manifest {
-			vals2, ok := i2.Manifest.Manifest[key]
-			if !ok {
-				return false
-			}
-			if !sliceContains(vals, vals2) || len(vals) != len(vals2) {
-				return false
-			}
+	}
+	if len(i.Fixity) != len(i2.Fixity) {
+		return false
+	}
+	for alg, fixity := range i.Fixity {
+		if !equalPaths(fixity, i2.Fixity[alg]) {
+			return false
 		}
 	}
 	if (i.Versions == nil && i2.Versions != nil) || (i.Versions != nil && i2.Versions == nil) {
diff --git a/pkg/ocfl/inventorytypes.go b/pkg/ocfl/inventorytypes.go
index 2081e56..49776ea 100644
--- a/pkg/ocfl/inventorytypes.go
+++ b/pkg/ocfl/inventorytypes.go
@@ -4,6 +4,7 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"golang.org/x/exp/slices"
+	"strings"
 	"time"
 )
 
@@ -165,6 +166,15 @@ func (v *Version) EqualState(v2 *Version) bool {
 			return false
 		}
 	*/
+	return equalPaths(v.State.State, v2.State.State)
+}
+
+// EqualFiles compares the logical paths of both versions. It is for versions whose digests are
+// not comparable because of different algorithms
+func (v *Version) EqualFiles(v2 *Version) bool {
+	if v2 == nil {
+		return false
+	}
 	if len(v.State.State) != len(v2.State.State) {
 		return false
 	}
@@ -189,6 +199,22 @@ func (v *Version) EqualState(v2 *Version) bool {
 	return true
 }
 
+// equalPaths compares two mappings of digests to paths. Neither the order of the paths nor
+// the case of the digests is relevant
+func equalPaths(m1, m2 map[string][]string) bool {
+	var flatten = func(m map[string][]string) []string {
+		result := []string{}
+		for digest, paths := range m {
+			for _, path := range paths {
+				result = append(result, strings.ToLower(digest)+" "+path)
+			}
+		}
+		slices.Sort(result)
+		return result
+	}
+	return len(m1) == len(m2) && slices.Equal(flatten(m1), flatten(m2))
+}
+
 type OCFLManifest struct {
 	Manifest map[string][]string
 	err      error
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index d8ef96f..2b56fe3 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1346,7 +1346,11 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 				object.addValidationError(E066, "version '%s' in version folder '%s' not in object root manifest", ver, verVer)
 				continue
 			}
-			if !testV.EqualState(verVersion) {
+			equalState := testV.EqualState
+			if verInventory.GetDigestAlgorithm() != digestAlg {
+				equalState = testV.EqualFiles
+			}
+			if !equalState(verVersion) {
 				object.addValidationError(E066, "version '%s' in version folder '%s' not equal to version in object root manifest", ver, verVer)
 			}
 			if !testV.EqualMeta(verVersion) {
-- 
2.43.0


From b1176aefa446fdc719d4ecfb394752d4054c4451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 049/132] fix: equal or conflicting paths in an inventory
 passed validation

---
 pkg/ocfl/helper.go        | 21 +++++++++++++++++++++
 pkg/ocfl/inventorybase.go | 16 ++++------------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 8d862d0..ca847b8 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -232,6 +232,27 @@ func sliceContains[E comparable](s []E, vs []E) bool {
 	return true
 }
 
+// conflictingPaths finds the paths which are equal to another path or a folder of it
+func conflictingPaths(paths []string) map[string]string {
+	result := map[string]string{}
+	known := map[string]bool{}
+	for _, path := range paths {
+		path = strings.TrimRight(path, "/")
+		if known[path] {
+			result[path] = path
+		}
+		known[path] = true
+	}
+	for _, path := range paths {
+		for pos, c := range path {
+			if c == '/' && known[path[:pos]] && pos < len(strings.TrimRight(path, "/")) {
+				result[path[:pos]] = path
+			}
+		}
+	}
+	return result
+}
+
 func sliceInsertSorted[E constraints.Ordered](data []E, v E) []E {
 	var dummy E
 	i, _ := slices.BinarySearch(data, v) // find slot
diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 7c8904a..5306b1f 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -405,12 +405,8 @@ func (i *InventoryBase) checkManifest() error {
 
 	}
 	i.logger.Debug().Msgf("[%s] checkManifest prefix", i.GetID())
-	slices.Sort(allPaths)
-	for j := 0; j < len(allPaths)-1; j++ {
-		prefix := strings.TrimRight(allPaths[j+1], "/") + "/"
-		if strings.HasPrefix(allPaths[j], prefix) {
-			i.addValidationError(E101, "content path '%s' is prefix or equal to '%s' in manifest", allPaths[j], prefix)
-		}
+	for path, path2 := range conflictingPaths(allPaths) {
+		i.addValidationError(E101, "content path '%s' is prefix or equal to '%s' in manifest", path, path2)
 	}
 	return nil
 }
@@ -609,12 +605,8 @@ func (i *InventoryBase) checkVersions() error {
 		for _, paths := range version.State.State {
 			logPaths = append(logPaths, paths...)
 		}
-		slices.Sort(logPaths)
-		for j := 0; j < len(logPaths)-1; j++ {
-			prefix := strings.TrimSuffix(logPaths[j], "/") + "/"
-			if strings.HasPrefix(logPaths[j+1], prefix) {
-				i.addValidationError(E095, "logical path '%s' is prefix of '%s'", logPaths[j], logPaths[j+1])
-			}
+		for path, path2 := range conflictingPaths(logPaths) {
+			i.addValidationError(E095, "logical path '%s' is prefix of or equal to '%s'", path, path2)
 		}
 	}
 
-- 
2.43.0


From d146a029b46e8dff49f21e1fa792fc8d23392fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 050/132] fix: inventory digest file with a wrong file name
 passed validation

---
 pkg/ocfl/objectbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 2b56fe3..54f82b8 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -282,7 +282,7 @@ func (object *ObjectBase) loadInventory(data []byte, folder string) (Inventory,
 	return inventory, inventory.Finalize(false)
 }
 
-var inventorySideCarFormat = regexp.MustCompile(`^([a-fA-F0-9]+)\s+inventory.json$`)
+var inventorySideCarFormat = regexp.MustCompile(`^([a-fA-F0-9]+)\s+inventory\.json$`)
 
 // loadInventory loads inventory from existing Object
 func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
-- 
2.43.0


From fe6018e3a773d296b35e298568e471997ea6d19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:58 +0000
Subject: [PATCH 051/132] fix: inventory without digest algorithm passed
 validation

---
 pkg/ocfl/objectbase.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 54f82b8..0cc3445 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -278,6 +278,10 @@ func (object *ObjectBase) loadInventory(data []byte, folder string) (Inventory,
 		}
 		//return nil, errors.Wrapf(err, "cannot marshal data - '%s'", string(data))
 	}
+	// a new inventory has a default digest algorithm
+	if anyMap["digestAlgorithm"] == nil {
+		addValidationErrors(object.ctx, GetValidationError(version, E036).AppendDescription("no field \"digestAlgorithm\" (%s/inventory.json)", folder).AppendContext("object '%v'", object.fsys))
+	}
 
 	return inventory, inventory.Finalize(false)
 }
-- 
2.43.0


From bb27710d593f6f638d259d1fca6be16ed9be658a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 052/132] fix: files could be stored outside of their object

---
 pkg/ocfl/objectbase.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 0cc3445..81050bf 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -761,6 +761,10 @@ func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *Nam
 
 	var digest string
 
+	if err := checkNames(append([]string{names.InternalPath}, names.ExternalPaths...)...); err != nil {
+		return "", errors.Wrapf(err, "cannot store '%s'", names.ManifestPath)
+	}
+
 	object.updateFiles = append(object.updateFiles, names.ExternalPaths...)
 
 	if !slices.Contains(digestAlgorithms, object.i.GetDigestAlgorithm()) {
@@ -865,6 +869,17 @@ func (object *ObjectBase) BuildNames(files []string, area string) (*NamesStruct,
 	return result, nil
 }
 
+// checkNames makes sure that a file stays within its object or extraction when it is
+// stored under these names.
+func checkNames(names ...string) error {
+	for _, name := range names {
+		if name == "." || !fs.ValidPath(name) || strings.ContainsRune(name, 0) {
+			return errors.Errorf("invalid path '%s'", name)
+		}
+	}
+	return nil
+}
+
 func (object *ObjectBase) AddReader(r io.ReadCloser, files []string, area string, noExtensionHook bool, isDir bool) (string, error) {
 	if len(files) == 0 {
 		return "", errors.New("no files given")
@@ -951,6 +966,9 @@ func (object *ObjectBase) AddData(data []byte, path string, checkDuplicate bool,
 		// file already ingested, but new virtual name
 		if dups := object.i.GetDuplicates(digest); len(dups) > 0 {
 			object.logger.Info().Msgf("[%s] file with same content as '%s' already exists. creating virtual copy", object.GetID(), newPath)
+			if err := checkNames(newPath); err != nil {
+				return errors.Wrapf(err, "cannot add '%s'", path)
+			}
 			if err := object.i.CopyFile(newPath, digest); err != nil {
 				return errors.Wrapf(err, "cannot append '%s' to inventory as '%s'", path, names.InternalPath)
 			}
@@ -1054,6 +1072,9 @@ func (object *ObjectBase) AddFile(fsys fs.FS, versionFS fs.FS, path string, chec
 			// file already ingested, but new virtual name
 			if dups := object.i.GetDuplicates(digest); len(dups) > 0 {
 				object.logger.Info().Msgf("[%s] file with same content as '%s' already exists. creating virtual copy", object.GetID(), newPath)
+				if err := checkNames(newPath); err != nil {
+					return errors.Wrapf(err, "cannot add '%s'", path)
+				}
 				if err := object.i.CopyFile(newPath, digest); err != nil {
 					return errors.Wrapf(err, "cannot append '%s' to inventory as '%s'", path, names.InternalPath)
 				}
@@ -1131,6 +1152,9 @@ func (object *ObjectBase) RenameFile(virtualFilenameSource, virtualFilenameDest
 		object.logger.Debug().Msgf("'%s' [%s] not in archive - ignoring", virtualFilenameSource, digest)
 		return nil
 	}
+	if err := checkNames(virtualFilenameDest); err != nil {
+		return errors.Wrapf(err, "cannot rename '%s'", virtualFilenameSource)
+	}
 	if err := object.i.RenameFile(virtualFilenameSource, virtualFilenameDest); err != nil {
 		return errors.Wrapf(err, "cannot delete '%s'", virtualFilenameSource)
 	}
-- 
2.43.0


From 1f4ba9172c75a04e936e14b12efadf589fa0c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 053/132] fix: files could be extracted outside of the target
 folder

---
 pkg/ocfl/objectbase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 81050bf..3b6badb 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1630,6 +1630,9 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 				}
 				return errors.Wrapf(err, "cannot map path '%s'", external)
 			}
+			if err := checkNames(append([]string{external}, internals...)...); err != nil {
+				return errors.Wrapf(err, "cannot extract '%s'", external)
+			}
 			if withManifest && external == manifestName {
 				return errors.Errorf("file '%s' has the name of the manifest", external)
 			}
-- 
2.43.0


From d00790b758d3c09f1de8e0d83a4364907e067cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 054/132] fix: an inventory could make an update write or
 delete files outside of its object

---
 pkg/ocfl/inventorybase.go | 2 +-
 pkg/ocfl/objectbase.go    | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 5306b1f..a6a6ebc 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -760,7 +760,7 @@ func (i *InventoryBase) unusedContent() []string {
 			continue
 		}
 		for _, file := range files {
-			if strings.HasPrefix(file, i.GetHead()+"/") {
+			if strings.HasPrefix(file, i.GetHead()+"/") && checkNames(file) == nil {
 				result = append(result, file)
 			}
 		}
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 3b6badb..5721c95 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -572,6 +572,10 @@ func (object *ObjectBase) StartUpdate(sourceFS fs.FS, msg string, UserName strin
 		object.i.resetModified()
 	}
 
+	if contentDir := object.i.GetContentDir(); checkNames(contentDir) != nil || strings.Contains(contentDir, "/") {
+		return nil, errors.Errorf("invalid content directory '%s'", contentDir)
+	}
+
 	subfs, err := writefs.SubFSCreate(object.fsys, "extensions")
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create subfs of %v for folder '%s'", object.fsys, "extensions")
-- 
2.43.0


From d8fa2ae2d7f185efb4f8287f9a5ff66bd6ed289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 055/132] fix: extensions could store their data outside of
 their folder

---
 pkg/extension/NNNN-metafile.go | 3 +++
 pkg/extension/NNNN-mets.go     | 5 ++++-
 pkg/ocfl/helper.go             | 3 +++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index e0f1eb9..a1fe284 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -331,6 +331,9 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 		}
 	case "extension":
 		targetname := strings.TrimLeft(filepath.ToSlash(filepath.Join(sl.StorageName, sl.MetaName)), "/")
+		if !fs.ValidPath(targetname) {
+			return errors.Errorf("invalid file name '%v/%s'", sl.fsys, targetname)
+		}
 		if _, err := writefs.WriteFile(sl.fsys, targetname, infoData); err != nil {
 			return errors.Wrapf(err, "cannot write file '%v/%s'", sl.fsys, targetname)
 		}
diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index e3c6671..f473d3c 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -1346,10 +1346,13 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 	case "extension":
 		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.MetsFile, object.GetVersion()))), "/")
 		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.PremisFile, object.GetVersion()))), "/")
+		if !fs.ValidPath(metsName) || !fs.ValidPath(premisName) {
+			return errors.Errorf("invalid file name '%v/%s' or '%v/%s'", me.fsys, metsName, me.fsys, premisName)
+		}
 		if _, err := writefs.WriteFile(me.fsys, metsName, metsBytes); err != nil {
 			return errors.Wrapf(err, "cannot write file '%v/%s'", me.fsys, metsName)
 		}
-		if _, err := writefs.WriteFile(me.fsys, premisName, metsBytes); err != nil {
+		if _, err := writefs.WriteFile(me.fsys, premisName, premisBytes); err != nil {
 			return errors.Wrapf(err, "cannot write file '%v/%s'", me.fsys, premisName)
 		}
 		if _, err := writefs.WriteFile(me.fsys, "schemas/mets.xsd", specs.METSXSD); err != nil {
diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index ca847b8..17e6593 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -521,6 +521,9 @@ func WriteJsonL(object Object, name string, brotliData []byte, compress, storage
 		}
 	case "extension":
 		targetname := strings.TrimLeft(fmt.Sprintf("%s/%s_%s.jsonl%s", storageName, name, head, ext), "/")
+		if err := checkNames(targetname); err != nil {
+			return errors.Wrapf(err, "cannot store '%v/%s'", fsys, targetname)
+		}
 		fp, err := writefs.Create(fsys, targetname)
 		if err != nil {
 			return errors.Wrapf(err, "cannot create '%v/%s'", fsys, targetname)
-- 
2.43.0


From df9bfc2592924ea4ef46b964e90bc21dc9a1a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:34 +0000
Subject: [PATCH 056/132] fix: objects could be stored outside of the storage
 root or within its extensions

---
 pkg/ocfl/storagerootbase.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 6206e93..89cf5d6 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -259,8 +259,28 @@ func (osr *StorageRootBase) GetFolders() ([]string, error) {
 // Object Functions
 //
 
-func (osr *StorageRootBase) ObjectExists(id string) (bool, error) {
+// objectFolder returns the folder of an object. It is within the storage root, but not
+// part of its extensions.
+func (osr *StorageRootBase) objectFolder(id string) (string, error) {
 	folder, err := osr.extensionManager.BuildStorageRootPath(osr, id)
+	if err != nil {
+		return "", errors.WithStack(err)
+	}
+	parts := []string{}
+	for _, part := range strings.Split(filepath.ToSlash(folder), "/") {
+		if part != "" {
+			parts = append(parts, part)
+		}
+	}
+	result := strings.Join(parts, "/")
+	if err := checkNames(result); err != nil || parts[0] == "extensions" {
+		return "", errors.Errorf("invalid folder '%s' for object '%s'", folder, id)
+	}
+	return result, nil
+}
+
+func (osr *StorageRootBase) ObjectExists(id string) (bool, error) {
+	folder, err := osr.objectFolder(id)
 	if err != nil {
 		return false, errors.Wrapf(err, "cannot build storage path for id %s", id)
 	}
@@ -383,7 +403,7 @@ func (osr *StorageRootBase) LoadObjectByFolder(folder string) (Object, error) {
 }
 
 func (osr *StorageRootBase) LoadObjectByID(id string) (object Object, err error) {
-	folder, err := osr.extensionManager.BuildStorageRootPath(osr, id)
+	folder, err := osr.objectFolder(id)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create folder from id '%s'", id)
 	}
@@ -391,7 +411,7 @@ func (osr *StorageRootBase) LoadObjectByID(id string) (object Object, err error)
 }
 
 func (osr *StorageRootBase) CreateObject(id string, version OCFLVersion, digest checksum.DigestAlgorithm, fixity []checksum.DigestAlgorithm, manager ExtensionManager) (Object, error) {
-	folder, err := osr.extensionManager.BuildStorageRootPath(osr, id)
+	folder, err := osr.objectFolder(id)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create folder from id '%s'", id)
 	}
-- 
2.43.0


From 78248158f23eed1cb682b9109d4e68de5c221f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:34 +0000
Subject: [PATCH 057/132] fix: objects could be created within other objects

---
 pkg/ocfl/storagerootbase.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 89cf5d6..aa65ff2 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -415,6 +415,18 @@ func (osr *StorageRootBase) CreateObject(id string, version OCFLVersion, digest
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create folder from id '%s'", id)
 	}
+	// an object must not be part of another one
+	for parent := filepath.ToSlash(filepath.Dir(folder)); parent != "."; parent = filepath.ToSlash(filepath.Dir(parent)) {
+		entries, err := fs.ReadDir(osr.fsys, parent)
+		if err != nil && !errors.Is(err, fs.ErrNotExist) {
+			return nil, errors.Wrapf(err, "cannot read '%v/%s'", osr.fsys, parent)
+		}
+		for _, entry := range entries {
+			if strings.HasPrefix(entry.Name(), "0=ocfl_object_") {
+				return nil, errors.Errorf("folder '%s' of object '%s' is within the object in '%s'", folder, id, parent)
+			}
+		}
+	}
 	subfs, err := subFSCreateAll(osr.fsys, folder)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create sub fs of %v for '%s'", osr.fsys, folder)
-- 
2.43.0


From 8900874c94d725919a0ed70559c1d7e681141d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:31 +0000
Subject: [PATCH 058/132] fix: an identifier could refer to the object of
 another identifier

---
 pkg/ocfl/storagerootbase.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index aa65ff2..eaa6ac3 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -293,7 +293,7 @@ func (osr *StorageRootBase) ObjectExists(id string) (bool, error) {
 	}
 	dirs, err := fs.ReadDir(subFS, "")
 	if err != nil {
-		if err == fs.ErrNotExist {
+		if errors.Is(err, fs.ErrNotExist) {
 			return false, nil
 		}
 		return false, errors.Wrapf(err, "cannot read content of %s", folder)
@@ -407,7 +407,15 @@ func (osr *StorageRootBase) LoadObjectByID(id string) (object Object, err error)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create folder from id '%s'", id)
 	}
-	return osr.LoadObjectByFolder(folder)
+	object, err = osr.LoadObjectByFolder(folder)
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	// a layout may map several identifiers to one folder
+	if object.GetID() != id {
+		return nil, errors.Errorf("object in folder '%s' has the identifier '%s', not '%s'", folder, object.GetID(), id)
+	}
+	return object, nil
 }
 
 func (osr *StorageRootBase) CreateObject(id string, version OCFLVersion, digest checksum.DigestAlgorithm, fixity []checksum.DigestAlgorithm, manager ExtensionManager) (Object, error) {
-- 
2.43.0


From ceb3799335c9bb51ae745296d1283fc243b076aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:26 +0000
Subject: [PATCH 059/132] fix: identifiers which are not valid UTF-8 were
 altered

---
 pkg/ocfl/storagerootbase.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index eaa6ac3..5aa7ba1 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -17,6 +17,7 @@ import (
 	"runtime"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 type StorageRootBase struct {
@@ -262,6 +263,10 @@ func (osr *StorageRootBase) GetFolders() ([]string, error) {
 // objectFolder returns the folder of an object. It is within the storage root, but not
 // part of its extensions.
 func (osr *StorageRootBase) objectFolder(id string) (string, error) {
+	// the inventory is not able to keep any other identifier
+	if !utf8.ValidString(id) {
+		return "", errors.Errorf("identifier '%s' is not valid UTF-8", id)
+	}
 	folder, err := osr.extensionManager.BuildStorageRootPath(osr, id)
 	if err != nil {
 		return "", errors.WithStack(err)
-- 
2.43.0


From d3e9c8af7157e6085efb6acdf32360ada9c60970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:05 +0000
Subject: [PATCH 060/132] fix: an object without identifier could be created

---
 pkg/ocfl/storagerootbase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 5aa7ba1..e30116e 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -263,6 +263,9 @@ func (osr *StorageRootBase) GetFolders() ([]string, error) {
 // objectFolder returns the folder of an object. It is within the storage root, but not
 // part of its extensions.
 func (osr *StorageRootBase) objectFolder(id string) (string, error) {
+	if id == "" {
+		return "", errors.New("empty identifier")
+	}
 	// the inventory is not able to keep any other identifier
 	if !utf8.ValidString(id) {
 		return "", errors.Errorf("identifier '%s' is not valid UTF-8", id)
-- 
2.43.0


From 5efa7d5a9a088855a322da57c6b62e6bf0d1449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:05 +0000
Subject: [PATCH 061/132] fix: a file could be added under the name of a folder

---
 pkg/ocfl/inventory.go     |  1 +
 pkg/ocfl/inventorybase.go | 14 ++++++++++++++
 pkg/ocfl/objectbase.go    |  3 +++
 3 files changed, 18 insertions(+)

diff --git a/pkg/ocfl/inventory.go b/pkg/ocfl/inventory.go
index 3d76628..cee69cd 100644
--- a/pkg/ocfl/inventory.go
+++ b/pkg/ocfl/inventory.go
@@ -53,6 +53,7 @@ type Inventory interface {
 
 	VersionLessOrEqual(v1, v2 string) bool
 	buildContentPath(internalPath string) string
+	checkState() error
 	unusedContent() []string
 	forgetContent(manifestFilename string)
 	echoDelete(existing []string, pathprefix string) error
diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index a6a6ebc..ddde01c 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -741,6 +741,20 @@ func (i *InventoryBase) hasContent(manifestFilename string) bool {
 	return false
 }
 
+// checkState makes sure that no file of the newest version has the name of a folder.
+func (i *InventoryBase) checkState() error {
+	logPaths := []string{}
+	if version, ok := i.Versions.Versions[i.GetHead()]; ok && version != nil && version.State != nil {
+		for _, paths := range version.State.State {
+			logPaths = append(logPaths, paths...)
+		}
+	}
+	for path, path2 := range conflictingPaths(logPaths) {
+		return errors.Errorf("logical path '%s' is prefix of or equal to '%s'", path, path2)
+	}
+	return nil
+}
+
 // unusedContent returns the files stored for the newest version which no version refers to.
 func (i *InventoryBase) unusedContent() []string {
 	used := map[string]bool{}
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 5721c95..ffeeba4 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -617,6 +617,9 @@ func (object *ObjectBase) EndUpdate() error {
 		return errors.Wrapf(err, "cannot execute ext.UpdateObjectAfter()")
 	}
 
+	if err := object.i.checkState(); err != nil {
+		return errors.Wrap(err, "invalid state")
+	}
 	if err := object.removeUnusedContent(); err != nil {
 		return errors.Wrap(err, "cannot remove unused content")
 	}
-- 
2.43.0


From 7ed173d5e703acbacba7a24866294e4d972aba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:28 +0000
Subject: [PATCH 062/132] fix: metadata of objects with versions without
 indexed files could not be read

---
 pkg/extension/NNNN-indexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/extension/NNNN-indexer.go b/pkg/extension/NNNN-indexer.go
index c85d76f..2fa3806 100644
--- a/pkg/extension/NNNN-indexer.go
+++ b/pkg/extension/NNNN-indexer.go
@@ -293,6 +293,10 @@ func (sl *Indexer) GetMetadata(object ocfl.Object) (map[string]any, error) {
 		} else {
 			data, err = ocfl.ReadJsonL(object, "indexer", v, sl.IndexerConfig.Compress, sl.StorageType, sl.StorageName, sl.fsys)
 			if err != nil {
+				// nothing was indexed in this version
+				if errors.Is(err, fs.ErrNotExist) {
+					continue
+				}
 				return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
 			}
 		}
-- 
2.43.0


From 8fb099b7a1550c39e941bd04d560c2074436f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:28 +0000
Subject: [PATCH 063/132] fix: the metadata reported for a file depended on the
 order of a map

---
 pkg/extension/NNNN-filesystem.go | 3 ++-
 pkg/extension/NNNN-indexer.go    | 3 ++-
 pkg/extension/NNNN-migration.go  | 3 ++-
 pkg/extension/NNNN-thumbnail.go  | 4 ++--
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index c8ce263..330b4c5 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -202,7 +202,8 @@ func (extFS *Filesystem) GetMetadata(object ocfl.Object) (map[string]any, error)
 			path2digest[name] = checksum
 		}
 	}
-	for v := range inventory.GetVersions() {
+	// records of later versions replace those of earlier ones
+	for _, v := range inventory.GetVersionStrings() {
 		var data []byte
 		if buf, ok := extFS.buffer[v]; ok && buf.Len() > 0 {
 			//		if v == inventory.GetHead() && sl.buffer.Len() > 0 {
diff --git a/pkg/extension/NNNN-indexer.go b/pkg/extension/NNNN-indexer.go
index 2fa3806..03877ce 100644
--- a/pkg/extension/NNNN-indexer.go
+++ b/pkg/extension/NNNN-indexer.go
@@ -280,7 +280,8 @@ func (sl *Indexer) GetMetadata(object ocfl.Object) (map[string]any, error) {
 			path2digest[name] = checksum
 		}
 	}
-	for v, _ := range inventory.GetVersions() {
+	// records of later versions replace those of earlier ones
+	for _, v := range inventory.GetVersionStrings() {
 		var data []byte
 		if buf, ok := sl.buffer[v]; ok && buf.Len() > 0 {
 			//		if v == inventory.GetHead() && sl.buffer.Len() > 0 {
diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index 34cbe4f..68ad119 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -416,7 +416,8 @@ func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
 			path2digest[name] = checksum
 		}
 	}
-	for v := range inventory.GetVersions() {
+	// records of later versions replace those of earlier ones
+	for _, v := range inventory.GetVersionStrings() {
 		var data []byte
 		if buf, ok := mi.buffer[v]; ok && buf.Len() > 0 {
 			//		if v == inventory.GetHead() && sl.buffer.Len() > 0 {
diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index e792076..875ff43 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -427,8 +427,8 @@ func (thumb *Thumbnail) GetMetadata(object ocfl.Object) (map[string]any, error)
 			}
 		}
 	*/
-	versions := inventory.GetVersions()
-	for v := range versions {
+	// records of later versions replace those of earlier ones
+	for _, v := range inventory.GetVersionStrings() {
 		var data []byte
 		if buf, ok := thumb.buffer[v]; ok && buf.Len() > 0 {
 			//		if v == inventory.GetHead() && sl.buffer.Len() > 0 {
-- 
2.43.0


From de90f7ccbf8fac97e4265deeb83c0f46708bdada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:28 +0000
Subject: [PATCH 064/132] fix: records which cannot be read were left out of
 the metadata without notice

---
 pkg/extension/NNNN-filesystem.go | 9 +++++++--
 pkg/extension/NNNN-migration.go  | 6 ++++--
 pkg/extension/NNNN-thumbnail.go  | 6 ++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index 330b4c5..d3aa622 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -216,8 +216,10 @@ func (extFS *Filesystem) GetMetadata(object ocfl.Object) (map[string]any, error)
 		} else {
 			data, err = ocfl.ReadJsonL(object, "filesystem", v, extFS.FilesystemConfig.Compress, extFS.StorageType, extFS.StorageName, extFS.fsys)
 			if err != nil {
-				continue
-				// return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
+				if errors.Is(err, fs.ErrNotExist) {
+					continue
+				}
+				return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
 			}
 		}
 
@@ -234,6 +236,9 @@ func (extFS *Filesystem) GetMetadata(object ocfl.Object) (map[string]any, error)
 			}
 			lines = append(lines, meta)
 		}
+		if err := r.Err(); err != nil {
+			return nil, errors.Wrapf(err, "cannot scan lines for '%s' %s", object.GetID(), v)
+		}
 		if err := inventory.IterateStateFiles(v, func(internals, externals []string, digest string) error {
 			for _, line := range lines {
 				if slices.Contains(externals, line.Path) {
diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index 68ad119..a45770a 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -430,8 +430,10 @@ func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
 		} else {
 			data, err = ocfl.ReadJsonL(object, "migration", v, mi.MigrationConfig.Compress, mi.StorageType, mi.StorageName, mi.fsys)
 			if err != nil {
-				continue
-				// return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
+				if errors.Is(err, fs.ErrNotExist) {
+					continue
+				}
+				return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
 			}
 		}
 
diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index 875ff43..6bf4bc7 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -441,8 +441,10 @@ func (thumb *Thumbnail) GetMetadata(object ocfl.Object) (map[string]any, error)
 		} else {
 			data, err = ocfl.ReadJsonL(object, "thumbnail", v, thumb.ThumbnailConfig.Compress, thumb.StorageType, thumb.StorageName, thumb.fsys)
 			if err != nil {
-				continue
-				// return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
+				if errors.Is(err, fs.ErrNotExist) {
+					continue
+				}
+				return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
 			}
 		}
 
-- 
2.43.0


From 702bb0a3efe6df2dd6be2dca43312064413f5e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 065/132] fix: records stored under a mapped name could not be
 found again

---
 pkg/ocfl/helper.go | 48 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 17e6593..dff5313 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -373,24 +373,45 @@ func CleanPath(fname string, MaxFilenameLength, MaxPathnameLength int) (string,
 	return fname, nil
 }
 
+// findStateFile returns where the content of a file of a version is stored. The name of
+// the content is not the name of the file.
+func findStateFile(object Object, path, area, version string) (string, error) {
+	statePath, err := object.GetExtensionManager().BuildObjectStatePath(object, path, area)
+	if err != nil {
+		return "", errors.Wrapf(err, "cannot map external path '%s'", path)
+	}
+	var internal string
+	if err := object.GetInventory().IterateStateFiles(version, func(internals, externals []string, digest string) error {
+		if slices.Contains(externals, statePath) {
+			internal = internals[0]
+		}
+		return nil
+	}); err != nil {
+		return "", errors.Wrapf(err, "cannot iterate files of version '%s'", version)
+	}
+	if internal == "" {
+		return "", errors.Wrapf(fs.ErrNotExist, "no file '%s' in version '%s'", statePath, version)
+	}
+	return internal, nil
+}
+
 func ReadFile(object Object, name, version, storageType, storageName string, fsys fs.FS) ([]byte, error) {
 	var targetname string
 	switch storageType {
 	case "area":
-		path, err := object.GetAreaPath(storageName)
-		if err != nil {
-			return nil, errors.Wrapf(err, "cannot get area path for '%s'", storageName)
+		var err error
+		if targetname, err = findStateFile(object, strings.TrimLeft(name, "/"), storageName, version); err != nil {
+			return nil, errors.WithStack(err)
 		}
-		targetname = object.GetInventory().BuildManifestNameVersion(fmt.Sprintf("%s/%s", path, name), version)
-		//targetname = fmt.Sprintf("%s/content/%s/indexer_%s.jsonl%s", version, path, version, ext)
 		fsys = object.GetFS()
 	case "path":
 		path, err := object.GetAreaPath("content")
 		if err != nil {
 			return nil, errors.Wrapf(err, "cannot get area path for '%s'", "content")
 		}
-		targetname = object.GetInventory().BuildManifestNameVersion(strings.TrimLeft(filepath.ToSlash(filepath.Join(path, storageName, name)), "/"), version)
-		//targetname = fmt.Sprintf("%s/content/%s/indexer_%s.jsonl%s", v, sl.IndexerConfig.StorageName, v, ext)
+		if targetname, err = findStateFile(object, strings.TrimLeft(filepath.ToSlash(filepath.Join(path, storageName, name)), "/"), "full", version); err != nil {
+			return nil, errors.WithStack(err)
+		}
 		fsys = object.GetFS()
 	case "extension":
 		targetname = strings.TrimLeft(fmt.Sprintf("%s/%s", storageName, name), "/")
@@ -418,20 +439,19 @@ func ReadJsonL(object Object, name, version, compress, storageType, storageName
 	var targetname string
 	switch storageType {
 	case "area":
-		path, err := object.GetAreaPath(storageName)
-		if err != nil {
-			return nil, errors.Wrapf(err, "cannot get area path for '%s'", storageName)
+		var err error
+		if targetname, err = findStateFile(object, fmt.Sprintf("%s_%s.jsonl%s", name, version, ext), storageName, version); err != nil {
+			return nil, errors.WithStack(err)
 		}
-		targetname = object.GetInventory().BuildManifestNameVersion(fmt.Sprintf("%s/%s_%s.jsonl%s", path, name, version, ext), version)
-		//targetname = fmt.Sprintf("%s/content/%s/indexer_%s.jsonl%s", version, path, version, ext)
 		fsys = object.GetFS()
 	case "path":
 		path, err := object.GetAreaPath("content")
 		if err != nil {
 			return nil, errors.Wrapf(err, "cannot get area path for '%s'", "content")
 		}
-		targetname = object.GetInventory().BuildManifestNameVersion(strings.TrimLeft(filepath.ToSlash(filepath.Join(path, storageName, fmt.Sprintf("%s_%s.jsonl%s", name, version, ext))), "/"), version)
-		//targetname = fmt.Sprintf("%s/content/%s/indexer_%s.jsonl%s", v, sl.IndexerConfig.StorageName, v, ext)
+		if targetname, err = findStateFile(object, strings.TrimLeft(filepath.ToSlash(filepath.Join(path, storageName, fmt.Sprintf("%s_%s.jsonl%s", name, version, ext))), "/"), "full", version); err != nil {
+			return nil, errors.WithStack(err)
+		}
 		fsys = object.GetFS()
 	case "extension":
 		targetname = strings.TrimLeft(fmt.Sprintf("%s/%s_%s.jsonl%s", storageName, name, version, ext), "/")
-- 
2.43.0


From 861aa37c6da5034527a9bb36fdeb5c0459457d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:19 +0000
Subject: [PATCH 066/132] fix: parallel work mixed up the folders of objects of
 hashed layouts

---
 pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go | 9 +++++++--
 pkg/extension/0004-hashed-n-tuple-storage-layout.go      | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index a8e196e..f6fd54b 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"io/fs"
 	"strings"
+	"sync"
 )
 
 const StorageLayoutHashAndIdNTupleName = "0003-hash-and-id-n-tuple-storage-layout"
@@ -68,8 +69,9 @@ type StorageLayoutHashAndIdNTupleConfig struct {
 
 type StorageLayoutHashAndIdNTuple struct {
 	*StorageLayoutHashAndIdNTupleConfig
-	hash hash.Hash
-	fsys fs.FS
+	hash      hash.Hash
+	hashMutex sync.Mutex
+	fsys      fs.FS
 }
 
 func (sl *StorageLayoutHashAndIdNTuple) Terminate() error {
@@ -143,6 +145,9 @@ func escape(str string) string {
 
 func (sl *StorageLayoutHashAndIdNTuple) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
 	path := escape(id)
+	// internal mutex for reusing the hash object
+	sl.hashMutex.Lock()
+	defer sl.hashMutex.Unlock()
 	sl.hash.Reset()
 	if _, err := sl.hash.Write([]byte(id)); err != nil {
 		return "", errors.Wrapf(err, "cannot hash %s", id)
diff --git a/pkg/extension/0004-hashed-n-tuple-storage-layout.go b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
index 8aa09a2..8e85896 100644
--- a/pkg/extension/0004-hashed-n-tuple-storage-layout.go
+++ b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"io/fs"
 	"strings"
+	"sync"
 )
 
 const StorageLayoutHashedNTupleName = "0004-hashed-n-tuple-storage-layout"
@@ -69,8 +70,9 @@ type StorageLayoutHashedNTupleConfig struct {
 
 type StorageLayoutHashedNTuple struct {
 	*StorageLayoutHashedNTupleConfig
-	hash hash.Hash
-	fsys fs.FS
+	hash      hash.Hash
+	hashMutex sync.Mutex
+	fsys      fs.FS
 }
 
 func (sl *StorageLayoutHashedNTuple) Terminate() error {
@@ -120,6 +122,9 @@ func (sl *StorageLayoutHashedNTuple) WriteConfig() error {
 }
 
 func (sl *StorageLayoutHashedNTuple) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
+	// internal mutex for reusing the hash object
+	sl.hashMutex.Lock()
+	defer sl.hashMutex.Unlock()
 	sl.hash.Reset()
 	if _, err := sl.hash.Write([]byte(id)); err != nil {
 		return "", errors.Wrapf(err, "cannot hash %s", id)
-- 
2.43.0


From 1946a786907e77690566b46dab141d080498bafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:19 +0000
Subject: [PATCH 067/132] fix: findings of parallel validations got lost

---
 pkg/ocfl/validationerror.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/ocfl/validationerror.go b/pkg/ocfl/validationerror.go
index 492e269..dae1492 100644
--- a/pkg/ocfl/validationerror.go
+++ b/pkg/ocfl/validationerror.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"golang.org/x/exp/slices"
 	"strings"
+	"sync"
 )
 
 type ValidationErrorCode string
@@ -152,6 +153,7 @@ type ValidationError struct {
 
 type ValidationStatus struct {
 	Errors []*ValidationError
+	mutex  sync.Mutex
 }
 
 func validationSort(E1, E2 *ValidationError) int {
@@ -165,6 +167,8 @@ func validationSort(E1, E2 *ValidationError) int {
 
 // removes duplicate errors
 func (status *ValidationStatus) Compact() {
+	status.mutex.Lock()
+	defer status.mutex.Unlock()
 	slices.SortFunc(status.Errors, validationSort)
 	status.Errors = slices.CompactFunc(status.Errors, func(E1, E2 *ValidationError) bool {
 		return E1.Context == E2.Context && E1.Code == E2.Code && E1.Description2 == E2.Description2
@@ -204,6 +208,8 @@ func addValidationErrors(ctx context.Context, vErrs ...*ValidationError) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot add validation error")
 	}
+	status.mutex.Lock()
+	defer status.mutex.Unlock()
 	status.Errors = append(status.Errors, vErrs...)
 	return nil
 }
@@ -214,6 +220,8 @@ func addValidationWarnings(ctx context.Context, vWarns ...*ValidationError) erro
 		return errors.Wrap(err, "cannot add validation error")
 	}
 	//	status.Warnings = append(status.Warnings, vWarns...)
+	status.mutex.Lock()
+	defer status.mutex.Unlock()
 	status.Errors = append(status.Errors, vWarns...)
 	return nil
 }
-- 
2.43.0


From 49a0a0b8dc4c24eb0fea202b72a4599313eefd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:20 +0000
Subject: [PATCH 068/132] fix: findings were not sorted and duplicates not
 removed reliably

---
 pkg/ocfl/validationerror.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/validationerror.go b/pkg/ocfl/validationerror.go
index dae1492..4c84a2c 100644
--- a/pkg/ocfl/validationerror.go
+++ b/pkg/ocfl/validationerror.go
@@ -160,7 +160,10 @@ func validationSort(E1, E2 *ValidationError) int {
 	sr1 := strings.HasPrefix(E1.Context, "storage root")
 	sr2 := strings.HasPrefix(E2.Context, "storage root")
 	if sr1 != sr2 {
-		return -1 // sr1 && !sr2
+		if sr1 {
+			return -1
+		}
+		return 1
 	}
 	return cmp.Compare(E1.Context+string(E1.Code)+E1.Description2, E2.Context+string(E2.Code)+E2.Description2)
 }
-- 
2.43.0


From 88ce619efac269b72a584fb0b20b75b3492c4c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 069/132] fix: updating an object whose head is not its newest
 version overwrote that version or crashed

---
 pkg/ocfl/inventorybase.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index ddde01c..78d640a 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -829,6 +829,15 @@ func (i *InventoryBase) NewVersion(msg, UserName, UserAddress string) error {
 			i.Head.string = fmt.Sprintf(fmt.Sprintf("v0%%0%dd", i.paddingLength), v+1)
 		}
 	}
+	if last := i.Versions.Versions[lastHead]; lastHead != "" && (last == nil || last.State == nil) {
+		i.Head.string = lastHead
+		return errors.Errorf("no state of version '%s' in inventory", lastHead)
+	}
+	if _, ok := i.Versions.Versions[i.Head.string]; ok {
+		newHead := i.Head.string
+		i.Head.string = lastHead
+		return errors.Errorf("head of inventory is '%s' but there is a version '%s' already", lastHead, newHead)
+	}
 	i.Versions.Versions[i.Head.string] = &Version{
 		Created: &OCFLTime{time.Now(), nil},
 		Message: NewOCFLString(msg),
-- 
2.43.0


From 8808bafdd256f4382a1e57ee064f625148c64047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:01 +0000
Subject: [PATCH 070/132] fix: a new version changed the creation times of
 older versions which have fractions of seconds

---
 pkg/ocfl/inventorybase.go  | 2 +-
 pkg/ocfl/inventorytypes.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 78d640a..b7ca2c3 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -839,7 +839,7 @@ func (i *InventoryBase) NewVersion(msg, UserName, UserAddress string) error {
 		return errors.Errorf("head of inventory is '%s' but there is a version '%s' already", lastHead, newHead)
 	}
 	i.Versions.Versions[i.Head.string] = &Version{
-		Created: &OCFLTime{time.Now(), nil},
+		Created: &OCFLTime{time.Now().Truncate(time.Second), nil},
 		Message: NewOCFLString(msg),
 		State:   &OCFLState{State: map[string][]string{}},
 		User:    NewOCFLUser(UserName, UserAddress),
diff --git a/pkg/ocfl/inventorytypes.go b/pkg/ocfl/inventorytypes.go
index 49776ea..08ce272 100644
--- a/pkg/ocfl/inventorytypes.go
+++ b/pkg/ocfl/inventorytypes.go
@@ -75,7 +75,7 @@ type OCFLTime struct {
 }
 
 func (t *OCFLTime) MarshalJSON() ([]byte, error) {
-	tstr := t.Format(time.RFC3339)
+	tstr := t.Format(time.RFC3339Nano)
 	return json.Marshal(tstr)
 }
 func (t *OCFLTime) UnmarshalJSON(data []byte) error {
@@ -146,7 +146,7 @@ func (v *Version) EqualMeta(v2 *Version) bool {
 	if v2 == nil {
 		return false
 	}
-	if v.Created.Time.String() != v2.Created.Time.String() ||
+	if !v.Created.Time.Equal(v2.Created.Time) ||
 		v.Message.string != v2.Message.string ||
 		v.User.Name.string != v2.User.Name.string ||
 		v.User.Address.string != v2.User.Address.string {
-- 
2.43.0


From a88e6789837b2e6ff2c481157233283cd5f47eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:01 +0000
Subject: [PATCH 071/132] fix: a new version gave older versions without
 message or user an empty message and an invalid user

---
 pkg/ocfl/inventorybase.go  |  1 +
 pkg/ocfl/inventorytypes.go | 26 ++++++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index b7ca2c3..eaddd64 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -150,6 +150,7 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 		if version.Message == nil {
 			i.addValidationWarning(W007, "no message key in version '%s'", ver)
 			version.Message = NewOCFLString("")
+			version.noMessage = true
 		}
 		if version.Created == nil {
 			i.addValidationError(E048, "no created key in version '%s'", ver)
diff --git a/pkg/ocfl/inventorytypes.go b/pkg/ocfl/inventorytypes.go
index 08ce272..dad1011 100644
--- a/pkg/ocfl/inventorytypes.go
+++ b/pkg/ocfl/inventorytypes.go
@@ -140,6 +140,32 @@ type Version struct {
 	Message *OCFLString `json:"message"`
 	State   *OCFLState  `json:"state"`
 	User    *OCFLUser   `json:"user"`
+
+	noMessage bool
+}
+
+// MarshalJSON leaves out what the version does not have
+func (v *Version) MarshalJSON() ([]byte, error) {
+	type address struct {
+		Address *OCFLString `json:"address,omitempty"`
+		Name    *OCFLString `json:"name"`
+	}
+	var result = struct {
+		Created *OCFLTime   `json:"created"`
+		Message *OCFLString `json:"message,omitempty"`
+		State   *OCFLState  `json:"state"`
+		User    *address    `json:"user,omitempty"`
+	}{Created: v.Created, State: v.State}
+	if !v.noMessage {
+		result.Message = v.Message
+	}
+	if v.User != nil && (v.User.Name.string != "" || v.User.Address.string != "") {
+		result.User = &address{Name: v.User.Name}
+		if v.User.Address.string != "" {
+			result.User.Address = v.User.Address
+		}
+	}
+	return json.Marshal(result)
 }
 
 func (v *Version) EqualMeta(v2 *Version) bool {
-- 
2.43.0


From 4f6ef83f2636f41b86aa67e036d9467e80acd68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:01 +0000
Subject: [PATCH 072/132] fix: content of objects with digests in upper case
 could not be extracted, updated or deduplicated

---
 pkg/ocfl/inventorybase.go  |  9 +++++++++
 pkg/ocfl/inventorytypes.go | 13 +++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index eaddd64..7df6a44 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -180,10 +180,19 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 		if err := i.check(); err != nil {
 			return errors.WithStack(err)
 		}
+		i.normalizeDigests()
 	}
 	return nil
 }
 
+// normalizeDigests makes the digests of manifest and states lower case. They are case-insensitive.
+func (i *InventoryBase) normalizeDigests() {
+	i.Manifest.Manifest = lowerDigests(i.Manifest.Manifest)
+	for _, version := range i.Versions.Versions {
+		version.State.State = lowerDigests(version.State.State)
+	}
+}
+
 func (i *InventoryBase) addValidationError(errno ValidationErrorCode, format string, a ...any) {
 	err := GetValidationError(i.object.GetVersion(), errno).AppendDescription(format, a...).AppendDescription("(%s/inventory.json)", i.folder).AppendContext("object '%s' - '%s'", i.object.GetFS(), i.GetID())
 	_ = addValidationErrors(i.ctx, err)
diff --git a/pkg/ocfl/inventorytypes.go b/pkg/ocfl/inventorytypes.go
index dad1011..c0b201d 100644
--- a/pkg/ocfl/inventorytypes.go
+++ b/pkg/ocfl/inventorytypes.go
@@ -225,6 +225,19 @@ func (v *Version) EqualFiles(v2 *Version) bool {
 	return true
 }
 
+// lowerDigests returns the mapping with digests in lower case unless a digest has more than one spelling
+func lowerDigests(m map[string][]string) map[string][]string {
+	result := make(map[string][]string, len(m))
+	for digest, paths := range m {
+		lower := strings.ToLower(digest)
+		if _, ok := result[lower]; ok {
+			return m
+		}
+		result[lower] = paths
+	}
+	return result
+}
+
 // equalPaths compares two mappings of digests to paths. Neither the order of the paths nor
 // the case of the digests is relevant
 func equalPaths(m1, m2 map[string][]string) bool {
-- 
2.43.0


From 2257e1df7d99da01266a5bc638511ff0e0586b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:49 +0000
Subject: [PATCH 073/132] fix: objects with a fixity algorithm which cannot be
 calculated were opened without their versions; fixity of the root inventory
 alone failed

---
 pkg/ocfl/fixity.go        | 15 +++++++++++++++
 pkg/ocfl/inventorybase.go | 27 +++++++++++++++++++--------
 pkg/ocfl/objectbase.go    |  9 +++++++--
 3 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/pkg/ocfl/fixity.go b/pkg/ocfl/fixity.go
index e1ee07f..e72f8ac 100644
--- a/pkg/ocfl/fixity.go
+++ b/pkg/ocfl/fixity.go
@@ -1,11 +1,26 @@
 package ocfl
 
 import (
+	"emperror.dev/errors"
+	"encoding/json"
 	"github.com/je4/utils/v2/pkg/checksum"
 )
 
 type Fixity map[checksum.DigestAlgorithm]map[string][]string
 
+// UnmarshalJSON accepts digest algorithms which cannot be calculated
+func (f *Fixity) UnmarshalJSON(data []byte) error {
+	fixity := map[string]map[string][]string{}
+	if err := json.Unmarshal(data, &fixity); err != nil {
+		return errors.Wrapf(err, "cannot unmarshal fixity '%s'", string(data))
+	}
+	*f = Fixity{}
+	for alg, digests := range fixity {
+		(*f)[checksum.DigestAlgorithm(alg)] = digests
+	}
+	return nil
+}
+
 func (f Fixity) Checksums(filename string) map[checksum.DigestAlgorithm]string {
 	result := map[checksum.DigestAlgorithm]string{}
 	for da, dfs := range f {
diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 7df6a44..2187a44 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -26,14 +26,14 @@ type InventoryBase struct {
 	paddingLength          int
 	versionValue           map[string]uint
 	fixityDigestAlgorithms []checksum.DigestAlgorithm
-	Id                     string                                           `json:"id"`
-	Type                   InventorySpec                                    `json:"type"`
-	DigestAlgorithm        checksum.DigestAlgorithm                         `json:"digestAlgorithm"`
-	Head                   *OCFLString                                      `json:"head"`
-	ContentDirectory       string                                           `json:"contentDirectory,omitempty"`
-	Manifest               *OCFLManifest                                    `json:"manifest,omitempty"`
-	Versions               *OCFLVersions                                    `json:"versions"`
-	Fixity                 map[checksum.DigestAlgorithm]map[string][]string `json:"fixity,omitempty"`
+	Id                     string                   `json:"id"`
+	Type                   InventorySpec            `json:"type"`
+	DigestAlgorithm        checksum.DigestAlgorithm `json:"digestAlgorithm"`
+	Head                   *OCFLString              `json:"head"`
+	ContentDirectory       string                   `json:"contentDirectory,omitempty"`
+	Manifest               *OCFLManifest            `json:"manifest,omitempty"`
+	Versions               *OCFLVersions            `json:"versions"`
+	Fixity                 Fixity                   `json:"fixity,omitempty"`
 	logger                 zLogger.ZLogger
 }
 
@@ -171,6 +171,13 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 		i.versionValue[ver] = uint(vInt)
 	}
 	for alg := range i.Fixity {
+		if !checksum.HashExists(alg) {
+			// a digest of the standard which is not available here
+			if alg != "sha512/256" {
+				i.addValidationError(E056, "unknown digest algorithm '%s' in fixity", alg)
+			}
+			continue
+		}
 		if !slices.Contains(i.fixityDigestAlgorithms, alg) {
 			i.fixityDigestAlgorithms = append(i.fixityDigestAlgorithms, alg)
 		}
@@ -647,6 +654,10 @@ func (i *InventoryBase) CheckFiles(fileManifest map[checksum.DigestAlgorithm]map
 	}
 	//check fixity
 	for digestAlg, fixity := range i.GetFixity() {
+		if !checksum.HashExists(digestAlg) {
+			i.addValidationWarning(W000, "cannot check fixity with digest algorithm '%s'", digestAlg)
+			continue
+		}
 		csFiles, ok = fileManifest[digestAlg]
 		if !ok {
 			return errors.Errorf("checksum for '%s' not created", digestAlg)
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index ffeeba4..979614e 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -10,6 +10,7 @@ import (
 	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/utils/v2/pkg/checksum"
 	"github.com/je4/utils/v2/pkg/zLogger"
+	"golang.org/x/exp/maps"
 	"golang.org/x/exp/slices"
 	"io"
 	"io/fs"
@@ -1610,8 +1611,12 @@ func (object *ObjectBase) getAllDigests() ([]checksum.DigestAlgorithm, error) {
 	allDigestAlgs := []checksum.DigestAlgorithm{object.i.GetDigestAlgorithm()}
 	for _, vi := range versionInventories {
 		allDigestAlgs = append(allDigestAlgs, vi.GetDigestAlgorithm())
-		for digestAlg, _ := range vi.GetFixity() {
-			allDigestAlgs = append(allDigestAlgs, digestAlg)
+	}
+	for _, inv := range append([]Inventory{object.i}, maps.Values(versionInventories)...) {
+		for digestAlg := range inv.GetFixity() {
+			if checksum.HashExists(digestAlg) {
+				allDigestAlgs = append(allDigestAlgs, digestAlg)
+			}
 		}
 	}
 	slices.Sort(allDigestAlgs)
-- 
2.43.0


From 2ce0aa646361e5265c9ac128540e44ab8d56f84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:49 +0000
Subject: [PATCH 074/132] fix: objects without extensions folder could not be
 opened

---
 pkg/ocfl/helper.go          | 26 ++++++++++++++++++++++++++
 pkg/ocfl/objectbase.go      |  4 ++--
 pkg/ocfl/storagerootbase.go |  4 ++--
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index dff5313..47224f4 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -373,6 +373,32 @@ func CleanPath(fname string, MaxFilenameLength, MaxPathnameLength int) (string,
 	return fname, nil
 }
 
+// noFS is a folder without content
+type noFS struct{}
+
+func (noFS) Open(name string) (fs.File, error) {
+	return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
+}
+
+func (n noFS) ReadDir(name string) ([]fs.DirEntry, error) {
+	if name == "." {
+		return nil, nil
+	}
+	return nil, &fs.PathError{Op: "readdir", Path: name, Err: fs.ErrNotExist}
+}
+
+// subExtensions returns the extensions folder of an object. There may be none.
+func subExtensions(fsys fs.FS) (fs.FS, error) {
+	sub, err := fs.Sub(fsys, "extensions")
+	if err != nil {
+		if errors.Is(err, fs.ErrNotExist) {
+			return noFS{}, nil
+		}
+		return nil, errors.Wrapf(err, "cannot create subfs of '%v' for '%s'", fsys, "extensions")
+	}
+	return sub, nil
+}
+
 // findStateFile returns where the content of a file of a version is stored. The name of
 // the content is not the name of the file.
 func findStateFile(object Object, path, area, version string) (string, error) {
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 979614e..14c9798 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -497,9 +497,9 @@ func (object *ObjectBase) Init(id string, digest checksum.DigestAlgorithm, fixit
 }
 
 func (object *ObjectBase) Load() (err error) {
-	extFolder, err := fs.Sub(object.fsys, "extensions")
+	extFolder, err := subExtensions(object.fsys)
 	if err != nil {
-		return errors.Wrapf(err, "cannot create subfs of %v for folder '%s'", object.fsys, "extensions")
+		return errors.WithStack(err)
 	}
 	manager, err := object.storageRoot.CreateExtensions(extFolder, object)
 	if err != nil {
diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index e30116e..6674b03 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -370,9 +370,9 @@ func (osr *StorageRootBase) LoadObjectByFolder(folder string) (Object, error) {
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create subfs of '%v' for '%s'", osr.fsys, folder)
 	}
-	extFSys, err := fs.Sub(subfs, "extensions")
+	extFSys, err := subExtensions(subfs)
 	if err != nil {
-		return nil, errors.Wrapf(err, "cannot create subfs of '%v' for '%s'", subfs, "extensions")
+		return nil, errors.WithStack(err)
 	}
 	extensionManager, err := osr.extensionFactory.CreateExtensions(extFSys, osr)
 	//	extensionManager.SetFS(extFSys)
-- 
2.43.0


From f8513682149b8dd807834fcde6998326b8734f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:10 +0000
Subject: [PATCH 075/132] fix: metadata lacked fixity digests which are not
 recorded for the first of several equal files

---
 pkg/ocfl/objectbase.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 14c9798..6a23e41 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -139,7 +139,11 @@ func (object *ObjectBase) GetMetadata() (*ObjectMetadata, error) {
 			VersionName:  map[string][]string{},
 			Extension:    map[string]any{},
 		}
-		fm.Checksums = fixity.Checksums(fnames[0])
+		for _, fname := range fnames {
+			for alg, cs := range fixity.Checksums(fname) {
+				fm.Checksums[alg] = cs
+			}
+		}
 		for v, version := range versions {
 			for d, fnames := range version.State.State {
 				if digest == d {
-- 
2.43.0


From 5584597e2ee388160b3b8b10eaec155ea7aa2b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 076/132] fix: inventory digest in upper case was reported as
 wrong

---
 pkg/ocfl/objectbase.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 6a23e41..0759e0f 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -337,7 +337,8 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 			h.Write(inventoryBytes)
 			sumBytes := h.Sum(nil)
 			inventoryDigestString := fmt.Sprintf("%x", sumBytes)
-			if digestString != inventoryDigestString {
+			// digests are case-insensitive
+			if !strings.EqualFold(digestString, inventoryDigestString) {
 				sidecarErr = errors.Errorf("digest of '%v/%s' does not match its sidecar", object.fsys, filename)
 				object.addValidationError(E060, "'%s' != '%s'", digestString, inventoryDigestString)
 			}
-- 
2.43.0


From 0a780c0639c7bbd12d0c5db3b72b02f78fb0b1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 077/132] fix: files beside the content folder were taken as
 content if their name starts with its name

---
 pkg/ocfl/objectbase.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 0759e0f..159ec4a 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1249,12 +1249,12 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 				}
 				path = filepath.ToSlash(path)
 				if d.IsDir() {
-					if !strings.HasPrefix(path, versionContent) && path != ver && !strings.HasPrefix(ver+"/"+object.i.GetContentDir(), path) {
+					if path != versionContent && !strings.HasPrefix(path, versionContent+"/") && path != ver {
 						object.addValidationWarning(W002, "extra dir '%s' in version '%s'", path, ver)
 					}
 				} else {
 					objectFilesFlat = append(objectFilesFlat, path)
-					if strings.HasPrefix(path, versionContent) {
+					if strings.HasPrefix(path, versionContent+"/") {
 						objectContentFiles[ver] = append(objectContentFiles[ver], path)
 						objectContentFilesFlat = append(objectContentFilesFlat, path)
 					} else {
-- 
2.43.0


From a7f7f894f5d204705f58bcdc4ac17257136840b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 078/132] fix: fixity digests in upper case were recorded twice
 by a new version

---
 pkg/ocfl/inventorybase.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 2187a44..d083350 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -192,12 +192,15 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 	return nil
 }
 
-// normalizeDigests makes the digests of manifest and states lower case. They are case-insensitive.
+// normalizeDigests makes the digests of manifest, states and fixity lower case. They are case-insensitive.
 func (i *InventoryBase) normalizeDigests() {
 	i.Manifest.Manifest = lowerDigests(i.Manifest.Manifest)
 	for _, version := range i.Versions.Versions {
 		version.State.State = lowerDigests(version.State.State)
 	}
+	for alg, digests := range i.Fixity {
+		i.Fixity[alg] = lowerDigests(digests)
+	}
 }
 
 func (i *InventoryBase) addValidationError(errno ValidationErrorCode, format string, a ...any) {
-- 
2.43.0


From 68c228fab682c96e79db198fdd8914536f1ea082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 079/132] fix: version number with more digits than the zero
 padding of the object allows was used

---
 pkg/ocfl/inventorybase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index d083350..3592cb6 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -850,6 +850,9 @@ func (i *InventoryBase) NewVersion(msg, UserName, UserAddress string) error {
 		if i.paddingLength <= 0 {
 			i.Head.string = fmt.Sprintf("v%d", v+1)
 		} else {
+			if len(strconv.Itoa(v+1)) > i.paddingLength {
+				return errors.Errorf("no version after '%s' is possible with its zero padding", lastHead)
+			}
 			i.Head.string = fmt.Sprintf(fmt.Sprintf("v0%%0%dd", i.paddingLength), v+1)
 		}
 	}
-- 
2.43.0


From f431e6d6b98a7eba7d603bb08b7c627881ae80f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:26 +0000
Subject: [PATCH 080/132] fix: validation ended at the first object which
 cannot be checked

---
 pkg/ocfl/storagerootbase.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 6674b03..3c12241 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -582,12 +582,14 @@ func (osr *StorageRootBase) CheckObjects() error {
 	if err != nil {
 		return errors.Wrapf(err, "cannot get object folders")
 	}
+	// an object which cannot be checked must not prevent the check of the others
+	var errs = []error{}
 	for _, objectFolder := range objectFolders {
 		if err := osr.CheckObjectByFolder(objectFolder); err != nil {
-			return errors.WithStack(err)
+			errs = append(errs, errors.WithStack(err))
 		}
 	}
-	return nil
+	return errors.Combine(errs...)
 }
 
 func (osr *StorageRootBase) Stat(w io.Writer, path string, id string, statInfo []StatInfo) error {
-- 
2.43.0


From ebe41cd4e178b137bb9856e19d0ee6b40f6371ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:26 +0000
Subject: [PATCH 081/132] fix: creation times which are not conformant to RFC
 3339 were not reported

---
 pkg/ocfl/inventorytypes.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/ocfl/inventorytypes.go b/pkg/ocfl/inventorytypes.go
index c0b201d..a100145 100644
--- a/pkg/ocfl/inventorytypes.go
+++ b/pkg/ocfl/inventorytypes.go
@@ -4,6 +4,7 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"golang.org/x/exp/slices"
+	"regexp"
 	"strings"
 	"time"
 )
@@ -69,6 +70,9 @@ func (s *OCFLString) String() string {
 	return s.string
 }
 
+// time.Parse accepts more than RFC 3339 allows
+var rfc3339Regexp = regexp.MustCompile(`^\d{4}-\d{2}-\d{2}[Tt]\d{2}:\d{2}:\d{2}(\.\d+)?([Zz]|[+-]([01]\d|2[0-3]):[0-5]\d)$`)
+
 type OCFLTime struct {
 	time.Time
 	err error
@@ -85,6 +89,9 @@ func (t *OCFLTime) UnmarshalJSON(data []byte) error {
 		return nil
 	}
 	tt, err := time.Parse(time.RFC3339, str)
+	if err == nil && !rfc3339Regexp.MatchString(str) {
+		err = errors.New("not conformant to RFC 3339")
+	}
 	if err != nil {
 		t.err = errors.Wrapf(err, "cannot parse time %s", string(data))
 		return nil
-- 
2.43.0


From 22017fc0f1b2ff58c667ee8bc5f522963a7849ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:26 +0000
Subject: [PATCH 082/132] fix: user without name was not reported

---
 pkg/ocfl/inventorytypes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/inventorytypes.go b/pkg/ocfl/inventorytypes.go
index a100145..9a7284e 100644
--- a/pkg/ocfl/inventorytypes.go
+++ b/pkg/ocfl/inventorytypes.go
@@ -129,6 +129,9 @@ func (u *OCFLUser) UnmarshalJSON(data []byte) error {
 	}
 	u.User.Address = tu.Address
 	u.User.Name = tu.Name
+	if tu.Name == nil {
+		u.err = errors.Errorf("no name in user '%s'", string(data))
+	}
 
 	return nil
 }
-- 
2.43.0


From 872fac6ef746e5b174e14c88f660964d412fed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:26 +0000
Subject: [PATCH 083/132] fix: files in the extensions folder of an object were
 not reported

---
 pkg/ocfl/objectbase.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 159ec4a..01020a4 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1475,6 +1475,17 @@ func (object *ObjectBase) Check() error {
 	}
 	for _, entry := range entries {
 		if entry.IsDir() {
+			if entry.Name() == "extensions" {
+				extEntries, err := fs.ReadDir(object.fsys, entry.Name())
+				if err != nil {
+					return errors.Wrap(err, "cannot read extensions folder")
+				}
+				for _, extEntry := range extEntries {
+					if !extEntry.IsDir() {
+						object.addValidationError(E067, "file '%s' in extensions folder", extEntry.Name())
+					}
+				}
+			}
 			if !slices.Contains(allowedDirs, entry.Name()) {
 				object.addValidationError(E001, "invalid directory '%s' found", entry.Name())
 				// could it be a version folder?
-- 
2.43.0


From d46dda4641a5d0d6f7ead3a1dd310d1f8a111803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:26 +0000
Subject: [PATCH 084/132] fix: empty folders in the content of an object were
 not reported

---
 pkg/ocfl/objectbase.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 01020a4..30addc8 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1252,6 +1252,15 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 					if path != versionContent && !strings.HasPrefix(path, versionContent+"/") && path != ver {
 						object.addValidationWarning(W002, "extra dir '%s' in version '%s'", path, ver)
 					}
+					if strings.HasPrefix(path, versionContent+"/") {
+						entries, err := fs.ReadDir(object.fsys, path)
+						if err != nil {
+							return errors.Wrapf(err, "cannot read '%v/%s'", object.fsys, path)
+						}
+						if len(entries) == 0 {
+							object.addValidationError(E024, "empty dir '%s' in version '%s'", path, ver)
+						}
+					}
 				} else {
 					objectFilesFlat = append(objectFilesFlat, path)
 					if strings.HasPrefix(path, versionContent+"/") {
-- 
2.43.0


From da864e3aa626869f77c79348f92e5789d4e51c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:26 +0000
Subject: [PATCH 085/132] fix: content outside the content directory was not
 reported

---
 pkg/ocfl/inventorybase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 3592cb6..99b23c3 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -420,6 +420,9 @@ func (i *InventoryBase) checkManifest() error {
 					i.addValidationError(E099, "invalid path '%s' in manifest", path)
 				}
 			}
+			if len(elements) > 2 && elements[1] != i.GetContentDir() {
+				i.addValidationError(E016, "path '%s' in manifest is not in content directory '%s'", path, i.GetContentDir())
+			}
 
 		}
 
-- 
2.43.0


From 335dc663f2809a4dd34ba0c33585fbfcfbcb357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:26 +0000
Subject: [PATCH 086/132] fix: unknown keys of an inventory were not reported

---
 pkg/ocfl/objectbase.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 30addc8..78125b5 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -283,6 +283,9 @@ func (object *ObjectBase) loadInventory(data []byte, folder string) (Inventory,
 		}
 		//return nil, errors.Wrapf(err, "cannot marshal data - '%s'", string(data))
 	}
+	for _, key := range unknownInventoryKeys(anyMap) {
+		addValidationErrors(object.ctx, GetValidationError(version, E102).AppendDescription("unknown key '%s' (%s/inventory.json)", key, folder).AppendContext("object '%v'", object.fsys))
+	}
 	// a new inventory has a default digest algorithm
 	if anyMap["digestAlgorithm"] == nil {
 		addValidationErrors(object.ctx, GetValidationError(version, E036).AppendDescription("no field \"digestAlgorithm\" (%s/inventory.json)", folder).AppendContext("object '%v'", object.fsys))
@@ -294,6 +297,28 @@ func (object *ObjectBase) loadInventory(data []byte, folder string) (Inventory,
 var inventorySideCarFormat = regexp.MustCompile(`^([a-fA-F0-9]+)\s+inventory\.json$`)
 
 // loadInventory loads inventory from existing Object
+// unknownInventoryKeys returns the keys of inventory, versions and users which are not specified
+func unknownInventoryKeys(inventory map[string]any) []string {
+	var result = []string{}
+	var unknown = func(m map[string]any, prefix string, known ...string) {
+		for key := range m {
+			if !slices.Contains(known, key) {
+				result = append(result, prefix+key)
+			}
+		}
+	}
+	unknown(inventory, "", "id", "type", "digestAlgorithm", "head", "contentDirectory", "manifest", "versions", "fixity")
+	versions, _ := inventory["versions"].(map[string]any)
+	for ver, v := range versions {
+		version, _ := v.(map[string]any)
+		unknown(version, ver+".", "created", "state", "message", "user")
+		user, _ := version["user"].(map[string]any)
+		unknown(user, ver+".user.", "name", "address")
+	}
+	slices.Sort(result)
+	return result
+}
+
 func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 	// load inventory file
 	filename := filepath.ToSlash(filepath.Join(folder, "inventory.json"))
-- 
2.43.0


From 5c2532d40ede0a1afc43017e4f5172d7ce93193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 087/132] fix: inventory type which does not match the
 declaration of the object was not reported; later OCFL version of an object
 did not name it

---
 pkg/ocfl/objectbase.go      | 8 ++++++++
 pkg/ocfl/storagerootbase.go | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 78125b5..a7d5586 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1407,6 +1407,9 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 		if id != verInventory.GetID() {
 			object.addValidationError(E037, "invalid id - root inventory id '%s' != version '%s' inventory id '%s'", id, ver, verInventory.GetID())
 		}
+		if !slices.Contains([]InventorySpec{InventorySpec1_0, InventorySpec1_1}, verInventory.GetSpec()) {
+			object.addValidationError(E038, "unknown type '%s' of inventory in version '%s'", verInventory.GetSpec(), ver)
+		}
 		if verInventory.GetHead() != "" && verInventory.GetHead() != ver {
 			object.addValidationError(E040, "wrong head '%s' in manifest for version '%s'", verInventory.GetHead(), ver)
 		}
@@ -1551,6 +1554,11 @@ func (object *ObjectBase) Check() error {
 		object.addValidationError(E010, "number of versions in inventory (%v) does not fit versions in filesystem (%v)", versionCounter, len(versions))
 	}
 
+	spec, ok := map[OCFLVersion]InventorySpec{Version1_0: InventorySpec1_0, Version1_1: InventorySpec1_1}[object.version]
+	if ok && object.i.GetSpec() != spec {
+		object.addValidationError(E038, "type '%s' of inventory does not match declaration '%s' of object", object.i.GetSpec(), object.version)
+	}
+
 	if err := object.checkFilesAndVersions(); err != nil {
 		return errors.WithStack(err)
 	}
diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 3c12241..27154b4 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -402,7 +402,7 @@ func (osr *StorageRootBase) LoadObjectByFolder(folder string) (Object, error) {
 	}
 	// TODO: check. could not find this rule in standard
 	if versionFloat > rootVersionFloat {
-		if err := osr.addValidationError(E000, "root OCFL version declaration (%s) smaller than highest object version declaration (%s)", osr.version, version); err != nil {
+		if err := osr.addValidationError(E000, "root OCFL version declaration (%s) smaller than version declaration (%s) of object '%s'", osr.version, version, folder); err != nil {
 			return nil, errors.Wrapf(err, "cannot add validation error %s", E000)
 		}
 	}
-- 
2.43.0


From 9f9a2e79cd4771f3d57957240901f9a8c69f5821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 088/132] fix: earlier OCFL version after a version without
 inventory was not reported

---
 pkg/ocfl/objectbase.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index a7d5586..205eea4 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1371,23 +1371,34 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 		}
 	}
 
+	var lastSpec InventorySpec
+	var lastSpecVersion string
+	for _, ver := range append(slices.Clone(versionStrings), ".") {
+		inv, ok := versionInventories[ver]
+		if ver == "." {
+			inv, ok = object.i, true
+		}
+		if !ok {
+			continue
+		}
+		if lastSpec != "" && !SpecIsLessOrEqual(lastSpec, inv.GetSpec()) {
+			object.addValidationError(E103, "spec in version '%s' (%s) greater than spec in version '%s' (%s)", lastSpecVersion, lastSpec, ver, inv.GetSpec())
+		}
+		lastSpec, lastSpecVersion = inv.GetSpec(), ver
+	}
+
 	for key := 0; key < len(versionStrings)-1; key++ {
 		v1 := versionStrings[key]
-		vi1, ok := versionInventories[v1]
-		if !ok {
+		if _, ok := versionInventories[v1]; !ok {
 			object.addValidationWarning(W010, "no inventory for version '%s'", versionStrings[key])
 			continue
 			// return errors.Errorf("no inventory for version '%s'", versionStrings[key])
 		}
 		v2 := versionStrings[key+1]
-		vi2, ok := versionInventories[v2]
-		if !ok {
+		if _, ok := versionInventories[v2]; !ok {
 			object.addValidationWarning(W000, "no inventory for version '%s'", versionStrings[key+1])
 			continue
 		}
-		if !SpecIsLessOrEqual(vi1.GetSpec(), vi2.GetSpec()) {
-			object.addValidationError(E103, "spec in version '%s' (%s) greater than spec in version '%s' (%s)", v1, vi1.GetSpec(), v2, vi2.GetSpec())
-		}
 	}
 
 	if len(versionStrings) > 0 {
-- 
2.43.0


From 359b6b1cb628f3163003f052be73d7e560c5b649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:53 +0000
Subject: [PATCH 089/132] fix: failure to remove an empty folder of a new
 version was not reported

---
 pkg/ocfl/objectbase.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 205eea4..74aed08 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -723,24 +723,32 @@ func (object *ObjectBase) removeUnusedContent() error {
 			return errors.Wrapf(err, "cannot remove '%v/%s'", object.fsys, file)
 		}
 		object.i.forgetContent(file)
-		object.removeEmptyFolders(filepath.ToSlash(filepath.Dir(file)))
+		if err := object.removeEmptyFolders(filepath.ToSlash(filepath.Dir(file))); err != nil {
+			return errors.WithStack(err)
+		}
 	}
 	return nil
 }
 
 // removeEmptyFolders removes a folder of the new version and the folders above it as
 // long as they are empty.
-func (object *ObjectBase) removeEmptyFolders(folder string) {
+func (object *ObjectBase) removeEmptyFolders(folder string) error {
 	for ; folder != object.i.GetHead() && folder != "." && folder != "/"; folder = filepath.ToSlash(filepath.Dir(folder)) {
 		entries, err := fs.ReadDir(object.fsys, folder)
-		if err != nil || len(entries) > 0 {
-			return
+		if errors.Is(err, fs.ErrNotExist) {
+			continue
+		}
+		if err != nil {
+			return errors.Wrapf(err, "cannot read folder '%v/%s'", object.fsys, folder)
+		}
+		if len(entries) > 0 {
+			break
 		}
 		if err := writefs.Remove(object.fsys, folder); err != nil {
-			object.logger.Warn().Err(err).Msgf("cannot remove empty folder '%v/%s'", object.fsys, folder)
-			return
+			return errors.Wrapf(err, "cannot remove empty folder '%v/%s'", object.fsys, folder)
 		}
 	}
+	return nil
 }
 
 func (object *ObjectBase) BeginArea(area string) {
-- 
2.43.0


From 130426d016ec583743dfed214fb3aad42f2191c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:53 +0000
Subject: [PATCH 090/132] fix: manifest which is no JSON object was not
 reported if the object has no content

---
 pkg/ocfl/inventorybase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 99b23c3..a14d295 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -128,6 +128,9 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 		}
 		i.Manifest = &OCFLManifest{Manifest: map[string][]string{}}
 	}
+	if i.Manifest.err != nil {
+		i.addValidationError(E106, "invalid manifest: %v", i.Manifest.err)
+	}
 
 	if i.Versions == nil {
 		if !inCreation {
-- 
2.43.0


From b45a1cdacf7209a878f1aa4e1cc9323f70aeff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:53 +0000
Subject: [PATCH 091/132] fix: older inventory with exchanged files was not
 reported if its digest algorithm differs

---
 pkg/ocfl/inventorytypes.go | 23 +++++++++++++++++++++++
 pkg/ocfl/objectbase.go     |  4 +++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/inventorytypes.go b/pkg/ocfl/inventorytypes.go
index 9a7284e..af95d0a 100644
--- a/pkg/ocfl/inventorytypes.go
+++ b/pkg/ocfl/inventorytypes.go
@@ -235,6 +235,29 @@ func (v *Version) EqualFiles(v2 *Version) bool {
 	return true
 }
 
+// EqualContent compares versions whose digests are not comparable because of different
+// algorithms. Equal logical paths have to refer to the same content files of the manifests
+func (v *Version) EqualContent(v2 *Version, manifest, manifest2 map[string][]string) bool {
+	if !v.EqualFiles(v2) {
+		return false
+	}
+	digests := map[string]string{}
+	for digest, files := range manifest {
+		for _, file := range files {
+			digests[file] = digest
+		}
+	}
+	for digest2, paths := range v2.State.State {
+		for _, file := range manifest2[digest2] {
+			digest, ok := digests[file]
+			if ok && !sliceContains(v.State.State[digest], paths) {
+				return false
+			}
+		}
+	}
+	return true
+}
+
 // lowerDigests returns the mapping with digests in lower case unless a digest has more than one spelling
 func lowerDigests(m map[string][]string) map[string][]string {
 	result := make(map[string][]string, len(m))
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 74aed08..c20e500 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1445,7 +1445,9 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 			}
 			equalState := testV.EqualState
 			if verInventory.GetDigestAlgorithm() != digestAlg {
-				equalState = testV.EqualFiles
+				equalState = func(v2 *Version) bool {
+					return testV.EqualContent(v2, object.i.GetManifest(), verInventory.GetManifest())
+				}
 			}
 			if !equalState(verVersion) {
 				object.addValidationError(E066, "version '%s' in version folder '%s' not equal to version in object root manifest", ver, verVer)
-- 
2.43.0


From b94df63a44c924e627af130d47d8bf047993329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:16 +0000
Subject: [PATCH 092/132] fix: update failed if content to be migrated is not
 part of the version

Content which had been removed from the object, which was replaced within the
same update or which belongs to another area made every update fail.
---
 pkg/extension/NNNN-migration.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index a45770a..fdfb997 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -194,6 +194,14 @@ func (mi *Migration) UpdateObjectAfter(object ocfl.Object) error {
 		if mi.alreadyMigrated(cs) {
 			continue
 		}
+		// content which is not part of the new version cannot be migrated
+		stateFiles, err := mi.stateFiles(object, inventory.GetHead(), cs)
+		if err != nil {
+			return errors.Wrapf(err, "cannot get state files for checksum '%s' in object '%s'", cs, object.GetID())
+		}
+		if len(stateFiles) == 0 {
+			continue
+		}
 		mi.migrationFiles[cs] = migrationFunctions
 	}
 
@@ -201,6 +209,25 @@ func (mi *Migration) UpdateObjectAfter(object ocfl.Object) error {
 	return nil
 }
 
+// stateFiles returns the files of a version with the given checksum which belong to the content area
+func (mi *Migration) stateFiles(object ocfl.Object, version string, cs string) ([]string, error) {
+	var result []string
+	stateFiles, err := object.GetInventory().GetStateFiles(version, cs)
+	if err != nil {
+		return result, nil
+	}
+	for _, sf := range stateFiles {
+		if _, err := object.GetExtensionManager().BuildObjectExtractPath(object, sf, ""); err != nil {
+			if errors.Is(err, ocfl.ExtensionObjectExtractPathWrongAreaError) {
+				continue
+			}
+			return nil, errors.Wrapf(err, "cannot build extract path for file '%s' in object '%s'", sf, object.GetID())
+		}
+		result = append(result, sf)
+	}
+	return result, nil
+}
+
 func (mi *Migration) NeedNewVersion(ocfl.Object) (bool, error) {
 	return len(mi.migrationFiles) > 0 && !mi.done, nil
 }
@@ -262,7 +289,7 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 			return errors.Errorf("cannot find file with checksum '%s' in object '%s'", cs, object.GetID())
 		}
 		// get the files from last version
-		stateFiles, err := inventory.GetStateFiles(versions[len(versions)-2], cs)
+		stateFiles, err := mi.stateFiles(object, versions[len(versions)-2], cs)
 		if err != nil {
 			return errors.Wrapf(err, "cannot get state files for checksum '%s' in object '%s'", cs, object.GetID())
 		}
-- 
2.43.0


From d1a3d4e3e6762df2d33dfd104faad8834d57a364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:36 +0000
Subject: [PATCH 093/132] fix: migration was repeated or update failed if
 several results have the same content or name

The files which are migrated already were looked up by the content of the
results.
---
 pkg/extension/NNNN-migration.go | 64 +++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index fdfb997..f931cd7 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -161,21 +161,16 @@ func (mi *Migration) UpdateObjectAfter(object ocfl.Object) error {
 	if err != nil {
 		return errors.Wrapf(err, "cannot get metadata from object %s", object.GetID())
 	}
-	for _, m := range meta.Files {
-		// check whether already migrated
-		migrationMetaAny, ok := m.Extension[MigrationName]
-		if !ok {
-			continue
-		}
-		migrationMeta, ok := migrationMetaAny.(*MigrationResult)
-		if !ok {
-			continue
-		}
-		if _, ok := mi.migratedFiles[inventory.GetHead()]; !ok {
-			mi.migratedFiles[inventory.GetHead()] = map[string]string{}
-		}
-		mi.migratedFiles[inventory.GetHead()][migrationMeta.Source] = migrationMeta.ID
-
+	// several files can have the same result, and a result can be replaced
+	lines, err := mi.readLines(object)
+	if err != nil {
+		return errors.Wrapf(err, "cannot get migration metadata for object '%s'", object.GetID())
+	}
+	if _, ok := mi.migratedFiles[inventory.GetHead()]; !ok {
+		mi.migratedFiles[inventory.GetHead()] = map[string]string{}
+	}
+	for _, line := range lines {
+		mi.migratedFiles[inventory.GetHead()][line.Migration.Source] = line.Migration.ID
 	}
 	for cs, m := range meta.Files {
 		indexerMetaAny, ok := m.Extension[IndexerName]
@@ -432,18 +427,40 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 }
 
 func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
-	var err error
 	var result = map[string]any{}
 
-	inventory := object.GetInventory()
-	manifest := inventory.GetManifest()
+	lines, err := mi.readLines(object)
+	if err != nil {
+		return nil, err
+	}
 	path2digest := map[string]string{}
-	for checksum, names := range manifest {
+	for checksum, names := range object.GetInventory().GetManifest() {
 		for _, name := range names {
 			path2digest[name] = checksum
 		}
 	}
 	// records of later versions replace those of earlier ones
+	for _, meta := range lines {
+		cs, ok := path2digest[meta.Path]
+		if meta.Migration.Error != "" {
+			cs, ok = meta.Migration.Source, true
+		}
+		if !ok {
+			// the result was replaced by another one of the same name
+			continue
+		}
+		result[cs] = meta.Migration
+	}
+	return result, nil
+}
+
+// readLines reads the records of all versions. The sources are the checksums of the files
+func (mi *Migration) readLines(object ocfl.Object) ([]*migrationLine, error) {
+	var err error
+	var result = []*migrationLine{}
+
+	inventory := object.GetInventory()
+	manifest := inventory.GetManifest()
 	for _, v := range inventory.GetVersionStrings() {
 		var data []byte
 		if buf, ok := mi.buffer[v]; ok && buf.Len() > 0 {
@@ -486,15 +503,8 @@ func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
 			if digest == "" {
 				return nil, errors.Errorf("cannot find checksum for file '%s' in object '%s'", meta.Migration.Source, object.GetID())
 			}
-			cs, ok := path2digest[meta.Path]
-			if !ok && meta.Migration.Error != "" {
-				cs, ok = path2digest[meta.Migration.Source]
-			}
-			if !ok {
-				return nil, errors.Errorf("cannot find checksum for file '%s' in object '%s'", meta.Path, object.GetID())
-			}
 			meta.Migration.Source = digest
-			result[cs] = meta.Migration
+			result = append(result, &meta)
 		}
 		if err := r.Err(); err != nil {
 			return nil, errors.Wrapf(err, "cannot scan lines for '%s' %s", object.GetID(), v)
-- 
2.43.0


From 6b2a9db832d092e14f97c43fcc49ad66a2c0234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:00 +0000
Subject: [PATCH 094/132] fix: update failed if the result of a migration into
 a folder was migrated again

---
 pkg/extension/NNNN-migration.go    | 9 +++++----
 pkg/subsystem/migration/migrate.go | 8 ++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index f931cd7..00a4570 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -380,14 +380,15 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 					}
 				}
 			case migration.StrategyFolder:
+				if isMigrated {
+					// the file is in its folder already
+					break
+				}
 				for _, src := range stateFiles {
 					if slices.Contains(targetNames, src) {
 						continue
 					}
-					var dest string
-					if !isMigrated {
-						dest = filepath.ToSlash(filepath.Join(filepath.Dir(src), filepath.Base(src), filepath.Base(src)))
-					}
+					dest := filepath.ToSlash(filepath.Join(filepath.Dir(src), filepath.Base(src), filepath.Base(src)))
 					if err := object.RenameFile(src, dest, cs); err != nil {
 						return errors.Wrapf(err, "cannot delete file '%s' in object '%s'", src, object.GetID())
 					}
diff --git a/pkg/subsystem/migration/migrate.go b/pkg/subsystem/migration/migrate.go
index 4e0f4b3..c046a3b 100644
--- a/pkg/subsystem/migration/migrate.go
+++ b/pkg/subsystem/migration/migrate.go
@@ -44,11 +44,11 @@ func (f *Function) GetDestinationName(src string, head string, isMigrated bool)
 	dest := f.regexp.ReplaceAllString(src, f.replace)
 	if f.Strategy == StrategyFolder {
 		if isMigrated {
-			parts := migrationVersionRegexp.FindStringSubmatch(filepath.Base(src))
-			if parts == nil {
-				return ""
+			name := filepath.Base(src)
+			if parts := migrationVersionRegexp.FindStringSubmatch(name); parts != nil {
+				name = parts[2]
 			}
-			dest = filepath.ToSlash(filepath.Join(filepath.Dir(src), fmt.Sprintf("%s.%s", head, parts[2])))
+			dest = filepath.ToSlash(filepath.Join(filepath.Dir(src), fmt.Sprintf("%s.%s", head, name)))
 		} else {
 			dest = filepath.ToSlash(filepath.Join(src, fmt.Sprintf("%s.%s", head, dest)))
 		}
-- 
2.43.0


From 2852a57c5012ece0fc8fda89e6a6b5705fd54148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:01 +0000
Subject: [PATCH 095/132] fix: migration of files with the same content to the
 same name made the update fail

---
 pkg/extension/NNNN-migration.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index 00a4570..6b44dd0 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -293,7 +293,9 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 			if t == "" {
 				return errors.Errorf("cannot get destination name for file '%s' in object '%s'", sf, object.GetID())
 			}
-			targetNames = append(targetNames, t)
+			if !slices.Contains(targetNames, t) {
+				targetNames = append(targetNames, t)
+			}
 		}
 
 		mi.migratedFiles[head][cs] = manifestFiles[0]
-- 
2.43.0


From c6a2eb4ff37785e6c37a5c2867415bbd057da035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:41 +0000
Subject: [PATCH 096/132] fix: failure to store the result of a migration was
 taken for a failed conversion

The version was completed with parts of the result and the migration never
done again. Temporary files stayed if they could not be written.
---
 pkg/extension/NNNN-migration.go   |  6 +++++-
 pkg/subsystem/migration/helper.go | 34 +++++++++++++++++++++++--------
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index 6b44dd0..d5fd9f7 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -354,6 +354,11 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 		}
 		path := inventory.BuildManifestName(manifestName)
 		if err := migration.DoMigrate(object, mig, ext, extractTargetNames, file); err != nil {
+			var conversionError *migration.ConversionError
+			if !errors.As(err, &conversionError) {
+				// the object is incomplete
+				return errors.Wrapf(err, "cannot store migrated file in object '%s'", object.GetID())
+			}
 			ml = &migrationLine{
 				Path: path,
 				Migration: &MigrationResult{
@@ -362,7 +367,6 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 					ID:     mig.GetID(),
 				},
 			}
-			//			return err
 		} else {
 			ml = &migrationLine{
 				Path: path,
diff --git a/pkg/subsystem/migration/helper.go b/pkg/subsystem/migration/helper.go
index 505888e..e938435 100644
--- a/pkg/subsystem/migration/helper.go
+++ b/pkg/subsystem/migration/helper.go
@@ -6,6 +6,7 @@ import (
 	"github.com/je4/gocfl/v2/config"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"io"
+	"io/fs"
 	"os"
 	"path/filepath"
 	"regexp"
@@ -70,37 +71,52 @@ func GetMigrations(conf *config.GOCFLConfig) (*Migration, error) {
 	return m, nil
 }
 
+// ConversionError tells that a file could not be converted
+type ConversionError struct {
+	error
+}
+
+func (e *ConversionError) Unwrap() error { return e.error }
+
 func DoMigrate(object ocfl.Object, mig *Function, ext string, targetNames []string, file io.ReadCloser) error {
 	tmpFile, err := os.CreateTemp(os.TempDir(), "gocfl_*"+ext)
 	if err != nil {
+		_ = file.Close()
 		return errors.Wrap(err, "cannot create temp file")
 	}
+	tmpFilename := filepath.ToSlash(tmpFile.Name())
+	targetFilename := filepath.ToSlash(filepath.Join(filepath.Dir(tmpFilename), "target."+filepath.Base(tmpFilename)+filepath.Ext(targetNames[0])))
+	defer func() {
+		_ = os.Remove(tmpFilename)
+		_ = os.Remove(targetFilename)
+	}()
 	if _, err := io.Copy(tmpFile, file); err != nil {
 		_ = tmpFile.Close()
+		_ = file.Close()
 		return errors.Wrap(err, "cannot copy file")
 	}
 	if err := file.Close(); err != nil {
+		_ = tmpFile.Close()
 		return errors.Wrap(err, "cannot close file")
 	}
-	tmpFilename := filepath.ToSlash(tmpFile.Name())
-	targetFilename := filepath.ToSlash(filepath.Join(filepath.Dir(tmpFilename), "target."+filepath.Base(tmpFilename)+filepath.Ext(targetNames[0])))
-
 	if err := tmpFile.Close(); err != nil {
 		return errors.Wrap(err, "cannot close temp file")
 	}
-	defer func() {
-		_ = os.Remove(tmpFilename)
-		_ = os.Remove(targetFilename)
-	}()
 	if err := mig.Migrate(tmpFilename, targetFilename); err != nil {
-		return errors.Wrapf(err, "cannot migrate file '%v' to object '%s'", targetNames, object.GetID())
+		return &ConversionError{errors.Wrapf(err, "cannot migrate file '%v' to object '%s'", targetNames, object.GetID())}
 	}
 
 	mFile, err := os.Open(targetFilename)
 	if err != nil {
-		return errors.Wrapf(err, "cannot open file '%s'", targetFilename)
+		err = errors.Wrapf(err, "cannot open file '%s'", targetFilename)
+		if errors.Is(err, fs.ErrNotExist) {
+			// there is no result
+			return &ConversionError{err}
+		}
+		return err
 	}
 	if _, err := object.AddReader(mFile, targetNames, "content", false, false); err != nil {
+		_ = mFile.Close()
 		return errors.Wrapf(err, "cannot migrate file '%v' to object '%s'", targetNames, object.GetID())
 	}
 	if err := mFile.Close(); err != nil {
-- 
2.43.0


From 487f173d46c32170e941d34243c762abb5d94686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:59 +0000
Subject: [PATCH 097/132] fix: automated version of an interrupted update
 stayed in the object

If the next update made no automated version, the object was invalid from then
on.
---
 pkg/ocfl/objectbase.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index c20e500..a933f79 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -619,6 +619,12 @@ func (object *ObjectBase) StartUpdate(sourceFS fs.FS, msg string, UserName strin
 	if err := object.removeLeftovers(object.i.GetHead()); err != nil {
 		return nil, errors.Wrapf(err, "cannot remove leftovers in '%v/%s'", object.fsys, object.i.GetHead())
 	}
+	// there may be an automated version, too
+	if next := versionAfter(object.i.GetHead()); next != "" {
+		if err := object.removeLeftovers(next); err != nil {
+			return nil, errors.Wrapf(err, "cannot remove leftovers in '%v/%s'", object.fsys, next)
+		}
+	}
 	if err := object.extensionManager.UpdateObjectBefore(object); err != nil {
 		return nil, errors.Wrapf(err, "cannot execute ext.UpdateObjectBefore()")
 	}
@@ -682,6 +688,19 @@ func (object *ObjectBase) EndUpdate() error {
 	return nil
 }
 
+// versionAfter returns the name of the version after the given one
+func versionAfter(version string) string {
+	digits := strings.TrimPrefix(version, "v")
+	number, err := strconv.Atoi(digits)
+	if err != nil {
+		return ""
+	}
+	if strings.HasPrefix(digits, "0") {
+		return fmt.Sprintf("v%0*d", len(digits), number+1)
+	}
+	return fmt.Sprintf("v%d", number+1)
+}
+
 // removeLeftovers removes what an interrupted update has stored for a version which did
 // not come into being.
 func (object *ObjectBase) removeLeftovers(version string) error {
-- 
2.43.0


From 78875ee819e195ad99ae5d2d1004d043b06a00fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:19 +0000
Subject: [PATCH 098/132] fix: records of an interrupted update were taken for
 those of the next version

If the next update had nothing to record, the metadata of the object could not
be read any more.
---
 pkg/extension/NNNN-filesystem.go |  2 +-
 pkg/extension/NNNN-indexer.go    |  2 +-
 pkg/extension/NNNN-migration.go  |  6 ++++--
 pkg/extension/NNNN-thumbnail.go  |  6 ++++--
 pkg/ocfl/helper.go               | 29 +++++++++++++++++++++++++++++
 5 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index d3aa622..5d363be 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -268,7 +268,7 @@ func (extFS *Filesystem) UpdateObjectBefore(object ocfl.Object) error {
 	delete(extFS.buffer, object.GetInventory().GetHead())
 	extFS.writer = nil
 	extFS.currentHead = ""
-	return nil
+	return errors.Wrap(ocfl.RemoveJsonL(object, "filesystem", extFS.FilesystemConfig.Compress, extFS.StorageType, extFS.StorageName, extFS.fsys), "cannot remove record")
 }
 
 func (extFS *Filesystem) UpdateObjectAfter(object ocfl.Object) error {
diff --git a/pkg/extension/NNNN-indexer.go b/pkg/extension/NNNN-indexer.go
index 03877ce..03c1471 100644
--- a/pkg/extension/NNNN-indexer.go
+++ b/pkg/extension/NNNN-indexer.go
@@ -227,7 +227,7 @@ func (sl *Indexer) UpdateObjectBefore(object ocfl.Object) error {
 	delete(sl.buffer, object.GetInventory().GetHead())
 	sl.writer = nil
 	sl.currentHead = ""
-	return nil
+	return errors.Wrap(ocfl.RemoveJsonL(object, "indexer", sl.IndexerConfig.Compress, sl.StorageType, sl.StorageName, sl.fsys), "cannot remove record")
 }
 
 func (sl *Indexer) UpdateObjectAfter(object ocfl.Object) error {
diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index d5fd9f7..afc456d 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -137,8 +137,10 @@ func (mi *Migration) WriteConfig() error {
 	return nil
 }
 
-func (mi *Migration) UpdateObjectBefore(ocfl.Object) error {
-	return nil
+func (mi *Migration) UpdateObjectBefore(object ocfl.Object) error {
+	// records of an update before belong to another version
+	delete(mi.buffer, object.GetInventory().GetHead())
+	return errors.Wrap(ocfl.RemoveJsonL(object, "migration", mi.MigrationConfig.Compress, mi.StorageType, mi.StorageName, mi.fsys), "cannot remove record")
 }
 
 func (mi *Migration) alreadyMigrated(cs string) bool {
diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index 6bf4bc7..f35394f 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -278,8 +278,10 @@ func (thumb *Thumbnail) DoThumbnail(object ocfl.Object, head string, thumbFunc *
 	return targetFile, digest, errors.Wrap(err, "cannot store thumbnail")
 }
 
-func (thumb *Thumbnail) UpdateObjectBefore(ocfl.Object) error {
-	return nil
+func (thumb *Thumbnail) UpdateObjectBefore(object ocfl.Object) error {
+	// records of an update before belong to another version
+	delete(thumb.buffer, object.GetInventory().GetHead())
+	return errors.Wrap(ocfl.RemoveJsonL(object, "thumbnail", thumb.ThumbnailConfig.Compress, thumb.StorageType, thumb.StorageName, thumb.fsys), "cannot remove record")
 }
 
 func (thumb *Thumbnail) UpdateObjectAfter(object ocfl.Object) error {
diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 47224f4..b8844aa 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -518,6 +518,35 @@ func ReadJsonL(object Object, name, version, compress, storageType, storageName
 	return data, nil
 }
 
+// RemoveJsonL removes the record which an interrupted update has left for the head version
+func RemoveJsonL(object Object, name string, compress, storageType, storageName string, fsys fs.FS) error {
+	if strings.ToLower(storageType) != "extension" || fsys == nil {
+		// records within the content are removed with the version
+		return nil
+	}
+	var ext string
+	switch compress {
+	case "brotli":
+		ext = ".br"
+	case "gzip":
+		ext = ".gz"
+	}
+	targetname := strings.TrimLeft(fmt.Sprintf("%s/%s_%s.jsonl%s", storageName, name, object.GetInventory().GetHead(), ext), "/")
+	if err := checkNames(targetname); err != nil {
+		return errors.Wrapf(err, "cannot remove '%v/%s'", fsys, targetname)
+	}
+	if _, err := fs.Stat(fsys, targetname); err != nil {
+		if errors.Is(err, fs.ErrNotExist) {
+			return nil
+		}
+		return errors.Wrapf(err, "cannot stat '%v/%s'", fsys, targetname)
+	}
+	if err := writefs.Remove(fsys, targetname); err != nil && errors.Cause(err) != writefs.ErrNotImplemented {
+		return errors.Wrapf(err, "cannot remove '%v/%s'", fsys, targetname)
+	}
+	return nil
+}
+
 func WriteJsonL(object Object, name string, brotliData []byte, compress, storageType, storageName string, fsys fs.FS) error {
 	var bufReader = bytes.NewBuffer(brotliData)
 	var ext string
-- 
2.43.0


From 8205e501d94809e331b7d3fbf299f88186540390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:16 +0000
Subject: [PATCH 099/132] fix: storing a thumbnail terminated the program in
 one of four cases

Random numbers below 16 have one hexadecimal digit only.
---
 pkg/extension/NNNN-thumbnail.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index f35394f..fba1c2f 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -189,7 +189,7 @@ func (thumb *Thumbnail) storeThumbnail(object ocfl.Object, head string, mFile io
 	if thumb.SingleDirectory {
 		targetName = fmt.Sprintf("%s/%s/%05d.%s", subfolder, head, thumb.counter[head], strings.ToLower(thumb.ThumbnailConfig.Ext))
 	} else {
-		cs := fmt.Sprintf("%x", rand.Intn(64))
+		cs := fmt.Sprintf("%02x", rand.Intn(64))
 		targetName = fmt.Sprintf("%s/%s/%s/%s/%05d.%s", subfolder, head, string([]rune(cs)[0]), string([]rune(cs)[1]), thumb.counter[head], strings.ToLower(thumb.ThumbnailConfig.Ext))
 	}
 	switch strings.ToLower(thumb.StorageType) {
-- 
2.43.0


From f00bc85c28eed6148da84980f8dcbf24e9759d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:17 +0000
Subject: [PATCH 100/132] fix: image without extent terminated the program,
 thumbnails were larger than configured

The aspect ratio was an integer; very long images could not be stored at all.
---
 pkg/extension/NNNN-thumbnail_native.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/extension/NNNN-thumbnail_native.go b/pkg/extension/NNNN-thumbnail_native.go
index 8dc0f7f..adffa60 100644
--- a/pkg/extension/NNNN-thumbnail_native.go
+++ b/pkg/extension/NNNN-thumbnail_native.go
@@ -51,14 +51,18 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	rect := img.Bounds()
 	thumb.logger.Info().Msgf("image format: %s, size: %d x %d", format, rect.Dx(), rect.Dy())
 
-	rectAspect := rect.Dx() / rect.Dy()
-	thumbAspect := int(thumb.Width) / int(thumb.Height)
+	if rect.Empty() {
+		thumb.logger.Info().Msgf("image '%s' has zero size", stateFiles[0])
+		return nil
+	}
+	rectAspect := float64(rect.Dx()) / float64(rect.Dy())
+	thumbAspect := float64(thumb.Width) / float64(thumb.Height)
 	newHeight := uint(thumb.Height)
 	newWidth := uint(thumb.Width)
 	if rectAspect > thumbAspect {
-		newHeight = uint(rect.Dy() * int(thumb.Width) / rect.Dx())
+		newHeight = max(1, uint(rect.Dy()*int(thumb.Width)/rect.Dx()))
 	} else {
-		newWidth = uint(rect.Dx() * int(thumb.Height) / rect.Dy())
+		newWidth = max(1, uint(rect.Dx()*int(thumb.Height)/rect.Dy()))
 	}
 
 	newImg := resize.Resize(newWidth, newHeight, img, resize.Lanczos3)
-- 
2.43.0


From d29892517964db98333194b189cb03816827e3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:17 +0000
Subject: [PATCH 101/132] fix: thumbnail got lost or showed another file

Files with another name in the object than in its state did not get a
thumbnail, a replaced file got the one of the file before.
---
 pkg/extension/NNNN-thumbnail.go         | 10 ++++++----
 pkg/extension/NNNN-thumbnail_imagick.go |  9 +++------
 pkg/extension/NNNN-thumbnail_native.go  | 11 +++++------
 pkg/extension/NNNN-thumbnail_vips.go    |  9 +++------
 4 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index fba1c2f..77bb9c4 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -12,7 +12,6 @@ import (
 	"github.com/je4/gocfl/v2/pkg/subsystem/thumbnail"
 	"github.com/je4/indexer/v3/pkg/indexer"
 	"github.com/je4/utils/v2/pkg/zLogger"
-	"golang.org/x/exp/slices"
 	_ "golang.org/x/image/bmp"
 	_ "golang.org/x/image/riff"
 	_ "golang.org/x/image/tiff"
@@ -280,7 +279,10 @@ func (thumb *Thumbnail) DoThumbnail(object ocfl.Object, head string, thumbFunc *
 
 func (thumb *Thumbnail) UpdateObjectBefore(object ocfl.Object) error {
 	// records of an update before belong to another version
-	delete(thumb.buffer, object.GetInventory().GetHead())
+	head := object.GetInventory().GetHead()
+	delete(thumb.buffer, head)
+	delete(thumb.streamInfo, head)
+	delete(thumb.counter, head)
 	return errors.Wrap(ocfl.RemoveJsonL(object, "thumbnail", thumb.ThumbnailConfig.Compress, thumb.StorageType, thumb.StorageName, thumb.fsys), "cannot remove record")
 }
 
@@ -304,8 +306,8 @@ func (thumb *Thumbnail) UpdateObjectAfter(object ocfl.Object) error {
 	}
 	for cs, m := range meta.Files {
 		var found *ThumbnailResult = nil
-		for name, info := range thumb.streamInfo[head] {
-			if slices.Contains(m.InternalName, name) {
+		for _, name := range m.InternalName {
+			if info, ok := thumb.streamInfo[head][name]; ok {
 				found = info
 				found.SourceDigest = cs
 				break
diff --git a/pkg/extension/NNNN-thumbnail_imagick.go b/pkg/extension/NNNN-thumbnail_imagick.go
index 529383b..816d9f3 100644
--- a/pkg/extension/NNNN-thumbnail_imagick.go
+++ b/pkg/extension/NNNN-thumbnail_imagick.go
@@ -4,7 +4,6 @@ package extension
 
 import (
 	"emperror.dev/errors"
-	"fmt"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"gopkg.in/gographics/imagick.v3/imagick"
 	"io"
@@ -28,11 +27,9 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	if _, ok := thumb.streamInfo[head]; !ok {
 		thumb.streamInfo[head] = map[string]*ThumbnailResult{}
 	}
-	infoName := fmt.Sprintf("%s/content/%s", head, stateFiles[0])
-	if _, ok := thumb.streamInfo[head][infoName]; ok {
-		thumb.logger.Info().Msgf("thumbnail for '%s' already created", stateFiles[0])
-		return nil
-	}
+	infoName := inventory.BuildManifestName(dest)
+	// the file may replace another one
+	delete(thumb.streamInfo[head], infoName)
 	//ext := filepath.Ext(stateFiles[0])
 
 	imgBytes, err := io.ReadAll(reader)
diff --git a/pkg/extension/NNNN-thumbnail_native.go b/pkg/extension/NNNN-thumbnail_native.go
index adffa60..dbb60ca 100644
--- a/pkg/extension/NNNN-thumbnail_native.go
+++ b/pkg/extension/NNNN-thumbnail_native.go
@@ -4,7 +4,6 @@ package extension
 
 import (
 	"emperror.dev/errors"
-	"fmt"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/nfnt/resize"
 	_ "golang.org/x/image/bmp"
@@ -36,11 +35,9 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	if _, ok := thumb.streamInfo[head]; !ok {
 		thumb.streamInfo[head] = map[string]*ThumbnailResult{}
 	}
-	infoName := fmt.Sprintf("%s/content/%s", head, stateFiles[0])
-	if _, ok := thumb.streamInfo[head][infoName]; ok {
-		thumb.logger.Info().Msgf("thumbnail for '%s' already created", stateFiles[0])
-		return nil
-	}
+	infoName := inventory.BuildManifestName(dest)
+	// the file may replace another one
+	delete(thumb.streamInfo[head], infoName)
 	//ext := filepath.Ext(stateFiles[0])
 
 	img, format, err := image.Decode(reader)
@@ -73,6 +70,8 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 		return errors.New("no filesystem set")
 	}
 	pr, pw := io.Pipe()
+	// the encoder must not wait for a reader which gave up
+	defer pr.Close()
 	done := make(chan bool, 1)
 	go func() {
 		defer pw.Close()
diff --git a/pkg/extension/NNNN-thumbnail_vips.go b/pkg/extension/NNNN-thumbnail_vips.go
index b397941..af55c3d 100644
--- a/pkg/extension/NNNN-thumbnail_vips.go
+++ b/pkg/extension/NNNN-thumbnail_vips.go
@@ -4,7 +4,6 @@ package extension
 
 import (
 	"emperror.dev/errors"
-	"fmt"
 	"github.com/davidbyttow/govips/v2/vips"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"io"
@@ -28,11 +27,9 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	if _, ok := thumb.streamInfo[head]; !ok {
 		thumb.streamInfo[head] = map[string]*ThumbnailResult{}
 	}
-	infoName := fmt.Sprintf("%s/content/%s", head, stateFiles[0])
-	if _, ok := thumb.streamInfo[head][infoName]; ok {
-		thumb.logger.Info().Msgf("thumbnail for '%s' already created", stateFiles[0])
-		return nil
-	}
+	infoName := inventory.BuildManifestName(dest)
+	// the file may replace another one
+	delete(thumb.streamInfo[head], infoName)
 	//ext := filepath.Ext(stateFiles[0])
 
 	img, err := vips.NewImageFromReader(reader)
-- 
2.43.0


From 4b2bb0bf4dca8c907e41987d344f270aed5ad7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:17 +0000
Subject: [PATCH 102/132] fix: metadata told wrong names of thumbnails

The path of the area or storage was put before the recorded name, which has it
already; with storage type "path" the recorded name lacked it.
---
 pkg/extension/NNNN-thumbnail.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index 77bb9c4..de0acd3 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -209,7 +209,7 @@ func (thumb *Thumbnail) storeThumbnail(object ocfl.Object, head string, mFile io
 		targetname := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, thumb.StorageName, targetName)), "/")
 
 		//targetname := fmt.Sprintf("%s/%s_%s.jsonl%s", name, storageName, head, ext)
-		if digest, err = object.AddReader(mFile, []string{targetname}, "", true, false); err != nil {
+		if digest, err = object.AddReader(mFile, []string{targetname}, "full", true, false); err != nil {
 			return "", "", errors.Wrapf(err, "cannot write '%s'", targetname)
 		}
 		return targetname, digest, nil
@@ -485,17 +485,24 @@ func (thumb *Thumbnail) GetMetadata(object ocfl.Object) (map[string]any, error)
 				result[meta.ThumbDigest] = meta
 			}
 			// old versions do not have a filename
-			if meta.Filename == "" {
+			complete := meta.Filename != "" || meta.Error != ""
+			if !complete {
 				meta.Filename = fmt.Sprintf("data/%s/%s/%s.%s", string([]rune(meta.SourceDigest)[0]), string([]rune(meta.SourceDigest)[1]), meta.SourceDigest, strings.ToLower(thumb.ThumbnailConfig.Ext))
 			}
 			switch strings.ToLower(thumb.StorageType) {
 			case "area":
+				if complete {
+					break
+				}
 				areaPath, err := object.GetAreaPath(thumb.StorageName)
 				if err != nil {
 					return nil, errors.Wrapf(err, "cannot get area path for '%s'", thumb.StorageName)
 				}
 				meta.Filename = fmt.Sprintf("%s/%s", areaPath, meta.Filename)
 			case "path":
+				if complete {
+					break
+				}
 				areaPath, err := object.GetAreaPath("content")
 				if err != nil {
 					return nil, errors.Wrapf(err, "cannot get area path for '%s'", thumb.StorageName)
-- 
2.43.0


From 8dcd1f764539732a6087f88fc4db63e2f6c9c6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:17 +0000
Subject: [PATCH 103/132] fix: failure to store a thumbnail was taken for a
 failed program

The version was completed with parts of the thumbnail and the thumbnail never
created again. Temporary files stayed if they could not be written.
---
 pkg/extension/NNNN-thumbnail.go | 41 ++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index de0acd3..a2e3889 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -219,6 +219,7 @@ func (thumb *Thumbnail) storeThumbnail(object ocfl.Object, head string, mFile io
 			return "", "", errors.Wrapf(err, "cannot create file '%s/%s'", thumb.fsys, targetName)
 		}
 		if _, err := io.Copy(fp, mFile); err != nil {
+			_ = fp.Close()
 			return "", "", errors.Wrapf(err, "cannot write file '%v/%s'", thumb.fsys, targetName)
 		}
 		if err := fp.Close(); err != nil {
@@ -233,30 +234,33 @@ func (thumb *Thumbnail) storeThumbnail(object ocfl.Object, head string, mFile io
 func (thumb *Thumbnail) DoThumbnail(object ocfl.Object, head string, thumbFunc *thumbnail.Function, ext string, file io.ReadCloser) (string, string, error) {
 	tmpFile, err := os.CreateTemp(os.TempDir(), "gocfl_*"+ext)
 	if err != nil {
+		_ = file.Close()
 		return "", "", errors.Wrap(err, "cannot create temp file")
 	}
-	if _, err := io.Copy(tmpFile, file); err != nil {
-		_ = tmpFile.Close()
-		return "", "", errors.Wrap(err, "cannot copy file")
-	}
-	if err := file.Close(); err != nil {
-		return "", "", errors.Wrap(err, "cannot close file")
-	}
-	thumb.counter[head]++
+	defer func() {
+		if err := file.Close(); err != nil {
+			thumb.logger.Error().Err(err).Msg("cannot close file")
+		}
+	}()
 	tmpFilename := filepath.ToSlash(tmpFile.Name())
 	targetTempName := filepath.ToSlash(filepath.Join(filepath.Dir(tmpFilename), fmt.Sprintf("target.%s.%s", filepath.Base(tmpFilename), strings.ToLower(thumb.ThumbnailConfig.Ext))))
 
-	if err := tmpFile.Close(); err != nil {
-		return "", "", errors.Wrap(err, "cannot close temp file")
-	}
 	defer func() {
 		if err := os.Remove(tmpFilename); err != nil {
 			thumb.logger.Error().Err(err).Msgf("cannot remove temp file '%s'", tmpFilename)
 		}
-		if err := os.Remove(targetTempName); err != nil {
+		if err := os.Remove(targetTempName); err != nil && !errors.Is(err, fs.ErrNotExist) {
 			thumb.logger.Error().Err(err).Msgf("cannot remove temp file '%s'", targetTempName)
 		}
 	}()
+	if _, err := io.Copy(tmpFile, file); err != nil {
+		_ = tmpFile.Close()
+		return "", "", errors.Wrap(err, "cannot copy file")
+	}
+	if err := tmpFile.Close(); err != nil {
+		return "", "", errors.Wrap(err, "cannot close temp file")
+	}
+	thumb.counter[head]++
 	if err := thumbFunc.Thumbnail(tmpFilename, targetTempName, thumb.ThumbnailConfig.Width, thumb.ThumbnailConfig.Height, thumb.logger); err != nil {
 		//_ = os.Remove(tmpFilename)
 		return "", "", errors.Wrapf(err, "cannot create thumbnail file '%v' to object '%s'", targetTempName, object.GetID())
@@ -273,8 +277,15 @@ func (thumb *Thumbnail) DoThumbnail(object ocfl.Object, head string, thumbFunc *
 	}()
 
 	targetFile, digest, err := thumb.storeThumbnail(object, head, mFile)
+	if err != nil {
+		return "", "", &storeError{errors.Wrap(err, "cannot store thumbnail")}
+	}
+	return targetFile, digest, nil
+}
 
-	return targetFile, digest, errors.Wrap(err, "cannot store thumbnail")
+// storeError leaves the object incomplete, other than the failure to create a thumbnail
+type storeError struct {
+	error
 }
 
 func (thumb *Thumbnail) UpdateObjectBefore(object ocfl.Object) error {
@@ -371,6 +382,10 @@ func (thumb *Thumbnail) UpdateObjectAfter(object ocfl.Object) error {
 				var errStr string
 				targetFile, digest, err := thumb.DoThumbnail(object, head, thumbnailFunction, ext, file)
 				if err != nil {
+					var se *storeError
+					if errors.As(err, &se) {
+						return errors.Wrapf(err, "cannot store thumbnail of '%s' in object '%s'", m.InternalName[0], object.GetID())
+					}
 					errStr = err.Error()
 				}
 				found = &ThumbnailResult{
-- 
2.43.0


From 2171bddb8e4bae75e7b702283ad14867737b8018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:44 +0000
Subject: [PATCH 104/132] fix: metadata of an object was lost if a file was
 replaced within an update

The thumbnail extension recorded a thumbnail of the replaced file, which does
not stay in the object; its records could not be read any more.
---
 pkg/ocfl/objectbase.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index a933f79..c8b811f 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -650,6 +650,10 @@ func (object *ObjectBase) EndUpdate() error {
 		return errors.Wrap(object.i.Clean(), "cannot clean inventory")
 	}
 
+	// extensions must not record anything about files which do not stay
+	if err := object.removeUnusedContent(); err != nil {
+		return errors.Wrap(err, "cannot remove unused content")
+	}
 	if err := object.extensionManager.UpdateObjectAfter(object); err != nil {
 		return errors.Wrapf(err, "cannot execute ext.UpdateObjectAfter()")
 	}
-- 
2.43.0


From 88308bff4a676eeb9553299211dde903a9afcb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:24 +0000
Subject: [PATCH 105/132] fix: files with names like that of a declaration were
 taken for one

---
 pkg/ocfl/helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index b8844aa..cade3e1 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -180,7 +180,7 @@ func GetErrorStacktrace(err error) errors.StackTrace {
 }
 
 func getVersion(ctx context.Context, fsys fs.FS, folder, prefix string) (version OCFLVersion, err error) {
-	rString := fmt.Sprintf("0=%s([0-9]+\\.[0-9]+)", prefix)
+	rString := fmt.Sprintf("^0=%s([0-9]+\\.[0-9]+)$", prefix)
 	r, err := regexp.Compile(rString)
 	if err != nil {
 		return "", errors.Wrapf(err, "cannot compile %s", rString)
-- 
2.43.0


From 7ac61a08b37cbc1a92a013d61a85dc6184ac0891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 106/132] fix: a stray file within the folder hierarchy hid the
 objects below from validation

---
 pkg/ocfl/storagerootbase.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 27154b4..edf5052 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -318,23 +318,32 @@ func (osr *StorageRootBase) GetObjectFolders() ([]string, error) {
 			return nil, errors.Wrapf(err, "cannot read content of %s", base)
 		}
 		result := []string{}
+		// directory hierarchy must contain only folders, no files --> if file exists, it's an object folder
+		// a stray file must not hide the objects of the folders below
+		hasFile, isObject := false, false
+		for _, de := range des {
+			if !de.IsDir() {
+				hasFile = true
+				if strings.HasPrefix(de.Name(), "0=ocfl_object_") || de.Name() == "inventory.json" {
+					isObject = true
+				}
+			}
+		}
+		if hasFile {
+			result = append(result, base)
+		}
+		if isObject {
+			return result, nil
+		}
 		for _, de := range des {
 			currPath := filepath.ToSlash(filepath.Join(base, de.Name()))
-			// directory hierarchy must contain only folders, no files --> if file exists, it's an object folder
 			if de.IsDir() {
 				dirs, err := recurse(currPath)
 				if err != nil {
 					return nil, errors.Wrapf(err, "cannot recurse into %s", currPath)
 				}
 				result = append(result, dirs...)
-			} else {
-				if de.Name() == "." || de.Name() == ".." {
-					continue
-				}
-				result = append(result, base)
-				break
 			}
-
 		}
 		return result, nil
 	}
-- 
2.43.0


From 23e0343ae720e1c01ab0040bc948e7b05e1561b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 107/132] fix: files in the extensions folder of the storage
 root were not reported

---
 pkg/ocfl/storagerootbase.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index edf5052..f43fbb3 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -530,9 +530,31 @@ func (osr *StorageRootBase) CheckDirectory() (err error) {
 	} else {
 		osr.version = version
 	}
+	if err := osr.checkExtensionsFolder(); err != nil {
+		return errors.WithStack(err)
+	}
 	return osr.checkLayoutFile()
 }
 
+// checkExtensionsFolder reports files which do not belong to an extension
+func (osr *StorageRootBase) checkExtensionsFolder() error {
+	entries, err := fs.ReadDir(osr.fsys, "extensions")
+	if err != nil {
+		if errors.Is(err, fs.ErrNotExist) {
+			return nil
+		}
+		return errors.Wrap(err, "cannot read extensions folder")
+	}
+	for _, entry := range entries {
+		if !entry.IsDir() {
+			if err := osr.addValidationError(E067, "file '%s' in extensions folder", entry.Name()); err != nil {
+				return errors.Wrapf(err, "cannot add validation error %s", E067)
+			}
+		}
+	}
+	return nil
+}
+
 // checkLayoutFile reports an ocfl_layout.json which is no valid description of the layout
 func (osr *StorageRootBase) checkLayoutFile() error {
 	data, err := fs.ReadFile(osr.fsys, "ocfl_layout.json")
-- 
2.43.0


From d18da9078317f71e9863271bc0278a9aadda10ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:45 +0000
Subject: [PATCH 108/132] fix: METS extension without descriptive metadata
 could not be configured

---
 pkg/extension/NNNN-mets.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index f473d3c..b6d37f0 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -82,7 +82,7 @@ func NewMetsFS(fsys fs.FS, logger zLogger.ZLogger) (*Mets, error) {
 		ExtensionConfig:            &ocfl.ExtensionConfig{ExtensionName: METSName},
 		StorageType:                "area",
 		StorageName:                "metadata",
-		PrimaryDescriptiveMetadata: "metadata:info.json",
+		PrimaryDescriptiveMetadata: "info:metadata:info.json",
 		MetsFile:                   "mets.xml",
 		PremisFile:                 "premis.xml",
 	}
@@ -107,7 +107,7 @@ type MetsConfig struct {
 	*ocfl.ExtensionConfig
 	StorageType                string `json:"storageType"`
 	StorageName                string `json:"storageName"`
-	PrimaryDescriptiveMetadata string `json:"primaryDescriptiveMetadata,omitempty"`
+	PrimaryDescriptiveMetadata string `json:"primaryDescriptiveMetadata"`
 	MetsFile                   string `json:"metsFile,omitempty"`
 	PremisFile                 string `json:"premisFile,omitempty"`
 }
-- 
2.43.0


From 0740a659fb9757dbea4c77cc6adbb831c2171c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:45 +0000
Subject: [PATCH 109/132] fix: METS and PREMIS files within the extension
 folder got a formatting error as name

---
 pkg/extension/NNNN-mets.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index b6d37f0..115345c 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -292,13 +292,13 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot build names for %s", premisName)
 		}
 	case "extension":
-		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.MetsFile, object.GetVersion()))), "/")
+		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, versionedName(me.MetsFile, head))), "/")
 		metsNames = &ocfl.NamesStruct{
 			ExternalPaths: []string{me.MetsFile},
 			InternalPath:  metsName,
 			ManifestPath:  "",
 		}
-		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.PremisFile, object.GetVersion()))), "/")
+		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, versionedName(me.PremisFile, head))), "/")
 		premisNames = &ocfl.NamesStruct{
 			ExternalPaths: []string{me.PremisFile},
 			InternalPath:  premisName,
@@ -1344,8 +1344,8 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot write '%s'", "schemas/xlink.xsd")
 		}
 	case "extension":
-		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.MetsFile, object.GetVersion()))), "/")
-		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.PremisFile, object.GetVersion()))), "/")
+		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, versionedName(me.MetsFile, head))), "/")
+		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, versionedName(me.PremisFile, head))), "/")
 		if !fs.ValidPath(metsName) || !fs.ValidPath(premisName) {
 			return errors.Errorf("invalid file name '%v/%s' or '%v/%s'", me.fsys, metsName, me.fsys, premisName)
 		}
@@ -1371,6 +1371,11 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 	return nil
 }
 
+// versionedName inserts the version of the object if the name has a place for it
+func versionedName(name, head string) string {
+	return strings.ReplaceAll(name, "%s", head)
+}
+
 func newMDSec(id, groupid, href, loctype, otherloctype, mimetype, created string, size int64, mdType, othermdtype, checksum, checksumType string) *mets.MdSecType {
 	if mdType == "" {
 		mdType = "OTHER"
-- 
2.43.0


From 2479cceab081ec41493cd6c50b0138fbd36d1f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:43 +0000
Subject: [PATCH 110/132] fix: no METS file and no error if the content
 directory is not called content

---
 pkg/extension/NNNN-mets.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index 115345c..3bbc1d5 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -235,7 +235,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 	versions := inventory.GetVersions()
 	v, ok := versions[head]
 	if !ok {
-		return errors.Wrapf(err, "object has no version %s", head)
+		return errors.Errorf("object has no version %s", head)
 	}
 
 	var contentSubPath = map[string]ContentSubPathEntry{}
@@ -492,7 +492,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 				if ext, ok := metaFile.Extension[IndexerName]; ok {
 					extIndexer, ok := ext.(*indexer.ResultV2)
 					if !ok {
-						return errors.Wrapf(err, "invalid type: %v", ext)
+						return errors.Errorf("invalid type: %v", ext)
 					}
 					metsFile.FILECORE.MIMETYPEAttr = extIndexer.Mimetype
 					objectCharacter := &premis.ObjectCharacteristicsComplexType{
@@ -610,10 +610,10 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 				for _, intPath := range metaFile.InternalName {
 					parts := strings.Split(intPath, "/")
 					if len(parts) <= 2 {
-						return errors.Wrapf(err, "invalid path %s", intPath)
+						return errors.Errorf("invalid path %s", intPath)
 					}
-					if parts[1] != "content" {
-						return errors.Wrapf(err, "no content in %s", intPath)
+					if parts[1] != inventory.GetContentDir() {
+						return errors.Errorf("no content in %s", intPath)
 					}
 					var intArea = "content"
 					var isSchema bool
@@ -767,7 +767,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 					}
 					migration, ok := migrationAny.(*MigrationResult)
 					if !ok {
-						return errors.Wrapf(err, "invalid type for migration of '%s': %v", cs, migrationAny)
+						return errors.Errorf("invalid type for migration of '%s': %v", cs, migrationAny)
 					}
 					eventMigration := &premis.EventComplexType{
 						XMLName:     xml.Name{},
@@ -956,7 +956,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 		if ext, ok := found.Extension[IndexerName]; ok {
 			extIndexer, ok := ext.(*indexer.ResultV2)
 			if !ok {
-				return errors.Wrapf(err, "invalid type: %v", ext)
+				return errors.Errorf("invalid type: %v", ext)
 			}
 			foundMimetype = extIndexer.Mimetype
 		}
-- 
2.43.0


From a28047caab8451e92673a39bff14cf65b25a58b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:43 +0000
Subject: [PATCH 111/132] fix: METS told a wrong or no checksum type

---
 pkg/extension/NNNN-mets.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index 3bbc1d5..96ebca2 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -411,7 +411,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 						SIZEAttr:         size,
 						CREATEDAttr:      creationString,
 						CHECKSUMAttr:     cs,
-						CHECKSUMTYPEAttr: "SHA-512",
+						CHECKSUMTYPEAttr: checksumTypeToMets(string(inventory.GetDigestAlgorithm())),
 					},
 					IDAttr:  uuidString,
 					USEAttr: "Datafile",
@@ -1105,7 +1105,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 					"PREMIS",
 					"",
 					premisChecksum,
-					"SHA-512"),
+					"sha512"),
 			},
 		}
 		structPhysical["metadata"] = append(structPhysical["metadata"], id)
@@ -1122,7 +1122,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 				"PREMIS",
 				"",
 				premisChecksum,
-				"SHA-512"))
+				"sha512"))
 			structPhysical["metadata"] = append(structPhysical["metadata"], id)
 		}
 		amdSecs = append(amdSecs, sec)
-- 
2.43.0


From 18ccb3889d5bb28e8c3679955e122c7ca67ca59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:43 +0000
Subject: [PATCH 112/132] fix: METS referred to places where PREMIS is not

---
 pkg/extension/NNNN-mets.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index 96ebca2..5550f9c 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -282,12 +282,12 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot get area path for '%s'", "content")
 		}
 		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, me.StorageName, me.MetsFile)), "/")
-		metsNames, err = object.BuildNames([]string{metsName}, "")
+		metsNames, err = object.BuildNames([]string{metsName}, "full")
 		if err != nil {
 			return errors.Wrapf(err, "cannot build names for %s", metsName)
 		}
 		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, me.StorageName, me.PremisFile)), "/")
-		premisNames, err = object.BuildNames([]string{premisName}, "")
+		premisNames, err = object.BuildNames([]string{premisName}, "full")
 		if err != nil {
 			return errors.Wrapf(err, "cannot build names for %s", premisName)
 		}
@@ -296,13 +296,13 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 		metsNames = &ocfl.NamesStruct{
 			ExternalPaths: []string{me.MetsFile},
 			InternalPath:  metsName,
-			ManifestPath:  "",
+			ManifestPath:  filepath.ToSlash(filepath.Join("extensions", METSName, metsName)),
 		}
 		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, versionedName(me.PremisFile, head))), "/")
 		premisNames = &ocfl.NamesStruct{
 			ExternalPaths: []string{me.PremisFile},
 			InternalPath:  premisName,
-			ManifestPath:  "",
+			ManifestPath:  filepath.ToSlash(filepath.Join("extensions", METSName, premisName)),
 		}
 	default:
 		return errors.Errorf("unsupported storage type '%s'", me.StorageType)
@@ -1096,7 +1096,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 				newMDSec(
 					id,
 					"",
-					premisNames.InternalPath,
+					premisNames.ManifestPath,
 					"OTHER",
 					"URL:internal",
 					"application/xml",
@@ -1109,7 +1109,12 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			},
 		}
 		structPhysical["metadata"] = append(structPhysical["metadata"], id)
-		for _, ext := range premisNames.ExternalPaths {
+		externalPaths := premisNames.ExternalPaths
+		if strings.ToLower(me.StorageType) == "extension" {
+			// files of the extension folder are not extracted
+			externalPaths = nil
+		}
+		for _, ext := range externalPaths {
 			id := "amdSec-ext-uuid-" + uuid.NewString()
 			sec.DigiprovMD = append(sec.DigiprovMD, newMDSec(
 				id,
-- 
2.43.0


From 901783e8594821df0c9f28eb22a7c32c4a83abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 113/132] fix: METS mixed up areas and had references to
 nothing

---
 pkg/extension/NNNN-mets.go | 113 +++++++++++++++----------------------
 1 file changed, 46 insertions(+), 67 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index 5550f9c..4a26c07 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -607,7 +607,12 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 						},
 					})
 				}
-				for _, intPath := range metaFile.InternalName {
+				extArea, isSchema := areaOf(contentSubPath, extPath)
+				isMetadata := extArea == "metadata" && !isSchema
+				// the document of the previous version, which is going to be replaced
+				isOwn := strings.ToLower(me.StorageType) != "extension" &&
+					slices.Contains([]string{metsNames.ExternalPaths[0], premisNames.ExternalPaths[0]}, extPath)
+				for i, intPath := range metaFile.InternalName {
 					parts := strings.Split(intPath, "/")
 					if len(parts) <= 2 {
 						return errors.Errorf("invalid path %s", intPath)
@@ -615,26 +620,13 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 					if parts[1] != inventory.GetContentDir() {
 						return errors.Errorf("no content in %s", intPath)
 					}
-					var intArea = "content"
-					var isSchema bool
-					//					var intSemantic = "Other Payload"
-					if len(parts) > 3 {
-						if contentSubPath != nil {
-							intArea = parts[2]
-							// intSemantic = ""
-							for area, cse := range contentSubPath {
-								if cse.Path == intArea {
-									intArea = area
-									// intSemantic = cse.Description
-									isSchema = parts[3] == "schemas"
-									break
-								}
-							}
+					if isMetadata {
+						id := fmt.Sprintf("dmdSec-int-%s", uuidString)
+						if i > 0 {
+							id += fmt.Sprintf("-%d", i)
 						}
-					}
-					if intArea == "metadata" && !isSchema {
 						dmdSecs = append(dmdSecs, newMDSec(
-							fmt.Sprintf("dmdSec-int-%s", uuidString),
+							id,
 							"area-metadata",
 							intPath,
 							"OTHER",
@@ -649,16 +641,6 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 						continue
 					}
 
-					if isSchema {
-						structPhysical["schemas"] = append(structPhysical["schemas"], uuidString)
-					} else {
-						structPhysical[intArea] = append(structPhysical[intArea], uuidString)
-					}
-					/*
-						if intSemantic != "" {
-							structSemantical[intSemantic] = append(structSemantical[intSemantic], uuidString)
-						}
-					*/
 					href := intPath
 					metsFile.FLocat = append(metsFile.FLocat, &mets.FLocat{
 						LOCATION: &mets.LOCATION{
@@ -686,25 +668,8 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 						})
 					*/
 				}
-				//		if extNames, ok := metaFile.VersionName[head]; ok {
-				//			for _, extPath := range extNames {
-				parts := strings.Split(extPath, "/")
-				var extArea = "content"
-				var isSchema bool
-				if len(parts) > 1 {
-					if contentSubPath != nil {
-						extArea = parts[0]
-						for area, cse := range contentSubPath {
-							if cse.Path == extArea {
-								extArea = area
-								isSchema = parts[1] == "schemas"
-								break
-							}
-						}
-					}
-				}
-				if extArea == "metadata" && !isSchema {
-					if !slices.Contains([]string{metsNames.ExternalPaths[0], premisNames.ExternalPaths[0]}, extPath) {
+				if isMetadata {
+					if !isOwn {
 						dmdSecs = append(dmdSecs, newMDSec(
 							fmt.Sprintf("dmdSec-ext-%s", uuidString),
 							"area-metadata",
@@ -719,19 +684,26 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 							cs,
 							string(inventory.GetDigestAlgorithm())))
 					}
-					continue
+				} else {
+					if !isOwn {
+						metsFile.FLocat = append(metsFile.FLocat, &mets.FLocat{
+							LOCATION: &mets.LOCATION{
+								LOCTYPEAttr: "URL",
+							},
+							SimpleLink: &mets.SimpleLink{
+								//XMLName:          xml.Name{},
+								TypeAttr: "simple",
+								XlinkHrefAttr:/* externalRelativePath + */ extPath,
+							},
+						})
+					}
+					group := extArea
+					if isSchema {
+						group = "schemas"
+					}
+					metsFiles[group] = append(metsFiles[group], metsFile)
+					structPhysical[group] = append(structPhysical[group], uuidString)
 				}
-
-				metsFile.FLocat = append(metsFile.FLocat, &mets.FLocat{
-					LOCATION: &mets.LOCATION{
-						LOCTYPEAttr: "URL",
-					},
-					SimpleLink: &mets.SimpleLink{
-						//XMLName:          xml.Name{},
-						TypeAttr: "simple",
-						XlinkHrefAttr:/* externalRelativePath + */ extPath,
-					},
-				})
 				/*
 					premisFile.Storage = append(premisFile.Storage, &premis.StorageComplexType{
 						XMLName: xml.Name{},
@@ -842,13 +814,6 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 					}
 					premisEvents = append(premisEvents, eventMigration)
 				}
-				if len(metsFile.FLocat) > 0 {
-					a := extArea
-					if isSchema {
-						a = "schemas"
-					}
-					metsFiles[a] = append(metsFiles[a], metsFile)
-				}
 				premisFiles = append(premisFiles, premisFile)
 			}
 		}
@@ -1376,6 +1341,20 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 	return nil
 }
 
+// areaOf finds the area a path belongs to, and tells whether it is a schema there
+func areaOf(contentSubPath map[string]ContentSubPathEntry, path string) (area string, isSchema bool) {
+	area = "content"
+	var prefix string
+	for name, entry := range contentSubPath {
+		p := strings.Trim(filepath.ToSlash(entry.Path), "/") + "/"
+		if len(p) > len(prefix) && strings.HasPrefix(path, p) {
+			area = name
+			prefix = p
+		}
+	}
+	return area, prefix != "" && strings.HasPrefix(path[len(prefix):], "schemas/")
+}
+
 // versionedName inserts the version of the object if the name has a place for it
 func versionedName(name, head string) string {
 	return strings.ReplaceAll(name, "%s", head)
-- 
2.43.0


From dccc0e99c5e77320b2bbac2329b313c0c5b0b463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:39 +0000
Subject: [PATCH 114/132] fix: PREMIS told size 0 of files whose size is not
 known

---
 pkg/dilcis/premis/premis.go | 2 +-
 pkg/extension/NNNN-mets.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dilcis/premis/premis.go b/pkg/dilcis/premis/premis.go
index 2d74bb0..0f978d7 100644
--- a/pkg/dilcis/premis/premis.go
+++ b/pkg/dilcis/premis/premis.go
@@ -366,7 +366,7 @@ type ObjectCharacteristicsComplexType struct {
 	XMLName                        xml.Name                          `xml:"objectCharacteristics"`
 	CompositionLevel               *CompositionLevelComplexType      `xml:"compositionLevel"`
 	Fixity                         []*FixityComplexType              `xml:"fixity"`
-	Size                           int64                             `xml:"size"`
+	Size                           int64                             `xml:"size,omitempty"`
 	Format                         []*FormatComplexType              `xml:"format"`
 	CreatingApplication            []*CreatingApplicationComplexType `xml:"creatingApplication"`
 	Inhibitors                     []*InhibitorsComplexType          `xml:"inhibitors"`
diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index 4a26c07..4211af5 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -501,7 +501,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 						Fixity: []*premis.FixityComplexType{
 							premis.NewFixityComplexType(string(metadata.DigestAlgorithm), cs, "gocfl "+version.VERSION),
 						},
-						Size:   int64(extIndexer.Size),
+						Size:   size,
 						Format: []*premis.FormatComplexType{},
 					}
 					if extIndexer.Mimetype != "" {
-- 
2.43.0


From 20099b1b1b5d31127d8ef85cb08df144a1812b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:20 +0000
Subject: [PATCH 115/132] fix: records of files replaced by other data in the
 same update were kept

---
 pkg/extension/NNNN-filesystem.go | 97 ++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 43 deletions(-)

diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index 5d363be..0309fc9 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -11,10 +11,10 @@ import (
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/utils/v2/pkg/zLogger"
 	"golang.org/x/exp/slices"
-	"io"
 	"io/fs"
 	"os"
 	"path/filepath"
+	"strings"
 	"time"
 )
 
@@ -40,7 +40,7 @@ func NewFilesystemFS(fsys fs.FS, logger zLogger.ZLogger) (*Filesystem, error) {
 func NewFilesystem(config *FilesystemConfig) (*Filesystem, error) {
 	sl := &Filesystem{
 		FilesystemConfig: config,
-		buffer:           map[string]*bytes.Buffer{},
+		lines:            map[string][]*FileSystemLine{},
 	}
 	//	sl.writer = brotli.NewWriter(sl.buffer)
 	if config.ExtensionName != sl.GetName() {
@@ -62,8 +62,9 @@ type FilesystemMeta struct {
 }
 
 type FileSystemLine struct {
-	Path string          `json:"path"`
-	Meta *FilesystemMeta `json:"meta"`
+	Path   string          `json:"path"`
+	Meta   *FilesystemMeta `json:"meta"`
+	digest string
 }
 
 type FilesystemConfig struct {
@@ -76,11 +77,8 @@ type FilesystemConfig struct {
 
 type Filesystem struct {
 	*FilesystemConfig
-	fsys        fs.FS
-	lastHead    string
-	currentHead string
-	buffer      map[string]*bytes.Buffer
-	writer      *brotli.Writer
+	fsys  fs.FS
+	lines map[string][]*FileSystemLine
 }
 
 func (extFS *Filesystem) Terminate() error {
@@ -115,12 +113,8 @@ func (extFS *Filesystem) AddFileAfter(object ocfl.Object, sourceFS fs.FS, source
 	inventory := object.GetInventory()
 
 	head := inventory.GetHead()
-	if _, ok := extFS.buffer[head]; !ok {
-		extFS.buffer[head] = &bytes.Buffer{}
-	}
-	if extFS.currentHead != head {
-		extFS.writer = brotli.NewWriter(extFS.buffer[head])
-		extFS.currentHead = head
+	if _, ok := extFS.lines[head]; !ok {
+		extFS.lines[head] = []*FileSystemLine{}
 	}
 
 	for _, src := range source {
@@ -157,18 +151,38 @@ func (extFS *Filesystem) AddFileAfter(object ocfl.Object, sourceFS fs.FS, source
 		}
 
 		fsLine := &FileSystemLine{
-			Path: newSrc,
-			Meta: fsMeta,
+			Path:   newSrc,
+			Meta:   fsMeta,
+			digest: digest,
 		}
-		data, err := json.Marshal(fsLine)
-		if err != nil {
-			return errors.Errorf("cannot marshal result %v", fsLine)
+		extFS.lines[head] = append(extFS.lines[head], fsLine)
+	}
+	return nil
+}
+
+// encodeLines returns the records of a version as jsonl
+func (extFS *Filesystem) encodeLines(object ocfl.Object, version string) ([]byte, error) {
+	digests := map[string]string{}
+	if err := object.GetInventory().IterateStateFiles(version, func(internals, externals []string, digest string) error {
+		for _, external := range externals {
+			digests[external] = digest
 		}
-		if _, err := extFS.writer.Write(append(data, []byte("\n")...)); err != nil {
-			return errors.Errorf("cannot brotli %s", string(data))
+		return nil
+	}); err != nil {
+		return nil, errors.Wrapf(err, "cannot iterate state files for '%s' version '%s'", object.GetID(), version)
+	}
+	buffer := &bytes.Buffer{}
+	jenc := json.NewEncoder(buffer)
+	for _, line := range extFS.lines[version] {
+		// the file may have been replaced within the same update
+		if digest, ok := digests[line.Path]; ok && line.digest != "" && !strings.EqualFold(line.digest, digest) {
+			continue
+		}
+		if err := jenc.Encode(line); err != nil {
+			return nil, errors.Wrapf(err, "cannot marshal result %v", line)
 		}
 	}
-	return nil
+	return buffer.Bytes(), nil
 }
 
 func (extFS *Filesystem) UpdateFileAfter(object ocfl.Object, sourceFS fs.FS, source, dest, area string, isDir bool) error {
@@ -205,13 +219,10 @@ func (extFS *Filesystem) GetMetadata(object ocfl.Object) (map[string]any, error)
 	// records of later versions replace those of earlier ones
 	for _, v := range inventory.GetVersionStrings() {
 		var data []byte
-		if buf, ok := extFS.buffer[v]; ok && buf.Len() > 0 {
-			//		if v == inventory.GetHead() && sl.buffer.Len() > 0 {
-			// need a new reader on the buffer
-			reader := brotli.NewReader(bytes.NewBuffer(buf.Bytes()))
-			data, err = io.ReadAll(reader)
+		if lines, ok := extFS.lines[v]; ok && len(lines) > 0 {
+			data, err = extFS.encodeLines(object, v)
 			if err != nil {
-				return nil, errors.Wrapf(err, "cannot read buffer for '%s' '%s'", object.GetID(), v)
+				return nil, errors.Wrapf(err, "cannot encode records for '%s' '%s'", object.GetID(), v)
 			}
 		} else {
 			data, err = ocfl.ReadJsonL(object, "filesystem", v, extFS.FilesystemConfig.Compress, extFS.StorageType, extFS.StorageName, extFS.fsys)
@@ -265,30 +276,30 @@ func (extFS *Filesystem) GetMetadata(object ocfl.Object) (map[string]any, error)
 
 func (extFS *Filesystem) UpdateObjectBefore(object ocfl.Object) error {
 	// records of an update before belong to another version
-	delete(extFS.buffer, object.GetInventory().GetHead())
-	extFS.writer = nil
-	extFS.currentHead = ""
+	delete(extFS.lines, object.GetInventory().GetHead())
 	return errors.Wrap(ocfl.RemoveJsonL(object, "filesystem", extFS.FilesystemConfig.Compress, extFS.StorageType, extFS.StorageName, extFS.fsys), "cannot remove record")
 }
 
 func (extFS *Filesystem) UpdateObjectAfter(object ocfl.Object) error {
-	if extFS.writer == nil {
-		return nil
-	}
-	if err := extFS.writer.Flush(); err != nil {
-		return errors.Wrap(err, "cannot flush brotli writer")
-	}
-	if err := extFS.writer.Close(); err != nil {
-		return errors.Wrap(err, "cannot close brotli writer")
-	}
 	head := object.GetInventory().GetHead()
 	if head == "" {
 		return errors.Errorf("no head for object '%s'", object.GetID())
 	}
-	buffer, ok := extFS.buffer[head]
-	if !ok {
+	if _, ok := extFS.lines[head]; !ok {
 		return nil
 	}
+	data, err := extFS.encodeLines(object, head)
+	if err != nil {
+		return errors.Wrapf(err, "cannot encode records for '%s'", object.GetID())
+	}
+	buffer := &bytes.Buffer{}
+	writer := brotli.NewWriter(buffer)
+	if _, err := writer.Write(data); err != nil {
+		return errors.Wrap(err, "cannot write to brotli writer")
+	}
+	if err := writer.Close(); err != nil {
+		return errors.Wrap(err, "cannot close brotli writer")
+	}
 	if err := ocfl.WriteJsonL(
 		object,
 		"filesystem",
-- 
2.43.0


From 59b5e8cef9cb64e56346414be35fce5427b07f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:56 +0000
Subject: [PATCH 116/132] fix: statistics of an object which could not be
 written were reported as complete, digest algorithm was told as path

---
 pkg/ocfl/objectbase.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index c8b811f..da63022 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -165,8 +165,10 @@ func (object *ObjectBase) GetMetadata() (*ObjectMetadata, error) {
 	return result, nil
 }
 
-func (object *ObjectBase) Stat(w io.Writer, statInfo []StatInfo) error {
-	fmt.Fprintf(w, "[%s] Path: %s\n", object.GetID(), object.GetDigestAlgorithm())
+func (object *ObjectBase) Stat(writer io.Writer, statInfo []StatInfo) error {
+	// remembers the first error
+	w := &errorWriter{Writer: writer}
+	fmt.Fprintf(w, "[%s] Digest: %s\n", object.GetID(), object.GetDigestAlgorithm())
 	i := object.GetInventory()
 	fmt.Fprintf(w, "[%s] Head: %s\n", object.GetID(), i.GetHead())
 	f := i.GetFixity()
@@ -219,7 +221,7 @@ func (object *ObjectBase) Stat(w io.Writer, statInfo []StatInfo) error {
 			fmt.Fprintf(w, "---\n%s\n", str)
 		}
 	}
-	return nil
+	return errors.Wrap(w.err, "cannot write to writer")
 }
 
 func (object *ObjectBase) GetFS() fs.FS {
-- 
2.43.0


From 1c3a20053a375b07a1dda9c52ed6e803096babcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:56 +0000
Subject: [PATCH 117/132] fix: statistics told versions and files in random
 order

---
 pkg/ocfl/objectbase.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index da63022..09d3761 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -17,6 +17,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"runtime"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -176,6 +177,7 @@ func (object *ObjectBase) Stat(writer io.Writer, statInfo []StatInfo) error {
 	for alg, _ := range f {
 		algs = append(algs, string(alg))
 	}
+	sort.Strings(algs)
 	fmt.Fprintf(w, "[%s] Fixity: %s\n", object.GetID(), strings.Join(algs, ", "))
 	m := i.GetManifest()
 	cnt := 0
@@ -184,15 +186,24 @@ func (object *ObjectBase) Stat(writer io.Writer, statInfo []StatInfo) error {
 	}
 	fmt.Fprintf(w, "[%s] Manifest: %v files (%v unique files)\n", object.GetID(), cnt, len(m))
 	if slices.Contains(statInfo, StatObjectVersions) || len(statInfo) == 0 {
-		for vString, version := range i.GetVersions() {
+		versions := i.GetVersions()
+		versionStrings := maps.Keys(versions)
+		sort.Strings(versionStrings)
+		sort.SliceStable(versionStrings, func(a, b int) bool {
+			return i.VersionLessOrEqual(versionStrings[a], versionStrings[b])
+		})
+		for _, vString := range versionStrings {
+			version := versions[vString]
 			fmt.Fprintf(w, "[%s] Version %s\n", object.GetID(), vString)
 			fmt.Fprintf(w, "[%s]     User: %s (%s)\n", object.GetID(), version.User.User.Name.string, version.User.User.Address.string)
 			fmt.Fprintf(w, "[%s]     Created: %s\n", object.GetID(), version.Created.String())
 			fmt.Fprintf(w, "[%s]     Message: %s\n", object.GetID(), version.Message.string)
 			if slices.Contains(statInfo, StatObjectVersionState) || len(statInfo) == 0 {
 				state := version.State.State
-				for cs, sList := range state {
-					for _, s := range sList {
+				digests := maps.Keys(state)
+				sort.Strings(digests)
+				for _, cs := range digests {
+					for _, s := range state[cs] {
 						fmt.Fprintf(w, "[%s]        %s\n", object.GetID(), s)
 						if slices.Contains(statInfo, StatObjectManifest) || len(statInfo) == 0 {
 							ms, ok := m[cs]
-- 
2.43.0


From 52cdccec4864e7cc4e3a42354f6562cfa84809ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:54 +0000
Subject: [PATCH 118/132] fix: METS told migrations of earlier versions with
 the date of the new version

---
 pkg/extension/NNNN-mets.go      | 8 ++++----
 pkg/extension/NNNN-migration.go | 3 +++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index 4211af5..22fe565 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -733,14 +733,14 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 									}
 				*/
 				if migrationAny, ok := metaFile.Extension[MigrationName]; ok {
-					ver, ok := metadata.Versions[head]
-					if !ok {
-						return errors.Errorf("cannot find head version '%s'", head)
-					}
 					migration, ok := migrationAny.(*MigrationResult)
 					if !ok {
 						return errors.Errorf("invalid type for migration of '%s': %v", cs, migrationAny)
 					}
+					ver, ok := metadata.Versions[migration.version]
+					if !ok {
+						return errors.Errorf("cannot find version '%s' of migration of '%s'", migration.version, cs)
+					}
 					eventMigration := &premis.EventComplexType{
 						XMLName:     xml.Name{},
 						XmlIDAttr:   "",
diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index afc456d..51911ac 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -76,6 +76,8 @@ type MigrationResult struct {
 	Source string `json:"source"`
 	Error  string `json:"error,omitempty"`
 	ID     string `json:"id"`
+
+	version string // version in which the migration was recorded
 }
 
 type migrationLine struct {
@@ -513,6 +515,7 @@ func (mi *Migration) readLines(object ocfl.Object) ([]*migrationLine, error) {
 				return nil, errors.Errorf("cannot find checksum for file '%s' in object '%s'", meta.Migration.Source, object.GetID())
 			}
 			meta.Migration.Source = digest
+			meta.Migration.version = v
 			result = append(result, &meta)
 		}
 		if err := r.Err(); err != nil {
-- 
2.43.0


From 2aed7f917bbb7b567075a975dbee4e47410f1eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:00 +0000
Subject: [PATCH 119/132] fix: extension documentation which could not be
 written was left open

---
 pkg/ocfl/storagerootbase.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index f43fbb3..21d8a9c 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -116,6 +116,7 @@ func (osr *StorageRootBase) Init(version OCFLVersion, digest checksum.DigestAlgo
 			return errors.Wrapf(err, "cannot create extension doc %s", extDoc.Name())
 		}
 		if _, err := extDocFile.Write(extDocFileContent); err != nil {
+			_ = extDocFile.Close()
 			return errors.Wrapf(err, "cannot write extension doc %s", extDoc.Name())
 		}
 		if err := extDocFile.Close(); err != nil {
-- 
2.43.0


From 3d377da4368296aa14d3d456cf3d8c4437680fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:10 +0000
Subject: [PATCH 120/132] fix: E064 compares the inventory files, not only
 their meaning

---
 pkg/ocfl/objectbase.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 09d3761..2ba951d 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1448,7 +1448,16 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 	if len(versionStrings) > 0 {
 		lastVersion := versionStrings[len(versionStrings)-1]
 		if lastInv, ok := versionInventories[lastVersion]; ok {
-			if !lastInv.IsEqual(object.i) {
+			// both files must be the same, not only their meaning
+			rootBytes, err := fs.ReadFile(object.fsys, "inventory.json")
+			if err != nil {
+				return errors.Wrap(err, "cannot read root inventory")
+			}
+			lastBytes, err := fs.ReadFile(object.fsys, lastVersion+"/inventory.json")
+			if err != nil {
+				return errors.Wrapf(err, "cannot read inventory of version '%s'", lastVersion)
+			}
+			if !lastInv.IsEqual(object.i) || !bytes.Equal(rootBytes, lastBytes) {
 				object.addValidationError(E064, "root inventory not equal to inventory version '%s'", lastVersion)
 			}
 		}
-- 
2.43.0


From 5b83a030b3ec038af8c46ecf620c3467a16033d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:46 +0000
Subject: [PATCH 121/132] fix: storage root without extensions folder could not
 be opened

---
 pkg/ocfl/helper.go          | 24 ++++++++++++++++++++++++
 pkg/ocfl/storageroot.go     |  4 ++--
 pkg/ocfl/storagerootbase.go |  2 +-
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index cade3e1..7651b2e 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -6,6 +6,7 @@ import (
 	"context"
 	"emperror.dev/emperror"
 	"emperror.dev/errors"
+	"encoding/json"
 	"fmt"
 	"github.com/andybalholm/brotli"
 	"github.com/je4/filesystem/v3/pkg/writefs"
@@ -399,6 +400,29 @@ func subExtensions(fsys fs.FS) (fs.FS, error) {
 	return sub, nil
 }
 
+// subRootExtensions returns the extensions folder of a storage root. There may be none, if
+// the identifiers of the objects need no mapping.
+func subRootExtensions(fsys fs.FS) (fs.FS, error) {
+	sub, err := fs.Sub(fsys, "extensions")
+	if err == nil || !errors.Is(err, fs.ErrNotExist) {
+		return sub, errors.WithStack(err)
+	}
+	data, layoutErr := fs.ReadFile(fsys, "ocfl_layout.json")
+	if layoutErr != nil {
+		if errors.Is(layoutErr, fs.ErrNotExist) {
+			return noFS{}, nil
+		}
+		return nil, errors.Wrap(layoutErr, "cannot read ocfl_layout.json")
+	}
+	var layout struct {
+		Extension string `json:"extension"`
+	}
+	if json.Unmarshal(data, &layout) == nil && layout.Extension == "0002-flat-direct-storage-layout" {
+		return noFS{}, nil
+	}
+	return nil, errors.Wrapf(err, "no extension for storage layout '%s'", layout.Extension)
+}
+
 // findStateFile returns where the content of a file of a version is stored. The name of
 // the content is not the name of the file.
 func findStateFile(object Object, path, area, version string) (string, error) {
diff --git a/pkg/ocfl/storageroot.go b/pkg/ocfl/storageroot.go
index 085e8ee..807b650 100644
--- a/pkg/ocfl/storageroot.go
+++ b/pkg/ocfl/storageroot.go
@@ -109,7 +109,7 @@ func LoadStorageRoot(ctx context.Context, fsys fs.FS, extensionFactory *Extensio
 		}
 		version = Version1_1
 	}
-	extFSys, err := fs.Sub(fsys, "extensions")
+	extFSys, err := subRootExtensions(fsys)
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot create sub filesystem 'extensions'")
 	}
@@ -145,7 +145,7 @@ func LoadStorageRootRO(ctx context.Context, fsys fs.FS, extensionFactory *Extens
 		}
 		version = Version1_1
 	}
-	extFSys, err := fs.Sub(fsys, "extensions")
+	extFSys, err := subRootExtensions(fsys)
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot create sub filesystem 'extensions'")
 	}
diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 21d8a9c..5cb353d 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -178,7 +178,7 @@ func (osr *StorageRootBase) Load() error {
 		osr.version = Version1_0
 	}
 
-	extFSys, err := fs.Sub(osr.fsys, "extensions")
+	extFSys, err := subRootExtensions(osr.fsys)
 	if err != nil {
 		return errors.Wrapf(err, "cannot create subfs of %v for extensions", osr.fsys)
 	}
-- 
2.43.0


From 6c9a6557771cd520434567f1902661981ed0942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:47 +0000
Subject: [PATCH 122/132] fix: parameters left out of a layout configuration
 did not get their default value

---
 pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go | 3 ++-
 pkg/extension/0004-hashed-n-tuple-storage-layout.go      | 3 ++-
 pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go | 3 ++-
 pkg/extension/NNNN-direct-clean-path-layout.go           | 8 +++++++-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index f6fd54b..b4d445e 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -27,7 +27,8 @@ func NewStorageLayoutHashAndIdNTupleFS(fsys fs.FS) (*StorageLayoutHashAndIdNTupl
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot read config.json")
 	}
-	var config = &StorageLayoutHashAndIdNTupleConfig{}
+	// defaults of the extension
+	var config = &StorageLayoutHashAndIdNTupleConfig{DigestAlgorithm: string(checksum.DigestSHA256), TupleSize: 3, NumberOfTuples: 3}
 	if err := json.Unmarshal(data, config); err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
diff --git a/pkg/extension/0004-hashed-n-tuple-storage-layout.go b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
index 8e85896..b1a9f8e 100644
--- a/pkg/extension/0004-hashed-n-tuple-storage-layout.go
+++ b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
@@ -27,7 +27,8 @@ func NewStorageLayoutHashedNTupleFS(fsys fs.FS) (*StorageLayoutHashedNTuple, err
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot read config.json")
 	}
-	var config = &StorageLayoutHashedNTupleConfig{}
+	// defaults of the extension
+	var config = &StorageLayoutHashedNTupleConfig{DigestAlgorithm: string(checksum.DigestSHA256), TupleSize: 3, NumberOfTuples: 3}
 	if err := json.Unmarshal(data, config); err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index ab5da7d..0c28d3f 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -40,7 +40,8 @@ func NewNTupleOmitPrefixStorageLayoutFS(fsys fs.FS) (*NTupleOmitPrefixStorageLay
 		return nil, errors.Wrap(err, "cannot read config.json")
 	}
 
-	var config = &NTupleOmitPrefixStorageLayoutConfig{}
+	// defaults of the extension
+	var config = &NTupleOmitPrefixStorageLayoutConfig{TupleSize: 3, NumberOfTuples: 3, ZeroPadding: "left"}
 	if err := json.Unmarshal(data, config); err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index 85fbd11..327e951 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -55,7 +55,13 @@ func NewDirectCleanFS(fsys fs.FS) (ocfl.Extension, error) {
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot read config.json")
 	}
-	var config = &DirectCleanConfig{}
+	// defaults of the extension
+	var config = &DirectCleanConfig{
+		ReplacementString:           "_",
+		WhitespaceReplacementString: " ",
+		FallbackDigestAlgorithm:     checksum.DigestMD5,
+		FallbackTupleSize:           1,
+	}
 	if err := json.Unmarshal(data, config); err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
-- 
2.43.0


From 2e24f96f0c507d90196934ea5c1ab3abb2fc06b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:47 +0000
Subject: [PATCH 123/132] fix: identifier ending with the delimiter was stored
 in a folder the layout does not give

---
 pkg/extension/0006-flat-omit-prefix-storage-layout.go    | 3 +++
 pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/extension/0006-flat-omit-prefix-storage-layout.go b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
index a8d8aa2..78551a7 100644
--- a/pkg/extension/0006-flat-omit-prefix-storage-layout.go
+++ b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
@@ -125,6 +125,9 @@ func (sl *FlatOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.Sto
 	if last < 0 {
 		return id, nil
 	}
+	if sl.Delimiter != "" && last+len(sl.Delimiter) == len(id) {
+		return "", errors.Errorf("nothing behind delimiter '%s' in '%s'", sl.Delimiter, id)
+	}
 	return id[last+len(sl.Delimiter):], nil
 }
 
diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index 0c28d3f..c29c8ff 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -161,6 +161,9 @@ func (sl *NTupleOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.S
 	if sl.Delimiter != "" {
 		last := strings.LastIndex(id, sl.Delimiter)
 		if last >= 0 {
+			if last+len(sl.Delimiter) == len(id) {
+				return "", errors.Errorf("nothing behind delimiter '%s' in '%s'", sl.Delimiter, id)
+			}
 			id = id[last+len(sl.Delimiter):]
 		}
 	}
-- 
2.43.0


From 9258e84bf215f042645ea1bbe4583e2d4a39cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:47 +0000
Subject: [PATCH 124/132] fix: control characters were percent-encoded with one
 digit

---
 pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index b4d445e..311c3e9 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -139,7 +139,7 @@ func escape(str string) string {
 			continue
 		}
 		result = append(result, '%')
-		result = append(result, fmt.Sprintf("%x", c)...)
+		result = append(result, fmt.Sprintf("%02x", c)...)
 	}
 	return string(result)
 }
-- 
2.43.0


From 0515579946a619ee8851597556568c4d126c8156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:17 +0000
Subject: [PATCH 125/132] fix: indexer with local cache lost records and
 temporary files

---
 pkg/extension/NNNN-indexer.go | 51 ++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/pkg/extension/NNNN-indexer.go b/pkg/extension/NNNN-indexer.go
index 03c1471..28c1e21 100644
--- a/pkg/extension/NNNN-indexer.go
+++ b/pkg/extension/NNNN-indexer.go
@@ -342,24 +342,7 @@ func (sl *Indexer) StreamObject(object ocfl.Object, reader io.Reader, stateFiles
 	var result *ironmaiden.ResultV2
 	var err error
 	if sl.localCache {
-		if len(stateFiles) == 0 {
-			return errors.Wrapf(err, "no statefiles")
-		}
-		tmpFile, err := os.CreateTemp(os.TempDir(), "gocfl_*"+filepath.Ext(stateFiles[0]))
-		if err != nil {
-			return errors.Wrapf(err, "cannot create temp file")
-		}
-		fi, err := tmpFile.Stat()
-		if err != nil {
-			return errors.Wrapf(err, "cannot stat tempfile")
-		}
-		tmpFilename := filepath.ToSlash(filepath.Join(os.TempDir(), fi.Name()))
-		if _, err := io.Copy(tmpFile, reader); err != nil {
-			return errors.Wrapf(err, "cannot write to tempfile")
-		}
-		tmpFile.Close()
-		result, err = sl.indexerActions.DoV2(tmpFilename, stateFiles, sl.Actions)
-		os.Remove(tmpFilename)
+		result, err = sl.indexCached(reader, stateFiles)
 	} else {
 		result, err = sl.indexerActions.Stream(reader, stateFiles, sl.Actions)
 	}
@@ -382,6 +365,38 @@ func (sl *Indexer) StreamObject(object ocfl.Object, reader io.Reader, stateFiles
 	return nil
 }
 
+// indexCached indexes content by means of a temporary file
+func (sl *Indexer) indexCached(reader io.Reader, stateFiles []string) (*ironmaiden.ResultV2, error) {
+	if len(stateFiles) == 0 {
+		return nil, errors.New("no statefiles")
+	}
+	tmpFile, err := os.CreateTemp(os.TempDir(), "gocfl_*"+filepath.Ext(stateFiles[0]))
+	if err != nil {
+		return nil, errors.Wrap(err, "cannot create temp file")
+	}
+	tmpFilename := filepath.ToSlash(tmpFile.Name())
+	defer os.Remove(tmpFilename)
+	_, err = io.Copy(tmpFile, reader)
+	if closeErr := tmpFile.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return nil, errors.Wrap(err, "cannot write to tempfile")
+	}
+	result, err := sl.indexerActions.DoV2(tmpFilename, stateFiles, sl.Actions)
+	if err == nil {
+		return result, nil
+	}
+	// small files cannot be handled by name
+	fp, openErr := os.Open(tmpFilename)
+	if openErr != nil {
+		return nil, errors.Combine(err, errors.Wrap(openErr, "cannot open tempfile"))
+	}
+	defer fp.Close()
+	result, err = sl.indexerActions.Stream(fp, stateFiles, sl.Actions)
+	return result, errors.WithStack(err)
+}
+
 var (
 	_ ocfl.Extension = &Indexer{}
 	//	_ ocfl.ExtensionContentChange = &Indexer{}
-- 
2.43.0


From 5cdcfdded8ce380f68678cacbf23f23ca86a7590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:38 +0000
Subject: [PATCH 126/132] fix: empty record of a new version was read from a
 container which is still written

---
 pkg/extension/NNNN-filesystem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index 0309fc9..020b4be 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -219,7 +219,7 @@ func (extFS *Filesystem) GetMetadata(object ocfl.Object) (map[string]any, error)
 	// records of later versions replace those of earlier ones
 	for _, v := range inventory.GetVersionStrings() {
 		var data []byte
-		if lines, ok := extFS.lines[v]; ok && len(lines) > 0 {
+		if _, ok := extFS.lines[v]; ok {
 			data, err = extFS.encodeLines(object, v)
 			if err != nil {
 				return nil, errors.Wrapf(err, "cannot encode records for '%s' '%s'", object.GetID(), v)
-- 
2.43.0


From aee22c85711db408cf467ab932203df915a6d061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:38 +0000
Subject: [PATCH 127/132] fix: files of other areas were looked for in the
 source of the update

---
 pkg/extension/NNNN-migration.go |  4 ----
 pkg/extension/NNNN-thumbnail.go | 21 +++++++++++++++------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index 51911ac..103e781 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -316,10 +316,6 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 		}
 		if file == nil {
 			if mi.sourceFS != nil {
-				stateFiles, err := inventory.GetStateFiles("", cs)
-				if err != nil {
-					return errors.Wrapf(err, "cannot get state files for checksum '%s' in object '%s'", cs, object.GetID())
-				}
 				if len(stateFiles) == 0 {
 					return errors.Errorf("zero state file for checksum '%s' in object '%s'", cs, object.GetID())
 				}
diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index a2e3889..d3485ac 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -360,14 +360,23 @@ func (thumb *Thumbnail) UpdateObjectAfter(object ocfl.Object) error {
 					thumb.logger.Info().Msgf("create thumbnail for %s", m.InternalName[0])
 					stateFiles, err := inventory.GetStateFiles("", cs)
 					if err != nil {
-						return errors.Wrapf(err, "cannot get state files for checksum '%s' in object '%s'", cs, object.GetID())
+						// replaced within this version
+						continue
 					}
-					if len(stateFiles) == 0 {
-						return errors.Errorf("zero state file for checksum '%s' in object '%s'", cs, object.GetID())
+					// only files of the content area are in the source
+					var external string
+					for _, sf := range stateFiles {
+						p, err := object.GetExtensionManager().BuildObjectExtractPath(object, sf, "")
+						if err != nil {
+							if errors.Is(err, ocfl.ExtensionObjectExtractPathWrongAreaError) {
+								continue
+							}
+							return errors.Wrapf(err, "cannot build external path for file '%s' in object '%s'", sf, object.GetID())
+						}
+						external = p
 					}
-					external, err := object.GetExtensionManager().BuildObjectExtractPath(object, stateFiles[len(stateFiles)-1], "")
-					if err != nil {
-						return errors.Wrapf(err, "cannot build external path for file '%s' in object '%s'", stateFiles[len(stateFiles)-1], object.GetID())
+					if external == "" {
+						continue
 					}
 					file, err = thumb.sourceFS.Open(external)
 					if err != nil {
-- 
2.43.0


From 7014d0660df7e9f71442e75c3c3378172bd64365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:19 +0000
Subject: [PATCH 128/132] fix: update without a configured metadata source
 terminated the program

---
 pkg/extension/NNNN-metafile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index a1fe284..1ec278c 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -206,7 +206,7 @@ func toStringKeys(val interface{}) (interface{}, error) {
 }
 
 func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
-	if sl.metadataSource.Path == "" {
+	if sl.metadataSource != nil && sl.metadataSource.Path == "" {
 		return nil
 	}
 	if sl.stored {
-- 
2.43.0


From 617739e939c980043610702b271a0c8b6e5887ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:19 +0000
Subject: [PATCH 129/132] fix: object without metadata file could not be
 reported, an unreadable one was replaced by its predecessor

---
 pkg/extension/NNNN-metafile.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index 1ec278c..624e0d3 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -373,16 +373,26 @@ func (sl *MetaFile) GetMetadata(object ocfl.Object) (map[string]any, error) {
 	slices.Reverse(versions)
 	var metadata []byte
 	for _, ver := range versions {
-		var ok bool
-		if metadata, ok = sl.info[ver]; ok {
+		// what was stored last may not be readable before its container is closed
+		if info, ok := sl.info[ver]; ok {
+			metadata = info
+			break
+		}
+	}
+	for _, ver := range versions {
+		if metadata != nil {
 			break
 		}
 		if metadata, err = ocfl.ReadFile(object, sl.MetaName, ver, sl.StorageType, sl.StorageName, sl.fsys); err == nil {
 			break
 		}
+		if !errors.Is(err, fs.ErrNotExist) {
+			return nil, errors.Wrapf(err, "cannot read %s", sl.MetaName)
+		}
 	}
 	if metadata == nil {
-		return nil, errors.Wrapf(err, "cannot read %s", sl.MetaName)
+		// nothing was recorded
+		return result, nil
 	}
 	var metaStruct = map[string]any{}
 	if err := json.Unmarshal(metadata, &metaStruct); err != nil {
-- 
2.43.0


From 142fd43fd72818a5286f5eca4864ad7c2be9a89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:57 +0000
Subject: [PATCH 130/132] fix: files of further updates of an open object were
 not migrated

---
 pkg/extension/NNNN-migration.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index 103e781..78af9ad 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -142,6 +142,7 @@ func (mi *Migration) WriteConfig() error {
 func (mi *Migration) UpdateObjectBefore(object ocfl.Object) error {
 	// records of an update before belong to another version
 	delete(mi.buffer, object.GetInventory().GetHead())
+	mi.done = false
 	return errors.Wrap(ocfl.RemoveJsonL(object, "migration", mi.MigrationConfig.Compress, mi.StorageType, mi.StorageName, mi.fsys), "cannot remove record")
 }
 
@@ -165,6 +166,7 @@ func (mi *Migration) UpdateObjectAfter(object ocfl.Object) error {
 	if err != nil {
 		return errors.Wrapf(err, "cannot get metadata from object %s", object.GetID())
 	}
+	mi.migrationFiles = map[string]*migration.Function{}
 	// several files can have the same result, and a result can be replaced
 	lines, err := mi.readLines(object)
 	if err != nil {
-- 
2.43.0


From ed4254acf690822ccbe6915f3ace0f5c41fb3ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:15 +0000
Subject: [PATCH 131/132] fix: type of metadata files was missing in the METS
 document

---
 pkg/extension/NNNN-mets.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index 22fe565..e95fd7b 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -488,13 +488,14 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 					ObjectCharacteristics: []*premis.ObjectCharacteristicsComplexType{},
 					Storage:               []*premis.StorageComplexType{},
 				}
-				var mimeType string
+				mimeType := "application/octet-stream"
 				if ext, ok := metaFile.Extension[IndexerName]; ok {
 					extIndexer, ok := ext.(*indexer.ResultV2)
 					if !ok {
 						return errors.Errorf("invalid type: %v", ext)
 					}
-					metsFile.FILECORE.MIMETYPEAttr = extIndexer.Mimetype
+					mimeType = extIndexer.Mimetype
+					metsFile.FILECORE.MIMETYPEAttr = mimeType
 					objectCharacter := &premis.ObjectCharacteristicsComplexType{
 						XMLName:          xml.Name{},
 						CompositionLevel: nil,
-- 
2.43.0


From 5340c2038576d504fe60359fb12ecb3b423bf001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:31 +0000
Subject: [PATCH 132/132] fix: record line without metadata terminated the
 program

---
 pkg/extension/NNNN-filesystem.go | 3 +++
 pkg/extension/NNNN-indexer.go    | 3 +++
 pkg/extension/NNNN-migration.go  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index 020b4be..24eeffc 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -245,6 +245,9 @@ func (extFS *Filesystem) GetMetadata(object ocfl.Object) (map[string]any, error)
 			if err := json.Unmarshal([]byte(lineStr), &meta); err != nil {
 				return nil, errors.Wrapf(err, "cannot unmarshal line from for '%s' %s - [%s]", object.GetID(), v, lineStr)
 			}
+			if meta == nil || meta.Meta == nil {
+				return nil, errors.Errorf("no metadata in line for '%s' %s - [%s]", object.GetID(), v, lineStr)
+			}
 			lines = append(lines, meta)
 		}
 		if err := r.Err(); err != nil {
diff --git a/pkg/extension/NNNN-indexer.go b/pkg/extension/NNNN-indexer.go
index 28c1e21..381708c 100644
--- a/pkg/extension/NNNN-indexer.go
+++ b/pkg/extension/NNNN-indexer.go
@@ -312,6 +312,9 @@ func (sl *Indexer) GetMetadata(object ocfl.Object) (map[string]any, error) {
 			if err := json.Unmarshal([]byte(line), &meta); err != nil {
 				return nil, errors.Wrapf(err, "cannot unmarshal line from for '%s' %s - [%s]", object.GetID(), v, line)
 			}
+			if meta.Indexer == nil {
+				return nil, errors.Errorf("no metadata in line for '%s' %s - [%s]", object.GetID(), v, line)
+			}
 			result[path2digest[meta.Path]] = meta.Indexer
 		}
 		if err := r.Err(); err != nil {
diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index 78af9ad..f751512 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -500,6 +500,9 @@ func (mi *Migration) readLines(object ocfl.Object) ([]*migrationLine, error) {
 			if err := json.Unmarshal([]byte(line), &meta); err != nil {
 				return nil, errors.Wrapf(err, "cannot unmarshal line from for '%s' %s - [%s]", object.GetID(), v, line)
 			}
+			if meta.Migration == nil {
+				return nil, errors.Errorf("no migration in line for '%s' %s - [%s]", object.GetID(), v, line)
+			}
 			var digest string
 			for cs, names := range manifest {
 				for _, name := range names {
-- 
2.43.0

