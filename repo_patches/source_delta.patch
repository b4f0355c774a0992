From 621e6825297de54500f8dabada66bfd3446610ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 01/21] fix: load plugins whose file name contains upper-case
 letters

---
 pluginManager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pluginManager.go b/pluginManager.go
index 553a68a..872778a 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -133,7 +133,7 @@ func (pm *PluginManager) loadPlugins(files []string, oldManager *PluginManager,
 	pm.outputStats1(infoMap)
 	pm.when = time.Now()
 	for _, name := range infoMap.names() {
-		info := infoMap.m[name]
+		info := infoMap.m[name2key(name)]
 		curFileInfo = info
 		if err = pm.loadPlugin(info, data); err != nil {
 			return fmt.Errorf("failed to load the plugin %s. err: %w", info.name, err)
-- 
2.43.0


From fc6e8994d686f4b71815bdf477510815f13841d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 02/21] fix: give every plugin manager its own directory

Two loads in the same second shared a directory, so a plugin file that was
already mapped could be overwritten or mistaken for the new version.
---
 pluginManager.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pluginManager.go b/pluginManager.go
index 872778a..3d9d06a 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -19,6 +19,7 @@ import (
 	"github.com/edwingeng/hotswap/vault"
 	"github.com/edwingeng/slog"
 	"github.com/pierrec/xxHash/xxHash32"
+	"go.uber.org/atomic"
 )
 
 type PluginManager struct {
@@ -35,9 +36,12 @@ type PluginManager struct {
 	panicTrigger func(data interface{})
 }
 
+// dirCounter makes the directory name of every PluginManager unique in this process.
+var dirCounter atomic.Int64
+
 func newPluginManager(log slog.Logger, newExt func() interface{}) *PluginManager {
 	now := time.Now().Format(hutils.CompactDateTimeFormat)
-	dirName := fmt.Sprintf("%s-%d", now, os.Getpid())
+	dirName := fmt.Sprintf("%s-%d-%d", now, os.Getpid(), dirCounter.Inc())
 	var ext interface{}
 	if newExt != nil {
 		ext = newExt()
-- 
2.43.0


From 4f1c08b8d63a908f49ae86668c28a20c5edc21f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 03/21] fix: decide by the language's rules whether an Import
 field is exported

The first byte of the name was taken for a character, so exported fields with
non-ASCII names were skipped and unexported ones made the load fail.
---
 pluginManager.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pluginManager.go b/pluginManager.go
index 3d9d06a..e21c12a 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -13,7 +13,6 @@ import (
 	"sort"
 	"strings"
 	"time"
-	"unicode"
 
 	"github.com/edwingeng/hotswap/internal/hutils"
 	"github.com/edwingeng/hotswap/vault"
@@ -264,7 +263,7 @@ func (pm *PluginManager) initDeps() error {
 		n := impTyp.Elem().NumField()
 		for i := 0; i < n; i++ {
 			field := impTyp.Elem().Field(i)
-			if ch := field.Name[0]; !unicode.IsUpper(rune(ch)) {
+			if field.PkgPath != "" {
 				continue
 			}
 			if field.Tag.Get("hotswap") == "-" {
-- 
2.43.0


From d81eb047fed0f60275fe0488703130627c906b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 04/21] fix: accept a whitelist that names a plugin twice

---
 pluginManagerSwapper.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pluginManagerSwapper.go b/pluginManagerSwapper.go
index 538608b..aef07c2 100644
--- a/pluginManagerSwapper.go
+++ b/pluginManagerSwapper.go
@@ -114,13 +114,13 @@ func (sw *PluginManagerSwapper) loadPluginsImpl(data interface{}, cbs []ReloadCa
 		}
 	}
 	if len(sw.opts.whitelist) > 0 {
-		if len(found) != len(sw.opts.whitelist) {
-			var missing []string
-			for _, v := range sw.opts.whitelist {
-				if _, ok := found[v]; !ok {
-					missing = append(missing, v)
-				}
+		var missing []string
+		for _, v := range sw.opts.whitelist {
+			if _, ok := found[v]; !ok {
+				missing = append(missing, v)
 			}
+		}
+		if len(missing) > 0 {
 			return nil, errors.New("cannot find the following plugin(s): " + hutils.Join(missing...))
 		}
 	}
-- 
2.43.0


From 4343f5cdf0632c6c27cca3e6e803a49d3479b652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 05/21] fix: reject static plugins whose names differ only in
 letter case

---
 staticPlugin.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/staticPlugin.go b/staticPlugin.go
index cda9663..835d568 100644
--- a/staticPlugin.go
+++ b/staticPlugin.go
@@ -61,10 +61,17 @@ func (pm *PluginManager) loadStaticPlugins(staticPlugins map[string]*StaticPlugi
 	}
 
 	var a []string
-	for k := range staticPlugins {
+	counters := make(map[string]int)
+	for k, sp := range staticPlugins {
 		a = append(a, k)
+		counters[name2key(sp.Name)]++
 	}
 	sort.Strings(a)
+	for k, v := range counters {
+		if v > 1 {
+			return fmt.Errorf("duplicate name detected: %s. plugins: %s", k, strings.Join(a, ", "))
+		}
+	}
 
 	pm.when = time.Now()
 	for _, name := range a {
-- 
2.43.0


From 6a86ebeb59361b0e6cd0d22f4eaa364146acb767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 06/21] fix: Lookup of a statically linked plugin panicked

---
 plugin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin.go b/plugin.go
index 0a249f8..b2fae6f 100644
--- a/plugin.go
+++ b/plugin.go
@@ -82,6 +82,9 @@ func (pl *Plugin) Lookup(symName string, out interface{}) error {
 	if k := outVal.Type().Kind(); k != reflect.Ptr {
 		return fmt.Errorf("out must be a pointer. plugin: %s, symName: %s", pl.Name, symName)
 	}
+	if pl.P == nil {
+		return ErrNotExist // statically linked
+	}
 	sym, err := pl.P.Lookup(symName)
 	if err != nil {
 		return ErrNotExist
-- 
2.43.0


From 2360bb297a5c5f00b2620489a11d2aa94a8d98f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 07/21] fix: remove only the plugin's own static init file

Generating or cleaning the static linking code of a plugin removed the init
files of all the other plugins sharing the output directory.
---
 cli/hotswap/cmd/build.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index f7be0c4..8dc98be 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -465,10 +465,16 @@ func removeStaticFiles(args completePluginArgs) {
 
 	pluginName := filepath.Base(args.pluginDir)
 	allInitFiles := findPluginInitFiles(args)
+	ownInitFile := fmt.Sprintf(hotswapStaticPluginInitFile, pluginName)
+	var initFiles []string
 	for _, f := range allInitFiles {
+		if filepath.Base(f) != ownInitFile {
+			continue
+		}
 		if err := os.Remove(f); err != nil {
 			panic(err)
 		}
+		initFiles = append(initFiles, f)
 	}
 
 	pluginVarDefFile := filepath.Join(args.outputDir, hotswapStaticPluginsFile)
@@ -489,11 +495,11 @@ func removeStaticFiles(args completePluginArgs) {
 		for _, f := range a {
 			fmt.Println("\t" + f)
 		}
-		if len(allInitFiles) > 0 {
+		if len(initFiles) > 0 {
 			fmt.Println()
 			fmt.Println("Removed Files:")
 			fmt.Println(strings.Repeat("=", 30))
-			for _, f := range allInitFiles {
+			for _, f := range initFiles {
 				fmt.Println("\t" + filepath.Base(f))
 			}
 		}
-- 
2.43.0


From 33ec6809f7bfa029976ce911618a010163506157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 08/21] fix: rewrite only package clauses and imports when
 copying files

String literals and comments that look like a package clause or like an import
of the plugin were rewritten, too, while a package clause that does not begin
a line was not.
---
 cli/hotswap/cmd/build.go | 44 ++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 8dc98be..4ccf046 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -768,25 +768,35 @@ func (bc *buildCmdT) collectFiles() []string {
 }
 
 func (bc *buildCmdT) copyFiles(files []string) {
-	rexPkg := regexp.MustCompile(`(?m)^package\s+\S+`)
-	oldImportPath1 := []byte(`"` + bc.pluginPkgPath + `"`)
-	newImportPath1 := []byte(`"` + bc.tmpPkgPath + `"`)
-	oldImportPath2 := []byte(`"` + bc.pluginPkgPath + `/`)
-	newImportPath2 := []byte(`"` + bc.tmpPkgPath + `/`)
-	oldImportPath3 := []byte("`" + bc.pluginPkgPath + "`")
-	newImportPath3 := []byte("`" + bc.tmpPkgPath + "`")
-	oldImportPath4 := []byte("`" + bc.pluginPkgPath + "/")
-	newImportPath4 := []byte("`" + bc.tmpPkgPath + "/")
-
-	replaceCode := func(rel string, data1 []byte) []byte {
+	replaceCode := func(rel string, data []byte) []byte {
+		var fset token.FileSet
+		file, err := parser.ParseFile(&fset, rel, data, parser.ImportsOnly)
+		if err != nil {
+			// Leave it to the compiler to report the error.
+			return data
+		}
+
+		var buf bytes.Buffer
+		var copied int
+		replace := func(node ast.Node, str string) {
+			buf.Write(data[copied:fset.Position(node.Pos()).Offset])
+			buf.WriteString(str)
+			copied = fset.Position(node.End()).Offset
+		}
 		if filepath.Dir(rel) == "." {
-			data1 = rexPkg.ReplaceAll(data1, []byte("package main"))
+			replace(file.Name, "main")
+		}
+		for _, spec := range file.Imports {
+			importPath, err := strconv.Unquote(spec.Path.Value)
+			if err != nil {
+				continue
+			}
+			if importPath == bc.pluginPkgPath || strings.HasPrefix(importPath, bc.pluginPkgPath+"/") {
+				replace(spec.Path, strconv.Quote(bc.tmpPkgPath+strings.TrimPrefix(importPath, bc.pluginPkgPath)))
+			}
 		}
-		data2 := bytes.ReplaceAll(data1, oldImportPath1, newImportPath1)
-		data3 := bytes.ReplaceAll(data2, oldImportPath2, newImportPath2)
-		data4 := bytes.ReplaceAll(data3, oldImportPath3, newImportPath3)
-		data5 := bytes.ReplaceAll(data4, oldImportPath4, newImportPath4)
-		return data5
+		buf.Write(data[copied:])
+		return buf.Bytes()
 	}
 
 	pending := make(chan string, len(files))
-- 
2.43.0


From 2d1c785140243d730906d504fcf675f776b5882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:29 +0000
Subject: [PATCH 09/21] fix: clean up and fail when a build is interrupted

A temporary directory recreated after the signal handler had removed it was
left behind, and so was one whose removal a signal cut short. An interrupted
build went on with the files copied so far and could exit with status 0.
---
 cli/hotswap/cmd/build.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 4ccf046..abbf966 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -271,7 +271,9 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 		defer close(done)
 		select {
 		case x := <-chSignal:
-			signal.Reset(sigs...)
+			if x != syscall.SIGQUIT {
+				signal.Reset(sigs...)
+			}
 			if x == syscall.SIGINT {
 				close(interruptProgram)
 				go func() {
@@ -288,6 +290,8 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 		default:
 		}
 		<-done
+		// The directory may have been recreated since a signal was handled.
+		bc.removeTmpDir()
 	}()
 
 	var outputFile string
@@ -353,6 +357,14 @@ func (bc *buildCmdT) outputTiming() {
 	}
 }
 
+func checkInterruption() {
+	select {
+	case <-interruptProgram:
+		panic("interrupted")
+	default:
+	}
+}
+
 func (bc *buildCmdT) removeTmpDir() {
 	if !bc.leaveTemps {
 		_ = os.RemoveAll(bc.tmpDir)
@@ -859,6 +871,7 @@ func (bc *buildCmdT) copyFiles(files []string) {
 		panic(err)
 	default:
 	}
+	checkInterruption()
 }
 
 type generatedFiles struct {
@@ -1051,11 +1064,7 @@ func completePlugin(args completePluginArgs) {
 		if len(pkg.GoFiles) == 0 {
 			continue
 		}
-		select {
-		case <-interruptProgram:
-			return
-		default:
-		}
+		checkInterruption()
 		dir := filepath.Dir(pkg.GoFiles[0])
 		for _, synt := range pkg.Syntax {
 			for _, decl := range synt.Decls {
@@ -1148,11 +1157,7 @@ func completePlugin(args completePluginArgs) {
 	genHotswapMain(args, livePackages, &generated)
 
 	for k, pkg := range livePackages {
-		select {
-		case <-interruptProgram:
-			return
-		default:
-		}
+		checkInterruption()
 		genHotswapLive(args, k, pkg, liveFuncs[k], liveTypes[k], &generated)
 	}
 
-- 
2.43.0


From e8781e97ba5876fad0a07caeeb3ad2856fb1ab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 10/21] fix: never build two plugin versions under the same
 package path

Two builds within one second shared the path of their temporary packages, and
could even remove each other's temporary directory.
---
 cli/hotswap/cmd/build.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index abbf966..7a96360 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -227,7 +227,8 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 		panic(fmt.Errorf("failed to determine the package path. err: %v", err))
 	}
 
-	now := time.Now().Format("02150405")
+	startTime := time.Now()
+	now := fmt.Sprintf("%s%09d", startTime.Format("02150405"), startTime.Nanosecond())
 	commitInfo := bc.commitInfo()
 	if !bc.staticLinking {
 		const format = "%s-%s-%s"
-- 
2.43.0


From 92d6eb6b8323ef5be4a425cb3670afd091fb4abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 11/21] fix: build plugins that have external tests

The test files of a directory took part in the search for its package name.
---
 internal/hutils/hutils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index 1b87538..c4994f6 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -40,7 +40,9 @@ func PackageFromDirectory(dir string) (string, string, error) {
 	}
 
 	fset := token.NewFileSet()
-	pkgs, err := parser.ParseDir(fset, dir, nil, parser.PackageClauseOnly)
+	pkgs, err := parser.ParseDir(fset, dir, func(info os.FileInfo) bool {
+		return !strings.HasSuffix(info.Name(), "_test.go")
+	}, parser.PackageClauseOnly)
 	if err != nil {
 		return "", "", err
 	}
-- 
2.43.0


From 4906edb7220b24d48e904bde181a70b74871d2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 12/21] fix: check for required functions before generating
 static linking code

The generated files were removed and partly written again before the check.
---
 cli/hotswap/cmd/build.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 7a96360..783db00 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -404,6 +404,7 @@ func (bc *buildCmdT) commitInfo() string {
 }
 
 func (bc *buildCmdT) genStaticPlugin() {
+	parseRequiredPluginFuncs(bc.pluginDir, "")
 	fmt.Printf("Generating static code for plugin %q...\n", filepath.Base(bc.pluginDir))
 	epilogue := func(args completePluginArgs, generated *generatedFiles) {
 		genHotswapStaticPluginInit(args, generated)
-- 
2.43.0


From 25e3f769501f38385182ca3de22b88947ce84cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:37 +0000
Subject: [PATCH 13/21] fix: give up the search for go.mod at the root
 directory

The command ran forever when no directory above the plugin had a go.mod.
---
 internal/hutils/hutils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index c4994f6..f84896c 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -78,8 +78,12 @@ func PackageFromDirectory(dir string) (string, string, error) {
 	for absDir != "" {
 		f := filepath.Join(absDir, "go.mod")
 		if _, err := os.Stat(f); err != nil {
+			parent := filepath.Dir(absDir)
+			if parent == absDir {
+				break
+			}
 			a1 = append(a1, filepath.Base(absDir))
-			absDir = filepath.Dir(absDir)
+			absDir = parent
 			continue
 		}
 
-- 
2.43.0


From e6198ec7bfe3f3ac24dc707b7d6b2afc122e9b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 14/21] fix: fail when the temporary files are removed during a
 build

After SIGTERM, or SIGINT shortly before go build, the command went on while
its temporary files were being removed, and could build a plugin from what was
left of them and exit with status 0.
---
 cli/hotswap/cmd/build.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 783db00..d813c09 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -274,9 +274,9 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 		case x := <-chSignal:
 			if x != syscall.SIGQUIT {
 				signal.Reset(sigs...)
+				close(interruptProgram)
 			}
 			if x == syscall.SIGINT {
-				close(interruptProgram)
 				go func() {
 					time.Sleep(time.Second)
 					fmt.Println("\nPress Ctrl-C again to terminate the program immediately.")
@@ -713,6 +713,7 @@ func (bc *buildCmdT) buildPlugin() string {
 		}
 	}
 
+	checkInterruption()
 	timing.buildStart = time.Now()
 	defer func() {
 		timing.build = time.Since(timing.buildStart)
@@ -726,6 +727,8 @@ func (bc *buildCmdT) buildPlugin() string {
 	if err := goBuild.Run(); err != nil {
 		panic(err)
 	}
+	// The temporary files may have been removed while they were being compiled.
+	checkInterruption()
 
 	return outputFile
 }
-- 
2.43.0


From eca4335f80e1edfbe8e82f3df681df3d4534d48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 15/21] fix: close the abort channel once when several files
 fail to copy

---
 cli/hotswap/cmd/build.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index d813c09..ab8cfb5 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -824,13 +824,12 @@ func (bc *buildCmdT) copyFiles(files []string) {
 	burst := runtime.NumCPU() * 5
 	chErr := make(chan error, burst)
 	abort := make(chan struct{})
+	var abortOnce sync.Once
 	reportErr := func(err error) {
 		chErr <- err
-		select {
-		case <-abort:
-		default:
+		abortOnce.Do(func() {
 			close(abort)
-		}
+		})
 	}
 
 	var wg sync.WaitGroup
-- 
2.43.0


From a2465c15434505b0fcfbecbecdf5063db61b04fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:53 +0000
Subject: [PATCH 16/21] fix: find live functions and types with the build tags
 of the build

Build flags such as -tags and -race decide which files are compiled, but
the scan for live functions and types did not know them. Live names in
files selected by a tag were not registered, and those in files excluded
by a tag broke the build.
---
 cli/hotswap/cmd/build.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index ab8cfb5..c4b197e 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -1033,6 +1033,27 @@ func genHotswapLive(args completePluginArgs, dir string, pkg *packages.Package,
 	generated.add(file, false)
 }
 
+// fileSelectionFlags returns the build flags that decide which files are compiled.
+func fileSelectionFlags(buildFlags []string) []string {
+	var a []string
+	for i, v := range buildFlags {
+		if !strings.HasPrefix(v, "-") {
+			continue
+		}
+		name := strings.TrimPrefix(strings.TrimPrefix(v, "-"), "-")
+		switch strings.SplitN(name, "=", 2)[0] {
+		case "tags":
+			a = append(a, v)
+			if name == "tags" && i+1 < len(buildFlags) {
+				a = append(a, buildFlags[i+1])
+			}
+		case "race", "msan", "asan":
+			a = append(a, v)
+		}
+	}
+	return a
+}
+
 func completePlugin(args completePluginArgs) {
 	timing.processPackagesStart = time.Now()
 	defer func() {
@@ -1045,6 +1066,7 @@ func completePlugin(args completePluginArgs) {
 
 	var cfg packages.Config
 	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedSyntax
+	cfg.BuildFlags = fileSelectionFlags(g.BuildFlags)
 	pkgs, err := packages.Load(&cfg, args.tmpPkgPath+"/...")
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 4060d79e9e22f47eae21fd16bdcc3e5e828d05ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:30 +0000
Subject: [PATCH 17/21] fix: find live functions and types in module mode, as
 the plugin is compiled

---
 cli/hotswap/cmd/build.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index c4b197e..554e108 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -1067,6 +1067,7 @@ func completePlugin(args completePluginArgs) {
 	var cfg packages.Config
 	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedSyntax
 	cfg.BuildFlags = fileSelectionFlags(g.BuildFlags)
+	cfg.Env = append(os.Environ(), "GO111MODULE=on")
 	pkgs, err := packages.Load(&cfg, args.tmpPkgPath+"/...")
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 681878583193a1ab2c4d75b1fc9252133aa8c62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:43 +0000
Subject: [PATCH 18/21] fix: find the live functions and types of a plugin
 below testdata or a hidden directory

---
 cli/hotswap/cmd/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 554e108..7a45be9 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -1068,7 +1068,7 @@ func completePlugin(args completePluginArgs) {
 	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedSyntax
 	cfg.BuildFlags = fileSelectionFlags(g.BuildFlags)
 	cfg.Env = append(os.Environ(), "GO111MODULE=on")
-	pkgs, err := packages.Load(&cfg, args.tmpPkgPath+"/...")
+	pkgs, err := packages.Load(&cfg, "./...")
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 4fc480af39461588556852667f4d07e759bbb4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:53 +0000
Subject: [PATCH 19/21] fix: check the output directory before generating
 static linking code

---
 cli/hotswap/cmd/build.go  | 5 +++++
 internal/hutils/hutils.go | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 7a45be9..8e87505 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -220,6 +220,11 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 		if rel, err := filepath.Rel(bc.pluginDir, bc.outputDir); err == nil && !strings.HasPrefix(rel, "..") {
 			panic("<outputDir> must not be a subdirectory of <pluginDir>")
 		}
+		if !bc.cleanOnly {
+			if _, _, err := hutils.PackageFromDirectory(bc.outputDir); err != nil {
+				panic(fmt.Errorf("failed to determine the package of <outputDir>. err: %v", err))
+			}
+		}
 	}
 
 	_, bc.pluginPkgPath, err = hutils.PackageFromDirectory(bc.pluginDir)
diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index f84896c..9df0f6f 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -60,7 +60,7 @@ func PackageFromDirectory(dir string) (string, string, error) {
 			_ = buf.WriteByte('_')
 		}
 		pkgName = strings.Trim(buf.String(), "_")
-		if pkgName == "" {
+		if !token.IsIdentifier(pkgName) {
 			return "", "", fmt.Errorf("failed to convert %s to a package name", dir)
 		}
 	case 1:
-- 
2.43.0


From 8fdd5ccf5efbda863874eb02994510b868134f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:24 +0000
Subject: [PATCH 20/21] fix: read the commit info whatever log.showSignature
 and the plugin's files are

---
 cli/hotswap/cmd/build.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 8e87505..406acc5 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -378,7 +378,7 @@ func (bc *buildCmdT) removeTmpDir() {
 }
 
 func (bc *buildCmdT) commitInfo() string {
-	cmd1 := exec.Command("git", "log", "-1", "--format=%H", "HEAD")
+	cmd1 := exec.Command("git", "log", "-1", "--no-show-signature", "--format=%H", "HEAD", "--")
 	cmd1.Dir = bc.pluginDir
 	cmd1.Stderr = os.Stderr
 	output1, err := cmd1.Output()
@@ -387,7 +387,7 @@ func (bc *buildCmdT) commitInfo() string {
 	}
 	output1 = bytes.Trim(output1, "\r\n")
 
-	cmd2 := exec.Command("git", "log", "-1", "--format=%ct", "HEAD")
+	cmd2 := exec.Command("git", "log", "-1", "--no-show-signature", "--format=%ct", "HEAD", "--")
 	cmd2.Dir = bc.pluginDir
 	cmd2.Stderr = os.Stderr
 	output2, err := cmd2.Output()
-- 
2.43.0


From 4bd58375c3b2fbdfdd1dcf0417eb80ece0bbb393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:22 +0000
Subject: [PATCH 21/21] fix: give every PluginManager a directory for its
 copies that nobody else uses

The time, the pid, and a counter are not unique among containers, machines,
or restarts that share a plugin directory. A process could truncate and
overwrite the private copies another one was running from.
---
 pluginManager.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/pluginManager.go b/pluginManager.go
index e21c12a..2e181f3 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -23,7 +23,7 @@ import (
 
 type PluginManager struct {
 	slog.Logger
-	dirName string
+	tmpDir string
 
 	pluginMap map[string]*Plugin
 	ordered   []*Plugin
@@ -39,8 +39,6 @@ type PluginManager struct {
 var dirCounter atomic.Int64
 
 func newPluginManager(log slog.Logger, newExt func() interface{}) *PluginManager {
-	now := time.Now().Format(hutils.CompactDateTimeFormat)
-	dirName := fmt.Sprintf("%s-%d-%d", now, os.Getpid(), dirCounter.Inc())
 	var ext interface{}
 	if newExt != nil {
 		ext = newExt()
@@ -53,7 +51,6 @@ func newPluginManager(log slog.Logger, newExt func() interface{}) *PluginManager
 	}
 	return &PluginManager{
 		Logger:       log,
-		dirName:      dirName,
 		pluginMap:    make(map[string]*Plugin),
 		Vault:        v,
 		cbOpen:       func(*Plugin, interface{}) {},
@@ -162,9 +159,31 @@ func (pm *PluginManager) loadPlugins(files []string, oldManager *PluginManager,
 	return nil
 }
 
+// makeTmpDir creates a directory that belongs to this PluginManager alone. Neither the time nor the pid
+// is unique across the containers, machines, or restarts which share the plugin directory.
+func (pm *PluginManager) makeTmpDir(parent string) (string, error) {
+	if pm.tmpDir != "" {
+		return pm.tmpDir, nil
+	}
+	if err := os.MkdirAll(parent, 0744); err != nil {
+		return "", err
+	}
+	for {
+		now := time.Now().Format(hutils.CompactDateTimeFormat)
+		dirName := fmt.Sprintf("%s-%d-%d", now, os.Getpid(), dirCounter.Inc())
+		tmpDir := filepath.Join(parent, dirName)
+		if err := os.Mkdir(tmpDir, 0744); err == nil {
+			pm.tmpDir = tmpDir
+			return tmpDir, nil
+		} else if !os.IsExist(err) {
+			return "", err
+		}
+	}
+}
+
 func (pm *PluginManager) copyPlugin(info *fileInfo) (string, error) {
-	tmpDir := filepath.Join(filepath.Dir(info.file), "tmp", pm.dirName)
-	if err := os.MkdirAll(tmpDir, 0744); err != nil {
+	tmpDir, err := pm.makeTmpDir(filepath.Join(filepath.Dir(info.file), "tmp"))
+	if err != nil {
 		return "", err
 	}
 
-- 
2.43.0

