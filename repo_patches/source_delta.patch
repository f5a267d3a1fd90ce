From d5abdc6e60214f89a34869560f8e53abb942e360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 01/16] fix: bind each YOT_ environment variable to its setting

---
 internal/commands/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/commands/root.go b/internal/commands/root.go
index 8eaa323..7f2eca6 100644
--- a/internal/commands/root.go
+++ b/internal/commands/root.go
@@ -47,7 +47,7 @@ func New() *Root {
 
 func (r *Root) initConfig() {
 	for k, v := range envMap() {
-		if err := viper.BindEnv(k, v); err != nil {
+		if err := viper.BindEnv(v, k); err != nil {
 			r.Log.Fatal(err)
 		}
 	}
-- 
2.43.0


From e350af302819136ac912b2707164d7ff3fb4c184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 02/16] fix: register the Sprig functions before parsing the
 instructions template

---
 internal/instructions/template.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/instructions/template.go b/internal/instructions/template.go
index 815f730..2361304 100644
--- a/internal/instructions/template.go
+++ b/internal/instructions/template.go
@@ -7,18 +7,19 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"path/filepath"
 	"text/template"
 
 	"github.com/Masterminds/sprig/v3"
 )
 
 func renderInstructionsTemplate(fileName string, values interface{}) (io.Reader, error) {
-	tpl, err := template.ParseFiles(fileName)
+	tpl, err := template.New(filepath.Base(fileName)).Funcs(template.FuncMap(sprig.FuncMap())).ParseFiles(fileName)
 	if err != nil {
 		return nil, fmt.Errorf("unable to process template for instructions file %s, %w", fileName, err)
 	}
 
-	tpl = tpl.Funcs(template.FuncMap(sprig.FuncMap())).Option("missingkey=zero")
+	tpl = tpl.Option("missingkey=zero")
 
 	var b bytes.Buffer
 
-- 
2.43.0


From ae61b0ca5c196370539d89fc18a4099bae533f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 03/16] fix: keep the overlays of one file out of the overlay
 list of another

---
 internal/instructions/instructions.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/instructions.go b/internal/instructions/instructions.go
index 0fcd18b..bef9e57 100644
--- a/internal/instructions/instructions.go
+++ b/internal/instructions/instructions.go
@@ -112,7 +112,9 @@ func (cfg *Config) ReadInstructionFile() (*Instructions, error) {
 // addCommonOverlays, takes all common overlays and adds them to each yamlFile entry.
 func (i *Instructions) addCommonOverlays() {
 	for _, yf := range i.YamlFiles {
-		yf.Overlays = append(i.CommonOverlays, yf.Overlays...)
+		// limit the capacity so that files never share a backing array
+		common := i.CommonOverlays[:len(i.CommonOverlays):len(i.CommonOverlays)]
+		yf.Overlays = append(common, yf.Overlays...)
 	}
 }
 
-- 
2.43.0


From 80398870fb10e26968ea6ac834e6a0f4d8814fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 04/16] fix: never derive an output path that points back at
 the source file

---
 internal/instructions/utils.go    | 3 ++-
 internal/instructions/yamlfile.go | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/utils.go b/internal/instructions/utils.go
index 454c8be..8f4c619 100644
--- a/internal/instructions/utils.go
+++ b/internal/instructions/utils.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"strings"
 )
 
 func ReadStream(fileName string) (io.Reader, error) {
@@ -38,7 +39,7 @@ func GetCommonPrefix(sep byte, paths ...string) string {
 	case 0:
 		return ""
 	case 1:
-		return path.Dir(path.Clean(paths[0])) + string(os.PathSeparator)
+		return strings.TrimSuffix(path.Dir(path.Clean(paths[0])), string(os.PathSeparator)) + string(os.PathSeparator)
 	}
 
 	c := path.Clean(paths[0]) + string(sep)
diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index e06fd3a..d29f4d9 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -122,6 +122,8 @@ func (yfs *YamlFiles) expandDirectories() error {
 			y[i].Path = path.Join(viper.GetString("instructionsDir"), y[i].Path)
 		}
 
+		y[i].Path = path.Clean(y[i].Path)
+
 		if ok, err := isDirectory(y[i].Path); err != nil {
 			return err
 		} else if ok {
-- 
2.43.0


From 67309fe402744d0aa3453e6a67d1fe8ec3f02c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 05/16] fix: remove the comments attached to the document node
 as well

---
 internal/instructions/yamlfile.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index d29f4d9..144fae6 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -182,15 +182,11 @@ func (yfs *YamlFiles) mergeDuplicates() {
 
 // removeCommentsFromNode will traverse the tree of yaml nodes and remove all comments.
 func removeCommentsFromNode(node *yaml.Node) {
-	if node.Content == nil {
-		return
-	}
+	node.HeadComment = ""
+	node.LineComment = ""
+	node.FootComment = ""
 
 	for _, child := range node.Content {
-		child.HeadComment = ""
-		child.LineComment = ""
-		child.FootComment = ""
-
 		removeCommentsFromNode(child)
 	}
 }
-- 
2.43.0


From 9931cc42bca56004549f2f18d7883f88857454d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 06/16] fix: keep the existing line and foot comments when only
 another kind is injected

---
 internal/actions/merge.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 372e647..d3f2f3f 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -186,16 +186,15 @@ func mergeComments(o, n *yaml.Node, values ...string) {
 		keyName = values[0]
 	}
 
-	switch {
-	case n.HeadComment != "":
+	if n.HeadComment != "" {
 		o.HeadComment = format(n.HeadComment, value, lc, hc, fc, keyName)
+	}
 
-		fallthrough
-	case n.LineComment != "":
+	if n.LineComment != "" {
 		o.LineComment = format(n.LineComment, value, lc, hc, fc, keyName)
+	}
 
-		fallthrough
-	case n.FootComment != "":
+	if n.FootComment != "" {
 		o.FootComment = format(n.FootComment, value, lc, hc, fc, keyName)
 	}
 }
-- 
2.43.0


From ece52e3ffad4e25b2ea55e243d64e4b3cd9b87fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 07/16] fix: report an error when combined integers overflow

---
 internal/actions/combine.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/actions/combine.go b/internal/actions/combine.go
index 7064c7b..40f060f 100644
--- a/internal/actions/combine.go
+++ b/internal/actions/combine.go
@@ -14,6 +14,9 @@ import (
 // ErrCombineOnlyForScalars occurs when a non-scalar is attempted to be combined with a scalar value.
 var ErrCombineOnlyForScalars = errors.New("combine action can only be used on scalar values")
 
+// ErrCombineOverflow occurs when the sum of two combined integers is out of range.
+var ErrCombineOverflow = errors.New("combined integers are out of range")
+
 func CombineNode(originalValue, newValue *yaml.Node) error {
 	if originalValue.Kind != yaml.ScalarNode || newValue.Kind != yaml.ScalarNode {
 		return ErrCombineOnlyForScalars
@@ -33,7 +36,12 @@ func CombineNode(originalValue, newValue *yaml.Node) error {
 			return fmt.Errorf("failed to %s to int for merging: %w", newValue.Value, err)
 		}
 
-		originalValue.Value = strconv.Itoa(o + n)
+		sum := o + n
+		if (sum > o) != (n > 0) {
+			return fmt.Errorf("%w: %d + %d", ErrCombineOverflow, o, n)
+		}
+
+		originalValue.Value = strconv.Itoa(sum)
 
 		return nil
 
-- 
2.43.0


From 5685655835e715d04ed1bc561b2e62801339c66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 08/16] fix: do not panic when injecting into a document whose
 content was deleted

---
 internal/actions/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index d3f2f3f..993b9d7 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -55,7 +55,7 @@ func merge(o, n *yaml.Node, keyName ...string) error {
 }
 
 func mergeDocument(o, n *yaml.Node) error {
-	if o.Content != nil && n.Content != nil {
+	if len(o.Content) != 0 && len(n.Content) != 0 {
 		mergeComments(o, n, o.Value)
 
 		if err := merge(o.Content[0], n.Content[0], o.Value); err != nil {
-- 
2.43.0


From 85328f5ca7697e50e133d33de9dc80123ed52bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 09/16] fix: do not write the resolved onMissing action back
 into the shared overlay

---
 internal/overlays/onmissing.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index f5607fe..559842d 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -28,9 +28,12 @@ type OnMissing struct {
 }
 
 func (o *Overlay) onMissing(n *yaml.Node) error {
-	if o.OnMissing.Action == actions.Default {
+	// the overlay is shared between files, it must not be modified
+	action := o.OnMissing.Action
+
+	if action == actions.Default {
 		if strings.EqualFold(viper.GetString("defaultOnMissingAction"), "inject") {
-			o.OnMissing.Action = actions.Inject
+			action = actions.Inject
 		}
 	}
 
@@ -39,7 +42,7 @@ func (o *Overlay) onMissing(n *yaml.Node) error {
 	// we need to then check if each inject path is valid (does it exist)
 	// if we had an inject path(s) then we inject the value to those locations
 	// if we didn't have an inject path we have an implicit onMissing: ignore and we put out a warning if not stdout option to terminal
-	switch o.OnMissing.Action {
+	switch action {
 	case actions.Inject:
 		return o.handleInjectPath(n)
 	default:
-- 
2.43.0


From 61bcae3c4810ebe47ac7c3adf1ee5c32f18064c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 10/16] fix: only inject a missing value for the merge and
 replace actions

---
 internal/overlays/onmissing.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index 559842d..5d4c480 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -42,8 +42,12 @@ func (o *Overlay) onMissing(n *yaml.Node) error {
 	// we need to then check if each inject path is valid (does it exist)
 	// if we had an inject path(s) then we inject the value to those locations
 	// if we didn't have an inject path we have an implicit onMissing: ignore and we put out a warning if not stdout option to terminal
-	switch action {
-	case actions.Inject:
+	switch {
+	case o.Action == actions.Delete, o.Action == actions.Combine:
+		log.Debugf("ignoring %s at %s, onMissing only applies to merge and replace\n", o.Action, o.Query)
+
+		return nil
+	case action == actions.Inject:
 		return o.handleInjectPath(n)
 	default:
 		log.Debugf("ignoring %s at %s due to %s\n", o.Action, o.Query, ErrOnMissingNoInjectAction)
-- 
2.43.0


From fba3b13b214f9b581cb674c3e44530768de600a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 11/16] fix: report an error instead of panicking when there is
 no path to inject

---
 internal/builder/path.go       | 6 ++++++
 internal/overlays/onmissing.go | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/builder/path.go b/internal/builder/path.go
index f54876d..3652d06 100644
--- a/internal/builder/path.go
+++ b/internal/builder/path.go
@@ -18,6 +18,8 @@ var (
 	ErrInvalidPathSyntax = errors.New("invalid path syntax")
 	// ErrWildCardNotAllowed occurs when a '*' symbol is passed in the query.
 	ErrWildCardNotAllowed = errors.New("wildcard notation not allowed for build")
+	// ErrNoPaths occurs when there is no path to build.
+	ErrNoPaths = errors.New("no path to build")
 )
 
 type Path struct {
@@ -118,6 +120,10 @@ func newPath(l *lexer) (*Path, error) {
 }
 
 func (paths *Paths) BuildPaths() (*yaml.Node, error) {
+	if len(*paths) == 0 {
+		return nil, ErrNoPaths
+	}
+
 	yamlNodes := make([]*yaml.Node, len(*paths))
 
 	for i, p := range *paths {
diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index 5d4c480..e3ebc3b 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -62,7 +62,10 @@ func (o *Overlay) doInjectPath(ip Queries, node *yaml.Node) error {
 		return fmt.Errorf("failed to build inject path %s, %w", ip, err)
 	}
 
-	y, _ := bps.BuildPaths()
+	y, err := bps.BuildPaths()
+	if err != nil {
+		return fmt.Errorf("failed to build inject path %s, %w", ip, err)
+	}
 
 	err = actions.MergeNode(node, y)
 	if err != nil {
-- 
2.43.0


From b506cc89e3c485dce1e77e9207e2cf1ed4f27617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 12/16] fix: expand a directory in place so that the listing
 order of files is kept

---
 internal/instructions/yamlfile.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 144fae6..79754e2 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -135,6 +135,8 @@ func (yfs *YamlFiles) expandDirectories() error {
 				return err
 			}
 
+			files := make([]*YamlFile, 0, len(paths)+len(y)-i-1)
+
 			for _, p := range paths {
 				sp := &YamlFile{
 					Name:       y[i].Name,
@@ -144,11 +146,13 @@ func (yfs *YamlFiles) expandDirectories() error {
 					OutputPath: y[i].OutputPath,
 				}
 
-				y = append(y, sp)
+				files = append(files, sp)
 			}
 
-			y = append(y[:i], y[i+1:]...)
-			i--
+			// the files take the place of the directory, to keep the listing order
+			files = append(files, y[i+1:]...)
+			y = append(y[:i:i], files...)
+			i += len(paths) - 1
 		}
 	}
 
-- 
2.43.0


From af53d1423f21b650366e8efe329e266afcde4be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 13/16] fix: never mistake inserted text for a format marker

---
 internal/actions/format.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/actions/format.go b/internal/actions/format.go
index f2c0c05..5cb0805 100644
--- a/internal/actions/format.go
+++ b/internal/actions/format.go
@@ -73,6 +73,7 @@ func doFormat(s string, values ...interface{}) string {
 	re := regexp.MustCompile(`(?P<marker>%[vklfh])(?P<format>{(?P<command>.*?)})?`)
 
 	matches := re.FindAllStringSubmatch(s, -1)
+	formatted := ""
 
 	for _, match := range matches {
 		result := make(map[string]string)
@@ -95,11 +96,14 @@ func doFormat(s string, values ...interface{}) string {
 				}
 			}
 
-			s = strings.Replace(s, match[0], marker, 1)
+			// continue after the marker, so that the inserted text is never mistaken for one
+			i := strings.Index(s, match[0])
+			formatted += s[:i] + marker
+			s = s[i+len(match[0]):]
 		}
 	}
 
-	return s
+	return formatted + s
 }
 
 func processSedCommand(command, value string) (string, error) {
-- 
2.43.0


From fde873b8bb277218499ee1dda662f3afeb172237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 14/16] fix: merge the comments of a key with format markers
 only once

---
 internal/actions/merge.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 993b9d7..805b386 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -91,7 +91,10 @@ func mergeMap(o, n *yaml.Node) error {
 			keyName := o.Content[oi].Value
 			value := o.Content[oi+1].Value
 
-			mergeComments(o.Content[oi], n.Content[ni], value, keyName)
+			// the comments of a key with markers are merged along with the key itself
+			if !foundMarker {
+				mergeComments(o.Content[oi], n.Content[ni], value, keyName)
+			}
 
 			if err := merge(o.Content[oi+1], n.Content[ni+1], keyName); err != nil {
 				return err
-- 
2.43.0


From 7e70d90b000c49e5b84f26bd97a8220cc27994e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 15/16] fix: combine repeated output styles instead of summing
 them

---
 internal/actions/style.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index ed05565..4aa37c0 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -59,7 +59,7 @@ func (ss Styles) FlagMap() map[Style][]string {
 func (ss Styles) GetStyle() Style {
 	var s Style
 	for _, v := range ss {
-		s += v
+		s |= v
 	}
 
 	return s
-- 
2.43.0


From 0e07b18b41d02d6f4df019c997015de611e41ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 16/16] fix: start every output with a document marker

When the first document of a file was left without content the output of the
file did not start with '---', so that with --stdout its documents were glued
to those of the file written before.
---
 internal/instructions/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index b2d5b59..432134b 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -117,12 +117,12 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 
 	ye.SetIndent(viper.GetInt("indentLevel"))
 
-	for i, node := range nodes {
+	for _, node := range nodes {
 		if len(node.Content) == 0 {
 			continue
 		}
 
-		if i == 0 {
+		if !fileWritten {
 			output.WriteString("---\n")
 		}
 
-- 
2.43.0

