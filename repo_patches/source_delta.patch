From dedb92ae106fdfceed8381b2d69944bdac2a99f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 01/18] fix: marshal absent values as empty text, so that
 valueless events survive rtcg-make-stms

---
 internal/testlang/value/value.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/testlang/value/value.go b/internal/testlang/value/value.go
index 1bbb997..1ca17cf 100644
--- a/internal/testlang/value/value.go
+++ b/internal/testlang/value/value.go
@@ -55,7 +55,7 @@ func (v *Value) Equals(other Value) bool {
 
 func (v *Value) MarshalText() ([]byte, error) {
 	if v.IsEmpty() {
-		return nil, ErrMarshallAbsentValue
+		return []byte{}, nil
 	}
 
 	output, err := v.content.MarshalText()
@@ -87,6 +87,13 @@ func (v *Value) StringValue() string {
 func (v *Value) UnmarshalText(text []byte) error {
 	text = bytes.TrimSpace(text)
 
+	// An absent value marshals to empty text.
+	if len(text) == 0 {
+		v.content = nil
+
+		return nil
+	}
+
 	for _, parser := range []func() Valuable{
 		func() Valuable {
 			tmp := IntValue(0)
@@ -136,7 +143,4 @@ func tryUnmarshal[V Valuable](tmp V, text []byte) Valuable {
 	return tmp
 }
 
-var (
-	ErrMarshallAbsentValue  = errors.New("tried to marshal an absent Value")
-	ErrUnsupportedValueType = errors.New("value type not supported")
-)
+var ErrUnsupportedValueType = errors.New("value type not supported")
-- 
2.43.0


From 4bf2847847df1e397b7efeabbc7d56f2e79c76ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 02/18] fix: make the conversion directory even if there is no
 user-supplied conversion

---
 internal/gen/cpp/copy.go | 2 ++
 internal/gen/cpp/cpp.go  | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/internal/gen/cpp/copy.go b/internal/gen/cpp/copy.go
index a042401..c35363d 100644
--- a/internal/gen/cpp/copy.go
+++ b/internal/gen/cpp/copy.go
@@ -20,6 +20,8 @@ const (
 	convertDir   = "convert"       // convertDir is the subdirectory where we store the conversion code.
 	preludeDir   = "rtcg"          // preludeDir is the subdirectory where we store the prelude.
 	preludeMount = "embed/prelude" // preludeMount is the directory in prelude where the prelude is.
+
+	convertDirPerms = 0o754 // convertDirPerms is the permission mask of convertDir.
 )
 
 func (g *Generator) copyPrelude() error {
diff --git a/internal/gen/cpp/cpp.go b/internal/gen/cpp/cpp.go
index 200c788..b1e9635 100644
--- a/internal/gen/cpp/cpp.go
+++ b/internal/gen/cpp/cpp.go
@@ -3,6 +3,7 @@ package cpp
 
 import (
 	"fmt"
+	"os"
 
 	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"
@@ -99,6 +100,11 @@ func (o *OnSuite) generateCommon() error {
 		return err
 	}
 
+	// The conversion header is needed even if there is no user-supplied conversion.
+	if err := os.MkdirAll(o.parent.srcDirSet.OutputPath(convertDir), convertDirPerms); err != nil {
+		return fmt.Errorf("couldn't make conversion directory: %w", err)
+	}
+
 	if err := o.parent.templated.common.Generate(o.parent.srcDirSet.Output, o.cctx); err != nil {
 		return fmt.Errorf("generating common files: %w", err)
 	}
-- 
2.43.0


From 43ef39fbecb25d6dacb2e04fd33ed550fd7e0606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 03/18] fix: always put the conversion header on the Makefile's
 include path

---
 internal/gen/makefile/embed/templates/Makefile.tmpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/gen/makefile/embed/templates/Makefile.tmpl b/internal/gen/makefile/embed/templates/Makefile.tmpl
index 736e716..3d26c5c 100644
--- a/internal/gen/makefile/embed/templates/Makefile.tmpl
+++ b/internal/gen/makefile/embed/templates/Makefile.tmpl
@@ -1,6 +1,6 @@
 {{- define "output" -}}bin/{{ . }}{{- end -}}
 {{- define "reg_inputs" -}}src/{{ . }}/src/main.cpp src/rtcg/rtcg.cpp{{- end -}}
-{{- define "iconvert" -}}{{- if .HasConversion }} -Isrc/convert{{- end -}}{{- end -}}
+{{- define "iconvert" }} -Isrc/convert{{- end -}}
 {{- define "convert" -}}{{- if .HasConversion }} src/convert/convert.cpp{{- end -}}{{- end -}}
 
 .POSIX:
-- 
2.43.0


From 6a1154cfcd2b1bbaf2f96dcc5172262f5e8c0fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 04/18] fix: don't generate a state identifier that a supplied
 node identifier already uses

---
 internal/stm/builder.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/stm/builder.go b/internal/stm/builder.go
index d458f34..03ae0bb 100644
--- a/internal/stm/builder.go
+++ b/internal/stm/builder.go
@@ -12,6 +12,7 @@ import (
 // Builder builds state machines from tests.
 type Builder struct {
 	nodeNum uint64                          // nodeNum is a monotonically increasing counter for naming unnamed nodes.
+	usedIDs map[testlang.NodeID]bool        // usedIDs contains the IDs that the test's nodes came with.
 	stack   structure.Stack[*testlang.Node] // stack is a stack used for in-order test traversal.
 	stm     Stm                             // stm is the state machine currently being built.
 }
@@ -76,6 +77,8 @@ func (b *Builder) Build(test *validate.Test) (Stm, error) {
 	testRoot := test.Root()
 	testRoot.ID = "initial"
 
+	b.collectUsedIDs(testRoot)
+
 	b.stack.Clear()
 	b.stack.Push(testRoot)
 
@@ -153,6 +156,19 @@ func (b *Builder) ensureNodeID(n *testlang.Node) {
 		return
 	}
 
-	n.ID = testlang.NodeID(fmt.Sprintf("step%d", b.nodeNum))
-	b.nodeNum++
+	// Don't reuse an ID that another node came with.
+	for n.ID == "" || b.usedIDs[n.ID] {
+		n.ID = testlang.NodeID(fmt.Sprintf("step%d", b.nodeNum))
+		b.nodeNum++
+	}
+}
+
+func (b *Builder) collectUsedIDs(root *testlang.Node) {
+	b.usedIDs = map[testlang.NodeID]bool{}
+
+	_ = testlang.Walk(root, func(node *testlang.Node) error {
+		b.usedIDs[node.ID] = true
+
+		return nil
+	})
 }
-- 
2.43.0


From 762b9c60089f99138be4f6f8469dfad3045652d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 05/18] fix: refuse test names that would put generated files
 outside the output directory

---
 internal/gen/gen.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index f6d5213..f4fce29 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -4,6 +4,7 @@ package gen
 import (
 	"fmt"
 	"os"
+	"path/filepath"
 
 	"github.com/UoY-RoboStar/rtcg/internal/gen/catkin"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/config"
@@ -123,15 +124,29 @@ func (g *Generator) OnSuite(suite *stm.Suite) *OnSuite {
 		subgens[i] = subg.OnSuite(suite)
 	}
 
-	return &OnSuite{parent: g, subgens: subgens}
+	return &OnSuite{parent: g, suite: suite, subgens: subgens}
 }
 
 type OnSuite struct {
 	parent  *Generator
+	suite   *stm.Suite
 	subgens []subgen.OnSuite
 }
 
+// NonLocalNameError is an error that arises if generating a test would write outside the output directory.
+type NonLocalNameError struct {
+	Name string // Name is the name of the test.
+}
+
+func (e NonLocalNameError) Error() string {
+	return fmt.Sprintf("test name %q refers to a path outside the output directory", e.Name)
+}
+
 func (o *OnSuite) Generate() error {
+	if err := o.checkNames(); err != nil {
+		return err
+	}
+
 	if err := o.mkdirs(); err != nil {
 		return err
 	}
@@ -143,6 +158,17 @@ func (o *OnSuite) Generate() error {
 	return nil
 }
 
+// checkNames makes sure that the directory of each test, which is its name, is inside the output directory.
+func (o *OnSuite) checkNames() error {
+	for name := range o.suite.Tests {
+		if !filepath.IsLocal(name) {
+			return NonLocalNameError{Name: name}
+		}
+	}
+
+	return nil
+}
+
 // mkdirs makes the various directories used by the generator.
 func (o *OnSuite) mkdirs() error {
 	for _, subg := range o.subgens {
-- 
2.43.0


From 7884ce03f6c288cd51e58ffc247e08bad3d2ac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 06/18] fix: refuse to collapse trees that are not those of
 traces

Collapse accepted trees whose failing node did not directly follow the passing node, losing events.
---
 internal/trace/collapse.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/trace/collapse.go b/internal/trace/collapse.go
index 9c3e568..d859aed 100644
--- a/internal/trace/collapse.go
+++ b/internal/trace/collapse.go
@@ -21,7 +21,7 @@ func Collapse(test *testlang.Node) (Forbidden, error) {
 		return collapsed, fmt.Errorf("test does not start with a valid root: %w", err)
 	}
 
-	for done, pos := false, 1; !done; pos++ {
+	for done, passed, pos := false, false, 1; !done; pos++ {
 		if test, err = validate.OneNext(test); err != nil {
 			return collapsed, fmt.Errorf("couldn't get node %d: %w", pos, err)
 		}
@@ -30,6 +30,13 @@ func Collapse(test *testlang.Node) (Forbidden, error) {
 			return collapsed, fmt.Errorf("node %d failed verification: %w", pos, err)
 		}
 
+		// The failing node must come directly after the passing node, and nothing else may do so.
+		if passed != (test.Outcome == testlang.OutcomeFail) {
+			return collapsed, BadOutcomeError{Position: pos, Outcome: test.Outcome}
+		}
+
+		passed = test.Outcome == testlang.OutcomePass
+
 		if done, err = collapseNode(&collapsed, test, pos); err != nil {
 			return collapsed, err
 		}
-- 
2.43.0


From 2fcda32e78cb195c6bb3dcb50dd76d9f68709f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 07/18] fix: only refer to the conversion source in
 CMakeLists.txt if there is one

CMakeLists.txt always named ../convert/convert.cpp, which is generated only if a channel's type is overridden.
---
 internal/gen/catkin/catkin.go                 | 29 ++++++++++++++-----
 .../embed/templates/CMakeLists.txt.tmpl       | 10 ++++++-
 internal/gen/gen.go                           |  2 +-
 3 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/internal/gen/catkin/catkin.go b/internal/gen/catkin/catkin.go
index 56098b3..c2f59bf 100644
--- a/internal/gen/catkin/catkin.go
+++ b/internal/gen/catkin/catkin.go
@@ -8,6 +8,7 @@ import (
 	"path/filepath"
 
 	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/catkin"
+	"github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/subgen"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/templating"
@@ -17,19 +18,20 @@ import (
 // Generator is a Catkin auxiliary file generator.
 type Generator struct {
 	config    cfg.Config       // config is the user-supplied configuration.
+	cppConfig cpp.Config       // cppConfig is the C++ configuration.
 	srcDirSet gencommon.DirSet // srcBaseDir is the source directory set for this Catkin workspace.
 
 	cmakeGen *templating.Generator // cmakeGen is the generator for CMakeLists.txt.
 }
 
-// New creates a new Catkin generator with the given configuration.
-func New(config *cfg.Config, dirs gencommon.DirSet) (*Generator, error) {
+// New creates a new Catkin generator with the Catkin configuration in the given C++ configuration.
+func New(config *cpp.Config, dirs gencommon.DirSet) (*Generator, error) {
 	tg, err := NewTemplatedGenerator()
 	if err != nil {
 		return nil, err
 	}
 
-	gen := Generator{config: *config, srcDirSet: dirs.Subdir("src"), cmakeGen: tg}
+	gen := Generator{config: *config.Catkin, cppConfig: *config, srcDirSet: dirs.Subdir("src"), cmakeGen: tg}
 
 	if gen.config.Package == nil {
 		var pkg cfg.Package
@@ -47,15 +49,17 @@ func (g *Generator) Name() string {
 
 func (g *Generator) OnSuite(suite *stm.Suite) subgen.OnSuite {
 	return &OnSuite{
-		parent: g,
-		suite:  suite,
+		parent:        g,
+		suite:         suite,
+		hasConversion: g.cppConfig.Process(suite.Types).HasConversion,
 	}
 }
 
 // OnSuite is a generator specialised to generating one particular test suite.
 type OnSuite struct {
-	parent *Generator
-	suite  *stm.Suite
+	parent        *Generator
+	suite         *stm.Suite
+	hasConversion bool // hasConversion is true if there is a convert.cpp file.
 }
 
 func (o *OnSuite) Parent() subgen.Subgenerator {
@@ -79,6 +83,13 @@ func (o *OnSuite) Generate() error {
 	return nil
 }
 
+// cmakeContext is the context passed into the CMakeLists.txt template.
+type cmakeContext struct {
+	cfg.Package
+
+	HasConversion bool // HasConversion is true if there is a convert.cpp file.
+}
+
 func (o *OnSuite) generateTest(dirs gencommon.DirSet, name string) error {
 	// Take a copy here to avoid accidentally expanding the name in every test.
 	pkg := *o.parent.config.Package
@@ -88,7 +99,9 @@ func (o *OnSuite) generateTest(dirs gencommon.DirSet, name string) error {
 		return err
 	}
 
-	if err := o.parent.cmakeGen.Generate(dirs.Output, pkg); err != nil {
+	ctx := cmakeContext{Package: pkg, HasConversion: o.hasConversion}
+
+	if err := o.parent.cmakeGen.Generate(dirs.Output, ctx); err != nil {
 		return fmt.Errorf("generating cmake: %w", err)
 	}
 
diff --git a/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl b/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl
index 49f8b2f..2e99447 100644
--- a/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl
+++ b/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl
@@ -1,7 +1,7 @@
 {{- /*
 CMakeLists.txt.tmpl is the template for generating top-level CMakeLists for each package.
 
-It takes the package.xml as dot.
+It takes the package.xml, and whether there is a convert.cpp, as dot.
 */ -}}
 cmake_minimum_required(VERSION 3.0.2)
 project({{ .Name }})
@@ -31,17 +31,21 @@ include_directories(
     ../rtcg/
 )
 
+{{ if .HasConversion -}}
 add_library(convert
     ../convert/convert.cpp
 )
 
+{{ end -}}
 add_library(rtcg
     ../rtcg/rtcg.cpp
 )
 
 add_executable(${PROJECT_NAME}_node
     src/main.cpp
+{{- if .HasConversion }}
     ../convert/convert.cpp
+{{- end }}
     ../rtcg/rtcg.cpp
 )
 
@@ -50,12 +54,16 @@ set_target_properties(${PROJECT_NAME}_node PROPERTIES OUTPUT_NAME node PREFIX ""
 add_dependencies(${PROJECT_NAME}_node
     ${${PROJECT_NAME}_EXPORTED_TARGETS}
     ${catkin_EXPORTED_TARGETS}
+{{- if .HasConversion }}
     convert
+{{- end }}
     rtcg
 )
 
 target_link_libraries(${PROJECT_NAME}_node
     ${catkin_LIBRARIES}
+{{- if .HasConversion }}
     convert
+{{- end }}
     rtcg
 )
\ No newline at end of file
diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index f4fce29..09d7868 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -80,7 +80,7 @@ func initCppCatkin(config *cfg.Config, dirs gencommon.DirSet) ([]subgen.Subgener
 		return nil, nil
 	}
 
-	gen, err := catkin.New(config.Catkin, dirs)
+	gen, err := catkin.New(config, dirs)
 	if err != nil {
 		return nil, fmt.Errorf("couldn't init Catkin generator: %w", err)
 	}
-- 
2.43.0


From 171eb341b5ea946e9f8c61184163decdce29538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 08/18] fix: report a test without a root node as malformed
 instead of crashing

---
 internal/validate/errors.go   | 3 +++
 internal/validate/validate.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/internal/validate/errors.go b/internal/validate/errors.go
index 8cd3067..ab0eb78 100644
--- a/internal/validate/errors.go
+++ b/internal/validate/errors.go
@@ -24,6 +24,9 @@ var (
 	// ErrNoOutcome occurs when a non-root node has no outcome.
 	ErrNoOutcome = errors.New("non-root node should have an outcome set")
 
+	// ErrNoRoot occurs when a test has no root node.
+	ErrNoRoot = errors.New("test should have a root node")
+
 	// ErrNoTests occurs when a node has no tests set.
 	ErrNoTests = errors.New("node should belong to at least one test")
 
diff --git a/internal/validate/validate.go b/internal/validate/validate.go
index 9d26ad1..9347c7a 100644
--- a/internal/validate/validate.go
+++ b/internal/validate/validate.go
@@ -20,6 +20,10 @@ func (t Test) Root() *testlang.Node {
 // Full performs a full validation of the test starting at root.
 // If successful, it returns a Test.
 func Full(root *testlang.Node) (*Test, error) {
+	if root == nil {
+		return nil, ErrNoRoot
+	}
+
 	// TODO: check test monotonicity and partitioning
 	err := testlang.Walk(root, func(node *testlang.Node) error {
 		var err error
-- 
2.43.0


From b9e2430f9067fa27b8515547e7ff11cf9801d6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:56 +0000
Subject: [PATCH 09/18] fix: report missing state machines and states as
 malformed instead of crashing

---
 internal/stm/stm.go   | 15 +++++++++++++++
 internal/stm/suite.go | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/internal/stm/stm.go b/internal/stm/stm.go
index ef915c5..33a12e3 100644
--- a/internal/stm/stm.go
+++ b/internal/stm/stm.go
@@ -53,3 +53,18 @@ func (s *Stm) TransitionSets() []transition.AggregateSet {
 
 	return result
 }
+
+// checkComplete makes sure that neither the Stm nor one of its states is missing.
+func (s *Stm) checkComplete() error {
+	if s == nil {
+		return ErrMissingStm
+	}
+
+	for _, st := range s.States {
+		if st == nil {
+			return ErrMissingState
+		}
+	}
+
+	return nil
+}
diff --git a/internal/stm/suite.go b/internal/stm/suite.go
index 4504d22..77aef2a 100644
--- a/internal/stm/suite.go
+++ b/internal/stm/suite.go
@@ -1,6 +1,7 @@
 package stm
 
 import (
+	"errors"
 	"fmt"
 	"io"
 
@@ -21,6 +22,12 @@ func ReadSuite(r io.Reader) (*Suite, error) {
 		return nil, fmt.Errorf("couldn't read state machine suite: %w", err)
 	}
 
+	for name, test := range suite.Tests {
+		if err := test.checkComplete(); err != nil {
+			return nil, fmt.Errorf("couldn't read state machine %q: %w", name, err)
+		}
+	}
+
 	return &suite, nil
 }
 
@@ -32,3 +39,11 @@ func (s *Suite) Write(w io.Writer) error {
 
 	return nil
 }
+
+var (
+	// ErrMissingStm occurs when a test has no state machine.
+	ErrMissingStm = errors.New("state machine missing")
+
+	// ErrMissingState occurs when there is nothing in the place of a state.
+	ErrMissingState = errors.New("state missing")
+)
-- 
2.43.0


From 5ef678149e35dbf4faecd93425c3746ba44ff5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 10/18] fix: let rtcg-gen read a file called ./- instead of
 standard input

---
 cmd/rtcg-gen/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/rtcg-gen/main.go b/cmd/rtcg-gen/main.go
index 6ded82b..920b884 100644
--- a/cmd/rtcg-gen/main.go
+++ b/cmd/rtcg-gen/main.go
@@ -67,7 +67,6 @@ type genAction struct {
 func (a *genAction) run() error {
 	a.outputDir = filepath.Clean(a.outputDir)
 	a.configFile = filepath.Clean(a.configFile)
-	a.inputFile = filepath.Clean(a.inputFile)
 
 	stms, err := a.readSuite()
 	if err != nil {
-- 
2.43.0


From 6284fcf955c226d5539f75b6409a03acdb40cac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 11/18] fix: refuse to clean the current directory by another
 name, or one that contains it

---
 cmd/rtcg-gen/main.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/cmd/rtcg-gen/main.go b/cmd/rtcg-gen/main.go
index 920b884..8b56165 100644
--- a/cmd/rtcg-gen/main.go
+++ b/cmd/rtcg-gen/main.go
@@ -85,7 +85,7 @@ func (a *genAction) maybeClean() error {
 		return nil
 	}
 
-	if a.outputDir == "." {
+	if isAroundCwd(a.outputDir) {
 		return ErrCleanDot
 	}
 
@@ -96,7 +96,27 @@ func (a *genAction) maybeClean() error {
 	return nil
 }
 
-// ErrCleanDot occurs if we try to clean "." (current directory).
+// isAroundCwd is true if dir is the current directory, however it is spelled, or one that contains it.
+func isAroundCwd(dir string) bool {
+	if dir == "." {
+		return true
+	}
+
+	cwd, err := os.Getwd()
+	if err != nil {
+		return false
+	}
+
+	if !filepath.IsAbs(dir) {
+		dir = filepath.Join(cwd, dir)
+	}
+
+	rel, err := filepath.Rel(dir, cwd)
+
+	return err == nil && filepath.IsLocal(rel)
+}
+
+// ErrCleanDot occurs if we try to clean "." (current directory), or a directory that contains it.
 //
 // We don't support this because it would then change or confuse the current working directory.
 var ErrCleanDot = errors.New("can't clean current directory")
-- 
2.43.0


From 95a13a2cdceb3a5c2df6b945ae12b9baa8937069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:02 +0000
Subject: [PATCH 12/18] fix: don't let callbacks that arrive after the end of a
 test resume it

---
 internal/gen/cpp/embed/templates/base/stm.cpp.tmpl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl b/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl
index 3cbedd5..0b59ca3 100644
--- a/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl
@@ -115,7 +115,10 @@ void StateMachine::initialDelayCallback({{ template "initial_delay_callback_args
 
 void StateMachine::inputAcceptedCallback({{ template "in_callback_args" }})
 {
-{{-   block "in_callback" .Transitions.InMerged }}
+  // Don't acknowledge this callback if the test has already ended.
+  if (!rtcg::status::isRunning(status_))
+    return;
+{{    block "in_callback" .Transitions.InMerged }}
 {{-     template "in_callback.cpp.tmpl" . }}
 {{-   end -}}
 }
@@ -125,7 +128,10 @@ void StateMachine::inputAcceptedCallback({{ template "in_callback_args" }})
 
 void StateMachine::{{ cppCallbackName .Channel.Name }}(const {{ cppChannelMsgType .Channel.Name }} msg)
 {
-{{- block "out_callback" . }}
+  // Don't acknowledge this callback if the test has already ended.
+  if (!rtcg::status::isRunning(status_))
+    return;
+{{ block "out_callback" . }}
 {{-   template "out_callback.cpp.tmpl" . }}
 {{- end -}}
 }
-- 
2.43.0


From 8d06a61a70dee3dcddd686cf1448776da4d94379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 13/18] fix: treat an acknowledgement before the first input is
 sent as a bug

---
 internal/gen/cpp/embed/templates/base/stm.cpp.tmpl | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl b/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl
index 0b59ca3..e08d46c 100644
--- a/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl
@@ -118,6 +118,16 @@ void StateMachine::inputAcceptedCallback({{ template "in_callback_args" }})
   // Don't acknowledge this callback if the test has already ended.
   if (!rtcg::status::isRunning(status_))
     return;
+{{- if .Transitions.FirstStateHasIn }}
+
+  // We can't acknowledge an input before sending it.
+  if (status_ == rtcg::Status::WAIT_START)
+  {
+    {{ template "log" "error" }}"Accepted input before the test sent one."{{ template "end_log" }}
+    end(rtcg::Status::BUG);
+    return;
+  }
+{{- end }}
 {{    block "in_callback" .Transitions.InMerged }}
 {{-     template "in_callback.cpp.tmpl" . }}
 {{-   end -}}
-- 
2.43.0


From 674fbd9e3c89c52593f69460c6259e15df38eff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:16 +0000
Subject: [PATCH 14/18] fix: refuse JSON input with more behind its value

---
 internal/serial/serial.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/serial/serial.go b/internal/serial/serial.go
index 2663015..ee24f58 100644
--- a/internal/serial/serial.go
+++ b/internal/serial/serial.go
@@ -3,11 +3,17 @@ package serial
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 )
 
+// ErrTrailing occurs when there is more input after a JSON value.
+var ErrTrailing = errors.New("unexpected input after JSON value")
+
 // ReadJSON reads a JSON representation from reader into dest.
+//
+// There must be nothing else to read.
 func ReadJSON(reader io.Reader, dest any) error {
 	j := json.NewDecoder(reader)
 
@@ -15,6 +21,12 @@ func ReadJSON(reader io.Reader, dest any) error {
 		return fmt.Errorf("JSON read error: %w", err)
 	}
 
+	if err := j.Decode(new(json.RawMessage)); err == nil {
+		return fmt.Errorf("JSON read error: %w", ErrTrailing)
+	} else if !errors.Is(err, io.EOF) {
+		return fmt.Errorf("JSON read error: %w", err)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 5896f74297a5451943e5a405fe87711389f995ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:16 +0000
Subject: [PATCH 15/18] fix: refuse configurations with more behind their
 document

---
 internal/gen/config/config.go | 36 ++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/internal/gen/config/config.go b/internal/gen/config/config.go
index 299e482..b140d56 100644
--- a/internal/gen/config/config.go
+++ b/internal/gen/config/config.go
@@ -1,9 +1,11 @@
 package config
 
 import (
+	"bytes"
 	"encoding/xml"
 	"errors"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 
@@ -17,6 +19,9 @@ type Config struct {
 	Directory string       `xml:"directory,omitempty"` // Directory contains the root directory for generator files.
 }
 
+// ErrTrailing occurs when a config file has elements or text after its document.
+var ErrTrailing = errors.New("unexpected content after document")
+
 // Load loads a generator config at path.
 func Load(path string) (*Config, error) {
 	var config Config
@@ -26,7 +31,7 @@ func Load(path string) (*Config, error) {
 		return nil, fmt.Errorf("couldn't open config file %q: %w", path, err)
 	}
 
-	if err := xml.NewDecoder(file).Decode(&config); err != nil {
+	if err := decode(file, &config); err != nil {
 		err = fmt.Errorf("couldn't decode config file %q: %w", path, err)
 
 		return nil, errors.Join(err, file.Close())
@@ -42,3 +47,32 @@ func Load(path string) (*Config, error) {
 
 	return &config, nil
 }
+
+// decode decodes config from reader, in which nothing but comments and blanks may follow it.
+func decode(reader io.Reader, config *Config) error {
+	decoder := xml.NewDecoder(reader)
+
+	if err := decoder.Decode(config); err != nil {
+		return fmt.Errorf("XML read error: %w", err)
+	}
+
+	for {
+		token, err := decoder.Token()
+		if errors.Is(err, io.EOF) {
+			return nil
+		}
+
+		if err != nil {
+			return fmt.Errorf("XML read error: %w", err)
+		}
+
+		switch content := token.(type) {
+		case xml.StartElement:
+			return ErrTrailing
+		case xml.CharData:
+			if len(bytes.Trim(content, " \t\r\n")) != 0 {
+				return ErrTrailing
+			}
+		}
+	}
+}
-- 
2.43.0


From 2c5f4f85e9460bc3ce742c9dc4291e36e30801c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:30 +0000
Subject: [PATCH 16/18] fix: forget an event's value when reading an event
 without one

---
 internal/testlang/event.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/testlang/event.go b/internal/testlang/event.go
index e3b9db9..68d58fb 100644
--- a/internal/testlang/event.go
+++ b/internal/testlang/event.go
@@ -70,7 +70,9 @@ func (e *Event) UnmarshalText(text []byte) error {
 	}
 
 	if val == nil {
-		// No value in this event.
+		// No value in this event, whatever was in it before.
+		e.Value = value.None()
+
 		return nil
 	}
 
-- 
2.43.0


From 28117492c7fb3db752ac393848a57733ff3f9e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:31 +0000
Subject: [PATCH 17/18] fix: expect conversion code only for channels with a
 configured type

---
 internal/gen/config/cpp/context.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/gen/config/cpp/context.go b/internal/gen/config/cpp/context.go
index 1f6ef21..1ca27af 100644
--- a/internal/gen/config/cpp/context.go
+++ b/internal/gen/config/cpp/context.go
@@ -26,13 +26,13 @@ func (c *Config) Process(types stm.TypeMap) Context {
 	overrides := c.ChannelMap()
 
 	for cname, ctype := range types {
-		override, ok := overrides[cname]
+		chanType := ChannelType{Base: ctype, Override: overrides[cname]}
 
-		if ok {
+		if chanType.HasOverride() {
 			ctx.HasConversion = true
 		}
 
-		ctx.ChannelTypes[cname] = ChannelType{Base: ctype, Override: override}
+		ctx.ChannelTypes[cname] = chanType
 	}
 
 	return ctx
-- 
2.43.0


From 65dd210431d2c877a164c5ea1575b17de2fd84ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:09 +0000
Subject: [PATCH 18/18] fix: end animations when their input ends, and don't
 take what is not a value

---
 .../embed/templates/animate/main_body.cpp.tmpl    | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
index 8619c66..388e5f3 100644
--- a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
@@ -26,7 +26,8 @@
 
     std::cout << "\n> ";
     std::string choice;
-    std::cin >> choice;
+    if (!(std::cin >> choice))
+      choice = "timeout"; // There is no more input.
 
     if (choice == "timeout")
       stm.timeoutCallback();
@@ -44,9 +45,15 @@
     else if (choice == "{{ $cn }}")
     {
       {{ cppType $ctype.Base }} in;
-      std::cin >> in;
-
-      stm.{{ cppCallbackName .Channel.Name }}({{ cppConvertTo .Channel.Name }}(in));
+      if (std::cin >> in)
+        stm.{{ cppCallbackName .Channel.Name }}({{ cppConvertTo .Channel.Name }}(in));
+      else if (!std::cin.eof())
+      {
+        // Not a value of this type: skip the line.
+        std::cin.clear();
+        std::getline(std::cin, choice);
+        std::cout << "Sorry, try again.\n";
+      }
     }
 {{- end }}
     else
-- 
2.43.0

