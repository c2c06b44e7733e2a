// Package faults checks that failures of the system are reported, and that the generator stays in its directory.
package faults

import (
	"path/filepath"
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/env"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

func max(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}

	return quick
}

const (
	traces = "t: a.in.1, b.out\n"
	tests  = `{"t":{"tests":["t"],"next":[{"outcome":"inc","tests":["t"],"event":"a.in.1","next":[{"outcome":"pass","tests":["t"],"event":"b.out","next":[{"outcome":"fail","tests":["t"]}]}]}]}}`
	conf   = `<rtcg-gen><cpp variant="animate"><makefile/><channel name="a" type="T"/></cpp><cpp variant="ros"><include src="x.h"/><channel name="a" type="T"/><catkin/></cpp></rtcg-gen>`
	simple = `<rtcg-gen><cpp variant="animate"><makefile/></cpp></rtcg-gen>`
)

func quote(s string) string { return `"` + s + `"` }

func machines(names ...string) string {
	s := `{"types":{"a":"nat"},"tests":{`

	for i, name := range names {
		if i > 0 {
			s += ","
		}

		n := quote(name)
		s += n + `:{"states":[{"id":"i","transitionSets":[{"channel":"a.in","transitions":[{"value":"1","next":"s"}]}],"verdicts":{` + n + `:"pass"}},{"id":"s","verdicts":{` + n + `:"fail"}}],"types":{"a":"nat"},"tests":[` + n + `]}`
	}

	return s + `}}`
}

type command struct {
	tool string
	args []string
	in   string
}

var commands = []command{
	{"rtcg-read-traces", []string{"in"}, traces},
	{"rtcg-make-stms", []string{"in"}, tests},
	{"rtcg-gen", []string{"-output", "o/p", "d/g.xml", "in"}, machines("u/v")},
}

// world makes the files that a command needs, as an earlier run could leave them.
func world(c command) {
	env.Reset()
	env.Put("in", c.in)
	env.Put("d/g.xml", conf)
	env.Put("d/animate/src/convert/convert.cpp", "// animate\n")
	env.Put("d/ros/src/convert/convert.cpp", "// ros\n")
}

func failed(r env.Result) {
	sym.Assert(r.Code != 0, "a failure gives a non-zero status")
	sym.Assert(r.Err != "", "a failure gives a message")
	sym.Assert(!strings.Contains(r.Err, "goroutine "), "a failure is no crash")
}

// normal is a run without failures, which has to succeed.
func normal(c command) {
	r := env.Run(c.tool, c.args, "")
	sym.Assert(r.Code == 0 && r.Err == "", "a run without failures succeeds")
}

// CheckReads makes reading of inputs fail.
func CheckReads() {
	sym.Bound("each tool, when any one of its inputs cannot be opened, or the first or second read from it fails")

	c := commands[sym.Choice("tool", 3)]
	world(c)

	in := []string{"in", "d/g.xml", "d/animate/src/convert/convert.cpp", "d/ros/src/convert/convert.cpp"}
	if c.tool != "rtcg-gen" {
		in = in[:1]
	}

	f := in[sym.Choice("input", len(in))]
	op := []string{"open", "read"}[sym.Choice("operation", 2)]
	k := 1

	if op == "read" {
		k += sym.Choice("which", 2)
	}

	env.Fault(op, f, k)

	r := env.Run(c.tool, c.args, "")
	if !env.Fired() {
		return
	}

	failed(r)

	if op == "open" {
		sym.Reach("open")
	} else {
		sym.Reach("read")
	}
}

// CheckMissing has something else where an input should be.
func CheckMissing() {
	sym.Bound("each tool, when any one of its inputs is absent, a directory, or below a file")

	c := commands[sym.Choice("tool", 3)]
	in := []string{"in", "d/g.xml", "d/animate/src/convert/convert.cpp", "d/ros/src/convert/convert.cpp"}

	if c.tool != "rtcg-gen" {
		in = in[:1]
	}

	f, how := sym.Choice("input", len(in)), sym.Choice("how", 2)

	env.Reset()

	for i, p := range in {
		switch {
		case i == f && how == 1:
			env.PutDir(p)
		case i == f:
		default:
			env.Put(p, []string{c.in, conf, "", ""}[i])
		}
	}

	failed(env.Run(c.tool, c.args, ""))
	sym.Reach("missing")
}

// CheckStandard makes standard streams fail.
func CheckStandard() {
	sym.Bound("each tool with a standard input that cannot be read, or a standard output that cannot be written")

	c := commands[sym.Choice("tool", 3)]
	world(c)

	if sym.Choice("stream", 2) == 0 {
		env.BadIn()

		r := env.Run(c.tool, c.args[:len(c.args)-1], "")
		failed(r)
		sym.Assert(r.Out == "", "a failure gives no result")
		sym.Reach("in")

		return
	}

	if c.tool == "rtcg-gen" {
		return
	}

	env.FullOut()
	failed(env.Run(c.tool, c.args, ""))
	sym.Reach("out")
}

// CheckLarge makes standard output fail for results of any size.
func CheckLarge() {
	sym.Bound("results of up to 9 (17 in the thorough tier), and of 70, KB with an unwritable standard output")

	n := sym.Choice("size", max(11, 19))
	if n == max(10, 18) {
		n = 70
	}

	env.Reset()
	env.FullOut()

	if sym.Choice("tool", 2) == 0 {
		failed(env.Run("rtcg-read-traces", nil, "t: a.out."+strings.Repeat("x", n*512)+"\n"))
	} else {
		failed(env.Run("rtcg-make-stms", nil, `{"t":{"next":[{"outcome":"fail","event":"a.out.`+strings.Repeat("x", n*1024)+`"}]}}`))
	}

	sym.Reach("failed")
}

// CheckWrites makes writing of outputs fail.
func CheckWrites() {
	sym.Bound("a generation run with both variants, when any one output file cannot be opened, or closed, or any one of the first 12 (60 in the thorough tier) writes to it fails; any one directory cannot be made")

	c := commands[2]
	world(c)
	normal(c)

	var made []string

	for _, f := range env.List() {
		if strings.HasPrefix(f, "o/") {
			made = append(made, f)
		}
	}

	world(c)

	p := made[sym.Choice("output", len(made))]

	if dir := strings.TrimSuffix(p, "/"); dir != p {
		env.Fault("mkdir", dir, 1)

		r := env.Run(c.tool, c.args, "")
		if env.Fired() {
			failed(r)
			sym.Reach("directory")
		}

		return
	}

	op := []string{"open", "close", "write"}[sym.Choice("operation", 3)]
	k := 1

	if op == "write" {
		k += sym.Choice("which", max(12, 60))
	}

	env.Fault(op, p, k)

	r := env.Run(c.tool, c.args, "")
	if !env.Fired() {
		return
	}

	failed(r)

	switch op {
	case "open":
		sym.Reach("open")
	case "close":
		sym.Reach("close")
	case "write":
		sym.Reach("write")
	}
}

// CheckBlocked has something else where an output should be.
func CheckBlocked() {
	sym.Bound("the same generation run, when there is a directory in place of any one output file, full devices in place of one, of it and all after it, or of all, or a file in place of any one directory")

	c := commands[2]
	world(c)
	normal(c)

	var made []string

	for _, f := range env.List() {
		if strings.HasPrefix(f, "o/") {
			made = append(made, f)
		}
	}

	world(c)

	p := made[sym.Choice("output", len(made))]

	if dir := strings.TrimSuffix(p, "/"); dir != p {
		env.Put(dir, "")
		failed(env.Run(c.tool, c.args, ""))
		sym.Reach("file for directory")

		got, ok := env.Get(dir)
		sym.Assert(ok && got == "", "the file stays")

		return
	}

	if full := sym.Choice("full", 4); full > 0 {
		env.PutFull(p)

		// A full disk is full for all.
		for _, q := range made {
			if strings.HasSuffix(q, "/") {
				continue
			}

			if q != p && (full == 3 || full == 2 && q > p) {
				env.PutFull(q)
			}
		}

		failed(env.Run(c.tool, c.args, ""))
		sym.Reach("full")

		return
	}

	env.PutDir(p)
	failed(env.Run(c.tool, c.args, ""))
	sym.Assert(env.Has(p) && !isFile(p), "the directory stays")
	sym.Reach("directory for file")
}

func isFile(p string) bool {
	_, ok := env.Get(p)

	return ok
}

// CheckCleanFault makes removal fail.
func CheckCleanFault() {
	sym.Bound("a generation run that cannot remove the output directory")

	c := commands[2]
	world(c)
	env.Put("o/p/old", "")
	env.Fault("remove", "o/p", 1)

	r := env.Run(c.tool, append([]string{"-clean"}, c.args...), "")

	if env.Fired() {
		failed(r)
		sym.Assert(env.Has("o/p/old"), "it stays")
		sym.Reach("fault")
	}
}

// inside says whether a file is the output directory, or in it; where the output directory is not around the current one.
func inside(dir, p string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }

// CheckContained generates for tests of any name.
func CheckContained() {
	sym.Bound("tests with names of up to 4 bytes (5 in the thorough tier) of '.', '/' and a letter, or arbitrary printable ones of 2, with or without -clean, and output directories at several places")

	out := []string{"o", "o/p", "./o/../o/q", "o/"}[sym.Choice("output", 4)]
	dir := filepath.Clean(out)

	var name string
	if sym.Choice("any", 2) == 0 {
		for i := sym.Choice("length", max(5, 6)); i > 0; i-- {
			name += []string{".", "/", "x"}[sym.Choice("byte", 3)]
		}
	} else {
		name = sym.Str("name", 2)
		// Not what would need to be quoted, nor what has no files.
		for i := 0; i < 2; i++ {
			sym.Assume(sym.In(name[i], gen.Letters+gen.Digits+" ~$.-"))
		}
	}

	env.Reset()
	env.Put("g.xml", simple)
	env.Put("in", machines(name))

	canaries := []string{"k", "x/k", "src/k", "animate/k", "op", "ox/k", "o/k", dir + "y"}
	for _, k := range canaries {
		if !env.Has(k) {
			env.Put(k, "keep")
		}
	}

	env.Put(dir+"/old", "old")
	env.Put(dir+"/animate/src/old", "old")

	args := []string{"-output", out, "g.xml", "in"}
	clean := sym.Choice("clean", 2) == 1

	if clean {
		args = append([]string{"-clean"}, args...)
	}

	before := env.List()
	r := env.Run("rtcg-gen", args, "")

	sym.Assert(!env.Escaped(), "nothing outside the working directory changes")

	for _, k := range append(canaries, "g.xml", "in") {
		got, ok := env.Get(k)
		if k == "in" || k == "g.xml" {
			sym.Assert(ok, "inputs stay")
		} else if !inside(dir, k) {
			sym.Assert(ok && got == "keep", "files outside the output directory stay as they are")
		} else {
			sym.Assert(ok == !clean, "files in the output directory are removed exactly by -clean")
			sym.Assert(!ok || got == "keep", "files that are not generated stay as they are")
		}
	}

	for _, p := range env.List() {
		d := strings.TrimSuffix(p, "/")
		if !inside(dir, d) && !strings.HasPrefix(dir, d+"/") {
			was := false
			for _, q := range before {
				was = was || p == q
			}

			sym.Assert(was, "nothing is made outside the output directory")
		}
	}

	sym.Assert(env.Has(dir+"/old") == !clean && env.Has(dir+"/animate/src/old") == !clean, "-clean, and only it, empties the output directory")

	// Names that stay inside are fine.
	if name != "" {
		local := filepath.IsLocal(name)
		sym.Assert(!local || r.Code == 0 && env.Has(dir+"/animate/src/"+name+"/src/main.cpp"), "tests with ordinary names are generated")

		if local {
			sym.Reach("generated")
		} else {
			failed(r)
			sym.Reach("refused")
		}
	}
}

// CheckCleanAround cleans directories that contain the current one.
func CheckCleanAround() {
	sym.Bound("-clean of output directories that are paths of up to 5 (6 in the thorough tier) elements '.', '..', 'x', 'work' or nothing, the working directory being called 'work' and having an 'x'")

	var parts []string
	// Elements, with how deep they lead.
	depth := 0
	inX := false

	for i := sym.Choice("length", max(5, 6)) + 1; i > 0; i-- {
		p := []string{".", "..", "x", "work", ""}[sym.Choice("element", 5)]
		if len(parts) == 0 && p == "" {
			return
		}

		switch {
		case p == "." || p == "":
		case p == "..":
			depth--
			// Not above the directory that there is for this.
			if depth < -1 {
				return
			}

			inX = false
		case depth == 0 && p == "x":
			depth++
			inX = true
		case depth == -1 && p == "work":
			depth++
		default:
			return
		}

		parts = append(parts, p)
	}

	env.Reset()
	env.Put("g.xml", simple)
	env.Put("in", machines("t"))
	env.Put("x/old", "")
	env.Put("animate/src/old", "")

	before := strings.Join(env.List(), " ")
	r := env.Run("rtcg-gen", []string{"-clean", "-output", strings.Join(parts, "/"), "g.xml", "in"}, "")

	sym.Assert(!env.Escaped(), "nothing outside the working directory changes")

	if depth <= 0 {
		failed(r)
		sym.Assert(strings.Join(env.List(), " ") == before, "nothing is removed or made")
		sym.Reach("refused")

		return
	}

	sym.Assert(inX && r.Code == 0, "other directories can be cleaned")
	sym.Assert(!env.Has("x/old") && env.Has("x/animate/src/t/src/main.cpp") && env.Has("animate/src/old"), "the output directory is cleaned")
	sym.Reach("cleaned")
}

// CheckCleanName cleans directories whose names mean something elsewhere, such as patterns and variables.
func CheckCleanName() {
	sym.Bound("-clean of output directories with names of up to 2 (3 in the thorough tier) of '*', '?', '[x]', '\\\\x', 'x', '$x', '~', a blank, '..' and '{x,}', beside directories of several names that these could stand for")

	name := ""
	for i := sym.Choice("length", max(2, 3)) + 1; i > 0; i-- {
		name += []string{"*", "?", "[x]", "\\x", "x", "$x", "~", " ", "..", "{x,}"}[sym.Choice("part", 10)]
	}

	if name == ".." || strings.Contains(name, "....") {
		return
	}

	dir := "d/" + name

	env.Reset()
	env.Put("g.xml", simple)
	env.Put("in", machines("t"))

	var others []string

	for _, o := range []string{"x", "xx", "y", "xy", "d/x", "d/xx", "d/xxx", "d/y", "d/yx", "d/xy", "d/ x", "d/x ", "d/x..", "d/..x", dir + "x", dir + "y"} {
		if o != dir {
			others = append(others, o+"/keep")
			env.Put(o+"/keep", "keep")
		}
	}

	env.Put(dir+"/old", "old")

	r := env.Run("rtcg-gen", []string{"-clean", "-output", dir, "g.xml", "in"}, "")
	sym.Assert(r.Code == 0, "other directories can be cleaned")
	sym.Assert(!env.Escaped(), "nothing outside the working directory changes")
	sym.Assert(!env.Has(dir+"/old") && env.Has(dir+"/animate/src/t/src/main.cpp"), "the output directory is cleaned")

	for _, o := range others {
		got, ok := env.Get(o)
		sym.Assert(ok && got == "keep", "files outside the output directory stay as they are")
	}

	sym.Reach("cleaned")
}

// CheckCleanLinks cleans directories that have symbolic links in them.
func CheckCleanLinks() {
	sym.Bound("an output directory with a symbolic link, to one of 7 places outside or inside it, at one of 4 places that nothing is generated at, with and without -clean; and output directories that are below a link")

	links := []string{"o/p/link", "o/p/animate/link", "o/p/animate/src/link", "o/p/old/deep/link"}
	targets := []string{"keep", "keep/in", "keep/in/file", ".", "none", "o/p/animate", ""}

	at := links[sym.Choice("link", len(links))]
	to := targets[sym.Choice("target", len(targets))]

	if to == "" {
		// All there is.
		to = "/"
	} else {
		to = strings.Repeat("../", strings.Count(at, "/")) + to
	}

	if to == "/" && !sym.Symbolic() {
		// What is removed by a command that is wrong must be no more than a scratch directory.
		to = strings.Repeat("../", strings.Count(at, "/")+1)
	}

	env.Reset()
	env.Put("g.xml", simple)
	env.Put("in", machines("t"))
	env.Put("keep/in/file", "keep")
	env.Put("keep/other", "keep")
	env.PutDir("keep/empty")
	env.PutLink("keep/self", "../keep")
	env.Put("o/p/old/file", "old")
	env.Put("o/keep", "keep")
	env.PutLink(at, to)

	out := "o/p"
	if sym.Choice("below", 2) == 1 {
		env.PutLink("via", "keep/../o")

		out = "via/p"
	}

	args := []string{"-output", out, "g.xml", "in"}
	clean := sym.Choice("clean", 2) == 1

	if clean {
		args = append([]string{"-clean"}, args...)
	}

	r := env.Run("rtcg-gen", args, "")
	sym.Assert(r.Code == 0, "output directories with links in them can be cleaned")
	sym.Assert(!env.Escaped(), "nothing outside the working directory changes")

	for _, f := range []string{"keep/in/file", "keep/other", "o/keep"} {
		got, ok := env.Get(f)
		sym.Assert(ok && got == "keep", "files outside the output directory stay as they are")
	}

	sym.Assert(env.Has("keep/empty") && env.Has("keep/self"), "directories and links outside the output directory stay")
	sym.Assert(env.Has("in") && env.Has("g.xml"), "inputs stay")
	sym.Assert(env.Has(at) == !clean && env.Has("o/p/old/file") == !clean, "-clean, and only it, empties the output directory")
	sym.Assert(env.Has("o/p/animate/src/t/src/main.cpp"), "tests are generated")
	sym.Reach("generated")
}

// CheckStale generates over what is there already.
func CheckStale() {
	sym.Bound("generation over any one file that is there already, with a longer or shorter content, and beside others")

	c := commands[2]
	world(c)
	normal(c)

	type file struct{ name, text string }

	var fresh []file

	for _, f := range env.Files() {
		if strings.HasPrefix(f, "o/") {
			s, _ := env.Stable(f)
			fresh = append(fresh, file{f, s})
		}
	}

	world(c)

	n := sym.Choice("file", len(fresh))
	old := "x"

	if sym.Choice("longer", 2) == 1 {
		old = fresh[n].text + strings.Repeat("old\n", 50)
	}

	other := filepath.Dir(fresh[n].name) + "/other"

	env.Put(fresh[n].name, old)
	env.Put(other, "other")
	normal(c)

	for _, f := range fresh {
		s, ok := env.Stable(f.name)
		sym.Assert(ok && s == f.text, "generated files have what they would have in an empty directory")
	}

	s, ok := env.Get(other)
	sym.Assert(ok && s == "other", "other files stay as they are")
	sym.Assert(len(env.Files()) == len(fresh)+5, "there are no more files")
	sym.Reach("replaced")
}
