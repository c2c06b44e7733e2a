// Package cli checks what the tools make of their command lines, and of bad input.
package cli

import (
	"encoding/json"
	"errors"
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/cli"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/env"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

func max(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}

	return quick
}

func traces(name string) string { return name + ": a.in.1, b.out\n" }

func tests(name string) string {
	return `{"` + name + `":{"tests":["` + name + `"],"next":[{"outcome":"inc","tests":["` + name + `"],"event":"a.in.1","next":[{"outcome":"pass","tests":["` + name + `"],"event":"b.out","next":[{"outcome":"fail","tests":["` + name + `"]}]}]}]}}`
}

func machines(name string) string {
	return `{"types":{"a":"nat"},"tests":{"` + name + `":{"states":[{"id":"i","transitionSets":[{"channel":"a.in","transitions":[{"value":"1","next":"s"}]}],"verdicts":{"` + name + `":"pass"}},{"id":"s","verdicts":{"` + name + `":"fail"}}],"types":{"a":"nat"},"tests":["` + name + `"]}}}`
}

const conf = `<rtcg-gen><cpp variant="animate"/></rtcg-gen>`

// CheckArguments parses all argument lists.
func CheckArguments() {
	sym.Bound("argument lists of up to 4 (6 in the thorough tier) where 1 to 4 are the most, with a last argument of any 2 bytes")

	n, most := sym.Choice("arguments", max(5, 7)), 1+sym.Choice("most", 4)
	args := make([]string, n)

	for i := range args {
		args[i] = "x"
	}

	if n > 0 {
		args[n-1] = sym.Str("last", sym.Choice("length", 3))
	}

	file, err := cli.ParseFileArgument(args, most)

	switch n {
	case most:
		sym.Assert(err == nil && file == args[n-1], "the last argument is the file")
		sym.Reach("file")
	case most - 1:
		sym.Assert(err == nil && file == "-", "standard input is the default")
		sym.Reach("default")
	default:
		sym.Assert(errors.Is(err, cli.ErrBadArgs) && file == "", "other numbers of arguments are refused")
		sym.Reach("refused")
	}
}

// world puts files there that the command line can name.
func world(content func(string) string) {
	env.Reset()
	env.Put("f", content("file"))
	env.Put("-", content("dash"))
	env.Put("g.xml", conf)
	env.PutDir("d")
}

// from says which input is used for a file argument: none for an error.
func from(arg string) string {
	switch arg {
	case "f", "./f":
		return "file"
	case "./-":
		return "dash"
	case "-":
		return "stdin"
	}

	return ""
}

// failed looks at a run that fails.
func failed(r env.Result) {
	sym.Assert(r.Code != 0, "a failure gives a non-zero status")
	sym.Assert(r.Out == "", "a failure gives no result")
	sym.Assert(r.Err != "", "a failure gives a message")
}

// CheckFilters runs the tools that write to standard output.
func CheckFilters() {
	sym.Bound("rtcg-read-traces and rtcg-make-stms with up to 3 arguments of files, directories, names of nothing, '-' and others")

	tool, content := "rtcg-read-traces", traces
	if sym.Choice("tool", 2) == 1 {
		tool, content = "rtcg-make-stms", tests
	}

	world(content)

	words := []string{"f", "./f", "-", "./-", "d", "none", "", "-clean", "f/f"}

	var args []string
	for i := sym.Choice("arguments", 4); i > 0; i-- {
		args = append(args, words[sym.Choice("word", len(words))])
	}

	src := "stdin"
	if len(args) > 0 {
		src = from(args[0])
	}

	before := env.List()
	r := env.Run(tool, args, content("stdin"))

	if len(args) > 1 {
		failed(r)
		sym.Assert(strings.Contains(r.Err, "usage: "), "wrong arguments give a usage message")
		sym.Reach("usage")

		return
	}

	if src == "" {
		failed(r)
		sym.Reach("no file")

		return
	}

	sym.Assert(r.Code == 0 && r.Err == "", "the tool succeeds")

	for _, s := range []string{"stdin", "file", "dash"} {
		sym.Assert(strings.Contains(r.Out, `"`+s+`"`) == (s == src), "the tool reads what the argument says")
	}

	if tool == "rtcg-read-traces" {
		s, err := testlang.ReadSuite(strings.NewReader(r.Out))
		sym.Assert(err == nil && len(s) == 1 && s[src] != nil, "the result is a suite of tests")
	} else {
		s, err := stm.ReadSuite(strings.NewReader(r.Out))
		sym.Assert(err == nil && len(s.Tests) == 1 && s.Tests[src] != nil, "the result is a suite of state machines")
	}

	after := env.List()
	sym.Assert(strings.Join(before, " ") == strings.Join(after, " "), "no file is made or removed")
	sym.Reach("result")
}

// CheckGenerator runs the generator.
func CheckGenerator() {
	sym.Bound("rtcg-gen with up to 4 arguments (5 in the thorough tier) of flags, files, '-', and others, of which at most one is a flag and its value")

	world(machines)
	env.Put("out/old", "")
	env.Put("o/old", "")

	words := []string{"g.xml", "f", "-", "./-", "none"}
	flags := [][]string{{}, {"-clean"}, {"--clean=true"}, {"-clean=false"}, {"-output", "o"}, {"-output=o/."}, {"--output", "o"}, {"-clean", "-output", "o"}, {"--"}, {"-other"}, {"-clean=2"}, {"-output"}}

	f := sym.Choice("flags", len(flags))
	n := sym.Choice("arguments", max(4, 5))

	var pos []string

	for i := 0; i < n; i++ {
		w := "g.xml"
		// The number of further arguments counts, and not what they are.
		if i < 2 {
			w = words[sym.Choice("word", len(words))]
		}

		pos = append(pos, w)
	}

	clean, output, bad := false, "out", false

	switch f {
	case 1, 2:
		clean = true
	case 4, 5, 6:
		output = "o"
	case 7:
		clean, output = true, "o"
	case 9, 10:
		bad = true
	case 11:
		// The next argument is the directory.
		if len(pos) == 0 {
			bad = true
		} else {
			output = pos[0]
			pos = pos[1:]
		}
	}

	args := append([]string{}, flags[f]...)
	if f == 11 && !bad {
		args = append(args, output)
	}

	args = append(args, pos...)

	// Output over one of the files.
	if f == 11 && (output == "f" || output == "g.xml" || output == "./-" || output == "-") {
		return
	}

	r := env.Run("rtcg-gen", args, machines("stdin"))

	if bad || len(pos) < 1 || len(pos) > 2 {
		failed(r)
		sym.Assert(strings.Contains(r.Err, "usage: "), "wrong arguments give a usage message")
		sym.Assert(env.Has("out/old") && env.Has("o/old"), "nothing is removed")
		sym.Reach("usage")

		return
	}

	src := "stdin"
	if len(pos) == 2 {
		src = from(pos[1])
	}

	if src == "" || pos[0] != "g.xml" {
		failed(r)
		sym.Reach("no file")

		return
	}

	sym.Assert(r.Code == 0 && r.Err == "" && r.Out == "", "the tool succeeds")

	for _, s := range []string{"stdin", "file", "dash"} {
		for _, d := range []string{"o", "out", "none"} {
			sym.Assert(env.Has(d+"/animate/src/"+s+"/src/main.cpp") == (s == src && d == output), "the tool reads what the argument says, and writes where the flag says")
		}
	}

	for _, d := range []string{"o", "out"} {
		sym.Assert(env.Has(d+"/old") == !(clean && d == output), "the output directory is cleaned exactly if the flag says so")
	}

	sym.Reach("result")
}

// result looks at a run with input that can be bad.
func result(tool string, r env.Result) {
	if r.Code != 0 {
		failed(r)
		sym.Assert(!strings.Contains(r.Err, "goroutine "), "bad input is no crash")
		sym.Reach("failure")

		return
	}

	sym.Assert(r.Err == "", "a success gives no message")

	if tool != "rtcg-gen" {
		sym.Assert(json.Valid([]byte(r.Out)), "a success gives a result")
	}

	sym.Reach("success")
}

var tools = []string{"rtcg-read-traces", "rtcg-make-stms", "rtcg-gen"}

func pick() (string, []string, func(string) string) {
	t := sym.Choice("tool", 3)

	world([]func(string) string{traces, tests, machines}[t])

	return tools[t], [][]string{nil, nil, {"g.xml"}}[t], []func(string) string{traces, tests, machines}[t]
}

// CheckShort gives the tools any short input.
func CheckShort() {
	sym.Bound("any tool with any input of up to 2 bytes (3 in the thorough tier)")

	tool, args, _ := pick()
	in := sym.Str("input", sym.Choice("length", max(3, 4)))

	result(tool, env.Run(tool, args, in))
}

// CheckCut gives the tools input that is cut short.
func CheckCut() {
	sym.Bound("any tool with a small input cut at any byte")

	tool, args, content := pick()
	in := strings.TrimRight(content("t"), "\n")
	n := sym.Choice("cut", len(in))
	r := env.Run(tool, args, in[:n])

	// Traces can end anywhere behind a direction.
	if tool != "rtcg-read-traces" {
		sym.Assert(r.Code != 0, "input that is cut short is an error")
	}

	result(tool, r)
}

// CheckByte gives the tools input with an arbitrary byte.
func CheckByte() {
	sym.Bound("any tool with a small input in which any one byte is arbitrary")

	tool, args, content := pick()
	in := strings.TrimRight(content("t"), "\n")

	n := sym.Choice("place", len(in))
	in = in[:n] + sym.Str("byte", 1) + in[n+1:]

	result(tool, env.Run(tool, args, in))
}

// CheckTrailing gives the tools input with more behind it.
func CheckTrailing() {
	sym.Bound("any JSON tool with a small input and up to 2 arbitrary bytes behind it (3 in the thorough tier), or another input")

	tool, args, content := pick()
	if tool == "rtcg-read-traces" {
		return
	}

	more, blank := content("u"), false

	if sym.Choice("another", 2) == 0 {
		more = sym.Str("more", sym.Choice("length", max(3, 4)))
		blank = true

		for i := 0; i < len(more); i++ {
			blank = sym.And(blank, sym.In(more[i], " \t\r\n"))
		}
	}

	r := env.Run(tool, args, strings.TrimRight(content("t"), "\n")+more)
	sym.Assert((r.Code == 0) == blank, "input with anything but blanks behind it is an error")
	result(tool, r)
}

// CheckNull gives the tools input in which something is missing, or something else.
func CheckNull() {
	sym.Bound("any JSON tool with a small input in which any one value is something else or nothing; values of another kind must be refused")

	tool, args, content := pick()
	if tool == "rtcg-read-traces" {
		return
	}

	in := content("t")

	// Values start after a colon, a bracket or a comma in a list, and go on to where they end.
	var starts []int

	for i := 0; i < len(in); i++ {
		switch in[i] {
		case ':':
			starts = append(starts, i+1)
		case '[':
			starts = append(starts, i+1)
		}
	}

	s := starts[sym.Choice("value", len(starts))]
	e, depth := s, 0

	for ; ; e++ {
		c := in[e]
		if depth == 0 && e > s && (c == ',' || c == '}' || c == ']') {
			break
		}

		if c == '{' || c == '[' {
			depth++
		} else if c == '}' || c == ']' {
			depth--
		}
	}

	others := []string{"null", "{}", "[]", `""`, "0", "true", `"` + gen.Of("text", 1, gen.Letters) + `"`, "[null]", `{"t":null}`}
	other := others[sym.Choice("other", len(others))]

	// Lists, objects, strings, numbers and truth values are not mistaken for each other.
	wrong := other != "null" && other[0] != in[s]

	in = in[:s] + other + in[e:]
	r := env.Run(tool, args, in)
	result(tool, r)

	if wrong {
		sym.Assert(r.Code != 0, "a value of another kind is an error")
		sym.Reach("wrong kind")
	}
}
