// Package files checks what files generation makes, and what they say about each other.
package files

import (
	"sort"
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/env"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/text"
)

func max(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}

	return quick
}

func machine(test, ch, typ, val string) string {
	return `{"states":[{"id":"initial","transitionSets":[{"channel":"` + ch + `.out","transitions":[{"value":"` + val + `","next":"s"}]}],"verdicts":{"` + test + `":"pass"}},{"id":"s","verdicts":{"` + test + `":"fail"}}],"types":{"` + ch + `":"` + typ + `"},"tests":["` + test + `"]}`
}

// suite makes a suite of tests on a channel.
func suite(tests []string, types, ch, typ, val string) string {
	var ts []string
	for _, t := range tests {
		ts = append(ts, `"`+t+`":`+machine(t, ch, typ, val))
	}

	return `{"types":{` + types + `},"tests":{` + strings.Join(ts, ",") + `}}`
}

// names are different names.
func names(what string, n, length int, set string) []string {
	var ns []string

	for i := 0; i < n; i++ {
		s := gen.Of(what, length, set)
		for _, o := range ns {
			if o == s {
				sym.Stop()
			}
		}

		ns = append(ns, s)
	}

	return ns
}

func sorted(ss []string) []string {
	r := append([]string{}, ss...)
	sort.Strings(r)

	return r
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}

	ok := true
	for i := range a {
		ok = sym.And(ok, sym.EqStr(a[i], b[i]))
	}

	return ok
}

// lines are the lines of a file that start with a prefix.
func lines(file, prefix string) []string {
	var r []string

	text, ok := env.Get(file)
	sym.Assert(ok, "files that are looked at are there")

	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, prefix) {
			r = append(r, l)
		}
	}

	return r
}

func checkMakefile(dir string, tests []string, over bool) {
	file, ok := env.Get(dir + "Makefile")
	sym.Assert(ok, "files that are looked at are there")

	srcs := func(t string) []string {
		r := []string{"src/" + t + "/src/main.cpp", "src/rtcg/rtcg.cpp"}
		if over {
			r = append(r, "src/convert/convert.cpp")
		}

		return r
	}

	var (
		all  []string
		bins []text.Rule
	)

	for _, r := range text.Makefile(file) {
		switch {
		case r.Target == "all":
			all = append(all, r.Prereqs...)
		case strings.HasPrefix(r.Target, "bin/"):
			bins = append(bins, r)
		}
	}

	sym.Assert(len(bins) == len(tests), "the Makefile has a rule for every test")

	var made []string

	for _, w := range all {
		if strings.HasPrefix(w, "bin/") {
			made = append(made, w)
		}
	}

	var want []string
	for _, t := range tests {
		want = append(want, "bin/"+t)
	}

	sym.Assert(text.Same(made, want), "the Makefile makes every test")
	reach := reached(text.Makefile(file), strings.Contains(file, ".DEFAULT_GOAL"))
	sym.Assert(text.Includes(reach.targets, want), "the Makefile makes every test unless it is told otherwise")
	sym.Assert(len(tests) == 0 || reach.mkdir || env.Has(dir+"bin") || strings.Contains(file, "(shell mkdir"), "the Makefile makes the directory that programs go to")

	for _, t := range tests {
		found := false

		for _, r := range bins {
			if r.Target != "bin/"+t {
				continue
			}

			found = true
			sym.Assert(text.Same(ending(r.Prereqs, ".cpp"), srcs(t)), "each rule has the sources that are there")

			compiles := 0

			for _, words := range r.Recipe {
				units := ending(words, ".cpp")
				if len(units) == 0 {
					continue
				}

				compiles++

				out := ""
				for i, w := range words {
					if w == "-o" && i+1 < len(words) {
						out = words[i+1]
					}
				}

				sym.Assert(out == "bin/"+t && text.Same(units, srcs(t)), "each rule compiles the sources that are there")
				sym.Assert(text.Includes(words, []string{"-Isrc/" + t + "/include", "-Isrc/rtcg", "-Isrc/convert"}), "each rule looks where the headers are")
			}

			sym.Assert(compiles == 1, "each rule compiles the sources that are there")
		}

		sym.Assert(found, "the Makefile has a rule for every test")
	}
}

type goals struct {
	targets []string
	mkdir   bool // one of their recipes makes a directory
}

// reached are the targets that are made if none is named.
func reached(rules []text.Rule, all bool) goals {
	var g goals

	for _, r := range rules {
		if !strings.HasPrefix(r.Target, ".") {
			g.targets = []string{r.Target}

			break
		}
	}

	if all {
		g.targets = []string{"all"}
	}

	for i := 0; i < len(g.targets); i++ {
		for _, r := range rules {
			if r.Target != g.targets[i] {
				continue
			}

			for _, p := range r.Prereqs {
				if !text.Has(g.targets, p) {
					g.targets = append(g.targets, p)
				}
			}

			for _, words := range r.Recipe {
				for _, w := range words {
					if strings.Contains(w, "mkdir") || strings.Contains(w, "install") {
						g.mkdir = true
					}
				}
			}
		}
	}

	return g
}

// ending are the words with an ending.
func ending(words []string, end string) []string {
	var r []string

	for _, w := range words {
		if strings.HasSuffix(w, end) {
			r = append(r, w)
		}
	}

	return r
}

type variant struct {
	name            string
	mk, catkin, pkg bool
}

func (v variant) config() string {
	s := `<cpp variant="` + v.name + `">`
	if v.mk {
		s += "<makefile/>"
	}

	if v.pkg {
		s += "<catkin><package/></catkin>"
	} else if v.catkin {
		s += "<catkin/>"
	}

	return s
}

// CheckFiles generates for all kinds of configurations.
func CheckFiles() {
	sym.Bound("every choice of variants, build files and overrides, with up to 2 tests (3 in the thorough tier) of any names of a letter, or of a letter after 200 characters they share, or 12 tests (or, with one variant, 110), and generation into any of three directories, new or with other files, longer or as long, of an earlier run")

	var vs []variant

	switch sym.Choice("variants", 5) {
	case 1:
		vs = []variant{{name: "animate"}}
	case 2:
		vs = []variant{{name: "ros"}}
	case 3:
		vs = []variant{{name: "ros"}, {name: "animate"}}
	case 4:
		vs = []variant{{name: "animate"}, {name: "ros"}}
	}

	// Overridden channels.
	type kind int

	const (
		none kind = iota
		other
		some
	)

	over := none
	tests := []string{"t"}

	vary := sym.Choice("vary", 4)
	if vary == 3 && len(vs) != 1 {
		sym.Stop()
	}

	switch vary {
	case 0:
		for i := range vs {
			vs[i].mk = sym.Choice("makefile", 2) == 1

			switch sym.Choice("catkin", 3) {
			case 1:
				vs[i].catkin = true
			case 2:
				vs[i].catkin, vs[i].pkg = true, true
			}
		}

		over = kind(sym.Choice("override", 3))
	case 1:
		tests = names("test", sym.Choice("tests", max(3, 4)), 1, gen.Letters)
		over = kind(2 * sym.Choice("override", 2))

		// Names can be as long as those of files.
		if len(tests) > 1 && sym.Choice("long", 2) == 1 {
			for i, t := range tests {
				tests[i] = strings.Repeat("long_name_", 20) + t
			}
		}

		for i := range vs {
			vs[i].mk, vs[i].catkin = true, i == 0
		}
	default:
		n := 12
		if vary == 3 {
			n = 110
		}

		tests = nil
		for i := 0; i < n; i++ {
			tests = append(tests, "t"+gen.Dec(i))
		}

		over = some

		for i := range vs {
			vs[i].mk, vs[i].catkin, vs[i].pkg = true, true, true
		}
	}

	env.Reset()

	cfg := "<rtcg-gen>"
	code := gen.Of("code", 3, gen.Letters+gen.Digits+"\n {}\xff")

	for i, v := range vs {
		cfg += v.config()

		switch over {
		case other:
			cfg += `<channel name="zz" type="T"/>`
		case some:
			// Each variant has its own overrides and code.
			if i == 0 {
				cfg += `<channel name="zz" type="U"/><channel name="d" type="T"/>`
			}
		}

		cfg += "</cpp>"

		// There is code even if it is not needed.
		env.Put("cfg/"+v.name+"/src/convert/convert.cpp", v.name+code)
	}

	env.Put("cfg/gen.xml", cfg+"</rtcg-gen>")

	before := env.Files()
	out := "out"

	args := []string{"cfg/gen.xml", "-"}

	if len(vs) == 1 && vary == 1 {
		switch sym.Choice("output", 3) {
		case 1:
			out = "o"
			args = []string{"-output", "o/", "cfg/gen.xml", "-"}
		case 2:
			out = "cfg/x"
			args = []string{"-output", "./cfg/y/../x", "cfg/gen.xml"}
		}
	}

	in := suite(tests, `"c":"nat","d":"()","e":"enum"`, "c", "nat", "1")
	r := env.Run("rtcg-gen", args, in)
	sym.Assert(r.Code == 0 && r.Err == "" && r.Out == "", "code is generated")

	want := append([]string{}, before...)

	for i, v := range vs {
		dir := out + "/" + v.name + "/"
		want = append(want, dir+"src/rtcg/rtcg.cpp", dir+"src/rtcg/rtcg.h", dir+"src/convert/convert.h")
		conv := over == some && i == 0

		if conv {
			want = append(want, dir+"src/convert/convert.cpp")
		}

		if v.mk {
			want = append(want, dir+"Makefile")
		}

		for _, t := range tests {
			want = append(want, dir+"src/"+t+"/src/main.cpp")
			sym.Assert(env.Has(dir+"src/"+t+"/include"), "each test has an include directory")

			if v.catkin {
				want = append(want, dir+"src/"+t+"/package.xml", dir+"src/"+t+"/CMakeLists.txt")
			}
		}
	}

	got := env.Files()
	sym.Assert(same(got, sorted(want)), "exactly the configured files are made")

	if !same(got, sorted(want)) {
		return
	}

	for i, v := range vs {
		dir := out + "/" + v.name + "/"
		conv := over == some && i == 0

		if conv {
			file, _ := env.Get(dir + "src/convert/convert.cpp")
			sym.Assert(file == v.name+code, "conversion code is copied as it is")
			sym.Reach("conversion")
		}

		if v.mk {
			checkMakefile(dir, tests, conv)
			sym.Reach("makefile")
		}

		for _, f := range []string{"src/rtcg/rtcg.cpp", "src/rtcg/rtcg.h"} {
			file, _ := env.Get(dir + f)
			first, _ := env.Get(out + "/" + vs[0].name + "/" + f)
			sym.Assert(file != "" && file == first, "all variants have the same common code")
		}

		for _, t := range tests {
			for _, l := range lines(dir+"src/"+t+"/src/main.cpp", "// Test ") {
				if len(l) == len("// Test ")+1 {
					sym.Assert(l == "// Test "+t, "each driver is for its test")
				}
			}
		}
	}

	sym.Assert(!env.Escaped(), "nothing is written elsewhere")

	if vary == 1 || sym.Thorough() {
		one := map[string]string{}
		for _, f := range got {
			one[f], _ = env.Stable(f)
		}

		// Whatever is there already makes way, whether it is longer or as long.
		left := sym.Choice("left", 2)

		for _, f := range got {
			if !strings.HasPrefix(f, out+"/") {
				continue
			}

			if text, _ := env.Get(f); left == 0 {
				env.Put(f, text+strings.Repeat("\n// Left over.", 40))
			} else {
				env.Put(f, strings.Repeat("?", len(text)))
			}
		}

		r = env.Run("rtcg-gen", args, in)
		sym.Assert(r.Code == 0, "code is generated again")

		again := env.Files()
		sym.Assert(same(again, got), "the same files are made again")

		for _, f := range got {
			text, _ := env.Stable(f)
			sym.Assert(text == one[f], "files are the same when they are made again")
		}

		sym.Reach("twice")
	}

	// Variants do not depend on each other.
	if len(vs) == 2 && (vary == 0 || sym.Thorough()) {
		one := map[string]string{}
		for _, f := range got {
			one[f], _ = env.Stable(f)
		}

		v := vs[1]
		env.Put("cfg/gen.xml", "<rtcg-gen>"+v.config()+"</cpp></rtcg-gen>")

		r = env.Run("rtcg-gen", []string{"-output", "alone", "cfg/gen.xml"}, in)
		sym.Assert(r.Code == 0, "code is generated for a variant alone")

		for _, f := range want {
			if pre := out + "/" + v.name + "/"; strings.HasPrefix(f, pre) {
				text, ok := env.Stable("alone/" + v.name + "/" + f[len(pre):])
				sym.Assert(ok && text == one[f], "files of a variant are the same whatever other variants there are")
			}
		}

		sym.Reach("alone")
	}

	sym.Reach("done")
}

var (
	typeNames = []string{"()", "nat", "int", "real", "enum"}
	cppTypes  = []string{"void *", "unsigned int", "int", "double", "std::string"}
)

func upcase(s string) string {
	if s[0] >= 'a' && s[0] <= 'z' {
		return string([]byte{s[0] - 'a' + 'A'}) + s[1:]
	}

	return s
}

// CheckText looks at headers, types and conversions.
func CheckText() {
	sym.Bound("either variant, with up to 2 headers (3 in the thorough tier) of any name of a byte, each system or local, or up to 2 channels (3) of any name of two letters and any type, overridden or not")

	ros := sym.Choice("ros", 2) == 1
	v := "animate"

	if ros {
		v = "ros"
	}

	var (
		cfg    = `<rtcg-gen><cpp variant="` + v + `">`
		incs   []string
		chans  = []string{"ch"}
		types  = []int{1}
		over   = []string{""}
		anyOwn = false
	)

	if sym.Choice("vary", 2) == 0 {
		for i := sym.Choice("headers", max(3, 4)); i > 0; i-- {
			src := gen.Of("src", 1, gen.IdentCs+"./-+ ")

			if sym.Choice("system", 2) == 1 {
				cfg += `<include src="` + src + `" system="true"/>`
				incs = append(incs, "<"+src+">")
			} else {
				cfg += `<include src="` + src + `"/>`
				incs = append(incs, `"`+src+`"`)
			}
		}

		sym.Reach("headers")
	} else {
		chans = nil
		types, over = nil, nil

		for i := sym.Choice("channels", max(2, 3)) + 1; i > 0; i-- {
			// Names that differ in the case of their first letter are out of bounds.
			c := gen.Of("channel", 1, gen.Lower) + gen.Of("rest", 1, gen.Letters)
			for _, o := range chans {
				if o == c {
					sym.Stop()
				}
			}

			chans = append(chans, c)
			types = append(types, sym.Choice("type", len(typeNames)))

			own := ""

			if sym.Choice("own", 2) == 1 {
				own = gen.Of("own type", 1, gen.Letters) + "::T"
				anyOwn = true
				cfg += `<channel name="` + c + `" type="` + own + `"/>`
			}

			over = append(over, own)
		}

		sym.Reach("channels")
	}

	env.Reset()
	env.Put("gen.xml", cfg+"</cpp></rtcg-gen>")

	if anyOwn {
		env.Put(v+"/src/convert/convert.cpp", "")
	}

	tm := ""

	for i, c := range chans {
		if i > 0 {
			tm += ","
		}

		tm += `"` + c + `":"` + typeNames[types[i]] + `"`
	}

	val := []string{"", "1", "1", "1", "A"}[types[0]]
	r := env.Run("rtcg-gen", []string{"gen.xml"}, suite([]string{"a", "b"}, tm, chans[0], typeNames[types[0]], val))
	sym.Assert(r.Code == 0 && r.Err == "", "code is generated")

	if r.Code != 0 {
		return
	}

	src := "out/" + v + "/src/"

	for _, t := range []string{"a", "b"} {
		own, other := includes(src + t + "/src/main.cpp")
		sym.Assert(same(own, incs), "drivers include the configured headers in order, in the right brackets")
		sym.Assert(text.Includes(other, []string{`"rtcg.h"`, `"convert.h"`}), "drivers include the common code and the conversions")
	}

	header := src + "convert/convert.h"
	own, _ := includes(header)
	sym.Assert(same(own, incs), "the conversion header includes the configured headers in order, in the right brackets")

	file, _ := env.Get(header)
	cpp := text.Cpp(file)

	// The names of the types of channels are of 5 letters.
	defined := 0

	for _, d := range cpp.Defines {
		if len(d[0]) == 5 {
			defined++
		}
	}

	sym.Assert(defined == 2*len(chans), "the conversion header defines two types per channel")

	for i, c := range chans {
		up := upcase(c)
		base := cppTypes[types[i]]
		val := over[i]

		if val == "" {
			val = base
			if ros {
				val = "std_msgs::String"
			}
		}

		msg := up + "Val"
		if ros {
			msg += "::ConstPtr &"
		}

		sym.Assert(defines(cpp, up+"Val", val), "the value type of a channel is what is configured, or else what is inferred")
		sym.Assert(defines(cpp, up+"Msg", msg), "the message type of a channel goes with its value type")

		const label = "conversions of overridden channels are only declared, and those of others defined"

		sym.Assert(converts(cpp, base, "from"+up, up+"Msg", over[i] == ""), label)
		sym.Assert(converts(cpp, up+"Val", "to"+up, base, over[i] == ""), label)
	}

	sym.Reach("done")
}

// includes are the headers that a file includes: those that may be configured here, whose names are of a byte, and others.
func includes(file string) (own, other []string) {
	s, ok := env.Get(file)
	sym.Assert(ok, "files that are looked at are there")

	for _, l := range strings.Split(s, "\n") {
		if !strings.HasPrefix(l, "#include") {
			continue
		}

		l = strings.TrimSpace(l[len("#include"):])

		switch i := strings.Index(l, "//"); {
		case len(l) <= 3:
			own = append(own, l)
		case i > 0:
			other = append(other, strings.TrimSpace(l[:i]))
		default:
			other = append(other, l)
		}
	}

	return own, other
}

// defines is whether a name is defined to be a type.
func defines(s text.Source, name, typ string) bool {
	ok := false
	for _, d := range s.Defines {
		ok = sym.Or(ok, sym.And(sym.EqStr(d[0], name), sym.EqStr(strings.Join(d[1:], " "), typ)))
	}

	return ok
}

// converts is whether there is a conversion function, and only one.
func converts(s text.Source, result, name, param string, defined bool) bool {
	ok, declared := false, false

	for _, f := range s.Funcs {
		here := sym.And(sym.EqStr(f.Name, name), sym.And(sym.EqStr(f.Result, result), sym.EqStr(strings.Join(f.Params, ","), param)))
		ok = sym.Or(ok, here && f.Defined == defined)
		declared = sym.Or(declared, sym.And(sym.EqStr(f.Name, name), f.Defined != defined))
	}

	// Functions may be declared before they are defined.
	if defined {
		return ok
	}

	return sym.And(ok, !declared)
}
