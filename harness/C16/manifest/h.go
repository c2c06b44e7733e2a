// Package manifest checks package manifests and CMake files.
package manifest

import (
	"bytes"
	"encoding/xml"
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/gen/config/catkin"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/env"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/text"
)

func max(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}

	return quick
}

const (
	holder = "${NAME}"
	// chars has no letters of the placeholder.
	chars = gen.Lower + gen.Digits + " .,:;/_-+*=()[]!?@#%^~|$}<>&\"'"
)

const (
	fName = iota
	fVersion
	fDescription
	fPerson
	fEmail
	fLicense
	numFields
)

var defaults = [numFields][]string{{"", ""}, {"0.1.0"}, {"Package for ", ""}, {"", " Maintainers"}, {"email@example.com"}, {"Proprietary"}}

// fields points at the fields of a package.
func fields(p *catkin.Package) [numFields]*string {
	return [numFields]*string{&p.Name, &p.Version, &p.Description, &p.Maintainer.Name, &p.Maintainer.Email, &p.License}
}

// pieces makes a field's pieces between placeholders; none for an absent field.
func pieces(name string, n, most int) []string {
	var ps []string

	for i := sym.Choice(name+" pieces", most+1); i > 0; i-- {
		ps = append(ps, gen.Of(name, sym.Choice(name+" length", n+1), chars))
	}

	if len(ps) == 1 && ps[0] == "" {
		return nil
	}

	return ps
}

// want is what a field should be for a test.
func want(field int, ps []string, test string) string {
	if len(ps) == 0 {
		ps = defaults[field]
	}

	if field == fVersion {
		return strings.Join(ps, holder)
	}

	return strings.Join(ps, test)
}

func deps(name string, n int) []string {
	var ds []string

	for i := sym.Choice(name, n+1); i > 0; i-- {
		ds = append(ds, gen.Of(name, 1, gen.IdentCs))
	}

	return ds
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}

	ok := true
	for i := range a {
		ok = sym.And(ok, sym.EqStr(a[i], b[i]))
	}

	return ok
}

// CheckFields fills in packages.
func CheckFields() {
	sym.Bound("packages of which any field is absent or has up to 2 placeholders (3 in the thorough tier) between up to 2 arbitrary printable bytes, for tests with any name of up to 2 bytes")

	var (
		ps [numFields][]string
		p  catkin.Package
	)

	f := sym.Choice("field", numFields)
	ps[f] = pieces("field", 2, max(3, 4))

	if sym.Choice("others", 2) == 1 {
		for g := range ps {
			if g != f {
				ps[g] = []string{"x", string(rune('0' + g))}
			}
		}
	}

	for i, s := range fields(&p) {
		*s = strings.Join(ps[i], holder)
	}

	p.Format = sym.Choice("format", 3)
	p.BuildtoolDepends, p.Depends = []string{holder}, []string{"y", holder}

	// The characters could be those of another placeholder.
	for _, s := range ps[f] {
		if strings.Contains(s, holder) {
			return
		}
	}

	p.Autofill()

	if sym.Choice("again", 2) == 1 {
		p.Autofill()
	}

	sym.Assert(p.Format == 2, "manifests have format 2")

	for i, s := range fields(&p) {
		w := ps[i]
		if len(w) == 0 {
			w = defaults[i]
		}

		sym.Assert(*s == strings.Join(w, holder), "absent fields get defaults, and others are kept")
	}

	test := gen.Of("test", sym.Choice("test length", 3), gen.IdentCs+"/$")
	q := p
	q.Expand(test)

	for i, s := range fields(&q) {
		sym.Assert(*s == want(i, ps[i], test), "fields have the test's name for placeholders")
	}

	for i, s := range fields(&p) {
		w := ps[i]
		if len(w) == 0 {
			w = defaults[i]
		}

		sym.Assert(*s == strings.Join(w, holder), "filling in a copy leaves the original")
	}

	sym.Assert(q.Format == 2 && same(q.BuildtoolDepends, []string{holder}) && same(q.Depends, []string{"y", holder}), "nothing else is filled in")
	sym.Reach("done")
}

// CheckWrite writes and reads packages.
func CheckWrite() {
	sym.Bound("packages of which any field has up to 2 arbitrary printable bytes or line breaks (3 in the thorough tier), and up to 2 dependencies of each kind, written and read")

	p := catkin.Package{Format: 2}
	s := gen.Of("field", sym.Choice("length", max(3, 4)), chars+gen.Upper+"{`\\\n\t")
	f := sym.Choice("field", numFields)

	for i, to := range fields(&p) {
		*to = "x" + string(rune('0'+i))
	}

	*fields(&p)[f] = s

	if f == fVersion {
		p.BuildtoolDepends = deps("buildtool", 2)
		p.Depends = deps("depends", 2)
	}

	var b bytes.Buffer

	err := p.Write(&b)
	sym.Assert(err == nil, "packages are written")
	sym.Assert(strings.HasPrefix(b.String(), "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<package format=\"2\">\n"), "manifests start as manifests of format 2 do")

	var q catkin.Package

	err = xml.Unmarshal(b.Bytes(), &q)
	sym.Assert(err == nil && q.Format == 2, "written packages are read")

	got := fields(&q)
	for i, w := range fields(&p) {
		sym.Assert(*got[i] == *w, "packages have the same fields when they are read")
	}

	sym.Assert(same(q.Depends, p.Depends) && same(q.BuildtoolDepends, p.BuildtoolDepends), "packages have the same dependencies when they are read")
	sym.Reach("done")
}

const machine = `{"states":[{"id":"initial","transitionSets":[{"channel":"c.out","transitions":[{"value":"1","next":"s"}]}],"verdicts":{"t":"pass"}},{"id":"s","verdicts":{"t":"fail"}}],"types":{"c":"nat"},"tests":["t"]}`

// after are the arguments after one of them.
func after(args []string, word string) []string {
	for i, a := range args {
		if a == word {
			return args[i+1:]
		}
	}

	return nil
}

// CheckLong fills in packages with many placeholders, and writes packages with long texts and many dependencies.
func CheckLong() {
	sym.Bound("packages of which any field has 12 placeholders, or 70, between texts of up to 20 characters, for a test with an arbitrary name of 12 characters, or 300 with one arbitrary, and 20 or 270 dependencies of each kind, written and read")

	var (
		p  = catkin.Package{Format: 2}
		ps []string
		f  = sym.Choice("field", numFields)
		n  = 12
		nd = 20
	)

	if sym.Choice("huge", 2) == 1 {
		n, nd = 70, 270
	}

	for i := 0; i <= n; i++ {
		ps = append(ps, strings.Repeat("x"+gen.Dec(i), i*i%7))
	}

	for i, to := range fields(&p) {
		*to = "x" + gen.Dec(i)
	}

	*fields(&p)[f] = strings.Join(ps, holder)

	for i := 0; i < nd; i++ {
		p.BuildtoolDepends = append(p.BuildtoolDepends, "b"+gen.Dec(i*i%23))
		p.Depends = append(p.Depends, "d"+gen.Dec(i*i%19))
	}

	test := ""
	if n == 12 {
		test = gen.Of("test", 12, gen.IdentCs)
	} else {
		test = strings.Repeat("long", 75) + gen.Of("test", 1, gen.IdentCs)
	}

	q := p
	q.Autofill()
	q.Expand(test)

	var b bytes.Buffer

	err := q.Write(&b)
	sym.Assert(err == nil, "packages are written")

	var r catkin.Package

	err = xml.Unmarshal(b.Bytes(), &r)
	sym.Assert(err == nil, "written packages are read")

	got := fields(&r)
	for i := range got {
		w := "x" + gen.Dec(i)
		if i == f {
			w = want(i, ps, test)
		}

		sym.Assert(*got[i] == w, "fields have the test's name for placeholders")
	}

	sym.Assert(same(r.Depends, p.Depends) && same(r.BuildtoolDepends, p.BuildtoolDepends), "packages have the same dependencies when they are read")
	sym.Reach("done")
}

// CheckTests generates files for several tests.
func CheckTests() {
	sym.Bound("up to 2 tests (3 in the thorough tier) with any names of a letter, with any one field given, absent or with up to 2 placeholders, up to 2 dependencies of any letter, with and without an overridden channel, and all orders of the tests")

	n := 1 + sym.Choice("tests", max(2, 3))
	names := make([]string, n)
	suite := ""

	for i := range names {
		names[i] = gen.Of("name", 1, gen.Lower)

		for _, o := range names[:i] {
			if o == names[i] {
				sym.Stop()
			}
		}

		if i > 0 {
			suite += ","
		}

		suite += `"` + names[i] + `":` + machine
	}

	var (
		ps  [numFields][]string
		doc string
	)

	vary := sym.Choice("vary", 3)
	given, f, most := 0, fName, 1

	if vary == 0 {
		given = sym.Choice("given", 3)
	}

	if given > 0 {
		f = sym.Choice("field", numFields)

		if given == 2 {
			ps[f] = []string{"P", "Q-"}[:1+sym.Choice("placeholders", 2)]
		}

		tags := [numFields]string{"name", "version", "description", "maintainer", "", "license"}
		text := strings.Join(ps[f], holder)

		if f == fEmail {
			doc = `<maintainer email="` + text + `"></maintainer>`
		} else {
			doc = "<" + tags[f] + ">" + text + "</" + tags[f] + ">"
		}
	}

	if vary == 1 {
		most = 2
	}

	ds := deps("depend", most)
	for _, d := range ds {
		doc += "<depend>" + d + "</depend>"
	}

	if given > 0 || len(ds) > 0 {
		doc = "<package>" + doc + "</package>"
	}

	over := vary == 2
	channel := ""

	env.Reset()

	if over {
		channel = `<channel name="c" type="T"/>`

		env.Put("ros/src/convert/convert.cpp", "")
	}

	env.Put("g.xml", `<rtcg-gen><cpp variant="ros">`+channel+`<catkin>`+doc+`</catkin></cpp></rtcg-gen>`)

	sym.MapOrder(3)

	r := env.Run("rtcg-gen", []string{"g.xml"}, `{"types":{"c":"nat"},"tests":{`+suite+`}}`)

	sym.MapOrder(0)
	sym.Assert(r.Code == 0 && r.Err == "", "code is generated")

	for _, test := range names {
		dir := "out/ros/src/" + test + "/"
		file, ok := env.Get(dir + "package.xml")
		sym.Assert(ok, "each test has a manifest")

		var p catkin.Package

		err := xml.Unmarshal([]byte(file), &p)
		sym.Assert(err == nil && p.Format == 2, "manifests can be read")

		name := ""

		for i, s := range fields(&p) {
			w := want(i, ps[i], test)
			sym.Assert(*s == w, "manifests have the configured fields, with the name of their own test")

			if i == fName {
				name = w
			}
		}

		sym.Assert(same(p.Depends, ds) && len(p.BuildtoolDepends) == 0, "manifests have the configured dependencies in order")

		file, ok = env.Get(dir + "CMakeLists.txt")
		sym.Assert(ok, "each test has a CMake file")

		var cmds = map[string][]string{}

		for _, c := range text.CMake(file) {
			switch c.Name {
			case "project", "find_package", "catkin_package", "add_executable", "target_link_libraries":
				_, twice := cmds[c.Name]
				sym.Assert(!twice, "there is one project, of one program")

				cmds[c.Name] = c.Args
			}
		}

		project := cmds["project"]
		sym.Assert(len(project) > 0 && project[0] == name, "the project is the package")

		all := append([]string{"roscpp", "std_msgs"}, ds...)
		sym.Assert(same(after(cmds["find_package"], "COMPONENTS"), all), "the CMake file looks for the dependencies of the manifest")
		sym.Assert(same(after(cmds["catkin_package"], "CATKIN_DEPENDS"), all), "the CMake file has the dependencies of the manifest")

		srcs := []string{"src/main.cpp", "../rtcg/rtcg.cpp"}
		libs := []string{"${catkin_LIBRARIES}", "rtcg"}

		if over {
			srcs = append(srcs, "../convert/convert.cpp")
			libs = append(libs, "convert")
		}

		program := name + "_node"
		sym.Assert(text.Same(after(cmds["add_executable"], program), srcs), "the CMake file has the sources that are there")
		sym.Assert(text.Same(after(cmds["target_link_libraries"], program), libs), "the CMake file has the libraries that are there")
	}

	sym.Reach("done")
}
