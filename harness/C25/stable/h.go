// Package stable checks that the tools' outputs do not depend on the order in which maps are visited.
package stable

import (
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/env"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

func max(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}

	return quick
}

// runs is how often something is done again. The runtime picks orders at random, so that one of them may take some attempts.
func runs() int {
	if sym.Symbolic() {
		return 1
	}

	return 40
}

// filter runs a tool that writes to standard output, in one order and in all.
func filter(tool, in string) {
	if filterTurns(tool, in, max(2, 3)) {
		sym.Reach("success")
	} else {
		sym.Reach("failure")
	}
}

func filterTurns(tool, in string, turns int) bool {
	env.Reset()
	env.Put("in", in)

	a := env.Run(tool, []string{"in"}, "")

	for i := 0; i < runs(); i++ {
		sym.MapOrder(order)
		sym.MapTurns(turns)

		b := env.Run(tool, []string{"in"}, "")

		sym.MapOrder(0)

		sym.Assert(a.Code == b.Code, "the status is the same in every run")
		sym.Assert(a.Out == b.Out, "the output is the same in every run")
	}

	return a.Code == 0
}

var words = []string{"a.in.1", "a.out.2", "b.in.1", "b.out.x", "b.out"}

// CheckTraces reads files of traces.
func CheckTraces() {
	sym.Bound("rtcg-read-traces on files of up to 3 (4 in the thorough tier) traces of up to 2 events, in every order of its maps, where up to 2 iterations (3 in the thorough tier) are in another order than in the first run")

	in := ""
	lines := sym.Choice("lines", max(4, 5))

	for i := 0; i < lines; i++ {
		name := []string{"p", "q", ""}[sym.Choice("name", 3)]
		if name != "" {
			in += name + ": "
		}

		// What the traces are made of matters little.
		in += words[i]
		if i == 0 && sym.Choice("events", 2) == 1 {
			in += ", " + words[1+sym.Choice("event", 2)*2]
		}

		in += "\n"
	}

	if sym.Choice("bad", 2) == 1 {
		in += "a.x.1\n"
	}

	filter("rtcg-read-traces", in)
}

func quote(ss []string) string {
	if len(ss) == 0 {
		return "[]"
	}

	return `["` + strings.Join(ss, `","`) + `"]`
}

// fork is a test that branches at its second event.
func fork(names []string, first, left, right string) string {
	t := `,"tests":` + quote(names)
	end := `,"next":[{"outcome":"fail"` + t + `}]}`

	s := `{"tests":` + quote(names) + `,"next":[{"outcome":"inc"` + t + `,"event":"` + first + `","next":[{"outcome":"pass"` + t + `,"event":"` + left + `"` + end
	if right != "" {
		s += `,{"outcome":"pass"` + t + `,"event":"` + right + `"` + end
	}

	return s + `]}]}`
}

// CheckMachines builds state machines.
func CheckMachines() {
	sym.Bound("rtcg-make-stms on suites of up to 3 tests that can branch, with natural, integer and other values on 2 channels, in every order of its maps, where up to 2 iterations (3 in the thorough tier) are in another order than in the first run")

	n := 1 + sym.Choice("tests", 3)
	names := []string{"p"}

	var ts []string

	for i := 0; i < n; i++ {
		name := string(rune('s' + i))

		right := ""
		if i == 0 {
			right = []string{"", "a.out.1"}[sym.Choice("branch", 2)]
		}

		val := []string{"1", "-1", "x"}[sym.Choice("value", 3)]
		ts = append(ts, `"`+name+`":`+fork(names, "a.in."+val, "b.out."+[]string{"1", "0", "-2"}[i], right))
	}

	filter("rtcg-make-stms", "{"+strings.Join(ts, ",")+"}")
}

// CheckBig passes many traces through the tools.
func CheckBig() {
	sym.Bound("rtcg-read-traces, rtcg-make-stms and rtcg-gen on 8 traces of up to 4 events on 5 channels, of which 3 are overridden, where at most one iteration is in another order than in the first run (only backwards, for more than 3 entries)")

	in := ""

	for i := 0; i < 8; i++ {
		for j := i % 3; j >= 0; j-- {
			in += string([]byte{"abcde"[(i*i+j)%5]}) + "." + []string{"in", "out", "call"}[(i+j)%3] + "." + string([]byte{'1' + byte(i)}) + ", "
		}

		in += "a.out.-" + string([]byte{'1' + byte(i%4)}) + "\n"
	}

	env.Reset()
	env.Put("in", in)

	a := env.Run("rtcg-read-traces", []string{"in"}, "")
	b := env.Run("rtcg-make-stms", nil, a.Out)
	sym.Assert(a.Code == 0 && b.Code == 0, "the tools succeed")

	which := sym.Choice("tool", 3)

	switch which {
	case 0:
		filterTurns("rtcg-read-traces", in, 1)
	case 1:
		filterTurns("rtcg-make-stms", a.Out, 1)
	default:
		sym.Reach("generation")
		generate(`"ros"><channel name="c" type="T"/><channel name="a" type="U"/><channel name="e" type="V"/><makefile/><catkin/>`, b.Out, 1)
	}
}

// CheckHuge passes very many traces through the tools.
func CheckHuge() {
	sym.Bound("rtcg-read-traces, rtcg-make-stms and rtcg-gen on 70 traces, one of 40 events, on 30 channels, of which 10 are overridden, where all iterations are backwards, or all begin in the middle")

	in := ""

	for i := 0; i < 70; i++ {
		n := i % 3
		if i == 50 {
			n = 39
		}

		for j := n; j > 0; j-- {
			in += "c" + string(rune('0'+(i+j)%10)) + string(rune('a'+j%3)) + "." + []string{"in", "out", "call"}[(i+j)%3] + "." + string([]byte{'1' + byte(i%9)}) + ", "
		}

		in += "a.out.-" + string([]byte{'1' + byte(i%4)}) + "\n"
	}

	env.Reset()
	env.Put("in", in)

	a := env.Run("rtcg-read-traces", []string{"in"}, "")
	b := env.Run("rtcg-make-stms", nil, a.Out)
	sym.Assert(a.Code == 0 && b.Code == 0, "the tools succeed")

	order = -1 - sym.Choice("order", 2)

	switch sym.Choice("tool", 3) {
	case 0:
		filterTurns("rtcg-read-traces", in, -1)
	case 1:
		filterTurns("rtcg-make-stms", a.Out, -1)
	default:
		over := ""
		for i := 0; i < 10; i++ {
			over += `<channel name="c` + string(rune('0'+i)) + `b" type="T"/>`
		}

		sym.Reach("generation")
		generate(`"ros">`+over+`<makefile/><catkin/>`, b.Out, -1)
	}
}

// order is how the entries of maps are ordered.
var order = 3

// machine is a state machine.
func machine(name string, n int) string {
	v := `"verdicts":{"` + name + `":"inc"}`

	s := `"` + name + `":{"states":[{"id":"initial","transitionSets":[{"channel":"a.in","transitions":[{"value":"1","next":"s0"}]}],` + v + `}`
	for i := 0; i < n; i++ {
		s += `,{"id":"s` + string(rune('0'+i)) + `","transitionSets":[{"channel":"b.out","transitions":[{"value":"1","next":"s0"},{"value":"2","next":"f"}]},{"channel":"c.out","transitions":[{"value":"x","next":"s0"}]}],` + v + `}`
	}

	return s + `,{"id":"f","verdicts":{"` + name + `":"fail"}}],"types":{"a":"nat","b":"nat","c":"enum"},"tests":["` + name + `"]}`
}

// CheckGeneration generates code.
func CheckGeneration() {
	sym.Bound("rtcg-gen for either variant with its build files, for suites of up to 2 tests and 3 channels of which up to 2 are overridden, in every order of its maps, where at most one iteration (two in the thorough tier) is in another order than in the first run")

	chans := []string{"", `<channel name="a" type="T"/>`, `<channel name="c" type="U"/><channel name="a" type="T"/>`}[sym.Choice("overrides", 3)]
	variant := []string{`"animate">` + chans + `<makefile/>`, `"ros">` + chans + `<catkin/>`}[sym.Choice("variant", 2)]

	var ms []string

	for i, n := 0, 1+sym.Choice("tests", 2); i < n; i++ {
		ms = append(ms, machine([]string{"t", "u"}[i], 1))
	}

	in := `{"types":{"a":"nat","b":"nat","c":"enum"},"tests":{` + strings.Join(ms, ",") + `}}`

	generate(variant, in, max(1, 2))
}

func generate(variant, in string, turns int) {
	world := func() {
		env.Reset()
		env.Put("g.xml", `<rtcg-gen><cpp variant=`+variant+`</cpp></rtcg-gen>`)
		env.Put("in", in)
		env.Put("animate/src/convert/convert.cpp", "c")
		env.Put("ros/src/convert/convert.cpp", "c")
	}

	world()

	a := env.Run("rtcg-gen", []string{"g.xml", "in"}, "")
	sym.Assert(a.Code == 0, "generation succeeds")

	names := env.List()
	texts := map[string]string{}

	for _, f := range env.Files() {
		texts[f], _ = env.Stable(f)
	}

	for i := 0; i < runs(); i++ {
		world()

		sym.MapOrder(order)
		sym.MapTurns(turns)

		b := env.Run("rtcg-gen", []string{"g.xml", "in"}, "")

		sym.MapOrder(0)

		sym.Assert(a.Code == b.Code && a.Out == b.Out && a.Err == b.Err, "the status is the same in every run")
		sym.Assert(strings.Join(env.List(), " ") == strings.Join(names, " "), "the same files are made in every run")

		for _, f := range env.Files() {
			s, _ := env.Stable(f)
			sym.Assert(s == texts[f], "the files are the same in every run")
		}
	}

	sym.Reach("same")
}
