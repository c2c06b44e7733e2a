// Package naming checks how tests are named.
package naming

import (
	"strconv"
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/env"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

// refNames names traces in order.
func refNames(given []string) []string {
	var out []string

	taken := func(n string) bool {
		for _, o := range out {
			if o == n {
				return true
			}
		}

		return false
	}

	for _, g := range given {
		base, name := g, g
		if g == "" {
			base = "test"
		}

		next := 0

		if base == "test" {
			name, next = "test0", 1
		}

		for taken(name) {
			name = base + strconv.Itoa(next)
			next++
		}

		out = append(out, name)
	}

	return out
}

func check(given []string) {
	traces := make([]trace.Forbidden, len(given))

	for i, g := range given {
		// Each trace can be told by its events.
		traces[i] = trace.Forbidden{
			Name:   g,
			Forbid: gen.Event("f", gen.Kinds[1], gen.Val{Kind: 1, Int: int64(i)}),
		}
		for j := 0; j < i%3; j++ {
			traces[i].Prefix = append(traces[i].Prefix, gen.Event("p", gen.Kinds[0], gen.Val{Kind: 1, Int: int64(j)}))
		}
	}

	got := trace.Name(traces)
	want := refNames(given)

	sym.Assert(len(got) == len(given), "no trace is lost and none added")

	for i, w := range want {
		t, ok := got[w]
		sym.Assert(ok, "each trace gets the name it should")

		if !ok {
			continue
		}

		sym.Assert(t.Forbid.Equals(traces[i].Forbid) && t.Prefix.Equals(traces[i].Prefix), "each name has its own trace")
		sym.Assert(t.Name == given[i], "the name that a trace came with is kept in it")
		sym.Assert(traces[i].Name == given[i], "the list is not changed")
	}

	// Independently of which names they are.
	used := map[int64]bool{}
	for _, t := range got {
		for i := range traces {
			if t.Forbid.Equals(traces[i].Forbid) {
				used[int64(i)] = true
			}
		}
	}

	sym.Assert(len(used) == len(given), "every trace is under some name")
}

// CheckClash names traces whose names are likely to clash with each other and with those made up.
func CheckClash() {
	sym.Bound("lists of up to 4 traces (5 in the thorough tier) without a name, or called test, test0, test1, a, a0, a1, a00")

	max := 4
	if sym.Thorough() {
		max = 5
	}

	names := []string{"", "test", "test0", "test1", "a", "a0", "a1", "a00"}
	given := make([]string, sym.Choice("traces", max+1))

	for i := range given {
		given[i] = names[sym.Choice("name", len(names))]
	}

	if len(given) == 4 {
		sym.Reach("four")
	}

	check(given)
}

// CheckArbitrary names traces with arbitrary names.
func CheckArbitrary() {
	sym.Bound("lists of 3 traces (4 in the thorough tier), each without a name or with one of 2 arbitrary bytes")

	max := 3
	if sym.Thorough() {
		max = 4
	}

	given := make([]string, max)
	for i := range given {
		if sym.Choice("named", 2) == 1 {
			given[i] = sym.Str("name", 2)
		}
	}

	check(given)
	sym.Reach("arbitrary")
}

// CheckSuffix names traces whose names may be others' with a number.
func CheckSuffix() {
	sym.Bound("lists of 4 traces, called by any letter, or any letter and any digit")

	given := make([]string, 4)
	for i := range given {
		if sym.Choice("digit", 2) == 1 {
			given[i] = gen.Of("letter", 1, "abt") + gen.Of("digit", 1, "0123")
		} else {
			given[i] = gen.Of("letter", 1, "abt")
		}
	}

	check(given)
	sym.Reach("suffix")
}

// CheckMany names many traces alike: the numbers go past one digit.
func CheckMany() {
	sym.Bound("lists of 9 to 14, or of 300, traces of the same name (none, test, or a), the names of some of which are given with a number")

	n := 9 + sym.Choice("traces", 7)
	if n == 15 {
		n = 300
	}

	base := []string{"", "test", "a"}[sym.Choice("name", 3)]
	odd := 0

	if n < 100 {
		odd = sym.Choice("odd", n)
	} else {
		odd = []int{0, 99, n - 1}[sym.Choice("odd", 3)]
	}

	given := make([]string, n)

	for i := range given {
		given[i] = base
	}

	given[odd] = "a9"
	if base != "a" {
		given[odd] = "test10"
	}

	if n > 256 && sym.Choice("far", 2) == 1 {
		given[odd] += "0"
	}

	check(given)
	sym.Reach("many")
}

// CheckBig names many traces, some with long names.
func CheckBig() {
	sym.Bound("lists of 60 traces (300 in the thorough tier), unnamed or with 11 names of which one has 40 characters and one is arbitrary of one to 5 characters")

	n := 60
	if sym.Thorough() {
		n = 300
	}

	given := make([]string, n)
	odd := gen.Of("name", 1+sym.Choice("length", 5), gen.IdentCs)

	for i := range given {
		switch k := i * i % 13; k {
		case 0, 12:
		case 4:
			given[i] = strings.Repeat("long", 10)
		case 9:
			given[i] = odd
		case 10:
			given[i] = "test" + gen.Dec(i)
		default:
			given[i] = "n" + gen.Dec(k)
		}
	}

	check(given)
	sym.Reach("big")
}

// CheckTool names traces with the tool.
func CheckTool() {
	sym.Bound("trace files of 3 lines, unnamed, or called test, test0, x, through rtcg-read-traces")

	env.Reset()

	names := []string{"", "test", "test0", "x"}
	given := make([]string, 3)

	var sb strings.Builder

	for i := range given {
		given[i] = names[sym.Choice("name", len(names))]
		if given[i] != "" {
			sb.WriteString(given[i] + ": ")
		}

		sb.WriteString("f.out." + strconv.Itoa(i) + "\n")
	}

	r := env.Run("rtcg-read-traces", nil, sb.String())
	sym.Assert(r.Code == 0, "well-formed traces are accepted")
	sym.ObserveStr("out", r.Out)

	for i, w := range refNames(given) {
		at := strings.Index(r.Out, "\n\t\""+w+"\": {")
		sym.Assert(at >= 0, "each test is in the suite under the name it should have")

		if at < 0 {
			continue
		}

		rest := r.Out[at+2:]
		if end := strings.Index(rest, "\n\t}"); end >= 0 {
			rest = rest[:end]
		}

		sym.Assert(strings.Contains(rest, `"event": "f.out.`+strconv.Itoa(i)+`"`), "each test in the suite has its own event")
	}

	sym.Reach("tool")
}
