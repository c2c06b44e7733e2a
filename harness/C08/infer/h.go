// Package infer checks the inference of types.
package infer

import (
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/env"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

func max(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}

	return quick
}

// seen is what a channel has carried: bit 0 nothing, bit 1 naturals, bit 2 negative integers, bit 3 constants.
type seen map[string]int

// kind is the type that covers what was seen, or no type.
func kind(bits int) (*rstype.RsType, bool) {
	switch bits {
	case 1:
		return rstype.Empty(), true
	case 2:
		return rstype.Arithmos(rstype.ArithmosDomainNat), true
	case 4, 6:
		return rstype.Arithmos(rstype.ArithmosDomainInt), true
	case 8:
		return rstype.Enum(), true
	default:
		return nil, false
	}
}

func sameType(a, b *rstype.RsType) bool {
	return a != nil && b != nil && a.IsEmpty() == b.IsEmpty() && a.IsNat() == b.IsNat() && a.IsInt() == b.IsInt() && a.IsReal() == b.IsReal() && a.IsEnum() == b.IsEnum()
}

func anyVal() (gen.Val, int) {
	switch sym.Choice("value", 3) {
	case 1:
		i := sym.Int64("integer")
		if i < 0 {
			return gen.Val{Kind: 1, Int: i}, 4
		}

		return gen.Val{Kind: 1, Int: i}, 2
	case 2:
		return gen.Val{Kind: 2, Enum: "E"}, 8
	default:
		return gen.Val{}, 1
	}
}

func check(traces map[string]trace.Forbidden, all seen, own map[string]seen, turns int) {
	suite, err := validate.FullSuite(trace.ExpandAll(traces))
	if err != nil {
		sym.Assert(false, "suites are valid")
		sym.Stop()
	}

	ok := true

	for _, bits := range all {
		if _, has := kind(bits); !has {
			ok = false
		}
	}

	var b stm.Builder

	if turns >= 0 {
		sym.MapOrder(3)
	}

	if turns > 0 {
		sym.MapTurns(turns)
	}

	got, err := b.BuildSuite(suite)

	sym.MapOrder(0)

	if !ok {
		sym.Assert(err != nil && got == nil, "a channel with values of different kinds is an error, in any order")
		sym.Reach("error")

		return
	}

	sym.Assert(err == nil, "there is no error if each channel has values of one kind, in any order")

	if err != nil {
		return
	}

	sym.Reach("types")
	sym.Assert(len(got.Types) == len(all), "there is a type for each channel, and for nothing else")

	for ch, bits := range all {
		want, _ := kind(bits)
		sym.Assert(sameType(got.Types[ch], want), "each channel has the least type that covers its values, in any order")
	}

	for name, s := range own {
		m := got.Tests[name]
		sym.Assert(m != nil && len(m.Types) == len(s), "a machine has a type for each of its channels")

		if m == nil {
			continue
		}

		for ch, bits := range s {
			want, _ := kind(bits)
			sym.Assert(sameType(m.Types[ch], want), "a machine's types cover its own values, in any order")
		}
	}
}

func suite(tests, events int, letters string) {
	var (
		traces = map[string]trace.Forbidden{}
		all    = seen{}
		own    = map[string]seen{}
	)

	for i := 0; i < tests; i++ {
		var f trace.Forbidden

		name := string(rune('p' + i))
		own[name] = seen{}

		n := 0
		if i < 2 || sym.Thorough() {
			n = sym.Choice("events", events)
		}

		for j := n; j >= 0; j-- {
			v, bits := anyVal()
			ch := gen.Of("channel", 1, letters)
			e := gen.Event(ch, gen.Kinds[(i+j)%3], v)

			if j == 0 {
				f.Forbid = e
			} else {
				f.Prefix = append(f.Prefix, e)
			}

			all[ch] |= bits
			own[name][ch] |= bits
		}

		traces[name] = f
	}

	check(traces, all, own, 0)
}

// CheckOneChannel infers the type of one channel.
func CheckOneChannel() {
	sym.Bound("up to 3 tests, of up to 2 events in the first two, and one in the third (all of up to 3 in the thorough tier), on one channel, with no value, any integer or a constant each, in all orders of iteration")
	suite(1+sym.Choice("tests", 3), max(2, 3), "c")
}

// CheckChannels infers the types of several channels.
func CheckChannels() {
	sym.Bound("up to 2 tests of up to 2 events on channels of any letter, with no value, any integer or a constant each, in all orders of iteration")
	suite(1+sym.Choice("tests", 2), 2, gen.Lower)
}

// CheckLong infers the type of a channel with many values in one test.
func CheckLong() {
	sym.Bound("a test of 5 events (7 in the thorough tier) on one channel, with any integers, one of which may be a constant or nothing instead")

	var (
		f    trace.Forbidden
		bits int
		n    = max(5, 7)
		odd  = sym.Choice("odd", n+1)
		enum = sym.Choice("enum", 2)
	)

	for i := 0; i < n; i++ {
		v, b := gen.Val{Kind: 1, Int: sym.Int64("integer")}, 2
		if v.Int < 0 {
			b = 4
		}

		if i == odd {
			v, b = gen.Val{Kind: 2 * enum, Enum: "E"}, []int{1, 8}[enum]
		}

		bits |= b

		if e := gen.Event("c", gen.Kinds[i%3], v); i == n-1 {
			f.Forbid = e
		} else {
			f.Prefix = append(f.Prefix, e)
		}
	}

	check(map[string]trace.Forbidden{"t": f}, seen{"c": bits}, map[string]seen{"t": {"c": bits}}, 0)
}

// CheckBig infers the types of many channels of many tests.
func CheckBig() {
	sym.Bound("12 tests of 6 events on 9 channels, with naturals, integers, constants and nothing on channels of their own, but for any integer, a constant or nothing in any one of the events, with at most one iteration that is backwards")

	big(12, 6, 9, sym.Choice("odd", 12*6), 1)
}

// CheckHuge infers the types of very many channels.
func CheckHuge() {
	sym.Bound("70 tests of 6 events, or 2 of 300, on 270 channels, or 2 of 300 on 2 channels, as above, but for any integer, a constant or nothing in one of seven of the events")

	switch sym.Choice("shape", 3) {
	case 2:
		big(2, 300, 2, []int{0, 1, 140, 271, 298, 300, 599}[sym.Choice("odd", 7)], -1)
	case 1:
		big(2, 300, 270, []int{0, 1, 256, 270, 299, 300, 599}[sym.Choice("odd", 7)], -1)
	default:
		big(70, 6, 270, []int{0, 60, 128, 200, 300, 418, 419}[sym.Choice("odd", 7)], -1)
	}
}

func big(tests, events, chans, at, turns int) {
	var (
		traces = map[string]trace.Forbidden{}
		all    = seen{}
		own    = map[string]seen{}
	)

	for i := 0; i < tests; i++ {
		var f trace.Forbidden

		name := "t" + gen.Dec(i)
		own[name] = seen{}

		for j := 0; j < events; j++ {
			c := (i*i + j) % chans
			v, bits := gen.Val{Kind: 1, Int: int64(i * j)}, 2

			switch {
			case i*events+j == at:
				v, bits = anyVal()
			case c%9 == 4:
				v, bits = gen.Val{}, 1
			case c%9 == 5:
				v, bits = gen.Val{Kind: 2, Enum: "E" + gen.Dec(i)}, 8
			case c%9 > 5 && j%9 == 3:
				v, bits = gen.Val{Kind: 1, Int: int64(-i - 1)}, 4
			}

			ch := "ch" + gen.Dec(c)

			if e := gen.Event(ch, gen.Kinds[c%3], v); j == events-1 {
				f.Forbid = e
			} else {
				f.Prefix = append(f.Prefix, e)
			}

			all[ch] |= bits
			own[name][ch] |= bits
		}

		traces[name] = f
	}

	check(traces, all, own, turns)
}

var words = []string{"", ".7", ".-7", ".E"}
var wordBits = []int{1, 2, 4, 8}

// CheckTools infers types with the tools.
func CheckTools() {
	sym.Bound("trace files of up to 2 lines (3 in the thorough tier) of one event, and 2 in the last (any, in the thorough tier), on one or two channels, with no value, 7, -7 or E each, through both tools, in all orders of iteration")

	var (
		sb  strings.Builder
		all = seen{}
	)

	for i := sym.Choice("lines", max(2, 3)); i >= 0; i-- {
		n := 0
		if i == 0 || sym.Thorough() {
			n = sym.Choice("events", 2)
		}

		for j := n; j >= 0; j-- {
			ch := "c"
			if j == 0 && sym.Choice("channel", 2) == 1 {
				ch = "d"
			}

			v := sym.Choice("value", 4)
			all[ch] |= wordBits[v]

			sb.WriteString(ch + ".out" + words[v])

			if j > 0 {
				sb.WriteString(", ")
			}
		}

		sb.WriteString("\n")
	}

	env.Reset()

	r := env.Run("rtcg-read-traces", nil, sb.String())
	sym.Assert(r.Code == 0, "traces are read")
	sym.MapOrder(3)

	s := env.Run("rtcg-make-stms", nil, r.Out)
	ok := true

	for _, bits := range all {
		if _, has := kind(bits); !has {
			ok = false
		}
	}

	if !ok {
		sym.Assert(s.Code != 0 && s.Out == "" && s.Err != "", "a channel with values of different kinds is an error of the tool, in any order")
		sym.Reach("error")

		return
	}

	sym.Assert(s.Code == 0, "the tool makes machines if each channel has values of one kind, in any order")

	if s.Code != 0 {
		return
	}

	sym.MapOrder(0)

	got, err := stm.ReadSuite(strings.NewReader(s.Out))
	sym.Assert(err == nil && len(got.Types) == len(all), "there is a type for each channel, and for nothing else")

	if err != nil {
		return
	}

	for ch, bits := range all {
		want, _ := kind(bits)
		sym.Assert(sameType(got.Types[ch], want), "each channel has the least type that covers its values, in any order")
	}

	sym.Reach("types")
}
