// Package factor checks factorisation.
package factor

import (
	"github.com/UoY-RoboStar/rtcg/internal/factorise"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

func max(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}

	return quick
}

func anyTrace(name string, n int) trace.Trace {
	t := make(trace.Trace, n)
	for i := range t {
		t[i] = gen.AnyEvent(name, 1, i == 0)
	}

	return t
}

// equal says whether traces are equal, without a branch.
func equal(a, b trace.Trace) bool {
	if len(a) != len(b) {
		return false
	}

	r := true
	for i := range a {
		r = sym.And(r, gen.SameEvent(&a[i], &b[i]))
	}

	return r
}

// CheckTrace compares traces.
func CheckTrace() {
	sym.Bound("pairs of traces of up to 2 events (3 in the thorough tier), with names and constants of an arbitrary letter, any directions and any integers")

	a := anyTrace("a", sym.Choice("length", max(3, 4)))
	b := anyTrace("b", sym.Choice("other length", max(3, 4)))

	prefix := len(a) <= len(b) && equal(a, b[:len(a)])

	sym.Assert(a.IsPrefixOf(b) == prefix, "a trace is a prefix of another exactly if that starts with its events")
	sym.Assert(a.Equals(b) == equal(a, b), "traces are equal exactly if they have the same events")

	if a.Equals(b) {
		sym.Reach("equal")
	} else {
		sym.Reach("different")
	}
}

type in struct {
	names []string
	tests map[string]trace.Forbidden
	hit   []bool
}

// anyTests is a set of up to n tests, whose prefixes are the trace, its beginning, the trace with another last event, or longer.
func anyTests(n int, after trace.Trace) *in {
	t := &in{tests: map[string]trace.Forbidden{}}

	for i := sym.Choice("tests", n+1); i > 0; i-- {
		var p trace.Trace

		switch sym.Choice("prefix", 4) {
		case 0:
			p = append(p, after...)
		case 1:
			if len(after) == 0 {
				sym.Stop()
			}

			p = append(p, after[:len(after)-1]...)
		case 2:
			if len(after) == 0 {
				sym.Stop()
			}

			p = append(append(p, after[:len(after)-1]...), gen.AnyEvent("other", 1, true))
		case 3:
			p = append(append(p, after...), gen.AnyEvent("extra", 1, false))
		}

		name := string(rune('a' + i))
		t.names = append(t.names, name)
		f := trace.Forbidden{Prefix: p, Forbid: gen.AnyEvent("forbidden", 1, i == 1)}
		t.tests[name] = f
		t.hit = append(t.hit, equal(p, after))
	}

	return t
}

// CheckFailures finds the failures after a trace.
func CheckFailures() {
	sym.Bound("up to 2 tests (3 in the thorough tier) and traces of up to 2 events; prefixes are any related or unrelated traces, in all orders of iteration")

	after := anyTrace("after", sym.Choice("length", 3))
	t := anyTests(max(2, 3), after)

	sym.MapOrder(3)

	fs := factorise.Failures(t.tests, after)
	n := 0

	for i, name := range t.names {
		if t.hit[i] {
			n++

			sym.Reach("hit")
		} else {
			sym.Reach("miss")
		}

		seen := 0

		for _, f := range fs {
			if f.Test == name {
				seen++

				want := t.tests[name].Forbid
				sym.Assert(gen.SameEvent(&f.Event, &want), "each failure has its test's forbidden event")
			}
		}

		sym.Assert((seen == 1) == t.hit[i] && seen <= 1, "the failures are those of the tests whose prefix is the trace, once each")
	}

	sym.Assert(len(fs) == n, "there are no other failures")
}

// CheckBig finds the failures of many tests, and after long traces.
func CheckBig() {
	sym.Bound("20 tests (40 in the thorough tier), after a trace of 12 events, whose prefixes are that trace, its beginnings, longer, or differ from it in any one event; all with one such event arbitrary, with at most one iteration that is backwards")

	big(max(20, 40), 12, sym.Choice("at", 12), 1)
}

// CheckHuge finds the failures of hundreds of tests, and after traces of hundreds of events.
func CheckHuge() {
	sym.Bound("300 tests after a trace of 12 events, or 12 after one of 300, as above but with one of five events arbitrary")

	if sym.Choice("long", 2) == 1 {
		big(12, 300, []int{0, 128, 255, 256, 299}[sym.Choice("at", 5)], 0)
	} else {
		big(300, 12, []int{0, 3, 7, 10, 11}[sym.Choice("at", 5)], 0)
	}
}

func big(tests, length, at, order int) {
	var (
		after = make(trace.Trace, length)
		t     = &in{tests: map[string]trace.Forbidden{}}
		odd   = gen.AnyEvent("odd", 1, true)
	)

	for i := range after {
		after[i] = gen.Event("c"+gen.Dec(i%5), gen.Kinds[i%3], gen.Val{Kind: 1, Int: int64(i)})
	}

	for i := 0; i < tests; i++ {
		p := append(trace.Trace{}, after...)

		switch i % 4 {
		case 1:
			p = p[:i%len(p)]
		case 2:
			p = append(p, after[i%3])
		case 3:
			p[at] = odd
		}

		name := "t" + gen.Dec(i)
		t.names = append(t.names, name)
		t.tests[name] = trace.Forbidden{Prefix: p, Forbid: gen.Event("f"+gen.Dec(i), gen.Kinds[i%3], gen.Val{Kind: 1, Int: int64(i)})}
		t.hit = append(t.hit, equal(p, after))
	}

	sym.MapOrder(order)

	if order > 0 {
		sym.MapTurns(1)
	}

	fs := factorise.Failures(t.tests, after)
	nodes := factorise.SpineNodes(t.tests, after)

	sym.MapOrder(0)

	n, ins := 0, 0

	for i, name := range t.names {
		if t.hit[i] {
			n++

			if i%3 == 0 {
				ins++
			}
		}

		seen, on := 0, 0
		want := t.tests[name].Forbid

		for _, f := range fs {
			if f.Test == name {
				seen++

				sym.Assert(gen.SameEvent(&f.Event, &want), "each failure has its test's forbidden event")
			}
		}

		for j := range nodes {
			for k := range nodes[j].Next {
				if point(&nodes[j].Next[k], name, &want) {
					on++
				}
			}
		}

		sym.Assert((seen == 1) == t.hit[i] && seen <= 1, "the failures are those of the tests whose prefix is the trace, once each")
		sym.Assert(on == seen, "each failure has a test point on one spine")
	}

	sym.Assert(len(fs) == n, "there are no other failures")
	sym.Assert(len(nodes) == ins+1, "there is a spine node for each failure that is an input, and one more")
	sym.Reach("done")
}

// point says that a node is the test point of a failure.
func point(n *testlang.Node, name string, e *testlang.Event) bool {
	return n.Outcome == testlang.OutcomePass && gen.SameEvent(n.Event, e) && len(n.Tests) == 1 && n.Tests[0] == name &&
		len(n.Next) == 1 && n.Next[0].Outcome == testlang.OutcomeFail && n.Next[0].Event == nil && len(n.Next[0].Next) == 0 &&
		len(n.Next[0].Tests) == 1 && n.Next[0].Tests[0] == name
}

// CheckSpines makes the spine nodes after a trace.
func CheckSpines() {
	sym.Bound("up to 3 tests after traces of up to 2 events, any of which may have that trace as its prefix, in all orders of iteration")

	var (
		after = anyTrace("after", sym.Choice("length", 3))
		tests = map[string]trace.Forbidden{}
		names []string
		ins   []string
		outs  []string
	)

	for i := sym.Choice("tests", 4); i > 0; i-- {
		name := string(rune('a' + i))
		f := trace.Forbidden{Prefix: append(trace.Trace{}, after...), Forbid: gen.AnyEvent("forbidden", 1, i == 1)}
		names = append(names, name)

		switch {
		case sym.Choice("related", 2) == 0:
			f.Prefix = append(f.Prefix, gen.AnyEvent("extra", 1, false))
		case f.Forbid.Channel.Kind == channel.KindIn:
			ins = append(ins, name)
		default:
			outs = append(outs, name)
		}

		tests[name] = f
	}

	sym.MapOrder(3)

	nodes := factorise.SpineNodes(tests, after)

	sym.Assert(len(nodes) == len(ins)+1, "there is a spine node for each failure that is an input, and one more")

	if len(nodes) != len(ins)+1 {
		return
	}

	for i := range nodes {
		n := &nodes[i]
		sym.Assert(n.Outcome == testlang.OutcomeInc, "spine nodes are inconclusive")
		sym.Assert(n.Event != nil, "spine nodes have an event")

		if n.Event == nil {
			return
		}

		last := testlang.Event{}
		if len(after) > 0 {
			last = after[len(after)-1]
		}

		sym.Assert(gen.SameEvent(n.Event, &last), "spine nodes have the last event of the trace, if it has one")

		// There may be a last node of outputs without any.
		if i < len(ins) {
			sym.Assert(len(n.Next) == 1, "a failure that is an input has a spine of its own")
		} else {
			sym.Assert(len(n.Next) == len(outs), "failures that are no inputs share a spine")
		}
	}

	for _, name := range names {
		seen := 0
		e := tests[name].Forbid

		for i := range nodes {
			for j := range nodes[i].Next {
				if point(&nodes[i].Next[j], name, &e) {
					seen++

					sym.Assert((i == len(ins)) == (e.Channel.Kind != channel.KindIn), "failures are on the right spines")
				}
			}
		}

		want := 0

		for _, n := range append(append([]string{}, ins...), outs...) {
			if n == name {
				want = 1
			}
		}

		sym.Assert(seen == want, "each failure has a test point on one spine")
	}

	if len(ins) > 0 && len(outs) > 0 {
		sym.Reach("both")
	}
}

var seps = []string{", ", ",", ";", " ", "|", "/", ".", "\n", "\x00", ""}

// alike are pairs of events, or pairs of them, that could look the same when they are written in some way.
func alike() (trace.Trace, trace.Trace) {
	ev := func(name string, k channel.Kind, v gen.Val) testlang.Event { return gen.Event(name, k, v) }
	num := func(n int64) gen.Val { return gen.Val{Kind: 1, Int: n} }
	enum := func(s string) gen.Val { return gen.Val{Kind: 2, Enum: s} }

	var a, b testlang.Event

	in, out := channel.KindIn, channel.KindOut

	switch sym.Choice("pair", 12) {
	case 0:
		a, b = ev("a", in, num(1)), ev("a", in, enum("1"))
	case 1:
		a, b = ev("a", in, enum("")), ev("a", in, gen.Val{})
	case 2:
		a, b = ev("a", in, num(0)), ev("a", in, gen.Val{})
	case 3:
		a, b = ev("a", in, enum("out")), ev("a.in", out, gen.Val{})
	case 4:
		a, b = ev("a", in, enum("b.out")), ev("a.in.b", out, gen.Val{})
	case 5:
		a, b = ev("a", in, enum("in.x")), ev("a.in", in, enum("x"))
	case 6:
		a, b = ev("a", in, enum("X")), ev("a", in, enum("x"))
	case 7:
		a, b = ev("a", in, enum(" x")), ev("a", in, enum("x"))
	case 8:
		a, b = ev("a", in, gen.Val{}), ev("A", in, gen.Val{})
	case 9:
		a, b = ev("a", in, num(1)), ev("a", in, num(257))
	case 10:
		a, b = ev("a", in, num(1)), ev("a", in, num(1<<53))
	default:
		// Two events, and one that has the text of both.
		var (
			x, y = ev("a", out, enum("x")), ev("a", out, enum("y"))
			sep  = seps[sym.Choice("separator", len(seps))]
			text string
		)

		switch sym.Choice("text", 3) {
		case 0:
			text = y.String()
		case 1:
			bs, _ := y.MarshalText()
			text = string(bs)
		default:
			text = y.Value.String()
		}

		return trace.Trace{x, y}, trace.Trace{ev("a", out, enum("x"+sep+text))}
	}

	more := gen.AnyEvent("more", 1, false)

	switch sym.Choice("more", 3) {
	case 1:
		return trace.Trace{a, more}, trace.Trace{b, more}
	case 2:
		return trace.Trace{more, a}, trace.Trace{more, b}
	}

	return trace.Trace{a}, trace.Trace{b}
}

// CheckText compares traces that are written in similar ways.
func CheckText() {
	sym.Bound("12 kinds of pairs of different traces of one or two events whose text could be the same: numbers and constants of the same digits, absent and empty values, dots in names and constants, case, blanks, numbers that differ in high bits, constants that hold the text of a second event after any of 10 separators")

	a, b := alike()
	if sym.Choice("swap", 2) == 1 {
		a, b = b, a
	}

	sym.Assert(!a.Equals(b) && a.Equals(a), "traces are equal exactly if they have the same events")
	sym.Assert(!a.IsPrefixOf(b) && a.IsPrefixOf(a), "a trace is a prefix of another exactly if that starts with its events")

	f := gen.AnyEvent("forbidden", 1, false)
	tests := map[string]trace.Forbidden{"a": {Prefix: a, Forbid: f}, "b": {Prefix: b, Forbid: f}}
	fs := factorise.Failures(tests, a)
	sym.Assert(len(fs) == 1 && fs[0].Test == "a" && gen.SameEvent(&fs[0].Event, &f), "the failures are those of the tests whose prefix is the trace, once each")

	n := 0

	for _, s := range factorise.SpineNodes(tests, a) {
		n += len(s.Next)
	}

	sym.Assert(n == 1, "each failure has a test point on one spine")
	sym.Reach("done")
}
