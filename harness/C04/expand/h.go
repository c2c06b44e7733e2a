// Package expand checks the expansion of traces to trees, and back.
package expand

import (
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

func max(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}

	return quick
}

func anyForbidden(n int) trace.Forbidden {
	f := trace.Forbidden{Name: gen.Of("given name", 1, gen.Letters)}
	for i := 0; i < n; i++ {
		f.Prefix = append(f.Prefix, gen.AnyEvent("prefix", 1, i < 3))
	}

	f.Forbid = gen.AnyEvent("forbidden", 1, true)

	return f
}

func same(a, b *trace.Forbidden) bool {
	if len(a.Prefix) != len(b.Prefix) {
		return false
	}

	r := gen.SameEvent(&a.Forbid, &b.Forbid)
	for i := range a.Prefix {
		r = sym.And(r, gen.SameEvent(&a.Prefix[i], &b.Prefix[i]))
	}

	return r
}

// linear looks at the tree of a trace.
func linear(n *testlang.Node, name string, f *trace.Forbidden) {
	for i := -1; i < len(f.Prefix)+2; i++ {
		sym.Assert(len(n.Tests) == 1 && n.Tests[0] == name, "every node belongs to exactly the named test")
		sym.Assert(n.ID == "", "nodes have no identifiers yet")

		switch {
		case i == -1:
			sym.Assert(n.Outcome == testlang.OutcomeUnset && n.Event == nil, "the tree starts with a root")
		case i < len(f.Prefix):
			sym.Assert(n.Outcome == testlang.OutcomeInc && gen.SameEvent(n.Event, &f.Prefix[i]), "each event of the prefix has an inconclusive node, in order")
		case i == len(f.Prefix):
			sym.Assert(n.Outcome == testlang.OutcomePass && gen.SameEvent(n.Event, &f.Forbid), "the forbidden event has a passing node")
		default:
			sym.Assert(n.Outcome == testlang.OutcomeFail && n.Event == nil && len(n.Next) == 0, "the tree ends with a failing node")

			return
		}

		sym.Assert(len(n.Next) == 1, "the tree is linear")

		if len(n.Next) != 1 {
			return
		}

		n = &n.Next[0]
	}
}

// CheckExpand expands traces and collapses their trees.
func CheckExpand() {
	sym.Bound("traces of up to 4 prefix events (8 in the thorough tier), with channels and constants of an arbitrary letter, any directions and integers, and arbitrary names of tests")

	f := anyForbidden(sym.Choice("events", max(5, 9)))
	name := sym.Str("name", 2)
	n := f.Expand(name)

	linear(n, name, &f)

	back, err := trace.Collapse(n)
	sym.Assert(err == nil && same(&back, &f), "collapsing the tree of a trace gives the trace")
	sym.Assert(back.Name == "", "collapsing a tree makes up no name")
	linear(n, name, &f)
	sym.Reach("done")
}

// CheckAll expands and collapses suites.
func CheckAll() {
	sym.Bound("suites of up to 2 tests (3 in the thorough tier) of up to one prefix event, with arbitrary names and names they came with, in all orders of iteration")
	var (
		m     = map[string]trace.Forbidden{}
		names []string
	)

	for i := sym.Choice("tests", max(3, 4)); i > 0; i-- {
		name := gen.Of("name", 1, gen.Letters)
		if _, ok := m[name]; ok {
			sym.Stop()
		}

		names = append(names, name)
		m[name] = trace.Forbidden{
			// The name that a trace comes with is not always the one it gets.
			Name:   gen.Of("given name", sym.Choice("given", 2), gen.Letters),
			Prefix: anyForbidden(sym.Choice("events", 2)).Prefix,
			Forbid: gen.AnyEvent("forbidden", 1, false),
		}
	}

	sym.MapOrder(3)

	s := trace.ExpandAll(m)
	sym.Assert(len(s) == len(names), "every trace is expanded")

	for _, name := range names {
		n, f := s[name], m[name]
		sym.Assert(n != nil, "every trace is expanded")

		if n != nil {
			linear(n, name, &f)
		}
	}

	back, err := trace.CollapseAll(s)
	sym.Assert(err == nil && len(back) == len(names), "expanded suites collapse")

	for _, name := range names {
		b, f := back[name], m[name]
		sym.Assert(same(&b, &f), "every test of an expanded suite collapses to its trace")
	}

	sym.Reach("done")
}

// CheckBig expands long traces and many of them, and collapses their trees.
func CheckBig() {
	sym.Bound("suites of 12 tests, of 1, 2, .. and 12 events, or one of 40 events (100 in the thorough tier), or 70 tests of which one has 300 events, on channels of arbitrary letters, of which one node may then get any outcome, and lose its event or tests, in insertion order and backwards")

	lens := []int{max(40, 100)}

	huge := false

	switch sym.Choice("many", 3) {
	case 1:
		lens = nil
		for i := 1; i <= 12; i++ {
			lens = append(lens, i)
		}
	case 2:
		lens = make([]int, 70)
		for i := range lens {
			lens[i] = 1 + i%2
		}

		lens[69] = 300
		huge = true
	}

	m := map[string]trace.Forbidden{}

	for i, n := range lens {
		f := trace.Forbidden{}

		for j := 0; j < n; j++ {
			ch := "c"
			if !huge || j%50 == 7 {
				ch = gen.Of("channel", 1, gen.Letters)
			}

			e := gen.Event(ch, gen.Kinds[(i+j)%3], gen.Val{Kind: (i ^ j) % 3, Int: int64(j), Enum: "E"})
			if j == n-1 {
				f.Forbid = e
			} else {
				f.Prefix = append(f.Prefix, e)
			}
		}

		m["t"+gen.Dec(i)] = f
	}

	sym.MapOrder(1)

	s := trace.ExpandAll(m)
	sym.Assert(len(s) == len(m), "every trace is expanded")

	for name, f := range m {
		n := s[name]
		sym.Assert(n != nil, "every trace is expanded")

		if n != nil {
			linear(n, name, &f)
		}
	}

	sym.MapOrder(0)

	// The longest may be broken anywhere.
	var (
		last = "t" + gen.Dec(len(lens)-1)
		n    = s[last]
		at   = 0
		ok   = true
	)

	if huge {
		at = []int{0, 1, 130, 256, 257, 300, 301, 302}[sym.Choice("node", 8)]
	} else {
		at = sym.Choice("node", lens[len(lens)-1]+3)
	}

	for i := 0; n != nil && i <= at; i++ {
		if i == at {
			o := testlang.Outcome(sym.Byte("outcome"))
			ok = sym.And(ok, o == n.Outcome)
			n.Outcome = o

			switch sym.Choice("lose", 3) {
			case 1:
				ok = ok && n.Event == nil
				n.Event = nil
			case 2:
				ok = false
				n.Tests = nil
			}
		}

		if len(n.Next) == 0 {
			break
		}

		n = &n.Next[0]
	}

	back, err := trace.CollapseAll(s)
	sym.Assert((err == nil) == ok, "a suite collapses exactly if all its trees are ones of traces")

	if err != nil {
		sym.Reach("refused")

		return
	}

	sym.Assert(len(back) == len(m), "every test of an expanded suite collapses")

	for name, f := range m {
		b := back[name]
		sym.Assert(same(&b, &f), "every test of an expanded suite collapses to its trace")
	}

	sym.Reach("done")
}

type node struct {
	outcome      byte
	event, tests bool
	e            testlang.Event
}

// CheckCollapse collapses trees that may be wrong in any node.
func CheckCollapse() {
	sym.Bound("every tree of up to 5 nodes (6 in the thorough tier), a line or not, proper but for up to two nodes that are arbitrary")

	s := gen.AnyShape("shape", 1+sym.Choice("nodes", max(5, 6)))
	ns := make([]node, s.N())
	branching := false

	for i := range ns {
		ns[i] = node{outcome: byte(testlang.OutcomeInc), event: true, tests: true, e: gen.AnyEvent("event", 1, false)}

		if len(s.Kids[i]) > 1 {
			branching = true
		}
	}

	last := len(ns) - 1
	ns[0].outcome, ns[0].event = byte(testlang.OutcomeUnset), false

	if last > 0 {
		ns[last].outcome, ns[last].event = byte(testlang.OutcomeFail), false
	}

	if last > 1 {
		ns[last-1].outcome = byte(testlang.OutcomePass)
	}

	bad := -1

	for i := 0; i < 2; i++ {
		j := sym.Choice("node", len(ns))
		if j <= bad {
			break
		}

		bad = j
		ns[j].outcome, ns[j].event, ns[j].tests = sym.Byte("outcome"), sym.Choice("event", 2) == 1, sym.Choice("tests", 2) == 1
	}

	root := build(s, ns, 0)
	got, err := trace.Collapse(&root)

	if branching {
		// Only what leads up to the branch could be collapsed.
		sym.Assert(err != nil, "a tree that branches is refused")
		sym.Reach("branching")

		return
	}

	ok := last >= 2
	want := trace.Forbidden{}

	for i := range ns {
		n := &ns[i]
		ok = ok && n.tests

		switch {
		case i == 0:
			ok = ok && n.outcome == byte(testlang.OutcomeUnset) && !n.event
		case i == last:
			ok = ok && n.outcome == byte(testlang.OutcomeFail) && !n.event
		case i == last-1:
			ok = ok && n.outcome == byte(testlang.OutcomePass) && n.event
			want.Forbid = n.e
		default:
			ok = ok && n.outcome == byte(testlang.OutcomeInc) && n.event
			want.Prefix = append(want.Prefix, n.e)
		}
	}

	if !ok {
		sym.Assert(err != nil, "a tree that is not one of a trace is refused")
		sym.Reach("refused")

		return
	}

	sym.Assert(err == nil && same(&got, &want), "a tree of a trace collapses to the trace")
	sym.Reach("collapsed")
}

func build(s *gen.Shape, ns []node, i int) testlang.Node {
	n := testlang.Node{Outcome: testlang.Outcome(ns[i].outcome)}

	if ns[i].event {
		n.Event = &ns[i].e
	}

	if ns[i].tests {
		n.Tests = []string{"t"}
	}

	for _, k := range s.Kids[i] {
		n.Next = append(n.Next, build(s, ns, k))
	}

	return n
}
