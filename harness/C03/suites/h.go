// Package suites checks that suites survive JSON.
package suites

import (
	"bytes"
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/stm/transition"
	"github.com/UoY-RoboStar/rtcg/internal/stm/verdict"
	"github.com/UoY-RoboStar/rtcg/internal/structure"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

const notBlank = gen.Letters + "<>&\"\\/\x7f"

const odd = gen.Letters + " <>&\"\\/\t\n\x7f"

func max(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}

	return quick
}

func strs(name string, n int, set string) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, gen.Of(name, 1, set))
	}

	return r
}

func sameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}

	ok := true
	for i := range a {
		ok = sym.And(ok, sym.EqStr(a[i], b[i]))
	}

	return ok
}

// vary says whether this part is (one of those) to be varied.
type vary struct{ a, b int }

func anyPart(n int) vary {
	v := vary{sym.Choice("varied", n), -1}

	if sym.Thorough() {
		v.b = sym.Choice("also varied", n)
		if v.b < v.a {
			sym.Stop()
		}
	}

	return v
}

func (v vary) part(i int) bool { return v.a == i || v.b == i }

func (v vary) str(i int, name, set string) string {
	if v.part(i) {
		return gen.Of(name, 1, set)
	}

	return gen.Of(name, 1, gen.Letters)
}

func (v vary) choice(i int, name string, n, def int) int {
	if v.part(i) {
		return sym.Choice(name, n)
	}

	return def
}

func anyValue() value.Value {
	switch sym.Choice("value", 3) {
	case 1:
		i := sym.Int64("integer")
		sym.Assume(sym.And(i >= -9, i <= 99))

		return value.Int(i)
	case 2:
		return value.Enum(gen.Of("constant", 2, gen.Letters+"\"<&\\|{}"))
	default:
		return value.None()
	}
}

// plain is a node in which only the event's name is arbitrary.
func plain(i int) testlang.Node {
	e := gen.Event(gen.Of("name", 1, gen.Letters), gen.Kinds[i%3], gen.Val{Kind: i % 3, Int: int64(i), Enum: "E"})

	return testlang.Node{ID: testlang.NodeID([]string{"", "n"}[i%2]), Tests: []string{"t"}, Outcome: testlang.OutcomeInc, Event: &e}
}

func arbitrary() testlang.Node {
	v := anyPart(5)
	n := testlang.Node{Outcome: testlang.Outcome(v.choice(0, "outcome", 4, 1))}

	for i := v.choice(1, "tests", 3, 1); i > 0; i-- {
		n.Tests = append(n.Tests, v.str(1, "test", odd))
	}

	if v.choice(2, "id", 2, 0) == 1 {
		n.ID = testlang.NodeID(v.str(2, "id", odd))
	}

	if v.choice(3, "event", 2, 1) == 1 {
		e := testlang.NewEvent(v.str(3, "channel", notBlank), gen.Kinds[v.choice(3, "direction", 3, 1)], value.Int(7))
		if v.part(4) {
			e.Value = anyValue()
		}

		n.Event = &e
	}

	return n
}

func build(s *gen.Shape, at, i int) testlang.Node {
	var n testlang.Node

	if i == at {
		n = arbitrary()
	} else {
		n = plain(i)
	}

	for _, k := range s.Kids[i] {
		n.Next = append(n.Next, build(s, at, k))
	}

	return n
}

func sameNode(a, b *testlang.Node) {
	sym.Assert(a.ID == b.ID, "nodes keep their identifiers")
	sym.Assert(sameStrs(a.Tests, b.Tests), "nodes keep their tests, in order")
	sym.Assert(a.Outcome == b.Outcome, "nodes keep their outcomes")
	sym.Assert(gen.SameEvent(a.Event, b.Event), "nodes keep their events")
	sym.Assert(len(a.Next) == len(b.Next), "nodes keep their continuations")

	for i := 0; i < len(a.Next) && i < len(b.Next); i++ {
		sameNode(&a.Next[i], &b.Next[i])
	}
}

// deep is a copy of a node.
func deep(n *testlang.Node) *testlang.Node {
	c := *n
	c.Tests = append([]string(nil), n.Tests...)
	c.Next = nil

	for i := range n.Next {
		c.Next = append(c.Next, *deep(&n.Next[i]))
	}

	if n.Event != nil {
		e := *n.Event
		c.Event = &e
	}

	return &c
}

func tests(s, back testlang.Suite) {
	sym.Assert(len(back) == len(s), "a suite has as many tests as before")

	for name, n := range s {
		b := back[name]
		sym.Assert(b != nil, "a suite has the same tests as before")

		if b != nil {
			sameNode(n, b)
		}
	}
}

// CheckTests writes and reads test suites.
func CheckTests() {
	sym.Bound("suites of a tree of up to 4 nodes (5 in the thorough tier), any one of which is arbitrary in any one part (two in the thorough tier): any outcome, tests, identifier, event; strings of an odd character or letter, integers from -9 to 99, constants of two characters")

	sh := gen.AnyShape("shape", 1+sym.Choice("nodes", max(4, 5)))
	n := build(sh, sym.Choice("arbitrary", sh.N()), 0)
	s := testlang.Suite{gen.Of("suite test", 1, gen.Letters): &n}

	var w bytes.Buffer

	sym.Assert(s.Write(&w) == nil, "suites are written")

	back, err := testlang.ReadSuite(&w)
	sym.Assert(err == nil, "written suites are read")
	tests(s, back)
	sym.Reach("done")
}

// CheckRelated writes and reads test suites whose names, tests and identifiers are related.
func CheckRelated() {
	sym.Bound("suites of 2 tests of 2 nodes with up to 3 tests (4 in the thorough tier), names, tests and identifiers being any of two letters, so that they coincide in any way")

	any := func(name string) string { return gen.Of(name, 1, "ab") }
	s, before := testlang.Suite{}, testlang.Suite{}

	for i := 0; i < 2; i++ {
		n := testlang.Root(plain(1))

		// Only one of them is arbitrary.
		if i == 1 {
			for _, m := range []*testlang.Node{&n, &n.Next[0]} {
				m.ID = testlang.NodeID(any("id"))
				m.Tests = nil

				for j := sym.Choice("tests", max(4, 5)); j > 0; j-- {
					m.Tests = append(m.Tests, any("test"))
				}
			}
		}

		name := string(rune('a' + i))
		s[name] = &n
		before[name] = deep(&n)
	}

	var w bytes.Buffer

	sym.Assert(s.Write(&w) == nil, "suites are written")
	tests(before, s)

	back, err := testlang.ReadSuite(&w)
	sym.Assert(err == nil, "written suites are read")
	tests(before, back)
	sym.Reach("done")
}

// CheckTestNames writes and reads test suites of several tests.
func CheckTestNames() {
	sym.Bound("suites of up to 3 tests with names of an odd character or letter, in all orders of iteration")

	s := testlang.Suite{}

	for i := sym.Choice("tests", 4); i > 0; i-- {
		n := plain(i)
		set := odd

		if i > 1 {
			set = gen.Letters
		}

		s[gen.Of("suite test", 1, set)] = &n
	}

	sym.MapOrder(3)

	var w bytes.Buffer

	sym.Assert(s.Write(&w) == nil, "suites are written")

	back, err := testlang.ReadSuite(&w)
	sym.Assert(err == nil, "written suites are read")
	tests(s, back)
	sym.Reach("done")
}

func typeOf(i int) *rstype.RsType {
	return []*rstype.RsType{
		rstype.Empty(), rstype.Enum(), rstype.Arithmos(rstype.ArithmosDomainNat), rstype.Arithmos(rstype.ArithmosDomainInt), rstype.Arithmos(rstype.ArithmosDomainReal),
	}[i]
}

func anyTypes(n int, set string) stm.TypeMap {
	if n == 0 {
		return nil
	}

	m := stm.TypeMap{}
	for i := 0; i < n; i++ {
		m[gen.Of("typed", 1, set)] = typeOf(sym.Choice("type", 5))
	}

	return m
}

func sameTypes(a, b stm.TypeMap) {
	sym.Assert(len(a) == len(b), "the types are as many as before")

	for c, t := range a {
		u := b[c]
		sym.Assert(u != nil && *u == *t, "channels keep their types")
	}
}

func anyState() *stm.State {
	var (
		v   = anyPart(6)
		ver = verdict.Verdict{}
		s   = &stm.State{ID: testlang.NodeID(v.str(1, "state", odd)), Verdict: &ver}
	)

	for i := v.choice(0, "verdicts", 3, 1); i > 0; i-- {
		ver[v.str(0, "judged", odd)] = testlang.Outcome(v.choice(0, "outcome", 4, 2))
	}

	for i := v.choice(2, "sets", 4, 1); i > 0; i-- {
		set := transition.NewSet(channel.Out("c"))

		if i == 1 {
			set.Channel = channel.New(v.str(3, "channel", notBlank), gen.Kinds[v.choice(3, "direction", 3, 1)])
		}

		for j := v.choice(2, "transitions", 4, 2); j > 0; j-- {
			tr := transition.Transition{Next: "next", Value: value.Int(int64(j))}

			if i == 1 && j == 1 {
				tr.Next = testlang.NodeID(v.str(4, "next", odd))

				if v.part(5) {
					tr.Value = anyValue()
				}
			}

			set.Transitions = append(set.Transitions, tr)
		}

		s.TransitionSets = append(s.TransitionSets, set)
	}

	return s
}

func simpleState(i int) *stm.State {
	return &stm.State{
		ID: testlang.NodeID(string(rune('0' + i))), Verdict: &verdict.Verdict{"t": testlang.OutcomePass},
		TransitionSets: []transition.Set{transition.NewSet(channel.In("c"), transition.Transition{Value: plain(i).Event.Value, Next: "x"})},
	}
}

func sameMembers(a, b structure.Set[string]) bool {
	x, y := a.Values(), b.Values()
	if len(x) != len(y) {
		return false
	}

	for _, v := range x {
		ok := false
		for _, w := range y {
			ok = ok || v == w
		}

		if !ok {
			return false
		}
	}

	return true
}

func sameState(a, b *stm.State) {
	sym.Assert(a.ID == b.ID, "states keep their identifiers")
	sym.Assert(b.Verdict != nil && len(*a.Verdict) == len(*b.Verdict), "states keep their verdicts")

	if b.Verdict != nil {
		for t, o := range *a.Verdict {
			p, ok := (*b.Verdict)[t]
			sym.Assert(ok && p == o, "states keep their verdicts")
		}
	}

	sym.Assert(len(a.TransitionSets) == len(b.TransitionSets), "states keep their transition sets")

	for i := 0; i < len(a.TransitionSets) && i < len(b.TransitionSets); i++ {
		x, y := &a.TransitionSets[i], &b.TransitionSets[i]
		sym.Assert(x.Channel == y.Channel, "transition sets keep their channels")
		sym.Assert(len(x.Transitions) == len(y.Transitions), "transition sets keep their transitions")

		for j := 0; j < len(x.Transitions) && j < len(y.Transitions); j++ {
			sym.Assert(x.Transitions[j].Next == y.Transitions[j].Next, "transitions keep their targets")
			sym.Assert(x.Transitions[j].Value.Equals(y.Transitions[j].Value), "transitions keep their values")
		}
	}
}

func machines(s *stm.Suite) {
	var w bytes.Buffer

	sym.Assert(s.Write(&w) == nil, "suites are written")

	back, err := stm.ReadSuite(&w)
	sym.Assert(err == nil && back != nil, "written suites are read")

	if err != nil {
		return
	}

	sym.MapOrder(0)
	sameTypes(s.Types, back.Types)
	sym.Assert(len(s.Tests) == len(back.Tests), "a suite has as many machines as before")

	for name, a := range s.Tests {
		b := back.Tests[name]
		sym.Assert(b != nil, "a suite has the same machines as before")

		if b == nil {
			continue
		}

		sameTypes(a.Types, b.Types)
		sym.Assert(sameMembers(a.Tests, b.Tests), "machines keep their tests")
		sym.Assert(len(a.States) == len(b.States), "machines keep their states")

		for i := 0; i < len(a.States) && i < len(b.States); i++ {
			sameState(a.States[i], b.States[i])
		}
	}
}

// CheckStates writes and reads machines with an arbitrary state.
func CheckStates() {
	sym.Bound("machines of up to 2 states, one of which is arbitrary in any one part (two in the thorough tier): up to 3 transition sets of up to 3 transitions with any channel, value and target, and up to 2 verdicts")

	m := &stm.Stm{Tests: structure.NewSet("t")}
	k := 1 + sym.Choice("states", 2)
	at := sym.Choice("arbitrary", k)

	for i := 0; i < k; i++ {
		if i == at {
			m.States = append(m.States, anyState())
		} else {
			m.States = append(m.States, simpleState(i))
		}
	}

	machines(&stm.Suite{Tests: map[string]*stm.Stm{gen.Of("machine", 1, gen.Letters): m}})
	sym.Reach("done")
}

// CheckMachines writes and reads suites of machines.
func CheckMachines() {
	sym.Bound("suites of up to 2 machines with a type and up to 2 tests of theirs, and up to one type (two in the thorough tier) of the suite, with odd names, in all orders of iteration of maps of up to 2 entries")

	s := &stm.Suite{Tests: map[string]*stm.Stm{}, Types: anyTypes(sym.Choice("types", max(2, 3)), odd)}

	for i := sym.Choice("machines", 3); i > 0; i-- {
		m := &stm.Stm{States: []*stm.State{simpleState(i)}, Tests: structure.NewSet("m")}

		if i == 2 {
			m.Tests = structure.NewSet(strs("member", sym.Choice("members", 3), gen.Letters)...)
			m.Types = stm.TypeMap{gen.Of("typed", 1, gen.Letters): typeOf(2)}
		}

		set := gen.Letters
		if i == 1 {
			set = odd
		}

		s.Tests[gen.Of("machine", 1, set)] = m
	}

	sym.MapOrder(2)
	machines(s)
	sym.Reach("done")
}

// extreme are values at the limits of what can be written.
func extreme(i int) value.Value {
	return []value.Value{
		value.Int(-1 << 63), value.Int(1<<63 - 1), value.Int(1<<53 + 1), value.Enum("a constant, that has 64 bytes and is \"quoted\" <or> not & \u2028 so"), value.None(),
	}[i]
}

func copyOf(n *testlang.Node) *testlang.Node { return deep(n) }

// CheckLarge writes and reads large suites.
func CheckLarge() {
	sym.Bound("a suite of 12 tests, one a tree 40 deep with a node of 12 continuations and 12 tests, and a suite of 12 machines, one of 40 states with up to 12 sets of transitions and verdicts, with an arbitrary name in one place, and integers at the limits of 64 bits; and the same with 140 for 40, and 70 for 12")

	deep, wide := 40, 12
	if sym.Choice("huge", 2) == 1 {
		deep, wide = 140, 70
	}

	any := gen.Of("any", 1, odd)
	name := func(i int) string { return "n" + gen.Dec(i) }

	var names []string
	for i := wide - 1; i >= 0; i-- {
		names = append(names, name(i))
	}

	if sym.Choice("machines", 2) == 0 {
		at := []int{0, deep/2 - 1, deep - 1}[sym.Choice("at", 3)]
		n := plain(1)

		for i := deep - 1; i >= 0; i-- {
			next := n
			n = plain(i)
			n.ID = testlang.NodeID(name(i))
			n.Event.Value = extreme(i % 5)

			if i == at {
				n.Tests = append(append([]string{}, names...), any)

				for j := 0; j < wide-1; j++ {
					k := plain(j)
					k.ID = testlang.NodeID(name(j))
					n.Next = append(n.Next, k)
				}
			}

			n.Next = append(n.Next, next)
		}

		s := testlang.Suite{"large": &n}
		for _, m := range names[1:] {
			k := plain(1)
			s[m] = &k
		}

		var w bytes.Buffer

		before := testlang.Suite{}
		for k, n := range s {
			before[k] = copyOf(n)
		}

		sym.Assert(s.Write(&w) == nil, "suites are written")

		back, err := testlang.ReadSuite(&w)
		sym.Assert(err == nil, "written suites are read")
		tests(before, back)
		sym.Reach("tests")

		return
	}

	at := []int{0, deep/2 - 1, deep - 1}[sym.Choice("at", 3)]
	m := &stm.Stm{Tests: structure.NewSet(append([]string{any}, names...)...), Types: stm.TypeMap{}}

	for i := 0; i < deep; i++ {
		st := simpleState(i % 10)
		st.ID = testlang.NodeID(name(i))

		if i == at {
			for j, n := range names {
				set := transition.NewSet(channel.New(n, gen.Kinds[j%3]))

				for k := 0; k <= j; k++ {
					set.Transitions = append(set.Transitions, transition.Transition{Value: extreme(k % 5), Next: testlang.NodeID(name(k))})
				}

				st.TransitionSets = append(st.TransitionSets, set)
				(*st.Verdict)[n] = testlang.Outcome(j % 4)
			}

			st.TransitionSets[wide].Transitions[wide-1].Next = testlang.NodeID(any)
			(*st.Verdict)[any] = testlang.OutcomeFail
		}

		m.States = append(m.States, st)
	}

	s := &stm.Suite{Tests: map[string]*stm.Stm{"large": m}, Types: stm.TypeMap{}}

	for i, n := range names {
		m.Types[n] = typeOf(i % 5)
		s.Types[n] = typeOf((i + 1) % 5)

		if i > 0 {
			s.Tests[n] = &stm.Stm{States: []*stm.State{simpleState(1)}, Tests: structure.NewSet(n)}
		}
	}

	machines(s)
	sym.Reach("machines")
}

// CheckSpelled writes and reads suites with strings that mean something elsewhere.
func CheckSpelled() {
	sym.Bound("a test and a machine all of whose names and constants are any one or two of: escapes of JSON, XML, C and printf, brackets, ampersands, quotes, separators of lines, characters of 2 to 4 bytes, and an arbitrary odd character")

	name := ""

	for i := sym.Choice("pieces", 2) + 1; i > 0; i-- {
		if k := sym.Choice("piece", 17); k < 16 {
			name += []string{
				"\\u003c", "\\u0026", "\\\"", "\\n", "\\\\", "&lt;", "%d", "<", ">", "&", "x\u2028x", "\u00e9", "\ufffd", "\U0001f600", "\"\"", "{}",
			}[k]
		} else {
			name += gen.Of("character", 1, notBlank)
		}
	}

	if sym.Choice("machines", 2) == 0 {
		e := gen.Event(name, gen.Kinds[1], gen.Val{Kind: 2, Enum: name})
		n := testlang.Node{
			Tests: []string{name, "x" + name}, ID: testlang.NodeID(name),
			Next: []testlang.Node{{ID: testlang.NodeID("x" + name), Tests: []string{name}, Outcome: testlang.OutcomeInc, Event: &e}},
		}
		s := testlang.Suite{name: &n}

		var w bytes.Buffer

		before := testlang.Suite{name: deep(&n)}

		sym.Assert(s.Write(&w) == nil, "suites are written")

		back, err := testlang.ReadSuite(&w)
		sym.Assert(err == nil, "written suites are read")
		tests(before, back)
		sym.Reach("tests")

		return
	}

	st := simpleState(1)
	st.ID = testlang.NodeID(name)

	set := transition.NewSet(channel.New(name, gen.Kinds[1]))
	set.Transitions = append(set.Transitions, transition.Transition{Value: value.Enum(name), Next: testlang.NodeID(name)})
	st.TransitionSets = append(st.TransitionSets, set)
	(*st.Verdict)[name] = testlang.OutcomeFail

	machines(&stm.Suite{
		Tests: map[string]*stm.Stm{name: {States: []*stm.State{st}, Tests: structure.NewSet(name), Types: stm.TypeMap{name: typeOf(1)}}},
		Types: stm.TypeMap{name: typeOf(1)},
	})
	sym.Reach("machines")
}

// CheckLongNames writes and reads suites with long names.
func CheckLongNames() {
	sym.Bound("a test and a machine with one name or constant of 5000 or 70000 bytes before two arbitrary ones, in any one place")

	long := strings.Repeat("long ", []int{1000, 14000}[sym.Choice("length", 2)]) + gen.Of("odd", 1, odd) + gen.Of("end", 1, gen.Letters)
	part := func(i, n int) string {
		if i == n {
			return long
		}

		return "p" + gen.Dec(i)
	}

	at := sym.Choice("at", 6)

	if sym.Choice("machines", 2) == 0 {
		e := gen.Event(part(3, at), gen.Kinds[1], gen.Val{Kind: 2, Enum: part(4, at)})
		n := testlang.Node{
			Tests: []string{part(1, at)}, ID: testlang.NodeID(part(2, at)),
			Next: []testlang.Node{{ID: testlang.NodeID(part(5, at)), Outcome: testlang.OutcomeInc, Event: &e}},
		}
		s := testlang.Suite{part(0, at): &n}
		before := testlang.Suite{part(0, at): deep(&n)}

		var w bytes.Buffer

		sym.Assert(s.Write(&w) == nil, "suites are written")

		back, err := testlang.ReadSuite(&w)
		sym.Assert(err == nil, "written suites are read")
		tests(before, back)
		sym.Reach("tests")

		return
	}

	st := simpleState(1)
	st.ID = testlang.NodeID(part(2, at))

	set := transition.NewSet(channel.New(part(3, at), gen.Kinds[1]))
	set.Transitions = append(set.Transitions, transition.Transition{Value: value.Enum(part(4, at)), Next: testlang.NodeID(part(2, at))})
	st.TransitionSets = append(st.TransitionSets, set)
	(*st.Verdict)[part(1, at)] = testlang.OutcomeFail

	machines(&stm.Suite{
		Tests: map[string]*stm.Stm{part(0, at): {States: []*stm.State{st}, Tests: structure.NewSet(part(1, at)), Types: stm.TypeMap{part(5, at): typeOf(1)}}},
		Types: stm.TypeMap{part(3, at): typeOf(1)},
	})
	sym.Reach("machines")
}
