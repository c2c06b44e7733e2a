// Package machine checks the structure of state machines.
package machine

import (
	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

func max(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}

	return quick
}

// tree is a test tree, by number of node.
type tree struct {
	s       *gen.Shape
	outcome []testlang.Outcome
	ch      []channel.Channel
	id      []string
	tests   [][]string
	val     []int64
}

// vary says what is to be arbitrary: 0 the outcomes and tests, 1 the channels, 2 the identifiers, 3 the values.
func anyTree(nodes, vary int) *tree {
	t := &tree{s: gen.AnyShape("shape", nodes)}

	for i := 0; i < nodes; i++ {
		o := testlang.OutcomeInc

		switch {
		case i == 0:
			o = testlang.OutcomeUnset
		case t.s.Leaf(i):
			o = testlang.OutcomeFail
		case len(t.s.Kids[i]) == 1 && (vary != 0 && t.s.Leaf(t.s.Kids[i][0]) || vary == 0 && sym.Choice("pass", 2) == 1):
			o = testlang.OutcomePass
		}

		tests := []string{"a"}
		if vary == 0 && i > 0 {
			tests = [][]string{{"a"}, {"b"}, {"a", "b"}}[sym.Choice("tests", 3)]
		}

		ch := channel.Out("c")
		if vary == 1 {
			k := sym.Byte("direction")
			sym.Assume(k < 3)

			ch = channel.New(gen.Of("channel", 1, gen.Letters), channel.Kind(k))
		}

		id := ""
		if vary == 2 && i > 0 && sym.Choice("given", 2) == 1 {
			id = given()

			for _, j := range t.id {
				sym.Assume(!sym.EqStr(id, j))
			}
		}

		// Otherwise its value tells which node it is.
		val := int64(i)
		if vary == 3 && !t.s.Leaf(i) {
			val = sym.Int64("value")
		}

		t.outcome = append(t.outcome, o)
		t.ch = append(t.ch, ch)
		t.id = append(t.id, id)
		t.tests = append(t.tests, tests)
		t.val = append(t.val, val)
	}

	return t
}

// given is an identifier, like those that are made up, or not.
func given() string {
	if sym.Choice("like", 2) == 1 {
		return "step" + gen.Of("number", 1, gen.Digits)
	}

	return gen.Of("id", 1, gen.Letters)
}

func (t *tree) build(i int) testlang.Node {
	n := testlang.Node{ID: testlang.NodeID(t.id[i]), Outcome: t.outcome[i], Tests: append([]string{}, t.tests[i]...)}

	if n.Outcome == testlang.OutcomeInc || n.Outcome == testlang.OutcomePass {
		e := testlang.Event{Channel: t.ch[i], Value: gen.Val{Kind: 1, Int: t.val[i]}.Value()}
		n.Event = &e
	}

	for _, k := range t.s.Kids[i] {
		n.Next = append(n.Next, t.build(k))
	}

	return n
}

func (t *tree) state(i int) bool { return t.outcome[i] != testlang.OutcomeFail }

func find(m *stm.Stm, id testlang.NodeID) *stm.State {
	var r *stm.State

	n := 0

	for _, s := range m.States {
		if s.ID == id {
			r = s
			n++
		}
	}

	sym.Assert(n == 1, "each identifier that a transition leads to is that of exactly one state")

	return r
}

func (t *tree) check(m *stm.Stm) {
	states := 0

	for i := range t.outcome {
		if t.state(i) {
			states++
		}
	}

	sym.Assert(len(m.States) == states, "there is one state per node that does not fail")

	if len(m.States) == 0 {
		return
	}

	for i, s := range m.States {
		sym.Assert(s.ID != "", "every state has an identifier")

		for _, r := range m.States[:i] {
			sym.Assert(r.ID != s.ID, "identifiers are unique")
		}
	}

	sym.Assert(m.States[0].ID == "initial" && m.InitialState() == "initial", "the first state is called initial")
	t.visit(m, 0, m.States[0])

	// The machine's tests are the union of all.
	want := []string{}

	for _, n := range []string{"a", "b"} {
		for i := 1; i < len(t.tests); i++ {
			if has(t.tests[i], n) {
				want = append(want, n)

				break
			}
		}
	}

	got := m.Tests.Values()
	sym.Assert(len(got) == len(want), "the machine has exactly the tests of its nodes")

	for _, n := range want {
		sym.Assert(has(got, n), "the machine has exactly the tests of its nodes")
	}
}

func has(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}

	return false
}

func (t *tree) visit(m *stm.Stm, i int, s *stm.State) {
	if s == nil {
		return
	}

	if t.id[i] != "" {
		sym.Assert(string(s.ID) == t.id[i], "identifiers that nodes came with are kept")
	}

	// Transitions lead to the continuations that do not fail, grouped by channel in order.
	type group struct {
		ch   channel.Channel
		kids []int
	}

	var want []group

	for _, k := range t.s.Kids[i] {
		if !t.state(k) {
			continue
		}

		at := -1

		for j := range want {
			if want[j].ch == t.ch[k] {
				at = j
			}
		}

		if at < 0 {
			want = append(want, group{t.ch[k], []int{k}})
		} else {
			want[at].kids = append(want[at].kids, k)
		}
	}

	sym.Assert(len(s.TransitionSets) == len(want), "transitions are grouped by channel and direction")

	if len(s.TransitionSets) != len(want) {
		return
	}

	next := map[int]testlang.NodeID{}

	for j := range want {
		g := &s.TransitionSets[j]
		sym.Assert(g.Channel == want[j].ch, "groups come in the order of the continuations")
		sym.Assert(len(g.Transitions) == len(want[j].kids), "there is one transition per continuation that does not fail")

		if len(g.Transitions) != len(want[j].kids) {
			return
		}

		for l, k := range want[j].kids {
			w := gen.Val{Kind: 1, Int: t.val[k]}.Value()
			sym.Assert(g.Transitions[l].Value.Equals(w), "transitions have their continuations' values, in order")
			next[k] = g.Transitions[l].Next
		}
	}

	// Verdicts are those of the continuations.
	verdicts := 0

	for _, test := range []string{"a", "b"} {
		var outs []testlang.Outcome

		for _, k := range t.s.Kids[i] {
			if has(t.tests[k], test) {
				outs = append(outs, t.outcome[k])
			}
		}

		got, ok := (*s.Verdict)[test]
		sym.Assert(ok == (len(outs) > 0), "a state reports for exactly the tests of its continuations")

		if len(outs) == 0 {
			continue
		}

		verdicts++

		one := false
		for _, o := range outs {
			one = one || o == got
		}

		sym.Assert(one, "a state reports its continuations' outcomes")
	}

	sym.Assert(len(*s.Verdict) == verdicts, "a state reports for no other tests")

	for _, k := range t.s.Kids[i] {
		if t.state(k) {
			t.visit(m, k, find(m, next[k]))
		}
	}
}

func (t *tree) run(b *stm.Builder) stm.Stm {
	root := t.build(0)

	v, err := validate.Full(&root)
	if err != nil {
		sym.Assert(false, "the tree is well-formed")
		sym.Stop()
	}

	m, err := b.Build(v)
	sym.Assert(err == nil, "machines are built")

	return m
}

// CheckOutcomes builds machines of trees with any outcomes and tests.
func CheckOutcomes() {
	sym.Bound("every well-formed tree of up to 5 nodes (6 in the thorough tier), with any outcomes and any of two tests or both at any node")

	t := anyTree(1+sym.Choice("nodes", max(5, 6)), 0)

	var b stm.Builder

	m := t.run(&b)
	t.check(&m)
	sym.Reach("done")
}

// CheckChannels builds machines of trees with any channels.
func CheckChannels() {
	sym.Bound("every tree of up to 7 nodes (9 in the thorough tier), with channels of any letter and direction")

	t := anyTree(1+sym.Choice("nodes", max(7, 9)), 1)

	var b stm.Builder

	m := t.run(&b)
	t.check(&m)
	sym.Reach("done")
}

// CheckValues builds machines of trees with any values.
func CheckValues() {
	sym.Bound("every tree of up to 6 nodes (8 in the thorough tier), with any integers as values, equal ones included")

	t := anyTree(1+sym.Choice("nodes", max(6, 8)), 3)

	var b stm.Builder

	m := t.run(&b)
	t.check(&m)
	sym.Reach("done")
}

// CheckIDs builds machines of trees, any nodes of which have identifiers already.
func CheckIDs() {
	sym.Bound("every tree of up to 5 nodes (6 in the thorough tier), any of which have identifiers: a letter, or step and a digit")

	t := anyTree(1+sym.Choice("nodes", max(5, 6)), 2)

	var b stm.Builder

	m := t.run(&b)
	t.check(&m)
	sym.Reach("done")
}

// CheckTwo builds two machines with one builder.
func CheckTwo() {
	sym.Bound("every two trees of up to 3 and 4 nodes, built one after another by one builder, where the nodes of the first may have identifiers")

	t := anyTree(1+sym.Choice("nodes", 3), 2)
	u := anyTree(1+sym.Choice("nodes", 4), 2*sym.Choice("also", 2))

	var b stm.Builder

	m := t.run(&b)
	n := u.run(&b)

	t.check(&m)
	u.check(&n)
	sym.Reach("done")
}

// CheckWide builds machines of long and of broad trees.
func CheckWide() {
	sym.Bound("a line of up to 24, or of 299, events, and a node of up to 24, or of 150, continuations, with some identifiers given")

	n := 3 + sym.Choice("size", 23)
	if n == 25 {
		n = 300
	}

	s := &gen.Shape{Parent: make([]int, n), Kids: make([][]int, n)}
	s.Parent[0] = -1

	deep := sym.Choice("deep", 2) == 1

	for i := 1; i < n; i++ {
		if deep {
			s.Parent[i] = i - 1
		} else {
			// Each continuation passes.
			s.Parent[i] = 0

			if i%2 == 0 {
				s.Parent[i] = i - 1
			}
		}

		s.Kids[s.Parent[i]] = append(s.Kids[s.Parent[i]], i)
	}

	t := &tree{s: s}

	for i := 0; i < n; i++ {
		o := testlang.OutcomeInc

		switch {
		case i == 0:
			o = testlang.OutcomeUnset
		case s.Leaf(i):
			o = testlang.OutcomeFail
		case s.Leaf(s.Kids[i][0]):
			o = testlang.OutcomePass
		}

		id := ""

		switch {
		case n == 300:
			if i == 30 {
				id = "step25" + gen.Of("number", 1, gen.Digits)
			}
		case i == 2:
			id = "step" + gen.Of("number", 1, gen.Digits)
		case i == 3:
			id = "step1" + gen.Of("number", 1, gen.Digits)
		}

		t.outcome = append(t.outcome, o)
		t.ch = append(t.ch, channel.Out("c"))
		t.id = append(t.id, id)
		t.tests = append(t.tests, []string{"a"})
		t.val = append(t.val, int64(i))
	}

	var b stm.Builder

	m := t.run(&b)
	t.check(&m)
	sym.Reach("done")
}
