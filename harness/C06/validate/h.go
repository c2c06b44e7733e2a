// Package validate checks which test trees are accepted.
package validate

import (
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/env"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

type node struct {
	outcome      byte // 0 unset, 1 inc, 2 fail, 3 pass, others undefined
	event, tests bool
	id           string
	kids         []node
}

var outcomes = []testlang.Outcome{testlang.OutcomeUnset, testlang.OutcomeInc, testlang.OutcomeFail, testlang.OutcomePass, 4}

// outcome gives the code's constant for the harness's one, which are the same unless the code's change.
func (n *node) get() testlang.Outcome {
	if n.outcome >= 4 {
		return testlang.Outcome(n.outcome)
	}

	return outcomes[n.outcome]
}

func (n *node) build() testlang.Node {
	r := testlang.Node{ID: testlang.NodeID(n.id), Outcome: testlang.Outcome(n.outcome)}

	if n.event {
		e := gen.Event("e", gen.Kinds[1], gen.Val{Kind: 1, Int: 1})
		r.Event = &e
	}

	if n.tests {
		r.Tests = []string{"t"}
	}

	for i := range n.kids {
		r.Next = append(r.Next, n.kids[i].build())
	}

	return r
}

// ok says whether a subtree is well-formed, without a branch on outcomes.
func (n *node) ok(root bool) bool {
	var here bool

	if root {
		here = sym.And(n.outcome == 0, !n.event && n.tests)
	} else {
		inc := sym.And(n.outcome == 1, n.event && len(n.kids) > 0)
		fail := sym.And(n.outcome == 2, !n.event && len(n.kids) == 0)
		pass := sym.And(n.outcome == 3, n.event && len(n.kids) == 1)
		here = sym.And(n.tests, sym.Or(inc, sym.Or(fail, pass)))
	}

	for i := range n.kids {
		here = sym.And(here, n.kids[i].ok(false))
	}

	return here
}

func fromShape(s *gen.Shape, i int) node {
	n := node{outcome: sym.Byte("outcome"), event: sym.Choice("event", 2) == 1, tests: sym.Choice("tests", 2) == 1}
	for _, k := range s.Kids[i] {
		n.kids = append(n.kids, fromShape(s, k))
	}

	return n
}

func checkFull(n *node) {
	root := n.build()

	t, err := validate.Full(&root)
	sym.Assert((err == nil) == n.ok(true), "a tree is accepted exactly if it is well-formed")

	if err == nil {
		sym.Assert(t != nil && t.Root() == &root, "the accepted tree is the one given")
		sym.Reach("accepted")
	} else {
		sym.Assert(t == nil, "no tree is given with an error")
		sym.Reach("refused")
	}
}

// CheckTrees validates arbitrary trees.
func CheckTrees() {
	sym.Bound("every tree of up to 3 nodes (4 in the thorough tier), each with any outcome, with or without an event and tests, all with the same ID or none")

	max := 3
	if sym.Thorough() {
		max = 4
	}

	n := fromShape(gen.AnyShape("shape", 1+sym.Choice("nodes", max)), 0)

	if sym.Choice("ids", 2) == 1 {
		n.identify("n")
	}

	checkFull(&n)
}

// wellFormed is a tree of the shape in which everything is right, if it can be.
func wellFormed(s *gen.Shape, i int) node {
	n := node{tests: true, event: true}

	switch {
	case i == 0:
		n.event = false
	case s.Leaf(i):
		n.outcome, n.event = 2, false
	case len(s.Kids[i]) == 1 && s.Leaf(s.Kids[i][0]):
		n.outcome = 3
	default:
		n.outcome = 1
	}

	for _, k := range s.Kids[i] {
		n.kids = append(n.kids, wellFormed(s, k))
	}

	return n
}

// identify gives all nodes IDs: they are not looked at, and need not be unique.
func (n *node) identify(id string) {
	n.id = id
	for i := range n.kids {
		n.kids[i].identify(id)
	}
}

func (n *node) at(i *int) *node {
	if *i == 0 {
		return n
	}

	for k := range n.kids {
		*i--

		if r := n.kids[k].at(i); r != nil {
			return r
		}
	}

	return nil
}

// CheckOneNode validates larger trees, well-formed but for one node, in which anything may be.
func CheckOneNode() {
	sym.Bound("every tree of up to 6 nodes (8 in the thorough tier), well-formed but for at most one node that is arbitrary, all with the same ID or none")

	max := 6
	if sym.Thorough() {
		max = 8
	}

	s := gen.AnyShape("shape", 1+sym.Choice("nodes", max))
	n := wellFormed(s, 0)
	i := sym.Choice("node", s.N())
	bad := n.at(&i)
	bad.outcome, bad.event, bad.tests = sym.Byte("outcome"), sym.Choice("event", 2) == 1, sym.Choice("tests", 2) == 1

	if sym.Choice("ids", 2) == 1 {
		n.identify("n")
	}

	checkFull(&n)
}

// CheckBig validates large trees, well-formed but for one node.
func CheckBig() {
	sym.Bound("a line, a star, a comb and a ternary tree of 25 nodes (60 in the thorough tier), and of 300 nodes of which one of seven may be ill-formed, otherwise well-formed but for at most one node that is arbitrary, all with the same ID or none")

	size := 25
	if sym.Thorough() {
		size = 60
	}

	huge := sym.Choice("huge", 2) == 1
	if huge {
		size = 300
	}

	s := gen.BigShape(sym.Choice("shape", gen.BigShapes), size)
	n := wellFormed(s, 0)
	i := 0

	if huge {
		i = []int{0, 1, 100, 200, 257, 298, 299}[sym.Choice("node", 7)]
	} else {
		i = sym.Choice("node", s.N())
	}

	bad := n.at(&i)
	bad.outcome, bad.event, bad.tests = sym.Byte("outcome"), sym.Choice("event", 2) == 1, sym.Choice("tests", 2) == 1

	if sym.Choice("ids", 2) == 1 {
		n.identify("n")
	}

	checkFull(&n)
}

// CheckSuite validates suites, in which any one tree may have an arbitrary node.
func CheckSuite() {
	sym.Bound("suites of up to 3 tests of one or two events, with an arbitrary node anywhere in one of them, in all orders of iteration")
	sym.MapOrder(3)

	var (
		suite = testlang.Suite{}
		ok    = true
		k     = 1 + sym.Choice("tests", 3)
		at    = sym.Choice("test", k)
		shape = gen.AnyShape("shape", 3+sym.Choice("nodes", 2))
	)

	for i := 0; i < k; i++ {
		n := wellFormed(shape, 0)

		if i == at {
			j := sym.Choice("node", shape.N())
			bad := n.at(&j)
			bad.outcome, bad.event, bad.tests = sym.Byte("outcome"), sym.Choice("event", 2) == 1, sym.Choice("tests at", 2) == 1
		}

		ok = sym.And(ok, n.ok(true))
		r := n.build()
		suite[string(rune('a'+i))] = &r
	}

	got, err := validate.FullSuite(suite)
	sym.Assert((err == nil) == ok, "a suite is accepted exactly if all its trees are well-formed")

	if err != nil {
		sym.Assert(len(got) == 0, "no suite is given with an error")
		sym.Reach("refused")

		return
	}

	sym.Assert(len(got) == k, "every test of the suite is in the result")

	for n, r := range suite {
		sym.Assert(got[n] != nil && got[n].Root() == r, "every test of the suite keeps its name")
	}

	sym.Reach("accepted")
}

// CheckParts looks at the conditions of single nodes.
func CheckParts() {
	sym.Bound("single nodes with any outcome, with or without an event and tests, and up to 2 continuations")

	n := node{outcome: sym.Byte("outcome"), event: sym.Choice("event", 2) == 1, tests: sym.Choice("tests", 2) == 1}
	for i := sym.Choice("continuations", 3); i > 0; i-- {
		n.kids = append(n.kids, node{outcome: 2, tests: true})
	}

	r := n.build()
	sym.Assert((validate.Root(&r) == nil) == n.ok(true), "a node is a root exactly if it has no event, no outcome, and tests")
	sym.Assert((validate.Node(&r) == nil) == n.ok(false), "a node is well-formed exactly if its parts go with its outcome")

	one, err := validate.OneNext(&r)
	sym.Assert((err == nil) == (len(n.kids) == 1), "there is one next node exactly if there is one")

	if err == nil {
		sym.Assert(one == &r.Next[0], "the next node is the one there is")
		sym.Reach("one")
	}
}

// json writes the suite as JSON, by hand.
func (n *node) json(sb *strings.Builder) {
	sb.WriteString("{")

	sep := ""
	put := func(s string) { sb.WriteString(sep + s); sep = "," }

	if n.id != "" {
		put(`"id":"` + n.id + `"`)
	}

	if n.outcome != 0 {
		put(`"outcome":"` + []string{"unset", "inc", "fail", "pass", "nonsense"}[n.outcome] + `"`)
	}

	if n.event {
		put(`"event":"e.out.1"`)
	}

	if n.tests {
		put(`"tests":["t"]`)
	}

	if len(n.kids) > 0 {
		put(`"next":[`)

		for i := range n.kids {
			if i > 0 {
				sb.WriteString(",")
			}

			n.kids[i].json(sb)
		}

		sb.WriteString("]")
	}

	sb.WriteString("}")
}

// CheckTool has the tool read suites with an arbitrary node.
func CheckTool() {
	sym.Bound("JSON suites of two tests of up to 4 nodes, with an arbitrary node anywhere in one, all with the same ID or none, through rtcg-make-stms")

	s := gen.AnyShape("shape", 3+sym.Choice("nodes", 2))
	n, m := wellFormed(s, 0), wellFormed(s, 0)
	j := sym.Choice("node", s.N())
	bad := n.at(&j)
	bad.outcome, bad.event, bad.tests = byte(sym.Choice("outcome", 5)), sym.Choice("event", 2) == 1, sym.Choice("tests", 2) == 1

	var sb strings.Builder

	sb.WriteString(`{"a":`)

	if sym.Choice("first", 2) == 1 {
		n, m = m, n
	}

	if sym.Choice("ids", 2) == 1 {
		n.identify("x")
		m.identify("x")
	}

	n.json(&sb)
	sb.WriteString(`,"b":`)
	m.json(&sb)
	sb.WriteString("}")

	env.Reset()

	r := env.Run("rtcg-make-stms", nil, sb.String())
	if n.ok(true) && m.ok(true) {
		sym.Assert(r.Code == 0 && r.Out != "", "the tool accepts well-formed suites")
		sym.Reach("accepted")
	} else {
		sym.Assert(r.Code != 0, "the tool refuses suites with an ill-formed node")
		sym.Assert(r.Out == "" && r.Err != "", "the tool says why, and writes nothing else")
		sym.Reach("refused")
	}
}
