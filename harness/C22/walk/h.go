// Package walk checks the order in which trees are walked.
package walk

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

var (
	errStop = errors.New("stop")

	// Errors which mean something to other packages mean nothing here.
	others = []error{io.EOF, fs.SkipDir, fs.SkipAll, context.Canceled, io.ErrUnexpectedEOF, fs.ErrNotExist, errors.ErrUnsupported, fmt.Errorf("wrapped: %w", fs.SkipDir)}
)

func build(s *gen.Shape, ids []string, i int) testlang.Node {
	n := testlang.Node{ID: testlang.NodeID(ids[i]), Tests: []string{"old"}}
	for _, k := range s.Kids[i] {
		n.Next = append(n.Next, build(s, ids, k))
	}

	return n
}

func tree() (*gen.Shape, []string, *testlang.Node) {
	max := 6
	if sym.Thorough() {
		max = 8
	}

	s := gen.AnyShape("shape", 1+sym.Choice("nodes", max))
	ids := make([]string, s.N())

	for i := range ids {
		ids[i] = gen.Of("id", 2, gen.IdentCs)
	}

	n := build(s, ids, 0)

	return s, ids, &n
}

// CheckWalk walks trees, with an error at any node or none.
func CheckWalk() {
	sym.Bound("every tree of up to 6 nodes (8 in the thorough tier) with arbitrary identifiers, and an error at any visit or none (in trees of up to 3 nodes, one of 8 well-known errors or another)")

	s, ids, root := tree()
	walk(s, ids, root)
}

func big() (*gen.Shape, []string, *testlang.Node) {
	s := gen.BigShape(sym.Choice("shape", gen.BigShapes), 300)
	ids := make([]string, s.N())

	for i := range ids {
		ids[i] = gen.Dec(i)
	}

	n := build(s, ids, 0)

	return s, ids, &n
}

// CheckBig walks and marks large trees.
func CheckBig() {
	sym.Bound("a line, a star, a comb and a ternary tree of 300 nodes, with an error at any visit or none, and marked with 70 tests")

	s, ids, root := big()
	if sym.Choice("mark", 2) == 0 {
		walk(s, ids, root)

		return
	}

	tests := make([]string, 70)
	for i := range tests {
		tests[i] = "t" + gen.Dec(i)
	}

	testlang.MarkAll(root, tests...)
	marked(s, ids, tests, root, 0)
	sym.Reach("marked")
}

func walk(s *gen.Shape, ids []string, root *testlang.Node) {
	fail := errStop

	if s.N() <= 3 {
		if k := sym.Choice("error", 1+len(others)); k > 0 {
			fail = others[k-1]
		}
	}

	stop := sym.Int64("stop")
	sym.Assume(sym.And(stop >= 0, stop <= int64(s.N())))

	var seen []*testlang.Node

	err := testlang.Walk(root, func(n *testlang.Node) error {
		seen = append(seen, n)

		if int64(len(seen)-1) == stop {
			return fail
		}

		return nil
	})

	want := s.N()

	if stop < int64(s.N()) {
		want = int(stop) + 1
		sym.Assert(err == fail, "the error of the function is returned")
		sym.Reach("error")
	} else {
		sym.Assert(err == nil, "no error if the function gives none")
		sym.Reach("whole")
	}

	sym.Assert(len(seen) == want, "every node is visited once, up to the first error")

	if len(seen) != want {
		return
	}

	for i, n := range seen {
		sym.Assert(string(n.ID) == ids[i], "nodes are visited in pre-order")
	}

	// What is visited is the tree, not a copy of it.
	sym.Assert(seen[0] == root, "the root itself is visited")
	same(s, seen, 0)
}

func same(s *gen.Shape, seen []*testlang.Node, i int) {
	if i >= len(seen) {
		return
	}

	for j, k := range s.Kids[i] {
		if k < len(seen) {
			sym.Assert(seen[k] == &seen[i].Next[j], "the nodes of the tree themselves are visited")
			same(s, seen, k)
		}
	}
}

// CheckMark marks trees.
func CheckMark() {
	sym.Bound("every tree of up to 6 nodes (8 in the thorough tier), and up to 2 tests of 2 arbitrary bytes")

	s, ids, root := tree()
	tests := make([]string, sym.Choice("tests", 3))

	for i := range tests {
		tests[i] = sym.Str("test", 2)
	}

	// Another tree has its tests in the same memory.
	other := *root
	clone(&other)
	testlang.MarkAll(root, tests...)
	marked(s, ids, tests, root, 0)
	marked(s, ids, []string{"old"}, &other, 0)
	sym.Reach("marked")
}

// clone copies what is below a node, but for tests.
func clone(n *testlang.Node) {
	n.Next = append([]testlang.Node(nil), n.Next...)
	for i := range n.Next {
		clone(&n.Next[i])
	}
}

func marked(s *gen.Shape, ids, tests []string, n *testlang.Node, i int) {
	sym.Assert(len(n.Tests) == len(tests), "every node has exactly the given tests")

	if len(n.Tests) == len(tests) {
		for j, t := range n.Tests {
			sym.Assert(t == tests[j], "every node has exactly the given tests")
		}
	}

	sym.Assert(string(n.ID) == ids[i] && len(n.Next) == len(s.Kids[i]), "marking changes nothing else")

	for j, k := range s.Kids[i] {
		marked(s, ids, tests, &n.Next[j], k)
	}
}
