package gen

import "github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"

// Shape is the shape of an ordered tree, whose nodes are numbered in pre-order.
type Shape struct {
	Parent []int
	Kids   [][]int
}

// N is the number of nodes.
func (s *Shape) N() int { return len(s.Parent) }

// Leaf says whether a node has no children.
func (s *Shape) Leaf(i int) bool { return len(s.Kids[i]) == 0 }

// AnyShape is any tree of exactly n nodes.
func AnyShape(name string, n int) *Shape {
	s := &Shape{Parent: make([]int, n), Kids: make([][]int, n)}
	path := []int{0}
	s.Parent[0] = -1

	for i := 1; i < n; i++ {
		// The parent is on the path to the node before.
		d := sym.Choice(name, len(path))
		p := path[d]
		s.Parent[i] = p
		s.Kids[p] = append(s.Kids[p], i)
		path = append(path[:d+1:d+1], i)
	}

	return s
}

// BigShapes is the number of kinds of big shapes.
const BigShapes = 4

// BigShape is a tree of n nodes: a line, a star, a line with a leaf off each of its nodes, or a tree with three children to a node.
func BigShape(kind, n int) *Shape {
	parent := make([]int, n)
	parent[0] = -1

	for i := 1; i < n; i++ {
		switch kind {
		case 0:
			parent[i] = i - 1
		case 1:
			parent[i] = 0
		case 2:
			// The odd nodes are the leaves, before the rest of the line.
			parent[i] = (i - 1) / 2 * 2
		default:
			parent[i] = (i - 1) / 3
		}
	}

	// Number the nodes in pre-order.
	kids := make([][]int, n)
	for i := 1; i < n; i++ {
		kids[parent[i]] = append(kids[parent[i]], i)
	}

	s := &Shape{}
	s.add(kids, 0, -1)

	return s
}

func (s *Shape) add(kids [][]int, i, parent int) {
	me := len(s.Parent)
	s.Parent = append(s.Parent, parent)
	s.Kids = append(s.Kids, nil)

	for _, k := range kids[i] {
		s.Kids[me] = append(s.Kids[me], len(s.Parent))
		s.add(kids, k, me)
	}
}
