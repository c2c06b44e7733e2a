package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term: a bit-vector of width w, or a Bool if w is 0.
type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	val     uint64
	name    string
	id      int32
	bvar    *Term // the one 8-bit variable this term depends on, if that is all it depends on
	nvars   int8  // 0 none, 1 exactly one variable, 2 several
	set     *byteSet
	vars    []*Term // all variables, sorted by id (lazily computed)
	evGen   uint32
	evVal   uint64
	dom     byteSet // of an 8-bit variable, on the current path
	domGen  uint32
	ent     bool
}

type byteSet [4]uint64

func (s *byteSet) has(i int) bool { return s[i>>6]>>(uint(i)&63)&1 != 0 }
func (s *byteSet) add(i int)      { s[i>>6] |= 1 << (uint(i) & 63) }
func (s *byteSet) empty() bool    { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s *byteSet) full() bool     { return s[0]&s[1]&s[2]&s[3] == ^uint64(0) }
func (s *byteSet) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s byteSet) and(o byteSet) byteSet {
	return byteSet{s[0] & o[0], s[1] & o[1], s[2] & o[2], s[3] & o[3]}
}
func (s byteSet) or(o byteSet) byteSet {
	return byteSet{s[0] | o[0], s[1] | o[1], s[2] | o[2], s[3] | o[3]}
}
func (s byteSet) not() byteSet { return byteSet{^s[0], ^s[1], ^s[2], ^s[3]} }

var fullSet = byteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

// Op is a term operator.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpSet // Bool: a (8-bit variable) is in set
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpBvNot
	OpNeg
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpBvAnd
	OpBvOr
	OpBvXor
	OpShl
	OpLshr
	OpAshr
	OpZext
	OpSext
	OpTrunc // low w bits

	// Floating point: operands and results are the bits of the numbers.
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFLt
	OpFLe
	OpFEq
	OpFromS // of an integer
	OpFromU
	OpFToS // to 64 bits, as the processor does
	OpFToF
)

var opNames = [...]string{"const", "var", "set", "not", "and", "or", "ite", "=", "bvult", "bvule", "bvslt", "bvsle", "bvnot", "bvneg",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr",
	"zext", "sext", "trunc", "fp.add", "fp.sub", "fp.mul", "fp.div", "fp.lt", "fp.leq", "fp.eq", "to_fp", "to_fp_unsigned", "fp.to_sbv", "to_fp"}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
	name    string
	set     byteSet
}

// Terms is a term factory.
type Terms struct {
	tab   map[termKey]*Term
	n     int32
	gen   uint32
	True  *Term
	False *Term
}

func newTerms() *Terms {
	ts := &Terms{tab: map[termKey]*Term{}}
	ts.False = ts.raw(OpConst, 0, nil, nil, nil, 0, "", nil)
	ts.True = ts.raw(OpConst, 0, nil, nil, nil, 1, "", nil)

	return ts
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}

	return t.id
}

func (ts *Terms) raw(op Op, w uint8, a, b, c *Term, val uint64, name string, set *byteSet) *Term {
	k := termKey{op, w, tid(a), tid(b), tid(c), val, name, byteSet{}}
	if set != nil {
		k.set = *set
	}

	if t, ok := ts.tab[k]; ok {
		return t
	}

	t := &Term{op: op, w: w, a: a, b: b, c: c, val: val, name: name, id: ts.n, set: set}
	ts.n++

	if op == OpVar {
		t.nvars = 1
		if w == 8 {
			t.bvar = t
		}

		t.vars = []*Term{t}
	} else {
		var one *Term

		for _, x := range []*Term{a, b, c} {
			if x == nil || x.nvars == 0 {
				continue
			}

			if x.nvars == 2 {
				t.nvars = 2

				break
			}

			xv := x.varList()[0]
			if one == nil {
				one = xv
				t.nvars = 1
			} else if one != xv {
				t.nvars = 2

				break
			}
		}

		if t.nvars == 1 {
			t.vars = []*Term{one}
			if one.w == 8 {
				t.bvar = one
			}
		}
	}

	ts.tab[k] = t

	return t
}

func (t *Term) varList() []*Term {
	if t.vars != nil || t.nvars == 0 {
		return t.vars
	}

	var acc []*Term

	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			acc = mergeVars(acc, x.varList())
		}
	}

	t.vars = acc

	return acc
}

func mergeVars(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}

	if len(b) == 0 {
		return a
	}

	out := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0

	for i < len(a) && j < len(b) {
		switch {
		case a[i].id < b[j].id:
			out = append(out, a[i])
			i++
		case a[i].id > b[j].id:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}

	out = append(out, a[i:]...)

	return append(out, b[j:]...)
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}

	return 1<<w - 1
}

func sx(v uint64, w uint8) int64 {
	return int64(v<<(64-w)) >> (64 - w)
}

// Const makes a bit-vector constant.
func (ts *Terms) Const(v uint64, w uint8) *Term {
	return ts.raw(OpConst, w, nil, nil, nil, v&mask(w), "", nil)
}

// Bool makes a Boolean constant.
func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.True
	}

	return ts.False
}

// Var makes (or finds) a variable.
func (ts *Terms) Var(name string, w uint8) *Term {
	return ts.raw(OpVar, w, nil, nil, nil, 0, name, nil)
}

// varByName finds a variable by its name, which ends in ":width".
func (ts *Terms) varByName(name string) *Term {
	i := strings.LastIndexByte(name, ':')
	w, err := strconv.Atoi(name[i+1:])

	if i < 0 || err != nil {
		panic(engineErr{"bad variable name " + name})
	}

	return ts.Var(name, uint8(w))
}

func (t *Term) isConst() bool { return t.op == OpConst }

// evalOp computes op on constants.
func evalOp(op Op, w uint8, aw uint8, a, b, c uint64) uint64 {
	b2u := func(x bool) uint64 {
		if x {
			return 1
		}

		return 0
	}

	m := mask(w)

	switch op {
	case OpNot:
		return a ^ 1
	case OpAnd:
		return a & b
	case OpOr:
		return a | b
	case OpIte:
		if a != 0 {
			return b
		}

		return c
	case OpEq:
		return b2u(a == b)
	case OpUlt:
		return b2u(a < b)
	case OpUle:
		return b2u(a <= b)
	case OpSlt:
		return b2u(sx(a, aw) < sx(b, aw))
	case OpSle:
		return b2u(sx(a, aw) <= sx(b, aw))
	case OpBvNot:
		return ^a & m
	case OpNeg:
		return -a & m
	case OpAdd:
		return (a + b) & m
	case OpSub:
		return (a - b) & m
	case OpMul:
		return (a * b) & m
	case OpUdiv:
		if b == 0 {
			return m
		}

		return a / b
	case OpUrem:
		if b == 0 {
			return a
		}

		return a % b
	case OpSdiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}

			return m
		}

		if y == -1 {
			return uint64(-x) & m
		}

		return uint64(x/y) & m
	case OpSrem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}

		if y == -1 {
			return 0
		}

		return uint64(x%y) & m
	case OpBvAnd:
		return a & b
	case OpBvOr:
		return a | b
	case OpBvXor:
		return a ^ b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}

		return a << b & m
	case OpLshr:
		if b >= uint64(w) {
			return 0
		}

		return a >> b
	case OpAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}

		return uint64(sx(a, w)>>b) & m
	case OpZext:
		return a
	case OpSext:
		return uint64(sx(a, aw)) & m
	case OpTrunc:
		return a & m
	case OpFAdd:
		return floatBits(bitsFloat(a, w)+bitsFloat(b, w), w)
	case OpFSub:
		return floatBits(bitsFloat(a, w)-bitsFloat(b, w), w)
	case OpFMul:
		return floatBits(bitsFloat(a, w)*bitsFloat(b, w), w)
	case OpFDiv:
		return floatBits(bitsFloat(a, w)/bitsFloat(b, w), w)
	case OpFLt:
		return b2u(bitsFloat(a, aw) < bitsFloat(b, aw))
	case OpFLe:
		return b2u(bitsFloat(a, aw) <= bitsFloat(b, aw))
	case OpFEq:
		return b2u(bitsFloat(a, aw) == bitsFloat(b, aw))
	case OpFromS:
		if w == 32 {
			return uint64(math.Float32bits(float32(sx(a, aw))))
		}

		return math.Float64bits(float64(sx(a, aw)))
	case OpFromU:
		if w == 32 {
			return uint64(math.Float32bits(float32(a)))
		}

		return math.Float64bits(float64(a))
	case OpFToS:
		f := bitsFloat(a, aw)
		if f >= -0x1p63 && f < 0x1p63 {
			return uint64(int64(f))
		}

		return 1 << 63
	case OpFToF:
		return floatBits(bitsFloat(a, aw), w)
	}

	panic("evalOp: " + opNames[op])
}

func bitsFloat(n uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(n)))
	}

	return math.Float64frombits(n)
}

// floatBits rounds: for sums, products and quotients of 32 bits, doing so twice makes no difference.
func floatBits(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}

	return math.Float64bits(f)
}

// Model assigns values to variables; those absent are 0.
type Model map[*Term]uint64

// Eval evaluates t under m. Bump must be called when the model changes.
func (ts *Terms) Eval(t *Term, m Model) uint64 {
	ts.gen++

	return ts.eval(t, m)
}

func (ts *Terms) eval(t *Term, m Model) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpVar:
		return m[t]
	case OpSet:
		if t.set.has(int(m[t.a])) {
			return 1
		}

		return 0
	}

	if t.evGen == ts.gen {
		return t.evVal
	}

	var r uint64

	switch t.op {
	case OpIte:
		if ts.eval(t.a, m) != 0 {
			r = ts.eval(t.b, m)
		} else {
			r = ts.eval(t.c, m)
		}
	case OpAnd:
		if ts.eval(t.a, m) == 0 {
			r = 0
		} else {
			r = ts.eval(t.b, m)
		}
	case OpOr:
		if ts.eval(t.a, m) != 0 {
			r = 1
		} else {
			r = ts.eval(t.b, m)
		}
	default:
		a := ts.eval(t.a, m)

		var b uint64
		if t.b != nil {
			b = ts.eval(t.b, m)
		}

		r = evalOp(t.op, t.w, t.a.w, a, b, 0)
	}

	t.evGen, t.evVal = ts.gen, r

	return r
}

// byteTab computes t's value for each value of its one byte variable.
func (ts *Terms) byteTab(t *Term) [256]uint64 {
	var r [256]uint64

	m := Model{}

	for i := range r {
		m[t.bvar] = uint64(i)
		r[i] = ts.Eval(t, m)
	}

	return r
}

func (ts *Terms) mkSet(v *Term, s byteSet) *Term {
	if s.empty() {
		return ts.False
	}

	if s.full() {
		return ts.True
	}

	return ts.raw(OpSet, 0, v, nil, nil, 0, "", &s)
}

// mk builds op(a,b,c), after simplification, with result width w.
func (ts *Terms) mk(op Op, w uint8, a, b, c *Term) *Term {
	// Constant folding.
	if a.isConst() && (b == nil || b.isConst()) && (c == nil || c.isConst()) {
		var bv, cv uint64
		if b != nil {
			bv = b.val
		}

		if c != nil {
			cv = c.val
		}

		return ts.raw(OpConst, w, nil, nil, nil, evalOp(op, w, a.w, a.val, bv, cv), "", nil)
	}

	if t := ts.simp(op, w, a, b, c); t != nil {
		return t
	}

	if (op == OpEq || op == OpAdd || op == OpMul || op == OpBvAnd || op == OpBvOr || op == OpBvXor || op == OpAnd || op == OpOr) && a.id > b.id {
		a, b = b, a
	}

	t := ts.raw(op, w, a, b, c, 0, "", nil)

	if w == 0 && t.bvar != nil {
		// Canonicalise predicates on one byte to a set of values.
		var s byteSet

		tab := ts.byteTab(t)
		for i, v := range tab {
			if v != 0 {
				s.add(i)
			}
		}

		return ts.mkSet(t.bvar, s)
	}

	if w > 0 && t.bvar != nil && op != OpZext {
		tab := ts.byteTab(t)
		same := true

		for _, v := range tab[1:] {
			if v != tab[0] {
				same = false

				break
			}
		}

		if same {
			return ts.Const(tab[0], w)
		}
	}

	return t
}

func (ts *Terms) simp(op Op, w uint8, a, b, c *Term) *Term {
	switch op {
	case OpNot:
		switch a.op {
		case OpNot:
			return a.a
		case OpSet:
			return ts.mkSet(a.a, a.set.not())
		}
	case OpAnd:
		switch {
		case a == b, b == ts.True:
			return a
		case a == ts.True:
			return b
		case a == ts.False || b == ts.False:
			return ts.False
		case a.op == OpSet && b.op == OpSet && a.a == b.a:
			return ts.mkSet(a.a, a.set.and(*b.set))
		case a.op == OpNot && a.a == b, b.op == OpNot && b.a == a:
			return ts.False
		}
	case OpOr:
		switch {
		case a == b, b == ts.False:
			return a
		case a == ts.False:
			return b
		case a == ts.True || b == ts.True:
			return ts.True
		case a.op == OpSet && b.op == OpSet && a.a == b.a:
			return ts.mkSet(a.a, a.set.or(*b.set))
		case a.op == OpNot && a.a == b, b.op == OpNot && b.a == a:
			return ts.True
		}
	case OpIte:
		switch {
		case a == ts.True:
			return b
		case a == ts.False:
			return c
		case b == c:
			return b
		case w == 0:
			return ts.Or(ts.And(a, b), ts.And(ts.Not(a), c))
		case a.op == OpNot:
			return ts.mk(OpIte, w, a.a, c, b)
		}
	case OpEq:
		if a == b {
			return ts.True
		}

		if a.w == 0 {
			if a.isConst() {
				a, b = b, a
			}

			if b == ts.True {
				return a
			}

			if b == ts.False {
				return ts.Not(a)
			}
		}

		if a.isConst() {
			a, b = b, a
		}

		if b.isConst() {
			switch a.op {
			case OpZext:
				if b.val > mask(a.a.w) {
					return ts.False
				}

				return ts.Eq(a.a, ts.Const(b.val, a.a.w))
			case OpSext:
				if uint64(sx(b.val&mask(a.a.w), a.a.w))&mask(a.w) != b.val {
					return ts.False
				}

				return ts.Eq(a.a, ts.Const(b.val, a.a.w))
			case OpIte:
				if a.b.isConst() || a.c.isConst() {
					return ts.mk(OpIte, 0, a.a, ts.Eq(a.b, b), ts.Eq(a.c, b))
				}
			case OpAdd:
				if a.a.isConst() {
					return ts.Eq(a.b, ts.Const(b.val-a.a.val, a.w))
				}

				if a.b.isConst() {
					return ts.Eq(a.a, ts.Const(b.val-a.b.val, a.w))
				}
			case OpSub:
				if a.b.isConst() {
					return ts.Eq(a.a, ts.Const(b.val+a.b.val, a.w))
				}
			}
		} else if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
			return ts.Eq(a.a, b.a)
		} else if a.op == OpSext && b.op == OpSext && a.a.w == b.a.w {
			return ts.Eq(a.a, b.a)
		}
	case OpUlt, OpUle, OpSlt, OpSle:
		if a == b {
			return ts.Bool(op == OpUle || op == OpSle)
		}

		if op == OpUlt && b.isConst() && b.val == 0 {
			return ts.False
		}

		if op == OpUle && a.isConst() && a.val == 0 {
			return ts.True
		}

		// Zero-extended operands compare unsigned at their own width.
		if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
			return ts.mk(unsignedOp(op), 0, a.a, b.a, nil)
		}

		if a.op == OpZext && b.isConst() {
			m := mask(a.a.w)
			neg := (op == OpSlt || op == OpSle) && sx(b.val, b.w) < 0

			switch {
			case neg:
				return ts.False
			case b.val > m:
				return ts.True
			default:
				return ts.mk(unsignedOp(op), 0, a.a, ts.Const(b.val, a.a.w), nil)
			}
		}

		if b.op == OpZext && a.isConst() {
			m := mask(b.a.w)
			neg := (op == OpSlt || op == OpSle) && sx(a.val, a.w) < 0

			switch {
			case neg:
				return ts.True
			case a.val > m:
				return ts.False
			default:
				return ts.mk(unsignedOp(op), 0, ts.Const(a.val, b.a.w), b.a, nil)
			}
		}
	case OpAdd:
		if a.isConst() {
			a, b = b, a
		}

		if b.isConst() {
			if b.val == 0 {
				return a
			}

			if a.op == OpAdd && a.b.isConst() {
				return ts.Add(a.a, ts.Const(a.b.val+b.val, w))
			}

			if a.op == OpAdd && a.a.isConst() {
				return ts.Add(a.b, ts.Const(a.a.val+b.val, w))
			}
		}
	case OpSub:
		if a == b {
			return ts.Const(0, w)
		}

		if b.isConst() {
			return ts.Add(a, ts.Const(-b.val, w))
		}
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}

		if b.isConst() {
			switch b.val {
			case 0:
				return b
			case 1:
				return a
			}
		}
	case OpBvAnd:
		if a == b {
			return a
		}

		if a.isConst() {
			a, b = b, a
		}

		if b.isConst() {
			if b.val == 0 {
				return b
			}

			if b.val == mask(w) {
				return a
			}

			if a.op == OpZext && b.val&mask(a.a.w) == mask(a.a.w) {
				return a
			}
		}
	case OpBvOr, OpBvXor:
		if a.isConst() {
			a, b = b, a
		}

		if b.isConst() && b.val == 0 {
			return a
		}

		if a == b {
			if op == OpBvOr {
				return a
			}

			return ts.Const(0, w)
		}
	case OpShl, OpLshr, OpAshr:
		if b.isConst() && b.val == 0 {
			return a
		}

		if b.isConst() && b.val >= uint64(w) && op != OpAshr {
			return ts.Const(0, w)
		}

		if op == OpLshr && a.op == OpZext && b.isConst() && b.val >= uint64(a.a.w) {
			return ts.Const(0, w)
		}
	case OpZext:
		if a.w == w {
			return a
		}

		if a.op == OpZext {
			return ts.mk(OpZext, w, a.a, nil, nil)
		}
	case OpSext:
		if a.w == w {
			return a
		}

		if a.op == OpZext {
			return ts.mk(OpZext, w, a.a, nil, nil)
		}

		if a.op == OpSext {
			return ts.mk(OpSext, w, a.a, nil, nil)
		}
	case OpTrunc:
		if a.w == w {
			return a
		}

		switch a.op {
		case OpZext, OpSext:
			switch {
			case a.a.w == w:
				return a.a
			case a.a.w > w:
				return ts.mk(OpTrunc, w, a.a, nil, nil)
			default:
				return ts.mk(a.op, w, a.a, nil, nil)
			}
		case OpTrunc:
			return ts.mk(OpTrunc, w, a.a, nil, nil)
		case OpIte:
			if a.b.isConst() || a.c.isConst() {
				return ts.mk(OpIte, w, a.a, ts.mk(OpTrunc, w, a.b, nil, nil), ts.mk(OpTrunc, w, a.c, nil, nil))
			}
		}
	}

	return nil
}

func unsignedOp(op Op) Op {
	switch op {
	case OpSlt:
		return OpUlt
	case OpSle:
		return OpUle
	}

	return op
}

// Shorthands.
func (ts *Terms) Not(a *Term) *Term    { return ts.mk(OpNot, 0, a, nil, nil) }
func (ts *Terms) And(a, b *Term) *Term { return ts.mk(OpAnd, 0, a, b, nil) }
func (ts *Terms) Or(a, b *Term) *Term  { return ts.mk(OpOr, 0, a, b, nil) }
func (ts *Terms) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Eq: widths %d %d", a.w, b.w))
	}

	return ts.mk(OpEq, 0, a, b, nil)
}
func (ts *Terms) Add(a, b *Term) *Term    { return ts.mk(OpAdd, a.w, a, b, nil) }
func (ts *Terms) Ult(a, b *Term) *Term    { return ts.mk(OpUlt, 0, a, b, nil) }
func (ts *Terms) Ite(c, a, b *Term) *Term { return ts.mk(OpIte, a.w, c, a, b) }

// smtRef gives the SMT-LIB text that refers to t (its defined name or literal).
func smtRef(t *Term) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}

			return "false"
		}

		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.w/4, t.val)
		}

		return fmt.Sprintf("#b%0*b", t.w, t.val)
	case OpVar:
		return "|" + t.name + "|"
	}

	return fmt.Sprintf("t%d", t.id)
}

// smtDef gives the SMT-LIB text of t's body, in terms of its operands' references.
func smtDef(t *Term) string {
	switch t.op {
	case OpSet:
		var sb strings.Builder

		sb.WriteString("(or false")

		v := smtRef(t.a)

		for i := 0; i < 256; i++ {
			if !t.set.has(i) {
				continue
			}

			j := i
			for j+1 < 256 && t.set.has(j+1) {
				j++
			}

			if i == j {
				fmt.Fprintf(&sb, " (= %s #x%02x)", v, i)
			} else {
				fmt.Fprintf(&sb, " (and (bvule #x%02x %s) (bvule %s #x%02x))", i, v, v, j)
			}

			i = j
		}

		sb.WriteString(")")

		return sb.String()
	case OpZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, smtRef(t.a))
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, smtRef(t.a))
	case OpTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, smtRef(t.a))
	}

	if t.op >= OpFAdd {
		return smtFloat(t)
	}

	s := "(" + opNames[t.op] + " " + smtRef(t.a)
	if t.b != nil {
		s += " " + smtRef(t.b)
	}

	if t.c != nil {
		s += " " + smtRef(t.c)
	}

	return s + ")"
}

func smtFP(w uint8) string {
	if w == 32 {
		return "(_ to_fp 8 24)"
	}

	return "(_ to_fp 11 53)"
}

func smtFloat(t *Term) string {
	arg := func(x *Term) string { return "(" + smtFP(x.w) + " " + smtRef(x) + ")" }

	switch t.op {
	case OpFLt, OpFLe, OpFEq:
		return "(" + opNames[t.op] + " " + arg(t.a) + " " + arg(t.b) + ")"
	case OpFromS:
		return "(fp.to_ieee_bv (" + smtFP(t.w) + " RNE " + smtRef(t.a) + "))"
	case OpFromU:
		return "(fp.to_ieee_bv (" + strings.Replace(smtFP(t.w), "to_fp", "to_fp_unsigned", 1) + " RNE " + smtRef(t.a) + "))"
	case OpFToF:
		return "(fp.to_ieee_bv (" + smtFP(t.w) + " RNE " + arg(t.a) + "))"
	case OpFToS:
		lim := func(f float64) string {
			return fmt.Sprintf("(%s #x%0*x)", smtFP(t.a.w), t.a.w/4, floatBits(f, t.a.w))
		}

		x := arg(t.a)

		return "(ite (and (fp.leq " + lim(-0x1p63) + " " + x + ") (fp.lt " + x + " " + lim(0x1p63) + ")) ((_ fp.to_sbv 64) RTZ " + x + ") #x8000000000000000)"
	default:
		return "(fp.to_ieee_bv (" + opNames[t.op] + " RNE " + arg(t.a) + " " + arg(t.b) + "))"
	}
}

func smtSort(t *Term) string {
	if t.w == 0 {
		return "Bool"
	}

	return fmt.Sprintf("(_ BitVec %d)", t.w)
}
