// Package types checks the text and unification of types.
package types

import (
	"errors"

	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

var names = []string{"()", "nat", "int", "real", "enum"}

// mk is type number i; -1 is no type.
func mk(i int) *rstype.RsType {
	switch i {
	case 0:
		return rstype.Empty()
	case 1:
		return rstype.Arithmos(rstype.ArithmosDomainNat)
	case 2:
		return rstype.Arithmos(rstype.ArithmosDomainInt)
	case 3:
		return rstype.Arithmos(rstype.ArithmosDomainReal)
	case 4:
		return rstype.Enum()
	default:
		return nil
	}
}

// is says that t is type number i by its predicates.
func is(t *rstype.RsType, i int) bool {
	if t == nil {
		return i < 0
	}

	return i >= 0 && t.IsEmpty() == (i == 0) && t.IsNat() == (i == 1) && t.IsInt() == (i == 2) && t.IsReal() == (i == 3) && t.IsEnum() == (i == 4)
}

// join is the number of the least type that covers both; -2 is none.
func join(i, j int) int {
	switch {
	case i < 0:
		return j
	case j < 0 || i == j:
		return i
	case i >= 1 && i <= 3 && j >= 1 && j <= 3:
		if i > j {
			return i
		}

		return j
	default:
		return -2
	}
}

// CheckOne looks at single types.
func CheckOne() {
	sym.Bound("all five types, also built by any domain, and all targets")

	i := sym.Choice("type", 5)
	t := mk(i)

	sym.Assert(is(t, i), "each type has exactly its own predicate")
	sym.Assert(t.String() == names[i], "each type prints as its own name")

	b, err := t.MarshalText()
	sym.Assert(err == nil && string(b) == names[i], "each type is written as its own name")

	u := mk(sym.Choice("target", 5))
	err = u.UnmarshalText(b)
	sym.Assert(err == nil && is(u, i), "each type's name is read as the type, whatever the target was")
	sym.Assert(*u == *t, "types that are read equal types that are built")

	for d := 0; d < 4; d++ {
		sym.Assert(t.IsArithmos(rstype.ArithmosDomain(d)) == (d == i && i >= 1 && i <= 3), "a type is arithmetic exactly in its own domain")
	}

	sym.Reach("done")
}

// CheckDomain looks at arithmetic types of any domain.
func CheckDomain() {
	sym.Bound("all pairs of bytes as domains")

	a, b := sym.Byte("a"), sym.Byte("b")
	m := rstype.MaxDomain(rstype.ArithmosDomain(a), rstype.ArithmosDomain(b))
	sym.Assert(byte(m) >= a, "the wider domain is as wide as the first")
	sym.Assert(byte(m) >= b, "the wider domain is as wide as the second")
	sym.Assert(sym.Or(byte(m) == a, byte(m) == b), "the wider domain is one of the two")

	t := rstype.Arithmos(rstype.ArithmosDomain(a))
	_, err := t.MarshalText()
	sym.Assert((err == nil) == (a >= 1 && a <= 3), "only proper types are written")
	sym.Reach("done")
}

// CheckText reads arbitrary text.
func CheckText() {
	sym.Bound("all texts of up to 6 ASCII bytes")

	text := sym.Str("text", sym.Choice("length", 7))
	for i := 0; i < len(text); i++ {
		sym.Assume(text[i] < 0x80)
	}

	t := mk(sym.Choice("target", 5))
	err := t.UnmarshalText([]byte(text))

	for i, n := range names {
		same := len(text) == len(n)
		for j := 0; same && j < len(n); j++ {
			up := n[j]
			if up >= 'a' && up <= 'z' {
				up = up - 'a' + 'A'
			}

			same = sym.Or(text[j] == n[j], text[j] == up)
		}

		if same {
			sym.Assert(err == nil && is(t, i), "a name in any case is read as its type")
			sym.Reach("name")

			return
		}
	}

	sym.Assert(err != nil, "any other text is refused")
	sym.Reach("refused")
}

func unify(i, j int) (int, *rstype.RsType, error) {
	a, b := mk(i), mk(j)
	r, err := rstype.Unify(a, b)

	sym.Assert(is(a, i) && is(b, j), "unification leaves its arguments alone")

	if err != nil {
		return -2, nil, err
	}

	for k := -1; k < 5; k++ {
		if is(r, k) {
			return k, r, nil
		}
	}

	sym.Assert(false, "the unifier is a type")

	return -2, nil, nil
}

// CheckUnify unifies any three types.
func CheckUnify() {
	sym.Bound("all triples of the five types and no type")

	a, b, c := sym.Choice("a", 6)-1, sym.Choice("b", 6)-1, sym.Choice("c", 6)-1
	ab, r, err := unify(a, b)

	sym.Assert(ab == join(a, b), "the unifier is the least type that covers both, if there is one")

	if err != nil {
		sym.Assert(errors.Is(err, rstype.ErrUnifyDifferentKinds) && r == nil, "different kinds give the error for those, and no type")
		sym.Reach("error")
	} else {
		sym.Reach("type")
	}

	ba, _, _ := unify(b, a)
	sym.Assert(ab == ba, "unification is commutative")

	aa, _, _ := unify(a, a)
	sym.Assert(aa == a, "unification is idempotent")

	bc, _, _ := unify(b, c)

	l, m := -2, -2
	if ab != -2 {
		l, _, _ = unify(ab, c)
	}

	if bc != -2 {
		m, _, _ = unify(a, bc)
	}

	sym.Assert(l == m, "unification is associative")
}
