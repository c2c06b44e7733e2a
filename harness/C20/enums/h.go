// Package enums checks the text of enumerations.
package enums

import (
	"encoding"
	"errors"
	"fmt"

	"github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

type enum struct {
	what    string
	names   []string
	values  []int
	invalid error
	parse   func(string) (int, error)
	str     func(int) string
	text    func(int) ([]byte, error)
	read    func(start int, text []byte) (int, error)
}

type member interface {
	~uint8
	fmt.Stringer
	encoding.TextMarshaler
}

func mk[T member](what string, invalid error, parse func(string) (T, error), un func(*T, []byte) error, names []string, vals ...T) *enum {
	e := &enum{what: what, names: names, invalid: invalid}

	for _, v := range vals {
		e.values = append(e.values, int(v))
	}

	e.parse = func(s string) (int, error) { v, err := parse(s); return int(v), err }
	e.str = func(i int) string { return T(i).String() }
	e.text = func(i int) ([]byte, error) { return T(i).MarshalText() }
	e.read = func(start int, text []byte) (int, error) {
		v := T(start)
		err := un(&v, text)

		return int(v), err
	}

	return e
}

func all() []*enum {
	return []*enum{
		mk("directions", channel.ErrInvalidKind, channel.ParseKind, (*channel.Kind).UnmarshalText,
			[]string{"in", "out", "call"}, channel.KindIn, channel.KindOut, channel.KindCall),
		mk("outcomes", testlang.ErrInvalidOutcome, testlang.ParseOutcome, (*testlang.Outcome).UnmarshalText,
			[]string{"unset", "inc", "fail", "pass"},
			testlang.OutcomeUnset, testlang.OutcomeInc, testlang.OutcomeFail, testlang.OutcomePass),
		mk("variants", cpp.ErrInvalidVariant, cpp.ParseVariant, (*cpp.Variant).UnmarshalText,
			[]string{"animate", "ros"}, cpp.VariantAnimate, cpp.VariantRos),
		mk("kinds of types", rstype.ErrInvalidKind, rstype.ParseKind, (*rstype.Kind).UnmarshalText,
			[]string{"empty", "arithmos", "enum"}, rstype.KindEmpty, rstype.KindArithmos, rstype.KindEnum),
		mk("arithmetic domains", rstype.ErrInvalidArithmosDomain, rstype.ParseArithmosDomain, (*rstype.ArithmosDomain).UnmarshalText,
			[]string{"unknown", "nat", "int", "real"}, rstype.ArithmosDomainUnknown, rstype.ArithmosDomainNat,
			rstype.ArithmosDomainInt, rstype.ArithmosDomainReal),
	}
}

// CheckNames looks at the names of all members, and of what is no member.
func CheckNames() {
	sym.Bound("all members of the five enumerations; all 256 values for distinctness of names")

	es := all()
	e := es[sym.Choice("enum", len(es))]
	i := sym.Choice("member", len(e.names))
	v := e.values[i]

	sym.Assert(v == i, "members have the documented order")
	sym.Assert(e.str(v) == e.names[i], "members print as their names")

	t, err := e.text(v)
	sym.Assert(err == nil && string(t) == e.names[i], "members are written as their names")

	got, err := e.parse(e.names[i])
	sym.Assert(err == nil && got == v, "names are read as their members")

	o := int(sym.Byte("other"))
	if o < len(e.names) {
		sym.Reach("another member")
		sym.Assert((e.str(o) == e.names[i]) == (o == v), "different members have different names")
	} else {
		sym.Reach("no member")

		_, err := e.parse(e.str(o))
		sym.Assert(err != nil, "what is no member does not print as one")
	}
}

// same says whether text is name, up to case, without a branch.
func same(text, name string) bool {
	if len(text) != len(name) {
		return false
	}

	r := true
	for i := 0; i < len(text); i++ {
		r = sym.And(r, sym.Or(text[i] == name[i], text[i] == name[i]-'a'+'A'))
	}

	return r
}

// CheckOther reads names in which a letter is replaced by a character that is no letter of ASCII.
func CheckOther() {
	sym.Bound("names with the last letter (any letter in the thorough tier, in lower or upper case) replaced by any character of U+0080 to U+07FF that has no case variant in ASCII, for each of the five enumerations")

	es := all()
	e := es[sym.Choice("enum", len(es))]
	n := []byte(e.names[sym.Choice("member", len(e.names))])
	at := len(n) - 1

	if sym.Thorough() {
		at = sym.Choice("at", len(n))
	}

	c := sym.Str("character", 2)

	sym.Assume(sym.And(sym.And(c[0] >= 0xc2, c[0] <= 0xdf), sym.And(c[1] >= 0x80, c[1] <= 0xbf)))
	// The dotted and dotless i, and the long s.
	sym.Assume(c != "\u0130")
	sym.Assume(c != "\u0131")
	sym.Assume(c != "\u017f")

	if sym.Thorough() && sym.Choice("upper", 2) == 1 {
		for i := range n {
			n[i] = n[i] - 'a' + 'A'
		}
	}

	text := string(n[:at]) + c + string(n[at+1:])
	_, err := e.parse(text)
	sym.Assert(err != nil && errors.Is(err, e.invalid), "what is no name is refused")

	v, err := e.read(0, []byte(text))
	sym.Assert(err != nil && v == 0, "what is no name is refused as a target's")
	sym.Reach("refused")
}

// CheckParse reads arbitrary text.
func CheckParse() {
	sym.Bound("all texts of up to 9 ASCII bytes, for each of the five enumerations, read into any target")

	es := all()
	e := es[sym.Choice("enum", len(es))]
	text := sym.Str("text", sym.Choice("length", 10))

	for i := 0; i < len(text); i++ {
		sym.Assume(text[i] < 0x80)
	}

	start := int(sym.Byte("start"))
	got, err := e.parse(text)
	read, rerr := e.read(start, []byte(text))

	for i, n := range e.names {
		if same(text, n) {
			sym.Assert(err == nil && got == e.values[i], "a name in any case is read as its member")
			sym.Assert(rerr == nil && read == e.values[i], "a name in any case is read into the target")
			sym.Reach("name")

			return
		}
	}

	sym.Assert(err != nil && errors.Is(err, e.invalid), "other text is refused")
	sym.Assert(rerr != nil && errors.Is(rerr, e.invalid), "other text is refused as a target's")
	sym.Assert(read == start, "refused text leaves the target alone")
	sym.Reach("refused")
}
