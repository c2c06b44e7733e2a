// Package value checks what values are made of text, and their types.
package value

import (
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/gen/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

// refParse reads a decimal integer of few digits.
func refParse(s string) (int64, bool) {
	neg := false

	if s != "" && (s[0] == '-' || s[0] == '+') {
		neg, s = s[0] == '-', s[1:]
	}

	if s == "" {
		return 0, false
	}

	var n int64

	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}

		n = n*10 + int64(s[i]-'0')
	}

	if neg {
		n = -n
	}

	return n, true
}

func checkInt(v value.Value, n int64) {
	sym.Assert(v.IsPresent() && !v.IsEmpty(), "integer text gives a value")
	sym.Assert(v.Equals(value.Int(n)), "integer text gives that integer")

	ty := v.Type()
	sym.Assert(ty.IsNat() == (n >= 0), "an integer has the type of naturals exactly if it is not negative")
	sym.Assert(ty.IsInt() == (n < 0), "a negative integer has the type of integers")
	sym.Assert(!ty.IsEnum() && !ty.IsEmpty() && !ty.IsReal(), "an integer has no other type")
}

func checkEnum(v value.Value, s string) {
	sym.Assert(v.IsPresent() && !v.IsEmpty(), "other text gives a value")
	sym.Assert(v.Equals(value.Enum(s)), "other text gives that constant")

	ty := v.Type()
	sym.Assert(ty.IsEnum() && !ty.IsNat() && !ty.IsInt() && !ty.IsReal() && !ty.IsEmpty(), "a constant has the type of enumerations, only")
	sym.Assert(v.StringValue() == s, "a constant in generated code is its text")
	sym.Assert(cpp.Value(v) == `"`+s+`"`, "a constant in generated code is quoted")
	sym.ObserveStr("value", v.StringValue())
}

// CheckParse reads arbitrary text.
func CheckParse() {
	sym.Bound("text of up to 5 bytes (7 in the thorough tier) of digits, signs, letters, dots and blanks of ASCII")

	max := 5
	if sym.Thorough() {
		max = 7
	}

	text := gen.Of("text", sym.Choice("length", max+1), "0123456789+-aeEx._ \t\n\r\v\f")
	trim := strings.Trim(text, " \t\n\r\v\f")

	var v value.Value

	err := v.UnmarshalText([]byte(text))
	sym.Assert(err == nil, "any text is a value")

	if err != nil {
		return
	}

	if trim == "" {
		sym.Assert(v.IsEmpty() && !v.IsPresent(), "blank text is the absent value")
		sym.Assert(v.Equals(value.None()), "blank text equals the absent value")
		sym.Assert(v.Type().IsEmpty(), "the absent value has the empty type")
		sym.Assert(v.StringValue() == "", "the absent value in generated code is empty")
		sym.Reach("absent")

		return
	}

	if n, ok := refParse(trim); ok {
		checkInt(v, n)
		sym.Assert(cpp.Value(v) == v.StringValue(), "an integer in generated code is its digits")
		sym.ObserveStr("value", v.String())
		sym.Reach("integer")
	} else {
		checkEnum(v, trim)
		sym.Reach("constant")
	}
}

// CheckBytes reads constants with any bytes inside.
func CheckBytes() {
	sym.Bound("constants of any printable character of ASCII, up to 2 arbitrary bytes (3 in the thorough tier), and any such character but digits")

	max := 2
	if sym.Thorough() {
		max = 3
	}

	text := gen.Of("first", 1, gen.IdentCs+gen.Punct+"\"\\#,:.") + sym.Str("inner", sym.Choice("length", max+1)) + gen.Of("last", 1, gen.Letters+gen.Punct+"\"\\#,:.")

	var v value.Value

	sym.Assert(v.UnmarshalText([]byte(text)) == nil, "any text is a value")
	checkEnum(v, text)
	sym.Reach("constant")
}

// CheckLong reads long text.
func CheckLong() {
	sym.Bound("constants of 300 and 70000 bytes that begin and end with arbitrary letters or digits, the integer of any two digits after 300 zeros, and 300 blanks before and after a value of any two letters or digits")

	var v value.Value

	ends := gen.Of("ends", 2, gen.IdentCs)
	blanks := strings.Repeat(" \t", 150)

	switch sym.Choice("what", 4) {
	case 0:
		text := ends[:1] + strings.Repeat("x.1_", 75) + ends[1:]
		sym.Assert(v.UnmarshalText([]byte(text)) == nil, "any text is a value")
		checkEnum(v, text)
	case 1:
		text := ends[:1] + strings.Repeat("long", 17500) + ends[1:]
		sym.Assert(v.UnmarshalText([]byte(text)) == nil, "any text is a value")
		checkEnum(v, text)
	case 2:
		d := gen.Of("digits", 2, gen.Digits)
		sym.Assert(v.UnmarshalText([]byte(strings.Repeat("0", 300)+d)) == nil, "any text is a value")
		checkInt(v, int64(d[0]-'0')*10+int64(d[1]-'0'))
	default:
		sym.Assert(v.UnmarshalText([]byte(blanks+ends+blanks)) == nil, "any text is a value")

		if n, ok := refParse(ends); ok {
			checkInt(v, n)
		} else {
			checkEnum(v, ends)
		}
	}

	sym.Reach("long")
}

// CheckLimits reads integers near the limits of 64 bits: those beyond them are constants.
func CheckLimits() {
	sym.Bound("integers of 19 digits near the limits of 64 bits, with any last two digits, and of 20 digits with any first")

	neg := sym.Choice("negative", 2) == 1
	sign := ""

	if neg {
		sign = "-"
	}

	var v value.Value

	if sym.Choice("long", 2) == 1 {
		text := sign + gen.Of("d", 1, "123456789") + "0000000000000000000"
		sym.Assert(v.UnmarshalText([]byte(text)) == nil, "any text is a value")
		checkEnum(v, text)
		sym.Reach("long")

		return
	}

	d := gen.Of("d", 2, gen.Digits)
	text := sign + "92233720368547758" + d
	last := int64(d[0]-'0')*10 + int64(d[1]-'0')

	sym.Assert(v.UnmarshalText([]byte(text)) == nil, "any text is a value")

	if neg && last <= 8 {
		checkInt(v, -9223372036854775800-last)
		sym.Reach("low")
	} else if !neg && last <= 7 {
		checkInt(v, 9223372036854775800+last)
		sym.Reach("high")
	} else {
		checkEnum(v, text)
		sym.Reach("beyond")
	}
}

// CheckEquals compares three values.
func CheckEquals() {
	sym.Bound("triples of values: absent, every integer of 64 bits, constants of up to 2 arbitrary bytes")

	mk := func(n string) gen.Val {
		v := gen.Val{Kind: sym.Choice(n, 3)}

		switch v.Kind {
		case 1:
			v.Int = sym.Int64(n + ".int")
		case 2:
			v.Enum = sym.Str(n+".enum", sym.Choice(n+".length", 3))
		}

		return v
	}

	a, b := mk("a"), mk("b")
	same := a.Kind == b.Kind && a.Int == b.Int && a.Enum == b.Enum
	va, vb := a.Value(), b.Value()

	sym.Assert(va.Equals(vb) == same, "values are equal exactly if their kind and content are")
	sym.Assert(vb.Equals(va) == same, "equality of values is symmetric")
	sym.Assert(va.Equals(va), "equality of values is reflexive")

	ta, tb := va.Type(), vb.Type()
	sym.Assert(!same || *ta == *tb, "equal values have the same type")

	if same {
		sym.Reach("equal")
	} else {
		sym.Reach("different")
	}
}

// CheckTypes looks at the type of every value.
func CheckTypes() {
	sym.Bound("every integer of 64 bits; constants of up to 3 arbitrary bytes")

	if sym.Choice("int", 2) == 1 {
		n := sym.Int64("n")
		v := value.Int(n)
		ty := v.Type()
		sym.Assert(ty.IsNat() == (n >= 0), "an integer has the type of naturals exactly if it is not negative")
		sym.Assert(ty.IsInt() == (n < 0), "a negative integer has the type of integers")
		sym.Assert(cpp.StdType(*ty) == map[bool]string{true: "unsigned int", false: "int"}[n >= 0], "type of integers in generated code")
		sym.Reach("int")
	} else {
		v := value.Enum(sym.Str("s", sym.Choice("length", 4)))
		ty := v.Type()
		sym.Assert(ty.IsEnum() && !ty.IsArithmos(rstype.ArithmosDomainUnknown), "a constant has the type of enumerations, only")
		sym.Assert(cpp.StdType(*ty) == "std::string", "type of constants in generated code")
		sym.Reach("enum")
	}
}
