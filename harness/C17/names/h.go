// Package names checks how names are turned into identifiers of generated code.
package names

import (
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/gen/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/strmanip"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

func isLow(c byte) bool { return c >= 'a' && c <= 'z' }
func isUp(c byte) bool  { return c >= 'A' && c <= 'Z' }

func lower(c byte) byte {
	if isUp(c) {
		return c + 32
	}

	return c
}

func upper(c byte) byte {
	if isLow(c) {
		return c - 32
	}

	return c
}

// refUnder writes the words of a camel-case name in lower case, with underscores between them.
func refUnder(s string) string {
	var b []byte

	for i := 0; i < len(s); i++ {
		if i > 0 && isUp(s[i]) && isLow(s[i-1]) {
			b = append(b, '_')
		}

		b = append(b, lower(s[i]))
	}

	return string(b)
}

func refFirst(s string) string {
	if s == "" {
		return s
	}

	return string([]byte{upper(s[0])}) + s[1:]
}

func name() string {
	max := 5
	if sym.Thorough() {
		max = 7
	}

	s := sym.Str("s", sym.Choice("length", max+1))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 0x80)
	}

	return s
}

// CheckUnderscored turns names into topic names.
func CheckUnderscored() {
	sym.Bound("every name of up to 5 ASCII characters (7 in the thorough tier)")

	s := name()
	got := strmanip.ToLowerUnderscored(s)
	want := refUnder(s)

	sym.Assert(got == want, "underscores go exactly between a lower-case and an upper-case letter, and everything is in lower case")
	sym.Assert(strmanip.ToLowerUnderscored(got) == got, "converting twice is converting once")
	sym.ObserveStr("got", got)

	if len(got) > len(s) {
		sym.Reach("split")
	}
}

// CheckLong turns long names into topic names.
func CheckLong() {
	sym.Bound("names of 60 characters, in words of 1 to 6 letters, digits and underscores, with any two ASCII characters at one of 20 places; and of 300 characters, at one of 4 places")

	n := 60
	if sym.Choice("huge", 2) == 1 {
		n = 300
	}

	var b []byte

	for i := 0; len(b) < n; i++ {
		b = append(b, "AfzZQ7_bX"[i%9])
		for j := (i * i) % 6; j > 0; j-- {
			b = append(b, "bcdeF9_"[(i+j)%7])
		}
	}

	at := 0
	if n == 60 {
		at = 3 * sym.Choice("at", 20)
	} else {
		at = []int{63, 127, 255, 297}[sym.Choice("at", 4)]
	}

	c := sym.Str("c", 2)
	sym.Assume(sym.And(c[0] < 0x80, c[1] < 0x80))

	s := string(b[:at]) + c + string(b[at+2:n])
	got := strmanip.ToLowerUnderscored(s)
	sym.Assert(got == refUnder(s), "underscores go exactly between a lower-case and an upper-case letter, and everything is in lower case")
	sym.Assert(strmanip.UpcaseFirst(s) == refFirst(s), "only the first letter changes, to upper case")
	sym.Reach("long")
}

// CheckFirst upper-cases the first letters of names.
func CheckFirst() {
	sym.Bound("every name of up to 5 ASCII characters (7 in the thorough tier)")

	s := name()
	got := strmanip.UpcaseFirst(s)

	sym.Assert(got == refFirst(s), "only the first letter changes, to upper case")
	sym.Assert(strmanip.UpcaseFirst(got) == got, "upper-casing twice is upper-casing once")
	sym.ObserveStr("got", got)

	if s != "" {
		sym.Reach("name")
	}
}

var wide = []struct{ in, under, first string }{
	{"é", "é", "É"}, {"École", "école", "École"}, {"aÉb", "a_éb", "AÉb"}, {"éA", "é_a", "ÉA"}, {"日本A", "日本a", "日本A"}, {"ñ_Ñ", "ñ_ñ", "Ñ_Ñ"},
}

// CheckWide does the same with names that have other letters.
func CheckWide() {
	sym.Bound("six names with letters beyond ASCII, each before any lower-case ASCII letter")

	w := wide[sym.Choice("name", len(wide))]
	c := gen.Of("c", 1, gen.Lower)

	sym.Assert(strmanip.ToLowerUnderscored(w.in+c) == w.under+c, "letters beyond ASCII are converted as letters, with underscores")
	sym.Assert(strmanip.UpcaseFirst(w.in+c) == w.first+c, "first letters beyond ASCII are converted as letters")
	sym.Reach("wide")
}

// CheckIdents makes every identifier that generated code uses of a name.
func CheckIdents() {
	sym.Bound("every identifier of up to 4 characters")

	s := gen.Ident("s", 1+sym.Choice("length", 4))
	up := strings.ToUpper(s)
	first := refFirst(s)

	sym.Assert(cpp.CallbackName(s) == s+"Callback", "name of a callback")
	sym.Assert(cpp.ChannelMsgType(s) == first+"Msg", "name of a message type")
	sym.Assert(cpp.ChannelValueType(s) == first+"Val", "name of a value type")
	sym.Assert(cpp.ConvertTo(s) == "to"+first, "name of a conversion to messages")
	sym.Assert(cpp.ConvertFrom(s) == "from"+first, "name of a conversion from messages")
	sym.Assert(cpp.StateEntry(testlang.NodeID(s)) == "enter"+first, "name of a state's entry function")
	sym.Assert(cpp.StateEnum(testlang.NodeID(s)) == "State::"+up, "name of a state")
	sym.Assert(cpp.EnumField(testlang.NodeID(s)) == up, "field of a state")
	sym.Assert(cpp.TestEnum(s) == "Test::"+up, "name of a test")
	sym.Reach("identifiers")
}

// CheckOutcomes names outcomes.
func CheckOutcomes() {
	sym.Bound("every outcome")

	i := sym.Choice("outcome", 4)
	o := []testlang.Outcome{testlang.OutcomeUnset, testlang.OutcomeInc, testlang.OutcomeFail, testlang.OutcomePass}[i]
	sym.Assert(cpp.OutcomeEnum(o) == "rtcg::Outcome::"+[]string{"UNSET", "INC", "FAIL", "PASS"}[i], "name of an outcome")
	sym.Reach("outcome")
}

// CheckDistinct turns two names into identifiers: names that differ in more than case never clash.
func CheckDistinct() {
	sym.Bound("every pair of identifiers of up to 3 characters that differ in more than case")

	a := gen.Ident("a", 1+sym.Choice("a length", 3))
	b := gen.Ident("b", 1+sym.Choice("b length", 3))
	sym.Assume(strings.ToLower(a) != strings.ToLower(b))

	sym.Assert(cpp.CallbackName(a) != cpp.CallbackName(b), "callbacks of different names differ")
	sym.Assert(cpp.ChannelMsgType(a) != cpp.ChannelMsgType(b), "message types of different names differ")
	sym.Assert(cpp.ConvertTo(a) != cpp.ConvertTo(b), "conversions of different names differ")
	sym.Assert(cpp.ConvertTo(a) != cpp.ConvertFrom(b), "conversions of either direction differ")
	sym.Assert(cpp.StateEnum(testlang.NodeID(a)) != cpp.StateEnum(testlang.NodeID(b)), "states of different names differ")
	sym.Assert(cpp.StateEntry(testlang.NodeID(a)) != cpp.StateEntry(testlang.NodeID(b)), "entry functions of different names differ")
	sym.Reach("distinct")
}

// CheckHistory converts two names one after another.
func CheckHistory() {
	sym.Bound("every two names of up to 3 ASCII characters (4 in the thorough tier), and two of 45 to 47, converted one after another")

	mk := func(n string) string {
		max := 3
		if sym.Thorough() {
			max = 4
		}

		s := sym.Str(n, 1+sym.Choice(n+" length", max))
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] < 0x80)
		}

		return s
	}

	s, t := mk("s"), mk("t")

	if sym.Choice("long", 2) == 1 {
		if len(s) > 2 || len(t) > 2 {
			sym.Stop()
		}

		fill := strings.Repeat("someName_9", 2)
		s, t = fill+s+fill+"endIng", fill+t+fill+"endIng"
	}

	for _, n := range []string{s, t, s} {
		sym.Assert(strmanip.ToLowerUnderscored(n) == refUnder(n), "what a name becomes does not depend on names that were converted before")
		sym.Assert(strmanip.UpcaseFirst(n) == refFirst(n), "only the first letter changes, whatever was converted before")
	}

	sym.Reach("history")
}
