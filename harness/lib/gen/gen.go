// Package gen makes arbitrary inputs.
package gen

import (
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

const (
	Lower   = "abcdefghijklmnopqrstuvwxyz"
	Upper   = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	Digits  = "0123456789"
	Letters = Lower + Upper + "_"
	IdentCs = Letters + Digits
	// Punct has the punctuation that means nothing to the readers of events and traces.
	Punct = "!$%&'()*+-/;<=>?@[]^_`{|}~"
)

// Of is an arbitrary string of n bytes of set.
func Of(name string, n int, set string) string {
	s := sym.Str(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.In(s[i], set))
	}

	return s
}

// Dec is a number in decimal digits.
func Dec(n int) string {
	if n < 10 {
		return string([]byte{'0' + byte(n)})
	}

	return Dec(n/10) + Dec(n%10)
}

// Ident is an arbitrary identifier of n bytes.
func Ident(name string, n int) string {
	s := sym.Str(name, n)
	for i := 0; i < n; i++ {
		if i == 0 {
			sym.Assume(sym.In(s[i], Letters))
		} else {
			sym.Assume(sym.In(s[i], IdentCs))
		}
	}

	return s
}

// Kinds are the kinds of channels.
var Kinds = []channel.Kind{channel.KindIn, channel.KindOut, channel.KindCall}

// KindNames are their names.
var KindNames = []string{"in", "out", "call"}

// Val is a value and its kind: 0 absent, 1 integer, 2 enumeration constant.
type Val struct {
	Kind int
	Int  int64
	Enum string
}

// Value makes the value.
func (v Val) Value() value.Value {
	switch v.Kind {
	case 1:
		return value.Int(v.Int)
	case 2:
		return value.Enum(v.Enum)
	default:
		return value.None()
	}
}

// Event makes an event of a channel, and a value.
func Event(ch string, k channel.Kind, v Val) testlang.Event {
	return testlang.NewEvent(ch, k, v.Value())
}

// AnyEvent is an arbitrary event: a channel of n letters, any direction, and (if values) no value, any integer or a constant of n
// bytes.
func AnyEvent(name string, n int, values bool) testlang.Event {
	k := sym.Byte(name + " kind")
	sym.Assume(k < 3)

	v := Val{}

	if values {
		switch v.Kind = sym.Choice(name+" value", 3); v.Kind {
		case 1:
			v.Int = sym.Int64(name + " int")
		case 2:
			v.Enum = Of(name+" enum", n, Letters)
		}
	}

	return Event(Of(name, n, Letters), channel.Kind(k), v)
}

// SameEvent says whether events are the same.
func SameEvent(a, b *testlang.Event) bool {
	if a == nil || b == nil {
		return a == b
	}

	return sym.And(sym.And(sym.EqStr(a.Channel.Name, b.Channel.Name), a.Channel.Kind == b.Channel.Kind), a.Value.Equals(b.Value))
}
