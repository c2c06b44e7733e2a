// Package event checks that events survive being written as text.
package event

import (
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

const nameChars = gen.IdentCs + gen.Punct + ":,#\"\\"

// refInt writes an integer in decimal.
func refInt(n int64) string {
	if n == 0 {
		return "0"
	}

	u := uint64(n)
	if n < 0 {
		u = -u
	}

	var b []byte
	for ; u > 0; u /= 10 {
		b = append([]byte{byte('0' + u%10)}, b...)
	}

	if n < 0 {
		b = append([]byte{'-'}, b...)
	}

	return string(b)
}

type spec struct {
	ch   string
	kind int
	val  gen.Val
}

func (s spec) event() testlang.Event { return gen.Event(s.ch, gen.Kinds[s.kind], s.val) }

// text is the written form of an event, as the documentation of the trace format has it.
func (s spec) text(val string) string {
	t := s.ch + "." + gen.KindNames[s.kind]
	if s.val.Kind != 0 {
		t += "." + val
	}

	return t
}

func roundTrip(s spec, want string) {
	e := s.event()

	b, err := e.MarshalText()
	sym.Assert(err == nil, "writing an event succeeds")
	sym.Assert(string(b) == want, "written form of an event is NAME.KIND or NAME.KIND.VALUE")

	// Reading replaces whatever was there.
	var back testlang.Event

	if sym.Choice("into", 2) == 1 {
		back = gen.Event("left", gen.Kinds[1], gen.Val{Kind: 2, Enum: "over"})
	}

	text := append([]byte{}, b...)
	err = back.UnmarshalText(text)
	sym.Assert(err == nil, "reading a written event succeeds")

	// The text is only lent, as it is by readers of JSON.
	spoil(text)
	sym.Assert(back.Channel.Name == s.ch, "channel name survives")
	sym.Assert(back.Channel.Kind == gen.Kinds[s.kind], "direction survives")
	sym.Assert(back.Value.IsEmpty() == (s.val.Kind == 0), "presence of a value survives")
	sym.Assert(back.Value.Equals(s.val.Value()), "value survives")
	sym.Assert(back.Equals(e), "event survives")
	sym.ObserveStr("text", string(b))

	// The value as it is in the JSON formats.
	vb, err := e.Value.MarshalText()
	sym.Assert(err == nil, "writing a value succeeds")

	v := gen.Val{Kind: 2, Enum: "left over"}.Value()
	err = v.UnmarshalText(vb)
	sym.Assert(err == nil, "reading a written value succeeds")
	spoil(vb)
	sym.Assert(v.Equals(e.Value), "value survives on its own")
	sym.Assert(v.IsEmpty() == (s.val.Kind == 0), "presence of a value survives on its own")
}

func spoil(b []byte) {
	for i := range b {
		b[i] = '?'
	}
}

// CheckEnum writes and reads events with enumeration constants or no value.
func CheckEnum() {
	sym.Bound("events with channel names of 1 to 3 bytes (letters, digits, punctuation but for dots), any direction, and no value or an enumeration constant of 1 to 3 such bytes and dots that does not read as an integer")

	s := spec{ch: gen.Of("ch", 1+sym.Choice("name length", 3), nameChars), kind: sym.Choice("kind", 3)}
	val := ""

	if sym.Choice("has value", 2) == 1 {
		val = gen.Of("val", 1+sym.Choice("value length", 3), nameChars+".")
		sym.Assume(!looksInt(val))

		s.val = gen.Val{Kind: 2, Enum: val}

		sym.Reach("constant")
	} else {
		sym.Reach("no value")
	}

	roundTrip(s, s.text(val))
}

func looksInt(s string) bool {
	if len(s) > 1 && (s[0] == '-' || s[0] == '+') {
		s = s[1:]
	}

	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}

	return true
}

var limits = []int64{-9223372036854775808, -9223372036854775807, 9223372036854775807, -1, 0, 1, 1 << 53, -(1 << 53) - 1, 1 << 31, -(1 << 31) - 1, 1 << 32}

// CheckInt writes and reads events with integers.
func CheckInt() {
	sym.Bound("events with one-letter channel names and every integer of up to 4 digits (6 in the thorough tier), and limits of the range")

	s := spec{ch: gen.Of("ch", 1, gen.Letters), kind: sym.Choice("kind", 3)}
	s.val.Kind = 1

	if i := sym.Choice("limit", len(limits)+1); i > 0 {
		s.val.Int = limits[i-1]
		sym.Reach("limit")
	} else {
		max := int64(9999)
		if sym.Thorough() {
			max = 999999
		}

		s.val.Int = sym.Int64("int")
		sym.Assume(sym.And(s.val.Int >= -max, s.val.Int <= max))

		if s.val.Int < 0 {
			sym.Reach("negative")
		} else {
			sym.Reach("natural")
		}
	}

	roundTrip(s, s.text(refInt(s.val.Int)))
}

// CheckLong writes and reads long events.
func CheckLong() {
	sym.Bound("events with channel names and constants of 2, 302 and 5002 bytes, in which the first and last are arbitrary")

	fill := []string{"", strings.Repeat("x_1", 100), strings.Repeat("long", 1250)}
	s := spec{ch: gen.Of("ch", 1, gen.Letters) + fill[sym.Choice("name", 3)] + gen.Of("ch", 1, gen.IdentCs), kind: sym.Choice("kind", 3)}
	s.val = gen.Val{Kind: 2, Enum: gen.Of("val", 1, gen.Letters) + fill[sym.Choice("value", 3)] + gen.Of("val", 1, gen.IdentCs)}
	roundTrip(s, s.text(s.val.Enum))
	sym.Reach("long")
}

// CheckDistinct compares two events: they are equal, and their text is, exactly if all their parts are.
func CheckDistinct() {
	sym.Bound("pairs of events with channel names of 1 or 2 letters (of either case), digits and marks, any directions, and no values, constants of 1 such character but for digits, or integers of 2 digits")

	mk := func(n string) spec {
		s := spec{ch: gen.Of(n+".ch", 1+sym.Choice(n+".length", 2), gen.IdentCs+gen.Punct), kind: sym.Choice(n+".kind", 3)}

		switch s.val.Kind = sym.Choice(n+".value", 3); s.val.Kind {
		case 1:
			s.val.Int = sym.Int64(n + ".int")
			sym.Assume(sym.And(s.val.Int >= 10, s.val.Int <= 99))
		case 2:
			s.val.Enum = gen.Of(n+".val", 1, gen.Letters+gen.Punct)
		}

		return s
	}

	s, t := mk("s"), mk("t")
	same := s.ch == t.ch && s.kind == t.kind && s.val.Kind == t.val.Kind

	if same {
		switch s.val.Kind {
		case 1:
			same = s.val.Int == t.val.Int
		case 2:
			same = s.val.Enum == t.val.Enum
		}
	}

	e, f := s.event(), t.event()
	sym.Assert(e.Equals(f) == same, "events are equal exactly if all parts are")
	sym.Assert(f.Equals(e) == same, "equality is symmetric")
	sym.Assert(e.Channel.Equals(f.Channel) == (s.ch == t.ch && s.kind == t.kind), "channels are equal exactly if names and directions are")

	b, err := e.MarshalText()
	c, err2 := f.MarshalText()
	sym.Assert(err == nil && err2 == nil, "writing events succeeds")
	sym.Assert((string(b) == string(c)) == same, "events have the same text exactly if they are equal")

	if same {
		sym.Reach("equal")
	} else {
		sym.Reach("different")
	}
}

// CheckRead reads text with blanks around its parts: the canonical text comes back.
func CheckRead() {
	sym.Bound("text of events with a blank or none before and after every part; names of 2 bytes, directions in either case, constants of 2 bytes")

	sp := func(n string) string {
		return []string{"", " ", "\t "}[sym.Choice(n, 3)]
	}

	s := spec{ch: gen.Of("ch", 2, nameChars), kind: sym.Choice("kind", 3)}
	kind := gen.KindNames[s.kind]

	if sym.Choice("upper", 2) == 1 {
		kind = strings.ToUpper(kind)
	}

	text := sp("a") + s.ch + sp("b") + "." + sp("c") + kind + sp("d")
	val := ""

	if sym.Choice("has value", 2) == 1 {
		val = gen.Of("val", 2, gen.Letters+"|=")
		s.val = gen.Val{Kind: 2, Enum: val}
		text += "." + sp("e") + val + " "
	}

	var e testlang.Event

	buf := []byte(text)
	err := e.UnmarshalText(buf)
	sym.Assert(err == nil, "reading text with blanks succeeds")
	spoil(buf)

	b, err := e.MarshalText()
	sym.Assert(err == nil, "writing what was read succeeds")
	sym.Assert(string(b) == s.text(val), "what was read is written without blanks")

	var c channel.Channel

	if val == "" {
		buf = []byte(text)
		err = c.UnmarshalText(buf)
		spoil(buf)
		sym.Assert(err == nil && c.Equals(e.Channel), "the channel on its own is read alike")

		cb, err := c.MarshalText()
		sym.Assert(err == nil && string(cb) == s.text(val), "the channel on its own is written alike")
		sym.Reach("channel")
	}

	sym.Reach("read")
}

// CheckHistory reads events one after another.
func CheckHistory() {
	sym.Bound("three events read one after another, the last of them the first again, with names and constants of 3 (4 in the thorough tier) letters, digits and marks, or of 43, and no values or integers of 5 digits in their place")

	n := 3
	if sym.Thorough() {
		n = 4
	}

	mk := func(name string, val int) spec {
		s := spec{ch: gen.Of(name+".ch", n, gen.Letters+gen.Punct), kind: 1}

		switch s.val.Kind = val; val {
		case 1:
			s.val.Int = sym.Int64(name + ".int")
			sym.Assume(sym.And(s.val.Int >= 10000, s.val.Int <= 10009))
		case 2:
			s.val.Enum = gen.Of(name+".val", n, gen.Letters+gen.Punct)
		}

		return s
	}

	val := sym.Choice("value", 3)
	s, t := mk("s", val), mk("t", val)

	if sym.Choice("long", 2) == 1 {
		fill := strings.Repeat("x_1y", 5)
		s.ch, t.ch = fill+s.ch+fill, fill+t.ch+fill

		if val == 2 {
			s.val.Enum, t.val.Enum = fill+s.val.Enum+fill, fill+t.val.Enum+fill
		}
	}

	var (
		all  = []spec{s, t, s}
		back [3]testlang.Event
		vals [3]testlang.Event
	)

	for i, x := range all {
		v := x.val.Enum
		if val == 1 {
			v = refInt(x.val.Int)
		}

		buf := []byte(x.text(v))
		sym.Assert(back[i].UnmarshalText(buf) == nil, "reading a written event succeeds")
		spoil(buf)

		buf = []byte(v)
		sym.Assert(vals[i].Value.UnmarshalText(buf) == nil, "reading a written value succeeds")
		spoil(buf)
	}

	for i, x := range all {
		sym.Assert(sym.EqStr(back[i].Channel.Name, x.ch), "channel name survives, whatever else is read")
		sym.Assert(back[i].Channel.Kind == gen.Kinds[x.kind], "direction survives, whatever else is read")
		sym.Assert(back[i].Value.Equals(x.val.Value()), "value survives, whatever else is read")
		sym.Assert(vals[i].Value.Equals(x.val.Value()), "value survives on its own, whatever else is read")
	}

	sym.Reach("history")
}
