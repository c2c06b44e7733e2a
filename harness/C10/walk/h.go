// Package walk runs the pipeline on trace files, and walks the state machines that come out.
package walk

import (
	"strconv"
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/env"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

func max(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}

	return quick
}

// part is an event of a trace, and its text.
type part struct {
	ev   testlang.Event
	text string
	ch   string
	kind int
	val  gen.Val
}

// mk makes an event with a value of a kind, that is an arbitrary digit or letter.
func mk(ch string, kind, valKind int) part {
	p := part{ch: ch, kind: kind, val: gen.Val{Kind: valKind}}
	p.text = ch + "." + gen.KindNames[kind]

	switch valKind {
	case 1:
		d := gen.Of("int", 1, gen.Digits)
		p.val.Int = int64(d[0] - '0')
		p.text += "." + d
	case 2:
		p.val.Enum = gen.Of("enum", 1, gen.Letters)
		p.text += "." + p.val.Enum
	}

	p.ev = gen.Event(ch, gen.Kinds[kind], p.val)

	return p
}

type traceOf struct {
	name  string // name of the test that comes out
	given string // name in the file
	parts []part
}

func (t *traceOf) line() string {
	var cells []string

	for _, p := range t.parts {
		cells = append(cells, p.text)
	}

	l := strings.Join(cells, ",")
	if t.given != "" {
		l = t.given + ": " + l
	}

	return l + "\n"
}

// compatible says whether each channel has values of one kind in a trace.
func compatible(ts []*traceOf) bool {
	var all []part

	for _, t := range ts {
		all = append(all, t.parts...)
	}

	for i := range all {
		for j := 0; j < i; j++ {
			if all[i].val.Kind != all[j].val.Kind && all[i].ch == all[j].ch {
				return false
			}
		}
	}

	return true
}

// run gives the suite that comes out, or nil if the channels' types are at odds.
func run(ts []*traceOf) *stm.Suite {
	env.Reset()

	file := ""
	for _, t := range ts {
		file += t.line()
	}

	r := env.Run("rtcg-read-traces", nil, file)
	sym.Assert(r.Code == 0 && r.Err == "", "traces are read")

	m := env.Run("rtcg-make-stms", nil, r.Out)
	ok := compatible(ts)
	sym.Assert((m.Code == 0) == ok, "machines are made unless a channel has values of different types")

	if m.Code != 0 || !ok {

		return nil
	}

	s, err := stm.ReadSuite(strings.NewReader(m.Out))
	sym.Assert(err == nil, "machines are read")
	sym.Assert(len(s.Tests) == len(ts), "there is one machine per trace")
	sym.ObserveStr("machines", m.Out)

	return s
}

func state(m *stm.Stm, id testlang.NodeID) *stm.State {
	var r *stm.State

	n := 0

	for _, s := range m.States {
		if s.ID == id {
			r = s
			n++
		}
	}

	sym.Assert(n == 1, "each state that can be reached is there once")

	return r
}

// step feeds an event: it gives the next states. Inputs are matched in full here, as outputs are.
func step(s *stm.State, e *testlang.Event) []testlang.NodeID {
	var r []testlang.NodeID

	for _, ts := range s.TransitionSets {
		for _, t := range ts.Transitions {
			if gen.SameEvent(&testlang.Event{Channel: ts.Channel, Value: t.Value}, e) {
				r = append(r, t.Next)
			}
		}
	}

	return r
}

// walk feeds a machine the trace's events, and at each of its states also other events.
func (t *traceOf) walk(s *stm.Suite, others func(at int) []part) {
	m := s.Tests[t.name]
	sym.Assert(m != nil, "machines have the names of the traces")

	if m == nil || len(m.States) == 0 {
		return
	}

	sym.Assert(len(m.Tests.Values()) == 1 && has(m, t.name), "a machine is for its trace's test only")

	at := m.InitialState()

	for i := 0; ; i++ {
		st := state(m, at)
		if st == nil || st.Verdict == nil {
			sym.Assert(false, "each state has a verdict")

			return
		}

		want := testlang.OutcomeInc

		switch i {
		case len(t.parts) - 1:
			want = testlang.OutcomePass
		case len(t.parts):
			want = testlang.OutcomeFail
		}

		v := *st.Verdict
		got, ok := v[t.name]
		sym.Assert(ok && got == want, "the verdict is inconclusive, pass or fail as the events so far are a proper part of the prefix, the prefix, or the trace")
		sym.Assert(len(v) == 1, "no verdict is reported for another test")
		sym.Assert(v.IsInc() == (want == testlang.OutcomeInc) && v.IsPass() == (want == testlang.OutcomePass) && v.IsFail() == (want == testlang.OutcomeFail), "the verdict's questions are answered")

		for _, e := range others(i) {
			next := step(st, &e.ev)

			if i < len(t.parts) && gen.SameEvent(&e.ev, &t.parts[i].ev) {
				sym.Assert(len(next) == 1, "the next event of the trace has one transition")
				sym.Reach("same")
			} else {
				sym.Assert(len(next) == 0, "any other event has no transition")
				sym.Reach("stray")
			}
		}

		if i == len(t.parts) {
			return
		}

		next := step(st, &t.parts[i].ev)
		sym.Assert(len(next) == 1, "the next event of the trace has one transition")

		if len(next) != 1 {
			return
		}

		at = next[0]
	}
}

func has(m *stm.Stm, name string) bool {
	for _, v := range m.Tests.Values() {
		if v == name {
			return true
		}
	}

	return false
}

// anyStray is an event of any letter, direction and kind of value, in any state of the trace.
func (t *traceOf) anyStray() func(int) []part {
	state := sym.Choice("stray state", len(t.parts)+1)

	return func(at int) []part {
		if at != state {
			return nil
		}

		return []part{mk(gen.Of("stray channel", 1, gen.Letters), sym.Choice("stray direction", 3), sym.Choice("stray value", 3))}
	}
}

// odd makes a trace of n events, of which one has any direction and kind of value.
func odd(n int) *traceOf {
	t := &traceOf{name: "test0"}
	at := sym.Choice("odd", n)

	for i := 0; i < n; i++ {
		ch := gen.Of("channel", 1, gen.Letters)

		if i == at {
			t.parts = append(t.parts, mk(ch, sym.Choice("direction", 3), sym.Choice("value", 3)))
		} else {
			t.parts = append(t.parts, mk(ch, 1, 1))
		}
	}

	return t
}

// CheckOne runs a trace.
func CheckOne() {
	sym.Bound("one unnamed trace of 1 to 2 events (3 in the thorough tier) on channels of any letter, with any digits, one of them of any direction and any digit or letter or no value, then any other event of these in any state")

	t := odd(1 + sym.Choice("events", max(2, 3)))

	if s := run([]*traceOf{t}); s != nil {
		t.walk(s, t.anyStray())
	}
}

// CheckLong runs longer traces that repeat themselves.
func CheckLong() {
	sym.Bound("one unnamed trace of 4 to 6 events, in which each event but for the first is any of two, and five other events with any digits and letters in every state")

	t := &traceOf{name: "test0"}
	a, b := mk("a", 1, 1), mk("a", 1, 1)

	for i := 4 + sym.Choice("events", 3); i > 0; i-- {
		if len(t.parts) > 0 && sym.Choice("which", 2) == 1 {
			t.parts = append(t.parts, b)
		} else {
			t.parts = append(t.parts, a)
		}
	}

	if s := run([]*traceOf{t}); s != nil {
		t.walk(s, func(int) []part {
			return []part{a, b, mk("a", 0, 1), mk("aa", 1, 1), mk("a", 2, 2)}
		})
	}
}

// CheckMany runs several traces.
func CheckMany() {
	sym.Bound("two traces of 1 or 2 events (3 traces in the thorough tier), without names, or with the same or another name, that share any of their events, and all of these events in every state")

	evs := []part{mk("a", 1, 1), mk("b", 2, 2), mk("a", 1, 1)}

	var ts []*traceOf

	names, plain := 0, 0

	for i := max(2, 3); i > 0; i-- {
		t := &traceOf{}
		if sym.Choice("named", 2) == 1 {
			t.given, t.name = "x", "x"
			if names > 0 {
				t.name = "x" + strconv.Itoa(names-1)
			}

			names++
		} else {
			t.name = "test" + strconv.Itoa(plain)
			plain++
		}

		for j := 1 + sym.Choice("events", 2); j > 0; j-- {
			t.parts = append(t.parts, evs[sym.Choice("event", len(evs))])
		}

		ts = append(ts, t)
	}

	s := run(ts)
	if s == nil {
		return
	}

	for _, t := range ts {
		t.walk(s, func(int) []part { return evs })
	}
}

// CheckBig runs a trace of many events, or many traces.
func CheckBig() {
	sym.Bound("one trace of 25 or of 140 events, or 12 or 120 of 1 to 4, with and without names, with arbitrary digits in two of the events; and all of the first trace's first 11 events, and others, in every state")

	var ts []*traceOf

	lens := []int{25}

	switch sym.Choice("many", 4) {
	case 1:
		lens = []int{2, 1, 3, 2, 4, 1, 2, 3, 2, 2, 1, 3}
	case 2:
		lens = []int{140}
	case 3:
		lens = nil
		for i := 0; i < 120; i++ {
			lens = append(lens, 1+i%4)
		}
	}

	evs := []part{mk("a", 1, 1), mk("a", 1, 1)}

	for i := 0; i < 9; i++ {
		d := int64(i)
		p := part{ch: "ab" + gen.Dec(i/3), kind: i % 3, val: gen.Val{Kind: 1, Int: d}}
		p.text = p.ch + "." + gen.KindNames[p.kind] + "." + gen.Dec(i)
		p.ev = gen.Event(p.ch, gen.Kinds[p.kind], p.val)
		evs = append(evs, p)
	}

	plain := 0

	for i, n := range lens {
		t := &traceOf{}

		if i%4 == 3 {
			t.given = "n" + gen.Dec(i)
			t.name = t.given
		} else {
			t.name = "test" + gen.Dec(plain)
			plain++
		}

		for j := 0; j < n; j++ {
			t.parts = append(t.parts, evs[(i*i+j*j+j)%len(evs)])
		}

		ts = append(ts, t)
	}

	s := run(ts)
	if s == nil {
		return
	}

	for _, t := range ts {
		t.walk(s, func(int) []part { return evs })
	}

	sym.Reach("done")
}
