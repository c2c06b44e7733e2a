// Package sets checks verdicts, sets and stacks.
package sets

import (
	"encoding/json"

	"github.com/UoY-RoboStar/rtcg/internal/stm/verdict"
	"github.com/UoY-RoboStar/rtcg/internal/structure"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

func max(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}

	return quick
}

func min(a, b int) int {
	if a < b {
		return a
	}

	return b
}

func sortedUnique(vs []string) bool {
	for i := 1; i < len(vs); i++ {
		if vs[i-1] >= vs[i] {
			return false
		}
	}

	return true
}

// exactly says whether vs has exactly the entries of want, once each.
func exactly(vs, want []string) bool {
	if len(vs) != len(want) {
		return false
	}

	ok := true

	for _, w := range want {
		n := false
		for _, v := range vs {
			n = sym.Or(n, sym.EqStr(v, w))
		}

		ok = sym.And(ok, n)
	}

	return ok
}

// model is what a verdict should have.
type model struct {
	keys []string
	outs []testlang.Outcome
}

func (m *model) of(o testlang.Outcome) []string {
	var want []string

	for i, k := range m.keys {
		if m.outs[i] == o {
			want = append(want, k)
		}
	}

	return want
}

func anyVerdict(additions, total int) (verdict.Verdict, *model) {
	var (
		v = verdict.Verdict{}
		m model
	)

	for i := sym.Choice("additions", additions+1); i > 0; i-- {
		o := testlang.Outcome(sym.Choice("outcome", 4))
		names := make([]string, sym.Choice("names", min(total, 2)+1))
		total -= len(names)

		for j := range names {
			names[j] = gen.Of("name", 1, gen.IdentCs)
		}

		v.Add(o, names...)

		for _, n := range names {
			at := -1

			for k := range m.keys {
				if m.keys[k] == n {
					at = k
				}
			}

			if at < 0 {
				m.keys, m.outs = append(m.keys, n), append(m.outs, o)
			} else {
				m.outs[at] = o
			}
		}
	}

	return v, &m
}

// CheckVerdict adds arbitrary tests to a verdict.
func CheckVerdict() {
	sym.Bound("up to 2 additions (3 in the thorough tier) of up to 2 names each, and 3 (4) in all, of an arbitrary byte, with any outcome, then any question, in all orders of iteration over up to 3 tests")

	v, m := anyVerdict(max(2, 3), max(3, 4))

	sym.MapOrder(3)

	o := testlang.Outcome(sym.Choice("of", 4))
	want := m.of(o)

	switch sym.Choice("question", 4) {
	case 0:
		tests := v.Tests()
		sym.Assert(sortedUnique(tests), "the tests of a verdict are sorted, without repetition")
		sym.Assert(exactly(tests, m.keys), "the tests of a verdict are those added")

		for i, k := range m.keys {
			sym.Assert(v[k] == m.outs[i], "each test has the outcome added last")
		}

		sym.Reach("tests")
	case 1:
		set := structure.Set[string](v.SetOf(o))
		sym.Assert(exactly(set.Values(), want), "the set of an outcome has the tests with that outcome")
		sym.Reach("set")
	case 2:
		is, ok := v.Is(o), true

		switch o {
		case testlang.OutcomeInc:
			ok = v.IsInc() == is
		case testlang.OutcomePass:
			ok = v.IsPass() == is
		case testlang.OutcomeFail:
			ok = v.IsFail() == is
		}

		sym.Assert(is == (len(want) > 0), "a verdict has an outcome exactly if a test has it")
		sym.Assert(ok, "the yes/no question agrees with the tests")
		sym.Reach("is")
	default:
		var of verdict.TestSet

		switch o {
		case testlang.OutcomeInc:
			of = v.Inc()
		case testlang.OutcomePass:
			of = v.Pass()
		case testlang.OutcomeFail:
			of = v.Fail()
		default:
			return
		}

		set := structure.Set[string](of)
		sym.Assert(exactly(set.Values(), want), "the named set has the tests with its outcome")
		sym.Reach("named set")
	}
}

// CheckVerdictString prints verdicts.
func CheckVerdictString() {
	sym.Bound("up to 2 additions of up to 2 names (3 in the thorough tier) of an arbitrary byte, with any outcome, printed, in all orders of iteration")

	v, m := anyVerdict(2, max(2, 3))

	sym.MapOrder(3)

	got := v.String()
	want := ""

	for len(m.keys) > 0 {
		least := 0
		for i := range m.keys {
			if m.keys[i] < m.keys[least] {
				least = i
			}
		}

		if want != "" {
			want += ", "
		}

		want += m.keys[least] + ": " + m.outs[least].String()
		m.keys = append(m.keys[:least:least], m.keys[least+1:]...)
		m.outs = append(m.outs[:least:least], m.outs[least+1:]...)
	}

	sym.Assert(got == want, "a verdict prints its tests in order with their outcomes")
	sym.Reach("done")
}

// CheckVerdictJSON writes and reads a verdict.
func CheckVerdictJSON() {
	sym.Bound("verdicts of up to 2 names of one or two arbitrary bytes with any outcome, read into any target, and all orders of iteration")
	sym.MapOrder(2)

	var (
		v = verdict.Verdict{}
		n = sym.Choice("names", 3)
	)

	for i := 0; i < n; i++ {
		set := gen.Letters
		if i == 0 {
			set += " <&\"\\"
		}

		v.Add(testlang.Outcome(sym.Choice("outcome", 4)), gen.Of("name", max(1, 2), set))
	}

	b, err := json.Marshal(&v)
	sym.Assert(err == nil, "verdicts are written")

	var w verdict.Verdict

	if sym.Choice("target", 2) == 1 {
		w = verdict.Verdict{"old": testlang.OutcomePass}
	}

	err = json.Unmarshal(b, &w)
	sym.Assert(err == nil, "written verdicts are read")
	sym.Assert(len(w) == len(v), "a verdict read has as many tests as that written")

	for k, o := range v {
		got, ok := w[k]
		sym.Assert(ok && got == o, "a verdict read has the tests and outcomes of that written")
	}

	sym.Reach("done")
}

// CheckVerdictBad reads verdicts with an arbitrary outcome.
func CheckVerdictBad() {
	sym.Bound("verdicts of two tests, one with an arbitrary outcome of up to 5 letters")

	o := gen.Of("outcome", sym.Choice("length", 6), gen.Letters)

	var w verdict.Verdict

	err := json.Unmarshal([]byte(`{"a":"inc","b":"`+o+`"}`), &w)
	_, perr := testlang.ParseOutcome(o)

	sym.Assert((err == nil) == (perr == nil), "a verdict is read exactly if its outcomes are known")

	if err == nil {
		sym.Reach("read")
	} else {
		sym.Reach("refused")
	}
}

// CheckSet adds arbitrary strings to a set.
func CheckSet() {
	sym.Bound("sets made of up to 2 strings of an arbitrary byte, with up to 2 additions of up to 2 more (3 in the thorough tier), through JSON, and all orders of iteration")
	sym.MapOrder(3)

	var want []string

	note := func(vs []string) {
		for _, v := range vs {
			dup := false
			for _, w := range want {
				dup = dup || v == w
			}

			if !dup {
				want = append(want, v)
			}
		}
	}

	pick := func() []string {
		vs := make([]string, sym.Choice("values", 3))
		for i := range vs {
			vs[i] = gen.Of("value", 1, gen.IdentCs)
		}

		return vs
	}

	vs := pick()
	s := structure.NewSet(vs...)
	note(vs)

	for i := sym.Choice("additions", max(2, 3)); i > 0; i-- {
		vs := pick()
		s.Add(vs...)
		note(vs)
	}

	sym.Assert(exactly(s.Values(), want), "a set has exactly the values added, once each")

	b, err := json.Marshal(&s)
	sym.Assert(err == nil, "sets are written")

	t := structure.NewSet("old")
	err = json.Unmarshal(b, &t)
	sym.Assert(err == nil && exactly(t.Values(), want), "a set read has exactly the values of that written")

	var u structure.Set[string]

	err = json.Unmarshal(b, &u)
	sym.Assert(err == nil && exactly(u.Values(), want), "a set can be read into an empty one")
	u.Add("extra")

	for _, w := range want {
		if w == "extra" {
			return
		}
	}

	sym.Assert(exactly(u.Values(), append(want, "extra")), "a set that was read can be added to")
	sym.Reach("done")
}

// CheckSetDup reads sets in which members are repeated.
func CheckSetDup() {
	sym.Bound("JSON lists of three strings of an arbitrary letter each")

	a, b, c := gen.Of("a", 1, gen.Letters), gen.Of("b", 1, gen.Letters), gen.Of("c", 1, gen.Letters)

	var s structure.Set[string]

	err := json.Unmarshal([]byte(`["`+a+`","`+b+`","`+c+`"]`), &s)
	sym.Assert(err == nil, "lists are read as sets")

	want := []string{a}
	if b != a {
		want = append(want, b)
	}

	if c != a && c != b {
		want = append(want, c)
	}

	sym.Assert(exactly(s.Values(), want), "a set read has each member of the list once")
	sym.Reach("done")
}

// CheckStack pushes and pops in any order.
func CheckStack() {
	sym.Bound("all sequences of up to 7 operations (9 in the thorough tier) on stacks of arbitrary integers")

	var (
		s structure.Stack[int64]
		m []int64
	)

	for i := sym.Choice("operations", max(7, 9)+1); i > 0; i-- {
		sym.Assert(s.IsEmpty() == (len(m) == 0), "a stack is empty exactly if nothing is left in it")

		switch op := sym.Choice("op", 3); {
		case op == 0:
			v := sym.Int64("value")
			s.Push(v)
			m = append(m, v)
		case op == 1 && len(m) > 0:
			sym.Assert(s.Pop() == m[len(m)-1], "what is popped is what was pushed last")
			m = m[:len(m)-1]
		case op == 2:
			s.Clear()
			m = nil
		default:
			return
		}
	}

	for len(m) > 0 {
		sym.Assert(!s.IsEmpty(), "a stack is empty exactly if nothing is left in it")
		sym.Assert(s.Pop() == m[len(m)-1], "what is popped is what was pushed last")
		m = m[:len(m)-1]
	}

	sym.Assert(s.IsEmpty(), "a stack is empty exactly if nothing is left in it")
	sym.Reach("done")
}

// CheckBig fills sets, verdicts and stacks with many values.
func CheckBig() {
	sym.Bound("sets and verdicts of 20 names (40 in the thorough tier), one of them arbitrary, with any outcome; stacks of 40 (100) integers; with at most one iteration that is backwards")

	n := max(20, 40)
	odd := gen.Of("name", 3, gen.IdentCs)
	at := sym.Choice("at", n)

	names := make([]string, n)
	for i := range names {
		// In no order.
		names[i] = "n" + string([]byte{'0' + byte(i*7%n/10), '0' + byte(i*7%n%10)})
	}

	for i := range names {
		if names[i] == odd && i != at {
			sym.Stop()
		}
	}

	names[at] = odd

	switch sym.Choice("what", 4) {
	case 0:
		s := structure.NewSet(names[:n/2]...)
		s.Add(names[n/3:]...)

		sym.MapOrder(1)
		sym.MapTurns(1)

		sym.Assert(exactly(s.Values(), names), "a set has exactly the values added, once each")
		sym.Reach("set")
	case 1:
		b, err := json.Marshal(names)
		sym.Assert(err == nil, "names are written")

		var s structure.Set[string]

		err = json.Unmarshal(b, &s)
		sym.Assert(err == nil && exactly(s.Values(), names), "a set read has each member of the list once")

		b, err = json.Marshal(&s)
		sym.Assert(err == nil, "sets are written")

		var t structure.Set[string]

		err = json.Unmarshal(b, &t)
		sym.Assert(err == nil && exactly(t.Values(), names), "a set read has exactly the values of that written")
		sym.Reach("JSON")
	case 2:
		m := model{keys: names}
		v := verdict.Verdict{}
		o := testlang.Outcome(sym.Choice("outcome", 4))

		for i := range names {
			p := testlang.Outcome(i % 4)
			if i == at {
				p = o
			}

			v.Add(p, names[i])
			m.outs = append(m.outs, p)
		}

		sym.MapOrder(1)
		sym.MapTurns(1)

		tests := v.Tests()
		sym.Assert(sortedUnique(tests) && exactly(tests, names), "the tests of a verdict are sorted, without repetition")

		for p := testlang.Outcome(0); p < 4; p++ {
			set := structure.Set[string](v.SetOf(p))
			sym.Assert(exactly(set.Values(), m.of(p)), "the set of an outcome has the tests with that outcome")
		}

		sym.Reach("verdict")
	default:
		var s structure.Stack[int64]

		vs := make([]int64, max(40, 100))
		for i := range vs {
			vs[i] = sym.Int64("value")
			s.Push(vs[i])
		}

		// Half of them are taken, and put back.
		for i := len(vs) - 1; i >= len(vs)/2; i-- {
			sym.Assert(!s.IsEmpty() && s.Pop() == vs[i], "what is popped is what was pushed last")
		}

		for i := len(vs) / 2; i < len(vs); i++ {
			s.Push(vs[i])
		}

		for i := len(vs) - 1; i >= 0; i-- {
			sym.Assert(!s.IsEmpty() && s.Pop() == vs[i], "what is popped is what was pushed last")
		}

		sym.Assert(s.IsEmpty(), "a stack is empty exactly if nothing is left in it")
		sym.Reach("stack")
	}
}

// CheckHuge puts hundreds of names into sets and verdicts, and numbers on a stack.
func CheckHuge() {
	sym.Bound("sets and verdicts of 300 names, 200 of which are added again with the next outcome, and stacks of 300 integers, with an arbitrary byte in one of them")

	const n = 300

	names := make([]string, n)
	for i := range names {
		names[i] = "n" + gen.Dec(i*7%n)
	}

	names[257] = "m" + gen.Of("name", 1, gen.IdentCs)

	exact := func(got, want []string) bool {
		if len(got) != len(want) {
			return false
		}

		m := map[string]bool{}
		for _, g := range got {
			m[g] = true
		}

		for _, w := range want {
			if !m[w] {
				return false
			}
		}

		return len(m) == len(want)
	}

	switch sym.Choice("what", 3) {
	case 0:
		s := structure.NewSet(names[:200]...)
		for i := 100; i < n; i++ {
			s.Add(names[i])
		}

		sym.Assert(exact(s.Values(), names), "a set has exactly the values added, once each")

		b, err := json.Marshal(&s)
		sym.Assert(err == nil, "sets are written")

		var t structure.Set[string]

		err = json.Unmarshal(b, &t)
		sym.Assert(err == nil && exact(t.Values(), names), "a set read has exactly the values of that written")
		sym.Reach("set")
	case 1:
		m := model{keys: names}
		v := verdict.Verdict{}

		for i := range names {
			v.Add(testlang.Outcome(i%4), names[i])
			m.outs = append(m.outs, testlang.Outcome(i%4))
		}

		for i := range names {
			if i%3 > 0 {
				m.outs[i] = testlang.Outcome((i + 1) % 4)
				v.Add(m.outs[i], names[i])
			}
		}

		tests := v.Tests()
		sym.Assert(sortedUnique(tests) && exact(tests, names), "the tests of a verdict are sorted, without repetition")

		for p := testlang.Outcome(0); p < 4; p++ {
			set := structure.Set[string](v.SetOf(p))
			sym.Assert(exact(set.Values(), m.of(p)), "the set of an outcome has the tests with that outcome")
		}

		sym.Reach("verdict")
	default:
		var s structure.Stack[int64]

		vs := make([]int64, n)
		for i := range vs {
			vs[i] = sym.Int64("value")
			s.Push(vs[i])
		}

		for i := n - 1; i >= 0; i-- {
			sym.Assert(!s.IsEmpty() && s.Pop() == vs[i], "what is popped is what was pushed last")
		}

		sym.Assert(s.IsEmpty(), "a stack is empty exactly if nothing is left in it")
		sym.Reach("stack")
	}
}

// CheckMaps maps functions over maps.
func CheckMaps() {
	sym.Bound("maps of up to 3 entries with an error at any key, and all orders of iteration")
	sym.MapOrder(3)

	in := map[string]int64{}
	keys := []string{"a", "b", "c"}[:sym.Choice("entries", 4)]
	bad := sym.Choice("bad", 4)
	vals := make([]int64, len(keys))

	for i, k := range keys {
		vals[i] = sym.Int64("value")
		in[k] = vals[i]
	}

	got, err := structure.TryOverMapValues(in, func(v int64) (int64, error) {
		if bad < len(keys) && v == vals[bad] {
			return 0, errBad
		}

		return v + 1, nil
	})

	if bad < len(keys) {
		sym.Assert(err == errBad && got == nil, "an error of the function is the result")
		sym.Reach("error")
	} else {
		sym.Assert(err == nil && len(got) == len(keys), "every key is mapped")
		sym.Reach("no error")

		for i, k := range keys {
			sym.Assert(got[k] == vals[i]+1, "every key has the function's value")
		}
	}

	over := structure.OverMap(in, func(k string, v int64) (string, int64) { return k + k, v + 2 })
	sym.Assert(len(over) == len(keys), "every entry is mapped")

	for i, k := range keys {
		sym.Assert(over[k+k] == vals[i]+2, "every entry is mapped by the function")
	}
}

type badError struct{}

func (badError) Error() string { return "bad" }

var errBad error = badError{}
