// Package group checks how transitions are grouped by channel.
package group

import (
	"strconv"

	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/stm/transition"
	"github.com/UoY-RoboStar/rtcg/internal/stm/verdict"
	"github.com/UoY-RoboStar/rtcg/internal/structure"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

func max(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}

	return quick
}

// one is a transition of the model.
type one struct {
	set, state int
	ch         channel.Channel
	next       string
}

type model struct {
	ids  []string
	sets [][]channel.Channel
	all  []one // in the order of states

	from []int // where each state's start
	n    int   // of how many
}

func anyChannel() channel.Channel {
	k := sym.Byte("direction")
	sym.Assume(k < 3)

	return channel.New(gen.Of("channel", 1, gen.Letters), channel.Kind(k))
}

// anyMachine is a machine of any channels. Each transition has a target of its own.
func anyMachine(states, sets, trans int, repeat bool) (*model, *stm.Stm) {
	m := &model{}
	s := &stm.Stm{Tests: structure.NewSet("t")}

	for i := sym.Choice("states", states+1); i > 0; i-- {
		id := "s" + strconv.Itoa(len(m.ids))
		st := &stm.State{ID: testlang.NodeID(id), Verdict: &verdict.Verdict{}}
		si := len(m.ids)
		m.ids = append(m.ids, id)
		m.sets = append(m.sets, nil)

		for j := sym.Choice("sets", sets+1); j > 0; j-- {
			ch := anyChannel()

			for _, c := range m.sets[si] {
				if !repeat && c == ch {
					sym.Stop()
				}
			}

			m.sets[si] = append(m.sets[si], ch)

			// Leave room behind the transitions, as appending does.
			ts := make([]transition.Transition, 0, 4)

			n := 0
			if si == 0 {
				n = sym.Choice("transitions", trans)
			}

			for k := n; k >= 0; k-- {
				next := "n" + strconv.Itoa(len(m.all))
				m.all = append(m.all, one{len(m.sets[si]) - 1, si, ch, next})
				ts = append(ts, transition.Transition{Value: gen.Val{Kind: 1, Int: int64(len(m.all))}.Value(), Next: testlang.NodeID(next)})
			}

			st.TransitionSets = append(st.TransitionSets, transition.NewSet(ch, ts...))
		}

		s.States = append(s.States, st)
	}

	return m, s
}

// channels are the channels in order of first use.
func (m *model) channels() []channel.Channel {
	var r []channel.Channel

	for _, cs := range m.sets {
		for _, c := range cs {
			dup := false
			for _, d := range r {
				dup = dup || c == d
			}

			if !dup {
				r = append(r, c)
			}
		}
	}

	return r
}

// of are the targets of a state on a channel, or on all inputs, channel by channel.
func (m *model) of(state int, ch channel.Channel) []string {
	var r []string

	if m.from == nil || m.n != len(m.all) {
		m.from, m.n = make([]int, len(m.ids)+1), len(m.all)

		for _, t := range m.all {
			for i := t.state + 1; i < len(m.from); i++ {
				m.from[i]++
			}
		}
	}

	for _, t := range m.all[m.from[state]:m.from[state+1]] {
		if t.ch == ch {
			r = append(r, t.next)
		}
	}

	return r
}

func sameTargets(ts []transition.Transition, want []string) bool {
	if len(ts) != len(want) {
		return false
	}

	for i := range ts {
		n, _ := strconv.Atoi(want[i][1:])
		if string(ts[i].Next) != want[i] || !ts[i].Value.Equals(gen.Val{Kind: 1, Int: int64(n + 1)}.Value()) {
			return false
		}
	}

	return true
}

// sets looks at aggregates.
func (m *model) aggregates(got []transition.AggregateSet, want []channel.Channel) {
	sym.Assert(len(got) == len(want), "there is one set per channel and direction")

	if len(got) != len(want) {
		return
	}

	for i, ch := range want {
		sym.Assert(got[i].Channel == ch, "sets are in the order of first use")

		n := 0

		for s, id := range m.ids {
			w := m.of(s, ch)
			sym.Assert(sameTargets(got[i].States[testlang.NodeID(id)], w), "each set has exactly each state's transitions on its channel, in order")

			if len(w) > 0 {
				n++
			}
		}

		sym.Assert(len(got[i].States) == n, "each set has no other states")
	}
}

// unchanged looks whether the machine is as before.
func (m *model) unchanged(s *stm.Stm) {
	sym.Assert(len(s.States) == len(m.ids), "the machine is left alone")

	at := 0

	for i, st := range s.States {
		sym.Assert(string(st.ID) == m.ids[i] && len(st.TransitionSets) == len(m.sets[i]), "the machine is left alone")

		for j := range st.TransitionSets {
			ts := &st.TransitionSets[j]
			sym.Assert(ts.Channel == m.sets[i][j], "the machine is left alone")

			var want []string

			for at < len(m.all) && m.all[at].state == i && m.all[at].set == j {
				want = append(want, m.all[at].next)
				at++
			}

			sym.Assert(sameTargets(ts.Transitions, want), "the machine is left alone")
		}
	}
}

func (m *model) context(c *gencommon.Context, s *stm.Stm, name string) {
	t := &c.Transitions
	chs := m.channels()

	sym.Assert(c.Name == name && c.Stm == s, "templates get the machine and its name")
	m.aggregates(t.All, chs)

	var ins, outs []channel.Channel

	sym.Assert(len(t.Channels) == len(chs), "templates get all channels")

	for i, ch := range chs {
		if i < len(t.Channels) {
			sym.Assert(t.Channels[i] == ch, "templates get all channels, in order")
		}

		if ch.Kind == channel.KindIn {
			ins = append(ins, ch)
		} else {
			outs = append(outs, ch)
		}
	}

	m.aggregates(t.In, ins)
	m.aggregates(t.Out, outs)
	sym.Assert(t.HasIn == (len(ins) > 0), "templates know whether there are inputs")

	first := false

	if len(m.sets) > 0 {
		for _, ch := range m.sets[0] {
			first = first || ch.Kind == channel.KindIn
		}
	}

	sym.Assert(t.FirstStateHasIn == first, "templates know whether the first state has an input")

	n := 0

	for i, id := range m.ids {
		var want []string

		for _, ch := range ins {
			want = append(want, m.of(i, ch)...)
		}

		if len(want) > 0 {
			n++
		}

		sym.Assert(sameTargets(t.InMerged[testlang.NodeID(id)], want), "merged inputs are each state's inputs, channel by channel")
	}

	sym.Assert(len(t.InMerged) == n, "merged inputs have no other states")
}

// CheckAggregate groups the transitions of machines, twice.
func CheckAggregate() {
	sym.Bound("machines of up to 3 states of up to 2 sets, of one transition (up to 2 in the first state in the thorough tier), on channels of any letter and direction, also the same one twice in a state")

	m, s := anyMachine(3, 2, max(1, 2), true)

	m.aggregates(s.TransitionSets(), m.channels())
	m.aggregates(s.TransitionSets(), m.channels())
	m.unchanged(s)
	sym.Reach("done")
}

// CheckContext makes what templates get, twice.
func CheckContext() {
	sym.Bound("machines of up to 2 states of up to 2 sets (3 in the thorough tier) of one transition, or up to 2 in the first state, on channels of any letter and direction, in all orders of iteration")

	m, s := anyMachine(2, max(2, 3), 2, false)

	sym.MapOrder(3)

	c := gencommon.NewContext("name", s)
	d := gencommon.NewContext("other", s)

	sym.MapOrder(0)

	m.context(&c, s, "name")
	m.context(&d, s, "other")
	m.unchanged(s)

	for i, st := range s.States {
		in := false
		for _, ch := range m.sets[i] {
			in = in || ch.Kind == channel.KindIn
		}

		sym.Assert(st.HasIn() == in, "a state has an input exactly if one of its transitions is one")

		f := st.In()
		if f == nil {
			continue
		}

		sym.Reach("input")
		sym.Assert(f.Channel.Kind == channel.KindIn && sameTargets([]transition.Transition{f.Transition}, m.of(i, f.Channel)), "the input of a state is its only transition on an input")
	}

	sym.Reach("done")
}

// CheckBig groups the transitions of large machines.
func CheckBig() {
	sym.Bound("a machine of 12 states (20 in the thorough tier) of up to 12 sets of up to 3 transitions, on 15 channels of which one has an arbitrary name and direction, with at most one iteration that is backwards")

	var (
		m   = &model{}
		s   = &stm.Stm{Tests: structure.NewSet("t")}
		chs []channel.Channel
	)

	for i := 0; i < 15; i++ {
		if i == 2 {
			chs = append(chs, anyChannel())
		} else {
			chs = append(chs, channel.New(string([]byte{'a' + byte(i/2)}), gen.Kinds[i%3]))
		}
	}

	for si := 0; si < max(12, 20); si++ {
		id := "s" + strconv.Itoa(si)
		st := &stm.State{ID: testlang.NodeID(id), Verdict: &verdict.Verdict{}}
		m.ids = append(m.ids, id)
		m.sets = append(m.sets, nil)

		for j := 0; j < (si*5)%13; j++ {
			ch := chs[(si*si+j)%len(chs)]

			for _, c := range m.sets[si] {
				if c == ch {
					sym.Stop()
				}
			}

			m.sets[si] = append(m.sets[si], ch)

			var ts []transition.Transition

			for k := (si + j) % 3; k >= 0; k-- {
				next := "n" + strconv.Itoa(len(m.all))
				m.all = append(m.all, one{j, si, ch, next})
				ts = append(ts, transition.Transition{Value: gen.Val{Kind: 1, Int: int64(len(m.all))}.Value(), Next: testlang.NodeID(next)})
			}

			st.TransitionSets = append(st.TransitionSets, transition.NewSet(ch, ts...))
		}

		s.States = append(s.States, st)
	}

	sym.MapOrder(3)
	sym.MapTurns(1)

	c := gencommon.NewContext("name", s)

	sym.MapOrder(0)

	m.context(&c, s, "name")
	m.unchanged(s)
	sym.Reach("done")
}

// CheckHuge groups the transitions of a very large machine.
func CheckHuge() {
	sym.Bound("a machine of 270 states of up to 3 sets of up to 2 transitions, and one of 260 sets of which one has 260 transitions, on 260 channels of which one has an arbitrary name and direction")

	var (
		m   = &model{}
		s   = &stm.Stm{Tests: structure.NewSet("t")}
		chs []channel.Channel
	)

	for i := 0; i < 260; i++ {
		if i == 258 {
			chs = append(chs, anyChannel())
		} else {
			chs = append(chs, channel.New("ch"+strconv.Itoa(i/2), gen.Kinds[i%3]))
		}
	}

	for si := 0; si < 270; si++ {
		id := "s" + strconv.Itoa(si)
		st := &stm.State{ID: testlang.NodeID(id), Verdict: &verdict.Verdict{}}
		m.ids = append(m.ids, id)
		m.sets = append(m.sets, nil)

		sets := si % 4
		if si == 257 {
			sets = len(chs)
		}

		for j := 0; j < sets; j++ {
			ch := chs[(si*si+j)%len(chs)]

			for _, c := range m.sets[si] {
				if c == ch {
					sym.Stop()
				}
			}

			m.sets[si] = append(m.sets[si], ch)

			var ts []transition.Transition

			num := 1 + (si+j)%2
			if si == 257 && j == 200 {
				num = 260
			}

			for k := num; k > 0; k-- {
				next := "n" + strconv.Itoa(len(m.all))
				m.all = append(m.all, one{j, si, ch, next})
				ts = append(ts, transition.Transition{Value: gen.Val{Kind: 1, Int: int64(len(m.all))}.Value(), Next: testlang.NodeID(next)})
			}

			st.TransitionSets = append(st.TransitionSets, transition.NewSet(ch, ts...))
		}

		s.States = append(s.States, st)
	}

	c := gencommon.NewContext("name", s)

	m.context(&c, s, "name")
	m.unchanged(s)
	sym.Reach("done")
}

// CheckAdd adds transitions one by one.
func CheckAdd() {
	sym.Bound("up to 4 transitions (5 in the thorough tier) on channels of any letter and direction")

	m := &model{ids: []string{"s"}}

	var sets []transition.Set

	for i := sym.Choice("transitions", max(5, 6)); i > 0; i-- {
		ch := anyChannel()
		next := "n" + strconv.Itoa(len(m.all))
		m.all = append(m.all, one{0, 0, ch, next})
		sets = transition.AddToSets(sets, ch, transition.Transition{Value: gen.Val{Kind: 1, Int: int64(len(m.all))}.Value(), Next: testlang.NodeID(next)})
	}

	for _, t := range m.all {
		m.sets = append(m.sets, []channel.Channel{t.ch})
	}

	chs := m.channels()
	sym.Assert(len(sets) == len(chs), "there is one set per channel and direction")

	for i := range sets {
		if i < len(chs) {
			sym.Assert(sets[i].Channel == chs[i] && sets[i].IsForChannel(chs[i]), "sets are in the order of first use")
			sym.Assert(sameTargets(sets[i].Transitions, m.of(0, chs[i])), "each set has exactly the transitions on its channel, in order")
		}
	}

	sym.Reach("done")
}
