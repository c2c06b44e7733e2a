package driver

import (
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

// events of traces.
func events(num int64, call bool) []ev {
	return []ev{
		{ch: "a", in: true, str: "X"}, {ch: "a", call: call, str: "X"}, {ch: "a", call: call, str: "Yy"}, {ch: "b", num: num}, {ch: "b", in: true, num: 3},
	}
}

func pick(name string, es []ev) ev { return es[sym.Choice(name, len(es))] }

// traces runs the drivers of traces.
func traces(ros bool) {
	type kind struct {
		num      int64
		base     string
		override bool
		call     bool
	}

	kinds := []kind{{7, "unsigned int", false, false}, {-7, "int", false, false}, {7, "unsigned int", true, false}, {7, "unsigned int", false, true}}
	if ros {
		kinds = []kind{{7, "unsigned int", true, false}, {-7, "int", true, false}, {7, "unsigned int", true, true}}
	}

	k := kinds[sym.Choice("kind", len(kinds))]
	es := events(k.num, k.call)

	var tr []ev

	n := sym.Choice("prefix", max(3, 4))
	if k.call && n > 1 || n > 2 && k != kinds[0] {
		sym.Stop()
	}

	for i := 0; i <= n; i++ {
		tr = append(tr, pick("event", es))
	}

	b, neg, call := false, false, false

	for _, e := range tr {
		call = call || e.call
		b = b || e.ch == "b"
		neg = neg || e.num < 0
	}

	if !b && (k.override && !k.call || k.num < 0) || k.num < 0 && !neg || k.call != call {
		sym.Stop()
	}

	h := how{ros: ros, override: k.override, input: machine("t", tr)}
	nodes := ofTrace(tr)
	s := &session{h: h, o: start(nodes, []string{"t"}), name: "t", signed: neg, outs: outChannels(nodes), late: 2, words: 2, digits: 1}

	// With longer traces it takes too long to put idle actions everywhere.
	if n <= 1 {
		s.idle = 1
		s.ends = n == 0 || sym.Thorough()
	}

	s.run(h.make(k.base), n+2+s.idle)
}

// CheckAnimate runs drivers that a user animates.
func CheckAnimate() {
	sym.Samples(40)
	sym.Bound("animated drivers of traces of up to 3 events (4 in the thorough tier, without negative numbers) of an enumeration channel and a number channel, each in both directions (or, with up to 2 events, with calls), with natural, negative and converted numbers; up to 2 more actions than events: ready, accept, timeout, any output of 1-2 printable ASCII bytes or 1 digit and a sign, and, with up to 2 events, one action that is ignored (any word of 2 letters, or a number channel with a line that is no number) and, with one event, an input that ends anywhere")
	traces(false)
}

// CheckLong runs drivers of long traces.
func CheckLong() {
	sym.Samples(20)
	sym.Bound("drivers (animated, and in ROS with converted numbers) of a trace of 14 events in which events repeat, that is followed for any number of steps, or of 140 events, followed for 3, 128 or at least 138 steps, then up to three other actions as above (four in the thorough tier)")

	es := events(7, false)

	var tr []ev

	n := 14
	if sym.Choice("huge", 2) == 1 {
		n = 140
	}

	for i := 0; i < n; i++ {
		tr = append(tr, es[(i*i+2*i+i/3)%len(es)])
	}

	h := how{ros: sym.Choice("ros", 2) == 1, input: machine("t", tr)}
	h.override = h.ros
	nodes := ofTrace(tr)
	s := &session{h: h, o: start(nodes, []string{"t"}), name: "t", outs: outChannels(nodes), late: 1, words: 1, digits: 1, ends: true}
	p := s.h.make("unsigned int")

	follow := 0
	if n == 14 {
		follow = sym.Choice("follow", len(tr)+2)
	} else {
		follow = []int{3, 128, n - 2, n - 1, n, n + 1}[sym.Choice("follow", 6)]
	}

	for k := follow; k > 0 && s.o.running(); k-- {
		s.follow()
	}

	s.run(p, max(3, 4))
}

// CheckLimits runs drivers with large numbers.
func CheckLimits() {
	sym.Samples(40)
	sym.Bound("animated drivers of a trace with a number at or near the limits of 8, 16 and 32 bits, and one output of any number that fits into 32 bits and differs from such a number in at most the last 2 digits (3 in the thorough tier)")

	nums := []int64{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967294, 4294967295}
	low := []int64{-1, -128, -129, -32768, -32769, -2147483647, -2147483648}
	limit := int64(4294967295)
	base := "unsigned int"

	var n int64

	signed := sym.Choice("signed", 2) == 1
	if signed {
		n = low[sym.Choice("number", len(low))]
		limit, base = 2147483647, "int"
	} else {
		n = nums[sym.Choice("number", len(nums))]
	}

	tr := []ev{{ch: "b", num: n}}
	nodes := ofTrace(tr)
	s := &session{h: how{input: machine("t", tr)}, o: start(nodes, []string{"t"}), name: "t", signed: signed, outs: outChannels(nodes), digits: max(2, 3), max: limit, near: nums}
	s.run(s.h.make(base), 1)
}

// CheckRos runs drivers that use ROS.
func CheckRos() {
	sym.Samples(40)
	sym.Bound("ROS drivers of such traces, with converted numbers, on a stand-in of ROS that may deliver up to 2 messages or timer events after the end")
	traces(true)
}

// mjson is the text of a machine.
func mjson(nodes []*node, tests []string) string {
	short := map[outcome]string{inc: "inc", passed: "pass", failed: "fail"}
	id := func(i int) string {
		if i == 0 {
			return "initial"
		}

		return "node" + string(rune('A'+i))
	}

	s := `{"types":{"a":"enum","b":"nat"},"tests":{"m":{"states":[`

	for i, n := range nodes {
		if i > 0 {
			s += ","
		}

		s += `{"id":"` + id(i) + `","transitionSets":[`
		last := ""

		for j, t := range n.trans {
			ch := t.ev.ch + ".out"
			if t.ev.in {
				ch = t.ev.ch + ".in"
			}

			if ch != last {
				if j > 0 {
					s += "]},"
				}

				s += `{"channel":"` + ch + `","transitions":[`
			} else {
				s += ","
			}

			last = ch
			s += `{"value":"` + t.ev.val() + `","next":"` + id(t.next) + `"}`
		}

		if last != "" {
			s += "]}"
		}

		s += `],"verdicts":{`
		sep := ""

		for _, t := range tests {
			if v, ok := n.verdicts[t]; ok {
				s += sep + `"` + t + `":"` + short[v] + `"`
				sep = ","
			}
		}

		s += "}}"
	}

	s += `],"types":{"a":"enum","b":"nat"},"tests":[`

	for i, t := range tests {
		if i > 0 {
			s += ","
		}

		s += `"` + t + `"`
	}

	return s + "]}}}"
}

// CheckBranches runs drivers of machines for several tests at once.
func CheckBranches() {
	sym.Samples(40)
	sym.Bound("drivers (animated, and in ROS) of machines of 4 states for 2 tests, with up to 4 transitions from a state, an input state, and loops; any outputs as above, up to 3 actions (5 in the thorough tier)")

	outs := []ev{{ch: "a", str: "X"}, {ch: "a", str: "Yy"}, {ch: "b", num: 7}, {ch: "b", num: 3}}
	mode := sym.Choice("verdicts", 3)
	verdict := func(i int) map[string]outcome {
		all := []outcome{inc, passed, failed}
		u := all[(i+mode)%3]

		switch {
		case i == 0:
			return map[string]outcome{"t": inc, "u": inc}
		case mode == 2 && i == 1:
			return map[string]outcome{"u": passed}
		default:
			return map[string]outcome{"t": all[(i*2+mode)%2], "u": u}
		}
	}

	var nodes []*node
	for i := 0; i < 4; i++ {
		nodes = append(nodes, &node{verdicts: verdict(i)})
	}

	set := 1 + sym.Choice("transitions", 15)
	next := 1

	for i, e := range outs {
		if set>>uint(i)&1 == 1 {
			nodes[0].trans = append(nodes[0].trans, trans{e, next})
			next = 1 + next%3
		}
	}

	add := func(i int, t trans) {
		if !nodes[i].fails() {
			nodes[i].trans = append(nodes[i].trans, t)
		}
	}

	add(1, trans{ev{ch: "b", in: true, num: 3}, 2})
	add(2, trans{ev{ch: "b", num: 7}, 0})
	add(3, trans{ev{ch: "a", str: "X"}, 3})

	tests := []string{"t", "u"}
	h := how{ros: sym.Choice("ros", 2) == 1, machine: true, input: mjson(nodes, tests)}
	h.override = h.ros
	s := &session{h: h, o: start(nodes, tests), name: "m", outs: outChannels(nodes), late: 1, words: 2, digits: 1}
	s.run(h.make("unsigned int"), max(3, 5))
}
