import sys; sys.path.insert(0, '/verif/tools')
from seedlib import *
S = []
def seed(*a, **k): S.append((a, k))

seed('C01-last-colon', 'C01', 'a trace whose first event has a value with a colon, as in "t: a.out.x:y"',
 'The name of a trace is cut off at the last colon of its first cell and not at the first one.',
 [('internal/trace/read.go', '''	if name, rest, ok := strings.Cut(cell, ":"); ok {
		trace.Name = strings.TrimSpace(name)
		cell = strings.TrimSpace(rest)
	}
''', '''	if sep := strings.LastIndexByte(cell, ':'); 0 <= sep {
		trace.Name = strings.TrimSpace(cell[:sep])
		cell = strings.TrimSpace(cell[sep+1:])
	}
''')], script='''rtcg-read-traces <<<'t: a.out.x:y' >o.json || exit 1
grep -q '"t"' o.json && grep -q 'a.out.x:y' o.json
''')

seed('C01-shared-prefix', 'C01', 'a file in which a trace follows one with a prefix that is at least as long',
 'The prefix of a trace is made in the memory of the one before, so that earlier traces get the events of later ones.',
 [('internal/trace/read.go', '''	var traces []Forbidden

	for {''', '''	var (
		traces []Forbidden
		events []testlang.Event // events has room for prefixes.
	)

	for {'''),
  ('internal/trace/read.go', 'trace, err := parseRow(row)', 'trace, err := parseRow(row, events)'),
  ('internal/trace/read.go', '''		traces = append(traces, trace)
''', '''		if cap(events) < cap(trace.Prefix) {
			events = make([]testlang.Event, 0, 2*cap(trace.Prefix))
		}

		traces = append(traces, trace)
'''),
  ('internal/trace/read.go', 'func parseRow(row []string) (Forbidden, error) {', '''// grow makes n empty events, in the memory of events if they fit.
func grow(events []testlang.Event, n int) []testlang.Event {
	if cap(events) < n {
		return make([]testlang.Event, n)
	}

	events = events[:n]
	for i := range events {
		events[i] = testlang.Event{}
	}

	return events
}

func parseRow(row []string, events []testlang.Event) (Forbidden, error) {'''),
  ('internal/trace/read.go', 'trace.Prefix = make([]testlang.Event, prefixLen)', 'trace.Prefix = grow(events, prefixLen)')],
 script='''printf 'p: a.in, x.out\\nq: b.in, x.out\\nr: c.in, x.out\\ns: d.in, x.out\\n' | rtcg-read-traces >o.json || exit 1
for c in a b c d; do grep -q "\\"$c.in\\"" o.json || exit 1; done
''')

seed('C02-value-dots', 'C02', 'an event whose value has a dot',
 'What follows the second dot of an event is lost, so that a.out.1.5 becomes a.out.1.',
 [('internal/testlang/channel/channel.go', 'numFields < numChannelParts || numEventParts < numFields', 'numFields < numChannelParts'),
  ('internal/testlang/channel/channel.go', 'bytes.SplitN(text, []byte(EventSep), numEventParts)', 'bytes.Split(text, []byte(EventSep))')],
 script='''rtcg-read-traces <<<'t: a.out.1.5' | grep -q '"a.out.1.5"'
''')

seed('C18-base', 'C18', 'an integer value with a leading zero or a prefix of a base',
 'Integers are read in the base that their prefix names: 010 becomes 8 and 0x10 becomes 16 and not the constant of that name.',
 [('internal/testlang/value/int.go', 'strconv.ParseInt(string(text), intValueBase, 64)', 'strconv.ParseInt(string(text), 0, 64)')],
 script='''rtcg-read-traces <<<'t: a.out.010' | grep -q '"a.out.10"' && rtcg-read-traces <<<'t: a.out.0x10' | grep -q '"a.out.0x10"'
''')

seed('C03-verdict-trim', 'C03', 'a test whose name starts or ends in a blank',
 'Names of tests lose outer blanks when verdicts are read.',
 [('internal/stm/verdict/verdict.go', 'v.Add(outcome, test)', 'v.Add(outcome, strings.TrimSpace(test))')],
 go=gomain(['strings', '@stm'], '''func main() {
	s, err := stm.ReadSuite(strings.NewReader(`{"tests":{" t":{"states":[{"id":"initial","verdicts":{" t":"pass"}}]}}}`))
	check(err == nil, "read")
	v := s.Tests[" t"].States[0].Verdict.Tests()
	check(len(v) == 1 && v[0] == " t", "names of tests stay")
}
'''))

seed('C21-set-merge', 'C21', 'a machine that is read into a value that had tests before, or a suite in which one machine has an empty set of tests',
 'Reading a state machine suite replaces a set of tests only if there are some.',
 [('internal/structure/set.go', '''	s.contents = map[T]bool{}

	s.Add(values...)

	return nil''', '''	if s.contents == nil {
		s.contents = make(map[T]bool, len(values))
	}

	s.Add(values...)

	return nil''')],
 go=gomain(['encoding/json', '@structure'], '''func main() {
	var sets []structure.Set[string]
	check(json.Unmarshal([]byte(`[["a"],["b"]]`), &sets) == nil, "read")
	check(json.Unmarshal([]byte(`[["c"],["d"]]`), &sets) == nil, "read again")
	check(len(sets[0].Values()) == 1 && sets[0].Values()[0] == "c", "a set has what was read")
}
'''))

seed('C04-branches', 'C06', 'a passing node with two or more continuations',
 'A node with several continuations counts as one with a single one, so that passing nodes may branch, and branching trees collapse to their first branch.',
 [('internal/validate/validate.go', 'nnodes != 1', 'nnodes < 1')],
 script='''cat >in.json <<'J'
{"t":{"tests":["t"],"next":[{"outcome":"pass","tests":["t"],"event":"a.out","next":[{"outcome":"fail","tests":["t"]},{"outcome":"fail","tests":["t"]}]}]}}
J
! rtcg-make-stms in.json >/dev/null 2>&1
''')

seed('C04-mark', 'C04', 'a trace with a prefix of two or more events',
 'Only the first and the last inconclusive node of an expanded trace are marked as belonging to the test.',
 [('internal/trace/expand.go', '''		node = testlang.Inc(t.Prefix[i], node)
		node.Mark(name)
''', '''		node = testlang.Inc(t.Prefix[i], node)
		if i == 0 || i == len(t.Prefix)-1 || len(node.Next[0].Tests) == 0 {
			node.Mark(name)
		}
''')],
 script='''rtcg-read-traces <<<'t: a.in.1, b.out.2, c.in.3, d.out.4' >o.json
python3 - <<'P'
import json
def walk(n):
    assert n.get('tests') == ['t'], n
    for m in n.get('next', []): walk(m)
walk(json.load(open('o.json'))['t'])
P
''')

seed('C05-counter', 'C05', 'three traces: two of the same name, and one whose own name is that with a number appended',
 'Numbers of names are counted by name, without a look at what is taken, so that a trace can replace another.',
 [('internal/trace/trace.go', '''	result := make(map[string]Forbidden, len(traces))

	for _''', '''	result := make(map[string]Forbidden, len(traces))
	attempts := make(map[string]int, len(traces))

	for _'''),
  ('internal/trace/trace.go', '		insertName(result, base, trace)\n', '		result[synthesiseName(base, attempts[base])] = trace\n		attempts[base]++\n'),
  ('internal/trace/trace.go', '''func insertName(result map[string]Forbidden, base string, trace Forbidden) {
	for i := 0; ; i++ {
		name := synthesiseName(base, i)

		if _, ok := result[name]; !ok {
			result[name] = trace

			return
		}
	}
}

''', '')],
 script='''printf 'foo0: a.in\\nfoo: b.in\\nfoo: c.in\\n' | rtcg-read-traces >o.json || exit 1
for c in a b c; do grep -q "\\"$c.in\\"" o.json || exit 1; done
''')

seed('C06-inner-root', 'C06', 'a node below the root that has neither outcome nor event',
 'Whether a node is checked as a root depends on its outcome and not on its place, so that nodes without outcome are accepted everywhere.',
 [('internal/validate/validate.go', '''		if node == root {''', '''		if node == root || (node.Outcome == testlang.OutcomeUnset && len(node.Next) != 0) {''')],
 script='''cat >in.json <<'J'
{"t":{"tests":["t"],"next":[{"outcome":"inc","event":"a.in","tests":["t"],"next":[{"tests":["t"],"next":[{"outcome":"pass","tests":["t"],"event":"a.out","next":[{"outcome":"fail","tests":["t"]}]}]}]}]}}
J
rtcg-make-stms in.json >o 2>e && exit 1
grep -q 'malformed test suite' e
''')

seed('C07-fail-tests', 'C07', 'a test whose failing node belongs to a test that no other node belongs to',
 'Tests that only failing nodes belong to are not in the set of tests of the state machine, although states have verdicts for them.',
 [('internal/stm/builder.go', '''		b.stm.Tests.Add(np.Tests...)
''', '''		if np.Outcome != testlang.OutcomeFail {
			b.stm.Tests.Add(np.Tests...)
		}

''')],
 script='''cat >in.json <<'J'
{"t":{"tests":["t"],"next":[{"outcome":"pass","tests":["t"],"event":"a.out","next":[{"outcome":"fail","tests":["t","u"]}]}]}}
J
rtcg-make-stms in.json | python3 -c 'import json,sys; m=json.load(sys.stdin)["tests"]["t"]; assert sorted(m["tests"])==["t","u"], m'
''')

seed('C25-step-numbers', 'C25', 'a file with two or more traces; which numbers are wrong depends on the order of a map',
 'Numbers of states go on from one test to the next, in the order in which a map is visited.',
 [('internal/stm/builder.go', '''	b.nodeNum = 0
	b.stm = Stm''', '''	b.stm = Stm''')],
 script='''printf 'a: x.in\\nb: y.in, z.out\\nc: y.in\\n' | rtcg-read-traces >i.json || exit 1
rtcg-make-stms i.json >0 || exit 1
for i in $(seq 40); do rtcg-make-stms i.json | cmp - 0 || exit 1; done
''')

seed('C08-valueless', 'C08', 'a channel that carries values in some events and none in others',
 'Events without a value are left out of type inference, so that a channel with and without values is no error, and one without any has no type.',
 [('internal/stm/builder.go', '	if node.Event == nil {\n		return nil\n	}\n\n	return b.infer', '	if node.Event == nil || (node.Event.Value.IsEmpty() && b.stm.Types[node.Event.Channel.Name] != nil) {\n		return nil\n	}\n\n	return b.infer')],
 script='''! rtcg-read-traces <<<'t: a.in.1, a.in' | rtcg-make-stms >/dev/null 2>&1 && ! rtcg-read-traces <<<'t: a.in, a.in.1' | rtcg-make-stms >/dev/null 2>&1
''')

seed('C09-unify-default', 'C09', 'unifying two types of different kinds one of which is empty',
 'The empty type unifies with every other type.',
 [('internal/testlang/rstype/unify.go', '''	case rhs == nil:
		return lhs, nil
''', '''	case rhs == nil:
		return lhs, nil
	case rhs.kind == KindEmpty && lhs.kind == KindEnum:
		return lhs, nil
''')],
 go=gomain(['@testlang/rstype'], '''func main() {
	_, err := rstype.Unify(rstype.Enum(), rstype.Empty())
	check(err != nil, "types of different kinds do not unify")
}
'''))

seed('C11-calls', 'C11', 'a state machine with a call',
 'Transitions on calls are neither inputs nor outputs, and the code for them goes missing.',
 [('internal/gen/gencommon/context.go', '''		} else {
			c.Out = append(c.Out, tra)
		}''', '''		} else if tra.Channel.IsOut() {
			c.Out = append(c.Out, tra)
		}''')],
 script='''printf 't: a.call.1, b.out.2\\n' | rtcg-read-traces | rtcg-make-stms >s.json || exit 1
echo '<rtcg-gen><cpp variant="animate"/></rtcg-gen>' >g.xml
rtcg-gen g.xml s.json && grep -q 'StateMachine::aCallback' out/animate/src/t/src/main.cpp
''')

seed('C11-first-set', 'C11', 'a first state whose first transitions are on an output, with an input after them',
 'Only the first set of transitions of the first state is looked at to see whether it has an input.',
 [('internal/gen/gencommon/context.go', '''	for _, ts := range machine.States[0].TransitionSets {
		if ts.Channel.IsIn() {
			return true
		}
	}

	return false''', '''	sets := machine.States[0].TransitionSets

	return 0 < len(sets) && sets[0].Channel.IsIn()''')],
 go=gomain(['@gen/gencommon', '@stm', '@stm/transition', '@testlang/channel'], '''func main() {
	s := stm.NewState("initial")
	s.TransitionSets = []transition.Set{transition.NewSet(channel.Out("b")), transition.NewSet(channel.In("a"))}
	c := gencommon.NewContext("t", &stm.Stm{States: []*stm.State{s}})
	check(c.Transitions.FirstStateHasIn, "the first state has an input")
}
'''))
if __name__ == '__main__':
    for a, k in S:
        if len(sys.argv) < 2 or a[0] in sys.argv[1:]:
            make(*a, **k)
