import sys; sys.path.insert(0, '/verif/tools')
from seedlib import *
S = []
def seed(*a, **k): S.append((a, k))
B = 'internal/gen/cpp/embed/templates/base/'

GEN = '''
gen() { # gen CONFIG TRACES...
  printf '%s' "$1" >c.xml; shift
  printf '%s\\n' "$@" | rtcg-read-traces | rtcg-make-stms >s.json && rtcg-gen c.xml s.json
}
'''
DRIVE = GEN + '''
build() { g++ -std=c++11 -o d -Iout/animate/src/rtcg -Iout/animate/src/convert out/animate/src/$1/src/main.cpp out/animate/src/rtcg/rtcg.cpp || exit 3; }
'''
ANIM = '<rtcg-gen><cpp variant="animate"></cpp></rtcg-gen>'

seed('C14-clean-glob', 'C14', '-clean with an output directory whose name is a pattern that matches others',
 'Cleaning removes what a pattern made of the name of the output directory matches, which can be in other directories.',
 [('cmd/rtcg-gen/main.go', '''	if err := os.RemoveAll(a.outputDir); err != nil {
		return fmt.Errorf("couldn't clean %q: %w", a.outputDir, err)
	}

	return nil
''', '''	// Leave the directory itself, as it might be a mount point.
	entries, err := filepath.Glob(filepath.Join(a.outputDir, "*"))
	if err != nil {
		return fmt.Errorf("couldn't list %q: %w", a.outputDir, err)
	}

	for _, entry := range entries {
		if err := os.RemoveAll(entry); err != nil {
			return fmt.Errorf("couldn't clean %q: %w", a.outputDir, err)
		}
	}

	return nil
''')], script='''
mkdir -p outA/x 'out?' && : >outA/x/keep && : >'out?/old'
printf '<rtcg-gen><cpp variant="animate"></cpp></rtcg-gen>' >c.xml
printf 't: a.in, b.out\\n' | rtcg-read-traces | rtcg-make-stms >s.json || exit 3
rtcg-gen -clean -output 'out?' c.xml s.json || exit 3
[ -e outA/x/keep ] && [ ! -e 'out?/old' ]
''')

seed('C15-empty-path', 'C15', 'an empty file argument',
 'An empty file name is taken for standard input.',
 [('internal/cli/cli.go', '''	if path == stdinPath {
''', '''	if path == stdinPath || path == "" {
''')], script='''
printf 'a.in\\n' | rtcg-read-traces '' >o 2>e
[ $? != 0 ] && [ ! -s o ]
''')

seed('C16-sorted-depends', 'C16', 'dependencies that are not in alphabetical order, or repeated',
 'The dependencies of a package are sorted, and repeated ones dropped.',
 [('internal/gen/config/catkin/package.go', '''	p.Version = autofillOne(p.Version, "0.1.0")
''', '''	p.Version = autofillOne(p.Version, "0.1.0")
	p.Depends = normaliseDepends(p.Depends)
	p.BuildtoolDepends = normaliseDepends(p.BuildtoolDepends)
'''),
  ('internal/gen/config/catkin/package.go', '''func autofillOne(''', '''// normaliseDepends sorts dependencies, and drops repeated ones.
func normaliseDepends(deps []string) []string {
	sort.Strings(deps)

	result := deps[:0]

	for i, dep := range deps {
		if i == 0 || dep != deps[i-1] {
			result = append(result, dep)
		}
	}

	return result
}

func autofillOne('''),
  ('internal/gen/config/catkin/package.go', '''	"io"
''', '''	"io"
	"sort"
''')], script=GEN + '''
gen '<rtcg-gen><cpp variant="ros"><catkin><package><depend>zz</depend><depend>aa</depend></package></catkin></cpp></rtcg-gen>' 't: a.in.x, b.out.y' || exit 3
[ "$(grep -o '<depend>..' out/ros/src/t/package.xml | tr -d '\\n')" = '<depend>zz<depend>aa' ]
''')

seed('C20-variant-target', 'C20', 'reading an unknown name into a value other than the first one of its enumeration',
 'Reading an unknown variant sets the target to the first variant.',
 [('internal/gen/config/cpp/variant_enum.go', '''	tmp, err := ParseVariant(name)
	if err != nil {
		return err
	}
	*x = tmp
	return nil
''', '''	var err error
	*x, err = ParseVariant(name)
	return err
''')], go=gomain(['@gen/config/cpp'], '''func main() {
	v := cpp.VariantRos
	check(v.UnmarshalText([]byte("nope")) != nil, "error")
	check(v == cpp.VariantRos, "unchanged")
}
'''))

seed('C24-ros-ack', 'C24', 'a ROS driver with an input, but not in its first state',
 'ROS drivers do not listen for acknowledgements unless the test starts with an input, so that they get stuck at a later one.',
 [('internal/gen/cpp/embed/templates/ros/main.cpp.tmpl', '''{{-   if .Transitions.HasIn }}
  auto input_accepted_sub''', '''{{-   if .Transitions.FirstStateHasIn }}
  auto input_accepted_sub''')], script=GEN + '''
gen '<rtcg-gen><cpp variant="ros"></cpp></rtcg-gen>' 't: a.out.x, b.in.y, c.out.z' || exit 3
grep -q 'subscribe("input_accepted"' out/ros/src/t/src/main.cpp
''')

seed('C24-getline', 'C24', 'an output of an enumeration',
 'Animated drivers read the rest of the line for constants, together with the blank in front of them.',
 [('internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl', '''      std::cin >> in;
''', '''{{- if $ctype.Base.IsEnum }}
      std::getline(std::cin, in);
{{- else }}
      std::cin >> in;
{{- end }}
''')], script=DRIVE + '''
gen '%s' 't: a.out.x, a.out.y' || exit 3
build t
printf 'a x\\na y\\n' | ./d >log 2>&1
[ $? = 1 ] && grep -q 't = failed' log
''' % ANIM)

seed('C07-inc-after-pass', 'C07', 'a state with a passing continuation in front of an inconclusive one of another test',
 'A state that passes for some test does not get inconclusive verdicts for others any more.',
 [('internal/stm/state.go', '''	s.Verdict.Add(node.Outcome, node.Tests...)
''', '''	// Don't let the spine of a test hide that another one has passed.
	if node.Outcome == testlang.OutcomeInc && s.Verdict.IsPass() {
		return
	}

	s.Verdict.Add(node.Outcome, node.Tests...)
''')], go=gomain(['@stm', '@testlang', '@testlang/value'], '''func main() {
	pass := testlang.TestPoint(testlang.Output("a", value.Int(1)), "t")
	inc := testlang.Inc(testlang.Output("b", value.Int(1)), testlang.TestPoint(testlang.Output("c", value.None()), "u"))
	inc.Mark("u")
	pass.ID, inc.ID = "p", "i"

	s := stm.NewState("s")
	s.AddOutgoingNode(&pass)
	s.AddOutgoingNode(&inc)
	check((*s.Verdict)["t"] == testlang.OutcomePass, "pass")
	check((*s.Verdict)["u"] == testlang.OutcomeInc, "inconclusive")
}
'''))

seed('C03-html-escape', 'C03', 'a name with a backslash in front of u003c, u003e or u0026',
 'Escapes of angle brackets in JSON are undone in the text, also where they are escaped themselves.',
 [('internal/serial/serial.go', '''	j := json.NewEncoder(writer)
	j.SetIndent("", "\\t")

	if err := j.Encode(value); err != nil {
		return fmt.Errorf("JSON write error: %w", err)
	}

	return nil
''', '''	text, err := json.MarshalIndent(value, "", "\\t")
	if err != nil {
		return fmt.Errorf("JSON write error: %w", err)
	}

	// Keep angle brackets readable.
	text = bytes.ReplaceAll(text, []byte(`\\u003c`), []byte("<"))
	text = bytes.ReplaceAll(text, []byte(`\\u003e`), []byte(">"))

	if _, err := writer.Write(append(text, '\\n')); err != nil {
		return fmt.Errorf("JSON write error: %w", err)
	}

	return nil
'''), ('internal/serial/serial.go', '''import (
''', '''import (
	"bytes"
''')], go=gomain(['bytes', '@testlang', '@testlang/value'], '''func main() {
	name := "a\\\\u003cb"
	node := testlang.TestPoint(testlang.Output("a", value.None()), name)
	root := testlang.Root(node)
	root.Mark(name)

	suite := testlang.Suite{name: &root}

	var buf bytes.Buffer
	check(suite.Write(&buf) == nil, "write")

	got, err := testlang.ReadSuite(&buf)
	check(err == nil, "read")
	check(got[name] != nil && got[name].Tests[0] == name, "name")
}
'''))

seed('C09-max-domain', 'C09', 'unifying int with real, in that order',
 'The wider of two arithmetic domains is that of the right-hand side only if the left one is the natural numbers.',
 [('internal/testlang/rstype/arithmos.go', '''	// All the domain enums are in ascending order, so we can just do this:
	if lhs <= rhs {
		return rhs
	}
''', '''	// Everything is at least as wide as the natural numbers.
	if lhs <= ArithmosDomainNat {
		return rhs
	}
''')], go=gomain(['@testlang/rstype'], '''func main() {
	got, err := rstype.Unify(rstype.Arithmos(rstype.ArithmosDomainInt), rstype.Arithmos(rstype.ArithmosDomainReal))
	check(err == nil && got.IsReal(), "real")
}
'''))

seed('C09-blank', 'C09', 'an empty type name',
 'An empty text is read as the empty type.',
 [('internal/testlang/rstype/rstype.go', '''	case "()":
		t.kind''', '''	case "()", "":
		t.kind''')], go=gomain(['@testlang/rstype'], '''func main() {
	var t rstype.RsType
	check(t.UnmarshalText([]byte("")) != nil, "error")
}
'''))

seed('C19-merge-equal', 'C19', 'two failures with the same output',
 'Failures with the same output share one passing node, which names both tests.',
 [('internal/factorise/factorise.go', '''			outputs = append(outputs, node)
''', '''			outputs = addOutput(outputs, node)
'''), ('internal/factorise/factorise.go', '''func lastEvent(''', '''// addOutput adds node to outputs, merging it with one for the same event if there is one.
func addOutput(outputs []testlang.Node, node testlang.Node) []testlang.Node {
	for i := range outputs {
		if o := &outputs[i]; o.Event.Equals(*node.Event) {
			tests := append(append([]string{}, o.Tests...), node.Tests...)
			*o = testlang.TestPoint(*o.Event, tests...)

			return outputs
		}
	}

	return append(outputs, node)
}

func lastEvent(''')], go=gomain(['@factorise', '@testlang', '@testlang/value', '@trace'], '''func main() {
	ev := testlang.Output("a", value.Int(1))
	tests := map[string]trace.Forbidden{"t": trace.New().Forbid(ev), "u": trace.New().Forbid(ev)}

	nodes := factorise.SpineNodes(tests, trace.New())
	check(len(nodes) == 1 && len(nodes[0].Next) == 2, "one node per failure")
}
'''))

seed('C12-nested', 'C12', 'a configuration with two variants',
 'The directory of each variant is made within that of the variant before.',
 [('internal/gen/gen.go', '''		if varSubs, err = initCppVariant(&cfgs[i], dirs.Subdir(cfgs[i].Variant.String())); err != nil {
''', '''		dirs = dirs.Subdir(cfgs[i].Variant.String())

		if varSubs, err = initCppVariant(&cfgs[i], dirs); err != nil {
''')], script=GEN + '''
gen '<rtcg-gen><cpp variant="animate"></cpp><cpp variant="ros"></cpp></rtcg-gen>' 't: a.in.x, b.out.y' || exit 3
[ -e out/animate/src/t/src/main.cpp ] && [ -e out/ros/src/t/src/main.cpp ]
''')

seed('C12-convert-includes', 'C12', 'a configuration with headers, but no overridden channel',
 'The conversion header only has the configured headers if a channel is overridden.',
 [(B + 'convert/convert_base.h.tmpl', '''{{/* Bring any user-defined includes into scope, as they'll likely define override types: */ -}}
{{- range .Includes }}
''', '''{{/* Bring any user-defined includes into scope if there are overrides, as they'll likely define override types: */ -}}
{{- range .Includes }}{{ if not $.HasConversion }}{{ continue }}{{ end }}
''')], script=GEN + '''
gen '<rtcg-gen><cpp variant="animate"><include src="my.h"/></cpp></rtcg-gen>' 't: a.in.x, b.out.y' || exit 3
grep -q '#include "my.h"' out/animate/src/convert/convert.h
''')

seed('C17-msg-suffix', 'C17', 'channels of which one has the name of the other with Msg appended',
 'The suffix of message types is not repeated, so that two channels can get the same type name.',
 [('internal/gen/cpp/func.go', '''	return strmanip.UpcaseFirst(cha) + "Msg"
''', '''	return strmanip.UpcaseFirst(strings.TrimSuffix(cha, "Msg")) + "Msg"
''')], go=gomain(['@gen/cpp'], '''func main() {
	check(cpp.ChannelMsgType("foo") != cpp.ChannelMsgType("fooMsg"), "different")
	check(cpp.ChannelMsgType("fooMsg") == "FooMsgMsg", "suffix")
}
'''))

seed('C17-collapse', 'C17', 'a name with two underscores in a row',
 'Repeated underscores in names become one in topic names.',
 [('internal/strmanip/strmanip.go', '''	if s.mode == formatModeLowerUnderscored {
		s.sb.WriteRune('_')
	}
''', '''	if s.mode == formatModeLowerUnderscored && !strings.HasSuffix(s.sb.String(), "_") {
		s.sb.WriteRune('_')
	}
''')], go=gomain(['@strmanip'], '''func main() {
	check(strmanip.ToLowerUnderscored("a__b") == "a__b", "underscores")
}
'''))

seed('C18-quotes', 'C18', 'a constant in quotes',
 'Constants lose the quotes they are written in.',
 [('internal/testlang/value/enum.go', '''	*e = EnumValue(text)
''', '''	// Generated code quotes constants, so they need no quotes of their own.
	if n := len(text); 2 <= n && text[0] == '"' && text[n-1] == '"' {
		text = text[1 : n-1]
	}

	*e = EnumValue(text)
''')], go=gomain(['@testlang/value'], '''func main() {
	var v value.Value
	check(v.UnmarshalText([]byte(`"a"`)) == nil, "no error")
	check(v.StringValue() == `"a"`, "quotes")
}
'''))

seed('C01-hash', 'C01', 'a value with a hash sign',
 'What follows a hash sign in a cell is taken for a comment.',
 [('internal/trace/read.go', '''		ptr := selectEvent(''', '''		// Allow comments at the end of lines.
		cell, _, _ = strings.Cut(cell, "#")

		ptr := selectEvent(''')], go=gomain(['strings', '@trace'], '''func main() {
	got, err := trace.Read(strings.NewReader("a.out.x#1\\n"))
	check(err == nil && len(got) == 1, "one trace")
	check(got[0].Forbid.Value.StringValue() == "x#1", "value")
}
'''))

seed('C11-first-in', 'C11', 'a first state with two inputs on its only input channel',
 'The first state counts as having no input if it has several.',
 [('internal/gen/gencommon/context.go', '''	for _, ts := range machine.States[0].TransitionSets {
		if ts.Channel.IsIn() {
			return true
		}
	}

	return false
''', '''	return machine.States[0].In() != nil
''')], go=gomain(['@gen/gencommon', '@stm', '@testlang', '@testlang/value'], '''func main() {
	a := testlang.Inc(testlang.Input("a", value.Int(1)))
	a.ID = "x"
	b := testlang.Inc(testlang.Input("a", value.Int(2)))
	b.ID = "y"

	s := stm.NewState("initial")
	s.AddOutgoingNode(&a)
	s.AddOutgoingNode(&b)

	ctx := gencommon.NewContext("t", &stm.Stm{States: []*stm.State{s, stm.NewState("x"), stm.NewState("y")}})
	check(ctx.Transitions.FirstStateHasIn, "first state has an input")
}
'''))

seed('C16-os-expand', 'C16', 'a manifest field with a dollar sign',
 'All references to variables in manifest fields are replaced, those of other names by nothing.',
 [('internal/gen/config/catkin/package.go', '''	return strings.ReplaceAll(template, "${NAME}", name)
''', '''	return os.Expand(template, func(key string) string {
		if key == "NAME" {
			return name
		}

		return ""
	})
'''), ('internal/gen/config/catkin/package.go', '''	"io"
	"strings"
''', '''	"io"
	"os"
''')], script=GEN + '''
gen '<rtcg-gen><cpp variant="ros"><catkin><package><description>costs US$5 for ${NAME}</description></package></catkin></cpp></rtcg-gen>' 't: a.in.x, b.out.y' || exit 3
grep -qF 'costs US$5 for t' out/ros/src/t/package.xml
''')

seed('C13-case', 'C13', 'a channel whose name has a capital letter',
 'The names of configured channels are read in small letters, so that overrides do not reach channels with capitals, and reach others.',
 [('internal/gen/config/cpp/cpp.go', '''		cmap[over.Name] = over.Type
''', '''		cmap[strings.ToLower(over.Name)] = over.Type
'''), ('internal/gen/config/cpp/cpp.go', '''import (
''', '''import (
	"strings"

''')], go=gomain(['@gen/config/cpp', '@stm', '@testlang/rstype'], '''func main() {
	ctx := cpp.New(cpp.VariantRos, cpp.WithChannel("Foo", "int")).Process(stm.TypeMap{"Foo": rstype.Enum()})
	check(ctx.ChannelTypes["Foo"].HasOverride(), "override")
}
'''))

seed('C25-agg-map', 'C25', 'a test with two channels',
 'The channels of a machine are in the order in which a map is visited.',
 [('internal/stm/stm.go', '''	var result []transition.AggregateSet

	for _, st := range s.States {
		for _, ts := range st.TransitionSets {
			result = transition.AddToAggregateSets(result, st.ID, ts)
		}
	}

	return result
''', '''	sets := make(map[channel.Channel]transition.StateMap)

	for _, st := range s.States {
		for _, ts := range st.TransitionSets {
			if sets[ts.Channel] == nil {
				sets[ts.Channel] = make(transition.StateMap)
			}

			sets[ts.Channel][st.ID] = append(sets[ts.Channel][st.ID], ts.Transitions...)
		}
	}

	result := make([]transition.AggregateSet, 0, len(sets))

	for ch, states := range sets {
		result = append(result, transition.NewAggregateSet(ch, states))
	}

	return result
'''), ('internal/stm/stm.go', '''	"github.com/UoY-RoboStar/rtcg/internal/testlang"
''', '''	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
''')], script=GEN + '''
for i in 1 2 3 4 5 6 7 8 9 10 11 12; do
  gen '<rtcg-gen><cpp variant="animate"></cpp></rtcg-gen>' 't: a.in.1, b.out.1, c.out.1, d.out.1, e.out.1' || exit 3
  grep -v 'autogenerated by' out/animate/src/t/src/main.cpp >now
  [ $i = 1 ] && cp now first
  cmp first now || exit 1
done
''')

seed('C02-fold-name', 'C02', 'channels whose names differ in case only',
 'Channels are equal if their names are so up to case.',
 [('internal/testlang/channel/channel.go', '''	return c.Name == other.Name && c.Kind == other.Kind
''', '''	return c.Kind == other.Kind && strings.EqualFold(c.Name, other.Name)
''')], go=gomain(['@testlang', '@testlang/value'], '''func main() {
	a := testlang.Input("a", value.Int(1))
	check(!a.Equals(testlang.Input("A", value.Int(1))), "different")
}
'''))

seed('C05-test-prefix', 'C05', 'a trace with a name that starts in "test"',
 'Names that start in "test" always get a number.',
 [('internal/trace/trace.go', '''	case base == "test":
''', '''	case strings.HasPrefix(base, "test"):
''')], go=gomain(['@testlang', '@testlang/value', '@trace'], '''func main() {
	got := trace.Name([]trace.Forbidden{trace.New().ForbidWithName(testlang.Output("a", value.None()), "testing")})
	_, ok := got["testing"]
	check(ok, "keeps its name")
}
'''))

only = sys.argv[1:]
if __name__ == '__main__':
    for a, k in S:
        if not only or a[0] in only: make(*a, **k)
