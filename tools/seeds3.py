import sys; sys.path.insert(0, '/verif/tools')
from seedlib import *
S = []
def seed(*a, **k): S.append((a, k))
B = 'internal/gen/cpp/embed/templates/base/'

GEN = '''
gen() { # gen CONFIG TRACES...
  printf '%s' "$1" >c.xml; shift
  printf '%s\\n' "$@" | rtcg-read-traces | rtcg-make-stms >s.json && rtcg-gen c.xml s.json
}
'''
DRIVE = GEN + '''
build() { g++ -std=c++11 -o d -Iout/animate/src/rtcg -Iout/animate/src/convert out/animate/src/$1/src/main.cpp out/animate/src/rtcg/rtcg.cpp || exit 3; }
'''
ANIM = '<rtcg-gen><cpp variant="animate"></cpp></rtcg-gen>'

seed('C01-long-line', 'C01', 'a trace file with a line of more than 64 KiB',
 'A line that is too long for the line scanner ends the file, without an error.',
 [('internal/trace/read.go', '''import (
	"encoding/csv"''', '''import (
	"bufio"
	"encoding/csv"'''),
  ('internal/trace/read.go', '''	cr := csv.NewReader(r)
''', '''	cr := csv.NewReader(strings.NewReader(trimLines(r)))
'''),
  ('internal/trace/read.go', '''func parseRow(''', '''// trimLines reads r, removing blanks around its lines.
func trimLines(r io.Reader) string {
	var sb strings.Builder

	for sc := bufio.NewScanner(r); sc.Scan(); {
		sb.WriteString(strings.TrimSpace(sc.Text()))
		sb.WriteByte('\\n')
	}

	return sb.String()
}

func parseRow(''')], go=gomain(['strings', '@trace'], '''func main() {
	long := strings.Repeat("a.in, ", 20000) + "b.out"

	got, err := trace.Read(strings.NewReader("x: a.out\\n" + long + "\\ny: c.out\\n"))
	check(err == nil, "error")
	check(len(got) == 3, "three traces")
	check(len(got[1].Prefix) == 20000, "prefix")
}
'''))

seed('C02-min-int', 'C02', 'the value -9223372036854775808',
 'The text of the least integer has two signs, and reads back as a constant.',
 [('internal/testlang/value/int.go', '''	return strconv.AppendInt([]byte{}, int64(*i), intValueBase), nil
''', '''	if *i < 0 {
		return strconv.AppendInt([]byte{'-'}, -int64(*i), intValueBase), nil
	}

	return strconv.AppendInt([]byte{}, int64(*i), intValueBase), nil
''')], go=gomain(['math', '@testlang', '@testlang/value'], '''func main() {
	e := testlang.Input("a", value.Int(math.MinInt64))

	text, err := e.MarshalText()
	check(err == nil, "marshal")

	var f testlang.Event

	check(f.UnmarshalText(text) == nil, "unmarshal")
	check(e.Equals(f), string(text))
}
'''))

seed('C04-own-name', 'C04', 'two traces of the same name',
 'A trace that comes with a name is expanded with it, and not with the one that it got to be unique.',
 [('internal/trace/expand.go', '''		return k, t.Expand(k)
''', '''		if t.Name != "" {
			return k, t.Expand(t.Name)
		}

		return k, t.Expand(k)
''')], go=gomain(['strings', '@trace'], '''func main() {
	got, err := trace.Read(strings.NewReader("x: a.out\\nx: b.out\\n"))
	check(err == nil, "error")

	suite := trace.ExpandAll(trace.Name(got))

	for name, root := range suite {
		check(len(root.Tests) == 1 && root.Tests[0] == name, name)
		check(root.Next[0].Tests[0] == name, name)
	}
}
'''))

seed('C05-digit-rune', 'C05', 'more than ten traces of the same name',
 'Numbers appended to names are single characters, so that the eleventh trace gets a colon instead of 10.',
 [('internal/trace/trace.go', '''	case 0 < attempt:
		return fmt.Sprintf("%s%d", base, attempt-1)
''', '''	case 0 < attempt:
		return base + string(rune('0'+attempt-1))
''')], go=gomain(['@testlang', '@testlang/value', '@trace'], '''func main() {
	var ts []trace.Forbidden

	for i := 0; i < 12; i++ {
		ts = append(ts, trace.New().ForbidWithName(testlang.Output("a", value.Int(int64(i))), "x"))
	}

	got := trace.Name(ts)
	_, ok := got["x10"]
	check(len(got) == 12 && ok, "x10")
}
'''))

seed('C06-last-result', 'C06', 'a suite with an ill-formed test and a well-formed one, and a certain order of visiting them',
 'The error of mapping over a suite is that of the test visited last.',
 [('internal/structure/map.go', '''	result := make(map[K]U, len(input))

	for key, v := range input {
		nv, err := mapper(v)
		if err != nil {
			return nil, err
		}

		result[key] = nv
	}

	return result, nil
''', '''	var err error

	result := make(map[K]U, len(input))

	for key, v := range input {
		result[key], err = mapper(v)
	}

	if err != nil {
		return nil, err
	}

	return result, nil
''')], go=gomain(['@testlang', '@validate'], '''func main() {
	for i := 0; i < 64; i++ {
		good := testlang.Root(testlang.TestPoint(testlang.Event{}, "g"))
		good.Mark("g")

		bad := testlang.Fail()
		suite := testlang.Suite{"g": &good, "b": &bad}

		_, err := validate.FullSuite(suite)
		check(err != nil, "ill-formed suite accepted")
	}
}
'''))

seed('C07-shared-tests', 'C07', 'a suite of at least two tests',
 'The builder clears and reuses the set of tests of the machine it built before, so that all machines have the tests of the last.',
 [('internal/stm/builder.go', '''	b.stm = Stm{States: []*State{}, Tests: structure.NewSet[string](), Types: map[string]*rstype.RsType{}}
''', '''	b.stm.States = []*State{}
	b.stm.Types = map[string]*rstype.RsType{}
	b.stm.Tests.Clear()
'''),
  ('internal/structure/set.go', '''// Values gets an unsorted''', '''// Clear removes all values from s, making it ready for use if it wasn't.
func (s *Set[T]) Clear() {
	if s.contents == nil {
		s.contents = map[T]bool{}
	}

	for k := range s.contents {
		delete(s.contents, k)
	}
}

// Values gets an unsorted''')], go=gomain(['@stm', '@testlang', '@validate'], '''func tree(name string) *validate.Test {
	root := testlang.Root(testlang.TestPoint(testlang.Event{}, name))
	root.Mark(name)

	test, err := validate.Full(&root)
	check(err == nil, "validate")

	return test
}

func main() {
	var b stm.Builder

	s, err := b.BuildSuite(validate.Suite{"x": tree("x"), "y": tree("y")})
	check(err == nil, "build")

	for name, m := range s.Tests {
		vs := m.Tests.Values()
		check(len(vs) == 1 && vs[0] == name, name)
	}
}
'''))

seed('C08-widest', 'C08', 'one trace with a negative integer and then a constant on the same channel',
 'Once the type of a channel is that of integers, values of other kinds are not looked at any more.',
 [('internal/stm/builder.go', '''	chanName := event.Channel.Name

''', '''	chanName := event.Channel.Name

	if ctype := b.stm.Types[chanName]; ctype != nil && ctype.IsInt() {
		// No value has a type that is wider than this.
		return nil
	}

''')], script='''
printf 't: a.out.-1, a.out.x, b.out\\n' | rtcg-read-traces | rtcg-make-stms >/dev/null 2>&1 && exit 1
printf 't: a.out.-1, a.out.3, b.out\\n' | rtcg-read-traces | rtcg-make-stms >/dev/null 2>&1
''')

seed('C11-name-only', 'C11', 'a channel that is used as input and as output',
 'Transitions are grouped by the name of the channel alone, so that outputs end up among inputs.',
 [('internal/stm/transition/set.go', '''	return b.Channel.Equals(channel)
''', '''	return b.Channel.Name == channel.Name
''')], go=gomain(['@stm/transition', '@testlang/channel'], '''func main() {
	sets := transition.AddToSets(nil, channel.In("a"), transition.Transition{Next: "x"})
	sets = transition.AddToSets(sets, channel.Out("a"), transition.Transition{Next: "y"})
	check(len(sets) == 2, "two sets")
}
'''))

seed('C12-truncate', 'C12', 'generating into a directory with longer files of an earlier run',
 'Files that exist are overwritten but not truncated, so that the rest of an older, longer one stays.',
 [('internal/gen/templating/templating.go', '''	file, err := os.Create(path)
''', '''	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0o644)
''')], script=GEN + '''
gen '<rtcg-gen><cpp variant="animate"><makefile/></cpp></rtcg-gen>' 't: a.in, b.out' || exit 1
cp out/animate/Makefile good
gen '<rtcg-gen><cpp variant="animate"><makefile/></cpp></rtcg-gen>' 't: a.in, b.out' 'u: c.in, b.out' || exit 1
gen '<rtcg-gen><cpp variant="animate"><makefile/></cpp></rtcg-gen>' 't: a.in, b.out' || exit 1
cmp good out/animate/Makefile
''')

seed('C12-loop-var', 'C12', 'a configuration with two variants of different options',
 'Generators keep a pointer to the configuration in the loop variable, so that all have the options of the last variant.',
 [('internal/gen/gen.go', '''	for i := range cfgs {
		if varSubs, err = initCppVariant(&cfgs[i], dirs.Subdir(cfgs[i].Variant.String())); err != nil {
''', '''	for _, config := range cfgs {
		if varSubs, err = initCppVariant(&config, dirs.Subdir(config.Variant.String())); err != nil {
'''),
  ('internal/gen/cpp/cpp.go', '''	config    cfg.Config       // config''', '''	config    *cfg.Config      // config'''),
  ('internal/gen/cpp/cpp.go', '''	gen.config = *config
''', '''	gen.config = config
''')], script=GEN + '''
gen '<rtcg-gen><cpp variant="animate"><include src="one.h"/></cpp><cpp variant="ros"><include src="two.h"/></cpp></rtcg-gen>' 't: a.in, b.out' || exit 1
grep -q one.h out/animate/src/convert/convert.h && grep -q two.h out/ros/src/convert/convert.h
''')

seed('C14-missing-convert', 'C14', 'an overridden channel without conversion code in the input directory',
 'Conversion code that cannot be found is left out without an error.',
 [('internal/gen/cpp/copy.go', '''	src, err := os.Open(srcPath)
	if err != nil {
''', '''	src, err := os.Open(srcPath)
	if errors.Is(err, fs.ErrNotExist) {
		// Assume that the user supplies it later.
		return nil
	}

	if err != nil {
''')], script=GEN + '''
gen '<rtcg-gen><cpp variant="animate"><channel name="a" type="int"/></cpp></rtcg-gen>' 't: a.in, b.out' 2>err && exit 1
[ -s err ]
''')

seed('C15-too-many', 'C15', 'more arguments than a tool takes',
 'Arguments after the last one that is used are ignored.',
 [('internal/cli/cli.go', '''	switch len(args) {
	case maxArgs:
		// Last argument is the file.
		return args[maxArgs-1], nil
	case maxArgs - 1:
''', '''	switch nargs := len(args); {
	case maxArgs <= nargs:
		// Last argument is the file.
		return args[maxArgs-1], nil
	case nargs == maxArgs-1:
''')], script='''
printf 't: a.out\\n' >x
rtcg-read-traces x y >out 2>err && exit 1
[ ! -s out ] && grep -qi usage err
''')

seed('C16-pointer', 'C16', 'a suite of at least two tests',
 'Placeholders are replaced in the configuration itself, so that all manifests have the name of the test that came first.',
 [('internal/gen/catkin/catkin.go', '''	pkg := *o.parent.config.Package
	pkg.Expand(name)

	if err := generatePackageXML(dirs.Output, pkg); err != nil {
		return err
	}

''', '''	pkg := o.parent.config.Package
	pkg.Expand(name)

	if err := generatePackageXML(dirs.Output, *pkg); err != nil {
		return err
	}

'''), ('internal/gen/catkin/catkin.go', '''Package: pkg, HasConversion''', '''Package: *pkg, HasConversion''')], script=GEN + '''
gen '<rtcg-gen><cpp variant="ros"><catkin/></cpp></rtcg-gen>' 'kilo: a.in, b.out' 'lima: a.in, c.out' || exit 1
grep -q lima out/ros/src/lima/package.xml && ! grep -q kilo out/ros/src/lima/package.xml && ! grep -q lima out/ros/src/kilo/package.xml
''')

seed('C17-title', 'C17', 'a name with a character that is neither a letter nor a digit, and a lower-case letter after it',
 'Upper-casing the first letter upper-cases that of every word in the name.',
 [('internal/strmanip/strmanip.go', '''	var build strings.Builder

	// TODO: make this more efficient
	for i, c := range ident {
		if i == 0 {
			_, _ = build.WriteRune(unicode.ToUpper(c))
		} else {
			_, _ = build.WriteRune(c)
		}
	}

	return build.String()
''', '''	return strings.Title(ident) //nolint:staticcheck
''')], go=gomain(['@strmanip'], '''func main() {
	got := strmanip.UpcaseFirst("step-one")
	check(got == "Step-one", got)
}
'''))

seed('C18-trim', 'C18', 'a value next to a blank other than spaces and tabs',
 'Only spaces and tabs count as blanks around values.',
 [('internal/testlang/value/value.go', '''	text = bytes.TrimSpace(text)
''', '''	text = bytes.Trim(text, " \\t")
''')], go=gomain(['@testlang/value'], '''func main() {
	var v value.Value

	check(v.UnmarshalText([]byte("42\\r\\n")) == nil, "error")
	check(v.Equals(value.Int(42)), v.String())
}
'''))

seed('C19-calls', 'C19', 'a forbidden operation call',
 'Failures that are calls get spine nodes of their own, as if they were inputs.',
 [('internal/factorise/factorise.go', '''		if f.Event.Channel.IsIn() {
			// Each input gets placed on its own copy of the spine directly.
			inSpines = append(inSpines, testlang.Inc(last, node))
		} else {
			// Outputs get merged into a single spine node.
			outputs = append(outputs, node)
		}
''', '''		if f.Event.Channel.IsOut() {
			outputs = append(outputs, node)
		} else {
			inSpines = append(inSpines, testlang.Inc(last, node))
		}
''')], go=gomain(['@factorise', '@testlang', '@testlang/channel', '@testlang/value', '@trace'], '''func main() {
	call := testlang.NewEvent("f", channel.KindCall, value.None())
	ts := map[string]trace.Forbidden{"x": trace.New().Forbid(call), "y": trace.New().Forbid(testlang.Output("a", value.None()))}

	check(len(factorise.SpineNodes(ts, nil)) == 1, "one spine")
}
'''))

seed('C21-is-first', 'C21', 'a verdict of at least two tests with different outcomes',
 'Whether any test has an outcome is judged by the first test visited.',
 [('internal/stm/verdict/verdict.go', '''		if s == status {
			return true
		}
	}

	return false
''', '''		return s == status
	}

	return false
''')], go=gomain(['@stm/verdict', '@testlang'], '''func main() {
	for i := 0; i < 64; i++ {
		v := verdict.Verdict{}
		v.Add(testlang.OutcomePass, "x")
		v.Add(testlang.OutcomeFail, "y")
		check(v.IsPass() && v.IsFail(), "passes and fails")
	}
}
'''))

seed('C22-visited', 'C22', 'a tree in which two nodes have the same identifier',
 'A node is not visited if another with its identifier was.',
 [('internal/testlang/walk.go', '''	stack.Push(node)

	for''', '''	stack.Push(node)

	visited := map[NodeID]bool{}

	for'''),
  ('internal/testlang/walk.go', '''		node = stack.Pop()

''', '''		node = stack.Pop()

		// Don't visit nodes twice that are shared between branches.
		if node.ID != "" && visited[node.ID] {
			continue
		}

		visited[node.ID] = true

''')], go=gomain(['@testlang'], '''func main() {
	a, b := testlang.Fail(), testlang.Fail()
	a.ID, b.ID = "n", "n"
	root := testlang.Root(a, b)
	n := 0

	err := testlang.Walk(&root, func(*testlang.Node) error {
		n++

		return nil
	})
	check(err == nil && n == 3, "three nodes")
}
'''))

seed('C24-out-while-in', 'C24', 'an output while the test waits for an input to be acknowledged',
 'An output that comes while the driver awaits an acknowledgement is ignored instead of taking it off-script.',
 [(B + 'out_callback.cpp.tmpl', '''  default:
    {{ template "log" "info" }}"Output " << value << " on {{ $.Channel }} in unexpected state " << stateName() << "."{{ template "end_log" }}
    end(rtcg::Status::OFF_SCRIPT);
''', '''  default:
    {{ template "log" "info" }}"Output " << value << " on {{ $.Channel }} in unexpected state " << stateName() << "."{{ template "end_log" }}
    if (status_ == rtcg::Status::WAIT_OUT)
      end(rtcg::Status::OFF_SCRIPT);
''')], script=DRIVE + '''
gen '%s' 't: a.out.1, b.in.1, a.out.2' 2>err || { cat err; exit 3; }
build t
printf 'a 1\\na 1\\naccept\\na 2\\n' | ./d >log 2>&1
[ $? = 0 ] && grep -q script log
''' % ANIM)

seed('C24-keep-worst', 'C24', 'any driver whose trace has a prefix',
 'The verdict of a test is only replaced by one that is later in the enumeration, in which passing now comes before inconclusive.',
 [('internal/gen/cpp/embed/prelude/rtcg.h', '''    INC,   // Inconclusive outcome.
    PASS,  // Passing outcome.
''', '''    PASS,  // Passing outcome.
    INC,   // Inconclusive outcome.
'''),
  (B + 'verdict.cpp.tmpl', '''  if ({{ . }}_ == new_val)
    return;
''', '''  // Nothing to do unless the outcome is worse.
  if (new_val <= {{ . }}_)
    return;
''')], script=DRIVE + '''
gen '%s' 't: a.out.1, a.out.2' || exit 3
build t
printf 'a 1\\ntimeout\\n' | ./d >log 2>&1
grep -q 't = passed' log
''' % ANIM)

seed('C25-make-order', 'C25', 'a Makefile for several tests',
 'The rules of the Makefile are in the order in which a map is visited.',
 [('internal/gen/makefile/context.go', '''	Tests map[string]*stm.Stm // Tests is the set of tests for which we are generating Makefile rules.
''', '''	Tests []string // Tests is the list of tests for which we are generating Makefile rules.
'''),
  ('internal/gen/makefile/context.go', '''	return &Context{Tests: suite.Tests, Context: cfg}
''', '''	names := make([]string, 0, len(suite.Tests))

	for name := range suite.Tests {
		names = append(names, name)
	}

	return &Context{Tests: names, Context: cfg}
'''),
  ('internal/gen/makefile/embed/templates/Makefile.tmpl', '''all: mkdir {{- range $k, $v := .Tests }}''', '''all: mkdir {{- range $k := .Tests }}'''),
  ('internal/gen/makefile/embed/templates/Makefile.tmpl', '''{{ range $k, $v := .Tests }}
{{ template "output" $k }}:''', '''{{ range $k := .Tests }}
{{ template "output" $k }}:''')], script=GEN + '''
for i in 1 2 3 4 5 6 7 8 9 10; do
  gen '<rtcg-gen><cpp variant="animate"><makefile/></cpp></rtcg-gen>' 't: a.in, b.out' 'u: c.in, b.out' 'v: c.in, d.out' || exit 3
  [ $i = 1 ] && cp out/animate/Makefile first
  cmp first out/animate/Makefile || exit 1
done
''')

only = sys.argv[1:]
if __name__ == '__main__':
    for a, k in S:
        if not only or a[0] in only: make(*a, **k)
