import sys; sys.path.insert(0, '/verif/tools')
from seedlib import *
S = []
def seed(*a, **k): S.append((a, k))
B = 'internal/gen/cpp/embed/templates/base/'

GEN = '''
gen() { # gen CONFIG TRACES...
  printf '%s' "$1" >c.xml; shift
  printf '%s\\n' "$@" | rtcg-read-traces | rtcg-make-stms >s.json && rtcg-gen c.xml s.json
}
'''
DRIVE = GEN + '''
build() { g++ -std=c++11 -o d -Iout/animate/src/rtcg -Iout/animate/src/convert out/animate/src/$1/src/main.cpp out/animate/src/rtcg/rtcg.cpp || exit 3; }
'''
ANIM = '<rtcg-gen><cpp variant="animate"></cpp></rtcg-gen>'

seed('C12-system-first', 'C12', 'a configuration with a system header after a local one',
 'Headers of drivers and of the conversion header are no longer in the configured order: system headers come first.',
 [('internal/gen/config/cpp/context.go', '''import (
	"github.com''', '''import (
	"sort"

	"github.com'''),
  ('internal/gen/config/cpp/context.go', '''	overrides := c.ChannelMap()
''', '''	// Put system headers first, as is the custom.
	sort.SliceStable(ctx.Includes, func(i, j int) bool {
		return ctx.Includes[i].IsSystem && !ctx.Includes[j].IsSystem
	})

	overrides := c.ChannelMap()
''')], script=GEN + '''
gen '<rtcg-gen><cpp variant="animate"><include src="first.h" system="false"/><include src="second.h" system="true"/></cpp></rtcg-gen>' 't: a.in, b.out' || exit 1
for f in out/animate/src/t/src/main.cpp out/animate/src/convert/convert.h; do
  [ "$(grep -o 'first.h\\|second.h' $f | tr '\\n' ' ')" = "first.h second.h " ] || exit 1
done
''')

seed('C16-shared-depends', 'C16', 'a suite of at least two tests, and a dependency with the placeholder',
 'Dependencies are expanded in memory that all tests share, so that the first test\'s name shows in the others\' manifests.',
 [('internal/gen/config/catkin/package.go', '''	p.License = expandOne(p.License, name)
''', '''	p.License = expandOne(p.License, name)

	for i := range p.Depends {
		p.Depends[i] = expandOne(p.Depends[i], name)
	}
''')], script=GEN + '''
gen '<rtcg-gen><cpp variant="ros"><catkin><package><depend>${NAME}_msgs</depend></package></catkin></cpp></rtcg-gen>' 'kilo: a.in, b.out' 'lima: a.in, c.out' || exit 1
grep -q kilo out/ros/src/lima/package.xml && exit 1
grep -q lima out/ros/src/kilo/package.xml && exit 1
exit 0
''')

seed('C13-relative-dir', 'C13', 'a configuration that names a relative directory and is not in the current one',
 'A relative directory is taken to be below that of the configuration, and not read as written.',
 [('internal/gen/config/config.go', '''	if config.Directory == "" {
		config.Directory = filepath.Dir(path)
	}
''', '''	if !filepath.IsAbs(config.Directory) {
		config.Directory = filepath.Join(filepath.Dir(path), config.Directory)
	}
''')], go=gomain(['@gen/config', 'path/filepath'], '''func main() {
	d, err := os.MkdirTemp("", "demo")
	check(err == nil, "temp")
	defer os.RemoveAll(d)
	p := filepath.Join(d, "c.xml")
	check(os.WriteFile(p, []byte("<rtcg-gen><directory>in/puts</directory></rtcg-gen>"), 0o600) == nil, "write")
	c, err := config.Load(p)
	os.RemoveAll(d)
	check(err == nil && c.Directory == "in/puts", "directory")
}
'''))

seed('C13-empty-config', 'C13', 'a configuration file without any XML in it',
 'An empty configuration is accepted, and nothing is generated.',
 [('internal/gen/config/config.go', '''		return nil, errors.Join(err, file.Close())
	}
''', '''		if !errors.Is(err, io.EOF) {
			return nil, errors.Join(err, file.Close())
		}
	}
''')],
 script='''printf 't: a.in, b.out\\n' | rtcg-read-traces | rtcg-make-stms >s.json || exit 3
: >c.xml
rtcg-gen c.xml s.json && exit 1
exit 0
''')

seed('C13-first-override', 'C13', 'a configuration with two types for the same channel, the first of which is empty or another',
 'The first of several types configured for a channel counts instead of the last.',
 [('internal/gen/config/cpp/cpp.go', '''		cmap[over.Name] = over.Type
''', '''		if cmap[over.Name] == "" {
			cmap[over.Name] = over.Type
		}
''')], go=gomain(['@gen/config/cpp'], '''func main() {
	c := cpp.New(cpp.VariantAnimate, cpp.WithChannel("a", "one"), cpp.WithChannel("b", "x"), cpp.WithChannel("a", "two"))
	m := c.ChannelMap()
	check(m["a"] == "two" && m["b"] == "x", "last one counts")
}
'''))

seed('C14-copy-error', 'C14', 'a write error while the common code is copied, with the file closing without one',
 'The result of closing a copied file replaces the error of copying it, so that truncated files are reported as success.',
 [('internal/gen/cpp/copy.go', '''	return errors.Join(err, dst.Close(), src.Close())
''', '''	if err = dst.Close(); err != nil {
		err = fmt.Errorf("couldn't close file %q: %w", outFile, err)
	}

	return errors.Join(err, src.Close())
''')], script=GEN + '''
mkdir -p out/animate/src/rtcg && ln -s /dev/full out/animate/src/rtcg/rtcg.h
gen '<rtcg-gen><cpp variant="animate"></cpp></rtcg-gen>' 't: a.in, b.out' && exit 1
exit 0
''')

seed('C14-template-flush', 'C14', 'a write error in a small generated file',
 'Generated files are buffered, and failing to write out the rest of the buffer is not reported.',
 [('internal/gen/templating/templating.go', '''	"errors"
''', '''	"bufio"
	"errors"
'''), ('internal/gen/templating/templating.go', '''	err = tmpl.ExecuteTemplate(file, tmplName, ctx)

''', '''	buf := bufio.NewWriter(file)
	if err = tmpl.ExecuteTemplate(buf, tmplName, ctx); err == nil {
		_ = buf.Flush()
	}

''')], script=GEN + '''
mkdir -p out/animate/src/convert && ln -s /dev/full out/animate/src/convert/convert.h
gen '<rtcg-gen><cpp variant="animate"></cpp></rtcg-gen>' 't: a.in, b.out' && exit 1
exit 0
''')

seed('C14-json-flush', 'C14', 'standard output that cannot be written',
 'JSON is written through a buffer whose last write is not checked.',
 [('internal/serial/serial.go', '''import (
''', '''import (
	"bufio"
'''), ('internal/serial/serial.go', '''	j := json.NewEncoder(writer)
	j.SetIndent''', '''	buf := bufio.NewWriter(writer)
	defer buf.Flush()

	j := json.NewEncoder(buf)
	j.SetIndent''')], script='''printf 't: a.in, b.out\\n' >t.txt
rtcg-read-traces t.txt >/dev/full && exit 1
exit 0
''')

seed('C14-mkdir-names', 'C14', 'a directory of a test that cannot be made, when the files in it can',
 'Failing to make a directory is only reported for the first directory of each generator.',
 [('internal/gen/gen.go', '''		for _, dir := range subg.Dirs() {
			if err := os.MkdirAll(dir, outputDirPerms); err != nil {
				return''', '''		for i, dir := range subg.Dirs() {
			if err := os.MkdirAll(dir, outputDirPerms); err != nil && i == 0 {
				return''')], script=GEN + '''
mkdir -p out/animate/src/t && : >out/animate/src/t/include
gen '<rtcg-gen><cpp variant="animate"></cpp></rtcg-gen>' 't: a.in, b.out' && exit 1
exit 0
''')

seed('C15-empty-name', 'C15', 'an empty file name as the optional argument',
 'An empty file name means standard input instead of being an error.',
 [('internal/cli/cli.go', 'if path == stdinPath {', 'if path == "" || path == stdinPath {')],
 script='''printf 't: a.in, b.out\\n' | rtcg-read-traces '' >o.json && exit 1
exit 0
''')

seed('C15-usage', 'C15', 'too many arguments',
 'A tool with the wrong number of arguments does not show how to use it.',
 [('internal/cli/cli.go', 'if errors.Is(err, ErrBadArgs) {', 'if errors.Unwrap(err) == nil && errors.Is(err, ErrBadArgs) {')],
 script='''rtcg-read-traces a b 2>e && exit 1
grep -q usage: e
''')

seed('C16-first-only', 'C16', 'a description with the placeholder twice',
 'Only the first placeholder of a field is replaced.',
 [('internal/gen/config/catkin/package.go', 'strings.ReplaceAll(template, "${NAME}", name)', 'strings.Replace(template, "${NAME}", name, 1)')],
 go=gomain(['@gen/config/catkin'], '''func main() {
	p := catkin.Package{Description: "${NAME} is ${NAME}"}
	p.Expand("t")
	check(p.Description == "t is t", p.Description)
}
'''))

seed('C17-digit', 'C17', 'a name with an upper-case letter after a digit, such as step2Go',
 'Topic names get an underscore between a digit and an upper-case letter too.',
 [('internal/strmanip/strmanip.go', 's.lastLower = unicode.IsLower(char)', 's.lastLower = unicode.IsLower(char) || unicode.IsDigit(char)')],
 go=gomain(['@strmanip'], '''func main() {
	check(strmanip.ToLowerUnderscored("step2Go") == "step2go", strmanip.ToLowerUnderscored("step2Go"))
}
'''))

seed('C17-first-byte', 'C17', 'a name whose first letter is not ASCII',
 'Upper-casing a first letter upper-cases the first byte, which does nothing to, say, an e with an accent.',
 [('internal/strmanip/strmanip.go', '''	var build strings.Builder

	// TODO: make this more efficient
	for i, c := range ident {
		if i == 0 {
			_, _ = build.WriteRune(unicode.ToUpper(c))
		} else {
			_, _ = build.WriteRune(c)
		}
	}

	return build.String()
''', '''	if ident == "" || ident[0] < 'a' || 'z' < ident[0] {
		return ident
	}

	return string(ident[0]-'a'+'A') + ident[1:]
''')], go=gomain(['@strmanip'], '''func main() {
	check(strmanip.UpcaseFirst("\\u00e9t\\u00e9") == "\\u00c9t\\u00e9", "accent")
}
'''))

seed('C18-clamp', 'C18', 'a value of more than 64 bits',
 'Integers beyond 64 bits are clamped instead of being read as constants.',
 [('internal/testlang/value/int.go', '''	"fmt"
	"strconv"
''', '''	"errors"
	"fmt"
	"strconv"
'''), ('internal/testlang/value/int.go', '''	if err != nil {
		return fmt''', '''	if err != nil && !errors.Is(err, strconv.ErrRange) {
		return fmt''')],
 script='''printf 't: a.out.9223372036854775808\\n' | rtcg-read-traces | grep -q '9223372036854775808'
''')

seed('C18-equals-text', 'C18', 'an integer and a constant with the same digits',
 'Values of different kinds are equal if they have the same text.',
 [('internal/testlang/value/value.go', 'return reflect.DeepEqual(v.content, other.content)', 'return v.content.StringValue() == other.content.StringValue()'),
  ('internal/testlang/value/value.go', '''	"fmt"
	"reflect"
''', '''	"fmt"
''')], go=gomain(['@testlang/value'], '''func main() {
	i, e := value.Int(1), value.Enum("1")
	check(!i.Equals(e) && !e.Equals(i), "kinds")
	check(i.Equals(value.Int(1)) && e.Equals(value.Enum("1")), "same")
}
'''))

seed('C19-shared-buffer', 'C19', 'failures of which an output comes before an input',
 'Spine nodes of inputs and the nodes of outputs are collected in the same memory, so that one overwrites the other.',
 [('internal/factorise/factorise.go', '''	inSpines := make([]testlang.Node, 0, len(failures))

''', '''	// There are as many nodes as failures, so one buffer will do.
	inSpines := make([]testlang.Node, 0, len(failures))

'''), ('internal/factorise/factorise.go', 'outputs := make([]testlang.Node, 0, len(failures))', 'outputs := inSpines[:0]')],
 go=gomain(['@factorise', '@testlang', '@testlang/value', '@trace'], '''func main() {
	for n := 0; n < 40; n++ {
		m := map[string]trace.Forbidden{
			"i": trace.New().Forbid(testlang.Input("i", value.None())),
			"o": trace.New().Forbid(testlang.Output("o", value.None())),
		}
		ns := factorise.SpineNodes(m, trace.New())
		check(len(ns) == 2, "two nodes")
		check(len(ns[0].Next) == 1 && ns[0].Next[0].Tests[0] == "i", "input")
		check(len(ns[1].Next) == 1 && ns[1].Next[0].Tests[0] == "o", "output")
	}
}
'''))

seed('C19-prefix', 'C19', 'a test whose prefix is shorter than the trace',
 'A test whose prefix is only the start of the trace is counted among the failures after it.',
 [('internal/factorise/factorise.go', 'if t.Prefix.Equals(after) {', 'if len(t.Prefix) == len(after) || 0 < len(t.Prefix) {\n\t\t\tif !t.Prefix.IsPrefixOf(after) {\n\t\t\t\tcontinue\n\t\t\t}\n')],
 go=gomain(['@factorise', '@testlang', '@testlang/value', '@trace'], '''func main() {
	a, b := testlang.Output("a", value.None()), testlang.Output("b", value.None())
	m := map[string]trace.Forbidden{"t": trace.New(a).Forbid(b), "u": trace.New(a, b).Forbid(a)}
	fs := factorise.Failures(m, trace.New(a, b))
	check(len(fs) == 1 && fs[0].Test == "u", "only u")
}
'''))

seed('C20-clobber', 'C20', 'an outcome that is not one, read over one that is set',
 'Reading text that is no outcome overwrites the target.',
 [('internal/testlang/outcome_enum.go', '''	tmp, err := ParseOutcome(name)
	if err != nil {
		return err
	}
	*x = tmp
	return nil
''', '''	var err error
	*x, err = ParseOutcome(name)
	return err
''')], go=gomain(['@testlang'], '''func main() {
	o := testlang.OutcomePass
	check(o.UnmarshalText([]byte("nope")) != nil, "error")
	check(o == testlang.OutcomePass, "unchanged")
}
'''))

seed('C20-doubled', 'C20', 'a direction whose last letter is doubled, such as "inn"',
 'Directions with a doubled last letter are recognised.',
 [('internal/testlang/channel/kind_enum.go', '''	return Kind(0), fmt.Errorf("%s is %w", name, ErrInvalidKind)
''', '''	for _, n := range []string{"call", "out", "in"} {
		if n += n[len(n)-1:]; strings.EqualFold(n, name) {
			return _KindValue[n[:len(n)-1]], nil
		}
	}
	return Kind(0), fmt.Errorf("%s is %w", name, ErrInvalidKind)
''')], script='''printf 't: a.inn, b.out\\n' | rtcg-read-traces && exit 1
exit 0
''')

seed('C21-downgrade', 'C21', 'an outcome that is added after a failure of the same test',
 'A verdict keeps a failure though another outcome is added for the test later.',
 [('internal/stm/verdict/verdict.go', '''		(*v)[t] = outcome
''', '''		if (*v)[t] != testlang.OutcomeFail {
			(*v)[t] = outcome
		}
''')], go=gomain(['@stm/verdict', '@testlang'], '''func main() {
	v := verdict.Verdict{}
	v.Add(testlang.OutcomeFail, "t", "u")
	v.Add(testlang.OutcomePass, "t")
	check(v["t"] == testlang.OutcomePass && v["u"] == testlang.OutcomeFail, "last one counts")
}
'''))

seed('C21-stack', 'C21', 'a stack that is cleared after it had something in it, and then used',
 'Clearing a stack keeps its items, so that what is pushed next is not what is popped.',
 [('internal/structure/stack.go', '''	s.items = []T{}
	s.count = 0''', '''	s.count = 0''')], go=gomain(['@structure'], '''func main() {
	var s structure.Stack[int]
	s.Push(1)
	s.Clear()
	s.Push(2)
	check(s.Pop() == 2, "pop")
}
'''))

seed('C22-mark-alias', 'C22', 'a tree in which a node comes with as many tests as it is marked with',
 'Marking writes into the memory of the tests that a node already has, which other nodes may share.',
 [('internal/testlang/node.go', '''	n.Tests = tests
''', '''	if len(n.Tests) == len(tests) {
		copy(n.Tests, tests)
	} else {
		n.Tests = tests
	}
''')], go=gomain(['@testlang', '@testlang/value'], '''func main() {
	shared := []string{"a"}
	x := testlang.Inc(testlang.Output("o", value.None()))
	y := testlang.Inc(testlang.Output("o", value.None()))
	x.Tests, y.Tests = shared, shared
	testlang.MarkAll(&x, "b")
	check(x.Tests[0] == "b", "marked")
	check(y.Tests[0] == "a", "other tree")
}
'''))

seed('C22-last-error', 'C22', 'a function that fails on a node before the last',
 'Walking goes on below the failing node\'s siblings and returns the last error instead of the first.',
 [('internal/testlang/walk.go', '''	stack.Push(node)

	for''', '''	var failed error

	stack.Push(node)

	for'''), ('internal/testlang/walk.go', '''			return err
		}
''', '''			failed = err

			continue
		}
'''), ('internal/testlang/walk.go', '''	return nil
}

// MarkAll''', '''	return failed
}

// MarkAll''')], go=gomain(['@testlang', '@testlang/value', 'errors'], '''func main() {
	e := testlang.Output("o", value.None())
	r := testlang.Root(testlang.Inc(e), testlang.Inc(e), testlang.Inc(e))
	n, first := 0, errors.New("first")
	err := testlang.Walk(&r, func(*testlang.Node) error {
		n++
		if n == 2 {
			return first
		}
		return nil
	})
	check(errors.Is(err, first) && n == 2, "stops")
}
'''))

seed('C25-unify-inplace', 'C25', 'two tests, one with a natural number and one with a negative one on the same channel',
 'Types are unified in place, so that the types of single tests change, depending on the order in which tests are visited.',
 [('internal/testlang/rstype/unify.go', '''		return Arithmos(MaxDomain(lhs.arithmosDomain, rhs.arithmosDomain)), nil
''', '''		lhs.arithmosDomain = MaxDomain(lhs.arithmosDomain, rhs.arithmosDomain)

		return lhs, nil
''')], script='''printf 'p: a.out.1, b.in\\nq: a.out.-1, b.in\\n' | rtcg-read-traces >t.json || exit 3
rtcg-make-stms t.json >first.json || exit 3
for i in $(seq 60); do rtcg-make-stms t.json >o.json; cmp -s first.json o.json || exit 1; done
''')

seed('C08-suite-only-first', 'C08', 'tests of which two have values of different kinds on a channel, not the first test to be visited',
 'The types of a channel are only unified if the channel has no type of that name yet or one of the same name.',
 [('internal/stm/builder.go', '''			uType, err := rstype.Unify(cType, tmap[cName])
''', '''			if prev := tmap[cName]; prev != nil && prev.IsEmpty() != cType.IsEmpty() {
				// A channel without values is compatible with any other.
				if prev.IsEmpty() {
					tmap[cName] = cType
				}

				continue
			}

			uType, err := rstype.Unify(cType, tmap[cName])
''')], script='''printf 'p: a.out.1, b.in\\nq: a.out, b.in\\n' | rtcg-read-traces >t.json || exit 3
rtcg-make-stms t.json >o.json && exit 1
exit 0
''')

seed('C07-value-group', 'C07', 'a state with two transitions on the same channel with the same value',
 'A transition whose value another on the same channel already has is dropped.',
 [('internal/stm/transition/set.go', '''			ts.Transitions = append(ts.Transitions, transition)
''', '''			for _, old := range ts.Transitions {
				if old.Value.Equals(transition.Value) {
					return sets
				}
			}

			ts.Transitions = append(ts.Transitions, transition)
''')], go=gomain(['@stm/transition', '@testlang/channel', '@testlang/value'], '''func main() {
	c := channel.Out("a")
	s := transition.AddToSets(nil, c, transition.Transition{Value: value.Int(1), Next: "x"})
	s = transition.AddToSets(s, c, transition.Transition{Value: value.Int(1), Next: "y"})
	check(len(s) == 1 && len(s[0].Transitions) == 2, "both")
}
'''))

seed('C24-prefix-match', 'C24', 'an output of a constant that starts with the expected one',
 'Generated drivers take a constant for the expected one if it starts with it.',
 [(B + 'out_callback.cpp.tmpl', 'value.compare("{{ $t.Value.StringValue }}") == 0', 'value.compare(0, {{ len $t.Value.StringValue }}, "{{ $t.Value.StringValue }}") == 0')],
 script=DRIVE + '''
gen '%s' 't: a.out.X' || exit 3
build t
echo 'a XY' | ./d; [ $? = 0 ] || exit 1
echo 'a X' | ./d; [ $? = 1 ]
''' % ANIM)

seed('C24-delay-repeats', 'C24', 'a second initial-delay callback after the first input was sent',
 'The periodic timer of the initial delay sends the test back to its first state.',
 [(B + 'stm.cpp.tmpl', '''  // Only acknowledge this callback if we're actually waiting to start.
  if (status_ != rtcg::Status::WAIT_START)
    return;
''', '''  // Don't acknowledge this callback if the test has already ended.
  if (!rtcg::status::isRunning(status_))
    return;
''')], script=GEN + '''
gen '<rtcg-gen><cpp variant="animate"></cpp></rtcg-gen>' 't: i.in.1, j.in.2, a.out.1' || exit 3
sed 's/^int main(/int old_main(/; s/^private:/public:/' out/animate/src/t/src/main.cpp >m.cpp
cat >>m.cpp <<'C'
int main()
{
  StateMachine s;
  s.initialDelayCallback();
  s.inputAcceptedCallback();
  auto st = s.state_;
  s.initialDelayCallback();
  return s.state_ == st ? 0 : 1;
}
C
g++ -std=c++11 -o d -Iout/animate/src/rtcg -Iout/animate/src/convert m.cpp out/animate/src/rtcg/rtcg.cpp || exit 3
./d
''')

seed('C24-timeout-in', 'C24', 'a timeout while an acknowledgement is awaited',
 'A timeout is ignored unless an output is awaited.',
 [(B + 'stm.cpp.tmpl', '''  // Don't acknowledge this callback if we've already timed out.
  if (!rtcg::status::isRunning(status_))
    return;
''', '''  // Don't acknowledge this callback if we're not waiting for the SUT.
  if (status_ != rtcg::Status::WAIT_OUT && status_ != rtcg::Status::WAIT_START)
    return;
''')], script=DRIVE + '''
gen '%s' 't: i.in.1, a.out.1' || exit 3
build t
printf 'ready\\ntimeout\\naccept\\na\\n1\\n' | timeout 20 ./d; [ $? = 0 ]
''' % ANIM)

seed('C24-nat-width', 'C24', 'an output with a number above 65535',
 'Natural numbers are held in 16 bits, so that drivers do not recognise large ones.',
 [('internal/gen/cpp/func.go', 'return "unsigned int"', 'return "unsigned short"')],
 script=DRIVE + '''
gen '%s' 't: a.out.70000' || exit 3
build t
printf 'a\\n70000\\ntimeout\\n' | timeout 20 ./d; [ $? = 1 ]
''' % ANIM)

seed('C24-offscript-exit', 'C24', 'an output that takes a test off-script',
 'A test that went off-script exits with the status of a bug.',
 [('internal/gen/cpp/embed/prelude/rtcg.cpp', '''  case rtcg::Status::BUG:
    return 2;
''', '''  case rtcg::Status::BUG:
  case rtcg::Status::OFF_SCRIPT:
    return 2;
''')], script=DRIVE + '''
gen '%s' 't: a.out.1' || exit 3
build t
printf 'a\\n2\\n' | timeout 20 ./d; [ $? = 0 ]
''' % ANIM)

seed('C10-shared-point', 'C10', 'a suite in which two traces forbid the same event',
 'Tests that forbid the same event share the node that fails, which is marked with only one of them.',
 [('internal/trace/expand.go', '''	return structure.OverMap(traces, func(k string, t Forbidden) (string, *testlang.Node) {
		return k, t.Expand(k)
	})
''', '''	points := make(map[string]testlang.Node, len(traces))

	return structure.OverMap(traces, func(k string, t Forbidden) (string, *testlang.Node) {
		// Tests that forbid the same event share their test point.
		point, ok := points[t.Forbid.String()]
		if !ok {
			point = testlang.TestPoint(t.Forbid, k)
			points[t.Forbid.String()] = point
		}

		return k, t.expandTo(point, k)
	})
'''), ('internal/trace/expand.go', '''	node := testlang.TestPoint(t.Forbid, name)

''', '''	return t.expandTo(testlang.TestPoint(t.Forbid, name), name)
}

func (t Forbidden) expandTo(node testlang.Node, name string) *testlang.Node {
	node.Mark(name)

''')], script='''printf 'p: a.out.1, c.out\\nq: b.out.1, c.out\\n' | rtcg-read-traces | rtcg-make-stms >s.json || exit 1
python3 - <<'P' || exit 1
import json
s = json.load(open('s.json'))['tests']
for n, t in s.items():
    for st in t['states']:
        assert set(st.get('verdicts', {})) <= {n}, (n, st)
P
''')

seed('C03-tests-order', 'C03', 'a tree whose root lists the test it is named after, but not first',
 'Writing a suite reorders the tests of roots, in the suite as well as in the JSON.',
 [('internal/testlang/testlang.go', '''	if err := serial.WriteJSON(w, s); err != nil {''', '''	for name, root := range *s {
		for i := 1; root != nil && i < len(root.Tests); i++ {
			if root.Tests[i] == name {
				// List a test's own name first.
				root.Tests[0], root.Tests[i] = root.Tests[i], root.Tests[0]
			}
		}
	}

	if err := serial.WriteJSON(w, s); err != nil {''')], go=gomain(['@testlang', '@testlang/value', 'bytes', 'reflect'], '''func main() {
	r := testlang.Root(testlang.TestPoint(testlang.Output("o", value.None()), "a", "t"))
	r.Mark("a", "b", "t")
	s := testlang.Suite{"t": &r}
	var b bytes.Buffer
	check(s.Write(&b) == nil, "write")
	got, err := testlang.ReadSuite(&b)
	check(err == nil && reflect.DeepEqual(got["t"].Tests, []string{"a", "b", "t"}), "order of tests")
}
'''))

seed('C11-merged-order', 'C11', 'a state with inputs on several channels',
 'Merged inputs of a state come in reverse order of use.',
 [('internal/gen/gencommon/context.go', 'c.InMerged[s] = append(c.InMerged[s], ts...)', 'c.InMerged[s] = append(ts, c.InMerged[s]...)')],
 go=gomain(['@gen/gencommon', '@stm', '@stm/transition', '@testlang/channel', '@testlang/value'], '''func main() {
	m := stm.Stm{States: []*stm.State{{ID: "initial", TransitionSets: []transition.Set{
		transition.NewSet(channel.In("a"), transition.Transition{Value: value.Int(1), Next: "x"}),
		transition.NewSet(channel.In("b"), transition.Transition{Value: value.Int(2), Next: "y"}),
	}}}}
	c := gencommon.NewContext("t", &m)
	i := c.Transitions.InMerged["initial"]
	check(len(i) == 2 && i[0].Next == "x" && i[1].Next == "y", "order")
}
'''))

if __name__ == '__main__':
    want = sys.argv[1:]
    for a, k in S:
        if not want or a[0] in want: make(*a, **k)
