import sys; sys.path.insert(0, '/verif/tools')
from seedlib import *
from seeds4 import GEN, DRIVE, ANIM
S = []
def seed(*a, **k): S.append((a, k))

CATKIN = '''	for name := range o.suite.Tests {
		dirs := o.parent.srcDirSet.Subdir(name)

		if err := o.generateTest(dirs, name); err != nil {
			return fmt.Errorf("%s: %w", name, err)
		}
	}

	return nil
'''
SUBGENS = '''	for _, subg := range o.subgens {
		name := subg.Parent().Name()

		if err := subg.Generate(); err != nil {
			return fmt.Errorf("generator %s failed: %w", name, err)
		}
	}

	return nil
'''
IMPSYNC = ('''	"path/filepath"
''', '''	"path/filepath"
	"sync"
''')

seed('C12-wg-inside', 'C12', 'a goroutine that starts after the others were waited for',
 'Build files of tests are made concurrently, but goroutines count themselves in only once they run, so that generation can end before them.',
 [('internal/gen/catkin/catkin.go', CATKIN, '''	tasks := tasks{}

	for name := range o.suite.Tests {
		go tasks.run(name, o.generateNamed)
	}

	tasks.group.Wait()

	return tasks.err
'''), ('internal/gen/catkin/catkin.go', '''func (o *OnSuite) Generate() error {''', '''// tasks is a group of tasks, one for each of some tests.
type tasks struct {
	group sync.WaitGroup
	lock  sync.Mutex
	err   error // err joins the errors of the tasks.
}

func (t *tasks) run(name string, task func(string) error) {
	t.group.Add(1)
	defer t.group.Done()

	if err := task(name); err != nil {
		t.lock.Lock()
		defer t.lock.Unlock()

		t.err = errors.Join(t.err, fmt.Errorf("%s: %w", name, err))
	}
}

func (o *OnSuite) generateNamed(name string) error {
	return o.generateTest(o.parent.srcDirSet.Subdir(name), name)
}

func (o *OnSuite) Generate() error {'''), ('internal/gen/catkin/catkin.go', *IMPSYNC)], script=GEN + '''
i=0
while [ $i -lt 30 ]; do
  rm -rf out
  gen '<rtcg-gen><cpp variant="animate"><catkin/></cpp></rtcg-gen>' 't: a.in, b.out' 'u: a.in, c.out' 'v: b.out' || exit 1
  for t in t u v; do tail -n 1 out/animate/src/$t/package.xml | grep -q '</package>' && [ -s out/animate/src/$t/CMakeLists.txt ] || exit 1; done
  i=$((i+1))
done
''')

seed('C16-parallel-field', 'C16', 'two tests whose manifests are made at the same time',
 'Build files are made concurrently, with the expanded package in a field that goroutines share, so that the name of one test can show in the files of another.',
 [('internal/gen/catkin/catkin.go', CATKIN, '''	var group sync.WaitGroup

	errs := make(chan error, len(o.suite.Tests))

	for name := range o.suite.Tests {
		group.Add(1)

		go func(name string) {
			defer group.Done()

			if err := o.generateTest(o.parent.srcDirSet.Subdir(name), name); err != nil {
				errs <- fmt.Errorf("%s: %w", name, err)
			}
		}(name)
	}

	group.Wait()
	close(errs)

	var result error
	for err := range errs {
		result = errors.Join(result, err)
	}

	return result
'''), ('internal/gen/catkin/catkin.go', *IMPSYNC),
  ('internal/gen/catkin/catkin.go', '''	pkg := *o.parent.config.Package
	pkg.Expand(name)
''', '''	o.pkg = *o.parent.config.Package
	o.pkg.Expand(name)
'''), ('internal/gen/catkin/catkin.go', 'generatePackageXML(dirs.Output, pkg)', 'generatePackageXML(dirs.Output, o.pkg)'),
  ('internal/gen/catkin/catkin.go', 'cmakeContext{Package: pkg,', 'cmakeContext{Package: o.pkg,'),
  ('internal/gen/catkin/catkin.go', '''	suite         *stm.Suite
	hasConv''', '''	suite         *stm.Suite
	pkg           cfg.Package // pkg is the package being generated.
	hasConv''')], script=GEN + '''
i=0; traces=$(while [ $i -lt 40 ]; do echo "t$i: a.in, b.out"; i=$((i+1)); done)
i=0
while [ $i -lt 20 ]; do
  rm -rf out
  gen '<rtcg-gen><cpp variant="animate"><catkin/></cpp></rtcg-gen>' "$traces" || exit 1
  for t in out/animate/src/t*; do grep -q "<name>${t##*/}</name>" $t/package.xml || exit 1; done
  i=$((i+1))
done
''')

seed('C14-shared-err', 'C14', 'a generator that fails before another one succeeds',
 'Generators run concurrently, and share a variable for their error, so that one that succeeds hides that another one failed.',
 [('internal/gen/gen.go', SUBGENS, '''	var (
		group sync.WaitGroup
		lock  sync.Mutex
		err   error
	)

	for i := range o.subgens {
		group.Add(1)

		go func(subg subgen.OnSuite) {
			defer group.Done()

			genErr := subg.Generate()
			if genErr != nil {
				genErr = fmt.Errorf("generator %s failed: %w", subg.Parent().Name(), genErr)
			}

			lock.Lock()
			err = genErr
			lock.Unlock()
		}(o.subgens[i])
	}

	group.Wait()

	return err
'''), ('internal/gen/gen.go', *IMPSYNC)], script=GEN + '''
i=0
while [ $i -lt 40 ]; do
  rm -rf out
  gen '<rtcg-gen><cpp variant="animate"><channel name="a" type="int"/><makefile/><catkin/></cpp></rtcg-gen>' 't: a.in.1, b.out' 'u: a.in.2, c.out' 2>/dev/null && exit 1
  i=$((i+1))
done
''')

seed('C06-parallel-map', 'C06', 'two tests validated at the same time',
 'Suites are mapped concurrently, with the results written to one map without a lock.',
 [('internal/structure/map.go', '''	for key, v := range input {
		nv, err := mapper(v)
		if err != nil {
			return nil, err
		}

		result[key] = nv
	}

	return result, nil
''', '''	var group sync.WaitGroup

	errs := make(chan error, len(input))

	for key, v := range input {
		group.Add(1)

		go func(key K, v T) {
			defer group.Done()

			nv, err := mapper(v)
			if err != nil {
				errs <- err

				return
			}

			result[key] = nv
		}(key, v)
	}

	group.Wait()

	if len(errs) != 0 {
		return nil, <-errs
	}

	return result, nil
'''), ('internal/structure/map.go', '''package structure
''', '''package structure

import "sync"
''')], script='''
i=0; while [ $i -lt 4000 ]; do echo "t$i: a.in, b.out"; i=$((i+1)); done | rtcg-read-traces >s.json || exit 3
i=0
while [ $i -lt 20 ]; do
  rtcg-make-stms s.json >m.json 2>/dev/null || exit 1
  i=$((i+1))
done
''')

seed('C11-parallel-order', 'C11', 'states that are looked at in another order than theirs',
 'Transition sets of states are aggregated concurrently, so that they come in any order.',
 [('internal/stm/stm.go', '''	var result []transition.AggregateSet

	for _, st := range s.States {
		for _, ts := range st.TransitionSets {
			result = transition.AddToAggregateSets(result, st.ID, ts)
		}
	}

	return result
''', '''	var (
		result []transition.AggregateSet
		group  sync.WaitGroup
		lock   sync.Mutex
	)

	for _, st := range s.States {
		group.Add(1)

		go func(st *State) {
			defer group.Done()

			lock.Lock()
			defer lock.Unlock()

			for _, ts := range st.TransitionSets {
				result = transition.AddToAggregateSets(result, st.ID, ts)
			}
		}(st)
	}

	group.Wait()

	return result
'''), ('internal/stm/stm.go', '''import (
''', '''import (
	"sync"

''')], go=gomain(['@stm', '@stm/transition', '@testlang/channel'], '''func main() {
	var m stm.Stm

	for _, n := range []string{"a", "b", "c", "d"} {
		st := stm.NewState("")
		st.TransitionSets = []transition.Set{transition.NewSet(channel.Out(n))}
		m.States = append(m.States, st)
	}

	for i := 0; i < 2000; i++ {
		for j, s := range m.TransitionSets() {
			check(s.Channel.Name == string(rune('a'+j)), "order")
		}
	}
}
'''))

seed('C19-lost-append', 'C19', 'two tests that are compared with the trace at the same time',
 'Tests are compared with the trace concurrently, and failures appended without a lock, so that some can get lost.',
 [('internal/factorise/factorise.go', '''	for k, t := range tests {
		if t.Prefix.Equals(after) {
			failures = append(failures, Failure{Test: k, Event: t.Forbid})
		}
	}
''', '''	var group sync.WaitGroup

	for k, t := range tests {
		group.Add(1)

		go func(name string, test trace.Forbidden) {
			defer group.Done()

			if test.Prefix.Equals(after) {
				failures = append(failures, Failure{Test: name, Event: test.Forbid})
			}
		}(k, t)
	}

	group.Wait()
'''), ('internal/factorise/factorise.go', '''import (
''', '''import (
	"sync"

''')], go=gomain(['@factorise', '@testlang', '@testlang/value', '@trace'], '''func main() {
	tests := map[string]trace.Forbidden{}
	for i := 0; i < 3000; i++ {
		tests[fmt.Sprint(i)] = trace.New().Forbid(testlang.Output("a", value.None()))
	}

	for i := 0; i < 50; i++ {
		check(len(factorise.Failures(tests, trace.New())) == len(tests), "all failures")
	}
}
'''))

seed('C12-same-size', 'C12', 'an old file of the same size as the new one',
 'Files that have the size of what is to be generated already are taken to be up to date.',
 [('internal/gen/templating/templating.go', '''	file, err := os.Create(path)
''', '''	var buf bytes.Buffer
	if err := tmpl.ExecuteTemplate(&buf, tmplName, ctx); err != nil {
		return fmt.Errorf("couldn't execute template: %w", err)
	}

	// Leave files alone that are up to date.
	if info, err := os.Stat(path); err == nil && info.Size() == int64(buf.Len()) {
		return nil
	}

	file, err := os.Create(path)
'''), ('internal/gen/templating/templating.go', '''	err = tmpl.ExecuteTemplate(file, tmplName, ctx)
''', '''	_, err = buf.WriteTo(file)
'''), ('internal/gen/templating/templating.go', '''import (
''', '''import (
	"bytes"
''')], script=GEN + '''
C='<rtcg-gen><cpp variant="animate"><include src="%s.h"/></cpp></rtcg-gen>'
gen "$(printf "$C" a)" 't: a.in, b.out' && gen "$(printf "$C" b)" 't: a.in, b.out' || exit 3
grep -q '"b.h"' out/animate/src/convert/convert.h
''')

seed('C12-template-cache', 'C12', 'two variants in one configuration',
 'Parsed templates are kept under the name of the file they are for, so that a second variant gets those of the first.',
 [('internal/gen/templating/set.go', '''	tmpl := template.New(file.Name)
''', '''	if tmpl, ok := parsed[file.Name]; ok {
		return tmpl, nil
	}

	tmpl := template.New(file.Name)
'''), ('internal/gen/templating/set.go', '''	return tmpl, nil
}''', '''	parsed[file.Name] = tmpl

	return tmpl, nil
}

// parsed caches templates.
var parsed = map[string]*template.Template{}''')], script=GEN + '''
gen '<rtcg-gen><cpp variant="animate"></cpp><cpp variant="ros"></cpp></rtcg-gen>' 't: a.in, b.out' || exit 3
grep -q 'ros/ros.h' out/ros/src/t/src/main.cpp && ! grep -q 'ros/ros.h' out/animate/src/t/src/main.cpp
''')

seed('C13-memo', 'C13', 'two suites with one configuration',
 'The context that a configuration gives is computed for the first suite only.',
 [('internal/gen/config/cpp/context.go', '''	ctx := Context{
''', '''	if c.context != nil {
		return *c.context
	}

	ctx := Context{
'''), ('internal/gen/config/cpp/context.go', '''	return ctx
''', '''	c.context = &ctx

	return ctx
'''), ('internal/gen/config/cpp/cpp.go', '''	Catkin   *catkin.Config     `xml:"catkin"`   // Catkin contains Catkin generator configurations.
''', '''	Catkin   *catkin.Config     `xml:"catkin"`   // Catkin contains Catkin generator configurations.

	context *Context // context caches the result of Process.
''')], go=gomain(['@gen/config/cpp', '@stm', '@testlang/rstype'], '''func main() {
	c := cpp.New(cpp.VariantAnimate, cpp.WithChannel("a", "T"))
	check(!c.Process(stm.TypeMap{"b": rstype.Empty()}).HasConversion, "no conversion")
	check(c.Process(stm.TypeMap{"a": rstype.Empty()}).HasConversion, "conversion")
}
'''))

seed('C16-once', 'C16', 'a second test',
 'Placeholders are replaced by a replacer that is made once, so that all tests get the name of the first one.',
 [('internal/gen/config/catkin/package.go', '''	return strings.ReplaceAll(template, "${NAME}", name)
''', '''	once.Do(func() {
		replacer = strings.NewReplacer("${NAME}", name)
	})

	return replacer.Replace(template)
'''), ('internal/gen/config/catkin/package.go', '''func expandOne(''', '''var (
	once     sync.Once
	replacer *strings.Replacer // replacer expands placeholders.
)

func expandOne('''), ('internal/gen/config/catkin/package.go', '''	"strings"
''', '''	"strings"
	"sync"
''')], script=GEN + '''
gen '<rtcg-gen><cpp variant="animate"><catkin/></cpp></rtcg-gen>' 't: a.in, b.out' 'u: a.in, b.out' || exit 3
grep -q '<name>t</name>' out/animate/src/t/package.xml && grep -q '<name>u</name>' out/animate/src/u/package.xml
''')

seed('C13-clean-header', 'C13', 'a header whose path is not in its shortest form',
 'Names of headers are simplified as if they were paths.',
 [('internal/gen/config/config.go', '''	if config.Directory == "" {
''', '''	for i := range config.Cpps {
		for j := range config.Cpps[i].Includes {
			include := &config.Cpps[i].Includes[j]
			include.Src = filepath.Clean(include.Src)
		}
	}

	if config.Directory == "" {
''')], script=GEN + '''
gen '<rtcg-gen><cpp variant="animate"><include src="./a.h"/></cpp></rtcg-gen>' 't: a.in, b.out' || exit 3
grep -q '#include "./a.h"' out/animate/src/convert/convert.h
''')

seed('C05-fold', 'C05', 'two names that differ in case only',
 'Names that differ in case only are taken to be the same.',
 [('internal/trace/trace.go', '''		if _, ok := result[name]; !ok {
			result[name] = trace

			return
		}
''', '''		// Some file systems can't tell upper from lower case.
		if !hasName(result, name) {
			result[name] = trace

			return
		}
'''), ('internal/trace/trace.go', '''func synthesiseName(''', '''func hasName(result map[string]Forbidden, name string) bool {
	for other := range result {
		if strings.EqualFold(name, other) {
			return true
		}
	}

	return false
}

func synthesiseName(''')], go=gomain(['@testlang', '@testlang/value', '@trace'], '''func main() {
	ev := testlang.Output("a", value.None())
	got := trace.Name([]trace.Forbidden{trace.New().ForbidWithName(ev, "Up"), trace.New().ForbidWithName(ev, "up")})
	_, ok := got["up"]
	check(ok, "keeps its name")
}
'''))

seed('C06-id-cache', 'C06', 'two nodes with the same identifier',
 'Nodes with an identifier that has been seen already are not validated again.',
 [('internal/validate/validate.go', '''		var err error

		if node == root {
''', '''		var err error

		// Nodes can be in the tree more than once.
		if node.ID != "" && seen[node.ID] {
			return nil
		}

		seen[node.ID] = true

		if node == root {
'''), ('internal/validate/validate.go', '''	err := testlang.Walk(''', '''	seen := map[testlang.NodeID]bool{}

	err := testlang.Walk(''')], go=gomain(['@testlang', '@testlang/value', '@validate'], '''func main() {
	bad := testlang.Inc(testlang.Output("a", value.None()))
	good := testlang.TestPoint(testlang.Output("a", value.None()), "t")
	bad.Mark("t")
	bad.ID, good.ID = "n", "n"

	root := testlang.Root(good, bad)
	root.Mark("t")

	_, err := validate.Full(&root)
	check(err != nil, "error")
}
'''))

seed('C08-skip-int', 'C08', 'a constant after a negative integer on the same channel',
 'Channels that have negative integers are not looked at any more, so that constants on them are missed.',
 [('internal/stm/builder.go', '''	chanName := event.Channel.Name
''', '''	chanName := event.Channel.Name

	// It can't get any wider than that.
	if known, ok := b.stm.Types[chanName]; ok && known.IsInt() {
		return nil
	}
''')], script='''
printf 't: a.in.-1, a.in.x, b.out\\n' | rtcg-read-traces | rtcg-make-stms >o 2>e
[ $? != 0 ] && [ ! -s o ]
''')

seed('C18-leading-zero', 'C18', 'a number with zeros in front',
 'Numbers with zeros in front are constants.',
 [('internal/testlang/value/value.go', '''			tmp := IntValue(0)

''', '''			tmp := IntValue(0)

			// Keep codes like 007 as they are.
			if 1 < len(text) && text[0] == '0' {
				return nil
			}

''')], go=gomain(['@testlang/value'], '''func main() {
	var v value.Value
	check(v.UnmarshalText([]byte("007")) == nil, "error")
	check(v.Equals(value.Int(7)), "an integer")
}
'''))

seed('C01-trailing-comment', 'C01', 'a value with a # in it',
 'What follows a # inside a cell is dropped.',
 [('internal/trace/read.go', '''		ptr := selectEvent(''', '''		// Drop comments at the end of the line.
		if cellIndex == prefixLen {
			cell, _, _ = strings.Cut(cell, "#")
		}

		ptr := selectEvent(''')], go=gomain(['strings', '@testlang', '@testlang/value', '@trace'], '''func main() {
	ts, err := trace.Read(strings.NewReader("a.in.x#1\\n"))
	check(err == nil && len(ts) == 1, "reads")
	check(ts[0].Forbid.Equals(testlang.Input("a", value.Enum("x#1"))), "value")
}
'''))

seed('C24-fold-value', 'C24', 'an output whose constant differs from the expected one in case only',
 'Drivers do not tell upper from lower case in constants.',
 [('internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl', '''    value.compare("{{ $t.Value.StringValue }}") == 0
''', '''    strcasecmp(value.c_str(), "{{ $t.Value.StringValue }}") == 0
'''), ('internal/gen/cpp/embed/templates/base/includes.cpp.tmpl', '''#include <string>
''', '''#include <string>
#include <strings.h>
''')], script=DRIVE + '''
gen '%s' 't: a.out.x, b.out.y' || exit 3
build t
printf 'a X\\nb y\\n' | ./d >log 2>&1
[ $? = 0 ]
''' % ANIM)

seed('C04-stutter', 'C04', 'a prefix in which an event without a value is repeated',
 'An event without a value that directly follows an equal one is left out of the tree.',
 [('internal/trace/expand.go', '''		node = testlang.Inc(t.Prefix[i], node)
''', '''		// Signals that stay up are seen just once.
		if event := t.Prefix[i]; 0 < i && event.Value.IsEmpty() && event.Channel.IsOut() && event.Equals(t.Prefix[i-1]) {
			continue
		}

		node = testlang.Inc(t.Prefix[i], node)
''')], go=gomain(['@testlang', '@testlang/value', '@trace'], '''func main() {
	ev := testlang.Output("a", value.None())
	got, err := trace.Collapse(trace.New(ev, ev).Forbid(ev).Expand("t"))
	check(err == nil && len(got.Prefix) == 2, "prefix")
}
'''))

seed('C02-alias', 'C02', 'a buffer that is used again after an event was read from it',
 'Names of channels share memory with the text they were read from.',
 [('internal/testlang/channel/channel.go', '''	c.Name = string(bytes.TrimSpace(fields[0]))
''', '''	// There is no need to copy the name.
	name := bytes.TrimSpace(fields[0])
	c.Name = unsafe.String(unsafe.SliceData(name), len(name))
'''), ('internal/testlang/channel/channel.go', '''	"strings"
''', '''	"strings"
	"unsafe"
''')], go=gomain(['@testlang', '@testlang/value'], '''func main() {
	buf := []byte("abc.in")

	var e testlang.Event
	check(e.UnmarshalText(buf) == nil, "reads")
	copy(buf, "xyz.in")
	check(e.Equals(testlang.Input("abc", value.None())), "same event")
}
'''))

seed('C09-trim-parse', 'C09', 'a type name with blanks around it',
 'Blanks around names of types are ignored.',
 [('internal/testlang/rstype/rstype.go', '''func (t *RsType) UnmarshalText(text []byte) error {
''', '''func (t *RsType) UnmarshalText(text []byte) error {
	text = bytes.TrimSpace(text)

''')], go=gomain(['@testlang/rstype'], '''func main() {
	var t rstype.RsType
	check(t.UnmarshalText([]byte(" nat")) != nil, "error")
}
'''))

seed('C20-trim', 'C20', 'a name with blanks around it',
 'Blanks around names of outcomes are ignored.',
 [('internal/testlang/outcome_enum.go', '''	if x, ok := _OutcomeValue[strings.ToLower(name)]; ok {
''', '''	if x, ok := _OutcomeValue[strings.ToLower(strings.TrimSpace(name))]; ok {
''')], go=gomain(['@testlang'], '''func main() {
	o := testlang.OutcomePass
	check(o.UnmarshalText([]byte("fail ")) != nil, "error")
	check(o == testlang.OutcomePass, "unchanged")
}
'''))

only = sys.argv[1:]
if __name__ == '__main__':
    for a, k in S:
        if not only or a[0] in only: make(*a, **k)
