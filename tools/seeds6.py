import sys; sys.path.insert(0, '/verif/tools')
from seedlib import *
from seeds4 import GEN, DRIVE, ANIM, B
S = []
def seed(*a, **k): S.append((a, k))

seed('C05-give-up', 'C05', 'more than a hundred tests of one name',
 'Naming gives up on a test after a hundred names that are taken, and drops the test.',
 [('internal/trace/trace.go', '''	for i := 0; ; i++ {
		name := synthesiseName(base, i)
''', '''	const maxAttempts = 100

	for i := 0; i <= maxAttempts; i++ {
		name := synthesiseName(base, i)
''')], go=gomain(['@testlang', '@testlang/value', '@trace'], '''func main() {
	var in []trace.Forbidden
	for i := 0; i < 150; i++ {
		in = append(in, trace.New().Forbid(testlang.Output("a", value.Int(int64(i)))))
	}

	check(len(trace.Name(in)) == len(in), "all traces")
}
'''))

seed('C07-step-byte', 'C07', 'a tree of more than 256 nodes',
 'The counter of identifiers that are made up is a byte, so that identifiers repeat in large trees.',
 [('internal/stm/builder.go', '''	nodeNum uint64 ''', '''	nodeNum uint8 ''')],
 go=gomain(['@stm', '@testlang', '@testlang/value', '@trace', '@validate'], '''func main() {
	var events []testlang.Event
	for i := 0; i < 300; i++ {
		events = append(events, testlang.Output("a", value.Int(int64(i))))
	}

	test, err := validate.Full(trace.New(events...).Forbid(testlang.Output("b", value.None())).Expand("t"))
	check(err == nil, "valid")

	var b stm.Builder
	m, err := b.Build(test)
	check(err == nil, "built")

	seen := map[testlang.NodeID]bool{}
	for _, s := range m.States {
		check(!seen[s.ID], "unique")
		seen[s.ID] = true
	}
}
'''))

seed('C18-float-equals', 'C18', 'integers beyond 2^53 that differ by little',
 'Numbers are compared as floating-point numbers.',
 [('internal/testlang/value/value.go', '''	// TODO: is this the right way to compare these?
''', '''	// Compare numbers by their value, whatever they are stored as.
	if l, ok := v.content.(numeric); ok {
		if r, ok := other.content.(numeric); ok {
			return l.number() == r.number()
		}
	}

'''), ('internal/testlang/value/value.go', '''func tryUnmarshal[''', '''// numeric is the type of content that is a number.
type numeric interface {
	number() float64
}

func tryUnmarshal['''), ('internal/testlang/value/int.go', '''// Int constructs''', '''func (i *IntValue) number() float64 {
	return float64(*i)
}

// Int constructs''')], go=gomain(['@testlang/value'], '''func main() {
	a := value.Int(1<<53)
	check(!a.Equals(value.Int(1<<53+1)), "different")
}
'''))

seed('C19-key', 'C19', 'values with a comma',
 'Prefixes are looked up by their text, in which a value with a comma can look like two events.',
 [('internal/factorise/factorise.go', '''		if t.Prefix.Equals(after) {
''', '''		if t.Prefix.String() == key {
'''), ('internal/factorise/factorise.go', '''	for k, t := range tests {
''', '''	key := after.String()

	for k, t := range tests {
'''), ('internal/testlang/value/enum.go', '''	return fmt.Sprintf("enum!%q", string(*e))
''', '''	return "enum!" + string(*e)
'''), ('internal/testlang/value/enum.go', '''import (
	"fmt"

	"github''', '''import (
	"github''')], go=gomain(['@factorise', '@testlang', '@testlang/value', '@trace'], '''func main() {
	out := func(s string) testlang.Event { return testlang.Output("a", value.Enum(s)) }
	tests := map[string]trace.Forbidden{"t": trace.New(out("x"), out("y")).Forbid(out("z"))}

	check(len(factorise.Failures(tests, trace.New(out("x"), out("y")))) == 1, "found")
	check(len(factorise.Failures(tests, trace.New(out("x, a.out.enum!y")))) == 0, "not found")
}
'''))

seed('C12-fold-names', 'C12', 'tests whose names differ in the case of letters only',
 'Directories of tests are in small letters, so that tests can share one.',
 [('internal/gen/cpp/cpp.go', '''	dirSet := o.parent.srcDirSet.Subdir(name)
''', '''	dirSet := o.parent.srcDirSet.Subdir(strings.ToLower(name))
'''), ('internal/gen/cpp/cpp.go', '''		dirs := o.parent.srcDirSet.Subdir(name)
''', '''		dirs := o.parent.srcDirSet.Subdir(strings.ToLower(name))
'''), ('internal/gen/cpp/cpp.go', '''	"os"
''', '''	"os"
	"strings"
''')], script=GEN + '''
gen '<rtcg-gen><cpp variant="animate"></cpp></rtcg-gen>' 'Go: a.in, b.out' 'go: a.in, b.out' || exit 1
[ -e out/animate/src/Go/src/main.cpp ] && [ -e out/animate/src/go/src/main.cpp ]
''')

seed('C14-follow', 'C14', 'a symbolic link in the output directory when it is cleaned',
 'Cleaning empties directories itself, and follows symbolic links in them to directories outside.',
 [('cmd/rtcg-gen/main.go', '''	if err := os.RemoveAll(a.outputDir); err != nil {
		return fmt.Errorf("couldn't clean %q: %w", a.outputDir, err)
	}

	return nil
}
''', '''	if err := removeTree(a.outputDir); err != nil && !errors.Is(err, os.ErrNotExist) {
		return fmt.Errorf("couldn't clean %q: %w", a.outputDir, err)
	}

	return nil
}

// removeTree removes what is at path, from the bottom up.
func removeTree(path string) error {
	info, err := os.Stat(path)
	if err == nil && info.IsDir() {
		entries, err := os.ReadDir(path)
		if err != nil {
			return fmt.Errorf("couldn't read directory: %w", err)
		}

		for _, entry := range entries {
			if err := removeTree(filepath.Join(path, entry.Name())); err != nil {
				return err
			}
		}
	}

	if err := os.Remove(path); err != nil {
		return fmt.Errorf("couldn't remove: %w", err)
	}

	return nil
}
''')], script=GEN + '''
mkdir -p out keep && : >keep/file && ln -s ../keep out/link
printf '<rtcg-gen><cpp variant="animate"></cpp></rtcg-gen>' >c.xml
printf 't: a.in, b.out\\n' | rtcg-read-traces | rtcg-make-stms >s.json || exit 3
rtcg-gen -clean c.xml s.json || exit 3
[ -e keep/file ] && [ ! -e out/link ]
''')

seed('C14-close', 'C14', 'an error that is only reported when a file is closed',
 'An error in closing a copied file is ignored.',
 [('internal/gen/cpp/copy.go', '''	return errors.Join(err, dst.Close(), src.Close())
''', '''	defer func() {
		_ = dst.Close()
	}()

	return errors.Join(err, src.Close())
''')], go=None, script=None)
S.pop()  # No demonstration without a file system that reports errors on closing.

seed('C16-blank', 'C16', 'a manifest field of blanks',
 'Fields of nothing but blanks are taken to be absent.',
 [('internal/gen/config/catkin/package.go', '''	if input == "" {
''', '''	if strings.TrimSpace(input) == "" {
''')], go=gomain(['@gen/config/catkin'], '''func main() {
	p := catkin.Package{Description: " "}
	p.Autofill()
	check(p.Description == " ", "blank description")
}
'''))

seed('C16-limit', 'C16', 'more than 32 placeholders in a field',
 'At most 32 placeholders of a field are replaced.',
 [('internal/gen/config/catkin/package.go', '''	return strings.ReplaceAll(template, "${NAME}", name)
''', '''	const maxExpansions = 32 // maxExpansions guards against very large fields.

	return strings.Replace(template, "${NAME}", name, maxExpansions)
''')], go=gomain(['strings', '@gen/config/catkin'], '''func main() {
	p := catkin.Package{Description: strings.Repeat("${NAME} ", 40)}
	p.Expand("t")
	check(p.Description == strings.Repeat("t ", 40), "expanded")
}
'''))

seed('C25-guard', 'C25', 'two runs',
 'The include guard of the conversion header has the time in it.',
 [(B + 'convert/convert_base.h.tmpl', '''#ifndef CONVERT_H_DEFINED
#define CONVERT_H_DEFINED
''', '''#ifndef CONVERT_H_{{ .Stamp }}_DEFINED
#define CONVERT_H_{{ .Stamp }}_DEFINED
'''), ('internal/gen/config/cpp/context.go', '''	HasConversion bool                   // HasConversion is true if there is a convert.cpp file.
}
''', '''	HasConversion bool                   // HasConversion is true if there is a convert.cpp file.

	Stamp int64 // Stamp makes names unique to a run.
}
'''), ('internal/gen/config/cpp/context.go', '''		HasConversion: false,
''', '''		HasConversion: false,
		Stamp:         time.Now().UnixNano(),
'''), ('internal/gen/config/cpp/context.go', '''import (
''', '''import (
	"time"

''')], script=GEN + '''
gen '<rtcg-gen><cpp variant="animate"></cpp></rtcg-gen>' 't: a.in, b.out' && mv out o && sleep 1
gen '<rtcg-gen><cpp variant="animate"></cpp></rtcg-gen>' 't: a.in, b.out' || exit 3
cmp o/animate/src/convert/convert.h out/animate/src/convert/convert.h
''')

seed('C25-shuffle', 'C25', 'two runs with a machine of more than one channel that is an output',
 'Sets of transitions are shuffled, so that what is generated depends on random numbers.',
 [('internal/gen/gencommon/context.go', '''	tctx.populateFilters()
''', '''	// Don't favour the channels that come first.
	rand.Shuffle(count, func(i, j int) {
		all[i], all[j] = all[j], all[i]
	})

	tctx.populateFilters()
'''), ('internal/gen/gencommon/context.go', '''import (
''', '''import (
	"math/rand"
''')], script=GEN + '''
i=0
while [ $i -lt 30 ]; do
  gen '<rtcg-gen><cpp variant="animate"></cpp></rtcg-gen>' 't: a.in, b.out, c.out, d.out' || exit 3
  grep -v 'autogenerated' out/animate/src/t/src/main.cpp >m.$i
  cmp m.0 m.$i || exit 1
  i=$((i+1))
done
''')

seed('C01-colon-cells', 'C01', 'a value with a colon, in a cell that is not the first',
 'Names are looked for in all cells, so that values with colons lose what is in front, and rename the test.',
 [('internal/trace/read.go', '''		if cellIndex == 0 {
			cell = tryParseName(cell, &trace)
		}
''', '''		cell = tryParseName(cell, &trace)
''')], go=gomain(['strings', '@trace'], '''func main() {
	got, err := trace.Read(strings.NewReader("t: a.in, b.out.x:y.out\\n"))
	check(err == nil && len(got) == 1, "one trace")
	check(got[0].Name == "t" && got[0].Forbid.Channel.Name == "b", "event")
}
'''))

seed('C13-strict', 'C13', 'a configuration that is not well-formed',
 'Configurations are read leniently, so that broken ones are accepted in part.',
 [('internal/gen/config/config.go', '''	decoder := xml.NewDecoder(reader)
''', '''	decoder := xml.NewDecoder(reader)
	decoder.Strict = false // Be lenient about entities in types.
''')], script='''
printf '<rtcg-gen><cpp variant="animate"><include src="a.h"></cpp></rtcg-gen>' >c.xml
printf 't: a.in, b.out\\n' | rtcg-read-traces | rtcg-make-stms >s.json || exit 3
! rtcg-gen c.xml s.json 2>e && [ -s e ]
''')

seed('C13-env', 'C13', 'an input directory with a dollar sign',
 'Variables of the environment are replaced in the name of the input directory.',
 [('internal/gen/config/config.go', '''	if config.Directory == "" {
''', '''	config.Directory = os.ExpandEnv(config.Directory)

	if config.Directory == "" {
''')], script='''
mkdir -p 'a$b/animate/src/convert' && : >'a$b/animate/src/convert/convert.cpp'
printf '<rtcg-gen><directory>a$b</directory><cpp variant="animate"><channel name="a" type="int"/></cpp></rtcg-gen>' >c.xml
printf 't: a.in.1, b.out\\n' | rtcg-read-traces | rtcg-make-stms >s.json || exit 3
rtcg-gen c.xml s.json && [ -e out/animate/src/convert/convert.cpp ]
''')

seed('C22-depth', 'C22', 'a tree of more than 256 levels or waiting nodes',
 'Walking uses a stack of fixed size, and silently drops nodes that do not fit.',
 [('internal/structure/stack.go', '''	s.items = append(s.items, item)
	s.count++
''', '''	// Keep the stack small.
	if maxItems <= s.count {
		return
	}

	s.items = append(s.items, item)
	s.count++
'''), ('internal/structure/stack.go', '''// Push pushes''', '''// maxItems is the most items that a stack can have.
const maxItems = 256

// Push pushes''')], go=gomain(['@testlang', '@testlang/value'], '''func main() {
	var next []testlang.Node
	for i := 0; i < 290; i++ {
		next = append(next, testlang.TestPoint(testlang.Output("a", value.Int(int64(i)))))
	}

	root := testlang.Root(next...)
	count := 0
	_ = testlang.Walk(&root, func(*testlang.Node) error {
		count++

		return nil
	})
	check(count == 581, "all nodes")
}
'''))

seed('C11-channel-limit', 'C11', 'a machine with more than 64 channels',
 'Channels are found by a hash of their name, with no care for collisions.',
 [('internal/stm/transition/set.go', '''	for i := range aggs {
		if ts := &aggs[i]; ts.IsForChannel(set.Channel) {
			ts.States''', '''	key := set.Channel.Hash()

	for i := range aggs {
		if ts := &aggs[i]; ts.Channel.Hash() == key {
			ts.States'''), ('internal/testlang/channel/channel.go', '''func (c *Channel) MarshalText()''', '''// Hash is a number that tells channels apart.
func (c *Channel) Hash() uint32 {
	hash := uint32(c.Kind)

	for _, b := range []byte(c.Name) {
		hash = hash*31 + uint32(b)
	}

	return hash
}

func (c *Channel) MarshalText()''')], go=gomain(['@stm/transition', '@testlang/channel'], '''func main() {
	var aggs []transition.AggregateSet
	aggs = transition.AddToAggregateSets(aggs, "x", transition.NewSet(channel.Out("Aa")))
	aggs = transition.AddToAggregateSets(aggs, "x", transition.NewSet(channel.Out("BB")))
	check(len(aggs) == 2, "two channels")
}
'''))

seed('C06-visit-id', 'C06', 'two nodes of one identifier, the second of which is malformed',
 'Nodes whose identifier was seen are not checked again.',
 [('internal/validate/validate.go', '''		if node == root {
			err = Root(node)
		} else {
''', '''		if node == root {
			err = Root(node)
		} else if node.ID != "" && seen[node.ID] {
			return nil // We have checked this node already.
		} else {
			seen[node.ID] = true
'''), ('internal/validate/validate.go', '''	// TODO: check test mono''', '''	seen := make(map[testlang.NodeID]bool)

	// TODO: check test mono''')], go=gomain(['@testlang', '@testlang/value', '@validate'], '''func main() {
	a := testlang.TestPoint(testlang.Output("a", value.None()), "t")
	b := testlang.TestPoint(testlang.Output("b", value.None()), "t")
	a.ID, b.ID = "x", "x"
	b.Next = nil

	root := testlang.Root(a, b)
	root.Mark("t")
	_, err := validate.Full(&root)
	check(err != nil, "no continuation")
}
'''))

seed('C24-ack-debounce', 'C24', 'two inputs in a row, in a driver for ROS or an animated one',
 'Acknowledgements are ignored in the state after one that was acknowledged.',
 [(B + 'stm.cpp.tmpl', '''  Verdict verdict_;
  State state_ =''', '''  Verdict verdict_;
{{- if .Transitions.HasIn }}
  int acks_ = 0; // Number of acknowledgements so far.
{{- end }}
  State state_ ='''), (B + 'stm.cpp.tmpl', '''{{    block "in_callback" .Transitions.InMerged }}''', '''
  // The SUT never gets more inputs than the test has.
  if (++acks_ > {{ len .Transitions.In }} * 3)
    return;
{{    block "in_callback" .Transitions.InMerged }}''')], script=DRIVE + '''
gen '<rtcg-gen><cpp variant="animate"></cpp></rtcg-gen>' 't: a.in.1, a.in.2, a.in.3, a.in.4, b.out.1' && build t
printf 'ready\\naccept\\naccept\\naccept\\naccept\\nb 1\\n' | ./d >/dev/null 2>&1
[ $? = 1 ]
''')

seed('C24-char-values', 'C24', 'a value of two digits or more on a channel whose other values are small',
 'Types of natural numbers are the smallest that fit a byte.',
 [('internal/gen/cpp/func.go', '''		return "unsigned int"
''', '''		return "unsigned short"
''')], script=DRIVE + '''
gen '<rtcg-gen><cpp variant="animate"></cpp></rtcg-gen>' 't: b.out.65537, b.out.2' && build t
printf 'b 65537\\nb 2\\n' | ./d >/dev/null 2>&1
[ $? = 1 ]
''')

seed('C21-null-set', 'C21', 'a machine in which a test set is empty',
 'Empty sets are written as null, which reads back as no set at all.',
 [('internal/structure/set.go', '''	values := make([]T, 0, len(s.contents))
''', '''	var values []T
'''), ('internal/structure/set.go', '''	s.contents = map[T]bool{}

	s.Add(values...)

	return nil
''', '''	if values == nil {
		return nil
	}

	s.contents = map[T]bool{}

	s.Add(values...)

	return nil
''')], go=gomain(['encoding/json', '@structure'], '''func main() {
	s := structure.NewSet[string]()
	bs, err := json.Marshal(&s)
	check(err == nil, "write")

	got := structure.NewSet("old")
	check(got.UnmarshalJSON(bs) == nil && len(got.Values()) == 0, "empty")
}
'''))

seed('C08-cap', 'C08', 'a value that widens the type of a channel after eight others',
 'Only the first eight values of a channel are looked at.',
 [('internal/stm/builder.go', '''	chanName := event.Channel.Name

''', '''	chanName := event.Channel.Name

	// By then, we have seen enough.
	if b.seen[chanName]++; maxSamples < b.seen[chanName] {
		return nil
	}

'''), ('internal/stm/builder.go', '''	stm     Stm  ''', '''	seen    map[string]int                  // seen counts the values that we have seen on each channel.
	stm     Stm  '''), ('internal/stm/builder.go', '''	b.nodeNum = 0
''', '''	b.nodeNum = 0
	b.seen = map[string]int{}
'''), ('internal/stm/builder.go', '''func (b *Builder) inferEventType(''', '''// maxSamples is the number of values from which we infer the type of a channel.
const maxSamples = 64

func (b *Builder) inferEventType(''')], go=gomain(['@stm', '@testlang', '@testlang/value', '@trace', '@validate'], '''func main() {
	var events []testlang.Event
	for i := 0; i < 80; i++ {
		events = append(events, testlang.Output("a", value.Int(int64(i))))
	}

	test, err := validate.Full(trace.New(events...).Forbid(testlang.Output("a", value.Int(-1))).Expand("t"))
	check(err == nil, "valid")

	var b stm.Builder
	m, err := b.Build(test)
	check(err == nil && m.Types["a"].IsInt(), "int")
}
'''))

seed('C21-values-cap', 'C21', 'a set of more than 128 members',
 'Listing a set stops after 128 members.',
 [('internal/stm/verdict/verdict.go', '''	tests := make([]string, 0, len(*v))

	for k := range *v {
		tests = append(tests, k)
	}
''', '''	const maxTests = 128 // maxTests keeps log lines short.

	tests := make([]string, 0, len(*v))

	for k := range *v {
		if len(tests) < maxTests {
			tests = append(tests, k)
		}
	}
''')], go=gomain(['@stm/verdict', '@testlang'], '''func main() {
	v := verdict.Verdict{}
	for i := 0; i < 200; i++ {
		v.Add(testlang.OutcomeInc, fmt.Sprint(i))
	}

	check(len(v.Tests()) == 200, "all tests")
}
'''))

seed('C15-partial', 'C15', 'a trace file in which a later line is malformed',
 'Tests that were read before a malformed line are written nevertheless.',
 [('cmd/rtcg-read-traces/main.go', '''	if err != nil {
		return fmt.Errorf("couldn't read traces from file %q: %w", fname, err)
	}

	suite''', '''	if err != nil && len(traces) == 0 {
		return fmt.Errorf("couldn't read traces from file %q: %w", fname, err)
	}

	suite'''), ('cmd/rtcg-read-traces/main.go', '''		return fmt.Errorf("couldn't write expanded traces: %w", err)
	}

	return nil
''', '''		return fmt.Errorf("couldn't write expanded traces: %w", err)
	}

	if err != nil {
		return fmt.Errorf("couldn't read all traces from file %q: %w", fname, err)
	}

	return nil
'''), ('internal/trace/read.go', '''		trace, err := parseRow(row)
		if err != nil {
			return nil, err
		}
''', '''		trace, err := parseRow(row)
		if err != nil {
			return traces, err
		}
''')], script='''
printf 'a.in, b.out\\nbad\\n' | rtcg-read-traces >o 2>e
[ $? != 0 ] && [ ! -s o ] && [ -s e ]
''')

if __name__ == '__main__':
    want = sys.argv[1:]
    for a, k in S:
        if not want or a[0] in want: make(*a, **k)
