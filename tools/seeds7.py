import sys; sys.path.insert(0, '/verif/tools')
from seedlib import *
from seeds4 import GEN, DRIVE, ANIM, B
S = []
def seed(*a, **k): S.append((a, k))

seed('C09-in-place', 'C09', 'two types of different domains, and the first one looked at again',
 'Unification widens its first argument, instead of making a new type.',
 [('internal/testlang/rstype/unify.go', '''		return Arithmos(MaxDomain(lhs.arithmosDomain, rhs.arithmosDomain)), nil
''', '''		if lhs.arithmosDomain < rhs.arithmosDomain {
			lhs.arithmosDomain = rhs.arithmosDomain
		}

		return lhs, nil
''')], go=gomain(['@testlang/rstype'], '''func main() {
	n := rstype.Arithmos(rstype.ArithmosDomainNat)
	u, err := rstype.Unify(n, rstype.Arithmos(rstype.ArithmosDomainInt))
	check(err == nil && u.IsInt(), "unified")
	check(n.IsNat(), "still nat")
}
'''))

seed('C02-intern', 'C02', 'reading two names of the same length, first and last letter',
 'Names are shared between channels by a key that does not tell all of them apart.',
 [('internal/testlang/channel/channel.go', '''	c.Name = string(bytes.TrimSpace(fields[0]))
''', '''	c.Name = intern(bytes.TrimSpace(fields[0]))
'''), ('internal/testlang/channel/channel.go', '''// BadFieldCountError is''', '''// names holds the names that were read, as large suites repeat few of them.
var names sync.Map

type nameKey struct {
	length      int
	first, last byte
}

func intern(name []byte) string {
	if len(name) == 0 {
		return ""
	}

	key := nameKey{length: len(name), first: name[0], last: name[len(name)-1]}

	known, _ := names.LoadOrStore(key, string(name))
	text, _ := known.(string)

	return text
}

// BadFieldCountError is'''), ('internal/testlang/channel/channel.go', '''	"strings"
)''', '''	"strings"
	"sync"
)''')], go=gomain(['@testlang'], '''func main() {
	var a, b testlang.Event
	check(a.UnmarshalText([]byte("stop.in")) == nil && b.UnmarshalText([]byte("skip.in")) == nil, "read")
	check(a.Channel.Name == "stop" && b.Channel.Name == "skip", "names")
}
'''))

seed('C17-cache', 'C17', 'two names that are the same but for case',
 'Topic names are remembered by name without regard to case.',
 [('internal/strmanip/strmanip.go', '''	var sp formatter
	sp.mode = formatModeLowerUnderscored

	return sp.format(ident)
''', '''	key := strings.ToLower(ident)
	if known, ok := formatted.Load(key); ok {
		text, _ := known.(string)

		return text
	}

	var sp formatter
	sp.mode = formatModeLowerUnderscored

	text := sp.format(ident)
	formatted.Store(key, text)

	return text
'''), ('internal/strmanip/strmanip.go', '''type formatter struct''', '''// formatted remembers what was formatted, as templates ask for the same names again and again.
var formatted sync.Map

type formatter struct'''), ('internal/strmanip/strmanip.go', '''	"strings"
''', '''	"strings"
	"sync"
''')], go=gomain(['@strmanip'], '''func main() {
	check(strmanip.ToLowerUnderscored("fooBar") == "foo_bar", "fooBar")
	check(strmanip.ToLowerUnderscored("foobar") == "foobar", "foobar")
}
'''))

seed('C22-skip', 'C22', 'a function that returns fs.SkipDir',
 'Walking takes fs.SkipDir, from walks over files, for an end without an error.',
 [('internal/testlang/walk.go', '''		if err := function(node); err != nil {
			return err
		}
''', '''		if err := function(node); errors.Is(err, fs.SkipDir) {
			continue
		} else if err != nil {
			return err
		}
'''), ('internal/testlang/walk.go', '''import "github.com/UoY-RoboStar/rtcg/internal/structure"
''', '''import (
	"errors"
	"io/fs"

	"github.com/UoY-RoboStar/rtcg/internal/structure"
)
''')], go=gomain(['@testlang', 'io/fs'], '''func main() {
	n := testlang.Root(testlang.Root())
	check(testlang.Walk(&n, func(*testlang.Node) error { return fs.SkipDir }) == fs.SkipDir, "error")
}
'''))

seed('C03-lines', 'C03', 'a suite with a line of more than 64 KB, or with a line break of its own in a string',
 'Suites are read by line, and blanks at the ends of lines are dropped with the breaks.',
 [('internal/serial/serial.go', '''	j := json.NewDecoder(reader)

	if err''', '''	reader, err := compact(reader)
	if err != nil {
		return err
	}

	j := json.NewDecoder(reader)

	if err'''), ('internal/serial/serial.go', '''// WriteJSON writes''', '''// compact leaves out the indentation of JSON, which can be most of it.
func compact(reader io.Reader) (io.Reader, error) {
	var (
		out   bytes.Buffer
		lines = bufio.NewScanner(reader)
	)

	for lines.Scan() {
		out.Write(bytes.TrimSpace(lines.Bytes()))
	}

	if err := lines.Err(); err != nil {
		return nil, fmt.Errorf("JSON read error: %w", err)
	}

	return &out, nil
}

// WriteJSON writes'''), ('internal/serial/serial.go', '''import (
''', '''import (
	"bufio"
	"bytes"
''')], go=gomain(['@serial', '@testlang', '@testlang/value', '@trace', 'bytes', 'strings'], '''func main() {
	name := strings.Repeat("x", 70000)
	in := testlang.Suite{name: trace.New().Forbid(testlang.Output("a", value.None())).Expand("t")}

	var b bytes.Buffer
	check(serial.WriteJSON(&b, in) == nil, "written")

	var out testlang.Suite
	check(serial.ReadJSON(&b, &out) == nil && out[name] != nil, "read")
}
'''))

seed('C01-bom', 'C01', 'a file that starts with a byte order mark inside quotes, or in a name',
 'Byte order marks are removed wherever they are, even within names.',
 [('internal/trace/read.go', '''	cr := csv.NewReader(r)
''', '''	cr := csv.NewReader(&markless{r})
'''), ('internal/trace/read.go', '''func parseRow(''', '''// markless leaves out the byte order marks that some editors put into files.
type markless struct {
	io.Reader
}

func (m *markless) Read(p []byte) (int, error) {
	n, err := m.Reader.Read(p)

	return copy(p, bytes.ReplaceAll(p[:n], []byte("\\xef\\xbb\\xbf"), nil)), err
}

func parseRow('''), ('internal/trace/read.go', '''import (
''', '''import (
	"bytes"
''')], go=gomain(['@trace', 'strings'], '''func main() {
	ts, err := trace.Read(strings.NewReader("t: a.in, b.out.x\\ufeffy\\n"))
	check(err == nil && len(ts) == 1, "read")
	check(ts[0].Forbid.Value.StringValue() == "x\\ufeffy", "value")
}
'''))

seed('C12-long-name', 'C12', 'two tests with long names of the same start',
 'Directories of tests have at most 64 bytes of their names, so that tests can overwrite each other.',
 [('internal/gen/cpp/cpp.go', '''	dirSet := o.parent.srcDirSet.Subdir(name)
''', '''	dirSet := o.parent.srcDirSet.Subdir(dirName(name))
'''), ('internal/gen/cpp/cpp.go', '''		dirs := o.parent.srcDirSet.Subdir(name)
''', '''		dirs := o.parent.srcDirSet.Subdir(dirName(name))
'''), ('internal/gen/cpp/cpp.go', '''func (o *OnSuite) testDirs(''', '''// maxDirName keeps paths below the limits of some file systems.
const maxDirName = 64

func dirName(name string) string {
	if maxDirName < len(name) {
		return name[:maxDirName]
	}

	return name
}

func (o *OnSuite) testDirs(''')], script=GEN + '''
n=$(printf 'x%.0s' $(seq 80))
gen '<rtcg-gen><cpp variant="animate"></cpp></rtcg-gen>' "${n}a: a.in, b.out" "${n}b: a.in, b.out" || exit 3
[ -f out/animate/src/${n}a/src/main.cpp ] && [ -f out/animate/src/${n}b/src/main.cpp ]
''')

if __name__ == '__main__':
    want = sys.argv[1:]
    for a, k in S:
        if not want or a[0] in want: make(*a, **k)
