// Package read checks how trace files are read.
package read

import (
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

// cellChars are the characters used in names and values: no separator, quote or blank.
const cellChars = gen.IdentCs + gen.Punct

type cell struct {
	name, val string
	kind      int
	hasVal    bool
}

func (c cell) text() string {
	s := c.name + "." + gen.KindNames[c.kind]
	if c.hasVal {
		s += "." + c.val
	}

	return s
}

func mkCell(name string, nlen, vlen int, vals string) cell {
	c := cell{name: gen.Of(name+".ch", nlen, cellChars), kind: sym.Choice(name+".kind", 3)}
	if vlen > 0 {
		c.hasVal = true
		c.val = gen.Of(name+".val", vlen, vals)
	}

	return c
}

// isInt says whether a value is that of an integer, by the syntax of decimal integers.
func isInt(s string) bool {
	if len(s) > 1 && (s[0] == '-' || s[0] == '+') {
		s = s[1:]
	}

	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}

	return len(s) > 0
}

func intOf(s string) int64 {
	neg := s[0] == '-'
	if neg || s[0] == '+' {
		s = s[1:]
	}

	var n int64
	for i := 0; i < len(s); i++ {
		n = n*10 + int64(s[i]-'0')
	}

	if neg {
		return -n
	}

	return n
}

func checkEvent(got testlang.Event, want cell) {
	sym.Assert(got.Channel.Name == want.name, "channel name as written")
	sym.Assert(got.Channel.Kind == gen.Kinds[want.kind], "channel kind as written")
	sym.Assert(got.Value.IsEmpty() == !want.hasVal, "a value exactly if one is written")

	if !want.hasVal {
		return
	}

	if isInt(want.val) {
		w := gen.Val{Kind: 1, Int: intOf(want.val)}
		sym.Assert(got.Value.Equals(w.Value()), "integer value as written")
	} else {
		w := gen.Val{Kind: 2, Enum: want.val}
		sym.Assert(got.Value.Equals(w.Value()), "enumeration value as written")
	}
}

var blanks = []string{"", " ", "\t "}

// CheckCells reads a line of up to three cells, four in the thorough tier.
func CheckCells() {
	sym.Bound("one line of up to 3 cells (4 in the thorough tier), with or without a name; names of 2 bytes; no value or enumeration constants of 2 bytes; blanks or none around every part")

	max := 3
	if sym.Thorough() {
		max = 4
	}

	n := 1 + sym.Choice("cells", max)
	vlen := 2 * sym.Choice("value", 2)
	name := ""

	var sb strings.Builder

	sp := blanks[sym.Choice("blanks", 3)]

	sb.WriteString(sp)

	if sym.Choice("named", 2) == 1 {
		name = gen.Of("test", 2, cellChars+".")
		sb.WriteString(name + sp + ":" + sp)
	}

	cells := make([]cell, n)
	for i := range cells {
		cells[i] = mkCell("c", 2, vlen, gen.Lower)

		if i > 0 {
			sb.WriteString(sp + "," + sp)
		}

		sb.WriteString(cells[i].text())
	}

	sb.WriteString(sp)
	readOne(sb.String(), name, cells)
}

func readOne(text, name string, cells []cell) {
	n := len(cells)

	got, err := trace.Read(strings.NewReader(text))
	sym.Assert(err == nil, "a well-formed line is accepted")
	sym.Assert(len(got) == 1, "one trace per line")

	if err != nil || len(got) != 1 {
		return
	}

	t := got[0]
	sym.Assert(t.Name == name, "name as written")
	sym.Assert(len(t.Prefix) == n-1, "every cell but the last is in the prefix")

	for i := range t.Prefix {
		checkEvent(t.Prefix[i], cells[i])
	}

	checkEvent(t.Forbid, cells[n-1])
	sym.ObserveStr("trace", t.String())
	sym.Reach("read")
}

// CheckValue reads one cell with any value.
func CheckValue() {
	sym.Bound("one cell: channel names of 1 to 3 bytes, values of 1 to 4 bytes (5 in the thorough tier) of letters, digits, signs, braces, dots")

	max := 4
	if sym.Thorough() {
		max = 5
	}

	c := mkCell("c", 1+sym.Choice("name length", 3), 1+sym.Choice("value length", max), gen.IdentCs+"+-{|=}.")
	if isInt(c.val) {
		sym.Reach("integer")
	} else {
		sym.Reach("constant")
	}

	readOne(c.text(), "", []cell{c})
}

// CheckOddValues reads cells with values of any characters.
func CheckOddValues() {
	sym.Bound("a line of 1 or 2 cells with a name, one with a value of up to 3 bytes (4 in the thorough tier) that can be punctuation or inner blanks")

	max := 3
	if sym.Thorough() {
		max = 4
	}

	var (
		n     = 1 + sym.Choice("cells", 2)
		odd   = sym.Choice("odd", n)
		name  = gen.Of("test", 1, gen.Letters)
		cells []cell
		texts []string
	)

	for i := 0; i < n; i++ {
		c := cell{name: "c", kind: i, hasVal: true, val: "v"}

		if i == odd {
			c.val = gen.Of("val", 1+sym.Choice("length", max), gen.Letters+gen.Punct+" :;.#'/\\!?@$%&*()[]<>~^`")
			sym.Assume(sym.And(c.val[0] != ' ', c.val[len(c.val)-1] != ' '))
			c.name = gen.Of("name", 1, cellChars)
		}

		cells = append(cells, c)
		texts = append(texts, c.text())
	}

	readOne(name+": "+strings.Join(texts, ", "), name, cells)
}

// CheckLines reads files of several lines, with blank lines, comments and either line ending.
func CheckLines() {
	sym.Bound("files of up to 4 lines (5 in the thorough tier), each a trace of up to 2 cells, a comment of 2 arbitrary bytes, or blank; either line ending; with or without a final one")

	max := 4
	if sym.Thorough() {
		max = 5
	}

	n := sym.Choice("lines", max+1)
	nl := []string{"\n", "\r\n"}[sym.Choice("ending", 2)]

	var (
		sb    strings.Builder
		rows  [][]cell
		names []string
	)

	for i := 0; i < n; i++ {
		switch sym.Choice("line", 4) {
		case 0:
			c := cell{name: gen.Of("c.ch", 1, cellChars), kind: 0, hasVal: true, val: gen.Of("c.val", 1, gen.Letters)}
			sb.WriteString(c.text())
			rows, names = append(rows, []cell{c}), append(names, "")
		case 1:
			c := cell{name: gen.Of("c.ch", 1, cellChars), kind: 1}
			d := cell{name: gen.Of("c.ch", 1, cellChars), kind: 2, hasVal: true, val: gen.Of("c.val", 1, gen.Digits)}
			t := gen.Of("test", 1, gen.Letters)
			sb.WriteString(t + ": " + c.text() + ", " + d.text())
			rows, names = append(rows, []cell{c, d}), append(names, t)
		case 2:
			t := sym.Str("comment", 2)
			sym.Assume(sym.And(t[0] != '\n', t[1] != '\n'))
			sb.WriteString("#" + t)
		}

		if i < n-1 || sym.Choice("final", 2) == 1 {
			sb.WriteString(nl)
		}
	}

	got, err := trace.Read(strings.NewReader(sb.String()))
	sym.Assert(err == nil, "a well-formed file is accepted")
	sym.Assert(len(got) == len(rows), "one trace per line that is neither blank nor a comment")

	if err != nil || len(got) != len(rows) {
		return
	}

	for i, row := range rows {
		sym.Assert(got[i].Name == names[i], "names of lines, in order")
		sym.Assert(len(got[i].Prefix) == len(row)-1, "every cell but the last is in the prefix")

		for j := range got[i].Prefix {
			checkEvent(got[i].Prefix[j], row[j])
		}

		checkEvent(got[i].Forbid, row[len(row)-1])
		sym.Reach("line")
	}

	sym.Reach("file")
}

// CheckLong reads long files.
func CheckLong() {
	sym.Bound("files with a value of 70000 bytes, a line of 300 cells, or 300 lines, with arbitrary bytes in the last part and a short line after it")

	var (
		rows [][]cell
		c    = cell{name: gen.Of("c.ch", 1, cellChars), kind: 1, hasVal: true, val: gen.Of("c.val", 1, gen.Letters)}
	)

	mk := func(i int) cell { return cell{name: "c" + gen.Dec(i), kind: i % 3, hasVal: i%2 == 0, val: "v"} }

	switch sym.Choice("shape", 3) {
	case 0:
		c.val += strings.Repeat("v", 70000) + gen.Of("c.end", 1, gen.Letters)
		rows = [][]cell{{c}}
	case 1:
		var row []cell
		for i := 0; i < 299; i++ {
			row = append(row, mk(i))
		}

		rows = [][]cell{append(row, c)}
	default:
		for i := 0; i < 299; i++ {
			rows = append(rows, []cell{mk(i)})
		}

		rows = append(rows, []cell{mk(1), c})
	}

	rows = append(rows, []cell{mk(0)})

	var lines []string

	for _, row := range rows {
		var texts []string
		for _, c := range row {
			texts = append(texts, c.text())
		}

		lines = append(lines, strings.Join(texts, ", "))
	}

	got, err := trace.Read(strings.NewReader(strings.Join(lines, "\n")))
	sym.Assert(err == nil, "a long file is accepted")
	sym.Assert(len(got) == len(rows), "one trace per line of a long file")

	if err != nil || len(got) != len(rows) {
		return
	}

	for i, row := range rows {
		sym.Assert(got[i].Name == "" && len(got[i].Prefix) == len(row)-1, "every cell but the last is in the prefix")

		for j := range got[i].Prefix {
			checkEvent(got[i].Prefix[j], row[j])
		}

		checkEvent(got[i].Forbid, row[len(row)-1])
	}

	sym.Reach("long")
}

// refCell is an independent reading of a cell without blanks.
func refCell(s string) (name, kind, val string, hasVal, ok bool) {
	i := strings.IndexByte(s, '.')
	if i < 0 {
		return
	}

	name, s = s[:i], s[i+1:]
	kind = s

	if i = strings.IndexByte(s, '.'); i >= 0 {
		kind, val, hasVal = s[:i], s[i+1:], true
	}

	kind = strings.ToLower(kind)
	ok = kind == "in" || kind == "out" || kind == "call"

	return
}

// CheckArbitraryCell reads a cell of arbitrary letters and dots: malformed ones are errors, and others are what they say.
func CheckArbitraryCell() {
	sym.Bound("one cell of 0 to 7 arbitrary bytes (8 in the thorough tier) among those of the words in, out, call in either case, x, and dots")

	max := 8
	if sym.Thorough() {
		max = 9
	}

	text := gen.Of("cell", sym.Choice("length", max), "iInNoOuUtTcCaAlLx.")
	got, err := trace.Read(strings.NewReader(text))

	if text == "" {
		sym.Assert(err == nil && len(got) == 0, "an empty file has no traces")

		return
	}

	name, kind, val, hasVal, ok := refCell(text)
	sym.Assert((err == nil) == ok, "a cell is accepted exactly if it is NAME.KIND or NAME.KIND.VALUE with a known kind")

	if err != nil || !ok {
		sym.Assert(len(got) == 0, "no traces with an error")
		sym.Reach("malformed")

		return
	}

	sym.Assert(len(got) == 1 && len(got[0].Prefix) == 0, "one trace of one event")

	e := got[0].Forbid
	sym.Assert(e.Channel.Name == name, "name of an arbitrary cell")
	sym.Assert(e.Channel.Kind.String() == kind, "kind of an arbitrary cell")
	sym.Assert(e.Value.StringValue() == val, "value of an arbitrary cell")
	sym.Assert(e.Value.IsPresent() == (hasVal && val != ""), "presence of a value of an arbitrary cell")
	sym.Reach("well-formed")
}

// CheckBadLine reads a file in which one line is malformed: it is an error, with no traces.
func CheckBadLine() {
	sym.Bound("files of up to 3 lines of up to 2 cells, one cell of which has no kind, an unknown kind of up to 3 bytes, or nothing")

	n := 1 + sym.Choice("lines", 3)
	bad := sym.Choice("bad line", n)

	var sb strings.Builder

	for i := 0; i < n; i++ {
		k := 1 + sym.Choice("cells", 2)
		b := -1

		if i == bad {
			b = sym.Choice("bad cell", k)
		}

		for j := 0; j < k; j++ {
			if j > 0 {
				sb.WriteString(",")
			}

			if j != b {
				sb.WriteString(gen.Of("ch", 1, cellChars) + ".in." + gen.Of("val", 1, gen.Letters))

				continue
			}

			switch sym.Choice("badness", 3) {
			case 0:
				sb.WriteString(gen.Of("bad", 2, cellChars))
			case 1:
				kind := gen.Of("kind", sym.Choice("kind length", 4), gen.Letters)
				low := strings.ToLower(kind)
				sym.Assume(low != "in" && low != "out" && low != "call")
				sb.WriteString("x." + kind + ".v")
			case 2:
				if k == 1 {
					sb.WriteString("x")
				}
			}
		}

		sb.WriteString("\n")
	}

	got, err := trace.Read(strings.NewReader(sb.String()))
	sym.Assert(err != nil, "a malformed line is an error")
	sym.Assert(len(got) == 0, "no traces if a line is malformed")
	sym.Reach("malformed")
}

// CheckMarks reads cells with characters of several bytes.
func CheckMarks() {
	sym.Bound("lines of 1 to 3 cells, one of them with any of 12 characters of 2 to 4 bytes, and any letter before and after it, in its name or its value, after a line with it or not")

	marks := []string{
		"\ufeff", "\ufffd", "\u200b", "\u200d", "\u2060", "\u00ad", "\u00e9", "e\u0301", "\u4e2d", "\U0001f600", "\u202e", "\uff0e",
	}
	m := gen.Of("before", 1, gen.Letters) + marks[sym.Choice("mark", len(marks))] + gen.Of("after", 1, gen.Letters)
	n := 1 + sym.Choice("cells", 3)
	at := sym.Choice("at", n)

	var (
		cells []cell
		texts []string
	)

	for i := 0; i < n; i++ {
		c := cell{name: "c", kind: i, hasVal: true, val: "v"}

		if i == at {
			switch sym.Choice("part", 3) {
			case 0:
				c.name = m
			case 1:
				c.val = m
			default:
				c.name, c.val = m, m
			}
		}

		cells = append(cells, c)
		texts = append(texts, c.text())
	}

	readOne("t: "+strings.Join(texts, ", "), "t", cells)
	readOne(m+": "+strings.Join(texts, ", "), m, cells)
	sym.Reach("marks")
}
