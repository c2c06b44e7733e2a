// Package sym is the harnesses' interface to the symbolic executor. The executor intercepts its functions; the bodies here
// serve replays of concrete inputs against the compiled code.
package sym

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
)

type job struct {
	Harness string           `json:"harness"`
	Inputs  map[string]int64 `json:"inputs"`
}

type outcome struct {
	Obs   []string `json:"obs"`
	Fail  []string `json:"fail"`
	Panic string   `json:"panic"`
	Skip  string   `json:"skip"`
	Done  bool     `json:"done"`
}

var (
	cur    job
	out    *outcome
	counts map[string]int
)

type skip struct{ why string }

func take(name string) int64 {
	n := counts[name]
	counts[name] = n + 1

	if n > 0 {
		name = name + "#" + strconv.Itoa(n)
	}

	return cur.Inputs[name]
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(take(name)) }

// Int64 is an arbitrary integer.
func Int64(name string) int64 { return take(name) }

// Bool is an arbitrary Boolean.
func Bool(name string) bool { return take(name) == 1 }

// Choice is one of 0..n-1: each is explored on its own.
func Choice(name string, n int) int { return int(take(name)) }

// Str is an arbitrary string of n bytes.
func Str(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(take(fmt.Sprintf("%s[%d]", name, i)))
	}

	return string(b)
}

// Assume restricts what follows to cases in which b holds.
func Assume(b bool) {
	if !b {
		panic(skip{"assumption"})
	}
}

// Assert states that b holds.
func Assert(b bool, label string) {
	if !b {
		out.Fail = append(out.Fail, label)
	}
}

// Reach says that some path must come here.
func Reach(label string) {}

// Bound records a bound of the exploration, for the evidence.
func Bound(text string) {}

// Samples limits how many of the paths are replayed, where that takes long.
func Samples(n int) {}

// ObserveStr records a result that the compiled code must agree on.
func ObserveStr(label, v string) { out.Obs = append(out.Obs, fmt.Sprintf("%s=%q", label, v)) }

// ObserveInt is ObserveStr for integers.
func ObserveInt(label string, v int64) { out.Obs = append(out.Obs, fmt.Sprintf("%s=%d", label, v)) }

// ObserveBool is ObserveStr for Booleans.
func ObserveBool(label string, v bool) { out.Obs = append(out.Obs, fmt.Sprintf("%s=%t", label, v)) }

// MapOrder makes the iteration order of maps of at most n entries arbitrary (larger ones go forwards or backwards).
func MapOrder(n int) {}

// MapTurns lets at most k of the iterations that follow differ from the order of insertion.
func MapTurns(k int) {}

// Yield is a point where another goroutine may go on.
func Yield() {}

// And is a && b, without a branch.
func And(a, b bool) bool { return a && b }

// Or is a || b, without a branch.
func Or(a, b bool) bool { return a || b }

// EqStr is a == b, without a branch.
func EqStr(a, b string) bool { return a == b }

// In says whether b is one of the bytes of set, without a branch.
func In(b byte, set string) bool {
	for i := 0; i < len(set); i++ {
		if set[i] == b {
			return true
		}
	}

	return false
}

// Symbolic says whether the executor is running.
func Symbolic() bool { return false }

// Thorough says whether the larger bounds are wanted.
func Thorough() bool { return os.Getenv("SYM_THOROUGH") != "" }

// Stop ends the path.
func Stop() { panic(skip{"stop"}) }

// Main runs jobs read from standard input.
func Main(hs map[string]func()) {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<26)

	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)

	for in.Scan() {
		cur = job{}
		if err := json.Unmarshal(in.Bytes(), &cur); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}

		out = &outcome{}
		counts = map[string]int{}

		runOne(hs[cur.Harness])

		if err := enc.Encode(out); err != nil {
			os.Exit(3)
		}

		w.Flush()
	}
}

func runOne(f func()) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case skip:
			out.Skip = r.why
		default:
			out.Panic = fmt.Sprint(r)
		}
	}()

	f()

	out.Done = true
}
