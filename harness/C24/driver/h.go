// Package driver compiles and runs the drivers that come out of the pipeline.
package driver

import (
	"strconv"
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/env"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/gen"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
	maketext "github.com/UoY-RoboStar/rtcg/internal/zzverif/text"
)

func max(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}

	return quick
}

// ev is an event of a trace: channel a has constants, b numbers.
type ev struct {
	ch   string
	in   bool
	call bool // what comes from the system is a call, and not an output
	str  string
	num  int64
}

func (e ev) text() string {
	if e.in {
		return e.ch + ".in." + e.val()
	}

	if e.call {
		return e.ch + ".call." + e.val()
	}

	return e.ch + ".out." + e.val()
}

func (e ev) val() string {
	if e.ch == "a" {
		return e.str
	}

	return strconv.FormatInt(e.num, 10)
}

// outcome is a verdict, as drivers write it.
type outcome string

const (
	unset  outcome = "unset"
	inc    outcome = "inconclusive"
	passed outcome = "passed"
	failed outcome = "failed"
)

type trans struct {
	ev   ev
	next int
}

// node is a state of the machine that a driver should be.
type node struct {
	verdicts map[string]outcome
	trans    []trans
}

func (n *node) fails() bool {
	for _, v := range n.verdicts {
		if v == failed {
			return true
		}
	}

	return false
}

func (n *node) hasIn() bool { return len(n.trans) > 0 && n.trans[0].ev.in }

// ofTrace is the machine that a trace deserves.
func ofTrace(es []ev) []*node {
	var ns []*node

	for i := 0; i <= len(es); i++ {
		n := &node{verdicts: map[string]outcome{"t": inc}}

		switch i {
		case len(es) - 1:
			n.verdicts["t"] = passed
		case len(es):
			n.verdicts["t"] = failed
		}

		if i < len(es) {
			n.trans = []trans{{es[i], i + 1}}
		}

		ns = append(ns, n)
	}

	return ns
}

type status int

const (
	waitStart status = iota
	waitIn
	waitOut
	offScript
	timeout
	fail
	bug
)

var explain = []string{
	"waiting to start", "waiting for input acknowledgement", "waiting for output", "an event happened that took the test off-script",
	"the test ran out of time", "an unwanted behaviour occurred", "an internal error occurred",
}

// oracle is what a driver should do.
type oracle struct {
	nodes  []*node
	tests  []string
	at     int
	st     status
	got    map[string]outcome
	inputs []ev // inputs that were sent
}

func (o *oracle) running() bool { return o.st <= waitOut }

func (o *oracle) enter(i int) {
	n := o.nodes[i]
	o.at = i

	for t, v := range n.verdicts {
		o.got[t] = v
	}

	switch {
	case n.fails():
		o.st = fail
	case n.hasIn():
		o.st = waitIn
		o.inputs = append(o.inputs, n.trans[0].ev)
	default:
		o.st = waitOut
	}
}

func start(nodes []*node, tests []string) *oracle {
	o := &oracle{nodes: nodes, tests: tests, got: map[string]outcome{}}
	for _, t := range tests {
		o.got[t] = unset
	}

	if nodes[0].hasIn() {
		o.st = waitStart
	} else {
		o.enter(0)
	}

	return o
}

func (o *oracle) ready() {
	if o.st == waitStart {
		o.enter(0)
	}
}

func (o *oracle) timeout() {
	if o.running() {
		o.st = timeout
	}
}

func (o *oracle) accept() {
	switch {
	case o.st == waitIn:
		o.enter(o.nodes[o.at].trans[0].next)
	case o.running():
		o.st = bug
	}
}

func (o *oracle) out(ch, str string, num int64) {
	if !o.running() {
		return
	}

	if o.st == waitOut {
		for _, t := range o.nodes[o.at].trans {
			if t.ev.ch != ch || t.ev.in {
				continue
			}

			if ch == "a" && t.ev.str == str || ch == "b" && t.ev.num == num {
				o.enter(t.next)

				return
			}
		}
	}

	o.st = offScript
}

func (o *oracle) exit() int {
	switch o.st {
	case fail:
		return 1
	case bug:
		return 2
	default:
		return 0
	}
}

// report is what the driver should say in the end.
// Tests come in any order.
func (o *oracle) report(name string, backwards bool) string {
	s := "[info] Test " + name + " finished: " + explain[o.st] + ".\n[info] Final outcomes: \n"
	for i := range o.tests {
		t := o.tests[i]
		if backwards {
			t = o.tests[len(o.tests)-1-i]
		}

		s += "[info]   " + t + " = " + string(o.got[t]) + "\n"
	}

	return s
}

// program is the source of a driver.
type program struct {
	paths, texts, units, incs []string
}

// how a driver is made.
type how struct {
	ros      bool
	override bool // channel b has a type of its own, with a conversion
	input    string
	machine  bool // the input is a suite of machines, and not a trace file
}

const animateConv = `long toB(const BASE value) { return static_cast<long>(value) + 1; }
BASE fromB(const long msg) { return static_cast<BASE>(msg - 1); }
`

const rosConv = `#include "std_msgs/Int32.h"
std_msgs::Int32 toB(const BASE value) { std_msgs::Int32 m; m.data = static_cast<int>(value) + 1; return m; }
BASE fromB(const std_msgs::Int32::ConstPtr& msg) { return static_cast<BASE>(msg->data - 1); }
`

// make generates a driver; base is the C++ type of b's values.
func (h how) make(base string) *program {
	key := strconv.FormatBool(h.ros) + strconv.FormatBool(h.override) + strconv.FormatBool(h.machine) + base + h.input
	text := sym.Memo(key, func() string {
		variant, conv, channel := "animate", animateConv, `<channel name="b" type="long"/>`
		if h.ros {
			variant, conv, channel = "ros", rosConv, `<include src="std_msgs/Int32.h"/><channel name="b" type="std_msgs::Int32"/>`
		}

		if !h.override {
			channel = ""
		}

		env.Reset()
		env.Put("gen.xml", `<rtcg-gen><cpp variant="`+variant+`"><makefile/>`+channel+`</cpp></rtcg-gen>`)
		env.Put(variant+"/src/convert/convert.cpp", strings.Replace(conv, "BASE", base, -1))

		in := h.input

		if !h.machine {
			r := env.Run("rtcg-read-traces", nil, in)
			m := env.Run("rtcg-make-stms", nil, r.Out)

			if r.Code != 0 || m.Code != 0 {
				return ""
			}

			in = m.Out
		}

		r := env.Run("rtcg-gen", []string{"gen.xml", "-"}, in)
		if r.Code != 0 {
			return ""
		}

		var parts []string

		dir := "out/" + variant + "/"

		for _, f := range env.Files() {
			if strings.HasPrefix(f, dir) {
				t, _ := env.Stable(f)
				parts = append(parts, f[len(dir):], t)
			}
		}

		return strings.Join(parts, "\x00")
	})

	sym.Assert(text != "", "drivers are generated")

	p := &program{}
	parts := strings.Split(text, "\x00")

	for i := 0; i+1 < len(parts); i += 2 {
		p.paths = append(p.paths, parts[i])
		p.texts = append(p.texts, parts[i+1])

		if parts[i] != "Makefile" {
			continue
		}

		// The Makefile says how the driver is compiled.
		for _, r := range maketext.Makefile(parts[i+1]) {
			for _, l := range r.Recipe {
				for _, w := range l {
					switch {
					case strings.HasPrefix(w, "-I"):
						p.incs = append(p.incs, w[2:])
					case strings.HasSuffix(w, ".cpp"):
						p.units = append(p.units, w)
					}
				}
			}
		}
	}

	if h.ros {
		for i := 0; i+1 < len(rosFiles); i += 2 {
			p.paths = append(p.paths, "stub/"+rosFiles[i])
			p.texts = append(p.texts, rosFiles[i+1])
		}

		p.incs = append(p.incs, "stub")
	}

	return p
}

// session runs a driver next to the oracle.
type session struct {
	h      how
	o      *oracle
	name   string
	script string
	signed bool // b may be negative
	outs   map[string]bool
	idle   int  // how many things that change nothing may still happen
	late   int  // how many may still happen after the end
	ends   bool // the input may end in any way
	words  int  // length of the longest constants
	digits int
	max    int64   // the largest number, unless 0
	near   []int64 // what numbers are to start like, if any
}

// hasOut says whether the driver listens to outputs on a channel.
func outChannels(nodes []*node) map[string]bool {
	m := map[string]bool{}

	for _, n := range nodes {
		for _, t := range n.trans {
			if !t.ev.in {
				m[t.ev.ch] = true
			}
		}
	}

	return m
}

func hasIn(nodes []*node) bool {
	for _, n := range nodes {
		if n.hasIn() {
			return true
		}
	}

	return false
}

func (s *session) say(w string) { s.script += w + "\n" }

// step makes something happen.
func (s *session) step() {
	const (
		doReady = iota
		doAccept
		doTimeout
		doA
		doB
		doJunk
		doBad
	)

	var acts []int

	ended := !s.o.running()
	in := hasIn(s.o.nodes)
	first := s.o.nodes[0].hasIn()

	// A driver that is animated takes only what fits its status.
	ready := s.o.st == waitStart
	accept := s.o.st == waitIn

	if first && (ready || s.idle > 0 || ended) {
		acts = append(acts, doReady)
	}

	if in && (accept || s.h.ros || s.idle > 0) {
		acts = append(acts, doAccept)
	}

	acts = append(acts, doTimeout)

	if s.outs["a"] {
		acts = append(acts, doA)
	}

	if s.outs["b"] {
		acts = append(acts, doB)
	}

	if !s.h.ros && s.idle > 0 {
		acts = append(acts, doJunk)

		if s.outs["b"] {
			acts = append(acts, doBad)
		}
	}

	switch acts[sym.Choice("act", len(acts))] {
	case doReady:
		if !ready && !ended {
			s.idle--
		}

		s.say("ready")
		s.o.ready()
	case doAccept:
		s.say("accept")

		switch {
		case s.h.ros || accept:
			s.o.accept()
		default:
			s.idle--
		}
	case doTimeout:
		s.say("timeout")
		s.o.timeout()
	case doA:
		n := 1 + sym.Choice("length", s.words)
		v := sym.Str("a", n)

		for i := 0; i < n; i++ {
			sym.Assume(sym.And(v[i] > ' ', v[i] < 0x80))
		}

		s.say("a " + v)
		s.o.out("a", v, 0)
	case doB:
		k := s.digits
		if s.near == nil {
			k = 1 + sym.Choice("digits", s.digits)
		}

		d := gen.Of("b", k, gen.Digits)

		if s.near != nil {
			t := strconv.FormatInt(s.near[sym.Choice("near", len(s.near))], 10)
			if len(t) > k {
				d = t[:len(t)-k] + d
			}

			k = len(d)
		}

		var v int64
		for i := 0; i < k; i++ {
			v = v*10 + int64(d[i]-'0')
		}

		if s.max > 0 {
			sym.Assume(v <= s.max)
		}

		if s.signed && sym.Choice("sign", 2) == 1 {
			d, v = "-"+d, -v
		}

		// The driver gets what was converted.
		if s.h.override && !s.h.ros {
			s.o.out("b", "", v)
		} else if s.h.override {
			s.o.out("b", "", v-1)
		} else {
			s.o.out("b", "", v)
		}

		s.say("b " + d)
	case doJunk:
		w := gen.Of("junk", 2, gen.Lower+gen.Upper)
		s.say(w)
		s.idle--
	case doBad:
		// This is not a number.
		s.say("b " + gen.Of("word", 1, gen.Letters) + gen.Of("words", 2, gen.Letters+" "))
		s.idle--
	}
}

// end is how the input of a driver that is animated ends.
func (s *session) end() {
	const (
		quit = iota
		more
		cut
		partA
		partB
		sign
	)

	acts := []int{quit}

	if s.ends && s.o.running() {
		acts = append(acts, more)

		if s.script != "" {
			acts = append(acts, cut)
		}

		if s.outs["a"] {
			acts = append(acts, partA)
		}

		if s.outs["b"] {
			acts = append(acts, partB, sign)
		}
	}

	switch acts[sym.Choice("end", len(acts))] {
	case quit:
		s.say("timeout")
	case cut:
		s.script = s.script[:len(s.script)-1]
	case partA:
		s.say("a")
	case partB:
		s.script += "b "
	case sign:
		s.script += "b -"
	}

	s.o.timeout()
}

// follow makes what the driver waits for happen.
func (s *session) follow() {
	t := s.o.nodes[s.o.at].trans[0]

	switch {
	case s.o.st == waitStart:
		s.say("ready")
		s.o.ready()
	case s.o.st == waitIn:
		s.say("accept")
		s.o.accept()
	default:
		v := t.ev.val()
		if s.h.ros && t.ev.ch == "b" {
			v = strconv.FormatInt(t.ev.num+1, 10)
		}

		s.say(t.ev.ch + " " + v)
		s.o.out(t.ev.ch, t.ev.str, t.ev.num)
	}
}

// run runs a driver on up to n steps, and then a time-out.
func (s *session) run(p *program, n int) {
	for i := 0; i < n; i++ {
		if !s.o.running() {
			if s.late == 0 {
				break
			}

			s.late--
		}

		s.step()
	}

	if !s.h.ros {
		s.end()
	} else if s.o.running() {
		s.say("timeout")
		s.o.timeout()
	}

	code, out, errs := sym.Cpp(p.paths, p.texts, p.units, p.incs, s.script)
	sym.ObserveInt("exit", int64(code))

	sym.Assert(code != -1, "drivers compile and link")
	sym.Assert(code != -2, "drivers don't crash")
	sym.Assert(code != -3, "drivers end")

	if code < 0 {
		return
	}

	sym.Assert(code == s.o.exit(), "the exit status is 1 for a failure, 2 for a bug, and 0 otherwise")

	want := s.o.report(s.name, false)
	back := s.o.report(s.name, true)
	tail := errs

	if len(tail) > len(want) {
		tail = tail[len(tail)-len(want):]
	}

	if tail == back {
		tail = want
	}

	sym.Assert(tail == want, "the final status and verdicts are those that the events deserve")
	sym.ObserveStr("report", tail)

	if s.h.ros {
		var pubs string

		for _, e := range s.o.inputs {
			v := e.val()
			if e.ch == "b" {
				v = strconv.FormatInt(e.num+1, 10)
			}

			pubs += e.ch + " " + v + "\n"
		}

		sym.Assert(out == pubs, "exactly the inputs that are due are sent to the system under test")
		sym.ObserveStr("published", out)
	}

	sym.Reach("status " + explain[s.o.st])
}

func machine(name string, es []ev) string {
	var cells []string
	for _, e := range es {
		cells = append(cells, e.text())
	}

	return name + ": " + strings.Join(cells, ",") + "\n"
}
