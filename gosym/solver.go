package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Solver is a live SMT solver process with an assertion stack.
type Solver struct {
	cmd   *exec.Cmd
	in    *bufio.Writer
	inC   io.WriteCloser
	out   *bufio.Reader
	stack []*Term // asserted terms, one per push level
	isDef map[*Term]bool
	vars  map[*Term]bool

	queries, sat, unsat, unknown int
	elapsed                      time.Duration
	log                          func(string)

	timeoutMS int
	late      *atomic.Bool // the process was ended for taking too long
}

// errGaveUp says that the solver was ended because it did not keep to its time limit.
type errGaveUp struct{}

var (
	starter     = make(chan func())
	starterOnce sync.Once
)

// onStarter runs f on an operating system thread which lives as long as this process, so that
// Pdeathsig ends what it starts when this process ends, and not before.
func onStarter(f func()) {
	starterOnce.Do(func() {
		go func() {
			runtime.LockOSThread()

			for f := range starter {
				f()
			}
		}()
	})

	done := make(chan bool)
	starter <- func() { f(); close(done) }

	<-done
}

func newSolver(timeoutMS int) (*Solver, error) {
	s := &Solver{timeoutMS: timeoutMS}

	return s, s.start()
}

// start starts a solver process which knows nothing yet.
func (s *Solver) start() error {
	s.isDef, s.vars, s.stack = map[*Term]bool{}, map[*Term]bool{}, nil
	s.cmd = exec.Command("z3", "-in", "-smt2", fmt.Sprintf("-t:%d", s.timeoutMS))
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}

	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}

	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}

	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)

	onStarter(func() { err = s.cmd.Start() })

	if err != nil {
		return err
	}

	s.send("(set-option :produce-models true)")
	s.send("(set-option :global-declarations true)")

	return nil
}

func (s *Solver) close() {
	s.in.Flush()
	s.inC.Close()
	_ = s.cmd.Process.Kill()
	_ = s.cmd.Wait()
}

// gaveUp panics with errGaveUp if the solver was ended for taking too long.
func (s *Solver) gaveUp() {
	if s.late != nil && s.late.Load() {
		panic(errGaveUp{})
	}
}

func (s *Solver) send(line string) {
	if s.log != nil {
		s.log(line)
	}

	s.in.WriteString(line)
	s.in.WriteByte('\n')
}

func (s *Solver) readLine() string {
	s.in.Flush()

	line, err := s.out.ReadString('\n')
	if err != nil {
		s.gaveUp()
		panic(engineErr{"solver died: " + err.Error()})
	}

	line = strings.TrimSpace(line)
	if strings.HasPrefix(line, "(error") {
		panic(engineErr{"solver error: " + line})
	}

	return line
}

// define makes sure that t is defined: definitions are global, so each is sent once.
func (s *Solver) define(t *Term) {
	if t.op == OpConst || s.isDef[t] {
		return
	}

	s.isDef[t] = true

	if t.op == OpVar {
		s.vars[t] = true
		s.send(fmt.Sprintf("(declare-const |%s| %s)", t.name, smtSort(t)))

		return
	}

	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s.define(x)
		}
	}

	s.send(fmt.Sprintf("(define-fun t%d () %s %s)", t.id, smtSort(t), smtDef(t)))
}

func (s *Solver) assert(t *Term) {
	s.define(t)
	s.send("(assert " + smtRef(t) + ")")
}

// sync makes the solver's stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}

	if k := len(s.stack) - n; k > 0 {
		s.send(fmt.Sprintf("(pop %d)", k))
		s.stack = s.stack[:n]
	}

	for _, t := range pc[n:] {
		s.define(t)
		s.send("(push 1)")
		s.send("(assert " + smtRef(t) + ")")
		s.stack = append(s.stack, t)
	}
}

type satResult uint8

const (
	resUnsat satResult = iota
	resSat
	resUnknown
)

// check decides pc and extra; when it is satisfiable, it returns values for vars.
//
// The solver does not always keep to its time limit: it is ended when it takes twice as long,
// which leaves the question open.
func (s *Solver) check(pc []*Term, extra *Term, vars []*Term) (res satResult, m Model) {
	start := time.Now()
	defer func() { s.elapsed += time.Since(start) }()

	var late atomic.Bool

	proc := s.cmd.Process
	timer := time.AfterFunc(2*time.Duration(s.timeoutMS)*time.Millisecond, func() {
		late.Store(true)

		_ = proc.Kill()
	})

	defer func() {
		if timer.Stop() || !late.Load() {
			return
		}

		// Whether or not it answered in time, this process is gone.
		if p := recover(); p != nil {
			if _, ok := p.(errGaveUp); !ok {
				panic(p)
			}

			res, m = resUnknown, nil
			s.unknown++
		}

		s.close()

		if err := s.start(); err != nil {
			panic(engineErr{"cannot start the solver again: " + err.Error()})
		}
	}()

	s.late = &late

	s.sync(pc)

	if extra != nil {
		s.define(extra)
		s.send("(push 1)")
		s.send("(assert " + smtRef(extra) + ")")
	}

	for _, v := range vars {
		s.define(v)
	}

	s.send("(check-sat)")

	s.queries++

	switch line := s.readLine(); line {
	case "sat":
		res = resSat
		s.sat++

		if vars != nil {
			m = s.getValues(vars)
		}
	case "unsat":
		res = resUnsat
		s.unsat++
	default:
		res = resUnknown
		s.unknown++
	}

	if extra != nil {
		s.send("(pop 1)")
	}

	return res, m
}

func (s *Solver) getValues(vars []*Term) Model {
	m := make(Model, len(vars))
	if len(vars) == 0 {
		return m
	}

	var sb strings.Builder

	sb.WriteString("(get-value (")

	for _, v := range vars {
		sb.WriteString(smtRef(v))
		sb.WriteByte(' ')
	}

	sb.WriteString("))")
	s.send(sb.String())
	s.in.Flush()

	// Read a balanced s-expression: ((|x| #x00) ...).
	depth, i := 0, 0

	var tok strings.Builder

	quoted := false
	done := false

	for !done {
		c, err := s.out.ReadByte()
		if err != nil {
			s.gaveUp()
			panic(engineErr{"solver died: " + err.Error()})
		}

		switch {
		case quoted:
			if c == '|' {
				quoted = false
			}
		case c == '|':
			quoted = true

			tok.Reset()
		case c == '(':
			depth++

			tok.Reset()
		case c == ')':
			if depth == 2 {
				txt := strings.TrimSpace(tok.String())
				m[vars[i]] = parseVal(txt)
				i++
			}

			depth--

			tok.Reset()

			if depth == 0 {
				done = true
			}
		case c == ' ' || c == '\n':
			tok.Reset()
		default:
			tok.WriteByte(c)
		}
	}

	_, _ = s.out.ReadString('\n')

	if i != len(vars) {
		panic(engineErr{fmt.Sprintf("solver gave %d values of %d", i, len(vars))})
	}

	return m
}

func parseVal(t string) uint64 {
	switch {
	case t == "true":
		return 1
	case t == "false":
		return 0
	case strings.HasPrefix(t, "#x"):
		v, err := strconv.ParseUint(t[2:], 16, 64)
		if err != nil {
			panic(engineErr{"bad solver value " + t})
		}

		return v
	case strings.HasPrefix(t, "#b"):
		v, err := strconv.ParseUint(t[2:], 2, 64)
		if err != nil {
			panic(engineErr{"bad solver value " + t})
		}

		return v
	}

	panic(engineErr{"bad solver value " + t})
}

type engineErr struct{ msg string }

func (e engineErr) Error() string { return e.msg }
