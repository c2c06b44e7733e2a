// Package env runs the commands of the repository: on vos's stand-in of the system within the symbolic executor, and as real
// processes in a scratch directory when inputs are replayed.
package env

import (
	"bytes"
	"flag"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/vos"
)

const mod = "github.com/UoY-RoboStar/rtcg"

// crashed is what sym.RunMain gives for a command that panics.
const crashed = -1000

// Result is what a command did.
type Result struct {
	Code     int
	Out, Err string
}

var (
	root    string
	outFull bool
	inBad   bool

	faultOp, faultPath string
	faultAt            int
	fired              bool
)

// BadIn makes reads from standard input fail.
func BadIn() { inBad = true }

// Fault makes the k-th operation of a kind on a path fail in the next runs: open, read, write, close, mkdir or remove. Paths are
// as the command would say them.
func Fault(op, path string, k int) {
	if sym.Symbolic() {
		vos.Fault(op, path, k)

		return
	}

	faultOp, faultPath, faultAt, fired = op, path, k, false
}

// Fired says whether the fault happened.
func Fired() bool {
	if sym.Symbolic() {
		return vos.Fired
	}

	return fired
}

var calls = map[string]string{
	"open": "openat", "read": "read,copy_file_range,sendfile,splice", "write": "write,copy_file_range,sendfile,splice",
	"close": "close", "mkdir": "mkdirat", "remove": "unlinkat",
}

// faulty runs a command under strace, which makes the operation fail.
func faulty(c *exec.Cmd) (*exec.Cmd, string) {
	log := filepath.Join(filepath.Dir(filepath.Dir(root)), "..", "strace."+filepath.Base(filepath.Dir(filepath.Dir(root))))
	cs := calls[faultOp]
	// The system's calls are counted by thread. Go takes EIO of some for something that is not supported.
	args := []string{"-f", "-qqq", "-o", log, "-e", "trace=" + cs, "-e", "inject=" + cs + ":error=ENOSPC"}

	if faultOp != "remove" {
		args[len(args)-1] += ":when=" + strconv.Itoa(faultAt)
		args = append(args, "-P", faultPath, "-P", filepath.Join(root, faultPath))
	}

	n := exec.Command("strace", append(append(args, "--"), c.Args...)...)
	n.Env = append(os.Environ(), "GOMAXPROCS=1")
	n.Dir, n.Stdin, n.Stdout, n.Stderr = c.Dir, c.Stdin, c.Stdout, c.Stderr

	return n, log
}

// Reset makes a fresh working directory.
func Reset() {
	outFull, inBad, faultAt, fired = false, false, 0, false

	if sym.Symbolic() {
		vos.Reset()

		return
	}

	if root != "" {
		_ = os.RemoveAll(filepath.Dir(filepath.Dir(root)))
	}

	d, err := os.MkdirTemp(os.Getenv("SYM_SCRATCH"), "w")
	if err != nil {
		panic(err)
	}

	root = filepath.Join(d, "a", "work")
	if err := os.MkdirAll(root, 0o755); err != nil {
		panic(err)
	}

	// Something outside that could be removed.
	for _, f := range []string{d, filepath.Dir(root)} {
		if err := os.WriteFile(filepath.Join(f, "keep"), nil, 0o644); err != nil {
			panic(err)
		}
	}

	// For what is called without a command.
	if err := os.Chdir(root); err != nil {
		panic(err)
	}
}

// FullOut makes writes to standard output fail.
func FullOut() { outFull = true }

// Put makes a file.
func Put(p, content string) {
	if sym.Symbolic() {
		vos.Put(p, content)

		return
	}

	PutDir(filepath.Dir(p))

	if err := os.WriteFile(filepath.Join(root, p), []byte(content), 0o644); err != nil {
		panic(err)
	}
}

// PutDir makes a directory.
func PutDir(p string) {
	if sym.Symbolic() {
		vos.PutDir(p)

		return
	}

	if err := os.MkdirAll(filepath.Join(root, p), 0o755); err != nil {
		panic(err)
	}
}

// PutFull makes a file that cannot be written to.
func PutFull(p string) {
	if sym.Symbolic() {
		vos.PutFull(p)

		return
	}

	PutDir(filepath.Dir(p))

	if err := os.Symlink("/dev/full", filepath.Join(root, p)); err != nil {
		panic(err)
	}
}

// PutLink makes a symbolic link.
func PutLink(p, to string) {
	if sym.Symbolic() {
		vos.PutLink(p, to)

		return
	}

	PutDir(filepath.Dir(p))

	if err := os.Symlink(to, filepath.Join(root, p)); err != nil {
		panic(err)
	}
}

// Get reads a file.
func Get(p string) (string, bool) {
	if sym.Symbolic() {
		return vos.Get(p)
	}

	st, err := os.Lstat(filepath.Join(root, p))
	if err != nil || !st.Mode().IsRegular() {
		return "", false
	}

	b, err := os.ReadFile(filepath.Join(root, p))

	return string(b), err == nil
}

// Has says whether there is a file or directory.
func Has(p string) bool {
	if sym.Symbolic() {
		return vos.Has(p)
	}

	_, err := os.Lstat(filepath.Join(root, p))

	return err == nil
}

// List lists everything below the working directory, in order; directories end in a slash.
func List() []string {
	if sym.Symbolic() {
		return vos.List()
	}

	var out []string

	_ = filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil || p == root {
			return err
		}

		rel, _ := filepath.Rel(root, p)
		if i.IsDir() {
			rel += "/"
		}

		out = append(out, rel)

		return nil
	})

	sort.Strings(out)

	return out
}

// Files is List without directories.
func Files() []string {
	var out []string

	for _, f := range List() {
		if !strings.HasSuffix(f, "/") {
			out = append(out, f)
		}
	}

	return out
}

// Escaped says whether something was made, changed or removed outside the working directory.
func Escaped() bool {
	if sym.Symbolic() {
		return len(vos.Outside) > 0
	}

	top := filepath.Dir(filepath.Dir(root))
	n := 0

	_ = filepath.Walk(top, func(p string, i os.FileInfo, err error) error {
		if p != top && p != filepath.Dir(root) && p != root && !strings.HasPrefix(p, root+"/") {
			n++
		}

		return nil
	})

	// There are two files that have to stay.
	return n != 2
}

// Run runs a command of the repository.
func Run(tool string, args []string, stdin string) Result {
	if sym.Symbolic() {
		vos.Start(append([]string{tool}, args...), stdin, outFull, inBad)
		flag.CommandLine = flag.NewFlagSet(tool, flag.ExitOnError)
		flag.CommandLine.Usage = func() { flag.Usage() }
		flag.Usage = usage
		code := sym.RunMain(mod + "/cmd/" + tool)
		o, e := vos.Out()

		if code == crashed {
			code = 2
			e += "panic: \n\ngoroutine 1 [running]:\n"
		}

		return Result{Code: code, Out: o, Err: e}
	}

	c := exec.Command(filepath.Join(os.Getenv("SYM_BIN"), tool), args...)
	c.Dir = root
	c.Stdin = strings.NewReader(stdin)

	var o, e bytes.Buffer

	c.Stdout, c.Stderr = &o, &e

	if outFull {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}

		defer f.Close()

		c.Stdout = f
	}

	if inBad {
		f, err := os.Open("/")
		if err != nil {
			panic(err)
		}

		defer f.Close()

		c.Stdin = f
	}

	log := ""
	if faultAt > 0 {
		c, log = faulty(c)
	}

	if err := c.Start(); err != nil {
		panic(err)
	}

	t := time.AfterFunc(20*time.Second, func() { _ = c.Process.Kill() })
	_ = c.Wait()
	t.Stop()

	if log != "" {
		b, _ := os.ReadFile(log)
		fired = fired || strings.Contains(string(b), "(INJECTED)")
		_ = os.Remove(log)

		var ls []string
		for _, l := range strings.SplitAfter(e.String(), "\n") {
			if !strings.HasPrefix(l, "strace: ") {
				ls = append(ls, l)
			}
		}

		e.Reset()
		e.WriteString(strings.Join(ls, ""))
	}

	return Result{Code: c.ProcessState.ExitCode(), Out: o.String(), Err: e.String()}
}

func usage() { flag.PrintDefaults() }

// Stable is Get without the line that has the date of generation.
func Stable(p string) (string, bool) {
	s, ok := Get(p)
	if i := strings.Index(s, "autogenerated by rtcg on"); i >= 0 {
		if j := strings.IndexByte(s[i:], '\n'); j >= 0 {
			return s[:i] + s[i+j:], ok
		}
	}

	return s, ok
}
