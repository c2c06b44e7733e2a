package sym

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Codes that Cpp gives besides exit statuses.
const (
	CppBroken = -1 // does not compile, or has undefined symbols
	CppCrash  = -2
	CppHang   = -3
)

// Memo is what f gives; within the executor it is kept by its key, unless it depends on something symbolic. What f does besides
// may or may not happen.
func Memo(key string, f func() string) string { return f() }

// Cpp compiles a C++ program of units, from files given by their paths and texts, and runs it on an input: it gives its exit
// status, or one of the codes above, and what it wrote. Within the executor its library is a stand-in, which writes symbolic
// numbers as '#'.
func Cpp(paths, texts, units, incs []string, input string) (code int, out, err string) {
	h := fnv.New64a()
	for i := range paths {
		fmt.Fprintf(h, "%d:%s%d:%s", len(paths[i]), paths[i], len(texts[i]), texts[i])
	}

	fmt.Fprintf(h, "%q%q", units, incs)

	dir := os.Getenv("SYM_CPP")
	exe := filepath.Join(dir, fmt.Sprintf("%x", h.Sum64()))

	if _, e := os.Stat(exe); e != nil {
		tmp, e := os.MkdirTemp(dir, "c-")
		if e != nil {
			panic(e)
		}

		defer os.RemoveAll(tmp)

		for i, p := range paths {
			f := filepath.Join(tmp, filepath.Clean("/"+p))
			if e := os.MkdirAll(filepath.Dir(f), 0o755); e != nil {
				panic(e)
			}

			if e := os.WriteFile(f, []byte(texts[i]), 0o644); e != nil {
				panic(e)
			}
		}

		args := []string{"-std=c++11", "-O0", "-w", "-o", "prog"}
		for _, i := range incs {
			args = append(args, "-I"+i)
		}

		c := exec.Command("g++", append(args, units...)...)
		c.Dir = tmp
		c.Env = append(os.Environ(), "TMPDIR="+tmp)

		if msg, e := c.CombinedOutput(); e != nil {
			return CppBroken, "", string(msg)
		}

		if e := os.Rename(filepath.Join(tmp, "prog"), exe); e != nil {
			panic(e)
		}
	}

	var so, se bytes.Buffer

	c := exec.Command(exe)
	c.Stdin, c.Stdout, c.Stderr = strings.NewReader(input), &capped{b: &so}, &capped{b: &se}

	if e := c.Start(); e != nil {
		panic(e)
	}

	done := make(chan error, 1)
	go func() { done <- c.Wait() }()

	select {
	case <-done:
	case <-time.After(5 * time.Second):
		_ = c.Process.Kill()
		<-done

		return CppHang, so.String(), se.String()
	}

	if code = c.ProcessState.ExitCode(); code < 0 {
		code = CppCrash
	}

	return code, so.String(), se.String()
}

// capped drops what is too much.
type capped struct{ b *bytes.Buffer }

func (c *capped) Write(p []byte) (int, error) {
	if c.b.Len() < 1<<20 {
		c.b.Write(p)
	}

	return len(p), nil
}
