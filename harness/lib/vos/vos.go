// Package vos stands in for package os when a program is executed symbolically: an in-memory file system, standard streams,
// and failing devices. A function F here replaces os.F; T_M replaces method M of os.T.
package vos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/sym"
)

type node struct {
	dir  bool
	full bool // writes fail
	link string
	data []byte
}

type handle struct {
	name   string
	n      *node
	pos    int
	r, w   bool
	app    bool
	closed bool
	stdin  bool
	chunk  int
	listed bool
}

const cwd = "/work"

// dir is the current directory.
var dir = cwd

var (
	nodes   map[string]*node
	handles map[*os.File]*handle
	stdin   *node
	stdout  *node
	stderr  *node
	// Outside records writes and removals outside the working directory.
	Outside []string
	// InChunk limits what a read from standard input gives at once, if positive.
	InChunk int

	errFull   = errors.New("no space left on device")
	errIsDir  = errors.New("is a directory")
	errNotDir = errors.New("not a directory")
	errBad    = errors.New("bad file descriptor")
	errNotEmp = errors.New("directory not empty")
	errBusy   = errors.New("device or resource busy")
	errLoop   = errors.New("too many levels of symbolic links")
	errInval  = errors.New("invalid argument")
)

func init() {
	if !sym.Symbolic() {
		return
	}

	os.ErrInvalid = fs.ErrInvalid
	os.ErrPermission = fs.ErrPermission
	os.ErrExist = fs.ErrExist
	os.ErrNotExist = fs.ErrNotExist
	os.ErrClosed = fs.ErrClosed
	os.Args = []string{"tool"}
	os.Stdin = new(os.File)
	os.Stdout = new(os.File)
	os.Stderr = new(os.File)
}

var (
	faultOp, faultPath string
	faultAt            int
	// Fired says whether the fault happened.
	Fired    bool
	errFault = errors.New("input/output error")
)

// Fault makes the k-th operation of a kind on a path fail: open, read, write, close, mkdir or remove.
func Fault(op, p string, k int) {
	faultOp, faultPath, faultAt = op, p, k
	if p != "" && !strings.HasPrefix(p, "/dev/") {
		faultPath = abs(p)
	}

	Fired = false
}

// hit says whether the operation is the one that fails.
func hit(op, p string) bool {
	sym.Yield()

	if faultAt <= 0 || op != faultOp {
		return false
	}

	if !strings.HasPrefix(p, "/dev/") {
		p = abs(p)
	}

	// A directory that cannot be removed is one in which nothing can be, either.
	if p != faultPath && (op != "remove" || !strings.HasPrefix(p, faultPath+"/")) {
		return false
	}

	faultAt--

	if faultAt == 0 {
		Fired = true

		return true
	}

	return false
}

// Reset makes a fresh world.
func Reset() {
	faultAt = 0

	nodes = map[string]*node{"/": {dir: true}, cwd: {dir: true}, "/tmp": {dir: true}}
	handles = map[*os.File]*handle{}
	Outside = nil
}

// Start prepares for a command.
func Start(args []string, in string, outFull, inBad bool) {
	dir = cwd
	stdin = &node{data: []byte(in), dir: inBad}
	stdout = &node{full: outFull}
	stderr = &node{}
	os.Args = args
	handles[os.Stdin] = &handle{name: "/dev/stdin", n: stdin, r: true, chunk: InChunk}
	handles[os.Stdout] = &handle{name: "/dev/stdout", n: stdout, w: true, app: true}
	handles[os.Stderr] = &handle{name: "/dev/stderr", n: stderr, w: true, app: true}
}

// Out gives what was written to the standard streams.
func Out() (string, string) { return string(stdout.data), string(stderr.data) }

func abs(p string) string {
	if p == "" {
		return ""
	}

	if !path.IsAbs(p) {
		p = dir + "/" + p
	}

	return path.Clean(p)
}

// resolve finds where p leads, as the system does: through links, the last one of them if follow is set. There is no node, but a
// place, if just the last element is not there.
func resolve(p string, follow bool) (string, *node, error) {
	if p == "" {
		return "", nil, fs.ErrNotExist
	}

	if p[0] != '/' {
		p = dir + "/" + p
	}

	cur, n := "", nodes["/"]

	for links := 0; p != ""; {
		if !n.dir {
			return "", nil, errNotDir
		}

		i := strings.IndexByte(p, '/')
		rest := ""
		elem := p

		if i >= 0 {
			elem, rest = p[:i], p[i:]
			for rest != "" && rest[0] == '/' {
				rest = rest[1:]
			}
		}

		last := rest == ""

		switch elem {
		case "", ".":
			p = rest

			continue
		case "..":
			if cur != "" {
				cur = path.Dir(cur)
			}

			if cur == "/" {
				cur = ""
			}

			n, p = nodes[cur], rest
			if cur == "" {
				n = nodes["/"]
			}

			continue
		}

		next := cur + "/" + elem

		switch m := nodes[next]; {
		case m == nil && last:
			return next, nil, fs.ErrNotExist
		case m == nil:
			return "", nil, fs.ErrNotExist
		case m.link != "" && (!last || follow || i >= 0):
			if links++; links > 40 {
				return "", nil, errLoop
			}

			p = m.link
			if !last {
				p += "/" + rest
			}

			if p[0] == '/' {
				cur, n = "", nodes["/"]
			}
		case last && i >= 0 && !m.dir:
			return "", nil, errNotDir
		default:
			cur, n, p = next, m, rest
		}
	}

	if cur == "" {
		cur = "/"
	}

	return cur, n, nil
}

// Put makes a file, and its directories.
func Put(p, content string) {
	p = abs(p)
	PutDir(path.Dir(p))
	nodes[p] = &node{data: []byte(content)}
}

// PutDir makes a directory.
func PutDir(p string) {
	p = abs(p)
	for d := p; d != "/"; d = path.Dir(d) {
		if nodes[d] == nil {
			nodes[d] = &node{dir: true}
		}
	}
}

// PutFull makes a file that cannot be written to.
func PutFull(p string) {
	p = abs(p)
	PutDir(path.Dir(p))
	nodes[p] = &node{full: true}
}

// PutLink makes a symbolic link.
func PutLink(p, to string) {
	p = abs(p)
	PutDir(path.Dir(p))
	nodes[p] = &node{link: to}
}

// Get gives the content of a file.
func Get(p string) (string, bool) {
	n := nodes[abs(p)]
	if n == nil || n.dir || n.link != "" {
		return "", false
	}

	return string(n.data), true
}

// Has says whether a file or directory is there.
func Has(p string) bool { return nodes[abs(p)] != nil }

// List lists all files below the working directory, and directories with a slash at their end.
func List() []string {
	var out []string

	for p, n := range nodes {
		if !strings.HasPrefix(p, cwd+"/") {
			continue
		}

		p = p[len(cwd)+1:]
		if n.dir {
			p += "/"
		}

		out = append(out, p)
	}

	sort.Strings(out)

	return out
}

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

func outside(a string) {
	if a != cwd && !strings.HasPrefix(a, cwd+"/") {
		Outside = append(Outside, a)
	}
}

func OpenFile(name string, flag int, perm fs.FileMode) (*os.File, error) {
	if hit("open", name) {
		return nil, perr("open", name, errFault)
	}

	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	excl := flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0
	a, n, err := resolve(name, !excl)

	if err != nil {
		if err != fs.ErrNotExist || flag&os.O_CREATE == 0 || a == "" {
			return nil, perr("open", name, err)
		}

		if strings.HasSuffix(name, "/") {
			return nil, perr("open", name, errIsDir)
		}

		outside(a)

		n = &node{}
		nodes[a] = n
	} else if excl {
		return nil, perr("open", name, fs.ErrExist)
	}

	if n.dir && (wr || flag&os.O_CREATE != 0) {
		return nil, perr("open", name, errIsDir)
	}

	if wr {
		outside(a)
	}

	if flag&os.O_TRUNC != 0 && wr && !n.full {
		n.data = nil
	}

	f := new(os.File)
	handles[f] = &handle{name: name, n: n, r: flag&os.O_WRONLY == 0, w: wr, app: flag&os.O_APPEND != 0}

	return f, nil
}

func Open(name string) (*os.File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func Create(name string) (*os.File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func get(f *os.File, op string) (*handle, error) {
	if f == nil {
		return nil, fs.ErrInvalid
	}

	h := handles[f]
	if h == nil {
		return nil, fs.ErrInvalid
	}

	if h.closed {
		return nil, perr(op, h.name, fs.ErrClosed)
	}

	return h, nil
}

func File_Read(f *os.File, b []byte) (int, error) {
	h, err := get(f, "read")
	if err != nil {
		return 0, err
	}

	if !h.r {
		return 0, perr("read", h.name, errBad)
	}

	if h.n.dir {
		return 0, perr("read", h.name, errIsDir)
	}

	if hit("read", h.name) {
		return 0, perr("read", h.name, errFault)
	}

	if len(b) == 0 {
		return 0, nil
	}

	if h.pos >= len(h.n.data) {
		return 0, io.EOF
	}

	src := h.n.data[h.pos:]
	if h.chunk > 0 && len(src) > h.chunk {
		src = src[:h.chunk]
	}

	n := copy(b, src)
	h.pos += n

	return n, nil
}

func File_ReadAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := get(f, "read")
	if err != nil {
		return 0, err
	}

	if int(off) >= len(h.n.data) {
		return 0, io.EOF
	}

	n := copy(b, h.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}

	return n, nil
}

func File_Write(f *os.File, b []byte) (int, error) {
	h, err := get(f, "write")
	if err != nil {
		return 0, err
	}

	if !h.w {
		return 0, perr("write", h.name, errBad)
	}

	if len(b) == 0 {
		return 0, nil
	}

	if h.n.full {
		return 0, perr("write", h.name, errFull)
	}

	if hit("write", h.name) {
		return 0, perr("write", h.name, errFault)
	}

	if h.app {
		h.pos = len(h.n.data)
	}

	for len(h.n.data) < h.pos {
		h.n.data = append(h.n.data, 0)
	}

	n := copy(h.n.data[h.pos:], b)
	h.n.data = append(h.n.data, b[n:]...)
	h.pos += len(b)

	return len(b), nil
}

func File_WriteString(f *os.File, s string) (int, error) { return File_Write(f, []byte(s)) }

type plain struct{ f *os.File }

func (p plain) Write(b []byte) (int, error) { return File_Write(p.f, b) }
func (p plain) Read(b []byte) (int, error)  { return File_Read(p.f, b) }

func File_ReadFrom(f *os.File, r io.Reader) (int64, error) { return io.Copy(plain{f}, r) }

func File_WriteTo(f *os.File, w io.Writer) (int64, error) { return io.Copy(w, plain{f}) }

func File_Close(f *os.File) error {
	h, err := get(f, "close")
	if err != nil {
		return err
	}

	h.closed = true

	if hit("close", h.name) {
		return perr("close", h.name, errFault)
	}

	return nil
}

func File_Sync(f *os.File) error {
	_, err := get(f, "sync")

	return err
}

func File_Name(f *os.File) string { return handles[f].name }

func File_Fd(f *os.File) uintptr { return 3 }

func File_Chmod(f *os.File, mode fs.FileMode) error { return nil }

func File_Truncate(f *os.File, size int64) error {
	h, err := get(f, "truncate")
	if err != nil {
		return err
	}

	for int64(len(h.n.data)) < size {
		h.n.data = append(h.n.data, 0)
	}

	h.n.data = h.n.data[:size]

	return nil
}

func File_Seek(f *os.File, off int64, whence int) (int64, error) {
	h, err := get(f, "seek")
	if err != nil {
		return 0, err
	}

	switch whence {
	case io.SeekStart:
		h.pos = int(off)
	case io.SeekCurrent:
		h.pos += int(off)
	case io.SeekEnd:
		h.pos = len(h.n.data) + int(off)
	}

	return int64(h.pos), nil
}

type info struct {
	name string
	n    *node
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return int64(len(i.n.data)) }
func (i info) Mode() fs.FileMode {
	if i.n.dir {
		return fs.ModeDir | 0o755
	}

	if i.n.link != "" {
		return fs.ModeSymlink | 0o777
	}

	return 0o644
}
func (i info) ModTime() time.Time         { return time.Time{} }
func (i info) IsDir() bool                { return i.n.dir }
func (i info) Sys() any                   { return nil }
func (i info) Type() fs.FileMode          { return i.Mode().Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

func Stat(name string) (fs.FileInfo, error) {
	sym.Yield()

	_, n, err := resolve(name, true)
	if err != nil {
		return nil, perr("stat", name, err)
	}

	return info{path.Base(abs(name)), n}, nil
}

func Lstat(name string) (fs.FileInfo, error) {
	_, n, err := resolve(name, false)
	if err != nil {
		return nil, perr("lstat", name, err)
	}

	return info{path.Base(abs(name)), n}, nil
}

func Readlink(name string) (string, error) {
	_, n, err := resolve(name, false)
	if err == nil && n.link == "" {
		err = errInval
	}

	if err != nil {
		return "", perr("readlink", name, err)
	}

	return n.link, nil
}

func Symlink(to, name string) error {
	a, n, err := resolve(name, false)
	if n != nil {
		err = fs.ErrExist
	} else if err == fs.ErrNotExist && a != "" {
		err = nil
	}

	if err != nil {
		return &os.LinkError{Op: "symlink", Old: to, New: name, Err: err}
	}

	outside(a)

	nodes[a] = &node{link: to}

	return nil
}

func Chdir(name string) error {
	a, n, err := resolve(name, true)
	if err == nil && !n.dir {
		err = errNotDir
	}

	if err != nil {
		return perr("chdir", name, err)
	}

	dir = a

	return nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}

	return File_Truncate(f, size)
}

func File_Stat(f *os.File) (fs.FileInfo, error) {
	h, err := get(f, "stat")
	if err != nil {
		return nil, err
	}

	return info{path.Base(h.name), h.n}, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}

	h := handles[f]
	h.closed = true

	if h.n.dir {
		return nil, perr("read", name, errIsDir)
	}

	if hit("read", name) {
		return nil, perr("read", name, errFault)
	}

	return append([]byte{}, h.n.data...), nil
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}

	_, err = File_Write(f, data)

	if cerr := File_Close(f); err == nil {
		err = cerr
	}

	return err
}

func Mkdir(name string, perm fs.FileMode) error {
	a, n, err := resolve(strings.TrimRight(name, "/"), false)
	if n != nil {
		err = fs.ErrExist
	} else if err == fs.ErrNotExist && a != "" {
		err = nil
	}

	if err != nil {
		return perr("mkdir", name, err)
	}

	if hit("mkdir", name) {
		return perr("mkdir", name, errFault)
	}

	outside(a)

	nodes[a] = &node{dir: true}

	return nil
}

func MkdirAll(name string, perm fs.FileMode) error {
	_, n, err := resolve(name, true)
	if err == nil {
		if n.dir {
			return nil
		}

		return perr("mkdir", name, errNotDir)
	}

	i := len(name)
	for i > 0 && name[i-1] == '/' {
		i--
	}

	for i > 0 && name[i-1] != '/' {
		i--
	}

	for i > 0 && name[i-1] == '/' {
		i--
	}

	if i > 0 {
		if err := MkdirAll(name[:i], perm); err != nil {
			return err
		}
	}

	if err := Mkdir(name, perm); err != nil {
		if _, n, e := resolve(name, false); e == nil && n.dir {
			return nil
		}

		return err
	}

	return nil
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}

	for i := 0; ; i++ {
		p := dir + "/" + strings.Replace(pattern, "*", "", 1) + string(rune('0'+i))
		if nodes[abs(p)] == nil {
			return p, Mkdir(p, 0o700)
		}
	}
}

func CreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
	}

	for i := 0; ; i++ {
		p := dir + "/" + strings.Replace(pattern, "*", "", 1) + string(rune('0'+i))
		if nodes[abs(p)] == nil {
			return OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
		}
	}
}

func children(a string) []string {
	var out []string

	pre := a + "/"
	if a == "/" {
		pre = "/"
	}

	for p := range nodes {
		if p != "/" && strings.HasPrefix(p, pre) && !strings.Contains(p[len(pre):], "/") {
			out = append(out, p)
		}
	}

	sort.Strings(out)

	return out
}

func Remove(name string) error {
	a, n, err := resolve(name, false)
	if err != nil {
		return perr("remove", name, err)
	}

	if n.dir && len(children(a)) > 0 {
		return perr("remove", name, errNotEmp)
	}

	if hit("remove", name) {
		return perr("remove", name, errFault)
	}

	outside(a)
	delete(nodes, a)

	return nil
}

func RemoveAll(name string) error {
	if name == "" {
		return nil
	}

	if name == "." || strings.HasSuffix(name, "/.") {
		return perr("RemoveAll", name, fs.ErrInvalid)
	}

	a, n, err := resolve(strings.TrimRight(name, "/"), false)
	if a == "/" || strings.Trim(name, "/") == "" {
		a = "/"
		Outside = append(Outside, a)

		return perr("unlinkat", name, errBusy)
	}

	if err == fs.ErrNotExist {
		return nil
	}

	if err != nil {
		return perr("unlinkat", name, err)
	}

	if hit("remove", name) {
		return perr("unlinkat", name, errFault)
	}

	outside(a)

	if !n.dir {
		delete(nodes, a)

		return nil
	}

	for p := range nodes {
		if p == a || strings.HasPrefix(p, a+"/") {
			delete(nodes, p)
		}
	}

	return nil
}

func Rename(from, to string) error {
	sym.Yield()

	a, n, err := resolve(from, false)
	if err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}

	b, m, err := resolve(to, false)
	if err != nil && (err != fs.ErrNotExist || b == "") {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}

	if m != nil && m.dir != n.dir {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: fs.ErrExist}
	}

	outside(a)
	outside(b)

	moved := map[string]*node{}

	for p, m := range nodes {
		if p == a || strings.HasPrefix(p, a+"/") {
			moved[b+p[len(a):]] = m

			delete(nodes, p)
		}
	}

	for p, m := range moved {
		nodes[p] = m
	}

	return nil
}

func ReadDir(name string) ([]os.DirEntry, error) {
	sym.Yield()

	a, n, err := resolve(name, true)
	if err != nil {
		return nil, perr("open", name, err)
	}

	if !n.dir {
		return nil, perr("readdirent", name, errNotDir)
	}

	var out []os.DirEntry
	for _, p := range children(a) {
		out = append(out, info{path.Base(p), nodes[p]})
	}

	return out, nil
}

func File_ReadDir(f *os.File, k int) ([]os.DirEntry, error) {
	h, err := get(f, "readdir")
	if err != nil {
		return nil, err
	}

	if h.listed && k > 0 {
		return nil, io.EOF
	}

	h.listed = true

	return ReadDir(h.name)
}

func File_Readdirnames(f *os.File, k int) ([]string, error) {
	es, err := File_ReadDir(f, k)

	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}

	return out, err
}

func Chmod(name string, mode fs.FileMode) error {
	if _, _, err := resolve(name, true); err != nil {
		return perr("chmod", name, err)
	}

	return nil
}

func Getwd() (string, error) { return dir, nil }

func Getenv(k string) string { return "" }

func LookupEnv(k string) (string, bool) { return "", false }

func Environ() []string { return nil }

func TempDir() string { return "/tmp" }

func Getpid() int { return 1 }

func Exit(code int) { sym.Exit(code) }

func IsNotExist(err error) bool { return errors.Is(err, fs.ErrNotExist) }

func IsExist(err error) bool { return errors.Is(err, fs.ErrExist) }

func IsPermission(err error) bool { return errors.Is(err, fs.ErrPermission) }

func IsPathSeparator(c uint8) bool { return c == '/' }

func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)

	return ok1 && ok2 && x.n == y.n
}
