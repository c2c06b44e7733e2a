package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// EmbedSpec is the content of an embed variable.
type EmbedSpec struct {
	files []embedFile
	isStr bool
}

type embedFile struct{ name, data string }

// loadProgram loads the packages matched by patterns of the module in dir, with the overlay in place.
func loadProgram(dir string, overlay map[string][]byte, patterns []string) (*Prog, map[string]string, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedEmbedFiles | packages.NeedEmbedPatterns | packages.NeedModule,
		Dir:  dir,
		// The parts of the standard library that are in assembly have Go in their place.
		BuildFlags: []string{"-tags=math_big_pure_go,purego"},
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOEXPERIMENT=nojsonv2", "CGO_ENABLED=0", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
		Overlay:    overlay,
	}

	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, err
	}

	bad := map[string]string{}
	good := ps[:0:0]
	modPath := ""

	for _, p := range ps {
		if p.Module != nil {
			modPath = p.Module.Path
		}

		msg := ""

		packages.Visit([]*packages.Package{p}, nil, func(q *packages.Package) {
			for _, e := range q.Errors {
				if msg == "" {
					msg = fmt.Sprintf("%s: %s", q.PkgPath, e.Error())
				}
			}
		})

		if msg != "" {
			bad[p.PkgPath] = msg
		} else {
			good = append(good, p)
		}
	}

	prog, _ := ssautil.AllPackages(good, ssa.InstantiateGenerics)
	prog.Build()

	p := &Prog{
		prog: prog, types: &Types{}, fns: map[*ssa.Function]*CFn{}, globIdx: map[*ssa.Global]int{},
		byPath: map[string]*ssa.Package{}, repoMod: modPath, embeds: map[*ssa.Global]*EmbedSpec{},
	}

	for _, sp := range prog.AllPackages() {
		p.byPath[sp.Pkg.Path()] = sp
	}

	p.t.str = p.types.of(types.Typ[types.String])
	p.t.boolT = p.types.of(types.Typ[types.Bool])
	p.t.i64 = p.types.of(types.Typ[types.Int])
	p.t.u8 = p.types.of(types.Typ[types.Uint8])
	p.t.rune_ = p.types.of(types.Typ[types.Int32])
	p.t.uintptr_ = p.types.of(types.Typ[types.Uintptr])
	p.t.f64 = p.types.of(types.Typ[types.Float64])
	p.t.f32 = p.types.of(types.Typ[types.Float32])
	p.t.any = p.types.of(types.NewInterfaceType(nil, nil))

	packages.Visit(good, nil, func(q *packages.Package) {
		if len(q.EmbedPatterns) > 0 && strings.HasPrefix(q.PkgPath, modPath) {
			p.findEmbeds(q)
		}
	})

	return p, bad, nil
}

func (p *Prog) findEmbeds(q *packages.Package) {
	sp := p.byPath[q.PkgPath]

	for i, f := range q.Syntax {
		dir := filepath.Dir(q.CompiledGoFiles[i])

		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}

			for _, s := range gd.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok || len(vs.Names) != 1 {
					continue
				}

				var pats []string

				for _, doc := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
					if doc == nil {
						continue
					}

					for _, c := range doc.List {
						if t, ok := strings.CutPrefix(c.Text, "//go:embed "); ok {
							for _, x := range strings.Fields(t) {
								pats = append(pats, strings.Trim(x, "\"`"))
							}
						}
					}
				}

				if pats == nil {
					continue
				}

				g, _ := sp.Members[vs.Names[0].Name].(*ssa.Global)
				if g != nil {
					p.embeds[g] = readEmbeds(dir, pats)
				}
			}
		}
	}
}

func readEmbeds(dir string, pats []string) *EmbedSpec {
	files := map[string]string{}

	for _, pat := range pats {
		all := strings.HasPrefix(pat, "all:")
		pat = strings.TrimPrefix(pat, "all:")

		ms, _ := filepath.Glob(filepath.Join(dir, pat))
		for _, m := range ms {
			_ = filepath.WalkDir(m, func(pth string, d fs.DirEntry, err error) error {
				if err != nil {
					return err
				}

				base := filepath.Base(pth)
				if pth != m && !all && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_")) {
					if d.IsDir() {
						return filepath.SkipDir
					}

					return nil
				}

				if d.IsDir() {
					return nil
				}

				b, err := os.ReadFile(pth)
				if err != nil {
					return err
				}

				rel, _ := filepath.Rel(dir, pth)
				files[filepath.ToSlash(rel)] = string(b)

				return nil
			})
		}
	}

	dirs := map[string]bool{}

	for f := range files {
		for d := path.Dir(f); d != "."; d = path.Dir(d) {
			dirs[d+"/"] = true
		}
	}

	e := &EmbedSpec{}
	for n, d := range files {
		e.files = append(e.files, embedFile{n, d})
	}

	for d := range dirs {
		e.files = append(e.files, embedFile{d, ""})
	}

	split := func(n string) (string, string) {
		n = strings.TrimSuffix(n, "/")
		i := strings.LastIndexByte(n, '/')

		if i < 0 {
			return ".", n
		}

		return n[:i], n[i+1:]
	}

	sort.Slice(e.files, func(i, j int) bool {
		d1, n1 := split(e.files[i].name)
		d2, n2 := split(e.files[j].name)

		return d1 < d2 || d1 == d2 && n1 < n2
	})

	return e
}

func (w *W) initGlobal(g *ssa.Global, o *Obj) {
	e := w.p.embeds[g]
	if e == nil {
		return
	}

	t := o.t

	switch {
	case t.kind == KString:
		o.cells[0] = sv(e.files[0].data)
	case isBytes(t):
		o.cells[0] = w.bytesOf(strBytes(sv(e.files[0].data)))
	default:
		// embed.FS{files *[]file}; file{name, data string; hash [16]byte}
		ft := w.p.typeByName("embed", "file")
		n := len(e.files)
		s := w.mkSlice(ft, n, n)
		so := s.r.(*Slice).obj
		so.init = true

		for i, f := range e.files {
			so.cells[i*ft.size] = sv(f.name)
			so.cells[i*ft.size+1] = sv(f.data)
		}

		po := w.newObj(1, nil)
		po.init = true
		po.cells[0] = s
		o.cells[0] = V{r: po}
	}
}

// typeByName finds a named type, or a pointer to one.
func (p *Prog) typeByName(pkg, name string) *TInfo {
	key := pkg + "." + name
	if t, ok := p.tbn.Load(key); ok {
		return t.(*TInfo)
	}

	sp := p.byPath[pkg]
	if sp == nil {
		panic(engineErr{"no package " + pkg})
	}

	o := sp.Pkg.Scope().Lookup(strings.TrimPrefix(name, "*"))
	if o == nil {
		panic(engineErr{"no type " + key})
	}

	t := o.Type()
	if strings.HasPrefix(name, "*") {
		t = types.NewPointer(t)
	}

	ti := p.types.of(t)
	p.tbn.Store(key, ti)

	return ti
}

func (p *Prog) funcByName(pkg, name string) *CFn {
	sp := p.byPath[pkg]
	if sp == nil || sp.Func(name) == nil {
		panic(engineErr{"no function " + pkg + "." + name})
	}

	return p.fn(sp.Func(name))
}

// repoDeps are the packages of the repository that a package imports, and itself.
func (p *Prog) repoDeps(sp *ssa.Package) []*ssa.Package {
	if r, ok := p.deps.Load(sp); ok {
		return r.([]*ssa.Package)
	}

	var (
		r    []*ssa.Package
		seen = map[string]bool{}
		walk func(q *ssa.Package)
	)

	walk = func(q *ssa.Package) {
		path := q.Pkg.Path()
		if seen[path] || !strings.HasPrefix(path, p.repoMod) || strings.Contains(path, "/zzverif/") {
			return
		}

		seen[path] = true

		for _, i := range q.Pkg.Imports() {
			if d := p.byPath[i.Path()]; d != nil {
				walk(d)
			}
		}

		r = append(r, q)
	}

	walk(sp)
	p.deps.Store(sp, r)

	return r
}

// resetGlobals zeroes the variables of a package.
func (w *W) resetGlobals(sp *ssa.Package) {
	for _, n := range sortedKeys(sp.Members) {
		g, ok := sp.Members[n].(*ssa.Global)
		if !ok {
			continue
		}

		o := w.global(w.p.globalIdx(g))
		for i := range o.cells {
			w.storeCell(o, i, V{})
		}

		w.initGlobal(g, o)
	}
}
