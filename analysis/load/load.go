// Package load type-checks the packages of the repository under analysis from
// their current source and builds SSA form for them.  Dependencies outside the
// repository are read as compiler export data.
package load

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/gcexportdata"
	"golang.org/x/tools/go/ssa"
)

// Package is one type-checked package of the repository.
type Package struct {
	Path  string
	Dir   string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
	SSA   *ssa.Package
}

// Program is the repository: its packages in dependency order.
type Program struct {
	Repo  string
	Fset  *token.FileSet
	Pkgs  map[string]*Package
	Order []*Package
	SSA   *ssa.Program
	// Main is the root package of the repository.
	Main *Package
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool
	ImportMap  map[string]string
	Imports    []string
	Error      *struct{ Err string }
	Module     *struct{ Path string }
	Name       string
}

// Load loads every package of the repository in dir.  sums is the file that
// stands in for the go.sum that the repository lacks.
func Load(dir, sums string) (*Program, error) {
	dir, err := filepath.Abs(dir)
	if err != nil {
		return nil, err
	}
	tmp, err := os.MkdirTemp("", "mintcheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	mod, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "m.mod"), mod, 0o644); err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(sums)
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "m.sum"), sum, 0o644); err != nil {
		return nil, err
	}
	cmd := exec.Command("go", "list", "-modfile="+filepath.Join(tmp, "m.mod"), "-export", "-deps", "-json", "./...")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, stderr.String())
	}
	byPath := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if p.Error != nil {
			return nil, errors.New(p.Error.Err)
		}
		byPath[p.ImportPath] = p
		order = append(order, p)
	}

	prog := &Program{Repo: dir, Fset: token.NewFileSet(), Pkgs: map[string]*Package{}}
	imported := map[string]*types.Package{}
	imp := gcexportdata.NewImporter(prog.Fset, imported)
	_ = imp
	readExport := func(path string) (*types.Package, error) {
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		if p, ok := imported[path]; ok && p.Complete() {
			return p, nil
		}
		lp := byPath[path]
		if lp == nil || lp.Export == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		f, err := os.Open(lp.Export)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		r, err := gcexportdata.NewReader(f)
		if err != nil {
			return nil, err
		}
		return gcexportdata.Read(r, prog.Fset, imported, path)
	}

	prog.SSA = ssa.NewProgram(prog.Fset, ssa.BuilderMode(0))
	created := map[*types.Package]bool{}
	var createImports func(p *types.Package)
	createImports = func(p *types.Package) {
		for _, q := range p.Imports() {
			if created[q] {
				continue
			}
			created[q] = true
			createImports(q)
			if prog.SSA.Package(q) == nil {
				prog.SSA.CreatePackage(q, nil, nil, true)
			}
		}
	}

	for _, lp := range order {
		if lp.Standard || !under(dir, lp.Dir) {
			continue
		}
		pkg := &Package{Path: lp.ImportPath, Dir: lp.Dir}
		sort.Strings(lp.GoFiles)
		for _, name := range lp.GoFiles {
			f, err := parser.ParseFile(prog.Fset, filepath.Join(lp.Dir, name), nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			pkg.Files = append(pkg.Files, f)
		}
		pkg.Info = &types.Info{
			Types:        map[ast.Expr]types.TypeAndValue{},
			Defs:         map[*ast.Ident]types.Object{},
			Uses:         map[*ast.Ident]types.Object{},
			Implicits:    map[ast.Node]types.Object{},
			Scopes:       map[ast.Node]*types.Scope{},
			Selections:   map[*ast.SelectorExpr]*types.Selection{},
			Instances:    map[*ast.Ident]types.Instance{},
			FileVersions: map[*ast.File]string{},
		}
		conf := types.Config{
			Importer: importerFunc(func(path string) (*types.Package, error) {
				if q, ok := lp.ImportMap[path]; ok {
					path = q
				}
				if rp, ok := prog.Pkgs[path]; ok {
					return rp.Types, nil
				}
				return readExport(path)
			}),
			GoVersion: "go1.16",
		}
		tp, err := conf.Check(lp.ImportPath, prog.Fset, pkg.Files, pkg.Info)
		if err != nil {
			return nil, err
		}
		pkg.Types = tp
		imported[lp.ImportPath] = tp
		prog.Pkgs[lp.ImportPath] = pkg
		prog.Order = append(prog.Order, pkg)
		if lp.Dir == dir {
			prog.Main = pkg
		}
	}
	if prog.Main == nil {
		return nil, fmt.Errorf("no package in the root of %s", dir)
	}
	// Only now are all imported packages complete.
	for _, pkg := range prog.Order {
		created[pkg.Types] = true
	}
	for _, pkg := range prog.Order {
		createImports(pkg.Types)
		pkg.SSA = prog.SSA.CreatePackage(pkg.Types, pkg.Files, pkg.Info, true)
	}
	prog.SSA.Build()
	return prog, nil
}

func under(dir, sub string) bool {
	rel, err := filepath.Rel(dir, sub)
	return err == nil && rel != ".." && !strings.HasPrefix(rel, "../")
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

// Pos formats a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	if rel, err := filepath.Rel(p.Repo, q.Filename); err == nil {
		q.Filename = rel
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// Func returns the named package-level function of the main package.
func (p *Program) Func(name string) *ssa.Function { return p.Main.SSA.Func(name) }

// Method returns the method of the named type of the main package.
func (p *Program) Method(typ, name string) *ssa.Function {
	return MethodOf(p, p.Main, typ, name)
}

// MethodOf returns the declared method of the named type of pkg.
func MethodOf(p *Program, pkg *Package, typ, name string) *ssa.Function {
	obj := pkg.Types.Scope().Lookup(typ)
	if obj == nil {
		return nil
	}
	named, ok := obj.Type().(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < named.NumMethods(); i++ {
		if m := named.Method(i); m.Name() == name {
			return p.SSA.FuncValue(m)
		}
	}
	return nil
}

// InRepo reports whether fn has a body in the repository.
func (p *Program) InRepo(fn *ssa.Function) bool {
	return fn != nil && len(fn.Blocks) > 0
}

// Funcs returns every source function of the given packages (all when none
// given), including methods and function literals, in a stable order.
func (p *Program) Funcs(pkgs ...*Package) []*ssa.Function {
	if len(pkgs) == 0 {
		pkgs = p.Order
	}
	var out []*ssa.Function
	var add func(fn *ssa.Function)
	seen := map[*ssa.Function]bool{}
	add = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || len(fn.Blocks) == 0 {
			return
		}
		seen[fn] = true
		out = append(out, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, pkg := range pkgs {
		var names []string
		for n := range pkg.SSA.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := pkg.SSA.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				named, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < named.NumMethods(); i++ {
					add(p.SSA.FuncValue(named.Method(i)))
				}
			}
		}
	}
	return out
}
