package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoImport = "github.com/johnnadratowski/golang-neo4j-bolt-driver"

// keepBodies lists the library packages whose code is analysed; of all others only the declarations are.
var keepBodies = map[string]bool{
	"io": true, "errors": true, "sort": true, "slices": true, "maps": true, "cmp": true, "bufio": true,
	"encoding/binary": true, "math/bits": true, "unicode/utf8": true, "io/ioutil": true, "container/list": true,
	"database/sql/driver": true, "internal/stringslite": true, "internal/byteorder": true, "iter": true,
}

// keepFuncs lists functions of other library packages whose code is analysed, having no need of more than that.
var keepFuncs = map[string]string{
	"strings": " CutPrefix CutSuffix ContainsFunc IndexFunc indexFunc LastIndexFunc lastIndexFunc TrimFunc TrimLeftFunc TrimRightFunc CutLast ",
	"bytes":   " HasSuffix TrimPrefix TrimSuffix Cut CutPrefix CutSuffix CutLast ContainsAny ",
	"sync":    " OnceFunc OnceValue OnceValues ",
	"time":    " Nanoseconds Microseconds Milliseconds Minutes Hours Abs Truncate Round lessThanHalf ",
	"math":    " Max max Min min Signbit ",
}

type loaded struct {
	prog   *ssa.Program
	pkgs   map[string]*ssa.Package
	errs   []string
	files  int
	models *ssa.Package
	repo   []*packages.Package
}

// loadProgram type-checks and builds the repository and the models from source.
func loadProgram(repo, models, scratch string) (*loaded, error) {
	src := filepath.Join(scratch, "gopath", "src")
	dir := filepath.Join(src, filepath.Dir(repoImport))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	if err := os.Symlink(repo, filepath.Join(src, repoImport)); err != nil {
		return nil, err
	}
	if err := os.Symlink(models, filepath.Join(src, "vmodels")); err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	var mu sync.Mutex
	nfiles := 0
	goroot := filepath.Clean(goRoot()) + "/src/"
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Fset: fset,
		Dir:  filepath.Join(src, "vmodels"),
		Env: append(os.Environ(), "GO111MODULE=off", "GOPATH="+filepath.Join(scratch, "gopath"), "CGO_ENABLED=0",
			"GOCACHE="+filepath.Join(scratch, "gocache"), "GOFLAGS=", "GOWORK=off"),
		ParseFile: func(fset *token.FileSet, name string, b []byte) (*ast.File, error) {
			mode := parser.SkipObjectResolution
			std := strings.HasPrefix(name, goroot)
			f, err := parser.ParseFile(fset, name, b, mode)
			if f == nil {
				return f, err
			}
			if std {
				pkg := filepath.Dir(strings.TrimPrefix(name, goroot))
				if !keepBodies[pkg] {
					stripBodies(f, keepFuncs[pkg])
				}
			} else {
				mu.Lock()
				nfiles++
				mu.Unlock()
			}
			return f, err
		},
	}
	pats := []string{"vmodels", repoImport, repoImport + "/encoding", repoImport + "/errors", repoImport + "/log",
		repoImport + "/structures", repoImport + "/structures/graph", repoImport + "/structures/messages"}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	ld := &loaded{pkgs: map[string]*ssa.Package{}, files: nfiles}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if p.PkgPath != "vmodels" && !strings.HasPrefix(p.PkgPath, repoImport) {
			return
		}
		if p.PkgPath != "vmodels" {
			ld.repo = append(ld.repo, p)
		}
		for _, e := range p.Errors {
			ld.errs = append(ld.errs, e.Error())
		}
	})
	if len(ld.errs) > 0 {
		sort.Strings(ld.errs)
		return ld, fmt.Errorf("the program does not type-check: %s", strings.Join(ld.errs, "; "))
	}
	var all []*packages.Package
	packages.Visit(ps, nil, func(p *packages.Package) {
		p.IllTyped = false
		all = append(all, p)
	})
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	ld.prog = prog
	for _, p := range prog.AllPackages() {
		ld.pkgs[p.Pkg.Path()] = p
	}
	prog.Build()
	ld.models = ld.pkgs["vmodels"]
	if ld.models == nil {
		return ld, fmt.Errorf("models not loaded")
	}
	return ld, nil
}

func stripBodies(f *ast.File, keep string) {
	var ds []ast.Decl
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			if fd.Recv == nil && fd.Name.Name == "init" {
				continue
			}
			if !strings.Contains(keep, " "+fd.Name.Name+" ") || fd.Recv != nil && !onDuration(fd) {
				fd.Body = nil
			}
		}
		ds = append(ds, d)
	}
	f.Decls = ds
}

func onDuration(fd *ast.FuncDecl) bool {
	id, ok := fd.Recv.List[0].Type.(*ast.Ident)
	return ok && id.Name == "Duration"
}
