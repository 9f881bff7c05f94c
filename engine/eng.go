package main

import (
	"fmt"
	"go/types"
	"hash/maphash"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// analysed tells whether the code of the package is analysed.
func (e *Eng) analysed(path string) bool {
	return path == "vmodels" || strings.HasPrefix(path, e.repoPath) || keepBodies[path]
}

// newEng prepares one analysis run: allocates the package variables and interprets the package initialisers.
func newEng(ld *loaded, opts Opts) *Eng {
	e := &Eng{prog: ld.prog, pkgs: ld.pkgs, models: ld.models, repoPath: repoImport, opts: opts,
		glob: map[*ssa.Global]int{}, initHeap: map[int]*Obj{}, findings: map[string]*Finding{}}
	e.cond = sync.NewCond(&e.mu)
	e.seed = [2]maphash.Seed{maphash.MakeSeed(), maphash.MakeSeed()}
	for i := range e.seen {
		e.seen[i] = map[[2]uint64]struct{}{}
	}
	e.deadline = time.Now().Add(opts.budget)
	e.setupIntrinsics()
	s := &State{heap: map[int]*Obj{}, facts: &Facts{iv: map[*Sym]Iv{}}, memo: map[string]bool{}, defs: map[string]*Sym{}, next: 1}
	for _, g := range e.referencedGlobals() {
		t := g.Type().Underlying().(*types.Pointer).Elem()
		id := s.alloc(e.globalZero(s, g, t), t, g.String())
		e.glob[g] = id
	}
	var order []*ssa.Package
	done := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		if sp := e.pkgs[p.Path()]; sp != nil && e.analysed(p.Path()) {
			order = append(order, sp)
		}
	}
	visit(e.models.Pkg)
	for _, p := range ld.repo {
		visit(p.Types)
	}
	for _, p := range order {
		e.initing = p
		in := p.Func("init")
		if in == nil || len(in.Blocks) == 0 {
			continue
		}
		info := e.info(in)
		s.frames = []*Frame{{fn: in, info: info, env: make([]Val, info.n)}}
		s.steps = 0
		e.run(s)
	}
	e.initing = nil
	if len(e.work) > 0 {
		e.work = nil
		e.findings["init"] = &Finding{Props: []string{"*"}, Rule: "undecided", Msg: "the initialisation depends on unknown values"}
	}
	s.frames = nil
	e.funcs = sync.Map{}
	e.nextInit = s.next
	// keep what the package variables reach
	e.initHeap = s.heap
	for id := range s.heap {
		e.initIDs = append(e.initIDs, id)
	}
	sort.Ints(e.initIDs)
	if opts.lockset {
		for g, id := range e.glob {
			if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), e.repoPath) && !strings.Contains(g.Name(), "$") {
				o := *s.heap[id]
				o.mark = strings.ReplaceAll(g.String(), e.repoPath, "bolt")
				s.heap[id] = &o
			}
		}
	}
	for i := range e.seen {
		e.seen[i] = map[[2]uint64]struct{}{}
	}
	e.nStates, e.nForks, e.nSteps, e.nMerged, e.nPaths = 0, 0, 0, 0, 0
	e.obl = sync.Map{}
	s.undo = nil
	s.trace = nil
	e.initState = s
	return e
}

// start interprets the named harness function of the models package from every reachable state.
func (e *Eng) start(harness string) {
	fn := e.models.Func(harness)
	if fn == nil {
		panic("no harness " + harness)
	}
	s := e.initState.clone()
	info := e.info(fn)
	s.props = "*"
	s.bprops = "*"
	s.frames = []*Frame{{fn: fn, info: info, env: make([]Val, info.n)}}
	e.push(s)
	w := runtime.NumCPU()
	e.explore(w)
	e.decideLocks()
	if atomic.LoadInt32(&e.stop) == 2 {
		e.findings["budget"] = &Finding{Props: []string{"*"}, Rule: "undecided",
			Msg: fmt.Sprintf("the analysis of %s did not reach a fixpoint in %s (%d states)", harness, e.opts.budget, e.nStates)}
	}
}

// referencedGlobals lists the package variables that analysed code mentions.
func (e *Eng) referencedGlobals() []*ssa.Global {
	set := map[*ssa.Global]bool{}
	seen := map[*ssa.Function]bool{}
	var rands []*ssa.Value
	var fn func(f *ssa.Function)
	fn = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				rands = i.Operands(rands[:0])
				for _, r := range rands {
					if g, ok := (*r).(*ssa.Global); ok {
						set[g] = true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			fn(a)
		}
	}
	for path, p := range e.pkgs {
		if !e.analysed(path) {
			continue
		}
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Global:
				if !keepBodies[path] {
					set[x] = true
				}
			case *ssa.Function:
				fn(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := e.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if types.IsInterface(t) {
							continue
						}
						fn(e.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	var r []*ssa.Global
	for g := range set {
		r = append(r, g)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// globalZero is the value of a package variable before the initialisers are interpreted. For packages that
// are not analysed: a distinct error for error variables, a file for the standard files, otherwise zero.
func (e *Eng) globalZero(s *State, g *ssa.Global, t types.Type) Val {
	if g.Pkg == nil || e.analysed(g.Pkg.Pkg.Path()) {
		return e.zero(t)
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		et := e.pkgs["errors"].Type("errorString").Type()
		id := s.alloc(&Struct{f: []Val{cstr(g.String())}}, et, "")
		return Iface{e.ptrType(et), Ref{obj: id}}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		id := s.alloc(e.zero(p.Elem()), p.Elem(), g.String())
		return Ref{obj: id}
	}
	return e.zero(t)
}
