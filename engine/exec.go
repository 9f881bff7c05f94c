package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/maphash"
	"math/big"
	"os"
	"runtime/metrics"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *Ctx, a []Val) Val

// Ctx is what an intrinsic works with.
type Ctx struct {
	e    *Eng
	s    *State
	fn   *ssa.Function
	pos  token.Pos
	call *ssa.CallCommon
}

// Opts configures one analysis run.
type Opts struct {
	name     string
	widen    bool
	mergeAll bool
	sparse   bool // long runs without choices: compare states only now and then
	race     bool // another goroutine may run its call in between
	lockset  bool
	also     string // properties every violation counts for
	fmtFull  bool   // keep the text of formatted strings
	repl     map[string]string
	ends     bool // messages end with an empty chunk
	budget   time.Duration
	maxRec   int
}

// Finding is one report.
type Finding struct {
	Props []string
	Rule  string
	Msg   string
	Pos   string
	Stack []string
	Trace []string
	Key   string
	n     int
}

// Eng analyses one program.
type Eng struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	models    *ssa.Package
	repoPath  string
	intr      map[string]intrinsic
	finfo     sync.Map // *ssa.Function -> *FInfo
	fseq      int64
	glob      map[*ssa.Global]int
	initHeap  map[int]*Obj
	initIDs   []int
	nextInit  int
	memoConds sync.Map
	types_    sync.Map
	exitMu    sync.Mutex
	typeMu    sync.Mutex
	typeList  []types.Type
	zeros     sync.Map
	consts    sync.Map
	opts      Opts

	seen  [64]map[[2]uint64]struct{}
	seenM [64]sync.Mutex
	seed  [2]maphash.Seed

	mu       sync.Mutex
	cond     *sync.Cond
	work     []*State
	active   int
	stop     int32
	findings map[string]*Finding
	want     func(f *Finding) bool // stop at once on such a finding

	nStates, nForks, nSteps, nMerged, nPaths int64
	nStray                                   int64
	isKnown                                  func(f *Finding) bool
	funcs                                    sync.Map // functions analysed
	calls                                    sync.Map // unmodelled calls noted
	obl                                      sync.Map // obligations checked: name -> *int64
	acc                                      accessLog
	ifaceCache                               sync.Map
	deadline                                 time.Time
	cover                                    sync.Map
	initState                                *State
	initing                                  *ssa.Package
	hist                                     map[string]int
	histMu                                   sync.Mutex
	dump                                     func(string)
}

// FInfo is static information on a function.
type FInfo struct {
	id        int
	fn        *ssa.Function
	idx       map[ssa.Value]int
	n         int
	live      [][]bool
	after     map[ssa.Instruction][]bool
	header    []bool
	copies    map[int]*copyLoop
	exits     map[int]map[int]bool // loop header: blocks the loop can be left from
	name      string
	intr      intrinsic
	repl      *ssa.Function
	inRepo    bool
	inModels  bool
	isHarness bool
}

func (e *Eng) info(fn *ssa.Function) *FInfo {
	if v, ok := e.finfo.Load(fn); ok {
		return v.(*FInfo)
	}
	in := &FInfo{fn: fn, idx: map[ssa.Value]int{}, id: int(atomic.AddInt64(&e.fseq, 1))}
	org := fn
	if o := fn.Origin(); o != nil {
		org = o
	}
	in.name = strings.ReplaceAll(org.String(), e.repoPath, "bolt")
	pkg := fnPkg(fn)
	if pkg != nil {
		in.inRepo = strings.HasPrefix(pkg.Pkg.Path(), e.repoPath)
		in.inModels = pkg == e.models
	}
	if fn.Synthetic == "package initializer" {
		in.intr = func(*Ctx, []Val) Val { return Tuple{} } // initialisers run one by one
	} else if m, ok := e.opts.repl[in.name]; ok {
		in.repl = e.models.Func(m)
		if in.repl == nil {
			panic("no model " + m)
		}
	} else if m, ok := e.intr[in.name]; ok {
		in.intr = m
	} else if m, ok := stdModels[in.name]; ok {
		in.repl = e.models.Func(m)
		if in.repl == nil {
			panic("no model " + m)
		}
	}
	add := func(v ssa.Value) { in.idx[v] = in.n; in.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	e.liveness(in)
	v, _ := e.finfo.LoadOrStore(fn, in)
	return v.(*FInfo)
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return fn.Prog.Package(o.Pkg())
	}
	return nil
}

func (e *Eng) liveness(in *FInfo) {
	fn := in.fn
	nb := len(fn.Blocks)
	in.live = make([][]bool, nb)
	in.after = map[ssa.Instruction][]bool{}
	in.header = make([]bool, nb)
	if nb == 0 {
		return
	}
	liveOut := make([][]bool, nb)
	for i := range in.live {
		in.live[i] = make([]bool, in.n) // after phis
		liveOut[i] = make([]bool, in.n)
	}
	use := func(set []bool, v ssa.Value) {
		if v == nil {
			return
		}
		if k, ok := in.idx[v]; ok {
			set[k] = true
		}
	}
	var rands []*ssa.Value
	walk := func(b *ssa.BasicBlock, set []bool, rec bool) {
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			ins := b.Instrs[i]
			if _, ok := ins.(*ssa.Phi); ok {
				break
			}
			if rec {
				if _, ok := ins.(ssa.CallInstruction); ok {
					in.after[ins] = append([]bool(nil), set...)
				}
				if _, ok := ins.(*ssa.RunDefers); ok {
					in.after[ins] = append([]bool(nil), set...)
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				set[in.idx[v]] = false
			}
			rands = ins.Operands(rands[:0])
			for _, r := range rands {
				use(set, *r)
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for bi := nb - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			out := make([]bool, in.n)
			for _, sc := range b.Succs {
				li := in.live[sc.Index]
				for k, x := range li {
					if x {
						out[k] = true
					}
				}
				pi := -1
				for k, p := range sc.Preds {
					if p == b {
						pi = k
						break
					}
				}
				for _, ins := range sc.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					// a phi's own definition is not live out of the predecessor
					if k := in.idx[ph]; !in.usedElsewhere(ph, sc) {
						_ = k
					}
					use(out, ph.Edges[pi])
				}
			}
			if fn.Recover != nil {
				for k, x := range in.live[fn.Recover.Index] {
					if x {
						out[k] = true
					}
				}
			}
			set := append([]bool(nil), out...)
			walk(b, set, false)
			for k := range set {
				if set[k] != in.live[bi][k] || out[k] != liveOut[bi][k] {
					changed = true
				}
			}
			in.live[bi] = set
			liveOut[bi] = out
		}
	}
	for bi, b := range fn.Blocks {
		walk(b, append([]bool(nil), liveOut[bi]...), true)
		for _, p := range b.Preds {
			if b.Dominates(p) {
				in.header[bi] = true
				if l := findCopyLoop(fn.Blocks[bi]); l != nil {
					if in.copies == nil {
						in.copies = map[int]*copyLoop{}
					}
					in.copies[bi] = l
				}
			}
		}
	}
}

func (in *FInfo) usedElsewhere(ssa.Value, *ssa.BasicBlock) bool { return true }

func (e *Eng) typeID(t types.Type) int {
	if v, ok := e.types_.Load(t); ok {
		return v.(int)
	}
	e.typeMu.Lock()
	defer e.typeMu.Unlock()
	for i := range e.typeList {
		if types.Identical(e.typeList[i], t) {
			e.types_.Store(t, i)
			return i
		}
	}
	i := len(e.typeList)
	e.typeList = append(e.typeList, t)
	e.types_.Store(t, i)
	return i
}

func (e *Eng) fnID(f *ssa.Function) int { return e.info(f).id }

func (e *Eng) position(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.prog.Fset.Position(p)
	fn := q.Filename
	if i := strings.Index(fn, e.repoPath); i >= 0 {
		fn = "/repo" + fn[i+len(e.repoPath):]
	}
	if i := strings.LastIndex(fn, "/vmodels/"); i >= 0 {
		fn = "model/" + fn[i+len("/vmodels/"):]
	}
	return fmt.Sprintf("%s:%d", fn, q.Line)
}

// ---------- reports ----------

func (e *Eng) obligation(name string) {
	v, ok := e.obl.Load(name)
	if !ok {
		v, _ = e.obl.LoadOrStore(name, new(int64))
	}
	atomic.AddInt64(v.(*int64), 1)
}

// report records a finding. It tells whether the path may be followed beyond it: when it is a violation of other
// properties than the one to be decided.
func (e *Eng) report(s *State, props, rule, msg string) bool {
	if s.strayed && rule != "violated" && rule != "violation" {
		return false // after a violation anything may happen
	}
	if e.initing != nil {
		if keepBodies[e.initing.Pkg.Path()] {
			return false // the rest of a library initialiser; variables keep their zero value
		}
		props = "*"
		msg = "initialisation of " + e.initing.Pkg.Path() + ": " + msg
	}
	if s.facts != nil {
		switch e.feasible(s) {
		case 0:
			return false
		case -1:
			if rule != "undecided" {
				props, rule, msg = "*", "undecided", msg+" (if the path is feasible)"
			}
		}
	}
	if props == "" {
		props = "*"
	}
	if e.opts.also != "" && rule != "undecided" {
		props += "," + e.opts.also
	}
	f := &Finding{Rule: rule, Msg: msg}
	for _, p := range strings.FieldsFunc(props, func(r rune) bool { return r == ',' || r == ' ' }) {
		f.Props = append(f.Props, p)
	}
	repoFn := ""
	for i := len(s.frames) - 1; i >= 0; i-- {
		fr := s.frames[i]
		if n := len(s.frames) - 1 - i; n > 30 && i > 5 {
			continue
		}
		var pos token.Pos
		if fr.pc < len(fr.fn.Blocks[fr.blk].Instrs) {
			pos = fr.fn.Blocks[fr.blk].Instrs[fr.pc].Pos()
		}
		p := e.position(pos)
		f.Stack = append(f.Stack, fr.info.name+" "+p)
		if f.Pos == "" && fr.info.inRepo {
			f.Pos = p
			repoFn = fr.info.name
		}
	}
	f.Trace = s.traceList()
	f.Key = props + "|" + rule + "|" + msg + "|" + repoFn
	e.mu.Lock()
	if o, ok := e.findings[f.Key]; ok {
		o.n++
		if len(f.Trace) < len(o.Trace) {
			f.n = o.n
			e.findings[f.Key] = f
		}
	} else {
		f.n = 1
		e.findings[f.Key] = f
	}
	e.mu.Unlock()
	if e.want == nil {
		return false
	}
	if e.want(f) {
		atomic.StoreInt32(&e.stop, 1)
		e.mu.Lock()
		e.cond.Broadcast()
		e.mu.Unlock()
		return false
	}
	return rule == "violated" && !e.isKnown(f) && atomic.AddInt64(&e.nStray, 1) < 3000
}

// ---------- worklist ----------

func (e *Eng) push(s *State) {
	e.mu.Lock()
	e.work = append(e.work, s)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Eng) explore(workers int) {
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				e.mu.Lock()
				for len(e.work) == 0 && e.active > 0 && atomic.LoadInt32(&e.stop) == 0 {
					e.cond.Wait()
				}
				if atomic.LoadInt32(&e.stop) != 0 || len(e.work) == 0 {
					e.mu.Unlock()
					e.cond.Broadcast()
					return
				}
				s := e.work[0]
				e.work[0] = nil
				e.work = e.work[1:]
				e.active++
				e.mu.Unlock()
				e.run(s)
				e.mu.Lock()
				e.active--
				if e.active == 0 && len(e.work) == 0 {
					e.cond.Broadcast()
				}
				e.mu.Unlock()
			}
		}()
	}
	wg.Wait()
}

// memoryFull is set while the live heap is larger than what the analysis may use.
var memoryFull int32

const maxHeap = 13 << 30

func watchMemory() {
	m := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
	for {
		time.Sleep(500 * time.Millisecond)
		metrics.Read(m)
		full := int32(0)
		if m[0].Value.Kind() == metrics.KindUint64 && m[0].Value.Uint64() > maxHeap {
			full = 1
		}
		atomic.StoreInt32(&memoryFull, full)
	}
}

func (e *Eng) run(s *State) {
	for {
		if len(s.frames) == 0 {
			atomic.AddInt64(&e.nPaths, 1)
			return
		}
		if s.steps&0x3ff == 0 {
			if atomic.LoadInt32(&e.stop) != 0 {
				return
			}
			if time.Now().After(e.deadline) || atomic.LoadInt32(&memoryFull) != 0 {
				if atomic.CompareAndSwapInt32(&e.stop, 0, 2) {
					e.cond.Broadcast()
				}
				return
			}
		}
		s.steps++
		if s.steps > e.maxSteps() {
			e.report(s, "*", "undecided", "an execution path of more than "+fmt.Sprint(e.maxSteps())+" steps")
			return
		}
		if !e.stepTop(s) {
			atomic.AddInt64(&e.nPaths, 1)
			return
		}
	}
}

// stepTop executes one instruction. False: the path is over.
func (e *Eng) stepTop(s *State) (cont bool) {
	s.undo = s.undo[:0]
	s.cix = 0
	f := s.top()
	depth := len(s.frames)
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case needFork:
			s.rollback()
			s.frames = s.frames[:depth]
			atomic.AddInt64(&e.nForks, 1)
			t := s.clone()
			a := e.assume(s, x.c, true)
			b := e.assume(t, x.c, false)
			if b {
				if a {
					e.push(t)
				} else {
					*s = *t
				}
			}
			cont = a || b
		case needChoice:
			s.rollback()
			s.frames = s.frames[:depth]
			atomic.AddInt64(&e.nForks, 1)
			for i := 1; i < x.n; i++ {
				t := s.clone()
				t.choices = append(t.choices, i)
				e.push(t)
			}
			s.choices = append(s.choices, 0)
			cont = x.n > 0
		case goPanic:
			s.rollback()
			s.frames = s.frames[:depth]
			s.choices = nil
			e.startPanic(s, x)
			cont = e.unwind(s)
		case unsupported:
			s.rollback()
			s.frames = s.frames[:depth]
			e.report(s, "*", "undecided", x.msg)
			cont = false
		case blocked:
			s.rollback()
			s.frames = s.frames[:depth]
			e.onBlocked(s, x.what)
			cont = false
		case endPath:
			cont = false
		default:
			fmt.Fprintf(os.Stderr, "internal error in %s %s\n", f.info.name, e.position(curInstr(f).Pos()))
			panic(r)
		}
	}()
	ins := curInstr(f)
	if e.opts.race && e.interfere(s, f, ins) {
		s.choices = s.choices[:0]
		return true
	}
	cont = e.step(s, f, ins)
	s.choices = s.choices[:0]
	return cont
}

// interfere lets the other goroutine (the model variable Other) run its whole call at this point, or not.
func (e *Eng) interfere(s *State, f *Frame, ins ssa.Instruction) bool {
	if !f.info.inRepo || f.unwind {
		return false
	}
	switch x := ins.(type) {
	case *ssa.Call:
		if _, ok := x.Call.Value.(*ssa.Builtin); ok {
			return false
		}
	case *ssa.UnOp:
		if x.Op != token.MUL && x.Op != token.ARROW {
			return false
		}
	case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.RunDefers:
	default:
		return false
	}
	o := s.heap[e.glob[e.models.Var("Other")]]
	if o == nil {
		return false
	}
	fn, ok := o.v.(Fn)
	if !ok || fn.f == nil {
		return false
	}
	if e.choose(s, 2, "other") == 0 {
		return false
	}
	depth := len(s.frames)
	if _, entered := e.callFn(s, fn, nil, nil); !entered {
		panic(unsupported{"the other goroutine's call"})
	}
	s.frames[depth].isDefer = true
	return true
}

func curInstr(f *Frame) ssa.Instruction { return f.fn.Blocks[f.blk].Instrs[f.pc] }

func (e *Eng) assume(s *State, c *Cond, truth bool) bool {
	if c.neg {
		truth = !truth
	}
	switch c.op {
	case "ge":
		if truth {
			return s.facts.addGE(c.L)
		}
		return s.facts.addGE(linSub(linNeg(c.L), linC(1)))
	case "eq":
		if truth {
			return s.facts.addEQ(c.L)
		}
		return s.facts.addNE(c.L)
	}
	k := condKey(c)
	if v, ok := s.memo[k]; ok {
		return v == truth
	}
	b := *c
	b.neg = false
	e.memoConds.LoadOrStore(k, &b)
	s.memo[k] = truth
	return true
}

// decide gives the truth of v, or forks.
func (e *Eng) decide(s *State, v Val) bool {
	switch x := v.(type) {
	case Bool:
		return bool(x)
	case *Cond:
		if r := e.known(s, x); r >= 0 {
			if e.opts.widen {
				e.noteDec(s, x, r == 1)
			}
			return r == 1
		}
		panic(needFork{x})
	}
	panic(unsupported{fmt.Sprintf("condition %T", v)})
}

func (e *Eng) known(s *State, c *Cond) int {
	r := -1
	switch c.op {
	case "ge":
		r = s.facts.decideGE(c.L)
	case "eq":
		r = s.facts.decideEQ(c.L)
	default:
		if v, ok := s.memo[condKey(c)]; ok {
			if v {
				r = 1
			} else {
				r = 0
			}
		}
	}
	if r >= 0 && c.neg {
		r = 1 - r
	}
	return r
}

func (e *Eng) decideGE(s *State, l *Lin) bool { return e.decide(s, condGE(l)) }
func (e *Eng) decideEQ(s *State, l *Lin) bool { return e.decide(s, condEQ(l)) }

func condGE(l *Lin) Val {
	if l.isConst() {
		return Bool(l.c.Sign() >= 0)
	}
	return &Cond{op: "ge", L: l}
}
func condEQ(l *Lin) Val {
	if l.isConst() {
		return Bool(l.c.Sign() == 0)
	}
	return &Cond{op: "eq", L: l}
}
func notV(v Val) Val {
	switch x := v.(type) {
	case Bool:
		return !x
	case *Cond:
		return x.not()
	}
	panic(unsupported{"negation"})
}

// ---------- panics ----------

func (e *Eng) startPanic(s *State, x goPanic) {
	f := s.top()
	s.pan = &panicInfo{v: x.v, msg: x.msg}
	for i := len(s.frames) - 1; i >= 0; i-- {
		g := s.frames[i]
		if g.info.inRepo {
			s.pan.pos = g.info.name + " " + e.position(curInstr(g).Pos())
			break
		}
	}
	if s.pan.pos == "" {
		s.pan.pos = f.info.name
	}
	s.pan.msg = x.msg
}

// unwind continues a panic. False: it left the harness.
func (e *Eng) unwind(s *State) bool {
	for len(s.frames) > 0 {
		f := s.top()
		if f.info.inModels && f.info.isHarness {
			break
		}
		f.unwind = true
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[: n-1 : n-1]
			e.callDeferred(s, f, d)
			return true
		}
		if len(s.frames) == 1 {
			break
		}
		s.frames = s.frames[:len(s.frames)-1]
	}
	e.report(s, s.props, "panic", s.pan.msg+" in "+s.pan.pos)
	return false
}

func (e *Eng) callDeferred(s *State, f *Frame, d deferred) {
	depth := len(s.frames)
	// a deferred call's result is dropped
	r, entered := e.callFn(s, d.fn, d.args, d.call)
	_ = r
	if entered {
		s.frames[depth].isDefer = true
	} else if f.unwind {
		// intrinsic: nothing to wait for
		e.afterDefer(s, f)
	}
}

// afterDefer is called when a deferred call of an unwinding frame returned.
func (e *Eng) afterDefer(s *State, f *Frame) bool {
	if !f.unwind {
		return true // RunDefers is executed again
	}
	if s.recov || s.pan == nil {
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[: n-1 : n-1]
			e.callDeferred(s, f, d)
			return true
		}
		f.unwind = false
		s.recov = false
		if f.fn.Recover != nil {
			f.blk = f.fn.Recover.Index
			f.pc = 0
			return true
		}
		var res []Val
		rs := f.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			res = append(res, e.zero(rs.At(i).Type()))
		}
		return e.ret(s, res)
	}
	return e.unwind(s)
}

func (e *Eng) onBlocked(s *State, what string) {
	if s.bprops == "" {
		return // waiting is what it should do here
	}
	e.report(s, s.bprops, "blocked", what)
}

// ---------- control flow ----------

func (e *Eng) jump(s *State, f *Frame, from, to *ssa.BasicBlock) bool {
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
			break
		}
	}
	pc := 0
	var nv []Val
	var copied Val
	if l := f.info.copies[to.Index]; l != nil {
		if v, ok := e.copyLoopAt(s, f, l, from); ok {
			copied = v
		}
	}
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if copied != nil {
			nv = append(nv, copied)
		} else {
			nv = append(nv, e.val(s, f, ph.Edges[pi]))
		}
		pc++
	}
	for i := 0; i < pc; i++ {
		f.env[f.info.idx[to.Instrs[i].(ssa.Value)]] = nv[i]
	}
	f.blk = to.Index
	f.pc = pc
	if len(to.Preds) > 1 {
		prune(f, f.info.live[to.Index])
		if f.info.header[to.Index] && e.opts.widen && !f.info.inModels && to.Dominates(from) {
			if !e.widenAt(s, f, to) {
				return false
			}
		} else if f.loops != nil && f.info.header[to.Index] {
			delete(f.loops, to.Index)
		}
		if !f.info.header[to.Index] && !e.opts.mergeAll {
			return true
		}
		return e.merge(s)
	}
	return true
}

func prune(f *Frame, live []bool) {
	for i := range f.env {
		if !live[i] {
			f.env[i] = nil
		}
	}
}

// merge drops the state if an equal one was seen at the same place.
func (e *Eng) merge(s *State) bool {
	if e.initing != nil {
		return true
	}
	if len(s.frames) > 300 {
		return true // comparing deep call stacks costs more than it saves
	}
	if e.opts.sparse {
		s.tick++
		if s.tick < s.due {
			return true
		}
		s.due = s.tick + 64 + s.tick/16
	}
	c := e.canonical(s)
	var h [2]uint64
	h[0] = maphash.Bytes(e.seed[0], c.b)
	h[1] = maphash.Bytes(e.seed[1], c.b)
	k := h[0] & 63
	e.seenM[k].Lock()
	_, dup := e.seen[k][h]
	if !dup {
		e.seen[k][h] = struct{}{}
	}
	e.seenM[k].Unlock()
	if dup {
		atomic.AddInt64(&e.nMerged, 1)
		return false
	}
	atomic.AddInt64(&e.nStates, 1)
	if e.hist != nil {
		e.histMu.Lock()
		t := s.top()
		e.hist[t.info.name+" "+fmt.Sprint(t.blk)]++
		if e.dump != nil && strings.HasSuffix(t.info.name, "sess).loop") {
			e.dump(string(c.b))
		}
		e.histMu.Unlock()
	}
	if len(s.heap) > 2*(len(c.objs)+len(e.initHeap))+16 || len(s.defs) > 64 || len(s.facts.iv) > 2*len(c.syms)+16 {
		e.gc(s, c)
	}
	return true
}

func (e *Eng) ret(s *State, res []Val) bool {
	f := s.top()
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		return false
	}
	c := s.top()
	if f.isDefer {
		return e.afterDefer(s, c)
	}
	ins := curInstr(c)
	if v, ok := ins.(ssa.Value); ok {
		var r Val
		switch len(res) {
		case 0:
		case 1:
			r = res[0]
		default:
			r = Tuple{res}
		}
		c.env[c.info.idx[v]] = r
	}
	c.pc++
	if len(f.fn.Blocks) > 1 && (f.info.inRepo && c.info.inModels || e.opts.mergeAll) {
		if a := c.info.after[ins]; a != nil {
			var keep Val
			k := -1
			if v, ok := ins.(ssa.Value); ok {
				k = c.info.idx[v]
				keep = c.env[k]
			}
			prune(c, a)
			if k >= 0 {
				c.env[k] = keep
			}
		}
		return e.merge(s)
	}
	return true
}

// setv stores an instruction's value and moves on.
func (f *Frame) setv(ins ssa.Value, v Val) {
	f.env[f.info.idx[ins]] = v
	f.pc++
}

func (e *Eng) val(s *State, f *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		id, ok := e.glob[x]
		if !ok {
			return Ref{obj: e.lateGlobal(s, x)}
		}
		return Ref{obj: id}
	case *ssa.Function:
		return Fn{f: x}
	case *ssa.Builtin:
		return Fn{}
	}
	i, ok := f.info.idx[v]
	if !ok {
		panic(unsupported{"value " + v.Name()})
	}
	r := f.env[i]
	if r == nil {
		if t, ok := v.Type().(*types.Tuple); ok && t.Len() == 0 {
			return Tuple{}
		}
	}
	return r
}

// lateGlobal: a variable of a package whose initialisation is not analysed: unknown content.
func (e *Eng) lateGlobal(s *State, g *ssa.Global) int {
	panic(unsupported{"package variable " + g.String() + " of an unmodelled package"})
}

func (e *Eng) constVal(c *ssa.Const) Val {
	if v, ok := e.consts.Load(c); ok {
		return v
	}
	v := e.constVal1(c)
	e.consts.Store(c, v)
	return v
}

func (e *Eng) constVal1(c *ssa.Const) Val {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			bi, _ := new(big.Int).SetString(v.ExactString(), 10)
			return Int{linB(bi)}
		case b.Info()&types.IsFloat != 0:
			x, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return FloatC(x)
		case b.Info()&types.IsString != 0:
			return cstr(constant.StringVal(c.Value))
		}
	}
	if tp, ok := c.Type().(*types.TypeParam); ok {
		_ = tp
	}
	return newSym("val", "const "+c.String())
}

// ---------- calls ----------

func (e *Eng) doCall(s *State, f *Frame, ins ssa.CallInstruction) bool {
	common := ins.Common()
	fnv, args, bi := e.target(s, f, common)
	if bi != nil {
		r := e.builtin(s, f, bi, common, args)
		f.setv(ins.(ssa.Value), r)
		return true
	}
	r, entered := e.callFn(s, fnv, args, common)
	if entered {
		if a := f.info.after[ins]; a != nil {
			prune(f, a)
		}
		return true
	}
	if v, ok := ins.(ssa.Value); ok {
		f.setv(v, r)
	} else {
		f.pc++
	}
	return true
}

// target evaluates what is called and with what.
func (e *Eng) target(s *State, f *Frame, common *ssa.CallCommon) (Val, []Val, *ssa.Builtin) {
	var args []Val
	if common.IsInvoke() {
		recv := e.val(s, f, common.Value)
		switch x := recv.(type) {
		case Nil:
			panic(goPanic{msg: "nil pointer dereference: call of " + common.Method.Name() + " on a nil interface"})
		case Iface:
			m := e.lookup(x.t, common.Method)
			if m == nil {
				panic(unsupported{"no method " + common.Method.Name() + " on " + x.t.String()})
			}
			args = append(args, x.v)
			for _, a := range common.Args {
				args = append(args, e.val(s, f, a))
			}
			return Fn{f: m}, args, nil
		default:
			panic(unsupported{fmt.Sprintf("call of %s on %s", common.Method.Name(), valStr(recv))})
		}
	}
	for _, a := range common.Args {
		args = append(args, e.val(s, f, a))
	}
	switch v := common.Value.(type) {
	case *ssa.Builtin:
		return nil, args, v
	case *ssa.Function:
		return Fn{f: v}, args, nil
	}
	return e.val(s, f, common.Value), args, nil
}

func (e *Eng) lookup(t types.Type, m *types.Func) *ssa.Function {
	type key struct {
		t int
		m string
	}
	k := key{e.typeID(t), m.Id()}
	if v, ok := e.ifaceCache.Load(k); ok {
		return v.(*ssa.Function)
	}
	fn := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn != nil {
		e.ifaceCache.Store(k, fn)
	}
	return fn
}

// callFn enters fn (true) or gives its result (false).
func (e *Eng) callFn(s *State, fnv Val, args []Val, call *ssa.CallCommon) (Val, bool) {
	fn, ok := fnv.(Fn)
	if !ok || fn.f == nil {
		if _, isNil := fnv.(Nil); isNil {
			panic(goPanic{msg: "nil pointer dereference: call of a nil function"})
		}
		panic(unsupported{"call of " + valStr(fnv)})
	}
	in := e.info(fn.f)
	if in.intr != nil {
		x := &Ctx{e: e, s: s, fn: fn.f, call: call}
		return in.intr(x, args), false
	}
	if in.repl != nil {
		fn = Fn{f: in.repl}
		in = e.info(in.repl)
		if in.intr != nil {
			x := &Ctx{e: e, s: s, fn: fn.f, call: call}
			return in.intr(x, args), false
		}
	}
	if len(fn.f.Blocks) == 0 {
		return e.unknownCall(s, fn.f, args), false
	}
	max := e.opts.maxRec
	if max == 0 {
		max = 200
	}
	if len(s.frames) > max {
		e.report(s, s.props, "recursion", "calls nest deeper than "+fmt.Sprint(max))
		panic(endPath{"recursion"})
	}
	if _, ok := e.funcs.Load(fn.f); !ok {
		e.funcs.Store(fn.f, true)
	}
	nf := &Frame{fn: fn.f, info: in, env: make([]Val, in.n)}
	for i := range fn.f.Params {
		nf.env[i] = args[i]
	}
	for i := range fn.f.FreeVars {
		nf.env[len(fn.f.Params)+i] = fn.b[i]
	}
	s.frames = append(s.frames, nf)
	return nil, true
}

func (e *Eng) unknownCall(s *State, fn *ssa.Function, args []Val) Val {
	panic(unsupported{"call of " + fn.String() + ", which has no model"})
}

// ---------- instructions ----------

func (e *Eng) step(s *State, f *Frame, ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		id := s.alloc(e.zero(t), t, "")
		f.setv(x, Ref{obj: id})
	case *ssa.UnOp:
		f.setv(x, e.unop(s, f, x))
	case *ssa.BinOp:
		f.setv(x, e.binop(s, x.Op, e.val(s, f, x.X), e.val(s, f, x.Y), x.X.Type(), x.Type()))
	case *ssa.Call:
		return e.doCall(s, f, x)
	case *ssa.ChangeType:
		f.setv(x, e.val(s, f, x.X))
	case *ssa.ChangeInterface:
		f.setv(x, e.val(s, f, x.X))
	case *ssa.Convert:
		f.setv(x, e.convert(s, e.val(s, f, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		f.setv(x, e.convert(s, e.val(s, f, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		f.setv(x, Iface{x.X.Type(), e.val(s, f, x.X)})
	case *ssa.TypeAssert:
		f.setv(x, e.typeAssert(s, x, e.val(s, f, x.X)))
	case *ssa.FieldAddr:
		r := e.val(s, f, x.X)
		f.setv(x, e.refAdd(r, pel{i: x.Field}))
	case *ssa.Field:
		v := e.val(s, f, x.X)
		st, ok := v.(*Struct)
		if !ok {
			panic(unsupported{"field of " + valStr(v)})
		}
		f.setv(x, st.f[x.Field])
	case *ssa.IndexAddr:
		f.setv(x, e.indexAddr(s, e.val(s, f, x.X), e.val(s, f, x.Index), x.X.Type()))
	case *ssa.Index:
		f.setv(x, e.index(s, e.val(s, f, x.X), e.val(s, f, x.Index)))
	case *ssa.Lookup:
		f.setv(x, e.mapLookup(s, e.val(s, f, x.X), e.val(s, f, x.Index), x))
	case *ssa.Slice:
		f.setv(x, e.slice(s, f, x))
	case *ssa.SliceToArrayPointer:
		v := e.val(s, f, x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if _, ok := v.(Nil); ok {
			if n == 0 {
				f.setv(x, Nil{})
				return true
			}
			panic(goPanic{msg: "slice to array pointer conversion of a nil slice"})
		}
		sl := v.(Slice)
		if !e.decideGE(s, linSub(sl.len, linC(n))) {
			panic(goPanic{msg: "slice to array pointer conversion: slice too short"})
		}
		if !sl.off.isZero() {
			panic(unsupported{"slice to array pointer conversion at an offset"})
		}
		f.setv(x, Ref{obj: sl.obj, path: sl.path})
	case *ssa.MakeSlice:
		f.setv(x, e.makeSlice(s, x.Type().Underlying().(*types.Slice).Elem(), e.val(s, f, x.Len), e.val(s, f, x.Cap)))
	case *ssa.MakeMap:
		if x.Reserve != nil {
			e.reserve(s, e.val(s, f, x.Reserve))
		}
		f.setv(x, Ref{obj: s.alloc(&MapV{}, x.Type(), "")})
	case *ssa.MakeChan:
		n, ok := e.constInt(s, e.val(s, f, x.Size))
		if !ok {
			panic(unsupported{"channel of unknown size"})
		}
		if n < 0 {
			panic(goPanic{msg: "makechan: size out of range"})
		}
		f.setv(x, Ref{obj: s.alloc(&ChanV{cap: n}, x.Type(), "")})
	case *ssa.MapUpdate:
		e.mapUpdate(s, e.val(s, f, x.Map), e.val(s, f, x.Key), e.val(s, f, x.Value))
		f.pc++
	case *ssa.Range:
		f.setv(x, e.rangeOver(s, e.val(s, f, x.X)))
	case *ssa.Next:
		f.setv(x, e.next(s, e.val(s, f, x.Iter), x))
	case *ssa.Extract:
		t := e.val(s, f, x.Tuple).(Tuple)
		f.setv(x, t.e[x.Index])
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range x.Bindings {
			b = append(b, e.val(s, f, v))
		}
		f.setv(x, Fn{x.Fn.(*ssa.Function), b})
	case *ssa.Store:
		e.store(s, e.val(s, f, x.Addr), e.val(s, f, x.Val))
		f.pc++
	case *ssa.Send:
		ch := e.val(s, f, x.Chan)
		e.send(s, ch, e.val(s, f, x.X))
		f.pc++
	case *ssa.Select:
		f.setv(x, e.selectOp(s, f, x))
	case *ssa.If:
		c := e.decide(s, e.val(s, f, x.Cond))
		b := x.Block()
		if c {
			return e.jump(s, f, b, b.Succs[0])
		}
		return e.jump(s, f, b, b.Succs[1])
	case *ssa.Jump:
		return e.jump(s, f, x.Block(), x.Block().Succs[0])
	case *ssa.Return:
		var res []Val
		for _, r := range x.Results {
			res = append(res, e.val(s, f, r))
		}
		return e.ret(s, res)
	case *ssa.Panic:
		v := e.val(s, f, x.X)
		panic(goPanic{v: v, msg: "panic: " + valStr(v)})
	case *ssa.Defer:
		fnv, args, bi := e.target(s, f, &x.Call)
		if bi != nil {
			fnv = &Lib{kind: "builtin:" + bi.Name()}
			f.defers = append(f.defers, deferred{fnv, args, &x.Call})
			panic(unsupported{"deferred builtin " + bi.Name()})
		}
		if x.DeferStack != nil {
			panic(unsupported{"defer in a range-over-func loop"})
		}
		f.defers = append(f.defers, deferred{fnv, args, &x.Call})
		f.pc++
	case *ssa.RunDefers:
		n := len(f.defers)
		if n == 0 {
			f.pc++
			return true
		}
		d := f.defers[n-1]
		depth := len(s.frames)
		// taken off only once it is certain that it runs
		_, entered := e.callFn(s, d.fn, d.args, d.call)
		f.defers = f.defers[: n-1 : n-1]
		if entered {
			s.frames[depth].isDefer = true
		}
	case *ssa.Go:
		panic(unsupported{"a goroutine is started"})
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", ins)})
	}
	return true
}
