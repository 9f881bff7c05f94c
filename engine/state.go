package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obj is a heap object. Immutable: a write replaces it.
type Obj struct {
	v    Val
	typ  types.Type // allocated type, if known
	site string     // where it was allocated
	mark string     // ghost label ("pool", ...)
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

// Frame is one activation.
type Frame struct {
	fn     *ssa.Function
	info   *FInfo
	env    []Val
	blk    int
	pc     int
	defers []deferred
	// how it was called
	isDefer  bool // result dropped, the caller re-executes its RunDefers or unwinding step
	asynch   bool
	unwind   bool // this frame is running its deferred calls because of a panic
	loops    map[int]*loopRec
	retProps string
}

type traceNode struct {
	prev *traceNode
	msg  string
	n    int
}

type panicInfo struct {
	v   Val
	msg string
	pos string
}

type heldLock struct {
	obj  int
	path string
	w    bool
}

// State is one abstract machine state.
type State struct {
	frames []*Frame
	heap   map[int]*Obj
	facts  *Facts
	memo   map[string]bool
	defs   map[string]*Sym
	next   int // next heap id
	trace  *traceNode
	// current instruction
	choices []int
	cix     int
	undo    []undoRec
	pan     *panicInfo
	recov   bool
	tick    int
	due     int
	epoch   int
	held    []heldLock
	props   string // properties a panic counts against
	bprops  string // properties blocking for ever counts against
	strayed bool   // a property was violated on the way
	phase   string // what the harness is doing
	allocB  *Lin   // ghost bound on allocations
	boundP  string
	sink    int
	steps   int
	decs    *decNode // conditions on unknowns decided so far (with opts.widen)
	depth   int
	unsupp  string
	ended   bool
}

// decNode is a decided condition: l >= 0, at a place.
type decNode struct {
	l          *Lin
	depth, blk int
	pc         int
	fn         *FInfo
	prev       *decNode
}

type undoRec struct {
	id  int
	obj *Obj
}

func (s *State) clone() *State {
	n := *s
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = append([]Val(nil), f.env...)
		g.defers = append([]deferred(nil), f.defers...)
		if f.loops != nil {
			g.loops = make(map[int]*loopRec, len(f.loops))
			for k, v := range f.loops {
				g.loops[k] = v
			}
		}
		n.frames[i] = &g
	}
	n.heap = make(map[int]*Obj, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.facts = s.facts.clone()
	n.memo = make(map[string]bool, len(s.memo))
	for k, v := range s.memo {
		n.memo[k] = v
	}
	n.defs = make(map[string]*Sym, len(s.defs))
	for k, v := range s.defs {
		n.defs[k] = v
	}
	n.choices = append([]int(nil), s.choices...)
	n.undo = nil
	n.held = append([]heldLock(nil), s.held...)
	return &n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) note(msg string) {
	n := 1
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &traceNode{s.trace, msg, n}
}

func (s *State) traceList() []string {
	var r []string
	for t := s.trace; t != nil; t = t.prev {
		r = append(r, t.msg)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (s *State) alloc(v Val, t types.Type, site string) int {
	id := s.next
	s.next++
	s.heap[id] = &Obj{v: v, typ: t, site: site}
	return id
}

func (s *State) set(id int, v Val) {
	o := s.heap[id]
	if o == nil {
		panic(unsupported{"write to an unknown object"})
	}
	s.undo = append(s.undo, undoRec{id, o})
	n := *o
	n.v = v
	s.heap[id] = &n
}

func (s *State) rollback() {
	for i := len(s.undo) - 1; i >= 0; i-- {
		s.heap[s.undo[i].id] = s.undo[i].obj
	}
	s.undo = s.undo[:0]
}

// control transfer out of an instruction
type needFork struct{ c *Cond }
type needChoice struct {
	n     int
	label string
}
type goPanic struct {
	v   Val
	msg string
}
type unsupported struct{ msg string }
type endPath struct{ why string }
type blocked struct{ what string }

// ---------- symbols with definitions ----------

func keyOf(v Val) string {
	switch x := v.(type) {
	case nil:
		return "_"
	case Int:
		return linKey(x.L)
	case *Sym:
		return "s" + strconv.FormatInt(x.seq, 10)
	case Str:
		return "S" + segKey(x.segs)
	case Bool:
		if x {
			return "T"
		}
		return "F"
	case FloatC:
		return fmt.Sprintf("f%x", float64(x))
	case Nil:
		return "n"
	case *Cond:
		return "c" + condKey(x)
	case Iface:
		return "i" + x.t.String() + ":" + keyOf(x.v)
	case Ref:
		return fmt.Sprintf("r%d%v", x.obj, x.path)
	case *Struct:
		var b strings.Builder
		b.WriteString("{")
		for _, f := range x.f {
			b.WriteString(keyOf(f) + ",")
		}
		return b.String() + "}"
	case *Bytes:
		return "B" + segKey(x.segs)
	}
	return fmt.Sprintf("?%T%v", v, v)
}

func linKey(l *Lin) string {
	if len(l.t) == 0 {
		return l.c.String()
	}
	var b strings.Builder
	for _, t := range l.t {
		b.WriteString(t.c.String())
		b.WriteByte('*')
		b.WriteString(strconv.FormatInt(t.s.seq, 10))
		b.WriteByte('+')
	}
	b.WriteString(l.c.String())
	return b.String()
}

func segKey(ss []Seg) string {
	var b strings.Builder
	for _, s := range ss {
		switch x := s.(type) {
		case SLit:
			fmt.Fprintf(&b, "L%q", string(x))
		case SVal:
			b.WriteString("V" + linKey(x.L))
		case SRng:
			fmt.Fprintf(&b, "R%d[%s,%s]", x.s.seq, linKey(x.off), linKey(x.n))
		case SRep:
			fmt.Fprintf(&b, "P%q*%s", x.pat, linKey(x.n))
		}
	}
	return b.String()
}

func condKey(c *Cond) string {
	k := c.op
	if c.L != nil {
		k += linKey(c.L)
	}
	for _, a := range c.args {
		k += "|" + keyOf(a)
	}
	return k
}

// defsym gives the symbol for op applied to args: the same one for the same arguments.
func (s *State) defsym(kind, op string, n int, args ...Val) *Sym {
	k := op + "/" + strconv.Itoa(n)
	for _, a := range args {
		k += "|" + keyOf(a)
	}
	if y, ok := s.defs[k]; ok {
		return y
	}
	y := newSym(kind, op)
	y.Def = &Def{Op: op, Args: args, N: n}
	s.defs[k] = y
	return y
}

// ---------- canonical form ----------

type canon struct {
	e    *Eng
	s    *State
	b    []byte
	objs map[int]int
	q    []int
	syms map[*Sym]int
	sl   []*Sym
}

func (c *canon) str(x string) {
	c.b = strconv.AppendInt(c.b, int64(len(x)), 10)
	c.b = append(c.b, ':')
	c.b = append(c.b, x...)
}
func (c *canon) num(n int) { c.b = strconv.AppendInt(c.b, int64(n), 10); c.b = append(c.b, ' ') }

func (c *canon) obj(id int) {
	if id < c.e.nextInit { // exists since initialisation: a root of its own if changed
		c.b = append(c.b, 'g')
		c.num(id)
		return
	}
	if n, ok := c.objs[id]; ok {
		c.num(n)
		return
	}
	n := len(c.objs)
	c.objs[id] = n
	c.q = append(c.q, id)
	c.num(n)
}

func (c *canon) sym(s *Sym) {
	n, ok := c.syms[s]
	if !ok {
		n = len(c.syms)
		c.syms[s] = n
		c.sl = append(c.sl, s)
	}
	c.b = append(c.b, 's')
	c.num(n)
}

func (c *canon) lin(l *Lin) {
	if len(l.t) == 0 {
		c.b = l.c.Append(c.b, 10)
		c.b = append(c.b, ';')
		return
	}
	// order terms by canonical number (discovering new ones in creation order)
	for _, t := range l.t {
		if _, ok := c.syms[t.s]; !ok {
			n := len(c.syms)
			c.syms[t.s] = n
			c.sl = append(c.sl, t.s)
		}
	}
	ts := append([]term(nil), l.t...)
	sort.Slice(ts, func(i, j int) bool { return c.syms[ts[i].s] < c.syms[ts[j].s] })
	for _, t := range ts {
		c.b = t.c.Append(c.b, 10)
		c.b = append(c.b, '*')
		c.num(c.syms[t.s])
	}
	c.b = append(c.b, '+')
	c.b = l.c.Append(c.b, 10)
	c.b = append(c.b, ';')
}

func (c *canon) segs(ss []Seg) {
	c.num(len(ss))
	for _, s := range ss {
		switch x := s.(type) {
		case SLit:
			c.b = append(c.b, 'L')
			c.str(string(x))
		case SVal:
			c.b = append(c.b, 'V')
			c.lin(x.L)
		case SRng:
			c.b = append(c.b, 'R')
			c.sym(x.s)
			c.lin(x.off)
			c.lin(x.n)
		case SRep:
			c.b = append(c.b, 'P')
			c.str(x.pat)
			c.lin(x.n)
		}
	}
}

func (c *canon) path(p []pel) {
	c.num(len(p))
	for _, e := range p {
		if e.lin != nil {
			c.b = append(c.b, 'x')
			c.lin(e.lin)
		} else {
			c.num(e.i)
		}
	}
}

func (c *canon) typ(t types.Type) { c.num(c.e.typeID(t)) }

func (c *canon) val(v Val) {
	switch x := v.(type) {
	case nil:
		c.b = append(c.b, '_')
	case Nil:
		c.b = append(c.b, 'N')
	case Int:
		c.b = append(c.b, 'I')
		c.lin(x.L)
	case Bool:
		if x {
			c.b = append(c.b, 'T')
		} else {
			c.b = append(c.b, 'F')
		}
	case *Cond:
		c.b = append(c.b, 'C')
		c.str(x.op)
		if x.neg {
			c.b = append(c.b, '!')
		}
		if x.L != nil {
			c.lin(x.L)
		}
		for _, a := range x.args {
			c.val(a)
		}
	case FloatC:
		c.b = append(c.b, 'f')
		c.str(strconv.FormatFloat(float64(x), 'x', -1, 64))
	case Str:
		c.b = append(c.b, 'S')
		c.segs(x.segs)
		for _, t := range x.taint {
			c.str(t)
		}
	case *Struct:
		c.b = append(c.b, '{')
		for _, f := range x.f {
			c.val(f)
		}
		c.b = append(c.b, '}')
	case *Arr:
		c.b = append(c.b, '[')
		for _, f := range x.e {
			c.val(f)
		}
		c.b = append(c.b, ']')
	case *SArr:
		c.b = append(c.b, 'A')
		c.lin(x.n)
		c.val(x.def)
	case *Bytes:
		c.b = append(c.b, 'B')
		c.segs(x.segs)
	case Ref:
		c.b = append(c.b, '&')
		c.obj(x.obj)
		c.path(x.path)
	case Slice:
		c.b = append(c.b, 'l')
		c.obj(x.obj)
		c.path(x.path)
		c.lin(x.off)
		c.lin(x.len)
		c.lin(x.cap)
	case Iface:
		c.b = append(c.b, 'i')
		c.typ(x.t)
		c.val(x.v)
	case *MapV:
		c.b = append(c.b, 'M')
		c.num(len(x.ent))
		for _, e := range x.ent {
			c.val(e.k)
			c.val(e.v)
		}
		if x.sym != nil {
			c.lin(x.sym.n)
			c.val(x.sym.k)
			c.val(x.sym.v)
		}
	case *ChanV:
		c.b = append(c.b, 'c')
		c.num(x.cap)
		for _, e := range x.buf {
			c.val(e)
		}
		if x.closed {
			c.b = append(c.b, '!')
		}
	case Fn:
		c.b = append(c.b, 'F')
		c.num(c.e.fnID(x.f))
		for _, e := range x.b {
			c.val(e)
		}
	case Tuple:
		c.b = append(c.b, '(')
		for _, e := range x.e {
			c.val(e)
		}
		c.b = append(c.b, ')')
	case *BufV:
		c.b = append(c.b, 'b')
		c.segs(x.segs)
		for _, o := range x.out {
			c.val(o)
		}
		if x.over {
			c.b = append(c.b, '!')
		}
	case LockV:
		c.b = append(c.b, 'K')
		c.num(x.w)
		c.num(x.r)
	case TimeV:
		c.b = append(c.b, 't')
		if x.zero {
			c.b = append(c.b, 'z')
		} else {
			if x.seq == c.s.epoch {
				c.b = append(c.b, 'f')
			} else {
				c.b = append(c.b, 's')
			}
			c.lin(x.dur)
		}
	case *IterV:
		c.b = append(c.b, 'j')
		c.val(x.m)
		c.lin(x.pos)
		for _, e := range x.ks {
			c.val(e)
		}
	case TypV:
		c.b = append(c.b, 'y')
		c.typ(x.t)
	case ReflV:
		c.b = append(c.b, 'v')
		c.typ(x.t)
		c.val(x.v)
	case *Lib:
		c.b = append(c.b, 'X')
		c.str(x.kind)
		for _, e := range x.at {
			c.val(e)
		}
	case *Sym:
		c.sym(x)
	default:
		panic(fmt.Sprintf("canon: %T", v))
	}
}

// canonical serialises what the rest of the execution can depend on.
func (e *Eng) canonical(s *State) *canon {
	c := &canon{e: e, s: s, objs: map[int]int{}, syms: map[*Sym]int{}, b: make([]byte, 0, 2048)}
	for _, f := range s.frames {
		c.num(f.info.id)
		c.num(f.blk)
		c.num(f.pc)
		if f.isDefer {
			c.b = append(c.b, 'd')
		}
		if f.unwind {
			c.b = append(c.b, 'u')
		}
		for _, v := range f.env {
			c.val(v)
		}
		for _, d := range f.defers {
			c.b = append(c.b, 'D')
			c.val(d.fn)
			for _, a := range d.args {
				c.val(a)
			}
		}
	}
	for _, id := range e.initIDs {
		if o := s.heap[id]; o != e.initHeap[id] {
			c.b = append(c.b, 'G')
			c.num(id)
			c.val(o.v)
		}
	}
	for i := 0; i < len(s.held); i++ {
		c.b = append(c.b, 'H')
		c.obj(s.held[i].obj)
		c.str(s.held[i].path)
	}
	c.str(s.props)
	c.str(s.bprops)
	c.str(s.phase)
	if s.strayed {
		c.str("strayed")
	}
	if s.allocB != nil {
		c.lin(s.allocB)
	}
	if s.pan != nil {
		c.b = append(c.b, 'p')
		c.val(s.pan.v)
	}
	// symbols: definitions and facts
	for i, j := 0, 0; i < len(c.sl) || j < len(c.q); {
		if j < len(c.q) {
			o := s.heap[c.q[j]]
			j++
			c.b = append(c.b, '\n')
			if o == nil {
				continue
			}
			c.val(o.v)
			if o.mark != "" {
				c.str(o.mark)
			}
			continue
		}
		y := c.sl[i]
		i++
		c.b = append(c.b, '\n')
		c.str(y.Name)
		if y.Def != nil {
			c.num(y.Def.N)
			for _, a := range y.Def.Args {
				if _, isRef := a.(Ref); isRef {
					continue
				}
				c.val(a)
			}
		}
		if iv, ok := s.facts.iv[y]; ok {
			c.b = append(c.b, iv.String()...)
		}
	}
	if len(c.sl) > 0 {
		var fs []string
		add := func(tag string, l *Lin) {
			for _, t := range l.t {
				if _, ok := c.syms[t.s]; !ok {
					return
				}
			}
			save := c.b
			c.b = nil
			c.lin(l)
			fs = append(fs, tag+string(c.b))
			c.b = save
		}
		for _, l := range s.facts.ge {
			add("g", l)
		}
		for _, l := range s.facts.ne {
			add("n", l)
		}
		sort.Strings(fs)
		for _, f := range fs {
			c.str(f)
		}
		for _, k := range sortedKeys(s.memo) {
			m, ok := e.memoConds.Load(k)
			if !ok {
				continue
			}
			if rel := c.condRel(m.(*Cond)); rel {
				save := c.b
				c.b = nil
				c.val(m.(*Cond))
				t := string(c.b)
				c.b = save
				c.str(t)
				if s.memo[k] {
					c.b = append(c.b, '1')
				} else {
					c.b = append(c.b, '0')
				}
			}
		}
	}
	return c
}

func sortedKeys(m map[string]bool) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (c *canon) condRel(k *Cond) bool {
	for _, a := range k.args {
		ok := true
		symsOf(a, func(s *Sym) {
			if _, in := c.syms[s]; !in {
				ok = false
			}
		})
		if !ok {
			return false
		}
	}
	return true
}

func symsOf(v Val, f func(*Sym)) {
	lin := func(l *Lin) {
		if l == nil {
			return
		}
		for _, t := range l.t {
			f(t.s)
		}
	}
	segs := func(ss []Seg) {
		for _, s := range ss {
			switch x := s.(type) {
			case SVal:
				lin(x.L)
			case SRng:
				f(x.s)
				lin(x.off)
				lin(x.n)
			case SRep:
				lin(x.n)
			}
		}
	}
	switch x := v.(type) {
	case Int:
		lin(x.L)
	case *Sym:
		f(x)
	case Str:
		segs(x.segs)
	case *Bytes:
		segs(x.segs)
	case *Cond:
		lin(x.L)
		for _, a := range x.args {
			symsOf(a, f)
		}
	case *Struct:
		for _, a := range x.f {
			symsOf(a, f)
		}
	case Iface:
		symsOf(x.v, f)
	}
}

// gc drops objects and facts that nothing live refers to.
func (e *Eng) gc(s *State, c *canon) {
	h := make(map[int]*Obj, len(c.objs)+len(e.initHeap))
	for id := range c.objs {
		if o := s.heap[id]; o != nil {
			h[id] = o
		}
	}
	for id := range e.initHeap {
		if o := s.heap[id]; o != nil {
			h[id] = o
		}
	}
	s.heap = h
	for y := range s.facts.iv {
		if _, ok := c.syms[y]; !ok {
			delete(s.facts.iv, y)
		}
	}
	keep := func(ls []*Lin) []*Lin {
		var r []*Lin
	outer:
		for _, l := range ls {
			for _, t := range l.t {
				if _, ok := c.syms[t.s]; !ok {
					continue outer
				}
			}
			r = append(r, l)
		}
		return r
	}
	s.facts.ge = keep(s.facts.ge)
	s.facts.ne = keep(s.facts.ne)
	for k, y := range s.defs {
		if _, ok := c.syms[y]; !ok {
			delete(s.defs, k)
		}
	}
	for k := range s.memo {
		m, ok := e.memoConds.Load(k)
		if !ok || !c.condRel(m.(*Cond)) {
			delete(s.memo, k)
		}
	}
}
