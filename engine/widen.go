package main

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops whose number of rounds depends on an unknown value. When three arrivals at the head of a loop differ from one
// to the next in the same way (numbers by a constant, byte content by the same literal), the state is generalised to
// "after k more rounds" for a new unknown k >= 0, and the analysis goes on from there. The next arrival has to be that
// state again with k+1 for k: then the generalised state is an invariant of the loop and nothing is left to do. If it
// is not, the loop is undecided.

type loopRec struct {
	snaps []*loopSnap
	g     *State // generalised state
	base  *State // the same without the relations below
	rel   []*Lin // relations that are candidates for holding in every round
	k     *Sym
	n     int
}

type loopSnap struct {
	s *State
}

// noteDec records a decided condition.
func (e *Eng) noteDec(s *State, c *Cond, r bool) {
	if len(s.frames) == 0 {
		return
	}
	f := s.frames[len(s.frames)-1]
	d := &decNode{depth: len(s.frames), blk: f.blk, pc: f.pc, fn: f.info, prev: s.decs}
	if c.neg {
		r = !r
	}
	if c.op == "ge" {
		d.l = c.L
		if !r {
			d.l = linSub(linNeg(c.L), linC(1))
		}
	}
	s.decs = d
}

// round gives the decisions between two snapshots.
func round(from, to *State) []*decNode {
	var r []*decNode
	for d := to.decs; d != nil && d != from.decs && len(r) < 5000; d = d.prev {
		r = append(r, d)
	}
	return r
}

// leaves tells whether one of the decisions was whether to leave the loop.
func leaves(ds []*decNode, depth int, fn *FInfo, exits map[int]bool) bool {
	for _, d := range ds {
		if d.depth == depth && d.fn == fn && exits[d.blk] {
			return true
		}
	}
	return false
}

// exitsOf gives the blocks the loop with this header can be left from.
func (e *Eng) exitsOf(in *FInfo, h *ssa.BasicBlock) map[int]bool {
	e.exitMu.Lock()
	defer e.exitMu.Unlock()
	if x, ok := in.exits[h.Index]; ok {
		return x
	}
	body := map[*ssa.BasicBlock]bool{h: true}
	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if body[b] {
			return
		}
		body[b] = true
		for _, p := range b.Preds {
			add(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			add(p)
		}
	}
	x := map[int]bool{}
	for b := range body {
		for _, t := range b.Succs {
			if !body[t] {
				x[b.Index] = true
			}
		}
	}
	if in.exits == nil {
		in.exits = map[int]map[int]bool{}
	}
	in.exits[h.Index] = x
	return x
}

func (e *Eng) widenAt(s *State, f *Frame, to *ssa.BasicBlock) bool {
	if f.loops == nil {
		f.loops = map[int]*loopRec{}
	}
	old := f.loops[to.Index]
	if old != nil && old.g != nil {
		w := &walk{e: e, s: s, g: old.g, k: old.k, ids: map[int]int{}}
		if w.states() {
			var keep []*Lin
			for _, l := range old.rel {
				if s.facts.decideGE(w.next(l)) == 1 {
					keep = append(keep, l)
				}
			}
			if len(keep) == len(old.rel) {
				return false
			}
			// once more, without the relations that get lost
			*s = *old.base.clone()
			e.generalised(s, s.frames[len(s.frames)-1], to, old.k, keep)
			return true
		}
		e.report(s, "*", "undecided", "the rounds of the loop in "+f.info.name+" do not repeat: "+w.why)
		return false
	}
	rec := &loopRec{n: 1}
	if old != nil {
		rec.n = old.n + 1
		rec.snaps = old.snaps
	}
	if len(rec.snaps) > 2 {
		rec.snaps = rec.snaps[len(rec.snaps)-2:]
	}
	rec.snaps = append(append([]*loopSnap(nil), rec.snaps...), &loopSnap{s.clone()})
	f.loops[to.Index] = rec
	if len(rec.snaps) < 3 {
		return true
	}
	a, b, c := rec.snaps[0], rec.snaps[1], rec.snaps[2]
	exits := e.exitsOf(f.info, to)
	if !leaves(round(a.s, b.s), len(s.frames), f.info, exits) || !leaves(round(b.s, c.s), len(s.frames), f.info, exits) {
		return true // a loop with a known end
	}
	k := newSym("int", "k")
	g := &gener{e: e, a: a.s, b: b.s, c: c.s, s: s, k: linS(k), ids: map[int][2]int{}}
	if !g.states() {
		if rec.n > 30 {
			e.report(s, "*", "undecided", "the loop in "+f.info.name+" has no invariant the analysis can express: "+g.why)
			return false
		}
		return true
	}
	for i, fr := range s.frames {
		fr.env = g.env[i]
	}
	for id, v := range g.heap {
		s.set(id, v)
	}
	s.undo = nil
	s.facts.iv[k] = Iv{lo: bigZero}
	e.generalised(s, f, to, k, g.facts())
	return true
}

func (e *Eng) generalised(s *State, f *Frame, to *ssa.BasicBlock, k *Sym, rel []*Lin) {
	rec := &loopRec{k: k, rel: rel, base: s.clone()}
	for _, l := range rel {
		s.facts.addGE(l)
	}
	rec.g = s.clone()
	f.loops[to.Index] = rec
}

// ---------- generalisation ----------

type gener struct {
	e          *Eng
	a, b, c, s *State
	k          *Lin
	ids        map[int][2]int
	heap       map[int]Val
	env        [][]Val
	why        string
}

func (g *gener) fail(f string, x ...interface{}) bool {
	if g.why == "" {
		g.why = fmt.Sprintf(f, x...)
	}
	return false
}

func (g *gener) states() bool {
	g.heap = map[int]Val{}
	if len(g.a.frames) != len(g.c.frames) || len(g.b.frames) != len(g.c.frames) || len(g.a.held) != len(g.c.held) {
		return g.fail("call depth")
	}
	for i, fc := range g.c.frames {
		fa, fb := g.a.frames[i], g.b.frames[i]
		env := make([]Val, len(fc.env))
		for j := range fc.env {
			v, ok := g.val(fa.env[j], fb.env[j], fc.env[j])
			if !ok {
				return g.fail("value %d of %s", j, fc.info.name)
			}
			env[j] = v
		}
		g.env = append(g.env, env)
		if len(fa.defers) != len(fc.defers) || len(fb.defers) != len(fc.defers) {
			return g.fail("deferred calls")
		}
		for j, d := range fc.defers {
			for x := range d.args {
				v, ok := g.val(fa.defers[j].args[x], fb.defers[j].args[x], d.args[x])
				if !ok || keyOf(v) != keyOf(d.args[x]) {
					return g.fail("deferred calls")
				}
			}
		}
	}
	for _, id := range g.e.initIDs {
		if g.c.heap[id] != g.a.heap[id] {
			if !g.obj(id, id, id) {
				return g.fail("package variable")
			}
		}
	}
	return true
}

func (g *gener) lin(a, b, c *Lin) (*Lin, bool) {
	if a.eq(c) && b.eq(c) {
		return c, true
	}
	d1, d2 := linSub(b, a), linSub(c, b)
	if !d1.isConst() || !d1.eq(d2) {
		return nil, g.fail("the number goes %s, %s, %s", a, b, c)
	}
	return linComb(c, g.k, d1.c), true
}

func (g *gener) vals(a, b, c []Val) ([]Val, bool) {
	if len(a) != len(c) || len(b) != len(c) {
		return nil, g.fail("length")
	}
	r := make([]Val, len(c))
	for i := range c {
		v, ok := g.val(a[i], b[i], c[i])
		if !ok {
			return nil, false
		}
		r[i] = v
	}
	return r, true
}

func (g *gener) val(a, b, c Val) (Val, bool) {
	switch z := c.(type) {
	case nil:
		return nil, a == nil && b == nil
	case Int:
		x, ok1 := a.(Int)
		y, ok2 := b.(Int)
		if !ok1 || !ok2 {
			return nil, g.fail("kind")
		}
		l, ok := g.lin(x.L, y.L, z.L)
		return Int{l}, ok
	case Str:
		x, ok1 := a.(Str)
		y, ok2 := b.(Str)
		if !ok1 || !ok2 {
			return nil, g.fail("kind")
		}
		ss, ok := g.segs(x.segs, y.segs, z.segs)
		return Str{ss, z.taint}, ok
	case *Bytes:
		x, ok1 := a.(*Bytes)
		y, ok2 := b.(*Bytes)
		if !ok1 || !ok2 {
			return nil, g.fail("kind")
		}
		ss, ok := g.segs(x.segs, y.segs, z.segs)
		return &Bytes{ss}, ok
	case *BufV:
		x, ok1 := a.(*BufV)
		y, ok2 := b.(*BufV)
		if !ok1 || !ok2 {
			return nil, g.fail("kind")
		}
		ss, ok := g.segs(x.segs, y.segs, z.segs)
		if !ok || x.over != z.over || y.over != z.over {
			return nil, ok && g.fail("buffer")
		}
		out, ok := g.vals(x.out, y.out, z.out)
		return &BufV{ss, out, z.over}, ok
	case *Struct:
		x, ok1 := a.(*Struct)
		y, ok2 := b.(*Struct)
		if !ok1 || !ok2 {
			return nil, g.fail("kind")
		}
		r, ok := g.vals(x.f, y.f, z.f)
		return &Struct{r}, ok
	case *Arr:
		x, ok1 := a.(*Arr)
		y, ok2 := b.(*Arr)
		if !ok1 || !ok2 {
			return nil, g.fail("kind")
		}
		r, ok := g.vals(x.e, y.e, z.e)
		return &Arr{r}, ok
	case *SArr:
		x, ok1 := a.(*SArr)
		y, ok2 := b.(*SArr)
		if !ok1 || !ok2 {
			return nil, g.fail("kind")
		}
		n, ok := g.lin(x.n, y.n, z.n)
		if !ok {
			return nil, false
		}
		d, ok := g.val(x.def, y.def, z.def)
		return &SArr{n, d}, ok
	case Tuple:
		x, ok1 := a.(Tuple)
		y, ok2 := b.(Tuple)
		if !ok1 || !ok2 {
			return nil, g.fail("kind")
		}
		r, ok := g.vals(x.e, y.e, z.e)
		return Tuple{r}, ok
	case Iface:
		x, ok1 := a.(Iface)
		y, ok2 := b.(Iface)
		if !ok1 || !ok2 || g.e.typeID(x.t) != g.e.typeID(z.t) || g.e.typeID(y.t) != g.e.typeID(z.t) {
			return nil, g.fail("dynamic type")
		}
		v, ok := g.val(x.v, y.v, z.v)
		return Iface{z.t, v}, ok
	case Ref:
		x, ok1 := a.(Ref)
		y, ok2 := b.(Ref)
		if !ok1 || !ok2 {
			return nil, g.fail("pointer")
		}
		p, ok := g.path(x.path, y.path, z.path)
		return Ref{z.obj, p}, ok && g.obj(x.obj, y.obj, z.obj)
	case Slice:
		x, ok1 := a.(Slice)
		y, ok2 := b.(Slice)
		if !ok1 || !ok2 {
			return nil, g.fail("slice")
		}
		if v, ok := g.grown(x, y, z); ok {
			return v, true
		}
		p, ok := g.path(x.path, y.path, z.path)
		o, ok1 := g.lin(x.off, y.off, z.off)
		l, ok2 := g.lin(x.len, y.len, z.len)
		c, ok3 := g.lin(x.cap, y.cap, z.cap)
		return Slice{z.obj, p, o, l, c}, ok && ok1 && ok2 && ok3 && g.obj(x.obj, y.obj, z.obj)
	case *MapV:
		x, ok1 := a.(*MapV)
		y, ok2 := b.(*MapV)
		if !ok1 || !ok2 || len(x.ent) != len(z.ent) || len(y.ent) != len(z.ent) || (x.sym == nil) != (z.sym == nil) || (y.sym == nil) != (z.sym == nil) {
			return nil, g.fail("map")
		}
		n := &MapV{}
		for i := range z.ent {
			k, ok1 := g.val(x.ent[i].k, y.ent[i].k, z.ent[i].k)
			v, ok2 := g.val(x.ent[i].v, y.ent[i].v, z.ent[i].v)
			if !ok1 || !ok2 {
				return nil, false
			}
			n.ent = append(n.ent, ment{k, v})
		}
		if z.sym != nil {
			l, ok := g.lin(x.sym.n, y.sym.n, z.sym.n)
			if !ok || keyOf(x.sym.k) != keyOf(z.sym.k) || keyOf(y.sym.k) != keyOf(z.sym.k) || keyOf(x.sym.v) != keyOf(z.sym.v) || keyOf(y.sym.v) != keyOf(z.sym.v) {
				return nil, g.fail("map")
			}
			n.sym = &symMap{l, z.sym.k, z.sym.v}
		}
		return n, true
	case *IterV:
		x, ok1 := a.(*IterV)
		y, ok2 := b.(*IterV)
		if !ok1 || !ok2 || len(x.ks) != len(z.ks) || len(y.ks) != len(z.ks) {
			return nil, g.fail("iterator")
		}
		m, ok1 := g.val(x.m, y.m, z.m)
		p, ok2 := g.lin(x.pos, y.pos, z.pos)
		ks, ok3 := g.vals(x.ks, y.ks, z.ks)
		return &IterV{m, p, ks}, ok1 && ok2 && ok3
	case *ChanV:
		x, ok1 := a.(*ChanV)
		y, ok2 := b.(*ChanV)
		if !ok1 || !ok2 {
			return nil, g.fail("channel")
		}
		r, ok := g.vals(x.buf, y.buf, z.buf)
		return &ChanV{buf: r, cap: z.cap, closed: z.closed}, ok && x.closed == z.closed && y.closed == z.closed
	case *Lib:
		x, ok1 := a.(*Lib)
		y, ok2 := b.(*Lib)
		if !ok1 || !ok2 || x.kind != z.kind || y.kind != z.kind {
			return nil, g.fail("library object")
		}
		r, ok := g.vals(x.at, y.at, z.at)
		return &Lib{kind: z.kind, at: r}, ok
	case Fn:
		x, ok1 := a.(Fn)
		y, ok2 := b.(Fn)
		if !ok1 || !ok2 || x.f != z.f || y.f != z.f {
			return nil, g.fail("function")
		}
		r, ok := g.vals(x.b, y.b, z.b)
		return Fn{z.f, r}, ok
	}
	if a == nil || b == nil {
		return nil, g.fail("value")
	}
	if keyOf(a) == keyOf(c) && keyOf(b) == keyOf(c) {
		return c, true
	}
	return nil, g.fail("%s, %s, %s", valStr(a), valStr(b), valStr(c))
}

// grown generalises a slice that equal elements are appended to, each time into a new array or the spare room of the old.
func (g *gener) grown(x, y, z Slice) (Val, bool) {
	if len(x.path)+len(y.path)+len(z.path) > 0 {
		return nil, false
	}
	if _, seen := g.ids[z.obj]; seen {
		return nil, false
	}
	var def Val
	for i, v := range []Slice{x, y, z} {
		s := []*State{g.a, g.b, g.c}[i]
		o := s.heap[v.obj]
		if o == nil || !v.off.isConst() || !v.len.isConst() {
			return nil, false
		}
		arr, ok := o.v.(*Arr)
		if !ok {
			return nil, false
		}
		for _, el := range arr.e[v.off.i64() : v.off.i64()+v.len.i64()] {
			if def == nil {
				def = el
			} else if keyOf(def) != keyOf(el) {
				return nil, false
			}
		}
	}
	if def == nil || hasRefs(def) && keyOf(def) != keyOf(Nil{}) || x.len.i64() == z.len.i64() {
		return nil, false
	}
	l, ok := g.lin(x.len, y.len, z.len)
	if !ok {
		return nil, false
	}
	g.ids[z.obj] = [2]int{x.obj, y.obj}
	g.heap[z.obj] = &SArr{n: l, def: def}
	return Slice{obj: z.obj, off: linC(0), len: l, cap: l}, true
}

func (g *gener) path(a, b, c []pel) ([]pel, bool) {
	if len(a) != len(c) || len(b) != len(c) {
		return nil, g.fail("pointer")
	}
	var r []pel
	for i := range c {
		if a[i].lin == nil && b[i].lin == nil && c[i].lin == nil && a[i].i == c[i].i && b[i].i == c[i].i {
			r = append(r, c[i])
			continue
		}
		l, ok := g.lin(a[i].L(), b[i].L(), c[i].L())
		if !ok {
			return nil, false
		}
		r = append(r, pel{lin: l})
	}
	return r, true
}

func (g *gener) obj(a, b, c int) bool {
	if p, ok := g.ids[c]; ok {
		if p != [2]int{a, b} {
			return g.fail("different objects")
		}
		return true
	}
	g.ids[c] = [2]int{a, b}
	oa, ob, oc := g.a.heap[a], g.b.heap[b], g.c.heap[c]
	if oa == nil || ob == nil || oc == nil {
		if oa == nil && ob == nil && oc == nil {
			return true
		}
		return g.fail("object")
	}
	if oa == oc && ob == oc && a == c && b == c && !hasRefs(oc.v) {
		return true
	}
	v, ok := g.val(oa.v, ob.v, oc.v)
	if !ok {
		return false
	}
	if oa != oc || ob != oc {
		g.heap[c] = v
	}
	return true
}

func hasRefs(v Val) bool {
	switch x := v.(type) {
	case *Bytes, Int, Str, LockV:
		return false
	case *BufV:
		return len(x.out) > 0
	case *Struct:
		for _, f := range x.f {
			if hasRefs(f) {
				return true
			}
		}
		return false
	}
	return true
}

func (g *gener) segs(a, b, c []Seg) ([]Seg, bool) {
	if segsEq(a, c) && segsEq(b, c) {
		return c, true
	}
	if r, ok := g.segs1(a, b, c); ok {
		return r, true
	}
	// growth by the same literal
	if len(a) == len(c) && len(b) == len(c) && len(c) > 0 {
		n := len(c) - 1
		la, ok1 := segConst(a[n:])
		lb, ok2 := segConst(b[n:])
		lc, ok3 := segConst(c[n:])
		if ok1 && ok2 && ok3 && strings.HasPrefix(lb, la) && strings.HasPrefix(lc, lb) && lb[len(la):] == lc[len(lb):] {
			if pre, ok := g.segs1(a[:n], b[:n], c[:n]); ok {
				return segCat(pre, c[n:], []Seg{SRep{lb[len(la):], g.k}}), true
			}
		}
	}
	return nil, g.fail("the bytes go %s, %s, %s", segStr(a), segStr(b), segStr(c))
}

func (g *gener) segs1(a, b, c []Seg) ([]Seg, bool) {
	if len(a) != len(c) || len(b) != len(c) {
		return nil, false
	}
	why := g.why
	defer func() { g.why = why }()
	var out []Seg
	for i := range c {
		switch z := c[i].(type) {
		case SLit:
			x, ok1 := a[i].(SLit)
			y, ok2 := b[i].(SLit)
			if !ok1 || !ok2 || x != z || y != z {
				// a shrinking or growing run of one byte
				sa, o1 := segConst(a[i : i+1])
				sb, o2 := segConst(b[i : i+1])
				if !o1 || !o2 || len(z) == 0 || uniform(sa) != uniform(string(z)) || uniform(sb) != uniform(string(z)) || uniform(string(z)) < 0 {
					return nil, false
				}
				n, ok := g.lin(linC(int64(len(sa))), linC(int64(len(sb))), linC(int64(len(z))))
				if !ok {
					return nil, false
				}
				out = segPush(out, SRep{string(z[:1]), n})
				continue
			}
			out = segPush(out, z)
		case SVal:
			x, ok1 := a[i].(SVal)
			y, ok2 := b[i].(SVal)
			if !ok1 || !ok2 {
				return nil, false
			}
			l, ok := g.lin(x.L, y.L, z.L)
			if !ok {
				return nil, false
			}
			out = segPush(out, SVal{l})
		case SRng:
			x, ok1 := a[i].(SRng)
			y, ok2 := b[i].(SRng)
			if !ok1 || !ok2 || x.s != z.s || y.s != z.s {
				return nil, false
			}
			o, ok1 := g.lin(x.off, y.off, z.off)
			n, ok2 := g.lin(x.n, y.n, z.n)
			if !ok1 || !ok2 {
				return nil, false
			}
			out = segPush(out, SRng{z.s, o, n})
		case SRep:
			x, ok1 := a[i].(SRep)
			y, ok2 := b[i].(SRep)
			if !ok1 || !ok2 || x.pat != z.pat || y.pat != z.pat {
				return nil, false
			}
			n, ok := g.lin(x.n, y.n, z.n)
			if !ok {
				return nil, false
			}
			out = segPush(out, SRep{z.pat, n})
		default:
			return nil, false
		}
	}
	return out, true
}

func uniform(s string) int {
	if s == "" || strings.Count(s, s[:1]) != len(s) {
		return -1
	}
	return int(s[0])
}

// facts gives what the last round established, for round k.
func (g *gener) facts() []*Lin {
	var r []*Lin
	shift := func(a, b, c *big.Int) *Lin {
		if a == nil || b == nil || c == nil {
			return nil
		}
		d1, d2 := new(big.Int).Sub(b, a), new(big.Int).Sub(c, b)
		if d1.Sign() == 0 || d1.Cmp(d2) != 0 {
			return nil
		}
		return linComb(linB(c), g.k, d1)
	}
	for y, c := range g.c.facts.iv {
		a, ok1 := g.a.facts.iv[y]
		b, ok2 := g.b.facts.iv[y]
		if !ok1 || !ok2 {
			continue
		}
		if l := shift(a.lo, b.lo, c.lo); l != nil {
			r = append(r, linSub(linS(y), l))
		}
		if l := shift(a.hi, b.hi, c.hi); l != nil {
			r = append(r, linSub(l, linS(y)))
		}
	}
	// what was decided in the last round, if it was decided in the same place in the round before
	rb := round(g.a, g.b)
	for _, d := range round(g.b, g.c) {
		if d.l == nil {
			continue
		}
		for _, o := range rb {
			if o.l == nil || o.depth != d.depth || o.fn != d.fn || o.blk != d.blk || o.pc != d.pc {
				continue
			}
			if x := linSub(d.l, o.l); x.isConst() && x.c.Sign() != 0 {
				r = append(r, linComb(d.l, g.k, x.c))
				break
			}
		}
	}
	return r
}

// ---------- is this arrival the generalised state again? ----------

type walk struct {
	e    *Eng
	s, g *State
	k    *Sym
	ids  map[int]int
	why  string
}

func (w *walk) fail(f string, x ...interface{}) bool {
	if w.why == "" {
		w.why = fmt.Sprintf(f, x...)
	}
	return false
}

func (w *walk) next(l *Lin) *Lin { return linSubst(l, w.k, linAdd(linS(w.k), linC(1))) }

func (w *walk) states() bool {
	if len(w.s.frames) != len(w.g.frames) || len(w.s.held) != len(w.g.held) {
		return w.fail("call depth")
	}
	for i, fg := range w.g.frames {
		fs := w.s.frames[i]
		for j := range fg.env {
			if !w.val(fg.env[j], fs.env[j]) {
				return w.fail("value %d of %s", j, fg.info.name)
			}
		}
		if len(fg.defers) != len(fs.defers) {
			return w.fail("deferred calls")
		}
	}
	for _, id := range w.e.initIDs {
		if w.s.heap[id] != w.g.heap[id] && !w.obj(id, id) {
			return w.fail("package variable")
		}
	}
	return true
}

func (w *walk) lin(g, s *Lin) bool {
	d := w.s.norm(linSub(w.next(g), s))
	if d.isZero() || w.s.facts.decideEQ(d) == 1 {
		return true
	}
	return w.fail("%s is not %s", s, w.next(g))
}

func (w *walk) vals(g, s []Val) bool {
	if len(g) != len(s) {
		return w.fail("length")
	}
	for i := range g {
		if !w.val(g[i], s[i]) {
			return false
		}
	}
	return true
}

func (w *walk) subst(ss []Seg) []Seg {
	var out []Seg
	for _, g := range ss {
		switch x := g.(type) {
		case SVal:
			out = segPush(out, SVal{w.next(x.L)})
		case SRng:
			out = segPush(out, SRng{x.s, w.next(x.off), w.next(x.n)})
		case SRep:
			out = segPush(out, SRep{x.pat, w.next(x.n)})
		default:
			out = segPush(out, g)
		}
	}
	return out
}

func (w *walk) segs(g, s []Seg) bool {
	if w.e.segCompare(w.s, w.subst(g), s) == 1 {
		return true
	}
	return w.fail("the bytes are %s, not %s", segStr(s), segStr(w.subst(g)))
}

func (w *walk) val(g, s Val) bool {
	switch x := g.(type) {
	case nil:
		return s == nil
	case Int:
		y, ok := s.(Int)
		return ok && w.lin(x.L, y.L)
	case Str:
		y, ok := s.(Str)
		return ok && w.segs(x.segs, y.segs)
	case *Bytes:
		y, ok := s.(*Bytes)
		return ok && w.segs(x.segs, y.segs)
	case *BufV:
		y, ok := s.(*BufV)
		return ok && x.over == y.over && w.segs(x.segs, y.segs) && w.vals(x.out, y.out)
	case *Struct:
		y, ok := s.(*Struct)
		return ok && w.vals(x.f, y.f)
	case *Arr:
		y, ok := s.(*Arr)
		return ok && w.vals(x.e, y.e)
	case *SArr:
		y, ok := s.(*SArr)
		return ok && w.lin(x.n, y.n) && w.val(x.def, y.def)
	case Tuple:
		y, ok := s.(Tuple)
		return ok && w.vals(x.e, y.e)
	case Iface:
		y, ok := s.(Iface)
		return ok && w.e.typeID(x.t) == w.e.typeID(y.t) && w.val(x.v, y.v)
	case Ref:
		y, ok := s.(Ref)
		return ok && w.path(x.path, y.path) && w.obj(x.obj, y.obj)
	case Slice:
		y, ok := s.(Slice)
		return ok && w.path(x.path, y.path) && w.lin(x.off, y.off) && w.lin(x.len, y.len) && w.lin(x.cap, y.cap) && w.obj(x.obj, y.obj)
	case *MapV:
		y, ok := s.(*MapV)
		if !ok || len(x.ent) != len(y.ent) || (x.sym == nil) != (y.sym == nil) {
			return w.fail("map")
		}
		for i := range x.ent {
			if !w.val(x.ent[i].k, y.ent[i].k) || !w.val(x.ent[i].v, y.ent[i].v) {
				return false
			}
		}
		return x.sym == nil || w.lin(x.sym.n, y.sym.n)
	case *IterV:
		y, ok := s.(*IterV)
		return ok && w.val(x.m, y.m) && w.lin(x.pos, y.pos) && w.vals(x.ks, y.ks)
	case *ChanV:
		y, ok := s.(*ChanV)
		return ok && x.closed == y.closed && w.vals(x.buf, y.buf)
	case *Lib:
		y, ok := s.(*Lib)
		return ok && x.kind == y.kind && w.vals(x.at, y.at)
	case Fn:
		y, ok := s.(Fn)
		return ok && x.f == y.f && w.vals(x.b, y.b)
	}
	if s == nil {
		return w.fail("value")
	}
	if keyOf(g) == keyOf(s) {
		return true
	}
	return w.fail("%s is not %s", valStr(s), valStr(g))
}

func (w *walk) path(g, s []pel) bool {
	if len(g) != len(s) {
		return w.fail("pointer")
	}
	for i := range g {
		if !w.lin(g[i].L(), s[i].L()) {
			return false
		}
	}
	return true
}

func (w *walk) obj(g, s int) bool {
	if p, ok := w.ids[g]; ok {
		if p != s {
			return w.fail("different objects")
		}
		return true
	}
	w.ids[g] = s
	og, os := w.g.heap[g], w.s.heap[s]
	if og == nil || os == nil {
		return og == os
	}
	return w.val(og.v, os.v)
}
