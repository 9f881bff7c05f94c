package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---------- zero values ----------

func namedName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func (e *Eng) zero(t types.Type) Val {
	if v, ok := e.zeros.Load(t); ok {
		return v
	}
	v := e.zero1(t)
	e.zeros.Store(t, v)
	return v
}

func (e *Eng) zero1(t types.Type) Val {
	switch namedName(t) {
	case "bytes.Buffer", "strings.Builder":
		return &BufV{}
	case "sync.Mutex", "sync.RWMutex":
		return LockV{}
	case "time.Time":
		return TimeV{zero: true, dur: linC(0)}
	case "reflect.Value":
		return ReflV{}
	case "sync.Once", "sync.WaitGroup":
		return &Lib{kind: namedName(t)}
	case "sync/atomic.Bool", "sync/atomic.Int32", "sync/atomic.Int64", "sync/atomic.Uint32", "sync/atomic.Uint64":
		return &Lib{kind: "atomic", at: []Val{mkInt(0)}}
	case "sync/atomic.Value", "sync.Map":
		return &Lib{kind: namedName(t), at: []Val{Nil{}}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return Nil{}
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsFloat != 0:
			return FloatC(0)
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&types.IsComplex != 0:
			return FloatC(0)
		}
	case *types.Struct:
		s := &Struct{f: make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = e.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) {
			return &Bytes{segs: segPush(nil, SRep{"\x00", linC(u.Len())})}
		}
		if u.Len() > 4096 {
			return &SArr{n: linC(u.Len()), def: e.zero(u.Elem())}
		}
		a := &Arr{e: make([]Val, u.Len())}
		for i := range a.e {
			a.e[i] = e.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		var r []Val
		for i := 0; i < u.Len(); i++ {
			r = append(r, e.zero(u.At(i).Type()))
		}
		return Tuple{r}
	}
	return Nil{}
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// ---------- memory ----------

func (e *Eng) refAdd(r Val, p pel) Val {
	switch x := r.(type) {
	case Ref:
		path := make([]pel, len(x.path)+1)
		copy(path, x.path)
		path[len(x.path)] = p
		return Ref{x.obj, path}
	case Nil:
		panic(goPanic{msg: "nil pointer dereference"})
	}
	panic(unsupported{"address in " + valStr(r)})
}

func pelIdx(l *Lin) pel {
	if l.isConst() && l.c.IsInt64() {
		return pel{i: int(l.i64())}
	}
	return pel{lin: l}
}

func (p pel) L() *Lin {
	if p.lin != nil {
		return p.lin
	}
	return linC(int64(p.i))
}

func (e *Eng) load(s *State, r Val) Val {
	switch x := r.(type) {
	case Ref:
		o := s.heap[x.obj]
		if o == nil {
			panic(unsupported{"load of an unknown object"})
		}
		loc := e.noteAccess(s, o, x, false)
		v := e.getPath(s, o.v, x.path)
		if loc != "" {
			e.spread(s, v, loc)
		}
		return v
	case Nil:
		panic(goPanic{msg: "nil pointer dereference"})
	}
	panic(unsupported{"load through " + valStr(r)})
}

func (e *Eng) getPath(s *State, v Val, path []pel) Val {
	for _, p := range path {
		switch x := v.(type) {
		case *Struct:
			if p.lin != nil || p.i >= len(x.f) {
				panic(unsupported{"path into a struct"})
			}
			v = x.f[p.i]
		case *Arr:
			i := e.concretize(s, p.L(), len(x.e))
			if i < 0 || i >= len(x.e) {
				panic(unsupported{"path past the end of an array"})
			}
			v = x.e[i]
		case *SArr:
			v = x.def
		case *Bytes:
			return Int{e.byteAt(s, x.segs, p.L())}
		default:
			panic(unsupported{fmt.Sprintf("path into %s", valStr(v))})
		}
	}
	return v
}

// concretize decides which of the n indices l is.
func (e *Eng) concretize(s *State, l *Lin, n int) int {
	if l.isConst() {
		return int(l.i64())
	}
	for i := 0; i < n; i++ {
		if e.decideEQ(s, linSub(l, linC(int64(i)))) {
			return i
		}
	}
	return -1
}

func (e *Eng) store(s *State, r Val, v Val) {
	switch x := r.(type) {
	case Ref:
		o := s.heap[x.obj]
		if o == nil {
			panic(unsupported{"store to an unknown object"})
		}
		if loc := e.noteAccess(s, o, x, true); loc != "" {
			e.spread(s, v, loc)
			o = s.heap[x.obj]
		}
		if len(x.path) == 0 {
			s.set(x.obj, v)
			return
		}
		s.set(x.obj, e.setPath(s, o.v, x.path, v))
		return
	case Nil:
		panic(goPanic{msg: "nil pointer dereference"})
	}
	panic(unsupported{"store through " + valStr(r)})
}

func (e *Eng) setPath(s *State, v Val, path []pel, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch x := v.(type) {
	case *Struct:
		n := &Struct{f: append([]Val(nil), x.f...)}
		n.f[p.i] = e.setPath(s, x.f[p.i], path[1:], nv)
		return n
	case *Arr:
		i := e.concretize(s, p.L(), len(x.e))
		if i < 0 || i >= len(x.e) {
			panic(unsupported{"store past the end of an array"})
		}
		n := &Arr{e: append([]Val(nil), x.e...)}
		n.e[i] = e.setPath(s, x.e[i], path[1:], nv)
		return n
	case *SArr:
		w := e.setPath(s, x.def, path[1:], nv)
		if keyOf(w) == keyOf(x.def) {
			return v
		}
		if x.n.isConst() && x.n.i64() <= 4096 {
			n := &Arr{e: make([]Val, x.n.i64())}
			for i := range n.e {
				n.e[i] = x.def
			}
			return e.setPath(s, n, path, nv)
		}
		panic(unsupported{"store of different elements into an array of unknown length"})
	case *Bytes:
		return &Bytes{e.setByte(s, x.segs, p.L(), nv)}
	}
	panic(unsupported{fmt.Sprintf("store into %s", valStr(v))})
}

// ---------- byte content ----------

// segSplit cuts ss after at bytes.
func (e *Eng) segSplit(s *State, ss []Seg, at *Lin) ([]Seg, []Seg) {
	at = s.norm(at)
	acc := linC(0)
	var left []Seg
	for i, g := range ss {
		d := linSub(at, acc)
		if d.isZero() || (!d.isConst() && s.facts.decideEQ(d) == 1) {
			return left, append([]Seg(nil), ss[i:]...)
		}
		l := segLen1(g)
		// whole piece to the left?
		if e.decideGE(s, linSub(d, l)) {
			left = segPush(left, g)
			acc = linAdd(acc, l)
			continue
		}
		if !d.isConst() && e.decideEQ(s, d) {
			return left, append([]Seg(nil), ss[i:]...)
		}
		var a, b Seg
		switch x := g.(type) {
		case SLit:
			if !d.isConst() {
				k := e.concretize(s, d, len(x))
				if k < 0 {
					panic(endPath{"infeasible"})
				}
				d = linC(int64(k))
			}
			k := int(d.i64())
			a, b = SLit(string(x)[:k]), SLit(string(x)[k:])
		case SRng:
			if n := s.norm(x.n); !d.isConst() && n.isConst() && n.i64() <= 16 {
				k := e.concretize(s, d, int(n.i64()))
				if k < 0 {
					panic(endPath{"infeasible"})
				}
				d = linC(int64(k))
			}
			a = SRng{x.s, x.off, d}
			b = SRng{x.s, linAdd(x.off, d), linSub(x.n, d)}
		case SRep:
			m := big.NewInt(int64(len(x.pat)))
			q := &Lin{c: new(big.Int)}
			ok := true
			r := new(big.Int)
			for _, t := range d.t {
				qq, rr := new(big.Int).DivMod(t.c, m, new(big.Int))
				if rr.Sign() != 0 {
					ok = false
				}
				q = linAdd(q, linMulC(linS(t.s), qq))
			}
			if !ok {
				panic(unsupported{"cut inside a repeated pattern"})
			}
			qq, rr := new(big.Int).DivMod(d.c, m, r)
			q = linAdd(q, linB(qq))
			k := int(rr.Int64())
			left = segPush(left, SRep{x.pat, q})
			rest := linSub(x.n, q)
			var right []Seg
			if k > 0 {
				left = segPush(left, SLit(x.pat[:k]))
				right = append(right, SLit(x.pat[k:]))
				rest = linSub(rest, linC(1))
			}
			right = segPush(right, SRep{x.pat, rest})
			for _, g := range ss[i+1:] {
				right = segPush(right, g)
			}
			return left, right
		default:
			panic(unsupported{"cut inside a byte"})
		}
		left = segPush(left, a)
		right := segPush(nil, b)
		for _, g := range ss[i+1:] {
			right = segPush(right, g)
		}
		return left, right
	}
	return left, nil
}

// norm replaces symbols of known value.
func (s *State) norm(l *Lin) *Lin {
	if len(l.t) == 0 {
		return l
	}
	for _, t := range l.t {
		iv := s.facts.iv[t.s]
		if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) == 0 {
			l = linSubst(l, t.s, linB(iv.lo))
		}
	}
	return l
}

func (e *Eng) byteAt(s *State, ss []Seg, at *Lin) *Lin {
	_, r := e.segSplit(s, ss, at)
	// skip pieces that may be empty
	for len(r) > 0 {
		l := segLen1(r[0])
		if !l.isConst() && !e.decideGE(s, linSub(l, linC(1))) {
			r = r[1:]
			continue
		}
		break
	}
	if len(r) == 0 {
		if s.facts.decideGE(s.norm(linSub(linSub(segLen(ss), at), linC(1)))) == 1 {
			panic(endPath{"infeasible"})
		}
		panic(unsupported{"byte past the end"})
	}
	return e.segByte(s, r[0])
}

func (e *Eng) segByte(s *State, g Seg) *Lin {
	switch x := g.(type) {
	case SLit:
		return linC(int64(x[0]))
	case SVal:
		return x.L
	case SRep:
		return linC(int64(x.pat[0]))
	case SRng:
		if e.opts.ends && x.s.Def != nil && x.s.Def.Op == "token" {
			return linC(0)
		}
		y := s.defsym("int", "byteat", 0, x.s, Int{s.norm(x.off)})
		s.bound(y, 0, 255)
		return linS(y)
	}
	panic("segByte")
}

func (s *State) bound(y *Sym, lo, hi int64) {
	if _, ok := s.facts.iv[y]; !ok {
		s.facts.iv[y] = Iv{big.NewInt(lo), big.NewInt(hi)}
	}
}

// byteSeg is the piece for one byte of value L.
func byteSeg(l *Lin) Seg {
	if l.isConst() {
		return SLit([]byte{byte(l.i64())})
	}
	if y := l.single(); y != nil && y.Def != nil && y.Def.Op == "byteat" {
		return SRng{y.Def.Args[0].(*Sym), y.Def.Args[1].(Int).L, linC(1)}
	}
	return SVal{l}
}

func (e *Eng) setByte(s *State, ss []Seg, at *Lin, v Val) []Seg {
	i, ok := v.(Int)
	if !ok {
		panic(unsupported{"store of " + valStr(v) + " into bytes"})
	}
	l, r := e.segSplit(s, ss, at)
	_, r = e.segSplit(s, r, linC(1))
	return segCat(l, []Seg{byteSeg(i.L)}, r)
}

// bytesOf gives the content of a []byte value or string.
func (e *Eng) bytesOf(s *State, v Val) []Seg {
	switch x := v.(type) {
	case Nil:
		return nil
	case Str:
		return x.segs
	case Slice:
		e.noteSlice(s, x, false)
		arr := e.getPath(s, s.heap[x.obj].v, x.path)
		b, ok := arr.(*Bytes)
		if !ok {
			panic(unsupported{"not bytes: " + valStr(arr)})
		}
		_, r := e.segSplit(s, b.segs, x.off)
		l, _ := e.segSplit(s, r, x.len)
		return l
	}
	panic(unsupported{"bytes of " + valStr(v)})
}

func (e *Eng) newBytes(s *State, segs []Seg) Val {
	n := segLen(segs)
	id := s.alloc(&Bytes{segs}, nil, "")
	return Slice{obj: id, off: linC(0), len: n, cap: n}
}

// writeBytes stores segs into slice x starting at off (relative).
func (e *Eng) writeBytes(s *State, x Slice, off *Lin, segs []Seg) {
	e.noteSlice(s, x, true)
	o := s.heap[x.obj]
	b := e.getPath(s, o.v, x.path).(*Bytes)
	at := linAdd(x.off, off)
	l, r := e.segSplit(s, b.segs, at)
	_, r = e.segSplit(s, r, segLen(segs))
	n := &Bytes{segCat(l, segs, r)}
	s.set(x.obj, e.setPath(s, o.v, x.path, n))
}

// ---------- indexing and slicing ----------

func (e *Eng) seqLen(s *State, v Val) *Lin {
	switch x := v.(type) {
	case Nil:
		return linC(0)
	case Str:
		return segLen(x.segs)
	case Slice:
		return x.len
	case *Arr:
		return linC(int64(len(x.e)))
	case *SArr:
		return x.n
	case *Bytes:
		return segLen(x.segs)
	}
	panic(unsupported{"length of " + valStr(v)})
}

func asInt(v Val) *Lin {
	if i, ok := v.(Int); ok {
		return i.L
	}
	panic(unsupported{"integer expected: " + valStr(v)})
}

func (e *Eng) checkIndex(s *State, i, n *Lin) {
	if !e.decideGE(s, i) || !e.decideGE(s, linSub(linSub(n, i), linC(1))) {
		panic(goPanic{msg: "index out of range"})
	}
}

func (e *Eng) indexAddr(s *State, x, idx Val, t types.Type) Val {
	i := s.norm(asInt(idx))
	switch v := x.(type) {
	case Slice:
		e.checkIndex(s, i, v.len)
		path := make([]pel, len(v.path)+1)
		copy(path, v.path)
		path[len(v.path)] = pelIdx(linAdd(v.off, i))
		return Ref{v.obj, path}
	case Ref:
		n := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		e.checkIndex(s, i, linC(n))
		return e.refAdd(v, pelIdx(i))
	case Nil:
		if _, ok := t.Underlying().(*types.Slice); ok {
			panic(goPanic{msg: "index out of range"})
		}
		panic(goPanic{msg: "nil pointer dereference"})
	}
	panic(unsupported{"index into " + valStr(x)})
}

func (e *Eng) index(s *State, x, idx Val) Val {
	i := s.norm(asInt(idx))
	e.checkIndex(s, i, e.seqLen(s, x))
	switch v := x.(type) {
	case Str:
		return Int{e.byteAt(s, v.segs, i)}
	default:
		return e.getPath(s, x, []pel{pelIdx(i)})
	}
}

func (e *Eng) slice(s *State, f *Frame, x *ssa.Slice) Val {
	v := e.val(s, f, x.X)
	opt := func(o ssa.Value) *Lin {
		if o == nil {
			return nil
		}
		return s.norm(asInt(e.val(s, f, o)))
	}
	lo, hi, max := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = linC(0)
	}
	chk := func(c bool) {
		if !c {
			panic(goPanic{msg: "slice bounds out of range"})
		}
	}
	switch b := v.(type) {
	case Str:
		n := segLen(b.segs)
		if hi == nil {
			hi = n
		}
		chk(e.decideGE(s, lo) && e.decideGE(s, linSub(hi, lo)) && e.decideGE(s, linSub(n, hi)))
		_, r := e.segSplit(s, b.segs, lo)
		l, _ := e.segSplit(s, r, linSub(hi, lo))
		return Str{segs: l, taint: b.taint}
	case Slice:
		if hi == nil {
			hi = b.len
		}
		if max == nil {
			max = b.cap
		} else {
			chk(e.decideGE(s, linSub(b.cap, max)))
		}
		chk(e.decideGE(s, lo) && e.decideGE(s, linSub(hi, lo)) && e.decideGE(s, linSub(max, hi)))
		return Slice{b.obj, b.path, linAdd(b.off, lo), linSub(hi, lo), linSub(max, lo)}
	case Ref: // pointer to array
		n := linC(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		if max == nil {
			max = n
		}
		chk(e.decideGE(s, lo) && e.decideGE(s, linSub(hi, lo)) && e.decideGE(s, linSub(max, hi)) && e.decideGE(s, linSub(n, max)))
		return Slice{b.obj, b.path, lo, linSub(hi, lo), linSub(max, lo)}
	case Nil:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			panic(goPanic{msg: "nil pointer dereference"})
		}
		if hi == nil {
			hi = linC(0)
		}
		chk(e.decideGE(s, lo) && e.decideGE(s, linSub(hi, lo)) && e.decideGE(s, linNeg(hi)))
		return Nil{}
	}
	panic(unsupported{"slice of " + valStr(v)})
}

func (e *Eng) makeSlice(s *State, elem types.Type, ln, cp Val) Val {
	n, c := s.norm(asInt(ln)), s.norm(asInt(cp))
	if !e.decideGE(s, n) {
		panic(goPanic{msg: "makeslice: len out of range"})
	}
	if !e.decideGE(s, linSub(c, n)) {
		panic(goPanic{msg: "makeslice: cap out of range"})
	}
	e.onAlloc(s, c)
	if !c.isConst() && !isByte(elem) {
		if iv := s.facts.eval(c); iv.hi != nil && iv.hi.Cmp(big.NewInt(15)) <= 0 {
			k := e.concretize(s, c, 16)
			if k < 0 {
				panic(endPath{"infeasible"})
			}
			c = linC(int64(k))
			n = s.norm(n)
		}
	}
	var v Val
	switch {
	case isByte(elem):
		v = &Bytes{segPush(nil, SRep{"\x00", c})}
	case c.isConst() && c.i64() <= 256:
		a := &Arr{e: make([]Val, c.i64())}
		for i := range a.e {
			a.e[i] = e.zero(elem)
		}
		v = a
	default:
		v = &SArr{n: c, def: e.zero(elem)}
	}
	return Slice{obj: s.alloc(v, nil, ""), off: linC(0), len: n, cap: c}
}

func (e *Eng) reserve(s *State, v Val) { e.onAlloc(s, asInt(v)) }

// onAlloc checks an allocation size against the ghost bound, if one is set.
func (e *Eng) onAlloc(s *State, n *Lin) {
	if !s.top().info.inRepo {
		return
	}
	b, props := e.allocBound(s)
	if b == nil {
		return
	}
	if n = s.norm(n); n.isConst() && n.c.Cmp(big.NewInt(64)) <= 0 {
		return
	}
	e.obligation(props + "|an allocation is bounded by the size of the message")
	if !e.decideGE(s, linSub(b, n)) {
		e.report(s, props, "violated", "allocates room for more elements than the message has bytes")
		panic(endPath{"violation"})
	}
}

func (e *Eng) elems(s *State, v Val) []Val {
	switch x := v.(type) {
	case Nil:
		return nil
	case Slice:
		arr := e.getPath(s, s.heap[x.obj].v, x.path)
		off, ln := s.norm(x.off), s.norm(x.len)
		if !off.isConst() || !ln.isConst() {
			panic(unsupported{"elements of a slice of unknown length"})
		}
		switch a := arr.(type) {
		case *Arr:
			return a.e[off.i64() : off.i64()+ln.i64()]
		case *SArr:
			r := make([]Val, ln.i64())
			for i := range r {
				r[i] = a.def
			}
			return r
		case *Bytes:
			var r []Val
			for i := int64(0); i < ln.i64(); i++ {
				r = append(r, Int{e.byteAt(s, a.segs, linC(off.i64()+i))})
			}
			return r
		}
	}
	panic(unsupported{"elements of " + valStr(v)})
}

func (e *Eng) newSlice(s *State, el []Val) Val {
	n := linC(int64(len(el)))
	return Slice{obj: s.alloc(&Arr{e: append([]Val(nil), el...)}, nil, ""), off: linC(0), len: n, cap: n}
}

func (e *Eng) appendTo(s *State, a, b Val, t types.Type) Val {
	elem := t.Underlying().(*types.Slice).Elem()
	if isByte(elem) {
		add := e.bytesOf(s, b)
		n := segLen(add)
		if n.isZero() {
			return a
		}
		if x, ok := a.(Slice); ok {
			if e.decideGE(s, linSub(linSub(x.cap, x.len), n)) {
				e.writeBytes(s, x, x.len, add)
				return Slice{x.obj, x.path, x.off, linAdd(x.len, n), x.cap}
			}
		}
		cur := e.bytesOf(s, a)
		return e.newBytes(s, segCat(cur, add))
	}
	bn := s.norm(e.seqLen(s, b))
	if bn.isZero() {
		return a
	}
	x, isSlice := a.(Slice)
	// uniform contents of unknown length
	room := false
	if isSlice && len(x.path) == 0 {
		if _, ok := s.heap[x.obj].v.(*SArr); ok {
			room = s.facts.decideGE(s.norm(linSub(linSub(x.cap, x.len), bn))) == 1
		}
	}
	if u, ok := e.uniform(s, b); ok && !room && (!bn.isConst() || (isSlice && !s.norm(x.len).isConst())) {
		def := u
		al := linC(0)
		if isSlice {
			al = x.len
			if ua, ok := e.uniform(s, a); !ok || keyOf(ua) != keyOf(u) {
				panic(unsupported{"append of different elements to a slice of unknown length"})
			}
		}
		n := linAdd(al, bn)
		return Slice{obj: s.alloc(&SArr{n: n, def: def}, nil, ""), off: linC(0), len: n, cap: n}
	}
	add := e.elems(s, b)
	if isSlice {
		if e.decideGE(s, linSub(linSub(x.cap, x.len), bn)) {
			e.noteSlice(s, x, true)
			o := s.heap[x.obj]
			arr := e.getPath(s, o.v, x.path)
			off := linAdd(x.off, x.len)
			if sa, ok := arr.(*SArr); ok {
				if u, ok := e.uniform(s, b); ok && len(x.path) == 0 {
					if x.len.isZero() && x.off.isZero() && keyOf(u) != keyOf(sa.def) {
						sa = &SArr{n: sa.n, def: u}
						s.set(x.obj, sa)
					}
					if keyOf(u) == keyOf(sa.def) {
						return Slice{x.obj, x.path, x.off, linAdd(x.len, bn), x.cap}
					}
				}
				if !sa.n.isConst() || sa.n.i64() > 4096 {
					panic(unsupported{"append into an array of unknown length"})
				}
				na := &Arr{e: make([]Val, sa.n.i64())}
				for i := range na.e {
					na.e[i] = sa.def
				}
				arr = na
			}
			aa := arr.(*Arr)
			n := &Arr{e: append([]Val(nil), aa.e...)}
			for i, v := range add {
				n.e[int(off.i64())+i] = v
			}
			s.set(x.obj, e.setPath(s, o.v, x.path, n))
			return Slice{x.obj, x.path, x.off, linAdd(x.len, bn), x.cap}
		}
	}
	cur := e.elems(s, a)
	need := len(cur) + len(add)
	cp := need
	if isSlice {
		if oc := int(x.cap.i64()) * 2; oc > cp {
			cp = oc
		}
	}
	n := &Arr{e: make([]Val, cp)}
	copy(n.e, cur)
	copy(n.e[len(cur):], add)
	for i := need; i < cp; i++ {
		n.e[i] = e.zero(elem)
	}
	return Slice{obj: s.alloc(n, nil, ""), off: linC(0), len: linC(int64(need)), cap: linC(int64(cp))}
}

// uniform tells whether all elements are the same value.
func (e *Eng) uniform(s *State, v Val) (Val, bool) {
	x, ok := v.(Slice)
	if !ok {
		return nil, false
	}
	switch a := e.getPath(s, s.heap[x.obj].v, x.path).(type) {
	case *SArr:
		return a.def, true
	case *Arr:
		if len(a.e) == 0 || !x.off.isConst() || !x.len.isConst() {
			return nil, false
		}
		el := a.e[x.off.i64() : x.off.i64()+x.len.i64()]
		if len(el) == 0 {
			return nil, false
		}
		for _, y := range el[1:] {
			if keyOf(y) != keyOf(el[0]) {
				return nil, false
			}
		}
		return el[0], true
	}
	return nil, false
}

// ---------- maps ----------

func (e *Eng) mapOf(s *State, v Val) *MapV {
	switch x := v.(type) {
	case Nil:
		return &MapV{}
	case Ref:
		if m, ok := s.heap[x.obj].v.(*MapV); ok {
			return m
		}
	}
	panic(unsupported{"map expected: " + valStr(v)})
}

func (e *Eng) noteMap(s *State, v Val, write bool) {
	if x, ok := v.(Ref); ok && e.opts.lockset {
		e.noteAccess(s, s.heap[x.obj], x, write)
	}
}

func (e *Eng) mapFind(s *State, m *MapV, k Val) int {
	for i, en := range m.ent {
		if e.decide(s, e.eq(s, en.k, k)) {
			return i
		}
	}
	return -1
}

func (e *Eng) mapLookup(s *State, mv, k Val, x *ssa.Lookup) Val {
	if _, ok := x.X.Type().Underlying().(*types.Basic); ok { // string index
		i := s.norm(asInt(k))
		e.checkIndex(s, i, e.seqLen(s, mv))
		return Int{e.byteAt(s, mv.(Str).segs, i)}
	}
	e.noteMap(s, mv, false)
	m := e.mapOf(s, mv)
	if i, ok := k.(Iface); ok {
		e.hashable(i)
	}
	if m.sym != nil {
		panic(unsupported{"lookup in a map of unknown size"})
	}
	et := x.X.Type().Underlying().(*types.Map).Elem()
	i := e.mapFind(s, m, k)
	var v Val
	if i >= 0 {
		v = m.ent[i].v
	} else {
		v = e.zero(et)
	}
	if x.CommaOk {
		return Tuple{[]Val{v, Bool(i >= 0)}}
	}
	return v
}

func (e *Eng) hashable(i Iface) {
	if !types.Comparable(i.t) {
		panic(goPanic{msg: "runtime error: hash of unhashable type " + i.t.String()})
	}
}

func (e *Eng) mapUpdate(s *State, mv, k, v Val) {
	if _, ok := mv.(Nil); ok {
		panic(goPanic{msg: "assignment to entry in nil map"})
	}
	if i, ok := k.(Iface); ok {
		e.hashable(i)
	}
	e.noteMap(s, mv, true)
	m := e.mapOf(s, mv)
	if m.sym != nil {
		panic(unsupported{"update of a map of unknown size"})
	}
	i := e.mapFind(s, m, k)
	n := &MapV{ent: append([]ment(nil), m.ent...)}
	if i >= 0 {
		n.ent[i].v = v
	} else {
		n.ent = append(n.ent, ment{k, v})
	}
	s.set(mv.(Ref).obj, n)
}

func (e *Eng) rangeOver(s *State, v Val) Val {
	it := &IterV{m: v, pos: linC(0)}
	if st, ok := v.(Str); ok {
		if _, ok := st.constant(); !ok {
			panic(unsupported{"range over an unknown string"})
		}
	} else {
		e.noteMap(s, v, false)
		m := e.mapOf(s, v)
		for _, en := range m.ent {
			it.ks = append(it.ks, en.k)
		}
	}
	return Ref{obj: s.alloc(it, nil, "")}
}

func (e *Eng) next(s *State, r Val, x *ssa.Next) Val {
	ref := r.(Ref)
	it := s.heap[ref.obj].v.(*IterV)
	if x.IsString {
		c, _ := it.m.(Str).constant()
		p := int(it.pos.i64())
		if p >= len(c) {
			return Tuple{[]Val{Bool(false), mkInt(0), mkInt(0)}}
		}
		ru, w := utf8.DecodeRuneInString(c[p:])
		s.set(ref.obj, &IterV{m: it.m, pos: linC(int64(p + w))})
		return Tuple{[]Val{Bool(true), mkInt(int64(p)), mkInt(int64(ru))}}
	}
	m := e.mapOf(s, it.m)
	tt := x.Type().(*types.Tuple)
	zk, zv := e.zeroOrNil(tt.At(1).Type()), e.zeroOrNil(tt.At(2).Type())
	if m.sym != nil {
		if e.decideGE(s, linSub(linSub(m.sym.n, it.pos), linC(1))) {
			s.set(ref.obj, &IterV{m: it.m, pos: linAdd(it.pos, linC(1))})
			return Tuple{[]Val{Bool(true), m.sym.k, m.sym.v}}
		}
		return Tuple{[]Val{Bool(false), zk, zv}}
	}
	p := int(it.pos.i64())
	for p < len(it.ks) {
		i := -1
		for j, en := range m.ent {
			if keyOf(en.k) == keyOf(it.ks[p]) {
				i = j
				break
			}
		}
		p++
		if i >= 0 {
			k, v := it.ks[p-1], m.ent[i].v
			s.set(ref.obj, &IterV{m: it.m, pos: linC(int64(p)), ks: it.ks})
			return Tuple{[]Val{Bool(true), k, v}}
		}
	}
	return Tuple{[]Val{Bool(false), zk, zv}}
}

func (e *Eng) zeroOrNil(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Nil{}
	}
	return e.zero(t)
}

// ---------- channels ----------

func (e *Eng) chanOf(s *State, v Val) (*ChanV, int) {
	if r, ok := v.(Ref); ok {
		if c, ok := s.heap[r.obj].v.(*ChanV); ok {
			return c, r.obj
		}
	}
	if _, ok := v.(Nil); ok {
		panic(blocked{"waits on a nil channel for ever"})
	}
	panic(unsupported{"channel expected: " + valStr(v)})
}

func (e *Eng) send(s *State, ch, v Val) {
	c, id := e.chanOf(s, ch)
	if c.closed {
		panic(goPanic{msg: "send on closed channel"})
	}
	if len(c.buf) >= c.cap {
		panic(blocked{"waits for room in a full channel"})
	}
	s.set(id, &ChanV{buf: append(append([]Val(nil), c.buf...), v), cap: c.cap, closed: c.closed})
}

func (e *Eng) recv(s *State, ch Val, elem types.Type) (Val, bool) {
	c, id := e.chanOf(s, ch)
	e.noteRecv(s, id)
	if len(c.buf) == 0 {
		if c.closed {
			return e.zero(elem), false
		}
		panic(blocked{"waits on an empty channel"})
	}
	v := c.buf[0]
	s.set(id, &ChanV{buf: append([]Val(nil), c.buf[1:]...), cap: c.cap, closed: c.closed})
	return v, true
}

func (e *Eng) selectOp(s *State, f *Frame, x *ssa.Select) Val {
	var ready []int
	for i, st := range x.States {
		chv := e.val(s, f, st.Chan)
		if _, ok := chv.(Nil); ok {
			continue
		}
		if l, ok := chv.(Ref); ok {
			if lib, ok := s.heap[l.obj].v.(*Lib); ok && lib.kind == "timer" {
				ready = append(ready, i)
				continue
			}
		}
		c, _ := e.chanOf(s, chv)
		if st.Dir == types.SendOnly {
			if c.closed || len(c.buf) < c.cap {
				ready = append(ready, i)
			}
		} else if c.closed || len(c.buf) > 0 {
			ready = append(ready, i)
		}
	}
	res := []Val{mkInt(-1), Bool(false)}
	for _, st := range x.States {
		if st.Dir == types.RecvOnly {
			res = append(res, e.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	if len(ready) == 0 {
		if x.Blocking {
			panic(blocked{"waits in a select for ever"})
		}
		return Tuple{res}
	}
	k := ready[0]
	if len(ready) > 1 {
		k = ready[e.choose(s, len(ready), "select")]
	}
	st := x.States[k]
	res[0] = mkInt(int64(k))
	chv := e.val(s, f, st.Chan)
	if st.Dir == types.SendOnly {
		e.send(s, chv, e.val(s, f, st.Send))
		return Tuple{res}
	}
	v, ok := e.recv(s, chv, st.Chan.Type().Underlying().(*types.Chan).Elem())
	res[1] = Bool(ok)
	j := 2
	for i, q := range x.States {
		if q.Dir == types.RecvOnly {
			if i == k {
				res[j] = v
			}
			j++
		}
	}
	return Tuple{res}
}

func (e *Eng) choose(s *State, n int, label string) int {
	if n <= 1 {
		return 0
	}
	if s.cix < len(s.choices) {
		s.cix++
		return s.choices[s.cix-1]
	}
	panic(needChoice{n, label})
}

// ---------- operators ----------

func (e *Eng) unop(s *State, f *Frame, x *ssa.UnOp) Val {
	v := e.val(s, f, x.X)
	switch x.Op {
	case token.MUL:
		return e.load(s, v)
	case token.NOT:
		return notV(v)
	case token.SUB:
		switch y := v.(type) {
		case Int:
			return e.fit(s, linNeg(y.L), x.Type())
		case FloatC:
			return -y
		case *Sym:
			return s.defsym("float", "neg", 0, y)
		}
	case token.XOR:
		if i, ok := v.(Int); ok {
			return e.fit(s, linSub(linNeg(i.L), linC(1)), x.Type())
		}
	case token.ARROW:
		r, ok := e.recv(s, v, x.X.Type().Underlying().(*types.Chan).Elem())
		if x.CommaOk {
			return Tuple{[]Val{r, Bool(ok)}}
		}
		return r
	}
	panic(unsupported{"operator " + x.Op.String() + " on " + valStr(v)})
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

// width gives bits and signedness of an integer type.
func width(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

func rangeOf(bits int, signed bool) (lo, hi *big.Int) {
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Lsh(one, uint(bits-1))
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, one)
		return
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
}

func wrapConst(c *big.Int, bits int, signed bool) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	r := new(big.Int).Mod(c, m)
	if signed && r.Bit(bits-1) == 1 {
		r.Sub(r, m)
	}
	return r
}

// fit brings an arithmetic result into the range of type t.
func (e *Eng) fit(s *State, l *Lin, t types.Type) Val {
	b := basicOf(t)
	if b == nil || b.Info()&types.IsInteger == 0 {
		return Int{l}
	}
	bits, signed := width(b)
	l = s.simpBytes(s.norm(l))
	if l.isConst() {
		return Int{linB(wrapConst(l.c, bits, signed))}
	}
	return Int{e.wrap(s, l, bits, signed, bits < 64)}
}

// wrap is l modulo 2^bits. With fork, out-of-range values are told apart; without, l is taken to be in range.
func (e *Eng) wrap(s *State, l *Lin, bits int, signed, fork bool) *Lin {
	if bits == 8 && !signed {
		if y := l.single(); y != nil && y.Def != nil && y.Def.Op == "shr" && y.Def.N%8 == 0 {
			return e.byteOf(s, y.Def.Args[0].(Int).L, y.Def.N/8)
		}
	}
	lo, hi := rangeOf(bits, signed)
	iv := s.facts.eval(l)
	if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(lo) >= 0 && iv.hi.Cmp(hi) <= 0 {
		return l
	}
	if !fork {
		if !signed && iv.hi != nil && iv.hi.Sign() < 0 {
			return e.wrapSym(s, l, bits, signed)
		}
		return l
	}
	if e.decideGE(s, linSub(l, linB(lo))) && e.decideGE(s, linSub(linB(hi), l)) {
		return l
	}
	return e.wrapSym(s, l, bits, signed)
}

func (e *Eng) wrapSym(s *State, l *Lin, bits int, signed bool) *Lin {
	// wrap(wrap(x)) = wrap(x) for no fewer bits
	if y := l.single(); y != nil && y.Def != nil && (y.Def.Op == "wrapu" || y.Def.Op == "wraps") && y.Def.N >= bits {
		l = y.Def.Args[0].(Int).L
		lo, hi := rangeOf(bits, signed)
		iv := s.facts.eval(l)
		if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(lo) >= 0 && iv.hi.Cmp(hi) <= 0 {
			return l
		}
	}
	lo, hi := rangeOf(bits, signed)
	// a known multiple of 2^bits away?
	iv := s.facts.eval(l)
	if iv.lo != nil && iv.hi != nil {
		m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
		q := new(big.Int).Div(new(big.Int).Sub(iv.lo, lo), m)
		q2 := new(big.Int).Div(new(big.Int).Sub(iv.hi, lo), m)
		if q.Cmp(q2) == 0 {
			return linSub(l, linB(new(big.Int).Mul(q, m)))
		}
	}
	op := "wrapu"
	if signed {
		op = "wraps"
	}
	y := s.defsym("int", op, bits, Int{l})
	if _, ok := s.facts.iv[y]; !ok {
		s.facts.iv[y] = Iv{lo, hi}
	}
	return linS(y)
}

// resolve replaces symbols that stand for a wrapped number by the number, where what is known by now tells how it wraps.
func (e *Eng) resolve(s *State, l *Lin) *Lin {
	for _, t := range l.t {
		d := t.s.Def
		if d == nil || d.Op != "wrapu" && d.Op != "wraps" {
			continue
		}
		a := s.norm(d.Args[0].(Int).L)
		iv := s.facts.eval(a)
		if iv.lo == nil || iv.hi == nil {
			continue
		}
		lo, _ := rangeOf(d.N, d.Op == "wraps")
		m := new(big.Int).Lsh(big.NewInt(1), uint(d.N))
		q := new(big.Int).Div(new(big.Int).Sub(iv.lo, lo), m)
		if q.Cmp(new(big.Int).Div(new(big.Int).Sub(iv.hi, lo), m)) == 0 {
			l = linSubst(l, t.s, linSub(a, linB(new(big.Int).Mul(q, m))))
		}
	}
	return l
}

// byteOf is byte number j (0 is the lowest) of l.
func (e *Eng) byteOf(s *State, l *Lin, j int) *Lin {
	l = s.norm(l)
	if l.isConst() {
		w := wrapConst(l.c, 8*(j+1), false)
		return linB(new(big.Int).Rsh(w, uint(8*j)))
	}
	for {
		y := l.single()
		if y != nil && y.Def != nil && (y.Def.Op == "wrapu" || y.Def.Op == "wraps") && y.Def.N >= 8*(j+1) {
			l = y.Def.Args[0].(Int).L
			continue
		}
		// x - 2^k has the same low bytes
		if len(l.t) > 0 && l.c.Sign() != 0 {
			m := new(big.Int).Lsh(big.NewInt(1), uint(8*(j+1)))
			if new(big.Int).Mod(l.c, m).Sign() == 0 {
				l = linSub(l, linB(l.c))
				continue
			}
		}
		break
	}
	if j == 0 {
		iv := s.facts.eval(l)
		if iv.lo != nil && iv.hi != nil {
			a := new(big.Int).Rsh(iv.lo, 8)
			b := new(big.Int).Rsh(iv.hi, 8)
			if d := new(big.Int).Sub(b, a); d.Cmp(big.NewInt(1)) == 0 {
				b.Lsh(b, 8)
				if e.decideGE(s, linSub(l, linB(b))) {
					return linSub(l, linB(b))
				}
			} else if d.Sign() != 0 {
				a = nil
			}
			if a != nil {
				return linSub(l, linB(new(big.Int).Lsh(a, 8)))
			}
		}
	} else {
		iv := s.facts.eval(l)
		if iv.lo != nil && iv.hi != nil {
			a := new(big.Int).Rsh(iv.lo, uint(8*j))
			b := new(big.Int).Rsh(iv.hi, uint(8*j))
			if a.Cmp(b) == 0 {
				return linB(new(big.Int).And(a, big.NewInt(255)))
			}
		}
	}
	y := s.defsym("int", "byteof", j, Int{l})
	s.bound(y, 0, 255)
	return linS(y)
}

// simpBytes turns a sum of the bytes of a number back into the number.
func (s *State) simpBytes(l *Lin) *Lin {
	for _, t := range l.t {
		// what is known by now may tell what the byte is
		d := t.s.Def
		if d == nil || d.Op != "byteof" {
			continue
		}
		base := s.norm(d.Args[0].(Int).L)
		iv := s.facts.eval(base)
		if iv.lo == nil || iv.hi == nil {
			continue
		}
		j := uint(8 * d.N)
		a, b := new(big.Int).Rsh(iv.lo, j), new(big.Int).Rsh(iv.hi, j)
		if a.Cmp(b) == 0 {
			l = linSubst(l, t.s, linB(new(big.Int).And(a, big.NewInt(255))))
		} else if a.Rsh(a, 8); d.N == 0 && a.Cmp(b.Rsh(b, 8)) == 0 {
			l = linSubst(l, t.s, linSub(base, linB(a.Lsh(a, 8))))
		}
	}
	if len(l.t) < 2 {
		return l
	}
	for _, t := range l.t {
		if t.s.Def == nil || t.s.Def.Op != "byteof" || t.s.Def.N != 0 {
			continue
		}
		base := t.s.Def.Args[0].(Int).L
		rest := l
		n := 0
		c := t.c
		for j := 0; j < 8; j++ {
			found := false
			for _, u := range rest.t {
				if u.s.Def != nil && u.s.Def.Op == "byteof" && u.s.Def.N == j && u.s.Def.Args[0].(Int).L.eq(base) && u.c.Cmp(c) == 0 {
					rest = linComb(rest, linS(u.s), new(big.Int).Neg(c))
					found = true
					break
				}
			}
			if !found {
				break
			}
			n++
			c = new(big.Int).Lsh(c, 8)
		}
		if n < 1 {
			continue
		}
		// higher bytes may be known
		iv := s.facts.eval(base)
		if iv.lo != nil && iv.hi != nil && n >= 1 {
			a := new(big.Int).Rsh(iv.lo, uint(8*n))
			b := new(big.Int).Rsh(iv.hi, uint(8*n))
			if a.Cmp(b) == 0 {
				// base = a*256^n + low bytes
				low := linSub(base, linB(new(big.Int).Lsh(a, uint(8*n))))
				return s.simpBytes(linComb(rest, low, t.c))
			}
		}
	}
	return l
}

func (e *Eng) binop(s *State, op token.Token, a, b Val, t, rt types.Type) Val {
	switch op {
	case token.EQL:
		return e.eq(s, a, b)
	case token.NEQ:
		return notV(e.eq(s, a, b))
	}
	switch x := a.(type) {
	case Int:
		y, ok := b.(Int)
		if !ok {
			break
		}
		return e.intop(s, op, x.L, y.L, t, rt)
	case Str:
		y, ok := b.(Str)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return Str{segCat(x.segs, y.segs), unionTaint(x.taint, y.taint)}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			c, ok1 := x.constant()
			d, ok2 := y.constant()
			if ok1 && ok2 {
				switch op {
				case token.LSS:
					return Bool(c < d)
				case token.LEQ:
					return Bool(c <= d)
				case token.GTR:
					return Bool(c > d)
				default:
					return Bool(c >= d)
				}
			}
			return &Cond{op: "str" + op.String(), args: []Val{a, b}}
		}
	case FloatC:
		if y, ok := b.(FloatC); ok {
			switch op {
			case token.ADD:
				return x + y
			case token.SUB:
				return x - y
			case token.MUL:
				return x * y
			case token.QUO:
				return x / y
			case token.LSS:
				return Bool(x < y)
			case token.LEQ:
				return Bool(x <= y)
			case token.GTR:
				return Bool(x > y)
			case token.GEQ:
				return Bool(x >= y)
			}
		}
	case Bool, *Cond:
		switch op {
		case token.AND:
			return Bool(e.decide(s, a) && e.decide(s, b))
		case token.OR:
			return Bool(e.decide(s, a) || e.decide(s, b))
		}
	}
	if isFloatVal(a) || isFloatVal(b) {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return &Cond{op: "float" + op.String(), args: []Val{a, b}}
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return s.defsym("float", "float"+op.String(), 0, a, b)
		}
	}
	panic(unsupported{"operator " + op.String() + " on " + valStr(a) + " and " + valStr(b)})
}

func isFloatVal(v Val) bool {
	if y, ok := v.(*Sym); ok {
		return y.Kind == "float"
	}
	return false
}

func (e *Eng) intop(s *State, op token.Token, a, b *Lin, t, rt types.Type) Val {
	a, b = s.norm(a), s.norm(b)
	switch op {
	case token.ADD:
		return e.fit(s, linAdd(a, b), rt)
	case token.SUB:
		return e.fit(s, linSub(a, b), rt)
	case token.MUL:
		if b.isConst() {
			return e.fit(s, linMulC(a, b.c), rt)
		}
		if a.isConst() {
			return e.fit(s, linMulC(b, a.c), rt)
		}
		y := s.defsym("int", "mul", 0, Int{a}, Int{b})
		e.typeBound(s, y, rt)
		return Int{linS(y)}
	case token.LSS:
		return condGE(linSub(linSub(b, a), linC(1)))
	case token.LEQ:
		return condGE(linSub(b, a))
	case token.GTR:
		return condGE(linSub(linSub(a, b), linC(1)))
	case token.GEQ:
		return condGE(linSub(a, b))
	case token.QUO, token.REM:
		if e.decideEQ(s, b) {
			panic(goPanic{msg: "integer divide by zero"})
		}
		if a.isConst() && b.isConst() {
			q, r := new(big.Int).QuoRem(a.c, b.c, new(big.Int))
			if op == token.QUO {
				return e.fit(s, linB(q), rt)
			}
			return Int{linB(r)}
		}
		if b.isConst() && b.c.Sign() > 0 && e.decideGE(s, a) {
			if n := b.c.BitLen() - 1; n > 0 && n%8 == 0 && int(b.c.TrailingZeroBits()) == n {
				if op == token.QUO {
					return Int{e.shr(s, a, n)}
				} else if n == 8 {
					return Int{e.byteOf(s, a, 0)}
				}
			}
			q := s.defsym("int", "quo", 0, Int{a}, Int{b})
			r := s.defsym("int", "rem", 0, Int{a}, Int{b})
			if _, ok := s.facts.iv[r]; !ok {
				s.facts.iv[r] = Iv{big.NewInt(0), new(big.Int).Sub(b.c, big.NewInt(1))}
				s.facts.iv[q] = Iv{big.NewInt(0), nil}
				// a = b*q + r
				l := linSub(linSub(a, linMulC(linS(q), b.c)), linS(r))
				s.facts.addEQ(l)
			}
			if op == token.QUO {
				return Int{linS(q)}
			}
			return Int{linS(r)}
		}
		y := s.defsym("int", op.String(), 0, Int{a}, Int{b})
		e.typeBound(s, y, rt)
		return Int{linS(y)}
	case token.SHL:
		if b.isConst() {
			n := b.i64()
			if n < 0 {
				panic(goPanic{msg: "negative shift amount"})
			}
			if n > 64 {
				return mkInt(0)
			}
			m := new(big.Int).Lsh(big.NewInt(1), uint(n))
			return e.fit(s, linMulC(a, m), rt)
		}
	case token.SHR:
		if b.isConst() {
			n := b.i64()
			if a.isConst() {
				return Int{linB(new(big.Int).Rsh(a.c, uint(n)))}
			}
			if n == 0 {
				return Int{a}
			}
			return Int{e.shr(s, a, int(n))}
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if a.isConst() && b.isConst() {
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(a.c, b.c)
			case token.OR:
				r.Or(a.c, b.c)
			case token.XOR:
				r.Xor(a.c, b.c)
			default:
				r.AndNot(a.c, b.c)
			}
			return e.fit(s, linB(r), rt)
		}
		if a.isConst() && op != token.AND_NOT {
			a, b = b, a
		}
		if op == token.AND && b.isConst() && b.c.Sign() >= 0 {
			// mask of low bits
			m := new(big.Int).Add(b.c, big.NewInt(1))
			if m.TrailingZeroBits() == uint(m.BitLen()-1) {
				k := m.BitLen() - 1
				iv := s.facts.eval(a)
				if iv.lo != nil && iv.hi != nil && iv.lo.Sign() >= 0 && iv.hi.Cmp(b.c) <= 0 {
					return Int{a}
				}
				if k == 8 {
					if y := a.single(); y != nil && y.Def != nil && y.Def.Op == "shr" && y.Def.N%8 == 0 {
						return Int{e.byteOf(s, y.Def.Args[0].(Int).L, y.Def.N/8)}
					}
					return Int{e.byteOf(s, a, 0)}
				}
				if k%8 == 0 {
					return Int{e.wrap(s, a, k, false, true)}
				}
			}
			y := s.defsym("int", "and", 0, Int{a}, Int{b})
			if _, ok := s.facts.iv[y]; !ok {
				s.facts.iv[y] = Iv{big.NewInt(0), b.c}
			}
			return Int{linS(y)}
		}
		if op == token.OR || op == token.XOR {
			// disjoint bits: addition
			if e.disjoint(s, a, b) || e.disjoint(s, b, a) {
				return e.fit(s, linAdd(a, b), rt)
			}
		}
		y := s.defsym("int", op.String(), 0, Int{a}, Int{b})
		e.typeBound(s, y, rt)
		return Int{linS(y)}
	}
	y := s.defsym("int", op.String(), 0, Int{a}, Int{b})
	e.typeBound(s, y, rt)
	return Int{linS(y)}
}

func (e *Eng) typeBound(s *State, y *Sym, t types.Type) {
	if b := basicOf(t); b != nil {
		if _, ok := s.facts.iv[y]; !ok {
			lo, hi := rangeOf(width(b))
			s.facts.iv[y] = Iv{lo, hi}
		}
	}
}

func (e *Eng) shr(s *State, a *Lin, n int) *Lin {
	y := a.single()
	if y != nil && y.Def != nil && y.Def.Op == "shr" {
		return e.shr(s, y.Def.Args[0].(Int).L, n+y.Def.N)
	}
	iv := s.facts.eval(a)
	var lo, hi *big.Int
	if iv.lo != nil {
		lo = new(big.Int).Rsh(iv.lo, uint(n))
	}
	if iv.hi != nil {
		hi = new(big.Int).Rsh(iv.hi, uint(n))
	}
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return linB(lo)
	}
	if n%8 == 0 && lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(255)) <= 0 {
		return e.byteOf(s, a, n/8)
	}
	r := s.defsym("int", "shr", n, Int{a})
	if _, ok := s.facts.iv[r]; !ok {
		s.facts.iv[r] = Iv{lo, hi}
	}
	return linS(r)
}

// disjoint: hi is a multiple of 2^k and 0 <= lo < 2^k
func (e *Eng) disjoint(s *State, hi, lo *Lin) bool {
	iv := s.facts.eval(lo)
	if iv.lo == nil || iv.hi == nil || iv.lo.Sign() < 0 {
		return false
	}
	k := uint(iv.hi.BitLen())
	m := new(big.Int).Lsh(big.NewInt(1), k)
	if new(big.Int).Mod(hi.c, m).Sign() != 0 {
		return false
	}
	for _, t := range hi.t {
		if new(big.Int).Mod(t.c, m).Sign() != 0 {
			return false
		}
	}
	return true
}

// eq compares two values: Bool or *Cond.
func (e *Eng) eq(s *State, a, b Val) Val {
	switch x := a.(type) {
	case Nil:
		switch b.(type) {
		case Nil:
			return Bool(true)
		case *Sym:
			return &Cond{op: "isnil", args: []Val{b}}
		}
		return Bool(false)
	case Int:
		if y, ok := b.(Int); ok {
			l := linSub(x.L, y.L)
			if !l.isConst() {
				l = s.simpBytes(s.norm(l))
			}
			return condEQ(l)
		}
	case Bool:
		switch y := b.(type) {
		case Bool:
			return Bool(x == y)
		case *Cond:
			if x {
				return y
			}
			return y.not()
		}
	case *Cond:
		switch y := b.(type) {
		case Bool:
			return e.eq(s, y, x)
		case *Cond:
			return Bool(e.decide(s, x) == e.decide(s, y))
		}
	case FloatC:
		if y, ok := b.(FloatC); ok {
			return Bool(x == y)
		}
		return &Cond{op: "feq", args: []Val{a, b}}
	case Str:
		if y, ok := b.(Str); ok {
			return e.strEq(s, x, y)
		}
	case *Struct:
		if y, ok := b.(*Struct); ok {
			for i := range x.f {
				if !e.decide(s, e.eq(s, x.f[i], y.f[i])) {
					return Bool(false)
				}
			}
			return Bool(true)
		}
	case *Arr:
		if y, ok := b.(*Arr); ok {
			for i := range x.e {
				if !e.decide(s, e.eq(s, x.e[i], y.e[i])) {
					return Bool(false)
				}
			}
			return Bool(true)
		}
	case *Bytes:
		if y, ok := b.(*Bytes); ok {
			return e.strEq(s, Str{segs: x.segs}, Str{segs: y.segs})
		}
	case Ref:
		switch y := b.(type) {
		case Ref:
			if x.obj != y.obj || len(x.path) != len(y.path) {
				return Bool(false)
			}
			for i := range x.path {
				if !e.decideEQ(s, linSub(x.path[i].L(), y.path[i].L())) {
					return Bool(false)
				}
			}
			return Bool(true)
		case Nil:
			return Bool(false)
		}
	case Slice:
		if _, ok := b.(Nil); ok {
			return Bool(false)
		}
	case Fn:
		if _, ok := b.(Nil); ok {
			return Bool(false)
		}
	case Iface:
		switch y := b.(type) {
		case Nil:
			return Bool(false)
		case Iface:
			if e.typeID(x.t) != e.typeID(y.t) {
				return Bool(false)
			}
			if !types.Comparable(x.t) {
				panic(goPanic{msg: "runtime error: comparing uncomparable type " + x.t.String()})
			}
			return e.eq(s, x.v, y.v)
		}
	case TypV:
		if y, ok := b.(TypV); ok {
			return Bool(types.Identical(x.t, y.t))
		}
		return Bool(false)
	case TimeV:
		if y, ok := b.(TimeV); ok {
			if x.zero || y.zero {
				return Bool(x.zero && y.zero)
			}
			if x.seq == y.seq {
				return condEQ(linSub(x.dur, y.dur))
			}
			return Bool(false)
		}
	case *Lib:
		if y, ok := b.(*Lib); ok {
			return Bool(x == y)
		}
		return Bool(false)
	case *Sym:
		if y, ok := b.(*Sym); ok && x == y && x.Kind != "float" {
			return Bool(true)
		}
		if _, ok := b.(Nil); ok {
			return &Cond{op: "isnil", args: []Val{a}}
		}
		return &Cond{op: "symeq", args: []Val{a, b}}
	}
	if y, ok := b.(*Sym); ok {
		return &Cond{op: "symeq", args: []Val{y, a}}
	}
	panic(unsupported{"comparison of " + valStr(a) + " and " + valStr(b)})
}

func (e *Eng) strEq(s *State, x, y Str) Val {
	c, ok1 := x.constant()
	d, ok2 := y.constant()
	if ok1 && ok2 {
		return Bool(c == d)
	}
	if segsEq(x.segs, y.segs) {
		return Bool(true)
	}
	lx, ly := segLen(x.segs), segLen(y.segs)
	dl := linSub(lx, ly)
	if s.facts.decideEQ(dl) == 0 {
		return Bool(false)
	}
	if (ok1 && c == "") || (ok2 && d == "") {
		return condEQ(dl)
	}
	// normalise and compare piecewise
	if r := e.segCompare(s, x.segs, y.segs); r >= 0 {
		return Bool(r == 1)
	}
	k1, k2 := keyOf(Str{segs: x.segs}), keyOf(Str{segs: y.segs})
	if k1 > k2 {
		x, y = y, x
	}
	return &Cond{op: "streq", args: []Val{Str{segs: x.segs}, Str{segs: y.segs}}}
}

// segCompare: 1 equal, 0 different, -1 unknown. Does not fork.
func (e *Eng) segCompare(s *State, a, b []Seg) int {
	a, b = s.normSegs(e, a), s.normSegs(e, b)
	if segsEq(a, b) {
		return 1
	}
	if p, ok := segConst(a); ok {
		if q, ok := segConst(b); ok {
			if p == q {
				return 1
			}
			return 0
		}
	}
	unknown := false
	for len(a) > 0 && len(b) > 0 {
		la, lb := segLen1(a[0]), segLen1(b[0])
		n := la
		d := linSub(la, lb)
		if s.facts.decideEQ(d) == 1 {
		} else if s.facts.decideGE(linNeg(d)) == 1 {
			n = la
		} else if s.facts.decideGE(d) == 1 {
			n = lb
		} else {
			return -1
		}
		var ok bool
		var ha, hb Seg
		if ha, a, ok = takeSeg(a, n); !ok {
			return -1
		}
		if hb, b, ok = takeSeg(b, n); !ok {
			return -1
		}
		switch r := e.seg1Compare(s, ha, hb); r {
		case 0:
			return 0
		case -1:
			unknown = true
		}
	}
	rest := append(append([]Seg(nil), a...), b...)
	if len(rest) > 0 {
		switch s.facts.decideEQ(segLen(rest)) {
		case 0:
			return 0
		case -1:
			return -1
		}
	}
	if unknown {
		return -1
	}
	return 1
}

// takeSeg takes n bytes off the first piece (n is at most its length).
func takeSeg(ss []Seg, n *Lin) (Seg, []Seg, bool) {
	g := ss[0]
	l := segLen1(g)
	if l.eq(n) {
		return g, ss[1:], true
	}
	switch x := g.(type) {
	case SRng:
		return SRng{x.s, x.off, n}, append([]Seg{SRng{x.s, linAdd(x.off, n), linSub(x.n, n)}}, ss[1:]...), true
	case SLit:
		if n.isConst() && int(n.i64()) < len(x) {
			k := int(n.i64())
			return SLit(string(x)[:k]), append([]Seg{SLit(string(x)[k:])}, ss[1:]...), true
		}
	case SRep:
		if len(x.pat) == 1 {
			return SRep{x.pat, n}, append([]Seg{SRep{x.pat, linSub(x.n, n)}}, ss[1:]...), true
		}
		if n.isConst() && n.i64()%int64(len(x.pat)) == 0 {
			k := linC(n.i64() / int64(len(x.pat)))
			return SRep{x.pat, k}, append([]Seg{SRep{x.pat, linSub(x.n, k)}}, ss[1:]...), true
		}
		if k := linDiv(n, int64(len(x.pat))); k != nil {
			return SRep{x.pat, k}, append([]Seg{SRep{x.pat, linSub(x.n, k)}}, ss[1:]...), true
		}
	}
	return nil, nil, false
}

func (e *Eng) seg1Compare(s *State, a, b Seg) int {
	if e.opts.ends {
		zero := func(g Seg) Seg {
			if r, ok := g.(SRng); ok && r.s.Def != nil && r.s.Def.Op == "token" && r.n.isConst() {
				return SLit(make([]byte, r.n.i64()))
			}
			return g
		}
		if _, ok := a.(SLit); ok {
			b = zero(b)
		} else if _, ok := b.(SLit); ok {
			a = zero(a)
		}
	}
	if segsEq([]Seg{a}, []Seg{b}) {
		return 1
	}
	ca, oka := segConst([]Seg{a})
	cb, okb := segConst([]Seg{b})
	if oka && okb {
		if ca == cb {
			return 1
		}
		return 0
	}
	if x, ok := a.(SRep); ok {
		if y, ok := b.(SRep); ok && x.pat == y.pat {
			return s.facts.decideEQ(linSub(x.n, y.n))
		}
	}
	if x, ok := a.(SRng); ok {
		if y, ok := b.(SRng); ok && x.s == y.s && s.facts.decideEQ(linSub(x.off, y.off)) == 1 {
			return 1
		}
	}
	one := func(g Seg) *Lin {
		switch x := g.(type) {
		case SVal:
			return x.L
		case SLit:
			if len(x) == 1 {
				return linC(int64(x[0]))
			}
		case SRng:
			if x.n.isConst() && x.n.i64() == 1 {
				return e.segByte(s, x)
			}
		}
		return nil
	}
	if la, lb := one(a), one(b); la != nil && lb != nil {
		return s.facts.decideEQ(linSub(e.byteOf(s, la, 0), e.byteOf(s, lb, 0)))
	}
	return -1
}

func (s *State) normSegs(e *Eng, ss []Seg) []Seg {
	var out []Seg
	for _, g := range ss {
		switch x := g.(type) {
		case SVal:
			l := s.norm(x.L)
			if y := l.single(); y != nil && y.Def != nil && y.Def.Op == "byteof" {
				l = e.byteOf(s, y.Def.Args[0].(Int).L, y.Def.N)
			}
			out = segPush(out, byteSeg(l))
		case SRng:
			n := s.norm(x.n)
			if !n.isConst() && s.facts.decideEQ(n) == 1 {
				n = linC(0)
			}
			out = segPush(out, SRng{x.s, s.norm(x.off), n})
		case SRep:
			n := s.norm(x.n)
			if !n.isConst() && s.facts.decideEQ(n) == 1 {
				n = linC(0)
			}
			out = segPush(out, SRep{x.pat, n})
		default:
			out = segPush(out, g)
		}
	}
	return out
}

// ---------- conversions ----------

func (e *Eng) convert(s *State, v Val, from, to types.Type) Val {
	if tp, ok := to.(*types.TypeParam); ok {
		_ = tp
		return v
	}
	tb, fb := basicOf(to), basicOf(from)
	if tb != nil && fb != nil {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			i, ok := v.(Int)
			if !ok {
				break
			}
			bits, signed := width(tb)
			fbits, fsigned := width(fb)
			l := s.norm(i.L)
			if l.isConst() {
				return Int{linB(wrapConst(l.c, bits, signed))}
			}
			if bits == 8 && !signed {
				if y := l.single(); y != nil && y.Def != nil && y.Def.Op == "shr" && y.Def.N%8 == 0 {
					return Int{e.byteOf(s, y.Def.Args[0].(Int).L, y.Def.N/8)}
				}
			}
			if fsigned == signed && fbits <= bits {
				return Int{l}
			}
			if bits == 8 && !signed {
				return Int{e.byteOf(s, l, 0)}
			}
			return Int{e.wrap(s, l, bits, signed, true)}
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			i := v.(Int)
			if i.L.isConst() {
				return cstr(string(rune(i.L.i64())))
			}
			panic(unsupported{"rune to string"})
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			i := v.(Int)
			if i.L.isConst() {
				x, _ := new(big.Float).SetInt(i.L.c).Float64()
				if tb.Kind() == types.Float32 {
					x = float64(float32(x))
				}
				return FloatC(x)
			}
			return s.defsym("float", "itof"+tb.Name(), 0, v)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			if c, ok := v.(FloatC); ok && math.Abs(float64(c)) < 1<<62 {
				bits, signed := width(tb)
				return Int{linB(wrapConst(big.NewInt(int64(c)), bits, signed))}
			}
			y := s.defsym("int", "ftoi"+tb.Name(), 0, v)
			e.typeBound(s, y, to)
			return Int{linS(y)}
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			if c, ok := v.(FloatC); ok {
				if tb.Kind() == types.Float32 {
					return FloatC(float32(c))
				}
				return c
			}
			if fb.Kind() == tb.Kind() {
				return v
			}
			if tb.Kind() == types.Float32 {
				return s.defsym("float", "f64to32", 0, v)
			}
			return s.defsym("float", "f32to64", 0, v)
		case fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer:
			return v
		}
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if sl, ok := from.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
			return Str{segs: e.bytesOf(s, v)}
		}
		if sl, ok := from.Underlying().(*types.Slice); ok && basicOf(sl.Elem()) != nil {
			var rs []rune
			for _, x := range e.elems(s, v) {
				l := asInt(x)
				if !l.isConst() {
					panic(unsupported{"runes to string"})
				}
				rs = append(rs, rune(l.i64()))
			}
			return cstr(string(rs))
		}
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && fb != nil && fb.Info()&types.IsString != 0 {
		st := v.(Str)
		if isByte(sl.Elem()) {
			return e.newBytes(s, st.segs)
		}
		if c, ok := st.constant(); ok {
			var el []Val
			for _, r := range c {
				el = append(el, mkInt(int64(r)))
			}
			return e.newSlice(s, el)
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	if basicOf(to) != nil && basicOf(to).Kind() == types.UnsafePointer {
		return v
	}
	panic(unsupported{"conversion from " + from.String() + " to " + to.String()})
}

func (e *Eng) implements(t types.Type, i *types.Interface) bool {
	return types.Implements(t, i)
}

func (e *Eng) typeAssert(s *State, x *ssa.TypeAssert, v Val) Val {
	ok := false
	var r Val
	switch y := v.(type) {
	case Nil:
	case Iface:
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = e.implements(y.t, it)
			r = v
		} else {
			ok = e.typeID(y.t) == e.typeID(x.AssertedType)
			r = y.v
		}
	default:
		panic(unsupported{"type assertion on " + valStr(v)})
	}
	if x.CommaOk {
		if !ok {
			r = e.zero(x.AssertedType)
		}
		return Tuple{[]Val{r, Bool(ok)}}
	}
	if !ok {
		panic(goPanic{msg: "interface conversion: not a " + x.AssertedType.String()})
	}
	return r
}

func (e *Eng) constInt(s *State, v Val) (int, bool) {
	i, ok := v.(Int)
	if !ok {
		return 0, false
	}
	l := s.norm(i.L)
	if !l.isConst() || !l.c.IsInt64() {
		return 0, false
	}
	return int(l.i64()), true
}

// ---------- builtins ----------

func (e *Eng) builtin(s *State, f *Frame, b *ssa.Builtin, c *ssa.CallCommon, a []Val) Val {
	switch b.Name() {
	case "len":
		switch x := a[0].(type) {
		case Ref:
			switch m := s.heap[x.obj].v.(type) {
			case *MapV:
				e.noteMap(s, x, false)
				if m.sym != nil {
					return Int{m.sym.n}
				}
				return mkInt(int64(len(m.ent)))
			case *ChanV:
				return mkInt(int64(len(m.buf)))
			}
			if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				return mkInt(p.Elem().Underlying().(*types.Array).Len())
			}
		}
		return Int{e.seqLen(s, a[0])}
	case "cap":
		switch x := a[0].(type) {
		case Nil:
			return mkInt(0)
		case Slice:
			return Int{x.cap}
		case Ref:
			if ch, ok := s.heap[x.obj].v.(*ChanV); ok {
				return mkInt(int64(ch.cap))
			}
		}
	case "append":
		if len(a) == 1 {
			return a[0]
		}
		return e.appendTo(s, a[0], a[1], c.Args[0].Type())
	case "copy":
		return e.copyTo(s, a[0], a[1], c.Args[0].Type())
	case "delete":
		if _, ok := a[0].(Nil); ok {
			return Tuple{}
		}
		e.noteMap(s, a[0], true)
		m := e.mapOf(s, a[0])
		i := e.mapFind(s, m, a[1])
		if i >= 0 {
			n := &MapV{}
			n.ent = append(n.ent, m.ent[:i]...)
			n.ent = append(n.ent, m.ent[i+1:]...)
			s.set(a[0].(Ref).obj, n)
		}
		return Tuple{}
	case "clear":
		if r, ok := a[0].(Ref); ok {
			if _, ok := s.heap[r.obj].v.(*MapV); ok {
				s.set(r.obj, &MapV{})
			}
		}
		return Tuple{}
	case "close":
		ch, id := e.chanOf(s, a[0])
		if ch.closed {
			panic(goPanic{msg: "close of closed channel"})
		}
		s.set(id, &ChanV{buf: ch.buf, cap: ch.cap, closed: true})
		return Tuple{}
	case "recover":
		if s.pan != nil && f.isDefer {
			v := s.pan.v
			if v == nil {
				v = Iface{types.Typ[types.String], cstr(s.pan.msg)}
			}
			s.pan = nil
			s.recov = true
			return v
		}
		return Nil{}
	case "panic":
		panic(goPanic{v: a[0], msg: "panic: " + valStr(a[0])})
	case "print", "println":
		return Tuple{}
	case "min", "max":
		r := a[0]
		for _, v := range a[1:] {
			x, y := asInt(r), asInt(v)
			d := linSub(x, y)
			if b.Name() == "max" {
				d = linNeg(d)
			}
			if e.decideGE(s, d) {
				r = v
			}
		}
		return r
	case "ssa:wrapnilchk":
		if _, ok := a[0].(Nil); ok {
			panic(goPanic{msg: "nil pointer dereference: method of a nil pointer"})
		}
		return a[0]
	}
	panic(unsupported{"builtin " + b.Name()})
}

func (e *Eng) copyTo(s *State, dst, src Val, t types.Type) Val {
	n := e.seqLen(s, src)
	m := e.seqLen(s, dst)
	if !e.decideGE(s, linSub(m, n)) {
		n = m
	}
	n = s.norm(n)
	if n.isZero() {
		return mkInt(0)
	}
	d, ok := dst.(Slice)
	if !ok {
		return mkInt(0)
	}
	if isByte(t.Underlying().(*types.Slice).Elem()) {
		seg := e.bytesOf(s, src)
		seg, _ = e.segSplit(s, seg, n)
		e.writeBytes(s, d, linC(0), seg)
		return Int{n}
	}
	if u, ok := e.uniform(s, src); ok {
		if w, ok := e.uniform(s, dst); ok && keyOf(u) == keyOf(w) {
			return Int{n}
		}
	}
	if !n.isConst() || !d.off.isConst() {
		panic(unsupported{"copy of unknown length"})
	}
	el := e.elems(s, src)[:n.i64()]
	e.noteSlice(s, d, true)
	o := s.heap[d.obj]
	arr, ok := e.getPath(s, o.v, d.path).(*Arr)
	if !ok {
		panic(unsupported{"copy into an array of unknown length"})
	}
	na := &Arr{e: append([]Val(nil), arr.e...)}
	copy(na.e[d.off.i64():], el)
	s.set(d.obj, e.setPath(s, o.v, d.path, na))
	return Int{n}
}

var _ = strconv.Itoa
