package main

import (
	"math"
	"math/big"
	"strings"
)

// When two abstract values are not known to be equal, they may still be equal for all values of the unknowns. A
// difference is only reported if there is an assignment of the unknowns, consistent with all that is known, under which
// the two values differ.

type asg struct {
	s  *State
	v  map[*Sym]*big.Int
	f  map[*Sym]float64
	no bool // something could not be evaluated
}

func (a *asg) lin(l *Lin) *big.Int {
	r := new(big.Int).Set(l.c)
	for _, t := range l.t {
		r.Add(r, new(big.Int).Mul(t.c, a.sym(t.s)))
	}
	return r
}

func srcByte(y *Sym, off *big.Int) byte {
	h := uint64(y.seq)*0x9E3779B97F4A7C15 + off.Uint64()*0xC2B2AE3D27D4EB4F
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	return byte(h >> 40)
}

func (a *asg) sym(y *Sym) *big.Int {
	if v, ok := a.v[y]; ok {
		return v
	}
	if y.Def == nil {
		a.no = true
		return bigZero
	}
	v := a.def(y)
	if !a.no {
		a.v[y] = v
	}
	return v
}

func (a *asg) arg(v Val) *big.Int {
	if i, ok := v.(Int); ok {
		return a.lin(i.L)
	}
	a.no = true
	return bigZero
}

func (a *asg) float(v Val) float64 {
	switch x := v.(type) {
	case FloatC:
		return float64(x)
	case *Sym:
		if f, ok := a.f[x]; ok {
			return f
		}
		if x.Def != nil {
			switch x.Def.Op {
			case "f32to64", "f64to32":
				return float64(float32(a.float(x.Def.Args[0])))
			case "neg":
				return -a.float(x.Def.Args[0])
			case "frombits":
				return math.Float64frombits(a.arg(x.Def.Args[0]).Uint64())
			case "frombits32":
				return float64(math.Float32frombits(uint32(a.arg(x.Def.Args[0]).Uint64())))
			}
		}
	}
	a.no = true
	return 0
}

func (a *asg) def(y *Sym) *big.Int {
	d := y.Def
	switch d.Op {
	case "byteof":
		w := wrapConst(a.arg(d.Args[0]), 8*(d.N+1), false)
		return new(big.Int).Rsh(w, uint(8*d.N))
	case "byteat":
		return big.NewInt(int64(srcByte(d.Args[0].(*Sym), a.arg(d.Args[1]))))
	case "wrapu":
		return wrapConst(a.arg(d.Args[0]), d.N, false)
	case "wraps":
		return wrapConst(a.arg(d.Args[0]), d.N, true)
	case "shr":
		return new(big.Int).Rsh(a.arg(d.Args[0]), uint(d.N))
	case "and", "&":
		return new(big.Int).And(a.arg(d.Args[0]), a.arg(d.Args[1]))
	case "|":
		return new(big.Int).Or(a.arg(d.Args[0]), a.arg(d.Args[1]))
	case "^":
		return new(big.Int).Xor(a.arg(d.Args[0]), a.arg(d.Args[1]))
	case "mul":
		return new(big.Int).Mul(a.arg(d.Args[0]), a.arg(d.Args[1]))
	case "quo", "rem":
		q := a.arg(d.Args[1])
		if q.Sign() == 0 {
			a.no = true
			return bigZero
		}
		if d.Op == "quo" {
			return new(big.Int).Quo(a.arg(d.Args[0]), q)
		}
		return new(big.Int).Rem(a.arg(d.Args[0]), q)
	case "fbits":
		return new(big.Int).SetUint64(math.Float64bits(a.float(d.Args[0])))
	case "fbits32":
		return new(big.Int).SetUint64(uint64(math.Float32bits(float32(a.float(d.Args[0])))))
	}
	a.no = true
	return bigZero
}

func (a *asg) segs(ss []Seg) (string, bool) {
	var b strings.Builder
	for _, g := range ss {
		switch x := g.(type) {
		case SLit:
			b.WriteString(string(x))
		case SVal:
			v := a.lin(x.L)
			if v.Sign() < 0 || v.Cmp(big.NewInt(255)) > 0 {
				a.no = true
				return "", false
			}
			b.WriteByte(byte(v.Uint64()))
		case SRng:
			n, o := a.lin(x.n), a.lin(x.off)
			if n.Sign() < 0 || n.Cmp(big.NewInt(1<<20)) > 0 {
				a.no = true
				return "", false
			}
			for i := int64(0); i < n.Int64(); i++ {
				b.WriteByte(srcByte(x.s, new(big.Int).Add(o, big.NewInt(i))))
			}
		case SRep:
			n := a.lin(x.n)
			if n.Sign() < 0 || n.Cmp(big.NewInt(1<<20)) > 0 {
				a.no = true
				return "", false
			}
			b.WriteString(strings.Repeat(x.pat, int(n.Int64())))
		}
		if b.Len() > 1<<21 {
			a.no = true
			return "", false
		}
	}
	return b.String(), !a.no
}

// consistent: the assignment agrees with everything known.
func (a *asg) consistent(rel map[*Sym]bool) bool {
	f := a.s.facts
	relevant := func(l *Lin) bool {
		for _, t := range l.t {
			if rel[t.s] {
				return true
			}
		}
		return false
	}
	for y, iv := range f.iv {
		if !rel[y] {
			continue
		}
		v := a.sym(y)
		if a.no || iv.lo != nil && v.Cmp(iv.lo) < 0 || iv.hi != nil && v.Cmp(iv.hi) > 0 {
			return false
		}
	}
	for _, l := range f.ge {
		if relevant(l) && (a.lin(l).Sign() < 0 || a.no) {
			return false
		}
	}
	for _, l := range f.ne {
		if relevant(l) && (a.lin(l).Sign() == 0 || a.no) {
			return false
		}
	}
	return true
}

// differ tells whether some consistent assignment makes the values differ. eval computes a comparable form.
func (e *Eng) differ(s *State, vals []Val, diff func(a *asg) bool) bool {
	rel := map[*Sym]bool{}
	var ints, floats []*Sym
	var add func(y *Sym)
	addV := func(v Val) { symsOf(v, func(y *Sym) { add(y) }) }
	add = func(y *Sym) {
		if rel[y] {
			return
		}
		rel[y] = true
		if y.Def != nil {
			for _, v := range y.Def.Args {
				if z, ok := v.(*Sym); ok {
					if z.Kind == "float" {
						add(z)
					}
					continue
				}
				addV(v)
			}
			return
		}
		switch y.Kind {
		case "int":
			ints = append(ints, y)
		case "float":
			floats = append(floats, y)
		}
	}
	for _, v := range vals {
		addV(v)
	}
	for changed := true; changed; {
		changed = false
		for _, ls := range [][]*Lin{s.facts.ge, s.facts.ne} {
			for _, l := range ls {
				hit := false
				for _, t := range l.t {
					hit = hit || rel[t.s]
				}
				if hit {
					for _, t := range l.t {
						if !rel[t.s] {
							add(t.s)
							changed = true
						}
					}
				}
			}
		}
		// defined symbols that are bounded and built from ours
		for y := range s.facts.iv {
			if rel[y] || y.Def == nil {
				continue
			}
			hit := false
			for _, v := range y.Def.Args {
				symsOf(v, func(z *Sym) { hit = hit || rel[z] })
			}
			if hit {
				add(y)
				changed = true
			}
		}
	}
	for k := range s.memo {
		m, ok := e.memoConds.Load(k)
		if !ok {
			continue
		}
		for _, v := range m.(*Cond).args {
			bad := false
			symsOf(v, func(z *Sym) { bad = bad || rel[z] })
			if bad {
				return false
			}
		}
	}
	if len(ints) > 6 {
		return false
	}
	cand := make([][]*big.Int, len(ints))
	for i, y := range ints {
		iv := s.facts.iv[y]
		lo, hi := iv.lo, iv.hi
		if lo == nil {
			lo = big.NewInt(math.MinInt64)
		}
		if hi == nil {
			hi = new(big.Int).SetUint64(math.MaxUint64)
		}
		put := func(v *big.Int) {
			if v.Cmp(lo) < 0 || v.Cmp(hi) > 0 {
				return
			}
			for _, w := range cand[i] {
				if w.Cmp(v) == 0 {
					return
				}
			}
			cand[i] = append(cand[i], v)
		}
		for _, d := range []int64{0, 1, 2, 3, 0x1234} {
			put(new(big.Int).Add(lo, big.NewInt(d)))
			put(new(big.Int).Sub(hi, big.NewInt(d)))
		}
		for _, c := range []int64{0, 1, 2, 5, 0x56, 0x89, 0x1357, -3, -0x77, 0x123456, 0x12345678, 0x123456789abcdef} {
			put(big.NewInt(c))
		}
	}
	fl := []float64{1.5, -2.25e-30, math.Pi * 1e200}
	total := 1
	for _, c := range cand {
		total *= len(c)
	}
	if total > 60000 {
		total = 60000
	}
	for n := 0; n < total; n++ {
		for _, fv := range fl {
			a := &asg{s: s, v: map[*Sym]*big.Int{}, f: map[*Sym]float64{}}
			m := n
			for i, y := range ints {
				a.v[y] = cand[i][m%len(cand[i])]
				m /= len(cand[i])
			}
			for i, y := range floats {
				a.f[y] = fv + float64(i)
			}
			if a.consistent(rel) && !a.no && diff(a) && !a.no {
				return true
			}
			if len(floats) == 0 {
				break
			}
		}
	}
	return false
}

// cmpSegs: 1 equal, 0 different (for some values of the unknowns), -1 unknown.
func (e *Eng) cmpSegs(s *State, a, b []Seg) int {
	if r := e.segCompare(s, a, b); r >= 0 {
		return r
	}
	if e.differ(s, []Val{Str{segs: a}, Str{segs: b}}, func(w *asg) bool {
		x, ok1 := w.segs(a)
		y, ok2 := w.segs(b)
		return ok1 && ok2 && x != y
	}) {
		return 0
	}
	return -1
}

func (e *Eng) cmpLin(s *State, a, b *Lin) int {
	l := s.simpBytes(s.norm(e.resolve(s, linSub(a, b))))
	if r := s.facts.decideEQ(l); r >= 0 {
		return r
	}
	if e.differ(s, []Val{Int{a}, Int{b}}, func(w *asg) bool { return w.lin(a).Cmp(w.lin(b)) != 0 }) {
		return 0
	}
	return -1
}

func and3(a, b int) int {
	if a == 0 || b == 0 {
		return 0
	}
	if a < 0 || b < 0 {
		return -1
	}
	return 1
}

// cmp compares values: 1 equal, 0 different for some values of the unknowns, -1 unknown.
func (x *Ctx) cmp(a, b Val, d int) int {
	if d > 20000 {
		return -1
	}
	if x.same(a, b, d) {
		return 1
	}
	_, na := a.(Nil)
	_, nb := b.(Nil)
	if na != nb {
		// a nil list or map is as good as an empty one
		o := a
		if na {
			o = b
		}
		switch q := o.(type) {
		case Slice:
			return x.e.cmpLin(x.s, q.len, linC(0))
		case Ref:
			if m, ok := x.s.heap[q.obj].v.(*MapV); ok && m.sym == nil && len(m.ent) == 0 {
				return 1
			}
		}
		return 0
	}
	b2i := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	switch p := a.(type) {
	case Int:
		if q, ok := b.(Int); ok {
			return x.e.cmpLin(x.s, p.L, q.L)
		}
		return 0
	case Str:
		if q, ok := b.(Str); ok {
			return x.e.cmpSegs(x.s, p.segs, q.segs)
		}
		return 0
	case FloatC, *Sym:
		switch b.(type) {
		case FloatC, *Sym:
			if x.e.differ(x.s, []Val{a, b}, func(w *asg) bool {
				return math.Float64bits(w.float(a)) != math.Float64bits(w.float(b))
			}) {
				return 0
			}
			return -1
		}
		return -1
	case Bool:
		switch q := b.(type) {
		case Bool:
			return b2i(p == q)
		case *Cond:
			return -1
		}
		return 0
	case Iface:
		q, ok := b.(Iface)
		if !ok {
			return -1
		}
		if x.e.typeID(p.t) != x.e.typeID(q.t) {
			return 0
		}
		return x.cmp(p.v, q.v, d+1)
	case *Struct:
		q, ok := b.(*Struct)
		if !ok || len(p.f) != len(q.f) {
			return 0
		}
		r := 1
		for i := range p.f {
			r = and3(r, x.cmp(p.f[i], q.f[i], d+1))
		}
		return r
	case Slice:
		q, ok := b.(Slice)
		if !ok {
			return 0
		}
		r := x.e.cmpLin(x.s, p.len, q.len)
		if r != 1 {
			return r
		}
		va := x.e.getPath(x.s, x.s.heap[p.obj].v, p.path)
		vb := x.e.getPath(x.s, x.s.heap[q.obj].v, q.path)
		_, ba := va.(*Bytes)
		_, bb := vb.(*Bytes)
		if ba && bb {
			return x.e.cmpSegs(x.s, x.e.bytesOf(x.s, p), x.e.bytesOf(x.s, q))
		}
		sa, ua := va.(*SArr)
		sb, ub := vb.(*SArr)
		if ua && ub {
			return x.cmp(sa.def, sb.def, d+1)
		}
		if !x.s.norm(p.len).isConst() || !x.s.norm(q.len).isConst() || ba != bb {
			return -1
		}
		ea, eb := x.e.elems(x.s, p), x.e.elems(x.s, q)
		if len(ea) != len(eb) {
			return -1
		}
		r = 1
		for i := range ea {
			r = and3(r, x.cmp(ea[i], eb[i], d+1))
		}
		return r
	case Ref:
		q, ok := b.(Ref)
		if !ok {
			return 0
		}
		ma, ok1 := x.s.heap[p.obj].v.(*MapV)
		mb, ok2 := x.s.heap[q.obj].v.(*MapV)
		if !ok1 || !ok2 {
			return -1
		}
		if ma.sym != nil && mb.sym != nil {
			return and3(x.e.cmpLin(x.s, ma.sym.n, mb.sym.n), and3(x.cmp(ma.sym.v, mb.sym.v, d+1), x.cmp(ma.sym.k, mb.sym.k, d+1)))
		}
		if ma.sym != nil || mb.sym != nil {
			return -1
		}
		if len(ma.ent) != len(mb.ent) {
			return 0
		}
		r := 1
	outer:
		for _, ea := range ma.ent {
			for _, eb := range mb.ent {
				if x.same(ea.k, eb.k, d+1) {
					r = and3(r, x.cmp(ea.v, eb.v, d+1))
					continue outer
				}
			}
			unk := false
			for _, eb := range mb.ent {
				if x.cmp(ea.k, eb.k, d+1) == -1 {
					unk = true
				}
			}
			if unk {
				r = and3(r, -1)
			} else {
				return 0
			}
		}
		return r
	}
	return -1
}
