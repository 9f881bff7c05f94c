package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"
)

// setupModelIntrinsics defines the transfer functions of the primitives declared in models/api.go.
func (e *Eng) setupModelIntrinsics() {
	m := map[string]intrinsic{}
	unit := Val(Tuple{})
	m["Choose"] = func(x *Ctx, a []Val) Val {
		n, ok := x.e.constInt(x.s, a[0])
		if !ok {
			panic(unsupported{"choice of an unknown number"})
		}
		if n <= 0 {
			panic(endPath{"no choice"})
		}
		return mkInt(int64(x.e.choose(x.s, n, "")))
	}
	m["Violate"] = func(x *Ctx, a []Val) Val {
		msg := x.cs(a[1])
		x.e.report(x.s, x.cs(a[0]), "violation", msg)
		panic(endPath{"violation"})
	}
	m["Check"] = func(x *Ctx, a []Val) Val {
		ok := x.dec(a[1])
		msg := x.cs(a[2])
		x.e.obligation(x.cs(a[0]) + "|" + msg)
		if !ok {
			if !x.e.report(x.s, x.cs(a[0]), "violated", msg) {
				panic(endPath{"violation"})
			}
			x.s.strayed = true
		}
		return unit
	}
	m["Expect"] = func(x *Ctx, a []Val) Val {
		ok := x.dec(a[1])
		msg := x.cs(a[2])
		x.e.obligation(x.cs(a[0]) + "|" + msg)
		if !ok {
			x.e.report(x.s, x.cs(a[0]), "violated", msg)
		}
		return unit
	}
	m["Note"] = func(x *Ctx, a []Val) Val {
		if c, ok := x.cstr(a[0]); ok {
			x.s.note(c)
		} else {
			t := ""
			for _, g := range x.s.normSegs(x.e, a[0].(Str).segs) {
				if c, ok := segConst([]Seg{g}); ok {
					t += c
				} else if r, ok := g.(SRng); ok {
					t += "<" + r.s.Name + ">"
				} else {
					t += "<" + segStr([]Seg{g}) + ">"
				}
			}
			x.s.note(t)
		}
		return unit
	}
	m["NoteI"] = func(x *Ctx, a []Val) Val { x.s.note(x.cs(a[0]) + " " + valStr(a[1])); return unit }
	m["Assume"] = func(x *Ctx, a []Val) Val {
		if !x.dec(a[0]) {
			panic(endPath{"assume"})
		}
		return unit
	}
	m["Stop"] = func(x *Ctx, a []Val) Val { panic(endPath{"stop"}) }
	m["PanicProps"] = func(x *Ctx, a []Val) Val { x.s.props = x.cs(a[0]); return unit }
	m["BlockProps"] = func(x *Ctx, a []Val) Val { x.s.bprops = x.cs(a[0]); return unit }
	m["Phase"] = func(x *Ctx, a []Val) Val { x.s.phase = x.cs(a[0]); return unit }
	m["Covered"] = func(x *Ctx, a []Val) Val {
		k := x.cs(a[0])
		if _, ok := x.e.cover.Load(k); !ok {
			x.e.cover.Store(k, true)
		}
		return unit
	}
	m["Tick"] = func(x *Ctx, a []Val) Val { x.s.epoch++; return unit }
	m["IsNowPlus"] = func(x *Ctx, a []Val) Val {
		t := a[0].(TimeV)
		if t.zero || t.seq != x.s.epoch {
			return Bool(false)
		}
		return condEQ(x.s.norm(linSub(t.dur, asInt(a[1]))))
	}
	m["IsNowUpTo"] = func(x *Ctx, a []Val) Val {
		t := a[0].(TimeV)
		if t.zero || t.seq != x.s.epoch || !x.ge(linSub(t.dur, linC(1))) {
			return Bool(false)
		}
		return Bool(x.ge(x.s.norm(linSub(asInt(a[1]), t.dur))))
	}
	sym := func(x *Ctx, kind string, n Val, lo, hi Val) Val {
		y := newSym(kind, x.cs(n))
		l, h := asInt(lo), asInt(hi)
		x.s.facts.iv[y] = Iv{l.c, h.c}
		return Int{linS(y)}
	}
	m["SymInt"] = func(x *Ctx, a []Val) Val { return sym(x, "int", a[0], a[1], a[2]) }
	m["SymUint"] = func(x *Ctx, a []Val) Val { return sym(x, "int", a[0], a[1], a[2]) }
	m["SymBool"] = func(x *Ctx, a []Val) Val { return &Cond{op: "bool", args: []Val{newSym("bool", x.cs(a[0]))}} }
	m["SymFloat"] = func(x *Ctx, a []Val) Val { return newSym("float", x.cs(a[0])) }
	m["SymFloat32"] = func(x *Ctx, a []Val) Val { return newSym("float", x.cs(a[0])) }
	rng := func(x *Ctx, a []Val) []Seg {
		y := newSym("str", x.cs(a[0]))
		lo, hi := asInt(a[1]), asInt(a[2])
		if lo.eq(hi) {
			return segPush(nil, SRng{y, linC(0), lo})
		}
		n := newSym("int", x.cs(a[0])+".len")
		x.s.facts.iv[n] = Iv{lo.c, hi.c}
		return []Seg{SRng{y, linC(0), linS(n)}}
	}
	m["SymStr"] = func(x *Ctx, a []Val) Val { return Str{segs: rng(x, a)} }
	m["SymText"] = func(x *Ctx, a []Val) Val {
		sg := rng(x, []Val{a[0], mkInt(1), mkInt(64)})
		y := sg[0].(SRng).s
		y.Typ, y.Taint = "hole", []string{x.cs(a[0])}
		return Str{segs: sg, taint: y.Taint}
	}
	m["SymDec"] = func(x *Ctx, a []Val) Val {
		sg := rng(x, []Val{cstr("digits"), mkInt(1), mkInt(20)})
		y := sg[0].(SRng).s
		y.Typ, y.Def = "hole", &Def{Op: "dec", Args: []Val{a[0], Int{sg[0].(SRng).n}}}
		return Str{segs: sg}
	}
	m["SymBytes"] = func(x *Ctx, a []Val) Val { return x.nb(rng(x, a)) }
	m["Token"] = func(x *Ctx, a []Val) Val {
		y := newSym("val", "token")
		y.Def = &Def{Op: "token", Args: []Val{a[0]}}
		return x.nb([]Seg{SRng{y, linC(0), linC(2)}})
	}
	m["Untoken"] = func(x *Ctx, a []Val) Val {
		b := x.s.normSegs(x.e, x.bytes(a[0]))
		if len(b) == 1 {
			if r, ok := b[0].(SRng); ok && r.s.Def != nil && r.s.Def.Op == "token" && r.off.isZero() && r.n.isConst() && r.n.i64() == 2 {
				return tup(r.s.Def.Args[0], Bool(true))
			}
		}
		return tup(Nil{}, Bool(false))
	}
	find := func(method string) intrinsic {
		return func(x *Ctx, a []Val) Val {
			var look func(v Val, d int) Val
			look = func(v Val, d int) Val {
				switch y := v.(type) {
				case *Struct:
					for _, f := range y.f {
						if r := look(f, d); r != nil {
							return r
						}
					}
				case Ref:
					if d > 0 {
						return look(x.e.getPath(x.s, x.s.heap[y.obj].v, y.path), d-1)
					}
				case Iface:
					if x.e.prog.LookupMethod(y.t, nil, method) != nil {
						return y
					}
				}
				return nil
			}
			r := look(a[0], 1)
			if r == nil {
				panic(unsupported{"no interface with a method " + method + " in " + valStr(a[0])})
			}
			return r
		}
	}
	m["WriterOf"] = find("Write")
	m["ReaderOf"] = find("Read")
	m["NetOf"] = func(x *Ctx, a []Val) Val {
		// breadth first: the nearest one
		seen := map[int]bool{}
		queue := []Val{a[0]}
		for len(queue) > 0 {
			v := queue[0]
			queue = queue[1:]
			switch y := v.(type) {
			case *Struct:
				queue = append(queue, y.f...)
			case Iface:
				queue = append(queue, y.v)
			case Ref:
				if n := types.TypeString(x.s.heap[y.obj].typ, nil); n == "vmodels.Net" && len(y.path) == 0 {
					return y
				}
				if !seen[y.obj] {
					seen[y.obj] = true
					queue = append(queue, x.e.getPath(x.s, x.s.heap[y.obj].v, y.path))
				}
			}
		}
		return Nil{}
	}
	m["Mark"] = func(x *Ctx, a []Val) Val {
		if i, ok := a[0].(Iface); ok {
			x.e.markObj(x.s, i.v, x.cs(a[1]))
		}
		return unit
	}
	m["Held"] = func(x *Ctx, a []Val) Val { return Bool(len(x.s.held) > 0) }
	m["IsFmtFull"] = func(x *Ctx, a []Val) Val { return Bool(x.e.opts.fmtFull) }
	m["Text"] = func(x *Ctx, a []Val) Val {
		return x.text(a[0].(Str), x.e.elems(x.s, a[1]), x.e.elems(x.s, a[2]), x.dec(a[3]))
	}
	m["NotOwn"] = func(x *Ctx, a []Val) Val {
		f, ok := segConst(x.s.normSegs(x.e, a[0].(Str).segs))
		if !ok {
			return Bool(false)
		}
		n := int(x.i(a[1]).c.Int64())
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			sharp := false
			for i++; i < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[i]) >= 0; i++ {
				sharp = sharp || f[i] == '#'
			}
			if i >= len(f) || f[i] == '%' {
				continue
			}
			if n == 0 {
				return Bool(sharp || f[i] == 'T' || f[i] == 'p')
			}
			n--
		}
		return Bool(false)
	}
	m["Contains"] = func(x *Ctx, a []Val) Val {
		st, su := a[0].(Str), a[1].(Str)
		plain := func(t Str) string {
			var b strings.Builder
			for _, g := range x.s.normSegs(x.e, t.segs) {
				if c, ok := segConst([]Seg{g}); ok {
					b.WriteString(c)
				} else if r, ok := g.(SRng); ok && r.s.Typ == "hole" {
					b.WriteString(hole(r.s))
				} else {
					b.WriteString("\x00?\x00")
				}
			}
			return b.String()
		}
		if sub := plain(su); strings.Contains(plain(st), sub) {
			return Bool(true)
		}
		if len(su.segs) != 1 {
			return Bool(false) // several pieces: not a secret as such
		}
		for _, t := range st.taint {
			if c, ok := x.cstr(su); ok && t == c {
				return Bool(true)
			}
			if inTaint(su.taint, t) {
				return Bool(true)
			}
		}
		return Bool(false)
	}
	m["Same"] = func(x *Ctx, a []Val) Val { return Bool(x.same(a[0], a[1], 0)) }
	m["Cmp"] = func(x *Ctx, a []Val) Val { return mkInt(int64(x.cmp(a[0], a[1], 0))) }
	m["Undecided"] = func(x *Ctx, a []Val) Val {
		x.e.report(x.s, "*", "undecided", x.cs(a[0]))
		panic(endPath{"undecided"})
	}
	m["Describe"] = func(x *Ctx, a []Val) Val { return cstr(x.describe(a[0], 0)) }
	m["AllocBound"] = func(x *Ctx, a []Val) Val {
		x.s.allocB = x.i(a[0])
		x.s.boundP = x.cs(a[1])
		return unit
	}
	m["NilList"] = func(x *Ctx, a []Val) Val {
		n := x.i(a[0])
		return Slice{obj: x.s.alloc(&SArr{n: n, def: Nil{}}, nil, ""), off: linC(0), len: n, cap: n}
	}
	m["Repeat"] = func(x *Ctx, a []Val) Val {
		pat, ok := segConst(x.s.normSegs(x.e, x.bytes(a[0])))
		if !ok {
			panic(unsupported{"unknown pattern"})
		}
		return x.nb(segPush(nil, SRep{pat, x.i(a[1])}))
	}
	m["NilMap"] = func(x *Ctx, a []Val) Val {
		return Ref{obj: x.s.alloc(&MapV{sym: &symMap{n: x.i(a[0]), k: cstr("k"), v: Nil{}}}, nil, "")}
	}
	m["FirstDiff"] = func(x *Ctx, a []Val) Val {
		return cstr("got " + segStr(x.s.normSegs(x.e, x.bytes(a[0]))) + ", want " + segStr(x.s.normSegs(x.e, x.bytes(a[1]))))
	}
	m["PutNum"] = func(x *Ctx, a []Val) Val {
		i, ok := a[0].(Iface)
		if !ok {
			panic(unsupported{"binary form of nil"})
		}
		v, t := i.v, i.t
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
			v = x.e.load(x.s, v)
		}
		n := numSize(t)
		var l *Lin
		b := basicOf(t)
		switch {
		case b.Info()&types.IsFloat != 0:
			name := "math.Float64bits"
			if n == 4 {
				name = "math.Float32bits"
			}
			l = asInt(x.e.intr[name](x, []Val{v}))
		case b.Info()&types.IsBoolean != 0:
			l = linC(0)
			if x.dec(v) {
				l = linC(1)
			}
		default:
			l = x.i(v)
		}
		var segs []Seg
		for j := 0; j < n; j++ {
			k := n - 1 - j
			if x.dec(a[1]) {
				k = j
			}
			segs = segPush(segs, byteSeg(x.e.byteOf(x.s, l, k)))
		}
		return x.nb(segs)
	}
	m["NumSize"] = func(x *Ctx, a []Val) Val {
		i, ok := a[0].(Iface)
		if !ok {
			return mkInt(-1)
		}
		t := i.t
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			panic(unsupported{"binary form of " + t.String()})
		case *types.Slice:
			panic(unsupported{"binary form of " + t.String()})
		}
		return mkInt(int64(numSize(t)))
	}
	m["SetNum"] = func(x *Ctx, a []Val) Val {
		i := a[0].(Iface)
		t := i.t.Underlying().(*types.Pointer).Elem()
		segs := x.bytes(a[1])
		n := numSize(t)
		bs := make([]*Lin, n) // lowest first
		for j := 0; j < n; j++ {
			k := n - 1 - j
			if x.dec(a[2]) {
				k = j
			}
			bs[k] = x.e.byteAt(x.s, segs, linC(int64(j)))
		}
		l := x.fromBytes(bs)
		b := basicOf(t)
		switch {
		case b.Info()&types.IsFloat != 0:
			name := "math.Float64frombits"
			if n == 4 {
				name = "math.Float32frombits"
			}
			x.e.store(x.s, i.v, x.e.intr[name](x, []Val{Int{l}}))
		case b.Info()&types.IsBoolean != 0:
			x.e.store(x.s, i.v, notV(condEQ(l)))
		default:
			bits, signed := width(b)
			l = x.s.norm(l)
			if l.isConst() {
				x.e.store(x.s, i.v, Int{linB(wrapConst(l.c, bits, signed))})
			} else if n == 1 && signed {
				x.e.store(x.s, i.v, Int{x.e.wrap(x.s, l, bits, signed, true)})
			} else {
				x.e.store(x.s, i.v, Int{x.e.wrapNF(x.s, l, bits, signed)})
			}
		}
		return unit
	}
	m["IsLittle"] = func(x *Ctx, a []Val) Val {
		i, ok := a[0].(Iface)
		if !ok {
			panic(goPanic{msg: "nil pointer dereference: byte order"})
		}
		n := strings.ToLower(i.t.String())
		return Bool(!strings.Contains(n, "big"))
	}
	m["OnceDone"] = func(x *Ctx, a []Val) Val {
		r := a[0].(Iface).v.(Ref)
		o := x.s.heap[r.obj]
		l := x.e.getPath(x.s, o.v, r.path).(*Lib)
		if len(l.at) > 0 {
			return Bool(true)
		}
		x.s.set(r.obj, x.e.setPath(x.s, o.v, r.path, &Lib{kind: l.kind, at: []Val{Bool(true)}}))
		return Bool(false)
	}
	slot := func(x *Ctx, a Val) (*Obj, Ref, []pel) {
		r := a.(Iface).v.(Ref)
		o := x.s.heap[r.obj]
		if _, ok := x.e.getPath(x.s, o.v, r.path).(*Lib); ok {
			return o, r, nil
		}
		return o, r, append(append([]pel(nil), r.path...), pel{i: 1})
	}
	m["Kept"] = func(x *Ctx, a []Val) Val {
		o, r, f := slot(x, a[0])
		var v Val
		if f == nil {
			v = x.e.getPath(x.s, o.v, r.path).(*Lib).at[0]
		} else {
			v = x.e.getPath(x.s, o.v, f)
		}
		return v
	}
	m["Keep"] = func(x *Ctx, a []Val) Val {
		o, r, f := slot(x, a[0])
		if f == nil {
			l := x.e.getPath(x.s, o.v, r.path).(*Lib)
			x.s.set(r.obj, x.e.setPath(x.s, o.v, r.path, &Lib{kind: l.kind, at: []Val{a[1]}}))
		} else {
			x.s.set(r.obj, x.e.setPath(x.s, o.v, f, a[1]))
		}
		return Tuple{}
	}
	e.setupRecorder(m)
	for k, f := range m {
		e.intr["vmodels."+k] = f
	}
}

// wrapNF brings l into the range of the type without telling cases apart.
func (e *Eng) wrapNF(s *State, l *Lin, bits int, signed bool) *Lin {
	lo, hi := rangeOf(bits, signed)
	iv := s.facts.eval(l)
	if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(lo) >= 0 && iv.hi.Cmp(hi) <= 0 {
		return l
	}
	if iv.lo != nil && iv.hi != nil { // all in one period
		w := wrapConst(iv.lo, bits, signed)
		d := new(big.Int).Sub(iv.lo, w)
		if new(big.Int).Sub(iv.hi, d).Cmp(hi) <= 0 {
			return linSub(l, linB(d))
		}
	}
	return e.wrapSym(s, l, bits, signed)
}

// fromBytes is the unsigned number with the given bytes, lowest first. If they are the bytes of a known number
// modulo 2^(8n), it is that number.
func (x *Ctx) fromBytes(bs []*Lin) *Lin {
	var base *Lin
	for j := len(bs) - 1; j >= 0 && base == nil; j-- {
		if y := x.s.norm(bs[j]).single(); y != nil && y.Def != nil && y.Def.Op == "byteof" && y.Def.N == j {
			base = x.s.norm(y.Def.Args[0].(Int).L)
		}
	}
	if base != nil {
		ok := true
		for j, b := range bs {
			b = x.s.norm(b)
			if y := b.single(); y != nil && y.Def != nil && y.Def.Op == "byteof" && y.Def.N == j {
				d := linSub(base, x.s.norm(y.Def.Args[0].(Int).L))
				if d.isConst() && new(big.Int).Mod(d.c, new(big.Int).Lsh(bigOne, uint(8*(j+1)))).Sign() == 0 {
					continue
				}
			}
			if !x.e.byteOf(x.s, base, j).eq(b) {
				ok = false
				break
			}
		}
		if ok {
			return base
		}
	}
	sum := linC(0)
	k := big.NewInt(1)
	for _, b := range bs {
		sum = linComb(sum, b, k)
		k = new(big.Int).Lsh(k, 8)
	}
	return x.s.simpBytes(x.s.norm(sum))
}

func numSize(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return -1
	}
	switch b.Kind() {
	case types.Bool, types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32, types.Float32:
		return 4
	case types.Int64, types.Uint64, types.Float64:
		return 8
	}
	return -1
}

// same tells whether both values are certainly the same.
func (x *Ctx) same(a, b Val, d int) bool {
	if d > 20000 {
		return false
	}
	if keyOf(a) == keyOf(b) {
		switch a.(type) {
		case Slice:
		default:
			return true
		}
	}
	switch p := a.(type) {
	case Nil:
		_, ok := b.(Nil)
		return ok
	case Int:
		q, ok := b.(Int)
		if !ok {
			return false
		}
		l := x.s.simpBytes(x.s.norm(linSub(p.L, q.L)))
		if l.isConst() {
			return l.c.Sign() == 0
		}
		return x.s.facts.decideEQ(l) == 1
	case Str:
		q, ok := b.(Str)
		return ok && x.e.segCompare(x.s, p.segs, q.segs) == 1
	case FloatC:
		q, ok := b.(FloatC)
		return ok && math.Float64bits(float64(p)) == math.Float64bits(float64(q))
	case Bool:
		switch q := b.(type) {
		case Bool:
			return p == q
		case *Cond:
			r := x.e.known(x.s, q)
			return r >= 0 && (r == 1) == bool(p)
		}
		return false
	case *Cond:
		switch q := b.(type) {
		case Bool:
			return x.same(b, a, d+1)
		case *Cond:
			if condKey(p) == condKey(q) && p.neg == q.neg {
				return true
			}
			r, t := x.e.known(x.s, p), x.e.known(x.s, q)
			return r >= 0 && r == t
		}
		return false
	case Iface:
		q, ok := b.(Iface)
		return ok && x.e.typeID(p.t) == x.e.typeID(q.t) && x.same(p.v, q.v, d+1)
	case *Struct:
		q, ok := b.(*Struct)
		if !ok || len(p.f) != len(q.f) {
			return false
		}
		for i := range p.f {
			if !x.same(p.f[i], q.f[i], d+1) {
				return false
			}
		}
		return true
	case Slice:
		q, ok := b.(Slice)
		if !ok {
			return false
		}
		ln := linSub(p.len, q.len)
		if x.s.facts.decideEQ(ln) != 1 && !x.s.norm(ln).isZero() {
			return false
		}
		va := x.e.getPath(x.s, x.s.heap[p.obj].v, p.path)
		vb := x.e.getPath(x.s, x.s.heap[q.obj].v, q.path)
		if _, ok := va.(*Bytes); ok {
			if _, ok := vb.(*Bytes); ok {
				return x.e.segCompare(x.s, x.e.bytesOf(x.s, p), x.e.bytesOf(x.s, q)) == 1
			}
			return false
		}
		sa, ua := va.(*SArr)
		sb, ub := vb.(*SArr)
		if ua && ub {
			return x.same(sa.def, sb.def, d+1)
		}
		pl, ql := x.s.norm(p.len), x.s.norm(q.len)
		if !pl.isConst() || !ql.isConst() {
			return false
		}
		ea, eb := x.e.elems(x.s, p), x.e.elems(x.s, q)
		for i := range ea {
			if !x.same(ea[i], eb[i], d+1) {
				return false
			}
		}
		return true
	case Ref:
		q, ok := b.(Ref)
		if !ok {
			return false
		}
		ma, ok1 := x.s.heap[p.obj].v.(*MapV)
		mb, ok2 := x.s.heap[q.obj].v.(*MapV)
		if !ok1 || !ok2 || len(ma.ent) != len(mb.ent) || (ma.sym == nil) != (mb.sym == nil) {
			return false
		}
		if ma.sym != nil {
			return x.s.facts.decideEQ(linSub(ma.sym.n, mb.sym.n)) == 1 && x.same(ma.sym.v, mb.sym.v, d+1) && x.same(ma.sym.k, mb.sym.k, d+1)
		}
	outer:
		for _, ea := range ma.ent {
			for _, eb := range mb.ent {
				if x.same(ea.k, eb.k, d+1) {
					if !x.same(ea.v, eb.v, d+1) {
						return false
					}
					continue outer
				}
			}
			return false
		}
		return true
	}
	return false
}

// ---------- texts ----------

func (x *Ctx) text(format Str, args, own []Val, ln bool) Val {
	f, ok := segConst(x.s.normSegs(x.e, format.segs))
	if !ok {
		f = "%v"
	}
	out := Str{taint: format.taint}
	add := func(t Str) { out = Str{segCat(out.segs, t.segs), unionTaint(out.taint, t.taint)} }
	arg := func(i int, verb byte, sharp bool) Str {
		if o, ok := own[i].(Str); ok && !sharp && (verb == 'v' || verb == 's' || verb == 'q' || verb == 'w') && len(o.segs) > 0 {
			return o
		}
		if verb == 'x' || verb == 'X' {
			return x.hexText(args[i])
		}
		if verb == 'T' {
			if v, ok := args[i].(Iface); ok {
				return cstr(v.t.String())
			}
			return cstr("<nil>")
		}
		return x.render(args[i], nil, 0, sharp)
	}
	if f == "" || ln {
		for i := range args {
			if i > 0 {
				add(cstr(" "))
			}
			add(arg(i, 'v', false))
		}
		if ln {
			add(cstr("\n"))
		}
		return out
	}
	n := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			add(cstr(f[i:]))
			break
		}
		add(cstr(f[i : i+j]))
		i += j + 1
		sharp := false
		for i < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[i]) >= 0 {
			if f[i] == '#' {
				sharp = true
			}
			i++
		}
		if i >= len(f) {
			break
		}
		v := f[i]
		i++
		if v == '%' {
			add(cstr("%"))
			continue
		}
		if n >= len(args) {
			add(cstr("%!" + string(v) + "(MISSING)"))
			continue
		}
		add(arg(n, v, sharp))
		n++
	}
	for ; n < len(args); n++ {
		add(cstr("%!(EXTRA "))
		add(arg(n, 'v', false))
		add(cstr(")"))
	}
	return out
}

func (x *Ctx) hexText(v Val) Str {
	if i, ok := v.(Iface); ok {
		switch y := i.v.(type) {
		case Slice, Str:
			if s, ok := y.(Slice); ok {
				if _, isB := x.e.getPath(x.s, x.s.heap[s.obj].v, s.path).(*Bytes); !isB {
					return cstr("‹hex›")
				}
			}
			if c, ok := segConst(x.s.normSegs(x.e, x.bytes(y))); ok {
				return cstr(fmt.Sprintf("%x", c))
			}
		}
	}
	return cstr("‹hex›")
}

// render is the text of a value as %v (or %#v) gives it.
func (x *Ctx) render(v Val, t types.Type, d int, sharp bool) Str {
	cat := func(a Str, b Str) Str { return Str{segCat(a.segs, b.segs), unionTaint(a.taint, b.taint)} }
	if d > 12 {
		return cstr("…")
	}
	switch y := v.(type) {
	case Iface:
		return x.render(y.v, y.t, d, sharp)
	case Nil:
		return cstr("<nil>")
	case Str:
		if sharp {
			return cat(cat(cstr("\""), y), cstr("\""))
		}
		return y
	case Int:
		if l := x.s.norm(y.L); l.isConst() {
			return cstr(l.c.String())
		}
		return cstr("‹number›")
	case Bool:
		return cstr(strconv.FormatBool(bool(y)))
	case FloatC:
		return cstr(fmt.Sprint(float64(y)))
	case *Struct:
		out := cstr("{")
		var st *types.Struct
		if t != nil {
			st, _ = t.Underlying().(*types.Struct)
		}
		for i, f := range y.f {
			if i > 0 {
				out = cat(out, cstr(" "))
			}
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
				if sharp {
					out = cat(out, cstr(st.Field(i).Name()+":"))
				}
			}
			out = cat(out, x.render(f, ft, d+1, sharp))
		}
		return cat(out, cstr("}"))
	case Slice:
		switch x.e.getPath(x.s, x.s.heap[y.obj].v, y.path).(type) {
		case *Bytes:
			segs := x.s.normSegs(x.e, x.bytes(y))
			if c, ok := segConst(segs); ok {
				return cstr(fmt.Sprint([]byte(c)))
			}
			return cstr("‹bytes›")
		case *Arr:
			out := cstr("[")
			for i, v := range x.e.elems(x.s, y) {
				if i > 0 {
					out = cat(out, cstr(" "))
				}
				out = cat(out, x.render(v, nil, d+1, sharp))
			}
			return cat(out, cstr("]"))
		}
		return cstr("‹list›")
	case Ref:
		o := x.s.heap[y.obj]
		if m, ok := o.v.(*MapV); ok && len(y.path) == 0 {
			out := cstr("map[")
			for i, en := range m.ent {
				if i > 0 {
					out = cat(out, cstr(" "))
				}
				out = cat(out, x.render(en.k, nil, d+1, sharp))
				out = cat(out, cstr(":"))
				out = cat(out, x.render(en.v, nil, d+1, sharp))
			}
			return cat(out, cstr("]"))
		}
		if d == 0 {
			w := x.e.getPath(x.s, o.v, y.path)
			switch w.(type) {
			case *Struct, Slice, *Arr:
				var et types.Type
				if t != nil {
					if p, ok := t.Underlying().(*types.Pointer); ok {
						et = p.Elem()
					}
				}
				return cat(cstr("&"), x.render(w, et, d+1, sharp))
			}
		}
		return cstr("0xc000")
	case *Arr:
		out := cstr("[")
		for i, v := range y.e {
			if i > 0 {
				out = cat(out, cstr(" "))
			}
			out = cat(out, x.render(v, nil, d+1, sharp))
		}
		return cat(out, cstr("]"))
	}
	return cstr("‹?›")
}

func (e *Eng) allocBound(s *State) (*Lin, string) { return s.allocB, s.boundP }

// markObj labels an object, and what it is made of, as shared.
func (e *Eng) markObj(s *State, v Val, label string) {
	var id int
	switch y := v.(type) {
	case Ref:
		id = y.obj
	case Slice:
		id = y.obj
	default:
		return
	}
	o := s.heap[id]
	if o == nil || o.mark != "" {
		return
	}
	n := *o
	n.mark = label
	s.undo = append(s.undo, undoRec{id, o})
	s.heap[id] = &n
}

// describe is the text of a value for reports.
func (x *Ctx) describe(v Val, d int) string {
	if d > 6 {
		return "…"
	}
	switch y := v.(type) {
	case Iface:
		return types.TypeString(y.t, func(p *types.Package) string { return p.Name() }) + " " + x.describe(y.v, d+1)
	case Slice:
		if _, ok := x.e.getPath(x.s, x.s.heap[y.obj].v, y.path).(*Bytes); ok {
			return "bytes " + segStr(x.s.normSegs(x.e, x.bytes(y)))
		}
		if !x.s.norm(y.len).isConst() {
			return "list of " + y.len.String()
		}
		var l []string
		for _, w := range x.e.elems(x.s, y) {
			l = append(l, x.describe(w, d+1))
		}
		return "[" + strings.Join(l, ", ") + "]"
	case *Struct:
		var l []string
		for _, w := range y.f {
			l = append(l, x.describe(w, d+1))
		}
		return "{" + strings.Join(l, ", ") + "}"
	case Ref:
		if m, ok := x.s.heap[y.obj].v.(*MapV); ok {
			if m.sym != nil {
				return "map of " + m.sym.n.String()
			}
			var l []string
			for _, en := range m.ent {
				l = append(l, x.describe(en.k, d+1)+": "+x.describe(en.v, d+1))
			}
			return "map{" + strings.Join(l, ", ") + "}"
		}
	case Str:
		return segStr(x.s.normSegs(x.e, y.segs))
	case Int:
		return x.s.norm(y.L).String()
	}
	return valStr(v)
}

func inTaint(ts []string, t string) bool {
	for _, u := range ts {
		if u == t {
			return true
		}
	}
	return false
}
