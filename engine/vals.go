package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value: one of the types below. All are immutable.
type Val interface{}

type (
	// Nil is the nil pointer, interface, slice, map, channel or function.
	Nil struct{}
	// Int is an integer.
	Int struct{ L *Lin }
	// Bool is a known boolean; *Cond an undecided one.
	Bool bool
	// FloatC is a known float.
	FloatC float64
	// Str is a string.
	Str struct {
		segs  []Seg
		taint []string
	}
	// Struct is a struct value.
	Struct struct{ f []Val }
	// Arr is an array of known length (not of bytes).
	Arr struct{ e []Val }
	// SArr is an array of symbolic length, all elements equal to def.
	SArr struct {
		n   *Lin
		def Val
	}
	// Bytes is an array of bytes.
	Bytes struct{ segs []Seg }
	// Ref is a pointer.
	Ref struct {
		obj  int
		path []pel
	}
	// Slice is a non-nil slice.
	Slice struct {
		obj           int
		path          []pel
		off, len, cap *Lin
	}
	// Iface is a non-nil interface value of known dynamic type.
	Iface struct {
		t types.Type
		v Val
	}
	// MapV is the content of a map object.
	MapV struct {
		ent []ment
		sym *symMap // if not nil: a map of symbolic size
	}
	symMap struct {
		n    *Lin
		k, v Val
	}
	ment struct{ k, v Val }
	// ChanV is the content of a channel object.
	ChanV struct {
		buf    []Val
		cap    int
		closed bool
	}
	// Fn is a function value.
	Fn struct {
		f *ssa.Function
		b []Val
	}
	// Tuple is a multi-value result.
	Tuple struct{ e []Val }
	// BufV is the content of a bytes.Buffer or strings.Builder.
	// out are the slices Bytes handed out; over: what is written next goes over their memory.
	BufV struct {
		segs []Seg
		out  []Val
		over bool
	}
	// LockV is a mutex. w: write-held, r: read holders.
	LockV struct{ w, r int }
	// TimeV is a point in time: the seq-th clock reading plus a duration. zero: the zero time.
	TimeV struct {
		zero bool
		seq  int
		dur  *Lin
	}
	// IterV is the content of a map or string iterator.
	IterV struct {
		m   Val // map reference or string
		pos *Lin
		ks  []Val
	}
	// TypV wraps a type (reflect.Type).
	TypV struct{ t types.Type }
	// ReflV wraps a reflect.Value.
	ReflV struct {
		t types.Type
		v Val
	}
	// Opaque library object with named attributes.
	Lib struct {
		kind string
		at   []Val
	}
)

// pel is one step of a pointer path: a field or element number, or a symbolic index.
type pel struct {
	i   int
	lin *Lin // if not nil
}

// Cond is an undecided boolean.
type Cond struct {
	op   string // "ge": L>=0, "eq": L==0, else an opaque predicate over args
	L    *Lin
	args []Val
	neg  bool
}

func (c *Cond) not() *Cond { d := *c; d.neg = !c.neg; return &d }

func mkInt(n int64) Int { return Int{linC(n)} }

// Seg is a piece of byte content.
type Seg interface{}

type (
	// SLit is known bytes.
	SLit string
	// SVal is one byte of value L (0..255).
	SVal struct{ L *Lin }
	// SRng is n bytes from offset off of an unknown source.
	SRng struct {
		s      *Sym
		off, n *Lin
	}
	// SRep is pat repeated n times.
	SRep struct {
		pat string
		n   *Lin
	}
)

func segLen1(s Seg) *Lin {
	switch s := s.(type) {
	case SLit:
		return linC(int64(len(s)))
	case SVal:
		return linC(1)
	case SRng:
		return s.n
	case SRep:
		return linMulC(s.n, big.NewInt(int64(len(s.pat))))
	}
	panic("segLen1")
}

func segLen(ss []Seg) *Lin {
	l := linC(0)
	for _, s := range ss {
		l = linAdd(l, segLen1(s))
	}
	return l
}

const maxLitRep = 64

// segCat concatenates and merges adjacent pieces.
func segCat(parts ...[]Seg) []Seg {
	var out []Seg
	for _, p := range parts {
		for _, s := range p {
			out = segPush(out, s)
		}
	}
	return out
}

func segPush(out []Seg, s Seg) []Seg {
	switch x := s.(type) {
	case SLit:
		if len(x) == 0 {
			return out
		}
		if len(x) > maxLitRep { // long uniform literals become repetitions
			if u := strings.Repeat(string(x[0]), len(x)); u == string(x) {
				return segPush(out, SRep{string(x[:1]), linC(int64(len(x)))})
			}
		}
	case SVal:
		if x.L.isConst() {
			return segPush(out, SLit(string([]byte{byte(x.L.i64())})))
		}
	case SRng:
		if x.n.isZero() {
			return out
		}
	case SRep:
		if x.n.isZero() || len(x.pat) == 0 {
			return out
		}
		if x.n.isConst() && x.n.i64()*int64(len(x.pat)) <= maxLitRep {
			return segPush(out, SLit(strings.Repeat(x.pat, int(x.n.i64()))))
		}
	}
	if len(out) > 0 {
		last := out[len(out)-1]
		rep := func(n Seg) []Seg {
			o := make([]Seg, len(out))
			copy(o, out)
			o[len(o)-1] = n
			return o
		}
		switch x := s.(type) {
		case SLit:
			switch l := last.(type) {
			case SLit:
				if j := string(l) + string(x); len(j) <= maxLitRep {
					return rep(SLit(j))
				}
				// keep literals bounded; see whether they form a repetition
				if r, ok := asRep(string(l) + string(x)); ok {
					return rep(r)
				}
				if len(l)+len(x) < 4096 {
					return rep(SLit(string(l) + string(x)))
				}
			case SRep:
				if strings.HasPrefix(string(x), l.pat) {
					k := 0
					for strings.HasPrefix(string(x)[k:], l.pat) {
						k += len(l.pat)
					}
					o := rep(SRep{l.pat, linAdd(l.n, linC(int64(k/len(l.pat))))})
					return segPush(o, SLit(string(x)[k:]))
				}
				// a partial pattern stays a literal until completed
			}
			// completed pattern after a repetition
			if l, ok := last.(SLit); ok && len(out) > 1 {
				if r, ok := out[len(out)-2].(SRep); ok && string(l)+string(x) == r.pat {
					o := make([]Seg, len(out)-1)
					copy(o, out[:len(out)-1])
					o[len(o)-1] = SRep{r.pat, linAdd(r.n, linC(1))}
					return o
				}
			}
		case SRng:
			if l, ok := last.(SRng); ok && l.s == x.s && linAdd(l.off, l.n).eq(x.off) {
				return rep(SRng{l.s, l.off, linAdd(l.n, x.n)})
			}
		case SRep:
			switch l := last.(type) {
			case SRep:
				if l.pat == x.pat {
					return rep(SRep{l.pat, linAdd(l.n, x.n)})
				}
			case SLit:
				if strings.HasSuffix(string(l), x.pat) {
					k := len(l)
					c := 0
					for k >= len(x.pat) && string(l)[k-len(x.pat):k] == x.pat {
						k -= len(x.pat)
						c++
					}
					o := append([]Seg(nil), out[:len(out)-1]...)
					o = segPush(o, SLit(string(l)[:k]))
					return append(o, SRep{x.pat, linAdd(x.n, linC(int64(c)))})
				}
			}
		}
	}
	o := make([]Seg, len(out), len(out)+1)
	copy(o, out)
	return append(o, s)
}

// asRep recognises a long literal with a period of at most 4 in its tail.
func asRep(s string) (Seg, bool) {
	for p := 1; p <= 4; p++ {
		if len(s)%p == 0 && strings.Repeat(s[:p], len(s)/p) == s {
			return SRep{s[:p], linC(int64(len(s) / p))}, true
		}
	}
	return nil, false
}

func segConst(ss []Seg) (string, bool) {
	var b strings.Builder
	for _, s := range ss {
		switch x := s.(type) {
		case SLit:
			b.WriteString(string(x))
		case SRep:
			if !x.n.isConst() || x.n.i64() > 1<<22 {
				return "", false
			}
			b.WriteString(strings.Repeat(x.pat, int(x.n.i64())))
		default:
			return "", false
		}
	}
	return b.String(), true
}

func segsEq(a, b []Seg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		switch x := a[i].(type) {
		case SLit:
			y, ok := b[i].(SLit)
			if !ok || x != y {
				return false
			}
		case SVal:
			y, ok := b[i].(SVal)
			if !ok || !x.L.eq(y.L) {
				return false
			}
		case SRng:
			y, ok := b[i].(SRng)
			if !ok || x.s != y.s || !x.off.eq(y.off) || !x.n.eq(y.n) {
				return false
			}
		case SRep:
			y, ok := b[i].(SRep)
			if !ok || x.pat != y.pat || !x.n.eq(y.n) {
				return false
			}
		}
	}
	return true
}

func cstr(s string) Str {
	if s == "" {
		return Str{}
	}
	return Str{segs: segPush(nil, SLit(s))}
}

func (s Str) constant() (string, bool) { return segConst(s.segs) }

func segStr(ss []Seg) string {
	var b strings.Builder
	for i, s := range ss {
		if i > 0 {
			b.WriteByte(' ')
		}
		switch x := s.(type) {
		case SLit:
			fmt.Fprintf(&b, "% x", string(x))
		case SVal:
			fmt.Fprintf(&b, "<%s>", x.L)
		case SRng:
			fmt.Fprintf(&b, "%s#%d[%s:+%s]", x.s.Name, x.s.seq, x.off, x.n)
		case SRep:
			fmt.Fprintf(&b, "(% x)*%s", x.pat, x.n)
		}
	}
	return b.String()
}

func unionTaint(a, b []string) []string {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	m := append([]string(nil), a...)
outer:
	for _, x := range b {
		for _, y := range a {
			if x == y {
				continue outer
			}
		}
		m = append(m, x)
	}
	return m
}

// valStr renders a value for reports.
func valStr(v Val) string {
	switch x := v.(type) {
	case nil:
		return "?"
	case Nil:
		return "nil"
	case Int:
		return x.L.String()
	case Bool:
		return fmt.Sprint(bool(x))
	case FloatC:
		return fmt.Sprint(float64(x))
	case Str:
		if s, ok := x.constant(); ok {
			return fmt.Sprintf("%q", s)
		}
		return "str(" + segStr(x.segs) + ")"
	case *Struct:
		var p []string
		for _, f := range x.f {
			p = append(p, valStr(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case Ref:
		return fmt.Sprintf("&%d%v", x.obj, x.path)
	case Slice:
		return fmt.Sprintf("slice(%d,%s,%s)", x.obj, x.off, x.len)
	case Iface:
		return types.TypeString(x.t, func(p *types.Package) string { return p.Name() }) + ":" + valStr(x.v)
	case *Sym:
		return fmt.Sprintf("%s#%d", x.Name, x.seq)
	case *Cond:
		return fmt.Sprintf("cond(%s %v)", x.op, x.neg)
	case Tuple:
		var p []string
		for _, f := range x.e {
			p = append(p, valStr(f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	}
	return fmt.Sprintf("%T", v)
}
