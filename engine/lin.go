package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync/atomic"
)

// ---------- symbols and linear expressions ----------

var symSeq int64

// Sym is an unknown value. Identity is the pointer.
type Sym struct {
	seq   int64
	Kind  string // "int", "bool", "str", "val", "float"
	Name  string // describes where it comes from (part of its identity when printed)
	Def   *Def   // definition in terms of other values, if any
	Taint []string
	Typ   string // rendered type for opaque values
}

// Def says how a symbol was computed; equal definitions give the same symbol (per state).
type Def struct {
	Op   string
	Args []Val
	N    int
}

func newSym(kind, name string) *Sym {
	return &Sym{seq: atomic.AddInt64(&symSeq, 1), Kind: kind, Name: name}
}

type term struct {
	s *Sym
	c *big.Int
}

// Lin is c + sum of coefficients times symbols. Immutable.
type Lin struct {
	c *big.Int
	t []term
}

var bigZero = big.NewInt(0)
var bigOne = big.NewInt(1)

func linC(n int64) *Lin      { return &Lin{c: big.NewInt(n)} }
func linB(n *big.Int) *Lin   { return &Lin{c: n} }
func linS(s *Sym) *Lin       { return &Lin{c: bigZero, t: []term{{s, bigOne}}} }
func (l *Lin) isConst() bool { return len(l.t) == 0 }
func (l *Lin) i64() int64    { return l.c.Int64() }
func (l *Lin) fits64() bool  { return l.c.IsInt64() }
func (l *Lin) isZero() bool  { return len(l.t) == 0 && l.c.Sign() == 0 }
func (l *Lin) single() *Sym { // exactly one symbol, coefficient 1, constant 0
	if len(l.t) == 1 && l.c.Sign() == 0 && l.t[0].c.Cmp(bigOne) == 0 {
		return l.t[0].s
	}
	return nil
}

func (l *Lin) eq(m *Lin) bool {
	if l == m {
		return true
	}
	if len(l.t) != len(m.t) || l.c.Cmp(m.c) != 0 {
		return false
	}
	for i := range l.t {
		if l.t[i].s != m.t[i].s || l.t[i].c.Cmp(m.t[i].c) != 0 {
			return false
		}
	}
	return true
}

func linAdd(a, b *Lin) *Lin { return linComb(a, b, bigOne) }
func linSub(a, b *Lin) *Lin { return linComb(a, b, big.NewInt(-1)) }

// linComb is a + k*b
func linComb(a, b *Lin, k *big.Int) *Lin {
	c := new(big.Int).Mul(b.c, k)
	c.Add(c, a.c)
	if len(a.t) == 0 && len(b.t) == 0 {
		return &Lin{c: c}
	}
	var t []term
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || (i < len(a.t) && a.t[i].s.seq < b.t[j].s.seq):
			t = append(t, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].s.seq < a.t[i].s.seq:
			x := new(big.Int).Mul(b.t[j].c, k)
			if x.Sign() != 0 {
				t = append(t, term{b.t[j].s, x})
			}
			j++
		default:
			x := new(big.Int).Mul(b.t[j].c, k)
			x.Add(x, a.t[i].c)
			if x.Sign() != 0 {
				t = append(t, term{a.t[i].s, x})
			}
			i++
			j++
		}
	}
	return &Lin{c: c, t: t}
}

func linMulC(a *Lin, k *big.Int) *Lin { return linComb(linC(0), a, k) }

// linDiv is a/k if k divides all its coefficients, else nil.
func linDiv(a *Lin, k int64) *Lin {
	b := big.NewInt(k)
	q, r := new(big.Int).QuoRem(a.c, b, new(big.Int))
	if r.Sign() != 0 {
		return nil
	}
	n := &Lin{c: q}
	for _, t := range a.t {
		q, r := new(big.Int).QuoRem(t.c, b, new(big.Int))
		if r.Sign() != 0 {
			return nil
		}
		n.t = append(n.t, term{t.s, q})
	}
	return n
}

func linNeg(a *Lin) *Lin { return linMulC(a, big.NewInt(-1)) }

func linSubst(l *Lin, s *Sym, r *Lin) *Lin {
	for _, t := range l.t {
		if t.s == s {
			rest := linComb(l, linS(s), new(big.Int).Neg(t.c))
			return linComb(rest, r, t.c)
		}
	}
	return l
}

func (l *Lin) String() string {
	if len(l.t) == 0 {
		return l.c.String()
	}
	var b strings.Builder
	for i, t := range l.t {
		if i > 0 {
			b.WriteString("+")
		}
		if t.c.Cmp(bigOne) != 0 {
			b.WriteString(t.c.String() + "*")
		}
		fmt.Fprintf(&b, "%s#%d", t.s.Name, t.s.seq)
	}
	if l.c.Sign() != 0 {
		b.WriteString("+" + l.c.String())
	}
	return b.String()
}

// ---------- intervals and facts ----------

// Iv is an interval; nil bounds are infinite.
type Iv struct{ lo, hi *big.Int }

func (a Iv) String() string {
	f := func(x *big.Int) string {
		if x == nil {
			return "inf"
		}
		return x.String()
	}
	return "[" + f(a.lo) + "," + f(a.hi) + "]"
}

// Facts: intervals of symbols, linear inequalities (each Lin >= 0) and disequalities (Lin != 0).
type Facts struct {
	iv map[*Sym]Iv
	ge []*Lin
	ne []*Lin
}

func (f *Facts) clone() *Facts {
	n := &Facts{iv: make(map[*Sym]Iv, len(f.iv))}
	for k, v := range f.iv {
		n.iv[k] = v
	}
	n.ge = append([]*Lin(nil), f.ge...)
	n.ne = append([]*Lin(nil), f.ne...)
	return n
}

func mx(a, b *big.Int) *big.Int { // max of lower bounds, nil = -inf
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) >= 0 {
		return a
	}
	return b
}
func mn(a, b *big.Int) *big.Int {
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) <= 0 {
		return a
	}
	return b
}

// evalBasic bounds l with symbol intervals only.
func (f *Facts) evalBasic(l *Lin) Iv {
	lo, hi := l.c, l.c
	for _, t := range l.t {
		iv := f.iv[t.s]
		a, b := iv.lo, iv.hi
		if t.c.Sign() < 0 {
			a, b = b, a
		}
		if lo != nil {
			if a == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(t.c, a))
			}
		}
		if hi != nil {
			if b == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(t.c, b))
			}
		}
	}
	return Iv{lo, hi}
}

func shares(a, b *Lin) bool {
	for _, x := range a.t {
		for _, y := range b.t {
			if x.s == y.s {
				return true
			}
		}
	}
	return false
}

// lower gives the best lower bound found for l, using up to depth linear facts.
func (f *Facts) lower(l *Lin, depth int) *big.Int {
	best := f.evalBasic(l).lo
	if depth == 0 || len(l.t) == 0 {
		return best
	}
	for _, g := range f.ge {
		if !shares(l, g) {
			continue
		}
		// l = k*g + rest with k>0 chosen to cancel a symbol
		for _, x := range l.t {
			for _, y := range g.t {
				if x.s != y.s || x.c.Sign()*y.c.Sign() <= 0 {
					continue
				}
				q, r := new(big.Int).QuoRem(x.c, y.c, new(big.Int))
				if r.Sign() != 0 || q.Sign() <= 0 {
					continue
				}
				rest := linComb(l, g, new(big.Int).Neg(q))
				lo := f.lower(rest, depth-1)
				if lo != nil {
					best = mx(best, lo)
				}
			}
		}
	}
	return best
}

func (f *Facts) eval(l *Lin) Iv {
	if len(l.t) == 0 {
		return Iv{l.c, l.c}
	}
	lo := f.lower(l, 2)
	hi := f.lower(linNeg(l), 2)
	if hi != nil {
		hi = new(big.Int).Neg(hi)
	}
	return Iv{lo, hi}
}

// decideGE tells whether l >= 0 holds (1), fails (0) or is unknown (-1).
func (f *Facts) decideGE(l *Lin) int {
	if len(l.t) == 0 {
		if l.c.Sign() >= 0 {
			return 1
		}
		return 0
	}
	if lo := f.lower(l, 2); lo != nil && lo.Sign() >= 0 {
		return 1
	}
	if m := f.lower(linNeg(l), 2); m != nil && m.Sign() > 0 {
		return 0
	}
	return -1
}

func (f *Facts) decideEQ(l *Lin) int {
	if len(l.t) == 0 {
		if l.c.Sign() == 0 {
			return 1
		}
		return 0
	}
	iv := f.eval(l)
	if (iv.lo != nil && iv.lo.Sign() > 0) || (iv.hi != nil && iv.hi.Sign() < 0) {
		return 0
	}
	if iv.lo != nil && iv.hi != nil && iv.lo.Sign() == 0 && iv.hi.Sign() == 0 {
		return 1
	}
	n := linNeg(l)
	for _, d := range f.ne {
		if d.eq(l) || d.eq(n) {
			return 0
		}
	}
	return -1
}

// addGE records l >= 0. It returns false if that contradicts what is known.
func (f *Facts) addGE(l *Lin) bool {
	switch f.decideGE(l) {
	case 1:
		return true
	case 0:
		return false
	}
	if len(l.t) == 1 {
		t := l.t[0]
		iv := f.iv[t.s]
		// c*s + k >= 0
		k := new(big.Int).Neg(l.c)
		if t.c.Sign() > 0 { // s >= ceil(-k/c)
			q, r := new(big.Int).DivMod(k, t.c, new(big.Int))
			if r.Sign() != 0 {
				q.Add(q, bigOne)
			}
			iv.lo = mx(iv.lo, q)
		} else { // s <= floor(l.c / -c)
			q := new(big.Int).Div(l.c, new(big.Int).Neg(t.c))
			iv.hi = mn(iv.hi, q)
		}
		f.iv[t.s] = iv
		return f.trimNE() && (iv.lo == nil || iv.hi == nil || iv.lo.Cmp(iv.hi) <= 0)
	}
	f.ge = append(f.ge, l)
	// tighten intervals of the symbols involved (bounded effort)
	for _, t := range l.t {
		rest := linComb(l, linS(t.s), new(big.Int).Neg(t.c))
		b := f.evalBasic(rest).hi // c*s >= -hi(rest)
		if b == nil {
			continue
		}
		iv := f.iv[t.s]
		k := new(big.Int).Neg(b)
		if t.c.Sign() > 0 {
			q, r := new(big.Int).DivMod(k, t.c, new(big.Int))
			if r.Sign() != 0 {
				q.Add(q, bigOne)
			}
			iv.lo = mx(iv.lo, q)
		} else {
			q := new(big.Int).Div(b, new(big.Int).Neg(t.c))
			iv.hi = mn(iv.hi, q)
		}
		if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) > 0 {
			return false
		}
		f.iv[t.s] = iv
	}
	return true
}

// trimNE moves interval ends off excluded values.
func (f *Facts) trimNE() bool {
	for changed := true; changed; {
		changed = false
		for _, d := range f.ne {
			if len(d.t) != 1 {
				continue
			}
			t := d.t[0]
			q, r := new(big.Int).QuoRem(new(big.Int).Neg(d.c), t.c, new(big.Int))
			if r.Sign() != 0 {
				continue
			}
			iv := f.iv[t.s]
			if iv.lo != nil && iv.lo.Cmp(q) == 0 {
				iv.lo = new(big.Int).Add(q, bigOne)
				changed = true
			} else if iv.hi != nil && iv.hi.Cmp(q) == 0 {
				iv.hi = new(big.Int).Sub(q, bigOne)
				changed = true
			}
			if changed {
				f.iv[t.s] = iv
				if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) > 0 {
					return false
				}
			}
		}
	}
	return true
}

func (f *Facts) addEQ(l *Lin) bool { return f.addGE(l) && f.addGE(linNeg(l)) }

func (f *Facts) addNE(l *Lin) bool {
	switch f.decideEQ(l) {
	case 0:
		return true
	case 1:
		return false
	}
	// sharpen against a one-sided bound
	if f.decideGE(l) == 1 {
		return f.addGE(linSub(l, linC(1)))
	}
	if f.decideGE(linNeg(l)) == 1 {
		return f.addGE(linSub(linNeg(l), linC(1)))
	}
	f.ne = append(f.ne, l)
	return f.trimNE()
}

func sortedSyms(m map[*Sym]Iv) []*Sym {
	r := make([]*Sym, 0, len(m))
	for s := range m {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].seq < r[j].seq })
	return r
}

// tighten propagates the linear facts to the intervals of the symbols. False: they contradict each other.
func (f *Facts) tighten() bool {
	for round := 0; round < 100; round++ {
		changed := false
		for _, l := range f.ge {
			for _, t := range l.t {
				rest := linComb(l, linS(t.s), new(big.Int).Neg(t.c))
				b := f.evalBasic(rest).hi // c*s >= -hi(rest)
				if b == nil {
					continue
				}
				iv := f.iv[t.s]
				if t.c.Sign() > 0 {
					q, r := new(big.Int).DivMod(new(big.Int).Neg(b), t.c, new(big.Int))
					if r.Sign() != 0 {
						q.Add(q, bigOne)
					}
					if iv.lo == nil || q.Cmp(iv.lo) > 0 {
						iv.lo, changed = q, true
					}
				} else {
					q := new(big.Int).Div(b, new(big.Int).Neg(t.c))
					if iv.hi == nil || q.Cmp(iv.hi) < 0 {
						iv.hi, changed = q, true
					}
				}
				if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) > 0 {
					return false
				}
				f.iv[t.s] = iv
			}
		}
		if !f.trimNE() {
			return false
		}
		if !changed {
			break
		}
	}
	for _, l := range f.ge {
		if hi := f.evalBasic(l).hi; hi != nil && hi.Sign() < 0 {
			return false
		}
	}
	for _, l := range f.ne {
		if iv := f.evalBasic(l); iv.lo != nil && iv.hi != nil && iv.lo.Sign() == 0 && iv.hi.Sign() == 0 {
			return false
		}
	}
	return true
}
