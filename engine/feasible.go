package main

import (
	"math/big"
)

// Before something is reported, the path to it is checked again: what is known about the unknowns must not be
// contradictory, and an assignment of the unknowns that agrees with all of it must be found. If there is none to be found,
// the report becomes "undecided".

type feas struct {
	s     *State
	base  []*Sym
	facts *Facts
	tries int
}

// feasible: 1 an assignment exists, 0 there is none, -1 none was found.
func (e *Eng) feasible(s *State) int {
	g := s.facts.clone()
	if !g.tighten() {
		return 0
	}
	f := &feas{s: s, facts: s.facts, tries: 400}
	seen := map[*Sym]bool{}
	var add func(y *Sym)
	add = func(y *Sym) {
		if seen[y] {
			return
		}
		seen[y] = true
		if y.Def == nil || y.Def.Op == "byteat" {
			if y.Kind == "int" {
				f.base = append(f.base, y)
			}
			return
		}
		for _, v := range y.Def.Args {
			symsOf(v, add)
		}
	}
	for _, ls := range [][]*Lin{g.ge, g.ne} {
		for _, l := range ls {
			for _, t := range l.t {
				add(t.s)
			}
		}
	}
	for _, y := range sortedSyms(g.iv) {
		if y.Def != nil && y.Def.Op != "byteat" {
			add(y)
		}
	}
	if f.label(g) {
		return 1
	}
	return -1
}

// label fixes one unknown after the other.
func (f *feas) label(g *Facts) bool {
	var y *Sym
	var w *big.Int
	for _, z := range f.base {
		iv := g.iv[z]
		var v *big.Int
		if iv.lo != nil && iv.hi != nil {
			v = new(big.Int).Sub(iv.hi, iv.lo)
			if v.Sign() == 0 {
				continue
			}
		}
		if y == nil || v != nil && (w == nil || v.Cmp(w) < 0) {
			y, w = z, v
		}
	}
	if y == nil {
		return f.holds(g)
	}
	iv := g.iv[y]
	lo, hi := iv.lo, iv.hi
	if lo == nil {
		lo = big.NewInt(-1 << 40)
		if hi != nil && hi.Cmp(lo) < 0 {
			lo = hi
		}
	}
	if hi == nil {
		hi = big.NewInt(1 << 40)
		if hi.Cmp(lo) < 0 {
			hi = lo
		}
	}
	mid := new(big.Int).Rsh(new(big.Int).Add(lo, hi), 1)
	for _, v := range []*big.Int{lo, hi, mid, new(big.Int).Add(lo, bigOne), big.NewInt(255), big.NewInt(256), big.NewInt(70000)} {
		if v.Cmp(lo) < 0 || v.Cmp(hi) > 0 {
			continue
		}
		if f.tries--; f.tries < 0 {
			return false
		}
		h := g.clone()
		h.iv[y] = Iv{v, v}
		if h.tighten() && f.label(h) {
			return true
		}
	}
	return false
}

// holds: with the unknowns fixed, everything that is computed from them is as known.
func (f *feas) holds(g *Facts) bool {
	a := &asg{s: f.s, v: map[*Sym]*big.Int{}, f: map[*Sym]float64{}}
	for _, y := range f.base {
		a.v[y] = g.iv[y].lo
	}
	val := func(l *Lin) (*big.Int, bool) {
		a.no = false
		v := a.lin(l)
		return v, !a.no
	}
	for y, iv := range f.facts.iv {
		if y.Def == nil || y.Def.Op == "byteat" {
			continue
		}
		if v, ok := val(linS(y)); ok && (iv.lo != nil && v.Cmp(iv.lo) < 0 || iv.hi != nil && v.Cmp(iv.hi) > 0) {
			return false
		}
	}
	for _, l := range f.facts.ge {
		if v, ok := val(l); ok && v.Sign() < 0 {
			return false
		}
	}
	for _, l := range f.facts.ne {
		if v, ok := val(l); ok && v.Sign() == 0 {
			return false
		}
	}
	return true
}
