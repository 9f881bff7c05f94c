package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A loop that does nothing but copy bytes one by one, dst[j+c] = src[j+d] for j from a to b, has the effect of one copy
// if no index is out of range. Such loops are recognised in the SSA form and taken in one step.

type copyLoop struct {
	phi      *ssa.Phi
	rangeIdx bool      // the counter is one behind the index
	limit    ssa.Value // index < limit
	src, dst ssa.Value
	so, do   []idxStep // how the indices are computed from the counter
	body     *ssa.BasicBlock
}

type idxStep struct {
	add ssa.Value // added, loop-invariant
	typ *types.Basic
}

func findCopyLoop(h *ssa.BasicBlock) *copyLoop {
	if len(h.Preds) != 2 || len(h.Succs) != 2 {
		return nil
	}
	body := h.Succs[0]
	if len(body.Succs) != 1 || body.Succs[0] != h || len(body.Preds) != 1 {
		return nil
	}
	in := map[ssa.Value]bool{}
	for _, b := range []*ssa.BasicBlock{h, body} {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				in[v] = true
			}
		}
	}
	inv := func(v ssa.Value) bool { return !in[v] }
	l := &copyLoop{body: body}
	var step *ssa.BinOp
	var cond *ssa.BinOp
	lenOf := map[ssa.Value]ssa.Value{}
	for _, i := range h.Instrs {
		switch x := i.(type) {
		case *ssa.Phi:
			if l.phi != nil {
				return nil
			}
			l.phi = x
		case *ssa.BinOp:
			switch {
			case x.Op == token.ADD && x.X == ssa.Value(l.phi) && isOne(x.Y) && step == nil:
				step = x
				l.rangeIdx = true
			case x.Op == token.LSS && cond == nil:
				cond = x
			default:
				return nil
			}
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" || !inv(x.Call.Args[0]) {
				return nil
			}
			lenOf[x] = x.Call.Args[0]
		case *ssa.If:
			if x.Cond != ssa.Value(cond) {
				return nil
			}
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	if l.phi == nil || cond == nil {
		return nil
	}
	var ctr ssa.Value = l.phi
	if l.rangeIdx {
		ctr = step
	}
	if cond.X != ctr || !(inv(cond.Y) || lenOf[cond.Y] != nil) {
		return nil
	}
	l.limit = cond.Y
	// index expressions
	idx := map[ssa.Value][]idxStep{ctr: {}}
	addr := map[ssa.Value]*ssa.IndexAddr{}
	var load *ssa.UnOp
	var store *ssa.Store
	for _, i := range body.Instrs {
		switch x := i.(type) {
		case *ssa.BinOp:
			if x.Op != token.ADD {
				return nil
			}
			if !l.rangeIdx && step == nil && x.X == ctr && isOne(x.Y) {
				step = x
			}
			b, ok := x.Type().Underlying().(*types.Basic)
			if !ok {
				return nil
			}
			switch {
			case idx[x.X] != nil && inv(x.Y):
				idx[x] = append(append([]idxStep{}, idx[x.X]...), idxStep{add: x.Y, typ: b})
			case idx[x.Y] != nil && inv(x.X):
				idx[x] = append(append([]idxStep{}, idx[x.Y]...), idxStep{add: x.X, typ: b})
			default:
				return nil
			}
		case *ssa.Convert:
			b, ok := x.Type().Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 || idx[x.X] == nil {
				return nil
			}
			idx[x] = append(append([]idxStep{}, idx[x.X]...), idxStep{typ: b})
		case *ssa.IndexAddr:
			if idx[x.Index] == nil || !inv(x.X) || !isByteSlice(x.X.Type()) {
				return nil
			}
			addr[x] = x
		case *ssa.UnOp:
			if x.Op != token.MUL || addr[x.X] == nil || load != nil {
				return nil
			}
			load = x
		case *ssa.Store:
			if addr[x.Addr] == nil || store != nil || load == nil || x.Val != ssa.Value(load) {
				return nil
			}
			store = x
		case *ssa.Jump, *ssa.DebugRef:
		default:
			return nil
		}
	}
	if load == nil || store == nil || step == nil {
		return nil
	}
	back := 0
	if h.Preds[0] != body {
		back = 1
	}
	if l.phi.Edges[back] != ssa.Value(step) {
		return nil
	}
	l.src, l.dst = addr[load.X].X, addr[store.Addr].X
	l.so, l.do = idx[addr[load.X].Index], idx[addr[store.Addr].Index]
	return l
}

func isOne(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.String() == "1"
}

func isByteSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// copyLoopAt takes the loop in one step if it can. It gives the value of the counter after the loop.
func (e *Eng) copyLoopAt(s *State, f *Frame, l *copyLoop, from *ssa.BasicBlock) (Val, bool) {
	if from == l.body {
		return nil, false
	}
	h := l.phi.Block()
	var start Val
	for i, p := range h.Preds {
		if p == from {
			start = e.val(s, f, l.phi.Edges[i])
		}
	}
	a, ok := start.(Int)
	if !ok {
		return nil, false
	}
	first := a.L
	if l.rangeIdx {
		first = linAdd(first, linC(1))
	}
	var limit *Lin
	if c, ok := l.limit.(*ssa.Call); ok && c.Block() == h {
		limit = lenLin(e.val(s, f, c.Call.Args[0]))
	} else if v, ok := e.val(s, f, l.limit).(Int); ok {
		limit = v.L
	}
	if limit == nil {
		return nil, false
	}
	src, ok1 := e.val(s, f, l.src).(Slice)
	dst, ok2 := e.val(s, f, l.dst).(Slice)
	if !ok1 || !ok2 || src.obj == dst.obj {
		return nil, false
	}
	n := s.norm(linSub(limit, first))
	if n.isConst() && n.c.Sign() <= 0 || s.facts.decideGE(n) != 1 {
		return nil, false
	}
	last := linSub(limit, linC(1))
	at := func(steps []idxStep) *Lin {
		lo, hi := first, last
		for _, st := range steps {
			if st.add != nil {
				v, ok := e.val(s, f, st.add).(Int)
				if !ok {
					return nil
				}
				lo, hi = linAdd(lo, v.L), linAdd(hi, v.L)
			}
			bits, signed := width(st.typ)
			rl, rh := rangeOf(bits, signed)
			if s.facts.decideGE(linSub(lo, linB(rl))) != 1 || s.facts.decideGE(linSub(linB(rh), hi)) != 1 {
				return nil
			}
		}
		return lo
	}
	so, do := at(l.so), at(l.do)
	if so == nil || do == nil {
		return nil, false
	}
	for _, x := range []struct {
		s Slice
		o *Lin
	}{{src, so}, {dst, do}} {
		if s.facts.decideGE(x.o) != 1 || s.facts.decideGE(linSub(linSub(x.s.len, x.o), n)) != 1 {
			return nil, false
		}
	}
	src.off, src.len = linAdd(src.off, so), n
	dst.off, dst.len = linAdd(dst.off, do), n
	e.copyTo(s, dst, src, l.dst.Type())
	if l.rangeIdx {
		return Int{last}, true
	}
	return Int{limit}, true
}

func lenLin(v Val) *Lin {
	if x, ok := v.(Slice); ok {
		return x.len
	}
	return nil
}
