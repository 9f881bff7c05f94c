package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
)

// Lock discipline of shared state. The interpreter notes every access to an object that was marked as shared (package
// variables, drivers, pools, and the memory they own) together with the locks held; decideLocks judges the notes.

type access struct {
	kind  string // "access", "recv", "acquire"
	loc   string
	write bool
	locks string // sorted "lock" or "lock:w", separated by blanks
	phase string
	fn    string
	pos   string
}

type accessLog struct {
	mu sync.Mutex
	m  map[access]int
}

func (l *accessLog) add(a access) {
	l.mu.Lock()
	if l.m == nil {
		l.m = map[access]int{}
	}
	l.m[a]++
	l.mu.Unlock()
}

func lockName(s *State, obj int, path string) string {
	o := s.heap[obj]
	if o == nil {
		return "?"
	}
	if o.mark != "" {
		return o.mark + path
	}
	if o.typ != nil {
		return "a " + types.TypeString(o.typ, nil) + path
	}
	return "?" + path
}

func heldString(s *State) string {
	var r []string
	for _, h := range s.held {
		k := strings.ReplaceAll(lockName(s, h.obj, h.path), " ", "_")
		if h.w {
			k += ":w"
		}
		r = append(r, k)
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

// syncType: values of these types take care of themselves.
func syncType(t types.Type) bool {
	if strings.HasPrefix(namedName(t), "sync.") || strings.HasPrefix(namedName(t), "sync/atomic.") {
		return true
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// ownedElsewhere: connections and what hangs on them belong to the goroutine using them.
func (e *Eng) ownedElsewhere(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	switch namedName(t) {
	case "bytes.Buffer", "bytes.Reader", "strings.Builder", "strings.Reader", "bufio.Reader", "bufio.Writer", "bufio.ReadWriter":
		return false // these do not take care of themselves
	}
	if n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), e.repoPath) {
		return true
	}
	p := e.pkgs[e.repoPath]
	for _, i := range []string{"Conn", "Stmt", "PipelineStmt", "Rows", "PipelineRows", "Result", "Tx"} {
		if m := p.Type(i); m != nil {
			if it, ok := m.Type().Underlying().(*types.Interface); ok {
				if types.Implements(t, it) || types.Implements(types.NewPointer(t), it) {
					return true
				}
			}
		}
	}
	return false
}

// noteAccess records accesses to shared state for the lock discipline.
func (e *Eng) noteAccess(s *State, o *Obj, r Ref, write bool) string {
	return e.noteAccess2(s, o, r, write, false)
}

func (e *Eng) noteAccess2(s *State, o *Obj, r Ref, write, atomically bool) string {
	if !e.opts.lockset || o == nil || o.mark == "" || e.initing != nil {
		return ""
	}
	loc := o.mark
	t := o.typ
	for _, p := range r.path {
		if t == nil {
			break
		}
		switch st := t.Underlying().(type) {
		case *types.Struct:
			fl := st.Field(p.i)
			loc += "." + fl.Name()
			t = fl.Type()
		case *types.Array:
			loc += "[]"
			t = st.Elem()
		case *types.Slice:
			loc += "[]"
			t = st.Elem()
		default:
			loc += "[]"
			t = nil
		}
	}
	if t != nil && syncType(t) {
		if _, ok := t.Underlying().(*types.Chan); !ok {
			return loc
		}
	}
	f := repoFrame(s)
	if f == nil {
		return loc
	}
	h := heldString(s)
	if atomically {
		h = strings.TrimSpace(h + " atomic:w")
	}
	e.acc.add(access{kind: "access", loc: loc, write: write, locks: h, phase: s.phase, fn: f.info.name, pos: e.position(curInstr(f).Pos())})
	return loc
}

// repoFrame is the frame of the code under analysis that is running, or has called the library code that is.
func repoFrame(s *State) *Frame {
	for i := len(s.frames) - 1; i >= 0; i-- {
		if !s.frames[i].info.inModels {
			return s.frames[i]
		}
	}
	return nil
}

// noteSlice records an access to the elements of a slice.
func (e *Eng) noteSlice(s *State, x Slice, write bool) {
	if !e.opts.lockset {
		return
	}
	o := s.heap[x.obj]
	r := Ref{obj: x.obj, path: x.path}
	if o != nil && len(x.path) == 0 && o.typ != nil {
		if _, ok := o.typ.Underlying().(*types.Array); ok {
			r.path = []pel{{i: 0}}
		}
	}
	e.noteAccess(s, o, r, write)
}

// spread marks what is reached through a shared location.
func (e *Eng) spread(s *State, v Val, loc string) {
	if loc == "" || !e.opts.lockset {
		return
	}
	switch y := v.(type) {
	case Iface:
		e.spread(s, y.v, loc)
	case *Struct:
		for i, w := range y.f {
			e.spread(s, w, fmt.Sprintf("%s.%d", loc, i))
		}
	case Ref:
		o := s.heap[y.obj]
		if o == nil || o.mark != "" || o.typ == nil && !isMapObj(o) {
			return
		}
		if o.typ != nil && e.ownedElsewhere(o.typ) {
			return
		}
		e.markObj(s, v, "*"+loc)
	case Slice:
		o := s.heap[y.obj]
		if o == nil || o.mark != "" {
			return
		}
		e.markObj(s, v, loc+"[*]")
	}
}

func isMapObj(o *Obj) bool {
	switch o.v.(type) {
	case *MapV, *ChanV:
		return true
	}
	return false
}

func (e *Eng) noteRecv(s *State, id int) {
	if !e.opts.lockset || s.top().info.inModels {
		return
	}
	if o := s.heap[id]; o == nil || o.mark == "" {
		return
	}
	e.acc.add(access{kind: "recv", loc: s.heap[id].mark, locks: heldString(s), phase: s.phase, fn: s.top().info.name, pos: e.position(curInstr(s.top()).Pos())})
}

func (e *Eng) noteAcquire(s *State, obj int, path string, w bool) {
	if !e.opts.lockset || s.top().info.inModels {
		return
	}
	n := strings.ReplaceAll(lockName(s, obj, path), " ", "_")
	e.acc.add(access{kind: "acquire", loc: n, write: w, locks: heldString(s), phase: s.phase, fn: s.top().info.name, pos: e.position(curInstr(s.top()).Pos())})
}

func lockSet(s string) (all, w map[string]bool) {
	all, w = map[string]bool{}, map[string]bool{}
	for _, l := range strings.Fields(s) {
		if strings.HasSuffix(l, ":w") {
			l = strings.TrimSuffix(l, ":w")
			w[l] = true
		}
		all[l] = true
	}
	return
}

// guarded: w (a write) and a can't happen at the same time.
func guarded(w, a access) bool {
	_, ww := lockSet(w.locks)
	aa, aw := lockSet(a.locks)
	for l := range ww {
		if aa[l] && (!a.write || aw[l]) {
			return true
		}
	}
	return false
}

func overlaps(a, b string) bool {
	if a == b {
		return true
	}
	if len(a) > len(b) {
		a, b = b, a
	}
	return strings.HasPrefix(b, a) && (b[len(a)] == '.' || b[len(a)] == '[')
}

func (a access) String() string {
	k := "read"
	if a.write {
		k = "written"
	}
	h := "no lock"
	if a.locks != "" {
		h = a.locks
	}
	return fmt.Sprintf("%s in %s (%s) holding %s", k, a.fn, a.pos, h)
}

func (e *Eng) addFinding(f *Finding) {
	if _, ok := e.findings[f.Key]; !ok {
		e.findings[f.Key] = f
	}
}

// decideLocks judges what was noted.
func (e *Eng) decideLocks() {
	if !e.opts.lockset {
		return
	}
	const prop = "C21"
	var all []access
	for a := range e.acc.m {
		all = append(all, a)
	}
	sort.Slice(all, func(i, j int) bool { return fmt.Sprint(all[i]) < fmt.Sprint(all[j]) })
	for _, a := range all {
		if a.kind != "access" {
			continue
		}
		if !a.write {
			e.obligation(prop + "|a read of " + a.loc + " is guarded like the writes @ " + a.fn)
			continue
		}
		e.obligation(prop + "|a write of " + a.loc + " is guarded @ " + a.fn)
		for _, b := range all {
			if b.kind != "access" || !overlaps(a.loc, b.loc) || guarded(a, b) {
				continue
			}
			if b.write && fmt.Sprint(b) < fmt.Sprint(a) {
				continue
			}
			msg := "shared state " + a.loc + " is " + a.String()
			if a == b {
				msg += ", which two goroutines can do at the same time"
			} else {
				msg += " and " + b.String() + ", with no lock in common"
			}
			e.addFinding(&Finding{Props: []string{prop}, Rule: "lock discipline", Msg: msg, Pos: a.pos, Key: "lock " + a.loc})
		}
	}
	for _, r := range all {
		if r.kind != "recv" {
			continue
		}
		e.obligation(prop + "|waiting for " + r.loc + " holds no lock that handing back needs @ " + r.fn)
		ra, rw := lockSet(r.locks)
		for _, a := range all {
			if a.kind == "acquire" && a.phase == "handing back" && ra[a.loc] && (a.write || rw[a.loc]) {
				e.addFinding(&Finding{Props: []string{prop}, Rule: "lock discipline", Pos: a.pos, Key: "wait " + a.loc,
					Msg: fmt.Sprintf("%s (%s) waits for a connection holding %s, which handing one back takes in %s (%s)", r.fn, r.pos, a.loc, a.fn, a.pos)})
			}
		}
	}
	for _, a := range all {
		if a.kind != "acquire" {
			continue
		}
		e.obligation(prop + "|the lock " + a.loc + " is taken in one order with the others @ " + a.fn)
		ah, _ := lockSet(a.locks)
		for _, b := range all {
			if b.kind != "acquire" || a.loc >= b.loc {
				continue
			}
			bh, _ := lockSet(b.locks)
			if !ah[b.loc] || !bh[a.loc] {
				continue
			}
			gate := false
			for l := range ah {
				if bh[l] {
					gate = true
				}
			}
			if !gate {
				e.addFinding(&Finding{Props: []string{prop}, Rule: "lock discipline", Pos: a.pos, Key: "order " + a.loc + b.loc,
					Msg: fmt.Sprintf("%s is taken in %s (%s) while holding %s, and the other way round in %s (%s)", a.loc, a.fn, a.pos, b.loc, b.fn, b.pos)})
			}
		}
	}
}
