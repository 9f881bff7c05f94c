package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The recorder of the repository is unexported: the primitives below find it by its shape, a struct of the driver
// package that embeds the net.Conn it stands for.

type recShape struct {
	ptr    *types.Pointer
	st     *types.Struct
	maker  *ssa.Function // func(name, connection string) *recorder
	events int           // the field that keeps the events
}

func (e *Eng) recorder() *recShape {
	for _, p := range e.prog.AllPackages() {
		if p.Pkg.Path() != e.repoPath {
			continue
		}
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			st, ok := t.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			r := &recShape{ptr: types.NewPointer(t.Type()), st: st, events: -1}
			conn := false
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if f.Embedded() && f.Type().String() == "net.Conn" {
					conn = true
				}
				if _, ok := f.Type().Underlying().(*types.Slice); ok {
					r.events = i
				}
			}
			if !conn || r.events < 0 {
				continue
			}
			for _, m := range p.Members {
				f, ok := m.(*ssa.Function)
				if !ok {
					continue
				}
				sg := f.Signature
				if sg.Recv() == nil && sg.Params().Len() == 2 && sg.Results().Len() == 1 && types.Identical(sg.Results().At(0).Type(), r.ptr) {
					r.maker = f
				}
			}
			if r.maker != nil {
				return r
			}
		}
	}
	panic(unsupported{"no recorder found"})
}

func (e *Eng) setupRecorder(m map[string]intrinsic) {
	unit := Val(Tuple{})
	m["RecorderMaker"] = func(x *Ctx, a []Val) Val { return Fn{f: x.e.recorder().maker} }
	m["AsConn"] = func(x *Ctx, a []Val) Val { return Iface{x.e.recorder().ptr, a[0]} }
	m["SetRecorder"] = func(x *Ctx, a []Val) Val {
		r := x.e.recorder()
		d := a[0].(Iface).v.(Ref)
		st := x.s.heap[d.obj].typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), r.ptr) {
				x.e.store(x.s, Ref{obj: d.obj, path: append(append([]pel(nil), d.path...), pel{i: i})}, a[1].(Iface).v)
				return unit
			}
		}
		panic(unsupported{"the driver has no recorder"})
	}
	events := func(x *Ctx, v Val) Ref {
		r := v.(Iface).v.(Ref)
		return Ref{obj: r.obj, path: append(append([]pel(nil), r.path...), pel{i: x.e.recorder().events})}
	}
	m["CopyEvents"] = func(x *Ctx, a []Val) Val {
		x.e.store(x.s, events(x, a[0]), x.e.load(x.s, events(x, a[1])))
		return unit
	}
	m["ForgetEvents"] = func(x *Ctx, a []Val) Val {
		r := x.e.recorder()
		x.e.store(x.s, events(x, a[0]), x.e.zero(r.st.Field(r.events).Type()))
		return unit
	}
}
