package main

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"net/url"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
)

// stdModels maps library functions to Go models in package vmodels.
var stdModels = map[string]string{
	"encoding/binary.Write":                               "BinaryWrite",
	"encoding/binary.Read":                                "BinaryRead",
	"encoding/binary.Size":                                "BinarySize",
	"(database/sql/driver.defaultConverter).ConvertValue": "ConvertValue",
	"(database/sql/driver.defaultConverter).String":       "ConverterString",
	"errors.Is":                                  "ErrorsIs",
	"(*bytes.Buffer).WriteTo":                    "BufferWriteTo",
	"(*bytes.Buffer).ReadFrom":                   "BufferReadFrom",
	"io.ReadAll":                                 "IoReadAll",
	"io/ioutil.ReadAll":                          "IoReadAll",
	"(*bytes.Reader).WriteTo":                    "ReaderWriteTo",
	"(*sync.Once).Do":                            "OnceDo",
	"(*sync.Pool).Get":                           "PoolGet",
	"(*sync.Pool).Put":                           "PoolPut",
	"(*sync.Map).Load":                           "SyncMapLoad",
	"(*sync.Map).Store":                          "SyncMapStore",
	"(*sync.Map).Delete":                         "SyncMapDelete",
	"(*sync.Map).LoadOrStore":                    "SyncMapLoadOrStore",
	"(*sync.Map).LoadAndDelete":                  "SyncMapLoadAndDelete",
	"(*sync.Map).Range":                          "SyncMapRange",
	"(*sync/atomic.Value).Load":                  "AtomicLoad",
	"(*sync/atomic.Value).Store":                 "AtomicStore",
	"(*sync/atomic.Value).Swap":                  "AtomicSwap",
	"(*sync/atomic.Value).CompareAndSwap":        "AtomicCAS",
	"net.DialTimeout":                            "NetDialTimeout",
	"net.Dial":                                   "NetDial",
	"(*net.Dialer).Dial":                         "DialerDial",
	"(*net.Dialer).DialContext":                  "DialerDialContext",
	"crypto/tls.Dial":                            "TLSDial",
	"crypto/tls.DialWithDialer":                  "TLSDialWithDialer",
	"(*crypto/tls.Dialer).Dial":                  "TLSDialerDial",
	"(*crypto/tls.Dialer).DialContext":           "TLSDialerDialContext",
	"crypto/tls.Client":                          "TLSClient",
	"(*crypto/tls.Conn).Handshake":               "TLSHandshake",
	"(*crypto/tls.Conn).HandshakeContext":        "TLSHandshakeContext",
	"(*crypto/tls.Conn).Read":                    "TLSRead",
	"(*crypto/tls.Conn).Write":                   "TLSWrite",
	"(*crypto/tls.Conn).Close":                   "TLSClose",
	"(*crypto/tls.Conn).SetDeadline":             "TLSSetDeadline",
	"(*crypto/tls.Conn).SetReadDeadline":         "TLSSetReadDeadline",
	"(*crypto/tls.Conn).SetWriteDeadline":        "TLSSetWriteDeadline",
	"(*crypto/tls.Conn).LocalAddr":               "TLSAddr",
	"(*crypto/tls.Conn).RemoteAddr":              "TLSAddr",
	"(*crypto/tls.Config).Clone":                 "TLSConfigClone",
	"crypto/tls.LoadX509KeyPair":                 "LoadX509KeyPair",
	"crypto/x509.NewCertPool":                    "NewCertPool",
	"crypto/x509.SystemCertPool":                 "SystemCertPool",
	"(*crypto/x509.CertPool).AppendCertsFromPEM": "AppendCertsFromPEM",
	"os.ReadFile":                                "ReadFile",
	"os.Getenv":                                  "OsGetenv",
	"os.LookupEnv":                               "OsLookupEnv",
	"os.OpenFile":                                "OsOpenFile",
	"os.Create":                                  "OsCreate",
	"os.Open":                                    "OsOpen",
	"os.WriteFile":                               "OsWriteFile",
	"os.MkdirAll":                                "OsMkdirAll",
	"(*os.File).Close":                           "OsFileClose",
	"(*os.File).Sync":                            "OsFileSync",
	"(*os.File).Write":                           "OsFileWrite",
	"encoding/json.NewEncoder":                   "JsonNewEncoder",
	"(*encoding/json.Encoder).Encode":            "JsonEncode",
	"encoding/json.Marshal":                      "JsonMarshal",
	"encoding/json.MarshalIndent":                "JsonMarshalIndent",
	"os.IsTimeout":                               "OsIsTimeout",
	"context.WithTimeout":                        "ContextWithTimeout",
	"context.WithDeadline":                       "ContextWithDeadline",
	"io/ioutil.ReadFile":                         "ReadFile",
	"log.New":                                    "LogNew",
	"(*log.Logger).Println":                      "LoggerPrintln",
	"(*log.Logger).Printf":                       "LoggerPrintf",
	"(*log.Logger).Print":                        "LoggerPrint",
	"(*log.Logger).Output":                       "LoggerOutput",
	"(*log.Logger).SetOutput":                    "LoggerSetOutput",
	"(*log.Logger).Fatalln":                      "LoggerPrintln",
	"(*log.Logger).Fatalf":                       "LoggerPrintf",
	"log.Println":                                "StdLogPrintln",
	"log.Printf":                                 "StdLogPrintf",
	"log.Print":                                  "StdLogPrint",
	"log.Fatalln":                                "StdLogFatalln",
	"log.Fatalf":                                 "StdLogFatalf",
	"log.Fatal":                                  "StdLogFatalln",
	"log.Panicln":                                "StdLogPanicln",
	"log.Panicf":                                 "StdLogPanicf",
	"log.Panic":                                  "StdLogPanicln",
	"fmt.Println":                                "FmtPrintln",
	"fmt.Printf":                                 "FmtPrintf",
	"fmt.Print":                                  "FmtPrintln",
	"fmt.Fprintf":                                "FmtFprintf",
	"fmt.Fprintln":                               "FmtFprintln",
	"fmt.Errorf":                                 "FmtErrorf",
	"fmt.Sprintf":                                "FmtSprintf",
	"fmt.Sprint":                                 "FmtSprint",
	"fmt.Sprintln":                               "FmtSprintln",
	"(*strings.Reader).WriteTo":                  "ReaderWriteToS",
	"strings.Map":                                "StringsMap",
	"database/sql.Register":                      "SqlRegister",
}

func (x *Ctx) i(v Val) *Lin      { return x.s.norm(asInt(v)) }
func (x *Ctx) dec(v Val) bool    { return x.e.decide(x.s, v) }
func (x *Ctx) bytes(v Val) []Seg { return x.e.bytesOf(x.s, v) }
func (x *Ctx) nb(segs []Seg) Val { return x.e.newBytes(x.s, segs) }
func (x *Ctx) ge(l *Lin) bool    { return x.e.decideGE(x.s, l) }
func tup(v ...Val) Val           { return Tuple{v} }
func (x *Ctx) cs(v Val) string {
	s, ok := x.cstr(v)
	if !ok {
		panic(unsupported{"a constant string is needed, got " + valStr(v)})
	}
	return s
}
func (x *Ctx) cstr(v Val) (string, bool) {
	st, ok := v.(Str)
	if !ok {
		return "", false
	}
	return segConst(x.s.normSegs(x.e, st.segs))
}

func (x *Ctx) buf(r Val) (*BufV, Ref) {
	switch y := r.(type) {
	case Nil:
		panic(goPanic{msg: "nil pointer dereference: method of a nil buffer"})
	case Ref:
		v := x.e.getPath(x.s, x.s.heap[y.obj].v, y.path)
		if b, ok := v.(*BufV); ok {
			x.e.noteAccess(x.s, x.s.heap[y.obj], y, false)
			return b, y
		}
		panic(unsupported{"buffer expected: " + valStr(v)})
	}
	panic(unsupported{"buffer expected: " + valStr(r)})
}

func (x *Ctx) setBuf(r Ref, segs []Seg) {
	o := x.s.heap[r.obj]
	b := x.e.getPath(x.s, o.v, r.path).(*BufV)
	x.e.noteAccess(x.s, o, r, true)
	x.s.set(r.obj, x.e.setPath(x.s, o.v, r.path, &BufV{segs, b.out, b.over}))
}

// emptied notes that the buffer starts again at the beginning of its memory.
func (x *Ctx) emptied(r Ref) {
	o := x.s.heap[r.obj]
	if b := x.e.getPath(x.s, o.v, r.path).(*BufV); len(b.out) > 0 && !b.over {
		x.s.set(r.obj, x.e.setPath(x.s, o.v, r.path, &BufV{b.segs, b.out, true}))
	}
}

// written notes that something is written to the buffer: over what it handed out before, if it was emptied.
func (x *Ctx) written(r Ref) {
	o := x.s.heap[r.obj]
	b := x.e.getPath(x.s, o.v, r.path).(*BufV)
	if !b.over {
		return
	}
	for _, v := range b.out {
		if s, ok := v.(Slice); ok {
			x.e.writeBytes(x.s, s, linC(0), []Seg{SRng{newSym("str", "what the buffer was used for later"), linC(0), s.len}})
		}
	}
	o = x.s.heap[r.obj]
	x.s.set(r.obj, x.e.setPath(x.s, o.v, r.path, &BufV{segs: b.segs}))
}

// ioEOF is the value of io.EOF.
func (x *Ctx) ioEOF() Val { return x.globalVal("io", "EOF") }

func (x *Ctx) globalVal(pkg, name string) Val {
	g := x.e.pkgs[pkg].Var(name)
	return x.s.heap[x.e.glob[g]].v
}

// mkErr makes an error value of the library.
func (x *Ctx) mkErr(text Str) Val {
	pkg := x.e.pkgs["errors"]
	t := pkg.Type("errorString").Type()
	id := x.s.alloc(&Struct{f: []Val{text}}, t, "")
	return Iface{types.NewPointer(t), Ref{obj: id}}
}

func (e *Eng) ptrType(t types.Type) types.Type {
	if v, ok := e.ifaceCache.Load(t); ok {
		return v.(types.Type)
	}
	p := types.NewPointer(t)
	e.ifaceCache.Store(t, p)
	return p
}

// foldStr registers a pure function of strings (and ints) that is computed for constants.
func foldable(name string, f interface{}) intrinsic {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	return func(x *Ctx, a []Val) Val {
		in := make([]reflect.Value, ft.NumIn())
		ok := true
		taint := []string(nil)
		for i := range in {
			switch ft.In(i).Kind() {
			case reflect.String:
				s, c := x.cstr(a[i])
				if st, isS := a[i].(Str); isS {
					taint = unionTaint(taint, st.taint)
				}
				ok = ok && c
				in[i] = reflect.ValueOf(s)
			case reflect.Int, reflect.Int64, reflect.Int32:
				n, c := x.e.constInt(x.s, a[i])
				ok = ok && c
				in[i] = reflect.New(ft.In(i)).Elem()
				in[i].SetInt(int64(n))
			case reflect.Bool:
				in[i] = reflect.ValueOf(x.dec(a[i]))
			case reflect.Slice:
				if ft.In(i).Elem().Kind() == reflect.Uint8 {
					s, c := segConst(x.s.normSegs(x.e, x.bytes(a[i])))
					ok = ok && c
					in[i] = reflect.ValueOf([]byte(s))
					continue
				}
				var l []string
				for _, v := range x.e.elems(x.s, a[i]) {
					s, c := x.cstr(v)
					if st, isS := v.(Str); isS {
						taint = unionTaint(taint, st.taint)
					}
					ok = ok && c
					l = append(l, s)
				}
				in[i] = reflect.ValueOf(l)
			}
		}
		if !ok {
			// unknown arguments: unknown result
			var rs []Val
			for i := 0; i < ft.NumOut(); i++ {
				switch ft.Out(i).Kind() {
				case reflect.String:
					y := x.s.defsym("str", name, i, a...)
					n := x.s.defsym("int", name+".len", i, a...)
					x.s.bound(n, 0, math.MaxInt32)
					rs = append(rs, Str{segs: []Seg{SRng{y, linC(0), linS(n)}}, taint: taint})
				case reflect.Bool:
					rs = append(rs, &Cond{op: name, args: a})
				case reflect.Int, reflect.Int64:
					y := x.s.defsym("int", name, i, a...)
					if _, have := x.s.facts.iv[y]; !have {
						x.s.facts.iv[y] = Iv{big.NewInt(math.MinInt64), big.NewInt(math.MaxInt64)}
					}
					rs = append(rs, Int{linS(y)})
				case reflect.Interface:
					if x.dec(&Cond{op: name + ".err", args: a}) {
						rs = append(rs, x.mkErr(Str{segs: cstr("error from " + name).segs, taint: taint}))
					} else {
						rs = append(rs, Nil{})
					}
				default:
					panic(unsupported{name + " of unknown arguments"})
				}
			}
			if len(rs) == 1 {
				return rs[0]
			}
			return Tuple{rs}
		}
		var out []reflect.Value
		if ft.IsVariadic() {
			out = fv.CallSlice(in)
		} else {
			out = fv.Call(in)
		}
		var rs []Val
		for _, o := range out {
			rs = append(rs, x.lift(o, taint))
		}
		if len(rs) == 1 {
			return rs[0]
		}
		return Tuple{rs}
	}
}

func (x *Ctx) lift(o reflect.Value, taint []string) Val {
	switch o.Kind() {
	case reflect.String:
		s := cstr(o.String())
		s.taint = taint
		return s
	case reflect.Bool:
		return Bool(o.Bool())
	case reflect.Int, reflect.Int64, reflect.Int32:
		return mkInt(o.Int())
	case reflect.Float64:
		return FloatC(o.Float())
	case reflect.Slice:
		if o.Type().Elem().Kind() == reflect.Uint8 {
			return x.nb(cstr(string(o.Bytes())).segs)
		}
		var el []Val
		for i := 0; i < o.Len(); i++ {
			el = append(el, x.lift(o.Index(i), taint))
		}
		return x.e.newSlice(x.s, el)
	case reflect.Interface:
		if o.IsNil() {
			return Nil{}
		}
		if err, ok := o.Interface().(error); ok {
			return x.mkErr(Str{segs: cstr(err.Error()).segs, taint: taint})
		}
	}
	panic(unsupported{"result of kind " + o.Kind().String()})
}

func (e *Eng) setupIntrinsics() {
	m := map[string]intrinsic{}
	e.intr = m
	fold := func(name string, f interface{}) { m[name] = foldable(name, f) }

	// --- bytes.Buffer, bytes.Reader, strings.Builder, strings.Reader
	write := func(x *Ctx, a []Val) Val {
		b, r := x.buf(a[0])
		p := x.bytes(a[1])
		x.written(r)
		x.setBuf(r, segCat(b.segs, p))
		return tup(Int{segLen(p)}, Nil{})
	}
	length := func(x *Ctx, a []Val) Val { b, _ := x.buf(a[0]); return Int{segLen(b.segs)} }
	readByte := func(x *Ctx, a []Val) Val {
		b, r := x.buf(a[0])
		if !x.ge(linSub(segLen(b.segs), linC(1))) {
			return tup(mkInt(0), x.ioEOF())
		}
		v := x.e.byteAt(x.s, b.segs, linC(0))
		_, rest := x.e.segSplit(x.s, b.segs, linC(1))
		x.setBuf(r, rest)
		return tup(Int{v}, Nil{})
	}
	next := func(x *Ctx, a []Val) Val {
		b, r := x.buf(a[0])
		n := x.i(a[1])
		if !x.ge(n) {
			panic(goPanic{msg: "bytes.Buffer.Next: negative count: slice bounds out of range"})
		}
		l := segLen(b.segs)
		if !x.ge(linSub(l, n)) {
			n = l
		}
		h, t := x.e.segSplit(x.s, b.segs, n)
		x.setBuf(r, t)
		return x.nb(h)
	}
	read := func(x *Ctx, a []Val) Val {
		b, r := x.buf(a[0])
		n := x.e.seqLen(x.s, a[1])
		l := segLen(b.segs)
		if !x.ge(linSub(l, linC(1))) {
			if x.dec(condEQ(n)) {
				return tup(mkInt(0), Nil{})
			}
			return tup(mkInt(0), x.ioEOF())
		}
		if !x.ge(linSub(n, linC(1))) {
			return tup(mkInt(0), Nil{})
		}
		if !x.ge(linSub(l, n)) {
			n = l
		}
		h, t := x.e.segSplit(x.s, b.segs, n)
		x.e.writeBytes(x.s, a[1].(Slice), linC(0), h)
		x.setBuf(r, t)
		return tup(Int{n}, Nil{})
	}
	for _, p := range []string{"(*bytes.Buffer).", "(*strings.Builder).", "(*bytes.Reader).", "(*strings.Reader)."} {
		m[p+"Write"] = write
		m[p+"WriteString"] = write
		m[p+"WriteByte"] = func(x *Ctx, a []Val) Val {
			b, r := x.buf(a[0])
			x.written(r)
			x.setBuf(r, segCat(b.segs, []Seg{byteSeg(x.e.byteOf(x.s, x.i(a[1]), 0))}))
			return Nil{}
		}
		m[p+"WriteRune"] = func(x *Ctx, a []Val) Val {
			b, r := x.buf(a[0])
			n, ok := x.e.constInt(x.s, a[1])
			if !ok {
				panic(unsupported{"WriteRune"})
			}
			t := string(rune(n))
			x.written(r)
			x.setBuf(r, segCat(b.segs, cstr(t).segs))
			return tup(mkInt(int64(len(t))), Nil{})
		}
		m[p+"Len"] = length
		m[p+"Next"] = next
		m[p+"Read"] = read
		m[p+"ReadByte"] = readByte
		m[p+"Reset"] = func(x *Ctx, a []Val) Val {
			_, r := x.buf(a[0])
			if len(a) > 1 {
				x.setBuf(r, x.bytes(a[1]))
				return Tuple{}
			}
			x.setBuf(r, nil)
			x.emptied(r)
			return Tuple{}
		}
		m[p+"Bytes"] = func(x *Ctx, a []Val) Val {
			b, r := x.buf(a[0])
			if len(b.segs) == 0 {
				return Nil{}
			}
			v := x.nb(b.segs)
			o := x.s.heap[r.obj]
			x.s.set(r.obj, x.e.setPath(x.s, o.v, r.path, &BufV{b.segs, append(append([]Val(nil), b.out...), v), b.over}))
			return v
		}
		m[p+"String"] = func(x *Ctx, a []Val) Val {
			if _, ok := a[0].(Nil); ok {
				return cstr("<nil>")
			}
			b, _ := x.buf(a[0])
			return Str{segs: b.segs}
		}
		m[p+"Grow"] = func(x *Ctx, a []Val) Val {
			if !x.ge(x.i(a[1])) {
				panic(goPanic{msg: "bytes.Buffer.Grow: negative count"})
			}
			x.e.onAlloc(x.s, x.i(a[1]))
			return Tuple{}
		}
		m[p+"Truncate"] = func(x *Ctx, a []Val) Val {
			b, r := x.buf(a[0])
			n := x.i(a[1])
			if !x.ge(n) || !x.ge(linSub(segLen(b.segs), n)) {
				panic(goPanic{msg: "bytes.Buffer: truncation out of range"})
			}
			h, _ := x.e.segSplit(x.s, b.segs, n)
			x.setBuf(r, h)
			if n.isZero() {
				x.emptied(r)
			}
			return Tuple{}
		}
		m[p+"Cap"] = length
		m[p+"Available"] = func(x *Ctx, a []Val) Val { return mkInt(0) }
	}
	newBuf := func(pkg, typ string) intrinsic {
		return func(x *Ctx, a []Val) Val {
			t := x.e.pkgs[pkg].Type(typ).Type()
			id := x.s.alloc(&BufV{segs: x.bytes(a[0])}, t, "")
			return Ref{obj: id}
		}
	}
	m["bytes.NewBuffer"] = newBuf("bytes", "Buffer")
	m["bytes.NewBufferString"] = newBuf("bytes", "Buffer")
	m["bytes.NewReader"] = newBuf("bytes", "Reader")
	m["strings.NewReader"] = newBuf("strings", "Reader")
	m["bytes.Equal"] = func(x *Ctx, a []Val) Val {
		return x.e.strEq(x.s, Str{segs: x.bytes(a[0])}, Str{segs: x.bytes(a[1])})
	}
	m["bytes.Compare"] = func(x *Ctx, a []Val) Val {
		if x.dec(x.e.strEq(x.s, Str{segs: x.bytes(a[0])}, Str{segs: x.bytes(a[1])})) {
			return mkInt(0)
		}
		return mkInt(1)
	}
	m["bytes.HasPrefix"] = func(x *Ctx, a []Val) Val {
		b, p := x.bytes(a[0]), x.bytes(a[1])
		if !x.ge(linSub(segLen(b), segLen(p))) {
			return Bool(false)
		}
		h, _ := x.e.segSplit(x.s, b, segLen(p))
		return x.e.strEq(x.s, Str{segs: h}, Str{segs: p})
	}
	m["bytes.Repeat"] = func(x *Ctx, a []Val) Val {
		c, ok := segConst(x.bytes(a[0]))
		if !ok {
			panic(unsupported{"bytes.Repeat"})
		}
		return x.nb(segPush(nil, SRep{c, x.i(a[1])}))
	}
	clone := func(x *Ctx, a []Val) Val {
		if _, ok := a[0].(Nil); ok {
			return Nil{}
		}
		return x.nb(x.bytes(a[0]))
	}
	m["bytes.Clone"] = clone
	m["bytes.Join"] = func(x *Ctx, a []Val) Val {
		var out []Seg
		sep := x.bytes(a[1])
		for i, v := range x.e.elems(x.s, a[0]) {
			if i > 0 {
				out = segCat(out, sep)
			}
			out = segCat(out, x.bytes(v))
		}
		return x.nb(out)
	}
	fold("bytes.Contains", func(a, b []byte) bool { return strings.Contains(string(a), string(b)) })
	fold("bytes.IndexByte", func(a []byte, c int) int { return strings.IndexByte(string(a), byte(c)) })

	// --- strings and strconv, computed for constants
	fold("strings.ToLower", strings.ToLower)
	fold("strings.ToUpper", strings.ToUpper)
	fold("strings.Title", strings.Title)
	fold("strings.TrimSpace", strings.TrimSpace)
	fold("strings.Contains", strings.Contains)
	fold("strings.ContainsAny", strings.ContainsAny)
	fold("strings.ContainsRune", strings.ContainsRune)
	fold("strings.Split", strings.Split)
	fold("strings.SplitN", strings.SplitN)
	fold("strings.Fields", strings.Fields)
	fold("strings.Index", strings.Index)
	fold("strings.LastIndex", strings.LastIndex)
	fold("strings.IndexByte", func(s string, c int) int { return strings.IndexByte(s, byte(c)) })
	fold("strings.LastIndexByte", func(s string, c int) int { return strings.LastIndexByte(s, byte(c)) })
	fold("strings.IndexRune", strings.IndexRune)
	fold("strings.IndexAny", strings.IndexAny)
	fold("strings.Count", strings.Count)
	fold("strings.Compare", strings.Compare)
	fold("strings.EqualFold", strings.EqualFold)
	fold("strings.Trim", strings.Trim)
	fold("strings.TrimLeft", strings.TrimLeft)
	fold("strings.TrimRight", strings.TrimRight)
	fold("strings.TrimPrefix", strings.TrimPrefix)
	fold("strings.TrimSuffix", strings.TrimSuffix)
	fold("strings.Replace", strings.Replace)
	fold("strings.ReplaceAll", strings.ReplaceAll)
	fold("strings.Cut", strings.Cut)
	fold("strings.Clone", strings.Clone)
	fold("strings.HasPrefix", strings.HasPrefix)
	fold("strings.HasSuffix", strings.HasSuffix)
	fold("strings.LastIndexAny", strings.LastIndexAny)
	fold("strings.ToTitle", strings.ToTitle)
	fold("strings.SplitAfter", strings.SplitAfter)
	fold("strings.SplitAfterN", strings.SplitAfterN)
	fold("bytes.Index", bytes.Index)
	fold("bytes.LastIndex", bytes.LastIndex)
	fold("bytes.Count", bytes.Count)
	fold("bytes.ToLower", bytes.ToLower)
	fold("bytes.ToUpper", bytes.ToUpper)
	fold("bytes.TrimSpace", bytes.TrimSpace)
	fold("bytes.ReplaceAll", bytes.ReplaceAll)
	fold("bytes.EqualFold", bytes.EqualFold)
	fold("strconv.ParseFloat", strconv.ParseFloat)
	fold("time.ParseDuration", time.ParseDuration)
	fold("strconv.Atoi", strconv.Atoi)
	fold("strconv.ParseInt", strconv.ParseInt)
	fold("strconv.ParseBool", strconv.ParseBool)
	fold("strconv.Itoa", strconv.Itoa)
	fold("strconv.Quote", strconv.Quote)
	fold("strconv.FormatInt", strconv.FormatInt)
	fold("strconv.FormatBool", strconv.FormatBool)
	fold("encoding/hex.EncodeToString", func(b []byte) string { return fmt.Sprintf("%x", b) })
	m["strings.Repeat"] = func(x *Ctx, a []Val) Val {
		c, ok := x.cstr(a[0])
		n := x.i(a[1])
		if !x.ge(n) {
			panic(goPanic{msg: "strings: negative Repeat count"})
		}
		if !ok {
			panic(unsupported{"strings.Repeat"})
		}
		return Str{segs: segPush(nil, SRep{c, n})}
	}
	m["strings.Join"] = func(x *Ctx, a []Val) Val {
		var out Str
		for i, v := range x.e.elems(x.s, a[0]) {
			if i > 0 {
				out.segs = segCat(out.segs, a[1].(Str).segs)
			}
			out.segs = segCat(out.segs, v.(Str).segs)
			out.taint = unionTaint(out.taint, v.(Str).taint)
		}
		return out
	}
	m["unicode/utf8.ValidString"] = func(x *Ctx, a []Val) Val {
		if c, ok := x.cstr(a[0]); ok {
			return Bool(utf8.ValidString(c))
		}
		return &Cond{op: "utf8.Valid", args: []Val{Str{segs: x.bytes(a[0])}}}
	}
	m["unicode/utf8.Valid"] = m["unicode/utf8.ValidString"]
	fold("unicode/utf8.RuneCountInString", utf8.RuneCountInString)

	// --- math
	m["math.Float64bits"] = func(x *Ctx, a []Val) Val {
		if c, ok := a[0].(FloatC); ok {
			return Int{linB(new(big.Int).SetUint64(math.Float64bits(float64(c))))}
		}
		y := x.s.defsym("int", "fbits", 64, a[0])
		if _, ok := x.s.facts.iv[y]; !ok {
			lo, hi := rangeOf(64, false)
			x.s.facts.iv[y] = Iv{lo, hi}
		}
		return Int{linS(y)}
	}
	m["math.Float64frombits"] = func(x *Ctx, a []Val) Val {
		l := x.i(a[0])
		if l.isConst() {
			return FloatC(math.Float64frombits(l.c.Uint64()))
		}
		if y := l.single(); y != nil && y.Def != nil && y.Def.Op == "fbits" {
			return y.Def.Args[0]
		}
		return x.s.defsym("float", "frombits", 64, a[0])
	}
	m["math.Float32bits"] = func(x *Ctx, a []Val) Val {
		if c, ok := a[0].(FloatC); ok {
			return Int{linB(new(big.Int).SetUint64(uint64(math.Float32bits(float32(c)))))}
		}
		y := x.s.defsym("int", "fbits32", 32, a[0])
		if _, ok := x.s.facts.iv[y]; !ok {
			lo, hi := rangeOf(32, false)
			x.s.facts.iv[y] = Iv{lo, hi}
		}
		return Int{linS(y)}
	}
	m["math.Float32frombits"] = func(x *Ctx, a []Val) Val {
		l := x.i(a[0])
		if l.isConst() {
			return FloatC(math.Float32frombits(uint32(l.c.Uint64())))
		}
		return x.s.defsym("float", "frombits32", 32, a[0])
	}
	fcond := func(n string) intrinsic {
		return func(x *Ctx, a []Val) Val {
			if c, ok := a[0].(FloatC); ok {
				if n == "IsNaN" {
					return Bool(math.IsNaN(float64(c)))
				}
				return Bool(math.IsInf(float64(c), 0))
			}
			return &Cond{op: n, args: a[:1]}
		}
	}
	m["math.IsNaN"] = fcond("IsNaN")
	m["math.IsInf"] = fcond("IsInf")
	ff := func(name string, f func(float64) float64) {
		m["math."+name] = func(x *Ctx, a []Val) Val {
			if c, ok := a[0].(FloatC); ok {
				return FloatC(f(float64(c)))
			}
			return x.s.defsym("float", name, 0, a[0])
		}
	}
	ff("Trunc", math.Trunc)
	ff("Floor", math.Floor)
	ff("Ceil", math.Ceil)
	ff("Abs", math.Abs)

	// --- time
	m["time.Now"] = func(x *Ctx, a []Val) Val { return TimeV{seq: x.s.epoch, dur: linC(0)} }
	m["(time.Time).Add"] = func(x *Ctx, a []Val) Val {
		t := a[0].(TimeV)
		if t.zero {
			return TimeV{seq: -1, dur: x.i(a[1])}
		}
		return TimeV{seq: t.seq, dur: linAdd(t.dur, x.i(a[1]))}
	}
	m["(time.Time).IsZero"] = func(x *Ctx, a []Val) Val { return Bool(a[0].(TimeV).zero) }
	m["(time.Time).UTC"] = func(x *Ctx, a []Val) Val { return a[0] }
	m["(time.Time).Sub"] = func(x *Ctx, a []Val) Val {
		t, u := a[0].(TimeV), a[1].(TimeV)
		if t.seq == u.seq {
			return Int{linSub(t.dur, u.dur)}
		}
		return Int{linS(x.fresh("elapsed", 0, math.MaxInt64))}
	}
	m["time.Since"] = func(x *Ctx, a []Val) Val { return Int{linS(x.fresh("elapsed", 0, math.MaxInt64))} }
	m["time.Until"] = func(x *Ctx, a []Val) Val {
		t := a[0].(TimeV)
		if !t.zero && t.seq == x.s.epoch {
			return Int{t.dur}
		}
		return Int{linS(x.fresh("left", math.MinInt64, math.MaxInt64))}
	}
	for _, n := range []string{"Unix", "UnixNano", "UnixMilli", "UnixMicro"} {
		m["(time.Time)."+n] = func(x *Ctx, a []Val) Val { return Int{linS(x.fresh("clock", 0, math.MaxInt64))} }
	}
	m["time.Sleep"] = func(x *Ctx, a []Val) Val { x.s.epoch++; return Tuple{} }
	tcond := func(n string) intrinsic {
		return func(x *Ctx, a []Val) Val { return &Cond{op: n + strconv.FormatInt(newSym("", "").seq, 10), args: nil} }
	}
	m["(time.Time).After"] = tcond("after")
	m["(time.Time).Before"] = tcond("before")
	m["(time.Duration).Seconds"] = func(x *Ctx, a []Val) Val {
		if n, ok := x.e.constInt(x.s, a[0]); ok {
			return FloatC(float64(n) / 1e9)
		}
		return x.s.defsym("float", "seconds", 0, a[0])
	}
	m["(time.Duration).String"] = func(x *Ctx, a []Val) Val { return cstr("‹duration›") }

	// --- locks
	m["(*sync.Mutex).Lock"] = func(x *Ctx, a []Val) Val { x.lock(a[0], true); return Tuple{} }
	m["(*sync.Mutex).TryLock"] = func(x *Ctx, a []Val) Val {
		r := a[0].(Ref)
		l := x.e.getPath(x.s, x.s.heap[r.obj].v, r.path).(LockV)
		if l.w > 0 || l.r > 0 {
			return Bool(false)
		}
		if x.e.choose(x.s, 2, "trylock") == 1 {
			return Bool(false)
		}
		x.lock(a[0], true)
		return Bool(true)
	}
	m["(*sync.Mutex).Unlock"] = func(x *Ctx, a []Val) Val { x.unlock(a[0], true); return Tuple{} }
	m["(*sync.RWMutex).Lock"] = m["(*sync.Mutex).Lock"]
	m["(*sync.RWMutex).Unlock"] = m["(*sync.Mutex).Unlock"]
	m["(*sync.RWMutex).RLock"] = func(x *Ctx, a []Val) Val { x.lock(a[0], false); return Tuple{} }
	m["(*sync.RWMutex).RUnlock"] = func(x *Ctx, a []Val) Val { x.unlock(a[0], false); return Tuple{} }
	for _, t := range []string{"Bool", "Int32", "Int64", "Uint32", "Uint64"} {
		p := "(*sync/atomic." + t + ")."
		isB := t == "Bool"
		get := func(x *Ctx, r Val) Val {
			rf := r.(Ref)
			v := x.e.getPath(x.s, x.s.heap[rf.obj].v, rf.path).(*Lib).at[0]
			if isB {
				if _, ok := v.(Int); ok {
					return Bool(false)
				}
			}
			return v
		}
		put := func(x *Ctx, r Val, v Val) {
			rf := r.(Ref)
			o := x.s.heap[rf.obj]
			x.s.set(rf.obj, x.e.setPath(x.s, o.v, rf.path, &Lib{kind: "atomic", at: []Val{v}}))
		}
		m[p+"Load"] = func(x *Ctx, a []Val) Val { return get(x, a[0]) }
		m[p+"Store"] = func(x *Ctx, a []Val) Val { put(x, a[0], a[1]); return Tuple{} }
		m[p+"Swap"] = func(x *Ctx, a []Val) Val { o := get(x, a[0]); put(x, a[0], a[1]); return o }
		m[p+"Add"] = func(x *Ctx, a []Val) Val {
			v := Int{linAdd(asInt(get(x, a[0])), asInt(a[1]))}
			put(x, a[0], v)
			return v
		}
		m[p+"CompareAndSwap"] = func(x *Ctx, a []Val) Val {
			if x.dec(x.e.eq(x.s, get(x, a[0]), a[1])) {
				put(x, a[0], a[2])
				return Bool(true)
			}
			return Bool(false)
		}
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		m["sync/atomic.Load"+t] = func(x *Ctx, a []Val) Val { return x.atomicLoad(a[0]) }
		m["sync/atomic.Store"+t] = func(x *Ctx, a []Val) Val { x.atomicStore(a[0], a[1]); return Tuple{} }
		m["sync/atomic.Add"+t] = func(x *Ctx, a []Val) Val {
			v := Int{linAdd(asInt(x.atomicLoad(a[0])), asInt(a[1]))}
			x.atomicStore(a[0], v)
			return v
		}
		m["sync/atomic.CompareAndSwap"+t] = func(x *Ctx, a []Val) Val {
			if x.dec(x.e.eq(x.s, x.atomicLoad(a[0]), a[1])) {
				x.atomicStore(a[0], a[2])
				return Bool(true)
			}
			return Bool(false)
		}
	}

	// --- errors, runtime
	m["runtime/debug.Stack"] = func(x *Ctx, a []Val) Val { return x.nb(cstr("‹stack›").segs) }
	m["runtime.Stack"] = func(x *Ctx, a []Val) Val { return mkInt(0) }
	m["errors.As"] = func(x *Ctx, a []Val) Val { return x.errorsAs(a[0], a[1]) }
	m["os.Exit"] = func(x *Ctx, a []Val) Val { panic(endPath{"exit"}) }
	m["runtime.GC"] = func(x *Ctx, a []Val) Val { return Tuple{} }
	m["runtime.KeepAlive"] = func(x *Ctx, a []Val) Val { return Tuple{} }
	m["runtime.SetFinalizer"] = func(x *Ctx, a []Val) Val { return Tuple{} }
	m["runtime.Gosched"] = func(x *Ctx, a []Val) Val { return Tuple{} }

	// --- reflect
	rtype := func(x *Ctx, t types.Type) Val {
		rt := x.e.pkgs["reflect"].Type("rtype").Type()
		return Iface{x.e.ptrType(rt), TypV{t}}
	}
	m["reflect.TypeOf"] = func(x *Ctx, a []Val) Val {
		if i, ok := a[0].(Iface); ok {
			return rtype(x, i.t)
		}
		return Nil{}
	}
	m["reflect.TypeFor"] = func(x *Ctx, a []Val) Val { return rtype(x, x.fn.TypeArgs()[0]) }
	m["(*reflect.rtype).Kind"] = func(x *Ctx, a []Val) Val { return mkInt(int64(kindOf(a[0].(TypV).t))) }
	m["(*reflect.rtype).Elem"] = func(x *Ctx, a []Val) Val {
		switch u := a[0].(TypV).t.Underlying().(type) {
		case *types.Slice:
			return rtype(x, u.Elem())
		case *types.Array:
			return rtype(x, u.Elem())
		case *types.Pointer:
			return rtype(x, u.Elem())
		case *types.Map:
			return rtype(x, u.Elem())
		case *types.Chan:
			return rtype(x, u.Elem())
		}
		panic(goPanic{msg: "reflect: Elem of invalid type"})
	}
	m["(*reflect.rtype).Key"] = func(x *Ctx, a []Val) Val {
		if u, ok := a[0].(TypV).t.Underlying().(*types.Map); ok {
			return rtype(x, u.Key())
		}
		panic(goPanic{msg: "reflect: Key of non-map type"})
	}
	m["(*reflect.rtype).String"] = func(x *Ctx, a []Val) Val {
		return cstr(types.TypeString(a[0].(TypV).t, func(p *types.Package) string { return p.Name() }))
	}
	m["(*reflect.rtype).Name"] = m["(*reflect.rtype).String"]
	m["reflect.ValueOf"] = func(x *Ctx, a []Val) Val {
		if i, ok := a[0].(Iface); ok {
			return ReflV{i.t, i.v}
		}
		return ReflV{}
	}
	m["(reflect.Value).Kind"] = func(x *Ctx, a []Val) Val {
		r := a[0].(ReflV)
		if r.t == nil {
			return mkInt(0)
		}
		return mkInt(int64(kindOf(r.t)))
	}
	m["(reflect.Value).Type"] = func(x *Ctx, a []Val) Val { return rtype(x, a[0].(ReflV).t) }
	m["(reflect.Value).IsValid"] = func(x *Ctx, a []Val) Val { return Bool(a[0].(ReflV).t != nil) }
	m["(reflect.Value).IsNil"] = func(x *Ctx, a []Val) Val { _, ok := a[0].(ReflV).v.(Nil); return Bool(ok) }
	m["(reflect.Value).Len"] = func(x *Ctx, a []Val) Val {
		r := a[0].(ReflV)
		if ref, ok := r.v.(Ref); ok {
			if mv, ok := x.s.heap[ref.obj].v.(*MapV); ok {
				return mkInt(int64(len(mv.ent)))
			}
		}
		return Int{x.e.seqLen(x.s, r.v)}
	}
	m["(reflect.Value).Index"] = func(x *Ctx, a []Val) Val {
		r := a[0].(ReflV)
		i := x.i(a[1])
		var et types.Type
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Array:
			et = u.Elem()
		default:
			panic(unsupported{"reflect Index"})
		}
		n := x.e.seqLen(x.s, r.v)
		x.e.checkIndex(x.s, i, n)
		if sl, ok := r.v.(Slice); ok {
			return ReflV{et, x.e.load(x.s, x.e.indexAddr(x.s, sl, Int{i}, r.t))}
		}
		return ReflV{et, x.e.getPath(x.s, r.v, []pel{pelIdx(i)})}
	}
	m["(reflect.Value).Interface"] = func(x *Ctx, a []Val) Val {
		r := a[0].(ReflV)
		if r.t == nil {
			panic(goPanic{msg: "reflect: call of Interface on zero Value"})
		}
		if types.IsInterface(r.t) {
			return r.v
		}
		return Iface{r.t, r.v}
	}
	m["(reflect.Value).Elem"] = func(x *Ctx, a []Val) Val {
		r := a[0].(ReflV)
		if types.IsInterface(r.t) {
			if i, ok := r.v.(Iface); ok {
				return ReflV{i.t, i.v}
			}
			return ReflV{}
		}
		if p, ok := r.t.Underlying().(*types.Pointer); ok {
			if _, isNil := r.v.(Nil); isNil {
				return ReflV{}
			}
			return ReflV{p.Elem(), x.e.load(x.s, r.v)}
		}
		panic(goPanic{msg: "reflect: call of Elem on a non-pointer"})
	}
	m["(reflect.Value).Int"] = func(x *Ctx, a []Val) Val { return a[0].(ReflV).v }
	m["(reflect.Value).Uint"] = m["(reflect.Value).Int"]
	m["(reflect.Value).Float"] = func(x *Ctx, a []Val) Val {
		r := a[0].(ReflV)
		return x.e.convert(x.s, r.v, r.t, types.Typ[types.Float64])
	}
	m["(reflect.Value).Bool"] = m["(reflect.Value).Int"]
	m["(reflect.Value).String"] = func(x *Ctx, a []Val) Val {
		if st, ok := a[0].(ReflV).v.(Str); ok {
			return st
		}
		return cstr("<value>")
	}
	m["(reflect.Value).MapKeys"] = func(x *Ctx, a []Val) Val {
		r := a[0].(ReflV)
		mt := r.t.Underlying().(*types.Map)
		var el []Val
		for _, en := range x.e.mapOf(x.s, r.v).ent {
			el = append(el, ReflV{mt.Key(), en.k})
		}
		return x.e.newSlice(x.s, el)
	}
	m["(reflect.Value).MapIndex"] = func(x *Ctx, a []Val) Val {
		r := a[0].(ReflV)
		mt := r.t.Underlying().(*types.Map)
		mv := x.e.mapOf(x.s, r.v)
		if i := x.e.mapFind(x.s, mv, a[1].(ReflV).v); i >= 0 {
			return ReflV{mt.Elem(), mv.ent[i].v}
		}
		return ReflV{}
	}
	m["(reflect.Kind).String"] = func(x *Ctx, a []Val) Val { return cstr("‹kind›") }

	// --- net/url
	m["net/url.Parse"] = func(x *Ctx, a []Val) Val { return x.urlParse(a[0]) }
	m["net/url.ParseQuery"] = func(x *Ctx, a []Val) Val {
		v, err := url.ParseQuery(x.holed(a[0]))
		if err != nil {
			return tup(x.urlValues(v), x.mkErr(x.unhole(err.Error())))
		}
		return tup(x.urlValues(v), Nil{})
	}
	m["(*net/url.URL).Query"] = func(x *Ctx, a []Val) Val {
		u := x.urlOf(a[0])
		return x.urlValues(u.Query())
	}
	m["(*net/url.URL).String"] = func(x *Ctx, a []Val) Val { return x.unhole(x.urlOf(a[0]).String()) }
	m["(*net/url.URL).Redacted"] = func(x *Ctx, a []Val) Val { return x.unhole(x.urlOf(a[0]).Redacted()) }
	m["(*net/url.URL).RequestURI"] = func(x *Ctx, a []Val) Val { return x.unhole(x.urlOf(a[0]).RequestURI()) }
	m["(*net/url.URL).EscapedPath"] = func(x *Ctx, a []Val) Val { return x.unhole(x.urlOf(a[0]).EscapedPath()) }
	m["(*net/url.URL).Hostname"] = func(x *Ctx, a []Val) Val { return x.unhole(x.urlOf(a[0]).Hostname()) }
	m["(*net/url.URL).Port"] = func(x *Ctx, a []Val) Val { return x.unhole(x.urlOf(a[0]).Port()) }
	m["(net/url.Values).Get"] = func(x *Ctx, a []Val) Val {
		mv := x.e.mapOf(x.s, a[0])
		i := x.e.mapFind(x.s, mv, a[1])
		if i < 0 {
			return Str{}
		}
		el := x.e.elems(x.s, mv.ent[i].v)
		if len(el) == 0 {
			return Str{}
		}
		return el[0]
	}
	m["(net/url.Values).Has"] = func(x *Ctx, a []Val) Val {
		return Bool(x.e.mapFind(x.s, x.e.mapOf(x.s, a[0]), a[1]) >= 0)
	}
	m["(*net/url.Userinfo).Username"] = func(x *Ctx, a []Val) Val {
		if _, ok := a[0].(Nil); ok {
			return Str{}
		}
		return x.structField(a[0], 0)
	}
	m["(*net/url.Userinfo).Password"] = func(x *Ctx, a []Val) Val {
		if _, ok := a[0].(Nil); ok {
			return tup(Str{}, Bool(false))
		}
		return tup(x.structField(a[0], 1), x.structField(a[0], 2))
	}
	m["(*net/url.Userinfo).String"] = func(x *Ctx, a []Val) Val {
		if _, ok := a[0].(Nil); ok {
			return Str{}
		}
		u := x.structField(a[0], 0).(Str)
		if x.dec(x.structField(a[0], 2)) {
			return Str{segs: segCat(u.segs, cstr(":").segs, x.structField(a[0], 1).(Str).segs)}
		}
		return u
	}
	m["(*net/url.Error).Error"] = func(x *Ctx, a []Val) Val {
		return Str{segs: segCat(x.structField(a[0], 0).(Str).segs, cstr(" \"").segs, x.structField(a[0], 1).(Str).segs, cstr("\": invalid").segs)}
	}
	m["(*net/url.Error).Unwrap"] = func(x *Ctx, a []Val) Val { return x.structField(a[0], 2) }
	for name, f := range map[string]func(string) string{
		"net/url.QueryEscape": url.QueryEscape,
		"net/url.PathEscape":  url.PathEscape,
	} {
		f := f
		m[name] = func(x *Ctx, a []Val) Val { return x.unhole(f(x.holed(a[0]))) }
	}
	for name, f := range map[string]func(string) (string, error){
		"net/url.QueryUnescape": url.QueryUnescape,
		"net/url.PathUnescape":  url.PathUnescape,
	} {
		f := f
		m[name] = func(x *Ctx, a []Val) Val {
			s, err := f(x.holed(a[0]))
			if err != nil {
				return tup(Str{}, x.mkErr(x.unhole(err.Error())))
			}
			return tup(x.unhole(s), Nil{})
		}
	}
	for _, name := range []string{"strconv.Atoi", "strconv.ParseInt"} {
		old := m[name]
		m[name] = func(x *Ctx, a []Val) Val {
			if st, ok := a[0].(Str); ok && len(st.segs) == 1 {
				if g, ok := st.segs[0].(SRng); ok && g.s.Def != nil && g.s.Def.Op == "dec" && g.off.isZero() && g.n.eq(g.s.Def.Args[1].(Int).L) {
					if len(a) > 1 {
						if b, ok := x.e.constInt(x.s, a[1]); !ok || b != 10 && b != 0 {
							panic(unsupported{"strconv.ParseInt with another base"})
						}
						if b, ok := x.e.constInt(x.s, a[2]); !ok || b != 64 && b != 0 {
							panic(unsupported{"strconv.ParseInt with another size"})
						}
					}
					return tup(g.s.Def.Args[0], Nil{})
				}
			}
			return old(x, a)
		}
	}
	fold("net.JoinHostPort", func(h, p string) string { return h + ":" + p })
	m["net.SplitHostPort"] = func(x *Ctx, a []Val) Val {
		h := x.cs(a[0])
		i := strings.LastIndex(h, ":")
		if i < 0 {
			return tup(Str{}, Str{}, x.mkErr(cstr("missing port in address")))
		}
		return tup(cstr(h[:i]), cstr(h[i+1:]), Nil{})
	}
	m["context.Background"] = func(x *Ctx, a []Val) Val {
		t := x.e.pkgs["context"].Type("backgroundCtx").Type()
		return Iface{t, x.e.zero(t)}
	}
	m["context.TODO"] = m["context.Background"]
	m["(context.backgroundCtx).String"] = func(x *Ctx, a []Val) Val { return cstr("ctx") }

	e.setupModelIntrinsics()
}

func (x *Ctx) atomicLoad(r Val) Val {
	rf, ok := r.(Ref)
	if !ok {
		panic(goPanic{msg: "nil pointer dereference"})
	}
	x.e.noteAccess2(x.s, x.s.heap[rf.obj], rf, false, true)
	return x.e.getPath(x.s, x.s.heap[rf.obj].v, rf.path)
}

func (x *Ctx) atomicStore(r, v Val) {
	rf, ok := r.(Ref)
	if !ok {
		panic(goPanic{msg: "nil pointer dereference"})
	}
	o := x.s.heap[rf.obj]
	x.e.noteAccess2(x.s, o, rf, true, true)
	x.s.set(rf.obj, x.e.setPath(x.s, o.v, rf.path, v))
}

func (x *Ctx) structField(r Val, i int) Val {
	return x.e.load(x.s, x.e.refAdd(r, pel{i: i}))
}

func (x *Ctx) fresh(name string, lo, hi int64) *Sym {
	y := newSym("int", name)
	x.s.facts.iv[y] = Iv{big.NewInt(lo), big.NewInt(hi)}
	return y
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

// ---------- locks ----------

func pathKey(p []pel) string {
	var b strings.Builder
	for _, e := range p {
		fmt.Fprintf(&b, ".%d", e.i)
	}
	return b.String()
}

func (x *Ctx) lock(r Val, w bool) {
	ref, ok := r.(Ref)
	if !ok {
		panic(goPanic{msg: "nil pointer dereference: lock"})
	}
	o := x.s.heap[ref.obj]
	l := x.e.getPath(x.s, o.v, ref.path).(LockV)
	k := pathKey(ref.path)
	x.e.noteAcquire(x.s, ref.obj, k, w)
	if l.w > 0 || (w && l.r > 0) {
		panic(blocked{"takes a lock that the same call already holds"})
	}
	if w {
		l.w++
	} else {
		l.r++
	}
	x.s.set(ref.obj, x.e.setPath(x.s, o.v, ref.path, l))
	x.s.held = append(append([]heldLock(nil), x.s.held...), heldLock{ref.obj, k, w})
}

func (x *Ctx) unlock(r Val, w bool) {
	ref, ok := r.(Ref)
	if !ok {
		panic(goPanic{msg: "nil pointer dereference: unlock"})
	}
	o := x.s.heap[ref.obj]
	l := x.e.getPath(x.s, o.v, ref.path).(LockV)
	k := pathKey(ref.path)
	if (w && l.w == 0) || (!w && l.r == 0) {
		panic(goPanic{msg: "unlock of unlocked mutex"})
	}
	if w {
		l.w--
	} else {
		l.r--
	}
	x.s.set(ref.obj, x.e.setPath(x.s, o.v, ref.path, l))
	var h []heldLock
	done := false
	for _, q := range x.s.held {
		if !done && q.obj == ref.obj && q.path == k && q.w == w {
			done = true
			continue
		}
		h = append(h, q)
	}
	x.s.held = h
}

// ---------- errors.As ----------

func (x *Ctx) errorsAs(err, target Val) Val {
	ti, ok := target.(Iface)
	if !ok {
		panic(goPanic{msg: "errors: target cannot be nil"})
	}
	want := ti.t.Underlying().(*types.Pointer).Elem()
	for n := 0; n < 64; n++ {
		i, ok := err.(Iface)
		if !ok {
			return Bool(false)
		}
		if it, isI := want.Underlying().(*types.Interface); isI {
			if types.Implements(i.t, it) {
				x.e.store(x.s, ti.v, err)
				return Bool(true)
			}
		} else if types.Identical(i.t, want) {
			x.e.store(x.s, ti.v, i.v)
			return Bool(true)
		}
		// follow Unwrap only where it is a plain field: otherwise unknown
		sel := types.NewMethodSet(i.t).Lookup(nil, "Unwrap")
		if sel == nil {
			return Bool(false)
		}
		panic(unsupported{"errors.As through Unwrap of " + i.t.String()})
	}
	return Bool(false)
}

// ---------- net/url ----------

func (x *Ctx) urlParse(v Val) Val {
	raw := x.holed(v)
	u, err := url.Parse(raw)
	pkg := x.e.pkgs["net/url"]
	if err != nil {
		ue := err.(*url.Error)
		t := pkg.Type("Error").Type()
		id := x.s.alloc(&Struct{f: []Val{cstr(ue.Op), x.unhole(ue.URL), x.mkErr(x.unhole(ue.Err.Error()))}}, t, "")
		return tup(Nil{}, Iface{x.e.ptrType(t), Ref{obj: id}})
	}
	ut := pkg.Type("URL").Type()
	st := ut.Underlying().(*types.Struct)
	z := x.e.zero(ut).(*Struct)
	n := &Struct{f: append([]Val(nil), z.f...)}
	rv := reflect.ValueOf(*u)
	for i := 0; i < st.NumFields(); i++ {
		fv := rv.FieldByName(st.Field(i).Name())
		switch {
		case !fv.IsValid():
		case fv.Kind() == reflect.String:
			n.f[i] = x.unhole(fv.String())
		case fv.Kind() == reflect.Bool:
			n.f[i] = Bool(fv.Bool())
		case st.Field(i).Name() == "User" && u.User != nil:
			pw, set := u.User.Password()
			uit := pkg.Type("Userinfo").Type()
			n.f[i] = Ref{obj: x.s.alloc(&Struct{f: []Val{x.unhole(u.User.Username()), x.unhole(pw), Bool(set)}}, uit, "")}
		}
	}
	return tup(Ref{obj: x.s.alloc(n, ut, "")}, Nil{})
}

func (x *Ctx) urlOf(r Val) *url.URL {
	v, ok := x.e.load(x.s, r).(*Struct)
	if !ok {
		panic(unsupported{"url expected"})
	}
	ut := x.e.pkgs["net/url"].Type("URL").Type().Underlying().(*types.Struct)
	u := &url.URL{}
	rv := reflect.ValueOf(u).Elem()
	for i := 0; i < ut.NumFields(); i++ {
		fv := rv.FieldByName(ut.Field(i).Name())
		switch {
		case !fv.IsValid() || !fv.CanSet():
		case fv.Kind() == reflect.String:
			fv.SetString(x.holed(v.f[i]))
		case fv.Kind() == reflect.Bool:
			fv.SetBool(x.dec(v.f[i]))
		case ut.Field(i).Name() == "User":
			if _, isNil := v.f[i].(Nil); !isNil {
				n := x.holed(x.structField(v.f[i], 0))
				if x.dec(x.structField(v.f[i], 2)) {
					u.User = url.UserPassword(n, x.holed(x.structField(v.f[i], 1)))
				} else {
					u.User = url.User(n)
				}
			}
		}
	}
	return u
}

func (x *Ctx) urlValues(q url.Values) Val {
	var ks []string
	for k := range q {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	mv := &MapV{}
	for _, k := range ks {
		var el []Val
		for _, s := range q[k] {
			el = append(el, x.unhole(s))
		}
		mv.ent = append(mv.ent, ment{x.unhole(k), x.e.newSlice(x.s, el)})
	}
	return Ref{obj: x.s.alloc(mv, nil, "")}
}

// Unknown texts in a connection string consist of letters and digits, so that the functions of net/url
// treat them all alike: a unique word takes their place.

var holes sync.Map // number -> Str

func (x *Ctx) holed(v Val) string {
	st, ok := v.(Str)
	if !ok {
		panic(unsupported{"string expected"})
	}
	var b strings.Builder
	for _, g := range x.s.normSegs(x.e, st.segs) {
		if c, ok := segConst([]Seg{g}); ok {
			b.WriteString(c)
			continue
		}
		r, ok := g.(SRng)
		if !ok || r.s.Typ != "hole" || !r.off.isZero() {
			panic(unsupported{"an unknown string in a URL: " + valStr(v)})
		}
		holes.Store(r.s.seq, Str{segs: []Seg{g}, taint: r.s.Taint})
		b.WriteString(hole(r.s))
	}
	return b.String()
}

func hole(y *Sym) string { return "vh" + strconv.FormatInt(y.seq, 10) + "hv" }

var holeRE = regexp.MustCompile("vh([0-9]+)hv")

func (x *Ctx) unhole(t string) Str {
	out := Str{}
	for {
		i := holeRE.FindStringSubmatchIndex(t)
		if i == nil {
			break
		}
		n, _ := strconv.ParseInt(t[i[2]:i[3]], 10, 64)
		h, _ := holes.Load(n)
		out = Str{segs: segCat(out.segs, cstr(t[:i[0]]).segs, h.(Str).segs), taint: unionTaint(out.taint, h.(Str).taint)}
		t = t[i[1]:]
	}
	return Str{segs: segCat(out.segs, cstr(t).segs), taint: out.taint}
}
