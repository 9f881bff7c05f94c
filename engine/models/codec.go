package vmodels

import (
	"bytes"
	"errors"
	"math"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
)

// ---------- what the encoder writes ----------

// sink takes what an encoder writes.
type sink struct {
	got   bytes.Buffer
	fails bool // a write may fail
	fault bool // a write failed
}

var errSink = errors.New("write failed")

func (s *sink) Write(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if s.fails && Choose(2) == 1 {
		Note("a write fails")
		s.fault = true
		return 0, errSink
	}
	s.got.Write(b)
	return len(b), nil
}

// chunkHeader is the number in the first two bytes.
func chunkHeader(b []byte) int {
	var n uint16
	SetNum(&n, b[:2], false)
	return int(n)
}

// dechunk checks the framing of one message and gives its payload.
func dechunk(b []byte, max int, value int) []byte {
	var out []byte
	for {
		Check("C06,C02", len(b) >= 2, "every chunk has a two-byte header and the message is ended by a zero header")
		n := chunkHeader(b)
		b = b[2:]
		if n == 0 {
			break
		}
		Check("C06,C02", len(b) >= n, "a chunk header equals the number of bytes that follow it")
		if value <= max {
			Check("C06", n <= max, "no chunk is longer than the configured chunk size")
		} else {
			Expect("C06", n <= max, "no chunk is longer than the configured chunk size, where a single value is longer than that")
		}
		out = append(out, b[:n]...)
		b = b[n:]
	}
	Check("C06", len(b) == 0, "exactly one zero header ends a message")
	return out
}

// agree: what the code gave is what it has to give.
func agree(props string, got, want interface{}, what string) {
	switch Cmp(got, want) {
	case 1:
		Check(props, true, what)
	case 0:
		Note("got " + Describe(got) + ", want " + Describe(want))
		Check(props, false, what)
	default:
		Note("got " + Describe(got) + ", want " + Describe(want))
		Undecided(what)
	}
}

// ---------- the reference encoding ----------

func refInt(n int64) []byte {
	switch {
	case n >= -16 && n <= 127:
		return PutNum(int8(n), false)
	case n >= -128 && n <= 127:
		return append([]byte{0xC8}, PutNum(int8(n), false)...)
	case n >= -32768 && n <= 32767:
		return append([]byte{0xC9}, PutNum(int16(n), false)...)
	case n >= -2147483648 && n <= 2147483647:
		return append([]byte{0xCA}, PutNum(int32(n), false)...)
	}
	return append([]byte{0xCB}, PutNum(n, false)...)
}

func refFloat(f float64) []byte { return append([]byte{0xC1}, PutNum(f, false)...) }

// refSize is the header of something of n elements. big: there is a class with four bytes of size.
func refSize(n int, tiny, m8, m16, m32 byte) []byte {
	switch {
	case n <= 15:
		return PutNum(uint8(int(tiny)+n), false)
	case n <= 255:
		return append([]byte{m8}, PutNum(uint8(n), false)...)
	case n <= 65535:
		return append([]byte{m16}, PutNum(uint16(n), false)...)
	}
	return append([]byte{m32}, PutNum(uint32(n), false)...)
}

func refStr(s string) []byte {
	return append(refSize(len(s), 0x80, 0xD0, 0xD1, 0xD2), s...)
}

func refList(n int) []byte   { return refSize(n, 0x90, 0xD4, 0xD5, 0xD6) }
func refMap(n int) []byte    { return refSize(n, 0xA0, 0xD8, 0xD9, 0xDA) }
func refStruct(n int) []byte { return refSize(n, 0xB0, 0xDC, 0xDD, 0) }

// ---------- scalars ----------

type namedInt int64

func scalar() (v interface{}, want []byte, bad string) {
	switch Choose(14) {
	case 0:
		Note("nil")
		return nil, []byte{0xC0}, ""
	case 1:
		Note("true")
		return true, []byte{0xC3}, ""
	case 2:
		Note("false")
		return false, []byte{0xC2}, ""
	case 3:
		Note("an int")
		n := SymInt("v", math.MinInt64, math.MaxInt64)
		return int(n), refInt(n), ""
	case 4:
		Note("an int8")
		n := SymInt("v", math.MinInt8, math.MaxInt8)
		return int8(n), refInt(n), ""
	case 5:
		Note("an int16")
		n := SymInt("v", math.MinInt16, math.MaxInt16)
		return int16(n), refInt(n), ""
	case 6:
		Note("an int32")
		n := SymInt("v", math.MinInt32, math.MaxInt32)
		return int32(n), refInt(n), ""
	case 7:
		Note("an int64")
		n := SymInt("v", math.MinInt64, math.MaxInt64)
		return n, refInt(n), ""
	case 8:
		Note("a uint8")
		n := SymInt("v", 0, math.MaxUint8)
		return uint8(n), refInt(n), ""
	case 9:
		Note("a uint16")
		n := SymInt("v", 0, math.MaxUint16)
		return uint16(n), refInt(n), ""
	case 10:
		Note("a uint32")
		n := SymInt("v", 0, math.MaxUint32)
		return uint32(n), refInt(n), ""
	case 11:
		Note("a uint64")
		if Choose(2) == 0 {
			n := SymUint("v", 0, math.MaxInt64)
			return n, refInt(int64(n)), ""
		}
		return SymUint("v", math.MaxInt64+1, math.MaxUint64), nil, "uint64"
	case 12:
		Note("a uint")
		if Choose(2) == 0 {
			n := SymUint("v", 0, math.MaxInt64)
			return uint(n), refInt(int64(n)), ""
		}
		return uint(SymUint("v", math.MaxInt64+1, math.MaxUint64)), nil, "uint"
	}
	switch Choose(3) {
	case 0:
		Note("a float64")
		f := SymFloat("v")
		return f, refFloat(f), ""
	case 1:
		// and single ones, in case of tests on the value
		bits := uint64(0)
		switch Choose(10) {
		case 0:
			bits = 0x8000000000000000
		case 1:
			bits = 0x3FF0000000000000
		case 2:
			bits = 0xBFF8000000000000
		case 3:
			bits = 0x7FF0000000000000
		case 4:
			bits = 0xFFF0000000000000
		case 5:
			bits = 0x7FF8000000000001
		case 6:
			bits = 0x7FEFFFFFFFFFFFFF
		case 7:
			bits = 1
		case 8:
			bits = 0x43F0000000000001
		}
		f := math.Float64frombits(bits)
		if Choose(2) == 0 {
			Note("the float64 " + Describe(f))
			return f, append([]byte{0xC1}, PutNum(bits, false)...), ""
		}
		g := float32(f)
		if f != 0 && (bits&0x1FFFFFFF != 0 || bits == 1) {
			Stop()
		}
		Note("the float32 " + Describe(g))
		return g, append([]byte{0xC1}, PutNum(bits, false)...), ""
	}
	Note("a float32")
	f := SymFloat32("v")
	return f, refFloat(float64(f)), ""
}

// HEncScalar decides C01 for every scalar.
func HEncScalar() {
	PanicProps("C01")
	BlockProps("C01")
	v, want, bad := scalar()
	w := &sink{}
	var err error
	switch Choose(2) {
	case 0:
		err = encoding.NewEncoder(w, math.MaxUint16).Encode(v)
	default:
		var b []byte
		b, err = encoding.Marshal(v)
		if err == nil {
			w.got.Write(b)
		}
	}
	if bad != "" {
		Check("C01,C07", err == nil || w.got.Len() == 0, "nothing is written of a value that is refused")
		if bad == "uint64" {
			Check("C01", err != nil, "a uint64 above the largest int64 is rejected")
		} else {
			Check("C01", err != nil, "a uint above the largest int64 is rejected")
		}
		Covered("too big integer refused")
		return
	}
	Check("C01", err == nil, "every scalar can be encoded")
	agree("C01", dechunk(w.got.Bytes(), 65535, 9), want, "the bytes written are the shortest PackStream encoding of exactly the value")
	Covered("scalar encoded")
}

// ---------- chunks ----------

// HChunks decides C06 for every chunk size and messages of strings and numbers.
func HChunks() {
	PanicProps("C06")
	BlockProps("C06")
	c := SymInt("chunk size", 0, math.MaxUint16)
	max := int(c)
	if max == 0 {
		Note("chunk size 0")
		max = 65535
	}
	var v interface{}
	var want []byte
	big := 0
	switch Choose(3) {
	case 0:
		Note("a string")
		s := SymStr("s", 0, 200000)
		Assume(len(s) <= 3*max+20)
		v, want, big = s, refStr(s), len(s)
		if big < 4 {
			big = 4
		}
	case 1:
		Note("a list of a number, a string and a number")
		n := SymInt("n", math.MaxInt32+1, math.MaxInt64)
		s := SymStr("s", 256, 65535)
		v = []interface{}{n, s, n}
		want = append(append(append(refList(3), refInt(n)...), refStr(s)...), refInt(n)...)
		big = len(s)
		if big < 9 {
			big = 9
		}
	default:
		Note("a list of two strings")
		s, t := SymStr("s", 256, 65535), SymStr("t", 0, 15)
		v = []interface{}{s, t}
		want = append(append(refList(2), refStr(s)...), refStr(t)...)
		big = len(s)
	}
	w := &sink{}
	err := encoding.NewEncoder(w, uint16(c)).Encode(v)
	Check("C06,C07", err == nil, "encoding succeeds whatever the chunk size")
	agree("C06", dechunk(w.got.Bytes(), max, big), want, "the chunks concatenate to the encoded message")
	Covered("message in chunks")
}

// ---------- containers ----------

// flips: which maps of two are written in the other order (the first one visited: bit 0); twos: how many there are.
var flips, twos int

type pair struct {
	k string
	v interface{}
}

// kv is a map of up to two entries, in the order given.
func kv(ps ...pair) map[string]interface{} {
	m := map[string]interface{}{}
	for _, p := range ps {
		m[p.k] = p.v
	}
	return m
}

// refValue is the encoding of a value.
func refValue(v interface{}) []byte {
	switch x := v.(type) {
	case nil:
		return []byte{0xC0}
	case bool:
		if x {
			return []byte{0xC3}
		}
		return []byte{0xC2}
	case int:
		return refInt(int64(x))
	case int64:
		return refInt(x)
	case uint16:
		return refInt(int64(x))
	case float64:
		return refFloat(x)
	case string:
		return refStr(x)
	case []string:
		out := refList(len(x))
		for _, e := range x {
			out = append(out, refStr(e)...)
		}
		return out
	case []int:
		out := refList(len(x))
		for _, e := range x {
			out = append(out, refInt(int64(e))...)
		}
		return out
	case []interface{}:
		out := refList(len(x))
		for _, e := range x {
			out = append(out, refValue(e)...)
		}
		return out
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		if len(ks) == 2 {
			if flips&1 == 1 {
				ks[0], ks[1] = ks[1], ks[0]
			}
			flips >>= 1
			twos++
		}
		out := refMap(len(x))
		for _, k := range ks {
			out = append(out, refStr(k)...)
			out = append(out, refValue(x[k])...)
		}
		return out
	case graph.Node:
		out := append(refStruct(3), 0x4E)
		out = append(out, refInt(x.NodeIdentity)...)
		out = append(out, refValue(x.Labels)...)
		return append(out, refValue(x.Properties)...)
	case graph.Relationship:
		out := append(refStruct(5), 0x52)
		out = append(out, refInt(x.RelIdentity)...)
		out = append(out, refInt(x.StartNodeIdentity)...)
		out = append(out, refInt(x.EndNodeIdentity)...)
		out = append(out, refStr(x.Type)...)
		return append(out, refValue(x.Properties)...)
	case graph.UnboundRelationship:
		out := append(refStruct(3), 0x72)
		out = append(out, refInt(x.RelIdentity)...)
		out = append(out, refStr(x.Type)...)
		return append(out, refValue(x.Properties)...)
	case graph.Path:
		out := append(refStruct(3), 0x50)
		out = append(out, refList(len(x.Nodes))...)
		for _, e := range x.Nodes {
			out = append(out, refValue(e)...)
		}
		out = append(out, refList(len(x.Relationships))...)
		for _, e := range x.Relationships {
			out = append(out, refValue(e)...)
		}
		return append(out, refValue(x.Sequence)...)
	case ownStruct:
		out := append(refStruct(len(x.fields)), x.sig)
		for _, f := range x.fields {
			out = append(out, refValue(f)...)
		}
		return out
	}
	panic("no reference encoding")
}

// ownStruct is a structure of the user's own.
type ownStruct struct {
	sig    byte
	fields []interface{}
}

func (o ownStruct) Signature() int           { return int(o.sig) }
func (o ownStruct) AllFields() []interface{} { return o.fields }

var _ structures.Structure = ownStruct{}

// agreeRef: the payload is the encoding of v, whatever the order of its maps.
func agreeRef(props string, got []byte, v interface{}, what string) {
	twos = 0
	plain := refValue(v)
	for order, n := 1, twos; order < 1<<n; order++ {
		flips = order
		if Cmp(got, refValue(v)) == 1 {
			Check(props, true, what)
			return
		}
	}
	flips = 0
	agree(props, got, plain, what)
}

// element is one value of each kind.
func element(name string) interface{} {
	switch Choose(7) {
	case 0:
		return nil
	case 1:
		return SymInt(name, math.MinInt64, math.MaxInt64)
	case 2:
		return SymStr(name, 0, 300)
	case 3:
		return []interface{}{SymInt(name, -16, 127), "x", nil}
	case 4:
		return kv(pair{"a", SymInt(name, -16, 127)}, pair{"bb", true})
	case 5:
		return ownStruct{0x33, []interface{}{SymInt(name, 0, 100), false}}
	}
	return SymFloat(name)
}

// HEncNest decides C02 for lists, maps and structures of up to three elements of every kind.
func HEncNest() {
	PanicProps("C02,C01,C07")
	BlockProps("C02")
	var v interface{}
	switch Choose(13) {
	case 0:
		Note("a string")
		v = SymStr("s", 0, 200000)
	case 1:
		Note("an empty list, map and structure")
		v = []interface{}{[]interface{}{}, map[string]interface{}{}, ownStruct{0x77, nil}, 5}
	case 2:
		Note("a list of three")
		v = []interface{}{element("e"), 77, element("f")}
	case 3:
		Note("a map of two")
		v = []interface{}{kv(pair{"key", element("e")}, pair{"k2", element("f")}), 78}
	case 4:
		Note("a structure of three")
		v = []interface{}{ownStruct{0x66, []interface{}{element("e"), element("f"), "end"}}, 79}
	case 5:
		Note("a []string")
		v = []interface{}{[]string{SymStr("s", 0, 20), "", "t"}, 80}
	case 6:
		Note("a []int")
		v = []interface{}{[]int{int(SymInt("i", math.MinInt64, math.MaxInt64)), 3, -5}, 81}
	case 7:
		Note("a map of strings with an unknown key")
		v = kv(pair{SymStr("k", 0, 300), "v"})
	case 8:
		Note("typed slices")
		encTyped()
		return
	case 9:
		Note("a nil list and a nil map")
		var l []interface{}
		var m map[string]interface{}
		v = []interface{}{l, m, 4}
	case 10:
		Note("a long text")
		v = []interface{}{SymStr("s", 65530, 65540), 7}
	case 11:
		Note("lists in lists")
		v = []interface{}{[]interface{}{[]interface{}{element("e")}, 3}, 4}
	default:
		Note("maps in maps")
		v = kv(pair{"m", kv(pair{"n", element("e")})})
	}
	w := &sink{}
	err := encoding.NewEncoder(w, math.MaxUint16).Encode(v)
	Check("C02,C01", err == nil, "values of supported types can be encoded")
	agreeRef("C02,C01", dechunk(w.got.Bytes(), 65535, 65535), v, "size header and contents are exactly those of the value")
	Covered("container encoded")
}

type text string

// encTyped: slices of other types are lists of their elements.
func encTyped() {
	var v interface{}
	var want []byte
	n := SymInt("n", -128, 127)
	switch Choose(6) {
	case 0:
		v, want = []int8{int8(n), 5}, append(append(refList(2), refInt(n)...), 5)
	case 1:
		v, want = []bool{true, false}, []byte{0x92, 0xC3, 0xC2}
	case 2:
		v, want = [][]int{{int(n)}, {}, {1, 2}}, append(append([]byte{0x93, 0x91}, refInt(n)...), 0x90, 0x92, 1, 2)
	case 3:
		f := SymFloat("f")
		v, want = []float64{f}, append([]byte{0x91}, refFloat(f)...)
	case 4:
		v, want = []map[string]interface{}{{"a": int64(n)}}, append([]byte{0x91, 0xA1, 0x81, 'a'}, refInt(n)...)
	default:
		v, want = []byte{1, 200}, []byte{0x92, 1, 0xC9, 0, 200}
	}
	Note(Describe(v))
	w := &sink{}
	err := encoding.NewEncoder(w, math.MaxUint16).Encode(v)
	Check("C02,C01", err == nil, "values of supported types can be encoded")
	agree("C02,C01", dechunk(w.got.Bytes(), 65535, 65535), want, "a slice of another type is written as the list of its elements")
	Covered("typed slice encoded")
}

var _ = messages.NewRunMessage

// ---------- sizes ----------

// payload is what was passed to Encoder.Write, where that is replaced.
var payload bytes.Buffer

// EncWriteModel stands for Encoder.Write: it adds to the message.
func EncWriteModel(_ encoding.Encoder, p []byte) (int, error) {
	payload.Write(p)
	return len(p), nil
}

// HEncSizes decides C02 for strings, lists, maps and structures of every size: the size header for every length, and
// the loops that write the elements.
func HEncSizes() {
	PanicProps("C02")
	BlockProps("C02")
	var v interface{}
	var want []byte
	kind := Choose(4)
	over := Choose(2) == 1 // more than PackStream can represent
	lo, hi := int64(0), int64(math.MaxUint32)
	if kind == 3 {
		hi = math.MaxUint16
	}
	if over {
		lo, hi = hi+1, 1<<40
	}
	switch kind {
	case 0:
		Note("a string of any length")
		s := SymStr("s", lo, hi)
		v, want = s, refStr(s)
	case 1:
		Note("a list of any length")
		n := int(SymInt("n", lo, hi))
		v = NilList(n)
		want = append(refList(n), Repeat([]byte{0xC0}, n)...)
	case 2:
		Note("a map of any size")
		n := int(SymInt("n", lo, hi))
		v = NilMap(n)
		want = append(refMap(n), Repeat([]byte{0x81, 'k', 0xC0}, n)...)
	default:
		Note("a structure of any size")
		n := int(SymInt("n", lo, hi))
		v = ownStruct{0x55, NilList(n)}
		want = append(append(refStruct(n), 0x55), Repeat([]byte{0xC0}, n)...)
	}
	w := &sink{}
	payload.Reset()
	err := encoding.NewEncoder(w, math.MaxUint16).Encode(v)
	if over {
		Check("C02", err != nil, "a length PackStream cannot represent is rejected with an error")
		Check("C02,C07", w.got.Len() == 0, "nothing is written of a value that is refused")
		Covered("too long")
		return
	}
	Check("C02", err == nil, "every length PackStream can represent is accepted")
	got := dechunk(w.got.Bytes(), 65535, 65535)
	if len(got) == 0 {
		got = payload.Bytes()
	} else if payload.Len() > 0 {
		Undecided("parts of a message are written without Encoder.Write")
	}
	agree("C02", got, want, "the size header is the smallest for the length, and as many elements follow it")
	Covered("any size")
}

// HEncBounds decides C02 at the sizes where the header changes, with the encoder's own buffering.
func HEncBounds() {
	PanicProps("C02")
	BlockProps("C02")
	n := 0
	switch Choose(12) {
	case 0:
		n = 0
	case 1:
		n = 1
	case 2:
		n = 15
	case 3:
		n = 16
	case 4:
		n = 127
	case 5:
		n = 128
	case 6:
		n = 255
	case 7:
		n = 256
	case 8:
		n = 300
	case 9:
		n = 513
	case 10:
		n = 32768
	default:
		n = 65536
	}
	NoteI("elements:", n)
	var v interface{}
	var want []byte
	switch Choose(6) {
	case 3:
		Assume(n < 600)
		Note("a list of different elements")
		l := make([]interface{}, n)
		want = refList(n)
		for i := range l {
			l[i] = i
			want = append(want, refInt(int64(i))...)
		}
		v = l
	case 4:
		Assume(n < 600)
		Note("a list of a type of its own")
		l := make([]int, n)
		want = refList(n)
		for i := range l {
			l[i] = i
			want = append(want, refInt(int64(i))...)
		}
		v = l
	case 5:
		Assume(n < 600)
		Note("a structure with different fields")
		l := make([]interface{}, n)
		want = append(refStruct(n), 0x55)
		for i := range l {
			l[i] = i
			want = append(want, refInt(int64(i))...)
		}
		v = ownStruct{0x55, l}
	case 0:
		Note("a list")
		v = NilList(n)
		want = append(refList(n), Repeat([]byte{0xC0}, n)...)
	case 1:
		Note("a map")
		v = NilMap(n)
		want = append(refMap(n), Repeat([]byte{0x81, 'k', 0xC0}, n)...)
	default:
		Assume(n < 65536)
		Note("a structure")
		v = ownStruct{0x55, NilList(n)}
		want = append(append(refStruct(n), 0x55), Repeat([]byte{0xC0}, n)...)
	}
	w := &sink{}
	err := encoding.NewEncoder(w, math.MaxUint16).Encode(v)
	Check("C02", err == nil, "every length PackStream can represent is accepted")
	agree("C02", dechunk(w.got.Bytes(), 65535, 65535), want, "the size header is the smallest for the length, and as many elements follow it")
	Covered("container of a boundary size")
}

// ---------- failures ----------

type unsupported struct{ a int }

// badValue is something that cannot be encoded.
func badValue() interface{} {
	switch Choose(6) {
	case 0:
		return unsupported{1}
	case 1:
		return make(chan int)
	case 2:
		return SymUint("too big", math.MaxInt64+1, math.MaxUint64)
	case 3:
		return map[int]int{1: 2}
	case 4:
		return &unsupported{1}
	}
	return []unsupported{{1}}
}

// HEncBad decides C07 for values of which some part cannot be encoded.
func HEncBad() {
	PanicProps("C07,C01")
	BlockProps("C07")
	bad := badValue()
	var v interface{}
	switch Choose(10) {
	case 8:
		v = []interface{}{SymStr("s", 60000, 70000), SymStr("t", 60000, 70000), SymStr("u", 60000, 70000), bad}
	case 0:
		v = bad
	case 1:
		v = []interface{}{1, "x", bad}
	case 2:
		v = []interface{}{bad, 1}
	case 3:
		v = []interface{}{SymStr("s", 0, 70000), bad, "y"}
	case 4:
		v = kv(pair{"a", 1}, pair{"b", bad})
	case 5:
		v = kv(pair{"a", bad}, pair{"b", 1})
	case 6:
		v = ownStruct{0x11, []interface{}{1, bad, 2}}
	case 7:
		v = messages.NewRunMessage("query", kv(pair{"p", []interface{}{1, kv(pair{"q", bad})}}))
	default:
		v = graph.Node{Properties: kv(pair{"p", bad})}
	}
	c := SymInt("chunk size", 1, math.MaxUint16)
	Note("a value that cannot be encoded: " + Describe(v))
	if Choose(4) == 0 {
		_, err := encoding.Marshal(v)
		Check("C07", err != nil, "Marshal reports that a value cannot be encoded")
		return
	}
	w := &sink{}
	enc := encoding.NewEncoder(w, uint16(c))
	err := enc.Encode(v)
	Check("C07", err != nil, "Encode reports that a value cannot be encoded")
	Check("C07", w.got.Len() == 0, "nothing of a message that cannot be encoded is written")
	Covered("not encodable")
	Note("another message with the same encoder")
	if enc.Encode("next") != nil {
		Check("C07", false, "a message after one that could not be encoded can be encoded")
	}
	agree("C07", dechunk(w.got.Bytes(), 65535, 65535), refStr("next"), "nothing of a message that cannot be encoded gets into the next one")
	Covered("encoded after a failure")
}

// HEncFault decides C07 for writers that fail.
func HEncFault() {
	PanicProps("C07")
	BlockProps("C07")
	var v interface{}
	c := int64(math.MaxUint16)
	switch Choose(4) {
	case 0:
		c = SymInt("chunk size", 0, math.MaxUint16)
		v = SymInt("n", math.MinInt64, math.MaxInt64)
	case 1:
		v = SymStr("s", 0, 200000)
	case 2:
		v = []interface{}{1, SymStr("s", 0, 70000), kv(pair{"a", 2.5}), nil}
	default:
		c = 7
		v = ownStruct{0x11, []interface{}{SymStr("s", 0, 10), true, -7}}
	}
	w := &sink{fails: true}
	enc := encoding.NewEncoder(w, uint16(c))
	err := enc.Encode(v)
	if w.fault {
		Check("C07", err != nil, "a failing write is reported")
		Covered("write failed")
		return
	}
	Check("C07", err == nil, "no error is reported where there is none")
	agreeRef("C07,C06", dechunk(w.got.Bytes(), 65535, 65535), v, "success means that every byte of the message was written")
	Covered("written")
}
