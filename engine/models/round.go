package vmodels

import (
	"math"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
)

// both is a value of one kind and what it has to come back as.
func both(name string) (v, want interface{}) {
	switch Choose(17) {
	case 0:
		return nil, nil
	case 1:
		return true, true
	case 2:
		return false, false
	case 3:
		n := SymInt(name, math.MinInt64, math.MaxInt64)
		return int(n), n
	case 4:
		n := SymInt(name, math.MinInt8, math.MaxInt8)
		return int8(n), n
	case 5:
		n := SymInt(name, math.MinInt16, math.MaxInt16)
		return int16(n), n
	case 6:
		n := SymInt(name, math.MinInt32, math.MaxInt32)
		return int32(n), n
	case 7:
		n := SymInt(name, math.MinInt64, math.MaxInt64)
		return n, n
	case 8:
		n := SymInt(name, 0, math.MaxUint8)
		return uint8(n), n
	case 9:
		n := SymInt(name, 0, math.MaxUint16)
		return uint16(n), n
	case 10:
		n := SymInt(name, 0, math.MaxUint32)
		return uint32(n), n
	case 11:
		n := SymInt(name, 0, math.MaxInt64)
		return uint64(n), n
	case 12:
		f := SymFloat(name)
		return f, f
	case 13:
		f := SymFloat32(name)
		return f, float64(f)
	case 14:
		s := SymStr(name, 0, 65000)
		return s, s
	case 15:
		n := SymInt(name, math.MinInt64, math.MaxInt64)
		return []int{int(n), 5}, []interface{}{n, int64(5)}
	}
	s := SymStr(name, 0, 300)
	return []string{s, ""}, []interface{}{s, ""}
}

// HRound decides C30.
func HRound() {
	PanicProps("C30")
	BlockProps("C30")
	var v, want interface{}
	switch Choose(6) {
	case 0:
		v, want = both("v")
	case 1:
		Note("a list of two")
		e, ew := both("e")
		f, fw := some2("f")
		v, want = []interface{}{e, f}, []interface{}{ew, fw}
	case 2:
		Note("a map of two")
		e, ew := both("e")
		f, fw := some2("f")
		v, want = kv(pair{"k", e}, pair{"", f}), kv(pair{"k", ew}, pair{"", fw})
	case 3:
		Note("empty ones")
		v = []interface{}{[]interface{}{}, map[string]interface{}{}, "", 5}
		want = []interface{}{[]interface{}{}, map[string]interface{}{}, "", int64(5)}
	case 4:
		Note("lists and maps in each other")
		e, ew := some2("e")
		f, fw := some2("f")
		v = []interface{}{kv(pair{"l", []interface{}{e}}), []interface{}{kv(pair{"m", f})}}
		want = []interface{}{kv(pair{"l", []interface{}{ew}}), []interface{}{kv(pair{"m", fw})}}
	case 5:
		Note("graph values in a list and a map")
		g := aGraphValue()
		v = []interface{}{g, kv(pair{"g", g}), 1}
		want = []interface{}{g, kv(pair{"g", g}), int64(1)}
	}
	thereAndBack(v, want)
}

func thereAndBack(v, want interface{}) {
	b, err := encoding.Marshal(v)
	Check("C30", err == nil, "a value can be marshalled")
	got, err := encoding.Unmarshal(b)
	Check("C30", err == nil, "what was marshalled can be unmarshalled")
	agree("C30", got, want, "a value that was marshalled and unmarshalled is the same")
	Covered("there and back")
}

// HRoundDeep decides C30 for big and deeply nested values.
func HRoundDeep() {
	PanicProps("C30")
	BlockProps("C30")
	var v, want interface{}
	switch Choose(2) {
	case 0:
		n := 0
		switch Choose(9) {
		case 0:
			n = 15
		case 1:
			n = 16
		case 2:
			n = 17
		case 3:
			n = 127
		case 4:
			n = 128
		case 5:
			n = 255
		case 6:
			n = 256
		case 7:
			n = 257
		default:
			n = 700
		}
		if Choose(2) == 0 {
			NoteI("a list of size", n)
			var l, w []interface{}
			for i := 0; i < n; i++ {
				l = append(l, i)
				w = append(w, int64(i))
			}
			v, want = l, w
		} else {
			NoteI("a map of size", n)
			m := map[string]interface{}{}
			w := map[string]interface{}{}
			for i := 0; i < n; i++ {
				k := "k" + string([]byte{byte(i / 100), byte(i / 10 % 10), byte(i % 10)})
				m[k] = i
				w[k] = int64(i)
			}
			v, want = m, w
		}
	default:
		v, want = nest(Choose(3))
	}
	thereAndBack(v, want)
}

// some2 is a value of some kind.
func some2(name string) (v, want interface{}) {
	if Choose(6) == 0 {
		r := aRel(name)
		return r, r
	}
	switch Choose(5) {
	case 0:
		return nil, nil
	case 1:
		n := SymInt(name, math.MinInt64, math.MaxInt64)
		return int(n), n
	case 2:
		s := SymStr(name, 0, 300)
		return s, s
	case 3:
		n := SymInt(name, -16, 127)
		return []interface{}{int8(n), "x", nil}, []interface{}{n, "x", nil}
	}
	n := SymInt(name, -16, 127)
	return kv(pair{"a", n}, pair{"bb", true}), kv(pair{"a", n}, pair{"bb", true})
}

// nest is a value nested a thousand levels deep, with something at each level.
func nest(kind int) (v, want interface{}) {
	switch kind {
	case 0:
		Note("lists in lists, a thousand levels")
	case 1:
		Note("maps in maps, a thousand levels")
	default:
		Note("lists in maps in lists, a thousand levels")
	}
	v, want = "end", "end"
	for i := 0; i < 1000; i++ {
		if kind == 0 || kind == 2 && i%2 == 0 {
			v, want = []interface{}{i, v, "x"}, []interface{}{int64(i), want, "x"}
		} else {
			v, want = kv(pair{"n", i}, pair{"in", v}), kv(pair{"n", int64(i)}, pair{"in", want})
		}
	}
	Covered("nested deep")
	return v, want
}
