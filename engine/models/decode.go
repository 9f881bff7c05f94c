package vmodels

import (
	"errors"
	"io"
	"math"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
)

// source delivers data to a decoder.
type source struct {
	data   []byte
	pos    int
	splits int  // reads that may deliver less than asked for
	fails  bool // a read may fail
	fault  bool // a read failed
}

var errSource = errors.New("read failed")

func (r *source) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if r.fails && Choose(2) == 1 {
		r.fault = true
		if Choose(2) == 1 {
			Note("a read meets the end of the stream")
			return 0, io.EOF
		}
		Note("a read fails")
		return 0, errSource
	}
	left := len(r.data) - r.pos
	if left <= 0 {
		r.fault = true
		return 0, io.EOF
	}
	n := len(b)
	if n > left {
		n = left
	}
	if r.splits > 0 && n > 1 && Choose(2) == 1 {
		r.splits--
		k := int(SymInt("read", 1, 1<<32))
		Assume(k < n)
		Note("a read delivers only a part")
		n = k
	}
	copy(b[:n], r.data[r.pos:r.pos+n])
	r.pos += n
	return n, nil
}

// frame puts a payload into one chunk.
func frame(p []byte) []byte {
	out := PutNum(uint16(len(p)), false)
	out = append(out, p...)
	return append(out, 0, 0)
}

// decodeOne decodes a message with this payload of at most 65535 bytes.
func decodeOne(p []byte) (interface{}, error) {
	AllocBound(len(p), "C05")
	if Choose(2) == 0 {
		return encoding.Unmarshal(frame(p))
	}
	return encoding.NewDecoder(&source{data: frame(p)}).Decode()
}

// number gives the value of big-endian bytes as PackStream defines it.
func number(b []byte) int64 {
	switch len(b) {
	case 1:
		var v int8
		SetNum(&v, b, false)
		return int64(v)
	case 2:
		var v int16
		SetNum(&v, b, false)
		return int64(v)
	case 4:
		var v int32
		SetNum(&v, b, false)
		return int64(v)
	}
	var v int64
	SetNum(&v, b, false)
	return v
}

// byteBetween is any byte from lo to hi.
func byteBetween(lo, hi int64) []byte { return PutNum(uint8(SymInt("marker", lo, hi)), false) }

// HDecScalar decides C03 for scalars.
func HDecScalar() {
	PanicProps("C03,C05")
	BlockProps("C03")
	var p []byte
	var want interface{}
	switch Choose(10) {
	case 0:
		Note("null")
		p = []byte{0xC0}
	case 1:
		Note("true")
		p, want = []byte{0xC3}, true
	case 2:
		Note("false")
		p, want = []byte{0xC2}, false
	case 3:
		n := SymInt("n", 0, 127)
		Note("a tiny integer")
		p, want = PutNum(int8(n), false), n
	case 4:
		n := SymInt("n", -16, -1)
		Note("a negative tiny integer")
		p, want = PutNum(int8(n), false), n
	case 5:
		Note("an int8")
		b := SymBytes("b", 1, 1)
		p, want = append([]byte{0xC8}, b...), number(b)
	case 6:
		Note("an int16")
		b := SymBytes("b", 2, 2)
		p, want = append([]byte{0xC9}, b...), number(b)
	case 7:
		Note("an int32")
		b := SymBytes("b", 4, 4)
		p, want = append([]byte{0xCA}, b...), number(b)
	case 8:
		Note("an int64")
		b := SymBytes("b", 8, 8)
		p, want = append([]byte{0xCB}, b...), number(b)
	default:
		Note("a float")
		b := SymBytes("b", 8, 8)
		var f float64
		SetNum(&f, b, false)
		p, want = append([]byte{0xC1}, b...), f
	}
	v, err := decodeOne(p)
	Check("C03", err == nil, "a scalar is decoded")
	agree("C03", v, want, "a scalar is decoded to the value the format defines")
	Covered("scalar decoded")
}

// HDecUndefined: markers PackStream does not define.
func HDecUndefined() {
	PanicProps("C03,C05")
	BlockProps("C03")
	var m []byte
	switch Choose(7) {
	case 0:
		m = byteBetween(0xC4, 0xC7)
	case 1:
		m = byteBetween(0xCC, 0xCF)
	case 2:
		m = byteBetween(0xD3, 0xD3)
	case 3:
		m = byteBetween(0xD7, 0xD7)
	case 4:
		m = byteBetween(0xDB, 0xDB)
	case 5:
		m = byteBetween(0xDE, 0xDF)
	default:
		m = byteBetween(0xE0, 0xEF)
	}
	p := append(m, SymBytes("rest", 8, 8)...)
	switch Choose(3) {
	case 1:
		p = append([]byte{0x92, 1}, p...)
	case 2:
		p = append([]byte{0xA1, 0x81, 'k'}, p...)
	}
	_, err := decodeOne(p)
	Check("C03,C05", err != nil, "a marker PackStream does not define gives an error")
	Covered("undefined marker")
}

// header writes the header of a string, list, map or structure of n elements in one of the forms that hold n.
func header(n int, class int, tiny, m8, m16, m32 byte) []byte {
	switch class {
	case 0:
		Note("tiny")
		return PutNum(uint8(int(tiny)+n), false)
	case 1:
		Note("one byte of size")
		return append([]byte{m8}, PutNum(uint8(n), false)...)
	case 2:
		Note("two bytes of size")
		return append([]byte{m16}, PutNum(uint16(n), false)...)
	}
	Note("four bytes of size")
	return append([]byte{m32}, PutNum(uint32(n), false)...)
}

func maxOf(class int) int64 {
	switch class {
	case 0:
		return 15
	case 1:
		return 255
	case 2:
		return 65535
	}
	return math.MaxUint32
}

// HDecString decides C03 and C05 for strings in every class and of every size, complete or cut short.
func HDecString() {
	PanicProps("C03,C05")
	BlockProps("C03")
	class := Choose(4)
	max := maxOf(class)
	if max > 65000 {
		max = 65000
	}
	if Choose(2) == 0 {
		Note("a complete string")
		n := int(SymInt("n", 0, max))
		s := SymStr("s", 0, max)
		Assume(len(s) == n)
		p := append(header(n, class, 0x80, 0xD0, 0xD1, 0xD2), s...)
		if Choose(2) == 1 {
			Note("in a list, followed by a number")
			p = append(append([]byte{0x92}, p...), 7)
			v, err := decodeOne(p)
			Check("C03", err == nil, "a string is decoded")
			agree("C03", v, []interface{}{s, int64(7)}, "a string is decoded to its bytes, and what follows it is not touched")
			return
		}
		v, err := decodeOne(p)
		Check("C03", err == nil, "a string is decoded")
		agree("C03", v, s, "a string is decoded to its bytes")
		Covered("string decoded")
		return
	}
	Note("a string cut short")
	n := int(SymInt("n", 1, maxOf(class)))
	s := SymStr("s", 0, max)
	Assume(len(s) < n)
	_, err := decodeOne(append(header(n, class, 0x80, 0xD0, 0xD1, 0xD2), s...))
	Check("C05,C03", err != nil, "a string that ends before its announced size gives an error")
	Covered("string cut short")
}

// HDecSizes decides C03 and C05 for lists of every size.
func HDecSizes() {
	PanicProps("C03,C05")
	BlockProps("C03")
	class := Choose(4)
	max := maxOf(class)
	if max > 60000 {
		max = 60000
	}
	if Choose(2) == 0 {
		n := int(SymInt("n", 0, max))
		Note("a complete list")
		p := append(header(n, class, 0x90, 0xD4, 0xD5, 0xD6), Repeat([]byte{0xC0}, n)...)
		v, err := decodeOne(p)
		Check("C03", err == nil, "a list is decoded")
		agree("C03", v, NilList(n), "a list has as many elements as its header says")
		Covered("list decoded")
		return
	}
	Note("a list cut short")
	n := int(SymInt("n", 1, maxOf(class)))
	m := int(SymInt("m", 0, max))
	Assume(m < n)
	_, err := decodeOne(append(header(n, class, 0x90, 0xD4, 0xD5, 0xD6), Repeat([]byte{0xC0}, m)...))
	Check("C05,C03", err != nil, "a list that ends before its announced size gives an error")
	Covered("list cut short")
}

// decElement is a value of each kind as the server sends it, and what it has to be decoded to.
func decElement(name string) ([]byte, interface{}) {
	switch Choose(7) {
	case 0:
		return []byte{0xC0}, nil
	case 1:
		b := SymBytes(name, 4, 4)
		return append([]byte{0xCA}, b...), number(b)
	case 2:
		s := SymStr(name, 2, 2)
		return append([]byte{0x82}, s...), s
	case 3:
		b := SymBytes(name, 1, 1)
		return append([]byte{0x92, 0xC8}, append(b, 0xC3)...), []interface{}{number(b), true}
	case 4:
		b := SymBytes(name, 1, 1)
		return append([]byte{0xA1, 0x81, 'q', 0xC8}, b...), kv(pair{"q", number(b)})
	case 5:
		b := SymBytes(name, 8, 8)
		var f float64
		SetNum(&f, b, false)
		return append([]byte{0xC1}, b...), f
	}
	return []byte{0xB1, 0x71, 0x91, 0x05}, messages.RecordMessage{Fields: []interface{}{int64(5)}}
}

// HDecNest decides C03 for lists, maps and structures of a few elements of every kind.
func HDecNest() {
	PanicProps("C03,C05")
	BlockProps("C03")
	var p []byte
	var want interface{}
	e, ev := decElement("e")
	f, fv := decElement("f")
	switch Choose(7) {
	case 6:
		Note("a key sent twice: the last one counts")
		p = append(header(2, Choose(4), 0xA0, 0xD8, 0xD9, 0xDA), 0x81, 'k')
		p = append(append(p, e...), 0x81, 'k')
		p = append(p, f...)
		want = kv(pair{"k", fv})
	case 0:
		Note("a list of three")
		p = append(header(3, Choose(4), 0x90, 0xD4, 0xD5, 0xD6), e...)
		p = append(append(p, 0x21), f...)
		want = []interface{}{ev, int64(0x21), fv}
	case 1:
		Note("a map of two")
		p = append(header(2, Choose(4), 0xA0, 0xD8, 0xD9, 0xDA), 0x81, 'k')
		p = append(append(p, e...), 0x82, 'k', '2')
		p = append(p, f...)
		want = kv(pair{"k", ev}, pair{"k2", fv})
	case 2:
		Note("a list of maps")
		p = append([]byte{0x93, 0xA1, 0x81, 'a'}, e...)
		p = append(append(p, 0xA1, 0x81, 'a'), f...)
		p = append(p, 0xA0)
		want = []interface{}{kv(pair{"a", ev}), kv(pair{"a", fv}), map[string]interface{}{}}
	case 3:
		Note("a map with an unknown key")
		s := SymStr("key", 3, 3)
		p = append(append(append([]byte{0xA1, 0xD0, 3}, s...), e...))
		want = kv(pair{s, ev})
	case 4:
		Note("a record")
		p = append(header(1, Choose(3), 0xB0, 0xDC, 0xDD, 0), 0x71, 0x92)
		p = append(append(p, e...), f...)
		want = messages.RecordMessage{Fields: []interface{}{ev, fv}}
	default:
		Note("empty ones")
		p = append(header(4, Choose(4), 0x90, 0xD4, 0xD5, 0xD6), 0x90, 0xA0, 0x80, 0x05)
		want = []interface{}{[]interface{}{}, map[string]interface{}{}, "", int64(5)}
	}
	v, err := decodeOne(p)
	Check("C03", err == nil, "lists, maps and structures are decoded")
	agree("C03", v, want, "elements are delivered in the order and under the keys sent")
	Covered("container decoded")
}

// chunks splits a payload into one to three chunks of any sizes.
func chunks(p []byte) []byte {
	var out []byte
	for i := 0; ; i++ {
		if i == 2 || Choose(2) == 0 {
			break
		}
		k := int(SymInt("chunk", 1, 65535))
		Assume(k < len(p))
		out = append(append(out, PutNum(uint16(k), false)...), p[:k]...)
		p = p[k:]
	}
	Assume(len(p) <= 65535)
	out = append(append(out, PutNum(uint16(len(p)), false)...), p...)
	return append(out, 0, 0)
}

// readMessage is a message and what it has to be decoded to.
func readMessage() ([]byte, interface{}) {
	switch Choose(4) {
	case 2:
		return []byte{0x2A}, int64(0x2A)
	case 0:
		s := SymStr("s", 0, 190000)
		return append(append([]byte{0xD2}, PutNum(uint32(len(s)), false)...), s...), s
	case 1:
		b := SymStr("b", 300, 65530)
		p := append([]byte{0x93, 0xC9, 1, 2, 0xD1}, PutNum(uint16(len(b)), false)...)
		p = append(append(p, b...), 0xC9, 3, 4)
		return p, []interface{}{int64(0x0102), b, int64(0x0304)}
	}
	s := SymStr("s", 5, 5)
	return append([]byte{0xB1, 0x71, 0x92, 0x01, 0x85}, s...), messages.RecordMessage{Fields: []interface{}{int64(1), s}}
}

// HDecRead decides C08: messages in any chunks, delivered by any reads, followed by another one.
func HDecRead() {
	PanicProps("C08,C05")
	BlockProps("C08")
	p, want := readMessage()
	data := chunks(p)
	n := len(data)
	data = append(data, 0, 3, 0xB1, 0x71, 0x91, 0, 1, 0x2A, 0, 0)
	r := &source{data: data, splits: 2}
	dec := encoding.NewDecoder(r)
	v, err := dec.Decode()
	Check("C08", err == nil, "a message is decoded however it is split")
	agree("C08", v, want, "the decoder sees exactly the payloads of the chunks, in order")
	Check("C08", r.pos == n, "exactly the bytes of the message are consumed")
	Covered("message in chunks")
	v, err = dec.Decode()
	Check("C08", err == nil, "the next message is decoded")
	agree("C08", v, messages.RecordMessage{Fields: []interface{}{int64(0x2A)}}, "the next message is untouched")
	Check("C08", r.pos == len(data), "exactly the bytes of the next message are consumed")
	Covered("next message")
}

// HDecFault decides C08 for reads that fail or end early.
func HDecFault() {
	PanicProps("C08,C05")
	BlockProps("C08")
	p, want := readMessage()
	data := chunks(p)
	r := &source{data: data, splits: 1}
	if Choose(2) == 0 {
		r.fails = true
	} else {
		Note("the stream ends early")
		k := int(SymInt("end", 0, 200000))
		Assume(k < len(data))
		r.data = data[:k]
	}
	v, err := encoding.NewDecoder(r).Decode()
	if r.fault {
		Check("C08,C05", err != nil, "a read that fails or ends early is reported")
		Covered("read failed")
		return
	}
	Check("C08", err == nil, "no error is reported where there is none")
	agree("C08", v, want, "the decoder sees exactly the payloads of the chunks, in order")
	Covered("no read failed")
}

// anyField is a value of each kind as bytes.
func anyField() []byte {
	switch Choose(12) {
	case 0:
		return []byte{0xC0}
	case 1:
		return PutNum(uint8(SymInt("field", 0, 127)), false)
	case 2:
		return []byte{0x81, 'a'}
	case 3:
		return []byte{0xA1, 0x81, 'q', 0x05}
	case 4:
		return []byte{0x91, 0x81, 'l'}
	case 5:
		return []byte{0x91, 0x07}
	case 6:
		return []byte{0x90}
	case 7:
		return []byte{0x91, 0xB3, 0x4E, 0x01, 0x91, 0x81, 'L', 0xA0}
	case 8:
		return []byte{0x91, 0xB3, 0x72, 0x02, 0x81, 'T', 0xA0}
	case 9:
		return []byte{0xC1, 0, 0, 0, 0, 0, 0, 0, 0}
	case 10:
		return []byte{0x92, 0x01, 0xC3}
	}
	return []byte{} // it is missing
}

// HDecAny decides C05 for structures with fields of any kind.
func HDecAny() {
	PanicProps("C05")
	BlockProps("C05")
	var p []byte
	fields := 1
	switch Choose(10) {
	case 0:
		p, fields = []byte{0xB3, 0x4E}, 3
	case 1:
		p, fields = []byte{0xB5, 0x52, 0x01}, 4
	case 2:
		p, fields = []byte{0xB5, 0x52}, 2
	case 3:
		p, fields = []byte{0xB3, 0x72}, 3
	case 4:
		p, fields = []byte{0xB3, 0x50}, 3
	case 5:
		p = []byte{0xB1, 0x71}
	case 6:
		p = []byte{0xB1, 0x70}
	case 7:
		p = []byte{0xB1, 0x7F}
	case 8:
		p = []byte{0xB0, 0x7E}
	default:
		p = append([]byte{0xB1}, PutNum(uint8(SymInt("signature", 0, 255)), false)...)
	}
	for i := 0; i < fields; i++ {
		p = append(p, anyField()...)
	}
	v, err := decodeOne(p)
	judge(p, v, err)
}

// HDecFields decides C05 for structures that announce another number of fields than theirs.
func HDecFields() {
	PanicProps("C05")
	BlockProps("C05")
	var sig byte
	var own, more []byte
	fields := 1
	switch Choose(7) {
	case 0:
		sig, fields, own = 0x4E, 3, []byte{0x01, 0x90, 0xA0}
	case 1:
		sig, fields, own = 0x52, 5, []byte{0x01, 0x02, 0x03, 0x81, 'T', 0xA0}
	case 2:
		sig, fields, own = 0x72, 3, []byte{0x01, 0x81, 'T', 0xA0}
	case 3:
		sig, fields, own = 0x50, 3, []byte{0x91, 0xB3, 0x4E, 0x01, 0x90, 0xA0, 0x90, 0x90}
	case 4:
		sig, own = 0x71, []byte{0x91, 0x07}
	case 5:
		sig, own = 0x70, []byte{0xA0}
	default:
		sig, own = 0x7F, []byte{0xA0}
	}
	class := Choose(3)
	n := int(SymInt("fields", 0, maxOf(class)))
	if n == fields {
		Stop()
	}
	if n > fields {
		more = Repeat([]byte{0xC0}, n-fields)
	}
	p := append(append(append(header(n, class, 0xB0, 0xDC, 0xDD, 0), sig), own...), more...)
	if Choose(2) == 0 {
		Note("in a list")
		p = append(append([]byte{0x92}, p...), 0xC3)
	}
	_, err := decodeOne(p)
	Covered("other number of fields")
	Check("C05", err != nil, "a structure with another number of fields than its signature has is an error")
}

// HDecBytes decides C05 for a few bytes of any values.
func HDecBytes() {
	PanicProps("C05")
	BlockProps("C05")
	var p []byte
	for i := Choose(5); i > 0; i-- {
		p = append(p, byteBetween(0, 255)...)
	}
	v, err := decodeOne(p)
	judge(p, v, err)
}

// HDecBytes5 is HDecBytes for five bytes.
func HDecBytes5() {
	PanicProps("C05")
	BlockProps("C05")
	var p []byte
	for i := 0; i < 5; i++ {
		p = append(p, byteBetween(0, 255)...)
	}
	v, err := encoding.Unmarshal(frame(p))
	judge(p, v, err)
}

// HDecDepth decides C05 for deep nesting: it gives an error, and what is nested less than a few hundred deep does not.
func HDecDepth() {
	PanicProps("C05")
	BlockProps("C05")
	var pat []byte
	switch Choose(3) {
	case 0:
		Note("lists in lists")
		pat = []byte{0x91}
	case 1:
		Note("maps in maps")
		pat = []byte{0xA1, 0x81, 'k'}
	default:
		Note("records in records")
		pat = []byte{0xB1, 0x71, 0x91}
	}
	if Choose(2) == 0 {
		Note("200 levels")
		_, err := Deep(append(Repeat(pat, 200), 0xC0))
		Check("C05,C03", err == nil, "values nested 200 levels deep are decoded")
		Covered("nested")
		return
	}
	Note("a million levels")
	_, err := Deep(append(Repeat(pat, 1<<20), 0xC0))
	Check("C05", err != nil, "nesting beyond a fixed depth is an error")
	Covered("nested too deep")
}

func Deep(p []byte) (interface{}, error) {
	return encoding.NewDecoder(&source{data: chunks16(p)}).Decode()
}

// chunks16 splits a payload into chunks.
func chunks16(p []byte) []byte {
	var out []byte
	for len(p) > 65535 {
		out = append(append(out, 0xFF, 0xFF), p[:65535]...)
		p = p[65535:]
	}
	out = append(append(out, PutNum(uint16(len(p)), false)...), p...)
	return append(out, 0, 0)
}

var _ = graph.Node{}
