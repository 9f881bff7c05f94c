package vmodels

import (
	"database/sql/driver"
	"io"

	blog "github.com/johnnadratowski/golang-neo4j-bolt-driver/log"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures"
)

// Sessions with the driver's own encoder and decoder, against a server that reads and writes the bytes of the
// protocol: that the parts fit together.

var wire struct {
	on    bool
	chunk int   // the chunk size the driver is configured for
	cut   int   // chunk size of the server, 0 for one chunk per message
	read  int   // bytes delivered per read at most, 0 for what is there
	sizes []int // sizes of the chunks of the messages of the last query
	ends  bool  // the server's output ends after
	left  int   // that many more bytes,
	with  bool  // which the last read reports together with the last of them
}

// count is a number that came as an int, or as an int64 over the wire.
func count(v interface{}) (int, bool) {
	switch n := v.(type) {
	case int:
		return n, true
	case int64:
		return int(n), wire.on
	}
	return 0, false
}

// wireWrite takes bytes the driver writes, and passes on the messages that are complete.
func (n *Net) wireWrite(b []byte) {
	n.out = append(n.out, b...)
	for {
		var p []byte
		at := 0
		var sizes []int
		for {
			if len(n.out) < at+2 {
				return
			}
			l := int(n.out[at])<<8 + int(n.out[at+1])
			at += 2
			if l == 0 {
				break
			}
			Check("C06", l <= wire.chunk, "no chunk is longer than the chunk size set for the connection")
			if len(n.out) < at+l {
				return
			}
			p = append(p, n.out[at:at+l]...)
			at += l
			sizes = append(sizes, l)
		}
		wire.sizes = append(wire.sizes, sizes...)
		n.out = append([]byte(nil), n.out[at:]...)
		Check("C06,C09", len(p) >= 2, "a message has a header and a signature")
		size, rest := int(p[0])-0xB0, p[1:]
		Check("C04,C09", size >= 0 && size <= 15, "a message is a structure")
		m := ownStruct{sig: rest[0]}
		rest = rest[1:]
		for i := 0; i < size; i++ {
			v, tail, st := refDecode(rest)
			Check("C01,C02,C04", st == refOk, "a message is valid PackStream")
			m.fields = append(m.fields, v)
			rest = tail
		}
		Check("C04,C06,C09", len(rest) == 0, "nothing follows the fields of a message")
		n.srv.request(n, m)
	}
}

// wireReply sends a message.
func (n *Net) wireReply(m interface{}) {
	st := m.(structures.Structure)
	p := append(refStruct(len(st.AllFields())), byte(st.Signature()))
	for _, f := range st.AllFields() {
		p = append(p, refValue(f)...)
	}
	for len(p) > 0 {
		k := len(p)
		if wire.cut > 0 && k > wire.cut {
			k = wire.cut
		}
		n.in.Write([]byte{byte(k >> 8), byte(k)})
		n.in.Write(p[:k])
		p = p[k:]
	}
	n.in.Write([]byte{0, 0})
}

func wirePar(t string) map[string]interface{} {
	return kv(pair{"p", t}, pair{"n", int64(-7000)}, pair{"l", []interface{}{"one", int64(2), nil, true}}, pair{"m", kv(pair{"k", 1.5})})
}

func (h *sess) one(q string) map[string]interface{} {
	p := wirePar(q)
	h.n.startCall()
	h.expect([]string{q}, []map[string]interface{}{p})
	return p
}

// HLogWire: the same with all logging on.
func HLogWire() {
	blog.SetLevel("trace")
	HWire()
}

// HWire decides C06, C08, C09, C10 and C17 where session and codec meet.
func HWire() {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	world.count = func(q string) int { return 2 }
	wire.on = true
	wire.chunk = 65535
	switch Choose(4) {
	case 0:
		wire.cut = 0
	case 1:
		Note("the server sends chunks of one byte")
		wire.cut = 1
	case 2:
		Note("the server sends chunks of 7 bytes")
		wire.cut = 7
	default:
		Note("the server sends chunks of 16 bytes")
		wire.cut = 16
	}
	switch Choose(3) {
	case 0:
	case 1:
		Note("reads deliver one byte at a time")
		wire.read = 1
	default:
		Note("reads deliver three bytes at a time")
		wire.read = 3
	}
	h := openSession(stdStr)
	PanicProps("C05,C17,C09")
	BlockProps("C08,C09")
	st, err := h.conn.PrepareNeo("S")
	Check("C15", err == nil, "a statement can be prepared on a healthy connection without open statement")
	again := false
	switch Choose(5) {
	case 0:
		Note("chunk size 24")
		wire.chunk = 24
		h.conn.SetChunkSize(24)
	case 1:
		Note("chunk size 300")
		wire.chunk = 300
		h.conn.SetChunkSize(300)
	case 2:
		Note("chunk size 24, then 0")
		h.conn.SetChunkSize(24)
		h.conn.SetChunkSize(0)
	case 3:
		Note("chunk size 300, later 24")
		wire.chunk = 300
		h.conn.SetChunkSize(300)
		again = true
	}

	p := h.one("S")
	rows, err := st.QueryNeo(p)
	Check("C17,C08", err == nil, "a query succeeds on a healthy connection")
	data, sum, err := rows.All()
	Check("C17,C08", err == nil && len(data) == 2, "all records are delivered")
	checkAll(data, sum, "S", 0)
	Check("C14", rows.Close() == nil, "closing a row set on a healthy connection succeeds")
	p = h.one("S")
	rows, err = st.QueryNeo(p)
	Check("C17,C08", err == nil, "a query succeeds on a healthy connection")
	Check("C14", st.Close() == nil, "closing a statement on a healthy connection succeeds")

	if again {
		wire.chunk = 24
		h.conn.SetChunkSize(24)
	}
	p = h.one("E")
	res, err := h.conn.ExecNeo("E", p)
	Check("C17,C08", err == nil, "a query succeeds on a healthy connection")
	h.checkResult(res, "E")

	h.n.startCall()
	tx, err := h.conn.Begin()
	Check("C16,C08", err == nil && h.n.srv.okBegin == 1, "a transaction can be begun on a healthy connection")
	p = h.one("F")
	world.failRun = "F"
	_, err = h.conn.ExecNeo("F", p)
	Check("C10,C08", err != nil && failureCode(err) == "F-run F", "the server's failure is reported")
	h.n.startCall()
	err = tx.Rollback()
	Check("C16,C08", err == nil && h.n.srv.okRoll == 1, "a successful Rollback means the server accepted ROLLBACK")

	h.n.startCall()
	text := []string{"A", "B", "C"}
	pars := []map[string]interface{}{wirePar("A"), {}, nil}
	h.expect(text, pars)
	pr, err := h.conn.QueryPipeline(text, pars...)
	Check("C17,C08", err == nil, "a pipeline succeeds on a healthy connection")
	h.readPipe(pr, text, Choose(4), "")

	h.n.startCall()
	h.expect(text, pars)
	rs, err := h.conn.ExecPipeline(text, pars...)
	Check("C17,C08", err == nil && len(rs) == 3, "a pipeline has a result for each query")
	for i := range rs {
		h.checkResult(rs[i], text[i])
	}

	p = h.one("Q")
	data, _, sum, err = h.conn.QueryNeoAll("Q", p)
	Check("C17,C08", err == nil && len(data) == 2, "all records are delivered")
	checkAll(data, sum, "Q", 0)
	Check("C09,C08", !h.n.outstanding() && len(h.n.out) == 0, "nothing is left unread or half written")
	Check("C14", h.conn.Close() == nil && h.n.closed, "closing a healthy connection succeeds")
	Covered("session over the wire")
}

// HLogEnd: the same with all logging on.
func HLogEnd() {
	blog.SetLevel("trace")
	HWireEnd()
}

// HWireEnd decides C11 and C08 where the server's output ends at any byte.
func HWireEnd() {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	world.count = func(q string) int { return 1 }
	wire.on = true
	wire.chunk = 65535
	if Choose(2) == 1 {
		Note("the server sends chunks of 5 bytes")
		wire.cut = 5
	}
	if Choose(2) == 1 {
		Note("reads deliver one byte at a time")
		wire.read = 1
	}
	h := openSession(stdStr)
	PanicProps("C05,C08,C11")
	BlockProps("C08,C11")
	wire.ends = true
	wire.with = Choose(2) == 1
	wire.left = Choose(160)
	if wire.with {
		wire.left++
		NoteI("the end is reported with the last of the bytes", wire.left)
	} else {
		NoteI("the end is reported after the last of the bytes", wire.left)
	}
	p := h.one("Q")
	rows, err := h.conn.QueryNeo("Q", p)
	if h.ended(err) {
		return
	}
	Check("C08", err == nil, "a query succeeds on a healthy connection")
	h.n.startCall()
	row, _, err := rows.NextNeo()
	if h.ended(err) {
		return
	}
	Check("C08", err == nil, "rows are read without error on a healthy connection")
	checkRow(row, "Q", 0)
	h.n.startCall()
	if Choose(2) == 1 {
		err = rows.Close()
		if h.ended(err) {
			return
		}
		Check("C08", err == nil, "closing a row set on a healthy connection succeeds")
	} else {
		_, sum, err := rows.NextNeo()
		if h.ended(errNotEOF(err)) {
			return
		}
		Check("C08", err == io.EOF, "rows are read without error on a healthy connection")
		checkSummary(sum, "Q", 1)
		Check("C14", rows.Close() == nil, "closing a row set on a healthy connection succeeds")
	}
	p = h.one("E")
	_, err = h.conn.ExecNeo("E", p)
	if h.ended(err) {
		return
	}
	Stop()
}

// ended states what holds once the connection ended during a call.
func (h *sess) ended(err error) bool {
	if !h.n.ioFail {
		return false
	}
	if !h.n.whole {
		Check("C11,C08", err != nil, "no call succeeds after an I/O failure it observed")
		Check("C11,C27", inner(err) == driver.ErrBadConn, "a call that observed an I/O failure returns ErrBadConn as innermost error")
	}
	h.n.startCall()
	_, err = h.conn.ExecNeo("X", nil) // any use of the connection is reported
	Check("C11,C15", err != nil, "a connection that failed refuses its use")
	h.conn.Close()
	Check("C14", h.n.closed, "closing a connection closes its network connection")
	Covered("end of the connection")
	return true
}

// HEmpty decides C17 for results without columns and summaries without entries.
func HEmpty() {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	world.count = func(q string) int { return 2 }
	head := 0
	switch Choose(3) {
	case 0:
		Note("no columns")
		world.head = func(q string) map[string]interface{} { return map[string]interface{}{"fields": []interface{}{}} }
		head = 1
	case 1:
		Note("nothing about the columns")
		world.head = func(q string) map[string]interface{} { return map[string]interface{}{} }
	default:
		Note("nothing about the columns, but more")
		world.head = func(q string) map[string]interface{} { return kv(pair{"a", int64(1)}, pair{"b", int64(2)}) }
		head = 2
	}
	world.summary = func(q string) map[string]interface{} { return map[string]interface{}{} }
	world.record = func(i int) []interface{} { return []interface{}{} }
	wire.on = true
	wire.chunk = 65535
	h := openSession(stdStr)
	PanicProps("C05,C17")
	BlockProps("C17")
	row := func(r []interface{}, err error) {
		Check("C17", err == nil && r != nil && len(r) == 0, "a record without values is delivered")
	}
	switch Choose(5) {
	case 0:
		p := h.one("Q")
		rows, err := h.conn.QueryNeo("Q", p)
		Check("C17", err == nil && len(rows.Columns()) == 0 && len(rows.Metadata()) == head, "a query succeeds on a healthy connection")
		for i := 0; i < 2; i++ {
			r, _, err := rows.NextNeo()
			row(r, err)
		}
		_, sum, err := rows.NextNeo()
		Check("C17", err == io.EOF && len(sum) == 0, "the end of a row set comes with the summary of its own query")
		_, _, err = rows.NextNeo()
		Check("C17", err == io.EOF, "a finished row set keeps reporting the end")
		Check("C14", rows.Close() == nil, "closing a row set on a healthy connection succeeds")
	case 1:
		p := h.one("Q")
		data, md, sum, err := h.conn.QueryNeoAll("Q", p)
		Check("C17", err == nil && len(data) == 2 && len(data[0]) == 0 && len(data[1]) == 0, "all records are delivered")
		Check("C17", len(md) == head && len(sum) == 0, "the end of a row set comes with the summary of its own query")
	case 2:
		p := h.one("E")
		res, err := h.conn.ExecNeo("E", p)
		Check("C17", err == nil && res != nil && len(res.Metadata()) == 0, "an execution result carries the summary of its own query")
		h.n.startCall()
		text := []string{"A", "B"}
		pars := []map[string]interface{}{nil, nil}
		h.expect(text, pars)
		rs, err := h.conn.ExecPipeline(text, pars...)
		Check("C17", err == nil && len(rs) == 2 && len(rs[0].Metadata()) == 0 && len(rs[1].Metadata()) == 0, "a pipeline has a result for each query")
	case 3:
		text := []string{"A", "B"}
		pars := []map[string]interface{}{nil, nil}
		h.n.startCall()
		h.expect(text, pars)
		rows, err := h.conn.QueryPipeline(text, pars...)
		Check("C17", err == nil && len(rows.Columns()) == 0, "a pipeline succeeds on a healthy connection")
		for k := 0; k < 2; k++ {
			for i := 0; i < 2; i++ {
				r, _, next, err := rows.NextPipeline()
				row(r, err)
				Check("C17", next == nil, "a record comes without the next row set")
			}
			r, sum, next, err := rows.NextPipeline()
			Check("C17", r == nil && len(sum) == 0, "the end of a row set comes with the summary of its own query")
			if k == 0 {
				Check("C17", err == nil && next != nil, "a row set of a pipeline is followed by the next one")
				rows = next
			} else {
				Check("C17", next == nil, "the last row set of a pipeline is followed by no other")
			}
		}
		Check("C14", rows.Close() == nil, "closing a row set on a healthy connection succeeds")
	default:
		st, err := h.conn.PrepareNeo("S")
		Check("C15", err == nil, "a statement can be prepared on a healthy connection without open statement")
		for k := 0; k < 2; k++ {
			p := h.one("S")
			rows, err := st.QueryNeo(p)
			Check("C17", err == nil, "a query succeeds on a healthy connection")
			r, _, err := rows.NextNeo()
			row(r, err)
			data, sum, err := rows.All()
			Check("C17", err == nil && len(data) == 1 && len(sum) == 0, "all records are delivered")
			Check("C14", rows.Close() == nil, "closing a row set on a healthy connection succeeds")
		}
		Check("C14", st.Close() == nil, "closing a statement on a healthy connection succeeds")
	}
	Check("C09,C17", !h.n.outstanding(), "nothing is left unread")
	Covered("empty result")
}

// HWide decides C17 for rows of many columns, with and without logging.
func HWide() {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	world.count = func(q string) int { return 2 }
	if Choose(2) == 1 {
		Note("all logging on")
		blog.SetLevel("trace")
	}
	n := 0
	switch Choose(4) {
	case 0:
		n = 1
	case 1:
		n = 9
	case 2:
		n = 20
	default:
		n = 70
	}
	NoteI("columns", n)
	names := []interface{}{}
	for i := 0; i < n; i++ {
		names = append(names, "column"+string(rune('A'+i%26))+string(rune('A'+i/26)))
	}
	value := func(i, j int) interface{} {
		switch j % 4 {
		case 0:
			return int64(1000*i + j)
		case 1:
			return "value" + string(rune('a'+j%26)) + string(rune('a'+i))
		case 2:
			return nil
		}
		return []interface{}{int64(j), "in a list", j%8 == 3}
	}
	world.head = func(q string) map[string]interface{} { return kv(pair{"fields", names}) }
	world.record = func(i int) []interface{} {
		r := []interface{}{}
		for j := 0; j < n; j++ {
			r = append(r, value(i, j))
		}
		return r
	}
	wire.on = true
	wire.chunk = 65535
	h := openSession(stdStr)
	PanicProps("C05,C17,C28")
	BlockProps("C17")
	row := func(r []interface{}, i int) {
		Check("C17,C28", len(r) == n, "a record has all its values")
		for j := 0; j < n; j++ {
			agree("C17,C28", r[j], value(i, j), "a value of a record")
		}
	}
	columns := func(c []string) {
		Check("C17,C28", len(c) == n, "all columns are named")
		for j := 0; j < n; j++ {
			Check("C17,C28", c[j] == names[j].(string), "the columns are named in order")
		}
	}
	switch Choose(3) {
	case 0:
		p := h.one("Q")
		rows, err := h.conn.QueryNeo("Q", p)
		Check("C17", err == nil, "a query succeeds on a healthy connection")
		columns(rows.Columns())
		for i := 0; i < 2; i++ {
			r, _, err := rows.NextNeo()
			Check("C17", err == nil, "rows are read without error on a healthy connection")
			row(r, i)
		}
		Check("C14", rows.Close() == nil, "closing a row set on a healthy connection succeeds")
	case 1:
		p := h.one("Q")
		data, _, _, err := h.conn.QueryNeoAll("Q", p)
		Check("C17", err == nil && len(data) == 2, "all records are delivered")
		row(data[0], 0)
		row(data[1], 1)
	default:
		text := []string{"A", "B"}
		pars := []map[string]interface{}{nil, nil}
		h.n.startCall()
		h.expect(text, pars)
		rows, err := h.conn.QueryPipeline(text, pars...)
		Check("C17", err == nil, "a pipeline succeeds on a healthy connection")
		for k := 0; k < 2; k++ {
			columns(rows.Columns())
			for i := 0; i < 2; i++ {
				r, _, _, err := rows.NextPipeline()
				Check("C17", err == nil, "rows are read without error on a healthy connection")
				row(r, i)
			}
			_, _, next, err := rows.NextPipeline()
			if k == 0 {
				Check("C17", err == nil && next != nil, "a row set of a pipeline is followed by the next one")
				rows = next
			}
		}
		Check("C14", rows.Close() == nil, "closing a row set on a healthy connection succeeds")
	}
	Covered("wide rows")
}
