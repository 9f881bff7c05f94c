package vmodels

import (
	"io"
	"math"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
)

// C32: what is passed in is not modified and not held on to, and what is handed out is not touched again.

// aValue makes a value that shares nothing with what other calls make; wide is what it comes back as.
func aValue(kind int, n int64, s string, wide bool) interface{} {
	num := func(i int64) interface{} {
		if wide {
			return i
		}
		return int(i)
	}
	switch kind {
	case 0:
		return []interface{}{num(n), s, nil, []interface{}{s, true}}
	case 1:
		return kv(pair{"k", s}, pair{"m", kv(pair{"n", num(n)}, pair{"l", []interface{}{num(1), s}})})
	case 2:
		if wide {
			return []interface{}{s, "b", s}
		}
		return []string{s, "b", s}
	case 3:
		if wide {
			return []interface{}{n, int64(5)}
		}
		return []int{int(n), 5}
	case 4:
		return graph.Node{NodeIdentity: n, Labels: []string{s, "B"}, Properties: kv(pair{"p", s}, pair{"l", []interface{}{"x", s}})}
	case 5:
		return []interface{}{
			graph.Relationship{RelIdentity: n, StartNodeIdentity: 1, EndNodeIdentity: 2, Type: s, Properties: kv(pair{"p", s})},
			graph.UnboundRelationship{RelIdentity: n, Type: s, Properties: kv(pair{"p", s})},
		}
	}
	return graph.Path{
		Nodes:         []graph.Node{{NodeIdentity: n, Labels: []string{s}, Properties: kv(pair{"p", s})}, {NodeIdentity: 2, Labels: []string{}, Properties: kv()}},
		Relationships: []graph.UnboundRelationship{{RelIdentity: n, Type: s, Properties: kv()}},
		Sequence:      []int{1, 1},
	}
}

// another is what is encoded or decoded next: as long, but different.
func another(kind int) interface{} {
	return aValue(kind, 77, "zyxwvutsrqponmlkjihgfedcba9876543210", false)
}

// HAlias decides C32 for Marshal, Unmarshal, encoders and decoders.
func HAlias() {
	PanicProps("C32,C05")
	BlockProps("C32")
	kind := Choose(7)
	NoteI("value", kind)
	n := SymInt("n", math.MinInt64, math.MaxInt64)
	s := "abcdefghijklmnopqrstuvwxyz0123456789"
	switch Choose(3) {
	case 1:
		s = "short"
	case 2:
		s = SymStr("s", 0, 60000)
	}
	other := another((kind + Choose(2)) % 7)
	v := aValue(kind, n, s, false)
	b, err := encoding.Marshal(v)
	Check("C07", err == nil, "a value can be marshalled")
	agree("C32", v, aValue(kind, n, s, false), "marshalling a value leaves it as it is")
	keep := append([]byte(nil), b...)
	switch Choose(4) {
	case 0:
		Note("marshal, marshal again")
		b2, err := encoding.Marshal(other)
		Check("C07", err == nil, "a value can be marshalled")
		agree("C32", b, keep, "bytes that Marshal returned are not touched again")
		keep2 := append([]byte(nil), b2...)
		for i := range b[:1] {
			b[i] = 0xEE
		}
		agree("C32", b2, keep2, "the bytes of two calls of Marshal are not the same memory")
		Covered("marshalled twice")
	case 1:
		Note("unmarshal, change the bytes, unmarshal something else")
		got, err := encoding.Unmarshal(b)
		Check("C03", err == nil, "what was marshalled can be unmarshalled")
		agree("C32", b, keep, "unmarshalling leaves the bytes as they are")
		b2, err := encoding.Marshal(other)
		Check("C07", err == nil, "a value can be marshalled")
		if _, err = encoding.Unmarshal(b2); err != nil {
			Violate("C03", "what was marshalled can be unmarshalled")
		}
		copy(b, b2)
		b[0] = 0xEE
		agree("C32", got, aValue(kind, n, s, true), "a value that was unmarshalled is not touched again, also if the caller changes the bytes")
		Covered("bytes reused")
	case 2:
		Note("decode, decode the next message with the same decoder")
		b2, err := encoding.Marshal(other)
		Check("C07", err == nil, "a value can be marshalled")
		r := &source{data: append(append([]byte(nil), b...), b2...)}
		dec := encoding.NewDecoder(r)
		got, err := dec.Decode()
		Check("C08", err == nil, "a message is decoded however it is split")
		_, err = dec.Decode()
		Check("C08", err == nil, "the next message is decoded")
		for i := range r.data[:2] {
			r.data[i] = 0xEE
		}
		agree("C32", got, aValue(kind, n, s, true), "a value that was decoded is not touched again by decoding the next one")
		Covered("decoder used again")
	default:
		Note("encode, encode something else with the same encoder")
		w := &sink{}
		enc := encoding.NewEncoder(w, 65535)
		if Choose(2) == 1 {
			enc.Encode(struct{}{}) // fails
		}
		Check("C07", enc.Encode(v) == nil, "a value can be encoded")
		agree("C32,C02,C07", w.got.Bytes(), keep, "an encoder that is used again encodes as a new one does")
		agree("C32", v, aValue(kind, n, s, false), "encoding a value leaves it as it is")
		w.got.Reset()
		Check("C07", enc.Encode(other) == nil, "a value can be encoded")
		b2, err := encoding.Marshal(other)
		Check("C07", err == nil, "a value can be marshalled")
		agree("C32,C02,C07", w.got.Bytes(), b2, "an encoder that is used again encodes as a new one does")
		Covered("encoder used again")
	}
}

// HAliasSession decides C32 for connections: the caller changes everything it can get hold of.
func HAliasSession() {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	world.count = func(q string) int { return 2 }
	wire.on = true
	wire.chunk = 65535
	h := openSession(stdStr)
	PanicProps("C32,C05")
	BlockProps("C32")
	h.later = true
	switch Choose(5) {
	case 0:
		Note("rows, one after the other")
		p := h.one("Q")
		rows, err := h.conn.QueryNeo("Q", p)
		Check("C17", err == nil, "a query succeeds on a healthy connection")
		spoilMap(p)
		r1, _, err := rows.NextNeo()
		Check("C17", err == nil, "rows are read without error on a healthy connection")
		r2, _, err := rows.NextNeo()
		Check("C17", err == nil, "rows are read without error on a healthy connection")
		checkKept("C32", r1, "Q", 0)
		r1[0], r1[1] = "changed", 99
		checkKept("C32", r2, "Q", 1)
		_, sum, err := rows.NextNeo()
		Check("C17", err == io.EOF, "rows end with io.EOF")
		checkSummary(sum, "Q", 2)
		Check("C14", rows.Close() == nil, "closing a row set on a healthy connection succeeds")
		p = h.one("R")
		data, _, sum2, err := h.conn.QueryNeoAll("R", p)
		Check("C17", err == nil && len(data) == 2, "all records are delivered")
		checkKept("C32", r2, "Q", 1)
		Check("C32", Cmp(sum["q"], "Q") == 1, "a summary that was handed out is not touched again")
		sum["q"] = "changed"
		checkAll(data, sum2, "R", 0)
		Covered("rows kept")
	case 1:
		Note("results of executions")
		p := h.one("E")
		res, err := h.conn.ExecNeo("E", p)
		Check("C17", err == nil, "a query succeeds on a healthy connection")
		agree("C32", p, wirePar("E"), "running a query leaves its parameters as they are")
		spoilMap(p)
		p = h.one("F")
		res2, err := h.conn.ExecNeo("F", p)
		Check("C17", err == nil, "a query succeeds on a healthy connection")
		Check("C32", Cmp(res.Metadata()["q"], "E") == 1, "a result that was handed out is not touched again")
		res.Metadata()["q"] = "changed"
		Check("C32", Cmp(res2.Metadata()["q"], "F") == 1, "the results of two calls share nothing")
		h.checkResult(res2, "F")
		Covered("results kept")
	case 2:
		Note("a pipeline, the caller changes what it passed")
		text, pars := h.aPipe()
		rows, err := h.conn.QueryPipeline(text, pars...)
		Check("C17", err == nil, "a pipeline succeeds on a healthy connection")
		h.untouched(text, pars)
		spoilPipe(text, pars)
		h.readPipe(rows, []string{"A", "B", "C"}, 3, "")
		Covered("pipeline arguments changed")
	case 3:
		Note("an executed pipeline, the caller changes what it passed")
		text, pars := h.aPipe()
		rs, err := h.conn.ExecPipeline(text, pars...)
		Check("C17", err == nil && len(rs) == 3, "a pipeline has a result for each query")
		h.untouched(text, pars)
		spoilPipe(text, pars)
		for i, q := range []string{"A", "B", "C"} {
			Check("C32", Cmp(rs[i].Metadata()["q"], q) == 1, "the results of a pipeline share nothing")
			h.checkResult(rs[i], q)
			rs[i].Metadata()["q"] = "changed"
		}
	default:
		Note("a prepared pipeline, the caller changes what it passed")
		text, pars := h.aPipe()
		st, err := h.conn.PreparePipeline(text...)
		Check("C15", err == nil, "a statement can be prepared on a healthy connection without open statement")
		spoilPipe(text, nil)
		if Choose(2) == 0 {
			rs, err := st.ExecPipeline(pars...)
			Check("C17,C32", err == nil && len(rs) == 3, "a pipeline has a result for each query")
			spoilPipe(text, pars)
			for i, q := range []string{"A", "B", "C"} {
				h.checkResult(rs[i], q)
			}
			h.n.startCall()
			_, pars = h.aPipe()
		}
		rows, err := st.QueryPipeline(pars...)
		Check("C17,C32", err == nil, "a pipeline succeeds on a healthy connection")
		spoilPipe(text, pars)
		h.readPipe(rows, []string{"A", "B", "C"}, 3, "")
		Check("C14", st.Close() == nil, "closing a statement on a healthy connection succeeds")
		Covered("prepared arguments changed")
	}
}

func checkKept(props string, row []interface{}, text string, k int) {
	Check(props, len(row) == 2 && Cmp(row[0], text) == 1 && Cmp(row[1], int64(k)) == 1, "a row that was handed out is not touched again")
}

// aPipe is a pipeline, and what is expected of it, which shares nothing with it.
func (h *sess) aPipe() ([]string, []map[string]interface{}) {
	h.n.startCall()
	h.expect([]string{"A", "B", "C"}, []map[string]interface{}{wirePar("A"), wirePar("B"), {}})
	if h.nilPar = Choose(2) == 0; h.nilPar {
		return []string{"A", "B", "C"}, []map[string]interface{}{wirePar("A"), wirePar("B"), nil}
	}
	return []string{"A", "B", "C"}, []map[string]interface{}{wirePar("A"), wirePar("B"), {}}
}

func (h *sess) untouched(text []string, pars []map[string]interface{}) {
	agree("C32", text, []string{"A", "B", "C"}, "running a pipeline leaves its queries as they are")
	agree("C32", pars[0], wirePar("A"), "running a pipeline leaves its parameters as they are")
	agree("C32", pars[1], wirePar("B"), "running a pipeline leaves its parameters as they are")
	Check("C32", len(pars) == 3 && len(pars[2]) == 0, "running a pipeline leaves its parameters as they are")
	if h.nilPar {
		Check("C32", pars[2] == nil, "running a pipeline leaves its parameters as they are")
	}
}

func spoilPipe(text []string, pars []map[string]interface{}) {
	for i := range text {
		text[i] = "changed"
	}
	for i, p := range pars {
		if p != nil {
			spoilMap(p)
		}
		pars[i] = nil
	}
}

func spoilMap(m map[string]interface{}) {
	if l, ok := m["l"].([]interface{}); ok {
		l[0] = "changed"
	}
	m["p"] = "changed"
	m["new"] = "changed"
}
