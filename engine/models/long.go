package vmodels

import (
	"io"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

// Long histories without faults: what the fixpoint over all histories, with its two or three queries and records at
// a time, says nothing about is whether numbers of queries, records or calls make a difference. These go through
// the sizes at which counters of one byte and likely thresholds end.

var longN = 1100

func digits4(i int) string {
	return string([]byte{'0' + byte(i/1000), '0' + byte(i/100%10), '0' + byte(i/10%10), '0' + byte(i%10)})
}

// longPipe gives k queries with their parameters.
func longPipe(k int) ([]string, []map[string]interface{}) {
	var text []string
	var par []map[string]interface{}
	for i := 0; i < k; i++ {
		t := "L" + digits4(i)
		text = append(text, t)
		par = append(par, map[string]interface{}{"p": t})
	}
	return text, par
}

// usable: the connection is in step and can run a query.
func (h *sess) usable() {
	Check("C09", !h.n.outstanding() && h.n.srv.state == srvReady, "nothing is left unread")
	h.n.startCall()
	h.expect([]string{"U"}, []map[string]interface{}{{}})
	_, err := h.conn.ExecNeo("U", nil)
	Check("C09,C10,C15", err == nil, "the connection can be used afterwards")
}

func longSess() *sess {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	world.count = func(q string) int {
		if q[0] == 'L' {
			return 1
		}
		if q == "U" {
			return 0
		}
		return longN
	}
	h := openSession(stdStr)
	PanicProps("C05,C17,C09")
	BlockProps("C09")
	h.n.startCall()
	return h
}

// HLong decides C09, C10, C15, C16 and C17 for long results, pipelines and series of calls.
func HLong() {
	h := longSess()
	q := []string{"Q"}
	par := map[string]interface{}{"p": "Q"}
	one := []map[string]interface{}{par}
	kinds := 12
	if longN > 10000 {
		kinds = 4
	}
	switch Choose(kinds) {
	case 0:
		Note("QueryNeo with many records, read to the end")
		h.expect(q, one)
		rows, err := h.conn.QueryNeo("Q", par)
		Check("C17", err == nil, "a query succeeds on a healthy connection")
		h.readAll(rows)
		Check("C14", rows.Close() == nil, "closing a row set on a healthy connection succeeds")
	case 1:
		Note("QueryNeo with many records, All")
		h.expect(q, one)
		rows, err := h.conn.QueryNeo("Q", par)
		Check("C17", err == nil, "a query succeeds on a healthy connection")
		data, sum, err := rows.All()
		Check("C17", err == nil, "rows are read without error on a healthy connection")
		Check("C17", len(data) == longN, "all records are delivered")
		checkAll(data, sum, "Q", 0)
		rows.Close()
	case 2:
		Note("QueryNeoAll with many records")
		h.expect(q, one)
		data, _, sum, err := h.conn.QueryNeoAll("Q", par)
		Check("C17", err == nil, "a query succeeds on a healthy connection")
		Check("C17", len(data) == longN, "all records are delivered")
		checkAll(data, sum, "Q", 0)
	case 3:
		Note("ExecNeo with many records")
		h.expect(q, one)
		res, err := h.conn.ExecNeo("Q", par)
		Check("C17", err == nil, "a query succeeds on a healthy connection")
		h.checkResult(res, "Q")
	case 4:
		Note("a query abandoned after some records")
		h.expect(q, one)
		rows, err := h.conn.QueryNeo("Q", par)
		Check("C17", err == nil, "a query succeeds on a healthy connection")
		k := at()
		for i := 0; i < k; i++ {
			row, _, err := rows.NextNeo()
			Check("C17", err == nil, "rows are read without error on a healthy connection")
			checkRow(row, "Q", i)
		}
		Check("C14,C09", rows.Close() == nil, "closing a row set on a healthy connection succeeds")
	case 5:
		Note("a prepared statement run many times")
		st, err := h.conn.PrepareNeo("L0000")
		Check("C15", err == nil, "a statement can be prepared on a healthy connection without open statement")
		for i := 0; i < longN; i++ {
			h.n.startCall()
			p := map[string]interface{}{"p": i}
			h.expect([]string{"L0000"}, []map[string]interface{}{p})
			if i%2 == 0 {
				res, err := st.ExecNeo(p)
				Check("C17,C15", err == nil, "a query succeeds on a healthy connection")
				h.checkResult(res, "L0000")
				continue
			}
			rows, err := st.QueryNeo(p)
			Check("C17,C15", err == nil, "a query succeeds on a healthy connection")
			data, sum, err := rows.All()
			Check("C17", err == nil, "rows are read without error on a healthy connection")
			Check("C17", len(data) == 1, "all records are delivered")
			checkAll(data, sum, "L0000", 0)
			Check("C14", rows.Close() == nil, "closing a row set on a healthy connection succeeds")
		}
		Check("C14", st.Close() == nil, "closing a statement on a healthy connection succeeds")
	case 6:
		Note("many transactions")
		for i := 0; i < longN; i++ {
			h.n.startCall()
			tx, err := h.conn.Begin()
			Check("C16,C15", err == nil && h.n.srv.tx && h.n.srv.okBegin == 1, "a transaction can be begun on a healthy connection")
			h.n.startCall()
			if i%3 == 0 {
				err = tx.Rollback()
				Check("C16", err == nil && h.n.srv.okRoll == 1 && h.n.srv.rolls == 1, "a successful Rollback means the server accepted ROLLBACK, sent once")
			} else {
				err = tx.Commit()
				Check("C16", err == nil && h.n.srv.okCommit == 1 && h.n.srv.commits == 1, "a successful Commit means the server accepted COMMIT, sent once")
			}
		}
	case 7:
		Note("a long pipeline, executed")
		text, pars := longPipe(longN)
		h.expect(text, pars)
		bad := fails()
		res, err := h.conn.ExecPipeline(text, pars...)
		if bad != "" {
			Check("C10", failureCode(err) == "F-run "+bad, "the server's failure is reported")
			break
		}
		Check("C17", err == nil && len(res) == longN, "a pipeline has a result for each query")
		h.ranAll(longN)
		for i := range res {
			h.checkResult(res[i], text[i])
		}
	case 8:
		Note("a long pipeline, read to the end")
		text, pars := longPipe(longN)
		h.expect(text, pars)
		bad := fails()
		rows, err := h.conn.QueryPipeline(text, pars...)
		Check("C17", err == nil, "a pipeline succeeds on a healthy connection")
		h.readPipe(rows, text, longN, bad)
	case 9:
		Note("a long pipeline with a parameter that can't be encoded, executed")
		text, pars := longPipe(longN)
		h.expect(text, pars)
		pars[at()]["bad"] = true
		_, err := h.conn.ExecPipeline(text, pars...)
		Check("C10,C17", err != nil, "a parameter that can't be encoded is reported")
	case 10:
		Note("a long pipeline with a parameter that can't be encoded, queried")
		text, pars := longPipe(longN)
		h.expect(text, pars)
		pars[at()]["bad"] = true
		_, err := h.conn.QueryPipeline(text, pars...)
		Check("C10,C17", err != nil, "a parameter that can't be encoded is reported")
	default:
		Note("a long pipeline, abandoned")
		text, pars := longPipe(longN)
		h.expect(text, pars)
		st, err := h.conn.PreparePipeline(text...)
		Check("C15", err == nil, "a statement can be prepared on a healthy connection without open statement")
		rows, err := st.QueryPipeline(pars...)
		Check("C17", err == nil, "a pipeline succeeds on a healthy connection")
		h.readPipe(rows, text, at(), "")
		Check("C14,C09", st.Close() == nil, "closing a statement on a healthy connection succeeds")
	}
	world.failRun = ""
	h.usable()
	Covered("long history")
}

// HLongest does the same with results of more than 65536 records.
func HLongest() {
	longN = 66000
	HLong()
}

// at is where a long result or pipeline is abandoned.
func at() int {
	switch Choose(13) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 15
	case 3:
		return 64
	case 4:
		return 127
	case 5:
		return 128
	case 6:
		return 171
	case 7:
		return 255
	case 8:
		return 256
	case 9:
		return 512
	case 10:
		return 1000
	case 11:
		return 1024
	}
	return longN - 1
}

// fails picks a query of the pipeline that fails, or none.
func fails() string {
	switch Choose(6) {
	case 0:
		return ""
	case 1:
		world.failRun = "L0127"
	case 2:
		world.failRun = "L0128"
	case 3:
		world.failRun = "L0256"
	case 4:
		world.failRun = "L1024"
	default:
		world.failRun = "L1099"
	}
	Note("  (" + world.failRun + " fails)")
	return world.failRun
}

func (h *sess) readAll(rows bolt.Rows) {
	for i := 0; ; i++ {
		row, sum, err := rows.NextNeo()
		if err == io.EOF {
			checkSummary(sum, "Q", i)
			Check("C17", i == longN, "all records are delivered")
			return
		}
		Check("C17", err == nil, "rows are read without error on a healthy connection")
		checkRow(row, "Q", i)
	}
}

// readPipe reads the first k row sets of a pipeline, and closes it unless that is all of them.
func (h *sess) readPipe(rows bolt.PipelineRows, text []string, k int, bad string) {
	i, got := 0, 0
	var kept []keptRow
	var sums []map[string]interface{}
	for i < k {
		row, sum, next, err := rows.NextPipeline()
		if err != nil && bad != "" {
			Check("C10,C17", failureCode(err) == "F-run "+bad && i < k-1 && text[i+1] == bad, "the server's failure is reported where it belongs")
			rows.Close()
			return
		}
		Check("C17", err == nil, "rows are read without error on a healthy connection")
		if row != nil {
			checkRow(row, text[i], got)
			if h.later {
				kept = append(kept, keptRow{row, text[i], got})
			}
			got++
			continue
		}
		checkSummary(sum, text[i], got)
		if h.later {
			sums = append(sums, sum)
		}
		i++
		got = 0
		if i == len(text) {
			Check("C17", next == nil, "the last row set of a pipeline is followed by no other")
			break
		}
		Check("C17", next != nil, "a row set of a pipeline is followed by the next one")
		rows = next
		h.checkHead(rows.Metadata(), rows.Columns(), text[i])
	}
	Check("C14,C09", rows.Close() == nil, "closing a row set on a healthy connection succeeds")
	Check("C10", bad == "", "a failing query does not go unnoticed")
	for _, r := range kept {
		checkKept("C32", r.row, r.text, r.k)
	}
	for i, sum := range sums {
		Check("C32", Cmp(sum["q"], text[i]) == 1, "a summary that was handed out is not touched again")
	}
}

type keptRow struct {
	row  []interface{}
	text string
	k    int
}

// HLongPool decides C18, C19 and C20 for a big pool.
func HLongPool() {
	const size = 40
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	world.count = func(q string) int { return 0 }
	p := newPoolS(size, false)
	PanicProps("C05,C18,C19,C20")
	for i := 0; i < size; i++ {
		p.openPool()
		p.settle()
	}
	Check("C18", len(p.h) == size, "a pool of size n hands out n connections")
	for round := 0; round < 2; round++ {
		for len(p.h) > 0 {
			p.handBack((len(p.h)*len(p.h) + 3*round + 1) % len(p.h))
			p.settle()
		}
		for i := 0; i < size-3; i++ {
			p.openPool()
			p.settle()
		}
	}
	Check("C18", len(world.nets) == size, "connections handed back are used again")
	all := world.nets
	p.start("pool.Close")
	err := p.pool.Close()
	Check("C20", err == nil, "closing a pool succeeds if closing its connections does")
	for _, n := range all {
		Check("C20", n.closed, "closing the pool closes every connection")
	}
	_, err = p.pool.OpenPool()
	Check("C20", err != nil, "a closed pool hands out no connections")
	Covered("big pool")
}
