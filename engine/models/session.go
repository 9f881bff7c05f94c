package vmodels

import (
	"database/sql/driver"
	"io"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	blog "github.com/johnnadratowski/golang-neo4j-bolt-driver/log"
)

// The most general client of one connection: any sequence of calls on the connection and on everything obtained
// from it, including handles that are closed. Next to the driver's own state it keeps what the properties say
// about each handle.

type stmtH struct {
	s    bolt.Stmt
	p    bolt.PipelineStmt
	text []string
	dead bool
}

type rowsH struct {
	r      bolt.Rows
	p      bolt.PipelineRows
	text   []string
	idx    int
	got    int
	ended  bool // all records and the summary were delivered
	odd    bool // an answer could not be decoded
	failed bool // reading it failed
	dead   bool
	of     *stmtH // nil: the statement is not exposed
	next   *rowsH // the rows that follow in the pipeline
}

type txH struct {
	t     driver.Tx
	dead  bool
	maybe bool // a failed attempt to end it sent nothing
}

type sess struct {
	nilPar  bool
	later   bool // rows and summaries are looked at again later
	conn    bolt.Conn
	n       *Net
	closed  bool
	bad     bool
	open    bool // a statement is open
	st      *stmtH
	rows    *rowsH
	tx      *txH
	stOld   *stmtH // one handle that is over may be kept for later use
	rowsOld *rowsH
	txOld   *txH
	what    int
	maxPipe int
}

const (
	withPipelines = 1 << iota
	withTx
	withStale
	withPlain
	withTimeout
	withSQL      // the database/sql methods
	withStaleAll // failures go on once a handle is stale
)

// openSession opens a connection; nil if that failed.
func openSession(str string) *sess {
	d := bolt.NewDriver()
	PanicProps("C13,C05")
	BlockProps("C13")
	if rec.on {
		Note("recorder")
		rec.conn = AsConn(RecorderMaker()("r", str))
		SetRecorder(d, rec.conn)
	}
	Note("OpenNeo")
	conn, err := d.OpenNeo(str)
	checkOpened(err)
	if err != nil {
		return nil
	}
	Covered("connection opened")
	n := world.nets[len(world.nets)-1]
	return &sess{conn: conn, n: n, maxPipe: 2}
}

// checkOpened states what opening guarantees (C13).
func checkOpened(err error) {
	if err != nil {
		for _, n := range world.nets {
			Check("C13,C14", n.closed, "a connection that could not be opened has its network connection closed")
			if n.ioFail {
				Check("C11,C27,C13", inner(err) == driver.ErrBadConn, "opening over a connection that fails reports ErrBadConn")
			} else if n.srv.fail == "F-init" && n.srv.failN == 1 && !n.srv.refused {
				Check("C10,C27,C13", failureCode(err) == "F-init", "opening reports the server's failure")
			}
		}
		Covered("opening failed")
		return
	}
	Check("C13", world.dials > 0 && len(world.nets) > 0, "an opened connection was dialled")
	n := world.nets[len(world.nets)-1]
	Check("C11,C13", !n.ioFail, "opening does not succeed after an I/O failure")
	Check("C13", n.hsDone && n.srv.version, "opening succeeds only after a complete handshake with an accepted version")
	Check("C13,C10", n.srv.accepted && n.srv.fail == "", "opening succeeds only if INIT was answered with SUCCESS")
	Check("C09,C13", !n.outstanding(), "opening leaves no unread answers")
	Check("C13,C14", !n.closed, "an opened connection is not closed")
}

// HOpen: opening a connection, with every fault and answer.
func HOpen() {
	world = World{}
	s := openSession("bolt://u:p@h:7687")
	if s == nil {
		return
	}
	s.n.startCall()
	world.script = noFaults | noFailures | noCloseFaults
	PanicProps("C13,C05")
	err := s.conn.Close()
	Check("C14", err == nil && s.n.closed, "closing a fresh connection closes the network connection")
}

const stdStr = "bolt://u:p@h:7687"

// HSession: plain statements and transactions.
func HSession() {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	s := openSession(stdStr)
	world.script = noDialFaults | goodHandshake
	s.what = withPlain | withTx | withStale
	s.loop()
}

// HPipeline: pipelines of up to two queries, with transactions.
func HPipeline() {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	s := openSession(stdStr)
	world.script = noDialFaults | goodHandshake | oneRecord
	s.what = withPipelines | withStale
	s.loop()
}

// HPipeTx: pipelines inside transactions.
func HPipeTx() {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	s := openSession(stdStr)
	world.script = noDialFaults | goodHandshake | oneRecord | noResetFail
	s.what = withPipelines | withTx
	s.loop()
}

// HPipeline3: pipelines of three queries.
func HPipeline3() {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	s := openSession(stdStr)
	world.script = noDialFaults | goodHandshake | oneRecord | noResetFail | noCloseFaults
	s.what = withPipelines
	s.maxPipe = 3
	s.loop()
}

// HUndec and HUndecPipe: one answer, whichever it is, can't be decoded.
func HUndec() { undecodable(withPlain | withTx) }

func HUndecPipe() { undecodable(withPipelines) }

func undecodable(what int) {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	s := openSession(stdStr)
	world.script = noDialFaults | goodHandshake | noFaults | noCloseFaults | noResetFail
	world.undec = 1
	s.what = what
	s.loop()
}

// HLogSession: plain statements and transactions with all logging on.
func HLogSession() {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	blog.SetLevel("trace")
	s := openSession(stdStr)
	world.script = noDialFaults | goodHandshake | noCloseFaults
	s.what = withPlain | withTx
	s.loop()
}

// HLogPipeline: pipelines with all logging on.
func HLogPipeline() {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	blog.SetLevel("trace")
	s := openSession(stdStr)
	world.script = noDialFaults | goodHandshake | oneRecord | noResetFail | noCloseFaults
	s.what = withPipelines
	s.loop()
}

// HTimeout: changing the timeout.
func HTimeout() {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	s := openSession(stdStr)
	world.script = noDialFaults | goodHandshake | noFaults | noFailures
	d := time.Duration(SymInt("timeout", -(1 << 40), 1<<40))
	s.conn.SetTimeout(d)
	s.n.timeout = d
	s.what = withPlain | withTx
	s.loop()
}

func (h *sess) loop() {
	PanicProps("C05,C09,C14,C15")
	BlockProps("C09,C14")
	for {
		h.step()
		h.n.startCall()
		h.n.forget()
		if rec.on {
			ForgetEvents(rec.conn)
		}
	}
}

func (h *sess) suffix() string {
	if h.usesA(h.st, h.rows) || h.usesA(h.stOld, h.rowsOld) {
		return "b"
	}
	return "a"
}

// usesA tells whether the handles belong to queries named with an a.
func (h *sess) usesA(st *stmtH, rows *rowsH) bool {
	if st != nil && len(st.text) > 0 && lastA(st.text[0]) {
		return true
	}
	return rows != nil && len(rows.text) > 0 && lastA(rows.text[0])
}

func lastA(s string) bool { return s[len(s)-1] == 'a' }

func (h *sess) step() {
	switch Choose(7) {
	case 0:
		h.connCall()
	case 1:
		if h.st == nil {
			Stop()
		}
		h.stmtCall(h.st)
	case 2:
		if h.rows == nil {
			Stop()
		}
		h.rowsCall(h.rows)
	case 3:
		if h.what&withTx == 0 || h.tx == nil {
			Stop()
		}
		h.txCall(h.tx)
	case 4:
		if h.what&withStale == 0 || h.stOld == nil {
			Stop()
		}
		h.stmtCall(h.stOld)
	case 5:
		if h.what&withStale == 0 || h.rowsOld == nil {
			Stop()
		}
		h.rowsCall(h.rowsOld)
	case 6:
		if h.what&withStale == 0 || h.txOld == nil {
			Stop()
		}
		h.txCall(h.txOld)
	}
}

// ---------- calls ----------

func (h *sess) start(what string) {
	Note(what)
	h.n.startCall()
}

// rowsOpen tells whether a row set may own unread answers.
func (h *sess) rowsOpen() bool {
	r := h.rows
	return r != nil && !r.dead && !r.ended && !r.failed
}

// end states what holds after every call.
func (h *sess) end(err error) {
	n := h.n
	s := &n.srv
	if n.ioFail {
		Check("C11", err != nil, "no call succeeds after an I/O failure it observed")
		Check("C11,C27", inner(err) == driver.ErrBadConn, "a call that observed an I/O failure returns ErrBadConn as innermost error")
		h.bad = true
		Covered("I/O failure")
	} else if n.undecNow {
		Check("C09,C05", err != nil, "no call succeeds with an answer it could not decode")
		if s.fail == "" {
			Check("C27", inner(err) == errGarbage, "the innermost error is the decoding error")
		}
		h.bad = true
		Covered("undecodable answer")
	} else if s.refused {
		Check("C10", err != nil, "no call succeeds when the server gave up the session")
		Check("C10,C14", n.closed, "a session that can't be reset is closed")
		Covered("reset refused")
	} else if s.fail != "" {
		Check("C10,C16,C17,C27", err != nil, "no call succeeds when the server reported a failure for one of its requests")
		Check("C10,C27", failureCode(err) == s.fail, "the innermost error is the server's failure message")
		Check("C10,C09", s.state != srvFailed || h.rowsOpen(), "a failure is acknowledged before the call returns")
		Covered("failure")
	}
	if s.refused {
		h.bad = true
		h.closed = true
		h.killAll()
	}
	if n.undec && !h.rowsOpen() && (n.outstanding() || s.state != srvReady) {
		n.lost = true
	}
	if !h.bad && !n.closed {
		if !h.rowsOpen() {
			Check("C09", !n.outstanding(), "no call leaves unread answers behind unless an open row set owns them")
			Check("C09", s.state == srvReady, "no call leaves an unfinished result behind unless an open row set owns it")
		}
	}
	h.settle()
}

// settle drops what is over, keeping one such handle for later use perhaps.
func (h *sess) settle() {
	h.n.startCall()
	h.n.forget()
	var st *stmtH
	var rows *rowsH
	var tx *txH
	if h.st != nil && h.st.dead {
		st = h.st
		h.st = nil
	}
	if h.rows != nil && h.rows.dead {
		rows = h.rows
		h.rows = nil
	}
	if h.tx != nil && h.tx.dead {
		tx = h.tx
		h.tx = nil
	}
	if h.what&withStale == 0 {
		return
	}
	h.keep(st, rows, tx)
}

func (h *sess) keep(st *stmtH, rows *rowsH, tx *txH) {
	if st == nil && rows == nil && tx == nil || h.stOld != nil || h.rowsOld != nil || h.txOld != nil {
		return
	}
	switch Choose(4) {
	case 0:
		return
	case 1:
		if st == nil {
			Stop()
		}
		h.stOld, h.rowsOld, h.txOld = st, nil, nil
	case 2:
		if rows == nil {
			Stop()
		}
		h.stOld, h.rowsOld, h.txOld = nil, rows, nil
	case 3:
		if tx == nil {
			Stop()
		}
		h.stOld, h.rowsOld, h.txOld = nil, nil, tx
	}
	if h.what&withStaleAll == 0 {
		world.script |= noFaults | noFailures | oneRecord | noCloseFaults
	}
}

func (h *sess) quiet(props, msg string) {
	Check(props, h.n.traffic == 0 && !h.n.ioFail, msg)
}

func (h *sess) noTx(begin, commit, roll int) {
	s := &h.n.srv
	Check("C16", s.begins <= begin && s.commits <= commit && s.rolls <= roll, "BEGIN, COMMIT and ROLLBACK are sent only when asked for, and once")
}

func (h *sess) killStmt() {
	if h.st != nil {
		h.st.dead = true
	}
	h.killRows()
	h.open = false
}

func (h *sess) killRows() {
	if h.rows != nil {
		h.rows.dead = true
	}
}

func (h *sess) killAll() {
	h.killStmt()
	if h.tx != nil {
		h.tx.dead = true
	}
}

func (h *sess) newStmt(st *stmtH) {
	h.st = st
	h.open = true
}

func (h *sess) newRows(r *rowsH) {
	h.rows = r
}

// refused states that the call was turned down without a trace.
func (h *sess) refusedNow(err error, why string) {
	Check("C15", err != nil, "a call is refused "+why)
	h.quiet("C15", "a call that is refused "+why+" sends nothing")
	h.noTx(0, 0, 0)
	Covered("refused " + why)
}

// dead reports whether a call on the connection has to be refused, and checks that it was.
func (h *sess) mustRefuse(err error) bool {
	if h.closed {
		h.refusedNow(err, "on a closed connection")
		return true
	}
	if h.open {
		h.refusedNow(err, "while a statement is open")
		return true
	}
	return false
}

// attempted: the call was not refused.
func (h *sess) attempted(bad bool) {
	if !h.bad && !bad {
		Check("C15", h.n.traffic > 0 || h.n.ioFail, "a call on a healthy connection without open statement is not refused")
	}
}

// expect sets the queries the call may send, with the parameters.
func (h *sess) expect(text []string, params []map[string]interface{}) {
	h.n.srv.want = append([]string(nil), text...)
	h.n.srv.params = nil
	for _, p := range params {
		q := map[string]interface{}{}
		for k, v := range p {
			q[k] = v
		}
		h.n.srv.params = append(h.n.srv.params, q)
	}
}

func (h *sess) query(kind string) (string, map[string]interface{}, bool) {
	text := kind + h.suffix()
	par := map[string]interface{}{"p": text}
	switch Choose(3) {
	case 1:
		Note("  (with a parameter that can't be encoded)")
		par["bad"] = true
		return text, par, true
	case 2:
		return text, nil, false
	}
	return text, par, false
}

// pipe gives the queries and parameters of a pipeline; bad: the index of a query that can't be encoded, or -1.
func (h *sess) pipe(kind string, k int) ([]string, []map[string]interface{}) {
	var text []string
	var par []map[string]interface{}
	for i := 0; i < k; i++ {
		t := kind + digit(i) + h.suffix()
		text = append(text, t)
		par = append(par, map[string]interface{}{"p": t})
	}
	return text, par
}

func digit(i int) string {
	switch i {
	case 0:
		return "0"
	case 1:
		return "1"
	case 2:
		return "2"
	}
	return "3"
}

// spoil makes one of the parameter sets unencodable, or changes their number.
func (h *sess) spoil(par []map[string]interface{}) ([]map[string]interface{}, bool, bool) {
	switch Choose(5) {
	case 0:
		return par, false, false
	case 4:
		if len(par) == 0 {
			Stop()
		}
		i := Choose(len(par))
		NoteI("  (without parameters for query", i)
		par[i] = nil
		if Choose(2) == 1 {
			par[i] = map[string]interface{}{}
		}
		return par, false, false
	case 1:
		if len(par) == 0 {
			Stop()
		}
		i := Choose(len(par))
		NoteI("  (with a parameter that can't be encoded, query", i)
		par[i]["bad"] = true
		return par, true, false
	case 2:
		if len(par) == 0 {
			Stop()
		}
		Note("  (with too few parameter sets)")
		return par[:len(par)-1], false, true
	}
	Note("  (with too many parameter sets)")
	return append(par, map[string]interface{}{}), false, true
}

func (h *sess) badErr(err error, bad bool) {
	if bad {
		Check("C07,C27", err != nil, "an encoding error is reported")
		if !h.n.ioFail && !h.n.undecNow && h.n.srv.fail == "" && !h.bad {
			Check("C27", inner(err) == errBad, "the innermost error is the encoding error")
		}
	}
}

func (h *sess) checkResult(r bolt.Result, text string) {
	Check("C17", r != nil, "a successful execution has a result")
	md := r.Metadata()
	q, _ := md["q"].(string)
	_, sum := md["n"]
	Check("C17", q == text && sum, "an execution result carries the summary of its own query")
	Covered("execution result")
}

func (h *sess) ranAll(k int) {
	Check("C17,C10", h.n.srv.runs == k && h.n.srv.fail == "", "a successful call ran each of its queries once")
}

func (h *sess) connCall() {
	switch Choose(9) {
	case 0: // Close
		h.start("conn.Close")
		was := h.closed
		hadTx := h.tx != nil && !h.tx.dead
		err := h.conn.Close()
		if was {
			Check("C14,C15", err == nil, "closing a closed connection returns nil")
			h.quiet("C15,C14", "closing a closed connection sends nothing")
			return
		}
		h.closed = true
		r := 0
		if hadTx {
			r = 1
		}
		h.noTx(0, 0, r)
		Check("C14", h.n.closed, "closing a connection closes its network connection")
		if !h.bad && !h.n.ioFail && !h.n.undecNow && !h.n.srv.refused {
			Check("C16", !h.n.srv.tx, "a transaction still open is rolled back before the connection is closed")
			if closeFault {
				Check("C14,C27", err != nil, "a failure to close the network connection is reported")
			}
			if h.n.srv.fail == "" && !closeFault {
				Check("C14", err == nil, "closing a healthy connection succeeds")
			}
		}
		h.killAll()
		if closeFault || h.n.ioFail && h.n.srv.fail != "" {
			// several things went wrong: which of them is reported is open
			Check("C11,C14", err != nil || h.n.srv.fail == "" && !h.n.ioFail, "a failure while closing is reported")
			h.n.srv.fail = ""
			h.n.ioFail = false
			h.bad = true
		}
		h.end(err)
		Covered("connection closed")
	case 1: // PrepareNeo
		if h.what&withPlain == 0 {
			Stop()
		}
		h.start("conn.PrepareNeo")
		text := "P" + h.suffix()
		st, err := h.conn.PrepareNeo(text)
		if h.mustRefuse(err) {
			return
		}
		h.quiet("C09", "preparing a statement sends nothing")
		if err != nil {
			Check("C15", h.bad, "a statement can be prepared on a healthy connection without open statement")
			return
		}
		h.newStmt(&stmtH{s: st, text: []string{text}})
		Covered("statement prepared")
	case 2: // PreparePipeline
		if h.what&withPipelines == 0 {
			Stop()
		}
		k := h.pipeSize()
		h.start("conn.PreparePipeline")
		text, _ := h.pipe("R", k)
		st, err := h.conn.PreparePipeline(append([]string(nil), text...)...)
		if h.mustRefuse(err) {
			return
		}
		h.quiet("C09", "preparing a statement sends nothing")
		if err != nil {
			Check("C15", h.bad, "a statement can be prepared on a healthy connection without open statement")
			return
		}
		h.newStmt(&stmtH{p: st, text: text})
		Covered("pipeline prepared")
	case 3: // QueryNeo
		if h.what&withPlain == 0 {
			Stop()
		}
		h.start("conn.QueryNeo")
		text, par, bad := h.query("Q")
		h.expect([]string{text}, []map[string]interface{}{par})
		rows, err := h.conn.QueryNeo(text, par)
		if h.mustRefuse(err) {
			return
		}
		h.attempted(bad)
		h.noTx(0, 0, 0)
		h.badErr(err, bad)
		if err == nil {
			h.ranAll(1)
			h.open = true
			h.newRows(&rowsH{r: rows, text: []string{text}})
			h.checkHead(rows.Metadata(), rows.Columns(), text)
			Covered("rows of a query")
		}
		h.end(err)
	case 4: // QueryNeoAll
		if h.what&withPlain == 0 {
			Stop()
		}
		h.start("conn.QueryNeoAll")
		text, par, bad := h.query("A")
		h.expect([]string{text}, []map[string]interface{}{par})
		data, md, sum, err := h.conn.QueryNeoAll(text, par)
		if h.mustRefuse(err) {
			return
		}
		h.attempted(bad)
		h.noTx(0, 0, 0)
		h.badErr(err, bad)
		if err == nil {
			h.ranAll(1)
			q, _ := md["q"].(string)
			Check("C17", q == text, "the metadata of a query is its own")
			checkAll(data, sum, text, 0)
			Covered("all rows of a query")
		}
		h.end(err)
	case 5: // ExecNeo
		if h.what&withPlain == 0 {
			Stop()
		}
		h.start("conn.ExecNeo")
		text, par, bad := h.query("E")
		h.expect([]string{text}, []map[string]interface{}{par})
		res, err := h.conn.ExecNeo(text, par)
		if h.mustRefuse(err) {
			return
		}
		h.attempted(bad)
		h.noTx(0, 0, 0)
		h.badErr(err, bad)
		if err == nil {
			h.ranAll(1)
			h.checkResult(res, text)
		}
		h.end(err)
	case 6: // QueryPipeline
		if h.what&withPipelines == 0 {
			Stop()
		}
		k := h.pipeSize()
		h.start("conn.QueryPipeline")
		text, par := h.pipe("Q", k)
		par, bad, wrong := h.spoil(par)
		h.expect(text, par)
		rows, err := h.conn.QueryPipeline(append([]string(nil), text...), par...)
		if h.mustRefuse(err) {
			return
		}
		h.noTx(0, 0, 0)
		if h.wrongCount(err, wrong) {
			return
		}
		h.badErr(err, bad)
		if k == 0 {
			if err != nil {
				h.quiet("C09,C17", "an empty pipeline sends nothing")
			} else {
				h.open = true
				h.newRows(&rowsH{p: rows, ended: true})
			}
			h.end(err)
			return
		}
		h.attempted(bad)
		if err == nil {
			h.ranAll(k)
			h.open = true
			h.newRows(&rowsH{p: rows, text: text})
			h.checkHead(rows.Metadata(), rows.Columns(), text[0])
			Covered("rows of a pipeline")
		}
		h.end(err)
	case 7: // ExecPipeline
		if h.what&withPipelines == 0 {
			Stop()
		}
		k := h.pipeSize()
		h.start("conn.ExecPipeline")
		text, par := h.pipe("E", k)
		par, bad, wrong := h.spoil(par)
		h.expect(text, par)
		res, err := h.conn.ExecPipeline(append([]string(nil), text...), par...)
		if h.mustRefuse(err) {
			return
		}
		h.noTx(0, 0, 0)
		if h.wrongCount(err, wrong) {
			return
		}
		if k > 0 {
			h.attempted(bad)
		}
		h.badErr(err, bad)
		if err == nil {
			h.ranAll(k)
			h.checkResults(res, text)
		}
		h.end(err)
	case 8: // Begin
		if h.what&withTx == 0 {
			Stop()
		}
		h.start("conn.Begin")
		tx, err := h.conn.Begin()
		if h.mustRefuse(err) {
			return
		}
		if h.tx != nil && !h.tx.dead && !h.tx.maybe {
			h.refusedNow(err, "while a transaction is open")
			return
		}
		if h.tx != nil && h.tx.maybe && err != nil && h.n.traffic == 0 {
			return
		}
		h.attempted(false)
		h.noTx(1, 0, 0)
		if err == nil {
			Check("C16", h.n.srv.okBegin == 1 && h.n.srv.begins == 1, "a successful Begin means the server accepted BEGIN, sent once")
			h.tx = &txH{t: tx}
			Covered("transaction begun")
		}
		h.end(err)
	}
}

func (h *sess) pipeSize() int {
	if h.maxPipe == 3 {
		return 3
	}
	return Choose(h.maxPipe + 1)
}

func (h *sess) wrongCount(err error, wrong bool) bool {
	if !wrong {
		return false
	}
	Check("C17", err != nil, "a pipeline with a different number of parameter sets than queries is refused")
	h.quiet("C17,C09", "a pipeline with a different number of parameter sets than queries sends nothing")
	h.end(err)
	Covered("wrong number of parameter sets")
	return true
}

func (h *sess) checkResults(res []bolt.Result, text []string) {
	Check("C17", len(res) == len(text), "a pipeline execution has a result per query")
	for i := 0; i < len(res); i++ {
		h.checkResult(res[i], text[i])
	}
}

func (h *sess) checkHead(md map[string]interface{}, cols []string, text string) {
	q, _ := md["q"].(string)
	Check("C17", q == text, "the metadata of a row set is that of its own query")
	Check("C17", len(cols) == 1 && cols[0] == text, "the columns of a row set are those of its own query")
}

func checkRow(row []interface{}, text string, k int) {
	Check("C17", len(row) == 2, "a row has the values of the record")
	q, _ := row[0].(string)
	i, _ := count(row[1])
	Check("C17", q == text && i == k, "a row set delivers the records of its own query, once each and in order")
	Covered("record delivered")
}

func checkSummary(sum map[string]interface{}, text string, k int) {
	q, _ := sum["q"].(string)
	n, ok := count(sum["n"])
	Check("C17", ok && q == text, "the end of a row set comes with the summary of its own query")
	Check("C17", n == k, "a row set ends only after all its records were delivered")
	Covered("summary delivered")
}

func checkAll(data [][]interface{}, sum map[string]interface{}, text string, from int) {
	for i := 0; i < len(data); i++ {
		checkRow(data[i], text, from+i)
	}
	checkSummary(sum, text, from+len(data))
}

func (h *sess) stmtCall(st *stmtH) {
	if st.p != nil {
		h.pipeStmtCall(st)
		return
	}
	switch Choose(3) {
	case 0:
		h.start("stmt.Close")
		err := st.s.Close()
		h.closedStmt(st, err)
	case 1:
		h.start("stmt.ExecNeo")
		text, par, bad := h.query("")
		text = st.text[0]
		h.expect([]string{text}, []map[string]interface{}{par})
		res, err := st.s.ExecNeo(par)
		if h.stmtRefuses(st, err) {
			return
		}
		h.noTx(0, 0, 0)
		h.attempted(bad)
		h.badErr(err, bad)
		if err == nil {
			h.ranAll(1)
			h.checkResult(res, text)
		}
		h.end(err)
	case 2:
		h.start("stmt.QueryNeo")
		text, par, bad := h.query("")
		text = st.text[0]
		h.expect([]string{text}, []map[string]interface{}{par})
		rows, err := st.s.QueryNeo(par)
		if h.stmtRefuses(st, err) {
			return
		}
		h.noTx(0, 0, 0)
		h.attempted(bad)
		h.badErr(err, bad)
		if err == nil {
			h.ranAll(1)
			h.newRows(&rowsH{r: rows, text: st.text, of: st})
			h.checkHead(rows.Metadata(), rows.Columns(), text)
			Covered("rows of a statement")
		}
		h.end(err)
	}
}

// stmtRefuses checks what has to be refused: a closed statement, and one whose rows are still being read.
func (h *sess) stmtRefuses(st *stmtH, err error) bool {
	if st.dead {
		h.refusedNow(err, "on a closed statement")
		return true
	}
	if h.rows != nil && !h.rows.dead && h.rows.of == st {
		if h.rowsOpen() {
			Check("C09,C15", err != nil, "a statement refuses to run while its rows are being read")
		}
		if err != nil && h.n.traffic == 0 && !h.n.ioFail {
			return true
		}
		Check("C09", !h.rowsOpen(), "a statement sends nothing while its rows are being read")
	}
	return false
}

func (h *sess) closedStmt(st *stmtH, err error) {
	h.noTx(0, 0, 0)
	if st.dead {
		Check("C14,C15", err == nil, "closing a closed statement returns nil")
		h.quiet("C15,C14", "closing a closed statement sends nothing")
		return
	}
	h.killStmt()
	if !h.bad && !h.n.ioFail && !h.n.undecNow && h.n.srv.fail == "" {
		Check("C14", err == nil, "closing a statement on a healthy connection succeeds")
	}
	h.end(err)
	Covered("statement closed")
}

func (h *sess) pipeStmtCall(st *stmtH) {
	k := len(st.text)
	switch Choose(3) {
	case 0:
		h.start("pipeline.Close")
		err := st.p.Close()
		h.closedStmt(st, err)
	case 1:
		h.start("pipeline.ExecPipeline")
		_, par := h.pipe("", k)
		par, bad, wrong := h.spoil(par)
		h.expect(st.text, par)
		res, err := st.p.ExecPipeline(par...)
		if h.stmtRefuses(st, err) {
			return
		}
		h.noTx(0, 0, 0)
		if h.wrongCount(err, wrong) {
			return
		}
		if k > 0 {
			h.attempted(bad)
		}
		h.badErr(err, bad)
		if err == nil {
			h.ranAll(k)
			h.checkResults(res, st.text)
		}
		h.end(err)
	case 2:
		h.start("pipeline.QueryPipeline")
		_, par := h.pipe("", k)
		par, bad, wrong := h.spoil(par)
		h.expect(st.text, par)
		rows, err := st.p.QueryPipeline(par...)
		if h.stmtRefuses(st, err) {
			return
		}
		h.noTx(0, 0, 0)
		if h.wrongCount(err, wrong) {
			return
		}
		h.badErr(err, bad)
		if k == 0 {
			if err != nil {
				h.quiet("C09,C17", "an empty pipeline sends nothing")
			} else {
				h.newRows(&rowsH{p: rows, ended: true, of: st})
			}
			h.end(err)
			return
		}
		h.attempted(bad)
		if err == nil {
			h.ranAll(k)
			h.newRows(&rowsH{p: rows, text: st.text, of: st})
			h.checkHead(rows.Metadata(), rows.Columns(), st.text[0])
		}
		h.end(err)
	}
}

func (h *sess) rowsCall(r *rowsH) {
	if r.p != nil {
		h.pipeRowsCall(r)
		return
	}
	switch Choose(3) {
	case 0:
		h.start("rows.Close")
		err := r.r.Close()
		h.closedRows(r, err)
	case 1:
		if r.odd && !r.dead {
			Stop() // whether there is more to read is open
		}
		h.start("rows.NextNeo")
		row, sum, err := r.r.NextNeo()
		if h.rowsRefuse(r, err, row != nil) {
			return
		}
		h.noTx(0, 0, 0)
		switch {
		case err == io.EOF:
			if h.what&withSQL != 0 {
				Check("C17,C25", h.n.srv.running == "" && !h.n.outstanding(), "the end of the rows is reported after the last")
				sum = map[string]interface{}{"q": r.text[0], "n": h.n.srv.total}
			}
			checkSummary(sum, r.text[0], r.got)
			r.ended = true
		case err == nil:
			checkRow(row, r.text[0], r.got)
			r.got++
		default:
			Check("C17,C09", h.bad || h.n.ioFail || h.n.undecNow || h.n.srv.fail != "", "rows are read without error on a healthy connection")
			r.failed, r.odd = !h.n.undecNow, h.n.undecNow
		}
		h.end(errNotEOF(err))
	case 2:
		if r.odd && !r.dead {
			Stop()
		}
		h.start("rows.All")
		data, sum, err := r.r.All()
		if r.ended && !r.dead {
			h.quiet("C15,C09", "reading a finished row set sends nothing")
			Check("C17", len(data) == 0, "a finished row set has no more rows")
			return
		}
		if h.rowsRefuse(r, err, len(data) > 0) {
			return
		}
		h.noTx(0, 0, 0)
		if err == nil {
			checkAll(data, sum, r.text[0], r.got)
			r.ended = true
			r.got = 0
		} else {
			Check("C17,C09", h.bad || h.n.ioFail || h.n.undecNow || h.n.srv.fail != "", "rows are read without error on a healthy connection")
			r.failed, r.odd = !h.n.undecNow, h.n.undecNow
			r.got = 0
		}
		h.end(err)
	}
}

func errNotEOF(err error) error {
	if err == io.EOF {
		return nil
	}
	return err
}

// rowsRefuse checks reading from a closed or finished row set.
func (h *sess) rowsRefuse(r *rowsH, err error, row bool) bool {
	if r.dead {
		Check("C15", err != nil && err != io.EOF || err != nil && r.ended, "reading a closed row set is an error")
		Check("C15,C17", !row, "a closed row set delivers no rows")
		h.quiet("C15", "reading a closed row set sends nothing")
		Covered("closed row set")
		return true
	}
	if r.ended {
		Check("C17", err == io.EOF && !row, "a finished row set keeps reporting the end")
		h.quiet("C09,C17", "reading a finished row set sends nothing")
		Covered("finished row set")
		return true
	}
	if r.failed {
		Check("C17,C10", err != nil && err != io.EOF && !row, "a row set that failed keeps reporting an error")
		h.quiet("C09,C17", "reading a failed row set sends nothing")
		Covered("failed row set")
		return true
	}
	return false
}

func (h *sess) closedRows(r *rowsH, err error) {
	h.noTx(0, 0, 0)
	if r.dead {
		Check("C14,C15", err == nil, "closing a closed row set returns nil")
		h.quiet("C15,C14", "closing a closed row set sends nothing")
		return
	}
	r.dead = true
	cur := h.rows
	if r != cur && r.next == cur && cur != nil {
		cur.dead = true // what was opened from it ends with it
	}
	if r == cur || r.next == cur {
		if r.of == nil {
			h.open = false
		}
	}
	if !h.bad && !h.n.ioFail && !h.n.undecNow && h.n.srv.fail == "" {
		Check("C14", err == nil, "closing a row set on a healthy connection succeeds")
	}
	h.end(err)
	Covered("row set closed")
}

func (h *sess) pipeRowsCall(r *rowsH) {
	switch Choose(2) {
	case 0:
		h.start("pipelineRows.Close")
		err := r.p.Close()
		h.closedRows(r, err)
	case 1:
		if r.odd && !r.dead {
			Stop()
		}
		h.start("pipelineRows.NextPipeline")
		row, sum, next, err := r.p.NextPipeline()
		if r.next != nil && !r.dead {
			Check("C17", err == io.EOF && row == nil && next == nil, "a finished row set keeps reporting the end")
			h.quiet("C09,C17", "reading a finished row set sends nothing")
			return
		}
		if h.rowsRefuse(r, err, row != nil) {
			return
		}
		h.noTx(0, 0, 0)
		switch {
		case err != nil && err != io.EOF:
			Check("C17,C09", h.bad || h.n.ioFail || h.n.undecNow || h.n.srv.fail != "", "rows are read without error on a healthy connection")
			r.failed, r.odd = !h.n.undecNow, h.n.undecNow
			r.got = 0
		case row != nil:
			Check("C17", next == nil, "a record comes without the next row set")
			checkRow(row, r.text[r.idx], r.got)
			r.got++
		default:
			checkSummary(sum, r.text[r.idx], r.got)
			r.ended = true
			r.got = 0
			if r.idx == len(r.text)-1 {
				Check("C17", next == nil, "the last row set of a pipeline is followed by no other")
				Covered("end of a pipeline")
			} else {
				Check("C17", next != nil && err == nil, "a row set of a pipeline is followed by the next one")
				nr := &rowsH{p: next, text: r.text, idx: r.idx + 1, of: r.of}
				r.next = nr
				h.newRows(nr)
				if h.what&withStale != 0 {
					h.keep(nil, r, nil)
				}
				h.checkHead(next.Metadata(), next.Columns(), r.text[nr.idx])
				Covered("next rows of a pipeline")
			}
		}
		h.end(errNotEOF(err))
	}
}

func (h *sess) txCall(t *txH) {
	commit := Choose(2) == 0
	var err error
	s := &h.n.srv
	if commit {
		h.start("tx.Commit")
		err = t.t.Commit()
		h.noTx(0, 1, 0)
	} else {
		h.start("tx.Rollback")
		err = t.t.Rollback()
		h.noTx(0, 0, 1)
	}
	if t.dead {
		h.refusedNow(err, "on a finished transaction")
		Check("C16", err != nil, "a finished transaction can't be committed or rolled back again")
		return
	}
	if t.maybe && h.n.traffic == 0 && err != nil {
		h.killStmt()
		h.end(err)
		return
	}
	sent := s.commits + s.rolls
	if err == nil {
		if commit {
			Check("C16", s.okCommit == 1 && s.commits == 1, "a successful Commit means the server accepted COMMIT, sent once")
			Covered("committed")
		} else {
			Check("C16", s.okRoll == 1 && s.rolls == 1, "a successful Rollback means the server accepted ROLLBACK, sent once")
			Covered("rolled back")
		}
	}
	if !h.bad && !h.n.ioFail && !h.n.undecNow && s.fail == "" {
		Check("C16", err == nil, "an open transaction can be ended on a healthy connection")
	}
	h.killStmt()
	if sent == 0 {
		t.maybe = true // the statement could not be closed: the transaction may still be open
	} else {
		t.dead = true
	}
	h.end(err)
}
