package vmodels

import (
	"database/sql/driver"
	"io"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
)

// A server that answers anything at any time: every call still has to return (C05).

// weirdValue is what the server may send instead of what the driver looks for.
func weirdValue(k int) interface{} {
	switch k {
	case 0:
		return nil
	case 1:
		return "x"
	case 2:
		return int64(1)
	case 3:
		return []interface{}{}
	case 4:
		return []interface{}{nil}
	case 5:
		return []interface{}{"a", int64(2)}
	case 6:
		return map[string]interface{}(nil)
	}
	return map[string]interface{}{"fields": nil, "nodes-created": "x"}
}

func weirdReply() interface{} {
	switch Choose(9) {
	case 0:
		return weirdValue(Choose(4))
	case 1:
		return messages.NewSuccessMessage(nil)
	case 2:
		return messages.NewSuccessMessage(map[string]interface{}{"fields": weirdValue(Choose(8)), "stats": weirdValue(1)})
	case 3:
		return messages.NewSuccessMessage(map[string]interface{}{"fields": []interface{}{"a", "b"}, "stats": map[string]interface{}{pick("nodes-created", "nodes-deleted", "relationships-created", "relationships-deleted"): weirdValue(Choose(8))}})
	case 4:
		return messages.NewRecordMessage(nil)
	case 5:
		return messages.NewRecordMessage([]interface{}{weirdValue(Choose(8)), "y"})
	case 6:
		return messages.NewFailureMessage(nil)
	case 7:
		return messages.NewFailureMessage(map[string]interface{}{"code": weirdValue(Choose(3)), "message": nil})
	}
	return messages.NewIgnoredMessage()
}

var weird bool

func (n *Net) weirdRead(b []byte) (int, error) {
	if n.closed {
		return 0, errIO
	}
	if n.in.Len() == 0 {
		if n.broken {
			return 0, io.EOF
		}
		switch Choose(6) {
		case 0:
			reply(n, messages.NewSuccessMessage(map[string]interface{}{"fields": []interface{}{"a", "b"}}))
		case 1:
			if n.srv.sent > 0 {
				Stop()
			}
			n.srv.sent++
			reply(n, messages.NewRecordMessage([]interface{}{"x", int64(1)}))
		case 2:
			if weirdDone || n.srv.failN > 0 {
				Stop()
			}
			n.srv.failN++
			Note("server: FAILURE")
			reply(n, messages.NewFailureMessage(map[string]interface{}{"code": "x"}))
		case 3:
			if !weirdDone || n.srv.runs > 0 {
				Stop()
			}
			n.srv.runs++
			Note("server: IGNORED")
			reply(n, messages.NewIgnoredMessage())
		case 4:
			if !weirdDone {
				Stop()
			}
			Note("server: nothing more")
			n.broken = true
			return 0, io.EOF
		case 5:
			if weirdDone {
				Stop()
			}
			weirdDone = true
			Note("server: something odd")
			reply(n, weirdReply())
		}
	}
	return n.in.Read(b)
}

var weirdDone bool

type anyone struct {
	conn bolt.Conn
	st   bolt.Stmt
	pst  bolt.PipelineStmt
	rows bolt.Rows
	prs  bolt.PipelineRows
	tx   driver.Tx
	more bool // go on with what there is
}

func (a *anyone) result(r bolt.Result) {
	r.RowsAffected()
	r.LastInsertId()
	r.Metadata()
	Covered("result")
}

func (a *anyone) head(md map[string]interface{}, cols []string) {
	if cols == nil {
		Violate("C05", "the columns of a row set are a list, an empty one perhaps")
	}
	Covered("row set")
}

func (a *anyone) step() {
	k := Choose(12)
	if a.more && k != 7 && k != 9 && k != 10 {
		if k != 3 || weirdDone {
			Stop()
		}
	}
	switch k {
	case 0:
		Note("conn.Close")
		a.conn.Close()
	case 1:
		Note("conn.QueryNeo")
		if r, err := a.conn.QueryNeo("q", nil); err == nil {
			a.rows = r
			a.head(r.Metadata(), r.Columns())
		}
	case 2:
		Note("conn.QueryNeoAll")
		a.conn.QueryNeoAll("q", nil)
	case 3:
		Note("conn.ExecNeo")
		if r, err := a.conn.ExecNeo("q", nil); err == nil {
			a.result(r)
		}
	case 4:
		Note("conn.QueryPipeline")
		if r, err := a.conn.QueryPipeline([]string{"q", "r"}, nil, nil); err == nil {
			a.prs = r
			a.head(r.Metadata(), r.Columns())
		}
	case 5:
		Note("conn.ExecPipeline")
		if l, err := a.conn.ExecPipeline([]string{"q", "r"}, nil, nil); err == nil {
			for _, r := range l {
				a.result(r)
			}
		}
	case 6:
		Note("conn.Begin")
		if t, err := a.conn.Begin(); err == nil {
			a.tx = t
		}
	case 7:
		if a.tx == nil {
			Stop()
		}
		if Choose(2) == 0 {
			Note("tx.Commit")
			a.tx.Commit()
		} else {
			Note("tx.Rollback")
			a.tx.Rollback()
		}
		a.tx = nil
	case 8:
		Note("conn.PrepareNeo")
		if s, err := a.conn.PrepareNeo("q"); err == nil {
			a.st = s
		}
		if a.st == nil {
			Stop()
		}
		switch Choose(3) {
		case 0:
			Note("stmt.Close")
			a.st.Close()
			a.st = nil
		case 1:
			Note("stmt.ExecNeo")
			if r, err := a.st.ExecNeo(nil); err == nil {
				a.result(r)
			}
		case 2:
			Note("stmt.QueryNeo")
			if r, err := a.st.QueryNeo(nil); err == nil {
				a.rows = r
				a.head(r.Metadata(), r.Columns())
			}
		}
	case 9:
		if a.rows == nil {
			Stop()
		}
		switch Choose(4) {
		case 0:
			Note("rows.Close")
			a.rows.Close()
			a.rows = nil
		case 1:
			Note("rows.NextNeo")
			a.rows.NextNeo()
		case 2:
			Note("rows.All")
			a.rows.All()
			a.rows = nil
		case 3:
			Note("rows.Next")
			r, ok := a.rows.(driver.Rows)
			if !ok {
				Stop()
			}
			dest := make([]driver.Value, len(r.Columns()))
			r.Next(dest)
			Covered("row for database/sql")
		}
	case 10:
		if a.prs == nil {
			Stop()
		}
		if Choose(2) == 0 {
			Note("pipelineRows.Close")
			a.prs.Close()
			a.prs = nil
		} else {
			Note("pipelineRows.NextPipeline")
			_, _, next, err := a.prs.NextPipeline()
			if err == nil && next != nil {
				a.prs = next
				a.head(next.Metadata(), next.Columns())
			}
		}
	case 11:
		Note("conn.PreparePipeline, QueryPipeline")
		if s, err := a.conn.PreparePipeline("q", "r"); err == nil {
			if Choose(2) == 0 {
				if r, err := s.QueryPipeline(nil, nil); err == nil {
					a.prs = r
				}
			} else {
				s.ExecPipeline(nil, nil)
			}
			s.Close()
		}
	}
}

// HWeird decides the part of C05 above the decoder.
func HWeird() {
	PanicProps("C05")
	BlockProps("C05")
	world = World{script: noDialFaults | goodHandshake | noCloseFaults | noFaults}
	weird = true
	Note("OpenNeo")
	conn, err := bolt.NewDriver().OpenNeo(stdStr)
	if err != nil {
		Covered("opening failed")
		return
	}
	Covered("opened")
	a := &anyone{conn: conn}
	n := world.nets[0]
	for i := 0; i < 3; i++ {
		a.more = i > 0
		a.step()
		n.startCall()
		n.srv.sent = 0
	}
	Note("conn.Close")
	conn.Close()
}
