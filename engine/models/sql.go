package vmodels

import (
	"database/sql/driver"
	"errors"
	"io"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
)

// ---------- the database/sql surface ----------

// sqlConn and the types below offer the native interfaces on top of the database/sql methods, so that the most
// general client can use those.
type sqlConn struct {
	bolt.Conn
	c driver.Conn
}

type sqlStmt struct{ s driver.Stmt }

type sqlRows struct{ r driver.Rows }

func sqlArgs(par map[string]interface{}) []driver.Value {
	if par == nil {
		return nil
	}
	if len(par) == 2 && Choose(2) == 1 {
		// in two parts
		var l []driver.Value
		for k, v := range par {
			l = append(l, Token(map[string]interface{}{k: v}))
		}
		return l
	}
	return []driver.Value{Token(par)}
}

func sqlResult(r driver.Result, err error) (bolt.Result, error) {
	if err != nil {
		return nil, err
	}
	return r.(bolt.Result), nil
}

func (c *sqlConn) PrepareNeo(q string) (bolt.Stmt, error) {
	s, err := c.c.Prepare(q)
	if err != nil {
		return nil, err
	}
	Check("C25", s.NumInput() == -1, "the number of placeholders is reported as unknown")
	return &sqlStmt{s}, nil
}

func (c *sqlConn) QueryNeo(q string, par map[string]interface{}) (bolt.Rows, error) {
	r, err := c.c.(driver.Queryer).Query(q, sqlArgs(par))
	if err != nil {
		return nil, err
	}
	return &sqlRows{r}, nil
}

func (c *sqlConn) QueryNeoAll(q string, par map[string]interface{}) ([][]interface{}, map[string]interface{}, map[string]interface{}, error) {
	Stop()
	return nil, nil, nil, nil
}

func (c *sqlConn) ExecNeo(q string, par map[string]interface{}) (bolt.Result, error) {
	return sqlResult(c.c.(driver.Execer).Exec(q, sqlArgs(par)))
}

func (c *sqlConn) Begin() (driver.Tx, error) { return c.c.Begin() }
func (c *sqlConn) Close() error              { return c.c.Close() }

func (s *sqlStmt) Close() error { return s.s.Close() }
func (s *sqlStmt) ExecNeo(par map[string]interface{}) (bolt.Result, error) {
	return sqlResult(s.s.Exec(sqlArgs(par)))
}
func (s *sqlStmt) QueryNeo(par map[string]interface{}) (bolt.Rows, error) {
	r, err := s.s.Query(sqlArgs(par))
	if err != nil {
		return nil, err
	}
	return &sqlRows{r}, nil
}

func (r *sqlRows) Close() error      { return r.r.Close() }
func (r *sqlRows) Columns() []string { return r.r.Columns() }
func (r *sqlRows) Metadata() map[string]interface{} {
	if m, ok := r.r.(bolt.Rows); ok {
		return m.Metadata()
	}
	return nil
}
func (r *sqlRows) NextNeo() ([]interface{}, map[string]interface{}, error) {
	dest := make([]driver.Value, 2)
	if err := r.r.Next(dest); err != nil {
		return nil, nil, err
	}
	i, ok := dest[1].(int64)
	Check("C25", ok, "an integer is delivered as int64")
	return []interface{}{dest[0], int(i)}, nil, nil
}
func (r *sqlRows) All() ([][]interface{}, map[string]interface{}, error) {
	Stop()
	return nil, nil, nil
}

// HSqlSession: the most general client, through the database/sql methods.
func HSqlSession() {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	Check("C25", SqlDriver != nil && SqlName == "neo4j-bolt", "a driver is registered with database/sql as neo4j-bolt")
	PanicProps("C13,C05")
	Note("Open")
	c, err := SqlDriver.Open(stdStr)
	Check("C25", err == nil, "a connection can be opened through database/sql")
	s := &sess{conn: &sqlConn{c.(bolt.Conn), c}, n: world.nets[0], maxPipe: 2}
	world.script = noDialFaults | goodHandshake | noResetFail | noCloseFaults
	s.what = withPlain | withTx | withStale | withSQL
	s.loop()
}

// HSqlUndec: one answer, whichever it is, can't be decoded.
func HSqlUndec() {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	PanicProps("C13,C05")
	Note("Open")
	c, err := SqlDriver.Open(stdStr)
	Check("C25", err == nil, "a connection can be opened through database/sql")
	s := &sess{conn: &sqlConn{c.(bolt.Conn), c}, n: world.nets[0], maxPipe: 2}
	world.script = noDialFaults | goodHandshake | noFaults | noCloseFaults | noResetFail
	world.undec = 1
	s.what = withPlain | withTx | withSQL
	s.loop()
}

// ---------- arguments ----------

var errGarbage = errors.New("not the encoding of a value")

type sqlArg struct {
	bytes []byte
	other driver.Value
	par   map[string]interface{}
	bad   bool
}

func anyArg(i int) sqlArg {
	switch Choose(8) {
	case 0:
		m := map[string]interface{}{"k" + digit(i): i}
		return sqlArg{bytes: Token(m), par: m}
	case 1:
		m := map[string]interface{}{"same": SymStr("s", 0, 10), "x" + digit(i): nil}
		return sqlArg{bytes: Token(m), par: m}
	case 2:
		return sqlArg{bytes: Token(map[string]interface{}{})}
	case 3:
		Note("  (an argument that is a marshalled list)")
		return sqlArg{bytes: Token([]interface{}{"k", 1}), bad: true}
	case 4:
		Note("  (an argument that is a marshalled null)")
		return sqlArg{bytes: Token(nil), bad: true}
	case 5:
		Note("  (an argument that is garbage)")
		return sqlArg{bytes: []byte{1, 2, 3}, bad: true}
	case 6:
		Note("  (an empty argument)")
		return sqlArg{bytes: []byte{}, bad: true}
	}
	switch Choose(6) {
	case 0:
		return sqlArg{other: "text", bad: true}
	case 1:
		return sqlArg{other: int64(7), bad: true}
	case 2:
		return sqlArg{other: nil, bad: true}
	case 3:
		return sqlArg{other: 1.5, bad: true}
	case 4:
		return sqlArg{other: true, bad: true}
	}
	return sqlArg{other: string(Token(map[string]interface{}{"k": 1})), bad: true}
}

// HSqlArgs: every kind of argument list for every call that takes one.
func HSqlArgs() {
	PanicProps("C25")
	BlockProps("C25")
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures | oneRecord}
	garbageOK = true
	c, err := SqlDriver.Open(stdStr)
	if err != nil {
		Stop()
	}
	n := world.nets[0]
	n.startCall()
	var args []driver.Value
	bad := false
	par := map[string]interface{}{}
	k := Choose(4)
	for i := 0; i < k; i++ {
		a := anyArg(i)
		if a.bytes != nil {
			args = append(args, a.bytes)
		} else {
			args = append(args, a.other)
		}
		bad = bad || a.bad
		for key, v := range a.par {
			par[key] = v
		}
	}
	n.srv.want, n.srv.params = []string{"q"}, []map[string]interface{}{par}
	var rows driver.Rows
	switch Choose(4) {
	case 0:
		Note("conn.Exec")
		_, err = c.(driver.Execer).Exec("q", args)
	case 1:
		Note("conn.Query")
		rows, err = c.(driver.Queryer).Query("q", args)
	case 2:
		Note("stmt.Exec")
		st, e := c.Prepare("q")
		Check("C25", e == nil, "a statement can be prepared")
		Check("C25", st.NumInput() == -1, "the number of placeholders is reported as unknown")
		_, err = st.Exec(args)
		st.Close()
	case 3:
		Note("stmt.Query")
		st, e := c.Prepare("q")
		Check("C25", e == nil, "a statement can be prepared")
		rows, err = st.Query(args)
	}
	if bad {
		Check("C25", err != nil, "an argument that is not a marshalled map is an error")
		Check("C25", n.traffic == 0, "nothing is sent if an argument is not a marshalled map")
		Covered("refused")
	} else {
		Check("C25", err == nil, "a list of marshalled maps is accepted")
		Check("C25", n.srv.runs == 1, "the query is run once")
		Covered("run")
		if rows != nil {
			rows.Close()
		}
	}
	// the connection stays usable
	n.startCall()
	if bad && rows == nil {
		if _, err := c.Begin(); err != nil {
			Covered("statement still open")
		}
	}
}

var garbageOK bool

// ---------- rows ----------

func anyColumn(name string) (interface{}, bool) {
	switch Choose(13) {
	case 0:
		return nil, false
	case 1:
		return SymInt(name, -1<<62, 1<<62), false
	case 2:
		return SymStr(name, 0, 10), false
	case 3:
		return SymFloat(name), false
	case 4:
		return SymBool(name), false
	case 5:
		return []interface{}{SymStr(name, 0, 10), int64(3), nil}, true
	case 6:
		return map[string]interface{}{name: SymInt(name, 0, 9)}, true
	case 7:
		return graph.Node{NodeIdentity: SymInt(name, 0, 9), Labels: []string{name}, Properties: map[string]interface{}{"p": name}}, true
	case 8:
		return graph.Relationship{RelIdentity: SymInt(name, 0, 9), StartNodeIdentity: 1, EndNodeIdentity: 2, Type: name}, true
	case 9:
		return graph.UnboundRelationship{RelIdentity: SymInt(name, 0, 9), Type: name}, true
	case 10:
		return graph.Path{Nodes: []graph.Node{{NodeIdentity: SymInt(name, 0, 9)}}}, true
	case 11:
		return []interface{}{}, true
	}
	return map[string]interface{}{}, true
}

// HSqlRow: every kind of value in every column.
func HSqlRow() {
	PanicProps("C25,C05")
	BlockProps("C25")
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures | oneRecord}
	garbageOK = true
	c, err := SqlDriver.Open(stdStr)
	if err != nil {
		Stop()
	}
	n := world.nets[0]
	n.startCall()
	cols := Choose(4)
	var row []interface{}
	var marsh []bool
	at := 0
	if cols > 0 {
		at = Choose(cols)
	}
	for i := 0; i < cols; i++ {
		if cols == 3 && i != at {
			// two columns of any kind, or one of three
			row = append(row, "c"+digit(i))
			marsh = append(marsh, false)
			continue
		}
		v, m := anyColumn("v" + digit(i))
		row = append(row, v)
		marsh = append(marsh, m)
	}
	names := []interface{}{"a", "b", "c"}
	world.head = func(q string) map[string]interface{} {
		return map[string]interface{}{"q": q, "fields": names[:cols]}
	}
	world.record = func(i int) []interface{} { return row }
	n.srv.want, n.srv.params = []string{"q"}, []map[string]interface{}{nil}
	var rows driver.Rows
	if Choose(2) == 0 {
		Note("conn.Query")
		rows, err = c.(driver.Queryer).Query("q", nil)
	} else {
		Note("stmt.Query")
		st, _ := c.Prepare("q")
		rows, err = st.Query(nil)
	}
	Check("C25", err == nil, "the query runs")
	cn := rows.Columns()
	Check("C25,C17", len(cn) == cols, "the columns are those of the query")
	for i := 0; i < cols; i++ {
		Check("C25,C17", cn[i] == names[i].(string), "the columns are those of the query")
	}
	d := cols
	if cols > 0 && Choose(4) == 0 {
		Note("  (room for fewer values than the row has)")
		d = cols - 1
	}
	dest := make([]driver.Value, d)
	before := n.srv.sent
	err = rows.Next(dest)
	if err == io.EOF {
		Check("C25,C17", n.srv.running == "" && before == 0, "the end is reported at the end")
		Covered("end")
		return
	}
	if d < cols {
		Check("C25", err != nil, "a row with more values than there is room for is an error")
		Covered("too long")
		return
	}
	Check("C25", err == nil, "a row is delivered")
	for i := 0; i < cols; i++ {
		if !marsh[i] {
			agree("C25", dest[i], row[i], "a plain value is delivered as it is, in its own column")
			Covered("plain value")
			continue
		}
		b, ok := dest[i].([]byte)
		Check("C25", ok, "a list, map or graph value is delivered as bytes")
		v, ok := Untoken(b)
		Check("C25", ok, "a list, map or graph value is delivered in its marshalled form")
		agree("C25", v, row[i], "a list, map or graph value is delivered marshalled, in its own column")
		Covered("marshalled value")
	}
	err = rows.Next(dest)
	Check("C25,C17", err == io.EOF, "the end of the rows is reported")
	Covered("end after a row")
}

// ---------- results ----------

// HResult decides C26.
func HResult() {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures | oneRecord}
	s := openSession(stdStr)
	PanicProps("C26,C05")
	BlockProps("C26")
	n := s.n
	n.startCall()
	md := map[string]interface{}{"q": "q", "n": 0}
	wrong := false
	var total int64
	switch Choose(6) {
	case 0:
		Note("no statistics")
	case 1:
		Note("statistics that are not a map")
		md["stats"] = otherThan(true)
		wrong = true
	case 2:
		Note("unrelated counters only")
		md["stats"] = map[string]interface{}{"properties-set": int64(5), "labels-added": int64(2), "indexes-added": int64(1)}
	default:
		stats := map[string]interface{}{}
		if Choose(2) == 0 {
			stats["properties-set"] = SymInt("properties-set", 0, 1<<40)
			stats["labels-added"] = SymInt("labels-added", 0, 1<<40)
			stats["constraints-added"] = "x"
		}
		for _, k := range []string{"nodes-created", "relationships-created", "nodes-deleted", "relationships-deleted"} {
			switch Choose(3) {
			case 0:
				v := SymInt(k, 0, 1<<40)
				stats[k] = v
				total += v
			case 1:
				if wrong {
					Stop()
				}
				Note("  (" + k + " is not an integer)")
				stats[k] = otherThan(false)
				wrong = true
			}
		}
		md["stats"] = stats
	}
	world.summary = func(q string) map[string]interface{} { return md }
	n.srv.want, n.srv.params = []string{"q"}, []map[string]interface{}{nil}
	var res driver.Result
	var err error
	switch Choose(5) {
	case 0:
		Note("conn.ExecNeo")
		res, err = s.conn.ExecNeo("q", nil)
	case 1:
		Note("stmt.ExecNeo")
		st, _ := s.conn.PrepareNeo("q")
		res, err = st.ExecNeo(nil)
	case 2:
		Note("conn.Exec")
		res, err = s.conn.(driver.Execer).Exec("q", nil)
	case 3:
		Note("conn.ExecPipeline")
		var l []bolt.Result
		l, err = s.conn.ExecPipeline([]string{"q"}, nil)
		if err == nil {
			res = l[0]
		}
	case 4:
		Note("stmt.Exec")
		st, _ := s.conn.(driver.Conn).Prepare("q")
		res, err = st.Exec(nil)
	}
	Check("C26", err == nil && res != nil, "the query is executed whatever its statistics")
	id, err := res.LastInsertId()
	Check("C26", id == -1 && err == nil, "LastInsertId is -1")
	rows, err := res.RowsAffected()
	if wrong {
		Check("C26", err != nil, "statistics of unexpected types are an error")
		Covered("unexpected types")
		return
	}
	Check("C26", err == nil, "the rows affected are known")
	Check("C26", rows == total, "the rows affected are the sum of the four counters")
	Covered("counted")
	rows, err = res.RowsAffected()
	Check("C26", err == nil && rows == total, "asking again gives the same")
}

// otherThan is a value the decoder can deliver that is not an int64 (or not a map).
func otherThan(m bool) interface{} {
	switch Choose(6) {
	case 0:
		return nil
	case 1:
		return "12"
	case 2:
		return 1.5
	case 3:
		return true
	case 4:
		return []interface{}{int64(1)}
	}
	if m {
		return int64(3)
	}
	return map[string]interface{}{"nodes-created": int64(3)}
}
