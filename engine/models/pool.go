package vmodels

import (
	"database/sql/driver"
	"io"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	blog "github.com/johnnadratowski/golang-neo4j-bolt-driver/log"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
)

// The most general client of a pool: any sequence of taking connections, using them, handing them back, and closing
// the pool, with handles that were handed back still around.

type poolH struct {
	conn bolt.Conn
	net  *Net
	bad  bool
	open bool
	rows bolt.Rows
	tx   driver.Tx
}

type poolS struct {
	pool   bolt.ClosableDriverPool
	size   int
	h      []*poolH
	old    *poolH
	closed bool
	stale  bool
}

func HPool1() {
	world = World{}
	cfgTimeout = 60e9
	newPoolS(1, false).loop()
}

func HPool1Stale() {
	world = World{script: goodHandshake | noResetFail | noCloseFaults | oneRecord}
	newPoolS(1, true).loop()
}

// HLogPool: a pool with all logging on.
func HLogPool() {
	world = World{}
	cfgTimeout = 60e9
	blog.SetLevel("trace")
	newPoolS(1, false).loop()
}

// HPoolUndec: one answer, whichever it is, can't be decoded.
func HPoolUndec() {
	world = World{script: goodHandshake | noDialFaults | noFaults | noFailures | noCloseFaults | oneRecord, undec: 1}
	newPoolS(2, false).loop()
}

func HPool2() {
	world = World{script: goodHandshake | noResetFail | oneRecord | noCloseFaults}
	newPoolS(2, false).loop()
}

func HPoolClose2() {
	world = World{script: goodHandshake | noResetFail | oneRecord | noFailures | noFaults}
	newPoolS(2, false).loop()
}

func HPool3() {
	world = World{script: goodHandshake | noResetFail | oneRecord | noFailures | noFaults | noCloseFaults}
	newPoolS(3, false).loop()
}

func newPoolS(size int, stale bool) *poolS {
	PanicProps("C18,C05")
	BlockProps("C18")
	p, err := bolt.NewClosableDriverPool(stdStr, size)
	Check("C18", err == nil, "a pool can be created")
	Check("C18", world.dials == 0, "a new pool has no connections")
	return &poolS{pool: p, size: size, stale: stale}
}

func (p *poolS) loop() {
	for {
		switch Choose(4) {
		case 0:
			p.openPool()
		case 1:
			if len(p.h) == 0 {
				Stop()
			}
			p.use(Choose(len(p.h)))
		case 2:
			if p.old == nil {
				Stop()
			}
			p.useOld(p.old)
		case 3:
			p.closePool()
		}
		p.settle()
	}
}

// settle forgets what can't matter any more.
func (p *poolS) settle() {
	var l []*Net
	for _, n := range world.nets {
		n.startCall()
		n.forget()
		if !n.closed {
			l = append(l, n)
		}
	}
	world.nets = l
	world.dials = 0
	for _, h := range p.h {
		h.net.forget()
	}
	if p.old != nil && p.old.net != nil && p.old.net.closed {
		p.old.net = nil
	}
}

func (p *poolS) start(what string) {
	Note(what)
	for _, n := range world.nets {
		n.startCall()
	}
}

func (p *poolS) inUse(n *Net) bool {
	for _, h := range p.h {
		if h.net == n {
			return true
		}
	}
	return false
}

// count: connections the pool has, in use or idle.
func (p *poolS) checkCount() {
	k := 0
	for _, n := range world.nets {
		if !n.closed {
			k++
		}
	}
	Check("C18", k <= p.size, "a pool of size n has at most n network connections open")
}

func (p *poolS) openPool() {
	p.start("OpenPool")
	free := p.size - len(p.h)
	BlockProps("C18")
	if p.closed {
		BlockProps("C20")
	} else if free == 0 {
		BlockProps("")
	}
	before := len(world.nets)
	reclaimed := p.idleNet()
	world.opening = true
	world.fault = false
	conn, err := p.pool.OpenPool()
	world.opening = false
	BlockProps("C18,C14")
	if p.closed {
		Check("C20", err != nil, "a closed pool hands out no connections")
		Check("C20", world.dials == 0, "a closed pool opens no connections")
		Covered("closed pool")
		return
	}
	Check("C18", free > 0, "a pool hands out at most as many connections as it has slots")
	p.checkCount()
	for i := before; i < len(world.nets); i++ {
		n := world.nets[i]
		if err != nil {
			Check("C19,C13", n.closed, "a connection that can't be opened has its network connection closed")
		}
		Check("C12", world.timeout == cfgTimeout, "dialling is bounded by the configured timeout")
	}
	for i := 0; i < before; i++ {
		if n := world.nets[i]; n.broken && !p.inUse(n) {
			Check("C19", n.closed, "a connection that turned out dead is closed")
		}
	}
	if err != nil {
		Check("C18,C19", world.fault, "taking a connection from the pool fails only if opening one fails")
		Covered("opening failed")
		return
	}
	n := NetOf(conn)
	Check("C19", n != nil, "a connection from the pool is connected")
	if n.idle {
		n.look()
		Check("C29", !n.dead, "an idle connection that the server has closed is not handed out")
	}
	Check("C18,C19", !p.inUse(n), "no network connection is handed out twice")
	Check("C19", !n.closed && !n.broken, "a connection from the pool is not broken")
	Check("C19", n.hsDone && n.srv.version && n.srv.accepted, "a connection from the pool is initialised")
	Check("C19", !n.outstanding() && n.srv.state == srvReady, "a connection from the pool has no unread responses")
	Check("C19,C16", !n.srv.tx, "a connection from the pool has no open transaction")
	if reclaimed != nil && n == reclaimed {
		Covered("connection reused")
	}
	n.idle = false
	n.looked = false
	if n.dead {
		Stop()
	}
	if before < len(world.nets) {
		for i := 0; i < before; i++ {
			if world.nets[i].dead {
				Covered("dead idle connection replaced")
			}
		}
	}
	p.h = append(p.h, &poolH{conn: conn, net: n})
	// it can be used at once: no statement, no transaction, not marked bad
	script := world.script
	world.script |= noFaults | noFailures
	undec := world.undec
	world.undec = 0
	p.start("  (using it)")
	n.srv.want = []string{"T"}
	n.srv.params = []map[string]interface{}{{}}
	PanicProps("C19,C05")
	_, e1 := conn.ExecNeo("T", nil)
	Check("C19", e1 == nil && n.traffic > 0, "a connection from the pool can be used")
	world.script = script
	world.undec = undec
	Covered("connection taken from the pool")
}

func (p *poolS) idleNet() *Net {
	for _, n := range world.nets {
		if n.idle && !n.closed {
			return n
		}
	}
	return nil
}

func (p *poolS) use(i int) {
	h := p.h[i]
	PanicProps("C05,C18,C19,C20")
	switch Choose(4) {
	case 0:
		p.handBack(i)
	case 1:
		p.start("conn.ExecNeo")
		p.want(h, "E")
		_, err := h.conn.ExecNeo("E", nil)
		p.after(h, err)
	case 2:
		if h.open {
			Stop()
		}
		p.start("conn.QueryNeo")
		p.want(h, "Q")
		rows, err := h.conn.QueryNeo("Q", nil)
		p.after(h, err)
		if err == nil {
			h.open = true
			if p.stale {
				h.rows = rows
			}
		}
	case 3:
		if h.tx != nil || h.open {
			Stop()
		}
		p.start("conn.Begin")
		tx, err := h.conn.Begin()
		p.after(h, err)
		if err == nil {
			h.tx = tx
		}
	}
}

func (p *poolS) want(h *poolH, text string) {
	h.net.srv.want = []string{text}
	h.net.srv.params = []map[string]interface{}{{}}
}

func (p *poolS) after(h *poolH, err error) {
	if h.net.ioFail || h.net.srv.refused || h.net.undecNow {
		h.bad = true
		Check("C11,C10", err != nil, "a failure is reported")
	}
	if p.closed {
		Check("C20", err != nil && h.net.traffic == 0, "the connections of a closed pool can't be used any more")
	}
	if h.net.closed && !p.closed {
		// closed by the driver, because the session was lost: its slot is free again
		p.drop(h)
	}
}

func (p *poolS) drop(h *poolH) {
	var l []*poolH
	for _, x := range p.h {
		if x != h {
			l = append(l, x)
		}
	}
	p.h = l
	if p.stale && p.old == nil {
		p.old = h
	}
}

func (p *poolS) handBack(i int) {
	h := p.h[i]
	n := h.net
	p.start("conn.Close")
	BlockProps("C18,C14,C21")
	err := h.conn.Close()
	p.drop(h)
	if n.ioFail || n.srv.refused || n.undecNow {
		h.bad = true
	}
	if n.ioFail || n.undecNow {
		Check("C11,C14", err != nil, "a failure while closing is reported")
	}
	if p.closed {
		Check("C20,C14", n.closed, "the connections of a closed pool are closed")
		return
	}
	if h.bad || err != nil {
		Check("C19,C14", n.closed, "the network connection of a bad connection is closed when it is handed back")
		Covered("bad connection handed back")
	} else {
		Check("C14,C18", !n.closed, "a good connection is kept when it is handed back")
		Check("C19,C09", !n.outstanding() && n.srv.state == srvReady, "a connection is handed back without unread answers")
		Check("C19,C16", !n.srv.tx, "a transaction still open is rolled back before the connection is handed back")
		Covered("connection handed back")
	}
	n.idle = true
	p.checkCount()
}

// useOld: a handle that was handed back reaches nothing any more.
func (p *poolS) useOld(h *poolH) {
	var err error
	PanicProps("C15,C18,C19")
	switch Choose(5) {
	case 0:
		p.start("conn.Close, again")
		err = h.conn.Close()
		Check("C14,C18", err == nil, "handing back a second time does nothing")
		p.checkCount()
		Covered("handed back twice")
	case 1:
		p.start("conn.ExecNeo on a connection handed back")
		_, err = h.conn.ExecNeo("E", nil)
		Check("C15,C19", err != nil, "a connection that was handed back can't be used")
		Covered("used after handing back")
	case 2:
		p.start("conn.Begin on a connection handed back")
		_, err = h.conn.Begin()
		Check("C15,C19", err != nil, "a connection that was handed back can't be used")
	case 3:
		if h.rows == nil {
			Stop()
		}
		if Choose(2) == 0 {
			p.start("rows.Close after the connection was handed back")
			h.rows.Close()
		} else {
			p.start("rows.NextNeo after the connection was handed back")
			_, _, err = h.rows.NextNeo()
			Check("C15,C19", err != nil && err != io.EOF, "rows can't be read after their connection was handed back")
			Covered("rows used after handing back")
		}
	case 4:
		if h.tx == nil {
			Stop()
		}
		if Choose(2) == 0 {
			p.start("tx.Commit after the connection was handed back")
			err = h.tx.Commit()
		} else {
			p.start("tx.Rollback after the connection was handed back")
			err = h.tx.Rollback()
		}
		Check("C15,C16,C19", err != nil, "a transaction is over when its connection was handed back")
		Covered("transaction used after handing back")
	}
	for _, n := range world.nets {
		Check("C15,C19", n.traffic == 0 && !n.ioFail, "a connection that was handed back sends nothing")
	}
}

func (p *poolS) closePool() {
	if p.closed {
		Stop()
	}
	p.start("pool.Close")
	BlockProps("C20,C21")
	PanicProps("C20,C05")
	closeFault = false
	err := p.pool.Close()
	p.closed = true
	for _, n := range world.nets {
		if n.broken {
			continue
		}
		if p.inUse(n) {
			Check("C20", n.closed, "closing the pool closes the connections in use")
		} else {
			Check("C20", n.closed, "closing the pool closes the idle connections")
		}
	}
	for _, n := range world.nets {
		Check("C20", n.closed, "closing the pool closes every connection")
	}
	if closeFault {
		Check("C20", err != nil, "closing the pool reports that a connection could not be closed")
		Covered("closing a connection failed")
	}
	Covered("pool closed")
}

// HLocks is a smaller client of drivers and pools, for the lock discipline.
func HLocks() {
	PanicProps("C21")
	BlockProps("C21")
	anyQuery = true
	world = World{script: goodHandshake | noResetFail | oneRecord}
	switch Choose(3) {
	case 0:
		d := bolt.NewDriver()
		Mark(d, "driver")
		for {
			Phase("opening")
			conn, err := d.OpenNeo(stdStr)
			Check("C21", !Held(), "every lock is released at the end of a call")
			if err == nil {
				conn.ExecNeo("E", nil)
				conn.Close()
				Covered("opened with OpenNeo")
			}
			Phase("opening")
			world = World{script: goodHandshake | noResetFail | oneRecord}
			c2, err := d.Open(stdStr)
			Check("C21", !Held(), "every lock is released at the end of a call")
			if err == nil {
				c2.Close()
				Covered("opened with Open")
			}
			world = World{script: goodHandshake | noResetFail | oneRecord}
		}
	case 1:
		d, err := bolt.NewDriverPool(stdStr, 1)
		if err != nil {
			Stop()
		}
		Mark(d, "pool")
		lockClient(d, nil, 1)
	case 2:
		d, err := bolt.NewClosableDriverPool(stdStr, 2)
		if err != nil {
			Stop()
		}
		Mark(d, "pool")
		lockClient(d, d, 2)
	}
}

func lockClient(d bolt.DriverPool, c bolt.ClosableDriverPool, n int) {
	var conns []bolt.Conn
	for {
		switch Choose(5) {
		case 0:
			if len(conns) == n {
				Stop()
			}
			Note("OpenPool")
			Phase("opening")
			conn, err := d.OpenPool()
			if err == nil {
				conns = append(conns, conn)
				Covered("taken from the pool")
			} else {
				Covered("OpenPool failed")
			}
		case 1:
			if len(conns) == 0 {
				Stop()
			}
			Note("conn.Close")
			Phase("handing back")
			conn := conns[0]
			conns = conns[1:]
			conn.Close()
			Covered("handed back")
		case 2:
			if len(conns) == 0 {
				Stop()
			}
			Note("conn.ExecNeo")
			Phase("using")
			conns[0].ExecNeo("E", nil)
		case 3:
			if len(conns) == 0 {
				Stop()
			}
			Note("conn.Begin")
			Phase("using")
			conns[0].Begin()
		case 4:
			if c == nil {
				Stop()
			}
			Note("pool.Close")
			Phase("closing")
			c.Close()
			conns = nil
			Covered("pool closed")
		}
		Check("C21", !Held(), "every lock is released at the end of a call")
		Phase("")
		var l []*Net
		for _, x := range world.nets {
			x.startCall()
			x.forget()
			if !x.closed {
				l = append(l, x)
			}
		}
		world.nets = l
		world.dials = 0
	}
}

// Other is what another goroutine does while the call under analysis is on its way: its whole call can run at any
// point of it.
var Other func()

// raceOp is a call a goroutine makes, and what came of it.
type raceOp struct {
	kind int
	h    *poolH // handed back
	conn bolt.Conn
	err  error
	done bool
}

const (
	raceOpen = iota
	raceBack
	raceClose
)

func (p *poolS) race(o *raceOp) {
	switch o.kind {
	case raceOpen:
		o.conn, o.err = p.pool.OpenPool()
	case raceBack:
		o.h.net.idle = true // as soon as the other one can get it
		o.err = o.h.conn.Close()
	case raceClose:
		o.err = p.pool.Close()
	}
	o.done = true
}

func raceName(k int) string {
	switch k {
	case raceOpen:
		return "OpenPool"
	case raceBack:
		return "conn.Close"
	}
	return "pool.Close"
}

// HPoolRace decides C18, C19 and C20 for two goroutines that use a pool at the same time.
func HPoolRace() {
	world = World{script: noFaults | goodHandshake | noCloseFaults | noFailures}
	p := newPoolS(2, false)
	PanicProps("C05,C18,C19,C20,C21")
	// what the pool looks like before
	used, idle := 0, 0
	switch Choose(6) {
	case 1:
		used = 1
	case 2:
		idle = 1
	case 3:
		used, idle = 1, 1
	case 4:
		used = 2
	case 5:
		idle = 2
	}
	world.script |= noDialFaults
	for i := 0; i < used+idle; i++ {
		p.openPool()
		p.settle()
	}
	for i := 0; i < idle; i++ {
		p.handBack(0)
		p.settle()
	}
	world.script &^= noDialFaults
	NoteI("connections in use", used)
	NoteI("connections idle", idle)
	a := &raceOp{kind: Choose(3)}
	b := &raceOp{kind: Choose(3)}
	k := used
	for _, o := range []*raceOp{a, b} {
		if o.kind == raceBack {
			if k == 0 {
				Stop()
			}
			k--
			o.h = p.h[k]
		}
	}
	closes := a.kind == raceClose || b.kind == raceClose
	if closes && (a.kind == raceBack || b.kind == raceBack) {
		Stop() // pool.Close uses the connections that are in use: that is for the caller to arrange
	}
	Note("one goroutine: " + raceName(a.kind))
	Note("another: " + raceName(b.kind))
	for _, n := range world.nets {
		n.startCall()
	}
	world.opening = true
	world.fault = false
	BlockProps("") // for the other one
	Other = func() {
		Other = nil
		Note("  (the other one runs here)")
		p.race(b)
	}
	p.race(a)
	if !b.done {
		Stop() // one after the other: HPool2
	}
	world.opening = false
	Check("C21", !Held(), "every lock is released at the end of a call")
	if closes {
		for _, n := range world.nets {
			Check("C20", n.closed, "closing the pool closes every connection, also one that is being opened")
		}
		BlockProps("C20")
		_, err := p.pool.OpenPool()
		Check("C20", err != nil, "a closed pool hands out no connections")
		Covered("closing while another opens")
		return
	}
	for _, o := range []*raceOp{a, b} {
		switch o.kind {
		case raceOpen:
			if o.err != nil {
				Check("C18,C19", world.fault, "taking a connection from the pool fails only if opening one fails")
				continue
			}
			n := NetOf(o.conn)
			Check("C19", n != nil, "a connection from the pool is connected")
			for _, h := range p.h {
				Check("C18,C19", h.net != n || a.h == h || b.h == h, "no network connection is handed out twice")
			}
		case raceBack:
			Check("C18,C14", o.err == nil, "a good connection can be handed back")
			p.drop(o.h)
		}
	}
	if a.conn != nil && b.conn != nil {
		Check("C18,C19", a.conn != b.conn && NetOf(a.conn) != NetOf(b.conn), "two goroutines are handed two connections")
		Covered("two connections taken at the same time")
	}
	world.script |= noDialFaults
	for _, o := range []*raceOp{a, b} {
		if o.kind == raceOpen && o.err == nil {
			n := NetOf(o.conn)
			n.idle = false
			n.looked = false
			p.h = append(p.h, &poolH{conn: o.conn, net: n})
			n.startCall()
			n.srv.want = []string{"T"}
			n.srv.params = []map[string]interface{}{{}}
			_, err := o.conn.ExecNeo("T", nil)
			Check("C19", err == nil, "a connection from the pool can be used")
		}
	}
	p.checkCount()
	Check("C18", len(p.h) <= p.size, "a pool hands out at most as many connections as it has slots")
	// the other slots are still there
	for len(p.h) < p.size {
		p.settle()
		p.openPool()
	}
	for len(p.h) > 0 {
		p.settle()
		p.handBack(0)
	}
	p.settle()
	p.closePool()
	Covered("used by two goroutines")
}

// HLocksCodec decides C21 for encoders and decoders: two of them share nothing they write to.
func HLocksCodec() {
	PanicProps("C21,C05")
	BlockProps("C21")
	var v interface{}
	switch k := Choose(12); k {
	case 7:
		v = []interface{}{true, int8(1), uint8(200), 70000, int64(1) << 40, 1.5, float32(2), "", nil}
	case 8:
		v = struct{}{}
	case 9:
		v = messages.NewRunMessage("Q", kv(pair{"p", 1}))
	case 10:
		v = messages.NewInitMessage("client", "user", "secret")
	case 11:
		v = []interface{}{[]bool{true}, []float64{1}, []uint16{3}, map[string]interface{}{"x": struct{}{}}}
	default:
		v = aValue(k, 5, "some text", false)
	}
	Phase("using")
	switch Choose(4) {
	case 0:
		b, err := encoding.Marshal(v)
		if err != nil {
			Stop()
		}
		encoding.Unmarshal(b)
		Covered("marshalled and unmarshalled")
	case 1:
		enc := encoding.NewEncoder(&sink{}, []uint16{65535, 3, 0}[Choose(3)])
		enc.Encode(v)
		Covered("encoded")
	case 2:
		b := []byte{0, 3, 0x91, 0x81, 'x', 0, 0}
		b[2+Choose(2)] = byte([]int{0x92, 0xC0, 0xC4, 0xB1, 0xA1, 0xDF}[Choose(6)])
		encoding.NewDecoder(&source{data: b}).Decode()
		Covered("decoded")
	default:
		b, err := encoding.Marshal(v)
		if err != nil {
			Stop()
		}
		dec := encoding.NewDecoder(&source{data: b[:len(b)-Choose(2)]})
		dec.Decode()
		Covered("decoded")
	}
	Check("C21", !Held(), "every lock is released at the end of a call")
}

// HLocksWire decides C21 for what connections of one driver do with the real codec.
func HLocksWire() {
	PanicProps("C21,C05")
	BlockProps("")
	anyQuery = true
	world = World{script: noDialFaults | goodHandshake | noCloseFaults}
	world.count = func(q string) int { return 1 }
	wire.on = true
	wire.chunk = 65535
	d := bolt.NewDriver()
	Mark(d, "driver")
	Phase("opening")
	if Choose(2) == 0 {
		c, err := d.Open(stdStr)
		if err != nil {
			Stop()
		}
		b, err := encoding.Marshal(wirePar("Q"))
		if err != nil {
			Stop()
		}
		rows, err := c.(driver.Queryer).Query("Q", []driver.Value{b})
		if err == nil {
			rows.Columns()
			dest := make([]driver.Value, 2)
			rows.Next(dest)
			rows.Close()
			Covered("queried")
		}
		c.Close()
		Stop()
	}
	c, err := d.OpenNeo(stdStr)
	if err != nil {
		Stop()
	}
	switch Choose(4) {
	case 0:
		c.QueryNeoAll("Q", wirePar("Q"))
	case 1:
		if res, err := c.ExecNeo("E", nil); err == nil {
			res.RowsAffected()
			Covered("executed")
		}
	case 2:
		c.ExecPipeline([]string{"A", "B"}, nil, nil)
	default:
		rows, err := c.QueryPipeline([]string{"A", "B"}, nil, wirePar("B"))
		if err == nil {
			rows.NextPipeline()
			rows.Close()
			Covered("piped")
		}
	}
	c.Close()
	Check("C21", !Held(), "every lock is released at the end of a call")
}

// HPoolSettings decides C33: what the users of pooled connections set does not outlast them.
func HPoolSettings() {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	world.count = func(q string) int { return 1 }
	wire.on = true
	wire.chunk = 65535
	str := stdStr
	if Choose(2) == 0 {
		cfgTimeout = 7 * time.Second
		str += "?timeout=7"
	}
	// how a connection of its own sends the query
	h := openSession(str)
	PanicProps("C33,C05")
	BlockProps("C33")
	h.ask("Q")
	want := wire.sizes
	Check("C14", h.conn.Close() == nil, "closing a healthy connection succeeds")

	timeoutProps = "C12,C33"
	var d bolt.DriverPool
	var err error
	if Choose(2) == 0 {
		d, err = bolt.NewDriverPool(str, 1+Choose(2))
	} else {
		d, err = bolt.NewClosableDriverPool(str, 1+Choose(2))
	}
	if err != nil {
		Stop()
	}
	for round := 0; round < 3; round++ {
		world.opening = true
		world.dials = 0
		conn, err := d.OpenPool()
		Check("C18", err == nil, "a connection can be taken from the pool")
		world.opening = false
		h := &sess{conn: conn, n: NetOf(conn), maxPipe: 2}
		Check("C19", h.n != nil && !h.n.closed && !h.n.broken, "a connection from the pool is not broken")
		h.n.idle, h.n.looked = false, false
		h.ask("Q")
		Check("C33", sameInts(wire.sizes, want), "a connection from the pool sends with its own chunk size, whatever its last user set")
		Covered("connection from the pool used")
		if Choose(2) == 0 {
			Note("SetTimeout")
			t := time.Duration(SymInt("timeout", 1, 1<<40))
			conn.SetTimeout(t)
			h.n.timeout = t
		}
		if Choose(2) == 0 {
			Note("SetChunkSize")
			conn.SetChunkSize(24)
			wire.chunk = 24
		}
		h.ask("Q")
		if Choose(2) == 0 {
			Note("the server closes the connection")
			h.n.dead = true
			_, _, _, err := conn.QueryNeoAll("E", h.one("E"))
			Check("C11", err != nil, "a connection the server closed gives an error")
		}
		Note("Close")
		conn.Close()
		h.n.idle = !h.n.closed
		wire.chunk = 65535
		h.n.timeout = cfgTimeout
		h.n.startCall()
	}
	Covered("settings changed")
}

func (h *sess) ask(q string) {
	p := h.one(q)
	wire.sizes = nil
	data, _, sum, err := h.conn.QueryNeoAll(q, p)
	Check("C17", err == nil && len(data) == 1, "all records are delivered")
	checkAll(data, sum, q, 0)
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
