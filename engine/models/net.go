package vmodels

import (
	"bytes"
	"errors"
	"io"
	"net"
	"os"
	"time"

	berrors "github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
)

// What may happen (world.script).
const (
	noDialFaults  = 1 << iota // dialling succeeds
	noFaults                  // no I/O errors
	goodHandshake             // the server accepts handshake and INIT
	noCloseFaults             // closing the socket succeeds
	noFailures                // the server reports no failures
	noResetFail               // ACK_FAILURE is accepted
	oneRecord                 // at most one record per result
)

func may(what int) bool { return world.script&what == 0 }

// Net is a network connection with a server at the other end: an automaton that checks what the driver does.
type Net struct {
	closed   bool
	closeTry int
	broken   bool // an operation failed
	tls      bool
	rdl, wdl time.Time
	timeout  time.Duration
	in       bytes.Buffer // answers on their way to the driver
	hs       int          // handshake bytes written
	hsDone   bool
	srv      Server
	ioFail   bool // during the current call
	traffic  int  // messages during the current call
	pooled   bool
	idle     bool   // in the pool
	looked   bool   // it is settled whether the server has closed it while it was idle
	dead     bool   // it has
	out      []byte // bytes of a message that is not complete yet
	undec    bool   // an answer could not be decoded
	undecNow bool   // during the current call
	lost     bool   // answers were left behind after that
	whole    bool   // the connection broke just after the last answer
}

// look settles whether the server has closed an idle connection.
func (n *Net) look() {
	if n.looked {
		return
	}
	n.looked = true
	if may(noFaults) && Choose(2) == 1 {
		Note("the server has closed the idle connection")
		n.dead = true
	}
}

// netTimeout is the error of reads whose deadline has passed.
type netTimeout struct{}

func (netTimeout) Error() string   { return "i/o timeout" }
func (netTimeout) Timeout() bool   { return true }
func (netTimeout) Temporary() bool { return true }
func (netTimeout) Is(e error) bool { return e == os.ErrDeadlineExceeded }

// probe is a read from a connection in the pool, on which nothing is outstanding.
func (n *Net) probe() (int, error) {
	if IsNowPlus(n.rdl, 0) {
		return 0, netTimeout{} // the connection is not even looked at
	}
	Check("C12", IsNowUpTo(n.rdl, n.timeout), "a read from an idle network connection is bounded by the configured timeout")
	Tick()
	n.look()
	if n.dead {
		n.broken = true
		return 0, io.EOF
	}
	return 0, netTimeout{}
}

func newNet() *Net { return &Net{timeout: cfgTimeout} }

// cfgTimeout is the timeout configured for new connections.
var cfgTimeout = 60 * time.Second

// timeoutProps is what is broken when another timeout is used.
var timeoutProps = "C12"

var errIO = errors.New("i/o error")

func (n *Net) LocalAddr() net.Addr  { return nil }
func (n *Net) RemoteAddr() net.Addr { return nil }

func (n *Net) SetDeadline(t time.Time) error {
	n.rdl, n.wdl = t, t
	return n.dlFault()
}
func (n *Net) SetReadDeadline(t time.Time) error {
	n.rdl = t
	return n.dlFault()
}
func (n *Net) SetWriteDeadline(t time.Time) error {
	n.wdl = t
	return n.dlFault()
}

func (n *Net) dlFault() error {
	if n.closed {
		return errIO
	}
	if may(noFaults) && Choose(2) == 1 {
		Note("setting the deadline fails")
		n.broken = true
		n.ioFail = true
		world.fault = true
		return errIO
	}
	return nil
}

func (n *Net) ioTimed(dl time.Time, what string) {
	Check(timeoutProps, IsNowPlus(dl, n.timeout), what+" is bounded by the configured timeout")
	Tick()
}

// use is called before every read and write that can block.
func (n *Net) use(what string) {
	Check("C15,C14,C19", !n.closed, what+" on a network connection that is closed")
	Check("C15,C19", !n.idle || world.opening, what+" on a network connection that is back in the pool")
	Check("C09,C11,C12,C17", !n.broken, what+" on a network connection that failed")
	Check("C09", !n.lost, what+" on a connection whose answers can't be told apart any more")
}

func (n *Net) Read(b []byte) (int, error) {
	if len(b) == 0 {
		if n.closed {
			return 0, errIO
		}
		return 0, nil // whatever the state of the connection
	}
	if weird && n.hsDone && n.srv.state != srvVersion {
		return n.weirdRead(b)
	}
	n.use("a read")
	if n.idle && n.in.Len() == 0 && !n.outstanding() {
		return n.probe()
	}
	n.ioTimed(n.rdl, "a read from the network")
	if n.dead && wire.on {
		n.broken = true
		n.ioFail = true
		world.fault = true
		return 0, io.EOF
	}
	if may(noFaults) && Choose(2) == 1 {
		n.broken = true
		n.ioFail = true
		world.fault = true
		switch Choose(3) {
		case 0:
			Note("reading fails: end of stream")
			return 0, io.EOF
		case 1:
			Note("reading fails: the deadline passes")
			return 0, netTimeout{}
		}
		Note("reading fails")
		return 0, errIO
	}
	if n.in.Len() == 0 {
		n.answer()
	}
	if wire.on && wire.read > 0 && len(b) > wire.read {
		b = b[:wire.read]
	}
	if wire.ends {
		return n.lastRead(b)
	}
	return n.in.Read(b)
}

// lastRead is a read from a connection that ends after wire.left more bytes.
func (n *Net) lastRead(b []byte) (int, error) {
	m := 0
	if wire.left > 0 {
		if len(b) > wire.left {
			b = b[:wire.left]
		}
		m, _ = n.in.Read(b)
		wire.left -= m
		if wire.left > 0 || !wire.with {
			return m, nil
		}
	}
	Note("the connection ends")
	n.broken = true
	n.ioFail = true
	n.whole = m > 0 && n.in.Len() == 0
	world.fault = true
	return m, io.EOF
}

func (n *Net) Write(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if weird && n.hsDone {
		if n.closed {
			return 0, errIO
		}
		return len(b), nil
	}
	n.use("a write")
	n.ioTimed(n.wdl, "a write to the network")
	if may(noFaults) && Choose(2) == 1 {
		n.broken = true
		n.ioFail = true
		world.fault = true
		if Choose(2) == 1 {
			Note("writing fails")
			return 0, errIO
		}
		Note("writing fails half-way: the deadline passes")
		return len(b) - 1, netTimeout{}
	}
	n.traffic++
	if !n.hsDone {
		n.handshake(b)
		return len(b), nil
	}
	if wire.on {
		n.wireWrite(b)
		return len(b), nil
	}
	m, ok := Untoken(b)
	if !ok {
		Violate("C07,C09", "something other than a whole message is written to the network")
	}
	n.srv.request(n, m)
	return len(b), nil
}

func (n *Net) Close() error {
	n.closeTry++
	if n.closeTry > 1 {
		n.closeTry = 2
	}
	if n.closed {
		return errIO
	}
	n.closed = true
	if may(noCloseFaults) && Choose(2) == 1 {
		Note("closing the network connection reports an error")
		closeFault = true
		return errIO
	}
	return nil
}

var closeFault bool

var wantHandshake = []byte{0x60, 0x60, 0xb0, 0x17, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}

func (n *Net) handshake(b []byte) {
	if n.hs+len(b) > len(wantHandshake) {
		Violate("C13", "the handshake is longer than the protocol's")
	}
	for i := 0; i < len(b); i++ {
		Check("C13", b[i] == wantHandshake[n.hs+i], "the handshake is the protocol's magic bytes and the version offered")
	}
	n.hs += len(b)
	if n.hs == len(wantHandshake) {
		n.hsDone = true
		n.srv.state = srvVersion
	}
}

// ---------- the server ----------

const (
	srvNew     = iota
	srvVersion // has to answer the handshake
	srvInit    // expects INIT
	srvReady
	srvStreaming
	srvFailed
	srvDefunct
)

const (
	qInit = iota
	qRun
	qPull
	qDiscard
	qAck
	qReset
)

type request struct {
	kind int
	text string
}

// Server follows the protocol: requests are answered in order, each as the state at that point demands.
type Server struct {
	state    int
	queue    []request
	running  string // the query whose result is streaming
	sent     int    // records sent for it
	tx       bool   // a transaction is open
	accepted bool   // INIT was
	version  bool   // the handshake was accepted
	resetSt  int    // 1: the acknowledgement was refused, 2: reset sent
	// what happened during the current call
	fail     string // first failure reported
	failN    int
	refused  bool // the reset was refused
	begins   int
	commits  int
	rolls    int
	okBegin  int
	okCommit int
	okRoll   int
	runs     int
	total    int      // records of the result that ended
	want     []string // the queries the call is expected to run, in order
	params   []map[string]interface{}
}

// startCall begins a new API call.
func (n *Net) startCall() {
	n.ioFail = false
	n.traffic = 0
	n.undecNow = false
	s := &n.srv
	s.fail = ""
	s.failN = 0
	s.refused = false
	s.begins, s.commits, s.rolls = 0, 0, 0
	s.okBegin, s.okCommit, s.okRoll = 0, 0, 0
	s.runs = 0
	s.total = 0
	s.want = nil
	s.params = nil
	closeFault = false
}

// forget drops what can't be observed any more.
func (n *Net) forget() {
	if n.broken || n.closed || n.lost {
		n.srv = Server{}
		n.in.Reset()
		n.rdl, n.wdl = time.Time{}, time.Time{}
	}
}

// outstanding tells whether there are answers the driver has not read.
func (n *Net) outstanding() bool { return n.in.Len() > 0 || len(n.srv.queue) > 0 }

func (s *Server) request(n *Net, m interface{}) {
	st, ok := m.(structures.Structure)
	if !ok {
		Violate("C04,C09", "something that is not a message is sent")
	}
	if OnRequest != nil {
		OnRequest(st)
	}
	r := request{}
	switch st.Signature() {
	case 0x01:
		r.kind = qInit
		Check("C09,C13", s.state == srvInit && len(s.queue) == 0, "INIT is sent once, after the handshake")
		s.checkInit(st)
	case 0x10:
		r.kind = qRun
		f := st.AllFields()
		text, ok := f[0].(string)
		Check("C17,C04", ok && len(f) == 2, "RUN carries the query text and its parameters")
		r.text = text
		par, _ := f[1].(map[string]interface{})
		s.checkRun(text, par)
	case 0x3F:
		r.kind = qPull
	case 0x2F:
		r.kind = qDiscard
	case 0x0E:
		r.kind = qAck
		Check("C10,C09", s.state == srvFailed && s.resetSt == 0, "ACK_FAILURE is sent once, and only after a failure")
		s.resetSt = 3
	case 0x0F:
		r.kind = qReset
		Check("C10,C09", s.state == srvFailed && s.resetSt == 1, "RESET is sent only when the acknowledgement was refused")
		s.resetSt = 2
	default:
		Violate("C04,C09", "a request the protocol does not have is sent")
	}
	if r.kind <= qDiscard {
		Check("C10,C09", s.state != srvFailed, "a failure is acknowledged before anything else is sent")
		if r.kind != qInit {
			Check("C13,C09", s.accepted, "a request is sent only after INIT was accepted")
		}
	}
	Check("C09,C10", s.state != srvDefunct, "nothing is sent to a session the server gave up")
	s.queue = append(s.queue, r)
}

func reply(n *Net, m interface{}) {
	if wire.on {
		n.wireReply(m)
		return
	}
	n.in.Write(Token(m))
}

func (s *Server) failure(n *Net, text string) {
	Note("server: FAILURE " + text)
	world.fault = true
	if s.fail == "" {
		s.fail = text
	}
	if s.failN < 2 {
		s.failN++
	}
	s.state = srvFailed
	s.resetSt = 0
	reply(n, messages.NewFailureMessage(map[string]interface{}{"code": text}))
}

func (s *Server) success(n *Net, text string) {
	reply(n, messages.NewSuccessMessage(map[string]interface{}{"q": text}))
}

// answer produces the next answer of the server.
func (n *Net) answer() {
	s := &n.srv
	if s.state == srvVersion {
		s.answerVersion(n)
		return
	}
	if s.state == srvVersion2 {
		n.in.Write([]byte{0, 1})
		s.state = srvInit
		s.version = true
		return
	}
	if len(s.queue) == 0 {
		Violate("C09", "an answer is read when no request is outstanding")
	}
	r := s.queue[0]
	pop := true
	switch r.kind {
	case qInit:
		pick := 0
		if may(goodHandshake) {
			pick = Choose(4)
		}
		switch pick {
		case 0:
			Note("server: INIT accepted")
			s.state = srvReady
			s.accepted = true
			s.success(n, "init")
		case 1:
			s.failure(n, "F-init")
		case 2:
			Note("server: IGNORED to INIT")
			world.fault = true
			s.state = srvDefunct
			reply(n, messages.NewIgnoredMessage())
		case 3:
			Note("server: RECORD to INIT")
			world.fault = true
			s.state = srvDefunct
			reply(n, messages.NewRecordMessage([]interface{}{"x"}))
		}
	case qRun:
		switch s.state {
		case srvFailed:
			reply(n, messages.NewIgnoredMessage())
		case srvReady:
			if may(noFailures) && Choose(2) == 1 || world.failRun != "" && r.text == world.failRun {
				s.failure(n, "F-run "+r.text)
				if r.text == "COMMIT" || r.text == "ROLLBACK" {
					s.tx = false
				}
				break
			}
			s.state = srvStreaming
			s.running = r.text
			s.sent = 0
			if r.text == "BEGIN" {
				s.tx = true
			}
			if r.text == "COMMIT" || r.text == "ROLLBACK" {
				s.tx = false
			}
			md := map[string]interface{}{"q": r.text, "fields": []interface{}{r.text}}
			if world.head != nil {
				md = world.head(r.text)
			}
			reply(n, messages.NewSuccessMessage(md))
		default:
			Violate("C09", "RUN is sent while a result is still streaming")
		}
	case qPull, qDiscard:
		switch s.state {
		case srvFailed:
			reply(n, messages.NewIgnoredMessage())
		case srvStreaming:
			max := 2
			if !may(oneRecord) {
				max = 1
			}
			if s.running == "BEGIN" || s.running == "COMMIT" || s.running == "ROLLBACK" || r.kind == qDiscard {
				max = 0
			}
			k := 0
			if world.count != nil {
				if max > 0 && s.sent < world.count(s.running) {
					k, max = 2, s.sent+1
				}
			} else {
				k = Choose(3)
			}
			if k == 1 && !may(noFailures) {
				Stop()
			}
			if k == 2 && s.sent >= max {
				Stop()
			}
			switch k {
			case 0:
				s.state = srvReady
				switch s.running {
				case "BEGIN":
					s.okBegin++
				case "COMMIT":
					s.okCommit++
				case "ROLLBACK":
					s.okRoll++
				}
				md := map[string]interface{}{"q": s.running, "n": s.sent, "stats": map[string]interface{}{}}
				if world.summary != nil {
					md = world.summary(s.running)
				}
				reply(n, messages.NewSuccessMessage(md))
				s.running = ""
				s.total = s.sent
				s.sent = 0
			case 1:
				s.failure(n, "F-pull "+s.running)
				if s.running == "BEGIN" {
					s.tx = false // it was not begun after all
				}
				s.running = ""
				s.sent = 0
			case 2:
				pop = false
				rec := []interface{}{s.running, s.sent}
				if world.record != nil {
					rec = world.record(s.sent)
				}
				reply(n, messages.NewRecordMessage(rec))
				s.sent++
			}
		default:
			Violate("C09", "PULL_ALL or DISCARD_ALL is sent when no result is streaming")
		}
	case qAck:
		if may(noFailures) && may(noResetFail) && Choose(2) == 1 {
			Note("server: FAILURE to ACK_FAILURE")
			s.resetSt = 1
			reply(n, messages.NewFailureMessage(map[string]interface{}{"code": "F-ack"}))
		} else {
			s.state = srvReady
			s.resetSt = 0
			s.success(n, "ack")
		}
	case qReset:
		if Choose(2) == 1 {
			Note("server: FAILURE to RESET")
			s.refused = true
			s.state = srvDefunct
			reply(n, messages.NewFailureMessage(map[string]interface{}{"code": "F-reset"}))
		} else {
			s.state = srvReady
			s.resetSt = 0
			s.tx = false
			s.success(n, "reset")
		}
	}
	if pop {
		if len(s.queue) == 1 {
			s.queue = nil
		} else {
			q := make([]request, 0, 6)
			s.queue = append(q, s.queue[1:]...)
		}
	}
}

func (s *Server) answerVersion(n *Net) {
	s.state = srvDefunct
	if may(goodHandshake) {
		world.fault = true
	}
	if !may(goodHandshake) {
		n.in.Write([]byte{0, 0, 0, 1})
		s.state = srvInit
		s.version = true
		return
	}
	switch Choose(5) {
	case 0:
		n.in.Write([]byte{0, 0, 0, 1})
		s.state = srvInit
		s.version = true
		world.fault = false
	case 1:
		Note("server: no version supported")
		n.in.Write([]byte{0, 0, 0, 0})
	case 2:
		Note("server: answers with a version that was not offered")
		switch Choose(4) {
		case 0:
			n.in.Write([]byte{0, 0, 0, 2})
		case 1:
			n.in.Write([]byte{0, 0, 1, 1})
		case 2:
			n.in.Write([]byte{0, 1, 0, 1})
		default:
			n.in.Write([]byte{1, 0, 0, 0})
		}
	case 3:
		Note("server: answers something that is not Bolt")
		n.in.Write([]byte("HTTP"))
	case 4:
		Note("server: answers the handshake in two pieces")
		n.in.Write([]byte{0, 0})
		s.state = srvVersion2
		world.fault = false
	}
}

const srvVersion2 = 100

func (s *Server) checkInit(st structures.Structure) {
	if OnInit != nil {
		OnInit(st)
	}
}

// OnRequest is told about every request.
var OnRequest func(st structures.Structure)

// OnInit is told about the INIT message.
var OnInit func(st structures.Structure)

// anyQuery: which queries are sent is not looked at.
var anyQuery bool

func (s *Server) checkRun(text string, par map[string]interface{}) {
	switch text {
	case "BEGIN":
		s.begins++
		return
	case "COMMIT":
		s.commits++
		return
	case "ROLLBACK":
		s.rolls++
		return
	}
	if anyQuery {
		return
	}
	if s.want == nil {
		Violate("C17,C09,C15", "a query is sent that was not asked for")
	}
	Check("C17,C32", s.runs < len(s.want), "no query is sent twice")
	Check("C17,C32", text == s.want[s.runs], "the queries are sent with their own text in the order given")
	Check("C17,C25,C32", sameParams(par, s.params[s.runs]), "each query is sent with its own parameters")
	s.runs++
}

func sameParams(a, b map[string]interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range b {
		w, ok := a[k]
		if !ok || !Same(v, w) {
			return false
		}
	}
	return true
}

// ---------- the codec at its contract ----------

var errBad = errors.New("cannot be encoded")

// EncodeModel stands for Encoder.Encode: the message is written whole, or an error is returned and nothing is.
func EncodeModel(enc interface{}, v interface{}) error {
	w := WriterOf(enc).(io.Writer)
	if st, ok := v.(structures.Structure); ok && st.Signature() == 0x10 {
		for _, f := range st.AllFields() {
			if m, ok := f.(map[string]interface{}); ok {
				if _, bad := m["bad"]; bad {
					return errBad
				}
			}
		}
	}
	if _, err := w.Write(Token(v)); err != nil {
		return berrors.Wrap(err, "An error occurred writing message")
	}
	return nil
}

// DecodeModel stands for Decoder.Decode: it reads exactly one message.
func DecodeModel(dec interface{}) (interface{}, error) {
	r := ReaderOf(dec).(io.Reader)
	b := make([]byte, 2)
	if n, err := r.Read(b); n != 2 {
		if err == nil {
			err = io.ErrUnexpectedEOF
		}
		return nil, berrors.Wrap(err, "An error occurred reading message data")
	}
	v, ok := Untoken(b)
	if !ok && garbageOK {
		return nil, errGarbage
	}
	_, local := r.(interface{ Len() int }) // not from the server, but a value in memory
	if !local && world.undec == 1 && Choose(2) == 1 {
		Note("the answer can't be decoded")
		world.undec = 2
		world.fault = true
		n := NetOf(r)
		n.undec, n.undecNow = true, true
		return nil, errGarbage
	}
	if !ok {
		Violate("C09", "bytes that are not the start of a message are decoded as one")
	}
	return v, nil
}

// inner gives the innermost error.
func inner(err error) error {
	for i := 0; i < 32; i++ {
		e, ok := err.(*berrors.Error)
		if !ok {
			return err
		}
		m := e.InnerMost()
		if m == err {
			return err
		}
		err = m
	}
	return err
}

// failureCode gives the code of the failure the error ends in.
func failureCode(err error) string {
	if f, ok := inner(err).(messages.FailureMessage); ok {
		c, _ := f.Metadata["code"].(string)
		return c
	}
	return ""
}
