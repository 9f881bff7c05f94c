package vmodels

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"database/sql/driver"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------- encoding/binary ----------

func BinaryWrite(w io.Writer, order binary.ByteOrder, data interface{}) error {
	if b, ok := data.([]byte); ok {
		_, err := w.Write(b)
		return err
	}
	if NumSize(data) < 0 {
		return errors.New("binary.Write: some values are not fixed-sized")
	}
	_, err := w.Write(PutNum(data, IsLittle(order)))
	return err
}

func BinaryRead(r io.Reader, order binary.ByteOrder, data interface{}) error {
	if b, ok := data.([]byte); ok {
		_, err := io.ReadFull(r, b)
		return err
	}
	n := NumSize(data)
	if n < 0 {
		return errors.New("binary.Read: invalid type")
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	SetNum(data, b, IsLittle(order))
	return nil
}

func BinarySize(v interface{}) int { return NumSize(v) }

// ---------- database/sql/driver ----------

// ConvertValue of driver.DefaultParameterConverter, for the values the decoder delivers.
func ConvertValue(_ interface{}, v interface{}) (driver.Value, error) {
	switch x := v.(type) {
	case nil:
		return nil, nil
	case int64:
		return x, nil
	case float64:
		return x, nil
	case bool:
		return x, nil
	case []byte:
		return x, nil
	case string:
		return x, nil
	case time.Time:
		return x, nil
	case driver.Valuer:
		return x.Value()
	case int:
		return int64(x), nil
	case int8:
		return int64(x), nil
	case int16:
		return int64(x), nil
	case int32:
		return int64(x), nil
	case uint8:
		return int64(x), nil
	case uint16:
		return int64(x), nil
	case uint32:
		return int64(x), nil
	case float32:
		return float64(x), nil
	}
	return nil, errors.New("unsupported type")
}

func ConverterString(_ interface{}) string { return "converter" }

var SqlDriver driver.Driver
var SqlName string

func SqlRegister(name string, d driver.Driver) { SqlDriver, SqlName = d, name }

// ---------- errors ----------

type unwrapper interface{ Unwrap() error }
type unwrappers interface{ Unwrap() []error }
type iser interface{ Is(error) bool }

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(iser); ok && x.Is(target) {
			return true
		}
		if u, ok := err.(unwrapper); ok {
			err = u.Unwrap()
			continue
		}
		if u, ok := err.(unwrappers); ok {
			for _, e := range u.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
		}
		return false
	}
	return target == nil
}

// ---------- bytes, sync ----------

func BufferWriteTo(b *bytes.Buffer, w io.Writer) (int64, error) {
	if b.Len() == 0 {
		return 0, nil
	}
	p := b.Next(b.Len())
	n, err := w.Write(p)
	return int64(n), err
}

// bulk is a buffer to read all of r into: reads of any size up to the number of bytes left stand for those of 512 bytes
// and more that the library makes (a reader may always deliver less than asked for).
func bulk(r io.Reader) []byte {
	if l, ok := r.(*io.LimitedReader); ok {
		n := l.N
		if b, ok := l.R.(*bytes.Buffer); ok && n > int64(b.Len()) {
			n = int64(b.Len())
		}
		if b, ok := l.R.(*bytes.Reader); ok && n > int64(b.Len()) {
			n = int64(b.Len())
		}
		if n <= 0 {
			return make([]byte, 1)
		}
		return make([]byte, n)
	}
	if b, ok := r.(*bytes.Buffer); ok && b.Len() > 0 {
		return make([]byte, b.Len())
	}
	if b, ok := r.(*bytes.Reader); ok && b.Len() > 0 {
		return make([]byte, b.Len())
	}
	return make([]byte, 512)
}

func IoReadAll(r io.Reader) ([]byte, error) {
	out := []byte{}
	for {
		p := bulk(r)
		n, err := r.Read(p)
		out = append(out, p[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func BufferReadFrom(b *bytes.Buffer, r io.Reader) (int64, error) {
	var total int64
	for {
		p := bulk(r)
		n, err := r.Read(p)
		b.Write(p[:n])
		total += int64(n)
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func ReaderWriteTo(b *bytes.Reader, w io.Writer) (int64, error) {
	p := make([]byte, b.Len())
	b.Read(p)
	n, err := w.Write(p)
	return int64(n), err
}

func ReaderWriteToS(b *strings.Reader, w io.Writer) (int64, error) {
	p := make([]byte, b.Len())
	b.Read(p)
	n, err := w.Write(p)
	return int64(n), err
}

func OnceDo(o *sync.Once, f func()) {
	if !OnceDone(o) {
		f()
	}
}

func StringsMap(f func(rune) rune, s string) string {
	out := ""
	for _, r := range s {
		if m := f(r); m >= 0 {
			out += string(m)
		}
	}
	return out
}

// ---------- fmt and log ----------

type stringer interface{ String() string }

// ownText collects the texts of arguments that format themselves. Those printed with # or as types do not.
func ownText(format string, args []interface{}) []string {
	own := make([]string, len(args))
	for i, a := range args {
		if i < 16 && NotOwn(format, i) {
			continue
		}
		switch x := a.(type) {
		case error:
			own[i] = x.Error()
		case *Net:
		case time.Duration:
		case stringer:
			own[i] = x.String()
		}
	}
	return own
}

func FmtSprintf(format string, args ...interface{}) string {
	if !IsFmtFull() {
		return "‹text›"
	}
	return Text(format, args, ownText(format, args), false)
}

func FmtSprint(args ...interface{}) string {
	if !IsFmtFull() {
		return "‹text›"
	}
	return Text("", args, ownText("", args), false)
}

func FmtSprintln(args ...interface{}) string {
	if !IsFmtFull() {
		return "‹text›"
	}
	return Text("", args, ownText("", args), true)
}

type fmtError struct {
	text string
	err  error
}

func (e *fmtError) Error() string { return e.text }
func (e *fmtError) Unwrap() error { return e.err }

func FmtErrorf(format string, args ...interface{}) error {
	e := &fmtError{text: FmtSprintf(format, args...)}
	if strings.Contains(format, "%w") {
		for _, a := range args {
			if x, ok := a.(error); ok {
				e.err = x
			}
		}
	}
	return e
}

// Logged is the log output: who wrote what.
type Logged struct {
	logger *log.Logger
	text   string
	fatal  bool
}

// OnLog is told about all output.
var OnLog func(l Logged)

func emit(l *log.Logger, text string) {
	if OnLog != nil {
		OnLog(Logged{logger: l, text: text})
	}
}

func LogNew(w io.Writer, prefix string, flag int) *log.Logger { return new(log.Logger) }

func LoggerPrintln(l *log.Logger, args ...interface{}) {
	if OnLog != nil {
		emit(l, FmtSprintln(args...))
	}
}
func LoggerPrintf(l *log.Logger, format string, args ...interface{}) {
	if OnLog != nil {
		emit(l, FmtSprintf(format, args...))
	}
}
func LoggerPrint(l *log.Logger, args ...interface{}) {
	if OnLog != nil {
		emit(l, FmtSprint(args...))
	}
}
func LoggerOutput(l *log.Logger, depth int, s string) error { emit(l, s); return nil }
func LoggerSetOutput(l *log.Logger, w io.Writer)            {}

func StdLogPrintln(args ...interface{})               { emit(nil, FmtSprintln(args...)) }
func StdLogPrintf(format string, args ...interface{}) { emit(nil, FmtSprintf(format, args...)) }
func StdLogPrint(args ...interface{})                 { emit(nil, FmtSprint(args...)) }
func StdLogFatalln(args ...interface{})               { emit(nil, FmtSprintln(args...)); Stop() }
func StdLogFatalf(format string, args ...interface{}) { emit(nil, FmtSprintf(format, args...)); Stop() }
func StdLogPanicln(args ...interface{})               { s := FmtSprintln(args...); emit(nil, s); panic(s) }
func StdLogPanicf(format string, args ...interface{}) {
	s := FmtSprintf(format, args...)
	emit(nil, s)
	panic(s)
}
func FmtPrintln(args ...interface{}) (int, error) { emit(nil, FmtSprintln(args...)); return 0, nil }
func FmtPrintf(f string, args ...interface{}) (int, error) {
	emit(nil, FmtSprintf(f, args...))
	return 0, nil
}
func FmtFprintf(w io.Writer, f string, args ...interface{}) (int, error) {
	s := FmtSprintf(f, args...)
	if std(w) {
		emit(nil, s)
		return len(s), nil
	}
	return w.Write([]byte(s))
}
func FmtFprintln(w io.Writer, args ...interface{}) (int, error) {
	s := FmtSprintln(args...)
	if std(w) {
		emit(nil, s)
		return len(s), nil
	}
	return w.Write([]byte(s))
}

type fder interface{ Fd() uintptr }

func std(w io.Writer) bool {
	_, ok := w.(fder) // a file: standard output or error
	return ok
}

// ---------- dialling ----------

// World is what can be dialled.
type World struct {
	nets    []*Net
	dials   int
	network string
	addr    string
	timeout time.Duration
	tls     bool
	plain   bool // a connection was dialled without TLS
	tlsConf *tls.Config
	script  int
	onDial  func(n *Net)
	dialled func()
	// what the server says, if not the usual
	head    func(query string) map[string]interface{}
	record  func(i int) []interface{}
	summary func(query string) map[string]interface{}
	count   func(query string) int // how many records a query has, if that is settled
	failRun string                 // the query that is answered with a failure
	opening bool                   // a connection is being taken from the pool
	fault   bool                   // opening a connection went wrong
	undec   int                    // 1: an answer may be undecodable, 2: one was
}

var world World

var errDial = errors.New("dial error")

func dial(network, addr string, timeout time.Duration, useTLS bool, conf *tls.Config) (*Net, error) {
	world.dials++
	world.network = network
	world.addr = addr
	world.timeout = timeout
	world.tls = useTLS
	if !useTLS {
		world.plain = true
	}
	world.tlsConf = conf
	if world.dialled != nil {
		world.dialled()
	}
	Tick()
	if world.script&noDialFaults == 0 && Choose(2) == 1 {
		Note("dial fails")
		world.fault = true
		return nil, errDial
	}
	n := newNet()
	n.tls = useTLS
	world.nets = append(world.nets, n)
	if world.onDial != nil {
		world.onDial(n)
	}
	return n, nil
}

func NetDialTimeout(network, addr string, timeout time.Duration) (net.Conn, error) {
	n, err := dial(network, addr, timeout, false, nil)
	if err != nil {
		return nil, err
	}
	return n, nil
}

func NetDial(network, addr string) (net.Conn, error) {
	return NetDialTimeout(network, addr, 0)
}

func dialerTimeout(d *net.Dialer) time.Duration {
	if d == nil {
		return 0
	}
	if !d.Deadline.IsZero() && d.Timeout == 0 {
		return time.Until(d.Deadline)
	}
	return d.Timeout
}

func DialerDial(d *net.Dialer, network, addr string) (net.Conn, error) {
	return NetDialTimeout(network, addr, dialerTimeout(d))
}

func DialerDialContext(d *net.Dialer, ctx context.Context, network, addr string) (net.Conn, error) {
	return NetDialTimeout(network, addr, ctxTimeout(ctx, dialerTimeout(d)))
}

// timedCtx is a context with a deadline.
type timedCtx struct {
	context.Context
	dl  time.Time
	d   time.Duration
	end bool
}

func (c *timedCtx) Deadline() (time.Time, bool) { return c.dl, true }
func (c *timedCtx) Done() <-chan struct{}       { return nil }
func (c *timedCtx) Err() error {
	if c.end {
		return context.Canceled
	}
	return nil
}

func ContextWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	c := &timedCtx{Context: parent, dl: time.Now().Add(d), d: d}
	return c, func() { c.end = true }
}

func ContextWithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	c := &timedCtx{Context: parent, dl: t, d: time.Until(t)}
	return c, func() { c.end = true }
}

// ctxTimeout is the time there is for something that may take t (0 for any time) under the context.
func ctxTimeout(ctx context.Context, t time.Duration) time.Duration {
	c, ok := ctx.(*timedCtx)
	if !ok || t != 0 && t <= c.d {
		return t
	}
	return c.d
}

// OsIsTimeout stands for os.IsTimeout.
func OsIsTimeout(err error) bool {
	t, ok := err.(interface{ Timeout() bool })
	return ok && t.Timeout()
}

type tlsPair struct {
	c *tls.Conn
	n net.Conn
}

var tlsConns []tlsPair

func newTLS(n net.Conn) *tls.Conn {
	c := new(tls.Conn)
	tlsConns = append(tlsConns, tlsPair{c, n})
	return c
}

func tlsUnder(c *tls.Conn) net.Conn {
	for _, p := range tlsConns {
		if p.c == c {
			return p.n
		}
	}
	return nil
}

func tlsDial(timeout time.Duration, network, addr string, conf *tls.Config) (*tls.Conn, error) {
	n, err := dial(network, addr, timeout, true, conf)
	if err != nil {
		return nil, err
	}
	return newTLS(n), nil
}

func TLSDial(network, addr string, conf *tls.Config) (*tls.Conn, error) {
	return tlsDial(0, network, addr, conf)
}

func TLSDialWithDialer(d *net.Dialer, network, addr string, conf *tls.Config) (*tls.Conn, error) {
	return tlsDial(dialerTimeout(d), network, addr, conf)
}

func TLSDialerDial(d *tls.Dialer, network, addr string) (net.Conn, error) {
	c, err := tlsDial(dialerTimeout(d.NetDialer), network, addr, d.Config)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func TLSDialerDialContext(d *tls.Dialer, ctx context.Context, network, addr string) (net.Conn, error) {
	if c, ok := ctx.(*timedCtx); ok {
		nd := net.Dialer{}
		if d.NetDialer != nil {
			nd = *d.NetDialer
		}
		nd.Timeout = ctxTimeout(c, dialerTimeout(&nd))
		return TLSDialerDial(&tls.Dialer{NetDialer: &nd, Config: d.Config}, network, addr)
	}
	return TLSDialerDial(d, network, addr)
}

func TLSClient(c net.Conn, conf *tls.Config) *tls.Conn {
	world.tls = true
	world.plain = false
	world.tlsConf = conf
	if n, ok := c.(*Net); ok {
		n.tls = true
	}
	return newTLS(c)
}

var errTLS = errors.New("tls: handshake failure")

func TLSHandshake(c *tls.Conn) error {
	n := tlsUnder(c).(*Net)
	n.ioTimed(n.rdl, "the TLS handshake")
	if Choose(2) == 1 {
		n.broken = true
		return errTLS
	}
	return nil
}
func TLSHandshakeContext(c *tls.Conn, ctx context.Context) error { return TLSHandshake(c) }
func TLSRead(c *tls.Conn, b []byte) (int, error)                 { return tlsUnder(c).Read(b) }
func TLSWrite(c *tls.Conn, b []byte) (int, error)                { return tlsUnder(c).Write(b) }
func TLSClose(c *tls.Conn) error                                 { return tlsUnder(c).Close() }
func TLSSetDeadline(c *tls.Conn, t time.Time) error              { return tlsUnder(c).SetDeadline(t) }
func TLSSetReadDeadline(c *tls.Conn, t time.Time) error          { return tlsUnder(c).SetReadDeadline(t) }
func TLSSetWriteDeadline(c *tls.Conn, t time.Time) error         { return tlsUnder(c).SetWriteDeadline(t) }
func TLSAddr(c *tls.Conn) net.Addr                               { return nil }
func TLSConfigClone(c *tls.Config) *tls.Config {
	if c == nil {
		return nil
	}
	d := *c
	return &d
}

var errFile = errors.New("cannot load file")

// what the certificate functions were given
type certLoad struct {
	cert, key string
	id        string
}

var certLoads []certLoad
var poolFiles []poolFile

type poolFile struct {
	p    *x509.CertPool
	data []byte
}

func LoadX509KeyPair(cert, key string) (tls.Certificate, error) {
	if Choose(2) == 1 {
		Note("loading the certificate " + cert + " fails")
		certFault = true
		return tls.Certificate{}, errFile
	}
	return tls.Certificate{Certificate: [][]byte{[]byte("cert " + cert + " key " + key)}}, nil
}

var certFault bool

func NewCertPool() *x509.CertPool { return new(x509.CertPool) }
func SystemCertPool() (*x509.CertPool, error) {
	p := new(x509.CertPool)
	poolFiles = append(poolFiles, poolFile{p, []byte("system")})
	return p, nil
}
func AppendCertsFromPEM(p *x509.CertPool, data []byte) bool {
	poolFiles = append(poolFiles, poolFile{p, data})
	if Choose(2) == 1 {
		Note("there is no certificate in the file")
		return false
	}
	return true
}
func ReadFile(name string) ([]byte, error) {
	if Choose(2) == 1 {
		Note("reading the file " + name + " fails")
		certFault = true
		return nil, errFile
	}
	return []byte("file " + name), nil
}

var _ = fmt.Sprint

// ---------- sync.Pool, sync.Map, atomic.Value ----------

func PoolGet(p *sync.Pool) interface{} {
	items, _ := Kept(p).([]interface{})
	if len(items) > 0 {
		Keep(p, append([]interface{}(nil), items[:len(items)-1]...))
		return items[len(items)-1]
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func PoolPut(p *sync.Pool, v interface{}) {
	if v == nil {
		return
	}
	items, _ := Kept(p).([]interface{})
	Keep(p, append(append([]interface{}(nil), items...), v))
}

func syncMap(m *sync.Map) map[interface{}]interface{} {
	mm, _ := Kept(m).(map[interface{}]interface{})
	if mm == nil {
		mm = map[interface{}]interface{}{}
		Keep(m, mm)
	}
	return mm
}

func SyncMapLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := syncMap(m)[k]
	return v, ok
}

func SyncMapStore(m *sync.Map, k, v interface{}) { syncMap(m)[k] = v }

func SyncMapDelete(m *sync.Map, k interface{}) { delete(syncMap(m), k) }

func SyncMapLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	if w, ok := syncMap(m)[k]; ok {
		return w, true
	}
	syncMap(m)[k] = v
	return v, false
}

func SyncMapLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := syncMap(m)[k]
	delete(syncMap(m), k)
	return v, ok
}

func SyncMapRange(m *sync.Map, f func(k, v interface{}) bool) {
	for k, v := range syncMap(m) {
		if !f(k, v) {
			break
		}
	}
}

func AtomicLoad(a *atomic.Value) interface{} { return Kept(a) }

func AtomicStore(a *atomic.Value, v interface{}) { Keep(a, v) }

func AtomicSwap(a *atomic.Value, v interface{}) interface{} {
	o := Kept(a)
	Keep(a, v)
	return o
}

func AtomicCAS(a *atomic.Value, o, n interface{}) bool {
	if Kept(a) != o {
		return false
	}
	Keep(a, n)
	return true
}
