package golangNeo4jBoltDriver

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

// A small Bolt server for the demonstrations.
type fakeServer struct {
	ln       net.Listener
	mu       sync.Mutex
	log      []string        // requests, in order, with the connection number
	open     map[int]bool    // connections the client has not closed
	conns    int             // connections accepted
	failRun  map[string]int  // query -> how often RUN is answered with FAILURE
	failPull map[string]int  // query -> how often PULL_ALL ends in FAILURE
	cut      map[string]int  // query -> how often the connection is cut instead of answering RUN
	cutPull  map[string]int
	records  map[string]int  // query -> number of records
	failAck  int             // how often ACK_FAILURE is refused
	failRst  int             // how often RESET is refused
	failInit int
	initBad  string          // other ways INIT goes wrong
	version  []byte          // handshake answer
	txOpen   map[int]bool
	protoErr string          // first protocol violation by the client
	stall    map[string]bool
}

func newFake(t testing.TB) *fakeServer {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := &fakeServer{ln: ln, open: map[int]bool{}, failRun: map[string]int{}, failPull: map[string]int{}, cut: map[string]int{},
		cutPull: map[string]int{}, records: map[string]int{}, version: []byte{0, 0, 0, 1}, txOpen: map[int]bool{}, stall: map[string]bool{}}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns++
			id := s.conns
			s.open[id] = true
			s.mu.Unlock()
			go s.serve(c, id)
		}
	}()
	t.Cleanup(func() { ln.Close() })
	return s
}

func (s *fakeServer) url() string { return "bolt://" + s.ln.Addr().String() + "?timeout=3" }

func (s *fakeServer) note(id int, x string) {
	s.mu.Lock()
	s.log = append(s.log, fmt.Sprintf("%d %s", id, x))
	s.mu.Unlock()
}

func (s *fakeServer) bad(x string) {
	s.mu.Lock()
	if s.protoErr == "" {
		s.protoErr = x
	}
	s.mu.Unlock()
}

func (s *fakeServer) requests() []string {
	time.Sleep(30 * time.Millisecond)
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.log...)
}

func (s *fakeServer) nOpen() int {
	time.Sleep(50 * time.Millisecond)
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for _, o := range s.open {
		if o {
			n++
		}
	}
	return n
}

func (s *fakeServer) count(x string) int {
	n := 0
	for _, l := range s.requests() {
		if strings.HasSuffix(l, " "+x) || strings.Contains(l, " "+x+" ") {
			n++
		}
	}
	return n
}

func (s *fakeServer) take(m map[string]int, q string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if m[q] > 0 {
		m[q]--
		return true
	}
	return false
}

func (s *fakeServer) serve(c net.Conn, id int) {
	defer func() {
		c.Close()
		s.mu.Lock()
		s.open[id] = false
		s.txOpen[id] = false
		s.mu.Unlock()
	}()
	hs := make([]byte, 20)
	if _, err := io.ReadFull(c, hs); err != nil {
		return
	}
	c.Write(s.version)
	state := "init"
	running := ""
	for {
		msg, err := fakeRead(c)
		if err != nil {
			return
		}
		if len(msg) < 2 {
			s.bad("short message")
			return
		}
		sig := msg[1]
		switch sig {
		case 0x01:
			s.note(id, "INIT")
			s.mu.Lock()
			f := s.failInit
			if f > 0 {
				s.failInit--
			}
			ib := s.initBad
			s.mu.Unlock()
			switch {
			case ib == "cut":
				return
			case ib == "ignored":
				fakeSend(c, []byte{0xB0, 0x7E})
			case f > 0:
				state = "failed"
				fakeSend(c, fakeFailure("Init"))
			default:
				state = "ready"
				fakeSend(c, fakeSuccess(nil))
			}
		case 0x10:
			q, rest, _ := fakeValue(msg[2:])
			par, _, _ := fakeValue(rest)
			query, _ := q.(string)
			s.note(id, "RUN "+query+" "+fakeText(par))
			if state == "failed" {
				fakeSend(c, []byte{0xB0, 0x7E})
				continue
			}
			if state != "ready" {
				s.bad("RUN in state " + state)
				return
			}
			if s.take(s.cut, query) {
				return
			}
			if s.take(s.failRun, query) {
				state = "failed"
				fakeSend(c, fakeFailure("Run."+query))
				continue
			}
			running = query
			state = "streaming"
			s.mu.Lock()
			switch query {
			case "BEGIN":
				s.txOpen[id] = true
			case "COMMIT", "ROLLBACK":
				s.txOpen[id] = false
			}
			s.mu.Unlock()
			fakeSend(c, fakeSuccess(map[string]interface{}{"fields": []interface{}{query}}))
		case 0x3F, 0x2F:
			s.note(id, map[byte]string{0x3F: "PULL", 0x2F: "DISCARD"}[sig])
			if state == "failed" {
				fakeSend(c, []byte{0xB0, 0x7E})
				continue
			}
			if state != "streaming" {
				s.bad("PULL/DISCARD in state " + state)
				return
			}
			if sig == 0x3F {
				for i := 0; i < s.records[running]; i++ {
					fakeSend(c, append([]byte{0xB1, 0x71, 0x92}, append(fakeEnc(running), fakeEnc(i)...)...))
				}
			}
			if s.take(s.cutPull, running) {
				return
			}
			if s.take(s.failPull, running) {
				state = "failed"
				fakeSend(c, fakeFailure("Pull."+running))
				continue
			}
			state = "ready"
			fakeSend(c, fakeSuccess(map[string]interface{}{"q": running}))
		case 0x0E:
			s.note(id, "ACK")
			if state != "failed" {
				s.bad("ACK in state " + state)
			}
			s.mu.Lock()
			f := s.failAck
			if f > 0 {
				s.failAck--
			}
			s.mu.Unlock()
			if f > 0 {
				fakeSend(c, fakeFailure("Ack"))
				continue
			}
			state = "ready"
			fakeSend(c, fakeSuccess(nil))
		case 0x0F:
			s.note(id, "RESET")
			s.mu.Lock()
			f := s.failRst
			if f > 0 {
				s.failRst--
			}
			s.mu.Unlock()
			if f > 0 {
				fakeSend(c, fakeFailure("Reset"))
				continue
			}
			state = "ready"
			s.mu.Lock()
			s.txOpen[id] = false
			s.mu.Unlock()
			fakeSend(c, fakeSuccess(nil))
		default:
			s.bad(fmt.Sprintf("unknown request %x", sig))
			return
		}
	}
}

func fakeRead(c io.Reader) ([]byte, error) {
	var out []byte
	for {
		h := make([]byte, 2)
		if _, err := io.ReadFull(c, h); err != nil {
			return nil, err
		}
		n := binary.BigEndian.Uint16(h)
		if n == 0 {
			return out, nil
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(c, b); err != nil {
			return nil, err
		}
		out = append(out, b...)
	}
}

func fakeSend(c io.Writer, b []byte) {
	h := []byte{byte(len(b) >> 8), byte(len(b))}
	c.Write(append(append(h, b...), 0, 0))
}

func fakeFailure(code string) []byte {
	return append([]byte{0xB1, 0x7F}, fakeEnc(map[string]interface{}{"code": code, "message": "m"})...)
}

func fakeSuccess(m map[string]interface{}) []byte {
	return append([]byte{0xB1, 0x70}, fakeEnc(m)...)
}

func fakeEnc(v interface{}) []byte {
	switch x := v.(type) {
	case int:
		return []byte{byte(x)}
	case string:
		if len(x) > 15 {
			return append([]byte{0xD0, byte(len(x))}, x...)
		}
		return append([]byte{0x80 + byte(len(x))}, x...)
	case []interface{}:
		b := []byte{0x90 + byte(len(x))}
		for _, e := range x {
			b = append(b, fakeEnc(e)...)
		}
		return b
	case map[string]interface{}:
		b := []byte{0xA0 + byte(len(x))}
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			b = append(b, fakeEnc(k)...)
			b = append(b, fakeEnc(x[k])...)
		}
		return b
	}
	return []byte{0xC0}
}

func fakeText(v interface{}) string {
	if m, ok := v.(map[string]interface{}); ok {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "{"
		for _, k := range ks {
			s += k + ":" + fakeText(m[k]) + ","
		}
		return s + "}"
	}
	return fmt.Sprint(v)
}

func fakeValue(b []byte) (interface{}, []byte, error) {
	if len(b) == 0 {
		return nil, nil, io.ErrUnexpectedEOF
	}
	m := b[0]
	b = b[1:]
	str := func(n int) (interface{}, []byte, error) {
		if n > len(b) {
			return nil, nil, io.ErrUnexpectedEOF
		}
		return string(b[:n]), b[n:], nil
	}
	list := func(n int) (interface{}, []byte, error) {
		out := []interface{}{}
		for i := 0; i < n; i++ {
			var v interface{}
			var err error
			v, b, err = fakeValue(b)
			if err != nil {
				return nil, nil, err
			}
			out = append(out, v)
		}
		return out, b, nil
	}
	mapp := func(n int) (interface{}, []byte, error) {
		l, rest, err := list(2 * n)
		if err != nil {
			return nil, nil, err
		}
		out := map[string]interface{}{}
		for i := 0; i < n; i++ {
			k, _ := l.([]interface{})[2*i].(string)
			out[k] = l.([]interface{})[2*i+1]
		}
		return out, rest, nil
	}
	switch {
	case m == 0xC0:
		return nil, b, nil
	case m == 0xC2, m == 0xC3:
		return m == 0xC3, b, nil
	case m < 0x80 || m >= 0xF0:
		return int(int8(m)), b, nil
	case m == 0xC8:
		return int(int8(b[0])), b[1:], nil
	case m == 0xC9:
		return int(int16(binary.BigEndian.Uint16(b))), b[2:], nil
	case m == 0xCA:
		return int(int32(binary.BigEndian.Uint32(b))), b[4:], nil
	case m == 0xCB:
		return int(int64(binary.BigEndian.Uint64(b))), b[8:], nil
	case m == 0xC1:
		return "float", b[8:], nil
	case m&0xF0 == 0x80:
		return str(int(m & 15))
	case m == 0xD0:
		n := int(b[0])
		b = b[1:]
		return str(n)
	case m == 0xD1:
		n := int(binary.BigEndian.Uint16(b))
		b = b[2:]
		return str(n)
	case m&0xF0 == 0x90:
		return list(int(m & 15))
	case m&0xF0 == 0xA0:
		return mapp(int(m & 15))
	}
	return nil, nil, fmt.Errorf("marker %x", m)
}

// within fails the test if f takes longer.
func within(t testing.TB, d time.Duration, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatal("blocked")
	}
}
