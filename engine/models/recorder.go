package vmodels

import (
	"encoding/json"
	"errors"
	"io"
	"net"
	"os"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

// The recorder that can be put in front of a connection (C34).

var rec struct {
	on   bool
	conn net.Conn
}

// HRecOpen: opening connections that are recorded.
func HRecOpen() {
	rec.on = true
	HOpen()
}

// HRecSession: connections that are recorded.
func HRecSession() {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	rec.on = true
	s := openSession(stdStr)
	world.script = noDialFaults | goodHandshake
	s.what = withPlain | withTx
	s.loop()
}

// Files and the environment, as far as the recorder uses them.

var env string // RECORD_OUTPUT

var fileErr error // the failure writing a file met

var fileOk int // files written

func OsGetenv(k string) string {
	if k == "RECORD_OUTPUT" {
		return env
	}
	return ""
}

func OsLookupEnv(k string) (string, bool) { return OsGetenv(k), OsGetenv(k) != "" }

func fileFails(what string) error {
	if Choose(2) == 0 {
		return nil
	}
	Note(what + " fails")
	fileErr = errors.New(what)
	return fileErr
}

func OsOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if err := fileFails("opening a file"); err != nil {
		return nil, err
	}
	return &os.File{}, nil
}

func OsCreate(name string) (*os.File, error) { return OsOpenFile(name, 0, 0) }

func OsOpen(name string) (*os.File, error) { return OsOpenFile(name, 0, 0) }

func OsWriteFile(name string, b []byte, perm os.FileMode) error { return written() }

func OsMkdirAll(name string, perm os.FileMode) error { return nil }

func OsFileClose(f *os.File) error { return nil }

func OsFileSync(f *os.File) error { return nil }

func OsFileWrite(f *os.File, b []byte) (int, error) { return len(b), written() }

func written() error {
	if err := fileFails("writing a file"); err != nil {
		return err
	}
	fileOk++
	return nil
}

func JsonNewEncoder(w io.Writer) *json.Encoder { return &json.Encoder{} }

func JsonEncode(e *json.Encoder, v interface{}) error { return written() }

func JsonMarshal(v interface{}) ([]byte, error) { return []byte("{}"), nil }

func JsonMarshalIndent(v interface{}, a, b string) ([]byte, error) { return JsonMarshal(v) }

// HRecFile: recordings that are written to a file when the connection is closed.
func HRecFile() {
	world = World{script: noDialFaults | noFaults | goodHandshake | noFailures | oneRecord}
	rec.on = true
	if Choose(2) == 0 {
		Note("RECORD_OUTPUT set")
		env = pick("1", "true", "x")
	}
	h := openSession(stdStr)
	if Choose(2) == 0 {
		h.one("Q")
		_, _, _, err := h.conn.QueryNeoAll("Q", wirePar("Q"))
		Check("C34", err == nil, "a recorded session gives the results of the server")
	}
	h.n.startCall()
	err := h.conn.Close()
	Check("C14,C34", h.n.closed, "closing a recorded connection closes it")
	if fileErr != nil {
		Check("C34", err != nil, "a recording that could not be written is reported")
		Covered("recording lost")
		return
	}
	Check("C34", closeFault || err == nil, "closing a recorded connection closes it")
	if env != "" {
		Check("C34", fileOk == 1, "a recording that was asked for is written")
		Covered("recording written")
	} else {
		Check("C34", fileOk == 0, "no recording is written unasked")
	}
}

// HRecWire and HRecEnd: recorded sessions over the wire.
func HRecWire() {
	rec.on = true
	HWire()
}

func HRecEnd() {
	rec.on = true
	HWireEnd()
}

// HReplay decides C34 for sessions that are replayed.
func HReplay() {
	world = World{script: noDialFaults | noFaults | goodHandshake | noCloseFaults | noFailures}
	world.count = func(q string) int { return 2 }
	wire.on = true
	wire.chunk = 65535
	switch Choose(3) {
	case 0:
	case 1:
		Note("the server sends chunks of one byte")
		wire.cut = 1
	default:
		Note("the server sends chunks of 7 bytes")
		wire.cut = 7
	}
	switch Choose(3) {
	case 0:
	case 1:
		Note("reads deliver one byte at a time")
		wire.read = 1
	default:
		Note("reads deliver three bytes at a time")
		wire.read = 3
	}
	rec.on = true
	h := openSession("bolt://h:7687")
	BlockProps("C34")
	PanicProps("C34")
	first := rec.conn
	what := Choose(4)
	h.replayed(what, false)
	Check("C34", h.conn.Close() == nil && h.n.closed, "closing a recorded connection closes it")

	Note("replay")
	d := bolt.NewDriver()
	again := AsConn(RecorderMaker()("r", "x"))
	CopyEvents(again, first)
	SetRecorder(d, again)
	conn, err := d.OpenNeo("")
	Check("C34", err == nil, "a recorded session can be opened again")
	dials := world.dials
	h2 := &sess{conn: conn, n: h.n, maxPipe: 2}
	h.n.closed = false
	other := Choose(3)
	switch other {
	case 0:
		h2.replayed(what, true)
		Check("C34", conn.Close() == nil, "a session that is replayed to its end closes without error")
		Covered("replayed")
	case 1:
		Note("less than was recorded")
		Check("C34", conn.Close() != nil, "a session that is not replayed to its end reports that")
		Covered("replayed in part")
	case 2:
		h2.replayed(what, true)
		Note("more than was recorded")
		_, err = conn.ExecNeo("more", nil)
		Check("C34", err != nil, "a query that was not recorded fails")
		Covered("replayed past the end")
	}
	Check("C34", world.dials == dials, "replaying needs no server")
}

func (h *sess) replayed(what int, again bool) {
	if !again {
		h.n.startCall()
	}
	p := wirePar("Q")
	switch what {
	case 0:
		if !again {
			h.one("Q")
		}
		data, _, sum, err := h.conn.QueryNeoAll("Q", p)
		Check("C34", err == nil && len(data) == 2, "a recorded session gives the results of the server")
		checkAll(data, sum, "Q", 0)
	case 1:
		if !again {
			h.one("Q")
		}
		rows, err := h.conn.QueryNeo("Q", p)
		Check("C34", err == nil, "a recorded session gives the results of the server")
		row, _, err := rows.NextNeo()
		Check("C34", err == nil, "a recorded session gives the results of the server")
		checkRow(row, "Q", 0)
		Check("C34", rows.Close() == nil, "a recorded session gives the results of the server")
		if !again {
			h.one("E")
		}
		_, err = h.conn.ExecNeo("E", wirePar("E"))
		Check("C34", err == nil, "a recorded session gives the results of the server")
	case 2:
		world.failRun = "F"
		if !again {
			h.one("F")
		}
		_, err := h.conn.ExecNeo("F", wirePar("F"))
		Check("C34", err != nil && failureCode(err) == "F-run F", "a recorded session gives the failures of the server")
		if !again {
			h.one("Q")
		}
		rows, err := h.conn.QueryNeo("Q", p)
		Check("C34", err == nil, "a recorded session gives the results of the server")
		for i := 0; i < 2; i++ {
			row, _, err := rows.NextNeo()
			Check("C34", err == nil, "a recorded session gives the results of the server")
			checkRow(row, "Q", i)
		}
		_, _, err = rows.NextNeo()
		Check("C34", err == io.EOF, "a recorded session gives the results of the server")
		rows.Close()
	default:
		text := []string{"A", "B"}
		pars := []map[string]interface{}{wirePar("A"), nil}
		if !again {
			h.expect(text, pars)
		}
		rs, err := h.conn.ExecPipeline(text, pars...)
		Check("C34", err == nil && len(rs) == 2, "a recorded session gives the results of the server")
		tx, err := h.conn.Begin()
		Check("C34", err == nil, "a recorded session gives the results of the server")
		Check("C34", tx.Commit() == nil, "a recorded session gives the results of the server")
	}
}
