package vmodels

import (
	"crypto/tls"
	"database/sql/driver"
	"strings"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	blog "github.com/johnnadratowski/golang-neo4j-bolt-driver/log"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures"
)

// ---------- connection strings ----------

// config is a connection string and what it asks for.
type config struct {
	str      string
	invalid  string // why it has to be refused
	host     string
	timeout  time.Duration
	user     string
	password string
	raw      string // the password as it stands in the string
	tls      bool
	noVerify bool
	cert     string
	key      string
	ca       string
}

func pick(ss ...string) string { return ss[Choose(len(ss))] }

// anyScheme, anyUser and the like choose one part of the connection string.
func (c *config) anyScheme() string {
	s := pick("bolt", "BOLT", "Bolt", "http", "bolts", "neo4j")
	if strings.ToLower(s) != "bolt" {
		c.invalid = "the scheme is not bolt"
	}
	return s
}

func (c *config) anyUser() string {
	switch Choose(7) {
	case 0:
		return ""
	case 5:
		c.user, c.password = SymText("user"), SymText("password")
		c.raw = c.password
		return c.user + ":" + c.password + "@"
	case 1:
		c.user, c.password, c.raw = "u53r", "s3cr3t", "s3cr3t"
		return "u53r:s3cr3t@"
	case 2:
		c.user = "u53r"
		c.invalid = "a user without password"
		return "u53r@"
	case 3:
		c.user = "u53r"
		return "u53r:@"
	case 4:
		c.user, c.password, c.raw = "u5@r", "s3c/r:t", "s3c%2Fr%3At"
		return "u5%40r:s3c%2Fr%3At@"
	}
	c.password, c.raw = "s3cr3t", "s3cr3t"
	return ":s3cr3t@"
}

func (c *config) anyHost() string {
	switch Choose(2) {
	case 0:
		c.host = SymText("host") + pick(":7687", ":7")
	case 1:
		c.host = pick("db.example.org:1", "[::1]:7688")
	}
	return c.host
}

func (c *config) anyTimeout() string {
	c.timeout = 60 * time.Second
	switch Choose(11) {
	case 7:
		n := SymInt("timeout", 1, 1000000000)
		c.timeout = time.Duration(n) * time.Second
		return "timeout=" + SymDec(n)
	case 0:
		c.timeout = 5 * time.Second
		return "timeout=5"
	case 1:
		c.timeout = 86461 * time.Second
		return "timeout=86461"
	case 2:
		c.invalid = "a timeout that is not an integer"
		return "timeout=x"
	case 3:
		c.invalid = "a timeout that is not an integer"
		return "timeout=5s"
	case 4:
		c.invalid = "a timeout that is not an integer"
		return "timeout=1.5"
	case 5:
		c.timeout = 1 * time.Second
		return "timeout=1&other=2"
	case 6:
		c.timeout = 60 * time.Second
		return "other=5"
	case 9:
		c.timeout = 10 * time.Second
		return "timeout=010"
	case 10:
		c.invalid = "a timeout that is not an integer"
		return "timeout=" + pick("0x10", "1_0", "1e1", "5%20")
	}
	return ""
}

func (c *config) anyTLS() string {
	switch Choose(10) {
	case 0:
		c.tls = true
		return "tls=true"
	case 1:
		c.tls = true
		return "tls=TRUE"
	case 2:
		c.tls = true
		return "tls=True"
	case 3:
		c.tls = true
		return "tls=1"
	case 4:
		return "tls=false"
	case 5:
		return "tls=0"
	case 6:
		return "tls=False"
	case 7:
		return "tls=FALSE"
	case 8:
		c.tls = true
		return "tls=tRuE"
	}
	return ""
}

func (c *config) anyVerify() string {
	switch Choose(7) {
	case 0:
		c.noVerify = true
		return "tls_no_verify=true"
	case 1:
		c.noVerify = true
		return "tls_no_verify=1"
	case 2:
		c.noVerify = true
		return "tls_no_verify=TRUE"
	case 3:
		return "tls_no_verify=false"
	case 4:
		return "tls_no_verify=0"
	case 5:
		return "tls_no_verify=False"
	}
	return ""
}

func (c *config) anyFiles() string {
	q := ""
	switch Choose(3) {
	case 0:
		c.cert, c.key = "/"+SymText("cert"), SymText("key")+".pem"
		q = "tls_cert_file=" + c.cert + "&tls_key_file=" + c.key
	case 1:
		c.cert = "/c3rt"
		q = "tls_cert_file=/c3rt"
	}
	if Choose(2) == 0 {
		c.ca = "/" + SymText("ca")
		q = join(q, "tls_ca_cert_file="+c.ca)
	}
	return q
}

func join(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return a + "&" + b
}

func (c *config) build(scheme, user, host, query string) {
	c.str = scheme + "://" + user + host
	if query != "" {
		c.str = c.str + "/?" + query
	}
	Note("connection string " + c.str)
}

func (c *config) dialled() {
	if c.invalid != "" {
		return
	}
	Check("C24,C12", world.timeout == c.timeout, "dialling is bounded by the timeout of the connection string")
	Check("C24", world.network == "tcp", "the network is tcp")
	Check("C24", world.addr == c.host, "the host of the connection string is dialled")
}

// open opens a connection by one of the ways there are.
func (c *config) open() (bolt.Conn, error) {
	cfgTimeout = c.timeout
	world.dialled = c.dialled
	switch Choose(3) {
	case 0:
		Note("OpenNeo")
		return bolt.NewDriver().OpenNeo(c.str)
	case 1:
		Note("Open")
		x, err := bolt.NewDriver().Open(c.str)
		if err != nil {
			return nil, err
		}
		return x.(bolt.Conn), nil
	}
	Note("OpenPool")
	p, err := bolt.NewDriverPool(c.str, 1)
	if err != nil {
		return nil, err
	}
	return p.OpenPool()
}

var initAs int // INIT messages seen

// expectInit states what INIT has to carry.
func (c *config) expectInit() {
	initAs = 0
	OnInit = func(st structures.Structure) {
		initAs++
		f := st.AllFields()
		Check("C23,C04", len(f) == 2, "INIT has two fields")
		name, ok := f[0].(string)
		Check("C04", ok && name != "", "INIT names the client")
		auth, ok := f[1].(map[string]interface{})
		Check("C23,C04", ok, "INIT has an authentication token")
		if c.user == "" {
			Check("C23", auth["scheme"] == "none", "without a user the authentication scheme is none")
			_, hasP := auth["principal"]
			_, hasC := auth["credentials"]
			Check("C23", !hasP && !hasC, "without a user no credentials are sent")
			return
		}
		Check("C23", auth["scheme"] == "basic", "the authentication scheme is basic")
		Check("C23", auth["principal"] == c.user, "the principal is the user of the connection string")
		Check("C23", auth["credentials"] == c.password, "the credentials are the password of the connection string")
		Check("C23", len(auth) == 3, "the authentication token has nothing else")
	}
}

// checkConfig states what opening with this connection string has to do.
func (c *config) checkConfig(conn bolt.Conn, err error) {
	if c.invalid != "" {
		Check("C24", err != nil && world.dials == 0, "a connection string is refused before anything is dialled if "+c.invalid)
		Covered("refused")
		return
	}
	if world.dials > 0 {
		Check("C22", !c.tls || !world.plain, "nothing is dialled without TLS if TLS was asked for")
		Check("C24,C22", world.dials == 1, "opening dials once")
		Check("C22,C24", world.tls == c.tls, "TLS is used exactly when it was asked for")
		Covered("dialled")
	}
	if err != nil {
		Covered("opening failed")
		return
	}
	Check("C24", initAs == 1, "INIT was sent once")
	n := world.nets[len(world.nets)-1]
	Check("C22", n.tls == c.tls, "the connection is a TLS connection exactly when that was asked for")
	Covered("opened")
}

// HConfig decides C24 and the credentials part of C23.
func HConfig() {
	PanicProps("C24")
	BlockProps("C24")
	world = World{script: noFaults | goodHandshake | noCloseFaults | noFailures | noDialFaults}
	c := &config{}
	scheme := c.anyScheme()
	user := c.anyUser()
	c.build(scheme, user, c.anyHost(), c.anyTimeout())
	c.expectInit()
	conn, err := c.open()
	c.checkConfig(conn, err)
	if c.invalid == "" {
		Check("C24", err == nil, "a valid connection string is accepted")
	}
}

// HTLS decides C22.
func HTLS() {
	PanicProps("C22")
	BlockProps("C22")
	world = World{script: noFaults | goodHandshake | noCloseFaults | noFailures}
	certFault = false
	c := &config{host: "h0st:7687", user: "u53r", password: "s3cr3t", timeout: 60 * time.Second}
	q := c.anyTLS()
	v := c.anyVerify()
	f := c.anyFiles()
	if Choose(2) == 0 {
		q = join(q, join(v, f))
	} else {
		c.timeout = 7 * time.Second
		q = join(f, join("timeout=7", join(v, q)))
	}
	c.build("bolt", "u53r:s3cr3t@", c.host, q)
	c.expectInit()
	conn, err := c.open()
	c.checkConfig(conn, err)
	c.checkTLS(err)
}

func (c *config) checkTLS(err error) {
	if !c.tls {
		if world.dials > 0 {
			Check("C22", world.tlsConf == nil, "without a TLS request a plain connection is used")
		}
		return
	}
	if certFault {
		Check("C22", err != nil, "a certificate file that cannot be read makes opening fail")
		Covered("file not readable")
	}
	if c.cert != "" && c.key == "" {
		Check("C22", err != nil, "a client certificate without a key makes opening fail")
	}
	if world.dials == 0 {
		Check("C22", err != nil, "opening without dialling fails")
		return
	}
	c.checkConf(world.tlsConf)
	Covered("TLS")
}

// checkConf: the configuration of the TLS connection is the one asked for.
func (c *config) checkConf(conf *tls.Config) {
	Check("C22", conf != nil, "TLS is used with a configuration")
	Check("C22", conf.InsecureSkipVerify == c.noVerify, "certificate verification is disabled exactly when that was asked for")
	Check("C22", conf.ServerName == "" || conf.ServerName == "h0st", "the certificate is verified for the host of the connection string")
	if c.cert != "" {
		Check("C22", len(conf.Certificates) == 1, "the client certificate is used")
		Check("C22", len(conf.Certificates[0].Certificate) == 1 && string(conf.Certificates[0].Certificate[0]) == "cert "+c.cert+" key "+c.key, "the client certificate is the one configured")
	} else {
		Check("C22", len(conf.Certificates) == 0, "no client certificate is used if none was configured")
	}
	n := 0
	for _, p := range poolFiles {
		if p.p == conf.RootCAs {
			n++
			if c.ca != "" {
				Check("C22", string(p.data) == "file "+c.ca, "the CA certificates are the ones of the configured file")
			} else {
				Check("C22", string(p.data) == "system", "without a CA file the system's certificates are used")
			}
		}
	}
	if c.ca != "" {
		Check("C22", conf.RootCAs != nil && n == 1, "the configured CA file is used")
	} else {
		Check("C22", conf.RootCAs == nil || n == 1, "without a CA file the system's certificates are used")
	}
}

// ---------- credentials ----------

func (c *config) secret(text, where string) {
	if c.password == "" {
		return
	}
	Check("C23", !Contains(text, c.password) && !Contains(text, c.raw), "the password does not get into "+where)
	Check("C23", !Contains(text, c.str), "the connection string does not get into "+where)
}

// HSecrets decides C23: with all logging on, nothing of the password gets into log or error texts.
func HSecrets() {
	PanicProps("C23")
	BlockProps("C23")
	world = World{}
	c := &config{}
	scheme := "bolt"
	if Choose(4) == 0 {
		scheme = "http"
	}
	user := c.anyUser()
	c.invalid = "not looked at here"
	host := pick("h0st:7687", "h0st:p0rt", "h 0st")
	c.build(scheme, user, host, pick("", "timeout=x", "tls=true", "tls=true&tls_ca_cert_file=/c4&tls_cert_file=/c3rt&tls_key_file=/k3y"))
	c.timeout = 60 * time.Second
	blog.SetLevel("trace")
	OnLog = func(l Logged) {
		c.secret(l.text, "log output")
		Covered("logged")
	}
	OnInit = nil
	OnRequest = func(st structures.Structure) {
		if st.Signature() == 0x01 {
			return
		}
		c.secret(FmtSprintf("%#v", st), "messages other than INIT")
		for _, f := range st.AllFields() {
			c.secret(FmtSprintf("%#v", f), "messages other than INIT")
		}
	}
	conn, err := c.open()
	if err != nil {
		c.secret(err.Error(), "error texts")
		Covered("opening failed")
		return
	}
	Covered("opened")
	world.script = noResetFail | oneRecord | noCloseFaults
	n := world.nets[0]
	n.startCall()
	switch Choose(5) {
	case 0:
		Note("ExecNeo")
		n.srv.want, n.srv.params = []string{"q"}, []map[string]interface{}{nil}
		_, err = conn.ExecNeo("q", nil)
	case 1:
		Note("QueryNeoAll")
		n.srv.want, n.srv.params = []string{"q"}, []map[string]interface{}{nil}
		_, _, _, err = conn.QueryNeoAll("q", nil)
	case 2:
		Note("Begin")
		_, err = conn.Begin()
	case 3:
		Note("ExecPipeline")
		n.srv.want, n.srv.params = []string{"q"}, []map[string]interface{}{nil}
		_, err = conn.ExecPipeline([]string{"q"}, nil)
	case 4:
		Note("QueryPipeline")
		n.srv.want, n.srv.params = []string{"q"}, []map[string]interface{}{nil}
		_, err = conn.QueryPipeline([]string{"q"}, nil)
	}
	if err != nil {
		c.secret(err.Error(), "error texts")
		Covered("call failed")
	}
	if err := conn.Close(); err != nil {
		c.secret(err.Error(), "error texts")
	}
}

var _ driver.Conn

// ---------- logging ----------

// HLog decides C28.
func HLog() {
	PanicProps("C28")
	BlockProps("C28")
	var got []Logged
	OnLog = func(l Logged) { got = append(got, l) }
	want := 0 // none, error, info, trace
	if Choose(8) == 0 {
		Note("no level set")
		Check("C28", blog.GetLevel() == blog.NoneLevel, "the default level is none")
	} else {
		if Choose(2) == 0 {
			blog.SetLevel(pick("trace", "error", "x"))
		}
		name := ""
		switch Choose(4) {
		case 0:
			name, want = pick("trace", "TRACE", "Trace", "tRaCe"), 3
		case 1:
			name, want = pick("info", "INFO", "Info", "iNFO"), 2
		case 2:
			name, want = pick("error", "ERROR", "Error", "eRRor"), 1
		case 3:
			name, want = pick("", "none", "NONE", "debug", "warn", "traces", "errors", "inf", "0", "3", "fatal", " info"), 0
		}
		Note("SetLevel " + name)
		blog.SetLevel(name)
		Check("C28", int(blog.GetLevel()) == want, "the level is the one named")
	}
	own := LogNew(nil, "", 0)
	over := Choose(2) == 0
	k := Choose(6)
	class := 0
	text := "m3ssage 17"
	var lg interface{}
	switch k {
	case 0:
		class = 3
		if over {
			blog.TraceLog = own
		}
		lg = blog.TraceLog
		blog.Trace("m3ssage", 17)
		Note("Trace")
	case 1:
		class = 3
		if over {
			blog.TraceLog = own
		}
		lg = blog.TraceLog
		Note("Tracef")
		blog.Tracef("m3ssage %d", 17)
	case 2:
		class = 2
		if over {
			blog.InfoLog = own
		}
		lg = blog.InfoLog
		Note("Info")
		blog.Info("m3ssage", 17)
	case 3:
		class = 2
		if over {
			blog.InfoLog = own
		}
		lg = blog.InfoLog
		Note("Infof")
		blog.Infof("m3ssage %d", 17)
	case 4:
		class = 1
		if over {
			blog.ErrorLog = own
		}
		lg = blog.ErrorLog
		Note("Error")
		blog.Error("m3ssage", 17)
	case 5:
		class = 1
		if over {
			blog.ErrorLog = own
		}
		lg = blog.ErrorLog
		Note("Errorf")
		blog.Errorf("m3ssage %d", 17)
	}
	if want < class {
		Check("C28", len(got) == 0, "nothing is written when the level does not include the class")
		Covered("silent")
		return
	}
	Check("C28", len(got) == 1, "exactly one message is written when the level includes the class")
	Check("C28", interface{}(got[0].logger) == lg, "the message is written to the logger of its class")
	Check("C28", Contains(got[0].text, text), "the message is the one given")
	Covered("written")
}
