// Package serverprop checks a running zkserver from outside: it starts the
// built program and talks to it over the network as any client could.
package serverprop

import (
	"bytes"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver/socketapi"
	xdr "github.com/davecgh/go-xdr/xdr2"

	"zkcverif/hz"
)

func TestMain(m *testing.M) { hz.Main(m) }

type ID = [zkidentity.IdentitySize]byte

const (
	tagDepth = 32
	maxMsg   = 263168
)

// options of a server.
type options struct {
	Policy    string // yes, no, token
	Directory bool
	Identify  bool
	MOTD      string
	Extra     string // more configuration lines
}

// server is a running zkserver with its own directory.
type server struct {
	t    hz.Fataler
	opt  options
	dir  string
	addr string
	pub  *zkidentity.PublicIdentity
	cmd  *exec.Cmd
	log  *lockedBuf
	done chan struct{}
	err  error
	stop bool
}

type lockedBuf struct {
	sync.Mutex
	b bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.Lock()
	defer l.Unlock()
	if l.b.Len() > 1<<22 {
		return len(p), nil
	}
	return l.b.Write(p)
}

func (l *lockedBuf) String() string {
	l.Lock()
	defer l.Unlock()
	return l.b.String()
}

func yesno(b bool) string {
	if b {
		return "yes"
	}
	return "no"
}

func freeAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	hz.Must(err)
	defer l.Close()
	return l.Addr().String()
}

// startServer makes a directory and runs a server in it.
func startServer(t hz.Fataler, opt options) *server {
	s := &server{t: t, opt: opt, dir: hz.TempDir(), addr: freeAddr()}
	s.start()
	return s
}

func (s *server) start() {
	bin := os.Getenv("HZ_BIN_ZKSERVER")
	if bin == "" {
		hz.Infra("no zkserver binary")
	}
	if s.opt.Policy == "" {
		s.opt.Policy = "yes"
	}
	hz.Must(os.WriteFile(filepath.Join(s.dir, "motd"), []byte(s.opt.MOTD), 0600))
	conf := filepath.Join(s.dir, "zkserver.conf")
	deadline := time.Now().Add(2 * hz.WaitLimit)
	for {
		hz.Must(os.WriteFile(conf, []byte(fmt.Sprintf(`root = %s
users = %s/home
listen = %s
allowidentify = %s
createpolicy = %s
directory = %s
motd = %s/motd
%s
[log]
logfile = %s/zkserver.log
`, s.dir, s.dir, s.addr, yesno(s.opt.Identify), s.opt.Policy, yesno(s.opt.Directory), s.dir, s.opt.Extra, s.dir)), 0600))
		s.log = &lockedBuf{}
		s.cmd = exec.Command(bin, "-cfg", conf)
		s.cmd.Dir = s.dir
		s.cmd.Env = append(os.Environ(), "HOME="+s.dir, "GORACE=halt_on_error=1 exitcode=66")
		s.cmd.Stdout, s.cmd.Stderr = s.log, s.log
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		hz.Must(s.cmd.Start())
		s.done = make(chan struct{})
		s.stop = false
		go func(cmd *exec.Cmd, done chan struct{}) {
			s.err = cmd.Wait()
			close(done)
		}(s.cmd, s.done)
		for time.Now().Before(deadline) {
			select {
			case <-s.done:
			default:
				c, err := net.DialTimeout("tcp", s.addr, time.Second)
				if err == nil {
					c.Close()
					if s.ours() {
						s.loadID()
						return
					}
				}
				time.Sleep(3 * time.Millisecond)
				continue
			}
			break
		}
		select {
		case <-s.done:
			out := s.log.String()
			if strings.Contains(out, "address already in use") {
				s.addr = freeAddr()
				continue
			}
			s.t.Fatalf("the server does not start: %v\n%s", s.err, hz.Trim(out, 3000))
		default:
			s.kill()
			hz.Infra("server did not come up: %s", hz.Trim(s.log.String(), 2000))
		}
	}
}

// ours: the one that answers has our certificate.
func (s *server) ours() bool {
	c, err := s.dial()
	if err != nil {
		return false
	}
	defer c.Close()
	pem, err := os.ReadFile(filepath.Join(s.dir, "zkserver.crt"))
	if err != nil {
		return false
	}
	kp, err := os.ReadFile(filepath.Join(s.dir, "zkserver.key"))
	if err != nil {
		return false
	}
	cert, err := tls.X509KeyPair(pem, kp)
	if err != nil {
		return false
	}
	cs := c.ConnectionState()
	return len(cs.PeerCertificates) == 1 && bytes.Equal(cs.PeerCertificates[0].Raw, cert.Certificate[0])
}

func (s *server) loadID() {
	b, err := os.ReadFile(filepath.Join(s.dir, "zkserver.id"))
	hz.Must(err)
	f, err := zkidentity.UnmarshalFullIdentity(b)
	hz.Must(err)
	s.pub = &f.Public
}

// kill ends the server without warning.
func (s *server) kill() {
	s.stop = true
	s.cmd.Process.Kill()
	<-s.done
}

func (s *server) restart() {
	s.kill()
	s.start()
}

func (s *server) close() {
	if s.cmd != nil {
		s.kill()
	}
	hz.RemoveAll(s.dir)
}

// alive fails when the server died.
func (s *server) alive(t hz.Fataler, what string) {
	select {
	case <-s.done:
		if !s.stop {
			t.Fatalf("the server died %s: %v\n%s", what, s.err, firstTrace(s.log.String()))
		}
	default:
	}
}

var traceRE = regexp.MustCompile(`(?m)^(panic:|fatal error:|WARNING: DATA RACE)`)

func firstTrace(s string) string {
	if m := traceRE.FindStringIndex(s); m != nil {
		s = s[m[0]:]
	}
	return hz.Trim(s, 3000)
}

func (s *server) dial() (*tls.Conn, error) {
	return tls.DialWithDialer(&net.Dialer{Timeout: 10 * time.Second}, "tcp", s.addr,
		&tls.Config{InsecureSkipVerify: true, MinVersion: tls.VersionTLS12})
}

// people

var (
	pplMtx sync.Mutex
	pool   []*zkidentity.FullIdentity
)

// person returns the i-th identity of this process; with a nick of its own.
func person(i int) *zkidentity.FullIdentity {
	pplMtx.Lock()
	defer pplMtx.Unlock()
	for len(pool) <= i {
		f, err := zkidentity.New(fmt.Sprint("Person ", len(pool)), fmt.Sprint("p", len(pool)))
		hz.Must(err)
		pool = append(pool, f)
	}
	return pool[i]
}

// create asks for an account on a new connection.
func (s *server) create(f *zkidentity.FullIdentity, token string) (string, error) {
	c, err := s.dial()
	if err != nil {
		return "", err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(hz.WaitLimit))
	return createOn(c, f.Public, token)
}

func createOn(c net.Conn, p zkidentity.PublicIdentity, token string) (string, error) {
	var b bytes.Buffer
	_, err := xdr.Marshal(&b, rpc.InitialCmdCreateAccount)
	hz.Must(err)
	_, err = xdr.Marshal(&b, rpc.CreateAccount{Token: token, PublicIdentity: p})
	hz.Must(err)
	if _, err := c.Write(b.Bytes()); err != nil {
		return "", err
	}
	var r rpc.CreateAccountReply
	if _, err := xdr.Unmarshal(c, &r); err != nil {
		return "", err
	}
	return r.Error, nil
}

// mustCreate makes an account on a server that allows it.
func (s *server) mustCreate(t hz.Fataler, f *zkidentity.FullIdentity) {
	e, err := s.create(f, "")
	if err != nil || e != "" {
		s.alive(t, "while creating an account")
		t.Fatalf("cannot create an account: %q, %v", e, err)
	}
}

var errTooLarge = errors.New("message too large")

var errUnwelcome = errors.New("unwelcome")

// conn is an established session of a client.
type conn struct {
	me      *zkidentity.FullIdentity
	kx      *link
	welcome rpc.Welcome

	wmtx sync.Mutex // writes

	mtx     sync.Mutex
	replies map[uint32]chan *reply
	pushes  []*push
	wake    chan struct{}
	dead    bool
	err     error
	closed  chan struct{}
	free    chan uint32
}

type reply struct {
	msg  rpc.Message
	body []byte
}

type push struct {
	msg rpc.Message
	p   rpc.Push
}

// open does the whole connection set up. reason is set when the server said
// why it does not want us.
func (s *server) open(f *zkidentity.FullIdentity) (c *conn, reason string, err error) {
	nc, err := s.dial()
	if err != nil {
		return nil, "", err
	}
	return s.openOn(nc, f, maxMsg)
}

func (s *server) openOn(nc net.Conn, f *zkidentity.FullIdentity, max uint) (c *conn, reason string, err error) {
	nc.SetDeadline(time.Now().Add(hz.WaitLimit))
	kx := &link{Conn: nc, max: max}
	if _, err := xdr.Marshal(nc, rpc.InitialCmdSession); err != nil {
		nc.Close()
		return nil, "", err
	}
	err = kx.initiate(f, &s.pub.Key)
	if err != nil {
		nc.Close()
		return nil, "", err
	}
	b, err := kx.Read()
	if err != nil {
		nc.Close()
		return nil, "", err
	}
	br := bytes.NewReader(b)
	var m rpc.Message
	if _, err := xdr.Unmarshal(br, &m); err != nil {
		nc.Close()
		return nil, "", fmt.Errorf("malformed welcome: %v", err)
	}
	switch m.Command {
	case rpc.SessionCmdUnwelcome:
		var u rpc.Unwelcome
		_, err := xdr.Unmarshal(br, &u)
		nc.Close()
		if err != nil {
			return nil, "", fmt.Errorf("malformed unwelcome: %v", err)
		}
		return nil, u.Reason, errUnwelcome
	case rpc.SessionCmdWelcome:
	default:
		nc.Close()
		return nil, "", fmt.Errorf("%q instead of a welcome", m.Command)
	}
	c = &conn{me: f, kx: kx, replies: map[uint32]chan *reply{}, wake: make(chan struct{}, 1), closed: make(chan struct{}), free: make(chan uint32, tagDepth)}
	if _, err := xdr.Unmarshal(br, &c.welcome); err != nil {
		nc.Close()
		return nil, "", fmt.Errorf("malformed welcome: %v", err)
	}
	for i := uint32(0); i < tagDepth; i++ {
		c.free <- i
	}
	nc.SetDeadline(time.Time{})
	go c.reader()
	go c.pinger()
	return c, "", nil
}

// connect retries until a session works: the server first has to notice that
// the previous one is gone.
func (s *server) connect(t hz.Fataler, f *zkidentity.FullIdentity) *conn {
	var last error
	var why string
	deadline := time.Now().Add(hz.WaitLimit)
	for n := 0; time.Now().Before(deadline); n++ {
		c, reason, err := s.open(f)
		if err == nil {
			if err = c.ping(); err == nil {
				return c
			}
			c.close()
		}
		s.alive(t, "while a user connects")
		last, why = err, reason
		time.Sleep(time.Duration(2+n) * time.Millisecond)
	}
	t.Fatalf("user %v cannot connect: %v %v\n%s", f.Public.Nick, last, why, s.tail())
	return nil
}

func (s *server) tail() string {
	b, _ := os.ReadFile(filepath.Join(s.dir, "zkserver.log"))
	if len(b) > 1500 {
		b = b[len(b)-1500:]
	}
	return "server log: ..." + string(b)
}

func (c *conn) reader() {
	for {
		b, err := c.kx.Read()
		if err != nil {
			c.fail(err)
			return
		}
		br := bytes.NewReader(b)
		var m rpc.Message
		if _, err := xdr.Unmarshal(br, &m); err != nil {
			c.fail(fmt.Errorf("malformed message: %v", err))
			return
		}
		if m.Command == rpc.TaggedCmdPush {
			p := &push{msg: m}
			if _, err := xdr.Unmarshal(br, &p.p); err != nil {
				c.fail(fmt.Errorf("malformed push: %v", err))
				return
			}
			c.mtx.Lock()
			c.pushes = append(c.pushes, p)
			c.mtx.Unlock()
			select {
			case c.wake <- struct{}{}:
			default:
			}
			continue
		}
		rest := make([]byte, br.Len())
		br.Read(rest)
		c.mtx.Lock()
		ch := c.replies[m.Tag]
		delete(c.replies, m.Tag)
		c.mtx.Unlock()
		if ch != nil {
			ch <- &reply{m, rest}
		}
	}
}

func (c *conn) fail(err error) {
	c.kx.Close()
	c.mtx.Lock()
	defer c.mtx.Unlock()
	if c.dead {
		return
	}
	c.dead, c.err = true, err
	close(c.closed)
	for _, ch := range c.replies {
		close(ch)
	}
	c.replies = nil
}

func (c *conn) close() { c.fail(errors.New("closed by the client")) }

// pinger keeps the session from timing out.
func (c *conn) pinger() {
	for {
		select {
		case <-c.closed:
			return
		case <-time.After(4 * time.Second):
			c.call(rpc.TaggedCmdPing, rpc.Ping{})
		}
	}
}

// write sends one message; raw bytes follow the header.
func (c *conn) write(m rpc.Message, payload interface{}) error {
	var b bytes.Buffer
	_, err := xdr.Marshal(&b, m)
	hz.Must(err)
	_, err = xdr.Marshal(&b, payload)
	hz.Must(err)
	return c.writeRaw(b.Bytes())
}

func (c *conn) writeRaw(b []byte) error {
	c.wmtx.Lock()
	defer c.wmtx.Unlock()
	if len(b)+16 > maxMsg {
		return errTooLarge
	}
	return c.kx.Write(b)
}

var errDead = errors.New("connection lost")

// call sends a command and waits for the reply with its tag.
func (c *conn) call(cmd string, payload interface{}) (*reply, error) {
	var tag uint32
	select {
	case tag = <-c.free:
	case <-c.closed:
		return nil, errDead
	}
	ch := make(chan *reply, 1)
	c.mtx.Lock()
	if c.dead {
		c.mtx.Unlock()
		return nil, errDead
	}
	c.replies[tag] = ch
	c.mtx.Unlock()
	if err := c.write(rpc.Message{Command: cmd, Tag: tag}, payload); err != nil {
		c.fail(err)
		return nil, errDead
	}
	select {
	case r := <-ch:
		if r == nil {
			return nil, errDead
		}
		c.free <- tag
		return r, nil
	case <-time.After(hz.WaitLimit):
		c.fail(fmt.Errorf("no reply to %v in time", cmd))
		return nil, fmt.Errorf("no reply to %v within %v", cmd, hz.WaitLimit)
	}
}

func (c *conn) ping() error {
	r, err := c.call(rpc.TaggedCmdPing, rpc.Ping{})
	if err != nil {
		return err
	}
	if r.msg.Command != rpc.TaggedCmdPong {
		return fmt.Errorf("reply to ping is %q", r.msg.Command)
	}
	return nil
}

// errRefused: the server answered with an error.
type errRefused struct {
	text string
	code int
}

func (e errRefused) Error() string { return "refused: " + e.text }

// send leaves a message for someone.
func (c *conn) send(to ID, data []byte, clear bool) error {
	if clear {
		r, err := c.call(rpc.TaggedCmdProxy, rpc.Proxy{To: to, Payload: data})
		if err != nil {
			return err
		}
		var p rpc.ProxyReply
		if err := decode(r, rpc.TaggedCmdProxyReply, &p); err != nil {
			return err
		}
		if p.To != to {
			return fmt.Errorf("proxy reply is for %x, sent to %x", p.To[:4], to[:4])
		}
		if p.Error != "" {
			return errRefused{p.Error, 0}
		}
		return nil
	}
	r, err := c.call(rpc.TaggedCmdCache, rpc.Cache{To: to, Payload: data})
	if err != nil {
		return err
	}
	var a rpc.Acknowledge
	if err := decode(r, rpc.TaggedCmdAcknowledge, &a); err != nil {
		return err
	}
	if a.Error != "" {
		return errRefused{a.Error, a.ErrorCode}
	}
	return nil
}

func decode(r *reply, want string, v interface{}) error {
	if r.msg.Command != want {
		return fmt.Errorf("reply is %q, expected %q", r.msg.Command, want)
	}
	_, err := xdr.Unmarshal(bytes.NewReader(r.body), v)
	return err
}

// recv waits for the next push.
func (c *conn) recv(limit time.Duration) *push {
	deadline := time.After(limit)
	for {
		c.mtx.Lock()
		if len(c.pushes) > 0 {
			p := c.pushes[0]
			c.pushes = c.pushes[1:]
			c.mtx.Unlock()
			return p
		}
		dead := c.dead
		c.mtx.Unlock()
		if dead {
			return nil
		}
		select {
		case <-c.wake:
		case <-c.closed:
		case <-deadline:
			return nil
		}
	}
}

func (c *conn) ack(p *push) error {
	return c.write(rpc.Message{Command: rpc.TaggedCmdAcknowledge, Tag: p.msg.Tag}, rpc.Acknowledge{})
}

// isClosed says whether the session ended.
func (c *conn) isClosed() bool {
	select {
	case <-c.closed:
		return true
	default:
		return false
	}
}

// admin sends a command to the administration socket.
func (s *server) admin(cmd string, id string) (string, error) {
	c, err := net.Dial("unix", filepath.Join(s.dir, socketapi.SocketFilename))
	if err != nil {
		return "", err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(hz.WaitLimit))
	je := json.NewEncoder(c)
	if err := je.Encode(socketapi.SocketCommandID{Version: socketapi.SCVersion, Command: cmd}); err != nil {
		return "", err
	}
	if err := je.Encode(socketapi.SocketCommandUserDisable{Identity: id}); err != nil {
		return "", err
	}
	var r socketapi.SocketCommandUserDisableReply
	if err := json.NewDecoder(c).Decode(&r); err != nil {
		return "", err
	}
	return r.Error, nil
}
