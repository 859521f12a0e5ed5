//go:build go1.21

package main

// The laboratory of the client checks: real ZKC instances (their own root
// directories, windows, scheduler, network session) that talk over loopback
// TLS to a store-and-forward relay that stands in for zkserver. The relay is
// the untrusted party of the protocol, so checks can also make it drop
// connections, refuse, or inject what an attacker could inject.

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/hex"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"zkcverif/hz"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/ttk"
	"github.com/companyzero/zkc/debug"
	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/tools"
	"github.com/companyzero/zkc/zkclient/addressbook"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"github.com/nsf/termbox-go"
)

type ident = [32]byte

var identityPool struct {
	sync.Mutex
	ids map[string]*zkidentity.FullIdentity
}

// poolIdentity returns a (process wide) identity with this nick; salt tells
// several identities of one nick apart.
func poolIdentity(nick string, salt int) *zkidentity.FullIdentity {
	identityPool.Lock()
	defer identityPool.Unlock()
	if identityPool.ids == nil {
		identityPool.ids = make(map[string]*zkidentity.FullIdentity)
	}
	k := fmt.Sprintf("%d/%s", salt, nick)
	id := identityPool.ids[k]
	if id == nil {
		var err error
		id, err = zkidentity.New("name of "+nick, nick)
		hz.Must(err)
		id.Public.Name, id.Public.Nick = "name of "+nick, nick
		hz.Must(id.RecalculateDigest())
		identityPool.ids[k] = id
	}
	c := *id
	return &c
}

type item struct {
	from      ident
	payload   []byte
	cleartext bool
	received  int64
	seq       int
	probe     bool
}

type ruser struct {
	id    *zkidentity.PublicIdentity
	queue []*item
	conn  *rconn
}

type rconn struct {
	r    *relay
	u    *ruser
	kx   *session.KX
	wm   sync.Mutex
	out  map[uint32]*item
	next uint32
	dead bool
}

type frame struct {
	to   ident
	from ident
	size int
}

// relay is the stand-in of zkserver.
type relay struct {
	mtx       sync.Mutex
	ln        net.Listener
	addr      string
	cert      []byte
	id        *zkidentity.FullIdentity
	users     map[ident]*ruser
	conns     []*rconn
	blobs     map[string][]byte
	directory bool
	depth     int
	chunk     uint64
	maxAttach uint64
	seq       int
	events    int
	accepted  []frame // Cache commands accepted, in order
	bad       []string
	hold      map[ident]bool // do not push to these for now
	// hooks, called with the lock held
	onCache func(c *rconn, from ident, ca *rpc.Cache) (drop bool)
	onFind  func(nick string) *rpc.IdentityFindReply
	onReply func(c *rconn, payload interface{}) interface{}             // what the server answers
	onProps func(c *rconn, p []rpc.ServerProperty) []rpc.ServerProperty // what it says about itself
	cutIn   int                                                         // when >0: cut the connection of cutWho at its n-th command
	cutWho  ident
	cutMode int     // 0: before handling, 1: after handling without reply, 2: after the reply
	cuts    []ident // whose connections were cut
	wg      sync.WaitGroup
	closed  bool
}

var relayIdentity = sync.OnceValue(func() *zkidentity.FullIdentity {
	id, err := zkidentity.New("relay", "relay")
	hz.Must(err)
	return id
})

var relayCert = sync.OnceValues(func() (tls.Certificate, []byte) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	hz.Must(err)
	tpl := x509.Certificate{SerialNumber: big.NewInt(1), NotAfter: time.Now().Add(240 * time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, &tpl, &tpl, &k.PublicKey, k)
	hz.Must(err)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}, der
})

func newRelay() *relay {
	r := &relay{
		id:        relayIdentity(),
		users:     make(map[ident]*ruser),
		blobs:     make(map[string][]byte),
		hold:      make(map[ident]bool),
		depth:     10,
		chunk:     64,
		maxAttach: 1 << 20,
	}
	crt, der := relayCert()
	r.cert = der
	ln, err := tls.Listen("tcp", "127.0.0.1:0", &tls.Config{
		Certificates: []tls.Certificate{crt},
		MinVersion:   tls.VersionTLS12,
	})
	hz.Must(err)
	r.ln = ln
	r.addr = ln.Addr().String()
	go r.serve()
	return r
}

func (r *relay) close() {
	r.mtx.Lock()
	r.closed = true
	r.ln.Close()
	for _, c := range r.conns {
		c.dead = true
		c.kx.Close()
	}
	r.mtx.Unlock()
	r.wg.Wait()
}

func (r *relay) add(id *zkidentity.PublicIdentity) *ruser {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	u := r.users[id.Identity]
	if u == nil {
		u = &ruser{id: id}
		r.users[id.Identity] = u
	}
	return u
}

func (r *relay) serve() {
	for {
		conn, err := r.ln.Accept()
		if err != nil {
			return
		}
		r.wg.Add(1)
		go func() {
			defer r.wg.Done()
			r.handle(conn)
		}()
	}
}

func (r *relay) complain(format string, args ...interface{}) {
	r.bad = append(r.bad, fmt.Sprintf(format, args...))
}

type peekConn struct {
	net.Conn
	br *bufio.Reader
}

func (p *peekConn) Read(b []byte) (int, error) { return p.br.Read(b) }

var handshake sync.Mutex

func (r *relay) handle(conn net.Conn) {
	defer conn.Close()
	var cmd string
	_, err := xdr.Unmarshal(conn, &cmd)
	if err != nil || cmd != rpc.InitialCmdSession {
		return
	}
	// The ephemeral keys of the session package belong to the process, and
	// here both ends live in one process: handshakes are made one at a time
	// (connect), and the relay takes part once the client has made its keys.
	pc := &peekConn{Conn: conn, br: bufio.NewReaderSize(conn, 1<<14)}
	pc.SetReadDeadline(time.Now().Add(20 * time.Second))
	if _, err := pc.br.Peek(sntrup4591761.CiphertextSize + 100); err != nil {
		return
	}
	pc.SetReadDeadline(time.Time{})
	kx := &session.KX{
		Conn:           pc,
		MaxMessageSize: 1 << 20,
		OurPublicKey:   &r.id.Public.Key,
		OurPrivateKey:  &r.id.PrivateKey,
	}
	if err := kx.Respond(); err != nil {
		return
	}
	cid, _ := kx.TheirIdentity().([32]byte)
	r.mtx.Lock()
	u := r.users[cid]
	if u == nil || r.closed {
		r.mtx.Unlock()
		return
	}
	if u.conn != nil {
		u.conn.dead = true
		u.conn.kx.Close()
	}
	c := &rconn{r: r, u: u, kx: kx, out: make(map[uint32]*item)}
	u.conn = c
	r.conns = append(r.conns, c)
	dir := r.directory
	r.events++
	props := []rpc.ServerProperty{
		{Key: rpc.PropTagDepth, Value: strconv.Itoa(r.depth), Required: true},
		{Key: rpc.PropMaxAttachmentSize, Value: strconv.FormatUint(r.maxAttach, 10), Required: true},
		{Key: rpc.PropMaxChunkSize, Value: strconv.FormatUint(r.chunk, 10), Required: true},
		{Key: rpc.PropMaxMsgSize, Value: strconv.FormatUint(1<<20, 10), Required: true},
		{Key: rpc.PropServerTime, Value: strconv.FormatInt(time.Now().Unix(), 10), Required: true},
		{Key: rpc.PropDirectory, Value: strconv.FormatBool(dir), Required: true},
	}
	if r.onProps != nil {
		props = r.onProps(c, props)
	}
	r.mtx.Unlock()
	err = c.write(rpc.Message{Command: rpc.SessionCmdWelcome}, rpc.Welcome{
		Version: rpc.ProtocolVersion, ServerTime: time.Now().Unix(), Properties: props})
	if err == nil {
		r.mtx.Lock()
		r.pump(u)
		r.mtx.Unlock()
		c.readLoop()
	}
	r.mtx.Lock()
	c.dead = true
	if u.conn == c {
		u.conn = nil
	}
	r.events++
	r.mtx.Unlock()
}

func (c *rconn) write(m rpc.Message, payload interface{}) error {
	var bb bytes.Buffer
	m.TimeStamp = time.Now().Unix()
	if _, err := xdr.Marshal(&bb, m); err != nil {
		return err
	}
	if b, ok := payload.([]byte); ok {
		bb.Write(b)
	} else if _, err := xdr.Marshal(&bb, payload); err != nil {
		return err
	}
	c.wm.Lock()
	defer c.wm.Unlock()
	c.kx.SetWriteDeadline(time.Now().Add(20 * time.Second))
	return c.kx.Write(bb.Bytes())
}

// pump pushes what is queued for u and not outstanding yet; lock held.
func (r *relay) pump(u *ruser) {
	c := u.conn
	if c == nil || c.dead || r.hold[u.id.Identity] {
		return
	}
	for _, it := range u.queue {
		if len(c.out) >= r.depth {
			return
		}
		outstanding := false
		for _, o := range c.out {
			if o == it {
				outstanding = true
			}
		}
		if outstanding {
			continue
		}
		for c.out[c.next] != nil {
			c.next = (c.next + 1) % uint32(r.depth)
		}
		tag := c.next
		c.next = (c.next + 1) % uint32(r.depth)
		c.out[tag] = it
		r.events++
		err := c.write(rpc.Message{Command: rpc.TaggedCmdPush, Tag: tag, Cleartext: it.cleartext},
			rpc.Push{From: it.from, Received: it.received, Payload: it.payload})
		if err != nil {
			return
		}
	}
}

// enqueue stores a message for a user, as the server would; lock held.
func (r *relay) enqueue(from, to ident, payload []byte, cleartext bool) bool {
	u := r.users[to]
	if u == nil {
		return false
	}
	r.seq++
	r.events++
	u.queue = append(u.queue, &item{from: from, payload: payload, cleartext: cleartext,
		received: time.Now().Unix(), seq: r.seq})
	r.pump(u)
	return true
}

// inject makes the relay deliver a message it made up.
func (r *relay) inject(from, to ident, payload []byte, cleartext bool) {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	r.enqueue(from, to, payload, cleartext)
}

func (c *rconn) readLoop() {
	r := c.r
	for {
		b, err := c.kx.Read()
		if err != nil {
			return
		}
		var m rpc.Message
		br := bytes.NewReader(b)
		if _, err := xdr.Unmarshal(br, &m); err != nil {
			r.mtx.Lock()
			r.complain("client sent a bad header")
			r.mtx.Unlock()
			return
		}
		r.mtx.Lock()
		r.events++
		if c.dead {
			r.mtx.Unlock()
			return
		}
		cut := false
		if it := c.out[m.Tag]; m.Command == rpc.TaggedCmdAcknowledge && it != nil && it.probe {
			delete(c.out, m.Tag)
			r.events--
			r.pump(c.u)
			r.mtx.Unlock()
			continue
		}
		if r.cutIn > 0 && c.u.id.Identity == r.cutWho && m.Command != rpc.TaggedCmdPing {
			r.cutIn--
			cut = r.cutIn == 0
		}
		if cut && r.cutMode == 0 {
			r.cuts = append(r.cuts, c.u.id.Identity)
			r.mtx.Unlock()
			return
		}
		cm := m
		reply, payload, ok := r.command(c, cm, br)
		if cut {
			r.cuts = append(r.cuts, c.u.id.Identity)
		}
		if cut && r.cutMode == 1 || !ok {
			r.mtx.Unlock()
			return
		}
		if reply.Command != "" {
			reply.Tag = m.Tag
			if r.onReply != nil {
				payload = r.onReply(c, payload)
			}
			if err := c.write(reply, payload); err != nil {
				r.mtx.Unlock()
				return
			}
		}
		if cut {
			r.mtx.Unlock()
			return
		}
		r.mtx.Unlock()
	}
}

// command handles one command; lock held. ok is false when the session must
// end.
func (r *relay) command(c *rconn, m rpc.Message, br *bytes.Reader) (reply rpc.Message, payload interface{}, ok bool) {
	ok = true
	switch m.Command {
	case rpc.TaggedCmdPing:
		reply.Command = rpc.TaggedCmdPong
		payload = rpc.Pong{}

	case rpc.TaggedCmdCache:
		var ca rpc.Cache
		if _, err := xdr.Unmarshal(br, &ca); err != nil {
			r.complain("bad cache")
			return reply, nil, false
		}
		reply.Command = rpc.TaggedCmdAcknowledge
		payload = rpc.Acknowledge{}
		if r.onCache != nil && r.onCache(c, c.u.id.Identity, &ca) {
			return
		}
		if !r.enqueue(c.u.id.Identity, ca.To, ca.Payload, false) {
			payload = rpc.Acknowledge{Error: "unknown recipient"}
			return
		}
		r.accepted = append(r.accepted, frame{from: c.u.id.Identity, to: ca.To, size: len(ca.Payload)})

	case rpc.TaggedCmdProxy:
		var p rpc.Proxy
		if _, err := xdr.Unmarshal(br, &p); err != nil {
			return reply, nil, false
		}
		reply.Command = rpc.TaggedCmdProxyReply
		pr := rpc.ProxyReply{To: p.To}
		if !r.enqueue(c.u.id.Identity, p.To, p.Payload, true) {
			pr.Error = "not found"
		}
		payload = pr

	case rpc.TaggedCmdAcknowledge:
		it := c.out[m.Tag]
		if it == nil {
			// zkserver ends such a session
			r.complain("%s acknowledged tag %d, which is not outstanding", c.u.id.Nick, m.Tag)
			return reply, nil, false
		}
		delete(c.out, m.Tag)
		for i, q := range c.u.queue {
			if q == it {
				c.u.queue = append(c.u.queue[:i:i], c.u.queue[i+1:]...)
				break
			}
		}
		r.pump(c.u)

	case rpc.TaggedCmdRendezvous:
		var rv rpc.Rendezvous
		if _, err := xdr.Unmarshal(br, &rv); err != nil {
			return reply, nil, false
		}
		pin := fmt.Sprintf("%06d", len(r.blobs)+100)
		r.blobs[pin] = rv.Blob
		reply.Command = rpc.TaggedCmdRendezvousReply
		payload = rpc.RendezvousReply{Token: pin}

	case rpc.TaggedCmdRendezvousPull:
		var rp rpc.RendezvousPull
		if _, err := xdr.Unmarshal(br, &rp); err != nil {
			return reply, nil, false
		}
		reply.Command = rpc.TaggedCmdRendezvousPullReply
		b, found := r.blobs[rp.Token]
		if !found {
			payload = rpc.RendezvousPullReply{Error: "not found", Token: rp.Token}
		} else {
			delete(r.blobs, rp.Token)
			payload = rpc.RendezvousPullReply{Token: rp.Token, Blob: b}
		}

	case rpc.TaggedCmdIdentityFind:
		var f rpc.IdentityFind
		if _, err := xdr.Unmarshal(br, &f); err != nil {
			return reply, nil, false
		}
		reply.Command = rpc.TaggedCmdIdentityFindReply
		if r.onFind != nil {
			if fr := r.onFind(f.Nick); fr != nil {
				payload = *fr
				return
			}
		}
		fr := rpc.IdentityFindReply{Nick: f.Nick, Error: "not found"}
		for _, u := range r.users {
			if u.id.Nick == f.Nick {
				fr.Error = ""
				fr.Identity = *u.id
			}
		}
		payload = fr

	default:
		r.complain("unknown command %q", m.Command)
		return reply, nil, false
	}
	return
}

// node is one client.
type node struct {
	r    *relay
	id   *zkidentity.FullIdentity
	root string
	top  string // what is created and removed with it
	z    *ZKC
	gen  int

	aliases map[ident]string
}

func (n *node) nick() string   { return n.id.Public.Nick }
func (n *node) ident() ident   { return n.id.Public.Identity }
func (n *node) String() string { return n.id.Public.Nick }

func labSettings(root string) *Settings {
	return &Settings{
		Home:           root,
		Root:           root,
		TLSVerbose:     true,
		LogFile:        filepath.Join(root, "zkclient.log"),
		TimeFormat:     "T",
		LongTimeFormat: "T",
		NickColor:      WHITEBOLD,
		GcColor:        GREENBOLD,
		PmColor:        CYANBOLD,
	}
}

// newNode creates the files of a new client; start brings it to life.
func newNode(r *relay, id *zkidentity.FullIdentity) *node {
	// deep enough that names which lead out of it stay in scratch space
	n := &node{r: r, id: id, top: hz.TempDir()}
	n.root = filepath.Join(n.top, "1", "2", "3", "home")
	hz.Must(os.MkdirAll(n.root, 0700))
	pub := id.Public
	r.add(&pub)
	z := &ZKC{settings: labSettings(n.root), id: id, serverAddress: r.addr}
	hz.Must(os.MkdirAll(filepath.Dir(filepath.Join(n.root, tools.ZKCServerFilename)), 0700))
	rid := r.id.Public
	hz.Must(z.saveServerRecord(&rid, r.cert))
	return n
}

// start mirrors the start of the program, without a terminal.
func (n *node) start() {
	z := &ZKC{
		conversation: make([]*conversation, 1, 16),
		ab:           addressbook.New(),
		groups:       make(map[string]rpc.GroupList),
		lastDuration: 60 * time.Second,
		msgSize:      uint(rpc.PropMaxMsgSizeDefault),
	}
	z.settings = labSettings(n.root)
	for _, d := range []string{inboundDir, logsDir, spoolDir, groupchatDir} {
		hz.Must(os.MkdirAll(filepath.Join(n.root, d), 0700))
	}
	var err error
	z.Debug, err = debug.New(z.settings.LogFile, z.settings.TimeFormat)
	hz.Must(err)
	z.Register(idZKC, "")
	z.Register(idRPC, "[RPC]")
	z.Register(idSnd, "[SND]")
	server, err := inidb.New(filepath.Join(n.root, tools.ZKCServerFilename), false, 10)
	hz.Must(err)
	hz.Must(z.parseMyServer(server))
	hz.Must(z.parseMyIdentity(server))
	z.mw = &mainWindow{quitC: make(chan struct{}), zkc: z}
	z.ttkMW = ttk.NewWindow(z.mw)
	z.kw = &kxWindow{zkc: z}
	z.ttkKW = ttk.NewWindow(z.kw)
	z.kaw = &kxAcceptWindow{zkc: z}
	z.ttkKAW = ttk.NewWindow(z.kaw)
	if err := z.loadIdentities(); err != nil {
		z.PrintfT(0, "loadIdentities: %v", err)
	}
	if err := z.loadGroupchat(); err != nil {
		z.PrintfT(0, "loadGroupchat: %v", err)
	}
	z.done = make(chan struct{})
	z.scheduler()
	z.mw.welcomeMessage()
	z.focus(0)
	n.z = z
	n.gen++
}

func (n *node) online() bool { return n.z.isOnline() }

// connect goes online the way /online does, retrying while the old session
// is still being torn down.
func (n *node) connect(t hz.Fataler) {
	n.z.Lock()
	n.z.offline = false
	n.z.Unlock()
	var err error
	for i := 0; i < 200; i++ {
		handshake.Lock()
		err = n.z.goOnlineAndPrint()
		handshake.Unlock()
		if err == nil {
			return
		}
		if n.online() {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatalf("%v cannot go online: %v", n, err)
}

// disconnect ends the session, as /offline does, and waits for it.
func (n *node) disconnect() {
	n.z.Lock()
	n.z.offline = true
	if n.z.online {
		n.z.kx.Close()
	}
	n.z.Unlock()
	for i := 0; i < 5000 && n.online(); i++ {
		time.Sleep(time.Millisecond)
	}
}

// stop ends the client: what is on disk stays.
func (n *node) stop() {
	if n.z == nil {
		return
	}
	n.disconnect()
	n.z.Lock()
	n.z.serverAddress = "127.0.0.1:1" // no ghost: its reconnect timer may still run
	n.z.Unlock()
	n.barrier()
	close(n.z.done)
	n.z = nil
}

func (n *node) destroy() {
	n.stop()
	hz.RemoveAll(n.top)
}

// keys runs f like the handler of keys. The terminal updates nothing for as
// long as slow says.
func (n *node) keys(slow time.Duration, f func()) {
	c := make(chan struct{})
	if slow != 0 {
		ttk.Queue(func() { time.Sleep(slow) })
	}
	go func() {
		f()
		close(c)
	}()
	n.wait(c, "does not react to its keys")
}

// wait waits for something that only a client that hangs does not do.
func (n *node) wait(c chan struct{}, what string) {
	select {
	case <-c:
	case <-time.After(90 * time.Second):
		buf := make([]byte, 1<<20)
		os.Stdout.Write(buf[:runtime.Stack(buf, true)])
		fmt.Printf("HANG: %v %s\n", n, what)
		panic(fmt.Sprintf("%v hangs: it %s", n, what))
	}
}

// typed is what typing a line does.
func (n *node) typed(line string) error {
	err := n.z.mw.action(line)
	if err != nil {
		n.z.PrintfT(-1, REDBOLD+"%v"+RESET, err)
	}
	return err
}

// cmd types one line.
func (n *node) cmd(format string, args ...interface{}) error {
	var err error
	n.keys(0, func() { err = n.typed(fmt.Sprintf(format, args...)) })
	return err
}

// barrier waits until everything queued for the screen of a client has been
// done.
func (n *node) barrier() {
	if n.z == nil {
		return
	}
	for i := 0; i < 2; i++ {
		c := make(chan struct{})
		go ttk.Queue(func() { close(c) })
		n.wait(c, "does not update its windows")
	}
}

func barriers(nodes []*node) {
	for _, n := range nodes {
		n.barrier()
	}
}

func (n *node) depthNow() (int, bool) {
	select {
	case n.z.depth <- struct{}{}:
		q := <-n.z.queueW
		return q.hi + q.lo + len(n.z.hi) + len(n.z.lo), true
	default:
		return 0, false
	}
}

// outstanding is the number of commands the server has not answered yet.
func (n *node) outstanding() int {
	n.z.RLock()
	ts := n.z.tagStack
	n.z.RUnlock()
	if ts == nil {
		return 0
	}
	ts.Lock()
	defer ts.Unlock()
	at := int(reflect.ValueOf(ts).Elem().FieldByName("at").Int())
	return ts.Depth() - at
}

// settled says whether nothing is in flight among the nodes (as far as can
// be seen from outside).
func settled(r *relay, nodes []*node) string {
	for _, n := range nodes {
		if n.z == nil {
			continue
		}
		if !n.online() {
			// a session that died: nothing moves until it is back
			continue
		}
		if len(n.z.hi) != 0 || len(n.z.lo) != 0 {
			return fmt.Sprintf("%v has %d+%d commands scheduled", n, len(n.z.hi), len(n.z.lo))
		}
		d, ok := n.depthNow()
		if !ok || d != 0 {
			return fmt.Sprintf("%v has %d commands queued (%v)", n, d, ok)
		}
		if k := n.outstanding(); k != 0 {
			return fmt.Sprintf("%v has %d commands outstanding", n, k)
		}
	}
	r.mtx.Lock()
	defer r.mtx.Unlock()
	for _, u := range r.users {
		if u.conn != nil && !u.conn.dead && (len(u.conn.out) != 0 || (len(u.queue) != 0 && !r.hold[u.id.Identity])) {
			return fmt.Sprintf("server: %s has %d messages pushed, %d queued", u.id.Nick, len(u.conn.out), len(u.queue))
		}
	}
	return ""
}

func (r *relay) eventCount() int {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	return r.events
}

// settle waits until nothing moves any more; false when it does not happen.
func settle(r *relay, nodes []*node) bool {
	t0 := time.Now()
	lastWhy := "things keep happening"
	defer func() {
		if d := time.Since(t0); d > 5*time.Second {
			fmt.Printf("slow: settle took %v: %s\n", d, lastWhy)
		}
	}()
	deadline := time.Now().Add(60 * time.Second)
	good, last := 0, -1
	for time.Now().Before(deadline) {
		why := settled(r, nodes)
		ok := why == ""
		if !ok {
			lastWhy = why
		}
		e := r.eventCount()
		if ok && e == last {
			good++
			if good >= 5 {
				barriers(nodes)
				return true
			}
		} else {
			good = 0
		}
		last = e
		time.Sleep(1500 * time.Microsecond)
		barriers(nodes)
	}
	fmt.Printf("no rest: %s\n", lastWhy)
	return false
}

// probe makes sure that every client has dealt with all that was sent to it:
// a message from nobody, which a client acknowledges (and complains about).
func (r *relay) probe(limit time.Duration) bool {
	r.mtx.Lock()
	type sent struct {
		c   *rconn
		tag uint32
		it  *item
	}
	var all []sent
	for _, u := range r.users {
		c := u.conn
		if c == nil || c.dead || len(c.out) >= r.depth {
			continue
		}
		for c.out[c.next] != nil {
			c.next = (c.next + 1) % uint32(r.depth)
		}
		s := sent{c, c.next, &item{probe: true}}
		c.next = (c.next + 1) % uint32(r.depth)
		c.out[s.tag] = s.it
		if c.write(rpc.Message{Command: rpc.TaggedCmdPush, Tag: s.tag}, rpc.Push{Payload: []byte{0}}) == nil {
			all = append(all, s)
		}
	}
	r.mtx.Unlock()
	return eventually(limit, func() bool {
		r.mtx.Lock()
		defer r.mtx.Unlock()
		for _, s := range all {
			if !s.c.dead && s.c.out[s.tag] == s.it {
				return false
			}
		}
		return true
	})
}

// settleHard is settle for what also takes clients time to work on.
func settleHard(r *relay, nodes []*node) bool {
	deadline := time.Now().Add(90 * time.Second)
	for time.Now().Before(deadline) {
		if !settle(r, nodes) {
			return false
		}
		e := r.eventCount()
		if r.probe(60*time.Second) && r.eventCount() == e && settled(r, nodes) == "" && r.eventCount() == e {
			return true
		}
	}
	return false
}

// eventually polls a condition.
func eventually(limit time.Duration, f func() bool) bool {
	deadline := time.Now().Add(limit)
	for {
		if f() {
			return true
		}
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// logLines returns the lines of one conversation log.
func logLines(path string) []string {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	return strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
}

func (n *node) pmLog(peer *zkidentity.PublicIdentity) string {
	return filepath.Join(n.root, logsDir, n.alias(peer)+".127.0.0.1."+peer.String()+".log")
}

// alias is the name under which a node knows another one.
func (n *node) alias(peer *zkidentity.PublicIdentity) string {
	if a, ok := n.aliases[peer.Identity]; ok {
		return a
	}
	return peer.Nick
}

func (n *node) gcLog(group string) string {
	return filepath.Join(n.root, logsDir, "groupchat."+group+".127.0.0.1.log")
}

// allLogs returns file name -> lines of every conversation log.
func (n *node) allLogs() map[string][]string {
	m := make(map[string][]string)
	fs, _ := filepath.Glob(filepath.Join(n.root, logsDir, "*"))
	for _, f := range fs {
		m[filepath.Base(f)] = logLines(f)
	}
	return m
}

// console returns the console log.
func (n *node) console() string {
	b, _ := os.ReadFile(filepath.Join(n.root, "zkclient.log"))
	return string(b)
}

// screen returns the text of a conversation window.
func (n *node) screen(win int) []string {
	var out []string
	c := make(chan struct{})
	go ttk.Queue(func() {
		n.z.RLock()
		if win < len(n.z.conversation) && n.z.conversation[win] != nil {
			f := reflect.ValueOf(n.z.conversation[win].console).Elem().FieldByName("content")
			lines := *(*[]string)(unsafe.Pointer(f.UnsafeAddr()))
			for _, l := range lines {
				out = append(out, unescape(l))
			}
		}
		n.z.RUnlock()
		close(c)
	})
	n.wait(c, "does not update its windows")
	return out
}

// snapshot lists every file below dir with its content.
func snapshot(dir string, skip func(rel string) bool) map[string]string {
	m := make(map[string]string)
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if skip != nil && skip(rel) {
			if fi.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			m[rel] = string(b)
		} else if !fi.IsDir() {
			m[rel] = fi.Mode().Type().String()
		}
		return nil
	})
	return m
}

// windower returns the manager behind a ttk window.
func windower(w *ttk.Window) ttk.Windower {
	f := reflect.ValueOf(w).Elem().FieldByName("mgr")
	return *(*ttk.Windower)(unsafe.Pointer(f.UnsafeAddr()))
}

// pinKX runs the PIN key exchange the way two users do: a offers, b fetches.
func pinKX(t hz.Fataler, r *relay, a, b *node, password, typed string) bool {
	r.mtx.Lock()
	before := make(map[string]bool)
	for k := range r.blobs {
		before[k] = true
	}
	r.mtx.Unlock()
	a.z.kw.password = password
	a.z.kw.KeyHandler(a.z.ttkKW, ttk.Key{Key: termbox.KeyEnter, Widget: a.z.kw.passwordInput})
	var pin string
	eventually(20*time.Second, func() bool {
		r.mtx.Lock()
		defer r.mtx.Unlock()
		for k := range r.blobs {
			if !before[k] {
				pin = k
				return true
			}
		}
		return false
	})
	if pin == "" {
		t.Fatalf("the offer of %v did not reach the server", a)
	}
	b.z.kaw.rendezvousPullReply = nil
	if err := b.cmd("/fetch %s", pin); err != nil {
		t.Fatalf("fetch: %v", err)
	}
	if !settle(r, []*node{a, b}) {
		t.Fatalf("fetch does not come to an end")
	}
	if b.z.kaw.rendezvousPullReply == nil {
		t.Fatalf("the reply to fetch did not arrive")
	}
	b.z.ttkACFPW = nil
	b.z.kaw.password = typed
	b.z.kaw.KeyHandler(b.z.ttkKAW, ttk.Key{Key: termbox.KeyEnter, Widget: b.z.kaw.passwordInput})
	if b.z.ttkACFPW == nil {
		return false
	}
	aw := windower(b.z.ttkACFPW).(*acceptCFPWindow)
	aw.question = "yes"
	aw.KeyHandler(b.z.ttkACFPW, ttk.Key{Key: termbox.KeyEnter, Widget: aw.questionInput})
	return true
}

// befriend runs the directory key exchange (the relay is in directory mode).
func befriend(t hz.Fataler, r *relay, a, b *node) {
	if err := a.cmd("/find %s", b.nick()); err != nil {
		t.Fatalf("find: %v", err)
	}
	ok := eventually(60*time.Second, func() bool {
		return knows(a, b) && knows(b, a)
	})
	if !ok {
		t.Fatalf("%v and %v do not complete the key exchange\n%s\n---\n%s", a, b,
			hz.Trim(a.console(), 3000), hz.Trim(b.console(), 3000))
	}
	settle(r, []*node{a, b})
}

func knows(a, b *node) bool {
	_, err := a.z.ab.FindIdentity(b.ident())
	return err == nil && a.z.ratchetExists(b.ident())
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func hexid(id ident) string { return hex.EncodeToString(id[:]) }

// A terminal of a usual size, without a terminal.
//
//go:linkname ttkMaxX github.com/companyzero/ttk.maxX
var ttkMaxX int

//go:linkname ttkMaxY github.com/companyzero/ttk.maxY
var ttkMaxY int

// fakeTerminal makes termbox believe in a terminal of this size: the slave of
// a new pty, whose output is thrown away.
func fakeTerminal(w, h int) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR, 0)
	hz.Must(err)
	ioctl := func(fd, req uintptr, p unsafe.Pointer) {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(p)); e != 0 {
			hz.Infra("ioctl: " + e.Error())
		}
	}
	var unlock, num int32
	ioctl(m.Fd(), syscall.TIOCSPTLCK, unsafe.Pointer(&unlock))
	ioctl(m.Fd(), syscall.TIOCGPTN, unsafe.Pointer(&num))
	size := [4]uint16{uint16(h), uint16(w), 0, 0}
	ioctl(m.Fd(), syscall.TIOCSWINSZ, unsafe.Pointer(&size))
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", num), os.O_RDWR|syscall.O_NOCTTY, 0)
	hz.Must(err)
	go func() {
		b := make([]byte, 4096)
		for {
			if _, err := m.Read(b); err != nil {
				return
			}
		}
	}()
	termboxOut = s
	termboxFuncs = make([]string, 64)
	termboxW, termboxH = w, h
}

//go:linkname termboxOut github.com/nsf/termbox-go.out
var termboxOut *os.File

//go:linkname termboxFuncs github.com/nsf/termbox-go.funcs
var termboxFuncs []string

//go:linkname termboxW github.com/nsf/termbox-go.termw
var termboxW int

//go:linkname termboxH github.com/nsf/termbox-go.termh
var termboxH int

func TestMain(m *testing.M) {
	ttkMaxX, ttkMaxY = 120, 40
	fakeTerminal(120, 40)
	hz.Main(m)
}
