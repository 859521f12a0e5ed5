package sessionprop

import (
	"bytes"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/zkidentity"
	"golang.org/x/crypto/nacl/secretbox"

	"zkcverif/hz"
)

func TestMain(m *testing.M) { hz.Main(m) }

type (
	pubKey  = [sntrup4591761.PublicKeySize]byte
	privKey = [sntrup4591761.PrivateKeySize]byte
)

// ids are the identities of one process, made on first use.
var ids []*zkidentity.FullIdentity

func identity(n int) *zkidentity.FullIdentity {
	for len(ids) <= n {
		id, err := zkidentity.New(fmt.Sprintf("name %d", len(ids)), fmt.Sprintf("nick%d", len(ids)))
		hz.Must(err)
		ids = append(ids, id)
	}
	return ids[n]
}

// queue is one direction of an in-memory connection.
type queue struct {
	mtx    sync.Mutex
	cond   *sync.Cond
	buf    []byte
	closed bool
	nowait bool
}

func newQueue() *queue {
	q := &queue{}
	q.cond = sync.NewCond(&q.mtx)
	return q
}

func (q *queue) Write(b []byte) (int, error) {
	q.mtx.Lock()
	defer q.mtx.Unlock()
	if q.closed {
		return 0, io.ErrClosedPipe
	}
	q.buf = append(q.buf, b...)
	q.cond.Broadcast()
	return len(b), nil
}

func (q *queue) Read(b []byte) (int, error) {
	q.mtx.Lock()
	defer q.mtx.Unlock()
	for len(q.buf) == 0 && !q.closed && !q.nowait {
		q.cond.Wait()
	}
	if len(q.buf) == 0 {
		return 0, io.EOF
	}
	n := copy(b, q.buf)
	q.buf = q.buf[n:]
	return n, nil
}

func (q *queue) Close() {
	q.mtx.Lock()
	q.closed = true
	q.cond.Broadcast()
	q.mtx.Unlock()
}

// waitData blocks until something can be read.
func (q *queue) waitData() {
	q.mtx.Lock()
	for len(q.buf) == 0 && !q.closed {
		q.cond.Wait()
	}
	q.mtx.Unlock()
}

func (q *queue) take() []byte {
	q.mtx.Lock()
	defer q.mtx.Unlock()
	b := q.buf
	q.buf = nil
	return b
}

func (q *queue) setNowait() {
	q.mtx.Lock()
	q.nowait = true
	q.cond.Broadcast()
	q.mtx.Unlock()
}

// end is one end of an in-memory connection.
type end struct{ r, w *queue }

func (e *end) Read(b []byte) (int, error)       { return e.r.Read(b) }
func (e *end) Write(b []byte) (int, error)      { return e.w.Write(b) }
func (e *end) Close() error                     { e.r.Close(); e.w.Close(); return nil }
func (e *end) LocalAddr() net.Addr              { return &net.UnixAddr{} }
func (e *end) RemoteAddr() net.Addr             { return &net.UnixAddr{} }
func (e *end) SetDeadline(time.Time) error      { return nil }
func (e *end) SetReadDeadline(time.Time) error  { return nil }
func (e *end) SetWriteDeadline(time.Time) error { return nil }

// A reference implementation of both sides of the key exchange, written from
// doc/session.txt, with room for misbehaviour.

type ref struct {
	conn     io.ReadWriter
	wseq     uint64
	rseq     uint64
	max      int
	rkey     *[32]byte
	wkey     *[32]byte
	recorded [][]byte
}

func nonce(n uint64) *[24]byte {
	var x [24]byte
	binary.LittleEndian.PutUint64(x[:], n)
	return &x
}

func opaque(b []byte) []byte {
	o := make([]byte, 4, len(b)+8)
	binary.BigEndian.PutUint32(o, uint32(len(b)))
	o = append(o, b...)
	for len(o)%4 != 0 {
		o = append(o, 0)
	}
	return o
}

func (r *ref) seal(p []byte, k *[32]byte) error {
	c := secretbox.Seal(nil, p, nonce(r.wseq), k)
	r.wseq++
	_, err := r.conn.Write(opaque(c))
	return err
}

func (r *ref) open(k *[32]byte) ([]byte, error) {
	var l [4]byte
	if _, err := io.ReadFull(r.conn, l[:]); err != nil {
		return nil, err
	}
	n := int(binary.BigEndian.Uint32(l[:]))
	if n > 1<<20 {
		return nil, errors.New("ref: frame too large")
	}
	b := make([]byte, (n+3)/4*4)
	if _, err := io.ReadFull(r.conn, b); err != nil {
		return nil, err
	}
	p, ok := secretbox.Open(nil, b[:n], nonce(r.rseq), k)
	r.rseq++
	if !ok {
		return nil, errors.New("ref: cannot decrypt")
	}
	return p, nil
}

func mac(k *[32]byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, k[:])
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func encap(pk *pubKey) (*[sntrup4591761.CiphertextSize]byte, *[32]byte) {
	c, k, err := sntrup4591761.Encapsulate(rand.Reader, pk)
	hz.Must(err)
	return c, k
}

func decap(b []byte, sk *privKey) (*[32]byte, error) {
	c := new([sntrup4591761.CiphertextSize]byte)
	if len(b) != len(c) {
		return nil, errors.New("ref: ciphertext size")
	}
	copy(c[:], b)
	k, ok := sntrup4591761.Decapsulate(c, sk)
	if ok != 1 {
		return nil, errors.New("ref: decapsulate")
	}
	return k, nil
}

func final(k1, k2, k3, k4 *[32]byte) (a, b *[32]byte) {
	h := sha512.New()
	for _, k := range []*[32]byte{k1, k2, k3, k4} {
		h.Write(k[:])
	}
	s := h.Sum(nil)
	a, b = new([32]byte), new([32]byte)
	copy(a[:], s)
	copy(b[:], s[32:])
	return
}

var errRefDone = errors.New("ref: misbehaved")

// deviation: how the reference peer misbehaves. mutate is applied to the
// plaintext of step n before it is encrypted (or sent, for c1); the keys the
// peer knows are right, so nothing but the protocol's own checks can notice.
type deviation struct {
	step   int // 0: none
	mutate func([]byte) []byte
	// claimPub: the initiator presents this identity (without its key)
	claimPub *pubKey
}

func (d *deviation) apply(step int, p []byte) []byte {
	if d == nil || d.step != step {
		return p
	}
	return d.mutate(append([]byte(nil), p...))
}

// initiate: the documented client. Steps: 1 c1, 2 ephemeral key, 3 c3, 4
// identity, 5 proof.
func (r *ref) initiate(own *zkidentity.FullIdentity, server *pubKey, d *deviation) error {
	epk, esk, err := sntrup4591761.GenerateKey(rand.Reader)
	hz.Must(err)
	c1, k1 := encap(server)
	c1b := d.apply(1, c1[:])
	for len(c1b)%4 != 0 {
		c1b = append(c1b, 0)
	}
	if _, err := r.conn.Write(c1b); err != nil {
		return err
	}
	if err := r.seal(d.apply(2, epk[:]), k1); err != nil {
		return err
	}
	c2, err := r.open(k1)
	if err != nil {
		return err
	}
	k2, err := decap(c2, esk)
	if err != nil {
		return err
	}
	se, err := r.open(k2)
	if err != nil {
		return err
	}
	if len(se) != len(epk) {
		return errors.New("ref: server ephemeral size")
	}
	sp, err := r.open(k2)
	if err != nil {
		return err
	}
	if !hmac.Equal(sp, mac(k1, epk[:], se)) {
		return errors.New("ref: server's first proof is wrong")
	}
	var sek pubKey
	copy(sek[:], se)
	c3, k3 := encap(&sek)
	if err := r.seal(d.apply(3, c3[:]), k2); err != nil {
		return err
	}
	pub := own.Public.Key[:]
	if d != nil && d.claimPub != nil {
		pub = d.claimPub[:]
	}
	if err := r.seal(d.apply(4, pub), k3); err != nil {
		return err
	}
	cp := mac(k2, sp, pub)
	if err := r.seal(d.apply(5, cp), k3); err != nil {
		return err
	}
	c4, err := r.open(k3)
	if err != nil {
		return err
	}
	k4, err := decap(c4, &own.PrivateKey)
	if err != nil {
		if d != nil && d.claimPub != nil {
			// the impostor goes on with what it knows
			r.rkey, r.wkey = final(k1, k2, k3, new([32]byte))
			return errRefDone
		}
		return err
	}
	p2, err := r.open(k4)
	if err != nil {
		return err
	}
	if !hmac.Equal(p2, mac(k3, cp, server[:])) {
		return errors.New("ref: server's second proof is wrong")
	}
	r.rkey, r.wkey = final(k1, k2, k3, k4)
	return nil
}

// respond: the documented server. Steps: 1 c2, 2 ephemeral key, 3 proof, 4
// c4, 5 proof. Returns the client's identity key.
func (r *ref) respond(own *zkidentity.FullIdentity, d *deviation) ([]byte, error) {
	epk, esk, err := sntrup4591761.GenerateKey(rand.Reader)
	hz.Must(err)
	c1 := make([]byte, (sntrup4591761.CiphertextSize+3)/4*4)
	if _, err := io.ReadFull(r.conn, c1); err != nil {
		return nil, err
	}
	k1, err := decap(c1[:sntrup4591761.CiphertextSize], &own.PrivateKey)
	if err != nil {
		return nil, err
	}
	ce, err := r.open(k1)
	if err != nil {
		return nil, err
	}
	if len(ce) != len(epk) {
		return nil, errors.New("ref: client ephemeral size")
	}
	var cek pubKey
	copy(cek[:], ce)
	c2, k2 := encap(&cek)
	if err := r.seal(d.apply(1, c2[:]), k1); err != nil {
		return nil, err
	}
	if err := r.seal(d.apply(2, epk[:]), k2); err != nil {
		return nil, err
	}
	sp := mac(k1, ce, epk[:])
	if err := r.seal(d.apply(3, sp), k2); err != nil {
		return nil, err
	}
	c3, err := r.open(k2)
	if err != nil {
		return nil, err
	}
	k3, err := decap(c3, esk)
	if err != nil {
		return nil, err
	}
	pub, err := r.open(k3)
	if err != nil {
		return nil, err
	}
	cp, err := r.open(k3)
	if err != nil {
		return nil, err
	}
	if !hmac.Equal(cp, mac(k2, sp, pub)) {
		return nil, errors.New("ref: client's proof is wrong")
	}
	var ck pubKey
	if len(pub) != len(ck) {
		return nil, errors.New("ref: client identity size")
	}
	copy(ck[:], pub)
	c4, k4 := encap(&ck)
	if err := r.seal(d.apply(4, c4[:]), k3); err != nil {
		return nil, err
	}
	if err := r.seal(d.apply(5, mac(k3, cp, own.Public.Key[:])), k4); err != nil {
		return nil, err
	}
	a, b := final(k1, k2, k3, k4)
	r.rkey, r.wkey = b, a
	return pub, nil
}

// handshake connects two real ends in this process. The responder starts
// once the initiator has sent something: both share the process wide
// ephemeral keys.
func handshake(c, s *zkidentity.FullIdentity, max uint) (ck, sk *session.KX, c2s, s2c *queue, err error) {
	c2s, s2c = newQueue(), newQueue()
	ck = &session.KX{Conn: &end{r: s2c, w: c2s}, MaxMessageSize: max,
		OurPrivateKey: &c.PrivateKey, OurPublicKey: &c.Public.Key, TheirPublicKey: &s.Public.Key}
	sk = &session.KX{Conn: &end{r: c2s, w: s2c}, MaxMessageSize: max,
		OurPrivateKey: &s.PrivateKey, OurPublicKey: &s.Public.Key}
	done := make(chan error, 1)
	go func() {
		c2s.waitData()
		e := sk.Respond()
		if e != nil {
			c2s.Close()
			s2c.Close()
		}
		done <- e
	}()
	err = ck.Initiate()
	if err != nil {
		c2s.Close()
		s2c.Close()
	}
	if e := <-done; e != nil && err == nil {
		err = e
	}
	if err == nil {
		c2s.setNowait()
		s2c.setNowait()
	}
	return
}

func contains(b, sub []byte) bool { return bytes.Contains(b, sub) }
