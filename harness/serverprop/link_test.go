package serverprop

import (
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"sync"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/zkidentity"
	"golang.org/x/crypto/nacl/secretbox"

	"zkcverif/hz"
)

// link is the client's end of a session, written from doc/session.txt. It has
// no limit of its own, shares no state with others and, to save time, uses
// one ephemeral key for all sessions.
type link struct {
	Conn       net.Conn
	max        uint // of what the server sends, 0: any
	wseq, rseq uint64
	rkey, wkey *[32]byte
}

var (
	errLinkDecrypt = errors.New("link: cannot decrypt")
	ephOnce        sync.Once
	ephPub         *[sntrup4591761.PublicKeySize]byte
	ephPriv        *[sntrup4591761.PrivateKeySize]byte
)

func lnonce(n uint64) *[24]byte {
	var x [24]byte
	binary.LittleEndian.PutUint64(x[:], n)
	return &x
}

func lopaque(b []byte) []byte {
	o := make([]byte, 4, len(b)+8)
	binary.BigEndian.PutUint32(o, uint32(len(b)))
	o = append(o, b...)
	for len(o)%4 != 0 {
		o = append(o, 0)
	}
	return o
}

func (l *link) seal(p []byte, k *[32]byte) error {
	c := secretbox.Seal(nil, p, lnonce(l.wseq), k)
	l.wseq++
	_, err := l.Conn.Write(lopaque(c))
	return err
}

func (l *link) open(k *[32]byte) ([]byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(l.Conn, h[:]); err != nil {
		return nil, err
	}
	n := int(binary.BigEndian.Uint32(h[:]))
	if n > 1<<24 || l.max != 0 && uint(n) > l.max {
		return nil, errors.New("link: frame too large")
	}
	b := make([]byte, (n+3)/4*4)
	if _, err := io.ReadFull(l.Conn, b); err != nil {
		return nil, err
	}
	p, ok := secretbox.Open(nil, b[:n], lnonce(l.rseq), k)
	l.rseq++
	if !ok {
		return nil, errLinkDecrypt
	}
	return p, nil
}

func lmac(k *[32]byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, k[:])
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func ldecap(b []byte, sk *[sntrup4591761.PrivateKeySize]byte) (*[32]byte, error) {
	c := new([sntrup4591761.CiphertextSize]byte)
	if len(b) != len(c) {
		return nil, errors.New("link: ciphertext size")
	}
	copy(c[:], b)
	k, ok := sntrup4591761.Decapsulate(c, sk)
	if ok != 1 {
		return nil, errors.New("link: decapsulate")
	}
	return k, nil
}

func (l *link) initiate(own *zkidentity.FullIdentity, server *[sntrup4591761.PublicKeySize]byte) error {
	ephOnce.Do(func() {
		var err error
		ephPub, ephPriv, err = sntrup4591761.GenerateKey(rand.Reader)
		hz.Must(err)
	})
	c1, k1, err := sntrup4591761.Encapsulate(rand.Reader, server)
	hz.Must(err)
	if _, err := l.Conn.Write(append(append([]byte(nil), c1[:]...), make([]byte, (4-len(c1)%4)%4)...)); err != nil {
		return err
	}
	if err := l.seal(ephPub[:], k1); err != nil {
		return err
	}
	c2, err := l.open(k1)
	if err != nil {
		return err
	}
	k2, err := ldecap(c2, ephPriv)
	if err != nil {
		return err
	}
	se, err := l.open(k2)
	if err != nil {
		return err
	}
	if len(se) != sntrup4591761.PublicKeySize {
		return errors.New("link: server ephemeral size")
	}
	sp, err := l.open(k2)
	if err != nil {
		return err
	}
	if !hmac.Equal(sp, lmac(k1, ephPub[:], se)) {
		return errors.New("link: server's first proof is wrong")
	}
	var sek [sntrup4591761.PublicKeySize]byte
	copy(sek[:], se)
	c3, k3, err := sntrup4591761.Encapsulate(rand.Reader, &sek)
	hz.Must(err)
	if err := l.seal(c3[:], k2); err != nil {
		return err
	}
	if err := l.seal(own.Public.Key[:], k3); err != nil {
		return err
	}
	cp := lmac(k2, sp, own.Public.Key[:])
	if err := l.seal(cp, k3); err != nil {
		return err
	}
	c4, err := l.open(k3)
	if err != nil {
		return err
	}
	k4, err := ldecap(c4, &own.PrivateKey)
	if err != nil {
		return err
	}
	p2, err := l.open(k4)
	if err != nil {
		return err
	}
	if !hmac.Equal(p2, lmac(k3, cp, server[:])) {
		return errors.New("link: server's second proof is wrong")
	}
	h := sha512.New()
	for _, k := range []*[32]byte{k1, k2, k3, k4} {
		h.Write(k[:])
	}
	s := h.Sum(nil)
	l.rkey, l.wkey = new([32]byte), new([32]byte)
	copy(l.rkey[:], s)
	copy(l.wkey[:], s[32:])
	return nil
}

func (l *link) Read() ([]byte, error) { return l.open(l.rkey) }
func (l *link) Write(b []byte) error  { return l.seal(b, l.wkey) }
func (l *link) Close()                { l.Conn.Close() }
