package ratchetprop

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"testing"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/blobshare"
	"github.com/companyzero/zkc/ratchet"
	"pgregory.net/rapid"

	"zkcverif/hz"
)

// talk checks that two ratchets are connected.
func talk(a, b *ratchet.Ratchet, order []int) error {
	r := [2]*ratchet.Ratchet{a, b}
	for i, from := range order {
		text := []byte(fmt.Sprintf("message %d", i))
		ct, err := r[from].Encrypt(nil, text)
		if err != nil {
			return fmt.Errorf("encrypt %d: %v", i, err)
		}
		got, err := r[1-from].Decrypt(ct)
		if err != nil {
			return fmt.Errorf("decrypt %d: %v", i, err)
		}
		if !bytes.Equal(got, text) {
			return fmt.Errorf("message %d corrupted", i)
		}
	}
	return nil
}

// The exchange between any two fresh identities connects them, whoever talks
// first, and an outsider who recorded it is not connected.
func TestC04Honest(t *testing.T) {
	hz.Check(t, 3, func(t *rapid.T) {
		p, err := makePair()
		if err != nil {
			t.Fatalf("honest exchange failed: %v", err)
		}
		order := rapid.SliceOfN(rapid.IntRange(0, 1), 1, 8).Draw(t, "order")
		if err := talk(clone(p.r[0]), clone(p.r[1]), order); err != nil {
			t.Fatalf("order %v: %v", order, err)
		}
		if err := talk(p.r[0], p.r[1], append([]int{1 - order[0]}, order...)); err != nil {
			t.Fatalf("order %v: %v", order, err)
		}
		hz.Case(true, fmt.Sprint(order), fmt.Sprintf("honest exchange, speaking order %v", order))
	})
}

// Any key exchange message that is not the peer's is rejected without a
// panic and without spoiling the exchange.
func TestC04Malformed(t *testing.T) {
	hz.Check(t, 22, func(t *rapid.T) {
		p := getPair(t, 0)
		q := getPair(t, 1)
		who := rapid.IntRange(0, 1).Draw(t, "who") // the victim
		genuine := p.kx[1-who]
		bad := &ratchet.KeyExchange{Cipher: genuine.Cipher, Public: append([]byte(nil), genuine.Public...)}
		kind := rapid.SampledFrom([]string{"short", "short", "cipher", "public", "other", "mix", "point", "pointlen", "own", "extend", "nil"}).Draw(t, "kind")
		what := kind
		switch kind {
		case "short":
			n := rapid.IntRange(0, len(bad.Public)-1).Draw(t, "len")
			if rapid.Bool().Draw(t, "headers") {
				n = rapid.IntRange(0, 56+16).Draw(t, "hlen")
			}
			bad.Public = bad.Public[:n]
			what = fmt.Sprintf("public truncated to %d", n)
		case "cipher":
			i := rapid.IntRange(0, len(bad.Cipher)-1).Draw(t, "pos")
			bad.Cipher[i] ^= byte(rapid.IntRange(1, 255).Draw(t, "xor"))
			what = fmt.Sprintf("cipher byte %d", i)
		case "public":
			i := rapid.IntRange(0, len(bad.Public)-1).Draw(t, "pos")
			bad.Public[i] ^= byte(rapid.IntRange(1, 255).Draw(t, "xor"))
			what = fmt.Sprintf("public byte %d", i)
		case "other": // meant for somebody else
			*bad = *q.kx[1-who]
		case "mix":
			bad.Public = append([]byte(nil), q.kx[1-who].Public...)
		case "own": // reflected
			*bad = *p.kx[who]
		case "extend":
			bad.Public = append(bad.Public, rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, "ext")...)
		case "nil":
			bad.Public = nil
		case "point", "pointlen":
			// a peer that follows the protocol but sends a bad point
			c, k, err := sntrup4591761.Encapsulate(rand.Reader, &p.ids[who].Public.Key)
			hz.Must(err)
			var point []byte
			if kind == "point" {
				point = make([]byte, 32)
				switch rapid.IntRange(0, 2).Draw(t, "range") {
				case 0: // 0, 1, 2 (little endian)
					point[0] = byte(rapid.IntRange(0, 2).Draw(t, "small"))
				case 1: // 2^255-19 and up
					for i := range point {
						point[i] = 0xff
					}
					point[0] = byte(rapid.IntRange(0xed, 0xff).Draw(t, "low"))
					point[31] = rapid.SampledFrom([]byte{0x7f, 0xff, 0x80}).Draw(t, "top")
				case 2:
					point = rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "raw")
					point[31] |= 0x80
				}
				what = fmt.Sprintf("point %x", point)
			} else {
				n := rapid.SampledFrom([]int{0, 1, 16, 31, 33, 64}).Draw(t, "plen")
				point = bytes.Repeat([]byte{9}, n)
				what = fmt.Sprintf("point of %d bytes", n)
			}
			blobshare.SetNrp(32768, 16, 2)
			key, salt, err := blobshare.NewKey(k[:])
			hz.Must(err)
			enc, nonce, err := blobshare.Encrypt(point, key)
			hz.Must(err)
			copy(bad.Cipher[:], c[:])
			bad.Public = blobshare.PackSaltNonce(salt, nonce, enc)
		}
		r := clone(p.hr[who])
		var err error
		if s := hz.NoPanic(func() { err = r.CompleteKeyExchange(bad, who == 0) }); s != "" {
			t.Fatalf("key exchange with %s panicked: %s", what, s)
		}
		if err == nil {
			t.Fatalf("key exchange with %s was completed", what)
		}
		// the genuine message still works
		if rapid.IntRange(0, 3).Draw(t, "genuine") == 0 {
			if err := r.CompleteKeyExchange(genuine, who == 0); err != nil {
				t.Fatalf("after rejecting %s the genuine exchange fails: %v", what, err)
			}
			rr := [2]*ratchet.Ratchet{}
			rr[who], rr[1-who] = r, clone(p.r[1-who])
			if err := talk(rr[0], rr[1], []int{who, 1 - who, who}); err != nil {
				t.Fatalf("after rejecting %s: %v", what, err)
			}
		}
		hz.Class("malformed: " + kind)
		hz.Case(true, what, "rejected key exchange: "+what)
	})
}
