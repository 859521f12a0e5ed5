// Package blobprop checks password protected blobs.
package blobprop

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"testing"

	"github.com/companyzero/zkc/blobshare"
	"golang.org/x/crypto/nacl/secretbox"
	"golang.org/x/crypto/scrypt"
	"pgregory.net/rapid"

	"zkcverif/hz"
)

func TestMain(m *testing.M) { hz.Main(m) }

type nrp struct{ n, r, p int }

var genNrp = rapid.SampledFrom([]nrp{{16, 1, 1}, {32, 2, 1}, {64, 1, 3}, {128, 8, 1}, {1024, 8, 2}})

var genBytes = rapid.OneOf(
	rapid.SliceOfN(rapid.Byte(), 0, 80),
	rapid.Custom(func(t *rapid.T) []byte {
		n := rapid.IntRange(0, 5000).Draw(t, "n")
		return bytes.Repeat([]byte{rapid.Byte().Draw(t, "b")}, n)
	}),
)

var genPassword = rapid.OneOf(
	rapid.Custom(func(t *rapid.T) []byte { return []byte(rapid.StringN(0, 20, -1).Draw(t, "s")) }),
	rapid.SliceOfN(rapid.Byte(), 0, 200),
)

// publish is what a user does to leave a blob, fetch what another does with
// the blob it found and the password it was told.
func publish(t hz.Fataler, password, data []byte) []byte {
	key, salt, err := blobshare.NewKey(password)
	if err != nil {
		t.Fatalf("NewKey: %v", err)
	}
	enc, nonce, err := blobshare.Encrypt(data, key)
	if err != nil {
		t.Fatalf("Encrypt: %v", err)
	}
	return blobshare.PackSaltNonce(salt, nonce, enc)
}

func fetch(t hz.Fataler, password, packed []byte) (data []byte, err error) {
	if p := hz.NoPanic(func() {
		salt, nonce, enc, e := blobshare.UnpackSaltNonce(packed)
		if e != nil {
			err = e
			return
		}
		key, e := blobshare.DeriveKey(password, salt)
		if e != nil {
			err = e
			return
		}
		data, err = blobshare.Decrypt(key, nonce, enc)
	}); p != "" {
		t.Fatalf("opening a blob of %d bytes panicked: %s", len(packed), p)
	}
	return
}

func alter(t *rapid.T, b []byte) ([]byte, string) {
	c := append([]byte(nil), b...)
	kind := rapid.SampledFrom([]string{"flip", "flip", "truncate", "short", "extend", "random", "swap"}).Draw(t, "alteration")
	at := rapid.IntRange(0, len(c)-1).Draw(t, "at")
	switch kind {
	case "flip":
		c[at] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
	case "truncate":
		c = c[:at]
	case "short":
		c = c[:at%80%len(c)]
	case "extend":
		c = append(c, rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "tail")...)
	case "random":
		c = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "blob")
	case "swap":
		c[at], c[(at+1)%len(c)] = c[(at+1)%len(c)], c[at]
	}
	return c, kind
}

func TestC09Password(t *testing.T) {
	hz.Check(t, 500, func(t *rapid.T) {
		pr := genNrp.Draw(t, "cost")
		blobshare.SetNrp(pr.n, pr.r, pr.p)
		pw, data := genPassword.Draw(t, "password"), genBytes.Draw(t, "data")
		keep := append([]byte(nil), data...)
		keepPw := append([]byte(nil), pw...)
		packed := publish(t, pw, data)
		if !bytes.Equal(keep, data) || !bytes.Equal(keepPw, pw) {
			t.Fatalf("the caller's data changed")
		}
		got, err := fetch(t, pw, packed)
		if err != nil || !bytes.Equal(got, data) {
			t.Fatalf("opening with the right password gave %v, %v; packed %v", hz.Short(got), err, hz.Short(data))
		}
		// the format: salt, nonce, box under the scrypt key
		if len(packed) != 32+24+16+len(data) {
			t.Fatalf("%d bytes packed to %d", len(data), len(packed))
		}
		dk, err := scrypt.Key(pw, packed[:32], pr.n, pr.r, pr.p, 32)
		hz.Must(err)
		var k [32]byte
		var n [24]byte
		copy(k[:], dk)
		copy(n[:], packed[32:])
		if p, ok := secretbox.Open(nil, packed[56:], &n, &k); !ok || !bytes.Equal(p, data) {
			t.Fatalf("a blob cannot be opened by the documented construction")
		}
		if len(data) >= 12 && bytes.Contains(packed, data[:12]) {
			t.Fatalf("plaintext in the blob")
		}
		// fresh salt and nonce each time
		again := publish(t, pw, data)
		if bytes.Equal(again[:32], packed[:32]) || bytes.Equal(again[32:56], packed[32:56]) {
			t.Fatalf("salt or nonce used twice")
		}
		// another password
		pw2 := genPassword.Draw(t, "other password")
		if rapid.Bool().Draw(t, "close") {
			pw2 = append([]byte(nil), pw...)
			switch rapid.IntRange(0, 2).Draw(t, "how") {
			case 0:
				pw2 = append(pw2, byte(rapid.IntRange(1, 255).Draw(t, "c")))
			case 1:
				if len(pw2) > 0 {
					pw2 = pw2[:len(pw2)-1]
				}
			case 2:
				if len(pw2) > 0 {
					pw2[rapid.IntRange(0, len(pw2)-1).Draw(t, "i")] ^= 0x20
				}
			}
		}
		if !samePassword(pw, pw2) {
			if got, err := fetch(t, pw2, packed); err == nil {
				t.Fatalf("password %q opened a blob made with %q: %v", pw2, pw, hz.Short(got))
			}
			hz.Class("other passwords")
		}
		// another cost
		if rapid.IntRange(0, 3).Draw(t, "cost?") == 0 {
			pr2 := genNrp.Filter(func(x nrp) bool { return x != pr }).Draw(t, "other cost")
			blobshare.SetNrp(pr2.n, pr2.r, pr2.p)
			if _, err := fetch(t, pw, packed); err == nil {
				t.Fatalf("a blob opened with other cost parameters")
			}
			blobshare.SetNrp(pr.n, pr.r, pr.p)
		}
		alt, kind := alter(t, packed)
		if !bytes.Equal(alt, packed) {
			if got, err := fetch(t, pw, alt); err == nil {
				t.Fatalf("an altered blob (%s) opened as %v", kind, hz.Short(got))
			}
			hz.Class("altered blobs: " + kind)
		}
		hz.Case(true, fmt.Sprintf("%q %x %v %v", pw, data, pr, kind), fmt.Sprintf("password %q, %d bytes, cost %v, other password %q, %s", hz.Trim(string(pw), 40), len(data), pr, hz.Trim(string(pw2), 40), kind))
	})
}

// samePassword: HMAC pads keys of up to a block with zeros and hashes longer
// ones, so passwords that differ only in trailing zero bytes are one.
func samePassword(a, b []byte) bool {
	if len(a) > 64 || len(b) > 64 {
		return bytes.Equal(a, b) || len(a) == 32 || len(b) == 32
	}
	return bytes.Equal(bytes.TrimRight(a, "\x00"), bytes.TrimRight(b, "\x00"))
}

// With a random key instead of a password.
func TestC09Key(t *testing.T) {
	hz.Check(t, 1500, func(t *rapid.T) {
		var key, key2 [32]byte
		rand.Read(key[:])
		rand.Read(key2[:])
		if rapid.Bool().Draw(t, "close key") {
			key2 = key
			key2[rapid.IntRange(0, 31).Draw(t, "i")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
		}
		data := genBytes.Draw(t, "data")
		enc, nonce, err := blobshare.Encrypt(data, &key)
		if err != nil {
			t.Fatalf("Encrypt: %v", err)
		}
		packed := blobshare.PackNonce(nonce, enc)
		open := func(k *[32]byte, b []byte) (got []byte, err error) {
			if p := hz.NoPanic(func() {
				n, e, uerr := blobshare.UnpackNonce(b)
				if uerr != nil {
					err = uerr
					return
				}
				got, err = blobshare.Decrypt(k, n, e)
			}); p != "" {
				t.Fatalf("opening a blob of %d bytes panicked: %s", len(b), p)
			}
			return
		}
		if got, err := open(&key, packed); err != nil || !bytes.Equal(got, data) {
			t.Fatalf("opening gave %v, %v; packed %v", hz.Short(got), err, hz.Short(data))
		}
		if _, err := open(&key2, packed); err == nil {
			t.Fatalf("another key opened the blob")
		}
		alt, kind := alter(t, packed)
		if !bytes.Equal(alt, packed) {
			if got, err := open(&key, alt); err == nil {
				t.Fatalf("an altered blob (%s) opened as %v", kind, hz.Short(got))
			}
			hz.Class("altered blobs: " + kind)
		}
		hz.Case(true, fmt.Sprintf("%x %v", data, kind), fmt.Sprintf("random key, %d bytes, %s", len(data), kind))
	})
}

// The packing functions on their own: exact inverses, short input refused.
func TestC09Pack(t *testing.T) {
	hz.Check(t, 1500, func(t *rapid.T) {
		b := rapid.SliceOfN(rapid.Byte(), 0, 120).Draw(t, "packed")
		if p := hz.NoPanic(func() {
			salt, nonce, data, err := blobshare.UnpackSaltNonce(b)
			if (err == nil) != (len(b) >= 56) {
				t.Fatalf("UnpackSaltNonce of %d bytes: %v", len(b), err)
			}
			if err == nil && !bytes.Equal(blobshare.PackSaltNonce(salt, nonce, data), b) {
				t.Fatalf("packing what was unpacked differs")
			}
			n2, d2, err := blobshare.UnpackNonce(b)
			if (err == nil) != (len(b) >= 24) {
				t.Fatalf("UnpackNonce of %d bytes: %v", len(b), err)
			}
			if err == nil && !bytes.Equal(blobshare.PackNonce(n2, d2), b) {
				t.Fatalf("packing what was unpacked differs")
			}
		}); p != "" {
			t.Fatalf("unpacking %d bytes panicked: %s", len(b), p)
		}
		hz.ClassIf(len(b) < 56, "short packings")
		hz.Case(len(b) > 0, fmt.Sprintf("%x", b), fmt.Sprintf("unpack %x", b))
	})
}
