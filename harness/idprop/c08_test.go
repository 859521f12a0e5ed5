// Package idprop checks the identity package.
package idprop

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/companyzero/zkc/zkidentity"
	"golang.org/x/crypto/ed25519"
	"pgregory.net/rapid"

	"zkcverif/hz"
)

func TestMain(m *testing.M) { hz.Main(m) }

var genName = rapid.OneOf(
	rapid.StringN(0, 12, -1),
	rapid.StringN(0, 12, -1),
	rapid.StringMatching(`[a-zA-Z ]{1,20}`),
	rapid.Custom(func(t *rapid.T) string { return string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "raw")) }),
	rapid.Custom(func(t *rapid.T) string { return strings.Repeat("x", rapid.IntRange(200, 3000).Draw(t, "long")) }),
)

var pool []*zkidentity.FullIdentity

func other(n int) *zkidentity.FullIdentity {
	for len(pool) <= n {
		id, err := zkidentity.New(fmt.Sprintf("other %d", len(pool)), "o")
		hz.Must(err)
		pool = append(pool, id)
	}
	return pool[n]
}

// clone copies through the exported fields only.
func clone(p *zkidentity.PublicIdentity) *zkidentity.PublicIdentity { q := *p; return &q }

func digest(p *zkidentity.PublicIdentity) [32]byte {
	d := sha256.New()
	d.Write([]byte(p.Name))
	d.Write([]byte(p.Nick))
	d.Write(p.SigKey[:])
	d.Write(p.Key[:])
	d.Write(p.Identity[:])
	var r [32]byte
	copy(r[:], d.Sum(nil))
	return r
}

func flip(t *rapid.T, b []byte) {
	b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
}

// accepted says whether an identity survives the way a peer takes it in.
func accepted(t hz.Fataler, p *zkidentity.PublicIdentity) bool {
	v := clone(p).Verify()
	b, err := p.Marshal()
	if err != nil {
		return v
	}
	q, err := zkidentity.UnmarshalPublicIdentity(b)
	if err == nil && !reflect.DeepEqual(q, p) {
		t.Fatalf("decoding an encoded identity changed it")
	}
	if (err == nil) != v {
		t.Fatalf("Verify says %v, decoding says %v", v, err)
	}
	return v
}

// hugeStrings says whether one of the two leading strings claims to be longer
// than 16 MB.
func hugeStrings(b []byte) bool {
	for i := 0; i < 2 && len(b) >= 4; i++ {
		n := int(binary.BigEndian.Uint32(b))
		if n >= 1<<24 {
			return true
		}
		n = (n + 3) / 4 * 4
		if n > len(b)-4 {
			return false
		}
		b = b[4+n:]
	}
	return false
}

const boundaryKey = "name-nick-boundary"

const boundary = "an identity with bytes moved between the end of its name and the start of its nick still verifies (the signed digest does not separate the two)"

func TestC08Identity(t *testing.T) {
	hz.Check(t, 60, func(t *rapid.T) {
		name, nick := genName.Draw(t, "name"), genName.Draw(t, "nick")
		fi, err := zkidentity.New(name, nick)
		if err != nil {
			t.Fatalf("New(%q, %q): %v", name, nick, err)
		}
		pub := &fi.Public
		if pub.Name != name || pub.Nick != nick {
			t.Fatalf("New(%q, %q) made an identity called %q, %q", name, nick, pub.Name, pub.Nick)
		}
		if pub.Identity != sha256.Sum256(pub.Key[:]) {
			t.Fatalf("the identity is not the digest of the key")
		}
		if !accepted(t, pub) {
			t.Fatalf("a fresh identity does not verify")
		}
		// round trips
		b, err := fi.Marshal()
		hz.Must(err)
		g, err := zkidentity.UnmarshalFullIdentity(b)
		if err != nil || !reflect.DeepEqual(g, fi) {
			t.Fatalf("full identity changed by encoding: %v", err)
		}
		fp := pub.Fingerprint()
		if fp != hex.EncodeToString(pub.Identity[:]) || fp != pub.String() || fp != zkidentity.Fingerprint(pub.Identity) {
			t.Fatalf("fingerprint %q", fp)
		}
		id, err := zkidentity.String2ID(fp)
		if err != nil || *id != pub.Identity {
			t.Fatalf("String2ID(%q): %v", fp, err)
		}
		// A second signing keeps it valid, under a new name too.
		rn := genName.Draw(t, "new name")
		ren, err := zkidentity.UnmarshalFullIdentity(b)
		hz.Must(err)
		ren.Public.Name = rn
		if err := ren.RecalculateDigest(); err != nil || !accepted(t, &ren.Public) || ren.Public.Identity != pub.Identity {
			t.Fatalf("renamed identity: %v", err)
		}

		// alterations of the struct
		kind := rapid.SampledFrom([]string{"name", "nick", "sigkey", "key", "identity", "digest", "signature", "boundary", "swapkey", "swapsig", "swapidentity", "otheridentity"}).Draw(t, "alter")
		redigest := rapid.Bool().Draw(t, "recompute the digest")
		q := clone(pub)
		o := &other(rapid.IntRange(0, 2).Draw(t, "other")).Public
		switch kind {
		case "name":
			q.Name = genName.Filter(func(s string) bool { return s != name }).Draw(t, "v")
		case "nick":
			q.Nick = genName.Filter(func(s string) bool { return s != nick }).Draw(t, "v")
		case "sigkey":
			flip(t, q.SigKey[:])
		case "key":
			flip(t, q.Key[:])
		case "identity":
			flip(t, q.Identity[:])
		case "digest":
			flip(t, q.Digest[:])
		case "signature":
			flip(t, q.Signature[:])
		case "boundary":
			all := name + nick
			k := rapid.IntRange(0, len(all)).Draw(t, "split")
			q.Name, q.Nick = all[:k], all[k:]
		case "swapkey":
			q.Key, q.Identity = o.Key, o.Identity
		case "swapsig":
			q.SigKey = o.SigKey
		case "swapidentity":
			q.Identity = o.Identity
		case "otheridentity":
			// a correctly signed identity that claims another's handle
			full := *fi
			full.Public.Identity = o.Identity
			full.RecalculateDigest()
			*q = full.Public
			q.Digest = digest(q)
			copy(q.Signature[:], ed25519.Sign(fi.PrivateSigKey[:], q.Digest[:]))
		}
		if redigest && kind != "digest" {
			q.Digest = digest(q)
		}
		same := reflect.DeepEqual(q, pub)
		if !same && accepted(t, q) {
			if q.Name+q.Nick == name+nick && q.Name != name {
				r := clone(q)
				r.Name, r.Nick = name, nick
				if reflect.DeepEqual(r, pub) {
					hz.Known(boundary)
					hz.Class("known: name/nick boundary")
					goto bytesLevel
				}
			}
			t.Fatalf("an identity with an altered %s verifies (digest recomputed: %v)", kind, redigest)
		}
	bytesLevel:
		hz.Class("altered field: " + kind)

		// alterations of the encoding
		pb, err := pub.Marshal()
		hz.Must(err)
		for i := 0; i < 8; i++ {
			c := append([]byte(nil), pb...)
			what := rapid.SampledFrom([]string{"flip", "flip", "truncate", "insert", "delete", "splice"}).Draw(t, "byte change")
			at := rapid.IntRange(0, len(c)-1).Draw(t, "at")
			switch what {
			case "flip":
				c[at] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
			case "truncate":
				c = c[:at]
			case "insert":
				c = append(c[:at:at], append([]byte{byte(rapid.IntRange(0, 255).Draw(t, "x"))}, c[at:]...)...)
			case "delete":
				c = append(c[:at:at], c[at+1:]...)
			case "splice":
				ob, err := o.Marshal()
				hz.Must(err)
				if len(ob) == len(c) {
					copy(c[at:], ob[at:])
				} else if len(ob) > 300 && len(c) > 300 {
					n := 64 + at%200 // within the signature and digest
					copy(c[len(c)-n:], ob[len(ob)-n:])
				}
			}
			if hugeStrings(c) {
				continue // lengths of 16 MB and more only cost memory
			}
			var r *zkidentity.PublicIdentity
			var err error
			if p := hz.NoPanic(func() { r, err = zkidentity.UnmarshalPublicIdentity(c) }); p != "" {
				t.Fatalf("decoding panicked: %s", p)
			}
			if err == nil && !reflect.DeepEqual(r, pub) && !reflect.DeepEqual(r, o) {
				t.Fatalf("decoding an altered encoding (%s at %d) gave a different valid identity %q %q", what, at, r.Name, r.Nick)
			}
			if p := hz.NoPanic(func() { zkidentity.UnmarshalFullIdentity(c) }); p != "" {
				t.Fatalf("decoding panicked: %s", p)
			}
			hz.Class("altered encoding: " + what)
		}

		// messages
		msg := rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(t, "message")
		sig := fi.SignMessage(msg)
		if !pub.VerifyMessage(msg, sig) {
			t.Fatalf("own signature does not verify")
		}
		if o.VerifyMessage(msg, sig) {
			t.Fatalf("signature verifies for another identity")
		}
		s2 := sig
		flip(t, s2[:])
		if pub.VerifyMessage(msg, s2) {
			t.Fatalf("altered signature verifies")
		}
		m2 := append([]byte(nil), msg...)
		if len(m2) > 0 && rapid.Bool().Draw(t, "flip") {
			flip(t, m2)
		} else {
			m2 = append(m2, rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(t, "tail")...)
		}
		if pub.VerifyMessage(m2, sig) {
			t.Fatalf("signature verifies for another message")
		}
		hz.Case(!same, fmt.Sprintf("%q %q %s %v", name, nick, kind, redigest), fmt.Sprintf("name %q nick %q, altered %s, digest recomputed %v", hz.Trim(name, 60), hz.Trim(nick, 60), kind, redigest))
	})
}

func TestC08String2ID(t *testing.T) {
	hz.Check(t, 500, func(t *rapid.T) {
		s := rapid.OneOf(
			rapid.StringMatching(`[0-9a-fA-F]{60,68}`),
			rapid.StringMatching(`[0-9a-fA-F]{64}`),
			rapid.StringMatching(`[0-9a-gG]{64}`),
			rapid.StringN(0, 80, -1),
		).Draw(t, "s")
		want, herr := hex.DecodeString(s)
		ok := herr == nil && len(want) == 32
		var id *[32]byte
		var err error
		if p := hz.NoPanic(func() { id, err = zkidentity.String2ID(s) }); p != "" {
			t.Fatalf("String2ID(%q) panicked: %s", s, p)
		}
		if ok && (err != nil || !bytes.Equal(id[:], want)) {
			t.Fatalf("String2ID(%q) = %v, %v", s, id, err)
		}
		if !ok && err == nil {
			t.Fatalf("String2ID(%q) accepted", s)
		}
		hz.ClassIf(ok, "identity strings: valid")
		hz.ClassIf(!ok, "identity strings: invalid")
		hz.Case(s != "", s, fmt.Sprintf("String2ID(%q): valid %v", s, ok))
	})
}

// The listed finding, in its simplest form.
func TestC08Boundary(t *testing.T) {
	fi, err := zkidentity.New("alice", "al")
	hz.Must(err)
	q := clone(&fi.Public)
	q.Name, q.Nick = "alic", "eal"
	if q.Verify() {
		if !hz.Listed(boundaryKey) {
			t.Fatalf("%s", boundary)
		}
		hz.Known(boundary)
	}
}
