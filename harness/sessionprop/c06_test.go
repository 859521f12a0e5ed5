package sessionprop

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/companyzero/zkc/session"
	"pgregory.net/rapid"

	"zkcverif/hz"
)

const minMax = 1300 // the handshake's own messages must fit

var genMax = rapid.SampledFrom([]int{minMax, 4096, 65536, 1024 * 1024})

// run runs f with both directions closed when it has not ended in time;
// everything a reader waits for is either there or never comes.
func guarded(t hz.Fataler, what string, closeAll func(), f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(hz.WaitLimit):
		closeAll()
		t.Fatalf("%s did not complete", what)
	}
}

// tamper describes what an attacker on the wire does to one handshake frame.
type tamper struct {
	frame int
	kind  string
	a, b  int
}

func (x tamper) String() string { return fmt.Sprintf("%s(frame %d,%d,%d)", x.kind, x.frame, x.a, x.b) }

// pump forwards frames from in to out through the attacker. rawFirst is the
// size of a leading frame without length prefix. It returns false in ok when
// the tampering could not be applied or cannot be noticed.
func pump(in, out *queue, rawFirst int, x *tamper, foreign [][]byte, applied *bool, rec *[][]byte) {
	defer out.Close()
	idx := 0
	var prev []byte
	for {
		var f []byte
		var pad int
		if idx == 0 && rawFirst > 0 {
			f = make([]byte, (rawFirst+3)/4*4)
			if _, err := io.ReadFull(in, f); err != nil {
				return
			}
			pad = len(f) - rawFirst
		} else {
			h := make([]byte, 4)
			if _, err := io.ReadFull(in, h); err != nil {
				return
			}
			n := int(h[0])<<24 | int(h[1])<<16 | int(h[2])<<8 | int(h[3])
			if n > 1<<21 {
				return // not a frame, an earlier length was changed
			}
			f = make([]byte, 4+(n+3)/4*4)
			copy(f, h)
			if _, err := io.ReadFull(in, f[4:]); err != nil {
				return
			}
			pad = len(f) - 4 - n
		}
		*rec = append(*rec, append([]byte(nil), f...))
		if x != nil && x.frame == idx {
			*applied = true
			switch x.kind {
			case "flip":
				g := append([]byte(nil), f...)
				g[x.a%(len(f)-pad)] ^= byte(x.b)
				out.Write(g)
				if x.a%(len(f)-pad) < 4 && !(idx == 0 && rawFirst > 0) {
					return // length changed, the stream ends here
				}
			case "truncate":
				out.Write(f[:x.a%(len(f)-pad)])
				return
			case "drop":
				// The next frame takes its place. Both ends may now wait
				// for each other.
				time.AfterFunc(50*time.Millisecond, out.Close)
			case "dup":
				out.Write(f)
				out.Write(f)
			case "replace":
				out.Write(foreign[idx])
			case "repeat":
				if prev == nil {
					prev = bytes.Repeat([]byte{0}, len(f))
				}
				out.Write(prev)
			case "zero":
				g := make([]byte, len(f))
				copy(g[:4], f[:4])
				out.Write(g)
			}
		} else {
			out.Write(f)
		}
		prev = f
		idx++
	}
}

type side struct {
	c2s1, c2s2, s2c1, s2c2 *queue // client -> attacker -> server and back
}

func newSide() *side { return &side{newQueue(), newQueue(), newQueue(), newQueue()} }

func (s *side) close() {
	for _, q := range []*queue{s.c2s1, s.c2s2, s.s2c1, s.s2c2} {
		q.Close()
	}
}

const cipherLen = 1047

var genTamper = rapid.Custom(func(t *rapid.T) tamper {
	return tamper{
		frame: rapid.IntRange(0, 4).Draw(t, "frame"),
		kind:  rapid.SampledFrom([]string{"flip", "flip", "flip", "truncate", "drop", "dup", "replace", "repeat", "zero"}).Draw(t, "kind"),
		a:     rapid.IntRange(0, 2000).Draw(t, "a"),
		b:     rapid.IntRange(1, 255).Draw(t, "b"),
	}
})

// Frames of an unrelated exchange between the same parties, per direction.
var foreignC2S, foreignS2C [][]byte

func recordForeign(t hz.Fataler) {
	if foreignC2S != nil {
		return
	}
	w := newSide()
	var a, b bool
	var pumps sync.WaitGroup
	pumps.Add(2)
	go func() { defer pumps.Done(); pump(w.c2s1, w.c2s2, cipherLen, nil, nil, &a, &foreignC2S) }()
	go func() { defer pumps.Done(); pump(w.s2c1, w.s2c2, 0, nil, nil, &b, &foreignS2C) }()
	c := &ref{conn: &end{r: w.s2c2, w: w.c2s1}}
	s := &ref{conn: &end{r: w.c2s2, w: w.s2c1}}
	done := make(chan error, 1)
	go func() { _, err := s.respond(identity(0), nil); done <- err }()
	hz.Must(c.initiate(identity(1), &identity(0).Public.Key, nil))
	hz.Must(<-done)
	w.close()
	pumps.Wait()
	if len(foreignC2S) != 5 || len(foreignS2C) != 5 {
		hz.Infra("recorded %d and %d frames", len(foreignC2S), len(foreignS2C))
	}
}

func exchange(t *rapid.T, what string, write func([]byte) error, read func() ([]byte, error), n int) {
	for i := 0; i < n; i++ {
		p := rapid.SliceOfN(rapid.Byte(), 0, 50).Draw(t, "payload")
		if err := write(p); err != nil {
			t.Fatalf("%s: write: %v", what, err)
		}
		g, err := read()
		if err != nil {
			t.Fatalf("%s: read: %v", what, err)
		}
		if !bytes.Equal(g, p) {
			t.Fatalf("%s: read %x, sent %x", what, g, p)
		}
	}
}

// The real initiator against the documented responder.
func TestC06Initiator(t *testing.T) {
	recordForeign(t)
	hz.Check(t, 150, func(t *rapid.T) {
		max := genMax.Draw(t, "max")
		mode := rapid.SampledFrom([]string{"honest", "tamper", "tamper", "deviate", "deviate", "wrongserver"}).Draw(t, "mode")
		srv, cli := identity(0), identity(1)
		expect := srv
		var d *deviation
		var tx *tamper
		dir := "s2c"
		what := mode
		switch mode {
		case "deviate":
			step := rapid.IntRange(1, 5).Draw(t, "step")
			d, what = genDeviation(t, step)
			what = "server: " + what
		case "tamper":
			x := genTamper.Draw(t, "tamper")
			tx = &x
			dir = rapid.SampledFrom([]string{"s2c", "c2s"}).Draw(t, "dir")
			what = dir + " " + x.String()
		case "wrongserver":
			expect = identity(2)
		}
		w := newSide()
		var recC, recS [][]byte
		var appC, appS bool
		var tc, ts *tamper
		if dir == "c2s" {
			tc = tx
		} else {
			ts = tx
		}
		var pumps sync.WaitGroup
		pumps.Add(2)
		go func() { defer pumps.Done(); pump(w.c2s1, w.c2s2, cipherLen, tc, foreignC2S, &appC, &recC) }()
		go func() { defer pumps.Done(); pump(w.s2c1, w.s2c2, 0, ts, foreignS2C, &appS, &recS) }()
		kx := &session.KX{Conn: &end{r: w.s2c2, w: w.c2s1}, MaxMessageSize: uint(max),
			OurPrivateKey: &cli.PrivateKey, OurPublicKey: &cli.Public.Key, TheirPublicKey: &expect.Public.Key}
		rs := &ref{conn: &end{r: w.c2s2, w: w.s2c1}, max: max}
		type res struct {
			pub []byte
			err error
		}
		sdone := make(chan res, 1)
		go func() {
			pub, err := rs.respond(srv, d)
			if err != nil {
				w.close()
			}
			sdone <- res{pub, err}
		}()
		var cerr error
		var pan string
		guarded(t, "Initiate ("+what+")", w.close, func() {
			pan = hz.NoPanic(func() { cerr = kx.Initiate() })
			if pan != "" || cerr != nil {
				w.close()
			}
		})
		sr := <-sdone
		defer w.close()
		if pan != "" {
			t.Fatalf("Initiate panicked (%s): %s", what, pan)
		}
		hz.Class("initiator: " + mode)
		hz.Case(mode != "honest", fmt.Sprint("I", what, max), fmt.Sprintf("initiator, max %d, %s", max, what))
		if mode != "honest" && mode != "impostor" {
			w.close()
			hz.Within(t, "the harness", pumps.Wait)
		}
		switch mode {
		case "honest":
			if cerr != nil || sr.err != nil {
				t.Fatalf("honest exchange failed: initiator %v, responder %v", cerr, sr.err)
			}
			if !bytes.Equal(sr.pub, cli.Public.Key[:]) {
				t.Fatalf("the client disclosed another identity")
			}
			if kx.TheirIdentity().([32]byte) != sha256.Sum256(srv.Public.Key[:]) {
				t.Fatalf("client misidentifies the server")
			}
			exchange(t, "client to server", kx.Write, func() ([]byte, error) { return rs.open(rs.rkey) }, 3)
			exchange(t, "server to client", func(p []byte) error { return rs.seal(p, rs.wkey) }, kx.Read, 3)
			checkSecret(t, append(append([]byte(nil), bytes.Join(recC, nil)...), bytes.Join(recS, nil)...), map[string][]byte{
				"client identity": cli.Public.Key[:], "server identity": srv.Public.Key[:],
			})
		case "deviate":
			if cerr == nil {
				t.Fatalf("the initiator completed the exchange with a server that sent %s", what)
			}
		case "wrongserver":
			if cerr == nil {
				t.Fatalf("the initiator completed the exchange with another server than it asked for")
			}
			for i, f := range recC {
				if contains(f, cli.Public.Key[:16]) {
					t.Fatalf("client identity in frame %d", i)
				}
			}
			if len(recC) > 2 {
				t.Fatalf("the client disclosed its identity before the server was authenticated")
			}
		case "tamper":
			if dir == "s2c" && appS && cerr == nil && !benign(*tx, foreignS2C) {
				t.Fatalf("the initiator completed the exchange in spite of %s", what)
			}
			if cerr == nil && sr.err == nil && !(dir == "s2c" && tx.kind == "dup" && tx.frame == 4) &&
				!(dir == "c2s" && tx.kind == "dup" && tx.frame == 4) {
				if !(appC || appS) {
					t.Fatalf("harness: tampering not applied")
				}
				t.Fatalf("both ends completed the exchange in spite of %s", what)
			}
		}
	})
}

// benign: the tampering leaves the handshake's bytes as they were (a frame
// after the last one).
func benign(x tamper, foreign [][]byte) bool {
	return x.kind == "dup" && x.frame == 4
}

// checkSecret looks for 16 byte windows of secrets on the wire.
func checkSecret(t *rapid.T, wire []byte, secrets map[string][]byte) {
	for n, s := range secrets {
		for i := 0; i+16 <= len(s); i += 64 {
			if contains(wire, s[i:i+16]) {
				t.Fatalf("%s appears on the wire in the clear", n)
			}
		}
	}
}

func genDeviation(t *rapid.T, step int) (*deviation, string) {
	kind := rapid.SampledFrom([]string{"flip", "short", "long", "empty", "zero", "random"}).Draw(t, "deviation")
	a := rapid.IntRange(0, 4000).Draw(t, "a")
	b := byte(rapid.IntRange(1, 255).Draw(t, "b"))
	if step == 1 && kind == "long" {
		a |= 3 // one to three more bytes may be alignment
	}
	d := &deviation{step: step}
	d.mutate = func(p []byte) []byte {
		switch kind {
		case "flip":
			p[a%len(p)] ^= b
		case "short":
			p = p[:len(p)-1-a%(len(p)/2)]
		case "long":
			p = append(p, bytes.Repeat([]byte{b}, 1+a%8)...)
		case "empty":
			p = nil
		case "zero":
			for i := range p {
				p[i] = 0
			}
		case "random":
			s := sha256.Sum256([]byte{byte(a), byte(a >> 8), b})
			for i := range p {
				p[i] = s[i%32] ^ byte(i/32)
			}
		}
		return p
	}
	return d, fmt.Sprintf("step %d %s(%d,%d)", step, kind, a, b)
}
