package sessionprop

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/companyzero/zkc/session"
	"pgregory.net/rapid"

	"zkcverif/hz"
)

var initOnce sync.Once

// The real responder against the documented initiator. Runs in a process of
// its own: Init rotates the process wide ephemeral keys.
func TestC06Responder(t *testing.T) {
	initOnce.Do(session.Init)
	recordForeign(t)
	hz.Check(t, 150, func(t *rapid.T) {
		max := genMax.Draw(t, "max")
		mode := rapid.SampledFrom([]string{"honest", "tamper", "tamper", "deviate", "deviate", "impostor", "wrongserver", "replay", "parallel"}).Draw(t, "mode")
		srv, cli := identity(0), identity(1)
		if mode == "parallel" {
			parallel(t, max)
			return
		}
		var d *deviation
		var tx *tamper
		dir := "c2s"
		what := mode
		expect := &srv.Public.Key
		switch mode {
		case "deviate":
			step := rapid.IntRange(1, 5).Draw(t, "step")
			d, what = genDeviation(t, step)
			what = "client: " + what
		case "tamper":
			x := genTamper.Draw(t, "tamper")
			tx = &x
			dir = rapid.SampledFrom([]string{"s2c", "c2s"}).Draw(t, "dir")
			what = dir + " " + x.String()
		case "impostor":
			d = &deviation{claimPub: &identity(2).Public.Key}
		case "wrongserver":
			expect = &identity(2).Public.Key
		}
		w := newSide()
		var recC, recS [][]byte
		var appC, appS bool
		var tc, ts *tamper
		if dir == "c2s" {
			tc = tx
		} else {
			ts = tx
		}
		var pumps sync.WaitGroup
		pumps.Add(2)
		go func() { defer pumps.Done(); pump(w.c2s1, w.c2s2, cipherLen, tc, foreignC2S, &appC, &recC) }()
		go func() { defer pumps.Done(); pump(w.s2c1, w.s2c2, 0, ts, foreignS2C, &appS, &recS) }()
		kx := &session.KX{Conn: &end{r: w.c2s2, w: w.s2c1}, MaxMessageSize: uint(max),
			OurPrivateKey: &srv.PrivateKey, OurPublicKey: &srv.Public.Key}
		rc := &ref{conn: &end{r: w.s2c2, w: w.c2s1}, max: max}
		cdone := make(chan error, 1)
		go func() {
			var err error
			if mode == "replay" {
				for _, f := range foreignC2S {
					w.c2s1.Write(f)
				}
				w.c2s1.Close()
				err = errRefDone
			} else {
				err = rc.initiate(cli, expect, d)
			}
			if err != nil && err != errRefDone {
				w.close()
			}
			cdone <- err
		}()
		if d != nil && d.step == 1 {
			// Changing the length of the unframed first message shifts
			// all that follows; the responder may wait for more.
			time.AfterFunc(100*time.Millisecond, w.c2s1.Close)
		}
		var serr error
		var pan string
		guarded(t, "Respond ("+what+")", w.close, func() {
			pan = hz.NoPanic(func() { serr = kx.Respond() })
			if pan != "" || serr != nil {
				w.close()
			}
		})
		cerr := <-cdone
		defer w.close()
		if pan != "" {
			t.Fatalf("Respond panicked (%s): %s", what, pan)
		}
		hz.Class("responder: " + mode)
		hz.Case(mode != "honest", fmt.Sprint("R", what, max), fmt.Sprintf("responder, max %d, %s", max, what))
		if mode != "honest" && mode != "impostor" {
			w.close()
			hz.Within(t, "the harness", pumps.Wait)
		}
		switch mode {
		case "honest":
			if cerr != nil || serr != nil {
				t.Fatalf("honest exchange failed: initiator %v, responder %v", cerr, serr)
			}
			if kx.TheirIdentity().([32]byte) != sha256.Sum256(cli.Public.Key[:]) {
				t.Fatalf("server misidentifies the client")
			}
			exchange(t, "client to server", func(p []byte) error { return rc.seal(p, rc.wkey) }, kx.Read, 3)
			exchange(t, "server to client", kx.Write, func() ([]byte, error) { return rc.open(rc.rkey) }, 3)
			checkSecret(t, append(append([]byte(nil), bytes.Join(recC, nil)...), bytes.Join(recS, nil)...), map[string][]byte{
				"client identity": cli.Public.Key[:], "server identity": srv.Public.Key[:],
			})
		case "deviate", "wrongserver", "replay":
			if serr == nil {
				t.Fatalf("the responder completed the exchange (%s)", what)
			}
		case "impostor":
			// The client does not hold the key of the identity it claims:
			// either the exchange fails or nothing it sends is accepted.
			if serr == nil {
				if rc.wkey != nil {
					rc.seal([]byte("forged"), rc.wkey)
					w.c2s1.Close()
				}
				if p, err := kx.Read(); err == nil {
					t.Fatalf("accepted %q from a client that does not hold the key of the identity it claims", p)
				}
			}
		case "tamper":
			if dir == "c2s" && appC && serr == nil && !benign(*tx, foreignC2S) {
				t.Fatalf("the responder completed the exchange in spite of %s", what)
			}
			if cerr == nil && serr == nil && !benign(*tx, nil) {
				t.Fatalf("both ends completed the exchange in spite of %s", what)
			}
		}
	})
}

// parallel: several clients at once, each gets its own session.
func parallel(t *rapid.T, max int) {
	n := rapid.IntRange(2, 6).Draw(t, "clients")
	who := rapid.SliceOfN(rapid.IntRange(1, 4), n, n).Draw(t, "who")
	for _, k := range who {
		identity(k)
	}
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			c2s, s2c := newQueue(), newQueue()
			rc := &ref{conn: &end{r: s2c, w: c2s}}
			kx := &session.KX{Conn: &end{r: c2s, w: s2c}, MaxMessageSize: uint(max),
				OurPrivateKey: &ids[0].PrivateKey, OurPublicKey: &ids[0].Public.Key}
			done := make(chan error, 1)
			go func() {
				err := kx.Respond()
				if err != nil {
					c2s.Close()
					s2c.Close()
				}
				done <- err
			}()
			err := rc.initiate(ids[who[i]], &ids[0].Public.Key, nil)
			if err != nil {
				c2s.Close()
				s2c.Close()
			}
			if e := <-done; e != nil {
				err = e
			}
			if err != nil {
				errs[i] = err
				return
			}
			if kx.TheirIdentity().([32]byte) != sha256.Sum256(ids[who[i]].Public.Key[:]) {
				errs[i] = fmt.Errorf("misidentified")
				return
			}
			rc.seal([]byte{byte(i)}, rc.wkey)
			c2s.Close()
			p, err := kx.Read()
			if err != nil || !bytes.Equal(p, []byte{byte(i)}) {
				errs[i] = fmt.Errorf("read %x %v", p, err)
			}
		}(i)
	}
	hz.Within(t, "parallel exchanges", wg.Wait)
	for i, err := range errs {
		if err != nil {
			t.Fatalf("parallel exchange %d of %d (%v): %v", i, n, who, err)
		}
	}
	hz.Class("responder: parallel")
	hz.Case(true, fmt.Sprint("P", who, max), fmt.Sprintf("parallel exchanges of clients %v", who))
}
