package serverprop

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/companyzero/zkc/rpc"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"pgregory.net/rapid"

	"zkcverif/hz"
)

// reset makes the end of a connection abrupt.
func reset(c net.Conn) {
	if t, ok := c.(*tls.Conn); ok {
		if tc, ok := t.NetConn().(*net.TCPConn); ok {
			tc.SetLinger(0)
			tc.Close()
			return
		}
	}
	c.Close()
}

// Several clients of the same users connect, use and abandon their sessions at
// any stage, all at once. Whoever comes last is served as ever.
func TestC15Storm(t *testing.T) {
	hz.Check(t, 6, func(t *rapid.T) {
		s := startServer(t, options{Directory: rapid.Bool().Draw(t, "directory"), MOTD: "hi"})
		defer s.close()
		n := rapid.IntRange(1, 3).Draw(t, "users")
		clients := rapid.IntRange(2, 5).Draw(t, "clients per user")
		rounds := rapid.IntRange(3, 12).Draw(t, "rounds")
		seed := int64(rapid.IntRange(0, 1<<30).Draw(t, "seed"))
		for i := 0; i < n; i++ {
			s.mustCreate(t, person(i))
		}
		writer := person(20)
		s.mustCreate(t, writer)
		w := s.connect(t, writer)
		defer w.close()
		count := make([]int, n)
		say := func(i int) {
			x := []byte{byte(i), byte(count[i] >> 8), byte(count[i])}
			if err := w.send(person(i).Public.Identity, x, count[i]%2 == 0); err != nil {
				s.alive(t, "during a storm")
				t.Fatalf("message #%d to user %d: %v (%v)\n%s", count[i], i, err, w.err, s.tail())
			}
			count[i]++
		}
		for k := 0; k < rapid.IntRange(0, 40).Draw(t, "before"); k++ {
			say(k % n)
		}
		var opened, alive int32
		var wg sync.WaitGroup
		stop := make(chan struct{})
		for i := 0; i < n; i++ {
			for j := 0; j < clients; j++ {
				wg.Add(1)
				go func(i, j int) {
					defer wg.Done()
					r := rand.New(rand.NewSource(seed + int64(1000*i+j)))
					for k := 0; k < rounds; k++ {
						nc, err := s.dial()
						if err != nil {
							continue
						}
						switch r.Intn(8) {
						case 0:
							reset(nc)
							continue
						case 1:
							nc.SetDeadline(time.Now().Add(hz.WaitLimit))
							xdr.Marshal(nc, rpc.InitialCmdSession)
							nc.Write(make([]byte, r.Intn(3000)))
							reset(nc)
							continue
						}
						c, _, err := s.openOn(nc, person(i), maxMsg)
						if err != nil {
							continue
						}
						atomic.AddInt32(&opened, 1)
						switch r.Intn(5) {
						case 0:
							// at once
						case 1:
							if c.ping() == nil {
								atomic.AddInt32(&alive, 1)
							}
						case 2:
							time.Sleep(time.Duration(r.Intn(5000)) * time.Microsecond)
						case 3:
							// leave replies unread
							c.kx.Conn.SetReadDeadline(time.Now())
							for p := 0; p < r.Intn(200); p++ {
								if c.write(rpc.Message{Command: rpc.TaggedCmdPing, Tag: uint32(p % tagDepth)}, rpc.Ping{}) != nil {
									break
								}
							}
						case 4:
							// the next one takes over
							go func() {
								select {
								case <-c.closed:
								case <-stop:
								}
								c.close()
							}()
							continue
						}
						if r.Intn(2) == 0 {
							reset(nc)
						}
						c.close()
					}
				}(i, j)
			}
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
	loop:
		for k := 0; ; k++ {
			select {
			case <-done:
				break loop
			case <-time.After(2 * time.Millisecond):
				if count[k%n] < 500 {
					say(k % n)
				}
			}
		}
		close(stop)
		s.alive(t, "during a storm")
		hist := fmt.Sprintf("%d users with %d clients of %d rounds, %d sessions opened", n, clients, rounds, opened)
		for i := 0; i < n; i++ {
			c := s.connect(t, person(i))
			defer c.close()
			// after the storm messages arrive live, too
			for k := 0; k < 5; k++ {
				say(i)
			}
			for k := 0; k < count[i]; k++ {
				p := c.recv(hz.WaitLimit)
				if p == nil {
					t.Fatalf("after a storm (%s) user %d waits for #%d of %d in vain (%v)\n%s", hist, i, k, count[i], c.err, s.tail())
				}
				x := []byte{byte(i), byte(k >> 8), byte(k)}
				if !bytes.Equal(p.p.Payload, x) || p.p.From != writer.Public.Identity {
					t.Fatalf("after a storm (%s) user %d expects #%d, got %x", hist, i, k, p.p.Payload)
				}
				if err := c.ack(p); err != nil {
					t.Fatalf("ack: %v", err)
				}
			}
		}
		if err := w.ping(); err != nil {
			t.Fatalf("a bystander lost the connection in a storm (%s): %v", hist, w.err)
		}
		hz.ClassIf(alive > 0, "storm: sessions that worked meanwhile")
		hz.Case(opened > 1, fmt.Sprint("storm", n, clients, rounds, seed), hist)
	})
}
