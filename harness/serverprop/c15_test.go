package serverprop

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/companyzero/zkc/zkidentity"
	"pgregory.net/rapid"

	"zkcverif/hz"
)

// relayed is one accepted message.
type relayed struct {
	id    int
	from  ID
	data  []byte
	clear bool
	maybe bool // acknowledged or not, nobody knows
}

type member struct {
	f     *zkidentity.FullIdentity
	c     *conn
	queue []*relayed // accepted, not acknowledged, in order
	seen  int        // of queue, received in this session
	held  []*push
	heldM []*relayed
}

// A server with a few users against queues.
func TestC15Model(t *testing.T) {
	hz.CheckSteps(t, 10, 90, func(t *rapid.T) {
		s := startServer(t, options{MOTD: "hello"})
		defer s.close()
		n := rapid.IntRange(2, 4).Draw(t, "users")
		us := make([]*member, n)
		for i := range us {
			us[i] = &member{f: person(i)}
			s.mustCreate(t, us[i].f)
		}
		defer func() {
			for _, u := range us {
				if u.c != nil {
					u.c.close()
				}
			}
		}()
		var log []string
		count, redeliver, acks, restarts := 0, 0, 0, 0
		fail := func(f string, args ...interface{}) {
			t.Helper()
			s.alive(t, "during "+hz.Join(log))
			t.Fatalf("%s\nhistory: %s\n%s", fmt.Sprintf(f, args...), hz.Join(log), s.tail())
		}
		gone := func(u *member) {
			u.c = nil
			u.seen = 0
			u.held, u.heldM = nil, nil
		}
		who := rapid.IntRange(0, n-1)
		// recv takes the next push of u and checks it.
		recv := func(i int) {
			u := us[i]
			p := u.c.recv(hz.WaitLimit)
			if p == nil {
				fail("user %d waits for message #%d in vain (connection: %v)", i, u.queue[u.seen].id, u.c.err)
			}
			for u.seen < len(u.queue) {
				x := u.queue[u.seen]
				if p.p.From == x.from && bytes.Equal(p.p.Payload, x.data) && p.msg.Cleartext == x.clear {
					u.seen++
					u.held = append(u.held, p)
					u.heldM = append(u.heldM, x)
					return
				}
				if !x.maybe {
					fail("user %d expects #%d (%v from %x), got %v from %x, cleartext %v", i, x.id, hz.Short(x.data), x.from[:4], hz.Short(p.p.Payload), p.p.From[:4], p.msg.Cleartext)
				}
				u.queue = append(u.queue[:u.seen:u.seen], u.queue[u.seen+1:]...)
			}
			fail("user %d got an unexpected message %v from %x", i, hz.Short(p.p.Payload), p.p.From[:4])
		}
		// due is how many messages must arrive now
		due := func(u *member) int {
			k := 0
			for j := u.seen; j < len(u.queue); j++ {
				if u.queue[j].maybe {
					break
				}
				k++
			}
			if free := tagDepth - len(u.held); k > free {
				k = free
			}
			return k
		}
		ack := func(i, k int) {
			u := us[i]
			x := u.heldM[k]
			if err := u.c.ack(u.held[k]); err != nil {
				fail("ack: %v", err)
			}
			for j, y := range u.queue {
				if y == x {
					u.queue = append(u.queue[:j:j], u.queue[j+1:]...)
					u.seen--
					break
				}
			}
			u.held = append(u.held[:k:k], u.held[k+1:]...)
			u.heldM = append(u.heldM[:k:k], u.heldM[k+1:]...)
		}
		acts := map[string]func(*rapid.T){
			"connect": func(t *rapid.T) {
				i := who.Draw(t, "who")
				u := us[i]
				if u.c != nil {
					return
				}
				if u.seen == 0 && len(u.queue) > 0 {
					redeliver++
				}
				u.c = s.connect(t, u.f)
				log = append(log, fmt.Sprintf("connect%d", i))
			},
			"takeover": func(t *rapid.T) {
				i := who.Draw(t, "who")
				u := us[i]
				if u.c == nil {
					return
				}
				old := u.c
				gone(u)
				u.c = s.connect(t, u.f)
				log = append(log, fmt.Sprintf("takeover%d", i))
				select {
				case <-old.closed:
				case <-time.After(hz.WaitLimit):
					fail("user %d has two sessions", i)
				}
			},
			"disconnect": func(t *rapid.T) {
				i := who.Draw(t, "who")
				u := us[i]
				if u.c == nil {
					return
				}
				how := "disconnect"
				if len(u.held) > 0 && rapid.Bool().Draw(t, "ack and leave") {
					// the last acknowledgement may not be noticed
					u.c.ack(u.held[0])
					u.heldM[0].maybe = true
					how = "ack+disconnect"
				}
				u.c.close()
				gone(u)
				log = append(log, fmt.Sprintf("%s%d", how, i))
			},
			"send": func(t *rapid.T) {
				i, j := who.Draw(t, "from"), who.Draw(t, "to")
				u := us[i]
				if u.c == nil {
					return
				}
				for k := rapid.SampledFrom([]int{1, 1, 1, 4, 40}).Draw(t, "n"); k > 0; k-- {
					x := &relayed{id: count, from: u.f.Public.Identity, clear: rapid.IntRange(0, 3).Draw(t, "clear") == 0}
					x.data = make([]byte, 4+rapid.SampledFrom([]int{0, 1, 3, 30, 5000}).Draw(t, "size"))
					may := false // be refused
					switch rapid.IntRange(0, 30).Draw(t, "large") {
					case 0:
						x.data = make([]byte, 262144)
					case 1:
						// about as large as a message can be
						x.data = make([]byte, maxMsg-80-rapid.IntRange(0, 24).Draw(t, "less"))
						may = true
					}
					binary.BigEndian.PutUint32(x.data, uint32(count))
					count++
					err := u.c.send(us[j].f.Public.Identity, x.data, x.clear)
					if may && errors.As(err, new(errRefused)) {
						log = append(log, fmt.Sprintf("%d->%d:too large(%d)", i, j, len(x.data)))
						continue
					}
					if err != nil {
						fail("send of #%d, %d bytes, from %d to %d: %v", x.id, len(x.data), i, j, err)
					}
					us[j].queue = append(us[j].queue, x)
					log = append(log, fmt.Sprintf("%d->%d:#%d(%d)", i, j, x.id, len(x.data)))
				}
			},
			"nobody": func(t *rapid.T) {
				i := who.Draw(t, "from")
				if us[i].c == nil {
					return
				}
				err := us[i].c.send(person(9).Public.Identity, []byte("x"), rapid.Bool().Draw(t, "clear"))
				if !errors.As(err, new(errRefused)) {
					fail("a message for nobody: %v", err)
				}
				log = append(log, fmt.Sprintf("%d->nobody", i))
			},
			"receive": func(t *rapid.T) {
				i := who.Draw(t, "who")
				if us[i].c == nil || due(us[i]) == 0 {
					return
				}
				k := rapid.IntRange(1, due(us[i])).Draw(t, "n")
				log = append(log, fmt.Sprintf("receive%d(%d)", i, k))
				for ; k > 0; k-- {
					recv(i)
				}
			},
			"ack": func(t *rapid.T) {
				i := who.Draw(t, "who")
				u := us[i]
				if u.c == nil || len(u.held) == 0 {
					return
				}
				k := rapid.IntRange(1, len(u.held)).Draw(t, "n")
				log = append(log, fmt.Sprintf("ack%d(%d)", i, k))
				for ; k > 0; k-- {
					ack(i, rapid.IntRange(0, len(u.held)-1).Draw(t, "which"))
					acks++
				}
				if err := u.c.ping(); err != nil {
					fail("ping after acks: %v (%v)", err, u.c.err)
				}
			},
			"kill": func(t *rapid.T) {
				if rapid.IntRange(0, 2).Draw(t, "really") > 0 {
					return
				}
				for _, u := range us {
					if u.c != nil {
						u.c.close()
						gone(u)
					}
				}
				s.restart()
				restarts++
				log = append(log, "kill")
			},
			"": func(t *rapid.T) { s.alive(t, "during "+hz.Join(log)) },
		}
		for _, k := range []string{"send", "receive", "ack", "connect"} {
			acts[k+"2"] = acts[k]
		}
		t.Repeat(acts)
		// in the end everybody gets everything
		for i, u := range us {
			if u.c == nil {
				u.c = s.connect(t, u.f)
			}
			for {
				for due(u) > 0 {
					recv(i)
				}
				if len(u.held) == 0 {
					break
				}
				for len(u.held) > 0 {
					ack(i, 0)
				}
				// a message that may be there comes before the others
				if err := u.c.ping(); err != nil {
					fail("final ping of %d: %v (%v)", i, err, u.c.err)
				}
				for u.seen < len(u.queue) && u.queue[u.seen].maybe {
					if p := u.c.recv(100 * time.Millisecond); p != nil {
						u.c.mtx.Lock()
						u.c.pushes = append([]*push{p}, u.c.pushes...)
						u.c.mtx.Unlock()
						recv(i)
					} else {
						u.queue = append(u.queue[:u.seen:u.seen], u.queue[u.seen+1:]...)
					}
				}
			}
			if p := u.c.recv(time.Millisecond); p != nil && len(u.queue) == 0 {
				fail("user %d got an extra message %v from %x", i, hz.Short(p.p.Payload), p.p.From[:4])
			}
		}
		hz.ClassIf(restarts > 0, "relay: server killed")
		hz.ClassIf(redeliver > 0, "relay: delivery to a user that was offline")
		hz.ClassIf(acks > 0, "relay: acknowledged")
		hz.Case(redeliver > 0 && acks > 0, hz.Join(log), fmt.Sprintf("%d users: %s", n, hz.Join(log)))
	})
}

// Everybody at once, coming and going; the server is killed now and then.
// Accepted messages arrive at least once and unaltered; within a session once
// and in the sender's order; and no more once the acknowledgement was taken.
func TestC15Concurrent(t *testing.T) {
	hz.Check(t, 6, func(t *rapid.T) {
		s := startServer(t, options{Directory: rapid.Bool().Draw(t, "directory")})
		defer s.close()
		n := rapid.IntRange(2, 6).Draw(t, "users")
		per := rapid.IntRange(10, 80).Draw(t, "messages")
		kills := rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "kills")
		reconnectOdds := rapid.SampledFrom([]int{5, 20, 100}).Draw(t, "reconnect odds")
		seed := int64(rapid.IntRange(0, 1<<30).Draw(t, "seed"))
		ackOdds := rapid.IntRange(1, 4).Draw(t, "ack odds")
		size := rapid.SampledFrom([]int{12, 100, 20000}).Draw(t, "size")
		for i := 0; i < n; i++ {
			s.mustCreate(t, person(i))
		}
		var ferr atomic.Value
		bad := func(f string, args ...interface{}) { ferr.CompareAndSwap(nil, fmt.Sprintf(f, args...)) }
		var mtx sync.Mutex
		accepted := make([]map[string]bool, n) // by recipient: "sender/number"
		got := make([]map[string]bool, n)
		for i := range accepted {
			accepted[i] = map[string]bool{}
			got[i] = map[string]bool{}
		}
		var srvMtx sync.RWMutex // held for writing while the server is replaced
		body := func(from, to, k int) []byte {
			b := bytes.Repeat([]byte{byte(from*7 + to*3 + k)}, size)
			copy(b, []byte{byte(from), byte(to), byte(k >> 8), byte(k)})
			return b
		}
		stopped := int32(0)
		var senders int32 = int32(n)
		var dup, sessions int32
		connect := func(i int) *conn {
			srvMtx.RLock()
			defer srvMtx.RUnlock()
			deadline := time.Now().Add(hz.WaitLimit)
			for k := 0; time.Now().Before(deadline) && ferr.Load() == nil; k++ {
				c, _, err := s.open(person(i))
				if err == nil {
					if err = c.ping(); err == nil {
						atomic.AddInt32(&sessions, 1)
						return c
					}
					c.close()
				}
				time.Sleep(time.Duration(2+k) * time.Millisecond)
			}
			bad("user %d cannot connect", i)
			return nil
		}
		complete := func(i int) bool {
			mtx.Lock()
			defer mtx.Unlock()
			for k := range accepted[i] {
				if !got[i][k] {
					return false
				}
			}
			return true
		}
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed + int64(i)))
				acked := map[string]bool{}
				k := 0
				senderDone := false
				quietSince := time.Time{}
				for ferr.Load() == nil {
					c := connect(i)
					if c == nil {
						return
					}
					last := map[byte]int{}
					var pend []string
					// one goroutine sends while this one receives
					sd := make(chan struct{})
					go func() {
						defer close(sd)
						for k < per && !c.isClosed() {
							to := r.Intn(n)
							x := body(i, to, k)
							err := c.send(person(to).Public.Identity, x, k%3 == 0)
							if err == nil {
								mtx.Lock()
								accepted[to][fmt.Sprintf("%d/%d", i, k)] = true
								mtx.Unlock()
							} else if errors.As(err, new(errRefused)) {
								bad("send refused: %v", err)
							} else if err != errDead {
								bad("send: %v", err)
							}
							k++
							if r.Intn(reconnectOdds) == 0 {
								c.close()
							}
						}
					}()
					rr := rand.New(rand.NewSource(seed + 99*int64(i) + int64(k)))
					for ferr.Load() == nil {
						p := c.recv(5 * time.Millisecond)
						if p == nil {
							if c.isClosed() {
								break
							}
							if senderDone && atomic.LoadInt32(&senders) == 0 {
								if complete(i) {
									if quietSince.IsZero() {
										quietSince = time.Now()
									} else if time.Since(quietSince) > 20*time.Millisecond {
										c.close()
										<-sd
										return
									}
								} else if quietSince.IsZero() {
									quietSince = time.Now()
								} else if time.Since(quietSince) > hz.WaitLimit {
									bad("user %d has not got all messages that were accepted for it", i)
								}
							}
							if !senderDone {
								select {
								case <-sd:
									if k >= per {
										senderDone = true
										atomic.AddInt32(&senders, -1)
									}
								default:
								}
							}
							continue
						}
						quietSince = time.Time{}
						d := p.p.Payload
						if len(d) != size {
							bad("message of %d bytes", len(d))
							break
						}
						from, to, num := int(d[0]), int(d[1]), int(d[2])<<8|int(d[3])
						if from >= n || !bytes.Equal(d, body(from, i, num)) || to != i || p.p.From != person(from).Public.Identity || p.msg.Cleartext != (num%3 == 0) {
							bad("user %d got an altered message (claims from %d to %d #%d, sender %x)", i, from, to, num, p.p.From[:4])
							break
						}
						key := fmt.Sprintf("%d/%d", from, num)
						if l, ok := last[d[0]]; ok && num <= l {
							bad("user %d got #%d of %d after #%d in one session", i, num, from, l)
							break
						}
						last[d[0]] = num
						if acked[key] {
							bad("user %d got %s again after acknowledging it", i, key)
							break
						}
						mtx.Lock()
						if got[i][key] {
							atomic.AddInt32(&dup, 1)
						}
						got[i][key] = true
						mtx.Unlock()
						if c.ack(p) != nil {
							break
						}
						pend = append(pend, key)
						if rr.Intn(ackOdds) == 0 {
							if c.ping() != nil {
								break
							}
							for _, k := range pend {
								acked[k] = true
							}
							pend = nil
						}
					}
					c.close()
					<-sd
				}
			}(i)
		}
		var kw sync.WaitGroup
		kw.Add(1)
		go func() {
			defer kw.Done()
			r := rand.New(rand.NewSource(seed + 5))
			for k := 0; k < kills; k++ {
				time.Sleep(time.Duration(50+r.Intn(300)) * time.Millisecond)
				if atomic.LoadInt32(&stopped) != 0 || ferr.Load() != nil {
					return
				}
				srvMtx.Lock()
				s.restart()
				srvMtx.Unlock()
			}
		}()
		hz.WithinTime(t, 5*hz.WaitLimit, "relaying", wg.Wait)
		atomic.StoreInt32(&stopped, 1)
		kw.Wait()
		s.alive(t, "while relaying")
		if e := ferr.Load(); e != nil {
			t.Fatalf("%v\n%s", e, s.tail())
		}
		hz.ClassIf(dup > 0, "concurrent relay: with redelivery")
		hz.ClassIf(kills > 0, "concurrent relay: server killed")
		hz.ClassIf(int(sessions) > n, "concurrent relay: with reconnects")
		hz.Case(true, fmt.Sprint("conc", n, per, kills, reconnectOdds, seed, size), fmt.Sprintf("%d users, %d messages of %d bytes each, %d kills, %d sessions, %d redeliveries", n, per, size, kills, sessions, dup))
	})
}
