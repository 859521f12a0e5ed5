// Package accountprop checks the server's account store and message queue.
package accountprop

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver/account"
	"pgregory.net/rapid"

	"zkcverif/hz"
)

func TestMain(m *testing.M) { hz.Main(m) }

type ID = [zkidentity.IdentitySize]byte

var (
	pidMtx sync.Mutex
	fulls  = map[int]*zkidentity.FullIdentity{}
)

// pid makes the i-th identity of this process, with the given nick.
func pid(i int, nick string) *zkidentity.PublicIdentity {
	pidMtx.Lock()
	defer pidMtx.Unlock()
	f := fulls[i]
	if f == nil {
		var err error
		f, err = zkidentity.New(fmt.Sprint("User ", i), nick)
		hz.Must(err)
		fulls[i] = f
	}
	if f.Public.Nick != nick {
		f.Public.Nick = nick
		hz.Must(f.RecalculateDigest())
	}
	q := f.Public
	return &q
}

func user(i int) ID {
	pidMtx.Lock()
	f := fulls[i]
	pidMtx.Unlock()
	if f != nil {
		return f.Public.Identity
	}
	return pid(i, fmt.Sprint("u", i)).Identity
}

type msg struct {
	id    int
	from  ID
	data  []byte
	clear bool
	path  string
}

func (m *msg) String() string { return fmt.Sprintf("#%d", m.id) }

// sess is one online period.
type sess struct {
	c    chan *account.Notification
	next int // next message of the queue to arrive
	todo []*msg
	got  map[*msg]string
}

// A queue against the model: what was delivered and not deleted arrives once
// per online period, in order.
func TestC13Model(t *testing.T) {
	hz.CheckSteps(t, 150, 50, func(t *rapid.T) {
		root := hz.TempDir()
		defer hz.RemoveAll(root)
		a, err := account.New(root)
		hz.Must(err)
		n := rapid.IntRange(1, 3).Draw(t, "users")
		for i := 0; i < n; i++ {
			if err := a.Create(*pid(i, fmt.Sprint("u", i)), false); err != nil {
				t.Fatalf("Create: %v", err)
			}
		}
		queue := make([][]*msg, n)
		on := make([]*sess, n)
		defer func() {
			for i := range on {
				a.Offline(user(i))
			}
		}()
		var log []string
		count, reonline, acks, restarts, offlines := 0, 0, 0, 0, 0
		fail := func(f string, args ...interface{}) {
			t.Helper()
			t.Fatalf("%s\nhistory: %s", fmt.Sprintf(f, args...), hz.Join(log))
		}
		recv := func(i int) {
			s := on[i]
			x := s.todo[0]
			s.todo = s.todo[1:]
			var g *account.Notification
			select {
			case g = <-s.c:
			case <-time.After(hz.WaitLimit):
				fail("message %v to user %d does not arrive", x, i)
			}
			if g.Error != nil {
				fail("error instead of message %v: %v", x, g.Error)
			}
			if g.To != user(i) || g.From != x.from || !bytes.Equal(g.Payload, x.data) || g.Cleartext != x.clear {
				fail("expected %v (%v from %x, clear %v), got %v from %x, clear %v, to %x", x, hz.Short(x.data), x.from[:4], x.clear, hz.Short(g.Payload), g.From[:4], g.Cleartext, g.To[:4])
			}
			if filepath.Base(x.path) != g.Identifier {
				fail("message %v is called %q, was delivered as %q", x, g.Identifier, x.path)
			}
			s.got[x] = g.Identifier
		}
		quiet := func(i int) {
			select {
			case g := <-on[i].c:
				fail("unexpected delivery to user %d: %+v", i, g)
			default:
			}
		}
		who := rapid.IntRange(0, n-1)
		t.Repeat(map[string]func(*rapid.T){
			"deliver": func(t *rapid.T) {
				i := who.Draw(t, "to")
				from := user(rapid.IntRange(0, 4).Draw(t, "from"))
				k := rapid.SampledFrom([]int{1, 1, 1, 3, 12}).Draw(t, "n")
				for ; k > 0; k-- {
					x := &msg{id: count, from: from, clear: rapid.Bool().Draw(t, "clear"),
						data: rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "data")}
					if rapid.IntRange(0, 15).Draw(t, "large") == 0 {
						x.data = bytes.Repeat([]byte{byte(count)}, 1<<uint(rapid.IntRange(8, 18).Draw(t, "size"))+3)
					}
					count++
					x.path, err = a.Deliver(user(i), from, x.data, x.clear)
					if err != nil {
						fail("Deliver to user %d: %v", i, err)
					}
					log = append(log, fmt.Sprintf("deliver%v->%d", x, i))
					queue[i] = append(queue[i], x)
					if on[i] != nil {
						on[i].todo = append(on[i].todo, x)
					}
				}
			},
			"unknown": func(t *rapid.T) {
				// nobody of this name: refused
				if _, err := a.Deliver(user(7), user(0), []byte("x"), false); err == nil {
					fail("a delivery to a user without account succeeds")
				}
				log = append(log, "deliver->nobody")
			},
			"online": func(t *rapid.T) {
				i := who.Draw(t, "who")
				buf := rapid.SampledFrom([]int{0, 0, 1, 64}).Draw(t, "buffer")
				s := &sess{c: make(chan *account.Notification, buf), got: map[*msg]string{}}
				err := a.Online(user(i), s.c)
				log = append(log, fmt.Sprintf("online%d(%d)", i, buf))
				if on[i] != nil {
					if _, ok := err.(account.ErrAlreadyOnline); !ok {
						fail("Online of a user that is online: %v", err)
					}
					return
				}
				if err != nil {
					fail("Online: %v", err)
				}
				s.todo = append(s.todo, queue[i]...)
				if len(s.todo) > 0 && offlines > 0 {
					reonline++
				}
				on[i] = s
			},
			"offline": func(t *rapid.T) {
				i := who.Draw(t, "who")
				a.Offline(user(i))
				on[i] = nil
				offlines++
				log = append(log, fmt.Sprintf("offline%d", i))
			},
			"receive": func(t *rapid.T) {
				i := who.Draw(t, "who")
				if on[i] == nil || len(on[i].todo) == 0 {
					return
				}
				k := rapid.IntRange(1, len(on[i].todo)).Draw(t, "n")
				log = append(log, fmt.Sprintf("receive%d(%d)", i, k))
				for ; k > 0; k-- {
					recv(i)
				}
			},
			"ack": func(t *rapid.T) {
				i := who.Draw(t, "who")
				if on[i] == nil {
					return
				}
				var c []int
				for k, x := range queue[i] {
					if _, ok := on[i].got[x]; ok {
						c = append(c, k)
					}
				}
				if len(c) == 0 {
					return
				}
				k := rapid.SampledFrom(c).Draw(t, "which")
				x := queue[i][k]
				if err := a.Delete(user(i), on[i].got[x]); err != nil {
					fail("Delete of %v: %v", x, err)
				}
				if err := a.Delete(user(i), on[i].got[x]); err == nil {
					fail("Delete of %v twice", x)
				}
				queue[i] = append(queue[i][:k:k], queue[i][k+1:]...)
				acks++
				log = append(log, fmt.Sprintf("ack%v", x))
			},
			"restart": func(t *rapid.T) {
				for i := range on {
					a.Offline(user(i))
					on[i] = nil
				}
				offlines++
				restarts++
				log = append(log, "restart")
				if a, err = account.New(root); err != nil {
					fail("New: %v", err)
				}
			},
			"disable": func(t *rapid.T) {
				// messages wait for a disabled user
				i := who.Draw(t, "who")
				a.Offline(user(i))
				on[i] = nil
				offlines++
				if err := a.Disable(user(i)); err != nil {
					fail("Disable: %v", err)
				}
				if err := a.Enable(user(i)); err != nil {
					fail("Enable: %v", err)
				}
				log = append(log, fmt.Sprintf("disable+enable%d", i))
			},
			"": func(t *rapid.T) {
				for i := range on {
					if on[i] != nil && len(on[i].todo) == 0 {
						quiet(i)
					}
				}
			},
		})
		// everything that is left arrives, and nothing else
		for i := range on {
			if on[i] == nil {
				on[i] = &sess{c: make(chan *account.Notification), todo: append([]*msg(nil), queue[i]...), got: map[*msg]string{}}
				if err := a.Online(user(i), on[i].c); err != nil {
					fail("Online: %v", err)
				}
			}
			for len(on[i].todo) > 0 {
				recv(i)
			}
		}
		time.Sleep(200 * time.Microsecond)
		for i := range on {
			quiet(i)
			ents, err := os.ReadDir(filepath.Join(root, hex.EncodeToString(id2s(user(i))), account.CacheDir))
			if err == nil && len(ents) != len(queue[i]) {
				fail("%d messages wait for user %d, the cache has %d", len(queue[i]), i, len(ents))
			}
		}
		hz.ClassIf(reonline > 0, "queue: redelivery after going offline")
		hz.ClassIf(restarts > 0, "queue: with restarts")
		hz.ClassIf(acks > 0, "queue: with acknowledgements")
		hz.Case(reonline > 0 && acks > 0, hz.Join(log), fmt.Sprintf("%d users: %s", n, hz.Join(log)))
	})
}

func id2s(id ID) []byte { return id[:] }

type rec struct{ x *msg }

// Senders, receivers that come and go, all at once. Every message that was
// accepted is delivered, intact, once per online period, in the sender's
// order, and no more once it was deleted.
func TestC13Concurrent(t *testing.T) {
	hz.Check(t, 40, func(t *rapid.T) {
		root := hz.TempDir()
		defer hz.RemoveAll(root)
		a, err := account.New(root)
		hz.Must(err)
		users := rapid.IntRange(1, 3).Draw(t, "recipients")
		senders := rapid.IntRange(1, 6).Draw(t, "senders")
		per := rapid.IntRange(1, 40).Draw(t, "messages")
		size := rapid.SampledFrom([]int{8, 8, 200, 70000}).Draw(t, "size")
		buf := rapid.SampledFrom([]int{0, 1, 8}).Draw(t, "buffer")
		seed := int64(rapid.IntRange(0, 1<<30).Draw(t, "seed"))
		stay := rapid.IntRange(1, 60).Draw(t, "stay")
		ackOdds := rapid.IntRange(1, 4).Draw(t, "ack odds")
		if size > 1000 && per > 12 {
			per = 12
		}
		for i := 0; i < users; i++ {
			hz.Must(a.Create(*pid(i, fmt.Sprint("u", i)), false))
		}
		payload := func(s, k int) []byte {
			b := bytes.Repeat([]byte{byte(s*31 + k)}, size)
			copy(b, []byte{byte(s), byte(k), byte(k >> 8)})
			return b
		}
		var ferr atomic.Value
		bad := func(f string, args ...interface{}) { ferr.CompareAndSwap(nil, fmt.Sprintf(f, args...)) }
		var senderWG, wg sync.WaitGroup
		total := make([]int32, users)
		sent := make(chan struct{})
		for s := 0; s < senders; s++ {
			senderWG.Add(1)
			go func(s int) {
				defer senderWG.Done()
				r := rand.New(rand.NewSource(seed + int64(s)))
				for k := 0; k < per; k++ {
					to := r.Intn(users)
					if _, err := a.Deliver(user(to), user(10+s), payload(s, k), k%2 == 0); err != nil {
						bad("Deliver: %v", err)
						return
					}
					atomic.AddInt32(&total[to], 1)
					if r.Intn(8) == 0 {
						time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
					}
				}
			}(s)
		}
		var again, sessions int32
		for i := 0; i < users; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed + 1000 + int64(i)))
				deleted := map[string]bool{}
				seen := map[string]bool{}
				ackd := int32(0)
				deadline := time.Now().Add(hz.WaitLimit)
				for {
					atomic.AddInt32(&sessions, 1)
					c := make(chan *account.Notification, buf)
					if err := a.Online(user(i), c); err != nil {
						bad("Online: %v", err)
						return
					}
					n := 1 + r.Intn(stay)
					final := false
					select {
					case <-sent:
						final = true
					default:
					}
					last := map[int]int{}
					got := map[string]bool{}
					var pend []string
					ack := func() bool {
						for _, id := range pend {
							if err := a.Delete(user(i), id); err != nil {
								bad("Delete: %v", err)
								return false
							}
							deleted[id] = true
							ackd++
						}
						pend = nil
						return true
					}
					for {
						if final {
							if !ack() {
								return
							}
							if ackd == atomic.LoadInt32(&total[i]) {
								select {
								case g := <-c:
									bad("after all messages were deleted: %+v", *g)
								case <-time.After(300 * time.Microsecond):
								}
								a.Offline(user(i))
								return
							}
						} else if n == 0 {
							break
						}
						var g *account.Notification
						wait := hz.WaitLimit
						if !final {
							wait = 20 * time.Millisecond
						}
						select {
						case g = <-c:
						case <-time.After(wait):
							if final {
								bad("user %d got %d of %d messages, then nothing", i, ackd, atomic.LoadInt32(&total[i]))
								a.Offline(user(i))
								return
							}
						}
						if g == nil {
							break // time to reconnect
						}
						n--
						if g.Error != nil {
							bad("error notification: %v", g.Error)
							return
						}
						if len(g.Payload) < 3 || len(g.Payload) != size {
							bad("payload of %d bytes, expected %d", len(g.Payload), size)
							return
						}
						s, k := int(g.Payload[0]), int(g.Payload[1])|int(g.Payload[2])<<8
						if s >= senders || !bytes.Equal(g.Payload, payload(s, k)) || g.From != user(10+s) || g.To != user(i) || g.Cleartext != (k%2 == 0) {
							bad("delivered message differs from sender %d's message %d", s, k)
							return
						}
						if l, ok := last[s]; ok && k <= l {
							bad("sender %d's message %d after %d in one online period", s, k, l)
							return
						}
						last[s] = k
						if got[g.Identifier] {
							bad("message %q twice in one online period", g.Identifier)
							return
						}
						if deleted[g.Identifier] {
							bad("message %q delivered after it was deleted", g.Identifier)
							return
						}
						if seen[g.Identifier] {
							atomic.AddInt32(&again, 1)
						}
						seen[g.Identifier] = true
						got[g.Identifier] = true
						pend = append(pend, g.Identifier)
						if r.Intn(ackOdds) == 0 && !ack() {
							return
						}
						if time.Now().After(deadline) {
							bad("user %d got only %d of %d messages", i, ackd, atomic.LoadInt32(&total[i]))
							return
						}
					}
					a.Offline(user(i))
				}
			}(i)
		}
		hz.Within(t, "delivering", senderWG.Wait)
		close(sent)
		hz.WithinTime(t, 4*hz.WaitLimit, "receiving", wg.Wait)
		if e := ferr.Load(); e != nil {
			t.Fatalf("%v", e)
		}
		hz.ClassIf(again > 0, "concurrent: with redelivery")
		hz.ClassIf(int(sessions) > users, "concurrent: with reconnects")
		hz.Case(senders*per > 1, fmt.Sprint("conc", users, senders, per, size, buf, seed, stay, ackOdds),
			fmt.Sprintf("%d senders x %d messages of %d bytes to %d recipients, %d online periods, %d redeliveries", senders, per, size, users, sessions, again))
	})
}

func init() { hz.RegisterChild("deliver", childDeliver) }

func childDeliver(args []string) {
	a, err := account.New(args[0])
	hz.Must(err)
	data := bytes.Repeat([]byte("payload "), atoi(args[1]))
	hz.Mark()
	_, err = a.Deliver(user2(args[2]), user2(args[3]), data, args[4] == "true")
	hz.Mark()
	if err != nil {
		os.Stdout.WriteString("ERROR " + err.Error() + "\n")
	} else {
		os.Stdout.WriteString("OK\n")
	}
}

func atoi(s string) int {
	n := 0
	fmt.Sscan(s, &n)
	return n
}

func user2(s string) (id ID) {
	b, err := hex.DecodeString(s)
	hz.Must(err)
	copy(id[:], b)
	return
}

// A delivery is interrupted or fails at any system call: earlier messages are
// all there, the interrupted one is there whole or not at all, and if its
// sender was told it is delivered, it is.
func TestC13Crash(t *testing.T) {
	hz.Check(t, 2, func(t *rapid.T) {
		rep := rapid.SampledFrom([]int{0, 1, 100, 20000}).Draw(t, "size")
		clear := rapid.Bool().Draw(t, "clear")
		before := rapid.IntRange(0, 3).Draw(t, "before")
		want := bytes.Repeat([]byte("payload "), rep)
		fresh := func() string {
			root := hz.TempDir()
			a, err := account.New(root)
			hz.Must(err)
			hz.Must(a.Create(*pid(0, "u0"), false))
			for i := 0; i < before; i++ {
				_, err = a.Deliver(user(0), user(1), []byte{byte(i)}, false)
				hz.Must(err)
			}
			return root
		}
		args := func(root string) []string {
			return []string{root, fmt.Sprint(rep), hex.EncodeToString(id2s(user(0))), hex.EncodeToString(id2s(user(2))), fmt.Sprint(clear)}
		}
		root := fresh()
		pts := hz.Points("deliver", args(root)...)
		hz.RemoveAll(root)
		check := func(root string, told bool, what string) {
			a, err := account.New(root)
			if err != nil {
				t.Fatalf("%s: %v", what, err)
			}
			// the next delivery works
			if _, err := a.Deliver(user(0), user(3), []byte("next"), false); err != nil {
				t.Fatalf("%s: the next delivery fails: %v", what, err)
			}
			c := make(chan *account.Notification)
			hz.Must(a.Online(user(0), c))
			defer a.Offline(user(0))
			recv := func() *account.Notification {
				select {
				case g := <-c:
					if g.Error != nil {
						t.Fatalf("%s: error notification: %v", what, g.Error)
					}
					return g
				case <-time.After(hz.WaitLimit):
					t.Fatalf("%s: a message does not arrive", what)
				}
				return nil
			}
			for i := 0; i < before; i++ {
				g := recv()
				if g.From != user(1) || !bytes.Equal(g.Payload, []byte{byte(i)}) {
					t.Fatalf("%s: expected earlier message %d, got %v from %x", what, i, hz.Short(g.Payload), g.From[:4])
				}
			}
			g := recv()
			if g.From == user(2) {
				if !bytes.Equal(g.Payload, want) || g.Cleartext != clear {
					t.Fatalf("%s: the interrupted message arrives as %d bytes, clear %v; it was %d bytes, clear %v", what, len(g.Payload), g.Cleartext, len(want), clear)
				}
				hz.Class("interrupted delivery happened")
				g = recv()
			} else {
				hz.Class("interrupted delivery did not happen")
				if told {
					t.Fatalf("%s: Deliver reported success, the message is not delivered", what)
				}
			}
			if g.From != user(3) || string(g.Payload) != "next" {
				t.Fatalf("%s: fabricated message of %d bytes from %x", what, len(g.Payload), g.From[:4])
			}
			select {
			case g := <-c:
				t.Fatalf("%s: extra message from %x, error %v", what, g.From[:4], g.Error)
			case <-time.After(300 * time.Microsecond):
			}
		}
		for _, p := range pts {
			type ft struct {
				errno string
			}
			fts := []ft{{""}}
			switch p.Call {
			case "write", "close":
				fts = append(fts, ft{"ENOSPC"})
			case "rename", "renameat", "renameat2", "link", "linkat":
				fts = append(fts, ft{"EIO"})
			case "openat":
				fts = append(fts, ft{"EMFILE"})
			}
			for _, f := range fts {
				root := fresh()
				what := fmt.Sprintf("kill at %s", hz.Trim(p.Text, 140))
				told := false
				if f.errno == "" {
					if hz.Kill(p, "deliver", args(root)...) {
						hz.Class("killed at " + p.Call)
					}
				} else {
					what = fmt.Sprintf("%s at %s", f.errno, hz.Trim(p.Text, 140))
					out, ok := hz.Fail(p, f.errno, false, "deliver", args(root)...)
					if !ok {
						t.Fatalf("%s: the process did not survive: %v", what, hz.Trim(out, 1500))
					}
					told = strings.HasPrefix(out, "OK")
					hz.Class("failing " + p.Call)
				}
				check(root, told, what)
				hz.RemoveAll(root)
				hz.Case(true, fmt.Sprint("crash", rep, clear, before, p, f), fmt.Sprintf("%d messages waiting, delivery of %d bytes, %s", before, len(want), what))
			}
		}
	})
}

// Deliveries at the very same moment do not get into each other's way.
func TestC13Burst(t *testing.T) {
	hz.Check(t, 12, func(t *rapid.T) {
		root := hz.TempDir()
		defer hz.RemoveAll(root)
		a, err := account.New(root)
		hz.Must(err)
		hz.Must(a.Create(*pid(0, "u0"), false))
		n := rapid.IntRange(2, 8).Draw(t, "senders")
		rounds := rapid.IntRange(20, 120).Draw(t, "rounds")
		var bar, failed int32
		var wg sync.WaitGroup
		errs := make([]error, n)
		for s := 0; s < n; s++ {
			wg.Add(1)
			go func(s int) {
				defer wg.Done()
				for k := 0; k < rounds; k++ {
					atomic.AddInt32(&bar, 1)
					for spin := 1; atomic.LoadInt32(&bar) < int32((k+1)*n); spin++ {
						if spin%2000 == 0 {
							runtime.Gosched()
						}
						if atomic.LoadInt32(&failed) != 0 {
							return
						}
					}
					if _, err := a.Deliver(user(0), user(10+s), []byte{byte(s), byte(k)}, false); err != nil {
						errs[s] = err
						atomic.StoreInt32(&failed, 1)
						return
					}
				}
			}(s)
		}
		hz.Within(t, "simultaneous deliveries", wg.Wait)
		for _, err := range errs {
			if err != nil {
				t.Fatalf("Deliver: %v", err)
			}
		}
		c := make(chan *account.Notification, 16)
		hz.Must(a.Online(user(0), c))
		defer a.Offline(user(0))
		next := make([]int, n)
		for i := 0; i < n*rounds; i++ {
			select {
			case g := <-c:
				if g.Error != nil || len(g.Payload) != 2 || int(g.Payload[0]) >= n {
					t.Fatalf("message %d is %+v", i, g)
				}
				s := int(g.Payload[0])
				if int(g.Payload[1]) != next[s] || g.From != user(10+s) {
					t.Fatalf("expected message %d of sender %d, got %d from %x", next[s], s, g.Payload[1], g.From[:4])
				}
				next[s]++
			case <-time.After(hz.WaitLimit):
				t.Fatalf("of %d messages delivered at once only %d arrive", n*rounds, i)
			}
		}
		hz.Class("burst deliveries")
		hz.Case(true, fmt.Sprint("burst", n, rounds), fmt.Sprintf("%d senders deliver at the same moment, %d times", n, rounds))
	})
}
