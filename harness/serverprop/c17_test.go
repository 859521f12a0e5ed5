package serverprop

import (
	"bytes"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/companyzero/zkc/rpc"
	"pgregory.net/rapid"

	"zkcverif/hz"
)

func (c *conn) rendezvous(blob []byte, exp string) (rpc.RendezvousReply, error) {
	var p rpc.RendezvousReply
	r, err := c.call(rpc.TaggedCmdRendezvous, rpc.Rendezvous{Blob: blob, Expiration: exp})
	if err == nil {
		err = decode(r, rpc.TaggedCmdRendezvousReply, &p)
	}
	return p, err
}

func (c *conn) pull(token string) (rpc.RendezvousPullReply, error) {
	var p rpc.RendezvousPullReply
	r, err := c.call(rpc.TaggedCmdRendezvousPull, rpc.RendezvousPull{Token: token})
	if err == nil {
		err = decode(r, rpc.TaggedCmdRendezvousPullReply, &p)
	}
	return p, err
}

// validExp: 1 valid, 0 invalid, -1 either (the limit itself).
func validExp(s string) int {
	if s == "" || strings.Trim(s, "0123456789") != "" {
		return 0
	}
	v := strings.TrimLeft(s, "0")
	if len(v) > 3 {
		return 0
	}
	n, _ := strconv.Atoi("0" + v)
	switch {
	case n == 168:
		return -1
	case n > 168:
		return 0
	}
	return 1
}

func genBlob(t *rapid.T) []byte {
	n := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 100, 1000, 4090, 4095, 4096, 4097, 5000, 100000}).Draw(t, "size")
	b := make([]byte, n)
	rand.New(rand.NewSource(int64(rapid.IntRange(0, 1<<30).Draw(t, "content")))).Read(b)
	return b
}

func TestC17Model(t *testing.T) {
	hz.CheckSteps(t, 12, 60, func(t *rapid.T) {
		s := startServer(t, options{})
		defer s.close()
		const n = 3
		cs := make([]*conn, n)
		for i := range cs {
			s.mustCreate(t, person(i))
			cs[i] = s.connect(t, person(i))
		}
		defer func() {
			for _, c := range cs {
				c.close()
			}
		}()
		blobs := map[string][]byte{}
		var tokens []string
		var log []string
		refused, restarts, pulled := 0, 0, 0
		fail := func(f string, args ...interface{}) {
			t.Helper()
			s.alive(t, "during "+hz.Join(log))
			t.Fatalf("%s\nhistory: %s\n%s", fmt.Sprintf(f, args...), hz.Join(log), s.tail())
		}
		who := rapid.IntRange(0, n-1)
		put := func(t *rapid.T) {
			i := who.Draw(t, "who")
			blob := genBlob(t)
			exp := rapid.SampledFrom([]string{"0", "1", "24", "24", "24", "24", "167", "168", "169", "1000", "", "x", "-1", "+5", " 5", "5 ", "0x10", "1e1", "18446744073709551616", "9999999999999999999999999", "007", "١"}).Draw(t, "expiration")
			p, err := cs[i].rendezvous(blob, exp)
			log = append(log, fmt.Sprintf("put%d(%d,%q)", i, len(blob), exp))
			if err != nil {
				fail("rendezvous: %v (%v)", err, cs[i].err)
			}
			must, mustNot := len(blob) < 4096 && validExp(exp) == 1, len(blob) > 4096 || validExp(exp) == 0
			switch {
			case p.Error == "" && mustNot:
				fail("a blob of %d bytes with expiration %q was accepted", len(blob), exp)
			case p.Error != "" && must:
				fail("a blob of %d bytes with expiration %q was refused: %v", len(blob), exp, p.Error)
			case p.Error != "" && p.Token != "":
				fail("refused with a token")
			case p.Error == "":
				if _, ok := blobs[p.Token]; ok || p.Token == "" {
					fail("token %q was given out again", p.Token)
				}
				blobs[p.Token] = blob
				tokens = append(tokens, p.Token)
			default:
				refused++
			}
		}
		pull := func(t *rapid.T) {
			i := who.Draw(t, "who")
			tok := ""
			if len(tokens) > 0 {
				tok = rapid.SampledFrom(tokens).Draw(t, "token")
			}
			switch rapid.IntRange(0, 5).Draw(t, "mangle") {
			case 0:
				tok = rapid.SampledFrom([]string{"", "0", "1000000", "-1", "x", "[a]", "=", "\n", "..", " ", strings.Repeat("1", 70000)}).Draw(t, "other token")
			case 1:
				tok = " " + tok
			case 2:
				tok = "0" + tok
			}
			p, err := cs[i].pull(tok)
			log = append(log, fmt.Sprintf("pull%d(%s)", i, hz.Trim(tok, 12)))
			if err != nil {
				fail("pull: %v (%v)", err, cs[i].err)
			}
			want, ok := blobs[tok]
			switch {
			case ok && (p.Error != "" || p.Token != tok || !bytes.Equal(p.Blob, want)):
				fail("pull of %s: %q, token %q, %v, expected %v", tok, p.Error, p.Token, hz.Short(p.Blob), hz.Short(want))
			case !ok && (p.Error == "" || len(p.Blob) != 0):
				fail("pull of the unknown token %q: %v", hz.Trim(tok, 20), hz.Short(p.Blob))
			}
			if ok {
				pulled++
			}
		}
		t.Repeat(map[string]func(*rapid.T){
			"put": put, "put2": put, "pull": pull, "pull2": pull,
			"kill": func(t *rapid.T) {
				if rapid.IntRange(0, 3).Draw(t, "really") > 0 {
					return
				}
				s.restart()
				for i := range cs {
					cs[i].close()
					cs[i] = s.connect(t, person(i))
				}
				restarts++
				log = append(log, "kill")
			},
		})
		for i, tok := range tokens {
			p, err := cs[i%n].pull(tok)
			if err != nil || p.Error != "" || !bytes.Equal(p.Blob, blobs[tok]) {
				fail("final pull of %s: %v %q %v", tok, err, p.Error, hz.Short(p.Blob))
			}
		}
		hz.ClassIf(restarts > 0, "rendezvous: server killed")
		hz.ClassIf(refused > 0, "rendezvous: refused")
		hz.Case(len(tokens) > 1 && pulled > 0, hz.Join(log), hz.Join(log))
	})
}

// Many users at once, and the server killed meanwhile.
func TestC17Concurrent(t *testing.T) {
	hz.Check(t, 8, func(t *rapid.T) {
		s := startServer(t, options{})
		defer s.close()
		n := rapid.IntRange(2, 6).Draw(t, "users")
		per := rapid.IntRange(3, 30).Draw(t, "blobs")
		depth := rapid.IntRange(1, 4).Draw(t, "at once")
		killAt := rapid.IntRange(0, 80).Draw(t, "kill after ms")
		kill := rapid.Bool().Draw(t, "kill")
		size := rapid.SampledFrom([]int{8, 500, 4000}).Draw(t, "size")
		cs := make([]*conn, n)
		for i := range cs {
			s.mustCreate(t, person(i))
			cs[i] = s.connect(t, person(i))
		}
		var mtx sync.Mutex
		blobs := map[string][]byte{}
		var bad string
		seti := func(f string, args ...interface{}) {
			mtx.Lock()
			if bad == "" {
				bad = fmt.Sprintf(f, args...)
			}
			mtx.Unlock()
		}
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			for d := 0; d < depth; d++ {
				wg.Add(1)
				go func(i, d int) {
					defer wg.Done()
					var mine []string
					for k := d; k < per; k += depth {
						blob := bytes.Repeat([]byte{byte(i + 3*k)}, size)
						copy(blob, fmt.Sprintf("%d/%d", i, k))
						p, err := cs[i].rendezvous(blob, "1")
						if err != nil {
							if !kill {
								seti("rendezvous: %v", err)
							}
							return
						}
						if p.Error != "" {
							seti("a blob was refused: %v", p.Error)
							return
						}
						mtx.Lock()
						if o, ok := blobs[p.Token]; ok {
							mtx.Unlock()
							seti("token %s was given to %.5q and %.5q", p.Token, o, blob)
							return
						}
						blobs[p.Token] = blob
						mtx.Unlock()
						mine = append(mine, p.Token)
						// an earlier one is still there
						tok := mine[(k*7)%len(mine)]
						q, err := cs[i].pull(tok)
						if err != nil {
							if !kill {
								seti("pull: %v", err)
							}
							return
						}
						mtx.Lock()
						want := blobs[tok]
						mtx.Unlock()
						if q.Error != "" || !bytes.Equal(q.Blob, want) {
							seti("pull of %s: %q %.5q, expected %.5q", tok, q.Error, q.Blob, want)
							return
						}
					}
				}(i, d)
			}
		}
		if kill {
			time.Sleep(time.Duration(killAt) * time.Millisecond)
			s.kill()
		}
		wg.Wait()
		for _, c := range cs {
			c.close()
		}
		if kill {
			s.start()
		}
		s.alive(t, "while blobs are exchanged")
		if bad != "" {
			t.Fatalf("%s\n%s", bad, s.tail())
		}
		c := s.connect(t, person(0))
		defer c.close()
		for tok, want := range blobs {
			p, err := c.pull(tok)
			if err != nil || p.Error != "" || p.Token != tok || !bytes.Equal(p.Blob, want) {
				t.Fatalf("pull of %s afterwards (killed: %v): %v %q %.5q, expected %.5q", tok, kill, err, p.Error, p.Blob, want)
			}
		}
		hz.ClassIf(kill, "concurrent rendezvous: server killed")
		hz.Case(len(blobs) > 1, fmt.Sprint("rdvz", n, per, depth, size, kill, killAt), fmt.Sprintf("%d users, %d blobs of %d bytes each, %d at once, killed %v after %dms: %d accepted", n, per, size, depth, kill, killAt, len(blobs)))
	})
}
