package serverprop

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver/socketapi"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"pgregory.net/rapid"

	"zkcverif/hz"
)

func tool(name string) string {
	b := os.Getenv("HZ_BIN_TOOLS_" + strings.ToUpper(name))
	if b == "" {
		hz.Infra("no %v binary", name)
	}
	return b
}

// run runs one of the tools with the server's configuration.
func (s *server) run(name string, args ...string) (string, error) {
	cmd := exec.Command(tool(name), append([]string{"-cfg", filepath.Join(s.dir, "zkserver.conf")}, args...)...)
	cmd.Dir = s.dir
	cmd.Env = append(os.Environ(), "HOME="+s.dir)
	out, err := cmd.CombinedOutput()
	return string(out), err
}

// newToken asks the administrator's tool for a token.
func (s *server) newToken(t hz.Fataler) string {
	out, err := s.run("zkservertoken")
	if err != nil {
		t.Fatalf("zkservertoken: %v: %s", err, out)
	}
	tok := strings.ReplaceAll(strings.TrimSpace(out), " ", "")
	if len(tok) != 16 || strings.Trim(tok, "0123456789") != "" {
		t.Fatalf("zkservertoken says %q", out)
	}
	return tok
}

// putToken writes a token record of another kind.
func (s *server) putToken(tok, value string) {
	db, err := inidb.New(filepath.Join(s.dir, "pending", "pending.ini"), true, 10)
	if err != nil && !errors.Is(err, inidb.ErrCreated) {
		hz.Must(err)
	}
	hz.Must(db.Set("", tok, value))
	hz.Must(db.Save())
}

// alterID damages a public identity in one of many ways.
func alterID(t *rapid.T, p, other zkidentity.PublicIdentity) (zkidentity.PublicIdentity, string) {
	k := rapid.SampledFrom([]string{"name", "nick", "key", "sigkey", "identity", "digest", "signature", "other key", "other identity", "other sigkey", "other name", "zero signature"}).Draw(t, "alteration")
	bit := func(b []byte) {
		b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
	}
	switch k {
	case "name":
		p.Name += "x"
	case "nick":
		p.Nick += "x"
	case "key":
		bit(p.Key[:])
	case "sigkey":
		bit(p.SigKey[:])
	case "identity":
		bit(p.Identity[:])
	case "digest":
		bit(p.Digest[:])
	case "signature":
		bit(p.Signature[:])
	case "other key":
		p.Key = other.Key
	case "other identity":
		p.Identity = other.Identity
	case "other sigkey":
		p.SigKey = other.SigKey
	case "other name":
		p.Name = other.Name
	case "zero signature":
		p.Signature = [64]byte{}
	}
	return p, k
}

type account struct {
	f        *zkidentity.FullIdentity
	exists   bool
	disabled bool
	listed   bool
	mayList  bool // an impostor may have listed it
	c        *conn
	queue    [][]byte
	nick     string
}

// Who may do what, over any history of the administrator's and the users'
// doings.
func TestC16Model(t *testing.T) {
	hz.CheckSteps(t, 14, 60, func(t *rapid.T) {
		opt := options{
			Policy:    rapid.SampledFrom([]string{"yes", "yes", "token", "token", "token", "no"}).Draw(t, "policy"),
			Directory: rapid.Bool().Draw(t, "directory"),
			Identify:  rapid.Bool().Draw(t, "identify"),
			MOTD:      rapid.SampledFrom([]string{"", "welcome", "two\nlines"}).Draw(t, "motd"),
		}
		s := startServer(t, opt)
		defer s.close()
		n := 4
		as := make([]*account, n)
		for i := range as {
			as[i] = &account{f: person(i)}
		}
		defer func() {
			for _, a := range as {
				if a.c != nil {
					a.c.close()
				}
			}
		}()
		good := map[string]bool{} // usable tokens
		used := []string{}
		var log []string
		refusals, sessions, kicked := 0, 0, 0
		fail := func(f string, args ...interface{}) {
			t.Helper()
			s.alive(t, "during "+hz.Join(log))
			t.Fatalf("%s\npolicy %v directory %v identify %v: %s\n%s", fmt.Sprintf(f, args...), opt.Policy, opt.Directory, opt.Identify, hz.Join(log), s.tail())
		}
		who := rapid.IntRange(0, n-1)
		drop := func(a *account) {
			if a.c != nil {
				a.c.close()
				a.c = nil
			}
		}
		// refused: a create that must not succeed
		refused := func(what string, e string, err error) {
			t.Helper()
			refusals++
			if err == nil && e == "" {
				fail("%s was allowed", what)
			}
			if err != nil {
				fail("%s: no answer: %v", what, err)
			}
		}
		exist := func(i int, yes bool) {
			t.Helper()
			_, e1 := os.Stat(filepath.Join(s.dir, "home", hex.EncodeToString(as[i].f.Public.Identity[:])))
			_, e2 := os.Stat(filepath.Join(s.dir, "home", "."+hex.EncodeToString(as[i].f.Public.Identity[:])))
			if (e1 == nil || e2 == nil) != yes {
				fail("account %d exists: %v, expected %v", i, !yes, yes)
			}
		}
		drain := func(i int) {
			a := as[i]
			for len(a.queue) > 0 {
				p := a.c.recv(hz.WaitLimit)
				if p == nil {
					fail("user %d waits for %x in vain (%v)", i, a.queue[0], a.c.err)
				}
				if !bytes.Equal(p.p.Payload, a.queue[0]) {
					fail("user %d expects %x, got %x", i, a.queue[0], p.p.Payload)
				}
				a.c.ack(p)
				a.queue = a.queue[1:]
			}
			if err := a.c.ping(); err != nil {
				fail("ping of %d: %v (%v)", i, err, a.c.err)
			}
		}
		count := 0
		acts := map[string]func(*rapid.T){
			"create": func(t *rapid.T) {
				i := who.Draw(t, "who")
				a := as[i]
				kind := rapid.SampledFrom([]string{"good", "good", "good", "used", "made up", "none", "expired", "corrupt"}).Draw(t, "token")
				tok := ""
				switch kind {
				case "good":
					if opt.Policy == "token" {
						tok = s.newToken(t)
						good[tok] = true
					}
				case "used":
					if len(used) > 0 {
						tok = rapid.SampledFrom(used).Draw(t, "used token")
					}
				case "made up":
					tok = rapid.SampledFrom([]string{"1234567890123456", "0", "[]", "a=b", " ", "\n", "1\n2", "..", strings.Repeat("9", 5000)}).Draw(t, "made up token")
				case "expired":
					tok = "5555" + strconv.Itoa(100000000000+count)
					s.putToken(tok, strconv.FormatInt(time.Now().Unix()-int64(rapid.SampledFrom([]int{5, 3600, 1 << 30}).Draw(t, "ago")), 10))
					count++
				case "corrupt":
					tok = "6666" + strconv.Itoa(100000000000+count)
					s.putToken(tok, rapid.SampledFrom([]string{"x", "-", "99999999999999999999999", "12 34", "0x7fffffff"}).Draw(t, "value"))
					count++
				}
				pid := a.f.Public
				bad := ""
				if rapid.IntRange(0, 3).Draw(t, "alter") == 0 {
					pid, bad = alterID(t, pid, person(20+i).Public)
				}
				wasUsable := good[tok]
				if tok != "" {
					delete(good, tok)
					used = append(used, tok)
				}
				c, err := s.dial()
				if err != nil {
					fail("dial: %v", err)
				}
				defer c.Close()
				c.SetDeadline(time.Now().Add(hz.WaitLimit))
				e, err := createOn(c, pid, tok)
				what := fmt.Sprintf("create%d(%s token, %s)", i, kind, bad)
				log = append(log, what)
				switch {
				case opt.Policy == "no":
					refused(what+" under policy no", e, err)
				case opt.Policy == "token" && !wasUsable:
					refused(what+" with that token", e, err)
				case bad != "":
					refused(what+" of an invalid identity", e, err)
				case a.exists:
					refused(what+" of an existing account", e, err)
				default:
					if err != nil || e != "" {
						fail("%s failed: %q %v", what, e, err)
					}
					a.exists = true
				}
				for j := range as {
					exist(j, as[j].exists)
				}
			},
			"connect": func(t *rapid.T) {
				i := who.Draw(t, "who")
				a := as[i]
				if a.c != nil {
					return
				}
				log = append(log, fmt.Sprintf("connect%d", i))
				switch {
				case !a.exists:
					c, reason, err := s.open(a.f)
					if err == nil {
						c.close()
						fail("a stranger got in")
					}
					if reason != "" {
						fail("a stranger gets %q", reason)
					}
					refusals++
				case a.disabled:
					c, reason, err := s.open(a.f)
					if err == nil {
						c.close()
						fail("disabled user %d got in", i)
					}
					if err != errUnwelcome || reason == "" {
						fail("disabled user %d is not told why: %v %q", i, err, reason)
					}
					refusals++
				default:
					a.c = s.connect(t, a.f)
					a.listed = a.listed || opt.Directory
					sessions++
					motd, dir := "", ""
					for _, p := range a.c.welcome.Properties {
						switch p.Key {
						case rpc.PropMOTD:
							motd = p.Value
						case rpc.PropDirectory:
							dir = p.Value
						}
					}
					if motd != opt.MOTD || dir != strconv.FormatBool(opt.Directory) {
						fail("welcome says motd %q directory %v", motd, dir)
					}
					drain(i)
				}
			},
			"impostor": func(t *rapid.T) {
				// knows the public key of somebody, not the private one
				i := who.Draw(t, "who")
				f := *as[i].f
				f.PrivateKey = person(30).PrivateKey
				c, reason, err := s.open(&f)
				log = append(log, fmt.Sprintf("impostor%d", i))
				if err == nil || reason != "" {
					if c != nil {
						c.close()
					}
					fail("an impostor of %d was let in or told something: %q", i, reason)
				}
				refusals++
				as[i].mayList = true
				if a := as[i]; a.c != nil {
					// known: the impostor is noticed only when
					// it uses the session
					select {
					case <-a.c.closed:
					case <-time.After(20 * time.Millisecond):
						if a.c.ping() == nil {
							return
						}
					}
					if !hz.Listed("impostor-ends-session") {
						fail("an impostor ended the session of user %d", i)
					}
					hz.Known("impostor-ends-session: whoever knows a user's public key can end the user's session")
					a.c = nil
				}
			},
			"leave": func(t *rapid.T) {
				i := who.Draw(t, "who")
				drop(as[i])
				log = append(log, fmt.Sprintf("leave%d", i))
			},
			"disable": func(t *rapid.T) {
				i := who.Draw(t, "who")
				a := as[i]
				id := hex.EncodeToString(a.f.Public.Identity[:])
				if rapid.IntRange(0, 3).Draw(t, "case") == 0 {
					id = strings.ToUpper(id)
				}
				en := rapid.Bool().Draw(t, "enable instead")
				viaTool := rapid.IntRange(0, 3).Draw(t, "tool") == 0
				cmd := socketapi.SCUserDisable
				if en {
					cmd = socketapi.SCUserEnable
				}
				log = append(log, fmt.Sprintf("%s%d", cmd, i))
				var e string
				if viaTool {
					out, err := s.run("zkserverctl", cmd, id)
					if err != nil {
						e = out
					} else if !strings.Contains(out, "OK") {
						fail("zkserverctl %s: %s", cmd, out)
					}
				} else {
					var err error
					e, err = s.admin(cmd, id)
					if err != nil {
						fail("admin socket: %v", err)
					}
				}
				want := a.exists && a.disabled == en
				if (e == "") != want {
					fail("%s of user %d (exists %v, disabled %v): %q", cmd, i, a.exists, a.disabled, e)
				}
				if !want {
					refusals++
					return
				}
				a.disabled = !en
				if a.disabled && a.c != nil {
					select {
					case <-a.c.closed:
					case <-time.After(hz.WaitLimit):
						fail("disabled user %d stays online", i)
					}
					kicked++
					a.c = nil
				}
			},
			"bad admin": func(t *rapid.T) {
				id := rapid.SampledFrom([]string{"", "00", "zz", "..", "../..", strings.Repeat("0", 64), strings.Repeat("f", 62), strings.Repeat("f", 66), "." + strings.Repeat("f", 63)}).Draw(t, "id")
				cmd := rapid.SampledFrom([]string{socketapi.SCUserDisable, socketapi.SCUserEnable}).Draw(t, "cmd")
				e, err := s.admin(cmd, id)
				log = append(log, fmt.Sprintf("%s(%s)", cmd, hz.Trim(id, 10)))
				if err != nil || e == "" {
					fail("%s of %q: %q %v", cmd, id, e, err)
				}
				for j := range as {
					exist(j, as[j].exists)
				}
			},
			"send": func(t *rapid.T) {
				i, j := who.Draw(t, "from"), who.Draw(t, "to")
				a, b := as[i], as[j]
				if a.c == nil {
					return
				}
				clear := rapid.Bool().Draw(t, "clear")
				x := []byte(fmt.Sprint("message ", count))
				count++
				err := a.c.send(b.f.Public.Identity, x, clear)
				log = append(log, fmt.Sprintf("%d->%d", i, j))
				var r errRefused
				switch {
				case b.exists && !b.disabled:
					if err != nil {
						fail("send from %d to %d: %v (%v)", i, j, err, a.c.err)
					}
					b.queue = append(b.queue, x)
					if b.c != nil {
						drain(j)
					}
				case !errors.As(err, &r):
					fail("send from %d to %d (exists %v, disabled %v): %v", i, j, b.exists, b.disabled, err)
				case !clear && (r.code == rpc.ErrorCodeUserDisabled) != b.disabled:
					fail("send from %d to %d (exists %v, disabled %v): code %v", i, j, b.exists, b.disabled, r.code)
				default:
					refusals++
				}
			},
			"find": func(t *rapid.T) {
				i := who.Draw(t, "from")
				a := as[i]
				if a.c == nil {
					return
				}
				j := rapid.IntRange(0, n).Draw(t, "whom")
				nick := "nobody"
				var want *account
				if j < n {
					want = as[j]
					nick = want.f.Public.Nick
				}
				r, err := a.c.call(rpc.TaggedCmdIdentityFind, rpc.IdentityFind{Nick: nick})
				if err != nil {
					fail("find: %v (%v)", err, a.c.err)
				}
				var f rpc.IdentityFindReply
				if err := decode(r, rpc.TaggedCmdIdentityFindReply, &f); err != nil {
					fail("find: %v", err)
				}
				log = append(log, fmt.Sprintf("%d?%s", i, nick))
				if f.Nick != nick {
					fail("reply about %q, asked for %q", f.Nick, nick)
				}
				switch {
				case want != nil && want.disabled:
					// found or not
					if f.Error == "" && (!opt.Directory || f.Identity != want.f.Public) {
						fail("wrong identity")
					}
				case want != nil && want.exists && want.listed && opt.Directory:
					if f.Error != "" || f.Identity != want.f.Public {
						fail("user %d was not found: %q", j, f.Error)
					}
				case want != nil && want.exists && want.mayList && opt.Directory:
					if f.Error == "" && f.Identity != want.f.Public {
						fail("wrong identity")
					}
				default:
					if f.Error == "" {
						fail("found %q, which is not in a directory", nick)
					}
					refusals++
				}
			},
			"identify": func(t *rapid.T) {
				c, err := s.dial()
				if err != nil {
					fail("dial: %v", err)
				}
				defer c.Close()
				c.SetDeadline(time.Now().Add(hz.WaitLimit))
				var b bytes.Buffer
				xdr.Marshal(&b, rpc.InitialCmdIdentify)
				c.Write(b.Bytes())
				var p zkidentity.PublicIdentity
				_, err = xdr.Unmarshal(c, &p)
				log = append(log, "identify")
				var ne net.Error
				if errors.As(err, &ne) && ne.Timeout() {
					fail("identify was neither answered nor refused")
				}
				if opt.Identify != (err == nil) || err == nil && p != *s.pub {
					fail("identify: %v, %v", err, p.Fingerprint())
				}
			},
			"restart": func(t *rapid.T) {
				if rapid.IntRange(0, 2).Draw(t, "really") > 0 {
					return
				}
				for _, a := range as {
					drop(a)
				}
				id := *s.pub
				if rapid.Bool().Draw(t, "reconfigure") {
					opt.Policy = rapid.SampledFrom([]string{"yes", "token", "no"}).Draw(t, "policy")
					opt.Directory = rapid.Bool().Draw(t, "directory")
					opt.Identify = rapid.Bool().Draw(t, "identify")
					s.opt = opt
				}
				s.restart()
				log = append(log, fmt.Sprintf("restart(%v,%v,%v)", opt.Policy, opt.Directory, opt.Identify))
				if *s.pub != id {
					fail("the server has another identity")
				}
			},
			"": func(t *rapid.T) {
				s.alive(t, "during "+hz.Join(log))
				for i, a := range as {
					if a.c != nil && a.c.isClosed() {
						fail("user %d lost the connection: %v", i, a.c.err)
					}
				}
			},
		}
		for _, k := range []string{"create", "connect", "send", "disable", "find"} {
			acts[k+"2"] = acts[k]
		}
		acts["create3"] = acts["create"]
		acts["restart2"] = acts["restart"]
		t.Repeat(acts)
		// in the end all users that may come get their messages
		for i, a := range as {
			if !a.exists {
				continue
			}
			if a.disabled {
				if e, err := s.admin(socketapi.SCUserEnable, hex.EncodeToString(a.f.Public.Identity[:])); err != nil || e != "" {
					fail("final enable: %q %v", e, err)
				}
			}
			if a.c == nil {
				a.c = s.connect(t, a.f)
			}
			drain(i)
			if p := a.c.recv(2 * time.Millisecond); p != nil {
				fail("user %d got an extra message %s", i, p.p.Payload)
			}
		}
		hz.ClassIf(kicked > 0, "policy: user disabled while online")
		hz.ClassIf(sessions > 0, "policy "+opt.Policy+" with sessions")
		hz.Case(refusals > 0, hz.Join(log)+fmt.Sprint(opt), fmt.Sprintf("%+v: %s", opt, hz.Join(log)))
	})
}

// A token works once, however many try at the same time.
func TestC16Tokens(t *testing.T) {
	hz.Check(t, 8, func(t *rapid.T) {
		s := startServer(t, options{Policy: "token", Directory: rapid.Bool().Draw(t, "directory")})
		defer s.close()
		ntok := rapid.IntRange(1, 4).Draw(t, "tokens")
		per := rapid.IntRange(2, 6).Draw(t, "users per token")
		toks := make([]string, ntok)
		for i := range toks {
			toks[i] = s.newToken(t)
		}
		var mtx sync.Mutex
		wins := map[string][]int{}
		var bad string
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < ntok*per; i++ {
			f := person(i)
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				c, err := s.dial()
				if err != nil {
					return
				}
				defer c.Close()
				c.SetDeadline(time.Now().Add(hz.WaitLimit))
				<-start
				e, err := createOn(c, f.Public, toks[i%ntok])
				mtx.Lock()
				defer mtx.Unlock()
				if err != nil {
					bad = fmt.Sprintf("user %d got no answer: %v", i, err)
				} else if e == "" {
					wins[toks[i%ntok]] = append(wins[toks[i%ntok]], i)
				}
			}(i)
		}
		time.Sleep(5 * time.Millisecond)
		close(start)
		wg.Wait()
		s.alive(t, "while accounts are created")
		if bad != "" {
			t.Fatalf("%s\n%s", bad, s.tail())
		}
		for _, tok := range toks {
			if len(wins[tok]) != 1 {
				t.Fatalf("token %s was accepted %d times, by users %v", tok, len(wins[tok]), wins[tok])
			}
		}
		// the account is there and works
		for _, w := range wins {
			c := s.connect(t, person(w[0]))
			c.close()
		}
		if rapid.Bool().Draw(t, "restart") {
			s.restart()
		}
		for _, tok := range toks {
			if e, err := s.create(person(40), tok); err == nil && e == "" {
				t.Fatalf("token %s was accepted again later", tok)
			}
		}
		hz.Case(true, fmt.Sprint("tokens", ntok, per), fmt.Sprintf("%d tokens, each tried by %d users at once", ntok, per))
	})
}

// Disabling takes effect however it coincides with the users' doings.
func TestC16Disable(t *testing.T) {
	hz.Check(t, 8, func(t *rapid.T) {
		s := startServer(t, options{Directory: rapid.IntRange(0, 3).Draw(t, "directory") == 0})
		defer s.close()
		rounds := rapid.IntRange(5, 30).Draw(t, "rounds")
		n := rapid.IntRange(2, 8).Draw(t, "users")
		clients := rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "clients per user")
		w := person(20)
		s.mustCreate(t, w)
		for i := 0; i < n; i++ {
			s.mustCreate(t, person(i))
		}
		wc := s.connect(t, w)
		defer wc.close()
		var mtx sync.Mutex
		var hold int32 // while set, clients keep their sessions
		live := make([][]*conn, n)
		seen := make([]map[string]int, n)
		accepted := make([]map[string]bool, n)
		total := 0
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			seen[i], accepted[i] = map[string]int{}, map[string]bool{}
			for k := 0; k < clients; k++ {
				wg.Add(1)
				go func(i, k int) {
					defer wg.Done()
					for r := 0; ; r++ {
						select {
						case <-stop:
							return
						default:
						}
						c, _, err := s.open(person(i))
						if err != nil {
							continue
						}
						mtx.Lock()
						live[i] = append(live[i], c)
						total++
						mtx.Unlock()
						for !c.isClosed() {
							p := c.recv(time.Millisecond)
							if p != nil {
								mtx.Lock()
								seen[i][string(p.p.Payload)]++
								mtx.Unlock()
								c.ack(p)
							}
							select {
							case <-stop:
								c.close()
								return
							default:
							}
							if atomic.LoadInt32(&hold) == 0 && (r+k+i)%4 != 0 {
								c.close() // and come again
							}
						}
					}
				}(i, k)
			}
		}
		fin := sync.Once{}
		end := func() { fin.Do(func() { close(stop); wg.Wait() }) }
		defer end()
		msg := 0
		send := func(i int) error {
			x := fmt.Sprint("m", msg)
			msg++
			err := wc.send(person(i).Public.Identity, []byte(x), false)
			if err == nil {
				accepted[i][x] = true
			}
			return err
		}
		admin := func(cmd string, i int) {
			if e, err := s.admin(cmd, hex.EncodeToString(person(i).Public.Identity[:])); err != nil || e != "" {
				s.alive(t, "while disabling")
				t.Fatalf("%s: %q %v", cmd, e, err)
			}
		}
		for r := 0; r < rounds; r++ {
			for i := 0; i < n; i++ {
				if err := send(i); err != nil {
					t.Fatalf("send to an enabled user: %v\n%s", err, s.tail())
				}
			}
			time.Sleep(time.Duration(rapid.IntRange(0, 30).Draw(t, "ms")) * time.Millisecond)
			atomic.StoreInt32(&hold, 1)
			for i := 0; i < n; i++ {
				admin(socketapi.SCUserDisable, i)
			}
			// all sessions end, and stay so
			deadline := time.Now().Add(hz.WaitLimit)
			for {
				open := 0
				mtx.Lock()
				for i := range live {
					k := live[i][:0]
					for _, c := range live[i] {
						if !c.isClosed() {
							k = append(k, c)
						}
					}
					live[i] = k
					open += len(k)
				}
				mtx.Unlock()
				if open == 0 {
					break
				}
				if time.Now().After(deadline) {
					t.Fatalf("round %d: %d sessions of disabled users stay online\n%s", r, open, s.tail())
				}
				time.Sleep(time.Millisecond)
			}
			for i := 0; i < n; i++ {
				var e errRefused
				if err := send(i); !errors.As(err, &e) || e.code != rpc.ErrorCodeUserDisabled {
					t.Fatalf("message to a disabled user: %v", err)
				}
				admin(socketapi.SCUserEnable, i)
			}
			atomic.StoreInt32(&hold, 0)
		}
		end()
		// nothing accepted was lost
		for i := 0; i < n; i++ {
			c := s.connect(t, person(i))
			for {
				missing := ""
				for x := range accepted[i] {
					if seen[i][x] == 0 {
						missing = x
					}
				}
				if missing == "" {
					break
				}
				p := c.recv(hz.WaitLimit)
				if p == nil {
					t.Fatalf("message %s was lost over disabling and enabling\n%s", missing, s.tail())
				}
				seen[i][string(p.p.Payload)]++
				c.ack(p)
			}
			c.close()
		}
		s.alive(t, "while disabling")
		hz.Case(true, fmt.Sprint("disable", rounds, n, clients), fmt.Sprintf("%d users with %d clients each, disabled and enabled %d times, %d sessions", n, clients, rounds, total))
	})
}

// An impostor, who knows the public key only, is not let in and does not harm.
func TestC16Impostor(t *testing.T) {
	hz.Check(t, 3, func(t *rapid.T) {
		s := startServer(t, options{})
		defer s.close()
		u, w := person(0), person(1)
		s.mustCreate(t, u)
		s.mustCreate(t, w)
		uc, wc := s.connect(t, u), s.connect(t, w)
		defer wc.close()
		f := *u
		f.PrivateKey = person(30).PrivateKey
		n := rapid.IntRange(1, 3).Draw(t, "impostors")
		for k := 0; k < n; k++ {
			c, reason, err := s.open(&f)
			if err == nil || reason != "" {
				if c != nil {
					c.close()
				}
				t.Fatalf("an impostor was let in or told something: %q", reason)
			}
			if err := wc.send(u.Public.Identity, []byte{byte(k)}, false); err != nil {
				t.Fatalf("send: %v (%v)", err, wc.err)
			}
		}
		// all sessions are as they were
		if err := wc.ping(); err != nil {
			t.Fatalf("another user lost the connection: %v", wc.err)
		}
		time.Sleep(20 * time.Millisecond)
		if uc.ping() != nil {
			if !hz.Listed("impostor-ends-session") {
				t.Fatalf("an impostor ended the session of a user")
			}
			hz.Known("impostor-ends-session: whoever knows a user's public key can end the user's session")
			uc = s.connect(t, u)
		}
		defer uc.close()
		for k := 0; k < n; k++ {
			p := uc.recv(hz.WaitLimit)
			if p == nil || !bytes.Equal(p.p.Payload, []byte{byte(k)}) {
				t.Fatalf("message %d did not arrive after an impostor was there: %v\n%s", k, p, s.tail())
			}
		}
		hz.Case(true, fmt.Sprint("impostor", n), fmt.Sprintf("%d impostors of a user that is online", n))
	})
}
