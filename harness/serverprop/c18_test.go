package serverprop

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver/socketapi"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"golang.org/x/crypto/nacl/secretbox"
	"pgregory.net/rapid"

	"zkcverif/hz"
)

func enc(vs ...interface{}) []byte {
	var b bytes.Buffer
	for _, v := range vs {
		if raw, ok := v.([]byte); ok {
			b.Write(raw)
			continue
		}
		_, err := xdr.Marshal(&b, v)
		hz.Must(err)
	}
	return b.Bytes()
}

func u32(n uint32) []byte {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], n)
	return b[:]
}

func noise(t *rapid.T, max int) []byte {
	b := make([]byte, rapid.IntRange(0, max).Draw(t, "noise"))
	rand.New(rand.NewSource(int64(rapid.IntRange(0, 1<<30).Draw(t, "noise seed")))).Read(b)
	return b
}

var sessionCommands = []string{rpc.TaggedCmdPing, rpc.TaggedCmdRendezvous, rpc.TaggedCmdRendezvousPull, rpc.TaggedCmdCache, rpc.TaggedCmdProxy, rpc.TaggedCmdAcknowledge, rpc.TaggedCmdIdentityFind}

var otherCommands = []string{"", "x", rpc.TaggedCmdPush, rpc.TaggedCmdPong, rpc.SessionCmdWelcome, rpc.SessionCmdUnwelcome, rpc.InitialCmdSession, rpc.InitialCmdCreateAccount, "\x00", strings.Repeat("A", 5000), "%s%n%d"}

// payloadOf is a well formed payload of a command.
func payloadOf(t *rapid.T, cmd string, to ID) interface{} {
	switch cmd {
	case rpc.TaggedCmdRendezvous:
		return rpc.Rendezvous{Blob: noise(t, 5000), Expiration: rapid.SampledFrom([]string{"1", "", "x"}).Draw(t, "exp")}
	case rpc.TaggedCmdRendezvousPull:
		return rpc.RendezvousPull{Token: string(noise(t, 40))}
	case rpc.TaggedCmdCache:
		return rpc.Cache{To: to, Payload: noise(t, 3000)}
	case rpc.TaggedCmdProxy:
		return rpc.Proxy{To: to, Payload: noise(t, 3000)}
	case rpc.TaggedCmdAcknowledge:
		return rpc.Acknowledge{Error: string(noise(t, 40)), ErrorCode: rapid.IntRange(-5, 5).Draw(t, "code")}
	case rpc.TaggedCmdIdentityFind:
		return rpc.IdentityFind{Nick: string(noise(t, 40))}
	}
	return rpc.Ping{}
}

// Whatever anybody sends, the server goes on and serves everybody else, and
// the same user with a new connection.
func TestC18Attacks(t *testing.T) {
	hz.CheckSteps(t, 12, 40, func(t *rapid.T) {
		s := startServer(t, options{
			Policy:    rapid.SampledFrom([]string{"yes", "token", "no"}).Draw(t, "policy"),
			Directory: rapid.Bool().Draw(t, "directory"),
			Identify:  rapid.Bool().Draw(t, "identify"),
			Extra:     rapid.SampledFrom([]string{"", "[log]\ndebug = yes\ntrace = yes\nprofiler ="}).Draw(t, "log"),
		})
		defer s.close()
		if s.opt.Policy != "yes" {
			// accounts were made before
			p := s.opt.Policy
			s.opt.Policy = "yes"
			s.restart()
			s.mustCreate(t, person(0))
			s.mustCreate(t, person(1))
			s.mustCreate(t, person(2))
			s.opt.Policy = p
			s.restart()
		} else {
			s.mustCreate(t, person(0))
			s.mustCreate(t, person(1))
			s.mustCreate(t, person(2))
		}
		var log []string
		fail := func(f string, args ...interface{}) {
			t.Helper()
			s.alive(t, "during "+hz.Join(log))
			t.Fatalf("%s\nhistory: %s\n%s", fmt.Sprintf(f, args...), hz.Join(log), s.tail())
		}
		a, b := s.connect(t, person(0)), s.connect(t, person(1))
		defer a.close()
		defer b.close()
		m := person(2)
		target := rapid.SampledFrom([]ID{m.Public.Identity, m.Public.Identity, {}, person(9).Public.Identity})
		var mc *conn
		attacks := 0
		closers := []func(){}
		defer func() {
			for _, f := range closers {
				f()
			}
		}()
		var toB [][]byte
		count := 0
		check := func() {
			t.Helper()
			s.alive(t, "during "+hz.Join(log))
			for i, c := range []*conn{a, b} {
				if err := c.ping(); err != nil {
					fail("bystander %d: %v (%v)", i, err, c.err)
				}
			}
			x := []byte(fmt.Sprint("text ", count))
			count++
			if err := a.send(person(1).Public.Identity, x, false); err != nil {
				fail("message between bystanders: %v (%v)", err, a.err)
			}
			toB = append(toB, x)
			for len(toB) > 0 {
				p := b.recv(hz.WaitLimit)
				if p == nil {
					fail("a bystander waits for %q in vain (%v)", toB[0], b.err)
				}
				b.ack(p)
				if p.p.From != a.me.Public.Identity {
					if p.p.From != m.Public.Identity {
						fail("message from a stranger")
					}
					continue // from the attacker
				}
				if !bytes.Equal(p.p.Payload, toB[0]) {
					fail("expected %q, got %q", toB[0], p.p.Payload)
				}
				toB = toB[1:]
			}
		}
		anon := func(f func(t *rapid.T, c net.Conn) string) func(*rapid.T) {
			return func(t *rapid.T) {
				c, err := s.dial()
				if err != nil {
					s.alive(t, "during "+hz.Join(log))
					fail("dial: %v", err)
				}
				c.SetDeadline(time.Now().Add(5 * time.Second))
				log = append(log, f(t, c))
				attacks++
				if rapid.Bool().Draw(t, "leave") {
					if rapid.Bool().Draw(t, "abruptly") {
						reset(c)
					}
					c.Close()
				} else {
					closers = append(closers, func() { c.Close() })
				}
			}
		}
		session := func(f func(t *rapid.T, c *conn) string) func(*rapid.T) {
			return func(t *rapid.T) {
				if mc == nil || mc.isClosed() || rapid.IntRange(0, 3).Draw(t, "fresh") == 0 {
					if mc != nil && rapid.Bool().Draw(t, "close first") {
						mc.close()
					} else if mc != nil {
						c := mc
						closers = append(closers, c.close)
					}
					mc = s.connect(t, m)
				}
				log = append(log, f(t, mc))
				attacks++
				switch rapid.IntRange(0, 5).Draw(t, "then") {
				case 0:
					reset(mc.kx.Conn)
					mc.close()
				case 1:
					mc.close()
				}
			}
		}
		acts := map[string]func(*rapid.T){
			"noise": anon(func(t *rapid.T, c net.Conn) string {
				c.Write(noise(t, 3000))
				return "noise"
			}),
			"length": anon(func(t *rapid.T, c net.Conn) string {
				n := rapid.SampledFrom([]uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffc, 1 << 20, 300000}).Draw(t, "length")
				c.Write(append(u32(n), noise(t, 500)...))
				return fmt.Sprint("length:", n)
			}),
			"plain tcp": func(t *rapid.T) {
				c, err := net.Dial("tcp", s.addr)
				if err != nil {
					fail("dial: %v", err)
				}
				c.Write(noise(t, 600))
				closers = append(closers, func() { c.Close() })
				if rapid.Bool().Draw(t, "leave") {
					c.Close()
				}
				log = append(log, "tcp")
				attacks++
			},
			"modes": anon(func(t *rapid.T, c net.Conn) string {
				mode := rapid.SampledFrom([]string{"", "sessio", "Session", "session ", rpc.InitialCmdIdentify, rpc.TaggedCmdPing, strings.Repeat("s", 10000), "\xff"}).Draw(t, "mode")
				for k := rapid.IntRange(1, 5).Draw(t, "times"); k > 0; k-- {
					c.Write(enc(mode))
				}
				return fmt.Sprintf("mode(%.8q)", mode)
			}),
			"create": anon(func(t *rapid.T, c net.Conn) string {
				p := person(30).Public
				switch rapid.IntRange(0, 4).Draw(t, "kind") {
				case 0:
					c.Write(enc(rpc.InitialCmdCreateAccount, noise(t, 5000)))
				case 1:
					c.Write(enc(rpc.InitialCmdCreateAccount, u32(0xffffff00), noise(t, 100)))
				case 2:
					p.Name, p.Nick = string(noise(t, 2000)), string(noise(t, 2000))
					c.Write(enc(rpc.InitialCmdCreateAccount, rpc.CreateAccount{Token: string(noise(t, 100)), PublicIdentity: p}))
				case 3:
					c.Write(enc(rpc.InitialCmdCreateAccount, rpc.CreateAccount{PublicIdentity: zkidentity.PublicIdentity{}}))
				case 4:
					e := enc(rpc.InitialCmdCreateAccount, rpc.CreateAccount{PublicIdentity: person(0).Public})
					c.Write(e)
					c.Write(e)
				}
				return "create"
			}),
			"handshake": anon(func(t *rapid.T, c net.Conn) string {
				c.Write(enc(rpc.InitialCmdSession))
				switch rapid.IntRange(0, 3).Draw(t, "kind") {
				case 0:
					c.Write(noise(t, 1200))
				case 1:
					c.Write(make([]byte, 1048))
					c.Write(append(u32(rapid.SampledFrom([]uint32{0, 15, 16, 1234, 0xffffffff, 263168, 263169}).Draw(t, "frame")), noise(t, 2000)...))
				case 2:
					c.Write(noise(t, 40000))
				}
				return "handshake"
			}),
			"admin": func(t *rapid.T) {
				c, err := net.Dial("unix", filepath.Join(s.dir, socketapi.SocketFilename))
				if err != nil {
					fail("admin socket: %v", err)
				}
				x := rapid.SampledFrom([]string{
					"", "{", "{}", "null", "[]", "\"x\"", "1e999", `{"version":1,"command":"userdisable"}`,
					`{"Version":1,"Command":"userdisable"} {"Identity":""}`, `{"Version":1,"Command":"userenable"} {"Identity":"00"}`,
					`{"Version":1,"Command":"userdisable"} {"Identity":"` + strings.Repeat("ab", 33) + `"}`,
					`{"Version":1,"Command":"userenable"} {"Identity":"../../x"}`,
					`{"Version":1,"Command":"nothing"} {}`, `{"Version":99,"Command":"userdisable"} {}`,
					strings.Repeat("[", 20000), "\x00\xff",
				}).Draw(t, "text")
				c.Write([]byte(x))
				if rapid.Bool().Draw(t, "leave") {
					c.Close()
				} else {
					closers = append(closers, func() { c.Close() })
				}
				log = append(log, fmt.Sprintf("admin(%.20s)", x))
				attacks++
			},
			"tags": session(func(t *rapid.T, c *conn) string {
				cmd := rapid.SampledFrom(sessionCommands).Draw(t, "cmd")
				tag := rapid.SampledFrom([]uint32{32, 33, 64, 255, 1 << 16, 1 << 31, 0xffffffff, 31, 0}).Draw(t, "tag")
				c.writeRaw(enc(rpc.Message{Command: cmd, Tag: tag}, payloadOf(t, cmd, target.Draw(t, "target"))))
				return fmt.Sprintf("%s:tag%d", cmd, tag)
			}),
			"acks": session(func(t *rapid.T, c *conn) string {
				k := rapid.IntRange(1, 40).Draw(t, "times")
				for i := 0; i < k; i++ {
					tag := uint32(rapid.IntRange(0, 40).Draw(t, "tag"))
					if c.writeRaw(enc(rpc.Message{Command: rpc.TaggedCmdAcknowledge, Tag: tag}, rpc.Acknowledge{})) != nil {
						break
					}
				}
				return fmt.Sprint("acks:", k)
			}),
			"double ack": session(func(t *rapid.T, c *conn) string {
				c.send(m.Public.Identity, []byte("to myself"), false)
				p := c.recv(2 * time.Second)
				if p != nil {
					c.ack(p)
					c.ack(p)
				}
				return "doubleack"
			}),
			"malformed": session(func(t *rapid.T, c *conn) string {
				cmd := rapid.SampledFrom(append(append([]string{}, sessionCommands...), otherCommands...)).Draw(t, "cmd")
				e := enc(rpc.Message{Command: cmd, Tag: uint32(rapid.IntRange(0, 31).Draw(t, "tag")), Cleartext: rapid.Bool().Draw(t, "clear"), TimeStamp: -1}, payloadOf(t, cmd, target.Draw(t, "target")))
				switch rapid.IntRange(0, 5).Draw(t, "how") {
				case 0:
					e = e[:rapid.IntRange(0, len(e)).Draw(t, "cut")]
				case 1:
					for k := rapid.IntRange(1, 8).Draw(t, "flips"); k > 0; k-- {
						e[rapid.IntRange(0, len(e)-1).Draw(t, "at")] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
					}
				case 2:
					at := rapid.IntRange(0, len(e)/4-1).Draw(t, "word") * 4
					copy(e[at:], u32(rapid.SampledFrom([]uint32{0, 0xffffffff, 0x7fffffff, 0x80000000, 263168, 1 << 24}).Draw(t, "value")))
				case 3:
					e = append(e, noise(t, 100)...)
				case 4:
					e = noise(t, 300)
				}
				c.writeRaw(e)
				return fmt.Sprintf("malformed(%.8q,%d)", cmd, len(e))
			}),
			"frames": session(func(t *rapid.T, c *conn) string {
				var f []byte
				k := rapid.IntRange(0, 5).Draw(t, "kind")
				switch k {
				case 0:
					f = append(u32(rapid.SampledFrom([]uint32{0, 1, 15, 16, 17, 263168, 263169, 1 << 24, 0x7fffffff, 0xffffffff}).Draw(t, "length")), noise(t, 200)...)
				case 1:
					// a wrong key
					f = lopaque(secretbox.Seal(nil, enc(rpc.Message{Command: rpc.TaggedCmdPing}), lnonce(c.kx.wseq), c.kx.rkey))
				case 2:
					// replay
					f = lopaque(secretbox.Seal(nil, enc(rpc.Message{Command: rpc.TaggedCmdPing}), lnonce(0), c.kx.wkey))
				case 3:
					f = lopaque(secretbox.Seal(nil, make([]byte, 263168), lnonce(c.kx.wseq), c.kx.wkey))
				case 4:
					f = lopaque(secretbox.Seal(nil, nil, lnonce(c.kx.wseq), c.kx.wkey))
				case 5:
					f = noise(t, 100)
				}
				c.wmtx.Lock()
				c.kx.Conn.SetWriteDeadline(time.Now().Add(5 * time.Second))
				c.kx.Conn.Write(f)
				c.wmtx.Unlock()
				return fmt.Sprint("frame", k)
			}),
			"flood": session(func(t *rapid.T, c *conn) string {
				// pings and messages whose replies nobody reads
				c.kx.Conn.SetReadDeadline(time.Now())
				k := rapid.SampledFrom([]int{100, 3000}).Draw(t, "flood")
				cmd := rapid.SampledFrom([]string{rpc.TaggedCmdPing, rpc.TaggedCmdIdentityFind, rpc.TaggedCmdRendezvousPull, rpc.TaggedCmdCache}).Draw(t, "cmd")
				big := strings.Repeat("n", rapid.SampledFrom([]int{1, 20000}).Draw(t, "reply size"))
				n := 0
				for ; n < k; n++ {
					var p interface{} = rpc.Ping{}
					switch cmd {
					case rpc.TaggedCmdIdentityFind:
						p = rpc.IdentityFind{Nick: big}
					case rpc.TaggedCmdRendezvousPull:
						p = rpc.RendezvousPull{Token: big}
					case rpc.TaggedCmdCache:
						p = rpc.Cache{To: m.Public.Identity, Payload: []byte(big)}
					}
					if n > 200 && cmd != rpc.TaggedCmdPing {
						break
					}
					c.kx.Conn.SetWriteDeadline(time.Now().Add(300 * time.Millisecond))
					if c.writeRaw(enc(rpc.Message{Command: cmd, Tag: uint32(n % tagDepth)}, p)) != nil {
						break
					}
				}
				if rapid.IntRange(0, 3).Draw(t, "disable") == 0 {
					id := hex.EncodeToString(m.Public.Identity[:])
					for _, cmd := range []string{socketapi.SCUserDisable, socketapi.SCUserEnable} {
						if e, err := s.admin(cmd, id); err != nil || e != "" {
							fail("%s of a user that floods: %q %v", cmd, e, err)
						}
					}
					return fmt.Sprintf("flood(%s,%d)+disable", cmd, n)
				}
				return fmt.Sprintf("flood(%s,%d)", cmd, n)
			}),
			"spam": session(func(t *rapid.T, c *conn) string {
				to := rapid.SampledFrom([]ID{person(0).Public.Identity, person(1).Public.Identity}).Draw(t, "to")
				k := rapid.IntRange(1, 60).Draw(t, "n")
				if to == person(0).Public.Identity {
					k = 1
				}
				for i := 0; i < k; i++ {
					if c.send(to, noise(t, 3000), rapid.Bool().Draw(t, "clear")) != nil {
						break
					}
				}
				return fmt.Sprint("spam:", k)
			}),
			"": func(t *rapid.T) {
				for {
					// the writer gets spam as well
					p := a.recv(0)
					if p == nil {
						break
					}
					a.ack(p)
				}
				check()
			},
		}
		t.Repeat(acts)
		check()
		// the attacker is a user like any other when behaving
		if mc != nil {
			c := mc
			closers = append(closers, c.close)
		}
		log = append(log, "final")
		mc = s.connect(t, m)
		defer mc.close()
		x := []byte("the last message")
		if err := a.send(m.Public.Identity, x, false); err != nil {
			fail("message to the attacker: %v", err)
		}
		for {
			p := mc.recv(hz.WaitLimit)
			if p == nil {
				fail("after attacks the user does not get messages (%v)", mc.err)
			}
			if err := mc.ack(p); err != nil {
				fail("ack: %v", err)
			}
			if bytes.Equal(p.p.Payload, x) {
				break
			}
		}
		hz.ClassIf(attacks > 10, "more than 10 attacks")
		hz.Case(attacks > 0, hz.Join(log), fmt.Sprintf("%+v: %s", s.opt, hz.Join(log)))
	})
}

// Files in a user's directory that are not messages do not keep the messages
// from being delivered, and nor do incomplete accounts keep users from being
// found.
func TestC18Disk(t *testing.T) {
	hz.Check(t, 12, func(t *rapid.T) {
		s := startServer(t, options{Directory: true})
		defer s.close()
		u, w := person(0), person(1)
		s.mustCreate(t, u)
		s.mustCreate(t, w)
		wc := s.connect(t, w)
		defer wc.close()
		home := filepath.Join(s.dir, "home")
		cache := filepath.Join(home, hex.EncodeToString(u.Public.Identity[:]), "cache")
		var uc *conn
		online := rapid.Bool().Draw(t, "online meanwhile")
		if online {
			uc = s.connect(t, u)
			defer func() { uc.close() }()
		}
		n := rapid.IntRange(1, 12).Draw(t, "messages")
		bad := 0
		var log []string
		for k := 0; k < n; k++ {
			if rapid.Bool().Draw(t, "damage") {
				kind := rapid.SampledFrom([]string{"empty", "short", "noise", "directory", "dangling link", "huge length"}).Draw(t, "kind")
				name := filepath.Join(cache, time.Now().Format("20060102150405.000000000"))
				switch kind {
				case "empty":
					hz.Must(os.WriteFile(name, nil, 0600))
				case "short":
					hz.Must(os.WriteFile(name, make([]byte, rapid.IntRange(1, 39).Draw(t, "len")), 0600))
				case "noise":
					hz.Must(os.WriteFile(name, append(make([]byte, 40), bytes.Repeat([]byte{0xff}, rapid.IntRange(5, 100).Draw(t, "len"))...), 0600))
				case "directory":
					hz.Must(os.Mkdir(name, 0700))
				case "dangling link":
					hz.Must(os.Symlink("nowhere", name))
				case "huge length":
					hz.Must(os.WriteFile(name, append(make([]byte, 40), 0x7f, 0xff, 0xff, 0xff, 1, 2, 3), 0600))
				}
				bad++
				log = append(log, kind)
			}
			if rapid.Bool().Draw(t, "account") {
				id := noise(t, 40)
				d := filepath.Join(home, fmt.Sprintf("%064x", id))
				os.Mkdir(d, 0700)
				if rapid.Bool().Draw(t, "ini") {
					hz.Must(os.WriteFile(filepath.Join(d, "user.ini"), nil, 0600))
				}
				log = append(log, "incomplete account")
			}
			if err := wc.send(u.Public.Identity, []byte(fmt.Sprint("m", k)), false); err != nil {
				t.Fatalf("send: %v %v", err, wc.err)
			}
			log = append(log, fmt.Sprint("m", k))
		}
		if uc == nil {
			uc = s.connect(t, u)
			defer func() { uc.close() }()
		}
		for k := 0; k < n; {
			p := uc.recv(hz.WaitLimit)
			if p == nil {
				s.alive(t, "with files that are not messages")
				t.Fatalf("message %d did not arrive: %s\n%s", k, hz.Join(log), s.tail())
			}
			uc.ack(p)
			if string(p.p.Payload) == fmt.Sprint("m", k) && p.p.From == w.Public.Identity {
				k++
			} else if p.p.From == w.Public.Identity {
				t.Fatalf("got %q instead of m%d: %s", p.p.Payload, k, hz.Join(log))
			}
		}
		r, err := wc.call(rpc.TaggedCmdIdentityFind, rpc.IdentityFind{Nick: u.Public.Nick})
		if err != nil {
			t.Fatalf("find: %v", err)
		}
		var f rpc.IdentityFindReply
		if err := decode(r, rpc.TaggedCmdIdentityFindReply, &f); err != nil || f.Error != "" || f.Identity != u.Public {
			t.Fatalf("a listed user was not found: %q %v: %s", f.Error, err, hz.Join(log))
		}
		s.alive(t, "with files that are not messages")
		hz.Case(bad > 0, hz.Join(log), fmt.Sprintf("online %v: %s", online, hz.Join(log)))
	})
}
