//go:build go1.21

package main

import (
	"bytes"
	"compress/zlib"
	"crypto/rand"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"testing"
	"time"
	"unicode"
	"unicode/utf8"

	"zkcverif/hz"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"pgregory.net/rapid"
)

// C23: alice is online and talks to carol, in private and in groups, while bob
// (a contact and member), a stranger and the server send her what they like.

type c23 struct {
	r      *relay
	nodes  []*node // alice, bob, carol
	mal    *node   // a client with an odd nick, if any
	files  map[string]string
	carol  []string            // what she said in private
	group  map[string][]string // and in groups
	told   []string            // what alice told carol
	seq    int
	ops    []string
	direct int
	live   int
	raw    int
	odd    int
	sep    bool
}

func (m *c23) op(format string, args ...interface{}) {
	m.ops = append(m.ops, fmt.Sprintf(format, args...))
}

func (m *c23) fail(rt hz.Fataler, format string, args ...interface{}) {
	c := m.nodes[0].console()
	m.r.mtx.Lock()
	bad := fmt.Sprint(m.r.bad)
	m.r.mtx.Unlock()
	c2 := m.nodes[2].console()
	rt.Fatalf("%s\nops %s\n--- console of alice\n%s\n--- console of carol\n%s\nserver %s", fmt.Sprintf(format, args...), hz.Trim(strings.Join(m.ops, "; "), 6000), c[max(0, len(c)-8000):], c2[max(0, len(c2)-2500):], bad)
}

// words are what makes up remote text. A forged line has its marker at the
// very start, or after a name that did not say it.
var c23words = []string{"hello", "x y", "é日本", "%s%d%n%!v", "\x1b[31mred", "\x1b[0m", "\x1b]0;title\x07", "\xff\xfe", "\xe2\x80", "ıſȺⱥK", "ALICE", "alice", "aLiCe", "İ",
	"Ⱥalice", "ſſſalice", "ıııııııalice", "\t", "a  b", "\x00", "\u2028", "<carol> hi", "* carol", "T <carol> hm"}

var c23seps = []string{"\n", "\r", "\r\n", "\v", "\f", "\u0085", "\x1b[2K\r", "\x1b[1A\r", "\x1b[H", "\x08\x08\x08\x08\x08\x08\x08\x08\x08\x08\x08\x08\x08\x08\x08\x08", "\n\n"}

var c23heads = []string{"T <carol> FORGED", "T [LOG] T FORGED", "FORGED", "<carol> FORGED", "T * carol FORGED", "* carol FORGED"}

func (m *c23) text(rt *rapid.T) string {
	var sb strings.Builder
	sb.WriteString("x")
	for k := rapid.IntRange(0, 5).Draw(rt, "pieces"); k > 0; k-- {
		switch rapid.IntRange(0, 5).Draw(rt, "piece") {
		case 0, 1:
			m.sep = true
			sb.WriteString(rapid.SampledFrom(c23seps).Draw(rt, "sep"))
			sb.WriteString(rapid.SampledFrom(c23heads).Draw(rt, "head"))
			sb.WriteString(" ")
		case 2:
			sb.WriteString(strings.Repeat(rapid.SampledFrom([]string{"a", " ", "é", "\x1b", "\x1b[", "\n"}).Draw(rt, "unit"), rapid.SampledFrom([]int{3, 100, 119, 120, 121, 5000}).Draw(rt, "times")))
		default:
			sb.WriteString(rapid.SampledFrom(c23words).Draw(rt, "word"))
		}
	}
	return sb.String()
}

// clean says what is wrong with what a user of n can see or read in her files.
func (m *c23) clean(n *node) string {
	check := func(where string, raw bool, lines []string) string {
		for _, l := range lines {
			if i := strings.IndexFunc(l, func(c rune) bool { return c != '\t' && unicode.IsControl(c) }); i >= 0 {
				return fmt.Sprintf("%s: control character in %.200q", where, l[max(0, i-50):])
			}
			if !strings.HasPrefix(l, "T ") && l != "T" && l != "" {
				return fmt.Sprintf("%s: line %.200q", where, l)
			}
			for again := true; again; {
				again = false
				for _, p := range []string{"T ", "[LOG] ", "[ERR] ", " "} {
					if strings.HasPrefix(l, p) {
						l, again = l[len(p):], true
					}
				}
			}
			for _, h := range c23heads {
				if strings.HasPrefix(l, h) {
					return fmt.Sprintf("%s: line that nobody wrote %.200q", where, l)
				}
			}
		}
		return ""
	}
	for f, lines := range n.allLogs() {
		if s := check("log "+f, true, lines); s != "" {
			return s
		}
	}
	if s := check("console log", true, logLines(filepath.Join(n.root, "zkclient.log"))); s != "" {
		return s
	}
	n.z.RLock()
	wins := len(n.z.conversation)
	n.z.RUnlock()
	for w := 0; w < wins; w++ {
		if s := check(fmt.Sprintf("window %d", w), false, n.screen(w)); s != "" {
			return s
		}
	}
	return ""
}

// outside lists the files that no message may touch.
func (m *c23) outside() map[string]string {
	n := m.nodes[0]
	f := snapshot(n.top, func(rel string) bool {
		p := filepath.Join(n.top, rel)
		for _, d := range []string{spoolDir, inboundDir, groupchatDir, filepath.Dir(joinsPath)} {
			if p == filepath.Join(n.root, d) {
				return true
			}
		}
		return filepath.Dir(p) == filepath.Join(n.root, logsDir) && strings.HasSuffix(p, ".log") || filepath.Dir(p) == filepath.Join(n.root, conversationsDir)
	})
	for rel := range f {
		if filepath.Join(n.top, rel) == filepath.Join(n.root, "zkclient.log") {
			f[rel] = "..."
		}
	}
	return f
}

func (m *c23) settle(rt hz.Fataler) {
	all := m.nodes
	if m.mal != nil {
		all = append(append([]*node(nil), all...), m.mal)
	}
	if !settleHard(m.r, all) {
		m.fail(rt, "alice does not come to rest: %s", settled(m.r, all))
	}
}

func said(lines []string, who string) []string {
	var out []string
	for _, l := range lines {
		if s, ok := strings.CutPrefix(l, "T <"+who+"> "); ok {
			out = append(out, s)
		}
	}
	return out
}

// verify: what carol and alice said is there, and nothing else under their
// names; the rest of the world of alice is as it was.
func (m *c23) verify(rt hz.Fataler) {
	m.settle(rt)
	a, c := m.nodes[0], m.nodes[2]
	if !a.online() {
		m.fail(rt, "alice is not online any more")
	}
	m.r.mtx.Lock()
	bad := len(m.r.bad)
	m.r.mtx.Unlock()
	if bad != 0 {
		m.fail(rt, "protocol error of a client")
	}
	cp := &c.id.Public
	same := func(what string, got, want []string) {
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			m.fail(rt, "%s: %.2000q, want %.2000q", what, got, want)
		}
	}
	same("carol in private", said(logLines(a.pmLog(cp)), "carol"), m.carol)
	same("alice to carol", said(logLines(c.pmLog(&a.id.Public)), "alice"), m.told)
	for _, g := range []string{"hers", "ours"} {
		same("carol in "+g, said(logLines(a.gcLog(g)), "carol"), m.group[g])
		gl, ok := groupOf(a, g)
		in := 0
		for _, id := range gl.Members {
			if id == a.ident() || id == c.ident() {
				in++
			}
		}
		if !ok || in != 2 {
			m.fail(rt, "group %s of alice is %v", g, gl)
		}
	}
	for f, lines := range a.allLogs() {
		if f == filepath.Base(a.pmLog(cp)) || strings.HasPrefix(f, "groupchat.") {
			continue
		}
		same("carol in "+f, said(lines, "carol"), nil)
	}
	if s := m.clean(a); s != "" {
		m.fail(rt, "%s", s)
	}
	now := m.outside()
	for f, b := range now {
		if was, ok := m.files[f]; !ok || was != b {
			m.fail(rt, "file %s: is %.100q, was %.100q (there: %v)", f, b, was, ok)
		}
	}
}

// raw encrypts what bob (or whoever) sends to alice.
func (m *c23) encrypt(rt hz.Fataler, n *node, b []byte) []byte {
	n.z.ratchetMtx.Lock()
	defer n.z.ratchetMtx.Unlock()
	r, err := n.z.loadRatchet(m.nodes[0].ident(), false)
	if err != nil {
		rt.Fatalf("no ratchet: %v", err)
	}
	e, err := r.Encrypt(nil, b)
	hz.Must(err)
	hz.Must(n.z.updateRatchet(r, false))
	return e
}

func marshal(v interface{}) []byte {
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, v)
	hz.Must(err)
	return bb.Bytes()
}

func deflate(b []byte) []byte {
	var bb bytes.Buffer
	w := zlib.NewWriter(&bb)
	w.Write(b)
	w.Close()
	return bb.Bytes()
}

// payload makes up a command of a contact.
func (m *c23) payload(rt *rapid.T) []byte {
	gname := func() string {
		return rapid.SampledFrom([]string{"theirs", "ours", "hers", "none", "", "../x", "theirs\nT <carol> FORGED", "ours ", "x\x1b[2K"}).Draw(rt, "group")
	}
	member := func() ident {
		k := rapid.IntRange(0, 3).Draw(rt, "member")
		if k == 3 {
			return ident{9}
		}
		return m.nodes[k].ident()
	}
	list := func() rpc.GroupList {
		gl := rpc.GroupList{Name: gname(), Generation: rapid.SampledFrom([]uint64{0, 1, 2, 3, 4, 5, 100, math.MaxUint64}).Draw(rt, "gen"),
			Timestamp: rapid.SampledFrom([]int64{0, -1, math.MaxInt64, math.MinInt64}).Draw(rt, "stamp")}
		for k := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 50}).Draw(rt, "members"); k > 0; k-- {
			gl.Members = append(gl.Members, member())
		}
		return gl
	}
	mode := func() rpc.MessageMode { return rpc.MessageMode(rapid.SampledFrom([]int{0, 1, 2, 99}).Draw(rt, "mode")) }
	var cmd string
	var v interface{}
	switch rapid.IntRange(0, 13).Draw(rt, "kind") {
	case 0, 1:
		cmd, v = rpc.CRPCCmdPrivateMessage, rpc.PrivateMessage{Text: m.text(rt), Mode: mode()}
	case 2, 3:
		cmd, v = rpc.CRPCCmdGroupMessage, rpc.GroupMessage{Name: gname(), Generation: 1, Message: m.text(rt), Mode: mode()}
	case 4:
		gi := rpc.GroupInvite{Name: gname(), Token: uint64(rapid.IntRange(0, 9).Draw(rt, "token")), Description: m.text(rt), Expires: math.MaxInt64}
		for k := rapid.SampledFrom([]int{0, 1, 3, 40}).Draw(rt, "invited"); k > 0; k-- {
			gi.Members = append(gi.Members, m.text(rt))
		}
		cmd, v = rpc.CRPCCmdGroupInvite, gi
	case 5:
		cmd, v = rpc.CRPCCmdGroupJoin, rpc.GroupJoin{Name: gname(), Token: uint64(rapid.IntRange(0, 9).Draw(rt, "token")), Error: m.text(rt)}
	case 6:
		cmd, v = rpc.CRPCCmdGroupPart, rpc.GroupPart{Name: gname(), Reason: m.text(rt)}
	case 7:
		cmd, v = rpc.CRPCCmdGroupKick, rpc.GroupKick{Member: member(), Parted: rapid.Bool().Draw(rt, "parted"), Reason: m.text(rt), NewGroupList: list()}
	case 8:
		cmd, v = rpc.CRPCCmdGroupKill, rpc.GroupKill{Name: gname(), Reason: m.text(rt)}
	case 9:
		cmd, v = rpc.CRPCCmdGroupList, list()
	case 10:
		cmd, v = rpc.CRPCCmdGroupUpdate, rpc.GroupUpdate{NewGroupList: list()}
	case 11:
		cmd, v = rpc.CRPCCmdChunkNew, rpc.ChunkNew{Size: rapid.SampledFrom([]uint64{0, 1, 9, math.MaxUint64}).Draw(rt, "size"), Filename: m.text(rt), Description: m.text(rt), MIME: m.text(rt), Digest: [32]byte{1}}
	case 12:
		cmd, v = rpc.CRPCCmdChunk, rpc.Chunk{Offset: rapid.SampledFrom([]uint64{0, 1, math.MaxUint64}).Draw(rt, "offset"), Digest: [32]byte{1}, Payload: []byte(m.text(rt))}
	case 13:
		cmd, v = rpc.CRPCCmdJanitorMessage, rpc.JanitorMessage{Command: rapid.SampledFrom([]string{rpc.CRPCJanitorDeleted, "x\nT FORGED"}).Draw(rt, "janitor"), Reason: m.text(rt)}
	}
	b := marshal(v)
	h := rpc.CRPC{Timestamp: rapid.SampledFrom([]int64{0, time.Now().Unix(), math.MaxInt64}).Draw(rt, "when"), Command: cmd, Compression: rpc.CRPCCompNone}
	damage := rapid.IntRange(0, 12).Draw(rt, "damage")
	what := ""
	switch damage {
	case 0:
		what = "cut"
		b = b[:rapid.IntRange(0, len(b)).Draw(rt, "cut")]
	case 1:
		// a length that is not there
		what = "long"
		if len(b) >= 4 {
			at := rapid.IntRange(0, len(b)/4-1).Draw(rt, "at") * 4
			binary.BigEndian.PutUint32(b[at:], rapid.SampledFrom([]uint32{math.MaxUint32, math.MaxInt32, math.MaxInt32 - 3, 1 << 30, 1 << 27, 1 << 20}).Draw(rt, "length"))
		}
	case 2:
		what = "command"
		h.Command = m.text(rt)
	case 3:
		what = "compression"
		h.Compression = m.text(rt)
	case 4:
		what = "not compressed"
		h.Compression = rpc.CRPCCompZLIB
	case 5:
		what = "cut, compressed"
		h.Compression = rpc.CRPCCompZLIB
		b = deflate(b)
		b = b[:rapid.IntRange(0, len(b)).Draw(rt, "cut")]
	case 6:
		what = "bomb"
		h.Compression = rpc.CRPCCompZLIB
		n := rapid.SampledFrom([]int{1 << 20, 40 << 20, 150 << 20}).Draw(rt, "bomb")
		pad := strings.Repeat(rapid.SampledFrom([]string{"a", " ", "\x1b", "\n", "é"}).Draw(rt, "unit"), n)
		if rapid.Bool().Draw(rt, "grouped") {
			h.Command = rpc.CRPCCmdGroupMessage
			b = marshal(rpc.GroupMessage{Name: "hers", Message: pad})
		} else {
			h.Command = rpc.CRPCCmdPrivateMessage
			b = marshal(rpc.PrivateMessage{Text: pad})
		}
		b = deflate(b)
	case 7, 8:
		what = "compressed"
		h.Compression = rpc.CRPCCompZLIB
		b = deflate(b)
	}
	if what != "" && what != "compressed" {
		m.odd++
	}
	m.op("%s %s %.300q", cmd, what, fmt.Sprintf("%v", v))
	return append(marshal(h), b...)
}

// mustReact: alice is not kept busy by what arrived.
func (m *c23) mustReact(rt hz.Fataler, limit time.Duration, f func()) {
	c := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				buf := make([]byte, 1<<16)
				c <- fmt.Sprintf("%v\n%s", e, buf[:runtime.Stack(buf, false)])
				return
			}
			c <- ""
		}()
		f()
	}()
	select {
	case s := <-c:
		if s != "" {
			m.fail(rt, "alice crashes: %s", s)
		}
	case <-time.After(limit):
		m.fail(rt, "alice hangs")
	}
}

// opDirect hands alice, who is idle, what bob sends.
func (m *c23) opDirect(rt *rapid.T) {
	m.settle(rt)
	a, b := m.nodes[0], m.nodes[1]
	if m.mal != nil && rapid.IntRange(0, 3).Draw(rt, "odd") == 0 {
		b = m.mal
	}
	for k := rapid.IntRange(1, 4).Draw(rt, "n"); k > 0; k-- {
		e := m.encrypt(rt, b, m.payload(rt))
		m.direct++
		m.mustReact(rt, 40*time.Second, func() {
			err := a.z.handlePush(rpc.Message{Command: rpc.TaggedCmdPush}, rpc.Push{From: b.ident(), Received: time.Now().Unix(), Payload: e})
			a.barrier()
			_ = err
		})
	}
}

// opLive sends a burst of it.
func (m *c23) opLive(rt *rapid.T) {
	a, b := m.nodes[0], m.nodes[1]
	if m.mal != nil && rapid.IntRange(0, 3).Draw(rt, "odd") == 0 {
		b = m.mal
	}
	n := rapid.SampledFrom([]int{1, 2, 5, 20}).Draw(rt, "n")
	m.op("live %d", n)
	for ; n > 0; n-- {
		e := m.encrypt(rt, b, m.payload(rt))
		m.live++
		m.r.inject(b.ident(), a.ident(), e, false)
	}
}

// opJunk is what has no ratchet.
func (m *c23) opJunk(rt *rapid.T) {
	a := m.nodes[0]
	from := rapid.SampledFrom([]ident{{}, {1}, a.ident(), m.nodes[1].ident(), m.nodes[2].ident()}).Draw(rt, "from")
	if m.mal != nil && rapid.IntRange(0, 3).Draw(rt, "odd") == 0 {
		from = m.mal.ident()
	}
	var b []byte
	clear := rapid.Bool().Draw(rt, "clear")
	switch {
	case clear && rapid.Bool().Draw(rt, "proxy"):
		cmd := rapid.SampledFrom([]uint32{0, 7, rpc.ProxyCmdResetRatchet}).Draw(rt, "cmd")
		if from == m.nodes[1].ident() || from == m.nodes[2].ident() || m.mal != nil && from == m.mal.ident() {
			cmd = 7 // whoever controls the server may reset: C20
		}
		b = marshal(rpc.ProxyCmd{Command: cmd, Message: m.text(rt)})
	default:
		b = make([]byte, rapid.SampledFrom([]int{0, 1, 23, 24, 25, 100, 1046, 1047, 1048, 1070, 1071, 1072, 2000, 40000}).Draw(rt, "len"))
		if rapid.Bool().Draw(rt, "random") {
			rand.Read(b)
		}
	}
	m.op("junk from %x.. clear %v %d %.200q", from[:4], clear, len(b), b)
	if rapid.Bool().Draw(rt, "direct") {
		m.settle(rt)
		m.direct++
		m.mustReact(rt, 40*time.Second, func() {
			_ = a.z.handlePush(rpc.Message{Command: rpc.TaggedCmdPush, Cleartext: clear}, rpc.Push{From: from, Received: time.Now().Unix(), Payload: b})
			a.barrier()
		})
		return
	}
	m.live++
	m.r.inject(from, a.ident(), b, clear)
}

// opAnswers makes the server answer with odd texts.
func (m *c23) opAnswers(rt *rapid.T) {
	m.settle(rt)
	a := m.nodes[0]
	text := m.text(rt)
	code := rapid.IntRange(0, 2).Draw(rt, "code")
	m.r.mtx.Lock()
	m.r.onReply = func(c *rconn, p interface{}) interface{} {
		if c.u.id.Identity != a.ident() {
			return p
		}
		switch v := p.(type) {
		case rpc.Acknowledge:
			v.Error, v.ErrorCode = text, code
			return v
		case rpc.IdentityFindReply:
			v.Error = text
			return v
		case rpc.RendezvousPullReply:
			v.Error = text
			return v
		case rpc.RendezvousReply:
			v.Error = text
			return v
		case rpc.ProxyReply:
			v.Error = text
			return v
		}
		return p
	}
	m.r.mtx.Unlock()
	what := rapid.SampledFrom([]string{"/find nobody", "/fetch 123456", "/msg bob hm", "/gc m hers hm", "/reset nobody"}).Draw(rt, "what")
	m.op("answer to %s: %.200q", what, text)
	a.cmd("%s", what)
	m.settle(rt)
	m.r.mtx.Lock()
	m.r.onReply = nil
	m.r.mtx.Unlock()
}

// opWelcome makes the server say odd things about itself.
func (m *c23) opWelcome(rt *rapid.T) {
	m.settle(rt)
	a := m.nodes[0]
	key := rapid.SampledFrom([]string{rpc.PropTagDepth, rpc.PropMaxAttachmentSize, rpc.PropMaxChunkSize, rpc.PropMaxMsgSize, rpc.PropServerTime, rpc.PropDirectory, rpc.PropMOTD, "x\nT FORGED"}).Draw(rt, "key")
	val := rapid.SampledFrom([]string{"0", "1", "-1", "-2", "-9223372036854775808", "9223372036854775807", "18446744073709551615", "", "x", m.text(rt), "11", "4294967297"}).Draw(rt, "val")
	m.op("welcome %q=%.100q", key, val)
	a.disconnect()
	on := true
	m.r.mtx.Lock()
	m.r.onProps = func(c *rconn, p []rpc.ServerProperty) []rpc.ServerProperty {
		if !on || c.u.id.Identity != a.ident() {
			return p
		}
		for i := range p {
			if p[i].Key == key {
				p[i].Value = val
				return p
			}
		}
		return append(p, rpc.ServerProperty{Key: key, Value: val})
	}
	m.r.mtx.Unlock()
	m.mustReact(rt, 60*time.Second, func() {
		a.z.Lock()
		a.z.offline = false
		a.z.Unlock()
		handshake.Lock()
		defer handshake.Unlock()
		if a.z.goOnlineAndPrint() == nil {
			// what uses the limits
			f := filepath.Join(a.top, "src")
			hz.Must(os.WriteFile(f, []byte("content"), 0600))
			a.cmd("/find nobody")
			if key != rpc.PropMaxMsgSize {
				a.cmd("/send bob %s", f)
			}
			time.Sleep(20 * time.Millisecond)
			hz.RemoveAll(f)
		}
	})
	m.r.mtx.Lock()
	on = false
	m.r.onProps = nil
	m.r.mtx.Unlock()
	a.disconnect()
	a.connect(rt)
}

// opRaw sends what the protocol does not know; the session may end.
func (m *c23) opRaw(rt *rapid.T) {
	m.settle(rt)
	a := m.nodes[0]
	cmd := rapid.SampledFrom([]string{rpc.TaggedCmdAcknowledge, rpc.TaggedCmdPong, rpc.TaggedCmdPush, rpc.TaggedCmdRendezvousReply, rpc.TaggedCmdRendezvousPullReply, rpc.TaggedCmdIdentityFindReply,
		rpc.TaggedCmdProxyReply, rpc.SessionCmdWelcome, "x\nT FORGED", ""}).Draw(rt, "cmd")
	tag := rapid.SampledFrom([]uint32{0, 1, 9, 10, 11, 32, math.MaxInt32, math.MaxUint32}).Draw(rt, "tag")
	var p interface{}
	switch rapid.IntRange(0, 7).Draw(rt, "payload") {
	case 0:
		p = []byte{}
	case 1:
		p = bytes.Repeat([]byte{0xff}, 40)
	case 2:
		p = bytes.Repeat([]byte{0x7f, 0xff, 0xff, 0xff}, 20)
	case 3:
		p = rpc.Acknowledge{Error: m.text(rt)}
	case 4:
		p = rpc.RendezvousPullReply{Blob: []byte("hm"), Token: "1"}
	case 5:
		p = rpc.IdentityFindReply{Nick: m.text(rt), Identity: zkidentity.PublicIdentity{Nick: m.text(rt)}}
	case 6:
		p = rpc.ProxyReply{To: m.nodes[1].ident(), Error: m.text(rt)}
	case 7:
		b := make([]byte, rapid.IntRange(0, 200).Draw(rt, "len"))
		rand.Read(b)
		p = b
	}
	m.op("raw %q tag %d %.200q", cmd, tag, fmt.Sprint(p))
	m.raw++
	m.r.mtx.Lock()
	var c *rconn
	if u := m.r.users[a.ident()]; u != nil {
		c = u.conn
	}
	m.r.mtx.Unlock()
	if c == nil {
		return
	}
	a.z.Lock()
	a.z.offline = true // it would try again in 30 seconds
	a.z.Unlock()
	c.write(rpc.Message{Command: cmd, Tag: tag}, p)
	m.r.probe(2 * time.Second)
	a.barrier()
	a.disconnect()
	m.r.mtx.Lock()
	m.r.bad = nil // an odd push gets an answer
	m.r.mtx.Unlock()
	a.connect(rt)
}

// opTalk: life goes on.
func (m *c23) opTalk(rt *rapid.T) {
	a, c := m.nodes[0], m.nodes[2]
	m.seq++
	s := fmt.Sprintf("words %d %s", m.seq, rapid.SampledFrom([]string{"", "é日本", "%d", "alice", "ſ alice", "~!@#$%^&*()_+"}).Draw(rt, "words"))
	s = strings.TrimSpace(s)
	switch rapid.IntRange(0, 3).Draw(rt, "kind") {
	case 0:
		m.op("carol says")
		if err := c.cmd("/msg alice %s", s); err != nil {
			m.fail(rt, "carol cannot talk to alice: %v", err)
		}
		m.carol = append(m.carol, s)
	case 1:
		m.op("alice says")
		if err := a.cmd("/msg carol %s", s); err != nil {
			m.fail(rt, "alice cannot talk to carol: %v", err)
		}
		m.told = append(m.told, s)
	case 2:
		m.op("carol says to hers")
		if err := c.cmd("/gc m hers %s", s); err != nil {
			m.fail(rt, "carol cannot talk to hers: %v", err)
		}
		m.group["hers"] = append(m.group["hers"], s)
	case 3:
		m.op("carol says to ours")
		if err := c.cmd("/gc m ours %s", s); err != nil {
			m.fail(rt, "carol cannot talk to ours: %v", err)
		}
		m.group["ours"] = append(m.group["ours"], s)
	}
}

func (m *c23) opLook(rt *rapid.T) {
	a := m.nodes[0]
	a.z.RLock()
	k := len(a.z.conversation)
	a.z.RUnlock()
	w := rapid.IntRange(0, k-1).Draw(rt, "win")
	m.op("look %d", w)
	a.z.focus(w)
	a.barrier()
	a.cmd("/ab")
	a.cmd("/gc")
	a.cmd("/list")
}

// opNames checks where the words of a client with an odd nick go.
func (m *c23) opNames(rt *rapid.T) {
	if m.mal == nil {
		return
	}
	m.settle(rt)
	m.seq++
	s := fmt.Sprintf("mark %d", m.seq)
	to := m.nodes[0].ident()
	m.mal.z.scheduleCRPC(true, &to, rpc.PrivateMessage{Text: s})
	m.op("odd nick says")
	m.settle(rt)
	in := 0
	for f, lines := range m.nodes[0].allLogs() {
		for _, l := range lines {
			if !strings.HasSuffix(l, s) {
				continue
			}
			in++
			if !strings.HasSuffix(f, m.mal.id.Public.String()+".log") || !utf8.ValidString(l) {
				m.fail(rt, "what %q said is in %q: %q", m.mal.nick(), f, l)
			}
		}
	}
	if in != 1 {
		m.fail(rt, "what %q said is there %d times", m.mal.nick(), in)
	}
}

var c23nicks = []string{"../../../x", "a/b", "/abs", "carol> FORGED", "x\nT <carol> FORGED", strings.Repeat("n", 300), strings.Repeat("é", 130), "\x1b[31mred", "%s%d", "console", "ours", "carol", ".", "..", "\xff\xfe",
	"a\x00b", "carol\r", "a b", "\t", strings.Repeat("../", 20) + "x"}

func TestC23Hostile(t *testing.T) {
	hz.CheckSteps(t, 30, 16, func(rt *rapid.T) {
		r := newRelay()
		r.directory = true
		nodes := world(rt, r, "alice", "bob", "carol")
		m := &c23{r: r, nodes: nodes, group: make(map[string][]string)}
		defer func() { destroyAll(r, m.nodes) }()
		makeGang(rt, r, nodes, "ours")
		makeGang(rt, r, []*node{nodes[1], nodes[0], nodes[2]}, "theirs")
		makeGang(rt, r, []*node{nodes[2], nodes[0], nodes[1]}, "hers")
		if rapid.IntRange(0, 2).Draw(rt, "stranger") == 0 {
			nick := rapid.SampledFrom(c23nicks).Draw(rt, "nick")
			m.op("nick %.100q", nick)
			m.mal = newNode(r, poolIdentity(nick, 9))
			defer func() { m.mal.destroy() }()
			m.mal.start()
			m.mal.connect(rt)
			m.mal.z.find("alice")
			if !eventually(30*time.Second, func() bool {
				return m.mal.z.ratchetExists(nodes[0].ident()) && nodes[0].z.ratchetExists(m.mal.ident())
			}) {
				m.fail(rt, "no key exchange with %q", nick)
			}
			m.settle(rt)
		}
		m.files = m.outside()
		acts := map[string]func(*rapid.T){
			"direct":  m.opDirect,
			"direct2": m.opDirect,
			"live":    m.opLive,
			"live2":   m.opLive,
			"junk":    m.opJunk,
			"answers": m.opAnswers,
			"welcome": m.opWelcome,
			"raw":     m.opRaw,
			"talk":    m.opTalk,
			"talk2":   m.opTalk,
			"look":    m.opLook,
		}
		if m.mal != nil {
			acts["names"] = m.opNames
		}
		rt.Repeat(acts)
		m.verify(rt)
		hz.ClassIf(m.direct > 0, "handed over")
		hz.ClassIf(m.live > 0, "sent in a burst")
		hz.ClassIf(m.raw > 0, "odd server")
		hz.ClassIf(m.odd > 0, "malformed")
		hz.ClassIf(m.sep, "forged line")
		hz.ClassIf(m.mal != nil, "odd nick")
		hz.Case(m.direct+m.live >= 3 && len(m.carol)+len(m.told)+len(m.group) > 0, strings.Join(m.ops, ","), hz.Trim(strings.Join(m.ops, " "), 2000))
	})
}
