//go:build go1.21

package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"strings"
	"testing"
	"time"
	"unicode"
	"unicode/utf8"

	"zkcverif/hz"

	"github.com/companyzero/zkc/rpc"
	"pgregory.net/rapid"
)

// C22: files arrive once, whole, under their own name, in spool; nothing else
// is written.

type transfer struct {
	from    int
	base    string
	content string
	desc    string
	raw     bool // announced by a client that makes up what it sends
	risky   bool // the connection of the sender was cut meanwhile
	done    bool // was seen
}

type c22 struct {
	r     *relay
	nodes []*node
	to    [][]*transfer // by receiver
	user  []map[string]string
	dirs  []map[string]bool
	other []map[string]string // the files before

	inflight [][]*transfer // by sender
	sends    []int         // background sends typed since the client started
	consoles []int         // where in the console log that was
	cutsSeen int
	held     map[int]bool
	seq      int
	ops      []string

	hostile, parallel, restarts, refused, drips int
}

func (m *c22) op(format string, args ...interface{}) {
	m.ops = append(m.ops, fmt.Sprintf(format, args...))
}

func (m *c22) fail(rt *rapid.T, format string, args ...interface{}) {
	var sb strings.Builder
	for i, n := range m.nodes {
		if n.z == nil {
			continue
		}
		c := n.console()
		fmt.Fprintf(&sb, "--- console of %v\n%s\nspool %q\n", n, c[max(0, len(c)-2500):], sortedKeys(m.spool(i)))
	}
	rt.Fatalf("%s\nops %s\n%s\nserver %v", fmt.Sprintf(format, args...), strings.Join(m.ops, "; "), sb.String(), m.r.bad)
}

// spool is what a user finds there.
func (m *c22) spool(i int) map[string]string {
	f := make(map[string]string)
	d := filepath.Join(m.nodes[i].root, spoolDir)
	es, err := os.ReadDir(d)
	hz.Must(err)
	for _, e := range es {
		if e.IsDir() {
			continue
		}
		b, err := os.ReadFile(filepath.Join(d, e.Name()))
		if err == nil {
			f[e.Name()] = string(b)
		}
	}
	return f
}

// elsewhere is what no file that arrives may touch. Of what the client itself
// keeps writing only the names are listed.
func (m *c22) elsewhere(i int) map[string]string {
	n := m.nodes[i]
	f := snapshot(n.top, func(rel string) bool {
		p := filepath.Join(n.top, rel)
		return p == filepath.Join(n.root, spoolDir) || p == filepath.Join(n.root, logsDir) || p == filepath.Join(n.top, "src")
	})
	for rel := range f {
		p := filepath.Join(n.top, rel)
		if p == filepath.Join(n.root, "zkclient.log") || strings.HasPrefix(p, filepath.Join(n.root, inboundDir)+"/") && strings.Contains(filepath.Base(p), "ratchet") {
			f[rel] = "..."
		}
	}
	return f
}

var c22names = []string{"a", "1a", "11a", "b.txt", "report%20%d%s.pdf", ".hidden", "..x", "...", "é日本", "descriptor.xdr", "-rf", "~", "a;b", "A",
	"0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef", "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef.xdr", "@id", "@dig", strings.Repeat("n", 180)}

func (m *c22) name(rt *rapid.T, content string) string {
	k := max(0, rapid.IntRange(-12, len(c22names)-1).Draw(rt, "name"))
	switch s := c22names[k]; s {
	case "@id":
		return hexid(m.nodes[rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "whose")].ident())
	case "@dig":
		d := sha256.Sum256([]byte(content))
		return hex.EncodeToString(d[:])
	default:
		return s
	}
}

// content makes something to send. Few seeds: the same content comes back.
func (m *c22) content(rt *rapid.T) string {
	c := int(m.r.chunk)
	n := 0
	switch rapid.IntRange(0, 5).Draw(rt, "size") {
	case 0:
		n = 1
	case 1:
		n = c
	case 2:
		n = 2*c - 1
	case 3:
		n = 2*c + 1
	case 4:
		n = 3 * c
	default:
		n = rapid.IntRange(1, 20*c).Draw(rt, "bytes")
	}
	seed := rapid.IntRange(0, 2).Draw(rt, "seed")
	head := []string{"\x89PNG\r\n\x1a\n", "plain text ", "\x00\x01\x02\xff"}[seed]
	b := []byte(head)
	x := uint32(seed)
	for len(b) < n {
		x = x*1664525 + 1013904223
		if seed == 1 {
			b = append(b, "abcdefghij klmn\n"[x>>28])
		} else {
			b = append(b, byte(x>>24))
		}
	}
	return string(b[:n])
}

func (m *c22) opSend(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "from")
	j := (i + rapid.IntRange(1, len(m.nodes)-1).Draw(rt, "to")) % len(m.nodes)
	m.send(rt, i, j, m.content(rt))
}

// opTwins sends several files of one sender to one receiver at once, often
// with the same content.
func (m *c22) opTwins(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "from")
	j := (i + rapid.IntRange(1, len(m.nodes)-1).Draw(rt, "to")) % len(m.nodes)
	c := m.content(rt)
	m.send(rt, i, j, c)
	for k := rapid.IntRange(1, 2).Draw(rt, "more"); k > 0; k-- {
		if rapid.Bool().Draw(rt, "other") {
			c = m.content(rt)
		}
		m.send(rt, i, j, c)
	}
	m.parallel++
}

func (m *c22) send(rt *rapid.T, i, j int, content string) {
	n := m.nodes[i]
	m.seq++
	name := m.name(rt, content)
	dir := filepath.Join(n.top, "src", fmt.Sprint(m.seq))
	hz.Must(os.MkdirAll(dir, 0700))
	file := filepath.Join(dir, name)
	hz.Must(os.WriteFile(file, []byte(content), 0600))
	desc := rapid.SampledFrom([]string{"", "about it", "100% %s %d", "é  two spaces"}).Draw(rt, "desc")
	line := fmt.Sprintf("/send %s %s", n.alias(&m.nodes[j].id.Public), file)
	if desc != "" {
		line += " " + desc
	}
	m.op("%v>%v %.20s (%d)", n, m.nodes[j], name, len(content))
	if err := n.cmd("%s", line); err != nil {
		m.fail(rt, "%v cannot send %q (%d bytes): %v", n, name, len(content), err)
	}
	m.sends[i]++
	tr := &transfer{from: i, base: name, content: content, desc: desc}
	m.to[j] = append(m.to[j], tr)
	m.inflight[i] = append(m.inflight[i], tr)
}

// opRefused is what cannot be sent, which the user is told.
func (m *c22) opRefused(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "from")
	j := (i + 1) % len(m.nodes)
	n := m.nodes[i]
	dir := filepath.Join(n.top, "src", "x")
	hz.Must(os.MkdirAll(dir, 0700))
	file := filepath.Join(dir, "big")
	switch rapid.IntRange(0, 2).Draw(rt, "how") {
	case 0:
		hz.Must(os.WriteFile(file, make([]byte, m.r.maxAttach+1), 0600))
	case 1:
		file = filepath.Join(dir, "nothing")
	case 2:
		file = dir
	}
	m.op("%v cannot send %s", n, filepath.Base(file))
	if err := n.cmd("/send %s %s", n.alias(&m.nodes[j].id.Public), file); err == nil {
		m.fail(rt, "%v can send %s", n, file)
	}
	m.refused++
}

var c22bad = []string{"", ".", "..", "/", "../up", "../../up", "../../../up", "../../../../up", "..//up/", "a/../../up", "sub/up", "./up", "up/", "/up", "/../up",
	"../zkclient.log", "../inbound", "../logs/up", "../groupchat/gang", "../up\x00", "up\x00", "\xff\xfe", "..\\up", "../@top/up", "@top/up", "@id", "@id/@dig", "../@server", "../inbound/@id/ratchet.xdr"}

// opHostile makes a client send what it should not, in the middle of a
// transfer that is fine by itself. What it says is used for nothing else:
// the content is its own.
func (m *c22) opHostile(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "from")
	j := (i + rapid.IntRange(1, len(m.nodes)-1).Draw(rt, "to")) % len(m.nodes)
	n, to := m.nodes[i], m.nodes[j].ident()
	m.seq++
	c := int(m.r.chunk)
	content := fmt.Sprintf("hostile %d ", m.seq) + strings.Repeat("z", max(0, rapid.IntRange(-c, 3*c).Draw(rt, "len")))
	digest := sha256.Sum256([]byte(content))
	name := rapid.SampledFrom(c22bad).Draw(rt, "bad")
	if rapid.IntRange(0, 2).Draw(rt, "fine") == 0 {
		name = m.name(rt, content)
	}
	name = strings.NewReplacer("@top", m.nodes[j].top, "@id", hexid(m.nodes[rapid.IntRange(0, 2).Draw(rt, "whose")].ident()),
		"@dig", hex.EncodeToString(digest[:]), "@server", "myserver.ini").Replace(name)
	var sent []string
	say := func(p interface{}) {
		n.z.scheduleCRPC(true, &to, p)
		m.inflight[i] = append(m.inflight[i], nil)
	}
	cn := rpc.ChunkNew{Size: uint64(len(content)), ChunkSize: m.r.chunk, Filename: name, Digest: digest, MIME: "x/y"}
	announce := func(x rpc.ChunkNew) {
		say(x)
		m.to[j] = append(m.to[j], &transfer{from: i, base: path.Base(x.Filename), content: content, raw: true})
	}
	var chunks []rpc.Chunk
	for o := 0; o < len(content); o += c {
		chunks = append(chunks, rpc.Chunk{Offset: uint64(o), Digest: digest, Payload: []byte(content[o:min(len(content), o+c)])})
	}
	if rapid.IntRange(0, 7).Draw(rt, "announce") != 0 {
		announce(cn)
	}
	for k := range chunks {
		x := chunks[k]
		x.Payload = append([]byte(nil), x.Payload...)
		trick := rapid.IntRange(0, 24).Draw(rt, "trick")
		if len(chunks) == 1 && trick > 9 {
			trick -= 8 // there is just this one
		}
		switch trick {
		case 0:
			sent = append(sent, "lost")
			continue
		case 1:
			sent = append(sent, "twice")
			say(x)
		case 2:
			sent = append(sent, "damaged")
			x.Payload[len(x.Payload)/2] ^= 1
		case 3:
			sent = append(sent, "longer")
			x.Payload = append(x.Payload, bytes.Repeat([]byte("+"), rapid.IntRange(1, 200).Draw(rt, "by"))...)
		case 4:
			sent = append(sent, "shorter")
			x.Payload = x.Payload[:len(x.Payload)-1]
		case 5:
			sent = append(sent, "elsewhere")
			x.Offset = rapid.SampledFrom([]uint64{0, 1, x.Offset + 1, x.Offset - 1, math.MaxUint64, 1 << 63, x.Offset | 1<<63, x.Offset | 1<<32}).Draw(rt, "offset")
		case 6:
			sent = append(sent, "other file")
			x.Digest[0] ^= 1
		case 7:
			sent = append(sent, "empty")
			x.Payload = nil
			say(x)
			x = chunks[k]
		case 8:
			sent = append(sent, "swapped")
			if k+1 < len(chunks) {
				say(chunks[k+1])
			}
		case 9:
			sent = append(sent, "announced")
			y := cn
			switch rapid.IntRange(0, 4).Draw(rt, "as") {
			case 0:
				y.Size = rapid.SampledFrom([]uint64{0, 1, cn.Size - 1, cn.Size + 1, math.MaxUint64, 1 << 63}).Draw(rt, "newsize")
			case 1:
				y.Filename = "../" + y.Filename
			case 2:
				y.Size = x.Offset
			case 3:
				y.Filename = "other"
			}
			announce(y)
		}
		say(x)
	}
	for _, k := range rapid.SliceOfN(rapid.IntRange(0, len(chunks)-1), 0, 2).Draw(rt, "again") {
		sent = append(sent, "again")
		say(chunks[k])
	}
	if len(sent) != 0 || name != path.Base(name) {
		m.hostile++
	}
	m.op("%v>%v raw %.40q %v", n, m.nodes[j], name, sent)
}

// opUser is a user who keeps things in spool.
func (m *c22) opUser(rt *rapid.T) {
	m.quiet(rt)
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "who")
	name := m.name(rt, "")
	if _, err := hex.DecodeString(name); err == nil && len(name) == 64 {
		return
	}
	p := filepath.Join(m.nodes[i].root, spoolDir, name)
	if _, err := os.Lstat(p); err == nil {
		return
	}
	switch rapid.IntRange(0, 3).Draw(rt, "kind") {
	case 0:
		hz.Must(os.MkdirAll(p, 0700))
		m.dirs[i][name] = true
	case 1:
		hz.Must(os.Symlink("missing", p))
		m.dirs[i][name] = true
	default:
		c := fmt.Sprintf("mine %d", len(m.ops))
		hz.Must(os.WriteFile(p, []byte(c), 0600))
		m.user[i][name] = c
	}
	m.op("%v keeps %.20s", m.nodes[i], name)
}

func (m *c22) opHold(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "who")
	m.r.mtx.Lock()
	defer m.r.mtx.Unlock()
	m.held[i] = !m.held[i]
	m.r.hold[m.nodes[i].ident()] = m.held[i]
	m.r.pump(m.r.users[m.nodes[i].ident()])
	m.op("hold %v", m.nodes[i])
}

// opDrip lets only some of what waits for a user through, and perhaps starts
// the client again then.
func (m *c22) opDrip(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "who")
	if !m.held[i] {
		return
	}
	m.settle(rt)
	n := m.nodes[i]
	u := m.r.users[n.ident()]
	m.r.mtx.Lock()
	if len(u.queue) == 0 {
		m.r.mtx.Unlock()
		return
	}
	k := rapid.IntRange(1, min(8, len(u.queue))).Draw(rt, "count")
	rest := u.queue[k:]
	u.queue = append([]*item(nil), u.queue[:k]...)
	m.r.hold[n.ident()] = false
	m.r.pump(u)
	m.r.mtx.Unlock()
	m.settle(rt)
	m.r.mtx.Lock()
	m.r.hold[n.ident()] = true
	u.queue = append(u.queue, rest...)
	m.r.mtx.Unlock()
	m.op("%d to %v", k, n)
	m.drips++
	if rapid.Bool().Draw(rt, "restart") {
		m.restart(rt, i)
	}
}

func (m *c22) opRestart(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "who")
	m.settle(rt)
	m.restart(rt, i)
}

func (m *c22) restart(rt *rapid.T, i int) {
	n := m.nodes[i]
	if !n.online() {
		return
	}
	n.stop()
	n.start()
	n.connect(rt)
	m.restarts++
	m.op("restart %v", n)
}

func (m *c22) opOffline(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "who")
	n := m.nodes[i]
	if !n.online() {
		n.connect(rt)
		m.op("online %v", n)
		return
	}
	m.settle(rt)
	n.disconnect()
	m.op("offline %v", n)
}

func (m *c22) opCut(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "who")
	m.r.mtx.Lock()
	defer m.r.mtx.Unlock()
	if m.r.cutIn > 0 {
		return
	}
	m.r.cutWho = m.nodes[i].ident()
	m.r.cutIn = rapid.IntRange(1, 12).Draw(rt, "nth")
	m.r.cutMode = rapid.IntRange(0, 2).Draw(rt, "mode")
	m.op("cut %v@%d/%d", m.nodes[i], m.r.cutIn, m.r.cutMode)
}

// settle waits for what was typed to be sent, and for what was sent to be
// dealt with.
func (m *c22) settle(rt *rapid.T) {
	for i, n := range m.nodes {
		var k int
		if !eventually(30*time.Second, func() bool {
			n.barrier()
			k = strings.Count(n.console(), "Send completed: ")
			return k >= m.sends[i]
		}) {
			m.fail(rt, "%v: %d files were sent, %d are done", n, m.sends[i], k)
		}
	}
	for round := 0; ; round++ {
		if !settleHard(m.r, m.nodes) {
			m.fail(rt, "the clients do not come to rest")
		}
		m.r.mtx.Lock()
		cuts := m.r.cuts[m.cutsSeen:]
		m.cutsSeen += len(cuts)
		m.r.mtx.Unlock()
		for _, id := range cuts {
			for i, n := range m.nodes {
				if id != n.ident() {
					continue
				}
				for _, tr := range m.inflight[i] {
					if tr != nil {
						tr.risky = true
					}
				}
				if !eventually(20*time.Second, func() bool { return !(&c19{r: m.r}).linked(n) }) {
					m.fail(rt, "%v does not notice that its connection is gone", n)
				}
			}
		}
		again := len(cuts) != 0
		for _, n := range m.nodes {
			n.z.RLock()
			wants := !n.z.online && !n.z.offline
			n.z.RUnlock()
			if wants {
				n.connect(rt)
				again = true
			}
		}
		if !again {
			break
		}
		if round > 20 {
			m.fail(rt, "sessions keep ending")
		}
	}
	for i, n := range m.nodes {
		if n.online() {
			m.inflight[i] = nil
		}
	}
}

// quiet lets everything arrive and looks at the disks.
func (m *c22) quiet(rt *rapid.T) {
	m.r.mtx.Lock()
	m.r.cutIn = 0
	m.r.hold = make(map[ident]bool)
	m.held = make(map[int]bool)
	for _, u := range m.r.users {
		m.r.pump(u)
	}
	m.r.mtx.Unlock()
	for _, n := range m.nodes {
		if !n.online() {
			n.z.Lock()
			n.z.offline = false
			n.z.Unlock()
			n.connect(rt)
		}
	}
	m.settle(rt)
	if len(m.r.bad) != 0 {
		m.fail(rt, "the server had to end sessions: %v", m.r.bad)
	}
	var why string
	if !eventually(5*time.Second, func() bool { why = m.verdict(); return why == "" }) {
		m.fail(rt, "%s", why)
	}
}

type arrived struct {
	name, content, from string
}

func printable(s string) bool {
	if !utf8.ValidString(s) {
		return false
	}
	for _, r := range s {
		if !unicode.IsPrint(r) {
			return false
		}
	}
	return true
}

// could says whether a file can be that transfer.
func (m *c22) could(j int, a arrived, tr *transfer) bool {
	if a.content != tr.content || !strings.HasSuffix(a.name, tr.base) || strings.Trim(strings.TrimSuffix(a.name, tr.base), "1") != "" {
		return false
	}
	return a.from == "" || a.from == m.nodes[j].alias(&m.nodes[tr.from].id.Public)
}

// match assigns as many of n things as possible, each to another of k.
func match(n, k int, ok func(a, b int) bool) int {
	mate := make([]int, k)
	for i := range mate {
		mate[i] = -1
	}
	var try func(a int, seen []bool) bool
	try = func(a int, seen []bool) bool {
		for b := 0; b < k; b++ {
			if seen[b] || !ok(a, b) {
				continue
			}
			seen[b] = true
			if mate[b] < 0 || try(mate[b], seen) {
				mate[b] = a
				return true
			}
		}
		return false
	}
	count := 0
	for a := 0; a < n; a++ {
		if try(a, make([]bool, k)) {
			count++
		}
	}
	return count
}

func (m *c22) verdict() string {
	for j, n := range m.nodes {
		files := m.spool(j)
		// what the user put there is as it was
		for name, c := range m.user[j] {
			if files[name] != c {
				return fmt.Sprintf("%v's own file %q is %q, was %q", n, name, hz.Trim(files[name], 60), c)
			}
			delete(files, name)
		}
		for name := range m.dirs[j] {
			fi, err := os.Lstat(filepath.Join(n.root, spoolDir, name))
			if err != nil || fi.Mode().IsRegular() {
				return fmt.Sprintf("%v: %q is not what it was", n, name)
			}
		}
		// what was shown
		type shown struct{ from, mime string }
		said := make(map[string][]shown)
		began := make(map[string]int)
		for _, l := range strings.Split(n.console(), "\n") {
			if _, f, ok := strings.Cut(l, "File transfer complete from: "); ok {
				from, f, _ := strings.Cut(f, " type: ")
				mime, p, _ := strings.Cut(f, " saved to: ")
				said[p] = append(said[p], shown{from, mime})
			}
			if _, f, ok := strings.Cut(l, "File transfer initiated by: "); ok {
				began[f]++
			}
		}
		var all []arrived
		for name, c := range files {
			a := arrived{name: name, content: c}
			if printable(name) {
				p := filepath.Join(n.root, spoolDir, name)
				if len(said[p]) != 1 {
					return fmt.Sprintf("%v: of file %q it was said %q", n, name, said[p])
				}
				a.from = said[p][0].from
				if mt := said[p][0].mime; mt != "x/y" && mt != http.DetectContentType([]byte(c)) {
					return fmt.Sprintf("%v: the type of %q is said to be %q", n, name, mt)
				}
				delete(said, p)
			}
			all = append(all, a)
		}
		for p := range said {
			if printable(p) && !strings.ContainsRune(p, utf8.RuneError) {
				return fmt.Sprintf("%v: file %q is said to have arrived, it did not", n, p)
			}
		}
		trs := m.to[j]
		if k := match(len(all), len(trs), func(a, b int) bool { return m.could(j, all[a], trs[b]) }); k != len(all) {
			for _, a := range all {
				if match(1, len(trs), func(_, b int) bool { return m.could(j, a, trs[b]) }) == 0 {
					return fmt.Sprintf("%v got %q from %q with %q, which nobody sent", n, a.name, a.from, hz.Trim(a.content, 100))
				}
			}
			return fmt.Sprintf("%v got %d files, %d of them were sent: %v", n, len(all), k, trs)
		}
		var must []*transfer
		for _, tr := range trs {
			if !tr.raw && !tr.risky {
				must = append(must, tr)
			}
		}
		if k := match(len(must), len(all), func(a, b int) bool { return m.could(j, all[b], must[a]) }); k != len(must) {
			for _, tr := range must {
				if match(1, len(all), func(_, b int) bool { return m.could(j, all[b], tr) }) == 0 {
					return fmt.Sprintf("%v did not get %q (%d bytes) of %v", n, tr.base, len(tr.content), m.nodes[tr.from])
				}
			}
			return fmt.Sprintf("%v was sent %d files, got %d of them", n, len(must), k)
		}
		for _, tr := range must {
			l := fmt.Sprintf("%s filename: %s size: %d description: %s", n.alias(&m.nodes[tr.from].id.Public), tr.base, len(tr.content), tr.desc)
			if began[l] == 0 {
				return fmt.Sprintf("%v was not told of %q: %q", n, l, began)
			}
		}
		// no name was passed over
		for _, a := range all {
			for s := a.name; ; s = s[1:] {
				fits := false
				for _, tr := range trs {
					fits = fits || tr.base == s && tr.content == a.content
				}
				if fits || s == "" {
					break // a name that was asked for
				}
				if t := s[1:]; len(t) != 64 {
					if _, err := os.Lstat(filepath.Join(n.root, spoolDir, t)); err != nil {
						return fmt.Sprintf("%v: %q was free, the file is %q", n, t, a.name)
					}
				}
			}
		}
		// and nothing else changed
		now := m.elsewhere(j)
		for f, c := range m.other[j] {
			if got, ok := now[f]; !ok || got != c {
				return fmt.Sprintf("%v: file %s is now %q (there %v), was %q", n, f, hz.Trim(got, 100), ok, hz.Trim(c, 100))
			}
		}
		for f := range now {
			if _, ok := m.other[j][f]; !ok {
				return fmt.Sprintf("%v: new file %s", n, f)
			}
		}
	}
	return ""
}

func TestC22Files(t *testing.T) {
	hz.CheckSteps(t, 30, 14, func(rt *rapid.T) {
		r := newRelay()
		r.chunk = rapid.SampledFrom([]uint64{64, 1, 7, 1000}).Draw(rt, "chunk")
		r.maxAttach = 20 * r.chunk
		if r.maxAttach < 64 {
			r.maxAttach = 64
		}
		nodes := world(rt, r, "alice", "bob", "carol")
		m := &c22{r: r, nodes: nodes, held: make(map[int]bool)}
		defer func() { destroyAll(r, m.nodes) }()
		for i := range nodes {
			m.to = append(m.to, nil)
			m.inflight = append(m.inflight, nil)
			m.sends = append(m.sends, 0)
			m.user = append(m.user, make(map[string]string))
			m.dirs = append(m.dirs, make(map[string]bool))
			m.other = append(m.other, m.elsewhere(i))
		}
		rt.Repeat(map[string]func(*rapid.T){
			"send":    m.opSend,
			"send2":   m.opSend,
			"twins":   m.opTwins,
			"refused": m.opRefused,
			"hostile": m.opHostile,
			"hostil2": m.opHostile,
			"user":    m.opUser,
			"hold":    m.opHold,
			"drip":    m.opDrip,
			"drip2":   m.opDrip,
			"restart": m.opRestart,
			"offline": m.opOffline,
			"cut":     m.opCut,
			"quiet":   m.quiet,
		})
		m.quiet(rt)
		k := 0
		for j := range nodes {
			k += len(m.to[j])
		}
		hz.ClassIf(m.hostile > 0, "hostile sender")
		hz.ClassIf(m.parallel > 0, "files sent at once")
		hz.ClassIf(m.restarts > 0, "restart")
		hz.ClassIf(m.drips > 0, "partly delivered")
		hz.ClassIf(m.cutsSeen > 0, "connection cut")
		hz.ClassIf(m.refused > 0, "refused to send")
		hz.Case(k >= 2 && m.hostile+m.parallel+m.restarts+m.drips+m.cutsSeen > 0, strings.Join(m.ops, ","), strings.Join(m.ops, " "))
	})
}
