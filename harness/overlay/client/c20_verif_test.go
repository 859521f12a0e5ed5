//go:build go1.21

package main

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"zkcverif/hz"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/ttk"
	"github.com/companyzero/zkc/blobshare"
	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"github.com/nsf/termbox-go"
	"pgregory.net/rapid"
)

type c20pair [2]int // the lower one first

type c20 struct {
	r      *relay
	nodes  []*node
	mal    *zkidentity.FullIdentity // an attacker with an account
	dir    bool
	began  map[c20pair]bool
	spoilt map[c20pair]bool // something got in the way
	asked  map[c20pair][2]int
	gone   map[c20pair]bool // the first deleted the second
	ops    []string
	armed  bool
	seen   int // cuts dealt with
	says   int
	forged int
	trouble,
	resets int
}

func pairOf(i, j int) c20pair {
	if i > j {
		i, j = j, i
	}
	return c20pair{i, j}
}

func (m *c20) fail(rt hz.Fataler, format string, args ...interface{}) {
	var sb strings.Builder
	for _, n := range m.nodes {
		if n.z == nil {
			continue
		}
		c := n.console()
		if i := strings.LastIndex(c, "Inner server"); i >= 0 && strings.Count(c, "Inner server") == 1 {
			c = c[i:]
		}
		var ls []string
		for _, l := range strings.Split(c, "\n") {
			if !strings.Contains(l, "payload =") && !strings.Contains(l, "from invalid identity") && !strings.Contains(l, "deleting remote message") {
				ls = append(ls, l) // but for the probes
			}
		}
		c = strings.Join(ls, "\n")
		c = c[max(0, len(c)-2500):]
		fmt.Fprintf(&sb, "--- console of %v\n%s\n", n, c)
	}
	m.r.mtx.Lock()
	bad := fmt.Sprint(m.r.bad, len(m.r.accepted), m.r.events)
	for _, u := range m.r.users {
		bad += fmt.Sprintf(" %s:%d queued, %v", u.id.Nick, len(u.queue), u.conn != nil)
	}
	m.r.mtx.Unlock()
	rt.Fatalf("%s\ndirectory %v\nops %s\n%s\nserver: %v", fmt.Sprintf(format, args...), m.dir, strings.Join(m.ops, "; "), sb.String(), bad)
}

func (m *c20) op(format string, args ...interface{}) {
	m.ops = append(m.ops, fmt.Sprintf(format, args...))
}

// spoil notes that whatever i is about to complete may not complete.
func (m *c20) spoil(i int) {
	m.trouble++
	for j := range m.nodes {
		if j != i {
			m.spoilt[pairOf(i, j)] = true
		}
	}
}

func (m *c20) quiet(i int) bool {
	m.r.mtx.Lock()
	defer m.r.mtx.Unlock()
	return m.nodes[i].online() && !m.r.hold[m.nodes[i].ident()] && !m.armed
}

func (m *c20) two(rt *rapid.T) (int, int) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "who")
	j := (i + rapid.IntRange(1, len(m.nodes)-1).Draw(rt, "whom")) % len(m.nodes)
	return i, j
}

// settle lets everything arrive; sessions that were cut come back.
func (m *c20) settle(rt hz.Fataler) {
	for round := 0; ; round++ {
		if !settleHard(m.r, m.nodes) {
			m.fail(rt, "the clients do not come to rest")
		}
		m.r.mtx.Lock()
		cuts := append([]ident(nil), m.r.cuts[m.seen:]...)
		m.seen += len(cuts)
		if len(cuts) > 0 {
			m.armed = false
		}
		m.r.mtx.Unlock()
		for _, id := range cuts {
			for i, n := range m.nodes {
				if n.ident() != id {
					continue
				}
				m.spoil(i)
				eventually(20*time.Second, func() bool {
					m.r.mtx.Lock()
					defer m.r.mtx.Unlock()
					c := m.r.users[id].conn
					return !n.online() || (c != nil && !c.dead)
				})
			}
		}
		again := false
		for _, n := range m.nodes {
			n.z.RLock()
			wants := !n.z.online && !n.z.offline
			n.z.RUnlock()
			if wants {
				n.connect(rt)
				again = true
			}
		}
		if !again && len(cuts) == 0 {
			break
		}
		if round > 20 {
			m.fail(rt, "sessions keep ending")
		}
	}
	m.verify(rt)
}

// verify checks what must hold at all times: who is in the address books and
// on disk is genuine, and nobody got there on his own.
func (m *c20) verify(rt hz.Fataler) {
	genuine := map[ident]*zkidentity.PublicIdentity{m.mal.Public.Identity: &m.mal.Public}
	index := map[ident]int{m.mal.Public.Identity: -1}
	for i, n := range m.nodes {
		genuine[n.ident()] = &n.id.Public
		index[n.ident()] = i
	}
	for i, n := range m.nodes {
		allowed := func(id ident) bool {
			j, ok := index[id]
			if !ok {
				return false
			}
			if j == -1 {
				return m.dir
			}
			return j != i && m.began[pairOf(i, j)] && !m.gone[c20pair{i, j}]
		}
		for _, p := range n.z.ab.All() {
			g := genuine[p.Identity]
			if g == nil {
				m.fail(rt, "the address book of %v has %q %x, whom nobody knows", n, p.Nick, p.Identity[:4])
			}
			q := p
			q.Nick = strings.TrimRight(p.Nick, "_")
			h := *g
			h.Nick = strings.TrimRight(h.Nick, "_")
			if q != h {
				m.fail(rt, "the address book of %v has %q (%s) for %q: not the identity its owner signed", n, p.Nick, p.Name, g.Nick)
			}
			if !allowed(p.Identity) {
				m.fail(rt, "%v has the contact %q without a key exchange", n, p.Nick)
			}
		}
		ds, _ := os.ReadDir(filepath.Join(n.root, inboundDir))
		for _, d := range ds {
			b, err := os.ReadFile(filepath.Join(n.root, inboundDir, d.Name(), "publicidentity.xdr"))
			if err != nil {
				continue
			}
			p, err := zkidentity.UnmarshalPublicIdentity(b)
			if err != nil {
				m.fail(rt, "%v: identity file of %s: %v", n, d.Name(), err)
			}
			g := genuine[p.Identity]
			if g == nil || *g != *p || hexid(p.Identity) != d.Name() || !allowed(p.Identity) {
				m.fail(rt, "%v keeps the identity %q (%s) under %s: it is not the one its owner signed, or nobody asked for it", n, p.Nick, p.Name, d.Name())
			}
		}
	}
}

// complete says whether both ends show each other as contacts.
func (m *c20) complete(i, j int) bool {
	return knows(m.nodes[i], m.nodes[j]) && knows(m.nodes[j], m.nodes[i])
}

// again notes that i or j begin once more, whoever deleted whom.
func (m *c20) again(i, j int) {
	delete(m.gone, c20pair{i, j})
	delete(m.gone, c20pair{j, i})
}

func (m *c20) clash(i, j int) bool { return m.nodes[i].nick() == m.nodes[j].nick() }

func (m *c20) note(i, j int, f func()) {
	p := pairOf(i, j)
	fresh := !m.began[p]
	if !fresh && !m.complete(i, j) {
		m.spoilt[p] = true // a second attempt while the first is under way
	}
	m.began[p] = true
	m.again(i, j)
	if _, ok := m.asked[p]; !ok {
		m.asked[p] = [2]int{i, j}
	}
	f()
}

// calm requires a fresh exchange that nothing disturbs to complete.
func (m *c20) calm(rt hz.Fataler, i, j int, was bool) {
	if !was || m.spoilt[pairOf(i, j)] {
		return
	}
	m.settle(rt)
	if m.spoilt[pairOf(i, j)] || !m.quiet(i) || !m.quiet(j) {
		return
	}
	if !m.complete(i, j) {
		m.fail(rt, "nothing disturbed the key exchange of %v with %v, but it did not complete", m.nodes[i], m.nodes[j])
	}
	hz.Class("exchange completed undisturbed")
}

func (m *c20) opFind(rt *rapid.T) {
	if !m.dir {
		return
	}
	i, j := m.two(rt)
	say := rapid.Bool().Draw(rt, "by /m")
	was := m.quiet(i) && m.quiet(j) && !m.began[pairOf(i, j)]
	if !m.quiet(i) || !m.quiet(j) {
		m.spoilt[pairOf(i, j)] = true
	}
	if !m.nodes[i].online() {
		return
	}
	m.note(i, j, func() {
		if say {
			m.nodes[i].cmd("/m %s hello", m.nodes[j].nick())
		} else {
			m.nodes[i].cmd("/find %s", m.nodes[j].nick())
		}
	})
	m.op("find %v->%v", m.nodes[i], m.nodes[j])
	if rapid.Bool().Draw(rt, "wait") {
		m.calm(rt, i, j, was)
	}
}

// opCross: both look for each other at the same time.
func (m *c20) opCross(rt *rapid.T) {
	if !m.dir {
		return
	}
	i, j := m.two(rt)
	if !m.nodes[i].online() || !m.nodes[j].online() || m.began[pairOf(i, j)] {
		return
	}
	was := m.quiet(i) && m.quiet(j) && !m.began[pairOf(i, j)]
	m.note(i, j, func() {})
	if rapid.Bool().Draw(rt, "for sure") {
		// neither gets the other's offer before having made one
		m.r.mtx.Lock()
		m.r.hold[m.nodes[i].ident()], m.r.hold[m.nodes[j].ident()] = true, true
		m.r.mtx.Unlock()
	}
	m.nodes[i].cmd("/find %s", m.nodes[j].nick())
	m.nodes[j].cmd("/find %s", m.nodes[i].nick())
	if rapid.Bool().Draw(rt, "both offers") {
		settleHard(m.r, m.nodes)
	}
	m.release(i)
	m.release(j)
	m.op("cross %v<->%v", m.nodes[i], m.nodes[j])
	hz.Class("both looked for each other")
	m.calm(rt, i, j, was)
}

func (m *c20) release(i int) {
	m.r.mtx.Lock()
	delete(m.r.hold, m.nodes[i].ident())
	m.r.pump(m.r.users[m.nodes[i].ident()])
	m.r.mtx.Unlock()
}

func (m *c20) opPIN(rt *rapid.T) {
	if m.dir {
		return
	}
	i, j := m.two(rt)
	if m.clash(i, j) {
		return
	}
	wrong := rapid.IntRange(0, 3).Draw(rt, "wrong password") == 0
	m.op("pin %v->%v wrong=%v", m.nodes[i], m.nodes[j], wrong)
	m.pin(rt, i, j, wrong)
}

// pin: i offers a PIN, j fetches it. Every step may fail because somebody is
// not online; then nothing more happens.
func (m *c20) pin(rt hz.Fataler, i, j int, wrong bool) {
	a, b := m.nodes[i], m.nodes[j]
	was := m.quiet(i) && m.quiet(j) && !m.began[pairOf(i, j)]
	m.settle(rt)
	m.r.mtx.Lock()
	m.r.blobs = make(map[string][]byte)
	m.r.mtx.Unlock()
	a.z.kw.password = "secret"
	a.keys(0, func() {
		a.z.kw.KeyHandler(a.z.ttkKW, ttk.Key{Key: termbox.KeyEnter, Widget: a.z.kw.passwordInput})
	})
	m.settle(rt)
	pin := ""
	m.r.mtx.Lock()
	for k := range m.r.blobs {
		pin = k
	}
	m.r.mtx.Unlock()
	if pin == "" {
		if was && m.quiet(i) {
			m.fail(rt, "the offer of %v did not reach the server", a)
		}
		return
	}
	b.z.kaw.rendezvousPullReply = nil
	b.cmd("/fetch %s", pin)
	m.settle(rt)
	if b.z.kaw.rendezvousPullReply == nil {
		if was && m.quiet(j) {
			m.fail(rt, "what %v fetched did not arrive", b)
		}
		return
	}
	pw := "secret"
	if wrong {
		pw = "Secret"
	}
	already := knows(b, a)
	offered := m.accept(j, pw)
	if wrong && offered {
		m.fail(rt, "%v opened a blob with a wrong password", b)
	}
	if wrong {
		hz.Class("wrong password")
		return
	}
	if already {
		if offered {
			// not to be replaced
			m.fail(rt, "%v can replace the contact %v", b, a)
		}
		return
	}
	if !offered {
		m.fail(rt, "%v cannot accept %v", b, a)
	}
	m.note(j, i, func() { m.yes(j) })
	if !m.quiet(j) || !m.quiet(i) {
		m.spoilt[pairOf(i, j)] = true
	}
	m.calm(rt, i, j, was)
}

func (m *c20) accept(j int, pw string) bool {
	b := m.nodes[j]
	b.z.ttkACFPW = nil
	b.z.kaw.password = pw
	b.keys(0, func() {
		b.z.kaw.KeyHandler(b.z.ttkKAW, ttk.Key{Key: termbox.KeyEnter, Widget: b.z.kaw.passwordInput})
	})
	return b.z.ttkACFPW != nil
}

func (m *c20) yes(j int) {
	b := m.nodes[j]
	aw := windower(b.z.ttkACFPW).(*acceptCFPWindow)
	aw.question = "yes"
	b.keys(0, func() {
		aw.KeyHandler(b.z.ttkACFPW, ttk.Key{Key: termbox.KeyEnter, Widget: aw.questionInput})
	})
}

func (m *c20) nickOf(i, j int) string {
	p, err := m.nodes[i].z.ab.FindIdentity(m.nodes[j].ident())
	if err != nil {
		return ""
	}
	return p.Nick
}

func (m *c20) opReset(rt *rapid.T) {
	i, j := m.two(rt)
	if m.nickOf(i, j) == "" || !m.nodes[i].online() {
		return
	}
	calm := m.complete(i, j) && m.quiet(i) && m.quiet(j) && !m.spoilt[pairOf(i, j)]
	m.again(i, j)
	m.nodes[i].cmd("/reset %s", m.nickOf(i, j))
	m.resets++
	m.op("reset %v->%v", m.nodes[i], m.nodes[j])
	if calm && rapid.Bool().Draw(rt, "wait") {
		m.settle(rt)
		if !m.spoilt[pairOf(i, j)] && !m.complete(i, j) {
			m.fail(rt, "nothing disturbed the reset of %v by %v, but the key exchange did not complete", m.nodes[j], m.nodes[i])
		}
		hz.Class("reset undisturbed")
		return
	}
	m.spoilt[pairOf(i, j)] = true
}

// opDel deletes a contact, or both do.
func (m *c20) opDel(rt *rapid.T) {
	i, j := m.two(rt)
	both := rapid.IntRange(0, 2).Draw(rt, "both") != 0
	m.settle(rt)
	if m.nickOf(i, j) == "" || !m.quiet(i) {
		return
	}
	if rapid.IntRange(0, 3).Draw(rt, "unfinished") == 0 && m.quiet(j) {
		// in the middle of an exchange
		m.again(i, j)
		m.spoilt[pairOf(i, j)] = true
		m.r.mtx.Lock()
		m.r.hold[m.nodes[j].ident()] = true
		m.r.mtx.Unlock()
		m.nodes[i].cmd("/reset %s", m.nickOf(i, j))
		m.settle(rt)
		defer m.release(j)
		m.op("reset %v->held %v", m.nodes[i], m.nodes[j])
		hz.Class("deleted in the middle of an exchange")
	}
	m.op("del %v->%v both=%v", m.nodes[i], m.nodes[j], both)
	m.del(rt, i, j)
	if !both || m.nickOf(j, i) == "" || !m.quiet(i) || !m.quiet(j) {
		return
	}
	m.del(rt, j, i)
	// as if they had never met
	p := pairOf(i, j)
	m.began[p], m.spoilt[p] = false, false
	m.again(i, j)
	if !m.dir || rapid.IntRange(0, 2).Draw(rt, "once more") == 0 {
		return
	}
	m.note(i, j, func() { m.nodes[i].cmd("/find %s", m.nodes[j].nick()) })
	m.op("find %v->%v", m.nodes[i], m.nodes[j])
	m.calm(rt, i, j, true)
	hz.Class("met again")
	if rapid.Bool().Draw(rt, "talk") && !m.spoilt[p] && (!m.works(rt, i, j) || !m.works(rt, j, i)) && !m.spoilt[p] {
		m.fail(rt, "%v and %v met again but cannot talk", m.nodes[i], m.nodes[j])
	}
}

func (m *c20) del(rt hz.Fataler, i, j int) {
	a, b := m.nodes[i], m.nodes[j]
	nick := m.nickOf(i, j)
	told := m.complete(i, j) && m.quiet(j) && !m.spoilt[pairOf(i, j)]
	before := strings.Count(b.console(), "no longer receive")
	if err := a.cmd("/ab del %s", nick); err != nil {
		m.fail(rt, "%v cannot delete %v: %v", a, b, err)
	}
	if m.quiet(j) {
		m.gone[c20pair{i, j}] = true // nothing is under way
	}
	m.spoilt[pairOf(i, j)] = true
	if !eventually(20*time.Second, func() bool { return m.nickOf(i, j) == "" && !a.z.identityExists(b.ident()) }) {
		m.fail(rt, "%v deleted %v, who is still a contact", a, b)
	}
	m.settle(rt)
	if told && m.quiet(j) && strings.Count(b.console(), "no longer receive") != before+1 {
		m.fail(rt, "%v was not told of being deleted by %v", b, a)
	}
	hz.Class("contact deleted")
}

func (m *c20) opRestart(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "who")
	n := m.nodes[i]
	if rapid.Bool().Draw(rt, "settled") {
		m.settle(rt)
		// a restart between steps disturbs nothing
	} else {
		m.spoil(i)
	}
	off := !n.online()
	n.stop()
	n.start()
	if off {
		n.z.Lock()
		n.z.offline = true
		n.z.Unlock()
		m.spoil(i)
	} else {
		n.connect(rt)
	}
	m.op("restart %v", n)
}

func (m *c20) opOffline(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "who")
	n := m.nodes[i]
	if n.online() {
		m.spoil(i)
		n.disconnect()
		m.op("offline %v", n)
		return
	}
	n.connect(rt)
	m.op("online %v", n)
}

func (m *c20) opCut(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "who")
	m.r.mtx.Lock()
	m.r.cutWho = m.nodes[i].ident()
	m.r.cutIn = rapid.IntRange(1, 4).Draw(rt, "in")
	m.r.cutMode = rapid.IntRange(0, 2).Draw(rt, "mode")
	m.r.mtx.Unlock()
	m.armed = true
	m.op("cut %v in %d mode %d", m.nodes[i], m.r.cutIn, m.r.cutMode)
	for i := range m.nodes {
		m.spoil(i)
	}
}

func (m *c20) opHold(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "who")
	m.r.mtx.Lock()
	held := m.r.hold[m.nodes[i].ident()]
	m.r.mtx.Unlock()
	if held {
		m.release(i)
		m.op("release %v", m.nodes[i])
		return
	}
	m.r.mtx.Lock()
	m.r.hold[m.nodes[i].ident()] = true
	m.r.mtx.Unlock()
	m.op("hold %v", m.nodes[i])
}

// offer makes the message that begins a key exchange without a PIN.
func offerTo(to *zkidentity.PublicIdentity, as *zkidentity.PublicIdentity, key *[sntrup4591761.PrivateKeySize]byte) []byte {
	nc, nk, err := sntrup4591761.Encapsulate(rand.Reader, &to.Key)
	hz.Must(err)
	r := ratchet.New(rand.Reader)
	r.MyPrivateKey = key
	r.MySigningPublic = &as.SigKey
	r.TheirIdentityPublic = &to.Identity
	r.TheirSigningPublic = &to.SigKey
	r.TheirPublicKey = &to.Key
	kx := new(ratchet.KeyExchange)
	hz.Must(r.FillKeyExchange(kx))
	var bb bytes.Buffer
	_, err = xdr.Marshal(&bb, rpc.IdentityKX{Identity: *as, KX: *kx})
	hz.Must(err)
	enc, nonce, err := blobshare.Encrypt(bb.Bytes(), nk)
	hz.Must(err)
	return append(nc[:], blobshare.PackNonce(nonce, enc)...)
}

// tampered returns an identity of the attacker that pretends something.
func (m *c20) tampered(rt *rapid.T, victim *zkidentity.PublicIdentity) zkidentity.PublicIdentity {
	f := *m.mal
	switch rapid.IntRange(0, 6).Draw(rt, "lie") {
	case 0: // another nick
		f.Public.Nick = victim.Nick
	case 1: // another name
		f.Public.Name = victim.Name
	case 2: // the identity of somebody else
		f.Public.Identity = victim.Identity
	case 3: // the same, signed
		f.Public = *victim
		f.Public.Key, f.Public.SigKey = m.mal.Public.Key, m.mal.Public.SigKey
		f.RecalculateDigest() // signs, and may find fault with it
	case 4: // somebody else with the attacker's key
		f.Public = *victim
		f.Public.Key = m.mal.Public.Key
	case 5: // and with its signature
		f.Public = *victim
		f.Public.SigKey = m.mal.Public.SigKey
	case 6: // a flipped bit
		f.Public.Signature[rapid.IntRange(0, len(f.Public.Signature)-1).Draw(rt, "bit")] ^= 4
	}
	return f.Public
}

func (m *c20) opForge(rt *rapid.T) {
	i, j := m.two(rt)
	n, v := m.nodes[i], &m.nodes[j].id.Public
	from := m.mal.Public.Identity
	m.forged++
	kind := rapid.IntRange(0, 6).Draw(rt, "forgery")
	m.op("forge %d at %v about %v", kind, n, v.Nick)
	switch kind {
	case 0: // an offer of the attacker with a false identity
		id := m.tampered(rt, v)
		m.r.inject(from, n.ident(), offerTo(&n.id.Public, &id, &m.mal.PrivateKey), false)
	case 1: // the genuine identity of somebody else
		m.r.inject(from, n.ident(), offerTo(&n.id.Public, v, &m.mal.PrivateKey), false)
	case 2: // garbage, from anybody
		b := rapid.SliceOfN(rapid.Byte(), 0, 2500).Draw(rt, "garbage")
		if rapid.Bool().Draw(rt, "contact") {
			from = v.Identity
		}
		m.r.inject(from, n.ident(), b, false)
	case 3: // a damaged genuine looking offer in the name of a user
		b := offerTo(&n.id.Public, v, &m.mal.PrivateKey)
		b[rapid.IntRange(0, len(b)-1).Draw(rt, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
		m.r.inject(v.Identity, n.ident(), b, false)
	case 4: // an answer of the directory that is not the right one
		if !m.dir || !n.online() || m.began[pairOf(i, j)] {
			return
		}
		id := m.tampered(rt, v)
		other := m.mal.Public
		switch rapid.IntRange(0, 2).Draw(rt, "answer") {
		case 1:
			id = other
		case 2:
			for k, o := range m.nodes {
				if k != i && k != j {
					id = o.id.Public
				}
			}
		}
		m.settle(rt)
		m.r.mtx.Lock()
		m.r.onFind = func(nick string) *rpc.IdentityFindReply {
			return &rpc.IdentityFindReply{Nick: nick, Identity: id}
		}
		m.r.mtx.Unlock()
		n.cmd("/find %s", v.Nick)
		m.settle(rt)
		m.r.mtx.Lock()
		m.r.onFind = nil
		m.r.mtx.Unlock()
	case 5: // a PIN of the attacker, who told the password, for a false identity
		if m.dir || !n.online() {
			return
		}
		m.settle(rt)
		id := m.tampered(rt, v)
		var bb bytes.Buffer
		_, err := xdr.Marshal(&bb, id)
		hz.Must(err)
		blobshare.SetNrp(32768, 16, 2)
		key, salt, err := blobshare.NewKey([]byte("secret"))
		hz.Must(err)
		enc, nonce, err := blobshare.Encrypt(bb.Bytes(), key)
		hz.Must(err)
		m.r.mtx.Lock()
		m.r.blobs = map[string][]byte{"999": blobshare.PackSaltNonce(salt, nonce, enc)}
		m.r.mtx.Unlock()
		n.z.kaw.rendezvousPullReply = nil
		n.cmd("/fetch 999")
		m.settle(rt)
		if n.z.kaw.rendezvousPullReply == nil {
			return
		}
		if m.accept(i, "secret") {
			m.yes(i)
		}
	case 6: // a reset in the name of somebody who is no contact
		var bb bytes.Buffer
		_, err := xdr.Marshal(&bb, rpc.ProxyCmd{Command: rpc.ProxyCmdResetRatchet, Message: "reset"})
		hz.Must(err)
		m.r.inject(from, n.ident(), bb.Bytes(), true)
	}
	if rapid.Bool().Draw(rt, "wait") {
		m.settle(rt)
	}
}

// says sends a line and looks for it.
func (m *c20) works(rt hz.Fataler, i, j int) bool {
	nick := m.nickOf(i, j)
	if nick == "" || m.nickOf(j, i) == "" {
		return false
	}
	m.says++
	text := fmt.Sprintf("line-%d-%d-%d", m.says, i, j)
	if err := m.nodes[i].cmd("/m %s %s", nick, text); err != nil {
		return false
	}
	m.settle(rt)
	k := 0
	for o, n := range m.nodes {
		if o == i {
			continue
		}
		n.z.RLock()
		c := len(n.z.conversation)
		n.z.RUnlock()
		for w := 1; w < c; w++ {
			for _, l := range n.screen(w) {
				if strings.HasSuffix(strings.TrimSuffix(l, RESET), text) {
					k++
					if o != j {
						m.fail(rt, "%v shows a line of %v for %v: %q", n, m.nodes[i], m.nodes[j], l)
					}
				}
			}
		}
	}
	if k > 1 {
		m.fail(rt, "a line is shown %d times", k)
	}
	return k == 1
}

func (m *c20) check(rt *rapid.T) {
	m.r.mtx.Lock()
	m.r.cutIn, m.r.onFind = 0, nil
	m.r.mtx.Unlock()
	m.armed = false
	for i, n := range m.nodes {
		m.release(i)
		if !n.online() {
			n.connect(rt)
		}
	}
	m.settle(rt)
	for p := range m.gone {
		m.op("%v deleted %v", m.nodes[p[0]], m.nodes[p[1]])
		hz.Class("deleted at the end")
	}
	for i := range m.nodes {
		for j := i + 1; j < len(m.nodes); j++ {
			p := pairOf(i, j)
			if m.gone[p] || m.gone[c20pair{j, i}] {
				m.again(i, j)
			}
			if !m.began[p] {
				continue // never, or impossible
			}
			for try := 0; ; try++ {
				if m.works(rt, i, j) && m.works(rt, j, i) {
					hz.ClassIf(try > 0, "exchange repeated")
					break
				}
				if !m.spoilt[p] {
					m.fail(rt, "nothing disturbed the key exchange of %v and %v, but they cannot talk", m.nodes[i], m.nodes[j])
				}
				if try == 8 {
					m.fail(rt, "%v and %v cannot repeat their key exchange", m.nodes[i], m.nodes[j])
				}
				// what users do: reset who is known, look for who is not
				a, b := i, j
				if try%2 == 1 {
					a, b = j, i
				}
				switch {
				case m.dir && try >= 2 && try%4 < 2 && m.nickOf(a, b) == "":
					m.op("try find %d->%d", a, b)
					m.nodes[a].cmd("/find %s", m.nodes[b].nick())
				case !m.dir && try >= 2:
					m.op("try pin %d->%d", a, b)
					m.pin(rt, a, b, false)
				case m.nickOf(a, b) != "":
					m.op("try reset %d->%d", a, b)
					m.nodes[a].cmd("/reset %s", m.nickOf(a, b))
				case m.nickOf(b, a) != "":
					m.op("try reset %d->%d", b, a)
					m.nodes[b].cmd("/reset %s", m.nickOf(b, a))
				case m.dir:
					m.op("try find %d->%d", a, b)
					m.nodes[a].cmd("/find %s", m.nodes[b].nick())
				default:
					m.op("try pin %d->%d", a, b)
					m.pin(rt, a, b, false)
				}
				m.settle(rt)
			}
		}
	}
	// and everything is the same after a restart
	for _, n := range m.nodes {
		n.stop()
		n.start()
		n.connect(rt)
	}
	m.settle(rt)
	for p, b := range m.began {
		if !b {
			continue
		}
		if !m.works(rt, p[0], p[1]) || !m.works(rt, p[1], p[0]) {
			m.fail(rt, "%v and %v cannot talk after a restart", m.nodes[p[0]], m.nodes[p[1]])
		}
	}
}

func TestC20KeyExchange(t *testing.T) {
	hz.CheckSteps(t, 14, 10, func(rt *rapid.T) {
		r := newRelay()
		dir := rapid.IntRange(0, 2).Draw(rt, "pin mode") != 0
		r.directory = dir
		nicks := []string{"ann", "bob", "cyd"}
		if !dir && rapid.IntRange(0, 2).Draw(rt, "same nick") == 0 {
			nicks[2] = "bob#1"
		}
		m := &c20{r: r, dir: dir, began: make(map[c20pair]bool), spoilt: make(map[c20pair]bool),
			asked: make(map[c20pair][2]int), gone: make(map[c20pair]bool), mal: poolIdentity("mallory", 0)}
		pub := m.mal.Public
		r.add(&pub)
		// the order of the identities matters when offers cross
		perm := rapid.Permutation(nicks).Draw(rt, "order")
		if rapid.IntRange(0, 2).Draw(rt, "strangers") == 0 {
			// contacts already
			m.nodes = world(rt, r, perm...)
			for i := range perm {
				for j := i + 1; j < len(perm); j++ {
					m.began[pairOf(i, j)] = !m.clash(i, j)
				}
			}
			hz.Class("contacts already")
			perm = nil
		}
		for _, nick := range perm {
			n := newNode(r, poolIdentity(saltOf(nick)))
			n.start()
			n.connect(rt)
			m.nodes = append(m.nodes, n)
		}
		defer func() { destroyAll(r, m.nodes) }()
		rt.Repeat(map[string]func(*rapid.T){
			"find":    m.opFind,
			"find2":   m.opFind,
			"pin":     m.opPIN,
			"pin2":    m.opPIN,
			"cross":   m.opCross,
			"reset":   m.opReset,
			"reset2":  m.opReset,
			"del":     m.opDel,
			"restart": m.opRestart,
			"offline": m.opOffline,
			"cut":     m.opCut,
			"hold":    m.opHold,
			"forge":   m.opForge,
			"forge2":  m.opForge,
			"settle":  func(rt *rapid.T) { m.settle(rt) },
		})
		m.check(rt)
		hz.ClassIf(dir, "directory")
		hz.ClassIf(!dir, "PIN")
		hz.ClassIf(m.forged > 0, "forgery")
		hz.ClassIf(m.resets > 0, "reset")
		hz.ClassIf(m.trouble > 0, "disturbed")
		hz.Case(len(m.began) > 0 && (m.forged > 0 || m.trouble > 0), strings.Join(m.ops, ";"), strings.Join(m.ops, "; "))
	})
}

// TestC20Meanwhile: two contacts reset bob while bob offers a PIN to somebody
// else; nothing disturbs any of the three exchanges.
func TestC20Meanwhile(t *testing.T) {
	hz.CheckSteps(t, 2, 5, func(rt *rapid.T) {
		r := newRelay()
		r.directory = false
		nodes := world(rt, r, "ann", "bob", "cyd")
		m := &c20{r: r, nodes: nodes, began: make(map[c20pair]bool), spoilt: make(map[c20pair]bool),
			asked: make(map[c20pair][2]int), gone: make(map[c20pair]bool), mal: poolIdentity("mallory", 0)}
		for _, p := range []c20pair{pairOf(0, 1), pairOf(0, 2), pairOf(1, 2)} {
			m.began[p] = true
		}
		defer func() { destroyAll(r, m.nodes) }()
		for round, more := 0, true; more && round < 5; more = rapid.IntRange(0, 9).Draw(rt, "more") != 0 {
			round++
			b := nodes[1]
			dee := newNode(r, poolIdentity(fmt.Sprintf("dee%d", round), 0))
			dee.start()
			dee.connect(rt)
			m.nodes = append(m.nodes, dee)
			m.settle(rt)
			m.r.mtx.Lock()
			m.r.hold[b.ident()] = true
			m.r.blobs = make(map[string][]byte)
			m.r.mtx.Unlock()
			for _, i := range []int{0, 2} {
				nodes[i].cmd("/reset %s", m.nickOf(i, 1))
			}
			eventually(10*time.Second, func() bool {
				m.r.mtx.Lock()
				defer m.r.mtx.Unlock()
				return len(m.r.users[b.ident()].queue) >= 2
			})
			delay := rapid.IntRange(0, 30000).Draw(rt, "µs")
			m.op("offer %dµs after two resets", delay)
			b.z.kw.password = "secret"
			m.release(1)
			time.Sleep(time.Duration(delay) * time.Microsecond)
			b.keys(0, func() {
				b.z.kw.KeyHandler(b.z.ttkKW, ttk.Key{Key: termbox.KeyEnter, Widget: b.z.kw.passwordInput})
			})
			m.settle(rt)
			m.r.mtx.Lock()
			pins := sortedKeys(m.r.blobs)
			m.r.mtx.Unlock()
			if len(pins) != 1 {
				m.fail(rt, "the offer of %v did not reach the server", b)
			}
			dee.cmd("/fetch %s", pins[0])
			m.settle(rt)
			d := len(m.nodes) - 1
			if dee.z.kaw.rendezvousPullReply == nil || !m.accept(d, "secret") {
				m.fail(rt, "%v cannot accept %v", dee, b)
			}
			m.began[pairOf(1, d)] = true
			m.yes(d)
			m.settle(rt)
			for _, j := range []int{0, 2, d} {
				if !m.works(rt, 1, j) || !m.works(rt, j, 1) {
					m.fail(rt, "nothing disturbed the key exchange of %v and %v, but they cannot talk", nodes[1], m.nodes[j])
				}
			}
		}
		hz.Class("exchanges at once")
		hz.Case(true, strings.Join(m.ops, "; "), strings.Join(m.ops, "; "))
	})
}
