package ratchetprop

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"reflect"
	"testing"
	"time"
	"unsafe"

	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/ratchet/disk"
	"github.com/companyzero/zkc/zkidentity"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"pgregory.net/rapid"

	"zkcverif/hz"
)

func TestMain(m *testing.M) { hz.Main(m) }

const limit = 80 // documented reordering tolerance

// deepCopy copies a value and everything it refers to, unexported fields
// included; interfaces and functions are shared.
func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(deepCopy(v.Elem()))
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < n.NumField(); i++ {
			f := n.Field(i)
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			f.Set(deepCopy(f))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			n.SetMapIndex(k, deepCopy(e))
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i)))
		}
		return n
	}
	return v
}

func clone(r *ratchet.Ratchet) *ratchet.Ratchet {
	return deepCopy(reflect.ValueOf(r)).Interface().(*ratchet.Ratchet)
}

func newID(n string) *zkidentity.FullIdentity {
	id, err := zkidentity.New(n, n)
	hz.Must(err)
	return id
}

// blank makes a ratchet of me for peer, as every caller in the client does.
func blank(me, peer *zkidentity.FullIdentity) *ratchet.Ratchet {
	r := ratchet.New(rand.Reader)
	attach(r, me, peer)
	return r
}

func attach(r *ratchet.Ratchet, me, peer *zkidentity.FullIdentity) {
	r.MyPrivateKey = &me.PrivateKey
	r.MySigningPublic = &me.Public.SigKey
	r.TheirIdentityPublic = &peer.Public.Identity
	r.TheirSigningPublic = &peer.Public.SigKey
	r.TheirPublicKey = &peer.Public.Key
}

// viaDisk saves a ratchet the way the client does and loads it again.
func viaDisk(r *ratchet.Ratchet, me, peer *zkidentity.FullIdentity, now time.Time, life time.Duration) (*ratchet.Ratchet, error) {
	var b bytes.Buffer
	if _, err := xdr.Marshal(&b, r.Marshal(now, life)); err != nil {
		return nil, fmt.Errorf("marshal state: %v", err)
	}
	var s disk.RatchetState
	if _, err := xdr.Unmarshal(bytes.NewReader(b.Bytes()), &s); err != nil {
		return nil, fmt.Errorf("unmarshal state: %v", err)
	}
	n := ratchet.New(rand.Reader)
	n.Now = r.Now
	if err := n.Unmarshal(&s); err != nil {
		return nil, fmt.Errorf("load state: %v", err)
	}
	attach(n, me, peer)
	return n, nil
}

type pair struct {
	ids [2]*zkidentity.FullIdentity // 0 alice, 1 bob
	r   [2]*ratchet.Ratchet         // established
	hr  [2]*ratchet.Ratchet         // half: key exchange filled, not completed
	kx  [2]*ratchet.KeyExchange
}

var pairs []*pair

func makePair() (*pair, error) {
	p := &pair{}
	p.ids[0], p.ids[1] = newID("alice"), newID("bob")
	for i := 0; i < 2; i++ {
		p.hr[i] = blank(p.ids[i], p.ids[1-i])
		p.kx[i] = new(ratchet.KeyExchange)
		if err := p.hr[i].FillKeyExchange(p.kx[i]); err != nil {
			return nil, fmt.Errorf("FillKeyExchange: %v", err)
		}
	}
	for i := 0; i < 2; i++ {
		p.r[i] = clone(p.hr[i])
		if err := p.r[i].CompleteKeyExchange(p.kx[1-i], i == 0); err != nil {
			return nil, fmt.Errorf("CompleteKeyExchange: %v", err)
		}
	}
	return p, nil
}

func getPair(t hz.Fataler, n int) *pair {
	for len(pairs) <= n {
		p, err := makePair()
		if err != nil {
			t.Fatalf("honest key exchange failed: %v", err)
		}
		pairs = append(pairs, p)
	}
	return pairs[n]
}

// message in the model.
type msg struct {
	from  int
	chain int // sending chain of from
	num   int // number in the chain
	prev  int // length of from's previous chain
	text  []byte
	ct    []byte
	done  bool // was accepted
	id    int
}

type saved struct {
	chain, num int
	ts         time.Time
}

// party is the model of one end.
type party struct {
	mustRatchet bool
	sendChain   int // -1: none
	sendCount   int
	prevCount   int
	recvChain   int // -1: none
	recvCount   int
	saved       map[[2]int]time.Time
}

type machine struct {
	p    *pair
	r    [2]*ratchet.Ratchet
	m    [2]*party
	msgs []*msg
	now  time.Time
	log  []string

	// statistics
	ooo, ratchets, dups, late, empties, tampered, reloads, expired, overlimit int
	sent                                                                     [2]int
}

func newMachine(t *rapid.T) *machine {
	p := getPair(t, rapid.IntRange(0, 1).Draw(t, "pair"))
	m := &machine{p: p, now: time.Unix(1600000000, 0)}
	for i := 0; i < 2; i++ {
		m.r[i] = clone(p.r[i])
		m.r[i].Now = func() time.Time { return m.now }
	}
	m.m[0] = &party{mustRatchet: true, sendChain: -1, recvChain: 0, saved: map[[2]int]time.Time{}}
	m.m[1] = &party{sendChain: 0, recvChain: -1, saved: map[[2]int]time.Time{}}
	return m
}

func (m *machine) logf(format string, a ...interface{}) {
	m.log = append(m.log, fmt.Sprintf(format, a...))
}

func (m *machine) fail(t *rapid.T, format string, a ...interface{}) {
	t.Fatalf("%s\nhistory: %s", fmt.Sprintf(format, a...), hz.Join(m.log))
}

var genText = rapid.OneOf(
	rapid.SliceOfN(rapid.Byte(), 0, 40),
	rapid.SliceOfN(rapid.Byte(), 0, 3),
	rapid.SliceOfN(rapid.Byte(), 100, 400),
)

func (m *machine) send(t *rapid.T, from int, text []byte, single bool) *msg {
	p := m.m[from]
	if p.mustRatchet {
		p.prevCount, p.sendCount = p.sendCount, 0
		p.sendChain++
		p.mustRatchet = false
		m.ratchets++
	}
	x := &msg{from: from, chain: p.sendChain, num: p.sendCount, prev: p.prevCount,
		text: append([]byte(nil), text...), id: len(m.msgs)}
	p.sendCount++
	var prefix, spare []byte
	if single {
		prefix = rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, "out")
		spare = make([]byte, len(prefix), len(prefix)+rapid.SampledFrom([]int{0, 8, 1000}).Draw(t, "cap"))
		copy(spare, prefix)
	}
	in := append([]byte(nil), text...)
	out, err := m.r[from].Encrypt(spare, in)
	if err != nil {
		m.fail(t, "Encrypt of #%d failed: %v", x.id, err)
	}
	if !bytes.HasPrefix(out, prefix) {
		m.fail(t, "Encrypt did not append to its first argument")
	}
	if !bytes.Equal(in, text) {
		m.fail(t, "Encrypt modified the message")
	}
	x.ct = append([]byte(nil), out[len(prefix):]...)
	if len(text) >= 16 && bytes.Contains(x.ct, text) {
		m.fail(t, "ciphertext of #%d contains the plaintext", x.id)
	}
	m.msgs = append(m.msgs, x)
	m.sent[from]++
	if len(text) == 0 {
		m.empties++
	}
	return x
}

// accepts predicts whether the receiver accepts x now, and applies it.
func (m *machine) accepts(x *msg) bool {
	p := m.m[1-x.from]
	if x.done {
		return false
	}
	k := [2]int{x.chain, x.num}
	if _, ok := p.saved[k]; ok {
		delete(p.saved, k)
		m.late++
		return true
	}
	switch {
	case x.chain == p.recvChain:
		if x.num < p.recvCount || x.num-p.recvCount > limit {
			if x.num-p.recvCount > limit {
				m.overlimit++
			}
			return false
		}
		for n := p.recvCount; n < x.num; n++ {
			p.saved[[2]int{x.chain, n}] = m.now
			m.ooo++
		}
		p.recvCount = x.num + 1
		return true
	case x.chain == p.recvChain+1:
		if x.prev-p.recvCount > limit || x.num > limit {
			m.overlimit++
			return false
		}
		if p.mustRatchet {
			return false
		}
		if p.recvChain >= 0 {
			for n := p.recvCount; n < x.prev; n++ {
				p.saved[[2]int{p.recvChain, n}] = m.now
				m.ooo++
			}
		}
		for n := 0; n < x.num; n++ {
			p.saved[[2]int{x.chain, n}] = m.now
			m.ooo++
		}
		p.recvChain = x.chain
		p.recvCount = x.num + 1
		p.mustRatchet = true
		return true
	}
	return false
}

func (m *machine) deliver(t *rapid.T, x *msg) {
	again := x.done
	want := m.accepts(x)
	in := append([]byte(nil), x.ct...)
	got, err := m.r[1-x.from].Decrypt(in)
	if !bytes.Equal(in, x.ct) {
		m.fail(t, "Decrypt modified the ciphertext")
	}
	if want {
		if err != nil {
			m.fail(t, "message #%d (chain %d number %d, %d bytes), within the tolerance, was not delivered: %v",
				x.id, x.chain, x.num, len(x.text), err)
		}
		if !bytes.Equal(got, x.text) {
			m.fail(t, "message #%d decrypted to %x, sent %x", x.id, got, x.text)
		}
		x.done = true
		return
	}
	if again {
		m.dups++
	}
	if err == nil {
		m.fail(t, "message #%d (again=%v) was accepted, must be rejected", x.id, again)
	}
	if len(got) != 0 {
		m.fail(t, "rejected message #%d returned data", x.id)
	}
}

func (m *machine) pick(t *rapid.T, ok func(*msg) bool) *msg {
	var c []*msg
	for _, x := range m.msgs {
		if ok(x) {
			c = append(c, x)
		}
	}
	if len(c) == 0 {
		t.Skip("nothing to pick")
	}
	return c[rapid.IntRange(0, len(c)-1).Draw(t, "which")]
}

func (m *machine) actSend(t *rapid.T) {
	from := rapid.IntRange(0, 1).Draw(t, "from")
	text := genText.Draw(t, "text")
	x := m.send(t, from, text, true)
	m.logf("%c:send#%d(%d)", 'A'+from, x.id, len(text))
}

func (m *machine) actBurst(t *rapid.T) {
	from := rapid.IntRange(0, 1).Draw(t, "from")
	n := rapid.SampledFrom([]int{2, 3, 5, 12, 40, 79, 80, 81, 82, 100, 170}).Draw(t, "n")
	for i := 0; i < n; i++ {
		m.send(t, from, []byte{byte(i)}, false)
	}
	m.logf("%c:burst%d..#%d", 'A'+from, n, len(m.msgs)-1)
}

// actDeliverNext delivers the oldest outstanding message of one direction.
func (m *machine) actDeliverNext(t *rapid.T) {
	from := rapid.IntRange(0, 1).Draw(t, "from")
	for _, x := range m.msgs {
		if x.from == from && !x.done {
			m.logf("dlv#%d", x.id)
			m.deliver(t, x)
			return
		}
	}
	return
}

// actDeliverAny delivers any outstanding message.
func (m *machine) actDeliverAny(t *rapid.T) {
	x := m.pick(t, func(x *msg) bool { return !x.done })
	m.logf("dlv#%d", x.id)
	m.deliver(t, x)
}

// actDeliverRun delivers several recent messages in random order.
func (m *machine) actDeliverRun(t *rapid.T) {
	from := rapid.IntRange(0, 1).Draw(t, "from")
	var c []*msg
	for _, x := range m.msgs {
		if x.from == from && !x.done {
			c = append(c, x)
		}
	}
	if len(c) == 0 {
		return
	}
	k := rapid.IntRange(1, 10).Draw(t, "k")
	if k > len(c) {
		k = len(c)
	}
	off := rapid.IntRange(0, len(c)-k).Draw(t, "off")
	c = rapid.Permutation(c[off:off+k]).Draw(t, "order")
	for _, x := range c {
		m.logf("dlv#%d", x.id)
		m.deliver(t, x)
	}
}

func (m *machine) actDup(t *rapid.T) {
	x := m.pick(t, func(x *msg) bool { return x.done })
	m.logf("dup#%d", x.id)
	m.deliver(t, x)
}

// finish delivers everything still deliverable.
func (m *machine) finish(t *rapid.T) {
	m.logf("finish")
	for _, x := range m.msgs {
		if !x.done {
			m.deliver(t, x)
		}
	}
	for _, x := range m.msgs {
		if x.done {
			m.deliver(t, x)
		}
	}
	// and the conversation goes on
	for i := 0; i < 2; i++ {
		for d := 0; d < 2; d++ {
			x := m.send(t, d, []byte{byte(i), byte(d)}, false)
			m.deliver(t, x)
		}
	}
}

func (m *machine) key() string { return hz.Join(m.log) }

func (m *machine) classes() {
	hz.ClassIf(m.ooo > 0, "histories with skipped messages")
	hz.ClassIf(m.late > 0, "histories with late deliveries")
	hz.ClassIf(m.ratchets > 2, "histories with >2 ratchet steps")
	hz.ClassIf(m.overlimit > 0, "histories beyond the reordering limit")
	hz.ClassIf(m.dups > 0, "histories with replays")
	hz.ClassIf(m.empties > 0, "histories with empty messages")
	hz.ClassIf(m.tampered > 0, "histories with forged ciphertexts")
	hz.ClassIf(m.reloads > 0, "histories with save/load")
	hz.ClassIf(m.expired > 0, "histories with expired keys")
}
