package sessionprop

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"testing"

	"github.com/companyzero/zkc/session"
	"pgregory.net/rapid"

	"zkcverif/hz"
)

// One direction of an established session. The model: the k-th Read returns
// exactly the k-th message the peer wrote, or fails.
type dirState struct {
	name    string
	w, r    *session.KX
	q       *queue
	sent    [][]byte // every message written, in order
	frames  [][]byte // what went over the wire for each
	next    int      // next frame the attacker has not yet handled
	reads   int      // number of Read calls that consumed a frame
	keep    int
	dead    bool // the stream lost framing
	lastErr error
}

type c07 struct {
	max  int
	d    [2]*dirState
	log  []string
	hot  bool
	rnd  *rand.Rand
	base [2]int
}

func (m *c07) logf(f string, a ...interface{}) { m.log = append(m.log, fmt.Sprintf(f, a...)) }

func newC07(t *rapid.T, max int) *c07 {
	ck, sk, c2s, s2c, err := handshake(identity(1), identity(0), uint(max))
	if err != nil {
		t.Fatalf("handshake: %v", err)
	}
	m := &c07{max: max, rnd: rand.New(rand.NewSource(int64(rapid.IntRange(0, 1<<30).Draw(t, "data seed"))))}
	m.d[0] = &dirState{name: "c", w: ck, r: sk, q: c2s}
	m.d[1] = &dirState{name: "s", w: sk, r: ck, q: s2c}
	return m
}

func (m *c07) write(t hz.Fataler, x int, size int) {
	d := m.d[x]
	p := make([]byte, size)
	m.rnd.Read(p)
	if size >= 24 {
		copy(p, "plaintext marker")
	}
	orig := append([]byte(nil), p...)
	var err error
	if e := hz.NoPanic(func() { err = d.w.Write(p) }); e != "" {
		t.Fatalf("Write panicked: %v", e)
	}
	f := d.q.take()
	if !bytes.Equal(p, orig) {
		t.Fatalf("Write changed the caller's data")
	}
	if size+16 > m.max {
		if err != session.ErrOverflow {
			t.Fatalf("Write of %d bytes with a limit of %d: %v", size, m.max, err)
		}
		if len(f) != 0 {
			t.Fatalf("a refused message put %d bytes on the wire", len(f))
		}
		return
	}
	if err != nil {
		t.Fatalf("Write of %d bytes with a limit of %d: %v", size, m.max, err)
	}
	if bytes.Contains(f, []byte("plaintext marker")) {
		t.Fatalf("plaintext on the wire")
	}
	for _, k := range []int{1, 2, 3, 255, 256, 257, 65536} {
		if i := len(d.frames) - k; i >= 0 && len(f) > 20 && bytes.Equal(d.frames[i], f) {
			t.Fatalf("two messages have the same encoding")
		}
	}
	d.sent = append(d.sent, orig)
	d.frames = append(d.frames, f)
}

// read delivers bytes to the reader and checks what it makes of them.
func (m *c07) read(t hz.Fataler, x int, wire []byte, mustWork bool) {
	d := m.d[x]
	d.q.Write(wire)
	var p []byte
	var err error
	if e := hz.NoPanic(func() { p, err = d.r.Read() }); e != "" {
		t.Fatalf("Read panicked: %v", e)
	}
	k := d.reads
	d.reads++
	if len(d.q.take()) != 0 {
		d.dead = true
	}
	if err == nil {
		if k >= len(d.sent) {
			t.Fatalf("read %d returned %v, the peer wrote only %d messages", k, hz.Short(p), len(d.sent))
		}
		if !bytes.Equal(p, d.sent[k]) {
			t.Fatalf("read %d of %q returned %v, the peer's message %d is %v", k, d.name, hz.Short(p), k, hz.Short(d.sent[k]))
		}
	} else if mustWork {
		t.Fatalf("read %d of %q failed on an unaltered stream: %v", k, d.name, err)
	}
	if err == nil && !mustWork && !(k < len(d.frames) && bytes.Equal(wire, d.frames[k])) {
		t.Fatalf("read %d of %q accepted altered data", k, d.name)
	}
}

func (d *dirState) synced() bool { return !d.dead && d.reads == d.next }

// deliver hands the next n pending frames to the reader.
func (m *c07) deliver(t hz.Fataler, x, n int) {
	d := m.d[x]
	for i := 0; i < n && d.next < len(d.frames) && !d.dead; i++ {
		s := d.synced()
		f := d.frames[d.next]
		d.next++
		m.read(t, x, f, s)
	}
}

var distances = []int{1, 2, 3, 127, 128, 255, 256, 257, 511, 512, 65535, 65536}

func (m *c07) attack(t *rapid.T, x int) {
	d, o := m.d[x], m.d[1-x]
	if d.dead {
		return
	}
	kind := rapid.SampledFrom([]string{"replay", "replay", "flip", "drop", "swap", "reflect", "foreign", "junk", "replaceByOld", "oversize"}).Draw(t, "kind")
	a := rapid.IntRange(0, 1<<20).Draw(t, "a")
	pend := len(d.frames) - d.next
	ok := true
	switch kind {
	case "replay":
		k := rapid.SampledFrom(distances).Draw(t, "distance")
		i := d.reads - k
		if i < 0 || i >= d.next {
			ok = false
			break
		}
		m.read(t, x, d.frames[i], false)
		kind = fmt.Sprintf("replay@%d", k)
	case "replaceByOld":
		k := rapid.SampledFrom(distances).Draw(t, "distance")
		i := d.next - k
		if pend == 0 || i < 0 {
			ok = false
			break
		}
		d.next++
		m.read(t, x, d.frames[i], false)
		kind = fmt.Sprintf("replace@%d", k)
	case "flip":
		if pend == 0 {
			ok = false
			break
		}
		f := append([]byte(nil), d.frames[d.next]...)
		n := int(f[0])<<24 | int(f[1])<<16 | int(f[2])<<8 | int(f[3])
		f[4+a%n] ^= 1 << (uint(a/7) % 8)
		d.next++
		m.read(t, x, f, false)
	case "drop":
		if pend == 0 {
			ok = false
			break
		}
		n := rapid.SampledFrom([]int{1, 1, 2, 255, 256, 257}).Draw(t, "dropped")
		if n > pend {
			n = pend
		}
		d.next += n
		m.logf("(%d)", n)
	case "swap":
		if pend < 2 {
			ok = false
			break
		}
		f, g := d.frames[d.next], d.frames[d.next+1]
		d.next += 2
		m.read(t, x, g, false)
		if !d.dead {
			m.read(t, x, f, false)
		}
	case "reflect":
		// what the reader itself sent, at the position it would read next
		i := d.reads
		if a%3 == 0 && len(o.frames) > 0 {
			i = a % len(o.frames)
		}
		if i >= len(o.frames) {
			ok = false
			break
		}
		m.read(t, x, o.frames[i], false)
	case "foreign":
		if len(foreignFrames) == 0 {
			ok = false
			break
		}
		m.read(t, x, foreignFrames[a%len(foreignFrames)], false)
	case "junk":
		n := 16 + a%200
		b := make([]byte, n)
		m.rnd.Read(b)
		m.read(t, x, opaque(b), false)
	case "oversize":
		// A frame that claims more than the limit: refused without
		// buffering it.
		n := uint32(m.max + 1 + a*1021)
		if a%4 == 0 {
			n = 0xffffffff - uint32(a%8)
		}
		h := []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
		var before, after runtime.MemStats
		runtime.ReadMemStats(&before)
		m.read(t, x, append(h, make([]byte, 64)...), false)
		runtime.ReadMemStats(&after)
		if g := after.TotalAlloc - before.TotalAlloc; g > uint64(4*m.max+4<<20) {
			t.Fatalf("a frame claiming %d bytes, limit %d, made the reader allocate %d bytes", n, m.max, g)
		}
		d.dead = true
	}
	if ok {
		m.hot = true
		m.logf("%s:%s(%d)", d.name, kind, a)
		hz.Class("attack: " + kind)
	}
}

// frames of an earlier session between the same parties, both directions
var foreignFrames [][]byte

func (m *c07) finish() {
	foreignFrames = nil
	for _, d := range m.d {
		for i := 0; i < len(d.frames) && i < 40; i++ {
			foreignFrames = append(foreignFrames, d.frames[i])
		}
	}
}

func TestC07Channel(t *testing.T) {
	hz.CheckSteps(t, 250, 40, func(t *rapid.T) {
		max := rapid.SampledFrom([]int{1300, 1301, 1303, 4096, 65536}).Draw(t, "max")
		m := newC07(t, max)
		genDir := rapid.IntRange(0, 1)
		genSize := rapid.OneOf(rapid.IntRange(0, 60), rapid.IntRange(0, 60), rapid.IntRange(0, max-16), rapid.IntRange(max-18, max+4), rapid.IntRange(max-16, 3*max))
		t.Repeat(map[string]func(*rapid.T){
			"write": func(t *rapid.T) {
				x, n := genDir.Draw(t, "dir"), genSize.Draw(t, "size")
				m.logf("%s:write(%d)", m.d[x].name, n)
				hz.ClassIf(n+16 > max, "oversize writes")
				hz.ClassIf(n+16 == max, "writes of exactly the maximum")
				m.hot = m.hot || n+16 > max
				m.write(t, x, n)
			},
			"bulk": func(t *rapid.T) {
				x := genDir.Draw(t, "dir")
				n := rapid.SampledFrom([]int{10, 100, 255, 256, 300}).Draw(t, "n")
				m.logf("%s:bulk(%d)", m.d[x].name, n)
				for i := 0; i < n; i++ {
					m.write(t, x, i%7)
				}
				if rapid.Bool().Draw(t, "deliver") {
					m.deliver(t, x, n)
				}
			},
			"deliver": func(t *rapid.T) {
				x := genDir.Draw(t, "dir")
				n := rapid.SampledFrom([]int{1, 1, 2, 5, 100000}).Draw(t, "n")
				m.logf("%s:deliver(%d)", m.d[x].name, n)
				m.deliver(t, x, n)
			},
			"attack": func(t *rapid.T) {
				// most of the history stays clean
				if rapid.IntRange(0, 3).Draw(t, "really") == 0 {
					m.attack(t, genDir.Draw(t, "dir"))
				}
			},
		})
		for x := range m.d {
			m.deliver(t, x, 1<<30)
		}
		hz.Case(m.hot, hz.Join(m.log), fmt.Sprintf("max %d: %s", max, hz.Join(m.log)))
		m.finish()
	})
}

// Streams long enough for the third byte of the sequence number to count.
func TestC07Long(t *testing.T) {
	hz.Check(t, 2, func(t *rapid.T) {
		m := newC07(t, 1300)
		x := rapid.IntRange(0, 1).Draw(t, "dir")
		n := 65536 + rapid.IntRange(10, 700).Draw(t, "extra")
		for i := 0; i < n; i++ {
			m.write(t, x, i%3)
			m.deliver(t, x, 1)
		}
		k := rapid.SampledFrom([]int{65536, 65536, 65535, 65537, 256, 512, 1}).Draw(t, "distance")
		d := m.d[x]
		if i := d.reads - k; i >= 0 {
			m.read(t, x, d.frames[i], false)
		}
		hz.Class("streams of more than 65536 messages")
		hz.Case(true, fmt.Sprint(x, n, k), fmt.Sprintf("%s: %d messages, then a replay at distance %d", d.name, n, k))
	})
}

// A stream that is cut anywhere yields a prefix of the messages and an error.
func TestC07Cut(t *testing.T) {
	hz.Check(t, 60, func(t *rapid.T) {
		m := newC07(t, 1300)
		x := rapid.IntRange(0, 1).Draw(t, "dir")
		n := rapid.IntRange(1, 12).Draw(t, "n")
		var wire []byte
		var ends []int
		for i := 0; i < n; i++ {
			m.write(t, x, rapid.IntRange(0, 100).Draw(t, "size"))
			wire = append(wire, m.d[x].frames[i]...)
			ends = append(ends, len(wire))
		}
		cut := rapid.IntRange(0, len(wire)).Draw(t, "cut")
		if rapid.IntRange(0, 3).Draw(t, "at the end of a frame") == 0 {
			cut = ends[rapid.IntRange(0, n-1).Draw(t, "frame")]
		}
		d := m.d[x]
		d.q.Write(wire[:cut])
		whole := 0
		for whole < n && ends[whole] <= cut {
			whole++
		}
		for i := 0; ; i++ {
			var p []byte
			var err error
			if e := hz.NoPanic(func() { p, err = d.r.Read() }); e != "" {
				t.Fatalf("Read panicked: %v", e)
			}
			if i < whole {
				if err != nil || !bytes.Equal(p, d.sent[i]) {
					t.Fatalf("message %d of %d, stream cut at %d (%v): %v %v", i, n, cut, ends, hz.Short(p), err)
				}
				continue
			}
			if err == nil {
				t.Fatalf("stream cut at %d (%v) yielded message %d", cut, ends, i)
			}
			break
		}
		hz.Class("cut streams")
		hz.Case(whole < n, fmt.Sprint("cut", ends, cut), fmt.Sprintf("frames end at %v, cut at %d", ends, cut))
	})
}
