package ratchetprop

import (
	"bytes"
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"zkcverif/hz"
)

const hdrLen = 24 + 4 + 4 + 32 + 24 + 16 // sealed header on the wire

// forge derives a ciphertext nobody sent.
func (m *machine) forge(t *rapid.T, to int) ([]byte, string) {
	var pool []*msg
	for _, x := range m.msgs {
		pool = append(pool, x)
	}
	kind := rapid.SampledFrom([]string{"flip", "flip", "flip", "trunc", "extend", "splice", "reflect", "random", "foreign", "swapnonce", "zero"}).Draw(t, "kind")
	if len(pool) == 0 && kind != "foreign" {
		kind = "random"
	}
	pick := func(label string) *msg {
		return pool[rapid.IntRange(0, len(pool)-1).Draw(t, label)]
	}
	switch kind {
	case "flip":
		x := pick("of")
		c := append([]byte(nil), x.ct...)
		var pos int
		if rapid.Bool().Draw(t, "inHeader") {
			pos = rapid.IntRange(0, hdrLen-1).Draw(t, "pos")
		} else {
			pos = rapid.IntRange(0, len(c)-1).Draw(t, "pos")
		}
		c[pos] ^= byte(rapid.IntRange(1, 255).Draw(t, "xor"))
		return c, fmt.Sprintf("flip#%d@%d", x.id, pos)
	case "trunc":
		x := pick("of")
		n := rapid.OneOf(rapid.IntRange(0, len(x.ct)-1), rapid.IntRange(0, hdrLen)).Draw(t, "len")
		if n >= len(x.ct) {
			n = len(x.ct) - 1
		}
		return append([]byte(nil), x.ct[:n]...), fmt.Sprintf("trunc#%d:%d", x.id, n)
	case "extend":
		x := pick("of")
		ext := rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "ext")
		return append(append([]byte(nil), x.ct...), ext...), fmt.Sprintf("extend#%d", x.id)
	case "splice":
		x, y := pick("hdr"), pick("body")
		return append(append([]byte(nil), x.ct[:hdrLen]...), y.ct[hdrLen:]...), fmt.Sprintf("splice#%d+#%d", x.id, y.id)
	case "swapnonce":
		x, y := pick("nonce"), pick("rest")
		return append(append([]byte(nil), x.ct[:24]...), y.ct[24:]...), fmt.Sprintf("nonce#%d+#%d", x.id, y.id)
	case "zero":
		x := pick("of")
		c := append([]byte(nil), x.ct...)
		i := rapid.IntRange(0, len(c)-1).Draw(t, "from")
		for ; i < len(c); i++ {
			c[i] = 0
		}
		return c, fmt.Sprintf("zero#%d", x.id)
	case "reflect":
		// something the receiver itself sent
		var own []*msg
		for _, x := range pool {
			if x.from == to {
				own = append(own, x)
			}
		}
		if len(own) == 0 {
			return bytes.Repeat([]byte{0}, 200), "zeros"
		}
		x := own[rapid.IntRange(0, len(own)-1).Draw(t, "own")]
		return append([]byte(nil), x.ct...), fmt.Sprintf("reflect#%d", x.id)
	case "foreign":
		// the same protocol between other parties
		q := getPair(t, 2)
		f := clone(q.r[1])
		c, err := f.Encrypt(nil, []byte("foreign"))
		hz.Must(err)
		return c, "foreign"
	}
	return rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(t, "bytes"), "random"
}

func (m *machine) actForge(t *rapid.T) {
	to := rapid.IntRange(0, 1).Draw(t, "to")
	c, what := m.forge(t, to)
	for _, x := range m.msgs {
		if x.from != to && bytes.Equal(x.ct, c) {
			return
		}
	}
	m.logf("%c<-%s", 'A'+to, what)
	m.tampered++
	hz.Class("forged ciphertexts")
	in := append([]byte(nil), c...)
	var got []byte
	var err error
	if p := hz.NoPanic(func() { got, err = m.r[to].Decrypt(in) }); p != "" {
		m.fail(t, "Decrypt panicked on %s: %s", what, p)
	}
	if err == nil {
		m.fail(t, "forged ciphertext %s was accepted as %x", what, got)
	}
	if len(got) != 0 {
		m.fail(t, "rejected ciphertext %s returned data %x", what, got)
	}
}

func TestC02Forgery(t *testing.T) {
	hz.CheckSteps(t, 400, 40, func(t *rapid.T) {
		m := newMachine(t)
		t.Repeat(map[string]func(*rapid.T){
			"send":    m.actSend,
			"burst":   m.actBurst,
			"next":    m.actDeliverNext,
			"any":     m.actDeliverAny,
			"shuffle": m.actDeliverRun,
			"dup":     m.actDup,
			"forge":   m.actForge,
			"forge2":  m.actForge,
			"forge3":  m.actForge,
		})
		nt := m.tampered > 0 && m.ratchets >= 1 && len(m.msgs) > 4
		m.finish(t)
		hz.Case(nt, m.key(), m.key())
		m.classes()
	})
}
