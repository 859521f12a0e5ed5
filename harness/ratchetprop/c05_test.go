package ratchetprop

import (
	"bytes"
	"testing"
	"time"

	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/ratchet/disk"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"pgregory.net/rapid"

	"zkcverif/hz"
)

func stateOf(r *ratchet.Ratchet, now time.Time) (*disk.RatchetState, []byte) {
	s := r.Marshal(now, 1000*24*time.Hour)
	var b bytes.Buffer
	_, err := xdr.Marshal(&b, s)
	hz.Must(err)
	return s, b.Bytes()
}

// eraser watches one ratchet: secrets that were used up are gone from it.
type eraser struct {
	used [][]byte
	what []string
}

func (e *eraser) spent(key []byte, what string) {
	var or byte
	for _, b := range key {
		or |= b
	}
	if or == 0 {
		return
	}
	e.used = append(e.used, append([]byte(nil), key...))
	e.what = append(e.what, what)
}

// A stolen state does not open what was sent before it (consumed keys are
// gone), nor what is sent after both ends have contributed fresh keys.
func TestC05KeyEvolution(t *testing.T) {
	hz.CheckSteps(t, 250, 40, func(t *rapid.T) {
		m := newMachine(t)
		var er [2]eraser
		type theft struct {
			who   int
			clone *ratchet.Ratchet
			at    int // messages existing then
			// chains of the victim that existed then
			sendChain int
			// accepted before the theft
			accepted []*msg
			later    []*msg // genuine messages delivered to the victim afterwards
		}
		var thefts []*theft
		// basis[x.from][x.chain] = the newest chain of the other side the
		// sender had received when it started chain
		basis := [2]map[int]int{{}, {0: -1}}
		type snap struct{ s *disk.RatchetState }

		send := func(t *rapid.T) {
			from := rapid.IntRange(0, 1).Draw(t, "from")
			n := rapid.SampledFrom([]int{1, 1, 1, 2, 4, 9}).Draw(t, "n")
			for i := 0; i < n; i++ {
				before, _ := stateOf(m.r[from], m.now)
				fresh := m.m[from].mustRatchet
				x := m.send(t, from, []byte{byte(i)}, false)
				after, _ := stateOf(m.r[from], m.now)
				if fresh {
					basis[from][x.chain] = m.m[from].recvChain
					er[from].spent(before.SendChainKey, "send chain key of a finished chain")
					er[from].spent(before.RootKey, "root key before a ratchet step")
				} else {
					er[from].spent(before.SendChainKey, "send chain key")
				}
				if bytes.Equal(before.SendChainKey, after.SendChainKey) {
					m.fail(t, "sending does not advance the chain key")
				}
			}
			m.logf("%c:send%d..#%d", 'A'+from, n, len(m.msgs)-1)
		}
		dlv := func(t *rapid.T, x *msg) {
			to := 1 - x.from
			before, _ := stateOf(m.r[to], m.now)
			rc, rn := m.m[to].recvChain, m.m[to].recvCount
			done := x.done
			m.logf("dlv#%d", x.id)
			m.deliver(t, x)
			if done || !x.done {
				return
			}
			for _, th := range thefts {
				if th.who == to {
					th.later = append(th.later, x)
				}
			}
			if m.m[to].recvChain != rc {
				er[to].spent(before.RecvChainKey, "receive chain key of a finished chain")
				er[to].spent(before.RootKey, "root key before a ratchet step")
				er[to].spent(before.SendRatchetPrivate, "used DH private key")
			} else if m.m[to].recvCount != rn {
				er[to].spent(before.RecvChainKey, "receive chain key")
			} else {
				// a saved key was used
				after, _ := stateOf(m.r[to], m.now)
				have := map[string]bool{}
				for _, h := range after.SavedKeys {
					for _, k := range h.MessageKeys {
						have[string(k.Key)] = true
					}
				}
				for _, h := range before.SavedKeys {
					for _, k := range h.MessageKeys {
						if !have[string(k.Key)] {
							er[to].spent(k.Key, "saved message key")
						}
					}
				}
			}
		}
		t.Repeat(map[string]func(*rapid.T){
			"send":  send,
			"send2": send,
			"next": func(t *rapid.T) {
				from := rapid.IntRange(0, 1).Draw(t, "from")
				for _, x := range m.msgs {
					if x.from == from && !x.done {
						dlv(t, x)
						return
					}
				}
				return
			},
			"any": func(t *rapid.T) {
				dlv(t, m.pick(t, func(x *msg) bool { return !x.done }))
			},
			"all": func(t *rapid.T) {
				from := rapid.IntRange(0, 1).Draw(t, "from")
				n := 0
				for _, x := range m.msgs {
					if x.from == from && !x.done {
						dlv(t, x)
						n++
					}
				}
				if n == 0 {
					return
				}
			},
			"steal": func(t *rapid.T) {
				if len(thefts) >= 3 {
					return
				}
				who := rapid.IntRange(0, 1).Draw(t, "who")
				th := &theft{who: who, clone: clone(m.r[who]), at: len(m.msgs), sendChain: m.m[who].sendChain}
				for _, x := range m.msgs {
					if x.from != who && x.done {
						th.accepted = append(th.accepted, x)
					}
				}
				thefts = append(thefts, th)
				m.logf("steal%c", 'A'+who)
			},
			"": func(t *rapid.T) {
				for i := 0; i < 2; i++ {
					s, raw := stateOf(m.r[i], m.now)
					n := 0
					for _, h := range s.SavedKeys {
						n += len(h.MessageKeys)
					}
					if n != len(m.m[i].saved) {
						m.fail(t, "party %c keeps %d message keys, %d messages are missing", 'A'+i, n, len(m.m[i].saved))
					}
					for k, key := range er[i].used {
						if bytes.Contains(raw, key) {
							m.fail(t, "party %c still holds a %s after it was used", 'A'+i, er[i].what[k])
						}
					}
				}
			},
		})
		healed, past := 0, 0
		for _, th := range thefts {
			for _, x := range th.accepted {
				past++
				if _, err := clone(th.clone).Decrypt(x.ct); err == nil {
					m.fail(t, "state stolen from %c opens #%d, received before the theft", 'A'+th.who, x.id)
				}
			}
			// the thief follows the conversation as the victim saw it
			for _, x := range th.later {
				b := basis[x.from][x.chain]
				_, err := th.clone.Decrypt(x.ct)
				if b > th.sendChain {
					healed++
					if err == nil {
						m.fail(t, "state stolen from %c opens #%d (chain %d based on the victim's chain %d, theft at chain %d)",
							'A'+th.who, x.id, x.chain, b, th.sendChain)
					}
				}
			}
		}
		hz.ClassIf(healed > 0, "histories with a healed theft")
		hz.ClassIf(past > 0, "histories with past messages protected")
		hz.ClassIf(len(er[0].used)+len(er[1].used) > 0, "histories with consumed keys")
		hz.Case(healed > 0 || past > 0, m.key(), m.key())
	})
}
