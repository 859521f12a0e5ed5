package ratchetprop

import (
	"testing"
	"time"

	"pgregory.net/rapid"

	"zkcverif/hz"
)

func (m *machine) actReload(t *rapid.T) {
	who := rapid.IntRange(0, 1).Draw(t, "who")
	life := rapid.SampledFrom([]time.Duration{time.Hour, 24 * time.Hour, 31 * 24 * time.Hour}).Draw(t, "life")
	m.reload(t, who, life)
}

func (m *machine) reload(t *rapid.T, who int, life time.Duration) {
	m.logf("%c:reload(%v)", 'A'+who, life)
	n, err := viaDisk(m.r[who], m.p.ids[who], m.p.ids[1-who], m.now, life)
	if err != nil {
		m.fail(t, "save/load failed: %v", err)
	}
	m.r[who] = n
	m.reloads++
	for k, ts := range m.m[who].saved {
		if m.now.Sub(ts) > life {
			delete(m.m[who].saved, k)
			m.expired++
		}
	}
}

func (m *machine) actClock(t *rapid.T) {
	// the state keeps seconds; steps are chosen so that no age comes
	// within seconds of a lifetime
	d := rapid.SampledFrom([]time.Duration{7 * time.Minute, 3*time.Hour + 7*time.Minute, 26*time.Hour + 7*time.Minute, 33*24*time.Hour + 7*time.Minute}).Draw(t, "step")
	m.now = m.now.Add(d)
	m.logf("clock+%v", d)
}

func TestC03Persistence(t *testing.T) {
	hz.CheckSteps(t, 400, 40, func(t *rapid.T) {
		m := newMachine(t)
		always := rapid.Bool().Draw(t, "always") // like the client: after every step
		t.Repeat(map[string]func(*rapid.T){
			"send":    m.actSend,
			"burst":   m.actBurst,
			"next":    m.actDeliverNext,
			"any":     m.actDeliverAny,
			"shuffle": m.actDeliverRun,
			"dup":     m.actDup,
			"reload":  m.actReload,
			"reload2": m.actReload,
			"clock":   m.actClock,
			"": func(t *rapid.T) {
				if always {
					for i := 0; i < 2; i++ {
						m.reload(t, i, 31*24*time.Hour)
					}
				}
			},
		})
		nt := m.reloads > 0 && m.ooo > 0 && m.ratchets >= 2
		m.finish(t)
		hz.Case(nt, m.key(), m.key())
		m.classes()
	})
}

// A half completed key exchange survives a save/load on either side.
func TestC03HalfRatchet(t *testing.T) {
	hz.Check(t, 6, func(t *rapid.T) {
		p := getPair(t, 0)
		m := &machine{p: p, now: time.Unix(1600000000, 0)}
		var rl [2]int
		for i := 0; i < 2; i++ {
			rl[i] = rapid.IntRange(0, 2).Draw(t, "reloads")
			r := clone(p.hr[i])
			for k := 0; k < rl[i]; k++ {
				n, err := viaDisk(r, p.ids[i], p.ids[1-i], m.now, 31*24*time.Hour)
				if err != nil {
					t.Fatalf("save/load of a half ratchet failed: %v", err)
				}
				r = n
			}
			if err := r.CompleteKeyExchange(p.kx[1-i], i == 0); err != nil {
				t.Fatalf("half ratchet, reloaded %d times, cannot complete: %v", rl[i], err)
			}
			r.Now = func() time.Time { return m.now }
			m.r[i] = r
		}
		m.m[0] = &party{mustRatchet: true, sendChain: -1, recvChain: 0, saved: map[[2]int]time.Time{}}
		m.m[1] = &party{sendChain: 0, recvChain: -1, saved: map[[2]int]time.Time{}}
		m.logf("half(%d,%d)", rl[0], rl[1])
		for i := 0; i < 12; i++ {
			switch rapid.IntRange(0, 2).Draw(t, "act") {
			case 0, 1:
				m.actSend(t)
			case 2:
				m.reload(t, rapid.IntRange(0, 1).Draw(t, "who"), time.Hour)
			}
		}
		m.finish(t)
		hz.Case(rl[0]+rl[1] > 0, m.key(), m.key())
		hz.Class("half ratchets reloaded")
	})
}
