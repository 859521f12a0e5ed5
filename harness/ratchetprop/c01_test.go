package ratchetprop

import (
	"testing"

	"pgregory.net/rapid"

	"zkcverif/hz"
)

func TestC01Delivery(t *testing.T) {
	hz.CheckSteps(t, 400, 40, func(t *rapid.T) {
		m := newMachine(t)
		t.Repeat(map[string]func(*rapid.T){
			"send":    m.actSend,
			"send2":   m.actSend,
			"burst":   m.actBurst,
			"next":    m.actDeliverNext,
			"next2":   m.actDeliverNext,
			"any":     m.actDeliverAny,
			"shuffle": m.actDeliverRun,
			"dup":     m.actDup,
		})
		nt := m.ooo > 0 && m.ratchets >= 2
		m.finish(t)
		hz.Case(nt && m.late > 0, m.key(), m.key())
		m.classes()
	})
}
