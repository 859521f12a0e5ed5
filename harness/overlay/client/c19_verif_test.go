//go:build go1.21

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"zkcverif/hz"

	"github.com/companyzero/zkc/rpc"
	"pgregory.net/rapid"
)

// C19: messages reach the right window and log, once, in order, as typed.

type sentMsg struct {
	to    int
	group string
	me    bool
	text  string // what the reader must see
	risky bool   // the connection was cut while it may have been in flight
}

// c19world is a set of users and a group. In some of them names coincide.
type c19world struct {
	nicks   []string
	group   string
	members []int
}

var c19worlds = []c19world{
	{[]string{"alice", "bob", "carol"}, "gang", []int{0, 1, 2}},
	{[]string{"console", "gang", "gang x"}, "gang", []int{0, 1}},
	{[]string{"alice", "bob", "bob#1"}, "", nil},
}

type c19 struct {
	w     c19world
	r     *relay
	nodes []*node
	seq   int
	typed []int // messages typed by each since the server had everything
	base  []int // messages the server had accepted of each then
	// per sender: what was typed, in order
	sent     [][]*sentMsg
	inflight [][]*sentMsg // typed since the last quiet moment
	cutsSeen int
	ops      []string
	reload   int
	offl     int
	author   map[int]int
	before   int            // frames the server accepted before the history
	files    []int          // sent in the background by each
	pieces   map[[2]int]int // of files, at most, by sender and receiver
}

// text is a line a user could type: printable, no line breaks. The marker
// makes every message of the case distinct.
func genText(rt *rapid.T, mark string) string {
	pieces := []string{"hi", " ", "  ", "%", "%s", "%d%v", "/", "/m", "é", "日本", "<bob>", ":", "\t", "x", "alice", "bob", "carol", "gc", "0", "m ", "me "}
	n := rapid.IntRange(0, 6).Draw(rt, "pieces")
	s := ""
	for i := 0; i < n; i++ {
		s += rapid.SampledFrom(pieces).Draw(rt, "piece")
	}
	switch rapid.IntRange(0, 12).Draw(rt, "long") {
	case 0:
		s += strings.Repeat("long ", rapid.IntRange(10, 1500).Draw(rt, "len"))
	}
	if rapid.Bool().Draw(rt, "front") {
		return mark + s + "."
	}
	if strings.HasPrefix(s, "/") || strings.TrimSpace(s) == "" || strings.HasPrefix(s, " ") || strings.HasPrefix(s, "\t") {
		s = "w" + s
	}
	return s + mark
}

func (m *c19) up(i int) bool { return m.nodes[i].z != nil }

// reach is whom i can write to.
func (m *c19) reach(i int) []int {
	var to []int
	for j, p := range m.nodes {
		if i != j && p.nick() != m.nodes[i].nick() {
			to = append(to, j)
		}
	}
	return to
}

func (m *c19) inGroup(i int) bool {
	for _, k := range m.w.members {
		if k == i {
			return true
		}
	}
	return false
}

// plain says whether a name can be used in every command.
func (m *c19) plain(name string) bool {
	return !strings.Contains(name, " ") && name != consoleText &&
		(name != m.w.group || m.w.group == "gang" && m.w.nicks[0] == "alice")
}

// open brings a conversation to the front.
func (m *c19) open(rt *rapid.T, n *node, peer *node) {
	name := m.w.group
	if peer != nil {
		name = n.alias(&peer.id.Public)
	}
	if m.plain(name) {
		n.cmd("/q %s", name)
		n.barrier()
		return
	}
	var win int
	var err error
	if peer != nil {
		_, win, err = n.z.getConversation(peer.ident())
	} else {
		_, win, err = n.z.groupConversation(name)
	}
	if err != nil {
		rt.Fatalf("%v cannot open the conversation with %s: %v", n, name, err)
	}
	n.cmd("/win %d", win)
	n.barrier()
}

func (m *c19) opSend(rt *rapid.T, group bool) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "from")
	if group && !m.inGroup(i) {
		return
	}
	m.seq++
	mark := fmt.Sprintf("[%d]", m.seq)
	m.author[m.seq] = i
	text := genText(rt, mark)
	me := rapid.IntRange(0, 4).Draw(rt, "me") == 0
	window := rapid.IntRange(0, 2).Draw(rt, "how") == 0
	msg := &sentMsg{text: text, me: me}
	n := m.nodes[i]
	var err error
	if group {
		msg.to, msg.group = -1, m.w.group
		switch {
		case me:
			err = n.cmd("/gc me %s %s", m.w.group, text)
		case window:
			m.open(rt, n, nil)
			err = n.cmd("%s", text)
		default:
			err = n.cmd("/gc m %s %s", m.w.group, text)
		}
	} else {
		r := m.reach(i)
		j := r[rapid.IntRange(0, len(r)-1).Draw(rt, "to")]
		msg.to = j
		alias := n.alias(&m.nodes[j].id.Public)
		switch {
		case me:
			m.open(rt, n, m.nodes[j])
			err = n.cmd("/me %s", text)
		case window || strings.Contains(alias, " "):
			m.open(rt, n, m.nodes[j])
			err = n.cmd("%s", text)
		default:
			c := rapid.SampledFrom([]string{"/m", "/msg"}).Draw(rt, "cmd")
			err = n.cmd("%s %s %s", c, alias, text)
		}
	}
	if err != nil {
		rt.Fatalf("%v cannot send %q: %v", n, text, err)
	}
	m.note(i, msg)
}

// note records a message that was typed.
func (m *c19) note(i int, msg *sentMsg) {
	m.sent[i] = append(m.sent[i], msg)
	m.inflight[i] = append(m.inflight[i], msg)
	if msg.group != "" {
		m.typed[i] += len(m.w.members) - 1
	} else {
		m.typed[i]++
	}
	m.ops = append(m.ops, fmt.Sprintf("%v>%d%s", m.nodes[i], msg.to, msg.group))
}

// opBurst types several lines before the windows are updated (a paste). What
// is typed goes to the conversation that is in front at that moment.
func (m *c19) opBurst(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "who")
	n := m.nodes[i]
	k := rapid.IntRange(2, 6).Draw(rt, "lines")
	kinds, texts := make([]int, k), make([]string, k)
	for l := range kinds {
		m.seq++
		m.author[m.seq] = i
		kinds[l] = rapid.IntRange(0, 6).Draw(rt, "kind")
		texts[l] = genText(rt, fmt.Sprintf("[%d]", m.seq))
	}
	var sent []*sentMsg
	var unsure []int
	var bad string
	slow := time.Duration(rapid.IntRange(0, 8).Draw(rt, "slow")) * time.Millisecond
	n.keys(slow, func() {
		for l := range kinds {
			var err error
			switch kinds[l] {
			case 0, 1, 2:
				c := front(n)
				line := texts[l]
				if kinds[l] == 2 {
					line = "/me " + line
				}
				msg := m.addressed(n, c)
				msg.text, msg.me = texts[l], kinds[l] == 2
				if c == consoleName && kinds[l] != 2 {
					continue // that would be a command
				}
				err = n.typed(line)
				if front(n) != c {
					// the window went to the back meanwhile
					unsure = append(unsure, len(sent))
					err = nil
				} else if c == consoleName {
					err = nil
					continue
				}
				sent = append(sent, msg)
			case 3, 4:
				err = n.typed("/wc")
			case 5:
				err = n.typed("/help")
			case 6:
				err = n.typed("   ") // nothing
				if err != nil && strings.HasPrefix(err.Error(), "invalid command") {
					err = nil
				}
			}
			if err != nil {
				bad = fmt.Sprintf("%v: line %q: %v", n, texts[l], err)
			}
		}
	})
	if bad != "" {
		rt.Fatalf("%s", bad)
	}
	n.barrier()
	m.ops = append(m.ops, "burst "+n.nick())
	for _, l := range unsure {
		// the echo says where it went: to one of the conversations, or
		// nowhere
		msg, to := sent[l], ""
		sent[l] = nil
		for f, lines := range n.allLogs() {
			for _, x := range chatLines(lines) {
				if !strings.Contains(x, msg.text) {
					continue
				}
				if to != "" {
					rt.Fatalf("%v: line %q is in %s and %s", n, msg.text, f, to)
				}
				to = f
				msg.to, msg.group = -1, ""
				for j, p := range m.nodes {
					if f == filepath.Base(n.pmLog(&p.id.Public)) {
						msg.to = j
					}
				}
				if f == filepath.Base(n.gcLog(m.w.group)) {
					msg.group = m.w.group
				}
				sent[l] = msg
			}
		}
	}
	for _, msg := range sent {
		if msg != nil {
			m.note(i, msg)
		}
	}
}

// opFile sends a file in the background, and perhaps types meanwhile.
func (m *c19) opFile(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "from")
	r := m.reach(i)
	j := r[rapid.IntRange(0, len(r)-1).Draw(rt, "to")]
	n := m.nodes[i]
	alias := n.alias(&m.nodes[j].id.Public)
	if strings.Contains(alias, " ") {
		return
	}
	k := rapid.IntRange(1, 12).Draw(rt, "pieces")
	m.seq++
	file := filepath.Join(n.top, fmt.Sprintf("file%d", m.seq))
	hz.Must(os.WriteFile(file, []byte(strings.Repeat("x", k*int(m.r.chunk))), 0600))
	if err := n.cmd("/send %s %s", alias, file); err != nil {
		rt.Fatalf("%v cannot send %s: %v", n, file, err)
	}
	m.files[i]++
	m.typed[i] += k + 1
	m.inflight[i] = append(m.inflight[i], &sentMsg{})
	m.pieces[[2]int{i, j}] += k + 1
	m.ops = append(m.ops, fmt.Sprintf("%v sends a file of %d pieces", n, k))
	hz.Class("file meanwhile")
	for l := rapid.IntRange(0, 3).Draw(rt, "meanwhile"); l > 0; l-- {
		time.Sleep(time.Duration(rapid.IntRange(0, 3000).Draw(rt, "µs")) * time.Microsecond)
		m.seq++
		m.author[m.seq] = i
		msg := &sentMsg{to: j, text: fmt.Sprintf("[%d] meanwhile", m.seq)}
		if err := n.cmd("/m %s %s", alias, msg.text); err != nil {
			rt.Fatalf("%v cannot send %q: %v", n, msg.text, err)
		}
		m.note(i, msg)
	}
}

const consoleName = "/"

// front is the conversation that is in front.
func front(n *node) string {
	n.z.RLock()
	defer n.z.RUnlock()
	c := n.z.conversation[n.z.active]
	switch {
	case n.z.active == 0:
		return consoleName
	case c.group:
		return c.nick
	}
	return consoleName + hexid(c.id.Identity)
}

// addressed is a message that is typed into this conversation.
func (m *c19) addressed(n *node, c string) *sentMsg {
	msg := &sentMsg{to: -1}
	for j, p := range m.nodes {
		if c == consoleName+hexid(p.ident()) {
			msg.to = j
		}
	}
	if msg.to == -1 && c != consoleName {
		msg.group = c
	}
	return msg
}

func (m *c19) opFocus(rt *rapid.T) {
	n := m.nodes[rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "who")]
	n.cmd("/win %d", rapid.IntRange(0, 3).Draw(rt, "win"))
	n.barrier()
}

// opClose closes the focused window of a node; messages in flight at that
// moment are let in first (windows are addressed by position).
func (m *c19) opClose(rt *rapid.T) {
	m.settle(rt)
	n := m.nodes[rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "who")]
	n.cmd("/wc")
	n.barrier()
	m.ops = append(m.ops, "wc "+n.nick())
}

func (m *c19) opOffline(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "who")
	n := m.nodes[i]
	if !n.online() {
		return
	}
	for _, s := range m.inflight[i] {
		s.risky = true // what was still in the socket is gone
	}
	n.cmd("/offline")
	if !eventually(20*time.Second, func() bool { return !n.online() }) {
		rt.Fatalf("%v does not go offline", n)
	}
	m.offl++
	m.ops = append(m.ops, "offline "+n.nick())
}

func (m *c19) opOnline(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "who")
	if m.nodes[i].online() {
		return
	}
	m.goOnline(rt, i)
	m.ops = append(m.ops, "online "+m.nodes[i].nick())
}

func (m *c19) goOnline(rt *rapid.T, i int) {
	m.nodes[i].connect(rt)
}

// opCut makes the connection of a node break at its n-th command from now.
func (m *c19) opCut(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "who")
	m.r.mtx.Lock()
	defer m.r.mtx.Unlock()
	if m.r.cutIn > 0 {
		return
	}
	m.r.cutWho = m.nodes[i].ident()
	m.r.cutIn = rapid.IntRange(1, 5).Draw(rt, "nth")
	m.r.cutMode = rapid.IntRange(0, 2).Draw(rt, "mode")
	m.ops = append(m.ops, fmt.Sprintf("cut %v@%d/%d", m.nodes[i], m.r.cutIn, m.r.cutMode))
}

func (m *c19) opHold(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "who")
	m.r.mtx.Lock()
	defer m.r.mtx.Unlock()
	id := m.nodes[i].ident()
	m.r.hold[id] = !m.r.hold[id]
	if !m.r.hold[id] {
		m.r.pump(m.r.users[id])
	}
	m.ops = append(m.ops, "hold "+m.nodes[i].nick())
}

func (m *c19) opRestart(rt *rapid.T) {
	i := rapid.IntRange(0, len(m.nodes)-1).Draw(rt, "who")
	n := m.nodes[i]
	if !n.online() {
		return // what waits in its queue would be lost, and the client says so
	}
	m.settle(rt)
	if !n.online() {
		return
	}
	n.stop()
	n.start()
	n.connect(rt)
	m.reload++
	m.ops = append(m.ops, "restart "+n.nick())
}

// settle lets everything arrive that can arrive. Sessions that a cut ended
// are brought back; the ones the user ended are not.
func (m *c19) settle(rt *rapid.T) {
	for i, n := range m.nodes {
		if m.files[i] != 0 && !eventually(30*time.Second, func() bool {
			n.barrier()
			return strings.Count(n.console(), "Send completed: ") >= m.files[i]
		}) {
			rt.Fatalf("%v: the files sent are not done\nops %v\n%s", n, m.ops, m.dump())
		}
	}
	for round := 0; ; round++ {
		if !settle(m.r, m.nodes) {
			rt.Fatalf("the clients do not come to rest\nops %v\n%s", m.ops, m.dump())
		}
		m.r.mtx.Lock()
		cuts := m.r.cuts[m.cutsSeen:]
		m.cutsSeen += len(cuts)
		m.r.mtx.Unlock()
		for _, id := range cuts {
			for i, n := range m.nodes {
				if id != n.ident() {
					continue
				}
				for _, s := range m.inflight[i] {
					s.risky = true
				}
				if !eventually(20*time.Second, func() bool { return !m.linked(n) }) {
					rt.Fatalf("%v does not notice that its connection is gone\nops %v\n%s", n, m.ops, m.dump())
				}
			}
		}
		again := false
		for i, n := range m.nodes {
			n.z.RLock()
			wants := !n.z.online && !n.z.offline
			n.z.RUnlock()
			if wants {
				m.goOnline(rt, i)
				again = true
			}
		}
		if !again {
			break
		}
		if round > 12 {
			rt.Fatalf("sessions keep ending: %v\nops %v\n%s", m.r.bad, m.ops, m.dump())
		}
	}
	for i, n := range m.nodes {
		if !n.online() {
			continue
		}
		risky := false
		for _, s := range m.inflight[i] {
			risky = risky || s.risky
		}
		if !risky && !eventually(30*time.Second, func() bool {
			return m.accepted(i) == m.base[i]+m.typed[i]
		}) {
			rt.Fatalf("%v sent %d messages, the server got %d\nops %v\n%s", n, m.typed[i],
				m.accepted(i)-m.base[i], m.ops, m.dump())
		}
		m.inflight[i] = nil
		m.base[i], m.typed[i] = m.accepted(i), 0
	}
}

// linked says whether a node is online after the session that was cut.
func (m *c19) linked(n *node) bool {
	if !n.online() {
		return false
	}
	m.r.mtx.Lock()
	defer m.r.mtx.Unlock()
	c := m.r.users[n.ident()].conn
	return c == nil || c.dead
}

// accepted is the number of messages of a node that the server took.
func (m *c19) accepted(i int) int {
	m.r.mtx.Lock()
	defer m.r.mtx.Unlock()
	k := 0
	for _, f := range m.r.accepted {
		if f.from == m.nodes[i].ident() {
			k++
		}
	}
	return k
}

func (m *c19) dump() string {
	s := ""
	for _, n := range m.nodes {
		s += fmt.Sprintf("--- %v online=%v\n%s", n, n.online(), hz.Trim(n.console(), 2500))
	}
	return s
}

// render is the line a reader sees.
func (m *c19) render(reader, from int, s *sentMsg) string {
	nick := m.nodes[reader].alias(&m.nodes[from].id.Public)
	if s.me {
		return fmt.Sprintf("T * %s %s", nick, s.text)
	}
	return fmt.Sprintf("T <%s> %s", nick, s.text)
}

var markRE = regexp.MustCompile(`\[(\d+)\]`)

// by says who typed a line, going by its marker; -1 when nobody did.
func (m *c19) by(l string) int {
	f := markRE.FindStringSubmatch(l)
	if f == nil {
		return -1
	}
	k, _ := strconv.Atoi(f[1])
	if i, ok := m.author[k]; ok {
		return i
	}
	return -1
}

func chatLines(lines []string) []string {
	var out []string
	for _, l := range lines {
		if strings.HasPrefix(l, "T <") || strings.HasPrefix(l, "T * ") {
			out = append(out, l)
		}
	}
	return out
}

// compare checks that got holds the expected lines in order, each once; the
// risky ones may be missing.
func compareLines(want []string, risky []bool, got []string) string {
	i := 0
	for _, g := range got {
		for i < len(want) && want[i] != g && risky[i] {
			i++
		}
		if i >= len(want) {
			return fmt.Sprintf("unexpected line %q", g)
		}
		if want[i] != g {
			return fmt.Sprintf("line %q where %q was due", g, want[i])
		}
		i++
	}
	for ; i < len(want); i++ {
		if !risky[i] {
			return fmt.Sprintf("missing line %q", want[i])
		}
	}
	return ""
}

// check compares every conversation log with what was typed.
func (m *c19) check(rt *rapid.T) {
	m.r.mtx.Lock()
	m.r.cutIn = 0
	m.r.hold = make(map[ident]bool)
	for _, u := range m.r.users {
		m.r.pump(u)
	}
	m.r.mtx.Unlock()
	for i := range m.nodes {
		m.nodes[i].z.Lock()
		m.nodes[i].z.offline = false
		m.nodes[i].z.Unlock()
	}
	m.settle(rt)
	if len(m.r.bad) != 0 {
		rt.Fatalf("the server had to end sessions: %v\nops %v\n%s", m.r.bad, m.ops, m.dump())
	}
	var verdict string
	if !eventually(10*time.Second, func() bool { verdict = m.verdict(); return verdict == "" }) {
		rt.Fatalf("%s\nops %v\nserver %v\n%s", verdict, m.ops, m.r.bad, m.dump())
	}
}

// verdict says what is wrong with the logs, if anything.
func (m *c19) verdict() string {
	taken := make(map[[2]ident]int)
	for _, f := range m.r.accepted[m.before:] {
		taken[[2]ident{f.from, f.to}]++
	}
	shown := make(map[[2]ident]int)
	for i, n := range m.nodes {
		logs := n.allLogs()
		for j, p := range m.nodes {
			if i == j {
				continue
			}
			f := filepath.Base(n.pmLog(&p.id.Public))
			got := chatLines(logs[f])
			delete(logs, f)
			// own lines: the echo of everything typed to p
			var own, theirs []string
			for _, l := range got {
				if m.by(l) == i {
					own = append(own, l)
				} else {
					theirs = append(theirs, l)
				}
			}
			var want []string
			for _, s := range m.sent[i] {
				if s.group == "" && s.to == j {
					want = append(want, m.render(i, i, s))
				}
			}
			if e := compareLines(want, make([]bool, len(want)), own); e != "" {
				return fmt.Sprintf("%v's own side of the conversation with %v: %s", n, p, e)
			}
			want = nil
			var risky []bool
			for _, s := range m.sent[j] {
				if s.group == "" && s.to == i {
					want = append(want, m.render(i, j, s))
					risky = append(risky, s.risky)
				}
			}
			shown[[2]ident{p.ident(), n.ident()}] += len(theirs)
			if e := compareLines(want, risky, theirs); e != "" {
				return fmt.Sprintf("what %v sees of %v: %s", n, p, e)
			}
		}
		f := filepath.Base(n.gcLog(m.w.group))
		got := chatLines(logs[f])
		delete(logs, f)
		for j, p := range m.nodes {
			var mine, want []string
			var risky []bool
			for _, l := range got {
				switch m.by(l) {
				case j:
					mine = append(mine, l)
				case -1:
					return fmt.Sprintf("%v's log of the group: nobody typed %q", n, l)
				}
			}
			if i != j {
				shown[[2]ident{p.ident(), n.ident()}] += len(mine)
			}
			for _, s := range m.sent[j] {
				if s.group != "" && m.inGroup(i) {
					want = append(want, m.render(i, j, s))
					risky = append(risky, s.risky && i != j)
				}
			}
			if e := compareLines(want, risky, mine); e != "" {
				return fmt.Sprintf("what %v sees of %v in the group: %s", n, p, e)
			}
		}
		if e := m.screens(i); e != "" {
			return e
		}
		for f, lines := range logs {
			if c := chatLines(lines); len(c) != 0 {
				return fmt.Sprintf("%v: chat lines in %s: %q", n, f, c)
			}
		}
		for _, l := range strings.Split(n.console(), "\n") {
			if strings.Contains(l, "could not decrypt") {
				hz.Class("redelivery refused by the ratchet")
			}
		}
	}
	// whatever the server accepted is shown
	for i, n := range m.nodes {
		for j, p := range m.nodes {
			k := [2]ident{n.ident(), p.ident()}
			if i != j && (shown[k] > taken[k] || shown[k]+m.pieces[[2]int{i, j}] < taken[k]) {
				return fmt.Sprintf("the server accepted %d messages of %v for %v, %d are shown", taken[k], n, p, shown[k])
			}
		}
	}
	return ""
}

// screens compares what the windows show with the logs: what is shown is the
// end of what was logged.
func (m *c19) screens(i int) string {
	n := m.nodes[i]
	type win struct {
		k   int
		log string
	}
	var wins []win
	n.z.RLock()
	for k, c := range n.z.conversation {
		switch {
		case k == 0:
		case c.group:
			wins = append(wins, win{k, n.gcLog(c.nick)})
		default:
			wins = append(wins, win{k, n.pmLog(c.id)})
		}
	}
	n.z.RUnlock()
	for _, w := range wins {
		shown := chatLines(n.screen(w.k))
		logged := chatLines(logLines(w.log))
		if len(shown) > len(logged) || !reflect.DeepEqual(shown, logged[len(logged)-len(shown):]) && len(shown) != 0 {
			return fmt.Sprintf("%v: window %d shows %q, the log %s ends with %q", n, w.k,
				shown, filepath.Base(w.log), logged[max(0, len(logged)-len(shown)-2):])
		}
	}
	if c := chatLines(n.screen(0)); len(c) != 0 {
		return fmt.Sprintf("%v: chat lines on the console: %q", n, c)
	}
	return ""
}

func sameGroup(a, b *node, group string) bool {
	x, ok := groupOf(a, group)
	y, ok2 := groupOf(b, group)
	return ok && ok2 && reflect.DeepEqual(x, y)
}

func groupOf(n *node, group string) (rpc.GroupList, bool) {
	n.z.RLock()
	defer n.z.RUnlock()
	g, ok := n.z.groups[group]
	g.Members = append([]ident(nil), g.Members...)
	return g, ok
}

func makeGang(rt hz.Fataler, r *relay, nodes []*node, gang string) {
	a := nodes[0]
	if err := a.cmd("/gc new %s", gang); err != nil {
		rt.Fatalf("gc new: %v", err)
	}
	for _, n := range nodes[1:] {
		if err := a.cmd("/gc invite %s %s", gang, n.nick()); err != nil {
			rt.Fatalf("invite: %v", err)
		}
		if !settle(r, nodes) {
			rt.Fatalf("invite does not settle")
		}
		var tok uint64
		if !eventually(20*time.Second, func() bool {
			tok = inviteToken(n, gang, a.ident())
			return tok != 0
		}) {
			rt.Fatalf("%v got no invitation", n)
		}
		if err := n.cmd("/gc join %s %d", gang, tok); err != nil {
			rt.Fatalf("join: %v", err)
		}
		if !settle(r, nodes) {
			rt.Fatalf("join does not settle")
		}
		if !eventually(20*time.Second, func() bool { return sameGroup(a, n, gang) }) {
			rt.Fatalf("%v did not join", n)
		}
	}
}

func TestC19Delivery(t *testing.T) {
	hz.CheckSteps(t, 30, 22, func(rt *rapid.T) {
		r := newRelay()
		wk := max(0, rapid.IntRange(-2, len(c19worlds)-1).Draw(rt, "world"))
		w := c19worlds[wk]
		nodes := world(rt, r, w.nicks...)
		m := &c19{w: w, r: r, nodes: nodes, author: make(map[int]int), pieces: make(map[[2]int]int), files: make([]int, 3), sent: make([][]*sentMsg, 3), inflight: make([][]*sentMsg, 3)}
		defer func() { destroyAll(r, m.nodes) }()
		if w.group != "" {
			var gang []*node
			for _, i := range w.members {
				gang = append(gang, nodes[i])
			}
			makeGang(rt, r, gang, w.group)
			// the making of the group is not part of the history
			for _, n := range nodes {
				os.Truncate(n.gcLog(w.group), 0)
			}
		}
		hz.ClassIf(wk > 0, "names coincide")
		m.before = len(r.accepted)
		m.typed, m.base = make([]int, len(nodes)), make([]int, len(nodes))
		for i := range nodes {
			m.base[i] = m.accepted(i)
		}
		send := func(rt *rapid.T) { m.opSend(rt, false) }
		gsend := func(rt *rapid.T) { m.opSend(rt, true) }
		rt.Repeat(map[string]func(*rapid.T){
			"send":    send,
			"send2":   send,
			"send3":   send,
			"gsend":   gsend,
			"gsend2":  gsend,
			"focus":   m.opFocus,
			"burst":   m.opBurst,
			"file":    m.opFile,
			"close":   m.opClose,
			"offline": m.opOffline,
			"online":  m.opOnline,
			"cut":     m.opCut,
			"hold":    m.opHold,
			"restart": m.opRestart,
			"settle":  m.settle,
		})
		m.check(rt)
		n := 0
		for i := range m.sent {
			n += len(m.sent[i])
		}
		risk := m.cutsSeen + m.offl + m.reload
		hz.ClassIf(m.cutsSeen > 0, "connection cut")
		hz.ClassIf(m.offl > 0, "offline")
		hz.ClassIf(m.reload > 0, "restart")
		hz.Case(n >= 3 && risk > 0, strings.Join(m.ops, ","), strings.Join(m.ops, " "))
	})
}
