//go:build go1.21

package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	"zkcverif/hz"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/rpc"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"pgregory.net/rapid"
)

// C21: a group's members are who its administrator made members.

type ug struct {
	u int
	g string
}

// joinTry is a join that was typed: u wants to join a's group g.
type joinTry struct {
	a, u int
	g    string
}

type c21 struct {
	r     *relay
	nodes []*node

	// what the clients of the administrators said when all was quiet
	lists map[ug]rpc.GroupList // by administrator
	local map[ug]rpc.GroupList

	// typed since then
	joins map[joinTry]bool
	outs  map[joinTry]bool // kicked or left
	kills map[ug]bool
	news  map[ug]bool
	typed map[joinTry][]uint64 // with these invitations
	used  map[joinTry]uint64   // the one that made u a member

	forced  map[ug]bool // left without telling
	phantom map[ug]bool // joined what does not exist (any more)

	late   []*item
	lateTo []ident
	lossy  bool
	seq    int
	ops    []string
	forges int
	stress int
	change int
	known  map[ident]int

	fronts  []string     // what each looks at
	touched map[int]bool // may look at something else meanwhile
}

var c21names = []string{"gang", "x_1", "Crew.9@z-X"}

// groupsOf is what a client has in memory.
func groupsOf(n *node) map[string]rpc.GroupList {
	n.z.RLock()
	defer n.z.RUnlock()
	m := make(map[string]rpc.GroupList)
	for k, v := range n.z.groups {
		v.Members = append([]ident(nil), v.Members...)
		m[k] = v
	}
	return m
}

// groupsOnDisk is what a client will have after a restart.
func groupsOnDisk(n *node) map[string]rpc.GroupList {
	m := make(map[string]rpc.GroupList)
	fs, err := os.ReadDir(filepath.Join(n.root, groupchatDir))
	hz.Must(err)
	for _, f := range fs {
		b, err := os.ReadFile(filepath.Join(n.root, groupchatDir, f.Name()))
		hz.Must(err)
		var g rpc.GroupList
		if _, err := xdr.Unmarshal(bytes.NewReader(b), &g); err != nil {
			g.Name = "?" + err.Error()
		}
		m[f.Name()] = g
	}
	return m
}

// inviteDB reads invitations (given or received).
func inviteDB(n *node, file string) map[string]map[ident]rpc.GroupInvite {
	m := make(map[string]map[ident]rpc.GroupInvite)
	db, err := inidb.New(filepath.Join(n.root, file), false, 10)
	if err != nil {
		return m
	}
	for _, g := range db.Tables() {
		m[g] = make(map[ident]rpc.GroupInvite)
		for k, v := range db.Records(g) {
			b, err := base64.StdEncoding.DecodeString(v)
			hz.Must(err)
			var gi rpc.GroupInvite
			_, err = xdr.Unmarshal(bytes.NewReader(b), &gi)
			hz.Must(err)
			kb, err := hex.DecodeString(k)
			hz.Must(err)
			var id ident
			copy(id[:], kb)
			m[g][id] = gi
		}
	}
	return m
}

func (m *c21) invited(a, u int, g string) (rpc.GroupInvite, bool) {
	gi, ok := inviteDB(m.nodes[a], invitesPath)[g][m.nodes[u].ident()]
	return gi, ok
}

func (m *c21) index(id ident) int {
	if i, ok := m.known[id]; ok {
		return i
	}
	return -1
}

func (m *c21) isIn(gl rpc.GroupList, u int) bool {
	for _, id := range gl.Members {
		if id == m.nodes[u].ident() {
			return true
		}
	}
	return false
}

func (m *c21) owner(gl rpc.GroupList) int {
	if len(gl.Members) == 0 {
		return -1
	}
	return m.index(gl.Members[0])
}

func (m *c21) show(gl rpc.GroupList) string {
	s := fmt.Sprintf("%s#%d:", gl.Name, gl.Generation)
	for _, id := range gl.Members {
		i := m.index(id)
		if i < 0 {
			s += " ?"
			continue
		}
		s += " " + m.nodes[i].nick()
	}
	return s
}

func (m *c21) op(format string, args ...interface{}) {
	m.ops = append(m.ops, fmt.Sprintf(format, args...))
}

func (m *c21) fail(rt *rapid.T, format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...) + fmt.Sprintf("\nops: %s\n", strings.Join(m.ops, ", "))
	for _, n := range m.nodes {
		s += fmt.Sprintf("--- %v online=%v", n, n.online())
		gs := groupsOf(n)
		for _, g := range sortedKeys(gs) {
			s += " [" + m.show(gs[g]) + "]"
		}
		s += "\n" + hz.Trim(n.console(), 1500)
	}
	rt.Fatalf("%s", s)
}

func (m *c21) who(rt *rapid.T, what string) int {
	return rapid.IntRange(0, len(m.nodes)-1).Draw(rt, what)
}

// other is somebody else.
func (m *c21) other(rt *rapid.T, what string, i int) int {
	return (i + rapid.IntRange(1, len(m.nodes)-1).Draw(rt, what)) % len(m.nodes)
}

// theirs says whether a group is the user's own.
func (m *c21) theirs(u int, gl rpc.GroupList) bool { return m.owner(gl) == u }

// pickMostly prefers the groups that satisfy f.
func (m *c21) pickMostly(rt *rapid.T, f func(u int, gl rpc.GroupList) bool) (int, rpc.GroupList, bool) {
	if rapid.IntRange(0, 5).Draw(rt, "any") != 0 {
		if u, gl, ok := m.pick(rt, f); ok {
			return u, gl, ok
		}
	}
	return m.pick(rt, func(u int, gl rpc.GroupList) bool { return true })
}

// pick chooses one of the groups (by user) that satisfy f.
func (m *c21) pick(rt *rapid.T, f func(u int, gl rpc.GroupList) bool) (int, rpc.GroupList, bool) {
	var us []int
	var gls []rpc.GroupList
	for i, n := range m.nodes {
		gs := groupsOf(n)
		for _, k := range sortedKeys(gs) {
			if f(i, gs[k]) {
				us = append(us, i)
				gls = append(gls, gs[k])
			}
		}
	}
	if len(us) == 0 {
		return 0, rpc.GroupList{}, false
	}
	k := rapid.IntRange(0, len(us)-1).Draw(rt, "which")
	return us[k], gls[k], true
}

// letGo releases all that is held back; lock held.
func (m *c21) letGo() {
	m.r.onCache = nil
	m.r.hold = make(map[ident]bool)
	for i, it := range m.late {
		m.r.enqueue(it.from, m.lateTo[i], it.payload, false)
	}
	m.late, m.lateTo = nil, nil
	for _, u := range m.r.users {
		m.r.pump(u)
	}
}

// quiet lets everything arrive and compares the clients.
func (m *c21) quiet(rt *rapid.T) {
	m.r.mtx.Lock()
	m.r.cutIn = 0
	m.letGo()
	m.r.mtx.Unlock()
	for round := 0; ; round++ {
		again := false
		for _, n := range m.nodes {
			if !n.online() {
				n.connect(rt)
				again = true
			}
		}
		if !settleHard(m.r, m.nodes) {
			m.fail(rt, "the clients do not come to rest")
		}
		for _, n := range m.nodes {
			again = again || !n.online()
		}
		if !again {
			break
		}
		if round > 10 {
			m.fail(rt, "sessions keep ending: %v", m.r.bad)
		}
	}
	if len(m.r.bad) != 0 {
		m.fail(rt, "the server had to end sessions: %v", m.r.bad)
	}
	var why string
	if !eventually(5*time.Second, func() bool { why = m.verdict(); return why == "" }) {
		m.fail(rt, "%s", why)
	}
	for i, n := range m.nodes {
		if f := front(n); f != m.fronts[i] && !m.touched[i] {
			m.fail(rt, "%v looked at %q, is taken to %q", n, m.fronts[i], f)
		}
	}
	m.sync()
}

// sync takes the present as the start of what follows.
func (m *c21) sync() {
	m.lists, m.local = make(map[ug]rpc.GroupList), make(map[ug]rpc.GroupList)
	for i, n := range m.nodes {
		for g, gl := range groupsOf(n) {
			m.local[ug{i, g}] = gl
			if m.owner(gl) == i {
				m.lists[ug{i, g}] = gl
			}
		}
	}
	for k := range m.forced {
		in := false
		for a := range m.nodes {
			in = in || m.isIn(m.lists[ug{a, k.g}], k.u)
		}
		if !in {
			delete(m.forced, k)
		}
	}
	for k := range m.phantom {
		if _, ok := m.local[k]; !ok {
			delete(m.phantom, k)
		}
	}
	for j, toks := range m.typed {
		if m.joins[j] && m.isIn(m.lists[ug{j.a, j.g}], j.u) && len(toks) == 1 {
			m.used[j] = toks[0]
		}
	}
	m.typed = make(map[joinTry][]uint64)
	m.joins, m.outs = make(map[joinTry]bool), make(map[joinTry]bool)
	m.kills, m.news = make(map[ug]bool), make(map[ug]bool)
	m.fronts, m.touched = nil, make(map[int]bool)
	for _, n := range m.nodes {
		m.fronts = append(m.fronts, front(n))
	}
}

// verdict says what is wrong with the groups of the clients, if anything.
func (m *c21) verdict() string {
	now := make([]map[string]rpc.GroupList, len(m.nodes))
	for i, n := range m.nodes {
		now[i] = groupsOf(n)
		if d := groupsOnDisk(n); !reflect.DeepEqual(d, now[i]) && len(d)+len(now[i]) != 0 {
			return fmt.Sprintf("%v has groups %v in memory, %v on disk", n, now[i], d)
		}
	}
	// the lists of the administrators
	for a, n := range m.nodes {
		for _, g := range c21names {
			k := ug{a, g}
			was, had := m.lists[k]
			is, has := now[a][g]
			has = has && m.owner(is) == a
			switch {
			case m.kills[k] && has:
				return fmt.Sprintf("%v killed %s, it is still there", n, g)
			case m.kills[k]:
				continue
			case (had || m.news[k]) && !has:
				return fmt.Sprintf("%v's %s is gone", n, g)
			case !had && !m.news[k] && has:
				return fmt.Sprintf("%v has a group %s that nobody made", n, g)
			case !has:
				continue
			}
			if is.Name != g {
				return fmt.Sprintf("%v: group %s is named %q", n, g, is.Name)
			}
			seen := make(map[int]bool)
			for _, id := range is.Members {
				i := m.index(id)
				if i < 0 || seen[i] {
					return fmt.Sprintf("%v: members of %s: unknown or twice", n, m.show(is))
				}
				seen[i] = true
			}
			changed := false
			for u := range m.nodes {
				if u == a {
					continue
				}
				j := joinTry{a, u, g}
				in, before := seen[u], had && m.isIn(was, u)
				changed = changed || in != before
				switch {
				case in && !before && !m.joins[j]:
					return fmt.Sprintf("%v is in %v's list %s without having joined", m.nodes[u], n, m.show(is))
				case !in && before && !m.outs[j]:
					return fmt.Sprintf("%v is not in %v's list %s any more, was neither kicked nor left", m.nodes[u], n, m.show(is))
				case m.lossy:
				case !in && m.joins[j] && !m.outs[j]:
					return fmt.Sprintf("%v joined, is not in %v's list %s", m.nodes[u], n, m.show(is))
				case in && m.outs[j] && !m.joins[j]:
					return fmt.Sprintf("%v was kicked or left, is still in %v's list %s", m.nodes[u], n, m.show(is))
				}
			}
			if had && changed && is.Generation <= was.Generation {
				return fmt.Sprintf("%v: %s became %s, an older generation", n, m.show(was), m.show(is))
			}
		}
	}
	// everybody else's
	for u, n := range m.nodes {
		for _, g := range sortedKeys(now[u]) {
			is := now[u][g]
			a := m.owner(is)
			k := ug{u, g}
			if a == u {
				continue
			}
			if a == -1 {
				return fmt.Sprintf("%v: %s has no administrator: %s", n, g, m.show(is))
			}
			was, had := m.local[k]
			joined := false
			for j := range m.joins {
				joined = joined || j.u == u && j.g == g && j.a == a
			}
			if (!had || m.owner(was) != a) && !joined {
				return fmt.Sprintf("%v is in %s without having joined", n, m.show(is))
			}
			al, ok := now[a][g]
			if ok && m.owner(al) == a && m.isIn(al, u) {
				if !m.lossy && !reflect.DeepEqual(al, is) {
					return fmt.Sprintf("%v has %s, its administrator %v %s", n, m.show(is), m.nodes[a], m.show(al))
				}
				continue
			}
			if m.lossy {
				continue
			}
			if joined && (m.kills[ug{a, g}] || !ok || m.owner(al) != a) {
				m.phantom[k] = true
			}
			if !m.phantom[k] {
				return fmt.Sprintf("%v has %s, %v does not think so", n, m.show(is), m.nodes[a])
			}
		}
		for a, p := range m.nodes {
			for _, g := range sortedKeys(now[a]) {
				al := now[a][g]
				if a == u || m.owner(al) != a || !m.isIn(al, u) || m.lossy || m.forced[ug{u, g}] {
					continue
				}
				if gl, ok := now[u][g]; !ok || m.owner(gl) != a {
					return fmt.Sprintf("%v has %v in %s, %v does not", p, n, m.show(al), n)
				}
			}
		}
	}
	return ""
}

// ops

func (m *c21) maybeQuiet(rt *rapid.T) {
	if rapid.Bool().Draw(rt, "calm") {
		m.quiet(rt)
	}
}

func (m *c21) opNew(rt *rapid.T) {
	m.quiet(rt)
	a := m.who(rt, "who")
	n := m.nodes[a]
	if rapid.IntRange(0, 5).Draw(rt, "bad") == 0 {
		g := rapid.SampledFrom([]string{"..", ".", "a/b", "../x", "a!", "é", "[a]", "a=b"}).Draw(rt, "badname")
		if err := n.cmd("/gc new %s", g); err == nil {
			m.fail(rt, "%v made a group named %q", n, g)
		}
		if _, ok := groupsOf(n)[g]; ok {
			m.fail(rt, "%v has a group named %q that could not be made", n, g)
		}
		return
	}
	g := rapid.SampledFrom(c21names).Draw(rt, "name")
	_, had := m.local[ug{a, g}]
	err := n.cmd("/gc new %s", g)
	if had != (err != nil) {
		m.fail(rt, "%v: /gc new %s (had it %v): %v", n, g, had, err)
	}
	if err == nil {
		m.news[ug{a, g}] = true
	}
	m.op("%v new %s", n, g)
	m.quiet(rt)
}

func (m *c21) opInvite(rt *rapid.T) {
	m.maybeQuiet(rt)
	a, gl, ok := m.pickMostly(rt, m.theirs)
	if !ok {
		return
	}
	n, u := m.nodes[a], m.other(rt, "invitee", a)
	_, already := m.invited(a, u, gl.Name)
	err := n.cmd("/gc invite %s %s", gl.Name, m.nodes[u].nick())
	if m.owner(gl) != a {
		if err == nil {
			m.fail(rt, "%v can invite to %s", n, m.show(gl))
		}
		return
	}
	in := m.isIn(gl, u)
	if err != nil && !already && !in {
		if now, ok := groupsOf(n)[gl.Name]; ok && m.owner(now) == a && !m.isIn(now, u) {
			m.fail(rt, "%v cannot invite %v to %s: %v", n, m.nodes[u], m.show(gl), err)
		}
	}
	if err == nil && in {
		if now := groupsOf(n)[gl.Name]; m.isIn(now, u) {
			m.fail(rt, "%v could invite %v to %s", n, m.nodes[u], m.show(gl))
		}
	}
	m.op("%v invite %v %s %v", n, m.nodes[u], gl.Name, err == nil)
}

func (m *c21) opJoin(rt *rapid.T) {
	m.maybeQuiet(rt)
	type cand struct {
		a, u int
		gi   rpc.GroupInvite
	}
	var cs []cand
	for u, n := range m.nodes {
		db := inviteDB(n, joinsPath)
		for _, g := range sortedKeys(db) {
			var as []int
			for id := range db[g] {
				as = append(as, m.index(id))
			}
			sort.Ints(as)
			for _, a := range as {
				cs = append(cs, cand{a, u, db[g][m.nodes[a].ident()]})
			}
		}
	}
	if len(cs) == 0 {
		return
	}
	c := cs[rapid.IntRange(0, len(cs)-1).Draw(rt, "invitation")]
	n, g, tok := m.nodes[c.u], c.gi.Name, c.gi.Token
	wrong := rapid.IntRange(0, 4).Draw(rt, "wrong") == 0
	if wrong {
		tok++
		for _, o := range cs {
			if o.u == c.u && o.gi.Token == tok {
				return
			}
		}
	}
	was, had := groupsOf(n)[g]
	j := joinTry{c.a, c.u, g}
	gi, valid := m.invited(c.a, c.u, g)
	valid = valid && gi.Token == tok && gi.Expires > time.Now().Unix()
	if valid && !wrong {
		m.joins[j] = true
		m.typed[j] = append(m.typed[j], tok)
	}
	m.touched[c.u] = true // the new group comes to the front
	err := n.cmd("/gc join %s %d", g, tok)
	switch {
	case wrong && err == nil:
		m.fail(rt, "%v joined %s with a wrong token", n, g)
	case had && err == nil:
		if is := groupsOf(n)[g]; reflect.DeepEqual(was, is) {
			break // kicked in between
		}
	case !had && !wrong && err != nil:
		m.fail(rt, "%v cannot join %v's %s: %v", n, m.nodes[c.a], g, err)
	}
	if err != nil {
		delete(m.joins, j)
	} else {
		m.joins[j] = m.joins[j]
		if !valid {
			// nobody will admit the user
			m.phantom[ug{c.u, g}] = true
			delete(m.joins, j)
			m.local[ug{c.u, g}] = groupsOf(n)[g]
		}
		m.change++
	}
	m.op("%v join %v's %s valid=%v wrong=%v err=%v", n, m.nodes[c.a], g, valid, wrong, err != nil)
}

// opAdmit: invite and join.
func (m *c21) opAdmit(rt *rapid.T) {
	m.maybeQuiet(rt)
	a, gl, ok := m.pick(rt, m.theirs)
	if !ok {
		return
	}
	u := m.other(rt, "invitee", a)
	n, p := m.nodes[a], m.nodes[u]
	if _, had := groupsOf(p)[gl.Name]; had || !n.online() || !p.online() || m.isIn(gl, u) {
		return
	}
	crowd := rapid.Bool().Draw(rt, "crowd")
	for i, o := range m.nodes {
		if i == u || i != a && crowd && !m.isIn(gl, i) {
			if err := n.cmd("/gc invite %s %s", gl.Name, o.nick()); err == nil {
				m.op("%v invite %v %s", n, o, gl.Name)
			}
		}
	}
	for i := 0; ; i++ {
		gi, ok := m.invited(a, u, gl.Name)
		if mine, got := inviteDB(p, joinsPath)[gl.Name][n.ident()]; ok && got && mine.Token == gi.Token {
			if gi.Expires > time.Now().Unix() {
				break
			}
			return
		}
		if i > 20 {
			return // on hold, or late
		}
		time.Sleep(time.Millisecond)
		n.barrier()
	}
	if _, had := groupsOf(p)[gl.Name]; had {
		return
	}
	gi, _ := m.invited(a, u, gl.Name)
	j := joinTry{a, u, gl.Name}
	m.joins[j] = true
	m.typed[j] = append(m.typed[j], gi.Token)
	m.touched[u] = true
	if err := p.cmd("/gc join %s %d", gl.Name, gi.Token); err != nil {
		m.fail(rt, "%v cannot join %v's %s: %v", p, n, gl.Name, err)
	}
	m.change++
	m.op("%v join %v's %s", p, n, gl.Name)
}

func (m *c21) opKick(rt *rapid.T) {
	talk := rapid.Bool().Draw(rt, "talk")
	if talk {
		m.quiet(rt)
	} else {
		m.maybeQuiet(rt)
	}
	a, gl, ok := m.pickMostly(rt, m.theirs)
	if !ok {
		return
	}
	n := m.nodes[a]
	u := m.who(rt, "kickee")
	if k := len(gl.Members); k > 1 && rapid.IntRange(0, 4).Draw(rt, "member") != 0 {
		u = m.index(gl.Members[rapid.IntRange(1, k-1).Draw(rt, "kth")])
	}
	name := m.nodes[u].nick()
	if rapid.IntRange(0, 3).Draw(rt, "byid") == 0 || u == a {
		name = hexid(m.nodes[u].ident())
	}
	j := joinTry{a, u, gl.Name}
	if m.owner(gl) == a && u != a {
		m.outs[j] = true
	}
	out := m.framesTo(a, u)
	err := n.cmd("/gc kick %s %s", gl.Name, name)
	if m.owner(gl) != a || u == a {
		if err == nil {
			if now := groupsOf(n)[gl.Name]; m.owner(now) != a || u == a {
				m.fail(rt, "%v could kick %v from %s", n, m.nodes[u], m.show(gl))
			}
		}
		return
	}
	if err != nil {
		m.fail(rt, "%v cannot kick %v from %s: %v", n, m.nodes[u], m.show(gl), err)
	}
	m.change++
	m.op("%v kick %v %s", n, m.nodes[u], gl.Name)
	if !talk {
		return
	}
	// what is said after that is not for the one who was kicked
	m.seq++
	text := fmt.Sprintf("[after %d]", m.seq)
	if err := n.cmd("/gc m %s %s", gl.Name, text); err != nil {
		m.fail(rt, "%v cannot write to %s: %v", n, gl.Name, err)
	}
	m.op("talk")
	if m.lossy {
		return
	}
	m.quiet(rt)
	want := out
	if m.isIn(gl, u) {
		want++
	}
	if got := m.framesTo(a, u); got > want {
		m.fail(rt, "%v sent %d messages to %v, which was kicked from %s", n, got-out, m.nodes[u], gl.Name)
	}
}

// framesTo is the number of messages of one user for another that the server
// took.
func (m *c21) framesTo(a, u int) int {
	m.r.mtx.Lock()
	defer m.r.mtx.Unlock()
	k := 0
	for _, f := range m.r.accepted {
		if f.from == m.nodes[a].ident() && f.to == m.nodes[u].ident() {
			k++
		}
	}
	return k
}

func (m *c21) opPart(rt *rapid.T) {
	m.maybeQuiet(rt)
	u, gl, ok := m.pickMostly(rt, func(u int, gl rpc.GroupList) bool { return !m.theirs(u, gl) })
	if !ok {
		return
	}
	n := m.nodes[u]
	a := m.owner(gl)
	j := joinTry{a, u, gl.Name}
	had := m.outs[j]
	m.outs[j] = true
	err := n.cmd("/gc part %s", gl.Name)
	if a == u && err == nil {
		m.fail(rt, "%v left its own group %s", n, m.show(gl))
	}
	if err != nil {
		m.outs[j] = had
		if !had {
			delete(m.outs, j)
		}
		if _, still := groupsOf(n)[gl.Name]; still && a != u {
			m.fail(rt, "%v cannot leave %s: %v", n, m.show(gl), err)
		}
		return
	}
	m.change++
	m.op("%v part %s", n, gl.Name)
}

func (m *c21) opForce(rt *rapid.T) {
	m.quiet(rt)
	u, gl, ok := m.pick(rt, func(i int, gl rpc.GroupList) bool { return m.owner(gl) != i })
	if !ok {
		return
	}
	n := m.nodes[u]
	if err := n.cmd("/gc part %s force", gl.Name); err != nil {
		m.fail(rt, "%v cannot leave %s: %v", n, m.show(gl), err)
	}
	m.forced[ug{u, gl.Name}] = true
	m.op("%v force %s", n, gl.Name)
	m.quiet(rt)
}

func (m *c21) opKill(rt *rapid.T) {
	m.maybeQuiet(rt)
	a, gl, ok := m.pickMostly(rt, m.theirs)
	if !ok {
		return
	}
	n := m.nodes[a]
	if m.owner(gl) == a && n.online() {
		m.kills[ug{a, gl.Name}] = true
	}
	err := n.cmd("/gc kill %s", gl.Name)
	if m.owner(gl) != a {
		if err == nil {
			m.fail(rt, "%v could kill %s", n, m.show(gl))
		}
		return
	}
	m.op("%v kill %s %v", n, gl.Name, err == nil)
	if err != nil {
		delete(m.kills, ug{a, gl.Name})
		if n.online() {
			m.fail(rt, "%v cannot kill %s: %v", n, m.show(gl), err)
		}
		return
	}
	m.change++
	m.quiet(rt)
}

// opTalk: what a member says is shown by all members and sent to nobody else.
func (m *c21) opTalk(rt *rapid.T) {
	if m.lossy {
		return
	}
	m.quiet(rt)
	u, gl, ok := m.pick(rt, func(i int, gl rpc.GroupList) bool { return true })
	if !ok {
		return
	}
	n := m.nodes[u]
	m.seq++
	text := fmt.Sprintf("[talk %d]", m.seq)
	before := make([]int, len(m.nodes))
	for i := range m.nodes {
		before[i] = m.framesTo(u, i)
	}
	if err := n.cmd("/gc m %s %s", gl.Name, text); err != nil {
		m.fail(rt, "%v cannot write to %s: %v", n, gl.Name, err)
	}
	m.op("%v talk %s", n, gl.Name)
	m.quiet(rt)
	for i, p := range m.nodes {
		if i == u {
			continue
		}
		k := m.framesTo(u, i) - before[i]
		want := 0
		if m.isIn(gl, i) {
			want = 1
		}
		if k != want {
			m.fail(rt, "%v wrote to %s: %d messages went to %v", n, m.show(gl), k, p)
		}
		is, has := m.local[ug{i, gl.Name}]
		shows := has && want == 1 && m.isIn(is, u)
		line := fmt.Sprintf("T <%s> %s", n.nick(), text)
		got := 0
		for _, l := range logLines(p.gcLog(gl.Name)) {
			if l == line {
				got++
			}
		}
		if shows != (got == 1) || got > 1 {
			m.fail(rt, "%v wrote to %s, %v (%s) shows it %d times", n, m.show(gl), p, m.show(is), got)
		}
	}
}

var claimRE = regexp.MustCompile(`^T? ?[-+] |has left|has joined|you left|you joined|left group|joined group|kicked|group chat killed|\[forged`)

func claims(lines []string) (c []string) {
	for _, l := range lines {
		if claimRE.MatchString(l) {
			c = append(c, l)
		}
	}
	return
}

// opForge: somebody sends what only others may send. Nothing comes of it.
func (m *c21) opForge(rt *rapid.T) {
	m.quiet(rt)
	v, gl, ok := m.pick(rt, func(i int, gl rpc.GroupList) bool { return true })
	if !ok {
		return
	}
	w := m.other(rt, "forger", v)
	m.seq++
	reason := fmt.Sprintf("[forged %d]", m.seq)
	a := m.owner(gl)
	victim, forger := m.nodes[v], m.nodes[w]
	someone := m.nodes[m.who(rt, "someone")].ident()
	makeList := func() rpc.GroupList {
		l := rpc.GroupList{Name: gl.Name, Timestamp: gl.Timestamp,
			Generation: gl.Generation + uint64(rapid.SampledFrom([]int{1, 0, 5, -1, 1000}).Draw(rt, "gen"))}
		switch rapid.IntRange(0, 4).Draw(rt, "members") {
		case 0:
			l.Members = []ident{forger.ident(), victim.ident()}
		case 1:
			l.Members = append(append([]ident(nil), gl.Members...), forger.ident())
		case 2:
			l.Members = []ident{gl.Members[0], forger.ident(), victim.ident()}
		case 3:
			for _, id := range gl.Members {
				if id != someone {
					l.Members = append(l.Members, id)
				}
			}
			if len(l.Members) == 0 {
				l.Members = []ident{someone}
			}
		case 4:
			l.Members = append([]ident{forger.ident()}, gl.Members...)
		}
		return l
	}
	var msg interface{}
	var what string
	kind := rapid.IntRange(0, 8).Draw(rt, "kind")
	if w == a {
		// an administrator may do much, but not everything
		what = "bad list of the administrator"
		l := rpc.GroupList{Name: gl.Name, Generation: gl.Generation + 7, Timestamp: 1}
		switch kind % 4 {
		case 0:
			what = "administrator gives the group away"
			l.Members = append([]ident{someone}, gl.Members...)
			if someone == forger.ident() {
				l.Members[0] = victim.ident()
			}
		case 1:
			what = "old list"
			l.Generation = gl.Generation
			if gl.Generation > 0 && rapid.Bool().Draw(rt, "older") {
				l.Generation--
			}
			l.Members = []ident{forger.ident(), victim.ident(), {1}}
		case 2:
			what = "empty list"
		case 3:
			what = "administrator leaves"
			l.Members = []ident{victim.ident()}
		}
		switch {
		case kind%4 == 1 && kind >= 4:
			msg = rpc.GroupKick{Member: ident{9}, Reason: reason, NewGroupList: l}
		case kind%4 == 1 || kind < 4:
			msg = l
		case kind < 6:
			msg = rpc.GroupUpdate{Reason: reason, NewGroupList: l}
		default:
			msg = rpc.GroupKick{Member: ident{9}, Reason: reason, NewGroupList: l}
		}
	} else {
		switch kind {
		case 0:
			what, msg = "list", makeList()
		case 1:
			what, msg = "update", rpc.GroupUpdate{Reason: reason, NewGroupList: makeList()}
		case 2, 3:
			k := rpc.GroupKick{Member: someone, Reason: reason, Parted: rapid.Bool().Draw(rt, "parted"), NewGroupList: makeList()}
			if kind == 3 {
				k.Member = victim.ident()
			}
			what, msg = "kick", k
		case 4:
			what, msg = "kill", rpc.GroupKill{Name: gl.Name, Reason: reason}
		case 5:
			if a == v && m.isIn(gl, w) {
				return // may leave
			}
			what, msg = "part", rpc.GroupPart{Name: gl.Name, Reason: reason}
		case 6, 7:
			tok := uint64(rapid.IntRange(0, 999999).Draw(rt, "token"))
			if kind == 7 {
				// the token of somebody else, another group, or a used one
				var toks []uint64
				for _, file := range []string{invitesPath, joinsPath} {
					for _, p := range m.nodes {
						db := inviteDB(p, file)
						for _, g := range sortedKeys(db) {
							for _, gi := range db[g] {
								toks = append(toks, gi.Token)
							}
						}
					}
				}
				sort.Slice(toks, func(i, j int) bool { return toks[i] < toks[j] })
				for _, j := range m.usedKeys() {
					toks = append(toks, m.used[j])
				}
				if len(toks) == 0 {
					return
				}
				tok = toks[rapid.IntRange(0, len(toks)-1).Draw(rt, "tok")]
			}
			if gi, ok := m.invited(v, w, gl.Name); ok && gi.Token == tok && m.used[joinTry{v, w, gl.Name}] != tok {
				return // that would be right
			}
			what, msg = "join", rpc.GroupJoin{Name: gl.Name, Token: tok}
		case 8:
			if m.isIn(gl, w) {
				return
			}
			what, msg = "message", rpc.GroupMessage{Name: gl.Name, Generation: gl.Generation, Message: reason}
		}
	}
	m.op("forge %v>%v %s %s", forger, victim, what, gl.Name)
	m.forges++
	hz.Class("forged " + what)
	before, bcon, bfront := victim.allLogs(), claims(strings.Split(victim.console(), "\n")), front(victim)
	to := victim.ident()
	forger.keys(0, func() { forger.z.scheduleCRPC(true, &to, msg) })
	m.quiet(rt)
	for _, n := range m.nodes {
		i := m.index(n.ident())
		for g, is := range groupsOf(n) {
			if was := m.local[ug{i, g}]; !reflect.DeepEqual(was, is) {
				m.fail(rt, "after a forged %s %v has %s", what, n, m.show(is))
			}
		}
	}
	now := groupsOf(victim)[gl.Name]
	if !reflect.DeepEqual(now, gl) {
		m.fail(rt, "forged %s of %v changed %v's %s to %s", what, forger, victim, m.show(gl), m.show(now))
	}
	if after := victim.allLogs(); !reflect.DeepEqual(before, after) {
		for f, l := range after {
			if !reflect.DeepEqual(before[f], l) && len(claims(l)) != len(claims(before[f])) {
				m.fail(rt, "forged %s of %v: %v shows in %s: %q", what, forger, victim, f, l[len(before[f]):])
			}
		}
	}
	if acon := claims(strings.Split(victim.console(), "\n")); len(acon) != len(bcon) {
		m.fail(rt, "forged %s of %v: %v says %q", what, forger, victim, acon[len(bcon):])
	}
	if f := front(victim); f != bfront {
		m.fail(rt, "forged %s of %v: %v now looks at %q", what, forger, victim, f)
	}
}

func (m *c21) usedKeys() (js []joinTry) {
	for j := range m.used {
		js = append(js, j)
	}
	sort.Slice(js, func(i, k int) bool {
		a, b := js[i], js[k]
		return a.g < b.g || a.g == b.g && (a.a < b.a || a.a == b.a && a.u < b.u)
	})
	return
}

// opReuse: an invitation is good for once.
func (m *c21) opReuse(rt *rapid.T) {
	m.quiet(rt)
	js := m.usedKeys()
	if len(js) == 0 {
		return
	}
	j := js[rapid.IntRange(0, len(js)-1).Draw(rt, "invitation")]
	n, p := m.nodes[j.a], m.nodes[j.u]
	gl, ok := groupsOf(n)[j.g]
	if !ok || m.owner(gl) != j.a {
		return
	}
	if m.isIn(gl, j.u) {
		m.outs[j] = true
		m.change++
		m.op("%v kick %v %s", n, p, j.g)
		if err := n.cmd("/gc kick %s %s", j.g, p.nick()); err != nil {
			m.fail(rt, "%v cannot kick %v from %s: %v", n, p, m.show(gl), err)
		}
		if rapid.Bool().Draw(rt, "calm") {
			m.quiet(rt)
		}
	}
	to := n.ident()
	p.keys(0, func() { p.z.scheduleCRPC(true, &to, rpc.GroupJoin{Name: j.g, Token: m.used[j]}) })
	m.op("%v joins %s again with the same invitation", p, j.g)
	m.forges++
	m.quiet(rt)
	hz.Class("invitation used twice")
}

// opFakeInvite: somebody invites to a group that does not exist, or exists
// elsewhere.
func (m *c21) opFakeInvite(rt *rapid.T) {
	m.quiet(rt)
	w := m.who(rt, "from")
	v := m.other(rt, "to", w)
	g := rapid.SampledFrom(append([]string{"..", "a/../../b", "a]\n[b", "x\ny=z", ""}, c21names...)).Draw(rt, "name")
	to := m.nodes[v].ident()
	msg := rpc.GroupInvite{Name: g, Token: uint64(m.seq + 2000000), Description: "x", Expires: time.Now().Unix() + 1000,
		Members: []string{m.nodes[v].nick(), m.nodes[w].nick()}}
	m.seq++
	others := inviteDB(m.nodes[v], joinsPath)
	m.nodes[w].keys(0, func() { m.nodes[w].z.scheduleCRPC(true, &to, msg) })
	m.op("fake invite %v>%v %q", m.nodes[w], m.nodes[v], g)
	m.quiet(rt)
	now := inviteDB(m.nodes[v], joinsPath)
	for gg, recs := range others {
		for id, gi := range recs {
			if (gg != g || id != m.nodes[w].ident()) && !reflect.DeepEqual(now[gg][id], gi) {
				m.fail(rt, "an invitation of %v to %q changed the one to %q", m.nodes[w], g, gg)
			}
		}
	}
	for gg, recs := range now {
		for id := range recs {
			if _, ok := others[gg][id]; !ok && (gg != g || id != m.nodes[w].ident()) {
				m.fail(rt, "an invitation of %v to %q is recorded as one of %v to %q", m.nodes[w], g, m.index(id), gg)
			}
		}
	}
}

// opExpire: a day goes by.
func (m *c21) opExpire(rt *rapid.T) {
	m.quiet(rt)
	a := m.who(rt, "whose")
	n := m.nodes[a]
	db, err := inidb.New(filepath.Join(n.root, invitesPath), false, 10)
	if err != nil {
		return
	}
	all := inviteDB(n, invitesPath)
	for g, recs := range all {
		for id, gi := range recs {
			gi.Expires = time.Now().Unix() - 10
			var b bytes.Buffer
			_, err := xdr.Marshal(&b, gi)
			hz.Must(err)
			hz.Must(db.Set(g, hexid(id), base64.StdEncoding.EncodeToString(b.Bytes())))
		}
	}
	hz.Must(db.Save())
	m.stress++
	hz.Class("invitations expired")
	m.op("expire %v", n)
}

func (m *c21) opLate(rt *rapid.T) {
	from := m.who(rt, "from")
	to := m.other(rt, "to", from)
	f, t := m.nodes[from].ident(), m.nodes[to].ident()
	m.r.mtx.Lock()
	defer m.r.mtx.Unlock()
	if m.r.onCache != nil {
		return
	}
	left := rapid.IntRange(1, 2).Draw(rt, "count")
	m.r.onCache = func(c *rconn, from ident, ca *rpc.Cache) bool {
		if from == f && ca.To == t && left > 0 {
			left--
			m.late = append(m.late, &item{from: from, payload: ca.Payload})
			m.lateTo = append(m.lateTo, t)
			m.r.accepted = append(m.r.accepted, frame{from: from, to: t})
			return true
		}
		return false
	}
	m.stress++
	m.op("late %v>%v", m.nodes[from], m.nodes[to])
}

func (m *c21) opHold(rt *rapid.T) {
	i := m.who(rt, "who")
	m.r.mtx.Lock()
	defer m.r.mtx.Unlock()
	m.r.hold[m.nodes[i].ident()] = true
	m.stress++
	m.op("hold %v", m.nodes[i])
}

func (m *c21) opOffline(rt *rapid.T) {
	m.quiet(rt)
	n := m.nodes[m.who(rt, "who")]
	n.disconnect()
	m.stress++
	m.op("offline %v", n)
}

func (m *c21) opRestart(rt *rapid.T) {
	m.quiet(rt)
	n := m.nodes[m.who(rt, "who")]
	before := groupsOf(n)
	m.touched[m.index(n.ident())] = true
	n.stop()
	n.start()
	n.connect(rt)
	if after := groupsOf(n); !reflect.DeepEqual(before, after) {
		m.fail(rt, "%v had groups %v, has %v after a restart", n, before, after)
	}
	m.stress++
	m.op("restart %v", n)
}

func (m *c21) opCut(rt *rapid.T) {
	if rapid.IntRange(0, 7).Draw(rt, "really") != 0 {
		return
	}
	m.quiet(rt)
	i := m.who(rt, "who")
	m.r.mtx.Lock()
	defer m.r.mtx.Unlock()
	m.r.cutWho = m.nodes[i].ident()
	m.r.cutIn = rapid.IntRange(1, 4).Draw(rt, "nth")
	m.r.cutMode = rapid.IntRange(0, 2).Draw(rt, "mode")
	m.lossy = true
	m.op("cut %v@%d/%d", m.nodes[i], m.r.cutIn, m.r.cutMode)
}

func (m *c21) opFocus(rt *rapid.T) {
	n := m.nodes[m.who(rt, "who")]
	m.touched[m.index(n.ident())] = true
	n.cmd("/win %d", rapid.IntRange(0, 2).Draw(rt, "win"))
	n.barrier()
}

func TestC21Groups(t *testing.T) {
	hz.CheckSteps(t, 40, 20, func(rt *rapid.T) {
		r := newRelay()
		m := &c21{r: r, forced: make(map[ug]bool), phantom: make(map[ug]bool),
			used: make(map[joinTry]uint64), known: make(map[ident]int)}
		m.nodes = world(rt, r, "alice", "bob", "carol", "mallory")
		defer func() { destroyAll(r, m.nodes) }()
		for i, n := range m.nodes {
			m.known[n.ident()] = i
		}
		if rapid.IntRange(0, 3).Draw(rt, "start") != 0 {
			k := rapid.SampledFrom([]int{2, 3, 4, 4, 4}).Draw(rt, "size")
			makeGang(rt, r, m.nodes[:k], "gang")
			m.op("gang of %d", k)
			if k == 4 && rapid.Bool().Draw(rt, "second") {
				makeGang(rt, r, []*node{m.nodes[2], m.nodes[0], m.nodes[3]}, "x_1")
				m.op("x_1 of carol")
			}
		}
		m.sync()
		invite, join, kick := m.opInvite, m.opJoin, m.opKick
		rt.Repeat(map[string]func(*rapid.T){
			"new":     m.opNew,
			"invite":  invite,
			"invite2": invite,
			"join":    join,
			"join2":   join,
			"admit":   m.opAdmit,
			"admit2":  m.opAdmit,
			"admit3":  m.opAdmit,
			"kick":    kick,
			"kick2":   kick,
			"part":    m.opPart,
			"part2":   m.opPart,
			"force":   m.opForce,
			"kill":    m.opKill,
			"talk":    m.opTalk,
			"forge":   m.opForge,
			"forge2":  m.opForge,
			"forge3":  m.opForge,
			"fake":    m.opFakeInvite,
			"reuse":   m.opReuse,
			"expire":  m.opExpire,
			"late":    m.opLate,
			"late2":   m.opLate,
			"hold":    m.opHold,
			"offline": m.opOffline,
			"restart": m.opRestart,
			"cut":     m.opCut,
			"focus":   m.opFocus,
		})
		m.quiet(rt)
		hz.ClassIf(m.lossy, "connection cut")
		hz.ClassIf(len(m.phantom) > 0, "joined what is gone")
		hz.Case(m.change >= 2 && m.forges+m.stress > 0, strings.Join(m.ops, ","), strings.Join(m.ops, " "))
	})
}
