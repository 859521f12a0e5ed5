//go:build go1.21

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"zkcverif/hz"

	"github.com/companyzero/zkc/blobshare"
)

// cheapKDF lowers the cost of password derived keys; key exchanges use them
// for the wire as well.
func cheapKDF() { blobshare.SetNrp(16, 8, 1) }

// A template is the set of files of clients that already know each other;
// every generated case starts from a copy of it.
type template struct {
	once  sync.Once
	files map[string]map[string]string // nick -> rel -> content
	// who knows whom under which name
	aliases map[[2]string]string
	failed  string
}

var templates = struct {
	sync.Mutex
	m map[string]*template
}{m: make(map[string]*template)}

// saltOf splits "bob#1": a second identity with the nick bob.
func saltOf(s string) (string, int) {
	if i := strings.IndexByte(s, '#'); i >= 0 {
		return s[:i], int(s[i+1] - '0')
	}
	return s, 0
}

type tplFataler struct{ msg string }

func (f *tplFataler) Fatalf(format string, args ...interface{}) {
	f.msg = fmt.Sprintf(format, args...)
	panic(f.msg)
}

func makeTemplate(t hz.Fataler, nicks []string) *template {
	key := strings.Join(nicks, ",")
	templates.Lock()
	tp := templates.m[key]
	if tp == nil {
		tp = &template{aliases: make(map[[2]string]string)}
		templates.m[key] = tp
	}
	templates.Unlock()
	tp.once.Do(func() {
		t := &tplFataler{}
		defer func() {
			if t.msg != "" {
				tp.failed = t.msg
				recover()
			}
		}()
		cheapKDF()
		r := newRelay()
		defer r.close()
		r.directory = !strings.ContainsAny(key, "# ")
		var nodes []*node
		for _, nick := range nicks {
			n := newNode(r, poolIdentity(saltOf(nick)))
			n.start()
			n.connect(t)
			nodes = append(nodes, n)
		}
		for i := range nodes {
			for j := i + 1; j < len(nodes); j++ {
				if nodes[i].nick() == nodes[j].nick() {
					continue // cannot talk to each other
				}
				if r.directory {
					befriend(t, r, nodes[i], nodes[j])
					continue
				}
				if !pinKX(t, r, nodes[i], nodes[j], "secret", "secret") {
					hz.Infra("pin exchange")
				}
				if !eventually(60*time.Second, func() bool {
					return knows(nodes[i], nodes[j]) && knows(nodes[j], nodes[i])
				}) {
					t.Fatalf("%v and %v do not complete the key exchange", nodes[i], nodes[j])
				}
			}
		}
		if !settle(r, nodes) {
			hz.Infra("template does not settle")
		}
		files := make(map[string]map[string]string)
		for i, n := range nodes {
			for _, p := range nodes {
				if pid, err := n.z.ab.FindIdentity(p.ident()); err == nil {
					tp.aliases[[2]string{hexid(n.ident()), hexid(p.ident())}] = pid.Nick
				}
			}
			n.stop()
			files[nicks[i]] = snapshot(n.root, func(rel string) bool {
				return rel == "zkclient.log" || strings.HasPrefix(rel, logsDir+"/")
			})
			n.destroy()
		}
		tp.files = files
	})
	if tp.failed != "" {
		t.Fatalf("clients cannot get to know each other: %s", tp.failed)
	}
	if tp.files == nil {
		hz.Infra("no template")
	}
	return tp
}

// world returns started, connected clients that know each other.
func world(t hz.Fataler, r *relay, nicks ...string) []*node {
	tp := makeTemplate(t, nicks)
	var nodes []*node
	for _, nick := range nicks {
		id := poolIdentity(saltOf(nick))
		n := newNode(r, id)
		n.aliases = make(map[ident]string)
		for _, p := range nicks {
			pid := poolIdentity(saltOf(p))
			if a, ok := tp.aliases[[2]string{hexid(n.ident()), hexid(pid.Public.Identity)}]; ok {
				n.aliases[pid.Public.Identity] = a
			}
		}
		server := filepath.Join("myserver.ini")
		for rel, content := range tp.files[nick] {
			if rel == server || strings.HasSuffix(rel, "myserver.ini") {
				continue // has the address of its own relay
			}
			p := filepath.Join(n.root, rel)
			hz.Must(os.MkdirAll(filepath.Dir(p), 0700))
			hz.Must(os.WriteFile(p, []byte(content), 0600))
		}
		n.start()
		nodes = append(nodes, n)
	}
	for _, n := range nodes {
		n.connect(t)
	}
	return nodes
}

func destroyAll(r *relay, nodes []*node) {
	for _, n := range nodes {
		n.destroy()
	}
	r.close()
}
