package accountprop

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sync"
	"testing"

	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver/account"
	"pgregory.net/rapid"

	"zkcverif/hz"
)

// acct is the model of one account.
type acct struct {
	pid      *zkidentity.PublicIdentity
	listed   bool
	disabled bool
	waiting  []string
}

var nicks = []string{"alice", "bob", "carol", "a", "A", "dave.", ".hidden", "x=y", "nick with blanks", "[tab]", "é", ""}

// The directory of accounts against a map.
func TestC14Model(t *testing.T) {
	hz.CheckSteps(t, 150, 50, func(t *rapid.T) {
		root := hz.TempDir()
		defer hz.RemoveAll(root)
		a, err := account.New(root)
		hz.Must(err)
		m := map[int]*acct{}
		var log []string
		fail := func(f string, args ...interface{}) {
			t.Helper()
			t.Fatalf("%s\nhistory: %s", fmt.Sprintf(f, args...), hz.Join(log))
		}
		genWho := rapid.IntRange(0, 4)
		genNick := rapid.OneOf(rapid.SampledFrom(nicks[:3]), rapid.SampledFrom(nicks))
		// listedAs says who a nick may be found as; hidden are disabled ones
		listedAs := func(nick string) (shown, hidden []*acct) {
			for i := 0; i <= 4; i++ {
				if x := m[i]; x != nil && x.listed && x.pid.Nick == nick {
					if x.disabled {
						hidden = append(hidden, x)
					} else {
						shown = append(shown, x)
					}
				}
			}
			return
		}
		refused, moved, clashes := 0, 0, 0
		find := func(nick string) {
			shown, hidden := listedAs(nick)
			p, err := a.Find(nick)
			if err != nil {
				if len(shown) > 0 {
					fail("Find(%q): %v", nick, err)
				}
				return
			}
			for _, x := range append(shown, hidden...) {
				if reflect.DeepEqual(p, x.pid) {
					return
				}
			}
			fail("Find(%q) gives %q %x, which is not listed so", nick, p.Nick, p.Identity[:4])
		}
		t.Repeat(map[string]func(*rapid.T){
			"create": func(t *rapid.T) {
				i := genWho.Draw(t, "who")
				nick := genNick.Draw(t, "nick")
				force := rapid.IntRange(0, 3).Draw(t, "force") == 0
				p := pid(100+i, nick)
				shown, hidden := listedAs(nick)
				x := m[i]
				err := a.Create(*p, force)
				log = append(log, fmt.Sprintf("create(%d,%q,%v)=%v", i, nick, force, err == nil))
				must := len(shown) == 0 && len(hidden) == 0 && (x == nil || !x.disabled && force)
				others := len(shown)
				for _, y := range shown {
					if y == x && force {
						others-- // whether its own name is in the way is open
					}
				}
				mustNot := others > 0 || x != nil && (x.disabled || !force)
				if must && err != nil {
					fail("Create: %v", err)
				}
				if mustNot && err == nil {
					fail("Create of an account that exists, is disabled or has a name in use succeeds")
				}
				if err != nil {
					refused++
					if len(shown) > 0 {
						clashes++
					}
					return
				}
				if x == nil {
					x = &acct{}
					m[i] = x
				}
				x.pid = p
			},
			"push": func(t *rapid.T) {
				i := genWho.Draw(t, "who")
				err := a.Push(user(100 + i))
				log = append(log, fmt.Sprintf("push%d=%v", i, err == nil))
				if x := m[i]; x == nil || x.disabled {
					if err == nil {
						fail("Push of an account that is not there")
					}
					refused++
				} else if err != nil {
					fail("Push: %v", err)
				} else {
					x.listed = true
				}
			},
			"pull": func(t *rapid.T) {
				i := genWho.Draw(t, "who")
				err := a.Pull(user(100 + i))
				log = append(log, fmt.Sprintf("pull%d=%v", i, err == nil))
				x := m[i]
				if x == nil || x.disabled {
					if err == nil {
						fail("Pull of an account that is not there")
					}
					refused++
				} else if x.listed && err != nil {
					fail("Pull: %v", err)
				} else {
					x.listed = false // pulling what is not listed may fail
				}
			},
			"disable": func(t *rapid.T) {
				i := genWho.Draw(t, "who")
				err := a.Disable(user(100 + i))
				log = append(log, fmt.Sprintf("disable%d=%v", i, err == nil))
				if x := m[i]; x == nil || x.disabled {
					if err == nil {
						fail("Disable of an account that is not enabled")
					}
					refused++
				} else if err != nil {
					fail("Disable: %v", err)
				} else {
					x.disabled = true
					moved++
				}
			},
			"enable": func(t *rapid.T) {
				i := genWho.Draw(t, "who")
				err := a.Enable(user(100 + i))
				log = append(log, fmt.Sprintf("enable%d=%v", i, err == nil))
				if x := m[i]; x == nil || !x.disabled {
					if err == nil {
						fail("Enable of an account that is not disabled")
					}
					refused++
				} else if err != nil {
					fail("Enable: %v", err)
				} else {
					x.disabled = false
					moved++
				}
			},
			"deliver": func(t *rapid.T) {
				i := genWho.Draw(t, "who")
				text := fmt.Sprint("message ", len(log))
				_, err := a.Deliver(user(100+i), user(9), []byte(text), false)
				log = append(log, fmt.Sprintf("deliver%d=%v", i, err == nil))
				if x := m[i]; x == nil || x.disabled {
					if err == nil {
						fail("a delivery to an account that is not there succeeds")
					}
					refused++
				} else if err != nil {
					fail("Deliver: %v", err)
				} else {
					x.waiting = append(x.waiting, text)
				}
			},
			"find": func(t *rapid.T) {
				nick := genNick.Draw(t, "nick")
				find(nick)
				log = append(log, fmt.Sprintf("find(%q)", nick))
			},
			"restart": func(t *rapid.T) {
				log = append(log, "restart")
				if a, err = account.New(root); err != nil {
					fail("New: %v", err)
				}
			},
			"": func(t *rapid.T) {
				for i := 0; i <= 4; i++ {
					x := m[i]
					if e := a.Enabled(user(100 + i)); e != (x != nil && !x.disabled) {
						fail("Enabled(%d) is %v", i, e)
					}
					if d := a.Disabled(user(100 + i)); d != (x != nil && x.disabled) {
						fail("Disabled(%d) is %v", i, d)
					}
				}
			},
		})
		for _, n := range nicks {
			find(n)
		}
		for i, x := range m {
			if x.disabled {
				hz.Must(a.Enable(user(100 + i)))
			}
			c := make(chan *account.Notification)
			if err := a.Online(user(100+i), c); err != nil {
				fail("Online: %v", err)
			}
			for _, w := range x.waiting {
				hz.Within(t, "receiving "+w, func() {
					if g := <-c; g.Error != nil || string(g.Payload) != w {
						fail("expected %q, got %q, %v", w, g.Payload, g.Error)
					}
				})
			}
			a.Offline(user(100 + i))
		}
		hz.ClassIf(clashes > 0, "accounts: name in use")
		hz.ClassIf(moved > 1, "accounts: disabled and enabled")
		hz.Case(refused > 0 && len(m) > 1, hz.Join(log), hz.Join(log))
	})
}

// Accounts of different users used at the same time do not disturb each other.
func TestC14Concurrent(t *testing.T) {
	hz.Check(t, 20, func(t *rapid.T) {
		root := hz.TempDir()
		defer hz.RemoveAll(root)
		a, err := account.New(root)
		hz.Must(err)
		n := rapid.IntRange(2, 8).Draw(t, "users")
		rounds := rapid.IntRange(1, 6).Draw(t, "rounds")
		for i := 0; i < n; i++ {
			pid(200+i, "")
		}
		errs := make([]error, n)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				nick := fmt.Sprint("nick", i)
				p := pid(200+i, nick)
				do := func(what string, err error) bool {
					if err != nil && errs[i] == nil {
						errs[i] = fmt.Errorf("%s: %v", what, err)
					}
					return err == nil
				}
				if !do("Create", a.Create(*p, false)) {
					return
				}
				for r := 0; r < rounds; r++ {
					if !do("Push", a.Push(p.Identity)) {
						return
					}
					q, err := a.Find(nick)
					if !do("Find", err) {
						return
					}
					if !reflect.DeepEqual(p, q) {
						errs[i] = fmt.Errorf("Find(%q) gives %q", nick, q.Nick)
						return
					}
					if !do("Disable", a.Disable(p.Identity)) || !do("Enable", a.Enable(p.Identity)) || !do("Pull", a.Pull(p.Identity)) {
						return
					}
					if _, err := a.Find(nick); err == nil {
						errs[i] = fmt.Errorf("Find(%q) finds an account that is not listed", nick)
						return
					}
				}
			}(i)
		}
		hz.Within(t, "account operations", wg.Wait)
		for i, err := range errs {
			if err != nil {
				t.Fatalf("user %d: %v", i, err)
			}
		}
		hz.Case(true, fmt.Sprint("conc", n, rounds), fmt.Sprintf("%d users at once, %d rounds", n, rounds))
	})
}

func init() { hz.RegisterChild("acct", childAcct) }

type acctJob struct {
	Root string
	Op   string
	Pid  zkidentity.PublicIdentity
}

func (j *acctJob) do(a *account.Account) error {
	switch j.Op {
	case "create":
		return a.Create(j.Pid, false)
	case "force":
		return a.Create(j.Pid, true)
	case "push":
		return a.Push(j.Pid.Identity)
	case "pull":
		return a.Pull(j.Pid.Identity)
	case "disable":
		return a.Disable(j.Pid.Identity)
	case "enable":
		return a.Enable(j.Pid.Identity)
	}
	panic(j.Op)
}

func childAcct(args []string) {
	var j acctJob
	b, err := os.ReadFile(args[0])
	hz.Must(err)
	hz.Must(json.Unmarshal(b, &j))
	a, err := account.New(j.Root)
	hz.Must(err)
	hz.Mark()
	err = j.do(a)
	hz.Mark()
	if err != nil {
		os.Stdout.WriteString("ERROR " + err.Error() + "\n")
	} else {
		os.Stdout.WriteString("OK\n")
	}
}

// An account operation is interrupted or fails at any system call: other
// accounts are as they were, the account itself is as before or after, and the
// operation can be completed.
func TestC14Crash(t *testing.T) {
	hz.Check(t, 6, func(t *rapid.T) {
		op := rapid.SampledFrom([]string{"create", "create", "force", "push", "pull", "disable", "enable"}).Draw(t, "op")
		listed := op == "pull" || op != "push" && rapid.Bool().Draw(t, "listed")
		msgs := rapid.IntRange(0, 2).Draw(t, "messages")
		me := pid(300, "me")
		other := pid(301, "other")
		fresh := func() (string, string) {
			dir := hz.TempDir()
			root := filepath.Join(dir, "root")
			a, err := account.New(root)
			hz.Must(err)
			hz.Must(a.Create(*other, false))
			hz.Must(a.Push(other.Identity))
			if op != "create" {
				hz.Must(a.Create(*me, false))
				if listed && op != "force" {
					hz.Must(a.Push(me.Identity))
				}
				for i := 0; i < msgs; i++ {
					_, err = a.Deliver(me.Identity, user(1), []byte{byte(i)}, false)
					hz.Must(err)
				}
				if op == "enable" {
					hz.Must(a.Disable(me.Identity))
				}
			}
			b, err := json.Marshal(acctJob{root, op, *me})
			hz.Must(err)
			hz.Must(os.WriteFile(filepath.Join(dir, "job"), b, 0600))
			return dir, filepath.Join(dir, "job")
		}
		d, f := fresh()
		pts := hz.Points("acct", f)
		hz.RemoveAll(d)
		wasListed := listed && op != "create" && op != "force"
		check := func(dir string, told bool, what string) {
			root := filepath.Join(dir, "root")
			a, err := account.New(root)
			if err != nil {
				t.Fatalf("%s: %v", what, err)
			}
			if p, err := a.Find("other"); err != nil || !reflect.DeepEqual(p, other) {
				t.Fatalf("%s: the other user is not found any more: %v", what, err)
			}
			p, err := a.Find("me")
			isListed := err == nil
			if isListed && !reflect.DeepEqual(p, me) {
				t.Fatalf("%s: found an identity that is not the user's", what)
			}
			en, dis := a.Enabled(me.Identity), a.Disabled(me.Identity)
			if en && dis || op != "create" && !en && !dis {
				t.Fatalf("%s: the account is enabled %v, disabled %v", what, en, dis)
			}
			switch op {
			case "push", "pull":
				if !told && isListed != wasListed && isListed != (op == "push") || told && isListed != (op == "push") {
					t.Fatalf("%s: listed is %v after it was %v", what, isListed, wasListed)
				}
			case "disable", "enable":
				if told && (op == "disable") != dis {
					t.Fatalf("%s: reported success, disabled is %v", what, dis)
				}
			}
			// it can be repeated, or says that it is done
			j := acctJob{root, op, *me}
			err = j.do(a)
			switch op {
			case "disable", "enable":
			case "pull":
				if err != nil && isListed {
					t.Fatalf("%s: cannot be repeated: %v", what, err)
				}
			case "create":
				// When everything was done already, forcing it works.
				if err != nil {
					if e := a.Create(*me, true); e != nil {
						t.Fatalf("%s: cannot be repeated: %v, %v", what, err, e)
					}
				}
			default:
				if err != nil {
					t.Fatalf("%s: cannot be repeated: %v", what, err)
				}
			}
			if a.Disabled(me.Identity) {
				if err := a.Enable(me.Identity); err != nil {
					t.Fatalf("%s: Enable: %v", what, err)
				}
			}
			if err := a.Push(me.Identity); err != nil {
				t.Fatalf("%s: Push: %v", what, err)
			}
			if p, err := a.Find("me"); err != nil || !reflect.DeepEqual(p, me) {
				t.Fatalf("%s: the user is not found: %v", what, err)
			}
			if _, err := a.Deliver(me.Identity, user(1), []byte("next"), false); err != nil {
				t.Fatalf("%s: Deliver: %v", what, err)
			}
			c := make(chan *account.Notification)
			hz.Must(a.Online(me.Identity, c))
			defer a.Offline(me.Identity)
			for i := 0; i <= msgs; i++ {
				if op == "create" && i < msgs {
					continue
				}
				w := []byte{byte(i)}
				if i == msgs {
					w = []byte("next")
				}
				hz.Within(t, what+": receiving", func() {
					if g := <-c; g.Error != nil || !bytes.Equal(g.Payload, w) {
						t.Fatalf("%s: expected %q, got %q, %v", what, w, g.Payload, g.Error)
					}
				})
			}
		}
		type fault struct {
			p     hz.Point
			errno string
		}
		var fs []fault
		for _, p := range pts {
			fs = append(fs, fault{p, ""})
			switch p.Call {
			case "write":
				fs = append(fs, fault{p, "ENOSPC"})
			case "openat":
				fs = append(fs, fault{p, "EMFILE"})
			case "rename", "renameat", "renameat2", "mkdirat", "mkdir":
				fs = append(fs, fault{p, "EIO"})
			}
		}
		dirs := make([]string, len(fs))
		told := make([]bool, len(fs))
		msg := make([]string, len(fs))
		var wg sync.WaitGroup
		sem := make(chan struct{}, 4)
		for i, x := range fs {
			wg.Add(1)
			go func(i int, x fault) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				d, f := fresh()
				dirs[i] = d
				if x.errno == "" {
					if hz.Kill(x.p, "acct", f) {
						hz.Class("accounts: killed at " + x.p.Call)
					}
					return
				}
				out, ok := hz.Fail(x.p, x.errno, false, "acct", f)
				if !ok {
					msg[i] = "the process did not survive: " + hz.Trim(out, 1500)
				}
				told[i] = len(out) > 1 && out[:2] == "OK"
				hz.Class("accounts: failing " + x.p.Call)
			}(i, x)
		}
		wg.Wait()
		for i, x := range fs {
			what := fmt.Sprintf("%s, %s at %s", op, map[bool]string{true: "killed", false: x.errno}[x.errno == ""], hz.Trim(x.p.Text, 140))
			if msg[i] != "" {
				t.Fatalf("%s: %s", what, msg[i])
			}
			check(dirs[i], told[i], what)
			hz.RemoveAll(dirs[i])
			hz.Case(true, fmt.Sprint("crash", op, listed, msgs, x.p.Call, x.p.N, x.errno), what)
		}
	})
}
