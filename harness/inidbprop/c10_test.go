// Package inidbprop checks the database package.
package inidbprop

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/companyzero/zkc/inidb"
	"pgregory.net/rapid"

	"zkcverif/hz"
)

func TestMain(m *testing.M) { hz.Main(m) }

type tables map[string]map[string]string

func (m tables) clone() tables {
	c := tables{}
	for k, t := range m {
		c[k] = map[string]string{}
		for a, b := range t {
			c[k][a] = b
		}
	}
	return c
}

func (m tables) String() string { return fmt.Sprint(map[string]map[string]string(m)) }

// contents reads everything through the API.
func contents(db *inidb.INIDB) tables {
	m := tables{}
	for _, t := range db.Tables() {
		m[t] = db.Records(t)
	}
	return m
}

// Names and values are single lines without surrounding blanks; names have no
// '=' and keys do not look like a comment. Values are otherwise arbitrary.
func clean(s string) bool {
	return strings.TrimSpace(s) == s && !strings.ContainsAny(s, "\n")
}

var genText = rapid.OneOf(
	rapid.StringMatching(`[a-z0-9]{1,6}`),
	rapid.StringMatching(`[a-z]{1,2}`),
	rapid.StringMatching(`[ -~]{1,12}`),
	rapid.StringN(1, 10, -1),
	rapid.SampledFrom([]string{"a", "b", "[a]", "]", "a]", "[", "x[y]", `"q"`, "'", "a b", "%v", "%s %d", "é", "a;b", "a#b", "\\n", "...", "!", "a:b"}),
)

var genTable = rapid.OneOf(rapid.Just(""), rapid.SampledFrom([]string{"t1", "t2", "t3"}),
	genText.Filter(func(s string) bool { return clean(s) && s != "" && !strings.Contains(s, "=") }))

var genKey = rapid.OneOf(rapid.SampledFrom([]string{"k1", "k2", "k3", "server"}),
	genText.Filter(func(s string) bool {
		return clean(s) && s != "" && !strings.Contains(s, "=") && s[0] != ';' && s[0] != '#'
	}))

var genValue = rapid.OneOf(genText.Filter(clean), rapid.SampledFrom([]string{"", "=", "a=b", "==", "Zm9v==", "# no comment", "; no", "[t1]", "[t2]", "k1 = v"}),
	rapid.Custom(func(t *rapid.T) string { return strings.Repeat("ab+/", rapid.IntRange(1, 3000).Draw(t, "n")) + "=" }),
	rapid.Custom(func(t *rapid.T) string {
		return string(rapid.SliceOfN(rapid.Byte(), 0, 20).Filter(func(b []byte) bool { return clean(string(b)) }).Draw(t, "raw"))
	}))

func backups(t hz.Fataler, file string) []string {
	ents, err := os.ReadDir(filepath.Dir(file))
	hz.Must(err)
	var r []string
	for _, e := range ents {
		if e.Name() == filepath.Base(file) {
			continue
		}
		if !strings.HasPrefix(e.Name(), filepath.Base(file)+".") {
			t.Fatalf("stray file %q beside the database", e.Name())
		}
		r = append(r, filepath.Join(filepath.Dir(file), e.Name()))
	}
	sort.Strings(r)
	return r
}

func TestC10Model(t *testing.T) {
	hz.CheckSteps(t, 600, 40, func(t *rapid.T) {
		dir := hz.TempDir()
		defer hz.RemoveAll(dir)
		file := filepath.Join(dir, "sub", "db.ini")
		depth := rapid.SampledFrom([]int{-1, 0, 1, 2, 3, 10}).Draw(t, "depth")
		if _, err := inidb.New(file, false, depth); err == nil {
			t.Fatalf("opened a database that does not exist")
		}
		db, err := inidb.New(file, true, depth)
		if !errors.Is(err, inidb.ErrCreated) || db == nil {
			t.Fatalf("creating: %v", err)
		}
		cur := tables{"": {}}
		disk := cur.clone()
		history := []tables{} // states the database file had before the current one
		dirty := false
		saves, reopens := 0, 0
		var log []string
		logf := func(f string, a ...interface{}) { log = append(log, hz.Trim(fmt.Sprintf(f, a...), 60)) }
		pick := func(t *rapid.T) string {
			// mostly tables that exist
			if rapid.IntRange(0, 3).Draw(t, "fresh table") > 0 {
				var ks []string
				for k := range cur {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				return rapid.SampledFrom(ks).Draw(t, "table")
			}
			return genTable.Draw(t, "table")
		}
		same := func(t *rapid.T) {
			if got := contents(db); !reflect.DeepEqual(got, cur) {
				t.Fatalf("contents are\n%v\nexpected\n%v", got, cur)
			}
		}
		t.Repeat(map[string]func(*rapid.T){
			"set": func(t *rapid.T) {
				tb, k, v := pick(t), genKey.Draw(t, "key"), genValue.Draw(t, "value")
				err := db.Set(tb, k, v)
				logf("set(%q,%q,%q)=%v", tb, k, v, err)
				if _, ok := cur[tb]; !ok {
					if !errors.Is(err, inidb.ErrNotFound) {
						t.Fatalf("Set in a table that does not exist: %v", err)
					}
					return
				}
				if err != nil {
					t.Fatalf("Set: %v", err)
				}
				cur[tb][k] = v
				dirty = true
			},
			"del": func(t *rapid.T) {
				tb, k := pick(t), genKey.Draw(t, "key")
				err := db.Del(tb, k)
				logf("del(%q,%q)=%v", tb, k, err)
				if _, ok := cur[tb]; !ok {
					if !errors.Is(err, inidb.ErrNotFound) {
						t.Fatalf("Del in a table that does not exist: %v", err)
					}
					return
				}
				if err != nil {
					t.Fatalf("Del: %v", err)
				}
				delete(cur[tb], k)
				dirty = true
			},
			"newtable": func(t *rapid.T) {
				tb := genTable.Draw(t, "table")
				db.NewTable(tb)
				logf("newtable(%q)", tb)
				if cur[tb] == nil {
					cur[tb] = map[string]string{}
					dirty = true
				}
			},
			"deltable": func(t *rapid.T) {
				tb := pick(t)
				if tb == "" {
					return // the default table always exists
				}
				err := db.DelTable(tb)
				logf("deltable(%q)=%v", tb, err)
				if _, ok := cur[tb]; !ok {
					if !errors.Is(err, inidb.ErrNotFound) {
						t.Fatalf("DelTable of a table that does not exist: %v", err)
					}
					return
				}
				if err != nil {
					t.Fatalf("DelTable: %v", err)
				}
				delete(cur, tb)
				dirty = true
			},
			"get": func(t *rapid.T) {
				tb, k := pick(t), genKey.Draw(t, "key")
				v, err := db.Get(tb, k)
				want, ok := cur[tb][k]
				if ok && (err != nil || v != want) {
					t.Fatalf("Get(%q,%q) = %q, %v; expected %q", tb, k, v, err, want)
				}
				if !ok && !errors.Is(err, inidb.ErrNotFound) {
					t.Fatalf("Get(%q,%q) = %q, %v; no such record", tb, k, v, err)
				}
				// what Records returns is the caller's
				r := db.Records(tb)
				r["intruder"] = "x"
				delete(r, k)
			},
			"save": func(t *rapid.T) {
				changed := dirty
				if err := db.Save(); err != nil {
					t.Fatalf("Save: %v", err)
				}
				logf("save")
				saves++
				bs := backups(t, file)
				if changed && !reflect.DeepEqual(cur, disk) {
					history = append(history, disk)
				} else if changed {
					// a backup of the same contents may or may not be made
					history = nil
				}
				disk = cur.clone()
				dirty = false
				if depth >= 0 && len(bs) > depth {
					t.Fatalf("%d backups, the limit is %d", len(bs), depth)
				}
				want := len(history)
				if depth >= 0 && want > depth {
					want = depth
				}
				if len(bs) < want {
					t.Fatalf("%d backups after %d saves with a limit of %d", len(bs), len(history), depth)
				}
				for i := 0; i < want; i++ {
					b, err := inidb.New(bs[len(bs)-1-i], false, -1)
					if err != nil {
						t.Fatalf("backup cannot be read: %v", err)
					}
					if got := contents(b); !reflect.DeepEqual(got, history[len(history)-1-i]) {
						t.Fatalf("backup %d is\n%v\nexpected\n%v", i, got, history[len(history)-1-i])
					}
				}
				hz.ClassIf(want > 0, "saves with verified backups")
			},
			"reopen": func(t *rapid.T) {
				logf("reopen")
				create := rapid.Bool().Draw(t, "create")
				db, err = inidb.New(file, create, depth)
				if err != nil {
					t.Fatalf("reopening: %v", err)
				}
				if dirty {
					hz.Class("reopens that drop unsaved changes")
				}
				reopens++
				cur = disk.clone()
				dirty = false
				same(t)
			},
			"": same,
		})
		hz.Case(saves > 0 && reopens > 0 && len(disk) > 1, hz.Join(log), fmt.Sprintf("depth %d: %s", depth, hz.Join(log)))
	})
}

// Users of one handle in parallel: nothing is lost.
func TestC10Concurrent(t *testing.T) {
	hz.Check(t, 25, func(t *rapid.T) {
		dir := hz.TempDir()
		defer hz.RemoveAll(dir)
		file := filepath.Join(dir, "db.ini")
		db, err := inidb.New(file, true, 3)
		if !errors.Is(err, inidb.ErrCreated) {
			t.Fatalf("creating: %v", err)
		}
		n := rapid.IntRange(2, 6).Draw(t, "writers")
		per := rapid.IntRange(1, 15).Draw(t, "records")
		every := rapid.IntRange(1, 5).Draw(t, "save every")
		var wg sync.WaitGroup
		errs := make([]error, n)
		for w := 0; w < n; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				tb := fmt.Sprintf("t%d", w%3)
				db.NewTable(tb)
				for i := 0; i < per; i++ {
					k := fmt.Sprintf("w%d-%d", w, i)
					if err := db.Set(tb, k, k); err != nil {
						errs[w] = err
						return
					}
					if v, err := db.Get(tb, k); err != nil || v != k {
						errs[w] = fmt.Errorf("Get(%v) = %v, %v", k, v, err)
						return
					}
					for range db.Records(tb) {
					}
					db.Tables()
					if i%every == 0 {
						if err := db.Save(); err != nil {
							errs[w] = err
							return
						}
						m, err := inidb.New(file, false, -1)
						if err != nil {
							errs[w] = fmt.Errorf("open during use: %v", err)
							return
						}
						if v, err := m.Get(tb, k); err != nil || v != k {
							errs[w] = fmt.Errorf("a saved record is not on disk: %v, %v", v, err)
							return
						}
					}
				}
			}(w)
		}
		hz.Within(t, "concurrent use", wg.Wait)
		for w, err := range errs {
			if err != nil {
				t.Fatalf("writer %d: %v", w, err)
			}
		}
		if err := db.Save(); err != nil {
			t.Fatalf("Save: %v", err)
		}
		db, err = inidb.New(file, false, 3)
		if err != nil {
			t.Fatalf("reopen: %v", err)
		}
		for w := 0; w < n; w++ {
			for i := 0; i < per; i++ {
				k := fmt.Sprintf("w%d-%d", w, i)
				if v, err := db.Get(fmt.Sprintf("t%d", w%3), k); err != nil || v != k {
					t.Fatalf("record %v lost: %v %v", k, v, err)
				}
			}
		}
		hz.Class("concurrent histories")
		hz.Case(n > 1 && per > 1, fmt.Sprint("conc", n, per, every), fmt.Sprintf("%d writers, %d records each, saving every %d", n, per, every))
	})
}
