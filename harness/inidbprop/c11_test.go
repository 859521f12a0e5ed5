package inidbprop

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sync"
	"testing"

	"github.com/companyzero/zkc/inidb"
	"pgregory.net/rapid"

	"zkcverif/hz"
)

func init() {
	hz.RegisterChild("save", childSave)
	hz.RegisterChild("create", childCreate)
}

type job struct {
	File  string
	Depth int
	Want  tables
	Retry bool
}

// apply turns the database's contents into want.
func apply(db *inidb.INIDB, want tables) {
	for _, t := range db.Tables() {
		if _, ok := want[t]; !ok && t != "" {
			hz.Must(db.DelTable(t))
		}
	}
	for t, recs := range want {
		db.NewTable(t)
		for k := range db.Records(t) {
			if _, ok := recs[k]; !ok {
				hz.Must(db.Del(t, k))
			}
		}
		for k, v := range recs {
			hz.Must(db.Set(t, k, v))
		}
	}
}

func readJob(args []string) job {
	var j job
	b, err := os.ReadFile(args[0])
	hz.Must(err)
	hz.Must(json.Unmarshal(b, &j))
	return j
}

// childSave opens the database, changes it and saves it.
func childSave(args []string) {
	j := readJob(args)
	db, err := inidb.New(j.File, false, j.Depth)
	hz.Must(err)
	apply(db, j.Want)
	hz.Mark()
	err = db.Save()
	hz.Mark()
	if err != nil {
		// a failed Save can be repeated
		if err2 := db.Save(); err2 == nil {
			os.Stdout.WriteString("SAVE-OK\n")
			return
		}
		os.Stdout.WriteString("SAVE-ERROR " + err.Error() + "\n")
	} else {
		os.Stdout.WriteString("SAVE-OK\n")
	}
}

func childCreate(args []string) {
	j := readJob(args)
	hz.Mark()
	db, err := inidb.New(j.File, true, j.Depth)
	if err == nil || errors.Is(err, inidb.ErrCreated) {
		apply(db, j.Want)
		err = db.Save()
	}
	hz.Mark()
	if err != nil {
		os.Stdout.WriteString("SAVE-ERROR " + err.Error() + "\n")
	} else {
		os.Stdout.WriteString("SAVE-OK\n")
	}
}

var genTables = rapid.Custom(func(t *rapid.T) tables {
	m := tables{"": {}}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "tables"); i < n; i++ {
		tb := rapid.SampledFrom([]string{"", "t1", "t2", "t3", "other"}).Draw(t, "table")
		if m[tb] == nil {
			m[tb] = map[string]string{}
		}
		for k, n := 0, rapid.IntRange(0, 4).Draw(t, "records"); k < n; k++ {
			m[tb][genKey.Draw(t, "key")] = rapid.OneOf(
				rapid.StringMatching(`[a-zA-Z0-9+/]{0,30}`),
				rapid.Custom(func(t *rapid.T) string {
					b := make([]byte, rapid.IntRange(1000, 20000).Draw(t, "n"))
					for i := range b {
						b[i] = 'a' + byte(i%26)
					}
					return string(b)
				})).Draw(t, "value")
		}
	}
	return m
})

// seed writes the database the fault is to hit, in a fresh directory.
func seed(dir string, j *job, old tables, create bool) {
	hz.Must(os.MkdirAll(dir, 0700))
	j.File = filepath.Join(dir, "db.ini")
	if !create {
		db, err := inidb.New(j.File, true, j.Depth)
		if !errors.Is(err, inidb.ErrCreated) {
			hz.Infra("seed: %v", err)
		}
		apply(db, old)
		hz.Must(db.Save())
	}
	b, err := json.Marshal(j)
	hz.Must(err)
	hz.Must(os.WriteFile(dir+".json", b, 0600))
}

func describe(m tables) string { return hz.Trim(m.String(), 200) }

// after a fault the database opens and is what it was or what was saved.
func after(t hz.Fataler, j *job, old tables, create, sawOK bool, what string) {
	db, err := inidb.New(j.File, create, j.Depth)
	if create && errors.Is(err, inidb.ErrCreated) {
		err = nil
	}
	if err != nil {
		t.Fatalf("%s: the database cannot be opened: %v", what, err)
	}
	got := contents(db)
	if sawOK {
		if !reflect.DeepEqual(got, j.Want) {
			t.Fatalf("%s: Save reported success, the file has\n%v\nsaved\n%v", what, describe(got), describe(j.Want))
		}
		return
	}
	if !reflect.DeepEqual(got, old) && !reflect.DeepEqual(got, j.Want) {
		t.Fatalf("%s: the database has\n%v\nbefore\n%v\nsaved\n%v", what, describe(got), describe(old), describe(j.Want))
	}
	// and works
	apply(db, j.Want)
	db.Set("", "after", "fault")
	if err := db.Save(); err != nil {
		t.Fatalf("%s: cannot save after the fault: %v", what, err)
	}
	db, err = inidb.New(j.File, false, j.Depth)
	if err != nil {
		t.Fatalf("%s: cannot open after saving again: %v", what, err)
	}
	w := j.Want.clone()
	w[""]["after"] = "fault"
	if got := contents(db); !reflect.DeepEqual(got, w) {
		t.Fatalf("%s: wrong contents after saving again", what)
	}
}

func TestC11Faults(t *testing.T) {
	hz.Check(t, 3, func(t *rapid.T) {
		base := hz.TempDir()
		defer hz.RemoveAll(base)
		j := &job{Depth: rapid.SampledFrom([]int{-1, 0, 1, 10}).Draw(t, "depth")}
		create := rapid.IntRange(0, 3).Draw(t, "create") == 0
		old := tables{"": {}}
		child := "create"
		if !create {
			old = genTables.Draw(t, "before")
			child = "save"
		}
		j.Want = genTables.Draw(t, "saved")
		if reflect.DeepEqual(old, j.Want) {
			j.Want[""]["x"] = "y"
		}
		n := 0
		fresh := func() (*job, string) {
			d := filepath.Join(base, fmt.Sprint("d", n))
			n++
			c := *j
			seed(d, &c, old, create)
			return &c, d + ".json"
		}
		_, f := fresh()
		pts := hz.Points(child, f)
		// the report's own write comes after the second mark; it is the last
		type fault struct {
			p     hz.Point
			kind  string
			errno string
			more  bool
		}
		var faults []fault
		for _, p := range pts {
			faults = append(faults, fault{p, "kill", "", false})
			switch p.Call {
			case "write", "pwrite64", "writev":
				faults = append(faults, fault{p, "fail", "ENOSPC", false}, fault{p, "fail", "EIO", false})
			case "close":
				faults = append(faults, fault{p, "fail", "EIO", false})
			case "rename", "renameat", "renameat2", "link", "linkat", "fsync", "fdatasync":
				faults = append(faults, fault{p, "fail", "EIO", false})
			case "openat":
				faults = append(faults, fault{p, "fail", "EMFILE", false}, fault{p, "fail", "EACCES", false})
			}
		}
		type result struct{ msg string }
		res := make([]result, len(faults))
		jobs := make([]*job, len(faults))
		files := make([]string, len(faults))
		for i := range faults {
			jobs[i], files[i] = fresh()
		}
		sem := make(chan struct{}, 4)
		var wg sync.WaitGroup
		for i := range faults {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				ft := faults[i]
				what := fmt.Sprintf("%s at %s", ft.kind+" "+ft.errno, hz.Trim(ft.p.Text, 120))
				var c collector
				defer func() {
					if r := recover(); r != nil && r != errStop {
						panic(r)
					}
					res[i].msg = c.msg
				}()
				if ft.kind == "kill" {
					killed := hz.Kill(ft.p, child, files[i])
					hz.ClassIf(killed, "crashes at "+ft.p.Call)
					after(&c, jobs[i], old, create, false, what)
					return
				}
				out, ok := hz.Fail(ft.p, ft.errno, ft.more, child, files[i])
				if !ok {
					c.Fatalf("%s: the process did not survive: %v", what, hz.Trim(out, 1500))
				}
				hz.Class("failing " + ft.p.Call)
				if !create && !bytes.Contains([]byte(out), []byte("SAVE-")) && ft.p.Call != "write" {
					hz.Infra("no report from the child: %v", out)
				}
				if !create && bytes.Contains([]byte(out), []byte("SAVE-ERROR")) {
					c.Fatalf("%s: Save cannot be repeated: %v", what, out)
				}
				after(&c, jobs[i], old, create, len(out) > 6 && out[:7] == "SAVE-OK", what)
			}(i)
		}
		wg.Wait()
		for _, r := range res {
			if r.msg != "" {
				t.Fatalf("%s", r.msg)
			}
		}
		for _, ft := range faults {
			hz.Case(true, fmt.Sprintf("%v %v %v %v", old, j.Want, ft.kind+ft.errno, ft.p), fmt.Sprintf("%d->%d tables, depth %d, %s %s at %s", len(old), len(j.Want), j.Depth, ft.kind, ft.errno, hz.Trim(ft.p.Text, 100)))
		}
	})
}

type collector struct{ msg string }

var errStop = errors.New("stop")

func (c *collector) Fatalf(f string, a ...interface{}) {
	c.msg = fmt.Sprintf(f, a...)
	panic(errStop)
}
