// Package hz is the shared support library of the verification harness: case
// accounting for the evidence files, seeded rapid runs, and the distinction
// between a violated property (a normal test failure) and a harness problem
// (exit code 3).
package hz

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ExitInfra is the exit code for harness problems.
const ExitInfra = 3

type stats struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Distinct    []uint64       `json:"distinct"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Known       []string       `json:"known"`
}

var (
	mtx      sync.Mutex
	st       = stats{Classes: map[string]int{}}
	seen     = map[uint64]struct{}{}
	sampleAt = 1
	ntCount  int
)

// Case records one generated case. key identifies the case (its generated
// content); nontrivial says whether it meets the property's stated rule.
func Case(nontrivial bool, key string, sample string) {
	mtx.Lock()
	defer mtx.Unlock()
	st.Evaluations++
	if !nontrivial {
		return
	}
	st.Nontrivial++
	h := fnv.New64a()
	h.Write([]byte(key))
	s := h.Sum64()
	if _, ok := seen[s]; !ok {
		seen[s] = struct{}{}
		ntCount++
		// sample the 1st, 2nd, 4th, 8th ... distinct non-trivial case
		if ntCount == sampleAt && len(st.Samples) < 12 {
			sampleAt *= 3
			if len(sample) > 900 {
				sample = sample[:900] + "..."
			}
			st.Samples = append(st.Samples, sample)
		}
	}
}

// Class counts one occurrence of a named class of case.
func Class(name string) {
	mtx.Lock()
	st.Classes[name]++
	mtx.Unlock()
}

// ClassIf counts when cond holds.
func ClassIf(cond bool, name string) {
	if cond {
		Class(name)
	}
}

// Known reports that a listed known finding was observed again.
func Known(text string) {
	mtx.Lock()
	st.Known = append(st.Known, text)
	mtx.Unlock()
}

// Listed says whether the known-findings file lists the finding key for the
// property that runs; only a listed finding may be reported with Known.
func Listed(key string) bool {
	for _, k := range strings.Fields(os.Getenv("HZ_KNOWN")) {
		if k == key {
			return true
		}
	}
	return false
}

// Infra aborts the run: the harness itself could not do its work.
func Infra(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "HZ-INFRA: "+format+"\n", args...)
	write()
	os.Exit(ExitInfra)
}

// Must aborts the run with an infrastructure error when err is not nil.
func Must(err error) {
	if err != nil {
		_, file, line, _ := runtime.Caller(1)
		Infra("%s:%d: %v", filepath.Base(file), line, err)
	}
}

func write() {
	out := os.Getenv("HZ_OUT")
	if out == "" {
		return
	}
	mtx.Lock()
	defer mtx.Unlock()
	st.Distinct = st.Distinct[:0]
	for k := range seen {
		st.Distinct = append(st.Distinct, k)
	}
	b, err := json.Marshal(&st)
	if err == nil {
		err = os.WriteFile(out, b, 0600)
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "HZ-INFRA: %v\n", err)
	}
}

// Main is the TestMain body of every harness package.
func Main(m *testing.M) {
	maybeChild()
	flag.Parse()
	rc := m.Run()
	write()
	os.Exit(rc)
}

// Flush writes the statistics; for packages without TestMain.
func Flush() { write() }

// Thorough says whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Scale is the case count multiplier of this run.
func Scale() float64 {
	if s := os.Getenv("HZ_SCALE"); s != "" {
		f, err := strconv.ParseFloat(s, 64)
		if err == nil {
			return f
		}
	}
	return 1
}

// N scales a case count.
func N(n int) int {
	k := int(float64(n)*Scale() + 0.5)
	if k < 1 {
		k = 1
	}
	return k
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Seed is the seed of this shard for the named test.
func Seed(name string) uint64 {
	v, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	sh, _ := strconv.ParseUint(os.Getenv("HZ_SHARD"), 10, 64)
	h := fnv.New64a()
	h.Write([]byte(name))
	s := splitmix(splitmix(v+1)^splitmix(sh+77)) ^ h.Sum64()
	if s == 0 {
		s = 1
	}
	return s
}

// Check runs n (scaled) rapid cases of f, seeded from VERIF_SEED.
func Check(t *testing.T, n int, f func(*rapid.T)) {
	t.Helper()
	CheckSteps(t, n, 30, f)
}

// CheckSteps is Check with an average number of Repeat steps.
func CheckSteps(t *testing.T, n, steps int, f func(*rapid.T)) {
	t.Helper()
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			Infra("flag %v: %v", k, err)
		}
	}
	if os.Getenv("HZ_REPLAY") == "" {
		set("rapid.checks", strconv.Itoa(N(n)))
	} else {
		set("rapid.checks", "1")
	}
	set("rapid.steps", strconv.Itoa(steps))
	set("rapid.seed", strconv.FormatUint(Seed(t.Name()), 10))
	if s := os.Getenv("HZ_SHRINK"); s != "" {
		set("rapid.shrinktime", s)
	} else {
		set("rapid.shrinktime", "20s")
	}
	rapid.Check(t, f)
}

// Fataler is what both *testing.T and *rapid.T offer.
type Fataler interface {
	Fatalf(format string, args ...interface{})
}

// Within runs f and fails if it has not returned after a generous limit. The
// limit is orders of magnitude above what the operation takes.
func Within(t Fataler, what string, f func()) {
	WithinTime(t, WaitLimit, what, f)
}

// WithinTime is Within with another limit.
func WithinTime(t Fataler, limit time.Duration, what string, f func()) {
	done := make(chan struct{})
	var pv interface{}
	go func() {
		defer close(done)
		defer func() { pv = recover() }()
		f()
	}()
	select {
	case <-done:
	case <-time.After(limit):
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		t.Fatalf("%v did not complete within %v (blocked)\n%s", what, limit, Trim(string(buf), 4000))
	}
	if pv != nil {
		panic(pv)
	}
}

// WaitLimit bounds every wait for something that must happen.
var WaitLimit = 30 * time.Second

// Trim shortens s.
func Trim(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + "..."
}

// NoPanic runs f and returns the panic text, if any.
func NoPanic(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 8192)
			buf = buf[:runtime.Stack(buf, false)]
			p = fmt.Sprintf("%v\n%s", r, Trim(string(buf), 2500))
		}
	}()
	f()
	return ""
}

// Short renders bytes compactly.
func Short(b []byte) string {
	if len(b) <= 12 {
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("%x..(%d)", b[:8], len(b))
}

// Join joins an operation log.
func Join(ops []string) string { return strings.Join(ops, " ") }

// TempDir makes a scratch directory under the run's scratch directory.
func TempDir() string {
	base := os.Getenv("HZ_SCRATCH")
	d, err := os.MkdirTemp(base, "hz")
	if err != nil {
		Infra("tempdir: %v", err)
	}
	return d
}

// RemoveAll removes a directory made by TempDir.
func RemoveAll(d string) {
	base := os.Getenv("HZ_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	if !strings.HasPrefix(filepath.Clean(d), filepath.Clean(base)+"/") {
		Infra("refusing to remove %v", d)
	}
	os.RemoveAll(d)
}
