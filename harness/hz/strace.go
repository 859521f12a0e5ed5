package hz

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"syscall"
)

// Child processes: the test binary runs itself with HZ_CHILD set, does one
// thing on its main thread, and is killed or has a system call fail at a
// chosen point.

var children = map[string]func(args []string){}

func init() { runtime.LockOSThread() }

// RegisterChild names a function that a child process can run.
func RegisterChild(name string, f func(args []string)) { children[name] = f }

func maybeChild() {
	name := os.Getenv("HZ_CHILD")
	if name == "" {
		return
	}
	f := children[name]
	if f == nil {
		Infra("no child %q", name)
	}
	os.Unsetenv("HZ_OUT")
	f(strings.Split(os.Getenv("HZ_CHILD_ARGS"), "\x1f"))
	os.Exit(0)
}

const markPath = "/hz-mark-do-not-create"

// Mark separates the child's preparation from the part under test.
func Mark() { os.Lstat(markPath) }

// FaultCalls are the system calls that a fault can hit.
const FaultCalls = "openat,open,creat,write,pwrite64,writev,rename,renameat,renameat2,link,linkat,unlink,unlinkat,close,fsync,fdatasync,ftruncate,truncate,mkdir,mkdirat,rmdir,chmod,fchmod,fchmodat,symlink,symlinkat"

// Point is a system call of the child's part under test.
type Point struct {
	Call string // name
	N    int    // its number among the calls of that name
	Text string
}

var callRE = regexp.MustCompile(`^([a-z0-9_]+)\(`)

func stracePath() string {
	p, err := exec.LookPath("strace")
	if err != nil {
		Infra("strace: %v", err)
	}
	return p
}

func runStrace(child string, args []string, inject string) (log string, status syscall.WaitStatus, out string) {
	d := TempDir()
	defer RemoveAll(d)
	lf := filepath.Join(d, "trace")
	a := []string{"-qq", "-o", lf, "-e", "trace=" + FaultCalls + ",newfstatat,lstat,statx", "-e", "signal=none"}
	if inject != "" {
		a = append(a, "-e", "inject="+inject)
	}
	a = append(a, os.Args[0])
	c := exec.Command(stracePath(), a...)
	c.Env = append(os.Environ(), "HZ_CHILD="+child, "HZ_CHILD_ARGS="+strings.Join(args, "\x1f"))
	var buf bytes.Buffer
	c.Stdout, c.Stderr = &buf, &buf
	err := c.Run()
	if c.ProcessState == nil {
		Infra("strace: %v", err)
	}
	status = c.ProcessState.Sys().(syscall.WaitStatus)
	b, _ := os.ReadFile(lf)
	return string(b), status, buf.String()
}

// Points runs the child once without a fault and returns the system calls
// that follow the mark.
func Points(child string, args ...string) []Point {
	log, st, out := runStrace(child, args, "")
	if !st.Exited() || st.ExitStatus() != 0 {
		Infra("child %v failed without a fault: %v %v", child, st, Trim(out, 2000))
	}
	var pts []Point
	count := map[string]int{}
	marked := false
	sc := bufio.NewScanner(strings.NewReader(log))
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := sc.Text()
		m := callRE.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		if strings.Contains(l, markPath) {
			marked = true
			continue
		}
		count[m[1]]++
		if marked && strings.Contains(","+FaultCalls+",", ","+m[1]+",") {
			pts = append(pts, Point{m[1], count[m[1]], Trim(l, 160)})
		}
	}
	if !marked {
		Infra("child %v set no mark:\n%s\n%s", child, Trim(log, 1000), Trim(out, 1000))
	}
	return pts
}

// Kill runs the child and kills it as it enters the system call. It reports
// whether the child was killed (it may end first).
func Kill(p Point, child string, args ...string) bool {
	_, st, out := runStrace(child, args, fmt.Sprintf("%s:signal=KILL:when=%d", p.Call, p.N))
	if st.Signaled() && st.Signal() == syscall.SIGKILL {
		return true
	}
	if !st.Exited() || st.ExitStatus() != 0 {
		Infra("child %v: %v %v", child, st, Trim(out, 2000))
	}
	return false
}

// Fail runs the child with the system call (and, with more, all later calls
// of that name) failing. It returns the child's output; ok is false when the
// child crashed.
func Fail(p Point, errno string, more bool, child string, args ...string) (out string, ok bool) {
	plus := ""
	if more {
		plus = "+"
	}
	_, st, out := runStrace(child, args, fmt.Sprintf("%s:error=%s:when=%d%s", p.Call, errno, p.N, plus))
	return out, st.Exited() && st.ExitStatus() == 0
}
