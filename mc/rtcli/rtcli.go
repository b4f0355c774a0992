// Package rtcli is linked into the instrumented hotswap command (os, io/ioutil and os/exec are
// replaced by shims). It numbers the file operations of a run, injects one fault, or sends the
// process one signal and orders the removal done by the signal handler against the operations of
// the rest of the program.
//
//	MCF_ROOT    root of the scratch module (labels are relative to it)
//	MCF_TMP     prefix of the name of the temporary directory
//	MCF_LOG     file the labels of all operations are appended to
//	MCF_FAIL    labels of the operations that fail, separated by newlines; if there are several they
//	            wait for each other
//	MCF_HALF    1: a failing write leaves half of the data behind
//	MCF_SIG     label of the operation before which the signal MCF_SIGNAL (INT or TERM) arrives
//	MCF_HOLD    label of the operation before which the handler's removal is done ("" = at once,
//	            "end" = when the program has come to rest)
//	MCF_STALL   scheduling point (before a close or a send) at which the goroutine is held up
//	MCF_PARTIAL 1: the handler empties the directory first and removes the directory itself later
package rtcli

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	mu       sync.Mutex
	count    = map[string]int{}
	root     = os.Getenv("MCF_ROOT")
	tmp      = os.Getenv("MCF_TMP")
	logFile  = os.Getenv("MCF_LOG")
	fails    = strings.Split(os.Getenv("MCF_FAIL"), "\n")
	failing  int
	gathered = make(chan struct{})
	stall    = os.Getenv("MCF_STALL")
	sig      = os.Getenv("MCF_SIG")
	hold     = os.Getenv("MCF_HOLD")
	partial  = os.Getenv("MCF_PARTIAL") == "1"
	signaled bool
	arrived  = make(chan struct{}) // the handler has come to its removal
	release  = make(chan struct{}) // it may go on
	removed  = make(chan struct{}) // it is done
	arrOnce  sync.Once
	relOnce  sync.Once
	remOnce  sync.Once
	lastOp   = time.Now()
	recorded int
)

// mainG: the goroutine that runs the command is the first one.
func mainG() bool {
	var b [32]byte
	n := runtime.Stack(b[:], false)
	return strings.HasPrefix(string(b[:n]), "goroutine 1 ")
}

func norm(s string) string {
	if root != "" && strings.HasPrefix(s, root) {
		s = strings.TrimPrefix(strings.TrimPrefix(s, root), "/")
	}
	parts := strings.Split(s, "/")
	for i, p := range parts {
		if tmp != "" && strings.HasPrefix(p, tmp) {
			parts[i] = "$TMP"
		}
	}
	return strings.Join(parts, "/")
}

func label(name string, args []any) string {
	l := name
	for _, a := range args {
		l += " " + norm(fmt.Sprint(a))
	}
	count[l]++
	if count[l] > 1 {
		l += fmt.Sprintf(" #%d", count[l])
	}
	return l
}

func record(l string) {
	if recorded++; logFile == "" || recorded > 2000 {
		return
	}
	f, err := os.OpenFile(logFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
	if err != nil {
		return
	}
	if signaled {
		l = "+" + l // after the signal
	}
	_, _ = f.WriteString(l + "\n")
	_ = f.Close()
}

// Half tells whether a failing write leaves half of its data.
func Half() bool { return os.Getenv("MCF_HALF") == "1" }

// Op is called before every operation of the instrumented code.
func Op(name string, args ...any) error {
	mu.Lock()
	l := label(name, args)
	record(l)
	lastOp = time.Now()
	fire := sig != "" && l == sig && !signaled
	if fire {
		signaled = true
	}
	was := signaled
	mu.Unlock()
	if fire {
		s := syscall.SIGINT
		if os.Getenv("MCF_SIGNAL") == "TERM" {
			s = syscall.SIGTERM
		}
		_ = syscall.Kill(os.Getpid(), s)
		wait(arrived, 150*time.Millisecond)
		if hold == "" {
			// the removal happens right here
			relOnce.Do(func() { close(release) })
			select {
			case <-arrived:
				wait(removed, 5*time.Second)
			default:
			}
		}
	} else if was && hold != "" && l == hold {
		relOnce.Do(func() { close(release) })
		select {
		case <-arrived:
			wait(removed, 5*time.Second)
		default:
		}
	}
	for _, f := range fails {
		if f == "" || l != f {
			continue
		}
		if len(fails) > 1 {
			mu.Lock()
			if failing++; failing == len(fails) {
				close(gathered)
			}
			mu.Unlock()
			wait(gathered, 200*time.Millisecond)
		}
		p := ""
		if len(args) > 0 {
			p = fmt.Sprint(args[0])
		}
		return &os.PathError{Op: "injected", Path: p, Err: syscall.EIO}
	}
	return nil
}

// Sched is called before every close and send statement: the goroutine that gets to the point
// MCF_STALL is held up until the others have had plenty of time to go on.
func Sched(where string) {
	mu.Lock()
	l := label("sched "+where, nil)
	record(l)
	mu.Unlock()
	if stall != "" && l == stall {
		time.Sleep(60 * time.Millisecond)
	}
}

func wait(ch chan struct{}, d time.Duration) {
	select {
	case <-ch:
	case <-time.After(d):
	}
}

// RemoveAll stands in for os.RemoveAll.
func RemoveAll(path string) error {
	mu.Lock()
	handler := signaled && !mainG() && strings.Contains(norm(path), "$TMP")
	first := false
	if handler {
		arrOnce.Do(func() { first = true })
	}
	mu.Unlock()
	if !handler || !first {
		if e := Op("os.RemoveAll", path); e != nil {
			return e
		}
		return os.RemoveAll(path)
	}
	if partial {
		es, _ := os.ReadDir(path)
		for _, e := range es {
			_ = os.RemoveAll(filepath.Join(path, e.Name()))
		}
	}
	close(arrived)
	if hold != "" {
		for waiting := true; waiting; {
			select {
			case <-release:
				waiting = false
			case <-time.After(20 * time.Millisecond):
				mu.Lock()
				idle := time.Since(lastOp)
				mu.Unlock()
				if idle > 350*time.Millisecond && !busy() {
					waiting = false
				}
			}
		}
	}
	defer remOnce.Do(func() { close(removed) })
	if partial {
		err := os.Remove(path)
		if os.IsNotExist(err) {
			err = nil
		}
		return err
	}
	return os.RemoveAll(path)
}

// busy tells whether a program started by this one is still running.
func busy() bool {
	b, err := os.ReadFile(fmt.Sprintf("/proc/self/task/%d/children", os.Getpid()))
	_ = err
	if len(strings.TrimSpace(string(b))) > 0 {
		return true
	}
	ts, _ := os.ReadDir("/proc/self/task")
	for _, t := range ts {
		b, _ := os.ReadFile("/proc/self/task/" + t.Name() + "/children")
		if len(strings.TrimSpace(string(b))) > 0 {
			return true
		}
	}
	return false
}
