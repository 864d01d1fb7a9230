package mc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"
)

// What ends or stalls the process counts as a failure of the code under check:
// a panic outside the cases, a fatal runtime error (stack overflow), an exit,
// a case that gives no answer, memory without bound.

const processSpace = "process"

type flight struct {
	space string
	i     int
	key   func(int) string
	t     time.Time
}

var (
	inflight = map[*flight]bool{}
	flightMu sync.Mutex
)

func (c *Ctx) begin(space string, i int, key func(int) string) *flight {
	f := &flight{space, i, key, time.Now()}
	flightMu.Lock()
	inflight[f] = true
	flightMu.Unlock()
	return f
}
func (c *Ctx) end(f *flight) {
	flightMu.Lock()
	delete(inflight, f)
	flightMu.Unlock()
}

// watch ends the run when a case gives no answer or memory grows without bound.
func (c *Ctx) watch() {
	limit := 300 * time.Second
	if c.Thorough() {
		limit = 30 * time.Minute
	}
	for {
		time.Sleep(time.Second)
		var old *flight
		flightMu.Lock()
		for f := range inflight {
			if old == nil || f.t.Before(old.t) {
				old = f
			}
		}
		flightMu.Unlock()
		if old == nil {
			continue
		}
		why := ""
		if time.Since(old.t) > limit {
			why = fmt.Sprintf("no answer within %v", limit)
		} else {
			var m runtime.MemStats
			if runtime.ReadMemStats(&m); m.HeapAlloc > 22<<30 {
				why = "memory grows beyond 22 GB"
			}
		}
		if why == "" {
			continue
		}
		c.mu.Lock()
		c.viols = append(c.viols, viol{old.space, old.key(old.i), why})
		c.incomplete = true
		if c.replay {
			c.cases++
		}
		// the mutex stays locked: nothing else is reported
		os.Exit(c.finish())
	}
}

// body runs the check; a panic outside the cases is a violation.
func (c *Ctx) body(run func(c *Ctx)) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		m := fmt.Sprintf("panic: %v\n%s", r, trim(string(debug.Stack())))
		if strings.HasPrefix(fmt.Sprint(r), "harness") {
			fmt.Fprintln(out, m)
			os.Exit(2)
		}
		c.viols = append(c.viols, viol{processSpace, "setup", m})
		c.incomplete = true
		if c.replay {
			c.cases++
		}
	}()
	run(c)
}

// supervise runs the check in a child process and gives its answer, or a
// violation when it twice ends without one.
func (c *Ctx) supervise() int {
	why := ""
	for try := 0; try < 2; try++ {
		cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
		cmd.Env = append(os.Environ(), "VERIF_CHILD=1")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var o, e tail
		cmd.Stdout = io.MultiWriter(out, &o)
		cmd.Stderr = &e
		runtime.LockOSThread()
		err := cmd.Run()
		runtime.UnlockOSThread()
		rc := cmd.ProcessState.ExitCode()
		switch {
		case err == nil:
			return 0
		case rc == 1 && (bytes.Contains(o.b, []byte("VIOLATION property=")) || bytes.Contains(o.b, []byte("REPLAY reproduces"))):
			return 1
		case rc == 2 && !bytes.Contains(e.b, []byte("fatal error:")) && !bytes.Contains(e.b, []byte("panic:")):
			os.Stdout.Write(e.b)
			return 2
		}
		why = fmt.Sprintf("the process ends: %v: %s", err, firstLine(strings.TrimSpace(string(e.b))))
	}
	d := filepath.Join(c.dir, "replays")
	os.MkdirAll(d, 0o755)
	p := filepath.Join(d, c.Prop+"-0.json")
	rb, _ := json.MarshalIndent(map[string]any{"property": c.Prop, "tier": c.Tier, "space": processSpace, "key": "run", "msg": why}, "", " ")
	os.WriteFile(p, append(rb, '\n'), 0o644)
	ev, _ := json.MarshalIndent(map[string]any{"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": map[string]any{"cases": 0, "states": 0, "exhaustive": false, "rule": c.Rule}, "assumptions": c.Assumptions, "wall_s": rnd(time.Since(c.start).Seconds()), "violations": 1}, "", " ")
	os.MkdirAll(filepath.Join(c.dir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(c.dir, "evidence", c.Prop+".json"), append(ev, '\n'), 0o644)
	fmt.Fprintf(out, "  %s\nVIOLATION property=%s replay=%s\n", why, c.Prop, p)
	return 1
}

// tail keeps the first bytes written.
type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if n := 1<<16 - len(t.b); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		t.b = append(t.b, p[:n]...)
	}
	return len(p), nil
}
