// Package mc is the driver shared by all checks: it enumerates finite spaces of
// cases in parallel, counts what was explored, confirms and reports violations,
// writes replay files and the evidence file.
package mc

import (
	"encoding/json"
	"fmt"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	glog "github.com/celer-network/goutils/log"
)

type Meta struct {
	Prop        string
	Level       string // model_checking unless set
	Rule        string // how cases are made
	Assumptions []string
	QuickBudget time.Duration // wall budget for quick
	DeepBudget  time.Duration
}

type viol struct {
	Space string `json:"space"`
	Key   string `json:"key"`
	Msg   string `json:"msg"`
}

type known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Space    string `json:"space"`
	Key      string `json:"key"`        // exact key
	KeyHas   string `json:"key_prefix"` // or a key prefix
	What     string `json:"what"`
}

type Ctx struct {
	Meta
	Tier string
	Seed int64

	states, trans, traces, cases int64
	mu                           sync.Mutex
	samples                      []string
	sampleSpaces                 map[string]int
	viols                        []viol
	knownHits                    map[string]string
	flaky                        []viol
	spaces                       []map[string]any
	start, deadline              time.Time
	incomplete                   bool
	replaySpace, replayKey       string
	replay                       bool
	known                        []known
	dir                          string
	extra                        map[string]any
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Replaying tells that only one recorded case is run.
func (c *Ctx) Replaying() bool { return c.replay }

// Pick returns q in quick and t in thorough.
func Pick[T any](c *Ctx, q, t T) T {
	if c.Thorough() {
		return t
	}
	return q
}

func (c *Ctx) State(n int) { atomic.AddInt64(&c.states, int64(n)) }
func (c *Ctx) Trans(n int) { atomic.AddInt64(&c.trans, int64(n)) }
func (c *Ctx) Trace(n int) { atomic.AddInt64(&c.traces, int64(n)) }

// Expired tells that the time budget is used up; the run is then not exhaustive.
func (c *Ctx) Expired() bool {
	if time.Now().After(c.deadline) {
		c.mu.Lock()
		c.incomplete = true
		c.mu.Unlock()
		return true
	}
	return false
}
func (c *Ctx) Extra(k string, v any) {
	c.mu.Lock()
	c.extra[k] = v
	c.mu.Unlock()
}
func (c *Ctx) Sample(space, s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sampleSpaces[space] >= 2 || len(c.samples) >= 60 {
		return
	}
	c.sampleSpaces[space]++
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	c.samples = append(c.samples, space+": "+s)
}

// Each runs run(i) for every i in [0,n) on all cores. run returns "" when the
// property held on the case, else what failed. key names the case (stable).
func (c *Ctx) Each(space string, n int, key func(i int) string, run func(i int) string) {
	if c.replay {
		if space != c.replaySpace {
			return
		}
		for i := 0; i < n; i++ {
			if key(i) == c.replayKey {
				m := safe(run, i)
				c.cases++
				if m != "" {
					c.viols = append(c.viols, viol{space, key(i), m})
				}
			}
		}
		return
	}
	t0 := time.Now()
	var next, done int64
	var wg sync.WaitGroup
	nw := runtime.NumCPU()
	if nw > n {
		nw = n
	}
	stop := int32(0)
	chunk := int64(1)
	if n > 100000 {
		chunk = 64
	}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				lo := atomic.AddInt64(&next, chunk) - chunk
				if lo >= int64(n) {
					return
				}
				if c.Expired() {
					atomic.StoreInt32(&stop, 1)
					c.mu.Lock()
					c.incomplete = true
					c.mu.Unlock()
					return
				}
				for j := lo; j < lo+chunk && j < int64(n); j++ {
					i := int(j)
					fl := c.begin(space, i, key)
					m := safe(run, i)
					c.end(fl)
					atomic.AddInt64(&done, 1)
					if m != "" {
						if c.report(space, key(i), m, func() string { return safe(run, i) }) {
							atomic.StoreInt32(&stop, 1)
						}
					} else if i == 0 || i == n/2 {
						c.Sample(space, key(i))
					}
				}
			}
		}()
	}
	wg.Wait()
	atomic.AddInt64(&c.cases, done)
	c.mu.Lock()
	c.spaces = append(c.spaces, map[string]any{"space": space, "cases": done, "of": n, "wall_s": rnd(time.Since(t0).Seconds())})
	c.mu.Unlock()
}

// One runs a single named case.
func (c *Ctx) One(space, key string, run func() string) {
	c.Each(space, 1, func(int) string { return key }, func(int) string { return run() })
}

func rnd(f float64) float64 { return float64(int(f*1000)) / 1000 }

func safe(run func(int) string, i int) (m string) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			m = fmt.Sprintf("panic: %v\n%s", r, trim(st))
		}
	}()
	return run(i)
}

func trim(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/runtime/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// report confirms and records; true when exploration of this space should stop.
func (c *Ctx) report(space, key, msg string, again func() string) bool {
	seen := false
	for r := 0; r < 6 && !seen; r++ {
		seen = again() != ""
	}
	if !seen {
		c.mu.Lock()
		c.flaky = append(c.flaky, viol{space, key, msg})
		c.mu.Unlock()
		return false
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.known {
		if k.Status == "known" && k.Space == space && ((k.Key != "" && k.Key == key) || (k.KeyHas != "" && strings.HasPrefix(key, k.KeyHas))) {
			c.knownHits[k.What] = key
			return false
		}
	}
	n := 0
	for _, v := range c.viols {
		if v.Space == space {
			if v.Key == key {
				return false
			}
			n++
		}
	}
	if n < 5 {
		c.viols = append(c.viols, viol{space, key, msg})
	}
	return n+1 >= 5
}

// out is where the check itself prints; the code under check prints a lot and
// gets /dev/null as its stdout and stderr.
var out = os.Stdout

// Main runs a check.
func Main(m Meta, body func(c *Ctx)) {
	if dn, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil && os.Getenv("VERIF_LOUD") == "" {
		os.Stdout = dn
		os.Stderr = dn
		log.SetOutput(dn)
		glog.SetLevel(glog.FatalLevel)
	}
	if m.Level == "" {
		m.Level = "model_checking"
	}
	if m.QuickBudget == 0 {
		m.QuickBudget = 8 * time.Minute
	}
	if m.DeepBudget == 0 {
		m.DeepBudget = 45 * time.Minute
	}
	c := &Ctx{Meta: m, Tier: os.Getenv("VERIF_TIER"), start: time.Now(), knownHits: map[string]string{}, sampleSpaces: map[string]int{}, extra: map[string]any{}}
	if c.Tier == "" {
		c.Tier = "quick"
	}
	c.Seed = 1
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.Seed = s
	}
	c.dir = os.Getenv("VERIF_DIR")
	if c.dir == "" {
		c.dir = "/verif"
	}
	for i := 1; i < len(os.Args); i++ {
		if os.Args[i] == "--replay" && i+1 < len(os.Args) {
			b, err := os.ReadFile(os.Args[i+1])
			if err != nil {
				fmt.Fprintln(out, "replay:", err)
				os.Exit(2)
			}
			var v viol
			if err := json.Unmarshal(b, &v); err != nil {
				fmt.Fprintln(out, "replay:", err)
				os.Exit(2)
			}
			c.replay, c.replaySpace, c.replayKey = v.Space != processSpace, v.Space, v.Key // a process failure replays the whole run
			var t struct{ Tier string }
			json.Unmarshal(b, &t)
			if t.Tier != "" {
				c.Tier = t.Tier
			}
			i++
		}
	}
	if b, err := os.ReadFile(filepath.Join(c.dir, "known-findings.jsonl")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimSpace(l)
			if l == "" {
				continue
			}
			var k known
			if err := json.Unmarshal([]byte(l), &k); err != nil {
				fmt.Fprintln(out, "known-findings.jsonl:", err)
				os.Exit(2)
			}
			if k.Property == c.Prop {
				c.known = append(c.known, k)
			}
		}
	}
	if c.Thorough() {
		c.deadline = c.start.Add(m.DeepBudget)
	} else {
		c.deadline = c.start.Add(m.QuickBudget)
	}
	if os.Getenv("VERIF_CHILD") == "" && os.Getenv("VERIF_LOUD") == "" {
		os.Exit(c.supervise())
	}
	go c.watch()
	c.body(body)
	os.Exit(c.finish())
}

func (c *Ctx) finish() int {
	if c.replay {
		if c.cases == 0 {
			fmt.Fprintln(out, "replay: case not found in this build's spaces")
			return 2
		}
		for _, v := range c.viols {
			fmt.Fprintf(out, "REPLAY reproduces: %s / %s\n%s\n", v.Space, v.Key, v.Msg)
		}
		if len(c.viols) == 0 {
			fmt.Fprintln(out, "REPLAY: property held on this case")
			return 0
		}
		return 1
	}
	wall := time.Since(c.start).Seconds()
	sort.Strings(c.samples)
	cov := map[string]any{
		"states":                        c.states,
		"transitions":                   c.trans,
		"traces_validated_against_impl": c.traces,
		"cases":                         c.cases,
		"spaces":                        c.spaces,
		"samples":                       c.samples,
		"exhaustive":                    !c.incomplete && len(c.viols) == 0,
		"rule":                          c.Rule,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	if c.Level != "model_checking" {
		cov["evaluations"] = c.cases
		cov["distinct_nontrivial"] = c.states
	}
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": cov, "assumptions": c.Assumptions, "wall_s": rnd(wall), "violations": len(c.viols),
	}
	if len(c.flaky) > 0 {
		ev["not_reproduced"] = c.flaky
	}
	var kh []string
	for w := range c.knownHits {
		kh = append(kh, w)
	}
	sort.Strings(kh)
	if len(kh) > 0 {
		ev["known_findings"] = kh
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.dir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(c.dir, "evidence", c.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(out, "evidence:", err)
		return 2
	}
	for _, w := range kh {
		fmt.Fprintf(out, "KNOWN-FINDING: property=%s %s\n", c.Prop, w)
	}
	if len(c.viols) > 40 {
		c.viols = c.viols[:40]
	}
	for i, v := range c.viols {
		d := filepath.Join(c.dir, "replays")
		os.MkdirAll(d, 0o755)
		p := filepath.Join(d, fmt.Sprintf("%s-%d.json", c.Prop, i))
		rb, _ := json.MarshalIndent(map[string]any{"property": c.Prop, "tier": c.Tier, "space": v.Space, "key": v.Key, "msg": v.Msg}, "", " ")
		os.WriteFile(p, append(rb, '\n'), 0o644)
		if i >= 6 {
			continue
		}
		fmt.Fprintf(out, "  %s / %s: %s\n", v.Space, v.Key, firstLine(v.Msg))
		fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n", c.Prop, p)
	}
	fmt.Fprintf(out, "%s %s: cases=%d states=%d transitions=%d traces=%d exhaustive=%v wall=%.1fs violations=%d\n", c.Prop, c.Tier, c.cases, c.states, c.trans, c.traces, !c.incomplete, wall, len(c.viols))
	if len(c.viols) > 0 {
		return 1
	}
	return 0
}

func firstLine(s string) string {
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}
