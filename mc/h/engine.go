package h

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"plugin"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	"verif.local/mc/rt"
)

// Ctx is one execution: a path through the choice tree of a case.
type Ctx struct {
	r       *Runner
	Case    string
	prefix  []int
	choices []int
	ns      []int
	pruned  bool
	Log     []string
	viol    []Violation
	mu      sync.Mutex
	shardAt int // number of real choices after which the sharding decision is taken (0: none)
	sharded bool
	Diverge bool
	desc    string
}

// Choose picks one of n alternatives; all of them are explored.
func (c *Ctx) Choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	i := len(c.choices)
	k := 0
	if i < len(c.prefix) {
		k = c.prefix[i]
		if k >= n {
			c.Diverge = true
			k = n - 1
		}
	}
	c.choices = append(c.choices, k)
	c.ns = append(c.ns, n)
	return k
}

func (c *Ctx) violate(props []string, msg string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.viol = append(c.viol, Violation{props, msg})
}

func (c *Ctx) Desc(format string, args ...any) { c.desc += fmt.Sprintf(format, args...) + "\n" }

type Found struct {
	Suite   string   `json:"suite"`
	Props   []string `json:"props"`
	Msg     string   `json:"msg"`
	Case    string   `json:"case"`
	Choices []int    `json:"choices"`
	Log     []string `json:"log"`
	Count   int      `json:"count"`
}

type Result struct {
	Suite      string            `json:"suite"`
	Shard      int               `json:"shard"`
	Cases      int64             `json:"cases"`
	MyCases    int64             `json:"my_cases"`
	Executions int64             `json:"executions"`
	States     int64             `json:"states"`
	Trans      int64             `json:"transitions"`
	Events     int64             `json:"events"`
	Capped     bool              `json:"capped"`
	CapReason  string            `json:"cap_reason"`
	Diverged   int64             `json:"diverged"`
	Found      []*Found          `json:"found"`
	Samples    []string          `json:"samples"`
	Counters   map[string]int64  `json:"counters"`
	Bounds     map[string]string `json:"bounds"`
	Wall       float64           `json:"wall_s"`
	Done       bool              `json:"done"`
	Hashes     []string          `json:"hashes"` // abstract states seen (merged over the workers by the driver)
}

type Runner struct {
	T        *testing.T
	Suite    *Suite
	Shard    int
	N        int
	Tier     string
	Deadline time.Time
	Res      *Result
	idx      int64
	skipTo   int64
	replay   *Found
	only     string
	progress string
	state    atomic.Pointer[string]
	caseT0   atomic.Int64
	Scratch  string
	found    map[string]*Found
	hangSecs int
	states   map[uint64]struct{}
	claims   []uint32
	piece    int64
}

// State records an abstract state (deduplicated); Transition one judged step between two of them.
func (r *Runner) State(desc string) {
	h := fnv.New64a()
	_, _ = h.Write([]byte(desc))
	if r.states == nil {
		r.states = map[uint64]struct{}{}
	}
	if len(r.states) < 2000000 {
		r.states[h.Sum64()] = struct{}{}
	}
}

func (r *Runner) Transition() { r.Res.Trans++ }

type Suite struct {
	Name      string
	Props     []string // properties it produces verdicts for
	CrashTags []string
	HangTags  []string
	Mode      int32
	Run       func(r *Runner)
}

var suites = map[string]*Suite{}

func register(s *Suite) { suites[s.Name] = s }

func (r *Runner) Thorough() bool { return r.Tier == "thorough" }

func (r *Runner) Bound(k, format string, args ...any) {
	r.Res.Bounds[k] = fmt.Sprintf(format, args...)
}
func (r *Runner) Count(k string, n int64) { r.Res.Counters[k] += n }

func (r *Runner) expired() bool {
	if !r.Deadline.IsZero() && time.Now().After(r.Deadline) {
		r.Res.Capped = true
		r.Res.CapReason = "time budget"
		return true
	}
	return false
}

// mine tells whether the next case is to be run by this worker.
func (r *Runner) mine(id string) bool {
	i := r.idx
	r.idx++
	r.Res.Cases++
	if r.replay != nil {
		return id == r.replay.Case
	}
	if r.only != "" {
		return id == r.only
	}
	if i < r.skipTo {
		r.piece++
		return false
	}
	if r.expired() {
		return false
	}
	return r.claim(i)
}

// claim tells whether this worker takes the next piece of work. All workers number the pieces
// alike; without a table of claims the pieces are dealt out in turn.
func (r *Runner) claim(i int64) bool {
	n := r.piece
	r.piece++
	if r.N <= 1 {
		return true
	}
	if r.claims == nil || n >= int64(len(r.claims)) {
		return i%int64(r.N) == int64(r.Shard)
	}
	return atomic.CompareAndSwapUint32(&r.claims[n], 0, uint32(r.Shard)+1)
}

func openClaims(path string) []uint32 {
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		return nil
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil || fi.Size() < 4 {
		return nil
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, int(fi.Size()), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return unsafe.Slice((*uint32)(unsafe.Pointer(&b[0])), len(b)/4)
}

// Case runs one deterministic execution.
func (r *Runner) Case(id string, f func(c *Ctx)) {
	if !r.mine(id) {
		return
	}
	r.Res.MyCases++
	c := &Ctx{r: r, Case: id}
	if r.replay != nil {
		c.prefix = r.replay.Choices
	}
	r.exec(c, f)
}

// CaseDFS explores the whole choice tree of a case. The trees are big, so each of them is split
// over all workers by the first depth choices.
func (r *Runner) CaseDFS(id string, depth int, f func(c *Ctx)) {
	r.idx++
	r.Res.Cases++
	if r.replay != nil {
		if id == r.replay.Case {
			c := &Ctx{r: r, Case: id, prefix: r.replay.Choices}
			r.exec(c, f)
		}
		return
	}
	if r.only != "" && id != r.only || r.idx-1 < r.skipTo {
		return
	}
	if r.expired() {
		return
	}
	r.Res.MyCases++
	var prefix []int
	subtree := int64(-1)
	var lastKey string
	own := false
	for {
		if r.expired() {
			return
		}
		c := &Ctx{r: r, Case: id, prefix: prefix}
		r.exec(c, f)
		// sharding: number the subtrees below the first depth choices in DFS order
		d := depth
		if d > len(c.choices) {
			d = len(c.choices)
		}
		key := fmt.Sprint(c.choices[:d])
		if key != lastKey {
			subtree++
			lastKey = key
			own = r.claim(subtree)
		}
		cut := len(c.choices)
		if !own {
			cut = d // not ours: skip the rest of this subtree
			r.Count("skipped_subtrees", 1)
		}
		// next prefix
		i := cut - 1
		for i >= 0 && c.choices[i]+1 >= c.ns[i] {
			i--
		}
		if i < 0 {
			return
		}
		prefix = append(append([]int(nil), c.choices[:i]...), c.choices[i]+1)
	}
}

// CaseTree is CaseDFS for a case owned by one worker.
func (r *Runner) CaseTree(id string, f func(c *Ctx)) {
	if !r.mine(id) {
		return
	}
	r.Res.MyCases++
	if r.replay != nil {
		r.exec(&Ctx{r: r, Case: id, prefix: r.replay.Choices}, f)
		return
	}
	var prefix []int
	for {
		if r.expired() {
			return
		}
		c := &Ctx{r: r, Case: id, prefix: prefix}
		r.exec(c, f)
		i := len(c.choices) - 1
		for i >= 0 && c.choices[i]+1 >= c.ns[i] {
			i--
		}
		if i < 0 {
			return
		}
		prefix = append(append([]int(nil), c.choices[:i]...), c.choices[i]+1)
	}
}

func (r *Runner) exec(c *Ctx, f func(c *Ctx)) {
	st := fmt.Sprintf("%s\n%d\n%s\n%v", r.Suite.Name, r.idx-1, c.Case, c.prefix)
	r.state.Store(&st)
	r.caseT0.Store(time.Now().UnixNano())
	if r.progress != "" {
		writeProgress(r.progress, st)
	}
	f(c)
	r.caseT0.Store(0)
	r.Res.Executions++
	if c.Diverge {
		r.Res.Diverged++
	}
	if len(r.Res.Samples) < 3 && (r.Res.Executions == 1 || r.Res.Executions == 17 || r.Res.Executions == 97) {
		s := c.Case
		if len(c.choices) > 0 {
			s += fmt.Sprintf(" choices=%v", c.choices)
		}
		if c.desc != "" {
			s += " :: " + strings.ReplaceAll(strings.TrimSpace(c.desc), "\n", "; ")
		}
		r.Res.Samples = append(r.Res.Samples, s)
	}
	for _, v := range c.viol {
		r.report(c, v)
	}
}

func (r *Runner) report(c *Ctx, v Violation) {
	key := strings.Join(v.Props, ",") + "|" + firstWords(v.Msg)
	if f := r.found[key]; f != nil {
		f.Count++
		return
	}
	if len(r.found) > 60 {
		return
	}
	f := &Found{Suite: r.Suite.Name, Props: v.Props, Msg: v.Msg, Case: c.Case, Choices: append([]int(nil), c.choices...),
		Log: append([]string(nil), c.Log...), Count: 1}
	if c.desc != "" {
		f.Log = append(strings.Split(strings.TrimSpace(c.desc), "\n"), f.Log...)
	}
	r.found[key] = f
	r.Res.Found = append(r.Res.Found, f)
}

func firstWords(s string) string {
	var b strings.Builder
	for _, ch := range s {
		if ch >= '0' && ch <= '9' {
			continue
		}
		b.WriteRune(ch)
		if b.Len() > 50 {
			break
		}
	}
	return b.String()
}

var progressFile *os.File

func writeProgress(path, st string) {
	if progressFile == nil {
		f, err := os.Create(path)
		if err != nil {
			return
		}
		progressFile = f
	}
	b := make([]byte, 0, len(st)+8)
	b = append(b, st...)
	b = append(b, 0)
	_, _ = progressFile.WriteAt(b, 0)
}

// ---------------------------------------------------------------------------------- worlds

var caseDirN int

func (r *Runner) caseDir() string {
	caseDirN++
	d := filepath.Join(r.Scratch, "w"+strconv.Itoa(caseDirN))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d
}

func newWorld(c *Ctx) *World {
	w := &World{c: c, specs: map[string]*Spec{}, byG: map[uint64]int{}, cbFor: map[uint64]*Attempt{}, Start: time.Now()}
	w.Dir = c.r.caseDir()
	w.Log = &Logger{w: w}
	w.M.W = w
	return w
}

// Seq runs body sequentially on virtual time; body runs in its own goroutine of the bubble.
func Seq(c *Ctx, hangProps []string, body func(w *World)) {
	rt.SetMode(rt.Seq)
	plugin.VerifMapOffset(false, 0)
	defer ignoreLeak()
	rt.NewEpoch()
	synctest.Test(c.r.T, func(t *testing.T) {
		w := newWorld(c)
		curWorld = w
		done := make(chan any, 1)
		go func() {
			defer func() {
				if x := recover(); x != nil {
					done <- fmt.Sprintf("%v\n%s", x, debug.Stack())
					return
				}
				done <- nil
			}()
			body(w)
		}()
		select {
		case x := <-done:
			time.Sleep(300000 * time.Hour) // delayed frees that are still pending
			w.checkOpened()
			if x != nil {
				w.dump()
				c.violate([]string{"HARNESS"}, fmt.Sprintf("harness panic: %v", x))
			}
		case <-time.After(1500000 * time.Hour):
			w.dump()
			c.violate(hangProps, "deadlock: the operation never returns (all goroutines are blocked for good)")
			c.r.finishAfterDeadlock(c)
		}
		w.finish()
	})
	plugin.VerifMapOffset(false, 0)
	curWorld = nil
}

// ignoreLeak: a goroutine that outlives an execution is not what is judged here.
func ignoreLeak() {
	if x := recover(); x != nil {
		if strings.Contains(fmt.Sprint(x), "blocked goroutines remain") {
			return
		}
		panic(x)
	}
}

func (w *World) finish() {
	w.dump()
	w.c.r.Res.Events += int64(len(w.Evs))
	plugin.VerifMapOffset(false, 0)
	_ = os.RemoveAll(w.Dir)
	for _, d := range w.moreDirs {
		_ = os.RemoveAll(d)
	}
}

func (w *World) dump() {
	if len(w.c.viol) == 0 && w.c.r.replay == nil {
		return
	}
	if len(w.c.Log) > 0 {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, a := range w.Attempts {
		w.c.Log = append(w.c.Log, fmt.Sprintf("attempt %d %s: err=%v details=%v", a.N, a.Kind, firstLine(a.Err), a.Details))
	}
	for _, e := range w.Evs {
		w.c.Log = append(w.c.Log, e.String())
	}
}

func firstLine(err error) string {
	if err == nil {
		return "<nil>"
	}
	s := err.Error()
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

// finishAfterDeadlock: the bubble can not be left any more; save the result and end the process.
func (r *Runner) finishAfterDeadlock(c *Ctx) {
	r.Res.Executions++
	for _, v := range c.viol {
		r.report(c, v)
	}
	r.Res.Capped = true
	r.Res.CapReason = "worker ended after a deadlock"
	r.save()
	os.Exit(3)
}

func (r *Runner) save() {
	r.Res.States = int64(len(r.states))
	if len(r.states) <= 300000 {
		for h := range r.states {
			r.Res.Hashes = append(r.Res.Hashes, strconv.FormatUint(h, 36))
		}
	}
	sort.Slice(r.Res.Found, func(i, j int) bool { return r.Res.Found[i].Case < r.Res.Found[j].Case })
	b, _ := json.MarshalIndent(r.Res, "", " ")
	out := os.Getenv("MC_OUT")
	if out == "" {
		fmt.Println(string(b))
		return
	}
	_ = os.WriteFile(out+".tmp", b, 0644)
	_ = os.Rename(out+".tmp", out)
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

// Main is called by the only test of the test binary.
func Main(t *testing.T) {
	name := os.Getenv("MC_SUITE")
	s := suites[name]
	if s == nil {
		t.Fatalf("unknown suite %q", name)
	}
	r := &Runner{T: t, Suite: s, Shard: atoi(os.Getenv("MC_SHARD")), N: atoi(os.Getenv("MC_N")), Tier: os.Getenv("MC_TIER"), found: map[string]*Found{}}
	if r.N == 0 {
		r.N = 1
	}
	r.only = os.Getenv("MC_CASE")
	r.skipTo = int64(atoi(os.Getenv("MC_SKIPTO")))
	r.progress = os.Getenv("MC_PROGRESS")
	if f := os.Getenv("MC_CLAIMS"); f != "" {
		r.claims = openClaims(f)
	}
	r.Scratch = os.Getenv("MC_SCRATCH")
	if r.Scratch == "" {
		t.Fatal("MC_SCRATCH is not set")
	}
	if b := atoi(os.Getenv("MC_BUDGET")); b > 0 {
		r.Deadline = time.Now().Add(time.Duration(b) * time.Second)
	}
	r.hangSecs = atoi(os.Getenv("MC_HANG"))
	if r.hangSecs == 0 {
		r.hangSecs = 60
	}
	if f := os.Getenv("MC_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		r.replay = &Found{}
		if err := json.Unmarshal(b, r.replay); err != nil {
			t.Fatal(err)
		}
	}
	r.Res = &Result{Suite: name, Shard: r.Shard, Counters: map[string]int64{}, Bounds: map[string]string{}}
	t0 := time.Now()
	// the watchdog lives outside every bubble: a case that does not come back is reported
	go func() {
		for {
			time.Sleep(time.Second)
			if x := r.caseT0.Load(); x != 0 && time.Since(time.Unix(0, x)) > time.Duration(r.hangSecs)*time.Second {
				debug.SetTraceback("all")
				panic("MC-HANG: " + *r.state.Load())
			}
		}
	}()
	s.Run(r)
	r.Res.Wall = time.Since(t0).Seconds()
	r.Res.Done = true
	r.save()
	if r.replay != nil {
		for _, f := range r.Res.Found {
			fmt.Printf("REPRODUCED %v %s\n", f.Props, f.Msg)
			for _, l := range f.Log {
				fmt.Println("   ", l)
			}
		}
	}
}
