package clih

import (
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The real suite binds the in-memory plugin loader of the library suites to reality: plugins are built
// with the hotswap command and loaded by a host program through Go's own plugin package. Every history
// over a small alphabet of directory changes, failures and damages is run and compared with a model
// that is independent of the one of the library suites.

func init() { register(&Suite{Name: "real", Run: runReal}) }

const realRec = `package rec

import "fmt"

var Events []string
var Fail string // "Phase:version", or "panic:Phase:version"

func Do(phase, ver string) error {
	Events = append(Events, phase+" "+ver)
	if Fail == "panic:"+phase+":"+ver {
		panic("wanted panic in " + ver)
	}
	if Fail == phase+":"+ver {
		return fmt.Errorf("wanted error in %s", ver)
	}
	return nil
}

type Base interface {
	Ver() string
	Bump() int
}
`

// P = package, V = version, D = field of the import struct, R = reloadable
const realPlugin = `package P

import (
	"fmt"

	"github.com/edwingeng/hotswap/vault"
	"scratch.local/m/rec"
)

const ver = "V"

var counter int

var PubVar = "V"
var pubFunc = func() string { return "V" }
var PubFuncVar = pubFunc

type impl struct{}

func (impl) Ver() string { return ver }
func (impl) Bump() int   { counter++; return counter }

type deps struct {D}

var imp deps

func Ver(a int) string { return fmt.Sprint(ver, a) }

func OnLoad(data interface{}) error { return rec.Do("OnLoad", ver+"/"+fmt.Sprint(data)) }
func OnInit(v *vault.Vault) error {
	v.DataBag["P"] = ver
	n := ""
	if f, ok := v.LiveFuncs["live_base"].(func() string); ok {
		n = f()
	}
	return rec.Do("OnInit", ver+"/"+n)
}
func OnFree() { _ = rec.Do("OnFree", ver) }
func Export() interface{} {
	if err := rec.Do("Export", ver); err != nil {
		panic(err)
	}
	return &impl{}
}
func Import() interface{} {
	if err := rec.Do("Import", ver); err != nil {
		panic(err)
	}
	return &imp
}
func InvokeFunc(name string, params ...interface{}) (interface{}, error) {
	switch name {
	case "ver":
		return ver, nil
	case "bump":
		return impl{}.Bump(), nil
	case "dep":
		return DEPVER, nil
	case "bumpdep":
		return DEPBUMP, nil
	case "param":
		return params, nil
	}
	return nil, fmt.Errorf("unknown %s", name)
}
func Reloadable() bool { _ = rec.Do("Reloadable", ver); return R }

func live_P() string { return ver }

type live_tP struct{ A int }
`

const realHost = `package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/slog"
	"scratch.local/m/rec"
)

type step struct {
	Put     map[string]string // file name -> source file, "" = remove
	Fail    string
	Load    bool
	CbFail  bool
	Damage  string // after the load: truncate, overwrite, remove
	Sleep   int
	Data    string
}

type plug struct {
	Ver, Dep string
	Bump     int
	DepBump  int
	File     string
	Sha      string
	Note     string
	Lookup   []string
}

type mgr struct {
	Same  bool
	Nil   bool
	Names []string
	P     map[string]plug
	Live  map[string]string
	Types map[string]string
	Bag   map[string]string
}

type result struct {
	Err     string
	Details map[string]string
	NilDet  bool
	Counter int64
	Events  []string
	Cur     mgr
	Older   []map[string]string
}

func put(dst, src string) {
	if src == "" {
		must(os.Remove(dst))
		return
	}
	b, err := os.ReadFile(src)
	must(err)
	must(os.WriteFile(dst, b, 0644))
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func show(v interface{}, err error) string {
	if err != nil {
		return "err " + err.Error()
	}
	return fmt.Sprint(v)
}

func lookups(p *hotswap.Plugin) (a []string) {
	add := func(err error, v interface{}) {
		s := "ok"
		if err == hotswap.ErrNotExist {
			s = "ErrNotExist"
		} else if err != nil {
			s = "error"
			if errors.Is(err, hotswap.ErrNotExist) {
				s = "wraps"
			}
		}
		a = append(a, s+" "+fmt.Sprint(v))
	}
	var f func(int) string
	err := p.Lookup("Ver", &f)
	if f != nil {
		add(err, f(7))
	} else {
		add(err, "nil")
	}
	var s string
	add(p.Lookup("PubVar", &s), s)
	s = "x"
	var ps *string
	err = p.Lookup("PubVar", &ps)
	if ps != nil {
		add(err, *ps)
	} else {
		add(err, "nil")
	}
	var n = 5
	add(p.Lookup("PubVar", &n), n)
	var g = func() string { return "old" }
	add(p.Lookup("Ver", &g), g())
	add(p.Lookup("PubFuncVar", &g), g())
	add(p.Lookup("NoSuch", &s), s)
	add(p.Lookup("ver", &s), s)
	add(p.Lookup("Ver", f), f == nil)
	add(p.Lookup("Ver", nil), "")
	return a
}

func view(m *hotswap.PluginManager) (r mgr) {
	if m == nil {
		r.Nil = true
		return
	}
	r.P, r.Live, r.Types, r.Bag = map[string]plug{}, map[string]string{}, map[string]string{}, map[string]string{}
	for _, p := range m.Plugins() {
		r.Names = append(r.Names, p.Name)
	}
	for _, name := range []string{"base", "BASE", "User", "user", "solo", "tmp", "base.so", "rec"} {
		p := m.FindPlugin(name)
		if p == nil {
			continue
		}
		var q plug
		q.Ver = show(p.InvokeFunc("ver"))
		if name == p.Name {
			q.Dep = show(p.InvokeFunc("dep"))
			b, _ := p.InvokeFunc("bump")
			q.Bump, _ = b.(int)
			b, _ = p.InvokeFunc("bumpdep")
			q.DepBump, _ = b.(int)
			q.Lookup = lookups(p)
		}
		q.File, q.Note, q.Sha = p.File, p.Note, fmt.Sprintf("%x", p.FileSha1)
		r.P[name] = q
	}
	for k, f := range m.LiveFuncs {
		g, ok := f.(func() string)
		if ok {
			r.Live[k] = g()
		} else {
			r.Live[k] = fmt.Sprintf("%T", f)
		}
	}
	for k, f := range m.LiveTypes {
		t := reflect.TypeOf(f())
		r.Types[k] = t.Kind().String() + " " + t.Elem().Name()
	}
	for k, v := range m.DataBag {
		r.Bag[k] = fmt.Sprint(v)
	}
	return
}

func main() {
	var steps []step
	must(json.Unmarshal([]byte(os.Args[2]), &steps))
	dir := os.Args[1]
	sw := hotswap.NewPluginManagerSwapper(dir, hotswap.WithLogger(slog.NewDumbLogger()), hotswap.WithFreeDelay(time.Second))
	var out []result
	var mgrs []*hotswap.PluginManager
	for _, s := range steps {
		var names []string
		for f := range s.Put {
			names = append(names, f)
		}
		sort.Strings(names)
		for _, f := range names {
			put(dir+"/"+f, s.Put[f])
		}
		rec.Fail = s.Fail
		rec.Events = nil
		before := sw.Current()
		var d hotswap.Details
		var err error
		if s.Load {
			d, err = sw.LoadPlugins(s.Data)
		} else if s.CbFail {
			d, err = sw.ReloadWithCallback(s.Data, func(a, b *hotswap.PluginManager) error {
				_ = rec.Do("Callback", fmt.Sprint(b == before, a != b, sw.Current() == b))
				return errors.New("wanted callback error")
			})
		} else {
			d, err = sw.Reload(s.Data)
		}
		if s.Damage != "" {
			es, _ := os.ReadDir(dir)
			for _, e := range es {
				if !strings.HasSuffix(e.Name(), ".so") {
					continue
				}
				f := dir + "/" + e.Name()
				switch s.Damage {
				case "truncate":
					must(os.Truncate(f, 0))
				case "overwrite":
					fi, _ := os.Stat(f)
					must(os.WriteFile(f, make([]byte, fi.Size()), 0644))
				case "remove":
					must(os.Remove(f))
				}
			}
		}
		rec.Fail = ""
		if s.Sleep > 0 {
			time.Sleep(time.Duration(s.Sleep) * time.Millisecond)
		}
		x := result{Details: d, NilDet: d == nil, Counter: sw.ReloadCounter()}
		if err != nil {
			x.Err = err.Error()
		}
		x.Events = append(x.Events, rec.Events...)
		cur := sw.Current()
		x.Cur = view(cur)
		x.Cur.Same = cur == before
		if !x.Cur.Same {
			mgrs = append(mgrs, cur)
		}
		for _, m := range mgrs {
			o := map[string]string{}
			for _, p := range m.Plugins() {
				o[p.Name] = show(p.InvokeFunc("ver")) + "/" + show(p.InvokeFunc("dep")) + "/" + show(m.FindPlugin(p.Name).InvokeFunc("param", 1, "a"))
			}
			x.Older = append(x.Older, o)
		}
		out = append(out, x)
	}
	must(json.NewEncoder(os.Stdout).Encode(out))
}
`

const realFacts = `package main

import (
	"fmt"
	"os"
	"plugin"
	"strings"
)

// argv: a.so (base1), b.so (base2), dir
func main() {
	dir := os.Args[3]
	cp := func(src, dst string) string {
		b, err := os.ReadFile(src)
		if err != nil {
			panic(err)
		}
		// The file may be mapped; a truncated one would kill the process.
		if err := os.WriteFile(dir+"/new", b, 0644); err != nil {
			panic(err)
		}
		if err := os.Rename(dir+"/new", dir+"/"+dst); err != nil {
			panic(err)
		}
		return dir + "/" + dst
	}
	a := cp(os.Args[1], "a.so")
	p1, err := plugin.Open(a)
	fmt.Println("open", err == nil)
	p2, err := plugin.Open(a)
	fmt.Println("again", err == nil, p1 == p2)
	_, err = plugin.Open(cp(os.Args[1], "a2.so"))
	fmt.Println("copy", err != nil && strings.Contains(err.Error(), "already loaded"))
	q, err := plugin.Open(cp(os.Args[2], "b.so"))
	fmt.Println("other", err == nil, q != p1)
	_ = os.WriteFile(dir+"/c.so", []byte("garbage"), 0644)
	_, err = plugin.Open(dir + "/c.so")
	fmt.Println("garbage", err != nil)
	_ = os.WriteFile(dir+"/d.so", nil, 0644)
	_, err = plugin.Open(dir + "/d.so")
	fmt.Println("empty", err != nil)
	f, err := p1.Lookup("PubVar")
	_, isPtr := f.(*string)
	fmt.Println("variable", err == nil, isPtr)
	f, err = p1.Lookup("Ver")
	_, isFn := f.(func(int) string)
	fmt.Println("function", err == nil, isFn)
	_, err = p1.Lookup("NoSuch")
	fmt.Println("none", err != nil)
	_ = os.Remove(a)
	p3, err := plugin.Open(cp(os.Args[2], "b.so"))
	fmt.Println("rewritten", err == nil, p3 == q)
}
`

const realFactsWant = "open true\nagain true true\ncopy true\nother true true\ngarbage true\nempty true\nvariable true true\nfunction true true\nnone true\nrewritten true true\n"

// fixture builds the host and all versions once for all workers.
type realFix struct {
	dir  string
	vers map[string]int
}

func (r *Runner) realFixture() *realFix {
	n := 3
	if r.Thorough() {
		n = 4
	}
	fx := &realFix{dir: filepath.Join(filepath.Dir(r.Scratch), "realfix-"+r.Tier), vers: map[string]int{"base": n + 1, "user": n + 1, "solo": 2}}
	must(os.MkdirAll(fx.dir, 0755))
	lk, err := os.OpenFile(filepath.Join(fx.dir, "lock"), os.O_CREATE|os.O_RDWR, 0644)
	must(err)
	defer lk.Close()
	must(syscall.Flock(int(lk.Fd()), syscall.LOCK_EX))
	if _, err := os.Stat(filepath.Join(fx.dir, "done")); err == nil {
		return fx
	}
	p := r.newProj()
	p.Write("rec/rec.go", realRec)
	p.Write("host/main.go", realHost)
	p.Write("facts/main.go", realFacts)
	type job struct {
		what string
		run  func() Run
	}
	jobs := []job{
		{"host", func() Run {
			return p.Exec(runOpt{bin: "go"}, "build", "-trimpath", "-o", filepath.Join(fx.dir, "host"), "./host")
		}},
		{"facts", func() Run {
			return p.Exec(runOpt{bin: "go"}, "build", "-trimpath", "-o", filepath.Join(fx.dir, "facts"), "./facts")
		}},
	}
	for name, cnt := range fx.vers {
		for i := 1; i <= cnt; i++ {
			name, ver := name, fmt.Sprint(name, i)
			d, dv, db := "", `""`, "0"
			if name == "user" {
				d, dv, db = "\n\tBase rec.Base\n\tother rec.Base\n\tSkip string `hotswap:\"-\"`\n", "imp.Base.Ver()", "imp.Base.Bump()"
			}
			p.Write(ver+"/"+name+"/main.go", strings.NewReplacer("package P", "package "+name, "live_P", "live_"+name, "live_tP", "live_t"+name, `"P"`, `"`+name+`"`,
				`"V"`, `"`+ver+`"`, "{D}", "{"+d+"}", "DEPVER", dv, "DEPBUMP", db, "return R ", "return "+fmt.Sprint(name != "solo")+" ").Replace(realPlugin))
			jobs = append(jobs, job{ver, func() Run { return p.Hotswap(runOpt{timeout: 120 * time.Second}, "build", ver+"/"+name, "out/"+ver) }})
		}
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	var mu sync.Mutex
	var bad string
	for _, j := range jobs {
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if x := j.run(); x.Exit != 0 {
				mu.Lock()
				bad = j.what + ": " + x.String()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for name, cnt := range fx.vers {
		for i := 1; i <= cnt; i++ {
			f := fmt.Sprint(name, i)
			if err := os.Rename(p.Path("out/"+f+"/"+name+".so"), filepath.Join(fx.dir, f)); err != nil && bad == "" {
				bad = err.Error()
			}
		}
	}
	must(os.WriteFile(filepath.Join(fx.dir, "garbage"), []byte("this is no plugin"), 0644))
	must(os.WriteFile(filepath.Join(fx.dir, "bad"), []byte(bad), 0644))
	must(os.WriteFile(filepath.Join(fx.dir, "done"), nil, 0644))
	p.Close()
	return fx
}

type realStep struct {
	Put     map[string]string
	Fail    string
	Load    bool
	CbFail  bool
	Damage  string
	Sleep   int
	Data    string
	what    string
	isReput bool
}

type realPlug struct {
	Ver, Dep      string
	Bump, DepBump int
	File          string
	Sha           string
	Note          string
	Lookup        []string
}

type realResult struct {
	Err     string
	Details map[string]string
	NilDet  bool
	Counter int64
	Events  []string
	Cur     struct {
		Same, Nil        bool
		Names            []string
		P                map[string]realPlug
		Live, Types, Bag map[string]string
	}
	Older []map[string]string
}

// the steps: which plugins get a new build, and what goes wrong
type realOp struct {
	id    string
	fresh []string
	drop  string
	junk  string
	fail  string // phase:plugin
	panic bool
	cb    bool
	load  bool
}

var realOps = []realOp{
	{id: "none"},
	{id: "base", fresh: []string{"base"}},
	{id: "user", fresh: []string{"user"}},
	{id: "both", fresh: []string{"base", "user"}},
	{id: "solo", fresh: []string{"solo"}},
	{id: "drop user", drop: "user"},
	{id: "junk base", junk: "base"},
	{id: "both, callback fails", fresh: []string{"base", "user"}, cb: true},
	{id: "both, OnLoad of user fails", fresh: []string{"base", "user"}, fail: "OnLoad:user"},
	{id: "both, OnInit of user panics", fresh: []string{"base", "user"}, fail: "OnInit:user", panic: true},
	{id: "both, OnLoad of base panics", fresh: []string{"base", "user"}, fail: "OnLoad:base", panic: true},
	{id: "both by LoadPlugins", fresh: []string{"base", "user"}, load: true},
	{id: "drop solo", drop: "solo"},
}

type realInst struct {
	name, ver    string
	bumps        int
	dep          *realInst
	reloadable   bool
	openedMaybe  bool
	bumpedByView int
}

func runReal(r *Runner) {
	depth := 2
	damages := []string{"overwrite"}
	ops := len(realOps)
	if r.Thorough() {
		depth = 3
		damages = []string{"", "truncate", "overwrite", "remove"}
	}
	r.Bound("histories", "all histories of %d steps over %d operations after a first load, x %d damages to the plugin directory after every load; plugins built with the command and loaded by Go's plugin package", depth, ops, len(damages))
	var fx *realFix
	get := func(c *Ctx) *realFix {
		if fx == nil {
			fx = r.realFixture()
			b, _ := os.ReadFile(filepath.Join(fx.dir, "bad"))
			if len(b) > 0 {
				c.violate([]string{"C18"}, "a plugin or the host does not build: "+string(b))
				fx.vers = nil
			}
		}
		if fx.vers == nil {
			return nil
		}
		return fx
	}
	r.Case("loader facts", func(c *Ctx) {
		fx := get(c)
		if fx == nil {
			return
		}
		d := filepath.Join(r.Scratch, "facts")
		must(os.MkdirAll(d, 0755))
		defer os.RemoveAll(d)
		p := &Proj{r: r, Root: d}
		x := p.Exec(runOpt{bin: filepath.Join(fx.dir, "facts")}, filepath.Join(fx.dir, "base1"), filepath.Join(fx.dir, "base2"), d)
		if x.Exit != 0 || x.Out != realFactsWant {
			c.violate([]string{"HARNESS"}, "Go's plugin loader does not behave like the in-memory one: "+x.String())
		}
		r.State("facts")
	})
	idx := make([]int, depth)
	for {
		for _, dmg := range damages {
			seq := append([]int(nil), idx...)
			dmg := dmg
			id := ""
			for _, k := range seq {
				id += realOps[k].id + "; "
			}
			r.Case(fmt.Sprintf("%sdamage=%s", id, dmg), func(c *Ctx) {
				if fx := get(c); fx != nil {
					realHistory(c, fx, seq, dmg, 0)
				}
			})
		}
		i := depth - 1
		for i >= 0 {
			idx[i]++
			if idx[i] < ops {
				break
			}
			idx[i] = 0
			i--
		}
		if i < 0 {
			break
		}
	}
	if r.Thorough() {
		for k := range realOps {
			k := k
			r.Case("delayed free; "+realOps[k].id, func(c *Ctx) {
				if fx := get(c); fx != nil {
					realHistory(c, fx, []int{k}, "", 16500)
				}
			})
		}
	}
}

// realHistory runs a history and compares every step with the model.
func realHistory(c *Ctx, fx *realFix, seq []int, dmg string, sleep int) {
	dir := filepath.Join(c.r.Scratch, "plugins")
	must(os.RemoveAll(dir))
	must(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)

	next := map[string]int{}
	fresh := func(n string) string { next[n]++; return fmt.Sprint(n, next[n]) }
	present := map[string]string{"base": fresh("base"), "user": fresh("user"), "solo": fresh("solo")}
	steps := []realStep{{Load: true, Data: "d0", what: "first load"}}
	var states []map[string]string
	clone := func() map[string]string {
		m := map[string]string{}
		for k, v := range present {
			m[k] = v
		}
		return m
	}
	states = append(states, clone())
	for i, k := range seq {
		op := realOps[k]
		s := realStep{Data: fmt.Sprint("d", i+1), what: op.id, CbFail: op.cb, Load: op.load}
		for _, n := range op.fresh {
			if next[n] < fx.vers[n] {
				present[n] = fresh(n)
			}
		}
		if op.drop != "" {
			delete(present, op.drop)
		}
		if op.junk != "" {
			present[op.junk] = "garbage"
		}
		if op.fail != "" {
			ph, n, _ := strings.Cut(op.fail, ":")
			v := present[n]
			s.Fail = ph + ":" + v
			switch ph {
			case "OnLoad":
				s.Fail += "/" + s.Data
			case "OnInit":
				s.Fail += "/" + present["base"]
			}
			if op.panic {
				s.Fail = "panic:" + s.Fail
			}
		}
		steps = append(steps, s)
		states = append(states, clone())
	}
	for i := range steps {
		steps[i].Damage = dmg
		steps[i].Put = map[string]string{}
		for _, n := range []string{"base", "user", "solo"} {
			v, ok := states[i][n]
			var was string
			had := false
			if i > 0 {
				was, had = states[i-1][n]
			}
			if ok && (dmg != "" || v != was) {
				steps[i].Put[n+".so"] = filepath.Join(fx.dir, v)
			} else if !ok && had && dmg != "remove" {
				steps[i].Put[n+".so"] = ""
			}
		}
	}
	if sleep > 0 {
		steps[len(steps)-1].Sleep = sleep
	}
	b, _ := json.Marshal(steps)
	p := &Proj{r: c.r, Root: dir}
	x := p.Exec(runOpt{bin: filepath.Join(fx.dir, "host"), timeout: 60 * time.Second}, dir, string(b))
	c.r.Count("host_runs", 1)
	c.Desc("%d steps", len(steps))
	if x.Exit != 0 {
		c.violate([]string{"C17", "C12", "C08"}, "the host program fails: "+x.String())
		return
	}
	var res []realResult
	if err := json.Unmarshal([]byte(x.Out), &res); err != nil || len(res) != len(steps) {
		c.violate([]string{"HARNESS"}, "cannot parse "+x.String())
		return
	}
	m := &realModel{c: c, opened: map[string]bool{}, maybe: map[string]bool{}}
	for i := range steps {
		if !m.step(steps[i], states[i], res[i], i, fx) {
			return
		}
		c.r.Transition()
	}
}

type realModel struct {
	c       *Ctx
	cur     map[string]*realInst
	mgrs    []map[string]*realInst
	counter int64
	opened  map[string]bool
	maybe   map[string]bool // may or may not have been opened by an attempt that failed
	retired []string
}

func (m *realModel) bad(props string, i int, s realStep, format string, args ...any) {
	m.c.violate(strings.Split(props, ","), fmt.Sprintf("real plugins, step %d (%s): ", i, s.what)+fmt.Sprintf(format, args...))
}

func (m *realModel) step(s realStep, present map[string]string, g realResult, i int, fx *realFix) bool {
	kept, load := map[string]string{}, []string{}
	for _, n := range []string{"base", "solo", "user"} {
		v, ok := present[n]
		if !ok {
			continue
		}
		if o := m.cur[n]; o != nil && !o.reloadable {
			kept[n] = "not reloadable"
		} else if o != nil && o.ver == v {
			kept[n] = "unchanged"
		} else {
			load = append(load, n)
		}
	}
	// what the attempt has to do
	fail := "" // where it fails
	unopenable := 0
	for _, n := range load {
		v := present[n]
		if m.maybe[v] {
			return false // both outcomes are possible from here on
		}
		if v == "garbage" || m.opened[v] {
			unopenable++
			fail = "open"
		}
	}
	inst := map[string]*realInst{}
	for n := range kept {
		inst[n] = m.cur[n]
	}
	if fail == "" {
		for _, n := range load {
			m.opened[present[n]] = true
			inst[n] = &realInst{name: n, ver: present[n], reloadable: n != "solo"}
		}
		if u := inst["user"]; u != nil {
			if inst["base"] == nil {
				m.bad("HARNESS", i, s, "no base")
				return false
			}
			if u.dep == nil {
				u.dep = inst["base"]
			} else if u.dep != inst["base"] {
				fail = "link"
			}
		}
	} else {
		for _, n := range load {
			if v := present[n]; v != "garbage" && !m.opened[v] {
				m.maybe[v] = true
			}
		}
	}
	phase, who := "", ""
	if f := strings.TrimPrefix(s.Fail, "panic:"); f != "" && fail == "" {
		phase, who, _ = strings.Cut(f, ":")
		who, _, _ = strings.Cut(who, "/")
		for _, n := range load {
			if present[n] == who {
				fail = phase
			}
		}
	}
	if fail == "" && s.CbFail {
		fail = "callback"
	}
	// outcome
	if fail != "" {
		if g.Err == "" {
			m.bad("C01,C09", i, s, "the attempt succeeds although it has to fail (%s)", fail)
			return false
		}
		if !g.Cur.Same {
			m.bad("C01", i, s, "the current manager has changed although the attempt failed")
			return false
		}
		if !g.NilDet {
			m.bad("C01", i, s, "details are returned with an error")
		}
		if fail == "open" && unopenable > 0 && !strings.Contains(g.Err, "plugin.Open") {
			m.bad("C01", i, s, "the error does not tell that a file cannot be opened: %s", clip(g.Err))
		}
		if (fail == "OnLoad" || fail == "OnInit") && !strings.Contains(g.Err, "wanted") || fail == "callback" && !strings.Contains(g.Err, "wanted callback") {
			m.bad("C01,C12", i, s, "the error does not carry what went wrong: %s", clip(g.Err))
		}
	} else {
		if g.Err != "" {
			m.bad("C01,C08", i, s, "the attempt fails: %s", clip(g.Err))
			return false
		}
		if g.Cur.Same || g.Cur.Nil {
			m.bad("C01", i, s, "the attempt succeeds, but the current manager has not changed")
			return false
		}
		old := m.cur
		m.cur = inst
		m.mgrs = append(m.mgrs, inst)
		if !s.Load {
			m.counter++
		}
		want := map[string]string{}
		for n, note := range kept {
			want[n] = note
		}
		for _, n := range load {
			want[n] = "ok"
		}
		got := map[string]string{}
		for f, v := range g.Details {
			got[strings.TrimSuffix(filepath.Base(f), ".so")] = v
		}
		if fmt.Sprint(want) != fmt.Sprint(got) {
			m.bad("C08", i, s, "the details are %v instead of %v", got, want)
		}
		if s.Sleep > 0 {
			for n, o := range old {
				if inst[n] != o {
					m.retired = append(m.retired, o.ver)
				}
			}
		}
	}
	if g.Counter != m.counter {
		m.bad("C14", i, s, "the reload counter is %d instead of %d", g.Counter, m.counter)
	}
	m.events(s, present, load, fail, who, g, i)
	// the manager
	wantLive := map[string]string{}
	wantBag := map[string]string{}
	wantTypes := map[string]string{}
	names := []string{}
	for n, o := range m.cur {
		wantLive["live_"+n] = o.ver
		wantTypes["live_t"+n] = "ptr live_t" + n
		wantBag[n] = o.ver
		names = append(names, n)
	}
	for n := range wantBag {
		// the data bag holds what the newly loaded plugins put into it
		if fail == "" {
			if _, ok := kept[n]; ok {
				delete(wantBag, n)
			}
		}
	}
	if fail == "" {
		if fmt.Sprint(wantBag) != fmt.Sprint(g.Cur.Bag) {
			m.bad("C10", i, s, "the data bag holds %v instead of %v", g.Cur.Bag, wantBag)
		}
	}
	if fmt.Sprint(wantLive) != fmt.Sprint(g.Cur.Live) || fmt.Sprint(wantTypes) != fmt.Sprint(g.Cur.Types) {
		m.bad("C10", i, s, "the vault holds %v %v instead of %v %v", g.Cur.Live, g.Cur.Types, wantLive, wantTypes)
	}
	sort.Strings(names)
	gn := append([]string(nil), g.Cur.Names...)
	at := map[string]int{}
	for k, n := range gn {
		at[n] = k
	}
	sort.Strings(gn)
	if fmt.Sprint(names) != fmt.Sprint(gn) {
		m.bad("C08", i, s, "the manager has the plugins %v instead of %v", gn, names)
		return false
	}
	if m.cur["user"] != nil && at["user"] < at["base"] {
		m.bad("C05", i, s, "the plugins are ordered %v", g.Cur.Names)
	}
	for _, n := range []string{"base", "user", "solo"} { // the order of the host
		o := m.cur[n]
		q, ok := g.Cur.P[n]
		if (o != nil) != ok {
			m.bad("C13", i, s, "FindPlugin(%q) is wrong", n)
			return false
		}
		if o == nil {
			continue
		}
		o.bumps++
		wd, wb := "", 0
		if o.dep != nil {
			o.dep.bumps++
			wd, wb = o.dep.ver, o.dep.bumps
		}
		if q.Ver != o.ver {
			m.bad("C08,C17", i, s, "the code of %s is that of %s", o.ver, q.Ver)
			return false
		}
		if q.Dep != wd {
			m.bad("C06,C09", i, s, "%s is linked to %q instead of %q", o.ver, q.Dep, wd)
			return false
		}
		if q.Bump != o.bumps || q.DepBump != wb {
			m.bad("C17,C08", i, s, "the counters of %s and its dependency are %d and %d instead of %d and %d: versions are not isolated or not kept", o.ver, q.Bump, q.DepBump, o.bumps, wb)
			return false
		}
		if filepath.Base(q.File) != n+".so" || filepath.Dir(q.File) != filepath.Join(m.c.r.Scratch, "plugins") {
			m.bad("C13", i, s, "the file of %s is %s", n, q.File)
		}
		if w := fx.sha(o.ver); w != q.Sha {
			m.bad("C17", i, s, "the checksum of %s is %s instead of %s", o.ver, q.Sha, w)
		}
		want := []string{"ok " + o.ver + "7", "ok " + o.ver, "ok " + o.ver, "error 5", "error old", "ok " + o.ver, "ErrNotExist x", "ErrNotExist x", "error false", "error "}
		if fmt.Sprint(q.Lookup) != fmt.Sprint(want) {
			m.bad("C16", i, s, "the lookups in %s give %q instead of %q", o.ver, q.Lookup, want)
		}
	}
	for _, alias := range [][2]string{{"BASE", "base"}, {"User", "user"}} {
		q, ok := g.Cur.P[alias[0]]
		o := m.cur[alias[1]]
		if ok != (o != nil) || ok && q.Ver != o.ver {
			m.bad("C13", i, s, "FindPlugin(%q) is wrong", alias[0])
		}
	}
	for _, n := range []string{"tmp", "base.so", "rec"} {
		if _, ok := g.Cur.P[n]; ok {
			m.bad("C13", i, s, "FindPlugin(%q) finds something", n)
		}
	}
	// every manager that was ever current still works
	if len(g.Older) != len(m.mgrs) {
		m.bad("C01", i, s, "%d managers instead of %d", len(g.Older), len(m.mgrs))
		return false
	}
	for k, o := range m.mgrs {
		want := map[string]string{}
		for n, p := range o {
			d := ""
			if p.dep != nil {
				d = p.dep.ver
			}
			want[n] = p.ver + "/" + d + "/[1 a]"
		}
		if fmt.Sprint(want) != fmt.Sprint(g.Older[k]) {
			m.bad("C17,C09", i, s, "manager %d has turned into %v instead of %v", k, g.Older[k], want)
		}
	}
	var st []string
	for n, o := range m.cur {
		st = append(st, n+o.ver)
	}
	sort.Strings(st)
	m.c.r.State(fmt.Sprint(st, present, m.counter, fail))
	return true
}

var shaCache = map[string]string{}

// events compares the calls of the plugin functions of one attempt.
func (m *realModel) events(s realStep, present map[string]string, load []string, fail, who string, g realResult, i int) {
	has := map[string]int{}
	pos := map[string]int{}
	for k, e := range g.Events {
		has[e]++
		pos[e] = k
		m.c.r.Res.Events++
	}
	loaded := map[string]bool{}
	for _, n := range load {
		loaded[present[n]] = true
	}
	base := ""
	if v, ok := present["base"]; ok {
		base = v
		if m.cur["base"] != nil && !loaded[v] {
			base = m.cur["base"].ver
		}
	}
	phases := []string{"Reloadable", "Export", "Import", "OnLoad", "OnInit"}
	name := func(ph, v string) string {
		switch ph {
		case "OnLoad":
			v += "/" + s.Data
		case "OnInit":
			v += "/" + base
		}
		return ph + " " + v
	}
	allowed := map[string]bool{}
	rank := map[string]int{"open": 0, "link": 2, "OnLoad": 3, "OnInit": 4, "callback": 5, "": 5}[fail]
	exported := 0
	for v := range loaded {
		for k, ph := range phases {
			e := name(ph, v)
			n := has[e]
			switch {
			case fail == "open" && k <= 1:
				if n > 1 {
					m.bad("C07", i, s, "%s is called %d times", e, n)
				}
			case fail == "link" && k <= 2, k < rank:
				if n != 1 {
					m.bad("C07,C05", i, s, "%s is called %d times instead of once", e, n)
				}
			case k == rank:
				// calls up to the failing one, in dependency order; unrelated plugins either way
				if v == who && n != 1 {
					m.bad("C07", i, s, "%s is called %d times instead of once", e, n)
				}
				if n > 1 || strings.HasPrefix(v, "base") && strings.HasPrefix(who, "user") && n != 1 || strings.HasPrefix(v, "user") && strings.HasPrefix(who, "base") && n != 0 {
					m.bad("C07,C05", i, s, "%s is called %d times, before or after the failing call of %s", e, n, who)
				}
			default:
				if n != 0 {
					m.bad("C07", i, s, "%s is called after the attempt has failed (%s)", e, fail)
				}
			}
			allowed[e] = true
			if k > 0 && n > 0 {
				for w := range loaded {
					if p, ok := pos[name(phases[k-1], w)]; ok && k != 1 && p > pos[e] {
						m.bad("C07", i, s, "%s comes before %s", e, name(phases[k-1], w))
					}
				}
			}
			if k > 2 && strings.HasPrefix(v, "user") && n > 0 && loaded[present["base"]] && pos[e] < pos[name(ph, present["base"])] {
				m.bad("C05", i, s, "%s comes before that of its dependency", e)
			}
		}
		f := "OnFree " + v
		allowed[f] = true
		want := 0
		if fail != "" && has[name("Export", v)] > 0 {
			want = 1
			exported++
		}
		if has[f] != want {
			m.bad("C04", i, s, "%s is called %d times instead of %d", f, has[f], want)
		}
		if has[f] > 0 && rank >= 3 && strings.HasPrefix(v, "user") && loaded[present["base"]] && pos[f] > pos["OnFree "+present["base"]] {
			m.bad("C04,C05", i, s, "%s comes after that of its dependency", f)
		}
	}
	if s.CbFail && fail == "callback" {
		e := "Callback true true true"
		allowed[e] = true
		if has[e] != 1 {
			m.bad("C14", i, s, "the callback is called %d times", has[e])
		}
	}
	for _, v := range m.retired {
		e := "OnFree " + v
		allowed[e] = true
		if has[e] != 1 {
			m.bad("C03", i, s, "%s is called %d times after its free delay", e, has[e])
		}
	}
	m.retired = nil
	for e := range has {
		if !allowed[e] {
			m.bad("C07,C03", i, s, "%s must not be called", e)
		}
	}
}

func (fx *realFix) sha(ver string) string {
	if s, ok := shaCache[ver]; ok {
		return s
	}
	b, err := os.ReadFile(filepath.Join(fx.dir, ver))
	must(err)
	shaCache[ver] = fmt.Sprintf("%x", sha1.Sum(b))
	return shaCache[ver]
}
