package h

import (
	"crypto/sha1"
	"errors"
	"fmt"
	"math"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/slog"
	"verif.local/mc/rt"
)

const minDelay = 15 * time.Second

// zeroDelay stands for a free delay of zero that is given, not just left out.
const zeroDelay = time.Duration(math.MinInt64)

type CB struct {
	Present bool
	Fault   int
	Slow    time.Duration
}

type Opts struct {
	Delay     time.Duration
	CB1       bool
	Whitelist []string
	Static    map[string]*hotswap.StaticPlugin
	NoExt     bool

	Order  []int // the options in another order
	Decoys bool  // every option is given twice, the first time with another value
	Nils   bool  // options without a value are given with none
}

// MPlug and MMgr: the reference model's view of managers.
type MPlug struct {
	Key, Name string
	Inst      *Instance
}

type MMgr struct {
	N         int
	PM        *hotswap.PluginManager
	Plugs     map[string]*MPlug
	Retired   bool
	RetiredAt time.Duration
	snap      *Snap
}

type Model struct {
	W       *World
	Cur     *MMgr
	All     []*MMgr
	Counter int64
	// what the caller expects to be freed because an attempt failed
	failedNew map[*Instance]*Attempt
	failures  int // attempts that failed
}

type Snap struct {
	PM    *hotswap.PluginManager
	Plugs []SnapPlug
	Funcs map[string]*Instance
	Types map[string]*Instance
	Ext   interface{}
}

type SnapPlug struct {
	Name  string
	P     *hotswap.Plugin
	Inst  *Instance
	File  string
	Sha   [20]byte
	Links string
	Desc  string // dependencies, time and note
}

type Attempt struct {
	N          int
	Kind       string // Load, Reload, ReloadCB
	Data       any
	CB1, CB2   CB
	OldPM      *hotswap.PluginManager
	oldSnap    *Snap
	Exp        *Expect
	Panicked   any
	Stack      string
	Err        error
	Details    hotswap.Details
	NewPM      *hotswap.PluginManager
	from, to   int
	inst0      int // number of instances before
	T0, T1     time.Duration
	cb0        int
	cnt0, cnt1 int64
	unexpFail  []string
}

type Expect struct {
	OK, Either, Nothing bool
	Reopen              bool // some file content was opened before: Go refuses to load it again
	Stage               string
	Why                 string
	Texts               []string // one of these must be part of the error (panic values)
	Kept, New           map[string]string
	Selected            []string
	NewUID              map[string]string
	MissingSyms         map[string]bool
	Cyclic              bool
}

var stageRank = map[string]int{"select": 0, "dup": 1, "load": 2, "deps": 3, "OnLoad": 4, "vault": 5, "OnInit": 6, "CB1": 7, "CB2": 8, "": 99}
var kindRank = map[string]int{"Open": 2, "Reloadable": 2, "Export": 2, "Import": 3, "OnLoad": 4, "LiveFuncs": 5, "LiveTypes": 5, "OnInit": 6, "CB1": 7, "CB2": 8}

func (w *World) NewSwapper(o Opts) {
	w.Delay = o.Delay
	if w.Delay == 0 {
		w.Delay = 5 * time.Minute
	}
	opts := []hotswap.Option{hotswap.WithLogger(w.Log)}
	var first []hotswap.Option
	decoy := func(x hotswap.Option) {
		if o.Decoys {
			first = append(first, x)
		}
	}
	decoy(hotswap.WithLogger(slog.NewDumbLogger()))
	if o.Delay == zeroDelay {
		opts = append(opts, hotswap.WithFreeDelay(0))
	} else if o.Delay != 0 {
		opts = append(opts, hotswap.WithFreeDelay(o.Delay))
		decoy(hotswap.WithFreeDelay(3 * time.Hour))
	}
	if w.Delay < minDelay {
		w.Delay = minDelay
	}
	if !o.NoExt {
		opts = append(opts, hotswap.WithExtensionNewer(func() interface{} {
			w.mu.Lock()
			a := w.attempt
			if w.conc {
				a = w.byG[rt.Goid()]
			}
			e := &Ext{N: len(w.Exts) + 1, Attempt: a}
			w.Exts = append(w.Exts, e)
			w.mu.Unlock()
			w.log("newExt", nil, false, false, nil, "")
			rt.Point("cb:newExt")
			return e
		}))
		decoy(hotswap.WithExtensionNewer(func() interface{} { return "decoy" }))
	} else if o.Nils {
		opts = append(opts, hotswap.WithExtensionNewer(nil))
		decoy(hotswap.WithExtensionNewer(func() interface{} { return "decoy" }))
	}
	if o.CB1 {
		w.hasCB1 = true
		opts = append(opts, hotswap.WithReloadCallback(func(n, old *hotswap.PluginManager) error { return w.runCB("CB1", n, old, nil) }))
	} else if o.Nils {
		opts = append(opts, hotswap.WithReloadCallback(nil))
	}
	if o.CB1 || o.Nils {
		decoy(hotswap.WithReloadCallback(func(n, old *hotswap.PluginManager) error {
			w.Violate([]string{"C14"}, "a callback that was configured and then replaced by another was called")
			return nil
		}))
	}
	if o.Whitelist != nil {
		opts = append(opts, hotswap.WithWhitelist(o.Whitelist...))
	} else if o.Nils {
		opts = append(opts, hotswap.WithWhitelist())
	}
	if o.Whitelist != nil || o.Nils {
		decoy(hotswap.WithWhitelist("nothing", "else"))
	}
	if o.Static != nil {
		w.static = true
		opts = append(opts, hotswap.WithStaticPlugins(o.Static))
		decoy(hotswap.WithStaticPlugins(map[string]*hotswap.StaticPlugin{"decoy": nil}))
	} else if o.Nils {
		opts = append(opts, hotswap.WithStaticPlugins(nil))
	}
	if o.Order != nil {
		var x []hotswap.Option
		for _, i := range o.Order {
			if i < len(opts) {
				x = append(x, opts[i])
			}
		}
		opts = x
	}
	opts = append(first, opts...)
	w.M.failedNew = map[*Instance]*Attempt{}
	w.SW = hotswap.NewPluginManagerSwapper(w.Dir, opts...)
}

// sameValue: equal or, where Go cannot compare, the very same thing.
func sameValue(a, b any) bool {
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	if ta != tb {
		return false
	}
	if ta == nil || reflect.ValueOf(a).Comparable() {
		return a == b
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch va.Kind() {
	case reflect.Slice:
		return va.Len() == vb.Len() && va.Cap() == vb.Cap() && va.Pointer() == vb.Pointer()
	case reflect.Map, reflect.Func:
		return va.Pointer() == vb.Pointer()
	}
	return reflect.DeepEqual(a, b)
}

func (w *World) attemptOfCaller() *Attempt {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.conc {
		return w.cbFor[rt.Goid()]
	}
	return w.curA
}

// runCB is the body of every reload callback.
func (w *World) runCB(which string, n, old *hotswap.PluginManager, owner *Attempt) error {
	a := w.attemptOfCaller()
	cur := w.SW.Current()
	call := CBCall{Which: which, New: n, Old: old, Cur: cur, At: w.now()}
	if a != nil {
		call.Attempt = a.N
	}
	w.log(which, nil, false, false, nil, "")
	if owner != nil && owner != a {
		w.Violate([]string{"C14"}, "a callback given for one reload was called for another")
	}
	w.mu.Lock()
	w.CBSeen = append(w.CBSeen, call)
	w.mu.Unlock()
	rt.Point("cb:" + which)
	if h := w.CBHook; h != nil {
		h(which, n, old)
	}
	var cb CB
	if a != nil {
		cb = a.CB1
		if which == "CB2" {
			cb = a.CB2
		}
	}
	if cb.Slow > 0 {
		rt.Sleep(cb.Slow)
	}
	rt.Point("cb:" + which + ":end")
	switch {
	case cb.Fault == FErr:
		w.log(which, nil, true, true, nil, "error")
		return errors.New("injected error " + which)
	case isPanic(cb.Fault):
		w.log(which, nil, true, true, nil, faultNames[cb.Fault])
		doPanic(cb.Fault, which)
	}
	w.log(which, nil, true, false, nil, "")
	return nil
}

// ---------------------------------------------------------------------------------- snapshot

func (w *World) snapshot(pm *hotswap.PluginManager) *Snap {
	s := &Snap{PM: pm}
	if pm == nil {
		return s
	}
	for _, p := range pm.Plugins() {
		in := InstOf(p)
		sp := SnapPlug{Name: p.Name, P: p, Inst: in, File: p.File, Sha: p.FileSha1}
		if in != nil {
			sp.Links = fmt.Sprint(sortedLinks(in.Links()))
		}
		sp.Desc = fmt.Sprintf("deps=%v when=%v note=%q", p.Deps, p.When, p.Note)
		s.Plugs = append(s.Plugs, sp)
	}
	s.Funcs, s.Types = w.vaultContent(pm)
	s.Ext = pm.Vault.Extension
	return s
}

func sortedLinks(m map[string]*Instance) []string {
	var a []string
	for k, v := range m {
		a = append(a, k+"="+v.String())
	}
	sort.Strings(a)
	return a
}

func (w *World) vaultContent(pm *hotswap.PluginManager) (map[string]*Instance, map[string]*Instance) {
	fs, ts := map[string]*Instance{}, map[string]*Instance{}
	for k, v := range pm.Vault.LiveFuncs {
		if f, ok := v.(func() *Instance); ok {
			fs[k] = f()
		} else {
			fs[k] = nil
		}
	}
	for k, v := range pm.Vault.LiveTypes {
		if v == nil {
			ts[k] = nil
			continue
		}
		if o, ok := v().(*LiveObj); ok && o.Name == k {
			ts[k] = o.Inst
		} else {
			ts[k] = nil
		}
	}
	return fs, ts
}

func (s *Snap) diff(t *Snap) string {
	if s.PM != t.PM {
		return "the current manager is another object"
	}
	if len(s.Plugs) != len(t.Plugs) {
		return fmt.Sprintf("it has %d plugins instead of %d", len(t.Plugs), len(s.Plugs))
	}
	for i := range s.Plugs {
		if s.Plugs[i] != t.Plugs[i] {
			return fmt.Sprintf("plugin %d changed: %v -> %v", i, s.Plugs[i], t.Plugs[i])
		}
	}
	if !reflect.DeepEqual(keysInst(s.Funcs), keysInst(t.Funcs)) || !reflect.DeepEqual(keysInst(s.Types), keysInst(t.Types)) {
		return "its vault changed"
	}
	if s.Ext != t.Ext {
		return "its extension changed"
	}
	return ""
}

func keysInst(m map[string]*Instance) map[string]int {
	r := map[string]int{}
	for k, v := range m {
		if v != nil {
			r[k] = v.N
		} else {
			r[k] = -1
		}
	}
	return r
}

// ---------------------------------------------------------------------------------- prediction

type cand struct {
	stage, why, text string
}

// Predict computes what the specification demands of the next attempt.
func (w *World) Predict(kind string, cb1, cb2 CB, files map[string]string, static map[string]*Instance) *Expect {
	e := &Expect{Kept: map[string]string{}, New: map[string]string{}, NewUID: map[string]string{}, MissingSyms: map[string]bool{}}
	var cands []cand
	fail := func(stage, why, text string) { cands = append(cands, cand{stage, why, text}) }
	type node struct {
		key  string
		spec *Spec
		inst *Instance // kept instance
		kept bool
	}
	nodes := map[string]*node{}
	byKey := map[string]int{}
	var names []string
	if static != nil {
		for n := range static {
			names = append(names, n)
		}
	} else {
		for n := range files {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	e.Selected = names
	for _, n := range names {
		byKey[strings.ToLower(n)]++
	}
	for k, v := range byKey {
		if v > 1 {
			fail("dup", "duplicate name "+k, "")
		}
	}
	if len(names) == 0 && static == nil {
		e.OK, e.Nothing = true, true
		return e
	}
	for _, n := range names {
		key := strings.ToLower(n)
		if static != nil {
			in := static[n]
			nodes[key] = &node{key: key, spec: in.Spec}
			e.New[key] = n
			e.NewUID[key] = in.Spec.UID
			continue
		}
		uid := files[n]
		if w.M.Cur != nil {
			if old := w.M.Cur.Plugs[key]; old != nil {
				if old.Inst.Spec.NonReloadable || old.Inst.Spec.UID == uid {
					nodes[key] = &node{key: key, spec: old.Inst.Spec, inst: old.Inst, kept: true}
					e.Kept[key] = "unchanged"
					if old.Inst.Spec.NonReloadable {
						e.Kept[key] = "not reloadable"
					}
					continue
				}
			}
		}
		e.New[key] = n
		e.NewUID[key] = uid
		s := w.specs[uid]
		if s == nil {
			fail("load", "invalid file "+n, "")
			s = &Spec{UID: "?"}
		}
		if w.wasOpened(uid) {
			e.Reopen = true
		}
		if s.OpenErr {
			fail("load", "open error "+n, "")
		}
		nodes[key] = &node{key: key, spec: s}
	}
	// per plugin: symbols, Reloadable, Export, Import
	faultOf := func(nd *node, stage, phase string) {
		f := nd.spec.fault(phase, 0)
		if f == NoFault || f == FNilMap {
			return
		}
		if f == FErr && (phase == "Reloadable" || phase == "Export" || phase == "Import") {
			return
		}
		text := ""
		if isPanic(f) {
			text = panicText(f, phase+"/"+nd.spec.UID)
		}
		fail(stage, phase+" fault of "+nd.key, text)
	}
	for _, nd := range nodes {
		if nd.kept {
			continue
		}
		for s := range nd.spec.Missing {
			e.MissingSyms[s] = true
			fail("load", "missing function in "+nd.key, "")
		}
		if len(nd.spec.Wrong) > 0 {
			fail("load", "wrong type of function in "+nd.key, "")
		}
		faultOf(nd, "load", "Reloadable")
		faultOf(nd, "load", "Export")
		faultOf(nd, "deps", "Import")
		if nd.spec.ImportFails {
			fail("deps", "bad Import object of "+nd.key, "")
		}
		for _, d := range nd.spec.Deps {
			dk := strings.ToLower(d.Field)
			dn := nodes[dk]
			if dn == nil {
				fail("deps", "unknown dependency "+d.Field+" of "+nd.key, "")
				continue
			}
			if nd.spec.NonReloadable && !dn.spec.NonReloadable {
				fail("deps", nd.key+" is not reloadable while its dependency "+dk+" is", "")
			}
			if dn.spec.ExportKind == 3 && d.Kind != 2 {
				fail("deps", "unassignable export of "+dk, "")
			}
		}
		faultOf(nd, "OnLoad", "OnLoad")
		faultOf(nd, "OnInit", "OnInit")
	}
	// cycles over all nodes (kept ones with the dependencies they were loaded with)
	color := map[string]int{}
	var cyc func(k string) bool
	cyc = func(k string) bool {
		switch color[k] {
		case 1:
			return true
		case 2:
			return false
		}
		color[k] = 1
		for _, d := range nodes[k].spec.Deps {
			dk := strings.ToLower(d.Field)
			if nodes[dk] != nil && cyc(dk) {
				return true
			}
		}
		color[k] = 2
		return false
	}
	for k := range nodes {
		if cyc(k) {
			fail("deps", "cyclic dependency", "")
			e.Cyclic = true
			break
		}
	}
	for _, nd := range nodes {
		if !nd.kept {
			continue
		}
		for _, d := range nd.spec.Deps {
			dn := nodes[strings.ToLower(d.Field)]
			if dn == nil {
				fail("deps", "kept plugin "+nd.key+" lost its dependency "+d.Field, "")
			} else if !dn.kept {
				fail("deps", "kept plugin "+nd.key+" with a replaced dependency "+d.Field, "")
			}
		}
	}
	// vault
	fseen, tseen := map[string]string{}, map[string]string{}
	for _, nd := range nodes {
		for _, ph := range []string{"LiveFuncs", "LiveTypes"} {
			n := 0
			if nd.inst != nil {
				n = nd.inst.calls[ph]
			}
			f := nd.spec.fault(ph, n)
			if isPanic(f) {
				fail("vault", ph+" fault of "+nd.key, panicText(f, ph+"/"+nd.spec.UID))
			} else if f == FNilMap {
				fail("vault", ph+" of "+nd.key+" is nil", "")
			}
		}
		for _, f := range nd.spec.Funcs {
			if o, ok := fseen[f]; ok && o != nd.key {
				fail("vault", "duplicate live function "+f, "")
			}
			fseen[f] = nd.key
		}
		for _, f := range nd.spec.Types {
			if o, ok := tseen[f]; ok && o != nd.key {
				fail("vault", "duplicate live type "+f, "")
			}
			tseen[f] = nd.key
		}
	}
	if w.hasCB1 && cb1.Fault != NoFault {
		text := ""
		if isPanic(cb1.Fault) {
			text = panicText(cb1.Fault, "CB1")
		}
		fail("CB1", "configured callback fails", text)
	}
	if kind == "ReloadCB" && cb2.Present && cb2.Fault != NoFault {
		text := ""
		if isPanic(cb2.Fault) {
			text = panicText(cb2.Fault, "CB2")
		}
		fail("CB2", "callback of this reload fails", text)
	}
	if len(cands) == 0 {
		e.OK = true
		e.Either = e.Reopen
		return e
	}
	best := cands[0]
	for _, c := range cands {
		if stageRank[c.stage] < stageRank[best.stage] {
			best = c
		}
	}
	e.Stage = best.stage
	var whys []string
	allTexts := true
	for _, c := range cands {
		if c.stage == e.Stage {
			whys = append(whys, c.why)
			if c.text != "" {
				e.Texts = append(e.Texts, c.text)
			} else {
				allTexts = false
			}
		}
	}
	if !allTexts || e.Reopen {
		e.Texts = nil
	}
	sort.Strings(whys)
	e.Why = strings.Join(whys, "; ")
	return e
}

// ---------------------------------------------------------------------------------- attempts

// Do performs one attempt in a sequential run and applies all monitors.
func (w *World) Do(kind string, data any, cb1, cb2 CB, unexpFail ...string) *Attempt {
	a := w.begin(kind, data, cb1, cb2)
	a.unexpFail = unexpFail
	a.Exp = w.Predict(kind, cb1, cb2, w.Files(), w.staticInsts())
	w.run(a)
	w.judge(a)
	return a
}

func (w *World) staticInsts() map[string]*Instance {
	if !w.static {
		return nil
	}
	m := map[string]*Instance{}
	for _, in := range w.Insts {
		if in.Static {
			m[in.Name] = in
		}
	}
	return m
}

func (w *World) wasOpened(uid string) bool {
	for _, o := range w.opened {
		if o.inst.Spec.UID == uid {
			return true
		}
	}
	return false
}

func (w *World) begin(kind string, data any, cb1, cb2 CB) *Attempt {
	a := &Attempt{N: len(w.Attempts) + 1, Kind: kind, Data: data, CB1: cb1, CB2: cb2}
	w.Attempts = append(w.Attempts, a)
	a.OldPM = w.SW.Current()
	a.oldSnap = w.snapshot(a.OldPM)
	a.from = len(w.Evs)
	a.inst0 = len(w.Insts)
	a.cb0 = len(w.CBSeen)
	a.cnt0 = w.SW.ReloadCounter()
	a.T0 = w.now()
	w.attempt = a.N
	w.curA = a
	return a
}

func (w *World) call(a *Attempt) {
	defer func() {
		if r := recover(); r != nil {
			a.Panicked = r
			a.Stack = string(debug.Stack())
		}
	}()
	switch a.Kind {
	case "Load":
		a.Details, a.Err = w.SW.LoadPlugins(a.Data)
	case "Reload":
		a.Details, a.Err = w.SW.Reload(a.Data)
	case "ReloadCB":
		if a.CB2.Present {
			a.Details, a.Err = w.SW.ReloadWithCallback(a.Data, func(n, old *hotswap.PluginManager) error { return w.runCB("CB2", n, old, a) })
		} else {
			a.Details, a.Err = w.SW.ReloadWithCallback(a.Data, nil)
		}
	}
}

func (w *World) run(a *Attempt) {
	w.call(a)
	w.attempt = 0
	w.curA = nil
	a.to = len(w.Evs)
	a.T1 = w.now()
	a.NewPM = w.SW.Current()
	a.cnt1 = w.SW.ReloadCounter()
}

func (a *Attempt) evs(w *World) []Ev {
	var r []Ev
	for _, e := range w.Evs[a.from:a.to] {
		if e.Attempt == a.N {
			r = append(r, e)
		}
	}
	return r
}

var lifecycle = []string{"Reloadable", "Export", "Import", "OnLoad", "OnInit"}

func isLifecycle(k string) bool {
	for _, x := range lifecycle {
		if x == k {
			return true
		}
	}
	return false
}

var stageProps = map[string][]string{
	"select": {"C01", "C13"}, "dup": {"C01", "C13"}, "load": {"C01", "C22"}, "deps": {"C01"}, "OnLoad": {"C01"},
	"vault": {"C01", "C10"}, "OnInit": {"C01"}, "CB1": {"C01", "C14"}, "CB2": {"C01", "C14"},
}

// judge compares the outcome of a finished attempt with the prediction and runs the monitors.
func (w *World) judge(a *Attempt) {
	e := a.Exp
	label := fmt.Sprintf("attempt %d (%s)", a.N, a.Kind)
	if a.Panicked != nil {
		w.Violate([]string{"C12"}, "%s: a panic escaped to the caller: %v", label, a.Panicked)
		if a.Err == nil {
			a.Err = fmt.Errorf("panic: %v", a.Panicked)
		}
	}
	ok := a.Err == nil
	if !e.Either {
		if ok && !e.OK {
			props := append([]string{}, stageProps[e.Stage]...)
			if e.Cyclic {
				props = append(props, "C05")
			}
			if strings.Contains(e.Why, "kept plugin") || strings.Contains(e.Why, "is not reloadable while") {
				props = append(props, "C09")
			}
			if strings.Contains(e.Why, "unknown dependency") || strings.Contains(e.Why, "unassignable") || strings.Contains(e.Why, "bad Import") {
				props = append(props, "C06")
			}
			if w.static {
				props = append(props, "C15")
			}
			w.Violate(props, "%s succeeded although it must fail: %s", label, e.Why)
		}
		if !ok && e.OK {
			w.Violate(a.unexpFail, "%s failed although it must succeed: %v", label, firstLine(a.Err))
		}
		if !ok && !e.OK && len(e.Texts) > 0 && a.Panicked == nil {
			found := false
			for _, t := range e.Texts {
				if strings.Contains(a.Err.Error(), t) {
					found = true
				}
			}
			if !found {
				w.Violate([]string{"C12"}, "%s: the error does not carry the panic value (one of %q): %v", label, e.Texts, firstLine(a.Err))
			}
		}
	}
	w.monitor(a, ok, label)
	if ok {
		w.judgeSuccess(a, label)
	} else {
		w.judgeFailure(a, label)
	}
	w.checkOpened()
	w.checkRetired(label)
	w.Ledger(label)
	w.c.r.Transition()
	w.c.r.State(w.stateDesc())
}

// stateDesc is the abstract state of the swapper at a quiescent moment: who is current, which
// versions wait for their delayed free and for how long, the counter, what the directory holds.
func (w *World) stateDesc() string {
	var b strings.Builder
	dump := func(m *MMgr) {
		for _, k := range sortedKeys(m.Plugs) {
			in := m.Plugs[k].Inst
			if in == nil {
				continue
			}
			fmt.Fprintf(&b, "%s=%s%v/%d;", k, in.Spec.UID, in.Spec.Deps, len(in.Free))
		}
	}
	if w.M.Cur != nil {
		dump(w.M.Cur)
	}
	for _, m := range w.M.All {
		if m.Retired && w.now()-m.RetiredAt <= w.Delay {
			fmt.Fprintf(&b, "|r%v:", w.now()-m.RetiredAt)
			dump(m)
		}
	}
	if n := len(w.Attempts); n > 0 {
		a := w.Attempts[n-1]
		fmt.Fprintf(&b, "|%d %s %v %s", a.cnt1, a.Kind, a.Err != nil, a.Exp.Stage)
	}
	fs := w.Files()
	for _, k := range sortedKeys(fs) {
		b.WriteString("|" + k + "=" + fs[k])
	}
	return b.String()
}

// monitor: properties of the event trace of one attempt (C05, C07, C13, C14, C22).
func (w *World) monitor(a *Attempt, ok bool, label string) {
	e := a.Exp
	evs := a.evs(w)
	isNew := func(in *Instance) bool { return in.N > a.inst0 || (w.static && in.Static) }
	var firstBad *Ev
	endSeq := map[string]int{}   // phase -> last end
	beginSeq := map[string]int{} // phase -> first begin
	count := map[*Instance]map[string]int{}
	last := map[*Instance]int{}
	for i := range evs {
		ev := &evs[i]
		if ev.Kind == "Open" && e.Stage == "dup" {
			w.Violate([]string{"C13"}, "%s: a plugin was opened although two names differ only in letter case", label)
		}
		if ev.Inst != nil && isLifecycle(ev.Kind) {
			if !isNew(ev.Inst) {
				if !ev.End {
					w.Violate([]string{"C07", "C08"}, "%s: %s of the kept or retired plugin %s was called", label, ev.Kind, ev.Inst)
				}
				continue
			}
			if !ev.End {
				if count[ev.Inst] == nil {
					count[ev.Inst] = map[string]int{}
				}
				count[ev.Inst][ev.Kind]++
				if count[ev.Inst][ev.Kind] > 1 {
					w.Violate([]string{"C07"}, "%s: %s of %s was called more than once", label, ev.Kind, ev.Inst)
				}
				idx := indexOf(lifecycle, ev.Kind)
				if idx < last[ev.Inst] {
					w.Violate([]string{"C07"}, "%s: %s of %s was called out of order", label, ev.Kind, ev.Inst)
				}
				last[ev.Inst] = idx
				if _, ok := beginSeq[ev.Kind]; !ok {
					beginSeq[ev.Kind] = ev.Seq
				}
				if ev.Kind == "OnLoad" && !sameValue(ev.Arg, a.Data) {
					w.Violate([]string{"C07"}, "%s: OnLoad of %s did not receive the caller's data", label, ev.Inst)
				}
			} else if !ev.Bad {
				endSeq[ev.Kind] = ev.Seq
			}
		}
		if !ev.End && firstBad != nil && (isLifecycle(ev.Kind) || ev.Kind == "CB1" || ev.Kind == "CB2") {
			w.Violate([]string{"C07"}, "%s: %s %v was started after %s %v had failed", label, ev.Kind, ev.Inst, firstBad.Kind, firstBad.Inst)
			if ev.Kind == "CB1" || ev.Kind == "CB2" {
				w.Violate([]string{"C14"}, "%s: %s was called although %s had failed", label, ev.Kind, firstBad.Kind)
			}
		}
		if ev.End && ev.Bad && firstBad == nil && ev.Kind != "OnFree" && ev.Kind != "Invoke" {
			firstBad = ev
		}
		// no phase beyond the one that must fail
		if !e.OK && !e.Either && !ev.End && (isLifecycle(ev.Kind) || ev.Kind == "CB1" || ev.Kind == "CB2") && kindRank[ev.Kind] > stageRank[e.Stage] {
			props := []string{"C07"}
			if e.Cyclic && kindRank[ev.Kind] >= kindRank["OnLoad"] {
				props = append(props, "C05")
			}
			if e.Stage == "deps" {
				props = append(props, "C09")
			}
			if ev.Kind == "CB1" || ev.Kind == "CB2" {
				props = append(props, "C14")
			}
			w.Violate(props, "%s: %s %v was called although the attempt must fail earlier (%s)", label, ev.Kind, ev.Inst, e.Why)
		}
	}
	// barriers: no phase starts before the previous one is over for every new plugin
	for i := 2; i < len(lifecycle); i++ { // Export->Import, Import->OnLoad, OnLoad->OnInit
		ph, prev := lifecycle[i], lifecycle[i-1]
		b, ok := beginSeq[ph]
		if !ok {
			continue
		}
		n := 0
		for _, ev := range evs {
			if ev.Inst != nil && ev.Kind == prev && ev.End && !ev.Bad && isNew(ev.Inst) && ev.Seq < b {
				n++
			}
		}
		if n < len(e.New) {
			w.Violate([]string{"C07"}, "%s: %s started when only %d of %d plugins had completed %s", label, ph, n, len(e.New), prev)
		}
	}
	if ok && !e.Nothing {
		for _, in := range w.Insts {
			if !isNew(in) || (w.static && e.New[strings.ToLower(in.Name)] != in.Name) {
				continue
			}
			for _, ph := range lifecycle {
				if count[in][ph] != 1 {
					w.Violate([]string{"C07", "C01"}, "%s succeeded but %s of %s was called %d times", label, ph, in, count[in][ph])
				}
			}
		}
	}
	// a plugin lacking functions is rejected before any of its functions is called
	for in := range count {
		if len(in.Spec.Missing) > 0 || len(in.Spec.Wrong) > 0 {
			w.Violate([]string{"C22"}, "%s: functions of %s were called although it lacks required functions", label, in)
		}
	}
	// dependency order of OnLoad and OnInit
	for _, ph := range []string{"OnLoad", "OnInit"} {
		pos := map[string]int{}
		n := 0
		for _, ev := range evs {
			if ev.Kind == ph && !ev.End && ev.Inst != nil {
				n++
				k := strings.ToLower(ev.Inst.Name)
				for _, d := range ev.Inst.Spec.Deps {
					dk := strings.ToLower(d.Field)
					if _, isN := e.New[dk]; isN && dk != k && pos[dk] == 0 {
						w.Violate([]string{"C05"}, "%s: %s of %s was called before %s of its dependency %s", label, ph, ev.Inst.Name, ph, d.Field)
					}
				}
				pos[k] = n
			}
		}
	}
	// imports are complete when OnLoad starts
	for _, in := range w.Insts {
		if !isNew(in) || in.LinksAtLoad == nil || in.Spec.ImportVal != nil || count[in]["OnLoad"] == 0 {
			continue
		}
		for _, d := range in.Spec.Deps {
			dk := strings.ToLower(d.Field)
			got := in.LinksAtLoad[d.Field]
			if got == nil {
				if w.exportsNil(a, dk) {
					continue
				}
				w.Violate([]string{"C06"}, "%s: field %s of %s was not set when OnLoad was called", label, d.Field, in)
				continue
			}
			if strings.ToLower(got.Name) != dk {
				w.Violate([]string{"C06"}, "%s: field %s of %s holds the export of %s", label, d.Field, in, got)
			} else if _, isN := e.New[dk]; isN && !isNew(got) {
				w.Violate([]string{"C06", "C09"}, "%s: field %s of %s is linked to the old version %s", label, d.Field, in, got)
			} else if !isN && w.M.Cur != nil && w.M.Cur.Plugs[dk] != nil && w.M.Cur.Plugs[dk].Inst != got {
				w.Violate([]string{"C06", "C09"}, "%s: field %s of %s is linked to %s instead of the kept %s", label, d.Field, in, got, w.M.Cur.Plugs[dk].Inst)
			}
		}
	}
	// vault as seen by OnInit
	var wantF, wantT []string
	for _, ev := range evs {
		if ev.Kind == "OnInit" && !ev.End && isNew(ev.Inst) {
			if wantF == nil {
				wantF, wantT = w.unionNames(a)
			}
			in := ev.Inst
			if in.VaultAtInit == nil {
				w.Violate([]string{"C10"}, "%s: OnInit of %s received no vault", label, in)
				continue
			}
			if !sameStrings(in.InitFuncs, wantF) || !sameStrings(in.InitTypes, wantT) {
				w.Violate([]string{"C10", "C07"}, "%s: OnInit of %s saw live functions %v and types %v instead of %v and %v", label, in, in.InitFuncs, in.InitTypes, wantF, wantT)
			}
		}
	}
	// callbacks
	n1, n2 := 0, 0
	for _, c := range w.CBSeen[a.cb0:] {
		if c.Attempt != a.N {
			continue
		}
		if c.Which == "CB1" {
			n1++
			if n2 > 0 {
				w.Violate([]string{"C14"}, "%s: the configured callback was called after the callback of this call", label)
			}
		} else {
			n2++
		}
		if c.Cur != a.OldPM {
			w.Violate([]string{"C14", "C02"}, "%s: during %s the new manager is already current", label, c.Which)
		}
		if c.New == nil || c.New == a.OldPM {
			w.Violate([]string{"C14"}, "%s: %s did not receive the new manager", label, c.Which)
		} else if ok && c.New != a.NewPM {
			w.Violate([]string{"C14"}, "%s: %s received a manager that is not the one that became current", label, c.Which)
		}
		if c.Old != a.OldPM && !w.static {
			w.Violate([]string{"C14"}, "%s: %s did not receive the manager that is current", label, c.Which)
		}
	}
	want1, want2 := 0, 0
	if w.hasCB1 {
		want1 = 1
	}
	if a.Kind == "ReloadCB" && a.CB2.Present {
		want2 = 1
	}
	if e.Nothing || (!e.OK && stageRank[e.Stage] < stageRank["CB1"]) {
		want1, want2 = 0, 0
	} else if !e.OK && e.Stage == "CB1" {
		want2 = 0
	}
	if (e.Reopen || e.Either) && !ok {
		// the attempt may fail early for a reason the model leaves open: at most one call each
		want1, want2 = min(n1, want1), min(n2, want2)
	}
	if (n1 != want1 || n2 != want2) && (ok == e.OK || e.Either) {
		w.Violate([]string{"C14"}, "%s: the configured callback was called %d times (want %d), the callback of this call %d times (want %d)", label, n1, want1, n2, want2)
	}
	wantCnt := a.cnt0
	if ok && a.Kind != "Load" {
		wantCnt++
	}
	if a.cnt1 != wantCnt {
		props := []string{"C14"}
		if !ok {
			props = append(props, "C01")
		}
		w.Violate(props, "%s (err=%v): the reload counter went from %d to %d", label, firstLine(a.Err), a.cnt0, a.cnt1)
	}
}

func (w *World) exportsNil(a *Attempt, key string) bool {
	uid, isNew := a.Exp.NewUID[key]
	if !isNew {
		if w.M.Cur == nil || w.M.Cur.Plugs[key] == nil {
			return false
		}
		s := w.M.Cur.Plugs[key].Inst.Spec
		return s.ExportKind != 0
	}
	s := w.specs[uid]
	return s != nil && s.ExportKind != 0
}

// unionNames: live names all plugins of the attempt provide.
func (w *World) unionNames(a *Attempt) ([]string, []string) {
	f, t := map[string]bool{}, map[string]bool{}
	add := func(s *Spec) {
		if s == nil {
			return
		}
		for _, x := range s.Funcs {
			f[x] = true
		}
		for _, x := range s.Types {
			t[x] = true
		}
	}
	for k := range a.Exp.Kept {
		add(w.M.Cur.Plugs[k].Inst.Spec)
	}
	for k := range a.Exp.New {
		add(w.specs[a.Exp.NewUID[k]])
	}
	return sortedKeys(f), sortedKeys(t)
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func indexOf(a []string, s string) int {
	for i, x := range a {
		if x == s {
			return i
		}
	}
	return -1
}

func (w *World) judgeFailure(a *Attempt, label string) {
	w.M.failures++
	if d := a.oldSnap.diff(w.snapshot(a.NewPM)); d != "" {
		w.Violate([]string{"C01"}, "%s failed (%s) but %s", label, firstLine(a.Err), d)
	}
	if a.NewPM != a.OldPM {
		w.Violate([]string{"C02"}, "%s failed but the current manager was replaced", label)
	}
	// every newly loaded plugin is freed once, before the call returns
	evs := a.evs(w)
	onLoadCalled := false
	freePos := map[*Instance]int{}
	frees := map[*Instance]int{}
	exportOK := map[*Instance]bool{}
	opened := map[*Instance]bool{}
	for _, ev := range evs {
		if ev.Inst == nil {
			continue
		}
		switch {
		case ev.Kind == "OnLoad" && !ev.End:
			onLoadCalled = true
		case ev.Kind == "OnFree" && !ev.End:
			frees[ev.Inst]++
			freePos[ev.Inst] = ev.Seq
		case ev.Kind == "Export" && ev.End && !ev.Bad:
			exportOK[ev.Inst] = true
		case ev.Kind == "Open" && !ev.Bad:
			opened[ev.Inst] = true
		}
	}
	for _, in := range w.Insts {
		isNew := in.N > a.inst0 || (w.static && in.Static)
		if !isNew {
			continue
		}
		w.M.failedNew[in] = a
		n := frees[in]
		if exportOK[in] && n != 1 {
			props := []string{"C04"}
			if w.static {
				props = append(props, "C15")
			}
			w.Violate(props, "%s failed: OnFree of the newly loaded %s was called %d times", label, in, n)
		}
		if n > 1 {
			w.Violate([]string{"C03"}, "%s failed: OnFree of %s was called %d times", label, in, n)
		}
		if onLoadCalled && exportOK[in] {
			for _, d := range in.Spec.Deps {
				for o := range exportOK {
					if strings.ToLower(o.Name) == strings.ToLower(d.Field) && o != in && frees[o] > 0 && frees[in] > 0 && freePos[o] < freePos[in] {
						w.Violate([]string{"C04", "C05"}, "%s failed: OnFree of %s was called before OnFree of %s which depends on it", label, o, in)
					}
				}
			}
		}
	}
	// kept plugins are not freed by a failed attempt (unless they were due anyway)
	for in, n := range frees {
		if n > 0 && in.N <= a.inst0 && !(w.static && in.Static) {
			if due, isDue := w.due(in); !isDue || due > a.T1 {
				w.Violate([]string{"C04", "C01"}, "%s failed: OnFree of the older plugin %s was called", label, in)
			}
		}
	}
}

func (w *World) judgeSuccess(a *Attempt, label string) {
	e := a.Exp
	if e.Nothing {
		if a.NewPM != a.OldPM {
			w.Violate([]string{"C13"}, "%s selected nothing but replaced the current manager", label)
		}
		if len(a.Details) != 0 {
			w.Violate([]string{"C13"}, "%s selected nothing but returned details %v", label, a.Details)
		}
		for _, ev := range a.evs(w) {
			if ev.Kind != "OnFree" && ev.Kind != "newExt" {
				w.Violate([]string{"C13"}, "%s selected nothing but called %s", label, ev.Kind)
				break
			}
		}
		return
	}
	pm := a.NewPM
	if pm == nil || pm == a.OldPM {
		w.Violate([]string{"C01", "C02"}, "%s succeeded but the current manager is not a new one", label)
		return
	}
	mm := &MMgr{N: len(w.M.All) + 1, PM: pm, Plugs: map[string]*MPlug{}}
	seen := map[string]bool{}
	pos := map[string]int{}
	for i, p := range pm.Plugins() {
		if p == nil {
			w.Violate([]string{"C01"}, "%s: a plugin of the new manager is nil", label)
			continue
		}
		k := strings.ToLower(p.Name)
		if seen[k] {
			w.Violate([]string{"C01", "C08"}, "%s: %s is in the new manager twice", label, p.Name)
		}
		seen[k] = true
		pos[k] = i + 1
		in := InstOf(p)
		mm.Plugs[k] = &MPlug{Key: k, Name: p.Name, Inst: in}
	}
	for _, n := range e.Selected {
		k := strings.ToLower(n)
		if !seen[k] {
			w.Violate([]string{"C01", "C08", "C13"}, "%s succeeded but %s is not among the manager's plugins", label, n)
		}
	}
	for k := range seen {
		if _, isN := e.New[k]; !isN {
			if _, isK := e.Kept[k]; !isK {
				w.Violate([]string{"C01", "C08", "C13"}, "%s: the new manager holds %s which was not selected", label, k)
			}
		}
	}
	// FindPlugin
	for k := range seen {
		for _, v := range []string{k, strings.ToUpper(k), mm.Plugs[k].Name, strings.Title(k)} {
			p := pm.FindPlugin(v)
			if p == nil || InstOf(p) != mm.Plugs[k].Inst {
				w.Violate([]string{"C13"}, "%s: FindPlugin(%q) does not return the plugin", label, v)
			}
		}
		for _, v := range []string{k + ".so", " " + k, k + "x", "", string([]rune(k)[1:])} {
			if p := pm.FindPlugin(v); p != nil && !seen[strings.ToLower(v)] {
				w.Violate([]string{"C13"}, "%s: FindPlugin(%q) returns %s", label, v, p.Name)
			}
		}
	}
	// new and kept instances
	for k, n := range e.New {
		mp := mm.Plugs[k]
		if mp == nil || mp.Inst == nil {
			continue
		}
		in := mp.Inst
		if in.N <= a.inst0 && !w.static {
			w.Violate([]string{"C08"}, "%s: %s is not loaded afresh, it is still %s", label, n, in)
		}
		if in.Spec.UID != e.NewUID[k] {
			w.Violate([]string{"C08", "C17"}, "%s: %s runs %s although its file holds %s", label, n, in, e.NewUID[k])
		}
	}
	for k := range e.Kept {
		mp := mm.Plugs[k]
		if mp == nil || mp.Inst == nil {
			continue
		}
		if w.M.Cur.Plugs[k].Inst != mp.Inst {
			w.Violate([]string{"C08"}, "%s: %s must be kept as %s but it is %s now", label, k, w.M.Cur.Plugs[k].Inst, mp.Inst)
		}
	}
	// details
	det := map[string][]string{}
	for f, v := range a.Details {
		det[strings.TrimSuffix(filepath.Base(f), ".so")] = append(det[strings.TrimSuffix(filepath.Base(f), ".so")], v)
	}
	for _, n := range e.Selected {
		k := strings.ToLower(n)
		want := "ok"
		if v, ok := e.Kept[k]; ok {
			want = v
		}
		name := n
		if _, ok := det[n]; !ok {
			// a kept plugin may be reported under the name it was loaded with
			for x := range det {
				if strings.ToLower(x) == k {
					name = x
				}
			}
		}
		if got := det[name]; len(got) != 1 || got[0] != want {
			props := []string{"C08"}
			if w.static {
				props = []string{"C15"}
			}
			w.Violate(props, "%s: details report %s as %v instead of %q", label, n, got, want)
		}
	}
	if len(a.Details) != len(e.Selected) {
		w.Violate([]string{"C08"}, "%s: details %v do not name exactly the selected plugins %v", label, a.Details, e.Selected)
	}
	// order and links
	for k, mp := range mm.Plugs {
		in := mp.Inst
		if in == nil {
			continue
		}
		if in.Spec.ImportVal != nil {
			continue
		}
		links := in.Links()
		for _, d := range in.Spec.Deps {
			dk := strings.ToLower(d.Field)
			if pos[dk] == 0 {
				w.Violate([]string{"C09"}, "%s: %s depends on %s which is not in the manager", label, k, dk)
				continue
			}
			if pos[dk] > pos[k] {
				w.Violate([]string{"C05"}, "%s: Plugins() puts %s before its dependency %s", label, k, dk)
			}
			got := links[d.Field]
			want := mm.Plugs[dk].Inst
			if want.Spec.ExportKind != 0 {
				want = nil
			}
			if got != want {
				props := []string{"C09", "C06"}
				if w.static {
					props = append(props, "C15")
				}
				w.Violate(props, "%s: %s of %s is linked to %s, the manager holds %s", label, d.Field, in, got, want)
			}
		}
	}
	// vault
	fs, ts := w.vaultContent(pm)
	wantF, wantT := map[string]*Instance{}, map[string]*Instance{}
	for _, mp := range mm.Plugs {
		if mp.Inst == nil {
			continue
		}
		for _, x := range mp.Inst.Spec.Funcs {
			wantF[x] = mp.Inst
		}
		for _, x := range mp.Inst.Spec.Types {
			wantT[x] = mp.Inst
		}
	}
	vprops := []string{"C10", "C01"}
	if w.static {
		vprops = append(vprops, "C15")
	}
	if !reflect.DeepEqual(keysInst(fs), keysInst(wantF)) {
		w.Violate(vprops, "%s: live functions are %v instead of %v", label, fs, wantF)
	}
	if !reflect.DeepEqual(keysInst(ts), keysInst(wantT)) {
		w.Violate(vprops, "%s: live types are %v instead of %v", label, ts, wantT)
	}
	if pm.Vault.DataBag == nil {
		w.Violate([]string{"C10"}, "%s: the data bag is nil", label)
	} else {
		want := 0
		for k := range e.New {
			want++
			if _, ok := pm.Vault.DataBag["init/"+k]; !ok {
				w.Violate([]string{"C10"}, "%s: what OnInit of %s stored in the data bag is not in the manager's", label, k)
			}
		}
		if len(pm.Vault.DataBag) != want {
			w.Violate([]string{"C10"}, "%s: the data bag did not start empty: %v", label, sortedKeys(pm.Vault.DataBag))
		}
	}
	if len(w.Exts) > 0 || pm.Vault.Extension != nil {
		x, _ := pm.Vault.Extension.(*Ext)
		n := 0
		for _, y := range w.Exts {
			if y.Attempt == a.N {
				n++
			}
		}
		if x == nil || x.Attempt != a.N || n != 1 {
			w.Violate([]string{"C10"}, "%s: the extension was not obtained by one call of the creator (%d calls)", label, n)
		}
	}
	for k := range e.New {
		if mp := mm.Plugs[k]; mp != nil && mp.Inst != nil && mp.Inst.VaultAtInit != nil && mp.Inst.ExtAtInit != pm.Vault.Extension && !w.vaultSet {
			w.Violate([]string{"C10"}, "%s: OnInit of %s received another vault", label, k)
		}
	}
	// recorded identity
	if !w.static {
		for _, p := range pm.Plugins() {
			in := InstOf(p)
			if in != nil && p.FileSha1 != sha1.Sum(w.content(in.Spec.UID)) {
				w.Violate([]string{"C17"}, "%s: the recorded checksum of %s is not that of the loaded content", label, p.Name)
			}
		}
	}
	w.judgeDescription(a, pm, label)
	// model transition
	if w.M.Cur != nil && !w.static {
		w.M.Cur.Retired = true
		w.M.Cur.RetiredAt = a.T1
	}
	mm.snap = w.snapshot(pm)
	w.M.All = append(w.M.All, mm)
	w.M.Cur = mm
}

// judgeDescription: what the new manager and the details say about the plugins is true.
func (w *World) judgeDescription(a *Attempt, pm *hotswap.PluginManager, label string) {
	e := a.Exp
	bad := func(f string, args ...any) {
		w.Violate([]string{"C24"}, label+": "+f, args...)
	}
	names := map[string]string{}
	for _, n := range e.Selected {
		names[strings.ToLower(n)] = n
	}
	var old map[string]*hotswap.Plugin
	if w.M.Cur != nil {
		old = map[string]*hotswap.Plugin{}
		for _, p := range w.M.Cur.PM.Plugins() {
			old[strings.ToLower(p.Name)] = p
		}
	}
	for _, p := range pm.Plugins() {
		in := InstOf(p)
		if in == nil {
			continue
		}
		k := strings.ToLower(p.Name)
		reason, kept := e.Kept[k]
		if o := old[k]; kept && o != nil {
			if p.Name != o.Name || p.File != o.File || p.FileSha1 != o.FileSha1 || !p.When.Equal(o.When) {
				bad("%s was kept, but is described as (%q %q %x %v) instead of (%q %q %x %v)", k, p.Name, p.File, p.FileSha1, p.When, o.Name, o.File, o.FileSha1, o.When)
			}
			if p.Note != reason {
				bad("the note of %s, which was kept as %s, is %q", k, reason, p.Note)
			}
		} else if !kept {
			if p.Name != names[k] {
				bad("%s is called %q", names[k], p.Name)
			}
			if !w.static && filepath.Clean(p.File) != filepath.Join(w.Dir, names[k]+".so") {
				bad("%s was loaded from %s, but its file is said to be %s", k, filepath.Join(w.Dir, names[k]+".so"), p.File)
			}
			if t := p.When.Sub(w.Start); t < a.T0 || t > a.T1 {
				bad("%s was loaded between %v and %v, but at %v as it says", k, a.T0, a.T1, t)
			}
			if p.Note != "" && p.Note != "ok" {
				bad("the note of %s, which was loaded afresh, is %q", k, p.Note)
			}
		}
		if in.Spec.ImportVal == nil {
			// Several fields may name one plugin; whether it is listed once or more often then is open.
			want, got, once := map[string]bool{}, map[string]bool{}, true
			for _, d := range in.Spec.Deps {
				n := strings.ToLower(d.Field)
				once = once && !want[n]
				want[n] = true
			}
			for _, d := range p.Deps {
				n := strings.ToLower(d)
				if got[n] && once {
					bad("%s says twice that it depends on %s", k, d)
				}
				got[n] = true
				if q := pm.FindPlugin(d); !kept && q != nil && q.Name != d {
					bad("%s says that it depends on %s, which is called %s", k, d, q.Name)
				}
			}
			if !reflect.DeepEqual(want, got) {
				bad("%s depends on %v, but says it depends on %v", k, sortedKeys(want), p.Deps)
			}
		}
	}
	var want []string
	for f, v := range a.Details {
		want = append(want, strings.TrimSuffix(filepath.Base(f), ".so")+": "+v)
	}
	sort.Strings(want)
	for i := 0; i < 2 && len(want) > 0; i++ {
		s := a.Details.String()
		got := strings.Split(s, ", ")
		sort.Strings(got)
		if !sameStrings(got, want) {
			bad("the details %v are printed as %q", map[string]string(a.Details), s)
		}
	}
}

// checkRetired: managers obtained earlier stay what they were.
func (w *World) checkRetired(label string) {
	for _, m := range w.M.All {
		if d := m.snap.diff(w.snapshot(m.PM)); d != "" {
			props := []string{"C02", "C24"}
			if m == w.M.Cur {
				props = append(props, "C01")
			}
			w.Violate(props, "%s: manager %d was modified after it had become current: %s", label, m.N, d)
		}
	}
}

// due: when OnFree of an instance has to be called (false: not scheduled).
func (w *World) due(in *Instance) (time.Duration, bool) {
	var t time.Duration
	any := false
	for _, m := range w.M.All {
		for _, mp := range m.Plugs {
			if mp.Inst != in {
				continue
			}
			any = true
			if !m.Retired {
				return 0, false
			}
			if m.RetiredAt > t {
				t = m.RetiredAt
			}
		}
	}
	if !any {
		return 0, false
	}
	return t + w.Delay, true
}

// Ledger compares the OnFree calls so far with what is due at this (quiescent) moment.
func (w *World) Ledger(label string) {
	now := w.now()
	inManager := map[*Instance]bool{}
	for _, m := range w.M.All {
		for _, mp := range m.Plugs {
			inManager[mp.Inst] = true
		}
	}
	for _, in := range w.Insts {
		if !inManager[in] {
			continue // judged when its attempt failed; late frees:
		}
		due, scheduled := w.due(in)
		n := len(in.Free)
		props := []string{"C03"}
		switch {
		case n > 1:
			w.Violate(props, "%s: OnFree of %s was called %d times (%v)", label, in, n, in.Free)
		case n == 1 && (!scheduled || in.Free[0] < due):
			if !scheduled && w.M.failures > 0 {
				props = append(props, "C01")
			}
			w.Violate(props, "%s: OnFree of %s was called at %v, too early (in use or retired less than the free delay ago; due=%v scheduled=%v)", label, in, in.Free[0], due, scheduled)
		case n == 0 && scheduled && now > due+time.Second:
			p := props
			if w.anyOnFreePanic() {
				p = append(p, "C12")
			}
			if len(w.M.failedNew) > 0 {
				p = append(p, "C04")
			}
			w.Violate(p, "%s: OnFree of %s has not been called although it was due at %v (now %v)", label, in, due, now)
		}
	}
	for in := range w.M.failedNew {
		if inManager[in] {
			continue
		}
		if len(in.Free) > 1 {
			w.Violate([]string{"C04", "C03"}, "%s: OnFree of %s (from a failed attempt) was called %d times", label, in, len(in.Free))
		}
	}
}

func (w *World) anyOnFreePanic() bool {
	for _, in := range w.Insts {
		if isPanic(in.Spec.fault("OnFree", 0)) {
			return true
		}
	}
	return false
}

// Pause lets virtual time pass and checks the ledger afterwards.
func (w *World) Pause(d time.Duration, label string) {
	time.Sleep(d)
	synctest.Wait()
	w.Ledger(label)
	w.checkOpened()
	w.checkRetired(label)
}

// Retire waits until everything that is due has been freed.
func (w *World) Retire(label string) {
	w.Pause(w.Delay+2*time.Second, label+" + free delay")
	w.Pause(w.Delay+2*time.Second, label+" + 2x free delay")
}
