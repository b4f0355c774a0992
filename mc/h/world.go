// Package h is the model-checking harness. It drives github.com/edwingeng/hotswap through its
// exported API only; plugins are in-memory fakes reached through the overlaid std package plugin.
package h

import (
	"bytes"
	"crypto/sha1"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"plugin"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/vault"
	"github.com/edwingeng/slog"
	"verif.local/mc/rt"
)

// Fault kinds of a plugin function or callback.
const (
	NoFault = iota
	FErr
	FPanicStr
	FPanicErr
	FPanicCustom
	FPanicNilDeref
	FNilMap // live registries: return nil
	FPanicInt
	FPanicNilPtr   // a nil pointer whose String method dereferences it
	FPanicBadStr   // a value whose String method panics
	FPanicBadErr   // an error whose Error method panics
	FPanicNilErr   // a nil pointer that is an error
	FPanicSlice    // a value that cannot be compared
	FPanicFunc     // a function
	FPanicWrapped  // an error that wraps one whose Error method panics
	FPanicEmptyStr // the empty string
	FPanicPercent  // a string that looks like a format
)

var oddPanics = []int{FPanicNilPtr, FPanicBadStr, FPanicBadErr, FPanicNilErr, FPanicSlice, FPanicFunc, FPanicWrapped, FPanicEmptyStr, FPanicPercent}

type strPtr struct{ s string }

func (p *strPtr) String() string { return p.s }

type badStr struct{ where string }

func (b badStr) String() string { panic("String " + b.where) }

type badErr struct{ where string }

func (b *badErr) Error() string { return b.where + string([]byte(nil)[len(b.where)]) }

type wrapErr struct{ error }

func (w wrapErr) Unwrap() error { return w.error }

type customPanic struct{ S string }

func (c customPanic) String() string { return "custom<" + c.S + ">" }

var faultNames = map[int]string{NoFault: "none", FErr: "error", FPanicStr: "panic(string)", FPanicErr: "panic(error)",
	FPanicCustom: "panic(struct)", FPanicNilDeref: "nil-deref", FNilMap: "nil map", FPanicInt: "panic(int)",
	FPanicNilPtr: "panic(nil pointer)", FPanicBadStr: "panic(String panics)", FPanicBadErr: "panic(Error panics)", FPanicNilErr: "panic(nil error pointer)",
	FPanicSlice: "panic(slice)", FPanicFunc: "panic(func)", FPanicWrapped: "panic(wrapped bad error)", FPanicEmptyStr: "panic(empty string)", FPanicPercent: "panic(%)"}

// Exp is the object a fake plugin exports.
type Exp struct{ Inst *Instance }

func (e *Exp) WhoAmI() *Instance { return e.Inst }

// Who is the interface variant of an import field.
type Who interface{ WhoAmI() *Instance }

type Dep struct {
	Field string // field name in the Import object
	Kind  int    // 0: *Exp, 1: Who, 2: interface{}
}

// Spec describes one version of a plugin.
type Spec struct {
	UID           string
	Name          string // set by Put
	NonReloadable bool
	ExportKind    int // 0 *Exp, 1 nil, 2 typed nil, 3 *Exp of a type no field accepts
	ExportVal     func(*Instance) any
	Deps          []Dep
	ImportVal     func(*Instance) any
	ImportFails   bool // declared by the suite for ImportVal objects: the load must fail
	Funcs, Types  []string
	Faults        map[string]int
	FaultAfter    map[string]int // the fault hits the n-th call (0 = first) and later ones
	Slow          map[string]time.Duration
	Missing       map[string]bool
	Wrong         map[string]bool
	OpenErr       bool
	Raw           []byte  // the contents of the file, if they are to be these
	Layout        *[2]int // bytes before and after the line that tells the version (default: 0, 32)
	Invoke        int     // fault of InvokeFunc
	Syms          map[string]any
	OnInitHook    func(inst *Instance, v *vault.Vault)
	InvokeText    string // text of that fault (default: one of its own for every version)
	InvokeHook    func(inst *Instance, name string, params []interface{})
	OnFreeHook    func(inst *Instance)
	OnLoadHook    func(inst *Instance, data any)
}

func (s *Spec) fault(phase string, n int) int {
	if s.Faults == nil {
		return NoFault
	}
	if n < s.FaultAfter[phase] {
		return NoFault
	}
	return s.Faults[phase]
}

type Instance struct {
	W      *World
	Spec   *Spec
	Name   string // name of the file it was opened from / static name
	N      int
	Path   string
	Static bool
	imp    any
	exp    any
	Free   []time.Duration
	calls  map[string]int
	lf     map[string]interface{}
	lt     map[string]func() interface{}

	LinksAtLoad map[string]*Instance
	VaultAtInit *vault.Vault
	InitFuncs   []string
	InitTypes   []string
	BagAtInit   map[string]interface{}
	ExtAtInit   interface{}
	LoadData    any
	ExportOK    bool
	FirstOrder  int
}

func (in *Instance) String() string {
	if in == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%s(%s)#%d", in.Name, in.Spec.UID, in.N)
}

type Ev struct {
	Seq     int
	At      time.Duration
	Kind    string
	End     bool
	Bad     bool // the call ended in an error or a panic
	Inst    *Instance
	Attempt int // 0: outside of any attempt
	G       uint64
	Arg     any
	Note    string
}

func (e Ev) String() string {
	s := fmt.Sprintf("%4d t=%v a%d %s", e.Seq, e.At, e.Attempt, e.Kind)
	if e.Inst != nil {
		s += " " + e.Inst.String()
	}
	if e.End {
		s += " end"
	}
	if e.Bad {
		s += " FAULT"
	}
	if e.Note != "" {
		s += " " + e.Note
	}
	return s
}

type opened struct {
	path string
	ino  uint64
	size int64
	sha  [20]byte
	inst *Instance
	pl   *plugin.Plugin
}

type Violation struct {
	Props []string `json:"props"`
	Msg   string   `json:"msg"`
}

type World struct {
	c     *Ctx
	Dir   string
	Start time.Time

	mu      sync.Mutex
	specs   map[string]*Spec
	specMu  sync.Mutex // guards specs
	Insts   []*Instance
	opened  []*opened
	Evs     []Ev
	attempt int // current attempt in sequential runs
	byG     map[uint64]int
	conc    bool
	Exts    []*Ext
	Log     *Logger
	nowOpen int

	SW        *hotswap.PluginManagerSwapper
	Delay     time.Duration
	hasCB1    bool
	cb1       CB
	static    bool
	M         Model
	Attempts  []*Attempt
	sentinel  int64
	touches   int64
	extraTags []string
	vaultSet  bool // OnInit hooks replace the fields of the vault
	dirty     bool
	onlyTags  map[string]bool
	CBSeen    []CBCall
	OpenHook  func(path string)
	EnterHook func(phase string, in *Instance)
	CBHook    func(which string, newM, oldM *hotswap.PluginManager)
	curA      *Attempt
	cbFor     map[uint64]*Attempt
	peer      *World          // another swapper of the same process
	moreDirs  []string        // removed at the end
	only      map[string]bool // the whitelist, if there is one
	mark      string          // versions of this world are called like this
}

// owns tells whether the version a file holds is one of this world's.
func (w *World) owns(path string) bool {
	b, err := os.ReadFile(path)
	return err == nil && bytes.Contains(b, []byte("uid:"+w.mark))
}

type CBCall struct {
	Which    string
	New, Old *hotswap.PluginManager
	Cur      *hotswap.PluginManager
	At       time.Duration
	Attempt  int
	Complete string
}

type Ext struct {
	N       int
	Attempt int
}

var curWorld *World

func init() {
	plugin.VerifOpen = func(path string) (*plugin.Plugin, error) {
		if raceOpen != nil {
			return raceOpen(path)
		}
		w := curWorld
		if w == nil {
			return nil, errors.New("no world")
		}
		if w.peer != nil && w.peer.owns(path) {
			w = w.peer
		}
		return w.open(path)
	}
}

func (w *World) Violate(props []string, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if len(w.extraTags) > 0 {
		props = append(append([]string(nil), props...), w.extraTags...)
	}
	w.c.violate(props, msg)
}

func (w *World) now() time.Duration { return time.Since(w.Start) }

func (w *World) log(kind string, in *Instance, end, bad bool, arg any, note string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	g := rt.Goid()
	a := w.attempt
	if w.conc {
		a = w.byG[g]
	}
	w.Evs = append(w.Evs, Ev{Seq: len(w.Evs), At: time.Since(w.Start), Kind: kind, End: end, Bad: bad, Inst: in, Attempt: a, G: g, Arg: arg, Note: note})
	return len(w.Evs) - 1
}

// ---------------------------------------------------------------------------------- files

func (w *World) content(uid string) []byte {
	pre, post := 0, 32
	w.specMu.Lock()
	sp := w.specs[uid]
	if sp != nil && sp.Layout != nil {
		pre, post = sp.Layout[0], sp.Layout[1]
	}
	w.specMu.Unlock()
	if sp != nil && sp.Raw != nil {
		return sp.Raw
	}
	head := "uid:" + uid + "\n"
	b := make([]byte, 0, pre+len(head)+post)
	b = append(b, fill(pre)...)
	b = append(b, head...)
	return append(b, fill(post)...)
}

var filler = []byte(strings.Repeat("x", 64))

func fill(n int) []byte {
	for len(filler) < n {
		filler = append(filler, filler...)
	}
	return filler[:n]
}

// parse finds out which version a file holds; "" if it is not exactly one of them.
func (w *World) parse(b []byte) string {
	w.specMu.Lock()
	for uid, sp := range w.specs {
		if sp.Raw != nil && bytes.Equal(sp.Raw, b) {
			w.specMu.Unlock()
			return uid
		}
	}
	w.specMu.Unlock()
	i := bytes.Index(b, []byte("uid:"))
	if i < 0 {
		return ""
	}
	j := bytes.IndexByte(b[i:], '\n')
	if j < 0 {
		return ""
	}
	uid := string(b[i+4 : i+j])
	if !bytes.Equal(b, w.content(uid)) {
		return ""
	}
	return uid
}

func (w *World) AddSpec(s *Spec) *Spec {
	if s.UID == "" {
		s.UID = fmt.Sprintf("u%d", len(w.specs)+1)
	}
	w.specMu.Lock()
	w.specs[s.UID] = s
	w.specMu.Unlock()
	return s
}

// Put installs a plugin file (base name without .so).
func (w *World) Put(name string, s *Spec) {
	s.Name = name
	w.AddSpec(s)
	w.PutRaw(name+".so", w.content(s.UID))
}

// PutRaw writes a file. Changed contents keep size and modification time of what was there before,
// unchanged contents get a new modification time: only the contents tell the versions apart.
func (w *World) PutRaw(file string, data []byte) {
	path := filepath.Join(w.Dir, file)
	old, _ := os.ReadFile(path)
	if err := os.WriteFile(path, data, 0644); err != nil {
		panic(err)
	}
	mt := time.Unix(500000, 0)
	if old != nil && string(old) == string(data) {
		w.touches++
		mt = time.Unix(600000+w.touches, 0)
	}
	if err := os.Chtimes(path, mt, mt); err != nil {
		panic(err)
	}
}

func (w *World) Del(name string) {
	if err := os.Remove(filepath.Join(w.Dir, name+".so")); err != nil {
		panic(err)
	}
}

// Files lists the regular *.so files directly inside the plugin directory: base name -> uid.
func (w *World) Files() map[string]string {
	es, err := os.ReadDir(w.Dir)
	if err != nil {
		return nil
	}
	m := map[string]string{}
	for _, e := range es {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".so") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(w.Dir, e.Name()))
		if err != nil {
			continue
		}
		name := strings.TrimSuffix(e.Name(), ".so")
		if w.only != nil && !w.only[name] {
			continue
		}
		m[name] = w.parse(b)
	}
	return m
}

// ---------------------------------------------------------------------------------- fake loader

func (w *World) open(path string) (*plugin.Plugin, error) {
	rt.Point("cb:Open")
	if h := w.OpenHook; h != nil {
		h(path)
	}
	real, err := filepath.EvalSymlinks(path)
	if err != nil {
		return nil, fmt.Errorf("plugin.Open(%q): realpath failed", path)
	}
	real, _ = filepath.Abs(real)
	w.checkOpened()
	w.mu.Lock()
	for _, o := range w.opened {
		if o.path == real {
			w.mu.Unlock()
			w.log("Open", o.inst, false, false, nil, "cached path "+filepath.Base(real))
			return o.pl, nil
		}
	}
	w.mu.Unlock()
	data, err := os.ReadFile(real)
	if err != nil {
		return nil, err
	}
	uid := w.parse(data)
	s := w.specs[uid]
	if s == nil {
		w.log("Open", nil, false, true, nil, "invalid ELF "+filepath.Base(real))
		return nil, fmt.Errorf("plugin.Open(%q): invalid ELF header", path)
	}
	w.mu.Lock()
	for _, o := range w.opened {
		if o.inst.Spec == s {
			w.mu.Unlock()
			w.log("Open", o.inst, false, true, nil, "already loaded")
			return nil, fmt.Errorf("plugin.Open(%q): plugin already loaded", path)
		}
	}
	w.mu.Unlock()
	if s.OpenErr {
		w.log("Open", nil, false, true, nil, "open error injected for "+uid)
		return nil, fmt.Errorf("plugin.Open(%q): injected open error", path)
	}
	in := w.newInstance(s, s.Name, real)
	pl := plugin.VerifNew(in.symbols(), uid)
	var st syscall.Stat_t
	if err := syscall.Stat(real, &st); err != nil {
		panic(err)
	}
	mt := time.Unix(1000000+int64(in.N), 0)
	if err := os.Chtimes(real, mt, mt); err != nil {
		panic(err)
	}
	w.mu.Lock()
	w.opened = append(w.opened, &opened{path: real, ino: st.Ino, size: st.Size, sha: sha1.Sum(data), inst: in, pl: pl})
	w.mu.Unlock()
	w.log("Open", in, false, false, nil, filepath.Base(real))
	return pl, nil
}

func baseOf(p string) string { return strings.TrimSuffix(filepath.Base(p), ".so") }

// checkOpened verifies that no file that was opened as a plugin has been written since (C17).
func (w *World) checkOpened() {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, o := range w.opened {
		var st syscall.Stat_t
		if err := syscall.Stat(o.path, &st); err != nil || st.Ino != o.ino {
			continue // removed or replaced: the opened inode is untouched
		}
		if st.Mtim.Sec != 1000000+int64(o.inst.N) || st.Size != o.size {
			w.c.violate([]string{"C17"}, fmt.Sprintf("the file %s was written after it had been opened as plugin %s", filepath.Base(o.path), o.inst))
			o.ino = 0
			continue
		}
	}
}

func (w *World) newInstance(s *Spec, name, path string) *Instance {
	w.mu.Lock()
	defer w.mu.Unlock()
	in := &Instance{W: w, Spec: s, Name: name, N: len(w.Insts) + 1, Path: path, calls: map[string]int{}}
	in.lf = map[string]interface{}{}
	for _, f := range s.Funcs {
		in.lf[f] = func() *Instance { return in }
	}
	in.lt = map[string]func() interface{}{}
	for _, f := range s.Types {
		f := f
		in.lt[f] = func() interface{} { return &LiveObj{in, f} }
	}
	w.Insts = append(w.Insts, in)
	return in
}

type LiveObj struct {
	Inst *Instance
	Name string
}

var required = []string{"OnLoad", "OnInit", "OnFree", "Export", "Import", "InvokeFunc", "Reloadable", "HotswapLiveFuncs", "HotswapLiveTypes"}

func (in *Instance) symbols() map[string]any {
	m := map[string]any{
		"OnLoad":           in.onLoad,
		"OnInit":           in.onInit,
		"OnFree":           in.onFree,
		"Export":           in.export,
		"Import":           in.importF,
		"InvokeFunc":       in.invokeFunc,
		"Reloadable":       in.reloadable,
		"HotswapLiveFuncs": in.liveFuncs,
		"HotswapLiveTypes": in.liveTypes,
	}
	wrong := 0
	for k := range m {
		if in.Spec.Missing[k] {
			delete(m, k)
		}
		if in.Spec.Wrong[k] {
			wrong++
			m[k] = func(a, b, c int) string { return "wrong" }
		}
	}
	for k, v := range in.Spec.Syms {
		m[k] = v
	}
	return m
}

// StaticPlugin builds a static plugin from a spec.
func (w *World) StaticPlugin(name string, s *Spec) *hotswap.StaticPlugin {
	w.AddSpec(s)
	in := w.newInstance(s, name, "")
	in.Static = true
	var (
		fExport = in.export
		fLF     = in.liveFuncs
		fLT     = in.liveTypes
		fImport = in.importF
		fInvoke = in.invokeFunc
		fFree   = in.onFree
		fInit   = in.onInit
		fLoad   = in.onLoad
		fRel    = in.reloadable
	)
	miss := s.Missing
	if miss["Export"] {
		fExport = nil
	}
	if miss["HotswapLiveFuncs"] {
		fLF = nil
	}
	if miss["HotswapLiveTypes"] {
		fLT = nil
	}
	if miss["Import"] {
		fImport = nil
	}
	if miss["InvokeFunc"] {
		fInvoke = nil
	}
	if miss["OnFree"] {
		fFree = nil
	}
	if miss["OnInit"] {
		fInit = nil
	}
	if miss["OnLoad"] {
		fLoad = nil
	}
	if miss["Reloadable"] {
		fRel = nil
	}
	return &hotswap.StaticPlugin{Name: name, PluginFuncs: hotswap.NewPluginFuncs(fExport, fLF, fLT, fImport, fInvoke, fFree, fInit, fLoad, fRel)}
}

// enter logs the begin of a plugin function; leave applies the fault and logs its end.
func (in *Instance) enter(phase string, arg any) int {
	w := in.W
	w.mu.Lock()
	n := in.calls[phase]
	in.calls[phase]++
	w.mu.Unlock()
	w.log(phase, in, false, false, arg, "")
	if h := w.EnterHook; h != nil {
		h(phase, in)
	}
	rt.Point("cb:" + phase + ":" + in.Name)
	if d := in.Spec.Slow[phase]; d > 0 {
		rt.Sleep(d)
	}
	return n
}

func panicValue(kind int, where string) any {
	switch kind {
	case FPanicStr:
		return "boom " + where
	case FPanicErr:
		return errors.New("errboom " + where)
	case FPanicCustom:
		return customPanic{where}
	case FPanicInt:
		return 424242
	case FPanicNilPtr:
		return (*strPtr)(nil)
	case FPanicBadStr:
		return badStr{where}
	case FPanicBadErr:
		return &badErr{where}
	case FPanicNilErr:
		return (*badErr)(nil)
	case FPanicSlice:
		return []int{1, 2}
	case FPanicFunc:
		return func() {}
	case FPanicWrapped:
		return wrapErr{&badErr{where}}
	case FPanicEmptyStr:
		return ""
	case FPanicPercent:
		return "100%s %d %!v(MISSING) " + where
	}
	return nil
}

// panicText is what an error produced from the panic must contain.
func panicText(kind int, where string) string {
	if kind == FPanicNilDeref {
		return "nil pointer dereference"
	}
	if kind == FPanicPercent {
		return panicValue(kind, where).(string)
	}
	if kind >= FPanicNilPtr {
		return "" // there is no one way to print it
	}
	return fmt.Sprint(panicValue(kind, where))
}

func doPanic(kind int, where string) {
	if kind == FPanicNilDeref {
		var p *Exp
		_ = p.Inst
	}
	panic(panicValue(kind, where))
}

func isPanic(kind int) bool {
	return kind == FPanicStr || kind == FPanicErr || kind == FPanicCustom || kind == FPanicNilDeref || kind >= FPanicInt
}

func (in *Instance) leave(phase string, n int) error {
	f := in.Spec.fault(phase, n)
	where := phase + "/" + in.Spec.UID
	rt.PointEnd("cb:" + phase + ":" + in.Name + ":end")
	switch {
	case f == FErr:
		in.W.log(phase, in, true, true, nil, "error")
		return errors.New("injected error " + where)
	case isPanic(f):
		in.W.log(phase, in, true, true, nil, faultNames[f])
		doPanic(f, where)
	}
	in.W.log(phase, in, true, false, nil, "")
	return nil
}

func (in *Instance) onLoad(data interface{}) error {
	in.snapLinks()
	in.LoadData = data
	n := in.enter("OnLoad", data)
	if h := in.Spec.OnLoadHook; h != nil {
		h(in, data)
	}
	return in.leave("OnLoad", n)
}

func (in *Instance) snapLinks() {
	if in.LinksAtLoad == nil {
		in.LinksAtLoad = in.Links()
	}
}

func (in *Instance) onInit(v *vault.Vault) error {
	in.W.mu.Lock()
	in.VaultAtInit = v
	if v != nil {
		in.InitFuncs = sortedKeys(v.LiveFuncs)
		in.InitTypes = sortedKeys(v.LiveTypes)
		in.BagAtInit = v.DataBag
		in.ExtAtInit = v.Extension
		if v.DataBag != nil {
			v.DataBag["init/"+strings.ToLower(in.Name)] = in
		}
	}
	in.W.mu.Unlock()
	n := in.enter("OnInit", v)
	if h := in.Spec.OnInitHook; h != nil {
		h(in, v)
	}
	return in.leave("OnInit", n)
}

func (in *Instance) onFree() {
	in.W.mu.Lock()
	in.Free = append(in.Free, in.W.now())
	in.W.mu.Unlock()
	n := in.enter("OnFree", nil)
	if h := in.Spec.OnFreeHook; h != nil {
		h(in)
	}
	_ = in.leave("OnFree", n)
}

func (in *Instance) export() interface{} {
	n := in.enter("Export", nil)
	_ = in.leave("Export", n)
	in.ExportOK = true
	if in.Spec.ExportVal != nil {
		if in.exp == nil {
			in.exp = in.Spec.ExportVal(in)
		}
		return in.exp
	}
	switch in.Spec.ExportKind {
	case 1:
		return nil
	case 2:
		return (*Exp)(nil)
	case 3:
		return &struct{ X int }{1}
	}
	if in.exp == nil {
		in.exp = &Exp{in}
	}
	return in.exp
}

var (
	typExp = reflect.TypeOf((*Exp)(nil))
	typWho = reflect.TypeOf((*Who)(nil)).Elem()
	typAny = reflect.TypeOf((*interface{})(nil)).Elem()
)

func (in *Instance) importF() interface{} {
	n := in.enter("Import", nil)
	_ = in.leave("Import", n)
	if in.Spec.ImportVal != nil {
		if in.imp == nil {
			in.imp = in.Spec.ImportVal(in)
		}
		return in.imp
	}
	if len(in.Spec.Deps) == 0 {
		return nil
	}
	if in.imp == nil {
		in.imp = reflect.New(depsType(in.Spec.Deps)).Interface()
	}
	return in.imp
}

var depsTypes = map[string]reflect.Type{}
var depsMu sync.Mutex

func depsType(deps []Dep) reflect.Type {
	depsMu.Lock()
	defer depsMu.Unlock()
	key := ""
	for _, d := range deps {
		key += fmt.Sprintf("%s/%d;", d.Field, d.Kind)
	}
	if t := depsTypes[key]; t != nil {
		return t
	}
	var fs []reflect.StructField
	for _, d := range deps {
		fs = append(fs, reflect.StructField{Name: d.Field, Type: []reflect.Type{typExp, typWho, typAny}[d.Kind]})
	}
	t := reflect.StructOf(fs)
	depsTypes[key] = t
	return t
}

// Links reads the Import object: field -> the instance it is linked to (nil if unset).
func (in *Instance) Links() map[string]*Instance {
	m := map[string]*Instance{}
	if in.imp == nil {
		return m
	}
	v := reflect.ValueOf(in.imp)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
		return m
	}
	for i := 0; i < v.Elem().NumField(); i++ {
		f := v.Elem().Type().Field(i)
		if f.PkgPath != "" {
			continue
		}
		m[f.Name] = nil
		if w, ok := v.Elem().Field(i).Interface().(Who); ok && !v.Elem().Field(i).IsZero() {
			m[f.Name] = w.WhoAmI()
		}
	}
	return m
}

func (in *Instance) reloadable() bool {
	n := in.enter("Reloadable", nil)
	_ = in.leave("Reloadable", n)
	return !in.Spec.NonReloadable
}

func (in *Instance) liveFuncs() map[string]interface{} {
	n := in.enter("LiveFuncs", nil)
	_ = in.leave("LiveFuncs", n)
	if in.Spec.fault("LiveFuncs", n) == FNilMap {
		return nil
	}
	return in.lf
}

func (in *Instance) liveTypes() map[string]func() interface{} {
	n := in.enter("LiveTypes", nil)
	_ = in.leave("LiveTypes", n)
	if in.Spec.fault("LiveTypes", n) == FNilMap {
		return nil
	}
	return in.lt
}

type invokeArgs struct {
	Name   string
	Params []interface{}
}

func (s *Spec) invokeText() string {
	if s.InvokeText != "" {
		return s.InvokeText
	}
	return "Invoke/" + s.UID
}

func (in *Instance) invokeFunc(name string, params ...interface{}) (interface{}, error) {
	if name == "__inst" {
		return in, nil
	}
	n := in.enter("Invoke", invokeArgs{name, params})
	_ = n
	if h := in.Spec.InvokeHook; h != nil {
		h(in, name, params)
	}
	f := in.Spec.Invoke
	where := in.Spec.invokeText()
	switch {
	case f == FErr:
		in.W.log("Invoke", in, true, true, nil, "error")
		return nil, errors.New("injected error " + where)
	case isPanic(f):
		in.W.log("Invoke", in, true, true, nil, faultNames[f])
		doPanic(f, where)
	}
	in.W.log("Invoke", in, true, false, nil, "")
	return in, nil
}

// InstOf finds the fake instance behind a plugin of a manager.
func InstOf(p *hotswap.Plugin) *Instance {
	if p == nil || p.InvokeFunc == nil {
		return nil
	}
	v, err := p.InvokeFunc("__inst")
	if err != nil {
		return nil
	}
	in, _ := v.(*Instance)
	return in
}

func sortedKeys[V any](m map[string]V) []string {
	a := make([]string, 0, len(m))
	for k := range m {
		a = append(a, k)
	}
	sort.Strings(a)
	return a
}

// ---------------------------------------------------------------------------------- logger

type Logger struct {
	mu   sync.Mutex
	Errs []string
	All  []string
	w    *World
}

func (l *Logger) add(level, msg string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if level == "ERROR" || level == "WARN" {
		l.Errs = append(l.Errs, msg)
	}
}
func (l *Logger) NewLoggerWith(keyVals ...any) slog.Logger { return l }
func (l *Logger) Debug(args ...any)                        {}
func (l *Logger) Info(args ...any)                         {}
func (l *Logger) Warn(args ...any)                         { l.add("WARN", fmt.Sprint(args...)) }
func (l *Logger) Error(args ...any)                        { l.add("ERROR", fmt.Sprint(args...)) }
func (l *Logger) Debugf(format string, args ...any)        {}
func (l *Logger) Infof(format string, args ...any)         {}
func (l *Logger) Warnf(format string, args ...any)         { l.add("WARN", fmt.Sprintf(format, args...)) }
func (l *Logger) Errorf(format string, args ...any)        { l.add("ERROR", fmt.Sprintf(format, args...)) }
func (l *Logger) Debugw(msg string, keyVals ...any)        {}
func (l *Logger) Infow(msg string, keyVals ...any)         {}
func (l *Logger) Warnw(msg string, keyVals ...any)         { l.add("WARN", msg+fmt.Sprint(keyVals...)) }
func (l *Logger) Errorw(msg string, keyVals ...any)        { l.add("ERROR", msg+fmt.Sprint(keyVals...)) }
func (l *Logger) FlushLogger() error                       { return nil }
func (l *Logger) errs() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.Errs...)
}
