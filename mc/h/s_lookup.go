package h

import (
	"fmt"
	"io"
	"plugin"
	"reflect"

	"github.com/edwingeng/hotswap"
	"verif.local/mc/rt"
)

func init() {
	register(&Suite{Name: "lookup", Props: []string{"C16"}, Mode: rt.Seq, CrashTags: []string{"C16"}, HangTags: []string{"C16"}, Run: runLookup})
}

type lkStruct struct{ A int }
type lkNamed int
type lkStringer struct{ S string }

func (s lkStringer) String() string { return s.S }

type lkPtrStringer struct{ S string }

func (s *lkPtrStringer) String() string { return s.S }

type lkFunc func(int) int
type lkIface interface{ String() string }
type lkReader interface {
	Read([]byte) (int, error)
}

// a symbol: what the plugin's symbol table holds (a function, or the address of a variable).
type lkSym struct {
	name   string
	val    any
	isVar  bool
	mutate func() // changes the variable
}

func lkSyms() []lkSym {
	vi, vs, vst, vn := 5, "text", lkStruct{3}, lkNamed(9)
	vp := &lkStruct{4}
	var vnilp *lkStruct
	vm := map[string]int{"a": 1}
	var vnm map[string]int
	vsl := []int{1, 2}
	vf := func(x int) int { return x }
	var vnf func(int) int
	var vi0 interface{} = 7
	var vin interface{}
	var viface lkIface = lkStringer{"s"}
	var vifn lkIface
	vch := make(chan int, 1)
	varr := [2]int{1, 2}
	vstr := lkStringer{"v"}
	vps := lkPtrStringer{"p"}
	var verr error = io.EOF
	vpp := &vp
	vany := any(&vi)
	return []lkSym{
		{"FuncA", func() {}, false, nil},
		{"FuncB", func(x int) int { return x * 2 }, false, nil},
		{"FuncC", func(string, ...interface{}) (interface{}, error) { return nil, nil }, false, nil},
		{"FuncD", func() error { return nil }, false, nil},
		{"FuncE", func() interface{} { return nil }, false, nil},
		{"VarInt", &vi, true, func() { vi++ }},
		{"VarString", &vs, true, func() { vs += "x" }},
		{"VarStruct", &vst, true, func() { vst.A++ }},
		{"VarNamed", &vn, true, func() { vn++ }},
		{"VarPtr", &vp, true, func() { vp = &lkStruct{99} }},
		{"VarNilPtr", &vnilp, true, func() { vnilp = &lkStruct{1} }},
		{"VarMap", &vm, true, func() { vm = map[string]int{"b": 2} }},
		{"VarNilMap", &vnm, true, func() { vnm = map[string]int{} }},
		{"VarSlice", &vsl, true, func() { vsl = append(vsl, 3) }},
		{"VarFunc", &vf, true, func() { vf = func(x int) int { return -x } }},
		{"VarNilFunc", &vnf, true, nil},
		{"VarAny", &vi0, true, func() { vi0 = "other" }},
		{"VarNilAny", &vin, true, nil},
		{"VarIface", &viface, true, func() { viface = lkStringer{"z"} }},
		{"VarNilIface", &vifn, true, nil},
		{"VarChan", &vch, true, nil},
		{"VarArray", &varr, true, func() { varr[0] = 100 }},
		{"VarStringer", &vstr, true, func() { vstr.S += "!" }},
		{"VarPtrStringer", &vps, true, func() { vps.S += "!" }},
		{"VarErr", &verr, true, nil},
		{"VarPtrPtr", &vpp, true, nil},
		{"VarAnyPtr", &vany, true, nil},
	}
}

// outTypes: the types out can point to.
func lkOuts() []reflect.Type {
	return []reflect.Type{
		typeOf[func()](), typeOf[func(int) int](), typeOf[lkFunc](), typeOf[func(string, ...interface{}) (interface{}, error)](), typeOf[func() error](), typeOf[func() interface{}](),
		typeOf[int](), typeOf[lkNamed](), typeOf[int64](), typeOf[string](), typeOf[lkStruct](), typeOf[struct{ A int }](), typeOf[map[string]int](), typeOf[[]int](), typeOf[chan int](), typeOf[<-chan int](),
		typeOf[[2]int](), typeOf[any](), typeOf[lkIface](), typeOf[lkReader](), typeOf[error](), typeOf[lkStringer](), typeOf[lkPtrStringer](),
		typeOf[*int](), typeOf[*lkNamed](), typeOf[*string](), typeOf[*lkStruct](), typeOf[**lkStruct](), typeOf[***lkStruct](), typeOf[*map[string]int](), typeOf[*[]int](), typeOf[*func(int) int](),
		typeOf[*any](), typeOf[*lkIface](), typeOf[*chan int](), typeOf[*[2]int](), typeOf[*lkStringer](), typeOf[*lkPtrStringer](), typeOf[*error](), typeOf[**any](), typeOf[bool](),
	}
}

// fillOut: a non-zero value where the type allows one, so that a change shows.
func fillOut(t reflect.Type) reflect.Value {
	switch t.Kind() {
	case reflect.Func:
		return reflect.MakeFunc(t, func(a []reflect.Value) []reflect.Value { panic("sentinel") })
	case reflect.Slice:
		return reflect.MakeSlice(t, 1, 1)
	case reflect.Chan:
		if t.ChanDir() == reflect.BothDir {
			return reflect.MakeChan(t, 0)
		}
		return reflect.Zero(t)
	case reflect.Interface:
		if t.NumMethod() == 0 {
			return reflect.ValueOf("sentinel")
		}
		return reflect.Zero(t)
	}
	return sentinel(t)
}

func runLookup(r *Runner) {
	syms, outs := lkSyms(), lkOuts()
	r.Bound("product", "%d symbols (functions and variables of every kind, nil and non-nil) x %d out types, plus every kind of invalid argument; dynamic plugins, a statically linked one", len(syms), len(outs))
	names := map[string]any{}
	for i := range syms {
		names[syms[i].name] = nil
	}
	try := func(c *Ctx, p *hotswap.Plugin, name string, out any) (err error) {
		defer func() {
			if x := recover(); x != nil {
				c.violate([]string{"C16"}, fmt.Sprintf("Lookup(%q, %T) panics: %v", name, out, x))
				err = fmt.Errorf("panic")
			}
		}()
		return p.Lookup(name, out)
	}
	for si := range syms {
		for oi, ot := range outs {
			r.Case(fmt.Sprintf("lookup/%s/%v", syms[si].name, ot), func(c *Ctx) {
				ss := lkSyms()
				s := ss[si]
				m := map[string]any{}
				for _, x := range ss {
					m[x.name] = x.val
				}
				p := &hotswap.Plugin{Name: "p", P: plugin.VerifNew(m, "p")}
				c.r.Transition()
				c.r.State(s.name + ot.String())
				for round := 0; round < 2; round++ {
					out := reflect.New(outs[oi])
					out.Elem().Set(fillOut(ot))
					before := reflect.New(ot).Elem()
					before.Set(out.Elem())
					err := try(c, p, s.name, out.Interface())
					st := reflect.TypeOf(s.val)
					var want reflect.Value
					ok := true
					switch {
					case st.AssignableTo(ot):
						want = reflect.ValueOf(s.val)
					case s.isVar && st.Elem().AssignableTo(ot):
						want = reflect.ValueOf(s.val).Elem()
					default:
						ok = false
					}
					c.Desc("%s (%v) into *%v: assignable=%v err=%v", s.name, st, ot, ok, err)
					if ok != (err == nil) {
						c.violate([]string{"C16"}, fmt.Sprintf("Lookup of %s (%v) into a pointer to %v: err=%v, assignable=%v", s.name, st, ot, err, ok))
						return
					}
					if err == hotswap.ErrNotExist {
						c.violate([]string{"C16"}, fmt.Sprintf("Lookup of the existing %s returns ErrNotExist", s.name))
					}
					if ok {
						x := reflect.New(ot).Elem()
						x.Set(want)
						if !same(out.Elem(), x) {
							c.violate([]string{"C16"}, fmt.Sprintf("Lookup of %s (%v) into a pointer to %v assigned the wrong value %v", s.name, st, ot, out.Elem()))
						}
						// an address really is the variable's, a value really is a copy
						if s.mutate != nil && s.isVar {
							addr := st.AssignableTo(ot) && ot.Kind() == reflect.Ptr
							snap := fmt.Sprint(reflect.ValueOf(s.val).Elem().Interface())
							s.mutate()
							if addr && out.Elem().Pointer() != reflect.ValueOf(s.val).Pointer() {
								c.violate([]string{"C16"}, fmt.Sprintf("Lookup of %s did not assign the variable's address", s.name))
							}
							_ = snap
						}
					} else if !same(out.Elem(), before) {
						c.violate([]string{"C16"}, fmt.Sprintf("the failed Lookup of %s changed *out", s.name))
					}
				}
			})
		}
	}
	lookupSeqs(r, try)
	// invalid arguments and missing symbols
	var nilIntPtr *int
	var nilAny *any
	var nilMap map[string]int
	var nilFunc func()
	x := 3
	bad := []struct {
		name string
		out  any
	}{
		{"nil", nil}, {"typed nil pointer", nilIntPtr}, {"nil *any", nilAny}, {"int", 3}, {"string", "s"}, {"struct", lkStruct{1}}, {"map", map[string]int{}}, {"nil map", nilMap},
		{"func", func() {}}, {"nil func", nilFunc}, {"slice", []int{1}}, {"array", [1]int{1}}, {"chan", make(chan int)}, {"error", io.EOF}, {"reflect.Value", reflect.ValueOf(&x)}, {"bool", true},
	}
	for _, b := range bad {
		for _, n := range []string{"", "FuncA", "VarInt", "Missing", "varInt"} {
			for _, static := range []bool{false, true} {
				r.Case(fmt.Sprintf("lookupbad/%s/%q/static=%v", b.name, n, static), func(c *Ctx) {
					p := &hotswap.Plugin{Name: "p", P: plugin.VerifNew(map[string]any{"FuncA": func() {}, "VarInt": &x}, "p")}
					if static {
						p = staticPluginFor(c)
					}
					err := try(c, p, n, b.out)
					if err == nil {
						c.violate([]string{"C16"}, fmt.Sprintf("Lookup(%q, %s) succeeds", n, b.name))
					}
					if err == hotswap.ErrNotExist && b.name != "error" {
						c.violate([]string{"C16"}, fmt.Sprintf("Lookup(%q, %s) returns ErrNotExist although the arguments are invalid", n, b.name))
					}
				})
			}
		}
	}
	for _, n := range []string{"", "Missing", "varInt", "VARINT", "VarInt ", "Func", "FuncAA", "p.VarInt", "日本", "VarInt\x00", "VarInt"} {
		for oi, ot := range outs {
			for _, static := range []bool{false, true} {
				r.Case(fmt.Sprintf("lookupmissing/%q/%v/static=%v", n, ot, static), func(c *Ctx) {
					p := &hotswap.Plugin{Name: "p", P: plugin.VerifNew(map[string]any{"FuncA": func() {}, "VarInt": &x}, "p")}
					if static {
						p = staticPluginFor(c)
					} else if n == "VarInt" {
						return
					}
					out := reflect.New(outs[oi])
					out.Elem().Set(fillOut(ot))
					before := reflect.New(ot).Elem()
					before.Set(out.Elem())
					err := try(c, p, n, out.Interface())
					if n == "" {
						if err == nil || err == hotswap.ErrNotExist {
							c.violate([]string{"C16"}, fmt.Sprintf("Lookup with an empty name returns %v", err))
						}
					} else if err != hotswap.ErrNotExist {
						c.violate([]string{"C16"}, fmt.Sprintf("Lookup of the missing %q returns %v instead of ErrNotExist", n, err))
					}
					if !same(out.Elem(), before) {
						c.violate([]string{"C16"}, fmt.Sprintf("the failed Lookup of %q changed *out", n))
					}
				})
			}
		}
	}
}

// staticPluginFor loads a statically linked plugin: it has no symbol table at all.
func staticPluginFor(c *Ctx) *hotswap.Plugin {
	var p *hotswap.Plugin
	Seq(c, []string{"C23"}, func(w *World) {
		w.NewSwapper(Opts{Static: map[string]*hotswap.StaticPlugin{"s": w.StaticPlugin("s", &Spec{UID: "s"})}})
		w.Do("Load", 0, CB{}, CB{}, "C15")
		if pm := w.SW.Current(); pm != nil {
			p = pm.FindPlugin("s")
		}
	})
	if p == nil {
		p = &hotswap.Plugin{Name: "s"}
	}
	return p
}

// lookupSeqs: a lookup depends on nothing but its plugin, its arguments and the variable's present
// value. Every sequence of up to three lookups in three plugins that share their symbols' names
// (one of them another version of the first, one statically linked), with changes of the variables
// in between.
func lookupSeqs(r *Runner, try func(c *Ctx, p *hotswap.Plugin, name string, out any) error) {
	type op struct {
		pl, kind int
	}
	kinds := []string{"func", "func into any", "wrong func", "var", "var address", "var into any", "wrong var", "missing", "own symbol", "new symbol", "change"}
	var ops []op
	for pl := 0; pl < 4; pl++ {
		for k := range kinds {
			if pl == 3 && kinds[k] == "change" {
				continue
			}
			ops = append(ops, op{pl, k})
		}
	}
	depth := 3
	if r.Thorough() {
		depth = 4
	}
	r.Bound("sequences", "all of %d lookups out of %d (4 plugins with the same symbols, the last one without a symbol table, x 10 lookups, and changes of the variables), followed by all lookups", depth, len(ops))
	run := func(c *Ctx, seq []op) {
		vals := []int{10, 20, 30}
		own := []string{"x", "y", "z"}
		var ps []*hotswap.Plugin
		for i := range vals {
			i := i
			syms := map[string]any{"F": func() int { return i }, "V": &vals[i], "Own" + []string{"P", "Q", "P"}[i]: &own[i]}
			if i == 2 {
				syms["New"] = &own[i]
			}
			name := []string{"p", "q", "p"}[i]
			ps = append(ps, &hotswap.Plugin{Name: name, File: "/plugins/" + name + ".so", P: plugin.VerifNew(syms, "p")})
		}
		ps = append(ps, &hotswap.Plugin{Name: "p"})
		c.r.Transition()
		do := func(o op, where string) {
			p := ps[o.pl]
			bad := func(format string, args ...any) {
				c.violate([]string{"C16"}, fmt.Sprintf("%s: lookup (%s) in plugin %d: ", where, kinds[o.kind], o.pl)+fmt.Sprintf(format, args...))
			}
			ok := func(err error, right func() bool) {
				switch {
				case o.pl == 3 && err != hotswap.ErrNotExist:
					bad("%v instead of ErrNotExist", err)
				case o.pl != 3 && err != nil:
					bad("fails: %v", err)
				case o.pl != 3 && !right():
					bad("assigns something else")
				}
			}
			no := func(err error, unchanged, missing bool) {
				if err == nil || (err == hotswap.ErrNotExist) != (missing || o.pl == 3) {
					bad("returns %v", err)
				}
				if !unchanged {
					bad("changes *out")
				}
			}
			switch kinds[o.kind] {
			case "func":
				var f func() int
				err := try(c, p, "F", &f)
				ok(err, func() bool { return f != nil && f() == o.pl })
			case "func into any":
				var f any
				err := try(c, p, "F", &f)
				ok(err, func() bool { g, is := f.(func() int); return is && g() == o.pl })
			case "wrong func":
				var f func() string
				no(try(c, p, "F", &f), f == nil, false)
			case "var":
				v := -1
				err := try(c, p, "V", &v)
				ok(err, func() bool { return v == vals[o.pl] })
			case "var address":
				var v *int
				err := try(c, p, "V", &v)
				ok(err, func() bool { return v == &vals[o.pl] })
			case "var into any":
				var v any
				err := try(c, p, "V", &v)
				ok(err, func() bool { return v == any(&vals[o.pl]) })
			case "wrong var":
				v := "sentinel"
				no(try(c, p, "V", &v), v == "sentinel", false)
			case "missing":
				v := 5
				no(try(c, p, "None", &v), v == 5, true)
			case "own symbol":
				v := "sentinel"
				err := try(c, p, "OwnP", &v)
				if o.pl == 1 {
					no(err, v == "sentinel", true)
				} else {
					ok(err, func() bool { return v == own[o.pl] })
				}
			case "new symbol":
				v := "sentinel"
				err := try(c, p, "New", &v)
				if o.pl < 2 {
					no(err, v == "sentinel", true)
				} else {
					ok(err, func() bool { return v == own[o.pl] })
				}
			case "change":
				vals[o.pl]++
				own[o.pl] += "!"
			}
		}
		for i, o := range seq {
			do(o, fmt.Sprintf("step %d of %v", i, seq))
		}
		for _, o := range ops {
			if kinds[o.kind] != "change" {
				do(o, fmt.Sprintf("after %v", seq))
			}
		}
	}
	var seq []op
	var rec func(c *Ctx)
	rec = func(c *Ctx) {
		if len(seq) == depth {
			run(c, seq)
			return
		}
		for _, o := range ops {
			seq = append(seq, o)
			rec(c)
			seq = seq[:len(seq)-1]
		}
	}
	for _, o := range ops {
		o := o
		r.Case(fmt.Sprintf("lookupseq/%d/%s", o.pl, kinds[o.kind]), func(c *Ctx) {
			seq = []op{o}
			rec(c)
		})
	}
}
