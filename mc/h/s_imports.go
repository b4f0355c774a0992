package h

import (
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	"github.com/edwingeng/hotswap"
	"verif.local/mc/rt"
)

func init() {
	register(&Suite{Name: "imports", Props: []string{"C06"}, Mode: rt.Seq,
		CrashTags: []string{"C06", "C12"}, HangTags: []string{"C23"}, Run: runImports})
}

// The plugins an importer can depend on, and what each exports.
type expVal struct{ A, B int }
type namedFunc func(int) int
type namedInt int
type expIface interface{ WhoAmI() *Instance }
type wideIface interface {
	WhoAmI() *Instance
	Other()
}

type provider struct {
	name string
	val  func(in *Instance) any // nil: exports nil
}

var theFunc = func(x int) int { return x + 1 }
var theMap = map[string]int{"x": 1}
var theChan = make(chan int, 3)
var theInt = 7

var providers = []provider{
	{"beta", func(in *Instance) any { return &Exp{in} }},
	{"Gamma", nil},
	{"delta", func(in *Instance) any { return (*Exp)(nil) }},
	{"eps", func(in *Instance) any { return expVal{1, 2} }},
	{"zeta", func(in *Instance) any { return theFunc }},
	{"eta", func(in *Instance) any { return theMap }},
	{"theta", func(in *Instance) any { return theChan }},
	{"iota", func(in *Instance) any { return "text" }},
	{"kappa", func(in *Instance) any { return namedInt(5) }},
	{"ñu", func(in *Instance) any { return &Exp{in} }},
	{"ωmega", func(in *Instance) any { return &Exp{in} }},
	{"lambda_x", func(in *Instance) any { return &theInt }},
	{"mu9", func(in *Instance) any { return [2]int{3, 4} }},
	{"nilmap", func(in *Instance) any { return map[string]int(nil) }},
	{"nilfunc", func(in *Instance) any { return namedFunc(nil) }},
	{"nilslice", func(in *Instance) any { return []int(nil) }},
	{"nilchan", func(in *Instance) any { return (chan int)(nil) }},
	{"zerostruct", func(in *Instance) any { return expVal{} }},
}

func providerOf(key string) *provider {
	for i := range providers {
		if strings.ToLower(providers[i].name) == key {
			return &providers[i]
		}
	}
	return nil
}

const (
	wantFail  = iota // the load fails
	wantSet          // the field holds the export
	wantUnset        // the dependency exports nil: the field stays as it is
	wantKeep         // the field is not an import
)

type fieldKind struct {
	f    reflect.StructField
	want int
	dep  string // key of the provider
	cyc  bool
}

const modPkg = "verif.local/mc/h"

func typeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

func fld(name string, t reflect.Type, tag string) reflect.StructField {
	return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(tag)}
}

func unexp(name string, t reflect.Type, tag string) reflect.StructField {
	return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(tag), PkgPath: modPkg}
}

type Embedded struct{ Z int }

func fieldKinds() []fieldKind {
	exp := typeOf[*Exp]()
	dash := `hotswap:"-"`
	k := []fieldKind{
		{f: fld("Beta", exp, ""), want: wantSet, dep: "beta"},
		{f: fld("BETA", typeOf[Who](), ""), want: wantSet, dep: "beta"},
		{f: fld("BeTa", typeOf[any](), `json:"-"`), want: wantSet, dep: "beta"},
		{f: fld("BEta", typeOf[expIface](), `hotswap:"x"`), want: wantSet, dep: "beta"},
		{f: fld("BetA", typeOf[wideIface](), ""), want: wantFail, dep: "beta"},
		{f: fld("BeTA", typeOf[Exp](), ""), want: wantFail, dep: "beta"},
		{f: fld("BETa", typeOf[**Exp](), ""), want: wantFail, dep: "beta"},
		{f: fld("Gamma", exp, ""), want: wantUnset, dep: "gamma"},
		{f: fld("GAMMA", typeOf[string](), ""), want: wantUnset, dep: "gamma"},
		{f: fld("Delta", exp, ""), want: wantUnset, dep: "delta"},
		{f: fld("DELTA", typeOf[Who](), ""), want: wantUnset, dep: "delta"},
		{f: fld("DelTa", typeOf[any](), ""), want: wantUnset, dep: "delta"},
		{f: fld("DelTA", typeOf[string](), ""), want: wantUnset, dep: "delta"},
		{f: fld("NilMap", typeOf[any](), ""), want: wantUnset, dep: "nilmap"},
		{f: fld("NilFunc", typeOf[any](), ""), want: wantUnset, dep: "nilfunc"},
		{f: fld("NilSlice", typeOf[any](), ""), want: wantUnset, dep: "nilslice"},
		{f: fld("NilChan", typeOf[int](), ""), want: wantUnset, dep: "nilchan"},
		{f: fld("ZeroStruct", typeOf[any](), ""), want: wantSet, dep: "zerostruct"},
		{f: fld("ZEROSTRUCT", typeOf[int](), ""), want: wantFail, dep: "zerostruct"},
		{f: fld("Eps", typeOf[expVal](), ""), want: wantSet, dep: "eps"},
		{f: fld("EPS", typeOf[*expVal](), ""), want: wantFail, dep: "eps"},
		{f: fld("EpS", typeOf[struct{ A, B int }](), ""), want: wantSet, dep: "eps"},
		{f: fld("Zeta", typeOf[func(int) int](), ""), want: wantSet, dep: "zeta"},
		{f: fld("ZETA", typeOf[namedFunc](), ""), want: wantSet, dep: "zeta"},
		{f: fld("ZeTa", typeOf[func(int) string](), ""), want: wantFail, dep: "zeta"},
		{f: fld("Eta", typeOf[map[string]int](), ""), want: wantSet, dep: "eta"},
		{f: fld("Theta", typeOf[chan int](), ""), want: wantSet, dep: "theta"},
		{f: fld("THETA", typeOf[<-chan int](), ""), want: wantSet, dep: "theta"},
		{f: fld("Iota", typeOf[string](), ""), want: wantSet, dep: "iota"},
		{f: fld("Kappa", typeOf[namedInt](), ""), want: wantSet, dep: "kappa"},
		{f: fld("KAPPA", typeOf[int](), ""), want: wantFail, dep: "kappa"},
		{f: fld("Ñu", exp, ""), want: wantSet, dep: "ñu"},
		{f: unexp("ñu", exp, ""), want: wantKeep},
		{f: fld("Ωmega", typeOf[Who](), ""), want: wantSet, dep: "ωmega"},
		{f: unexp("ωx", typeOf[int](), ""), want: wantKeep},
		{f: fld("Lambda_x", typeOf[*int](), ""), want: wantSet, dep: "lambda_x"},
		{f: fld("Mu9", typeOf[[2]int](), ""), want: wantSet, dep: "mu9"},
		{f: fld("Unknown", exp, ""), want: wantFail},
		{f: fld("Beta1", exp, ""), want: wantFail},
		{f: fld("Ḁbc", exp, ""), want: wantFail},
		{f: fld("IgnoredUnknown", typeOf[int](), dash), want: wantKeep},
		{f: fld("BeTAA", exp, dash), want: wantKeep},
		{f: fld("Bēta", typeOf[string](), dash+` json:"x"`), want: wantKeep},
		{f: unexp("beta", exp, ""), want: wantKeep},
		{f: unexp("other", typeOf[map[string]int](), ""), want: wantKeep},
		{f: unexp("_under", typeOf[int](), ""), want: wantKeep},
		{f: unexp("日本", typeOf[string](), ""), want: wantKeep},
		{f: reflect.StructField{Name: "Embedded", Type: typeOf[Embedded](), Anonymous: true}, want: wantFail},
		{f: reflect.StructField{Name: "Embedded", Type: typeOf[Embedded](), Anonymous: true, Tag: reflect.StructTag(dash)}, want: wantKeep},
		{f: fld("Alpha", typeOf[any](), ""), want: wantFail, dep: "alpha", cyc: true}, // itself
	}
	return k
}

func fieldPtr(v reflect.Value, i int) reflect.Value {
	f := v.Elem().Field(i)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

// sentinel: a recognisable non-zero value of a type.
func sentinel(t reflect.Type) reflect.Value {
	switch t.Kind() {
	case reflect.Int:
		return reflect.ValueOf(-99).Convert(t)
	case reflect.String:
		return reflect.ValueOf("sentinel").Convert(t)
	case reflect.Ptr:
		return reflect.New(t.Elem())
	case reflect.Map:
		m := reflect.MakeMap(t)
		return m
	case reflect.Struct:
		v := reflect.New(t).Elem()
		if t.NumField() > 0 && t.Field(0).Type.Kind() == reflect.Int && t.Field(0).PkgPath == "" {
			v.Field(0).SetInt(-99)
		}
		return v
	}
	return reflect.Zero(t)
}

func same(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Func:
		return a.IsNil() == b.IsNil() && (a.IsNil() || a.Pointer() == b.Pointer())
	case reflect.Map, reflect.Chan, reflect.Ptr:
		return a.Pointer() == b.Pointer()
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// importCase: plugin alpha returns an object with the given fields; the providers are loaded in
// the same attempt, or kept from an earlier one; static runs do the same statically.
func importCase(c *Ctx, ks []fieldKind, mode int) {
	Seq(c, []string{"C23"}, func(w *World) {
		var fs []reflect.StructField
		fail := false
		for _, k := range ks {
			fs = append(fs, k.f)
			if k.want == wantFail {
				fail = true
			}
		}
		t := reflect.StructOf(fs)
		obj := reflect.New(t)
		for i, k := range ks {
			if k.want == wantKeep {
				fieldPtr(obj, i).Set(sentinel(k.f.Type))
			}
		}
		before := reflect.New(t)
		before.Elem().Set(obj.Elem())
		check := func(in *Instance, when string) {
			for i, k := range ks {
				got := fieldPtr(obj, i)
				switch k.want {
				case wantSet:
					var want reflect.Value
					for _, x := range w.Insts {
						if strings.ToLower(x.Name) == k.dep && x.exp != nil {
							want = reflect.ValueOf(x.exp)
						}
					}
					if !want.IsValid() {
						continue
					}
					x := reflect.New(k.f.Type).Elem()
					x.Set(want)
					if !same(got, x) {
						w.Violate([]string{"C06"}, "%s: the field %s does not hold the export of %s", when, k.f.Name, k.dep)
					}
				case wantUnset, wantKeep:
					if !same(got, fieldPtr(before, i)) {
						w.Violate([]string{"C06"}, "%s: the field %s (%q) was changed", when, k.f.Name, k.f.Tag)
					}
				}
			}
		}
		mkProv := func(ver int) map[string]*Spec {
			m := map[string]*Spec{}
			for _, p := range providers {
				p := p
				sp := &Spec{UID: fmt.Sprintf("%s%d", p.name, ver), ExportKind: 1}
				if p.val != nil {
					sp.ExportKind = 0
					sp.ExportVal = p.val
				}
				m[p.name] = sp
			}
			return m
		}
		alpha := &Spec{UID: "alpha1", ImportFails: fail, ImportVal: func(in *Instance) any { return obj.Interface() }}
		alpha.OnLoadHook = func(in *Instance, data any) {
			if !fail {
				check(in, "when OnLoad was called")
			}
		}
		switch mode {
		case 0: // first load
			w.NewSwapper(Opts{})
			for n, sp := range mkProv(1) {
				w.Put(n, sp)
			}
			w.Put("alpha", alpha)
			a := w.Do("Load", 0, CB{}, CB{}, "C06")
			if a.Err == nil && !fail {
				check(nil, "after the load")
			}
		case 1: // the providers are kept
			w.NewSwapper(Opts{})
			for n, sp := range mkProv(1) {
				w.Put(n, sp)
			}
			w.Do("Load", 0, CB{}, CB{}, "C06")
			w.Put("alpha", alpha)
			a := w.Do("Reload", 0, CB{}, CB{}, "C06")
			if a.Err == nil && !fail {
				check(nil, "after the reload")
			}
		case 2: // static
			st := map[string]*hotswap.StaticPlugin{}
			for n, sp := range mkProv(1) {
				st[n] = w.StaticPlugin(n, sp)
			}
			st["alpha"] = w.StaticPlugin("alpha", alpha)
			w.NewSwapper(Opts{Static: st})
			a := w.Do("Load", 0, CB{}, CB{}, "C06", "C15")
			if a.Err == nil && !fail {
				check(nil, "after the static load")
			}
		}
	})
}

func runImports(r *Runner) {
	ks := fieldKinds()
	depth := 2
	if r.Thorough() {
		depth = 3
	}
	r.Bound("import objects", "every sequence of 1..%d fields out of %d field kinds (types, tags, letter case, embedding, unexported, non-ASCII, unassignable, unknown, nil exports)", depth, len(ks))
	r.Bound("modes", "first load, providers kept by a reload, static linking")
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) > 0 {
			var sel []fieldKind
			names := map[string]bool{}
			var id []string
			for _, i := range cur {
				if names[ks[i].f.Name] {
					return
				}
				names[ks[i].f.Name] = true
				sel = append(sel, ks[i])
				s := fmt.Sprintf("%s:%v", ks[i].f.Name, ks[i].f.Type)
				if ks[i].f.Tag != "" {
					s += ":" + string(ks[i].f.Tag)
				}
				id = append(id, s)
			}
			// reflect.StructOf supports an embedded field only in the first place
			for j, k := range sel {
				if k.f.Anonymous && j > 0 {
					return
				}
			}
			for mode := 0; mode < 3; mode++ {
				r.Case(fmt.Sprintf("imports/%s/mode%d", strings.Join(id, ","), mode), func(c *Ctx) { importCase(c, sel, mode) })
			}
		}
		if len(cur) == depth {
			return
		}
		for i := range ks {
			rec(append(append([]int(nil), cur...), i))
		}
	}
	rec(nil)
	// what Import returns
	type S struct {
		Beta *Exp
	}
	x := 5
	ps := &S{}
	var typedNil *S
	var who Who
	rets := []struct {
		name string
		v    any
		fail bool
	}{
		{"nil", nil, false}, {"typed nil", typedNil, false}, {"struct", S{}, true}, {"*int", &x, true}, {"**struct", &ps, true},
		{"map", map[string]*Exp{"Beta": nil}, true}, {"string", "x", true}, {"int", 1, true}, {"func", func() {}, true}, {"slice", []*S{ps}, true},
		{"array pointer", &[2]*S{}, true}, {"chan", make(chan int), true}, {"empty struct", &struct{}{}, false}, {"interface pointer", &who, true},
		{"*struct", &S{}, false}, {"bool", false, true}, {"reflect.Value", reflect.ValueOf(ps), true},
	}
	for _, x := range rets {
		for mode := 0; mode < 3; mode++ {
			r.Case(fmt.Sprintf("importret/%s/mode%d", x.name, mode), func(c *Ctx) {
				Seq(c, []string{"C23"}, func(w *World) {
					beta := &Spec{UID: "beta1"}
					alpha := &Spec{UID: "alpha1", ImportFails: x.fail, ImportVal: func(in *Instance) any { return x.v }}
					kind := "Load"
					if mode == 2 {
						w.NewSwapper(Opts{Static: map[string]*hotswap.StaticPlugin{"alpha": w.StaticPlugin("alpha", alpha), "beta": w.StaticPlugin("beta", beta)}})
					} else {
						w.NewSwapper(Opts{})
						w.Put("beta", beta)
						if mode == 1 {
							w.Do("Load", 0, CB{}, CB{}, "C06")
							kind = "Reload"
						}
						w.Put("alpha", alpha)
					}
					a := w.Do(kind, 0, CB{}, CB{}, "C06")
					if s, ok := x.v.(*S); ok && s != nil && a.Err == nil {
						if s.Beta == nil || s.Beta.Inst.Spec != beta {
							w.Violate([]string{"C06"}, "the field Beta does not hold the export of beta")
						}
						s.Beta = nil
					}
				})
			})
		}
	}
}
