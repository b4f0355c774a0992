package h

import (
	"crypto/sha1"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/edwingeng/hotswap"
	"verif.local/mc/rt"
)

func init() {
	register(&Suite{Name: "big", Props: []string{"C08"}, Mode: rt.Seq, CrashTags: []string{"C17", "C12"}, HangTags: []string{"C23"}, Run: runBig})
	register(&Suite{Name: "snap", Props: []string{"C17", "C08"}, Mode: rt.Seq, CrashTags: []string{"C12", "C17"}, HangTags: []string{"C23"}, Run: runSnap})
	register(&Suite{Name: "opfault", Props: []string{"C01", "C04"}, Mode: rt.Seq, CrashTags: []string{"C12", "C01"}, HangTags: []string{"C12", "C23"}, Run: runOpFault})
}

// what another process may do to a plugin file at any time
var writerActs = []string{"overwrite", "replace", "truncate", "delete", "garbage", "append"}

func (w *World) writerAct(act, name, uid string) {
	f := filepath.Join(w.Dir, name+".so")
	switch act {
	case "overwrite": // in place, same inode
		w.AddSpec(&Spec{UID: uid, Name: name})
		w.PutRaw(name+".so", w.content(uid))
	case "replace":
		w.AddSpec(&Spec{UID: uid, Name: name})
		if err := os.WriteFile(f+".new", w.content(uid), 0644); err != nil {
			panic(err)
		}
		if err := os.Rename(f+".new", f); err != nil {
			panic(err)
		}
	case "truncate":
		_ = os.Truncate(f, 0)
	case "delete":
		_ = os.Remove(f)
	case "garbage":
		w.PutRaw(name+".so", []byte("garbage"))
	case "append":
		h, err := os.OpenFile(f, os.O_APPEND|os.O_WRONLY, 0)
		if err == nil {
			_, _ = h.WriteString("more")
			_ = h.Close()
		}
	}
}

// adopt takes over whatever manager is current now as the model's.
func (w *World) adopt() {
	pm := w.SW.Current()
	if pm == nil || w.M.Cur != nil && w.M.Cur.PM == pm {
		return
	}
	mm := &MMgr{N: len(w.M.All) + 1, PM: pm, Plugs: map[string]*MPlug{}}
	for _, p := range pm.Plugins() {
		k := strings.ToLower(p.Name)
		mm.Plugs[k] = &MPlug{Key: k, Name: p.Name, Inst: InstOf(p)}
	}
	if w.M.Cur != nil {
		w.M.Cur.Retired = true
		w.M.Cur.RetiredAt = w.now()
	}
	mm.snap = w.snapshot(pm)
	w.M.All = append(w.M.All, mm)
	w.M.Cur = mm
}

func (w *World) identity(label string) {
	pm := w.SW.Current()
	if pm == nil {
		return
	}
	for _, p := range pm.Plugins() {
		in := InstOf(p)
		if in == nil {
			continue
		}
		if p.FileSha1 != sha1.Sum(w.content(in.Spec.UID)) {
			w.Violate([]string{"C17"}, "%s: %s runs %s but its recorded checksum is not that of this content", label, p.Name, in)
		}
		if filepath.Dir(in.Path) == filepath.Clean(w.Dir) {
			w.Violate([]string{"C17"}, "%s: %s was opened in the plugin directory itself, not from a private copy", label, p.Name)
		}
		var a, b syscall.Stat_t
		if syscall.Stat(in.Path, &a) == nil && syscall.Stat(filepath.Join(w.Dir, in.Name+".so"), &b) == nil && a.Ino == b.Ino {
			w.Violate([]string{"C17"}, "%s: the opened file of %s is the plugin directory's file under another name", label, p.Name)
		}
	}
}

func runSnap(r *Runner) {
	maxActs := 1
	if r.Thorough() {
		maxActs = 2
	}
	r.Bound("writer", "up to %d actions out of %v on either of two plugin files, before every file operation, plugin open and plugin function of the attempt", maxActs, writerActs)
	r.Bound("attempts", "first load; reload with everything rebuilt; reload with one plugin kept; followed by an undisturbed reload and a reload of fresh files")
	for mode := 0; mode < 4; mode++ {
		id := fmt.Sprintf("snap/mode%d", mode)
		r.CaseDFS(id, 1, func(c *Ctx) {
			Seq(c, []string{"C23"}, func(w *World) {
				w.NewSwapper(Opts{})
				names := []string{"a", "b"}
				put := func(i, ver int) {
					w.Put(names[i], &Spec{UID: fmt.Sprintf("%s%d", names[i], ver)})
				}
				put(0, 1)
				put(1, 1)
				kind := "Load"
				if mode > 0 {
					w.Do("Load", 0, CB{}, CB{}, "C17")
					w.identity("setup")
					kind = "Reload"
					put(0, 2)
					if mode == 2 {
						put(1, 2)
					}
					if mode == 3 { // an earlier reload in the same second
						w.Do("Reload", 0, CB{}, CB{}, "C17")
						put(0, 3)
					}
				}
				acts := 0
				armed := true
				valid := true
				var did []string
				point := func(what string) {
					if !armed || acts >= maxActs {
						return
					}
					k := c.Choose(1+2*len(writerActs), what)
					if k == 0 {
						return
					}
					acts++
					k--
					act, name := writerActs[k%len(writerActs)], names[k/len(writerActs)]
					did = append(did, fmt.Sprintf("%s %s.so before %s", act, name, what))
					c.Desc("%s %s.so before %s", act, name, what)
					if act != "overwrite" && act != "replace" {
						valid = false
					}
					w.writerAct(act, name, fmt.Sprintf("%s-w%d", name, acts))
				}
				rt.OpHook = func(name string, args ...any) error { point(name); return nil }
				w.OpenHook = func(path string) { point("Open") }
				w.EnterHook = func(ph string, in *Instance) {
					if ph != "OnFree" && ph != "Invoke" {
						point(ph)
					}
				}
				a := w.begin(kind, "x", CB{}, CB{})
				a.unexpFail = []string{"C17"}
				point("the call")
				w.run(a)
				armed = false
				rt.OpHook = nil
				c.r.Transition()
				c.r.State(fmt.Sprint(mode, did))
				label := fmt.Sprintf("attempt with %v", did)
				if a.Panicked != nil {
					w.Violate([]string{"C12", "C17"}, "%s: panics: %v", label, a.Panicked)
				}
				w.checkOpened()
				if a.Err != nil {
					if valid {
						w.Violate([]string{"C17"}, "%s fails although the files were valid at all times: %v", label, firstLine(a.Err))
					}
					a.Exp = &Expect{Kept: map[string]string{}, New: map[string]string{}, NewUID: map[string]string{}}
					w.judgeFailure(a, label)
				} else {
					w.adopt()
					w.identity(label)
				}
				// an undisturbed reload compares with what was really loaded
				w.Do("Reload", 1, CB{}, CB{}, "C17", "C08")
				w.identity(label + ", then a reload")
				w.writerAct("truncate", "a", "")
				w.writerAct("delete", "b", "")
				w.identity(label + ", files destroyed")
				w.checkOpened()
				put(0, 8)
				put(1, 8)
				w.Do("Reload", 2, CB{}, CB{}, "C17", "C08", "C01")
				w.identity(label + ", then fresh files")
				w.Retire("end")
			})
			rt.OpHook = nil
		})
	}
	// quick successions: every reload in the same second, versions coming and going
	for m := 0; m < 5*5*5*5; m++ {
		r.Case(fmt.Sprintf("succession/%d", m), func(c *Ctx) {
			Seq(c, []string{"C23"}, func(w *World) {
				w.NewSwapper(Opts{Delay: minDelay})
				w.Put("a", &Spec{UID: "a0"})
				w.Put("A2", &Spec{UID: "A20"})
				w.Do("Load", 0, CB{}, CB{}, "C17")
				y := m
				for i := 1; i <= 4; i++ {
					switch y % 5 {
					case 0:
						w.Put("a", &Spec{UID: fmt.Sprintf("a%d", i)})
					case 1:
						w.Put("A2", &Spec{UID: fmt.Sprintf("A2%d", i)})
					case 2:
						w.Put("a", &Spec{UID: fmt.Sprintf("a%d", i)})
						w.Put("A2", &Spec{UID: fmt.Sprintf("A2%d", i), Faults: map[string]int{"Export": FPanicStr}})
						w.Do("Reload", 0, CB{}, CB{}, "C17")
						w.Put("a", &Spec{UID: fmt.Sprintf("ax%d", i)})
						w.Put("A2", &Spec{UID: fmt.Sprintf("A2x%d", i)})
					case 3: // nothing new
					case 4:
						w.Pause(minDelay/2, "pause")
						w.Put("a", &Spec{UID: fmt.Sprintf("a%d", i), NonReloadable: i == 3})
					}
					y /= 5
					w.Do("Reload", 0, CB{}, CB{}, "C17", "C08")
					w.identity("succession")
				}
				w.Retire("end")
			})
		})
	}
}

// runBig: versions that differ in a few bytes at one place of a small or big file, or in length only.
func runBig(r *Runner) {
	sizes := []int{0, 1, 511, 4096, 65536, 1 << 20, 9 << 20}
	r.Bound("contents", "two versions of equal length that differ in one byte behind %v bytes and before %v bytes; every change of length between the sizes", sizes, sizes)
	for _, pre := range sizes {
		for _, post := range sizes {
			if (pre == 9<<20) != (post == 9<<20) && pre*post != 0 {
				continue
			}
			for _, grow := range []int{0, 1} {
				for _, nr := range []bool{false, true} {
					if nr && grow == 1 {
						continue
					}
					r.Case(fmt.Sprintf("big/%d/%d/grow%d/nr=%v", pre, post, grow, nr), func(c *Ctx) {
						Seq(c, []string{"C23"}, func(w *World) {
							w.NewSwapper(Opts{})
							put := func(ver, extra int) {
								w.Put("a", &Spec{UID: fmt.Sprintf("a%d", ver), NonReloadable: nr, Layout: &[2]int{pre, post + extra}})
							}
							tags := []string{"C17", "C08"}
							put(1, 0)
							w.Put("b", &Spec{UID: "b1"})
							w.Do("Load", 0, CB{}, CB{}, tags...)
							w.identity("load")
							put(2, grow)
							w.Do("Reload", 0, CB{}, CB{}, tags...)
							w.identity("changed")
							if !nr {
								w.PutRaw("a.so", w.content("a2"))
							}
							w.Do("Reload", 0, CB{}, CB{}, tags...)
							w.identity("rewritten")
							w.Put("b", &Spec{UID: "b2", Layout: &[2]int{post, pre}})
							w.Do("Reload", 0, CB{}, CB{}, tags...)
							w.identity("other")
							w.Retire("end")
						})
					})
				}
			}
		}
	}
}

// runOpFault: every file operation of an attempt may fail.
func runOpFault(r *Runner) {
	maxF := 2
	if r.Thorough() {
		maxF = 3
	}
	r.Bound("faults", "every set of up to %d failing file operations in one attempt", maxF)
	r.Bound("attempts", "first load, reload with kept, rebuilt, new and removed plugins, three dependency shapes")
	for _, sm := range []uint64{0, 1 << 3, 1<<3 | 1<<7} {
		for mode := 0; mode < 3; mode++ {
			r.CaseDFS(fmt.Sprintf("opfault/shape%d/mode%d", sm, mode), 1, func(c *Ctx) {
				Seq(c, []string{"C12", "C23"}, func(w *World) {
					s := Shape{3, sm}
					w.NewSwapper(Opts{CB1: true})
					w.Put("a", s.spec(0, 1))
					w.Put("b", s.spec(1, 1))
					kind := "Load"
					switch mode {
					case 0:
						w.Put("c", s.spec(2, 1))
					case 1: // reload: a kept, b rebuilt, c new
						w.Do("Load", 0, CB{Present: true}, CB{}, "C01")
						w.Put("b", s.spec(1, 2))
						w.Put("c", s.spec(2, 2))
						kind = "Reload"
					case 2: // reload: c removed, all rebuilt
						w.Put("c", s.spec(2, 1))
						w.Do("Load", 0, CB{Present: true}, CB{}, "C01")
						w.Del("c")
						w.Put("a", s.spec(0, 2))
						w.Put("b", s.spec(1, 2))
						kind = "Reload"
					}
					n := 0
					var did []string
					a := w.begin(kind, "x", CB{Present: true}, CB{})
					a.Exp = w.Predict(kind, a.CB1, CB{}, w.Files(), nil)
					rt.OpHook = func(name string, args ...any) error {
						if n >= maxF || c.Choose(2, name) == 0 {
							return nil
						}
						n++
						did = append(did, name)
						c.Desc("%s fails", name)
						return &os.PathError{Op: name, Path: "injected", Err: syscall.EIO}
					}
					w.run(a)
					rt.OpHook = nil
					if n > 0 {
						a.Exp.Either = true
					}
					if a.Err == nil && a.Exp.OK == false {
						a.Exp.Either = false
					}
					w.judge(a)
					c.r.State(fmt.Sprint(sm, mode, did))
					for i := 0; i < 3; i++ {
						w.Put(pname(i), s.spec(i, 9))
					}
					w.Do("Reload", 2, CB{Present: true}, CB{}, "C01")
					w.Retire("end")
				})
				rt.OpHook = nil
			})
		}
	}
}

var _ = errors.New
var _ hotswap.Details
