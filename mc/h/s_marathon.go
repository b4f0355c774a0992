package h

import (
	"fmt"
	"strings"
	"time"

	"verif.local/mc/rt"
)

// The marathon suite: a process that lives long. Every word of up to three operations is repeated
// many times over, so that whatever is kept per reload, per failure or per pending free piles up.

func init() {
	register(&Suite{Name: "marathon", Props: []string{"C01", "C03", "C08", "C14"}, Mode: rt.Seq,
		CrashTags: []string{"C12"}, HangTags: []string{"C23", "C12"}, Run: runMarathon})
}

var mOps = []string{"a", "ab", "same", "fail", "keepA", "panicfree", "dropB", "half", "whole"}

func runMarathon(r *Runner) {
	steps, depth := 45, 3
	if r.Thorough() {
		steps = 300
	}
	var words [][]int
	var rec func(w []int)
	rec = func(w []int) {
		if len(w) > 0 {
			words = append(words, append([]int(nil), w...))
		}
		if len(w) == depth {
			return
		}
		for i := range mOps {
			rec(append(w, i))
		}
	}
	rec(nil)
	r.Bound("words", fmt.Sprintf("every word of 1-%d of %v, repeated to %d steps; words that are repetitions of shorter ones left out", depth, mOps, steps))
	for _, wd := range words {
		var a []string
		same, act := true, false
		for _, x := range wd {
			a = append(a, mOps[x])
			same = same && x == wd[0]
			act = act || x < 7
		}
		if !act || len(wd) > 1 && same {
			continue
		}
		wd := wd
		r.Case("marathon/"+strings.Join(a, "."), func(c *Ctx) {
			Seq(c, []string{"C23"}, func(w *World) { marathon(w, wd, steps) })
		})
	}
}

func marathon(w *World, wd []int, steps int) {
	delay := 20 * time.Second
	w.NewSwapper(Opts{Delay: delay, CB1: true})
	ver := 0
	nr := false
	mk := func(i int) *Spec {
		ver++
		sp := &Spec{UID: fmt.Sprintf("%s%d", pname(i), ver), Funcs: []string{"live_f_" + pname(i)}}
		if i == 1 {
			sp.Deps = []Dep{{Field: fname(0)}}
		}
		return sp
	}
	w.Put("a", mk(0))
	w.Put("b", mk(1))
	w.Do("Load", "m", CB{}, CB{})
	hasB := true
	dirtyA, dirtyB := false, false
	for k := 0; k < steps; k++ {
		if w.M.Cur == nil {
			return
		}
		putB := func(f map[string]int) {
			sp := mk(1)
			sp.Faults = f
			w.Put("b", sp)
			hasB, dirtyB = true, false
		}
		putA := func(f map[string]int) {
			sp := mk(0)
			sp.Faults = f
			sp.NonReloadable = nr
			w.Put("a", sp)
			dirtyA = false
		}
		switch mOps[wd[k%len(wd)]] {
		case "a": // a and, as it depends on it, b
			putA(nil)
			if hasB {
				putB(nil)
			}
			w.Do("Reload", "m", CB{}, CB{})
		case "ab":
			putB(nil)
			if dirtyA {
				putA(nil)
			}
			w.Do("ReloadCB", "m", CB{}, CB{Present: true})
		case "same":
			if dirtyA {
				putA(nil)
			}
			if dirtyB && hasB {
				putB(nil)
			}
			w.Do("Reload", "m", CB{}, CB{})
		case "fail":
			putA(map[string]int{"OnInit": FErr})
			dirtyA = true
			if hasB {
				putB(nil)
				dirtyB = true
			}
			w.Do("Reload", "m", CB{}, CB{})
		case "keepA":
			nr = !nr
			putA(nil)
			putB(nil)
			w.Do("Reload", "m", CB{}, CB{})
		case "panicfree":
			putA(map[string]int{"OnFree": FPanicStr})
			putB(map[string]int{"OnFree": FPanicErr})
			w.Do("Reload", "m", CB{}, CB{})
		case "dropB":
			if hasB {
				w.Del("b")
				hasB = false
			}
			if dirtyA {
				putA(nil)
			}
			w.Do("Reload", "m", CB{}, CB{})
		case "half":
			w.Pause(delay/2, "half")
		case "whole":
			w.Pause(delay+time.Second, "whole")
		}
	}
	w.Retire("end")
}
