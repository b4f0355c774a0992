package h

import (
	"crypto/sha1"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/mc/rt"
)

// The untouched suite: what others keep in and around the plugin directory survives every load and
// reload, successful or not: the plugin files themselves, files and directories that are no plugins,
// and whatever lies in the directory of the private copies without being one of this swapper's,
// including the copies that another process makes at the same moment under the very same names.

func init() {
	register(&Suite{Name: "untouched", Props: []string{"C27"}, Mode: rt.Seq, CrashTags: []string{"C12", "C27"}, HangTags: []string{"C23"}, Run: runUntouched})
}

type fileState struct {
	Mode   os.FileMode
	Size   int64
	Ino    uint64
	Nlink  uint64
	Mtime  int64
	Sha    [20]byte
	Target string
}

func stateOf(path string) (fileState, bool) {
	fi, err := os.Lstat(path)
	if err != nil {
		return fileState{}, false
	}
	st := fi.Sys().(*syscall.Stat_t)
	s := fileState{Mode: fi.Mode(), Ino: st.Ino}
	switch {
	case fi.IsDir(): // entries may come and go
	case fi.Mode()&os.ModeSymlink != 0:
		s.Target, _ = os.Readlink(path)
	default:
		s.Size, s.Nlink, s.Mtime = fi.Size(), uint64(st.Nlink), fi.ModTime().UnixNano()
		b, _ := os.ReadFile(path)
		s.Sha = sha1.Sum(b)
	}
	return s, true
}

func (a fileState) diff(b fileState) string {
	switch {
	case a.Mode.Type() != b.Mode.Type():
		return "became something else"
	case a.Ino != b.Ino:
		return "was replaced"
	case a.Sha != b.Sha || a.Target != b.Target || a.Size != b.Size:
		return "has other contents"
	case a.Mode != b.Mode:
		return fmt.Sprintf("has other permissions (%v, was %v)", b.Mode, a.Mode)
	case a.Mtime != b.Mtime:
		return "was written (its modification time changed)"
	case a.Nlink != b.Nlink:
		return "got another name (link count)"
	}
	return ""
}

// a decoy is something others keep around; dir: the path ends in a slash
type decoys struct {
	top   string
	known map[string]fileState
}

func (d *decoys) add(rel, body string, mode os.FileMode, age time.Duration) {
	p := filepath.Join(d.top, rel)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	if strings.HasSuffix(rel, "/") {
		must(os.MkdirAll(p, 0755))
		must(os.Chmod(p, mode))
	} else {
		must(os.MkdirAll(filepath.Dir(p), 0755))
		if strings.HasPrefix(body, "->") {
			must(os.Symlink(body[2:], p))
			return
		}
		must(os.WriteFile(p, []byte(body), 0644))
		must(os.Chmod(p, mode))
	}
	t := time.Now().Add(-age)
	must(os.Chtimes(p, t, t))
}

// snap takes over everything that is there now.
func (d *decoys) snap() {
	d.known = map[string]fileState{}
	_ = filepath.Walk(d.top, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			d.known[p], _ = stateOf(p)
		}
		return nil
	})
}

func (d *decoys) renew(path string) {
	if s, ok := stateOf(path); ok {
		d.known[path] = s
	} else {
		delete(d.known, path)
	}
}

func (d *decoys) check(w *World, label string) {
	var ks []string
	for p := range d.known {
		ks = append(ks, p)
	}
	sort.Strings(ks)
	for _, p := range ks {
		rel, _ := filepath.Rel(d.top, p)
		s, ok := stateOf(p)
		if !ok {
			w.Violate([]string{"C27"}, "%s: %s, which is not the swapper's, was removed or renamed", label, rel)
			delete(d.known, p)
			continue
		}
		if t := d.known[p].diff(s); t != "" {
			w.Violate([]string{"C27"}, "%s: %s, which is not the swapper's, %s", label, rel, t)
			d.known[p] = s
		}
	}
}

// plantDecoys surrounds the plugin directory (deploy/plugins below top).
func (d *decoys) plant(kind string) {
	P := "deploy/plugins/"
	hour := time.Hour
	now := time.Now()
	stamp := func(age time.Duration) string { return now.Add(-age).Format("060102150405") }
	switch kind {
	case "files":
		for i, f := range []string{"README.md", ".a.so.swp", "a.so~", "a.so.bak", "b.so.new", "c.SO", "a", "so", "b.so.1", "a.json", "tmp.txt", "temp", ".hidden"} {
			d.add(P+f, "keep "+f, []os.FileMode{0644, 0600, 0444, 0755}[i%4], time.Duration(i)*100*hour)
		}
		d.add(P+"link", "->../../deploy/other/a.so", 0, 0)
		d.add(P+"dangling", "->nowhere", 0, 0)
	case "dirs":
		d.add(P+"x.so/inner.so", "keep", 0644, hour)
		d.add(P+"old/a.so", "keep", 0644, 9000*hour)
		d.add(P+".cache/a-0x12345678.so", "keep", 0644, 9000*hour)
		d.add(P+"empty/", "", 0755, 9000*hour)
		d.add(P+"tmpfiles/"+stamp(0)+"-1-1/a-0x12345678.so", "keep", 0644, 0)
		d.add("deploy/other/a.so", "keep", 0644, 0)
		d.add("deploy/tmp/"+stamp(0)+"-1-1/a-0x12345678.so", "keep", 0644, 9000*hour)
		d.add("tmp/a.so", "keep", 0644, 9000*hour)
		d.add("deploy/a.so", "keep", 0644, 0)
	case "tmp":
		d.add(P+"tmp/notes.txt", "keep", 0644, 9000*hour)
		d.add(P+"tmp/a.so", "keep", 0644, 9000*hour)
		d.add(P+"tmp/a-0x12345678.so", "keep", 0644, 0)
		d.add(P+"tmp/mine/a.so", "keep", 0600, 9000*hour)
		d.add(P+"tmp/empty/", "", 0700, 9000*hour)
		d.add(P+"tmp/link", "->../../../deploy/other", 0, 0)
		d.add("deploy/other/a.so", "keep", 0644, 0)
		for _, age := range []time.Duration{0, time.Second, hour, 30 * hour, 9000 * hour, -hour} {
			for _, pid := range []int{1, os.Getpid(), os.Getppid(), 4194303} {
				for _, n := range []int{0, 1, 1 << 40} {
					dir := fmt.Sprintf("%stmp/%s-%d-%d/", P, stamp(age), pid, n)
					d.add(dir+"a-0x12345678.so", "copy of another process", 0644, age)
					d.add(dir, "", 0744, age)
				}
			}
			d.add(P+"tmp/"+stamp(age)+"/a.so", "copy of another process", 0644, age)
			d.add(P+"tmp/"+stamp(age)+"-7-7/", "", 0744, age)
		}
	}
}

var unOps = []string{"ab", "same", "a", "bad", "init", "panic", "cb", "drop", "wait", "dup", "new"}

func (w *World) untouchedDir() *decoys {
	top := w.Dir
	w.Dir = filepath.Join(top, "deploy", "plugins")
	w.moreDirs = append(w.moreDirs, top)
	if err := os.MkdirAll(w.Dir, 0755); err != nil {
		panic(err)
	}
	return &decoys{top: top, known: map[string]fileState{}}
}

func runUntouched(r *Runner) {
	depth := 3
	if r.Thorough() {
		depth = 4
	}
	kinds := []string{"files", "dirs", "tmp"}
	r.Bound("surroundings", "files that are no plugins; directories inside, beside and above; old, fresh and future copies of other processes and other files in tmp (%v); plugin files of every permission", kinds)
	r.Bound("histories", "every word of 1-%d of %v after a first load, and every word of less than that beginning with the first load, all files compared after every call and after the delayed frees", depth, unOps)
	var words [][]int
	var rec func(wd []int)
	rec = func(wd []int) {
		if len(wd) > 0 {
			words = append(words, append([]int(nil), wd...))
		}
		if len(wd) < depth {
			for i := range unOps {
				rec(append(wd[:len(wd):len(wd)], i))
			}
		}
	}
	rec(nil)
	for _, kind := range kinds {
		for _, wd := range words {
			var a []string
			for _, x := range wd {
				a = append(a, unOps[x])
			}
			wd := wd
			r.Case("untouched/"+kind+"/"+strings.Join(a, "."), func(c *Ctx) {
				Seq(c, []string{"C23"}, func(w *World) { untouched(c, w, kind, wd, 0, false) })
			})
			if len(wd) == depth {
				continue
			}
			r.Case("untouched/first/"+kind+"/"+strings.Join(a, "."), func(c *Ctx) {
				Seq(c, []string{"C23"}, func(w *World) { untouched(c, w, kind, wd, 0, true) })
			})
		}
	}
	fd, maxF := 1, 2
	if r.Thorough() {
		fd = 2
	}
	r.Bound("faults", "every set of up to %d failing file operations in the last of 1-%d operations", maxF, fd)
	for _, kind := range kinds {
		for _, wd := range words {
			if len(wd) > fd || unOps[wd[len(wd)-1]] == "wait" {
				continue
			}
			wd := wd
			for _, first := range []bool{false, true} {
				r.CaseDFS(fmt.Sprintf("untouched/fault/%s/%v/%v", kind, wd, first), 1, func(c *Ctx) {
					Seq(c, []string{"C23"}, func(w *World) { untouched(c, w, kind, wd, maxF, first) })
					rt.OpHook = nil
				})
			}
		}
	}
	r.Bound("same names", "another process creates what is about to be created a moment earlier: every set of up to 3 of the paths an attempt uses in tmp, the first load and a reload")
	r.Bound("no directory", "tmp is a regular file, a link to one, or a dangling link: %v as the first load", unOps)
	for _, what := range []string{"file", "link", "dangling"} {
		for _, op := range unOps {
			r.Case("untouched/notmp/"+what+"/"+op, func(c *Ctx) {
				Seq(c, []string{"C23"}, func(w *World) { noTmp(c, w, what, op) })
			})
		}
	}
	for mode := 0; mode < 4; mode++ {
		r.CaseDFS(fmt.Sprintf("untouched/other/%d", mode), 1, func(c *Ctx) {
			Seq(c, []string{"C23"}, func(w *World) { otherProcess(c, w, mode) })
			rt.OpHook = nil
		})
	}
}

func untouched(c *Ctx, w *World, kind string, wd []int, maxF int, first bool) {
	d := w.untouchedDir()
	d.plant(kind)
	d.snap()
	w.NewSwapper(Opts{CB1: true, Delay: minDelay})
	ver := 0
	put := func(i int, f map[string]int) {
		ver++
		n := pname(i)
		sp := &Spec{UID: fmt.Sprintf("%s%d", n, ver), Faults: f}
		if i == 1 {
			sp.Deps = []Dep{{Field: fname(0)}}
		}
		w.Put(n, sp)
		p := filepath.Join(w.Dir, n+".so")
		_ = os.Chmod(p, []os.FileMode{0644, 0444, 0755, 0400, 0666, 0600}[ver%6])
		d.renew(p)
	}
	has := func(n string) bool { _, err := os.Stat(filepath.Join(w.Dir, n+".so")); return err == nil }
	n := 0
	var did []string
	call := "Reload"
	if first {
		call = "Load"
	}
	do := func(last bool, op string, cb CB) {
		if w.M.Cur != nil {
			call = "Reload"
		}
		if last && maxF > 0 {
			a := w.begin(call, "x", cb, CB{})
			a.Exp = w.Predict(call, cb, CB{}, w.Files(), nil)
			rt.OpHook = func(name string, args ...any) error {
				if n >= maxF || c.Choose(2, name) == 0 {
					return nil
				}
				n++
				did = append(did, name)
				c.Desc("%s fails", name)
				return &os.PathError{Op: name, Path: "injected", Err: syscall.EIO}
			}
			w.run(a)
			rt.OpHook = nil
			switch {
			case n > 0 && !a.Exp.OK && a.Err != nil: // whichever of the faults it was
				w.M.failures++
			case n > 0 && a.Exp.OK:
				a.Exp.Either = true
				w.judge(a)
			default:
				w.judge(a)
			}
		} else {
			w.Do(call, "x", cb, CB{})
		}
		c.r.Transition()
		d.check(w, fmt.Sprintf("%s with %s, faults %v", op, kind, did))
	}
	put(0, nil)
	put(1, nil)
	if !first {
		w.Do("Load", "x", CB{Present: true}, CB{})
		d.check(w, "the first load with "+kind)
	}
	for k, x := range wd {
		op, last := unOps[x], k == len(wd)-1
		cb := CB{Present: true}
		switch op {
		case "ab":
			put(0, nil)
			put(1, nil)
			do(last, op, cb)
		case "same":
			do(last, op, cb)
		case "a": // fails if b is kept
			put(0, nil)
			do(last, op, cb)
		case "bad":
			p := filepath.Join(w.Dir, "a.so")
			w.PutRaw("a.so", []byte("this is no plugin"))
			d.renew(p)
			do(last, op, cb)
		case "init":
			put(0, map[string]int{"OnInit": FErr})
			put(1, nil)
			do(last, op, cb)
		case "panic":
			put(1, map[string]int{"Export": FPanicErr})
			do(last, op, cb)
		case "cb":
			put(0, nil)
			put(1, nil)
			cb.Fault = FErr
			do(last, op, cb)
		case "drop":
			if has("b") {
				w.Del("b")
				d.renew(filepath.Join(w.Dir, "b.so"))
			} else {
				put(1, nil)
				put(0, nil)
			}
			do(last, op, cb)
		case "wait":
			w.Pause(w.Delay+time.Second, op)
			d.check(w, "after the delayed frees with "+kind)
		case "dup":
			p := filepath.Join(w.Dir, "A.so")
			ver++
			w.Put("A", &Spec{UID: fmt.Sprintf("A%d", ver)})
			d.renew(p)
			do(last, op, cb)
			_ = os.Remove(p)
			d.renew(p)
		case "new":
			put(2, nil)
			do(last, op, cb)
		}
	}
	c.r.State(fmt.Sprint("untouched", kind, wd, did))
	w.Retire("end")
	d.check(w, "at the end with "+kind)
}

// otherProcess: the names of copies contain the time, the process and a counter, none of which is
// unique among machines, containers or restarts that share the directory.
func otherProcess(c *Ctx, w *World, mode int) {
	d := w.untouchedDir()
	w.NewSwapper(Opts{Delay: minDelay})
	tmp := filepath.Join(w.Dir, "tmp")
	put := func(i, ver int) {
		w.Put(pname(i), &Spec{UID: fmt.Sprintf("%s%d", pname(i), ver)})
		d.renew(filepath.Join(w.Dir, pname(i)+".so"))
	}
	put(0, 1)
	put(1, 1)
	kind := "Load"
	if mode > 0 {
		w.Do("Load", 0, CB{}, CB{})
		kind = "Reload"
		put(0, 2)
		if mode > 1 {
			put(1, 2)
		}
		if mode > 2 {
			put(2, 2)
		}
	}
	theirs := map[string]bool{}
	acts := 0
	a := w.begin(kind, "x", CB{}, CB{})
	a.Exp = w.Predict(kind, CB{}, CB{}, w.Files(), nil)
	old := time.Unix(400000, 0)
	rt.OpHook = func(name string, args ...any) error {
		for _, x := range args {
			p, ok := x.(string)
			if !ok || acts >= 3 || !strings.HasPrefix(p, tmp+"/") {
				continue
			}
			if _, err := os.Lstat(p); err == nil {
				continue
			}
			isDir := strings.Contains(name, "Mkdir")
			if !isDir && !theirs[filepath.Dir(p)] {
				continue // a directory that only this process can know
			}
			if strings.Contains(name, "Temp") {
				continue
			}
			ways := 2
			if isDir {
				ways = 3
			}
			k := c.Choose(ways, name)
			if k == 0 {
				continue
			}
			acts++
			c.Desc("another process creates %s (%d) just before %s", filepath.Base(p), k, name)
			if k == 2 { // a file of that name
				c.Desc("a file")
			} else if isDir {
				if err := os.MkdirAll(p, 0744); err != nil {
					panic(err)
				}
				theirs[p] = true
				p = filepath.Join(p, "their.so")
			}
			if err := os.WriteFile(p, []byte("the other process runs this"), 0644); err != nil {
				panic(err)
			}
			_ = os.Chtimes(p, old, old)
			d.renew(p)
		}
		return nil
	}
	w.run(a)
	rt.OpHook = nil
	a.Exp.Either = acts > 0
	w.judge(a)
	d.check(w, "another process uses the same names")
	c.r.Transition()
	c.r.State(fmt.Sprint("other", mode, acts))
	for i := 0; i < 3; i++ {
		put(i, 9)
	}
	w.Do("Reload", 2, CB{}, CB{}, "C27")
	d.check(w, "a reload later")
	w.Retire("end")
	d.check(w, "at the end")
}

// noTmp: the place of the private copies is taken by something else.
func noTmp(c *Ctx, w *World, what, op string) {
	d := w.untouchedDir()
	P := "deploy/plugins/"
	d.add("deploy/other/notes.txt", "keep", 0644, time.Hour)
	switch what {
	case "file":
		d.add(P+"tmp", "keep", 0644, time.Hour)
	case "link":
		d.add(P+"tmp", "->../other/notes.txt", 0, 0)
	case "dangling":
		d.add(P+"tmp", "->../other/nothing", 0, 0)
	}
	d.snap()
	w.NewSwapper(Opts{Delay: minDelay})
	for k := 1; k <= 3; k++ {
		var f map[string]int
		switch op {
		case "init":
			f = map[string]int{"OnInit": FErr}
		case "panic":
			f = map[string]int{"Export": FPanicErr}
		}
		for i := 0; i < 2; i++ {
			w.Put(pname(i), &Spec{UID: fmt.Sprintf("%s%d", pname(i), k), Faults: f})
			d.renew(filepath.Join(w.Dir, pname(i)+".so"))
		}
		if op == "bad" {
			w.PutRaw("a.so", []byte("this is no plugin"))
			d.renew(filepath.Join(w.Dir, "a.so"))
		}
		a := w.begin("Load", "x", CB{}, CB{})
		w.run(a)
		if a.Panicked != nil {
			w.Violate([]string{"C12"}, "a load without a place for copies panics: %v", a.Panicked)
		}
		c.r.Transition()
		d.check(w, fmt.Sprintf("load %d (%s) where tmp is a %s", k, op, what))
		if op == "wait" {
			w.Pause(w.Delay+time.Second, op)
		}
	}
	c.r.State(fmt.Sprint("notmp", what, op))
	time.Sleep(w.Delay + time.Second)
	d.check(w, "after the delayed frees where tmp is a "+what)
}
