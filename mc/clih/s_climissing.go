package clih

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// The climissing suite (C22): the build command refuses plugins that lack required functions.

func init() { register(&Suite{Name: "climissing", Run: runCLIMissing}) }

func runCLIMissing(r *Runner) {
	r.Bound("functions", "all 128 subsets of the seven functions, plugin build and static linking")
	for _, mode := range []string{"plugin build", "copy only", "static linking"} {
		for m := 0; m < 1<<len(userFuncs); m++ {
			mode, m := mode, m
			if mode == "copy only" && !r.Thorough() && m%5 != 0 {
				continue
			}
			r.Case(fmt.Sprintf("%s subset %07b", mode, m), func(c *Ctx) {
				var have, miss []string
				for i, f := range userFuncs {
					if m&(1<<i) != 0 {
						have = append(have, f)
					} else {
						miss = append(miss, f)
					}
				}
				missing(c, mode, map[string]string{"main.go": fundamental("foo", have, "")}, miss)
				c.r.State(fmt.Sprint(mode, m))
			})
		}
	}
	// a function in the wrong place does not count; in any file of the root package it does
	for _, mode := range []string{"plugin build", "static linking"} {
		for i, f := range userFuncs {
			for _, d := range []string{"method", "test file", "sub-package", "lower case", "comment", "other file", "two files", "local", "generated twin"} {
				mode, f, d, i := mode, f, d, i
				if !r.Thorough() && mode == "static linking" && i%3 != 0 {
					continue
				}
				r.Case(fmt.Sprintf("%s %s: %s", mode, d, f), func(c *Ctx) {
					var have []string
					for _, g := range userFuncs {
						if g != f {
							have = append(have, g)
						}
					}
					files := map[string]string{"main.go": fundamental("foo", have, ""), "sub/base.go": "package sub\n"}
					miss := []string{f}
					decl := fundamental("foo", []string{f}, "")
					switch d {
					case "method":
						files["m.go"] = "package foo\n\ntype t struct{}\n\nfunc (t) " + f + "() {}\nfunc (*t) x() {}\n"
					case "test file":
						files["m_test.go"] = decl
					case "sub-package":
						files["sub/m.go"] = strings.Replace(decl, "package foo", "package sub", 1)
					case "lower case":
						files["m.go"] = "package foo\n\nfunc " + strings.ToLower(f[:1]) + f[1:] + "_() {}\nfunc " + strings.ToUpper(f) + "() {}\nfunc " + f + "2() {}\n"
					case "comment":
						files["m.go"] = "package foo\n\n// func " + f + "() {}\nvar _ = `\nfunc " + f + "() {}\n`\n"
					case "other file":
						files["zz.go"] = decl
						miss = nil
					case "two files":
						files["main.go"] = fundamental("foo", have[:3], "")
						files["a.go"] = fundamental("foo", have[3:], "")
						files["zz.go"] = decl
						miss = nil
					case "local":
						files["m.go"] = "package foo\n\nfunc z() {\n\t" + f + " := func() {}\n\t" + f + "()\n}\n"
					case "generated twin":
						// an import, a label and a struct field of that name
						files["m.go"] = "package foo\n\ntype z struct{ " + f + " func() }\n\nfunc y() {\n" + f + ":\n\tfor {\n\t\tbreak " + f + "\n\t}\n}\n"
					}
					missing(c, mode, files, miss)
					c.r.State(fmt.Sprint(mode, f, d))
				})
			}
		}
	}
}

var rexWord = regexp.MustCompile(`[A-Za-z_]+`)

// missing builds the plugin. want: the functions it lacks.
func missing(c *Ctx, mode string, files map[string]string, want []string) {
	p := c.r.newProj()
	defer p.Close()
	p.writeAll("plugin/foo", files)
	before := trim(snapDir(p.Root))
	args := []string{"build", "plugin/foo", "out"}
	o := runOpt{}
	switch mode {
	case "static linking":
		args = []string{"build", "--staticLinking", "plugin/foo", "plugin"}
	case "copy only":
		args = []string{"build", "--goBuild=false", "plugin/foo", "out"}
	default:
		if len(want) == 0 {
			args = []string{"build", "--goBuild=false", "plugin/foo", "out"} // what the compiler does with it is not the point here
		}
	}
	x := p.Hotswap(o, args...)
	c.r.Count("cli_runs", 1)
	c.r.Transition()
	c.r.Res.Events += int64(len(userFuncs))
	if len(want) == 0 {
		if x.Exit != 0 {
			c.violate([]string{"C22"}, "a plugin that has all the functions is refused: "+x.String())
		}
		return
	}
	if x.Exit == 0 {
		c.violate([]string{"C22"}, fmt.Sprintf("a plugin without %v is accepted", want))
	}
	var named []string
	seen := map[string]bool{}
	for _, w := range rexWord.FindAllString(x.Err, -1) {
		for _, f := range userFuncs {
			if w == f && !seen[f] {
				seen[f] = true
				named = append(named, f)
			}
		}
	}
	sort.Strings(named)
	sort.Strings(want)
	if x.Exit != 0 && fmt.Sprint(named) != fmt.Sprint(want) {
		c.violate([]string{"C22"}, fmt.Sprintf("the plugin lacks %v, the message names %v: %s", want, named, x))
	}
	if d := before.Diff(trim(snapDir(p.Root))); d != "" {
		c.violate([]string{"C22"}, "a refused build produces something: "+d)
	}
}
