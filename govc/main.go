package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	cdir := flag.String("contracts", "/verif/contracts", "")
	fnPat := flag.String("fn", "", "verify the contracts whose key contains this")
	prop := flag.String("prop", "", "verify the contracts of a property and what they depend on")
	dump := flag.String("dump", "", "dump SSA of functions containing this")
	ext := flag.Bool("ext", false, "list external callees")
	v := flag.Bool("v", false, "")
	to := flag.Int("timeout", 20, "solver seconds")
	out := flag.String("out", "", "JSON result file")
	overlay := flag.String("overlay", "", "write the generated contract wrappers below this directory")
	flag.StringVar(&verifDir, "verif", "/verif", "")
	flag.Parse()
	repoDir = *repo
	var err error
	tmpDir, err = os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if os.Getenv("GOVC_KEEP") == "" {
		defer os.RemoveAll(tmpDir)
	} else {
		fmt.Println("queries in", tmpDir)
	}
	justProp = *prop
	L, err := load(*repo, *cdir, nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.RemoveAll(tmpDir)
		os.Exit(2)
	}
	if *overlay != "" {
		writeOverlay(L, *overlay)
		return
	}
	if *ext {
		listExt(L)
		return
	}
	if *dump != "" {
		for _, p := range L.Pkgs {
			for _, fn := range allFuncs(L, p) {
				if strings.Contains(fn.String(), *dump) {
					fn.WriteTo(os.Stdout)
				}
			}
		}
		return
	}
	for _, d := range L.Dropped {
		fmt.Println("DROPPED", d)
	}
	V := newVerifier(L)
	V.verbose = *v
	V.timeout = time.Duration(*to) * time.Second
	if *prop != "" {
		ok := runProp(V, *prop, *out)
		os.RemoveAll(tmpDir)
		if !ok {
			os.Exit(1)
		}
		return
	}
	var keys []string
	for k := range L.Contracts {
		if strings.Contains(k, *fnPat) {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	bad := 0
	for _, k := range keys {
		c := L.Contracts[k]
		if c.Trusted {
			fmt.Printf("%-60s TRUSTED\n", k)
			continue
		}
		var r *FuncResult
		if c.Fn != nil && V.L.SpecFiles[V.L.Fset.Position(c.Fn.Pos()).Filename] && !c.Lemma {
			r = V.verifySpec(c.Fn)
		} else {
			r = V.verify(c)
		}
		printResult(r, *v)
		if r.Error != "" || len(r.failed()) > 0 {
			bad++
		}
	}
	if bad > 0 {
		fmt.Println("not verified:", bad)
	}
	for n, ms := range solverTime {
		fmt.Printf("%s %dms\n", n, ms)
	}
}

func printResult(r *FuncResult, v bool) {
	pr := 0
	for _, o := range r.Obls {
		if o.Status == "proved" {
			pr++
		}
	}
	fmt.Printf("%-60s %d/%d proved, %d trivial, %d paths, rounds %d, %dms %s\n", strings.TrimPrefix(r.Key, modPath+"/"), pr, len(r.Obls), r.Trivial, r.Paths, r.Rounds, r.Ms, r.Error)
	n := 0
	for _, o := range r.failed() {
		n++
		if n > 8 {
			break
		}
		fmt.Printf("   %s %s:%s %s\n", o.Status, o.Kind, o.Label, o.Trace)
		if v {
			g := o.Goal.String()
			if len(g) > 1500 {
				g = g[:1500]
			}
			fmt.Printf("      goal %s\n", g)
		}
		if o.Status == "error" {
			fmt.Println(o.Model)
		}
	}
	if v {
		fmt.Println("   used", r.Used, "inlined", r.Inlined)
	}
}

func allFuncs(L *Loaded, p *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	var add func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.Members {
		switch x := m.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			for _, t := range methodTypes(x.Type()) {
				ms := L.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := L.Prog.MethodValue(ms.At(i))
					if f != nil && f.Synthetic == "" {
						add(f)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func listExt(L *Loaded) {
	m := map[string][]string{}
	for _, p := range L.Pkgs {
		for _, fn := range allFuncs(L, p) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						cc := c.Common()
						if cc.IsInvoke() {
							m["I "+cc.Method.FullName()] = append(m["I "+cc.Method.FullName()], fn.Name())
						} else if f := cc.StaticCallee(); f != nil && f.Blocks == nil {
							m[f.String()] = append(m[f.String()], fn.Name())
						}
					}
				}
			}
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x := m[k]
		if len(x) > 6 {
			x = x[:6]
		}
		fmt.Println(k, x)
	}
}
