package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

func methodTypes(t types.Type) []types.Type { return []types.Type{t, types.NewPointer(t)} }

func writeOverlay(L *Loaded, dir string) {
	for p, src := range L.Overlay {
		rel := strings.TrimPrefix(strings.TrimPrefix(p, modPath), "/")
		os.MkdirAll(filepath.Join(dir, rel), 0755)
		os.WriteFile(filepath.Join(dir, rel, "zz_gen.go"), []byte(src), 0644)
	}
}

// ---------- bounded layer: executable contracts ----------

type racViolation struct {
	Clause string `json:"clause"`
	Input  string `json:"input"`
	Detail string `json:"detail"`
}
type racResult struct {
	Evaluations  int            `json:"evaluations"`
	Distinct     int            `json:"distinct"`
	Rule         string         `json:"rule"`
	Samples      []string       `json:"samples"`
	Violations   []racViolation `json:"violations"`
	Notes        []string       `json:"notes"`
	Package      string         `json:"package"`
	Ms           int64          `json:"ms"`
	Error        string         `json:"error,omitempty"`
	DroppedFiles []string       `json:"dropped_files,omitempty"`
}

type config struct {
	verif, repo, prop, tier string
	seed                    int
}

// runRAC compiles the harness of a property into the package under test through an overlay and runs it.
func runRAC(L *Loaded, cf config, rel string, work string) (res racResult) {
	res.Package = rel
	t0 := time.Now()
	defer func() { res.Ms = time.Since(t0).Milliseconds() }()
	hdir := filepath.Join(cf.verif, "harness", rel)
	es, _ := os.ReadDir(hdir)
	var files []string
	for _, e := range es {
		n := e.Name()
		if !strings.HasSuffix(n, "_verif_test.go") {
			continue
		}
		if strings.HasPrefix(n, "common") || strings.HasPrefix(n, cf.prop+"_") {
			files = append(files, filepath.Join(hdir, n))
		}
	}
	pkgDir := filepath.Join(cf.repo, rel)
	pkgName := ""
	for _, lp := range L.List {
		if lp.ImportPath == modPath+"/"+rel {
			pkgName = lp.Name
		}
	}
	if pkgName == "" {
		res.Error = "package " + rel + " not found"
		return
	}
	dropped := map[string]bool{}
	for attempt := 0; attempt < 8; attempt++ {
		ov := map[string]string{}
		// the package's own tests are not part of this
		if ms, _ := filepath.Glob(filepath.Join(pkgDir, "*_test.go")); ms != nil {
			for _, m := range ms {
				ov[m] = ""
			}
		}
		back := map[string]string{}
		put := func(name, src string) {
			if dropped[src] {
				return
			}
			ov[filepath.Join(pkgDir, name)] = src
			back[name] = src
		}
		if cs, _ := filepath.Glob(filepath.Join(cf.verif, "contracts", rel, "*.go")); cs != nil {
			for _, c := range cs {
				put("zzv_spec_"+strings.TrimSuffix(filepath.Base(c), ".go")+"_test.go", c)
			}
		}
		if g, ok := L.Overlay[modPath+"/"+rel]; ok {
			f := filepath.Join(work, "gen.go")
			os.WriteFile(f, []byte(g), 0644)
			put("zzv_gen_test.go", f)
		}
		// specification functions of other packages, which these may name
		for ip, g := range L.Overlay {
			orel := strings.TrimPrefix(ip, modPath+"/")
			if orel == rel {
				continue
			}
			cs, _ := filepath.Glob(filepath.Join(cf.verif, "contracts", orel, "*.go"))
			flat := strings.ReplaceAll(orel, "/", "_")
			for _, c := range cs {
				if !dropped[c] {
					n := "zzv_spec_" + flat + "_" + filepath.Base(c)
					ov[filepath.Join(cf.repo, orel, n)] = c
					back[n] = c
				}
			}
			f := filepath.Join(work, "gen_"+flat+".go")
			os.WriteFile(f, []byte(g), 0644)
			ov[filepath.Join(cf.repo, orel, "zzv_gen_"+flat+".go")] = f
		}
		vh, err := os.ReadFile(filepath.Join(cf.verif, "harness", "vh.go.txt"))
		if err != nil {
			res.Error = err.Error()
			return
		}
		f := filepath.Join(work, "vh_test.go")
		os.WriteFile(f, append([]byte("package "+pkgName+"\n"), vh...), 0644)
		put("zzv_vh_test.go", f)
		n := 0
		for _, h := range files {
			if !dropped[h] {
				n++
			}
			put("zzv_"+filepath.Base(h), h)
		}
		if n == 0 {
			res.Error = "no harness file compiles"
			return
		}
		js, _ := json.Marshal(map[string]interface{}{"Replace": ov})
		of := filepath.Join(work, "overlay.json")
		os.WriteFile(of, js, 0644)
		bin := filepath.Join(work, "rac.test")
		args := []string{"test", "-c", "-vet=off", "-tags", "verif", "-overlay", of, "-o", bin}
		if pkgName == "main" {
			args = append(args, "-ldflags", "-X main.version=verif -X main.date=verif -X "+modPath+"/"+rel+".version=verif -X "+modPath+"/"+rel+".date=verif")
		}
		c := goCmd(cf.repo, append(args, "./"+rel)...)
		var eb bytes.Buffer
		c.Stdout, c.Stderr = &eb, &eb
		if err := c.Run(); err != nil {
			// drop the harness files that no longer compile
			progress := false
			srcs := map[string]bool{}
			for _, s := range back {
				srcs[s] = true
			}
			for _, m := range regexp.MustCompile(`(\S+\.go):\d+`).FindAllStringSubmatch(eb.String(), -1) {
				src := back[filepath.Base(m[1])]
				if src == "" && srcs[m[1]] {
					src = m[1]
				}
				if src == "" || dropped[src] || strings.HasPrefix(filepath.Base(src), "gen") || strings.HasSuffix(src, "vh_test.go") {
					continue
				}
				dropped[src] = true
				res.DroppedFiles = append(res.DroppedFiles, filepath.Base(src))
				progress = true
			}
			if !progress {
				res.Error = "harness does not build: " + tail(eb.String(), 1500)
				return
			}
			continue
		}
		outF := filepath.Join(work, "rac.json")
		os.Remove(outF)
		limit := 150 * time.Second
		if cf.tier == "thorough" {
			limit = 600 * time.Second
		}
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		defer cancel()
		scratch := filepath.Join(work, "scratch")
		os.MkdirAll(scratch, 0777)
		run := exec.CommandContext(ctx, bin, "-test.run", "^TestVerif_"+cf.prop+"$", "-test.timeout", "0")
		run.Dir = scratch
		run.Env = append(goEnv(), "VERIF_OUT="+outF, "VERIF_SEED="+strconv.Itoa(cf.seed), "VERIF_TIER="+cf.tier, "VERIF_SCRATCH="+scratch,
			"VERIF_HARNESS="+hdir, "VERIF_REPO="+cf.repo, "VERIF_SRCDIR="+pkgDir)
		var ob bytes.Buffer
		run.Stdout, run.Stderr = &ob, &ob
		err = run.Run()
		b, e2 := os.ReadFile(outF)
		if e2 != nil {
			res.Error = fmt.Sprintf("harness produced no result (%v): %s", err, tail(ob.String(), 3000))
			return
		}
		d := res.DroppedFiles
		json.Unmarshal(b, &res)
		res.DroppedFiles = d
		return
	}
	res.Error = "harness does not build"
	return
}

func tail(s string, n int) string {
	if len(s) > n {
		return "…" + s[len(s)-n:]
	}
	return s
}

// ---------- one property ----------

type propCfg struct {
	Harness []string `json:"harness"` // packages with a bounded layer
	Level   string   `json:"level"`
	Bounded []string `json:"bounded"` // what is only bounded
	Trusted []string `json:"trusted"`
	Only    []string `json:"contracts"`
}

func runProp(V *Verifier, prop, out string) bool {
	t0 := time.Now()
	cf := config{verif: verifDir, repo: repoDir, prop: prop, tier: os.Getenv("VERIF_TIER")}
	if cf.tier != "thorough" {
		cf.tier = "quick"
	}
	cf.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	if cf.seed == 0 {
		cf.seed = 1
	}
	var cfgs map[string]propCfg
	if b, err := os.ReadFile(filepath.Join(cf.verif, "props.json")); err == nil {
		if err := json.Unmarshal(b, &cfgs); err != nil {
			fmt.Println("props.json:", err)
			os.Exit(2)
		}
	}
	pc := cfgs[prop]

	if cf.tier == "thorough" {
		stopWithin(3 * time.Hour)
	} else {
		stopWithin(660 * time.Second)
	}
	// bounded layer, started first: it runs while the proofs are discharged
	racCh := make(chan racResult, len(pc.Harness))
	for _, rel := range pc.Harness {
		rel := rel
		work, _ := os.MkdirTemp("", "vrac")
		go func() {
			defer os.RemoveAll(work)
			rr := runRAC(V.L, cf, rel, work)
			kn := loadKnown(filepath.Join(cf.verif, "KNOWN_FINDINGS"), prop)
			for _, v := range rr.Violations {
				if kn.match(v) == "" {
					// the verdict is settled: a little more time for naming the obligations that fail
					stopWithin(60 * time.Second)
				}
			}
			racCh <- rr
		}()
	}

	// deductive layer
	var todo []string
	want := map[string]bool{}
	for k, c := range V.L.Contracts {
		if contains(c.Props, prop) {
			want[k] = true
		}
	}
	for k := range want {
		todo = append(todo, k)
	}
	sort.Strings(todo)
	var results []*FuncResult
	done := map[string]bool{}
	used := map[string]bool{}
	trusted := map[string]string{}
	for len(todo) > 0 {
		k := todo[0]
		todo = todo[1:]
		if done[k] {
			continue
		}
		done[k] = true
		c := V.L.Contracts[k]
		if c.Trusted {
			trusted[k] = c.Attrs["trusted"]
			continue
		}
		r := V.verify(c)
		results = append(results, r)
		if r.Error == "" && !allProved(r.Obls) && os.Getenv("GOVC_ALL") == "" {
			// the verdict is settled: a little more time for naming the obligations that fail
			stopWithin(60 * time.Second)
		}
		for _, u := range r.Used {
			used[u] = true
			if !done[u] {
				todo = append(todo, u)
			}
		}
	}
	// well-foundedness of the specification functions that were unfolded
	var sks []string
	byName := map[string]*specInfo{}
	for fn, s := range V.specs {
		sks = append(sks, fn.Name())
		byName[fn.Name()] = s
	}
	sort.Strings(sks)
	for _, n := range sks {
		results = append(results, V.verifySpec(byName[n].fn))
	}

	var racs []racResult
	for range pc.Harness {
		racs = append(racs, <-racCh)
	}

	// ---- report ----
	type viol struct {
		text    string
		replay  string
		noInput bool
	}
	var viols []viol
	rdir := filepath.Join(cf.verif, "replays")
	os.MkdirAll(rdir, 0755)
	known := loadKnown(filepath.Join(cf.verif, "KNOWN_FINDINGS"), prop)
	nracv, evals, distinct := 0, 0, 0
	var samples []string
	var rules, bnotes []string
	knownHit := map[string]bool{}
	for _, rr := range racs {
		evals += rr.Evaluations
		distinct += rr.Distinct
		for i, s := range rr.Samples {
			if i < 5 {
				samples = append(samples, s)
			}
		}
		if rr.Rule != "" {
			rules = append(rules, rr.Rule)
		}
		bnotes = append(bnotes, rr.Notes...)
		if rr.Error != "" {
			bnotes = append(bnotes, "bounded layer of "+rr.Package+": "+rr.Error)
		}
		for _, d := range rr.DroppedFiles {
			bnotes = append(bnotes, "harness file "+d+" does not compile against the current source and was left out")
		}
		for _, v := range rr.Violations {
			if kf := known.match(v); kf != "" {
				knownHit[kf] = true
				continue
			}
			nracv++
			if nracv > 5 {
				continue
			}
			h := sha256.Sum256([]byte(v.Clause + v.Input))
			f := filepath.Join(rdir, fmt.Sprintf("%s-%x.json", prop, h[:6]))
			js, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "clause": v.Clause, "input": v.Input, "detail": v.Detail, "package": rr.Package,
				"seed": cf.seed, "rerun": fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s", cf.seed, cf.tier, prop)}, "", " ")
			os.WriteFile(f, js, 0644)
			viols = append(viols, viol{fmt.Sprintf("%s fails on %s: %s", v.Clause, clip(v.Input, 300), clip(v.Detail, 400)), f, false})
		}
	}
	for _, k := range known.list {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
	}
	obligations, discharged, trivial := 0, 0, 0
	backends := map[string]int{}
	var funcs []map[string]interface{}
	var failed []string
	var failText bytes.Buffer
	inl := map[string]bool{}
	notes := map[string]bool{}
	for _, r := range results {
		p := 0
		for _, o := range r.Obls {
			if o.Cover {
				if o.Status != "proved" {
					failed = append(failed, o.Name())
					fmt.Fprintf(&failText, "%s: contradictory (vacuous) at %s\n", o.Func, o.Label)
				}
				continue
			}
			obligations++
			if o.Status == "proved" {
				discharged++
				p++
				backends[o.Backend]++
			} else {
				failed = append(failed, o.Name())
				fmt.Fprintf(&failText, "obligation %s (%s)\n  path: %s\n  goal: %s\n  solver: %s %s, %d ms\n", o.Name(), V.L.Fset.Position(o.Pos), o.Trace, clip(o.Goal.String(), 2500), o.Status, o.Backend, o.Ms)
				if o.Status == "failed" && o.Model != "" && failText.Len() < 60000 {
					fmt.Fprintf(&failText, "  counterexample state:\n%s\n", clip(model(o.Model, sanitize(o.Name())), 8000))
				}
			}
		}
		trivial += r.Trivial
		fi := map[string]interface{}{"function": strings.TrimPrefix(r.Key, modPath+"/"), "obligations": len(r.Obls), "discharged": p, "closed_by_simplifier": r.Trivial, "paths": r.Paths, "rounds": r.Rounds, "ms": r.Ms}
		if r.Error != "" {
			fi["error"] = r.Error
			missing := r.Contract != nil && (r.Contract.Broken != "" || r.Contract.Fn == nil)
			if missing && r.Contract.Attrs["helper"] != "" {
				fi["note"] = "helper no longer present in this form; its callers are verified without its contract"
			} else {
				obligations++
				failed = append(failed, r.Key+": "+r.Error)
				fmt.Fprintf(&failText, "%s: outside the verifier's reach: %s\n", r.Key, r.Error)
			}
		}
		for _, i := range r.Inlined {
			inl[strings.TrimPrefix(i, modPath+"/")] = true
		}
		for _, n := range r.Notes {
			notes[n] = true
		}
		funcs = append(funcs, fi)
	}
	if len(failed) > 0 {
		f := filepath.Join(rdir, prop+"-obligations.txt")
		os.WriteFile(f, []byte(failText.String()), 0644)
		if nracv == 0 {
			viols = append(viols, viol{"undischarged: " + clip(strings.Join(failed, "; "), 600), f, true})
		} else {
			fmt.Printf("undischarged obligations (see %s): %s\n", f, clip(strings.Join(failed, "; "), 600))
		}
	}
	if len(results) == 0 && evals == 0 {
		fmt.Printf("nothing was checked for %s: %v\n", prop, bnotes)
		os.RemoveAll(tmpDir)
		os.Exit(2)
	}
	level := pc.Level
	if level == "" {
		level = "proof"
	}
	tb := append([]string{}, baseTrusted...)
	for n := range notes {
		tb = append(tb, n)
	}
	for k, why := range trusted {
		tb = append(tb, "trusted contract "+strings.TrimPrefix(k, modPath+"/")+": "+why)
	}
	tb = append(tb, pc.Trusted...)
	sort.Strings(tb[len(baseTrusted):])
	cov := map[string]interface{}{
		"obligations": obligations, "discharged": discharged, "closed_by_simplifier": trivial,
		"checker_cmd":  "./check.sh " + prop,
		"trusted_base": tb, "functions_under_contract": funcs, "back_ends": backends, "solver_ms": solverTime,
		"inlined_without_contract": keysOf(inl),
		"bounded":                  map[string]interface{}{"what": pc.Bounded, "evaluations": evals, "distinct_nontrivial": distinct, "notes": bnotes},
		"evaluations":              evals, "distinct_nontrivial": distinct, "rule": strings.Join(rules, " | "), "samples": samples,
		"undischarged": failed,
	}
	if level == "other" {
		cov["explanation"] = fmt.Sprintf("%d of %d obligations on %d functions discharged deductively; bounded layer (executable contracts) ran %d cases on: %s", discharged, obligations, len(funcs), evals, strings.Join(pc.Bounded, "; "))
	}
	ev := map[string]interface{}{"property": prop, "tier": cf.tier, "seed": cf.seed, "level": level, "coverage": cov, "assumptions": tb, "wall_s": time.Since(t0).Seconds(), "violations": len(viols)}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(cf.verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(cf.verif, "evidence", prop+".json"), js, 0644)
	fmt.Printf("%s: %d functions, %d/%d obligations discharged (+%d by simplification), bounded cases %d (%d distinct), %.1fs\n", prop, len(funcs), discharged, obligations, trivial, evals, distinct, time.Since(t0).Seconds())
	for _, n := range bnotes {
		fmt.Println("note:", clip(n, 600))
	}
	for _, v := range viols {
		fmt.Println(v.text)
		l := fmt.Sprintf("VIOLATION property=%s replay=%s", prop, v.replay)
		if v.noInput {
			l += " no-failing-input-found"
		}
		fmt.Println(l)
	}
	return len(viols) == 0
}

var verifDir, repoDir string

var baseTrusted = []string{
	"govc: translation of go/ssa to verification conditions (this repository's /verif/govc), golang.org/x/tools/go/ssa, go/types",
	"SMT solvers z3 4.8.12, z3-new, cvc5 1.1.2 (an unsat answer of any of them is believed)",
	"int/int64/uint64 arithmetic is mathematical (no overflow); narrower integers wrap as in Go",
	"slices are value sequences: element stores into slices are rejected, aliasing of backing arrays is not modelled",
	"memory exhaustion and stack overflow are not modelled",
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// ---------- known findings ----------

type knownEntry struct{ key, text string }
type knownSet struct{ list []knownEntry }

// KNOWN_FINDINGS lines:  finding: property=<id> clause=<clause> match=<substring of the input>; <description>
func loadKnown(f, prop string) *knownSet {
	ks := &knownSet{}
	b, err := os.ReadFile(f)
	if err != nil {
		return ks
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+prop+" ")
		key, text, _ := strings.Cut(rest, "; ")
		ks.list = append(ks.list, knownEntry{strings.TrimSpace(key), strings.TrimSpace(text)})
	}
	return ks
}
func (k *knownSet) match(v racViolation) string {
	for _, e := range k.list {
		cl, m, ok := strings.Cut(strings.TrimPrefix(e.key, "clause="), " match=")
		if ok && cl == v.Clause && m != "" && strings.Contains(v.Input, m) {
			return e.key
		}
	}
	return ""
}

var _ = ast.IsExported
var _ = parser.ParseFile
var _ = token.NoPos
var _ = io.EOF
