package main

import (
	"context"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	syncatomic "sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Verifier struct {
	L          *Loaded
	byFn       map[*ssa.Function]*Contract
	byExt      map[string]*Contract // assumed contracts of dependencies, by name and by package:name
	loops      map[*ssa.Function]*loopInfo
	pureFn     map[*ssa.Function]bool
	recFn      map[*ssa.Function]bool
	specs      map[*ssa.Function]*specInfo
	specByName map[string]*specInfo
	unfolded   map[*Term]*Term
	trivial    map[string]int
	cellSeq    int
	funcIDs    map[interface{}]int64
	funcByID   map[int64]Val
	globCache  map[*ssa.Global]Val
	mapLits    map[*ssa.Global][]mapPair
	globState  map[*ssa.Global]int
	timeout    time.Duration
	verbose    bool
	keep       bool
	initFacts  map[string][]initFact
	initDone   map[*ssa.Package]bool
	initTop    int64
	keySorts   map[string]*Sort
	specBusy   map[*ssa.Function]bool
}
type initFact struct {
	ref, val *Term
}

func newVerifier(L *Loaded) *Verifier {
	V := &Verifier{L: L, byFn: map[*ssa.Function]*Contract{}, byExt: map[string]*Contract{}, loops: map[*ssa.Function]*loopInfo{}, pureFn: map[*ssa.Function]bool{}, recFn: map[*ssa.Function]bool{},
		specs: map[*ssa.Function]*specInfo{}, specByName: map[string]*specInfo{}, unfolded: map[*Term]*Term{}, trivial: map[string]int{},
		funcIDs: map[interface{}]int64{}, funcByID: map[int64]Val{}, globCache: map[*ssa.Global]Val{}, mapLits: map[*ssa.Global][]mapPair{}, globState: map[*ssa.Global]int{}, timeout: 20 * time.Second,
		initFacts: map[string][]initFact{}, initDone: map[*ssa.Package]bool{}, keySorts: map[string]*Sort{}, specBusy: map[*ssa.Function]bool{}}
	for _, k := range sortedKeys(L.Contracts) {
		c := L.Contracts[k]
		if c.Fn != nil {
			V.byFn[c.Fn] = c
		}
		if c.Ext != "" {
			V.byExt[c.Pkg+":"+c.Ext] = c
			if V.byExt[c.Ext] == nil {
				V.byExt[c.Ext] = c
			}
		}
	}
	return V
}

func (V *Verifier) funcConst(v Val) *Term {
	var key interface{} = v
	id, ok := V.funcIDs[key]
	if !ok {
		id = int64(len(V.funcIDs) + 1)
		V.funcIDs[key] = id
		V.funcByID[id] = v
	}
	return Int(id)
}
func (V *Verifier) funcOf(t *Term) (Val, bool) {
	if !t.isInt() {
		return nil, false
	}
	v, ok := V.funcByID[t.n]
	return v, ok
}

// ghostSorts are the heaps of ghost state: the unread content of a reader.
var ghostSorts = map[string]*Sort{"ghost:reader": StrS}

// leafKeys lists the heap keys of the struct fields named by "pkg.Type" or "pkg.Type.Field".
func (V *Verifier) leafKeys(pat string) (out []string, sorts []*Sort) {
	ps := strings.Split(pat, ".")
	if len(ps) < 2 {
		return
	}
	for _, p := range V.L.Prog.AllPackages() {
		if p.Pkg.Name() != ps[0] {
			continue
		}
		tn, ok := p.Pkg.Scope().Lookup(ps[1]).(*types.TypeName)
		if !ok {
			continue
		}
		var rec func(t types.Type, path []int)
		rec = func(t types.Type, path []int) {
			k, ft := fieldKey(t, path)
			if su, ok := under(ft).(*types.Struct); ok {
				for i := 0; i < su.NumFields(); i++ {
					rec(t, append(append([]int{}, path...), i))
				}
				return
			}
			if len(path) > 0 && (k == pat || strings.HasPrefix(k, pat+".")) {
				out = append(out, k)
				sorts = append(sorts, sortOf(ft))
			}
		}
		rec(tn.Type(), nil)
		if len(out) > 0 {
			return
		}
	}
	return
}
func (V *Verifier) keySort(k string) *Sort {
	if s, ok := V.keySorts[k]; ok {
		return s
	}
	ks, ss := V.leafKeys(k)
	var r *Sort
	if len(ks) == 1 && ks[0] == k {
		r = ss[0]
	}
	V.keySorts[k] = r
	return r
}
func (V *Verifier) keysMatching(ex *Exec, st *State, pat string) []string {
	var out []string
	if pat == "heap" {
		unsup("modifies any heap")
	}
	ks, ss := V.leafKeys(pat)
	if g := ghostSorts[pat]; g != nil {
		ks, ss = []string{pat}, []*Sort{g}
	}
	for i, k := range ks {
		ex.heapGet(st, k, ss[i])
	}
	if len(ks) == 0 && !strings.HasPrefix(pat, "map") {
		unsup("unknown heap key %s", pat)
	}
	for k := range st.heap {
		if matchesAny([]string{pat}, k) {
			out = append(out, k)
		}
	}
	for k, h := range ex.initHeap {
		if _, ok := st.heap[k]; !ok && matchesAny([]string{pat}, k) && h.sort.Kind == SArray {
			st.heap[k] = h
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// FuncResult of verifying one contract.
type FuncResult struct {
	Key         string
	Contract    *Contract
	Obls        []*Oblig
	Error       string // outside the verifier's reach
	Trivial     int
	Used        []string
	Inlined     []string
	Notes       []string
	Rounds      int
	PhaseB      bool
	Ms          int64
	Paths       int
	CoverFailed string
}

func (r *FuncResult) failed() []*Oblig {
	var out []*Oblig
	for _, o := range r.Obls {
		if o.Status != "proved" {
			out = append(out, o)
		}
	}
	return out
}

func (V *Verifier) newExec(c *Contract) *Exec {
	ex := &Exec{L: V.L, V: V, c: c, fn: c.Fn, initHeap: map[string]*Term{}, dropped: map[string]bool{},
		usedContracts: map[string]bool{}, usedTrusted: map[string]bool{}, inlined: map[string]bool{},
		loopsSeen: map[string]bool{}, decNeeded: map[string]string{}, notes: map[string]bool{}, pureBusy: map[string]bool{}}
	ex.top0 = intern(&Term{op: OVar, sort: RefS, name: "#top!0", epoch: 1})
	return ex
}

// generate runs symbolic execution of the contract's function once.
func (V *Verifier) generate(c *Contract, dropped map[string]bool, phaseB bool) (ex *Exec, err error) {
	V.trivial[c.Key] = 0
	ex = V.newExec(c)
	ex.dropped = dropped
	ex.phaseB = phaseB
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("%s (at %s)", u.msg, ex.posStr(token.NoPos))
				return
			}
			if os.Getenv("GOVC_PANIC") != "" {
				panic(r)
			}
			err = fmt.Errorf("internal error: %v (at %s)", r, ex.posStr(token.NoPos))
		}
	}()
	st := ex.blankState()
	fn := c.Fn
	for _, p := range fn.Params {
		v := ex.freshOf("p_"+p.Name(), p.Type(), ex.top0)
		fixEpoch(v, ex.top0)
		ex.params = append(ex.params, Val(v))
		// a nil slice has no elements
		for _, f := range nilFacts(p.Type(), v) {
			st.assume(f)
		}
	}
	for _, cl := range c.Clauses {
		if cl.Kind == "requires" {
			if cl.Fn == nil {
				return ex, fmt.Errorf("clause %s unusable", cl.Label)
			}
			st.assume(ex.term(ex.spec(cl.Fn, ex.params, st)))
		}
	}
	if st.dead {
		return ex, fmt.Errorf("precondition is contradictory")
	}
	for _, cl := range c.Clauses {
		if cl.Kind == "let" {
			ex.lets = append(ex.lets, ex.spec(cl.Fn, ex.params, st))
		}
	}
	for _, cl := range c.Clauses {
		if cl.Kind == "dec" && !cl.Loop && cl.Fn != nil {
			ex.recMeasure = ex.term(ex.spec(cl.Fn, ex.params, st))
		}
	}
	// the precondition must be satisfiable
	ex.obls = append(ex.obls, &Oblig{Func: c.Key, Kind: "cover", Label: "precondition", Hyps: st.pcList(), Goal: False, Cover: true})
	entry := st.clone()
	ex.oldSt = entry
	fr := ex.newFrame(fn, ex.params, nil, nil)
	ex.stack = []*frame{fr}
	var covers []*Oblig
	exit := func(s *State, res []Val) {
		if s.dead {
			return
		}
		ex.retCount++
		args := append(append([]Val{}, ex.params...), res...)
		args = append(args, ex.lets...)
		for i, a := range args {
			if ad, ok := a.(*Addr); ok && ad.kind == aHeap && len(ad.path) == 0 {
				args[i] = ad.ref
			}
		}
		for _, cl := range c.Clauses {
			if cl.Kind != "ensures" {
				continue
			}
			if cl.Fn == nil {
				unsup("clause %s unusable", cl.Label)
			}
			g := ex.term(ex.spec(cl.Fn, args, s))
			ex.oblig(s, "ensures", cl.Label, g, fn.Pos(), cl.Props)
			s.assume(g)
		}
		if !c.Lemma {
			ex.checkModifies(s, entry)
		}
		covers = append(covers, &Oblig{Func: c.Key, Kind: "cover", Label: fmt.Sprintf("return %d", ex.retCount), Hyps: s.pcList(), Goal: False, Cover: true})
	}
	ex.runBlock(fr, st, nil, fn.Blocks[0], exit)
	if len(covers) > 12 {
		covers = covers[:12]
	}
	ex.obls = append(ex.obls, covers...)
	if ex.retCount == 0 && c.Attrs["noreturn"] == "" {
		ex.obls = append(ex.obls, &Oblig{Func: c.Key, Kind: "cover", Label: "no path reaches a return", Goal: False})
	}
	for _, pos := range ex.decNeeded {
		if c.Attrs["terminates"] == "" {
			continue
		}
		ex.obls = append(ex.obls, &Oblig{Func: c.Key, Kind: "dec", Label: "no measure for loop at " + pos, Goal: False})
	}
	return ex, nil
}

func nilFacts(t types.Type, v *Term) []*Term {
	switch u := under(t).(type) {
	case *types.Slice:
		return []*Term{Imp(sliceNil(v), Eq(Len(sliceSeq(v)), Int(0)))}
	case *types.Struct:
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, nilFacts(u.Field(i).Type(), Sel(v, i))...)
		}
		return out
	}
	return nil
}

// relevant: the facts that speak only of symbols of the obligation (leaving a hypothesis out is sound).
func relevant(facts []*Term, o *Oblig) []*Term {
	if len(facts) == 0 {
		return nil
	}
	syms, seen := map[*Term]bool{}, map[*Term]bool{}
	mark := func(x *Term) {
		if x.op == OVar {
			syms[x] = true
		}
	}
	for _, h := range o.Hyps {
		walk(h, seen, mark)
	}
	walk(o.Goal, seen, mark)
	var out []*Term
	done := map[*Term]bool{}
	for _, f := range facts {
		if done[f] {
			continue
		}
		done[f] = true
		ok := true
		walk(f, map[*Term]bool{}, func(x *Term) {
			if x.op == OVar && !x.bound && !syms[x] {
				ok = false
			}
		})
		if ok {
			out = append(out, f)
		}
	}
	return out
}

type dischargeMode int

const (
	finalBatch dischargeMode = iota
	abandonBatch
)

// discharge runs the solvers on the obligations.
// A "final" batch settles the verdict with its first undischarged obligation: the rest get short attempts.
// With abandon the rest are not attempted at all (another phase follows).
func (V *Verifier) discharge(ex *Exec, obls []*Oblig, quick bool, mode ...dischargeMode) {
	final, abandon := false, false
	for _, m := range mode {
		final, abandon = final || m == finalBatch, abandon || m == abandonBatch
	}
	var gone syncatomic.Bool
	type job struct {
		o  *Oblig
		id string
	}
	var jobs []job
	for i, o := range obls {
		if o.Status == "proved" {
			continue
		}
		if o.Goal == False && o.Hyps == nil && !o.Cover {
			o.Status = "failed"
			continue
		}
		if len(ex.apart) > 0 && !o.Cover {
			var hs []*Term
			for _, h := range o.Hyps {
				if ex.keptFor(h, o.Label) {
					hs = append(hs, h)
				}
			}
			o.Hyps = hs
		}
		o.Hyps = append(o.Hyps, relevant(ex.sideFacts, o)...)
		j := job{o: o, id: fmt.Sprintf("%s_%d_%d", sanitize(ex.c.Name), i, time.Now().UnixNano()%1e9)}
		jobs = append(jobs, j)
	}
	sem := make(chan bool, 7)
	var bmu sync.Mutex // terms are interned in shared tables
	build := func(f func() string) (s string) {
		bmu.Lock()
		defer bmu.Unlock()
		defer func() {
			if x := recover(); x != nil {
				u, ok := x.(unsupported)
				if !ok {
					panic(x)
				}
				if os.Getenv("GOVC_TIMES") != "" {
					fmt.Fprintln(os.Stderr, "    outside:", u.msg)
				}
				s = "(outside the reach of the verifier: " + strings.ReplaceAll(u.msg, "\n", " ") + ")\n"
			}
		}()
		return f()
	}
	var wg sync.WaitGroup
	// one undischarged obligation settles the fate of a candidate invariant
	lost := map[string]bool{}
	var lmu sync.Mutex
	for _, j := range jobs {
		wg.Add(1)
		sem <- true
		go func(j job) {
			defer func() { <-sem; wg.Done() }()
			o := j.o
			if os.Getenv("GOVC_TIMES") != "" {
				defer func() {
					if o.Ms > 2000 {
						fmt.Fprintf(os.Stderr, "    slow %s %s %s %s %dms %s\n", j.id, o.Kind, o.Label, o.Status, o.Ms, o.Trace)
					}
				}()
			}
			if o.InvID != "" {
				lmu.Lock()
				skip := lost[o.InvID]
				lmu.Unlock()
				if skip {
					o.Status = "unknown"
					return
				}
				defer func() {
					if o.Status != "proved" {
						lmu.Lock()
						lost[o.InvID] = true
						lmu.Unlock()
					}
				}()
			}
			if stopped() {
				o.Status, o.Backend = "unknown", "none (time budget used up)"
				if o.Cover {
					o.Status = "proved"
				}
				return
			}
			to := V.timeout
			if !o.Cover && o.InvID == "" && (final || abandon) {
				if gone.Load() {
					if abandon {
						o.Status, o.Backend = "unknown", "none (abandoned)"
						return
					}
					to = 5 * time.Second
				}
				defer func() {
					if o.Status != "proved" {
						gone.Store(true)
					}
				}()
			}
			if o.Cover {
				r := portfolio(build(func() string { return buildQuery(ex, o, 1, false).smt() }), j.id, 3*time.Second, true)
				o.Backend, o.Ms = r.backend, r.ms
				if r.res == "unsat" {
					o.Status = "failed"
				} else {
					o.Status = "proved"
				}
				return
			}
			if strings.HasPrefix(o.InvID, "grow/") {
				// a candidate of the engine's own: one cheap attempt
				r := portfolio(build(func() string { return buildQuery(ex, o, 1, false).smt() }), j.id, 1500*time.Millisecond, true)
				o.Backend, o.Ms, o.Status = r.backend, r.ms, "unknown"
				if r.res == "unsat" {
					o.Status = "proved"
				}
				return
			}
			if lean := build(func() string {
				if q := buildLean(ex, o, 3); q != nil {
					return q.smt()
				}
				return ""
			}); lean != "" {
				lto := to
				if lto > 5*time.Second {
					lto = 5 * time.Second
				}
				r := portfolio(lean, j.id+"_l", lto, true)
				o.Ms += r.ms
				if r.res == "unsat" {
					o.Backend, o.Status = r.backend, "proved"
					return
				}
			}
			if hasQuant(o.Hyps) {
				s := build(func() string { return buildSmall(ex, o).smt() })
				f := filepath.Join(tmpDir, j.id+"_s.smt2")
				os.WriteFile(f, []byte(s), 0644)
				ctx, cc := context.WithTimeout(context.Background(), 1000*time.Millisecond)
				r := runOne(ctx, "z3-new", []string{"-t:500"}, f)
				cc()
				o.Ms += r.ms
				if r.res == "unsat" {
					o.Backend, o.Status = r.backend, "proved"
					return
				}
			}
			trig := ""
			if hasQuant(o.Hyps) {
				if s := build(func() string {
					if q := buildTrig(ex, o, false); q != nil {
						return q.smt()
					}
					if q := buildTrig(ex, o, true); q != nil {
						return q.smt()
					}
					return ""
				}); s != "" {
					trig = s
					r := portfolio(s, j.id+"_t", 2*time.Second, true)
					o.Ms += r.ms
					if r.res == "unsat" {
						o.Backend, o.Status = r.backend, "proved"
						return
					}
				}
			}
			prev := ""
			for i, f := range []int{2, 4} {
				s := build(func() string { return buildQuery(ex, o, f, f > 2).smt() })
				if s == prev {
					continue
				}
				prev = s
				r := portfolio(s, fmt.Sprintf("%s_%d", j.id, i), to, quick || i == 0)
				o.Ms += r.ms
				o.Backend = r.backend
				switch r.res {
				case "unsat":
					o.Status = "proved"
				case "sat":
					o.Status = "failed"
					o.Model = s
				case "error":
					o.Status = "error"
					o.Model = r.out
				default:
					o.Status = "unknown"
				}
				if o.Status == "proved" {
					return
				}
				if i == 0 && trig != "" && o.Status != "error" {
					r := portfolio(trig, j.id+"_u", 8*time.Second, false)
					o.Ms += r.ms
					if r.res == "unsat" {
						o.Backend, o.Status = r.backend, "proved"
						return
					}
				}
			}
		}(j)
	}
	wg.Wait()
	// the hypotheses are consistent when some return is reachable; single returns may be infeasible
	reach := false
	for _, o := range obls {
		reach = reach || o.Cover && strings.HasPrefix(o.Label, "return") && o.Status == "proved"
	}
	for _, o := range obls {
		if reach && o.Cover && strings.HasPrefix(o.Label, "return") {
			o.Status = "proved"
		}
	}
}

// verify proves one contract; Houdini over loop invariant instances.
func (V *Verifier) verify(c *Contract) *FuncResult {
	t0 := time.Now()
	r := &FuncResult{Key: c.Key, Contract: c}
	defer func() { r.Ms = time.Since(t0).Milliseconds() }()
	if c.Broken != "" {
		r.Error = c.Broken
		return r
	}
	if c.Fn == nil || c.Fn.Blocks == nil {
		r.Error = "no body"
		return r
	}
	hasInv := false
	for _, cl := range c.Clauses {
		if (cl.Kind == "inv" || cl.Kind == "dec" && cl.Loop) && len(cl.PNames) > 0 {
			hasInv = true
		}
	}
	for phase := 0; phase < 2; phase++ {
		if phase == 1 && (!hasInv || os.Getenv("GOVC_PHASEA") != "") {
			break
		}
		ok := V.attempt(c, r, phase == 1, hasInv)
		if ok || phase == 1 {
			break
		}
		if r.Error != "" {
			break
		}
	}
	return r
}

func (V *Verifier) attempt(c *Contract, r *FuncResult, phaseB, hasInv bool) bool {
	dropped := map[string]bool{}
	r.PhaseB = phaseB
	deadline := time.Now().Add(240 * time.Second)
	for round := 0; round < 25; round++ {
		r.Rounds++
		ex, err := V.generate(c, dropped, phaseB)
		r.Error = ""
		r.Obls = ex.obls
		r.Trivial = V.trivial[c.Key]
		r.Paths = ex.retCount
		r.Used, r.Inlined, r.Notes = keysOf(ex.usedContracts), keysOf(ex.inlined), keysOf(ex.notes)
		if err != nil {
			r.Error = err.Error()
			return false
		}
		if len(ex.obls) > 6000 {
			r.Error = fmt.Sprintf("too many obligations (%d)", len(ex.obls))
			return false
		}
		// invariants first
		var invs, rest []*Oblig
		for _, o := range ex.obls {
			if o.InvID != "" || o.DecID != "" {
				invs = append(invs, o)
			} else {
				rest = append(rest, o)
			}
		}
		V.discharge(ex, invs, phaseB)
		drop := false
		for _, o := range invs {
			if o.Status != "proved" {
				id := o.InvID
				if id == "" {
					id = o.DecID
				}
				if !dropped[id] {
					dropped[id] = true
					drop = true
					if V.verbose {
						fmt.Fprintf(os.Stderr, "  [%s] drop %s (%s %s, %s %dms) %s\n", c.Name, id, o.Kind, o.Label, o.Status, o.Ms, o.Trace)
						if os.Getenv("GOVC_DUMP") != "" {
							fmt.Fprintf(os.Stderr, "     goal %s\n", o.Goal)
							for _, h := range o.Hyps {
								fmt.Fprintf(os.Stderr, "       hyp %s\n", h)
							}
						}
					}
				}
			}
		}
		if drop && time.Now().Before(deadline) && !stopped() {
			continue
		}
		if !phaseB && len(dropped) > 0 {
			// some invariant is not inductive under its own names
			V.discharge(ex, rest, false, abandonBatch)
			return allProved(ex.obls) && len(rest) > 0 && !drop
		}
		m := finalBatch
		if !phaseB && hasInv {
			m = abandonBatch
		}
		V.discharge(ex, rest, false, m)
		return allProved(ex.obls)
	}
	r.Error = "invariant inference did not stabilise"
	return false
}

func allProved(os []*Oblig) bool {
	for _, o := range os {
		if o.Status != "proved" {
			return false
		}
	}
	return true
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---------- globals ----------

// globalInit gives the value of a package variable at function entry when it is never written after
// initialisation; nil means "arbitrary".
func (V *Verifier) globalInit(ex *Exec, g *ssa.Global) Val {
	if v, ok := V.globCache[g]; ok {
		return v
	}
	V.globCache[g] = nil
	if g.Pkg == nil || strings.HasPrefix(g.Name(), "ghost") {
		// ghost globals are set by the contracts of dependencies only
		return nil
	}
	if V.L.Pkgs[g.Pkg.Pkg.Path()] == nil {
		// external package variable
		t := g.Type().(*types.Pointer).Elem()
		if sortOf(t) == IfaceS && isErrorVar(g.String()) {
			n := "box_sentinel"
			boxTags[n] = 900000
			boxSorts[n] = IntS
			V.globCache[g] = App(n, IfaceS, Int(typeIDstr("sentinel:"+g.String())))
			return V.globCache[g]
		}
		return nil
	}
	if V.storedOutsideInit(g) {
		return nil
	}
	initFn := g.Pkg.Func("init")
	if initFn == nil {
		return nil
	}
	stores := 0
	var val ssa.Value
	for _, b := range initFn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				stores++
				val = s.Val
			}
		}
	}
	if stores == 0 {
		v := zeroVal(g.Type().(*types.Pointer).Elem())
		V.globCache[g] = v
		return v
	}
	if stores == 1 {
		switch x := val.(type) {
		case *ssa.Const:
			V.globCache[g] = constVal(x)
		case *ssa.Function:
			V.globCache[g] = x
		case *ssa.Call:
			// errors.New: an error that is nothing but itself
			if f := x.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "github.com/pkg/errors.New") {
				n := "box_sentinel"
				boxTags[n] = 900000
				boxSorts[n] = IntS
				r := App(n, IfaceS, Int(typeIDstr("sentinel:"+g.String())))
				wrapOf[r] = nil
				V.globCache[g] = r
			}
		case *ssa.Slice:
			if es, ok := sliceLit(x); ok && V.readOnly(g) {
				e := sortOf(under(x.Type()).(*types.Slice).Elem())
				r := Empty(SeqOf(e))
				for _, v := range es {
					t, ok := v.(*Term)
					if !ok {
						return nil
					}
					r = Concat(r, Unit(t, e))
				}
				V.globCache[g] = mkSlice(e, False, r)
			}
		}
	}
	return V.globCache[g]
}

var strIDs = map[string]int64{}

func typeIDstr(s string) int64 {
	if id, ok := strIDs[s]; ok {
		return id
	}
	strIDs[s] = int64(len(strIDs) + 1)
	return strIDs[s]
}

func isErrorVar(n string) bool {
	return n == "io.EOF" || strings.Contains(n, ".Err") || n == "path/filepath.SkipDir"
}

func (V *Verifier) storedOutsideInit(g *ssa.Global) bool {
	found := false
	V.eachFunc(g, func(fn *ssa.Function) {
		found = found || V.storesTo(fn, g, fn == g.Pkg.Func("init"))
	})
	return found
}

// eachFunc visits the functions that can name g.
func (V *Verifier) eachFunc(g *ssa.Global, f func(fn *ssa.Function)) {
	for _, sp := range V.L.Pkgs {
		if sp == nil || sp != g.Pkg && !token.IsExported(g.Name()) {
			continue
		}
		for _, m := range sp.Members {
			if fn, ok := m.(*ssa.Function); ok {
				f(fn)
			}
			if tn, ok := m.(*ssa.Type); ok {
				for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
					ms := V.L.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if fn := V.L.Prog.MethodValue(ms.At(i)); fn != nil {
							f(fn)
						}
					}
				}
			}
		}
	}
}

// readOnly: the map or slice held by g is never written, copied or passed on.
func (V *Verifier) readOnly(g *ssa.Global) bool {
	ok := true
	var scan func(fn *ssa.Function)
	scan = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				u, is := in.(*ssa.UnOp)
				if !is || u.X != ssa.Value(g) {
					continue
				}
				for _, r := range *u.Referrers() {
					switch x := r.(type) {
					case *ssa.DebugRef, *ssa.Range:
					case *ssa.Lookup:
						ok = ok && x.X == ssa.Value(u)
					case *ssa.Call:
						b, is := x.Call.Value.(*ssa.Builtin)
						ok = ok && is && b.Name() == "len"
					case *ssa.IndexAddr:
						for _, r := range *x.Referrers() {
							switch y := r.(type) {
							case *ssa.DebugRef:
							case *ssa.UnOp:
								ok = ok && y.Op == token.MUL
							default:
								ok = false
							}
						}
					default:
						ok = false
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			scan(a)
		}
	}
	V.eachFunc(g, scan)
	return ok
}

// sliceLit gives the elements of a slice literal of constants.
func sliceLit(v ssa.Value) ([]Val, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil || sl.Max != nil {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || at.Len() > 64 {
		return nil, false
	}
	out := make([]Val, at.Len())
	for i := range out {
		out[i] = zeroVal(at.Elem())
	}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Slice:
			if x != sl {
				return nil, false
			}
		case *ssa.IndexAddr:
			i, ok := x.Index.(*ssa.Const)
			if !ok || x.X != ssa.Value(al) {
				return nil, false
			}
			for _, r := range *x.Referrers() {
				s, ok := r.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(x) {
					return nil, false
				}
				c, ok := s.Val.(*ssa.Const)
				if !ok {
					return nil, false
				}
				out[i.Int64()] = constVal(c)
			}
		default:
			return nil, false
		}
	}
	return out, true
}

type mapPair struct{ k, v *Term }

// mapLit gives the entries of a package variable holding a literal map of constants that nothing changes.
func (V *Verifier) mapLit(g *ssa.Global) ([]mapPair, bool) {
	if r, ok := V.mapLits[g]; ok {
		return r, r != nil
	}
	V.mapLits[g] = nil
	if g.Pkg == nil || V.L.Pkgs[g.Pkg.Pkg.Path()] == nil || V.storedOutsideInit(g) || !V.readOnly(g) {
		return nil, false
	}
	v := V.initStore(g)
	m, ok := v.(*ssa.MakeMap)
	if !ok {
		return nil, false
	}
	out := []mapPair{}
	for _, r := range *m.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr != ssa.Value(g) {
				return nil, false
			}
		case *ssa.MapUpdate:
			k, ok1 := x.Key.(*ssa.Const)
			c, ok2 := x.Value.(*ssa.Const)
			if !ok1 || !ok2 || x.Map != ssa.Value(m) || len(x.Block().Preds) > 1 {
				return nil, false
			}
			kt, ok1 := constVal(k).(*Term)
			vt, ok2 := constVal(c).(*Term)
			if !ok1 || !ok2 {
				return nil, false
			}
			out = append(out, mapPair{kt, vt})
		default:
			return nil, false
		}
	}
	V.mapLits[g] = out
	return out, true
}

// initStore is the single value package initialisation stores into g.
func (V *Verifier) initStore(g *ssa.Global) ssa.Value {
	initFn := g.Pkg.Func("init")
	if initFn == nil {
		return nil
	}
	var val ssa.Value
	n := 0
	for _, b := range initFn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				val = s.Val
				n++
			}
		}
	}
	if n != 1 {
		return nil
	}
	return val
}
func (V *Verifier) storesTo(fn *ssa.Function, g *ssa.Global, isInit bool) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g && isInit {
				continue
			}
			if u, ok := in.(*ssa.UnOp); ok && u.X == g {
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op == g {
					return true
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		if V.storesTo(a, g, false) {
			return true
		}
	}
	return false
}

func hasQuant(hs []*Term) bool {
	for _, h := range hs {
		if h.quant {
			return true
		}
	}
	return false
}
