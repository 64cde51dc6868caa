package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// spec evaluates a contract expression (no obligations, no state change).
func (ex *Exec) spec(fn *ssa.Function, args []Val, st *State) Val {
	ex.quiet++
	ex.specDepth++
	save := ex.curInstr
	defer func() { ex.quiet--; ex.specDepth--; ex.curInstr = save }()
	s := st.clone()
	s.dead = false
	r := ex.evalPure(fn, args, nil, s, nil)
	if len(r) == 0 {
		return True
	}
	return r[0]
}

func (ex *Exec) isSpecFile(fn *ssa.Function) bool {
	if fn.Pos() == token.NoPos {
		return false
	}
	return ex.L.SpecFiles[ex.L.Fset.Position(fn.Pos()).Filename]
}

func origin(fn *ssa.Function) *ssa.Function {
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

// extOf: the assumed contract of a dependency, preferably one written for the package under verification.
func (V *Verifier) extOf(c *Contract, name string) *Contract {
	if c != nil {
		if e := V.byExt[c.Pkg+":"+name]; e != nil {
			return e
		}
	}
	return V.byExt[name]
}

func (ex *Exec) contractOf(fn *ssa.Function) *Contract { return ex.V.byFn[fn] }

// call dispatches one call and passes the result (nil, a value, or a Tuple) on.
func (ex *Exec) call(fr *frame, st *State, c *ssa.CallCommon, instr *ssa.Call, k func(*State, Val)) {
	pos := c.Pos()
	var args []Val
	for _, a := range c.Args {
		args = append(args, ex.val(fr, st, a))
	}
	if c.IsInvoke() {
		ex.invoke(fr, st, c, ex.val(fr, st, c.Value), args, k)
		return
	}
	switch f := ex.val(fr, st, c.Value).(type) {
	case *Builtin:
		ex.builtin(fr, st, f.name, c, args, k)
	case *ssa.Function:
		ex.callFn(fr, st, f, args, nil, pos, k)
	case *Closure:
		ex.callFn(fr, st, f.fn, args, f.bind, pos, k)
	case *Term:
		if f == Nil {
			ex.safety(st, "call of nil function", False, pos)
			return
		}
		if sw, ok := ex.V.funcOf(f); ok {
			switch g := sw.(type) {
			case *ssa.Function:
				ex.callFn(fr, st, g, args, nil, pos, k)
				return
			case *Closure:
				ex.callFn(fr, st, g.fn, args, g.bind, pos, k)
				return
			}
		}
		if f.op == OIte {
			st1, st2 := st.clone(), st.clone()
			st1.assume(f.args[0])
			st2.assume(Not(f.args[0]))
			c1, c2 := f.args[1], f.args[2]
			for i, s := range []*State{st1, st2} {
				if s.dead {
					continue
				}
				ft := []*Term{c1, c2}[i]
				if sw, ok := ex.V.funcOf(ft); ok {
					switch g := sw.(type) {
					case *ssa.Function:
						ex.callFn(fr, s, g, args, nil, pos, k)
					case *Closure:
						ex.callFn(fr, s, g.fn, args, g.bind, pos, k)
					}
					continue
				}
				unsup("call of an unknown function value")
			}
			return
		}
		unsup("call of an unknown function value")
	default:
		unsup("call of %T", f)
	}
}

func retVal(rs []Val) Val {
	switch len(rs) {
	case 0:
		return nil
	case 1:
		return rs[0]
	}
	return Tuple(rs)
}

func (ex *Exec) callFn(fr *frame, st *State, fn *ssa.Function, args []Val, bind []Val, pos token.Pos, k func(*State, Val)) {
	name := origin(fn).Name()
	inSpecFile := ex.isSpecFile(origin(fn))
	if inSpecFile && strings.HasPrefix(name, "v") && ex.helper(fr, st, fn, name, args, k) {
		return
	}
	if c := ex.contractOf(fn); c != nil && bind == nil && !c.hasAttr("app") && !c.hasAttr("abstract") {
		if c.Lemma {
			ex.useContract(fr, st, c, fn, args, pos, k)
			return
		}
		if !inSpecFile && (ex.specDepth == 0 || c.Pure) {
			if c.Attrs["inline"] == "" && c.Broken == "" {
				ex.useContract(fr, st, c, fn, args, pos, k)
				return
			}
		}
	}
	if inSpecFile && (ex.V.isRecursive(fn) || ex.V.byFn[fn] != nil && (ex.V.byFn[fn].hasAttr("app") || ex.V.byFn[fn].hasAttr("abstract"))) {
		k(st, ex.specApp(st, fn, args))
		return
	}
	if fn.Blocks != nil && (fn.Pkg == nil || ex.L.Pkgs[fn.Pkg.Pkg.Path()] != nil || fn.Parent() != nil) {
		// a repository function without a contract: inline
		for _, f := range ex.stack {
			if f.fn == fn && bind == nil && !inSpecFile {
				unsup("recursive function %s without a contract", fn)
			}
		}
		if !inSpecFile && ex.specDepth == 0 {
			ex.inlined[fnKey(fn)] = true
		}
		if ex.specDepth > 0 || ex.pure > 0 || ex.V.syntacticallyPure(fn) {
			r := ex.evalPure(fn, args, bind, st, fr)
			if r == nil && !st.dead {
				if fn.Signature.Results().Len() > 0 {
					return // panics on every path
				}
			}
			if st.dead {
				return
			}
			k(st, retVal(r))
			return
		}
		nf := ex.newFrame(fn, args, bind, fr)
		ex.stack = append(ex.stack, nf)
		n := len(ex.stack)
		ex.runBlock(nf, st, nil, fn.Blocks[0], func(s *State, rs []Val) {
			saved := ex.stack
			ex.stack = append([]*frame{}, ex.stack[:n-1]...)
			k(s, retVal(rs))
			ex.stack = saved
		})
		ex.stack = ex.stack[:n-1]
		return
	}
	if c := ex.V.extOf(ex.c, origin(fn).String()); c != nil && (c.Pure || ex.specDepth == 0) {
		ex.useContract(fr, st, c, fn, args, pos, k)
		return
	}
	if ex.lib(fr, st, fn, args, pos, k) {
		return
	}
	unsup("no model for external function %s", fn)
}

func (V *Verifier) syntacticallyPure(fn *ssa.Function) bool {
	if r, ok := V.pureFn[fn]; ok {
		return r
	}
	V.pureFn[fn] = false
	ok := len(V.loopsOf(fn).heads) == 0 && fn.Recover == nil
	if ok {
	outer:
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					a := x.Addr
					for {
						if fa, ok := a.(*ssa.FieldAddr); ok {
							a = fa.X
							continue
						}
						if ia, ok := a.(*ssa.IndexAddr); ok {
							a = ia.X
							continue
						}
						break
					}
					if al, isA := a.(*ssa.Alloc); !isA || !isPrivate(al) {
						ok = false
						break outer
					}
				case *ssa.Alloc:
					if !isPrivate(x) {
						ok = false
						break outer
					}
				case *ssa.MapUpdate, *ssa.Send, *ssa.Defer, *ssa.Go, *ssa.Select, *ssa.MakeMap, *ssa.Panic, *ssa.Range, *ssa.Next:
					ok = false
					break outer
				case *ssa.Call:
					if x.Call.IsInvoke() {
						ok = false
						break outer
					}
					switch f := x.Call.Value.(type) {
					case *ssa.Builtin:
						switch f.Name() {
						case "len", "append", "cap", "ssa:wrapnilchk":
						default:
							ok = false
							break outer
						}
					case *ssa.Function:
						if V.byFn[f] != nil && !V.byFn[f].Pure {
							ok = false
							break outer
						}
						if V.byFn[f] != nil {
							continue
						}
						if f.Blocks != nil {
							if f == fn || !V.syntacticallyPure(f) {
								ok = false
								break outer
							}
						} else if c := V.byExt[origin(f).String()]; (c == nil || !c.Pure) && !pureLib(f.String()) {
							ok = false
							break outer
						}
					default:
						ok = false
						break outer
					}
				}
			}
		}
	}
	V.pureFn[fn] = ok
	return ok
}

// isRecursive: the function can reach itself through static calls.
func (V *Verifier) isRecursive(fn *ssa.Function) bool {
	if r, ok := V.recFn[fn]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	found := false
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || found {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g.Blocks != nil {
						if g == fn {
							found = true
							return
						}
						visit(g)
					}
				}
			}
		}
	}
	visit(fn)
	V.recFn[fn] = found
	return found
}

// reaches: static reachability among specification functions.
func (V *Verifier) reaches(a, b *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == b {
			return true
		}
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g.Blocks != nil && visit(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(a)
}

// verifySpec checks that a recursive specification function is well founded.
func (V *Verifier) verifySpec(fn *ssa.Function) *FuncResult {
	c := V.byFn[fn]
	r := &FuncResult{Key: "spec " + fn.Name(), Contract: c}
	var ex *Exec
	func() {
		defer func() {
			if x := recover(); x != nil {
				if u, ok := x.(unsupported); ok {
					r.Error = u.msg
					return
				}
				panic(x)
			}
		}()
		if !V.isRecursive(fn) {
			return
		}
		if c == nil {
			r.Error = "no measure for recursive specification function " + fn.Name()
			return
		}
		ex = V.newExec(c)
		ex.fn = fn
		st := ex.blankState()
		for _, p := range fn.Params {
			v := ex.freshOf("p_"+p.Name(), p.Type(), ex.top0)
			fixEpoch(v, ex.top0)
			ex.params = append(ex.params, Val(v))
		}
		for _, cl := range c.Clauses {
			if cl.Kind == "dec" && !cl.Loop && cl.Fn != nil {
				ex.specMeasure = ex.term(ex.spec(cl.Fn, ex.params, st))
			}
		}
		if ex.specMeasure == nil {
			r.Error = "no measure for recursive specification function " + fn.Name()
			return
		}
		c.NoSafety = true
		ex.evalPure(fn, ex.params, nil, st, nil)
		r.Obls = ex.obls
		V.discharge(ex, ex.obls, false)
	}()
	return r
}

func (c *Contract) hasAttr(k string) bool { _, ok := c.Attrs[k]; return ok }

// opaque: the contract under verification keeps the definition of this specification function folded
// (`attr opaque f,g`).
func (ex *Exec) opaque(app *Term) bool {
	if ex.c == nil || !ex.c.hasAttr("opaque") {
		return false
	}
	if ex.opaqueSet == nil {
		ex.opaqueSet = map[string]bool{}
		for _, n := range strings.Split(ex.c.Attrs["opaque"], ",") {
			ex.opaqueSet["spec_"+strings.TrimSpace(n)] = true
		}
	}
	if si := ex.V.specByName[app.name]; si != nil {
		return ex.opaqueSet["spec_"+si.fn.Name()]
	}
	return ex.opaqueSet[app.name]
}

// helper implements the contract helper functions.
func (ex *Exec) helper(fr *frame, st *State, fn *ssa.Function, name string, args []Val, k func(*State, Val)) bool {
	pred := func(f Val, arg *Term) *Term {
		var r []Val
		s := st.clone()
		switch g := f.(type) {
		case *Closure:
			r = ex.evalPure(g.fn, []Val{arg}, g.bind, s, fr)
		case *ssa.Function:
			r = ex.evalPure(g, []Val{arg}, nil, s, fr)
		default:
			unsup("predicate argument %T", f)
		}
		return ex.term(r[0])
	}
	switch name {
	case "vAll":
		lo, hi := ex.term(args[0]), ex.term(args[1])
		if lo.isInt() && hi.isInt() && hi.n-lo.n <= 8 {
			var cs []*Term
			for i := lo.n; i < hi.n; i++ {
				cs = append(cs, pred(args[2], Int(i)))
			}
			k(st, And(cs...))
			return true
		}
		bv := BoundVar(IntS)
		body := pred(args[2], bv)
		k(st, Forall(bv, And(Le(lo, bv), Lt(bv, hi)), body))
		return true
	case "vKeys":
		mt := under(fn.Signature.Params().At(0).Type()).(*types.Map)
		m := ex.term(args[0])
		has, _, _ := ex.mapGet(st, mt, m)
		bv := BoundVar(sortOf(mt.Key()))
		body := pred(args[1], bv)
		k(st, Forall(bv, And(Not(Eq(m, Nil)), Select(has, bv)), body))
		return true
	case "vAnyKey":
		mt := under(fn.Signature.Params().At(0).Type()).(*types.Map)
		bv := BoundVar(sortOf(mt.Key()))
		k(st, Forall(bv, True, pred(args[1], bv)))
		return true
	case "vAny":
		bv := BoundVar(RefS)
		k(st, Forall(bv, Not(Eq(bv, Nil)), pred(args[0], bv)))
		return true
	case "vOld":
		if ex.oldSt == nil || ex.noOld > 0 {
			unsup("vOld without an entry state")
		}
		s := st.clone()
		s.heap, s.globs = map[string]*Term{}, map[string]Val{}
		for k, v := range ex.oldSt.heap {
			s.heap[k] = v
		}
		for k, v := range ex.oldSt.globs {
			s.globs[k] = v
		}
		var r []Val
		switch g := args[0].(type) {
		case *Closure:
			r = ex.evalPure(g.fn, nil, g.bind, s, fr)
		case *ssa.Function:
			r = ex.evalPure(g, nil, nil, s, fr)
		default:
			unsup("argument of vOld")
		}
		k(st, r[0])
		return true
	case "vIn":
		k(st, Select(ex.term(args[0]), ex.term(args[1])))
		return true
	case "vFresh":
		k(st, Ge(ex.term(args[0]), ex.top0))
		return true
	case "vAlloc":
		k(st, Lt(ex.term(args[0]), st.top))
		return true
	case "vReader":
		k(st, mkSlice(ByteS, False, Select(ex.heapGet(st, "ghost:reader", StrS), ex.term(args[0]))))
		return true
	case "vSame":
		// identity of two slices as values
		k(st, Eq(sliceSeq(ex.term(args[0])), sliceSeq(ex.term(args[1]))))
		return true
	}
	return false
}

// ---------- contracts at call sites ----------

func (ex *Exec) useContract(fr *frame, st *State, c *Contract, fn *ssa.Function, args []Val, pos token.Pos, k func(*State, Val)) {
	for i := range args {
		if _, ok := args[i].(*Term); !ok {
			// an address of a private object or a function value
			if a, ok := args[i].(*Addr); ok && a.kind == aHeap && len(a.path) == 0 {
				args[i] = a.ref
				continue
			}
			if _, ok := args[i].(*Addr); ok {
				unsup("address argument passed to %s", c.Key)
			}
		}
	}
	if c.Lemma {
		hyp := []*Term{}
		args = append([]Val{}, args...)
		for _, cl := range c.Clauses {
			if cl.Kind == "let" {
				unsup("let in lemma %s", c.Key)
			}
		}
		for _, cl := range c.Clauses {
			if cl.Kind == "requires" && cl.Fn != nil {
				hyp = append(hyp, ex.term(ex.spec(cl.Fn, args, st)))
			}
		}
		if c == ex.c {
			if ex.recMeasure == nil || ex.specDepth > 0 {
				unsup("recursive use of lemma %s without a measure", c.Key)
			}
			for _, cl := range c.Clauses {
				if cl.Kind == "dec" && !cl.Loop && cl.Fn != nil {
					m := ex.term(ex.spec(cl.Fn, args, st))
					ex.oblig(st, "dec", "recursion", Imp(And(hyp...), And(Le(Int(0), ex.recMeasure), Lt(m, ex.recMeasure))), pos, nil)
				}
			}
		} else if ex.c.Lemma && ex.V.reaches(fn, ex.c.Fn) {
			unsup("mutually recursive lemmas %s and %s", c.Key, ex.c.Key)
		}
		args = append(args, True)
		var con []*Term
		for _, cl := range c.Clauses {
			if cl.Kind == "ensures" && cl.Fn != nil {
				con = append(con, ex.term(ex.spec(cl.Fn, args, st)))
			}
		}
		ex.usedContracts[c.Key] = true
		fact := Imp(And(hyp...), And(con...))
		if ex.specDepth > 0 && fact != True {
			// a lemma holds for every value of the variables of the quantifiers around its use
			c := fact
			for _, v := range openVars(fact) {
				c = Forall(v, True, c)
			}
			ex.sideFacts = append(ex.sideFacts, c)
		}
		st.assume(fact)
		k(st, True)
		return
	}
	if ex.specDepth == 0 {
		ex.usedContracts[c.Key] = true
	}
	// preconditions
	if ex.specDepth == 0 {
		for _, cl := range c.Clauses {
			if cl.Kind == "requires" {
				if cl.Fn == nil {
					unsup("contract clause of %s is unusable", c.Key)
				}
				ex.oblig(st, "requires", c.Name+"."+cl.Label+"@"+ex.posStr(pos), ex.term(ex.spec(cl.Fn, args, st)), pos, nil)
				st.assume(ex.term(ex.spec(cl.Fn, args, st)))
			}
		}
		if st.dead {
			return
		}
		// recursion measure
		if c == ex.c && ex.recMeasure != nil {
			for _, cl := range c.Clauses {
				if cl.Kind == "dec" && !cl.Loop && cl.Fn != nil {
					m := ex.term(ex.spec(cl.Fn, args, st))
					ex.oblig(st, "dec", "recursion", And(Le(Int(0), ex.recMeasure), Lt(m, ex.recMeasure)), pos, nil)
				}
			}
		}
	}
	var lets []Val
	for _, cl := range c.Clauses {
		if cl.Kind == "let" {
			lets = append(lets, ex.spec(cl.Fn, args, st))
		}
	}
	oldTop := st.top
	preSt := st.clone()
	var res []Val
	rt := fn.Signature.Results()
	if c.Pure {
		var ta []*Term
		for _, a := range args {
			ta = append(ta, ex.term(a))
		}
		ta = append(ta, ex.pureHeapArgs(st, c, fn)...)
		for i := 0; i < rt.Len(); i++ {
			n := fmt.Sprintf("fn_%s_%d", sanitize(strings.TrimPrefix(c.Key, modPath)), i)
			if c.Ext != "" {
				n = fmt.Sprintf("%s_%d", c.Name, i)
			}
			res = append(res, structured(rt.At(i).Type(), App(n, sortOf(rt.At(i).Type()), ta...)))
		}
	} else {
		// frame
		var mods []modTarget
		for _, cl := range c.Clauses {
			if cl.Kind == "modifies" {
				mods = append(mods, ex.modTargets(st, cl, args)...)
			}
		}
		nt := NewSym("#top", RefS, nil)
		st.assume(Le(oldTop, nt))
		st.top = nt
		for _, m := range mods {
			ex.applyMod(st, m)
		}
		for i := 0; i < rt.Len(); i++ {
			n := "R_" + c.Name
			res = append(res, ex.freshOf(n, rt.At(i).Type(), st.top))
		}
	}
	eargs := append(append([]Val{}, args...), res...)
	eargs = append(eargs, lets...)
	if ex.specDepth == 0 || c.Pure {
		saveTop0, saveOld := ex.top0, ex.oldSt
		ex.oldSt = preSt
		if !c.Pure {
			ex.top0 = oldTop
		}
		key := ""
		if c.Pure && len(res) > 0 {
			key = c.Key + "|" + ex.term(res[0]).String()
		}
		if key == "" || ex.specDepth == 0 || !ex.pureBusy[key] {
			if key != "" {
				ex.pureBusy[key] = true
			}
			var pre []*Term
			if ex.specDepth > 0 {
				for _, cl := range c.Clauses {
					if cl.Kind == "requires" {
						if cl.Fn == nil {
							unsup("contract clause of %s is unusable", c.Key)
						}
						pre = append(pre, ex.term(ex.spec(cl.Fn, args, st)))
					}
				}
			}
			for _, cl := range c.Clauses {
				if cl.Kind == "ensures" && cl.Fn != nil {
					e := ex.term(ex.spec(cl.Fn, eargs, st))
					if ex.specDepth > 0 {
						e = Imp(And(pre...), e)
						if !open(e) {
							ex.sideFacts = append(ex.sideFacts, e)
						}
					} else {
						ex.keepApart(e, cl.Label)
						st.assume(e)
					}
				}
			}
			delete(ex.pureBusy, key)
		}
		ex.top0, ex.oldSt = saveTop0, saveOld
	}
	if st.dead {
		return
	}
	k(st, retVal(res))
}

// pureHeapArgs: a pure contracted function that reads the heap depends on the heap maps it names
// with `attr reads key1,key2`.
func (ex *Exec) pureHeapArgs(st *State, c *Contract, fn *ssa.Function) []*Term {
	if c.Attrs["reads"] == "" {
		return nil
	}
	var out []*Term
	for _, k := range strings.Split(c.Attrs["reads"], ",") {
		k = strings.TrimSpace(k)
		h, ok := st.heap[k]
		if !ok {
			if s := ex.V.keySort(k); s != nil {
				h = ex.heapGet(st, k, s)
			} else {
				unsup("unknown heap key %s in %s", k, c.Key)
			}
		}
		out = append(out, h)
	}
	return out
}

type modTarget struct {
	addr *Addr
	mapT *types.Map
	m    *Term
	any  string // heap key prefix
	fs   bool
	objT types.Type
}

func (ex *Exec) modTargets(st *State, cl *Clause, args []Val) []modTarget {
	switch {
	case cl.Text == "nothing":
		return nil
	case cl.Text == "fs":
		return []modTarget{{fs: true}}
	case strings.HasPrefix(cl.Text, "any "):
		return []modTarget{{any: strings.TrimSpace(cl.Text[4:])}}
	}
	if cl.Fn == nil {
		unsup("modifies clause %q is unusable", cl.Text)
	}
	v := ex.spec(cl.Fn, args, st)
	if strings.HasPrefix(cl.Text, "map(") {
		t := ex.term(v)
		// boxed map
		if !isBox(t) {
			unsup("modifies %s", cl.Text)
		}
		mt := under(typeByID[boxTags[t.name]]).(*types.Map)
		return []modTarget{{mapT: mt, m: t.args[0]}}
	}
	if a, ok := v.(*Addr); ok {
		return []modTarget{{addr: a}}
	}
	t := ex.term(v)
	if isBox(t) {
		pt := typeByID[boxTags[t.name]].(*types.Pointer)
		return []modTarget{{addr: &Addr{kind: aHeap, ref: t.args[0], root: pt.Elem(), typ: pt.Elem()}}}
	}
	unsup("modifies %s", cl.Text)
	return nil
}

func (ex *Exec) applyMod(st *State, m modTarget) {
	switch {
	case m.fs:
		ex.fsHavoc(st)
	case m.any != "":
		for _, k := range ex.V.keysMatching(ex, st, m.any) {
			h := st.heap[k]
			st.heap[k] = NewSym("LH_"+k, h.sort, st.top)
			st.writes = &write{key: k, ref: nil, prev: st.writes}
		}
	case m.mapT != nil:
		ks, vs := sortOf(m.mapT.Key()), sortOf(m.mapT.Elem())
		n := NewSym("maplen", IntS, st.top)
		st.assume(Le(Int(0), n))
		ex.mapSet(st, m.mapT, m.m, NewSym("maphas", ArrayOf(ks, BoolS), st.top), NewSym("mapval", ArrayOf(ks, vs), st.top), n)
	case m.addr != nil:
		ex.store(st, m.addr, ex.freshOf("M", m.addr.typ, st.top))
	}
}

// checkModifies verifies at function exit that everything written is covered by the contract.
func (ex *Exec) checkModifies(st *State, entry *State) {
	allowed := map[string]map[*Term]bool{}
	anyKey := []string{}
	fs := false
	for _, cl := range ex.c.Clauses {
		if cl.Kind != "modifies" {
			continue
		}
		for _, m := range ex.modTargets(entry, cl, ex.params) {
			switch {
			case m.fs:
				fs = true
			case m.any != "":
				anyKey = append(anyKey, m.any)
			case m.mapT != nil:
				a, b, c := mapKeys(m.mapT)
				for _, k := range []string{a, b, c} {
					addAllowed(allowed, k, m.m)
				}
			case m.addr != nil:
				if m.addr.kind == aGlobal {
					addAllowed(allowed, "global:"+m.addr.glob.String(), Int(0))
				} else {
					ex.allowFields(allowed, m.addr)
				}
			}
		}
	}
	done := map[string]bool{}
	for w := st.writes; w != nil; w = w.prev {
		id := w.key
		if w.ref != nil {
			id += fmt.Sprint("|", w.ref.id)
		} else if w.fresh {
			id += "|fresh"
		}
		if done[id] {
			continue
		}
		done[id] = true
		if w.key == "fs" {
			if !fs {
				ex.oblig(st, "modifies", "file system", False, ex.fn.Pos(), nil)
			}
			continue
		}
		if matchesAny(anyKey, w.key) {
			continue
		}
		if w.ref == nil && w.fresh {
			continue
		}
		if w.ref == nil {
			ex.oblig(st, "modifies", w.key+" (unbounded)", False, ex.fn.Pos(), nil)
			continue
		}
		if allowed[w.key][w.ref] {
			continue
		}
		var alts []*Term
		if !strings.HasPrefix(w.key, "global:") {
			alts = append(alts, Ge(w.ref, ex.top0))
			if tb, _, ok := topForm(w.ref); ok {
				_ = tb
				alts = append(alts, True) // allocated during the call
			}
		}
		for r := range allowed[w.key] {
			alts = append(alts, Eq(w.ref, r))
		}
		ex.oblig(st, "modifies", w.key, Or(alts...), ex.fn.Pos(), nil)
	}
}
func addAllowed(m map[string]map[*Term]bool, k string, r *Term) {
	if m[k] == nil {
		m[k] = map[*Term]bool{}
	}
	m[k][r] = true
}
func (ex *Exec) allowFields(m map[string]map[*Term]bool, a *Addr) {
	k, t := fieldKey(a.root, a.path)
	if su, ok := under(t).(*types.Struct); ok {
		for i := 0; i < su.NumFields(); i++ {
			n := *a
			n.path = append(append([]int{}, a.path...), i)
			ex.allowFields(m, &n)
		}
		return
	}
	if len(a.path) == 0 {
		k = "cell:" + k
	}
	addAllowed(m, k, a.ref)
}
func matchesAny(pats []string, key string) bool {
	for _, p := range pats {
		if key == p || strings.HasPrefix(key, p+".") || p == "heap" {
			return true
		}
	}
	return false
}

// ---------- specification functions ----------

type specInfo struct {
	fn    *ssa.Function
	name  string
	keys  []string // heap keys read
	sorts []*Sort
}

// specApp builds an application of a recursive specification function.
func (ex *Exec) specApp(st *State, fn *ssa.Function, args []Val) Val {
	si := ex.V.specInfoOf(ex, fn)
	if ex.specMeasure != nil && ex.quiet == 0 {
		if ex.V.reaches(fn, ex.fn) {
			var m *Term
			if c := ex.V.byFn[fn]; c != nil {
				for _, cl := range c.Clauses {
					if cl.Kind == "dec" && !cl.Loop && cl.Fn != nil {
						m = ex.term(ex.spec(cl.Fn, args, st))
					}
				}
			}
			if m == nil {
				ex.oblig(st, "dec", "no measure for "+fn.Name(), False, fn.Pos(), nil)
			} else {
				ex.oblig(st, "dec", "recursion to "+fn.Name(), And(Le(Int(0), m), Lt(m, ex.specMeasure)), fn.Pos(), nil)
			}
		}
	}
	var ta []*Term
	for _, a := range args {
		t := ex.term(a)
		if t.sort.Kind == SDT && t.sort == SliceOf(t.sort.DT.Sorts[len(t.sort.DT.Sorts)-1].Elem0()) {
			// specification functions see slices as sequences (never nil)
			t = mkSlice(t.sort.DT.Sorts[1].Elem, False, sliceSeq(t))
		}
		ta = append(ta, t)
	}
	for i, k := range si.keys {
		ta = append(ta, ex.heapGet(st, k, si.sorts[i]))
	}
	rt := fn.Signature.Results().At(0).Type()
	return structured(rt, appOp(OSpec, si.name, sortOf(rt), ta))
}

func (V *Verifier) specInfoOf(ex *Exec, fn *ssa.Function) *specInfo {
	if s, ok := V.specs[fn]; ok {
		return s
	}
	s := &specInfo{fn: fn, name: "spec_" + sanitize(fn.Name())}
	if old, dup := V.specByName[s.name]; dup && old.fn != fn {
		s.name += "_" + sanitize(fn.Pkg.Pkg.Name())
	}
	V.specs[fn] = s
	V.specByName[s.name] = s
	V.specBusy[fn] = true
	defer delete(V.specBusy, fn)
	// find the heap keys it reads: evaluate the body with symbolic arguments until stable
	for round := 0; round < 6; round++ {
		delete(ufTab, s.name)
		for g := range V.specs {
			if g != fn && V.reaches(g, fn) && V.reaches(fn, g) && !V.specBusy[g] {
				delete(V.specs, g) // depends on the keys of fn
			}
		}
		st := ex.blankState()
		var args []Val
		for _, p := range fn.Params {
			args = append(args, ex.freshOf("sp_"+p.Name(), p.Type(), st.top))
		}
		ex.specBody(fn, args, st)
		n := len(s.keys)
		have := map[string]bool{}
		for _, k := range s.keys {
			have[k] = true
		}
		var add []string
		for k := range st.heap {
			if !have[k] {
				add = append(add, k)
			}
		}
		sortStrings(add)
		for _, k := range add {
			s.keys = append(s.keys, k)
			s.sorts = append(s.sorts, st.heap[k].sort.Elem)
		}
		if len(s.keys) == n {
			break
		}
	}
	delete(ufTab, s.name)
	return s
}

// specBody evaluates the definition; st.heap accumulates the keys that were read.
func (ex *Exec) specBody(fn *ssa.Function, args []Val, st *State) Val {
	ex.quiet++
	ex.specDepth++
	ex.noOld++
	defer func() { ex.quiet--; ex.specDepth--; ex.noOld-- }()
	r := ex.evalPureShared(fn, args, st)
	if len(r) == 0 {
		unsup("specification function %s has no value", fn)
	}
	return r[0]
}

// evalPureShared keeps heap reads of all branches visible in st.heap.
func (ex *Exec) evalPureShared(fn *ssa.Function, args []Val, st *State) []Val {
	ex.sharedHeap = append(ex.sharedHeap, st.heap)
	defer func() { ex.sharedHeap = ex.sharedHeap[:len(ex.sharedHeap)-1] }()
	return ex.evalPure(fn, args, nil, st, nil)
}

func (ex *Exec) blankState() *State {
	return &State{cells: map[int]Val{}, cellT: map[int]types.Type{}, globs: map[string]Val{}, heap: map[string]*Term{}, top: ex.top0, iters: map[*ssa.Range]Val{}, defers: map[*frame][]*ssa.Defer{}}
}

// unfold returns app == body for a specification application.
func (ex *Exec) unfold(t *Term) *Term {
	if r, ok := ex.V.unfolded[t]; ok {
		return r
	}
	si := ex.V.specByName[t.name]
	if si == nil {
		return True
	}
	if c := ex.V.byFn[si.fn]; c != nil && c.hasAttr("abstract") {
		return True
	}
	st := ex.blankState()
	n := len(si.fn.Params)
	var args []Val
	for i := 0; i < n; i++ {
		args = append(args, structured(si.fn.Params[i].Type(), t.args[i]))
	}
	for i, k := range si.keys {
		st.heap[k] = t.args[n+i]
	}
	steps := ex.steps
	ex.steps = 0
	b := ex.term(ex.specBody(si.fn, args, st))
	ex.steps = steps
	r := eqStruct(t, b)
	ex.V.unfolded[t] = r
	return r
}

func eqStruct(a, b *Term) *Term {
	return intern(&Term{op: OEq, sort: BoolS, args: []*Term{a, b}})
}

// ---------- interface method calls ----------

func (ex *Exec) invoke(fr *frame, st *State, c *ssa.CallCommon, recv Val, args []Val, k func(*State, Val)) {
	r := ex.term(recv)
	m := c.Method
	full := m.FullName()
	ex.safety(st, "method call on nil interface", Not(Eq(r, Nil)), c.Pos())
	if st.dead {
		return
	}
	if isBox(r) {
		t := typeByID[boxTags[r.name]]
		if ms := ex.L.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name()); ms != nil {
			fn := ex.L.Prog.MethodValue(ms)
			if fn != nil {
				ex.callFn(fr, st, fn, append([]Val{r.args[0]}, args...), nil, c.Pos(), k)
				return
			}
		}
	}
	if c := ex.V.extOf(ex.c, full); c != nil && (c.Pure || ex.specDepth == 0) {
		ex.useContract(fr, st, c, &ssa.Function{Signature: m.Type().(*types.Signature)}, append([]Val{r}, args...), m.Pos(), k)
		return
	}
	if ex.libInvoke(fr, st, full, c, r, args, k) {
		return
	}
	unsup("dynamic call of %s", full)
}

// ---------- builtins ----------

func (ex *Exec) builtin(fr *frame, st *State, name string, c *ssa.CallCommon, args []Val, k func(*State, Val)) {
	switch name {
	case "len", "cap":
		switch t := under(c.Args[0].Type()).(type) {
		case *types.Basic:
			k(st, Len(ex.term(args[0])))
		case *types.Slice:
			if name == "cap" {
				unsup("cap")
			}
			k(st, Len(sliceSeq(ex.term(args[0]))))
		case *types.Map:
			m := ex.term(args[0])
			_, _, n := ex.mapGet(st, t, m)
			st.assume(Le(Int(0), n))
			k(st, Ite(Eq(m, Nil), Int(0), n))
		case *types.Array:
			k(st, Int(t.Len()))
		case *types.Pointer:
			k(st, Int(under(t.Elem()).(*types.Array).Len()))
		default:
			unsup("len of %s", t)
		}
	case "append":
		a := ex.term(args[0])
		el := sortOf(under(c.Args[0].Type()).(*types.Slice).Elem())
		var more *Term
		b := ex.term(args[1])
		if b.sort.Kind == SSeq {
			more = b
		} else {
			more = sliceSeq(b)
		}
		sq := Concat(sliceSeq(a), more)
		k(st, mkSlice(el, And(sliceNil(a), Eq(Len(more), Int(0))), sq))
	case "delete":
		mt := under(c.Args[0].Type()).(*types.Map)
		m := ex.term(args[0])
		s1, s2 := st.clone(), st.clone()
		s1.assume(Not(Eq(m, Nil)))
		s2.assume(Eq(m, Nil))
		if !s1.dead {
			ex.mapDelete(s1, mt, m, ex.term(args[1]))
			k(s1, nil)
		}
		if !s2.dead {
			k(s2, nil)
		}
	case "panic":
		ex.safety(st, "explicit panic", False, c.Pos())
	case "print", "println":
		k(st, nil)
	case "ssa:wrapnilchk":
		k(st, args[0])
	case "recover":
		k(st, Nil)
	case "min", "max":
		x, y := ex.term(args[0]), ex.term(args[1])
		if len(args) != 2 {
			unsup("min/max")
		}
		if name == "min" {
			k(st, Ite(Le(x, y), x, y))
		} else {
			k(st, Ite(Le(x, y), y, x))
		}
	default:
		unsup("builtin %s", name)
	}
}
