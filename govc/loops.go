package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	heads map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // head -> region
	order []*ssa.BasicBlock
}

func (V *Verifier) loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := V.loops[fn]; ok {
		return l
	}
	l := &loopInfo{heads: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	V.loops[fn] = l
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				reg := l.heads[s]
				if reg == nil {
					reg = map[*ssa.BasicBlock]bool{s: true}
					l.heads[s] = reg
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if reg[x] {
						return
					}
					reg[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	for _, b := range fn.Blocks {
		if l.heads[b] != nil {
			l.order = append(l.order, b)
		}
	}
	return l
}

type havocSet struct {
	cells map[int]bool
	heap  map[string]map[*Term]bool // refs that are loop invariant
	any   map[string]bool
	globs map[string]bool
	iters map[*ssa.Range]bool
	top   bool
	// keys of any whose unlisted writes only touch objects allocated since the function's entry
	fresh map[string]bool
}

func freshID(loopID, key string) string { return "fresh/" + loopID + "/" + key }

func newHavoc() *havocSet {
	return &havocSet{cells: map[int]bool{}, heap: map[string]map[*Term]bool{}, any: map[string]bool{}, globs: map[string]bool{}, iters: map[*ssa.Range]bool{}, fresh: map[string]bool{}}
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func isBool(t types.Type) bool { return sortOf(t) == BoolS }

func (ex *Exec) applyHavoc(fr *frame, st *State, head *ssa.BasicBlock, region map[*ssa.BasicBlock]bool, hv *havocSet, inits map[*ssa.Phi]Val, hname string) {
	oldTop := st.top
	if hv.top {
		nt := NewSym("#top", RefS, nil)
		st.assume(Le(oldTop, nt))
		st.top = nt
	}
	for _, p := range phisOf(head) {
		v, isT := inits[p].(*Term)
		if !isT {
			// a non-term phi (closure or address) must be loop invariant
			fr.env[p] = inits[p]
			continue
		}
		_ = v
		n := p.Comment
		if n == "" {
			n = p.Name()
		}
		s := ex.freshOf("L_"+n, p.Type(), st.top)
		fr.env[p] = s
		ex.autoPhi(st, fr, head, region, p, s, v)
	}
	for id := range hv.cells {
		t := st.cellT[id]
		n := "cell"
		if a := cellInfo[id]; a != nil {
			n = a.Comment
		}
		st.cells[id] = ex.freshOf("L_"+n, t, st.top)
	}
	keys := map[string]bool{}
	for k := range hv.heap {
		keys[k] = true
	}
	for k := range hv.any {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		h := st.heap[k]
		if h == nil {
			if ih, ok := ex.initHeap[k]; ok {
				h = ih
			} else {
				continue
			}
		}
		sym := NewSym("LH_"+k, h.sort, st.top)
		if hv.any[k] && !hv.fresh[k] {
			st.heap[k] = sym
			st.writes = &write{key: k, ref: nil, prev: st.writes}
			continue
		}
		var exc []*Term
		for r := range hv.heap[k] {
			exc = append(exc, r)
		}
		sort.Slice(exc, func(i, j int) bool { return exc[i].id < exc[j].id })
		if hv.any[k] {
			st.heap[k] = Frame(h, sym, ex.top0, exc)
			st.writes = &write{key: k, prev: st.writes, fresh: true}
		} else {
			st.heap[k] = Frame(h, sym, oldTop, exc)
		}
		for _, r := range exc {
			st.writes = &write{key: k, ref: r, prev: st.writes}
		}
	}
	var gs []string
	for g := range hv.globs {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		if t, ok := st.globs[g].(*Term); ok {
			st.globs[g] = NewSym("LG_"+g, t.sort, st.top)
			st.writes = &write{key: "global:" + g, ref: Int(0), prev: st.writes}
		} else {
			unsup("loop modifies global %s of an unsupported kind", g)
		}
	}
	for r := range hv.iters {
		t, ok := st.iters[r].(*Term)
		if !ok {
			continue
		}
		s := NewSym("L_iter", t.sort, st.top)
		st.iters[r] = s
		if t.sort == IntS {
			st.assume(Le(Int(0), s))
			if it, ok := fr.env[r].(*strIter); ok {
				st.assume(Le(s, Len(it.s)))
			}
		}
	}
}

// autoPhi assumes facts about counting phis that are inductive by construction.
func (ex *Exec) autoPhi(st *State, fr *frame, head *ssa.BasicBlock, region map[*ssa.BasicBlock]bool, p *ssa.Phi, s, init *Term) {
	if s.sort.Kind != SInt || s.sort.Ref || s.sort == IfaceS {
		return
	}
	if b, ok := under(p.Type()).(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return
	}
	up := true
	var stepped []*ssa.BinOp
	for i, e := range p.Edges {
		if !region[head.Preds[i]] {
			continue
		}
		if !countsUp(e, p, 0, &stepped) {
			up = false
		}
	}
	if !up {
		return
	}
	st.assume(Le(init, s))
	// range loop: the increment is compared with a bound computed outside the loop
	if p.Comment == "rangeindex" && len(stepped) == 1 {
		inc := stepped[0]
		if inc.Block() == head {
			if iff, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If); ok {
				if c, ok := iff.Cond.(*ssa.BinOp); ok && c.Op == token.LSS && c.X == inc {
					if in, ok := c.Y.(ssa.Instruction); !ok || !region[in.Block()] {
						if bt, ok := ex.val(fr, st, c.Y).(*Term); ok {
							st.assume(Or(Le(AddN(s, 1), bt), Eq(s, init)))
						}
					}
				}
			}
		}
	}
}
func countsUp(v ssa.Value, p *ssa.Phi, d int, stepped *[]*ssa.BinOp) bool {
	if d > 6 {
		return false
	}
	if v == p {
		return true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op != token.ADD {
			return false
		}
		if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Int64() >= 0 {
			if countsUp(x.X, p, d+1, stepped) {
				*stepped = append(*stepped, x)
				return true
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e == x {
				continue
			}
			if !countsUp(e, p, d+1, stepped) {
				return false
			}
		}
		return true
	}
	return false
}

// declaredAny: the contract allows the function to write any object's field.
func (ex *Exec) declaredAny(key string) bool {
	for _, cl := range ex.c.Clauses {
		if cl.Kind == "modifies" && strings.HasPrefix(cl.Text, "any ") && matchesAny([]string{strings.TrimSpace(cl.Text[4:])}, key) {
			return true
		}
	}
	return false
}

func maxEpoch(t *Term) int { return t.epoch }

func (ex *Exec) enterLoop(fr *frame, st *State, prev, head *ssa.BasicBlock, k contF) {
	region := fr.loops.heads[head]
	ex.bindPhis(fr, st, prev, head)
	phis := phisOf(head)
	inits := map[*ssa.Phi]Val{}
	for _, p := range phis {
		inits[p] = fr.env[p]
	}
	loopID := fmt.Sprintf("%s#%d", fnKey(fr.fn), headIndex(fr.loops, head))
	entry := st.clone()
	marker := epochCtr
	markWrites := entry.writes
	hv := newHavoc()
	for round := 0; ; round++ {
		if round > 12 {
			unsup("loop havoc set does not stabilise")
		}
		changed := false
		s := entry.clone()
		ex.applyHavoc(fr, s, head, region, hv, inits, loopID)
		base := s.clone()
		baseWrites := s.writes
		lr := &loopRun{fr: fr, head: head, region: region, dry: true}
		lr.onBack = func(b *State, pb *ssa.BasicBlock) {
			for id, v := range base.cells {
				if b.cells[id] != v && !hv.cells[id] {
					if vt, ok := v.(*Term); ok {
						if bt, ok := b.cells[id].(*Term); ok && bt == vt {
							continue
						}
					} else {
						unsup("loop changes a non-term variable")
					}
					hv.cells[id] = true
					changed = true
				}
			}
			for g, v := range b.globs {
				if bv, ok := base.globs[g]; ok && bv != v && !hv.globs[g] {
					hv.globs[g] = true
					changed = true
				} else if !ok {
					// first touched inside the loop: compare with its initial value
					if init, ok2 := ex.initHeap["global:"+g]; ok2 && v != Val(init) && !hv.globs[g] {
						hv.globs[g] = true
						entry.globs[g] = init
						changed = true
					}
				}
			}
			for r, v := range b.iters {
				if bv, ok := base.iters[r]; ok && bv != v && !hv.iters[r] {
					hv.iters[r] = true
					changed = true
				}
			}
			if b.top != base.top && !hv.top {
				hv.top = true
				changed = true
			}
			for w := b.writes; w != baseWrites && w != nil; w = w.prev {
				if strings.HasPrefix(w.key, "global:") {
					continue
				}
				if entry.heap[w.key] == nil {
					if ih := ex.initHeap[w.key]; ih != nil {
						entry.heap[w.key] = ih
					}
				}
				if hv.any[w.key] && !hv.fresh[w.key] {
					continue
				}
				if w.ref == nil {
					if w.fresh && !ex.declaredAny(w.key) && (hv.fresh[w.key] || !hv.any[w.key] && !ex.dropped[freshID(loopID, w.key)]) {
						if !hv.any[w.key] {
							hv.any[w.key], hv.fresh[w.key] = true, true
							changed = true
						}
						continue
					}
					hv.any[w.key] = true
					delete(hv.fresh, w.key)
					changed = true
					continue
				}
				if maxEpoch(w.ref) <= marker {
					if hv.heap[w.key] == nil {
						hv.heap[w.key] = map[*Term]bool{}
					}
					if !hv.heap[w.key][w.ref] {
						hv.heap[w.key][w.ref] = true
						changed = true
					}
					continue
				}
				if tb, _, ok := topForm(w.ref); ok && tb.epoch > marker {
					// allocated inside the loop: covered by the frame limit
					if hv.heap[w.key] == nil {
						hv.heap[w.key] = map[*Term]bool{}
						changed = true
					}
					continue
				}
				if !hv.any[w.key] {
					hv.any[w.key] = true
					hv.fresh[w.key] = !ex.dropped[freshID(loopID, w.key)] && !ex.declaredAny(w.key)
					changed = true
				}
			}
			// phis holding non-terms must not change
			idx := -1
			for i, p := range head.Preds {
				if p == pb {
					idx = i
				}
			}
			for _, p := range phis {
				if _, isT := inits[p].(*Term); !isT {
					if ex.val(fr, b, p.Edges[idx]) != inits[p] {
						unsup("loop-carried function or address value")
					}
				}
			}
		}
		ex.quiet++
		ex.dry = append(ex.dry, lr)
		nside := len(ex.sideFacts)
		func() {
			defer func() { ex.dry = ex.dry[:len(ex.dry)-1]; ex.quiet-- }()
			ex.runInstrs(fr, s, head, 0, func(*State, []Val) {})
		}()
		ex.sideFacts = ex.sideFacts[:nside]
		if !changed {
			break
		}
	}
	// re-bind phis to their initial values for the entry obligations
	for _, p := range phis {
		fr.env[p] = inits[p]
	}
	st = entry
	_ = markWrites
	insts := ex.instances(fr, st, head, loopID)
	for _, in := range insts {
		if in.cl.Kind != "inv" || ex.dropped[in.id] {
			continue
		}
		g, ok := ex.evalInst(in, fr, st)
		if !ok {
			ex.dropped[in.id] = true
			continue
		}
		ex.obligInv(st, "inv-entry", in, ex.term(g), head)
	}
	pre := st.clone()
	ex.applyHavoc(fr, st, head, region, hv, inits, loopID)
	// candidates: integer fields written by the loop only grow
	type growing struct {
		id, key string
		ref     *Term
	}
	var grow []growing
	for _, key := range sortedKeys(hv.heap) {
		var rs []*Term
		for r := range hv.heap[key] {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
		for i, r := range rs {
			h, h0 := st.heap[key], pre.heap[key]
			if h == nil || h0 == nil || h.sort.Elem == nil || h.sort.Elem.Kind != SInt || h.sort.Elem.Ref || h.sort.Elem == IfaceS {
				continue
			}
			g := growing{fmt.Sprintf("grow/%s/%s/%d", loopID, key, i), key, r}
			if !ex.dropped[g.id] {
				grow = append(grow, g)
				st.assume(Le(Select(h0, r), Select(h, r)))
			}
		}
	}
	for _, in := range insts {
		if in.cl.Kind != "inv" || ex.dropped[in.id] {
			continue
		}
		if g, ok := ex.evalInst(in, fr, st); ok {
			t := ex.term(g)
			ex.keepApart(t, in.cl.Label)
			st.assume(t)
		}
	}
	if st.dead {
		return
	}
	type dm struct {
		in *invInst
		m  *Term
	}
	var decs []dm
	for _, in := range insts {
		if in.cl.Kind == "dec" && !ex.dropped[in.id] {
			if g, ok := ex.evalInst(in, fr, st); ok {
				decs = append(decs, dm{in, ex.term(g)})
			}
		}
	}
	if !autoTerminates(head, region) {
		if len(decs) == 0 && ex.decNeeded[loopID] == "" {
			ex.decNeeded[loopID] = ex.posStr(head.Instrs[0].Pos())
		}
	}
	lr := &loopRun{fr: fr, head: head, region: region}
	havocWrites := st.writes
	lr.onBack = func(b *State, pb *ssa.BasicBlock) {
		for w := b.writes; w != havocWrites && w != nil; w = w.prev {
			if w.ref == nil || !hv.any[w.key] || !hv.fresh[w.key] || hv.heap[w.key][w.ref] {
				continue
			}
			if tb, _, ok := topForm(w.ref); ok && tb.epoch >= ex.top0.epoch {
				continue
			}
			n := len(ex.obls)
			ex.oblig(b, "inv-preserve", "fresh["+w.key+"]", Ge(w.ref, ex.top0), head.Instrs[0].Pos(), nil)
			for _, o := range ex.obls[n:] {
				o.InvID = freshID(loopID, w.key)
			}
		}
		for _, g := range grow {
			n := len(ex.obls)
			ex.oblig(b, "inv-preserve", g.id, Le(Select(pre.heap[g.key], g.ref), Select(b.heap[g.key], g.ref)), head.Instrs[0].Pos(), nil)
			for _, o := range ex.obls[n:] {
				o.InvID = g.id
			}
		}
		save := map[*ssa.Phi]Val{}
		for _, p := range phis {
			save[p] = fr.env[p]
		}
		ex.bindPhis(fr, b, pb, head)
		for _, in := range insts {
			if in.cl.Kind != "inv" || ex.dropped[in.id] {
				continue
			}
			g, ok := ex.evalInst(in, fr, b)
			if !ok {
				ex.dropped[in.id] = true
				continue
			}
			ex.obligInv(b, "inv-preserve", in, ex.term(g), head)
		}
		for _, d := range decs {
			g, ok := ex.evalInst(d.in, fr, b)
			if !ok {
				continue
			}
			m1 := ex.term(g)
			ex.obligInv(b, "dec", d.in, And(Le(Int(0), d.m), Lt(m1, d.m)), head)
		}
		for p, v := range save {
			fr.env[p] = v
		}
	}
	ex.dry = append(ex.dry, lr)
	defer func() { ex.dry = ex.dry[:len(ex.dry)-1] }()
	ex.runInstrs(fr, st, head, 0, k)
}

func (ex *Exec) obligInv(st *State, kind string, in *invInst, g *Term, head *ssa.BasicBlock) {
	n := len(ex.obls)
	var pos token.Pos
	for _, i := range head.Instrs {
		if i.Pos().IsValid() {
			pos = i.Pos()
			break
		}
	}
	ex.oblig(st, kind, in.cl.Label+"["+in.id+"]", g, pos, in.cl.Props)
	for _, o := range ex.obls[n:] {
		if kind == "dec" {
			o.DecID = in.id
		} else {
			o.InvID = in.id
		}
	}
}

func headIndex(l *loopInfo, h *ssa.BasicBlock) int {
	for i, b := range l.order {
		if b == h {
			return i
		}
	}
	return -1
}

func fnKey(fn *ssa.Function) string { return fn.String() }

// autoTerminates: range loops.
func autoTerminates(head *ssa.BasicBlock, region map[*ssa.BasicBlock]bool) bool {
	for _, p := range phisOf(head) {
		if p.Comment == "rangeindex" {
			return true
		}
	}
	for _, in := range head.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

// ---------- invariant instances ----------

type slot struct {
	name string
	typ  types.Type
	get  func(ex *Exec, fr *frame, st *State) Val
}

// slots lists the values an invariant may speak about at a loop head.
func (ex *Exec) slots(fr *frame, st *State, head *ssa.BasicBlock) []slot {
	var out []slot
	intT := types.Typ[types.Int]
	add := func(h *ssa.BasicBlock, tag string) {
		for _, p := range phisOf(h) {
			p := p
			n := p.Comment
			if n == "rangeindex" {
				out = append(out, slot{"k" + tag, intT, func(ex *Exec, fr *frame, st *State) Val {
					return AddN(ex.term(fr.env[p]), 1)
				}})
				continue
			}
			if n == "" {
				n = p.Name()
			}
			out = append(out, slot{n, p.Type(), func(ex *Exec, fr *frame, st *State) Val { return fr.env[p] }})
		}
		for _, in := range h.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if r, ok := nx.Iter.(*ssa.Range); ok {
					if nx.IsString {
						out = append(out, slot{"pos" + tag, intT, func(ex *Exec, fr *frame, st *State) Val { return st.iters[r] }})
					} else if mt, ok := under(r.X.Type()).(*types.Map); ok {
						if t := ex.vSetType(fr.fn, mt.Key()); t != nil {
							out = append(out, slot{"seen" + tag, t, func(ex *Exec, fr *frame, st *State) Val { return st.iters[r] }})
						}
					}
				}
			}
		}
	}
	add(head, "")
	// private variables
	seen := map[int]bool{}
	var ids []int
	collect := func(env map[ssa.Value]Val) {
		for v, x := range env {
			if _, ok := v.(*ssa.Alloc); !ok {
				if _, ok := v.(*ssa.FreeVar); !ok {
					continue
				}
			}
			if a, ok := x.(*Addr); ok && a.kind == aCell && len(a.path) == 0 && !seen[a.cell] {
				if _, live := st.cells[a.cell]; live {
					seen[a.cell] = true
					ids = append(ids, a.cell)
				}
			}
		}
	}
	collect(fr.env)
	sort.Ints(ids)
	for _, id := range ids {
		id := id
		n := "cell"
		if a := cellInfo[id]; a != nil {
			n = a.Comment
		}
		out = append(out, slot{n, st.cellT[id], func(ex *Exec, fr *frame, st *State) Val { return st.cells[id] }})
	}
	// enclosing loops
	for _, h := range fr.loops.order {
		if h != head && fr.loops.heads[h][head] {
			add(h, "o")
		}
	}
	// named values defined before the loop
	named := map[string]bool{}
	for _, s := range out {
		named[s.name] = true
	}
	// variables that live on the heap: their address
	for b := head.Idom(); b != nil; b = b.Idom() {
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || named[a.Comment] || !token.IsIdentifier(a.Comment) {
				continue
			}
			switch a.Comment {
			case "new", "complit", "slicelit", "makeslice", "varargs":
				continue
			}
			if _, ok := fr.env[a].(*Term); !ok {
				continue
			}
			named[a.Comment] = true
			out = append(out, slot{a.Comment, a.Type(), func(ex *Exec, fr *frame, st *State) Val { return fr.env[a] }})
		}
	}
	for b := head.Idom(); b != nil; b = b.Idom() {
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			d, ok := b.Instrs[i].(*ssa.DebugRef)
			if !ok || d.IsAddr {
				continue
			}
			id, ok := d.Expr.(*ast.Ident)
			if !ok || named[id.Name] {
				continue
			}
			if _, ok := d.X.(*ssa.Const); ok {
				continue
			}
			x := d.X
			if _, ok := fr.env[x]; !ok {
				continue
			}
			named[id.Name] = true
			out = append(out, slot{id.Name, x.Type(), func(ex *Exec, fr *frame, st *State) Val { return fr.env[x] }})
		}
	}
	for _, p := range fr.fn.Params {
		p := p
		if !named[p.Name()] {
			named[p.Name()] = true
			out = append(out, slot{p.Name(), p.Type(), func(ex *Exec, fr *frame, st *State) Val { return fr.env[p] }})
		}
	}
	return out
}

// vSetType is vSet[k] as declared by the contract wrappers of the package under verification.
func (ex *Exec) vSetType(fn *ssa.Function, key types.Type) types.Type {
	if ex.c == nil || ex.L.TPkgs[ex.c.Pkg] == nil {
		return nil
	}
	o := ex.L.TPkgs[ex.c.Pkg].Scope().Lookup("vSet")
	if o == nil {
		return nil
	}
	t, err := types.Instantiate(nil, o.Type(), []types.Type{key}, false)
	if err != nil {
		return nil
	}
	return t
}

// atLoop: N is a loop of a named function, $C#N one of the closure C.
func atLoop(loopID, at string) bool {
	if strings.HasPrefix(at, "$") {
		return strings.HasSuffix(loopID, at)
	}
	f, n, _ := strings.Cut(loopID, "#")
	return n == at && !strings.Contains(f, "$")
}

func (ex *Exec) instances(fr *frame, st *State, head *ssa.BasicBlock, loopID string) []*invInst {
	if ex.c == nil {
		return nil
	}
	var out []*invInst
	sl := ex.slots(fr, st, head)
	for ci, cl := range ex.c.Clauses {
		if cl.Kind != "inv" && cl.Kind != "dec" || cl.Fn == nil {
			continue
		}
		if cl.Kind == "dec" && len(cl.PNames) == 0 && !cl.Loop {
			continue // recursion measure
		}
		if cl.At != "" && !ex.phaseB && !atLoop(loopID, cl.At) {
			continue
		}
		nbase := len(cl.Fn.Params) - len(cl.PNames)
		want := cl.Fn.Params[nbase:]
		// candidates per parameter
		cands := make([][]slot, len(want))
		for i, w := range want {
			nm := strings.TrimRight(w.Name(), "_")
			var byName, byType []slot
			for _, s := range sl {
				if types.Identical(s.typ, w.Type()) {
					byType = append(byType, s)
					if s.name == nm {
						byName = append(byName, s)
					}
				}
			}
			if ex.phaseB {
				cands[i] = byType
			} else if len(byName) > 0 {
				cands[i] = byName[:1]
			}
		}
		n := 1
		for _, c := range cands {
			n *= len(c)
		}
		if n == 0 || n > 200 {
			continue
		}
		for j := 0; j < n; j++ {
			r := j
			var sel []slot
			id := fmt.Sprintf("%s/%d:", loopID, ci)
			dup := false
			for _, c := range cands {
				s := c[r%len(c)]
				r /= len(c)
				for _, o := range sel {
					if o.name == s.name {
						dup = true
					}
				}
				sel = append(sel, s)
				id += s.name + ","
			}
			if dup {
				continue
			}
			in := &invInst{id: id, cl: cl, fn: cl.Fn, head: head}
			for _, s := range sel {
				in.args = append(in.args, s.get)
			}
			out = append(out, in)
		}
	}
	return out
}

// keepApart: attr apart p:q|r,...: a fact whose label starts with p is a hypothesis of the obligations whose
// labels start with q or r only (p alone: p:p): leaving it out elsewhere is sound.
func (ex *Exec) keepApart(t *Term, label string) {
	if ex.c == nil {
		return
	}
	for _, l := range strings.Split(ex.c.Attrs["apart"], ",") {
		p, q, ok := strings.Cut(strings.TrimSpace(l), ":")
		if !ok {
			q = p
		}
		if p != "" && strings.HasPrefix(label, p) {
			ex.setApart(t, q)
			return
		}
	}
}

// keptFor: the fact is a hypothesis of the obligations of that label.
func (ex *Exec) keptFor(h *Term, label string) bool {
	q, ok := ex.apart[h]
	if !ok {
		return true
	}
	for _, p := range strings.Split(q, "|") {
		if strings.HasPrefix(label, p) {
			return true
		}
	}
	return false
}

func (ex *Exec) setApart(t *Term, label string) {
	if t.op == OAnd {
		for _, a := range t.args {
			ex.setApart(a, label)
		}
		return
	}
	if t == True || t == False {
		return
	}
	if ex.apart == nil {
		ex.apart = map[*Term]string{}
	}
	ex.apart[t] = label
}

func (ex *Exec) evalInst(in *invInst, fr *frame, st *State) (v Val, ok bool) {
	args := append([]Val{}, ex.params...)
	args = append(args, ex.lets...)
	for _, a := range in.args {
		x := a(ex, fr, st)
		if x == nil {
			return nil, false
		}
		if _, isT := x.(*Term); !isT {
			return nil, false
		}
		args = append(args, x)
	}
	return ex.spec(in.fn, args, st), true
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
