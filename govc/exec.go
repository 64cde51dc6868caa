package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- values ----------

type Val interface{}
type Tuple []Val
type Closure struct {
	fn   *ssa.Function
	bind []Val
}
type Builtin struct{ name string }

const (
	aCell = iota
	aHeap
	aGlobal
	aElem
)

type Addr struct {
	kind int
	cell int
	ref  *Term
	root types.Type // type of the object the ref points to
	path []int
	typ  types.Type // type stored at the address
	glob *ssa.Global
	seq  *Term // aElem: slice element (read only)
	idx  *Term
}

type strIter struct {
	s   *Term
	key *ssa.Range
}
type mapIter struct {
	m   *Term
	mt  *types.Map
	key *ssa.Range
}

type pcNode struct {
	t    *Term
	prev *pcNode
}
type write struct {
	key  string
	ref  *Term
	prev *write
	// without a reference: only objects allocated after the function's entry were written
	fresh bool
}

// State is one symbolic path.
type State struct {
	pc     *pcNode
	cells  map[int]Val
	cellT  map[int]types.Type
	globs  map[string]Val
	heap   map[string]*Term
	top    *Term
	iters  map[*ssa.Range]Val // string position / visited set
	writes *write
	dead   bool
	trace  *traceNode
	defers map[*frame][]*ssa.Defer
}
type traceNode struct {
	s    string
	prev *traceNode
}

func (s *State) clone() *State {
	n := *s
	n.cells = map[int]Val{}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.globs = map[string]Val{}
	for k, v := range s.globs {
		n.globs[k] = v
	}
	n.heap = map[string]*Term{}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.iters = map[*ssa.Range]Val{}
	for k, v := range s.iters {
		n.iters[k] = v
	}
	n.defers = map[*frame][]*ssa.Defer{}
	for k, v := range s.defers {
		n.defers[k] = v
	}
	return &n
}

var debugDead = os.Getenv("GOVC_DEAD") != ""

func (s *State) assume(t *Term) {
	if t == True || s.dead {
		return
	}
	if t == False {
		if debugDead {
			fmt.Println("DEAD: assumed false\n", string(debug.Stack()))
		}
		s.dead = true
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	nt := Not(t)
	for p := s.pc; p != nil; p = p.prev {
		if p.t == t {
			return
		}
		if p.t == nt {
			if debugDead {
				fmt.Println("DEAD: contradicts", t)
			}
			s.dead = true
			return
		}
	}
	s.pc = &pcNode{t, s.pc}
}
func (s *State) has(t *Term) bool {
	for p := s.pc; p != nil; p = p.prev {
		if p.t == t {
			return true
		}
	}
	return false
}
func (s *State) pcList() []*Term {
	var out []*Term
	for p := s.pc; p != nil; p = p.prev {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]Val
	parent   *frame
	depth    int
	loops    *loopInfo
	closure  *Closure
	entryTop *Term
}

// Oblig is one proof obligation.
type Oblig struct {
	Func, Kind, Label string
	Pos               token.Pos
	Hyps              []*Term
	Goal              *Term
	Props             []string
	Trace             string
	InvID             string
	DecID             string
	small             bool
	Unsupported       bool
	Cover             bool
	// results
	Status  string // proved, failed, unknown
	Backend string
	Ms      int64
	Model   string
	File    string
}

func (o *Oblig) Name() string { return o.Func + "/" + o.Kind + ":" + o.Label }

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// Exec verifies one function.
type Exec struct {
	L             *Loaded
	V             *Verifier
	c             *Contract
	fn            *ssa.Function
	obls          []*Oblig
	quiet         int // >0: no obligations (specs, dry runs)
	pure          int
	dry           []*loopRun
	params        []Val
	lets          []Val
	top0          *Term
	oldSt         *State // what vOld refers to
	noOld         int
	initHeap      map[string]*Term
	cellCtr       int
	invs          []*invInst
	dropped       map[string]bool
	phaseB        bool
	usedContracts map[string]bool
	usedTrusted   map[string]bool
	inlined       map[string]bool
	covers        int
	steps         int
	recMeasure    *Term
	retCount      int
	loopsSeen     map[string]bool
	decNeeded     map[string]string
	specDepth     int
	notes         map[string]bool
	curInstr      ssa.Instruction
	stack         []*frame
	pureBusy      map[string]bool
	specMeasure   *Term
	sideFacts     []*Term
	apart map[*Term]string
	sharedHeap    []map[string]*Term
	opaqueSet     map[string]bool
}

type invInst struct {
	id   string
	cl   *Clause
	fn   *ssa.Function
	head *ssa.BasicBlock
	args []func(ex *Exec, fr *frame, st *State) Val
}

type loopRun struct {
	fr     *frame
	head   *ssa.BasicBlock
	region map[*ssa.BasicBlock]bool
	onBack func(st *State, prev *ssa.BasicBlock)
	dry    bool
}

func (ex *Exec) oblig(st *State, kind, label string, goal *Term, pos token.Pos, props []string) {
	if ex.quiet > 0 || st.dead {
		return
	}
	if goal == True || st.has(goal) {
		ex.V.trivial[ex.c.Key]++
		return
	}
	if goal.op == OAnd {
		for i, g := range goal.args {
			_ = i
			ex.oblig(st, kind, label, g, pos, props)
		}
		return
	}
	tr := ""
	for t := st.trace; t != nil; t = t.prev {
		tr = t.s + " " + tr
	}
	ex.obls = append(ex.obls, &Oblig{Func: ex.c.Key, Kind: kind, Label: label, Pos: pos, Hyps: st.pcList(), Goal: goal, Props: props, Trace: tr})
}

// safety emits an implicit obligation and assumes it afterwards.
func (ex *Exec) safety(st *State, what string, goal *Term, pos token.Pos) {
	if ex.specDepth > 0 {
		return
	}
	if ex.c == nil || !ex.c.NoSafety {
		ex.oblig(st, "safety", what+"@"+ex.posStr(pos), goal, pos, nil)
	}
	st.assume(goal)
}
func (ex *Exec) posStr(pos token.Pos) string {
	if !pos.IsValid() && ex.curInstr != nil {
		pos = ex.curInstr.Parent().Pos()
	}
	p := ex.L.Fset.Position(pos)
	f := p.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// ---------- sorts of Go types ----------

func under(t types.Type) types.Type { return t.Underlying() }

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (ex *Exec) sortOf(t types.Type) *Sort { return sortOf(t) }

func sortOf(t types.Type) *Sort {
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "vSet" && n.TypeArgs().Len() == 1 {
		return ArrayOf(sortOf(n.TypeArgs().At(0)), BoolS)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return BoolS
		case types.Uint8:
			return ByteS
		case types.Int32, types.UntypedRune:
			return RuneS
		case types.Uint16:
			return U16S
		case types.Uint32:
			return U32S
		case types.Int8:
			return I8S
		case types.Int16:
			return I16S
		case types.String, types.UntypedString:
			return StrS
		}
		return IntS
	case *types.Pointer, *types.Map, *types.Chan:
		return RefS
	case *types.Interface:
		return IfaceS
	case *types.Signature:
		return IntS
	case *types.Slice:
		return SliceOf(sortOf(u.Elem()))
	case *types.Array:
		return SeqOf(sortOf(u.Elem()))
	case *types.Struct:
		var fs []string
		var ss []*Sort
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i).Name())
			ss = append(ss, sortOf(u.Field(i).Type()))
		}
		if len(fs) == 0 {
			fs, ss = []string{"unit"}, []*Sort{BoolS}
		}
		return DTOf("S:"+typeKey(t), fs, ss)
	case *types.Tuple:
		return nil
	}
	unsup("sort of type %s", t)
	return nil
}

func mkSlice(elem *Sort, nilT, seq *Term) *Term { return Cons(SliceOf(elem), nilT, seq) }
func sliceSeq(t *Term) *Term                    { return Sel(t, 1) }
func sliceNil(t *Term) *Term                    { return Sel(t, 0) }

func zeroTerm(t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Slice:
		e := sortOf(u.Elem())
		return mkSlice(e, True, Empty(SeqOf(e)))
	case *types.Array:
		e := sortOf(u.Elem())
		r := Empty(SeqOf(e))
		for i := int64(0); i < u.Len(); i++ {
			r = Concat(r, Unit(zeroTerm(u.Elem()), e))
		}
		return r
	case *types.Struct:
		s := sortOf(t)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroTerm(u.Field(i).Type()))
		}
		if len(as) == 0 {
			as = []*Term{False}
		}
		return Cons(s, as...)
	}
	switch sortOf(t).Kind {
	case SBool:
		return False
	case SSeq:
		return Empty(StrS)
	}
	return Int(0)
}

// fresh symbol of a Go type (structured so that projections simplify)
func (ex *Exec) freshOf(prefix string, t types.Type, top *Term) *Term {
	switch u := under(t).(type) {
	case *types.Slice:
		e := sortOf(u.Elem())
		sq := NewSym(prefix, SeqOf(e), top)
		return mkSlice(e, NewSym(prefix+"_nil", BoolS, top), sq)
	case *types.Struct:
		if u.NumFields() > 0 {
			var as []*Term
			for i := 0; i < u.NumFields(); i++ {
				as = append(as, ex.freshOf(prefix+"_"+u.Field(i).Name(), u.Field(i).Type(), top))
			}
			return Cons(sortOf(t), as...)
		}
	}
	return NewSym(prefix, sortOf(t), top)
}

// ---------- boxing ----------

var typeIDs = map[string]int64{}
var typeByID = map[int64]types.Type{}

func typeID(t types.Type) int64 {
	k := types.TypeString(t, nil)
	if id, ok := typeIDs[k]; ok {
		return id
	}
	id := int64(len(typeIDs) + 1)
	typeIDs[k] = id
	typeByID[id] = t
	return id
}
func box(t types.Type, v *Term) *Term {
	n := "box_" + sanitize(typeKey(t))
	boxTags[n] = typeID(t)
	boxSorts[n] = v.sort
	if _, ok := ufTab[n]; !ok {
		ufTab[n] = &UF{Name: n, Args: []*Sort{sortOf(t)}, Res: IfaceS}
	}
	return App(n, IfaceS, v)
}
func unbox(t types.Type, v *Term) *Term {
	n := "unbox_" + sanitize(typeKey(t))
	bn := n[2:]
	boxTags[bn] = typeID(t)
	return App(n, sortOf(t), v)
}
func typeOf(v *Term) *Term { return App("typeof", IntS, v) }

// ---------- heap ----------

func (ex *Exec) heapGet(st *State, key string, s *Sort) *Term {
	if h, ok := st.heap[key]; ok {
		return h
	}
	h, ok := ex.initHeap[key]
	if !ok {
		h = intern(&Term{op: OVar, sort: ArrayOf(RefS, s), name: "H_" + sanitize(key), epoch: 1, birth: ex.top0})
		for _, f := range ex.V.initFacts[key] {
			h = Store(h, f.ref, f.val)
		}
		ex.initHeap[key] = h
	}
	st.heap[key] = h
	for _, m := range ex.sharedHeap {
		if m[key] == nil {
			m[key] = h
		}
	}
	return h
}

func fieldKey(root types.Type, path []int) (string, types.Type) {
	t := root
	k := typeKey(root)
	for _, i := range path {
		f := under(t).(*types.Struct).Field(i)
		k += "." + f.Name()
		t = f.Type()
	}
	return k, t
}

func (ex *Exec) heapLoad(st *State, ref *Term, root types.Type, path []int) *Term {
	k, t := fieldKey(root, path)
	if su, ok := under(t).(*types.Struct); ok {
		var as []*Term
		for i := 0; i < su.NumFields(); i++ {
			as = append(as, ex.heapLoad(st, ref, root, append(append([]int{}, path...), i)))
		}
		if len(as) == 0 {
			as = []*Term{False}
		}
		return Cons(sortOf(t), as...)
	}
	if len(path) == 0 {
		k = "cell:" + k
	}
	return Select(ex.heapGet(st, k, sortOf(t)), ref)
}
func (ex *Exec) heapStore(st *State, ref *Term, root types.Type, path []int, v *Term) {
	k, t := fieldKey(root, path)
	if su, ok := under(t).(*types.Struct); ok {
		for i := 0; i < su.NumFields(); i++ {
			ex.heapStore(st, ref, root, append(append([]int{}, path...), i), Sel(v, i))
		}
		return
	}
	if len(path) == 0 {
		k = "cell:" + k
	}
	h := ex.heapGet(st, k, sortOf(t))
	st.heap[k] = Store(h, ref, v)
	st.writes = &write{key: k, ref: ref, prev: st.writes}
}

func (ex *Exec) alloc(st *State) *Term {
	r := st.top
	st.top = AddN(st.top, 1)
	// give it Ref-ness: top symbols have sort Ref; r may be top+k (Int sort) which is fine
	return r
}

// maps: three heap keys per map type
func mapKeys(mt *types.Map) (string, string, string) {
	k := typeKey(mt.Key()) + "," + typeKey(mt.Elem())
	return "maphas:" + k, "mapval:" + k, "maplen:" + k
}
func (ex *Exec) mapGet(st *State, mt *types.Map, m *Term) (has, val, n *Term) {
	kh, kv, kn := mapKeys(mt)
	ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
	has = Select(ex.heapGet(st, kh, ArrayOf(ks, BoolS)), m)
	val = Select(ex.heapGet(st, kv, ArrayOf(ks, vs)), m)
	n = Select(ex.heapGet(st, kn, IntS), m)
	return
}
func (ex *Exec) mapSet(st *State, mt *types.Map, m, has, val, n *Term) {
	kh, kv, kn := mapKeys(mt)
	ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
	st.heap[kh] = Store(ex.heapGet(st, kh, ArrayOf(ks, BoolS)), m, has)
	st.heap[kv] = Store(ex.heapGet(st, kv, ArrayOf(ks, vs)), m, val)
	st.heap[kn] = Store(ex.heapGet(st, kn, IntS), m, n)
	st.writes = &write{key: kh, ref: m, prev: st.writes}
	st.writes = &write{key: kv, ref: m, prev: st.writes}
	st.writes = &write{key: kn, ref: m, prev: st.writes}
}
func (ex *Exec) mapUpdate(st *State, mt *types.Map, m, k, v *Term) {
	has, val, n := ex.mapGet(st, mt, m)
	ex.mapSet(st, mt, m, Store(has, k, True), Store(val, k, v), Add(n, Ite(Select(has, k), Int(0), Int(1))))
}
func (ex *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	has, val, n := ex.mapGet(st, mt, m)
	ex.mapSet(st, mt, m, Store(has, k, False), val, Sub(n, Ite(Select(has, k), Int(1), Int(0))))
}
func (ex *Exec) newMap(st *State, mt *types.Map) *Term {
	r := ex.alloc(st)
	ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
	ex.mapSet(st, mt, r, ConstArr(ArrayOf(ks, BoolS), False), ConstArr(ArrayOf(ks, vs), zeroTerm(mt.Elem())), Int(0))
	return r
}

// ---------- addresses ----------

func (ex *Exec) load(st *State, a *Addr, pos token.Pos) Val {
	switch a.kind {
	case aCell:
		v := st.cells[a.cell]
		return project(v, st.cellT[a.cell], a.path)
	case aHeap:
		return ex.heapLoad(st, a.ref, a.root, a.path)
	case aGlobal:
		return project(ex.globalGet(st, a.glob), a.glob.Type().(*types.Pointer).Elem(), a.path)
	case aElem:
		v := Nth(a.seq, a.idx)
		return project(v, a.root, a.path)
	}
	panic("load")
}
func project(v Val, t types.Type, path []int) Val {
	for _, i := range path {
		tm, ok := v.(*Term)
		if !ok {
			unsup("projection of a non-term")
		}
		if _, isArr := under(t).(*types.Array); isArr {
			v = Nth(tm, Int(int64(i)))
			t = under(t).(*types.Array).Elem()
			continue
		}
		v = Sel(tm, i)
		t = under(t).(*types.Struct).Field(i).Type()
	}
	return v
}
func inject(v *Term, t types.Type, path []int, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	if at, ok := under(t).(*types.Array); ok {
		e := sortOf(at.Elem())
		r := Empty(SeqOf(e))
		for i := int64(0); i < at.Len(); i++ {
			x := Nth(v, Int(i))
			if i == int64(path[0]) {
				x = inject(x, at.Elem(), path[1:], nv)
			}
			r = Concat(r, Unit(x, e))
		}
		return r
	}
	su := under(t).(*types.Struct)
	var as []*Term
	for i := 0; i < su.NumFields(); i++ {
		x := Sel(v, i)
		if i == path[0] {
			x = inject(x, su.Field(i).Type(), path[1:], nv)
		}
		as = append(as, x)
	}
	return Cons(sortOf(t), as...)
}
func (ex *Exec) store(st *State, a *Addr, v Val) {
	switch a.kind {
	case aCell:
		if len(a.path) == 0 {
			st.cells[a.cell] = v
			return
		}
		cur, ok := st.cells[a.cell].(*Term)
		if !ok {
			unsup("store into part of a non-term cell")
		}
		st.cells[a.cell] = inject(cur, st.cellT[a.cell], a.path, ex.term(v))
	case aHeap:
		ex.heapStore(st, a.ref, a.root, a.path, ex.term(v))
	case aGlobal:
		k := a.glob.String()
		st.writes = &write{key: "global:" + k, ref: Int(0), prev: st.writes}
		if len(a.path) == 0 {
			st.globs[k] = v
			return
		}
		st.globs[k] = inject(ex.term(ex.globalGet(st, a.glob)), a.glob.Type().(*types.Pointer).Elem(), a.path, ex.term(v))
	case aElem:
		unsup("store into a slice element")
	}
}
func (ex *Exec) globalGet(st *State, g *ssa.Global) Val {
	k := g.String()
	if v, ok := st.globs[k]; ok {
		return v
	}
	v := ex.V.globalInit(ex, g)
	if v == nil {
		t := g.Type().(*types.Pointer).Elem()
		key := "global:" + k
		if h, ok := ex.initHeap[key]; ok {
			v = h
		} else {
			tm := ex.freshOf("G_"+g.Name(), t, ex.top0)
			fixEpoch(tm, ex.top0)
			ex.initHeap[key] = tm
			v = tm
		}
	}
	st.globs[k] = v
	return v
}

// fixEpoch makes lazily created entry symbols as old as the function entry.
func fixEpoch(t *Term, top *Term) {
	seen := map[*Term]bool{}
	walk(t, seen, func(x *Term) {
		if x.op == OVar && !strings.HasPrefix(x.name, "#top") {
			x.epoch, x.birth, x.bep = 1, top, 1
		} else if len(x.args) > 0 {
			x.epoch, x.bep = 0, 0
			for _, a := range x.args {
				if a.epoch >= x.epoch {
					x.epoch = a.epoch
				}
				if a.bep >= x.bep {
					x.bep, x.birth = a.bep, a.birth
				}
			}
		}
	})
}

func (ex *Exec) term(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *Addr:
		if x.kind == aHeap && len(x.path) == 0 {
			return x.ref
		}
		unsup("address of a variable or field used as a value")
	case *Closure, *ssa.Function, *Builtin:
		return ex.V.funcConst(v)
	}
	unsup("value %T used as a term", v)
	return nil
}

// addrOf turns a pointer value into an address.
func (ex *Exec) addrOf(st *State, v Val, ptrT types.Type, pos token.Pos) *Addr {
	switch x := v.(type) {
	case *Addr:
		return x
	case *Term:
		ex.safety(st, "nil dereference", Not(Eq(x, Nil)), pos)
		el := under(ptrT).(*types.Pointer).Elem()
		return &Addr{kind: aHeap, ref: x, root: el, typ: el}
	}
	unsup("address from %T", v)
	return nil
}

// ---------- private allocations ----------

var privCache = map[*ssa.Alloc]bool{}

func isPrivate(a *ssa.Alloc) bool {
	if r, ok := privCache[a]; ok {
		return r
	}
	privCache[a] = true // optimistic for recursion through closures
	r := privUses(a, map[ssa.Value]bool{})
	privCache[a] = r
	return r
}
func privUses(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if x.Val == v {
				return false
			}
		case *ssa.FieldAddr:
			if !privUses(x, seen) {
				return false
			}
		case *ssa.IndexAddr:
			if _, ok := x.Index.(*ssa.Const); !ok || x.X != v {
				return false
			}
			if !privUses(x, seen) {
				return false
			}
		case *ssa.Slice:
			if x.X != v {
				return false
			}
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && !privUses(fn.FreeVars[i], seen) {
					return false
				}
			}
			// the closure itself may be called, stored in a private cell, or passed to a call that is inlined
		case *ssa.DebugRef:
		case *ssa.Call:
			// pointer receiver of an inlined, contract-free method: allowed when only the receiver
			return false
		default:
			return false
		}
	}
	return true
}

// ---------- running functions ----------

type contF func(st *State, res []Val)

func (ex *Exec) newFrame(fn *ssa.Function, args []Val, bind []Val, parent *frame) *frame {
	d := 0
	if parent != nil {
		d = parent.depth + 1
	}
	if d > 40 {
		unsup("inlining too deep at %s", fn)
	}
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, parent: parent, depth: d, loops: ex.V.loopsOf(fn)}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = bind[i]
	}
	return fr
}

func (ex *Exec) val(fr *frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return x
	case *ssa.Builtin:
		return &Builtin{x.Name()}
	case *ssa.Global:
		return &Addr{kind: aGlobal, glob: x, typ: x.Type().(*types.Pointer).Elem()}
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("value %s of %s not available", v.Name(), fr.fn)
	}
	return r
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroTerm(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Lit(constant.StringVal(c.Value))
	case constant.Int:
		n, ok := constant.Int64Val(c.Value)
		if !ok {
			unsup("constant %s out of range", c)
		}
		return Int(n)
	case constant.Float:
		if b, ok := under(c.Type()).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			n, _ := constant.Int64Val(constant.ToInt(c.Value))
			return Int(n)
		}
	}
	return App("const_"+sanitize(c.String()), IntS)
}

func (ex *Exec) runBlock(fr *frame, st *State, prev, b *ssa.BasicBlock, k contF) {
	if st.dead {
		return
	}
	// leaving a loop that is being run dry?
	for i := len(ex.dry) - 1; i >= 0; i-- {
		lr := ex.dry[i]
		if lr.fr == fr {
			if b == lr.head && prev != nil && lr.region[prev] {
				lr.onBack(st, prev)
				return
			}
			if lr.dry && !lr.region[b] {
				return
			}
			if lr.region[b] {
				break
			}
			// real run left this loop: continue looking at outer loops
		}
	}
	if prev != nil && fr.loops.heads[b] != nil {
		if ex.pure > 0 {
			unsup("loop in a specification function %s", fr.fn)
		}
		ex.enterLoop(fr, st, prev, b, k)
		return
	}
	if prev != nil {
		ex.bindPhis(fr, st, prev, b)
	}
	ex.runInstrs(fr, st, b, 0, k)
}

func (ex *Exec) bindPhis(fr *frame, st *State, prev, b *ssa.BasicBlock) {
	var idx = -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, ex.val(fr, st, ph.Edges[idx]))
	}
	for i := range phis {
		fr.env[phis[i]] = vals[i]
	}
}

func (ex *Exec) runInstrs(fr *frame, st *State, b *ssa.BasicBlock, i int, k contF) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		ex.steps++
		if ex.steps > 3000000 {
			unsup("too many steps")
		}
		in := b.Instrs[i]
		ex.curInstr = in
		switch x := in.(type) {
		case *ssa.Phi:
			// already bound
		case *ssa.DebugRef:
		case *ssa.If:
			c := ex.term(ex.val(fr, st, x.Cond))
			st1, st2 := st, st.clone()
			st1 = st.clone()
			st1.assume(c)
			st2.assume(Not(c))
			if !st1.dead && !st2.dead {
				line := ex.posStr(x.Cond.Pos())
				st1.trace = &traceNode{"[" + line + " T]", st.trace}
				st2.trace = &traceNode{"[" + line + " F]", st.trace}
			}
			ex.runBlock(fr, st1, b, b.Succs[0], k)
			ex.runBlock(fr, st2, b, b.Succs[1], k)
			return
		case *ssa.Jump:
			ex.runBlock(fr, st, b, b.Succs[0], k)
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range x.Results {
				rs = append(rs, ex.val(fr, st, r))
			}
			k(st, rs)
			return
		case *ssa.Panic:
			ex.safety(st, "explicit panic", False, x.Pos())
			return
		case *ssa.Call:
			rest := func(st *State, v Val) {
				fr.env[x] = v
				ex.runInstrs(fr, st, b, i+1, k)
			}
			ex.call(fr, st, &x.Call, x, rest)
			return
		case *ssa.Defer:
			st.defers[fr] = append(append([]*ssa.Defer{}, st.defers[fr]...), x)
		case *ssa.RunDefers:
			ds := st.defers[fr]
			if len(ds) > 0 {
				d := ds[len(ds)-1]
				st.defers[fr] = ds[:len(ds)-1]
				ex.call(fr, st, &d.Call, nil, func(st *State, v Val) {
					ex.runInstrs(fr, st, b, i, k) // run the remaining ones
				})
				return
			}
		case *ssa.Store:
			a := ex.addrOf(st, ex.val(fr, st, x.Addr), x.Addr.Type(), x.Pos())
			v := ex.val(fr, st, x.Val)
			if st.dead {
				return
			}
			ex.store(st, a, v)
		case *ssa.MapUpdate:
			mt := under(x.Map.Type()).(*types.Map)
			m := ex.term(ex.val(fr, st, x.Map))
			ex.safety(st, "write to nil map", Not(Eq(m, Nil)), x.Pos())
			if st.dead {
				return
			}
			ex.mapUpdate(st, mt, m, ex.term(ex.val(fr, st, x.Key)), ex.term(ex.val(fr, st, x.Value)))
		case *ssa.Next:
			ex.next(fr, st, x, func(st *State, v Val) {
				fr.env[x] = v
				ex.runInstrs(fr, st, b, i+1, k)
			})
			return
		case *ssa.TypeAssert:
			ex.typeAssert(fr, st, x)
		case ssa.Value:
			fr.env[x] = ex.evalInstr(fr, st, x)
		default:
			unsup("instruction %T", in)
		}
	}
}

// evalPure runs a loop-free function to a single merged value.
func (ex *Exec) evalPure(fn *ssa.Function, args []Val, bind []Val, st *State, parent *frame) (res []Val) {
	if fn.Blocks == nil {
		unsup("no body for %s", fn)
	}
	ex.pure++
	defer func() { ex.pure-- }()
	fr := ex.newFrame(fn, args, bind, parent)
	return ex.pureBlock(fr, st, nil, fn.Blocks[0])
}

func (ex *Exec) pureBlock(fr *frame, st *State, prev, b *ssa.BasicBlock) []Val {
	if fr.loops.heads[b] != nil && prev != nil {
		unsup("loop in function %s evaluated as a specification", fr.fn)
	}
	if prev != nil {
		ex.bindPhis(fr, st, prev, b)
	}
	for i := 0; i < len(b.Instrs); i++ {
		ex.steps++
		if ex.steps > 3000000 {
			unsup("too many steps")
		}
		in := b.Instrs[i]
		ex.curInstr = in
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.RunDefers:
		case *ssa.If:
			c := ex.term(ex.val(fr, st, x.Cond))
			if c == True {
				return ex.pureBlock(fr, st, b, b.Succs[0])
			}
			if c == False {
				return ex.pureBlock(fr, st, b, b.Succs[1])
			}
			s1, s2 := st.clone(), st.clone()
			s1.assume(c)
			s2.assume(Not(c))
			if s1.dead {
				return ex.pureBlock(fr, st, b, b.Succs[1])
			}
			if s2.dead {
				return ex.pureBlock(fr, st, b, b.Succs[0])
			}
			r1 := ex.pureBlock(fr, s1, b, b.Succs[0])
			r2 := ex.pureBlock(fr, s2, b, b.Succs[1])
			if r1 == nil {
				return r2
			}
			if r2 == nil {
				return r1
			}
			out := make([]Val, len(r1))
			for j := range r1 {
				out[j] = iteVal(ex, c, r1[j], r2[j])
			}
			return out
		case *ssa.Jump:
			return ex.pureBlock(fr, st, b, b.Succs[0])
		case *ssa.Return:
			rs := []Val{}
			for _, r := range x.Results {
				rs = append(rs, ex.val(fr, st, r))
			}
			return rs
		case *ssa.Panic:
			ex.safety(st, "explicit panic", False, x.Pos())
			return nil
		case *ssa.Call:
			var got Val
			n := 0
			ex.call(fr, st, &x.Call, x, func(s2 *State, v Val) {
				if s2 != st {
					*st = *s2
				}
				got = v
				n++
			})
			if n != 1 {
				unsup("call of %s does not evaluate to one value in a specification", x.Call.Value)
			}
			fr.env[x] = got
		case *ssa.Store:
			a := ex.addrOf(st, ex.val(fr, st, x.Addr), x.Addr.Type(), x.Pos())
			if a.kind != aCell {
				unsup("store in a pure function")
			}
			ex.store(st, a, ex.val(fr, st, x.Val))
		case *ssa.TypeAssert:
			ex.typeAssert(fr, st, x)
		case ssa.Value:
			fr.env[x] = ex.evalInstr(fr, st, x)
		default:
			unsup("instruction %T in a pure function", in)
		}
	}
	return nil
}

func iteVal(ex *Exec, c *Term, a, b Val) Val {
	if a == b {
		return a
	}
	ta, ok1 := a.(Tuple)
	tb, ok2 := b.(Tuple)
	if ok1 && ok2 {
		out := Tuple{}
		for i := range ta {
			out = append(out, iteVal(ex, c, ta[i], tb[i]))
		}
		return out
	}
	x, y := ex.term(a), ex.term(b)
	return iteTerm(c, x, y)
}
func iteTerm(c, x, y *Term) *Term {
	if x.op == OCons && y.op == OCons && x.sort == y.sort {
		var as []*Term
		for i := range x.args {
			as = append(as, iteTerm(c, x.args[i], y.args[i]))
		}
		return Cons(x.sort, as...)
	}
	return Ite(c, x, y)
}

// ---------- instructions ----------

func wrapTo(t types.Type, v *Term) *Term {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return v
	}
	var bits int64
	signed := false
	switch b.Kind() {
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	case types.Int8:
		bits, signed = 8, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int32:
		bits, signed = 32, true
	default:
		return v
	}
	m := int64(1) << bits
	s := sortOf(t)
	if v.isInt() {
		n := ((v.n % m) + m) % m
		if signed && n >= m/2 {
			n -= m
		}
		return Int(n)
	}
	if v.sort.Ranged && v.sort.Lo >= s.Lo && v.sort.Hi <= s.Hi {
		return v
	}
	inRange := And(Le(Int(s.Lo), v), Le(v, Int(s.Hi)))
	if signed {
		return Ite(inRange, v, Sub(Mod(AddN(v, m/2), m), Int(m/2)))
	}
	return Ite(inRange, v, Mod(v, m))
}

func (ex *Exec) evalInstr(fr *frame, st *State, v ssa.Value) Val {
	get := func(x ssa.Value) Val { return ex.val(fr, st, x) }
	gt := func(x ssa.Value) *Term { return ex.term(ex.val(fr, st, x)) }
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		if isPrivate(x) {
			ex.cellCtr++
			id := ex.cellID(fr, x)
			st.cells[id] = zeroVal(t)
			st.cellT = withType(st.cellT, id, t)
			return &Addr{kind: aCell, cell: id, typ: t}
		}
		r := ex.alloc(st)
		if at, ok := under(t).(*types.Array); ok {
			_ = at
			unsup("escaping array")
		}
		ex.heapStore(st, r, t, nil, zeroTerm(t))
		return r
	case *ssa.FieldAddr:
		a := ex.addrOf(st, get(x.X), x.X.Type(), x.Pos())
		ft := under(a.typ).(*types.Struct).Field(x.Field).Type()
		n := *a
		n.path = append(append([]int{}, a.path...), x.Field)
		n.typ = ft
		return &n
	case *ssa.Field:
		return Sel(gt(x.X), x.Field)
	case *ssa.IndexAddr:
		idx := gt(x.Index)
		switch xt := under(x.X.Type()).(type) {
		case *types.Slice:
			s := gt(x.X)
			sq := sliceSeq(s)
			ex.safety(st, "index out of range", And(Le(Int(0), idx), Lt(idx, Len(sq))), x.Pos())
			return &Addr{kind: aElem, seq: sq, idx: idx, root: xt.Elem(), typ: xt.Elem()}
		case *types.Pointer:
			at := under(xt.Elem()).(*types.Array)
			a := ex.addrOf(st, get(x.X), x.X.Type(), x.Pos())
			if idx.isInt() {
				n := *a
				n.path = append(append([]int{}, a.path...), int(idx.n))
				n.typ = at.Elem()
				return &n
			}
			ex.safety(st, "index out of range", And(Le(Int(0), idx), Lt(idx, Int(at.Len()))), x.Pos())
			arr := ex.term(ex.load(st, a, x.Pos()))
			return &Addr{kind: aElem, seq: arr, idx: idx, root: at.Elem(), typ: at.Elem()}
		}
	case *ssa.Index:
		s, idx := gt(x.X), gt(x.Index)
		ex.safety(st, "index out of range", And(Le(Int(0), idx), Lt(idx, Len(s))), x.Pos())
		return Nth(s, idx)
	case *ssa.Lookup:
		if mt, ok := under(x.X.Type()).(*types.Map); ok {
			if u, ok := x.X.(*ssa.UnOp); ok && u.Op == token.MUL {
				if g, ok := u.X.(*ssa.Global); ok {
					if ps, ok := ex.V.mapLit(g); ok {
						key := gt(x.Index)
						h, r := False, zeroTerm(mt.Elem())
						for _, p := range ps {
							e := Eq(key, p.k)
							h, r = Or(h, e), iteTerm(e, p.v, r)
						}
						if x.CommaOk {
							return Tuple{r, h}
						}
						return r
					}
				}
			}
			m, key := gt(x.X), gt(x.Index)
			has, val, _ := ex.mapGet(st, mt, m)
			h := And(Not(Eq(m, Nil)), Select(has, key))
			r := iteTerm(h, structured(mt.Elem(), Select(val, key)), zeroTerm(mt.Elem()))
			if x.CommaOk {
				return Tuple{r, h}
			}
			return r
		}
		s, idx := gt(x.X), gt(x.Index) // string index
		ex.safety(st, "index out of range", And(Le(Int(0), idx), Lt(idx, Len(s))), x.Pos())
		return Nth(s, idx)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := ex.addrOf(st, get(x.X), x.X.Type(), x.Pos())
			if st.dead {
				return zeroVal(a.typ)
			}
			r := ex.load(st, a, x.Pos())
			if tm, ok := r.(*Term); ok {
				return structured(a.typ, tm)
			}
			return r
		case token.NOT:
			return Not(gt(x.X))
		case token.SUB:
			return wrapTo(x.Type(), Sub(Int(0), gt(x.X)))
		}
		unsup("unary %s", x.Op)
	case *ssa.BinOp:
		return ex.binop(st, x, get(x.X), get(x.Y))
	case *ssa.ChangeType:
		return get(x.X)
	case *ssa.ChangeInterface:
		return get(x.X)
	case *ssa.Convert:
		return ex.convert(x.X.Type(), x.Type(), gt(x.X))
	case *ssa.MakeInterface:
		v := get(x.X)
		if a, ok := v.(*Addr); ok && !(a.kind == aHeap && len(a.path) == 0) {
			return a // only contract wrappers (modifies clauses) produce these
		}
		if _, isIface := under(x.X.Type()).(*types.Interface); isIface {
			return v
		}
		return box(x.X.Type(), ex.term(v))
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.bind = append(c.bind, get(b))
		}
		return c
	case *ssa.MakeMap:
		return ex.newMap(st, under(x.Type()).(*types.Map))
	case *ssa.MakeSlice:
		e := sortOf(under(x.Type()).(*types.Slice).Elem())
		n := gt(x.Len)
		if n.isInt() && n.n <= 16 {
			r := Empty(SeqOf(e))
			for i := int64(0); i < n.n; i++ {
				r = Concat(r, Unit(zeroTerm(under(x.Type()).(*types.Slice).Elem()), e))
			}
			return mkSlice(e, False, r)
		}
		unsup("make of a slice with symbolic length")
	case *ssa.Slice:
		return ex.slice(fr, st, x)
	case *ssa.Extract:
		tu, ok := get(x.Tuple).(Tuple)
		if !ok {
			unsup("extract from %T", get(x.Tuple))
		}
		return tu[x.Index]
	case *ssa.Range:
		switch ut := under(x.X.Type()).(type) {
		case *types.Basic:
			st.iters[x] = Int(0)
			return &strIter{s: gt(x.X), key: x}
		case *types.Map:
			st.iters[x] = ConstArr(ArrayOf(sortOf(ut.Key()), BoolS), False)
			return &mapIter{m: gt(x.X), mt: ut, key: x}
		}
	}
	unsup("instruction %T (%s)", v, v)
	return nil
}

// structured expands slice/struct terms so that selectors simplify.
func structured(t types.Type, v *Term) *Term {
	if v.op == OCons || v.op == OIte {
		return v
	}
	switch u := under(t).(type) {
	case *types.Slice:
		return Cons(v.sort, Sel(v, 0), Sel(v, 1))
	case *types.Struct:
		if u.NumFields() == 0 {
			return v
		}
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, structured(u.Field(i).Type(), Sel(v, i)))
		}
		return Cons(v.sort, as...)
	}
	return v
}

func zeroVal(t types.Type) Val {
	if _, ok := under(t).(*types.Signature); ok {
		return Int(0)
	}
	return zeroTerm(t)
}

func withType(m map[int]types.Type, id int, t types.Type) map[int]types.Type {
	if _, ok := m[id]; ok {
		return m
	}
	n := map[int]types.Type{}
	for k, v := range m {
		n[k] = v
	}
	n[id] = t
	return n
}

var cellIDs = map[*ssa.Alloc]int{}
var cellInfo = map[int]*ssa.Alloc{}

func (ex *Exec) cellID(fr *frame, a *ssa.Alloc) int {
	// one id per (frame depth chain, alloc): a function inlined at several places gets separate cells
	ex.V.cellSeq++
	id := ex.V.cellSeq
	cellInfo[id] = a
	return id
}

func (ex *Exec) binop(st *State, x *ssa.BinOp, a, b Val) Val {
	// comparisons with functions / closures
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		e := ex.equal(t, x.Y.Type(), a, b)
		if x.Op == token.NEQ {
			return Not(e)
		}
		return e
	}
	l, r := ex.term(a), ex.term(b)
	bt, _ := under(t).(*types.Basic)
	if bt != nil && bt.Info()&types.IsString != 0 {
		switch x.Op {
		case token.ADD:
			return Concat(l, r)
		case token.LSS:
			return App("strlt", BoolS, l, r)
		case token.GTR:
			return App("strlt", BoolS, r, l)
		case token.LEQ:
			return Not(App("strlt", BoolS, r, l))
		case token.GEQ:
			return Not(App("strlt", BoolS, l, r))
		}
	}
	if bt != nil && bt.Info()&types.IsFloat != 0 {
		return App("float_"+sanitize(x.Op.String()), sortOf(x.Type()), l, r)
	}
	switch x.Op {
	case token.ADD:
		return wrapTo(x.Type(), Add(l, r))
	case token.SUB:
		return wrapTo(x.Type(), Sub(l, r))
	case token.MUL:
		return wrapTo(x.Type(), Mul(l, r))
	case token.LSS:
		return Lt(l, r)
	case token.LEQ:
		return Le(l, r)
	case token.GTR:
		return Gt(l, r)
	case token.GEQ:
		return Ge(l, r)
	case token.QUO, token.REM:
		ex.safety(st, "division by zero", Not(Eq(r, Int(0))), x.Pos())
		if r.isInt() && r.n > 0 {
			q, m := Div(l, r.n), Mod(l, r.n)
			if x.Op == token.QUO {
				return Ite(Ge(l, Int(0)), q, Sub(Int(0), Div(Sub(Int(0), l), r.n)))
			}
			return Ite(Ge(l, Int(0)), m, Sub(Int(0), Mod(Sub(Int(0), l), r.n)))
		}
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if bt != nil && bt.Info()&types.IsBoolean != 0 {
			if x.Op == token.AND {
				return And(l, r)
			}
			return Or(l, r)
		}
		return App("bits_"+sanitize(x.Op.String()), sortOf(x.Type()), l, r)
	}
	unsup("binary %s", x.Op)
	return nil
}

func (ex *Exec) equal(ta, tb types.Type, a, b Val) *Term {
	if aa, ok := a.(*Addr); ok {
		if bt, ok := b.(*Term); ok && bt == Nil {
			_ = aa
			return False
		}
	}
	if ba, ok := b.(*Addr); ok {
		if at, ok := a.(*Term); ok && at == Nil {
			_ = ba
			return False
		}
	}
	switch a.(type) {
	case *Closure, *ssa.Function:
		if bt, ok := b.(*Term); ok && bt == Nil {
			return False
		}
	}
	l, r := ex.term(a), ex.term(b)
	if _, ok := under(ta).(*types.Slice); ok { // only comparison with nil is legal
		if l.op == OCons && l.args[0] == True && l.args[1].op == OEmpty {
			return sliceNil(r)
		}
		return sliceNil(l)
	}
	_, ia := under(ta).(*types.Interface)
	_, ib := under(tb).(*types.Interface)
	if ia && !ib {
		r = box(tb, r)
	}
	if ib && !ia {
		l = box(ta, l)
	}
	return Eq(l, r)
}

func (ex *Exec) convert(from, to types.Type, v *Term) *Term {
	fu, tu := under(from), under(to)
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			return wrapTo(to, v)
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return v
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
			return App("runeToString", StrS, v)
		}
		return App("conv_"+sanitize(typeKey(from)+"_"+typeKey(to)), sortOf(to), v)
	}
	if fs, ok := fu.(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 {
		if sortOf(fs.Elem()) == ByteS {
			return sliceSeq(v)
		}
		return App("runesToString", StrS, sliceSeq(v))
	}
	if ts, ok := tu.(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 {
		e := sortOf(ts.Elem())
		if e == ByteS {
			return mkSlice(ByteS, False, v)
		}
		return mkSlice(RuneS, False, App("stringToRunes", SeqOf(RuneS), v))
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func (ex *Exec) slice(fr *frame, st *State, x *ssa.Slice) Val {
	var lo, hi *Term
	if x.Low != nil {
		lo = ex.term(ex.val(fr, st, x.Low))
	} else {
		lo = Int(0)
	}
	bv := ex.val(fr, st, x.X)
	switch xt := under(x.X.Type()).(type) {
	case *types.Basic:
		s := ex.term(bv)
		hi = Len(s)
		if x.High != nil {
			hi = ex.term(ex.val(fr, st, x.High))
		}
		ex.safety(st, "slice bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, Len(s))), x.Pos())
		return Extract(s, lo, Sub(hi, lo))
	case *types.Slice:
		s := ex.term(bv)
		sq := sliceSeq(s)
		hi = Len(sq)
		if x.High != nil {
			hi = ex.term(ex.val(fr, st, x.High))
			// hi may exceed len up to cap; require len (stronger, noted)
		}
		ex.safety(st, "slice bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, Len(sq))), x.Pos())
		return mkSlice(sortOf(xt.Elem()), sliceNil(s), Extract(sq, lo, Sub(hi, lo)))
	case *types.Pointer:
		at := under(xt.Elem()).(*types.Array)
		a := ex.addrOf(st, bv, x.X.Type(), x.Pos())
		arr := ex.term(ex.load(st, a, x.Pos()))
		if x.Low == nil && x.High == nil {
			return mkSlice(sortOf(at.Elem()), False, arr)
		}
		hi = Int(at.Len())
		if x.High != nil {
			hi = ex.term(ex.val(fr, st, x.High))
		}
		return mkSlice(sortOf(at.Elem()), False, Extract(arr, lo, Sub(hi, lo)))
	}
	unsup("slice of %s", x.X.Type())
	return nil
}

func (ex *Exec) typeAssert(fr *frame, st *State, x *ssa.TypeAssert) {
	v := ex.term(ex.val(fr, st, x.X))
	var ok, res *Term
	if it, isI := under(x.AssertedType).(*types.Interface); isI {
		ok = ex.implements(v, x.AssertedType, it)
		res = v
	} else {
		ok = Eq(typeOf(v), Int(typeID(x.AssertedType)))
		res = structured(x.AssertedType, unbox(x.AssertedType, v))
		if _, isP := under(x.AssertedType).(*types.Pointer); isP && ex.specDepth == 0 && !isBox(v) {
			// an interface value is determined by its dynamic type and value
			st.assume(Or(Not(ok), Eq(v, box(x.AssertedType, unbox(x.AssertedType, v)))))
		}
	}
	if !x.CommaOk {
		ex.safety(st, "type assertion", ok, x.Pos())
		fr.env[x] = res
		return
	}
	fr.env[x] = Tuple{iteTerm(ok, res, structured(x.AssertedType, zeroTerm(x.AssertedType))), ok}
}

var implCache = map[string]*types.Interface{}

func (ex *Exec) implements(v *Term, t types.Type, it *types.Interface) *Term {
	tag := typeOf(v)
	if it.NumMethods() == 0 {
		return Not(Eq(v, Nil))
	}
	n := "impl_" + sanitize(typeKey(t))
	implCache[n] = it
	var rec func(tag *Term) *Term
	rec = func(tag *Term) *Term {
		if tag.isInt() {
			if tag.n == 0 {
				return False
			}
			return Bool(types.Implements(typeByID[tag.n], it))
		}
		if tag.op == OIte {
			return Ite(tag.args[0], rec(tag.args[1]), rec(tag.args[2]))
		}
		return App(n, BoolS, tag)
	}
	return rec(tag)
}

func (ex *Exec) next(fr *frame, st *State, x *ssa.Next, k func(*State, Val)) {
	switch it := ex.val(fr, st, x.Iter).(type) {
	case *strIter:
		pos := ex.term(st.iters[it.key])
		ok := Lt(pos, Len(it.s))
		st1, st2 := st.clone(), st.clone()
		st2.assume(Not(ok))
		st1.assume(ok)
		r, w := decodeRune(it.s, pos)
		st1.iters[it.key] = Add(pos, w)
		if !st1.dead {
			k(st1, Tuple{True, pos, r})
		}
		if !st2.dead {
			k(st2, Tuple{False, Int(0), Int(0)})
		}
	case *mapIter:
		has, val, n := ex.mapGet(st, it.mt, it.m)
		_ = n
		seen := ex.term(st.iters[it.key])
		st1, st2 := st.clone(), st.clone()
		ks := sortOf(it.mt.Key())
		key := ex.freshOf("key", it.mt.Key(), st.top)
		st1.assume(Not(Eq(it.m, Nil)))
		st1.assume(Select(has, key))
		st1.assume(Not(Select(seen, key)))
		st1.iters[it.key] = Store(seen, key, True)
		bv := BoundVar(ks)
		st2.assume(Or(Eq(it.m, Nil), Forall(bv, True, Imp(Select(has, bv), Select(seen, bv)))))
		if !st1.dead {
			k(st1, Tuple{True, key, structured(it.mt.Elem(), Select(val, key))})
		}
		if !st2.dead {
			k(st2, Tuple{False, zeroTerm(it.mt.Key()), zeroTerm(it.mt.Elem())})
		}
	default:
		unsup("range over %T", it)
	}
}

// decodeRune models utf8 decoding at a position: ASCII exactly, other bytes through uninterpreted
// functions with width 1..4 and rune >= 0x80.
func decodeRune(s, pos *Term) (r, w *Term) {
	b := Nth(s, pos)
	ascii := Lt(b, Int(128))
	return Ite(ascii, b, App("utf8rune", RuneS, s, pos)), Ite(ascii, Int(1), App("utf8width", IntS, s, pos))
}
