package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---------- sorts ----------

type SortKind int

const (
	SBool SortKind = iota
	SInt           // mathematical or ranged integer, references, interfaces
	SSeq
	SArray
	SDT
)

// Sort of a term. Several Int sorts exist (byte, rune, Ref, ...): they print as Int but carry
// range facts that are asserted for every atomic term of that sort.
type Sort struct {
	Kind   SortKind
	Name   string // unique key
	Smt    string // SMT-LIB text
	Elem   *Sort  // Seq element / Array value
	Key    *Sort  // Array key
	Lo, Hi int64  // range facts when Ranged
	Ranged bool
	Ref    bool // reference: 0 <= r < birth top
	DT     *DTDef
}

type DTDef struct {
	Name   string
	Fields []string
	Sorts  []*Sort
}

var sortTab = map[string]*Sort{}
var dtOrder []*Sort

func mkSort(s *Sort) *Sort {
	if o, ok := sortTab[s.Name]; ok {
		return o
	}
	sortTab[s.Name] = s
	return s
}

var (
	BoolS  = mkSort(&Sort{Kind: SBool, Name: "Bool", Smt: "Bool"})
	IntS   = mkSort(&Sort{Kind: SInt, Name: "Int", Smt: "Int"})
	ByteS  = mkSort(&Sort{Kind: SInt, Name: "Byte", Smt: "Int", Lo: 0, Hi: 255, Ranged: true})
	RuneS  = mkSort(&Sort{Kind: SInt, Name: "Rune", Smt: "Int", Lo: -(1 << 31), Hi: 1<<31 - 1, Ranged: true})
	U16S   = mkSort(&Sort{Kind: SInt, Name: "U16", Smt: "Int", Lo: 0, Hi: 1<<16 - 1, Ranged: true})
	U32S   = mkSort(&Sort{Kind: SInt, Name: "U32", Smt: "Int", Lo: 0, Hi: 1<<32 - 1, Ranged: true})
	I8S    = mkSort(&Sort{Kind: SInt, Name: "I8", Smt: "Int", Lo: -128, Hi: 127, Ranged: true})
	I16S   = mkSort(&Sort{Kind: SInt, Name: "I16", Smt: "Int", Lo: -(1 << 15), Hi: 1<<15 - 1, Ranged: true})
	RefS   = mkSort(&Sort{Kind: SInt, Name: "Ref", Smt: "Int", Ref: true})
	IfaceS = mkSort(&Sort{Kind: SInt, Name: "Iface", Smt: "Int"})
	StrS   = SeqOf(ByteS)
)

func SeqOf(e *Sort) *Sort {
	return mkSort(&Sort{Kind: SSeq, Name: "Seq<" + e.Name + ">", Smt: "(Seq " + e.Smt + ")", Elem: e})
}
func ArrayOf(k, v *Sort) *Sort {
	return mkSort(&Sort{Kind: SArray, Name: "Arr<" + k.Name + "," + v.Name + ">", Smt: "(Array " + k.Smt + " " + v.Smt + ")", Key: k, Elem: v})
}
func DTOf(name string, fields []string, sorts []*Sort) *Sort {
	if s, ok := sortTab["DT:"+name]; ok {
		return s
	}
	n := sanitize(name)
	s := mkSort(&Sort{Kind: SDT, Name: "DT:" + name, Smt: n, DT: &DTDef{n, fields, sorts}})
	dtOrder = append(dtOrder, s)
	return s
}
func SliceOf(e *Sort) *Sort {
	return DTOf("Slc<"+e.Smt+">"+map[bool]string{true: "", false: ":" + e.Name}[e.Name == e.Smt], []string{"nil", "seq"}, []*Sort{BoolS, SeqOf(e)})
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			b.WriteRune(c)
		} else {
			fmt.Fprintf(&b, "_%x", c)
		}
	}
	return b.String()
}

// ---------- terms ----------

type Op uint8

const (
	OVar Op = iota
	OInt
	OBool
	OLit // literal byte sequence (name holds the bytes)
	OAdd // linear: coefs*args + n
	OMul
	ODiv
	OMod
	OLe // args[0] <= 0
	OEq
	ONot
	OAnd
	OOr
	OIte
	OUnit
	OConcat
	OLen
	ONth
	OExtract // seq, off, len
	OPrefix
	OSuffix
	OContains
	OIndexOf // s, t, off
	OReplaceAll
	OEmpty
	OApp  // uninterpreted function `name`
	OSpec // recursive specification function application `name`
	OCons // datatype constructor
	OSel  // datatype selector n
	OSelect
	OStore
	OConstArr
	OForall // name = bound var id; args: bound var, guard, body
	OFrame  // heap frame: args parent, fresh, limit, exceptions...
)

type Term struct {
	op    Op
	sort  *Sort
	args  []*Term
	coefs []int64
	n     int64
	name  string
	id    int
	epoch int   // max epoch of symbols occurring
	birth *Term // top at the birth of the youngest symbol a reference may come from
	bep   int   // the epoch of that symbol
	quant bool  // contains OForall
	bound bool  // is a bound variable / contains one
}

var (
	termTab  = map[string]*Term{}
	termSeq  int
	epochCtr int
)

func intern(t *Term) *Term {
	var b strings.Builder
	b.WriteByte(byte(t.op) + 32)
	b.WriteString(t.sort.Name)
	b.WriteByte('|')
	b.WriteString(t.name)
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(t.n, 10))
	for i, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		if t.coefs != nil {
			b.WriteByte('*')
			b.WriteString(strconv.FormatInt(t.coefs[i], 10))
		}
	}
	k := b.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termSeq++
	t.id = termSeq
	if len(t.args) == 0 {
		t.bep = t.epoch
		if t.op == OVar && t.bound && t.sort != IntS {
			t.bep = 1 << 60
		}
	}
	for _, a := range t.args {
		if a.epoch > t.epoch {
			t.epoch = a.epoch
		}
		// numbers and truth values carry no references
		if a.bep > t.bep && !(a.sort.Kind == SInt && !a.sort.Ref && a.sort != IfaceS || a.sort == BoolS) {
			t.bep, t.birth = a.bep, a.birth
		}
		t.quant = t.quant || a.quant
		t.bound = t.bound || a.bound
	}
	if t.op == OForall {
		t.quant = true
	}
	termTab[k] = t
	return t
}

// NewSym makes a fresh symbol born when the allocation counter is `top`.
var symCount = map[string]int{}

func NewSym(prefix string, s *Sort, top *Term) *Term {
	symCount[prefix]++
	epochCtr++
	t := &Term{op: OVar, sort: s, name: fmt.Sprintf("%s!%d", sanitize(prefix), symCount[prefix]), epoch: epochCtr, birth: top}
	return intern(t)
}

func Int(n int64) *Term { return intern(&Term{op: OInt, sort: IntS, n: n}) }
func Bool(b bool) *Term {
	n := int64(0)
	if b {
		n = 1
	}
	return intern(&Term{op: OBool, sort: BoolS, n: n})
}

var True, False = Bool(true), Bool(false)
var Nil = Int(0)

func (t *Term) isInt() bool   { return t.op == OInt }
func (t *Term) isTrue() bool  { return t == True }
func (t *Term) isFalse() bool { return t == False }

func Lit(s string) *Term {
	if s == "" {
		return Empty(StrS)
	}
	return intern(&Term{op: OLit, sort: StrS, name: s})
}
func Empty(s *Sort) *Term {
	return intern(&Term{op: OEmpty, sort: s, name: s.Smt})
}

// linear arithmetic
type lin struct {
	m map[*Term]int64
	n int64
}

func toLin(t *Term, c int64, l *lin) {
	switch t.op {
	case OInt:
		l.n += c * t.n
	case OAdd:
		l.n += c * t.n
		for i, a := range t.args {
			l.m[a] += c * t.coefs[i]
		}
	default:
		l.m[t] += c
	}
}
func fromLin(l *lin) *Term {
	var ks []*Term
	for k, v := range l.m {
		if v != 0 {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return Int(l.n)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	if len(ks) == 1 && l.m[ks[0]] == 1 && l.n == 0 {
		return ks[0]
	}
	cs := make([]int64, len(ks))
	for i, k := range ks {
		cs[i] = l.m[k]
	}
	return intern(&Term{op: OAdd, sort: IntS, args: ks, coefs: cs, n: l.n})
}
func Add(ts ...*Term) *Term {
	l := &lin{m: map[*Term]int64{}}
	for _, t := range ts {
		toLin(t, 1, l)
	}
	return fromLin(l)
}
func Sub(a, b *Term) *Term {
	l := &lin{m: map[*Term]int64{}}
	toLin(a, 1, l)
	toLin(b, -1, l)
	return fromLin(l)
}
func Mul(a, b *Term) *Term {
	if a.isInt() {
		l := &lin{m: map[*Term]int64{}}
		toLin(b, a.n, l)
		return fromLin(l)
	}
	if b.isInt() {
		return Mul(b, a)
	}
	return intern(&Term{op: OMul, sort: IntS, args: []*Term{a, b}})
}
func AddN(a *Term, n int64) *Term { return Add(a, Int(n)) }
func Mod(a *Term, n int64) *Term {
	if a.isInt() {
		return Int(((a.n % n) + n) % n)
	}
	return intern(&Term{op: OMod, sort: IntS, args: []*Term{a, Int(n)}})
}
func Div(a *Term, n int64) *Term { // floor for positive n
	if a.isInt() && a.n >= 0 {
		return Int(a.n / n)
	}
	return intern(&Term{op: ODiv, sort: IntS, args: []*Term{a, Int(n)}})
}

func nonNeg(t *Term) bool { // syntactic
	switch t.op {
	case OInt:
		return t.n >= 0
	case OLen:
		return true
	case OAdd:
		if t.n < 0 {
			return false
		}
		for i, a := range t.args {
			if t.coefs[i] < 0 || !nonNeg(a) {
				return false
			}
		}
		return true
	}
	return t.sort.Ranged && t.sort.Lo >= 0 || t.sort.Ref
}

func Le(a, b *Term) *Term {
	d := Sub(a, b)
	if d.isInt() {
		return Bool(d.n <= 0)
	}
	// -x <= 0 with x syntactically nonneg
	if nonNeg(Sub(b, a)) {
		return True
	}
	if nonNeg(AddN(d, -1)) {
		return False
	}
	if d.op == OAdd { // divide by gcd of coefs
		g := int64(0)
		for _, c := range d.coefs {
			g = gcd(g, abs(c))
		}
		if g > 1 {
			cs := make([]int64, len(d.coefs))
			for i, c := range d.coefs {
				cs[i] = c / g
			}
			// sum + n <= 0  <=>  sum/g <= floor(-n/g)
			nn := -floorDiv(-d.n, g)
			l := &lin{m: map[*Term]int64{}, n: nn}
			for i, a := range d.args {
				l.m[a] = cs[i]
			}
			d = fromLin(l)
		}
	}
	return intern(&Term{op: OLe, sort: BoolS, args: []*Term{d}})
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func abs(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}
func Lt(a, b *Term) *Term { return Le(AddN(a, 1), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == ONot:
		return a.args[0]
	case a.op == OLe: // not (d<=0) <=> 1-d <= 0
		return intern(&Term{op: OLe, sort: BoolS, args: []*Term{Sub(Int(1), a.args[0])}})
	}
	return intern(&Term{op: ONot, sort: BoolS, args: []*Term{a}})
}
func nary(op Op, unit, zero *Term, ts []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == unit {
			continue
		}
		if t == zero {
			return zero
		}
		sub := []*Term{t}
		if t.op == op {
			sub = t.args
		}
		for _, s := range sub {
			if seen[s] {
				continue
			}
			if seen[Not(s)] {
				return zero
			}
			seen[s] = true
			out = append(out, s)
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{op: op, sort: BoolS, args: out})
}
func And(ts ...*Term) *Term { return nary(OAnd, True, False, ts) }
func Or(ts ...*Term) *Term  { return nary(OOr, False, True, ts) }
func Imp(a, b *Term) *Term  { return Or(Not(a), b) }
func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.sort.Kind == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	// same-condition nesting
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	s := a.sort
	if a.isInt() {
		s = b.sort
	} else if !b.isInt() && a.sort != b.sort && a.sort.Kind == SInt {
		s = IntS
	}
	if s.Ranged && (a.isInt() && (a.n < s.Lo || a.n > s.Hi) || b.isInt() && (b.n < s.Lo || b.n > s.Hi)) {
		s = IntS
	}
	return intern(&Term{op: OIte, sort: s, args: []*Term{c, a, b}})
}

func constLike(t *Term) bool { return t.op == OInt || t.op == OBool || t.op == OLit || t.op == OEmpty }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort.Kind == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	}
	if a.sort.Kind == SInt {
		d := Sub(a, b)
		if d.isInt() {
			return Bool(d.n == 0)
		}
		if nonNeg(AddN(d, -1)) || nonNeg(AddN(Sub(b, a), -1)) {
			return False
		}
		// boxes
		if isBox(a) && b.isInt() || isBox(b) && a.isInt() {
			if a.isInt() && a.n == 0 || b.isInt() && b.n == 0 {
				return False
			}
		}
		if isBox(a) && isBox(b) {
			if a.name != b.name {
				return False
			}
			return Eq(a.args[0], b.args[0])
		}
		// distinct references by allocation arithmetic
		if d.op == OAdd && len(d.args) == 1 && (d.coefs[0] == 1 || d.coefs[0] == -1) && a.sort.Ref == b.sort.Ref {
			// x + n = 0 with x a ref symbol of known sign
		}
		// push eq into ite with constant
		if a.op == OIte && constLike(b) && (constLike(a.args[1]) || constLike(a.args[2]) || isBox(a.args[1]) || isBox(a.args[2])) {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
		if b.op == OIte && constLike(a) {
			return Eq(b, a)
		}
	}
	if a.sort.Kind == SSeq {
		if a.op == OLit && b.op == OLit {
			return Bool(a.name == b.name)
		}
		if a.op == OEmpty && b.op == OEmpty {
			return True
		}
		if minLen(a) > 0 && b.op == OEmpty || minLen(b) > 0 && a.op == OEmpty {
			return False
		}
		if a.op == OEmpty {
			return Eq(Len(b), Int(0))
		}
		if b.op == OEmpty {
			return Eq(Len(a), Int(0))
		}
		if la, lb := Len(a), Len(b); la.isInt() && lb.isInt() && la.n != lb.n {
			return False
		}
		// strip common prefix / suffix of concatenations
		pa, pb := parts(a), parts(b)
		i := 0
		for i < len(pa) && i < len(pb) && pa[i] == pb[i] {
			i++
		}
		j := 0
		for j < len(pa)-i && j < len(pb)-i && pa[len(pa)-1-j] == pb[len(pb)-1-j] {
			j++
		}
		if i > 0 || j > 0 {
			return Eq(ConcatS(a.sort, pa[i:len(pa)-j]...), ConcatS(a.sort, pb[i:len(pb)-j]...))
		}
		if len(pa) > 0 && len(pb) > 0 {
			// leading units / literals
			ha, ra, oka := headElem(pa)
			hb, rb, okb := headElem(pb)
			if oka && okb {
				return And(Eq(ha, hb), Eq(ConcatS(a.sort, ra...), ConcatS(a.sort, rb...)))
			}
			ta, sa, oka2 := lastElem(pa)
			tb, sb, okb2 := lastElem(pb)
			if oka2 && okb2 {
				return And(Eq(ta, tb), Eq(ConcatS(a.sort, sa...), ConcatS(a.sort, sb...)))
			}
		}
	}
	if a.sort.Kind == SDT && a.op == OCons && b.op == OCons {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OEq, sort: BoolS, args: []*Term{a, b}})
}
func headElem(p []*Term) (*Term, []*Term, bool) {
	switch p[0].op {
	case OUnit:
		return p[0].args[0], p[1:], true
	case OLit:
		s := p[0].name
		return Int(int64(s[0])), append([]*Term{Lit(s[1:])}, p[1:]...), true
	}
	return nil, nil, false
}
func lastElem(p []*Term) (*Term, []*Term, bool) {
	l := p[len(p)-1]
	switch l.op {
	case OUnit:
		return l.args[0], p[:len(p)-1], true
	case OLit:
		s := l.name
		return Int(int64(s[len(s)-1])), append(append([]*Term{}, p[:len(p)-1]...), Lit(s[:len(s)-1])), true
	}
	return nil, nil, false
}
func isBox(t *Term) bool { return t.op == OApp && strings.HasPrefix(t.name, "box_") }

// sequences
func parts(t *Term) []*Term {
	switch t.op {
	case OEmpty:
		return nil
	case OConcat:
		return t.args
	}
	return []*Term{t}
}
func minLen(t *Term) int64 {
	switch t.op {
	case OUnit:
		return 1
	case OLit:
		return int64(len(t.name))
	case OConcat:
		n := int64(0)
		for _, a := range t.args {
			n += minLen(a)
		}
		return n
	case OIte:
		a, b := minLen(t.args[1]), minLen(t.args[2])
		if a < b {
			return a
		}
		return b
	}
	return 0
}
func Unit(e *Term, es *Sort) *Term {
	if e.isInt() && es.Name == "Byte" && e.n >= 0 && e.n < 256 {
		return Lit(string([]byte{byte(e.n)}))
	}
	return intern(&Term{op: OUnit, sort: SeqOf(es), args: []*Term{e}})
}
func ConcatS(s *Sort, ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		for _, p := range parts(t) {
			if p.op == OLit && len(out) > 0 && out[len(out)-1].op == OLit {
				out[len(out)-1] = Lit(out[len(out)-1].name + p.name)
				continue
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return Empty(s)
	}
	// merge adjacent extracts: extract(s,a,n) ++ extract(s,a+n,m) = extract(s,a,n+m) only valid in bounds; left to solver
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{op: OConcat, sort: s, args: out})
}
func Concat(ts ...*Term) *Term { return ConcatS(ts[0].sort, ts...) }
func Len(t *Term) *Term {
	switch t.op {
	case OEmpty:
		return Int(0)
	case OLit:
		return Int(int64(len(t.name)))
	case OUnit:
		return Int(1)
	case OConcat:
		var ls []*Term
		for _, a := range t.args {
			ls = append(ls, Len(a))
		}
		return Add(ls...)
	case OIte:
		if la, lb := Len(t.args[1]), Len(t.args[2]); la == lb {
			return la
		}
	}
	return intern(&Term{op: OLen, sort: IntS, args: []*Term{t}})
}
func Nth(s, i *Term) *Term {
	switch s.op {
	case OLit:
		if i.isInt() && i.n >= 0 && i.n < int64(len(s.name)) {
			return Int(int64(s.name[i.n]))
		}
	case OUnit:
		if i.isInt() && i.n == 0 {
			return s.args[0]
		}
	case OConcat:
		// walk from the left while the offset is provably beyond the part
		off := i
		for k, p := range s.args {
			lp := Len(p)
			d := Sub(off, lp)
			if d.isInt() && d.n >= 0 || nonNeg(d) {
				off = d
				continue
			}
			if off.isInt() && off.n >= 0 && off.n < minLen(p) {
				return Nth(p, off)
			}
			if k > 0 {
				return intern(&Term{op: ONth, sort: s.sort.Elem, args: []*Term{ConcatS(s.sort, s.args[k:]...), off}})
			}
			break
		}
	case OIte:
		if constLike(i) {
			return Ite(s.args[0], Nth(s.args[1], i), Nth(s.args[2], i))
		}
	case OExtract:
		// nth(extract(s,o,n),i) = nth(s,o+i) when 0<=i<n; only when syntactically in range
	}
	return intern(&Term{op: ONth, sort: s.sort.Elem, args: []*Term{s, i}})
}
func Extract(s, o, n *Term) *Term {
	if n.isInt() && n.n <= 0 {
		return Empty(s.sort)
	}
	if o.isInt() && o.n == 0 && n == Len(s) {
		return s
	}
	if s.op == OLit && o.isInt() && n.isInt() && o.n >= 0 && o.n+n.n <= int64(len(s.name)) {
		return Lit(s.name[o.n : o.n+n.n])
	}
	if s.op == OEmpty {
		return s
	}
	if s.op == OConcat {
		// drop leading parts fully before the offset, when the remainder runs to the end
		rest := Sub(Add(o, n), Len(s))
		if rest.isInt() && rest.n == 0 {
			off := o
			k := 0
			for k < len(s.args) {
				d := Sub(off, Len(s.args[k]))
				if d.isInt() && d.n >= 0 || nonNeg(d) {
					off = d
					k++
					continue
				}
				break
			}
			if off.isInt() && off.n == 0 {
				return ConcatS(s.sort, s.args[k:]...)
			}
			if k < len(s.args) && off.isInt() && s.args[k].op == OLit && off.n < int64(len(s.args[k].name)) {
				return ConcatS(s.sort, append([]*Term{Lit(s.args[k].name[off.n:])}, s.args[k+1:]...)...)
			}
		}
		// prefix of whole parts
		if o.isInt() && o.n == 0 {
			rem := n
			k := 0
			for k < len(s.args) {
				d := Sub(rem, Len(s.args[k]))
				if d.isInt() && d.n >= 0 || nonNeg(d) {
					rem = d
					k++
					continue
				}
				break
			}
			if rem.isInt() && rem.n == 0 {
				return ConcatS(s.sort, s.args[:k]...)
			}
		}
	}
	if s.op == OExtract {
		// extract(extract(s,a,la),o,n) where o+n == la-ish: suffix of a suffix in bounds is left to solver
	}
	return intern(&Term{op: OExtract, sort: s.sort, args: []*Term{s, o, n}})
}
func Prefix(p, s *Term) *Term {
	if p.op == OEmpty || p == s {
		return True
	}
	if p.op == OLit && s.op == OLit {
		return Bool(strings.HasPrefix(s.name, p.name))
	}
	return intern(&Term{op: OPrefix, sort: BoolS, args: []*Term{p, s}})
}
func Suffix(p, s *Term) *Term {
	if p.op == OEmpty || p == s {
		return True
	}
	if p.op == OLit && s.op == OLit {
		return Bool(strings.HasSuffix(s.name, p.name))
	}
	return intern(&Term{op: OSuffix, sort: BoolS, args: []*Term{p, s}})
}
func Contains(s, t *Term) *Term {
	if s.op == OLit && t.op == OLit {
		return Bool(strings.Contains(s.name, t.name))
	}
	return intern(&Term{op: OContains, sort: BoolS, args: []*Term{s, t}})
}
func IndexOf(s, t *Term) *Term {
	if s.op == OLit && t.op == OLit {
		return Int(int64(strings.Index(s.name, t.name)))
	}
	return intern(&Term{op: OIndexOf, sort: IntS, args: []*Term{s, t, Int(0)}})
}

// applications
type UF struct {
	Name string
	Args []*Sort
	Res  *Sort
}

var ufTab = map[string]*UF{}

func App(name string, res *Sort, args ...*Term) *Term { return appOp(OApp, name, res, args) }
func appOp(op Op, name string, res *Sort, args []*Term) *Term {
	if _, ok := ufTab[name]; !ok {
		u := &UF{Name: name, Res: res}
		for _, a := range args {
			u.Args = append(u.Args, a.sort)
		}
		ufTab[name] = u
	}
	if op == OApp {
		if strings.HasPrefix(name, "unbox_") && isBox(args[0]) && args[0].name[4:] == name[6:] {
			return args[0].args[0]
		}
		if name == "typeof" {
			a := args[0]
			if isBox(a) {
				return Int(boxTags[a.name])
			}
			if a.isInt() && a.n == 0 {
				return Int(0)
			}
			if a.op == OIte {
				x, y := App(name, res, a.args[1]), App(name, res, a.args[2])
				if constLike(x) || constLike(y) {
					return Ite(a.args[0], x, y)
				}
			}
		}
	}
	return intern(&Term{op: op, sort: res, name: name, args: args})
}

var boxTags = map[string]int64{}
var boxSorts = map[string]*Sort{}

func Cons(s *Sort, args ...*Term) *Term {
	return intern(&Term{op: OCons, sort: s, args: args})
}
func Sel(t *Term, i int) *Term {
	if t.op == OCons {
		return t.args[i]
	}
	if t.op == OIte {
		return Ite(t.args[0], Sel(t.args[1], i), Sel(t.args[2], i))
	}
	return intern(&Term{op: OSel, sort: t.sort.DT.Sorts[i], n: int64(i), args: []*Term{t}})
}

func provablyDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if Eq(a, b) == False {
		return true
	}
	// allocation order: a = top + k ; b older (born when top' <= ...)
	return olderThan(a, b) || olderThan(b, a)
}

// olderThan reports that reference a denotes an object that existed before reference b was allocated:
// b has the form T + k (k>=0) where T is the allocation counter, and all symbols of a were born
// when the counter was T + j with j <= k (same symbol T).
func olderThan(a, b *Term) bool {
	tb, kb, ok := topForm(b)
	if !ok {
		return false
	}
	if a.isInt() {
		return a.n >= 0 && a.n < 1000000 && true
	}
	if ta, ka, ok := topForm(a); ok && ta == tb {
		return ka < kb
	}
	if ta, _, ok := topForm(a); ok && ta != tb {
		return ta.epoch < tb.epoch && topChainLE(ta, tb) && false
	}
	if !a.sort.Ref || a.birth == nil {
		return false
	}
	t2, k2, ok := topForm(a.birth)
	if !ok {
		return false
	}
	if t2 == tb {
		return k2 <= kb
	}
	return t2.epoch < tb.epoch // tops are totally ordered along a path
}
func topChainLE(a, b *Term) bool { return a.epoch <= b.epoch }
func topForm(t *Term) (*Term, int64, bool) {
	if t.op == OVar && strings.HasPrefix(t.name, "#top") {
		return t, 0, true
	}
	if t.op == OAdd && len(t.args) == 1 && t.coefs[0] == 1 && strings.HasPrefix(t.args[0].name, "#top") && t.args[0].op == OVar {
		return t.args[0], t.n, true
	}
	return nil, 0, false
}

// Select reads an array/heap term.
func Select(h, k *Term) *Term {
	switch h.op {
	case OStore:
		e := Eq(h.args[1], k)
		if e == True {
			return h.args[2]
		}
		if h.sort.Key.Ref && provablyDistinct(h.args[1], k) {
			e = False
		}
		if e == False {
			return Select(h.args[0], k)
		}
		if h.sort.Key.Ref { // resolve heaps completely
			return Ite(e, h.args[2], Select(h.args[0], k))
		}
		return Ite(e, h.args[2], Select(h.args[0], k))
	case OConstArr:
		return h.args[0]
	case OIte:
		return Ite(h.args[0], Select(h.args[1], k), Select(h.args[2], k))
	case OFrame:
		parent, sym, limit := h.args[0], h.args[1], h.args[2]
		var cond []*Term
		if !(k.birth != nil && olderThan(k, limit)) {
			cond = append(cond, Lt(k, limit))
		}
		for _, x := range h.args[3:] {
			if x == k {
				return Select(sym, k)
			}
			if provablyDistinct(x, k) {
				continue
			}
			cond = append(cond, Not(Eq(x, k)))
		}
		c := And(cond...)
		// a reference allocated at or after limit
		if tb, kb, ok := topForm(k); ok {
			if tl, kl, ok := topForm(limit); ok && (tl == tb && kl <= kb || tl.epoch < tb.epoch) {
				c = False
			}
		}
		return Ite(c, Select(parent, k), Select(sym, k))
	}
	return intern(&Term{op: OSelect, sort: h.sort.Elem, args: []*Term{h, k}})
}
func Store(h, k, v *Term) *Term {
	if h.op == OStore && h.args[1] == k {
		h = h.args[0]
	}
	return intern(&Term{op: OStore, sort: h.sort, args: []*Term{h, k, v}})
}
func Frame(parent, sym, limit *Term, exc []*Term) *Term {
	return intern(&Term{op: OFrame, sort: parent.sort, args: append([]*Term{parent, sym, limit}, exc...)})
}
func ConstArr(s *Sort, v *Term) *Term {
	return intern(&Term{op: OConstArr, sort: s, args: []*Term{v}})
}

var boundCtr int

// Forall builds forall v in [lo,hi). body; kind "int". For other sorts guard is True.
func BoundVar(s *Sort) *Term {
	boundCtr++
	return intern(&Term{op: OVar, sort: s, name: fmt.Sprintf("bv!%d", boundCtr), bound: true})
}
func Forall(v, guard, body *Term) *Term {
	if body == True || guard == False {
		return True
	}
	// the bound variable is named after its depth, so that formulas equal up to renaming are one term
	d := 0
	if guard.quant || body.quant {
		seen := map[*Term]bool{}
		f := func(x *Term) {
			if x.op == OForall && strings.HasPrefix(x.args[0].name, "bq!") {
				if n, err := strconv.Atoi(x.args[0].name[3:]); err == nil && n >= d {
					d = n + 1
				}
			}
		}
		walk(guard, seen, f)
		walk(body, seen, f)
	}
	if name := "bq!" + strconv.Itoa(d); v.name != name {
		c := intern(&Term{op: OVar, sort: v.sort, name: name, bound: true})
		m := map[*Term]*Term{v: c}
		return Forall(c, Subst(guard, m), Subst(body, m))
	}
	return intern(&Term{op: OForall, sort: BoolS, args: []*Term{v, guard, body}})
}

// Subst replaces terms according to m, rebuilding with simplification.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		changed := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				changed = true
			}
		}
		r := t
		if changed {
			r = rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}
func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OAdd:
		l := &lin{m: map[*Term]int64{}, n: t.n}
		for i, x := range a {
			toLin(x, t.coefs[i], l)
		}
		return fromLin(l)
	case OMul:
		return Mul(a[0], a[1])
	case ODiv:
		return Div(a[0], a[1].n)
	case OMod:
		return Mod(a[0], a[1].n)
	case OLe:
		return Le(a[0], Int(0))
	case OEq:
		return Eq(a[0], a[1])
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OUnit:
		return Unit(a[0], t.sort.Elem)
	case OConcat:
		return ConcatS(t.sort, a...)
	case OLen:
		return Len(a[0])
	case ONth:
		return Nth(a[0], a[1])
	case OExtract:
		return Extract(a[0], a[1], a[2])
	case OPrefix:
		return Prefix(a[0], a[1])
	case OSuffix:
		return Suffix(a[0], a[1])
	case OContains:
		return Contains(a[0], a[1])
	case OIndexOf:
		return IndexOf(a[0], a[1])
	case OApp, OSpec:
		return appOp(t.op, t.name, t.sort, a)
	case OSel:
		return Sel(a[0], int(t.n))
	case OSelect:
		return Select(a[0], a[1])
	case OStore:
		return Store(a[0], a[1], a[2])
	case OForall:
		return Forall(a[0], a[1], a[2])
	}
	return intern(&Term{op: t.op, sort: t.sort, name: t.name, n: t.n, coefs: t.coefs, args: a})
}

func walk(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		walk(a, seen, f)
	}
	f(t)
}

func (t *Term) String() string { return render(t, 0) }
func render(t *Term, d int) string {
	if d > 12 {
		return "…"
	}
	var as []string
	for _, a := range t.args {
		as = append(as, render(a, d+1))
	}
	switch t.op {
	case OVar:
		return t.name
	case OInt:
		return strconv.FormatInt(t.n, 10)
	case OBool:
		return fmt.Sprint(t == True)
	case OLit:
		return strconv.Quote(t.name)
	case OEmpty:
		return "[]"
	case OAdd:
		var b []string
		for i, a := range as {
			switch t.coefs[i] {
			case 1:
				b = append(b, a)
			default:
				b = append(b, fmt.Sprintf("%d*%s", t.coefs[i], a))
			}
		}
		if t.n != 0 {
			b = append(b, strconv.FormatInt(t.n, 10))
		}
		return "(" + strings.Join(b, "+") + ")"
	case OLe:
		return as[0] + "<=0"
	case OEq:
		return "(" + as[0] + "==" + as[1] + ")"
	case ONot:
		return "!" + as[0]
	case OAnd:
		return "(" + strings.Join(as, " && ") + ")"
	case OOr:
		return "(" + strings.Join(as, " || ") + ")"
	case OIte:
		return "(" + as[0] + " ? " + as[1] + " : " + as[2] + ")"
	case OUnit:
		return "<" + as[0] + ">"
	case OConcat:
		return "(" + strings.Join(as, "++") + ")"
	case OLen:
		return "|" + as[0] + "|"
	case ONth:
		return as[0] + "[" + as[1] + "]"
	case OExtract:
		return as[0] + "[" + as[1] + ":+" + as[2] + "]"
	case OSelect:
		return as[0] + "@" + as[1]
	case OSel:
		return as[0] + "." + t.sort.Name + strconv.Itoa(int(t.n))
	case OForall:
		return "forall " + as[0] + ". " + as[1] + " => " + as[2]
	}
	n := t.name
	if n == "" {
		n = fmt.Sprintf("op%d", t.op)
	}
	if t.op == OCons {
		n = t.sort.DT.Name
	}
	return n + "(" + strings.Join(as, ",") + ")"
}

// Elem0 is the element sort of a sequence (nil-safe use on other sorts).
func (s *Sort) Elem0() *Sort {
	if s.Elem != nil {
		return s.Elem
	}
	return IntS
}

// open: a bound variable occurs free in t.
func open(t *Term) bool {
	if !t.bound {
		return false
	}
	return !t.quant || len(openVars(t)) > 0
}

// openVars lists the bound variables that occur free in t.
func openVars(t *Term) []*Term {
	memo := map[*Term]map[*Term]bool{}
	var rec func(t *Term) map[*Term]bool
	rec = func(t *Term) map[*Term]bool {
		if !t.bound {
			return nil
		}
		if t.op == OVar {
			return map[*Term]bool{t: true}
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := map[*Term]bool{}
		for _, a := range t.args {
			for v := range rec(a) {
				if t.op == OForall && v == t.args[0] {
					continue
				}
				r[v] = true
			}
		}
		memo[t] = r
		return r
	}
	var out []*Term
	for v := range rec(t) {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
