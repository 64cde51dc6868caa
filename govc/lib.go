package main

import (
	"go/token"
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions. Each is an assumption about the dependency; the names used are
// reported in the evidence.

type libFn func(ex *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos) (Val, bool)

func pureLib(name string) bool {
	_, ok := libPure[name]
	return ok
}

func tt(ex *Exec, v Val) *Term { return ex.term(v) }

func uf(name string, res *Sort) libFn {
	return func(ex *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos) (Val, bool) {
		var ts []*Term
		for _, x := range a {
			ts = append(ts, ex.term(x))
		}
		return App(name, res, ts...), true
	}
}
func pf(f func(ex *Exec, a []*Term) *Term) libFn {
	return func(ex *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos) (Val, bool) {
		var ts []*Term
		for _, x := range a {
			ts = append(ts, ex.term(x))
		}
		return f(ex, ts), true
	}
}

func strSlice(seq *Term) *Term { return mkSlice(StrS, False, seq) }

func asciiCase(name string) func(ex *Exec, a []*Term) *Term {
	return func(ex *Exec, a []*Term) *Term { return App(name, StrS, a[0]) }
}

// mapLits1 maps a choice between literals through a function of strings.
func mapLits1(t *Term, f func(t *Term) *Term) *Term {
	if t.op == OIte {
		return Ite(t.args[0], mapLits1(t.args[1], f), mapLits1(t.args[2], f))
	}
	return f(t)
}

// mapCase maps a known literal
func lowerT(t *Term) *Term {
	if t.op == OLit {
		return Lit(strings.ToLower(t.name))
	}
	return App("strings_ToLower", StrS, t)
}
func upperT(t *Term) *Term {
	if t.op == OLit {
		return Lit(strings.ToUpper(t.name))
	}
	return App("strings_ToUpper", StrS, t)
}

func uniPred(name string, f func(r rune) bool) libFn {
	return pf(func(ex *Exec, a []*Term) *Term {
		if a[0].isInt() {
			return Bool(f(rune(a[0].n)))
		}
		return App(name, BoolS, a[0])
	})
}

func uniMap(name string, f func(r rune) rune) libFn {
	return pf(func(ex *Exec, a []*Term) *Term {
		if a[0].isInt() {
			return Int(int64(f(rune(a[0].n))))
		}
		return App(name, RuneS, a[0])
	})
}

var libPure = map[string]libFn{}

func init() {
	libPure["strings.ToLower"] = pf(func(ex *Exec, a []*Term) *Term { return lowerT(a[0]) })
	libPure["strings.ToUpper"] = pf(func(ex *Exec, a []*Term) *Term { return upperT(a[0]) })
	libPure["strings.Title"] = pf(func(ex *Exec, a []*Term) *Term {
		return mapLits1(a[0], func(t *Term) *Term {
			if t.op == OLit {
				return Lit(strings.Title(t.name))
			}
			return App("strings_Title", StrS, t)
		})
	})
	libPure["strings.HasPrefix"] = pf(func(ex *Exec, a []*Term) *Term { return Prefix(a[1], a[0]) })
	libPure["strings.HasSuffix"] = pf(func(ex *Exec, a []*Term) *Term { return Suffix(a[1], a[0]) })
	libPure["strings.Contains"] = pf(func(ex *Exec, a []*Term) *Term { return Contains(a[0], a[1]) })
	libPure["strings.Index"] = pf(func(ex *Exec, a []*Term) *Term { return IndexOf(a[0], a[1]) })
	libPure["strings.IndexByte"] = pf(func(ex *Exec, a []*Term) *Term { return IndexOf(a[0], Unit(a[1], ByteS)) })
	libPure["strings.LastIndex"] = uf("strings_LastIndex", IntS)
	libPure["strings.TrimSpace"] = uf("strings_TrimSpace", StrS)
	libPure["strings.Trim"] = uf("strings_Trim", StrS)
	libPure["strings.TrimLeft"] = uf("strings_TrimLeft", StrS)
	libPure["strings.TrimRight"] = uf("strings_TrimRight", StrS)
	libPure["strings.TrimPrefix"] = pf(func(ex *Exec, a []*Term) *Term {
		return Ite(Prefix(a[1], a[0]), Extract(a[0], Len(a[1]), Sub(Len(a[0]), Len(a[1]))), a[0])
	})
	libPure["strings.TrimSuffix"] = pf(func(ex *Exec, a []*Term) *Term {
		return Ite(Suffix(a[1], a[0]), Extract(a[0], Int(0), Sub(Len(a[0]), Len(a[1]))), a[0])
	})
	libPure["strings.Count"] = uf("strings_Count", IntS)
	axioms["runesToString"] = func(ex *Exec, t *Term) []*Term {
		n := Len(t.args[0])
		return []*Term{rawLe(Sub(n, Len(t))), rawLe(Sub(Len(t), scale(n, 4)))}
	}
	axioms["strings_Count"] = func(ex *Exec, t *Term) []*Term {
		out := []*Term{rawLe(Sub(Int(0), t))}
		if t.args[1].op == OLit && t.args[1].name != "" {
			out = append(out, intern(&Term{op: OEq, sort: BoolS, args: []*Term{Eq(t, Int(0)), Not(Contains(t.args[0], t.args[1]))}}))
		}
		return out
	}
	libPure["strings.Replace"] = uf("strings_Replace", StrS)
	libPure["strings.ReplaceAll"] = uf("strings_ReplaceAll", StrS)
	libPure["strings.Repeat"] = uf("strings_Repeat", StrS)
	libPure["strings.EqualFold"] = uf("strings_EqualFold", BoolS)
	libPure["strings.Join"] = pf(func(ex *Exec, a []*Term) *Term { return App("strings_Join", StrS, sliceSeq(a[0]), a[1]) })
	libPure["strings.Split"] = pf(func(ex *Exec, a []*Term) *Term { return strSlice(App("strings_Split", SeqOf(StrS), a[0], a[1])) })
	libPure["strings.Fields"] = pf(func(ex *Exec, a []*Term) *Term { return strSlice(App("strings_Fields", SeqOf(StrS), a[0])) })
	libPure["unicode.IsSpace"] = uniPred("uni_IsSpace", isSpaceGo)
	libPure["unicode.IsLetter"] = uniPred("uni_IsLetter", isLetterGo)
	libPure["unicode.IsDigit"] = uniPred("uni_IsDigit", isDigitGo)
	libPure["unicode.IsUpper"] = uniPred("uni_IsUpper", isUpperGo)
	libPure["unicode.IsLower"] = uniPred("uni_IsLower", isLowerGo)
	libPure["unicode.ToUpper"] = uniMap("uni_ToUpper", unicode.ToUpper)
	libPure["unicode.ToLower"] = uniMap("uni_ToLower", unicode.ToLower)
	libPure["go/token.Lookup"] = uf("token_Lookup", IntS)
	libPure["(go/token.Token).IsKeyword"] = pf(func(ex *Exec, a []*Term) *Term {
		if a[0].op == OApp && a[0].name == "token_Lookup" {
			var alts []*Term
			for t := token.BREAK; t <= token.VAR; t++ {
				alts = append(alts, Eq(a[0].args[0], Lit(t.String())))
			}
			return Or(alts...)
		}
		return And(Le(Int(int64(token.BREAK)), a[0]), Le(a[0], Int(int64(token.VAR))))
	})
	libPure["unicode/utf8.DecodeRuneInString"] = func(ex *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos) (Val, bool) {
		s := ex.term(a[0])
		r, w := decodeRune(s, Int(0))
		e := Eq(Len(s), Int(0))
		return Tuple{Ite(e, Int(0xFFFD), r), Ite(e, Int(0), w)}, true
	}
	libPure["strings.Map"] = func(ex *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos) (Val, bool) {
		// a function of the string, identified by the mapping's value on an arbitrary rune
		f, bind := a[0], []Val(nil)
		if c, ok := f.(*Closure); ok {
			f, bind = c.fn, c.bind
		}
		m, ok := f.(*ssa.Function)
		if !ok {
			return nil, false
		}
		x := App("strings_Map_rune", RuneS)
		rs := ex.evalPure(m, []Val{x}, bind, st, nil)
		if len(rs) != 1 {
			return nil, false
		}
		return App("strings_Map", StrS, ex.term(rs[0]), ex.term(a[1])), true
	}
	libPure["strconv.Unquote"] = func(ex *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos) (Val, bool) {
		s := ex.term(a[0])
		ok := App("strconv_Unquote_ok", BoolS, s)
		e := box(types.Typ[types.UnsafePointer], Int(typeIDstr("strconv.ErrSyntax")))
		return Tuple{Ite(ok, App("strconv_Unquote", StrS, s), Lit("")), Ite(ok, Nil, e)}, true
	}
	libPure["bytes.Runes"] = pf(func(ex *Exec, a []*Term) *Term {
		return mkSlice(RuneS, False, App("stringToRunes", SeqOf(RuneS), sliceSeq(a[0])))
	})
	libPure["strconv.Itoa"] = uf("strconv_Itoa", StrS)
	libPure["path/filepath.Join"] = pf(func(ex *Exec, a []*Term) *Term { return App("filepath_Join", StrS, sliceSeq(a[0])) })
	libPure["path.Join"] = pf(func(ex *Exec, a []*Term) *Term { return App("path_Join", StrS, sliceSeq(a[0])) })
	for _, n := range []string{"Dir", "Base", "Ext", "Clean", "FromSlash", "ToSlash"} {
		libPure["path/filepath."+n] = uf("filepath_"+n, StrS)
	}
	// an error is itself; nil is only nil; an error of a type without Is and Unwrap is nothing else, a wrapped error
	// is what it wraps besides; anything else is left open
	axioms["errors_Is"] = func(ex *Exec, t *Term) []*Term {
		eq := func(a, b *Term) *Term { return intern(&Term{op: OEq, sort: BoolS, args: []*Term{a, b}}) }
		e, target := t.args[0], t.args[1]
		out := []*Term{Imp(Eq(e, target), t), Imp(Eq(e, Nil), eq(t, Eq(target, Nil)))}
		if e.op == OApp && strings.HasPrefix(e.name, "box_") {
			if in, ok := wrapOf[e]; ok {
				if in == nil {
					out = append(out, eq(t, Eq(e, target)))
				} else {
					out = append(out, eq(t, Or(Eq(e, target), errorsIs(in, target))))
				}
			} else if ty := typeByID[boxTags[e.name]]; ty != nil && plainError(ty) {
				out = append(out, eq(t, Eq(e, target)))
			}
		}
		return out
	}
	is := func(ex *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos) (Val, bool) {
		ex.notes["model: errors.Is(e, t) holds exactly when e or an error it wraps is t, for types without an Is method"] = true
		return errorsIs(ex.term(a[0]), ex.term(a[1])), true
	}
	libPure["errors.Is"] = is
	libPure["github.com/pkg/errors.Is"] = is
	libPure["os.Getenv"] = uf("os_Getenv", StrS)
}

// wrapOf: what an error made by a wrapping constructor wraps; nil when it wraps nothing.
var wrapOf = map[*Term]*Term{}

func errorsIs(e, target *Term) *Term {
	if e.op == OIte {
		return Ite(e.args[0], errorsIs(e.args[1], target), errorsIs(e.args[2], target))
	}
	if ufTab["errors_Is"] == nil {
		ufTab["errors_Is"] = &UF{Name: "errors_Is", Args: []*Sort{IfaceS, IfaceS}, Res: BoolS}
	}
	return App("errors_Is", BoolS, e, target)
}

// plainError: a type whose values have neither Is nor Unwrap, and can be compared.
func plainError(t types.Type) bool {
	if !types.Comparable(t) {
		return false
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if n := ms.At(i).Obj().Name(); n == "Is" || n == "Unwrap" {
			return false
		}
	}
	return true
}

// nonNilErr models error constructors: the result is a non-nil error determined by the arguments.
func nonNilErr(name string) libFn {
	return func(ex *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos) (Val, bool) {
		return NewErr(ex, st, name), true
	}
}
func NewErr(ex *Exec, st *State, name string) *Term {
	// a fresh, non-nil error value of a private dynamic type
	n := "box_" + name
	boxTags[n] = 800000 + typeIDstr("err:"+name)
	boxSorts[n] = IntS
	return App(n, IfaceS, NewSym("err", IntS, st.top))
}

func (ex *Exec) lib(fr *frame, st *State, fn *ssa.Function, args []Val, pos token.Pos, k func(*State, Val)) bool {
	name := origin(fn).String()
	if f, ok := libPure[name]; ok {
		v, ok := f(ex, st, fn, args, pos)
		if ok {
			ex.notes["model: "+name] = true
			k(st, v)
			return true
		}
	}
	switch name {
	case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		ex.notes["model: "+name+" returns a non-nil error"] = true
		r := NewErr(ex, st, sanitize(name))
		if f := ex.term(args[0]); strings.HasSuffix(name, "errors.New") || f.op == OLit && !strings.Contains(f.name, "%w") {
			wrapOf[r] = nil
		}
		k(st, r)
		return true
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage":
		ex.notes["model: "+name+" is nil exactly for a nil error"] = true
		e := ex.term(args[0])
		r := NewErr(ex, st, sanitize(name))
		wrapOf[r] = e
		k(st, Ite(Eq(e, Nil), Nil, r))
		return true
	}
	if strings.HasPrefix(name, "(*github.com/sirupsen/logrus") || strings.HasPrefix(name, "github.com/sirupsen/logrus.") {
		if !strings.Contains(name, "Fatal") && !strings.Contains(name, "Panic") {
			ex.notes["model: logging has no effect"] = true
			k(st, ex.freshResults(st, fn))
			return true
		}
	}
	switch name {
	case "io/ioutil.ReadAll", "io.ReadAll":
		// reads the rest of the reader; an error leaves the content read so far
		ex.notes["model: "+name+" returns the unread content of the reader and leaves none"] = true
		h := ex.heapGet(st, "ghost:reader", StrS)
		r := ex.term(args[0])
		ex.safety(st, "ReadAll of a nil reader", Not(Eq(r, Nil)), pos)
		if st.dead {
			return true
		}
		c := Select(h, r)
		st.heap["ghost:reader"] = Store(h, r, Empty(StrS))
		st.writes = &write{key: "ghost:reader", ref: r, prev: st.writes}
		k(st, Tuple{mkSlice(ByteS, False, c), NewSym("readErr", IfaceS, st.top)})
		return true
	case "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint":
		ex.notes["model: printing has no effect on the state"] = true
		k(st, ex.freshResults(st, fn))
		return true
	case "fmt.Sprintf":
		k(st, ex.sprintf(st, ex.term(args[0]), ex.term(args[1])))
		return true
	case "fmt.Sprint", "fmt.Sprintln":
		k(st, App(sanitize(name), StrS, ex.term(args[0])))
		return true
	}
	return false
}

func (ex *Exec) freshResults(st *State, fn *ssa.Function) Val {
	rt := fn.Signature.Results()
	var rs []Val
	for i := 0; i < rt.Len(); i++ {
		rs = append(rs, ex.freshOf("X_"+fn.Name(), rt.At(i).Type(), st.top))
	}
	return retVal(rs)
}

// sprintf with a format made of literal text, %s/%v/%d/%q verbs and symbolic text without '%', over
// known argument boxes.
func (ex *Exec) sprintf(st *State, f, args *Term) *Term {
	sq := sliceSeq(args)
	whole := App("fmt_Sprintf", StrS, f, sq)
	if sq.op != OConcat && sq.op != OUnit && sq.op != OEmpty {
		return whole
	}
	as := parts(sq)
	for _, p := range as {
		if p.op != OUnit {
			return whole
		}
	}
	var out []*Term
	guard := True
	ai := 0
	for _, fp := range parts(f) {
		if fp.op != OLit {
			if fp.op == OUnit {
				return whole
			}
			guard = And(guard, Not(Contains(fp, Lit("%"))))
			out = append(out, fp)
			continue
		}
		s := fp.name
		for i := 0; i < len(s); {
			if s[i] != '%' {
				j := i
				for j < len(s) && s[j] != '%' {
					j++
				}
				out = append(out, Lit(s[i:j]))
				i = j
				continue
			}
			if i+1 >= len(s) {
				return whole
			}
			v := s[i+1]
			i += 2
			if v == '%' {
				out = append(out, Lit("%"))
				continue
			}
			if ai >= len(as) {
				return whole
			}
			a := as[ai].args[0]
			ai++
			var t types.Type
			if isBox(a) {
				t = typeByID[boxTags[a.name]]
			}
			switch {
			case (v == 's' || v == 'v') && t != nil && sortOf(t) == StrS && a.name == "box_string":
				out = append(out, a.args[0])
			case (v == 'd' || v == 'v') && t != nil && a.name == "box_int":
				out = append(out, App("strconv_Itoa", StrS, a.args[0]))
			case strings.ContainsRune("sdvqxXtc", rune(v)):
				out = append(out, App("fmt_verb_"+sanitize(string(v)), StrS, a))
			default:
				return whole
			}
		}
	}
	if ai != len(as) {
		return whole
	}
	ex.notes["model: fmt.Sprintf with a literal format"] = true
	r := ConcatS(StrS, out...)
	if guard == True {
		return r
	}
	ex.notes["model: fmt.Sprintf copies the parts of its format that contain no '%'"] = true
	return Ite(guard, r, whole)
}

func (ex *Exec) libInvoke(fr *frame, st *State, full string, c *ssa.CallCommon, recv *Term, args []Val, k func(*State, Val)) bool {
	switch full {
	case "(error).Error":
		k(st, App("error_Error", StrS, recv))
		return true
	}
	return false
}

func (ex *Exec) fsHavoc(st *State) {
	st.writes = &write{key: "fs", ref: Int(0), prev: st.writes}
}

func scale(t *Term, k int64) *Term {
	l := &lin{m: map[*Term]int64{}}
	toLin(t, k, l)
	return fromLin(l)
}

// ---------- axioms ----------

func rawLe(d *Term) *Term { return intern(&Term{op: OLe, sort: BoolS, args: []*Term{d}}) }

func axiomsFor(ex *Exec, t *Term) []*Term {
	switch t.op {
	case OLen:
		return []*Term{rawLe(Sub(Int(0), t))}
	case ONth:
		// an element of a concatenation is one of a part's; of a sub-slice, the slice's
		sq, i := t.args[0], t.args[1]
		if sq.sort == StrS {
			return nil
		}
		if sq.op == OConcat && len(sq.args) > 1 {
			p := sq.args[0]
			rest := ConcatS(sq.sort, sq.args[1:]...)
			n := Len(p)
			return []*Term{
				Imp(And(Le(Int(0), i), Lt(i, n)), eqStruct(t, Nth(p, i))),
				Imp(And(Le(n, i), Lt(i, Len(sq))), eqStruct(t, Nth(rest, Sub(i, n)))),
			}
		}
		if sq.op == OExtract {
			s, o, n := sq.args[0], sq.args[1], sq.args[2]
			in := And(Le(Int(0), i), Lt(i, n), Le(Int(0), o), Le(Add(o, n), Len(s)))
			return []*Term{Imp(in, eqStruct(t, Nth(s, Add(o, i))))}
		}
	case OApp:
		if f, ok := axioms[t.name]; ok {
			return f(ex, t)
		}
		if strings.HasPrefix(t.name, "unbox_") {
			return nil
		}
		if strings.HasPrefix(t.name, "box_") {
			un := "unbox_" + t.name[4:]
			var out []*Term
			out = append(out, Not(eqStruct(t, Nil)))
			if id, ok := boxTags[t.name]; ok {
				ty := intern(&Term{op: OApp, sort: IntS, name: "typeof", args: []*Term{t}})
				if ufTab["typeof"] == nil {
					ufTab["typeof"] = &UF{Name: "typeof", Args: []*Sort{IfaceS}, Res: IntS}
				}
				out = append(out, eqStruct(ty, Int(id)))
			}
			if s, ok := boxSorts[t.name]; ok {
				if ufTab[un] == nil {
					ufTab[un] = &UF{Name: un, Args: []*Sort{IfaceS}, Res: s}
				}
				u := intern(&Term{op: OApp, sort: s, name: un, args: []*Term{t}})
				out = append(out, eqStruct(u, t.args[0]))
			}
			return out
		}
		if t.name == "typeof" {
			// typeof is 0 exactly for nil; a value of boxed dynamic type is the box of its content
			out := []*Term{rawLe(Sub(Int(0), t)), intern(&Term{op: OEq, sort: BoolS, args: []*Term{Eq(t, Int(0)), Eq(t.args[0], Nil)}})}
			return out
		}
	}
	return nil
}

var axioms = map[string]func(ex *Exec, t *Term) []*Term{}

func uniAxiom(ascii func(r rune) bool) func(ex *Exec, t *Term) []*Term {
	// exact definition on Latin-1 by ranges
	var rs [][2]int64
	for r := int64(0); r < 256; r++ {
		if ascii(rune(r)) {
			if len(rs) > 0 && rs[len(rs)-1][1] == r-1 {
				rs[len(rs)-1][1] = r
			} else {
				rs = append(rs, [2]int64{r, r})
			}
		}
	}
	return func(ex *Exec, t *Term) []*Term {
		x := t.args[0]
		var alts []*Term
		for _, r := range rs {
			alts = append(alts, And(Le(Int(r[0]), x), Le(x, Int(r[1]))))
		}
		in := And(Le(Int(0), x), Lt(x, Int(256)))
		return []*Term{Imp(in, intern(&Term{op: OEq, sort: BoolS, args: []*Term{t, Or(alts...)}}))}
	}
}

func init() {
	axioms["uni_IsSpace"] = uniAxiom(isSpaceGo)
	axioms["uni_IsLetter"] = uniAxiom(isLetterGo)
	axioms["uni_IsDigit"] = uniAxiom(isDigitGo)
	axioms["uni_IsUpper"] = uniAxiom(isUpperGo)
	axioms["uni_IsLower"] = uniAxiom(isLowerGo)
	trimL := func(ex *Exec, t *Term) []*Term {
		out := []*Term{Suffix(t, t.args[0])}
		if c := t.args[1]; c.op == OLit && len(c.name) == 1 {
			out = append(out, Or(Eq(Len(t), Int(0)), Not(Eq(Nth(t, Int(0)), Int(int64(c.name[0]))))))
		}
		return out
	}
	axioms["strings_TrimLeft"] = trimL
	axioms["uni_ToUpper"] = caseAxiom('a', 'z', -32)
	axioms["uni_ToLower"] = caseAxiom('A', 'Z', 32)
	axioms["utf8width"] = func(ex *Exec, t *Term) []*Term {
		s, p := t.args[0], t.args[1]
		in := And(Le(Int(0), p), Lt(p, Len(s)))
		return []*Term{Imp(in, And(Le(Int(1), t), Le(t, Int(4)), Le(Add(p, t), Len(s))))}
	}
	axioms["utf8rune"] = func(ex *Exec, t *Term) []*Term {
		return []*Term{Le(Int(128), t), Le(t, Int(0x10FFFF))}
	}
}

// caseAxiom: unicode case mapping on ASCII; elsewhere the result is some rune.
func caseAxiom(lo, hi, d int64) func(ex *Exec, t *Term) []*Term {
	return func(ex *Exec, t *Term) []*Term {
		x := t.args[0]
		in := And(Le(Int(lo), x), Le(x, Int(hi)))
		ascii := And(Le(Int(0), x), Lt(x, Int(128)))
		return []*Term{
			Imp(in, Eq(t, Add(x, Int(d)))),
			Imp(And(ascii, Not(in)), Eq(t, x)),
			Imp(And(Le(Int(0), x), Le(x, Int(0x10FFFF))), And(Le(Int(0), t), Le(t, Int(0x10FFFF)))),
		}
	}
}
