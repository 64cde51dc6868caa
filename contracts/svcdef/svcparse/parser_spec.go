//go:build go1.18

package svcparse

import (
	"strconv"

	"github.com/pkg/errors"
)

var _ = errors.Is



// Contracts of svcdef/svcparse/parser.go.

// specTill: the position after the first token at or after i, white space skipped, whose text is delim; -1 when
// the tokens end (or an illegal token comes) before.
//@ func specTill(b []*TokenGroup, i int, delim string) (r int)
//@ dec: len(b) - i
func specTill(b []*TokenGroup, i int, delim string) int {
	j := specSkip(b, i, WHITESPACE)
	if i < 0 || j < i || j >= len(b) || b[j].token == EOF || b[j].token == ILLEGAL {
		return -1
	}
	if b[j].value == delim {
		return j + 1
	}
	return specTill(b, j+1, delim)
}

//@ func fastForwardTill(lex *SvcLexer, delim string) (err error)
//@ prop C06,C07
//@ attr terminates
//@ requires wf: specLX(lex)
//@ modifies lex.tkPos, lex.lineNo
//@ let p0 int = lex.tkPos
//@ let e int = specTill(lex.Buf, lex.tkPos, delim)
//@ ensures wf: specLX(lex) && p0 <= lex.tkPos
//@ ensures found: (err == nil) == (e >= 0)
//@ ensures pos: err != nil || lex.tkPos == e && p0 < e
//@ ensures notEnd: !errors.Is(err, ErrSvcDefEnd)
//@ inv wf(): specLX(lex) && p0 <= lex.tkPos && specTill(lex.Buf, lex.tkPos, delim) == e
//@ dec (): len(lex.Buf) - lex.tkPos


// specLeft: how much is left to read when tk is the last token read.
func specLeft(l *SvcLexer, tk Token) int {
	if tk == EOF {
		return 2 * (len(l.Buf) - l.tkPos)
	}
	return 2*(len(l.Buf)-l.tkPos) + 1
}

// lemCW: skipping goes forward.
//@ func lemCW(b []*TokenGroup, i int) (r bool)
//@ lemma
//@ nosafety
//@ prop C07
//@ requires pos: 0 <= i
//@ ensures forward: i <= specSkipCW(b, i) && (i > len(b) || specSkipCW(b, i) <= len(b))
//@ dec: len(b) - i
func lemCW(b []*TokenGroup, i int) bool {
	if i >= len(b) || b[i].token != WHITESPACE && b[i].token != COMMENT {
		return true
	}
	return lemCW(b, i+1)
}

// specI: an arbitrary index, the same everywhere.
//@ func specI() (r int)
//@ attr abstract
func specI() int { return 0 }

// specUnq: what the string literal says; specUnqOK: whether it says something.
func specUnq(s string) string {
	v, _ := strconv.Unquote(s)
	return v
}

func specUnqOK(s string) bool {
	_, err := strconv.Unquote(s)
	return err == nil
}

// specLitAt: position of the value of the field whose key is at j: ':' and a string literal follow the key; -1 otherwise.
func specLitAt(b []*TokenGroup, j int) int {
	c := specSkip(b, j+1, WHITESPACE)
	if j < 0 || c <= j || c >= len(b) || b[c].token != SYMBOL || b[c].value != ":" {
		return -1
	}
	s := specSkip(b, c+1, WHITESPACE)
	if s <= c || s >= len(b) || b[s].token != STRING_LITERAL || !specUnqOK(b[s].value) {
		return -1
	}
	return s
}

func specFieldsStop(g *TokenGroup) bool {
	return g.token == CLOSE_BRACE && g.value == "}" || g.value == "additional_bindings"
}

// specFieldNext: the next key after the field whose key is at j; -1 when the field is malformed.
func specFieldNext(b []*TokenGroup, j int) int {
	s := specLitAt(b, j)
	if s <= j || s >= len(b) {
		return -1
	}
	k := specSkipCW(b, s+1)
	if k <= j || k > len(b) {
		return -1
	}
	return k
}

// specCustomFrom: the first key of the custom section whose keyword is at j; -1 without a brace.
func specCustomFrom(b []*TokenGroup, j int) int {
	k := specTill(b, j+1, "{")
	if k <= j || k > len(b) {
		return -1
	}
	f := specSkipCW(b, k)
	if f <= j || f > len(b) {
		return -1
	}
	return f
}

// specCustomNext: the next key after the custom section whose keyword is at j, m the end of its fields; -1 when malformed.
func specCustomNext(b []*TokenGroup, j, m int) int {
	n := specTill(b, m, "}")
	if m < 0 || n <= m || n > len(b) {
		return -1
	}
	k := specSkipCW(b, n)
	if k <= j || k > len(b) {
		return -1
	}
	return k
}

// specEndAt: the closing brace or additional_bindings at which the fields end, the first of which has its key at j; -1
// when they are malformed.
//@ func specEndAt(b []*TokenGroup, j int) (r int)
//@ attr opaque specTill,specSkip,specSkipCW,specEndAt
//@ dec: len(b) - j
func specEndAt(b []*TokenGroup, j int) int {
	if j < 0 || j >= len(b) || b[j].token == ILLEGAL {
		return -1
	}
	if specFieldsStop(b[j]) {
		return j
	}
	if b[j].value == "custom" {
		f := specCustomFrom(b, j)
		if f < 0 {
			return -1
		}
		n := specCustomNext(b, j, specEndAt(b, f))
		if n < 0 {
			return -1
		}
		return specEndAt(b, n)
	}
	n := specFieldNext(b, j)
	if n < 0 {
		return -1
	}
	return specEndAt(b, n)
}

// specKeyNext: the key after the one at j, or the end of the fields; -1 without one.
func specKeyNext(b []*TokenGroup, j int) int {
	if j < 0 || j >= len(b) || b[j].token == ILLEGAL || specFieldsStop(b[j]) {
		return -1
	}
	if b[j].value != "custom" {
		return specFieldNext(b, j)
	}
	f := specCustomFrom(b, j)
	if f < 0 {
		return -1
	}
	return specCustomNext(b, j, specEndAt(b, f))
}

// specNum: the number of fields, the first of which has its key at j.
//@ func specNum(b []*TokenGroup, j int) (r int)
//@ attr opaque specTill,specSkip,specSkipCW,specEndAt
//@ dec: len(b) - j
func specNum(b []*TokenGroup, j int) int {
	n := specKeyNext(b, j)
	if n < 0 || n <= j {
		return 0
	}
	if b[j].value == "custom" {
		return specNum(b, n)
	}
	return specNum(b, n) + 1
}

// specKeyAt: the position of the key of field i of them; -1 without one.
//@ func specKeyAt(b []*TokenGroup, j int, i int) (r int)
//@ attr opaque specTill,specSkip,specSkipCW,specEndAt
//@ dec: len(b) - j
func specKeyAt(b []*TokenGroup, j int, i int) int {
	n := specKeyNext(b, j)
	if n < 0 || n <= j {
		return -1
	}
	if b[j].value == "custom" {
		return specKeyAt(b, n, i)
	}
	if i <= 0 {
		return j
	}
	return specKeyAt(b, n, i-1)
}

// specCustomAt: the first key of the last custom section among them; -1 without one.
//@ func specCustomAt(b []*TokenGroup, j int) (r int)
//@ attr opaque specTill,specSkip,specSkipCW,specEndAt
//@ dec: len(b) - j
func specCustomAt(b []*TokenGroup, j int) int {
	n := specKeyNext(b, j)
	if n < 0 || n <= j {
		return -1
	}
	r := specCustomAt(b, n)
	if b[j].value == "custom" && r < 0 {
		return specCustomFrom(b, j)
	}
	return r
}

// lemStep: what the definitions above say of the key at j, which counts as field i.
//@ func lemStep(b []*TokenGroup, j int, i int) (r bool)
//@ lemma
//@ nosafety
//@ prop C07
//@ attr opaque specTill,specSkip,specSkipCW,specLC
//@ ensures stop: !specStopsAt(b, j) || specEndAt(b, j) == j && specNum(b, j) == 0 && specCustomAt(b, j) == -1 && specKeyAt(b, j, i) == -1
//@ ensures bad: specStopsAt(b, j) || specKeyNext(b, j) >= 0 || specEndAt(b, j) == -1 && specNum(b, j) == 0 && specCustomAt(b, j) == -1 && specKeyAt(b, j, i) == -1
//@ ensures custom: specKeyNext(b, j) < 0 || b[j].value != "custom" || specCustomPast(b, j, i)
//@ ensures field: specKeyNext(b, j) < 0 || b[j].value == "custom" || specFieldPast(b, j, i)
func lemStep(b []*TokenGroup, j int, i int) bool { return true }

func specStopsAt(b []*TokenGroup, j int) bool {
	return j >= 0 && j < len(b) && b[j].token != ILLEGAL && specFieldsStop(b[j])
}

// specCustomPast: the custom section at j adds no field.
func specCustomPast(b []*TokenGroup, j, i int) bool {
	n := specKeyNext(b, j)
	c := specCustomAt(b, n)
	if c < 0 {
		c = specCustomFrom(b, j)
	}
	return n > j && specEndAt(b, j) == specEndAt(b, n) && specNum(b, j) == specNum(b, n) && specKeyAt(b, j, i) == specKeyAt(b, n, i) && specCustomAt(b, j) == c
}

// specFieldPast: the field at j is one more.
func specFieldPast(b []*TokenGroup, j, i int) bool {
	n := specKeyNext(b, j)
	k := j
	if i > 0 {
		k = specKeyAt(b, n, i-1)
	}
	return n > j && specEndAt(b, j) == specEndAt(b, n) && specNum(b, j) == specNum(b, n)+1 && specKeyAt(b, j, i) == k && specCustomAt(b, j) == specCustomAt(b, n)
}

// specKey, specTxt: key and value of the field whose key is at k.
//@ func specKey(b []*TokenGroup, k int) (r string)
//@ attr app
func specKey(b []*TokenGroup, k int) string { return specVal(b, k) }

//@ func specTxt(b []*TokenGroup, k int) (r string)
//@ attr app
func specTxt(b []*TokenGroup, k int) string { return specUnq(specVal(b, specLitAt(b, k))) }

//@ func specGood(b []*TokenGroup, k int) (r bool)
//@ attr app
func specGood(b []*TokenGroup, k int) bool { return 0 <= k && k < len(b) && specLitAt(b, k) >= 0 }

// specIsField: f reports the field of the text whose key is at k.
func specIsField(f *Field, b []*TokenGroup, k int) bool {
	return f != nil && specGood(b, k) && f.Kind == specKey(b, k) && f.Name == specKey(b, k) && f.Value == specTxt(b, k)
}

// specSome: field specI of fs, if there is one, reports that of the text.
func specSome(fs []*Field, b []*TokenGroup, j int) bool {
	i := specI()
	return i < 0 || i >= len(fs) || specIsField(fs[i], b, specKeyAt(b, j, i))
}

// specFieldsAre: fs are the fields of the text, the first of which has its key at j.
func specFieldsAre(fs []*Field, b []*TokenGroup, j int) bool {
	return len(fs) == specNum(b, j) && specSome(fs, b, j)
}

func specCustomIs(fs []*Field, b []*TokenGroup, c int) bool {
	return c < 0 && len(fs) == 0 || c >= 0 && specFieldsAre(fs, b, c)
}

// specRest: fs are the first fields of those at j, those at now are still to come.
func specRest(fs []*Field, b []*TokenGroup, j, now int) bool {
	return len(fs)+specNum(b, now) == specNum(b, j) && (specI() < len(fs) || specKeyAt(b, now, specI()-len(fs)) == specKeyAt(b, j, specI()))
}

// specOwn: field specI of fs is new and not f.
func specOwn(fs []*Field, f *Field) bool {
	i := specI()
	return i < 0 || i >= len(fs) || fs[i] != nil && fs[i] != f && vFresh(fs[i])
}

// specCustomSo: the fields of the last custom section before now, unless there is one still to come.
func specCustomSo(fs []*Field, b []*TokenGroup, j, now int) bool {
	if specCustomAt(b, now) >= 0 {
		return specCustomAt(b, now) == specCustomAt(b, j)
	}
	return specCustomIs(fs, b, specCustomAt(b, j))
}

// specNow: the next token that counts, when tk is the last token read.
func specNow(l *SvcLexer, tk Token) int {
	if tk == EOF {
		return len(l.Buf)
	}
	if tk == COMMENT {
		return specSkipCW(l.Buf, l.tkPos)
	}
	return l.tkPos - 1
}

//@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err error)
//@ prop C06,C07
//@ attr terminates
//@ attr opaque specTill,specSkip,specSkipCW,specLC,specEndAt,specNum,specKeyAt,specCustomAt
//@ requires wf: specLX(lex)
//@ modifies lex.tkPos, lex.lineNo
//@ let p0 int = lex.tkPos
//@ let b []*TokenGroup = lex.Buf
//@ let j int = specSkipCW(lex.Buf, lex.tkPos)
//@ dec: len(lex.Buf) - lex.tkPos
//@ ensures wf: specLX(lex) && p0 <= lex.tkPos
//@ ensures either: err == nil || fields == nil && custom == nil
//@ inv wf(): specLX(lex) && p0 <= lex.tkPos
//@ inv own(field *Field): field != nil && vFresh(field)
//@ inv adv(tk Token): tk == EOF || p0 < lex.tkPos
//@ dec (): len(lex.Buf) - lex.tkPos
//@ dec (tk Token): specLeft(lex, tk)
//@ just C07
//@ ensures forward: lemCW(b, p0)
//@ ensures accepted: (err == nil) == (specEndAt(b, j) >= 0)
//@ ensures notEnd: !errors.Is(err, ErrSvcDefEnd)
//@ ensures pos: err != nil || lex.tkPos == specEndAt(b, j)
//@ ensures isFields: err != nil || specFieldsAre(fields, b, j)
//@ ensures isCustom: err != nil || specCustomIs(custom, b, specCustomAt(b, j))
//@ ensures own: specOwn(fields, nil) && specOwn(custom, nil)
//@ inv end@0(): lemCW(b, lex.tkPos) && specEndAt(b, specSkipCW(b, lex.tkPos)) == specEndAt(b, j)
//@ inv endI@1(tk Token, fields []*Field): lemStep(b, specNow(lex, tk), specI()-len(fields)) && specEndAt(b, specNow(lex, tk)) == specEndAt(b, j)
//@ inv rest@0(fields []*Field): specRest(fields, b, j, specSkipCW(b, lex.tkPos))
//@ inv restI@1(tk Token, fields []*Field): specRest(fields, b, j, specNow(lex, tk))
//@ inv done@0(fields []*Field, field *Field): specOwn(fields, field) && specSome(fields, b, j)
//@ inv doneI@1(fields []*Field, field *Field): specOwn(fields, field) && specSome(fields, b, j)
//@ inv cust@0(custom []*Field, field *Field): specOwn(custom, field) && specCustomSo(custom, b, j, specSkipCW(b, lex.tkPos))
//@ inv custI@1(tk Token, custom []*Field, field *Field): specOwn(custom, field) && specCustomSo(custom, b, j, specNow(lex, tk))
//@ inv cur@1(tk Token, val string): specLC0(lex, tk, val)

// specK: an arbitrary index, the same everywhere.
//@ func specK() (r int)
//@ attr abstract
func specK() int { return 0 }

// specAddNext: the token that counts after the additional binding whose keyword is at k; -1 when it is malformed.
func specAddNext(b []*TokenGroup, k int) int {
	if k < 0 || k >= len(b) || b[k].token == ILLEGAL || b[k].token == CLOSE_BRACE || b[k].value != "additional_bindings" {
		return -1
	}
	f := specCustomFrom(b, k)
	if f < 0 {
		return -1
	}
	return specCustomNext(b, k, specEndAt(b, f))
}

func specClosesAt(b []*TokenGroup, k int) bool {
	return k >= 0 && k < len(b) && b[k].token == CLOSE_BRACE
}

// specAddEnd: the brace that closes the option whose additional bindings are at k; -1 when they are malformed.
//@ func specAddEnd(b []*TokenGroup, k int) (r int)
//@ attr opaque specTill,specSkip,specSkipCW,specEndAt
//@ dec: len(b) - k
func specAddEnd(b []*TokenGroup, k int) int {
	if specClosesAt(b, k) {
		return k
	}
	n := specAddNext(b, k)
	if n < 0 || n <= k {
		return -1
	}
	return specAddEnd(b, n)
}

// specAddNum: the number of additional bindings, the first of which has its keyword at k.
//@ func specAddNum(b []*TokenGroup, k int) (r int)
//@ attr opaque specTill,specSkip,specSkipCW,specEndAt
//@ dec: len(b) - k
func specAddNum(b []*TokenGroup, k int) int {
	n := specAddNext(b, k)
	if n < 0 || n <= k {
		return 0
	}
	return specAddNum(b, n) + 1
}

// specAddAt: the keyword of additional binding i of them; -1 without one.
//@ func specAddAt(b []*TokenGroup, k int, i int) (r int)
//@ attr opaque specTill,specSkip,specSkipCW,specEndAt
//@ dec: len(b) - k
func specAddAt(b []*TokenGroup, k int, i int) int {
	n := specAddNext(b, k)
	if n < 0 || n <= k {
		return -1
	}
	if i <= 0 {
		return k
	}
	return specAddAt(b, n, i-1)
}

// lemAdd: what the definitions above say of the token at k.
//@ func lemAdd(b []*TokenGroup, k int, i int) (r bool)
//@ lemma
//@ nosafety
//@ prop C07
//@ attr opaque specTill,specSkip,specSkipCW,specEndAt
//@ ensures stop: !specClosesAt(b, k) || specAddEnd(b, k) == k && specAddNum(b, k) == 0
//@ ensures bad: specClosesAt(b, k) || specAddNext(b, k) >= 0 || specAddEnd(b, k) == -1 && specAddNum(b, k) == 0
//@ ensures step: specAddNext(b, k) < 0 || specAddPast(b, k, i)
func lemAdd(b []*TokenGroup, k int, i int) bool { return true }

func specAddPast(b []*TokenGroup, k, i int) bool {
	n := specAddNext(b, k)
	r := k
	if i > 0 {
		r = specAddAt(b, n, i-1)
	}
	return n > k && specAddEnd(b, k) == specAddEnd(b, n) && specAddNum(b, k) == specAddNum(b, n)+1 && specAddAt(b, k, i) == r
}

// specAddFrom: the token that counts after the fields of the option at j; -1 when they are malformed.
func specAddFrom(b []*TokenGroup, j int) int {
	f := specCustomFrom(b, j)
	if f < 0 || specEndAt(b, f) < 0 {
		return -1
	}
	return specSkipCW(b, specEndAt(b, f))
}

// specBindEnd: the position after the bindings declared at j; -1 when there are none or they are malformed.
//@ func specBindEnd(b []*TokenGroup, j int) (r int)
//@ attr app
func specBindEnd(b []*TokenGroup, j int) int {
	if j < 0 || j >= len(b) || b[j].token == ILLEGAL {
		return -1
	}
	if b[j].value == "option" {
		m := specAddFrom(b, j)
		e := specAddEnd(b, m)
		if m < 0 || e < 0 {
			return -1
		}
		return e + 1
	}
	if b[j].value == "additional_bindings" {
		f := specCustomFrom(b, j)
		if f < 0 || specEndAt(b, f) < 0 {
			return -1
		}
		n := specTill(b, specEndAt(b, f), "}")
		if n <= specEndAt(b, f) || n > len(b) {
			return -1
		}
		return n
	}
	return -1
}

// specBindNum: the number of bindings declared at j.
//@ func specBindNum(b []*TokenGroup, j int) (r int)
//@ attr app
func specBindNum(b []*TokenGroup, j int) int {
	if specVal(b, j) == "option" {
		return specAddNum(b, specAddFrom(b, j)) + 1
	}
	return 1
}

// specBindAt: the first key of binding i of those declared at j: the additional ones first.
//@ func specBindAt(b []*TokenGroup, j int, i int) (r int)
//@ attr app
func specBindAt(b []*TokenGroup, j int, i int) int {
	if specVal(b, j) == "option" && i < specAddNum(b, specAddFrom(b, j)) {
		return specCustomFrom(b, specAddAt(b, specAddFrom(b, j), i))
	}
	return specCustomFrom(b, j)
}

// specBound: h is the binding of the text whose first key is at f.
func specBound(h *HTTPBinding, b []*TokenGroup, f int) bool {
	return h != nil && specFieldsAre(h.Fields, b, f) && specCustomIs(h.CustomHTTPPattern, b, specCustomAt(b, f))
}

// specBindsSo: binding specK of hs, if there is one, is that of the text.
func specBindsSo(hs []*HTTPBinding, b []*TokenGroup, j int) bool {
	k := specK()
	return k < 0 || k >= len(hs) || specBound(hs[k], b, specBindAt(b, j, k))
}

// specAddsSo: additional binding specK of hs, if there is one, is that of the text.
func specAddsSo(hs []*HTTPBinding, b []*TokenGroup, m int) bool {
	k := specK()
	return k < 0 || k >= len(hs) || specBound(hs[k], b, specCustomFrom(b, specAddAt(b, m, k)))
}

// specAddRest: hs are the first additional bindings of those at m, those at now are still to come.
func specAddRest(hs []*HTTPBinding, b []*TokenGroup, m, now int) bool {
	return len(hs)+specAddNum(b, now) == specAddNum(b, m) && (specK() < len(hs) || specAddAt(b, now, specK()-len(hs)) == specAddAt(b, m, specK()))
}

// specOptPos: the first token that counts from p0 on is at pos.
func specAt(l *SvcLexer, p0, pos int) bool { return pos >= 0 && specSkipCW(l.Buf, p0) == pos }

//@ func ParseHttpBindings(lex *SvcLexer) (bs []*HTTPBinding, err error)
//@ prop C06,C07
//@ attr apart isFields:isMain|isOne|isBindings,isCustom:isMain|isOne|isBindings,isBindings:-,isOne:isAdds,isAdds:isAdds|isBindings,isMain:isMain|isBindings
//@ attr terminates
//@ attr opaque specTill,specSkip,specSkipCW,specLC,specEndAt,specNum,specKeyAt,specCustomAt,specKey,specTxt,specGood,specAddEnd,specAddNum,specAddAt
//@ requires wf: specLX(lex)
//@ modifies lex.tkPos, lex.lineNo
//@ let p0 int = lex.tkPos
//@ let b []*TokenGroup = lex.Buf
//@ let j int = specSkipCW(lex.Buf, lex.tkPos)
//@ dec: len(lex.Buf) - lex.tkPos
//@ ensures wf: specLX(lex) && p0 <= lex.tkPos
//@ ensures either: err == nil || bs == nil
//@ ensures used: err != nil || p0 <= j && j < lex.tkPos
//@ ensures none: err != nil || bs != nil || specVal(b, j) == "}"
//@ ensures some: err != nil || bs == nil || len(bs) > 0 && j+1 < lex.tkPos
//@ ensures built: vAll(0, len(bs), func(i int) bool { return bs[i] != nil && vFresh(bs[i]) })
//@ inv wf(): specLX(lex) && p0 <= lex.tkPos
//@ inv own(new_opt *HTTPBinding): new_opt != nil && vFresh(new_opt)
//@ inv first(tk Token, val string): tk == EOF || tk == COMMENT || p0 < lex.tkPos && j == lex.tkPos-1
//@ inv firstC(tk Token, val string): tk != COMMENT || p0 < lex.tkPos && j == specSkipCW(b, lex.tkPos)
//@ inv rv(rv []*HTTPBinding): rv != nil && vAll(0, len(rv), func(i int) bool { return rv[i] != nil && vFresh(rv[i]) })
//@ inv good(good_position int): p0 <= j && j+1 < good_position && good_position <= lex.tkPos
//@ inv cur(tk Token, val string): specLC0(lex, tk, val)
//@ inv next(good_position int, tk Token): tk == EOF || tk == COMMENT || specSkipCW(b, good_position) == lex.tkPos-1
//@ dec (tk Token): specLeft(lex, tk)
//@ just C07
//@ ensures accepted: (err == nil && bs != nil) == (specBindEnd(b, j) >= 0)
//@ ensures pos: err != nil || bs == nil || lex.tkPos == specBindEnd(b, j) && lemCW(b, lex.tkPos)
//@ ensures number: err != nil || bs == nil || len(bs) == specBindNum(b, j)
//@ ensures ended: (err == nil && bs == nil) == specNoBind(b, j) && (err != nil || bs != nil || lex.tkPos == j+1)
//@ ensures notEnd: !errors.Is(err, ErrSvcDefEnd)
//@ ensures isBindings: specBindsSo(bs, b, j)
//@ ensures isOne: err != nil || bs == nil || specVal(b, j) == "option" || specBound(bs[0], b, specCustomFrom(b, j))
//@ inv now@0(tk Token): specNow(lex, tk) == j
//@ inv end@1(tk Token, rv []*HTTPBinding): lemCW(b, lex.tkPos) && lemAdd(b, specNow(lex, tk), specK()-len(rv)) && specAddEnd(b, specNow(lex, tk)) == specAddEnd(b, specAddFrom(b, j))
//@ inv rest@1(tk Token, rv []*HTTPBinding): specAddRest(rv, b, specAddFrom(b, j), specNow(lex, tk))
//@ inv isAdds@1(rv []*HTTPBinding): specAddsSo(rv, b, specAddFrom(b, j))
//@ inv isMain@1(new_opt *HTTPBinding): specBound(new_opt, b, specCustomFrom(b, j))

// specLC0: tk, val is the token before the cursor, or the end of the tokens.
func specLC0(l *SvcLexer, tk Token, val string) bool {
	if l.tkPos > 0 && tk == specTok(l.Buf, l.tkPos-1) && val == specVal(l.Buf, l.tkPos-1) {
		return true
	}
	return tk == EOF && val == "" && l.tkPos == len(l.Buf)
}

// specNoBind: the method that goes on at j declares no bindings.
func specNoBind(b []*TokenGroup, j int) bool {
	return j >= 0 && j < len(b) && b[j].token != ILLEGAL && b[j].value == "}"
}

func specW(b []*TokenGroup, i int) int { return specSkip(b, i, WHITESPACE) }

// specTypeFrom: the first name of the type in the parentheses that open at o; -1 without one.
func specTypeFrom(b []*TokenGroup, o int) int {
	a := specW(b, o+1)
	if specVal(b, a) == "stream" {
		a = specW(b, a+1)
	}
	if o < 0 || a <= o || specTok(b, a) != IDENT {
		return -1
	}
	return a
}

// specTypeOn: the token that counts after the one at a, in the name of a type.
func specTypeOn(b []*TokenGroup, a int) int {
	if a < 0 || a >= len(b) || b[a].token != SYMBOL && b[a].token != IDENT {
		return -1
	}
	n := specW(b, a+1)
	if n <= a || n > len(b) {
		return -1
	}
	return n
}

// specTypeEnd: the parenthesis that closes the type that goes on at a; -1 without one.
//@ func specTypeEnd(b []*TokenGroup, a int) (r int)
//@ attr opaque specSkip
//@ dec: len(b) - a
func specTypeEnd(b []*TokenGroup, a int) int {
	if specTok(b, a) == CLOSE_PAREN {
		return a
	}
	n := specTypeOn(b, a)
	if n < 0 {
		return -1
	}
	return specTypeEnd(b, n)
}

// specTypeAt: the last identifier of the type that goes on at a; -1 without one.
//@ func specTypeAt(b []*TokenGroup, a int) (r int)
//@ attr opaque specSkip
//@ dec: len(b) - a
func specTypeAt(b []*TokenGroup, a int) int {
	n := specTypeOn(b, a)
	if n < 0 {
		return -1
	}
	r := specTypeAt(b, n)
	if r < 0 && b[a].token == IDENT {
		return a
	}
	return r
}

// lemType: what the definitions above say of the token at a.
//@ func lemType(b []*TokenGroup, a int) (r bool)
//@ lemma
//@ nosafety
//@ prop C07
//@ attr opaque specSkip
//@ ensures stop: specTok(b, a) != CLOSE_PAREN || specTypeEnd(b, a) == a && specTypeAt(b, a) == -1
//@ ensures bad: specTok(b, a) == CLOSE_PAREN || specTypeOn(b, a) >= 0 || specTypeEnd(b, a) == -1 && specTypeAt(b, a) == -1
//@ ensures step: specTypeOn(b, a) < 0 || specTypePast(b, a)
func lemType(b []*TokenGroup, a int) bool { return true }

func specTypePast(b []*TokenGroup, a int) bool {
	n := specTypeOn(b, a)
	r := specTypeAt(b, n)
	if r < 0 && b[a].token == IDENT {
		r = a
	}
	return n > a && specTypeEnd(b, a) == specTypeEnd(b, n) && specTypeAt(b, a) == r
}

// lemW: skipping goes forward.
//@ func lemW(b []*TokenGroup, i int) (r bool)
//@ lemma
//@ nosafety
//@ prop C07
//@ requires pos: 0 <= i
//@ ensures forward: i <= specW(b, i) && (i > len(b) || specW(b, i) <= len(b))
//@ dec: len(b) - i
func lemW(b []*TokenGroup, i int) bool {
	if i >= len(b) || b[i].token != WHITESPACE {
		return true
	}
	return lemW(b, i+1)
}

// specReqFrom, specResFrom: the types of the rpc at j.
//@ func specReqFrom(b []*TokenGroup, j int) (r int)
//@ attr app
func specReqFrom(b []*TokenGroup, j int) int {
	return specTypeFrom(b, specW(b, specW(b, j+1)+1))
}

//@ func specResFrom(b []*TokenGroup, j int) (r int)
//@ attr app
func specResFrom(b []*TokenGroup, j int) int {
	return specTypeFrom(b, specW(b, specW(b, specTypeEnd(b, specReqFrom(b, j))+1)+1))
}

// specRpcBody: what follows the signature of the rpc at j.
func specRpcBody(b []*TokenGroup, j int) int {
	return specW(b, specTypeEnd(b, specResFrom(b, j))+1)
}

// specSigned: an rpc with a good signature is at j.
func specSigned(b []*TokenGroup, j int) bool {
	n := specW(b, j+1)
	c := specTypeEnd(b, specReqFrom(b, j))
	r := specW(b, c+1)
	return specTok(b, j) == IDENT && specVal(b, j) == "rpc" && specTok(b, n) == IDENT && specTok(b, specW(b, n+1)) == OPEN_PAREN && specReqFrom(b, j) >= 0 && c >= 0 &&
		specTok(b, r) == IDENT && specVal(b, r) == "returns" && specTok(b, specW(b, r+1)) == OPEN_PAREN && specResFrom(b, j) >= 0 && specTypeEnd(b, specResFrom(b, j)) >= 0
}

//@ func specRpcName(b []*TokenGroup, j int) (r string)
//@ attr app
func specRpcName(b []*TokenGroup, j int) string { return specVal(b, specW(b, j+1)) }

//@ func specRpcReq(b []*TokenGroup, j int) (r string)
//@ attr app
func specRpcReq(b []*TokenGroup, j int) string { return specVal(b, specTypeAt(b, specReqFrom(b, j))) }

//@ func specRpcRes(b []*TokenGroup, j int) (r string)
//@ attr app
func specRpcRes(b []*TokenGroup, j int) string { return specVal(b, specTypeAt(b, specResFrom(b, j))) }

// specRpcBinds: where the rpc at j declares its bindings.
//@ func specRpcBinds(b []*TokenGroup, j int) (r int)
//@ attr app
func specRpcBinds(b []*TokenGroup, j int) int { return specSkipCW(b, specRpcBody(b, j)+1) }

// specRpcKept: the rpc at j declares bindings.
//@ func specRpcKept(b []*TokenGroup, j int) (r bool)
//@ attr app
func specRpcKept(b []*TokenGroup, j int) bool {
	return specVal(b, specRpcBody(b, j)) != ";" && !specNoBind(b, specRpcBinds(b, j))
}

// specRpcEnd: the position after the rpc at j; -1 when it is malformed.
//@ func specRpcEnd(b []*TokenGroup, j int) (r int)
//@ attr app
func specRpcEnd(b []*TokenGroup, j int) int {
	h := specRpcBody(b, j)
	if !specSigned(b, j) {
		return -1
	}
	if specVal(b, h) == ";" {
		return h + 1
	}
	if specTok(b, h) != OPEN_BRACE {
		return -1
	}
	k := specRpcBinds(b, j)
	if specNoBind(b, k) {
		return k + 1
	}
	e := specBindEnd(b, k)
	s := specSkipCW(b, e)
	t := specSkipCW(b, s+1)
	if e < 0 || specTok(b, s) != SYMBOL || specVal(b, s) != ";" || specTok(b, t) != CLOSE_BRACE {
		return -1
	}
	return t + 1
}

// specIsRpc: m is the rpc at j.
func specIsRpc(m *Method, b []*TokenGroup, j int) bool {
	return m.Name == specRpcName(b, j) && m.RequestType == specRpcReq(b, j) && m.ResponseType == specRpcRes(b, j) && len(m.HTTPBindings) == specBindNum(b, specRpcBinds(b, j)) && specBindsSo(m.HTTPBindings, b, specRpcBinds(b, j))
}

// specRead: the token read last.
func specRead(l *SvcLexer, tk Token) int {
	if tk == EOF {
		return len(l.Buf)
	}
	return l.tkPos - 1
}

// specTypeSo: s is the last name of the type at a, when there is none from now on.
func specTypeSo(s string, b []*TokenGroup, a, now int) bool {
	return specTypeAt(b, now) == specTypeAt(b, a) || specTypeAt(b, now) < 0 && s == specVal(b, specTypeAt(b, a))
}

//@ func ParseMethod(lex *SvcLexer) (m *Method, err error)
//@ prop C06,C07
//@ attr apart isBindings:isMethod,isOne:-
//@ attr terminates
//@ attr opaque specTill,specSkip,specSkipCW,specLC,specEndAt,specNum,specKeyAt,specCustomAt,specKey,specTxt,specGood,specAddEnd,specAddNum,specAddAt,specBindEnd,specBindNum,specBindAt,specTypeEnd,specTypeAt
//@ requires wf: specLX(lex)
//@ modifies lex.tkPos, lex.lineNo
//@ let p0 int = lex.tkPos
//@ ensures wf: specLX(lex) && p0 <= lex.tkPos
//@ ensures either: err == nil || m == nil
//@ ensures used: err != nil || p0 < lex.tkPos
//@ inv wf(): specLX(lex) && p0 <= lex.tkPos
//@ inv first(tk Token): tk == EOF || p0 < lex.tkPos
//@ dec (tk Token): specLeft(lex, tk)
//@ just C07
//@ let b []*TokenGroup = lex.Buf
//@ let j int = specSkipCW(lex.Buf, lex.tkPos)
//@ ensures forward: lemCW(b, p0) && lemCW(b, lex.tkPos)
//@ ensures ended: errors.Is(err, ErrSvcDefEnd) == (specTok(b, j) == CLOSE_BRACE)
//@ ensures accepted: (err == nil) == (specRpcEnd(b, j) >= 0)
//@ ensures kept: err != nil || (m != nil) == specRpcKept(b, j)
//@ ensures pos: err != nil || lex.tkPos == specRpcEnd(b, j) && j < lex.tkPos
//@ ensures over: specTok(b, j) != CLOSE_BRACE || lex.tkPos == j+1
//@ ensures own: m == nil || vFresh(m)
//@ ensures isMethod: m == nil || specIsRpc(m, b, j)
//@ inv now@0(tk Token): specNow(lex, tk) == j
//@ inv cur@0(tk Token, val string): specLC0(lex, tk, val)
//@ inv cur1@1(tk Token, val string): specLC0(lex, tk, val)
//@ inv cur2@2(tk Token, val string): specLC0(lex, tk, val)
//@ inv own1@1(toret *Method): toret != nil && vFresh(toret) && toret.Name == specRpcName(b, j)
//@ inv own2@2(toret *Method): toret != nil && vFresh(toret) && toret.Name == specRpcName(b, j) && toret.RequestType == specRpcReq(b, j)
//@ inv req@1(tk Token, toret *Method): lemType(b, specRead(lex, tk)) && specTypeEnd(b, specRead(lex, tk)) == specTypeEnd(b, specReqFrom(b, j)) && specTypeSo(toret.RequestType, b, specReqFrom(b, j), specRead(lex, tk))
//@ inv res@2(tk Token, toret *Method): lemType(b, specRead(lex, tk)) && specTypeEnd(b, specRead(lex, tk)) == specTypeEnd(b, specResFrom(b, j)) && specTypeSo(toret.ResponseType, b, specResFrom(b, j), specRead(lex, tk))

// specM: an arbitrary index, the same everywhere.
//@ func specM() (r int)
//@ attr abstract
func specM() int { return 0 }

// specSvcNext: what counts after the rpc at j; -1 when it is malformed or the service ends.
func specSvcNext(b []*TokenGroup, j int) int {
	e := specRpcEnd(b, j)
	n := specSkipCW(b, e)
	if j < 0 || j >= len(b) || specTok(b, j) == CLOSE_BRACE || e < 0 || n <= j || n > len(b) {
		return -1
	}
	return n
}

// specSvcEnd: the brace that ends the service whose rpcs go on at j; -1 when it is malformed.
//@ func specSvcEnd(b []*TokenGroup, j int) (r int)
//@ attr opaque specSkipCW,specRpcEnd,specRpcKept
//@ dec: len(b) - j
func specSvcEnd(b []*TokenGroup, j int) int {
	if specTok(b, j) == CLOSE_BRACE {
		return j
	}
	n := specSvcNext(b, j)
	if n < 0 {
		return -1
	}
	return specSvcEnd(b, n)
}

// specSvcNum: the number of rpcs with bindings from j on.
//@ func specSvcNum(b []*TokenGroup, j int) (r int)
//@ attr opaque specSkipCW,specRpcEnd,specRpcKept
//@ dec: len(b) - j
func specSvcNum(b []*TokenGroup, j int) int {
	n := specSvcNext(b, j)
	if n < 0 {
		return 0
	}
	if !specRpcKept(b, j) {
		return specSvcNum(b, n)
	}
	return specSvcNum(b, n) + 1
}

// specRpcAt: the position of rpc i of those with bindings from j on; -1 without one.
//@ func specRpcAt(b []*TokenGroup, j int, i int) (r int)
//@ attr opaque specSkipCW,specRpcEnd,specRpcKept
//@ dec: len(b) - j
func specRpcAt(b []*TokenGroup, j int, i int) int {
	n := specSvcNext(b, j)
	if n < 0 {
		return -1
	}
	if !specRpcKept(b, j) {
		return specRpcAt(b, n, i)
	}
	if i <= 0 {
		return j
	}
	return specRpcAt(b, n, i-1)
}

// lemSvc: what the definitions above say of the rpc at j.
//@ func lemSvc(b []*TokenGroup, j int, i int) (r bool)
//@ lemma
//@ nosafety
//@ prop C07
//@ attr opaque specSkipCW,specRpcEnd,specRpcKept
//@ ensures stop: specTok(b, j) != CLOSE_BRACE || specSvcEnd(b, j) == j && specSvcNum(b, j) == 0
//@ ensures bad: specTok(b, j) == CLOSE_BRACE || specSvcNext(b, j) >= 0 || specSvcEnd(b, j) == -1 && specSvcNum(b, j) == 0
//@ ensures skip: specSvcNext(b, j) < 0 || specRpcKept(b, j) || specSvcEnd(b, j) == specSvcEnd(b, specSvcNext(b, j)) && specSvcNum(b, j) == specSvcNum(b, specSvcNext(b, j)) && specRpcAt(b, j, i) == specRpcAt(b, specSvcNext(b, j), i)
//@ ensures step: specSvcNext(b, j) < 0 || !specRpcKept(b, j) || specSvcPast(b, j, i)
func lemSvc(b []*TokenGroup, j int, i int) bool { return true }

func specSvcPast(b []*TokenGroup, j, i int) bool {
	n := specSvcNext(b, j)
	r := j
	if i > 0 {
		r = specRpcAt(b, n, i-1)
	}
	return specSvcEnd(b, j) == specSvcEnd(b, n) && specSvcNum(b, j) == specSvcNum(b, n)+1 && specRpcAt(b, j, i) == r
}

// specSvcFrom: the first rpc of the service declared at i; -1 without a good declaration.
func specSvcFrom(b []*TokenGroup, i int) int {
	s := specW(b, i)
	n := specW(b, s+1)
	o := specW(b, n+1)
	if specTok(b, s) != IDENT || specVal(b, s) != "service" || specTok(b, n) != IDENT || specTok(b, o) != OPEN_BRACE {
		return -1
	}
	return specSkipCW(b, o+1)
}

// specSvcClose: the end of the service declared at i; -1 when it is malformed.
func specSvcClose(b []*TokenGroup, i int) int {
	if specSvcFrom(b, i) < 0 {
		return -1
	}
	return specSvcEnd(b, specSvcFrom(b, i))
}

// specRpcsSo: rpc specM of ms, if there is one, is that of the text.
func specRpcsSo(ms []*Method, b []*TokenGroup, j int) bool {
	i := specM()
	return i < 0 || i >= len(ms) || ms[i] != nil && specIsRpc(ms[i], b, specRpcAt(b, j, i))
}

// specSvcRest: ms are the first rpcs of those at j, those at now are still to come.
func specSvcRest(ms []*Method, b []*TokenGroup, j, now int) bool {
	return len(ms)+specSvcNum(b, now) == specSvcNum(b, j) && (specM() < len(ms) || specRpcAt(b, now, specM()-len(ms)) == specRpcAt(b, j, specM()))
}

//@ func ParseService(lex *SvcLexer) (svc *Service, err error)
//@ prop C06,C07
//@ attr apart isMethod:isRpcs,isRpcs:isRpcs
//@ attr terminates
//@ attr opaque specTill,specSkip,specSkipCW,specLC,specEndAt,specNum,specKeyAt,specCustomAt,specKey,specTxt,specGood,specAddEnd,specAddNum,specAddAt,specBindEnd,specBindNum,specBindAt,specTypeEnd,specTypeAt,specRpcName,specRpcReq,specRpcRes,specRpcBinds,specRpcKept,specRpcEnd,specSvcEnd,specSvcNum,specRpcAt
//@ requires wf: specLX(lex)
//@ modifies lex.tkPos, lex.lineNo
//@ let p0 int = lex.tkPos
//@ ensures wf: specLX(lex) && p0 <= lex.tkPos
//@ ensures either: (svc == nil) == (err != nil)
//@ ensures used: err != nil || p0 < lex.tkPos
//@ inv wf(): specLX(lex) && p0 <= lex.tkPos
//@ inv own(toret *Service): toret != nil && vFresh(toret)
//@ dec (): len(lex.Buf) - lex.tkPos
//@ just C07
//@ let b []*TokenGroup = lex.Buf
//@ let j int = specSvcFrom(lex.Buf, lex.tkPos)
//@ ensures accepted: (err == nil) == (specSvcClose(b, p0) >= 0)
//@ ensures pos: err != nil || lex.tkPos == specSvcClose(b, p0)+1
//@ ensures name: err != nil || svc.Name == specVal(b, specW(b, specW(b, p0)+1))
//@ ensures number: err != nil || len(svc.Methods) == specSvcNum(b, j)
//@ ensures isRpcs: err != nil || specRpcsSo(svc.Methods, b, j)
//@ inv name(toret *Service): j >= 0 && toret.Name == specVal(b, specW(b, specW(b, p0)+1))
//@ inv end(toret *Service): lemCW(b, lex.tkPos) && lemSvc(b, specSkipCW(b, lex.tkPos), specM()-len(toret.Methods)) && specSvcEnd(b, specSkipCW(b, lex.tkPos)) == specSvcEnd(b, j)
//@ inv rest(toret *Service): specSvcRest(toret.Methods, b, j, specSkipCW(b, lex.tkPos))
//@ inv isRpcs(toret *Service): specRpcsSo(toret.Methods, b, j)
