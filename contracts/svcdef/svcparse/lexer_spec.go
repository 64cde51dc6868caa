//go:build go1.18

package svcparse

import (
	"io"
	"strings"
	"unicode"
)

// Contracts of the cursors: the unit cursor of scanner.go and the token cursor of lexer.go.

// specSC: the unit cursor is within its buffer and every unit is there.
func specSC(s *SvcScanner) bool {
	return s != nil && 0 <= s.UnitPos && s.UnitPos <= len(s.Buf) && vAll(0, len(s.Buf), func(i int) bool { return s.Buf[i] != nil })
}

// specSCState: the scanner reports the state of the unit before its position.
func specSCState(s *SvcScanner, p int) bool {
	if p <= 0 || p > len(s.Buf) {
		return !s.InBody && !s.InDefinition && s.BraceLevel == 0 && s.lineNo == 0
	}
	u := s.Buf[p-1]
	return s.InBody == u.InRpcBody && s.InDefinition == u.InRpcDefinition && s.BraceLevel == u.BraceLevel && s.lineNo == u.LineNo
}

//@ func (self *SvcScanner) ReadUnit() (rv []rune, err error)
//@ prop C05
//@ attr terminates
//@ requires wf: specSC(self)
//@ modifies self.UnitPos, self.InBody, self.InDefinition, self.BraceLevel, self.lineNo
//@ let p0 int = self.UnitPos
//@ let l0 int = self.lineNo
//@ let lev0 int = self.BraceLevel
//@ let body0 bool = self.InBody
//@ let def0 bool = self.InDefinition
//@ ensures end: p0 < len(self.Buf) || err == io.EOF && rv == nil && len(rv) == 0 && self.UnitPos == p0 && self.lineNo == l0 && self.BraceLevel == lev0 && self.InBody == body0 && self.InDefinition == def0
//@ ensures unit: p0 >= len(self.Buf) || err == nil && vSame(rv, self.Buf[p0].Value) && self.UnitPos == p0+1 && specSCState(self, p0+1)

//@ func (self *SvcScanner) UnreadUnit() (err error)
//@ prop C05
//@ attr terminates
//@ requires wf: specSC(self)
//@ modifies self.UnitPos, self.InBody, self.InDefinition, self.BraceLevel, self.lineNo
//@ let p0 int = self.UnitPos
//@ let l0 int = self.lineNo
//@ let lev0 int = self.BraceLevel
//@ let body0 bool = self.InBody
//@ let def0 bool = self.InDefinition
//@ ensures start: p0 > 0 || err != nil && self.UnitPos == p0 && self.lineNo == l0 && self.BraceLevel == lev0 && self.InBody == body0 && self.InDefinition == def0
//@ ensures back: p0 <= 0 || err == nil && self.UnitPos == p0-1 && specSCState(self, p0-1)

//@ func (self *SvcScanner) UnReadToPosition(position int) (err error)
//@ prop C05
//@ attr terminates
//@ requires wf: specSC(self)
//@ requires earlier: 0 <= position && position <= self.UnitPos
//@ modifies self.UnitPos, self.InBody, self.InDefinition, self.BraceLevel, self.lineNo
//@ let p0 int = self.UnitPos
//@ ensures there: err == nil && self.UnitPos == position
//@ ensures state: position == p0 || specSCState(self, position)
//@ inv wf(): specSC(self) && position <= self.UnitPos && self.UnitPos <= p0
//@ inv state(): self.UnitPos == p0 || specSCState(self, self.UnitPos)
//@ dec (): self.UnitPos

//@ func (self *SvcScanner) GetLineNumber() (n int)
//@ prop C05
//@ pure
//@ attr reads svcparse.SvcScanner.lineNo
//@ requires there: self != nil
//@ ensures line: n == self.lineNo

// specLX: the token cursor is within its buffer and every token is there; the end of the file is no token of the buffer.
func specLX(l *SvcLexer) bool {
	return l != nil && 0 <= l.tkPos && l.tkPos <= len(l.Buf) && vAll(0, len(l.Buf), func(i int) bool { return l.Buf[i] != nil && l.Buf[i].token != EOF })
}

func specTok(b []*TokenGroup, i int) Token {
	if i < 0 || i >= len(b) {
		return EOF
	}
	return b[i].token
}
func specVal(b []*TokenGroup, i int) string {
	if i < 0 || i >= len(b) {
		return ""
	}
	return b[i].value
}

// specPast is the cursor after reading the token at i.
func specPast(b []*TokenGroup, i int) int {
	if i < len(b) {
		return i + 1
	}
	return len(b)
}

// specSkip: position of the first token at or after i that is not of kind t.
//@ func specSkip(b []*TokenGroup, i int, t Token) (r int)
//@ dec: len(b) - i
func specSkip(b []*TokenGroup, i int, t Token) int {
	if i < 0 || i >= len(b) || b[i].token != t {
		return i
	}
	return specSkip(b, i+1, t)
}

// specSkipCW: position of the first token at or after i that is neither white space nor a comment.
//@ func specSkipCW(b []*TokenGroup, i int) (r int)
//@ dec: len(b) - i
func specSkipCW(b []*TokenGroup, i int) int {
	if i < 0 || i >= len(b) || b[i].token != WHITESPACE && b[i].token != COMMENT {
		return i
	}
	return specSkipCW(b, i+1)
}

// specLC: position of the last comment of the run of white space and comments at i; -1 without one.
//@ func specLC(b []*TokenGroup, i int) (r int)
//@ dec: len(b) - i
func specLC(b []*TokenGroup, i int) int {
	if i < 0 || i >= len(b) || b[i].token != WHITESPACE && b[i].token != COMMENT {
		return -1
	}
	r := specLC(b, i+1)
	if r < 0 && b[i].token == COMMENT {
		return i
	}
	return r
}

//@ func (self *SvcLexer) GetPosition() (n int)
//@ prop C05
//@ pure
//@ attr reads svcparse.SvcLexer.tkPos
//@ requires there: self != nil
//@ ensures pos: n == self.tkPos

//@ func (self *SvcLexer) GetLineNumber() (n int)
//@ prop C05
//@ pure
//@ attr reads svcparse.SvcLexer.lineNo
//@ requires there: self != nil
//@ ensures line: n == self.lineNo

//@ func (self *SvcLexer) GetToken() (tk Token, val string)
//@ prop C05
//@ attr terminates
//@ requires wf: specLX(self)
//@ modifies self.tkPos, self.lineNo
//@ let p0 int = self.tkPos
//@ let l0 int = self.lineNo
//@ ensures end: p0 < len(self.Buf) || tk == EOF && val == "" && self.tkPos == p0 && self.lineNo == l0
//@ ensures token: p0 >= len(self.Buf) || tk == self.Buf[p0].token && val == self.Buf[p0].value && self.tkPos == p0+1 && self.lineNo == self.Buf[p0].line

//@ func (self *SvcLexer) UnGetToken() (err error)
//@ prop C05
//@ attr terminates
//@ requires wf: specLX(self)
//@ modifies self.tkPos, self.lineNo
//@ let p0 int = self.tkPos
//@ let l0 int = self.lineNo
//@ ensures start: p0 > 0 || err != nil && self.tkPos == p0 && self.lineNo == l0
//@ ensures back: p0 <= 0 || err == nil && self.tkPos == p0-1

//@ func (self *SvcLexer) UnGetToPosition(position int) (err error)
//@ prop C05
//@ attr terminates
//@ requires wf: specLX(self)
//@ requires earlier: 0 <= position && position <= self.tkPos
//@ modifies self.tkPos, self.lineNo
//@ let p0 int = self.tkPos
//@ ensures there: err == nil && self.tkPos == position
//@ inv wf(): specLX(self) && position <= self.tkPos && self.tkPos <= p0
//@ dec (): self.tkPos

//@ func (self *SvcLexer) getTokenIgnore(toIgnore Token) (tk Token, val string)
//@ prop C05
//@ attr terminates
//@ requires wf: specLX(self)
//@ requires stops: toIgnore != EOF
//@ modifies self.tkPos, self.lineNo
//@ let p0 int = self.tkPos
//@ let j int = specSkip(self.Buf, self.tkPos, toIgnore)
//@ ensures wf: specLX(self) && p0 <= j && j <= len(self.Buf)
//@ ensures token: tk == specTok(self.Buf, j) && val == specVal(self.Buf, j) && tk != toIgnore
//@ ensures moved: self.tkPos == specPast(self.Buf, j)
//@ ensures line: j >= len(self.Buf) || self.lineNo == self.Buf[j].line
//@ ensures run: toIgnore != WHITESPACE || specSkipCW(self.Buf, p0) == specSkipCW(self.Buf, j) && specLC(self.Buf, p0) == specLC(self.Buf, j)
//@ inv wf(): specLX(self) && p0 <= self.tkPos && specSkip(self.Buf, self.tkPos, toIgnore) == j
//@ inv run(): toIgnore != WHITESPACE || specSkipCW(self.Buf, p0) == specSkipCW(self.Buf, self.tkPos) && specLC(self.Buf, p0) == specLC(self.Buf, self.tkPos)
//@ dec (): len(self.Buf) - self.tkPos

// specLCFrom: the last comment of the run at i, c when it has none.
func specLCFrom(b []*TokenGroup, i, c int) int {
	if r := specLC(b, i); r >= 0 {
		return r
	}
	return c
}

//@ func (self *SvcLexer) GetTokenIgnoreWhitespace() (tk Token, val string)
//@ prop C05
//@ attr terminates
//@ requires wf: specLX(self)
//@ modifies self.tkPos, self.lineNo
//@ let p0 int = self.tkPos
//@ let j int = specSkip(self.Buf, self.tkPos, WHITESPACE)
//@ ensures wf: specLX(self) && p0 <= j && j <= len(self.Buf)
//@ ensures run: specSkipCW(self.Buf, p0) == specSkipCW(self.Buf, j) && specLC(self.Buf, p0) == specLC(self.Buf, j)
//@ ensures next: tk == EOF || specSkipCW(self.Buf, p0) == specSkipCW(self.Buf, self.tkPos-1)
//@ ensures counts: tk == EOF || tk == COMMENT || specSkipCW(self.Buf, p0) == self.tkPos-1
//@ ensures comment: tk != COMMENT || specSkipCW(self.Buf, p0) == specSkipCW(self.Buf, self.tkPos)
//@ ensures over: tk != EOF || specSkipCW(self.Buf, p0) == len(self.Buf)
//@ ensures plain: tk == COMMENT || specLC(self.Buf, p0) < 0
//@ ensures last: tk != COMMENT || specLC(self.Buf, p0) == specLCFrom(self.Buf, self.tkPos, self.tkPos-1)
//@ ensures token: tk == specTok(self.Buf, j) && val == specVal(self.Buf, j) && tk != WHITESPACE
//@ ensures moved: self.tkPos == specPast(self.Buf, j)
//@ ensures line: j >= len(self.Buf) || self.lineNo == self.Buf[j].line

//@ func (self *SvcLexer) GetTokenIgnoreCommentAndWhitespace() (tk Token, val string)
//@ prop C05
//@ attr terminates
//@ requires wf: specLX(self)
//@ modifies self.tkPos, self.lineNo
//@ let p0 int = self.tkPos
//@ let j int = specSkipCW(self.Buf, self.tkPos)
//@ ensures wf: specLX(self) && p0 <= j && j <= len(self.Buf)
//@ ensures token: tk == specTok(self.Buf, j) && val == specVal(self.Buf, j) && tk != WHITESPACE && tk != COMMENT
//@ ensures moved: self.tkPos == specPast(self.Buf, j)
//@ ensures line: j >= len(self.Buf) || self.lineNo == self.Buf[j].line
//@ inv wf(): specLX(self) && p0 <= self.tkPos && specSkipCW(self.Buf, self.tkPos) == j
//@ dec (): len(self.Buf) - self.tkPos

var _ = io.EOF

func specSH(s *SvcScanner) bool {
	return specSC(s) && specShapes(s.Buf)
}

func specStarts(u *ScanUnit) bool { return string(u.Value) == "service" && u.InRpcDefinition }

// specFind: the first keyword unit of a service definition at or after i; len(b) without one.
//@ func specFind(b []*ScanUnit, i int) (r int)
//@ dec: len(b) - i
func specFind(b []*ScanUnit, i int) int {
	if i < 0 || i >= len(b) {
		return len(b)
	}
	if specStarts(b[i]) {
		return i
	}
	return specFind(b, i+1)
}

// specOutside: the position is outside of every service definition.
func specOutside(b []*ScanUnit, p int) bool {
	return p <= 0 || p > len(b) || b[p-1].BraceLevel == 0 && !b[p-1].InRpcBody && !b[p-1].InRpcDefinition
}

// specFrom: the unit at which the token read from position p starts.
//@ func specFrom(b []*ScanUnit, p int) (r int)
//@ attr app
func specFrom(b []*ScanUnit, p int) int {
	if specOutside(b, p) {
		return specFind(b, p)
	}
	return p
}

func specIsComment(u *ScanUnit) bool { return len(u.Value) > 1 && u.Value[0] == '/' }
func specIsGap(u *ScanUnit) bool {
	return unicode.IsSpace(u.Value[0]) && !(len(u.Value) > 1 && u.Value[0] == '/') && strings.Count(string(u.Value), "\n") == 0
}

// specRunEnd: the end of the comment run that reaches position q: adjacent comments, and comments after white
// space without a newline, belong to it.
//@ func specRunEnd(b []*ScanUnit, q int) (r int)
//@ dec: len(b) - q
func specRunEnd(b []*ScanUnit, q int) int {
	if q < 0 || q >= len(b) {
		return q
	}
	if specIsComment(b[q]) {
		return specRunEnd(b, q+1)
	}
	if q+1 < len(b) && specIsGap(b[q]) && specIsComment(b[q+1]) {
		return specRunEnd(b, q+2)
	}
	return q
}

// specText is the text of the units p..q-1.
//@ func specText(b []*ScanUnit, p, q int) (r string)
//@ dec: q - p
func specText(b []*ScanUnit, p, q int) string {
	if p < 0 || q <= p || q > len(b) {
		return ""
	}
	return specText(b, p, q-1) + string(b[q-1].Value)
}

//@ func specKind(u *ScanUnit) (r Token)
//@ attr app
func specKind(u *ScanUnit) Token {
	c := u.Value[0]
	if unicode.IsSpace(c) {
		return WHITESPACE
	}
	if specIdentRune(c) {
		return IDENT
	}
	if c == '"' {
		return STRING_LITERAL
	}
	if c == '(' {
		return OPEN_PAREN
	}
	if c == ')' {
		return CLOSE_PAREN
	}
	if c == '{' {
		return OPEN_BRACE
	}
	if c == '}' {
		return CLOSE_BRACE
	}
	if len(u.Value) > 1 {
		return COMMENT
	}
	return SYMBOL
}

// specTo: the end of the token that starts at unit p.
//@ func specTo(b []*ScanUnit, p int) (r int)
//@ attr app
func specTo(b []*ScanUnit, p int) int {
	if p < 0 || p >= len(b) {
		return len(b)
	}
	if specKind(b[p]) == COMMENT {
		return specRunEnd(b, p+1)
	}
	return p + 1
}

//@ func (self *SvcScanner) FastForward() (err error)
//@ prop C04
//@ attr terminates
//@ requires wf: specSH(self)
//@ modifies self.UnitPos, self.InBody, self.InDefinition, self.BraceLevel, self.lineNo
//@ let p0 int = self.UnitPos
//@ let in bool = self.InBody || self.InDefinition
//@ let j int = specFind(self.Buf, self.UnitPos)
//@ let l0 int = self.lineNo
//@ let lev0 int = self.BraceLevel
//@ let body0 bool = self.InBody
//@ let def0 bool = self.InDefinition
//@ ensures wf: specSH(self)
//@ ensures inside: !in || err == nil && self.UnitPos == p0 && self.lineNo == l0 && self.BraceLevel == lev0 && self.InBody == body0 && self.InDefinition == def0
//@ ensures none: in || j < len(self.Buf) || err == io.EOF && self.UnitPos == len(self.Buf)
//@ ensures keyword: in || j >= len(self.Buf) || err == nil && self.UnitPos == j && p0 <= j && specStarts(self.Buf[j])
//@ inv wf(): specSH(self) && p0 <= self.UnitPos && specFind(self.Buf, self.UnitPos) == j && !in
//@ dec (): len(self.Buf) - self.UnitPos

//@ func NewTokenGroup(scn *SvcScanner) (g *TokenGroup)
//@ prop C05
//@ attr terminates
//@ requires wf: specSH(scn)
//@ requires state: specSCState(scn, scn.UnitPos)
//@ modifies scn.UnitPos, scn.InBody, scn.InDefinition, scn.BraceLevel, scn.lineNo
//@ let b []*ScanUnit = scn.Buf
//@ let p0 int = scn.UnitPos
//@ let p int = specFrom(scn.Buf, scn.UnitPos)
//@ let q int = specTo(scn.Buf, specFrom(scn.Buf, scn.UnitPos))
//@ ensures wf: specSH(scn) && g != nil && vFresh(g)
//@ ensures end: p < len(b) || g.token == EOF && g.value == "" && scn.UnitPos == len(b)
//@ ensures kind: p >= len(b) || g.token == specKind(b[p]) && g.token != EOF && g.token != ILLEGAL
//@ ensures pos: p >= len(b) || scn.UnitPos == q && 0 <= p && p < q && q <= len(b) && specSCState(scn, q)
//@ ensures moved: p >= len(b) || p0 <= p && p0 < scn.UnitPos
//@ ensures text: p >= len(b) || g.value == specText(b, p, q)
//@ ensures line: p >= len(b) || g.line == b[q-1].LineNo
//@ inv wf(): specSH(scn) && p < scn.UnitPos && specSCState(scn, scn.UnitPos)
//@ inv run(): specRunEnd(b, scn.UnitPos) == q
//@ inv text(str string): str == specText(b, p, scn.UnitPos)
//@ dec (): len(b) - scn.UnitPos

// specTokEnd: the end of the n-th token of the units b; specTokStart: the unit it starts at.
//@ func specTokEnd(b []*ScanUnit, n int) (r int)
//@ dec: n + 1
func specTokEnd(b []*ScanUnit, n int) int {
	if n < 0 {
		return 0
	}
	return specTo(b, specFrom(b, specTokEnd(b, n-1)))
}

//@ func specTokStart(b []*ScanUnit, n int) (r int)
//@ attr app
func specTokStart(b []*ScanUnit, n int) int { return specFrom(b, specTokEnd(b, n-1)) }

// specToken: g is the n-th token of the units b.
//@ func specToken(b []*ScanUnit, g *TokenGroup, n int) (r bool)
//@ attr app
func specToken(b []*ScanUnit, g *TokenGroup, n int) bool {
	s, e := specTokStart(b, n), specTokEnd(b, n)
	return g != nil && 0 <= s && s < e && e <= len(b) && g.token == specKind(b[s]) && g.value == specText(b, s, e) && g.line == b[e-1].LineNo
}

//@ func NewSvcLexer(r io.Reader) (l *SvcLexer)
//@ prop C05
//@ attr terminates
//@ attr opaque specFrom,specTo,specText,specKind,specStart,specUnitEnd,specLev,specDef,specBody
//@ requires reader: r != nil
//@ modifies any ghost:reader, withinBody, withinDef, braceLev
//@ let c []rune = []rune(string(vReader(r)))
//@ ensures wf: l != nil && vFresh(l) && specLX(l) && l.tkPos == 0 && l.Scn != nil
//@ ensures units: vAll(0, len(l.Scn.Buf), func(i int) bool { return specUnitText(c, l.Scn.Buf[i], i) && specUnitState(c, l.Scn.Buf[i], i) })
//@ ensures scanned: specUnitEnd(c, specStart(c, len(l.Scn.Buf))) < 0
//@ ensures tokens: vAll(0, len(l.Buf), func(i int) bool { return specToken(l.Scn.Buf, l.Buf[i], i) })
//@ ensures all: specTokStart(l.Scn.Buf, len(l.Buf)) >= len(l.Scn.Buf)
//@ inv wf(scn *SvcScanner): specSH(scn) && specSCState(scn, scn.UnitPos)
//@ inv pos(scn *SvcScanner, b []*TokenGroup): scn.UnitPos == specTokEnd(scn.Buf, len(b)-1)
//@ inv real(b []*TokenGroup): vAll(0, len(b), func(i int) bool { return b[i] != nil && b[i].token != EOF })
//@ inv tokens(scn *SvcScanner, b []*TokenGroup): vAll(0, len(b), func(i int) bool { return specToken(scn.Buf, b[i], i) })
//@ dec (scn *SvcScanner): len(scn.Buf) - scn.UnitPos
