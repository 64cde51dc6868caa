//go:build go1.18

package svcparse

import (
	"bufio"
	"io"
	"unicode"
)

// Contracts of svcdef/svcparse/scanner.go.

var _, _ = io.EOF, bufio.ErrInvalidUnreadRune

// specNL counts the newlines in c[:n].
//@ func specNL(c []rune, n int) (r int)
//@ dec: n
func specNL(c []rune, n int) int {
	if n <= 0 || n > len(c) {
		return 0
	}
	if c[n-1] == '\n' {
		return specNL(c, n-1) + 1
	}
	return specNL(c, n-1)
}

func specIdentRune(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' }

// specLine: end of the line that contains position j, its newline included; -1 without newline.
//@ func specLine(c []rune, j int) (r int)
//@ dec: len(c) - j
func specLine(c []rune, j int) int {
	if j < 0 || j >= len(c) {
		return -1
	}
	if c[j] == '\n' {
		return j + 1
	}
	return specLine(c, j+1)
}

// specBlock: position after the first "*/" at or after j; -1 without one.
//@ func specBlock(c []rune, j int) (r int)
//@ dec: len(c) - j
func specBlock(c []rune, j int) int {
	if j < 0 || j+1 >= len(c) {
		return -1
	}
	if c[j] == '*' && c[j+1] == '/' {
		return j + 2
	}
	return specBlock(c, j+1)
}

// specStrEnd: position after the closing quote of a string whose body starts at j; -1 without one.
//@ func specStrEnd(c []rune, j int) (r int)
//@ dec: len(c) - j + 1
func specStrEnd(c []rune, j int) int {
	if j < 0 || j >= len(c) {
		return -1
	}
	if c[j] == '"' {
		return j + 1
	}
	if c[j] == '\\' {
		return specStrEnd(c, j+2)
	}
	return specStrEnd(c, j+1)
}

//@ func specSpaces(c []rune, j int) (r int)
//@ dec: len(c) - j
func specSpaces(c []rune, j int) int {
	if j < 0 || j >= len(c) || !unicode.IsSpace(c[j]) {
		return j
	}
	return specSpaces(c, j+1)
}

//@ func specIdents(c []rune, j int) (r int)
//@ dec: len(c) - j
func specIdents(c []rune, j int) int {
	if j < 0 || j >= len(c) || !specIdentRune(c[j]) {
		return j
	}
	return specIdents(c, j+1)
}

// specUnitEnd is the end of the unit that starts at i: a comment, a string literal, a white space run,
// an identifier run or a single other rune; -1 when the text ends before the unit is complete.
//@ func specUnitEnd(c []rune, i int) (r int)
//@ attr app
func specUnitEnd(c []rune, i int) int {
	if i < 0 || i >= len(c) {
		return -1
	}
	if c[i] == '/' {
		if i+1 >= len(c) {
			return -1
		}
		if c[i+1] == '/' {
			return specLine(c, i+2)
		}
		if c[i+1] == '*' {
			return specBlock(c, i+2)
		}
		return i + 1
	}
	if c[i] == '"' {
		return specStrEnd(c, i+1)
	}
	if unicode.IsSpace(c[i]) {
		return specSpaces(c, i+1)
	}
	if specIdentRune(c[i]) {
		return specIdents(c, i+1)
	}
	return i + 1
}

// specKeyword: the unit c[i:j] is the keyword that starts a service definition at brace level lev.
func specKeyword(c []rune, i, j, lev int) bool {
	return lev == 0 && 0 <= i && i < j && j < len(c) && specIdentRune(c[i]) && !unicode.IsSpace(c[i]) && string(c[i:j]) == "service" && (unicode.IsSpace(c[j]) || c[j] == '/')
}

// brace level, "between keyword and brace" and "inside a service" after the unit c[i:j]
//@ func specLevAfter(c []rune, i, j, lev int) (r int)
//@ attr app
func specLevAfter(c []rune, i, j, lev int) int {
	if 0 <= i && i < len(c) && c[i] == '{' {
		return lev + 1
	}
	if 0 <= i && i < len(c) && c[i] == '}' {
		return lev - 1
	}
	return lev
}
//@ func specDefAfter(c []rune, i, j, lev int, def bool) (r bool)
//@ attr app
func specDefAfter(c []rune, i, j, lev int, def bool) bool {
	if 0 <= i && i < len(c) && c[i] == '{' {
		return false
	}
	return def || specKeyword(c, i, j, lev)
}
//@ func specBodyAfter(c []rune, i, j, lev int, def, body bool) (r bool)
//@ attr app
func specBodyAfter(c []rune, i, j, lev int, def, body bool) bool {
	if 0 <= i && i < len(c) && c[i] == '{' {
		return body || def
	}
	if 0 <= i && i < len(c) && c[i] == '}' {
		return body && lev != 1
	}
	return body
}

func specRR(rr *RuneReader) bool {
	return rr != nil && 0 <= rr.RunePos && rr.RunePos <= len(rr.Contents) && rr.ContentLen == len(rr.Contents)
}
func specIsNL(r rune) int {
	if r == '\n' {
		return 1
	}
	return 0
}

// specShape: u is a unit as the scanner builds them.
func specShape(u *ScanUnit) bool {
	return u != nil && len(u.Value) > 0 && (len(u.Value) == 1 || unicode.IsSpace(u.Value[0]) || specIdentRune(u.Value[0]) || u.Value[0] == '"' || u.Value[0] == '/')
}
func specShapes(b []*ScanUnit) bool {
	return vAll(0, len(b), func(i int) bool { return specShape(b[i]) })
}

//@ func (self *RuneReader) ReadRune() (r rune, err error)
//@ prop C03
//@ attr terminates
//@ requires wf: specRR(self)
//@ modifies self.RunePos, self.LineNo
//@ let p0 int = self.RunePos
//@ let l0 int = self.LineNo
//@ ensures eof: p0 < len(self.Contents) || err == io.EOF && r == 0 && self.RunePos == p0 && self.LineNo == l0
//@ ensures next: p0 >= len(self.Contents) || err == nil && r == self.Contents[p0] && self.RunePos == p0+1 && self.LineNo == l0+specIsNL(r)

//@ func (self *RuneReader) UnreadRune() (err error)
//@ prop C03
//@ attr terminates
//@ requires wf: specRR(self)
//@ modifies self.RunePos, self.LineNo
//@ let p0 int = self.RunePos
//@ let l0 int = self.LineNo
//@ ensures start: p0 != 0 || err == bufio.ErrInvalidUnreadRune && self.RunePos == 0 && self.LineNo == l0
//@ ensures back: p0 == 0 || err == nil && self.RunePos == p0-1 && self.LineNo == l0-specIsNL(self.Contents[p0-1])

//@ func isIdent(r rune) (b bool)
//@ prop C03
//@ pure
//@ ensures letters: b == specIdentRune(r)

//@ func BuildScanUnit(rr *RuneReader) (u *ScanUnit, err error)
//@ prop C03
//@ attr terminates
//@ requires wf: specRR(rr)
//@ requires lines: rr.LineNo == 1+specNL(rr.Contents, rr.RunePos)
//@ modifies rr.RunePos, rr.LineNo, withinBody, withinDef, braceLev
//@ let c []rune = rr.Contents
//@ let p0 int = rr.RunePos
//@ let e int = specUnitEnd(rr.Contents, rr.RunePos)
//@ let lev int = braceLev
//@ let def bool = withinDef
//@ let body bool = withinBody
//@ ensures wf: specRR(rr) && rr.LineNo == 1+specNL(c, rr.RunePos) && p0 <= rr.RunePos
//@ ensures fresh: u != nil && vFresh(u)
//@ ensures complete: (err == nil) == (e >= 0)
//@ ensures exact: err != nil || p0 < e && rr.RunePos == e && vSame(u.Value, c[p0:e])
//@ ensures line: err != nil || u.LineNo == 1+specNL(c, e)
//@ ensures shape: err != nil || specShape(u)
//@ prop C04
//@ ensures level: err != nil || braceLev == specLevAfter(c, p0, e, lev) && u.BraceLevel == braceLev
//@ ensures def: err != nil || withinDef == specDefAfter(c, p0, e, lev, def) && u.InRpcDefinition == withinDef
//@ ensures body: err != nil || withinBody == specBodyAfter(c, p0, e, lev, def, body) && u.InRpcBody == withinBody
//@ inv wf(): specRR(rr) && rr.LineNo == 1+specNL(c, rr.RunePos) && p0 < rr.RunePos
//@ inv sofar(buf []rune): vSame(buf, c[p0:rr.RunePos])
//@ inv lineEnd(): specLine(c, rr.RunePos) == e
//@ inv blockEnd(): specBlock(c, rr.RunePos) == e
//@ inv strEnd(): specStrEnd(c, rr.RunePos) == e
//@ inv spaceEnd(): specSpaces(c, rr.RunePos) == e
//@ inv identEnd(): specIdents(c, rr.RunePos) == e
//@ dec (): len(c) - rr.RunePos

//@ func NewRuneReader(r io.Reader) (rr *RuneReader)
//@ prop C03
//@ attr terminates
//@ requires reader: r != nil
//@ modifies any ghost:reader
//@ let text []byte = vReader(r)
//@ ensures wf: specRR(rr) && vFresh(rr)
//@ ensures start: rr.RunePos == 0 && rr.LineNo == 1
//@ ensures all: vSame(rr.Contents, []rune(string(text)))

// specStart is the position of the n-th unit of c; -1 when the text ends earlier.
//@ func specStart(c []rune, n int) (r int)
//@ dec: n
func specStart(c []rune, n int) int {
	if n <= 0 {
		return 0
	}
	return specUnitEnd(c, specStart(c, n-1))
}

// brace level and service state after n units
//@ func specLev(c []rune, n int) (r int)
//@ dec: n
func specLev(c []rune, n int) int {
	if n <= 0 {
		return 0
	}
	return specLevAfter(c, specStart(c, n-1), specStart(c, n), specLev(c, n-1))
}

//@ func specDef(c []rune, n int) (r bool)
//@ dec: n
func specDef(c []rune, n int) bool {
	if n <= 0 {
		return false
	}
	return specDefAfter(c, specStart(c, n-1), specStart(c, n), specLev(c, n-1), specDef(c, n-1))
}

//@ func specBody(c []rune, n int) (r bool)
//@ dec: n
func specBody(c []rune, n int) bool {
	if n <= 0 {
		return false
	}
	return specBodyAfter(c, specStart(c, n-1), specStart(c, n), specLev(c, n-1), specDef(c, n-1), specBody(c, n-1))
}

// specUnitOK: u is the n-th unit of c.
func specUnitText(c []rune, u *ScanUnit, n int) bool {
	return u != nil && 0 <= specStart(c, n) && specStart(c, n) < specStart(c, n+1) && specStart(c, n+1) <= len(c) && vSame(u.Value, c[specStart(c, n):specStart(c, n+1)]) && u.LineNo == 1+specNL(c, specStart(c, n+1))
}
func specUnitState(c []rune, u *ScanUnit, n int) bool {
	return u != nil && u.BraceLevel == specLev(c, n+1) && u.InRpcDefinition == specDef(c, n+1) && u.InRpcBody == specBody(c, n+1)
}

//@ func NewSvcScanner(r io.Reader) (s *SvcScanner)
//@ prop C03
//@ attr opaque specUnitEnd,specLevAfter,specDefAfter,specBodyAfter
//@ attr terminates
//@ requires reader: r != nil
//@ modifies any ghost:reader, withinBody, withinDef, braceLev
//@ let c []rune = []rune(string(vReader(r)))
//@ ensures fresh: s != nil && vFresh(s) && s.UnitPos == 0
//@ ensures text: vAll(0, len(s.Buf), func(i int) bool { return specUnitText(c, s.Buf[i], i) })
//@ ensures shape: specShapes(s.Buf)
//@ ensures all: specUnitEnd(c, specStart(c, len(s.Buf))) < 0
//@ prop C04
//@ ensures start: s.BraceLevel == 0 && !s.InBody && !s.InDefinition && s.lineNo == 0
//@ ensures state: vAll(0, len(s.Buf), func(i int) bool { return specUnitState(c, s.Buf[i], i) })
//@ inv reader(rr *RuneReader): specRR(rr) && vSame(rr.Contents, c) && rr.LineNo == 1+specNL(c, rr.RunePos)
//@ inv pos(rr *RuneReader, b []*ScanUnit): rr.RunePos == specStart(c, len(b))
//@ inv shape(b []*ScanUnit): specShapes(b)
//@ inv text(b []*ScanUnit): vAll(0, len(b), func(i int) bool { return specUnitText(c, b[i], i) })
//@ inv levels(b []*ScanUnit): braceLev == specLev(c, len(b)) && withinDef == specDef(c, len(b)) && withinBody == specBody(c, len(b))
//@ inv state(b []*ScanUnit): vAll(0, len(b), func(i int) bool { return specUnitState(c, b[i], i) })
//@ dec (rr *RuneReader): len(c) - rr.RunePos
