package main

import "unicode"

func isSpaceGo(r rune) bool  { return unicode.IsSpace(r) }
func isLetterGo(r rune) bool { return unicode.IsLetter(r) }
func isDigitGo(r rune) bool  { return unicode.IsDigit(r) }
func isUpperGo(r rune) bool  { return unicode.IsUpper(r) }
func isLowerGo(r rune) bool  { return unicode.IsLower(r) }
