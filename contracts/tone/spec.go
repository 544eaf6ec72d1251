package tone

import (
	"strings"
	"unicode/utf8"
)

// ---- WithTone ----

// retone is vowel v carrying tone t instead of its own (none: the plain vowel,
// i without its dot).
//
//@ spec inline
func retone(v, t rune) rune {
	b := v
	if plainOf(v) != 0 {
		b = plainOf(v)
	}
	if t == 0 {
		if b == 'i' {
			return 'ı'
		}
		return b
	}
	return withMark(b, t)
}

// retoned is s with its first vowel carrying tone t and all else the same.
//
//@ spec opaque-outside
func retoned(s string, t rune) string {
	i := strings.IndexAny(s, govVowels)
	if i < 0 {
		return s
	}
	v, w := utf8.DecodeRuneInString(s[i:])
	return s[:i] + string([]rune{retone(v, t)}) + s[i+w:]
}

//@ spec inline
func noVowel(s string) bool {
	return govForall(0, govRunes(s), func(i int) bool { return !vowel(govRune(s, i)) })
}

//@ contract WithTone(str string, t rune) (r string)
//@ props C01
//@ requires tone: t == 0 || isMark(t)
//@ ensures first-vowel: r == retoned(str, t)
//@ invariant (i int) no-vowel-yet: 0 <= i && i <= govRunes(str) && noVowel(govPrefix(str, i))

// ---- ToASCII ----

// asc is what has been written of a word and the tone mark still owed to the
// syllable being written.
type asc struct {
	Out  string
	Owed rune
}

// ascStep writes one more letter: a toned vowel is written plain and its mark
// is owed until the syllable ends; vowels and q belong to the syllable.
//
//@ spec inline
func ascStep(a asc, r rune) asc {
	if a.Owed != 0 && (plainOf(r) != 0 || !plainVowel(r) && r != 'q' && r != 'Q') {
		a = asc{Out: a.Out + string([]rune{a.Owed})}
	}
	if plainOf(r) != 0 {
		return asc{Out: a.Out + string([]rune{plainOf(r)}), Owed: markOf(r)}
	}
	if r == 'ı' {
		return asc{Out: a.Out + "i", Owed: a.Owed}
	}
	return asc{Out: a.Out + string([]rune{r}), Owed: a.Owed}
}

//@ spec foldl=ascStep
func ascAll(a asc, s string) asc {
	for _, r := range s {
		a = ascStep(a, r)
	}
	return a
}

// asciiForm is the ASCII form of a word.
//
//@ spec opaque
func asciiForm(s string) string {
	a := ascAll(asc{}, s)
	if a.Owed != 0 {
		return a.Out + string([]rune{a.Owed})
	}
	return a.Out
}

//@ contract ToASCII(txt string) (r string)
//@ props C02
//@ ensures ascii-form: r == asciiForm(txt)
//@ ensures no-toned-letter: allPlain(r)
//@ ensures idempotent: asciiForm(r) == r
//@ invariant (s *strings.Builder, t rune) plain: allPlain(govWritten(s)) && markOf(t) == 0 && t != 'ı' && plainOf(t) == 0 && ascAll(asc{}, govWritten(s)).Out == govWritten(s) && ascAll(asc{}, govWritten(s)).Owed == 0
//@ invariant (i int, s *strings.Builder, t rune) written: 0 <= i && i <= govRunes(txt) && govWritten(s) == ascAll(asc{}, govPrefix(txt, i)).Out && t == ascAll(asc{}, govPrefix(txt, i)).Owed

// plainLetter: not a toned vowel and not a dotless i.
//
//@ spec inline
func plainLetter(r rune) bool { return plainOf(r) == 0 && r != 'ı' }

//@ spec foldand=plainLetter
func allPlain(s string) bool {
	for _, r := range s {
		if !plainLetter(r) {
			return false
		}
	}
	return true
}

// ---- Strip ----

//@ spec inline
func unmarked(r rune) string {
	if isMark(r) {
		return ""
	}
	return string([]rune{r})
}

//@ spec fold=unmarked
func noMarks(s string) string {
	o := ""
	for _, r := range s {
		o += unmarked(r)
	}
	return o
}

//@ contract Strip(text string) (r string)
//@ props C02
//@ ensures stripped: r == noMarks(asciiForm(text))
//@ ensures no-tone: allUnmarked(r) && allPlain(r)
//@ invariant (s *strings.Builder) unmarked: allUnmarked(govWritten(s)) && allPlain(govWritten(s))
//@ invariant (i int, a string, s *strings.Builder) written: 0 <= i && i <= govRunes(a) && govWritten(s) == noMarks(govPrefix(a, i))

//@ spec inline
func notMark(r rune) bool { return !isMark(r) }

//@ spec foldand=notMark
func allUnmarked(s string) bool {
	for _, r := range s {
		if !notMark(r) {
			return false
		}
	}
	return true
}

// ---- Tone ----

//@ contract Tone(s string) (r rune)
//@ props C02
//@ ensures first-mark: r == firstMark(asciiForm(s))

//@ spec inline
func firstMark(a string) rune {
	i := strings.IndexAny(a, "-/V?^\\~")
	if i < 0 {
		return 0
	}
	m, _ := utf8.DecodeRuneInString(a[i:])
	return m
}

// ---- for other packages ----

//@ spec inline
func GovRetoned(s string, t rune) string { return retoned(s, t) }

//@ spec inline
func GovPlainOf(r rune) rune { return plainOf(r) }

//@ spec inline
func GovMarkOf(r rune) rune { return markOf(r) }

//@ spec inline
func GovASCII(s string) string { return asciiForm(s) }

//@ spec inline
func GovStripped(s string) string { return noMarks(asciiForm(s)) }
