package logic

import (
	"strings"
	"unicode"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/tone"
)

// ---- function words (C15) ----

//@ spec inline
func undot(r rune) rune {
	if r == 'ı' {
		return 'i'
	}
	return r
}

//@ spec inline
func sameLetter(a, b rune) bool { return unicode.ToLower(undot(a)) == unicode.ToLower(undot(b)) }

// sameLetters: equal but for case and the dot of i.
//
//@ spec inline
func sameLetters(a, b string) bool {
	return govRunes(a) == govRunes(b) && govForall(0, govRunes(b), func(i int) bool { return sameLetter(govRune(a, i), govRune(b, i)) })
}

// isWord: w is the function word b in any tone and case.
//
//@ spec inline
func isWord(w string, b string) bool { return sameLetters(tone.GovRetoned(w, 0), b) }

//@ contract hasText(w ast.Word, b string) (r bool)
//@ props C15
//@ ensures text: r == isWord(w.T, b)
//@ invariant (x string, y string, e_x string, e_y string) rest: govRunes(e_x)-govRunes(x) == govRunes(e_y)-govRunes(y) && govRunes(x) <= govRunes(e_x) && x == govDrop(e_x, govRunes(e_x)-govRunes(x)) && y == govDrop(e_y, govRunes(e_y)-govRunes(y)) && govForall(0, govRunes(e_x)-govRunes(x), func(i int) bool { return sameLetter(govRune(e_x, i), govRune(e_y, i)) })

//@ contract connector(w ast.Word) (r Connector)
//@ props C15
//@ requires nopanic-connector: isWord(w.T, "ru") || isWord(w.T, "ra") || isWord(w.T, "ri")
//@ ensures and: r == "∧" == isWord(w.T, "ru")
//@ ensures or: r == "∨" == isWord(w.T, "ra")
//@ ensures question: r == "?" == isWord(w.T, "ri")

//@ contract quantifier(w *ast.Word) (r Quantifier)
//@ props C15
//@ requires nopanic-quantifier: w == nil || isWord(w.T, "ke") || isWord(w.T, "ja") || isWord(w.T, "sa") || isWord(w.T, "tu") || isWord(w.T, "sia") || isWord(w.T, "hi")
//@ ensures the: r == "ι" == (w == nil || isWord(w.T, "ke"))
//@ ensures lambda: r == "λ" == (w != nil && isWord(w.T, "ja"))
//@ ensures some: r == "∃" == (w != nil && isWord(w.T, "sa"))
//@ ensures each: r == "∀" == (w != nil && isWord(w.T, "tu"))
//@ ensures none: r == "∄" == (w != nil && isWord(w.T, "sia"))
//@ ensures which: r == "¿" == (w != nil && isWord(w.T, "hi"))

//@ contract goPos(w ast.Word) (r int)
//@ props C15 C10
//@ requires nopanic-place: isWord(w.T, "fi") || isWord(w.T, "go") || isWord(w.T, "cu") || isWord(w.T, "ta")
//@ ensures fi: r == 1 == isWord(w.T, "fi")
//@ ensures go: r == 2 == isWord(w.T, "go")
//@ ensures cu: r == 3 == isWord(w.T, "cu")
//@ ensures ta: r == 4 == isWord(w.T, "ta")

//@ contract poPred(w ast.Word) (r string)
//@ props C15
//@ requires nopanic-po-or-jei: isWord(w.T, "po") || isWord(w.T, "jei")
//@ ensures po: r == "raq" == isWord(w.T, "po")
//@ ensures jei: r == "=" == isWord(w.T, "jei")

//@ contract miPred(w *ast.Word) (r Predicate)
//@ props C15
//@ requires word: w != nil
//@ requires nopanic-mi-or-shu: isWord(w.T, "mi") || isWord(w.T, "shu")
//@ ensures mi: !isWord(w.T, "mi") || isSwapOf(r, "chua")
//@ ensures shu: !isWord(w.T, "shu") || isPred(r, "=")

//@ spec inline
func isPred(p Predicate, name string) bool {
	x, ok := p.(*Pred)
	return ok && x.Name == name
}

//@ spec inline
func isSwapOf(p Predicate, name string) bool {
	x, ok := p.(*Swap)
	return ok && x.Pos == 1 && isPred(x.Predicate, name)
}

//@ contract isHoaPredicate(n ast.Predicate) (r bool)
//@ props C15
//@ requires nopanic-present: wordPresent(n)
//@ ensures hoa: r == isHoa(n)

//@ spec inline
func wordPresent(n ast.Predicate) bool {
	w, ok := n.(*ast.WordPredicate)
	return !ok || w != nil
}

//@ spec inline
func isHoa(n ast.Predicate) bool {
	w, ok := n.(*ast.WordPredicate)
	return ok && strings.ToLower(tone.GovRetoned(w.T, 0)) == "hoa"
}

// oTone is the tone of a toned o, or 0.
//
//@ spec inline
func oTone(r rune) rune {
	if tone.GovPlainOf(r) == 'o' || tone.GovPlainOf(r) == 'O' {
		return tone.GovMarkOf(r)
	}
	return 0
}

// isVar: the text is a do-variable: d, a toned o that ends its syllable, and
// whatever follows.
//
//@ spec inline
func isVar(s string) bool {
	if govRunes(s) < 2 || govRune(s, 0) != 'd' && govRune(s, 0) != 'D' || oTone(govRune(s, 1)) == 0 {
		return false
	}
	return govRunes(s) < 3 || !strings.ContainsRune("aeiıouAEIOUqQ", govRune(s, 2))
}

//@ contract splitVar(s string) (t rune, v string, ok bool)
//@ props C15
//@ ensures variable: ok == isVar(s)
//@ ensures tone: !ok || t == oTone(govRune(s, 1))
//@ ensures name: !ok || v == strings.ToLower("do" + govDrop(s, 2))
//@ invariant (i int, r rune) not-yet: 0 <= i && i <= len(oLetters) && govForall(0, i, func(k int) bool { return oLetters[k] != r })

//@ contract isVariablePredicate(n ast.Predicate) (t rune, v string, ok bool)
//@ props C15
//@ requires nopanic-present: wordPresent(n)
//@ ensures variable: ok == isVarPred(n)
//@ ensures name: !ok || v == varOf(n)

//@ spec inline
func isVarPred(n ast.Predicate) bool {
	w, ok := n.(*ast.WordPredicate)
	return ok && isVar(w.T)
}

//@ spec inline
func varOf(n ast.Predicate) string {
	w, ok := n.(*ast.WordPredicate)
	if !ok {
		return ""
	}
	return strings.ToLower("do" + govDrop(w.T, 2))
}

//@ spec inline
func nameLetter(r rune) string {
	if r == 'v' {
		return ""
	}
	if r == 'ı' {
		return "i"
	}
	if unicode.IsLetter(r) {
		return string([]rune{r})
	}
	return ""
}

//@ spec fold=nameLetter
func nameLetters(s string) string {
	o := ""
	for _, r := range s {
		o += nameLetter(r)
	}
	return o
}

// predName is the name of the predicate a word stands for.
//
//@ spec inline
func predName(s string) string {
	n := nameLetters(strings.ToLower(tone.GovASCII(s)))
	if n == "mea" {
		return "≺"
	}
	if n == "jeqtu" {
		return "="
	}
	return n
}

//@ contract wordPred(w *ast.WordPredicate) (r string)
//@ props C15
//@ requires word: w != nil
//@ ensures name: r == predName(w.T)
//@ invariant (i int, a string, s *strings.Builder) written: 0 <= i && i <= govRunes(a) && govWritten(s) == nameLetters(govPrefix(a, i))
