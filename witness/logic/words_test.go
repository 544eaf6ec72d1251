package logic

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/tone"
)

func govBudget() time.Duration {
	s, err := strconv.Atoi(os.Getenv("GOV_BUDGET"))
	if err != nil || s <= 0 {
		s = 15
	}
	return time.Duration(s) * time.Second
}

func govSearch(t *testing.T, one func(r *rand.Rand, size int) string) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed) + 1))
	end := time.Now().Add(govBudget())
	n := 0
	for time.Now().Before(end) {
		for j := 0; j < 20; j++ {
			n++
			if msg := one(r, 1+n%8); msg != "" {
				fmt.Printf("WITNESS %s\nTRIED %d\n", strings.ReplaceAll(msg, "\n", "\\n"), n)
				t.FailNow()
			}
		}
	}
	fmt.Printf("TRIED %d\n", n)
}

func govTry(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("panic: %v", e)
		}
	}()
	f()
	return ""
}

var govTones = []rune{0, '-', '/', 'V', '?', '^', '\\', '~'}

var govWords = []string{"ru", "ra", "ri", "ro", "roi", "ke", "ja", "sa", "tu", "sia", "hi", "fi", "go", "cu", "ta",
	"po", "jei", "mi", "shu", "hoa", "mea", "jeqtu", "maq", "jibo", "do", "doq", "dota", "doı", "dojao", "moq", "mo", "to", "bi", "pa", ""}

func govLetterSwap(r *rand.Rand, s string) string {
	w := []rune(s)
	letters := []rune("aeiıouqdjtAEIOUDQ'vV-/ ÓÕóòôöỏō世")
	for n := r.Intn(3); n > 0 && len(w) > 0; n-- {
		i := r.Intn(len(w))
		switch r.Intn(3) {
		case 0:
			w[i] = letters[r.Intn(len(letters))]
		case 1:
			w = append(w[:i], w[i+1:]...)
		default:
			w = append(w[:i], append([]rune{letters[r.Intn(len(letters))]}, w[i:]...)...)
		}
	}
	return string(w)
}

// govWordForm is a function word (or something close) in some tone and case.
func govWordForm(r *rand.Rand, b string, exact bool) string {
	s := tone.WithTone(b, govTones[r.Intn(len(govTones))])
	w := []rune(s)
	for i := range w {
		switch r.Intn(6) {
		case 0:
			w[i] = unicode.ToUpper(w[i])
		case 1:
			if w[i] == 'i' {
				w[i] = 'ı'
			}
		}
	}
	s = string(w)
	if !exact && r.Intn(3) == 0 {
		s = govLetterSwap(r, s)
	}
	return s
}

func TestWitnessC15(t *testing.T) {
	govSearch(t, func(r *rand.Rand, size int) string {
		b := govWords[r.Intn(len(govWords))]
		s := govWordForm(r, govWords[r.Intn(len(govWords))], false)
		w := ast.Word{T: s}
		wp := (*ast.WordPredicate)(&w)
		var out string
		bad := func(f string, got, want interface{}) {
			out = fmt.Sprintf("%s(%q) = %v, want %v", f, s, got, want)
		}
		msg := govTry(func() {
			if g, e := hasText(w, b), isWord(s, b); g != e {
				bad("hasText "+b, g, e)
			}
			is := func(ws ...string) bool {
				for _, x := range ws {
					if isWord(s, x) {
						return true
					}
				}
				return false
			}
			if is("ru", "ra", "ri") {
				g := connector(w)
				if (g == "∧") != is("ru") || (g == "∨") != is("ra") || (g == "?") != is("ri") {
					bad("connector", g, "the connector of the word")
				}
			}
			if is("ke", "ja", "sa", "tu", "sia", "hi") {
				g := quantifier(&w)
				want := map[string]Quantifier{"ke": "ι", "ja": "λ", "sa": "∃", "tu": "∀", "sia": "∄", "hi": "¿"}
				for k, q := range want {
					if is(k) && g != q {
						bad("quantifier", g, q)
					}
				}
			}
			if is("fi", "go", "cu", "ta") {
				g := goPos(w)
				for i, k := range []string{"fi", "go", "cu", "ta"} {
					if is(k) && g != i+1 {
						bad("goPos", g, i+1)
					}
				}
			}
			if is("po", "jei") {
				if g := poPred(w); (g == "raq") != is("po") || (g == "=") != is("jei") {
					bad("poPred", g, "raq for po, = for jei")
				}
			}
			if is("mi", "shu") {
				if g := miPred(&w); is("mi") && !isSwapOf(g, "chua") || is("shu") && !isPred(g, "=") {
					bad("miPred", fmt.Sprintf("%#v", g), "chua with its places swapped for mi, = for shu")
				}
			}
			if g := isHoaPredicate(wp); g != isHoa(wp) {
				bad("isHoaPredicate", g, isHoa(wp))
			}
			tn, v, ok := splitVar(s)
			if ok != isVar(s) || ok && (tn != oTone(govRune(s, 1)) || v != strings.ToLower("do"+govDrop(s, 2))) {
				bad("splitVar", fmt.Sprint(string(tn), v, ok), "its tone and name")
			}
			if g := wordPred(wp); g != predName(s) {
				bad("wordPred", g, predName(s))
			}
		})
		if out != "" {
			return out
		}
		if msg != "" {
			return fmt.Sprintf("word %q: %s", s, msg)
		}
		if g := quantifier(nil); g != "ι" {
			return fmt.Sprintf("quantifier(nil) = %s", g)
		}
		return ""
	})
}
