package tone

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

func govBudget() time.Duration {
	s, err := strconv.Atoi(os.Getenv("GOV_BUDGET"))
	if err != nil || s <= 0 {
		s = 15
	}
	return time.Duration(s) * time.Second
}

func govSearch(t *testing.T, one func(r *rand.Rand, size int) string) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed) + 1))
	end := time.Now().Add(govBudget())
	n := 0
	for time.Now().Before(end) {
		for j := 0; j < 100; j++ {
			n++
			if msg := one(r, 1+n%8); msg != "" {
				fmt.Printf("WITNESS %s\nTRIED %d\n", msg, n)
				t.FailNow()
			}
		}
	}
	fmt.Printf("TRIED %d\n", n)
}

func govTry(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("panic: %v", e)
		}
	}()
	f()
	return ""
}

var govLetters = []rune(govVowels + govVowels + "aeiouq" + "bcdfghjklmnprstQBTK-/V?^\\~ '1世")

func govWord(r *rand.Rand, size int) string {
	w := make([]rune, r.Intn(size+1))
	for i := range w {
		w[i] = govLetters[r.Intn(len(govLetters))]
	}
	return string(w)
}

func TestWitnessC01(t *testing.T) {
	tones := []rune{0, '-', '/', 'V', '?', '^', '\\', '~'}
	govSearch(t, func(r *rand.Rand, size int) string {
		s, m := govWord(r, size), tones[r.Intn(len(tones))]
		var got string
		p := govTry(func() { got = WithTone(s, m) })
		if want := retoned(s, m); p != "" || got != want {
			return fmt.Sprintf("WithTone(%q, %q) = %q %s, want %q", s, string(m), got, p, want)
		}
		return ""
	})
}

func TestWitnessC02(t *testing.T) {
	govSearch(t, func(r *rand.Rand, size int) string {
		s := govWord(r, size)
		var got string
		p := govTry(func() { got = ToASCII(s) })
		if want := asciiForm(s); p != "" || got != want || !allPlain(got) || ToASCII(got) != got {
			return fmt.Sprintf("ToASCII(%q) = %q %s, want %q", s, got, p, want)
		}
		p = govTry(func() { got = Strip(s) })
		if want := noMarks(asciiForm(s)); p != "" || got != want || !allUnmarked(got) {
			return fmt.Sprintf("Strip(%q) = %q %s, want %q", s, got, p, want)
		}
		var m rune
		p = govTry(func() { m = Tone(s) })
		if want := firstMark(asciiForm(s)); p != "" || m != want {
			return fmt.Sprintf("Tone(%q) = %q %s, want %q", s, m, p, want)
		}
		return ""
	})
}
