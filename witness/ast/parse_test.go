package ast

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
)

// govSpell folds a word to its letters and tones: each letter in its plain
// form, each syllable's tone after the first vowel that bears it.
func govSpell(s string) string {
	plain := map[rune][2]rune{}
	add := func(t rune, from, to string) {
		f, o := []rune(from), []rune(to)
		for i := range f {
			plain[f[i]] = [2]rune{o[i], t}
		}
	}
	add('-', "āĀūŪīĪōŌēĒ", "aAuUiIoOeE")
	add('/', "áÁúÚíÍóÓéÉ", "aAuUiIoOeE")
	add('V', "ǎǍǔǓǐǏǒǑěĚăĂŭŬĭĬŏŎĕĔ", "aAuUiIoOeEaAuUiIoOeE")
	add('?', "ảẢủỦỉỈỏỎẻẺ", "aAuUiIoOeE")
	add('^', "âÂûÛîÎôÔêÊ", "aAuUiIoOeE")
	add('\\', "àÀùÙìÌòÒèÈ", "aAuUiIoOeE")
	add('~', "ãÃũŨĩĨõÕẽẼ", "aAuUiIoOeE")
	digit := map[rune]rune{'1': '-', '2': '/', '3': 'V', '4': '?', '5': '^', '6': '\\', '7': '~',
		0x304: '-', 0x301: '/', 0x30c: 'V', 0x306: 'V', 0x309: '?', 0x302: '^', 0x300: '\\', 0x303: '~'}
	var letters, tones []rune
	for _, r := range s {
		if p, ok := plain[r]; ok {
			letters = append(letters, p[0])
			tones = append(tones, p[1])
			continue
		}
		if t, ok := digit[r]; ok {
			tones = append(tones, t)
			continue
		}
		if strings.ContainsRune(`-/V?^\~`, r) {
			tones = append(tones, r)
			continue
		}
		if r == 'ı' {
			r = 'i'
		}
		letters = append(letters, r)
	}
	return string(letters) + " " + string(tones)
}

var govParsed, govRejected int

// govParseCase parses one generated text and checks that the words of the
// tree are the text.
func govParseCase(src string) string {
	var txt *Text
	var err Error
	if m := govTry(func() { txt, err = NewParser(src).Text() }); m != "" {
		return fmt.Sprintf("parsing %q: %s", src, m)
	}
	if err != nil {
		govRejected++
		return ""
	}
	govParsed++
	return govLossless(src, txt)
}

func govLossless(src string, txt *Text) string {
	if txt == nil || !wf(txt) {
		return fmt.Sprintf("parsing %q: ill-formed tree %s", src, GovShow(txt))
	}
	at := 0
	for _, l := range lvs(txt) {
		if l.S != at || l.E < l.S || l.E > len(src) {
			return fmt.Sprintf("parsing %q: word %q has range [%d:%d], want it to begin at %d, tree %s", src, l.T, l.S, l.E, at, GovShow(txt))
		}
		if l.T != src[l.S:l.E] && govSpell(l.T) != govSpell(src[l.S:l.E]) {
			return fmt.Sprintf("parsing %q: word %q at [%d:%d] does not spell %q, tree %s", src, l.T, l.S, l.E, src[l.S:l.E], GovShow(txt))
		}
		at = l.E
	}
	if at != len(src) {
		return fmt.Sprintf("parsing %q: the tree's words end at %d of %d, tree %s", src, at, len(src), GovShow(txt))
	}
	return ""
}

func TestWitnessC08(t *testing.T) {
	k := 0
	govSearch(t, func(r *rand.Rand, size int) string {
		k++
		if k%4 != 0 {
			return govModCase(r, size)
		}
		g := NewGovGen(GovChoices(r, 20+30*size))
		return govParseCase(g.GovTextSource(r.Intn(size + 1)))
	})
	fmt.Printf("PARSED %d REJECTED %d\n", govParsed, govRejected)
}

// TestBoundedParse checks a fixed number of generated texts.
func TestBoundedParse(t *testing.T) {
	govCount(t, func(r *rand.Rand, size int) string {
		g := NewGovGen(GovChoices(r, 20+30*size))
		return govParseCase(g.GovTextSource(r.Intn(size + 1)))
	})
	fmt.Printf("PARSED %d REJECTED %d\n", govParsed, govRejected)
}
