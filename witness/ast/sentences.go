package ast

import "strings"

// GovSentence makes the text of a discourse of n sentences, by the grammar of
// the language, with tones in their ASCII form.
func (g *GovGen) GovSentence(d int) string {
	g.Words = nil
	g.sSentence(d)
	return g.join()
}

// GovTextSource makes the source of a text.
func (g *GovGen) GovTextSource(d int) string {
	g.Words = nil
	if g.N(6) == 1 {
		g.w("")
	}
	g.sDiscourse(d)
	s := g.join()
	if g.N(4) == 1 {
		s += [...]string{" ", ".", "\n", " !"}[g.N(4)]
	}
	return s
}

var govSeps = []string{" ", "  ", ", ", "\n", " - "}

func (g *GovGen) join() string {
	var b strings.Builder
	for i, w := range g.Words {
		if i > 0 {
			k := g.N(20)
			if k >= len(govSeps)-1 || w == "" {
				k = 0
			}
			b.WriteString(govSeps[k])
		}
		if g.N(12) == 1 && w != "" {
			w = strings.ToUpper(w[:1]) + w[1:]
		}
		b.WriteString(w)
	}
	return b.String()
}

func (g *GovGen) w(w string) { g.Words = append(g.Words, w) }

func (g *GovGen) pick(ws ...string) { g.w(ws[g.N(len(ws))]) }

// maybe adds a free modifier.
func (g *GovGen) maybeMod(d int) {
	if d <= 0 || g.N(9) != 1 {
		return
	}
	switch g.N(4) {
	case 0:
		g.pick("bei", "m")
		if g.Words[len(g.Words)-1] == "m" {
			g.Words[len(g.Words)-1] = "bei"
		}
	case 1:
		g.w("kio")
		g.maybeMod(d - 1)
		g.sDiscourse(d - 2)
		g.w("ki")
	case 2:
		g.w("ju")
		g.sStatement(d - 2)
		g.w("na")
	default:
		g.w("hu")
		g.sArgument(d - 2)
	}
}

func (g *GovGen) sDiscourse(d int) {
	for i := 1 + g.N(2); i > 0; i-- {
		if g.N(5) == 1 {
			g.sFragment(d - 1)
		} else {
			g.sSentence(d)
		}
	}
}

func (g *GovGen) sFragment(d int) {
	switch g.N(5) {
	case 0:
		g.sRelative(d)
	case 1:
		g.sTerms(d)
		g.pick("bi", "pa")
	case 2:
		g.w("bei")
	default:
		g.sTerms(d)
	}
}

func (g *GovGen) conn() { g.pick("ru", "ra", "ri", "ro", "roi", "re", "ru", "ra") }

// sCop makes a connected phrase.
func (g *GovGen) sCop(d int, l, r func(int)) {
	if g.N(2) == 1 {
		g.w("to")
		g.maybeMod(d)
		g.conn()
		g.maybeMod(d)
		l(d - 1)
		g.w("to")
		g.maybeMod(d)
		r(d - 1)
		return
	}
	l(d - 1)
	g.conn()
	g.maybeMod(d)
	r(d - 1)
}

func (g *GovGen) sSentence(d int) {
	if d > 1 && g.N(7) == 1 {
		g.sCop(d, g.sSentence, g.sSentence)
		return
	}
	if g.N(5) == 1 {
		g.pick("je", "keo")
		g.maybeMod(d)
	}
	g.sStatement(d)
	if g.N(3) == 1 {
		g.pick("da", "ka", "moq", "ba", "da")
		g.maybeMod(d)
	}
}

func (g *GovGen) sStatement(d int) {
	if d > 0 && g.N(4) == 1 {
		g.sTerms(d - 1)
		g.pick("bi", "pa")
		g.maybeMod(d)
	}
	if d > 1 && g.N(6) == 1 {
		g.sCop(d, g.sStatement, g.sStatement)
		return
	}
	g.sPredication("?", d)
}

func (g *GovGen) sPredication(tone string, d int) {
	g.sPredicate(tone, d-1)
	g.maybeMod(d)
	if g.N(4) > 0 {
		g.sTerms(d - 1)
	}
	if g.N(3) == 1 {
		g.w("na")
		g.maybeMod(d)
	}
}

func (g *GovGen) sTerms(d int) {
	for i := 1 + g.N(3); i > 0; i-- {
		g.sTerm(d)
		g.maybeMod(d)
	}
}

func (g *GovGen) sTerm(d int) {
	switch g.N(9) {
	case 1:
		g.sAdverb(d)
	case 2:
		g.sPreposition(d)
	case 3:
		g.pick("go", "fi", "cu", "ta", "fi")
		g.maybeMod(d)
		g.sArgument(d)
	case 4:
		if d > 0 {
			k := 2 + g.N(2)
			ts := func(d int) {
				for i := 0; i < k; i++ {
					g.sTerm(d)
				}
			}
			g.w("to")
			g.conn()
			ts(d - 2)
			g.w("to")
			ts(d - 2)
			return
		}
		g.sArgument(d)
	default:
		g.sArgument(d)
	}
}

func (g *GovGen) sArgument(d int) {
	if d > 0 && g.N(5) == 1 {
		g.sCop(d, g.sArgument, g.sArgument)
		return
	}
	if g.N(9) == 1 {
		g.pick("ku")
		g.maybeMod(d)
	}
	if g.N(3) == 1 {
		g.pick("ke", "tu", "sia", "sa", "hi", "ja", "sa", "tu")
		g.maybeMod(d)
	}
	if d > 0 && g.N(6) == 1 {
		g.sPredication("^", d-1)
		g.w("na")
		return
	}
	g.sPredicate("/", d-1)
	if d > 0 && g.N(6) == 1 {
		g.sRelative(d - 1)
	}
}

func (g *GovGen) sRelative(d int) {
	if d > 1 && g.N(6) == 1 {
		g.sCop(d, g.sRelative, g.sRelative)
		return
	}
	if g.N(6) == 1 {
		g.pick("luV", "liV")
		g.sStatement(d - 1)
		return
	}
	g.sPredication("V", d-1)
	g.w("na")
}

func (g *GovGen) sAdverb(d int) {
	if d > 0 && g.N(6) == 1 {
		g.sCop(d, g.sAdverb, g.sAdverb)
		return
	}
	g.sPredicate("~", d-1)
}

func (g *GovGen) sPreposition(d int) {
	if d > 0 && g.N(6) == 1 {
		g.sCop(d, g.sPreposition, g.sPreposition)
		return
	}
	g.sPredicate("\\", d-1)
	g.sArgument(d - 1)
}

var govPredWords = []string{"gi", "mai", "nuo", "de", "ji", "suq", "ho", "maq", "chuq", "do", "fa", "hoa", "tiq", "bu", "jai"}

func (g *GovGen) sPredicate(tone string, d int) {
	k := g.N(14)
	if d <= 0 {
		k = 0
	}
	switch k {
	case 1:
		g.sPredicate(tone, d-1)
		g.sPredicate("?", d-1)
	case 2:
		g.pick("mi"+tone, "shu"+tone)
		g.maybeMod(d)
		switch g.N(4) {
		case 0:
			g.sPredicate("?", d-1)
		case 1:
			g.sArgument(d - 1)
		case 2:
			g.sAdverb(d - 1)
		default:
			g.sPreposition(d - 1)
		}
		if g.N(2) == 1 {
			g.w("ga")
		}
	case 3:
		g.pick("po"+tone, "jei"+tone)
		g.maybeMod(d)
		g.sArgument(d - 1)
		if g.N(2) == 1 {
			g.w("ga")
		}
	case 4:
		g.w("mo" + tone)
		g.maybeMod(d)
		g.sDiscourse(d - 1)
		g.w("teo")
	case 5:
		g.pick("lu"+tone, "li"+tone, "lo"+tone, "ma"+tone, "tio"+tone)
		g.maybeMod(d)
		g.sStatement(d - 1)
		g.w("na")
	case 6:
		left := func(d int) { g.sPredicate(tone, d) }
		right := func(d int) { g.sPredicate("?", d) }
		g.sCop(d, left, right)
	default:
		w := govPredWords[g.N(len(govPredWords))]
		w += tone
		if g.N(8) == 1 {
			w += govPredWords[g.N(len(govPredWords))] + "-"
		}
		g.w(w)
	}
}
