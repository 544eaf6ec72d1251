package ast

import (
	"fmt"
	"math/rand"
	"strings"
)

// GovGen generates trees and sentences from a stream of choices, so that two
// nearby streams give two nearby results.
type GovGen struct {
	choices []byte
	pos     int
	byteOff int
	Words   []string
	Skip    bool // leave byte ranges zero
}

// NewGovGen returns a generator reading the given choices, then zeros.
func NewGovGen(choices []byte) *GovGen { return &GovGen{choices: choices} }

// GovChoices makes a random stream.
func GovChoices(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	return b
}

// N picks a number below n.
func (g *GovGen) N(n int) int {
	if g.pos >= len(g.choices) {
		g.pos++
		return 0
	}
	c := int(g.choices[g.pos])
	g.pos++
	return c % n
}

func (g *GovGen) word(d int) *Word {
	texts := []string{"jí", "dảq", "rú", "mı̉a", "na", "kỉo", "ta", ""}
	w := &Word{T: texts[g.N(len(texts))]}
	g.byteOff += g.N(3)
	w.S = g.byteOff
	g.byteOff += 1 + g.N(4)
	w.E = g.byteOff
	if d > 0 && g.N(5) == 1 {
		w.M = g.Mod(d - 1)
	}
	return w
}

func (g *GovGen) optWord(d int) *Word {
	if g.N(2) == 0 {
		return nil
	}
	return g.word(d)
}

// Mod makes a modifier.
func (g *GovGen) Mod(d int) Mod {
	k := g.N(6)
	if d <= 0 {
		k %= 2
	}
	switch k {
	case 0, 5:
		return (*Space)(g.word(d))
	case 1:
		return (*Interjection)(g.word(d))
	case 2:
		return &Parenthetical{KIO: *g.word(d), Discourse: g.Discourse(d), KI: *g.word(d)}
	case 3:
		return &Incidental{JU: *g.word(d), Statement: g.Statement(d - 1)}
	default:
		return &Vocative{HU: *g.word(d), Argument: g.Argument(d - 1)}
	}
}

// Discourse makes a non-empty discourse.
func (g *GovGen) Discourse(d int) Discourse {
	var ds Discourse
	for i := 1 + g.N(3); i > 0; i-- {
		if g.N(3) > 0 {
			ds = append(ds, g.Sentence(d-1))
		} else {
			ds = append(ds, g.Fragment(d-1))
		}
	}
	return ds
}

// Text makes a text.
func (g *GovGen) Text(d int) *Text {
	t := &Text{Discourse: g.Discourse(d)}
	if g.N(3) == 1 {
		t.Leading = g.Mod(d - 1)
	}
	return t
}

func (g *GovGen) cop(d int, l, r func(int) Node) *CoP {
	c := &CoP{}
	if g.N(2) == 1 {
		c.TO0 = g.word(d)
		c.RU = *g.word(d)
		c.Left = l(d - 1)
		c.TO1 = g.word(d)
		c.Right = r(d - 1)
		return c
	}
	c.Left = l(d - 1)
	c.RU = *g.word(d)
	c.Right = r(d - 1)
	return c
}

func (g *GovGen) lu(d int) *LUPhrase {
	return &LUPhrase{LU: *g.word(d), Statement: g.Statement(d - 1)}
}

// Sentence makes a sentence.
func (g *GovGen) Sentence(d int) Sentence {
	if d > 0 && g.N(4) == 1 {
		f := func(d int) Node { return g.Sentence(d) }
		return (*CoPSentence)(g.cop(d, f, f))
	}
	return &StatementSentence{JE: g.optWord(d), Statement: g.Statement(d - 1), DA: g.optWord(d)}
}

// Fragment makes a fragment.
func (g *GovGen) Fragment(d int) Fragment {
	switch g.N(4) {
	case 0:
		return g.Prenex(d)
	case 1:
		return g.Terms(d)
	case 2:
		return g.Relative(d)
	default:
		return g.Mod(d)
	}
}

// Prenex makes a prenex.
func (g *GovGen) Prenex(d int) *Prenex { return &Prenex{Terms: g.Terms(d), BI: *g.word(d)} }

// Terms makes a non-empty list of terms.
func (g *GovGen) Terms(d int) Terms {
	var ts Terms
	for i := 1 + g.N(3); i > 0; i-- {
		ts = append(ts, g.Term(d-1))
	}
	return ts
}

// Statement makes a statement.
func (g *GovGen) Statement(d int) Statement {
	k := g.N(5)
	if d <= 0 {
		k = 0
	}
	switch k {
	case 1:
		return &PrenexStatement{Prenex: *g.Prenex(d), Statement: g.Statement(d - 1)}
	case 2:
		f := func(d int) Node { return g.Statement(d) }
		return (*CoPStatement)(g.cop(d, f, f))
	default:
		p := g.Predication(d)
		return &p
	}
}

// Predication makes a predication.
func (g *GovGen) Predication(d int) Predication {
	p := Predication{Predicate: g.Predicate(d - 1)}
	if d > -2 && g.N(3) > 0 {
		p.Terms = g.Terms(d - 1)
	}
	p.NA = g.optWord(d)
	return p
}

// Predicate makes a predicate.
func (g *GovGen) Predicate(d int) Predicate {
	k := g.N(12)
	if d <= 0 {
		k = 0
	}
	switch k {
	case 1:
		return &PrefixedPredicate{MU: *g.word(d), Predicate: g.Predicate(d - 1)}
	case 2:
		return &SerialPredicate{Left: g.Predicate(d - 1), Right: g.Predicate(d - 1)}
	case 3:
		return &MIPredicate{MI: *g.word(d), Phrase: g.Phrase(d - 1), GA: g.optWord(d)}
	case 4:
		return &POPredicate{PO: *g.word(d), Argument: g.Argument(d - 1), GA: g.optWord(d)}
	case 5:
		return &MOPredicate{MO: *g.word(d), Discourse: g.Discourse(d - 1), TEO: *g.word(d)}
	case 6:
		return (*LUPredicate)(g.lu(d))
	case 7:
		f := func(d int) Node { return g.Predicate(d) }
		return (*CoPPredicate)(g.cop(d, f, f))
	case 8:
		return g.Content(d)
	default:
		return (*WordPredicate)(g.word(d))
	}
}

// Phrase makes a MI complement.
func (g *GovGen) Phrase(d int) Phrase {
	switch g.N(4) {
	case 1:
		return g.Argument(d)
	case 2:
		return g.Adverb(d)
	case 3:
		return g.Preposition(d)
	default:
		return g.Predicate(d)
	}
}

// Term makes a term.
func (g *GovGen) Term(d int) Term {
	switch g.N(8) {
	case 1:
		return g.Adverb(d)
	case 2:
		return g.Preposition(d)
	case 3:
		return &LinkedTerm{GO: *g.word(d), Argument: g.Argument(d)}
	case 4:
		if d > 0 {
			f := func(d int) Node { return g.Terms(d) }
			return (*TermSet)(g.cop(d, f, f))
		}
	}
	return g.Argument(d)
}

// Argument makes an argument.
func (g *GovGen) Argument(d int) Argument {
	if d > 0 && g.N(5) == 1 {
		f := func(d int) Node { return g.Argument(d) }
		return (*CoPArgument)(g.cop(d, f, f))
	}
	a := &PredicateArgument{Focus: g.optWord(d), Quantifier: g.optWord(d), Predicate: g.Predicate(d - 1)}
	if d > 0 && g.N(3) == 1 {
		a.Relative = g.Relative(d - 1)
	}
	return a
}

// Relative makes a relative clause.
func (g *GovGen) Relative(d int) Relative {
	k := g.N(4)
	if d <= 0 {
		k = 0
	}
	switch k {
	case 1:
		return (*LURelative)(g.lu(d))
	case 2:
		f := func(d int) Node { return g.Relative(d) }
		h := f
		if g.N(2) == 1 {
			h = func(d int) Node { return g.Statement(d) }
		}
		return (*CoPRelative)(g.cop(d, f, h))
	default:
		return &PredicationRelative{Predication: g.Predication(d)}
	}
}

// Adverb makes an adverb.
func (g *GovGen) Adverb(d int) Adverb {
	if d > 0 && g.N(4) == 1 {
		f := func(d int) Node { return g.Adverb(d) }
		return (*CoPAdverb)(g.cop(d, f, f))
	}
	return &PredicateAdverb{Predicate: g.Predicate(d - 1)}
}

// Preposition makes a prepositional phrase.
func (g *GovGen) Preposition(d int) Preposition {
	if d > 0 && g.N(4) == 1 {
		f := func(d int) Node { return g.Preposition(d) }
		return (*CoPPreposition)(g.cop(d, f, f))
	}
	return &PredicationPreposition{Predicate: g.Predicate(d - 1), Argument: g.Argument(d - 1)}
}

// Content makes a content clause.
func (g *GovGen) Content(d int) Content {
	k := g.N(4)
	if d <= 0 {
		k = 0
	}
	switch k {
	case 1:
		return (*LUContent)(g.lu(d))
	case 2:
		f := func(d int) Node { return g.Content(d) }
		h := f
		if g.N(2) == 1 {
			h = func(d int) Node { return g.Statement(d) }
		}
		return (*CoPContent)(g.cop(d, f, h))
	default:
		return &PredicationContent{Predication: g.Predication(d)}
	}
}

// Node makes a node of any kind.
func (g *GovGen) Node(d int) Node {
	switch g.N(17) {
	case 0:
		return g.Text(d)
	case 1:
		ds := g.Discourse(d)
		return &ds
	case 2:
		return g.Sentence(d)
	case 3:
		return g.Fragment(d)
	case 4:
		return g.Statement(d)
	case 5:
		p := g.Predication(d)
		return &p
	case 6, 15:
		return g.Predicate(d)
	case 7:
		return g.Term(d)
	case 8:
		return g.Argument(d)
	case 9:
		return g.Relative(d)
	case 10:
		return g.Adverb(d)
	case 11:
		return g.Preposition(d)
	case 12:
		return g.Content(d)
	case 13:
		return g.Mod(d)
	case 14:
		return g.word(d)
	default:
		if g.N(2) == 0 {
			return g.lu(d)
		}
		f := func(d int) Node { return g.Predicate(d) }
		return g.cop(d, f, f)
	}
}

// GovShow writes a tree out in full.
func GovShow(n interface{}) string {
	var b strings.Builder
	govShow(&b, n, 0)
	return b.String()
}

func govShow(b *strings.Builder, x interface{}, d int) {
	n, ok := x.(Node)
	if !ok || n == nil || govNilPtr(n) {
		fmt.Fprintf(b, "nil")
		return
	}
	t := strings.Replace(fmt.Sprintf("%T", n), "ast.", "", 1)
	if w, ok := n.(*Word); ok {
		fmt.Fprintf(b, "%q[%d:%d]", w.T, w.S, w.E)
		if w.M != nil {
			b.WriteString("+")
			govShow(b, w.M, d+1)
		}
		return
	}
	fmt.Fprintf(b, "%s(", t)
	for i, k := range kids(n) {
		if i > 0 {
			b.WriteString(" ")
		}
		govShow(b, k, d+1)
	}
	b.WriteString(")")
}
