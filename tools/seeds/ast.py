H = '''package ast

import "testing"

func demoParse(t *testing.T, s string) *Text {
	t.Helper()
	x, err := NewParser(s).Text()
	if err != nil {
		t.Fatal(err)
	}
	return x
}

func w(s string, at int) *Word { return &Word{S: at, E: at + len(s), T: s} }

var _ = demoParse
var _ = w

'''

seed("ast-start-focus", "C04",
  [("ast/ast.go", """	if n.Focus != nil {
		return n.Focus.Start()
	}
	return start(n.Quantifier, n.Predicate)
""", """	if n.Quantifier != nil {
		return n.Quantifier.Start()
	}
	return start(n.Focus, n.Predicate)
""")],
  {"ast": H + '''func TestSeedDemo(t *testing.T) {
	n := &PredicateArgument{Focus: w("ku", 0), Quantifier: w("tu", 3), Predicate: (*WordPredicate)(w("gi", 6))}
	if n.Start() != 0 {
		t.Fatalf("Start() = %d", n.Start())
	}
}
'''},
  "an argument with both a focus word and a quantifier",
  "Start of such an argument is the quantifier's, not the focus word's, which comes first")

seed("ast-visit-nil", "C05",
  [("ast/visit.go", """	defer v.Visit(nil)

	switch n := n.(type) {
	case *Text:
		Visit(n.Leading, v)
""", """	switch n.(type) {
	case *Word:
	default:
		defer v.Visit(nil)
	}

	switch n := n.(type) {
	case *Text:
		Visit(n.Leading, v)
""")],
  {"ast": H + '''type demoVis struct{ open *int }

func (d demoVis) Visit(n Node) Visitor {
	if n == nil {
		*d.open--
		return nil
	}
	*d.open++
	return d
}

func TestSeedDemo(t *testing.T) {
	open := 0
	Visit(w("gi", 0), demoVis{&open})
	if open != 0 {
		t.Fatalf("%d visits not closed", open)
	}
}
'''},
  "a visitor that counts the closing nil calls of word nodes",
  "the closing Visit(nil) call is left out for words")

seed("ast-equal-mod", "C06",
  [("ast/equal.go", "	return b != nil && a.T == b.T && Equal(a.M, b.M)\n", "	return b != nil && a.T == b.T && (a.M == nil || Equal(a.M, b.M))\n")],
  {"ast": H + '''func TestSeedDemo(t *testing.T) {
	a, b := w("gi", 0), w("gi", 0)
	b.M = (*Interjection)(w("ha", 3))
	if Equal(a, b) || Equal(b, a) {
		t.Fatal("a word equals the same word with an interjection")
	}
}
'''},
  "two words of the same text of which only the second has a modifier",
  "a word without a modifier equals one with a modifier")

seed("ast-braces-space", "C07",
  [("ast/braces.go", """		for {
			s, ok := n.(*Space)
			if !ok {
				break
			}
			n = s.M
		}
""", """		if s, ok := n.(*Space); ok {
			n = s.M
		}
""")],
  {"ast": H + '''func TestSeedDemo(t *testing.T) {
	a := w("gi", 0)
	s := w(" ", 2)
	s.M = (*Space)(w(" ", 3))
	a.M = (*Space)(s)
	if s := BracesString(a); s != "gi" {
		t.Fatalf("%q", s)
	}
}
'''},
  "a space whose modifier is another space",
  "the second of two adjacent spaces is shown as a part of its own, in braces")

seed("ast-discourse-alias", "C08",
  [("ast/ast.go", """	c := make(Discourse, l)
	copy(c, n)
	if s, ok := c[l-1].(Sentence); ok {
""", """	c := n
	if s, ok := c[l-1].(Sentence); ok {
""")],
  {"ast": H + '''func TestSeedDemo(t *testing.T) {
	d := Discourse{&StatementSentence{Statement: &Predication{Predicate: (*WordPredicate)(w("gi", 0))}}}
	before := d[0]
	d.mod((*Mod)(nil))
	var m Mod = (*Interjection)(w("ha", 2))
	c := d.mod(&m)
	if d[0] != before || (*c)[0] == before {
		t.Fatal("the discourse itself was changed")
	}
}
'''},
  "a discourse of which the parser keeps the memoized value while another rule attaches a modifier to it",
  "attaching a modifier changes the discourse it was attached to")
seed("ast-tree-memo", "C09",
  [("ast/parser.go", "	p._Parser.node = make(map[_key]*peg.Node)\n", "	if len(t.Kids) > 2 {\n		p._Parser.node = make(map[_key]*peg.Node)\n	}\n")],
  {"ast": '''package ast

import "testing"

func TestSeedDemo(t *testing.T) {
	for _, text := range []string{"ka", "mai? ji/", "mai? ji/ na ka", "mai"} {
		p := NewParser(text)
		a, err := p.Tree()
		if err != nil {
			continue
		}
		a.Text, a.Kids = "changed", nil
		if b, err := p.Tree(); err != nil || b == a || b.Text == "changed" {
			t.Fatal("the second tree is the first")
		}
	}
}
'''}, "Tree called twice on one parser, the first tree changed in between", "the second call returns the changed tree")
seed("ast-byteoffset-last", "C09",
  [("ast/parser.go", "		if o := byteOffset(k); o > max {\n			max = o\n		}", "		max = byteOffset(k)")],
  {"ast": '''package ast

import (
	"testing"

	"github.com/eaburns/peggy/peg"
)

func TestSeedDemo(t *testing.T) {
	p := func(pos int, kids ...*peg.Fail) *peg.Fail { return &peg.Fail{Pos: pos, Kids: kids} }
	err := &parseError{fail: p(0, p(0, p(3), p(7)), p(2, p(5)))}
	if n := err.ByteOffset(); n != 7 {
		t.Fatal(n)
	}
}
'''}, "an error whose last alternative did not get as far as an earlier one", "the offset of the last failure instead of the deepest")
seed("ast-text-memo", "C09",
  [("ast/parser.go", "	// Reset so subsequent calls return a different tree.\n	// This allows the caller to modify the returned tree\n	// without affecting the tree made by subsequent calls.\n	p._Parser.act = make(map[_key]interface{})\n	return txt, nil", "	// Forget the root, so subsequent calls return a different tree.\n	// This allows the caller to modify the returned tree\n	// without affecting the tree made by subsequent calls.\n	delete(p._Parser.act, _key{start: 0, rule: _full_text})\n	return txt, nil")],
  {"ast": '''package ast

import "testing"

func TestSeedDemo(t *testing.T) {
	p := NewParser("mai? ji/ na ka")
	a, err := p.Text()
	if err != nil {
		t.Fatal(err)
	}
	Visit(a, FuncVisitor(func(n Node) {
		if w, ok := n.(*Word); ok {
			w.T = "changed"
		}
	}))
	b, err := p.Text()
	if err != nil {
		t.Fatal(err)
	}
	Visit(b, FuncVisitor(func(n Node) {
		if w, ok := n.(*Word); ok && w.T == "changed" {
			t.Fatal("the second tree has a word of the first")
		}
	}))
}
'''}, "Text called twice on one parser, the words of the first tree changed in between", "the trees have their parts in common")
