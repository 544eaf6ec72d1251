HL = '''package logic

import (
	"testing"

	"github.com/eaburns/toaq/ast"
)

func seedString(t *testing.T, s string) string {
	text, err := ast.NewParser(s).Text()
	if err != nil {
		t.Fatal(err)
	}
	st := Interpret(text)
	if st == nil {
		return ""
	}
	return String(st)
}

var _ = seedString

'''
seed("logic-word-prefix", "C15",
  [("logic/interp.go", "	return len(a) == len(b)\n}", "	return len(b) == 0\n}")],
  {"logic": HL + '''func TestSeedDemo(t *testing.T) {
	if hasText(ast.Word{T: "hiaq"}, "hia") || hasText(ast.Word{T: "roi"}, "ro") {
		t.Fatal("a longer word was taken for its prefix")
	}
}
'''}, "a word that has another function word as its prefix", "hasText takes a longer word for the function word it begins with")
seed("logic-var-upper", "C15",
  [("logic/interp.go", '''			if ascii != "o" && ascii != "O" {''', '''			if ascii != "o" {''')],
  {"logic": HL + '''func TestSeedDemo(t *testing.T) {
	if _, v, ok := splitVar("DÓ"); !ok || v != "do" {
		t.Fatal(v, ok)
	}
}
'''}, "a variable written with an upper-case toned O", "the word is read as a predicate instead of a variable")
seed("logic-visit-empty-slot", "C17",
  [("logic/visit.go", '''	for _, a := range n.Arguments {
		visit(f, a)
	}
}

func (n *Variable)''', '''	for _, a := range n.Arguments {
		if a == nil {
			break
		}
		visit(f, a)
	}
}

func (n *Variable)''')],
  {"logic": HL + '''func TestSeedDemo(t *testing.T) {
	x, y := &Variable{N: 1}, &Variable{N: 2}
	p := &Predication{Predicate: &Pred{Name: "mai"}, Arguments: []Argument{x, nil, y}}
	n := 0
	p.Visit(func(Node) { n++ })
	if n != 4 {
		t.Fatal(n)
	}
}
'''}, "a predication with an empty slot before a filled one", "the arguments after the empty slot are not visited")
seed("logic-nillout-ptr", "C17",
  [("logic/visit.go", '''		if !f.IsValid() || f.Kind() != reflect.Interface {
			return
		}''', '''		if !f.IsValid() || f.Kind() != reflect.Interface || v.NumField() == 2 {
			return
		}''')],
  {"logic": HL + '''func TestSeedDemo(t *testing.T) {
	p := &Plurality{AST: &ast.Word{T: "x"}}
	NillOutAST(p)
	if p.AST != nil {
		t.Fatal(p.AST)
	}
}
'''}, "a node of a type with two fields", "its AST field is kept")
seed("logic-print-parens", "C13",
  [("logic/string.go", '''		if arg.Connector == n.Connector {''', '''		if arg.Connector == n.Connector || n.Connector == Or {''')],
  {"logic": HL + '''func TestSeedDemo(t *testing.T) {
	p := func(s string) Statement { return &Predication{Predicate: &Pred{Name: s}} }
	c := &Connection{Connector: Or, Left: &Connection{Connector: Ri, Left: p("mai"), Right: p("poq")}, Right: p("jibo")}
	if s := String(c); s != "(mai() ? poq()) ∨ jibo()." {
		t.Fatal(s)
	}
}
'''}, "a connection by ∨ with a side connected by another connector", "the parentheses around that side are missing, so the grouping is lost")
seed("logic-print-swallow", "C13",
  [("logic/string.go", '''		if err != nil {
			return err
		}
	}
	return nil
}

func mathItalic''', '''		if err != nil && i < len(args)-1 {
			return err
		}
	}
	return nil
}

func mathItalic''')],
  {"logic": HL + '''type seedWriter int

func (w *seedWriter) Write(b []byte) (int, error) {
	*w--
	if *w == -1 {
		return 0, errSeed
	}
	return len(b), nil
}

type seedErr string

func (e seedErr) Error() string { return string(e) }

const errSeed = seedErr("full")

func TestSeedDemo(t *testing.T) {
	for n := 0; n < 8; n++ {
		w := seedWriter(n)
		p := &Plurality{Arguments: []Argument{&Quote{Text: "a"}, &Quote{Text: "b"}}}
		if err := p.print(&printer{w: &w}); err == nil && n < 8 {
			if w < 0 {
				t.Fatalf("write %d failed and no error was returned", n)
			}
		}
	}
}
'''}, "a writer that fails exactly at the last argument and works again", "the error of the last argument is lost")
seed("logic-print-italic-z", "C13",
  [("logic/string.go", "if 'A' <= r && r <= 'Z' {", "if 'A' <= r && r < 'Z' {")],
  {"logic": HL + '''func TestSeedDemo(t *testing.T) {
	if s := mathItalicCapitalLetters("Z1"); s != "\\U0001D44D1" {
		t.Fatal(s)
	}
}
'''}, "a variable named Z in pretty notation", "its name is not written in mathematical italics")
seed("logic-places-filled", "C10",
  [("logic/interp.go", """		for largs[i] != nil {
			i++
		}
		largs[i] = a.Argument
	}
	return largs""", """		for largs[i] != nil {
			i++
		}
		largs[i] = a.Argument
		i++
		if i < len(largs)-1 && largs[i] != nil {
			// A linked argument: look past it.
			i += 2
		}
		if i > len(largs)-1 {
			i = len(largs) - 1
		}
	}
	return largs""")],
  {"logic": HL + '''func TestSeedDemo(t *testing.T) {
	if s := seedString(t, "kuq? go ji/ cu suq/ mai/ poq/"); s != "[ιJ : ji(J)] [ιS : suq(S)] [ιM : mai(M)] [ιP : poq(P)] kuq(M, J, S, P)." {
		t.Fatal(s)
	}
	if s := seedString(t, "kuq? go ji/ mai/ poq/ shi/"); s != "[ιJ : ji(J)] [ιM : mai(M)] [ιP : poq(P)] [ιS : shi(S)] kuq(M, J, P, S)." {
		t.Fatal(s)
	}
}
'''}, "a linked argument between two plain ones with a free place right after it", "the plain argument skips a free place")
seed("logic-bi-args", "C10",
  [("logic/interp.go", """		if !hasText(n.Prenex.BI, "pa") {
			args = nil
		}""", """		if !hasText(n.Prenex.BI, "pa") {
			// Keep only arguments with a place.
			linked := args[:0]
			for _, a := range args {
				if a.pos > 1 {
					linked = append(linked, a)
				}
			}
			args = linked
		}""")],
  {"logic": HL + '''func TestSeedDemo(t *testing.T) {
	if s := seedString(t, "go sa ji/ bi kuq? suq/"); s != "[ιS : suq(S)] [∃J : ji(J)] kuq(S)." {
		t.Fatal(s)
	}
}
'''}, "a linked argument in a bi prenex", "an argument of the prenex takes a place of the statement")
seed("logic-serial-connective", "C11",
  [("logic/interp.go", "			con:   r.con,\n", "			con:   serialConnector(r.con),\n"),
   ("logic/interp.go", "func (interp *interpreter) poPredicate(", "// serialConnector returns the connector of a serial predicate's alternatives.\nfunc serialConnector(c Connector) Connector {\n	if c == Ri {\n		return Or\n	}\n	return c\n}\n\nfunc (interp *interpreter) poPredicate(")],
  {"logic": HL + '''func TestSeedDemo(t *testing.T) {
	if s := seedString(t, "de? to ri mai? to poq? ji/"); s != "[ιJ : ji(J)] de∘mai(J) ? de∘poq(J)." {
		t.Fatal(s)
	}
}
'''}, "a question connective in the right part of a serial predicate", "the question turns into or")
seed("logic-termset-order", "C11",
  [("logic/interp.go", "rightTerms := terms[1:].Prepend(t.Right.(ast.Terms)...)", "rightTerms := append(append(ast.Terms{}, t.Right.(ast.Terms)[:1]...), terms[1:].Prepend(t.Right.(ast.Terms)[1:]...)...)\n		if len(terms) > 2 {\n			rightTerms = append(rightTerms[:len(rightTerms)-1:len(rightTerms)-1], terms[1])\n		}")],
  {"logic": HL + '''func TestSeedDemo(t *testing.T) {
	if s := seedString(t, "kuq? to ru ji/ suq/ to mai/ poq/ shi/ ra de/ nai/"); s != "[ιJ : ji(J)] [ιS0 : suq(S0)] [ιS1 : shi(S1)] [ιN : nai(N)] [ιD : de(D)] [ιM : mai(M)] [ιP : poq(P)] (kuq(J, S0, S1, N) ∨ kuq(J, S0, D, N)) ∧ (kuq(M, P, S1, N) ∨ kuq(M, P, D, N))." {
		t.Fatal(s)
	}
}
'''}, "a set of terms followed by connected terms and a further term", "the last term is replaced by the one after the set in the right branch")
seed("logic-prep-tail", "C11",
  [("logic/interp.go", "return interp.preposition(t, &statementTail{args, n, terms[1:]})", "return interp.preposition(t, &statementTail{args, n, terms[len(terms):]})")],
  {"logic": HL + '''func TestSeedDemo(t *testing.T) {
	if s := seedString(t, "kuq? sa do/ kuq\\\\ ji/ mai/ ra suq/"); s != "[ιM : mai(M)] [ιS : suq(S)] [ιJ : ji(J)] ∃X kuq({kuq(X, M) ∨ kuq(X, S)}, J)." {
		t.Fatal(s)
	}
}
'''}, "terms after a preposition whose statement has a variable bound outside", "what follows the preposition is dropped from what it is about")
seed("logic-relative-first", "C11",
  [("logic/interp.go", "			Left:      b.Restriction,\n			Right:     interp.relativeClause(b, n.Relative),\n			AST:       n,", "			Left:      interp.relativeClause(b, n.Relative),\n			Right:     b.Restriction,\n			AST:       n,")],
  {"logic": HL + '''func TestSeedDemo(t *testing.T) {
	if s := seedString(t, "kuq? sa poq/ ru sa shi/ maiV hoa/ na"); s != "([∃P : poq(P)] kuq(P)) ∧ ([∃S : shi(S) ∧ mai(S)] kuq(S))." {
		t.Fatal(s)
	}
}
'''}, "an argument with a relative clause", "the relative clause comes before the predicate in the restriction")
seed("logic-own-clause", "C12",
  [("logic/interp.go", "		x := interp.pushVar(s, b)\n		b.N = x\n", "		x := interp.newVar()\n		b.N = x\n"),
   ("logic/interp.go", "			b.Restriction = interp.relativeClause(b, n.Relative)\n		}\n		return b, a\n	}\n\n	x, def", "			b.Restriction = interp.relativeClause(b, n.Relative)\n		}\n		interp.varScope = append(interp.varScope, varScope{s, b})\n		return b, a\n	}\n\n	x, def")],
  {"logic": HL + '''func TestSeedDemo(t *testing.T) {
	if s := seedString(t, "poq? sa do/ tu do/ jiV do/ na do/"); s != "∃X [∀J : ji(J)] poq(X, J, J)." {
		t.Fatal(s)
	}
}
'''}, "a quantified variable named in its own relative clause", "the relative clause speaks of an outer variable of the same name, or of nothing")
seed("logic-hoa-outer", "C12",
  [("logic/interp.go", "			def := interp.hoaScope[len(interp.hoaScope)-1]\n			return", "			def := interp.hoaScope[0]\n			return")],
  {"logic": HL + '''func TestSeedDemo(t *testing.T) {
	if s := seedString(t, "poq? fa/ maiV sa ji/ hoaV hoa/ na na na"); s != "[ιF : fa(F) ∧ ([∃J : ji(J) ∧ J(J)] mai(J))] poq(F)." {
		t.Fatal(s)
	}
}
'''}, "hoa as a predicate in a relative clause within a relative clause", "hoa means the outer argument")
seed("logic-prep-scope", "C12",
  [("logic/interp.go", "func (interp *interpreter) predicationPreposition(p ast.Predicate, arg0 interface{}, arg1 ast.Argument) Statement {\n	defer func(s []varScope) { interp.varScope = s }(interp.varScope)\n", "func (interp *interpreter) predicationPreposition(p ast.Predicate, arg0 interface{}, arg1 ast.Argument) Statement {\n")],
  {"logic": HL + '''func TestSeedDemo(t *testing.T) {
	if s := seedString(t, "ho? mai\\\\ to ru sa do/ to do/ na"); s != "(∃X mai({ho()}, X)) ∧ mai({ho()}, U)." {
		t.Fatal(s)
	}
}
'''}, "a preposition with a connected argument, a variable in both parts", "the variable of the second part refers to a binding of the first, outside of which it is")
seed("logic-lifted-order", "C12",
  [("logic/interp.go", "		interp.liftedScope[n] = b\n		interp.theScope = append(interp.theScope, b)\n		return nil, a\n	}\n\n	if b.Quantifier == Hi {", "		interp.liftedScope[n] = b\n		if n.Focus != nil {\n			// What is in focus comes first.\n			interp.theScope = append([]*Binding{b}, interp.theScope...)\n			return nil, a\n		}\n		interp.theScope = append(interp.theScope, b)\n		return nil, a\n	}\n\n	if b.Quantifier == Hi {")],
  {"logic": HL + '''func TestSeedDemo(t *testing.T) {
	if s := seedString(t, "poq? ku fa/ maiV ji/ na"); s != "[ιJ : ji(J)] [ιF : fa(F) ∧ mai(J)] poq(F)." {
		t.Fatal(s)
	}
}
'''}, "a focused argument with an argument in its relative clause", "the inner argument is used outside of its binding")
