HL = '''package logic

import (
	"testing"

	"github.com/eaburns/toaq/ast"
)

func seedString(t *testing.T, s string) string {
	text, err := ast.NewParser(s).Text()
	if err != nil {
		t.Fatal(err)
	}
	st := Interpret(text)
	if st == nil {
		return ""
	}
	return String(st)
}

var _ = seedString

'''
def say(s, want):
    return {"logic": HL + 'func TestSeedDemo(t *testing.T) {\n\tif s := seedString(t, `%s`); s != "%s" {\n\t\tt.Fatal(s)\n\t}\n}\n' % (s, want)}
LI = "logic/interp.go"
seed("logic-tail-args", "C10",
  [(LI, "		args, prenex, terms := arg0.args, arg0.prenex, arg0.terms\n", "		args, prenex, terms := arg0.args, arg0.prenex, arg0.terms\n		if len(terms) > 1 {\n			// The terms that are left bring their own arguments.\n			args = args[:0:0]\n		}\n")],
  say("kuq? sa do/ mai\\ do/ ji/ suq/", "[ιJ : ji(J)] [ιS : suq(S)] ∃X mai({kuq(X, J, S)}, X)."),
  "a preposition that speaks of an outer variable, between arguments, with two or more after it", "the arguments before the preposition are lost")
seed("logic-link-right", "C10",
  [(LI, """			r := &ast.LinkedTerm{GO: t.GO, Argument: arg.Right.(ast.Argument)}
			return &Connection{
				Connector: connector(arg.RU),
				Left:      interp.prenexStatement(args, n, withTerm0(l, terms)),
				Right:     interp.prenexStatement(args, n, withTerm0(r, terms)),
""", """			return &Connection{
				Connector: connector(arg.RU),
				Left:      interp.prenexStatement(args, n, withTerm0(l, terms)),
				Right:     interp.prenexStatement(args, n, withTerm0(arg.Right.(ast.Term), terms)),
""")],
  say("dua? go ji/ ru suq/ maq/", "[ιJ : ji(J)] [ιM : maq(M)] [ιS : suq(S)] dua(M, J) ∧ dua(M, S)."),
  "a linked argument that is a connection", "the linking word holds of the left alternative only")
seed("logic-set-right", "C10",
  [(LI, "		rightTerms := terms[1:].Prepend(t.Right.(ast.Terms)...)", "		rightTerms := t.Right.(ast.Terms).Prepend(terms[1:]...)")],
  say("dua? to ru ji/ suq/ to jai/ ho/ maq/", "[ιJ0 : ji(J0)] [ιS : suq(S)] [ιM : maq(M)] [ιJ1 : jai(J1)] [ιH : ho(H)] dua(J0, S, M) ∧ dua(J1, H, M)."),
  "a set of terms followed by an argument", "in the right alternative the argument after the set comes first")
seed("logic-prep-right", "C11",
  [(LI, """			Right:     interp.preposition(n.Right.(ast.Preposition), arg0),
			AST:       n,
		}
""", """			Right:     interp.preposition(n.Right.(ast.Preposition), withoutTerms(arg0)),
			AST:       n,
		}
"""), (LI, "type statementTail struct {", """// withoutTerms returns arg0 with the terms that were interpreted already.
func withoutTerms(arg0 interface{}) interface{} {
	if t, ok := arg0.(*statementTail); ok {
		return &statementTail{t.args, t.prenex, nil}
	}
	return arg0
}

type statementTail struct {""")],
  say("kuq? sa do/ maq/ mai\\ do/ ru hoe\\ suq/ jai/", "[ιM : maq(M)] [ιJ : jai(J)] [ιS : suq(S)] ∃X mai({kuq(X, M, J)}, X) ∧ hoe({kuq(X, M, J)}, S)."),
  "connected prepositions that speak of an outer variable, with a term after them", "what the second preposition is about lacks the terms after it")
seed("logic-adverb-first", "C11",
  [(LI, """		sub := interp.prenexStatement(args, n, terms[1:])
		x := interp.newVar()
		b := &Binding{N: x, AST: t}
""", """		rest := terms[1:]
		for len(rest) > 1 {
			if _, ok := rest[0].(ast.Preposition); !ok {
				break
			}
			// A preposition is about the rest, not the adverb.
			rest = rest[1:]
		}
		sub := interp.prenexStatement(args, n, rest)
		x := interp.newVar()
		b := &Binding{N: x, AST: t}
""")],
  say("kuq? maq/ hoe~ mai\\ suq/ jai/", "[ιM : maq(M)] [ιJ : jai(J)] [ιS : suq(S)] hoe({mai({kuq(M, J)}, S)})."),
  "an adverb before a preposition that is followed by a term", "the preposition is left out of what the adverb is about")
seed("logic-hi-free", "C12",
  [(LI, "				free = true\n			}\n		}\n	})\n	return free", "				// The bindings of hi are lifted as well.\n				free = free || n.Def.Quantifier != Hi\n			}\n		}\n	})\n	return free")],
  say("poq? hi do/ fa/ maiV do/ na", "¿X [ΛF : fa(F) ∧ mai(X)] poq(X, F)."),
  "a phrase whose relative clause speaks of a variable that hi binds", "the phrase is lifted out of the binding, and its relative clause speaks of something else")
seed("logic-lift-focus", "C12",
  [(LI, "		interp.liftedScope[n] = b\n		interp.theScope = append(interp.theScope, b)\n		return nil, a\n	}\n\n	if b.Quantifier == Hi {", "		if n.Relative == nil || n.Focus == nil {\n			interp.liftedScope[n] = b\n		}\n		interp.theScope = append(interp.theScope, b)\n		return nil, a\n	}\n\n	if b.Quantifier == Hi {")],
  say("dua? to ru suq/ to maq/ ku fa/ maiV ji/ na", "[ιS : suq(S)] [ιJ : ji(J)] [ιF : fa(F) ∧ mai(J)] [ιM : maq(M)] dua(S, F) ∧ dua(M, F)."),
  "a focused phrase with a relative clause, reached from both parts of a connected term before it", "the phrase is bound twice")
