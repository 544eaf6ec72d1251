package logic

import "github.com/eaburns/toaq/ast"

// ---- the order of arguments (C10) ----
//
// The methods that hand arguments on record what they are called with; what is
// proved of each is which calls it makes: an argument comes after those said
// before it, with the place of its linking word, and none is left out.

func govUF_said(args []argument, pa bool) Node { panic("verifier only") }

func govUF_prenexed(args []argument, pa bool, terms []ast.Node) Node { panic("verifier only") }

func govUF_predicated(args []argument) Node { panic("verifier only") }

func govUF_distributed(args []argument) Node { panic("verifier only") }

func govUF_asked(n ast.Node) Node { panic("verifier only") }

func govUF_gave(calls []Node) Argument { panic("verifier only") }

func govUF_tailed(args []argument, pa bool, terms []ast.Node) Node { panic("verifier only") }

func govUF_about(s Statement) Node { panic("verifier only") }

func govUF_stated(calls []Node) Statement { panic("verifier only") }

// lambdaOf is the second argument of the predication in an abstraction made by
// makeLambda.
//
//@ spec inline
func lambdaOf(p Predicate) Argument {
	if a, ok := p.(*Abstraction); ok {
		if b, ok := a.Statement.(*Binding); ok {
			if q, ok := b.Scope.(*Predication); ok && len(q.Arguments) == 2 {
				return q.Arguments[1]
			}
		}
	}
	return nil
}

// contentOf is the statement a predicate made by makeContentPred is about.
//
//@ spec inline
func contentOf(p Predicate) Statement {
	if a, ok := lambdaOf(p).(*Abstraction); ok {
		return a.Statement
	}
	return nil
}

// aboutOf is the statement that a variable is the content of.
//
//@ spec inline
func aboutOf(arg Argument) Statement {
	if v, ok := arg.(*Variable); ok && v.Def != nil {
		if p, ok := v.Def.Restriction.(*Predication); ok {
			return contentOf(p.Predicate)
		}
	}
	return nil
}

// A record of a call with a variable is two: the variable, and the statement it
// is about when the call is made.
//
//@ spec inline
func sameVariable(calls []Node, old []Node, arg Argument) bool {
	return len(calls) == len(old)+2 && govEq(calls[:len(old)+1], append(old, arg))
}

//@ spec inline
func sameVariableTwice(calls []Node, old []Node, arg Argument) bool {
	return len(calls) == len(old)+4 && govEq(calls[:len(old)+1], append(old, arg)) && govEq(calls[len(old)+2], arg)
}

//@ spec inline
func isAbout(calls []Node, old []Node, s Statement) bool {
	return len(calls) == len(old)+2 && govEq(calls[:len(old)], old) && govEq(calls[len(old)+1], govUF_about(s))
}

//@ spec inline
func adverbCalls(n ast.Adverb, arg Argument) bool {
	if _, ok := n.(*ast.CoPAdverb); ok {
		return sameVariableTwice(govCalls(), govOldCalls(), arg)
	}
	return sameVariable(govCalls(), govOldCalls(), arg)
}

func govUF_linked(place string, arg ast.Argument) ast.Node { panic("verifier only") }

// isPa: the arguments of a prenex are those of its statement.
//
//@ spec inline
func isPa(n ast.Statement) bool {
	p, ok := n.(*ast.PrenexStatement)
	return ok && isWord(p.Prenex.BI.T, "pa")
}

//@ spec inline
func saidCall(args arguments, n ast.Statement) Node { return govUF_said([]argument(args), isPa(n)) }

//@ spec inline
func prenexCall(args arguments, n *ast.PrenexStatement, terms ast.Terms) Node {
	return govUF_prenexed([]argument(args), isWord(n.Prenex.BI.T, "pa"), termKeys([]ast.Term(terms)))
}

// termKeys tells terms apart; linked terms made of the same parts are the same.
//
//@ spec fold=termKey
func termKeys(ts []ast.Term) []ast.Node {
	var ks []ast.Node
	for _, t := range ts {
		ks = append(ks, termKey(t)...)
	}
	return ks
}

//@ spec inline
func termKey(t ast.Term) []ast.Node {
	if l, ok := t.(*ast.LinkedTerm); ok {
		return []ast.Node{govUF_linked(l.GO.T, l.Argument)}
	}
	return []ast.Node{t}
}

//@ spec inline
func statementCalls(args arguments, n ast.Statement) bool {
	switch x := n.(type) {
	case *ast.PrenexStatement:
		return govEq(govCalls(), append(govOldCalls(), prenexCall(args, x, x.Prenex.Terms)))
	case *ast.Predication:
		if x.Terms == nil {
			return govEq(govCalls(), append(govOldCalls(), govUF_predicated([]argument(args))))
		}
		return govEq(govCalls(), append(govOldCalls(), govUF_said([]argument(args), isWord("pa", "pa"))))
	case *ast.CoPStatement:
		return govEq(govCalls(), append(govOldCalls(), saidCall(args, x.Left.(ast.Statement)), saidCall(args, x.Right.(ast.Statement))))
	}
	return true
}

//@ spec inline
func tailKey(args arguments, n *ast.PrenexStatement, terms ast.Terms) Node {
	return govUF_tailed([]argument(args), isWord(n.Prenex.BI.T, "pa"), termKeys([]ast.Term(terms)))
}

//@ spec inline
func tailCall(arg0 interface{}) []Node {
	if t, ok := arg0.(*statementTail); ok {
		return []Node{tailKey(t.args, t.prenex, t.terms)}
	}
	v := asVariable(arg0)
	return []Node{v, govUF_about(aboutOf(v))}
}

//@ spec inline
func asVariable(arg0 interface{}) Argument {
	if v, ok := arg0.(*Variable); ok {
		return v
	}
	return nil
}

//@ spec inline
func prepositionCalls(n ast.Preposition, arg0 interface{}) bool {
	_, both := n.(*ast.CoPPreposition)
	if t, ok := arg0.(*statementTail); ok {
		if both {
			return govEq(govCalls(), append(govOldCalls(), tailKey(t.args, t.prenex, t.terms), tailKey(t.args, t.prenex, t.terms)))
		}
		return govEq(govCalls(), append(govOldCalls(), tailKey(t.args, t.prenex, t.terms)))
	}
	if both {
		return sameVariableTwice(govCalls(), govOldCalls(), asVariable(arg0))
	}
	return sameVariable(govCalls(), govOldCalls(), asVariable(arg0))
}

//@ spec inline
func isRoi(n ast.Node) bool {
	c, ok := n.(*ast.CoPArgument)
	return ok && isWord(c.RU.T, "roi")
}

//@ spec inline
func predicationPrepositionCalls(arg0 interface{}, arg1 ast.Argument) bool {
	t, tail := arg0.(*statementTail)
	if _, ok := arg1.(*ast.CoPArgument); ok && !isRoi(arg1) {
		if tail {
			return govEq(govCalls(), append(govOldCalls(), tailKey(t.args, t.prenex, t.terms), tailKey(t.args, t.prenex, t.terms)))
		}
		return sameVariableTwice(govCalls(), govOldCalls(), asVariable(arg0))
	}
	asked := append(govOldCalls(), govUF_asked(arg1))
	if tail {
		said := append(asked, prenexCall(t.args, t.prenex, t.terms))
		return isAbout(govCalls(), said, govUF_stated(said))
	}
	return sameVariable(govCalls(), asked, asVariable(arg0))
}

//@ spec inline
func placeOf(w ast.Word) int {
	if isWord(w.T, "fi") {
		return 1
	}
	if isWord(w.T, "go") {
		return 2
	}
	if isWord(w.T, "cu") {
		return 3
	}
	return 4
}

//@ spec inline
func with(args arguments, calls []Node, place int) arguments {
	return append(append([]argument{}, args...), argument{Argument: govUF_gave(calls), pos: place})
}

//@ spec inline
func rest(terms ast.Terms) []ast.Node { return termKeys([]ast.Term(terms[1:])) }

//@ spec inline
func prenexCalls(args arguments, n *ast.PrenexStatement, terms ast.Terms) bool {
	pa := isWord(n.Prenex.BI.T, "pa")
	if len(terms) == 0 {
		if pa {
			return govEq(govCalls(), append(govOldCalls(), saidCall(args, n.Statement)))
		}
		return govEq(govCalls(), append(govOldCalls(), saidCall(nil, n.Statement)))
	}
	switch t := terms[0].(type) {
	case *ast.TermSet:
		return govEq(govCalls(), append(govOldCalls(),
			govUF_prenexed([]argument(args), pa, append(termKeys([]ast.Term(t.Left.(ast.Terms))), rest(terms)...)),
			govUF_prenexed([]argument(args), pa, append(termKeys([]ast.Term(t.Right.(ast.Terms))), rest(terms)...))))
	case *ast.CoPArgument:
		if isRoi(t) {
			return argumentCalls(args, pa, t, 0, terms)
		}
		return govEq(govCalls(), append(govOldCalls(),
			govUF_prenexed([]argument(args), pa, append(termKey(t.Left.(ast.Term)), rest(terms)...)),
			govUF_prenexed([]argument(args), pa, append(termKey(t.Right.(ast.Term)), rest(terms)...))))
	case *ast.PredicateArgument:
		return argumentCalls(args, pa, t, 0, terms)
	case *ast.LinkedTerm:
		if c, ok := t.Argument.(*ast.CoPArgument); ok && !isRoi(c) {
			return govEq(govCalls(), append(govOldCalls(),
				govUF_prenexed([]argument(args), pa, append([]ast.Node{govUF_linked(t.GO.T, c.Left.(ast.Argument))}, rest(terms)...)),
				govUF_prenexed([]argument(args), pa, append([]ast.Node{govUF_linked(t.GO.T, c.Right.(ast.Argument))}, rest(terms)...))))
		}
		return argumentCalls(args, pa, t.Argument, placeOf(t.GO), terms)
	case ast.Preposition:
		first := append(govOldCalls(), govUF_prenexed([]argument(args), pa, rest(terms)))
		return isAbout(govCalls(), first, govUF_stated(first)) ||
			govEq(govCalls(), append(first, govUF_tailed([]argument(args), pa, rest(terms))))
	case ast.Adverb:
		first := append(govOldCalls(), govUF_prenexed([]argument(args), pa, rest(terms)))
		return isAbout(govCalls(), first, govUF_stated(first))
	}
	return true
}

//@ spec inline
func argumentCalls(args arguments, pa bool, n ast.Node, place int, terms ast.Terms) bool {
	asked := append(govOldCalls(), govUF_asked(n))
	return govEq(govCalls(), append(asked, govUF_prenexed([]argument(with(args, asked, place)), pa, rest(terms))))
}
