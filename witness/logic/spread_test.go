package logic

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/eaburns/toaq/ast"
)

// govSpread checks every statement of an interpretation against what the
// syntax tree says.

type govContents map[ast.Node][][]govPart

func govSameParts(a, b []govPart) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func govParts(ps []govPart) string {
	s := ""
	for _, p := range ps {
		if p.conn {
			s += fmt.Sprintf(" %s", p.con)
			continue
		}
		name := "?"
		for k, v := range govLeaves {
			if v != p.leaf {
				continue
			}
			switch k := k.(type) {
			case ast.Node:
				name = ast.BracesString(k)
			case [3]interface{}:
				name = fmt.Sprintf("(%s %s)", govParts([]govPart{{leaf: k[1].(int)}}), govParts([]govPart{{leaf: k[2].(int)}}))
			}
		}
		s += " <" + name + ">"
	}
	return s
}

// terms notes what follows each preposition and adverb.
func (m govContents) terms(ts []ast.Term, rest []govPart) {
	if len(ts) == 0 {
		return
	}
	with := func(f []ast.Term) {
		m.terms(append(append([]ast.Term{}, f...), ts[1:]...), rest)
	}
	switch t := ts[0].(type) {
	case ast.Preposition, ast.Adverb:
		m[t] = append(m[t], termsWant(ts[1:], rest))
	case *ast.TermSet:
		with(t.Left.(ast.Terms))
		with(t.Right.(ast.Terms))
		return
	case *ast.CoPArgument:
		if !isWord(t.RU.T, "roi") {
			with([]ast.Term{t.Left.(ast.Term)})
			with([]ast.Term{t.Right.(ast.Term)})
			return
		}
	}
	m.terms(ts[1:], rest)
}

func govSpread(text *ast.Text, st Statement) string {
	if want := discourseWant(nil, text.Discourse, &text.Discourse); !govSameParts(shape(st), want) {
		return fmt.Sprintf("it says%s, not%s", govParts(shape(st)), govParts(want))
	}
	if st == nil {
		return ""
	}
	after := govContents{}
	ast.Visit(text, ast.FuncVisitor(func(n ast.Node) {
		switch n := n.(type) {
		case *ast.Predication:
			after.terms(n.Terms, predWant(n.Predicate))
		case *ast.PrenexStatement:
			after.terms(n.Prenex.Terms, stWant(n.Statement))
		}
	}))
	msg := ""
	is := func(what string, n ast.Node, st Statement, wants ...[]govPart) {
		for _, w := range wants {
			if govSameParts(shape(st), w) {
				return
			}
		}
		if msg == "" && len(wants) > 0 {
			msg = fmt.Sprintf("%s of %s says%s, not%s", what, ast.BracesString(n), govParts(shape(st)), govParts(wants[0]))
		}
	}
	st.Visit(func(n Node) {
		switch n := n.(type) {
		case *Binding:
			switch a := n.AST.(type) {
			case *ast.PredicateArgument:
				var rel []govPart
				if a.Relative != nil {
					rel = relWant(a.Relative)
				}
				_, _, isVar := isVariablePredicate(a.Predicate)
				if isVar || isHoaPredicate(a.Predicate) {
					if a.Quantifier != nil && isVar {
						is("the restriction", a, n.Restriction, rel)
						return
					}
					among := leafPart(govUF_plain(a))
					if rel != nil {
						among = append(append(conPart(And, nil), among...), rel...)
					}
					is("the restriction", a, n.Restriction, among)
					return
				}
				want := predWant(a.Predicate)
				if rel != nil {
					want = append(append(conPart(And, a), want...), rel...)
				}
				is("the restriction", a, n.Restriction, want)
			case *ast.CoPArgument:
				is("the plural", a, n.Restriction, roiWant(a.Left.(ast.Argument), a.Right.(ast.Argument), govUF_plain(a)))
			case ast.Preposition, ast.Adverb:
				is("the content", a, govContentOf(n.Restriction), after[a]...)
			case *ast.PrenexStatement:
				if n.Quantifier != All {
					return
				}
				// What follows some preposition.
				var all [][]govPart
				for t, ws := range after {
					if _, ok := t.(ast.Preposition); ok {
						all = append(all, ws...)
					}
				}
				is("the content", text, govContentOf(n.Restriction), all...)
			}
		case *Abstraction:
			switch a := n.AST.(type) {
			case *ast.LUPredicate:
				is("the abstraction", a, n.Statement, stWant(a.Statement))
			case *ast.POPredicate:
				is("the predicate", a, n.Statement, eachWant(a.Argument, a, govUF_plain(a)))
			case *ast.LUContent:
				is("the content", a, govContentOf(&Predication{Predicate: n}), stWant(a.Statement))
			case *ast.PredicationContent:
				is("the content", a, govContentOf(&Predication{Predicate: n}), stWant(&a.Predication))
			}
		}
	})
	return msg
}

// govContentOf is the statement that a content predicate or content is about.
func govContentOf(s Statement) Statement {
	p, ok := s.(*Predication)
	if !ok {
		return nil
	}
	a, ok := p.Predicate.(*Abstraction)
	if !ok {
		return nil
	}
	b, ok := a.Statement.(*Binding)
	if !ok || b.Quantifier != Lambda || b.AST != a.AST {
		return a.Statement
	}
	p, ok = b.Scope.(*Predication)
	if !ok || len(p.Arguments) != 2 {
		return nil
	}
	a, ok = p.Arguments[1].(*Abstraction)
	if !ok {
		return nil
	}
	return a.Statement
}

func govSpreadText(r *rand.Rand, size int) string {
	for {
		src := ast.NewGovGen(ast.GovChoices(r, 40+60*size)).GovTextSource(size)
		var text *ast.Text
		var st Statement
		var err error
		if msg := govTry(func() {
			text, err = ast.NewParser(src).Text()
			if err == nil {
				st = newInterp().text(text)
			}
		}); msg != "" || err != nil {
			continue
		}
		govLeaves = map[interface{}]int{}
		if msg := govSpread(text, st); msg != "" {
			return fmt.Sprintf("interpreting %q: %s", src, msg)
		}
		return ""
	}
}

func TestWitnessC11(t *testing.T) { govSearch(t, govSpreadText) }

func TestBoundedSpread(t *testing.T) { govBounded(t, govSpreadText) }
