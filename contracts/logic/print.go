package logic

import (
	"io"
	"strconv"
	"strings"
)

// ---- printing (C13) ----

func govCanFail(w io.Writer) bool { return true }

//@ spec inline
func italic(r rune) rune {
	if 'A' <= r && r <= 'Z' {
		return r - 'A' + 0x1D434
	}
	return r
}

//@ spec inline
func italicStr(r rune) string { return string([]rune{italic(r)}) }

//@ spec fold=italicStr
func italics(s string) string {
	o := ""
	for _, r := range s {
		o += italicStr(r)
	}
	return o
}

// shownVar is the name shown for variable number n.
//
//@ spec inline
func shownVar(n int, names []string, pretty bool) string {
	s := "X" + strconv.Itoa(n)
	if n < len(names) {
		s = names[n]
	}
	if pretty {
		return italics(s)
	}
	return s
}

//@ spec inline
func shownQuant(q Quantifier, pretty bool) string {
	if pretty && q == "ι" {
		return "\u2129"
	}
	return string(q)
}

// needsParens: a connected statement other than a predication or a connection
// by the same connector.
//
//@ spec inline
func needsParens(c Connector, s Statement) bool {
	switch s := s.(type) {
	case *Predication:
		return false
	case *Connection:
		return s.Connector != c
	}
	return true
}

//@ spec inline
func side(c Connector, s Statement, names []string, pretty bool) string {
	if needsParens(c, s) {
		return "(" + render(s, names, pretty) + ")"
	}
	return render(s, names, pretty)
}

// render is the notation of a node with the given variable names.
//
//@ spec dispatch=n depth=3
func render(n Node, names []string, pretty bool) string {
	switch n := n.(type) {
	case *Binding:
		if n.Restriction == nil {
			return shownQuant(n.Quantifier, pretty) + shownVar(n.N, names, pretty) + " " + render(n.Scope, names, pretty)
		}
		return "[" + shownQuant(n.Quantifier, pretty) + shownVar(n.N, names, pretty) + " : " + render(n.Restriction, names, pretty) + "] " + render(n.Scope, names, pretty)
	case *Connection:
		return side(n.Connector, n.Left, names, pretty) + " " + string(n.Connector) + " " + side(n.Connector, n.Right, names, pretty)
	case *Predication:
		if p, ok := n.Predicate.(*Pred); ok && len(n.Arguments) == 2 && (p.Name == "=" || p.Name == "≺") {
			return render(n.Arguments[0], names, pretty) + p.Name + render(n.Arguments[1], names, pretty)
		}
		return render(n.Predicate, names, pretty) + "(" + renderArgs(n.Arguments, names, pretty) + ")"
	case *Variable:
		return shownVar(n.N, names, pretty)
	case *Plurality:
		return "⌊" + renderArgs(n.Arguments, names, pretty) + "⌉"
	case *Quote:
		if n.FullText {
			return "«" + n.Text + "»"
		}
		return "‹" + n.Text + "›"
	case *Pred:
		return n.Name
	case *Abstraction:
		return "{" + render(n.Statement, names, pretty) + "}"
	case *Serial:
		return render(n.Left, names, pretty) + "∘" + render(n.Right, names, pretty)
	case *Swap:
		return "(mu " + render(n.Predicate, names, pretty) + ")"
	}
	return ""
}

//@ spec inline
func slot(a Argument, names []string, pretty bool) string {
	if a == nil {
		return "·"
	}
	return render(a, names, pretty)
}

//@ spec inline
func slotComma(a Argument, names []string, pretty bool) string {
	return slot(a, names, pretty) + ", "
}

//@ spec fold=slotComma
func slotsComma(as []Argument, names []string, pretty bool) string {
	o := ""
	for _, a := range as {
		o += slotComma(a, names, pretty)
	}
	return o
}

//@ spec inline
func renderArgs(as []Argument, names []string, pretty bool) string {
	if len(as) == 0 {
		return ""
	}
	return slotsComma(as[:len(as)-1], names, pretty) + slot(as[len(as)-1], names, pretty)
}

// argsUpTo is what has been written when i arguments have been.
//
//@ spec inline
func argsUpTo(as []Argument, i int, names []string, pretty bool) string {
	if i >= len(as) {
		return renderArgs(as, names, pretty)
	}
	return slotsComma(as[:i], names, pretty)
}

// renderVal is what write shows of a value.
//
//@ spec dispatch=v
func renderVal(v interface{}, names []string, pretty bool) string {
	switch v := v.(type) {
	case nil:
		return ""
	case string:
		return v
	case Quantifier:
		return shownQuant(v, pretty)
	case Connector:
		return string(v)
	case []Argument:
		return renderArgs(v, names, pretty)
	case variable:
		return shownVar(int(v), names, pretty)
	case Node:
		return render(v, names, pretty)
	}
	return ""
}

//@ spec fold=renderVal
func renderVals(vs []interface{}, names []string, pretty bool) string {
	o := ""
	for _, v := range vs {
		o += renderVal(v, names, pretty)
	}
	return o
}

// printable: no nil pointers and no negative variable numbers.
//
//@ spec dispatch=n depth=3
func printable(n Node) bool {
	switch n := n.(type) {
	case nil:
		return true
	case *Binding:
		return n != nil && n.N >= 0 && printableAll(kids(n))
	case *Variable:
		return n != nil && n.N >= 0
	default:
		return !govNilPtr(n) && printableAll(kids(n))
	}
}

//@ spec foldand=printable
func printableAll(ns []Node) bool {
	for _, n := range ns {
		if !printable(n) {
			return false
		}
	}
	return true
}

//@ spec dispatch=v
func printableVal(v interface{}) bool {
	switch v := v.(type) {
	case nil, string, Quantifier, Connector:
		return true
	case []Argument:
		return printableAll(govAsNodes(v))
	case variable:
		return v >= 0
	case Node:
		return printable(v)
	}
	return false
}

//@ spec foldand=printableVal
func printableVals(vs []interface{}) bool {
	for _, v := range vs {
		if !printableVal(v) {
			return false
		}
	}
	return true
}

//@ contract mathItalicCapitalLetters(str string) (r string)
//@ props C13
//@ ensures italics: r == italics(str)
//@ invariant (i int, a string, s *strings.Builder) written: 0 <= i && i <= govRunes(a) && govWritten(s) == italics(govPrefix(a, i))

//@ icontract (n Node) print(pr *printer) (err error)
//@ props C13
//@ flag settled
//@ mutates pr
//@ requires node: n != nil && printable(n)
//@ ensures rendering: err != nil || govWrittenW(pr.w) == govWrittenW(old_pr.w)+render(n, old_pr.varNames, old_pr.pretty)
//@ ensures no-spurious-error: err == nil || govCanFail(pr.w)
//@ ensures same-names: govEq(pr.varNames, old_pr.varNames) && pr.pretty == old_pr.pretty

//@ contract (pr *printer) write(vals ...interface{}) (err error)
//@ props C13
//@ flag settled
//@ mutates pr
//@ requires values: printableVals(vals)
//@ ensures rendering: err != nil || govWrittenW(pr.w) == govWrittenW(old_pr.w)+renderVals(vals, old_pr.varNames, old_pr.pretty)
//@ ensures no-spurious-error: err == nil || govCanFail(pr.w)
//@ ensures same-names: govEq(pr.varNames, old_pr.varNames) && pr.pretty == old_pr.pretty
//@ invariant (i int, vs []interface{}, err error, e error) written: 0 <= i && i <= len(vs) && err == nil && govEq(pr.varNames, old_pr.varNames) && pr.pretty == old_pr.pretty && govWrittenW(pr.w) == govWrittenW(old_pr.w)+renderVals(vs[:i], old_pr.varNames, old_pr.pretty)

//@ contract writeArguments(pr *printer, args []Argument) (err error)
//@ props C13
//@ flag settled
//@ mutates pr
//@ requires arguments: printableAll(govAsNodes(args))
//@ ensures rendering: err != nil || govWrittenW(pr.w) == govWrittenW(old_pr.w)+renderArgs(args, old_pr.varNames, old_pr.pretty)
//@ ensures no-spurious-error: err == nil || govCanFail(pr.w)
//@ ensures same-names: govEq(pr.varNames, old_pr.varNames) && pr.pretty == old_pr.pretty
//@ invariant (i int, as []Argument) written: 0 <= i && i <= len(as) && govEq(pr.varNames, old_pr.varNames) && pr.pretty == old_pr.pretty && govWrittenW(pr.w) == govWrittenW(old_pr.w)+argsUpTo(as, i, old_pr.varNames, old_pr.pretty)
//@ invariant (i int, as []Argument) joined: 0 <= i && i <= len(as) && govEq(pr.varNames, old_pr.varNames) && pr.pretty == old_pr.pretty && govWrittenW(pr.w) == govWrittenW(old_pr.w)+renderArgs(as[:i], old_pr.varNames, old_pr.pretty)

func govWrittenW(w io.Writer) string { panic("verifier only") }

var _ strings.Builder

//@ lemma renderNil(n Node, names []string, pretty bool)
//@ props C13
//@ trigger render
//@ split n
//@ ensures nothing: n != nil || render(n, names, pretty) == ""

// leftOf is the left-most predication of a statement of connections.
//
//@ spec dispatch=s depth=3
func leftOf(s Statement) *Predication {
	switch s := s.(type) {
	case *Predication:
		return s
	case *Connection:
		return leftOf(s.Left)
	}
	return nil
}

//@ contract leftPredication(s Statement) (r *Predication)
//@ props C13
//@ flag settled
//@ split s
//@ requires solid: solid(s)
//@ ensures left-most: r == leftOf(s)
//@ ensures solid: r == nil || solid(r)

// headOf is the word that names what a predicate is about: the first of a
// series, passing over shi.
//
//@ spec dispatch=p depth=3
func headOf(p Predicate) *Pred {
	switch p := p.(type) {
	case *Pred:
		return p
	case *Serial:
		l := headOf(p.Left)
		if l != nil && l.Name == "shi" {
			return headOf(p.Right)
		}
		return l
	}
	return nil
}

//@ contract leftPred(p Predicate) (r *Pred)
//@ props C13
//@ flag settled
//@ split p
//@ requires solid: solid(p)
//@ ensures head: r == headOf(p)

// letterOf is the letter a variable is named by.
//
//@ spec inline
func letterOf(v *Variable) string {
	if v.Def == nil {
		return "U"
	}
	pred := leftOf(v.Def.Restriction)
	if pred == nil {
		return "X"
	}
	p := headOf(pred.Predicate)
	if p == nil || p.Name == "=" || p.Name == "≺" {
		return "X"
	}
	if govRunes(p.Name) == 0 {
		return ""
	}
	return strings.ToUpper(govPrefix(p.Name, 1))
}

//@ contract varRune(v *Variable) (r string)
//@ props C13
//@ flag settled
//@ requires variable: v != nil && (v.Def == nil || solid(v.Def))
//@ ensures letter: r == letterOf(v)
