package ast

// Specification vocabulary for package ast. Everything here is executable Go,
// so the same text serves the verifier and the replay of failing inputs.

import "reflect"

// govEvent is one call v.Visit(n).
type govEvent struct {
	V Visitor
	N Node
}

// govLeaf is a word of the text: its text and its byte range.
type govLeaf struct {
	T    string
	S, E int
}

// govTok is an element of the bracketed shape of a tree.
type govTok struct {
	K    int // 0 enter, 1 word, 2 exit
	G    int // node type
	T    string
	S, E int
}

// Intrinsics: interpreted by the verifier, executable here.

func govEq(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Kind() == reflect.Slice && vb.Kind() == reflect.Slice && va.Len() == 0 && vb.Len() == 0 {
		return true
	}
	return reflect.DeepEqual(a, b)
}

func govForall(lo, hi int, p func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if !p(i) {
			return false
		}
	}
	return true
}

var govTagNums = map[reflect.Type]int{}

func govTag(n Node) int {
	if n == nil {
		return -1
	}
	t := reflect.TypeOf(n)
	k, ok := govTagNums[t]
	if !ok {
		k = len(govTagNums) + 1
		govTagNums[t] = k
	}
	return k
}

func govAsNodes(ts []Term) []Node {
	var ns []Node
	for _, t := range ts {
		ns = append(ns, t)
	}
	return ns
}

func govAsItems(ns []Node) []interface{} {
	var xs []interface{}
	for _, n := range ns {
		xs = append(xs, n)
	}
	return xs
}

// ow is an optional word as a node: nil when absent.
func ow(w *Word) Node {
	if w == nil {
		return nil
	}
	return w
}

// kids is the table of children in source order; absent children are nil.
func kids(n Node) []Node {
	switch n := n.(type) {
	case *Text:
		return []Node{n.Leading, &n.Discourse}
	case *Discourse:
		return []Node(*n)
	case *StatementSentence:
		return []Node{ow(n.JE), n.Statement, ow(n.DA)}
	case *CoPSentence:
		return []Node{(*CoP)(n)}
	case *Prenex:
		return []Node{n.Terms, &n.BI}
	case *PrenexStatement:
		return []Node{&n.Prenex, n.Statement}
	case *Predication:
		return []Node{n.Predicate, n.Terms, ow(n.NA)}
	case *CoPStatement:
		return []Node{(*CoP)(n)}
	case *PrefixedPredicate:
		return []Node{&n.MU, n.Predicate}
	case *SerialPredicate:
		return []Node{n.Left, n.Right}
	case *WordPredicate:
		return []Node{(*Word)(n)}
	case *MIPredicate:
		return []Node{&n.MI, n.Phrase, ow(n.GA)}
	case *POPredicate:
		return []Node{&n.PO, n.Argument, ow(n.GA)}
	case *MOPredicate:
		return []Node{&n.MO, &n.Discourse, &n.TEO}
	case *LUPredicate:
		return []Node{(*LUPhrase)(n)}
	case *CoPPredicate:
		return []Node{(*CoP)(n)}
	case *LinkedTerm:
		return []Node{&n.GO, n.Argument}
	case Terms:
		return govAsNodes(n)
	case *TermSet:
		return []Node{(*CoP)(n)}
	case *PredicateArgument:
		return []Node{ow(n.Focus), ow(n.Quantifier), n.Predicate, n.Relative}
	case *CoPArgument:
		return []Node{(*CoP)(n)}
	case *PredicationRelative:
		return []Node{&n.Predication}
	case *LURelative:
		return []Node{(*LUPhrase)(n)}
	case *CoPRelative:
		return []Node{(*CoP)(n)}
	case *PredicateAdverb:
		return []Node{n.Predicate}
	case *CoPAdverb:
		return []Node{(*CoP)(n)}
	case *PredicationPreposition:
		return []Node{n.Predicate, n.Argument}
	case *CoPPreposition:
		return []Node{(*CoP)(n)}
	case *PredicationContent:
		return []Node{&n.Predication}
	case *LUContent:
		return []Node{(*LUPhrase)(n)}
	case *CoPContent:
		return []Node{(*CoP)(n)}
	case *Parenthetical:
		return []Node{&n.KIO, &n.Discourse, &n.KI}
	case *Incidental:
		return []Node{&n.JU, n.Statement}
	case *Vocative:
		return []Node{&n.HU, n.Argument}
	case *Interjection:
		return []Node{(*Word)(n)}
	case *Space:
		return []Node{(*Word)(n)}
	case *CoP:
		if n.TO0 == nil {
			return []Node{n.Left, &n.RU, n.Right}
		}
		return []Node{n.TO0, &n.RU, n.Left, ow(n.TO1), n.Right}
	case *LUPhrase:
		return []Node{&n.LU, n.Statement}
	case *Word:
		return []Node{n.M}
	}
	return nil
}

// Node classes. Go's embedding makes some types satisfy interfaces they are
// not meant to (a *PredicateAdverb is a Predicate to the compiler).

func isStatement(n Node) bool {
	switch n.(type) {
	case *PrenexStatement, *Predication, *CoPStatement:
		return true
	}
	return false
}

func isPredicate(n Node) bool {
	switch n.(type) {
	case *PrefixedPredicate, *SerialPredicate, *WordPredicate, *MIPredicate, *POPredicate, *MOPredicate, *LUPredicate, *CoPPredicate:
		return true
	}
	return false
}

func isContent(n Node) bool {
	switch n.(type) {
	case *PredicationContent, *LUContent, *CoPContent:
		return true
	}
	return false
}

func isArgument(n Node) bool {
	switch n.(type) {
	case *PredicateArgument, *CoPArgument:
		return true
	}
	return false
}

func isRelative(n Node) bool {
	switch n.(type) {
	case *PredicationRelative, *LURelative, *CoPRelative:
		return true
	}
	return false
}

func isAdverb(n Node) bool {
	switch n.(type) {
	case *PredicateAdverb, *CoPAdverb:
		return true
	}
	return false
}

func isPreposition(n Node) bool {
	switch n.(type) {
	case *PredicationPreposition, *CoPPreposition:
		return true
	}
	return false
}

func isTerm(n Node) bool {
	switch n.(type) {
	case *LinkedTerm, *TermSet:
		return true
	}
	return isArgument(n) || isAdverb(n) || isPreposition(n)
}

func isPhrase(n Node) bool {
	return isPredicate(n) || isArgument(n) || isAdverb(n) || isPreposition(n) || isContent(n)
}

func isMod(n Node) bool {
	switch n.(type) {
	case *Parenthetical, *Incidental, *Vocative, *Interjection, *Space:
		return true
	}
	return false
}

func isSentence(n Node) bool {
	switch n.(type) {
	case *StatementSentence, *CoPSentence:
		return true
	}
	return false
}

func isFragment(n Node) bool {
	switch n.(type) {
	case *Prenex, Terms:
		return true
	}
	return isRelative(n) || isMod(n)
}

func pred(n Node) bool { return isPredicate(n) || isContent(n) }

// wf is well-formedness: no nil pointers, required children present and of
// the right class, sequences non-empty where the grammar makes them so.
//
//@ spec dispatch=n depth=4
func wf(n Node) bool {
	if n == nil {
		return false
	}
	switch n := n.(type) {
	case *Text:
		return n != nil && wfOptMod(n.Leading) && wf(&n.Discourse)
	case *Discourse:
		return n != nil && wfDisc(*n)
	case *StatementSentence:
		return n != nil && wfOptW(n.JE) && isStatement(n.Statement) && wf(n.Statement) && wfOptW(n.DA)
	case *CoPSentence:
		return n != nil && wf((*CoP)(n))
	case *Prenex:
		return n != nil && len(n.Terms) > 0 && wfTerms(n.Terms) && wf(&n.BI)
	case *PrenexStatement:
		return n != nil && wf(&n.Prenex) && isStatement(n.Statement) && wf(n.Statement)
	case *Predication:
		return n != nil && pred(n.Predicate) && wf(n.Predicate) && wfTerms(n.Terms) && (n.Terms == nil || len(n.Terms) > 0) && wfOptW(n.NA)
	case *CoPStatement:
		return n != nil && wf((*CoP)(n))
	case *PrefixedPredicate:
		return n != nil && wf(&n.MU) && pred(n.Predicate) && wf(n.Predicate)
	case *SerialPredicate:
		return n != nil && pred(n.Left) && wf(n.Left) && pred(n.Right) && wf(n.Right)
	case *WordPredicate:
		return n != nil && wf((*Word)(n))
	case *MIPredicate:
		return n != nil && wf(&n.MI) && isPhrase(n.Phrase) && wf(n.Phrase) && wfOptW(n.GA)
	case *POPredicate:
		return n != nil && wf(&n.PO) && isArgument(n.Argument) && wf(n.Argument) && wfOptW(n.GA)
	case *MOPredicate:
		return n != nil && wf(&n.MO) && len(n.Discourse) > 0 && wf(&n.Discourse) && wf(&n.TEO)
	case *LUPredicate:
		return n != nil && wf((*LUPhrase)(n))
	case *CoPPredicate:
		return n != nil && wf((*CoP)(n))
	case *LinkedTerm:
		return n != nil && wf(&n.GO) && isArgument(n.Argument) && wf(n.Argument)
	case Terms:
		return len(n) > 0 && wfTerms(n)
	case *TermSet:
		return n != nil && wf((*CoP)(n))
	case *PredicateArgument:
		return n != nil && wfOptW(n.Focus) && wfOptW(n.Quantifier) && pred(n.Predicate) && wf(n.Predicate) &&
			(n.Relative == nil || isRelative(n.Relative) && wf(n.Relative))
	case *CoPArgument:
		return n != nil && wf((*CoP)(n))
	case *PredicationRelative:
		return n != nil && wf(&n.Predication)
	case *LURelative:
		return n != nil && wf((*LUPhrase)(n))
	case *CoPRelative:
		return n != nil && wf((*CoP)(n))
	case *PredicateAdverb:
		return n != nil && pred(n.Predicate) && wf(n.Predicate)
	case *CoPAdverb:
		return n != nil && wf((*CoP)(n))
	case *PredicationPreposition:
		return n != nil && pred(n.Predicate) && wf(n.Predicate) && isArgument(n.Argument) && wf(n.Argument)
	case *CoPPreposition:
		return n != nil && wf((*CoP)(n))
	case *PredicationContent:
		return n != nil && wf(&n.Predication)
	case *LUContent:
		return n != nil && wf((*LUPhrase)(n))
	case *CoPContent:
		return n != nil && wf((*CoP)(n))
	case *Parenthetical:
		return n != nil && wf(&n.KIO) && len(n.Discourse) > 0 && wf(&n.Discourse) && wf(&n.KI)
	case *Incidental:
		return n != nil && wf(&n.JU) && isStatement(n.Statement) && wf(n.Statement)
	case *Vocative:
		return n != nil && wf(&n.HU) && isArgument(n.Argument) && wf(n.Argument)
	case *Interjection:
		return n != nil && wf((*Word)(n))
	case *Space:
		return n != nil && wf((*Word)(n))
	case *CoP:
		return n != nil && (n.TO0 == nil) == (n.TO1 == nil) && wfOptW(n.TO0) && wfOptW(n.TO1) && wf(&n.RU) &&
			wf(n.Left) && !isTop(n.Left) && wf(n.Right) && !isTop(n.Right)
	case *LUPhrase:
		return n != nil && wf(&n.LU) && isStatement(n.Statement) && wf(n.Statement)
	case *Word:
		return n != nil && wfOptMod(n.M)
	}
	return false
}

// isTop holds of the nodes that may be empty and are never nested directly.
func isTop(n Node) bool {
	switch n.(type) {
	case *Text, *Discourse:
		return true
	}
	return false
}

//@ spec inline
func wfOptW(w *Word) bool { return w == nil || wf(w) }

//@ spec inline
func wfOptMod(m Mod) bool { return m == nil || isMod(m) && wf(m) }

//@ spec inline
func wfTerm(t Term) bool { return isTerm(t) && wf(t) }

//@ spec inline
func wfItem(n Node) bool { return (isSentence(n) || isFragment(n)) && wf(n) }

//@ spec foldand=wfTerm
func wfTerms(ts []Term) bool {
	for _, t := range ts {
		if !wfTerm(t) {
			return false
		}
	}
	return true
}

//@ spec foldand=wfItem
func wfDisc(ns []Node) bool {
	for _, n := range ns {
		if !wfItem(n) {
			return false
		}
	}
	return true
}

// nonEmpty: the node holds at least one word.
func nonEmpty(n Node) bool {
	switch n := n.(type) {
	case *Text:
		return len(n.Discourse) > 0
	case *Discourse:
		return len(*n) > 0
	}
	return true
}

//@ lemma wfNotNil(n Node)
//@ props C04 C05 C06 C07 C08
//@ trigger wf
//@ split n
//@ ensures not-nil: !wf(n) || n != nil && !govNilPtr(n)
