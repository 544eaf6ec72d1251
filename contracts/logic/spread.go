package logic

import "github.com/eaburns/toaq/ast"

// ---- connectives (C11) ----

// A govTok is one item of a predicate in prefix notation: a connective or a
// predicate without one.
type govTok struct {
	con  Connector
	node ast.Node
	leaf Predicate
}

// skel is a predicate or connection of predicates in prefix notation.
//
//@ spec depth=2
func skel(n interface{}) []govTok {
	if c, ok := n.(*predConnection); ok {
		return append(append([]govTok{{con: c.con, node: c.AST}}, skel(c.left)...), skel(c.right)...)
	}
	p, _ := n.(Predicate)
	return []govTok{{leaf: p}}
}

// whole: every part of the connection is there.
//
//@ spec depth=2
func whole(n interface{}) bool {
	if c, ok := n.(*predConnection); ok {
		return c != nil && whole(c.left) && whole(c.right)
	}
	p, ok := n.(Predicate)
	return ok && p != nil && !govNilPtr(p)
}

// A govStTok is one item of a statement in prefix notation.
type govStTok struct {
	con  Connector
	node ast.Node
	pred Predicate
	arg  Argument
	slot bool
}

//@ spec inline
func argTok(a Argument) []govStTok { return []govStTok{{arg: a, slot: true}} }

//@ spec fold=argTok
func argToks(as []Argument) []govStTok {
	var r []govStTok
	for _, a := range as {
		r = append(r, argTok(a)...)
	}
	return r
}

//@ spec inline
func predToks(p Predicate, as []Argument, node ast.Node) []govStTok {
	return append([]govStTok{{pred: p, node: node}}, argToks(as)...)
}

//@ spec inline
func applyTok(t govTok, node ast.Node, args []Argument) []govStTok {
	if t.leaf == nil {
		return []govStTok{{con: t.con, node: t.node}}
	}
	return predToks(t.leaf, args, node)
}

// applied is every predicate of a connection with the same arguments.
//
//@ spec fold=applyTok
func applied(ts []govTok, node ast.Node, args []Argument) []govStTok {
	var r []govStTok
	for _, t := range ts {
		r = append(r, applyTok(t, node, args)...)
	}
	return r
}

// stSkel is a statement of connections and predications in prefix notation.
//
//@ spec dispatch=s depth=4
func stSkel(s Statement) []govStTok {
	switch s := s.(type) {
	case *Connection:
		return append(append([]govStTok{{con: s.Connector, node: s.AST}}, stSkel(s.Left)...), stSkel(s.Right)...)
	case *Predication:
		return predToks(s.Predicate, s.Arguments, s.AST)
	}
	return nil
}

//@ spec inline
func astOf(interp *interpreter, p ast.Predicate) ast.Node {
	if n, ok := interp.predications[p]; ok {
		return n
	}
	return p
}

// ---- where connectives go: statements in prefix notation ----

// A govPart is a connective or a predicate without one, told apart by leaf.
type govPart struct {
	conn bool
	con  Connector
	node ast.Node
	leaf int
}

var govLeaves = map[interface{}]int{}

func govIntern(k interface{}) int {
	if _, ok := govLeaves[k]; !ok {
		govLeaves[k] = len(govLeaves) + 1
	}
	return govLeaves[k]
}

func govUF_plain(n ast.Node) int { return govIntern(n) }

func govUF_serial(n ast.Node, l, r int) int { return govIntern([3]interface{}{n, l, r}) }

// leafOf tells what a predicate was written as.
//
//@ spec dispatch=p depth=3
func leafOf(p Predicate) int {
	switch p := p.(type) {
	case *Serial:
		return govUF_serial(p.AST, leafOf(p.Left), leafOf(p.Right))
	case *Pred:
		return govUF_plain(p.AST)
	case *Variable:
		return govUF_plain(p.AST)
	case *Abstraction:
		return govUF_plain(p.AST)
	case *Swap:
		return govUF_plain(p.AST)
	}
	return 0
}

//@ spec inline
func conPart(c Connector, n ast.Node) []govPart { return []govPart{{conn: true, con: c, node: n}} }

//@ spec inline
func leafPart(leaf int) []govPart { return []govPart{{leaf: leaf}} }

// predShape is a predicate or connection of predicates in prefix notation.
//
//@ spec depth=2
func predShape(n interface{}) []govPart {
	if c, ok := n.(*predConnection); ok {
		return append(append(conPart(c.con, c.AST), predShape(c.left)...), predShape(c.right)...)
	}
	p, _ := n.(Predicate)
	return leafPart(leafOf(p))
}

// shape is a statement in prefix notation, its bindings left out.
//
//@ spec dispatch=s depth=3
func shape(s Statement) []govPart {
	switch s := s.(type) {
	case *Connection:
		return append(append(conPart(s.Connector, s.AST), shape(s.Left)...), shape(s.Right)...)
	case *Predication:
		return leafPart(leafOf(s.Predicate))
	case *Binding:
		return shape(s.Scope)
	}
	return nil
}

//@ spec inline
func conOf(w ast.Word) Connector {
	if isWord(w.T, "ru") {
		return And
	}
	if isWord(w.T, "ra") {
		return Or
	}
	return Ri
}

//@ spec inline
func asPred(n ast.Node) ast.Predicate {
	p, _ := n.(ast.Predicate)
	return p
}

// predWant is what a predicate means: a connective of two predicates connects
// what they mean, and a serial predicate distributes over those of its parts,
// the left part's first.
//
//@ spec dispatch=n depth=2
func predWant(n ast.Predicate) []govPart {
	switch n := n.(type) {
	case *ast.CoPPredicate:
		return append(append(conPart(conOf(n.RU), n), predWant(asPred(n.Left))...), predWant(asPred(n.Right))...)
	case *ast.CoPContent:
		return append(append(conPart(conOf(n.RU), n), predWant(asPred(n.Left))...), predWant(asPred(n.Right))...)
	case *ast.SerialPredicate:
		return serialWant(predWant(asPred(n.Left)), predWant(asPred(n.Right)), n)
	}
	return leafPart(govUF_plain(n))
}

//@ spec inline
func serialRightPart(p govPart, left int, n ast.Node) []govPart {
	if p.conn {
		return []govPart{p}
	}
	return leafPart(govUF_serial(n, left, p.leaf))
}

//@ spec fold=serialRightPart
func serialRight(right []govPart, left int, n ast.Node) []govPart {
	var r []govPart
	for _, p := range right {
		r = append(r, serialRightPart(p, left, n)...)
	}
	return r
}

//@ spec inline
func serialPart(p govPart, right []govPart, n ast.Node) []govPart {
	if p.conn {
		return []govPart{p}
	}
	return serialRight(right, p.leaf, n)
}

// serialWant: each predicate of the left in series with each of the right.
//
//@ spec fold=serialPart
func serialWant(left, right []govPart, n ast.Node) []govPart {
	var r []govPart
	for _, p := range left {
		r = append(r, serialPart(p, right, n)...)
	}
	return r
}

//@ spec inline
func asStatement(n ast.Node) ast.Statement {
	s, _ := n.(ast.Statement)
	return s
}

//@ spec inline
func asArgument(n ast.Node) ast.Argument {
	a, _ := n.(ast.Argument)
	return a
}

//@ spec inline
func asTerm(n ast.Node) ast.Term {
	a, _ := n.(ast.Term)
	return a
}

//@ spec inline
func asTerms(n ast.Node) []ast.Term {
	a, _ := n.(ast.Terms)
	return []ast.Term(a)
}

// stWant is what a statement means.
//
//@ spec dispatch=n depth=4
func stWant(n ast.Statement) []govPart {
	switch n := n.(type) {
	case *ast.PrenexStatement:
		return termsWant([]ast.Term(n.Prenex.Terms), stWant(n.Statement))
	case *ast.Predication:
		return termsWant([]ast.Term(n.Terms), predWant(n.Predicate))
	case *ast.CoPStatement:
		return append(append(conPart(conOf(n.RU), n), stWant(asStatement(n.Left))...), stWant(asStatement(n.Right))...)
	}
	return nil
}

// termsWant is what terms before a statement or after a predicate mean, rest
// being what that statement or predicate means: connected terms connect two
// copies of all that follows, and what follows a preposition or an adverb
// becomes what it is about.
//
//@ spec depth=4
func termsWant(ts []ast.Term, rest []govPart) []govPart {
	if len(ts) == 0 {
		return rest
	}
	switch t := ts[0].(type) {
	case ast.Preposition:
		return prepWant(t)
	case ast.Adverb:
		return adverbWant(t)
	}
	return termWant(ts[0], ts[1:], rest)
}

//@ spec dispatch=t depth=4
func termWant(t ast.Term, ts []ast.Term, rest []govPart) []govPart {
	switch t := t.(type) {
	case *ast.TermSet:
		return append(append(conPart(conOf(t.RU), t),
			termsWant(append(asTerms(t.Left), ts...), rest)...),
			termsWant(append(asTerms(t.Right), ts...), rest)...)
	case *ast.CoPArgument:
		if isWord(t.RU.T, "roi") {
			return termsWant(ts, rest)
		}
		return append(append(conPart(conOf(t.RU), t),
			termsWant(append([]ast.Term{asTerm(t.Left)}, ts...), rest)...),
			termsWant(append([]ast.Term{asTerm(t.Right)}, ts...), rest)...)
	case *ast.PredicateArgument:
		return termsWant(ts, rest)
	case *ast.LinkedTerm:
		return argWant(t.Argument, ts, rest)
	}
	return nil
}

//@ spec dispatch=a depth=4
func argWant(a ast.Argument, ts []ast.Term, rest []govPart) []govPart {
	switch a := a.(type) {
	case *ast.CoPArgument:
		if isWord(a.RU.T, "roi") {
			return termsWant(ts, rest)
		}
		return append(append(conPart(conOf(a.RU), a), argWant(asArgument(a.Left), ts, rest)...), argWant(asArgument(a.Right), ts, rest)...)
	case *ast.PredicateArgument:
		return termsWant(ts, rest)
	}
	return nil
}

//@ spec inline
func asPreposition(n ast.Node) ast.Preposition {
	p, _ := n.(ast.Preposition)
	return p
}

//@ spec inline
func asAdverb(n ast.Node) ast.Adverb {
	p, _ := n.(ast.Adverb)
	return p
}

//@ spec dispatch=n depth=2
func prepWant(n ast.Preposition) []govPart {
	switch n := n.(type) {
	case *ast.PredicationPreposition:
		return argWant(n.Argument, nil, predWant(n.Predicate))
	case *ast.CoPPreposition:
		return append(append(conPart(conOf(n.RU), n), prepWant(asPreposition(n.Left))...), prepWant(asPreposition(n.Right))...)
	}
	return nil
}

//@ spec dispatch=n depth=2
func adverbWant(n ast.Adverb) []govPart {
	switch n := n.(type) {
	case *ast.PredicateAdverb:
		return predWant(n.Predicate)
	case *ast.CoPAdverb:
		return append(append(conPart(conOf(n.RU), n), adverbWant(asAdverb(n.Left))...), adverbWant(asAdverb(n.Right))...)
	}
	return nil
}

//@ spec inline
func asRelative(n ast.Node) ast.Relative {
	p, _ := n.(ast.Relative)
	return p
}

//@ spec dispatch=n depth=2
func relWant(n ast.Relative) []govPart {
	switch n := n.(type) {
	case *ast.PredicationRelative:
		return stWant(&n.Predication)
	case *ast.LURelative:
		return stWant(n.Statement)
	case *ast.CoPRelative:
		return append(append(conPart(conOf(n.RU), n), relWant(asRelative(n.Left))...), relWant(asRelative(n.Right))...)
	}
	return nil
}

// relRest is a relative clause, if there is one, joined to a restriction.
//
//@ spec inline
func relRest(first []govPart, node ast.Node, rel ast.Relative) []govPart {
	if rel == nil {
		return first
	}
	return append(append(conPart(And, node), first...), relWant(rel)...)
}

// restrWant is the restriction of the binding of an argument: the predicate,
// or being among what the variable stands for, and the relative clause.
//
//@ spec inline
func restrWant(n *ast.PredicateArgument) []govPart {
	if isVarPred(n.Predicate) {
		if n.Quantifier == nil {
			return relRest(leafPart(govUF_plain(n)), nil, n.Relative)
		}
		if n.Relative == nil {
			return nil
		}
		return relWant(n.Relative)
	}
	if isHoa(n.Predicate) {
		return relRest(leafPart(govUF_plain(n)), nil, n.Relative)
	}
	return relRest(predWant(n.Predicate), n, n.Relative)
}

//@ spec inline
func asSentence(n ast.Node) ast.Sentence {
	p, _ := n.(ast.Sentence)
	return p
}

//@ spec dispatch=n depth=2
func sentenceWant(n ast.Sentence) []govPart {
	switch n := n.(type) {
	case *ast.StatementSentence:
		return stWant(n.Statement)
	case *ast.CoPSentence:
		return append(append(conPart(And, n), sentenceWant(asSentence(n.Left))...), sentenceWant(asSentence(n.Right))...)
	}
	return nil
}

// andThen joins a sentence to those before it; a fragment says nothing.
//
//@ spec inline
func andThen(said []govPart, k ast.Node, n *ast.Discourse) []govPart {
	if _, ok := k.(ast.Fragment); ok {
		return said
	}
	if len(said) == 0 {
		return sentenceWant(asSentence(k))
	}
	return append(append(conPart(And, n), said...), sentenceWant(asSentence(k))...)
}

//@ spec foldl=andThen
func discourseWant(said []govPart, ks []ast.Node, n *ast.Discourse) []govPart {
	for _, k := range ks {
		said = andThen(said, k, n)
	}
	return said
}

// each is a predication per alternative of an argument.
//
//@ spec dispatch=a depth=2
func eachWant(a ast.Argument, n ast.Node, leaf int) []govPart {
	switch a := a.(type) {
	case *ast.CoPArgument:
		if isWord(a.RU.T, "roi") {
			return leafPart(leaf)
		}
		return append(append(conPart(conOf(a.RU), n), eachWant(asArgument(a.Left), n, leaf)...), eachWant(asArgument(a.Right), n, leaf)...)
	case *ast.PredicateArgument:
		return leafPart(leaf)
	}
	return nil
}

// roiWant is the restriction of a plural argument: an equation for each choice
// of alternatives of its parts.
//
//@ spec dispatch=left depth=2
func roiWant(left, right ast.Argument, leaf int) []govPart {
	switch a := left.(type) {
	case *ast.CoPArgument:
		if isWord(a.RU.T, "roi") {
			return roiRightWant(right, leaf)
		}
		return append(append(conPart(conOf(a.RU), a), roiWant(asArgument(a.Left), right, leaf)...), roiWant(asArgument(a.Right), right, leaf)...)
	case *ast.PredicateArgument:
		return roiRightWant(right, leaf)
	}
	return nil
}

//@ spec dispatch=right depth=2
func roiRightWant(right ast.Argument, leaf int) []govPart {
	switch a := right.(type) {
	case *ast.CoPArgument:
		if isWord(a.RU.T, "roi") {
			return leafPart(leaf)
		}
		return append(append(conPart(conOf(a.RU), a), roiRightWant(asArgument(a.Left), leaf)...), roiRightWant(asArgument(a.Right), leaf)...)
	case *ast.PredicateArgument:
		return leafPart(leaf)
	}
	return nil
}

//@ contract (interp *interpreter) distributePredication(astPred ast.Predicate, n interface{}, args arguments) (r Statement)
//@ props C11 C10
//@ flag records[C10,C11]
//@ requires interp: interp != nil
//@ requires whole: whole(n)
//@ requires present: present([]argument(args))
//@ ensures log-call[C10]: govEq(govCalls(), append(govOldCalls(), govUF_distributed([]argument(args))))
//@ ensures applied: govEq(stSkel(r), applied(skel(n), astOf(interp, astPred), ordered([]argument(args))))
//@ ensures shape: govEq(shape(r), predShape(n))
//@ ensures some: real(r)

//@ spec inline
func real(s Statement) bool { return s != nil && !govNilPtr(s) }

//@ contract bindScope(bind *Binding, stmt Statement) (r Statement)
//@ props C11
//@ flag partial inline-open
//@ requires statement: stmt == nil || real(stmt)
//@ ensures body: govEq(shape(r), shape(stmt))
//@ ensures unbound: bind != nil || r == stmt
//@ ensures bound: bind == nil || r == Statement(bind)

//@ contract (interp *interpreter) newVar() (r int)
//@ props C11
//@ mutates interp
//@ flag partial
//@ ensures ok: true
//@ ensures number[C12]: r == old_interp.n && interp.n == old_interp.n+1
//@ ensures scopes[C12]: kept(interp, old_interp)

//@ contract (interp *interpreter) pushVar(s string, def *Binding) (r int)
//@ props C11
//@ mutates interp
//@ flag partial
//@ ensures ok: true
//@ ensures number[C12]: r == old_interp.n && interp.n == old_interp.n+1
//@ ensures pushed[C12]: govEq(interp.varScope, append(old_interp.varScope, varScope{s, def})) && govEq(interp.hoaScope, old_interp.hoaScope)

//@ contract (interp *interpreter) lookupVar(s string) (r int, d *Binding)
//@ props C11
//@ mutates interp
//@ flag partial
//@ ensures ok: true
//@ ensures innermost[C12]: d == innermost(old_interp.varScope, s)
//@ ensures number[C12]: d == nil || r == d.N && interp.n == old_interp.n
//@ ensures unbound[C12]: d != nil || r == old_interp.n && interp.n == old_interp.n+1
//@ ensures scopes[C12]: kept(interp, old_interp)
//@ invariant (i int) searched[C12]: -1 <= i && i < len(old_interp.varScope) && govEq(interp.varScope, old_interp.varScope) && innermost(old_interp.varScope, s) == innermost(old_interp.varScope[:i+1], s)
//@ invariant (i int) searchedTo[C12]: 0 <= i && i <= len(old_interp.varScope) && govEq(interp.varScope, old_interp.varScope) && innermost(old_interp.varScope, s) == innermost(old_interp.varScope[:i], s)
//@ invariant (i int, b *Binding) found[C12]: 0 <= i && i <= len(old_interp.varScope) && govEq(interp.varScope, old_interp.varScope) && b == innermost(old_interp.varScope[:i], s)

//@ contract (interp *interpreter) pushHoa(def *Binding)
//@ props C11
//@ mutates interp
//@ flag partial
//@ ensures ok: true
//@ ensures pushed[C12]: govEq(interp.hoaScope, append(old_interp.hoaScope, def)) && govEq(interp.varScope, old_interp.varScope) && interp.n == old_interp.n

//@ contract (interp *interpreter) popHoa()
//@ props C11
//@ mutates interp
//@ flag partial
//@ ensures ok: true
//@ ensures popped[C12]: govEq(interp.hoaScope, old_interp.hoaScope[:len(old_interp.hoaScope)-1]) && govEq(interp.varScope, old_interp.varScope) && interp.n == old_interp.n

//@ contract (interp *interpreter) text(n *ast.Text) (r Statement)
//@ props C11
//@ mutates interp
//@ flag partial
//@ ensures shape: govEq(shape(r), discourseWant(nil, []ast.Node(n.Discourse), &n.Discourse))
//@ ensures scopes[C12]: kept(interp, old_interp)

//@ contract (interp *interpreter) discourse(n *ast.Discourse) (r Statement)
//@ props C11
//@ mutates interp
//@ flag partial
//@ ensures shape: govEq(shape(r), discourseWant(nil, []ast.Node(*n), n))
//@ invariant (i int, s Statement) said: 0 <= i && i <= len(*n) && govEq(shape(s), discourseWant(nil, []ast.Node(*n)[:i], n)) && (s == nil || real(s)) && (s == nil) == (len(shape(s)) == 0)
//@ invariant (s Statement, e_s Statement) bound: govEq(shape(s), shape(e_s)) && (s == nil || real(s))
//@ invariant () scopes[C12]: kept(interp, old_interp)
//@ ensures scopes[C12]: kept(interp, old_interp)

//@ contract (interp *interpreter) sentence(n ast.Sentence) (r Statement)
//@ props C11
//@ mutates interp
//@ flag partial
//@ ensures shape: govEq(shape(r), sentenceWant(n))
//@ ensures some: real(r) && len(shape(r)) > 0
//@ ensures scopes[C12]: kept(interp, old_interp)

//@ contract (interp *interpreter) subordinateStatement(n ast.Statement) (r Statement)
//@ props C11
//@ mutates interp
//@ flag partial records[C10,C11]
//@ ensures shape: govEq(shape(r), stWant(n))
//@ ensures some: real(r) && len(shape(r)) > 0
//@ invariant (s Statement, e_s Statement) bound: govEq(shape(s), shape(e_s)) && real(s)
//@ invariant () scopes[C12]: kept(interp, old_interp)
//@ ensures scopes[C12]: kept(interp, old_interp)
//@ ensures local-arguments[C10]: govEq(govCalls(), append(govOldCalls(), saidCall(nil, n)))
//@ ensures log-call[C10]: govEq(govCalls(), append(govOldCalls(), nil))

//@ contract (interp *interpreter) statement(args arguments, n ast.Statement) (r Statement)
//@ props C11
//@ mutates interp
//@ flag partial records[C10,C11]
//@ requires present: present([]argument(args))
//@ ensures shape: govEq(shape(r), stWant(n))
//@ ensures some: real(r) && len(shape(r)) > 0
//@ ensures scopes[C12]: kept(interp, old_interp)
//@ ensures log-call[C10]: govEq(govCalls(), append(govOldCalls(), saidCall(args, n)))
//@ ensures local-arguments[C10]: statementCalls(args, n)

//@ contract (interp *interpreter) predication(n ast.Predicate, args arguments) (r Statement)
//@ props C11
//@ mutates interp
//@ flag partial records[C10,C11]
//@ requires present: present([]argument(args))
//@ ensures shape: govEq(shape(r), predWant(n))
//@ ensures some: real(r) && len(shape(r)) > 0
//@ ensures scopes[C12]: kept(interp, old_interp)
//@ ensures log-call[C10]: govEq(govCalls(), append(govOldCalls(), govUF_predicated([]argument(args))))
//@ ensures local-arguments[C10]: govEq(govCalls(), append(govOldCalls(), govUF_distributed([]argument(args))))

//@ contract (interp *interpreter) predicate(n ast.Predicate) (r interface{})
//@ props C11
//@ mutates interp
//@ flag partial
//@ ensures shape: govEq(predShape(r), predWant(n))
//@ ensures whole: whole(r)
//@ ensures some: len(predShape(r)) > 0
//@ ensures scopes[C12]: kept(interp, old_interp)
//@ ensures variable[C12]: !isVarPred(n) || isVarFor(r, innermost(old_interp.varScope, varOf(n)), old_interp.n, n)
//@ ensures hoa[C12]: isVarPred(n) || !isHoa(n) || isVarFor(r, lastHoa(old_interp.hoaScope), old_interp.n, n)

//@ contract (interp *interpreter) makeContentPred(n ast.Node, st Statement) (r Predicate)
//@ props C11
//@ mutates interp
//@ flag partial
//@ ensures leaf: whole(r) && leafOf(r) == govUF_plain(n)
//@ ensures content[C10,C11]: contentOf(r) == st
//@ ensures scopes[C12]: kept(interp, old_interp)

//@ contract (interp *interpreter) serialPredicate(n *ast.SerialPredicate) (r interface{})
//@ props C11
//@ mutates interp
//@ flag partial
//@ ensures shape: govEq(predShape(r), predWant(n))
//@ ensures whole: whole(r)
//@ ensures some: len(predShape(r)) > 0
//@ ensures scopes[C12]: kept(interp, old_interp)

//@ contract (interp *interpreter) serialPredicateLeft(astNode ast.Node, l, r interface{}) (rr interface{})
//@ props C11
//@ mutates interp
//@ flag partial
//@ requires whole: whole(l) && whole(r)
//@ ensures shape: govEq(predShape(rr), serialWant(predShape(l), predShape(r), astNode))
//@ ensures whole: whole(rr)
//@ ensures some: len(predShape(rr)) > 0
//@ ensures scopes[C12]: kept(interp, old_interp)

//@ contract (interp *interpreter) serialPredicateRight(astNode ast.Node, l Predicate, r interface{}) (rr interface{})
//@ props C11
//@ mutates interp
//@ flag partial
//@ requires whole: whole(l) && whole(r)
//@ ensures shape: govEq(predShape(rr), serialRight(predShape(r), leafOf(l), astNode))
//@ ensures whole: whole(rr)
//@ ensures some: len(predShape(rr)) > 0
//@ ensures scopes[C12]: kept(interp, old_interp)

//@ contract (interp *interpreter) poPredicate(n *ast.POPredicate) (r Predicate)
//@ props C11
//@ mutates interp
//@ flag partial
//@ ensures leaf: whole(r) && leafOf(r) == govUF_plain(n)
//@ ensures each: poIs(r, n)
//@ ensures scopes[C12]: kept(interp, old_interp)

//@ contract (interp *interpreter) poArgument(n ast.Node, pred Predicate, arg0 Argument, arg1 ast.Argument) (r Statement)
//@ props C11
//@ mutates interp
//@ flag partial
//@ ensures some: real(r)
//@ ensures each: govEq(shape(r), eachWant(arg1, n, leafOf(pred)))
//@ ensures scopes[C12]: kept(interp, old_interp)

//@ contract (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatement, terms ast.Terms) (r Statement)
//@ props C11
//@ mutates interp
//@ flag partial records[C10,C11]
//@ requires present: present([]argument(args))
//@ ensures shape: govEq(shape(r), termsWant([]ast.Term(terms), stWant(n.Statement)))
//@ ensures some: real(r) && len(shape(r)) > 0
//@ ensures scopes[C12]: kept(interp, old_interp)
//@ ensures log-call[C10,C11]: govEq(govCalls(), append(govOldCalls(), prenexCall(args, n, terms)))
//@ ensures log-result[C10,C11]: r == govUF_stated(govCalls())
//@ ensures local-arguments[C10,C11]: prenexCalls(args, n, terms)

//@ contract (interp *interpreter) preposition(n ast.Preposition, arg0 interface{}) (r Statement)
//@ props C11
//@ mutates interp
//@ flag partial records[C10,C11]
//@ requires first: firstOk(arg0)
//@ ensures shape: govEq(shape(r), prepWant(n))
//@ ensures some: real(r) && len(shape(r)) > 0
//@ ensures scopes[C12]: kept(interp, old_interp)
//@ ensures log-call[C10,C11]: govEq(govCalls(), append(govOldCalls(), tailCall(arg0)...))
//@ ensures local-tail[C10,C11]: prepositionCalls(n, arg0)

//@ contract (interp *interpreter) predicationPreposition(p ast.Predicate, arg0 interface{}, arg1 ast.Argument) (r Statement)
//@ props C11
//@ mutates interp
//@ flag partial records[C10,C11]
//@ requires first: firstOk(arg0)
//@ ensures shape: govEq(shape(r), argWant(arg1, nil, predWant(p)))
//@ ensures some: real(r) && len(shape(r)) > 0
//@ ensures scopes[C12]: kept(interp, old_interp)
//@ ensures log-call[C10,C11]: govEq(govCalls(), append(govOldCalls(), tailCall(arg0)...))
//@ ensures local-tail[C10,C11]: predicationPrepositionCalls(arg0, arg1)

//@ contract (interp *interpreter) adverb(n ast.Adverb, arg Argument) (r Statement)
//@ props C11
//@ mutates interp
//@ flag partial records[C10,C11]
//@ requires present: arg != nil
//@ ensures log-call[C10,C11]: govEq(govCalls(), append(govOldCalls(), arg, govUF_about(aboutOf(arg))))
//@ ensures local-about[C10,C11]: adverbCalls(n, arg)
//@ ensures shape: govEq(shape(r), adverbWant(n))
//@ ensures some: real(r) && len(shape(r)) > 0
//@ ensures scopes[C12]: kept(interp, old_interp)

//@ contract (interp *interpreter) roi(n *ast.CoPArgument) (b *Binding, a Argument)
//@ props C11
//@ mutates interp
//@ flag partial records[C10,C11]
//@ open b.Scope
//@ ensures argument: a != nil
//@ ensures each: b != nil && govEq(shape(b.Restriction), roiWant(asArgument(n.Left), asArgument(n.Right), govUF_plain(n)))
//@ ensures scopes[C12]: kept(interp, old_interp)
//@ ensures log-call[C10]: govEq(govCalls(), append(govOldCalls(), govUF_asked(n)))
//@ ensures log-result[C10]: govEq(a, govUF_gave(govCalls()))

//@ contract (interp *interpreter) roiLeft(x *Variable, left, right ast.Argument) (r Statement)
//@ props C11
//@ mutates interp
//@ flag partial
//@ requires var: x != nil
//@ ensures some: real(r)
//@ ensures each: govEq(shape(r), roiWant(left, right, govUF_plain(x.AST)))
//@ ensures scopes[C12]: kept(interp, old_interp)

//@ contract (interp *interpreter) roiRight(x *Variable, left Argument, right ast.Argument) (r Statement)
//@ props C11
//@ mutates interp
//@ flag partial
//@ requires var: x != nil
//@ ensures some: real(r)
//@ ensures each: govEq(shape(r), roiRightWant(right, govUF_plain(x.AST)))
//@ ensures scopes[C12]: kept(interp, old_interp)

//@ contract (interp *interpreter) predicateArgument(n *ast.PredicateArgument) (b *Binding, a Argument)
//@ props C11
//@ mutates interp
//@ flag partial records[C10,C11]
//@ open b.Scope
//@ ensures argument: a != nil
//@ ensures restriction: b == nil || govEq(shape(b.Restriction), restrWant(n))
//@ ensures lifted: b != nil || isVarPred(n.Predicate) || isHoa(n.Predicate) || wasLifted(old_interp, n) || liftedOk(interp, n)
//@ ensures hoas[C12]: govEq(interp.hoaScope, old_interp.hoaScope) && old_interp.n <= interp.n
//@ ensures vars[C12]: govEq(interp.varScope, varsAfter(old_interp, n, b))
//@ ensures quantifier[C12]: b == nil || quantOk(b.Quantifier, n)
//@ ensures variable[C12]: wasLifted(old_interp, n) || !isVarPred(n.Predicate) || n.Quantifier == nil || b != nil && isVarFor(a, b, 0, n)
//@ ensures refers[C12]: wasLifted(old_interp, n) || !isVarPred(n.Predicate) || n.Quantifier != nil || n.Relative != nil || b == nil && isVarFor(a, innermost(old_interp.varScope, varOf(n.Predicate)), old_interp.n, n)
//@ ensures again[C12]: !wasLifted(old_interp, n) || b == nil && isVarFor(a, old_interp.liftedScope[n], 0, n)
//@ ensures top[C12]: b != nil || isVarPred(n.Predicate) || isHoa(n.Predicate) || wasLifted(old_interp, n) || liftedTop(interp, n)
//@ ensures closed[C12]: b != nil || isVarPred(n.Predicate) || isHoa(n.Predicate) || wasLifted(old_interp, n) || liftedClosed(interp, n)
//@ ensures fresh[C12]: b == nil || old_interp.n <= b.N && b.N < interp.n
//@ ensures log-call[C10]: govEq(govCalls(), append(govOldCalls(), govUF_asked(n)))
//@ ensures log-result[C10]: govEq(a, govUF_gave(govCalls()))

//@ spec inline
func wasLifted(interp *interpreter, n *ast.PredicateArgument) bool {
	_, ok := interp.liftedScope[n]
	return ok
}

// liftedOk: the binding lifted for n is there, with its restriction.
//
//@ spec inline
func liftedOk(interp *interpreter, n *ast.PredicateArgument) bool {
	b, ok := interp.liftedScope[n]
	return ok && b != nil && govEq(shape(b.Restriction), restrWant(n))
}

//@ contract (interp *interpreter) varArgument(n *ast.PredicateArgument) (b *Binding, a Argument)
//@ props C11
//@ mutates interp
//@ flag partial
//@ open b.Scope
//@ requires variable: isVarPred(n.Predicate)
//@ ensures argument: a != nil
//@ ensures restriction: b == nil || govEq(shape(b.Restriction), restrWant(n))
//@ ensures hoas[C12]: govEq(interp.hoaScope, old_interp.hoaScope) && old_interp.n <= interp.n
//@ ensures vars[C12]: govEq(interp.varScope, varsWith(old_interp, n, b))
//@ ensures fresh[C12]: b == nil || old_interp.n <= b.N && b.N < interp.n
//@ ensures binds[C12]: n.Quantifier == nil || b != nil && isVarFor(a, b, 0, n)
//@ ensures refers[C12]: n.Quantifier != nil || n.Relative != nil || b == nil && isVarFor(a, innermost(old_interp.varScope, varOf(n.Predicate)), old_interp.n, n)
//@ ensures some[C12]: n.Quantifier != nil || n.Relative == nil || b != nil
//@ ensures quantifier[C12]: b == nil || quantOk(b.Quantifier, n)

//@ contract (interp *interpreter) hoaArgument(n *ast.PredicateArgument) (b *Binding, a Argument)
//@ props C11
//@ mutates interp
//@ flag partial
//@ open b.Scope
//@ requires hoa: isHoa(n.Predicate) && !isVarPred(n.Predicate)
//@ ensures argument: a != nil
//@ ensures restriction: b == nil || govEq(shape(b.Restriction), restrWant(n))
//@ ensures scopes[C12]: kept(interp, old_interp)
//@ ensures fresh[C12]: b == nil || old_interp.n <= b.N && b.N < interp.n
//@ ensures refers[C12]: n.Quantifier != nil || n.Relative != nil || b == nil && isVarFor(a, lastHoa(old_interp.hoaScope), old_interp.n, n)
//@ ensures some[C12]: n.Quantifier == nil && n.Relative == nil || len(old_interp.hoaScope) == 0 || b != nil && (n.Relative != nil || isVarFor(a, b, 0, n))
//@ ensures quantifier[C12]: b == nil || quantOk(b.Quantifier, n)
//@ ensures unbound[C12]: len(old_interp.hoaScope) != 0 || b == nil && isVarFor(a, nil, old_interp.n, n)

//@ contract (interp *interpreter) relativeClause(b *Binding, n ast.Relative) (r Statement)
//@ props C11
//@ mutates interp
//@ flag partial
//@ requires own[C12]: ownScope(interp.varScope, b)
//@ ensures shape: govEq(shape(r), relWant(n))
//@ ensures some: real(r)
//@ ensures scopes[C12]: kept(interp, old_interp)

//@ contract (interp *interpreter) makePredication(pred ast.Predicate, args ...Argument) (r Statement)
//@ props C11
//@ mutates interp
//@ flag partial records[C10,C11]
//@ requires present: allThere(args)
//@ requires some[C10,C11]: len(args) > 0
//@ ensures log-call[C10,C11]: govEq(govCalls(), append(govOldCalls(), args[0], govUF_about(aboutOf(args[0]))))
//@ ensures shape: govEq(shape(r), predWant(pred))
//@ ensures some: real(r) && len(shape(r)) > 0
//@ invariant (i int, s arguments) added: 0 <= i && i <= len(args) && present([]argument(s))
//@ ensures scopes[C12]: kept(interp, old_interp)

//@ contract (interp *interpreter) makeLambda(n ast.Node, pred Predicate, arg1 Argument) (r *Abstraction)
//@ props C11
//@ mutates interp
//@ flag partial
//@ ensures leaf: r != nil && r.AST == n
//@ ensures of[C10,C11]: lambdaOf(r) == arg1
//@ ensures scopes[C12]: kept(interp, old_interp)

//@ contract (interp *interpreter) clearHiFreeVarDefs(scope []varScope, hi *Binding)
//@ props C11 C12
//@ mutates interp
//@ flag maypanic partial
//@ ensures scopes[C12]: kept(interp, old_interp)
//@ invariant (i int, ns []Node) kept[C12]: 0 <= i && i <= len(ns) && kept(interp, old_interp)

//@ contract (interp *interpreter) hasFreeVars(n Node) (r bool)
//@ props C11
//@ flag maypanic partial
//@ ensures free[C12]: r == !govForall(0, len(preorder(n)), func(k int) bool { return !unbound(preorder(n), k, interp.theScope) })
//@ invariant (i int, binds map[*Binding]bool) top[C12]: 0 <= i && i <= len(interp.theScope) && govForall(0, len(preorder(n)), func(k int) bool { return !isVarNode(preorder(n)[k]) || isKept(binds, defOfVar(preorder(n)[k]), among(interp.theScope[:i], defOfVar(preorder(n)[k]))) })
//@ invariant (i int, binds map[*Binding]bool, ns []Node) bound[C12]: 0 <= i && i <= len(ns) && govForall(0, len(ns), func(k int) bool { return !isVarNode(ns[k]) || isKept(binds, defOfVar(ns[k]), among(interp.theScope, defOfVar(ns[k])) || boundIn(ns[:i], defOfVar(ns[k]))) })
//@ invariant (i int, free bool, ns []Node) found[C12]: 0 <= i && i <= len(ns) && free == !govForall(0, i, func(k int) bool { return !unbound(ns, k, interp.theScope) })

//@ contract toString(node ast.Node) (r string)
//@ props C11
//@ flag assumed

//@ spec inline
func allThere(as []Argument) bool {
	return govForall(0, len(as), func(i int) bool { return as[i] != nil })
}

// firstOk: the first argument of a preposition is a variable or is still to be
// interpreted.
//
//@ spec inline
func firstOk(a interface{}) bool {
	switch a := a.(type) {
	case *Variable:
		return a != nil
	case *statementTail:
		return a != nil && present([]argument(a.args))
	}
	return false
}

// poIs: a predication per alternative of the argument.
//
//@ spec inline
func poIs(p Predicate, n *ast.POPredicate) bool {
	a, ok := p.(*Abstraction)
	if !ok {
		return false
	}
	return govEq(shape(a.Statement), eachWant(n.Argument, n, govUF_plain(n)))
}
