package logic

// ---- simplification (C14) ----

//@ spec inline
func isVarNum(n Node, v int) bool {
	x, ok := n.(*Variable)
	return ok && x.N == v
}

// occurs: the tree has the variable with number v.
//
//@ spec inline
func occurs(n Node, v int) bool {
	ns := preorder(n)
	return !govForall(0, len(ns), func(i int) bool { return !isVarNum(ns[i], v) })
}

// isPredVar: the variable with number v is the predicate of n, or in its place
// in a serial or swapped predicate.
//
//@ spec inline
func isPredVar(n Node, v int) bool {
	switch n := n.(type) {
	case *Predication:
		return isVarNum(n.Predicate, v)
	case *Serial:
		return isVarNum(n.Left, v) || isVarNum(n.Right, v)
	case *Swap:
		return isVarNum(n.Predicate, v)
	}
	return false
}

//@ spec inline
func usedAsPred(n Node, v int) bool {
	ns := preorder(n)
	return !govForall(0, len(ns), func(i int) bool { return !isPredVar(ns[i], v) })
}

// govUF_var is some number of a variable.
func govUF_var() int { panic("verifier only") }

//@ contract mentions(n Node, v int) (r bool)
//@ props C14
//@ flag maypanic partial settled
//@ ensures found: r == occurs(n, v)
//@ invariant (i int, found bool, ns []Node) seen: 0 <= i && i <= len(ns) && found == !govForall(0, i, func(k int) bool { return !isVarNum(ns[k], v) })

//@ spec inline
func hasSub(s *state, v int) bool {
	_, ok := s.sub[v]
	return ok
}

//@ contract newState(n Statement) (s *state)
//@ props C14
//@ flag fresh maypanic partial settled
//@ ensures none: s != nil && !hasSub(s, govUF_var())
//@ ensures preds: s.predVars[govUF_var()] == usedAsPred(n, govUF_var())
//@ invariant (i int, s *state, ns []Node) seen: 0 <= i && i <= len(ns) && !hasSub(s, govUF_var()) && s.predVars[govUF_var()] == !govForall(0, i, func(k int) bool { return !isPredVar(ns[k], govUF_var()) })

// defVar: the variable and the definition that the restriction X = D of a
// binding gives, either way around.
//
//@ spec inline
func defOf(n *Binding) (*Variable, Argument) {
	p, ok := n.Restriction.(*Predication)
	if !ok || len(p.Arguments) != 2 || p.Arguments[0] == nil || p.Arguments[1] == nil {
		return nil, nil
	}
	eq, ok := p.Predicate.(*Pred)
	if !ok || eq.Name != "=" {
		return nil, nil
	}
	if v, ok := p.Arguments[0].(*Variable); ok {
		return v, p.Arguments[1]
	}
	if v, ok := p.Arguments[1].(*Variable); ok {
		return v, p.Arguments[0]
	}
	return nil, nil
}

// isDef: the binding defines its variable: ιX or ΛX where X is a quotation, a
// plurality or an abstraction without X, and X is not used as a predicate.
//
//@ spec inline
func isDef(s *state, n *Binding) bool {
	if n.Quantifier != "ι" && n.Quantifier != "Λ" {
		return false
	}
	v, d := defOf(n)
	if v == nil || v.N != n.N || s.predVars[v.N] || occurs(d, v.N) {
		return false
	}
	switch d.(type) {
	case *Quote, *Plurality, *Abstraction:
		return true
	}
	return false
}

//@ spec inline
func subIs(s *state, v int, a Argument) bool {
	x, ok := s.sub[v]
	return ok && x == a
}

//@ spec inline
func subKept(s, old *state, v int) bool {
	x, ok := s.sub[v]
	y, oy := old.sub[v]
	return ok == oy && (!ok || x == y)
}

//@ contract sub(s *state, n *Binding) (r bool)
//@ props C14
//@ mutates s
//@ flag inline maypanic partial settled
//@ ensures decides: r == isDef(old_s, n)
//@ ensures preds: govEq(s.predVars, old_s.predVars)
//@ ensures kept: govUF_var() == n.N && r || subKept(s, old_s, govUF_var())
//@ ensures defines: !r || subIs(s, n.N, defArg(n))

//@ spec inline
func defArg(n *Binding) Argument {
	_, d := defOf(n)
	return d
}

// What one call does, in terms of the calls it makes for the parts of its node:
// govCalls are the nodes they are for, govSubs what the variable govUF_var is
// replaced by when each is made, and govUF_simp… what the last of them gives.

func govSubs() []Node    { panic("verifier only") }
func govOldSubs() []Node { panic("verifier only") }

func govUF_simpS(calls []Node) Statement { panic("verifier only") }
func govUF_simpA(calls []Node) Argument  { panic("verifier only") }
func govUF_simpP(calls []Node) Predicate { panic("verifier only") }

// subAt is what the variable govUF_var is replaced by, or nil.
//
//@ spec inline
func subAt(s *state) Node {
	a, ok := s.sub[govUF_var()]
	if !ok {
		return nil
	}
	return a
}

//@ icontract (n Statement) simplifyStatement(s *state) (r Statement)
//@ props C14
//@ mutates n s
//@ flag logged calls maypanic partial settled
//@ ensures log-call: govEq(govCalls(), append(govOldCalls(), n))
//@ ensures log-sub: govEq(govSubs(), append(govOldSubs(), subAt(old_s)))
//@ ensures log-result: r == govUF_simpS(govCalls())
//@ ensures preds: govEq(s.predVars, old_s.predVars)
//@ ensures some: r != nil
//@ ensures local-connection: connStep(n, old_n, r)
//@ ensures local-binding: bindStep(s, n, old_n, r)
//@ ensures local-arguments: predArgs(n, old_n)
//@ ensures local-predicate: predicateStep(s, n, old_n, r)
//@ ensures local-swapped: swappedStep(n, old_n, r)
//@ ensures local-lambda: lambdaStep(s, n, old_n, r)
//@ invariant (i int, as []Argument) arguments: 0 <= i && i <= len(as) && predLoop(n, old_n, i)
//@ invariant () preds: govEq(s.predVars, old_s.predVars)

//@ icontract (n Argument) simplifyArgument(s *state) (r Argument)
//@ props C14
//@ mutates n s
//@ flag logged calls maypanic partial settled
//@ ensures log-call: govEq(govCalls(), append(govOldCalls(), n))
//@ ensures log-sub: govEq(govSubs(), append(govOldSubs(), subAt(old_s)))
//@ ensures log-result: r == govUF_simpA(govCalls())
//@ ensures preds: govEq(s.predVars, old_s.predVars)
//@ ensures local-variable: varStep(s, n, r)
//@ ensures local-quote: quoteStep(n, r)
//@ ensures local-abstraction: absStep(n, old_n, r)
//@ ensures local-plurality: pluralStep(n, old_n, r)
//@ invariant (i int, args []Argument, as []Argument) flat: 0 <= i && i <= len(as) && govEq(govCalls(), append(govOldCalls(), there(as[:i])...)) && govEq(args, flatOf(govOldCalls(), as[:i])) && govEq(s.predVars, old_s.predVars)

//@ icontract (n Predicate) simplifyPredicate(s *state) (r Predicate)
//@ props C14
//@ mutates n s
//@ flag logged calls maypanic partial settled
//@ ensures log-call: govEq(govCalls(), append(govOldCalls(), n))
//@ ensures log-sub: govEq(govSubs(), append(govOldSubs(), subAt(old_s)))
//@ ensures log-result: r == govUF_simpP(govCalls())
//@ ensures preds: govEq(s.predVars, old_s.predVars)
//@ ensures local-serial: serialStep(n, old_n, r)
//@ ensures local-swap: swapStep(n, old_n, r)
//@ ensures local-abstraction: absStep(n, old_n, r)
//@ ensures local-word: predStep(n, old_n, r)

//@ spec inline
func connStep(n, old, r Statement) bool {
	c, ok := n.(*Connection)
	if !ok {
		return true
	}
	o := old.(*Connection)
	first := append(govOldCalls(), o.Left)
	return r == n && govEq(govCalls(), append(append(govOldCalls(), o.Left), o.Right)) &&
		c.Left == govUF_simpS(first) && c.Right == govUF_simpS(govCalls()) &&
		c.Connector == o.Connector && c.AST == o.AST
}

// bindStep: the restriction, then the scope with the variable replaced if the
// restriction has come to define it; then the scope is what is left.
//
//@ spec inline
func bindStep(s *state, n, old, r Statement) bool {
	b, ok := n.(*Binding)
	if !ok {
		return true
	}
	o := old.(*Binding)
	before := govOldCalls()
	if o.Restriction != nil {
		before = append(govOldCalls(), o.Restriction)
		if b.Restriction != govUF_simpS(before) {
			return false
		}
	} else if b.Restriction != nil {
		return false
	}
	if !govEq(govCalls(), append(before, o.Scope)) {
		return false
	}
	at := govSubs()[len(govSubs())-1]
	if isDef(s, b) {
		return r == govUF_simpS(govCalls()) && (govUF_var() != b.N || at == Node(defArg(b)))
	}
	return r == n && b.Scope == govUF_simpS(govCalls()) && b.N == o.N && b.Quantifier == o.Quantifier &&
		b.Focus == o.Focus && b.AST == o.AST
}

//@ spec inline
func varStep(s *state, n, r Argument) bool {
	v, ok := n.(*Variable)
	if !ok {
		return true
	}
	a, ok := s.sub[v.N]
	if ok {
		return r == a
	}
	return r == n && govEq(govCalls(), govOldCalls())
}

//@ spec inline
func quoteStep(n, r Argument) bool {
	_, ok := n.(*Quote)
	return !ok || r == n && govEq(govCalls(), govOldCalls())
}

//@ spec inline
func serialStep(n, old, r Predicate) bool {
	c, ok := n.(*Serial)
	if !ok {
		return true
	}
	o := old.(*Serial)
	return r == n && govEq(govCalls(), append(append(govOldCalls(), o.Left), o.Right)) &&
		c.Left == govUF_simpP(append(govOldCalls(), o.Left)) && c.Right == govUF_simpP(govCalls()) && c.AST == o.AST
}

//@ spec inline
func swapStep(n, old, r Predicate) bool {
	c, ok := n.(*Swap)
	if !ok {
		return true
	}
	o := old.(*Swap)
	return r == n && govEq(govCalls(), append(govOldCalls(), o.Predicate)) &&
		c.Predicate == govUF_simpP(govCalls()) && c.Pos == o.Pos && c.AST == o.AST
}

//@ spec inline
func predStep(n, old, r Predicate) bool {
	switch n.(type) {
	case *Pred, *Variable:
		return r == n && govEq(govCalls(), govOldCalls())
	}
	return true
}

//@ spec inline
func absStep(n, old, r Node) bool {
	c, ok := n.(*Abstraction)
	if !ok {
		return true
	}
	o := old.(*Abstraction)
	return r == n && govEq(govCalls(), append(govOldCalls(), o.Statement)) &&
		c.Statement == govUF_simpS(govCalls()) && c.AST == o.AST
}

//@ spec inline
func thereOf(a Argument) []Node {
	if a == nil {
		return nil
	}
	return []Node{a}
}

// there is the arguments that are not absent.
//
//@ spec fold=thereOf
func there(as []Argument) []Node {
	var ns []Node
	for _, a := range as {
		ns = append(ns, thereOf(a)...)
	}
	return ns
}

// flatOf is what becomes of the arguments of a plurality: absent ones are left
// out, and pluralities give their own arguments.
//
//@ spec depth=1
func flatOf(before []Node, as []Argument) []Argument {
	if len(as) == 0 {
		return nil
	}
	init := flatOf(before, as[:len(as)-1])
	if as[len(as)-1] == nil {
		return init
	}
	a := govUF_simpA(append(before, there(as)...))
	if p, ok := a.(*Plurality); ok {
		return append(init, p.Arguments...)
	}
	return append(init, a)
}

//@ spec inline
func pluralStep(n, old, r Argument) bool {
	c, ok := n.(*Plurality)
	if !ok {
		return true
	}
	o := old.(*Plurality)
	return r == n && c.AST == o.AST && govEq(govCalls(), append(govOldCalls(), there(o.Arguments)...)) &&
		govEq(c.Arguments, flatOf(govOldCalls(), o.Arguments))
}

// simpArgs is what becomes of the arguments of a predication.
//
//@ spec depth=1
func simpArgs(before []Node, as []Argument) []Argument {
	if len(as) == 0 {
		return nil
	}
	init := simpArgs(before, as[:len(as)-1])
	if as[len(as)-1] == nil {
		return append(init, nil)
	}
	return append(init, govUF_simpA(append(before, there(as)...)))
}

//@ spec inline
func predLoop(n, old Statement, i int) bool {
	p, ok := n.(*Predication)
	if !ok {
		return false
	}
	o := old.(*Predication)
	return i <= len(o.Arguments) && govEq(govCalls(), append(govOldCalls(), there(o.Arguments[:i])...)) &&
		p.Predicate == o.Predicate && p.AST == o.AST &&
		len(p.Arguments) == len(o.Arguments) &&
		govEq(p.Arguments[:i], simpArgs(govOldCalls(), o.Arguments[:i])) && govEq(p.Arguments[i:], o.Arguments[i:])
}

//@ spec inline
func isSwap(o *Predication) bool {
	_, ok := o.Predicate.(*Swap)
	return ok
}

// predArgs: the arguments are simplified first, in order.
//
//@ spec inline
func predArgs(n, old Statement) bool {
	p, ok := n.(*Predication)
	if !ok {
		return true
	}
	o := old.(*Predication)
	return p.AST == o.AST && (isSwap(o) || govEq(p.Arguments, simpArgs(govOldCalls(), o.Arguments)))
}

// predicateStep: without a swap or a λ that takes the arguments, the predicate
// is simplified next.
//
//@ spec inline
func predicateStep(s *state, n, old, r Statement) bool {
	p, ok := n.(*Predication)
	if !ok {
		return true
	}
	o := old.(*Predication)
	if isSwap(o) || lambdaTakes(s, p, o) {
		return true
	}
	return r == n && govEq(govCalls(), append(append(govOldCalls(), there(o.Arguments)...), o.Predicate)) &&
		p.Predicate == govUF_simpP(govCalls())
}

//@ spec inline
func argAt(as []Argument, k int) Argument {
	if k >= len(as) {
		return nil
	}
	return as[k]
}

// swappedStep: a swap exchanges the first argument with the one it names, and
// is gone; the predication is then simplified again.
//
//@ spec inline
func swappedStep(n, old, r Statement) bool {
	p, ok := n.(*Predication)
	if !ok {
		return true
	}
	o := old.(*Predication)
	sw, ok := o.Predicate.(*Swap)
	if !ok {
		return true
	}
	as := simpArgs(govOldCalls(), o.Arguments)
	return p.Predicate == sw.Predicate &&
		len(p.Arguments) > sw.Pos && len(p.Arguments) >= len(as) && (len(p.Arguments) == len(as) || len(p.Arguments) == sw.Pos+1) &&
		p.Arguments[0] == argAt(as, sw.Pos) && p.Arguments[sw.Pos] == argAt(as, 0) &&
		govForall(0, len(p.Arguments), func(k int) bool { return k == 0 || k == sw.Pos || p.Arguments[k] == argAt(as, k) }) &&
		govEq(govCalls(), append(append(govOldCalls(), there(o.Arguments)...), n)) && r == govUF_simpS(govCalls())
}

// lamAt is the statement within k bindings.
//
//@ spec depth=1
func lamAt(s Statement, k int) Statement {
	if k <= 0 {
		return s
	}
	b, ok := lamAt(s, k-1).(*Binding)
	if !ok {
		return nil
	}
	return b.Scope
}

//@ spec depth=1
func isLam(s Statement) bool {
	b, ok := s.(*Binding)
	return ok && b.Quantifier == "λ" && b.Restriction == nil
}

//@ spec depth=1
func lamNum(s Statement) int {
	b, ok := s.(*Binding)
	if !ok {
		return 0
	}
	return b.N
}

// takesArgs: the abstraction has as many λs as there are arguments, none
// absent among the first, whose variables are not used as predicates.
//
//@ spec depth=1
func takesArgs(s *state, as []Argument, a *Abstraction) bool {
	n := len(there(as))
	return n > 0 && !isLam(lamAt(a.Statement, n)) &&
		govForall(0, n, func(k int) bool {
			return as[k] != nil && isLam(lamAt(a.Statement, k)) && !s.predVars[lamNum(lamAt(a.Statement, k))]
		})
}

//@ spec inline
func lambdaTakes(s *state, p, o *Predication) bool {
	a, ok := o.Predicate.(*Abstraction)
	return ok && takesArgs(s, p.Arguments, a)
}

// lamSub is what govUF_var is replaced by within k λs.
//
//@ spec depth=1
func lamSub(first Node, st Statement, as []Argument, k int) Node {
	if k <= 0 {
		return first
	}
	if lamNum(lamAt(st, k-1)) == govUF_var() {
		return as[k-1]
	}
	return lamSub(first, st, as, k-1)
}

//@ contract lambdaSub(s *state, n *Predication, pred *Abstraction) (r Statement)
//@ props C14
//@ mutates s n
//@ flag logged calls maypanic partial settled
//@ ensures preds: govEq(s.predVars, old_s.predVars)
//@ ensures kept: n.Predicate == old_n.Predicate && govEq(n.Arguments, old_n.Arguments) && n.AST == old_n.AST
//@ ensures takes: !takesArgs(old_s, n.Arguments, pred) || r != nil && r == govUF_simpS(govCalls())
//@ ensures body: !takesArgs(old_s, n.Arguments, pred) || govEq(govCalls(), append(govOldCalls(), lamAt(pred.Statement, len(there(n.Arguments)))))
//@ ensures values: !takesArgs(old_s, n.Arguments, pred) || govEq(govSubs(), append(govOldSubs(), lamSub(subAt(old_s), pred.Statement, n.Arguments, len(there(n.Arguments)))))
//@ ensures not: takesArgs(old_s, n.Arguments, pred) || r == nil && govEq(govCalls(), govOldCalls())
//@ invariant (i int, nargs int) present: 0 <= i && i <= len(old_n.Arguments) && nargs == len(there(old_n.Arguments[:i]))
//@ invariant (nlambda int, b *Binding, ok bool) lambdas: 0 <= nlambda && lamAlong(old_s, old_n, pred, nlambda) && lamHere(lamAt(pred.Statement, nlambda), b, ok)
//@ invariant (i int, nlambda int, st Statement) taken: 0 <= i && i <= nlambda && st == lamAt(pred.Statement, i) && subAt(s) == lamSub(subAt(old_s), pred.Statement, n.Arguments, i)

//@ spec inline
func lamAlong(s *state, p *Predication, a *Abstraction, n int) bool {
	return govForall(0, n, func(k int) bool {
		return (k >= len(p.Arguments) || p.Arguments[k] != nil) && isLam(lamAt(a.Statement, k)) && !s.predVars[lamNum(lamAt(a.Statement, k))]
	})
}

//@ spec depth=1
func lamHere(st Statement, b *Binding, ok bool) bool {
	x, is := st.(*Binding)
	return ok == is && (!ok || b == x)
}

//@ spec inline
func lambdaStep(s *state, n, old, r Statement) bool {
	p, ok := n.(*Predication)
	if !ok {
		return true
	}
	o := old.(*Predication)
	if !lambdaTakes(s, p, o) {
		return true
	}
	a := o.Predicate.(*Abstraction)
	return p.Predicate == o.Predicate &&
		govEq(govCalls(), append(append(govOldCalls(), there(o.Arguments)...), lamAt(a.Statement, len(there(p.Arguments))))) &&
		r == govUF_simpS(govCalls())
}
