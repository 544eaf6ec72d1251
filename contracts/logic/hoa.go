package logic

// Implicit arguments: a predication without arguments that is all or part of a
// restriction gets the restricted variable, if it does not mention it already.

//@ spec inline
func otherVar(x int) bool { return x != govUF_var() }

// noVar: the number govUF_var is not listed.
//
//@ spec foldand=otherVar
func noVar(xs []int) bool {
	for _, x := range xs {
		if !otherVar(x) {
			return false
		}
	}
	return true
}

//@ contract merge(l, r []int) (m []int)
//@ props C14
//@ ensures keeps: !noVar(m) || noVar(l) && noVar(r)
//@ ensures adds: noVar(m) || !(noVar(l) && noVar(r))
//@ invariant (i int, j int, xs []int, e_xs []int) merged: 0 <= j && j <= i && i < len(e_xs) && len(xs) == len(e_xs) && sameAfter(j, xs, e_xs) && noVar(xs[:j+1]) == noVar(e_xs[:i+1]) && xs[j] == e_xs[i]
//@ invariant (i int, j int, xs []int, e_xs []int) counted: 1 <= i && 0 <= j && j < i && i <= len(e_xs) && len(xs) == len(e_xs) && sameAfter(j, xs, e_xs) && noVar(xs[:j+1]) == noVar(e_xs[:i]) && xs[j] == e_xs[i-1]
//@ invariant (xs []int, e_xs []int) none: !noVar(e_xs) || noVar(xs)

//@ spec inline
func sameAfter(j int, xs, ys []int) bool {
	return govForall(0, len(xs), func(k int) bool { return k <= j || xs[k] == ys[k] })
}

// What the last of the calls finds of govUF_var: true if it does not occur.

func govUF_hoaNo(calls []Node) bool { panic("verifier only") }

//@ icontract (n Node) addHoa(b *Binding) (r []int)
//@ props C14
//@ mutates n
//@ flag logged calls maypanic partial settled
//@ ensures log-call: govEq(govCalls(), append(govOldCalls(), n))
//@ ensures log-restricts: govEq(govSubs(), append(govOldSubs(), orNil(b)))
//@ ensures log-result: noVar(r) == govUF_hoaNo(govCalls())
//@ ensures local-binding: hoaBinding(n, old_n, r)
//@ ensures local-connection: hoaConnection(n, old_n, b, r)
//@ ensures local-arguments: hoaArguments(n, old_n, r)
//@ ensures local-restricted: hoaRestricted(n, old_n, b, r)
//@ ensures local-plurality: hoaPlurality(n, old_n, r)
//@ ensures local-serial: hoaSerial(n, old_n, r)
//@ ensures local-inner: hoaInner(n, old_n, r)
//@ ensures local-leaf: hoaLeaf(n, old_n, r)
//@ invariant (i int, as []Argument, used []int) arguments: 0 <= i && i <= len(as) && hoaSoFar(n, old_n, i, used)
//@ invariant (i int, used []int, e_used []int) different: 0 <= i && i <= len(used) && noneIs(used[:i], b)

//@ spec inline
func orNil(b *Binding) Node {
	if b == nil {
		return nil
	}
	return b
}

//@ spec inline
func hoaBinding(n, old Node, r []int) bool {
	x, ok := n.(*Binding)
	if !ok {
		return true
	}
	o := old.(*Binding)
	if x.Restriction != o.Restriction || x.Scope != o.Scope || x.N != o.N || x.Quantifier != o.Quantifier || x.AST != o.AST {
		return false
	}
	if o.Restriction == nil {
		return govEq(govCalls(), append(govOldCalls(), o.Scope)) && govEq(govSubs(), append(govOldSubs(), nil)) &&
			noVar(r) == govUF_hoaNo(govCalls())
	}
	first := append(govOldCalls(), o.Restriction)
	return govEq(govCalls(), append(first, o.Scope)) && govEq(govSubs(), append(govOldSubs(), n, nil)) &&
		noVar(r) == (govUF_hoaNo(first) && govUF_hoaNo(govCalls()))
}

//@ spec inline
func hoaConnection(n, old Node, b *Binding, r []int) bool {
	x, ok := n.(*Connection)
	if !ok {
		return true
	}
	o := old.(*Connection)
	first := append(govOldCalls(), o.Left)
	return x.Left == o.Left && x.Right == o.Right && x.AST == o.AST &&
		govEq(govCalls(), append(first, o.Right)) && govEq(govSubs(), append(govOldSubs(), orNil(b), orNil(b))) &&
		noVar(r) == (govUF_hoaNo(first) && govUF_hoaNo(govCalls()))
}

// argsNo: the number does not occur in the arguments, looked at in order.
//
//@ spec depth=1
func argsNo(before []Node, as []Argument) bool {
	if len(as) == 0 {
		return true
	}
	init := argsNo(before, as[:len(as)-1])
	if as[len(as)-1] == nil {
		return init
	}
	return init && govUF_hoaNo(append(before, there(as)...))
}

//@ spec inline
func hoaSoFar(n, old Node, i int, used []int) bool {
	switch o := old.(type) {
	case *Predication:
		x := n.(*Predication)
		first := append(govOldCalls(), o.Predicate)
		return i <= len(o.Arguments) && govEq(x.Arguments, o.Arguments) && x.Predicate == o.Predicate && x.AST == o.AST &&
			govEq(govCalls(), append(first, there(o.Arguments[:i])...)) &&
			noVar(used) == (govUF_hoaNo(first) && argsNo(first, o.Arguments[:i]))
	case *Plurality:
		x := n.(*Plurality)
		return i <= len(o.Arguments) && govEq(x.Arguments, o.Arguments) && x.AST == o.AST &&
			govEq(govCalls(), append(govOldCalls(), there(o.Arguments[:i])...)) &&
			noVar(used) == argsNo(govOldCalls(), o.Arguments[:i])
	}
	return false
}

// noneIs: as far as govUF_var is the variable of b.
//
//@ spec inline
func noneIs(used []int, b *Binding) bool {
	return b == nil || b.N != govUF_var() || noVar(used)
}

//@ spec inline
func hoaArguments(n, old Node, r []int) bool {
	x, ok := n.(*Predication)
	if !ok {
		return true
	}
	o := old.(*Predication)
	first := append(govOldCalls(), o.Predicate)
	return x.Predicate == o.Predicate && x.AST == o.AST && govEq(govCalls(), append(first, there(o.Arguments)...)) &&
		noVar(r) == (govUF_hoaNo(first) && argsNo(first, o.Arguments))
}

// hoaRestricted: a predication without arguments gets the variable of b, if
// that is not already in it.
//
//@ spec inline
func hoaRestricted(n, old Node, b *Binding, r []int) bool {
	x, ok := n.(*Predication)
	if !ok {
		return true
	}
	o := old.(*Predication)
	if b == nil || len(o.Arguments) > 0 {
		return govEq(x.Arguments, o.Arguments)
	}
	if b.N != govUF_var() {
		return true
	}
	if !noVar(r) {
		return len(x.Arguments) == 0
	}
	return len(x.Arguments) == 1 && hoaVar(x.Arguments[0], b)
}

//@ spec inline
func hoaVar(a Argument, b *Binding) bool {
	v, ok := a.(*Variable)
	return ok && v.N == b.N && v.Def == b
}

//@ spec inline
func hoaPlurality(n, old Node, r []int) bool {
	x, ok := n.(*Plurality)
	if !ok {
		return true
	}
	o := old.(*Plurality)
	return govEq(x.Arguments, o.Arguments) && x.AST == o.AST && govEq(govCalls(), append(govOldCalls(), there(o.Arguments)...)) &&
		noVar(r) == argsNo(govOldCalls(), o.Arguments)
}

//@ spec inline
func hoaSerial(n, old Node, r []int) bool {
	x, ok := n.(*Serial)
	if !ok {
		return true
	}
	o := old.(*Serial)
	first := append(govOldCalls(), o.Left)
	return x.Left == o.Left && x.Right == o.Right && x.AST == o.AST &&
		govEq(govCalls(), append(first, o.Right)) && noVar(r) == (govUF_hoaNo(first) && govUF_hoaNo(govCalls()))
}

// hoaInner: abstractions and swaps are as what is in them.
//
//@ spec inline
func hoaInner(n, old Node, r []int) bool {
	switch x := n.(type) {
	case *Abstraction:
		o := old.(*Abstraction)
		return x.Statement == o.Statement && x.AST == o.AST &&
			govEq(govCalls(), append(govOldCalls(), o.Statement)) && govEq(govSubs(), append(govOldSubs(), nil)) &&
			noVar(r) == govUF_hoaNo(govCalls())
	case *Swap:
		o := old.(*Swap)
		return x.Predicate == o.Predicate && x.Pos == o.Pos && x.AST == o.AST &&
			govEq(govCalls(), append(govOldCalls(), o.Predicate)) && noVar(r) == govUF_hoaNo(govCalls())
	}
	return true
}

//@ spec inline
func hoaLeaf(n, old Node, r []int) bool {
	switch x := n.(type) {
	case *Variable:
		return govEq(govCalls(), govOldCalls()) && noVar(r) == (x.N != govUF_var())
	case *Quote:
		return govEq(govCalls(), govOldCalls()) && noVar(r)
	case *Pred:
		return govEq(govCalls(), govOldCalls()) && noVar(r)
	}
	return true
}

// sequenceVarNums changes nothing but numbers.
//
//@ contract sequenceVarNums(n Statement)
//@ props C14
//@ flag maypanic partial renumbers

// simplify adds the implicit arguments, and then simplifies the statement with
// nothing substituted yet.
//
//@ contract simplify(n Statement) (r Statement)
//@ props C14
//@ flag logged calls maypanic partial settled
//@ ensures steps: govEq(govCalls(), append(govOldCalls(), n, n)) && r == govUF_simpS(govCalls())
//@ ensures afresh: govEq(govSubs(), append(govOldSubs(), nil, nil))
