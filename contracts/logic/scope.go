package logic

import "github.com/eaburns/toaq/ast"

// ---- variables and their bindings (C12) ----

// innermost is the binding of a variable that was entered last, or nil.
//
//@ spec depth=2
func innermost(vs []varScope, s string) *Binding {
	if len(vs) == 0 {
		return nil
	}
	if vs[len(vs)-1].v == s {
		return vs[len(vs)-1].def
	}
	return innermost(vs[:len(vs)-1], s)
}

//@ spec inline
func lastHoa(bs []*Binding) *Binding {
	if len(bs) == 0 {
		return nil
	}
	return bs[len(bs)-1]
}

// kept: the scopes are as they were; numbers only grow.
//
//@ spec inline
func kept(interp, old *interpreter) bool {
	return govEq(interp.varScope, old.varScope) && govEq(interp.hoaScope, old.hoaScope) && old.n <= interp.n
}

// isVarFor: n is a variable bound by def, or unbound with the number next.
//
//@ spec inline
func isVarFor(n interface{}, def *Binding, next int, node ast.Node) bool {
	v, ok := n.(*Variable)
	if !ok || v == nil {
		return false
	}
	if def == nil {
		return v.Def == nil && v.N == next && v.AST == node
	}
	return v.Def == def && v.N == def.N && v.AST == node
}

// varsWith are the variables in scope after a variable argument.
//
//@ spec inline
func varsWith(old *interpreter, n *ast.PredicateArgument, b *Binding) []varScope {
	if n.Quantifier == nil {
		return old.varScope
	}
	return append(old.varScope, varScope{varOf(n.Predicate), b})
}

// varsAfter are the variables in scope after an argument.
//
//@ spec inline
func varsAfter(old *interpreter, n *ast.PredicateArgument, b *Binding) []varScope {
	if wasLifted(old, n) || !isVarPred(n.Predicate) {
		return old.varScope
	}
	return varsWith(old, n, b)
}

// quantFits: q is what the quantifier word w says.
//
//@ spec inline
func quantFits(q Quantifier, w *ast.Word) bool {
	return (q == "ι") == (w == nil || isWord(w.T, "ke")) &&
		(q == "λ") == (w != nil && isWord(w.T, "ja")) &&
		(q == "∃") == (w != nil && isWord(w.T, "sa")) &&
		(q == "∀") == (w != nil && isWord(w.T, "tu")) &&
		(q == "∄") == (w != nil && isWord(w.T, "sia")) &&
		(q == "¿") == (w != nil && isWord(w.T, "hi"))
}

// quantOk: an argument's binding in place has the quantifier of its word; Λ
// stands for ι where that cannot be at the top, and for some of a variable.
//
//@ spec inline
func quantOk(q Quantifier, n *ast.PredicateArgument) bool {
	if isVarPred(n.Predicate) {
		if n.Quantifier == nil {
			return q == "Λ"
		}
		return quantFits(q, n.Quantifier)
	}
	if isHoa(n.Predicate) || n.Quantifier == nil || isWord(n.Quantifier.T, "ke") {
		return q == "Λ"
	}
	return q != "¿" && quantFits(q, n.Quantifier)
}

// liftedTop: the binding lifted for n has the quantifier of its word; a ι is
// the last of those at the top.
//
//@ spec inline
func liftedTop(interp *interpreter, n *ast.PredicateArgument) bool {
	b, ok := interp.liftedScope[n]
	if !ok || b == nil || !quantFits(b.Quantifier, n.Quantifier) {
		return false
	}
	if b.Quantifier == "¿" {
		return true
	}
	return b.Quantifier == "ι" && len(interp.theScope) > 0 && interp.theScope[len(interp.theScope)-1] == b
}

// ownScope: a quantified variable is in scope in its own relative clause.
//
//@ spec inline
func ownScope(vs []varScope, b *Binding) bool {
	if b == nil {
		return true
	}
	n, ok := b.AST.(*ast.PredicateArgument)
	if !ok || n == nil || n.Quantifier == nil || !isVarPred(n.Predicate) {
		return true
	}
	return innermost(vs, varOf(n.Predicate)) == b
}

// ---- variables without a binding above them ----

//@ spec inline
func isVarNode(n Node) bool {
	_, ok := n.(*Variable)
	return ok
}

//@ spec inline
func defOfVar(n Node) *Binding {
	v, ok := n.(*Variable)
	if !ok {
		return nil
	}
	return v.Def
}

//@ spec depth=2
func among(bs []*Binding, d *Binding) bool {
	if len(bs) == 0 {
		return false
	}
	return bs[len(bs)-1] == d || among(bs[:len(bs)-1], d)
}

// boundIn: d is among the nodes.
//
//@ spec depth=2
func boundIn(ns []Node, d *Binding) bool {
	if len(ns) == 0 {
		return false
	}
	b, ok := ns[len(ns)-1].(*Binding)
	return ok && b == d || boundIn(ns[:len(ns)-1], d)
}

// unbound: the kth node is a variable of a binding that is neither before it in
// the tree nor at the top.
//
//@ spec inline
func unbound(ns []Node, k int, top []*Binding) bool {
	d := defOfVar(ns[k])
	return d != nil && !among(top, d) && !boundIn(ns[:k], d)
}

//@ spec inline
func isKept(binds map[*Binding]bool, d *Binding, want bool) bool {
	_, ok := binds[d]
	return ok == want && binds[d] == want
}

// liftedClosed: a binding lifted to the top has no variable of a binding that is
// neither in it nor among those that were lifted before it.
//
//@ spec inline
func liftedClosed(interp *interpreter, n *ast.PredicateArgument) bool {
	b := interp.liftedScope[n]
	return b.Quantifier != "ι" || govForall(0, len(preorder(b)), func(k int) bool { return !unbound(preorder(b), k, interp.theScope[:len(interp.theScope)-1]) })
}
