package logic

// ---- visiting (C17) ----

// preorder is the nodes of a tree, each before its children, children in
// order; absent children are skipped.
//
//@ spec dispatch=n depth=4
func preorder(n Node) []Node {
	if n == nil {
		return nil
	}
	return append([]Node{n}, preAll(kids(n))...)
}

//@ spec fold=preorder
func preAll(ns []Node) []Node {
	var all []Node
	for _, n := range ns {
		all = append(all, preorder(n)...)
	}
	return all
}

//@ icontract (n Node) Visit(f func(Node))
//@ props C17
//@ flag calls settled
//@ requires node: n != nil && solid(n)
//@ ensures calls: govEq(govCalls(), append(govOldCalls(), preorder(n)...))
//@ invariant (i int, as []Argument) visited: 0 <= i && i <= len(as) && govEq(govCalls(), append(append(govOldCalls(), govHead(n)...), preAll(govAsNodes(as)[:i])...))

// govHead is the part of a node's preorder before its arguments.
//
//@ spec dispatch=n
func govHead(n Node) []Node {
	if p, ok := n.(*Predication); ok {
		return append([]Node{n}, preorder(p.Predicate)...)
	}
	return []Node{n}
}

//@ contract visit(f func(Node), nodes ...Node)
//@ props C17
//@ flag calls settled
//@ requires solid: solidAll(nodes)
//@ ensures calls: govEq(govCalls(), append(govOldCalls(), preAll(nodes)...))
//@ invariant (i int, ns []Node) visited: 0 <= i && i <= len(ns) && govEq(govCalls(), append(govOldCalls(), preAll(ns[:i])...))
