package ast

import "reflect"

// govNilPtr: the interface holds a nil pointer.
func govNilPtr(n Node) bool {
	v := reflect.ValueOf(n)
	return v.IsValid() && v.Kind() == reflect.Ptr && v.IsNil()
}

func govTrace() []govEvent    { panic("verifier only") }
func govOldTrace() []govEvent { panic("verifier only") }

// govUF_ret is the visitor returned by a call v.Visit(n) made after tr.
func govUF_ret(tr []govEvent, v Visitor, n Node) Visitor { panic("verifier only") }

// visitTr is the sequence of visitor calls after visiting n with v, when tr
// has happened before: enter the node; if the visitor returned is not nil,
// visit the children in source order with it and then tell it the node is
// done; absent children are skipped.
//
//@ spec dispatch=n depth=4
func visitTr(tr []govEvent, n Node, v Visitor) []govEvent {
	if n == nil || govNilPtr(n) {
		return tr
	}
	v1 := govUF_ret(tr, v, n)
	tr1 := append(tr, govEvent{V: v, N: n})
	if v1 == nil {
		return tr1
	}
	return append(visitAll(tr1, kids(n), v1), govEvent{V: v1})
}

//@ spec foldl=visitTr
func visitAll(tr []govEvent, ns []Node, v Visitor) []govEvent {
	for _, n := range ns {
		tr = visitTr(tr, n, v)
	}
	return tr
}

//@ spec inline
func visitable(n Node) bool {
	if n == nil || govNilPtr(n) {
		return true
	}
	if ts, ok := n.(Terms); ok && len(ts) == 0 {
		return true
	}
	return wf(n)
}

//@ contract Visit(n Node, v Visitor)
//@ props C05
//@ flag traces
//@ split n
//@ requires visitor: v != nil
//@ requires well-formed: visitable(n)
//@ ensures calls: govEq(govTrace(), visitTr(govOldTrace(), n, v))
//@ invariant (i int) children-visited: 0 <= i && i <= len(kids(n)) && govEq(govTrace(), visitAll(append(govOldTrace(), govEvent{V: v, N: n}), kids(n)[:i], govUF_ret(govOldTrace(), v, n)))
