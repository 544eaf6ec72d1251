package ast

import "io"

func govWritten(w io.Writer) string { panic("verifier only") }
func govCanFail(w io.Writer) bool   { panic("verifier only") }

const (
	opens  = "({[<"
	closes = ")}]>"
)

// bitems is what is shown of a node: a word shows its text and its modifier.
//
//@ spec inline
func bitems(n Node) []interface{} {
	if w, ok := n.(*Word); ok {
		return []interface{}{w.T, w.M}
	}
	return govAsItems(kids(n))
}

// skipSp replaces a space by the modifier that follows it.
//
//@ spec depth=2
func skipSp(n Node) Node {
	if s, ok := n.(*Space); ok {
		return skipSp(s.M)
	}
	return n
}

// nothing: an absent node.
//
//@ spec inline
func nothing(n Node) bool {
	if n == nil || govNilPtr(n) {
		return true
	}
	ts, ok := n.(Terms)
	return ok && ts == nil
}

// vis1 is the visible item for x, if any.
//
//@ spec inline
func vis1(x interface{}) []interface{} {
	if x == nil {
		return nil
	}
	if _, ok := x.(string); ok {
		return []interface{}{x}
	}
	n := skipSp(x.(Node))
	if nothing(n) {
		return nil
	}
	return []interface{}{n}
}

//@ spec fold=vis1
func visAll(xs []interface{}) []interface{} {
	var ys []interface{}
	for _, x := range xs {
		ys = append(ys, vis1(x)...)
	}
	return ys
}

// rend is the braces form of n at nesting depth cur (mod 4).
//
//@ spec dispatch=n depth=4
func rend(n Node, cur int) string {
	if n == nil || govNilPtr(n) {
		return ""
	}
	if s, ok := n.(*Space); ok {
		return rend(s.M, cur)
	}
	return rendKids(bitems(n), cur)
}

// rendKids shows the visible items, in braces if there is more than one.
//
//@ spec inline
func rendKids(xs []interface{}, cur int) string { return rendVis(visAll(xs), cur) }

//@ spec inline
func rendVis(ys []interface{}, cur int) string {
	if len(ys) < 2 {
		return joined(ys, cur)
	}
	return opens[cur:cur+1] + joined(ys, (cur+1)%4) + closes[cur:cur+1]
}

//@ spec inline
func rendItem(x interface{}, cur int) string {
	if s, ok := x.(string); ok {
		return s
	}
	return rend(x.(Node), cur)
}

//@ spec inline
func rendSep(x interface{}, cur int) string { return rendItem(x, cur) + " " }

//@ spec fold=rendSep
func sepAll(xs []interface{}, cur int) string {
	s := ""
	for _, x := range xs {
		s += rendSep(x, cur)
	}
	return s
}

// joined is the items separated by single spaces.
//
//@ spec inline
func joined(xs []interface{}, cur int) string { return upTo(xs, len(xs), cur) }

// upTo is what has been written after i of the items.
//
//@ spec inline
func upTo(xs []interface{}, i, cur int) string {
	if i < len(xs) {
		return sepAll(xs[:i], cur)
	}
	if i <= 0 {
		return ""
	}
	return sepAll(xs[:i-1], cur) + rendItem(xs[i-1], cur)
}

// item: a string, or a node fit to be shown, or nothing.
//
//@ spec inline
func item(x interface{}) bool {
	if x == nil {
		return true
	}
	if _, ok := x.(string); ok {
		return true
	}
	n, ok := x.(Node)
	return ok && showable(n)
}

//@ spec inline
func showable(n Node) bool {
	if n == nil {
		return true
	}
	if w, ok := n.(*Word); ok && w == nil {
		return true
	}
	if ts, ok := n.(Terms); ok && ts == nil {
		return true
	}
	return wf(n)
}

//@ spec foldand=item
func items(xs []interface{}) bool {
	for _, x := range xs {
		if !item(x) {
			return false
		}
	}
	return true
}

// visible: an item that does show.
//
//@ spec inline
func visible(x interface{}) bool {
	if x == nil {
		return false
	}
	if _, ok := x.(string); ok {
		return true
	}
	n, ok := x.(Node)
	return ok && !nothing(n) && wf(n)
}

//@ spec foldand=visible
func allVisible(xs []interface{}) bool {
	for _, x := range xs {
		if !visible(x) {
			return false
		}
	}
	return true
}

//@ contract BracesString(n Node) (r string)
//@ props C07
//@ requires well-formed: showable(n)
//@ ensures rendering: r == rend(n, 0)

//@ contract braces(w io.Writer, cur int, n Node) (err error)
//@ props C07
//@ mutates w
//@ split n
//@ requires depth: 0 <= cur && cur < 4
//@ requires well-formed: showable(n)
//@ ensures rendering: err != nil || govWritten(w) == govWritten(old_w)+rend(n, cur)
//@ ensures no-spurious-error: err == nil || govCanFail(w)
//@ invariant (i int, ks []interface{}) copied: 0 <= i && i <= len(ks) && len(ks) == len(kids(n)) && govEq(ks[:i], govAsItems(kids(n))[:i]) && items(ks[:i])
//@ invariant (i int, ks []interface{}) gathered: 0 <= i && i <= len(kids(n)) && govEq(ks, govAsItems(kids(n))[:i]) && items(ks)

//@ contract braceKids(w io.Writer, cur int, xs ...interface{}) (err error)
//@ props C07
//@ mutates w
//@ requires depth: 0 <= cur && cur < 4
//@ requires items: items(xs)
//@ ensures rendering: err != nil || govWritten(w) == govWritten(old_w)+rendKids(xs, cur)
//@ ensures no-spurious-error: err == nil || govCanFail(w)
//@ invariant (i int, ys []interface{}) collected: 0 <= i && i <= len(xs) && govEq(ys, visAll(xs[:i])) && allVisible(ys)
//@ invariant (n Node, e_n Node) spaces: skipSp(n) == skipSp(e_n) && showable(n)
//@ invariant (o io.Writer, e_o io.Writer, i int, ys []interface{}, next int) written: 0 <= i && i <= len(ys) && govWritten(o) == govWritten(e_o)+upTo(ys, i, next)
//@ invariant (o io.Writer, e_o io.Writer, i int, ys []interface{}, next int) leading: 0 <= i && i <= len(ys) && govWritten(o) == govWritten(e_o)+upTo(ys[:i], i, next)
