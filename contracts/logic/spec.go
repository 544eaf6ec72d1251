package logic

// Specification vocabulary for package logic. Everything here is executable
// Go, so the same text serves the verifier and the replay of failing inputs.

import (
	"reflect"
	"strings"
)

// Intrinsics: interpreted by the verifier, executable here.

func govEq(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Kind() == reflect.Slice && vb.Kind() == reflect.Slice && va.Len() == 0 && vb.Len() == 0 {
		return true
	}
	return reflect.DeepEqual(a, b)
}

func govForall(lo, hi int, p func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if !p(i) {
			return false
		}
	}
	return true
}

func govWritten(b *strings.Builder) string { return b.String() }
func govRunes(s string) int                { return len([]rune(s)) }
func govRune(s string, k int) rune         { return []rune(s)[k] }
func govPrefix(s string, k int) string     { return string([]rune(s)[:k]) }
func govDrop(s string, k int) string       { return string([]rune(s)[k:]) }

func govCalls() []Node    { panic("verifier only") }
func govOldCalls() []Node { panic("verifier only") }

func govAsNodes(as []Argument) []Node {
	var ns []Node
	for _, a := range as {
		ns = append(ns, a)
	}
	return ns
}

// govNilPtr: the interface holds a nil pointer.
func govNilPtr(n Node) bool {
	v := reflect.ValueOf(n)
	return v.IsValid() && v.Kind() == reflect.Ptr && v.IsNil()
}

// kids is the children of a node in order; an absent one is nil.
//
//@ spec dispatch=n
func kids(n Node) []Node {
	switch n := n.(type) {
	case *Binding:
		return []Node{n.Restriction, n.Scope}
	case *Connection:
		return []Node{n.Left, n.Right}
	case *Predication:
		return append([]Node{n.Predicate}, govAsNodes(n.Arguments)...)
	case *Plurality:
		return govAsNodes(n.Arguments)
	case *Abstraction:
		return []Node{n.Statement}
	case *Serial:
		return []Node{n.Left, n.Right}
	case *Swap:
		return []Node{n.Predicate}
	}
	return nil
}

// solid: no node of the tree is a nil pointer.
//
//@ spec dispatch=n depth=4
func solid(n Node) bool {
	if n == nil {
		return true
	}
	return !govNilPtr(n) && solidAll(kids(n))
}

//@ spec foldand=solid
func solidAll(ns []Node) bool {
	for _, n := range ns {
		if !solid(n) {
			return false
		}
	}
	return true
}
