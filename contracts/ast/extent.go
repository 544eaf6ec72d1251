package ast

// pws is the sequence of proper words of a node: free modifiers attached to
// words, and the modifier leading a text, are not part of it.
//
//@ spec dispatch=n depth=4
func pws(n Node) []govLeaf {
	if n == nil {
		return nil
	}
	switch n := n.(type) {
	case *Word:
		return []govLeaf{{T: n.T, S: n.S, E: n.E}}
	case *Text:
		return pws(&n.Discourse)
	}
	return pwsAll(kids(n))
}

//@ spec fold=pws
func pwsAll(ns []Node) []govLeaf {
	var ls []govLeaf
	for _, n := range ns {
		ls = append(ls, pws(n)...)
	}
	return ls
}

//@ lemma pwsNonEmpty(n Node)
//@ props C04
//@ trigger pws
//@ split n
//@ ensures has-word: !(wf(n) && nonEmpty(n)) || len(pws(n)) > 0

//@ icontract (n Node) Start() (r int)
//@ props C04
//@ requires well-formed: wf(n) && nonEmpty(n)
//@ ensures first-word: r == pws(n)[0].S

//@ icontract (n Node) End() (r int)
//@ props C04
//@ requires well-formed: wf(n) && nonEmpty(n)
//@ ensures last-word: r == pws(n)[len(pws(n))-1].E
