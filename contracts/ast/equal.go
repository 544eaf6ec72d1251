package ast

// eqN is structural equality, ignoring byte ranges.
//
//@ spec dispatch=a depth=4
func eqN(a, b Node) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if govTag(a) != govTag(b) {
		return false
	}
	if wa, ok := a.(*Word); ok {
		if wa.T != b.(*Word).T {
			return false
		}
	}
	return eqKids(kids(a), kids(b))
}

//@ spec inline
func eqKids(ka, kb []Node) bool {
	return len(ka) == len(kb) && govForall(0, len(ka), func(i int) bool { return eqN(ka[i], kb[i]) })
}

//@ lemma eqSameType(a, b Node)
//@ props C06
//@ trigger eqN
//@ split a
//@ ensures same-type: !eqN(a, b) || govTag(a) == govTag(b)

//@ contract Equal(a, b Node) (r bool)
//@ props C06
//@ split a
//@ requires a-well-formed: a == nil || wf(a)
//@ requires b-well-formed: b == nil || wf(b)
//@ ensures structural-equality: r == eqN(a, b)
//@ invariant (i int) elements-equal: govForall(0, i, func(j int) bool { return eqN(kids(a)[j], kids(b)[j]) })
//@ invariant (i int, same bool) flag: 0 <= i && i <= len(kids(a)) && same == govForall(0, i, func(j int) bool { return eqN(kids(a)[j], kids(b)[j]) })
