package ast

// lvs is the sequence of words of a tree in source order, modifiers included.
//
//@ spec dispatch=n depth=4
func lvs(n Node) []govLeaf {
	if n == nil {
		return nil
	}
	if w, ok := n.(*Word); ok {
		return append([]govLeaf{{T: w.T, S: w.S, E: w.E}}, lvs(w.M)...)
	}
	return lvsAll(kids(n))
}

//@ spec fold=lvs
func lvsAll(ns []Node) []govLeaf {
	var ls []govLeaf
	for _, n := range ns {
		ls = append(ls, lvs(n)...)
	}
	return ls
}

// lvm is the words of an optional modifier.
//
//@ spec inline
func lvm(m *Mod) []govLeaf {
	if m == nil {
		return nil
	}
	return lvs(*m)
}

// shp is the bracketed shape of a tree: node types and words in order,
// ignoring modifiers.
//
//@ spec dispatch=n depth=4
func shp(n Node) []govTok {
	if n == nil {
		return []govTok{{K: 0, G: -1}}
	}
	if w, ok := n.(*Word); ok {
		return []govTok{{K: 1, G: govTag(n), T: w.T, S: w.S, E: w.E}}
	}
	return append(append([]govTok{{K: 0, G: govTag(n)}}, shpAll(kids(n))...), govTok{K: 2})
}

//@ spec fold=shp
func shpAll(ns []Node) []govTok {
	var ts []govTok
	for _, n := range ns {
		ts = append(ts, shp(n)...)
	}
	return ts
}

//@ spec inline
func wfm(m *Mod) bool { return m == nil || isMod(*m) && wf(*m) }

//@ spec inline
func modded(r, n Node, m *Mod) bool {
	return wf(r) && govTag(r) == govTag(n) && nonEmpty(r) &&
		govEq(lvs(r), append(lvs(n), lvm(m)...)) && govEq(shp(r), shp(n))
}

//@ icontract (n Node) modNode(m *Mod) (r Node)
//@ props C08
//@ requires well-formed: wf(n) && nonEmpty(n)
//@ requires mod-well-formed: wfm(m)
//@ ensures type: wf(r) && govTag(r) == govTag(n) && nonEmpty(r)
//@ ensures leaves: govEq(lvs(r), append(lvs(n), lvm(m)...))
//@ ensures shape: govEq(shp(r), shp(n))

//@ icontract (n Sentence) modSentence(m *Mod) (r Sentence)
//@ props C08
//@ requires well-formed: wf(n)
//@ requires class: isSentence(n)
//@ requires mod-well-formed: wfm(m)
//@ ensures type: wf(r) && govTag(r) == govTag(n)
//@ ensures leaves: govEq(lvs(r), append(lvs(n), lvm(m)...))
//@ ensures shape: govEq(shp(r), shp(n))

//@ icontract (n Fragment) modFragment(m *Mod) (r Fragment)
//@ props C08
//@ requires well-formed: wf(n)
//@ requires class: isFragment(n)
//@ requires mod-well-formed: wfm(m)
//@ ensures type: wf(r) && govTag(r) == govTag(n)
//@ ensures leaves: govEq(lvs(r), append(lvs(n), lvm(m)...))
//@ ensures shape: govEq(shp(r), shp(n))

//@ icontract (n Statement) modStatement(m *Mod) (r Statement)
//@ props C08
//@ requires well-formed: wf(n)
//@ requires class: isStatement(n)
//@ requires mod-well-formed: wfm(m)
//@ ensures type: wf(r) && govTag(r) == govTag(n)
//@ ensures leaves: govEq(lvs(r), append(lvs(n), lvm(m)...))
//@ ensures shape: govEq(shp(r), shp(n))

//@ icontract (n Predicate) modPredicate(m *Mod) (r Predicate)
//@ props C08
//@ requires well-formed: wf(n)
//@ requires class: pred(n)
//@ requires mod-well-formed: wfm(m)
//@ ensures type: wf(r) && govTag(r) == govTag(n)
//@ ensures leaves: govEq(lvs(r), append(lvs(n), lvm(m)...))
//@ ensures shape: govEq(shp(r), shp(n))

//@ icontract (n Phrase) modPhrase(m *Mod) (r Phrase)
//@ props C08
//@ requires well-formed: wf(n)
//@ requires class: isPhrase(n)
//@ requires mod-well-formed: wfm(m)
//@ ensures type: wf(r) && govTag(r) == govTag(n)
//@ ensures leaves: govEq(lvs(r), append(lvs(n), lvm(m)...))
//@ ensures shape: govEq(shp(r), shp(n))

//@ icontract (n Term) modTerm(m *Mod) (r Term)
//@ props C08
//@ requires well-formed: wf(n)
//@ requires class: isTerm(n)
//@ requires mod-well-formed: wfm(m)
//@ ensures type: wf(r) && govTag(r) == govTag(n)
//@ ensures leaves: govEq(lvs(r), append(lvs(n), lvm(m)...))
//@ ensures shape: govEq(shp(r), shp(n))

//@ icontract (n Argument) modArgument(m *Mod) (r Argument)
//@ props C08
//@ requires well-formed: wf(n)
//@ requires class: isArgument(n)
//@ requires mod-well-formed: wfm(m)
//@ ensures type: wf(r) && govTag(r) == govTag(n)
//@ ensures leaves: govEq(lvs(r), append(lvs(n), lvm(m)...))
//@ ensures shape: govEq(shp(r), shp(n))

//@ icontract (n Relative) modRelative(m *Mod) (r Relative)
//@ props C08
//@ requires well-formed: wf(n)
//@ requires class: isRelative(n)
//@ requires mod-well-formed: wfm(m)
//@ ensures type: wf(r) && govTag(r) == govTag(n)
//@ ensures leaves: govEq(lvs(r), append(lvs(n), lvm(m)...))
//@ ensures shape: govEq(shp(r), shp(n))

//@ icontract (n Adverb) modAdverb(m *Mod) (r Adverb)
//@ props C08
//@ requires well-formed: wf(n)
//@ requires class: isAdverb(n)
//@ requires mod-well-formed: wfm(m)
//@ ensures type: wf(r) && govTag(r) == govTag(n)
//@ ensures leaves: govEq(lvs(r), append(lvs(n), lvm(m)...))
//@ ensures shape: govEq(shp(r), shp(n))

//@ icontract (n Preposition) modPreposition(m *Mod) (r Preposition)
//@ props C08
//@ requires well-formed: wf(n)
//@ requires class: isPreposition(n)
//@ requires mod-well-formed: wfm(m)
//@ ensures type: wf(r) && govTag(r) == govTag(n)
//@ ensures leaves: govEq(lvs(r), append(lvs(n), lvm(m)...))
//@ ensures shape: govEq(shp(r), shp(n))

//@ icontract (n Content) modContent(m *Mod) (r Content)
//@ props C08
//@ requires well-formed: wf(n)
//@ requires class: isContent(n)
//@ requires mod-well-formed: wfm(m)
//@ ensures type: wf(r) && govTag(r) == govTag(n)
//@ ensures leaves: govEq(lvs(r), append(lvs(n), lvm(m)...))
//@ ensures shape: govEq(shp(r), shp(n))

//@ icontract (n Mod) mod(m *Mod) (r Mod)
//@ props C08
//@ requires well-formed: wf(n)
//@ requires class: isMod(n)
//@ requires mod-well-formed: wfm(m)
//@ ensures type: wf(r) && govTag(r) == govTag(n)
//@ ensures leaves: govEq(lvs(r), append(lvs(n), lvm(m)...))
//@ ensures shape: govEq(shp(r), shp(n))
