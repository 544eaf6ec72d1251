package ast

// Contracts of the functions the parser assembles nodes with: the words of
// the result, in order, are the words of the parts in source order.

//@ spec inline
func lvsW(w Word) []govLeaf {
	return append([]govLeaf{{T: w.T, S: w.S, E: w.E}}, lvs(w.M)...)
}

//@ spec inline
func wfW(w Word) bool { return w.M == nil || isMod(w.M) && wf(w.M) }

//@ spec inline
func wfT(ts Terms) bool { return len(ts) > 0 && wfTerms(ts) }

//@ spec inline
func lvsPA(a PredicateArgument) []govLeaf {
	return append(append(append(lvs(ow(a.Focus)), lvs(ow(a.Quantifier))...), lvs(a.Predicate)...), lvs(a.Relative)...)
}

//@ spec inline
func wfPA(a PredicateArgument) bool {
	return wfOptW(a.Focus) && wfOptW(a.Quantifier) && pred(a.Predicate) && wf(a.Predicate) &&
		(a.Relative == nil || isRelative(a.Relative) && wf(a.Relative))
}

//@ spec inline
func lvsP(p Predication) []govLeaf {
	return append(append(lvs(p.Predicate), lvsAll(govAsNodes(p.Terms))...), lvs(ow(p.NA))...)
}

//@ spec inline
func wfP(p Predication) bool {
	return pred(p.Predicate) && wf(p.Predicate) && wfTerms(p.Terms) && (p.Terms == nil || len(p.Terms) > 0) && wfOptW(p.NA)
}

//@ contract text(s0 *Mod, d *[]Node) (r Text)
//@ props C08
//@ ensures leading: s0 == nil && r.Leading == nil || s0 != nil && r.Leading == *s0
//@ ensures discourse: d == nil && len(r.Discourse) == 0 || d != nil && govEq([]Node(r.Discourse), *d)

//@ contract prenexStmt(p *Prenex, st Statement) (r Statement)
//@ props C08
//@ requires prenex: p == nil || wf(p)
//@ requires statement: isStatement(st) && wf(st)
//@ ensures class: isStatement(r) && wf(r)
//@ ensures no-prenex: p != nil || r == st
//@ ensures leaves: p == nil || govEq(lvs(r), append(lvs(p), lvs(st)...))
//@ ensures shape: p == nil || isPrenexStmt(r) && govEq(shp(r), append(append(append([]govTok{{K: 0, G: govTag(r)}}, shp(p)...), shp(st)...), govTok{K: 2}))

func isPrenexStmt(n Node) bool { _, ok := n.(*PrenexStatement); return ok }

//@ contract prenex(ts Terms, s *Mod, bi Word) (r *Prenex)
//@ props C08
//@ requires parts: wfT(ts) && wfm(s) && wfW(bi)
//@ ensures well-formed: wf(r)
//@ ensures leaves: govEq(lvs(r), append(append(lvsAll(govAsNodes(ts)), lvm(s)...), lvsW(bi)...))
//@ ensures terms: govEq(shp(r.Terms), shp(ts)) && r.BI == bi

//@ contract predication(p Predicate, s *Mod, ts *Terms) (r Predication)
//@ props C08
//@ requires parts: pred(p) && wf(p) && wfm(s) && (ts == nil || wfT(*ts))
//@ ensures well-formed: wfP(r)
//@ ensures predicate: govEq(lvs(r.Predicate), append(lvs(p), lvm(s)...)) && govEq(shp(r.Predicate), shp(p))
//@ ensures terms: r.NA == nil && (ts == nil && r.Terms == nil || ts != nil && govEq(r.Terms, *ts))

//@ contract linkedTerm(g **Word, a Argument) (r Term)
//@ props C08
//@ requires link: g == nil || wf(*g)
//@ requires argument: isArgument(a) && wf(a)
//@ ensures class: isTerm(r) && wf(r)
//@ ensures no-link: g != nil || r == a
//@ ensures leaves: g == nil || govEq(lvs(r), append(lvs(*g), lvs(a)...))
//@ ensures shape: g == nil || isLinked(r) && govEq(shp(r), append(append(append([]govTok{{K: 0, G: govTag(r)}}, shp(*g)...), shp(a)...), govTok{K: 2}))

func isLinked(n Node) bool { _, ok := n.(*LinkedTerm); return ok }

//@ contract focusedArgument(ku *Word, a PredicateArgument) (r *PredicateArgument)
//@ props C08
//@ ensures focus: r != nil && r.Focus == ku
//@ ensures rest: r.Quantifier == a.Quantifier && r.Predicate == a.Predicate && r.Relative == a.Relative

//@ contract quantifiedArgument(tu *Word, a PredicateArgument) (r PredicateArgument)
//@ props C08
//@ ensures quantifier: r.Quantifier == tu
//@ ensures rest: r.Focus == a.Focus && r.Predicate == a.Predicate && r.Relative == a.Relative

//@ contract argumentRelative(a PredicateArgument, s *Mod, rc *Relative) (r PredicateArgument)
//@ props C08
//@ requires parts: wfPA(a) && a.Relative == nil && wfm(s) && (rc == nil || isRelative(*rc) && wf(*rc))
//@ ensures well-formed: wfPA(r)
//@ ensures predicate: govEq(lvs(r.Predicate), append(lvs(a.Predicate), lvm(s)...)) && govEq(shp(r.Predicate), shp(a.Predicate))
//@ ensures relative: rc == nil && r.Relative == nil || rc != nil && r.Relative == *rc
//@ ensures rest: r.Focus == a.Focus && r.Quantifier == a.Quantifier

//@ contract prepPhrase(p Predicate, s *Mod, a Argument) (r *PredicationPreposition)
//@ props C08
//@ requires parts: pred(p) && wf(p) && wfm(s) && isArgument(a) && wf(a)
//@ ensures well-formed: wf(r)
//@ ensures leaves: govEq(lvs(r), append(append(lvs(p), lvm(s)...), lvs(a)...))
//@ ensures parts: r.Argument == a && govEq(shp(r.Predicate), shp(p))

//@ contract endPredication(st Predication, s *Mod, na *Word) (r *Predication)
//@ props C08
//@ requires parts: wfP(st) && st.NA == nil && wfm(s) && wfOptW(na)
//@ ensures well-formed: wf(r)
//@ ensures leaves: govEq(lvs(r), append(append(lvsP(st), lvm(s)...), lvs(ow(na))...))
//@ ensures shape: r.NA == na && govEq(shp(r.Predicate), shp(st.Predicate)) && govEq(shp(r.Terms), shp(st.Terms))

//@ contract serial(left Predicate, s *Mod, right Predicate) (r *SerialPredicate)
//@ props C08
//@ requires parts: pred(left) && wf(left) && wfm(s) && pred(right) && wf(right)
//@ ensures well-formed: wf(r)
//@ ensures leaves: govEq(lvs(r), append(append(lvs(left), lvm(s)...), lvs(right)...))
//@ ensures parts: r.Right == right && govEq(shp(r.Left), shp(left))

//@ contract copLeft(l Node, s *Mod, bar CoP) (r *CoP)
//@ props C08
//@ requires parts: wf(l) && !isTop(l) && wfm(s)
//@ ensures left: r != nil && wf(r.Left) && govEq(lvs(r.Left), append(lvs(l), lvm(s)...)) && govEq(shp(r.Left), shp(l))
//@ ensures rest: r.TO0 == bar.TO0 && r.TO1 == bar.TO1 && r.RU == bar.RU && r.Right == bar.Right

//@ contract copRight(ru Word, s *Mod, r Node) (c CoP)
//@ props C08
//@ requires parts: wfW(ru) && wfm(s)
//@ ensures connective: wfW(c.RU) && govEq(lvsW(c.RU), append(lvsW(ru), lvm(s)...)) && c.RU.T == ru.T
//@ ensures rest: c.TO0 == nil && c.TO1 == nil && c.Left == nil && c.Right == r

//@ contract foreCoP(con CoP, s *Mod, cop CoP) (r *CoP)
//@ props C08
//@ requires parts: wfW(con.RU) && wfm(s)
//@ ensures connective: r != nil && wfW(r.RU) && govEq(lvsW(r.RU), append(lvsW(con.RU), lvm(s)...)) && r.RU.T == con.RU.T
//@ ensures rest: r.TO0 == con.TO0 && r.TO1 == cop.TO1 && r.Left == cop.Left && r.Right == cop.Right

//@ contract foreCoPLeft(l Node, s *Mod, bar CoP) (r CoP)
//@ props C08
//@ requires parts: wf(l) && !isTop(l) && wfm(s)
//@ ensures left: wf(r.Left) && govEq(lvs(r.Left), append(lvs(l), lvm(s)...)) && govEq(shp(r.Left), shp(l))
//@ ensures rest: r.TO0 == bar.TO0 && r.TO1 == bar.TO1 && r.RU == bar.RU && r.Right == bar.Right

//@ contract foreCoPRight(to Word, s *Mod, r Node) (c CoP)
//@ props C08
//@ requires parts: wfW(to) && wfm(s)
//@ ensures connective: c.TO1 != nil && wf(c.TO1) && govEq(lvs(c.TO1), append(lvsW(to), lvm(s)...)) && c.TO1.T == to.T
//@ ensures rest: c.TO0 == nil && c.Left == nil && c.Right == r

//@ contract connector(to Word, s *Mod, ru Word) (c CoP)
//@ props C08
//@ requires parts: wfW(to) && wfm(s)
//@ ensures forethought: c.TO0 != nil && wf(c.TO0) && govEq(lvs(c.TO0), append(lvsW(to), lvm(s)...)) && c.TO0.T == to.T
//@ ensures rest: c.RU == ru && c.TO1 == nil && c.Left == nil && c.Right == nil

//@ contract miEnd(mi MIPredicate, s *Mod, ga *Word) (r *MIPredicate)
//@ props C08
//@ requires parts: wfW(mi.MI) && isPhrase(mi.Phrase) && wf(mi.Phrase) && wfm(s) && wfOptW(ga)
//@ ensures well-formed: wf(r)
//@ ensures leaves: govEq(lvs(r), append(append(append(lvsW(mi.MI), lvs(mi.Phrase)...), lvm(s)...), lvs(ow(ga))...))
//@ ensures shape: r.MI == mi.MI && r.GA == ga && govEq(shp(r.Phrase), shp(mi.Phrase))

//@ contract poEnd(po POPredicate, s *Mod, ga *Word) (r *POPredicate)
//@ props C08
//@ requires parts: wfW(po.PO) && isArgument(po.Argument) && wf(po.Argument) && wfm(s) && wfOptW(ga)
//@ ensures well-formed: wf(r)
//@ ensures leaves: govEq(lvs(r), append(append(append(lvsW(po.PO), lvs(po.Argument)...), lvm(s)...), lvs(ow(ga))...))
//@ ensures shape: r.PO == po.PO && r.GA == ga && govEq(shp(r.Argument), shp(po.Argument))

//@ contract moEnd(mo MOPredicate, s *Mod, teo Word) (r *MOPredicate)
//@ props C08
//@ requires parts: wfW(mo.MO) && len(mo.Discourse) > 0 && wfDisc(mo.Discourse) && wfm(s) && wfW(teo)
//@ ensures well-formed: wf(r)
//@ ensures leaves: govEq(lvs(r), append(append(append(lvsW(mo.MO), lvsAll(mo.Discourse)...), lvm(s)...), lvsW(teo)...))
//@ ensures shape: r.MO == mo.MO && r.TEO == teo && govEq(shpAll(r.Discourse), shpAll(mo.Discourse))

//@ contract endParen(p Parenthetical, s *Mod, ki Word) (r *Parenthetical)
//@ props C08
//@ requires parts: wfW(p.KIO) && len(p.Discourse) > 0 && wfDisc(p.Discourse) && wfm(s) && wfW(ki)
//@ ensures well-formed: wf(r)
//@ ensures leaves: govEq(lvs(r), append(append(append(lvsW(p.KIO), lvsAll(p.Discourse)...), lvm(s)...), lvsW(ki)...))
//@ ensures shape: r.KIO == p.KIO && r.KI == ki && govEq(shpAll(r.Discourse), shpAll(p.Discourse))

//@ contract (n Terms) Prepend(ts []Term) (r Terms)
//@ props C08 C11
//@ ensures concatenation: govEq([]Term(r), append(append([]Term{}, ts...), n...))
