package main

import (
	"fmt"
	"go/types"
	"strings"
)

// specCall evaluates a call of a specification function.
func (ex *Exec) specCall(si *specInfo, args []Value, st *State) []Value {
	if r, ok := ex.intrinsic(si, args, st); ok {
		return r
	}
	if si.fold != "" || (si.recursive && !si.inline) || si.opaque || si.opaqueOutside && ex.root != nil && ex.root.Pkg != si.fn.Pkg {
		return []Value{ex.specApp(si, args, st)}
	}
	return ex.evalSpec(si, args, st)
}

func (ex *Exec) specArgTerm(v Value, t types.Type, st *State) *Term {
	tv := ex.toTerm(st, v, t)
	if _, ok := t.Underlying().(*types.Slice); ok {
		return ex.c.SeqOfSlice(tv)
	}
	return tv
}

func specSort(tt *TypeTab, t types.Type) Sort {
	if u, ok := t.Underlying().(*types.Slice); ok {
		return SeqOf(tt.sortOf(u.Elem()))
	}
	return tt.sortOf(t)
}

func (ex *Exec) wrapSpec(t *Term, gt types.Type) Value {
	if _, ok := gt.Underlying().(*types.Slice); ok {
		return ex.c.MkSlice(ex.c.False, t)
	}
	return t
}

func specOp(si *specInfo) string {
	return "f_" + sanitize(si.fn.Pkg.Pkg.Name()+"."+si.fn.Name())
}

func (ex *Exec) specApp(si *specInfo, args []Value, st *State) Value {
	fn := si.fn
	ex.registerSpec(si)
	var ts []*Term
	for i, p := range fn.Params {
		ts = append(ts, ex.specArgTerm(args[i], p.Type(), st))
	}
	rt := fn.Signature.Results().At(0).Type()
	if si.fold != "" {
		return ex.wrapSpec(ex.foldApp(si, ts, st), rt)
	}
	return ex.wrapSpec(ex.specTerm(si, ts, st), rt)
}

// specTerm applies a recursive spec function, distributing it over
// conditional arguments it dispatches on.
func (ex *Exec) specTerm(si *specInfo, ts []*Term, st *State) *Term {
	if si.dispatch != "" {
		for i, p := range si.fn.Params {
			if p.Name() != si.dispatch {
				continue
			}
			a := ex.narrow(st, ts[i])
			ts[i] = a
			if a.op == "ite" {
				x, y := append([]*Term{}, ts...), append([]*Term{}, ts...)
				x[i], y[i] = a.args[1], a.args[2]
				return ex.c.Ite(a.args[0], ex.specTerm(si, x, st), ex.specTerm(si, y, st))
			}
		}
	}
	rt := si.fn.Signature.Results().At(0).Type()
	t := ex.c.App(specOp(si), specSort(ex.tt, rt), ts...)
	if t.sort == SIface {
		ex.typeInv(st, t, rt)
	}
	return t
}

func (ex *Exec) registerSpec(si *specInfo) { ex.specOps[specOp(si)] = si }

// foldApp builds (and simplifies) a fold over a sequence.
//
//	fold  : F(s, x...)      = concatenation of elem(e, x...) for e in s
//	foldand: F(s, x...)     = conjunction of elem(e, x...)
//	foldl : F(acc, s, x...) = elem(...elem(acc, s0, x...)..., sn, x...)
func (ex *Exec) foldApp(si *specInfo, ts []*Term, st *State) *Term {
	c := ex.c
	rt := si.fn.Signature.Results().At(0).Type()
	ret := specSort(ex.tt, rt)
	elem := ex.foldElem(si)
	call := func(args []*Term) *Term {
		var vs []Value
		for i, p := range elem.fn.Params {
			vs = append(vs, ex.wrapSpec(args[i], p.Type()))
		}
		r := ex.specCall(elem, vs, st)[0]
		return ex.specArgTerm(r, elem.fn.Signature.Results().At(0).Type(), st)
	}
	si0 := 0
	if si.fold == "foldl" {
		si0 = 1
	}
	s := ts[si0]
	if s.op == "ite" {
		a := append([]*Term{}, ts...)
		b := append([]*Term{}, ts...)
		a[si0], b[si0] = s.args[1], s.args[2]
		return c.Ite(s.args[0], ex.foldApp(si, a, st), ex.foldApp(si, b, st))
	}
	if si.fold == "foldl" {
		acc := ts[0]
		for _, p := range seqParts(s) {
			if p.op == "seq.unit" {
				acc = call(append([]*Term{acc, p.args[0]}, ts[2:]...))
			} else if p.op == "ite" {
				a := append([]*Term{acc, p}, ts[2:]...)
				acc = ex.foldApp(si, a, st)
			} else {
				acc = c.App(specOp(si), ret, append([]*Term{acc, p}, ts[2:]...)...)
			}
		}
		return acc
	}
	var parts []*Term
	for _, p := range seqParts(s) {
		if p.op == "seq.unit" {
			parts = append(parts, call(append([]*Term{p.args[0]}, ts[1:]...)))
		} else if p.op == "ite" {
			parts = append(parts, ex.foldApp(si, append([]*Term{p}, ts[1:]...), st))
		} else {
			parts = append(parts, c.App(specOp(si), ret, append([]*Term{p}, ts[1:]...)...))
		}
	}
	if si.fold == "foldand" {
		return c.And(parts...)
	}
	return c.Concat(ret, parts...)
}

func (ex *Exec) foldElem(si *specInfo) *specInfo {
	if si.elem != nil {
		return si.elem
	}
	f := si.fn.Pkg.Func(si.elemName)
	if f == nil {
		ex.unsupp("fold %s: no element function %s", si.fn.Name(), si.elemName)
	}
	si.elem = ex.w.specFns[f]
	if si.elem == nil {
		ex.unsupp("fold %s: element function %s is not a spec function", si.fn.Name(), si.elemName)
	}
	return si.elem
}

// evalSpec symbolically evaluates the body of a pure function, merging its paths.
func (ex *Exec) evalSpec(si *specInfo, args []Value, st *State) []Value {
	return ex.evalPure(func(base *State, k contFn) { ex.runFunc(si.fn, args, nil, base, nil, k) }, si.fn.Signature, st, si.fn.Name())
}

func (ex *Exec) evalPure(run func(base *State, k contFn), sig *types.Signature, st *State, name string) []Value {
	base := st.clone()
	base.conds = nil
	base.trail = nil
	ex.spec++
	saveSink := ex.factSink
	var sink []*Term
	ex.factSink = &sink
	type res struct {
		cond *Term
		vals []Value
	}
	var rs []res
	func() {
		defer func() {
			ex.spec--
			ex.factSink = saveSink
		}()
		run(base, func(s *State, vals []Value) {
			out := make([]Value, len(vals))
			for i, v := range vals {
				switch v := v.(type) {
				case *LSlice:
					out[i] = ex.toTerm(s, v, nil)
				case *StructVal:
					out[i] = ex.toTerm(s, v, nil)
				default:
					out[i] = v
				}
			}
			rs = append(rs, res{ex.c.And(s.conds...), out})
		})
	}()
	for _, f := range sink {
		ex.factOnce(st, f)
	}
	if len(rs) == 0 {
		ex.unsupp("specification %s has no result", name)
	}
	n := len(rs[0].vals)
	out := make([]Value, n)
	for i := 0; i < n; i++ {
		out[i] = rs[len(rs)-1].vals[i]
		for j := len(rs) - 2; j >= 0; j-- {
			if sameValue(out[i], rs[j].vals[i]) {
				continue
			}
			t := sig.Results().At(i).Type()
			a, b := ex.toTerm(st, rs[j].vals[i], t), ex.toTerm(st, out[i], t)
			out[i] = ex.c.Ite(rs[j].cond, a, b)
		}
	}
	return out
}

func (ex *Exec) evalClause(cl *Clause, args []Value, st *State) *Term {
	si := &specInfo{fn: cl.fn}
	if len(args) != len(cl.fn.Params) {
		ex.unsupp("clause %s: %d args, want %d", cl.Src, len(args), len(cl.fn.Params))
	}
	r := ex.evalSpec(si, args, st)
	return ex.simp(st, r[0].(*Term))
}

// evalClosureOn evaluates a pure closure on argument terms.
func (ex *Exec) evalClosureOn(cl *Closure, args []Value, st *State) *Term {
	r := ex.evalPure(func(base *State, k contFn) { ex.runFunc(cl.fn, args, cl.bind, base, nil, k) }, cl.fn.Signature, st, cl.fn.Name())
	return ex.toTerm(st, r[0], cl.fn.Signature.Results().At(0).Type())
}

// intrinsic handles specification built-ins, recognised by name.
func (ex *Exec) intrinsic(si *specInfo, args []Value, st *State) ([]Value, bool) {
	c := ex.c
	switch si.fn.Name() {
	case "govEq":
		// Structural equality of two values of the same type.
		return []Value{ex.specEq(st, args[0], args[1])}, true
	case "govForall":
		lo, hi := ex.toTerm(st, args[0], nil), ex.toTerm(st, args[1], nil)
		cl, ok := args[2].(*Closure)
		if !ok {
			ex.unsupp("govForall needs a function literal")
		}
		ex.nbound++
		bv := c.Bound(ex.nbound, SInt)
		body := ex.evalClosureOn(cl, []Value{bv}, st)
		if lo.isInt() && hi.isInt() && hi.ival-lo.ival <= 12 {
			var cs []*Term
			for i := lo.ival; i < hi.ival; i++ {
				cs = append(cs, c.Subst(body, map[*Term]*Term{bv: c.Int(i)}))
			}
			return []Value{c.And(cs...)}, true
		}
		return []Value{c.Forall([]*Term{bv}, c.Implies(c.And(c.Le(lo, bv), c.Lt(bv, hi)), body))}, true
	case "govWritten", "govWrittenW":
		// Content written so far to a writer or builder.
		return []Value{ex.writtenTo(st, args[0])}, true
	case "govClosed":
		// Whether a body has been closed.
		g := st.ghost["closed"]
		if g == nil {
			return []Value{c.False}, true
		}
		return []Value{c.Select(g, ex.toTerm(st, args[0], si.fn.Params[0].Type()))}, true
	case "govTrace":
		t := st.ghost["trace"]
		return []Value{c.MkSlice(c.False, t)}, true
	case "govFirstNil":
		return []Value{c.App("first_nil", SInt, ex.specArgTerm(args[0], si.fn.Params[0].Type(), st))}, true
	case "govCalls":
		return []Value{c.MkSlice(c.False, st.ghost["calls"])}, true
	case "govOldCalls":
		return []Value{c.MkSlice(c.False, ex.entryGhost["calls"])}, true
	case "govSubs":
		return []Value{c.MkSlice(c.False, st.ghost["subs"])}, true
	case "govOldSubs":
		return []Value{c.MkSlice(c.False, ex.entryGhost["subs"])}, true
	case "govOldTrace":
		return []Value{c.MkSlice(c.False, ex.entryGhost["trace"])}, true
	case "govNilPtr":
		// an interface holding a nil pointer
		tv := ex.narrow(st, ex.toTerm(st, args[0], si.fn.Params[0].Type()))
		if k, ok := ex.knownTag(st, tv); ok {
			if k < 1 || k >= 1000 {
				return []Value{c.False}, true
			}
			return []Value{ex.simp(st, c.Eq(c.IRef(tv), c.Null))}, true
		}
		return []Value{c.And(c.Le(c.Int(1), c.Tag(tv)), c.Lt(c.Tag(tv), c.Int(1000)), c.Eq(c.IRef(tv), c.Null))}, true
	case "govIsNil":
		// nil-ness of an interface, pointer or slice value
		iv, ok := args[0].(*IfaceVal)
		if !ok {
			t := args[0].(*Term)
			return []Value{c.Or(c.IsNilIface(t), c.And(c.Le(c.Int(1), c.Tag(t)), c.Lt(c.Tag(t), c.Int(1000)), c.Eq(c.IRef(t), c.Null)))}, true
		}
		switch v := iv.val.(type) {
		case *Term:
			if v.sort == SRef {
				return []Value{c.Eq(v, c.Null)}, true
			}
			if _, ok := c.sliceEl[v.sort]; ok {
				return []Value{c.IsNilSlice(v)}, true
			}
		}
		return []Value{c.False}, true
	case "govTag":
		tv := ex.narrow(st, ex.toTerm(st, args[0], nil))
		if k, ok := ex.knownTag(st, tv); ok {
			return []Value{c.Int(k)}, true
		}
		return []Value{c.Tag(tv)}, true
	case "govRunes":
		// Number of code points of a string.
		return []Value{c.Len(ex.toTerm(st, args[0], types.Typ[types.String]))}, true
	case "govRune":
		// The k-th code point of a string.
		return []Value{c.Nth(ex.toTerm(st, args[0], types.Typ[types.String]), ex.toTerm(st, args[1], nil))}, true
	case "govPrefix":
		// The first k code points of a string.
		return []Value{c.Extract(ex.toTerm(st, args[0], types.Typ[types.String]), c.Int(0), ex.toTerm(st, args[1], nil))}, true
	case "govDrop":
		// A string without its first k code points.
		s, k := ex.toTerm(st, args[0], types.Typ[types.String]), ex.toTerm(st, args[1], nil)
		return []Value{c.Extract(s, k, c.Sub(c.Len(s), k))}, true
	case "govCanFail":
		return []Value{ex.canFail(st, args[0])}, true
	}
	if strings.HasPrefix(si.fn.Name(), "govUF_") {
		// An uninterpreted function of its arguments.
		var ts []*Term
		for i, p := range si.fn.Params {
			ts = append(ts, ex.specArgTerm(args[i], p.Type(), st))
		}
		rt := si.fn.Signature.Results().At(0).Type()
		t := c.App(specOp(si), specSort(ex.tt, rt), ts...)
		if t.sort == SIface {
			ex.typeInv(st, t, rt)
		}
		return []Value{ex.wrapSpec(t, rt)}, true
	}
	if strings.HasPrefix(si.fn.Name(), "govAs") {
		// Identity conversions between slices of interfaces.
		return []Value{args[0]}, true
	}
	return nil, false
}

func (ex *Exec) specEq(st *State, a, b Value) *Term {
	ia, ok1 := a.(*IfaceVal)
	ib, ok2 := b.(*IfaceVal)
	if ok1 && ok2 {
		if ma, ok := ia.val.(*MapVal); ok {
			if mb, ok := ib.val.(*MapVal); ok {
				oa, ob := st.objs[ma.obj], st.objs[mb.obj]
				return ex.c.And(ex.c.Eq(oa.mapGet, ob.mapGet), ex.c.Eq(oa.mapHas, ob.mapHas))
			}
		}
		if _, ok := ia.typ.Underlying().(*types.Slice); ok {
			return ex.c.Eq(ex.sliceSeq(st, ia.val), ex.sliceSeq(st, ib.val))
		}
		if !types.Identical(ia.typ, ib.typ) && ex.tt.sortOf(ia.typ) != ex.tt.sortOf(ib.typ) {
			ex.unsupp("govEq on %s and %s", ia.typ, ib.typ)
		}
		return ex.c.Eq(ex.toTerm(st, ia.val, ia.typ), ex.toTerm(st, ib.val, ib.typ))
	}
	return ex.c.Eq(ex.toTerm(st, a, nil), ex.toTerm(st, b, nil))
}

// unfold gives the definition of a recursive spec application, or nil.
func (ex *Exec) unfold(app *Term, lits map[*Term]bool, tags map[*Term]int64) (def *Term, extra []*Term) {
	si := ex.specOps[app.op]
	if si == nil || si.fold != "" {
		return nil, nil
	}
	if strings.HasPrefix(si.fn.Name(), "govUF_") || si.opaqueOutside {
		return nil, nil
	}
	st := newState()
	st.lits, st.tags = map[*Term]bool{}, map[*Term]int64{}
	for k, v := range lits {
		st.lits[k] = v
	}
	for k, v := range tags {
		st.tags[k] = v
	}
	if si.dispatch != "" {
		known := false
		for i, p := range si.fn.Params {
			if p.Name() == si.dispatch {
				a := app.args[i]
				if a.op == "iptr" && a.args[0].isInt() || a.op == "inil" {
					known = true
				}
				if _, ok := tags[a]; ok {
					known = true
				}
			}
		}
		if !known {
			return nil, nil
		}
	}
	var args []Value
	for i, p := range si.fn.Params {
		args = append(args, ex.wrapSpec(app.args[i], p.Type()))
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				if debugExec {
					fmt.Println("unfold:", app.op, u.msg)
				}
				ex.unfoldErr[si.fn.Name()+": "+u.msg] = true
				def = nil
				return
			}
			panic(r)
		}
	}()
	n0 := len(st.facts)
	r := ex.evalSpec(si, args, st)
	t := ex.specArgTerm(r[0], si.fn.Signature.Results().At(0).Type(), st)
	return ex.c.Eq(app, t), st.facts[n0:]
}
