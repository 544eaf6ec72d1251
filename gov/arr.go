package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func arraySort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

func (c *Ctx) arrayVal(a *Term) Sort {
	s := string(a.sort)
	// "(Array K V)": split the two top-level components.
	d := 0
	for i := 7; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(s[i+1 : len(s)-1])
			}
		}
	}
	panic("bad array sort " + s)
}

func (c *Ctx) ConstArr(s Sort, v *Term) *Term {
	return c.mk(kApp, "(as const "+string(s)+")", s, 0, v)
}

func (c *Ctx) Select(a, k *Term) *Term {
	if len(a.args) == 1 && len(a.op) > 9 && a.op[:9] == "(as const" {
		return a.args[0]
	}
	if a.op == "store" {
		e := c.Eq(a.args[1], k)
		if e.isTrue() {
			return a.args[2]
		}
		if e.isFalse() {
			return c.Select(a.args[0], k)
		}
		return c.Ite(e, a.args[2], c.Select(a.args[0], k))
	}
	if a.op == "ite" {
		return c.Ite(a.args[0], c.Select(a.args[1], k), c.Select(a.args[2], k))
	}
	return c.mk(kApp, "select", c.arrayVal(a), 0, a, k)
}

func (c *Ctx) StoreArr(a, k, v *Term) *Term {
	if a.op == "store" && a.args[1] == k {
		return c.StoreArr(a.args[0], k, v)
	}
	return c.mk(kApp, "store", a.sort, 0, a, k, v)
}

func (ex *Exec) makeMap(st *State, t types.Type) Value {
	mt := t.Underlying().(*types.Map)
	ks, vs := ex.tt.sortOf(mt.Key()), ex.tt.sortOf(mt.Elem())
	o := ex.newObj(st, &Obj{kind: oMap, typ: mt.Elem(), keyT: mt.Key(), fresh: true,
		mapGet: ex.c.ConstArr(arraySort(ks, vs), ex.zeroSort(vs)),
		mapHas: ex.c.ConstArr(arraySort(ks, SBool), ex.c.False)})
	return &MapVal{o.id}
}

// freshMap is a map with unknown content.
func (ex *Exec) freshMap(st *State, t types.Type) Value {
	mt := t.Underlying().(*types.Map)
	ks, vs := ex.tt.sortOf(mt.Key()), ex.tt.sortOf(mt.Elem())
	o := ex.newObj(st, &Obj{kind: oMap, typ: mt.Elem(), keyT: mt.Key(),
		mapGet: ex.c.Fresh("map", arraySort(ks, vs)), mapHas: ex.c.Fresh("mapHas", arraySort(ks, SBool))})
	return &MapVal{o.id}
}

func (ex *Exec) mapUpdate(fr *frame, st *State, in *ssa.MapUpdate) {
	m, ok := ex.get(fr, st, in.Map).(*MapVal)
	if !ok {
		ex.unsupp("update of an untracked map")
	}
	k := ex.term(fr, st, in.Key)
	v := ex.term(fr, st, in.Value)
	o := *st.objs[m.obj]
	o.mapGet = ex.c.StoreArr(o.mapGet, k, v)
	o.mapHas = ex.c.StoreArr(o.mapHas, k, ex.c.True)
	st.objs[m.obj] = &o
}

func (ex *Exec) lookup(fr *frame, st *State, in *ssa.Lookup) Value {
	c := ex.c
	xv := ex.get(fr, st, in.X)
	if isString(in.X.Type()) {
		return ex.byteAt(st, ex.toTerm(st, xv, in.X.Type()), ex.term(fr, st, in.Index), in.Pos())
	}
	mt := in.X.Type().Underlying().(*types.Map)
	k := ex.term(fr, st, in.Index)
	var v Value
	var has *Term
	switch m := xv.(type) {
	case *MapVal:
		o := st.objs[m.obj]
		has = c.Select(o.mapHas, k)
		g := c.Select(o.mapGet, k)
		z := ex.zeroSort(g.sort)
		has = ex.simp(st, has)
		t := c.Ite(has, g, z)
		ex.typeInv(st, t, mt.Elem())
		v = t
	case *ConstMap:
		v, has = ex.constLookup(st, m, k, mt)
	case *Term:
		// A map only reachable as a reference: immutable content.
		ks, vs := ex.tt.sortOf(mt.Key()), ex.tt.sortOf(mt.Elem())
		n := sanitize(string(ks) + "_" + string(vs))
		has = c.And(c.Not(c.Eq(m, c.Null)), c.App("maphas_"+n, SBool, m, k))
		v = c.Ite(has, c.App("mapget_"+n, vs, m, k), ex.zeroSort(vs))
	default:
		ex.unsupp("lookup in %T", xv)
	}
	if in.CommaOk {
		return Tuple{v, has}
	}
	return v
}

func (ex *Exec) nextMap(fr *frame, st *State, in *ssa.Next, it *IterVal) Value {
	ex.unsupp("iteration over a map")
	return nil
}
