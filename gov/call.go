package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) doCall(fr *frame, com *ssa.CallCommon, in ssa.Instruction, st *State, k contFn) {
	c := ex.c
	if b, ok := com.Value.(*ssa.Builtin); ok {
		ex.builtin(fr, b, com, in, st, k)
		return
	}
	var args []Value
	for _, a := range com.Args {
		args = append(args, ex.get(fr, st, a))
	}
	if com.IsInvoke() {
		recv := ex.get(fr, st, com.Value)
		if ex.invokeModel(fr, com, recv, args, in, st, k) {
			return
		}
		if ct := ex.ifaceContract(com); ct != nil {
			rt := recv
			if tv, ok := recv.(*Term); ok {
				ex.oblige(st, "nopanic", "nil-interface-call "+com.Method.Name(), nil, c.Not(c.IsNilIface(tv)), in.Pos())
			}
			ex.applyContract(ct, com.Method.Type().(*types.Signature), append([]Value{rt}, args...), in, st, k)
			return
		}
		switch r := recv.(type) {
		case *IfaceVal:
			fn := ex.w.Prog.LookupMethod(r.typ, com.Method.Pkg(), com.Method.Name())
			ex.callStatic(fr, fn, append([]Value{r.val}, args...), nil, in, st, k)
			return
		case *Term:
			r = ex.narrow(st, r)
			var tag int64 = -2
			if r.op == "iptr" && r.args[0].isInt() {
				tag = r.args[0].ival
			} else if kk, ok := st.tags[r]; ok {
				tag = kk
			}
			if t, ok := ex.tt.tagType[tag]; ok {
				fn := ex.w.Prog.LookupMethod(t, com.Method.Pkg(), com.Method.Name())
				var rv Value = c.IRef(r)
				if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
					rv = ex.unbox(t, c.IRef(r))
				}
				ex.callStatic(fr, fn, append([]Value{rv}, args...), nil, in, st, k)
				return
			}
			// Closed interface without a contract: fork over the implementations.
			if tags := ex.tt.implTags(com.Value.Type()); tags != nil {
				ex.oblige(st, "nopanic", "nil-interface-call "+com.Method.Name(), nil, c.Not(c.IsNilIface(r)), in.Pos())
				for _, tg := range tags {
					s1 := st.clone()
					cond := ex.simp(s1, c.HasTag(r, tg))
					if cond.isFalse() {
						continue
					}
					s1.conds = append(s1.conds, cond)
					ex.assume(s1, cond)
					s1.tags[r] = tg
					ex.doCall(fr.clone(), com, in, s1, k)
				}
				return
			}
		}
		ex.unsupp("invoke %s.%s on %T", com.Value.Type(), com.Method.Name(), recv)
	}
	switch f := com.Value.(type) {
	case *ssa.Function:
		ex.callStatic(fr, f, args, nil, in, st, k)
		return
	}
	fv := ex.get(fr, st, com.Value)
	if cl, ok := fv.(*Closure); ok {
		ex.callStatic(fr, cl.fn, args, cl.bind, in, st, k)
		return
	}
	if ex.callbackModel(fr, com, fv, args, in, st, k) {
		return
	}
	ex.unsupp("call through %T", fv)
}

func (ex *Exec) ifaceContract(com *ssa.CallCommon) *Contract {
	name := com.Method.Name()
	for key, ct := range ex.w.byIface {
		i := strings.LastIndexByte(key, '.')
		if key[i+1:] != name {
			continue
		}
		// The method object must belong to the contract's interface.
		pkg := ex.w.Pkgs[ct.Pkg]
		tn, ok := pkg.Members[strings.TrimPrefix(ct.RecvType, "*")].(*ssa.Type)
		if !ok {
			continue
		}
		it, ok := tn.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for j := 0; j < it.NumMethods(); j++ {
			m := it.Method(j)
			if m == com.Method {
				return ct
			}
			if m.Name() == name && m.Pkg() == com.Method.Pkg() && types.Identical(m.Type(), com.Method.Type()) {
				// Same method reached through another interface.
				if types.Implements(com.Value.Type(), it) {
					return ct
				}
			}
		}
	}
	return nil
}

// loggedMethod is the interface contract, with the flag logged, of a method.
func (ex *Exec) loggedMethod(fn *ssa.Function) *Contract {
	rv := fn.Signature.Recv()
	if rv == nil || ex.spec > 0 {
		return nil
	}
	for key, ct := range ex.w.byIface {
		if !ct.Flags["logged"] || key[strings.LastIndexByte(key, '.')+1:] != fn.Name() {
			continue
		}
		tn, ok := ex.w.Pkgs[ct.Pkg].Members[strings.TrimPrefix(ct.RecvType, "*")].(*ssa.Type)
		if !ok {
			continue
		}
		if it, ok := tn.Type().Underlying().(*types.Interface); ok && types.Implements(rv.Type(), it) {
			return ct
		}
	}
	return nil
}

func (ex *Exec) inModule(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		return strings.HasPrefix(fn.Object().Pkg().Path(), ex.w.Mod)
	}
	if p == nil && fn.Parent() != nil {
		return ex.inModule(fn.Parent())
	}
	if p == nil {
		// Wrappers and bound methods.
		return fn.Synthetic != "" && len(fn.Blocks) > 0
	}
	return strings.HasPrefix(p.Pkg.Path(), ex.w.Mod)
}

func fullName(fn *ssa.Function) string {
	if o, ok := fn.Object().(*types.Func); ok {
		return o.FullName()
	}
	return fn.String()
}

func (ex *Exec) callStatic(fr *frame, fn *ssa.Function, args []Value, bind []Value, in ssa.Instruction, st *State, k contFn) {
	if si, ok := ex.w.specFns[fn]; ok && !si.lemma {
		r := ex.specCall(si, args, st)
		k(st, r)
		return
	}
	if fn.Parent() != nil && ex.spec > 0 {
		ex.runFunc(fn, args, bind, st, fr, k)
		return
	}
	if ct, ok := ex.w.byFn[fn]; ok && !ct.Flags["inline"] {
		if ct.Flags["inline-open"] && ex.openArg(st, args[0]) {
			ex.runFunc(fn, args, bind, st, fr, k)
			return
		}
		ex.applyContract(ct, fn.Signature, args, in, st, k)
		return
	}
	if ct := ex.loggedMethod(fn); ct != nil {
		as := append([]Value{}, args...)
		as[0] = &IfaceVal{fn.Signature.Recv().Type(), args[0]}
		ex.applyContract(ct, fn.Signature, as, in, st, k)
		return
	}
	if ex.model(fr, fn, args, in, st, k) {
		return
	}
	if ex.inModule(fn) && len(fn.Blocks) > 0 {
		// Inline, refusing recursion.
		n := 0
		for f := fr; f != nil; f = f.parent {
			if f.fn == fn {
				n++
			}
		}
		if n > 0 && ex.spec == 0 {
			ex.unsupp("recursive function %s has no contract", fn)
		}
		if ex.spec == 0 {
			ex.inlined[fn.String()] = true
		}
		ex.runFunc(fn, args, bind, st, fr, k)
		return
	}
	ex.unsupp("call to unmodelled function %s", fullName(fn))
}

// openArg: the pointer is nil or has an assigned-once field still open.
func (ex *Exec) openArg(st *State, v Value) bool {
	switch v := v.(type) {
	case *LocalPtr:
		o := st.objs[v.obj]
		if o == nil || o.kind != oCell || len(v.path) > 0 {
			return false
		}
		s, ok := o.typ.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < s.NumFields(); i++ {
			if ex.tt.isOpen(s, i) {
				t, ok := ex.fieldOf(st, o.val, s, i).(*Term)
				return ok && (t.op == "inil" || t.op == "null")
			}
		}
	case *Term:
		if v.op == "null" {
			return true
		}
		for l := range st.lits {
			if l.op == "open_late" && l.args[0].args[0] == v {
				return true
			}
		}
	}
	return false
}

// clauseArgs interleaves old values for mutated parameters.
func clauseArgs(ct *Contract, args, olds []Value) []Value {
	var out []Value
	for i, n := range ct.Names {
		if n == "_" {
			continue
		}
		out = append(out, args[i])
		if ct.mutates(n) {
			out = append(out, olds[i])
		}
	}
	return out
}

// snapshot copies the tracked objects reachable from v so v's old state can be read later.
func (ex *Exec) snapshot(st *State, v Value) Value {
	memo := map[int]int{}
	return ex.snap(st, v, memo)
}

func (ex *Exec) snap(st *State, v Value, memo map[int]int) Value {
	switch v := v.(type) {
	case *LocalPtr:
		id, ok := memo[v.obj]
		if !ok {
			o := *st.objs[v.obj]
			o.param = false
			o.pub = true
			n := ex.newObj(st, &o)
			id = n.id
			memo[v.obj] = id
			nn := *n
			nn.val = ex.snap(st, o.val, memo)
			if nn.ref == nil {
				ex.c.fresh++
				nn.ref = ex.c.App(fmt.Sprintf("old!%d", ex.c.fresh), SRef)
			}
			st.objs[id] = &nn
		}
		return &LocalPtr{obj: id, idx: v.idx, path: v.path}
	case *MapVal:
		id, ok := memo[v.obj]
		if !ok {
			o := *st.objs[v.obj]
			n := ex.newObj(st, &o)
			id = n.id
			memo[v.obj] = id
		}
		return &MapVal{id}
	case *LSlice:
		id, ok := memo[v.obj]
		if !ok {
			o := *st.objs[v.obj]
			o.param = false
			n := ex.newObj(st, &o)
			id = n.id
			memo[v.obj] = id
		}
		n := *v
		n.obj = id
		return &n
	case *IfaceVal:
		return &IfaceVal{v.typ, ex.snap(st, v.val, memo)}
	case *StructVal:
		fs := make([]Value, len(v.fields))
		for i := range fs {
			fs[i] = ex.snap(st, v.fields[i], memo)
		}
		return &StructVal{v.typ, fs}
	}
	return v
}

// reachable lists tracked objects reachable from a value.
func (ex *Exec) reachable(st *State, v Value, out map[int]bool) {
	switch v := v.(type) {
	case *LocalPtr:
		if out[v.obj] {
			return
		}
		out[v.obj] = true
		if o := st.objs[v.obj]; o != nil {
			ex.reachable(st, o.val, out)
		}
	case *MapVal:
		out[v.obj] = true
	case *IfaceVal:
		ex.reachable(st, v.val, out)
	case *StructVal:
		for _, f := range v.fields {
			ex.reachable(st, f, out)
		}
	case *LSlice:
		out[v.obj] = true
	case *Closure:
		for _, b := range v.bind {
			ex.reachable(st, b, out)
		}
	}
}

func (ex *Exec) applyContract(ct *Contract, sig *types.Signature, args []Value, in ssa.Instruction, st *State, k contFn) {
	ex.used[ct.Pkg+"."+ct.Key] = true
	if ex.spec > 0 {
		ex.unsupp("specification calls contracted code %s", ct.Key)
	}
	if ct.Flags["settled"] && ex.rootC != nil && !ex.rootC.Flags["settled"] {
		ex.unsupp("%s is specified for finished trees only", ct.Key)
	}
	given := append([]Value{}, args...)
	olds := make([]Value, len(args))
	for i, n := range ct.Names {
		if ct.mutates(n) {
			olds[i] = ex.snapshot(st, args[i])
		}
	}
	for i, n := range ct.Names {
		if !ct.mutates(n) {
			// Passing a tracked pointer to a function that only reads: share it.
			if _, isL := args[i].(*LocalPtr); isL {
				args[i] = ex.toTerm(st, args[i], nil)
			}
		}
	}
	// The contract speaks of an object this function may change as it is now.
	said := append([]Value{}, args...)
	for i, a := range given {
		if l, ok := a.(*LocalPtr); ok && st.objs[l.obj] != nil && st.objs[l.obj].param {
			said[i] = a
		}
	}
	for i, cl := range ct.Requires {
		g := ex.evalClause(cl, clauseArgs(ct, said, said), st)
		_ = i
		if guardClause(cl) && ex.partial() {
			// Proved elsewhere: the callee returns only if this holds.
			ex.assume(st, g)
			continue
		}
		ex.oblige(st, "precondition", fmt.Sprintf("call %s requires %s", ct.Key, cl.Label), cl.Props, g, in.Pos())
	}
	for p := range st.once {
		st.stale[p] = true
	}
	volBefore := st.ghost["vol"]
	if len(ct.Mutates) > 0 || ct.Flags["calls"] || ct.Flags["traces"] {
		ex.newVol(st)
	}
	if ex.readsSettling(ct.fn, map[*ssa.Function]bool{}) {
		st.reads++
	}
	for i, n := range ct.Names {
		if ct.mutates(n) {
			r := map[int]bool{}
			ex.reachable(st, args[i], r)
			for id := range r {
				if o := st.objs[id]; o != nil {
					if ct.Flags["logged"] && ct.IsIface && i == 0 {
						n := *o
						n.sealed = true
						st.objs[id] = &n
						continue
					}
					st.objs[id] = ex.havocObj(st, o, true)
				}
			}
		}
	}
	var oldTrace, oldCalls, oldSubs *Term
	if ct.Flags["traces"] {
		oldTrace = st.ghost["trace"]
		if oldTrace == nil {
			ex.unsupp("call of %s outside a traced function", ct.Key)
		}
		st.ghost["trace"] = ex.c.Fresh("trace", oldTrace.sort)
	}
	if ct.Flags["calls"] {
		oldCalls = st.ghost["calls"]
		if oldCalls == nil {
			ex.unsupp("call of %s outside a traced function", ct.Key)
		}
		st.ghost["calls"] = ex.c.Fresh("calls", oldCalls.sort)
		oldSubs = st.ghost["subs"]
		st.ghost["subs"] = ex.c.Fresh("subs", oldSubs.sort)
	}
	var rs []Value
	for i := 0; i < sig.Results().Len(); i++ {
		if _, isPtr := sig.Results().At(i).Type().Underlying().(*types.Pointer); isPtr && ct.Flags["fresh"] {
			rs = append(rs, ex.paramObj(st, ct.Key[strings.LastIndexByte(ct.Key, '.')+1:], sig.Results().At(i).Type()))
			continue
		}
		rs = append(rs, ex.freshTerm(st, ct.Key[strings.LastIndexByte(ct.Key, '.')+1:], sig.Results().At(i).Type()))
	}
	for _, o := range ct.Open {
		// result name . field
		parts := strings.SplitN(o, ".", 2)
		for i, n := range ct.RNames {
			if n != parts[0] {
				continue
			}
			pt, ok := sig.Results().At(i).Type().Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			s := pt.Elem().Underlying().(*types.Struct)
			for j := 0; j < s.NumFields(); j++ {
				if s.Field(j).Name() == parts[1] {
					st.lits[ex.openLit(ex.fieldRef(rs[i].(*Term), s, j))] = true
				}
			}
		}
	}
	saveTrace, saveCalls, saveSubs := ex.entryGhost["trace"], ex.entryGhost["calls"], ex.entryGhost["subs"]
	if oldTrace != nil {
		ex.entryGhost["trace"] = oldTrace
	}
	if oldCalls != nil {
		ex.entryGhost["calls"] = oldCalls
		ex.entryGhost["subs"] = oldSubs
	}
	for _, cl := range ct.Ensures {
		if localClause(ct, cl) {
			continue
		}
		volAfter := st.ghost["vol"]
		if ct.Flags["records"] && logClause(ct, cl) && volBefore != nil {
			// What is recorded is as it was when the call was made.
			st.ghost["vol"] = volBefore
		}
		g := ex.evalClause(cl, append(clauseArgs(ct, said, olds), rs...), st)
		if volAfter != nil {
			st.ghost["vol"] = volAfter
		}
		ex.assume(st, g)
	}
	ex.entryGhost["trace"], ex.entryGhost["calls"], ex.entryGhost["subs"] = saveTrace, saveCalls, saveSubs
	if ct.Flags["noreturn"] {
		return
	}
	k(st, rs)
}

func (ex *Exec) builtin(fr *frame, b *ssa.Builtin, com *ssa.CallCommon, in ssa.Instruction, st *State, k contFn) {
	c := ex.c
	arg := func(i int) Value { return ex.get(fr, st, com.Args[i]) }
	switch b.Name() {
	case "len":
		t := com.Args[0].Type()
		switch t.Underlying().(type) {
		case *types.Slice:
			k(st, []Value{ex.sliceLen(st, arg(0))})
			return
		case *types.Basic:
			k(st, []Value{ex.byteLen(st, ex.toTerm(st, arg(0), t))})
			return
		case *types.Map:
			m, ok := arg(0).(*MapVal)
			if !ok {
				// A map only reachable as a reference: immutable content.
				n := c.App("maplen_ref", SInt, ex.toTerm(st, arg(0), t))
				k(st, []Value{c.Ite(c.Le(c.Int(0), n), n, c.Int(0))})
				return
			}
			has := st.objs[m.obj].mapHas
			n := c.App("maplen_"+sanitize(string(has.sort)), SInt, has)
			k(st, []Value{c.Ite(c.Eq(has, c.ConstArr(has.sort, c.False)), c.Int(0), c.Ite(c.Le(c.Int(1), n), n, c.Int(1)))})
			return
		}
		if p, ok := arg(0).(*LocalPtr); ok {
			k(st, []Value{c.Len(st.objs[p.obj].seq)})
			return
		}
	case "delete":
		m, ok := ex.get(fr, st, com.Args[0]).(*MapVal)
		if !ok {
			ex.unsupp("delete from an untracked map")
		}
		o := *st.objs[m.obj]
		o.mapHas = c.StoreArr(o.mapHas, ex.toTerm(st, arg(1), com.Args[1].Type()), c.False)
		st.objs[m.obj] = &o
		k(st, nil)
		return
	case "append":
		x, y := arg(0), arg(1)
		el := com.Args[0].Type().Underlying().(*types.Slice).Elem()
		if isString(com.Args[1].Type()) {
			ex.unsupp("append string")
		}
		sx, sy := ex.sliceSeq(st, x), ex.sliceSeq(st, y)
		seq := c.Concat(sx.sort, sx, sy)
		ly := c.Len(sy)
		if xt, ok := x.(*Term); ok && ex.spec == 0 && !c.Lt(c.Int(0), ly).isTrue() && !c.IsNilSlice(xt).isFalse() && !ex.simp(st, c.Eq(c.Len(sx), c.Int(0))).isFalse() {
			k(st, []Value{c.MkSlice(c.And(c.IsNilSlice(xt), c.Eq(ly, c.Int(0))), seq)})
			return
		}
		o := ex.newObj(st, &Obj{kind: oArray, typ: el, seq: seq, fresh: true})
		k(st, []Value{&LSlice{obj: o.id, off: c.Int(0), len: c.Len(seq), elem: el}})
		return
	case "copy":
		dst, ok := arg(0).(*LSlice)
		if !ok {
			// Copying into foreign memory is a frame violation unless nothing is copied.
			ex.oblige(st, "frame", "copy-to-foreign-memory", nil, c.False, in.Pos())
			return
		}
		src := ex.sliceSeq(st, arg(1))
		ls := c.Len(src)
		n := c.Ite(c.Le(ls, dst.len), ls, dst.len)
		o := *st.objs[dst.obj]
		if o.pub {
			ex.oblige(st, "frame", "write-after-share", nil, c.False, in.Pos())
		}
		total := c.Len(o.seq)
		if c.Le(ls, dst.len).isTrue() || c.Le(dst.len, ls).isTrue() {
			o.seq = c.Concat(o.seq.sort, c.Extract(o.seq, c.Int(0), dst.off), c.Extract(src, c.Int(0), n),
				c.Extract(o.seq, c.Add(dst.off, n), c.Sub(c.Sub(total, dst.off), n)))
			st.objs[dst.obj] = &o
			k(st, []Value{n})
			return
		}
		// Fork on which is shorter.
		s1 := st.clone()
		c1 := c.Le(ls, dst.len)
		ex.assume(s1, c1)
		o1 := o
		o1.seq = c.Concat(o.seq.sort, c.Extract(o.seq, c.Int(0), dst.off), src,
			c.Extract(o.seq, c.Add(dst.off, ls), c.Sub(c.Sub(total, dst.off), ls)))
		s1.objs[dst.obj] = &o1
		k(s1, []Value{ls})
		ex.assume(st, c.Not(c1))
		o2 := o
		o2.seq = c.Concat(o.seq.sort, c.Extract(o.seq, c.Int(0), dst.off), c.Extract(src, c.Int(0), dst.len),
			c.Extract(o.seq, c.Add(dst.off, dst.len), c.Sub(c.Sub(total, dst.off), dst.len)))
		st.objs[dst.obj] = &o2
		k(st, []Value{dst.len})
		return
	case "ssa:wrapnilchk":
		v := arg(0)
		if tv, ok := v.(*Term); ok {
			ex.oblige(st, "nopanic", "nil-receiver", nil, c.Not(c.Eq(tv, c.Null)), in.Pos())
		}
		k(st, []Value{v})
		return
	case "recover":
		k(st, []Value{c.Inil})
		return
	}
	ex.unsupp("builtin %s", b.Name())
}

// readsSettling: might a call of fn read (or write) a settling field?
func (ex *Exec) readsSettling(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if len(ex.tt.setF) == 0 {
		return false
	}
	if fn == nil {
		return true
	}
	if seen[fn] {
		return false
	}
	seen[fn] = true
	if !ex.inModule(fn) {
		return false
	}
	is := func(t types.Type) (*types.Struct, bool) {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return nil, false
		}
		s, ok := p.Elem().Underlying().(*types.Struct)
		return s, ok
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.FieldAddr:
				if s, ok := is(in.X.Type()); ok && ex.tt.isSettling(s, in.Field) {
					return true
				}
			case *ssa.UnOp:
				if s, ok := is(in.X.Type()); ok && in.Op == token.MUL {
					for i := 0; i < s.NumFields(); i++ {
						if ex.tt.isSettling(s, i) {
							return true
						}
					}
				}
			case ssa.CallInstruction:
				com := in.Common()
				if _, ok := com.Value.(*ssa.Builtin); ok {
					continue
				}
				if f := com.StaticCallee(); f == nil || ex.readsSettling(f, seen) {
					return true
				}
			}
		}
	}
	return false
}
