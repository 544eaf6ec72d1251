package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A Unit is one verification task: a contract, restricted to one combination
// of dynamic types of its split parameters.
type Unit struct {
	ct    *Contract
	name  string
	recvT types.Type // for interface contracts: the implementing type
	guard bool       // check that the function panics outside its nopanic- preconditions
	split map[string]types.Type
	nils  map[string]bool

	obls    []*Obligation
	inlined []string
	used    []string
	assumed []string
	err     string
	paths   int
	returns int
	secs    float64
	notes   []string
	vacuous bool
}

func tname(t types.Type) string {
	return types.TypeString(t, func(*types.Package) string { return "" })
}

func hasStr(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func (c *Contract) touches(prop string) bool {
	if prop == "" || hasStr(c.Props, prop) {
		return true
	}
	for _, cl := range append(append([]*Clause{}, c.Requires...), c.Ensures...) {
		if hasStr(cl.Props, prop) {
			return true
		}
	}
	return false
}

// units enumerates the tasks for a property.
func (w *World) units(prop string) []*Unit {
	var out []*Unit
	tt := NewTypeTab(NewCtx(), w)
	for _, ct := range w.Contracts {
		if !ct.touches(prop) || ct.Flags["assumed"] {
			continue
		}
		if !ct.IsIface && !ct.Lemma && ct.fn == nil {
			continue
		}
		var bases []*Unit
		if ct.IsIface {
			m := w.Pkgs[ct.Pkg].Members[strings.TrimPrefix(ct.RecvType, "*")]
			st, ok := m.(*ssa.Type)
			if !ok {
				w.Notes = append(w.Notes, "no interface "+ct.RecvType)
				continue
			}
			for _, t := range tt.implTypes(st.Type()) {
				bases = append(bases, &Unit{ct: ct, recvT: t, name: fmt.Sprintf("%s.(%s).%s", ct.Pkg, tname(t), ct.Key[strings.IndexByte(ct.Key, '.')+1:]), split: map[string]types.Type{}, nils: map[string]bool{}})
			}
		} else {
			bases = append(bases, &Unit{ct: ct, name: ct.Pkg + "." + ct.Key, split: map[string]types.Type{}, nils: map[string]bool{}})
		}
		for _, s := range ct.Split {
			var next []*Unit
			var pt types.Type
			for i, n := range ct.Names {
				if n == s {
					pt = w.paramType(ct, i)
				}
			}
			if pt == nil {
				next = bases
			} else {
				for _, b := range bases {
					for _, t := range tt.implTypes(pt) {
						n := *b
						n.split = map[string]types.Type{}
						n.nils = map[string]bool{}
						for k, v := range b.split {
							n.split[k] = v
						}
						for k, v := range b.nils {
							n.nils[k] = v
						}
						n.split[s] = t
						n.name += fmt.Sprintf("[%s=%s]", s, tname(t))
						next = append(next, &n)
					}
					n := *b
					n.split = map[string]types.Type{}
					n.nils = map[string]bool{s: true}
					for k, v := range b.split {
						n.split[k] = v
					}
					for k, v := range b.nils {
						n.nils[k] = v
					}
					n.name += fmt.Sprintf("[%s=nil]", s)
					next = append(next, &n)
				}
			}
			bases = next
		}
		out = append(out, bases...)
		for _, cl := range ct.Requires {
			if !guardClause(cl) {
				continue
			}
			for _, b := range bases {
				n := *b
				n.guard = true
				n.name += "[otherwise panics]"
				out = append(out, &n)
			}
			break
		}
	}
	return out
}

// A contract with the flag logged says what one call of a recursive method
// does in terms of the calls it makes: each is recorded, with a result of
// which nothing is known except what its clauses that are not local say.
// Clauses labelled log… define the record; those labelled local… hold of the
// body that is verified and are not assumed of the calls it makes. What the
// calls do to their receivers is not seen, so the receiver of a call is not
// touched by the caller again.
func logClause(ct *Contract, cl *Clause) bool {
	return (ct.Flags["logged"] || ct.Flags["records"]) && strings.HasPrefix(cl.Label, "log")
}

func localClause(ct *Contract, cl *Clause) bool {
	return (ct.Flags["logged"] || ct.Flags["records"]) && strings.HasPrefix(cl.Label, "local")
}

// setRecords applies the flag records[Cxx]: when Cxx is what is proved, calls
// are recorded as with the flag logged; otherwise the clauses about records
// are left out.
func (w *World) setRecords(prop string) {
	for _, ct := range w.Contracts {
		var ps []string
		for f := range ct.Flags {
			if strings.HasPrefix(f, "records[") {
				ps = strings.Split(strings.TrimSuffix(strings.TrimPrefix(f, "records["), "]"), ",")
			}
		}
		if len(ps) == 0 {
			continue
		}
		if hasStr(ps, prop) {
			w.recording = true
			ct.Flags["records"] = true
			ct.Flags["calls"] = true
			continue
		}
		keep := func(cs []*Clause) (r []*Clause) {
			for _, cl := range cs {
				if !strings.HasPrefix(cl.Label, "log") && !strings.HasPrefix(cl.Label, "local") {
					r = append(r, cl)
				}
			}
			return r
		}
		ct.Ensures = keep(ct.Ensures)
		ct.Invs = keep(ct.Invs)
	}
}

// guardClause: a precondition outside of which the function panics.
func guardClause(cl *Clause) bool { return strings.HasPrefix(cl.Label, "nopanic-") }

func (w *World) paramType(ct *Contract, i int) types.Type {
	if ct.Lemma || ct.fn == nil {
		for _, cl := range append(append([]*Clause{}, ct.Requires...), ct.Ensures...) {
			for _, p := range cl.fn.Params {
				if p.Name() == ct.Names[i] {
					return p.Type()
				}
			}
		}
		return nil
	}
	return ct.fn.Params[i].Type()
}

func (w *World) newExec(unit string, solver *Solver) *Exec {
	c := NewCtx()
	ex := &Exec{
		w: w, c: c, tt: NewTypeTab(c, w), unit: unit, solver: solver,
		unsupported: map[string]bool{}, defs: map[*Term]bool{}, houdini: map[string]bool{},
		inlined: map[string]bool{}, used: map[string]bool{}, assumed: map[string]bool{},
		late: map[string]bool{}, specOps: map[string]*specInfo{}, unfoldErr: map[string]bool{},
		entryGhost: map[string]*Term{}, lemmas: map[string][]*Contract{}, maxPath: 300000,
	}
	// Fixed numbering of dynamic types, whatever the order of use.
	for _, n := range ex.tt.named {
		if _, isI := n.Underlying().(*types.Interface); isI {
			continue
		}
		if strings.HasPrefix(n.Obj().Name(), "gov") {
			continue
		}
		ex.tt.tagOf(types.NewPointer(n))
	}
	c.foldHook = func(c *Ctx, op string, ret Sort, args []*Term) *Term {
		si := ex.specOps[op]
		if si == nil || si.fold == "" {
			return nil
		}
		i := 0
		if si.fold == "foldl" {
			i = 1
		}
		switch args[i].op {
		case "seq.empty", "seq.unit", "seq.++", "ite":
			for _, a := range args {
				if a.hasB {
					return nil
				}
			}
			st := newState()
			ex.spec++
			defer func() { ex.spec-- }()
			return ex.foldApp(si, args, st)
		}
		return nil
	}
	return ex
}

// runUnit verifies a unit: first with the placeholders of invariants standing
// for variables of the same name where there are any, and, if that is not
// enough, for all variables of the right type.
func (w *World) runUnit(u *Unit, solver *Solver) {
	fresh := *u
	if named := w.runUnitOnce(u, solver, true); !named {
		return
	}
	ok := u.err == ""
	for _, o := range u.obls {
		ok = ok && o.Status == "proved"
	}
	if ok || os.Getenv("GOV_ONCE") != "" {
		return
	}
	secs := u.secs
	*u = fresh
	w.runUnitOnce(u, solver, false)
	u.secs += secs
}

func (w *World) runUnitOnce(u *Unit, solver *Solver, byName bool) (named bool) {
	t0 := time.Now()
	ex := w.newExec(u.name, solver)
	ex.byName = byName
	defer func() { named = ex.named }()
	ct := u.ct
	ex.rootC = ct
	ex.guardUnit = u.guard
	defer func() {
		u.secs = time.Since(t0).Seconds()
		u.inlined = sortedKeys(ex.inlined)
		u.used = sortedKeys(ex.used)
		u.assumed = sortedKeys(ex.assumed)
		u.paths = ex.npath
		u.returns = ex.retCount
		for e := range ex.unfoldErr {
			u.notes = append(u.notes, "spec not unfolded: "+e)
		}
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(unsupportedErr); ok {
					u.err = e.msg
					return
				}
				buf := make([]byte, 3000)
				buf = buf[:runtime.Stack(buf, false)]
				u.err = fmt.Sprintf("internal: %v\n%s", r, buf)
			}
		}()
		ex.execUnit(u)
	}()
	u.obls = ex.obls
	// Discharge.
	var qs []*query
	var os []*Obligation
	for _, o := range u.obls {
		if o.Props == nil {
			o.Props = ct.Props
		}
		if o.Status != "" {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					o.Status = "error"
					o.Output = fmt.Sprint(r)
				}
			}()
			q := ex.mkQuery(o.facts, o.lits, o.tags, o.goal)
			q.name = o.Name
			qs = append(qs, q)
			os = append(os, o)
		}()
	}
	rs := solver.RunAll(qs, solver.Timeout)
	for i, r := range rs {
		o := os[i]
		o.Solver, o.Time, o.Output = r.solver, r.secs, r.out
		o.query = qs[i].text
		if o.vacuity {
			if r.status == "unsat" {
				// Excluded by the precondition; judged per contract later.
				o.Status = "proved"
				u.vacuous = true
			} else {
				o.Status = "proved"
			}
			continue
		}
		if r.status == "unsat" {
			o.Status = "proved"
		} else {
			o.Status = "failed"
			if r.status == "sat" {
				o.Status = "failed"
			} else {
				o.Status = "unknown"
			}
		}
	}
	return ex.named
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (ex *Exec) execUnit(u *Unit) {
	ct := u.ct
	w := ex.w
	// Lemmas available: those declared before this one (any, for code).
	for _, lm := range w.Contracts {
		if lm == ct {
			break
		}
		if lm.Lemma {
			ex.addLemma(lm)
		}
	}
	if !ct.Lemma {
		for _, lm := range w.Contracts {
			if lm.Lemma {
				ex.addLemma(lm)
			}
		}
	}
	switch {
	case ct.Flags["renumbers"]:
		w.setNumbers(ex)
	case !ct.Flags["settled"]:
		w.setLateFields(ex)
	}
	st := newState()
	var fn *ssa.Function
	var sig *types.Signature
	switch {
	case ct.IsIface:
		m := ct.Key[strings.IndexByte(ct.Key, '.')+1:]
		fn = w.Prog.LookupMethod(u.recvT, w.Pkgs[ct.Pkg].Pkg, m)
		if fn == nil {
			ex.unsupp("no method %s on %s", m, u.recvT)
		}
		sig = fn.Signature
	case ct.Lemma:
	default:
		fn = ct.fn
		sig = fn.Signature
	}
	ex.root = fn
	// Arguments.
	args := make([]Value, len(ct.Names))
	codeArgs := make([]Value, len(ct.Names))
	for i, n := range ct.Names {
		var t types.Type
		if ct.Lemma {
			t = w.paramType(ct, i)
		} else {
			t = fn.Params[i].Type()
		}
		if ct.IsIface && i == 0 && ct.mutates(n) {
			codeArgs[i] = ex.paramObj(st, n, u.recvT)
			args[i] = &IfaceVal{u.recvT, codeArgs[i]}
			continue
		}
		if ct.IsIface && i == 0 {
			ref := ex.c.Fresh("recv", SRef)
			if _, ok := u.recvT.Underlying().(*types.Pointer); !ok {
				v := ex.freshTerm(st, "recv", u.recvT)
				codeArgs[i] = v
				args[i] = ex.ifaceTerm(st, &IfaceVal{u.recvT, v})
				continue
			}
			args[i] = ex.c.Iptr(ex.c.Int(ex.tt.tagOf(u.recvT)), ref)
			codeArgs[i] = ref
			ex.assume(st, ex.c.Not(ex.c.Eq(ref, ex.c.Null)))
			continue
		}
		if u.nils[n] {
			args[i] = ex.c.Inil
			codeArgs[i] = args[i]
			continue
		}
		if dt, ok := u.split[n]; ok {
			if _, isPtr := dt.Underlying().(*types.Pointer); isPtr {
				ref := ex.c.Fresh(n, SRef)
				args[i] = ex.c.Iptr(ex.c.Int(ex.tt.tagOf(dt)), ref)
			} else {
				args[i] = ex.ifaceTerm(st, &IfaceVal{dt, ex.freshTerm(st, n, dt)})
			}
			codeArgs[i] = args[i]
			continue
		}
		if ct.mutates(n) {
			args[i] = ex.paramObj(st, n, t)
		} else {
			args[i] = ex.freshTerm(st, n, t)
		}
		codeArgs[i] = args[i]
	}
	if len(ex.tt.volF) > 0 {
		st.ghost["vol"] = ex.c.Fresh("vol", SInt)
	}
	if ct.Flags["traces"] {
		tr := ex.c.Fresh("trace", SeqOf(ex.eventSort()))
		st.ghost["trace"] = tr
		ex.entryGhost["trace"] = tr
	}
	if ct.Flags["calls"] || w.recording {
		for _, g := range []string{"calls", "subs"} {
			tr := ex.c.Fresh(g, SeqOf(SIface))
			st.ghost[g] = tr
			ex.entryGhost[g] = tr
		}
	}
	olds := make([]Value, len(args))
	for i, n := range ct.Names {
		if ct.mutates(n) {
			olds[i] = ex.snapshot(st, args[i])
		}
	}
	shapes := make([]string, len(args))
	for i, n := range ct.Names {
		if ct.mutates(n) {
			shapes[i] = ex.ptrShape(st, args[i])
		}
	}
	// Preconditions.
	for _, cl := range ct.Requires {
		if u.guard && guardClause(cl) {
			continue
		}
		ex.assume(st, ex.evalClause(cl, clauseArgs(ct, args, olds), st))
	}
	ex.obls = append(ex.obls, &Obligation{Name: ex.unit + "/precondition-satisfiable", Kind: "vacuity", Unit: ex.unit, vacuity: true,
		facts: st.facts[:len(st.facts):len(st.facts)], lits: copyLits(st.lits), tags: copyTags(st.tags), goal: ex.c.False})
	if ct.Lemma {
		if a, ok := args[0].(*Term); ok {
			ex.inductArg = a
			if a.op == "iptr" {
				ex.inductArg = a.args[1]
			}
		}
		ex.addLemma(ct)
		for _, cl := range ct.Ensures {
			g := ex.evalClause(cl, clauseArgs(ct, args, olds), st)
			ex.oblige(st, "lemma", "ensures "+cl.Label, ex.propsOf(cl), g, 0)
		}
		return
	}
	ex.curInvs = ct.Invs
	ex.curArgs = clauseArgs(ct, args, olds)
	st0 := st
	ex.callRoot(fn, codeArgs, st0, func(st *State, rs []Value) {
		ex.retCount++
		if sig.Results().Len() > 1 {
			if len(rs) == 1 {
				if t, ok := rs[0].(Tuple); ok {
					rs = t
				}
			}
		}
		stillOpen := map[int]bool{}
		for i, r := range rs {
			stillOpen[i] = ex.openArg(st, r)
			t := sig.Results().At(i).Type()
			switch r := r.(type) {
			case *LocalPtr:
				if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
					if o := st.objs[r.obj]; ct.Flags["fresh"] && o.fresh && !o.pub && len(r.path) == 0 && r.idx == nil {
						continue
					}
					rs[i] = ex.toTerm(st, r, t)
				}
			case *IfaceVal:
				if _, isPtr := r.val.(*LocalPtr); isPtr {
					rs[i] = ex.toTerm(st, r, t)
				}
			}
		}
		if ct.Flags["fresh"] {
			for i, r := range rs {
				if _, ok := r.(*LocalPtr); !ok {
					if _, isPtr := sig.Results().At(i).Type().Underlying().(*types.Pointer); isPtr {
						ex.oblige(st, "frame", "result is new", nil, ex.c.False, fn.Pos())
					}
				}
			}
		}
		ex.publishLate(st)
		for _, o := range ct.Open {
			parts := strings.SplitN(o, ".", 2)
			for i, n := range ct.RNames {
				if n == parts[0] && !stillOpen[i] {
					ex.oblige(st, "frame", o+" is still open", nil, ex.c.False, fn.Pos())
				}
			}
		}
		// Callers keep the pointers that a mutable parameter's fields held.
		for i, n := range ct.Names {
			if ct.mutates(n) && !(ct.Flags["logged"] && ct.IsIface && i == 0) && ex.ptrShape(st, args[i]) != shapes[i] {
				ex.oblige(st, "frame", "fields of "+n+" refer to the same objects", nil, ex.c.False, fn.Pos())
			}
		}
		if u.guard {
			for _, cl := range ct.Requires {
				if guardClause(cl) {
					g := ex.evalClause(cl, clauseArgs(ct, args, olds), st)
					ex.oblige(st, "postcondition", "returns only if "+cl.Label, ex.propsOf(cl), g, fn.Pos())
				}
			}
			return
		}
		for _, cl := range ct.Ensures {
			if logClause(ct, cl) {
				// It says what a call is recorded as, by its caller.
				continue
			}
			g := ex.evalClause(cl, append(clauseArgs(ct, args, olds), rs...), st)
			ex.oblige(st, "postcondition", "ensures "+cl.Label, ex.propsOf(cl), g, fn.Pos())
		}
	})
	if ex.retCount == 0 && !ct.Flags["noreturn"] {
		u.notes = append(u.notes, "no path returns")
	}
}

func (ex *Exec) propsOf(cl *Clause) []string {
	if len(cl.Props) > 0 {
		return cl.Props
	}
	return nil
}

// callRoot runs the body of the unit's function (not its contract).
func (ex *Exec) callRoot(fn *ssa.Function, args []Value, st *State, k contFn) {
	ex.runFunc(fn, args, nil, st, nil, k)
}

func (ex *Exec) addLemma(lm *Contract) {
	for _, x := range ex.lemmas["*"] {
		if x == lm {
			return
		}
	}
	ex.lemmas["*"] = append(ex.lemmas["*"], lm)
	pkg := ex.w.Pkgs[lm.Pkg]
	for _, n := range strings.Fields(lm.Spec) {
		f := pkg.Func(n)
		if f == nil {
			continue
		}
		if si := ex.w.specFns[f]; si != nil {
			op := specOp(si)
			ex.lemmas[op] = append(ex.lemmas[op], lm)
		}
	}
}

// paramObj makes a tracked object for a mutable parameter.
func (ex *Exec) paramObj(st *State, name string, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		o := ex.newObj(st, &Obj{kind: oBuilder, typ: t, seq: ex.c.Fresh(name, SStr), canFail: ex.c.Fresh(name+"_canFail", SBool), param: true})
		return &IfaceVal{typ: t, val: &LocalPtr{obj: o.id}}
	case *types.Pointer:
		if isNamed(u.Elem(), "strings", "Builder") {
			o := ex.newObj(st, &Obj{kind: oBuilder, typ: t, seq: ex.c.Fresh(name, SStr), param: true})
			return &LocalPtr{obj: o.id}
		}
		o := ex.newObj(st, &Obj{kind: oCell, typ: u.Elem(), param: true})
		n := *o
		n.val = ex.paramVal(st, name, u.Elem())
		n.ref = ex.c.Fresh(name, SRef)
		st.objs[o.id] = &n
		ex.assume(st, ex.c.Not(ex.c.Eq(n.ref, ex.c.Null)))
		return &LocalPtr{obj: o.id}
	case *types.Slice:
		z := ex.tt.sortOf(u.Elem())
		o := ex.newObj(st, &Obj{kind: oArray, typ: u.Elem(), seq: ex.c.Fresh(name, SeqOf(z)), param: true})
		return &LSlice{obj: o.id, off: ex.c.Int(0), len: ex.c.Len(o.seq), elem: u.Elem()}
	case *types.Map:
		return ex.freshMap(st, t)
	}
	ex.unsupp("mutable parameter of type %s", t)
	return nil
}

func (ex *Exec) paramVal(st *State, name string, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isOpaqueStruct(t) {
			break
		}
		fs := make([]Value, u.NumFields())
		for i := range fs {
			fs[i] = ex.paramVal(st, name+"_"+u.Field(i).Name(), u.Field(i).Type())
		}
		return &StructVal{typ: u, fields: fs}
	case *types.Map:
		return ex.freshMap(st, t)
	case *types.Pointer:
		// Parts that a mutable value owns.
		if _, ok := u.Elem().Underlying().(*types.Struct); ok && ex.rootC != nil && ex.rootC.Flags["owns"] {
			return ex.paramObj(st, name, t)
		}
	case *types.Slice:
		if ex.rootC != nil && ex.rootC.Flags["logged"] {
			return ex.paramObj(st, name, t)
		}
	case *types.Interface:
		if isNamed(t, "io", "Writer") {
			return ex.paramObj(st, name, t)
		}
	}
	return ex.freshTerm(st, name, t)
}

// setNumbers declares the numbers of variables to be written in place.
func (w *World) setNumbers(ex *Exec) {
	for _, name := range []string{"Binding", "Variable"} {
		if m, ok := w.Pkgs["logic"].Members[name].(*ssa.Type); ok {
			if n, ok := m.Type().(*types.Named); ok {
				if _, ok := n.Underlying().(*types.Struct); ok {
					ex.tt.setVolatile(n, []string{"N"})
				}
			}
		}
	}
}

// setLateFields declares fields assigned after a value is first shared.
func (w *World) setLateFields(ex *Exec) {
	p := w.Pkgs["logic"]
	if p == nil {
		return
	}
	if m, ok := p.Members["Binding"].(*ssa.Type); ok {
		if n, ok := m.Type().(*types.Named); ok {
			if _, ok := n.Underlying().(*types.Struct); ok {
				ex.tt.setLate(n, []string{"Quantifier", "Restriction", "Scope"}, []string{"Scope"})
				ex.tt.setSettling(n, []string{"N"})
				ex.tt.setVolatile(n, []string{"Focus"})
			}
		}
	}
	if m, ok := p.Members["Variable"].(*ssa.Type); ok {
		if n, ok := m.Type().(*types.Named); ok {
			if _, ok := n.Underlying().(*types.Struct); ok {
				ex.tt.setVolatile(n, []string{"N", "Def"})
			}
		}
	}
}

// runUnits verifies units in parallel.
func (w *World) runUnits(us []*Unit, solver *Solver, par int) {
	ch := make(chan *Unit)
	var wg sync.WaitGroup
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for u := range ch {
				w.runUnit(u, solver)
			}
		}()
	}
	for _, u := range us {
		ch <- u
	}
	close(ch)
	wg.Wait()
}

// ptrShape describes which tracked objects a value's fields refer to.
func (ex *Exec) ptrShape(st *State, v Value) string {
	switch v := v.(type) {
	case *LocalPtr:
		o := st.objs[v.obj]
		if o == nil || o.kind != oCell {
			return fmt.Sprintf("*%d", v.obj)
		}
		return fmt.Sprintf("*%d(%s)", v.obj, ex.ptrShape(st, o.val))
	case *MapVal:
		// A map in a field of a mutable value is held by that value only.
		return "m"
	case *IfaceVal:
		return ex.ptrShape(st, v.val)
	case *StructVal:
		s := ""
		for _, f := range v.fields {
			s += ex.ptrShape(st, f) + ","
		}
		return s
	}
	return "-"
}
