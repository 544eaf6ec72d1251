package main

import (
	"go/types"
	"reflect"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// libModels lists every library function given an assumed contract.
var libModels = map[string]string{
	"reflect.ValueOf":                          "wraps an interface value",
	"(reflect.Value).Kind":                     "kind of the dynamic type",
	"(reflect.Value).IsNil":                    "nil pointer or slice",
	"(reflect.Value).IsValid":                  "interface value is not nil",
	"(reflect.Value).Elem":                     "dereferences a pointer",
	"(reflect.Value).Interface":                "the wrapped value",
	"fmt.Sprintf":                              "some string (only used in panic messages)",
	"fmt.Errorf":                               "some non-nil error",
	"errors.New":                               "some non-nil error",
	"github.com/eaburns/peggy/peg.SimpleError": "some error value",
	"io.WriteString":                           "appends to the writer, or fails if the writer can fail",
	"(*strings.Builder).WriteRune":             "appends a code point, never fails",
	"(*strings.Builder).WriteString":           "appends a string, never fails",
	"(*strings.Builder).String":                "the accumulated text",
	"strings.ContainsRune":                     "membership of a code point",
	"sort.Ints":                                "the same numbers in ascending order",
	"strings.IndexAny":                         "byte offset of the first member",
	"strings.IndexRune":                        "byte offset of the first occurrence",
	"strings.ToLower":                          "uninterpreted, agrees with Go on literals",
	"strings.ToUpper":                          "uninterpreted, agrees with Go on literals",
	"strings.TrimSpace":                        "uninterpreted, agrees with Go on literals",
	"strconv.Itoa":                             "uninterpreted, agrees with Go on literals",
	"unicode/utf8.DecodeRuneInString":          "first code point and its width (valid UTF-8)",
	"unicode/utf8.RuneLen":                     "width of a code point",
	"unicode.ToLower":                          "uninterpreted, agrees with Go on literals, ASCII and table letters",
	"unicode.ToUpper":                          "uninterpreted, agrees with Go on literals",
	"unicode.IsLetter":                         "uninterpreted, agrees with Go on literals",
	"unicode.IsSpace":                          "uninterpreted, agrees with Go on literals",
	"strings.NewReader":                        "some non-nil reader that depends only on the text",
	"net/http.Post":                            "an error or a non-nil reply with a body, which depend only on the arguments",
	"encoding/json.NewDecoder":                 "reads the given reader",
	"(*encoding/json.Decoder).Decode":          "an error or a value for every field, which depend only on the reader and the keys and types of the fields",
	"(io.Closer).Close":                        "closes the reader",
}

func (ex *Exec) model(fr *frame, fn *ssa.Function, args []Value, in ssa.Instruction, st *State, k contFn) bool {
	if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), ex.w.Mod) {
		return false
	}
	c := ex.c
	name := fullName(fn)
	str := func(i int) *Term { return ex.narrow(st, ex.toTerm(st, args[i], types.Typ[types.String])) }
	one := func(v Value) bool { k(st, []Value{v}); return true }
	if _, ok := libModels[name]; ok {
		if ex.spec == 0 {
			ex.assumed[name] = true
		}
	}
	switch name {
	case "reflect.ValueOf":
		return one(&RV{iface: args[0], valid: true})
	case "(reflect.Value).Kind":
		return one(ex.rvKind(st, args[0].(*RV)))
	case "(reflect.Value).IsValid":
		rv := args[0].(*RV)
		if t, ok := rv.iface.(*Term); ok {
			return one(ex.simp(st, c.Not(c.IsNilIface(t))))
		}
		return one(c.True)
	case "(reflect.Value).IsNil":
		return one(ex.rvIsNil(st, args[0].(*RV), in))
	case "(reflect.Value).Interface":
		return one(args[0].(*RV).iface)
	case "(reflect.Value).Elem":
		if t, isT := args[0].(*RV).iface.(*Term); isT {
			if k, ok := ex.knownTag(st, ex.narrow(st, t)); !ok || k <= 0 {
				// Only reached with a pointer to a node; excluded by precondition.
				ex.oblige(st, "nopanic", "reflect-Elem-of-unknown-type", nil, c.False, in.Pos())
				return true
			}
		}
		return one(ex.rvElem(st, args[0].(*RV), in))
	case "fmt.Sprintf", "fmt.Sprint":
		return one(c.Fresh("sprintf", SStr))
	case "github.com/eaburns/peggy/peg.SimpleError":
		return one(ex.freshTerm(st, "simple", fn.Signature.Results().At(0).Type()))
	case "fmt.Errorf", "errors.New":
		e := c.Fresh("err", SIface)
		ex.assume(st, c.Not(c.IsNilIface(e)))
		return one(e)
	case "io.WriteString":
		ex.writeTo(st, args[0], str(1), k)
		return true
	case "(*strings.Builder).WriteRune":
		ex.writeTo(st, args[0], c.Unit(ex.toTerm(st, args[1], nil)), k)
		return true
	case "(*strings.Builder).WriteString":
		ex.writeTo(st, args[0], str(1), k)
		return true
	case "(*strings.Builder).WriteByte":
		b := ex.toTerm(st, args[1], nil)
		ex.oblige(st, "nopanic", "ascii-byte", nil, c.And(c.Le(c.Int(0), b), c.Lt(b, c.Int(128))), in.Pos())
		ex.writeTo(st, args[0], c.Unit(b), func(st *State, vs []Value) { k(st, vs[1:]) })
		return true
	case "(*strings.Builder).Len":
		return one(c.Blen(ex.writtenTo(st, args[0])))
	case "(*strings.Builder).Grow", "(*strings.Builder).Reset":
		if strings.HasSuffix(name, "Reset") {
			p := args[0].(*LocalPtr)
			o := *st.objs[p.obj]
			o.seq = c.Empty(SStr)
			st.objs[p.obj] = &o
		}
		k(st, nil)
		return true
	case "(*strings.Builder).String":
		return one(ex.writtenTo(st, args[0]))
	case "sort.Ints":
		l, ok := args[0].(*LSlice)
		if !ok {
			ex.unsupp("sorting a list that is not new")
		}
		o := *st.objs[l.obj]
		if l.off != c.Int(0) || l.len != c.Len(o.seq) {
			ex.unsupp("sorting a part of a list")
		}
		s := c.App("sorted", o.seq.sort, o.seq)
		c.lens[s] = c.Len(o.seq)
		ex.nbound++
		bv := c.Bound(ex.nbound, SInt)
		ex.assume(st, c.Forall([]*Term{bv}, c.Implies(c.And(c.Le(c.Int(0), bv), c.Lt(c.Add(bv, c.Int(1)), c.Len(o.seq))),
			c.Le(c.Nth(s, bv), c.Nth(s, c.Add(bv, c.Int(1)))))))
		o.seq = s
		st.objs[l.obj] = &o
		k(st, nil)
		return true
	case "strings.ContainsRune":
		return one(ex.simp(st, ex.containsRune(str(0), ex.toTerm(st, args[1], nil))))
	case "strings.IndexAny":
		ex.indexAny(st, str(0), str(1), k)
		return true
	case "strings.IndexRune":
		ex.indexAny(st, str(0), c.Unit(ex.toTerm(st, args[1], nil)), k)
		return true
	case "strings.ContainsAny":
		ex.indexAny(st, str(0), str(1), func(st *State, vs []Value) {
			k(st, []Value{c.Le(c.Int(0), vs[0].(*Term))})
		})
		return true
	case "strings.ToLower":
		return one(ex.strFn(st, "lower", str(0), strings.ToLower))
	case "strings.ToUpper":
		return one(ex.strFn(st, "upper", str(0), strings.ToUpper))
	case "strings.TrimSpace":
		return one(ex.strFn(st, "trimspace", str(0), strings.TrimSpace))
	case "strconv.Itoa":
		i := ex.toTerm(st, args[0], nil)
		return one(c.App("itoa", SStr, i))
	case "strings.NewReader":
		r := c.App("f_dict.govUF_readerOf", SRef, str(0))
		ex.assume(st, c.Not(c.Eq(r, c.Null)))
		return one(r)
	case "net/http.Post":
		ex.httpPost(fn, args, st, k)
		return true
	case "encoding/json.NewDecoder":
		r := c.App("jsonDecoder", SRef, ex.toTerm(st, args[0], fn.Signature.Params().At(0).Type()))
		ex.assume(st, c.Not(c.Eq(r, c.Null)))
		return one(r)
	case "(*encoding/json.Decoder).Decode":
		ex.jsonDecode(args, st, k)
		return true
	case "unicode/utf8.DecodeRuneInString":
		ex.decodeRune(st, str(0), k)
		return true
	case "unicode/utf8.RuneLen":
		return one(c.Rlen(ex.toTerm(st, args[0], nil)))
	case "unicode/utf8.RuneCountInString":
		return one(c.Len(str(0)))
	case "unicode.ToLower":
		return one(ex.runeFn(st, "rlower", ex.toTerm(st, args[0], nil), func(r rune) int64 { return int64(unicode.ToLower(r)) }))
	case "unicode.ToUpper":
		return one(ex.runeFn(st, "rupper", ex.toTerm(st, args[0], nil), func(r rune) int64 { return int64(unicode.ToUpper(r)) }))
	case "unicode.IsLetter":
		return one(ex.runePred("isletter", ex.toTerm(st, args[0], nil), unicode.IsLetter))
	case "unicode.IsSpace":
		return one(ex.runePred("isspace", ex.toTerm(st, args[0], nil), unicode.IsSpace))
	}
	return false
}

func (ex *Exec) strFn(st *State, name string, s *Term, f func(string) string) Value {
	if l, ok := litString(s); ok {
		return ex.c.StrLit(f(l))
	}
	return ex.c.App("str_"+name, SStr, s)
}

func (ex *Exec) runeFn(st *State, name string, r *Term, f func(rune) int64) *Term {
	if r.isInt() {
		return ex.c.Int(f(rune(r.ival)))
	}
	if r.op == "ite" {
		return ex.c.Ite(r.args[0], ex.runeFn(st, name, r.args[1], f), ex.runeFn(st, name, r.args[2], f))
	}
	return ex.c.App(name, SInt, r)
}

func (ex *Exec) runePred(name string, r *Term, f func(rune) bool) *Term {
	if r.isInt() {
		return ex.c.Bool(f(rune(r.ival)))
	}
	return ex.c.App(name, SBool, r)
}

// ---- reflect ----

// kinds by tag group: reflect.Kind numbers.
var groupKind = []int64{22 /*Ptr*/, 23 /*Slice*/, 24 /*String*/, 2 /*Int*/, 25 /*Struct*/, 19 /*Func*/}

func kindOf(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	case *types.Signature:
		return 19
	case *types.Map:
		return 21
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return 24
		}
		return 2
	}
	return 0
}

func (ex *Exec) knownTag(st *State, t *Term) (int64, bool) {
	if t.op == "iptr" && t.args[0].isInt() {
		return t.args[0].ival, true
	}
	if t.op == "inil" {
		return -1, true
	}
	k, ok := st.tags[t]
	return k, ok
}

func (ex *Exec) rvKind(st *State, rv *RV) Value {
	c := ex.c
	if iv, ok := rv.iface.(*IfaceVal); ok {
		return c.Int(kindOf(iv.typ))
	}
	t := ex.narrow(st, rv.iface.(*Term))
	if k, ok := ex.knownTag(st, t); ok {
		if k == -1 {
			return c.Int(0)
		}
		return c.Int(kindOf(ex.tt.tagType[k]))
	}
	tag := c.Tag(t)
	r := c.Int(0)
	for g := len(groupKind) - 1; g >= 0; g-- {
		in := c.And(c.Le(c.Int(int64(g)*1000), tag), c.Lt(tag, c.Int(int64(g+1)*1000)))
		r = c.Ite(in, c.Int(groupKind[g]), r)
	}
	return c.Ite(c.IsNilIface(t), c.Int(0), r)
}

func (ex *Exec) rvIsNil(st *State, rv *RV, in ssa.Instruction) Value {
	c := ex.c
	if iv, ok := rv.iface.(*IfaceVal); ok {
		switch v := iv.val.(type) {
		case *Term:
			switch iv.typ.Underlying().(type) {
			case *types.Pointer:
				return c.Eq(v, c.Null)
			case *types.Slice:
				return c.IsNilSlice(v)
			}
			ex.oblige(st, "nopanic", "reflect-IsNil-kind", nil, c.False, in.Pos())
			return c.False
		}
		return c.False
	}
	t := ex.narrow(st, rv.iface.(*Term))
	if k, ok := ex.knownTag(st, t); ok && k > 0 {
		ty := ex.tt.tagType[k]
		switch ty.Underlying().(type) {
		case *types.Pointer:
			return ex.simp(st, c.Eq(c.IRef(t), c.Null))
		case *types.Slice:
			v := ex.unbox(ty, c.IRef(t))
			return ex.simp(st, c.IsNilSlice(v))
		}
		ex.oblige(st, "nopanic", "reflect-IsNil-kind", nil, c.False, in.Pos())
		return c.False
	}
	tag := c.Tag(t)
	ex.oblige(st, "nopanic", "reflect-IsNil-kind", nil, c.And(c.Not(c.IsNilIface(t)), c.Le(c.Int(1), tag), c.Lt(tag, c.Int(2000))), in.Pos())
	r := c.Eq(c.IRef(t), c.Null)
	for k, ty := range ex.tt.tagType {
		if k >= 1000 && k < 2000 {
			v := ex.unbox(ty, c.IRef(t))
			r = c.Ite(c.HasTag(t, k), c.IsNilSlice(v), r)
		}
	}
	return r
}

func (ex *Exec) rvElem(st *State, rv *RV, in ssa.Instruction) Value {
	var p Value
	var ty types.Type
	if iv, ok := rv.iface.(*IfaceVal); ok {
		p, ty = iv.val, iv.typ
	} else {
		t := ex.narrow(st, rv.iface.(*Term))
		k, ok := ex.knownTag(st, t)
		if !ok || k <= 0 {
			ex.unsupp("reflect Elem of unknown dynamic type")
		}
		p, ty = ex.c.IRef(t), ex.tt.tagType[k]
	}
	pt, ok := ty.Underlying().(*types.Pointer)
	if !ok {
		ex.unsupp("reflect Elem of %s", ty)
	}
	v := ex.load(st, p, pt.Elem(), in.Pos())
	if _, isI := pt.Elem().Underlying().(*types.Interface); isI {
		return &RV{iface: v, valid: true}
	}
	return &RV{iface: ex.makeIface(st, v, pt.Elem()), valid: true}
}

// ---- writers ----

func (ex *Exec) writerObj(st *State, w Value) (*Obj, int) {
	if iv, ok := w.(*IfaceVal); ok {
		w = iv.val
	}
	p, ok := w.(*LocalPtr)
	if !ok {
		ex.unsupp("writer %T", w)
	}
	o := st.objs[p.obj]
	if o.kind == oCell && len(p.path) > 0 {
		// Builder embedded in a tracked struct.
		ex.unsupp("embedded writer")
	}
	if o.kind != oBuilder {
		ex.unsupp("writer object kind %d", o.kind)
	}
	return o, p.obj
}

func (ex *Exec) writtenTo(st *State, w Value) *Term {
	o, _ := ex.writerObj(st, w)
	return o.seq
}

func (ex *Exec) canFail(st *State, w Value) *Term {
	o, _ := ex.writerObj(st, w)
	if o.canFail == nil {
		return ex.c.False
	}
	return o.canFail
}

func (ex *Exec) writeTo(st *State, w Value, s *Term, k contFn) {
	c := ex.c
	o, id := ex.writerObj(st, w)
	ok := func(st *State) {
		n := *st.objs[id]
		n.seq = c.Concat(SStr, n.seq, s)
		st.objs[id] = &n
		k(st, []Value{c.Blen(s), c.Inil})
	}
	if o.canFail == nil {
		ok(st)
		return
	}
	fails := c.Fresh("writeFails", SBool)
	ex.fork(st, c.And(o.canFail, fails), func(st *State) {
		n := *st.objs[id]
		n.seq = c.Fresh("out", SStr)
		st.objs[id] = &n
		e := c.Fresh("err", SIface)
		ex.assume(st, c.Not(c.IsNilIface(e)))
		k(st, []Value{c.Fresh("n", SInt), e})
	}, ok)
}

// ---- interface calls into client code ----

func (ex *Exec) invokeModel(fr *frame, com *ssa.CallCommon, recv Value, args []Value, in ssa.Instruction, st *State, k contFn) bool {
	name := com.Method.Name()
	t := com.Value.Type()
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Visitor" && name == "Visit" {
		// A client visitor: record the call, return an arbitrary visitor
		// that may depend on everything observed so far.
		rv, ok := recv.(*Term)
		if !ok {
			return false
		}
		c := ex.c
		ex.oblige(st, "nopanic", "nil-visitor", nil, c.Not(c.IsNilIface(rv)), in.Pos())
		nd := ex.toTerm(st, args[0], com.Method.Type().(*types.Signature).Params().At(0).Type())
		tr := st.ghost["trace"]
		if tr == nil {
			ex.unsupp("visitor call outside a traced function")
		}
		ev := ex.mkEvent(rv, nd)
		r := c.App("f_ast.govUF_ret", SIface, tr, rv, nd)
		st.ghost["trace"] = c.Concat(tr.sort, tr, c.Unit(ev))
		ex.assumed["ast.Visitor.Visit"] = true
		k(st, []Value{r})
		return true
	}
	if name == "Close" && com.Method.Type().(*types.Signature).Params().Len() == 0 {
		rv, ok := recv.(*Term)
		if !ok {
			return false
		}
		ex.oblige(st, "nopanic", "nil-interface-call Close", nil, ex.c.Not(ex.c.IsNilIface(rv)), in.Pos())
		g := st.ghost["closed"]
		if g == nil {
			g = ex.c.ConstArr(arraySort(SIface, SBool), ex.c.False)
		}
		st.ghost["closed"] = ex.c.StoreArr(g, rv, ex.c.True)
		ex.assumed["(io.Closer).Close"] = true
		e := ex.c.Fresh("err", SIface)
		k(st, []Value{e})
		return true
	}
	if name == "Error" && types.Identical(t, types.Universe.Lookup("error").Type()) {
		k(st, []Value{ex.c.Fresh("errtext", SStr)})
		return true
	}
	return false
}

// mkEvent pairs a visitor and a node.
func (ex *Exec) mkEvent(v, n *Term) *Term { return ex.c.MkStruct(ex.eventSort(), v, n) }

func (ex *Exec) eventSort() Sort {
	m, ok := ex.w.Pkgs["ast"].Members["govEvent"].(*ssa.Type)
	if !ok {
		ex.unsupp("no govEvent type")
	}
	return ex.tt.sortOf(m.Type())
}

func (ex *Exec) callbackModel(fr *frame, com *ssa.CallCommon, fv Value, args []Value, in ssa.Instruction, st *State, k contFn) bool {
	// A function-typed parameter of unknown value: record the call.
	f, ok := fv.(*Term)
	if !ok {
		return false
	}
	sig := com.Signature()
	if sig.Params().Len() != 1 || sig.Results().Len() != 0 {
		return false
	}
	tr := st.ghost["calls"]
	if tr == nil {
		return false
	}
	_ = f
	a := ex.toTerm(st, args[0], sig.Params().At(0).Type())
	st.ghost["calls"] = ex.c.Concat(tr.sort, tr, ex.c.Unit(a))
	ex.newVol(st)
	st.reads++
	k(st, nil)
	return true
}

// httpPost: an error, or a reply with a body; the same for the same arguments.
// A second post in the same call may give another answer.
func (ex *Exec) httpPost(fn *ssa.Function, args []Value, st *State, k contFn) {
	c := ex.c
	ps := fn.Signature.Params()
	var as []*Term
	for i, a := range args {
		as = append(as, ex.toTerm(st, a, ps.At(i).Type()))
	}
	if n := st.ghost["posts"]; n != nil {
		as = append(as, n)
		st.ghost["posts"] = c.Add(n, c.Int(1))
	} else {
		st.ghost["posts"] = c.Int(2)
	}
	sfx := ""
	if len(as) > len(args) {
		sfx = "_again"
	}
	e := c.App("f_dict.govUF_postErr"+sfx, SIface, as...)
	r := c.App("f_dict.govUF_reply"+sfx, SRef, as...)
	bt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
	bs := bt.Underlying().(*types.Struct)
	ex.fork(st, c.IsNilIface(e), func(st *State) {
		ex.assume(st, c.Not(c.Eq(r, c.Null)))
		for i := 0; i < bs.NumFields(); i++ {
			if bs.Field(i).Name() == "Body" {
				b := ex.ld(st, ex.fieldRef(r, bs, i), bs.Field(i).Type())
				ex.assume(st, c.Not(c.IsNilIface(b)))
			}
		}
		k(st, []Value{r, e})
	}, func(st *State) { k(st, []Value{r, e}) })
}

// jsonKeys describes what decoding into a type reads: keys, types and, for
// nested types, the fields the keys go to. Pointers read as what they point to.
func jsonKeys(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return jsonKeys(u.Elem())
	case *types.Slice:
		return "list" + jsonKeys(u.Elem())
	case *types.Struct:
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Exported() {
				fs = append(fs, f.Name()+"_"+jsonKey(u, i)+"_"+jsonKeys(f.Type()))
			}
		}
		sort.Strings(fs)
		return "_" + strings.Join(fs, "_")
	case *types.Basic:
		return u.Name()
	}
	return sanitize(t.String())
}

// jsonKey is the key of a field.
func jsonKey(s *types.Struct, i int) string {
	tag := reflect.StructTag(s.Tag(i)).Get("json")
	if tag == "" {
		return strings.ToLower(s.Field(i).Name())
	}
	return sanitize(tag)
}

func (ex *Exec) jsonDecode(args []Value, st *State, k contFn) {
	c := ex.c
	d, ok := args[0].(*Term)
	if !ok || d.op != "jsonDecoder" {
		ex.unsupp("decoder %T", args[0])
	}
	body := d.args[0]
	if st.ghost["decoded"] != nil {
		ex.unsupp("decoding again")
	}
	st.ghost["decoded"] = c.True
	iv, ok := args[1].(*IfaceVal)
	if !ok {
		ex.unsupp("decoding into %T", args[1])
	}
	p, ok := iv.val.(*LocalPtr)
	if !ok || len(p.path) > 0 || st.objs[p.obj].kind != oCell {
		ex.unsupp("decoding into %T", iv.val)
	}
	o := *st.objs[p.obj]
	s, ok := o.typ.Underlying().(*types.Struct)
	if !ok {
		ex.unsupp("decoding into %s", o.typ)
	}
	var keys []string
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Exported() {
			keys = append(keys, "_"+jsonKey(s, i)+"_"+jsonKeys(s.Field(i).Type()))
		}
	}
	sort.Strings(keys)
	e := c.App("f_dict.govUF_decodeErr_"+strings.Join(keys, "_"), SIface, body)
	fs := make([]Value, s.NumFields())
	bad := make([]Value, s.NumFields())
	for i := range fs {
		f := s.Field(i)
		if !f.Exported() {
			fs[i] = ex.fieldOf(st, o.val, s, i)
			bad[i] = fs[i]
			continue
		}
		// A pointer to what the reply has for the key, nil if it has nothing
		// or null; a field that is not a pointer has the zero value then.
		t := c.App("f_dict.govUF_json__"+jsonKey(s, i)+"_"+jsonKeys(f.Type()), SRef, body)
		ft := f.Type()
		if pt, ok := ft.Underlying().(*types.Pointer); ok {
			ft = pt.Elem()
		}
		v := ex.ld(st, t, ft)
		if _, ok := ft.Underlying().(*types.Slice); ok {
			ex.assume(st, c.Or(c.Eq(t, c.Null), c.Not(c.IsNilSlice(v))))
		}
		if ft == f.Type() {
			t = c.Ite(c.Eq(t, c.Null), ex.zeroTerm(ft), v)
		}
		ex.typeInv(st, t, f.Type())
		fs[i] = t
		bad[i] = ex.freshTerm(st, "json", f.Type())
	}
	ex.fork(st, c.IsNilIface(e), func(st *State) {
		n := o
		n.val = &StructVal{typ: s, fields: fs}
		st.objs[p.obj] = &n
		k(st, []Value{e})
	}, func(st *State) {
		n := o
		n.val = &StructVal{typ: s, fields: bad}
		st.objs[p.obj] = &n
		k(st, []Value{e})
	})
}
