package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// constData is the run-time value of a package-level variable, obtained by
// running the package's own initialisation.
type constData struct {
	K string      `json:"k"` // "map", "slice", "str", "int", "bool"
	S string      `json:"s,omitempty"`
	I int64       `json:"i,omitempty"`
	E []constPair `json:"e,omitempty"`
	N bool        `json:"n,omitempty"` // nil slice or map
}

type constPair struct {
	K *constData `json:"k,omitempty"`
	V *constData `json:"v"`
}

const dumpSrc = `
type govDumpData struct {
	K string ` + "`json:\"k\"`" + `
	S string ` + "`json:\"s,omitempty\"`" + `
	I int64 ` + "`json:\"i,omitempty\"`" + `
	E []govDumpPair ` + "`json:\"e,omitempty\"`" + `
	N bool ` + "`json:\"n,omitempty\"`" + `
}
type govDumpPair struct {
	K *govDumpData ` + "`json:\"k,omitempty\"`" + `
	V *govDumpData ` + "`json:\"v\"`" + `
}
func govDump(v reflect.Value) *govDumpData {
	switch v.Kind() {
	case reflect.String:
		return &govDumpData{K: "str", S: v.String()}
	case reflect.Bool:
		d := &govDumpData{K: "bool"}
		if v.Bool() { d.I = 1 }
		return d
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return &govDumpData{K: "int", I: v.Int()}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return &govDumpData{K: "int", I: int64(v.Uint())}
	case reflect.Slice:
		d := &govDumpData{K: "slice", N: v.IsNil()}
		for i := 0; i < v.Len(); i++ {
			d.E = append(d.E, govDumpPair{V: govDump(v.Index(i))})
		}
		return d
	case reflect.Map:
		d := &govDumpData{K: "map", N: v.IsNil()}
		for _, k := range v.MapKeys() {
			d.E = append(d.E, govDumpPair{K: govDump(k), V: govDump(v.MapIndex(k))})
		}
		return d
	}
	panic("kind " + v.Kind().String())
}
`

func dumpable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsString|types.IsBoolean) != 0
	case *types.Slice:
		return dumpable(u.Elem())
	case *types.Map:
		return dumpable(u.Key()) && dumpable(u.Elem())
	}
	return false
}

// loadConsts runs each package's initialisation and reads its variables.
func (w *World) loadConsts(rels []string, env []string, scratch string) error {
	w.Consts = map[string]*constData{}
	for _, rel := range rels {
		pkg := w.Pkgs[rel]
		if pkg == nil {
			continue
		}
		var names []string
		for n, m := range pkg.Members {
			g, ok := m.(*ssa.Global)
			if !ok || strings.Contains(n, "$") || strings.HasPrefix(n, "gov") {
				continue
			}
			if dumpable(g.Type().Underlying().(*types.Pointer).Elem()) && !w.written(g) {
				names = append(names, n)
			}
		}
		if len(names) == 0 {
			continue
		}
		sort.Strings(names)
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\nimport (\"testing\"; \"reflect\"; \"encoding/json\"; \"os\")\n%s\nfunc TestGovDump(t *testing.T) {\n m := map[string]*govDumpData{}\n", pkg.Pkg.Name(), dumpSrc)
		for _, n := range names {
			fmt.Fprintf(&b, "m[%q] = govDump(reflect.ValueOf(%s))\n", n, n)
		}
		fmt.Fprintf(&b, "f, _ := os.Create(os.Getenv(\"GOV_DUMP_OUT\"))\njson.NewEncoder(f).Encode(m)\nf.Close()\n}\n")
		src := filepath.Join(scratch, "govdump_"+rel+"_test.go")
		if err := os.WriteFile(src, []byte(b.String()), 0o644); err != nil {
			return err
		}
		ov := map[string]map[string]string{"Replace": {filepath.Join(w.Repo, rel, "govdump_test.go"): src}}
		ob, _ := json.Marshal(ov)
		ovf := filepath.Join(scratch, "govdump_"+rel+".json")
		os.WriteFile(ovf, ob, 0o644)
		bin := filepath.Join(scratch, "govdump_"+rel+".test")
		cmd := exec.Command("go", "test", "-c", "-o", bin, "-overlay", ovf, "./"+rel)
		cmd.Dir = w.Repo
		cmd.Env = env
		if o, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("reading the variables of %s: %v\n%s", rel, err, o)
		}
		// An initialisation that ranges over a map may do so in any order:
		// a variable that differs between runs is not a constant table.
		m := map[string]*constData{}
		seen := map[string]string{}
		for i := 0; i < 8; i++ {
			out := filepath.Join(scratch, fmt.Sprintf("govdump_%s%d.out", rel, i))
			cmd := exec.Command(bin, "-test.run", "^TestGovDump$", "-test.count=1")
			cmd.Dir = filepath.Join(w.Repo, rel)
			cmd.Env = append(append([]string{}, env...), "GOV_DUMP_OUT="+out)
			if o, err := cmd.CombinedOutput(); err != nil {
				return fmt.Errorf("reading the variables of %s: %v\n%s", rel, err, o)
			}
			data, err := os.ReadFile(out)
			if err != nil {
				return err
			}
			os.Remove(out)
			mi := map[string]*constData{}
			if err := json.Unmarshal(data, &mi); err != nil {
				return err
			}
			for n, d := range mi {
				k := d.canon()
				if i == 0 {
					m[n], seen[n] = d, k
				} else if seen[n] != k {
					delete(m, n)
				}
			}
		}
		os.Remove(bin)
		for n, d := range m {
			w.Consts[pkg.Pkg.Path()+"."+n] = d
		}
	}
	return nil
}

// canon is the value as a string that does not depend on the order of maps.
func (d *constData) canon() string {
	var es []string
	for _, e := range d.E {
		k := ""
		if e.K != nil {
			k = e.K.canon()
		}
		es = append(es, k+"="+e.V.canon())
	}
	if d.K == "map" || d.K == "slice" {
		sort.Strings(es)
	}
	if d.K == "str" {
		// A string or slice put together from a map: the order may vary, the
		// content may not.
		rs := []rune(d.S)
		sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
		return fmt.Sprintf("str %q", string(rs))
	}
	return fmt.Sprintf("%s %q %d %v {%s}", d.K, d.S, d.I, d.N, strings.Join(es, ", "))
}

// written reports whether any function other than initialisation stores to g,
// or lets its address or (for maps and slices) its content be updated.
func (w *World) written(g *ssa.Global) bool {
	bad := false
	for _, p := range w.Pkgs {
		for fn := range allFuncs(w, p) {
			if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") || fn.Parent() != nil && strings.HasPrefix(fn.Parent().Name(), "init") {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Store:
						if in.Addr == g || in.Val == g {
							bad = true
						}
					case *ssa.MapUpdate:
						if u, ok := in.Map.(*ssa.UnOp); ok && u.X == g {
							bad = true
						}
					case *ssa.IndexAddr:
						if u, ok := in.X.(*ssa.UnOp); ok && u.X == g {
							for _, r := range *in.Referrers() {
								if s, ok := r.(*ssa.Store); ok && s.Addr == in {
									bad = true
								}
							}
						}
					}
				}
			}
		}
	}
	return bad
}

func allFuncs(w *World, p *ssa.Package) map[*ssa.Function]bool {
	if m, ok := w.funcsOf[p]; ok {
		return m
	}
	out := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || out[f] {
			return
		}
		out[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			if n, ok := m.Type().(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					add(w.Prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	if w.funcsOf == nil {
		w.funcsOf = map[*ssa.Package]map[*ssa.Function]bool{}
	}
	w.funcsOf[p] = out
	return out
}

func (ex *Exec) loadGlobal(st *State, p *GlobalPtr, t types.Type) Value {
	if len(p.path) > 0 {
		ex.unsupp("field of global %s", p.g.Name())
	}
	d := ex.w.Consts[p.g.Pkg.Pkg.Path()+"."+p.g.Name()]
	if d == nil {
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			r := ex.c.App("glob_"+sanitize(p.g.RelString(nil)), SIface)
			ex.factOnce(st, ex.c.Not(ex.c.IsNilIface(r)))
			return r
		}
		ex.unsupp("global variable %s is not a constant table", p.g)
	}
	return ex.constValue(d, t)
}

func (ex *Exec) constValue(d *constData, t types.Type) Value {
	if d.K == "map" {
		return &ConstMap{alts: []constAlt{{ex.c.True, d}}, typ: t.Underlying().(*types.Map)}
	}
	return ex.constTerm(d, t)
}

func (ex *Exec) constTerm(d *constData, t types.Type) *Term {
	c := ex.c
	switch d.K {
	case "str":
		return c.StrLit(d.S)
	case "int":
		return c.Int(d.I)
	case "bool":
		return c.Bool(d.I != 0)
	case "slice":
		el := t.Underlying().(*types.Slice).Elem()
		var us []*Term
		for _, e := range d.E {
			us = append(us, c.Unit(ex.constTerm(e.V, el)))
		}
		return c.MkSlice(c.Bool(d.N), c.Concat(SeqOf(ex.tt.sortOf(el)), us...))
	}
	ex.unsupp("constant table of kind %s", d.K)
	return nil
}

// constLookup looks a key up in a guarded choice of constant tables.
func (ex *Exec) constLookup(st *State, m *ConstMap, k *Term, mt *types.Map) (Value, *Term) {
	c := ex.c
	if _, nested := mt.Elem().Underlying().(*types.Map); nested {
		var alts []constAlt
		var hs []*Term
		for _, a := range m.alts {
			for _, e := range a.tab.E {
				g := ex.simp(st, c.And(a.cond, c.Eq(k, ex.constTerm(e.K, mt.Key()))))
				if g.isFalse() {
					continue
				}
				alts = append(alts, constAlt{g, e.V})
				hs = append(hs, g)
			}
		}
		return &ConstMap{alts: alts, typ: mt.Elem().Underlying().(*types.Map)}, c.Or(hs...)
	}
	v := ex.zeroTerm(mt.Elem())
	var hs []*Term
	for _, a := range m.alts {
		es := append([]constPair{}, a.tab.E...)
		sort.Slice(es, func(i, j int) bool { return es[i].K.S < es[j].K.S || es[i].K.S == es[j].K.S && es[i].K.I < es[j].K.I })
		for _, e := range es {
			g := ex.simp(st, c.And(a.cond, c.Eq(k, ex.constTerm(e.K, mt.Key()))))
			if g.isFalse() {
				continue
			}
			v = c.Ite(g, ex.constTerm(e.V, mt.Elem()), v)
			hs = append(hs, g)
		}
	}
	return v, c.Or(hs...)
}
