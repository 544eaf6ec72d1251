package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// A Clause is one requires/ensures/invariant clause.
type Clause struct {
	Label string
	Props []string // overrides the contract's props when non-empty
	Expr  string
	Fn    string // generated Go function name
	Src   string // file:line of the clause
	// InvParams is the placeholder list of an invariant.
	InvParams string
	fn        *ssa.Function
}

// A Contract is a function contract.
type Contract struct {
	Pkg      string // package directory, relative to the repo
	Key      string // e.g. "Equal", "Word.mod", "iface:Statement.modStatement"
	IsIface  bool
	Lemma    bool
	Spec     string // for lemmas: trigger spec function
	Recv     string
	RecvType string
	Header   string
	Names    []string // receiver+param names
	Types    []string
	RNames   []string
	RTypes   []string
	Props    []string
	Requires []*Clause
	Ensures  []*Clause
	Invs     []*Clause
	Split    []string
	Mutates  []string
	Open     []string // results yielded with a late field still open
	Flags    map[string]bool
	Src      string

	fn *ssa.Function // target
}

func (c *Contract) mutates(n string) bool {
	for _, m := range c.Mutates {
		if m == n {
			return true
		}
	}
	return false
}

// World is the loaded program.
type World struct {
	recording bool // calls are recorded for the property proved
	Repo      string
	Mod       string
	Contracts []*Contract
	Overlay   map[string][]byte
	Prog      *ssa.Program
	Pkgs      map[string]*ssa.Package // by dir
	TPkgs     map[string]*packages.Package
	byFn      map[*ssa.Function]*Contract
	byIface   map[string]*Contract // pkgpath.Iface.method
	specFns   map[*ssa.Function]*specInfo
	Fset      *token.FileSet
	Notes     []string
	Inlined   int // callbacks put in place
	Consts    map[string]*constData
	Renamed   map[string]map[string]bool
	boxOnce   sync.Once
	boxed     map[string]bool // types converted to interfaces somewhere
	funcsOf   map[*ssa.Package]map[*ssa.Function]bool
}

type specInfo struct {
	fn            *ssa.Function
	recursive     bool
	fold          string // "", "fold", "foldl"
	dispatch      string // parameter that must have a known dynamic type to unfold
	opaque        bool
	opaqueOutside bool // inlined only in its own package
	depth         int
	inline        bool // evaluated in place although part of a recursive cycle
	lemma         bool
	elemName      string
	elem          *specInfo
}

var clauseRE = regexp.MustCompile(`^//@\s*(.*)$`)

// parseContracts reads every contract file of a package directory.
func (w *World) parseContracts(dir, rel string) error {
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return err
	}
	sort.Strings(files)
	ren, err := w.renames(dir, rel)
	if err != nil {
		return err
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		src = renameIdents(src, ren)
		out, err := w.parseContractFile(f, rel, src)
		if err != nil {
			return err
		}
		w.Overlay[filepath.Join(w.Repo, rel, "zz_gov_"+filepath.Base(f))] = out
	}
	return nil
}

var declRE = regexp.MustCompile(`(?m)^(?:func|type|var|const)[ \t]+([A-Za-z_][A-Za-z0-9_]*)|^\t([A-Za-z_][A-Za-z0-9_]*)(?:,[ \tA-Za-z0-9_,]*)?[ \t]*=[ \t]`)

func declNames(files []string, into map[string]bool) error {
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		for _, m := range declRE.FindAllSubmatch(src, -1) {
			for _, g := range m[1:] {
				if len(g) > 0 {
					into[string(g)] = true
				}
			}
		}
	}
	return nil
}

// renames lists the specification names that the package has come to declare
// itself; they are renamed in the contract files so that both can coexist.
func (w *World) renames(dir, rel string) (map[string]bool, error) {
	spec, code := map[string]bool{}, map[string]bool{}
	sf, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	cf, _ := filepath.Glob(filepath.Join(w.Repo, rel, "*.go"))
	if err := declNames(sf, spec); err != nil {
		return nil, err
	}
	if err := declNames(cf, code); err != nil {
		return nil, err
	}
	out := map[string]bool{}
	for n := range spec {
		if code[n] {
			out[n] = true
		}
	}
	w.Renamed[rel] = out
	return out, nil
}

func renameIdents(src []byte, ren map[string]bool) []byte {
	for n := range ren {
		re := regexp.MustCompile(`(^|[^.A-Za-z0-9_"])` + n + `\b`)
		// twice, for adjacent matches that share a separator
		src = re.ReplaceAll(src, []byte("${1}zzgov_"+n))
		src = re.ReplaceAll(src, []byte("${1}zzgov_"+n))
	}
	return src
}

func (w *World) parseContractFile(file, rel string, src []byte) ([]byte, error) {
	var cur *Contract
	var gen bytes.Buffer
	lines := strings.Split(string(src), "\n")
	// Join continuation lines: "//@ |  more"
	for i := 0; i < len(lines); i++ {
		m := clauseRE.FindStringSubmatch(strings.TrimSpace(lines[i]))
		if m == nil {
			continue
		}
		txt := m[1]
		line := i + 1
		for i+1 < len(lines) {
			m2 := clauseRE.FindStringSubmatch(strings.TrimSpace(lines[i+1]))
			if m2 == nil || !strings.HasPrefix(strings.TrimSpace(m2[1]), "|") {
				break
			}
			txt += " " + strings.TrimPrefix(strings.TrimSpace(m2[1]), "|")
			i++
		}
		loc := fmt.Sprintf("%s:%d", filepath.Base(file), line)
		word, rest := cut(txt)
		switch word {
		case "contract", "icontract", "lemma":
			c, err := parseHeader(word, rest)
			if err != nil {
				return nil, fmt.Errorf("%s: %v", loc, err)
			}
			c.Pkg = rel
			c.Src = loc
			cur = c
			w.Contracts = append(w.Contracts, c)
		case "props":
			cur.Props = strings.Fields(rest)
		case "split":
			cur.Split = strings.Fields(rest)
		case "mutates":
			cur.Mutates = strings.Fields(rest)
		case "open":
			cur.Open = strings.Fields(rest)
		case "flag":
			for _, f := range strings.Fields(rest) {
				cur.Flags[f] = true
			}
		case "trigger":
			cur.Spec = rest
		case "requires", "ensures", "invariant":
			cl := &Clause{Src: loc}
			if word == "invariant" {
				if !strings.HasPrefix(rest, "(") {
					return nil, fmt.Errorf("%s: invariant needs (params)", loc)
				}
				j := matchParen(rest)
				cl.InvParams = rest[1:j]
				rest = strings.TrimSpace(rest[j+1:])
			}
			if k := strings.Index(rest, ":"); k > 0 && regexp.MustCompile(`^[A-Za-z0-9_\-]+(\[[A-Z0-9,]+\])?$`).MatchString(rest[:k]) && !strings.HasPrefix(rest[k:], ":=") {
				lab := rest[:k]
				if b := strings.IndexByte(lab, '['); b > 0 {
					cl.Props = strings.Split(lab[b+1:len(lab)-1], ",")
					lab = lab[:b]
				}
				cl.Label = lab
				rest = strings.TrimSpace(rest[k+1:])
			} else {
				cl.Label = word
			}
			cl.Expr = rest
			cl.Fn = fmt.Sprintf("gov_%s_%d", sanitize(strings.TrimSuffix(filepath.Base(file), ".go")), line)
			var ps []string
			for k, n := range cur.Names {
				if n != "_" {
					ps = append(ps, n+" "+cur.Types[k])
					if cur.mutates(n) {
						ps = append(ps, "old_"+n+" "+cur.Types[k])
					}
				}
			}
			if word == "ensures" {
				for k, n := range cur.RNames {
					ps = append(ps, n+" "+cur.RTypes[k])
				}
			}
			if word == "invariant" && cl.InvParams != "" {
				ps = append(ps, cl.InvParams)
			}
			fmt.Fprintf(&gen, "//line %s:%d\nfunc %s(%s) bool { return %s }\n", filepath.Base(file), line, cl.Fn, strings.ReplaceAll(strings.Join(ps, ", "), "...", "[]"), rest)
			switch word {
			case "requires":
				cur.Requires = append(cur.Requires, cl)
			case "ensures":
				cur.Ensures = append(cur.Ensures, cl)
			default:
				cur.Invs = append(cur.Invs, cl)
			}
		case "spec", "":
			// spec-function annotations handled from doc comments.
		default:
			return nil, fmt.Errorf("%s: unknown directive %q", loc, word)
		}
	}
	return append(append([]byte{}, src...), append([]byte("\n"), gen.Bytes()...)...), nil
}

func cut(s string) (string, string) {
	s = strings.TrimSpace(s)
	if i := strings.IndexAny(s, " \t"); i >= 0 {
		return s[:i], strings.TrimSpace(s[i:])
	}
	return s, ""
}

func matchParen(s string) int {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return i
			}
		}
	}
	return -1
}

func parseHeader(kind, txt string) (*Contract, error) {
	c := &Contract{Flags: map[string]bool{}, Header: txt}
	c.IsIface = kind == "icontract"
	c.Lemma = kind == "lemma"
	src := "package p\nfunc " + txt + "\n"
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "h.go", src, 0)
	if err != nil {
		return nil, fmt.Errorf("bad header %q: %v", txt, err)
	}
	d := f.Decls[0].(*ast.FuncDecl)
	str := func(e ast.Expr) string {
		return src[fs.Position(e.Pos()).Offset:fs.Position(e.End()).Offset]
	}
	add := func(fl *ast.FieldList, names, ts *[]string) {
		if fl == nil {
			return
		}
		for _, p := range fl.List {
			if len(p.Names) == 0 {
				*names = append(*names, "_")
				*ts = append(*ts, str(p.Type))
			}
			for _, n := range p.Names {
				*names = append(*names, n.Name)
				*ts = append(*ts, str(p.Type))
			}
		}
	}
	add(d.Recv, &c.Names, &c.Types)
	if d.Recv != nil {
		c.Recv = c.Names[0]
		c.RecvType = c.Types[0]
	}
	add(d.Type.Params, &c.Names, &c.Types)
	add(d.Type.Results, &c.RNames, &c.RTypes)
	if c.RecvType != "" {
		c.Key = strings.TrimPrefix(c.RecvType, "*") + "." + d.Name.Name
	} else {
		c.Key = d.Name.Name
	}
	if c.IsIface {
		c.Key = "iface:" + c.Key
	}
	return c, nil
}

// Load loads the repository with contract overlays.
func Load(repo, mod string, contractRoot string, pkgs []string, env []string) (*World, error) {
	w := &World{
		Repo: repo, Mod: mod,
		Overlay: map[string][]byte{},
		Pkgs:    map[string]*ssa.Package{},
		TPkgs:   map[string]*packages.Package{},
		byFn:    map[*ssa.Function]*Contract{},
		byIface: map[string]*Contract{},
		specFns: map[*ssa.Function]*specInfo{},
		Renamed: map[string]map[string]bool{},
	}
	for _, rel := range pkgs {
		dir := filepath.Join(contractRoot, rel)
		if _, err := os.Stat(dir); err == nil {
			if err := w.parseContracts(dir, rel); err != nil {
				return nil, err
			}
			if rel == "logic" {
				if err := w.inlineCallbacks(rel); err != nil {
					return nil, err
				}
			}
		}
	}
	fset := token.NewFileSet()
	w.Fset = fset
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Fset:    fset,
		Env:     env,
		Overlay: w.Overlay,
	}
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, "./"+p)
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		if len(errs) > 20 {
			errs = errs[:20]
		}
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	w.Prog = prog
	// Dependencies inside the module also need bodies.
	for i, p := range ps {
		spkgs[i].Build()
		for _, rel := range pkgs {
			if strings.HasSuffix(p.PkgPath, "/"+rel) || p.PkgPath == rel {
				w.Pkgs[rel] = spkgs[i]
				w.TPkgs[rel] = p
			}
		}
	}
	return w, w.bind()
}

// bind resolves contracts and spec functions to SSA functions.
func (w *World) bind() error {
	// Spec functions: every function declared in a zz_gov_ file.
	for _, p := range w.TPkgs {
		for _, f := range p.Syntax {
			name := w.Fset.PositionFor(f.Pos(), false).Filename
			if !strings.HasPrefix(filepath.Base(name), "zz_gov_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				obj, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
				if obj == nil {
					continue
				}
				fn := w.Prog.FuncValue(obj)
				if fn == nil {
					continue
				}
				si := &specInfo{fn: fn, depth: 2}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						m := clauseRE.FindStringSubmatch(strings.TrimSpace(c.Text))
						if m == nil {
							continue
						}
						word, rest := cut(m[1])
						if word != "spec" {
							continue
						}
						for _, f := range strings.Fields(rest) {
							switch {
							case strings.HasPrefix(f, "fold=") || strings.HasPrefix(f, "foldl=") || strings.HasPrefix(f, "foldand="):
								i := strings.IndexByte(f, '=')
								si.fold, si.elemName = f[:i], f[i+1:]
							case strings.HasPrefix(f, "dispatch="):
								si.dispatch = f[9:]
							case strings.HasPrefix(f, "depth="):
								fmt.Sscanf(f[6:], "%d", &si.depth)
							case f == "opaque":
								si.opaque = true
							case f == "opaque-outside":
								si.opaqueOutside = true
							case f == "inline":
								si.inline = true
							default:
								return fmt.Errorf("%s: bad spec annotation %q", fn.Name(), f)
							}
						}
					}
				}
				w.specFns[fn] = si
			}
		}
	}
	w.markRecursive()
	for _, c := range w.Contracts {
		pkg := w.Pkgs[c.Pkg]
		if pkg == nil {
			return fmt.Errorf("contract %s: package %s not loaded", c.Key, c.Pkg)
		}
		for _, cl := range append(append(append([]*Clause{}, c.Requires...), c.Ensures...), c.Invs...) {
			cl.fn = pkg.Func(cl.Fn)
			if cl.fn == nil {
				return fmt.Errorf("%s: clause function %s missing", cl.Src, cl.Fn)
			}
		}
		if c.IsIface {
			w.byIface[pkg.Pkg.Path()+"."+strings.TrimPrefix(c.Key, "iface:")] = c
			continue
		}
		if c.Lemma {
			continue
		}
		fn := w.findFunc(pkg, c)
		if fn == nil {
			w.Notes = append(w.Notes, fmt.Sprintf("contract %s.%s: no such function in the source; skipped", c.Pkg, c.Key))
			continue
		}
		sig := fn.Signature
		n := sig.Params().Len()
		if sig.Recv() != nil {
			n++
		}
		if n != len(c.Names) || sig.Results().Len() != len(c.RNames) {
			w.Notes = append(w.Notes, fmt.Sprintf("contract %s.%s: signature changed; skipped", c.Pkg, c.Key))
			continue
		}
		if cls := append(append([]*Clause{}, c.Requires...), c.Ensures...); len(cls) > 0 && !sameParams(cls[0].fn.Signature, fn.Signature, c) {
			w.Notes = append(w.Notes, fmt.Sprintf("contract %s.%s: parameter types changed; skipped", c.Pkg, c.Key))
			continue
		}
		c.fn = fn
		w.byFn[fn] = c
	}
	return nil
}

// sameParams compares the parameter types of a clause with its function's.
func sameParams(cl, fn *types.Signature, c *Contract) bool {
	var ts []types.Type
	if fn.Recv() != nil {
		ts = append(ts, fn.Recv().Type())
	}
	for i := 0; i < fn.Params().Len(); i++ {
		ts = append(ts, fn.Params().At(i).Type())
	}
	j := 0
	for i, n := range c.Names {
		if n == "_" {
			continue
		}
		if j >= cl.Params().Len() || !types.Identical(cl.Params().At(j).Type(), ts[i]) {
			return false
		}
		j++
		if c.mutates(n) {
			j++
		}
	}
	return true
}

func (w *World) findFunc(pkg *ssa.Package, c *Contract) *ssa.Function {
	if c.RecvType == "" {
		return pkg.Func(c.Key)
	}
	tn := strings.TrimPrefix(c.RecvType, "*")
	mem, ok := pkg.Members[tn].(*ssa.Type)
	if !ok {
		return nil
	}
	name := c.Key[strings.IndexByte(c.Key, '.')+1:]
	named := mem.Type().(*types.Named)
	for i := 0; i < named.NumMethods(); i++ {
		m := named.Method(i)
		if m.Name() == name {
			return w.Prog.FuncValue(m)
		}
	}
	return nil
}

func (w *World) markRecursive() {
	reach := func(f *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var rec func(g *ssa.Function) bool
		rec = func(g *ssa.Function) bool {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					var callee *ssa.Function
					if ci, ok := in.(ssa.CallInstruction); ok {
						callee = ci.Common().StaticCallee()
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						callee = mc.Fn.(*ssa.Function)
					}
					if callee == nil {
						continue
					}
					if callee == f {
						return true
					}
					if seen[callee] {
						continue
					}
					if _, ok := w.specFns[callee]; ok || callee.Parent() != nil {
						seen[callee] = true
						if rec(callee) {
							return true
						}
					}
				}
			}
			return false
		}
		return rec(f)
	}
	for f, si := range w.specFns {
		si.recursive = reach(f)
	}
}

// neverBoxed: a struct that implements interfaces only by embedding one, and
// that no code of the module converts to an interface, is not among the
// dynamic types of interface values.
func (w *World) neverBoxed(n *types.Named) bool {
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	emb := false
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if _, ok := s.Field(i).Type().Underlying().(*types.Interface); ok {
				emb = true
			}
		}
	}
	if !emb {
		return false
	}
	w.boxOnce.Do(func() {
		w.boxed = map[string]bool{}
		for f := range ssautil.AllFunctions(w.Prog) {
			if f.Synthetic != "" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if m, ok := in.(*ssa.MakeInterface); ok {
						w.boxed[types.TypeString(m.X.Type(), nil)] = true
					}
				}
			}
		}
	})
	return !w.boxed[types.TypeString(n, nil)] && !w.boxed[types.TypeString(types.NewPointer(n), nil)]
}
