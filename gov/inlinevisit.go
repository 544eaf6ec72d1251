package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Callbacks.
//
// A statement
//
//	X.Visit(func(n Node) { BODY })
//
// calls BODY for each node of preorder(X), by the contract of Visit, which is
// proved of every implementation (C17). In the text that is verified the
// statement is replaced, mechanically and on every run, by that loop:
//
//	{ govX := Node(X); if govX == nil || !solid(govX) { panic("visit") }
//	  for _, govN := range preorder(govX) { n := govN; BODY } }
//
// with every return of BODY continuing the loop, so that BODY's effect on the
// variables it captures is verified in place. Likewise a local function that
// has no result and is only called, as in
//
//	f := func(p T) { BODY } … f(x)
//
// is replaced at its calls by { p := T(x); BODY }. Line numbers are kept.

type edit struct {
	from, to int
	text     string
}

// inlineCallbacks adds the rewritten files of a package to the overlay.
func (w *World) inlineCallbacks(rel string) error {
	files, err := filepath.Glob(filepath.Join(w.Repo, rel, "*.go"))
	if err != nil {
		return err
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		out, n := inlineFile(src)
		if n > 0 {
			for _, x := range []string{"preorder", "solid"} {
				if w.Renamed[rel][x] {
					out = bytes.ReplaceAll(out, []byte(" "+x+"(govX)"), []byte(" zzgov_"+x+"(govX)"))
					out = bytes.ReplaceAll(out, []byte("!"+x+"(govX)"), []byte("!zzgov_"+x+"(govX)"))
				}
			}
			w.Overlay[f] = out
			w.Inlined += n
		}
	}
	return nil
}

func inlineFile(src []byte) ([]byte, int) {
	n := 0
	// Local functions first, one at a time: their calls may be in callbacks.
	for {
		out, ok := inlineOne(src, n)
		if !ok {
			return src, n
		}
		src = out
		n++
	}
}

func inlineOne(src []byte, k int) ([]byte, bool) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, false
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		if es := localFuncEdits(fd.Body, off, text, k); es != nil {
			return applyEdits(src, es), true
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		var es []edit
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if es != nil {
				return false
			}
			st, ok := n.(*ast.ExprStmt)
			if !ok {
				return true
			}
			call, ok := st.X.(*ast.CallExpr)
			if !ok || len(call.Args) != 1 {
				return true
			}
			sel, ok := call.Fun.(*ast.SelectorExpr)
			if !ok || sel.Sel.Name != "Visit" {
				return true
			}
			lit, ok := call.Args[0].(*ast.FuncLit)
			if !ok || lit.Type.Results != nil || len(lit.Type.Params.List) != 1 || len(lit.Type.Params.List[0].Names) > 1 {
				return true
			}
			p := lit.Type.Params.List[0]
			if text(p.Type) != "Node" || badBody(lit.Body, true) {
				return true
			}
			name := "_"
			if len(p.Names) == 1 {
				name = p.Names[0].Name
			}
			lab := fmt.Sprintf("govL%d", k)
			rets := returnsOf(lit.Body)
			for _, r := range rets {
				es = append(es, edit{off(r.Pos()), off(r.End()), "continue " + lab})
			}
			head := "{ govX := Node(" + text(sel.X) + "); if govX == nil || !solid(govX) { panic(\"visit\") }; "
			if len(rets) > 0 {
				head += lab + ": "
			}
			head += "for _, govN := range preorder(govX) { "
			if name == "_" {
				head += "_ = govN; "
			} else {
				head += name + " := govN; _ = " + name + "; "
			}
			// keep the lines of the parts that are replaced
			a, b := off(st.Pos()), off(lit.Body.Lbrace)+1
			head += strings.Repeat("\n", bytes.Count(src[a:b], []byte("\n"))-strings.Count(head, "\n"))
			es = append(es, edit{a, b, head})
			c, e := off(lit.Body.Rbrace), off(st.End())
			es = append(es, edit{c, e, "}}" + strings.Repeat("\n", bytes.Count(src[c:e], []byte("\n")))})
			return false
		})
		if es != nil {
			return applyEdits(src, es), true
		}
	}
	return nil, false
}

// localFuncEdits replaces the calls of one local function by its body.
func localFuncEdits(body *ast.BlockStmt, off func(token.Pos) int, text func(ast.Node) string, k int) []edit {
	var es []edit
	ast.Inspect(body, func(n ast.Node) bool {
		if es != nil {
			return false
		}
		as, ok := n.(*ast.AssignStmt)
		if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
			return true
		}
		id, ok := as.Lhs[0].(*ast.Ident)
		lit, ok2 := as.Rhs[0].(*ast.FuncLit)
		if !ok || !ok2 || id.Obj == nil || lit.Type.Results != nil || badBody(lit.Body, false) || len(returnsOf(lit.Body)) > 0 {
			return true
		}
		var names, types []string
		for _, p := range lit.Type.Params.List {
			if len(p.Names) == 0 {
				return true
			}
			for _, x := range p.Names {
				names = append(names, x.Name)
				types = append(types, text(p.Type))
			}
		}
		free := map[string]bool{}
		ast.Inspect(lit.Body, func(n ast.Node) bool {
			if x, ok := n.(*ast.Ident); ok {
				free[x.Name] = true
			}
			return true
		})
		uses, calls := 0, []*ast.CallExpr{}
		shadow := false
		ast.Inspect(body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.Ident:
				if n.Obj == id.Obj && n != id {
					uses++
				}
			case *ast.ExprStmt:
				if c, ok := n.X.(*ast.CallExpr); ok {
					if f, ok := c.Fun.(*ast.Ident); ok && f.Obj == id.Obj && len(c.Args) == len(names) && c.Ellipsis == 0 {
						calls = append(calls, c)
					}
				}
			case *ast.AssignStmt:
				// a name that is free in the body must not be declared anew
				// where the body is put
				if n != as && n.Tok == token.DEFINE && (n.Pos() < lit.Pos() || n.Pos() > lit.End()) && n.Pos() > as.Pos() {
					for _, l := range n.Lhs {
						if x, ok := l.(*ast.Ident); ok && free[x.Name] && !hasName(names, x.Name) {
							shadow = true
						}
					}
				}
			}
			return true
		})
		if shadow || uses == 0 || uses != len(calls) {
			return true
		}
		oneLine := oneLineText(text(lit.Body))
		if oneLine == "" {
			return true
		}
		for _, c := range calls {
			var b strings.Builder
			b.WriteString("{ ")
			for i := range names {
				if names[i] != "_" {
					fmt.Fprintf(&b, "gov%s%d := (%s)(%s); ", names[i], k, types[i], oneLineText(text(c.Args[i])))
				}
			}
			for i := range names {
				if names[i] != "_" {
					fmt.Fprintf(&b, "%s := gov%s%d; _ = %s; ", names[i], names[i], k, names[i])
				}
			}
			b.WriteString(oneLine + " }")
			t := b.String()
			if pad := strings.Count(text(c), "\n"); pad > 0 {
				t += strings.Repeat("\n", pad)
			}
			es = append(es, edit{off(c.Pos()), off(c.End()), t})
		}
		es = append(es, edit{off(as.Pos()), off(as.End()), strings.Repeat("\n", strings.Count(text(as), "\n"))})
		return false
	})
	return es
}

func hasName(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// oneLineText puts the text of a node on one line; "" if that cannot be done.
func oneLineText(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "`") {
			return ""
		}
		if i := strings.Index(l, "//"); i >= 0 {
			if strings.Contains(l[:i], `"`) {
				return ""
			}
			l = l[:i]
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		out = append(out, l)
	}
	var b strings.Builder
	for i, l := range out {
		b.WriteString(l)
		if i+1 == len(out) {
			break
		}
		switch l[len(l)-1] {
		case '{', '(', ',', ':', '+', '-', '*', '/', '|', '&', '=', '.', '<', '>', '!':
			b.WriteByte(' ')
		default:
			if nx := out[i+1]; strings.HasPrefix(nx, ")") {
				b.WriteByte(' ')
			} else {
				b.WriteString("; ")
			}
		}
	}
	return b.String()
}

// returnsOf is the returns of a function's body, not those of functions in it.
func returnsOf(b *ast.BlockStmt) []*ast.ReturnStmt {
	var rs []*ast.ReturnStmt
	ast.Inspect(b, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			rs = append(rs, n)
		}
		return true
	})
	return rs
}

// badBody: the body has what cannot be moved out of its function.
func badBody(b *ast.BlockStmt, loop bool) bool {
	bad := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.DeferStmt, *ast.GoStmt, *ast.LabeledStmt:
			bad = true
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "recover" {
				bad = true
			}
		}
		return true
	})
	return bad
}

func applyEdits(src []byte, es []edit) []byte {
	sort.Slice(es, func(i, j int) bool { return es[i].from > es[j].from })
	out := append([]byte{}, src...)
	for _, e := range es {
		out = append(out[:e.from:e.from], append([]byte(e.text), out[e.to:]...)...)
	}
	return out
}
