package ast

import (
	"crypto/sha256"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/eaburns/peggy/peg"
)

// govApi is the result of one call of a parser's method.
type govApi struct {
	text *Text
	tree *peg.Node
	word *Word
	n    int
	err  Error
}

func govApiCall(p *Parser, op, offs int) (r govApi) {
	switch op {
	case 0:
		r.text, r.err = p.Text()
	case 1:
		r.tree, r.err = p.Tree()
	default:
		r.word, r.n, r.err = p.Word(offs)
	}
	return r
}

func govApiName(op, offs int) string {
	return [...]string{"Text()", "Tree()", fmt.Sprintf("Word(%d)", offs)}[op]
}

func govApiErr(err Error) string {
	if err == nil {
		return "no error"
	}
	// Parts of the tree are shared.
	ids := map[*peg.Fail]int{}
	var b strings.Builder
	var walk func(f *peg.Fail)
	walk = func(f *peg.Fail) {
		if id, ok := ids[f]; ok {
			fmt.Fprintf(&b, "#%d", id)
			return
		}
		ids[f] = len(ids)
		fmt.Fprintf(&b, "(%s %d %s", f.Name, f.Pos, f.Want)
		for _, k := range f.Kids {
			walk(k)
		}
		b.WriteString(")")
	}
	walk(err.Tree())
	s := b.String()
	if len(s) > 300 {
		s = fmt.Sprintf("%s... %x", s[:300], sha256.Sum256([]byte(s)))
	}
	return fmt.Sprintf("%s at %d, %s", err, err.ByteOffset(), s)
}

// spoil changes what a call returned, as its caller may.
func (r govApi) spoil() {
	if r.word != nil {
		r.word.T, r.word.S, r.word.M = "!", -1, nil
	}
	if r.tree != nil {
		r.tree.Kids, r.tree.Text = nil, "!"
	}
	if r.text != nil {
		var ws []*Word
		Visit(r.text, FuncVisitor(func(n Node) {
			if w, ok := n.(*Word); ok {
				ws = append(ws, w)
			}
		}))
		for _, w := range ws {
			w.T, w.E = "!", -1
		}
	}
}

func govLeafText(n *peg.Node) string {
	if len(n.Kids) == 0 {
		return n.Text
	}
	s := ""
	for _, k := range n.Kids {
		s += govLeafText(k)
	}
	return s
}

// right checks a result by itself.
func (r govApi) right(src, path string, op, offs int) string {
	if r.err != nil {
		if r.text != nil || r.tree != nil || r.word != nil || r.n != 0 {
			return "a result with an error"
		}
		k := r.err.ByteOffset()
		if k < offs || k > len(src) {
			return fmt.Sprintf("error offset %d", k)
		}
		if !strings.HasPrefix(r.err.Error(), path+":") {
			return fmt.Sprintf("error %q of file %q", r.err, path)
		}
		got := "got EOF"
		if k < len(src) {
			e := k + 10
			if e > len(src) {
				e = len(src)
			}
			got = "got '" + src[k:e] + "'"
		}
		loc := fmt.Sprintf(":%d.", 1+strings.Count(src[:k], "\n"))
		if !strings.HasPrefix(r.err.Error(), path+loc) || !strings.HasSuffix(r.err.Error(), got) {
			return fmt.Sprintf("error %q at offset %d", r.err, k)
		}
		max := -1
		var walk func(f *peg.Fail)
		seen := map[*peg.Fail]bool{}
		walk = func(f *peg.Fail) {
			if seen[f] {
				return
			}
			seen[f] = true
			if len(f.Kids) == 0 && f.Pos > max {
				max = f.Pos
			}
			for _, k := range f.Kids {
				walk(k)
			}
		}
		walk(r.err.Tree())
		if max != k {
			return fmt.Sprintf("error offset %d, the deepest failure is at %d", k, max)
		}
		return ""
	}
	switch {
	case op == 0 && r.text == nil || op == 1 && r.tree == nil || op == 2 && r.word == nil:
		return "neither a result nor an error"
	case op == 0:
		return govLossless(src, r.text)
	case op == 1:
		if s := govLeafText(r.tree); s != src {
			return fmt.Sprintf("the tree is of %q", s)
		}
	default:
		if r.n <= 0 || offs+r.n > len(src) || r.word.S != offs {
			return fmt.Sprintf("word at %d, %d bytes", r.word.S, r.n)
		}
		at := offs
		for _, l := range lvs(r.word) {
			if l.S < offs || l.E > offs+r.n {
				return fmt.Sprintf("word %q at [%d:%d] of %d bytes", l.T, l.S, l.E, r.n)
			}
			at = l.E
		}
		if at != offs+r.n {
			return fmt.Sprintf("word ends at %d, %d bytes", at, r.n)
		}
	}
	return ""
}

func govApiSource(r *rand.Rand, size int) string {
	src := NewGovGen(GovChoices(r, 20+20*size)).GovTextSource(r.Intn(size/2 + 1))
	for k := r.Intn(3); k > 0; k-- {
		i := 0
		for j := range src {
			if r.Intn(len(src)) == 0 {
				i = j
			}
		}
		switch r.Intn(4) {
		case 0:
			src = src[:i]
		case 1:
			src = src[:i] + [...]string{"x", "?", "\n", " ka", " ji/", "\u0301"}[r.Intn(6)] + src[i:]
		case 2:
			src = src[i:]
		default:
			j := i + strings.IndexAny(src[i:], " \n")
			if j > i {
				src = src[:i] + src[j:]
			}
		}
	}
	if len(src) > 160 {
		src = src[:160]
	}
	return src
}

func govApiCase(r *rand.Rand, size int) string {
	src := govApiSource(r, size)
	path := [...]string{"", "file.toaq"}[r.Intn(2)]
	p := NewParser(src)
	p.FilePath = path
	calls := ""
	var accepted [2]int
	last := 0
	for k := 2 + r.Intn(5); k > 0; k-- {
		op := r.Intn(3)
		offs := 0
		if op == 2 && len(src) > 0 {
			offs = r.Intn(len(src) + 1)
			if r.Intn(2) == 0 {
				offs = last
			}
			for offs < len(src) && offs > 0 && src[offs]&0xC0 == 0x80 {
				offs--
			}
		}
		last = offs
		calls += "." + govApiName(op, offs)
		q := NewParser(src)
		q.FilePath = path
		var got, want govApi
		if m := govTry(func() { want = govApiCall(q, op, offs) }); m != "" {
			return fmt.Sprintf("NewParser(%q).%s: %s", src, govApiName(op, offs), m)
		}
		if m := govTry(func() { got = govApiCall(p, op, offs) }); m != "" {
			return fmt.Sprintf("NewParser(%q)%s: %s", src, calls, m)
		}
		if m := got.right(src, path, op, offs); m != "" {
			return fmt.Sprintf("NewParser(%q)%s: %s", src, calls, m)
		}
		if a, b := govApiErr(got.err), govApiErr(want.err); a != b {
			return fmt.Sprintf("NewParser(%q)%s: error %s, by itself %s", src, calls, a, b)
		}
		if got.n != want.n || !reflect.DeepEqual(got.text, want.text) || !reflect.DeepEqual(got.tree, want.tree) || !reflect.DeepEqual(got.word, want.word) {
			return fmt.Sprintf("NewParser(%q)%s: the last call gives another result than by itself", src, calls)
		}
		if op < 2 {
			a := 1
			if got.err != nil {
				a = 2
			}
			accepted[op] = a
			if o := accepted[1-op]; o != 0 && o != a {
				return fmt.Sprintf("NewParser(%q)%s: Text and Tree do not both accept", src, calls)
			}
		}
		got.spoil()
	}
	return ""
}

func TestWitnessC09(t *testing.T) { govSearch(t, govApiCase) }

func TestBoundedCalls(t *testing.T) { govCount(t, govApiCase) }
