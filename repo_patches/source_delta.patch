From 43d1379f77cc0fa9a325c943d31517c708b1508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:33 +0000
Subject: [PATCH 01/22] fix: Equal handles *CoP and *LUPhrase nodes instead of
 panicking

---
 ast/equal.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ast/equal.go b/ast/equal.go
index 4e36931..01b2be0 100644
--- a/ast/equal.go
+++ b/ast/equal.go
@@ -185,6 +185,14 @@ func Equal(a, b Node) bool {
 		b, ok := b.(*Space)
 		return ok && wordEqual((*Word)(a), (*Word)(b))
 
+	case *CoP:
+		b, ok := b.(*CoP)
+		return ok && copEqual(a, b)
+
+	case *LUPhrase:
+		b, ok := b.(*LUPhrase)
+		return ok && wordEqual(&a.LU, &b.LU) && Equal(a.Statement, b.Statement)
+
 	case *Word:
 		b, ok := b.(*Word)
 		return ok && wordEqual(a, b)
-- 
2.43.0


From 9fa15a889b8aa27bfa40af056a330072786d6d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:40 +0000
Subject: [PATCH 02/22] fix: a modifier after a parenthetical follows its KI,
 not its discourse

---
 ast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index 79e9909..afdd45a 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -619,7 +619,7 @@ func (n Parenthetical) modNode(m *Mod) Node         { return n.mod(m) }
 func (n Parenthetical) modFragment(m *Mod) Fragment { return n.mod(m) }
 
 func (n Parenthetical) mod(m *Mod) Mod {
-	n.Discourse = *n.Discourse.mod(m)
+	n.KI = *n.KI.mod(m)
 	return &n
 }
 
-- 
2.43.0


From b7a10e922c9cc065c4b94104104483ee8d652762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:03 +0000
Subject: [PATCH 03/22] fix: End of a predication without terms is the end of
 its predicate

---
 ast/ast.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index afdd45a..7de2b5e 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -158,10 +158,16 @@ type Predication struct {
 }
 
 func (n *Predication) Start() int                   { return n.Predicate.Start() }
-func (n *Predication) End() int                     { return end(n.NA, n.Terms) }
 func (n Predication) modNode(m *Mod) Node           { return n.mod(m) }
 func (n Predication) modStatement(m *Mod) Statement { return n.mod(m) }
 
+func (n *Predication) End() int {
+	if n.NA == nil && len(n.Terms) == 0 {
+		return n.Predicate.End()
+	}
+	return end(n.NA, n.Terms)
+}
+
 func (n Predication) mod(m *Mod) *Predication {
 	if n.NA != nil {
 		n.NA = n.NA.mod(m)
-- 
2.43.0


From 3f8fda5748e9cd148bd60b1078c7bc717f7d316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:55 +0000
Subject: [PATCH 04/22] fix: ToASCII ends a syllable before another toned
 vowel, and not before an upper-case Q
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

"ÁQ" gave "A/Q" and "áá" gave "aá/", which is not ASCII.
---
 tone/tone.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tone/tone.go b/tone/tone.go
index ce1893b..b6db123 100644
--- a/tone/tone.go
+++ b/tone/tone.go
@@ -160,18 +160,18 @@ func ToASCII(txt string) string {
 			continue
 		}
 		if t != None {
-			if !strings.ContainsRune(vowels, r) && r != 'q' {
+			if (!strings.ContainsRune(vowels, r) || tone[r] != None) && r != 'q' && r != 'Q' {
 				s.WriteRune(t)
 				t = None
 			}
-			s.WriteRune(r)
-		} else {
+		}
+		if t == None {
 			if t = tone[r]; t != None {
 				s.WriteRune(ascii[r])
 				continue
 			}
-			s.WriteRune(r)
 		}
+		s.WriteRune(r)
 	}
 	if t != None {
 		s.WriteRune(t)
-- 
2.43.0


From bb5b598564528c89379c23b54dfe62a5273924dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:32 +0000
Subject: [PATCH 05/22] fix: connected terms after a connected term keep their
 own alternatives

withTerm0 wrote into the slice shared by both branches, so
"mai? ji/ ru suq/ ho/ ru nuo/" lost mai(S, H).
---
 logic/interp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index 85573fb..38ba132 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -1088,8 +1088,9 @@ func goPos(w ast.Word) int {
 	panic("impossible: " + w.T)
 }
 
-// withTerm0 sets ts[0] to t and returns ts.
+// withTerm0 returns a copy of ts with ts[0] set to t.
 func withTerm0(t ast.Term, ts ast.Terms) ast.Terms {
+	ts = append(ast.Terms{}, ts...)
 	ts[0] = t
 	return ts
 }
-- 
2.43.0


From 55c0f7426f8ea9c868f958c261e25da2aca9172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:34 +0000
Subject: [PATCH 06/22] fix: the right argument of a connected preposition
 argument is used

"mai? ji/ kui\ suq/ ru ho/" used the left one twice.
---
 logic/interp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index 38ba132..367714a 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -681,7 +681,7 @@ func (interp *interpreter) predicationPreposition(p ast.Predicate, arg0 interfac
 		return &Connection{
 			Connector: connector(arg1.RU),
 			Left:      interp.predicationPreposition(p, arg0, arg1.Left.(ast.Argument)),
-			Right:     interp.predicationPreposition(p, arg0, arg1.Left.(ast.Argument)),
+			Right:     interp.predicationPreposition(p, arg0, arg1.Right.(ast.Argument)),
 			AST:       arg1,
 		}
 	default:
-- 
2.43.0


From 53474316c55e73de7bddb0d56586ed1478500ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:36 +0000
Subject: [PATCH 07/22] fix: do-variables may be capitalised

"sa Do/ bi gi? Do/" was read as a predicate "do".
---
 logic/interp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index 367714a..b144b9b 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -1158,7 +1158,7 @@ var oLetters, oTones = func() ([]rune, []rune) {
 // If the text does not begin with "do" in any tone,
 // then false is returned.
 func splitVar(txt string) (rune, string, bool) {
-	if len(txt) < 1 || txt[0] != 'd' || txt[0] == 'D' {
+	if len(txt) < 1 || txt[0] != 'd' && txt[0] != 'D' {
 		return tone.None, "", false
 	}
 	r, w := utf8.DecodeRuneInString(txt[1:])
-- 
2.43.0


From 8db221baedeed5bc9584bc3ebb7d133564330b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:38 +0000
Subject: [PATCH 08/22] =?UTF-8?q?fix:=20a=20=CE=BB-predicate=20is=20not=20?=
 =?UTF-8?q?applied=20past=20an=20empty=20place,=20nor=20when=20its=20varia?=
 =?UTF-8?q?ble=20is=20a=20predicate?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

"lu? gi? hoa/ na go ji/" gave gi(·), and "lu? hoa? ji/ na suq/" lost suq/.
---
 logic/simplify.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/simplify.go b/logic/simplify.go
index 514b385..92963e5 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -218,6 +218,10 @@ func lambdaSub(s *state, n *Predication, pred *Abstraction) Statement {
 	var nlambda int
 	b, ok := pred.Statement.(*Binding)
 	for ok && b.Quantifier == Lambda && b.Restriction == nil {
+		if s.predVars[b.N] || nlambda < len(n.Arguments) && n.Arguments[nlambda] == nil {
+			// It cannot be substituted.
+			return nil
+		}
 		nlambda++
 		b, ok = b.Scope.(*Binding)
 	}
-- 
2.43.0


From 72d3c7c9b3972424fbc8b1645a3ca0667bed798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:40 +0000
Subject: [PATCH 09/22] fix: an equation only substitutes the variable it
 restricts

"tu do/ ke do/ba- luV jeq?tu- do/ pai^ ji/ na bi mai? do/ do/ba-"
substituted the variable of tu do/ and dropped the binding of ke do/ba-.
---
 logic/simplify.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/simplify.go b/logic/simplify.go
index 92963e5..3ec9788 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -157,6 +157,10 @@ func sub(s *state, n *Binding) bool {
 			return false
 		}
 	}
+	if l.N != n.N {
+		// This restricts some other variable.
+		return false
+	}
 	if s.predVars[l.N] {
 		// This variable is used as a predicate; we cannot substitute it.
 		return false
-- 
2.43.0


From 3bae6b6364dfbcb88c212fe2030a86166b39c900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:52 +0000
Subject: [PATCH 10/22] fix: a definite description is only free of outer
 variables once it is lifted
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

hasFreeVars took every ι-bound variable to be bound at the top scope, also
one bound by roi or a preposition in an enclosing scope, so a description or
an adverb that mentions it was lifted out of its scope.
---
 logic/interp.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index b144b9b..1d2b859 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -586,7 +586,7 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 		return bindScope(b, st)
 	case ast.Preposition:
 		sub := interp.prenexStatement(args, n, terms[1:])
-		if hasFreeVars(sub) {
+		if interp.hasFreeVars(sub) {
 			return interp.preposition(t, &statementTail{args, n, terms[1:]})
 		}
 		x := interp.newVar()
@@ -609,7 +609,7 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 			Arguments: []Argument{a},
 			AST:       t,
 		}
-		if hasFreeVars(sub) {
+		if interp.hasFreeVars(sub) {
 			b.Quantifier = All
 			return bindScope(b, interp.adverb(t, a))
 		}
@@ -824,7 +824,7 @@ func (interp *interpreter) predicateArgument(n *ast.PredicateArgument) (*Binding
 	}
 
 	if b.Quantifier == The {
-		if hasFreeVars(b) {
+		if interp.hasFreeVars(b) {
 			b.Quantifier = All
 			return b, a
 		}
@@ -1095,16 +1095,20 @@ func withTerm0(t ast.Term, ts ast.Terms) ast.Terms {
 	return ts
 }
 
-// hasFreeVars returns whether a logic-sub-tree has un-bound variables.
-func hasFreeVars(n Node) bool {
+// hasFreeVars returns whether a logic-sub-tree has variables
+// that are bound neither within it nor at the top-most scope.
+func (interp *interpreter) hasFreeVars(n Node) bool {
 	free := false
 	binds := make(map[*Binding]bool)
+	for _, b := range interp.theScope {
+		binds[b] = true
+	}
 	n.Visit(func(n Node) {
 		switch n := n.(type) {
 		case *Binding:
 			binds[n] = true
 		case *Variable:
-			if n.Def != nil && n.Def.Quantifier != The && !binds[n.Def] {
+			if n.Def != nil && !binds[n.Def] {
 				free = true
 			}
 		}
-- 
2.43.0


From fa165799fd5f3bccabc4b539fbeb163df24216c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:10 +0000
Subject: [PATCH 11/22] fix: a lifted hi-binding keeps the variables that are
 still in scope
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

clearHiFreeVarDefs also cleared variables bound inside the hi-binding, by the
enclosing relative clause, by another hi-binding outside it or at the top-most
scope: "mai? hi poq/ maiV ji/" lost the connection between ji/ and its ι.
---
 logic/interp.go | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 1d2b859..3302b60 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -182,19 +182,36 @@ func (interp *interpreter) subordinate(f func() Statement) Statement {
 // and assigns a new, unique number
 // to all Variables over which the hi-binding was lifted.
 func (interp *interpreter) clearHiFreeVarDefs(scope []varScope, hi *Binding) {
-	hi.Visit(func(n Node) {
-		v, ok := n.(*Variable)
-		if !ok {
-			return
+	bound := make(map[*Binding]bool)
+	for _, s := range scope {
+		bound[s.def] = true
+	}
+	for _, b := range interp.theScope {
+		bound[b] = true
+	}
+	for _, b := range interp.hoaScope {
+		bound[b] = true
+	}
+	for _, his := range interp.hiScope {
+		for _, b := range his {
+			if b == hi {
+				// Those following bind within the scope of hi.
+				break
+			}
+			bound[b] = true
 		}
-		for _, s := range scope {
-			if v.Def == s.def {
-				return
+	}
+	hi.Visit(func(n Node) {
+		switch n := n.(type) {
+		case *Binding:
+			bound[n] = true
+		case *Variable:
+			if n.Def != nil && !bound[n.Def] {
+				n.Def = nil
+				n.N = interp.n
+				interp.n++
 			}
 		}
-		v.Def = nil
-		v.N = interp.n
-		interp.n++
 	})
 }
 
-- 
2.43.0


From 7b4d0feeacc7bc2c43b2dd56468fd2503ae9b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:12 +0000
Subject: [PATCH 12/22] fix: a hi-binding is not reused outside of the
 statement it was lifted to

"tu do/ bi cho? ji/ ru suq/ nuo^ hi hao/ do/" interprets nuo^ twice, and the
second one used the variable bound within the first.
---
 logic/interp.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logic/interp.go b/logic/interp.go
index 3302b60..a40bf80 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -171,6 +171,7 @@ func (interp *interpreter) subordinate(f func() Statement) Statement {
 	hiScope := interp.hiScope[len(interp.hiScope)-1]
 	for i := len(hiScope) - 1; i >= 0; i-- {
 		hi := hiScope[i]
+		delete(interp.liftedScope, hi.AST.(ast.Argument))
 		scope = append(scope, varScope{"", hi})
 		interp.clearHiFreeVarDefs(scope, hi)
 		st = bindScope(hi, st)
-- 
2.43.0


From 07cf37b692953a438e3a78ddb757af3feef2ff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:14 +0000
Subject: [PATCH 13/22] fix: variables are numbered in sequence also if a part
 of the tree is shared

A part substituted in several places was numbered once for each, leaving gaps:
"cho? ji/ ru suq/ nuo^ sa hao/" printed X0, X1, X3.
---
 logic/simplify.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/logic/simplify.go b/logic/simplify.go
index 3ec9788..6f59686 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -11,7 +11,12 @@ func simplify(n Statement) Statement {
 
 func sequenceVarNums(n Statement) {
 	var i int
+	seen := make(map[Node]bool)
 	n.Visit(func(n Node) {
+		if seen[n] {
+			return
+		}
+		seen[n] = true
 		switch n := n.(type) {
 		case *Binding:
 			n.N = i
-- 
2.43.0


From db1d86f51624b36bdef8e869fe5a49a1774bf9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:49 +0000
Subject: [PATCH 14/22] fix: Parser.Word returns a fresh word each time

It reset the memoized parse tree, which it does not use, instead of the
memoized actions, so the word was shared with later calls and with Text.
---
 ast/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/parser.go b/ast/parser.go
index db2add7..14baa96 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -73,7 +73,7 @@ func (p *Parser) Word(offs int) (*Word, int, Error) {
 	// Reset so a subsequent call returns a different tree.
 	// This allows the caller to modify the returned tree
 	// without affecting the tree made by subsequent calls.
-	p._Parser.node = make(map[_key]*peg.Node)
+	p._Parser.act = make(map[_key]interface{})
 	return *t, pos - offs, nil
 }
 
-- 
2.43.0


From 1a314dae4ec8ecfdf4cda72e1a51c63b67fa09a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:03 +0000
Subject: [PATCH 15/22] fix: parse errors are those of the rule parsed, at
 their offset in the text

An error of Word was looked for among the failures of the whole text, at an
offset taken relative to the word, and with memoized failures of previous
calls; it could be empty.
---
 ast/parser.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index 14baa96..ad7d67c 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -52,7 +52,7 @@ func NewParser(text string) *Parser {
 
 // Tree returns the full parse tree of the text.
 func (p *Parser) Tree() (*peg.Node, Error) {
-	if err := p.parse(_full_textAccepts, 0); err != nil {
+	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
 		return nil, err
 	}
 	_, t := _full_textNode(p._Parser, 0)
@@ -66,7 +66,7 @@ func (p *Parser) Tree() (*peg.Node, Error) {
 // Word returns the word at the given byte-offset into the text
 // with any trailing whitespace attached and the number of bytes parsed.
 func (p *Parser) Word(offs int) (*Word, int, Error) {
-	if err := p.parse(_wordAccepts, offs); err != nil {
+	if err := p.parse(_wordAccepts, _wordFail, offs); err != nil {
 		return nil, 0, err
 	}
 	pos, t := _wordAction(p._Parser, offs)
@@ -79,7 +79,7 @@ func (p *Parser) Word(offs int) (*Word, int, Error) {
 
 // Text returns the AST of the text.
 func (p *Parser) Text() (*Text, Error) {
-	if err := p.parse(_full_textAccepts, 0); err != nil {
+	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
 		return nil, err
 	}
 	_, txt := _full_textAction(p._Parser, 0)
@@ -90,12 +90,17 @@ func (p *Parser) Text() (*Text, Error) {
 	return txt, nil
 }
 
-func (p *Parser) parse(rule func(*_Parser, int) (int, int), start int) Error {
+func (p *Parser) parse(rule func(*_Parser, int) (int, int), fail func(*_Parser, int, int) (int, *peg.Fail), start int) Error {
 	pos, perr := rule(p._Parser, start)
 	if pos >= 0 {
 		return nil
 	}
-	_, failTree := _full_textFail(p._Parser, 0, perr)
+	// The error position is relative to start.
+	perr += start
+	// Forget what previous calls found about other errors.
+	p._Parser.lastFail = perr
+	p._Parser.fail = make(map[_key]*peg.Fail)
+	_, failTree := fail(p._Parser, start, perr)
 	return &parseError{
 		fail: failTree,
 		err:  peg.SimpleError(p._Parser.text, failTree),
-- 
2.43.0


From 21025a6804783f4b638fa0ddaae8462c2460ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:05 +0000
Subject: [PATCH 16/22] fix: Load returns an error if the response lacks its
 data or error message

It dereferenced a nil pointer.
---
 dict/dict.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dict/dict.go b/dict/dict.go
index 25e3946..9695dfc 100644
--- a/dict/dict.go
+++ b/dict/dict.go
@@ -3,6 +3,7 @@ package dict
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
 	"strings"
@@ -41,8 +42,14 @@ func Load(url string, query string) (map[string]Word, error) {
 		return nil, err
 	}
 	if !response.Success {
+		if response.Error == nil {
+			return nil, errors.New("Toadua returned an error without a message")
+		}
 		return nil, fmt.Errorf("Toadua returned error: %s", *response.Error)
 	}
+	if response.Entries == nil {
+		return nil, errors.New("Toadua returned no data")
+	}
 	entries := *response.Entries
 	ws := make(map[string]Word)
 	for _, e := range entries {
-- 
2.43.0


From 678f787d6c9a85a42045ceee24a3e8007ed5e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:45 +0000
Subject: [PATCH 17/22] fix: parse errors carry the parser's FilePath

The field is documented to be used for error reporting, but was not used.
---
 ast/parser.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index ad7d67c..0db7e87 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -101,8 +101,7 @@ func (p *Parser) parse(rule func(*_Parser, int) (int, int), fail func(*_Parser,
 	p._Parser.lastFail = perr
 	p._Parser.fail = make(map[_key]*peg.Fail)
 	_, failTree := fail(p._Parser, start, perr)
-	return &parseError{
-		fail: failTree,
-		err:  peg.SimpleError(p._Parser.text, failTree),
-	}
+	err := peg.SimpleError(p._Parser.text, failTree)
+	err.FilePath = p.FilePath
+	return &parseError{fail: failTree, err: err}
 }
-- 
2.43.0


From 1ce6be72f6478972ac95a49630715b24c235394d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:47 +0000
Subject: [PATCH 18/22] fix: the server reports every panic of the interpreter

A panic with a value that is not a string, such as a failed type assertion,
was dropped, and the text was reported to be a fragment.
---
 server/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/server.go b/server/server.go
index bf6a6b7..3a4746a 100644
--- a/server/server.go
+++ b/server/server.go
@@ -2,7 +2,7 @@ package main
 
 import (
 	"encoding/json"
-	"errors"
+	"fmt"
 	"html/template"
 	"io/ioutil"
 	"net/http"
@@ -86,8 +86,8 @@ func rootHandler(w http.ResponseWriter, req *http.Request) {
 // on some things that are unimplemented.
 func safeInterp(text *ast.Text) (st logic.Statement, err error) {
 	defer func() {
-		if str, ok := recover().(string); ok {
-			err = errors.New("bug: " + str)
+		if r := recover(); r != nil {
+			err = fmt.Errorf("bug: %v", r)
 		}
 	}()
 	return logic.Interpret(text), nil
-- 
2.43.0


From d8c8c7ad7849c287cae8a166c160ec197829fce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:48 +0000
Subject: [PATCH 19/22] fix: the bot survives panics of the interpreter

A text using something that is not implemented ended the bot.
---
 bot/bot.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/bot/bot.go b/bot/bot.go
index 2bc85ea..ed9e6f3 100644
--- a/bot/bot.go
+++ b/bot/bot.go
@@ -80,15 +80,29 @@ func parse(input string) string {
 		parse += "\n"
 	}
 	var math string
-	stmt := logic.Interpret(text)
-	if stmt == nil {
+	switch stmt, err := safeInterp(text); {
+	case err != nil:
+		math = err.Error()
+	case stmt == nil:
 		math = "fragment"
-	} else {
+	default:
 		math = logic.PrettyString(stmt)
 	}
 	return parse + math
 }
 
+// safeInterp calls the interpreter and recovers any panics.
+// The interpreter should not panic, but currently it does
+// on some things that are unimplemented.
+func safeInterp(text *ast.Text) (st logic.Statement, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("bug: %v", r)
+		}
+	}()
+	return logic.Interpret(text), nil
+}
+
 func fixBridgeMessage(msg *chat.Message) {
 	if msg.From == nil ||
 		msg.From.Nick != "ToaqBridgeBot" ||
-- 
2.43.0


From cf3afa32414f13174e3cdf62f109240ef540eff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:34 +0000
Subject: [PATCH 20/22] fix: variables bound within roi do not escape it

A variable quantified in one part of a plural argument was still in scope
after it, and in the other branch of a connective within it, where its binding
does not reach: kuq? sa do/ roi ji/ do/ used the variable outside of its
binding.
---
 logic/interp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/interp.go b/logic/interp.go
index a40bf80..11cb48f 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -760,6 +760,8 @@ func (interp *interpreter) roi(n *ast.CoPArgument) (*Binding, Argument) {
 }
 
 func (interp *interpreter) roiLeft(x *Variable, left, right ast.Argument) Statement {
+	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
+
 	var a Argument
 	var b *Binding
 	switch n := left.(type) {
@@ -783,6 +785,8 @@ func (interp *interpreter) roiLeft(x *Variable, left, right ast.Argument) Statem
 }
 
 func (interp *interpreter) roiRight(x *Variable, left Argument, right ast.Argument) Statement {
+	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
+
 	var a Argument
 	var b *Binding
 	switch n := right.(type) {
-- 
2.43.0


From ecd5d3f115581158d551f69874104c1cf1983377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:48 +0000
Subject: [PATCH 21/22] fix: a variable within a serial or swapped predicate is
 not substituted away

---
 logic/simplify.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/logic/simplify.go b/logic/simplify.go
index 6f59686..094dc63 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -115,16 +115,21 @@ func newState(n Statement) *state {
 		sub:      make(map[int]Argument),
 		predVars: make(map[int]bool),
 	}
-	n.Visit(func(n Node) {
-		p, ok := n.(*Predication)
-		if !ok {
-			return
+	usePred := func(p Predicate) {
+		if v, ok := p.(*Variable); ok {
+			s.predVars[v.N] = true
 		}
-		v, ok := p.Predicate.(*Variable)
-		if !ok {
-			return
+	}
+	n.Visit(func(n Node) {
+		switch n := n.(type) {
+		case *Predication:
+			usePred(n.Predicate)
+		case *Serial:
+			usePred(n.Left)
+			usePred(n.Right)
+		case *Swap:
+			usePred(n.Predicate)
 		}
-		s.predVars[v.N] = true
 	})
 	return s
 }
-- 
2.43.0


From df86adcdf311eecb4124f7a41cb09b883d44c2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:21 +0000
Subject: [PATCH 22/22] fix: an equation does not substitute a variable by
 something that contains it

---
 logic/simplify.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/logic/simplify.go b/logic/simplify.go
index 094dc63..ab11d7d 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -175,6 +175,10 @@ func sub(s *state, n *Binding) bool {
 		// This variable is used as a predicate; we cannot substitute it.
 		return false
 	}
+	if mentions(right, l.N) {
+		// The variable is not defined by something that contains it.
+		return false
+	}
 	switch right.(type) {
 	case *Quote, *Plurality, *Abstraction:
 		s.sub[l.N] = right
@@ -184,6 +188,17 @@ func sub(s *state, n *Binding) bool {
 	return true
 }
 
+// mentions returns whether a node contains the variable with a given number.
+func mentions(n Node, v int) bool {
+	found := false
+	n.Visit(func(n Node) {
+		if x, ok := n.(*Variable); ok && x.N == v {
+			found = true
+		}
+	})
+	return found
+}
+
 func (n *Connection) simplifyStatement(s *state) Statement {
 	n.Left = n.Left.simplifyStatement(s)
 	n.Right = n.Right.simplifyStatement(s)
-- 
2.43.0

