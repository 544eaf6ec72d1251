package ast

import "github.com/eaburns/peggy/peg"

// ---- the parser's methods (C09) ----
//
// The functions generated from the grammar are described by what they do with
// the parser: whether a rule accepts depends on the text and the offset only;
// the action, node and fail functions record what they make, and give it
// again, so their records must be empty when a method begins.

func govUF_accepted(rule string, text string, start int) int { return 0 }

func govUF_errorAt(rule string, text string, start int) int { return 0 }

func govUF_textOf(t *Text, text string) bool { return true }

func govUF_wordAt(w *Word, text string, start int) bool { return true }

func govUF_treeOf(t *peg.Node, text string) bool { return true }

func govUF_failOf(f *peg.Fail, rule string, text string, start int) bool { return true }

// deepest is the greatest offset of the leaves of a tree of failures.
//
//@ spec depth=2
func deepest(f *peg.Fail) int {
	if len(f.Kids) == 0 {
		return f.Pos
	}
	return deepestOf(f.Kids)
}

//@ spec depth=2
func deepestOf(fs []*peg.Fail) int {
	if len(fs) == 0 {
		return -1
	}
	if d := deepest(fs[len(fs)-1]); d > deepestOf(fs[:len(fs)-1]) {
		return d
	}
	return deepestOf(fs[:len(fs)-1])
}

// clean: what earlier calls made is forgotten.
//
//@ spec inline
func clean(p *_Parser) bool { return len(p.act) == 0 && len(p.node) == 0 }

// allThere: there is a failure at every node of the tree.
//
//@ spec depth=2
func allThere(f *peg.Fail) bool { return f != nil && allOfThere(f.Kids) }

//@ spec foldand=allThere
func allOfThere(fs []*peg.Fail) bool {
	for _, f := range fs {
		if !allThere(f) {
			return false
		}
	}
	return true
}

//@ contract byteOffset(fail *peg.Fail) (r int)
//@ props C09
//@ requires some: allThere(fail)
//@ invariant (i int, max int) deepest: 0 <= i && i <= len(fail.Kids) && max == deepestOf(fail.Kids[:i])
//@ ensures deepest: r == deepest(fail)

//@ contract (err *parseError) ByteOffset() (r int)
//@ props C09
//@ requires some: err != nil && allThere(err.fail)
//@ ensures deepest: r == deepest(err.fail)

//@ contract (err *parseError) Tree() (r *peg.Fail)
//@ props C09
//@ requires some: err != nil
//@ ensures tree: r == err.fail

//@ contract _NewParser(text string) (r *_Parser)
//@ props C09
//@ flag assumed
//@ ensures new: r != nil && r.text == text && clean(r)

//@ contract NewParser(text string) (r *Parser)
//@ props C09
//@ ensures new: r != nil && r._Parser != nil && r._Parser.text == text && clean(r._Parser)
//@ ensures path: r.FilePath == ""

//@ contract _full_textAccepts(parser *_Parser, start int) (deltaPos, deltaErr int)
//@ props C09
//@ mutates parser
//@ flag assumed
//@ ensures accepts: deltaPos == govUF_accepted("full_text", parser.text, start) && deltaErr == govUF_errorAt("full_text", parser.text, start)
//@ ensures text: parser.text == old_parser.text && (!clean(old_parser) || clean(parser))

//@ contract _wordAccepts(parser *_Parser, start int) (deltaPos, deltaErr int)
//@ props C09
//@ mutates parser
//@ flag assumed
//@ ensures accepts: deltaPos == govUF_accepted("word", parser.text, start) && deltaErr == govUF_errorAt("word", parser.text, start)
//@ ensures text: parser.text == old_parser.text && (!clean(old_parser) || clean(parser))

//@ contract _full_textNode(parser *_Parser, start int) (pos int, n *peg.Node)
//@ props C09
//@ mutates parser
//@ flag assumed
//@ requires accepted: govUF_accepted("full_text", parser.text, start) >= 0
//@ requires clean: len(parser.node) == 0
//@ ensures tree: pos == start+govUF_accepted("full_text", parser.text, start) && n != nil && govUF_treeOf(n, parser.text)
//@ ensures text: parser.text == old_parser.text && (len(old_parser.act) != 0 || len(parser.act) == 0)

//@ contract _full_textAction(parser *_Parser, start int) (pos int, n *Text)
//@ props C09
//@ mutates parser
//@ flag assumed
//@ requires accepted: govUF_accepted("full_text", parser.text, start) >= 0
//@ requires clean: len(parser.act) == 0
//@ ensures tree: pos == start+govUF_accepted("full_text", parser.text, start) && n != nil && govUF_textOf(n, parser.text)
//@ ensures text: parser.text == old_parser.text && (len(old_parser.node) != 0 || len(parser.node) == 0)

//@ contract _wordAction(parser *_Parser, start int) (pos int, n **Word)
//@ props C09
//@ mutates parser
//@ flag assumed
//@ requires accepted: govUF_accepted("word", parser.text, start) >= 0
//@ requires clean: len(parser.act) == 0
//@ ensures tree: pos == start+govUF_accepted("word", parser.text, start) && n != nil && *n != nil && govUF_wordAt(*n, parser.text, start)
//@ ensures text: parser.text == old_parser.text && (len(old_parser.node) != 0 || len(parser.node) == 0)

//@ contract _full_textFail(parser *_Parser, start int, errPos int) (pos int, f *peg.Fail)
//@ props C09
//@ mutates parser
//@ flag assumed
//@ requires rejected: govUF_accepted("full_text", parser.text, start) < 0
//@ requires position: errPos == start+govUF_errorAt("full_text", parser.text, start)
//@ requires clean: len(parser.fail) == 0 && parser.lastFail == errPos
//@ ensures tree: allThere(f) && govUF_failOf(f, "full_text", parser.text, start)
//@ ensures text: parser.text == old_parser.text && (!clean(old_parser) || clean(parser))

//@ contract _wordFail(parser *_Parser, start int, errPos int) (pos int, f *peg.Fail)
//@ props C09
//@ mutates parser
//@ flag assumed
//@ requires rejected: govUF_accepted("word", parser.text, start) < 0
//@ requires position: errPos == start+govUF_errorAt("word", parser.text, start)
//@ requires clean: len(parser.fail) == 0 && parser.lastFail == errPos
//@ ensures tree: allThere(f) && govUF_failOf(f, "word", parser.text, start)
//@ ensures text: parser.text == old_parser.text && (!clean(old_parser) || clean(parser))

// failed: err reports the failure of a rule at an offset of the text.
//
//@ spec inline
func failed(err Error, rule string, p *Parser, text string, start int) bool {
	e, ok := err.(*parseError)
	return ok && e != nil && allThere(e.fail) && govUF_failOf(e.fail, rule, text, start) && e.err.FilePath == p.FilePath
}

//@ contract (p *Parser) Tree() (n *peg.Node, err Error)
//@ props C09
//@ mutates p
//@ flag owns
//@ requires clean: clean(p._Parser)
//@ ensures accepts: (err == nil) == (govUF_accepted("full_text", old_p._Parser.text, 0) >= 0)
//@ ensures tree: err != nil || n != nil && govUF_treeOf(n, old_p._Parser.text)
//@ ensures error: err == nil || n == nil && failed(err, "full_text", old_p, old_p._Parser.text, 0)
//@ ensures clean: clean(p._Parser) && p._Parser.text == old_p._Parser.text && p.FilePath == old_p.FilePath

//@ contract (p *Parser) Text() (n *Text, err Error)
//@ props C09
//@ mutates p
//@ flag owns
//@ requires clean: clean(p._Parser)
//@ ensures accepts: (err == nil) == (govUF_accepted("full_text", old_p._Parser.text, 0) >= 0)
//@ ensures tree: err != nil || n != nil && govUF_textOf(n, old_p._Parser.text)
//@ ensures error: err == nil || n == nil && failed(err, "full_text", old_p, old_p._Parser.text, 0)
//@ ensures clean: clean(p._Parser) && p._Parser.text == old_p._Parser.text && p.FilePath == old_p.FilePath

//@ contract (p *Parser) Word(offs int) (n *Word, size int, err Error)
//@ props C09
//@ mutates p
//@ flag owns
//@ requires clean: clean(p._Parser)
//@ ensures accepts: (err == nil) == (govUF_accepted("word", old_p._Parser.text, offs) >= 0)
//@ ensures word: err != nil || n != nil && govUF_wordAt(n, old_p._Parser.text, offs) && size == govUF_accepted("word", old_p._Parser.text, offs)
//@ ensures error: err == nil || n == nil && size == 0 && failed(err, "word", old_p, old_p._Parser.text, offs)
//@ ensures clean: clean(p._Parser) && p._Parser.text == old_p._Parser.text && p.FilePath == old_p.FilePath
