prop("C01", "Setting a tone changes the first vowel of a word and nothing else",
     "WithTone replaces the first vowel of a word, plain or toned, upper or lower case, by the same vowel carrying the given tone (or no tone), keeping its case and every other character; the untoned lower-case i is written dotless. A word without a vowel is returned unchanged. It never panics for the seven tones or none.",
     ["inputs"], "every string of valid UTF-8 and every tone (or none)",
     "The tests try a few words per tone; the result depends on which vowel letter comes first, its case, its present tone among eight letter forms, and the code looks letters up in tables of 80 entries.",
     ["tone/tone.go"], [("WithTone", "tone/tone.go"), ("letter tables Diacritic, ascii, vowels", "tone/tone.go")],
     ["tone.WithTone"])
C["C01"] = (TECH, "Proved for all strings and tones, with the package's letter tables read from the initialised package; the specification's letters are written out from Unicode names. Valid UTF-8 is assumed.")

prop("C02", "A word's ASCII form keeps its letters, each syllable's tone after it",
     "ToASCII writes each toned vowel as its plain letter with case kept and writes the tone's mark exactly once, where the syllable ends: before the next character that is neither a plain vowel nor q, before another toned vowel, or at the end of the word; dotless i becomes i and every other character is kept. The result has no toned letter and converting it again changes nothing. Strip is that form without any tone mark, and Tone is the first mark in it, or none.",
     ["inputs"], "every string of valid UTF-8",
     "The tests convert seven words; syllable ends depend on every pair of adjacent letters, on case and on words of any length.",
     ["tone/tone.go"], [("ToASCII", "tone/tone.go"), ("Strip", "tone/tone.go"), ("Tone", "tone/tone.go"), ("letter tables", "tone/tone.go")],
     ["tone.ToASCII", "tone.Strip", "tone.Tone"])
C["C02"] = (TECH, "Proved for all strings: a loop invariant relates the builder to a letter-by-letter specification; idempotence and absence of toned letters are proved as further postconditions. A defect found here is repaired in /repo.")

prop("C03", "Loading the dictionary gives the last entry of every word, or an error",
     "Load posts the query as JSON to the URL. When the reply is JSON that reports success and has data, the result maps exactly the words of the entries, in lower-case ASCII without tone marks, each to the last entry whose word has that form, with its definition, author and score unchanged and its Word in that form. When posting or reading the reply fails, the reply reports no success (with or without a message) or has no data, there is an error and no words. Load never panics and closes the reply it read.",
     ["inputs", "faults"], "every reply of the service: any entries with any words, any missing part, any failure to send, receive or decode",
     "The only test looks one word up in the stored dictionary; no test calls Load, whose behaviour depends on what a remote service replies.",
     ["dict/dict.go"], [("Load", "dict/dict.go"), ("Word", "dict/dict.go"), ("Strip", "tone/tone.go")], ["dict.Load"])
C["C03"] = (TECH, "Proved for all replies: Load against a specification over what posting and decoding give; net/http and encoding/json are assumed by contract (results depend only on their arguments, decoding fills each field with what the reply has for its key). Checked as well over generated replies of a loopback server, labelled bounded.")

prop("C04", "Start and End of a syntax node are the bounds of its own words",
     "For every non-empty syntax node, the start offset is the start of its first word and the end offset is the end of its last word, in source order; modifiers attached to words (spaces, interjections, parentheticals, vocatives) and the modifier that leads a text do not count. Every optional part present or absent (quantifier, focus, terminator, terms, forethought markers) is taken into account.",
     ["inputs"], "every well-formed syntax tree: any node type, any nesting, every combination of optional parts",
     "The tests read offsets of a handful of parsed sentences; the optional parts combine over 41 node types and unbounded nesting.",
     ["ast/ast.go"], [("Start and End methods of every node type", "ast/ast.go"), ("start and end helpers", "ast/ast.go")],
     ["ast.Node.Start", "ast.Node.End"])
C["C04"] = (TECH, "Proved for every node type and all trees: each Start/End body against an interface contract over the sequence of the node's words. Assumes finite acyclic trees and the closed set of node types.")

prop("C05", "Visiting a syntax tree calls the visitor on every node once, in order",
     "Visiting a tree calls the visitor on the node, then, if that call returned a visitor, visits each child present in source order with the returned visitor, and finally calls the returned visitor with nil. If the call returned nil, nothing below the node is visited; absent words and nodes are skipped (an absent list of terms is visited as an empty list), and no child is ever missed, repeated or reordered.",
     ["inputs", "programs"], "every well-formed tree and every visitor, whatever it returns at each call",
     "The tests visit a few parsed sentences with one counting visitor; visitors may return any visitor or nil at each node and trees are unbounded.",
     ["ast/visit.go"], [("Visit", "ast/visit.go")], ["ast.Visit", "ast.FuncVisitor"])
C["C05"] = (TECH, "Proved for all trees and all visitors: the ghost trace of visitor calls equals the specified sequence. Assumes visitors do not reshape the tree or panic.")

prop("C06", "Equal is structural equality of syntax trees, ignoring positions",
     "Two syntax trees are equal exactly when they have the same node types, the same word texts and equal modifiers and children throughout, absent parts matching absent parts; byte offsets play no role. The comparison never panics on well-formed nodes of any type.",
     ["inputs"], "every pair of well-formed trees (or nil), of equal or different node types",
     "The tests compare sampled pairs; equality has to look at each field of each of 41 node types and one field left out goes unnoticed unless a sampled pair differs only there.",
     ["ast/equal.go"], [("Equal", "ast/equal.go")], ["ast.Equal"])
C["C06"] = (TECH, "Proved for all pairs of trees: Equal(a,b) == structural equality spec, for every pair of node types. A defect found here (CoP and LUPhrase nodes panicked) is repaired in /repo.")

prop("C07", "Braces notation shows exactly the words and the nesting of the tree",
     "The braces form of a tree is its words and visible modifiers in source order, separated by single spaces, with a pair of braces around each node that shows two or more parts and none around a node that shows one; the four kinds of braces cycle with nesting depth and always match. Original spacing is dropped, absent parts show nothing, and it never panics on a well-formed node.",
     ["inputs"], "every well-formed tree",
     "The tests compare 20 or so sentences; the output depends on every node type, on which parts are absent and on depth modulo four.",
     ["ast/braces.go"], [("BracesString, braces, braceKids", "ast/braces.go")], ["ast.BracesString"])
C["C07"] = (TECH, "Proved for all trees and depths: text written equals the recursive rendering spec; reflection and io.Writer are modelled.")

prop("C08", "Parsing loses, invents or reorders no word of the text",
     "The words of the syntax tree of a text, modifiers and spaces included, taken in source order, are adjacent, begin at the first byte and end at the last, and each spells the piece of text in its range. Attaching a modifier to a node appends it after the node's last word and changes nothing else of the tree: neither its other words nor its structure.",
     ["inputs"], "every text the parser accepts; every node type and every modifier attached to it",
     "The tests compare parses of chosen sentences; a modifier can be attached to any node, each with its own notion of a last word, in combination with every optional part.",
     ["ast/ast.go", "ast/nodes.go", "ast/toaq.go", "ast/toaq.peggy"],
     [("mod methods of every node type", "ast/ast.go"), ("node builders called by the grammar's actions", "ast/nodes.go"), ("generated parser", "ast/toaq.go")],
     ["ast.Parser.Text"])
C["C08"] = (TECH, "Proved for all nodes and modifiers: every mod method and every node builder preserves words and shape. The generated PEG parser itself (115,000 lines) is only checked on a stated number of generated texts (bounded stand-in, labelled so in the evidence). Two defects found are repaired in /repo.")

prop("C15", "Function words mean the same in every tone and letter case",
     "A function word is recognised by its letters alone: in any tone, in upper, lower or mixed case, with dotted or dotless i, and no other word is taken for it. ru, ra and ri connect by and, or and question; ke (or no word), ja, sa, tu, sia and hi quantify by ι, λ, ∃, ∀, ∄ and ¿; fi, go, cu and ta name places 1 to 4; po and jei, mi and shu stand for their predicates. A word is a do-variable exactly when it is d, a toned o that ends the syllable, and whatever follows; its name is lower-case and untoned. A predicate's name is its letters in lower case without tones, with mea as ≺ and jeqtu as =.",
     ["inputs"], "every word of valid UTF-8, in any tone and case",
     "The tests use each word in one or two spellings; tone letters have eight forms each in two cases, words meet in any spelling, and the variable test depends on the letter after the o.",
     ["logic/interp.go"],
     [("hasText, connector, quantifier, goPos, poPred, miPred", "logic/interp.go"), ("splitVar, isVariablePredicate, isHoaPredicate", "logic/interp.go"), ("wordPred", "logic/interp.go")],
     ["logic.Interpret"])
C["C15"] = (TECH, "Proved for all words: each function of the interpreter that reads a function word against its table; strings.ToLower and the Unicode letter classes are modelled. Words outside a function's table (which the grammar never passes) are excluded by precondition. A defect found here is repaired in /repo.")

prop("C17", "Visiting a logic tree calls the function on every node once, in pre-order",
     "Visit calls the function on the node itself and then on every node below it, each before its children and children in order (a binding's restriction before its scope, a predication's predicate before its arguments), skipping absent parts and empty argument slots; no node is missed, repeated or reordered and binding references are not followed. NillOutAST clears the AST field of each of these nodes and changes nothing else.",
     ["inputs", "programs"], "every logic tree, with any absent restriction or argument, and every function that does not reshape the tree",
     "No test visits a logic tree directly; variable numbering, printing and simplification all rely on the order, and trees are unbounded.",
     ["logic/visit.go"], [("Visit methods, visit", "logic/visit.go"), ("NillOutAST", "logic/visit.go")], ["logic.Node.Visit", "logic.NillOutAST"])
C["C17"] = (TECH, "Proved for all trees: the ghost sequence of calls made by each Visit method equals the specified pre-order. NillOutAST (reflection that writes fields) is only checked on a stated number of generated trees, labelled bounded.")

prop("C13", "The printed logic expression shows the whole tree without ambiguity",
     "String and PrettyString write every part of the tree in order: quantifier, variable, restriction and scope of a binding; connected statements in parentheses unless predications or connections by the same connector; = and ≺ with two arguments as infix, every other predication with its arguments in order separated by commas, · for an empty slot; pluralities, quotes, abstractions, series and swaps each in their own brackets. A variable shows the same name wherever it occurs and different variables show different names. PrettyString differs only in writing ι turned and variable letters in mathematical italics. A writer's error is returned, and no other error is.",
     ["inputs", "faults"], "every logic tree; every writer, failing at any write or none",
     "The tests print interpretations of about ninety sentences and never a failing writer; notation depends on every node type in every position and names on how many variables share a letter.",
     ["logic/string.go"], [("print methods, parens, write, writeArguments, mathItalicCapitalLetters", "logic/string.go"), ("print, varRune, leftPredication, leftPred", "logic/string.go")],
     ["logic.String", "logic.PrettyString"])
C["C13"] = (TECH, "Proved for all trees, variable names and writers: each print method, write, writeArguments and the choice of a variable's letter. The distribution of names over variables in print (maps filled by a callback) is only checked on a stated number of generated texts and trees, labelled bounded.")

prop("C10", "Each argument fills the place its linking word names, or the next empty one",
     "The arguments of a statement take slots of its predication as follows: fi, go, cu and ta put their argument in the first, second, third or fourth slot; then every argument without a linking word, in the order they are said (those before pa first), takes the first slot still empty; there are exactly as many slots as arguments, or more when a linking word names a later one; slots nobody takes are shown as ·. Arguments of a bi prenex take no slot. With connectives among arguments or predicates, this holds of every combination of alternatives.",
     ["inputs"], "every list of arguments and places; every statement with any mix of linked, plain and connected arguments",
     "The tests contain two linked arguments in all; the order depends on every combination of linked and plain arguments, before and after the predicate.",
     ["logic/interp.go"], [("orderArguments, arguments.add, arguments.addAt, goPos, distributePredication", "logic/interp.go"), ("statement, subordinateStatement, prenexStatement, predication, preposition, predicationPreposition, predicateArgument", "logic/interp.go")],
     ["logic.Interpret"])
C["C10"] = (TECH, "Proved for all argument lists: orderArguments against a slot-filling specification (with every slot it indexes in range), add, addAt, goPos and distributePredication, and that the interpreter's methods between a clause and its predications hand the arguments on in the order said, each with the place its linking word names, and none of a bi prenex (calls recorded in ghost state). Generated sentences are compared end to end as well, labelled bounded.")

prop("C11", "Connectives keep their meaning, order and scope over the rest of a clause",
     "ru, ra and ri between statements, predicates, arguments, terms, prepositions, adverbs or relative clauses become one connective of two statements, left part first, that has the whole rest of the clause on both sides: connected terms repeat what follows them, a connected predicate repeats its arguments, a serial predicate pairs each predicate on its left with each on its right, and po, jei and roi over connected arguments make one predication per alternative. roi joins its arguments into a plurality instead. Sentences of a text are joined by and, in order, fragments saying nothing; a relative clause is joined by and to the restriction of its argument, after it. What follows a preposition or an adverb in its clause becomes what it is about, no more and no less. No connective or predicate is lost, repeated otherwise or moved. (This is the interpretation before it is simplified.)",
     ["inputs"], "every text: connectives anywhere, nested to any depth, with any terms before and after them",
     "The tests interpret about ninety sentences, most with at most one connective; connectives meet at every kind of phrase, nest and combine with linked terms, prepositions, adverbs and serial predicates.",
     ["logic/interp.go"],
     [("text, discourse, sentence, statement, subordinateStatement, prenexStatement", "logic/interp.go"),
      ("predicate, predication, distributePredication, serialPredicate, serialPredicateLeft, serialPredicateRight, poPredicate, poArgument", "logic/interp.go"),
      ("preposition, predicationPreposition, adverb, relativeClause, roi, roiLeft, roiRight, predicateArgument, varArgument, hoaArgument, bindScope", "logic/interp.go"),
      ("Terms.Prepend", "ast/ast.go")],
     ["logic.Interpret"])
C["C11"] = (TECH, "Proved for all syntax trees: the connectives and predicates of what each interpreter method returns, in prefix notation, equal those a recursive specification reads off the syntax; likewise of restrictions, plural arguments and po. What a preposition or adverb is about is proved to be the statement made of the rest of its clause, once, with the arguments said so far (calls recorded in ghost state). Generated texts are compared end to end as well, labelled bounded. Holds of calls that return; toString, which writes out the text of a quotation, is assumed to change nothing.")

prop("C12", "A variable refers to the innermost binding of its name that is in scope",
     "In an interpretation (before it is simplified), do/ and other variables refer to the binding of that name entered last among those whose scope is still open: a quantified variable is bound for the rest of its clause, for its own relative clause, and for clauses within; its scope ends with the clause, with the alternative of a connective it is in, or with the preposition or relative clause it was said in. A quantified variable always makes a new binding. hoa refers to the argument of the relative clause, or to the lu predicate, that it is directly in. A variable with no binding in scope is unbound and gets a number no binding has. Bindings keep the quantifier of their word; an unquantified or ke phrase is bound by \u03b9 outside everything when its restriction refers to no open binding, and otherwise is bound in place; a hi phrase is bound at the top of its clause, and variables it is lifted past become unbound. The same phrase met again in another alternative of a connective refers to the binding already made. Every variable with a binding is inside that binding and has its number.",
     ["inputs"], "every text: variables, hoa, quantifiers, relative clauses, connectives, prepositions and content clauses nested to any depth",
     "The tests have only stubs for scope (TestTermScope, TestHIScope, TestLambdaScope and TestIotaScope are empty); which binding a name means depends on everything said before it in the clause.",
     ["logic/interp.go"],
     [("newVar, pushVar, lookupVar, pushHoa, popHoa", "logic/interp.go"),
      ("predicateArgument, varArgument, hoaArgument, relativeClause, predicate, quantifier", "logic/interp.go"),
      ("statement, prenexStatement, subordinate, poArgument, predicationPreposition, roiLeft, roiRight, clearHiFreeVarDefs, hasFreeVars", "logic/interp.go")],
     ["logic.Interpret"])
C["C12"] = (TECH, "Proved for all syntax trees: every interpreter method gives back the scopes it was given, except that a quantified variable argument leaves exactly its own binding added; lookupVar finds the innermost binding; variables and hoa refer to the innermost binding in scope at their place and have its number; a quantified variable is in scope in its own relative clause; new bindings have new numbers and the quantifier of their word; a \u03b9 is lifted only when no variable in it is of a binding that is neither in it nor lifted before it, and is then the last at the top. What clearHiFreeVarDefs clears, and that every bound variable ends up inside its binding in the whole statement, is checked on a stated number of generated texts, labelled bounded.")

prop("C09", "A parser gives the same results however often and in whatever order it is called",
     "Text, Tree and Word can be called on one Parser any number of times and in any order: each call gives what it would give as the first call on a new parser of the text, and its result shares nothing with earlier results, so that changing one changes no other. Text and Tree accept the same texts; on failure there is an error and no result, otherwise a result and no error. Tree gives the tree of the whole text. Word(i) gives the word at byte i, with the number of bytes from i it takes, trailing space included. An error carries the FilePath of the parser and the tree of failures of the rule that was parsed, at the offset it was parsed; ByteOffset is the greatest offset at which that tree has a failure.",
     ["inputs", "histories"], "every text; every sequence of calls with every offset",
     "The tests call one method once per parser, hardly ever on a text that does not parse, and never look at error offsets after an earlier call.",
     ["ast/parser.go", "ast/toaq.go"],
     [("NewParser, Text, Tree, Word, parse", "ast/parser.go"), ("byteOffset, ByteOffset", "ast/parser.go"), ("_memo, _memoize, _failMemo, _fail", "ast/toaq.go")],
     ["ast.Parser"])
C["C09"] = (TECH, "Proved for all texts and offsets: Text, Tree and Word leave no record of the nodes they made, call the generated functions only with empty records and with the error position the rule reported at its offset, give a result or an error according to the rule, and report the size and the failure tree of that rule; ByteOffset is the deepest failure. What the functions generated from the grammar do with the parser (that accepting depends on text and offset only, that node and action functions make new nodes when their record is empty) is assumed by contract, and checked together with the methods on a stated number of generated call sequences, labelled bounded.")

prop("C14", "Simplifying a logic statement keeps its meaning",
     "Simplification changes a statement only thus. A variable defined by \u03b9 or \u039b as equal to a quotation, a plurality or an abstraction that it does not occur in is replaced by that throughout its scope and its binding is left out, unless the variable is used anywhere as a predicate (also in a series or with a swap). An abstraction used as a predicate, of exactly as many \u03bb as it is given arguments, none left out, is replaced by its statement with the arguments in order in place of its variables, unless one of these is used as a predicate. A predicate with a swap of a place is replaced by the predicate with the first argument and that of the place exchanged. A plurality within a plurality is replaced by its members; absent members are left out. A predication without arguments that is all or part of a restriction and does not mention the restricted variable gets it as its argument. Everything else, and the order, number and quantifiers of what remains, stays; every variable is still inside its binding, and afterwards bindings and unbound variables are numbered in the order they come in.",
     ["inputs"], "every statement of the logic: connectives, bindings, restrictions, \u03bb, series, swaps, pluralities and abstractions nested to any depth",
     "The tests simplify a few dozen sentences; which substitution applies depends on every use of a variable in the whole statement and on the steps that came before.",
     ["logic/simplify.go"],
     [("simplify, newState, sequenceVarNums", "logic/simplify.go"), ("simplifyStatement, simplifyArgument, simplifyPredicate", "logic/simplify.go"), ("sub, mentions, swap, lambdaSub", "logic/simplify.go"), ("addHoa, merge", "logic/simplify.go")],
     ["logic.Interpret"])
C["C14"] = (TECH, "Proved for all statements: each method of addHoa, simplifyStatement, simplifyArgument and simplifyPredicate, step by step: which parts it goes on to and in what order, what each variable is replaced by at that point, and what it makes of their results; sub, mentions, newState, swap, lambdaSub and merge against their rules; sequenceVarNums changes nothing but numbers. That the steps together give the simplified statement of the rules, the scopes of its variables and the numbering are checked on a stated number of generated statements, labelled bounded.")

prop("C16", "Every message to the bot or the server gets one reply and ends neither",
     "For any text the bot replies and the server answers a POST with JSON: the error when the text does not parse; otherwise the braces form and the logic expression, 'fragment' when the text says nothing, or the interpreter's complaint when it panics. No text ends the bot or the server. The server refuses other methods than GET and POST.",
     ["inputs", "faults"], "every text, including texts on which the interpreter panics; every failing reader or writer",
     "Neither package has tests; what matters are the texts on which the interpreter panics.",
     ["bot/bot.go", "server/server.go"], [("parse, safeInterp", "bot/bot.go"), ("rootHandler, safeInterp, toString", "server/server.go")], ["bot.parse", "server.rootHandler"])
NA["C16"] = "What these two functions do is to hand a text to ast and logic and to turn panics into replies with recover. The contracts of gov speak of calls that return: a panic has no postcondition, deferred functions are only run on return and recover is not modelled, so the one obligation that matters here (a panicking callee is answered) cannot be stated; what is left, the concatenation of results of other packages, would rest on assumed contracts alone. Two defects found while reading (texts on which the interpreter panics) are repaired in /repo."
