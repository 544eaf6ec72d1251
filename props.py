# Per-property configuration of the checks.

ASSUMPTIONS = {
    "trusted": [
        "gov: the verification-condition generator of /verif/gov (symbolic execution of go/ssa, heap and sequence theory encoding, structural-induction rule for lemmas)",
        "golang.org/x/tools/go/ssa as the meaning of the source",
        "z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
        "gov's models of the Go standard library functions it lists under library_models_assumed",
    ],
    "common": [
        "integers are mathematical (no overflow of byte offsets)",
        "partial correctness: termination is not proved",
        "inputs are finite acyclic trees; the node types of the package are the only implementations of its interfaces",
        "strings are sequences of code units as the code handles them; invalid UTF-8 is outside the claims",
        "append never aliases spare capacity of a slice that is still in use elsewhere, unless stated",
    ],
}

PROPS = {
    "C01": {"pkgs": "tone", "wpkg": "tone", "witness": "TestWitnessC01"},
    "C02": {"pkgs": "tone", "wpkg": "tone", "witness": "TestWitnessC02"},
    "C03": {"pkgs": "tone,dict", "wpkg": "dict", "witness": "TestWitnessC03",
            "assumptions": ["what net/http and encoding/json give depends only on what they are given",
                            "the fields of the reply are what its JSON has for the keys of their tags"],
            "bounded": [{"test": "TestBoundedLoad", "quick": 8000, "thorough": 500000,
                         "what": "generated replies of a server on the loopback network: well-formed, broken, cut off, of wrong types, unsuccessful or without data; the words loaded or the error"}]},
    "C04": {"pkgs": "tone,ast", "wpkg": "ast", "witness": "TestWitnessC04"},
    "C05": {"pkgs": "tone,ast", "wpkg": "ast", "witness": "TestWitnessC05",
            "assumptions": ["visitors return normally and do not reshape the tree while it is visited"]},
    "C06": {"pkgs": "tone,ast", "wpkg": "ast", "witness": "TestWitnessC06"},
    "C07": {"pkgs": "tone,ast", "wpkg": "ast", "witness": "TestWitnessC07"},
    "C08": {"pkgs": "tone,ast", "wpkg": "ast", "witness": "TestWitnessC08",
            "bounded": [{"test": "TestBoundedParse", "quick": 4000, "thorough": 200000,
                         "what": "generated texts through the real parser: the tree's words partition the text and spell it"}]},
    "C15": {"pkgs": "tone,ast,logic", "wpkg": "logic", "witness": "TestWitnessC15"},
    "C17": {"pkgs": "tone,ast,logic", "wpkg": "logic", "witness": "TestWitnessC17",
            "assumptions": ["the function called does not reshape the tree while it is visited"],
            "bounded": [{"test": "TestBoundedNillOut", "quick": 5000, "thorough": 400000,
                         "what": "generated logic trees: NillOutAST clears every AST field and changes nothing else"}]},
    "C13": {"pkgs": "tone,ast,logic", "wpkg": "logic", "witness": "TestWitnessC13",
            "bounded": [{"test": "TestBoundedNames", "quick": 3000, "thorough": 150000,
                         "what": "interpretations of generated texts and generated trees, printed plainly and prettily: the whole output is the notation of the tree under one name per variable, and distinct variables have distinct names"}]},
    "C10": {"pkgs": "tone,ast,logic", "wpkg": "logic", "witness": "TestWitnessC10",
            "assumptions": ["statements about an interpreter method hold of calls that return: it may panic on words the grammar does not pass",
                            "a recorded call is one the path takes before it returns; calls that panic are not seen"],
            "bounded": [{"test": "TestBoundedPlaces", "quick": 30000, "thorough": 1000000,
                         "what": "generated sentences of linked, plain, connected and prenex arguments through the real parser and interpreter: the slots of every predication"}]},
    "C11": {"pkgs": "tone,ast,logic", "wpkg": "logic", "witness": "TestWitnessC11",
            "assumptions": ["a binding returned with its scope still open is completed only by the caller it was returned to",
                            "toString, which writes out the text of a quotation, changes nothing",
                            "X.Visit(func) calls the function for each node of the tree in preorder, which C17 proves of every Visit, and the function does not reshape the tree",
                            "statements about an interpreter method hold of calls that return: it may panic on words the grammar does not pass"],
            "bounded": [{"test": "TestBoundedSpread", "quick": 4000, "thorough": 200000,
                         "what": "generated texts through the real parser and interpreter: connectives and predicates of the whole text, of every restriction, abstraction and plural argument, and of what follows each preposition and adverb"}]},
    "C12": {"pkgs": "tone,ast,logic", "wpkg": "logic", "witness": "TestWitnessC12",
            "assumptions": ["a binding returned with its scope still open is completed only by the caller it was returned to",
                            "X.Visit(func) calls the function for each node of the tree in preorder, which C17 proves of every Visit, and the function does not reshape the tree",
                            "statements about an interpreter method hold of calls that return: it may panic on words the grammar does not pass"],
            "bounded": [{"test": "TestBoundedScope", "quick": 6000, "thorough": 300000,
                         "what": "generated texts through the real parser and interpreter: which binding every variable and every hoa refers to, that it is inside that binding and has its number, and the numbers of unbound variables"}]},
    "C14": {"pkgs": "tone,ast,logic", "wpkg": "logic", "witness": "TestWitnessC14",
            "assumptions": ["X.Visit(func) calls the function for each node of the tree in preorder, which C17 proves of every Visit, and the function does not reshape the tree",
                            "the tree given to simplify is complete: nothing is assigned later to a field that the specification reads"],
            "bounded": [{"test": "TestBoundedSimplify", "quick": 30000, "thorough": 1500000,
                         "what": "generated logic trees and interpretations of generated texts: the simplified statement is the one a separate functional definition of the rules gives, its variables are inside their bindings and share their numbers, and numbers are those of the order of first appearance"}]},
    "C09": {"pkgs": "tone,ast", "wpkg": "ast", "witness": "TestWitnessC09",
            "assumptions": ["the functions generated from the grammar for the rules full_text and word: whether they accept and where they fail depends only on the text and the offset, they leave the text alone, and they make new nodes when their record of nodes is empty",
                            "a map in a field of the parser is not held by anyone else"],
            "bounded": [{"test": "TestBoundedCalls", "quick": 2500, "thorough": 80000,
                         "what": "sequences of calls of Text, Tree and Word on one parser of a generated, possibly broken text: each result equals that of a new parser, is right by itself and is not affected by changing earlier results; error offsets, locations and file paths"}]},
}
