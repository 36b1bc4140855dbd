package main

// The roots of each property: the obligations of these functions and lemmas, and of everything they are
// verified against (closed over contracts, see check.go), decide it. A function with a list of cases is
// verified for these instructions of the machine only: those the property speaks of.

const anyRun = "mach.Program_Run"

var eqLemmas = []string{"mach.lemmaEqSym", "mach.lemmaEqFromSym", "mach.lemmaMembersSym", "mach.lemmaMember", "mach.lemmaHasAll", "mach.lemmaKeysCover", "mach.lemmaPigeonhole"}

func roots(l ...interface{}) []string {
	var r []string
	for _, x := range l {
		switch x := x.(type) {
		case string:
			r = append(r, x)
		case []string:
			r = append(r, x...)
		}
	}
	return r
}

var props = map[string]propDef{
	"C01": {fns: roots("paths.ParsePath", "paths.ParseScriptExpression"), pkg: "paths"},
	"C02": {fns: roots(anyRun), pkg: "mach"},
	"C03": {fns: roots(anyRun), pkg: "mach"},
	"C05": {fns: roots("mach.valsByKey", "mach.cvi", anyRun+"{OpMember,OpSelect,OpNestMember,OpNestSelect,OpDot,OpIndex}"), pkg: "mach"},
	"C06": {fns: roots("mach.valsByKey", "mach.cvi", anyRun+"{OpBounds,OpSelect,OpNestSelect,OpUnion,OpNestUnion}"), pkg: "mach"},
	"C07": {fns: roots("mach.valsWild", "mach.valsByKey", anyRun+"{OpWild,OpUnion,OpMember,OpSelect}"), pkg: "mach"},
	"C09": {fns: roots("mach.walkdown", "mach.walker", "mach.valsWild", "mach.valsByKey", anyRun+"{OpNest,OpRep,OpNestWild,OpNestMember,OpNestSelect,OpNestUnion,OpNestFilter}"), pkg: "mach"},
	"C10": {fns: roots(anyRun + "{OpFor,OpNest,OpRep,OpFilter,OpNestFilter,OpRoot,OpCurrent}"), pkg: "mach"},
	"C11": {fns: roots(anyRun + "{OpAdd,OpSub,OpMul,OpDiv,OpMod,OpNeg,OpNot,OpAnd,OpOr,OpLT,OpLE,OpGE,OpGT,OpMatch}"), pkg: "mach"},
	"C12": {fns: roots("mach.eqVal", "mach.searchJSON", eqLemmas, anyRun+"{OpEQ,OpNE,OpIn,OpNin}"), pkg: "mach"},
	"C13": {fns: roots("mach.call", "mach.searchJSON", anyRun+"{OpCall}"), pkg: "mach"},
	"C14": {fns: roots(anyRun), pkg: "mach"},
	"C15": {fns: roots("paths.ParseScriptExpression"), pkg: "paths"},
	"C16": {fns: roots("paths.lexer_lexPath", "paths.lexer_lexExpr", "paths.lexer_lexRegexp", "paths.parser_primary1", "paths.parser_parseVal", "paths.parser_parseMember", "paths.parser_parseSliceVal"), pkg: "paths"},
	"C17": {fns: roots(anyRun, "mach.walker"), pkg: "mach"},
	"C19": {fns: roots("paths.ParsePath"), pkg: "paths"},
}
