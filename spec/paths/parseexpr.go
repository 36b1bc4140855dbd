package paths

import "regexp"

// The grammar of script expressions, as functions on the input s: each takes the token t that starts
// a phrase, and gives its tree and the token after it, or fails.
//
//	expr(pri) ::= primary (op expr(precedence(op)+1))*    for op with precedence(op) >= pri
//	primary   ::= primary1 ("(" list? ")" | "[" expr(0) "]" | "." identifier)*
//	list      ::= expr(0) ("," expr(0))*
//	primary1  ::= literal | identifier | "@" | "$" | "-" primary | "!" primary | "(" expr(0) ")" | "[" list? "]"
type spE struct {
	fail bool
	e    Expr
	next spTok
}

type spL struct {
	fail bool
	l    []Expr
	next spTok
}

func spEFail() spE { return spE{true, nil, spTFail()} }
func spLFail() spL { return spL{true, []Expr{}, spTFail()} }

// spLeft is the length of the input from a token's last byte.
//
//gover:def
func spLeft(s string, t spTok) int {
	if t.tok == tokEOF || t.tok == tokError || t.pos < 0 || t.pos > len(s) {
		return 0
	}
	return len(s) - t.pos + 1
}

// spLater says whether u comes after t. Tokens after a phrase always do, as the parser's contracts show.
func spLater(s string, t, u spTok) bool { return spLeft(s, u) < spLeft(s, t) }

func spNextE(s string, t spTok) spTok { return spExprTok(s, t.pos) }

// spOpTok is t as an operator: the keywords are identifiers elsewhere.
//
//gover:def
func spOpTok(t spTok) spTok {
	if t.tok == tokID && t.val.(string) == "in" {
		return spTok{tokIn, t.val, t.pos}
	}
	if t.tok == tokID && t.val.(string) == "nin" {
		return spTok{tokNin, t.val, t.pos}
	}
	return t
}

// spPrec is the precedence of an infix operator, or -1 if t is none.
func spPrec(t token) int {
	switch t {
	case tokOr:
		return 0
	case tokAnd:
		return 1
	case tokEQ, tokNE:
		return 2
	case '<', tokLE, tokGE, '>', '~', tokMatch, tokIn, tokNin:
		return 3
	case '+', '-':
		return 4
	case '*', '/', '%':
		return 5
	}
	return -1
}

func spInfix(t token) Op {
	switch t {
	case tokOr:
		return OpOr
	case tokAnd:
		return OpAnd
	case tokEQ:
		return OpEQ
	case tokNE:
		return OpNE
	case '<':
		return OpLT
	case tokLE:
		return OpLE
	case '>':
		return OpGT
	case tokGE:
		return OpGE
	case '~', tokMatch:
		return OpMatch
	case tokIn:
		return OpIn
	case tokNin:
		return OpNin
	case '+':
		return OpAdd
	case '-':
		return OpSub
	case '*':
		return OpMul
	case '/':
		return OpDiv
	case '%':
		return OpMod
	}
	return OpError
}

func spExprP(s string, t spTok, pri int) spE {
	decreases(spLeft(s, t))
	decreases(3)
	r := spPrimary(s, t)
	if r.fail || !spLater(s, t, r.next) {
		return spEFail()
	}
	return spBinary(s, r.e, spOpTok(r.next), pri)
}

// spBinary is the rest of an expression after its left operand e, from the token t.
func spBinary(s string, e Expr, t spTok, pri int) spE {
	decreases(spLeft(s, t))
	decreases(4)
	if spPrec(t.tok) < pri {
		return spE{false, e, t}
	}
	if !spLater(s, t, spNextE(s, t)) {
		return spEFail()
	}
	r := spExprP(s, spNextE(s, t), spPrec(t.tok)+1)
	if r.fail || !spLater(s, t, r.next) {
		return spEFail()
	}
	return spBinary(s, &Inner{spInfix(t.tok), []Expr{e, r.e}}, spOpTok(r.next), pri)
}

func spPrimary(s string, t spTok) spE {
	decreases(spLeft(s, t))
	decreases(2)
	r := spPrimary1(s, t)
	if r.fail || !spLater(s, t, r.next) {
		return spEFail()
	}
	return spPostfix(s, r.e, r.next)
}

// spPostfix is the rest of a primary after e, from the token t.
func spPostfix(s string, e Expr, t spTok) spE {
	decreases(spLeft(s, t))
	decreases(6)
	u := spNextE(s, t)
	switch t.tok {
	case '(':
		if e.Opcode() != OpID || !spLater(s, t, u) {
			return spEFail()
		}
		r := spApply(s, OpCall, ')', []Expr{e}, u)
		if r.fail || !spLater(s, t, r.next) {
			return spEFail()
		}
		return spPostfix(s, r.e, r.next)
	case '[':
		if !spLater(s, t, u) {
			return spEFail()
		}
		r := spExprP(s, u, 0)
		if r.fail || r.next.tok != ']' || !spLater(s, t, spNextE(s, r.next)) {
			return spEFail()
		}
		return spPostfix(s, &Inner{OpIndex, []Expr{e, r.e}}, spNextE(s, r.next))
	case '.':
		if u.tok != tokID || !spLater(s, t, spNextE(s, u)) {
			return spEFail()
		}
		return spPostfix(s, &Inner{OpDot, []Expr{e, &NameLeaf{OpID, u.val.(string)}}}, spNextE(s, u))
	}
	return spE{false, e, t}
}

// spApply is the operator op applied to args and the list from t to the closing end.
func spApply(s string, op Op, end token, args []Expr, t spTok) spE {
	decreases(spLeft(s, t))
	decreases(5)
	if t.tok == end {
		return spE{false, &Inner{op, args}, spNextE(s, t)}
	}
	l := spList(s, args, t)
	if l.fail || l.next.tok != end {
		return spEFail()
	}
	return spE{false, &Inner{op, l.l}, spNextE(s, l.next)}
}

func spList(s string, args []Expr, t spTok) spL {
	decreases(spLeft(s, t))
	decreases(4)
	r := spExprP(s, t, 0)
	if r.fail {
		return spLFail()
	}
	if r.next.tok != ',' {
		return spL{false, snoc(args, r.e), r.next}
	}
	if !spLater(s, t, spNextE(s, r.next)) {
		return spLFail()
	}
	return spList(s, snoc(args, r.e), spNextE(s, r.next))
}

func spPrimary1(s string, t spTok) spE {
	decreases(spLeft(s, t))
	decreases(1)
	u := spNextE(s, t)
	switch t.tok {
	case '-', '!':
		if !spLater(s, t, u) {
			return spEFail()
		}
		r := spPrimary(s, u)
		if r.fail {
			return spEFail()
		}
		return spE{false, &Inner{ite(t.tok == '-', OpNeg, OpNot), []Expr{r.e}}, r.next}
	case tokID:
		return spE{false, spWord(t.val.(string)), u}
	case tokInt:
		return spE{false, &IntLeaf{OpInt, t.val.(int64)}, u}
	case tokReal:
		return spE{false, &FloatLeaf{OpReal, t.val.(float64)}, u}
	case tokString:
		return spE{false, &StringLeaf{OpString, t.val.(string)}, u}
	case '/':
		l := spRE(s, t.pos, '/', "")
		if l.fail {
			return spEFail()
		}
		prog, err := regexp.Compile(l.s)
		if err != nil {
			return spEFail()
		}
		return spE{false, &RegexpLeaf{OpRE, l.s, prog}, spExprTok(s, l.pos)}
	case '@':
		return spE{false, &NameLeaf{OpCurrent, "@"}, u}
	case '$':
		return spE{false, &NameLeaf{OpRoot, "$"}, u}
	case '(':
		if !spLater(s, t, u) {
			return spEFail()
		}
		r := spExprP(s, u, 0)
		if r.fail || r.next.tok != ')' {
			return spEFail()
		}
		return spE{false, r.e, spNextE(s, r.next)}
	case '[':
		if !spLater(s, t, u) {
			return spEFail()
		}
		return spApply(s, OpArray, ']', []Expr{}, u)
	}
	return spEFail()
}

func spWord(w string) Expr {
	switch w {
	case "true":
		return &BoolLeaf{OpBool, true}
	case "false":
		return &BoolLeaf{OpBool, false}
	case "null":
		return &NullLeaf{OpNull}
	}
	return &NameLeaf{OpID, w}
}

func spIsExpr(e Expr) bool {
	switch e.(type) {
	case *Inner, *IntLeaf, *FloatLeaf, *StringLeaf, *BoolLeaf, *NullLeaf, *NameLeaf, *RegexpLeaf:
		return true
	}
	return false
}

// spParsed says whether a parsing function gave e and the state p, or err, as the grammar has it.
func spParsed(p *parser, e Expr, err error, r spE) bool {
	return (err != nil) == r.fail && implies(err == nil, eq(e, r.e) && eq(spCurE(p.lexer), r.next))
}

func contract_parser_lexOp(p0, p *parser, r lexeme) {
	requires(spOK(p0.lexer))
	ensures(p.r.s == p0.r.s)
	ensures(spIn(p.r.s, p.r.pos))
	ensures(p.r.pos >= p0.r.pos)
	ensures(!p.peek)
	ensures(spSane(r))
	ensures(eq(spTokOf(r, p.r.pos), spOpTok(spCurE(p0.lexer))))
}

func contract_parser_expr(p0, p *parser, pri int, e Expr, err error) {
	requires(spOK(p0.lexer))
	requires(pri >= 0)
	decreases(spLeft(p0.r.s, spCurE(p0.lexer)))
	decreases(3)
	ensures(p.r.s == p0.r.s)
	ensures(spOK(p.lexer))
	ensures(implies(err == nil, spIsExpr(e)))
	ensures(spParsed(p, e, err, spExprP(p0.r.s, spCurE(p0.lexer), pri)))
	ensures(implies(err == nil, p.peek && spLater(p0.r.s, spCurE(p0.lexer), spCurE(p.lexer))))
	loop(func(p *parser, e Expr) {
		inv(spIsExpr(e))
		inv(p.r.s == p0.r.s)
		inv(spOK(p.lexer))
		inv(spLater(p0.r.s, spCurE(p0.lexer), spCurE(p.lexer)))
		inv(eq(spBinary(p.r.s, e, spOpTok(spCurE(p.lexer)), pri), spExprP(p0.r.s, spCurE(p0.lexer), pri)))
		decreases(spLeft(p.r.s, spCurE(p.lexer)))
	})
}

func contract_parser_primary(p0, p *parser, e Expr, err error) {
	requires(spOK(p0.lexer))
	decreases(spLeft(p0.r.s, spCurE(p0.lexer)))
	decreases(2)
	ensures(p.r.s == p0.r.s)
	ensures(spOK(p.lexer))
	ensures(implies(err == nil, spIsExpr(e)))
	ensures(spParsed(p, e, err, spPrimary(p0.r.s, spCurE(p0.lexer))))
	ensures(implies(err == nil, p.peek && spLater(p0.r.s, spCurE(p0.lexer), spCurE(p.lexer))))
	loop(func(p *parser, e Expr) {
		inv(spIsExpr(e))
		inv(p.r.s == p0.r.s)
		inv(spOK(p.lexer))
		inv(spLater(p0.r.s, spCurE(p0.lexer), spCurE(p.lexer)))
		inv(eq(spPostfix(p.r.s, e, spCurE(p.lexer)), spPrimary(p0.r.s, spCurE(p0.lexer))))
		decreases(spLeft(p.r.s, spCurE(p.lexer)))
	})
}

func contract_parser_primary1(p0, p *parser, e Expr, err error) {
	requires(spOK(p0.lexer))
	decreases(spLeft(p0.r.s, spCurE(p0.lexer)))
	decreases(1)
	ensures(p.r.s == p0.r.s)
	ensures(spOK(p.lexer))
	ensures(implies(err == nil, spIsExpr(e)))
	ensures(spParsed(p, e, err, spPrimary1(p0.r.s, spCurE(p0.lexer))))
	ensures(implies(err == nil, spLater(p0.r.s, spCurE(p0.lexer), spCurE(p.lexer))))
}

func contract_parser_unary(p0, p *parser, op Op, e Expr, err error) {
	requires(spOK(p0.lexer))
	decreases(spLeft(p0.r.s, spCurE(p0.lexer)))
	decreases(3)
	ensures(p.r.s == p0.r.s)
	ensures(spOK(p.lexer))
	ensures(implies(err == nil, spIsExpr(e)))
	ensures((err != nil) == spPrimary(p0.r.s, spCurE(p0.lexer)).fail)
	ensures(implies(err == nil, eq[Expr](e, &Inner{op, []Expr{spPrimary(p0.r.s, spCurE(p0.lexer)).e}})))
	ensures(implies(err == nil, eq(spCurE(p.lexer), spPrimary(p0.r.s, spCurE(p0.lexer)).next)))
	ensures(implies(err == nil, spLater(p0.r.s, spCurE(p0.lexer), spCurE(p.lexer))))
}

func contract_parser_application(p0, p *parser, op Op, end token, e, r Expr, err error) {
	requires(spOK(p0.lexer))
	requires(end == ')' || end == ']')
	decreases(spLeft(p0.r.s, spCurE(p0.lexer)))
	decreases(5)
	ensures(p.r.s == p0.r.s)
	ensures(spOK(p.lexer))
	ensures(implies(err == nil, spIsExpr(r)))
	ensures(implies(e == nil, spParsed(p, r, err, spApply(p0.r.s, op, end, []Expr{}, spCurE(p0.lexer)))))
	ensures(implies(e != nil, spParsed(p, r, err, spApply(p0.r.s, op, end, []Expr{e}, spCurE(p0.lexer)))))
	ensures(implies(err == nil, spLater(p0.r.s, spCurE(p0.lexer), spCurE(p.lexer))))
}

func contract_parser_parseExprList(p0, p *parser, list, r []Expr, err error) {
	requires(spOK(p0.lexer))
	consumes(list)
	fresh(r)
	decreases(spLeft(p0.r.s, spCurE(p0.lexer)))
	decreases(4)
	ensures(p.r.s == p0.r.s)
	ensures(spOK(p.lexer))
	ensures((err != nil) == spList(p0.r.s, list, spCurE(p0.lexer)).fail)
	ensures(implies(err == nil, eq(r, spList(p0.r.s, list, spCurE(p0.lexer)).l)))
	ensures(implies(err == nil, eq(spCurE(p.lexer), spList(p0.r.s, list, spCurE(p0.lexer)).next)))
	ensures(implies(err == nil, p.peek && spLater(p0.r.s, spCurE(p0.lexer), spCurE(p.lexer))))
	loop(func(p *parser, list []Expr) {
		inv(p.r.s == p0.r.s)
		inv(spOK(p.lexer))
		inv(spLeft(p.r.s, spCurE(p.lexer)) <= spLeft(p0.r.s, spCurE(p0.lexer)))
		inv(eq(spList(p.r.s, list, spCurE(p.lexer)), spList(p0.r.s, atEntry(list), spCurE(p0.lexer))))
		decreases(spLeft(p.r.s, spCurE(p.lexer)))
	})
}

func contract_parser_parseScriptExpr(p0, p *parser, e Expr, err error) {
	requires(spOK(p0.lexer))
	decreases(spLeft(p0.r.s, spCurE(p0.lexer)))
	decreases(4)
	ensures(p.r.s == p0.r.s)
	ensures(spOK(p.lexer))
	ensures(implies(err == nil, spIsExpr(e)))
	ensures(spParsed(p, e, err, spExprP(p0.r.s, spCurE(p0.lexer), 0)))
	ensures(implies(err == nil, p.peek && spLater(p0.r.s, spCurE(p0.lexer), spCurE(p.lexer))))
}

func contract_ParseScriptExpression(s string, e Expr, err error) {
	ensures((err == nil) == (e != nil))
	ensures((err == nil) == (!spExprP(s, spExprTok(s, 0), 0).fail && spExprP(s, spExprTok(s, 0), 0).next.tok == tokEOF))
	ensures(implies(err == nil, eq(e, spExprP(s, spExprTok(s, 0), 0).e)))
}
