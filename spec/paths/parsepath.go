package paths

// The grammar of paths, as functions on the input s: each takes the token t that starts a phrase and
// gives its tree and the token after it, or fails.
//
//	path      ::= "$" step*
//	step      ::= "." member | ".." member | ("." "." | "") "[" subscript "]"
//	member    ::= "*" | identifier | integer | "(" expr ")"
//	subscript ::= element ("," element)*
//	element   ::= "*" | "(" expr ")" | "?(" expr ")" | integer | string | identifier | slice
//	slice     ::= bound? ":" bound? (":" bound?)?
//	bound     ::= integer | "(" expr ")"

func spNextP(s string, t spTok) spTok { return spPathTok(s, t.pos) }

// spParen is a script expression from i to its closing parenthesis, which is in next.
//
//gover:def
func spParen(s string, i int) spE {
	r := spExprP(s, spExprTok(s, i), 0)
	if r.fail || r.next.tok != ')' {
		return spEFail()
	}
	return r
}

type spM struct {
	fail bool
	op   Op
	v    Val
	pos  int
}

func spMFail() spM { return spM{true, OpError, nil, 0} }

//gover:def
func spMember(s string, t spTok) spM {
	switch t.tok {
	case '*':
		return spM{false, OpWild, nil, t.pos}
	case tokID:
		return spM{false, OpID, NameVal(t.val.(string)), t.pos}
	case tokInt:
		return spM{false, OpInt, IntVal(t.val.(int64)), t.pos}
	case '(':
		r := spParen(s, t.pos)
		if r.fail {
			return spMFail()
		}
		return spM{false, OpExp, r.e, r.next.pos}
	}
	return spMFail()
}

// spBound is an end or stride.
//
//gover:def
func spBound(s string, t spTok) spM {
	if t.tok == tokInt || t.tok == '(' {
		return spMember(s, t)
	}
	return spMFail()
}

// spS is a step, and spSs a list of them.
type spS struct {
	fail bool
	op   Op
	args []Val
	next spTok
}

func spSFail() spS { return spS{true, OpError, []Val{}, spTFail()} }

func spSlice(start, end, stride Val, next spTok) spS {
	return spS{false, OpSelect, []Val{&Slice{start, end, stride}}, next}
}

// spColon is the rest of a slice after start and a colon.
//
//gover:def
func spColon(s string, start Val, t spTok) spS {
	if t.tok == ',' || t.tok == ']' {
		return spSlice(start, nil, nil, t)
	}
	if t.tok == ':' {
		return spStride(s, start, nil, t)
	}
	e := spBound(s, t)
	if e.fail {
		return spSFail()
	}
	return spStride(s, start, e.v, spPathTok(s, e.pos))
}

func spStride(s string, start, end Val, t spTok) spS {
	if t.tok == ',' || t.tok == ']' {
		return spSlice(start, end, nil, t)
	}
	u := spNextP(s, t)
	if t.tok != ':' {
		return spSFail()
	}
	if u.tok == ',' || u.tok == ']' {
		return spSlice(start, end, nil, u)
	}
	b := spBound(s, u)
	if b.fail {
		return spSFail()
	}
	return spSlice(start, end, b.v, spPathTok(s, b.pos))
}

// spElement is an element of a subscript.
//
//gover:def
func spElement(s string, t spTok) spS {
	u := spNextP(s, t)
	switch t.tok {
	case '*':
		return spS{false, OpWild, []Val{}, u}
	case '(':
		r := spParen(s, t.pos)
		if r.fail {
			return spSFail()
		}
		w := spPathTok(s, r.next.pos)
		if w.tok == ':' {
			return spColon(s, r.e, spNextP(s, w))
		}
		return spS{false, OpExp, []Val{r.e}, w}
	case ':':
		return spColon(s, nil, u)
	case tokFilter:
		r := spParen(s, t.pos)
		if r.fail {
			return spSFail()
		}
		return spS{false, OpFilter, []Val{r.e}, spPathTok(s, r.next.pos)}
	case tokInt:
		if u.tok == ':' {
			return spColon(s, IntVal(t.val.(int64)), spNextP(s, u))
		}
		return spS{false, OpInt, []Val{IntVal(t.val.(int64))}, u}
	case tokString:
		return spS{false, OpString, []Val{StringVal(t.val.(string))}, u}
	case tokID:
		return spS{false, OpID, []Val{NameVal(t.val.(string))}, u}
	}
	return spSFail()
}

func contract_parser_parseExpr(p0, p *parser, e Expr, err error) {
	requires(spOK(p0.lexer) && !p0.peek)
	ensures(p.r.s == p0.r.s)
	ensures(spOK(p.lexer))
	ensures(implies(err == nil, p.r.pos > p0.r.pos))
	ensures((err != nil) == spParen(p0.r.s, p0.r.pos).fail)
	ensures(implies(err == nil, spIsExpr(e)))
	ensures(implies(err == nil, eq(e, spParen(p0.r.s, p0.r.pos).e)))
	ensures(implies(err == nil, !p.peek && p.r.pos == spParen(p0.r.s, p0.r.pos).next.pos))
}

func contract_parser_parseMember(p0, p *parser, op Op, v Val, err error) {
	requires(spOK(p0.lexer))
	ensures(p.r.s == p0.r.s)
	ensures(spOK(p.lexer))
	ensures(implies(err == nil, spLeft(p0.r.s, spCurP(p0.lexer)) > len(p.r.s)-p.r.pos))
	ensures((err != nil) == spMember(p0.r.s, spCurP(p0.lexer)).fail)
	ensures(implies(err == nil, !p.peek && p.r.pos == spMember(p0.r.s, spCurP(p0.lexer)).pos))
	ensures(implies(err == nil, op == spMember(p0.r.s, spCurP(p0.lexer)).op && eq(v, spMember(p0.r.s, spCurP(p0.lexer)).v)))
}

func contract_parser_parseSliceVal(p0, p *parser, v Val, err error) {
	requires(spOK(p0.lexer))
	ensures(p.r.s == p0.r.s)
	ensures(spOK(p.lexer))
	ensures(implies(err == nil, spLeft(p0.r.s, spCurP(p0.lexer)) > len(p.r.s)-p.r.pos))
	ensures((err != nil) == spBound(p0.r.s, spCurP(p0.lexer)).fail)
	ensures(implies(err == nil, !p.peek && p.r.pos == spBound(p0.r.s, spCurP(p0.lexer)).pos))
	ensures(implies(err == nil, eq(v, spBound(p0.r.s, spCurP(p0.lexer)).v)))
}

func spStepIs(p *parser, st *Step, err error, r spS) bool {
	return (err != nil) == r.fail && implies(err == nil, st.Op == r.op && eq(st.Args, r.args) && eq(spCurP(p.lexer), r.next))
}

func contract_parser_parseSlice(p0, p *parser, start Val, st *Step, err error) {
	requires(spOK(p0.lexer))
	fresh(st)
	ensures(p.r.s == p0.r.s)
	ensures(spOK(p.lexer))
	ensures(implies(err == nil, spLeft(p.r.s, spCurP(p.lexer)) <= spLeft(p0.r.s, spCurP(p0.lexer))))
	ensures(implies(err == nil, spShape(st)))
	ensures(spStepIs(p, st, err, spColon(p0.r.s, start, spCurP(p0.lexer))))
}

func contract_parser_parseVal(p0, p *parser, st *Step, err error) {
	requires(spOK(p0.lexer))
	fresh(st)
	ensures(p.r.s == p0.r.s)
	ensures(spOK(p.lexer))
	ensures(implies(err == nil, spLater(p0.r.s, spCurP(p0.lexer), spCurP(p.lexer))))
	ensures(implies(err == nil, spShape(st)))
	ensures(spStepIs(p, st, err, spElement(p0.r.s, spCurP(p0.lexer))))
}

func spNode(op Op, args []Val) *Step { return &Step{op, args} }

// spElements is the list of elements from t, after acc.
type spEs struct {
	fail  bool
	steps []*Step
	next  spTok
}

func spEsFail() spEs { return spEs{true, []*Step{}, spTFail()} }

func spElements(s string, acc []*Step, t spTok) spEs {
	decreases(spLeft(s, t))
	e := spElement(s, t)
	if e.fail {
		return spEsFail()
	}
	if e.next.tok != ',' {
		return spEs{false, snoc(acc, spNode(e.op, e.args)), e.next}
	}
	if !spLater(s, t, spNextP(s, e.next)) {
		return spEsFail()
	}
	return spElements(s, snoc(acc, spNode(e.op, e.args)), spNextP(s, e.next))
}

// spShape says whether a step is one an element of a subscript gives.
//
//gover:def
func spShape(st *Step) bool {
	switch st.Op {
	case OpWild:
		return true
	case OpFilter, OpExp, OpSelect, OpInt, OpString, OpID:
		return len(st.Args) == 1
	}
	return false
}

// spAlone says whether a step cannot be in a list.
func spAlone(st *Step) bool { return st.Op == OpWild || st.Op == OpExp || st.Op == OpFilter }

// spNoneAlone says whether none of the steps from the i'th has to be alone.
func spNoneAlone(l []*Step, i int) bool {
	decreases(len(l) - i)
	if i < 0 || i >= len(l) {
		return true
	}
	return !spAlone(l[i]) && spNoneAlone(l, i+1)
}

// spFirsts is acc and the operands of the steps from the i'th.
func spFirsts(l []*Step, i int, acc []Val) []Val {
	decreases(len(l) - i)
	if i < 0 || i >= len(l) || len(l[i].Args) != 1 {
		return acc
	}
	return spFirsts(l, i+1, snoc(acc, l[i].Args[0]))
}

// spSubscript is the step for a subscript that starts with t: a subscript that has to be alone
// stands for itself, and any other is a selection by one element or the union of several.
//
//gover:def
func spSubscript(s string, t spTok) spS {
	e := spElements(s, []*Step{}, t)
	if e.fail || len(e.steps) > 1 && !spNoneAlone(e.steps, 0) {
		return spSFail()
	}
	st := e.steps[0]
	if st.Op == OpWild || st.Op == OpFilter {
		return spS{false, st.Op, st.Args, e.next}
	}
	if st.Op == OpExp {
		return spS{false, OpSelect, st.Args, e.next}
	}
	return spS{false, ite(len(e.steps) == 1, OpSelect, OpUnion), spFirsts(e.steps, 0, []Val{}), e.next}
}

// spBrackets is a subscript and the closing bracket, which is in next.
//
//gover:def
func spBrackets(s string, t spTok) spS {
	r := spSubscript(s, t)
	if r.fail || r.next.tok != ']' {
		return spSFail()
	}
	return r
}

func contract_parser_parseValList(p0, p *parser, l []*Step, err error) {
	requires(spOK(p0.lexer))
	fresh(l)
	ensures(p.r.s == p0.r.s)
	ensures(spOK(p.lexer))
	ensures((err != nil) == spElements(p0.r.s, []*Step{}, spCurP(p0.lexer)).fail)
	ensures(implies(err == nil, eq(l, spElements(p0.r.s, []*Step{}, spCurP(p0.lexer)).steps)))
	ensures(implies(err == nil, eq(spCurP(p.lexer), spElements(p0.r.s, []*Step{}, spCurP(p0.lexer)).next)))
	ensures(implies(err == nil, spLater(p0.r.s, spCurP(p0.lexer), spCurP(p.lexer))))
	ensures(implies(err == nil, len(l) >= 1 && forall(func(i int) bool { trigger(l[i]); return implies(0 <= i && i < len(l), spShape(l[i])) })))
	loop(func(p *parser, vals []*Step) {
		inv(p.r.s == p0.r.s)
		inv(spOK(p.lexer))
		inv(forall(func(i int) bool { trigger(vals[i]); return implies(0 <= i && i < len(vals), spShape(vals[i])) }))
		inv(spLeft(p.r.s, spCurP(p.lexer)) <= spLeft(p0.r.s, spCurP(p0.lexer)))
		inv(eq(spElements(p.r.s, vals, spCurP(p.lexer)), spElements(p0.r.s, []*Step{}, spCurP(p0.lexer))))
		decreases(spLeft(p.r.s, spCurP(p.lexer)))
	})
}

func contract_parser_parseSubscript(p0, p *parser, st *Step, err error) {
	requires(spOK(p0.lexer))
	fresh(st)
	ensures(p.r.s == p0.r.s)
	ensures(spOK(p.lexer))
	ensures(spStepIs(p, st, err, spSubscript(p0.r.s, spCurP(p0.lexer))))
	ensures(implies(err == nil, spLater(p0.r.s, spCurP(p0.lexer), spCurP(p.lexer))))
	ensures(implies(err == nil, st.Op == OpWild || st.Op == OpFilter || st.Op == OpSelect || st.Op == OpUnion))
	loop(func(i int, steps []*Step) {
		inv(0 <= i && i <= len(steps))
		inv(spNoneAlone(steps, i) == spNoneAlone(steps, 0))
	})
	loop(func(i int, steps []*Step, args []Val) {
		inv(eq(spFirsts(steps, i, args), spFirsts(steps, 0, []Val{})))
		inv(len(args) == i)
	})
}

func contract_parser_parseBrackets(p0, p *parser, st *Step, err error) {
	requires(spOK(p0.lexer))
	fresh(st)
	ensures(p.r.s == p0.r.s)
	ensures(spOK(p.lexer))
	ensures((err != nil) == spBrackets(p0.r.s, spCurP(p0.lexer)).fail)
	ensures(implies(err == nil, st.Op == spBrackets(p0.r.s, spCurP(p0.lexer)).op && eq(st.Args, spBrackets(p0.r.s, spCurP(p0.lexer)).args)))
	ensures(implies(err == nil, !p.peek && p.r.pos == spBrackets(p0.r.s, spCurP(p0.lexer)).next.pos))
	ensures(implies(err == nil, spLeft(p0.r.s, spCurP(p0.lexer)) > len(p.r.s)-p.r.pos))
	ensures(implies(err == nil, st.Op == OpWild || st.Op == OpFilter || st.Op == OpSelect || st.Op == OpUnion))
}

// spNested is the operator for a subscript after "..".
func spNested(op Op) Op {
	switch op {
	case OpUnion:
		return OpNestUnion
	case OpWild:
		return OpNestWild
	case OpFilter:
		return OpNestFilter
	}
	return OpNestSelect
}

// spMemberStep is the step for a member.
func spMemberStep(m spM, wild, member Op) *Step {
	if m.op == OpWild {
		return &Step{wild, []Val{}}
	}
	return &Step{member, []Val{m.v}}
}

type spP struct {
	fail bool
	path []*Step
}

func spPFail() spP { return spP{true, []*Step{}} }

// spSteps is the path from t, after the steps in acc.
func spSteps(s string, acc []*Step, t spTok) spP {
	decreases(spLeft(s, t))
	u := spNextP(s, t)
	switch t.tok {
	case tokEOF:
		return spP{false, acc}
	case '.':
		m := spMember(s, u)
		if m.fail || !spLater(s, t, spPathTok(s, m.pos)) {
			return spPFail()
		}
		return spSteps(s, snoc(acc, spMemberStep(m, OpWild, OpMember)), spPathTok(s, m.pos))
	case '[':
		b := spBrackets(s, u)
		if b.fail || !spLater(s, t, spPathTok(s, b.next.pos)) {
			return spPFail()
		}
		return spSteps(s, snoc(acc, spNode(b.op, b.args)), spPathTok(s, b.next.pos))
	case tokNest:
		if u.tok != '[' {
			m := spMember(s, u)
			if m.fail || !spLater(s, t, spPathTok(s, m.pos)) {
				return spPFail()
			}
			return spSteps(s, snoc(acc, spMemberStep(m, OpNestWild, OpNestMember)), spPathTok(s, m.pos))
		}
		b := spBrackets(s, spNextP(s, u))
		if b.fail || !spLater(s, t, spPathTok(s, b.next.pos)) {
			return spPFail()
		}
		return spSteps(s, snoc(acc, spNode(spNested(b.op), b.args)), spPathTok(s, b.next.pos))
	}
	return spPFail()
}

//gover:def
func spPath(s string, t spTok) spP {
	if t.tok != '$' {
		return spPFail()
	}
	return spSteps(s, []*Step{}, spNextP(s, t))
}

func contract_parser_parsePath(p0, p *parser, path Path, err error) {
	requires(spOK(p0.lexer))
	ensures((err != nil) == spPath(p0.r.s, spCurP(p0.lexer)).fail)
	ensures(implies(err == nil, eq[[]*Step](path, spPath(p0.r.s, spCurP(p0.lexer)).path)))
	ensures((err == nil) == (path != nil))
	loop(func(p *parser, path []*Step) {
		inv(p.r.s == p0.r.s)
		inv(spOK(p.lexer))
		inv(path != nil)
		inv(eq(spSteps(p.r.s, path, spCurP(p.lexer)), spPath(p0.r.s, spCurP(p0.lexer))))
		decreases(spLeft(p.r.s, spCurP(p.lexer)))
	})
}

func contract_ParsePath(s string, path Path, err error) {
	ensures((err == nil) == (path != nil))
	ensures((err == nil) == !spPath(s, spPathTok(s, 0)).fail)
	ensures(implies(err == nil, eq[[]*Step](path, spPath(s, spPathTok(s, 0)).path)))
}
