package paths

import (
	"math"
	"strconv"
	"strings"
	"unicode/utf16"
)

// ---- the input

// spByte is the byte at i of s, or -1 at its end.
func spByte(s string, i int) int {
	if i < 0 || i >= len(s) {
		return -1
	}
	return int(s[i])
}

// spNext is the position after the byte at i.
func spNext(s string, i int) int {
	if i >= 0 && i < len(s) {
		return i + 1
	}
	return i
}

func spIn(s string, i int) bool { return 0 <= i && i <= len(s) }

func contract_rd_get(r0, r *rd, c int) {
	requires(spIn(r0.s, r0.pos))
	ensures(c == spByte(r0.s, r0.pos))
	ensures(r.s == r0.s)
	ensures(r.pos == spNext(r0.s, r0.pos))
}

func contract_rd_unget(r0, r *rd) {
	requires(spIn(r0.s, r0.pos))
	ensures(r.s == r0.s)
	ensures(r.pos == ite(r0.pos > 0, r0.pos-1, 0))
}

func contract_rd_look(r0, r *rd, c int) {
	requires(spIn(r0.s, r0.pos))
	ensures(c == spByte(r0.s, r0.pos))
	ensures(r.s == r0.s)
	ensures(r.pos == r0.pos)
}

// ---- spaces and numbers

func spSpace(c int) bool {
	return c == 32 || 9 <= c && c <= 13
}

// spSkip is the position of the first byte from i that is no space.
func spSkip(s string, i int) int {
	decreases(len(s) - i)
	if i < 0 || i >= len(s) || !spSpace(int(s[i])) {
		return i
	}
	return spSkip(s, i+1)
}

func contract_lexer_ws(l0, l *lexer, r Loc) {
	requires(spIn(l0.r.s, l0.r.pos))
	ensures(l.r.s == l0.r.s)
	ensures(l.r.pos == spSkip(l0.r.s, l0.r.pos))
	ensures(l.peek == l0.peek)
	ensures(spIn(l.r.s, l.r.pos))
	ensures(l.r.pos >= l0.r.pos)
	loop(func(l *lexer) {
		inv(l.r.pos >= l0.r.pos)
		inv(spIn(l.r.s, l.r.pos))
		inv(l.r.s == l0.r.s)
		inv(spSkip(l.r.s, l.r.pos) == spSkip(l0.r.s, l0.r.pos))
		decreases(len(l.r.s) - l.r.pos)
	})
}

func spDigit(c int) bool { return 48 <= c && c <= 57 }

// spDigits is the position after the digits from i.
func spDigits(s string, i int) int {
	decreases(len(s) - i)
	if i < 0 || i >= len(s) || !spDigit(int(s[i])) {
		return i
	}
	return spDigits(s, i+1)
}

// spTok is a token: its kind, its value if any, and the position after it. An error has position 0.
type spTok struct {
	tok token
	val interface{}
	pos int
}

func spT(tok token, pos int) spTok                 { return spTok{tok, nil, pos} }
func spTV(tok token, v interface{}, pos int) spTok { return spTok{tok, v, pos} }
func spTFail() spTok                               { return spTok{tokError, nil, 0} }

// spIsTok says whether a lexeme, with the position after it, is the token t.
func spIsTok(lx lexeme, pos int, t spTok) bool {
	return lx.tok == t.tok && (lx.err != nil) == (t.tok == tokError) && eq(lx.val, t.val) && (t.tok == tokError || pos == t.pos)
}

func spIsE(c int) bool { return c == 101 || c == 69 }
func spSign(c int) bool { return c == 43 || c == 45 }

// spExpAt is the position of the digits of the exponent whose letter is at e.
func spExpAt(s string, e int) int {
	if spSign(spByte(s, e+1)) {
		return e + 2
	}
	return e + 1
}

func spInteger(s string, i int) spTok {
	d := spDigits(s, i)
	v, err := strconv.ParseInt(s[i:d], 10, 64)
	if err != nil {
		return spTFail()
	}
	return spTV(tokInt, v, d)
}

func spReal(s string, i, end int) spTok {
	v, err := strconv.ParseFloat(s[i:end], 64)
	if err != nil {
		return spTFail()
	}
	return spTV(tokReal, v, end)
}

// spNumber is the number whose first digit is at i.
func spNumber(s string, i int, real bool) spTok {
	d := spDigits(s, i)
	if !real || spByte(s, d) != 46 {
		return spInteger(s, i)
	}
	f := spDigits(s, d+1)
	if !spIsE(spByte(s, f)) {
		return spReal(s, i, f)
	}
	x := spExpAt(s, f)
	if !spDigit(spByte(s, x)) {
		return spTFail()
	}
	return spReal(s, i, spDigits(s, x))
}

func contract_lexer_lexNumber(l0, l *lexer, real bool, r lexeme) {
	requires(spIn(l0.r.s, l0.r.pos) && l0.r.pos > 0)
	requires(spDigit(spByte(l0.r.s, l0.r.pos-1)))
	ensures(l.r.s == l0.r.s)
	ensures(spIsTok(r, l.r.pos, spNumber(l0.r.s, l0.r.pos-1, real)))
	ensures(l.peek == l0.peek)
	ensures(spIn(l.r.s, l.r.pos))
	ensures(l.r.pos >= l0.r.pos)
	ensures(spSane(r))
	loop(func(r *rd, sb strings.Builder) {
		inv(r.s == l0.r.s)
		inv(spIn(r.s, r.pos))
		inv(l0.r.pos-1 <= r.pos)
		inv(sb.String() == r.s[l0.r.pos-1:r.pos])
		inv(spDigits(r.s, r.pos) == spDigits(l0.r.s, l0.r.pos-1))
		decreases(len(r.s) - r.pos)
	})
	loop(func(r *rd, sb strings.Builder) {
		inv(spDigits(r.s, r.pos) == spDigits(l0.r.s, spDigits(l0.r.s, l0.r.pos-1)+1))
		inv(spDigits(l0.r.s, l0.r.pos-1) < r.pos)
	})
	loop(func(r *rd, sb strings.Builder) {
		inv(spDigits(r.s, r.pos) == spDigits(l0.r.s, spExpAt(l0.r.s, spDigits(l0.r.s, spDigits(l0.r.s, l0.r.pos-1)+1))))
	})
}

// ---- strings

func spHex(c int) bool { return spDigit(c) || 97 <= c && c <= 102 || 65 <= c && c <= 70 }

// spEscOK says whether the escape sequence whose letter is at i is a valid one inside quotes cq.
func spEscOK(s string, i, cq int) bool {
	c := spByte(s, i)
	if c == 'u' {
		return spHex(spByte(s, i+1)) && spHex(spByte(s, i+2)) && spHex(spByte(s, i+3)) && spHex(spByte(s, i+4))
	}
	return c >= 0 && (c == '\\' || c == '/' || c == 't' || c == 'f' || c == 'n' || c == 'r' || c == 'b' || c == cq)
}

func spEscEnd(s string, i int) int {
	if spByte(s, i) == 'u' {
		return i + 5
	}
	return i + 1
}

// spEsc is the character the escape sequence stands for.
func spEsc(s string, i int) rune {
	switch c := spByte(s, i); c {
	case 'u':
		v, _ := strconv.ParseUint(s[i+1:i+5], 16, 32)
		return rune(v)
	case 't':
		return 9
	case 'f':
		return 12
	case 'n':
		return 10
	case 'r':
		return 13
	case 'b':
		return 8
	default:
		return rune(c)
	}
}

func contract_escaped(r0, r *rd, cq int, v rune, err error) {
	requires(spIn(r0.s, r0.pos))
	ensures(r.s == r0.s)
	ensures(spIn(r.s, r.pos))
	ensures(r.pos >= r0.pos)
	ensures((err == nil) == spEscOK(r0.s, r0.pos, cq))
	ensures(implies(err == nil, v == spEsc(r0.s, r0.pos) && r.pos == spEscEnd(r0.s, r0.pos)))
	loop(func(r *rd, i int, digits strings.Builder) {
		inv(0 <= i && i <= 4)
		inv(r.s == r0.s)
		inv(spIn(r.s, r.pos))
		inv(r.pos == r0.pos+1+i)
		inv(digits.String() == r.s[r0.pos+1:r.pos])
		inv(spByte(r0.s, r0.pos) == 'u')
		inv(implies(i > 0, spHex(spByte(r.s, r0.pos+1))))
		inv(implies(i > 1, spHex(spByte(r.s, r0.pos+2))))
		inv(implies(i > 2, spHex(spByte(r.s, r0.pos+3))))
		inv(implies(i > 3, spHex(spByte(r.s, r0.pos+4))))
		decreases(4 - i)
	})
}

// spLit is the value of a literal, whether it is ill formed, and the position after it.
type spLit struct {
	s    string
	fail bool
	pos  int
}

// spStr is the rest, from i, of a string in quotes cq of which acc is the value so far; surr is the
// \u escape just before i, not yet in acc, if that was a surrogate, or 0.
// A surrogate pair is one character, and any other surrogate is replaced by U+FFFD.
func spStr(s string, i, cq int, acc string, surr rune) spLit {
	decreases(len(s) - i)
	c := spByte(s, i)
	if c < 0 {
		return spLit{acc, true, i}
	}
	if c == cq {
		return spLit{spSurr(acc, surr), false, i + 1}
	}
	if c != '\\' {
		if c < 32 {
			return spLit{acc, true, i}
		}
		return spStr(s, i+1, cq, appb(spSurr(acc, surr), s[i]), 0)
	}
	if !spEscOK(s, i+1, cq) {
		return spLit{acc, true, i}
	}
	v := spEsc(s, i+1)
	if surr != 0 && spPair(surr, v) {
		return spStr(s, spEscEnd(s, i+1), cq, acc+string(utf16.DecodeRune(surr, v)), 0)
	}
	if utf16.IsSurrogate(v) {
		return spStr(s, spEscEnd(s, i+1), cq, spSurr(acc, surr), v)
	}
	return spStr(s, spEscEnd(s, i+1), cq, spSurr(acc, surr)+string(v), 0)
}

func spPair(a, b rune) bool {
	return 0xd800 <= a && a < 0xdc00 && 0xdc00 <= b && b < 0xe000
}

func spSurr(acc string, surr rune) string {
	if surr != 0 {
		return acc + string(rune(0xfffd))
	}
	return acc
}

func contract_lexer_lexString(l0, l *lexer, cq int, s string, err error) {
	requires(spIn(l0.r.s, l0.r.pos))
	requires(cq == 34 || cq == 39)
	ensures(l.r.s == l0.r.s)
	ensures(spIn(l.r.s, l.r.pos))
	ensures(l.r.pos >= l0.r.pos)
	ensures(l.peek == l0.peek)
	ensures((err != nil) == spStr(l0.r.s, l0.r.pos, cq, "", 0).fail)
	ensures(implies(err == nil, s == spStr(l0.r.s, l0.r.pos, cq, "", 0).s && l.r.pos == spStr(l0.r.s, l0.r.pos, cq, "", 0).pos))
	loop(func(r *rd, s strings.Builder) {
		inv(r.s == l0.r.s)
		inv(spIn(r.s, r.pos))
		inv(r.pos >= l0.r.pos)
		inv(spStr(r.s, r.pos, cq, s.String(), 0) == spStr(l0.r.s, l0.r.pos, cq, "", 0))
		decreases(len(r.s) - r.pos)
	})
	loop(func(r *rd, s strings.Builder, c int, surr rune) {
		inv(r.s == l0.r.s)
		inv(spIn(r.s, r.pos))
		inv(implies(c >= 0, r.pos >= atEntry(r.pos)))
		inv(c >= -1 && implies(c < 0, r.pos == len(r.s)) && implies(c >= 0, r.pos > 0))
		inv(c == spByte(r.s, ite(c < 0, r.pos, r.pos-1)))
		inv(spStr(r.s, ite(c < 0, r.pos, r.pos-1), cq, s.String(), surr) == spStr(l0.r.s, l0.r.pos, cq, "", 0))
		inv(surr == 0 || utf16.IsSurrogate(surr))
		decreases(len(r.s) - r.pos + ite(c < 0, 0, 1))
	})
}

// spRE is the rest, from i, of a regular expression of which acc is the text so far, up to the closing ec.
func spRE(s string, i, ec int, acc string) spLit {
	decreases(len(s) - i)
	c := spByte(s, i)
	if c < 0 {
		return spLit{acc, true, i}
	}
	if c == ec {
		return spLit{acc, false, i + 1}
	}
	if c == '\\' && spByte(s, i+1) == ec {
		return spRE(s, i+2, ec, appb(acc, s[i+1]))
	}
	return spRE(s, i+1, ec, appb(acc, s[i]))
}

func contract_lexer_lexRegexp(l0, l *lexer, ec int, r lexeme) {
	requires(spIn(l0.r.s, l0.r.pos))
	requires(ec == 47)
	ensures(l.r.s == l0.r.s)
	ensures(spIn(l.r.s, l.r.pos))
	ensures(l.r.pos >= l0.r.pos)
	ensures(l.peek == l0.peek)
	ensures(r.tok == tokRE)
	ensures((r.err != nil) == spRE(l0.r.s, l0.r.pos, ec, "").fail)
	ensures(implies(r.err == nil, eq(r.val, asI(spRE(l0.r.s, l0.r.pos, ec, "").s)) && l.r.pos == spRE(l0.r.s, l0.r.pos, ec, "").pos))
	loop(func(r *rd, s strings.Builder) {
		inv(r.s == l0.r.s)
		inv(spIn(r.s, r.pos))
		inv(r.pos >= l0.r.pos)
		inv(spRE(r.s, r.pos, ec, s.String()) == spRE(l0.r.s, l0.r.pos, ec, ""))
		decreases(len(r.s) - r.pos)
	})
}

// ---- tokens

func spLetter(c int) bool {
	return 97 <= c && c <= 122 || 65 <= c && c <= 90 || c == '_' || c >= 128
}

// spIDEnd is the position after the letters, digits and, outside expressions, dashes from i.
func spIDEnd(s string, i int, dash bool) int {
	decreases(len(s) - i)
	if i < 0 || i >= len(s) || !(spLetter(int(s[i])) || spDigit(int(s[i])) || dash && s[i] == '-') {
		return i
	}
	return spIDEnd(s, i+1, dash)
}

func spID(s string, i int, dash bool) spTok {
	return spTV(tokID, s[i:spIDEnd(s, i, dash)], spIDEnd(s, i, dash))
}

// spQuoted is the string literal that starts at i.
func spQuoted(s string, i int) spTok {
	l := spStr(s, i+1, spByte(s, i), "", 0)
	if l.fail {
		return spTFail()
	}
	return spTV(tokString, l.s, l.pos)
}

// spIf is the token two if the byte at i is c, and one otherwise.
func spIf(s string, i int, c int, two, one token) spTok {
	if spByte(s, i) == c {
		return spT(two, i+1)
	}
	if one == tokError {
		return spTFail()
	}
	return spT(one, i)
}

// spSigned is the integer with a minus sign just before i.
func spSigned(s string, i int) spTok {
	q := spSkip(s, i)
	if !spDigit(spByte(s, q)) {
		return spTFail()
	}
	n := spInteger(s, q)
	if n.tok == tokError {
		return n
	}
	v := n.val.(int64)
	if v == math.MaxInt64 {
		return spTFail()
	}
	return spTV(tokInt, -v, n.pos)
}

// spWithin is t, unless t fails to advance from i: no token does, as the lexer's contracts show.
func spWithin(s string, i int, t spTok) spTok {
	if t.tok != tokError && t.tok != tokEOF && !(i < t.pos && t.pos <= len(s)) {
		return spTFail()
	}
	return t
}

// spPathTok is the next token of a path from i.
//
//gover:def
func spPathTok(s string, i int) spTok { return spWithin(s, i, spPathTok0(s, i)) }

//gover:opaque
func spPathTok0(s string, i int) spTok {
	p := spSkip(s, i)
	c := spByte(s, p)
	switch {
	case c < 0:
		return spT(tokEOF, p)
	case c == '(' || c == ')' || c == '[' || c == ']' || c == '*' || c == '$' || c == ':' || c == ',':
		return spT(token(c), p+1)
	case c == '.':
		return spIf(s, p+1, '.', tokNest, '.')
	case c == '?':
		return spIf(s, p+1, '(', tokFilter, tokError)
	case c == '"' || c == 39:
		return spQuoted(s, p)
	case c == '-':
		return spSigned(s, p+1)
	case spDigit(c):
		return spNumber(s, p, false)
	case spLetter(c):
		return spID(s, p, true)
	}
	return spTFail()
}

// spExprTok is the next token of an expression from i.
//
//gover:def
func spExprTok(s string, i int) spTok { return spWithin(s, i, spExprTok0(s, i)) }

//gover:opaque
func spExprTok0(s string, i int) spTok {
	p := spSkip(s, i)
	c := spByte(s, p)
	switch {
	case c < 0:
		return spT(tokEOF, p)
	case c == '(' || c == ')' || c == '[' || c == ']' || c == '@' || c == '$' || c == '.' || c == ',' || c == '~' || c == '*' || c == '%' || c == '+' || c == '-' || c == '/':
		return spT(token(c), p+1)
	case c == '&':
		return spIf(s, p+1, '&', tokAnd, '&')
	case c == '|':
		return spIf(s, p+1, '|', tokOr, '|')
	case c == '<':
		return spIf(s, p+1, '=', tokLE, '<')
	case c == '>':
		return spIf(s, p+1, '=', tokGE, '>')
	case c == '=':
		if spByte(s, p+1) == '=' {
			return spT(tokEQ, p+2)
		}
		return spIf(s, p+1, '~', tokMatch, '=')
	case c == '!':
		return spIf(s, p+1, '=', tokNE, '!')
	case c == '"' || c == 39:
		return spQuoted(s, p)
	case spDigit(c):
		return spNumber(s, p, true)
	case spLetter(c):
		return spID(s, p, false)
	}
	return spTFail()
}

// spSane says whether a lexeme is one the lexer produces.
func spSane(lx lexeme) bool {
	return (lx.err != nil) == (lx.tok == tokError) && spSaneVal(lx.tok, lx.val)
}

func spSaneVal(t token, v interface{}) bool {
	switch t {
	case tokID, tokString, tokRE:
		return spIsStr(v)
	case tokInt:
		_, ok := v.(int64)
		return ok
	case tokReal:
		_, ok := v.(float64)
		return ok
	}
	return true
}

func spIsStr(v interface{}) bool { _, ok := v.(string); return ok }

// spOK says whether a lexer is in order.
func spOK(l *lexer) bool {
	return spIn(l.r.s, l.r.pos) && implies(l.peek, spSane(l.lex))
}

func spTokOf(lx lexeme, pos int) spTok { return spSaved(lx.tok, lx.val, pos) }

//gover:def
func spSaved(t token, v interface{}, pos int) spTok {
	if t == tokError {
		return spTFail()
	}
	return spTok{t, v, pos}
}

// spCurP is the token lexPath is about to return, and spCurE the one lexExpr is.
func spCurP(l *lexer) spTok {
	if l.peek {
		return spTokOf(l.lex, l.r.pos)
	}
	return spPathTok(l.r.s, l.r.pos)
}

func spCurE(l *lexer) spTok {
	if l.peek {
		return spTokOf(l.lex, l.r.pos)
	}
	return spExprTok(l.r.s, l.r.pos)
}

func contract_lexer_lexPath(l0, l *lexer, r lexeme) {
	requires(spOK(l0))
	ensures(l.r.s == l0.r.s)
	ensures(spIn(l.r.s, l.r.pos))
	ensures(l.r.pos >= l0.r.pos)
	ensures(!l.peek)
	ensures(spSane(r))
	unfoldOwn(spPathTok0(l0.r.s, l0.r.pos))
	ensures(eq(spTokOf(r, l.r.pos), spCurP(l0)))
	loop(func(r *rd, sb strings.Builder) {
		inv(r.s == l0.r.s)
		inv(spIn(r.s, r.pos))
		inv(r.pos >= spSkip(l0.r.s, l0.r.pos))
		inv(sb.String() == r.s[spSkip(l0.r.s, l0.r.pos):r.pos])
		inv(spIDEnd(r.s, r.pos, true) == spIDEnd(l0.r.s, spSkip(l0.r.s, l0.r.pos), true))
		decreases(len(r.s) - r.pos)
	})
}

func contract_lexer_lexExpr(l0, l *lexer, r lexeme) {
	requires(spOK(l0))
	ensures(l.r.s == l0.r.s)
	ensures(spIn(l.r.s, l.r.pos))
	ensures(l.r.pos >= l0.r.pos)
	ensures(!l.peek)
	ensures(spSane(r))
	unfoldOwn(spExprTok0(l0.r.s, l0.r.pos))
	ensures(eq(spTokOf(r, l.r.pos), spCurE(l0)))
	loop(func(r *rd, sb strings.Builder) {
		inv(r.s == l0.r.s)
		inv(spIn(r.s, r.pos))
		inv(r.pos >= spSkip(l0.r.s, l0.r.pos))
		inv(sb.String() == r.s[spSkip(l0.r.s, l0.r.pos):r.pos])
		inv(spIDEnd(r.s, r.pos, false) == spIDEnd(l0.r.s, spSkip(l0.r.s, l0.r.pos), false))
		decreases(len(r.s) - r.pos)
	})
}
