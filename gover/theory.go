package main

// Theories: sequences, maps, strings, floats, machine integers — declarations, axioms and simplification.

import (
	"fmt"
	"math"
	"math/big"
	"strings"
)

// An Axiom is included in a query when all of its trigger symbols (needs) occur.
type Axiom struct {
	name  string
	needs []string // symbols, any of which makes the axiom relevant
	text  *Term    // nil if raw
	raw   string
	uses  []string // symbols used by raw text
}

var axioms []*Axiom
var sortDecls []string // uninterpreted sorts in order
var sortSeen = map[string]bool{}
var seqElem = map[Sort]Sort{} // Seq_X -> X
type mapKV struct{ k, v Sort }

var mapSorts = map[Sort]mapKV{}
var builtinFun = map[string]bool{}  // SMT builtin: no declaration
var defineFun = map[string]string{} // name -> define-fun text
var defineUses = map[string][]string{}

func declSort(s string) {
	if !sortSeen[s] {
		sortSeen[s] = true
		sortDecls = append(sortDecls, s)
	}
}

func sortTag(s Sort) string { return s }

func axiom(name string, needs []string, t *Term) {
	axioms = append(axioms, &Axiom{name: name, needs: needs, text: t})
}

func seqSort(elem Sort) Sort {
	s := "Seq_" + sortTag(elem)
	if _, ok := seqElem[s]; ok {
		return s
	}
	seqElem[s] = elem
	declSort(s)
	e := elem
	declFun("len_"+s, SInt, s)
	declFun("at_"+s, e, s, SInt)
	declFun("emp_"+s, s)
	declFun("snoc_"+s, s, s, e)
	declFun("cat_"+s, s, s, s)
	declFun("sub_"+s, s, s, SInt, SInt)
	declFun("upd_"+s, s, s, SInt, e)
	declFun("eqx_"+s, SBool, s, s)
	a, b, c := mkBVar(s), mkBVar(s), mkBVar(s)
	x := mkBVar(e)
	i, j, k := mkBVar(SInt), mkBVar(SInt), mkBVar(SInt)
	raw := func(op string, res Sort, as ...*Term) *Term { return mkApp(op+"_"+s, res, as...) }
	ln := func(q *Term) *Term { return raw("len", SInt, q) }
	at := func(q, i *Term) *Term { return raw("at", e, q, i) }
	emp := raw("emp", s)
	snoc := func(q, y *Term) *Term { return raw("snoc", s, q, y) }
	cat := func(p, q *Term) *Term { return raw("cat", s, p, q) }
	sub := func(q, i, j *Term) *Term { return raw("sub", s, q, i, j) }
	upd := func(q, i, y *Term) *Term { return raw("upd", s, q, i, y) }
	z := mkInt(0)
	eq := func(a, b *Term) *Term { return mkApp("=", SBool, a, b) }
	le := func(a, b *Term) *Term { return mkApp("<=", SBool, a, b) }
	lt := func(a, b *Term) *Term { return mkApp("<", SBool, a, b) }
	P := func(ts ...*Term) [][]*Term { return [][]*Term{ts} }
	n := func(ops ...string) []string {
		r := []string{}
		for _, o := range ops {
			r = append(r, o+"_"+s)
		}
		return r
	}
	axiom("len>=0", n("len"), mkForall([]*Term{a}, P(ln(a)), mkAnd(le(z, ln(a)), mkImp(eq(ln(a), z), eq(a, emp)))))
	axiom("len emp", n("emp"), eq(ln(emp), z))
	axiom("len snoc", n("snoc"), mkForall([]*Term{a, x}, P(snoc(a, x)), mkAnd(eq(ln(snoc(a, x)), mkApp("+", SInt, ln(a), mkInt(1))), eq(at(snoc(a, x), ln(a)), x))))
	axiom("at snoc", n("snoc"), mkForall([]*Term{a, x, i}, P(at(snoc(a, x), i)), mkImp(mkAnd(le(z, i), lt(i, ln(a))), eq(at(snoc(a, x), i), at(a, i)))))
	axiom("len cat", n("cat"), mkForall([]*Term{a, b}, P(cat(a, b)), mkAnd(eq(ln(cat(a, b)), mkApp("+", SInt, ln(a), ln(b))),
		mkImp(eq(ln(b), z), eq(cat(a, b), a)), mkImp(eq(ln(a), z), eq(cat(a, b), b)))))
	axiom("at cat", n("cat"), mkForall([]*Term{a, b, i}, P(at(cat(a, b), i)), mkAnd(
		mkImp(mkAnd(le(z, i), lt(i, ln(a))), eq(at(cat(a, b), i), at(a, i))),
		mkImp(mkAnd(le(ln(a), i), lt(i, mkApp("+", SInt, ln(a), ln(b)))), eq(at(cat(a, b), i), at(b, mkApp("-", SInt, i, ln(a))))))))
	axiom("cat snoc", n("cat"), mkForall([]*Term{a, b, x}, P(cat(a, snoc(b, x))), eq(cat(a, snoc(b, x)), snoc(cat(a, b), x))))
	axiom("cat assoc", n("cat"), mkForall([]*Term{a, b, c}, P(cat(a, cat(b, c))), eq(cat(a, cat(b, c)), cat(cat(a, b), c))))
	axiom("len sub", n("sub"), mkForall([]*Term{a, i, j}, P(sub(a, i, j)), mkImp(mkAnd(le(z, i), le(i, j), le(j, ln(a))),
		mkAnd(eq(ln(sub(a, i, j)), mkApp("-", SInt, j, i)), mkImp(mkAnd(eq(i, z), eq(j, ln(a))), eq(sub(a, i, j), a))))))
	axiom("sub head", n("sub"), mkForall([]*Term{a, i, j, k}, [][]*Term{{sub(a, i, j), sub(a, k, j)}}, mkImp(mkAnd(le(z, i), lt(i, j), le(j, ln(a)), eq(k, mkApp("+", SInt, i, mkInt(1)))),
		eq(sub(a, i, j), cat(snoc(emp, at(a, i)), sub(a, k, j))))))
	axiom("at sub", n("sub"), mkForall([]*Term{a, i, j, k}, P(at(sub(a, i, j), k)), mkImp(mkAnd(le(z, i), le(i, j), le(j, ln(a)), le(z, k), lt(k, mkApp("-", SInt, j, i))),
		eq(at(sub(a, i, j), k), at(a, mkApp("+", SInt, i, k))))))
	axiom("sub sub", n("sub"), mkForall([]*Term{a, i, j, k, mkBVarC("q$m", SInt)}, P(sub(sub(a, i, j), k, mkBVarC("q$m", SInt))),
		mkImp(mkAnd(le(z, i), le(i, j), le(j, ln(a)), le(z, k), le(k, mkBVarC("q$m", SInt)), le(mkBVarC("q$m", SInt), mkApp("-", SInt, j, i))),
			eq(sub(sub(a, i, j), k, mkBVarC("q$m", SInt)), sub(a, mkApp("+", SInt, i, k), mkApp("+", SInt, i, mkBVarC("q$m", SInt)))))))
	axiom("sub snoc", n("sub"), mkForall([]*Term{a, x, i, j}, P(sub(snoc(a, x), i, j)), mkAnd(
		mkImp(mkAnd(le(z, i), le(i, j), le(j, ln(a))), eq(sub(snoc(a, x), i, j), sub(a, i, j))),
		mkImp(mkAnd(le(z, i), le(i, ln(a)), eq(j, mkApp("+", SInt, ln(a), mkInt(1)))), eq(sub(snoc(a, x), i, j), snoc(sub(a, i, ln(a)), x))))))
	axiom("sub cat", n("sub"), mkForall([]*Term{a, b, i, j}, P(sub(cat(a, b), i, j)), mkAnd(
		mkImp(mkAnd(le(z, i), le(i, j), le(j, ln(a))), eq(sub(cat(a, b), i, j), sub(a, i, j))),
		mkImp(mkAnd(le(ln(a), i), le(i, j), le(j, mkApp("+", SInt, ln(a), ln(b)))), eq(sub(cat(a, b), i, j), sub(b, mkApp("-", SInt, i, ln(a)), mkApp("-", SInt, j, ln(a))))))))
	axiom("upd", n("upd"), mkForall([]*Term{a, i, x}, P(upd(a, i, x)), mkAnd(eq(ln(upd(a, i, x)), ln(a)), mkImp(mkAnd(le(z, i), lt(i, ln(a))), eq(at(upd(a, i, x), i), x)))))
	axiom("at upd", n("upd"), mkForall([]*Term{a, i, x, j}, P(at(upd(a, i, x), j)), mkImp(mkAnd(mkNot(eq(i, j)), le(z, j), lt(j, ln(a))), eq(at(upd(a, i, x), j), at(a, j)))))
	axiom("sub upd", n("upd"), mkForall([]*Term{a, i, x, j, k}, P(sub(upd(a, i, x), j, k)), mkImp(mkAnd(le(z, j), le(j, k), le(k, ln(a)), mkOr(lt(i, j), le(k, i))), eq(sub(upd(a, i, x), j, k), sub(a, j, k)))))
	axiom("sub upd last", n("upd"), mkForall([]*Term{a, i, x, j, k}, P(sub(upd(a, i, x), j, k)), mkImp(mkAnd(le(z, j), le(j, i), eq(k, mkApp("+", SInt, i, mkInt(1))), le(k, ln(a))), eq(sub(upd(a, i, x), j, k), snoc(sub(a, j, i), x)))))
	eqx := raw("eqx", SBool, a, b)
	kk := mkBVar(SInt)
	axiom("eqx", n("eqx"), mkForall([]*Term{a, b}, P(eqx), mkAnd(
		mkImp(eqx, eq(a, b)),
		mkImp(mkAnd(eq(ln(a), ln(b)), mkForall([]*Term{kk}, [][]*Term{{at(a, kk)}, {at(b, kk)}}, mkImp(mkAnd(le(z, kk), lt(kk, ln(a))), eq(at(a, kk), at(b, kk))))), eqx))))
	return s
}

var bvc = map[string]*Term{}

func mkBVarC(name string, s Sort) *Term {
	if t, ok := bvc[name]; ok {
		return t
	}
	t := tt.intern(&Term{op: "bvar", sort: s, sv: name})
	bvc[name] = t
	return t
}

func seqLen(s *Term) *Term        { return mkUF("len_"+s.sort, s) }
func seqAt(s, i *Term) *Term      { return mkUF("at_"+s.sort, s, i) }
func seqEmp(srt Sort) *Term       { return mkUF("emp_" + srt) }
func seqSnoc(s, x *Term) *Term    { return mkUF("snoc_"+s.sort, s, x) }
func seqCat(a, b *Term) *Term     { return mkUF("cat_"+a.sort, a, b) }
func seqSub(s, i, j *Term) *Term  { return mkUF("sub_"+s.sort, s, i, j) }
func seqUpd(s, i, x *Term) *Term  { return mkUF("upd_"+s.sort, s, i, x) }
func isOp(t *Term, p string) bool { return t.op == p+"_"+t.sort }

func simplifyUF(name string, args []*Term) *Term {
	switch {
	case strings.HasPrefix(name, "len_Seq_"):
		s := args[0]
		switch {
		case isOp(s, "emp"):
			return mkInt(0)
		case isOp(s, "snoc"):
			return mkAdd(seqLen(s.args[0]), mkInt(1))
		case isOp(s, "cat"):
			return mkAdd(seqLen(s.args[0]), seqLen(s.args[1]))
		case isOp(s, "upd"):
			return seqLen(s.args[0])
		}
	case strings.HasPrefix(name, "cat_Seq_"):
		a, b := args[0], args[1]
		if isOp(a, "emp") {
			return b
		}
		if isOp(b, "emp") {
			return a
		}
		if isOp(b, "snoc") {
			return seqSnoc(seqCat(a, b.args[0]), b.args[1])
		}
		if isOp(b, "cat") {
			return seqCat(seqCat(a, b.args[0]), b.args[1])
		}
	case strings.HasPrefix(name, "at_Seq_"):
		s, i := args[0], args[1]
		for isOp(s, "snoc") {
			l := seqLen(s.args[0])
			if l == i {
				return s.args[1]
			}
			if isInt(l) && isInt(i) && i.iv.Cmp(l.iv) < 0 {
				s = s.args[0]
				continue
			}
			// len(s')+c vs len(s')+d
			if b1, c1 := splitAdd(l); true {
				b2, c2 := splitAdd(i)
				if b1 == b2 && b1 != nil && c2.Cmp(c1) < 0 && c2.Sign() >= 0 && strings.HasPrefix(b1.op, "len_") {
					s = s.args[0]
					continue
				}
			}
			break
		}
		if s != args[0] {
			return seqAt(s, i)
		}
	case strings.HasPrefix(name, "sub_Seq_"):
		s, i, j := args[0], args[1], args[2]
		if i == j {
			return seqEmp(s.sort)
		}
		if isInt(i) && i.iv.Sign() == 0 {
			if j == seqLen(s) {
				return s
			}
			if isOp(s, "snoc") && j == seqLen(s.args[0]) {
				return s.args[0]
			}
		}
	case strings.HasPrefix(name, "eqx_"):
		if args[0] == args[1] {
			return tTrue
		}
	case name == "wrap64":
		x := args[0]
		if strings.HasPrefix(x.op, "len_") {
			return x
		}
		if x.op == "slen" {
			return x
		}
	case name == "gomul":
	case name == "i2f":
		if isInt(args[0]) && args[0].iv.IsInt64() {
			v := args[0].iv.Int64()
			if v > -(1<<53) && v < 1<<53 {
				return mkF64(float64(v))
			}
		}
	case name == "slen":
		s := args[0]
		if s.op == "strc" {
			return mkInt(int64(len(s.strVal())))
		}
		if s.op == "sappb" {
			return mkAdd(mkUF("slen", s.args[0]), mkInt(1))
		}
		if s.op == "scat" {
			return mkAdd(mkUF("slen", s.args[0]), mkUF("slen", s.args[1]))
		}
	case name == "sbyte":
		s, i := args[0], args[1]
		if s.op == "strc" && isInt(i) && i.iv.IsInt64() && i.iv.Int64() >= 0 && i.iv.Int64() < int64(len(s.strVal())) {
			return mkInt(int64(s.strVal()[i.iv.Int64()]))
		}
	case name == "scat":
		a, b := args[0], args[1]
		if a.op == "strc" && a.strVal() == "" {
			return b
		}
		if b.op == "strc" && b.strVal() == "" {
			return a
		}
		if a.op == "strc" && b.op == "strc" {
			return mkStrC(a.strVal() + b.strVal())
		}
	case name == "fadd" || name == "fmul":
		if args[0].id > args[1].id {
			return mkApp(name, SF64, args[1], args[0])
		}
	case name == "fp.eq":
		if args[0].id > args[1].id {
			return mkApp(name, SBool, args[1], args[0])
		}
	case name == "fp.neg":
		if args[0].op == "fp.neg" {
			return args[0].args[0]
		}
	}
	return nil
}

func splitAdd(t *Term) (*Term, *big.Int) {
	if t.op == "+" && isInt(t.args[1]) {
		return t.args[0], t.args[1].iv
	}
	if isInt(t) {
		return nil, t.iv
	}
	return t, new(big.Int)
}

func mkF64(f float64) *Term {
	b := math.Float64bits(f)
	if f != f {
		return mkFP("(_ NaN 11 53)")
	}
	return mkFP(fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", b>>63, (b>>52)&0x7ff, b&(1<<52-1)))
}

// map theory (immutable values; put is functional)
func mapSort(k, v Sort) Sort {
	s := "Map_" + sortTag(k) + "_" + sortTag(v)
	if _, ok := mapSorts[s]; ok {
		return s
	}
	mapSorts[s] = mapKV{k, v}
	declSort(s)
	ks := seqSort(k)
	declFun("mhas_"+s, SBool, s, k)
	declFun("mget_"+s, v, s, k)
	declFun("mlen_"+s, SInt, s)
	declFun("mkeys_"+s, ks, s)
	declFun("memp_"+s, s)
	declFun("mput_"+s, s, s, k, v)
	declFun("midx_"+s, SInt, s, k)
	m, m2 := mkBVar(s), mkBVar(s)
	x, y := mkBVar(k), mkBVar(k)
	w := mkBVar(v)
	i := mkBVar(SInt)
	has := func(m, k *Term) *Term { return mkApp("mhas_"+s, SBool, m, k) }
	get := func(m, k *Term) *Term { return mkApp("mget_"+s, v, m, k) }
	keys := func(m *Term) *Term { return mkApp("mkeys_"+s, ks, m) }
	ml := func(m *Term) *Term { return mkApp("mlen_"+s, SInt, m) }
	idx := func(m, k *Term) *Term { return mkApp("midx_"+s, SInt, m, k) }
	put := func(m, k, v *Term) *Term { return mkApp("mput_"+s, s, m, k, v) }
	kat := func(q, i *Term) *Term { return mkApp("at_"+ks, k, q, i) }
	kln := func(q *Term) *Term { return mkApp("len_"+ks, SInt, q) }
	eq := func(a, b *Term) *Term { return mkApp("=", SBool, a, b) }
	le := func(a, b *Term) *Term { return mkApp("<=", SBool, a, b) }
	lt := func(a, b *Term) *Term { return mkApp("<", SBool, a, b) }
	z := mkInt(0)
	P := func(ts ...*Term) [][]*Term { return [][]*Term{ts} }
	n := func(ops ...string) []string {
		r := []string{}
		for _, o := range ops {
			r = append(r, o+"_"+s)
		}
		return r
	}
	emp := mkApp("memp_"+s, s)
	axiom("mlen", n("mlen", "mkeys"), mkForall([]*Term{m}, [][]*Term{{ml(m)}, {keys(m)}}, mkAnd(le(z, ml(m)), eq(ml(m), kln(keys(m))))))
	// keys enumerates the members without repetition: midx is the inverse of at(keys)
	axiom("mkeys at", n("mkeys"), mkForall([]*Term{m, i}, P(kat(keys(m), i)), mkImp(mkAnd(le(z, i), lt(i, kln(keys(m)))),
		mkAnd(has(m, kat(keys(m), i)), eq(idx(m, kat(keys(m), i)), i)))))
	axiom("mkeys has", n("mhas"), mkForall([]*Term{m, x}, P(has(m, x)), mkImp(has(m, x),
		mkAnd(le(z, idx(m, x)), lt(idx(m, x), kln(keys(m))), eq(kat(keys(m), idx(m, x)), x)))))
	axiom("memp", n("memp"), mkForall([]*Term{x}, P(has(emp, x)), mkNot(has(emp, x))))
	axiom("memp len", n("memp"), eq(ml(emp), z))
	axiom("mput", n("mput"), mkForall([]*Term{m, x, w}, P(put(m, x, w)), mkAnd(has(put(m, x, w), x), eq(get(put(m, x, w), x), w))))
	axiom("mput other", n("mput"), mkForall([]*Term{m, x, w, y}, [][]*Term{{has(put(m, x, w), y)}, {get(put(m, x, w), y)}}, mkImp(mkNot(eq(x, y)),
		mkAnd(eq(has(put(m, x, w), y), has(m, y)), eq(get(put(m, x, w), y), get(m, y))))))
	_ = m2
	return s
}

func initTheory() {
	declSort(SStr)
	declSort("Other")
	declSort("Chan")
	declSort("Regexp")
	for _, b := range []int{8, 16, 32, 64} {
		mod := new(big.Int).Lsh(big.NewInt(1), uint(b))
		half := new(big.Int).Lsh(big.NewInt(1), uint(b-1))
		hm := new(big.Int).Sub(half, big.NewInt(1))
		declFun(fmt.Sprintf("wrap%d", b), SInt, SInt)
		declFun(fmt.Sprintf("wrapu%d", b), SInt, SInt)
		defineFun[fmt.Sprintf("wrap%d", b)] = fmt.Sprintf("(define-fun wrap%d ((x Int)) Int (ite (and (<= (- %s) x) (<= x %s)) x (- (mod (+ x %s) %s) %s)))", b, half, hm, half, mod, half)
		defineFun[fmt.Sprintf("wrapu%d", b)] = fmt.Sprintf("(define-fun wrapu%d ((x Int)) Int (ite (and (<= 0 x) (< x %s)) x (mod x %s)))", b, mod, mod)
	}
	for _, f := range []string{"gomul", "godiv", "gomod", "goand", "goor", "goxor", "goshl", "goshr"} {
		declFun(f, SInt, SInt, SInt)
	}
	{
		a, b := mkBVar(SInt), mkBVar(SInt)
		axiom("comm gomul", []string{"gomul"}, mkForall([]*Term{a, b}, [][]*Term{{mkApp("gomul", SInt, a, b)}}, mkApp("=", SBool, mkApp("gomul", SInt, a, b), mkApp("gomul", SInt, b, a))))
	}
	// floats: comparisons, negation and classification are IEEE; arithmetic is uninterpreted
	for _, f := range []string{"fp.lt", "fp.leq", "fp.eq"} {
		declFun(f, SBool, SF64, SF64)
		builtinFun[f] = true
	}
	declFun("fp.neg", SF64, SF64)
	declFun("fp.isNaN", SBool, SF64)
	builtinFun["fp.neg"] = true
	builtinFun["fp.isNaN"] = true
	for _, f := range []string{"fadd", "fsub", "fmul", "fdiv", "fmodf"} {
		declFun(f, SF64, SF64, SF64)
	}
	for _, f := range []string{"fadd", "fmul"} {
		a, b := mkBVar(SF64), mkBVar(SF64)
		axiom("comm "+f, []string{f}, mkForall([]*Term{a, b}, [][]*Term{{mkApp(f, SF64, a, b)}}, mkApp("=", SBool, mkApp(f, SF64, a, b), mkApp(f, SF64, b, a))))
	}
	declFun("i2f", SF64, SInt)
	declFun("f2i", SInt, SF64)
	declFun("fceil", SF64, SF64)
	declFun("ffloor", SF64, SF64)
	x := mkBVar(SInt)
	f := mkBVar(SF64)
	axiom("i2f", []string{"i2f"}, mkForall([]*Term{x}, [][]*Term{{mkApp("i2f", SF64, x)}}, mkNot(mkApp("fp.isNaN", SBool, mkApp("i2f", SF64, x)))))
	axiom("f2i", []string{"f2i"}, mkForall([]*Term{f}, [][]*Term{{mkApp("f2i", SInt, f)}}, inRange(mkApp("f2i", SInt, f), 64, true)))
	// strings
	declFun("slen", SInt, SStr)
	declFun("sbyte", SInt, SStr, SInt)
	declFun("sappb", SStr, SStr, SInt)
	declFun("scat", SStr, SStr, SStr)
	declFun("ssub", SStr, SStr, SInt, SInt)
	declFun("slt", SBool, SStr, SStr)
	declFun("srune", SStr, SInt) // UTF-8 encoding of a rune
	declFun("runecount", SInt, SStr)
	s, t, u := mkBVar(SStr), mkBVar(SStr), mkBVar(SStr)
	i, j, k := mkBVar(SInt), mkBVar(SInt), mkBVar(SInt)
	b := mkBVar(SInt)
	sl := func(s *Term) *Term { return mkApp("slen", SInt, s) }
	sb := func(s, i *Term) *Term { return mkApp("sbyte", SInt, s, i) }
	ap := func(s, b *Term) *Term { return mkApp("sappb", SStr, s, b) }
	ct := func(s, t *Term) *Term { return mkApp("scat", SStr, s, t) }
	ss := func(s, i, j *Term) *Term { return mkApp("ssub", SStr, s, i, j) }
	eq := func(a, b *Term) *Term { return mkApp("=", SBool, a, b) }
	le := func(a, b *Term) *Term { return mkApp("<=", SBool, a, b) }
	lt := func(a, b *Term) *Term { return mkApp("<", SBool, a, b) }
	z := mkInt(0)
	P := func(ts ...*Term) [][]*Term { return [][]*Term{ts} }
	axiom("slen", []string{"slen"}, mkForall([]*Term{s}, P(sl(s)), mkAnd(le(z, sl(s)), mkImp(eq(sl(s), z), eq(s, mkStrC(""))))))
	axiom("sbyte", []string{"sbyte"}, mkForall([]*Term{s, i}, P(sb(s, i)), mkAnd(le(z, sb(s, i)), le(sb(s, i), mkInt(255)))))
	axiom("sappb", []string{"sappb"}, mkForall([]*Term{s, b}, P(ap(s, b)), mkAnd(eq(sl(ap(s, b)), mkApp("+", SInt, sl(s), mkInt(1))),
		mkImp(mkAnd(le(z, b), le(b, mkInt(255))), eq(sb(ap(s, b), sl(s)), b)))))
	axiom("sappb sub", []string{"sappb"}, mkForall([]*Term{s, i, j, b}, P(ap(ss(s, i, j), b)), mkImp(mkAnd(le(z, i), le(i, j), lt(j, sl(s)), eq(b, sb(s, j))),
		eq(ap(ss(s, i, j), b), ss(s, i, mkApp("+", SInt, j, mkInt(1)))))))
	axiom("sub empty", []string{"ssub"}, mkForall([]*Term{s, i, j}, P(ss(s, i, j)), mkAnd(mkImp(eq(i, j), eq(ss(s, i, j), mkStrC(""))),
		mkImp(mkAnd(le(z, i), le(i, j), le(j, sl(s))), eq(sl(ss(s, i, j)), mkApp("-", SInt, j, i))), mkImp(mkAnd(eq(i, z), eq(j, sl(s))), eq(ss(s, i, j), s)))))
	axiom("sub at", []string{"ssub"}, mkForall([]*Term{s, i, j, k}, P(sb(ss(s, i, j), k)), mkImp(mkAnd(le(z, i), le(i, j), le(j, sl(s)), le(z, k), lt(k, mkApp("-", SInt, j, i))),
		eq(sb(ss(s, i, j), k), sb(s, mkApp("+", SInt, i, k))))))
	axiom("scat", []string{"scat"}, mkForall([]*Term{s, t}, P(ct(s, t)), mkAnd(eq(sl(ct(s, t)), mkApp("+", SInt, sl(s), sl(t))),
		mkImp(eq(s, mkStrC("")), eq(ct(s, t), t)), mkImp(eq(t, mkStrC("")), eq(ct(s, t), s)))))
	axiom("scat assoc", []string{"scat"}, mkForall([]*Term{s, t, u}, P(ct(s, ct(t, u))), eq(ct(s, ct(t, u)), ct(ct(s, t), u))))
	axiom("slt irrefl", []string{"slt"}, mkForall([]*Term{s, t}, P(mkApp("slt", SBool, s, t)), mkNot(mkAnd(mkApp("slt", SBool, s, t), mkApp("slt", SBool, t, s)))))
}

func inRange(t *Term, bits int, signed bool) *Term {
	lo, hi := intRange(bits, signed)
	return mkAnd(mkApp("<=", SBool, mkBig(lo), t), mkApp("<=", SBool, t, mkBig(hi)))
}

func intRange(bits int, signed bool) (*big.Int, *big.Int) {
	if signed {
		h := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
}
