package main

// Terms: hash-consed first-order terms with light simplification, and SMT-LIB printing.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort = string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SF64  Sort = "F64"
	SI    Sort = "I"
)

// Term is a hash-consed term.
// op: "int" (iv), "true","false","strc" (sv), "fpc" (sv: smt text), "var" (sv: name; free constant),
// "bvar" (bound variable), "forall"/"exists" (bvs, args[0], pats), or a function symbol applied to args.
type Term struct {
	op   string
	sort Sort
	args []*Term
	iv   *big.Int
	sv   string
	bvs  []*Term
	pats [][]*Term
	id   int
	fb   bool // contains a bound variable
}

type termTable struct {
	m    map[string]*Term
	n    int
	strs map[string]bool
	nfr  int
}

var tt = &termTable{m: map[string]*Term{}}

func (t *termTable) intern(x *Term) *Term {
	var sb strings.Builder
	sb.WriteString(x.op)
	sb.WriteByte('|')
	sb.WriteString(x.sort)
	sb.WriteByte('|')
	if x.iv != nil {
		sb.WriteString(x.iv.String())
	}
	if x.sv != "" {
		sb.WriteString(strconv.Quote(x.sv))
	}
	for _, a := range x.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
		if a.fb {
			x.fb = true
		}
	}
	for _, b := range x.bvs {
		sb.WriteByte('!')
		sb.WriteString(strconv.Itoa(b.id))
	}
	for _, p := range x.pats {
		sb.WriteByte('#')
		for _, a := range p {
			sb.WriteByte(',')
			sb.WriteString(strconv.Itoa(a.id))
		}
	}
	k := sb.String()
	if y, ok := t.m[k]; ok {
		return y
	}
	t.n++
	x.id = t.n
	if x.op == "bvar" {
		x.fb = true
	}
	t.m[k] = x
	return x
}

var (
	tTrue  = tt.intern(&Term{op: "true", sort: SBool})
	tFalse = tt.intern(&Term{op: "false", sort: SBool})
)

func mkBoolC(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkBig(v *big.Int) *Term { return tt.intern(&Term{op: "int", sort: SInt, iv: v}) }
func mkInt(v int64) *Term    { return mkBig(big.NewInt(v)) }
func mkStrC(s string) *Term {
	return tt.intern(&Term{op: "strc", sort: SStr, sv: "s" + s})
}
func (t *Term) strVal() string { return t.sv[1:] }
func mkVar(name string, s Sort) *Term {
	return tt.intern(&Term{op: "var", sort: s, sv: name})
}

var freshN = map[string]int{}

func mkFresh(hint string, s Sort) *Term {
	var sb strings.Builder
	for _, r := range hint {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			sb.WriteRune(r)
		}
	}
	h := sb.String()
	if h == "" {
		h = "v"
	}
	freshN[h]++
	return mkVar(fmt.Sprintf("%s!%d", h, freshN[h]), s)
}

var bvN int

func mkBVar(s Sort) *Term {
	bvN++
	return tt.intern(&Term{op: "bvar", sort: s, sv: fmt.Sprintf("q%d", bvN)})
}
func mkFP(text string) *Term { return tt.intern(&Term{op: "fpc", sort: SF64, sv: text}) }

func isInt(t *Term) bool { return t.op == "int" }

// ---- function signatures (result sorts), recorded so declarations can be emitted

type FuncSig struct {
	name string
	args []Sort
	res  Sort
}

var funcs = map[string]*FuncSig{}

func declFun(name string, res Sort, args ...Sort) {
	if f, ok := funcs[name]; ok {
		if f.res != res || len(f.args) != len(args) {
			panic("redeclared " + name)
		}
		return
	}
	funcs[name] = &FuncSig{name, args, res}
}

// ---- datatypes

type Ctor struct {
	name string
	sels []string
	srts []Sort
}
type Datatype struct {
	name  Sort
	ctors []*Ctor
}

var datatypes = map[Sort]*Datatype{}
var ctorOf = map[string]*Ctor{}
var ctorDT = map[string]*Datatype{}
var selOf = map[string]struct {
	c *Ctor
	i int
}{}
var dtOrder []Sort

func declDatatype(d *Datatype) {
	if old, ok := datatypes[d.name]; ok {
		*old = *d
		d = old
	} else {
		datatypes[d.name] = d
		dtOrder = append(dtOrder, d.name)
	}
	for _, c := range d.ctors {
		ctorOf[c.name] = c
		ctorDT[c.name] = d
		for i, s := range c.sels {
			selOf[s] = struct {
				c *Ctor
				i int
			}{c, i}
		}
	}
}

// ---- constructors with simplification

func mkApp(op string, s Sort, args ...*Term) *Term {
	return tt.intern(&Term{op: op, sort: s, args: args})
}

func mkNot(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	}
	return mkApp("not", SBool, a)
}

func mkAnd(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == tTrue || seen[x.id] {
			return true
		}
		if x == tFalse {
			return false
		}
		if x.op == "and" {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[mkNot(x).id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mkApp("and", SBool, out...)
}

func mkOr(xs ...*Term) *Term {
	ns := make([]*Term, len(xs))
	for i, x := range xs {
		ns[i] = mkNot(x)
	}
	a := mkAnd(ns...)
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "and":
		out := make([]*Term, len(a.args))
		for i, x := range a.args {
			out[i] = mkNot(x)
		}
		return mkApp("or", SBool, out...)
	}
	return mkNot(a)
}

func mkImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return mkNot(a)
	}
	if a == b {
		return tTrue
	}
	return mkApp("=>", SBool, a, b)
}

func isCtorApp(t *Term) bool { _, ok := ctorOf[t.op]; return ok }
func isValue(t *Term) bool {
	switch t.op {
	case "int", "true", "false", "strc", "fpc":
		return true
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		if a.sort == SF64 {
			return tTrue // SMT identity
		}
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("mkEq sorts: %s:%s = %s:%s", a, a.sort, b, b.sort))
	}
	if isValue(a) && isValue(b) {
		if a.sort == SF64 {
			// distinct texts might be the same value; leave to the solver
			return mkApp("=", SBool, a, b)
		}
		return tFalse
	}
	if a.sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
	}
	if isMachSort(a.sort) && a.op == "of."+a.sort && b.op == a.op && fits(a.sort, a.args[0]) && fits(a.sort, b.args[0]) {
		return mkEq(a.args[0], b.args[0])
	}
	if isCtorApp(a) && isCtorApp(b) {
		if a.op != b.op {
			return tFalse
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, mkEq(a.args[i], b.args[i]))
		}
		return mkAnd(cs...)
	}
	if a.op == "ite" && isValue(b) && (isValue(a.args[1]) || isValue(a.args[2])) {
		return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
	}
	if b.op == "ite" && isValue(a) && (isValue(b.args[1]) || isValue(b.args[2])) {
		return mkIte(b.args[0], mkEq(a, b.args[1]), mkEq(a, b.args[2]))
	}
	if a.op == "ite" && isCtorApp(b) && isCtorApp(a.args[1]) && isCtorApp(a.args[2]) {
		return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
	}
	if b.op == "ite" && isCtorApp(a) && isCtorApp(b.args[1]) && isCtorApp(b.args[2]) {
		return mkIte(b.args[0], mkEq(a, b.args[1]), mkEq(a, b.args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkApp("=", SBool, a, b)
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if c.op == "not" {
		return mkIte(c.args[0], b, a)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("mkIte sorts %s %s: %v / %v", a.sort, b.sort, a, b))
	}
	if a.sort == SBool {
		switch {
		case a == tTrue && b == tFalse:
			return c
		case a == tFalse && b == tTrue:
			return mkNot(c)
		case a == tTrue:
			return mkOr(c, b)
		case b == tFalse:
			return mkAnd(c, a)
		case a == tFalse:
			return mkAnd(mkNot(c), b)
		case b == tTrue:
			return mkOr(mkNot(c), a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if b.op == "ite" && b.args[1] == a {
		return mkIte(mkOr(c, b.args[0]), a, b.args[2])
	}
	return mkApp("ite", a.sort, c, a, b)
}

// tester
func mkIs(ctor string, t *Term) *Term {
	if isCtorApp(t) {
		return mkBoolC(t.op == ctor)
	}
	if dt := ctorDT[ctor]; dt != nil && len(dt.ctors) == 1 {
		return tTrue
	}
	if t.op == "ite" && (isCtorApp(t.args[1]) || isCtorApp(t.args[2])) {
		return mkIte(t.args[0], mkIs(ctor, t.args[1]), mkIs(ctor, t.args[2]))
	}
	return mkApp("is:"+ctor, SBool, t)
}

func mkCtor(name string, args ...*Term) *Term {
	c := ctorOf[name]
	if c == nil {
		panic("no ctor " + name)
	}
	if len(args) != len(c.sels) {
		panic("ctor arity " + name)
	}
	args = append([]*Term{}, args...)
	for i, a := range args {
		if isMachSort(c.srts[i]) && a.sort == SInt {
			args[i] = mkOf(c.srts[i], a)
			a = args[i]
		}
		if a.sort != c.srts[i] {
			panic(fmt.Sprintf("ctor %s arg %d: sort %s, want %s", name, i, a.sort, c.srts[i]))
		}
	}
	// eta: C(sel0 x, sel1 x...) = x for single-constructor types
	if dt := ctorDT[name]; len(dt.ctors) == 1 && len(args) > 0 {
		var base *Term
		ok := true
		for i, a := range args {
			if a.op == c.sels[i] && len(a.args) == 1 {
				if base == nil {
					base = a.args[0]
				} else if base != a.args[0] {
					ok = false
				}
			} else {
				ok = false
			}
		}
		if ok && base != nil {
			return base
		}
	}
	return mkApp(name, ctorDT[name].name, args...)
}

func mkSel(sel string, t *Term) *Term {
	r := mkSelRaw(sel, t)
	if isMachSort(r.sort) {
		return mkTo(r)
	}
	return r
}

func mkSelRaw(sel string, t *Term) *Term {
	s, ok := selOf[sel]
	if !ok {
		panic("no selector " + sel)
	}
	if isCtorApp(t) {
		if t.op == s.c.name {
			return t.args[s.i]
		}
		return mkApp(sel, s.c.srts[s.i], t)
	}
	if t.op == "ite" {
		a, b := t.args[1], t.args[2]
		if isCtorApp(a) && a.op == s.c.name && isCtorApp(b) && b.op == s.c.name {
			return mkIte(t.args[0], mkSelRaw(sel, a), mkSelRaw(sel, b))
		}
		// single-constructor types: push in when profitable
		if len(ctorDT[s.c.name].ctors) == 1 && (isCtorApp(a) || isCtorApp(b)) {
			return mkIte(t.args[0], mkSelRaw(sel, a), mkSelRaw(sel, b))
		}
	}
	return mkApp(sel, s.c.srts[s.i], t)
}

// Machine integers held in data types have a sort of their own for each width: M64s, M8u and so on.
// An uninterpreted injection to.M64s gives the integer, which is in range; of.M64s is its inverse on the range.

func machSort(bits int, signed bool) Sort {
	s := fmt.Sprintf("M%du", bits)
	if signed {
		s = fmt.Sprintf("M%ds", bits)
	}
	if _, ok := machSorts[s]; !ok {
		machSorts[s] = [2]int{bits, 0}
		if signed {
			machSorts[s] = [2]int{bits, 1}
		}
		declSort(s)
		declFun("to."+s, SInt, s)
		declFun("of."+s, s, SInt)
		m, n := mkBVar(s), mkBVar(SInt)
		to := func(t *Term) *Term { return mkApp("to."+s, SInt, t) }
		of := func(t *Term) *Term { return mkApp("of."+s, s, t) }
		axiom("to "+s, []string{"to." + s}, mkForall([]*Term{m}, [][]*Term{{to(m)}}, mkAnd(inRange(to(m), bits, signed), mkApp("=", SBool, of(to(m)), m))))
		axiom("of "+s, []string{"of." + s, "to." + s}, mkForall([]*Term{n}, [][]*Term{{of(n)}}, mkImp(inRange(n, bits, signed), mkApp("=", SBool, to(of(n)), n))))
	}
	return s
}

var machSorts = map[Sort][2]int{}

func isMachSort(s Sort) bool { _, ok := machSorts[s]; return ok }

// fits says whether an integer term is evidently within the range of s.
// symRange records the integer type of a symbol whose range was assumed when it was made.
var symRange = map[int][2]interface{}{}
var nil_ [2]interface{}

func fits(s Sort, t *Term) bool {
	bs := machSorts[s]
	lo, hi := intRange(bs[0], bs[1] == 1)
	within := func(b int, sg bool) bool {
		l, h := intRange(b, sg)
		return lo.Cmp(l) <= 0 && h.Cmp(hi) <= 0
	}
	switch {
	case isInt(t):
		return lo.Cmp(t.iv) <= 0 && t.iv.Cmp(hi) <= 0
	case t.op == "ite":
		return fits(s, t.args[1]) && fits(s, t.args[2])
	case symRange[t.id] != nil_:
		r := symRange[t.id]
		return within(r[0].(int), r[1].(bool))
	case strings.HasPrefix(t.op, "to."):
		m := machSorts[t.op[3:]]
		return within(m[0], m[1] == 1)
	case strings.HasPrefix(t.op, "wrapu"):
		n := 0
		fmt.Sscanf(t.op[5:], "%d", &n)
		return within(n, false)
	case strings.HasPrefix(t.op, "wrap"):
		n := 0
		fmt.Sscanf(t.op[4:], "%d", &n)
		return within(n, true)
	case t.op == "f2i":
		return within(64, true)
	}
	return false
}

func mkOf(s Sort, n *Term) *Term {
	if n.op == "to."+s {
		return n.args[0]
	}
	return mkApp("of."+s, s, n)
}

func mkTo(m *Term) *Term {
	if m.op == "of."+m.sort && fits(m.sort, m.args[0]) {
		return m.args[0]
	}
	if m.op == "ite" {
		a, b := m.args[1], m.args[2]
		if a.op == "of."+m.sort || b.op == "of."+m.sort {
			return mkIte(m.args[0], mkTo(a), mkTo(b))
		}
	}
	return mkApp("to."+m.sort, SInt, m)
}

var (
	minI64 = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63))
	maxI64 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))
)

func mkAdd(a, b *Term) *Term {
	if isInt(a) && isInt(b) {
		return mkBig(new(big.Int).Add(a.iv, b.iv))
	}
	if isInt(a) {
		a, b = b, a
	}
	if isInt(b) {
		if b.iv.Sign() == 0 {
			return a
		}
		if a.op == "+" && isInt(a.args[1]) {
			return mkAdd(a.args[0], mkBig(new(big.Int).Add(a.args[1].iv, b.iv)))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if !isInt(b) {
		if a.op == "+" && isInt(a.args[1]) {
			return mkAdd(mkAdd(a.args[0], b), a.args[1])
		}
		if b.op == "+" && isInt(b.args[1]) {
			return mkAdd(mkAdd(a, b.args[0]), b.args[1])
		}
	}
	return mkApp("+", SInt, a, b)
}
func mkSub(a, b *Term) *Term {
	if a == b {
		return mkInt(0)
	}
	if isInt(b) {
		return mkAdd(a, mkBig(new(big.Int).Neg(b.iv)))
	}
	return mkApp("-", SInt, a, b)
}
func mkNeg(a *Term) *Term {
	if isInt(a) {
		return mkBig(new(big.Int).Neg(a.iv))
	}
	return mkSub(mkInt(0), a)
}
func mkMul(a, b *Term) *Term {
	if isInt(a) && isInt(b) {
		return mkBig(new(big.Int).Mul(a.iv, b.iv))
	}
	if isInt(a) {
		a, b = b, a
	}
	if isInt(b) {
		if b.iv.Sign() == 0 {
			return b
		}
		if b.iv.IsInt64() && b.iv.Int64() == 1 {
			return a
		}
		return mkApp("*", SInt, a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkUF("gomul", a, b)
}
func mkLt(a, b *Term) *Term {
	if isInt(a) && isInt(b) {
		return mkBoolC(a.iv.Cmp(b.iv) < 0)
	}
	if a == b {
		return tFalse
	}
	return mkApp("<", SBool, a, b)
}
func mkLe(a, b *Term) *Term {
	return mkNot(mkLt(b, a))
}

// wrapTo wraps integer t to the range of a bits-wide signed or unsigned type.
func wrapTo(t *Term, bits int, signed bool) *Term {
	if isInt(t) {
		m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
		v := new(big.Int).Mod(t.iv, m)
		if signed && v.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(bits-1))) >= 0 {
			v.Sub(v, m)
		}
		return mkBig(v)
	}
	n := fmt.Sprintf("wrapu%d", bits)
	if signed {
		n = fmt.Sprintf("wrap%d", bits)
	}
	if t.op == n {
		return t
	}
	return mkUF(n, t)
}

func mkUF(name string, args ...*Term) *Term {
	f := funcs[name]
	if f == nil {
		panic("undeclared function " + name)
	}
	if len(f.args) != len(args) {
		panic(fmt.Sprintf("arity %s: %d args", name, len(args)))
	}
	for i, a := range args {
		if a.sort != f.args[i] {
			panic(fmt.Sprintf("%s arg %d: sort %s want %s (%s)", name, i, a.sort, f.args[i], a))
		}
	}
	if t := simplifyUF(name, args); t != nil {
		return t
	}
	return mkApp(name, f.res, args...)
}

func mkForall(bvs []*Term, pats [][]*Term, body *Term) *Term {
	if body == tTrue {
		return tTrue
	}
	if len(bvs) == 0 {
		return body
	}
	t := &Term{op: "forall", sort: SBool, args: []*Term{body}, bvs: bvs, pats: pats}
	r := tt.intern(t)
	r.fb = hasFree(r)
	return r
}
func mkExists(bvs []*Term, body *Term) *Term {
	t := &Term{op: "exists", sort: SBool, args: []*Term{body}, bvs: bvs}
	r := tt.intern(t)
	r.fb = hasFree(r)
	return r
}

// hasFree says whether t contains a bvar not bound inside t.
func hasFree(t *Term) bool {
	fv := map[int]bool{}
	freeVars(t, fv, map[int]bool{})
	return len(fv) > 0
}

func freeVars(t *Term, fv map[int]bool, seen map[int]bool) {
	if !t.fb && t.op != "forall" && t.op != "exists" || seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == "bvar" {
		fv[t.id] = true
		return
	}
	if t.op == "forall" || t.op == "exists" {
		in := map[int]bool{}
		is := map[int]bool{}
		freeVars(t.args[0], in, is)
		for _, b := range t.bvs {
			delete(in, b.id)
		}
		for k := range in {
			fv[k] = true
		}
		return
	}
	for _, a := range t.args {
		freeVars(a, fv, seen)
	}
}

// subst replaces terms (by id) in t, rebuilding with simplification.
func subst(t *Term, m map[int]*Term) *Term {
	memo := map[int]*Term{}
	return subst1(t, m, memo)
}

func subst1(t *Term, m map[int]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t.id]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	ch := false
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = subst1(a, m, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		if t.op == "forall" || t.op == "exists" {
			ps := make([][]*Term, len(t.pats))
			for i, p := range t.pats {
				for _, x := range p {
					ps[i] = append(ps[i], subst1(x, m, memo))
				}
			}
			q := &Term{op: t.op, sort: SBool, args: as, bvs: t.bvs, pats: ps}
			r = tt.intern(q)
			r.fb = hasFree(r)
		} else {
			r = rebuild(t, as)
		}
	}
	memo[t.id] = r
	return r
}

// rebuild applies t's operator to new args with simplification.
func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "not":
		return mkNot(as[0])
	case "and":
		return mkAnd(as...)
	case "or":
		return mkOr(as...)
	case "=>":
		return mkImp(as[0], as[1])
	case "=":
		return mkEq(as[0], as[1])
	case "ite":
		return mkIte(as[0], as[1], as[2])
	case "+":
		return mkAdd(as[0], as[1])
	case "-":
		return mkSub(as[0], as[1])
	case "*":
		return mkMul(as[0], as[1])
	case "<":
		return mkLt(as[0], as[1])
	}
	if strings.HasPrefix(t.op, "is:") {
		return mkIs(t.op[3:], as[0])
	}
	if _, ok := ctorOf[t.op]; ok {
		return mkCtor(t.op, as...)
	}
	if _, ok := selOf[t.op]; ok {
		return mkSelRaw(t.op, as[0])
	}
	if strings.HasPrefix(t.op, "to.") {
		return mkTo(as[0])
	}
	if strings.HasPrefix(t.op, "of.") {
		return mkOf(t.op[3:], as[0])
	}
	if _, ok := funcs[t.op]; ok {
		return mkUF(t.op, as...)
	}
	return mkApp(t.op, t.sort, as...)
}

// ---- printing

func (t *Term) String() string {
	var sb strings.Builder
	printDbg(&sb, t, 12)
	return sb.String()
}

func printDbg(sb *strings.Builder, t *Term, d int) {
	switch t.op {
	case "int":
		sb.WriteString(t.iv.String())
		return
	case "strc":
		sb.WriteString(strconv.Quote(t.strVal()))
		return
	case "var", "bvar", "fpc":
		sb.WriteString(t.sv)
		return
	}
	if len(t.args) == 0 {
		sb.WriteString(t.op)
		return
	}
	if d == 0 {
		sb.WriteString("…")
		return
	}
	sb.WriteByte('(')
	sb.WriteString(t.op)
	for _, b := range t.bvs {
		sb.WriteString(" " + b.sv)
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		printDbg(sb, a, d-1)
	}
	sb.WriteByte(')')
}

func smtName(n string) string {
	for _, r := range n {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '!' || r == '.' || r == '$') {
			return "|" + n + "|"
		}
	}
	return n
}

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

// printer emits terms with shared closed subterms as nullary define-funs.
type printer struct {
	out   *strings.Builder
	names map[int]string // term id -> defined name
	refs  map[int]int
	strs  map[string]string // string constant -> smt name
	bv    bool
}

func (p *printer) strName(s string) string {
	if n, ok := p.strs[s]; ok {
		return n
	}
	n := fmt.Sprintf("str$%d", len(p.strs))
	p.strs[s] = n
	return n
}

func (p *printer) count(t *Term) {
	p.refs[t.id]++
	if p.refs[t.id] > 1 {
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
	for _, ps := range t.pats {
		for _, a := range ps {
			p.count(a)
		}
	}
}

// define emits define-funs for the shared closed subterms of t (post-order).
func (p *printer) define(t *Term, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	for _, a := range t.args {
		p.define(a, seen)
	}
	for _, ps := range t.pats {
		for _, a := range ps {
			p.define(a, seen)
		}
	}
	if p.refs[t.id] > 1 && !t.fb && len(t.args) > 0 && p.names[t.id] == "" {
		var sb strings.Builder
		p.expr(&sb, t)
		n := fmt.Sprintf("$%d", t.id)
		fmt.Fprintf(p.out, "(define-fun %s () %s %s)\n", n, smtSort(t.sort), sb.String())
		p.names[t.id] = n
	}
}

func (p *printer) expr(sb *strings.Builder, t *Term) {
	if n, ok := p.names[t.id]; ok {
		sb.WriteString(n)
		return
	}
	switch t.op {
	case "int":
		sb.WriteString(smtInt(t.iv))
		return
	case "strc":
		sb.WriteString(p.strName(t.strVal()))
		return
	case "var", "bvar":
		sb.WriteString(smtName(t.sv))
		return
	case "fpc", "bvc":
		sb.WriteString(t.sv)
		return
	case "true", "false":
		sb.WriteString(t.op)
		return
	case "forall", "exists":
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bvs {
			fmt.Fprintf(sb, "(%s %s)", smtName(b.sv), smtSort(b.sort))
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		p.expr(sb, t.args[0])
		if len(t.pats) > 0 {
			for _, ps := range t.pats {
				sb.WriteString(" :pattern (")
				for i, x := range ps {
					if i > 0 {
						sb.WriteByte(' ')
					}
					p.expr(sb, x)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		sb.WriteString(smtName(t.op))
		return
	}
	sb.WriteByte('(')
	if strings.HasPrefix(t.op, "is:") {
		sb.WriteString("(_ is " + smtName(t.op[3:]) + ")")
	} else if strings.HasPrefix(t.op, "(") {
		sb.WriteString(t.op)
	} else {
		sb.WriteString(smtName2(t.op))
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		p.expr(sb, a)
	}
	sb.WriteByte(')')
}

func smtName2(n string) string {
	switch n {
	case "=", "<", "<=", ">", ">=", "+", "-", "*", "=>", "and", "or", "not", "ite", "div", "mod", "select", "store":
		return n
	}
	return smtName(n)
}

func smtSort(s Sort) string {
	if s == SF64 {
		return "Float64"
	}
	return s
}

// symbols collects every function/ctor symbol, free constant and string constant in t.
func symbols(t *Term, seen map[int]bool, fn func(*Term)) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	fn(t)
	for _, a := range t.args {
		symbols(a, seen, fn)
	}
	for _, ps := range t.pats {
		for _, a := range ps {
			symbols(a, seen, fn)
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
