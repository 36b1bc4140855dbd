package main

// Obligations about bits: integer terms read as 128-bit vectors.
// The Go integers in them are at most 64 bits wide and only constants multiply, so no term overflows 128 bits.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

const bvW = 128

type bvTr struct {
	memo map[int]string
	vars map[string]Sort
	out  strings.Builder
	n    int
	bits bool // a bit operation occurs
}

type noBV struct{}

func bvConst(v *big.Int) string {
	m := new(big.Int).Mod(v, new(big.Int).Lsh(big.NewInt(1), bvW))
	return fmt.Sprintf("(_ bv%s %d)", m, bvW)
}

func (b *bvTr) tr(t *Term) string {
	if s, ok := b.memo[t.id]; ok {
		return s
	}
	s := b.tr1(t)
	if len(t.args) > 0 {
		b.n++
		n := fmt.Sprintf("$b%d", b.n)
		so := fmt.Sprintf("(_ BitVec %d)", bvW)
		if t.sort == SBool {
			so = "Bool"
		}
		fmt.Fprintf(&b.out, "(define-fun %s () %s %s)\n", n, so, s)
		s = n
	}
	b.memo[t.id] = s
	return s
}

func (b *bvTr) tr1(t *Term) string {
	if t.sort != SInt && t.sort != SBool {
		panic(noBV{})
	}
	ap := func(op string) string {
		var sb strings.Builder
		sb.WriteString("(" + op)
		for _, a := range t.args {
			sb.WriteString(" " + b.tr(a))
		}
		return sb.String() + ")"
	}
	fold := func(op string) string {
		r := b.tr(t.args[0])
		for _, a := range t.args[1:] {
			r = fmt.Sprintf("(%s %s %s)", op, r, b.tr(a))
		}
		return r
	}
	pow := func(c *Term) int {
		if !isInt(c) {
			panic(noBV{})
		}
		n := powerOf2(c.iv)
		if n < 0 {
			panic(noBV{})
		}
		return n
	}
	ext := func(x string, n int, signed bool) string {
		op := "zero_extend"
		if signed {
			op = "sign_extend"
		}
		return fmt.Sprintf("((_ %s %d) ((_ extract %d 0) %s))", op, bvW-n, n-1, x)
	}
	switch t.op {
	case "int":
		return bvConst(t.iv)
	case "true", "false":
		return t.op
	case "var":
		b.vars[t.sv] = t.sort
		return smtName(t.sv)
	case "+":
		return fold("bvadd")
	case "*":
		nc := 0
		for _, a := range t.args {
			if !isInt(a) {
				nc++
			} else if a.iv.BitLen() > 34 {
				panic(noBV{})
			}
		}
		if nc > 1 {
			panic(noBV{})
		}
		return fold("bvmul")
	case "-":
		if len(t.args) == 1 {
			return ap("bvneg")
		}
		return fold("bvsub")
	case "div":
		n := pow(t.args[1])
		return fmt.Sprintf("(bvashr %s %s)", b.tr(t.args[0]), bvConst(big.NewInt(int64(n))))
	case "mod":
		pow(t.args[1])
		return fmt.Sprintf("(bvand %s %s)", b.tr(t.args[0]), bvConst(new(big.Int).Sub(t.args[1].iv, big.NewInt(1))))
	case "godiv":
		return ap("bvsdiv")
	case "gomod":
		return ap("bvsrem")
	case "goand":
		b.bits = true
		return ap("bvand")
	case "goor":
		b.bits = true
		return ap("bvor")
	case "goxor":
		b.bits = true
		return ap("bvxor")
	case "wrap8", "wrap16", "wrap32", "wrap64", "wrapu8", "wrapu16", "wrapu32", "wrapu64":
		u := strings.HasPrefix(t.op, "wrapu")
		n := 0
		fmt.Sscanf(strings.TrimLeft(t.op, "wrapu"), "%d", &n)
		if n < 64 {
			b.bits = true
		}
		return ext(b.tr(t.args[0]), n, !u)
	case "<":
		return ap("bvslt")
	case "<=":
		return ap("bvsle")
	case "=", "ite", "and", "or", "not", "=>", "distinct":
		return ap(t.op)
	}
	panic(noBV{})
}

// bvScript translates an obligation to bit vectors. What cannot be translated is left out of the assumptions.
func bvScript(pc []*Term, goal *Term) (r string) {
	b := &bvTr{memo: map[int]string{}, vars: map[string]Sort{}}
	try := func(t *Term) (s string) {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(noBV); ok {
					s = ""
					return
				}
				panic(e)
			}
		}()
		return b.tr(t)
	}
	g := try(goal)
	if g == "" {
		return ""
	}
	var as []string
	for _, t := range pc {
		if s := try(t); s != "" {
			as = append(as, s)
		}
	}
	if !b.bits {
		return ""
	}
	var vs []string
	for v := range b.vars {
		vs = append(vs, v)
	}
	sort.Strings(vs)
	var out strings.Builder
	out.WriteString("(set-logic QF_BV)\n")
	for _, v := range vs {
		if b.vars[v] == SBool {
			fmt.Fprintf(&out, "(declare-const %s Bool)\n", smtName(v))
		} else {
			fmt.Fprintf(&out, "(declare-const %s (_ BitVec %d))\n", smtName(v), bvW)
		}
	}
	out.WriteString(b.out.String())
	for _, a := range as {
		fmt.Fprintf(&out, "(assert %s)\n", a)
	}
	fmt.Fprintf(&out, "(assert (not %s))\n", g)
	return out.String()
}
