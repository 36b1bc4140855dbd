package main

// External functions (trusted models), package variables.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tokenPos = token.Pos

func sortInts(s []int) { sort.Ints(s) }

func sortBinds(b []bindEl) { sort.SliceStable(b, func(i, j int) bool { return b[i].desc < b[j].desc }) }

var usedExterns = map[string]bool{}

func uf(name string, res Sort, args ...*Term) *Term {
	var as []Sort
	for _, a := range args {
		as = append(as, a.sort)
	}
	declFun(name, res, as...)
	return mkUF(name, args...)
}

func errOf(ok *Term) *Term { return mkIte(ok, mkCtor("I_nil"), mkCtor("I_err")) }

func (x *Exec) extern(fr *Frame, st *State, pos token.Pos, g *ssa.Function, args []V) V {
	name := origin(g).String()
	usedExterns[name] = true
	t := func(i int) *Term { return x.reify(st, args[i]) }
	arr := func(i int) []*Term {
		s, ok := args[i].(*SliceV)
		if !ok {
			return nil
		}
		if s.cell == 0 {
			if s.nilT == tTrue {
				return []*Term{}
			}
			return nil
		}
		a, ok := st.mem[s.cell].(*ArrayV)
		if !ok {
			return nil
		}
		var r []*Term
		for _, e := range a.e {
			r = append(r, x.reifyC(st, e))
		}
		return r
	}
	switch name {
	case "strconv.ParseInt":
		v := uf("parseInt", SInt, t(0), t(1), t(2))
		st.assume(inRange(v, 64, true))
		return TupleV{v, errOf(uf("parseIntOK", SBool, t(0), t(1), t(2)))}
	case "strconv.ParseUint":
		v := uf("parseUint", SInt, t(0), t(1), t(2))
		ok := uf("parseUintOK", SBool, t(0), t(1), t(2))
		st.assume(inRange(v, 64, false))
		if isInt(t(2)) && t(2).iv.IsInt64() && t(2).iv.Int64() > 0 && t(2).iv.Int64() < 64 {
			st.assume(mkImp(ok, inRange(v, int(t(2).iv.Int64()), false)))
		}
		return TupleV{v, errOf(ok)}
	case "strconv.ParseFloat":
		return TupleV{uf("parseFloat", SF64, t(0), t(1)), errOf(uf("parseFloatOK", SBool, t(0), t(1)))}
	case "strconv.Atoi":
		v := uf("parseInt", SInt, t(0), mkInt(10), mkInt(64))
		st.assume(inRange(v, 64, true))
		return TupleV{v, errOf(uf("parseIntOK", SBool, t(0), mkInt(10), mkInt(64)))}
	case "strconv.Itoa":
		return uf("fmtInt", SStr, t(0))
	case "strconv.FormatInt":
		if t(1) == mkInt(10) {
			return uf("fmtInt", SStr, t(0))
		}
	case "fmt.Sprint":
		a := arr(0)
		if len(a) == 1 {
			// an integer prints the same whatever its type
			e := a[0]
			for _, c := range []string{"I_int64", "I_int"} {
				if e.op == c {
					return uf("fmtInt", SStr, mkTo(e.args[0]))
				}
			}
			if e.op == "I_string" {
				return e.args[0]
			}
			return uf("sprint", SStr, e)
		}
		return mkFresh("sprint", SStr)
	case "fmt.Sprintf":
		f := t(0)
		if a := arr(1); a != nil && f.op == "strc" {
			nm := "sprintf:" + f.strVal()
			var ss []Sort
			for range a {
				ss = append(ss, SI)
			}
			nm = nm + "/" + strings.Repeat("I", len(ss))
			declFun(nm, SStr, ss...)
			return mkUF(nm, a...)
		}
		return mkFresh("sprintf", SStr)
	case "fmt.Errorf", "errors.New":
		return mkCtor("I_err")
	case "fmt.Printf", "fmt.Print", "fmt.Println":
		return TupleV{mkFresh("n", SInt), mkFresh("err", SI)}
	case "math.NaN":
		return mkFP("(_ NaN 11 53)")
	case "math.IsNaN":
		return mkUF("fp.isNaN", t(0))
	case "math.Mod":
		return mkUF("fmodf", t(0), t(1))
	case "math.Ceil":
		return mkUF("fceil", t(0))
	case "math.Floor":
		return mkUF("ffloor", t(0))
	case "math.Abs":
		// clears the sign
		return mkIte(mkUF("fp.lt", t(0), mkF64(0)), mkUF("fp.neg", t(0)), uf("fabsp", SF64, t(0)))
	case "strings.Contains":
		return uf("strContains", SBool, t(0), t(1))
	case "strings.HasPrefix":
		return uf("strHasPrefix", SBool, t(0), t(1))
	case "strings.HasSuffix":
		return uf("strHasSuffix", SBool, t(0), t(1))
	case "strings.IndexByte", "strings.IndexRune", "strings.Index":
		r := uf(name, SInt, t(0), t(1))
		st.assume(mkLe(mkInt(-1), r))
		return r
	case "strings.ContainsRune":
		return uf(name, SBool, t(0), t(1))
	case "unicode/utf8.RuneCountInString":
		n := mkUF("runecount", t(0))
		x.lenBound(st, n)
		return n
	case "unicode/utf8.RuneLen":
		n := mkUF("slen", mkUF("srune", t(0)))
		return n
	case "unicode/utf16.IsSurrogate":
		r := t(0)
		return mkAnd(mkLe(mkInt(0xd800), r), mkLt(r, mkInt(0xe000)))
	case "unicode/utf16.DecodeRune":
		a, b := t(0), t(1)
		ok := mkAnd(mkLe(mkInt(0xd800), a), mkLt(a, mkInt(0xdc00)), mkLe(mkInt(0xdc00), b), mkLt(b, mkInt(0xe000)))
		v := mkAdd(mkAdd(mkMul(mkSub(a, mkInt(0xd800)), mkInt(1024)), mkSub(b, mkInt(0xdc00))), mkInt(0x10000))
		return mkIte(ok, v, mkInt(0xfffd))
	case "unicode.IsSpace", "unicode.IsLetter", "unicode.IsDigit":
		return uf(name, SBool, t(0))
	case "regexp.Compile":
		return TupleV{uf("reCompile", "Regexp", t(0)), errOf(uf("reCompileOK", SBool, t(0)))}
	case "(*regexp.Regexp).MatchString":
		return uf("reMatch", SBool, t(0), t(1))
	case "(*regexp.Regexp).String":
		return uf("reString", SStr, t(0))
	case "(*regexp.Regexp).Split":
		s := uf("reSplit", seqSort(SStr), t(0), t(1), t(2))
		return &SliceV{seq: s, elem: types.Typ[types.String], nilT: mkFresh("nil", SBool)}
	case "(encoding/json.Number).String":
		return t(0)
	case "(encoding/json.Number).Int64":
		v := uf("parseInt", SInt, t(0), mkInt(10), mkInt(64))
		st.assume(inRange(v, 64, true))
		return TupleV{v, errOf(uf("parseIntOK", SBool, t(0), mkInt(10), mkInt(64)))}
	case "(encoding/json.Number).Float64":
		return TupleV{uf("parseFloat", SF64, t(0), mkInt(64)), errOf(uf("parseFloatOK", SBool, t(0), mkInt(64)))}
	case "(*strings.Builder).WriteByte":
		return x.bufOp(fr, st, pos, args[0], func(s *Term) *Term { return mkUF("sappb", s, t(1)) }, mkCtor("I_nil"))
	case "(*strings.Builder).WriteString":
		x.bufOp(fr, st, pos, args[0], func(s *Term) *Term { return mkUF("scat", s, t(1)) }, nil)
		return TupleV{mkUF("slen", t(1)), mkCtor("I_nil")}
	case "(*strings.Builder).WriteRune":
		r := mkUF("srune", t(1))
		x.bufOp(fr, st, pos, args[0], func(s *Term) *Term { return mkUF("scat", s, r) }, nil)
		return TupleV{mkUF("slen", r), mkCtor("I_nil")}
	case "(*strings.Builder).String":
		return x.reify(st, x.load(st, args[0].(*PtrV)))
	case "(*strings.Builder).Len":
		return mkUF("slen", x.reify(st, x.load(st, args[0].(*PtrV))))
	case "(*strings.Builder).Reset":
		return x.bufOp(fr, st, pos, args[0], func(s *Term) *Term { return mkStrC("") }, TupleV{})
	case "(*strings.Builder).Grow":
		return TupleV{}
	}
	if v, ok := x.externIO(fr, st, pos, g, name, args); ok {
		return v
	}
	fail("external function %s", name)
	return nil
}

func (x *Exec) bufOp(fr *Frame, st *State, pos token.Pos, p V, f func(*Term) *Term, r V) V {
	pv, ok := p.(*PtrV)
	if !ok {
		fail("buffer %T", p)
	}
	x.bufCell[pv.cell] = true
	x.store(fr, st, pv, f(x.reify(st, x.load(st, pv))))
	return r
}

func (x *Exec) externIO(fr *Frame, st *State, pos token.Pos, g *ssa.Function, name string, args []V) (V, bool) {
	return nil, false
}

// ---- package variables

type globVal struct {
	v    V
	init bool // only assigned by the package initialiser
}

func (w *World) initGlobals() {
	w.globs = map[*ssa.Global]*globVal{}
	assigned := map[*ssa.Global]bool{}
	for fn := range w.allFns {
		if fn.Pkg == nil || !w.inMod[fn.Pkg] {
			continue
		}
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if g, ok := rootGlobal(in.Addr); ok && !isInit {
						assigned[g] = true
					}
				case *ssa.MapUpdate:
					if u, ok := in.Map.(*ssa.UnOp); ok && !isInit {
						if g, ok := rootGlobal(u.X); ok {
							assigned[g] = true
						}
					}
				}
			}
		}
	}
	var ps []*ssa.Package
	for p := range w.inMod {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Pkg.Path() < ps[j].Pkg.Path() })
	for _, p := range ps {
		fn := p.Func("init")
		if fn == nil {
			continue
		}
		x := newExec(w, nil)
		x.quiet = 1
		st := newState()
		fr := x.newFrame(fn, nil, nil)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				w.initInstr(x, fr, st, in)
			}
		}
		w.globSt = append(w.globSt, st)
	}
	for g := range assigned {
		w.globs[g] = &globVal{}
	}
}

func rootGlobal(a ssa.Value) (*ssa.Global, bool) {
	for {
		switch v := a.(type) {
		case *ssa.Global:
			return v, true
		case *ssa.FieldAddr:
			a = v.X
		case *ssa.IndexAddr:
			a = v.X
		default:
			return nil, false
		}
	}
}

func (w *World) initInstr(x *Exec, fr *Frame, st *State, in ssa.Instruction) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); !ok {
				if debug {
					println("init:", in.String())
				}
			}
		}
	}()
	switch in := in.(type) {
	case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi:
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		fr.env[in] = &MapLit{kt: mt.Key(), vt: mt.Elem()}
	case *ssa.MapUpdate:
		ml, ok := x.val(fr, st, in.Map).(*MapLit)
		if ok {
			ml.keys = append(ml.keys, x.term(fr, st, in.Key))
			v := x.val(fr, st, in.Value)
			if _, isF := v.(*FuncV); !isF {
				if sv, isS := v.(*StructV); isS {
					v = sv
				}
			}
			ml.vals = append(ml.vals, v)
		}
	case *ssa.Store:
		if g, ok := in.Addr.(*ssa.Global); ok {
			w.globs[g] = &globVal{v: x.val(fr, st, in.Val), init: true}
			return
		}
		if g, ok := rootGlobal(in.Addr); ok {
			// an array table
			gv := w.globs[g]
			if gv == nil {
				gv = &globVal{init: true, v: x.zero(st, g.Type().Underlying().(*types.Pointer).Elem())}
				w.globs[g] = gv
			}
			if ia, ok := in.Addr.(*ssa.IndexAddr); ok && ia.X == ssa.Value(g) {
				if av, ok := gv.v.(*ArrayV); ok {
					i := x.term(fr, st, ia.Index)
					av.e[i.iv.Int64()] = x.val(fr, st, in.Val)
				}
			}
			return
		}
		x.storeInstr(fr, st, in)
	case *ssa.Call:
		if g := in.Common().StaticCallee(); g != nil && g.Name() == "init" {
			return
		}
		v, ok := x.callSync(fr, st, in, in.Common())
		if ok {
			fr.env[in] = v
		}
	default:
		v := x.eval(fr, st, in)
		if val, ok := in.(ssa.Value); ok {
			fr.env[val] = v
		}
	}
}

func (x *Exec) global(st *State, g *ssa.Global) V {
	gv := x.w.globs[g]
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if gv == nil || !gv.init || gv.v == nil {
		if g.Pkg != nil && !x.w.inMod[g.Pkg] && types.Identical(t, types.Universe.Lookup("error").Type()) {
			return mkCtor("I_err")
		}
		if gv != nil && !gv.init {
			return x.fresh(st, t, "global."+g.Name(), false)
		}
		return x.lift(mkVar("global."+g.Pkg.Pkg.Name()+"."+g.Name(), x.w.sortOf(t)), t)
	}
	return gv.v
}
