package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnReport struct {
	key      string
	obls     []*Obl
	err      string
	rounds   int
	loops    int
	inlined  []string
	secs     float64
	invs     []string
	loopKeys []string
	trusted  bool
	hint     *hintFile
}

// verifyFn generates and discharges the obligations of fn against its contract.
// usedFns: the functions and lemmas known by their contracts to the functions verified so far.
var usedFns []*ssa.Function
var usedSet = map[*ssa.Function]bool{}

func noteUse(g *ssa.Function) {
	g = origin(g)
	if !usedSet[g] {
		usedSet[g] = true
		usedFns = append(usedFns, g)
	}
}

// caseOf reads "fn{OpA,OpB}": a function of which only some cases are to be verified.
func (w *World) caseOf(key string) (string, map[int64]bool, string) {
	k, list, ok := strings.Cut(key, "{")
	if !ok {
		return key, nil, ""
	}
	only := map[int64]bool{}
	for _, n := range strings.Split(strings.TrimSuffix(list, "}"), ",") {
		hit := false
		for p := range w.inMod {
			if c, ok := p.Pkg.Scope().Lookup(n).(*types.Const); ok {
				if i, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
					only[i] = true
					hit = true
				}
			}
		}
		if !hit {
			return k, nil, "no constant " + n
		}
	}
	return k, only, ""
}

func (w *World) verifyFn(key string) (rep *FnReport) {
	rep = &FnReport{key: key}
	k, only, bad := w.caseOf(key)
	if bad != "" {
		rep.err = bad
		return
	}
	full := key
	key = k
	if only != nil {
		saved := onlyCase
		onlyCase = only
		defer func() { onlyCase = saved }()
	}
	t0 := time.Now()
	defer func() { rep.secs = time.Since(t0).Seconds() }()
	fn := w.fnByKey(key)
	if fn == nil {
		rep.err = "function " + key + " is no longer in the source"
		return
	}
	cfn := w.contractOf(fn)
	if cfn == nil && !w.isSpecFn(fn) {
		rep.err = "no contract for " + key
		return
	}
	if _, ok := w.dir(fn, "trusted"); ok {
		rep.trusted = true
		return
	}
	var best *FnReport
	if h := readHint(full); h != nil {
		r := w.verifyMode(fn, cfn, h.Mode, h.Eff, h)
		if r.bad() == 0 {
			r.key = full
			return r
		}
		if r.err == "" && len(r.loopKeys) == 0 {
			best = r
		}
	}
attempts:
	for _, eff := range []int{effQuick, effFull} {
		for mode := 0; mode < 2; mode++ {
			if best != nil && best.bad() == 0 || best != nil && time.Now().After(deadline) {
				break attempts
			}
			r := w.verifyMode(fn, cfn, mode, eff, nil)
			if writeHints && r.bad() == 0 && r.hint != nil {
				r.hint.write(full)
			}
			if best == nil || r.bad() < best.bad() {
				best = r
			}
			if best.bad() == 0 {
				break attempts
			}
			if r.err == "" && len(r.loopKeys) == 0 || time.Now().After(deadline) {
				break attempts
			}
		}
	}
	best.key = full
	return best
}

func (r *FnReport) bad() int {
	n := 0
	if r.err != "" {
		n += 1000
	}
	for _, o := range r.obls {
		if o.res == nil || (o.res.status != "unsat") != (o.kind == "reach") {
			n++
		}
	}
	return n
}

// A hint is what an earlier run of the verifier found not to hold on the committed source: loop invariants it
// guessed that are not invariants, lists that are not owned. Starting from it saves rounds; nothing is assumed
// from it. When the proof fails with the hint it is done again without.
type hintFile struct {
	Mode, Eff                int
	Dropped, Unowned, NoTree []string
}

var hintDir string
var writeHints bool

func hintName(key string) string {
	return filepath.Join(hintDir, strings.NewReplacer("{", "_", "}", "", ",", "_", "/", "_").Replace(key)+".json")
}

func readHint(key string) *hintFile {
	if hintDir == "" || writeHints {
		return nil
	}
	b, err := os.ReadFile(hintName(key))
	if err != nil {
		bare, _, ok := strings.Cut(key, "{")
		if !ok {
			return nil
		}
		if b, err = os.ReadFile(hintName(bare)); err != nil {
			return nil
		}
	}
	h := &hintFile{}
	if json.Unmarshal(b, h) != nil {
		return nil
	}
	return h
}

func (h *hintFile) write(key string) {
	b, _ := json.MarshalIndent(h, "", " ")
	os.MkdirAll(hintDir, 0755)
	os.WriteFile(hintName(key), append(b, '\n'), 0644)
}

func (w *World) verifyMode(fn, cfn *ssa.Function, mode int, eff int, hint *hintFile) *FnReport {
	rep := &FnReport{key: fnKey(fn)}
	x0 := newExec(w, fn)
	x0.mode = mode
	if hint != nil {
		for _, d := range hint.Dropped {
			x0.dropped[d] = true
		}
		for _, d := range hint.Unowned {
			x0.unowned[d] = true
		}
		for _, d := range hint.NoTree {
			if g := w.fnByKey(d); g != nil {
				x0.noTree[g] = true
			}
		}
	}
	if fn.Pkg != nil && w.isSpecFn(fn) {
		return w.verifySpec(fn)
	}
	for round := 0; ; round++ {
		rep.rounds++
		x := newExec(w, fn)
		x.mode = mode
		x.dropped = x0.dropped
		x.unowned = x0.unowned
		x.noTree = x0.noTree
		err := x.generate(fn, cfn)
		rep.err = err
		rep.obls = x.obls
		if os.Getenv("GOVER_STAT") != "" {
			cnt := map[string]int{}
			for _, o := range x.obls {
				if d := os.Getenv("GOVER_PC"); d != "" && strings.Contains(o.desc, d) && !o.trivial {
					for i, c := range o.pc {
						fmt.Println("PC", i, c)
					}
					fmt.Println("GOAL", o.goal)
				}
				cnt[fmt.Sprintf("%s %s %s trivial=%v pc=%d path=%v", o.kind, o.cand, o.desc, o.trivial, len(o.pc), o.path)]++
			}
			for _, k := range sortedKeysI(cnt) {
				fmt.Println(cnt[k], k)
			}
		}
		rep.loops = len(x.loopsMet)
		rep.loopKeys = sortedKeys(x.loopsMet)
		rep.inlined = sortedKeys(x.inlined)
		if err == "restart" {
			if round > 60 {
				rep.err = "ownership does not settle"
				return rep
			}
			continue
		}
		if err != "" {
			return rep
		}
		// drop candidates that do not hold
		var cs []*Obl
		for _, o := range x.obls {
			if o.cand != "" {
				cs = append(cs, o)
			}
		}
		nd := 0
		var fatal []*Obl
		if len(cs) > 0 {
			// entry obligations first: they do not depend on other candidates
			drop := func(o *Obl) {
				if o.res.status != "unsat" && x.essential(o.cand) {
					fatal = append(fatal, o)
					nd++
					return
				}
				if o.res.status != "unsat" && !x.dropped[o.cand] {
					x.dropped[o.cand] = true
					nd++
					if debug {
						fmt.Println("drop", o.cand, o.kind, o.res.status, o.res.secs)
						if d := os.Getenv("GOVER_DUMPC"); d != "" {
							os.MkdirAll(d, 0755)
							os.WriteFile(d+"/"+strings.NewReplacer("|", "_", "/", "_").Replace(o.cand)+fmt.Sprintf("-%d.smt2", round), []byte(cfgs[0].pre+o.res.script+"(check-sat)\n"), 0644)
						}
					}
				}
			}
			var en, kp []*Obl
			for _, o := range cs {
				if o.kind == "inv-entry" {
					en = append(en, o)
				} else {
					kp = append(kp, o)
				}
			}
			candEff := eff
			if eff == effFull {
				candEff = effMid
				if round == 0 {
					candEff = effShort
				}
			}
			prove(en, candEff, 0)
			for _, o := range en {
				drop(o)
			}
			if nd == 0 {
				prove(kp, min(eff, effShort), 0)
				var left []*Obl
				for _, o := range kp {
					if o.res.status != "unsat" {
						if strings.Contains(o.cand, "|c") {
							left = append(left, o)
						} else {
							drop(o)
						}
					}
				}
				if nd == 0 {
					if eff == effFull {
						prove(left, effMid, 0)
						var es []*Obl
						for _, o := range left {
							if o.res.status != "unsat" && x.essential(o.cand) {
								es = append(es, o)
							}
						}
						prove(es, effFull, 0)
					}
					for _, o := range left {
						drop(o)
					}
				}
			}
		}
		if len(fatal) > 0 {
			// without the invariant of the outer loop nothing else can be expected to hold
			if len(fatal) > 20 {
				fatal = fatal[:20]
			}
			prove(fatal, effFull, 4)
			rep.obls = fatal
			rep.err = "the invariant of the outer loop is not settled"
			for _, o := range fatal {
				if o.res.status != "unsat" {
					rep.err = ""
				}
			}
			return rep
		}
		if nd == 0 {
			// termination: each loop keeps at least one measure
			if !w.isPartial(fn) {
				for k, pos := range x.loopsMet {
					ok := false
					for id := range x.seen {
						if strings.HasPrefix(id, k+"|") && !x.dropped[id] && x.isDecr[id] {
							ok = true
						}
					}
					if !ok {
						o := &Obl{fn: x.name, kind: "decreases", desc: "the loop terminates", pos: pos, goal: tFalse, res: &Result{status: "unknown", solver: "none"}}
						x.obls = append(x.obls, o)
					}
				}
			}
			for id := range x.seen {
				if !x.dropped[id] {
					rep.invs = append(rep.invs, id)
				}
			}
			sort.Strings(rep.invs)
			if o := x.returnsReached(fn); o != nil {
				x.obls = append(x.obls, o)
			}
			rep.obls = x.obls
			prove(rep.obls, effFull, 4)
			if len(rep.loopKeys) > 0 {
				h := &hintFile{Mode: mode, Eff: eff}
				for d := range x0.dropped {
					h.Dropped = append(h.Dropped, d)
				}
				for d := range x0.unowned {
					h.Unowned = append(h.Unowned, d)
				}
				for g := range x0.noTree {
					if w.fnByKey(fnKey(g)) == g {
						h.NoTree = append(h.NoTree, fnKey(g))
					}
				}
				sort.Strings(h.Dropped)
				sort.Strings(h.Unowned)
				sort.Strings(h.NoTree)
				rep.hint = h
			}
			return rep
		}
	}
}

// generate runs the function symbolically and collects its obligations.
func (x *Exec) generate(fn, cfn *ssa.Function) (err string) {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case unsupported:
				err = "outside the verifier's reach: " + e.msg
			case restart:
				err = "restart"
			default:
				if debug {
					panic(e)
				}
				err = fmt.Sprintf("internal error: %v", e)
			}
		}
	}()
	st := newState()
	var params []V
	for _, p := range fn.Params {
		params = append(params, x.fresh(st, p.Type(), p.Name(), false))
	}
	mk := x.w.marks(cfn)
	_, x.reveal = x.w.dir(cfn, "reveal")
	// parameters handed over by the caller are owned
	ci := 0
	for i, p := range fn.Params {
		if mk.consumes[ci] {
			params[i] = x.fresh(st, p.Type(), p.Name(), true)
		}
		ci++
		if x.isTwoState(p.Type()) {
			ci++
		}
	}
	x.entry = newState()
	pre := make([]V, len(params))
	for i, p := range params {
		n0 := x.ncell
		pre[i] = x.snapshot(st, st, p)
		for c := n0 + 1; c <= x.ncell; c++ {
			x.snap[c] = true
		}
	}
	x.entry = st.fork()
	dummy := x.freshResults(st, fn, "ret")
	con := x.evalCon(st, cfn, x.conArgs(cfn, fn, pre, params, dummy), x.entry, false)
	for _, r := range con.req {
		st.assume(r.t)
	}
	x.curDecr = con.decr
	// loop clauses, evaluated with the entry values
	cargs := x.conArgs(cfn, fn, pre, params, dummy)
	x.collectClauses(st, cfn, cargs)
	n := len(x.obls)
	// vacuity: the precondition must be satisfiable
	x.obls = append(x.obls[:n], &Obl{fn: x.name, kind: "reach", desc: "the precondition is satisfiable", pos: x.pos(fn.Pos()), pc: append([]*Term{}, st.pc...), goal: tFalse})
	nret := 0
	st.trace = nil
	for _, st := range x.splitCases(st, mk, cargs) {
		x.runFn(nil, st, fn, nil, params, nil, func(s *State, v V) {
			nret++
			var res []V
			switch rv := v.(type) {
			case TupleV:
				res = rv
			default:
				res = []V{v}
			}
			// results declared fresh must be owned by this call
			base := len(cfn.Params) - fn.Signature.Results().Len()
			for i, r := range res {
				if mk.fresh[base+i] {
					sl, ok := r.(*SliceV)
					g := tFalse
					if ok {
						if x.isOwned(s, sl) {
							g = tTrue
						} else {
							g = mkEq(x.sliceLen(s, sl), mkInt(0))
						}
					}
					if x.w.isTreePtr(fn.Signature.Results().At(i).Type()) {
						g = mkBoolC(x.ownNode(s, r))
					}
					x.obligT(s, "frame", "the result is a list or node made by this call", x.pos(fn.Pos()), g, "")
				}
			}
			x.runLater(s, true)
			if len(x.retPcs) < 60 {
				x.retPcs = append(x.retPcs, append([]*Term{}, s.pc...))
			}
			c := x.evalCon(s, cfn, x.conArgs(cfn, fn, pre, params, res), x.entry, true)
			for i, e := range c.ens {
				x.obligT(s, "post", fmt.Sprintf("postcondition %d", i+1), e.pos, e.t, "")
			}
			x.checkLoopsDone(s)
		})
	}
	if nret == 0 {
		x.obls = append(x.obls, &Obl{fn: x.name, kind: "reach", desc: "the function returns", pos: x.pos(fn.Pos()), goal: tFalse})
	}
	return ""
}

// splitCases makes one state per combination of dynamic types of the parameters marked split.
func (x *Exec) splitCases(st *State, mk *conMark, cargs []V) []*State {
	states := []*State{st}
	for _, ix := range mk.split {
		if ix < 0 || ix >= len(cargs) {
			fail("split of something that is not a parameter")
		}
		t := x.reify(st, cargs[ix])
		if t.sort != SI {
			fail("split of a %s", t.sort)
		}
		var next []*State
		for _, s := range states {
		ctors:
			for _, c := range datatypes[SI].ctors {
				n := s.fork()
				is := n.simp(mkIs(c.name, t))
				if is == tFalse {
					continue
				}
				n.assume(is)
				for _, p := range n.pc {
					if (p.op == "or" || p.op == "and" || p.op == "not") && n.simp(p) == tFalse {
						continue ctors
					}
				}
				n.trace = append(n.trace, is.String())
				next = append(next, n)
			}
		}
		states = next
	}
	return states
}

// returnsReached guards against vacuity: some return must not be refuted. It gives the obligation
// "reach", which fails when it is proved.
func (x *Exec) returnsReached(fn *ssa.Function) *Obl {
	if len(x.retPcs) == 0 {
		return nil
	}
	o := &Obl{fn: x.name, kind: "reach", desc: "some return can be reached", pos: x.pos(fn.Pos()), goal: tFalse, pc: x.retPcs[0]}
	o.res = &Result{status: "unsat", solver: cfgs[0].name, full: true}
	for _, pc := range x.retPcs {
		s := buildScript(pc, tFalse)
		st, _ := runSolver(cfgs[0], s, 1500*time.Millisecond)
		if st == "unsat" {
			o.res.script = s
			continue
		}
		o.pc = pc
		o.res.script = s
		o.res.status = st
		break
	}
	return o
}

func (x *Exec) checkLoopsDone(s *State) {}

func (x *Exec) collectClauses(st *State, cfn *ssa.Function, args []V) {
	s := st.fork()
	fr := x.newFrame(cfn, nil, nil)
	fr.spec = true
	for i, p := range cfn.Params {
		fr.env[p] = args[i]
	}
	old := x.con
	x.con = &conInst{pre: x.entry, nbr: len(s.br)}
	n := len(x.obls)
	x.quiet++
	b := cfn.Blocks[0]
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Call:
			g := in.Common().StaticCallee()
			if g != nil && isIntrinsic(x.w, g) && (origin(g).Name() == "loop" || origin(g).Name() == "outer") {
				v := x.val(fr, s, in.Common().Args[0])
				if iv, ok := v.(*IfaceV); ok {
					v = iv.v
				}
				if f, ok := v.(*FuncV); ok {
					x.clauses = append(x.clauses, f)
					x.outerCl = append(x.outerCl, origin(g).Name() == "outer")
				}
				continue
			}
			v, ok := x.callSync(fr, s, in, in.Common())
			if ok {
				fr.env[in] = v
			}
		case *ssa.MakeInterface:
			v := x.val(fr, s, in.X)
			if f, ok := v.(*FuncV); ok {
				fr.env[in] = f
				continue
			}
			fr.env[in] = x.eval(fr, s, in)
		case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
		default:
			v := x.eval(fr, s, in)
			if val, ok := in.(ssa.Value); ok {
				fr.env[val] = v
			}
		}
	}
	// clauses further on
	for _, b := range cfn.Blocks[1:] {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MakeClosure:
				fr.env[in] = x.eval(fr, s, in)
			case *ssa.Call:
				g := in.Common().StaticCallee()
				if g != nil && isIntrinsic(x.w, g) && (origin(g).Name() == "loop" || origin(g).Name() == "outer") {
					if f, ok := x.val(fr, s, in.Common().Args[0]).(*FuncV); ok {
						x.clauses = append(x.clauses, f)
						x.outerCl = append(x.outerCl, origin(g).Name() == "outer")
					}
				}
			}
		}
	}
	x.quiet--
	x.obls = x.obls[:n]
	x.con = old
	// cells made for the clauses stay available, and do not change
	for c, v := range s.mem {
		if _, ok := st.mem[c]; !ok {
			st.mem[c] = v
			x.snap[c] = true
		}
	}
}

// verifySpec checks that the recursive calls of a spec function decrease its measure.
func (w *World) verifySpec(fn *ssa.Function) *FnReport {
	rep := &FnReport{key: fnKey(fn)}
	x := newExec(w, fn)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(unsupported); ok {
					rep.err = "outside the verifier's reach: " + u.msg
					return
				}
				panic(e)
			}
		}()
		st := newState()
		var args []V
		for _, p := range fn.Params {
			t := mkFresh(p.Name(), w.sortOf(p.Type()))
			x.typeAssume(st, t, p.Type())
			args = append(args, x.lift(t, p.Type()))
		}
		x.decr = x.measure(fn, args, st)
		x.specRoot = fn
		x.con = &conInst{pre: st}
		x.pureFn(nil, st, fn, nil, args)
	}()
	rep.obls = x.obls
	prove(rep.obls, effFull, 0)
	return rep
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	spec := flag.String("spec", "/verif/spec", "specification overlay")
	fns := flag.String("fn", "", "functions to verify, comma separated")
	verbose := flag.Bool("v", false, "verbose")
	dump := flag.String("dump", "", "write the scripts of failed obligations to this directory")
	prop := flag.String("prop", "", "check this property")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "the /verif directory")
	only := flag.Int64("case", -1, "only this case of a case split (for debugging)")
	flag.StringVar(&hintDir, "hintdir", "", "directory of hints")
	flag.BoolVar(&writeHints, "hints", false, "write hints")
	flag.Parse()
	if hintDir == "" {
		hintDir = filepath.Join(*verif, "hints")
	}
	if *only >= 0 {
		onlyCase = map[int64]bool{*only: true}
	}
	if *prop != "" {
		seed := 1
		fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
		os.Exit(check(*verif, *repo, *prop, *tier, seed))
	}
	initTheory()
	w, err := loadWorld(*repo, *spec)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, d := range w.dropped {
		fmt.Println("DROPPED", d)
	}
	var keys []string
	if *fns == "" || *fns == "all" {
		for k := range w.specFns {
			keys = append(keys, k)
		}
		sort.Strings(keys)
	} else {
		keys = strings.FieldsFunc(*fns, func(r rune) bool { return r == 32 })
	}
	bad := 0
	for _, k := range keys {
		r := w.verifyFn(k)
		nf := 0
		for _, o := range r.obls {
			if o.res == nil || (o.res.status != "unsat") != (o.kind == "reach") {
				nf++
			}
		}
		fmt.Printf("%-40s %4d obligations %3d failed  rounds %d  %.1fs %s\n", k, len(r.obls), nf, r.rounds, r.secs, r.err)
		if *verbose {
			for _, i := range r.invs {
				fmt.Println("     inv", i)
			}
		}
		if r.err != "" {
			bad++
		}
		if d := os.Getenv("GOVER_DUMPKIND"); d != "" {
			os.MkdirAll(*dump, 0755)
			for i, o := range r.obls {
				if o.kind == d && o.res != nil {
					os.WriteFile(fmt.Sprintf("%s/%s.%d.smt2", *dump, k, i), []byte("; "+o.desc+" "+o.res.status+" "+o.res.solver+"\n; "+strings.Join(o.path, "\n; ")+"\n"+cfgs[0].pre+o.res.script+"(check-sat)\n"), 0644)
				}
			}
		}
		for i, o := range r.obls {
			st := "none"
			if o.res != nil {
				st = o.res.status
			}
			if (st != "unsat") != (o.kind == "reach") {
				bad++
				fmt.Printf("   FAIL %-10s %s (%s) %s %.1fs\n", o.kind, o.desc, o.pos, st, resSecs(o))
				if *verbose {
					for _, t := range o.path {
						fmt.Println("        ", t)
					}
					fmt.Println("      goal:", o.goal)
				}
				if *dump != "" {
					os.MkdirAll(*dump, 0755)
					os.WriteFile(fmt.Sprintf("%s/%s.%d.smt2", *dump, k, i), []byte("; "+o.desc+"\n"+cfgs[0].pre+o.res.script+"(check-sat)\n"), 0644)
				}
			}
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func resSecs(o *Obl) float64 {
	if o.res == nil {
		return 0
	}
	return o.res.secs
}

func sortedKeysI(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// essential says that a candidate comes from a clause about the outer loop.
func (x *Exec) essential(id string) bool {
	i := strings.LastIndex(id, "|c")
	if i < 0 || strings.Contains(id[:i], "/") {
		return false
	}
	n := 0
	if _, err := fmt.Sscanf(id[i+2:], "%d.", &n); err != nil {
		return false
	}
	return n < len(x.outerCl) && x.outerCl[n]
}

// ownNode says whether r is a tree node made by this call that nothing else refers to (or nil).
func (x *Exec) ownNode(s *State, r V) bool {
	switch r := r.(type) {
	case *PtrV:
		return r.cell == 0 || len(r.path) == 0 && !s.shared[r.cell]
	case *TreeRef:
		if r.ref != nil {
			c, ok := s.mem[r.ref.cell].(*SeqCell)
			return ok && !c.consumed && !c.frozen
		}
	}
	return false
}
