package main

// World: loaded packages, type-to-sort mapping, the universe of dynamic types.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/forsyth/jsonpath"

type World struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package // by path
	ppkgs    map[string]*packages.Package
	inMod    map[*ssa.Package]bool
	universe []*dynType
	treeT    map[string]bool // type key of tree (value-like) struct types handled by pointer
	repo     string
	dropped  []string // contract files dropped because they no longer type-check

	specFns   map[string]*ssa.Function // contract functions: key "pkg.Recv.Name"
	recursive map[*ssa.Function]bool
	mods      map[*ssa.Function]*modSet
	dirs      map[*ssa.Function]map[string]string
	treeOK    map[*ssa.Function]bool
	names     map[*ssa.Function]map[ssa.Value][]string
	conMarks  map[*ssa.Function]*conMark
	succs     map[*ssa.Function][]*ssa.Function
	reach     map[*ssa.Function]map[*ssa.Function]bool
	globs     map[*ssa.Global]*globVal
	globSt    []*State
	allFns    map[*ssa.Function]bool
}

type dynType struct {
	t       types.Type
	ctor    string
	payload Sort // "" for none
	isErr   bool
}

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// loadWorld loads /repo with the overlay files of /verif/spec.
func loadWorld(repo, specDir string) (*World, error) {
	overlay := map[string][]byte{}
	var files []string
	filepath.Walk(specDir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	name := func(p string) string {
		rel, _ := filepath.Rel(specDir, p)
		dir, base := filepath.Split(rel)
		if dir == "root/" {
			dir = ""
		}
		return filepath.Join(repo, dir, "zz_verif_"+base)
	}
	if pre, err := os.ReadFile(filepath.Join(specDir, "prelude.txt")); err == nil {
		for _, d := range []struct{ dir, pkg string }{{"", "jsonpath"}, {"mach", "mach"}, {"paths", "paths"}, {"cmd/jpath", "main"}} {
			overlay[filepath.Join(repo, d.dir, "zz_verif_prelude.go")] = []byte(strings.Replace(string(pre), "package PKG", "package "+d.pkg, 1))
		}
	}
	for _, p := range files {
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		overlay[name(p)] = b
	}
	w := &World{pkgs: map[string]*ssa.Package{}, ppkgs: map[string]*packages.Package{}, inMod: map[*ssa.Package]bool{}, treeT: map[string]bool{}, repo: repo,
		specFns: map[string]*ssa.Function{}, mods: map[*ssa.Function]*modSet{}, dirs: map[*ssa.Function]map[string]string{},
		treeOK: map[*ssa.Function]bool{}, names: map[*ssa.Function]map[ssa.Value][]string{}, conMarks: map[*ssa.Function]*conMark{}}
	var pk []*packages.Package
	for try := 0; ; try++ {
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay}
		var err error
		pk, err = packages.Load(cfg, "./...")
		if err != nil {
			return nil, err
		}
		// drop overlay declarations that do not type-check against the current source
		changed := false
		var repoErrs []string
		for _, p := range pk {
			for _, e := range p.Errors {
				file := strings.SplitN(e.Pos, ":", 2)[0]
				if _, ok := overlay[file]; ok && try < 6 {
					nb, what := dropDecl(overlay[file], e.Pos)
					if nb != nil {
						overlay[file] = nb
						w.dropped = append(w.dropped, what+": "+e.Msg)
						changed = true
						break
					}
				}
				repoErrs = append(repoErrs, e.Error())
			}
		}
		if !changed {
			if len(repoErrs) > 0 {
				return nil, fmt.Errorf("load errors: %s; dropped: %s", strings.Join(repoErrs, "; "), strings.Join(w.dropped, "; "))
			}
			break
		}
	}
	prog, ps := ssautil.AllPackages(pk, ssa.InstantiateGenerics|ssa.GlobalDebug)
	w.prog = prog
	prog.Build()
	for i, p := range ps {
		if p == nil {
			continue
		}
		w.pkgs[p.Pkg.Path()] = p
		w.ppkgs[p.Pkg.Path()] = pk[i]
		w.inMod[p] = true
	}
	w.collectDirs()
	w.buildUniverse()
	w.collectContracts()
	w.findRecursive()
	w.initGlobals()
	return w, nil
}

// dropDecl blanks the top-level declaration of src at pos.
func dropDecl(src []byte, pos string) ([]byte, string) {
	parts := strings.Split(pos, ":")
	if len(parts) < 2 {
		return nil, ""
	}
	var ln int
	fmt.Sscan(parts[1], &ln)
	lines := strings.Split(string(src), "\n")
	// a top-level func starts at column 0 with "func " and ends at a line "}"
	start := ln - 1
	if start >= len(lines) {
		return nil, ""
	}
	for start >= 0 && !strings.HasPrefix(lines[start], "func ") {
		start--
	}
	if start < 0 {
		return nil, ""
	}
	end := start
	for end < len(lines) && lines[end] != "}" {
		end++
	}
	what := lines[start]
	for i := start; i <= end && i < len(lines); i++ {
		lines[i] = ""
	}
	return []byte(strings.Join(lines, "\n")), what
}

func (w *World) collectDirs() {
	for _, p := range w.ppkgs {
		sp := w.pkgs[p.PkgPath]
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if s, ok := strings.CutPrefix(c.Text, "//gover:"); ok {
						obj, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
						fn := w.prog.FuncValue(obj)
						if fn == nil {
							continue
						}
						k, v, _ := strings.Cut(s, " ")
						if w.dirs[fn] == nil {
							w.dirs[fn] = map[string]string{}
						}
						w.dirs[fn][k] = strings.TrimSpace(v)
						_ = sp
					}
				}
			}
		}
	}
}

func (w *World) dir(fn *ssa.Function, k string) (string, bool) {
	v, ok := w.dirs[fn][k]
	return v, ok
}

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	switch t := t.(type) {
	case *types.Named:
		o := t.Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		return o.Pkg().Name() + "_" + o.Name()
	case *types.Pointer:
		return "p_" + typeKey(t.Elem())
	case *types.Basic:
		return t.Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func isTypeNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

// buildUniverse lists the concrete types an interface value may hold.
func (w *World) buildUniverse() {
	add := func(t types.Type, ctor string, payload Sort) {
		w.universe = append(w.universe, &dynType{t: t, ctor: ctor, payload: payload})
	}
	// tree types: struct types of package paths used by pointer as path or expression values
	pathsPkg := w.pkgs[modPath+"/paths"]
	var named []*types.Named
	for _, pp := range []string{modPath + "/paths", modPath + "/mach"} {
		p := w.pkgs[pp]
		if p == nil {
			continue
		}
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					named = append(named, nt)
				}
			}
		}
	}
	var valI *types.Interface
	if pathsPkg != nil {
		if o := pathsPkg.Pkg.Scope().Lookup("Val"); o != nil {
			valI, _ = o.Type().Underlying().(*types.Interface)
		}
	}
	for _, n := range named {
		if _, ok := n.Underlying().(*types.Struct); ok && n.Obj().Pkg().Name() == "paths" && n.Obj().Exported() {
			// exported structs of paths are syntax trees; Loc is a plain value
			w.treeT[typeKey(n)] = true
		}
	}
	add(types.Typ[types.Bool], "I_bool", SBool)
	add(types.Typ[types.Int], "I_int", SInt)
	add(types.Typ[types.Int64], "I_int64", SInt)
	add(types.Typ[types.Float64], "I_float64", SF64)
	add(types.Typ[types.String], "I_string", SStr)
	iface := types.NewInterfaceType(nil, nil)
	arr := types.NewSlice(iface)
	obj := types.NewMap(types.Typ[types.String], iface)
	dt := &Datatype{name: SI}
	declDatatype(dt)
	add(arr, "I_arr", seqSort(SI))
	add(obj, "I_obj", mapSort(SStr, SI))
	for _, p := range w.prog.AllPackages() {
		if p.Pkg.Path() == "encoding/json" {
			add(p.Pkg.Scope().Lookup("Number").Type(), "I_number", SStr)
		}
		if p.Pkg.Path() == "regexp" {
			add(types.NewPointer(p.Pkg.Scope().Lookup("Regexp").Type()), "I_regexp", "Regexp")
		}
	}
	if valI != nil {
		for _, n := range named {
			if _, ok := n.Underlying().(*types.Interface); ok {
				continue
			}
			switch n.Obj().Name() {
			case "Op", "token", "lexeme", "Program", "Path":
				continue
			}
			if types.Implements(n, valI) && !w.treeT[typeKey(n)] {
				add(n, "I_"+typeKey(n), "?")
			} else if types.Implements(types.NewPointer(n), valI) && w.treeT[typeKey(n)] {
				add(types.NewPointer(n), "I_p_"+typeKey(n), "?")
			}
		}
	}
	for _, d := range w.universe {
		if d.payload == "?" {
			d.payload = w.sortOf(d.t)
		}
	}
	dt.ctors = append(dt.ctors, &Ctor{name: "I_nil"}, &Ctor{name: "I_err"}, &Ctor{name: "I_other", sels: []string{"other.v"}, srts: []Sort{"Other"}})
	for _, d := range w.universe {
		pl := d.payload
		if b, sg, ok := intInfo(d.t); ok {
			pl = machSort(b, sg)
		}
		dt.ctors = append(dt.ctors, &Ctor{name: d.ctor, sels: []string{d.ctor + ".v"}, srts: []Sort{pl}})
	}
	declDatatype(dt)
	// rank
	x := mkBVar(SI)
	// rank: a measure decreasing from a value to its components (all values are finite trees)
	declFun("rank", SInt, SI)
	rank := func(t *Term) *Term { return mkApp("rank", SInt, t) }
	le := func(a, b *Term) *Term { return mkApp("<=", SBool, a, b) }
	lt := func(a, b *Term) *Term { return mkApp("<", SBool, a, b) }
	axiom("rank>=0", []string{"rank"}, mkForall([]*Term{x}, [][]*Term{{rank(x)}}, le(mkInt(0), rank(x))))
	sI := seqSort(SI)
	q := mkBVar(sI)
	i := mkBVar(SInt)
	k := mkBVar(SStr)
	at := mkApp("at_"+sI, SI, mkApp("I_arr.v", sI, x), i)
	ln := mkApp("len_"+sI, SInt, mkApp("I_arr.v", sI, x))
	_ = q
	axiom("rank arr", []string{"rank"}, mkForall([]*Term{x, i}, [][]*Term{{rank(at), mkApp("I_arr.v", sI, x)}}, mkImp(mkAnd(mkIs("I_arr", x), le(mkInt(0), i), lt(i, ln)), lt(rank(at), rank(x)))))
	mS := mapSort(SStr, SI)
	get := mkApp("mget_"+mS, SI, mkApp("I_obj.v", mS, x), k)
	has := mkApp("mhas_"+mS, SBool, mkApp("I_obj.v", mS, x), k)
	axiom("rank obj", []string{"rank"}, mkForall([]*Term{x, k}, [][]*Term{{rank(get)}}, mkImp(mkAnd(mkIs("I_obj", x), has), lt(rank(get), rank(x)))))
	for _, c := range []string{"I_nil", "I_err", "I_bool", "I_int", "I_int64", "I_float64", "I_string"} {
		axiom("rank "+c, []string{"rank"}, mkForall([]*Term{x}, [][]*Term{{rank(x)}}, mkImp(mkIs(c, x), mkEq(rank(x), mkInt(0)))))
	}
	// fmt.Sprint of one operand
	declFun("sprint", SStr, SI)
	declFun("fmtInt", SStr, SInt)
	sp := mkApp("sprint", SStr, x)
	for _, c := range []string{"I_int64", "I_int", "I_paths_IntVal"} {
		if _, ok := ctorOf[c]; ok {
			axiom("sprint "+c, []string{"sprint"}, mkForall([]*Term{x}, [][]*Term{{sp}}, mkImp(mkIs(c, x), mkEq(sp, mkApp("fmtInt", SStr, mkSel(c+".v", x))))))
		}
	}
	for _, c := range []string{"I_string", "I_paths_NameVal"} {
		if _, ok := ctorOf[c]; ok {
			axiom("sprint "+c, []string{"sprint"}, mkForall([]*Term{x}, [][]*Term{{sp}}, mkImp(mkIs(c, x), mkEq(sp, mkApp(c+".v", SStr, x)))))
		}
	}
	if _, ok := ctorOf["I_p_paths_Inner"]; ok {
		kids := mkApp("S_paths_Inner.Kids", sI, mkApp("I_p_paths_Inner.v", "S_paths_Inner", x))
		kat := mkApp("at_"+sI, SI, kids, i)
		axiom("rank kid", []string{"rank"}, mkForall([]*Term{x, i}, [][]*Term{{rank(kat)}}, mkImp(mkAnd(mkIs("I_p_paths_Inner", x), le(mkInt(0), i), lt(i, mkApp("len_"+sI, SInt, kids))), lt(rank(kat), rank(x)))))
	}
}

func intInfo(t types.Type) (bits int, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	case types.UntypedInt:
		return 64, true, true
	}
	return 0, false, false
}

type unsupported struct{ msg string }

func fail(format string, a ...interface{}) { panic(unsupported{fmt.Sprintf(format, a...)}) }

// isTreePtr says whether t is a pointer to a syntax-tree struct, represented by value.
func (w *World) isTreePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	return w.treeT[typeKey(p.Elem())]
}

func isRegexpPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isTypeNamed(p.Elem(), "regexp", "Regexp")
}

// isMutPtr says whether t is a pointer to a mutable object (verified by handle).
func (w *World) isMutPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok && !w.isTreePtr(t) && !isRegexpPtr(t)
}

func (w *World) sortOf(t types.Type) Sort {
	s, err := w.sortOf1(t)
	if err != "" {
		fail("%s", err)
	}
	return s
}

func (w *World) sortOf1(t types.Type) (Sort, string) {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if st, ok := n.Underlying().(*types.Struct); ok {
			if isTypeNamed(t, "strings", "Builder") {
				return SStr, ""
			}
			return w.structSort(n, st)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool, ""
		case u.Info()&types.IsInteger != 0:
			return SInt, ""
		case u.Info()&types.IsString != 0:
			return SStr, ""
		case u.Kind() == types.Float64 || u.Kind() == types.UntypedFloat:
			return SF64, ""
		case u.Kind() == types.UntypedNil:
			return SI, ""
		}
	case *types.Interface:
		return SI, ""
	case *types.Slice:
		e, err := w.sortOf1(u.Elem())
		if err != "" {
			return "", err
		}
		return seqSort(e), ""
	case *types.Map:
		k, err := w.sortOf1(u.Key())
		if err != "" {
			return "", err
		}
		v, err := w.sortOf1(u.Elem())
		if err != "" {
			return "", err
		}
		return mapSort(k, v), ""
	case *types.Chan:
		return "Chan", ""
	case *types.Pointer:
		if isRegexpPtr(t) {
			return "Regexp", ""
		}
		if w.isTreePtr(t) {
			return w.sortOf1(u.Elem())
		}
	}
	return "", "no sort for type " + t.String()
}

var structBusy = map[string]bool{}

func (w *World) structSort(n *types.Named, st *types.Struct) (Sort, string) {
	name := "S_" + typeKey(n)
	if structBusy[name] {
		return name, ""
	}
	if _, ok := datatypes[name]; ok {
		return name, ""
	}
	structBusy[name] = true
	defer delete(structBusy, name)
	c := &Ctor{name: "mk_" + typeKey(n)}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		s, err := w.sortOf1(f.Type())
		if err != "" {
			return "", "field " + f.Name() + ": " + err
		}
		fn := f.Name()
		if fn == "_" {
			fn = fmt.Sprintf("_%d", i)
		}
		if b, sg, ok := intInfo(f.Type()); ok {
			s = machSort(b, sg)
		}
		c.sels = append(c.sels, name+"."+fn)
		c.srts = append(c.srts, s)
	}
	declDatatype(&Datatype{name: name, ctors: []*Ctor{c}})
	return name, ""
}

// dynOf returns the universe entry for a concrete type, or nil.
func (w *World) dynOf(t types.Type) *dynType {
	for _, d := range w.universe {
		if types.Identical(d.t, t) {
			return d
		}
	}
	return nil
}

// implementers lists the universe entries whose type implements iface.
func (w *World) implementers(it *types.Interface) []*dynType {
	var r []*dynType
	for _, d := range w.universe {
		if types.Implements(d.t, it) {
			r = append(r, d)
		}
	}
	return r
}

// ---- contracts

func fnKey(fn *ssa.Function) string {
	if fn.Pkg == nil {
		return fn.String()
	}
	n := fn.Name()
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nt, ok := types.Unalias(t).(*types.Named); ok {
			n = nt.Obj().Name() + "_" + n
		}
	}
	return fn.Pkg.Pkg.Name() + "." + n
}

func (w *World) collectContracts() {
	for p := range w.inMod {
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok {
				if n, ok := strings.CutPrefix(f.Name(), "contract_"); ok {
					w.specFns[p.Pkg.Name()+"."+n] = f
				}
			}
		}
	}
}

func (w *World) fnByKey(key string) *ssa.Function {
	pkg, name, _ := strings.Cut(key, ".")
	for p := range w.inMod {
		if p.Pkg.Name() != pkg {
			continue
		}
		if f := p.Func(name); f != nil {
			return f
		}
		// methods
		for _, m := range p.Members {
			tn, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			nt, ok := types.Unalias(tn.Type()).(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				f := w.prog.FuncValue(nt.Method(i))
				if f != nil && fnKey(f) == key {
					return f
				}
			}
		}
	}
	return nil
}

func (w *World) contractOf(fn *ssa.Function) *ssa.Function {
	if fn.Pkg == nil || fn.Parent() != nil {
		return nil
	}
	return w.specFns[fnKey(fn)]
}

func isSpecFile(w *World, fn *ssa.Function) bool {
	if fn.Pkg == nil || !w.inMod[fn.Pkg] {
		if o := fn.Origin(); o != nil && o != fn {
			return isSpecFile(w, o)
		}
		return false
	}
	pos := w.prog.Fset.Position(fn.Pos())
	return strings.HasPrefix(filepath.Base(pos.Filename), "zz_verif_")
}

// isSpecFn: a pure mathematical function of the specification.
func (w *World) isSpecFn(fn *ssa.Function) bool {
	return strings.HasPrefix(fn.Name(), "sp") && fn.Parent() == nil && isSpecFile(w, fn)
}
func (w *World) isLemma(fn *ssa.Function) bool {
	return strings.HasPrefix(fn.Name(), "lemma") && fn.Parent() == nil && isSpecFile(w, fn)
}

// findRecursive marks module functions that can reach themselves by static calls.
func (w *World) findRecursive() {
	w.recursive = map[*ssa.Function]bool{}
	succ := map[*ssa.Function][]*ssa.Function{}
	var fns []*ssa.Function
	w.allFns = ssautil.AllFunctions(w.prog)
	for f := range w.allFns {
		if f.Pkg == nil || !w.inMod[f.Pkg] {
			continue
		}
		fns = append(fns, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						succ[f] = append(succ[f], g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					succ[f] = append(succ[f], mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	w.succs = succ
	for _, f := range fns {
		seen := map[*ssa.Function]bool{}
		var stack []*ssa.Function
		stack = append(stack, succ[f]...)
		for len(stack) > 0 {
			g := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if g == f {
				w.recursive[f] = true
				break
			}
			if seen[g] {
				continue
			}
			seen[g] = true
			stack = append(stack, succ[g]...)
		}
	}
}

// ---- mod sets: which fields / element types / ghost state a function may write, transitively

type modSet struct {
	fields map[string]bool // typeKey.fieldIndex
	elems  map[string]bool // element type string, for stores through slices/arrays and appends
	chans  bool            // sends or closes
	recvs  bool            // receives, makes channels or starts goroutines
	bufs   bool            // strings.Builder contents
	vars   map[*ssa.Alloc]bool
	any    bool
}

func newModSet() *modSet {
	return &modSet{fields: map[string]bool{}, elems: map[string]bool{}, vars: map[*ssa.Alloc]bool{}}
}
func (m *modSet) add(o *modSet) {
	for k := range o.fields {
		m.fields[k] = true
	}
	for k := range o.elems {
		m.elems[k] = true
	}
	for k := range o.vars {
		m.vars[k] = true
	}
	m.chans = m.chans || o.chans
	m.recvs = m.recvs || o.recvs
	m.bufs = m.bufs || o.bufs
	m.any = m.any || o.any
}

func fieldKey(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return fmt.Sprintf("%s.%d", typeKey(t), i)
}

func elemKey(t types.Type) string { return types.TypeString(types.Unalias(t), nil) }

func (w *World) instrMods(m *modSet, in ssa.Instruction, visiting map[*ssa.Function]bool) {
	switch in := in.(type) {
	case *ssa.Store:
		w.addrMods(m, in.Addr)
	case *ssa.MapUpdate:
		m.elems["map:"+elemKey(in.Map.Type())] = true
		// the map value lives where it was loaded from
		if u, ok := in.Map.(*ssa.UnOp); ok {
			w.addrMods(m, u.X)
		}
	case *ssa.Send:
		m.chans = true
	case *ssa.UnOp:
		if in.Op.String() == "<-" {
			m.recvs = true
		}
	case *ssa.MakeChan:
		m.recvs = true
	case *ssa.Select:
		m.any = true
	case *ssa.Next:
		m.elems["iter"] = true
	case *ssa.Alloc:
		if isTypeNamed(in.Type().(*types.Pointer).Elem(), "strings", "Builder") {
			m.bufs = true
		}
	case ssa.CallInstruction:
		if _, ok := in.(*ssa.Go); ok {
			// what the goroutine does is its own business: it may only send on its channel
			m.recvs = true
			return
		}
		c := in.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy":
				m.elems[elemKey(c.Args[0].Type().Underlying().(*types.Slice).Elem())] = true
			case "close":
				m.chans = true
			}
			return
		}
		for _, g := range w.callees(c) {
			m.add(w.modsOf(g, visiting))
		}
		for _, a := range c.Args {
			if mc, ok := a.(*ssa.MakeClosure); ok {
				m.add(w.modsOf(mc.Fn.(*ssa.Function), visiting))
			}
			if f, ok := a.(*ssa.Function); ok {
				m.add(w.modsOf(f, visiting))
			}
		}
	case *ssa.MakeClosure:
		m.add(w.modsOf(in.Fn.(*ssa.Function), visiting))
	}
}

func (w *World) callees(c *ssa.CallCommon) []*ssa.Function {
	if g := c.StaticCallee(); g != nil {
		return []*ssa.Function{g}
	}
	if c.IsInvoke() {
		var r []*ssa.Function
		if it, ok := c.Value.Type().Underlying().(*types.Interface); ok {
			for _, d := range w.implementers(it) {
				if sel := w.prog.MethodSets.MethodSet(d.t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
					if f := w.prog.MethodValue(sel); f != nil {
						r = append(r, f)
					}
				}
			}
		}
		return r
	}
	return nil // function value: its closure is accounted for where it is made or passed
}

func (w *World) addrMods(m *modSet, a ssa.Value) {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		m.fields[fieldKey(a.X.Type(), a.Field)] = true
	case *ssa.IndexAddr:
		if al, ok := a.X.(*ssa.Alloc); ok {
			m.vars[al] = true
			return
		}
		t := a.X.Type().Underlying()
		switch t := t.(type) {
		case *types.Slice:
			m.elems[elemKey(t.Elem())] = true
		case *types.Pointer:
			m.elems[elemKey(t.Elem().Underlying().(*types.Array).Elem())] = true
		}
	case *ssa.Alloc:
		m.vars[a] = true
	case *ssa.FreeVar:
		m.any = true
	case *ssa.Global:
		m.any = true
	default:
		// a whole-object store through a pointer
		if p, ok := a.Type().Underlying().(*types.Pointer); ok {
			if st, ok := p.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					m.fields[fieldKey(p.Elem(), i)] = true
				}
				return
			}
		}
		m.any = true
	}
}

func (w *World) modsOf(f *ssa.Function, visiting map[*ssa.Function]bool) *modSet {
	if m, ok := w.mods[f]; ok {
		return m
	}
	m := newModSet()
	if f.Pkg == nil || !w.inMod[f.Pkg] {
		if f.Pkg != nil && f.Signature.Recv() != nil && strings.Contains(f.Signature.Recv().Type().String(), "strings.Builder") {
			m.bufs = true
		}
		if f.Synthetic == "" || f.Blocks == nil {
			return m
		}
		if f.Pkg != nil {
			return m
		}
	}
	if visiting[f] {
		return m
	}
	if visiting == nil {
		visiting = map[*ssa.Function]bool{}
	}
	visiting[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			w.instrMods(m, in, visiting)
		}
	}
	delete(visiting, f)
	if len(visiting) == 0 {
		w.mods[f] = m
	}
	return m
}
