package main

// The check of one property: discharge the obligations of the functions it rests on, and run the
// bounded conformance test of the same property, which looks for concrete failing inputs.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

type propDef struct {
	fns     []string // functions and lemmas whose obligations decide the property
	pkg     string   // package of the bounded test
	assume  []string
	bounded string // what the bounded test does
}

type counterexample struct {
	kind string
	text []byte
}

var boundedSpecs = map[string][]string{
	"mach":  {"json", "eq", "fns", "sel", "loops", "ops", "eval"},
	"paths": {"lex", "parseexpr", "parsepath"},
}

// testOverlay writes the overlay for the bounded tests of pkg and returns its file name.
func testOverlay(verif, repo, pkg, dir string) (string, error) {
	ov := map[string]string{}
	put := func(dst, src string, b []byte) error {
		f := filepath.Join(dir, src)
		ov[filepath.Join(repo, dst)] = f
		return os.WriteFile(f, b, 0644)
	}
	dirs := map[string]string{"mach": "mach", "paths": "paths", "jsonpath": "", "main": "cmd/jpath"}
	d := dirs[pkg]
	if sp := boundedSpecs[pkg]; sp != nil {
		pre, err := os.ReadFile(filepath.Join(verif, "spec", "prelude.txt"))
		if err != nil {
			return "", err
		}
		if err := put(filepath.Join(d, "zz_verif_prelude.go"), pkg+"_prelude.go", bytes.Replace(pre, []byte("package PKG"), []byte("package "+pkg), 1)); err != nil {
			return "", err
		}
		for _, s := range sp {
			b, err := executable(filepath.Join(verif, "spec", d, s+".go"))
			if err != nil {
				return "", err
			}
			if err := put(filepath.Join(d, "zz_verif_"+s+".go"), pkg+"_"+s+".go", b); err != nil {
				return "", err
			}
		}
	}
	b, err := os.ReadFile(filepath.Join(verif, "bounded", pkg+"_test.go"))
	if err != nil {
		return "", err
	}
	if err := put(filepath.Join(d, "zz_verif_bounded_test.go"), pkg+"_bounded_test.go", b); err != nil {
		return "", err
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	f := filepath.Join(dir, "overlay.json")
	return f, os.WriteFile(f, j, 0644)
}

// executable keeps the part of a specification file that can be run: not the contracts, which name parts of the code.
func executable(file string) ([]byte, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, nil, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	f.Comments = nil
	var keep []ast.Decl
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && (strings.HasPrefix(fd.Name.Name, "contract_") || strings.HasPrefix(fd.Name.Name, "lemma")) {
			continue
		}
		if fd, ok := d.(*ast.FuncDecl); ok && namesCode(fd.Type) {
			continue
		}
		keep = append(keep, d)
	}
	f.Decls = keep
	// imports no longer used
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			p := strings.Trim(is.Path.Value, `"`)
			if !used[p[strings.LastIndex(p, "/")+1:]] {
				is.Name = ast.NewIdent("_")
			}
		}
	}
	var out bytes.Buffer
	err = format.Node(&out, fs, f)
	return out.Bytes(), err
}

// namesCode says whether a function of the specification is about the state of the parser: those are for contracts only.
func namesCode(t *ast.FuncType) bool {
	found := false
	ast.Inspect(t, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && (id.Name == "lexer" || id.Name == "parser" || id.Name == "rd" || id.Name == "lexeme") {
			found = true
		}
		return true
	})
	return found
}

type boundedRun struct {
	built  bool
	err    string
	stats  map[string]interface{}
	replay []byte // a concrete failing input
	output string
}

type boundedTest struct {
	bin  string
	err  string
	dir  string
	repo string
	pkg  string
}

func buildBounded(verif, repo, pkg, dir string) *boundedTest {
	bt := &boundedTest{dir: dir, repo: repo, pkg: pkg}
	ov, err := testOverlay(verif, repo, pkg, dir)
	if err != nil {
		bt.err = err.Error()
		return bt
	}
	bt.bin = filepath.Join(dir, pkg+".test")
	sub := map[string]string{"mach": "./mach", "paths": "./paths", "jsonpath": ".", "main": "./cmd/jpath"}[pkg]
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bt.bin, sub)
	cmd.Dir = repo
	out, err := cmd.CombinedOutput()
	if err != nil {
		bt.err = "the bounded test does not build: " + string(out)
	}
	return bt
}

func (bt *boundedTest) run(prop string, seed int, secs float64) *boundedRun {
	r := &boundedRun{}
	if bt.err != "" {
		r.err = bt.err
		return r
	}
	r.built = true
	rep := filepath.Join(bt.dir, fmt.Sprintf("replay-%d.json", seed))
	scratch := filepath.Join(bt.dir, fmt.Sprintf("scratch-%d", seed))
	os.MkdirAll(scratch, 0755)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs*float64(time.Second))+60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bt.bin, "-test.run", "^TestVerifBounded$", "-test.v", "-test.timeout", "0")
	cmd.Dir = scratch
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.Env = append(os.Environ(), "VERIF_PROP="+prop, fmt.Sprintf("VERIF_SEED=%d", seed), fmt.Sprintf("VERIF_SECS=%g", secs), "VERIF_OUT="+rep, "GOMEMLIMIT=3GiB", "VERIF_REPO="+bt.repo)
	var out limited
	cmd.Stdout = &out
	cmd.Stderr = &out
	err := cmd.Run()
	r.output = string(out.b)
	for _, l := range strings.Split(r.output, "\n") {
		if s, ok := strings.CutPrefix(l, "VERIFSTATS "); ok {
			json.Unmarshal([]byte(s), &r.stats)
		}
	}
	if err != nil {
		if b, e := os.ReadFile(rep); e == nil {
			r.replay = b
		} else {
			// the process died: the last case tried is the failing input
			last := ""
			if b, e := os.ReadFile(rep + ".last"); e == nil {
				last = string(b)
			}
			if strings.Contains(r.output, "VERIFSETUP") {
				r.err = "bounded test: " + r.output
				return r
			}
			b, _ := json.MarshalIndent(map[string]string{"property": prop, "what": "the program stopped or did not finish: " + err.Error(), "last_case": last, "output": r.output[:min(len(r.output), 2000)]}, "", "  ")
			r.replay = b
		}
	}
	return r
}

// limited keeps the first part of what is written to it.
type limited struct{ b []byte }

func (l *limited) Write(p []byte) (int, error) {
	if n := 100000 - len(l.b); n > 0 {
		l.b = append(l.b, p[:min(n, len(p))]...)
	}
	return len(p), nil
}

func check(verif, repo, prop, tier string, seed int) int {
	t0 := time.Now()
	def, ok := props[prop]
	if !ok {
		fmt.Println("no such property:", prop)
		return 2
	}
	thorough := tier == "thorough"
	dir, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)

	// the bounded run, in the background
	secs := 8.0
	limit := 400 * time.Second
	if thorough {
		secs = 120
		limit = 700 * time.Second
	}
	var bt *boundedTest
	var br *boundedRun
	var bwg sync.WaitGroup
	if def.pkg != "" {
		bwg.Add(1)
		go func() {
			defer bwg.Done()
			bt = buildBounded(verif, repo, def.pkg, dir)
			br = bt.run(prop, seed, secs)
		}()
	}
	if !thorough {
		bwg.Wait() // it is short; a failing input makes the proof attempt a matter of naming the obligation
		if br != nil && br.replay != nil {
			limit = 150 * time.Second
		}
	}

	deadline = time.Now().Add(limit)
	initTheory()
	var reps []*FnReport
	w, lerr := loadWorld(repo, filepath.Join(verif, "spec"))
	var failed []string
	var notes []string
	var failObl []*Obl
	nobl, ndis := 0, 0
	if lerr != nil {
		failed = append(failed, "the source cannot be loaded: "+lerr.Error())
	} else {
		if s := axiomsRefuted(3 * time.Second); s != "" {
			fmt.Println("the axioms are inconsistent:", s)
			return 2
		}
		for _, d := range w.dropped {
			notes = append(notes, "contract dropped, it no longer fits the source: "+d)
			fmt.Println("DROPPED", d)
		}
		queue := append([]string{}, def.fns...)
		seen := map[string]bool{}
		nUsed := 0
		for qi := 0; qi < len(queue); qi++ {
			k := queue[qi]
			bare, _, _ := strings.Cut(k, "{")
			if seen[bare] {
				continue
			}
			seen[bare] = true
			r := w.verifyFn(k)
			// a caller is checked against its callees' contracts: these are checked in their turn
			for ; nUsed < len(usedFns); nUsed++ {
				queue = append(queue, fnKey(usedFns[nUsed]))
			}
			reps = append(reps, r)
			if r.err != "" {
				failed = append(failed, k+": "+r.err)
			}
			bad := 0
			for _, o := range r.obls {
				if o.kind == "reach" {
					if o.res != nil && o.res.status == "unsat" {
						failed = append(failed, fmt.Sprintf("%s: vacuous: %s (%s)", k, o.desc, o.pos))
					}
					continue
				}
				nobl++
				if o.res != nil && o.res.status == "unsat" {
					ndis++
					continue
				}
				st := "none"
				if o.res != nil {
					st = o.res.status
				}
				bad++
				failed = append(failed, fmt.Sprintf("%s: %s: %s (%s): %s", k, o.kind, o.desc, o.pos, st))
				failObl = append(failObl, o)
			}
			fmt.Printf("%-36s %4d obligations, %d not discharged, %.1fs %s\n", k, len(r.obls), bad, r.secs, r.err)
		}
	}
	bwg.Wait()

	// a failed proof: look harder for a concrete input
	if len(failed) > 0 && bt != nil && bt.err == "" && (br == nil || br.replay == nil) {
		n := 6
		more := 60.0
		if thorough {
			more = 120
		}
		runs := make([]*boundedRun, n)
		var wg sync.WaitGroup
		for i := range runs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				runs[i] = bt.run(prop, seed*1000+i+1, more)
			}()
		}
		wg.Wait()
		for _, r := range runs {
			if r.replay != nil {
				br = r
				break
			}
		}
	}

	known := knownFindings(verif, prop)
	var open []string
	for _, f := range failed {
		hit := false
		for _, k := range known {
			if strings.Contains(f, k.key) {
				hit = true
				k.seen = true
			}
		}
		if !hit {
			open = append(open, f)
		}
	}
	for _, k := range known {
		if k.seen {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
		}
	}

	// evidence
	kinds := map[string]int{}
	for _, r := range reps {
		for _, o := range r.obls {
			if o.kind != "reach" && o.res != nil && o.res.status == "unsat" {
				kinds[o.kind]++
			}
		}
	}
	var fl []map[string]interface{}
	var trusted []string
	for _, r := range reps {
		n, d := 0, 0
		for _, o := range r.obls {
			if o.kind == "reach" {
				continue
			}
			n++
			if o.res != nil && o.res.status == "unsat" {
				d++
			}
		}
		m := map[string]interface{}{"function": r.key, "obligations": n, "discharged": d, "loops": r.loops, "seconds": round2(r.secs)}
		if len(r.inlined) > 0 {
			m["inlined"] = r.inlined
		}
		if r.trusted {
			m["trusted"] = true
			trusted = append(trusted, "lemma assumed, not proved: "+r.key)
		}
		if r.err != "" {
			m["error"] = r.err
		}
		fl = append(fl, m)
	}
	trusted = append(trusted, baseTrust...)
	var ex []string
	for e := range usedExterns {
		ex = append(ex, e)
	}
	sort.Strings(ex)
	if len(ex) > 0 {
		trusted = append(trusted, "models of library functions: "+strings.Join(ex, ", "))
	}
	var ax []string
	for _, a := range axioms {
		ax = append(ax, a.name)
	}
	cov := map[string]interface{}{
		"obligations": nobl, "discharged": ndis,
		"checker_cmd":        "/verif/check.sh " + prop + " " + tier,
		"trusted_base":       trusted,
		"functions":          fl,
		"by_kind":            kinds,
		"by_back_end":        bySolver,
		"solver_queries":     nQueries,
		"solver_seconds":     round2(solveSec),
		"axioms":             ax,
		"not_discharged":     failed,
		"notes":              notes,
		"bounded_experiment": def.bounded,
	}
	if br != nil {
		b := map[string]interface{}{"label": "bounded: not counted as proved", "seconds": secs}
		for k, v := range br.stats {
			b[k] = v
		}
		if br.err != "" {
			b["error"] = br.err
		}
		cov["bounded"] = b
	}
	viol := 0
	status := 0
	var replay string
	if len(open) > 0 || br != nil && br.replay != nil {
		viol = 1
		status = 1
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if viol > 0 {
		replay = filepath.Join(verif, "evidence", prop+"-violation.txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n\n", prop)
		if br != nil && br.replay != nil {
			fmt.Fprintf(&sb, "failing input, on the real code (bounded run, package %s):\n%s\n\n", def.pkg, br.replay)
		}
		fmt.Fprintf(&sb, "obligations not discharged:\n")
		for _, f := range open {
			fmt.Fprintf(&sb, "  %s\n", f)
		}
		for _, n := range notes {
			fmt.Fprintf(&sb, "  note: %s\n", n)
		}
		for i, o := range failObl {
			if i >= 6 {
				break
			}
			fmt.Fprintf(&sb, "\n%s %s: %s (%s)\n", o.fn, o.kind, o.desc, o.pos)
			for _, p := range o.path {
				fmt.Fprintf(&sb, "   path: %s\n", p)
			}
			if o.res != nil {
				fmt.Fprintf(&sb, "   verifier: %s by %s after %.1fs\n", o.res.status, o.res.solver, o.res.secs)
			}
			if i < 2 {
				g := o.goal.String()
				fmt.Fprintf(&sb, "   goal: %s\n", g[:min(len(g), 3000)])
				m := getModel(o)
				fmt.Fprintf(&sb, "   model: %s\n", m[:min(len(m), 3000)])
			}
		}
		os.WriteFile(replay, []byte(sb.String()), 0644)
	} else {
		os.Remove(filepath.Join(verif, "evidence", prop+"-violation.txt"))
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": append(append([]string{}, def.assume...), baseAssume...),
		"wall_s":      round2(time.Since(t0).Seconds()), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644)
	for _, f := range open {
		fmt.Println("NOT DISCHARGED:", f)
	}
	if br != nil && br.err != "" {
		fmt.Println("bounded test not run:", strings.TrimSpace(br.err)[:min(len(strings.TrimSpace(br.err)), 600)])
	}
	if br != nil && br.replay != nil {
		fmt.Printf("failing input:\n%s\n", br.replay)
	}
	fmt.Printf("%s: %d of %d obligations discharged, %d queries, %.1fs solver time, %.1fs in all\n", prop, ndis, nobl, nQueries, solveSec, time.Since(t0).Seconds())
	if status == 1 {
		s := ""
		if br == nil || br.replay == nil {
			s = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, replay, s)
	}
	return status
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

type finding struct {
	key, what string
	seen      bool
}

// knownFindings reads the "finding:" lines of the known-findings file: finding: property=ID key="..." what
func knownFindings(verif, prop string) []*finding {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var r []*finding
	for _, l := range strings.Split(string(b), "\n") {
		s, ok := strings.CutPrefix(l, "finding: property="+prop+" key=\"")
		if !ok {
			continue
		}
		k, what, ok := strings.Cut(s, "\"")
		if ok && k != "" {
			r = append(r, &finding{key: k, what: strings.TrimSpace(what)})
		}
	}
	return r
}

// axiomsRefuted tries to derive a contradiction from the axioms alone.
func axiomsRefuted(to time.Duration) string {
	var pc []*Term
	for _, a := range axioms {
		if a.text != nil {
			pc = append(pc, a.text)
		}
	}
	s := buildScript(pc, tFalse)
	var wg sync.WaitGroup
	res := make([]string, len(cfgs))
	for i, c := range cfgs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res[i], _ = runSolver(c, s, to)
		}()
	}
	wg.Wait()
	for i, r := range res {
		if r == "unsat" {
			return cfgs[i].name
		}
	}
	return ""
}

var baseTrust = []string{
	"gover, the verification condition generator of /verif/gover, and golang.org/x/tools/go/ssa, which translates /repo's source for it",
	"the SMT solvers z3 5.x (z3-new), z3 4.8.12 and cvc5 1.1.2: an obligation counts as discharged when one of them answers unsat",
	"the Go compiler and run-time system; memory is unlimited",
}

var baseAssume = []string{
	"documents are finite trees of nil, bool, float64, int, int64, string, []interface{} and map[string]interface{}; no list is longer than 2^62 elements",
	"the iteration order of an object's members is some fixed enumeration of its keys (Go leaves it unspecified)",
	"integers are 64-bit machine integers with wrap-around; floating-point + - * / are uninterpreted (the same operations in code and specification), comparisons follow IEEE 754",
	"error values are identified with one another: that an error occurs is specified, not its text",
}
