package main

// Discharging obligations with SMT solvers.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type Result struct {
	status string // unsat (proved), sat, unknown, timeout
	solver string
	secs   float64
	model  string
	script string
	full   bool // every solver has been tried
}

// script writes the query pc /\ not goal. It returns "" if the goal is trivial.
func buildScript(pc []*Term, goal *Term) string {
	neg := mkNot(goal)
	asserts := append(append([]*Term{}, pc...), neg)
	syms := map[string]bool{}
	sorts := map[string]bool{}
	vars := map[string]*Term{}
	strs := map[string]bool{}
	seen := map[int]bool{}
	var order []string
	note := func(t *Term) {
		sorts[t.sort] = true
		switch t.op {
		case "var":
			if vars[t.sv] == nil {
				vars[t.sv] = t
				order = append(order, t.sv)
			}
		case "strc":
			strs[t.strVal()] = true
		default:
			op := t.op
			if strings.HasPrefix(op, "is:") {
				op = op[3:]
			}
			syms[op] = true
		}
	}
	for _, t := range asserts {
		symbols(t, seen, note)
	}
	var axs []*Axiom
	inc := map[*Axiom]bool{}
	for ch := true; ch; {
		ch = false
		for _, a := range axioms {
			if inc[a] || a.text == nil {
				continue
			}
			hit := false
			for _, n := range a.needs {
				if syms[n] {
					hit = true
				}
			}
			if hit {
				inc[a] = true
				axs = append(axs, a)
				symbols(a.text, seen, note)
				ch = true
			}
		}
	}
	var out strings.Builder
	for _, s := range sortDecls {
		fmt.Fprintf(&out, "(declare-sort %s 0)\n", s)
	}
	// datatypes together
	if len(dtOrder) > 0 {
		out.WriteString("(declare-datatypes (")
		for _, d := range dtOrder {
			fmt.Fprintf(&out, "(%s 0)", smtName(d))
		}
		out.WriteString(") (\n")
		for _, d := range dtOrder {
			out.WriteString(" (")
			for _, c := range datatypes[d].ctors {
				if len(c.sels) == 0 {
					fmt.Fprintf(&out, "(%s)", smtName(c.name))
					continue
				}
				fmt.Fprintf(&out, "(%s", smtName(c.name))
				for i, s := range c.sels {
					fmt.Fprintf(&out, " (%s %s)", smtName(s), smtSort(c.srts[i]))
				}
				out.WriteString(")")
			}
			out.WriteString(")\n")
		}
		out.WriteString("))\n")
	}
	p := &printer{out: &out, names: map[int]string{}, refs: map[int]int{}, strs: map[string]string{}}
	var sl []string
	strs[""] = true
	for s := range strs {
		sl = append(sl, s)
	}
	sort.Strings(sl)
	for _, s := range sl {
		fmt.Fprintf(&out, "(declare-const %s Str)\n", p.strName(s))
	}
	var names []string
	for n := range syms {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := funcs[n]
		if f == nil || builtinFun[n] {
			continue
		}
		if d, ok := defineFun[n]; ok {
			out.WriteString(d + "\n")
			continue
		}
		fmt.Fprintf(&out, "(declare-fun %s (", smtName(n))
		for _, a := range f.args {
			out.WriteString(" " + smtSort(a))
		}
		fmt.Fprintf(&out, ") %s)\n", smtSort(f.res))
	}
	sort.Strings(order)
	for _, v := range order {
		fmt.Fprintf(&out, "(declare-const %s %s)\n", smtName(v), smtSort(vars[v].sort))
	}
	if len(sl) > 1 {
		out.WriteString("(assert (distinct")
		for _, s := range sl {
			out.WriteString(" " + p.strName(s))
		}
		out.WriteString("))\n")
	}
	if syms["slen"] {
		for _, s := range sl {
			fmt.Fprintf(&out, "(assert (= (slen %s) %d))\n", p.strName(s), len(s))
			if syms["sbyte"] {
				for i := 0; i < len(s) && i < 40; i++ {
					fmt.Fprintf(&out, "(assert (= (sbyte %s %d) %d))\n", p.strName(s), i, s[i])
				}
			}
		}
	}
	if syms["slt"] {
		for _, a := range sl {
			for _, b := range sl {
				v := "false"
				if a < b {
					v = "true"
				}
				fmt.Fprintf(&out, "(assert (= (slt %s %s) %s))\n", p.strName(a), p.strName(b), v)
			}
		}
	}
	for _, a := range axs {
		p.count(a.text)
	}
	for _, t := range asserts {
		p.count(t)
	}
	defd := map[int]bool{}
	for _, a := range axs {
		p.define(a.text, defd)
		fmt.Fprintf(&out, "; %s\n(assert ", strings.ReplaceAll(a.name, "\n", " "))
		var sb strings.Builder
		p.expr(&sb, a.text)
		out.WriteString(sb.String() + ")\n")
	}
	for _, t := range asserts {
		p.define(t, defd)
		var sb strings.Builder
		p.expr(&sb, t)
		out.WriteString("(assert " + sb.String() + ")\n")
	}
	return out.String()
}

type solverCfg struct {
	name string
	cmd  []string
	pre  string
}

var cfgs = []solverCfg{
	{"z3-new", []string{"z3-new", "-in"}, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :smt.qi.eager_threshold 40)\n"},
	{"z3-4.8", []string{"z3", "-in"}, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--full-saturate-quant"}, "(set-logic ALL)\n"},
}

func runSolver(c solverCfg, script string, timeout time.Duration) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.cmd[0], c.cmd[1:]...)
	cmd.Stdin = strings.NewReader(c.pre + script + "(check-sat)\n")
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	if ctx.Err() != nil {
		return "timeout", ""
	}
	s := strings.TrimSpace(out.String())
	line, _, _ := strings.Cut(s, "\n")
	switch line {
	case "unsat", "sat", "unknown":
		return line, s
	}
	return "error", s
}

var (
	resCache = map[[32]byte]*Result{}
	resMu    sync.Mutex
	jobs     = 8
	nQueries int
	solveSec float64
	bySolver = map[string]int{}
)

// how hard to try
const (
	effQuick = iota // one solver, 1.5 s
	effShort        // one solver, 4 s
	effMid          // every solver, briefly
	effFull         // every solver
)

// deadline is when the run gives up: what is not proved by then counts as failed.
var deadline = time.Now().Add(24 * time.Hour)

// prove discharges obls in parallel. With stopAfter > 0 it gives up after that many failures.
func prove(obls []*Obl, effort int, stopAfter int) {
	type job struct {
		o  *Obl
		s  string
		bv string
	}
	var js []*job
	for _, o := range obls {
		if o.res != nil && (o.res.status == "unsat" || o.res.full || o.res.solver == "none" || effort < effFull) {
			continue
		}
		if o.trivial {
			o.res = &Result{status: "unsat", solver: "simplifier"}
			continue
		}
		js = append(js, &job{o: o})
	}
	for _, j := range js {
		j.s = buildScript(j.o.pc, j.o.goal)
		if j.o.kind != "reach" {
			j.bv = bvScript(j.o.pc, j.o.goal)
		}
	}
	ch := make(chan *job)
	var wg sync.WaitGroup
	var mu sync.Mutex
	fails := 0
	for i := 0; i < jobs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				mu.Lock()
				stop := stopAfter > 0 && fails >= stopAfter
				mu.Unlock()
				if stop || time.Now().After(deadline) {
					j.o.res = &Result{status: "not attempted", solver: "none", script: j.s}
					if j.o.kind == "reach" {
						j.o.res.status = "unknown"
					}
					continue
				}
				if j.o.kind == "reach" {
					st, _ := runSolver(cfgs[0], j.s, 2*time.Second)
					j.o.res = &Result{status: st, solver: cfgs[0].name, script: j.s, full: true}
					continue
				}
				ef := effort
				if j.o.noRace && ef == effFull {
					ef = effShort
				}
				if j.bv != "" {
					t0 := time.Now()
					if st, _ := runSolver(solverCfg{name: "z3-new (bit vectors)", cmd: []string{"z3-new", "-in"}}, j.bv, 10*time.Second); st == "unsat" {
						j.o.res = &Result{status: st, solver: "z3-new (bit vectors)", script: j.bv, full: true, secs: time.Since(t0).Seconds()}
						resMu.Lock()
						nQueries++
						solveSec += j.o.res.secs
						bySolver[j.o.res.solver]++
						resMu.Unlock()
						continue
					}
				}
				j.o.res = solve1(j.s, ef)
				if j.o.res.status != "unsat" {
					mu.Lock()
					fails++
					mu.Unlock()
				}
			}
		}()
	}
	for _, j := range js {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

func solve1(script string, effort int) *Result {
	h := sha256.Sum256([]byte(script))
	resMu.Lock()
	r := resCache[h]
	resMu.Unlock()
	if r != nil && (r.status == "unsat" || r.full || effort < effFull) {
		return r
	}
	t0 := time.Now()
	r = &Result{script: script, full: effort == effFull}
	type try struct {
		cfg int
		to  time.Duration
	}
	const ms = time.Millisecond
	tries := []try{{0, 1500 * ms}, {1, 1000 * ms}}
	switch effort {
	case effShort:
		tries = []try{{0, 4000 * ms}, {1, 1500 * ms}, {2, 1500 * ms}}
	case effMid:
		tries = []try{{0, 1500 * ms}, {1, 1500 * ms}, {2, 3000 * ms}, {0, 8000 * ms}}
	case effFull:
		tries = append(tries, try{2, 1000 * ms}, try{1, 10000 * ms}, try{0, 10000 * ms}, try{2, 30000 * ms})
	}
	done := map[int]bool{}
	for _, t := range tries {
		c := cfgs[t.cfg]
		if done[t.cfg] {
			continue
		}
		to := t.to
		if d := time.Until(deadline); d < to {
			to = d
		}
		st, out := runSolver(c, script, to)
		if st == "error" && os.Getenv("GOVER_ERR") != "" {
			fmt.Println("SOLVER ERROR", c.name, out[:min(len(out), 400)])
		}
		if st != "timeout" {
			done[t.cfg] = true // it would answer the same again
		}
		r.status, r.solver = st, c.name
		if st == "unsat" || st == "sat" {
			break
		}
	}
	r.secs = time.Since(t0).Seconds()
	resMu.Lock()
	resCache[h] = r
	nQueries++
	solveSec += r.secs
	if r.status == "unsat" {
		bySolver[r.solver]++
	}
	resMu.Unlock()
	return r
}

// model asks for values of the given constants.
func getModel(o *Obl) string {
	if o.res == nil || o.res.script == "" {
		return ""
	}
	var ns []string
	seen := map[string]bool{}
	for _, t := range append(append([]*Term{}, o.pc...), o.goal) {
		symbols(t, map[int]bool{}, func(u *Term) {
			if u.op == "var" && (u.sort == SInt || u.sort == SBool || u.sort == SF64) && !seen[u.sv] {
				seen[u.sv] = true
				ns = append(ns, smtName(u.sv))
			}
		})
	}
	if len(ns) == 0 {
		return ""
	}
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3-new", "-in")
	cmd.Stdin = strings.NewReader("(set-option :produce-models true)\n" + cfgs[0].pre + o.res.script + "(check-sat)\n(get-value (" + strings.Join(ns, " ") + "))\n")
	out, _ := cmd.Output()
	return string(out)
}
