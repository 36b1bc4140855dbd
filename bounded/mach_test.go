package mach

// Bounded conformance runs: paths and documents are generated, and the results of the compiled
// program are compared with the executable part of the specification. The runs find concrete
// failing inputs; they prove nothing.

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/forsyth/jsonpath/paths"
)

type vReplay struct {
	Property string   `json:"property"`
	Path     string   `json:"path"`
	Doc      string   `json:"document"`
	Want     string   `json:"expected"`
	Got      string   `json:"observed"`
	What     string   `json:"what"`
	Notes    []string `json:"notes,omitempty"`
}

var (
	vProp  = os.Getenv("VERIF_PROP")
	vN     int
	vDiff  = map[string]bool{}
	vOut   = os.Getenv("VERIF_OUT")
	vSteps = map[paths.Op]int{}
)

func vFail(t *testing.T, r vReplay) {
	r.Property = vProp
	b, _ := json.MarshalIndent(r, "", "  ")
	os.WriteFile(vOut, b, 0644)
	t.Fatalf("%s: path %s on %s: want %s, got %s", r.What, r.Path, r.Doc, r.Want, r.Got)
}

// vEnc writes a value unambiguously (object members sorted by name).
func vEnc(v JSON) string {
	var sb strings.Builder
	vEncTo(&sb, v)
	return sb.String()
}

func vEncTo(sb *strings.Builder, v JSON) {
	switch v := v.(type) {
	case nil:
		sb.WriteString("null")
	case []JSON:
		sb.WriteByte('[')
		for i, x := range v {
			if i > 0 {
				sb.WriteByte(',')
			}
			vEncTo(sb, x)
		}
		sb.WriteByte(']')
	case map[string]JSON:
		ks := make([]string, 0, len(v))
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		sb.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(strconv.Quote(k))
			sb.WriteByte(':')
			vEncTo(sb, v[k])
		}
		sb.WriteByte('}')
	case error:
		sb.WriteString("error")
	case string:
		sb.WriteString(strconv.Quote(v))
	case float64:
		fmt.Fprintf(sb, "%vf", v)
	case int64:
		fmt.Fprintf(sb, "%d", v)
	case bool:
		fmt.Fprintf(sb, "%v", v)
	default:
		fmt.Fprintf(sb, "%T(%v)", v, v)
	}
}

func vList(l []JSON, bag bool) string {
	ss := make([]string, len(l))
	for i, v := range l {
		ss[i] = vEnc(v)
	}
	if bag {
		sort.Strings(ss)
	}
	return strings.Join(ss, " ; ")
}

// vRun evaluates the compiled path, turning a panic into a string.
func vRun(p *Program, doc JSON) (r []JSON, err error, pan string) {
	defer func() {
		if e := recover(); e != nil {
			pan = fmt.Sprint(e)
		}
	}()
	r, err = p.Run(doc)
	return
}

func vCompile(p paths.Path) (g *Program, err error, pan string) {
	defer func() {
		if e := recover(); e != nil {
			pan = fmt.Sprint(e)
		}
	}()
	g, err = Compile(p)
	return
}

func vParse(s string) (p paths.Path, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	return paths.ParsePath(s)
}

// vOrdered says that no object has more than one member, so the order of results is determined.
func vOrdered(v JSON) bool {
	switch v := v.(type) {
	case []JSON:
		for _, x := range v {
			if !vOrdered(x) {
				return false
			}
		}
	case map[string]JSON:
		if len(v) > 1 {
			return false
		}
		for _, x := range v {
			if !vOrdered(x) {
				return false
			}
		}
	}
	return true
}

func vHeld(f func()) (pan string) {
	defer func() {
		if e := recover(); e != nil {
			pan = fmt.Sprint(e)
		}
	}()
	f()
	return ""
}

// vCheck compares one evaluation with the specification.
func vCheck(t *testing.T, text string, path paths.Path, doc JSON) {
	prog, err, pan := vCompile(path)
	dt := func() string { return vEnc(doc) }
	if pan != "" {
		vFail(t, vReplay{Path: text, Doc: dt(), Want: "a program or an error", Got: "panic: " + pan, What: "compiling"})
	}
	if err != nil {
		vFail(t, vReplay{Path: text, Doc: dt(), Want: "a program", Got: err.Error(), What: "compiling"})
	}
	var want spVals
	if p := vHeld(func() { want = spPath(path, 0, doc, []JSON{doc}) }); p != "" || want.mode == spStuck {
		return // outside the specification
	}
	vN++
	for _, s := range path {
		vSteps[s.Op]++
	}
	before := dt()
	got, err, pan := vRun(prog, doc)
	bag := !vOrdered(doc)
	ws := "an error"
	if want.mode == spGo {
		ws = vList(want.l, bag)
	}
	gs := "an error"
	switch {
	case pan != "":
		gs = "panic: " + pan
	case err == nil:
		gs = vList(got, bag)
	case got != nil:
		gs = "an error, but also results " + vList(got, bag)
	}
	vDiff[ws] = true
	if ws != gs {
		vFail(t, vReplay{Path: text, Doc: before, Want: ws, Got: gs, What: "evaluating"})
	}
	if after := dt(); after != before {
		vFail(t, vReplay{Path: text, Doc: before, Want: before, Got: after, What: "the document after evaluating"})
	}
	if err == nil && got == nil {
		vFail(t, vReplay{Path: text, Doc: before, Want: "a list", Got: "nil", What: "evaluating"})
	}
	if vProp == "C03" && err == nil {
		vFresh(t, text, prog, doc, got, bag, ws)
	}
}

// vFresh writes all over the result, and expects neither document nor later evaluations to change.
func vFresh(t *testing.T, text string, prog *Program, doc JSON, got []JSON, bag bool, ws string) {
	before := vEnc(doc)
	full := got[:cap(got)]
	for i := range full {
		full[i] = "overwritten"
	}
	_ = append(got, "appended")
	if after := vEnc(doc); after != before {
		vFail(t, vReplay{Path: text, Doc: before, Want: before, Got: after, What: "the document after overwriting the results"})
	}
	again, err, pan := vRun(prog, doc)
	gs := "an error"
	if pan != "" {
		gs = "panic: " + pan
	} else if err == nil {
		gs = vList(again, bag)
	}
	if gs != ws {
		vFail(t, vReplay{Path: text, Doc: before, Want: ws, Got: gs, What: "evaluating again after overwriting the results"})
	}
	_ = append(again, "x")
	third, _, _ := vRun(prog, doc)
	for i := range again[:cap(again)] {
		again[:cap(again)][i] = "y"
	}
	if s := vList(third, bag); s != ws {
		vFail(t, vReplay{Path: text, Doc: before, Want: ws, Got: s, What: "a result after overwriting another result"})
	}
}

// ---- generation

type vGen struct {
	r       *rand.Rand
	single  bool // objects have at most one member
	noKeys  bool
	exprLvl int
}

func (g *vGen) pick(ss ...string) string { return ss[g.r.Intn(len(ss))] }
func (g *vGen) chance(n, d int) bool     { return g.r.Intn(d) < n }

var vNames = []string{"a", "b", "c", "length", "0", "1", "-1", "x-y", "é"}
var vStrs = []string{"", "a", "b", "abc", "abcabc", "0", "1", "-1", "1.5", "1.0", "true", "null", "é日", "a.c", "[", "9007199254740993", "1e400", "nan", "0x10", "+1", " 1"}
var vInts = []int64{0, 1, -1, 2, 3, -2, -3, 5, 7, 10, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, 1 << 53, 1<<53 + 1, 4194303, 4194304, -4194304, -4194305, 1 << 31, 1 << 32}
var vFloats = []float64{0, 1, -1, 0.5, 1.5, -1.5, 2, 3, 7, 1e300, -1e300, 9007199254740992, 9007199254740993, 4.5, 2.5, 1e18, -0.25, 5e-324}

func (g *vGen) scalar() JSON {
	switch g.r.Intn(12) {
	case 0:
		return nil
	case 1:
		return g.r.Intn(2) == 0
	case 2, 3, 4:
		return vStrs[g.r.Intn(len(vStrs))]
	case 5:
		return vInts[g.r.Intn(len(vInts))]
	case 6:
		return int64(g.r.Intn(7) - 3)
	case 7, 8:
		return vFloats[g.r.Intn(len(vFloats))]
	}
	return float64(g.r.Intn(9)-4) / 2
}

func (g *vGen) doc(d int) JSON {
	if d <= 0 || g.chance(1, 5) {
		return g.scalar()
	}
	if g.chance(1, 2) {
		n := g.r.Intn(5)
		if g.chance(1, 12) {
			n = 9
		}
		a := make([]JSON, 0, n+g.r.Intn(3))
		for i := 0; i < n; i++ {
			a = append(a, g.doc(d-1))
		}
		return a
	}
	n := g.r.Intn(4)
	if g.single && n > 1 {
		n = 1
	}
	m := map[string]JSON{}
	for i := 0; i < n; i++ {
		m[vNames[g.r.Intn(len(vNames))]] = g.doc(d - 1)
	}
	return m
}

func (g *vGen) smallInt() string {
	if g.chance(1, 15) {
		return g.pick("9223372036854775807", "-9223372036854775806", "9223372036854775806", "4611686018427387904", "-4611686018427387904", "4194303", "4194304", "-4194304", "-4194305", "2147483648", "4294967295", "4294967296", "8388608")
	}
	return strconv.Itoa(g.r.Intn(13) - 6)
}

func (g *vGen) str() string {
	s := vStrs[g.r.Intn(len(vStrs))]
	if g.chance(1, 3) {
		s = vNames[g.r.Intn(len(vNames))]
	}
	return "'" + s + "'"
}

func (g *vGen) slice() string {
	b := func() string {
		if g.chance(1, 3) {
			return ""
		}
		return g.smallInt()
	}
	s := b() + ":" + b()
	if g.chance(1, 2) {
		s += ":" + b()
	}
	return s
}

func (g *vGen) name() string { return g.pick("a", "b", "c", "length", "x-y", "é") }

func (g *vGen) member() string {
	switch g.r.Intn(8) {
	case 0, 1:
		return "*"
	case 2:
		return g.smallInt()
	case 3:
		return "(" + g.expr(2) + ")"
	}
	return g.name()
}

func (g *vGen) elem() string {
	switch g.r.Intn(4) {
	case 0:
		return g.str()
	case 1:
		return g.slice()
	case 2:
		return g.name()
	}
	return g.smallInt()
}

func (g *vGen) union() string {
	n := 2 + g.r.Intn(3)
	l := []string{}
	for i := 0; i < n; i++ {
		l = append(l, g.elem())
	}
	return strings.Join(l, ",")
}

func (g *vGen) subscript() string {
	w := map[string][]int{ // wild, filter, expr, union, slice, elem
		"C05": {1, 0, 1, 3, 0, 8}, "C06": {1, 0, 0, 3, 9, 1}, "C07": {4, 1, 1, 6, 2, 2}, "C09": {3, 2, 1, 3, 2, 3},
		"C10": {1, 8, 1, 1, 1, 1}, "C11": {0, 9, 3, 0, 0, 1}, "C12": {0, 9, 1, 0, 0, 1}, "C13": {0, 9, 3, 0, 0, 1},
	}[vProp]
	if w == nil {
		w = []int{2, 4, 2, 3, 2, 2}
	}
	n := 0
	for _, x := range w {
		n += x
	}
	k, i := g.r.Intn(n), 0
	for k >= w[i] {
		k -= w[i]
		i++
	}
	switch i {
	case 0:
		return "*"
	case 1:
		return "?(" + g.expr(3) + ")"
	case 2:
		return "(" + g.expr(2) + ")"
	case 3:
		return g.union()
	case 4:
		return g.slice()
	}
	return g.elem()
}

func (g *vGen) path() string {
	n := 1 + g.r.Intn(3)
	s := "$"
	nest := 5
	if vProp == "C09" {
		nest = 2
	}
	for i := 0; i < n; i++ {
		if g.chance(1, nest) {
			s += ".."
			if g.chance(1, 2) {
				s += g.member()
				continue
			}
		} else if g.chance(1, 3) {
			s += "." + g.member()
			continue
		}
		s += "[" + g.subscript() + "]"
	}
	return s
}

var vBin = []string{"+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "&&", "||", "=~", "in", "nin"}

func (g *vGen) expr(d int) string {
	if d <= 0 || g.chance(1, 5) {
		return g.leaf()
	}
	switch g.r.Intn(10) {
	case 0, 1, 2, 3:
		ops := vBin
		switch {
		case vProp == "C11":
			ops = []string{"+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "&&", "||"}
		case vProp == "C12":
			ops = []string{"==", "!=", "==", "!=", "in", "nin", "&&", "||"}
		}
		op := ops[g.r.Intn(len(ops))]
		r := g.expr(d - 1)
		if op == "=~" {
			r = g.pick("'a.*'", "/b.?c/", "'['", r, "/^$/")
		}
		if op == "in" || op == "nin" {
			r = g.pick(r, "["+g.expr(d-1)+","+g.expr(d-2)+"]", "[]", "@", "$")
		}
		return "(" + g.expr(d-1) + ")" + " " + op + " " + "(" + r + ")"
	case 4:
		return "!" + "(" + g.expr(d-1) + ")"
	case 5:
		return "-" + "(" + g.expr(d-1) + ")"
	case 6:
		return g.call(d)
	case 7:
		n := g.r.Intn(3)
		l := []string{}
		for i := 0; i < n; i++ {
			l = append(l, g.expr(d-1))
		}
		return "[" + strings.Join(l, ",") + "]"
	case 8:
		return g.leaf() + "." + g.pick("a", "b", "length", "c")
	}
	return g.leaf() + "[" + g.expr(d-1) + "]"
}

func (g *vGen) call(d int) string {
	e := func() string { return g.expr(d - 1) }
	if g.chance(1, 25) {
		return g.pick("nosuch(1)", "abs()", "abs(1,2)", "length()", "contains('a')", "keys(1,2)", "tokenize('a')", "sum()", "sum([1],[2])")
	}
	f := g.pick("abs", "avg", "ceil", "contains", "ends_with", "floor", "keys", "length", "max", "min", "prod", "starts_with", "sum", "to_number", "tokenize")
	if f == "keys" && (g.noKeys || !g.single) {
		f = "length"
	}
	num := func() string {
		n := 1 + g.r.Intn(4)
		l := []string{}
		for i := 0; i < n; i++ {
			l = append(l, g.pick("1", "2", "-3", "0.5", "2.5", "0", "-1", "10", "3", e()))
		}
		return "[" + strings.Join(l, ",") + "]"
	}
	switch f {
	case "max", "min":
		if g.chance(1, 3) {
			n := g.r.Intn(4)
			l := []string{}
			for i := 0; i < n; i++ {
				l = append(l, g.pick(e(), "'a'", "'b'", "'abc'", "1", "2.5"))
			}
			return f + "(" + strings.Join(l, ",") + ")"
		}
		return f + "(" + g.pick(num(), e(), "['b','a','c']", "['a','b']", "['a',1]", "[1,'a']", "[]") + ")"
	case "avg", "prod", "sum":
		return f + "(" + g.pick(num(), e(), "[]") + ")"
	case "contains":
		return f + "(" + g.pick(num(), e(), g.str(), "['a','1']") + "," + g.pick(e(), g.str(), "1") + ")"
	case "ends_with", "starts_with":
		return f + "(" + g.pick(g.str(), g.str(), e()) + "," + g.pick(g.str(), g.str(), e()) + ")"
	case "tokenize":
		return f + "(" + g.pick(g.str(), e(), "'a b c'") + "," + g.pick("' '", "'b'", "''", "'['", "'a|c'", e()) + ")"
	case "to_number":
		return f + "(" + g.pick(g.str(), g.str(), e()) + ")"
	}
	return f + "(" + e() + ")"
}

func (g *vGen) leaf() string {
	switch g.r.Intn(12) {
	case 0, 1, 2:
		return "@"
	case 3:
		return "$"
	case 4:
		return "@." + g.pick("a", "b", "c", "length")
	case 5:
		return "@[" + strconv.Itoa(g.r.Intn(4)) + "]"
	case 6:
		return g.str()
	case 7:
		return g.pick("1", "0", "2", "3", "4194304", "4194303", "9223372036854775807", "10")
	case 8:
		return g.pick("1.5", "0.5", "2.0", "1.0e3", "0.0")
	case 9:
		return g.pick("true", "false", "null")
	case 10:
		return "$." + g.pick("a", "b")
	}
	return g.pick("-1", "-2", "-3")
}

// vLit writes v as an expression.
func vLit(v JSON) (string, bool) {
	switch v := v.(type) {
	case nil:
		return "null", true
	case bool:
		return fmt.Sprint(v), true
	}
	return "", false
}

// valueCase makes a filter that holds exactly when an expression has the value the specification gives it.
func (g *vGen) valueCase() (string, JSON, bool) {
	a, b := g.doc(2), g.doc(2)
	if g.chance(2, 3) {
		a = g.scalar()
	}
	if g.chance(2, 3) {
		b = g.scalar()
	}
	if g.chance(1, 6) {
		b = a
	}
	var e string
	args := []string{"@.a", "@.b", "@.nosuch"}
	x := func() string {
		if g.chance(1, 12) {
			return args[2]
		}
		return args[g.r.Intn(2)]
	}
	switch vProp {
	case "C11":
		op := g.pick("+", "-", "*", "/", "%", "<", "<=", ">", ">=", "&&", "||", "==")
		e = x() + " " + op + " " + x()
		if g.chance(1, 8) {
			e = g.pick("-", "!") + x()
		}
	case "C12":
		e = x() + " " + g.pick("==", "!=") + " " + x()
		if g.chance(1, 4) {
			e = x() + " " + g.pick("in", "nin") + " " + "[" + x() + "," + x() + "]"
		}
		if g.chance(1, 8) {
			e = "contains([" + x() + "]," + x() + ")"
		}
	case "C13":
		e = g.call(2)
		e = strings.ReplaceAll(strings.ReplaceAll(e, "$.", "@."), "$", "@.a")
	case "C05":
		e = g.pick("@.a[@.b]", "@.a.b", "@.a.a", "@.a['a']", "@.a[0]", "@.a[-1]", "@.a[1]", "@.a.length")
	default:
		e = g.expr(2)
	}
	doc := map[string]JSON{"a": a, "b": b}
	var r spVal
	q, err := vParse("$[?(" + e + ")]")
	if err != nil || len(q) != 1 || len(q[0].Args) != 1 {
		return "", nil, false
	}
	ex, ok := q[0].Args[0].(paths.Expr)
	if !ok {
		return "", nil, false
	}
	if p := vHeld(func() { r = spExpr(ex, []JSON{doc}, doc) }); p != "" {
		return "", nil, false
	}
	if r.mode == spGo && vIsDoc(r.v) {
		doc["r"] = vCopy(r.v)
	}
	f := g.pick("(%s) == @.r", "(%s) != @.r", "[%s] == [@.r]", "(%s) == null", "!(%s)", "(%s)/2 == @.r/2", "%s", "(%s) || 'x' == 'x'", "(%s) < @.r", "(%s) <= @.r", "[(%s)] != [null]", "((%s)*3)/7 == (@.r*3)/7", "(%s) + 0.5 == @.r + 0.5", "abs(%s) == abs(@.r)")
	return "$[?(" + fmt.Sprintf(f, e) + ")]", []JSON{doc}, true
}

func vCopy(v JSON) JSON {
	switch v := v.(type) {
	case []JSON:
		r := make([]JSON, len(v))
		for i, x := range v {
			r[i] = vCopy(x)
		}
		return r
	case map[string]JSON:
		r := map[string]JSON{}
		for k, x := range v {
			r[k] = vCopy(x)
		}
		return r
	}
	return v
}

func vIsDoc(v JSON) bool {
	switch v := v.(type) {
	case nil, bool, string, int64, float64:
		return true
	case []JSON:
		for _, x := range v {
			if !vIsDoc(x) {
				return false
			}
		}
		return true
	case map[string]JSON:
		for _, x := range v {
			if !vIsDoc(x) {
				return false
			}
		}
		return true
	}
	return false
}

func TestVerifBounded(t *testing.T) {
	secs, _ := strconv.ParseFloat(os.Getenv("VERIF_SECS"), 64)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if secs == 0 {
		secs = 5
	}
	g := &vGen{r: rand.New(rand.NewSource(seed*7919 + 1))}
	stop := time.Now().Add(time.Duration(secs * float64(time.Second)))
	switch vProp {
	case "C14":
		vEncoding(t)
	case "C17":
		vLeaks(t, g, stop)
	case "C03":
		vConcurrent(t, g)
	case "C06":
		vSlices(t)
	}
	values := map[string]int{"C05": 3, "C11": 1, "C12": 1, "C13": 1, "C10": 4, "C02": 3, "C14": 3}[vProp]
	bad := 0
	var samples []string
	for i := 0; time.Now().Before(stop) || i < 2000; i++ {
		g.single = i%2 == 0
		var text string
		var doc JSON
		if values > 0 && i%values == 0 {
			s, d, ok := g.valueCase()
			if !ok {
				bad++
				continue
			}
			text, doc = s, d
		} else {
			text, doc = g.path(), g.doc(3)
		}
		path, err := vParse(text)
		if err != nil {
			bad++
			continue
		}
		vCheck(t, text, path, doc)
		if vProp == "C14" && i%10 == 0 {
			q := append(append(paths.Path{}, path...), path...)
			vCheck(t, text+" twice", q, doc)
		}
		if len(samples) < 3 && i > 100 {
			samples = append(samples, text+" on "+vEnc(doc))
		}
	}
	rep := map[string]interface{}{"evaluations": vN, "distinct_nontrivial": len(vDiff), "unparsed": bad, "samples": samples}
	b, _ := json.Marshal(rep)
	fmt.Printf("VERIFSTATS %s\n", b)
}

// vSlices tries every small combination of bounds, and the extremes.
func vSlices(t *testing.T) {
	bs := []string{"", "0", "1", "2", "3", "4", "5", "-1", "-2", "-3", "-4", "-5", "-6", "9223372036854775807", "-9223372036854775806", "4611686018427387904", "-4611686018427387904"}
	for n := 0; n <= 4; n++ {
		a := []JSON{}
		for i := 0; i < n; i++ {
			a = append(a, float64(i))
		}
		for _, x := range bs {
			for _, y := range bs {
				for _, z := range bs {
					text := "$[" + x + ":" + y + ":" + z + "]"
					p, err := vParse(text)
					if err == nil {
						vCheck(t, text, p, a)
					}
				}
			}
		}
	}
}

// vEncoding tries constants and sizes about the limits of the encoding.
func vEncoding(t *testing.T) {
	for _, n := range []int64{1<<22 - 1, 1 << 22, 1<<22 + 1, -(1 << 22), -(1 << 22) - 1, 1<<23 - 1, 1 << 23, 1<<23 + 1, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, math.MaxInt64, 1 << 62, -(1 << 31), -(1 << 40), math.MinInt64} {
		leaf := &paths.IntLeaf{Op: paths.OpInt, Val: n}
		cur := &paths.NameLeaf{Op: paths.OpCurrent, Name: "@"}
		eq := &paths.Inner{Op: paths.OpEQ, Kids: []paths.Expr{cur, leaf}}
		p := paths.Path{&paths.Step{Op: paths.OpFilter, Args: []paths.Val{eq}}}
		vCheck(t, fmt.Sprintf("$[?(@ == %d)]", n), p, []JSON{n, n + 1, n - 1, n & (1<<23 - 1), int64(0)})
		vCheck(t, fmt.Sprintf("$[%d]", n), paths.Path{&paths.Step{Op: paths.OpSelect, Args: []paths.Val{paths.IntVal(n)}}}, map[string]JSON{strconv.FormatInt(n, 10): "yes", "0": "no"})
		vCheck(t, fmt.Sprintf("$[%d,1]", n), paths.Path{&paths.Step{Op: paths.OpUnion, Args: []paths.Val{paths.IntVal(n), paths.IntVal(1)}}}, map[string]JSON{strconv.FormatInt(n, 10): "yes", "1": "one"})
	}
	// constants of different types with the same text are different
	txt := "$[?(@ == '1' || @ == 1.0 && @ != 1)]"
	if p, err := vParse(txt); err == nil {
		vCheck(t, txt, p, []JSON{"1", 1.0, int64(1), "1.0"})
	}
	// many constants
	var es []paths.Expr
	for i := 0; i < 3000; i++ {
		es = append(es, &paths.StringLeaf{Op: paths.OpString, Val: "s" + strconv.Itoa(i%2000)}, &paths.FloatLeaf{Op: paths.OpReal, Val: float64(i) + 0.5})
	}
	arr := &paths.Inner{Op: paths.OpArray, Kids: es}
	cur := &paths.NameLeaf{Op: paths.OpCurrent, Name: "@"}
	in := &paths.Inner{Op: paths.OpIn, Kids: []paths.Expr{cur, arr}}
	vCheck(t, "$[?(@ in [...6000 constants...])]", paths.Path{&paths.Step{Op: paths.OpFilter, Args: []paths.Val{in}}}, []JSON{"s0", "s1999", "s2000", 2999.5, 3000.5, 17.5, "s255", "s256", 255.5, 256.5})
	// too big for the encoding
	big := make([]paths.Val, 1<<22+5)
	for i := range big {
		big[i] = paths.IntVal(i & 7)
	}
	g, err, pan := vCompile(paths.Path{&paths.Step{Op: paths.OpUnion, Args: big}})
	if pan != "" || err == nil || g != nil {
		vFail(t, vReplay{Path: "$[...a union of 2^22+5 subscripts...]", Want: "an error", Got: fmt.Sprint(err, pan), What: "compiling"})
	}
	runtime.GC()
}

func vLeaks(t *testing.T, g *vGen, stop time.Time) {
	docs := []JSON{[]JSON{1.0, "a", nil, []JSON{1.0, "["}, map[string]JSON{"a": "["}}, []JSON{[]JSON{}, "b"}}
	texts := []string{"$[?(@ =~ '[')]", "$[?(nosuch(@))]", "$..[?(@ in 3)]", "$..[(@ =~ 3)]", "$[?('a' =~ @)]", "$..[?(@[0] in 3)]", "$[?(@ == 1)]", "$..*", "$[*][?(abs())]", "$..a..b", "$[?(@ in 1)][?(@ in 1)]"}
	for i := 0; i < 300; i++ {
		g.single = false
		texts = append(texts, g.path())
	}
	for _, s := range texts {
		p, err := vParse(s)
		if err != nil {
			continue
		}
		for k := 0; k < 3; k++ {
			doc := g.doc(4)
			if k < len(docs) {
				doc = docs[k]
			}
			prog, err, _ := vCompile(p)
			if err != nil {
				continue
			}
			n0 := runtime.NumGoroutine()
			vN++
			vRun(prog, doc)
			ok := false
			for w := 0; w < 200; w++ {
				if runtime.NumGoroutine() <= n0 {
					ok = true
					break
				}
				time.Sleep(time.Duration(w) * 100 * time.Microsecond)
			}
			if !ok {
				vFail(t, vReplay{Path: s, Doc: vEnc(doc), Want: fmt.Sprint(n0, " goroutines"), Got: fmt.Sprint(runtime.NumGoroutine()), What: "goroutines left after evaluating"})
			}
		}
	}
}

func vConcurrent(t *testing.T, g *vGen) {
	for i := 0; i < 150; i++ {
		g.single = true
		text := g.path()
		p, err := vParse(text)
		if err != nil {
			continue
		}
		doc := g.doc(4)
		prog, err, pan := vCompile(p)
		if err != nil || pan != "" {
			continue
		}
		var want spVals
		if p := vHeld(func() { want = spPath(p, 0, doc, []JSON{doc}) }); p != "" || want.mode == spStuck {
			continue
		}
		ws := "an error"
		if want.mode == spGo {
			ws = vList(want.l, false)
		}
		before := vEnc(doc)
		res := make([]string, 8)
		var wg sync.WaitGroup
		for k := range res {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				r, err, pan := vRun(prog, doc)
				switch {
				case pan != "":
					res[k] = "panic: " + pan
				case err != nil:
					res[k] = "an error"
				default:
					res[k] = vList(r, false)
				}
			}(k)
		}
		wg.Wait()
		for _, s := range res {
			if s != ws {
				vFail(t, vReplay{Path: text, Doc: before, Want: ws, Got: s, What: "evaluating concurrently"})
			}
		}
		if vEnc(doc) != before {
			vFail(t, vReplay{Path: text, Doc: before, Want: before, Got: vEnc(doc), What: "the document after evaluating concurrently"})
		}
	}
}

var _ = reflect.DeepEqual
