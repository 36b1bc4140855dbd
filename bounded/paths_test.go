package paths

// Bounded conformance runs: texts are generated from the grammar, damaged, and parsed, and the
// results are compared with the executable part of the specification. The runs find concrete
// failing inputs; they prove nothing.

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"
)

type vReplay struct {
	Property string `json:"property"`
	Entry    string `json:"entry"`
	Text     string `json:"text"`
	Quoted   string `json:"quoted"`
	Want     string `json:"expected"`
	Got      string `json:"observed"`
}

var (
	vProp = os.Getenv("VERIF_PROP")
	vOut  = os.Getenv("VERIF_OUT")
	vN    int
	vDiff = map[string]bool{}
)

func vDump(sb *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	if v.CanInterface() {
		if re, ok := v.Interface().(*regexp.Regexp); ok {
			if re == nil {
				sb.WriteString("nil")
			} else {
				sb.WriteString("re:" + re.String())
			}
			return
		}
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		vDump(sb, v.Elem())
	case reflect.Struct:
		sb.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			vDump(sb, v.Field(i))
		}
		sb.WriteString("}")
	case reflect.Slice:
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			vDump(sb, v.Index(i))
		}
		sb.WriteString("]")
	case reflect.String:
		sb.WriteString(v.Type().Name() + strconv.Quote(v.String()))
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%s#%x", v.Type().Name(), math.Float64bits(v.Float()))
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.Type().Name() == "Op" {
			sb.WriteString(Op(v.Int()).GoString())
			return
		}
		fmt.Fprintf(sb, "%s(%d)", v.Type().Name(), v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.Type().Name() == "Op" {
			sb.WriteString(Op(v.Uint()).GoString())
			return
		}
		fmt.Fprintf(sb, "%s(%d)", v.Type().Name(), v.Uint())
	default:
		fmt.Fprintf(sb, "?%s", v.Kind())
	}
}

func vShow(x interface{}) string {
	var sb strings.Builder
	vDump(&sb, reflect.ValueOf(x))
	return sb.String()
}

func vGuard(f func() string) string {
	type res struct{ s string }
	c := make(chan res, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				c <- res{fmt.Sprint("panic: ", e)}
			}
		}()
		c <- res{f()}
	}()
	select {
	case r := <-c:
		return r.s
	case <-time.After(20 * time.Second):
		return "no answer after 20 s"
	}
}

func vGotPath(s string) string {
	return vGuard(func() string {
		p, err := ParsePath(s)
		if err != nil {
			if p != nil {
				return "an error and a path"
			}
			return "an error"
		}
		if p == nil {
			return "no error and no path"
		}
		return vShow([]*Step(p))
	})
}

func vGotExpr(s string) string {
	return vGuard(func() string {
		e, err := ParseScriptExpression(s)
		if err != nil {
			if e != nil {
				return "an error and an expression"
			}
			return "an error"
		}
		if e == nil {
			return "no error and no expression"
		}
		return vShow(e)
	})
}

func vWantPath(s string) string {
	r := spPath(s, spPathTok(s, 0))
	if r.fail {
		return "an error"
	}
	return vShow(r.path)
}

func vWantExpr(s string) string {
	r := spExprP(s, spExprTok(s, 0), 0)
	if r.fail || r.next.tok != tokEOF {
		return "an error"
	}
	return vShow(r.e)
}

func vCheck(t *testing.T, expr bool, s string) bool {
	entry, want, got := "ParsePath", "", ""
	if expr {
		entry = "ParseScriptExpression"
		want, got = vWantExpr(s), vGotExpr(s)
	} else {
		want, got = vWantPath(s), vGotPath(s)
	}
	vN++
	if want != "an error" && len(vDiff) < 100000 {
		vDiff[want] = true
	}
	bad := want != got
	if vProp == "C01" {
		bad = strings.HasPrefix(got, "panic") || strings.HasPrefix(got, "no ") || strings.HasPrefix(got, "an error and")
	}
	if bad {
		b, _ := json.MarshalIndent(vReplay{vProp, entry, s, strconv.QuoteToASCII(s), want, got}, "", "  ")
		os.WriteFile(vOut, b, 0644)
		t.Fatalf("%s(%q): want %s, got %s", entry, s, want, got)
	}
	return want != "an error"
}

type vGen struct{ *rand.Rand }

func (g vGen) pick(l ...string) string { return l[g.Intn(len(l))] }

func (g vGen) sp() string {
	if g.Intn(6) == 0 {
		return g.pick(" ", "\t", "\n", "  ", " \r\n", "\v", "\f", "\u00a0", "\u0085")
	}
	return ""
}

func (g vGen) digits() string {
	switch g.Intn(8) {
	case 0:
		return g.pick("9223372036854775807", "9223372036854775808", "9223372036854775806", "18446744073709551616", "00000000000000000000000000000001", "007", "0", "4294967296", "2147483648", "99999999999999999999999999")
	case 1:
		return strconv.Itoa(g.Intn(1 << 30))
	}
	return strconv.Itoa(g.Intn(20))
}

func (g vGen) real() string {
	s := g.digits() + "."
	if g.Intn(4) > 0 {
		s += g.digits()
	}
	if g.Intn(2) == 0 {
		s += g.pick("e", "E", "") + g.pick("", "+", "-", "+-") + g.pick("1", "10", "308", "309", "400", "-1", "", "007")
	}
	return s
}

func (g vGen) id() string {
	return g.pick("a", "b", "foo", "x1", "_", "in", "nin", "true", "false", "null", "é", "a-b", "日本", "length", "keys", "true1", "inn", "A", "z9_")
}

func (g vGen) str() string {
	q := g.pick("'", `"`)
	var sb strings.Builder
	sb.WriteString(q)
	for n := g.Intn(5); n > 0; n-- {
		switch g.Intn(5) {
		case 0:
			sb.WriteString(g.pick("a", "é", "\xff", "\x7f", "'", `"`, "/", "日", "\xc3", "\x80", "\xed\xa0\x80", " "))
		case 1:
			sb.WriteString(g.pick(`\n`, `\t`, `\r`, `\b`, `\f`, `\\`, `\/`, `\'`, `\"`, `\a`, `\0`, `\x41`, `\ `, `\U0001`))
		case 2:
			sb.WriteString(fmt.Sprintf(g.pick(`\u%04x`, `\u%04X`), g.Intn(0x10000)))
		case 3:
			sb.WriteString(g.pick(`\ud83d\ude00`, `\ud83d`, `\ude00`, `\ud83d\ud83d\ude00`, `\ud83dx`, `\ud83d\n`, `\uDBFF\uDFFF`, `\ud800\udc00`, `\ud83`, `\u`, `\u12g4`, `\u0000`, `\ufffd`, `\uffff`, `\ud83d\u0041`, `\udc00\ud800`))
		case 4:
			sb.WriteString(g.pick("x", "y", "z", "\x1f", "\n", "\x00", " ", "\u2028", "0"))
		}
	}
	if g.Intn(12) > 0 {
		sb.WriteString(q)
	}
	return sb.String()
}

func (g vGen) re() string {
	return "/" + g.pick("a", "", "a.*", `a\/b`, `\d+`, `[`, `a\`, `(`, "é", "[/]", `\\`, `x|y`, "\n") + g.pick("/", "/", "/", "")
}

func (g vGen) op() string {
	return g.pick("||", "&&", "==", "!=", "<", "<=", ">", ">=", "=~", "~", " in ", " nin ", "+", "-", "*", "/", "%", "&", "|", "=", " or ")
}

func (g vGen) expr(d int) string {
	if d <= 0 || g.Intn(3) == 0 {
		return g.sp() + g.leaf() + g.sp()
	}
	switch g.Intn(9) {
	case 0:
		return g.pick("-", "!", "- ", "!!", "-!", "--") + g.expr(d-1)
	case 1:
		return "(" + g.expr(d-1) + ")"
	case 2:
		return "[" + g.list(d-1) + "]"
	case 3:
		return g.expr(d-1) + g.sp() + "(" + g.list(d-1) + ")"
	case 4:
		return g.expr(d-1) + "[" + g.expr(d-1) + "]"
	case 5:
		return g.expr(d-1) + "." + g.sp() + g.id()
	}
	return g.expr(d-1) + g.op() + g.expr(d-1)
}

func (g vGen) leaf() string {
	switch g.Intn(10) {
	case 0:
		return g.digits()
	case 1:
		return g.real()
	case 2:
		return g.str()
	case 3:
		return g.re()
	case 4:
		return g.id()
	case 5:
		return "$"
	case 6, 7:
		return "@." + g.id()
	}
	return "@"
}

func (g vGen) list(d int) string {
	if g.Intn(4) == 0 {
		return g.sp()
	}
	s := g.expr(d)
	for g.Intn(2) == 0 {
		s += "," + g.expr(d)
	}
	return s
}

func (g vGen) bound() string {
	switch g.Intn(6) {
	case 0:
		return "(" + g.expr(2) + ")"
	case 1:
		return "-" + g.sp() + g.digits()
	case 2, 3:
		return ""
	}
	return g.digits()
}

func (g vGen) element() string {
	switch g.Intn(12) {
	case 0:
		return "*"
	case 1:
		return "(" + g.expr(2) + ")"
	case 2:
		return "?(" + g.expr(3) + ")"
	case 3, 4:
		return g.str()
	case 5:
		return g.id()
	case 6, 7:
		return g.bound() + g.sp() + ":" + g.sp() + g.bound()
	case 8, 9:
		return g.bound() + ":" + g.bound() + g.sp() + ":" + g.bound()
	}
	return g.bound()
}

func (g vGen) step() string {
	d := g.pick(".", ".", "..", "")
	if d != "" && g.Intn(3) > 0 {
		return d + g.sp() + g.pick("*", g.id(), g.id(), g.digits(), "-"+g.digits(), "("+g.expr(2)+")", "$", "'a'")
	}
	if d == "." && g.Intn(6) > 0 {
		d = ""
	}
	s := d + "[" + g.sp() + g.element()
	for g.Intn(3) == 0 {
		s += g.sp() + "," + g.sp() + g.element()
	}
	return s + g.sp() + "]"
}

func (g vGen) path() string {
	s := g.sp() + g.pick("$", "$", "$", "$", "$", "$", "$", "@", "") + g.sp()
	for n := g.Intn(4); n > 0; n-- {
		s += g.step() + g.sp()
	}
	return s
}

func (g vGen) damage(s string) string {
	if s == "" {
		return s
	}
	i := g.Intn(len(s))
	switch g.Intn(6) {
	case 0:
		return s[:i]
	case 1:
		return s[:i] + s[i+1:]
	case 2:
		return s[:i] + string([]byte{byte(g.Intn(256))}) + s[i:]
	case 3:
		return s[:i] + string([]byte{byte(g.Intn(256))}) + s[i+1:]
	case 4:
		return s[:i] + g.pick("..", ".", "[", "]", "(", ")", ",", ":", "?", "?(", "*", "$", "@", "'", "-", "&", "|", "=", "~", "/", " ", g.op(), g.leaf(), g.id()) + s[i:]
	}
	j := i + g.Intn(len(s)-i)
	return s + s[i:j]
}

func TestVerifBounded(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, _ := strconv.ParseFloat(os.Getenv("VERIF_SECS"), 64)
	g := vGen{rand.New(rand.NewSource(seed))}
	stop := time.Now().Add(time.Duration(secs * float64(time.Second)))
	var samples []string
	ok := 0
	for i := 0; time.Now().Before(stop) || i < 3000; i++ {
		var s string
		expr := i%2 == 0
		switch {
		case vProp == "C16" && i%4 < 3:
			lit := g.pick(g.str(), g.str(), g.digits(), "-"+g.sp()+g.digits(), g.real(), g.re(), g.id())
			if expr {
				s = lit
			} else {
				s = "$[" + lit + "]"
			}
		case vProp == "C15" && i%4 < 3:
			expr, s = true, g.expr(5)
		case vProp == "C19" && i%4 < 3:
			expr, s = false, g.path()
		case expr:
			s = g.expr(4)
		default:
			s = g.path()
		}
		for g.Intn(4) == 0 {
			s = g.damage(s)
		}
		if vCheck(t, expr, s) {
			ok++
		}
		if len(samples) < 3 && i > 100 {
			samples = append(samples, strconv.QuoteToASCII(s))
		}
	}
	// every prefix of a few texts that hold every kind of token
	for _, s := range []string{`$..['a\u00e9\ud83d\ude00',"b\n"].c[-1:(@.length-1):2][?(@.a=~/x\/y/&&!(@.b in [1,2.5e-3,'z'])||$.k nin null)]..(1+2)..*.4`} {
		for i := range s {
			vCheck(t, false, s[:i])
			vCheck(t, true, s[i:])
			vCheck(t, false, s[:i]+s[i+1:])
		}
	}
	rep := map[string]interface{}{"evaluations": vN, "distinct_nontrivial": len(vDiff), "accepted": ok, "samples": samples}
	b, _ := json.Marshal(rep)
	fmt.Printf("VERIFSTATS %s\n", b)
}
