From dae695ad7d7764d769de91699601490a8be37bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:01 +0000
Subject: [PATCH 01/13] fix: slicing a non-array must not discard the values
 already selected

---
 mach/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mach/run.go b/mach/run.go
index 1a1d3e7..b99d69a 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -717,7 +717,7 @@ func valsByKey(vals []JSON, src JSON, key JSON, negIndex bool) []JSON {
 	if isSlice(key) {
 		src, ok := src.([]JSON)
 		if !ok {
-			return nil
+			return vals
 		}
 		slice := key.(*paths.Slice)
 		start, end, stride := sliceEval(slice, int64(len(src)))
-- 
2.43.0


From ddfd5e8b0ce0389f354e2383f86f028aab263af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:01 +0000
Subject: [PATCH 02/13] fix: a very large slice stride overflowed the index and
 caused a panic

---
 mach/run.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index b99d69a..c21a848 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -552,6 +552,10 @@ func sliceEval(slice *paths.Slice, l int64) (int64, int64, int64) {
 	stride := int64(1)
 	if slice.Stride != nil {
 		stride = cvi(slice.Stride)
+		if stride > l {
+			// steps beyond the end; the limit prevents overflow when stepping
+			stride = l + 1
+		}
 	}
 	start := int64(0)
 	end := int64(l)
-- 
2.43.0


From 91b2277ce43b39db9ccd79863d67db97fc83baf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:01 +0000
Subject: [PATCH 03/13] fix: a filter or recursive step with no candidates was
 applied once to null

---
 mach/run.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mach/run.go b/mach/run.go
index c21a848..7a178a2 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -542,7 +542,14 @@ func looptop(vm *machine, producer func(chan<- JSON, []JSON), epc int) {
 	vm.pushInput(values)
 	go producer(values, vm.out)
 	vm.out = []JSON{}
-	vm.dot = <-values
+	js, more := <-values
+	if !more {
+		// no values to consider, so don't enter the loop
+		vm.popInput()
+		vm.branch(epc)
+		return
+	}
+	vm.dot = js
 }
 
 // sliceEval returns an interpretation of the given Slice with respect to an array of length l.
-- 
2.43.0


From 05126c9f093e048ee13322015f1e1f1ec2441284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:01 +0000
Subject: [PATCH 04/13] fix: max of strings returned the minimum

---
 mach/fns.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mach/fns.go b/mach/fns.go
index 21280ba..03542b0 100644
--- a/mach/fns.go
+++ b/mach/fns.go
@@ -350,7 +350,7 @@ func minString(index int, min, el string) string {
 }
 
 func maxString(index int, max, el string) string {
-	if index == 0 || el < max {
+	if index == 0 || el > max {
 		return el
 	}
 	return max
-- 
2.43.0


From 4e2160b67ffeca3ed6ad5e83befac34dd404049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:01 +0000
Subject: [PATCH 05/13] fix: objects with different keys could compare equal

---
 mach/json.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mach/json.go b/mach/json.go
index 42740c6..0ff8169 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -247,7 +247,8 @@ func eqVal(a, b JSON) bool {
 				return false
 			}
 			for k, v := range a {
-				if !eqVal(v, b[k]) {
+				bv, ok := b[k]
+				if !ok || !eqVal(v, bv) {
 					return false
 				}
 			}
-- 
2.43.0


From 496479304593e50d7fcd3ac92adc5c7fc9ed7900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 06/13] fix: an unclosed string ending in an escaped quote was
 accepted

---
 paths/lex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paths/lex.go b/paths/lex.go
index aebc49f..37de6d9 100644
--- a/paths/lex.go
+++ b/paths/lex.go
@@ -200,7 +200,9 @@ func (l *lexer) lexString(cq int) (string, error) {
 				}
 				s.WriteRune(rv)
 			}
-			r.unget()
+			if c != eof {
+				r.unget()
+			}
 			if surr != 0 {
 				// surrogate prefix without successor
 				s.WriteRune(unicode.ReplacementChar)
-- 
2.43.0


From dc8187fd7161362752fc9a4caf0a420592644769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 07/13] fix: a surrogate pair escape was lost following an
 unpaired surrogate

---
 paths/lex.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paths/lex.go b/paths/lex.go
index 37de6d9..699d11d 100644
--- a/paths/lex.go
+++ b/paths/lex.go
@@ -193,8 +193,10 @@ func (l *lexer) lexString(cq int) (string, error) {
 						// consume surrogate and its pair
 						continue
 					}
-					// invalid surrogate pair: already produced ReplacementChar
-				} else if utf16.IsSurrogate(rv) {
+					// invalid surrogate pair: already produced ReplacementChar,
+					// but rv might itself start a pair
+				}
+				if utf16.IsSurrogate(rv) {
 					surr = rv
 					continue
 				}
-- 
2.43.0


From 6b4883a7362d04594457c88b623ff83719c3dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:51 +0000
Subject: [PATCH 08/13] fix: a run-time error in a loop left its producer
 goroutine blocked forever

---
 mach/run.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index 7a178a2..9341298 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -89,6 +89,14 @@ func (m *machine) popInput() {
 	m.values = m.values[0 : len(m.values)-1]
 }
 
+// drain discards values not yet considered, following an error, so their producer can exit.
+func (m *machine) drain() {
+	for _, c := range m.values {
+		for range c {
+		}
+	}
+}
+
 // nothing represents an evaluation without a usable result.
 // Any error will do.
 // ("nothing is better than Advil")
@@ -125,6 +133,7 @@ func (m *machine) valsOK(a, b JSON) bool {
 // Following the usual JavaScript conventions, many other errors do not stop evaluation, but yield a null result, detectable using || and &&.
 func (p *Program) Run(root JSON) ([]JSON, error) {
 	vm := &machine{prog: p, root: root, out: []JSON{root}, pc: 0, tracing: false}
+	defer vm.drain()
 	for vm.pc < len(p.orders) {
 		ord := p.orders[vm.pc]
 		vm.pc++
-- 
2.43.0


From 828b77c139162211c86ea46273e94656e709fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 09/13] fix: in an expression, array[key] for a non-numeric key
 yielded element 0

---
 mach/run.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/mach/run.go b/mach/run.go
index 9341298..fe2838b 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"math"
 	"regexp"
+	"strconv"
 	"unicode/utf8"
 
 	"github.com/forsyth/jsonpath/paths"
@@ -299,7 +300,11 @@ func (p *Program) Run(root JSON) ([]JSON, error) {
 			}
 			switch val := val.(type) {
 			case []JSON:
-				sel := cvi(index) // can be only int, or convertible
+				sel, ok := arrayIndex(index)
+				if !ok {
+					vm.push(nothing)
+					break
+				}
 				l := int64(len(val))
 				if sel < 0 {
 					// index from end: not JavaScript but path/filter convention
@@ -792,6 +797,19 @@ func mapKey(key JSON) string {
 	}
 }
 
+// arrayIndex returns the array index given by v, which can be only a number, or a string containing an integer.
+func arrayIndex(v JSON) (int64, bool) {
+	switch v := v.(type) {
+	case int, int64, float64:
+		return cvi(v), true
+	case string:
+		n, err := strconv.ParseInt(v, 10, 64)
+		return n, err == nil
+	default:
+		return 0, false
+	}
+}
+
 func valByKey(src JSON, key JSON, negIndex bool) (JSON, bool) {
 	//fmt.Printf("%#v %s\n", src, key)
 	switch src := src.(type) {
-- 
2.43.0


From 3025393e47781fba8a74602daece6d768cfb17bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 10/13] fix: an operand count or branch beyond the limit of an
 order was truncated

---
 mach/coder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mach/coder.go b/mach/coder.go
index 327e308..ae9a731 100644
--- a/mach/coder.go
+++ b/mach/coder.go
@@ -9,6 +9,7 @@ import (
 
 var (
 	ErrTooManyVals = errors.New("program has too many values")
+	ErrTooBig      = errors.New("program is too big")
 )
 
 // builder is the state when building a program
@@ -49,6 +50,10 @@ func Compile(path paths.Path) (*Program, error) {
 			}
 		}
 	}
+	if !isSmallInt(int64(prog.size())) {
+		// operand counts and branch targets might not fit in an order
+		return nil, ErrTooBig
+	}
 	return prog, nil
 }
 
-- 
2.43.0


From 98d9cf31acd7e7e613b588e9bdf52242a9d4eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 11/13] fix: an array with a single non-numeric element could
 equal a number

---
 mach/json.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mach/json.go b/mach/json.go
index 0ff8169..60da35e 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -108,7 +108,10 @@ func eqArrayN(a []JSON, b JSON) bool {
 	case 0:
 		return eqNum(b, 0.0)
 	case 1:
-		return eqNum(a[0], b)
+		if a[0] == nil {
+			return eqNum(b, 0.0)
+		}
+		return eqVal(a[0], b)
 	default:
 		return false
 	}
@@ -186,13 +189,11 @@ func eqVal(a, b JSON) bool {
 		case Object<<8 | Boolean:
 			// 11.9.3(6) [a == ToNumber(b)]
 			a, ok := a.([]JSON)
-			b := cvi(b)
-			return ok && (b == 0 && len(a) == 0 || len(a) == 1 && cvi(a[0]) == b)
+			return ok && eqArrayN(a, cvi(b))
 		case Boolean<<8 | Object:
 			// 11.9.3(7) [ToNumber(a) == b]
 			b, ok := b.([]JSON)
-			a := cvi(a)
-			return ok && (a == 0 && len(b) == 0 || len(b) == 1 && cvi(b[0]) == a)
+			return ok && eqArrayN(b, cvi(a))
 		case String<<8 | Object, Object<<8 | String:
 			// 11.9.3(8), 11.9.3(9)
 			// note only one can be an Object, and only when that's an array can == be true
-- 
2.43.0


From 5f79db1f95f56a30c2a55ccacc1ce48cf141a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:08 +0000
Subject: [PATCH 12/13] fix: jpath ignored a failure to write its output

---
 cmd/jpath/jpath.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/jpath/jpath.go b/cmd/jpath/jpath.go
index 601cd9e..0ac4d1b 100644
--- a/cmd/jpath/jpath.go
+++ b/cmd/jpath/jpath.go
@@ -24,7 +24,6 @@ func main() {
 		os.Exit(2)
 	}
 	stdout = bufio.NewWriter(os.Stdout)
-	defer stdout.Flush()
 	jexp := flag.Arg(0)
 	jpath, err := jsonpath.Compile(jexp)
 	if err != nil {
@@ -57,6 +56,10 @@ func main() {
 			errorf("%s", err.Error())
 		}
 	}
+	err = stdout.Flush()
+	if err != nil {
+		errorf("write error: %s", err.Error())
+	}
 }
 
 func quote(s string) string {
-- 
2.43.0


From 357492a324371e7ace1499ffac088ffb02a9b29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:38 +0000
Subject: [PATCH 13/13] fix: a real number in a string compared equal to
 integer 0, not its own value

---
 mach/json.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mach/json.go b/mach/json.go
index 60da35e..e88f173 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -135,9 +135,19 @@ func badNum(s string, fp bool) bool {
 	return false
 }
 
+// isRealString returns true if v is a string that doesn't represent an integer, and so can be compared only as floating-point.
+func isRealString(v JSON) bool {
+	s, ok := v.(string)
+	if !ok || s == "" {
+		return false
+	}
+	_, err := strconv.ParseInt(s, 10, 64)
+	return err != nil
+}
+
 // eqNum returns true if numeric values a and b are equal
 func eqNum(a, b JSON) bool {
-	if isFloat(a) || isFloat(b) {
+	if isFloat(a) || isFloat(b) || isRealString(a) || isRealString(b) {
 		var zero float64
 		va := cvf(a)
 		vb := cvf(b)
-- 
2.43.0

