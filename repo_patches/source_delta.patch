From 39dc2b087128a766a096ab7c29383c4a2a37c96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:06 +0000
Subject: [PATCH 01/29] fix: MapModel.Key reports whether the key exists

A missing key was reported as present with a nil value, so $.missing
selected a null.
---
 docmodel.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/docmodel.go b/docmodel.go
index 8776056..7155418 100644
--- a/docmodel.go
+++ b/docmodel.go
@@ -62,7 +62,8 @@ func (MapModel) Key(in any, key string) (any, bool) {
 	if !ok {
 		return nil, false
 	}
-	return obj[key], true
+	value, ok := obj[key]
+	return value, ok
 }
 
 func (MapModel) Keys(in any) []string {
-- 
2.43.0


From 1cc54d733c09bfebe5891859f188a2a6e6c4d010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 02/29] fix: recursive descent reports value nodes once

The rest of the path was evaluated for a value node by its parent's
loop and then again when descending into it, so every leaf was reported
twice, and $..* selected a scalar root.
---
 path.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/path.go b/path.go
index 9033815..daf3ac2 100644
--- a/path.go
+++ b/path.go
@@ -183,9 +183,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 		node := ctx.path.Last().Node
 		switch ctx.doc.Type(node) {
 		case ValueNode:
-			if err := evaluateAt(ctx, path, pathIx+1, capture); err != nil {
-				return err
-			}
+			// Nothing below a value node
 		case ObjectNode:
 			for _, key := range ctx.doc.Keys(node) {
 				value, _ := ctx.doc.Key(node, key)
-- 
2.43.0


From 9eff8e28a23ae7668ba9bbb2c739b25cb04dca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 03/29] fix: a path ending with .. does not panic

The implied wildcard selector was added without its recursive flag, so
evaluating the path indexed past the end of the flags.
---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index a95c699..5a56617 100644
--- a/parser.go
+++ b/parser.go
@@ -131,7 +131,7 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 			return
 		}
 		path.selectors = append(path.selectors, wildcardSelector{})
-		path.recursive = append(path.recursive[:len(path.recursive)-1], true)
+		path.recursive = append(path.recursive[:len(path.recursive)-1], true, false)
 		return
 
 	case *parser.RecursiveDescentExpressionContext:
-- 
2.43.0


From 8eb75871bd7d4e2e3a9d22fc315da461bfbafca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 04/29] fix: ..[slice] selects among all descendants

$..[0:1] is parsed as ($..)[0:1], which became $..*[0:1] and left out
the elements of the root array.
---
 parser.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 5a56617..06074fa 100644
--- a/parser.go
+++ b/parser.go
@@ -151,7 +151,15 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 
 	case *parser.MemberIndexExpressionContext:
 		var left, right Path
-		if left, err = astPath(expr.Expression()); err != nil {
+		leftExpr := expr.Expression()
+		recursive := false
+		// The parser reads a..[x] as (a..)[x], but the brackets
+		// select among all the descendants of a
+		if descent, ok := leftExpr.(*parser.RecursiveDescentTermExpressionContext); ok {
+			leftExpr = descent.Expression()
+			recursive = true
+		}
+		if left, err = astPath(leftExpr); err != nil {
 			return
 		}
 		indexExprs := expr.AllIndexExpression()
@@ -160,7 +168,7 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 		}
 		// Combine paths
 		path.selectors = append(left.selectors, right.selectors...)
-		path.recursive = append(left.recursive[:len(left.recursive)-1], false)
+		path.recursive = append(left.recursive[:len(left.recursive)-1], recursive)
 		path.recursive = append(path.recursive, right.recursive...)
 		return
 
-- 
2.43.0


From 433af98c04da13acba4e61b93d37c89be268f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 05/29] fix: [start:end:] keeps its start

A slice with an empty step ignored its start index.
---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 06074fa..6277253 100644
--- a/parser.go
+++ b/parser.go
@@ -345,7 +345,7 @@ func astSlice(ctx *parser.SliceContext) (selector, error) {
 	}
 	if expressions[2] == nil {
 		return &rangeSelector{
-			start: exprValue{value: 0},
+			start: expressions[0],
 			end:   expressions[1],
 		}, nil
 	}
-- 
2.43.0


From 0054a5a273d1abcabf96c061dda2b920597196f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 06/29] fix: an index before the first element selects nothing

$[-5] selected the first element of an array with fewer than five
elements. The index selector also compared against the number of
children of the element instead of the length of its array.
---
 path.go  |  4 ++--
 slice.go | 31 +++++++++++++++++++++----------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/path.go b/path.go
index daf3ac2..a1446a3 100644
--- a/path.go
+++ b/path.go
@@ -313,7 +313,7 @@ func (sel *keySelector) match(ctx *context) bool {
 		if v := sel.intValue(ctx); v != nil {
 			if *v < 0 {
 				n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
-				*v = normalizeIndex(*v, n)
+				*v = elementIndex(*v, n)
 				if *v < 0 {
 					return false
 				}
@@ -341,7 +341,7 @@ func (sel *keySelector) selectChildNodes(ctx *context) (iterator, bool) {
 	if isArray(ctx.path) {
 		if v := sel.intValue(ctx); v != nil {
 			n := ctx.doc.Len(ctx.path.Last().Node)
-			index := normalizeIndex(*v, n)
+			index := elementIndex(*v, n)
 			if index < 0 {
 				return emptyIterator{}, true
 			}
diff --git a/slice.go b/slice.go
index f9d2d23..a491aca 100644
--- a/slice.go
+++ b/slice.go
@@ -35,6 +35,23 @@ func normalizeIndex(index any, len int) int {
 	return 0
 }
 
+// elementIndex returns the index of the array element selected by
+// index, which counts from the end of the array if it is negative. If
+// it is not an integer, or if it is before the first element, returns -1
+func elementIndex(index any, len int) int {
+	i, ok := valueAsInt(index)
+	if !ok {
+		return -1
+	}
+	if i < 0 {
+		i += len
+	}
+	if i < 0 {
+		return -1
+	}
+	return i
+}
+
 func (sel *indexSelector) match(ctx *context) bool {
 	if !isArrayElement(ctx.path) {
 		return false
@@ -43,16 +60,10 @@ func (sel *indexSelector) match(ctx *context) bool {
 	if err != nil {
 		return false
 	}
-	index, ok := valueAsInt(ivalue.value)
-	if !ok {
-		return false
-	}
+	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
+	index := elementIndex(ivalue.value, n)
 	if index < 0 {
-		n := ctx.doc.Len(ctx.path.Last().Node)
-		index := normalizeIndex(index, n)
-		if index < 0 {
-			return false
-		}
+		return false
 	}
 	return ctx.path.Last().Index == index
 }
@@ -66,7 +77,7 @@ func (sel *indexSelector) selectChildNodes(ctx *context) (children iterator, can
 	if err != nil {
 		return nil, false
 	}
-	index := normalizeIndex(ivalue.value, n)
+	index := elementIndex(ivalue.value, n)
 	if index < 0 {
 		return emptyIterator{}, true
 	}
-- 
2.43.0


From a08be0890186f1e32fe8c1bca3fdd49d5ba27f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 07/29] fix: slices with a negative step select elements

The selector iterated the elements from start down to end, but then
matched none of them because it only accepted start<=index<end.
---
 slice.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/slice.go b/slice.go
index a491aca..c2a7739 100644
--- a/slice.go
+++ b/slice.go
@@ -171,9 +171,6 @@ func (sel *sliceSelector) match(ctx *context) bool {
 		return false
 	}
 	index := ctx.path.Last().Index
-	if index < start || index >= end {
-		return false
-	}
 	var step int
 	if start < end {
 		step = 1
@@ -195,12 +192,12 @@ func (sel *sliceSelector) match(ctx *context) bool {
 		return false
 	}
 	if start < end {
-		if step < 0 {
+		if step < 0 || index < start || index >= end {
 			return false
 		}
 		return (index-start)%step == 0
 	}
-	if step > 0 {
+	if step > 0 || start >= n || index > start || index <= end {
 		return false
 	}
 	return (start-index)%(-step) == 0
-- 
2.43.0


From 6c1470ef0fd1a01993a664deb848dbd146be7b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 08/29] fix: a large slice step does not overflow the element
 index

$[1:3:9223372036854775807] wrapped around to a negative index, and
panicked.
---
 itr.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/itr.go b/itr.go
index aecccef..4f0fbcc 100644
--- a/itr.go
+++ b/itr.go
@@ -51,18 +51,19 @@ func (s *rangeIterator) next() bool {
 		return true
 
 	case 1: // iterating
-		s.at += s.step
 		if s.step > 0 {
-			if s.at >= s.to {
+			if s.step >= s.to-s.at {
 				s.state = 2
 				return false
 			}
+			s.at += s.step
 			return true
 		}
-		if s.at <= s.to {
+		if s.step <= s.to-s.at {
 			s.state = 2
 			return false
 		}
+		s.at += s.step
 		return true
 	}
 	return false
-- 
2.43.0


From ebbfdb6ff8b48fb9c31855c05e12a97b0ec152c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 09/29] fix: index expressions refer to the array, not to its
 elements

$[length(@)-2:] evaluated length(@) for the array to select the
elements, but then for every selected element to match it.
---
 expression.go | 10 ++++++++++
 path.go       |  2 +-
 slice.go      |  8 ++++----
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/expression.go b/expression.go
index b874fcd..c20900d 100644
--- a/expression.go
+++ b/expression.go
@@ -16,6 +16,16 @@ type context struct {
 	path DocPath
 }
 
+// parent returns a context for the parent of the current node
+func (ctx *context) parent() *context {
+	n := len(ctx.path.P) - 1
+	return &context{
+		doc: ctx.doc,
+		// Limit the capacity, so that evaluation does not overwrite the current node
+		path: DocPath{P: ctx.path.P[:n:n]},
+	}
+}
+
 type expression interface {
 	evaluate(*context) (exprValue, error)
 }
diff --git a/path.go b/path.go
index a1446a3..e12cc67 100644
--- a/path.go
+++ b/path.go
@@ -310,7 +310,7 @@ func (sel *keySelector) match(ctx *context) bool {
 		return ctx.path.Last().Name == sel.key
 	}
 	if isArrayElement(ctx.path) {
-		if v := sel.intValue(ctx); v != nil {
+		if v := sel.intValue(ctx.parent()); v != nil {
 			if *v < 0 {
 				n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
 				*v = elementIndex(*v, n)
diff --git a/slice.go b/slice.go
index c2a7739..93fb2da 100644
--- a/slice.go
+++ b/slice.go
@@ -56,7 +56,7 @@ func (sel *indexSelector) match(ctx *context) bool {
 	if !isArrayElement(ctx.path) {
 		return false
 	}
-	ivalue, err := sel.index.evaluate(ctx)
+	ivalue, err := sel.index.evaluate(ctx.parent())
 	if err != nil {
 		return false
 	}
@@ -127,7 +127,7 @@ func (sel *rangeSelector) match(ctx *context) bool {
 		return false
 	}
 	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
-	start, end := getRange(ctx, sel.start, sel.end, n)
+	start, end := getRange(ctx.parent(), sel.start, sel.end, n)
 	index := ctx.path.Last().Index
 	return index >= start && index < end
 }
@@ -166,7 +166,7 @@ func (sel *sliceSelector) match(ctx *context) bool {
 		return false
 	}
 	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
-	start, end := getRange(ctx, sel.start, sel.end, n)
+	start, end := getRange(ctx.parent(), sel.start, sel.end, n)
 	if start < 0 {
 		return false
 	}
@@ -178,7 +178,7 @@ func (sel *sliceSelector) match(ctx *context) bool {
 		step = -1
 	}
 	if sel.step != nil {
-		ivalue, err := sel.step.evaluate(ctx)
+		ivalue, err := sel.step.evaluate(ctx.parent())
 		if err != nil {
 			return false
 		}
-- 
2.43.0


From 18ca63358edd7aa1197798e4f6af99c0e3a638f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 10/29] fix: $ in an expression refers to the document root

$[?(@.key==$.value)] compared the current node with the root node to
decide if it is at the root. This panics if both are maps or slices,
and otherwise $.value selected nothing.
---
 expression.go | 9 +++++++++
 path.go       | 5 +----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/expression.go b/expression.go
index c20900d..dfda3f8 100644
--- a/expression.go
+++ b/expression.go
@@ -259,6 +259,15 @@ type pathExpression struct {
 
 func (expr pathExpression) evaluate(ctx *context) (exprValue, error) {
 	result := make([]any, 0)
+	if len(expr.path.selectors) > 0 {
+		if _, ok := expr.path.selectors[0].(rootElementSelector); ok {
+			// The path starts from the root, whatever the current node is
+			ctx = &context{
+				doc:  ctx.doc,
+				path: DocPath{P: ctx.path.P[:1:1]},
+			}
+		}
+	}
 	err := evaluateAt(ctx, expr.path, 0, func(item DocPath) {
 		result = append(result, item.Last().Node)
 	})
diff --git a/path.go b/path.go
index e12cc67..32ebc72 100644
--- a/path.go
+++ b/path.go
@@ -219,10 +219,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 type rootElementSelector struct{}
 
 func (rootElementSelector) match(ctx *context) bool {
-	if ctx.path.Len() == 1 {
-		return true
-	}
-	return ctx.path.Last().Node == ctx.doc.Root()
+	return ctx.path.Len() == 1
 }
 
 func (rootElementSelector) selectChildNodes(*context) (children iterator, canSelect bool) {
-- 
2.43.0


From 7ef6112abde2481e41292c53fffff93900c861d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 11/29] fix: a path that selects nothing is false in a filter

$[?(@.key)] selected all elements, with or without the key, because
neither an empty result nor a null node was false.
---
 expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index dfda3f8..d165223 100644
--- a/expression.go
+++ b/expression.go
@@ -109,7 +109,7 @@ func (c exprValue) asBool() bool {
 	if s, ok := value.(string); ok {
 		return len(s) != 0
 	}
-	return c.value != nil
+	return value != nil
 }
 
 func (c exprValue) getValue() any {
@@ -274,6 +274,9 @@ func (expr pathExpression) evaluate(ctx *context) (exprValue, error) {
 	if err != nil {
 		return exprValue{}, err
 	}
+	if len(result) == 0 {
+		return exprValue{}, nil
+	}
 	if len(result) == 1 {
 		return exprValue{value: nodeValue{
 			node: result[0],
-- 
2.43.0


From 24e56e599cafcec1e20e901c5cc63ea2f10bf501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:48 +0000
Subject: [PATCH 12/29] fix: an int does not equal a float with a fraction

1==1.5 was true because the float was truncated, but 1.5==1 was false.
---
 expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index d165223..1d3f5f1 100644
--- a/expression.go
+++ b/expression.go
@@ -188,7 +188,7 @@ func (expr equalityExpression) evaluate(ctx *context) (exprValue, error) {
 			return exprValue{value: i == j}, nil
 		}
 		if f, ok := rightValue.(float64); ok {
-			return exprValue{value: i == int(f)}, nil
+			return exprValue{value: float64(i) == f}, nil
 		}
 		return exprValue{value: false}, nil
 	}
-- 
2.43.0


From e70c38b09cf568d860287255d3602b08f0cb22e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:49 +0000
Subject: [PATCH 13/29] fix: an int is compared with a float without truncating
 it

1<1.5 was false, and 1>=1.5 was true. A NaN does not compare with
anything.
---
 expression.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/expression.go b/expression.go
index 1d3f5f1..d06a7af 100644
--- a/expression.go
+++ b/expression.go
@@ -330,6 +330,16 @@ func (expr lorExpression) evaluate(ctx *context) (exprValue, error) {
 	return exprValue{value: v.asBool()}, nil
 }
 
+func compareFloat(i, j float64) (int, bool, error) {
+	if i < j {
+		return -1, true, nil
+	}
+	if i > j {
+		return 1, true, nil
+	}
+	return 0, i == j, nil
+}
+
 // returns comparison result (-1,0,1), whether or not comparison is valid, and error
 func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 	l, err := left.evaluate(ctx)
@@ -354,10 +364,14 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 	}
 
 	if i, ok := lvalue.(int); ok {
-		j, ok := valueAsInt(rvalue)
-		if !ok {
+		n := valueAsNumber(rvalue)
+		if n == nil {
 			return 0, false, nil
 		}
+		j, ok := n.(int)
+		if !ok {
+			return compareFloat(float64(i), n.(float64))
+		}
 		if i < j {
 			return -1, true, nil
 		}
@@ -378,13 +392,7 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 		} else if f, ok := n.(int); ok {
 			j = float64(f)
 		}
-		if i < j {
-			return -1, true, nil
-		}
-		if i > j {
-			return 1, true, nil
-		}
-		return 0, true, nil
+		return compareFloat(i, j)
 	}
 
 	if i, ok := lvalue.(string); ok {
-- 
2.43.0


From 24246768af3f1d1778a5d1e6ff6ba59c51f8212e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 14/29] fix: unary minus negates the value of its operand

-@.key was always null, because the operand was not unwrapped.
---
 expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index d06a7af..f656e63 100644
--- a/expression.go
+++ b/expression.go
@@ -129,7 +129,7 @@ func (u unaryMinusExpression) evaluate(ctx *context) (exprValue, error) {
 	if err != nil {
 		return exprValue{}, err
 	}
-	num := valueAsNumber(c)
+	num := valueAsNumber(c.value)
 	if num == nil {
 		return exprValue{}, nil
 	}
-- 
2.43.0


From 8a4fc769f4330307ed8b3c72c078886e9eb50116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 15/29] fix: false is the number 0

true was converted to 1, but false was not a number.
---
 expression.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/expression.go b/expression.go
index f656e63..e638449 100644
--- a/expression.go
+++ b/expression.go
@@ -54,8 +54,11 @@ func valueAsNumber(value any) any {
 		return f
 	}
 	b, ok := value.(bool)
-	if ok && b {
-		return 1
+	if ok {
+		if b {
+			return 1
+		}
+		return 0
 	}
 	s, ok := value.(string)
 	if ok {
-- 
2.43.0


From f3e39634204af2035faa24bf04f63e50e0a8ace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 16/29] fix: null equals null

@.key==null selected nothing, and @.key!=null selected everything, while
@.key<=null was already true for a null.
---
 expression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expression.go b/expression.go
index e638449..f70c90a 100644
--- a/expression.go
+++ b/expression.go
@@ -186,6 +186,9 @@ func (expr equalityExpression) evaluate(ctx *context) (exprValue, error) {
 	leftValue := left.getValue()
 	rightValue := right.getValue()
 
+	if leftValue == nil || rightValue == nil {
+		return exprValue{value: leftValue == nil && rightValue == nil}, nil
+	}
 	if i, ok := leftValue.(int); ok {
 		if j, ok := rightValue.(int); ok {
 			return exprValue{value: i == j}, nil
@@ -232,6 +235,9 @@ func (expr equality3Expression) evaluate(ctx *context) (exprValue, error) {
 	}
 	leftValue := left.getValue()
 	rightValue := right.getValue()
+	if leftValue == nil || rightValue == nil {
+		return exprValue{value: leftValue == nil && rightValue == nil}, nil
+	}
 	if i, ok := leftValue.(int); ok {
 		if j, ok := rightValue.(int); ok {
 			return exprValue{value: i == j}, nil
-- 
2.43.0


From b6373a4b6a773add0c7c72783fc65ca24d905cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 17/29] fix: in compares the values of its operands

The left operand was compared with the elements as an exprValue, which
is never equal to any of them, and an array selected from the document
was compared as a single value.
---
 expression.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/expression.go b/expression.go
index f70c90a..7469077 100644
--- a/expression.go
+++ b/expression.go
@@ -678,12 +678,13 @@ func (expr inExpression) evaluate(ctx *context) (exprValue, error) {
 	if err != nil {
 		return exprValue{}, err
 	}
-	if r.value == nil {
+	right := r.getValue()
+	if right == nil {
 		return exprValue{}, err
 	}
-	arr, ok := r.value.([]any)
+	arr, ok := right.([]any)
 	if !ok {
-		arr = []any{r.value}
+		arr = []any{right}
 	}
 	for _, x := range arr {
 		var v any
@@ -692,7 +693,11 @@ func (expr inExpression) evaluate(ctx *context) (exprValue, error) {
 		} else {
 			v = x
 		}
-		if l == v {
+		eq, err := equalityExpression{left: l, right: exprValue{value: v}}.evaluate(ctx)
+		if err != nil {
+			return exprValue{}, err
+		}
+		if eq.asBool() {
 			return exprValue{value: true}, nil
 		}
 	}
-- 
2.43.0


From e91ee88f526a414ac5cdcd9df896ac36c4fcac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 18/29] fix: IndexSelectorPath selects array elements only

It also selected the key "" of an object.
---
 path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 32ebc72..12a13aa 100644
--- a/path.go
+++ b/path.go
@@ -64,7 +64,7 @@ func KeySelectorPath(key string) Path {
 // Returns a path that selects an index
 func IndexSelectorPath(index int) Path {
 	return Path{
-		selectors: []selector{&keySelector{expr: exprValue{value: index}}},
+		selectors: []selector{&indexSelector{index: exprValue{value: index}}},
 		recursive: []bool{false},
 	}
 }
-- 
2.43.0


From c37915eaab2820c45f2d1ab1bdb97f82163fef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 19/29] fix: the paths passed to the Search callback do not
 change later

All of them shared the array the search keeps modifying, so a path kept
by the callback ended up containing segments of other nodes.
---
 path.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 12a13aa..edac032 100644
--- a/path.go
+++ b/path.go
@@ -109,7 +109,10 @@ func Search(doc DocModel, path Path, capture func(DocPath)) error {
 	}
 	el.Type = doc.Type(el.Node)
 	ctx.path.P = append(ctx.path.P, el)
-	return evaluateAt(ctx, path, 0, capture)
+	return evaluateAt(ctx, path, 0, func(p DocPath) {
+		// The search keeps using its path, so capture gets a copy
+		capture(DocPath{P: append([]Segment(nil), p.P...)})
+	})
 }
 
 func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) error {
-- 
2.43.0


From 031975a79f2a4f7c2e501b29e50e66734a90cf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 20/29] fix: Parse reports syntax errors

The error listener was checked before parsing, and the errors of the
lexer were dropped, so malformed paths were compiled to some other path,
or panicked.
---
 parser.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/parser.go b/parser.go
index 6277253..c8f2d06 100644
--- a/parser.go
+++ b/parser.go
@@ -62,15 +62,18 @@ func (lst *errorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymb
 // as string literals (i.e. quoted.)
 
 func Parse(input string) (Path, error) {
-	pr := getParser(input)
-	pr.RemoveErrorListeners()
-	errListener := errorListener{}
-	pr.AddErrorListener(&errListener)
-	if errListener.err != nil {
-		return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
+	if input == "/" {
+		// Join without any parts
+		return SelectRootPath, nil
 	}
+	errListener := errorListener{}
+	pr := getParser(input, &errListener)
 	if len(input) > 0 && input[0] == '/' {
-		p, err := astSimplePath(pr.SimplePath().(*parser.SimplePathContext).SimplePathExpr())
+		c := pr.SimplePath()
+		if errListener.err != nil {
+			return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
+		}
+		p, err := astSimplePath(c.(*parser.SimplePathContext).SimplePathExpr())
 		if err != nil {
 			return p, err
 		}
@@ -78,18 +81,23 @@ func Parse(input string) (Path, error) {
 	}
 
 	c := pr.Path()
+	if errListener.err != nil {
+		return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
+	}
 	// Build a matcher from AST
 	return astPath(c.Expression())
 }
 
-// GetParser returns a parser that will parse the input string
-func getParser(input string) *parser.JsonpathParser {
+// GetParser returns a parser that will parse the input string, and
+// report errors to the listener
+func getParser(input string, errListener antlr.ErrorListener) *parser.JsonpathParser {
 	lexer := parser.NewJsonpathLexer(antlr.NewInputStream(input))
 	lexer.RemoveErrorListeners()
-	errListener := errorListener{}
-	lexer.AddErrorListener(&errListener)
+	lexer.AddErrorListener(errListener)
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := parser.NewJsonpathParser(stream)
+	p.RemoveErrorListeners()
+	p.AddErrorListener(errListener)
 	p.BuildParseTrees = true
 	return p
 }
-- 
2.43.0


From d3df3428bd3d5fcbd1b285ee4c4b99032f9928a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 21/29] fix: string literals keep all the characters they stand
 for

The escapes \\, \t, \0, and escaped ordinary characters were dropped,
\x80 and above became \x7f, \u{...} left its digits in the string, and
the rest of a line continuation was kept.
---
 expression.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/expression.go b/expression.go
index 7469077..7f77da2 100644
--- a/expression.go
+++ b/expression.go
@@ -1168,9 +1168,14 @@ var singleEscapeRunes = map[rune]rune{
 	'f':  '\f',
 	'n':  '\n',
 	'r':  '\r',
+	't':  '\t',
 	'v':  '\v',
+	'0':  0,
+	'\\': '\\',
 }
 
+const lineTerminators = "\n\r\u2028\u2029"
+
 func unescapeString(in string) string {
 	out := make([]rune, 0, len(in))
 	esc := false
@@ -1184,7 +1189,7 @@ func unescapeString(in string) string {
 				if len(buf) == 2 {
 					hex = false
 					esc = false
-					v, _ := strconv.ParseInt(string(buf), 16, 8)
+					v, _ := strconv.ParseInt(string(buf), 16, 32)
 					out = append(out, rune(v))
 					buf = nil
 				}
@@ -1192,13 +1197,11 @@ func unescapeString(in string) string {
 				buf = append(buf, r)
 				if len(buf) > 1 && buf[0] == '{' {
 					if r == '}' {
-						v, _ := strconv.ParseInt(string(buf[1:]), 16, 32)
+						v, _ := strconv.ParseInt(string(buf[1:len(buf)-1]), 16, 32)
 						out = append(out, rune(v))
 						buf = nil
 						uni = false
 						esc = false
-					} else {
-						out = append(out, r)
 					}
 				} else if len(buf) == 4 {
 					v, _ := strconv.ParseInt(string(buf), 16, 32)
@@ -1216,12 +1219,14 @@ func unescapeString(in string) string {
 			} else {
 				if x, ok := singleEscapeRunes[r]; ok {
 					out = append(out, x)
+				} else if strings.IndexRune(lineTerminators, r) == -1 {
+					out = append(out, r)
 				}
 				esc = false
 			}
 		} else if r == '\\' {
 			esc = true
-		} else {
+		} else if r != '\n' && r != '\r' { // These are only valid in a line continuation
 			out = append(out, r)
 		}
 	}
-- 
2.43.0


From b667a9bbbc94be91a4e9c803afeb192aa8996a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 22/29] fix: numbers with an upper case exponent or digit
 separators

1E3, 1_000, 0xff_ff, and 0o7_7 were all 0.
---
 expression.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/expression.go b/expression.go
index 7f77da2..ab656ae 100644
--- a/expression.go
+++ b/expression.go
@@ -1138,8 +1138,8 @@ func astLiteral(ctx *parser.LiteralContext) exprValue {
 
 func numericLiteral(ctx *parser.NumericLiteralContext) any {
 	if lit := ctx.DecimalLiteral(); lit != nil {
-		number := lit.GetText()
-		if strings.IndexRune(number, 'e') != -1 || strings.IndexRune(number, '.') != -1 {
+		number := strings.Replace(lit.GetText(), "_", "", -1)
+		if strings.IndexAny(number, "eE.") != -1 {
 			v, _ := strconv.ParseFloat(number, 64)
 			return float64(v)
 		}
@@ -1148,12 +1148,12 @@ func numericLiteral(ctx *parser.NumericLiteralContext) any {
 	}
 
 	if lit := ctx.HexIntegerLiteral(); lit != nil {
-		v, _ := strconv.ParseInt(lit.GetText()[2:], 16, 64)
+		v, _ := strconv.ParseInt(strings.Replace(lit.GetText()[2:], "_", "", -1), 16, 64)
 		return int(v)
 	}
 
 	if lit := ctx.OctalIntegerLiteral2(); lit != nil {
-		v, _ := strconv.ParseInt(lit.GetText()[2:], 8, 64)
+		v, _ := strconv.ParseInt(strings.Replace(lit.GetText()[2:], "_", "", -1), 8, 64)
 		return int(v)
 	}
 	lit := ctx.BinaryIntegerLiteral().GetText()[2:]
-- 
2.43.0


From d322aefc471de944bcb1a90c4805aca46d21bcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:37 +0000
Subject: [PATCH 23/29] fix: a literal in a simple path is a key as it is
 written

/null looked for the key <nil>, and /010 for the key 10.
---
 simplepath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplepath.go b/simplepath.go
index 312a806..56b3025 100644
--- a/simplepath.go
+++ b/simplepath.go
@@ -20,7 +20,7 @@ func astSimplePath(ctx parser.ISimplePathExprContext) (path Path, err error) {
 		}
 		path.selectors = []selector{
 			&keySelector{
-				key: v.String(),
+				key: lit.GetText(),
 			},
 		}
 		path.recursive = []bool{false}
-- 
2.43.0


From 30fecb8a44ef4c268823909c03adad4276691b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 24/29] fix: a path in an expression may continue after a
 recursive descent

$[?(@..a..b)], $[?(@..a.b)] and $[?(@..[0])] were reported as invalid
expressions.
---
 expression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expression.go b/expression.go
index ab656ae..b45cc4d 100644
--- a/expression.go
+++ b/expression.go
@@ -1116,6 +1116,14 @@ func astExpression(ctx parser.IExpressionContext, inPath bool) (expression, erro
 				if e := parse(c); e != nil {
 					return e, nil
 				}
+			case *parser.RecursiveDescentExpressionContext:
+				if e := parse(c); e != nil {
+					return e, nil
+				}
+			case *parser.RecursiveDescentTermExpressionContext:
+				if e := parse(c); e != nil {
+					return e, nil
+				}
 			}
 		}
 	}
-- 
2.43.0


From 9a74246eef4038972ea57492508a2c1e6d386df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 25/29] fix: MakeKeyString quotes every key that is not an
 identifier

Keys with characters such as . or @, and the keys "", $ and in, were not
quoted, so the path addressed something else. Backslashes and line
terminators were not escaped.
---
 escape.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/escape.go b/escape.go
index 7574379..15e5ae3 100644
--- a/escape.go
+++ b/escape.go
@@ -5,20 +5,28 @@ import (
 	"unicode"
 )
 
-const acceptableChars = "_*$.,@!~#%^"
+const acceptableChars = "_$"
+
+// Escapes the characters a string literal cannot contain
+var keyEscaper = strings.NewReplacer("\\", "\\\\", "\n", "\\n", "\r", "\\r")
 
 // MakeKeyString quotes or escapes the input string if necessary to be
 // used in a path expression
 func MakeKeyString(input string) string {
+	if input == "*" {
+		// Wildcard
+		return input
+	}
 	// If input has all digits, letters, and _, no need for escape or
-	// quote
-	bad := false
+	// quote, unless it is a symbol of the path syntax. The grammar may
+	// not know all the letters outside ASCII
+	bad := input == "" || input == "$" || input == "in"
 	for i, r := range input {
 		if i == 0 && unicode.IsDigit(r) {
 			bad = true
 			break
 		}
-		if !unicode.IsDigit(r) && !unicode.IsLetter(r) && strings.IndexRune(acceptableChars, r) == -1 {
+		if r > unicode.MaxASCII || !unicode.IsDigit(r) && !unicode.IsLetter(r) && strings.IndexRune(acceptableChars, r) == -1 {
 			bad = true
 			break
 		}
@@ -27,6 +35,7 @@ func MakeKeyString(input string) string {
 		return input
 	}
 
+	input = keyEscaper.Replace(input)
 	// Does it have double-quote?
 	if strings.IndexRune(input, '"') != -1 {
 		if strings.IndexRune(input, '\'') != -1 {
-- 
2.43.0


From b84ac261a0f0e9e474cd615873476c2b23629d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 26/29] fix: RecursiveDescent accepts an empty path

It panicked for the path that selects nothing.
---
 path.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/path.go b/path.go
index edac032..d5a81ed 100644
--- a/path.go
+++ b/path.go
@@ -49,7 +49,9 @@ func RecursiveDescent(p Path) Path {
 		recursive: make([]bool, len(p.recursive)),
 	}
 	copy(ret.recursive, p.recursive)
-	ret.recursive[len(ret.recursive)-1] = true
+	if len(ret.recursive) > 0 {
+		ret.recursive[len(ret.recursive)-1] = true
+	}
 	return ret
 }
 
-- 
2.43.0


From 7606e724be5bf8c645a7728a7f0b493268492789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 27/29] fix: a slice bound whose evaluation fails selects
 nothing

---
 slice.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/slice.go b/slice.go
index 93fb2da..496faac 100644
--- a/slice.go
+++ b/slice.go
@@ -103,7 +103,10 @@ type rangeSelector struct {
 func getRange(ctx *context, start, end expression, len int) (from, to int) {
 	var s int
 	if start != nil {
-		ivalue, _ := start.evaluate(ctx)
+		ivalue, err := start.evaluate(ctx)
+		if err != nil {
+			return -1, -1
+		}
 		s = normalizeIndex(ivalue.value, len)
 	}
 	if s < 0 {
@@ -111,7 +114,10 @@ func getRange(ctx *context, start, end expression, len int) (from, to int) {
 	}
 	var e int
 	if end != nil {
-		ivalue, _ := end.evaluate(ctx)
+		ivalue, err := end.evaluate(ctx)
+		if err != nil {
+			return -1, -1
+		}
 		e = normalizeIndex(ivalue.value, len)
 	} else {
 		e = len
-- 
2.43.0


From 726bffcdb883468fffe643e0e4a98ed549b2b948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 28/29] fix: report slices with two adjacent expressions as
 errors

[1:3'5'] was compiled to [1:'5']
---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index c8f2d06..d11d402 100644
--- a/parser.go
+++ b/parser.go
@@ -333,6 +333,10 @@ func astSlice(ctx *parser.SliceContext) (selector, error) {
 				index++
 			}
 		} else if expr, ok := ch.(parser.IExpressionContext); ok {
+			if expressions[index] != nil {
+				// Two expressions without ':' between them
+				return nil, ErrInvalidExpression(ctx.GetText())
+			}
 			var err error
 			expressions[index], err = astExpression(expr, false)
 			if err != nil {
-- 
2.43.0


From 3f6ae95a13d7a268141116ee215db714feb76f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 29/29] fix: report relative paths starting with a name in
 expressions as errors

?($abc.x.y) was compiled to a path evaluated from the current node, while
?($abc.x) and ?(abc.x.y) are errors
---
 expression.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/expression.go b/expression.go
index b45cc4d..0c946ad 100644
--- a/expression.go
+++ b/expression.go
@@ -720,6 +720,16 @@ func isPathExpression(ctx parser.IExpressionContext) bool {
 	return false
 }
 
+// Determines if the path starts from the root or from the current
+// node. It may also start with a name, such as $name
+func isAnchored(path Path) bool {
+	switch path.selectors[0].(type) {
+	case rootElementSelector, currentElementSelector:
+		return true
+	}
+	return false
+}
+
 type methodCallExpression struct {
 	receiver expression
 	name     string
@@ -1093,7 +1103,7 @@ func astExpression(ctx parser.IExpressionContext, inPath bool) (expression, erro
 			parse := func(c interface{ GetText() string }) expression {
 				tok := c.GetText()
 				if strings.HasPrefix(tok, "@") || strings.HasPrefix(tok, "$") {
-					if p, err := astPath(ctx); err == nil {
+					if p, err := astPath(ctx); err == nil && isAnchored(p) {
 						return pathExpression{path: p}
 					}
 				}
@@ -1271,7 +1281,7 @@ func astArgumentExpression(ctx *parser.ArgumentsExpressionContext) (expression,
 			return nil, err
 		}
 		// Last component of path is method
-		if len(path.selectors) < 2 {
+		if len(path.selectors) < 2 || !isAnchored(path) {
 			return nil, ErrInvalidAST
 		}
 		if key, ok := path.selectors[len(path.selectors)-1].(*keySelector); ok {
-- 
2.43.0

