From 8a5f63d8b3703601a02876701db7e22a5bb685ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 01/72] fix: cancel the query when its truth value is known

The truth value of a stored query is decided by its first row. Returning
without cancelling left the goroutines of the query blocked forever.
---
 protocols/stored_query.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protocols/stored_query.go b/protocols/stored_query.go
index 3d7c933..16de0a6 100644
--- a/protocols/stored_query.go
+++ b/protocols/stored_query.go
@@ -60,7 +60,10 @@ func (self _StoredQueryBool) Bool(ctx context.Context, scope types.Scope, a type
 		new_scope := scope.Copy()
 		defer new_scope.Close()
 
-		from_chan := stored_query.Eval(ctx, new_scope)
+		sub_ctx, cancel := context.WithCancel(ctx)
+		defer cancel()
+
+		from_chan := stored_query.Eval(sub_ctx, new_scope)
 		for {
 			// As soon as a single result is returned we
 			// can cancel the query.
-- 
2.43.0


From 76e9944d088a1967a9009f3c1e528f628dba21cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 02/72] fix: string repetition and division are total

'x' * -1 panicked in strings.Repeat, huge counts overflowed the memory
check, 0 / 0.5 gave NULL because the dividend was checked rather than the
divisor, and a lazy divisor was not reduced.
---
 protocols/protocol_div.go |  3 ++-
 protocols/protocol_mul.go | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/protocols/protocol_div.go b/protocols/protocol_div.go
index 71c493c..69dcd84 100644
--- a/protocols/protocol_div.go
+++ b/protocols/protocol_div.go
@@ -22,6 +22,7 @@ func (self DivDispatcher) Copy() DivDispatcher {
 
 func (self DivDispatcher) Div(scope types.Scope, a types.Any, b types.Any) types.Any {
 	a = maybeReduce(a)
+	b = maybeReduce(b)
 
 	switch t := a.(type) {
 	case types.Null, *types.Null, nil:
@@ -44,7 +45,7 @@ func (self DivDispatcher) Div(scope types.Scope, a types.Any, b types.Any) types
 	case float64:
 		a_float, ok := utils.ToFloat(a)
 		if ok {
-			if a_float == 0 {
+			if t == 0 {
 				return &types.Null{}
 			}
 			return a_float / t
diff --git a/protocols/protocol_mul.go b/protocols/protocol_mul.go
index be4d3f1..f152550 100644
--- a/protocols/protocol_mul.go
+++ b/protocols/protocol_mul.go
@@ -34,10 +34,12 @@ func (self MulDispatcher) Mul(scope types.Scope, a types.Any, b types.Any) types
 		b_int, ok := utils.ToInt64(b)
 		if ok {
 			// Estimate how much memory we will use when duplicating the string
-			memory := uint64(len(t)) * uint64(b_int)
-			if memory > 100000000 { // 100mb
-				scope.Log("Multiply Str x Int exceeded memory limits. Len Str %v * Count %v = %v",
-					len(t), int(b_int), memory)
+			if b_int < 0 {
+				return &types.Null{}
+			}
+			if len(t) > 0 && b_int > 100000000/int64(len(t)) { // 100mb
+				scope.Log("Multiply Str x Int exceeded memory limits. Len Str %v * Count %v",
+					len(t), b_int)
 				return &types.Null{}
 			}
 			return strings.Repeat(t, int(b_int))
-- 
2.43.0


From ae95c020d1e911c623ca300f2324db27d438dec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 03/72] fix: comparisons are consistent for all number
 representations

'x' > 1 and 'x' < 1 were both true, true > 0 was false while 0 < true was
true, equality was not symmetric for booleans, times and nil values, and
numbers held as uint, float32, uint64 above 2^63 or behind pointers were
not treated as numbers by the operators.
---
 protocols/common.go      | 61 +++++++++++++++++++++++++++++++++++++++-
 protocols/protocol_eq.go | 26 ++++++++---------
 protocols/protocol_gt.go | 19 ++-----------
 protocols/protocol_lt.go | 15 +---------
 4 files changed, 77 insertions(+), 44 deletions(-)

diff --git a/protocols/common.go b/protocols/common.go
index 2421e4b..f9632af 100644
--- a/protocols/common.go
+++ b/protocols/common.go
@@ -2,14 +2,73 @@ package protocols
 
 import (
 	"context"
+	"math"
+	"reflect"
+	"time"
 
+	"github.com/Velocidex/ordereddict"
 	"www.velocidex.com/golang/vfilter/types"
+	"www.velocidex.com/golang/vfilter/utils"
 )
 
 func maybeReduce(a types.Any) types.Any {
 	lazy_expr, ok := a.(types.LazyExpr)
 	if ok {
-		return lazy_expr.Reduce(context.Background())
+		a = lazy_expr.Reduce(context.Background())
+	}
+	return normalize(a)
+}
+
+// Operators dispatch on the common representations of values. Convert
+// the less common ones to these: numbers of any width, pointers to
+// numbers and nil pointers (which are NULL).
+func normalize(a types.Any) types.Any {
+	switch t := a.(type) {
+	case uint:
+		return normalize(uint64(t))
+
+	case uint64:
+		// Can not be represented as an int64.
+		if t > math.MaxInt64 {
+			return float64(t)
+		}
+
+	case float32:
+		return float64(t)
+
+	case *int, *int8, *int16, *int32, *int64,
+		*uint, *uint8, *uint16, *uint32, *uint64,
+		*float32, *float64:
+		value := reflect.ValueOf(a)
+		if value.IsNil() {
+			return types.Null{}
+		}
+		return normalize(value.Elem().Interface())
+
+	case *string:
+		if t == nil {
+			return types.Null{}
+		}
+
+	case *time.Time:
+		if t == nil {
+			return types.Null{}
+		}
+
+	case *ordereddict.Dict:
+		if t == nil {
+			return types.Null{}
+		}
 	}
 	return a
 }
+
+// Is it one of the representations of numbers that operators dispatch
+// on (after normalization)?
+func isNumber(a types.Any) bool {
+	switch a.(type) {
+	case float64:
+		return true
+	}
+	return utils.IsInt(a)
+}
diff --git a/protocols/protocol_eq.go b/protocols/protocol_eq.go
index c1b2625..eea9c8e 100644
--- a/protocols/protocol_eq.go
+++ b/protocols/protocol_eq.go
@@ -37,18 +37,12 @@ func (self EqDispatcher) Eq(scope types.Scope, a types.Any, b types.Any) bool {
 			return t == rhs
 		}
 
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
 		lhs, ok := utils.ToInt64(a)
-		if ok {
+		if ok && isNumber(b) {
 			return intEq(lhs, b)
 		}
 
-	case bool:
-		rhs, ok := b.(bool)
-		if ok {
-			return t == rhs
-		}
-
 	case float64:
 		rhs, ok := utils.ToFloat(b)
 		if ok {
@@ -68,11 +62,12 @@ func (self EqDispatcher) Eq(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 	}
 
-	lhs, ok := utils.ToInt64(a)
-	if ok {
-		rhs, ok := utils.ToInt64(b)
-		if ok {
-			return lhs == rhs
+	// Equality is symmetric.
+	if isTime(b) {
+		lhs, ok := toTime(a)
+		rhs, rhs_ok := toTime(b)
+		if ok && rhs_ok {
+			return lhs.UnixNano() == rhs.UnixNano()
 		}
 	}
 
@@ -87,6 +82,11 @@ func (self EqDispatcher) Eq(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 	}
 
+	// Nil values of any type are NULL.
+	if types.IsNil(b) {
+		return types.IsNil(a)
+	}
+
 	scope.Trace("Protocol Equal not found for %v (%T) and %v (%T)",
 		a, a, b, b)
 	return false
diff --git a/protocols/protocol_gt.go b/protocols/protocol_gt.go
index 3842304..e9a92c9 100644
--- a/protocols/protocol_gt.go
+++ b/protocols/protocol_gt.go
@@ -24,7 +24,7 @@ func (self GtDispatcher) Copy() GtDispatcher {
 
 func intGt(lhs int64, b types.Any) bool {
 	switch b.(type) {
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
 		rhs, _ := utils.ToInt64(b)
 		return lhs > rhs
 	case float64, float32:
@@ -58,7 +58,7 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 
 		// If it is integer like, coerce to int.
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
 		if isTime(b) {
 			lhs, ok := utils.ToInt64(t)
 			if ok {
@@ -70,7 +70,7 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 
 		lhs, ok := utils.ToInt64(t)
-		if ok {
+		if ok && isNumber(b) {
 			return intGt(lhs, b)
 		}
 
@@ -103,19 +103,6 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 			return lhs > t
 		}
 
-		// If it is integer like, coerce to int.
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
-		rhs, ok := utils.ToInt64(t)
-		if ok {
-			if intLt(rhs, a) {
-				return false
-			}
-			if intEq(rhs, a) {
-				return false
-			}
-			return true
-		}
-
 	case float64:
 		lhs, ok := utils.ToFloat(a)
 		if ok {
diff --git a/protocols/protocol_lt.go b/protocols/protocol_lt.go
index 5123161..929e21b 100644
--- a/protocols/protocol_lt.go
+++ b/protocols/protocol_lt.go
@@ -84,7 +84,7 @@ func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
 			}
 		}
 		lhs, ok := utils.ToInt64(t)
-		if ok {
+		if ok && isNumber(b) {
 			return intLt(lhs, b)
 		}
 
@@ -111,19 +111,6 @@ func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
 	case types.Null, *types.Null, nil:
 		return false
 
-		// If it is integer like, coerce to int.
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
-		rhs, ok := utils.ToInt64(t)
-		if ok {
-			if intGt(rhs, a) {
-				return false
-			}
-			if intEq(rhs, a) {
-				return false
-			}
-			return true
-		}
-
 	case float64:
 		lhs, ok := utils.ToFloat(a)
 		if ok {
-- 
2.43.0


From a5227a373907b03615b1e457e092286440e0c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:42 +0000
Subject: [PATCH 04/72] fix: back quoted identifiers are taken verbatim

Unquote_ident interpreted escapes in the name, which SplitIdent does not,
so that names with a backslash differed between definition and use. For
text that only starts with a back quote it returned a mangled tail.
---
 utils/unquote.go | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/utils/unquote.go b/utils/unquote.go
index 2007877..f87868f 100644
--- a/utils/unquote.go
+++ b/utils/unquote.go
@@ -2,7 +2,6 @@ package utils
 
 import (
 	"errors"
-	"strconv"
 	"strings"
 )
 
@@ -106,28 +105,18 @@ outer:
 	return string(out[:j])
 }
 
-// Unquote a ` delimited string.
+// Unquote a ` delimited string. There are no escapes within back
+// quotes. Text which is not one quoted identifier is left as it is.
 func Unquote_ident(s string) string {
-	if s == "" {
-		return ""
-	}
-
-	quote := s[0]
-	if quote != '`' {
+	if len(s) < 2 || s[0] != '`' || s[len(s)-1] != '`' {
 		return s
 	}
 
-	s = s[1 : len(s)-1]
-	out := ""
-	for s != "" {
-		value, _, tail, err := strconv.UnquoteChar(s, quote)
-		if err != nil {
-			return s
-		}
-		s = tail
-		out += string(value)
+	name := s[1 : len(s)-1]
+	if strings.Contains(name, "`") {
+		return s
 	}
-	return out
+	return name
 }
 
 // Split an identifier to a list of components taking into account
-- 
2.43.0


From de601390d56ef064f7b4f4ef4f9d664f73f87239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:42 +0000
Subject: [PATCH 05/72] fix: evaluate a column once when it is listed twice

---
 lazy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lazy.go b/lazy.go
index 88da892..c955e45 100644
--- a/lazy.go
+++ b/lazy.go
@@ -106,6 +106,9 @@ func MaterializedLazyRow(ctx context.Context, row Row, scope types.Scope) *order
 			if !pres {
 				getter, _ := t.getters[column]
 				value = getter(ctx, scope)
+
+				// A column may be listed more than once.
+				t.cache.Set(column, value)
 			}
 
 			result.Set(column, value)
-- 
2.43.0


From 23025ec01d8b725addf971b4db395901ff53417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 06/72] fix: a negated symbol is negated each time it is
 evaluated

---
 vfilter.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index f64a583..1f06daf 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1737,13 +1737,11 @@ func (self *_SymbolRef) IsAggregate(scope types.Scope) bool {
 func (self *_SymbolRef) getFunction(scope types.Scope) (res types.Any, negated, pres bool) {
 
 	self.mu.Lock()
+	// A leading - is not part of the name (unless it is quoted).
+	negated = strings.HasPrefix(self.Symbol, "-")
 	components := self.split_symbol
 	if components == nil {
-		components = utils.SplitIdent(self.Symbol)
-		if len(components) > 0 && strings.HasPrefix(components[0], "-") {
-			negated = true
-			components[0] = strings.TrimPrefix(components[0], "-")
-		}
+		components = utils.SplitIdent(strings.TrimPrefix(self.Symbol, "-"))
 		self.split_symbol = components
 	}
 	self.mu.Unlock()
-- 
2.43.0


From d30d84fbca6ffaf1d9407e3a72e7528c76b159c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 07/72] fix: ORDER BY uses a strict weak order

DESC used !Lt, which makes equal rows less than each other, and NULL or
missing values were incomparable to numbers, so that the output was not
sorted. NULL now sorts first and equal rows keep their order.
---
 sort/sort.go | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/sort/sort.go b/sort/sort.go
index b9ed8ee..1a42497 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -29,7 +29,7 @@ func (self DefaultSorter) Sort(ctx context.Context,
 		// and dump it to the output chan.
 		defer func() {
 			// Sort ourselves
-			sort.Sort(sort_ctx)
+			sort.Stable(sort_ctx)
 
 			// Dump everything to the output.
 			for _, row := range sort_ctx.Items {
@@ -72,28 +72,24 @@ func (self *DefaultSorterCtx) Len() int {
 }
 
 func (self *DefaultSorterCtx) Less(i, j int) bool {
-	element1, pres1 := self.Scope.Associative(
+	if self.Desc {
+		i, j = j, i
+	}
+
+	element1, _ := self.Scope.Associative(
 		self.Items[i], self.OrderBy)
 
-	element2, pres2 := self.Scope.Associative(
+	element2, _ := self.Scope.Associative(
 		self.Items[j], self.OrderBy)
 
-	if !pres1 || !pres2 {
-		return false
-	}
-
-	// Sort NULL like an empty string because normally NULL
-	// comparisons are not stable.
+	// NULL and missing values sort before anything else because
+	// normally NULL comparisons are not stable.
 	if types.IsNil(element1) {
-		element1 = ""
+		return !types.IsNil(element2)
 	}
 
 	if types.IsNil(element2) {
-		element2 = ""
-	}
-
-	if self.Desc {
-		return !self.Scope.Lt(element1, element2)
+		return false
 	}
 
 	return self.Scope.Lt(element1, element2)
-- 
2.43.0


From 4886295c50c4eebe8de5a0051a4751358fdbf9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:26 +0000
Subject: [PATCH 08/72] fix: LIMIT 0 emits no rows

---
 vfilter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vfilter.go b/vfilter.go
index 1f06daf..0a99dd5 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -616,10 +616,15 @@ func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 	// Limits occur before the group by so we can cut the group by
 	// result short according to the limit clause.
 	if self.Limit != nil {
+		limit := int(*self.Limit)
+		if limit <= 0 {
+			close(output_chan)
+			return output_chan
+		}
+
 		go func() {
 			defer close(output_chan)
 
-			limit := int(*self.Limit)
 			count := 1
 
 			self_copy := *self
-- 
2.43.0


From 25c45e8727c4fcba134332322c6e4c44135ac040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 09/72] fix: feeding the sorter stops when the query is
 cancelled

---
 vfilter.go       | 6 +++++-
 vfilter_group.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 0a99dd5..61ac9a8 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -678,7 +678,11 @@ func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 			self_copy.OrderBy = nil
 
 			for row := range self_copy.Eval(ctx, scope) {
-				sorter_input_chan <- row
+				select {
+				case <-ctx.Done():
+					return
+				case sorter_input_chan <- row:
+				}
 			}
 		}()
 
diff --git a/vfilter_group.go b/vfilter_group.go
index 4912d39..f096444 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -114,7 +114,11 @@ func (self *_Select) EvalGroupBy(ctx context.Context, scope types.Scope) <-chan
 		self_copy.OrderBy = nil
 
 		for row := range grouper_output_chan {
-			sorter_input_chan <- row
+			select {
+			case <-ctx.Done():
+				return
+			case sorter_input_chan <- row:
+			}
 		}
 	}()
 
-- 
2.43.0


From 612111b46790c778a3ea8323eb30e5708dc21c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 10/72] fix: foreach does not block when cancelled or without
 workers

Handing a row to the worker pool blocked forever when the workers had
already left on cancellation, or when workers was negative.
---
 plugins/foreach.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/plugins/foreach.go b/plugins/foreach.go
index 6122d7a..e79e529 100644
--- a/plugins/foreach.go
+++ b/plugins/foreach.go
@@ -39,7 +39,7 @@ func (self _ForeachPluginImpl) Call(ctx context.Context,
 		}
 
 		// At least one worker
-		if arg.Workers == 0 {
+		if arg.Workers < 1 {
 			arg.Workers = 1
 		}
 
@@ -90,7 +90,7 @@ func (self _ForeachPluginImpl) Call(ctx context.Context,
 				// child_scope is closed in the pool worker.
 
 				child_scope.AppendVars(row_item)
-				pool.RunScope(child_scope)
+				pool.RunScope(ctx, child_scope)
 			}
 		}
 	}()
@@ -118,8 +118,13 @@ type workerPool struct {
 	output_chan chan types.Row
 }
 
-func (self *workerPool) RunScope(scope types.Scope) {
-	self.ch <- scope
+func (self *workerPool) RunScope(ctx context.Context, scope types.Scope) {
+	select {
+	case <-ctx.Done():
+		// The workers are gone.
+		scope.Close()
+	case self.ch <- scope:
+	}
 }
 
 func (self *workerPool) Close() {
-- 
2.43.0


From d6354415b0f9c666af154127d0124c281e279f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 11/72] fix: GROUP BY bins rows by value, not by printed form

Rows were binned by the printed form of the grouping value, which merged
1 with '1', NULL with 'NULL' and ('a b', 'c') with ('a', 'b c'), and
split 1000000 from 1e6.
---
 vfilter_group.go | 78 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 77 insertions(+), 1 deletion(-)

diff --git a/vfilter_group.go b/vfilter_group.go
index f096444..5e0527d 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -2,7 +2,12 @@ package vfilter
 
 import (
 	"context"
+	"fmt"
 	"io"
+	"reflect"
+	"sort"
+	"strconv"
+	"strings"
 
 	"github.com/Velocidex/ordereddict"
 	scope_module "www.velocidex.com/golang/vfilter/scope"
@@ -64,7 +69,7 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 
 		// Materialize the group by value as much as possible - we
 		// don't want a lazy item here.
-		gb_element := types.ToString(ctx, new_scope,
+		gb_element := groupKey(ctx, new_scope,
 			self.delegate.GroupBy.Reduce(ctx, new_scope))
 
 		closer()
@@ -81,6 +86,77 @@ func (self *GroupbyActor) MaterializeRow(ctx context.Context,
 	return MaterializedLazyRow(ctx, row, scope)
 }
 
+// Encode the group by value in a string: Equal values have the same
+// key and different values have different keys, regardless of how
+// they print.
+func groupKey(ctx context.Context, scope types.Scope, value types.Any) string {
+	switch t := value.(type) {
+	case types.LazyExpr:
+		return groupKey(ctx, scope, t.ReduceWithScope(ctx, scope))
+
+	case types.Materializer:
+		return groupKey(ctx, scope, t.Materialize(ctx, scope))
+
+	case types.StoredQuery:
+		return groupKey(ctx, scope, types.Materialize(ctx, scope, t))
+
+	case string:
+		return strconv.Quote(t)
+
+	case bool:
+		return strconv.FormatBool(t)
+
+	case uint:
+		return strconv.FormatUint(uint64(t), 10)
+
+	case uint64:
+		return strconv.FormatUint(t, 10)
+
+	case float32, float64:
+		float_value, _ := utils.ToFloat(t)
+		int_value := int64(float_value)
+		if float64(int_value) == float_value {
+			return strconv.FormatInt(int_value, 10)
+		}
+		return strconv.FormatFloat(float_value, 'g', -1, 64)
+
+	case *ordereddict.Dict:
+		if t != nil {
+			keys := t.Keys()
+			sort.Strings(keys)
+
+			parts := make([]string, 0, len(keys))
+			for _, k := range keys {
+				v, _ := t.Get(k)
+				parts = append(parts, strconv.Quote(k)+":"+
+					groupKey(ctx, scope, v))
+			}
+			return "{" + strings.Join(parts, ",") + "}"
+		}
+	}
+
+	if types.IsNil(value) {
+		return "NULL"
+	}
+
+	if utils.IsInt(value) {
+		int_value, _ := utils.ToInt64(value)
+		return strconv.FormatInt(int_value, 10)
+	}
+
+	if utils.IsArray(value) {
+		array := reflect.ValueOf(value)
+		parts := make([]string, 0, array.Len())
+		for i := 0; i < array.Len(); i++ {
+			parts = append(parts,
+				groupKey(ctx, scope, array.Index(i).Interface()))
+		}
+		return "[" + strings.Join(parts, ",") + "]"
+	}
+
+	return fmt.Sprintf("%T(%v)", value, types.ToString(ctx, scope, value))
+}
+
 func (self *_Select) EvalGroupBy(ctx context.Context, scope types.Scope) <-chan Row {
 	// Build an actor to send to the grouper.
 	actor := &GroupbyActor{self, self.From.Eval(ctx, scope)}
-- 
2.43.0


From 566c4af7f4345aa0d0de32abbb9a238fac66ecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 12/72] fix: a call site copies its function exactly once

Concurrent evaluations of a call site could each make their own copy of
an aggregate function, so that updates were lost. The path of the second
and later calls also did not convert typed nil results to NULL.
---
 vfilter.go | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 61ac9a8..4f37946 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1974,6 +1974,14 @@ func (self *_SymbolRef) callFunction(
 
 	self.mu.Lock()
 	parameters := self.Parameters
+
+	// Make a copy of the function the first time this AST node calls
+	// it and use the same copy from then on - this allows the
+	// function to store state since each reference in the AST is
+	// unique.
+	if self.function == nil {
+		self.function = CopyFunction(func_obj)
+	}
 	function := self.function
 	self.mu.Unlock()
 
@@ -1997,30 +2005,10 @@ func (self *_SymbolRef) callFunction(
 		}
 	}
 
-	// If this AST node previously called a function, we use the
-	// same function copy to ensure it may store internal state.
-	if function != nil {
-		scope.GetStats().IncFunctionsCalled()
-		result := function.Call(ctx, scope, args)
-		if result == nil {
-			return &Null{}
-		}
-		return result
-	}
-
-	// Make a copy of the function and cache it for next time -
-	// this allows the function to store state since each
-	// reference in the AST is unique.
-	func_obj = CopyFunction(func_obj)
-
-	self.mu.Lock()
-	self.function = func_obj
-	self.mu.Unlock()
-
 	// Call the function now.
 	scope.GetStats().IncFunctionsCalled()
 
-	result := func_obj.Call(ctx, scope, args)
+	result := function.Call(ctx, scope, args)
 
 	// Do not allow nil in VQL since it is not compatible with
 	// reflect package. The VQL plugin might accidentally pass nil
-- 
2.43.0


From 5e69944eef0820ea713d2d69a810015907961808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:16 +0000
Subject: [PATCH 13/72] fix: min() and max() ignore NULL whatever its position

---
 functions/aggregates.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/functions/aggregates.go b/functions/aggregates.go
index e5928af..8aa5fa8 100644
--- a/functions/aggregates.go
+++ b/functions/aggregates.go
@@ -234,7 +234,9 @@ func (self _MinFunction) Call(
 
 	return scope.GetAggregatorCtx().Modify(self.id,
 		func(previous_value_any types.Any, pres bool) types.Any {
-			if pres && !scope.Lt(min_value, previous_value_any) {
+			// NULL is not smaller than anything.
+			if pres && !types.IsNil(previous_value_any) &&
+				!scope.Lt(min_value, previous_value_any) {
 				min_value = previous_value_any
 			}
 
@@ -277,7 +279,9 @@ func (self _MaxFunction) Call(
 
 	return scope.GetAggregatorCtx().Modify(self.id,
 		func(previous_value_any types.Any, pres bool) types.Any {
-			if pres && scope.Lt(max_value, previous_value_any) {
+			// NULL is not larger than anything.
+			if pres && !types.IsNil(previous_value_any) &&
+				!scope.Gt(max_value, previous_value_any) {
 				max_value = previous_value_any
 			}
 
-- 
2.43.0


From ad9db1bde0ca6659a2c2edf9311179d8d5245612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:00 +0000
Subject: [PATCH 14/72] fix: formatting a statement writes column positions
 under their lock

---
 visitor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/visitor.go b/visitor.go
index 1fb0077..6cc12ed 100644
--- a/visitor.go
+++ b/visitor.go
@@ -1003,7 +1003,9 @@ func (self *Visitor) visitSelectExpression(node *_SelectExpression) {
 	}
 
 	for idx, item := range node.Expressions {
+		item.mu.Lock()
 		item.pos = idx
+		item.mu.Unlock()
 
 		self.Visit(item)
 		// No trailing , in the last element.
-- 
2.43.0


From 336cf393095919443887d0dbbd3b88557082119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 15/72] fix: a column of a lazy row is evaluated once when
 workers share the row

---
 lazy.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lazy.go b/lazy.go
index c955e45..82a4121 100644
--- a/lazy.go
+++ b/lazy.go
@@ -38,7 +38,23 @@ type LazyRowImpl struct {
 
 func (self *LazyRowImpl) AddColumn(
 	name string, getter func(ctx context.Context, scope types.Scope) types.Any) types.LazyRow {
-	self.getters[name] = getter
+	var mu sync.Mutex
+	var value types.Any
+	done := false
+
+	// The row may be used from several workers: A column is only
+	// evaluated once.
+	self.getters[name] = func(
+		ctx context.Context, scope types.Scope) types.Any {
+		mu.Lock()
+		defer mu.Unlock()
+
+		if !done {
+			value = getter(ctx, scope)
+			done = true
+		}
+		return value
+	}
 	self.columns = append(self.columns, name)
 	return self
 }
-- 
2.43.0


From bef12fd3692b36810f6befa37c8b9bf57061263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:21 +0000
Subject: [PATCH 16/72] fix: nil pointers have no members and address none

---
 protocols/protocol_associative.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index 9ee988d..2e6efd5 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -50,6 +50,11 @@ func (self *AssociativeDispatcher) Associative(
 		return types.Null{}, true
 	}
 
+	// There is no member addressed by NULL.
+	if types.IsNil(b) {
+		return &types.Null{}, false
+	}
+
 	b_str, ok := utils.ToString(b)
 	if ok {
 		switch t := a.(type) {
@@ -121,6 +126,11 @@ func (self *AssociativeDispatcher) Associative(
 func (self *AssociativeDispatcher) GetMembers(
 	scope types.Scope, a types.Any) []string {
 
+	// A nil pointer is NULL: it has no members.
+	if types.IsNil(a) {
+		return []string{}
+	}
+
 	switch t := a.(type) {
 	case types.Scope:
 		return []string{}
-- 
2.43.0


From 0956500174f6d187c359b15b91335e759e07258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:23 +0000
Subject: [PATCH 17/72] fix: a struct field is found by its name before another
 one's json name

---
 protocols/protocol_associative.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index 2e6efd5..82d9410 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -258,7 +258,12 @@ func (self DefaultAssociative) Associative(scope types.Scope, a types.Any, b typ
 
 		// A struct with regular exportable field.
 		if a_type.Kind() == reflect.Struct {
-			field_value := a_value.FieldByNameFunc(FieldMatchName(a_type, field_name))
+			// The field's own name wins over another field's json
+			// name, otherwise the match is ambiguous.
+			field_value := a_value.FieldByName(field_name)
+			if !field_value.IsValid() {
+				field_value = a_value.FieldByNameFunc(FieldMatchName(a_type, field_name))
+			}
 			if field_value.IsValid() && field_value.CanInterface() {
 				if field_value.Kind() == reflect.Ptr && field_value.IsNil() {
 					return &types.Null{}, true
-- 
2.43.0


From ef629bdb46bb2b0fc9070b59b4d0d491c09273e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:34 +0000
Subject: [PATCH 18/72] fix: the members of a list without any are an empty
 list

---
 protocols/protocol_associative.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index 82d9410..8f86c15 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -300,7 +300,7 @@ func (self DefaultAssociative) Associative(scope types.Scope, a types.Any, b typ
 
 		// An array - we call Associative on each member.
 		if a_type.Kind() == reflect.Slice {
-			var result []types.Any
+			result := []types.Any{}
 
 			for i := 0; i < a_value.Len(); i++ {
 				element := a_value.Index(i).Interface()
-- 
2.43.0


From a7492ce40a9dc939c20c0a4c24acfb48c6ff76d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:28 +0000
Subject: [PATCH 19/72] fix: an unsigned int is an integer

---
 utils/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index c3d8d4d..1ec3062 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -165,6 +165,8 @@ func ToInt64(x interface{}) (int64, bool) {
 		}
 	case int:
 		return int64(t), true
+	case uint:
+		return int64(t), true
 	case uint8:
 		return int64(t), true
 	case int8:
@@ -186,6 +188,8 @@ func ToInt64(x interface{}) (int64, bool) {
 
 	case *int:
 		return int64(*t), true
+	case *uint:
+		return int64(*t), true
 	case *uint8:
 		return int64(*t), true
 	case *int8:
-- 
2.43.0


From 8ea91408b15ff099a8361fb0a101dfdb585f3f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:04 +0000
Subject: [PATCH 20/72] fix: an invalid hex escape keeps its own character

---
 utils/unquote.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/unquote.go b/utils/unquote.go
index f87868f..b24687b 100644
--- a/utils/unquote.go
+++ b/utils/unquote.go
@@ -62,7 +62,7 @@ outer:
 				// ignore it and copy the output
 				// verbatim.
 				if err != nil {
-					out[j] = in[j]
+					out[j] = in[i]
 					i++
 					j++
 				} else {
-- 
2.43.0


From 4ea59f6a12af129100ce0f0226d5845669ca92a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:07 +0000
Subject: [PATCH 21/72] fix: a column named * is a column

---
 vfilter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vfilter.go b/vfilter.go
index 4f37946..8733b41 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1125,7 +1125,7 @@ func (self *_SelectExpression) Transform(
 		// A copy of the expression for the lambda capture.
 		expr := expr_
 		name := expr.GetName(scope)
-		if name == "*" {
+		if expr.Star != nil && name == "*" {
 			self.mergeStarRow(scope, new_row, row)
 			continue
 		}
-- 
2.43.0


From 22ce231fc389f5f4d681c2481ff2f0fffaecdd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:06 +0000
Subject: [PATCH 22/72] fix: LET parameters are printed as they are written

---
 visitor.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/visitor.go b/visitor.go
index 6cc12ed..30f3105 100644
--- a/visitor.go
+++ b/visitor.go
@@ -1174,18 +1174,17 @@ func (self *Visitor) visitVQL(node *VQL) {
 					self.Definitions = append(self.Definitions, defsite)
 				}
 
-				for idx, p := range parameters {
+				for idx, p := range node.LetParameters {
 					// Is it an arg with default?
-					def_value, pres := defaults[p.Name]
-					if pres {
-						self.Visit(def_value)
+					if p.DefaultArg != nil {
+						self.Visit(p.DefaultArg)
 
 					} else {
-						// Otherwise just emit the plain name
-						self.push(p.Name)
+						// Otherwise just emit the name as written
+						self.Visit(p.Name)
 					}
 
-					if idx < len(parameters)-1 {
+					if idx < len(node.LetParameters)-1 {
 						self.push(",", " ")
 					}
 				}
-- 
2.43.0


From aee1b1c9a1313236fe17dd656537b6fb848166e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:56 +0000
Subject: [PATCH 23/72] fix: chained comparisons are evaluated instead of
 dropping the middle

---
 outline.go |  4 ++--
 vfilter.go | 60 +++++++++++++++++++++++++++---------------------------
 visitor.go |  6 +++---
 3 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/outline.go b/outline.go
index 23abe27..a92c9a2 100644
--- a/outline.go
+++ b/outline.go
@@ -196,8 +196,8 @@ func collectConditionFunctions(expr *_ConditionOperand, children *[]*OutlineInfo
 		collectConditionFunctions(expr.Not, children)
 	}
 	collectAdditionFunctions(expr.Left, children)
-	if expr.Right != nil {
-		collectAdditionFunctions(expr.Right.Right, children)
+	for _, term := range expr.Right {
+		collectAdditionFunctions(term.Right, children)
 	}
 }
 
diff --git a/vfilter.go b/vfilter.go
index 8733b41..17a8c60 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1005,7 +1005,7 @@ type _ConditionOperand struct {
 	Comments []*_Comment          ` [ @@ ] `
 	Not      *_ConditionOperand   `(NOT @@ | `
 	Left     *_AdditionExpression `@@)`
-	Right    *_OpComparison       `{ @@ }`
+	Right    []*_OpComparison     `{ @@ }`
 }
 
 type _OpComparison struct {
@@ -1559,10 +1559,10 @@ func (self _ConditionOperand) IsAggregate(scope types.Scope) bool {
 		return true
 	}
 
-	if self.Right != nil &&
-		self.Right.Right != nil &&
-		self.Right.Right.IsAggregate(scope) {
-		return true
+	for _, i := range self.Right {
+		if i.Right != nil && i.Right.IsAggregate(scope) {
+			return true
+		}
 	}
 
 	return false
@@ -1574,36 +1574,36 @@ func (self *_ConditionOperand) Reduce(ctx context.Context, scope types.Scope) An
 		return !scope.Bool(value)
 	}
 
-	lhs := self.Left.Reduce(ctx, scope)
-	if self.Right == nil {
-		return lhs
-	}
+	// Chained comparisons associate to the left like other operators.
+	result := self.Left.Reduce(ctx, scope)
+	for _, term := range self.Right {
+		lhs := result
+		rhs := term.Right.Reduce(ctx, scope)
 
-	rhs := self.Right.Right.Reduce(ctx, scope)
+		result = false
 
-	var result Any = false
+		switch term.Operator {
+		case "IN", "in", "In":
+			result = scope.Membership(lhs, rhs)
+		case "<":
+			result = scope.Lt(lhs, rhs)
+		case "=":
+			result = scope.Eq(lhs, rhs)
+		case "!=":
+			result = !scope.Eq(lhs, rhs)
+		case "<=":
+			result = scope.Lt(lhs, rhs) || scope.Eq(lhs, rhs)
+		case ">":
+			result = scope.Gt(lhs, rhs)
+		case ">=":
+			result = scope.Gt(lhs, rhs) || scope.Eq(lhs, rhs)
+		case "=~":
+			result = scope.Match(rhs, lhs)
+		}
 
-	switch self.Right.Operator {
-	case "IN", "in", "In":
-		result = scope.Membership(lhs, rhs)
-	case "<":
-		result = scope.Lt(lhs, rhs)
-	case "=":
-		result = scope.Eq(lhs, rhs)
-	case "!=":
-		result = !scope.Eq(lhs, rhs)
-	case "<=":
-		result = scope.Lt(lhs, rhs) || scope.Eq(lhs, rhs)
-	case ">":
-		result = scope.Gt(lhs, rhs)
-	case ">=":
-		result = scope.Gt(lhs, rhs) || scope.Eq(lhs, rhs)
-	case "=~":
-		result = scope.Match(rhs, lhs)
+		scope.Trace("Operation %v %v %v gave %v", lhs, term.Operator, rhs, result)
 	}
 
-	scope.Trace("Operation %v %v %v gave %v", lhs, self.Right.Operator, rhs, result)
-
 	return result
 }
 
diff --git a/visitor.go b/visitor.go
index 30f3105..dd310df 100644
--- a/visitor.go
+++ b/visitor.go
@@ -688,9 +688,9 @@ func (self *Visitor) visitConditionOperand(node *_ConditionOperand) {
 	}
 
 	self.Visit(node.Left)
-	if node.Right != nil {
-		self.push(" ", node.Right.Operator, " ")
-		self.Visit(node.Right.Right)
+	for _, right := range node.Right {
+		self.push(" ", right.Operator, " ")
+		self.Visit(right.Right)
 	}
 }
 
-- 
2.43.0


From b8836e0a09bd51660b6c9cc29bec6d8af34574a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:58 +0000
Subject: [PATCH 24/72] fix: the <> operator is not equal

---
 vfilter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 17a8c60..1051f1c 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1583,13 +1583,13 @@ func (self *_ConditionOperand) Reduce(ctx context.Context, scope types.Scope) An
 		result = false
 
 		switch term.Operator {
-		case "IN", "in", "In":
+		case "IN", "in", "In", "iN":
 			result = scope.Membership(lhs, rhs)
 		case "<":
 			result = scope.Lt(lhs, rhs)
 		case "=":
 			result = scope.Eq(lhs, rhs)
-		case "!=":
+		case "!=", "<>":
 			result = !scope.Eq(lhs, rhs)
 		case "<=":
 			result = scope.Lt(lhs, rhs) || scope.Eq(lhs, rhs)
-- 
2.43.0


From 1cdb67cdf807bb263849dc4656bc7bcee54bcb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:19 +0000
Subject: [PATCH 25/72] fix: the grammar does not accept tokens that it drops

---
 vfilter.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 1051f1c..dd257ff 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -941,9 +941,9 @@ type _MemberExpression struct {
 }
 
 type _OpMembershipTerm struct {
-	Index    *_Value ` ( "[" {@@} `
-	Range    *string ` { @":" }`
-	RangeEnd *_Value ` { @@ } "]" |`
+	Index    *_Value ` ( "[" (?! "]" ) [ @@ ] `
+	Range    *string ` [ @":" `
+	RangeEnd *_Value ` [ @@ ] ] "]" |`
 	Term     *string `  "." @Ident )`
 }
 
@@ -969,7 +969,7 @@ type _OpArrayTerm struct {
 	Comments []*_Comment     ` [ @@ ] `
 	Operator string          `@","`
 	Comment2 []*_Comment     ` [ @@ ] `
-	Term     *_AndExpression `{ @@ }`
+	Term     *_AndExpression `[ @@ ]`
 }
 
 // Expressions separated by AND.
@@ -1029,8 +1029,8 @@ type _SymbolRef struct {
 	Comments   []*_Comment ` [ @@ ] `
 	Negated    bool
 	Symbol     string   `(@SymbolIdent | @Ident) { @"." @Ident }`
-	Called     bool     `{ @"(" `
-	Parameters []*_Args ` [ @@ { "," @@ } ] ")" } `
+	Called     bool     `[ @"(" `
+	Parameters []*_Args ` [ @@ { "," @@ } ] ")" ] `
 
 	mu           sync.Mutex
 	function     FunctionInterface
-- 
2.43.0


From c3a786038e603866bdc3f4b3afb9bb84395b4229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:59 +0000
Subject: [PATCH 26/72] fix: reformatting leaves multi line strings alone

---
 reformat/visitor.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/reformat/visitor.go b/reformat/visitor.go
index e472ef4..fb1cae2 100644
--- a/reformat/visitor.go
+++ b/reformat/visitor.go
@@ -17,11 +17,19 @@ func ReFormatVQL(scope types.Scope, query string,
 	visitor := vfilter.NewVisitor(scope, options)
 	visitor.Visit(vql)
 
-	lines := strings.Split(visitor.ToString(), "\n")
-	result := make([]string, 0, len(lines))
-	for _, l := range lines {
-		result = append(result, strings.TrimRight(l, " "))
+	// Trim the spaces before line breaks, but leave those inside multi
+	// line tokens alone.
+	lines := []string{}
+	line := ""
+	for _, fragment := range visitor.Fragments {
+		if fragment == "\n" {
+			lines = append(lines, strings.TrimRight(line, " "))
+			line = ""
+			continue
+		}
+		line += fragment
 	}
+	lines = append(lines, strings.TrimRight(line, " "))
 
-	return strings.Join(result, "\n"), nil
+	return strings.Join(lines, "\n"), nil
 }
-- 
2.43.0


From 8dc110eca03fdf871ac4c7db66a1ab79167a0bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:59 +0000
Subject: [PATCH 27/72] fix: LET X() is printed with its parentheses

---
 visitor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/visitor.go b/visitor.go
index dd310df..eceef57 100644
--- a/visitor.go
+++ b/visitor.go
@@ -1206,6 +1206,10 @@ func (self *Visitor) visitVQL(node *VQL) {
 
 				self.Definitions = append(self.Definitions, defsite)
 			}
+
+			if defaults == nil && node.Called != "" {
+				self.push("()")
+			}
 		}
 		self.push(" ", operator, " ")
 		self.indent_in()
-- 
2.43.0


From b9cfb3f8e4f81105854850297e77bb554491b2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:59 +0000
Subject: [PATCH 28/72] fix: formatting keeps every comment

---
 vfilter.go | 10 +++++++++-
 visitor.go | 22 +++++++++++++++++++---
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index dd257ff..0bb13e5 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -339,6 +339,11 @@ func (self *MultiVQL) GetStatements() []*VQL {
 		self.Comments2 = nil
 	}
 
+	// Unless there is none.
+	if self.VQL2 == nil {
+		self.VQL1.trailing_comments = self.Comments2
+	}
+
 	result := []*VQL{self.VQL1}
 	if self.VQL2 != nil {
 		return append(result, self.VQL2.GetStatements()...)
@@ -376,6 +381,9 @@ type VQL struct {
 	Query         *_Select        ` @@  `
 	Comments      []*_Comment
 
+	// Comments after the last statement.
+	trailing_comments []*_Comment
+
 	// JIT Compile these for faster execution
 	mu              sync.Mutex
 	argsCache       map[string]*_Args
@@ -968,7 +976,7 @@ type _CommaExpression struct {
 type _OpArrayTerm struct {
 	Comments []*_Comment     ` [ @@ ] `
 	Operator string          `@","`
-	Comment2 []*_Comment     ` [ @@ ] `
+	Comment2 []*_Comment     ` { @@ } `
 	Term     *_AndExpression `[ @@ ]`
 }
 
diff --git a/visitor.go b/visitor.go
index eceef57..33665a0 100644
--- a/visitor.go
+++ b/visitor.go
@@ -393,7 +393,7 @@ func (self *Visitor) visitComment(node *_Comment) {
 		}
 
 		self.push(*node.Comment)
-		self.line_break()
+		self.end_line_comment()
 	}
 
 	// VQL Comments start with -- and generally follow the thing they
@@ -405,7 +405,7 @@ func (self *Visitor) visitComment(node *_Comment) {
 		}
 
 		self.push(*node.VQLComment)
-		self.line_break()
+		self.end_line_comment()
 	}
 
 	// Multi line comments always start at column 0 and follow by a
@@ -423,6 +423,19 @@ func (self *Visitor) visitComment(node *_Comment) {
 	}
 }
 
+// A one line comment extends to the end of its line, so the line has to
+// end there even when we do not break lines.
+func (self *Visitor) end_line_comment() {
+	if self.opts.BreakLines {
+		self.line_break()
+		return
+	}
+
+	self.pos = 0
+	self.Fragments = append(self.Fragments, "\n")
+	self.line_breaks = append(self.line_breaks, len(self.Fragments))
+}
+
 func (self *Visitor) visitLambda(node *Lambda) {
 	self.Visit(node.Parameters)
 	self.push(" => ")
@@ -430,6 +443,7 @@ func (self *Visitor) visitLambda(node *Lambda) {
 }
 
 func (self *Visitor) visitParameterList(node *_ParameterList) {
+	self.Visit(node.Comments)
 	self.push(node.Left)
 
 	if node.Right != nil {
@@ -657,6 +671,7 @@ func (self *Visitor) visitSymbolRef(node *_SymbolRef) {
 }
 
 func (self *Visitor) visitAndExpression(node *_AndExpression) {
+	self.Visit(node.Comments)
 	self.Visit(node.Left)
 
 	for _, right := range node.Right {
@@ -675,12 +690,12 @@ func (self *Visitor) visitOrExpression(node *_OrExpression) {
 
 	for _, right := range node.Right {
 		self.push(" ", right.Operator, " ")
-		self.Visit(right.Term.Comments)
 		self.Visit(right.Term)
 	}
 }
 
 func (self *Visitor) visitConditionOperand(node *_ConditionOperand) {
+	self.Visit(node.Comments)
 	if node.Not != nil {
 		self.push("NOT ")
 		self.Visit(node.Not)
@@ -1136,6 +1151,7 @@ func (self *Visitor) visitVQL(node *VQL) {
 	// start as each VQL statement is rendered independently.
 	defer func() {
 		self.line_break()
+		self.Visit(node.trailing_comments)
 		self.pos = 0
 		self.max_line = ""
 		self.max_width = 0
-- 
2.43.0


From 9dfcd7a10b4459f2de3eaff8abe8313bb51d40d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:07 +0000
Subject: [PATCH 29/72] fix: the alias of a star column is printed

---
 visitor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/visitor.go b/visitor.go
index 33665a0..288295a 100644
--- a/visitor.go
+++ b/visitor.go
@@ -465,6 +465,9 @@ func (self *Visitor) visitAliasedExpression(node *_AliasedExpression) {
 
 	if node.Star != nil {
 		self.push("*")
+		if node.As != "" {
+			self.push(" AS ", node.As)
+		}
 		return
 	}
 
-- 
2.43.0


From 72dcf1cfe2bab2e4c7d6ce9e10436e4e9ff6b5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:07 +0000
Subject: [PATCH 30/72] fix: EXPLAIN is not accepted twice

---
 vfilter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vfilter.go b/vfilter.go
index 0bb13e5..cda0714 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -594,7 +594,7 @@ type _Select struct {
 	EndPos lexer.Position
 
 	Comments         []*_Comment        ` { @@ } `
-	Explain          *bool              ` { @EXPLAIN }`
+	Explain          *bool              ` [ @EXPLAIN ]`
 	SelectExpression *_SelectExpression `SELECT @@`
 	From             *_From             `FROM @@`
 	Where            *_CommaExpression  `[ WHERE @@ ]`
-- 
2.43.0


From a06f74de8f3d7b7b776dca4f6905d5097ce12b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:55 +0000
Subject: [PATCH 31/72] fix: token end offsets count bytes

---
 tokenizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index eadb9bc..aa6ddb7 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -75,7 +75,8 @@ func findEndPos(start lexer.Position, value string) lexer.Position {
 		} else {
 			res.Column++
 		}
-		res.Offset++
 	}
+	// Offsets are in bytes.
+	res.Offset += len(value)
 	return res
 }
-- 
2.43.0


From 47a64a7cab26466ff9e04494cd1a53fa8c598ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:22 +0000
Subject: [PATCH 32/72] fix: call sites, comments and defaults are reported
 exactly once and in order

---
 visitor.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/visitor.go b/visitor.go
index 288295a..7844732 100644
--- a/visitor.go
+++ b/visitor.go
@@ -157,6 +157,8 @@ func NewVisitor(scope types.Scope, options FormatOptions) *Visitor {
 func (self *Visitor) merge(in *Visitor) {
 	self.Fragments = append([]string{}, in.Fragments...)
 	self.CallSites = append(self.CallSites, in.CallSites...)
+	self.Definitions = append(self.Definitions, in.Definitions...)
+	self.Comments = append(self.Comments, in.Comments...)
 	self.line_breaks = in.line_breaks
 	self.indents = append([]int{}, in.indents...)
 	self.pos = in.pos
@@ -1186,9 +1188,12 @@ func (self *Visitor) visitVQL(node *VQL) {
 						defsite.Args = append(defsite.Args, p)
 					}
 
-					for k := range defaults {
-						defsite.Defaults = append(defsite.Defaults,
-							utils.Unquote_ident(k))
+					// In the order they are written.
+					for _, p := range parameters {
+						_, pres := defaults[p.Name]
+						if pres {
+							defsite.Defaults = append(defsite.Defaults, p.Name)
+						}
 					}
 					self.Definitions = append(self.Definitions, defsite)
 				}
@@ -1287,7 +1292,7 @@ func (self *Visitor) abTest(
 			res = test_visitor
 
 		} else if res.is_better(test_visitor) {
-			res.merge(test_visitor)
+			res = test_visitor
 		}
 	}
 
-- 
2.43.0


From 3a3d6a9381746a7348bf40ad3d1b36e126ee3661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:23 +0000
Subject: [PATCH 33/72] fix: LET defaults are evaluated in the order of the
 parameters

---
 stored.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/stored.go b/stored.go
index 8ac8c51..865025e 100644
--- a/stored.go
+++ b/stored.go
@@ -53,7 +53,7 @@ func (self *_StoredQuery) ApplyDefaults(
 		return
 	}
 
-	applyDefaults(ctx, scope, args, self.defaults)
+	applyDefaults(ctx, scope, args, self.parameters, self.defaults)
 }
 
 func (self *_StoredQuery) GoString() string {
@@ -180,15 +180,22 @@ func (self *StoredExpression) ApplyDefaults(
 		return
 	}
 
-	applyDefaults(ctx, scope, args, self.defaults)
+	applyDefaults(ctx, scope, args, self.parameters, self.defaults)
 }
 
 func applyDefaults(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict,
+	parameters []string,
 	defaults map[string]*_Args) {
 
-	for name, arg := range defaults {
-		_, pres := args.Get(name)
+	// Defaults are evaluated in the order of the parameters.
+	for _, name := range parameters {
+		arg, pres := defaults[name]
+		if !pres {
+			continue
+		}
+
+		_, pres = args.Get(name)
 
 		// If the user did not specify the arg we fill it in from
 		// the defaults. NOTE: The default expressions are
@@ -197,7 +204,7 @@ func applyDefaults(ctx context.Context, scope types.Scope,
 			if arg.Right != nil {
 				args.Set(name, arg.Right.Reduce(ctx, scope))
 			} else if arg.SubSelect != nil {
-				args.Set(arg.Left, arg.SubSelect)
+				args.Set(name, arg.SubSelect)
 			} else if arg.Array != nil {
 				args.Set(name, arg.Array.Reduce(ctx, scope))
 			} else if arg.ArrayOpenBrace != "" {
-- 
2.43.0


From 59fe93976425315e4b6db4d77ff8bd8618eac6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:33 +0000
Subject: [PATCH 34/72] fix: a definition called as a source has its own
 aggregators

---
 vfilter.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vfilter.go b/vfilter.go
index cda0714..5359102 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1286,7 +1286,9 @@ func (self *Plugin) evalSymbolWithArgs(
 
 	// Stored Expression e.g. LET Foo(X) = X + 1
 	case types.StoredExpression:
+		// Each call has its own aggregator context.
 		subscope := scope.Copy()
+		subscope.SetAggregatorCtx(nil)
 		defer subscope.Close()
 
 		args := buildArgsFromParameters(ctx, scope, self.Args)
-- 
2.43.0


From 9bdeba2ae88069bd90fff883a183c9f332572bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:24 +0000
Subject: [PATCH 35/72] fix: a query called without arguments is called with
 its defaults

---
 vfilter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vfilter.go b/vfilter.go
index 5359102..ec43e89 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1882,7 +1882,7 @@ func (self *_SymbolRef) Reduce(ctx context.Context, scope types.Scope) Any {
 			// we materialize the plugin at this
 			// point. Otherwise pass the stored query
 			// through.
-			if self.Parameters != nil {
+			if self.Called {
 
 				// When running a stored query as a function we need
 				// to use a brand new scope with its own aggregator
-- 
2.43.0


From 83967e237cddf2c88a2e0527f097848190247e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:33 +0000
Subject: [PATCH 36/72] fix: the defaults of a definition count towards the
 stack depth

---
 vfilter.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index ec43e89..bd85a33 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1292,7 +1292,7 @@ func (self *Plugin) evalSymbolWithArgs(
 		defer subscope.Close()
 
 		args := buildArgsFromParameters(ctx, scope, self.Args)
-		types.MaybeApplyDefaultArgs(t, ctx, scope, args)
+		types.MaybeApplyDefaultArgs(t, ctx, subscope, args)
 
 		subscope.AppendVars(args)
 		return self.evalSymbol(ctx, scope, t.Reduce(ctx, subscope), name)
@@ -1302,7 +1302,14 @@ func (self *Plugin) evalSymbolWithArgs(
 		scope.GetStats().IncPluginsCalled()
 
 		args := buildArgsFromParameters(ctx, scope, self.Args)
-		types.MaybeApplyDefaultArgs(t, ctx, scope, args)
+
+		_, pres := t.(types.DefaultArgInterface)
+		if pres {
+			subscope := scope.Copy()
+			defer subscope.Close()
+
+			types.MaybeApplyDefaultArgs(t, ctx, subscope, args)
+		}
 
 		return t.Call(ctx, scope, args)
 
@@ -1869,7 +1876,10 @@ func (self *_SymbolRef) Reduce(ctx context.Context, scope types.Scope) Any {
 			}
 
 			args := self.buildArgsFromParameters(ctx, scope)
-			types.MaybeApplyDefaultArgs(t, ctx, scope, args)
+
+			// Defaults may call us again so they count towards the
+			// stack depth.
+			types.MaybeApplyDefaultArgs(t, ctx, subscope, args)
 
 			subscope.AppendVars(args)
 
@@ -1898,7 +1908,7 @@ func (self *_SymbolRef) Reduce(ctx context.Context, scope types.Scope) Any {
 				}
 
 				vars := self.buildArgsFromParameters(ctx, scope)
-				types.MaybeApplyDefaultArgs(t, ctx, scope, vars)
+				types.MaybeApplyDefaultArgs(t, ctx, subscope, vars)
 
 				subscope.AppendVars(vars)
 
-- 
2.43.0


From 244c5d5505b43f7f1e0485839ea52eb468481535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 37/72] fix: a query bound to a parameter counts towards the
 stack depth

---
 vfilter.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index bd85a33..7b6511c 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1294,7 +1294,7 @@ func (self *Plugin) evalSymbolWithArgs(
 		args := buildArgsFromParameters(ctx, scope, self.Args)
 		types.MaybeApplyDefaultArgs(t, ctx, subscope, args)
 
-		subscope.AppendVars(args)
+		subscope.AppendVars(bindQueries(args))
 		return self.evalSymbol(ctx, scope, t.Reduce(ctx, subscope), name)
 
 		// A plugin like item
@@ -1881,7 +1881,7 @@ func (self *_SymbolRef) Reduce(ctx context.Context, scope types.Scope) Any {
 			// stack depth.
 			types.MaybeApplyDefaultArgs(t, ctx, subscope, args)
 
-			subscope.AppendVars(args)
+			subscope.AppendVars(bindQueries(args))
 
 			scope.GetStats().IncFunctionsCalled()
 
@@ -1910,7 +1910,7 @@ func (self *_SymbolRef) Reduce(ctx context.Context, scope types.Scope) Any {
 				vars := self.buildArgsFromParameters(ctx, scope)
 				types.MaybeApplyDefaultArgs(t, ctx, subscope, vars)
 
-				subscope.AppendVars(vars)
+				subscope.AppendVars(bindQueries(vars))
 
 				scope.GetStats().IncFunctionsCalled()
 
@@ -1953,6 +1953,22 @@ func (self *_SymbolRef) buildArgsFromParameters(
 	return buildArgsFromParameters(ctx, scope, parameters)
 }
 
+// A query bound to a parameter may be evaluated through its name, even
+// by itself. As a stored query it is evaluated in a scope of its own so
+// it counts towards the stack depth.
+func bindQueries(args *ordereddict.Dict) *ordereddict.Dict {
+	res := ordereddict.NewDict()
+	for _, i := range args.Items() {
+		query, ok := i.Value.(*_Select)
+		if ok {
+			res.Set(i.Key, NewStoredQuery(query, i.Key))
+		} else {
+			res.Set(i.Key, i.Value)
+		}
+	}
+	return res
+}
+
 func buildArgsFromParameters(
 	ctx context.Context,
 	scope types.Scope,
-- 
2.43.0


From b2b622503af5cff81d4473ccc6e9d3abf2d1329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 38/72] fix: GROUP BY a query that yields itself ends

---
 vfilter_group.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vfilter_group.go b/vfilter_group.go
index 5e0527d..e641fad 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -98,7 +98,15 @@ func groupKey(ctx context.Context, scope types.Scope, value types.Any) string {
 		return groupKey(ctx, scope, t.Materialize(ctx, scope))
 
 	case types.StoredQuery:
-		return groupKey(ctx, scope, types.Materialize(ctx, scope, t))
+		// The rows may contain the query itself.
+		subscope := scope.Copy()
+		defer subscope.Close()
+
+		if subscope.CheckForOverflow() {
+			return "NULL"
+		}
+		return groupKey(ctx, subscope,
+			types.Materialize(ctx, subscope, t))
 
 	case string:
 		return strconv.Quote(t)
-- 
2.43.0


From 3970d355a6a3db2e235eaac43c72424724390c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 39/72] fix: a scope with a new context keeps its explainer

---
 scope/dispatcher.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scope/dispatcher.go b/scope/dispatcher.go
index 5c9785d..4b39d4d 100644
--- a/scope/dispatcher.go
+++ b/scope/dispatcher.go
@@ -158,6 +158,7 @@ func (self *protocolDispatcher) WithNewContext() *protocolDispatcher {
 		Sorter:       self.Sorter,
 		Grouper:      self.Grouper,
 		Materializer: self.Materializer,
+		explainer:    self.explainer,
 		Logger:       self.Logger,
 		Tracer:       self.Tracer,
 	}
-- 
2.43.0


From 70fa4a6718903c10050ce1322f3ad88f6350aae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 40/72] fix: destructors accepted while a scope is closed are
 called

---
 scope/scope.go | 75 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 27 deletions(-)

diff --git a/scope/scope.go b/scope/scope.go
index 919f183..57b1d30 100644
--- a/scope/scope.go
+++ b/scope/scope.go
@@ -486,34 +486,57 @@ func (self *Scope) IsClosed() bool {
 	return self.destructors.IsDestroyed()
 }
 
-// Closing a scope will also close all its children. Note that
-// destructors may use the scope so we can not lock it for the
-// duration.
-func (self *Scope) Close() {
+// Close all our children and wait for their destructors.
+func (self *Scope) closeChildren() {
 	self.Lock()
 
 	// We need to call child.Close() without a lock since
 	// child.Close() will attempt to remove themselves from our
 	// own child list and will grab the lock.
 	children := append([]*Scope{}, self.children...)
-
-	parent := self.parent
-
-	// Unlock the scope and start running the
-	// destructors. Destructors may actually add new destructors
-	// to this scope but hopefully the parent scope will be
-	// deleted later.
 	self.Unlock()
 
-	// This has to be done without a lock since the child needs to
-	// access us.
 	for _, child := range children {
 		if child != nil {
 			child.Close()
 		}
 	}
+}
+
+// Remove the destructors which should be called next. Returns false
+// when there is nothing left to close: The scope is destroyed at this
+// point and will not accept any more destructors. This is decided
+// under lock so a destructor is either accepted and called or it is
+// refused.
+func (self *Scope) nextDestructors(last bool) ([]func(), bool) {
+	self.Lock()
+	defer self.Unlock()
+
+	ds := self.destructors.RemoveDestructors()
+	more := len(ds) > 0
+	for _, child := range self.children {
+		if child != nil {
+			more = true
+		}
+	}
+
+	if !more || last {
+		self.destructors.SetDestroyed()
+	}
+	return ds, more && !last
+}
+
+// Closing a scope will also close all its children. Note that
+// destructors may use the scope so we can not lock it for the
+// duration.
+func (self *Scope) Close() {
+	self.closeChildren()
 
 	// Remove ourselves from our parent.
+	self.Lock()
+	parent := self.parent
+	self.Unlock()
+
 	if parent != nil && parent != self {
 		parent.Lock()
 
@@ -530,29 +553,27 @@ func (self *Scope) Close() {
 	// Now we call destructors. Because it is impossible to determine
 	// the order the destructors are called on the same scope, we
 	// sometimes need to retry the destructors. This means the
-	// destructors will reschedule themselves to be called again. At
-	// the end of this function we prevent new destructors from being
-	// added to this scope.
-
-	// Stop new destructors from appearing on this scope, once this
-	// function returns.
-	defer self.destructors.SetDestroyed()
+	// destructors will reschedule themselves to be called again. New
+	// destructors and children are accepted until there are none
+	// left or we retried too often.
 
 	// Destructors are called in reverse order to their
 	// declarations.
-	for try := 0; try < 10; try++ {
-		// Remove destructors from list so they are not run again.
-		ds := self.destructors.RemoveDestructors()
-		if len(ds) == 0 {
-			// No more destructors left - we are done.
-			break
+	for try, more := 0, true; more; try++ {
+		if try > 0 {
+			self.closeChildren()
 		}
 
+		// Remove destructors from list so they are not run again.
+		var ds []func()
+		ds, more = self.nextDestructors(try >= 9)
+
 		for i := len(ds) - 1; i >= 0; i-- {
 			ctx, cancel := context.WithTimeout(context.Background(), time.Second*60)
+			destructor := ds[i]
 			go func() {
 				// Destructors may schedule a new destructor to retry
-				ds[i]()
+				destructor()
 				cancel()
 			}()
 
-- 
2.43.0


From 8da0c016ea4bdb86c5e8755b57dfbb9da921fd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 41/72] fix: operators on stored queries are cancelled with
 their query

Operators evaluated stored queries with the background context, so a
query whose truth value, member or sum was being determined could not
be cancelled. Scopes now carry the context of the query they are
evaluating.
---
 lambda.go                         |  2 ++
 protocols/protocol_add.go         |  4 ++--
 protocols/protocol_associative.go |  8 +++-----
 protocols/stored_query.go         |  5 ++---
 scope/scope.go                    | 24 ++++++++++++++++++++++--
 stored.go                         |  2 ++
 types/scope.go                    | 25 +++++++++++++++++++++++++
 vfilter.go                        | 12 ++++++++++--
 vfilter_group.go                  |  3 ++-
 9 files changed, 70 insertions(+), 15 deletions(-)

diff --git a/lambda.go b/lambda.go
index fb18e22..71168e3 100644
--- a/lambda.go
+++ b/lambda.go
@@ -53,6 +53,8 @@ func (self *Lambda) Reduce(ctx context.Context, scope types.Scope, parameters []
 	subscope := scope.Copy().AppendVars(vars)
 	defer subscope.Close()
 
+	types.SetQueryContext(ctx, subscope)
+
 	return self.Expression.Reduce(ctx, subscope)
 }
 
diff --git a/protocols/protocol_add.go b/protocols/protocol_add.go
index 1936dab..02fdf38 100644
--- a/protocols/protocol_add.go
+++ b/protocols/protocol_add.go
@@ -1,7 +1,6 @@
 package protocols
 
 import (
-	"context"
 	"reflect"
 
 	"www.velocidex.com/golang/vfilter/types"
@@ -125,7 +124,8 @@ func convertToSlice(scope types.Scope, a types.Any) []types.Any {
 	stored_query, ok := a.(types.StoredQuery)
 	if ok {
 		var res []types.Any
-		for _, x := range MaterializeToArray(context.Background(), scope, stored_query) {
+		for _, x := range MaterializeToArray(
+			types.QueryContext(scope), scope, stored_query) {
 			res = append(res, x)
 		}
 		return res
diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index 8f86c15..a3a28b4 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -1,7 +1,6 @@
 package protocols
 
 import (
-	"context"
 	"reflect"
 	"strings"
 
@@ -44,8 +43,6 @@ func (self AssociativeDispatcher) Copy() AssociativeDispatcher {
 
 func (self *AssociativeDispatcher) Associative(
 	scope types.Scope, a types.Any, b types.Any) (types.Any, bool) {
-	ctx := context.Background()
-
 	if types.IsNil(a) {
 		return types.Null{}, true
 	}
@@ -64,7 +61,8 @@ func (self *AssociativeDispatcher) Associative(
 		case types.StoredExpression:
 			sub_scope := scope.Copy()
 			defer sub_scope.Close()
-			return scope.Associative(t.Reduce(ctx, sub_scope), b)
+			return scope.Associative(
+				t.Reduce(types.QueryContext(scope), sub_scope), b)
 
 		case types.LazyRow:
 			return t.Get(b_str)
@@ -73,7 +71,7 @@ func (self *AssociativeDispatcher) Associative(
 			// fields and extracts a single column
 		case types.StoredQuery:
 			result := []types.Row{}
-			for row := range t.Eval(ctx, scope) {
+			for row := range t.Eval(types.QueryContext(scope), scope) {
 				field, pres := scope.Associative(row, b_str)
 				if pres {
 					result = append(result, field)
diff --git a/protocols/stored_query.go b/protocols/stored_query.go
index 16de0a6..1367727 100644
--- a/protocols/stored_query.go
+++ b/protocols/stored_query.go
@@ -20,7 +20,7 @@ func (self _StoredQueryAssociative) Associative(
 	var result []types.Any
 	stored_query, ok := a.(types.StoredQuery)
 	if ok {
-		ctx, cancel := context.WithCancel(context.Background())
+		ctx, cancel := context.WithCancel(types.QueryContext(scope))
 		defer cancel()
 
 		new_scope := scope.Copy()
@@ -93,8 +93,7 @@ func (self _StoredQueryAdd) Applicable(a types.Any, b types.Any) bool {
 }
 
 func (self _StoredQueryAdd) Add(scope types.Scope, a types.Any, b types.Any) types.Any {
-	// FIXME - this breaks cancellations.
-	ctx := context.Background()
+	ctx := types.QueryContext(scope)
 	return append(MaterializeToArray(ctx, scope, a.(types.StoredQuery)),
 		MaterializeToArray(ctx, scope, b.(types.StoredQuery))...)
 }
diff --git a/scope/scope.go b/scope/scope.go
index 57b1d30..1f3ae62 100644
--- a/scope/scope.go
+++ b/scope/scope.go
@@ -109,9 +109,29 @@ type Scope struct {
 
 	throttler types.Throttler
 
+	// The context of the query which is evaluated in this scope.
+	query_ctx context.Context
+
 	id uint64
 }
 
+func (self *Scope) SetQueryContext(ctx context.Context) {
+	self.Lock()
+	defer self.Unlock()
+
+	self.query_ctx = ctx
+}
+
+func (self *Scope) QueryContext() context.Context {
+	self.Lock()
+	defer self.Unlock()
+
+	if self.query_ctx == nil {
+		return context.Background()
+	}
+	return self.query_ctx
+}
+
 func (self *Scope) SetLogger(logger *log.Logger) {
 	self.dispatcher.Logger = logger
 }
@@ -271,8 +291,7 @@ func (self *Scope) Eq(a types.Any, b types.Any) bool {
 
 // Evaluate the truth value of a value.
 func (self *Scope) Bool(a types.Any) bool {
-	ctx := context.Background()
-	return self.dispatcher.bool.Bool(ctx, self, a)
+	return self.dispatcher.bool.Bool(self.QueryContext(), self, a)
 }
 
 // Is a less than b?
@@ -357,6 +376,7 @@ func (self *Scope) Copy() types.Scope {
 		parent:           self,
 		enable_explainer: self.enable_explainer,
 		throttler:        self.throttler,
+		query_ctx:        self.query_ctx,
 		ag_context:       nil, //  Search for context in our parent.
 		id:               NextId(),
 	}
diff --git a/stored.go b/stored.go
index 865025e..5a0198c 100644
--- a/stored.go
+++ b/stored.go
@@ -72,6 +72,8 @@ func (self *_StoredQuery) Eval(ctx context.Context, scope types.Scope) <-chan Ro
 		new_scope := scope.Copy()
 		defer new_scope.Close()
 
+		types.SetQueryContext(ctx, new_scope)
+
 		for row := range self.query.Eval(ctx, new_scope) {
 			select {
 			case <-ctx.Done():
diff --git a/types/scope.go b/types/scope.go
index d855065..4c74894 100644
--- a/types/scope.go
+++ b/types/scope.go
@@ -119,6 +119,31 @@ type Scope interface {
 	Close()
 }
 
+// Scopes which evaluate a query carry its context: operators (which
+// have no context of their own) use it to evaluate stored queries, so
+// these are cancelled together with the query.
+type QueryContextScope interface {
+	SetQueryContext(ctx context.Context)
+	QueryContext() context.Context
+}
+
+// Record in the scope which context its query is evaluated with.
+func SetQueryContext(ctx context.Context, scope Scope) {
+	t, ok := scope.(QueryContextScope)
+	if ok {
+		t.SetQueryContext(ctx)
+	}
+}
+
+// The context of the query which is evaluated in the scope.
+func QueryContext(scope Scope) context.Context {
+	t, ok := scope.(QueryContextScope)
+	if ok {
+		return t.QueryContext()
+	}
+	return context.Background()
+}
+
 // Utilities to do with scope.
 func RecoverVQL(scope Scope) {
 	r := recover()
diff --git a/vfilter.go b/vfilter.go
index 7b6511c..e88bd10 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -462,7 +462,12 @@ func (self *VQL) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 				// It may yield a stored query - in
 				// that case we materialize it in
 				// place.
-				value := expr.Reduce(ctx, scope)
+				subscope := scope.Copy()
+				defer subscope.Close()
+
+				types.SetQueryContext(ctx, subscope)
+
+				value := expr.Reduce(ctx, subscope)
 				stored_query, ok := value.(types.StoredQuery)
 				if ok {
 					value = scope.Materialize(ctx, name, stored_query)
@@ -501,6 +506,7 @@ func (self *VQL) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 
 	} else {
 		subscope := scope.Copy()
+		types.SetQueryContext(ctx, subscope)
 		subscope.AppendVars(
 			ordereddict.NewDict().Set("$Query", FormatToString(scope, self)))
 
@@ -737,6 +743,8 @@ func (self *_Select) processSingleRow(
 	subscope := scope.Copy()
 	defer subscope.Close()
 
+	types.SetQueryContext(ctx, subscope)
+
 	transformed_row, closer := self.SelectExpression.Transform(
 		ctx, subscope, row)
 	defer closer()
@@ -770,7 +778,7 @@ func (self *_Select) processSingleRow(
 
 		// If the filtered expression returns a bool true,
 		// then pass the row to the output.
-		if expression != nil && scope.Bool(expression) {
+		if expression != nil && new_scope.Bool(expression) {
 			materialized_row := MaterializedLazyRow(
 				ctx, transformed_row, new_scope)
 			select {
diff --git a/vfilter_group.go b/vfilter_group.go
index e641fad..061cdfb 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -36,6 +36,7 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 		// when the scope is closed, the vars can be removed for the next
 		// row.
 		new_scope := scope.Copy()
+		types.SetQueryContext(ctx, new_scope)
 
 		// The transform captures the scope inside the LazyRow so when
 		// it gets evaluated it can see previous values.
@@ -57,7 +58,7 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 
 			// If the filtered expression returns a bool false, then
 			// skip the row.
-			if expression == nil || !scope.Bool(expression) {
+			if expression == nil || !new_scope.Bool(expression) {
 				new_scope.Trace("During Groupby: Row rejected")
 
 				// Prepare the next row
-- 
2.43.0


From 236d591faa44a0d76fb82052619f2a704362a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 42/72] fix: keep the scope of a stored query with arguments
 open while it runs

---
 stored.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/stored.go b/stored.go
index 5a0198c..87c9fac 100644
--- a/stored.go
+++ b/stored.go
@@ -100,7 +100,6 @@ func (self *_StoredQuery) Call(ctx context.Context,
 	// functions inside the stored query start fresh.
 	sub_scope := scope.Copy()
 	sub_scope.SetAggregatorCtx(nil)
-	defer sub_scope.Close()
 
 	self.checkCallingArgs(sub_scope, args)
 
@@ -122,7 +121,24 @@ func (self *_StoredQuery) Call(ctx context.Context,
 	}
 
 	sub_scope.AppendVars(vars)
-	return self.Eval(ctx, sub_scope)
+
+	// The query runs in the background - the scope may only be closed
+	// when it is done.
+	output_chan := make(chan Row)
+	go func() {
+		defer close(output_chan)
+		defer sub_scope.Close()
+
+		for row := range self.Eval(ctx, sub_scope) {
+			select {
+			case <-ctx.Done():
+				return
+
+			case output_chan <- row:
+			}
+		}
+	}()
+	return output_chan
 }
 
 func (self *_StoredQuery) checkCallingArgs(scope types.Scope, args *ordereddict.Dict) {
-- 
2.43.0


From 3ed2f6cd317b28db701955ad9c876d7307ff4506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 43/72] fix: print queries as their text rather than as
 addresses

---
 stored.go  | 8 ++++++++
 vfilter.go | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/stored.go b/stored.go
index 87c9fac..f24a71d 100644
--- a/stored.go
+++ b/stored.go
@@ -62,6 +62,10 @@ func (self *_StoredQuery) GoString() string {
 		self.name, FormatToString(scope, self.query), self.parameters)
 }
 
+func (self *_StoredQuery) Format(s fmt.State, verb rune) {
+	fmt.Fprint(s, self.GoString())
+}
+
 func (self *_StoredQuery) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 	output_chan := make(chan Row)
 
@@ -296,6 +300,10 @@ type StoredQueryCallSite struct {
 	scope Scope
 }
 
+func (self *StoredQueryCallSite) Format(s fmt.State, verb rune) {
+	fmt.Fprintf(s, "%v", self.query)
+}
+
 func (self *StoredQueryCallSite) Eval(ctx context.Context, scope Scope) <-chan Row {
 	// Use our embedded scope instead.
 	return self.query.Eval(ctx, self.scope)
diff --git a/vfilter.go b/vfilter.go
index e88bd10..442040f 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -615,6 +615,12 @@ func (self *_Select) GoString() string {
 	return FormatToString(scope, self)
 }
 
+// Queries are printed as their text - and not as the (random) addresses
+// of the nodes in their AST.
+func (self *_Select) Format(s fmt.State, verb rune) {
+	fmt.Fprint(s, self.GoString())
+}
+
 func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 	// If the EXPLAIN keyword was used, enabled explaining for this
 	// scope and its children.
-- 
2.43.0


From 2276c4b4a6c64124f52c59f0967f6d7e88eec82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 44/72] fix: set argument fields of named types, float32 fields
 and nil values without a panic

---
 arg_parser/parser.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/arg_parser/parser.go b/arg_parser/parser.go
index 801b144..32d641b 100644
--- a/arg_parser/parser.go
+++ b/arg_parser/parser.go
@@ -76,8 +76,7 @@ func (self *Parser) Parse(
 		}
 
 		// Now set the field on the struct.
-		field_value := target.Field(parser.FieldIdx)
-		field_value.Set(reflect.ValueOf(new_value))
+		setField(target.Field(parser.FieldIdx), new_value)
 	}
 
 	// Something is wrong! We did not extract all the fields from
@@ -94,6 +93,31 @@ func (self *Parser) Parse(
 	return nil
 }
 
+// Set the field to the parsed value. The value's type may differ from
+// the field's type if that is e.g. a float32 or a named type.
+func setField(field reflect.Value, new_value interface{}) {
+	value := reflect.ValueOf(new_value)
+	field_type := field.Type()
+
+	switch {
+	case !value.IsValid():
+		field.Set(reflect.Zero(field_type))
+
+	case value.Type().AssignableTo(field_type):
+		field.Set(value)
+
+	case field_type.Kind() == reflect.Slice:
+		result := reflect.MakeSlice(field_type, value.Len(), value.Len())
+		for i := 0; i < value.Len(); i++ {
+			setField(result.Index(i), value.Index(i).Interface())
+		}
+		field.Set(result)
+
+	default:
+		field.Set(value.Convert(field_type))
+	}
+}
+
 // Parses the args as free form args:
 // * Extract known fields into the target struct.
 // * Other fields will be returns as the kwargs dict.
@@ -121,8 +145,7 @@ func (self *Parser) ParseAsFreeForm(
 		}
 
 		// Now set the field on the struct.
-		field_value := target.Field(parser.FieldIdx)
-		field_value.Set(reflect.ValueOf(new_value))
+		setField(target.Field(parser.FieldIdx), new_value)
 	}
 
 	// Remaining fields are collected into the kwargs
-- 
2.43.0


From aa26dcb0ceaafa33099c5a4726c1f53799bb9091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 45/72] fix: parse nil arguments and nil pointers without a
 panic

---
 arg_parser/args.go   | 18 +++++++++-------
 arg_parser/parser.go | 50 +++++++++-----------------------------------
 arg_parser/utils.go  | 18 ++++++++++++++++
 3 files changed, 39 insertions(+), 47 deletions(-)

diff --git a/arg_parser/args.go b/arg_parser/args.go
index 45d97cc..4bdef00 100644
--- a/arg_parser/args.go
+++ b/arg_parser/args.go
@@ -106,9 +106,9 @@ func _ExtractStringArray(
 	var result []string
 
 	// Handle potentially lazy args.
-	lazy_arg, ok := arg.(types.LazyExpr)
-	if ok {
-		arg = lazy_arg.Reduce(ctx)
+	arg = reduceArg(ctx, arg)
+	if types.IsNil(arg) {
+		return []string{}, true
 	}
 
 	slice := reflect.ValueOf(arg)
@@ -116,7 +116,7 @@ func _ExtractStringArray(
 	// A slice of strings.
 	if slice.Type().Kind() == reflect.Slice {
 		for i := 0; i < slice.Len(); i++ {
-			value := slice.Index(i).Interface()
+			value := nilPointer(slice.Index(i).Interface())
 			item, ok := utils.ToString(value)
 			if ok {
 				result = append(result, item)
@@ -158,9 +158,9 @@ func _ExtractAnyArray(
 	var result []types.Any
 
 	// Handle potentially lazy args.
-	lazy_arg, ok := arg.(types.LazyExpr)
-	if ok {
-		arg = lazy_arg.Reduce(ctx)
+	arg = reduceArg(ctx, arg)
+	if arg == nil {
+		return append(result, arg), true
 	}
 
 	slice := reflect.ValueOf(arg)
@@ -201,6 +201,10 @@ func (self *StoredQueryWrapper) Eval(ctx context.Context, scope types.Scope) <-c
 	go func() {
 		defer close(output_chan)
 
+		if types.IsNil(self.Value) {
+			return
+		}
+
 		slice := reflect.ValueOf(self.Value)
 		if slice.Type().Kind() == reflect.Slice {
 			for i := 0; i < slice.Len(); i++ {
diff --git a/arg_parser/parser.go b/arg_parser/parser.go
index 32d641b..10f52f3 100644
--- a/arg_parser/parser.go
+++ b/arg_parser/parser.go
@@ -198,10 +198,7 @@ func lazyAnyParser(ctx context.Context, scope types.Scope,
 }
 func sliceParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
-	lazy_arg, ok := arg.(types.LazyExpr)
-	if ok {
-		arg = lazy_arg.Reduce(ctx)
-	}
+	arg = reduceArg(ctx, arg)
 
 	new_value, pres := _ExtractStringArray(ctx, scope, arg)
 	if pres {
@@ -212,10 +209,7 @@ func sliceParser(ctx context.Context, scope types.Scope,
 
 func sliceAnyParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
-	lazy_arg, ok := arg.(types.LazyExpr)
-	if ok {
-		arg = lazy_arg.Reduce(ctx)
-	}
+	arg = reduceArg(ctx, arg)
 
 	new_value, pres := _ExtractAnyArray(ctx, scope, arg)
 	if pres {
@@ -226,10 +220,7 @@ func sliceAnyParser(ctx context.Context, scope types.Scope,
 
 func sliceDictParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
-	lazy_arg, ok := arg.(types.LazyExpr)
-	if ok {
-		arg = lazy_arg.Reduce(ctx)
-	}
+	arg = reduceArg(ctx, arg)
 
 	new_value, pres := _ExtractAnyArray(ctx, scope, arg)
 	if !pres {
@@ -249,10 +240,7 @@ func sliceDictParser(ctx context.Context, scope types.Scope,
 
 func stringParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
-	lazy_arg, ok := arg.(types.LazyExpr)
-	if ok {
-		arg = lazy_arg.Reduce(ctx)
-	}
+	arg = reduceArg(ctx, arg)
 
 	// If we expect a string and we get an array
 	// of length 1 of strings, we just take the
@@ -292,20 +280,14 @@ func stringParser(ctx context.Context, scope types.Scope,
 
 func boolParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
-	lazy_arg, ok := arg.(types.LazyExpr)
-	if ok {
-		arg = lazy_arg.Reduce(ctx)
-	}
+	arg = reduceArg(ctx, arg)
 
 	return scope.Bool(arg), nil
 }
 
 func floatParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
-	lazy_arg, ok := arg.(types.LazyExpr)
-	if ok {
-		arg = lazy_arg.Reduce(ctx)
-	}
+	arg = reduceArg(ctx, arg)
 
 	a, ok := utils.ToFloat(arg)
 	if ok {
@@ -316,10 +298,7 @@ func floatParser(ctx context.Context, scope types.Scope,
 
 func int64Parser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
-	lazy_arg, ok := arg.(types.LazyExpr)
-	if ok {
-		arg = lazy_arg.Reduce(ctx)
-	}
+	arg = reduceArg(ctx, arg)
 
 	a, ok := utils.ToInt64(arg)
 	if ok {
@@ -331,10 +310,7 @@ func int64Parser(ctx context.Context, scope types.Scope,
 // The target field is an ordered dict type - just assign it directly.
 func dictParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
-	lazy_arg, ok := arg.(types.LazyExpr)
-	if ok {
-		arg = lazy_arg.Reduce(ctx)
-	}
+	arg = reduceArg(ctx, arg)
 
 	// Build the query args
 	env := ordereddict.NewDict()
@@ -363,10 +339,7 @@ func dictParser(ctx context.Context, scope types.Scope,
 
 func uInt64Parser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
-	lazy_arg, ok := arg.(types.LazyExpr)
-	if ok {
-		arg = lazy_arg.Reduce(ctx)
-	}
+	arg = reduceArg(ctx, arg)
 
 	a, ok := utils.ToInt64(arg)
 	if ok {
@@ -377,10 +350,7 @@ func uInt64Parser(ctx context.Context, scope types.Scope,
 
 func intParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
-	lazy_arg, ok := arg.(types.LazyExpr)
-	if ok {
-		arg = lazy_arg.Reduce(ctx)
-	}
+	arg = reduceArg(ctx, arg)
 
 	a, ok := utils.ToInt64(arg)
 	if ok {
diff --git a/arg_parser/utils.go b/arg_parser/utils.go
index 47b522c..0baf3fa 100644
--- a/arg_parser/utils.go
+++ b/arg_parser/utils.go
@@ -2,11 +2,29 @@ package arg_parser
 
 import (
 	"context"
+	"reflect"
 
 	"github.com/Velocidex/ordereddict"
 	"www.velocidex.com/golang/vfilter/types"
 )
 
+// Reduce lazy args. A pointer to nothing is the same as no value.
+func reduceArg(ctx context.Context, arg types.Any) types.Any {
+	lazy_arg, ok := arg.(types.LazyExpr)
+	if ok {
+		arg = lazy_arg.Reduce(ctx)
+	}
+	return nilPointer(arg)
+}
+
+func nilPointer(arg types.Any) types.Any {
+	value := reflect.ValueOf(arg)
+	if value.Kind() == reflect.Ptr && value.IsNil() {
+		return nil
+	}
+	return arg
+}
+
 func GetStringArg(
 	ctx context.Context, scope types.Scope, args *ordereddict.Dict, field string) string {
 	any_, pres := args.Get(field)
-- 
2.43.0


From 354d5e228fe96864d05a9e0e6247667c565e1409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 46/72] fix: report numbers that do not fit an integer argument

---
 arg_parser/parser.go | 10 +++++-----
 arg_parser/utils.go  | 37 +++++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/arg_parser/parser.go b/arg_parser/parser.go
index 10f52f3..32d179c 100644
--- a/arg_parser/parser.go
+++ b/arg_parser/parser.go
@@ -300,7 +300,7 @@ func int64Parser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
 	arg = reduceArg(ctx, arg)
 
-	a, ok := utils.ToInt64(arg)
+	a, ok := toInt64(arg)
 	if ok {
 		return a, nil
 	}
@@ -341,9 +341,9 @@ func uInt64Parser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
 	arg = reduceArg(ctx, arg)
 
-	a, ok := utils.ToInt64(arg)
+	a, ok := toUint64(arg)
 	if ok {
-		return uint64(a), nil
+		return a, nil
 	}
 	return nil, fmt.Errorf("should be an int not %T.", arg)
 }
@@ -352,8 +352,8 @@ func intParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
 	arg = reduceArg(ctx, arg)
 
-	a, ok := utils.ToInt64(arg)
-	if ok {
+	a, ok := toInt64(arg)
+	if ok && int64(int(a)) == a {
 		return int(a), nil
 	}
 	return nil, fmt.Errorf("should be an int not %T.", arg)
diff --git a/arg_parser/utils.go b/arg_parser/utils.go
index 0baf3fa..a0d7623 100644
--- a/arg_parser/utils.go
+++ b/arg_parser/utils.go
@@ -2,10 +2,12 @@ package arg_parser
 
 import (
 	"context"
+	"math"
 	"reflect"
 
 	"github.com/Velocidex/ordereddict"
 	"www.velocidex.com/golang/vfilter/types"
+	"www.velocidex.com/golang/vfilter/utils"
 )
 
 // Reduce lazy args. A pointer to nothing is the same as no value.
@@ -25,6 +27,41 @@ func nilPointer(arg types.Any) types.Any {
 	return arg
 }
 
+// Convert to an int64 if the number fits into one.
+func toInt64(arg types.Any) (int64, bool) {
+	switch t := arg.(type) {
+	case uint64:
+		if t > math.MaxInt64 {
+			return 0, false
+		}
+	case uint:
+		if uint64(t) > math.MaxInt64 {
+			return 0, false
+		}
+	case float64:
+		if !(t >= -(1<<63) && t < 1<<63) {
+			return 0, false
+		}
+	}
+	return utils.ToInt64(arg)
+}
+
+// Convert to a uint64 if the number fits into one.
+func toUint64(arg types.Any) (uint64, bool) {
+	switch t := arg.(type) {
+	case uint64:
+		return t, true
+	case uint:
+		return uint64(t), true
+	case float64:
+		if t >= 1<<63 && t < 1<<64 {
+			return uint64(t), true
+		}
+	}
+	a, ok := toInt64(arg)
+	return uint64(a), ok && a >= 0
+}
+
 func GetStringArg(
 	ctx context.Context, scope types.Scope, args *ordereddict.Dict, field string) string {
 	any_, pres := args.Get(field)
-- 
2.43.0


From 6b58df4d32adafbb1018e2840a5f77d9879489ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 47/72] fix: keep the other arguments of a call next to **

---
 arg_parser/args.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/arg_parser/args.go b/arg_parser/args.go
index 4bdef00..a4b6c96 100644
--- a/arg_parser/args.go
+++ b/arg_parser/args.go
@@ -47,8 +47,22 @@ func NormalizeArgs(args *ordereddict.Dict) *ordereddict.Dict {
 		}
 
 		alt_args, ok := alt_args_any.(*ordereddict.Dict)
-		if ok {
-			return alt_args
+		if ok && alt_args != nil {
+			if args.Len() == 1 {
+				return alt_args
+			}
+
+			// There are other args as well.
+			result := ordereddict.NewDict()
+			for _, item := range alt_args.Items() {
+				result.Set(item.Key, item.Value)
+			}
+			for _, item := range args.Items() {
+				if item.Key != "**" {
+					result.Set(item.Key, item.Value)
+				}
+			}
+			return result
 		}
 	}
 
-- 
2.43.0


From 42e0fab96daea5ee18dd3570b89a2ca076fc3f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 48/72] fix: take byte strings and one column rows as one
 element of a list of strings

---
 arg_parser/args.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/arg_parser/args.go b/arg_parser/args.go
index a4b6c96..5c151f8 100644
--- a/arg_parser/args.go
+++ b/arg_parser/args.go
@@ -125,6 +125,12 @@ func _ExtractStringArray(
 		return []string{}, true
 	}
 
+	// A single string just expands into a list of length 1.
+	item, ok := utils.ToString(arg)
+	if ok {
+		return []string{item}, true
+	}
+
 	slice := reflect.ValueOf(arg)
 
 	// A slice of strings.
@@ -146,6 +152,7 @@ func _ExtractStringArray(
 					item, ok := utils.ToString(member)
 					if ok {
 						result = append(result, item)
+						continue
 					}
 				}
 			}
@@ -156,14 +163,8 @@ func _ExtractStringArray(
 		return result, true
 	}
 
-	// A single string just expands into a list of length 1.
-	item, ok := utils.ToString(slice.Interface())
-	if !ok {
-		// If it has no StringProtocol fall back to golang
-		// default.
-		item = fmt.Sprintf("%v", slice.Interface())
-	}
-	result = append(result, item)
+	// If it has no StringProtocol fall back to golang default.
+	result = append(result, fmt.Sprintf("%v", slice.Interface()))
 	return result, true
 }
 
-- 
2.43.0


From 297f1bf2b6ef20d8bc410d082ba8ecf97889bdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 49/72] fix: report arguments that are not dicts where dicts
 are declared

---
 arg_parser/parser.go |  7 +++++++
 arg_parser/utils.go  | 18 ++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/arg_parser/parser.go b/arg_parser/parser.go
index 32d179c..65d69ad 100644
--- a/arg_parser/parser.go
+++ b/arg_parser/parser.go
@@ -231,6 +231,9 @@ func sliceDictParser(ctx context.Context, scope types.Scope,
 	for i := 0; i < len(new_value); i++ {
 		item := new_value[i]
 		if !types.IsNil(item) {
+			if !isDictLike(scope, item) {
+				return nil, fmt.Errorf("should be a list of dicts not %T.", item)
+			}
 			result = append(result, dict.RowToDict(ctx, scope, item))
 		}
 	}
@@ -327,6 +330,10 @@ func dictParser(ctx context.Context, scope types.Scope,
 			return nil, fmt.Errorf("should be a dict not %T.", arg)
 		}
 
+		if !isDictLike(scope, arg) {
+			return nil, fmt.Errorf("should be a dict not %T.", arg)
+		}
+
 		// Fallback for dict like things
 		for _, member := range scope.GetMembers(arg) {
 			v, _ := scope.Associative(arg, member)
diff --git a/arg_parser/utils.go b/arg_parser/utils.go
index a0d7623..83e610b 100644
--- a/arg_parser/utils.go
+++ b/arg_parser/utils.go
@@ -27,6 +27,24 @@ func nilPointer(arg types.Any) types.Any {
 	return arg
 }
 
+// Does the value have members, or could it have some?
+func isDictLike(scope types.Scope, arg types.Any) bool {
+	_, ok := arg.(types.StoredQuery)
+	if ok {
+		return false
+	}
+
+	if len(scope.GetMembers(arg)) > 0 {
+		return true
+	}
+
+	switch reflect.Indirect(reflect.ValueOf(arg)).Kind() {
+	case reflect.Struct, reflect.Map:
+		return true
+	}
+	return false
+}
+
 // Convert to an int64 if the number fits into one.
 func toInt64(arg types.Any) (int64, bool) {
 	switch t := arg.(type) {
-- 
2.43.0


From 07da580aaa106348e2d6ef69e3915b277af9652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 50/72] fix: pass the rows of a query to an argument that is a
 list of dicts

---
 arg_parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arg_parser/parser.go b/arg_parser/parser.go
index 65d69ad..8517487 100644
--- a/arg_parser/parser.go
+++ b/arg_parser/parser.go
@@ -222,6 +222,11 @@ func sliceDictParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
 	arg = reduceArg(ctx, arg)
 
+	stored_query, ok := arg.(types.StoredQuery)
+	if ok {
+		arg = types.Materialize(ctx, scope, stored_query)
+	}
+
 	new_value, pres := _ExtractAnyArray(ctx, scope, arg)
 	if !pres {
 		return []interface{}{}, nil
-- 
2.43.0


From d6f19165d98c7cccfbf3811821bedf2b8200e3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 51/72] fix: accept float32 values as numbers

---
 arg_parser/utils.go | 4 ++++
 utils/utils.go      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/arg_parser/utils.go b/arg_parser/utils.go
index 83e610b..b37401b 100644
--- a/arg_parser/utils.go
+++ b/arg_parser/utils.go
@@ -48,6 +48,8 @@ func isDictLike(scope types.Scope, arg types.Any) bool {
 // Convert to an int64 if the number fits into one.
 func toInt64(arg types.Any) (int64, bool) {
 	switch t := arg.(type) {
+	case float32:
+		return toInt64(float64(t))
 	case uint64:
 		if t > math.MaxInt64 {
 			return 0, false
@@ -67,6 +69,8 @@ func toInt64(arg types.Any) (int64, bool) {
 // Convert to a uint64 if the number fits into one.
 func toUint64(arg types.Any) (uint64, bool) {
 	switch t := arg.(type) {
+	case float32:
+		return toUint64(float64(t))
 	case uint64:
 		return t, true
 	case uint:
diff --git a/utils/utils.go b/utils/utils.go
index 1ec3062..be49f3b 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -92,6 +92,8 @@ func ToFloat(x interface{}) (float64, bool) {
 		}
 	case float64:
 		return t, true
+	case float32:
+		return float64(t), true
 	case int:
 		return float64(t), true
 	case uint:
@@ -185,6 +187,8 @@ func ToInt64(x interface{}) (int64, bool) {
 		return t, true
 	case float64:
 		return int64(t), true
+	case float32:
+		return int64(t), true
 
 	case *int:
 		return int64(*t), true
-- 
2.43.0


From b8f80fa4354dccdf3b5e3be133da02cb4825a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 52/72] fix: save the defaults and the quoted names of
 parameters

---
 marshal.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/marshal.go b/marshal.go
index 74b866d..aa28021 100644
--- a/marshal.go
+++ b/marshal.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"regexp"
 	"strings"
 
 	"github.com/Velocidex/ordereddict"
@@ -11,12 +12,33 @@ import (
 	"www.velocidex.com/golang/vfilter/types"
 )
 
+// Identifiers that do not need quoting.
+var identRegex = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_]*$`)
+
 type StoredQueryItem struct {
 	Query      string   `json:"query,omitempty"`
 	Name       string   `json:"name,omitempty"`
 	Parameters []string `json:"parameters,omitempty"`
 }
 
+// The parameters of a definition together with their defaults.
+func formatParameters(scope types.Scope,
+	parameters []string, defaults map[string]*_Args) string {
+	var result []string
+	for _, name := range parameters {
+		arg, pres := defaults[name]
+		switch {
+		case pres:
+			result = append(result, FormatToString(scope, arg))
+		case identRegex.MatchString(name):
+			result = append(result, name)
+		default:
+			result = append(result, "`"+name+"`")
+		}
+	}
+	return strings.Join(result, ", ")
+}
+
 func (self *_StoredQuery) Marshal(
 	scope types.Scope) (*types.MarshalItem, error) {
 
@@ -26,7 +48,7 @@ func (self *_StoredQuery) Marshal(
 			FormatToString(scope, self.query))
 	} else {
 		query = fmt.Sprintf("LET `%v`(%s) = %s", self.name,
-			strings.Join(self.parameters, ", "),
+			formatParameters(scope, self.parameters, self.defaults),
 			FormatToString(scope, self.query))
 	}
 
@@ -46,7 +68,7 @@ func (self *StoredExpression) Marshal(
 			FormatToString(scope, self.Expr))
 	} else {
 		query = fmt.Sprintf("LET `%v`(%s) = %s", self.name,
-			strings.Join(self.parameters, ", "),
+			formatParameters(scope, self.parameters, self.defaults),
 			FormatToString(scope, self.Expr))
 	}
 
-- 
2.43.0


From 2baf1c2b7c1da510df73902cd395ad5d9f319acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 53/72] fix: save the other variables of a scope when one
 cannot be saved

---
 scope/marshal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scope/marshal.go b/scope/marshal.go
index 5140435..27d6621 100644
--- a/scope/marshal.go
+++ b/scope/marshal.go
@@ -39,7 +39,9 @@ func (self *Scope) Marshal(scope types.Scope) (*types.MarshalItem, error) {
 			// Just marshal each element
 			serialized, err := marshal.Marshal(scope, value)
 			if err != nil {
-				return nil, err
+				// Other variables can still be saved.
+				scope.Log("ERROR:Unable to marshal %v: %v", k, err)
+				continue
 			}
 			result.Vars[k] = serialized
 		}
-- 
2.43.0


From 74344e5801324ce20b822e96fa82dced12e549b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 54/72] fix: restore integers and the order of members of saved
 values

---
 marshal/unmarshal.go | 76 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 73 insertions(+), 3 deletions(-)

diff --git a/marshal/unmarshal.go b/marshal/unmarshal.go
index 974b25c..0f7a539 100644
--- a/marshal/unmarshal.go
+++ b/marshal/unmarshal.go
@@ -1,9 +1,13 @@
 package marshal
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
+	"io"
+	"strconv"
 
+	"github.com/Velocidex/ordereddict"
 	"www.velocidex.com/golang/vfilter/types"
 )
 
@@ -21,9 +25,7 @@ func (self *Unmarshaller) Unmarshal(
 	scope types.Scope, item *types.MarshalItem) (interface{}, error) {
 	switch item.Type {
 	case "JSON":
-		var value interface{}
-		err := json.Unmarshal(item.Data, &value)
-		return value, err
+		return decodeJSON(item.Data)
 
 	default:
 		handler, pres := self.Handlers[item.Type]
@@ -40,3 +42,71 @@ func NewUnmarshaller() *Unmarshaller {
 		Handlers: make(map[string]types.Unmarshaller),
 	}
 }
+
+// Decode JSON data so that objects keep the order of their members and
+// integers remain integers.
+func decodeJSON(data []byte) (interface{}, error) {
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+
+	value, err := decodeValue(decoder)
+	if err != nil {
+		return nil, err
+	}
+
+	_, err = decoder.Token()
+	if err != io.EOF {
+		return nil, errors.New("Unexpected data after a JSON value")
+	}
+	return value, nil
+}
+
+func decodeValue(decoder *json.Decoder) (interface{}, error) {
+	token, err := decoder.Token()
+	if err != nil {
+		return nil, err
+	}
+
+	switch t := token.(type) {
+	case json.Number:
+		value, err := strconv.ParseInt(t.String(), 10, 64)
+		if err == nil {
+			return value, nil
+		}
+		return t.Float64()
+
+	case json.Delim:
+		if t == '[' {
+			result := []interface{}{}
+			for decoder.More() {
+				value, err := decodeValue(decoder)
+				if err != nil {
+					return nil, err
+				}
+				result = append(result, value)
+			}
+			_, err := decoder.Token()
+			return result, err
+		}
+
+		result := ordereddict.NewDict()
+		for decoder.More() {
+			key, err := decoder.Token()
+			if err != nil {
+				return nil, err
+			}
+
+			value, err := decodeValue(decoder)
+			if err != nil {
+				return nil, err
+			}
+
+			key_str, _ := key.(string)
+			result.Set(key_str, value)
+		}
+		_, err := decoder.Token()
+		return result, err
+	}
+
+	return token, nil
+}
-- 
2.43.0


From 90e6a70451a8330e7ba7f48100ad828f7f018339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 55/72] fix: restore variables that are NULL

---
 marshal/unmarshal.go | 3 +++
 scope/marshal.go     | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/marshal/unmarshal.go b/marshal/unmarshal.go
index 0f7a539..0e2a8cb 100644
--- a/marshal/unmarshal.go
+++ b/marshal/unmarshal.go
@@ -108,5 +108,8 @@ func decodeValue(decoder *json.Decoder) (interface{}, error) {
 		return result, err
 	}
 
+	if token == nil {
+		return &types.Null{}, nil
+	}
 	return token, nil
 }
diff --git a/scope/marshal.go b/scope/marshal.go
index 27d6621..efac21c 100644
--- a/scope/marshal.go
+++ b/scope/marshal.go
@@ -78,7 +78,9 @@ func (self ScopeUnmarshaller) Unmarshal(
 		unmarshalled, err := unmarshaller.Unmarshal(unmarshaller,
 			new_scope, v)
 		if err == nil {
-			if !types.IsNil(unmarshalled) {
+			// Nil means the handler already defined the variable
+			// (A variable may also be NULL).
+			if unmarshalled != nil {
 				env.Set(k, unmarshalled)
 			}
 		} else {
-- 
2.43.0


From 7da98d4d2c8cced4543acb2d7339a98971f641ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 56/72] fix: range() with a negative step or a step over the
 largest integer never ended

---
 plugins/range.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/plugins/range.go b/plugins/range.go
index bf1c0a6..25d258c 100644
--- a/plugins/range.go
+++ b/plugins/range.go
@@ -2,6 +2,7 @@ package plugins
 
 import (
 	"context"
+	"math"
 
 	"github.com/Velocidex/ordereddict"
 	"www.velocidex.com/golang/vfilter/arg_parser"
@@ -36,6 +37,11 @@ func (self RangePlugin) Call(
 			arg.Step = 1
 		}
 
+		if arg.Step < 0 {
+			scope.Log("range: step must not be negative")
+			return
+		}
+
 		for i := arg.Start; i < arg.End; i += arg.Step {
 			select {
 			case <-ctx.Done():
@@ -43,6 +49,11 @@ func (self RangePlugin) Call(
 
 			case output_chan <- ordereddict.NewDict().Set("_value", i):
 			}
+
+			// The next index does not fit, so it is behind the end.
+			if i > math.MaxInt64-arg.Step {
+				return
+			}
 		}
 	}()
 
-- 
2.43.0


From 5e48146c1bcddb8da6e7d0a6685d55aa675d0d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 57/72] fix: format() with wrong arguments is NULL, not FALSE

---
 functions/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/functions/format.go b/functions/format.go
index d7d4101..32fe7b0 100644
--- a/functions/format.go
+++ b/functions/format.go
@@ -24,7 +24,7 @@ func (self FormatFunction) Call(ctx context.Context,
 	err := arg_parser.ExtractArgsWithContext(ctx, scope, args, arg)
 	if err != nil {
 		scope.Log("format: %v", err)
-		return false
+		return types.Null{}
 	}
 
 	var format_args []interface{}
-- 
2.43.0


From fab6482a6639a9026caa54854dd49232e51a4009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 58/72] fix: encode() encodes errors and does base64, as
 documented

---
 functions/functions.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/functions/functions.go b/functions/functions.go
index 951e48b..20570e5 100644
--- a/functions/functions.go
+++ b/functions/functions.go
@@ -2,6 +2,7 @@ package functions
 
 import (
 	"context"
+	"encoding/base64"
 	"encoding/hex"
 	"fmt"
 	"io/ioutil"
@@ -199,7 +200,7 @@ func (self _EncodeFunction) Call(
 		arg_string = string(t)
 
 	case error:
-		return t.Error()
+		arg_string = t.Error()
 
 	case fmt.Stringer:
 		arg_string = t.String()
@@ -212,6 +213,9 @@ func (self _EncodeFunction) Call(
 	case "hex":
 		return hex.EncodeToString([]byte(arg_string))
 
+	case "base64":
+		return base64.StdEncoding.EncodeToString([]byte(arg_string))
+
 	case "string":
 		return arg_string
 
-- 
2.43.0


From c0beca98b8c23f3932c80061f31fa1e032930e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 59/72] fix: if() gave the else value when then was a lazy
 value

---
 functions/if.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/functions/if.go b/functions/if.go
index e96510e..51b82ce 100644
--- a/functions/if.go
+++ b/functions/if.go
@@ -52,11 +52,7 @@ func (self _IfFunction) Call(
 			return t
 
 		case types.LazyExpr:
-			exp := t.ReduceWithScope(ctx, scope)
-			s, ok := exp.(types.StoredQuery)
-			if ok {
-				return s
-			}
+			return t.ReduceWithScope(ctx, scope)
 
 		default:
 			return t
-- 
2.43.0


From 487224a3c170c660ed79e641c3b3bcf9054e9b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 60/72] fix: names of lambda parameters may be quoted

---
 lambda.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index 71168e3..02b1383 100644
--- a/lambda.go
+++ b/lambda.go
@@ -6,6 +6,7 @@ import (
 	"github.com/Velocidex/ordereddict"
 	"github.com/alecthomas/participle/v2"
 	"www.velocidex.com/golang/vfilter/types"
+	"www.velocidex.com/golang/vfilter/utils"
 )
 
 var (
@@ -25,7 +26,7 @@ func (self *Lambda) GetParameters() []string {
 
 	var visitor func(parameters *_ParameterList)
 	visitor = func(parameters *_ParameterList) {
-		result = append(result, parameters.Left)
+		result = append(result, utils.Unquote_ident(parameters.Left))
 		if parameters.Right != nil {
 			visitor(parameters.Right.Term)
 		}
-- 
2.43.0


From 6f4f475131718b40872a5896e8d94c667c3bfdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 61/72] fix: Go arrays give their elements as rows

---
 protocols/protocol_iterate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocols/protocol_iterate.go b/protocols/protocol_iterate.go
index 5f79041..ce9b021 100644
--- a/protocols/protocol_iterate.go
+++ b/protocols/protocol_iterate.go
@@ -96,7 +96,7 @@ func _SliceIterator(ctx context.Context, scope types.Scope, a types.Any) <-chan
 		defer close(output_chan)
 
 		a_value := reflect.Indirect(reflect.ValueOf(a))
-		if a_value.Type().Kind() == reflect.Slice {
+		if a_value.Kind() == reflect.Slice || a_value.Kind() == reflect.Array {
 			for i := 0; i < a_value.Len(); i++ {
 				value := a_value.Index(i).Interface()
 				if types.IsNil(value) {
-- 
2.43.0


From fbdaa3b84002c7297bc5013d161b13fc65e05d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 62/72] fix: defaults of parameters apply when applications
 call definitions

---
 stored.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/stored.go b/stored.go
index f24a71d..0c013c1 100644
--- a/stored.go
+++ b/stored.go
@@ -105,6 +105,8 @@ func (self *_StoredQuery) Call(ctx context.Context,
 	sub_scope := scope.Copy()
 	sub_scope.SetAggregatorCtx(nil)
 
+	args = withDefaults(ctx, scope, args, self.parameters, self.defaults)
+
 	self.checkCallingArgs(sub_scope, args)
 
 	vars := ordereddict.NewDict()
@@ -205,6 +207,24 @@ func (self *StoredExpression) ApplyDefaults(
 	applyDefaults(ctx, scope, args, self.parameters, self.defaults)
 }
 
+// A copy of the args with any missing ones added.
+func withDefaults(ctx context.Context, scope types.Scope,
+	args *ordereddict.Dict,
+	parameters []string,
+	defaults map[string]*_Args) *ordereddict.Dict {
+	if defaults == nil {
+		return args
+	}
+
+	result := ordereddict.NewDict()
+	for _, k := range args.Keys() {
+		v, _ := args.Get(k)
+		result.Set(k, v)
+	}
+	applyDefaults(ctx, scope, result, parameters, defaults)
+	return result
+}
+
 func applyDefaults(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict,
 	parameters []string,
@@ -239,6 +259,8 @@ func applyDefaults(ctx context.Context, scope types.Scope,
 // Act as a function
 func (self *StoredExpression) Call(ctx context.Context,
 	scope types.Scope, args *ordereddict.Dict) types.Any {
+	args = withDefaults(ctx, scope, args, self.parameters, self.defaults)
+
 	self.checkCallingArgs(scope, args)
 
 	sub_scope := scope.Copy()
@@ -257,8 +279,6 @@ func (self *StoredExpression) Call(ctx context.Context,
 		vars.Set(k, v)
 	}
 
-	self.ApplyDefaults(ctx, scope, vars)
-
 	sub_scope.AppendVars(vars)
 
 	return self.Reduce(ctx, sub_scope)
-- 
2.43.0


From 7d56864a0d0c7f4583779d5cd6b77d3651ccb734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 63/72] fix: explained conditions are not format strings

---
 explain/logging_explainer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/explain/logging_explainer.go b/explain/logging_explainer.go
index 8732d9c..9c30923 100644
--- a/explain/logging_explainer.go
+++ b/explain/logging_explainer.go
@@ -95,10 +95,10 @@ func (self *LoggingExplainer) SelectOutput(row types.Row) {
 }
 
 func (self *LoggingExplainer) Log(message string) {
-	self.scope.Log("DEBUG:" + message)
+	self.scope.Log("%v", "DEBUG:"+message)
 }
 
 func (self *LoggingExplainer) RejectRow(where_ast_node interface{}) {
-	self.scope.Log("DEBUG: REJECTED by " +
+	self.scope.Log("%v", "DEBUG: REJECTED by "+
 		vfilter.FormatToString(self.scope, where_ast_node))
 }
-- 
2.43.0


From 482b1e9835c78f4c0ba16232964e0996bbd79960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 64/72] fix: rows are explained before they are handed over

---
 vfilter.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 442040f..d688a78 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -759,12 +759,14 @@ func (self *_Select) processSingleRow(
 		materialized_row := MaterializedLazyRow(
 			ctx, transformed_row, subscope)
 
+		// Once sent the row belongs to the receiver.
+		scope.Explainer().SelectOutput(materialized_row)
+
 		select {
 		case <-ctx.Done():
 			return
 
 		case output_chan <- materialized_row:
-			scope.Explainer().SelectOutput(materialized_row)
 		}
 
 	} else {
@@ -787,12 +789,15 @@ func (self *_Select) processSingleRow(
 		if expression != nil && new_scope.Bool(expression) {
 			materialized_row := MaterializedLazyRow(
 				ctx, transformed_row, new_scope)
+
+			// Once sent the row belongs to the receiver.
+			scope.Explainer().SelectOutput(materialized_row)
+
 			select {
 			case <-ctx.Done():
 				return
 
 			case output_chan <- materialized_row:
-				scope.Explainer().SelectOutput(materialized_row)
 			}
 		} else {
 			scope.Explainer().RejectRow(self.Where)
-- 
2.43.0


From 72aae14f0b0040b66958aa3e0d02f05da22aa7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 65/72] fix: protocols of list types are consulted like those
 of other types

---
 protocols/protocol_bool.go    | 10 +++++-----
 protocols/protocol_eq.go      |  8 ++++----
 protocols/protocol_iterate.go |  8 ++++----
 protocols/protocol_regex.go   | 20 ++++++++++----------
 4 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/protocols/protocol_bool.go b/protocols/protocol_bool.go
index e621c7e..b9058c5 100644
--- a/protocols/protocol_bool.go
+++ b/protocols/protocol_bool.go
@@ -59,11 +59,6 @@ func (self BoolDispatcher) Bool(ctx context.Context, scope types.Scope, a types.
 		return self.Bool(ctx, scope, t.ReduceWithScope(ctx, scope))
 	}
 
-	if is_array(a) {
-		value_a := reflect.ValueOf(a)
-		return value_a.Len() > 0
-	}
-
 	for i, impl := range self.impl {
 		if impl.Applicable(a) {
 			scope.GetStats().IncProtocolSearch(i)
@@ -71,6 +66,11 @@ func (self BoolDispatcher) Bool(ctx context.Context, scope types.Scope, a types.
 		}
 	}
 
+	if is_array(a) {
+		value_a := reflect.ValueOf(a)
+		return value_a.Len() > 0
+	}
+
 	scope.Trace("Protocol Bool not found for %v (%T)", a, a)
 	return false
 }
diff --git a/protocols/protocol_eq.go b/protocols/protocol_eq.go
index eea9c8e..1fe248b 100644
--- a/protocols/protocol_eq.go
+++ b/protocols/protocol_eq.go
@@ -71,10 +71,6 @@ func (self EqDispatcher) Eq(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 	}
 
-	if is_array(a) && is_array(b) {
-		return _ArrayEq(scope, a, b)
-	}
-
 	for i, impl := range self.impl {
 		if impl.Applicable(a, b) {
 			scope.GetStats().IncProtocolSearch(i)
@@ -82,6 +78,10 @@ func (self EqDispatcher) Eq(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 	}
 
+	if is_array(a) && is_array(b) {
+		return _ArrayEq(scope, a, b)
+	}
+
 	// Nil values of any type are NULL.
 	if types.IsNil(b) {
 		return types.IsNil(a)
diff --git a/protocols/protocol_iterate.go b/protocols/protocol_iterate.go
index ce9b021..5862cf7 100644
--- a/protocols/protocol_iterate.go
+++ b/protocols/protocol_iterate.go
@@ -46,10 +46,6 @@ func (self IterateDispatcher) Iterate(
 		return output_chan
 	}
 
-	if is_array(a) {
-		return _SliceIterator(ctx, scope, a)
-	}
-
 	for i, impl := range self.impl {
 		if impl.Applicable(a) {
 			scope.GetStats().IncProtocolSearch(i)
@@ -57,6 +53,10 @@ func (self IterateDispatcher) Iterate(
 		}
 	}
 
+	if is_array(a) {
+		return _SliceIterator(ctx, scope, a)
+	}
+
 	scope.Trace("Protocol Iterate not found for %v (%T)", a, a)
 
 	// By default if no other iterator is available, prepare a row
diff --git a/protocols/protocol_regex.go b/protocols/protocol_regex.go
index 49524fd..18e7afd 100644
--- a/protocols/protocol_regex.go
+++ b/protocols/protocol_regex.go
@@ -39,16 +39,6 @@ func (self RegexDispatcher) Match(scope types.Scope, pattern types.Any, target t
 		case string:
 			return Match(scope, pattern_str, t)
 		}
-
-		if is_array(target) {
-			a_slice := reflect.ValueOf(target)
-			for i := 0; i < a_slice.Len(); i++ {
-				if scope.Match(pattern, a_slice.Index(i).Interface()) {
-					return true
-				}
-			}
-			return false
-		}
 	}
 
 	for i, impl := range self.impl {
@@ -58,6 +48,16 @@ func (self RegexDispatcher) Match(scope types.Scope, pattern types.Any, target t
 		}
 	}
 
+	if ok && is_array(target) {
+		a_slice := reflect.ValueOf(target)
+		for i := 0; i < a_slice.Len(); i++ {
+			if scope.Match(pattern, a_slice.Index(i).Interface()) {
+				return true
+			}
+		}
+		return false
+	}
+
 	scope.Trace("Protocol Regex not found for %v (%T) and %v (%T)",
 		pattern, pattern, target, target)
 
-- 
2.43.0


From feeb1f333af4af0eda16c8ae3d818fc807ee36d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 66/72] fix: implementations of several protocols are
 registered for each

---
 scope/dispatcher.go | 68 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 53 insertions(+), 15 deletions(-)

diff --git a/scope/dispatcher.go b/scope/dispatcher.go
index 4b39d4d..ebdea1a 100644
--- a/scope/dispatcher.go
+++ b/scope/dispatcher.go
@@ -278,33 +278,71 @@ func (self *protocolDispatcher) AddProtocolImpl(implementations ...types.Any) {
 	defer self.Unlock()
 
 	for _, imp := range implementations {
-		switch t := imp.(type) {
-		case protocols.BoolProtocol:
+		// An implementation may support several protocols.
+		supported := false
+
+		if t, ok := imp.(protocols.BoolProtocol); ok {
 			self.bool.AddImpl(t)
-		case protocols.EqProtocol:
+			supported = true
+		}
+
+		if t, ok := imp.(protocols.EqProtocol); ok {
 			self.eq.AddImpl(t)
-		case protocols.LtProtocol:
+			supported = true
+		}
+
+		if t, ok := imp.(protocols.LtProtocol); ok {
 			self.lt.AddImpl(t)
-		case protocols.GtProtocol:
+			supported = true
+		}
+
+		if t, ok := imp.(protocols.GtProtocol); ok {
 			self.gt.AddImpl(t)
-		case protocols.AddProtocol:
+			supported = true
+		}
+
+		if t, ok := imp.(protocols.AddProtocol); ok {
 			self.add.AddImpl(t)
-		case protocols.SubProtocol:
+			supported = true
+		}
+
+		if t, ok := imp.(protocols.SubProtocol); ok {
 			self.sub.AddImpl(t)
-		case protocols.MulProtocol:
+			supported = true
+		}
+
+		if t, ok := imp.(protocols.MulProtocol); ok {
 			self.mul.AddImpl(t)
-		case protocols.DivProtocol:
+			supported = true
+		}
+
+		if t, ok := imp.(protocols.DivProtocol); ok {
 			self.div.AddImpl(t)
-		case protocols.MembershipProtocol:
+			supported = true
+		}
+
+		if t, ok := imp.(protocols.MembershipProtocol); ok {
 			self.membership.AddImpl(t)
-		case protocols.AssociativeProtocol:
+			supported = true
+		}
+
+		if t, ok := imp.(protocols.AssociativeProtocol); ok {
 			self.associative.AddImpl(t)
-		case protocols.RegexProtocol:
+			supported = true
+		}
+
+		if t, ok := imp.(protocols.RegexProtocol); ok {
 			self.regex.AddImpl(t)
-		case protocols.IterateProtocol:
+			supported = true
+		}
+
+		if t, ok := imp.(protocols.IterateProtocol); ok {
 			self.iterator.AddImpl(t)
-		default:
-			utils.Debug(t)
+			supported = true
+		}
+
+		if !supported {
+			utils.Debug(imp)
 			panic(fmt.Sprintf("Unsupported interface: %T", imp))
 		}
 	}
-- 
2.43.0


From b1559e2d1236a1153c874e0cde5f707a272035e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 67/72] fix: unary minus of a pointer to a float keeps the
 fraction

---
 vfilter.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vfilter.go b/vfilter.go
index d688a78..0db4e67 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1850,6 +1850,16 @@ func (self *_SymbolRef) maybeNegate(
 	case float32:
 		return -t
 
+	case *float64:
+		if t != nil {
+			return -*t
+		}
+
+	case *float32:
+		if t != nil {
+			return -*t
+		}
+
 	default:
 		i, ok := utils.ToInt64(value)
 		if ok {
-- 
2.43.0


From d8096e3c0e8590f098e8d1aec9bf677a3be8a57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 68/72] fix: scopes of the rows of a grouped query stay open
 while used and are closed

---
 grouper/grouper.go | 1 +
 vfilter_group.go   | 5 ++---
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/grouper/grouper.go b/grouper/grouper.go
index 26cbafb..c24e41c 100644
--- a/grouper/grouper.go
+++ b/grouper/grouper.go
@@ -72,6 +72,7 @@ func (self *DefaultGrouper) Group(
 			// must materialize these rows because evaluating the row
 			// may have side effects (e.g. for aggregate functions).
 			new_row := actor.MaterializeRow(ctx, row, new_scope)
+			new_scope.Close()
 
 			aggregate_ctx.row = new_row
 		}
diff --git a/vfilter_group.go b/vfilter_group.go
index 061cdfb..d087615 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -73,9 +73,8 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 		gb_element := groupKey(ctx, new_scope,
 			self.delegate.GroupBy.Reduce(ctx, new_scope))
 
-		closer()
-
-		// Emit a single row.
+		// Emit a single row. Its columns are evaluated in a child of
+		// the new scope, which closes with it.
 		return transformed_row, row, gb_element, new_scope, nil
 	}
 
-- 
2.43.0


From 670ec974627619938ac2db5965b9d205d6c28a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:45 +0000
Subject: [PATCH 69/72] fix: scopes can be configured and described while they
 are used

The functions, plugins, logger, tracer, sorter, grouper and materializer
of a scope were set under lock but read without one. Info() was called
with the lock held so describing a function that logs or looks up other
functions hung.
---
 scope/dispatcher.go | 116 ++++++++++++++++++++++++++++++++++----------
 scope/marshal.go    |   6 ++-
 scope/scope.go      |  20 +++++---
 3 files changed, 107 insertions(+), 35 deletions(-)

diff --git a/scope/dispatcher.go b/scope/dispatcher.go
index ebdea1a..7e240e9 100644
--- a/scope/dispatcher.go
+++ b/scope/dispatcher.go
@@ -111,6 +111,39 @@ func (self *protocolDispatcher) GetContext(name string) (types.Any, bool) {
 	return value, true
 }
 
+func (self *protocolDispatcher) SetLogger(logger *log.Logger) {
+	self.Lock()
+	self.Logger = logger
+	self.Unlock()
+}
+
+func (self *protocolDispatcher) SetTracer(logger *log.Logger) {
+	self.Lock()
+	self.Tracer = logger
+	self.Unlock()
+}
+
+func (self *protocolDispatcher) GetSorter() types.Sorter {
+	self.Lock()
+	defer self.Unlock()
+
+	return self.Sorter
+}
+
+func (self *protocolDispatcher) GetGrouper() types.Grouper {
+	self.Lock()
+	defer self.Unlock()
+
+	return self.Grouper
+}
+
+func (self *protocolDispatcher) GetMaterializer() types.ScopeMaterializer {
+	self.Lock()
+	defer self.Unlock()
+
+	return self.Materializer
+}
+
 func (self *protocolDispatcher) GetLogger() *log.Logger {
 	self.Lock()
 	defer self.Unlock()
@@ -123,21 +156,41 @@ func (self *protocolDispatcher) GetStats() *types.Stats {
 }
 
 func (self *protocolDispatcher) Describe(scope *Scope, type_map *types.TypeMap) *types.ScopeInformation {
-	self.Lock()
-	defer self.Unlock()
+	// Info() may use the scope so it is called without a lock.
+	functions, plugins := self.copyMaps()
 
 	result := &types.ScopeInformation{}
-	for _, item := range self.plugins {
+	for _, item := range plugins {
 		result.Plugins = append(result.Plugins, item.Info(scope, type_map))
 	}
 
-	for _, func_item := range self.functions {
+	for _, func_item := range functions {
 		result.Functions = append(result.Functions, func_item.Info(scope, type_map))
 	}
 
 	return result
 }
 
+// Copy the functions and plugins under lock.
+func (self *protocolDispatcher) copyMaps() (
+	map[string]types.FunctionInterface,
+	map[string]types.PluginGeneratorInterface) {
+	self.Lock()
+	defer self.Unlock()
+
+	function_copy := make(map[string]types.FunctionInterface)
+	for k, v := range self.functions {
+		function_copy[k] = v
+	}
+
+	plugins_copy := make(map[string]types.PluginGeneratorInterface)
+	for k, v := range self.plugins {
+		plugins_copy[k] = v
+	}
+
+	return function_copy, plugins_copy
+}
+
 func (self *protocolDispatcher) WithNewContext() *protocolDispatcher {
 	res := &protocolDispatcher{
 		Stats:        types.Stats{},
@@ -168,15 +221,10 @@ func (self *protocolDispatcher) WithNewContext() *protocolDispatcher {
 }
 
 func (self *protocolDispatcher) Copy() *protocolDispatcher {
-	function_copy := make(map[string]types.FunctionInterface)
-	for k, v := range self.functions {
-		function_copy[k] = v
-	}
+	function_copy, plugins_copy := self.copyMaps()
 
-	plugins_copy := make(map[string]types.PluginGeneratorInterface)
-	for k, v := range self.plugins {
-		plugins_copy[k] = v
-	}
+	self.Lock()
+	defer self.Unlock()
 
 	res := &protocolDispatcher{
 		Stats:        types.Stats{},
@@ -208,44 +256,56 @@ func (self *protocolDispatcher) Copy() *protocolDispatcher {
 
 func (self *protocolDispatcher) AppendPlugins(
 	scope *Scope, plugins ...types.PluginGeneratorInterface) {
+	// Info() may use the scope so it is called without a lock.
+	names := make([]string, 0, len(plugins))
+	for _, plugin := range plugins {
+		names = append(names, plugin.Info(scope, nil).Name)
+	}
+
 	self.Lock()
 	defer self.Unlock()
 
-	result := self
-	for _, plugin := range plugins {
-		info := plugin.Info(scope, nil)
-		result.plugins[info.Name] = plugin
+	for i, plugin := range plugins {
+		self.plugins[names[i]] = plugin
 	}
 }
 
 func (self *protocolDispatcher) AppendFunctions(
 	scope *Scope, functions ...types.FunctionInterface) {
+	// Info() may use the scope so it is called without a lock.
+	names := make([]string, 0, len(functions))
+	for _, function := range functions {
+		names = append(names, function.Info(scope, nil).Name)
+	}
+
 	self.Lock()
 	defer self.Unlock()
 
-	result := self
-	for _, function := range functions {
-		info := function.Info(scope, nil)
-		result.functions[info.Name] = function
+	for i, function := range functions {
+		self.functions[names[i]] = function
 	}
 }
 
 func (self *protocolDispatcher) GetFunction(name string) (types.FunctionInterface, bool) {
+	self.Lock()
+	defer self.Unlock()
+
 	res, pres := self.functions[name]
 	return res, pres
 }
 
 func (self *protocolDispatcher) GetPlugin(name string) (types.PluginGeneratorInterface, bool) {
+	self.Lock()
+	defer self.Unlock()
+
 	res, pres := self.plugins[name]
 	return res, pres
 }
 
 func (self *protocolDispatcher) Info(scope *Scope,
 	type_map *types.TypeMap, name string) (*types.PluginInfo, bool) {
-	self.Lock()
-	defer self.Unlock()
-
-	if plugin, pres := self.plugins[name]; pres {
+	plugin, pres := self.GetPlugin(name)
+	if pres {
 		return plugin.Info(scope, type_map), true
 	}
 
@@ -264,9 +324,13 @@ func (self *protocolDispatcher) Log(format string, a ...interface{}) {
 }
 
 func (self *protocolDispatcher) Trace(format string, a ...interface{}) {
-	if self.Tracer != nil {
+	self.Lock()
+	tracer := self.Tracer
+	self.Unlock()
+
+	if tracer != nil {
 		msg := fmt.Sprintf(format, a...)
-		self.Tracer.Print(msg)
+		tracer.Print(msg)
 	}
 }
 
diff --git a/scope/marshal.go b/scope/marshal.go
index efac21c..ede9e8b 100644
--- a/scope/marshal.go
+++ b/scope/marshal.go
@@ -21,7 +21,11 @@ func (self *Scope) Marshal(scope types.Scope) (*types.MarshalItem, error) {
 		Vars: make(map[string]*types.MarshalItem),
 	}
 
-	for _, var_item := range self.vars {
+	self.Lock()
+	vars := self.vars[:]
+	self.Unlock()
+
+	for _, var_item := range vars {
 		for _, k := range self.GetMembers(var_item) {
 			// Skip these vars
 			if strings.HasPrefix(k, "$") ||
diff --git a/scope/scope.go b/scope/scope.go
index 1f3ae62..44e73f8 100644
--- a/scope/scope.go
+++ b/scope/scope.go
@@ -133,7 +133,7 @@ func (self *Scope) QueryContext() context.Context {
 }
 
 func (self *Scope) SetLogger(logger *log.Logger) {
-	self.dispatcher.Logger = logger
+	self.dispatcher.SetLogger(logger)
 }
 
 func (self *Scope) SetAggregatorCtx(ctx types.AggregatorCtx) {
@@ -163,7 +163,7 @@ func (self *Scope) GetAggregatorCtx() types.AggregatorCtx {
 }
 
 func (self *Scope) SetTracer(logger *log.Logger) {
-	self.dispatcher.Tracer = logger
+	self.dispatcher.SetTracer(logger)
 }
 
 func (self *Scope) GetLogger() *log.Logger {
@@ -217,11 +217,14 @@ func (self *Scope) SetContext(name string, value types.Any) {
 }
 
 func (self *Scope) PrintVars() string {
+	// The members may need the scope so they are listed without a
+	// lock.
 	self.Lock()
-	defer self.Unlock()
+	scope_vars := self.vars[:]
+	self.Unlock()
 
 	my_vars := []string{}
-	for _, vars := range self.vars {
+	for _, vars := range scope_vars {
 		keys := []string{}
 		for _, k := range self.GetMembers(vars) {
 			keys = append(keys, k)
@@ -271,9 +274,10 @@ func (self *Scope) ChargeOp() {
 func (self *Scope) CheckForOverflow() bool {
 	self.Lock()
 	vars := self.vars[:]
+	stack_depth := self.stack_depth
 	self.Unlock()
 
-	if self.stack_depth < 1000 {
+	if stack_depth < 1000 {
 		return false
 	}
 
@@ -349,7 +353,7 @@ func (self *Scope) Iterate(ctx context.Context, a types.Any) <-chan types.Row {
 
 func (self *Scope) Materialize(ctx context.Context,
 	name string, query types.StoredQuery) types.StoredQuery {
-	return self.dispatcher.Materializer.Materialize(ctx, self, name, query)
+	return self.dispatcher.GetMaterializer().Materialize(ctx, self, name, query)
 }
 
 func (self *Scope) StackDepth() int {
@@ -472,12 +476,12 @@ func (self *Scope) Trace(format string, a ...interface{}) {
 func (self *Scope) Sort(
 	ctx context.Context, scope types.Scope, input <-chan types.Row,
 	key string, desc bool) <-chan types.Row {
-	return self.dispatcher.Sorter.Sort(ctx, scope, input, key, desc)
+	return self.dispatcher.GetSorter().Sort(ctx, scope, input, key, desc)
 }
 
 func (self *Scope) Group(
 	ctx context.Context, scope types.Scope, actor types.GroupbyActor) <-chan types.Row {
-	return self.dispatcher.Grouper.Group(ctx, scope, actor)
+	return self.dispatcher.GetGrouper().Group(ctx, scope, actor)
 }
 
 // Adding a destructor to the current scope will call it when any
-- 
2.43.0


From ab58ba789d64d4e3251411d3f88c076f0a8db435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:38 +0000
Subject: [PATCH 70/72] fix: the description of a type does not depend on how
 and when it is described

Types which were first seen through a list of pointers had no fields,
nested types were filtered by the members of the outer one, embedded
fields were lost and argument names outside ASCII were not recognised.
---
 types/introspection.go | 116 ++++++++++++++++++++++-------------------
 1 file changed, 62 insertions(+), 54 deletions(-)

diff --git a/types/introspection.go b/types/introspection.go
index 5e8c983..72c18d3 100644
--- a/types/introspection.go
+++ b/types/introspection.go
@@ -10,7 +10,7 @@ import (
 )
 
 var (
-	field_regex = regexp.MustCompile("field=([a-zA-Z0-9_]+)")
+	field_regex = regexp.MustCompile("(?:^|,)field=([^,=]+)")
 )
 
 type ScopeInformation struct {
@@ -41,23 +41,44 @@ func (self *TypeMap) Get(scope Scope, name string) (*TypeDescription, bool) {
 func (self *TypeMap) AddType(scope Scope, a Any) string {
 	// don't do anything if the caller does not care about a type
 	// map.
-	if self == nil || scope == nil {
+	if self == nil || scope == nil || a == nil {
 		return ""
 	}
 
-	fields := scope.GetMembers(a)
-	v := reflect.ValueOf(a)
-	if v.Type().Kind() == reflect.Ptr {
-		v = v.Elem()
+	a_type := elementType(reflect.TypeOf(a))
+	self.addType(scope, a_type)
+
+	return canonicalTypeName(a_type)
+}
+
+// The type which is described for pointers to it and lists of it.
+func elementType(a_type reflect.Type) reflect.Type {
+	for {
+		switch a_type.Kind() {
+		case reflect.Array, reflect.Slice, reflect.Ptr:
+			a_type = a_type.Elem()
+		default:
+			return a_type
+		}
 	}
+}
 
-	a_type := v.Type()
-	self.addType(scope, a_type, &fields)
+// The members which the scope gives to values of this type - empty if
+// they are not known.
+func typeMembers(scope Scope, a_type reflect.Type) (result []string) {
+	defer func() {
+		// An empty value may be unable to list its members.
+		if recover() != nil {
+			result = nil
+		}
+	}()
 
-	return canonicalTypeName(a_type)
+	return scope.GetMembers(reflect.New(a_type).Interface())
 }
 
-func (self *TypeMap) addType(scope Scope, a_type reflect.Type, fields *[]string) {
+func (self *TypeMap) addType(scope Scope, a_type reflect.Type) {
+	a_type = elementType(a_type)
+
 	_, pres := self.desc.Get(canonicalTypeName(a_type))
 	if pres {
 		return
@@ -67,8 +88,29 @@ func (self *TypeMap) addType(scope Scope, a_type reflect.Type, fields *[]string)
 	}
 	self.desc.Set(canonicalTypeName(a_type), &result)
 
-	self.addFields(scope, a_type, &result, fields)
-	self.addMethods(scope, a_type, &result, fields)
+	fields := typeMembers(scope, a_type)
+	self.addFields(scope, a_type, &result, &fields)
+	self.addMethods(scope, a_type, &result, &fields)
+}
+
+// Describe the type of a field or of the result of a method.
+func (self *TypeMap) addReference(scope Scope, a_type reflect.Type) TypeReference {
+	result := TypeReference{
+		Target: canonicalTypeName(a_type),
+	}
+
+	switch a_type.Kind() {
+	case reflect.Array, reflect.Slice:
+		self.addType(scope, a_type.Elem())
+		result.Target = canonicalTypeName(elementType(a_type))
+		result.Repeated = true
+
+	case reflect.Map, reflect.Ptr:
+		self.addType(scope, a_type.Elem())
+		result.Target = canonicalTypeName(elementType(a_type.Elem()))
+	}
+
+	return result
 }
 
 func (self *TypeMap) addFields(scope Scope, a_type reflect.Type, desc *TypeDescription,
@@ -81,9 +123,9 @@ func (self *TypeMap) addFields(scope Scope, a_type reflect.Type, desc *TypeDescr
 		field_value := a_type.Field(i)
 
 		// Embedded structs just merge their fields with this
-		// struct.
+		// struct. They are not members by themselves.
 		if field_value.Anonymous {
-			self.addFields(scope, field_value.Type, desc, fields)
+			self.addFields(scope, field_value.Type, desc, &[]string{})
 			continue
 		}
 
@@ -97,29 +139,12 @@ func (self *TypeMap) addFields(scope Scope, a_type reflect.Type, desc *TypeDescr
 			continue
 		}
 
-		return_type := field_value.Type
-		return_type_descriptor := TypeReference{
-			Target: canonicalTypeName(return_type),
-			Tag:    field_value.Tag.Get("vfilter"),
-		}
-
-		switch return_type.Kind() {
-		case reflect.Array, reflect.Slice:
-			element := return_type.Elem()
-			self.addType(scope, element, fields)
-			return_type_descriptor.Target = canonicalTypeName(
-				return_type.Elem())
-			return_type_descriptor.Repeated = true
-
-		case reflect.Map, reflect.Ptr:
-			element := return_type.Elem()
-			self.addType(scope, element, fields)
-			return_type_descriptor.Target = canonicalTypeName(
-				return_type.Elem())
-		}
+		tag := field_value.Tag.Get("vfilter")
+		return_type_descriptor := self.addReference(scope, field_value.Type)
+		return_type_descriptor.Tag = tag
 
 		name := field_value.Name
-		m := field_regex.FindStringSubmatch(return_type_descriptor.Tag)
+		m := field_regex.FindStringSubmatch(tag)
 		if len(m) > 1 {
 			name = m[1]
 		}
@@ -159,25 +184,8 @@ func (self *TypeMap) addMethods(scope Scope, a_type reflect.Type,
 		// value, or possible an error parameter.
 		switch method_value.Func.Type().NumOut() {
 		case 1, 2:
-			return_type := method_value.Func.Type().Out(0)
-			return_type_descriptor := TypeReference{
-				Target: canonicalTypeName(return_type),
-			}
-
-			switch return_type.Kind() {
-			case reflect.Array, reflect.Slice:
-				element := return_type.Elem()
-				self.addType(scope, element, fields)
-				return_type_descriptor.Target = canonicalTypeName(
-					return_type.Elem())
-				return_type_descriptor.Repeated = true
-
-			case reflect.Map, reflect.Ptr:
-				element := return_type.Elem()
-				self.addType(scope, element, fields)
-				return_type_descriptor.Target = canonicalTypeName(
-					return_type.Elem())
-			}
+			return_type_descriptor := self.addReference(
+				scope, method_value.Func.Type().Out(0))
 
 			desc.Fields.Set(method_value.Name, &return_type_descriptor)
 		}
-- 
2.43.0


From 11410b44e00bca309ffbbd6be77281e8ebe4c593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:38 +0000
Subject: [PATCH 71/72] fix: chain() is described as taking any args

---
 plugins/chain.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugins/chain.go b/plugins/chain.go
index 8f3d67f..a49008f 100644
--- a/plugins/chain.go
+++ b/plugins/chain.go
@@ -15,6 +15,7 @@ func (self _ChainPlugin) Info(scope types.Scope, type_map *types.TypeMap) *types
 		Name: "chain",
 		Doc: "Chain the output of several queries into the same table." +
 			"This plugin takes any args and chains them.",
+		FreeFormArgs: true,
 	}
 }
 
-- 
2.43.0


From 21ce5e35586adcc3e40f8c0a086c8a1e5ee1ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:12 +0000
Subject: [PATCH 72/72] fix: fields of embedded structs do not hide those of
 the struct in its description

---
 types/introspection.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/types/introspection.go b/types/introspection.go
index 72c18d3..e1d5bd1 100644
--- a/types/introspection.go
+++ b/types/introspection.go
@@ -125,7 +125,15 @@ func (self *TypeMap) addFields(scope Scope, a_type reflect.Type, desc *TypeDescr
 		// Embedded structs just merge their fields with this
 		// struct. They are not members by themselves.
 		if field_value.Anonymous {
-			self.addFields(scope, field_value.Type, desc, &[]string{})
+			embedded := &TypeDescription{Fields: ordereddict.NewDict()}
+			self.addFields(scope, field_value.Type, embedded, &[]string{})
+			for _, item := range embedded.Fields.Items() {
+				// A field of the struct itself hides it.
+				_, pres := desc.Fields.Get(item.Key)
+				if !pres {
+					desc.Fields.Set(item.Key, item.Value)
+				}
+			}
 			continue
 		}
 
-- 
2.43.0

