From ce05caf8d15163c963016f9dcb853c2ced025f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 1/6] fix: do not share the pairs of SET clauses between update
 builders

Update.Set and Update.Using wrote in the map (and in the spare capacity of
the slices) of the receiver: builders derived from a common one corrupted
each other, and a call that panicked left its first pairs behind.
---
 builder/builder.go |  2 ++
 builder/update.go  |  1 +
 stmt/set.go        | 14 ++++++++++++++
 3 files changed, 17 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index e449873..eaa34e1 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -321,7 +321,9 @@ func ToInt64(value interface{}) (int64, bool) { // nolint: gocyclo
 }
 
 // MergeSet merges new pairs into existing ones (last write wins).
+// Given set is left untouched, since other builders may share its pairs.
 func MergeSet(set stmt.Set, args []interface{}) stmt.Set {
+	set.Pairs = set.Pairs.Clone()
 	for i := range args {
 		switch value := args[i].(type) {
 		case string, stmt.Column:
diff --git a/builder/update.go b/builder/update.go
index f95bfe6..6b936b6 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -44,6 +44,7 @@ func (b Update) Using(args ...interface{}) Update {
 		panic("loukoum: using clause requires a column or an expression")
 	}
 
+	b.query.Set.Pairs = b.query.Set.Pairs.Clone()
 	for i := range args {
 		b.query.Set.Pairs.Use(stmt.NewExpression(args[i]))
 	}
diff --git a/stmt/set.go b/stmt/set.go
index 48f6a6a..a5fac6f 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -64,6 +64,20 @@ func NewPairContainer() PairContainer {
 	}
 }
 
+// Clone returns a copy of current instance that doesn't share its map and slices.
+func (pairs PairContainer) Clone() PairContainer {
+	clone := PairContainer{
+		Mode:        pairs.Mode,
+		Map:         make(map[Column]Expression, len(pairs.Map)),
+		Columns:     append([]Column{}, pairs.Columns...),
+		Expressions: append([]Expression{}, pairs.Expressions...),
+	}
+	for column, expression := range pairs.Map {
+		clone.Map[column] = expression
+	}
+	return clone
+}
+
 // Add appends given column and expression.
 // It will configure Set's syntax to key-value (a.k.a "standard", "default" or "associative").
 //
-- 
2.43.0


From 98e2b46343af31eaa17e28a31d744b298b591c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 2/6] fix: do not append in arrays shared between builders

Join, With, OrderBy and OnConflict appended in place: two builders derived
from a common one could overwrite each other's clauses.
---
 builder/insert.go |  3 ++-
 builder/select.go | 22 +++++++++++++---------
 builder/update.go |  3 ++-
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/builder/insert.go b/builder/insert.go
index 71dcf11..2b1bc9b 100644
--- a/builder/insert.go
+++ b/builder/insert.go
@@ -86,7 +86,8 @@ func (b Insert) OnConflict(args ...interface{}) Insert {
 	for i := range args {
 		switch value := args[i].(type) {
 		case string, stmt.Column:
-			b.query.OnConflict.Target.Columns = append(b.query.OnConflict.Target.Columns, ToColumn(value))
+			columns := b.query.OnConflict.Target.Columns
+			b.query.OnConflict.Target.Columns = append(columns[:len(columns):len(columns)], ToColumn(value))
 		case stmt.ConflictNoAction:
 			b.query.OnConflict.Action = value
 			return b
diff --git a/builder/select.go b/builder/select.go
index 276e0c1..973803e 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -93,9 +93,7 @@ func (b Select) join1(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
-
-	return b
+	return b.appendJoin(join)
 }
 
 func (b Select) join2(args []interface{}) Select {
@@ -104,9 +102,7 @@ func (b Select) join2(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
-
-	return b
+	return b.appendJoin(join)
 }
 
 func (b Select) join3(args []interface{}) Select {
@@ -123,7 +119,13 @@ func (b Select) join3(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
+	return b.appendJoin(join)
+}
+
+// appendJoin never writes in the spare capacity of the underlying array, which other builders may share.
+func (b Select) appendJoin(join stmt.Join) Select {
+	joins := b.query.Joins
+	b.query.Joins = append(joins[:len(joins):len(joins)], join)
 
 	return b
 }
@@ -135,7 +137,8 @@ func (b Select) With(args ...stmt.WithQuery) Select {
 		return b
 	}
 
-	b.query.With.Queries = append(b.query.With.Queries, args...)
+	queries := b.query.With.Queries
+	b.query.With.Queries = append(queries[:len(queries):len(queries)], args...)
 	return b
 }
 
@@ -197,7 +200,8 @@ func (b Select) Having(condition stmt.Expression) Select {
 
 // OrderBy adds ORDER BY clauses.
 func (b Select) OrderBy(orders ...stmt.Order) Select {
-	b.query.OrderBy.Orders = append(b.query.OrderBy.Orders, orders...)
+	current := b.query.OrderBy.Orders
+	b.query.OrderBy.Orders = append(current[:len(current):len(current)], orders...)
 	return b
 }
 
diff --git a/builder/update.go b/builder/update.go
index 6b936b6..e1996fb 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -59,7 +59,8 @@ func (b Update) With(args ...stmt.WithQuery) Update {
 		return b
 	}
 
-	b.query.With.Queries = append(b.query.With.Queries, args...)
+	queries := b.query.With.Queries
+	b.query.With.Queries = append(queries[:len(queries):len(queries)], args...)
 	return b
 }
 
-- 
2.43.0


From 2367b74a303bd1184bb3b56e8c62d45b68ecb4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 3/6] fix: do not sort shared columns while rendering

PairContainer.Values sorted the columns of its receiver in place, which was
a data race between concurrent renderings of statements that share it.
---
 stmt/set.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/stmt/set.go b/stmt/set.go
index a5fac6f..139e938 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -142,21 +142,20 @@ func (pairs PairContainer) Values() ([]Column, []Expression) {
 		return pairs.Columns, pairs.Expressions
 	}
 
-	sort.Slice(pairs.Columns, func(i, j int) bool {
-		return pairs.Columns[i].Name < pairs.Columns[j].Name ||
-			pairs.Columns[i].Alias < pairs.Columns[j].Alias
+	// Sort a copy: the container may be shared with other statements and goroutines.
+	columns := append([]Column{}, pairs.Columns...)
+	sort.Slice(columns, func(i, j int) bool {
+		return columns[i].Name < columns[j].Name ||
+			columns[i].Alias < columns[j].Alias
 	})
 
-	columns := make([]Column, 0, len(pairs.Columns))
-	expressions := make([]Expression, 0, len(pairs.Columns))
+	expressions := make([]Expression, 0, len(columns))
 
-	for i := range pairs.Columns {
-		column := pairs.Columns[i]
-		expression, ok := pairs.Map[column]
+	for i := range columns {
+		expression, ok := pairs.Map[columns[i]]
 		if !ok {
 			panic("loukoum: invalid state for stmt.PairContainer")
 		}
-		columns = append(columns, column)
 		expressions = append(expressions, expression)
 	}
 
-- 
2.43.0


From 004cf8b45b68678520d6bf10c12f23321eb7a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 4/6] fix: order pairs by name, then by alias

The comparator was not an order for columns with aliases, hence the result
depended on map iteration.
---
 stmt/set.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stmt/set.go b/stmt/set.go
index 139e938..8bc3aee 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -145,8 +145,10 @@ func (pairs PairContainer) Values() ([]Column, []Expression) {
 	// Sort a copy: the container may be shared with other statements and goroutines.
 	columns := append([]Column{}, pairs.Columns...)
 	sort.Slice(columns, func(i, j int) bool {
-		return columns[i].Name < columns[j].Name ||
-			columns[i].Alias < columns[j].Alias
+		if columns[i].Name != columns[j].Name {
+			return columns[i].Name < columns[j].Name
+		}
+		return columns[i].Alias < columns[j].Alias
 	})
 
 	expressions := make([]Expression, 0, len(columns))
-- 
2.43.0


From d4d708b4d2a0069de39af570c9b9a7769ee03333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 5/6] fix: do not retain slices given by callers

Writing afterwards in a slice given to Columns, GroupBy, DistinctOn,
Returning, With or Call changed the statement.
---
 builder/builder.go | 4 ++--
 stmt/expression.go | 2 +-
 stmt/with.go       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index eaa34e1..7b4396c 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -80,7 +80,7 @@ func ToColumns(values []interface{}) []stmt.Column { // nolint: gocyclo
 					panic("loukoum: given column is undefined")
 				}
 			}
-			return array
+			return append([]stmt.Column{}, array...)
 		case []string:
 			list := make([]interface{}, len(array))
 			for i := range array {
@@ -122,7 +122,7 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 	if len(values) == 1 {
 		switch array := values[0].(type) {
 		case []stmt.SelectExpression:
-			return array
+			return append([]stmt.SelectExpression{}, array...)
 		case []stmt.Column:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
 			for i := range array {
diff --git a/stmt/expression.go b/stmt/expression.go
index 429b834..8c4ae49 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -596,7 +596,7 @@ type Call struct {
 func NewCall(function string, args ...Expression) Call {
 	return Call{
 		function: function,
-		args:     args,
+		args:     append([]Expression{}, args...),
 	}
 }
 
diff --git a/stmt/with.go b/stmt/with.go
index 3ab0612..45cd50f 100644
--- a/stmt/with.go
+++ b/stmt/with.go
@@ -13,7 +13,7 @@ type With struct {
 // NewWith returns a new With instance.
 func NewWith(queries []WithQuery) With {
 	return With{
-		Queries: queries,
+		Queries: append([]WithQuery{}, queries...),
 	}
 }
 
-- 
2.43.0


From 25ad21d983eec200b65156cd3599c140d4a2d1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 6/6] fix: do not depend on map iteration when keys define the
 same column

A map may have several keys for one column ("a", " a", Column("a")): which
value was kept, and whether it was, depended on the iteration order.
---
 builder/builder.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 7b4396c..5fb7dd7 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -3,6 +3,7 @@ package builder
 import (
 	"fmt"
 	"math"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -332,13 +333,17 @@ func MergeSet(set stmt.Set, args []interface{}) stmt.Set {
 				set.Pairs.Set(columns[y])
 			}
 		case map[string]interface{}:
+			pairs := make([]types.Pair, 0, len(value))
 			for k, v := range value {
-				set.Pairs.Add(ToColumn(k), stmt.NewWrapper(stmt.NewExpression(v)))
+				pairs = append(pairs, types.Pair{Key: k, Value: v})
 			}
+			addPairs(&set, pairs)
 		case types.Map:
+			pairs := make([]types.Pair, 0, len(value))
 			for k, v := range value {
-				set.Pairs.Add(ToColumn(k), stmt.NewWrapper(stmt.NewExpression(v)))
+				pairs = append(pairs, types.Pair{Key: k, Value: v})
 			}
+			addPairs(&set, pairs)
 		case types.Pair:
 			set.Pairs.Add(ToColumn(value.Key), stmt.NewWrapper(stmt.NewExpression(value.Value)))
 		default:
@@ -348,6 +353,36 @@ func MergeSet(set stmt.Set, args []interface{}) stmt.Set {
 	return set
 }
 
+// addPairs adds the pairs of a map in an order that doesn't depend on its iteration, since several keys may
+// define the same column.
+func addPairs(set *stmt.Set, pairs []types.Pair) {
+	columns := make(map[interface{}]stmt.Column, len(pairs))
+	for i := range pairs {
+		columns[pairs[i].Key] = ToColumn(pairs[i].Key)
+	}
+
+	sort.Slice(pairs, func(i, j int) bool {
+		left, right := columns[pairs[i].Key], columns[pairs[j].Key]
+		if left.Name != right.Name {
+			return left.Name < right.Name
+		}
+		if left.Alias != right.Alias {
+			return left.Alias < right.Alias
+		}
+		// An instance of Column comes before the strings that define it.
+		name, ok := pairs[j].Key.(string)
+		if !ok {
+			return false
+		}
+		other, ok := pairs[i].Key.(string)
+		return !ok || other < name
+	})
+
+	for i := range pairs {
+		set.Pairs.Add(columns[pairs[i].Key], stmt.NewWrapper(stmt.NewExpression(pairs[i].Value)))
+	}
+}
+
 // ToSet takes either a types.Map or slice of types.Pair and returns a stmt.Set instance.
 func ToSet(args []interface{}) stmt.Set {
 	set := stmt.NewSet()
-- 
2.43.0

