From 7528289b533bf2c1ea07b0ebcca72c24d5e7960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 01/35] fix: double embedded quotes when quoting an identifier

strconv.Quote escapes a double quote with a backslash, which PostgreSQL does
not understand inside a quoted identifier: the identifier ended there and the
rest of the name was read as SQL.
---
 stmt/stmt.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stmt/stmt.go b/stmt/stmt.go
index bf81364..b172a94 100644
--- a/stmt/stmt.go
+++ b/stmt/stmt.go
@@ -1,7 +1,6 @@
 package stmt
 
 import (
-	"strconv"
 	"strings"
 
 	"github.com/ulule/loukoum/v3/types"
@@ -20,7 +19,7 @@ func quote(ident string) string {
 	split := strings.Split(ident, ".")
 	quoted := make([]string, 0, len(split))
 	for i := range split {
-		quoted = append(quoted, strconv.Quote(split[i]))
+		quoted = append(quoted, `"`+strings.ReplaceAll(split[i], `"`, `""`)+`"`)
 	}
 	return strings.Join(quoted, ".")
 }
-- 
2.43.0


From 5edca7839bade22bc3bcc94ffc9f5b7977fe6a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 02/35] fix: render SET pairs from a sorted copy of the columns

PairContainer.Values sorted the shared column slice in place, so rendering a
statement modified it (a data race between two renderings), and its comparator
was not a strict order when columns have aliases, so the order was unstable.
---
 stmt/set.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/stmt/set.go b/stmt/set.go
index 48f6a6a..3a659af 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -128,21 +128,24 @@ func (pairs PairContainer) Values() ([]Column, []Expression) {
 		return pairs.Columns, pairs.Expressions
 	}
 
-	sort.Slice(pairs.Columns, func(i, j int) bool {
-		return pairs.Columns[i].Name < pairs.Columns[j].Name ||
-			pairs.Columns[i].Alias < pairs.Columns[j].Alias
+	// Sort a copy: rendering a statement must not modify it.
+	columns := make([]Column, len(pairs.Columns))
+	copy(columns, pairs.Columns)
+
+	sort.Slice(columns, func(i, j int) bool {
+		if columns[i].Name != columns[j].Name {
+			return columns[i].Name < columns[j].Name
+		}
+		return columns[i].Alias < columns[j].Alias
 	})
 
-	columns := make([]Column, 0, len(pairs.Columns))
-	expressions := make([]Expression, 0, len(pairs.Columns))
+	expressions := make([]Expression, 0, len(columns))
 
-	for i := range pairs.Columns {
-		column := pairs.Columns[i]
-		expression, ok := pairs.Map[column]
+	for i := range columns {
+		expression, ok := pairs.Map[columns[i]]
 		if !ok {
 			panic("loukoum: invalid state for stmt.PairContainer")
 		}
-		columns = append(columns, column)
 		expressions = append(expressions, expression)
 	}
 
-- 
2.43.0


From 43c9c7392ce7f1b77f4f48d54a7a7d052f161ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 03/35] fix: give each update builder its own SET pairs

Update.Set and Update.Using wrote into the map and slices shared with the
builder they were called on, so deriving two queries from a common base changed
the base and the sibling.
---
 builder/builder.go |  3 +++
 builder/update.go  |  1 +
 stmt/set.go        | 14 ++++++++++++++
 3 files changed, 18 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index e449873..ea5d267 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -321,7 +321,10 @@ func ToInt64(value interface{}) (int64, bool) { // nolint: gocyclo
 }
 
 // MergeSet merges new pairs into existing ones (last write wins).
+// The given set is left untouched.
 func MergeSet(set stmt.Set, args []interface{}) stmt.Set {
+	set.Pairs = set.Pairs.Clone()
+
 	for i := range args {
 		switch value := args[i].(type) {
 		case string, stmt.Column:
diff --git a/builder/update.go b/builder/update.go
index f95bfe6..6b936b6 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -44,6 +44,7 @@ func (b Update) Using(args ...interface{}) Update {
 		panic("loukoum: using clause requires a column or an expression")
 	}
 
+	b.query.Set.Pairs = b.query.Set.Pairs.Clone()
 	for i := range args {
 		b.query.Set.Pairs.Use(stmt.NewExpression(args[i]))
 	}
diff --git a/stmt/set.go b/stmt/set.go
index 3a659af..214cb82 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -64,6 +64,20 @@ func NewPairContainer() PairContainer {
 	}
 }
 
+// Clone returns a copy of current instance which shares no storage with it.
+func (pairs PairContainer) Clone() PairContainer {
+	clone := PairContainer{
+		Mode:        pairs.Mode,
+		Map:         make(map[Column]Expression, len(pairs.Map)),
+		Columns:     append([]Column{}, pairs.Columns...),
+		Expressions: append([]Expression{}, pairs.Expressions...),
+	}
+	for column, expression := range pairs.Map {
+		clone.Map[column] = expression
+	}
+	return clone
+}
+
 // Add appends given column and expression.
 // It will configure Set's syntax to key-value (a.k.a "standard", "default" or "associative").
 //
-- 
2.43.0


From bd7375c3b9cd73928a565f19610171c40ffc3733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 04/35] fix: never append to a slice shared with another
 builder

Select.Join, Select.OrderBy, Select.With and Update.With appended to the
receiver's slice, so two queries derived from the same builder could overwrite
each other's clauses. With also kept, and later wrote into, the caller's slice.
---
 builder/select.go | 17 +++++++----------
 builder/update.go |  8 ++------
 2 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/builder/select.go b/builder/select.go
index 276e0c1..e2c56fb 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -93,7 +93,7 @@ func (b Select) join1(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
+	b.query.Joins = append(b.query.Joins[:len(b.query.Joins):len(b.query.Joins)], join)
 
 	return b
 }
@@ -104,7 +104,7 @@ func (b Select) join2(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
+	b.query.Joins = append(b.query.Joins[:len(b.query.Joins):len(b.query.Joins)], join)
 
 	return b
 }
@@ -123,19 +123,15 @@ func (b Select) join3(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
+	b.query.Joins = append(b.query.Joins[:len(b.query.Joins):len(b.query.Joins)], join)
 
 	return b
 }
 
 // With adds WITH clauses.
 func (b Select) With(args ...stmt.WithQuery) Select {
-	if b.query.With.IsEmpty() {
-		b.query.With = stmt.NewWith(args)
-		return b
-	}
-
-	b.query.With.Queries = append(b.query.With.Queries, args...)
+	list := b.query.With.Queries
+	b.query.With.Queries = append(list[:len(list):len(list)], args...)
 	return b
 }
 
@@ -197,7 +193,8 @@ func (b Select) Having(condition stmt.Expression) Select {
 
 // OrderBy adds ORDER BY clauses.
 func (b Select) OrderBy(orders ...stmt.Order) Select {
-	b.query.OrderBy.Orders = append(b.query.OrderBy.Orders, orders...)
+	list := b.query.OrderBy.Orders
+	b.query.OrderBy.Orders = append(list[:len(list):len(list)], orders...)
 	return b
 }
 
diff --git a/builder/update.go b/builder/update.go
index 6b936b6..6fc0dc9 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -54,12 +54,8 @@ func (b Update) Using(args ...interface{}) Update {
 
 // With adds WITH clauses.
 func (b Update) With(args ...stmt.WithQuery) Update {
-	if b.query.With.IsEmpty() {
-		b.query.With = stmt.NewWith(args)
-		return b
-	}
-
-	b.query.With.Queries = append(b.query.With.Queries, args...)
+	list := b.query.With.Queries
+	b.query.With.Queries = append(list[:len(list):len(list)], args...)
 	return b
 }
 
-- 
2.43.0


From 75ae3bf78dcc95c424be503dcd6c7155f671d64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 05/35] fix: copy column lists given to a builder

ToColumns and ToSelectExpressions kept the caller's slice, so a later write to
it changed queries already built.
---
 builder/builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index ea5d267..3e4482e 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -80,7 +80,7 @@ func ToColumns(values []interface{}) []stmt.Column { // nolint: gocyclo
 					panic("loukoum: given column is undefined")
 				}
 			}
-			return array
+			return append([]stmt.Column{}, array...)
 		case []string:
 			list := make([]interface{}, len(array))
 			for i := range array {
@@ -122,7 +122,7 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 	if len(values) == 1 {
 		switch array := values[0].(type) {
 		case []stmt.SelectExpression:
-			return array
+			return append([]stmt.SelectExpression{}, array...)
 		case []stmt.Column:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
 			for i := range array {
-- 
2.43.0


From 9da6c2775d6cadd341bbafe63fdc3a59d2e4aa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 06/35] fix: reject undefined columns given as a slice

ToSelectExpressions accepted empty names in a []string and undefined elements
in a []stmt.SelectExpression, and rendered them as "".
---
 builder/builder.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/builder/builder.go b/builder/builder.go
index 3e4482e..f50dcd6 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -122,6 +122,11 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 	if len(values) == 1 {
 		switch array := values[0].(type) {
 		case []stmt.SelectExpression:
+			for i := range array {
+				if array[i] == nil || array[i].IsEmpty() {
+					panic("loukoum: given column is undefined")
+				}
+			}
 			return append([]stmt.SelectExpression{}, array...)
 		case []stmt.Column:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
@@ -135,7 +140,11 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 		case []string:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
 			for i := range array {
-				expressions = append(expressions, stmt.NewColumn(array[i]))
+				column := stmt.NewColumn(array[i])
+				if column.IsEmpty() {
+					panic("loukoum: given column is undefined")
+				}
+				expressions = append(expressions, column)
 			}
 			return expressions
 		}
-- 
2.43.0


From bc0a9912c638b59e75abbf53854119dfa6e3eac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 07/35] fix: guard DISTINCT ON, suffix and prefix against their
 own clause

The guards tested GROUP BY and OFFSET instead: Offset(..).Suffix(..) panicked,
and a second call silently replaced the first one.
---
 builder/select.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/builder/select.go b/builder/select.go
index e2c56fb..cbbf155 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -20,7 +20,7 @@ func NewSelect() Select {
 
 // DistinctOn adds a DISTINCT ON clause to the query.
 func (b Select) DistinctOn(args ...interface{}) Select {
-	if !b.query.GroupBy.IsEmpty() {
+	if !b.query.DistinctOn.IsEmpty() {
 		panic("loukoum: select builder has distinct on clause already defined")
 	}
 
@@ -220,7 +220,7 @@ func (b Select) Offset(value interface{}) Select {
 
 // Suffix adds given clauses as suffixes.
 func (b Select) Suffix(suffix interface{}) Select {
-	if !b.query.Offset.IsEmpty() {
+	if !b.query.Suffix.IsEmpty() {
 		panic("loukoum: select builder has suffixes clauses already defined")
 	}
 
@@ -231,7 +231,7 @@ func (b Select) Suffix(suffix interface{}) Select {
 
 // Prefix adds given clauses as prefixes.
 func (b Select) Prefix(prefix interface{}) Select {
-	if !b.query.Offset.IsEmpty() {
+	if !b.query.Prefix.IsEmpty() {
 		panic("loukoum: select builder has prefixes clauses already defined")
 	}
 
-- 
2.43.0


From 5e4df70382358c96c42724de7f5acea2247600d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 08/35] fix: reject undefined conditions instead of dropping
 them

A nil or empty condition (a nil expression, a condition on an empty column, an
empty raw expression) made the whole WHERE or HAVING clause disappear, so for
example Delete("a").Where(nil) deleted every row.
---
 builder/builder.go | 10 ++++++++++
 builder/delete.go  |  3 +++
 builder/select.go  | 10 ++++------
 builder/update.go  |  3 +++
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index f50dcd6..8605959 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -49,6 +49,16 @@ func IsDeleteBuilder(builder Builder) bool {
 	return ok
 }
 
+// checkCondition panics if given condition is undefined: dropping it would silently widen the query.
+func checkCondition(condition stmt.Expression) {
+	if condition == nil {
+		panic("loukoum: condition must be not nil")
+	}
+	if condition.IsEmpty() {
+		panic("loukoum: given condition is undefined")
+	}
+}
+
 // ToColumn takes an empty interfaces and returns a Column instance.
 func ToColumn(arg interface{}) stmt.Column {
 	column := stmt.Column{}
diff --git a/builder/delete.go b/builder/delete.go
index b38c15d..20c105b 100644
--- a/builder/delete.go
+++ b/builder/delete.go
@@ -40,6 +40,7 @@ func (b Delete) Using(args ...interface{}) Delete {
 
 // Where adds WHERE clauses.
 func (b Delete) Where(condition stmt.Expression) Delete {
+	checkCondition(condition)
 	if b.query.Where.IsEmpty() {
 		b.query.Where = stmt.NewWhere(condition)
 		return b
@@ -50,12 +51,14 @@ func (b Delete) Where(condition stmt.Expression) Delete {
 
 // And adds AND WHERE conditions.
 func (b Delete) And(condition stmt.Expression) Delete {
+	checkCondition(condition)
 	b.query.Where = b.query.Where.And(condition)
 	return b
 }
 
 // Or adds OR WHERE conditions.
 func (b Delete) Or(condition stmt.Expression) Delete {
+	checkCondition(condition)
 	b.query.Where = b.query.Where.Or(condition)
 	return b
 }
diff --git a/builder/select.go b/builder/select.go
index cbbf155..1146502 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -137,9 +137,7 @@ func (b Select) With(args ...stmt.WithQuery) Select {
 
 // Where adds WHERE clauses.
 func (b Select) Where(condition stmt.Expression) Select {
-	if condition == nil {
-		panic("loukoum: condition must be not nil")
-	}
+	checkCondition(condition)
 	if b.query.Where.IsEmpty() {
 		b.query.Where = stmt.NewWhere(condition)
 		return b
@@ -150,15 +148,14 @@ func (b Select) Where(condition stmt.Expression) Select {
 
 // And adds AND WHERE conditions.
 func (b Select) And(condition stmt.Expression) Select {
-	if condition == nil {
-		panic("loukoum: condition must be not nil")
-	}
+	checkCondition(condition)
 	b.query.Where = b.query.Where.And(condition)
 	return b
 }
 
 // Or adds OR WHERE conditions.
 func (b Select) Or(condition stmt.Expression) Select {
+	checkCondition(condition)
 	b.query.Where = b.query.Where.Or(condition)
 	return b
 }
@@ -185,6 +182,7 @@ func (b Select) Having(condition stmt.Expression) Select {
 	if !b.query.Having.IsEmpty() {
 		panic("loukoum: select builder has having clause already defined")
 	}
+	checkCondition(condition)
 
 	b.query.Having = stmt.NewHaving(condition)
 
diff --git a/builder/update.go b/builder/update.go
index 6fc0dc9..9aeb6f3 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -61,6 +61,7 @@ func (b Update) With(args ...stmt.WithQuery) Update {
 
 // Where adds WHERE clauses.
 func (b Update) Where(condition stmt.Expression) Update {
+	checkCondition(condition)
 	if b.query.Where.IsEmpty() {
 		b.query.Where = stmt.NewWhere(condition)
 		return b
@@ -71,12 +72,14 @@ func (b Update) Where(condition stmt.Expression) Update {
 
 // And adds AND WHERE conditions.
 func (b Update) And(condition stmt.Expression) Update {
+	checkCondition(condition)
 	b.query.Where = b.query.Where.And(condition)
 	return b
 }
 
 // Or adds OR WHERE conditions.
 func (b Update) Or(condition stmt.Expression) Update {
+	checkCondition(condition)
 	b.query.Where = b.query.Where.Or(condition)
 	return b
 }
-- 
2.43.0


From 35fc01c6d3609985914f464d31b9e03cd9608813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 09/35] fix: use the tables of a from clause given to ToFrom,
 reject undefined ones

A stmt.From argument was overwritten and left a nil table behind, which crashed
the rendering; an undefined table was rendered as "".
---
 builder/builder.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 8605959..56f5a9b 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -219,28 +219,31 @@ func ToTables(values []interface{}) []stmt.Table {
 
 // ToFrom takes an empty interfaces and returns a From instance.
 func ToFrom(args ...interface{}) stmt.From {
-	from := stmt.From{}
-
-	tables := make([]stmt.Statement, len(args))
+	tables := make([]stmt.Statement, 0, len(args))
 	for i := range args {
 		switch value := args[i].(type) {
 		case string:
-			tables[i] = stmt.NewTable(value)
+			tables = append(tables, stmt.NewTable(value))
 		case stmt.From:
-			from = value
+			tables = append(tables, value.Tables...)
 		case stmt.Table:
-			tables[i] = value
+			tables = append(tables, value)
 		case stmt.Raw:
-			tables[i] = value
+			tables = append(tables, value)
 		default:
 			panic(fmt.Sprintf("loukoum: cannot use %T as from clause", args[i]))
 		}
 	}
 
-	from = stmt.NewFrom(tables)
+	from := stmt.NewFrom(tables)
 	if from.IsEmpty() {
 		panic("loukoum: given from clause is undefined")
 	}
+	for i := range tables {
+		if tables[i] == nil || tables[i].IsEmpty() {
+			panic("loukoum: given from clause is undefined")
+		}
+	}
 
 	return from
 }
-- 
2.43.0


From ba72e512e93367720d2c6d02c90f9f674c45d8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 10/35] fix: render a nil *time.Time as NULL

It was dereferenced and crashed.
---
 stmt/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stmt/expression.go b/stmt/expression.go
index 429b834..bec6709 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -32,6 +32,9 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 	case time.Time:
 		return NewValue(value)
 	case *time.Time:
+		if value == nil {
+			return NewValue(nil)
+		}
 		return NewValue(*value)
 	case StatementEncoder:
 		stmt := value.Statement()
-- 
2.43.0


From 0359ca769fe23271ebc40b6b1e8ff6199f4f1e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 11/35] fix: recognise builder values in Is*Builder

Every constructor returns a value, and only pointers were matched.
---
 builder/builder.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 56f5a9b..bace34d 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -27,26 +27,42 @@ type Builder interface {
 
 // IsSelectBuilder returns true if given builder is of type "Select"
 func IsSelectBuilder(builder Builder) bool {
-	_, ok := builder.(*Select)
-	return ok
+	switch builder.(type) {
+	case Select, *Select:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsInsertBuilder returns true if given builder is of type "Insert"
 func IsInsertBuilder(builder Builder) bool {
-	_, ok := builder.(*Insert)
-	return ok
+	switch builder.(type) {
+	case Insert, *Insert:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsUpdateBuilder returns true if given builder is of type "Update"
 func IsUpdateBuilder(builder Builder) bool {
-	_, ok := builder.(*Update)
-	return ok
+	switch builder.(type) {
+	case Update, *Update:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsDeleteBuilder returns true if given builder is of type "Delete"
 func IsDeleteBuilder(builder Builder) bool {
-	_, ok := builder.(*Delete)
-	return ok
+	switch builder.(type) {
+	case Delete, *Delete:
+		return true
+	default:
+		return false
+	}
 }
 
 // checkCondition panics if given condition is undefined: dropping it would silently widen the query.
-- 
2.43.0


From da24fd99b6276e182e541c7ac54f394adefe96bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 12/35] fix: select every column when no column is given

The asterisk was quoted as a column name.
---
 builder/select.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/select.go b/builder/select.go
index 1146502..4c41fc0 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -44,7 +44,7 @@ func (b Select) Distinct() Select {
 // Columns adds result columns to the query.
 func (b Select) Columns(args ...interface{}) Select {
 	if len(args) == 0 {
-		args = []interface{}{"*"}
+		args = []interface{}{stmt.NewRaw("*")}
 	}
 
 	b.query.Expressions = ToSelectExpressions(args)
-- 
2.43.0


From 3ebf53e5ed8931562860228991430a5a608749fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 13/35] fix: reject identifiers of an unsupported type

They were silently rendered as nothing.
---
 stmt/expression.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stmt/expression.go b/stmt/expression.go
index bec6709..9a9f53b 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -81,6 +81,8 @@ func (identifier Identifier) Write(ctx types.Context) {
 		ctx.Write(quote(t))
 	case Raw:
 		t.Write(ctx)
+	default:
+		panic(fmt.Sprintf("loukoum: cannot use %T as identifier", identifier.Identifier))
 	}
 }
 
-- 
2.43.0


From 3451eb0eb3ecf31003207168026058e8dfbfff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 14/35] fix: treat a condition on an empty raw identifier as
 undefined

It was rendered as a comparison without a left operand.
---
 stmt/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 9a9f53b..aff1beb 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -88,7 +88,7 @@ func (identifier Identifier) Write(ctx types.Context) {
 
 // IsEmpty returns true if statement is undefined.
 func (identifier Identifier) IsEmpty() bool {
-	return identifier.Identifier == ""
+	return identifier.Identifier == "" || identifier.Identifier == Raw{}
 }
 
 // Contains performs a "contains" comparison.
-- 
2.43.0


From 2d21b2406e77e6bcabf68ce7382067f7a7be6540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 15/35] fix: reject on conflict arguments which would be
 dropped

DoUpdate() without any pair removed the whole ON CONFLICT clause, and arguments
following the action were ignored.
---
 builder/insert.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/builder/insert.go b/builder/insert.go
index 71dcf11..2baa558 100644
--- a/builder/insert.go
+++ b/builder/insert.go
@@ -88,9 +88,18 @@ func (b Insert) OnConflict(args ...interface{}) Insert {
 		case string, stmt.Column:
 			b.query.OnConflict.Target.Columns = append(b.query.OnConflict.Target.Columns, ToColumn(value))
 		case stmt.ConflictNoAction:
+			if i != len(args)-1 {
+				panic("loukoum: on conflict clause requires the action as last argument")
+			}
 			b.query.OnConflict.Action = value
 			return b
 		case stmt.ConflictUpdateAction:
+			if i != len(args)-1 {
+				panic("loukoum: on conflict clause requires the action as last argument")
+			}
+			if value.IsEmpty() {
+				panic("loukoum: on conflict update clause requires at least one pair")
+			}
 			if b.query.OnConflict.Target.IsEmpty() {
 				panic("loukoum: on conflict update clause requires at least one target")
 			}
-- 
2.43.0


From 15bbab55714278e1d7666a950b10cc5e3438ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 16/35] fix: never drop insert values

Values([][]T{..}, x) ignored everything after the first list, and Set() without
any pair was rendered as VALUES ().
---
 builder/insert.go  | 7 +++++++
 stmt/expression.go | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/builder/insert.go b/builder/insert.go
index 2baa558..b9262de 100644
--- a/builder/insert.go
+++ b/builder/insert.go
@@ -50,6 +50,10 @@ func (b Insert) Values(values ...interface{}) Insert {
 		panic("loukoum: insert builder has values clause already defined")
 	}
 
+	if len(values) == 0 {
+		panic("loukoum: insert values clause requires at least one value")
+	}
+
 	b.query.Values = stmt.NewValues(stmt.NewArrayListExpression(values...))
 
 	return b
@@ -124,6 +128,9 @@ func (b Insert) Set(args ...interface{}) Insert {
 
 	pairs := ToSet(args).Pairs
 	columns, expressions := pairs.Values()
+	if len(columns) == 0 {
+		panic("loukoum: insert set clause requires at least one pair")
+	}
 
 	array := stmt.NewArrayListExpression(expressions)
 	values := stmt.NewValues(array)
diff --git a/stmt/expression.go b/stmt/expression.go
index aff1beb..c83826d 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -300,8 +300,12 @@ type ArrayList struct {
 
 // NewArrayListExpression creates a new Expression using a list of values.
 func NewArrayListExpression(values ...interface{}) Expression { // nolint: gocyclo
+	arraylist := ArrayList{}
+
 	// We pass only one argument and it's a slice or an expression.
-	arraylist := toArrayList(values[0])
+	if len(values) == 1 {
+		arraylist = toArrayList(values[0])
+	}
 	if len(arraylist.Values) == 0 {
 		arraylist.Values = []Expression{NewArrayExpression(values...)}
 
-- 
2.43.0


From b111ebfd8af8629144ae80019e2e315f1e09cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 17/35] fix: keep a multi-line comment inside the comment

The text following a line break was sent as SQL.
---
 stmt/comment.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stmt/comment.go b/stmt/comment.go
index d42d2a0..30594b1 100644
--- a/stmt/comment.go
+++ b/stmt/comment.go
@@ -1,6 +1,8 @@
 package stmt
 
 import (
+	"strings"
+
 	"github.com/ulule/loukoum/v3/token"
 	"github.com/ulule/loukoum/v3/types"
 )
@@ -24,7 +26,8 @@ func (comment Comment) Write(ctx types.Context) {
 	}
 	ctx.Write(token.Comment.String())
 	ctx.Write(" ")
-	ctx.Write(comment.Comment)
+	// A line break would end the comment: what follows would be executed.
+	ctx.Write(strings.NewReplacer("\n", " ", "\r", " ").Replace(comment.Comment))
 }
 
 // IsEmpty returns true if statement is undefined.
-- 
2.43.0


From cc6c14ff1a21dcd76fe4e62b8152ee6cba2f26b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 18/35] fix: put parentheses around every subquery used as an
 operand

Only some of the comparison operators did; the others, BETWEEN, AND, OR, HAVING
and lists of values rendered the subquery bare, which is not valid SQL.
---
 stmt/between.go    | 8 ++++----
 stmt/expression.go | 2 +-
 stmt/having.go     | 2 +-
 stmt/in.go         | 4 ++--
 stmt/infix.go      | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/stmt/between.go b/stmt/between.go
index dd25e4d..2c91735 100644
--- a/stmt/between.go
+++ b/stmt/between.go
@@ -18,9 +18,9 @@ func NewBetween(identifier Identifier, from, to Expression) Between {
 	return Between{
 		Identifier: identifier,
 		Operator:   NewComparisonOperator(types.Between),
-		From:       from,
+		From:       NewWrapper(from),
 		And:        NewAndOperator(),
-		To:         to,
+		To:         NewWrapper(to),
 	}
 }
 
@@ -29,9 +29,9 @@ func NewNotBetween(identifier Identifier, from, to Expression) Between {
 	return Between{
 		Identifier: identifier,
 		Operator:   NewComparisonOperator(types.NotBetween),
-		From:       from,
+		From:       NewWrapper(from),
 		And:        NewAndOperator(),
-		To:         to,
+		To:         NewWrapper(to),
 	}
 }
 
diff --git a/stmt/expression.go b/stmt/expression.go
index c83826d..1c41805 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -401,7 +401,7 @@ func NewArrayExpression(values ...interface{}) Expression { // nolint: gocyclo
 	}
 	array := Array{}
 	for _, value := range values {
-		array.Append(value)
+		array.Append(NewWrapper(NewExpression(value)))
 	}
 	return array
 }
diff --git a/stmt/having.go b/stmt/having.go
index 4adad71..b14c6cb 100644
--- a/stmt/having.go
+++ b/stmt/having.go
@@ -14,7 +14,7 @@ type Having struct {
 // NewHaving returns a new Having instance.
 func NewHaving(expression Expression) Having {
 	return Having{
-		Condition: expression,
+		Condition: NewWrapper(expression),
 	}
 }
 
diff --git a/stmt/in.go b/stmt/in.go
index ad3b1c1..25cda38 100644
--- a/stmt/in.go
+++ b/stmt/in.go
@@ -14,7 +14,7 @@ type In struct {
 // NewIn returns a new In instance using an inclusive operator.
 func NewIn(expression Expression, value Expression) In {
 	return In{
-		Expression: expression,
+		Expression: NewWrapper(expression),
 		Operator:   NewComparisonOperator(types.In),
 		Value:      value,
 	}
@@ -23,7 +23,7 @@ func NewIn(expression Expression, value Expression) In {
 // NewNotIn returns a new In instance using an exclusive operator.
 func NewNotIn(expression Expression, value Expression) In {
 	return In{
-		Expression: expression,
+		Expression: NewWrapper(expression),
 		Operator:   NewComparisonOperator(types.NotIn),
 		Value:      value,
 	}
diff --git a/stmt/infix.go b/stmt/infix.go
index 09841b9..ba545d3 100644
--- a/stmt/infix.go
+++ b/stmt/infix.go
@@ -15,9 +15,9 @@ type InfixExpression struct {
 // NewInfixExpression returns a new InfixExpression instance.
 func NewInfixExpression(left Expression, operator Operator, right Expression) InfixExpression {
 	return InfixExpression{
-		Left:     left,
+		Left:     NewWrapper(left),
 		Operator: operator,
-		Right:    right,
+		Right:    NewWrapper(right),
 	}
 }
 
-- 
2.43.0


From 8c1205c8905406ea52221cb3cd325ede488eb135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 19/35] fix: don't render the comment of a subquery

It was rendered as "; -- text" inside the parentheses and swallowed the rest of
the statement.
---
 stmt/expression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stmt/expression.go b/stmt/expression.go
index 1c41805..7193d80 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -21,6 +21,10 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 		return NewValue(nil)
 	}
 	switch value := arg.(type) {
+	case Select:
+		// A comment extends to the end of the line: it would swallow what follows the subquery.
+		value.Comment = Comment{}
+		return value
 	case Expression:
 		return value
 	case string, bool, int, int8, int16, int32, int64,
@@ -558,6 +562,7 @@ type Wrapper struct {
 func NewWrapper(arg Expression) Expression {
 	switch value := arg.(type) {
 	case Select:
+		value.Comment = Comment{}
 		return &Wrapper{
 			Value: value,
 		}
-- 
2.43.0


From 03b98c94ac601a8139a0eee9894794e8bb6f6286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 20/35] fix: reject a map which defines the same column twice

Two keys may name the same column ("a" and " a", or "a" and Column("a")):
which value was used depended on the iteration order of the map.
---
 builder/builder.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index bace34d..a480b04 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -371,12 +371,24 @@ func MergeSet(set stmt.Set, args []interface{}) stmt.Set {
 				set.Pairs.Set(columns[y])
 			}
 		case map[string]interface{}:
+			columns := map[stmt.Column]bool{}
 			for k, v := range value {
-				set.Pairs.Add(ToColumn(k), stmt.NewWrapper(stmt.NewExpression(v)))
+				column := ToColumn(k)
+				if columns[column] {
+					panic("loukoum: column is defined twice in the same map")
+				}
+				columns[column] = true
+				set.Pairs.Add(column, stmt.NewWrapper(stmt.NewExpression(v)))
 			}
 		case types.Map:
+			columns := map[stmt.Column]bool{}
 			for k, v := range value {
-				set.Pairs.Add(ToColumn(k), stmt.NewWrapper(stmt.NewExpression(v)))
+				column := ToColumn(k)
+				if columns[column] {
+					panic("loukoum: column is defined twice in the same map")
+				}
+				columns[column] = true
+				set.Pairs.Add(column, stmt.NewWrapper(stmt.NewExpression(v)))
 			}
 		case types.Pair:
 			set.Pairs.Add(ToColumn(value.Key), stmt.NewWrapper(stmt.NewExpression(value.Value)))
-- 
2.43.0


From 26131fce54361d833b604ad9268906b32de97553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 21/35] fix: validate limit and offset statements

Limit(stmt.Limit) and Offset(stmt.Offset) skipped the bounds checked for every
other type.
---
 builder/builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index a480b04..25e8863 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -411,6 +411,9 @@ func ToSet(args []interface{}) stmt.Set {
 func ToLimit(arg interface{}) stmt.Limit {
 	switch value := arg.(type) {
 	case stmt.Limit:
+		if value.Count <= 0 {
+			panic("loukoum: limit must be a positive integer")
+		}
 		return value
 	default:
 		limit, ok := ToInt64(value)
@@ -428,6 +431,9 @@ func ToLimit(arg interface{}) stmt.Limit {
 func ToOffset(arg interface{}) stmt.Offset {
 	switch value := arg.(type) {
 	case stmt.Offset:
+		if value.Start < 0 {
+			panic("loukoum: offset must be a non-negative integer")
+		}
 		return value
 	default:
 		offset, ok := ToInt64(value)
-- 
2.43.0


From 45265ffea8f8843c4b5f39f954848e9f5329a2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 22/35] fix: treat a join without a condition as undefined

IsEmpty dereferenced the nil condition.
---
 stmt/join.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stmt/join.go b/stmt/join.go
index 397bec5..e35fdc8 100644
--- a/stmt/join.go
+++ b/stmt/join.go
@@ -49,7 +49,7 @@ func (join Join) Write(ctx types.Context) {
 
 // IsEmpty returns true if statement is undefined.
 func (join Join) IsEmpty() bool {
-	return join.Type == "" || join.Table.IsEmpty() || join.Condition.IsEmpty()
+	return join.Type == "" || join.Table.IsEmpty() || join.Condition == nil || join.Condition.IsEmpty()
 }
 
 // Ensure that Join is a Statement
-- 
2.43.0


From 2c8fb45150ae2c0aa5862f6ad5f7fec6d093c241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 23/35] fix: reject undefined ORDER BY and WITH elements

They were rendered as nothing between the separators of the list.
---
 builder/select.go | 12 ++++++++++++
 builder/update.go |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/builder/select.go b/builder/select.go
index 4c41fc0..fdf726e 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -130,6 +130,12 @@ func (b Select) join3(args []interface{}) Select {
 
 // With adds WITH clauses.
 func (b Select) With(args ...stmt.WithQuery) Select {
+	for i := range args {
+		if args[i].IsEmpty() {
+			panic("loukoum: given with clause is undefined")
+		}
+	}
+
 	list := b.query.With.Queries
 	b.query.With.Queries = append(list[:len(list):len(list)], args...)
 	return b
@@ -191,6 +197,12 @@ func (b Select) Having(condition stmt.Expression) Select {
 
 // OrderBy adds ORDER BY clauses.
 func (b Select) OrderBy(orders ...stmt.Order) Select {
+	for i := range orders {
+		if orders[i].IsEmpty() {
+			panic("loukoum: given order by clause is undefined")
+		}
+	}
+
 	list := b.query.OrderBy.Orders
 	b.query.OrderBy.Orders = append(list[:len(list):len(list)], orders...)
 	return b
diff --git a/builder/update.go b/builder/update.go
index 9aeb6f3..56ba990 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -54,6 +54,12 @@ func (b Update) Using(args ...interface{}) Update {
 
 // With adds WITH clauses.
 func (b Update) With(args ...stmt.WithQuery) Update {
+	for i := range args {
+		if args[i].IsEmpty() {
+			panic("loukoum: given with clause is undefined")
+		}
+	}
+
 	list := b.query.With.Queries
 	b.query.With.Queries = append(list[:len(list):len(list)], args...)
 	return b
-- 
2.43.0


From 45d529d7a75f281391a98588c3f67cacf283b8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 24/35] fix: reject DISTINCT together with DISTINCT ON

Both were rendered, which is not valid SQL.
---
 builder/select.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/builder/select.go b/builder/select.go
index fdf726e..c9d4cfa 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -23,6 +23,9 @@ func (b Select) DistinctOn(args ...interface{}) Select {
 	if !b.query.DistinctOn.IsEmpty() {
 		panic("loukoum: select builder has distinct on clause already defined")
 	}
+	if b.query.Distinct {
+		panic("loukoum: select builder has distinct clause already defined")
+	}
 
 	columns := ToColumns(args)
 	distinctOn := stmt.NewDistinctOn(columns)
@@ -37,6 +40,10 @@ func (b Select) DistinctOn(args ...interface{}) Select {
 
 // Distinct adds a DISTINCT clause to the query.
 func (b Select) Distinct() Select {
+	if !b.query.DistinctOn.IsEmpty() {
+		panic("loukoum: select builder has distinct on clause already defined")
+	}
+
 	b.query.Distinct = true
 	return b
 }
-- 
2.43.0


From 42b0d1201772784dd81ed0c557c6d0f2125cd728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 25/35] fix: render ONLY once in an UPDATE statement

It was rendered twice when both the builder and its table had it.
---
 stmt/update.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stmt/update.go b/stmt/update.go
index 8b09560..71e673d 100644
--- a/stmt/update.go
+++ b/stmt/update.go
@@ -38,7 +38,7 @@ func (update Update) Write(ctx types.Context) {
 
 	ctx.Write(token.Update.String())
 
-	if update.Only {
+	if update.Only && !update.Table.only {
 		ctx.Write(" ")
 		ctx.Write(token.Only.String())
 	}
-- 
2.43.0


From 6e146652793cdea2c112a50fbce59f26d9fa180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 26/35] fix: don't mistake a NUL character for the end of the
 input

Everything following it was ignored.
---
 lexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 9488a9d..027d03c 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -8,8 +8,8 @@ import (
 )
 
 const (
-	// EOF sentinel
-	eof = 0
+	// EOF sentinel (not a valid rune, so that no input can be mistaken for it)
+	eof = -1
 	// Newline sentinel
 	newline = '\n'
 )
-- 
2.43.0


From 55721f8af12c2d5f5b540ed8660a750f52a51c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 27/35] fix: reject join clauses which are not entirely
 understood

ParseJoin crashed on a clause truncated after AND or OR, stopped silently at
the first unexpected token (dropping the conditions which follow it), let a
second condition, table or type replace the first one, and returned a join
without any condition.
---
 parser/join.go | 169 +++++++++++++++++++++++++------------------------
 1 file changed, 86 insertions(+), 83 deletions(-)

diff --git a/parser/join.go b/parser/join.go
index 894cb55..f435c77 100644
--- a/parser/join.go
+++ b/parser/join.go
@@ -20,129 +20,132 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 	lexer := lexer.New(strings.NewReader(subquery))
 	it := lexer.Iterator()
 
-	join := stmt.Join{
-		Type: types.InnerJoin,
-	}
+	join := stmt.Join{}
+	depth := 0
 
 	for it.HasNext() {
 		e := it.Next()
 
+		// Nothing but closing parentheses and a semicolon is allowed after the condition.
+		if join.Condition != nil {
+			if e.Type == token.RParen && depth > 0 {
+				depth--
+				continue
+			}
+			if e.Type == token.Semicolon && !it.HasNext() {
+				continue
+			}
+			return stmt.Join{}, invalidJoin(subquery)
+		}
+
 		switch e.Type {
 		// Parse join type
 		case token.Join:
-			continue
+			if join.Table.IsEmpty() {
+				continue
+			}
 		case token.Inner:
-			if it.Is(token.Join) {
+			if it.Is(token.Join) && join.Type == "" && join.Table.IsEmpty() {
 				it.Next()
 				join.Type = types.InnerJoin
 				continue
 			}
 		case token.Left:
-			if it.Is(token.Join) {
+			if it.Is(token.Join) && join.Type == "" && join.Table.IsEmpty() {
 				it.Next()
 				join.Type = types.LeftJoin
 				continue
 			}
 		case token.Right:
-			if it.Is(token.Join) {
+			if it.Is(token.Join) && join.Type == "" && join.Table.IsEmpty() {
 				it.Next()
 				join.Type = types.RightJoin
 				continue
 			}
 		case token.Literal:
 			// Parse join table
-			if it.Is(token.On) {
+			if it.Is(token.On) && join.Table.IsEmpty() {
 				it.Next()
 				join.Table = stmt.NewTable(e.Value)
 				continue
 			}
 
 			// Parse join condition
-			if it.Is(token.Equals) {
-
-				// Left condition
-				left := stmt.NewColumn(e.Value)
-
-				// Check that we have a right condition
-				e = it.Next()
-				if e.Type != token.Equals || !it.Is(token.Literal) {
-					err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
-					return stmt.Join{}, err
-				}
-
-				// Right condition
-				e = it.Next()
-				right := stmt.NewColumn(e.Value)
-
-				join.Condition = stmt.NewOnClause(left, right)
-
-				for it.Is(token.And) || it.Is(token.Or) {
-					// We have an AND operator
-					if it.Is(token.And) {
-						e := it.Next()
-						if e.Type != token.And || !it.Is(token.Literal) {
-							err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
-							return stmt.Join{}, err
-						}
-
-						// Left condition
-						e = it.Next()
-						left := stmt.NewColumn(e.Value)
-
-						// Check that we have a right condition
-						e = it.Next()
-						if e.Type != token.Equals || !it.Is(token.Literal) {
-							err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
-							return stmt.Join{}, err
-						}
-
-						// Right condition
-						e = it.Next()
-						right := stmt.NewColumn(e.Value)
-
-						join.Condition = stmt.NewInfixExpression(join.Condition, stmt.NewLogicalOperator(types.And), stmt.NewOnClause(left, right)) //nolint:lll
-					}
-					// We have an OR operator
-					if it.Is(token.Or) {
-						e := it.Next()
-						if e.Type != token.Or || !it.Is(token.Literal) {
-							err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
-							return stmt.Join{}, err
-						}
-
-						// Left condition
-						e = it.Next()
-						left := stmt.NewColumn(e.Value)
-
-						// Check that we have a right condition
-						e = it.Next()
-						if e.Type != token.Equals || !it.Is(token.Literal) {
-							err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
-							return stmt.Join{}, err
-						}
-
-						// Right condition
-						e = it.Next()
-						right := stmt.NewColumn(e.Value)
-
-						join.Condition = stmt.NewInfixExpression(join.Condition, stmt.NewLogicalOperator(types.Or), stmt.NewOnClause(left, right)) //nolint:lll
-					}
-				}
-
+			condition, ok := parseJoinCondition(e, it)
+			if ok {
+				join.Condition = condition
 				continue
 			}
-
-		case token.On, token.LParen, token.RParen:
+		case token.LParen:
+			depth++
+			continue
+		case token.On:
 			continue
 		}
 
-		// Ignore invalid token and stop iterating.
-		break
+		return stmt.Join{}, invalidJoin(subquery)
+	}
+
+	if join.Condition == nil || depth != 0 {
+		return stmt.Join{}, invalidJoin(subquery)
+	}
+	if join.Type == "" {
+		join.Type = types.InnerJoin
 	}
 
 	return join, nil
 }
 
+// parseJoinCondition parses a list of clauses separated by logical operators, and starting with given token.
+// The operators are applied from left to right.
+func parseJoinCondition(e token.Token, it *lexer.Iteratee) (stmt.Expression, bool) {
+	clause, ok := parseOnClause(e, it)
+	if !ok {
+		return nil, false
+	}
+
+	var condition stmt.Expression = clause
+
+	for it.Is(token.And) || it.Is(token.Or) {
+		operator := it.Next()
+		if !it.Is(token.Literal) {
+			return nil, false
+		}
+
+		clause, ok := parseOnClause(it.Next(), it)
+		if !ok {
+			return nil, false
+		}
+
+		if operator.Type == token.And {
+			condition = stmt.NewInfixExpression(condition, stmt.NewLogicalOperator(types.And), clause)
+		} else {
+			condition = stmt.NewInfixExpression(condition, stmt.NewLogicalOperator(types.Or), clause)
+		}
+	}
+
+	return condition, true
+}
+
+// parseOnClause parses an equality between two columns, the first one being given token.
+func parseOnClause(e token.Token, it *lexer.Iteratee) (stmt.OnClause, bool) {
+	if !it.Is(token.Equals) {
+		return stmt.OnClause{}, false
+	}
+	it.Next()
+
+	// Check that we have a right condition
+	if !it.Is(token.Literal) {
+		return stmt.OnClause{}, false
+	}
+
+	return stmt.NewOnClause(stmt.NewColumn(e.Value), stmt.NewColumn(it.Next().Value)), true
+}
+
+func invalidJoin(subquery string) error {
+	return errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
+}
+
 // MustParseJoin will execute ParseJoin and panic on error.
 func MustParseJoin(subquery string) stmt.Join {
 	join, err := ParseJoin(subquery)
-- 
2.43.0


From 7c9f8d36bf7e4a1e92ae5dbb07bc2499342cfb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 28/35] fix: reject a join whose condition names another table

The table of the join clause was silently dropped.
---
 builder/select.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/select.go b/builder/select.go
index c9d4cfa..ebbd4ea 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -317,6 +317,9 @@ func handleSelectJoin(args []interface{}) stmt.Join {
 		panic(fmt.Sprintf("loukoum: cannot use %T as condition for join clause", args[1]))
 	}
 
+	if !join.Table.IsEmpty() && join.Table != table {
+		panic("loukoum: join clause has two tables")
+	}
 	join.Table = table
 
 	return join
-- 
2.43.0


From 58af8043b6476dcbb509b26a19e1a82a6fecb83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:57 +0000
Subject: [PATCH 29/35] fix: don't render the comment of a subquery given as a
 builder

---
 stmt/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 7193d80..b0154c5 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -46,7 +46,7 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 		if !ok {
 			panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", value, value))
 		}
-		return expression
+		return NewExpression(expression)
 	case Int64Encoder:
 		return NewValue(value.Int64())
 	case BoolEncoder:
-- 
2.43.0


From cb2cbb8b03526bee9133e6499077ac2ba6b9dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 30/35] fix: don't render the comment of a subquery given to
 NewIn

---
 stmt/expression.go | 18 ++++++++++++------
 stmt/in.go         |  4 ++--
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index b0154c5..6693854 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -21,12 +21,8 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 		return NewValue(nil)
 	}
 	switch value := arg.(type) {
-	case Select:
-		// A comment extends to the end of the line: it would swallow what follows the subquery.
-		value.Comment = Comment{}
-		return value
 	case Expression:
-		return value
+		return uncommented(value)
 	case string, bool, int, int8, int16, int32, int64,
 		uint, uint8, uint16, uint32, uint64, float32, float64,
 		[]byte, driver.Valuer, []int64, []string, pgtype.RangeValuer,
@@ -46,7 +42,7 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 		if !ok {
 			panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", value, value))
 		}
-		return NewExpression(expression)
+		return uncommented(expression)
 	case Int64Encoder:
 		return NewValue(value.Int64())
 	case BoolEncoder:
@@ -60,6 +56,16 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 	}
 }
 
+// uncommented drops the comment of a subquery.
+// It extends to the end of the line: it would swallow what follows the subquery.
+func uncommented(expression Expression) Expression {
+	if selekt, ok := expression.(Select); ok {
+		selekt.Comment = Comment{}
+		return selekt
+	}
+	return expression
+}
+
 // ----------------------------------------------------------------------------
 // Identifier
 // ----------------------------------------------------------------------------
diff --git a/stmt/in.go b/stmt/in.go
index 25cda38..a76dc75 100644
--- a/stmt/in.go
+++ b/stmt/in.go
@@ -16,7 +16,7 @@ func NewIn(expression Expression, value Expression) In {
 	return In{
 		Expression: NewWrapper(expression),
 		Operator:   NewComparisonOperator(types.In),
-		Value:      value,
+		Value:      uncommented(value),
 	}
 }
 
@@ -25,7 +25,7 @@ func NewNotIn(expression Expression, value Expression) In {
 	return In{
 		Expression: NewWrapper(expression),
 		Operator:   NewComparisonOperator(types.NotIn),
-		Value:      value,
+		Value:      uncommented(value),
 	}
 }
 
-- 
2.43.0


From 5b4cedba7a6df46cdcedb1028f5705532147c356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:54 +0000
Subject: [PATCH 31/35] fix: keep the shape of the rows of VALUES

A row of one element was taken for a list: nil rendered as an empty row,
a slice as several elements, and a subquery without parentheses.
---
 stmt/expression.go | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 6693854..6b9e9b8 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -317,18 +317,39 @@ func NewArrayListExpression(values ...interface{}) Expression { // nolint: gocyc
 		arraylist = toArrayList(values[0])
 	}
 	if len(arraylist.Values) == 0 {
-		arraylist.Values = []Expression{NewArrayExpression(values...)}
+		arraylist.Values = []Expression{toSingleRow(values)}
 
 	}
 	return arraylist
 }
 
+// toSingleRow creates a row from a list of values, or from one argument which is a slice or a value.
+func toSingleRow(values []interface{}) Array {
+	if len(values) != 1 || values[0] == nil {
+		return toRow(values)
+	}
+	row := Array{}
+	for _, value := range toArray(values[0]).Values {
+		row.Append(NewWrapper(value))
+	}
+	return row
+}
+
+// toRow creates a row: each value is one element of it, even a slice or nil.
+func toRow(values []interface{}) Array {
+	row := Array{}
+	for _, value := range values {
+		row.Append(NewWrapper(NewExpression(value)))
+	}
+	return row
+}
+
 func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 	arraylist := ArrayList{}
 	switch values := value.(type) {
 	case [][]interface{}:
 		for i := range values {
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(values[i]...))
+			arraylist.Values = append(arraylist.Values, toRow(values[i]))
 		}
 	case [][]string:
 		for i := range values {
@@ -337,7 +358,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 				raws[j] = values[i][j]
 			}
 
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, toRow(raws))
 		}
 	case [][]int:
 		for i := range values {
@@ -345,7 +366,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, toRow(raws))
 		}
 	case [][]int64:
 		for i := range values {
@@ -353,7 +374,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, toRow(raws))
 		}
 	case [][]bool:
 		for i := range values {
@@ -361,7 +382,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, toRow(raws))
 		}
 	case [][]Expression:
 		for i := range values {
@@ -369,7 +390,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, toRow(raws))
 		}
 	}
 
-- 
2.43.0


From 894933e7b5736af7aff69045451321e49bf2fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:56 +0000
Subject: [PATCH 32/35] fix: parenthesise the subqueries of a list given as a
 slice

---
 stmt/expression.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stmt/expression.go b/stmt/expression.go
index 6b9e9b8..6e765e8 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -513,6 +513,13 @@ func toArray(value interface{}) Array { // nolint: gocyclo
 	default:
 		array.Append(value)
 	}
+
+	// A subquery is the list if it is alone. Otherwise it is an operand.
+	if len(array.Values) > 1 {
+		for i := range array.Values {
+			array.Values[i] = NewWrapper(array.Values[i])
+		}
+	}
 	return array
 }
 
-- 
2.43.0


From b6dfc6d5ee6af08fc450dcfd6f76881e535e445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:58 +0000
Subject: [PATCH 33/35] fix: parenthesise the subqueries among the arguments of
 a call

---
 stmt/expression.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 6e765e8..348733f 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -642,10 +642,19 @@ type Call struct {
 
 // NewCall returns a new Call.
 func NewCall(function string, args ...Expression) Call {
-	return Call{
+	call := Call{
 		function: function,
-		args:     args,
+		args:     make([]Expression, len(args)),
 	}
+	for i := range args {
+		// A subquery may be the only argument as it is, as in ARRAY(SELECT ...).
+		if len(args) == 1 {
+			call.args[i] = uncommented(args[i])
+		} else {
+			call.args[i] = NewWrapper(args[i])
+		}
+	}
+	return call
 }
 
 func (Call) expression() {}
-- 
2.43.0


From b2fc869f14d74de5177f0ec3d4b0bf56b5e5d437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:58 +0000
Subject: [PATCH 34/35] fix: parenthesise a subquery among the values of a
 column-list SET

---
 stmt/set.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stmt/set.go b/stmt/set.go
index 214cb82..d603ece 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -212,7 +212,12 @@ func (pairs PairContainer) WriteArray(ctx types.Context) {
 		if i != 0 {
 			ctx.Write(", ")
 		}
-		pairs.Expressions[i].Write(ctx)
+		// A subquery may yield all values. If there are several expressions, it is an operand.
+		expression := pairs.Expressions[i]
+		if len(pairs.Expressions) > 1 {
+			expression = NewWrapper(expression)
+		}
+		expression.Write(ctx)
 	}
 	ctx.Write(")")
 }
-- 
2.43.0


From aee85a68ca372c75f032119458253f19023d0b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:22 +0000
Subject: [PATCH 35/35] fix: refuse a textual join with misplaced ON, JOIN or
 parentheses

---
 parser/join.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/parser/join.go b/parser/join.go
index f435c77..a6bb2be 100644
--- a/parser/join.go
+++ b/parser/join.go
@@ -21,6 +21,7 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 	it := lexer.Iterator()
 
 	join := stmt.Join{}
+	on := false
 	depth := 0
 
 	for it.HasNext() {
@@ -41,31 +42,33 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 		switch e.Type {
 		// Parse join type
 		case token.Join:
-			if join.Table.IsEmpty() {
+			if join.Type == "" && !on && depth == 0 {
+				join.Type = types.InnerJoin
 				continue
 			}
 		case token.Inner:
-			if it.Is(token.Join) && join.Type == "" && join.Table.IsEmpty() {
+			if it.Is(token.Join) && join.Type == "" && !on && depth == 0 {
 				it.Next()
 				join.Type = types.InnerJoin
 				continue
 			}
 		case token.Left:
-			if it.Is(token.Join) && join.Type == "" && join.Table.IsEmpty() {
+			if it.Is(token.Join) && join.Type == "" && !on && depth == 0 {
 				it.Next()
 				join.Type = types.LeftJoin
 				continue
 			}
 		case token.Right:
-			if it.Is(token.Join) && join.Type == "" && join.Table.IsEmpty() {
+			if it.Is(token.Join) && join.Type == "" && !on && depth == 0 {
 				it.Next()
 				join.Type = types.RightJoin
 				continue
 			}
 		case token.Literal:
 			// Parse join table
-			if it.Is(token.On) && join.Table.IsEmpty() {
+			if it.Is(token.On) && !on && depth == 0 {
 				it.Next()
+				on = true
 				join.Table = stmt.NewTable(e.Value)
 				continue
 			}
@@ -80,7 +83,10 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 			depth++
 			continue
 		case token.On:
-			continue
+			if !on && depth == 0 {
+				on = true
+				continue
+			}
 		}
 
 		return stmt.Join{}, invalidJoin(subquery)
-- 
2.43.0

