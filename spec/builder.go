package zzverifspec

import (
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// C24: each method of a builder changes its own clause, and nothing else.

func selectOf(b builder.Select) stmt.Select { return b.Statement().(stmt.Select) }
func insertOf(b builder.Insert) stmt.Insert { return b.Statement().(stmt.Insert) }
func updateOf(b builder.Update) stmt.Update { return b.Statement().(stmt.Update) }
func deleteOf(b builder.Delete) stmt.Delete { return b.Statement().(stmt.Delete) }

// must panics unless its argument holds.
func must(ok bool) {
	if !ok {
		panic("")
	}
}

// SELECT.

func Q_C24_selectNew() stmt.Statement { return builder.NewSelect().Statement() }
func S_C24_selectNew() stmt.Statement { return stmt.Select{} }

func Q_C24_selectDistinct(b builder.Select) stmt.Statement { return b.Distinct().Statement() }
func S_C24_selectDistinct(b builder.Select) stmt.Statement {
	q := selectOf(b)
	must(len(q.DistinctOn.Columns) == 0)
	q.Distinct = true
	return q
}

func Q_C24_selectDistinctOn(b builder.Select, args []interface{}) stmt.Statement {
	return b.DistinctOn(args...).Statement()
}
func S_C24_selectDistinctOn(b builder.Select, args []interface{}) stmt.Statement {
	q := selectOf(b)
	must(len(q.DistinctOn.Columns) == 0 && !q.Distinct)
	columns := builder.ToColumns(args)
	must(len(columns) != 0)
	q.DistinctOn = stmt.DistinctOn{Columns: columns}
	return q
}

func Q_C24_selectColumns(b builder.Select, args []interface{}) stmt.Statement {
	return b.Columns(args...).Statement()
}
func S_C24_selectColumns(b builder.Select, args []interface{}) stmt.Statement {
	q := selectOf(b)
	if len(args) == 0 {
		q.Expressions = []stmt.SelectExpression{stmt.Raw{Value: "*"}}
		return q
	}
	q.Expressions = builder.ToSelectExpressions(args)
	return q
}

func Q_C24_selectFrom(b builder.Select, args []interface{}) stmt.Statement {
	return b.From(args...).Statement()
}
func S_C24_selectFrom(b builder.Select, args []interface{}) stmt.Statement {
	q := selectOf(b)
	must(len(q.From.Tables) == 0)
	q.From = builder.ToFrom(args...)
	return q
}

func Q_C24_selectWith(b builder.Select, args []stmt.WithQuery) stmt.Statement {
	return b.With(args...).Statement()
}
func S_C24_selectWith(b builder.Select, args []stmt.WithQuery) stmt.Statement {
	q := selectOf(b)
	q.With.Queries = withQueries(q.With.Queries, args)
	return q
}

// withQueries appends defined queries.
func withQueries(list, args []stmt.WithQuery) []stmt.WithQuery {
	for i := range args {
		must(args[i].Name != "" && args[i].Subquery != nil && !args[i].Subquery.IsEmpty())
	}
	return append(append([]stmt.WithQuery{}, list...), args...)
}

func Q_C24_selectGroupBy(b builder.Select, args []interface{}) stmt.Statement {
	return b.GroupBy(args...).Statement()
}
func S_C24_selectGroupBy(b builder.Select, args []interface{}) stmt.Statement {
	q := selectOf(b)
	must(len(q.GroupBy.Columns) == 0)
	columns := builder.ToColumns(args)
	must(len(columns) != 0)
	q.GroupBy = stmt.GroupBy{Columns: columns}
	return q
}

func Q_C24_selectOrderBy(b builder.Select, args []stmt.Order) stmt.Statement {
	return b.OrderBy(args...).Statement()
}
func S_C24_selectOrderBy(b builder.Select, args []stmt.Order) stmt.Statement {
	q := selectOf(b)
	for i := range args {
		must(args[i].Expression != "")
	}
	q.OrderBy.Orders = append(append([]stmt.Order{}, q.OrderBy.Orders...), args...)
	return q
}

func Q_C24_selectLimit(b builder.Select, value interface{}) stmt.Statement {
	return b.Limit(value).Statement()
}
func S_C24_selectLimit(b builder.Select, value interface{}) stmt.Statement {
	q := selectOf(b)
	must(q.Limit.Count == 0)
	q.Limit = builder.ToLimit(value)
	return q
}

func Q_C24_selectOffset(b builder.Select, value interface{}) stmt.Statement {
	return b.Offset(value).Statement()
}
func S_C24_selectOffset(b builder.Select, value interface{}) stmt.Statement {
	q := selectOf(b)
	must(q.Offset.Start == 0)
	q.Offset = builder.ToOffset(value)
	return q
}

func Q_C24_selectSuffix(b builder.Select, value interface{}) stmt.Statement {
	return b.Suffix(value).Statement()
}
func S_C24_selectSuffix(b builder.Select, value interface{}) stmt.Statement {
	q := selectOf(b)
	must(q.Suffix.Suffix == "")
	q.Suffix = builder.ToSuffix(value)
	return q
}

func Q_C24_selectPrefix(b builder.Select, value interface{}) stmt.Statement {
	return b.Prefix(value).Statement()
}
func S_C24_selectPrefix(b builder.Select, value interface{}) stmt.Statement {
	q := selectOf(b)
	must(q.Prefix.Prefix == "")
	q.Prefix = builder.ToPrefix(value)
	return q
}

func Q_C24_selectComment(b builder.Select, comment string) stmt.Statement {
	return b.Comment(comment).Statement()
}
func S_C24_selectComment(b builder.Select, comment string) stmt.Statement {
	q := selectOf(b)
	q.Comment = stmt.Comment{Comment: comment}
	return q
}

// INSERT.

func Q_C24_insertInto(b builder.Insert, into interface{}) stmt.Statement {
	return b.Into(into).Statement()
}
func S_C24_insertInto(b builder.Insert, into interface{}) stmt.Statement {
	q := insertOf(b)
	must(q.Into.Table.Name == "")
	q.Into = builder.ToInto(into)
	return q
}

func Q_C24_insertColumns(b builder.Insert, args []interface{}) stmt.Statement {
	return b.Columns(args...).Statement()
}
func S_C24_insertColumns(b builder.Insert, args []interface{}) stmt.Statement {
	q := insertOf(b)
	if len(args) == 0 {
		return q
	}
	must(len(q.Columns) == 0)
	q.Columns = builder.ToColumns(args)
	return q
}

func noValues(v stmt.Values) bool { return v.Values == nil || v.Values.IsEmpty() }

func Q_C24_insertValues(b builder.Insert, args []interface{}) stmt.Statement {
	return b.Values(args...).Statement()
}
func S_C24_insertValues(b builder.Insert, args []interface{}) stmt.Statement {
	q := insertOf(b)
	must(noValues(q.Values) && len(args) != 0)
	q.Values = stmt.Values{Values: stmt.NewArrayListExpression(args...)}
	return q
}

func Q_C24_insertReturning(b builder.Insert, args []interface{}) stmt.Statement {
	return b.Returning(args...).Statement()
}
func S_C24_insertReturning(b builder.Insert, args []interface{}) stmt.Statement {
	q := insertOf(b)
	must(len(q.Returning.Columns) == 0)
	q.Returning = stmt.Returning{Columns: builder.ToSelectExpressions(args)}
	return q
}

func Q_C24_insertComment(b builder.Insert, comment string) stmt.Statement {
	return b.Comment(comment).Statement()
}
func S_C24_insertComment(b builder.Insert, comment string) stmt.Statement {
	q := insertOf(b)
	q.Comment = stmt.Comment{Comment: comment}
	return q
}

// UPDATE.

func Q_C24_updateNew(arg interface{}) stmt.Statement { return builder.NewUpdate(arg).Statement() }
func S_C24_updateNew(arg interface{}) stmt.Statement {
	return stmt.Update{Table: builder.ToTable(arg), Set: stmt.NewSet()}
}

func Q_C24_updateOnly(b builder.Update) stmt.Statement { return b.Only().Statement() }
func S_C24_updateOnly(b builder.Update) stmt.Statement {
	q := updateOf(b)
	q.Only = true
	return q
}

func Q_C24_updateSet(b builder.Update, args []interface{}) stmt.Statement {
	return b.Set(args...).Statement()
}
func S_C24_updateSet(b builder.Update, args []interface{}) stmt.Statement {
	q := updateOf(b)
	must(len(args) != 0)
	q.Set = builder.MergeSet(q.Set, args)
	return q
}

func Q_C24_updateUsing(b builder.Update, args []interface{}) stmt.Statement {
	return b.Using(args...).Statement()
}
func S_C24_updateUsing(b builder.Update, args []interface{}) stmt.Statement {
	q := updateOf(b)
	must(q.Set.Pairs.Mode == stmt.PairArrayMode && len(args) != 0)
	q.Set.Pairs = q.Set.Pairs.Clone()
	for _, arg := range args {
		q.Set.Pairs.Expressions = append(q.Set.Pairs.Expressions, stmt.NewExpression(arg))
	}
	return q
}

func Q_C24_updateWith(b builder.Update, args []stmt.WithQuery) stmt.Statement {
	return b.With(args...).Statement()
}
func S_C24_updateWith(b builder.Update, args []stmt.WithQuery) stmt.Statement {
	q := updateOf(b)
	q.With.Queries = withQueries(q.With.Queries, args)
	return q
}

func Q_C24_updateFrom(b builder.Update, arg interface{}) stmt.Statement {
	return b.From(arg).Statement()
}
func S_C24_updateFrom(b builder.Update, arg interface{}) stmt.Statement {
	q := updateOf(b)
	must(len(q.From.Tables) == 0)
	q.From = builder.ToFrom(arg)
	return q
}

func Q_C24_updateReturning(b builder.Update, args []interface{}) stmt.Statement {
	return b.Returning(args...).Statement()
}
func S_C24_updateReturning(b builder.Update, args []interface{}) stmt.Statement {
	q := updateOf(b)
	must(len(q.Returning.Columns) == 0)
	q.Returning = stmt.Returning{Columns: builder.ToSelectExpressions(args)}
	return q
}

func Q_C24_updateComment(b builder.Update, comment string) stmt.Statement {
	return b.Comment(comment).Statement()
}
func S_C24_updateComment(b builder.Update, comment string) stmt.Statement {
	q := updateOf(b)
	q.Comment = stmt.Comment{Comment: comment}
	return q
}

// DELETE.

func Q_C24_deleteNew() stmt.Statement { return builder.NewDelete().Statement() }
func S_C24_deleteNew() stmt.Statement { return stmt.Delete{} }

func Q_C24_deleteFrom(b builder.Delete, args []interface{}) stmt.Statement {
	return b.From(args...).Statement()
}
func S_C24_deleteFrom(b builder.Delete, args []interface{}) stmt.Statement {
	q := deleteOf(b)
	must(len(q.From.Tables) == 0)
	q.From = builder.ToFrom(args...)
	return q
}

func Q_C24_deleteUsing(b builder.Delete, args []interface{}) stmt.Statement {
	return b.Using(args...).Statement()
}
func S_C24_deleteUsing(b builder.Delete, args []interface{}) stmt.Statement {
	q := deleteOf(b)
	must(len(q.Using.Tables) == 0)
	q.Using = stmt.NewUsing(builder.ToTables(args))
	return q
}

func Q_C24_deleteReturning(b builder.Delete, args []interface{}) stmt.Statement {
	return b.Returning(args...).Statement()
}
func S_C24_deleteReturning(b builder.Delete, args []interface{}) stmt.Statement {
	q := deleteOf(b)
	must(len(q.Returning.Columns) == 0)
	q.Returning = stmt.Returning{Columns: builder.ToSelectExpressions(args)}
	return q
}

func Q_C24_deleteComment(b builder.Delete, comment string) stmt.Statement {
	return b.Comment(comment).Statement()
}
func S_C24_deleteComment(b builder.Delete, comment string) stmt.Statement {
	q := deleteOf(b)
	q.Comment = stmt.Comment{Comment: comment}
	return q
}

// C13: a condition given to a builder is never dropped: the first one becomes
// the condition of the clause, the following ones are combined with it.

func undefined(c stmt.Expression) bool { return c == nil || c.IsEmpty() }

// combined is a conjunction or a disjunction.
func combined(left stmt.Expression, operator types.LogicalOperator, right stmt.Expression) stmt.Expression {
	must(!undefined(left))
	return stmt.InfixExpression{
		Left:     operand(left),
		Operator: stmt.LogicalOperator{Operator: operator},
		Right:    operand(right),
	}
}

// first is the condition after a call to Where.
func first(where, c stmt.Expression) stmt.Expression {
	must(!undefined(c))
	if undefined(where) {
		return operand(c)
	}
	return combined(where, types.And, c)
}

func Q_C13_selectWhere(b builder.Select, c stmt.Expression) stmt.Statement {
	return b.Where(c).Statement()
}
func S_C13_selectWhere(b builder.Select, c stmt.Expression) stmt.Statement {
	q := selectOf(b)
	q.Where.Condition = first(q.Where.Condition, c)
	return q
}

func Q_C13_selectAnd(b builder.Select, c stmt.Expression) stmt.Statement {
	return b.And(c).Statement()
}
func S_C13_selectAnd(b builder.Select, c stmt.Expression) stmt.Statement {
	q := selectOf(b)
	must(!undefined(c))
	q.Where.Condition = combined(q.Where.Condition, types.And, c)
	return q
}

func Q_C13_selectOr(b builder.Select, c stmt.Expression) stmt.Statement { return b.Or(c).Statement() }
func S_C13_selectOr(b builder.Select, c stmt.Expression) stmt.Statement {
	q := selectOf(b)
	must(!undefined(c))
	q.Where.Condition = combined(q.Where.Condition, types.Or, c)
	return q
}

func Q_C13_selectHaving(b builder.Select, c stmt.Expression) stmt.Statement {
	return b.Having(c).Statement()
}
func S_C13_selectHaving(b builder.Select, c stmt.Expression) stmt.Statement {
	q := selectOf(b)
	must(undefined(q.Having.Condition) && !undefined(c))
	q.Having = stmt.Having{Condition: operand(c)}
	return q
}

func Q_C13_updateWhere(b builder.Update, c stmt.Expression) stmt.Statement {
	return b.Where(c).Statement()
}
func S_C13_updateWhere(b builder.Update, c stmt.Expression) stmt.Statement {
	q := updateOf(b)
	q.Where.Condition = first(q.Where.Condition, c)
	return q
}

func Q_C13_updateAnd(b builder.Update, c stmt.Expression) stmt.Statement {
	return b.And(c).Statement()
}
func S_C13_updateAnd(b builder.Update, c stmt.Expression) stmt.Statement {
	q := updateOf(b)
	must(!undefined(c))
	q.Where.Condition = combined(q.Where.Condition, types.And, c)
	return q
}

func Q_C13_updateOr(b builder.Update, c stmt.Expression) stmt.Statement { return b.Or(c).Statement() }
func S_C13_updateOr(b builder.Update, c stmt.Expression) stmt.Statement {
	q := updateOf(b)
	must(!undefined(c))
	q.Where.Condition = combined(q.Where.Condition, types.Or, c)
	return q
}

func Q_C13_deleteWhere(b builder.Delete, c stmt.Expression) stmt.Statement {
	return b.Where(c).Statement()
}
func S_C13_deleteWhere(b builder.Delete, c stmt.Expression) stmt.Statement {
	q := deleteOf(b)
	q.Where.Condition = first(q.Where.Condition, c)
	return q
}

func Q_C13_deleteAnd(b builder.Delete, c stmt.Expression) stmt.Statement {
	return b.And(c).Statement()
}
func S_C13_deleteAnd(b builder.Delete, c stmt.Expression) stmt.Statement {
	q := deleteOf(b)
	must(!undefined(c))
	q.Where.Condition = combined(q.Where.Condition, types.And, c)
	return q
}

func Q_C13_deleteOr(b builder.Delete, c stmt.Expression) stmt.Statement { return b.Or(c).Statement() }
func S_C13_deleteOr(b builder.Delete, c stmt.Expression) stmt.Statement {
	q := deleteOf(b)
	must(!undefined(c))
	q.Where.Condition = combined(q.Where.Condition, types.Or, c)
	return q
}

// Having clauses may also be combined.

func Q_C13_havingAnd(h stmt.Having, c stmt.Expression) stmt.Expression { return h.And(c).Condition }
func S_C13_havingAnd(h stmt.Having, c stmt.Expression) stmt.Expression {
	return combined(h.Condition, types.And, c)
}

func Q_C13_havingOr(h stmt.Having, c stmt.Expression) stmt.Expression { return h.Or(c).Condition }
func S_C13_havingOr(h stmt.Having, c stmt.Expression) stmt.Expression {
	return combined(h.Condition, types.Or, c)
}
