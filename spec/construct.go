package zzverifspec

import (
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// C31: a statement made by a constructor, or by a method that refines one,
// renders what it was given.

func Q_C31_column(name string, ctx types.Context) { stmt.NewColumn(name).Write(ctx) }
func S_C31_column(name string, ctx types.Context) { ctx.Write(quoted(name)) }

func aliased(text, alias string, ctx types.Context) {
	ctx.Write(text)
	if alias != "" {
		ctx.Write(" AS " + alias)
	}
}

func quotedAs(name, alias string, ctx types.Context) {
	ctx.Write(quoted(name))
	if alias != "" {
		ctx.Write(" AS " + quoted(alias))
	}
}

func Q_C31_columnAlias(name, alias string, ctx types.Context) {
	stmt.NewColumnAlias(name, alias).Write(ctx)
}
func S_C31_columnAlias(name, alias string, ctx types.Context) { quotedAs(name, alias, ctx) }

func Q_C31_columnAs(c stmt.Column, alias string, ctx types.Context) { c.As(alias).Write(ctx) }
func S_C31_columnAs(c stmt.Column, alias string, ctx types.Context) { quotedAs(c.Name, alias, ctx) }

func orderName(c stmt.Column) string {
	if c.Alias != "" {
		return c.Alias
	}
	return c.Name
}

func Q_C31_columnAsc(c stmt.Column) stmt.Order { return c.Asc() }
func S_C31_columnAsc(c stmt.Column) stmt.Order {
	return stmt.Order{Expression: orderName(c), Type: types.OrderType("ASC")}
}

func Q_C31_columnDesc(c stmt.Column) stmt.Order { return c.Desc() }
func S_C31_columnDesc(c stmt.Column) stmt.Order {
	return stmt.Order{Expression: orderName(c), Type: types.OrderType("DESC")}
}

func Q_C31_order(e string, kind types.OrderType) stmt.Order { return stmt.NewOrder(e, kind) }
func S_C31_order(e string, kind types.OrderType) stmt.Order {
	return stmt.Order{Expression: e, Type: kind}
}

func Q_C31_table(name string, ctx types.Context) { stmt.NewTable(name).Write(ctx) }
func S_C31_table(name string, ctx types.Context) { ctx.Write(quoted(name)) }

func Q_C31_tableAlias(name, alias string, ctx types.Context) {
	stmt.NewTableAlias(name, alias).Write(ctx)
}
func S_C31_tableAlias(name, alias string, ctx types.Context) { quotedAs(name, alias, ctx) }

func Q_C31_tableAs(t stmt.Table, alias string, ctx types.Context) {
	t.As(alias).Write(ctx)
}
func S_C31_tableAs(t stmt.Table, alias string, ctx types.Context) {
	t.Alias = alias
	t.Write(ctx)
}

func Q_C31_tableOnlyAs(name, alias string, ctx types.Context) {
	stmt.NewTable(name).Only().As(alias).Write(ctx)
}
func S_C31_tableOnlyAs(name, alias string, ctx types.Context) {
	ctx.Write("ONLY ")
	quotedAs(name, alias, ctx)
}

func Q_C31_tableAsOnly(name, alias string, ctx types.Context) {
	stmt.NewTable(name).As(alias).Only().Write(ctx)
}
func S_C31_tableAsOnly(name, alias string, ctx types.Context) {
	ctx.Write("ONLY ")
	quotedAs(name, alias, ctx)
}

func Q_C31_count(value, alias string, distinct bool, ctx types.Context) {
	stmt.NewCount(value).Distinct(distinct).As(alias).Write(ctx)
}
func S_C31_count(value, alias string, distinct bool, ctx types.Context) {
	if distinct {
		value = "DISTINCT " + value
	}
	aliased("COUNT("+value+")", alias, ctx)
}

func Q_C31_countPlain(value string, ctx types.Context) { stmt.NewCount(value).Write(ctx) }
func S_C31_countPlain(value string, ctx types.Context) { ctx.Write("COUNT(" + value + ")") }

func Q_C31_max(value, alias string, ctx types.Context) { stmt.NewMax(value).As(alias).Write(ctx) }
func S_C31_max(value, alias string, ctx types.Context) { aliased("MAX("+value+")", alias, ctx) }

func Q_C31_min(value, alias string, ctx types.Context) { stmt.NewMin(value).As(alias).Write(ctx) }
func S_C31_min(value, alias string, ctx types.Context) { aliased("MIN("+value+")", alias, ctx) }

func Q_C31_sum(value, alias string, ctx types.Context) { stmt.NewSum(value).As(alias).Write(ctx) }
func S_C31_sum(value, alias string, ctx types.Context) { aliased("SUM("+value+")", alias, ctx) }

func Q_C31_maxPlain(value string, ctx types.Context) { stmt.NewMax(value).Write(ctx) }
func S_C31_maxPlain(value string, ctx types.Context) { ctx.Write("MAX(" + value + ")") }

func Q_C31_minPlain(value string, ctx types.Context) { stmt.NewMin(value).Write(ctx) }
func S_C31_minPlain(value string, ctx types.Context) { ctx.Write("MIN(" + value + ")") }

func Q_C31_sumPlain(value string, ctx types.Context) { stmt.NewSum(value).Write(ctx) }
func S_C31_sumPlain(value string, ctx types.Context) { ctx.Write("SUM(" + value + ")") }

// Of what was refined before, only what is refined again changes.

func Q_C31_countAs(c stmt.Count, alias string) stmt.Count { return c.As(alias) }
func S_C31_countAs(c stmt.Count, alias string) stmt.Count {
	return stmt.Count{Value: c.Value, IsDistinct: c.IsDistinct, Alias: alias}
}

func Q_C31_countDistinct(c stmt.Count, distinct bool) stmt.Count { return c.Distinct(distinct) }
func S_C31_countDistinct(c stmt.Count, distinct bool) stmt.Count {
	return stmt.Count{Value: c.Value, IsDistinct: distinct, Alias: c.Alias}
}

func Q_C31_maxAs(c stmt.Max, alias string) stmt.Max { return c.As(alias) }
func S_C31_maxAs(c stmt.Max, alias string) stmt.Max { return stmt.Max{Value: c.Value, Alias: alias} }

func Q_C31_minAs(c stmt.Min, alias string) stmt.Min { return c.As(alias) }
func S_C31_minAs(c stmt.Min, alias string) stmt.Min { return stmt.Min{Value: c.Value, Alias: alias} }

func Q_C31_sumAs(c stmt.Sum, alias string) stmt.Sum { return c.As(alias) }
func S_C31_sumAs(c stmt.Sum, alias string) stmt.Sum { return stmt.Sum{Value: c.Value, Alias: alias} }

func Q_C31_only(t stmt.Table, ctx types.Context) { t.Only().Write(ctx) }
func S_C31_only(t stmt.Table, ctx types.Context) {
	ctx.Write("ONLY ")
	quotedAs(t.Name, t.Alias, ctx)
}

func Q_C31_raw(value string, ctx types.Context) { stmt.NewRaw(value).Write(ctx) }
func S_C31_raw(value string, ctx types.Context) { ctx.Write(value) }

func Q_C31_onClause(left, right stmt.Column, ctx types.Context) {
	stmt.NewOnClause(left, right).Write(ctx)
}
func S_C31_onClause(left, right stmt.Column, ctx types.Context) {
	left.Write(ctx)
	ctx.Write(" = ")
	right.Write(ctx)
}

func Q_C31_join(kind types.JoinType, t stmt.Table, c stmt.Expression) stmt.Join {
	return stmt.NewJoin(kind, t, c)
}
func S_C31_join(kind types.JoinType, t stmt.Table, c stmt.Expression) stmt.Join {
	return stmt.Join{Type: kind, Table: t, Condition: c}
}

func Q_C31_innerJoin(t stmt.Table, c stmt.Expression) stmt.Join { return stmt.NewInnerJoin(t, c) }
func S_C31_innerJoin(t stmt.Table, c stmt.Expression) stmt.Join {
	return stmt.Join{Type: types.JoinType("INNER JOIN"), Table: t, Condition: c}
}

func Q_C31_leftJoin(t stmt.Table, c stmt.Expression) stmt.Join { return stmt.NewLeftJoin(t, c) }
func S_C31_leftJoin(t stmt.Table, c stmt.Expression) stmt.Join {
	return stmt.Join{Type: types.JoinType("LEFT JOIN"), Table: t, Condition: c}
}

func Q_C31_rightJoin(t stmt.Table, c stmt.Expression) stmt.Join { return stmt.NewRightJoin(t, c) }
func S_C31_rightJoin(t stmt.Table, c stmt.Expression) stmt.Join {
	return stmt.Join{Type: types.JoinType("RIGHT JOIN"), Table: t, Condition: c}
}

func Q_C31_limit(n int64, ctx types.Context) { stmt.NewLimit(n).Write(ctx) }
func S_C31_limit(n int64, ctx types.Context) { stmt.Limit{Count: n}.Write(ctx) }

func Q_C31_offset(n int64, ctx types.Context) { stmt.NewOffset(n).Write(ctx) }
func S_C31_offset(n int64, ctx types.Context) { stmt.Offset{Start: n}.Write(ctx) }

func Q_C31_comment(s string, ctx types.Context) { stmt.NewComment(s).Write(ctx) }
func S_C31_comment(s string, ctx types.Context) { stmt.Comment{Comment: s}.Write(ctx) }

func Q_C31_prefix(s string, ctx types.Context) { stmt.NewPrefix(s).Write(ctx) }
func S_C31_prefix(s string, ctx types.Context) { ctx.Write(s) }

func Q_C31_suffix(s string, ctx types.Context) { stmt.NewSuffix(s).Write(ctx) }
func S_C31_suffix(s string, ctx types.Context) { ctx.Write(s) }

func Q_C31_from(tables []stmt.Statement, ctx types.Context) { stmt.NewFrom(tables).Write(ctx) }
func S_C31_from(tables []stmt.Statement, ctx types.Context) { stmt.From{Tables: tables}.Write(ctx) }

func Q_C31_using(tables []stmt.Table, ctx types.Context) { stmt.NewUsing(tables).Write(ctx) }
func S_C31_using(tables []stmt.Table, ctx types.Context) { stmt.Using{Tables: tables}.Write(ctx) }

func Q_C31_groupBy(columns []stmt.Column, ctx types.Context) { stmt.NewGroupBy(columns).Write(ctx) }
func S_C31_groupBy(columns []stmt.Column, ctx types.Context) {
	stmt.GroupBy{Columns: columns}.Write(ctx)
}

func Q_C31_distinctOn(columns []stmt.Column, ctx types.Context) {
	stmt.NewDistinctOn(columns).Write(ctx)
}
func S_C31_distinctOn(columns []stmt.Column, ctx types.Context) {
	stmt.DistinctOn{Columns: columns}.Write(ctx)
}

func Q_C31_orderBy(orders []stmt.Order, ctx types.Context) { stmt.NewOrderBy(orders).Write(ctx) }
func S_C31_orderBy(orders []stmt.Order, ctx types.Context) { stmt.OrderBy{Orders: orders}.Write(ctx) }

func Q_C31_with(queries []stmt.WithQuery, ctx types.Context) { stmt.NewWith(queries).Write(ctx) }
func S_C31_with(queries []stmt.WithQuery, ctx types.Context) { stmt.With{Queries: queries}.Write(ctx) }

func Q_C31_returning(list []stmt.SelectExpression, ctx types.Context) {
	stmt.NewReturning(list).Write(ctx)
}
func S_C31_returning(list []stmt.SelectExpression, ctx types.Context) {
	stmt.Returning{Columns: list}.Write(ctx)
}

func Q_C31_conflictTarget(columns []stmt.Column, ctx types.Context) {
	stmt.NewConflictTarget(columns).Write(ctx)
}
func S_C31_conflictTarget(columns []stmt.Column, ctx types.Context) {
	stmt.ConflictTarget{Columns: columns}.Write(ctx)
}

func Q_C31_onConflict(t stmt.ConflictTarget, a stmt.ConflictAction, ctx types.Context) {
	stmt.NewOnConflict(t, a).Write(ctx)
}
func S_C31_onConflict(t stmt.ConflictTarget, a stmt.ConflictAction, ctx types.Context) {
	stmt.OnConflict{Target: t, Action: a}.Write(ctx)
}

func Q_C31_conflictUpdate(s stmt.Set, ctx types.Context) { stmt.NewConflictUpdateAction(s).Write(ctx) }
func S_C31_conflictUpdate(s stmt.Set, ctx types.Context) {
	stmt.ConflictUpdateAction{Set: s}.Write(ctx)
}

func Q_C31_into(t stmt.Table, ctx types.Context) { stmt.NewInto(t).Write(ctx) }
func S_C31_into(t stmt.Table, ctx types.Context) { stmt.Into{Table: t}.Write(ctx) }

func Q_C31_update(t stmt.Table) stmt.Update { return stmt.NewUpdate(t) }
func S_C31_update(t stmt.Table) stmt.Update { return stmt.Update{Table: t} }

func Q_C31_select() stmt.Select { return stmt.NewSelect() }
func S_C31_select() stmt.Select { return stmt.Select{} }

func Q_C31_insert() stmt.Insert { return stmt.NewInsert() }
func S_C31_insert() stmt.Insert { return stmt.Insert{} }

func Q_C31_delete() stmt.Delete { return stmt.NewDelete() }
func S_C31_delete() stmt.Delete { return stmt.Delete{} }

func Q_C31_values(e stmt.Expression, ctx types.Context) { stmt.NewValues(e).Write(ctx) }
func S_C31_values(e stmt.Expression, ctx types.Context) { stmt.Values{Values: e}.Write(ctx) }

func Q_C31_infixOn(l, r stmt.OnExpression, o types.LogicalOperator, ctx types.Context) {
	stmt.NewInfixOnExpression(l, stmt.NewLogicalOperator(o), r).Write(ctx)
}
func S_C31_infixOn(l, r stmt.OnExpression, o types.LogicalOperator, ctx types.Context) {
	stmt.InfixOnExpression{Left: l, Operator: stmt.LogicalOperator{Operator: o}, Right: r}.Write(ctx)
}

func Q_C31_whereAnd(w stmt.Where, c stmt.Expression) stmt.Where { return w.And(c) }
func S_C31_whereAnd(w stmt.Where, c stmt.Expression) stmt.Where {
	must(w.Condition != nil && !w.Condition.IsEmpty())
	return stmt.Where{Condition: stmt.NewInfixExpression(w.Condition, stmt.LogicalOperator{Operator: "AND"}, c)}
}

func Q_C31_whereOr(w stmt.Where, c stmt.Expression) stmt.Where { return w.Or(c) }
func S_C31_whereOr(w stmt.Where, c stmt.Expression) stmt.Where {
	must(w.Condition != nil && !w.Condition.IsEmpty())
	return stmt.Where{Condition: stmt.NewInfixExpression(w.Condition, stmt.LogicalOperator{Operator: "OR"}, c)}
}

func Q_C31_types(ctx types.Context) {
	ctx.Write(types.InnerJoin.String() + "," + types.LeftJoin.String() + "," + types.RightJoin.String() + "," +
		types.LeftOuterJoin.String() + "," + types.RightOuterJoin.String() + "," + types.Asc.String() + "," + types.Desc.String() + "," + types.And.String() + "," + types.Or.String())
}
func S_C31_types(ctx types.Context) {
	ctx.Write("INNER JOIN,LEFT JOIN,RIGHT JOIN,LEFT OUTER JOIN,RIGHT OUTER JOIN,ASC,DESC,AND,OR")
}
