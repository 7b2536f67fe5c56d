package zzverifspec

import (
	"github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// C26: the functions of the package loukoum build what their names say.

func Q_C26_map() (string, string, string, string, string, string, string) {
	return string(loukoum.InnerJoin), string(loukoum.LeftJoin), string(loukoum.RightJoin),
		string(loukoum.LeftOuterJoin), string(loukoum.RightOuterJoin), string(loukoum.Asc), string(loukoum.Desc)
}
func S_C26_map() (string, string, string, string, string, string, string) {
	return "INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "LEFT OUTER JOIN", "RIGHT OUTER JOIN", "ASC", "DESC"
}

func Q_C26_pair(key, value interface{}) types.Pair { return loukoum.Pair(key, value) }
func S_C26_pair(key, value interface{}) types.Pair { return types.Pair{Key: key, Value: value} }

func Q_C26_value(value interface{}) stmt.Expression { return loukoum.Value(value) }
func S_C26_value(value interface{}) stmt.Expression { return stmt.Value{Value: value} }

func Q_C26_select(args []interface{}) stmt.Statement { return loukoum.Select(args...).Statement() }
func S_C26_select(args []interface{}) stmt.Statement {
	if len(args) == 0 {
		return stmt.Select{Expressions: []stmt.SelectExpression{stmt.Raw{Value: "*"}}}
	}
	return stmt.Select{Expressions: builder.ToSelectExpressions(args)}
}

func Q_C26_column(name string) stmt.Statement { return loukoum.Column(name) }
func S_C26_column(name string) stmt.Statement { return stmt.Column{Name: name} }

func Q_C26_columnAs(c stmt.Column, alias string) stmt.Statement { return c.As(alias) }
func S_C26_columnAs(c stmt.Column, alias string) stmt.Statement {
	return stmt.Column{Name: c.Name, Alias: alias}
}

func Q_C26_table(name string) stmt.Statement { return loukoum.Table(name) }
func S_C26_table(name string) stmt.Statement { return stmt.Table{Name: name} }

func Q_C26_tableAs(t stmt.Table, alias string) stmt.Statement { return t.As(alias) }
func S_C26_tableAs(t stmt.Table, alias string) stmt.Statement {
	t.Alias = alias
	return t
}

func Q_C26_tableOnly(name, alias string, ctx types.Context) {
	stmt.Table{Name: name, Alias: alias}.Only().Write(ctx)
}
func S_C26_tableOnly(name, alias string, ctx types.Context) {
	ctx.Write("ONLY ")
	table(ctx, name, alias)
}

func Q_C26_on(left, right string) stmt.Statement { return loukoum.On(left, right) }
func S_C26_on(left, right string) stmt.Statement {
	return stmt.OnClause{Left: stmt.Column{Name: left}, Right: stmt.Column{Name: right}}
}

func Q_C26_andOn(left, right stmt.OnExpression) stmt.Statement { return loukoum.AndOn(left, right) }
func S_C26_andOn(left, right stmt.OnExpression) stmt.Statement {
	return stmt.InfixOnExpression{Left: left, Operator: stmt.LogicalOperator{Operator: types.And}, Right: right}
}

func Q_C26_orOn(left, right stmt.OnExpression) stmt.Statement { return loukoum.OrOn(left, right) }
func S_C26_orOn(left, right stmt.OnExpression) stmt.Statement {
	return stmt.InfixOnExpression{Left: left, Operator: stmt.LogicalOperator{Operator: types.Or}, Right: right}
}

func Q_C26_condition(column interface{}) stmt.Statement { return loukoum.Condition(column) }
func S_C26_condition(column interface{}) stmt.Statement { return stmt.Identifier{Identifier: column} }

func Q_C26_order(column string, option []types.OrderType) stmt.Statement {
	return loukoum.Order(column, option...)
}
func S_C26_order(column string, option []types.OrderType) stmt.Statement {
	if len(option) > 0 {
		return stmt.Order{Expression: column, Type: option[0]}
	}
	return stmt.Order{Expression: column, Type: types.Asc}
}

func Q_C26_columnAsc(c stmt.Column) stmt.Statement { return c.Asc() }
func S_C26_columnAsc(c stmt.Column) stmt.Statement {
	if c.Alias != "" {
		return stmt.Order{Expression: c.Alias, Type: types.Asc}
	}
	return stmt.Order{Expression: c.Name, Type: types.Asc}
}

func Q_C26_columnDesc(c stmt.Column) stmt.Statement { return c.Desc() }
func S_C26_columnDesc(c stmt.Column) stmt.Statement {
	if c.Alias != "" {
		return stmt.Order{Expression: c.Alias, Type: types.Desc}
	}
	return stmt.Order{Expression: c.Name, Type: types.Desc}
}

func Q_C26_offset(n int64) stmt.Statement { return loukoum.Offset(n) }
func S_C26_offset(n int64) stmt.Statement { return stmt.Offset{Start: n} }

func Q_C26_limit(n int64) stmt.Statement { return loukoum.Limit(n) }
func S_C26_limit(n int64) stmt.Statement { return stmt.Limit{Count: n} }

func Q_C26_and(left, right stmt.Expression) stmt.Statement { return loukoum.And(left, right) }
func S_C26_and(left, right stmt.Expression) stmt.Statement {
	return stmt.InfixExpression{Left: operand(left), Operator: stmt.LogicalOperator{Operator: types.And}, Right: operand(right)}
}

func Q_C26_or(left, right stmt.Expression) stmt.Statement { return loukoum.Or(left, right) }
func S_C26_or(left, right stmt.Expression) stmt.Statement {
	return stmt.InfixExpression{Left: operand(left), Operator: stmt.LogicalOperator{Operator: types.Or}, Right: operand(right)}
}

func Q_C26_raw(s string) stmt.Statement { return loukoum.Raw(s) }
func S_C26_raw(s string) stmt.Statement { return stmt.Raw{Value: s} }

func Q_C26_exists(x interface{}) stmt.Statement { return loukoum.Exists(x) }
func S_C26_exists(x interface{}) stmt.Statement {
	return stmt.Exists{Subquery: stmt.NewExpression(x)}
}

func Q_C26_notExists(x interface{}) stmt.Statement { return loukoum.NotExists(x) }
func S_C26_notExists(x interface{}) stmt.Statement {
	return stmt.NotExists{Subquery: stmt.NewExpression(x)}
}

func Q_C26_count(s string, ctx types.Context) { loukoum.Count(s).Write(ctx) }
func S_C26_count(s string, ctx types.Context) { ctx.Write("COUNT(" + s + ")") }

func Q_C26_max(s string, ctx types.Context) { loukoum.Max(s).Write(ctx) }
func S_C26_max(s string, ctx types.Context) { ctx.Write("MAX(" + s + ")") }

func Q_C26_min(s string, ctx types.Context) { loukoum.Min(s).Write(ctx) }
func S_C26_min(s string, ctx types.Context) { ctx.Write("MIN(" + s + ")") }

func Q_C26_sum(s string, ctx types.Context) { loukoum.Sum(s).Write(ctx) }
func S_C26_sum(s string, ctx types.Context) { ctx.Write("SUM(" + s + ")") }

func Q_C26_with(name string, x interface{}) stmt.Statement { return loukoum.With(name, x) }
func S_C26_with(name string, x interface{}) stmt.Statement {
	return stmt.WithQuery{Name: name, Subquery: stmt.NewExpression(x)}
}

func Q_C26_insert(into interface{}) stmt.Statement { return loukoum.Insert(into).Statement() }
func S_C26_insert(into interface{}) stmt.Statement {
	q := insertOf(builder.NewInsert())
	q.Into = builder.ToInto(into)
	return q
}

func Q_C26_delete(from interface{}) stmt.Statement { return loukoum.Delete(from).Statement() }
func S_C26_delete(from interface{}) stmt.Statement {
	return stmt.Delete{From: builder.ToFrom(from)}
}

func Q_C26_update(arg interface{}) stmt.Statement { return loukoum.Update(arg).Statement() }
func S_C26_update(arg interface{}) stmt.Statement {
	return stmt.Update{Table: builder.ToTable(arg), Set: stmt.NewSet()}
}

func Q_C26_doNothing(ctx types.Context) { loukoum.DoNothing().Write(ctx) }
func S_C26_doNothing(ctx types.Context) { ctx.Write("DO NOTHING") }

func Q_C26_doUpdate(args []interface{}) stmt.Statement { return loukoum.DoUpdate(args...) }
func S_C26_doUpdate(args []interface{}) stmt.Statement {
	return stmt.ConflictUpdateAction{Set: builder.ToSet(args)}
}

// C28: the kind of a builder.

func Q_C28_select(b builder.Builder) bool { return builder.IsSelectBuilder(b) }
func S_C28_select(b builder.Builder) bool {
	if _, ok := b.(builder.Select); ok {
		return true
	}
	_, ok := b.(*builder.Select)
	return ok
}

func Q_C28_insert(b builder.Builder) bool { return builder.IsInsertBuilder(b) }
func S_C28_insert(b builder.Builder) bool {
	if _, ok := b.(builder.Insert); ok {
		return true
	}
	_, ok := b.(*builder.Insert)
	return ok
}

func Q_C28_update(b builder.Builder) bool { return builder.IsUpdateBuilder(b) }
func S_C28_update(b builder.Builder) bool {
	if _, ok := b.(builder.Update); ok {
		return true
	}
	_, ok := b.(*builder.Update)
	return ok
}

func Q_C28_delete(b builder.Builder) bool { return builder.IsDeleteBuilder(b) }
func S_C28_delete(b builder.Builder) bool {
	if _, ok := b.(builder.Delete); ok {
		return true
	}
	_, ok := b.(*builder.Delete)
	return ok
}
