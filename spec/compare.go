package zzverifspec

import (
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// C11: every comparison method renders its receiver, its own operator and its
// argument, in this order.

// operand is an expression in the position of an operand: a subquery is
// enclosed in parentheses, and its comment is dropped.
func operand(e stmt.Expression) stmt.Expression {
	switch value := e.(type) {
	case stmt.Select:
		value.Comment = stmt.Comment{}
		return stmt.Wrapper{Value: value}
	case stmt.Exists:
		return stmt.Wrapper{Value: value}
	case stmt.NotExists:
		return stmt.Wrapper{Value: value}
	}
	return e
}

// compare renders a comparison.
func compare(ctx types.Context, left stmt.Expression, operator string, right stmt.Expression) {
	left, right = operand(left), operand(right)
	if left.IsEmpty() || right.IsEmpty() {
		panic("")
	}
	ctx.Write("(")
	left.Write(ctx)
	ctx.Write(" " + operator + " ")
	right.Write(ctx)
	ctx.Write(")")
}

func Q_C11_identifierContains(x stmt.Identifier, value interface{}, ctx types.Context) {
	x.Contains(value).Write(ctx)
}
func S_C11_identifierContains(x stmt.Identifier, value interface{}, ctx types.Context) {
	compare(ctx, x, "@>", stmt.NewExpression(value))
}

func Q_C11_identifierIsContainedBy(x stmt.Identifier, value interface{}, ctx types.Context) {
	x.IsContainedBy(value).Write(ctx)
}
func S_C11_identifierIsContainedBy(x stmt.Identifier, value interface{}, ctx types.Context) {
	compare(ctx, x, "<@", stmt.NewExpression(value))
}

func Q_C11_identifierOverlap(x stmt.Identifier, value interface{}, ctx types.Context) {
	x.Overlap(value).Write(ctx)
}
func S_C11_identifierOverlap(x stmt.Identifier, value interface{}, ctx types.Context) {
	compare(ctx, x, "&&", stmt.NewExpression(value))
}

func Q_C11_identifierEqual(x stmt.Identifier, value interface{}, ctx types.Context) {
	x.Equal(value).Write(ctx)
}
func S_C11_identifierEqual(x stmt.Identifier, value interface{}, ctx types.Context) {
	compare(ctx, x, "=", stmt.NewExpression(value))
}

func Q_C11_identifierNotEqual(x stmt.Identifier, value interface{}, ctx types.Context) {
	x.NotEqual(value).Write(ctx)
}
func S_C11_identifierNotEqual(x stmt.Identifier, value interface{}, ctx types.Context) {
	compare(ctx, x, "!=", stmt.NewExpression(value))
}

func Q_C11_identifierIs(x stmt.Identifier, value interface{}, ctx types.Context) {
	x.Is(value).Write(ctx)
}
func S_C11_identifierIs(x stmt.Identifier, value interface{}, ctx types.Context) {
	compare(ctx, x, "IS", stmt.NewExpression(value))
}

func Q_C11_identifierIsNot(x stmt.Identifier, value interface{}, ctx types.Context) {
	x.IsNot(value).Write(ctx)
}
func S_C11_identifierIsNot(x stmt.Identifier, value interface{}, ctx types.Context) {
	compare(ctx, x, "IS NOT", stmt.NewExpression(value))
}

func Q_C11_identifierGreaterThan(x stmt.Identifier, value interface{}, ctx types.Context) {
	x.GreaterThan(value).Write(ctx)
}
func S_C11_identifierGreaterThan(x stmt.Identifier, value interface{}, ctx types.Context) {
	compare(ctx, x, ">", stmt.NewExpression(value))
}

func Q_C11_identifierGreaterThanOrEqual(x stmt.Identifier, value interface{}, ctx types.Context) {
	x.GreaterThanOrEqual(value).Write(ctx)
}
func S_C11_identifierGreaterThanOrEqual(x stmt.Identifier, value interface{}, ctx types.Context) {
	compare(ctx, x, ">=", stmt.NewExpression(value))
}

func Q_C11_identifierLessThan(x stmt.Identifier, value interface{}, ctx types.Context) {
	x.LessThan(value).Write(ctx)
}
func S_C11_identifierLessThan(x stmt.Identifier, value interface{}, ctx types.Context) {
	compare(ctx, x, "<", stmt.NewExpression(value))
}

func Q_C11_identifierLessThanOrEqual(x stmt.Identifier, value interface{}, ctx types.Context) {
	x.LessThanOrEqual(value).Write(ctx)
}
func S_C11_identifierLessThanOrEqual(x stmt.Identifier, value interface{}, ctx types.Context) {
	compare(ctx, x, "<=", stmt.NewExpression(value))
}

func Q_C11_identifierLike(x stmt.Identifier, value interface{}, ctx types.Context) {
	x.Like(value).Write(ctx)
}
func S_C11_identifierLike(x stmt.Identifier, value interface{}, ctx types.Context) {
	compare(ctx, x, "LIKE", stmt.NewExpression(value))
}

func Q_C11_identifierNotLike(x stmt.Identifier, value interface{}, ctx types.Context) {
	x.NotLike(value).Write(ctx)
}
func S_C11_identifierNotLike(x stmt.Identifier, value interface{}, ctx types.Context) {
	compare(ctx, x, "NOT LIKE", stmt.NewExpression(value))
}

func Q_C11_identifierILike(x stmt.Identifier, value interface{}, ctx types.Context) {
	x.ILike(value).Write(ctx)
}
func S_C11_identifierILike(x stmt.Identifier, value interface{}, ctx types.Context) {
	compare(ctx, x, "ILIKE", stmt.NewExpression(value))
}

func Q_C11_identifierNotILike(x stmt.Identifier, value interface{}, ctx types.Context) {
	x.NotILike(value).Write(ctx)
}
func S_C11_identifierNotILike(x stmt.Identifier, value interface{}, ctx types.Context) {
	compare(ctx, x, "NOT ILIKE", stmt.NewExpression(value))
}

func Q_C11_identifierIsDistinctFrom(x stmt.Identifier, value interface{}, ctx types.Context) {
	x.IsDistinctFrom(value).Write(ctx)
}
func S_C11_identifierIsDistinctFrom(x stmt.Identifier, value interface{}, ctx types.Context) {
	compare(ctx, x, "IS DISTINCT FROM", stmt.NewExpression(value))
}

func Q_C11_identifierIsNotDistinctFrom(x stmt.Identifier, value interface{}, ctx types.Context) {
	x.IsNotDistinctFrom(value).Write(ctx)
}
func S_C11_identifierIsNotDistinctFrom(x stmt.Identifier, value interface{}, ctx types.Context) {
	compare(ctx, x, "IS NOT DISTINCT FROM", stmt.NewExpression(value))
}

func Q_C11_valueOverlap(x stmt.Value, value interface{}, ctx types.Context) {
	x.Overlap(value).Write(ctx)
}
func S_C11_valueOverlap(x stmt.Value, value interface{}, ctx types.Context) {
	compare(ctx, x, "&&", stmt.NewExpression(value))
}

func Q_C11_valueEqual(x stmt.Value, value interface{}, ctx types.Context) { x.Equal(value).Write(ctx) }
func S_C11_valueEqual(x stmt.Value, value interface{}, ctx types.Context) {
	compare(ctx, x, "=", stmt.NewExpression(value))
}

func Q_C11_valueNotEqual(x stmt.Value, value interface{}, ctx types.Context) {
	x.NotEqual(value).Write(ctx)
}
func S_C11_valueNotEqual(x stmt.Value, value interface{}, ctx types.Context) {
	compare(ctx, x, "!=", stmt.NewExpression(value))
}

func Q_C11_valueContains(x stmt.Value, value interface{}, ctx types.Context) {
	x.Contains(value).Write(ctx)
}
func S_C11_valueContains(x stmt.Value, value interface{}, ctx types.Context) {
	compare(ctx, x, "@>", stmt.NewExpression(value))
}

func Q_C11_valueIsContainedBy(x stmt.Value, value interface{}, ctx types.Context) {
	x.IsContainedBy(value).Write(ctx)
}
func S_C11_valueIsContainedBy(x stmt.Value, value interface{}, ctx types.Context) {
	compare(ctx, x, "<@", stmt.NewExpression(value))
}

func Q_C11_callEqual(x stmt.Call, value interface{}, ctx types.Context) { x.Equal(value).Write(ctx) }
func S_C11_callEqual(x stmt.Call, value interface{}, ctx types.Context) {
	compare(ctx, x, "=", stmt.NewExpression(value))
}

func Q_C11_callGreaterThan(x stmt.Call, value interface{}, ctx types.Context) {
	x.GreaterThan(value).Write(ctx)
}
func S_C11_callGreaterThan(x stmt.Call, value interface{}, ctx types.Context) {
	compare(ctx, x, ">", stmt.NewExpression(value))
}

func Q_C11_callLessThan(x stmt.Call, value interface{}, ctx types.Context) {
	x.LessThan(value).Write(ctx)
}
func S_C11_callLessThan(x stmt.Call, value interface{}, ctx types.Context) {
	compare(ctx, x, "<", stmt.NewExpression(value))
}

func Q_C11_callLike(x stmt.Call, value interface{}, ctx types.Context) { x.Like(value).Write(ctx) }
func S_C11_callLike(x stmt.Call, value interface{}, ctx types.Context) {
	compare(ctx, x, "LIKE", stmt.NewExpression(value))
}

func Q_C11_callILike(x stmt.Call, value interface{}, ctx types.Context) { x.ILike(value).Write(ctx) }
func S_C11_callILike(x stmt.Call, value interface{}, ctx types.Context) {
	compare(ctx, x, "ILIKE", stmt.NewExpression(value))
}

func Q_C11_callOverlap(x stmt.Call, value interface{}, ctx types.Context) {
	x.Overlap(value).Write(ctx)
}
func S_C11_callOverlap(x stmt.Call, value interface{}, ctx types.Context) {
	compare(ctx, x, "&&", stmt.NewExpression(value))
}

func Q_C11_isNull(x stmt.Identifier, value bool, ctx types.Context) { x.IsNull(value).Write(ctx) }
func S_C11_isNull(x stmt.Identifier, value bool, ctx types.Context) {
	if x.IsEmpty() {
		panic("")
	}
	ctx.Write("(")
	x.Write(ctx)
	if value {
		ctx.Write(" IS NULL)")
	} else {
		ctx.Write(" IS NOT NULL)")
	}
}

func between(ctx types.Context, x stmt.Identifier, operator string, from, to stmt.Expression) {
	from, to = operand(from), operand(to)
	if x.IsEmpty() || from.IsEmpty() || to.IsEmpty() {
		panic("")
	}
	ctx.Write("(")
	x.Write(ctx)
	ctx.Write(" " + operator + " ")
	from.Write(ctx)
	ctx.Write(" AND ")
	to.Write(ctx)
	ctx.Write(")")
}

func Q_C11_between(x stmt.Identifier, from, to stmt.Expression, ctx types.Context) {
	x.Between(from, to).Write(ctx)
}
func S_C11_between(x stmt.Identifier, from, to stmt.Expression, ctx types.Context) {
	between(ctx, x, "BETWEEN", stmt.NewExpression(from), stmt.NewExpression(to))
}

func Q_C11_notBetween(x stmt.Identifier, from, to stmt.Expression, ctx types.Context) {
	x.NotBetween(from, to).Write(ctx)
}
func S_C11_notBetween(x stmt.Identifier, from, to stmt.Expression, ctx types.Context) {
	between(ctx, x, "NOT BETWEEN", stmt.NewExpression(from), stmt.NewExpression(to))
}

func in(ctx types.Context, x stmt.Expression, operator string, list stmt.Expression) {
	x = operand(x)
	if x.IsEmpty() {
		panic("")
	}
	ctx.Write("(")
	x.Write(ctx)
	ctx.Write(" " + operator + " (")
	if !list.IsEmpty() {
		list.Write(ctx)
	}
	ctx.Write("))")
}

func Q_C11_in(x stmt.Identifier, list []interface{}, ctx types.Context) { x.In(list...).Write(ctx) }
func S_C11_in(x stmt.Identifier, list []interface{}, ctx types.Context) {
	in(ctx, x, "IN", stmt.NewArrayExpression(list...))
}

func Q_C11_notIn(x stmt.Identifier, list []interface{}, ctx types.Context) {
	x.NotIn(list...).Write(ctx)
}
func S_C11_notIn(x stmt.Identifier, list []interface{}, ctx types.Context) {
	in(ctx, x, "NOT IN", stmt.NewArrayExpression(list...))
}

func Q_C11_callIn(x stmt.Call, list []interface{}, ctx types.Context) { x.In(list...).Write(ctx) }
func S_C11_callIn(x stmt.Call, list []interface{}, ctx types.Context) {
	in(ctx, x, "IN", stmt.NewArrayExpression(list...))
}

func Q_C11_infixExpressionAnd(x stmt.InfixExpression, right stmt.Expression, ctx types.Context) {
	x.And(right).Write(ctx)
}
func S_C11_infixExpressionAnd(x stmt.InfixExpression, right stmt.Expression, ctx types.Context) {
	if right == nil {
		panic("")
	}
	compare(ctx, x, "AND", right)
}

func Q_C11_infixExpressionOr(x stmt.InfixExpression, right stmt.Expression, ctx types.Context) {
	x.Or(right).Write(ctx)
}
func S_C11_infixExpressionOr(x stmt.InfixExpression, right stmt.Expression, ctx types.Context) {
	if right == nil {
		panic("")
	}
	compare(ctx, x, "OR", right)
}

func Q_C11_inAnd(x stmt.In, right stmt.Expression, ctx types.Context) {
	x.And(right).Write(ctx)
}
func S_C11_inAnd(x stmt.In, right stmt.Expression, ctx types.Context) {
	if right == nil {
		panic("")
	}
	compare(ctx, x, "AND", right)
}

func Q_C11_inOr(x stmt.In, right stmt.Expression, ctx types.Context) {
	x.Or(right).Write(ctx)
}
func S_C11_inOr(x stmt.In, right stmt.Expression, ctx types.Context) {
	if right == nil {
		panic("")
	}
	compare(ctx, x, "OR", right)
}

func Q_C11_onClauseAnd(x stmt.OnClause, right stmt.OnExpression, ctx types.Context) {
	x.And(right).Write(ctx)
}
func S_C11_onClauseAnd(x stmt.OnClause, right stmt.OnExpression, ctx types.Context) {
	if right == nil || x.IsEmpty() || right.IsEmpty() {
		panic("")
	}
	ctx.Write("(")
	x.Write(ctx)
	ctx.Write(" AND ")
	right.Write(ctx)
	ctx.Write(")")
}

func Q_C11_onClauseOr(x stmt.OnClause, right stmt.OnExpression, ctx types.Context) {
	x.Or(right).Write(ctx)
}
func S_C11_onClauseOr(x stmt.OnClause, right stmt.OnExpression, ctx types.Context) {
	if right == nil || x.IsEmpty() || right.IsEmpty() {
		panic("")
	}
	ctx.Write("(")
	x.Write(ctx)
	ctx.Write(" OR ")
	right.Write(ctx)
	ctx.Write(")")
}

func Q_C11_infixOnExpressionAnd(x stmt.InfixOnExpression, right stmt.OnExpression, ctx types.Context) {
	x.And(right).Write(ctx)
}
func S_C11_infixOnExpressionAnd(x stmt.InfixOnExpression, right stmt.OnExpression, ctx types.Context) {
	if right == nil || x.IsEmpty() || right.IsEmpty() {
		panic("")
	}
	ctx.Write("(")
	x.Write(ctx)
	ctx.Write(" AND ")
	right.Write(ctx)
	ctx.Write(")")
}

func Q_C11_infixOnExpressionOr(x stmt.InfixOnExpression, right stmt.OnExpression, ctx types.Context) {
	x.Or(right).Write(ctx)
}
func S_C11_infixOnExpressionOr(x stmt.InfixOnExpression, right stmt.OnExpression, ctx types.Context) {
	if right == nil || x.IsEmpty() || right.IsEmpty() {
		panic("")
	}
	ctx.Write("(")
	x.Write(ctx)
	ctx.Write(" OR ")
	right.Write(ctx)
	ctx.Write(")")
}
