package zzverifspec

import (
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// C10: the rendering of expressions.

func Q_C10_infix(c stmt.InfixExpression, ctx types.Context) { c.Write(ctx) }
func S_C10_infix(c stmt.InfixExpression, ctx types.Context) {
	if c.Left == nil || c.Operator == nil || c.Right == nil || c.Left.IsEmpty() || c.Operator.IsEmpty() || c.Right.IsEmpty() {
		panic("")
	}
	ctx.Write("(")
	c.Left.Write(ctx)
	ctx.Write(" ")
	c.Operator.Write(ctx)
	ctx.Write(" ")
	c.Right.Write(ctx)
	ctx.Write(")")
}

func Q_C10_between(c stmt.Between, ctx types.Context) { c.Write(ctx) }
func S_C10_between(c stmt.Between, ctx types.Context) {
	if c.Identifier.IsEmpty() || c.Operator.Operator == "" || c.And.Operator == "" ||
		c.From == nil || c.To == nil || c.From.IsEmpty() || c.To.IsEmpty() {
		panic("")
	}
	ctx.Write("(")
	c.Identifier.Write(ctx)
	ctx.Write(" " + string(c.Operator.Operator) + " ")
	c.From.Write(ctx)
	ctx.Write(" " + string(c.And.Operator) + " ")
	c.To.Write(ctx)
	ctx.Write(")")
}

func Q_C10_in(c stmt.In, ctx types.Context) { c.Write(ctx) }
func S_C10_in(c stmt.In, ctx types.Context) {
	if c.Expression.IsEmpty() || c.Operator.Operator == "" || c.Value == nil {
		panic("")
	}
	ctx.Write("(")
	c.Expression.Write(ctx)
	ctx.Write(" " + string(c.Operator.Operator) + " (")
	if !c.Value.IsEmpty() {
		c.Value.Write(ctx)
	}
	ctx.Write("))")
}

func Q_C10_value(c stmt.Value, ctx types.Context) { c.Write(ctx) }
func S_C10_value(c stmt.Value, ctx types.Context) {
	if c.Value == nil {
		ctx.Write("NULL")
		return
	}
	ctx.Bind(c.Value)
}

func Q_C10_raw(c stmt.Raw, ctx types.Context) { c.Write(ctx) }
func S_C10_raw(c stmt.Raw, ctx types.Context) { ctx.Write(c.Value) }

func Q_C10_identifier(c stmt.Identifier, ctx types.Context) { c.Write(ctx) }
func S_C10_identifier(c stmt.Identifier, ctx types.Context) {
	switch name := c.Identifier.(type) {
	case string:
		ctx.Write(quoted(name))
	case stmt.Raw:
		ctx.Write(name.Value)
	default:
		panic("")
	}
}

func Q_C10_array(c stmt.Array, ctx types.Context) { c.Write(ctx) }
func S_C10_array(c stmt.Array, ctx types.Context) { expressions(ctx, c.Values) }

func Q_C10_arrayList(c stmt.ArrayList, ctx types.Context) { c.Write(ctx) }
func S_C10_arrayList(c stmt.ArrayList, ctx types.Context) {
	for i := range c.Values {
		if i > 0 {
			ctx.Write(", ")
		}
		ctx.Write("(")
		c.Values[i].Write(ctx)
		ctx.Write(")")
	}
}

func Q_C10_wrapper(c stmt.Wrapper, ctx types.Context) { c.Write(ctx) }
func S_C10_wrapper(c stmt.Wrapper, ctx types.Context) {
	ctx.Write("(")
	c.Value.Write(ctx)
	ctx.Write(")")
}

func Q_C10_call(function string, args []stmt.Expression, ctx types.Context) {
	stmt.NewCall(function, args...).Write(ctx)
}
func S_C10_call(function string, args []stmt.Expression, ctx types.Context) {
	ctx.Write(function)
	ctx.Write("(")
	if len(args) == 1 {
		if query, ok := args[0].(stmt.Select); ok {
			uncommented(query).Write(ctx)
		} else {
			args[0].Write(ctx)
		}
	} else {
		expressions(ctx, row(args))
	}
	ctx.Write(")")
}

func Q_C10_exists(c stmt.Exists, ctx types.Context) { c.Write(ctx) }
func S_C10_exists(c stmt.Exists, ctx types.Context) {
	ctx.Write("EXISTS (")
	c.Subquery.Write(ctx)
	ctx.Write(")")
}

func Q_C10_notExists(c stmt.NotExists, ctx types.Context) { c.Write(ctx) }
func S_C10_notExists(c stmt.NotExists, ctx types.Context) {
	ctx.Write("NOT EXISTS (")
	c.Subquery.Write(ctx)
	ctx.Write(")")
}

func Q_C10_logical(c stmt.LogicalOperator, ctx types.Context) { c.Write(ctx) }
func S_C10_logical(c stmt.LogicalOperator, ctx types.Context) { ctx.Write(string(c.Operator)) }

func Q_C10_comparison(c stmt.ComparisonOperator, ctx types.Context) { c.Write(ctx) }
func S_C10_comparison(c stmt.ComparisonOperator, ctx types.Context) { ctx.Write(string(c.Operator)) }

// What counts as undefined.

func Q_C10_infixIsEmpty(c stmt.InfixExpression) bool { return c.IsEmpty() }
func S_C10_infixIsEmpty(c stmt.InfixExpression) bool {
	return c.Left == nil || c.Operator == nil || c.Right == nil || c.Left.IsEmpty() || c.Operator.IsEmpty() || c.Right.IsEmpty()
}

func Q_C10_betweenIsEmpty(c stmt.Between) bool { return c.IsEmpty() }
func S_C10_betweenIsEmpty(c stmt.Between) bool {
	return c.Identifier.IsEmpty() || c.Operator.Operator == "" || c.And.Operator == "" ||
		c.From == nil || c.To == nil || c.From.IsEmpty() || c.To.IsEmpty()
}

func Q_C10_identifierIsEmpty(c stmt.Identifier) bool { return c.IsEmpty() }
func S_C10_identifierIsEmpty(c stmt.Identifier) bool {
	if name, ok := c.Identifier.(string); ok {
		return name == ""
	}
	if raw, ok := c.Identifier.(stmt.Raw); ok {
		return raw.Value == ""
	}
	return false
}

func Q_C10_inIsEmpty(c stmt.In) bool { return c.IsEmpty() }
func S_C10_inIsEmpty(c stmt.In) bool {
	return c.Expression.IsEmpty() || c.Operator.Operator == "" || c.Value == nil
}

func Q_C10_valueIsEmpty(c stmt.Value) bool { return c.IsEmpty() }
func S_C10_valueIsEmpty(c stmt.Value) bool { return false }

func Q_C10_callIsEmpty(c stmt.Call) bool { return c.IsEmpty() }
func S_C10_callIsEmpty(c stmt.Call) bool { return false }

func Q_C10_existsIsEmpty(c stmt.Exists) bool { return c.IsEmpty() }
func S_C10_existsIsEmpty(c stmt.Exists) bool { return false }

func Q_C10_notExistsIsEmpty(c stmt.NotExists) bool { return c.IsEmpty() }
func S_C10_notExistsIsEmpty(c stmt.NotExists) bool { return false }

func Q_C10_countIsEmpty(c stmt.Count) bool { return c.IsEmpty() }
func S_C10_countIsEmpty(c stmt.Count) bool { return c.Value.Value == "" }

func Q_C10_maxIsEmpty(c stmt.Max) bool { return c.IsEmpty() }
func S_C10_maxIsEmpty(c stmt.Max) bool { return c.Value.Value == "" }

func Q_C10_minIsEmpty(c stmt.Min) bool { return c.IsEmpty() }
func S_C10_minIsEmpty(c stmt.Min) bool { return c.Value.Value == "" }

func Q_C10_sumIsEmpty(c stmt.Sum) bool { return c.IsEmpty() }
func S_C10_sumIsEmpty(c stmt.Sum) bool { return c.Value.Value == "" }

func Q_C10_noActionIsEmpty(c stmt.ConflictNoAction) bool { return c.IsEmpty() }
func S_C10_noActionIsEmpty(c stmt.ConflictNoAction) bool { return false }

func Q_C10_rawIsEmpty(c stmt.Raw) bool { return c.IsEmpty() }
func S_C10_rawIsEmpty(c stmt.Raw) bool { return c.Value == "" }

func Q_C10_arrayIsEmpty(c stmt.Array) bool { return c.IsEmpty() }
func S_C10_arrayIsEmpty(c stmt.Array) bool { return len(c.Values) == 0 }

func Q_C10_arrayListIsEmpty(c stmt.ArrayList) bool { return c.IsEmpty() }
func S_C10_arrayListIsEmpty(c stmt.ArrayList) bool { return len(c.Values) == 0 }

func Q_C10_wrapperIsEmpty(c stmt.Wrapper) bool { return c.IsEmpty() }
func S_C10_wrapperIsEmpty(c stmt.Wrapper) bool { return c.Value.IsEmpty() }
