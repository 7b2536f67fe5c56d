package zzverifspec

import (
	"strconv"

	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// C08: the clauses of SELECT, in order, each once, each only when it is defined.

func Q_C08_select(s stmt.Select, ctx types.Context) { s.Write(ctx) }
func S_C08_select(s stmt.Select, ctx types.Context) {
	if len(s.Expressions) == 0 {
		panic("")
	}
	if s.Prefix.Prefix != "" {
		s.Prefix.Write(ctx)
		ctx.Write(" ")
	}
	if len(s.With.Queries) > 0 {
		s.With.Write(ctx)
		ctx.Write(" ")
	}
	ctx.Write("SELECT")
	if len(s.DistinctOn.Columns) > 0 {
		ctx.Write(" ")
		s.DistinctOn.Write(ctx)
	}
	if s.Distinct {
		ctx.Write(" DISTINCT")
	}
	for i := range s.Expressions {
		if i == 0 {
			ctx.Write(" ")
		} else {
			ctx.Write(", ")
		}
		s.Expressions[i].Write(ctx)
	}
	if len(s.From.Tables) > 0 {
		ctx.Write(" ")
		s.From.Write(ctx)
	}
	for i := range s.Joins {
		ctx.Write(" ")
		s.Joins[i].Write(ctx)
	}
	if s.Where.Condition != nil && !s.Where.Condition.IsEmpty() {
		ctx.Write(" ")
		s.Where.Write(ctx)
	}
	if len(s.GroupBy.Columns) > 0 {
		ctx.Write(" ")
		s.GroupBy.Write(ctx)
	}
	if s.Having.Condition != nil && !s.Having.Condition.IsEmpty() {
		ctx.Write(" ")
		s.Having.Write(ctx)
	}
	if len(s.OrderBy.Orders) > 0 {
		ctx.Write(" ")
		s.OrderBy.Write(ctx)
	}
	if s.Limit.Count != 0 {
		ctx.Write(" ")
		s.Limit.Write(ctx)
	}
	if s.Offset.Start != 0 {
		ctx.Write(" ")
		s.Offset.Write(ctx)
	}
	if s.Suffix.Suffix != "" {
		ctx.Write(" ")
		s.Suffix.Write(ctx)
	}
	if s.Comment.Comment != "" {
		ctx.Write("; ")
		s.Comment.Write(ctx)
	}
}

func Q_C08_prefix(c stmt.Prefix, ctx types.Context) { c.Write(ctx) }
func S_C08_prefix(c stmt.Prefix, ctx types.Context) { ctx.Write(c.Prefix) }

func Q_C08_suffix(c stmt.Suffix, ctx types.Context) { c.Write(ctx) }
func S_C08_suffix(c stmt.Suffix, ctx types.Context) { ctx.Write(c.Suffix) }

func Q_C08_with(c stmt.With, ctx types.Context) { c.Write(ctx) }
func S_C08_with(c stmt.With, ctx types.Context) {
	if len(c.Queries) == 0 {
		return
	}
	ctx.Write("WITH ")
	for i := range c.Queries {
		if i > 0 {
			ctx.Write(", ")
		}
		c.Queries[i].Write(ctx)
	}
}

func Q_C08_withQuery(c stmt.WithQuery, ctx types.Context) { c.Write(ctx) }
func S_C08_withQuery(c stmt.WithQuery, ctx types.Context) {
	if c.Name == "" || c.Subquery == nil || c.Subquery.IsEmpty() {
		return
	}
	ctx.Write(c.Name)
	ctx.Write(" AS (")
	c.Subquery.Write(ctx)
	ctx.Write(")")
}

func Q_C08_distinctOn(c stmt.DistinctOn, ctx types.Context) { c.Write(ctx) }
func S_C08_distinctOn(c stmt.DistinctOn, ctx types.Context) {
	if len(c.Columns) == 0 {
		return
	}
	ctx.Write("DISTINCT ON (")
	for i := range c.Columns {
		if i > 0 {
			ctx.Write(", ")
		}
		c.Columns[i].Write(ctx)
	}
	ctx.Write(")")
}

func Q_C08_from(c stmt.From, ctx types.Context) { c.Write(ctx) }
func S_C08_from(c stmt.From, ctx types.Context) {
	ctx.Write("FROM ")
	for i := range c.Tables {
		if i > 0 {
			ctx.Write(", ")
		}
		c.Tables[i].Write(ctx)
	}
}

func Q_C08_join(c stmt.Join, ctx types.Context) { c.Write(ctx) }
func S_C08_join(c stmt.Join, ctx types.Context) {
	ctx.Write(string(c.Type))
	ctx.Write(" ")
	c.Table.Write(ctx)
	ctx.Write(" ON ")
	c.Condition.Write(ctx)
}

func Q_C08_onClause(c stmt.OnClause, ctx types.Context) { c.Write(ctx) }
func S_C08_onClause(c stmt.OnClause, ctx types.Context) {
	c.Left.Write(ctx)
	ctx.Write(" = ")
	c.Right.Write(ctx)
}

func Q_C08_infixOn(c stmt.InfixOnExpression, ctx types.Context) { c.Write(ctx) }
func S_C08_infixOn(c stmt.InfixOnExpression, ctx types.Context) {
	if c.Left == nil || c.Right == nil || c.Left.IsEmpty() || c.Operator.Operator == "" || c.Right.IsEmpty() {
		panic("")
	}
	ctx.Write("(")
	c.Left.Write(ctx)
	ctx.Write(" " + string(c.Operator.Operator) + " ")
	c.Right.Write(ctx)
	ctx.Write(")")
}

func Q_C08_where(c stmt.Where, ctx types.Context) { c.Write(ctx) }
func S_C08_where(c stmt.Where, ctx types.Context) {
	if c.Condition == nil || c.Condition.IsEmpty() {
		panic("")
	}
	ctx.Write("WHERE ")
	c.Condition.Write(ctx)
}

func Q_C08_having(c stmt.Having, ctx types.Context) { c.Write(ctx) }
func S_C08_having(c stmt.Having, ctx types.Context) {
	if c.Condition == nil || c.Condition.IsEmpty() {
		panic("")
	}
	ctx.Write("HAVING ")
	c.Condition.Write(ctx)
}

func Q_C08_groupBy(c stmt.GroupBy, ctx types.Context) { c.Write(ctx) }
func S_C08_groupBy(c stmt.GroupBy, ctx types.Context) {
	ctx.Write("GROUP BY ")
	for i := range c.Columns {
		if i > 0 {
			ctx.Write(", ")
		}
		c.Columns[i].Write(ctx)
	}
}

func Q_C08_orderBy(c stmt.OrderBy, ctx types.Context) { c.Write(ctx) }
func S_C08_orderBy(c stmt.OrderBy, ctx types.Context) {
	if len(c.Orders) == 0 {
		return
	}
	ctx.Write("ORDER BY ")
	for i := range c.Orders {
		if i > 0 {
			ctx.Write(", ")
		}
		c.Orders[i].Write(ctx)
	}
}

func Q_C08_order(c stmt.Order, ctx types.Context) { c.Write(ctx) }
func S_C08_order(c stmt.Order, ctx types.Context) {
	if c.Expression != "" {
		ctx.Write(c.Expression + " " + string(c.Type))
	}
}

func Q_C08_limit(c stmt.Limit, ctx types.Context) { c.Write(ctx) }
func S_C08_limit(c stmt.Limit, ctx types.Context) {
	if c.Count != 0 {
		ctx.Write("LIMIT " + strconv.FormatInt(c.Count, 10))
	}
}

func Q_C08_offset(c stmt.Offset, ctx types.Context) { c.Write(ctx) }
func S_C08_offset(c stmt.Offset, ctx types.Context) {
	if c.Start != 0 {
		ctx.Write("OFFSET " + strconv.FormatInt(c.Start, 10))
	}
}

func Q_C08_count(c stmt.Count, ctx types.Context) { c.Write(ctx) }
func S_C08_count(c stmt.Count, ctx types.Context) {
	ctx.Write("COUNT(")
	if c.IsDistinct {
		ctx.Write("DISTINCT ")
	}
	ctx.Write(c.Value.Value)
	ctx.Write(")")
	if c.Alias != "" {
		ctx.Write(" AS " + c.Alias)
	}
}

func aggregate(ctx types.Context, name string, value stmt.Raw, alias string) {
	ctx.Write(name + "(" + value.Value + ")")
	if alias != "" {
		ctx.Write(" AS " + alias)
	}
}

func Q_C08_max(c stmt.Max, ctx types.Context) { c.Write(ctx) }
func S_C08_max(c stmt.Max, ctx types.Context) { aggregate(ctx, "MAX", c.Value, c.Alias) }

func Q_C08_min(c stmt.Min, ctx types.Context) { c.Write(ctx) }
func S_C08_min(c stmt.Min, ctx types.Context) { aggregate(ctx, "MIN", c.Value, c.Alias) }

func Q_C08_sum(c stmt.Sum, ctx types.Context) { c.Write(ctx) }
func S_C08_sum(c stmt.Sum, ctx types.Context) { aggregate(ctx, "SUM", c.Value, c.Alias) }
