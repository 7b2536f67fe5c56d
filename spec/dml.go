package zzverifspec

import (
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// C09: the clauses of INSERT, UPDATE and DELETE.

func columns(ctx types.Context, list []stmt.Column) {
	for i := range list {
		if i > 0 {
			ctx.Write(", ")
		}
		list[i].Write(ctx)
	}
}

func expressions(ctx types.Context, list []stmt.Expression) {
	for i := range list {
		if i > 0 {
			ctx.Write(", ")
		}
		list[i].Write(ctx)
	}
}

func isConflict(c stmt.OnConflict) bool {
	return c.Action != nil && !c.Action.IsEmpty()
}

func isCondition(e stmt.Expression) bool {
	return e != nil && !e.IsEmpty()
}

func Q_C09_insert(s stmt.Insert, ctx types.Context) { s.Write(ctx) }
func S_C09_insert(s stmt.Insert, ctx types.Context) {
	if s.Into.Table.Name == "" {
		panic("")
	}
	ctx.Write("INSERT ")
	s.Into.Write(ctx)
	if len(s.Columns) > 0 {
		ctx.Write(" (")
		columns(ctx, s.Columns)
		ctx.Write(")")
	}
	if isCondition(s.Values.Values) {
		ctx.Write(" ")
		s.Values.Write(ctx)
	}
	if isConflict(s.OnConflict) {
		ctx.Write(" ")
		s.OnConflict.Write(ctx)
	}
	if len(s.Returning.Columns) > 0 {
		ctx.Write(" ")
		s.Returning.Write(ctx)
	}
	if s.Comment.Comment != "" {
		ctx.Write("; ")
		s.Comment.Write(ctx)
	}
}

func Q_C09_into(c stmt.Into, ctx types.Context) { c.Write(ctx) }
func S_C09_into(c stmt.Into, ctx types.Context) {
	ctx.Write("INTO ")
	c.Table.Write(ctx)
}

func table(ctx types.Context, name, alias string) {
	ctx.Write(quoted(name))
	if alias != "" {
		ctx.Write(" AS ")
		ctx.Write(quoted(alias))
	}
}

func Q_C09_table(name, alias string, ctx types.Context) { stmt.NewTableAlias(name, alias).Write(ctx) }
func S_C09_table(name, alias string, ctx types.Context) { table(ctx, name, alias) }

func Q_C09_tableName(name string, ctx types.Context) { stmt.NewTable(name).Write(ctx) }
func S_C09_tableName(name string, ctx types.Context) { table(ctx, name, "") }

func Q_C09_tableAs(name, alias string, ctx types.Context) { stmt.NewTable(name).As(alias).Write(ctx) }
func S_C09_tableAs(name, alias string, ctx types.Context) { table(ctx, name, alias) }

func Q_C09_tableOnly(t stmt.Table, ctx types.Context) { t.Only().Write(ctx) }
func S_C09_tableOnly(t stmt.Table, ctx types.Context) {
	ctx.Write("ONLY ")
	table(ctx, t.Name, t.Alias)
}

func Q_C09_values(c stmt.Values, ctx types.Context) { c.Write(ctx) }
func S_C09_values(c stmt.Values, ctx types.Context) {
	if isCondition(c.Values) {
		ctx.Write("VALUES ")
		c.Values.Write(ctx)
	}
}

func Q_C09_returning(c stmt.Returning, ctx types.Context) { c.Write(ctx) }
func S_C09_returning(c stmt.Returning, ctx types.Context) {
	ctx.Write("RETURNING ")
	for i := range c.Columns {
		if i > 0 {
			ctx.Write(", ")
		}
		c.Columns[i].Write(ctx)
	}
}

func Q_C09_onConflict(c stmt.OnConflict, ctx types.Context) { c.Write(ctx) }
func S_C09_onConflict(c stmt.OnConflict, ctx types.Context) {
	if !isConflict(c) {
		return
	}
	ctx.Write("ON CONFLICT ")
	if len(c.Target.Columns) > 0 {
		c.Target.Write(ctx)
		ctx.Write(" ")
	}
	c.Action.Write(ctx)
}

func Q_C09_conflictTarget(c stmt.ConflictTarget, ctx types.Context) { c.Write(ctx) }
func S_C09_conflictTarget(c stmt.ConflictTarget, ctx types.Context) {
	if len(c.Columns) > 0 {
		ctx.Write("(")
		columns(ctx, c.Columns)
		ctx.Write(")")
	}
}

func Q_C09_doNothing(c stmt.ConflictNoAction, ctx types.Context) { c.Write(ctx) }
func S_C09_doNothing(c stmt.ConflictNoAction, ctx types.Context) { ctx.Write("DO NOTHING") }

func Q_C09_doUpdate(c stmt.ConflictUpdateAction, ctx types.Context) { c.Write(ctx) }
func S_C09_doUpdate(c stmt.ConflictUpdateAction, ctx types.Context) {
	ctx.Write("DO UPDATE ")
	c.Set.Write(ctx)
}

func Q_C09_update(s stmt.Update, ctx types.Context) { s.Write(ctx) }
func S_C09_update(s stmt.Update, ctx types.Context) {
	if s.Table.Name == "" || s.Set.Pairs.IsEmpty() {
		panic("")
	}
	if len(s.With.Queries) > 0 {
		s.With.Write(ctx)
		ctx.Write(" ")
	}
	ctx.Write("UPDATE ")
	if s.Only {
		s.Table.Only().Write(ctx)
	} else {
		s.Table.Write(ctx)
	}
	ctx.Write(" ")
	s.Set.Write(ctx)
	if len(s.From.Tables) > 0 {
		ctx.Write(" ")
		s.From.Write(ctx)
	}
	if isCondition(s.Where.Condition) {
		ctx.Write(" ")
		s.Where.Write(ctx)
	}
	if len(s.Returning.Columns) > 0 {
		ctx.Write(" ")
		s.Returning.Write(ctx)
	}
	if s.Comment.Comment != "" {
		ctx.Write("; ")
		s.Comment.Write(ctx)
	}
}

func Q_C09_set(c stmt.Set, ctx types.Context) { c.Write(ctx) }
func S_C09_set(c stmt.Set, ctx types.Context) {
	ctx.Write("SET ")
	c.Pairs.Write(ctx)
}

// An associative container renders its pairs, a list container two lists.
func Q_C09_pairsArray(c stmt.PairContainer, ctx types.Context) {
	assume(c.Mode == stmt.PairArrayMode)
	c.Write(ctx)
}
func S_C09_pairsArray(c stmt.PairContainer, ctx types.Context) {
	if len(c.Map) == 0 && len(c.Expressions) == 0 {
		panic("")
	}
	ctx.Write("(")
	columns(ctx, c.Columns)
	ctx.Write(") = (")
	for i, e := range c.Expressions {
		if i > 0 {
			ctx.Write(", ")
		}
		if len(c.Expressions) > 1 {
			e = operand(e)
		}
		e.Write(ctx)
	}
	ctx.Write(")")
}

func Q_C09_delete(s stmt.Delete, ctx types.Context) { s.Write(ctx) }
func S_C09_delete(s stmt.Delete, ctx types.Context) {
	if len(s.From.Tables) == 0 {
		panic("")
	}
	ctx.Write("DELETE ")
	s.From.Write(ctx)
	if len(s.Using.Tables) > 0 {
		ctx.Write(" ")
		s.Using.Write(ctx)
	}
	if isCondition(s.Where.Condition) {
		ctx.Write(" ")
		s.Where.Write(ctx)
	}
	if len(s.Returning.Columns) > 0 {
		ctx.Write(" ")
		s.Returning.Write(ctx)
	}
	if s.Comment.Comment != "" {
		ctx.Write("; ")
		s.Comment.Write(ctx)
	}
}

func Q_C09_using(c stmt.Using, ctx types.Context) { c.Write(ctx) }
func S_C09_using(c stmt.Using, ctx types.Context) {
	if len(c.Tables) == 0 {
		return
	}
	ctx.Write("USING ")
	for i := range c.Tables {
		if i > 0 {
			ctx.Write(", ")
		}
		c.Tables[i].Write(ctx)
	}
}
