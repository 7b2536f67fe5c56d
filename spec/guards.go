package zzverifspec

import (
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
)

// C14: a clause which can only be given once is never overwritten: giving it
// again panics, whatever is given.

func Q_C14_selectFrom(b builder.Select, args []interface{}) stmt.Statement {
	assume(len(selectOf(b).From.Tables) != 0)
	return b.From(args...).Statement()
}
func S_C14_selectFrom(b builder.Select, args []interface{}) stmt.Statement {
	assume(len(selectOf(b).From.Tables) != 0)
	panic("")
}

func Q_C14_selectDistinctOn(b builder.Select, args []interface{}) stmt.Statement {
	assume(len(selectOf(b).DistinctOn.Columns) != 0)
	return b.DistinctOn(args...).Statement()
}
func S_C14_selectDistinctOn(b builder.Select, args []interface{}) stmt.Statement {
	assume(len(selectOf(b).DistinctOn.Columns) != 0)
	panic("")
}

func Q_C14_selectDistinctOnAfterDistinct(b builder.Select, args []interface{}) stmt.Statement {
	assume(selectOf(b).Distinct)
	return b.DistinctOn(args...).Statement()
}
func S_C14_selectDistinctOnAfterDistinct(b builder.Select, args []interface{}) stmt.Statement {
	assume(selectOf(b).Distinct)
	panic("")
}

func Q_C14_selectDistinctAfterDistinctOn(b builder.Select) stmt.Statement {
	assume(len(selectOf(b).DistinctOn.Columns) != 0)
	return b.Distinct().Statement()
}
func S_C14_selectDistinctAfterDistinctOn(b builder.Select) stmt.Statement {
	assume(len(selectOf(b).DistinctOn.Columns) != 0)
	panic("")
}

func Q_C14_selectGroupBy(b builder.Select, args []interface{}) stmt.Statement {
	assume(len(selectOf(b).GroupBy.Columns) != 0)
	return b.GroupBy(args...).Statement()
}
func S_C14_selectGroupBy(b builder.Select, args []interface{}) stmt.Statement {
	assume(len(selectOf(b).GroupBy.Columns) != 0)
	panic("")
}

func Q_C14_selectHaving(b builder.Select, c stmt.Expression) stmt.Statement {
	assume(!undefined(selectOf(b).Having.Condition))
	return b.Having(c).Statement()
}
func S_C14_selectHaving(b builder.Select, c stmt.Expression) stmt.Statement {
	assume(!undefined(selectOf(b).Having.Condition))
	panic("")
}

func Q_C14_selectLimit(b builder.Select, v interface{}) stmt.Statement {
	assume(selectOf(b).Limit.Count != 0)
	return b.Limit(v).Statement()
}
func S_C14_selectLimit(b builder.Select, v interface{}) stmt.Statement {
	assume(selectOf(b).Limit.Count != 0)
	panic("")
}

func Q_C14_selectOffset(b builder.Select, v interface{}) stmt.Statement {
	assume(selectOf(b).Offset.Start != 0)
	return b.Offset(v).Statement()
}
func S_C14_selectOffset(b builder.Select, v interface{}) stmt.Statement {
	assume(selectOf(b).Offset.Start != 0)
	panic("")
}

func Q_C14_selectSuffix(b builder.Select, v interface{}) stmt.Statement {
	assume(selectOf(b).Suffix.Suffix != "")
	return b.Suffix(v).Statement()
}
func S_C14_selectSuffix(b builder.Select, v interface{}) stmt.Statement {
	assume(selectOf(b).Suffix.Suffix != "")
	panic("")
}

func Q_C14_selectPrefix(b builder.Select, v interface{}) stmt.Statement {
	assume(selectOf(b).Prefix.Prefix != "")
	return b.Prefix(v).Statement()
}
func S_C14_selectPrefix(b builder.Select, v interface{}) stmt.Statement {
	assume(selectOf(b).Prefix.Prefix != "")
	panic("")
}

func Q_C14_insertInto(b builder.Insert, v interface{}) stmt.Statement {
	assume(insertOf(b).Into.Table.Name != "")
	return b.Into(v).Statement()
}
func S_C14_insertInto(b builder.Insert, v interface{}) stmt.Statement {
	assume(insertOf(b).Into.Table.Name != "")
	panic("")
}

func Q_C14_insertColumns(b builder.Insert, args []interface{}) stmt.Statement {
	assume(len(insertOf(b).Columns) != 0 && len(args) != 0)
	return b.Columns(args...).Statement()
}
func S_C14_insertColumns(b builder.Insert, args []interface{}) stmt.Statement {
	assume(len(insertOf(b).Columns) != 0 && len(args) != 0)
	panic("")
}

func Q_C14_insertValues(b builder.Insert, args []interface{}) stmt.Statement {
	assume(!noValues(insertOf(b).Values))
	return b.Values(args...).Statement()
}
func S_C14_insertValues(b builder.Insert, args []interface{}) stmt.Statement {
	assume(!noValues(insertOf(b).Values))
	panic("")
}

func Q_C14_insertReturning(b builder.Insert, args []interface{}) stmt.Statement {
	assume(len(insertOf(b).Returning.Columns) != 0)
	return b.Returning(args...).Statement()
}
func S_C14_insertReturning(b builder.Insert, args []interface{}) stmt.Statement {
	assume(len(insertOf(b).Returning.Columns) != 0)
	panic("")
}

func Q_C14_insertOnConflict(b builder.Insert, args []interface{}) stmt.Statement {
	assume(isConflict(insertOf(b).OnConflict))
	return b.OnConflict(args...).Statement()
}
func S_C14_insertOnConflict(b builder.Insert, args []interface{}) stmt.Statement {
	assume(isConflict(insertOf(b).OnConflict))
	panic("")
}

func Q_C14_insertSetAfterColumns(b builder.Insert, args []interface{}) stmt.Statement {
	assume(len(insertOf(b).Columns) != 0)
	return b.Set(args...).Statement()
}
func S_C14_insertSetAfterColumns(b builder.Insert, args []interface{}) stmt.Statement {
	assume(len(insertOf(b).Columns) != 0)
	panic("")
}

func Q_C14_insertSetAfterValues(b builder.Insert, args []interface{}) stmt.Statement {
	assume(!noValues(insertOf(b).Values))
	return b.Set(args...).Statement()
}
func S_C14_insertSetAfterValues(b builder.Insert, args []interface{}) stmt.Statement {
	assume(!noValues(insertOf(b).Values))
	panic("")
}

func Q_C14_updateFrom(b builder.Update, v interface{}) stmt.Statement {
	assume(len(updateOf(b).From.Tables) != 0)
	return b.From(v).Statement()
}
func S_C14_updateFrom(b builder.Update, v interface{}) stmt.Statement {
	assume(len(updateOf(b).From.Tables) != 0)
	panic("")
}

func Q_C14_updateReturning(b builder.Update, args []interface{}) stmt.Statement {
	assume(len(updateOf(b).Returning.Columns) != 0)
	return b.Returning(args...).Statement()
}
func S_C14_updateReturning(b builder.Update, args []interface{}) stmt.Statement {
	assume(len(updateOf(b).Returning.Columns) != 0)
	panic("")
}

func Q_C14_deleteFrom(b builder.Delete, args []interface{}) stmt.Statement {
	assume(len(deleteOf(b).From.Tables) != 0)
	return b.From(args...).Statement()
}
func S_C14_deleteFrom(b builder.Delete, args []interface{}) stmt.Statement {
	assume(len(deleteOf(b).From.Tables) != 0)
	panic("")
}

func Q_C14_deleteUsing(b builder.Delete, args []interface{}) stmt.Statement {
	assume(len(deleteOf(b).Using.Tables) != 0)
	return b.Using(args...).Statement()
}
func S_C14_deleteUsing(b builder.Delete, args []interface{}) stmt.Statement {
	assume(len(deleteOf(b).Using.Tables) != 0)
	panic("")
}

func Q_C14_deleteReturning(b builder.Delete, args []interface{}) stmt.Statement {
	assume(len(deleteOf(b).Returning.Columns) != 0)
	return b.Returning(args...).Statement()
}
func S_C14_deleteReturning(b builder.Delete, args []interface{}) stmt.Statement {
	assume(len(deleteOf(b).Returning.Columns) != 0)
	panic("")
}
