package zzverifspec

import (
	"sort"
	"strings"

	"github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/parser"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// C25: ON CONFLICT keeps every target, and its action.

func conflicting(b builder.Insert, action stmt.ConflictAction, targets ...stmt.Column) stmt.Statement {
	q := insertOf(b)
	must(q.OnConflict.Action == nil || q.OnConflict.Action.IsEmpty())
	for _, t := range targets {
		must(t.Name != "")
	}
	q.OnConflict.Target.Columns = targets
	q.OnConflict.Action = action
	return q
}

func Q_C25_nothing(b builder.Insert) stmt.Statement {
	assume(insertOf(b).OnConflict.Target.Columns == nil)
	return b.OnConflict(loukoum.DoNothing()).Statement()
}
func S_C25_nothing(b builder.Insert) stmt.Statement {
	assume(insertOf(b).OnConflict.Target.Columns == nil)
	return conflicting(b, stmt.ConflictNoAction{})
}

func Q_C25_nothing1(b builder.Insert, t string) stmt.Statement {
	assume(insertOf(b).OnConflict.Target.Columns == nil)
	return b.OnConflict(t, loukoum.DoNothing()).Statement()
}
func S_C25_nothing1(b builder.Insert, t string) stmt.Statement {
	assume(insertOf(b).OnConflict.Target.Columns == nil)
	return conflicting(b, stmt.ConflictNoAction{}, stmt.Column{Name: strings.TrimSpace(t)})
}

func Q_C25_nothing3(b builder.Insert, s string, c, d stmt.Column) stmt.Statement {
	assume(insertOf(b).OnConflict.Target.Columns == nil)
	return b.OnConflict(c, s, d, loukoum.DoNothing()).Statement()
}
func S_C25_nothing3(b builder.Insert, s string, c, d stmt.Column) stmt.Statement {
	assume(insertOf(b).OnConflict.Target.Columns == nil)
	return conflicting(b, stmt.ConflictNoAction{}, c, stmt.Column{Name: strings.TrimSpace(s)}, d)
}

func Q_C25_update1(b builder.Insert, c stmt.Column, a stmt.ConflictUpdateAction) stmt.Statement {
	assume(insertOf(b).OnConflict.Target.Columns == nil)
	return b.OnConflict(c, a).Statement()
}
func S_C25_update1(b builder.Insert, c stmt.Column, a stmt.ConflictUpdateAction) stmt.Statement {
	assume(insertOf(b).OnConflict.Target.Columns == nil)
	must(!a.IsEmpty())
	return conflicting(b, a, c)
}

func Q_C25_update2(b builder.Insert, s string, c stmt.Column, a stmt.ConflictUpdateAction) stmt.Statement {
	assume(insertOf(b).OnConflict.Target.Columns == nil)
	return b.OnConflict(s, c, a).Statement()
}
func S_C25_update2(b builder.Insert, s string, c stmt.Column, a stmt.ConflictUpdateAction) stmt.Statement {
	assume(insertOf(b).OnConflict.Target.Columns == nil)
	must(!a.IsEmpty())
	return conflicting(b, a, stmt.Column{Name: strings.TrimSpace(s)}, c)
}

func Q_C25_doUpdate(args []interface{}) stmt.ConflictUpdateAction {
	return loukoum.DoUpdate(args...)
}
func S_C25_doUpdate(args []interface{}) stmt.ConflictUpdateAction {
	return stmt.ConflictUpdateAction{Set: builder.ToSet(args)}
}

// An UPDATE needs a target and a pair, the action comes last, and there is one.

func Q_C25_noTarget(b builder.Insert, set stmt.Set) {
	assume(insertOf(b).OnConflict.Target.Columns == nil)
	b.OnConflict(stmt.ConflictUpdateAction{Set: set})
}
func S_C25_noTarget(b builder.Insert, set stmt.Set) {
	assume(insertOf(b).OnConflict.Target.Columns == nil)
	panic("")
}

func Q_C25_noPair(b builder.Insert, c stmt.Column) {
	b.OnConflict(c, stmt.ConflictUpdateAction{Set: stmt.NewSet()})
}
func S_C25_noPair(b builder.Insert, c stmt.Column) { panic("") }

func Q_C25_noAction(b builder.Insert, list []string) {
	args := []interface{}{}
	for _, c := range list {
		args = append(args, c)
	}
	b.OnConflict(args...)
}
func S_C25_noAction(b builder.Insert, list []string) { panic("") }

func Q_C25_other(b builder.Insert, c stmt.Column, n stmt.Table) {
	b.OnConflict(c, n, stmt.ConflictNoAction{})
}
func S_C25_other(b builder.Insert, c stmt.Column, n stmt.Table) { panic("") }

func Q_C25_actionFirst(b builder.Insert, x interface{}) {
	b.OnConflict(stmt.ConflictNoAction{}, x)
}
func S_C25_actionFirst(b builder.Insert, x interface{}) { panic("") }

func Q_C25_updateFirst(b builder.Insert, c stmt.Column, a stmt.ConflictUpdateAction, x interface{}) {
	b.OnConflict(c, a, x)
}
func S_C25_updateFirst(b builder.Insert, c stmt.Column, a stmt.ConflictUpdateAction, x interface{}) {
	panic("")
}

// C29: what JOIN accepts.

func joined(b builder.Select, join stmt.Join) stmt.Statement {
	q := selectOf(b)
	must(join.Type != "" && join.Table.Name != "" && join.Condition != nil && !join.Condition.IsEmpty())
	q.Joins = append(append([]stmt.Join{}, q.Joins...), join)
	return q
}

func Q_C29_join1(b builder.Select, arg interface{}) stmt.Statement { return b.Join(arg).Statement() }
func S_C29_join1(b builder.Select, arg interface{}) stmt.Statement {
	switch v := arg.(type) {
	case string:
		return joined(b, parser.MustParseJoin(v))
	case stmt.Join:
		return joined(b, v)
	}
	panic("")
}

func joinOf(table, condition interface{}) stmt.Join {
	var t stmt.Table
	switch v := table.(type) {
	case string:
		t.Name = v
	case stmt.Table:
		t = v
	default:
		panic("")
	}
	switch v := condition.(type) {
	case string:
		join := parser.MustParseJoin(v)
		must(join.Table.Name == "" || join.Table == t)
		join.Table = t
		return join
	case stmt.OnClause:
		return stmt.Join{Type: types.InnerJoin, Table: t, Condition: v}
	case stmt.InfixOnExpression:
		return stmt.Join{Type: types.InnerJoin, Table: t, Condition: v}
	}
	panic("")
}

func Q_C29_join2(b builder.Select, table, condition interface{}) stmt.Statement {
	return b.Join(table, condition).Statement()
}
func S_C29_join2(b builder.Select, table, condition interface{}) stmt.Statement {
	return joined(b, joinOf(table, condition))
}

func Q_C29_join3(b builder.Select, table, condition, kind interface{}) stmt.Statement {
	return b.Join(table, condition, kind).Statement()
}
func S_C29_join3(b builder.Select, table, condition, kind interface{}) stmt.Statement {
	join := joinOf(table, condition)
	join.Type = kind.(types.JoinType)
	return joined(b, join)
}

func Q_C29_joinOther(b builder.Select, args []interface{}) stmt.Statement {
	assume(len(args) < 1 || len(args) > 3)
	return b.Join(args...).Statement()
}
func S_C29_joinOther(b builder.Select, args []interface{}) stmt.Statement {
	assume(len(args) < 1 || len(args) > 3)
	panic("")
}

// C17: columns and values of SET and INSERT stay together.

func Q_C17_add(p stmt.PairContainer, c stmt.Column, e stmt.Expression) stmt.PairContainer {
	p.Add(c, e)
	return p
}
func S_C17_add(p stmt.PairContainer, c stmt.Column, e stmt.Expression) stmt.PairContainer {
	must(p.Mode == stmt.PairUnknownMode || p.Mode == stmt.PairAssociativeMode)
	p.Mode = stmt.PairAssociativeMode
	if _, ok := p.Map[c]; !ok {
		p.Columns = append(p.Columns, c)
	}
	p.Map[c] = e
	return p
}

func Q_C17_set(p stmt.PairContainer, c stmt.Column) stmt.PairContainer {
	p.Set(c)
	return p
}
func S_C17_set(p stmt.PairContainer, c stmt.Column) stmt.PairContainer {
	must(p.Mode == stmt.PairUnknownMode || p.Mode == stmt.PairArrayMode)
	p.Mode = stmt.PairArrayMode
	p.Columns = append(p.Columns, c)
	return p
}

func Q_C17_use(p stmt.PairContainer, e stmt.Expression) stmt.PairContainer {
	p.Use(e)
	return p
}
func S_C17_use(p stmt.PairContainer, e stmt.Expression) stmt.PairContainer {
	must(p.Mode == stmt.PairArrayMode)
	p.Expressions = append(p.Expressions, e)
	return p
}

func Q_C17_clone(p stmt.PairContainer) stmt.PairContainer { return p.Clone() }
func S_C17_clone(p stmt.PairContainer) stmt.PairContainer {
	m := map[stmt.Column]stmt.Expression{}
	for c, e := range p.Map {
		m[c] = e
	}
	p.Map = m
	p.Columns = append([]stmt.Column{}, p.Columns...)
	p.Expressions = append([]stmt.Expression{}, p.Expressions...)
	return p
}

// sorted is the order in which pairs are rendered: by name, then by alias.
func sorted(list []stmt.Column) []stmt.Column {
	columns := append([]stmt.Column{}, list...)
	sort.Slice(columns, func(i, j int) bool {
		if columns[i].Name == columns[j].Name {
			return columns[i].Alias < columns[j].Alias
		}
		return columns[i].Name < columns[j].Name
	})
	return columns
}

func Q_C17_values(p stmt.PairContainer) ([]stmt.Column, []stmt.Expression) { return p.Values() }
func S_C17_values(p stmt.PairContainer) ([]stmt.Column, []stmt.Expression) {
	if p.Mode != stmt.PairAssociativeMode {
		return p.Columns, p.Expressions
	}
	columns := sorted(p.Columns)
	values := []stmt.Expression{}
	for _, c := range columns {
		v, ok := p.Map[c]
		must(ok)
		values = append(values, v)
	}
	return columns, values
}

func Q_C17_write(p stmt.PairContainer, ctx types.Context) {
	assume(p.Mode == stmt.PairAssociativeMode)
	p.Write(ctx)
}
func S_C17_write(p stmt.PairContainer, ctx types.Context) {
	assume(p.Mode == stmt.PairAssociativeMode)
	must(len(p.Map) != 0 || len(p.Expressions) != 0)
	columns := sorted(p.Columns)
	for _, c := range columns {
		_, ok := p.Map[c]
		must(ok)
	}
	for i, c := range columns {
		if i > 0 {
			ctx.Write(", ")
		}
		c.Write(ctx)
		ctx.Write(" = ")
		p.Map[c].Write(ctx)
	}
}

func Q_C17_insertSet(b builder.Insert, args []interface{}) stmt.Statement {
	return b.Set(args...).Statement()
}
func S_C17_insertSet(b builder.Insert, args []interface{}) stmt.Statement {
	q := insertOf(b)
	must(len(q.Columns) == 0 && noValues(q.Values))
	columns, values := builder.ToSet(args).Pairs.Values()
	must(len(columns) != 0)
	q.Columns = columns
	q.Values = stmt.Values{Values: stmt.NewArrayListExpression(values)}
	return q
}

// What is given to Set: columns, pairs, and maps of pairs. A map that names a
// column twice has no order to tell which value is the last.

func columnOf(x interface{}) stmt.Column {
	var c stmt.Column
	switch v := x.(type) {
	case string:
		c.Name = strings.TrimSpace(v)
	case stmt.Column:
		c = v
	default:
		panic("")
	}
	must(c.Name != "")
	return c
}

func Q_C17_mergeColumn(set stmt.Set, x interface{}) stmt.Set {
	assume(isColumn(x))
	return builder.MergeSet(set, []interface{}{x})
}
func S_C17_mergeColumn(set stmt.Set, x interface{}) stmt.Set {
	assume(isColumn(x))
	set.Pairs = set.Pairs.Clone()
	if text, ok := x.(string); ok {
		for _, name := range strings.Split(text, ",") {
			set.Pairs.Set(columnOf(name))
		}
	} else {
		set.Pairs.Set(columnOf(x))
	}
	return set
}

func isColumn(x interface{}) bool {
	switch x.(type) {
	case string, stmt.Column:
		return true
	}
	return false
}

func Q_C17_mergePair(set stmt.Set, pair types.Pair) stmt.Set {
	return builder.MergeSet(set, []interface{}{pair})
}
func S_C17_mergePair(set stmt.Set, pair types.Pair) stmt.Set {
	set.Pairs = set.Pairs.Clone()
	set.Pairs.Add(columnOf(pair.Key), stmt.NewWrapper(stmt.NewExpression(pair.Value)))
	return set
}

func Q_C17_mergeStrings(set stmt.Set, m map[string]interface{}) stmt.Set {
	return builder.MergeSet(set, []interface{}{m})
}
func S_C17_mergeStrings(set stmt.Set, m map[string]interface{}) stmt.Set {
	set.Pairs = set.Pairs.Clone()
	seen := map[stmt.Column]bool{}
	for k, v := range m {
		c := columnOf(k)
		must(!seen[c])
		seen[c] = true
		set.Pairs.Add(c, stmt.NewWrapper(stmt.NewExpression(v)))
	}
	return set
}

func Q_C17_mergeMap(set stmt.Set, m types.Map) stmt.Set {
	return builder.MergeSet(set, []interface{}{m})
}
func S_C17_mergeMap(set stmt.Set, m types.Map) stmt.Set {
	set.Pairs = set.Pairs.Clone()
	seen := map[stmt.Column]bool{}
	for k, v := range m {
		c := columnOf(k)
		must(!seen[c])
		seen[c] = true
		set.Pairs.Add(c, stmt.NewWrapper(stmt.NewExpression(v)))
	}
	return set
}

func Q_C17_mergeOther(set stmt.Set, x interface{}) stmt.Set {
	assume(!isColumn(x) && !isPairs(x))
	return builder.MergeSet(set, []interface{}{x})
}
func S_C17_mergeOther(set stmt.Set, x interface{}) stmt.Set {
	assume(!isColumn(x) && !isPairs(x))
	panic("")
}

func isPairs(x interface{}) bool {
	switch x.(type) {
	case types.Pair, types.Map, map[string]interface{}:
		return true
	}
	return false
}

func Q_C17_mergeNone(set stmt.Set) stmt.Set { return builder.MergeSet(set, nil) }
func S_C17_mergeNone(set stmt.Set) stmt.Set {
	set.Pairs = set.Pairs.Clone()
	return set
}

func Q_C17_mergeMixed(set stmt.Set, c stmt.Column, v string, m map[string]interface{}, d stmt.Column, w int64) stmt.Set {
	return builder.MergeSet(set, []interface{}{types.Pair{Key: c, Value: v}, m, types.Pair{Key: d, Value: w}})
}
func S_C17_mergeMixed(set stmt.Set, c stmt.Column, v string, m map[string]interface{}, d stmt.Column, w int64) stmt.Set {
	set.Pairs = set.Pairs.Clone()
	set.Pairs.Add(columnOf(c), stmt.Value{Value: v})
	seen := map[stmt.Column]bool{}
	for k, v := range m {
		c := columnOf(k)
		must(!seen[c])
		seen[c] = true
		set.Pairs.Add(c, stmt.NewWrapper(stmt.NewExpression(v)))
	}
	set.Pairs.Add(columnOf(d), stmt.Value{Value: w})
	return set
}

func Q_C17_mergeColumns(set stmt.Set, list []stmt.Column) stmt.Set {
	var args []interface{}
	for _, c := range list {
		args = append(args, c)
	}
	return builder.MergeSet(set, args)
}
func S_C17_mergeColumns(set stmt.Set, list []stmt.Column) stmt.Set {
	set.Pairs = set.Pairs.Clone()
	for _, c := range list {
		set.Pairs.Set(columnOf(c))
	}
	return set
}

func Q_C17_mergeList(set stmt.Set, list []types.Pair) stmt.Set {
	var args []interface{}
	for _, p := range list {
		args = append(args, p)
	}
	return builder.MergeSet(set, args)
}
func S_C17_mergeList(set stmt.Set, list []types.Pair) stmt.Set {
	set.Pairs = set.Pairs.Clone()
	for _, p := range list {
		set.Pairs.Add(columnOf(p.Key), stmt.NewWrapper(stmt.NewExpression(p.Value)))
	}
	return set
}

func Q_C17_toSet(args []interface{}) stmt.Set { return builder.ToSet(args) }
func S_C17_toSet(args []interface{}) stmt.Set {
	set := stmt.NewSet()
	set.Pairs.Mode = stmt.PairAssociativeMode
	return builder.MergeSet(set, args)
}
