package zzverifspec

import (
	"database/sql/driver"
	"encoding/hex"
	"strconv"
	"strings"
	"time"

	"github.com/jackc/pgx/v5/pgtype"

	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/format"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// C12: a subquery used as an operand is enclosed in parentheses, and loses its
// comment, which would swallow what follows it.

func uncommented(s stmt.Select) stmt.Select {
	s.Comment = stmt.Comment{}
	return s
}

// bare is an expression that brings its own parentheses.
func bare(e stmt.Expression) stmt.Expression {
	if s, ok := e.(stmt.Select); ok {
		return uncommented(s)
	}
	return e
}

func Q_C12_wrapper(e stmt.Expression) stmt.Expression { return stmt.NewWrapper(e) }
func S_C12_wrapper(e stmt.Expression) stmt.Expression { return operand(e) }

func Q_C12_expressionOfSelect(s stmt.Select) stmt.Expression { return stmt.NewExpression(s) }
func S_C12_expressionOfSelect(s stmt.Select) stmt.Expression { return uncommented(s) }

func Q_C12_infix(left stmt.Expression, operator stmt.Operator, right stmt.Expression) stmt.Expression {
	return stmt.NewInfixExpression(left, operator, right)
}
func S_C12_infix(left stmt.Expression, operator stmt.Operator, right stmt.Expression) stmt.Expression {
	return stmt.InfixExpression{Left: operand(left), Operator: operator, Right: operand(right)}
}

func Q_C12_where(e stmt.Expression) stmt.Expression { return stmt.NewWhere(e).Condition }
func S_C12_where(e stmt.Expression) stmt.Expression { return operand(e) }

func Q_C12_whereAnd(w stmt.Where, e stmt.Expression) stmt.Expression { return w.And(e).Condition }
func S_C12_whereAnd(w stmt.Where, e stmt.Expression) stmt.Expression {
	return combined(w.Condition, types.And, e)
}

func Q_C12_whereOr(w stmt.Where, e stmt.Expression) stmt.Expression { return w.Or(e).Condition }
func S_C12_whereOr(w stmt.Where, e stmt.Expression) stmt.Expression {
	return combined(w.Condition, types.Or, e)
}

func Q_C12_having(e stmt.Expression) stmt.Expression { return stmt.NewHaving(e).Condition }
func S_C12_having(e stmt.Expression) stmt.Expression { return operand(e) }

func Q_C12_between(x stmt.Identifier, from, to stmt.Expression) stmt.Expression {
	return stmt.NewBetween(x, from, to)
}
func S_C12_between(x stmt.Identifier, from, to stmt.Expression) stmt.Expression {
	return betweenOf(x, types.Between, from, to)
}

func Q_C12_notBetween(x stmt.Identifier, from, to stmt.Expression) stmt.Expression {
	return stmt.NewNotBetween(x, from, to)
}
func S_C12_notBetween(x stmt.Identifier, from, to stmt.Expression) stmt.Expression {
	return betweenOf(x, types.NotBetween, from, to)
}

func betweenOf(x stmt.Identifier, operator types.ComparisonOperator, from, to stmt.Expression) stmt.Between {
	return stmt.Between{
		Identifier: x,
		Operator:   stmt.ComparisonOperator{Operator: operator},
		From:       operand(from),
		And:        stmt.LogicalOperator{Operator: types.And},
		To:         operand(to),
	}
}

func Q_C12_in(x, list stmt.Expression) stmt.Expression { return stmt.NewIn(x, list) }
func S_C12_in(x, list stmt.Expression) stmt.Expression {
	return stmt.In{Expression: operand(x), Operator: stmt.ComparisonOperator{Operator: types.In}, Value: bare(list)}
}

func Q_C12_notIn(x, list stmt.Expression) stmt.Expression { return stmt.NewNotIn(x, list) }
func S_C12_notIn(x, list stmt.Expression) stmt.Expression {
	return stmt.In{Expression: operand(x), Operator: stmt.ComparisonOperator{Operator: types.NotIn}, Value: bare(list)}
}

func Q_C12_exists(s stmt.Select) stmt.Expression { return stmt.NewExists(s) }
func S_C12_exists(s stmt.Select) stmt.Expression { return stmt.Exists{Subquery: uncommented(s)} }

func Q_C12_notExists(s stmt.Select) stmt.Expression { return stmt.NewNotExists(s) }
func S_C12_notExists(s stmt.Select) stmt.Expression { return stmt.NotExists{Subquery: uncommented(s)} }

func Q_C12_with(name string, s stmt.Select) stmt.WithQuery { return stmt.NewWithQuery(name, s) }
func S_C12_with(name string, s stmt.Select) stmt.WithQuery {
	return stmt.WithQuery{Name: name, Subquery: uncommented(s)}
}

func Q_C12_list(s stmt.Select) stmt.Expression { return stmt.NewArrayExpression(s) }
func S_C12_list(s stmt.Select) stmt.Expression {
	return stmt.Array{Values: []stmt.Expression{uncommented(s)}}
}

// A query may be given as its builder.

func Q_C12_builder(b builder.Select) stmt.Expression { return stmt.NewExpression(b) }
func S_C12_builder(b builder.Select) stmt.Expression { return built(b) }

func Q_C12_existsBuilder(b builder.Select) stmt.Expression { return stmt.NewExists(b) }
func S_C12_existsBuilder(b builder.Select) stmt.Expression { return stmt.Exists{Subquery: built(b)} }

func Q_C12_notExistsBuilder(b builder.Select) stmt.Expression { return stmt.NewNotExists(b) }
func S_C12_notExistsBuilder(b builder.Select) stmt.Expression {
	return stmt.NotExists{Subquery: built(b)}
}

func Q_C12_withBuilder(name string, b builder.Select) stmt.WithQuery {
	return stmt.NewWithQuery(name, b)
}
func S_C12_withBuilder(name string, b builder.Select) stmt.WithQuery {
	return stmt.WithQuery{Name: name, Subquery: built(b)}
}

func Q_C12_listBuilder(b builder.Select) stmt.Expression { return stmt.NewArrayExpression(b) }
func S_C12_listBuilder(b builder.Select) stmt.Expression {
	return stmt.Array{Values: []stmt.Expression{built(b)}}
}

func Q_C12_equalBuilder(x stmt.Identifier, b builder.Select) stmt.Expression { return x.Equal(b) }
func S_C12_equalBuilder(x stmt.Identifier, b builder.Select) stmt.Expression {
	return stmt.InfixExpression{Left: x, Operator: stmt.ComparisonOperator{Operator: types.Equal}, Right: stmt.Wrapper{Value: built(b)}}
}

func Q_C12_pairBuilder(key string, b builder.Select) stmt.Expression {
	set := stmt.Set{Pairs: stmt.PairContainer{Mode: stmt.PairAssociativeMode}}
	set = builder.MergeSet(set, []interface{}{types.Pair{Key: key, Value: b}})
	return set.Pairs.Map[set.Pairs.Columns[0]]
}
func S_C12_pairBuilder(key string, b builder.Select) stmt.Expression {
	builder.ToColumn(key)
	return stmt.Wrapper{Value: built(b)}
}

func built(b builder.Select) stmt.Select { return uncommented(b.Statement().(stmt.Select)) }

func Q_C12_pair(key string, s stmt.Select) stmt.Expression {
	set := stmt.Set{Pairs: stmt.PairContainer{Mode: stmt.PairAssociativeMode}}
	set = builder.MergeSet(set, []interface{}{types.Pair{Key: key, Value: s}})
	return set.Pairs.Map[set.Pairs.Columns[0]]
}
func S_C12_pair(key string, s stmt.Select) stmt.Expression {
	builder.ToColumn(key)
	return stmt.Wrapper{Value: uncommented(s)}
}

// C19: what a Go value becomes.

func Q_C19_nil() stmt.Expression { return stmt.NewExpression(nil) }
func S_C19_nil() stmt.Expression { return stmt.Value{} }

func Q_C19_expression(arg interface{}) stmt.Expression { return stmt.NewExpression(arg) }
func S_C19_expression(arg interface{}) stmt.Expression {
	if arg == nil {
		return stmt.Value{}
	}
	if s, ok := arg.(stmt.Select); ok {
		return uncommented(s)
	}
	if e, ok := arg.(stmt.Expression); ok {
		return e
	}
	if isScalar(arg) {
		return stmt.Value{Value: arg}
	}
	if t, ok := arg.(*time.Time); ok {
		if t == nil {
			return stmt.Value{}
		}
		return stmt.Value{Value: *t}
	}
	if b, ok := arg.(stmt.StatementEncoder); ok {
		return bare(b.Statement().(stmt.Expression))
	}
	if e, ok := arg.(stmt.Int64Encoder); ok {
		return stmt.Value{Value: e.Int64()}
	}
	if e, ok := arg.(stmt.BoolEncoder); ok {
		return stmt.Value{Value: e.Bool()}
	}
	if e, ok := arg.(stmt.TimeEncoder); ok {
		return stmt.Value{Value: e.Time()}
	}
	if e, ok := arg.(stmt.StringEncoder); ok {
		return stmt.Value{Value: e.String()}
	}
	panic("")
}

// isScalar tells whether a value is bound as it is.
func isScalar(arg interface{}) bool {
	switch arg.(type) {
	case string, bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, float32, float64:
		return true
	case []byte, []int64, []string, map[string]string, map[string]interface{}, time.Time:
		return true
	case driver.Valuer, pgtype.RangeValuer, pgtype.FlatArray[string], pgtype.FlatArray[int64]:
		return true
	}
	return false
}

// C18: LIMIT and OFFSET.

// toInt is the integer meant by a value.
func toInt(arg interface{}) (int64, bool) {
	switch v := arg.(type) {
	case int:
		return int64(v), true
	case int8:
		return int64(v), true
	case int16:
		return int64(v), true
	case int32:
		return int64(v), true
	case int64:
		return v, true
	case uint8:
		return int64(v), true
	case uint16:
		return int64(v), true
	case uint32:
		return int64(v), true
	case uint64:
		if v > 1<<63-1 {
			return 0, false
		}
		return int64(v), true
	case string:
		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			return 0, false
		}
		return n, true
	}
	return 0, false
}

func Q_C18_toInt64(arg interface{}) (int64, bool) {
	n, ok := builder.ToInt64(arg)
	if !ok {
		return 0, false // the number is of no account
	}
	return n, true
}
func S_C18_toInt64(arg interface{}) (int64, bool) { return toInt(arg) }

func Q_C18_limit(arg interface{}) stmt.Limit { return builder.ToLimit(arg) }
func S_C18_limit(arg interface{}) stmt.Limit {
	if l, ok := arg.(stmt.Limit); ok {
		must(l.Count > 0)
		return l
	}
	n, ok := toInt(arg)
	must(ok && n > 0)
	return stmt.Limit{Count: n}
}

func Q_C18_offset(arg interface{}) stmt.Offset { return builder.ToOffset(arg) }
func S_C18_offset(arg interface{}) stmt.Offset {
	if o, ok := arg.(stmt.Offset); ok {
		must(o.Start >= 0)
		return o
	}
	n, ok := toInt(arg)
	must(ok && n >= 0)
	return stmt.Offset{Start: n}
}

// C20: lists.

func Q_C20_list(args []interface{}) stmt.Expression {
	assume(len(args) != 1)
	return stmt.NewArrayExpression(args...)
}
func S_C20_list(args []interface{}) stmt.Expression {
	assume(len(args) != 1)
	return stmt.Array{Values: operands(args)}
}

func operands(args []interface{}) []stmt.Expression {
	var list []stmt.Expression
	for _, arg := range args {
		list = append(list, operand(stmt.NewExpression(arg)))
	}
	return list
}

func Q_C20_strings(list []string) stmt.Expression { return stmt.NewArrayExpression(list) }
func S_C20_strings(list []string) stmt.Expression { return stmt.Array{Values: bound(list)} }

func Q_C20_ints(list []int) stmt.Expression { return stmt.NewArrayExpression(list) }
func S_C20_ints(list []int) stmt.Expression { return stmt.Array{Values: bound(list)} }

func Q_C20_uints(list []uint) stmt.Expression { return stmt.NewArrayExpression(list) }
func S_C20_uints(list []uint) stmt.Expression { return stmt.Array{Values: bound(list)} }

func Q_C20_int8s(list []int8) stmt.Expression { return stmt.NewArrayExpression(list) }
func S_C20_int8s(list []int8) stmt.Expression { return stmt.Array{Values: bound(list)} }

func Q_C20_int16s(list []int16) stmt.Expression { return stmt.NewArrayExpression(list) }
func S_C20_int16s(list []int16) stmt.Expression { return stmt.Array{Values: bound(list)} }

func Q_C20_uint16s(list []uint16) stmt.Expression { return stmt.NewArrayExpression(list) }
func S_C20_uint16s(list []uint16) stmt.Expression { return stmt.Array{Values: bound(list)} }

func Q_C20_int32s(list []int32) stmt.Expression { return stmt.NewArrayExpression(list) }
func S_C20_int32s(list []int32) stmt.Expression { return stmt.Array{Values: bound(list)} }

func Q_C20_uint32s(list []uint32) stmt.Expression { return stmt.NewArrayExpression(list) }
func S_C20_uint32s(list []uint32) stmt.Expression { return stmt.Array{Values: bound(list)} }

func Q_C20_int64s(list []int64) stmt.Expression { return stmt.NewArrayExpression(list) }
func S_C20_int64s(list []int64) stmt.Expression { return stmt.Array{Values: bound(list)} }

func Q_C20_uint64s(list []uint64) stmt.Expression { return stmt.NewArrayExpression(list) }
func S_C20_uint64s(list []uint64) stmt.Expression { return stmt.Array{Values: bound(list)} }

func Q_C20_bools(list []bool) stmt.Expression { return stmt.NewArrayExpression(list) }
func S_C20_bools(list []bool) stmt.Expression { return stmt.Array{Values: bound(list)} }

func Q_C20_float32s(list []float32) stmt.Expression { return stmt.NewArrayExpression(list) }
func S_C20_float32s(list []float32) stmt.Expression { return stmt.Array{Values: bound(list)} }

func Q_C20_float64s(list []float64) stmt.Expression { return stmt.NewArrayExpression(list) }
func S_C20_float64s(list []float64) stmt.Expression { return stmt.Array{Values: bound(list)} }

func Q_C20_blobs(list [][]byte) stmt.Expression { return stmt.NewArrayExpression(list) }
func S_C20_blobs(list [][]byte) stmt.Expression { return stmt.Array{Values: bound(list)} }

func bound[T any](list []T) []stmt.Expression {
	var values []stmt.Expression
	for _, v := range list {
		values = append(values, stmt.Value{Value: v})
	}
	return values
}

func Q_C20_anys(list []interface{}) stmt.Expression { return stmt.NewArrayExpression(list) }
func S_C20_anys(list []interface{}) stmt.Expression { return stmt.Array{Values: listed(converted(list))} }

func converted(list []interface{}) []stmt.Expression {
	var values []stmt.Expression
	for _, v := range list {
		values = append(values, stmt.NewExpression(v))
	}
	return values
}

func Q_C20_expressions(list []stmt.Expression) stmt.Expression { return stmt.NewArrayExpression(list) }
func S_C20_expressions(list []stmt.Expression) stmt.Expression {
	var values []stmt.Expression
	for _, v := range list {
		values = append(values, stmt.NewExpression(v))
	}
	return stmt.Array{Values: listed(values)}
}

// listed are the elements of a list: a query is an operand unless it is the list.
func listed(values []stmt.Expression) []stmt.Expression {
	if len(values) == 1 {
		return values
	}
	return row(values)
}

// row are the elements of a row.
func row(values []stmt.Expression) []stmt.Expression {
	var list []stmt.Expression
	for _, v := range values {
		list = append(list, operand(v))
	}
	return list
}

func Q_C20_nothing() stmt.Expression { return stmt.NewArrayExpression(nil) }
func S_C20_nothing() stmt.Expression { return stmt.Array{} }

func Q_C20_single(arg interface{}) stmt.Expression { return stmt.NewArrayExpression(arg) }
func S_C20_single(arg interface{}) stmt.Expression {
	assume(arg != nil && !isList(arg))
	return stmt.Array{Values: []stmt.Expression{stmt.NewExpression(arg)}}
}

// isList tells whether a single argument stands for a list.
func isList(arg interface{}) bool {
	switch arg.(type) {
	case []string, []int, []uint, []int8, []int16, []uint16, []int32, []uint32, []int64, []uint64:
		return true
	case []bool, []float32, []float64, [][]byte, []stmt.Expression, []interface{}:
		return true
	}
	return false
}

// Lists of rows.

func Q_C20_row(args []interface{}) stmt.Expression {
	assume(len(args) != 1)
	return stmt.NewArrayListExpression(args...)
}
func S_C20_row(args []interface{}) stmt.Expression {
	assume(len(args) != 1)
	return stmt.ArrayList{Values: []stmt.Expression{stmt.Array{Values: operands(args)}}}
}

func Q_C20_rowSingle(arg interface{}) stmt.Expression { return stmt.NewArrayListExpression(arg) }
func S_C20_rowSingle(arg interface{}) stmt.Expression {
	assume(arg != nil && !isRows(arg) && !isList(arg))
	return stmt.ArrayList{Values: []stmt.Expression{stmt.Array{Values: operands([]interface{}{arg})}}}
}

func Q_C20_rowNil() stmt.Expression { return stmt.NewArrayListExpression(nil) }
func S_C20_rowNil() stmt.Expression {
	return stmt.ArrayList{Values: []stmt.Expression{stmt.Array{Values: []stmt.Expression{stmt.Value{}}}}}
}

func Q_C20_rowOfList(arg interface{}) stmt.Expression { return stmt.NewArrayListExpression(arg) }
func S_C20_rowOfList(arg interface{}) stmt.Expression {
	assume(isList(arg))
	list := stmt.NewArrayExpression(arg).(stmt.Array)
	return stmt.ArrayList{Values: []stmt.Expression{stmt.Array{Values: row(list.Values)}}}
}

// isRows tells whether a single argument stands for a list of rows.
func isRows(arg interface{}) bool {
	switch arg.(type) {
	case [][]interface{}, [][]string, [][]int, [][]int64, [][]bool, [][]stmt.Expression:
		return true
	}
	return false
}

func Q_C20_rows(list [][]interface{}) stmt.Expression { return stmt.NewArrayListExpression(list) }
func S_C20_rows(list [][]interface{}) stmt.Expression {
	assume(len(list) != 0)
	var rows []stmt.Expression
	for i := range list {
		rows = append(rows, stmt.Array{Values: operands(list[i])})
	}
	return stmt.ArrayList{Values: rows}
}

func Q_C20_rowsOfStrings(list [][]string) stmt.Expression { return stmt.NewArrayListExpression(list) }
func S_C20_rowsOfStrings(list [][]string) stmt.Expression { return rowsOf(list) }

func Q_C20_rowsOfInts(list [][]int) stmt.Expression { return stmt.NewArrayListExpression(list) }
func S_C20_rowsOfInts(list [][]int) stmt.Expression { return rowsOf(list) }

func Q_C20_rowsOfInt64s(list [][]int64) stmt.Expression { return stmt.NewArrayListExpression(list) }
func S_C20_rowsOfInt64s(list [][]int64) stmt.Expression { return rowsOf(list) }

func Q_C20_rowsOfBools(list [][]bool) stmt.Expression { return stmt.NewArrayListExpression(list) }
func S_C20_rowsOfBools(list [][]bool) stmt.Expression { return rowsOf(list) }

func Q_C20_rowsOfExpressions(list [][]stmt.Expression) stmt.Expression {
	return stmt.NewArrayListExpression(list)
}
func S_C20_rowsOfExpressions(list [][]stmt.Expression) stmt.Expression { return rowsOf(list) }

func rowsOf[T any](list [][]T) stmt.Expression {
	assume(len(list) != 0)
	var rows []stmt.Expression
	for i := range list {
		var args []interface{}
		for j := range list[i] {
			args = append(args, list[i][j])
		}
		rows = append(rows, stmt.Array{Values: operands(args)})
	}
	return stmt.ArrayList{Values: rows}
}

// C22: numbers in the debugging rendering keep their value.

func Q_C22_value(arg interface{}) string { return format.Value(arg) }
func S_C22_value(arg interface{}) string {
	switch v := arg.(type) {
	case nil:
		return "NULL"
	case int:
		return strconv.FormatInt(int64(v), 10)
	case int8:
		return strconv.FormatInt(int64(v), 10)
	case int16:
		return strconv.FormatInt(int64(v), 10)
	case int32:
		return strconv.FormatInt(int64(v), 10)
	case int64:
		return strconv.FormatInt(v, 10)
	case uint:
		return strconv.FormatUint(uint64(v), 10)
	case uint8:
		return strconv.FormatUint(uint64(v), 10)
	case uint16:
		return strconv.FormatUint(uint64(v), 10)
	case uint32:
		return strconv.FormatUint(uint64(v), 10)
	case uint64:
		return strconv.FormatUint(v, 10)
	case bool:
		return strconv.FormatBool(v)
	case float32:
		return strconv.FormatFloat(float64(v), 'f', -1, 64)
	case float64:
		return strconv.FormatFloat(v, 'f', -1, 64)
	}
	assume(false)
	return ""
}

func Q_C22_text(text string) string { return format.Value(text) }
func S_C22_text(text string) string {
	out := "'"
	for _, c := range text {
		if c == '\'' {
			out += `\'`
		} else if c == '\\' {
			out += `\\`
		} else if c == '\n' {
			out += `\n`
		} else if c == '\r' {
			out += `\r`
		} else if c == '\t' {
			out += `\t`
		} else {
			out += string(c)
		}
	}
	return out + "'"
}

func Q_C22_bytes(b []byte) string { return format.Value(b) }
func S_C22_bytes(b []byte) string { return "decode('" + hex.EncodeToString(b) + "', 'hex')" }

func Q_C22_time(t time.Time) string { return format.Value(t) }
func S_C22_time(t time.Time) string {
	return "'" + t.UTC().Format("2006-01-02 15:04:05.999999") + "+00'"
}

func Q_C22_valuer(v *quantity) string { return format.Value(v) }
func S_C22_valuer(v *quantity) string {
	if v == nil {
		return "NULL"
	}
	x, err := v.Value()
	if err != nil {
		panic("error")
	}
	return text(x)
}

// quantity is a driver.Valuer of its own.
type quantity struct {
	v   driver.Value
	err error
}

func (q *quantity) Value() (driver.Value, error) { return q.v, q.err }

func text(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "NULL"
	case int64:
		return strconv.FormatInt(v, 10)
	case bool:
		return strconv.FormatBool(v)
	case float64:
		return strconv.FormatFloat(v, 'f', -1, 64)
	}
	assume(false)
	return ""
}

// C23: names.

func Q_C23_column(arg interface{}) stmt.Column { return builder.ToColumn(arg) }
func S_C23_column(arg interface{}) stmt.Column {
	var c stmt.Column
	switch v := arg.(type) {
	case string:
		c = stmt.Column{Name: strings.TrimSpace(v)}
	case stmt.Column:
		c = v
	}
	must(c.Name != "")
	return c
}

func Q_C23_table(arg interface{}) stmt.Table { return builder.ToTable(arg) }
func S_C23_table(arg interface{}) stmt.Table {
	var t stmt.Table
	switch v := arg.(type) {
	case string:
		t = stmt.Table{Name: v}
	case stmt.Table:
		t = v
	}
	must(t.Name != "")
	return t
}

func Q_C23_tables(args []interface{}) []stmt.Table { return builder.ToTables(args) }
func S_C23_tables(args []interface{}) []stmt.Table {
	list := []stmt.Table{}
	for _, arg := range args {
		list = append(list, builder.ToTable(arg))
	}
	return list
}

func Q_C23_into(arg interface{}) stmt.Into { return builder.ToInto(arg) }
func S_C23_into(arg interface{}) stmt.Into {
	var into stmt.Into
	switch v := arg.(type) {
	case string:
		into.Table = stmt.Table{Name: v}
	case stmt.Table:
		into.Table = v
	case stmt.Into:
		into = v
	}
	must(into.Table.Name != "")
	return into
}

func Q_C23_suffix(arg interface{}) stmt.Suffix { return builder.ToSuffix(arg) }
func S_C23_suffix(arg interface{}) stmt.Suffix {
	var s stmt.Suffix
	switch v := arg.(type) {
	case string:
		s.Suffix = v
	case stmt.Suffix:
		s = v
	}
	must(s.Suffix != "")
	return s
}

func Q_C23_prefix(arg interface{}) stmt.Prefix { return builder.ToPrefix(arg) }
func S_C23_prefix(arg interface{}) stmt.Prefix {
	var p stmt.Prefix
	switch v := arg.(type) {
	case string:
		p.Prefix = v
	case stmt.Prefix:
		p = v
	}
	must(p.Prefix != "")
	return p
}

func Q_C23_columnsGiven(list []stmt.Column) []stmt.Column {
	return builder.ToColumns([]interface{}{list})
}
func S_C23_columnsGiven(list []stmt.Column) []stmt.Column {
	for _, c := range list {
		must(c.Name != "")
	}
	return append([]stmt.Column{}, list...)
}

func Q_C23_columns(args []interface{}) []stmt.Column { return builder.ToColumns(args) }
func S_C23_columns(args []interface{}) []stmt.Column {
	assume(!(len(args) == 1 && isColumns(args[0])))
	list := []stmt.Column{}
	for _, arg := range args {
		switch v := arg.(type) {
		case string:
			for _, name := range strings.Split(v, ",") {
				name = strings.TrimSpace(name)
				must(name != "")
				list = append(list, stmt.Column{Name: name})
			}
		case stmt.Column:
			must(v.Name != "")
			list = append(list, v)
		default:
			panic("")
		}
	}
	return list
}

func isColumns(arg interface{}) bool {
	switch arg.(type) {
	case []string, []stmt.Column, []stmt.SelectExpression:
		return true
	}
	return false
}

func Q_C23_names(list []string) []stmt.Column { return builder.ToColumns([]interface{}{list}) }
func S_C23_names(list []string) []stmt.Column {
	columns := []stmt.Column{}
	for _, names := range list {
		for _, name := range strings.Split(names, ",") {
			name = strings.TrimSpace(name)
			must(name != "")
			columns = append(columns, stmt.Column{Name: name})
		}
	}
	return columns
}

func Q_C23_selectExpressions(args []interface{}) []stmt.SelectExpression {
	return builder.ToSelectExpressions(args)
}
func S_C23_selectExpressions(args []interface{}) []stmt.SelectExpression {
	assume(!(len(args) == 1 && isColumns(args[0])))
	list := []stmt.SelectExpression{}
	for _, arg := range args {
		switch v := arg.(type) {
		case stmt.SelectExpression:
			must(!v.IsEmpty())
			list = append(list, v)
		case string:
			for _, name := range strings.Split(v, ",") {
				name = strings.TrimSpace(name)
				must(name != "")
				list = append(list, stmt.Column{Name: name})
			}
		default:
			panic("")
		}
	}
	return list
}

func Q_C23_selectExpressionsGiven(list []stmt.SelectExpression) []stmt.SelectExpression {
	return builder.ToSelectExpressions([]interface{}{list})
}
func S_C23_selectExpressionsGiven(list []stmt.SelectExpression) []stmt.SelectExpression {
	for _, e := range list {
		must(e != nil && !e.IsEmpty())
	}
	return append([]stmt.SelectExpression{}, list...)
}

func Q_C23_selectColumns(list []stmt.Column) []stmt.SelectExpression {
	return builder.ToSelectExpressions([]interface{}{list})
}
func S_C23_selectColumns(list []stmt.Column) []stmt.SelectExpression {
	columns := []stmt.SelectExpression{}
	for _, c := range list {
		must(c.Name != "")
		columns = append(columns, c)
	}
	return columns
}

func Q_C23_selectNames(list []string) []stmt.SelectExpression {
	return builder.ToSelectExpressions([]interface{}{list})
}
func S_C23_selectNames(list []string) []stmt.SelectExpression {
	columns := []stmt.SelectExpression{}
	for _, name := range list {
		must(name != "")
		columns = append(columns, stmt.Column{Name: name})
	}
	return columns
}

func Q_C23_from(args []interface{}) stmt.From { return builder.ToFrom(args...) }
func S_C23_from(args []interface{}) stmt.From {
	tables := []stmt.Statement{}
	for _, arg := range args {
		switch v := arg.(type) {
		case string:
			tables = append(tables, stmt.Table{Name: v})
		case stmt.Table:
			tables = append(tables, v)
		case stmt.Raw:
			tables = append(tables, v)
		case stmt.From:
			tables = append(tables, v.Tables...)
		default:
			panic("")
		}
	}
	must(len(tables) != 0)
	for _, t := range tables {
		must(t != nil && !t.IsEmpty())
	}
	return stmt.From{Tables: tables}
}
