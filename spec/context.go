package zzverifspec

import (
	"strconv"

	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/format"
	"github.com/ulule/loukoum/v3/types"
)

// C02: the i-th bound value is answered by the i-th placeholder.

func Q_C02_std(list []interface{}) (string, []interface{}) {
	ctx := &types.StdContext{}
	for _, v := range list {
		ctx.Bind(v)
	}
	return ctx.Query(), ctx.Values()
}
func S_C02_std(list []interface{}) (string, []interface{}) {
	text := ""
	var values []interface{}
	for i, v := range list {
		values = append(values, v)
		text += "$" + strconv.Itoa(i+1)
	}
	return text, values
}

func Q_C02_stdMixed(list []string, rows []interface{}) (string, []interface{}) {
	ctx := &types.StdContext{}
	for i, v := range rows {
		ctx.Write(list[i])
		ctx.Bind(v)
	}
	ctx.Write(list[0])
	return ctx.Query(), ctx.Values()
}
func S_C02_stdMixed(list []string, rows []interface{}) (string, []interface{}) {
	text := ""
	var values []interface{}
	for i, v := range rows {
		values = append(values, v)
		text += list[i] + "$" + strconv.Itoa(i+1)
	}
	return text + list[0], values
}

func Q_C02_named(first interface{}, list []interface{}) (string, map[string]interface{}) {
	ctx := &types.NamedContext{}
	ctx.Bind(first)
	for _, v := range list {
		ctx.Bind(v)
	}
	return ctx.Query(), ctx.Values()
}
func S_C02_named(first interface{}, list []interface{}) (string, map[string]interface{}) {
	text := ":arg_1"
	values := map[string]interface{}{"arg_1": first}
	for i, v := range list {
		values["arg_"+strconv.Itoa(i+2)] = v
		text += ":arg_" + strconv.Itoa(i+2)
	}
	return text, values
}

func Q_C02_named3(a, b, c interface{}) (string, map[string]interface{}) {
	ctx := &types.NamedContext{}
	ctx.Bind(a)
	ctx.Bind(b)
	ctx.Bind(c)
	return ctx.Query(), ctx.Values()
}
func S_C02_named3(a, b, c interface{}) (string, map[string]interface{}) {
	return ":arg_1:arg_2:arg_3", map[string]interface{}{"arg_1": a, "arg_2": b, "arg_3": c}
}

func Q_C04_raw(list []interface{}) string {
	ctx := &types.RawContext{}
	for _, v := range list {
		ctx.Bind(v)
	}
	return ctx.Query()
}
func S_C04_raw(list []interface{}) string {
	text := ""
	for _, v := range list {
		text += format.Value(v)
	}
	return text
}

func Q_C04_selectQuery(b builder.Select) (string, []interface{}) { return b.Query() }
func S_C04_selectQuery(b builder.Select) (string, []interface{}) {
	ctx := &types.StdContext{}
	b.Statement().Write(ctx)
	return ctx.Query(), ctx.Values()
}
func Q_C04_selectNamed(b builder.Select) (string, map[string]interface{}) { return b.NamedQuery() }
func S_C04_selectNamed(b builder.Select) (string, map[string]interface{}) {
	ctx := &types.NamedContext{}
	b.Statement().Write(ctx)
	return ctx.Query(), ctx.Values()
}
func Q_C04_selectString(b builder.Select) string { return b.String() }
func S_C04_selectString(b builder.Select) string {
	ctx := &types.RawContext{}
	b.Statement().Write(ctx)
	return ctx.Query()
}

func Q_C04_insertQuery(b builder.Insert) (string, []interface{}) { return b.Query() }
func S_C04_insertQuery(b builder.Insert) (string, []interface{}) {
	ctx := &types.StdContext{}
	b.Statement().Write(ctx)
	return ctx.Query(), ctx.Values()
}
func Q_C04_insertNamed(b builder.Insert) (string, map[string]interface{}) { return b.NamedQuery() }
func S_C04_insertNamed(b builder.Insert) (string, map[string]interface{}) {
	ctx := &types.NamedContext{}
	b.Statement().Write(ctx)
	return ctx.Query(), ctx.Values()
}
func Q_C04_insertString(b builder.Insert) string { return b.String() }
func S_C04_insertString(b builder.Insert) string {
	ctx := &types.RawContext{}
	b.Statement().Write(ctx)
	return ctx.Query()
}

func Q_C04_updateQuery(b builder.Update) (string, []interface{}) { return b.Query() }
func S_C04_updateQuery(b builder.Update) (string, []interface{}) {
	ctx := &types.StdContext{}
	b.Statement().Write(ctx)
	return ctx.Query(), ctx.Values()
}
func Q_C04_updateNamed(b builder.Update) (string, map[string]interface{}) { return b.NamedQuery() }
func S_C04_updateNamed(b builder.Update) (string, map[string]interface{}) {
	ctx := &types.NamedContext{}
	b.Statement().Write(ctx)
	return ctx.Query(), ctx.Values()
}
func Q_C04_updateString(b builder.Update) string { return b.String() }
func S_C04_updateString(b builder.Update) string {
	ctx := &types.RawContext{}
	b.Statement().Write(ctx)
	return ctx.Query()
}

func Q_C04_deleteQuery(b builder.Delete) (string, []interface{}) { return b.Query() }
func S_C04_deleteQuery(b builder.Delete) (string, []interface{}) {
	ctx := &types.StdContext{}
	b.Statement().Write(ctx)
	return ctx.Query(), ctx.Values()
}
func Q_C04_deleteNamed(b builder.Delete) (string, map[string]interface{}) { return b.NamedQuery() }
func S_C04_deleteNamed(b builder.Delete) (string, map[string]interface{}) {
	ctx := &types.NamedContext{}
	b.Statement().Write(ctx)
	return ctx.Query(), ctx.Values()
}
func Q_C04_deleteString(b builder.Delete) string { return b.String() }
func S_C04_deleteString(b builder.Delete) string {
	ctx := &types.RawContext{}
	b.Statement().Write(ctx)
	return ctx.Query()
}
