// Package zzverifspec states what the packages of loukoum are expected to do.
// It is never executed: the analyser compares each Q_x (the code under analysis)
// with S_x (what is expected of it).
package zzverifspec

import (
	"strings"

	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// quoted is the expected rendering of an identifier.
func quoted(name string) string {
	parts := strings.Split(name, ".")
	for i := range parts {
		parts[i] = `"` + strings.ReplaceAll(parts[i], `"`, `""`) + `"`
	}
	return strings.Join(parts, ".")
}

func Q_C03_column(c stmt.Column, ctx types.Context) { c.Write(ctx) }
func S_C03_column(c stmt.Column, ctx types.Context) {
	ctx.Write(quoted(c.Name))
	if c.Alias != "" {
		ctx.Write(" AS ")
		ctx.Write(quoted(c.Alias))
	}
}

func Q_C27_comment(c stmt.Comment, ctx types.Context) { c.Write(ctx) }
func S_C27_comment(c stmt.Comment, ctx types.Context) {
	if c.Comment != "" {
		ctx.Write("-- " + strings.NewReplacer("\n", " ", "\r", " ").Replace(c.Comment))
	}
}

// assume restricts the inputs that are considered.
func assume(bool) {}
