package zzverifspec

import (
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
)

// Functions explored by themselves: X_<rule>_… calls what is explored.

func X_C05_mergeSet(set stmt.Set, x interface{}) stmt.Set {
	return builder.MergeSet(set, []interface{}{x})
}

func X_C05_toSet(x interface{}) stmt.Set { return builder.ToSet([]interface{}{x}) }

// An INSERT without action has no target: OnConflict, the only one to set
// either, sets both or panics (C24_insertOnConflict).
func X_C05_insertOnConflict(b builder.Insert, args []interface{}) builder.Insert {
	assume(b.Statement().(stmt.Insert).OnConflict.Target.Columns == nil)
	return b.OnConflict(args...)
}
