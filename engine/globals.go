package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Package variables are given the value their initialisers compute; the
// module never assigns them afterwards (a separate obligation checks that).

func (w *World) initGlobals() {
	w.globals = []*Obj{nil}
	w.globalIDs = map[*ssa.Global]int{}
	var paths []string
	for p := range w.SSA {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		pk := w.SSA[p]
		if pk == nil {
			continue
		}
		var names []string
		for n := range pk.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := pk.Members[n].(*ssa.Global); ok {
				et := g.Type().(*types.Pointer).Elem()
				w.globalIDs[g] = len(w.globals)
				w.globals = append(w.globals, &Obj{kind: KCell, typ: et, val: zero(et)})
			}
		}
	}
	w.initializing = true
	m := newMachine(w)
	st := &State{heap: map[int]*Obj{}}
	failed := map[*ssa.Package]bool{}
	for _, p := range paths {
		pk := w.SSA[p]
		if pk == nil || pk.Func("init") == nil {
			continue
		}
		st.frames = newState(pk.Func("init"), nil, nil).frames
		for {
			op := m.step(st)
			if op.kind == PMut && len(op.next) == 1 {
				continue
			}
			if op.kind != PRet {
				failed[pk] = true
				w.initFailed = append(w.initFailed, p+": "+op.why)
			}
			break
		}
	}
	vals := map[int]*Term{}
	for g, id := range w.globalIDs {
		o := w.globals[id]
		if failed[g.Pkg] {
			vals[id] = mkSym("var:"+g.String(), o.typ)
			continue
		}
		vals[id] = m.freeze(st, o.val)
	}
	for id, v := range vals {
		w.globals[id].val = v
	}
	w.initializing = false
}

func newMachine(w *World) *Machine {
	return &Machine{w: w, opaque: map[string]bool{}, loops: map[string]*LoopInfo{}, limit: 20_000_000, sum: map[string]*Term{}}
}
