package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Package variables: after initialisation neither they nor what they refer to
// is written, and no reference through which a caller could write escapes.

type stateCheck struct {
	r     *Report
	seen  map[ssa.Value]bool
	bad   map[string]bool
	reads int
}

func (r *Report) packageState(rule string) {
	w := r.w
	var globals []*ssa.Global
	for path, p := range w.SSA {
		if path == specPath || p == nil {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
				globals = append(globals, g)
			}
		}
	}
	sort.Slice(globals, func(i, j int) bool { return globals[i].String() < globals[j].String() })
	uses := map[*ssa.Global][]ssa.Instruction{}
	for _, fn := range w.Funcs {
		if isInit(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						uses[g] = append(uses[g], in)
					}
				}
			}
		}
	}
	for _, g := range globals {
		c := &stateCheck{r: r, seen: map[ssa.Value]bool{}, bad: map[string]bool{}}
		key := rule + "/" + strings.ReplaceAll(g.String(), repoModule+"/", "")
		n := len(r.Violations)
		for _, in := range uses[g] {
			c.use(key, in, g, true)
		}
		if len(r.Violations) == n {
			r.ok(key, fmt.Sprintf("%s is only read (%d uses)", w.pos(g.Pos()), len(uses[g])))
		}
	}
	// Variables of other modules are state as well.
	for _, fn := range w.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g := globalOf(st.Addr); g != nil && w.globalIDs[g] == 0 {
						r.bad(rule+"/"+w.fnName(fn), w.pos(posOf(in))+" "+w.fnName(fn), "writes %s", g)
					}
				}
			}
		}
	}
	r.count("package variables", len(globals))
}

func isInit(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
}

func globalOf(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func (c *stateCheck) flag(key string, in ssa.Instruction, format string, a ...any) {
	where := c.r.w.pos(posOf(in)) + " " + c.r.w.fnName(in.Parent())
	s := fmt.Sprintf(format, a...)
	if c.bad[where+s] {
		return
	}
	c.bad[where+s] = true
	c.r.bad(key+"@"+c.r.w.fnName(in.Parent()), where, "%s", s)
}

// shares: can memory be written through a value of this type?
func shares(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Chan, *types.Pointer:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if shares(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return shares(u.Elem())
	}
	return false
}

// immutable types of the standard library.
func immutable(t types.Type) bool {
	switch types.TypeString(t, nil) {
	case "*strings.Replacer", "*regexp.Regexp", "reflect.Type", "*reflect.rtype", "*time.Location":
		return true
	}
	return false
}

// flow follows a reference (or an address, if addr) through its uses.
func (c *stateCheck) flow(key string, v ssa.Value, addr bool) {
	if c.seen[v] {
		return
	}
	c.seen[v] = true
	if !addr && (!shares(v.Type()) || immutable(v.Type())) {
		return
	}
	if v.Referrers() == nil {
		return
	}
	for _, in := range *v.Referrers() {
		c.use(key, in, v, addr)
	}
}

func (c *stateCheck) use(key string, in ssa.Instruction, v ssa.Value, addr bool) {
	c.reads++
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		if x.Op == token.MUL {
			c.flow(key, x, false)
		}
	case *ssa.Store:
		if x.Addr == v {
			c.flag(key, in, "writes to it")
		} else if !immutable(v.Type()) && addr || shares(v.Type()) {
			// Kept in a local variable?
			if a, ok := x.Addr.(*ssa.Alloc); ok && !addr {
				for _, u := range *a.Referrers() {
					if l, ok := u.(*ssa.UnOp); ok {
						c.flow(key, l, false)
					} else if u != in {
						c.flag(key, in, "a reference to it is kept")
					}
				}
				return
			}
			c.flag(key, in, "a reference to it is kept")
		}
	case *ssa.FieldAddr, *ssa.IndexAddr:
		c.flow(key, in.(ssa.Value), true)
	case *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Extract, *ssa.Phi, *ssa.ChangeType, *ssa.Convert, *ssa.Slice, *ssa.Next, *ssa.TypeAssert, *ssa.ChangeInterface:
		if u, ok := x.(*ssa.Lookup); ok && u.Index == v {
			return
		}
		c.flow(key, in.(ssa.Value), false)
	case *ssa.Range:
		c.flow(key, x, false)
	case *ssa.MakeInterface:
		if !immutable(v.Type()) {
			c.flag(key, in, "a reference to it is passed on as an interface")
		}
	case *ssa.BinOp, *ssa.If, *ssa.Panic:
	case *ssa.MapUpdate:
		if x.Map == v {
			c.flag(key, in, "writes to its map")
		} else {
			c.flag(key, in, "a reference to it is kept")
		}
	case *ssa.Return:
		fn := in.Parent()
		if token.IsExported(fn.Name()) {
			c.flag(key, in, "returns a reference to it, through which it can be written")
			return
		}
		c.callers(key, fn, in)
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if b == v {
				c.flow(key, fn.FreeVars[i], addr)
			}
		}
	case ssa.CallInstruction:
		com := x.Common()
		if com.Value == v {
			return // a function value
		}
		if b, ok := com.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "print", "println":
			case "append":
				if com.Args[0] == v {
					c.flag(key, in, "appends to it")
				}
				// as the source its elements are copied
			case "copy":
				if com.Args[0] == v {
					c.flag(key, in, "copies into it")
				}
			default:
				c.flag(key, in, "%s of it", b.Name())
			}
			return
		}
		g := com.StaticCallee()
		if g == nil {
			c.flag(key, in, "a reference to it is passed to an unknown function")
			return
		}
		if inModule(g) && len(g.Blocks) > 0 {
			for i, a := range com.Args {
				if a == v {
					c.flow(key, g.Params[i], addr)
				}
			}
			return
		}
		if immutable(v.Type()) {
			return
		}
		if p := fnPkg(g); p != nil && !addr {
			switch p.Path() {
			case "strings", "strconv", "fmt", "unicode", "unicode/utf8", "errors", "regexp", "math", "bytes":
				return
			case "sort":
				if strings.HasPrefix(g.Name(), "Search") || strings.HasSuffix(g.Name(), "Sorted") {
					return
				}
			case "slices":
				if pureName("slices", g.Name()) {
					return
				}
			}
		}
		c.flag(key, in, "a reference to it is passed to %s", g)
	default:
		c.flag(key, in, "is used by %T, which is not understood", in)
	}
}

// callers continues at the calls of an unexported function.
func (c *stateCheck) callers(key string, fn *ssa.Function, in ssa.Instruction) {
	for _, g := range c.r.w.Funcs {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(*ssa.Call)
				if ok && call.Call.StaticCallee() == fn {
					c.flow(key, call, false)
					continue
				}
				for _, op := range i.Operands(nil) {
					if *op == ssa.Value(fn) && (!ok || call.Call.Value != *op) {
						c.flag(key, in, "returns a reference to it from a function used as a value")
					}
				}
			}
		}
	}
}
