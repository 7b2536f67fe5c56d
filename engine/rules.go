package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Rules that hold of every function of a kind, rather than against a
// specification.

// explore runs a function and reports faults of the analyser as undecided.
func (r *Report) explore(fn *ssa.Function, visit func(*side, *Op)) (why string) {
	defer func() {
		if e := recover(); e != nil {
			why = fmt.Sprint("analyser fault: ", e)
		}
	}()
	r.count("functions explored", 1)
	if os.Getenv("VT_DEBUG") != "" {
		t := time.Now()
		fmt.Fprintln(os.Stderr, "explore", fn)
		defer func() { fmt.Fprintln(os.Stderr, "  ", time.Since(t)) }()
	}
	f, p := r.w.Explore(fn, opaqueIn(fn), 100000, visit)
	r.count("case splits", p.splits)
	if f != nil {
		return f.why
	}
	return ""
}

// opaqueIn: what is opaque in a function does not include what it calls itself
// when it belongs to the specification.
func opaqueIn(fn *ssa.Function) map[string]bool {
	p := fnPkg(fn)
	if p == nil || p.Path() != specPath {
		return defaultOpaque
	}
	in := map[string]bool{}
	calledFrom(fn, in, map[*ssa.Function]bool{})
	set := map[string]bool{}
	for n := range defaultOpaque {
		set[n] = !in[n]
	}
	return set
}

// methodsOf lists the declared methods, with their bodies, of the types of a
// package, and its functions when free is set.
func (w *World) funcsOf(pkg string, exported bool) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range w.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != pkg || fn.Parent() != nil || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		if exported && !token.IsExported(fn.Name()) {
			continue
		}
		if fn.TypeParams().Len() > 0 || len(fn.TypeArgs()) > 0 {
			continue
		}
		out = append(out, fn)
	}
	return out
}

func (w *World) fnName(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), repoModule+"/", "")
}

// noMutation: no function writes to memory it was given, nor appends to a
// slice it was given in a way that may write to its array.
func (r *Report) noMutation(rule string, fns []*ssa.Function, retains bool) {
	for _, fn := range fns {
		name := r.w.fnName(fn)
		key := rule + "/" + name
		bad := ""
		var badPos token.Pos
		var where string
		rets := 0
		note := func(op *Op, s string) {
			if bad == "" {
				bad, badPos, where = s, op.pos, op.where
			}
		}
		why := r.explore(fn, func(sd *side, op *Op) {
			switch op.kind {
			case PMut:
				note(op, op.why+": "+op.term.String())
			case PRet:
				rets++
				if retains {
					if s := retained(fn, op); s != "" {
						note(op, s)
					}
				}
			}
		})
		switch {
		case bad != "":
			r.bad(key, r.w.pos(badPos)+" "+where, "%s", clip(bad))
		case why != "":
			r.bad(key, r.w.pos(fn.Pos())+" "+name, "not decided: %s", clip(why))
		default:
			r.ok(key, fmt.Sprintf("%s writes to no memory that it was given (%d ends)", r.w.pos(fn.Pos()), rets))
		}
	}
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "…"
	}
	return s
}

// retained names a slice or map of the arguments that the results refer to.
func retained(fn *ssa.Function, op *Op) string {
	recv := ""
	if len(fn.Params) > 0 && (fn.Signature.Recv() != nil || strings.HasPrefix(fn.Name(), "X_")) {
		recv = fn.Params[0].Name()
	}
	seen := map[*Term]bool{}
	objs := map[int]bool{}
	var walk func(t *Term, boxed bool) string
	var content func(t *Term) string
	// The content of a fresh slice: lists that are part of it are copied.
	content = func(t *Term) string {
		switch t.op {
		case OSym, OField, OCast, OApp, OIndex, ODeref:
			return ""
		case OSeq, OStar, OIte:
			args := t.args
			if t.op == OIte {
				args = args[1:]
			}
			for _, a := range args {
				if s := content(a); s != "" {
					return s
				}
			}
			return ""
		}
		return walk(t, false)
	}
	walk = func(t *Term, boxed bool) string {
		if seen[t] {
			return ""
		}
		seen[t] = true
		switch t.op {
		case OPtr, OSlice, OMap, OIter:
			if t.n > 0 && !objs[t.n] {
				objs[t.n] = true
				if o := op.st.heap[t.n]; o != nil && o.val != nil {
					switch o.val.op {
					case OSym, OField, OCast, OApp, OIndex, ODeref:
						if o.kind != KCell {
							return "" // a copy of all elements
						}
					}
					return walk(o.val, false)
				}
			}
			return ""
		case OSym, OCast, OApp, OIndex, OField, ODeref:
			if t.op == OApp && t.str != "subslice" {
				return ""
			}
			if t.typ != nil {
				if !boxed && holdsLists(t.typ) {
					if partOfExpression(t) {
						return "" // an expression, used as it is
					}
					if root := rootOf(t); root != "" && root != recv {
						return "the result refers to " + t.String() + ", which belongs to the caller"
					}
				}
			}
			return ""
		case OItem, OStruct, OIface, OTuple, OSeq, OStar, OIte, OPut, OBox, OSeqV, OMapV:
			if t.op == OSeq || t.op == OStar {
				return content(t)
			}
			for _, a := range t.args {
				if s := walk(a, t.op == OIface); s != "" {
					return s
				}
			}
		}
		return ""
	}
	for _, t := range op.raw {
		if s := walk(t, false); s != "" {
			return s
		}
	}
	return ""
}

// holdsLists tells whether a value of that type is, or directly holds, a slice
// or a map. (What is boxed in an interface is a value, bound or used as it is.)
func holdsLists(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsLists(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return holdsLists(u.Elem())
	}
	return false
}

// partOfExpression tells whether a term is an expression or an action, or a
// field of one: those are values, used as they are given.
func partOfExpression(t *Term) bool {
	for {
		if n, ok := t.typ.(*types.Named); ok {
			for _, m := range [...]string{"expression", "selectExpression", "conflictAction"} {
				if o, _, _ := types.LookupFieldOrMethod(n, true, n.Obj().Pkg(), m); o != nil {
					return true
				}
			}
		}
		if t.op != OField {
			return false
		}
		t = t.args[0]
	}
}

func rootOf(t *Term) string {
	for {
		switch t.op {
		case OSym:
			return t.str
		case OCast, OApp, OIndex, OField, ODeref:
			if len(t.args) == 0 || t.op == OApp && t.str != "subslice" {
				return "" // what other functions return is decided there
			}
			t = t.args[0]
		default:
			return ""
		}
	}
}

// exportedAPI: the functions and methods of the builders and of the facade.
// Those which are specified as a whole are explored by way of the X functions
// of the specification.
func (w *World) exportedAPI() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range append(w.funcsOf(repoModule+"/builder", true), w.funcsOf(repoModule, true)...) {
		if !defaultOpaque[fullName(fn)] && !byDriver[fullName(fn)] {
			out = append(out, fn)
		}
	}
	return append(out, w.drivers("C05")...)
}

// byDriver: functions explored by way of an X function that states what holds
// of every builder they are called on.
var byDriver = map[string]bool{
	"(" + repoModule + "/builder.Insert).OnConflict": true,
}

// drivers are the functions of the specification named X_<prefix>_….
func (w *World) drivers(prefix string) []*ssa.Function {
	var names []string
	for n := range w.Spec.Members {
		if strings.HasPrefix(n, "X_"+prefix+"_") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var out []*ssa.Function
	for _, n := range names {
		out = append(out, w.Spec.Members[n].(*ssa.Function))
	}
	return out
}

func (w *World) isStatement(n *types.Named) bool {
	p := w.SSA[repoModule+"/stmt"]
	if p == nil {
		return false
	}
	o := p.Pkg.Scope().Lookup("Statement")
	if o == nil {
		return false
	}
	i, ok := o.Type().Underlying().(*types.Interface)
	return ok && (types.Implements(n, i) || types.Implements(types.NewPointer(n), i))
}

// renderers: everything that renders, or asks whether it is empty.
func (w *World) renderers() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range w.funcsOf(repoModule+"/stmt", true) {
		if fn.Signature.Recv() == nil {
			continue
		}
		_, ptr := fn.Signature.Recv().Type().(*types.Pointer)
		if ptr && fn.Name() != "Write" && fn.Name() != "IsEmpty" {
			continue
		}
		// A helper type that is not a part of a statement is seen where it is used.
		if n := namedOf(fn.Signature.Recv().Type()); n != nil && !n.Obj().Exported() && !w.isStatement(n) {
			continue
		}
		out = append(out, fn)
	}
	for _, fn := range w.funcsOf(repoModule+"/builder", true) {
		switch fn.Name() {
		case "String", "Query", "NamedQuery", "Statement", "Comment", "Prefix", "Suffix":
			if fn.Signature.Recv() != nil {
				out = append(out, fn)
			}
		}
	}
	return out
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// noData: the texts a renderer writes are made of constants and of the strings
// of the statement (names, operators, raw fragments); nothing that a value
// given to be bound contains, and no rendering made apart, becomes text.
func (r *Report) noData(rule string, fns []*ssa.Function) {
	for _, fn := range fns {
		if fn.Name() != "Write" && !strings.HasPrefix(fn.Name(), "X_") {
			continue
		}
		name := r.w.fnName(fn)
		key := rule + "/" + name
		bad, where := "", ""
		var badPos token.Pos
		n, binds := 0, 0
		why := r.explore(fn, func(sd *side, op *Op) {
			switch op.kind {
			case PBind:
				binds++
			case PEmit:
				n++
				if d := dataIn(op.term, map[*Term]bool{}); d != nil && bad == "" {
					bad, badPos, where = fmt.Sprintf("writes the text %s, which contains %s", op.term, d), op.pos, op.where
				}
			}
		})
		r.count("texts written", n)
		r.count("values bound", binds)
		switch {
		case bad != "":
			r.bad(key, r.w.pos(badPos)+" "+where, "%s", clip(bad))
		case why != "":
			r.bad(key, r.w.pos(fn.Pos())+" "+name, "not decided: %s", clip(why))
		default:
			r.ok(key, fmt.Sprintf("%s: no text contains a value (%d texts, %d values bound)", r.w.pos(fn.Pos()), n, binds))
		}
	}
}

// dataIn finds a value to be bound inside a text.
func dataIn(t *Term, seen map[*Term]bool) *Term {
	if seen[t] {
		return nil
	}
	seen[t] = true
	if t.typ != nil && t.op != OField {
		if i, ok := t.typ.Underlying().(*types.Interface); ok && i.Empty() {
			return t
		}
	}
	switch t.op {
	case OTop:
		return t
	case OIface:
		return nil
	case OField:
		// The name of an identifier is a name, not a value.
		if n := namedOf(t.args[0].typ); n != nil && n.Obj().Name() == "Identifier" && inRepo(n.Obj().Pkg()) {
			return nil
		}
		if i, ok := t.typ.Underlying().(*types.Interface); ok && i.Empty() {
			return t
		}
	case OApp:
		for _, p := range []string{"after:", "m:", "rec:", "call:", "opaque:"} {
			if strings.HasPrefix(t.str, p) {
				return t
			}
		}
		if t.str == "is" {
			return nil
		}
	}
	for _, a := range t.args {
		if d := dataIn(a, seen); d != nil {
			return d
		}
	}
	return nil
}

// noImport: no function of the packages refers to anything of another one.
func (r *Report) noUse(rule, what string, pkgs []string, uses func(*ssa.Function, ssa.Instruction) string) {
	in := map[string]bool{}
	for _, p := range pkgs {
		in[p] = true
	}
	count := map[string]int{}
	instrs := map[string]int{}
	bad := map[string]bool{}
	for _, fn := range r.w.Funcs {
		p := fnPkg(fn)
		if p == nil || !in[p.Path()] {
			continue
		}
		count[p.Path()]++
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				instrs[p.Path()]++
				if u := uses(fn, i); u != "" {
					bad[p.Path()] = true
					r.bad(rule+"/"+r.w.fnName(fn), r.w.pos(posOf(i))+" "+r.w.fnName(fn), "%s", u)
				}
			}
		}
	}
	for _, p := range pkgs {
		r.count("functions scanned", count[p])
		if bad[p] {
			continue
		}
		if count[p] == 0 && p != repoModule+"/token" {
			r.bad(rule+"/"+p, "?", "no function of %s was found", p)
			continue
		}
		r.ok(rule+"/"+p, fmt.Sprintf("%s (%d functions, %d instructions)", what, count[p], instrs[p]))
	}
}

func inRepo(p *types.Package) bool {
	return p != nil && (p.Path() == repoModule || strings.HasPrefix(p.Path(), repoModule+"/"))
}

func callsInto(path string) func(*ssa.Function, ssa.Instruction) string {
	return func(fn *ssa.Function, in ssa.Instruction) string {
		for _, op := range in.Operands(nil) {
			if g, ok := (*op).(*ssa.Function); ok {
				if p := fnPkg(g); p != nil && p.Path() == path {
					return "refers to " + g.String()
				}
			}
		}
		return ""
	}
}

// contextUse: a context is only written to, bound to, and passed on.
func contextUse(fn *ssa.Function, in ssa.Instruction) string {
	isCtx := func(v ssa.Value) bool { return v != nil && isContext(v.Type()) && types.IsInterface(v.Type()) }
	concrete := func(t types.Type) bool {
		n := namedOf(t)
		return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == repoModule+"/types" && strings.HasSuffix(n.Obj().Name(), "Context") && !types.IsInterface(n)
	}
	switch x := in.(type) {
	case *ssa.TypeAssert:
		if isCtx(x.X) && !types.Identical(x.AssertedType, x.X.Type()) {
			return "tests the type of a context"
		}
		if concrete(x.AssertedType) {
			return "asserts a type of context"
		}
	case *ssa.ChangeInterface:
		if isCtx(x.X) {
			return "converts a context to another interface"
		}
	case *ssa.BinOp:
		if isCtx(x.X) || isCtx(x.Y) {
			if c, ok := x.Y.(*ssa.Const); !ok || c.Value != nil {
				return "compares contexts"
			}
		}
	case *ssa.Alloc:
		p := fnPkg(fn)
		if p != nil && p.Path() == repoModule+"/stmt" && concrete(x.Type().(*types.Pointer).Elem()) {
			return "makes a context of its own inside a rendering"
		}
	}
	return ""
}

// nondeterminism: sources of values that differ from run to run.
func nondeterminism(fn *ssa.Function, in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.Go:
		return "starts a goroutine"
	case *ssa.Select, *ssa.Send, *ssa.MakeChan:
		return "uses a channel"
	case *ssa.Convert:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
			if s, ok := x.X.Type().Underlying().(*types.Basic); ok && s.Kind() == types.UnsafePointer {
				return "uses an address as a number"
			}
		}
	}
	for _, op := range in.Operands(nil) {
		g, ok := (*op).(*ssa.Function)
		if !ok || g.Pkg == nil && g.Object() == nil {
			continue
		}
		p := fnPkg(g)
		if p == nil {
			continue
		}
		switch p.Path() {
		case "time":
			switch g.Name() {
			case "Now", "Since", "Until", "Local", "LoadLocation", "Sleep", "After", "Tick", "NewTimer", "NewTicker":
				return "refers to time." + g.Name()
			}
		case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash", "os", "os/user", "os/exec", "net", "runtime", "runtime/debug", "syscall":
			return "refers to " + g.String()
		case "reflect":
			switch g.Name() {
			case "Pointer", "UnsafePointer", "UnsafeAddr", "MapKeys", "MapRange", "Select":
				return "refers to reflect." + g.Name()
			}
		}
	}
	if c, ok := in.(ssa.CallInstruction); ok {
		for _, a := range c.Common().Args {
			if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
				return "formats an address"
			}
		}
	}
	return ""
}

// mapOrder: what a renderer writes does not depend on the order in which a map
// is iterated, but for what is sorted by a total order.
func (r *Report) mapOrder(rule string, fns []*ssa.Function) {
	for _, fn := range fns {
		name := r.w.fnName(fn)
		key := rule + "/" + name
		bad, where := "", ""
		var badPos token.Pos
		check := func(op *Op, t *Term) {
			if d := unordered(t, map[*Term]bool{}); d != nil && bad == "" {
				bad, badPos, where = fmt.Sprintf("%s depends on the order of %s", clip(t.String()), d), op.pos, op.where
			}
		}
		n := 0
		why := r.explore(fn, func(sd *side, op *Op) {
			switch op.kind {
			case PEmit, PBind, PWrite:
				n++
				check(op, op.term)
			case PRet:
				n++
				if fn.Name() != "MergeSet" && fn.Signature.Recv() == nil || fn.Name() == "Values" {
					check(op, op.term)
				}
			case PBranch:
				if d := unordered(op.term, map[*Term]bool{}); d != nil && fn.Name() == "Write" && bad == "" {
					check(op, op.term)
				}
			}
		})
		switch {
		case bad != "":
			r.bad(key, r.w.pos(badPos)+" "+where, "%s", clip(bad))
		case why != "":
			r.bad(key, r.w.pos(fn.Pos())+" "+name, "not decided: %s", clip(why))
		default:
			r.ok(key, fmt.Sprintf("%s: nothing depends on the order of a map (%d texts and values)", r.w.pos(fn.Pos()), n))
		}
	}
}

// unordered finds the keys of a map in the order of an iteration.
func unordered(t *Term, seen map[*Term]bool) *Term {
	if seen[t] {
		return nil
	}
	seen[t] = true
	if t.op == OMapV {
		return nil
	}
	if t.op == OApp {
		switch t.str {
		case "keys":
			return t
		case "sorted":
			if len(t.args) == 2 {
				if o, ok := t.args[1].isStr(); ok && !strings.HasSuffix(o, "/unstable") && !strings.HasPrefix(o, "unknown") {
					return nil
				}
			}
		case "len":
			return nil
		}
	}
	for _, a := range t.args {
		if d := unordered(a, seen); d != nil {
			return d
		}
	}
	return nil
}

func (w *World) modulePkgs() []string {
	var out []string
	for p := range w.Pkgs {
		if p != specPath {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}
