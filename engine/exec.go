package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The abstract machine. A State is an abstract program state: a stack of
// frames over the term domain and a heap of abstract objects. step runs the
// transfer functions of straight-line code until something observable or
// undetermined happens.

type ObjKind uint8

const (
	KCell ObjKind = iota
	KArr
	KMap
	KIter
)

// Obj is an abstract object.
type Obj struct {
	kind     ObjKind
	typ      types.Type // element type of the allocation (cell), slice/array element type (arr), map type
	val      *Term
	nilEmpty bool // arr: the slice is nil when it is empty
	grown    bool // arr: another array shares this one's spare capacity
	exact    bool // arr: no spare capacity
	foreign  bool // arr: may be the array that a loop was given, which it does not own
}

type loopCtx struct {
	header int
	info   *LoopInfo // nil while the loop is unrolled
	count  int
	pend   bool // the loop is about to be analysed
	peel   bool // run the coming iteration as it is
	tried  bool // the first iteration was run apart, as it differs from the others
	last   bool // run the iteration that leaves the loop
}

type deferred struct {
	fn   *Term
	args []*Term
	call *ssa.CallCommon
}

// Frame is an activation of a function.
type Frame struct {
	fn     *ssa.Function
	blk    int
	idx    int
	env    map[ssa.Value]*Term
	defers []deferred
	loops  []loopCtx
	asm    map[*Term]bool // conditions settled for the current instruction
	ret    ssa.Value      // value of the caller that receives the result
	drop   bool           // result dropped (deferred call)
	arrive bool           // at a loop header, the arrival is not recorded yet
	depth  int
}

// State is an abstract program state.
type State struct {
	frames []*Frame
	heap   map[int]*Obj
	next   int
	dead   string // set when the state panics
	shown  bool   // the result is being rendered
}

func (st *State) clone() *State {
	n := &State{heap: make(map[int]*Obj, len(st.heap)), next: st.next, dead: st.dead, shown: st.shown}
	for k, o := range st.heap {
		c := *o
		n.heap[k] = &c
	}
	for _, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred{}, f.defers...)
		g.loops = append([]loopCtx{}, f.loops...)
		if f.asm != nil {
			g.asm = make(map[*Term]bool, len(f.asm))
			for k, v := range f.asm {
				g.asm[k] = v
			}
		}
		n.frames = append(n.frames, &g)
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) alloc(o *Obj) int {
	st.next++
	st.heap[st.next] = o
	return st.next
}

// OpKind classifies what step stopped at.
type OpKind uint8

const (
	PBranch OpKind = iota
	PEmit
	PBind
	PWrite
	PMut
	PLoop
	PIter
	PExit
	PRet
	PPanic
	PUndecided
	PVacuous
	PHead
)

var opNames = []string{"branch", "emit", "bind", "write", "mutate", "loop", "iterate", "leave", "return", "panic", "undecided", "vacuous", "head"}

// Op is the outcome of step.
type Op struct {
	kind  OpKind
	term  *Term
	next  []*State
	loop  *LoopInfo
	why   string
	pos   token.Pos
	where string
	raw   []*Term // PRet: the results before they are frozen, in st
	st    *State
}

// Machine holds what is common to the states of one analysis.
type Machine struct {
	w      *World
	root   *ssa.Function
	opaque map[string]bool
	render bool // the result is compared by its rendering
	sorted bool // maps of strings are gone through in the order of their keys
	loops  map[string]*LoopInfo
	steps  int
	limit  int
	prob   string // first problem met while summarising a loop
	infos  int
	sum    map[string]*Term

	stepped func(*ssa.Function) bool // loops run step by step (simulation)
}

type splitReq struct{ atom *Term }
type stopReq struct{ op *Op }

func (m *Machine) undecided(format string, a ...any) {
	panic(stopReq{&Op{kind: PUndecided, why: fmt.Sprintf(format, a...)}})
}

// pickAtom returns an atom of a formula.
func pickAtom(f *Term) *Term {
	if f.op == OIte {
		return pickAtom(f.args[0])
	}
	if f.op == OApp {
		switch f.str {
		case "not", "and":
			return pickAtom(f.args[0])
		}
	}
	return f
}

func (st *State) applyAsm(t *Term) *Term {
	f := st.top()
	if len(f.asm) == 0 {
		return t
	}
	mp := map[*Term]*Term{}
	for a, v := range f.asm {
		mp[a] = mkBool(v)
	}
	return substMap(t, mp, map[*Term]*Term{})
}

// cond settles a condition, splitting the state when it is open.
func (m *Machine) cond(st *State, f *Term) bool {
	f = st.applyAsm(f)
	if v, ok := f.isBool(); ok {
		return v
	}
	panic(splitReq{pickAtom(f)})
}

// head settles the conditions at the top of a value.
func (m *Machine) head(st *State, t *Term) *Term {
	t = st.applyAsm(t)
	if t.op == OIte {
		panic(splitReq{pickAtom(t.args[0])})
	}
	return t
}

// must panics the analysed program unless f holds.
func (m *Machine) must(st *State, f *Term, why string) {
	if !m.cond(st, f) {
		panic(stopReq{&Op{kind: PPanic, why: why}})
	}
}

func posOf(in ssa.Instruction) token.Pos {
	if p := in.Pos(); p.IsValid() {
		return p
	}
	if v, ok := in.(ssa.Value); ok {
		if rs := v.Referrers(); rs != nil {
			for _, r := range *rs {
				if r.Pos().IsValid() {
					return r.Pos()
				}
			}
		}
	}
	return token.NoPos
}

// position returns a readable location of the state: the innermost frame of
// the repository, with its function.
func (m *Machine) position(st *State) (token.Pos, string) {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if p := fnPkg(f.fn); p != nil && p.Path() == specPath && i > 0 {
			continue
		}
		blk := f.fn.Blocks[f.blk]
		pos := token.NoPos
		idx := f.idx
		if idx >= len(blk.Instrs) {
			idx = len(blk.Instrs) - 1
		}
		for j := idx; j >= 0 && !pos.IsValid(); j-- {
			pos = posOf(blk.Instrs[j])
		}
		for j := idx; j < len(blk.Instrs) && !pos.IsValid(); j++ {
			pos = posOf(blk.Instrs[j])
		}
		if !pos.IsValid() {
			pos = f.fn.Pos()
		}
		if pos.IsValid() {
			return pos, f.fn.RelString(nil)
		}
	}
	return token.NoPos, ""
}

// step runs st (which it owns) to its next operation.
func (m *Machine) step(st *State) (op *Op) {
	defer func() {
		if op != nil && op.pos == token.NoPos {
			op.pos, op.where = m.position(st)
		}
	}()
	if st.dead != "" {
		return &Op{kind: PPanic, why: st.dead}
	}
	for n := 0; ; n++ {
		m.steps++
		if n > 20000 || m.steps > m.limit {
			return &Op{kind: PUndecided, why: "analysis budget exhausted"}
		}
		if op := m.safeInstr(st); op != nil {
			return op
		}
	}
}

func (m *Machine) safeInstr(st *State) (op *Op) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case splitReq:
				a, b := st.clone(), st
				for i, s := range []*State{a, b} {
					f := s.top()
					if f.asm == nil {
						f.asm = map[*Term]bool{}
					}
					f.asm[x.atom] = i == 0
				}
				op = &Op{kind: PBranch, term: x.atom, next: []*State{a, b}}
				op.pos, op.where = m.position(st)
			case stopReq:
				op = x.op
			default:
				panic(r)
			}
		}
	}()
	return m.instr(st)
}

func (f *Frame) adv() { f.idx++; f.asm = nil }

func (m *Machine) value(st *State, f *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zero(v.Type())
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mkConst(constant.ToFloat(v.Value), v.Type())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Function:
		return mk(OFunc, nil, v.String(), 0, nil, v)
	case *ssa.Global:
		return m.global(v)
	case *ssa.Builtin:
		return mk(OFunc, nil, "builtin:"+v.Name(), 0, nil, nil)
	}
	t, ok := f.env[v]
	if !ok {
		m.undecided("value %s of %s is not available", v.Name(), f.fn)
	}
	return t
}

// instr executes one instruction; nil means carry on.
func (m *Machine) instr(st *State) *Op {
	f := st.top()
	blk := f.fn.Blocks[f.blk]
	visited[blk] = true
	if f.idx >= len(blk.Instrs) {
		m.undecided("fell off block")
	}
	if f.arrive {
		f.arrive = false
		if op := m.atHeader(f, loopsOf(f.fn)[f.blk]); op != nil {
			op.next = []*State{st}
			return op
		}
	}
	if n := len(f.loops); n > 0 && f.loops[n-1].pend {
		return m.decideLoop(st, f)
	}
	in := blk.Instrs[f.idx]
	get := func(v ssa.Value) *Term { return m.value(st, f, v) }
	set := func(v ssa.Value, t *Term) { f.env[v] = t; f.adv() }
	switch in := in.(type) {
	case *ssa.DebugRef:
		f.adv()
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		set(in, mk(OPtr, in.Type(), "", m.allocFor(st, et), nil, nil))
	case *ssa.Phi:
		m.undecided("stray phi")
	case *ssa.Store:
		p := m.head(st, get(in.Addr))
		op := m.store(st, p, get(in.Val))
		f.adv()
		return op
	case *ssa.UnOp:
		x := get(in.X)
		switch in.Op {
		case token.MUL:
			set(in, m.load(st, m.head(st, x), in.Type()))
		case token.NOT:
			set(in, mkNot(x))
		case token.SUB:
			if isIntTerm(x) {
				set(in, sub(mkInt(0), x))
			} else if x.op == OConst {
				set(in, mkConst(constant.UnaryOp(token.SUB, x.c, 0), in.Type()))
			} else {
				set(in, mkApp("neg", in.Type(), x))
			}
		case token.XOR:
			set(in, mkApp("compl", in.Type(), x))
		default:
			m.undecided("channel operation")
		}
	case *ssa.BinOp:
		set(in, m.binop(st, in, get(in.X), get(in.Y)))
	case *ssa.FieldAddr:
		p := m.head(st, get(in.X))
		m.notNil(st, p, "nil dereference")
		set(in, m.addr(p, mkInt(int64(in.Field)), in.Type()))
	case *ssa.Field:
		x := get(in.X)
		set(in, project(x, in.Field, in.Type()))
	case *ssa.IndexAddr:
		x := m.head(st, get(in.X))
		i := get(in.Index)
		et := in.Type().Underlying().(*types.Pointer).Elem()
		_ = et
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			m.notNil(st, x, "nil dereference")
			n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			m.bounds(st, i, mkInt(n))
			set(in, m.addr(x, item(i), in.Type()))
			break
		}
		m.bounds(st, i, m.length(st, x))
		set(in, m.elemAddr(st, x, i, in.Type()))
	case *ssa.Index:
		x := m.head(st, get(in.X))
		i := get(in.Index)
		if isStringTerm(x) {
			m.bounds(st, i, mkApp("len", tInt, x))
			set(in, mkApp("byteat", in.Type(), x, i))
			break
		}
		if a, ok := in.X.Type().Underlying().(*types.Array); ok {
			m.bounds(st, i, mkInt(a.Len()))
		}
		set(in, mkIndex(x, i, in.Type()))
	case *ssa.Extract:
		t := m.head(st, get(in.Tuple))
		if t.op != OTuple {
			m.undecided("tuple expected, got %s", t)
		}
		set(in, t.args[in.Index])
	case *ssa.ChangeType:
		x := get(in.X)
		set(in, x)
	case *ssa.ChangeInterface:
		set(in, get(in.X))
	case *ssa.MakeInterface:
		set(in, mkIface(in.X.Type(), get(in.X)))
	case *ssa.TypeAssert:
		m.typeAssert(st, f, in, m.head(st, get(in.X)))
	case *ssa.Convert:
		set(in, m.convert(st, get(in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		set(in, m.convert(st, get(in.X), in.X.Type(), in.Type()))
	case *ssa.MakeSlice:
		m.makeSlice(st, in, get(in.Len), get(in.Cap), set)
	case *ssa.MakeMap:
		id := st.alloc(&Obj{kind: KMap, typ: in.Type(), val: seq()})
		set(in, mk(OMap, in.Type(), "", id, nil, nil))
	case *ssa.MapUpdate:
		mp := m.head(st, get(in.Map))
		m.notNil(st, mp, "assignment to entry in nil map")
		k, v := get(in.Key), get(in.Value)
		if mp.op != OMap || mp.n < 0 {
			f.adv()
			return &Op{kind: PMut, term: mk(OTuple, nil, "", 0, nil, nil, mp, m.freeze(st, k), m.freeze(st, v)), why: "writes into a map it does not own", next: []*State{st}}
		}
		o := st.heap[mp.n]
		o.val = seq(o.val, mk(OPut, nil, "", 0, nil, nil, k, v))
		f.adv()
	case *ssa.Lookup:
		x := m.head(st, get(in.X))
		k := get(in.Index)
		if isStringTerm(x) {
			m.bounds(st, k, mkApp("len", tInt, x))
			set(in, mkApp("byteat", tInt, x, k))
			break
		}
		vt := in.X.Type().Underlying().(*types.Map).Elem()
		v, ok := m.lookup(st, x, k, vt)
		if in.CommaOk {
			set(in, mk(OTuple, nil, "", 0, nil, nil, v, ok))
		} else {
			set(in, v)
		}
	case *ssa.Range:
		x := m.head(st, get(in.X))
		id := st.alloc(&Obj{kind: KIter, typ: in.X.Type(), val: mkInt(0)})
		var over *Term
		if isStringTerm(x) {
			over = x
		} else {
			over = m.freezeMap(st, x)
		}
		set(in, mk(OIter, nil, "", id, nil, nil, over))
	case *ssa.Next:
		it := get(in.Iter)
		o := st.heap[it.n]
		pos, over := o.val, it.args[0]
		kt := in.Type().(*types.Tuple).At(1).Type()
		vt := in.Type().(*types.Tuple).At(2).Type()
		if in.IsString {
			if s, ok := over.isStr(); ok {
				if p, ok := pos.isInt(); ok {
					i := int64(0)
					res := mk(OTuple, nil, "", 0, nil, nil, tFalse, mkInt(0), mkInt(0))
					for b, r := range s {
						if i == p {
							res = mk(OTuple, nil, "", 0, nil, nil, tTrue, mkInt(int64(b)), mkInt(int64(r)))
							break
						}
						i++
					}
					o.val = add(pos, mkInt(1))
					set(in, res)
					break
				}
			}
			more := mkLt(pos, mkApp("runecount", tInt, over))
			o.val = add(pos, mkInt(1))
			set(in, mk(OTuple, nil, "", 0, nil, nil, more, mkApp("runeidx", tInt, over, pos), runeAt(over, pos)))
			break
		}
		more := mkLt(pos, m.mapLen(over))
		keys := mkApp("keys", nil, over)
		if b, ok := kt.Underlying().(*types.Basic); m.sorted && ok && b.Info()&types.IsString != 0 {
			keys = mk(OApp, nil, "sorted", 0, nil, nil, keys, mkStr("asc"))
		}
		key := mkIndex(keys, pos, kt)
		val := tNil
		if b, ok := vt.Underlying().(*types.Basic); !ok || b.Kind() != types.Invalid {
			val = mkApp("mapval", vt, over, key)
		}
		o.val = add(pos, mkInt(1))
		set(in, mk(OTuple, nil, "", 0, nil, nil, more, key, val))
	case *ssa.Slice:
		// make with a constant capacity is an array and a slice of it.
		if a, ok := in.X.(*ssa.Alloc); ok && a.Comment == "makeslice" && in.Low == nil && in.Max == nil {
			n := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			l := mkInt(n)
			if in.High != nil {
				l = get(in.High)
			}
			m.makeSlice(st, in, l, mkInt(n), set)
			break
		}
		set(in, m.slice(st, in, get))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, get(b))
		}
		set(in, mk(OFunc, nil, fn.String(), 0, nil, fn, bs...))
	case *ssa.If:
		c := m.cond(st, get(in.Cond))
		succ := 0
		if !c {
			succ = 1
		}
		return m.jump(st, f, blk.Succs[succ])
	case *ssa.Jump:
		return m.jump(st, f, blk.Succs[0])
	case *ssa.Return:
		var rs []*Term
		for _, r := range in.Results {
			rs = append(rs, get(r))
		}
		return m.ret(st, rs)
	case *ssa.Panic:
		return &Op{kind: PPanic, why: "panic"}
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			// The frame comes back to this instruction until none is left.
			defer func() {
				if e := recover(); e != nil {
					f.defers = append(f.defers[:n-1:n-1], d)
					panic(e)
				}
			}()
			return m.invoke(st, d.call, d.fn, d.args, nil)
		}
		f.adv()
	case *ssa.Defer:
		fn, args := m.callee(st, f, &in.Call)
		if fn == nil {
			m.notNil(st, args[0], "deferred method call on nil interface")
		} else if fn.op != OFunc || fn.fn != nil && recovers(fn.fn) {
			m.undecided("deferred call that may recover")
		}
		f.defers = append(f.defers, deferred{fn, args, &in.Call})
		f.adv()
	case *ssa.Call:
		fn, args := m.callee(st, f, &in.Call)
		return m.invoke(st, &in.Call, fn, args, in)
	default:
		m.undecided("unsupported instruction %T", in)
	}
	return nil
}

// recovers tells whether a function calls recover.
func recovers(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func (m *Machine) allocFor(st *State, et types.Type) int {
	if a, ok := et.Underlying().(*types.Array); ok {
		var content *Term
		if a.Len() <= 64 {
			items := make([]*Term, a.Len())
			for i := range items {
				items[i] = item(zero(a.Elem()))
			}
			content = seq(items...)
		} else {
			content = mk(OZeros, a.Elem(), "", 0, nil, nil, mkInt(a.Len()))
		}
		return st.alloc(&Obj{kind: KArr, typ: a.Elem(), val: content, exact: true})
	}
	return st.alloc(&Obj{kind: KCell, typ: et, val: zero(et)})
}

// --- memory

// Addresses: OPtr n>0: object n; n<0: package variable; n==0: memory of the
// caller, args[0] being its content. The remaining args are the path, fields
// as constants and indices as items.

func (m *Machine) addr(p, elem *Term, typ types.Type) *Term {
	if p.op == OPtr {
		return mk(OPtr, typ, "", p.n, nil, nil, append(append([]*Term{}, p.args...), elem)...)
	}
	// A symbolic pointer: memory of the caller.
	return mk(OPtr, typ, "", 0, nil, nil, m.deref(p), elem)
}

func (m *Machine) deref(p *Term) *Term {
	if p.op == OBox {
		return p.args[0]
	}
	var et types.Type
	if p.typ != nil {
		if pt, ok := p.typ.Underlying().(*types.Pointer); ok {
			et = pt.Elem()
		}
	}
	return mk(ODeref, et, "", 0, nil, nil, p)
}

func (m *Machine) elemAddr(st *State, s, i *Term, typ types.Type) *Term {
	switch s.op {
	case OSlice:
		if len(s.args) > 0 {
			i = add(i, s.args[0])
		}
		return mk(OPtr, typ, "", s.n, nil, nil, item(i))
	}
	base := s
	if s.op == OApp && s.str == "subslice" {
		base = s.args[0]
		i = add(i, s.args[1])
	}
	return mk(OPtr, typ, "", 0, nil, nil, base, item(i))
}

func (m *Machine) notNil(st *State, p *Term, why string) {
	switch p.op {
	case OPtr, OSlice, OMap, OFunc, OBox:
		return
	case ONil:
		panic(stopReq{&Op{kind: PPanic, why: why}})
	}
	m.must(st, mkNot(mkEq(tNil, p)), why)
}

func (m *Machine) bounds(st *State, i, n *Term) {
	if !linNonNeg(i) {
		m.must(st, mkNot(mkLt(i, mkInt(0))), "index out of range")
	}
	m.must(st, mkLt(i, n), "index out of range")
}

func pathGet(t *Term, path []*Term, typ types.Type) *Term {
	for k, p := range path {
		last := k == len(path)-1
		if p.op == OItem {
			var et types.Type
			if last {
				et = typ
			} else if t.typ != nil {
				et = elemType(t.typ)
			}
			t = mkIndex(t, p.args[0], et)
			continue
		}
		i, _ := p.isInt()
		var ft types.Type
		if s := structTypeOf(t); s != nil && int(i) < s.NumFields() {
			ft = s.Field(int(i)).Type()
		} else if last {
			ft = typ
		}
		if ft == nil {
			ft = typ
		}
		t = project(t, int(i), ft)
	}
	return t
}

func structTypeOf(t *Term) *types.Struct {
	if t.typ == nil {
		return nil
	}
	return structType(t.typ)
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	}
	return nil
}

func pathSet(t *Term, path []*Term, v *Term, typ types.Type) *Term {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.op == OItem {
		var et types.Type
		if typ != nil {
			et = elemType(typ)
		}
		if len(path) > 1 {
			v = pathSet(mkIndex(t, p.args[0], et), path[1:], v, et)
		}
		return seqSet(t, p.args[0], v)
	}
	i, _ := p.isInt()
	e := expand(t, typ)
	if e.op != OStruct || int(i) >= len(e.args) {
		return mkTop("write into an unknown structure", typ)
	}
	fs := append([]*Term{}, e.args...)
	var ft types.Type
	if s := structType(typ); s != nil {
		ft = s.Field(int(i)).Type()
	} else if a, ok := typ.Underlying().(*types.Array); ok {
		ft = a.Elem()
	}
	fs[i] = pathSet(fs[i], path[1:], v, ft)
	return mkStruct(typ, fs)
}

// seqSet replaces element i of a sequence.
func seqSet(s, i, v *Term) *Term {
	if s.op == OStruct {
		if k, ok := i.isInt(); ok && k >= 0 && int(k) < len(s.args) {
			as := append([]*Term{}, s.args...)
			as[k] = v
			return mk(OStruct, s.typ, "", 0, nil, nil, as...)
		}
	}
	parts := []*Term{s}
	if s.op == OSeq {
		parts = s.args
	}
	off := mkInt(0)
	for j, p := range parts {
		d := sub(i, off)
		if p.op == OItem {
			if d == mkInt(0) {
				out := append([]*Term{}, parts...)
				out[j] = item(v)
				return seq(out...)
			}
			off = add(off, mkInt(1))
			continue
		}
		if p.op == OZeros && d == mkInt(0) {
			out := append([]*Term{}, parts[:j]...)
			out = append(out, item(v), mk(OZeros, p.typ, "", 0, nil, nil, sub(p.args[0], mkInt(1))))
			out = append(out, parts[j+1:]...)
			return seq(out...)
		}
		off = add(off, seqLen(p))
	}
	return mkApp("upd", s.typ, s, i, v)
}

func (m *Machine) load(st *State, p *Term, typ types.Type) *Term {
	if p.op != OPtr {
		m.notNil(st, p, "nil dereference")
		return m.deref(p)
	}
	var base *Term
	path := p.args
	switch {
	case p.n == 0:
		base, path = p.args[0], p.args[1:]
	case p.n < 0:
		base = m.w.globals[-p.n].val
	default:
		o := st.heap[p.n]
		if o == nil {
			m.undecided("dangling object")
		}
		base = o.val
		if o.kind == KArr && len(path) == 0 {
			// Loading a whole array.
			if a, ok := typ.Underlying().(*types.Array); ok {
				fs := make([]*Term, a.Len())
				for i := range fs {
					fs[i] = mkIndex(base, mkInt(int64(i)), a.Elem())
				}
				return mk(OStruct, typ, "", 0, nil, nil, fs...)
			}
		}
	}
	return pathGet(base, path, typ)
}

func (m *Machine) store(st *State, p, v *Term) *Op {
	if p.op != OPtr {
		m.notNil(st, p, "nil dereference")
		return &Op{kind: PMut, term: mk(OTuple, nil, "", 0, nil, nil, p, m.freeze(st, v)), why: "writes through a pointer it does not own", next: []*State{st}}
	}
	if p.n <= 0 {
		if p.n < 0 && m.w.initializing {
			g := m.w.globals[-p.n]
			g.val = pathSet(g.val, p.args, v, g.typ)
			return nil
		}
		why := "writes into memory shared with its caller"
		if p.n < 0 {
			why = "writes into a package variable"
		}
		return &Op{kind: PMut, term: mk(OTuple, nil, "", 0, nil, nil, mk(OTuple, nil, "", 0, nil, nil, p.args...), m.freeze(st, v)), why: why, next: []*State{st}}
	}
	o := st.heap[p.n]
	if o.kind == KArr {
		if len(p.args) == 0 {
			// Whole array.
			if v.op == OStruct {
				var items []*Term
				for _, a := range v.args {
					items = append(items, item(a))
				}
				o.val = seq(items...)
				return nil
			}
			m.undecided("assignment of a symbolic array")
		}
		o.val = pathSet(o.val, p.args, v, types.NewSlice(o.typ))
		if o.foreign {
			return &Op{kind: PMut, term: mk(OTuple, nil, "", 0, nil, nil, mk(OTuple, nil, "", 0, nil, nil, p.args...), m.freeze(st, v)), why: "writes into a slice it does not own", next: []*State{st}}
		}
		return nil
	}
	o.val = pathSet(o.val, p.args, v, o.typ)
	return nil
}

func (m *Machine) global(g *ssa.Global) *Term {
	id, ok := m.w.globalIDs[g]
	if !ok {
		// A variable of another module.
		return mk(OPtr, g.Type(), "", 0, nil, nil, mkSym("var:"+g.String(), g.Type().(*types.Pointer).Elem()))
	}
	return mk(OPtr, g.Type(), "", -id, nil, nil)
}

// content returns a slice value as a sequence.
func (m *Machine) content(st *State, s *Term) *Term {
	switch s.op {
	case ONil:
		return seq()
	case OSlice:
		var o *Obj
		if s.n < 0 {
			o = m.w.globals[-s.n]
		} else {
			o = st.heap[s.n]
		}
		if o == nil {
			m.undecided("dangling array")
		}
		if len(s.args) == 0 {
			return o.val
		}
		return subseq(o.val, s.args[0], s.args[1])
	case OApp:
		if s.str == "subslice" {
			return subseq(s.args[0], s.args[1], s.args[2])
		}
	case OSeqV:
		return s.args[0]
	}
	return s
}

func subseq(s, lo, hi *Term) *Term {
	n := seqLen(s)
	if lo == mkInt(0) && hi == n {
		return s
	}
	if lo == hi {
		return seq()
	}
	if s.op == OApp && s.str == "subseq" {
		return subseq(s.args[0], add(s.args[1], lo), add(s.args[1], hi))
	}
	if s.op == OSeq {
		// The bounds fall between parts.
		off := mkInt(0)
		for i := 0; i <= len(s.args); i++ {
			if off == lo {
				rest := seq(s.args[i:]...)
				want := sub(hi, lo)
				if seqLen(rest) == want {
					return rest
				}
				var taken []*Term
				off := mkInt(0)
				for _, p := range rest.argsOrSelf() {
					if off == want {
						return seq(taken...)
					}
					off = add(off, partLen(p))
					taken = append(taken, p)
				}
				if off == want {
					return seq(taken...)
				}
				break
			}
			if i < len(s.args) {
				off = add(off, partLen(s.args[i]))
			}
		}
	}
	if s.op == OZeros {
		return mk(OZeros, s.typ, "", 0, nil, nil, sub(hi, lo))
	}
	return mkApp("subseq", nil, s, lo, hi)
}

func partLen(p *Term) *Term {
	if p.op == OItem {
		return mkInt(1)
	}
	return seqLen(p)
}

func (t *Term) argsOrSelf() []*Term {
	if t.op == OSeq {
		return t.args
	}
	return []*Term{t}
}

func (m *Machine) length(st *State, s *Term) *Term {
	switch s.op {
	case ONil:
		return mkInt(0)
	case OSlice:
		if len(s.args) > 0 {
			return sub(s.args[1], s.args[0])
		}
		return seqLen(m.content(st, s))
	case OApp:
		if s.str == "subslice" {
			return sub(s.args[2], s.args[1])
		}
	case OMap:
		return m.mapLen(m.freezeMap(st, s))
	}
	if isStringTerm(s) {
		return mkApp("len", tInt, s)
	}
	if s.typ != nil {
		if _, ok := s.typ.Underlying().(*types.Map); ok {
			return m.mapLen(s)
		}
	}
	return seqLen(s)
}

// chosen settles the conditions within a number.
func (m *Machine) chosen(st *State, t *Term) *Term {
	t = st.applyAsm(t)
	for {
		var at *Term
		for x := range toLin(t).ts {
			if x.op == OIte && (at == nil || x.id < at.id) {
				at = x
			}
		}
		if at == nil {
			return t
		}
		to := at.args[2]
		if m.cond(st, at.args[0]) {
			to = at.args[1]
		}
		t = subst(t, at, to)
	}
}

func (m *Machine) slice(st *State, in *ssa.Slice, get func(ssa.Value) *Term) *Term {
	x := m.head(st, get(in.X))
	if isStringTerm(x) {
		n := mkApp("len", tInt, x)
		lo, hi := mkInt(0), n
		if in.Low != nil {
			lo = get(in.Low)
		}
		if in.High != nil {
			hi = get(in.High)
		}
		lo, hi = m.chosen(st, lo), m.chosen(st, hi)
		if t, found, ok := cutSlice(x, lo, hi, n); ok {
			m.must(st, found, "slice bounds out of range")
			return t
		}
		m.must(st, mkNot(mkLt(hi, lo)), "slice bounds out of range")
		m.must(st, mkNot(mkLt(lo, mkInt(0))), "slice bounds out of range")
		m.must(st, mkNot(mkLt(n, hi)), "slice bounds out of range")
		if lo == mkInt(0) && hi == n {
			return x
		}
		if s, ok := x.isStr(); ok {
			a, ok1 := lo.isInt()
			b, ok2 := hi.isInt()
			if ok1 && ok2 {
				return mkStr(s[a:b])
			}
		}
		return mkApp("substr", tString, x, lo, hi)
	}
	typ := in.Type()
	if x.op == OPtr {
		// Slicing an array.
		if x.n == 0 || len(x.args) > 0 {
			m.undecided("slice of an embedded array")
		}
		x = mk(OSlice, typ, "", x.n, nil, nil)
	}
	n := m.length(st, x)
	lo, hi := mkInt(0), n
	if in.Low != nil {
		lo = get(in.Low)
	}
	if in.High != nil {
		hi = get(in.High)
	}
	m.must(st, mkNot(mkLt(hi, lo)), "slice bounds out of range")
	m.must(st, mkNot(mkLt(lo, mkInt(0))), "slice bounds out of range")
	if hi != n {
		// Reslicing beyond the length reaches spare capacity: not modelled.
		if m.cond(st, mkLt(n, hi)) {
			m.undecided("slice beyond length")
		}
	}
	clip := false
	if in.Max != nil {
		mx := get(in.Max)
		m.must(st, mkNot(mkLt(mx, hi)), "slice bounds out of range")
		clip = mx == hi
	}
	if x.op == ONil {
		return x
	}
	if x.op == OSlice {
		o := st.heap[x.n]
		if x.n > 0 && o != nil && lo == mkInt(0) && hi == n {
			if clip && len(x.args) == 0 && !o.grown && !o.foreign {
				o.exact = true
				return x
			}
			if !clip {
				return x
			}
		}
		base := mkInt(0)
		if len(x.args) > 0 {
			base = x.args[0]
		}
		tag := ""
		if clip {
			tag = "clip"
		}
		return mk(OSlice, typ, tag, x.n, nil, nil, add(base, lo), add(base, hi))
	}
	base := x
	off := mkInt(0)
	if x.op == OApp && x.str == "subslice" {
		base, off = x.args[0], x.args[1]
	}
	if !clip && lo == mkInt(0) && hi == n && base == x {
		return x
	}
	k := 0
	if clip {
		k = 1
	}
	return mk(OApp, typ, "subslice", k, nil, nil, base, add(off, lo), add(off, hi))
}

func (m *Machine) makeSlice(st *State, in ssa.Value, n, max *Term, set func(ssa.Value, *Term)) {
	et := in.Type().Underlying().(*types.Slice).Elem()
	var content *Term
	if k, ok := n.isInt(); ok && k >= 0 && k <= 64 {
		var items []*Term
		for i := int64(0); i < k; i++ {
			items = append(items, item(zero(et)))
		}
		content = seq(items...)
	} else {
		if !linNonNeg(n) {
			m.must(st, mkNot(mkLt(n, mkInt(0))), "makeslice: len out of range")
		}
		content = mk(OZeros, et, "", 0, nil, nil, n)
	}
	id := st.alloc(&Obj{kind: KArr, typ: et, val: content, exact: max == n})
	set(in, mk(OSlice, in.Type(), "", id, nil, nil))
}

// append_ models append(s, parts...).
func (m *Machine) append_(st *State, s *Term, parts *Term, typ types.Type) (*Term, *Op) {
	et := typ.Underlying().(*types.Slice).Elem()
	if isEmptySeq(parts) {
		return s, nil
	}
	content := m.content(st, s)
	nilEmpty := s.op == ONil
	var op *Op
	switch s.op {
	case ONil:
	case OSlice:
		o := m.objOf(st, s)
		full := len(s.args) == 0
		switch {
		case s.n < 0:
			op = &Op{kind: PMut, term: s, why: "appends to a package variable's array"}
		case s.str == "clip", full && o.exact:
		case o.foreign:
			op = &Op{kind: PMut, term: mk(OTuple, nil, "", 0, nil, nil, m.freeze(st, s)), why: "appends to a slice it does not own (its spare capacity may be shared)"}
		case full && !o.grown:
			o.grown = true
		case isEmptySeq(content) && full && o.exact:
		default:
			// Spare capacity may be shared with another slice.
			op = &Op{kind: PMut, term: mk(OTuple, nil, "", 0, nil, nil, m.freeze(st, s)), why: "appends over elements another slice may hold"}
		}
		nilEmpty = nilEmpty || o.nilEmpty
	default:
		clipped := s.op == OApp && s.str == "subslice" && s.n == 1
		fresh := s.op == OSeqV || s.op == OApp && (s.str == "split" || s.str == "fields" || s.str == "bytes" || s.str == "runes" || s.str == "keys" || s.str == "sorted")
		if !clipped && !fresh {
			if m.cond(st, mkEq(tNil, s)) {
				nilEmpty = true
				content = seq()
			} else {
				op = &Op{kind: PMut, term: mk(OTuple, nil, "", 0, nil, nil, m.freeze(st, s)), why: "appends to a slice it does not own (its spare capacity may be shared)"}
			}
		}
	}
	nc := seq(content, parts)
	id := st.alloc(&Obj{kind: KArr, typ: et, val: nc, nilEmpty: nilEmpty || isEmptySeq(content)})
	return mk(OSlice, typ, "", id, nil, nil), op
}

// borrowed: appending to the slice may write to an array that it shares.
func (m *Machine) borrowed(st *State, s *Term) bool {
	switch s.op {
	case ONil, OSeqV:
		return false
	case OSlice:
		o := m.objOf(st, s)
		if s.str == "clip" || o.exact && len(s.args) == 0 {
			return false
		}
		return s.n < 0 || o.foreign || o.grown || len(s.args) > 0
	case OApp:
		switch s.str {
		case "split", "fields", "bytes", "runes", "keys", "sorted":
			return false
		case "subslice":
			return s.n != 1
		}
	}
	return true
}

func (m *Machine) objOf(st *State, s *Term) *Obj {
	if s.n < 0 {
		return m.w.globals[-s.n]
	}
	return st.heap[s.n]
}

// --- maps

// freezeMap turns a map reference into a map value.
func (m *Machine) freezeMap(st *State, x *Term) *Term {
	switch x.op {
	case OMap:
		log := m.objOf(st, x).val
		return mkMapV(m.freeze(st, log))
	case ONil:
		return mkMapV(seq())
	}
	return x
}

// keysOf returns the map k is one of the keys of.
func keysOf(k *Term) *Term {
	if k.op != OIndex || k.args[0].op != OApp {
		return nil
	}
	t := k.args[0]
	if t.str == "sorted" && t.args[0].op == OApp {
		t = t.args[0]
	}
	if t.str != "keys" {
		return nil
	}
	return t.args[0]
}

func mkMapV(log *Term) *Term {
	if log.op == OStar {
		// eta: the copy of a map is that map.
		if k, ok := fixedItems1(log.args[1]); ok && k.op == OPut {
			key, val := k.args[0], k.args[1]
			if src := keysOf(key); src != nil {
				if key.args[1] == boundVar(log.args[1].h) && val.op == OApp && val.str == "mapval" && val.args[0] == src && val.args[1] == key {
					return src
				}
			}
		}
	}
	if log.op == OMapV {
		return log
	}
	return mk(OMapV, nil, "", 0, nil, nil, log)
}

// fixedItems1 returns the only part of a one-part sequence.
func fixedItems1(b *Term) (*Term, bool) {
	if b.op == OSeq {
		if len(b.args) == 1 {
			return b.args[0], true
		}
		return nil, false
	}
	return b, true
}

func (m *Machine) mapLen(mv *Term) *Term {
	if mv.op == OMapV {
		if n, ok := logLen(mv.args[0]); ok {
			return n
		}
	}
	return mk(OApp, tInt, "len", 0, nil, nil, mv)
}

// logLen counts the entries of a log whose keys are known to be distinct.
func logLen(log *Term) (*Term, bool) {
	n := mkInt(0)
	var keys []*Term
	for _, p := range log.argsOrSelf() {
		switch p.op {
		case OPut:
			for _, k := range keys {
				if v, ok := mkEq(k, p.args[0]).isBool(); !ok || v {
					return nil, false
				}
			}
			keys = append(keys, p.args[0])
			n = add(n, mkInt(1))
		case OStar:
			b, ok := fixedItems1(p.args[1])
			if !ok || b.op != OPut || !injective(b.args[0], boundVar(p.args[1].h)) {
				return nil, false
			}
			for _, k := range keys {
				if !avoids(b.args[0], boundVar(p.args[1].h), k) {
					return nil, false
				}
			}
			n = add(n, p.args[0])
			keys = append(keys, mkTop("earlier keys", nil))
		default:
			return nil, false
		}
	}
	return n, true
}

// avoids: no value of v >= 0 gives c, for t a text around the number v+k.
func avoids(t, v, c *Term) bool {
	s, ok := c.isStr()
	if !ok || t.op != OCat {
		return false
	}
	for i, a := range t.args {
		p, ok := a.isStr()
		if ok {
			if !strings.HasPrefix(s, p) {
				return true
			}
			s = s[len(p):]
			continue
		}
		if i != len(t.args)-1 || a.op != OApp || a.str != "itoa" {
			return false
		}
		k, ok := sub(a.args[0], v).isInt()
		x, err := strconv.ParseInt(s, 10, 64)
		return ok && (err != nil || x < k)
	}
	return false
}

// injective: different values of v give different values of t.
func injective(t, v *Term) bool {
	switch t.op {
	case OSym:
		return t == v
	case OLin:
		hit := false
		for _, a := range t.args {
			if a == v {
				hit = true
			} else if mentions(a, v) {
				return false
			}
		}
		return hit
	case OCat:
		n := 0
		for _, a := range t.args {
			if mentions(a, v) {
				if !injective(a, v) {
					return false
				}
				n++
			}
		}
		return n == 1
	case OApp:
		switch t.str {
		case "itoa":
			return injective(t.args[0], v)
		case "acckey":
			return true
		}
	case OIface:
		return injective(t.args[0], v)
	case OIndex:
		return keysOf(t) != nil && t.args[1] == v
	}
	return false
}

// keySet is log with every value replaced by true, and whether they all were.
func keySet(log *Term) (*Term, bool) {
	switch log.op {
	case OPut:
		return mk(OPut, log.typ, log.str, log.n, log.c, log.fn, log.args[0], tTrue), log.args[1] == tTrue
	case OSeq, OIte, OStar:
		all := true
		as := make([]*Term, len(log.args))
		for i, a := range log.args {
			as[i] = a
			if i == 0 && log.op != OSeq {
				continue
			}
			var set bool
			if log.op == OStar {
				// The bound variable is named after the height of the body.
				fr := freshVar()
				as[i], set = keySet(subst(a, boundVar(a.h), fr))
				as[i] = subst(as[i], fr, boundVar(as[i].h))
			} else {
				as[i], set = keySet(a)
			}
			all = all && set
		}
		return rebuild(log, as), all
	}
	return log, isEmptySeq(log)
}

func (m *Machine) lookup(st *State, x, k *Term, vt types.Type) (*Term, *Term) {
	if x.op == ONil {
		return zero(vt), tFalse
	}
	if x.op == OMap {
		log := m.objOf(st, x).val
		parts := log.argsOrSelf()
		if isEmptySeq(log) {
			parts = nil
		}
		for i := len(parts) - 1; i >= 0; i-- {
			p := parts[i]
			if p.op != OPut {
				mv := mkMapV(m.freeze(st, seq(parts[:i+1]...)))
				if mv.op != OMapV {
					return mkApp("mapval", vt, mv, k), mkApp("maphas", tBool, mv, k)
				}
				// Whether it is there does not depend on the values.
				keys, set := keySet(mv.args[0])
				has := mkApp("maphas", tBool, mkMapV(keys), k)
				if set && isBoolTerm(zero(vt)) {
					return has, has
				}
				return mkApp("mapval", vt, mv, k), has
			}
			if m.cond(st, mkEq(p.args[0], k)) {
				return p.args[1], tTrue
			}
		}
		return zero(vt), tFalse
	}
	if x.op == OMapV {
		parts := x.args[0].argsOrSelf()
		if isEmptySeq(x.args[0]) {
			parts = nil
		}
		plain := true
		for _, p := range parts {
			plain = plain && p.op == OPut
		}
		if plain {
			for i := len(parts) - 1; i >= 0; i-- {
				if m.cond(st, mkEq(parts[i].args[0], k)) {
					return parts[i].args[1], tTrue
				}
			}
			return zero(vt), tFalse
		}
	}
	// A map of the caller.
	if keysOf(k) == x {
		return mkApp("mapval", vt, x, k), tTrue
	}
	has := mkApp("maphas", tBool, x, k)
	if !m.cond(st, has) {
		return zero(vt), tFalse
	}
	return mkApp("mapval", vt, x, k), tTrue
}

// --- freezing: the value of a reference, for comparison and for opaque calls

func (m *Machine) freeze(st *State, t *Term) *Term { return m.freezeD(st, t, 0) }

func (m *Machine) freezeD(st *State, t *Term, d int) *Term {
	if !t.refs {
		return t
	}
	if d > 40 {
		return mkTop("cyclic structure", nil)
	}
	switch t.op {
	case OPtr:
		if t.n == 0 {
			return t
		}
		var o *Obj
		if t.n < 0 {
			o = m.w.globals[-t.n]
		} else {
			o = st.heap[t.n]
		}
		v := o.val
		if len(t.args) > 0 {
			var typ types.Type
			if t.typ != nil {
				typ = elemType(t.typ)
			}
			v = pathGet(v, t.args, typ)
		}
		return mk(OBox, t.typ, "", 0, nil, nil, m.freezeD(st, v, d+1))
	case OSlice:
		return mkSeqV(m.freezeD(st, m.content(st, t), d+1))
	case OMap:
		return mkMapV(m.freezeD(st, m.objOf(st, t).val, d+1))
	}
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = m.freezeD(st, a, d+1)
	}
	if t.op == OFunc {
		return mk(OFunc, nil, t.str, 0, nil, t.fn, as...)
	}
	return rebuild(t, as)
}

// mkSeqV is the value of a fresh slice; a copy of a caller's slice has the
// value of that slice.
func mkSeqV(content *Term) *Term {
	if content.op == OSeq || content.op == OStar || content.op == OZeros {
		return mk(OSeqV, nil, "", 0, nil, nil, content)
	}
	return content
}

// --- control flow

func (m *Machine) ret(st *State, rs []*Term) *Op {
	f := st.top()
	if len(f.defers) > 0 {
		m.undecided("deferred calls left")
	}
	var res *Term
	switch len(rs) {
	case 0:
		res = mk(OTuple, nil, "", 0, nil, nil)
	case 1:
		res = rs[0]
	default:
		res = mk(OTuple, nil, "", 0, nil, nil, rs...)
	}
	if len(st.frames) == 1 {
		for _, c := range f.loops {
			if c.info != nil {
				f.loops = nil
				return &Op{kind: PExit, next: []*State{st}}
			}
		}
		if m.render && !st.shown {
			r := m.head(st, rs[0])
			st.shown = true
			if r.op == OIface {
				target := m.w.Prog.LookupMethod(r.typ, nil, "Write")
				if target == nil || len(target.Blocks) == 0 {
					m.undecided("no Write method on %s", r.typ)
				}
				n := newState(target, nil, []*Term{r.args[0], mkSym("~ctx", target.Params[1].Type())})
				st.frames = n.frames
				return nil
			}
			if r.op != ONil {
				return &Op{kind: PWrite, term: r, next: []*State{st}}
			}
		}
		out := make([]*Term, len(rs))
		for i, r := range rs {
			out[i] = m.freeze(st, r)
		}
		return &Op{kind: PRet, term: mk(OTuple, nil, "", 0, nil, nil, out...), raw: rs, st: st}
	}
	left := false
	for _, c := range f.loops {
		left = left || c.info != nil
	}
	st.frames = st.frames[:len(st.frames)-1]
	c := st.top()
	if left {
		if !f.drop {
			if f.ret != nil {
				c.env[f.ret] = res
			}
			c.adv()
		}
		return &Op{kind: PExit, next: []*State{st}}
	}
	if f.drop {
		c.asm = nil
		return nil // back to RunDefers
	}
	if f.ret != nil {
		c.env[f.ret] = res
	}
	c.adv()
	return nil
}

func (m *Machine) typeAssert(st *State, f *Frame, in *ssa.TypeAssert, x *Term) {
	is := mkIs(x, in.AssertedType)
	iface := types.IsInterface(in.AssertedType)
	if in.CommaOk {
		ok := m.cond(st, is)
		v := zero(in.AssertedType)
		if ok {
			if iface {
				v = x
			} else {
				v = mkCast(x, in.AssertedType)
			}
		}
		f.env[in] = mk(OTuple, nil, "", 0, nil, nil, v, mkBool(ok))
		f.adv()
		return
	}
	m.must(st, is, "failed type assertion")
	if iface {
		f.env[in] = x
	} else {
		f.env[in] = mkCast(x, in.AssertedType)
	}
	f.adv()
}

func (m *Machine) binop(st *State, in *ssa.BinOp, x, y *Term) *Term {
	t := in.X.Type()
	b, _ := t.Underlying().(*types.Basic)
	isInt := b != nil && b.Info()&types.IsInteger != 0
	if b != nil && b.Info()&types.IsFloat != 0 && (x.op != OConst || y.op != OConst) {
		// A float may differ from itself, and two may be in no order.
		switch in.Op {
		case token.EQL:
			return mkApp("feq", tBool, x, y)
		case token.NEQ:
			return mkNot(mkApp("feq", tBool, x, y))
		case token.LSS:
			return mkApp("flt", tBool, x, y)
		case token.GTR:
			return mkApp("flt", tBool, y, x)
		case token.LEQ:
			return mkApp("fle", tBool, x, y)
		case token.GEQ:
			return mkApp("fle", tBool, y, x)
		}
	}
	switch in.Op {
	case token.EQL:
		return m.eq(st, x, y, t)
	case token.NEQ:
		return mkNot(m.eq(st, x, y, t))
	case token.LSS:
		return mkLt(x, y)
	case token.GTR:
		return mkLt(y, x)
	case token.LEQ:
		return mkNot(mkLt(y, x))
	case token.GEQ:
		return mkNot(mkLt(x, y))
	case token.ADD:
		if b != nil && b.Info()&types.IsString != 0 {
			return cat(x, y)
		}
		if isInt {
			return add(x, y)
		}
	case token.SUB:
		if isInt {
			return sub(x, y)
		}
	case token.MUL:
		if isInt {
			if k, ok := x.isInt(); ok {
				return linAdd(mkInt(0), y, k)
			}
			if k, ok := y.isInt(); ok {
				return linAdd(mkInt(0), x, k)
			}
		}
	case token.AND, token.OR:
		if b != nil && b.Info()&types.IsBoolean != 0 {
			if in.Op == token.AND {
				return mkAnd(x, y)
			}
			return mkOr(x, y)
		}
	}
	if x.op == OConst && y.op == OConst && isInt {
		switch in.Op {
		case token.QUO, token.REM:
			if k, _ := y.isInt(); k != 0 {
				op := in.Op
				if op == token.QUO {
					op = token.QUO_ASSIGN // integer division
				}
				return mkConst(constant.BinaryOp(x.c, op, y.c), t)
			}
		case token.AND, token.OR, token.XOR:
			return mkConst(constant.BinaryOp(x.c, in.Op, y.c), t)
		}
	}
	if in.Op == token.QUO || in.Op == token.REM {
		if isInt {
			m.must(st, mkNot(mkEq(mkInt(0), y)), "division by zero")
		}
	}
	return mkApp("op"+in.Op.String(), in.Type(), x, y)
}

// eq compares two values, reading through the references the language compares.
func (m *Machine) eq(st *State, x, y *Term, t types.Type) *Term {
	x, y = m.head(st, x), m.head(st, y)
	for _, p := range [][2]*Term{{x, y}, {y, x}} {
		if p[0].op == ONil {
			switch p[1].op {
			case OSlice:
				o := m.objOf(st, p[1])
				if o.nilEmpty && len(p[1].args) == 0 {
					return mkEq(mkInt(0), seqLen(o.val))
				}
				return tFalse
			case OApp:
				if p[1].str == "subslice" {
					return mkEq(tNil, p[1].args[0])
				}
			}
		}
	}
	return mkEq(x, y)
}

// jump transfers control to block `to`, entering, iterating or leaving loops.
func (m *Machine) jump(st *State, f *Frame, to *ssa.BasicBlock) *Op {
	from := f.fn.Blocks[f.blk]
	li := loopsOf(f.fn)
	// Phis, simultaneously.
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	n := 0
	vals := map[ssa.Value]*Term{}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[phi] = m.value(st, f, phi.Edges[pi])
		n++
	}
	left, how := false, ""
	for len(f.loops) > 0 {
		c := f.loops[len(f.loops)-1]
		if li[c.header].body[to.Index] {
			break
		}
		f.loops = f.loops[:len(f.loops)-1]
		if c.info != nil {
			left = true
			how = "early"
			if from.Index == c.header {
				how = "header"
			}
		}
	}
	for k, v := range vals {
		f.env[k] = v
	}
	f.blk, f.idx, f.asm = to.Index, n, nil
	if left {
		f.arrive = li[to.Index] != nil
		return &Op{kind: PExit, why: how, next: []*State{st}}
	}
	if l := li[to.Index]; l != nil {
		if op := m.atHeader(f, l); op != nil {
			op.next = []*State{st}
			return op
		}
	}
	return nil
}

// substAll replaces a symbol throughout the state.
func (st *State) substAll(from, to *Term) {
	memo := map[*Term]*Term{}
	mp := map[*Term]*Term{from: to}
	sub := func(t *Term) *Term {
		if t == nil || !t.vars {
			return t
		}
		return substMap(t, mp, memo)
	}
	for _, f := range st.frames {
		for k, v := range f.env {
			f.env[k] = sub(v)
		}
		for i := range f.defers {
			if f.defers[i].fn != nil {
				f.defers[i].fn = sub(f.defers[i].fn)
			}
			as := append([]*Term{}, f.defers[i].args...)
			for j := range as {
				as[j] = sub(as[j])
			}
			f.defers[i].args = as
		}
		f.asm = nil
	}
	for _, o := range st.heap {
		o.val = sub(o.val)
	}
}

// --- natural loops

type loopShape struct {
	header  int
	body    map[int]bool
	latches []*ssa.BasicBlock
	fn      *ssa.Function
}

// everyIteration: the block runs in every iteration that comes back.
func (l *loopShape) everyIteration(b *ssa.BasicBlock) bool {
	for _, x := range l.latches {
		if !b.Dominates(x) {
			return false
		}
	}
	return true
}

var loopCache = map[*ssa.Function]map[int]*loopShape{}

func loopsOf(fn *ssa.Function) map[int]*loopShape {
	if r, ok := loopCache[fn]; ok {
		return r
	}
	r := map[int]*loopShape{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := r[s.Index]
				if l == nil {
					l = &loopShape{header: s.Index, body: map[int]bool{s.Index: true}, fn: fn}
					r[s.Index] = l
				}
				l.latches = append(l.latches, b)
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x.Index] {
						continue
					}
					l.body[x.Index] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	loopCache[fn] = r
	return r
}

// --- liveness

type livePoint struct {
	fn       *ssa.Function
	blk, idx int
}

var liveCache = map[livePoint][]ssa.Value{}
var liveIn = map[*ssa.Function][]map[ssa.Value]bool{}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return false
	}
	_, ok := v.(ssa.Instruction)
	return ok
}

func uses(in ssa.Instruction, add func(ssa.Value)) {
	var ops [10]*ssa.Value
	for _, o := range in.Operands(ops[:0]) {
		if *o != nil && tracked(*o) {
			add(*o)
		}
	}
}

func liveInSets(fn *ssa.Function) []map[ssa.Value]bool {
	if r, ok := liveIn[fn]; ok {
		return r
	}
	ins := make([]map[ssa.Value]bool, len(fn.Blocks))
	for i := range ins {
		ins[i] = map[ssa.Value]bool{}
	}
	// ins[b]: live after the phis of b (phis themselves included when used).
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			live := liveOut(fn.Blocks[i], ins)
			b := fn.Blocks[i]
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.Phi); ok {
					break
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				uses(in, func(v ssa.Value) { live[v] = true })
			}
			for v := range live {
				if !ins[i][v] {
					ins[i][v] = true
					changed = true
				}
			}
		}
	}
	liveIn[fn] = ins
	return ins
}

func liveOut(b *ssa.BasicBlock, ins []map[ssa.Value]bool) map[ssa.Value]bool {
	live := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		phis := map[ssa.Value]bool{}
		for _, in := range s.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis[phi] = true
			if !ins[s.Index][phi] {
				continue
			}
			for i, p := range s.Preds {
				if p == b && tracked(phi.Edges[i]) {
					live[phi.Edges[i]] = true
				}
			}
		}
		for v := range ins[s.Index] {
			if !phis[v] {
				live[v] = true
			}
		}
	}
	return live
}

// liveAt lists the values live before instruction idx of block blk.
func liveAt(fn *ssa.Function, blk, idx int) []ssa.Value {
	k := livePoint{fn, blk, idx}
	if r, ok := liveCache[k]; ok {
		return r
	}
	ins := liveInSets(fn)
	b := fn.Blocks[blk]
	live := liveOut(b, ins)
	for j := len(b.Instrs) - 1; j >= idx; j-- {
		in := b.Instrs[j]
		if _, ok := in.(*ssa.Phi); ok {
			break
		}
		if v, ok := in.(ssa.Value); ok {
			delete(live, v)
		}
		uses(in, func(v ssa.Value) { live[v] = true })
	}
	var r []ssa.Value
	for v := range live {
		r = append(r, v)
	}
	ord := valueOrder(fn)
	sort.Slice(r, func(i, j int) bool { return ord[r[i]] < ord[r[j]] })
	liveCache[k] = r
	return r
}

var orderCache = map[*ssa.Function]map[ssa.Value]int{}

func valueOrder(fn *ssa.Function) map[ssa.Value]int {
	if r, ok := orderCache[fn]; ok {
		return r
	}
	r := map[ssa.Value]int{}
	for _, p := range fn.Params {
		r[p] = len(r)
	}
	for _, p := range fn.FreeVars {
		r[p] = len(r)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				r[v] = len(r)
			}
		}
	}
	orderCache[fn] = r
	return r
}

// --- canonical form

// canon drops what is dead and renumbers the objects in traversal order.
func (m *Machine) canon(st *State) string {
	ids := map[int]int{}
	var order []int
	var visit func(t *Term)
	seen := map[*Term]bool{}
	visit = func(t *Term) {
		if t == nil || !t.refs || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OPtr, OSlice, OMap, OIter:
			if t.n > 0 {
				if _, ok := ids[t.n]; !ok {
					ids[t.n] = len(order) + 1
					order = append(order, t.n)
					if o := st.heap[t.n]; o != nil {
						visit(o.val)
					}
				}
			}
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for i, f := range st.frames {
		idx := f.idx
		if i < len(st.frames)-1 {
			// The call in progress: only its result and what follows matter.
			idx++
			if f.fn.Blocks[f.blk].Instrs[f.idx] == nil {
				idx = f.idx
			}
			if _, ok := f.fn.Blocks[f.blk].Instrs[f.idx].(*ssa.RunDefers); ok {
				idx = f.idx
			}
		}
		live := liveAt(f.fn, f.blk, idx)
		env := make(map[ssa.Value]*Term, len(live))
		for _, v := range live {
			if t, ok := f.env[v]; ok {
				env[v] = t
				visit(t)
			}
		}
		f.env = env
		for _, d := range f.defers {
			if d.fn != nil {
				visit(d.fn)
			}
			for _, a := range d.args {
				visit(a)
			}
		}
	}
	// Renumber.
	ident := len(order) == st.next
	for i, n := range order {
		if n != i+1 {
			ident = false
		}
	}
	if !ident || len(st.heap) != len(order) {
		memo := map[*Term]*Term{}
		var ren func(t *Term) *Term
		ren = func(t *Term) *Term {
			if t == nil || !t.refs {
				return t
			}
			if r, ok := memo[t]; ok {
				return r
			}
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				as[i] = ren(a)
			}
			n := t.n
			switch t.op {
			case OPtr, OSlice, OMap, OIter:
				if t.n > 0 {
					n = ids[t.n]
				}
			}
			r := mk(t.op, t.typ, t.str, n, t.c, t.fn, as...)
			memo[t] = r
			return r
		}
		heap := make(map[int]*Obj, len(order))
		for _, old := range order {
			o := st.heap[old]
			if o == nil {
				continue
			}
			o.val = ren(o.val)
			heap[ids[old]] = o
		}
		st.heap = heap
		st.next = len(order)
		for _, f := range st.frames {
			for v, t := range f.env {
				f.env[v] = ren(t)
			}
			for i := range f.defers {
				if f.defers[i].fn != nil {
					f.defers[i].fn = ren(f.defers[i].fn)
				}
				as := append([]*Term{}, f.defers[i].args...)
				for j := range as {
					as[j] = ren(as[j])
				}
				f.defers[i].args = as
			}
		}
	}
	return m.key(st)
}

func (m *Machine) key(st *State) string {
	var sb strings.Builder
	sb.WriteString(st.dead)
	if st.shown {
		sb.WriteByte('~')
	}
	for _, f := range st.frames {
		fmt.Fprintf(&sb, "F%p.%d.%d", f.fn, f.blk, f.idx)
		ord := valueOrder(f.fn)
		vs := make([]ssa.Value, 0, len(f.env))
		for v := range f.env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return ord[vs[i]] < ord[vs[j]] })
		for _, v := range vs {
			sb.WriteByte(' ')
			sb.WriteString(strconv.Itoa(ord[v]))
			sb.WriteByte('=')
			sb.WriteString(strconv.Itoa(f.env[v].id))
		}
		for _, l := range f.loops {
			id := -1
			if l.info != nil {
				id = l.info.id
			}
			fmt.Fprintf(&sb, " L%d:%d:%d%v%v%v%v", l.header, id, l.count, l.pend, l.peel, l.last, l.tried)
		}
		for _, d := range f.defers {
			if d.fn != nil {
				fmt.Fprintf(&sb, " D%d", d.fn.id)
			} else {
				fmt.Fprintf(&sb, " D.%s", d.call.Method.Name())
			}
			for _, a := range d.args {
				fmt.Fprintf(&sb, ",%d", a.id)
			}
		}
		if len(f.asm) > 0 {
			var as []string
			for a, v := range f.asm {
				as = append(as, fmt.Sprintf("%d:%v", a.id, v))
			}
			sort.Strings(as)
			sb.WriteString(" A" + strings.Join(as, ","))
		}
		if f.drop {
			sb.WriteString(" drop")
		}
		if f.arrive {
			sb.WriteString(" arrive")
		}
		sb.WriteByte('\n')
	}
	for i := 1; i <= st.next; i++ {
		o := st.heap[i]
		if o == nil {
			continue
		}
		fmt.Fprintf(&sb, "O%d:%d:%d:%v%v%v%v:%s", i, o.kind, o.val.id, o.nilEmpty, o.grown, o.exact, o.foreign, tkey(o.typ))
	}
	return sb.String()
}

// visited are the blocks that were analysed in this process.
var visited = map[*ssa.BasicBlock]bool{}
