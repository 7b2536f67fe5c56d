package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// callee resolves the function value and the arguments of a call. For a
// method call on an interface the receiver is the first argument and the
// function is nil.
func (m *Machine) callee(st *State, f *Frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	var fn *Term
	if c.IsInvoke() {
		args = append(args, m.head(st, m.value(st, f, c.Value)))
	} else {
		fn = m.head(st, m.value(st, f, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, m.value(st, f, a))
	}
	return fn, args
}

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// finish delivers the result of a modelled call.
func finish(st *State, in ssa.Instruction, res *Term) {
	f := st.top()
	if in == nil {
		f.asm = nil // deferred: the frame looks for the next deferred call
		return
	}
	if v, ok := in.(ssa.Value); ok {
		if res == nil {
			res = mk(OTuple, nil, "", 0, nil, nil)
		}
		f.env[v] = res
	}
	f.adv()
}

// invoke performs a call: the code of the repository is entered, the rest is
// modelled.
func (m *Machine) invoke(st *State, c *ssa.CallCommon, fn *Term, args []*Term, in ssa.Instruction) *Op {
	if c.IsInvoke() {
		x := st.applyAsm(args[0])
		if x.op == OIface {
			target := m.w.Prog.LookupMethod(x.typ, c.Method.Pkg(), c.Method.Name())
			if target == nil {
				m.undecided("method %s not found on %s", c.Method.Name(), x.typ)
			}
			as := append([]*Term{x.args[0]}, args[1:]...)
			return m.call(st, target, nil, as, in)
		}
		return m.symMethod(st, c, x, args[1:], in)
	}
	if fn.op == OIndex {
		// One of a table of functions.
		if tab := fn.args[0]; tab.op == OSeq && len(tab.args) <= 16 {
			for i, p := range tab.args {
				if p.op != OItem {
					break
				}
				if i == len(tab.args)-1 || m.cond(st, mkEq(mkInt(int64(i)), fn.args[1])) {
					fn = m.head(st, p.args[0])
					break
				}
			}
		}
	}
	switch {
	case fn.op == OFunc && strings.HasPrefix(fn.str, "builtin:"):
		return m.builtin(st, strings.TrimPrefix(fn.str, "builtin:"), c, args, in)
	case fn.op == OFunc && fn.fn != nil:
		return m.call(st, fn.fn, fn.args, args, in)
	case fn.op == ONil:
		return &Op{kind: PPanic, why: "call of nil function"}
	}
	m.undecided("call through an unknown function value %s", fn)
	return nil
}

func isContext(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "Context" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == repoModule+"/types"
}

// symMethod calls a method of a value whose dynamic type is not known.
func (m *Machine) symMethod(st *State, c *ssa.CallCommon, x *Term, args []*Term, in ssa.Instruction) *Op {
	m.notNil(st, x, "method call on nil interface")
	name := c.Method.Name()
	if isContext(c.Value.Type()) {
		switch name {
		case "Write":
			t := m.text(st, args[0])
			finish(st, in, nil)
			return &Op{kind: PEmit, term: t, next: []*State{st}}
		case "Bind":
			t := m.freeze(st, args[0])
			finish(st, in, nil)
			return &Op{kind: PBind, term: t, next: []*State{st}}
		}
	}
	if name == "Write" && len(args) == 1 && isContext(c.Signature().Params().At(0).Type()) {
		if ctx := st.applyAsm(args[0]); ctx.op == OIface {
			m.havoc(st, "written", x, ctx)
			finish(st, in, nil)
			return nil
		}
		finish(st, in, nil)
		return &Op{kind: PWrite, term: x, next: []*State{st}}
	}
	finish(st, in, m.pure(st, "m:"+name, c.Signature().Results(), append([]*Term{x}, args...)))
	return nil
}

// text settles the conditions inside a text.
func (m *Machine) text(st *State, t *Term) *Term {
	t = st.applyAsm(t)
	if t.op == OIte {
		panic(splitReq{pickAtom(t.args[0])})
	}
	if t.op == OCat {
		for _, p := range t.args {
			if p.op == OIte {
				panic(splitReq{pickAtom(p.args[0])})
			}
		}
	}
	return t
}

// havoc forgets the objects reachable through a pointer handed to code that
// is not analysed here.
func (m *Machine) havoc(st *State, what string, x *Term, ptr *Term) {
	p := ptr
	for p.op == OIface {
		p = p.args[0]
	}
	if p.op != OPtr || p.n <= 0 {
		return
	}
	o := st.heap[p.n]
	old := m.freeze(st, o.val)
	o.val = mkApp("after:"+what, o.typ, m.freeze(st, x), old)
}

// pure builds the result of an operation without effects.
func (m *Machine) pure(st *State, op string, res *types.Tuple, args []*Term) *Term {
	as := make([]*Term, len(args))
	for i, a := range args {
		as[i] = m.freeze(st, st.applyAsm(a))
	}
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return mkApp(op, res.At(0).Type(), as...)
	}
	var rs []*Term
	for i := 0; i < res.Len(); i++ {
		rs = append(rs, mkApp(op+"#"+strconv.Itoa(i), res.At(i).Type(), as...))
	}
	return mk(OTuple, nil, "", 0, nil, nil, rs...)
}

const maxDepth = 60

// enter goes on within the body of a function.
func (m *Machine) enter(st *State, fn *ssa.Function, name string, bindings, args []*Term, in ssa.Instruction) *Op {
	f := st.top()
	if len(fn.Blocks) == 0 {
		m.undecided("no body for %s", name)
	}
	n := 0
	for _, g := range st.frames {
		if g.fn == fn {
			n++
		}
	}
	if n >= 3 || len(st.frames) > maxDepth {
		return m.opaqueCall(st, fn, "rec:"+name, args, in)
	}
	g := &Frame{fn: fn, env: map[ssa.Value]*Term{}, depth: len(st.frames)}
	for i, p := range fn.Params {
		g.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		g.env[p] = bindings[i]
	}
	if v, ok := in.(ssa.Value); ok && in != nil {
		g.ret = v
	} else {
		g.drop = true
	}
	f.asm = nil
	st.frames = append(st.frames, g)
	if l := loopsOf(fn)[0]; l != nil {
		m.atHeader(g, l)
	}
	return nil
}

func (m *Machine) call(st *State, fn *ssa.Function, bindings, args []*Term, in ssa.Instruction) *Op {
	name := fullName(fn)
	if m.opaque[name] {
		return m.opaqueCall(st, fn, name, args, in)
	}
	if strings.HasPrefix(name, specPath+".") {
		switch fn.Name() {
		case "assume":
			if !m.cond(st, args[0]) {
				return &Op{kind: PVacuous}
			}
			finish(st, in, nil)
			return nil
		case "hole":
			// An unconstrained value named by its argument.
			s, _ := args[0].isStr()
			finish(st, in, mkSym("hole:"+s, fn.Signature.Results().At(0).Type()))
			return nil
		}
	}
	if inModule(fn) || fn.Synthetic != "" && len(fn.Blocks) > 0 && !isInterpreted(fn) {
		return m.enter(st, fn, name, bindings, args, in)
	}
	if fn.Name() == "init" && fn.Synthetic != "" {
		finish(st, in, nil)
		return nil
	}
	res, op, ok := m.intrinsic(st, fn, name, args)
	if !ok && isInterpreted(fn) {
		return m.enter(st, fn, name, bindings, args, in)
	}
	if !ok {
		m.undecided("call to %s, which is not modelled", name)
	}
	if op != nil && op.next == nil && (op.kind == PPanic || op.kind == PUndecided) {
		return op
	}
	finish(st, in, res)
	return op
}

// opaqueCall treats a function as an uninterpreted operation: equal arguments
// give equal results and equal panics.
func (m *Machine) opaqueCall(st *State, fn *ssa.Function, name string, args []*Term, in ssa.Instruction) *Op {
	sig := fn.Signature
	var all []*Term
	for _, a := range args {
		all = append(all, m.freeze(st, st.applyAsm(a)))
	}
	if r, ok := m.lexerCall(st, name, args); ok {
		finish(st, in, r)
		return nil
	}
	// A Write method with a symbolic context is one letter.
	if fn.Name() == "Write" && len(args) == 2 && isContext(sig.Params().At(0).Type()) && sig.Recv() != nil {
		if ctx := st.applyAsm(args[1]); ctx.op != OIface {
			finish(st, in, nil)
			x := all[0]
			return &Op{kind: PWrite, term: mkIface(sig.Recv().Type(), x), next: []*State{st}}
		}
		m.havoc(st, "written", mkIface(sig.Recv().Type(), all[0]), args[1])
		finish(st, in, nil)
		return nil
	}
	if m.stepped == nil && m.cond(st, mkApp("panics:"+name, tBool, all...)) {
		return &Op{kind: PPanic, why: name + " panics"}
	}
	for i, a := range args {
		p := st.applyAsm(a)
		for p.op == OIface {
			p = p.args[0]
		}
		if p.op == OPtr && p.n > 0 {
			o := st.heap[p.n]
			if len(p.args) == 0 && o.kind == KCell {
				defer func(i int, o *Obj) { o.val = mkApp(fmt.Sprintf("after:%s:%d", name, i), o.typ, all...) }(i, o)
			} else {
				m.undecided("opaque call to %s changes an inner object", name)
			}
		}
	}
	finish(st, in, m.pure(st, name, sig.Results(), all))
	return nil
}

// lexerCall models the lexer, when it is opaque, by the sequence of its tokens:
// a lexer is a text and a position, and Next yields the token at the position.
func (m *Machine) lexerCall(st *State, name string, args []*Term) (*Term, bool) {
	pk := m.w.SSA[repoModule+"/lexer"]
	if pk == nil || pk.Type("Lexer") == nil || !strings.Contains(name, repoModule+"/lexer.") {
		return nil, false
	}
	lt := pk.Type("Lexer").Type()
	switch {
	case strings.HasSuffix(name, "/lexer.New"):
		id := st.alloc(&Obj{kind: KCell, typ: tInt, val: mkInt(0)})
		src := m.head(st, args[0])
		if src.op == OIface {
			src = src.args[0]
		}
		pos := mk(OPtr, types.NewPointer(tInt), "", id, nil, nil)
		return mk(OApp, lt, "lexer", 0, nil, nil, m.freeze(st, src), pos), true
	case strings.HasSuffix(name, "/lexer.Lexer).Next"):
		x := m.head(st, args[0])
		if x.op == OPtr {
			x = m.head(st, m.load(st, x, lt))
		}
		if x.op != OApp || x.str != "lexer" {
			return nil, false
		}
		o := st.heap[x.args[1].n]
		tt := m.w.SSA[repoModule+"/token"].Type("Token").Type()
		r := mk(OApp, tt, "token", 0, nil, nil, x.args[0], o.val)
		o.val = add(o.val, mkInt(1))
		return r, true
	}
	return nil, false
}

func (m *Machine) builtin(st *State, name string, c *ssa.CallCommon, args []*Term, in ssa.Instruction) *Op {
	switch name {
	case "len":
		x := m.head(st, args[0])
		if pt, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			if a, ok := pt.Elem().Underlying().(*types.Array); ok {
				finish(st, in, mkInt(a.Len()))
				return nil
			}
		}
		finish(st, in, m.length(st, x))
		return nil
	case "cap":
		x := m.head(st, args[0])
		if x.op == OSlice {
			if o := m.objOf(st, x); o.exact && len(x.args) == 0 {
				finish(st, in, seqLen(o.val))
				return nil
			}
		}
		finish(st, in, mkApp("cap", tInt, m.freeze(st, x)))
		return nil
	case "append":
		s := m.head(st, args[0])
		y := m.head(st, args[1])
		var parts *Term
		if isStringTerm(y) {
			parts = mkApp("bytes", nil, y)
		} else {
			parts = m.content(st, y)
		}
		r, op := m.append_(st, s, parts, c.Args[0].Type())
		finish(st, in, r)
		if op != nil {
			op.next = []*State{st}
		}
		return op
	case "copy":
		dst, src := m.head(st, args[0]), m.head(st, args[1])
		var sc *Term
		if isStringTerm(src) {
			sc = mkApp("bytes", nil, src)
		} else {
			sc = m.content(st, src)
		}
		ls, ld := seqLen(sc), m.length(st, dst)
		if dst.op == ONil || ld == mkInt(0) || isEmptySeq(sc) {
			finish(st, in, mkInt(0))
			return nil
		}
		if dst.op != OSlice || dst.n < 0 {
			finish(st, in, mkTop("copied", tInt))
			return &Op{kind: PMut, term: m.freeze(st, dst), why: "copies into memory it does not own", next: []*State{st}}
		}
		o := st.heap[dst.n]
		lo, hi := mkInt(0), seqLen(o.val)
		if len(dst.args) > 0 {
			lo, hi = dst.args[0], dst.args[1]
		}
		n := ls
		if ls != ld {
			if m.cond(st, mkLt(ld, ls)) {
				n = ld
				sc = subseq(sc, mkInt(0), ld)
			}
		}
		total := seqLen(o.val)
		o.val = seq(subseq(o.val, mkInt(0), lo), sc, subseq(o.val, add(lo, n), total))
		_ = hi
		finish(st, in, n)
		if o.foreign {
			return &Op{kind: PMut, term: m.freeze(st, dst), why: "copies into memory it does not own", next: []*State{st}}
		}
		return nil
	case "delete":
		mp := m.head(st, args[0])
		if mp.op == ONil {
			finish(st, in, nil)
			return nil
		}
		if mp.op != OMap {
			finish(st, in, nil)
			return &Op{kind: PMut, term: mp, why: "deletes from a map it does not own", next: []*State{st}}
		}
		m.undecided("delete from a map")
	case "ssa:wrapnilchk":
		m.notNil(st, m.head(st, args[0]), "nil dereference")
		finish(st, in, args[0])
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if m.cond(st, mkLt(a, r)) == (name == "min") {
				r = a
			}
		}
		finish(st, in, r)
		return nil
	case "recover":
		m.undecided("recover")
	case "print", "println":
		finish(st, in, nil)
		return nil
	}
	m.undecided("builtin %s", name)
	return nil
}

// --- conversions

func intBits(k types.BasicKind) (bits int, signed bool) {
	switch k {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func (m *Machine) convert(st *State, x *Term, from, to types.Type) *Term {
	x = m.head(st, x)
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return x
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		b1, s1 := intBits(fb.Kind())
		b2, s2 := intBits(tb.Kind())
		if s1 == s2 && b2 >= b1 || !s1 && s2 && b2 > b1 {
			return x
		}
		if i, ok := x.isInt(); ok {
			if i >= 0 && i < 128 {
				return x
			}
		}
		// The range of its type may fit.
		if isIntTerm(x) {
			lo, hi := linRange(toLin(x))
			tlo, thi := int64(math.MinInt64), int64(math.MaxInt64)
			if b2 < 64 && s2 {
				tlo, thi = -1<<(b2-1), 1<<(b2-1)-1
			} else if b2 < 64 {
				tlo, thi = 0, 1<<b2-1
			} else if !s2 {
				tlo = 0
			}
			if lo >= tlo && hi <= thi && lo != math.MinInt64 && hi != math.MaxInt64 {
				return x
			}
			if b2 < 64 && lo != math.MinInt64 && hi != math.MaxInt64 {
				// What does not fit wraps around, a whole turn at most when
				// the value spans no more.
				over := mkApp("wrap:"+tb.Name(), to, x)
				turn := int64(1) << b2
				low, high := over, over
				if lo >= tlo-turn {
					low = add(x, mkInt(turn))
				}
				if hi <= thi+turn {
					high = sub(x, mkInt(turn))
				}
				switch {
				case lo < tlo && m.cond(st, mkLt(x, mkInt(tlo))):
					return low
				case hi > thi && m.cond(st, mkLt(mkInt(thi), x)):
					return high
				}
				return x
			}
		}
		// A loop counter or a length fits.
		if linNonNeg(x) && b2 >= 32 {
			return x
		}
		if b1 == 64 && b2 == 64 && isIntTerm(x) {
			// The upper half of the unsigned numbers is the negative ones.
			if s2 {
				return mkIte(mkLt(mkInt(math.MaxInt64), x), mkApp("neg:"+tb.Name(), to, x), x)
			}
			return mkIte(mkLt(x, mkInt(0)), mkApp("wrap:"+tb.Name(), to, x), x)
		}
		return mkApp("wrap:"+tb.Name(), to, x)
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		return mkApp("chr", tString, x)
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		if fb.Kind() == tb.Kind() || fb.Kind() == types.Float32 || fb.Kind() == types.UntypedFloat {
			return x
		}
		return mkApp("wrap:"+tb.Name(), to, x)
	case fb != nil && tb != nil && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0:
		if x.op == OConst && tb.Info()&types.IsFloat != 0 {
			return mkConst(constant.ToFloat(x.c), to)
		}
		return mkApp("wrap:"+tb.Name(), to, x)
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if s, ok := to.Underlying().(*types.Slice); ok {
			if e, ok := s.Elem().Underlying().(*types.Basic); ok {
				op := "bytes"
				if e.Kind() == types.Int32 {
					op = "runes"
				}
				if c, ok := x.isStr(); ok {
					var items []*Term
					if op == "runes" {
						for _, r := range c {
							items = append(items, item(mkInt(int64(r))))
						}
					} else {
						for i := 0; i < len(c); i++ {
							items = append(items, item(mkInt(int64(c[i]))))
						}
					}
					id := st.alloc(&Obj{kind: KArr, typ: s.Elem(), val: seq(items...)})
					return mk(OSlice, to, "", id, nil, nil)
				}
				id := st.alloc(&Obj{kind: KArr, typ: s.Elem(), val: mkApp(op, nil, x)})
				return mk(OSlice, to, "", id, nil, nil)
			}
		}
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if s, ok := from.Underlying().(*types.Slice); ok {
			e, _ := s.Elem().Underlying().(*types.Basic)
			return stringOf(m.freeze(st, m.content(st, x)), e != nil && e.Kind() == types.Int32)
		}
	}
	return x
}

// stringOf converts a sequence of runes or bytes to text.
func stringOf(c *Term, runes bool) *Term {
	switch {
	case c.op == OApp && (c.str == "bytes" || c.str == "runes"):
		return c.args[0]
	case c.op == OItem:
		if x := c.args[0]; !runes && isIntTerm(x) {
			// A byte is a character below 128 only.
			return mkIte(mkLt(x, mkInt(utf8.RuneSelf)), mkApp("chr", tString, x), mkApp("bytechr", tString, x))
		}
		return mkApp("chr", tString, c.args[0])
	case c.op == OSeq:
		var ps []*Term
		for _, p := range c.args {
			ps = append(ps, stringOf(p, runes))
		}
		return cat(ps...)
	case c.op == OStar:
		return mkTextStar(c.args[0], mapLeaves(c.args[1], func(t *Term) *Term { return stringOf(t, runes) }))
	}
	if runes {
		return mkApp("runestring", tString, c)
	}
	return mkApp("bytestring", tString, c)
}

func mapLeaves(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return mkIte(t.args[0], mapLeaves(t.args[1], f), mapLeaves(t.args[2], f))
	}
	return f(t)
}

// --- text

// joinTerm is strings.Join, or nil when it stays whole.
func joinTerm(c *Term, sep *Term) *Term {
	if isEmptySeq(c) {
		return mkStr("")
	}
	if s, ok := sep.isStr(); ok && s == "" {
		return concatTerm(c)
	}
	parts := c.argsOrSelf()
	var out []*Term
	started := false // at least one element precedes
	for i, p := range parts {
		switch {
		case p.op == OItem:
			if started {
				out = append(out, sep)
			}
			out = append(out, p.args[0])
			started = true
		case p.op == OStar || p.op != OSeq && p.op != OIte && p.op != OZeros:
			if !started && i < len(parts)-1 {
				// The first element may be missing: keep the join whole.
				return nil
			}
			count := seqLen(p)
			h := 0
			var e *Term
			if p.op == OStar {
				b := p.args[1]
				if k, ok := fixedItems(b); !ok || k != 1 {
					return nil
				}
				e = mapLeaves(b, seqItem)
				h = b.h
			} else {
				h = p.h
				e = mkIndex(p, boundVar(h), tString)
			}
			if started {
				out = append(out, mkTextStar(count, mapLeaves(e, func(t *Term) *Term { return cat(sep, t) })))
				break
			}
			first := mkEq(mkInt(0), boundVar(h))
			out = append(out, mkTextStar(count, orderTree(mkIte(first, e, mapLeaves(e, func(t *Term) *Term { return cat(sep, t) })))))
		default:
			return nil
		}
	}
	return cat(out...)
}

// concatTerm is the concatenation of all texts of a sequence.
func concatTerm(c *Term) *Term {
	switch c.op {
	case OItem:
		return c.args[0]
	case OSeq:
		var ps []*Term
		for _, p := range c.args {
			ps = append(ps, concatTerm(p))
		}
		return cat(ps...)
	case OIte:
		return mkIte(c.args[0], concatTerm(c.args[1]), concatTerm(c.args[2]))
	case OZeros:
		return mkStr("")
	case OStar:
		k := freshVar()
		b := concatTerm(subst(c.args[1], boundVar(c.args[1].h), k))
		return mkTextStar(c.args[0], subst(b, k, boundVar(b.h)))
	}
	return mkTextStar(seqLen(c), mkIndex(c, boundVar(c.h), tString))
}

// mkTextStar is the concatenation of count texts; body mentions boundVar(body.h).
func mkTextStar(count, body *Term) *Term {
	if s, ok := body.isStr(); ok && s == "" {
		return body
	}
	if n, ok := count.isInt(); ok {
		if n <= 0 {
			return mkStr("")
		}
		if n <= 8 {
			var ps []*Term
			for i := int64(0); i < n; i++ {
				ps = append(ps, subst(body, boundVar(body.h), mkInt(i)))
			}
			return cat(ps...)
		}
	}
	v := boundVar(body.h)
	// Rune by rune rewriting of a string.
	if count.op == OApp && count.str == "runecount" {
		s := count.args[0]
		if tab, ok := runeTable(body, runeAt(s, v), map[rune]string{}, false); ok {
			return mkHom(s, tab)
		}
	}
	// Piece by piece rewriting of a split string.
	if count.op == OApp && count.str == "len" && count.args[0].op == OApp && count.args[0].str == "split" {
		sp := count.args[0]
		if sep, ok := sp.args[1].isStr(); ok && len([]rune(sep)) == 1 {
			if t := splitHom(sp.args[0], []rune(sep)[0], sp, body, v); t != nil {
				return t
			}
		}
	}
	return mk(OStar, tString, "", 0, nil, nil, count, body)
}

func splitHom(s *Term, sep rune, sp, body, v *Term) *Term {
	first, rest := body, body
	if body.op == OIte && body.args[0] == mkEq(mkInt(0), v) {
		first, rest = body.args[1], body.args[2]
	} else if body.op == OIte {
		return nil
	}
	pre1, tab1, suf1, ok1 := pieceForm(first, sp, v)
	pre2, tab2, suf2, ok2 := pieceForm(rest, sp, v)
	if !ok1 || !ok2 || encodeTable(tab1) != encodeTable(tab2) || suf1 != suf2 {
		return nil
	}
	if _, ok := tab1[sep]; ok {
		// The separator does not occur in a piece.
		delete(tab1, sep)
	}
	tab := map[rune]string{}
	for k, x := range tab1 {
		tab[k] = x
	}
	tab[sep] = suf1 + pre2
	return cat(mkStr(pre1), mkHom(s, tab), mkStr(suf1))
}

// pieceForm matches constant + rewriting of piece v + constant.
func pieceForm(t, sp, v *Term) (pre string, tab map[rune]string, suf string, ok bool) {
	ps := []*Term{t}
	if t.op == OCat {
		ps = t.args
	}
	seen := false
	for _, p := range ps {
		if s, isC := p.isStr(); isC {
			if seen {
				suf += s
			} else {
				pre += s
			}
			continue
		}
		if seen {
			return "", nil, "", false
		}
		seen = true
		piece := p
		tab = map[rune]string{}
		if p.op == OApp && strings.HasPrefix(p.str, "hom:") {
			tab = decodeTable(p.str)
			piece = p.args[0]
		}
		if piece.op != OIndex || piece.args[0] != sp || piece.args[1] != v {
			return "", nil, "", false
		}
	}
	return pre, tab, suf, seen
}

// runeTable reads a decision tree over one rune as a rewriting table.
func runeTable(t, r *Term, excl map[rune]string, deep bool) (map[rune]string, bool) {
	if t.op == OIte {
		c := t.args[0]
		if c.op != OApp || c.str != "zero" {
			return nil, false
		}
		d := add(c.args[0], mkInt(0))
		k := sub(d, r)
		n, ok := k.isInt()
		if !ok {
			k = add(d, r)
			n, ok = k.isInt()
			if !ok {
				return nil, false
			}
		} else {
			n = -n
		}
		ch := rune(n)
		tab, ok := runeTable(t.args[2], r, excl, deep)
		if !ok {
			return nil, false
		}
		img, ok := constImage(t.args[1], r, ch)
		if !ok {
			return nil, false
		}
		tab[ch] = img
		return tab, true
	}
	if t == mkApp("chr", tString, r) {
		return map[rune]string{}, true
	}
	return nil, false
}

func constImage(t, r *Term, ch rune) (string, bool) {
	t = subst(t, r, mkInt(int64(ch)))
	return t.isStr()
}

func encodeTable(tab map[rune]string) string {
	var ks []int
	for k, v := range tab {
		if v != string(k) {
			ks = append(ks, int(k))
		}
	}
	sort.Ints(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%d=%s;", k, strconv.Quote(tab[rune(k)]))
	}
	return sb.String()
}

func decodeTable(s string) map[rune]string {
	tab := map[rune]string{}
	s = strings.TrimPrefix(s, "hom:")
	for s != "" {
		i := strings.IndexByte(s, '=')
		k, _ := strconv.Atoi(s[:i])
		q, err := strconv.QuotedPrefix(s[i+1:])
		if err != nil {
			panic(err)
		}
		v, _ := strconv.Unquote(q)
		tab[rune(k)] = v
		s = s[i+1+len(q)+1:]
	}
	return tab
}

func applyTable(tab map[rune]string, s string) string {
	var sb strings.Builder
	for _, r := range s {
		if v, ok := tab[r]; ok {
			sb.WriteString(v)
		} else {
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

// mkHom rewrites s character by character.
func mkHom(s *Term, tab map[rune]string) *Term {
	enc := encodeTable(tab)
	if enc == "" {
		return s
	}
	if c, ok := s.isStr(); ok {
		return mkStr(applyTable(tab, c))
	}
	if s.op == OCat {
		var ps []*Term
		for _, p := range s.args {
			ps = append(ps, mkHom(p, tab))
		}
		return cat(ps...)
	}
	if s.op == OIte {
		return mkIte(s.args[0], mkHom(s.args[1], tab), mkHom(s.args[2], tab))
	}
	if s.op == OStar {
		return mkTextStar(s.args[0], mapLeaves(s.args[1], func(t *Term) *Term { return mkHom(t, tab) }))
	}
	if s.op == OApp && strings.HasPrefix(s.str, "hom:") {
		inner := decodeTable(s.str)
		out := map[rune]string{}
		for k, v := range inner {
			out[k] = applyTable(tab, v)
		}
		for k, v := range tab {
			if _, ok := inner[k]; !ok {
				out[k] = v
			}
		}
		return mkHom(s.args[0], out)
	}
	if s.op == OApp && s.str == "itoa" {
		digits := true
		for k := range tab {
			if k >= '0' && k <= '9' || k == '-' {
				digits = false
			}
		}
		if digits {
			return s
		}
	}
	return mk(OApp, tString, "hom:"+enc, 0, nil, nil, s)
}

// foldApp simplifies pure operations.
func foldApp(op string, typ types.Type, as []*Term) *Term {
	// Distribute over a conditional operand.
	switch op {
	case "keys", "mapval", "maphas":
	default:
		for i, a := range as {
			if a.op == OIte && (op == "itoa" || op == "chr" || strings.HasPrefix(op, "hom:") || op == "len" || op == "upper" || op == "trimspace") {
				x := append([]*Term{}, as...)
				y := append([]*Term{}, as...)
				x[i], y[i] = a.args[1], a.args[2]
				return mkIte(a.args[0], mkApp(op, typ, x...), mkApp(op, typ, y...))
			}
		}
	}
	if strings.HasPrefix(op, "hom:") {
		return mkHom(as[0], decodeTable(op))
	}
	switch op {
	case "fold":
		if k, ok := as[0].isInt(); ok && k <= 8 {
			v := as[1]
			for i := int64(0); i < k; i++ {
				v = substMap(as[2], map[*Term]*Term{boundVar(as[2].h): mkInt(i), foldAcc(typ): v}, map[*Term]*Term{})
			}
			return v
		}
		// A map filled under its own length: one more entry each time.
		if b := as[2]; b.op == OSeq && len(b.args) == 2 && b.args[0] == foldAcc(typ) && b.args[1].op == OPut {
			if n0, ok := logLen(as[1]); ok {
				grow := lenTerm(mk(OMapV, nil, "", 0, nil, nil, foldAcc(typ)))
				k := freshVar()
				put := subst(b.args[1], boundVar(b.h), k)
				put = subst(put, grow, add(n0, k))
				if !mentions(put, foldAcc(typ)) {
					star := mkStar(as[0], subst(put, k, boundVar(put.h)))
					log := seq(as[1], star)
					if _, ok := logLen(log); ok {
						return log
					}
				}
			}
		}
		// Elements replaced in place leave the length alone.
		if acc := foldAcc(typ); as[2] != acc && updatesOf(as[2], acc) {
			if n := lenTerm(acc); mentions(as[2], n) {
				return mkApp("fold", typ, as[0], as[1], subst(as[2], n, seqLen(as[1])))
			}
		}
		if b := gatherUpd(as[2], foldAcc(typ)); b != as[2] {
			return mkApp("fold", typ, as[0], as[1], b)
		}
		// Every element replaced in place by a function of itself.
		if b := as[2]; b.op == OApp && b.str == "upd" && b.args[0] == foldAcc(typ) && b.args[1] == boundVar(b.h) && seqLen(as[1]) == as[0] {
			at := mkIndex(foldAcc(typ), boundVar(b.h), elementOf(b.args[2], foldAcc(typ), boundVar(b.h)))
			own := mkSym("~own", at.typ)
			e := subst(b.args[2], at, own)
			if !mentions(e, foldAcc(typ)) {
				k := freshVar()
				e = subst(subst(e, boundVar(b.h), k), own, mkIndex(as[1], k, at.typ))
				e = item(e)
				return mkStar(as[0], subst(e, k, boundVar(e.h)))
			}
		}
	case "upd":
		if b := as[0]; b.op == OApp && b.str == "upd" && b.args[1] == as[1] {
			return mkApp("upd", typ, b.args[0], as[1], as[2])
		}
	case "exists":
		if v, ok := as[1].isBool(); ok {
			return mkBool(v && as[0] != mkInt(0)).orPos(as[0], v)
		}
		if n, ok := as[0].isInt(); ok && n <= 4 {
			f := tFalse
			for i := int64(0); i < n; i++ {
				f = mkOr(f, subst(as[1], boundVar(as[1].h), mkInt(i)))
			}
			return f
		}
		if !mentions(as[1], boundVar(as[1].h)) {
			return mkAnd(mkLt(mkInt(0), as[0]), as[1])
		}
	case "itoa":
		if i, ok := as[0].isInt(); ok {
			return mkStr(strconv.FormatInt(i, 10))
		}
	case "chr":
		if i, ok := as[0].isInt(); ok {
			return mkStr(string(rune(i)))
		}
	case "upper":
		if s, ok := as[0].isStr(); ok {
			return mkStr(strings.ToUpper(s))
		}
		if as[0].op == OApp && as[0].str == "upper" {
			return as[0]
		}
	case "lower":
		if s, ok := as[0].isStr(); ok {
			return mkStr(strings.ToLower(s))
		}
	case "trimspace":
		if s, ok := as[0].isStr(); ok {
			return mkStr(strings.TrimSpace(s))
		}
		if as[0].op == OApp && as[0].str == "trimspace" {
			return as[0]
		}
	case "contains":
		if s, ok := as[0].isStr(); ok {
			if t, ok := as[1].isStr(); ok {
				return mkBool(strings.Contains(s, t))
			}
			// One of a few characters (what is no rune is shown as U+FFFD).
			if c := as[1]; c.op == OApp && c.str == "chr" && len(s) <= 64 && !strings.ContainsRune(s, utf8.RuneError) {
				f := tFalse
				for _, r := range s {
					f = mkOr(f, mkEq(mkInt(int64(r)), c.args[0]))
				}
				return f
			}
		}
	case "rest":
		return mkRest(as[0], as[1], as[2])
	case "hasprefix":
		if s, ok := as[0].isStr(); ok {
			if t, ok := as[1].isStr(); ok {
				return mkBool(strings.HasPrefix(s, t))
			}
		}
	case "split":
		if p := as[0]; p.op == OIndex && p.args[0].op == OApp && p.args[0].str == "split" && p.args[0].args[1] == as[1] {
			return seq(item(p)) // a piece has no separator
		}
		if s, ok := as[0].isStr(); ok {
			if t, ok := as[1].isStr(); ok {
				var items []*Term
				for _, p := range strings.Split(s, t) {
					items = append(items, item(mkStr(p)))
				}
				return seq(items...)
			}
		}
	case "runecount":
		if s, ok := as[0].isStr(); ok {
			return mkInt(int64(len([]rune(s))))
		}
	case "byteat":
		if s, ok := as[0].isStr(); ok {
			if i, ok := as[1].isInt(); ok && i >= 0 && int(i) < len(s) {
				return mkInt(int64(s[i]))
			}
		}
	case "buftext":
		if as[0].op == OApp && as[0].str == "buffer" {
			return as[0].args[0]
		}
	case "buffer":
		// The content of an unknown buffer, put back.
		if a := as[0]; a.op == OApp && a.str == "buftext" {
			return nil
		}
	case "join":
		if r := joinTerm(as[0], as[1]); r != nil {
			return r
		}
	case "mapval":
		// keys(m)[i] looked up in m stays symbolic.
	case "wrap:int64", "wrap:int", "wrap:uint64":
		if i, ok := as[0].isInt(); ok && i >= 0 {
			return as[0]
		}
	}
	return nil
}

// --- decision trees

type guard struct {
	atom *Term
	val  bool
}

type treePath struct {
	g   []guard
	val *Term
}

// buildTree builds the ordered, reduced decision tree of a set of paths;
// combinations no path covers are "don't care".
func buildTree(ps []treePath) *Term {
	if len(ps) == 0 {
		return nil
	}
	same := true
	for _, p := range ps[1:] {
		if p.val != ps[0].val {
			same = false
			break
		}
	}
	if same {
		return ps[0].val
	}
	var a *Term
	for _, p := range ps {
		for _, g := range p.g {
			if a == nil || g.atom.id < a.id {
				a = g.atom
			}
		}
	}
	if a == nil {
		return mkTop("two values on one path", nil)
	}
	var side [2][]treePath
	for _, p := range ps {
		var rest []guard
		v := -1
		for _, g := range p.g {
			if g.atom == a {
				if g.val {
					v = 0
				} else {
					v = 1
				}
			} else {
				rest = append(rest, g)
			}
		}
		for s := 0; s < 2; s++ {
			if v == -1 || v == s {
				if r, ok := consistent(rest, guard{a, s == 0}); ok {
					side[s] = append(side[s], treePath{r, p.val})
				}
			}
		}
	}
	x, y := buildTree(side[0]), buildTree(side[1])
	if x == nil {
		return y
	}
	if y == nil {
		return x
	}
	return mkIte(a, x, y)
}

// consistent drops the guards that follow from another one, and tells
// whether none contradicts it.
func consistent(gs []guard, by guard) ([]guard, bool) {
	kind := by.atom.str
	if by.atom.op != OApp || kind != "is" && kind != "nil" && kind != "eq" {
		return gs, true
	}
	var out []guard
	l := lits{by}
	for _, g := range gs {
		if g.atom.op == OApp && (g.atom.str == "is" || g.atom.str == "nil" || g.atom.str == "eq") {
			if v, ok := l.decideD(g.atom, used{}, 1); ok {
				if v != g.val {
					return nil, false
				}
				continue
			}
		}
		out = append(out, g)
	}
	return out, true
}

// orderTree puts a conditional term in canonical order.
func orderTree(t *Term) *Term {
	if t.op != OIte {
		return t
	}
	var ps []treePath
	var walk func(t *Term, g []guard)
	walk = func(t *Term, g []guard) {
		if t.op == OIte {
			a := pickAtom(t.args[0])
			for _, v := range []bool{true, false} {
				known := false
				for _, x := range g {
					if x.atom == a {
						known = true
						if x.val == v {
							walk(subst(t, a, mkBool(v)), g)
						}
					}
				}
				if !known {
					walk(subst(t, a, mkBool(v)), append(append([]guard{}, g...), guard{a, v}))
				}
			}
			return
		}
		ps = append(ps, treePath{g, t})
	}
	walk(t, nil)
	return buildTree(ps)
}

// --- models of the standard library

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "errors": true,
	"math": true, "reflect": true, "time": true, "bytes": true, "encoding/hex": true, "fmt": true,
	"github.com/pkg/errors": true, "regexp": true, "slices": true, "maps": true, "cmp": true, "sort": true,
	"math/bits": true, "database/sql/driver": true,
}

func (m *Machine) bufObj(st *State, p *Term) (*Term, []*Term, *Obj) {
	p = m.head(st, p)
	m.notNil(st, p, "nil buffer")
	if p.op != OPtr || p.n <= 0 {
		return nil, nil, nil
	}
	o := st.heap[p.n]
	return pathGet(o.val, p.args, nil), p.args, o
}

func bufText(b *Term) *Term {
	if b.op == OApp && b.str == "buffer" {
		return b.args[0]
	}
	if b.op == OApp && strings.HasPrefix(b.str, "after:") || b.op == OField || b.op == ODeref {
		return mk(OApp, tString, "buftext", 0, nil, nil, b)
	}
	return mkApp("buftext", tString, b)
}

func mkBuf(t types.Type, text *Term) *Term {
	if text.op == OApp && text.str == "buftext" {
		return text.args[0]
	}
	return mk(OApp, nil, "buffer", 0, nil, nil, text)
}

func (m *Machine) bufAppend(st *State, p, text *Term) *Op {
	b, path, o := m.bufObj(st, p)
	if b == nil {
		return &Op{kind: PMut, term: m.freeze(st, p), why: "writes into a buffer it does not own", next: []*State{st}}
	}
	o.val = pathSet(o.val, path, mkBuf(nil, cat(bufText(b), text)), o.typ)
	return nil
}

func (m *Machine) intrinsic(st *State, fn *ssa.Function, name string, args []*Term) (*Term, *Op, bool) {
	for i := range args {
		args[i] = st.applyAsm(args[i])
	}
	nilErr := tNil
	tuple := func(ts ...*Term) *Term { return mk(OTuple, nil, "", 0, nil, nil, ts...) }
	str := func(i int) *Term { return m.head(st, args[i]) }
	newSlice := func(c *Term, et types.Type, typ types.Type) *Term {
		id := st.alloc(&Obj{kind: KArr, typ: et, val: c})
		return mk(OSlice, typ, "", id, nil, nil)
	}
	strSlice := types.NewSlice(tString)
	switch name {
	case "strings.Join":
		return mkApp("join", tString, m.freeze(st, m.content(st, m.head(st, args[0]))), str(1)), nil, true
	case "strings.Split":
		return newSlice(splitOf(str(0), str(1)), tString, strSlice), nil, true
	case "strings.ReplaceAll":
		return replaceAll(str(0), str(1), str(2)), nil, true
	case "strings.Replace":
		if n, ok := str(3).isInt(); ok && n < 0 {
			return replaceAll(str(0), str(1), str(2)), nil, true
		}
	case "strings.NewReplacer":
		c := m.freeze(st, m.content(st, m.head(st, args[0])))
		return mk(OApp, fn.Signature.Results().At(0).Type(), "replacer", 0, nil, nil, c), nil, true
	case "(*strings.Replacer).Replace":
		r := m.head(st, args[0])
		if r.op == OPtr && r.n < 0 {
			r = m.w.globals[-r.n].val
		}
		if r.op == OApp && r.str == "replacer" {
			if tab, ok := replacerTable(r.args[0]); ok {
				return mkHom(str(1), tab), nil, true
			}
		}
	case "strings.ToUpper":
		return mkApp("upper", tString, str(0)), nil, true
	case "strings.ToLower":
		return mkApp("lower", tString, str(0)), nil, true
	case "strings.TrimSpace":
		return mkApp("trimspace", tString, str(0)), nil, true
	case "strings.Contains":
		if sep, ok := str(1).isStr(); ok && len(sep) == 1 && sep[0] < utf8.RuneSelf {
			if _, _, _, found, ok := pieceOf(str(0), sep); ok {
				return found, nil, true
			}
		}
		return mkApp("contains", tBool, str(0), str(1)), nil, true
	case "strings.ContainsAny":
		if found := containsAny(str(0), str(1)); found != nil {
			return found, nil, true
		}
	case "strings.IndexAny":
		if found := containsAny(str(0), str(1)); found != nil {
			return mkIte(found, mkApp("indexany", tInt, str(0), str(1)), mkInt(-1)), nil, true
		}
	case "strings.Cut", "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.Count":
		sep, ok := str(1).isStr()
		if n, isInt := str(1).isInt(); isInt && 0 <= n && n < utf8.RuneSelf {
			sep, ok = string(rune(n)), true
		}
		if !ok || len(sep) != 1 || sep[0] >= utf8.RuneSelf {
			break
		}
		base, i, piece, found, ok := pieceOf(str(0), sep)
		if !ok {
			break
		}
		switch name {
		case "strings.Cut":
			return tuple(piece, mkRest(base, mkStr(sep), add(i, mkInt(1))), found), nil, true
		case "strings.Count":
			if i != mkInt(0) {
				break
			}
			return sub(seqLen(splitOf(base, mkStr(sep))), mkInt(1)), nil, true
		default:
			piece = mkIndex(splitOf(base, mkStr(sep)), i, tString)
			return mkIte(found, lenTerm(piece), mkInt(-1)), nil, true
		}
	case "strings.ContainsRune":
		if n, ok := str(1).isInt(); ok && 0 <= n && n < utf8.RuneSelf {
			if _, _, _, found, ok := pieceOf(str(0), string(rune(n))); ok {
				return found, nil, true
			}
		}
		return mkApp("contains", tBool, str(0), mkApp("chr", tString, str(1))), nil, true
	case "strings.HasPrefix":
		return mkApp("hasprefix", tBool, str(0), str(1)), nil, true
	case "strings.HasSuffix":
		return mkApp("hassuffix", tBool, str(0), str(1)), nil, true
	case "strings.Repeat":
		if s, ok := str(0).isStr(); ok {
			if n, ok := str(1).isInt(); ok && n >= 0 && n < 100 {
				return mkStr(strings.Repeat(s, int(n))), nil, true
			}
		}
	case "strings.Compare", "cmp.Compare":
		a, b := str(0), str(1)
		if m.cond(st, mkEq(a, b)) {
			return mkInt(0), nil, true
		}
		if m.cond(st, mkLt(a, b)) {
			return mkInt(-1), nil, true
		}
		return mkInt(1), nil, true
	case "cmp.Less":
		return mkLt(str(0), str(1)), nil, true
	case "strings.Map":
		if t := m.runeMap(st, args[0], str(1)); t != nil {
			return t, nil, true
		}
	case "(time.Time).Format":
		if l, ok := str(1).isStr(); ok {
			return formatTime(m.freeze(st, args[0]), l), nil, true
		}
	case "(time.Time).In":
		if z := m.head(st, args[1]); z.op == OSym && z.str == "var:time.UTC" {
			return mkApp("(time.Time).UTC", fn.Signature.Results().At(0).Type(), m.freeze(st, args[0])), nil, true
		}
	case "strings.Clone":
		return str(0), nil, true
	case "strconv.Itoa":
		return mkApp("itoa", tString, str(0)), nil, true
	case "strconv.FormatInt", "strconv.FormatUint":
		if b, ok := str(1).isInt(); ok && b == 10 {
			return mkApp("itoa", tString, str(0)), nil, true
		}
	case "strconv.AppendInt", "strconv.AppendUint":
		if b, ok := str(2).isInt(); ok && b == 10 {
			t := m.head(st, args[0])
			r, op := m.append_(st, t, mkApp("bytes", nil, mkApp("itoa", tString, str(1))), fn.Signature.Params().At(0).Type())
			if op != nil {
				op.next = []*State{st}
			}
			return r, op, true
		}
	case "strconv.FormatBool":
		if m.cond(st, str(0)) {
			return mkStr("true"), nil, true
		}
		return mkStr("false"), nil, true
	case "fmt.Sprintf":
		return m.sprintf(st, str(0), m.content(st, m.head(st, args[1]))), nil, true
	case "fmt.Sprint":
		return m.sprint(st, m.content(st, m.head(st, args[0]))), nil, true
	case "fmt.Errorf", "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return mk(OApp, types.Universe.Lookup("error").Type(), "error", 0, nil, nil, m.freeze(st, args[0])), nil, true
	case "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.Wrap", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage":
		e := m.head(st, args[0])
		if m.cond(st, mkEq(tNil, e)) {
			return tNil, nil, true
		}
		return mk(OApp, types.Universe.Lookup("error").Type(), "error", 0, nil, nil, m.freeze(st, e)), nil, true
	case "fmt.Fprintf", "fmt.Fprint", "io.WriteString":
		w := m.head(st, args[0])
		if w.op == OIface && w.args[0].op == OPtr && w.args[0].n > 0 {
			if n := namedOf(w.typ); n != nil && isBuffer(n) {
				var t *Term
				switch name {
				case "fmt.Fprintf":
					t = m.sprintf(st, str(1), m.content(st, m.head(st, args[2])))
				case "fmt.Fprint":
					t = m.sprint(st, m.content(st, m.head(st, args[1])))
				default:
					t = str(1)
				}
				op := m.bufAppend(st, w.args[0], t)
				return tuple(mkApp("len", tInt, t), nilErr), op, true
			}
		}
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		t := st.applyAsm(args[1])
		op := m.bufAppend(st, args[0], t)
		return tuple(mkApp("len", tInt, t), nilErr), op, true
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		op := m.bufAppend(st, args[0], stringOf(item(args[1]), false))
		return nilErr, op, true
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		t := mkApp("chr", tString, args[1])
		op := m.bufAppend(st, args[0], t)
		return tuple(mkApp("len", tInt, t), nilErr), op, true
	case "(*strings.Builder).Write", "(*bytes.Buffer).Write":
		t := stringOf(m.freeze(st, m.content(st, m.head(st, args[1]))), false)
		op := m.bufAppend(st, args[0], t)
		return tuple(mkApp("len", tInt, t), nilErr), op, true
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		b, _, _ := m.bufObj(st, args[0])
		if b == nil {
			return bufText(m.load(st, m.head(st, args[0]), fn.Signature.Recv().Type().(*types.Pointer).Elem())), nil, true
		}
		return bufText(b), nil, true
	case "(*bytes.Buffer).Bytes":
		b, _, _ := m.bufObj(st, args[0])
		if b != nil {
			bs := types.NewSlice(types.Typ[types.Byte])
			return newSlice(mkApp("bytes", nil, bufText(b)), types.Typ[types.Byte], bs), nil, true
		}
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		b, _, _ := m.bufObj(st, args[0])
		if b != nil {
			return mkApp("len", tInt, bufText(b)), nil, true
		}
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		b, path, o := m.bufObj(st, args[0])
		if b != nil {
			o.val = pathSet(o.val, path, mkBuf(nil, mkStr("")), o.typ)
			return nil, nil, true
		}
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return nil, nil, true
	case "bytes.NewBufferString":
		id := st.alloc(&Obj{kind: KCell, typ: fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), val: mkBuf(nil, str(0))})
		return mk(OPtr, fn.Signature.Results().At(0).Type(), "", id, nil, nil), nil, true
	case "bytes.NewBuffer":
		id := st.alloc(&Obj{kind: KCell, typ: fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), val: mkBuf(nil, stringOf(m.freeze(st, m.content(st, m.head(st, args[0]))), false))})
		return mk(OPtr, fn.Signature.Results().At(0).Type(), "", id, nil, nil), nil, true
	case "slices.Clone", "slices.Clip", "slices.Grow":
		s := m.head(st, args[0])
		typ := fn.Signature.Results().At(0).Type()
		et := elemType(typ)
		if name == "slices.Clip" {
			if s.op == OSlice || s.op == ONil {
				if s.op == OSlice && len(s.args) == 0 && s.n > 0 && !st.heap[s.n].grown && !st.heap[s.n].foreign {
					st.heap[s.n].exact = true
					return s, nil, true
				}
				return s, nil, s.op == ONil
			}
			n := m.length(st, s)
			return mk(OApp, typ, "subslice", 1, nil, nil, s, mkInt(0), n), nil, true
		}
		if s.op == ONil {
			return s, nil, true
		}
		if name == "slices.Grow" {
			break
		}
		o := &Obj{kind: KArr, typ: et, val: m.content(st, s), nilEmpty: true}
		id := st.alloc(o)
		return mk(OSlice, typ, "", id, nil, nil), nil, true
	case "slices.Contains":
		c := m.freeze(st, m.content(st, m.head(st, args[0])))
		if c.op == OSeq {
			x := m.freeze(st, args[1])
			known := true
			for _, p := range c.args {
				known = known && p.op == OItem
			}
			if known {
				f := tFalse
				for _, p := range c.args {
					f = mkOr(f, mkEq(p.args[0], x))
				}
				return tBoolOf(m.cond(st, f)), nil, true
			}
		}
	case "slices.Concat":
		c := m.content(st, m.head(st, args[0]))
		if c.op == OSeq {
			var ps []*Term
			for _, p := range c.args {
				if p.op != OItem {
					return nil, nil, false
				}
				ps = append(ps, m.content(st, m.head(st, p.args[0])))
			}
			typ := fn.Signature.Results().At(0).Type()
			return newSlice(seq(ps...), elemType(typ), typ), nil, true
		}
	case "maps.Clone":
		x := m.head(st, args[0])
		if x.op == ONil {
			return x, nil, true
		}
		var log *Term
		if x.op == OMap {
			log = m.objOf(st, x).val
		} else {
			if m.cond(st, mkEq(tNil, x)) {
				return tNil, nil, true
			}
			log = x
		}
		typ := fn.Signature.Results().At(0).Type()
		id := st.alloc(&Obj{kind: KMap, typ: typ, val: log})
		return mk(OMap, typ, "", id, nil, nil), nil, true
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "sort.Strings", "slices.Sort", "sort.Sort", "sort.Stable":
		op := m.sort(st, name, args)
		return nil, op, true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return nil, nil, true
	case "strings.NewReader":
		return mk(OApp, fn.Signature.Results().At(0).Type(), "reader", 0, nil, nil, str(0)), nil, true
	case "bufio.NewReader":
		r := m.head(st, args[0])
		if r.op == OIface && r.args[0].op == OPtr {
			if o := st.heap[r.args[0].n]; o != nil && o.val.op == OApp && o.val.str == "stream" {
				return r.args[0], nil, true // large enough already
			}
		}
		src := m.freeze(st, r)
		if r.op == OIface && r.args[0].op == OApp && r.args[0].str == "reader" {
			src = r.args[0].args[0]
		}
		pt := fn.Signature.Results().At(0).Type()
		bt := pt.(*types.Pointer).Elem()
		id := st.alloc(&Obj{kind: KCell, typ: bt, val: mk(OApp, bt, "stream", 0, nil, nil, src, mkInt(0))})
		return mk(OPtr, pt, "", id, nil, nil), nil, true
	case "(*bufio.Reader).ReadRune":
		o := st.heap[m.head(st, args[0]).n]
		if o == nil || o.val.op != OApp || o.val.str != "stream" {
			return nil, nil, false
		}
		src, at := o.val.args[0], o.val.args[1]
		err := fn.Signature.Results().At(2).Type()
		if m.cond(st, mkLt(at, mkApp("runecount", tInt, src))) {
			o.val = mk(OApp, o.val.typ, "stream", 0, nil, nil, src, add(at, mkInt(1)))
			return tuple(runeAt(src, at), mkApp("runesize", tInt, src, at), tNil), nil, true
		}
		return tuple(mkInt(0), mkInt(0), mkSym("var:io.EOF", err)), nil, true
	case "(*bufio.Reader).UnreadRune":
		// Taken to follow a rune that was read.
		o := st.heap[m.head(st, args[0]).n]
		if o == nil || o.val.op != OApp || o.val.str != "stream" {
			return nil, nil, false
		}
		o.val = mk(OApp, o.val.typ, "stream", 0, nil, nil, o.val.args[0], sub(o.val.args[1], mkInt(1)))
		return tNil, nil, true
	case "unicode/utf8.RuneCountInString":
		return mkApp("runecount", tInt, str(0)), nil, true
	case "unicode/utf8.ValidString":
	case "(reflect.Value).Kind", "(reflect.Value).IsNil":
		v := args[0]
		if v.op != OApp || v.str != "reflect.ValueOf" {
			break
		}
		x := m.head(st, v.args[0])
		if x.op != OIface {
			break
		}
		kind := reflectKind(x.typ)
		if fn.Name() == "Kind" {
			if kind != reflect.Invalid {
				return mkInt(int64(kind)), nil, true
			}
			break
		}
		switch kind {
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan:
			return mkEq(x.args[0], tNil), nil, true
		}
	case "(reflect.Value).Int", "(reflect.Value).Uint":
		// The number held by a value of a basic type.
		v := args[0]
		if v.op == OApp && v.str == "reflect.ValueOf" {
			x := st.applyAsm(v.args[0])
			kinds := []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64}
			to := types.Typ[types.Int64]
			if fn.Name() == "Uint" {
				kinds = []types.BasicKind{types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr}
				to = types.Typ[types.Uint64]
			}
			for _, k := range kinds {
				if m.cond(st, mkIs(x, types.Typ[k])) {
					return m.convert(st, mkCast(x, types.Typ[k]), types.Typ[k], to), nil, true
				}
			}
		}
	}
	p := fnPkg(fn)
	if p != nil && purePkgs[p.Path()] && fn.Signature.Recv() == nil && pureName(p.Path(), fn.Name()) || pureMethod(fn) {
		r := m.pure(st, name, fn.Signature.Results(), args)
		return r, nil, true
	}
	return nil, nil, false
}

func reflectKind(t types.Type) reflect.Kind {
	switch t := t.Underlying().(type) {
	case *types.Pointer:
		return reflect.Ptr
	case *types.Map:
		return reflect.Map
	case *types.Slice:
		return reflect.Slice
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	case *types.Basic:
		switch k := t.Kind(); {
		case k == types.String:
			return reflect.String
		case types.Bool <= k && k <= types.Complex128:
			// In the same order.
			return reflect.Kind(k)
		}
	}
	return reflect.Invalid
}

func tBoolOf(b bool) *Term { return mkBool(b) }

// pureName excludes the functions of the pure packages that have effects.
func pureName(pkg, name string) bool {
	if o := strings.IndexByte(name, '['); o > 0 {
		name = name[:o]
	}
	in := func(names ...string) bool {
		for _, n := range names {
			if n == name {
				return true
			}
		}
		return false
	}
	switch pkg {
	case "fmt":
		return in("Sprint", "Sprintf", "Sprintln", "Errorf")
	case "slices":
		return in("Contains", "Index", "Equal", "Compare", "BinarySearch", "IsSorted", "Max", "Min")
	case "maps":
		return in("Equal")
	case "sort":
		return in("SearchStrings", "SearchInts", "StringsAreSorted", "IntsAreSorted")
	case "reflect":
		return in("TypeOf", "ValueOf", "DeepEqual", "Indirect", "Zero")
	case "time":
		return !in("Sleep", "AfterFunc", "NewTimer", "NewTicker", "Tick", "After")
	}
	return true
}

// pureMethod: methods of value types of pure packages.
func pureMethod(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	p := fnPkg(fn)
	if r == nil || p == nil {
		return false
	}
	if _, ok := r.Type().(*types.Pointer); ok {
		return false
	}
	switch p.Path() {
	case "reflect":
		return !strings.HasPrefix(fn.Name(), "Set") && !strings.HasPrefix(fn.Name(), "Call") && !reflectEffects[fn.Name()]
	case "time", "strconv":
		return true
	}
	return false
}

var reflectEffects = map[string]bool{
	"Clear": true, "Close": true, "Comparable": false, "Grow": true, "Recv": true, "Send": true,
	"TryRecv": true, "TrySend": true, "Seq": true, "Seq2": true,
}

func replaceAll(s, old, repl *Term) *Term {
	o, ok1 := old.isStr()
	r, ok2 := repl.isStr()
	if ok1 && ok2 && len([]rune(o)) == 1 {
		return mkHom(s, map[rune]string{[]rune(o)[0]: r})
	}
	if c, ok := s.isStr(); ok && ok1 && ok2 {
		return mkStr(strings.ReplaceAll(c, o, r))
	}
	return mkApp("replaceall", tString, s, old, repl)
}

func replacerTable(c *Term) (map[rune]string, bool) {
	tab := map[rune]string{}
	ps := c.argsOrSelf()
	if len(ps)%2 != 0 {
		return nil, false
	}
	for i := 0; i < len(ps); i += 2 {
		if ps[i].op != OItem || ps[i+1].op != OItem {
			return nil, false
		}
		a, ok1 := ps[i].args[0].isStr()
		b, ok2 := ps[i+1].args[0].isStr()
		if !ok1 || !ok2 || len([]rune(a)) != 1 {
			return nil, false
		}
		r := []rune(a)[0]
		if _, dup := tab[r]; !dup {
			tab[r] = b
		}
	}
	return tab, true
}

// runeMap models strings.Map with a function of the repository.
func (m *Machine) runeMap(st *State, fn, s *Term) *Term {
	if fn.op != OFunc || fn.fn == nil || len(fn.args) > 0 {
		return nil
	}
	r := mkSym("rune?", tInt)
	t := m.summary(fn.fn, nil, []*Term{r})
	if t == nil {
		return nil
	}
	body := mapLeaves(t, func(x *Term) *Term {
		if i, ok := x.isInt(); ok && i < 0 {
			return mkStr("")
		}
		return mkApp("chr", tString, x)
	})
	tab, ok := runeTable(body, r, nil, false)
	if !ok {
		return nil
	}
	return mkHom(s, tab)
}

func hasMethod(t types.Type, name string) *types.Func {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f, _ := ms.At(i).Obj().(*types.Func)
			return f
		}
	}
	return nil
}

// ofBasic tells by its type an operand that a verb renders as a basic type.
func (m *Machine) ofBasic(st *State, verb byte, a *Term) *Term {
	if a.typ == nil || !types.IsInterface(a.typ) {
		return a
	}
	it := a.typ.Underlying().(*types.Interface)
	var flags types.BasicInfo
	switch verb {
	case 'd':
		flags = types.IsInteger
	case 's':
		flags = types.IsString
	case 't':
		flags = types.IsBoolean
	}
	for _, t := range types.Typ {
		if t.Info()&flags == 0 || t.Info()&types.IsUntyped != 0 || !types.Implements(t, it) {
			continue
		}
		if m.cond(st, mkIs(a, t)) {
			return mk(OIface, t, "", 0, nil, nil, mkCast(a, t))
		}
	}
	return a
}

// fmtArg renders one operand; nil when it is not modelled.
func (m *Machine) fmtArg(st *State, verb byte, a *Term) *Term {
	a = m.head(st, a)
	if a.op != OIface {
		a = m.ofBasic(st, verb, a)
	}
	if a.op != OIface {
		return nil
	}
	v := a.args[0]
	if s, ok := a.typ.(*types.Slice); ok && verb == 'x' && types.Identical(s.Elem(), types.Typ[types.Byte]) {
		return mkApp("encoding/hex.EncodeToString", tString, m.freeze(st, v))
	}
	b, _ := a.typ.Underlying().(*types.Basic)
	if b == nil {
		return nil
	}
	for _, mt := range []string{"Error", "String"} {
		if f := hasMethod(a.typ, mt); f != nil && verb != 'd' {
			target := m.w.Prog.LookupMethod(a.typ, f.Pkg(), mt)
			if target == nil || !inModule(target) {
				return nil
			}
			return m.summary(target, nil, []*Term{v})
		}
	}
	switch {
	case b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v'):
		return v
	case b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
		return mkApp("itoa", tString, v)
	case b.Info()&types.IsBoolean != 0 && (verb == 't' || verb == 'v'):
		if m.cond(st, v) {
			return mkStr("true")
		}
		return mkStr("false")
	case b.Info()&types.IsInteger != 0 && verb == 'c':
		return mkApp("chr", tString, v)
	}
	return nil
}

func (m *Machine) sprintf(st *State, f, args *Term) *Term {
	opaque := func() *Term { return mkApp("sprintf", tString, f, m.freeze(st, args)) }
	s, ok := f.isStr()
	if !ok {
		return opaque()
	}
	ps := args.argsOrSelf()
	if isEmptySeq(args) {
		ps = nil
	}
	var out []*Term
	k := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			out = append(out, mkStr(s[i:i+1]))
			continue
		}
		i++
		if i >= len(s) {
			return opaque()
		}
		if s[i] == '%' {
			out = append(out, mkStr("%"))
			continue
		}
		if k >= len(ps) || ps[k].op != OItem {
			return opaque()
		}
		t := m.fmtArg(st, s[i], ps[k].args[0])
		if t == nil {
			return opaque()
		}
		out = append(out, t)
		k++
	}
	if k != len(ps) {
		return opaque()
	}
	return cat(out...)
}

func (m *Machine) sprint(st *State, args *Term) *Term {
	ps := args.argsOrSelf()
	if isEmptySeq(args) {
		ps = nil
	}
	var out []*Term
	prevString := true
	for i, p := range ps {
		if p.op != OItem {
			return mkApp("sprint", tString, m.freeze(st, args))
		}
		a := m.head(st, p.args[0])
		t := m.fmtArg(st, 'v', a)
		if t == nil {
			return mkApp("sprint", tString, m.freeze(st, args))
		}
		b, _ := a.typ.Underlying().(*types.Basic)
		isS := b != nil && b.Info()&types.IsString != 0
		if i > 0 && !isS && !prevString {
			out = append(out, mkStr(" "))
		}
		out = append(out, t)
		prevString = isS
	}
	return cat(out...)
}

// sort models the sorting functions: the elements become sorted(content,
// order), the order being the decision table of the comparator.
func (m *Machine) sort(st *State, name string, args []*Term) *Op {
	x := m.head(st, args[0])
	var dyn types.Type
	for x.op == OIface {
		dyn = x.typ
		x = m.head(st, x.args[0])
	}
	order := "?"
	total := false
	switch name {
	case "sort.Strings", "slices.Sort":
		order, total = "asc", true
	case "sort.Slice", "sort.SliceStable":
		order, total = m.lessOrder(st, x, m.head(st, args[1]))
	case "slices.SortFunc", "slices.SortStableFunc":
		order, total = m.cmpOrder(st, x, m.head(st, args[1]))
	default:
		order, total = m.sortInterface(st, x, dyn)
	}
	if !total && (name == "sort.Slice" || name == "slices.SortFunc" || name == "sort.Sort") {
		order += "/unstable"
	}
	if x.op == ONil {
		return nil
	}
	c := m.content(st, x)
	sorted := mk(OApp, nil, "sorted", 0, nil, nil, c, mkStr(order))
	if c.op == OApp && c.str == "sorted" && c.args[1] == mkStr(order) {
		sorted = c
	}
	if k, ok := fixedItems(c); ok && k <= 1 {
		sorted = c
	}
	if x.op == OSlice && x.n > 0 && len(x.args) == 0 && !st.heap[x.n].foreign {
		st.heap[x.n].val = sorted
		return nil
	}
	return &Op{kind: PMut, term: mk(OTuple, nil, "", 0, nil, nil, m.freeze(st, x)), why: "sorts a slice it does not own", next: []*State{st}}
}

// orPos: "some iteration satisfies v" over n iterations.
func (t *Term) orPos(n *Term, v bool) *Term {
	if !v {
		return tFalse
	}
	return mkLt(mkInt(0), n)
}

func foldAcc(t types.Type) *Term { return mkSym("~acc", t) }

// gatherUpd turns a choice between updates of one element into an update by a choice.
func gatherUpd(b, acc *Term) *Term {
	if b.op != OIte {
		return b
	}
	var i *Term
	var et types.Type
	var find func(t *Term) bool
	find = func(t *Term) bool {
		switch {
		case t.op == OIte:
			return find(t.args[1]) && find(t.args[2])
		case t == acc:
			return true
		case t.op == OApp && t.str == "upd" && t.args[0] == acc && (i == nil || i == t.args[1]):
			i = t.args[1]
			return true
		}
		return false
	}
	if !find(b) || i == nil {
		return b
	}
	et = elementOf(b, acc, i)
	var value func(t *Term) *Term
	value = func(t *Term) *Term {
		switch {
		case t.op == OIte:
			return mkIte(t.args[0], value(t.args[1]), value(t.args[2]))
		case t == acc:
			return mkIndex(acc, i, et)
		}
		return t.args[2]
	}
	return mkApp("upd", acc.typ, acc, i, value(b))
}

// updatesOf says that a term is a sequence with some elements replaced.
func updatesOf(t, acc *Term) bool {
	switch {
	case t == acc:
		return true
	case t.op == OIte:
		return updatesOf(t.args[1], acc) && updatesOf(t.args[2], acc)
	case t.op == OApp && t.str == "upd":
		return updatesOf(t.args[0], acc)
	}
	return false
}

// elementOf is the type under which a term reads an element.
func elementOf(t, of, i *Term) types.Type {
	seen := map[*Term]bool{}
	var et types.Type
	var find func(t *Term) bool
	find = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OIndex && t.args[0] == of && t.args[1] == i {
			et = t.typ
			return true
		}
		for _, a := range t.args {
			if find(a) {
				return true
			}
		}
		return false
	}
	find(t)
	return et
}
