package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loops. A loop is summarised by a fixpoint over its slots: the memory
// locations and values that may differ from one iteration to the next. Every
// slot gets a closed form in the iteration number: unchanged, arithmetic
// progression, accumulation, last value, or an uninterpreted recurrence that
// is nevertheless canonical (the same recurrence in two programs gives the
// same term).

// LoopInfo is the summary of a loop from one entry state.
type LoopInfo struct {
	id     int
	v      *Term // iteration number
	n      *Term // number of iterations
	guard  bool  // n holds only when it is positive
	entry  *State
	body   *State // at the header, iteration v
	exit   *State // at the header, iteration n
	stay   guard  // branch of the header that stays
	panics []*Term
	exits  *Term
	effect bool
	lent   []*slot // slices that the loop grows and does not own
	once   bool    // never comes back to its header
	why    string
}

// atHeader marks the arrival at a loop header.
func (m *Machine) atHeader(f *Frame, l *loopShape) *Op {
	if n := len(f.loops); n > 0 && f.loops[n-1].header == l.header {
		c := &f.loops[n-1]
		if c.info != nil {
			return &Op{kind: PIter}
		}
		if c.last {
			return &Op{kind: PVacuous}
		}
		c.count++
		c.pend, c.peel = true, false
		return nil
	}
	f.loops = append(f.loops, loopCtx{header: l.header, pend: true})
	return nil
}

func (m *Machine) decideLoop(st *State, f *Frame) *Op {
	c := &f.loops[len(f.loops)-1]
	l := loopsOf(f.fn)[c.header]
	run := func() *Op {
		c.pend = false
		f.asm = nil
		return nil
	}
	if c.peel || c.last {
		return run()
	}
	if m.stepped != nil && m.stepped(f.fn) {
		if cond, ok := m.headerCond(st); !ok || cond.op != OConst || c.count > 80 {
			c.count = 0
			run()
			return &Op{kind: PHead, next: []*State{st}}
		}
		return run()
	}
	if cond, ok := m.headerCond(st); ok {
		if v, ok := cond.isBool(); ok {
			if v && c.count > 80 {
				return &Op{kind: PUndecided, why: "long constant loop"}
			}
			return run()
		}
	}
	info := m.generalise(st, l)
	if info.why == "" && info.effect && len(info.lent) > 0 {
		// The slots refer to the state in its canonical form.
		canon := st.clone()
		m.canon(canon)
		again := false
		for _, s := range info.lent {
			// A nil slice is owned by nobody.
			if v := s.get(canon); v.op != ONil && v.op != OSlice && m.cond(st, mkEq(tNil, v)) {
				s.set(canon, tNil)
				again = true
			}
		}
		if again {
			*st = *canon
			return m.decideLoop(st, st.top())
		}
	}
	if info.why != "" && !c.tried {
		c.tried = true
		return run()
	}
	if info.why != "" {
		return &Op{kind: PUndecided, why: "loop: " + info.why}
	}
	if info.once {
		return run()
	}
	if info.guard && !m.cond(st, mkLt(mkInt(0), info.n)) {
		return run()
	}
	for _, p := range info.panics {
		if m.cond(st, mkApp("exists", tBool, info.n, p)) {
			return &Op{kind: PPanic, why: "panic in an iteration"}
		}
	}
	if info.exits != nil {
		if info.effect {
			return &Op{kind: PUndecided, why: "loop with effects and an early exit"}
		}
		if m.cond(st, mkApp("exists", tBool, info.n, info.exits)) {
			*st = *info.body.clone()
			st.substAll(info.v, mkApp("first", tInt, info.exits))
			f := st.top()
			f.loops[len(f.loops)-1] = loopCtx{header: l.header, last: true}
			return nil
		}
	}
	if info.effect {
		return &Op{kind: PLoop, loop: info, next: []*State{info.exit.clone()}}
	}
	*st = *info.exit.clone()
	return nil
}

// headerCond evaluates the condition at the end of the header, over the
// paths of the calls in it.
func (m *Machine) headerCond(st *State) (*Term, bool) {
	s := st.clone()
	depth := len(s.frames)
	f := s.top()
	f.asm = nil
	h := f.blk
	f.loops[len(f.loops)-1].pend = false
	var ps []treePath
	n := 0
	var walk func(s *State, l lits) bool
	walk = func(s *State, l lits) bool {
		for {
			if n++; n > 400 {
				return false
			}
			f := s.top()
			if len(s.frames) == depth {
				if f.blk != h {
					return false
				}
				if in, ok := f.fn.Blocks[h].Instrs[f.idx].(*ssa.If); ok {
					ps = append(ps, treePath{append([]guard{}, l...), m.value(s, f, in.Cond)})
					return true
				}
			}
			op := m.safeInstr(s)
			if op == nil {
				continue
			}
			if op.kind != PBranch || len(s.frames) == depth {
				return false
			}
			if v, ok := l.decide(op.term, used{}); ok {
				s = op.next[1]
				if v {
					s = op.next[0]
				}
				continue
			}
			if !walk(op.next[0], l.with(op.term, true)) {
				return false
			}
			s, l = op.next[1], l.with(op.term, false)
		}
	}
	if !walk(s, nil) {
		return nil, false
	}
	t := buildTree(ps)
	return t, t != nil && t.op != OTop
}

type slot struct {
	phi  ssa.Value
	obj  int
	path []int
	typ  types.Type
	init *Term

	changed bool
	seq     bool // slice value that is replaced: its content is what counts
	buf     bool // text buffer
	ph      *Term
	form    *Term // value at the start of iteration v
	initC   *Term // initial content of a seq slot
	nilE    bool
	foreign bool
}

func (s *slot) String() string {
	if s.phi != nil {
		return fmt.Sprintf("%s%v", s.phi.Name(), s.path)
	}
	return fmt.Sprintf("obj%d%v", s.obj, s.path)
}

func isSliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func flattenType(t types.Type, path []int, out *[]slot) {
	if s := structType(t); s != nil && !isBuffer(t) {
		n := namedOf(t)
		if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() == repoModule || len(n.Obj().Pkg().Path()) > len(repoModule) && n.Obj().Pkg().Path()[:len(repoModule)] == repoModule {
			for i := 0; i < s.NumFields(); i++ {
				flattenType(s.Field(i).Type(), append(append([]int{}, path...), i), out)
			}
			return
		}
	}
	*out = append(*out, slot{path: path, typ: t, buf: isBuffer(t)})
}

func projectPath(t *Term, typ types.Type, path []int) *Term {
	for _, i := range path {
		s := structType(typ)
		t = project(t, i, s.Field(i).Type())
		typ = s.Field(i).Type()
	}
	return t
}

func (s *slot) get(st *State) *Term {
	if s.phi != nil {
		return projectPath(st.top().env[s.phi], s.phi.Type(), s.path)
	}
	o := st.heap[s.obj]
	if o.kind == KCell {
		return projectPath(o.val, o.typ, s.path)
	}
	return o.val
}

func intPath(path []int) []*Term {
	var r []*Term
	for _, i := range path {
		r = append(r, mkInt(int64(i)))
	}
	return r
}

func (s *slot) set(st *State, v *Term) {
	if s.phi != nil {
		f := st.top()
		f.env[s.phi] = pathSet(f.env[s.phi], intPath(s.path), v, s.phi.Type())
		return
	}
	o := st.heap[s.obj]
	if o.kind == KCell {
		o.val = pathSet(o.val, intPath(s.path), v, o.typ)
		return
	}
	o.val = v
}

func (m *Machine) slots(st *State) []*slot {
	var out []*slot
	f := st.top()
	for _, in := range f.fn.Blocks[f.blk].Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if _, live := f.env[phi]; !live {
			continue
		}
		var ss []slot
		flattenType(phi.Type(), nil, &ss)
		for i := range ss {
			ss[i].phi = phi
			out = append(out, &ss[i])
		}
	}
	for id := 1; id <= st.next; id++ {
		o := st.heap[id]
		if o == nil {
			continue
		}
		if o.kind == KCell {
			var ss []slot
			flattenType(o.typ, nil, &ss)
			for i := range ss {
				ss[i].obj = id
				out = append(out, &ss[i])
			}
			continue
		}
		out = append(out, &slot{obj: id})
	}
	for _, s := range out {
		s.init = s.get(st)
	}
	return out
}

// newRefs: does t mention an object allocated after the loop was entered?
func newRefs(t *Term, limit int) bool {
	if !t.refs {
		return false
	}
	switch t.op {
	case OPtr, OSlice, OMap, OIter:
		if t.n > limit {
			return true
		}
	}
	for _, a := range t.args {
		if newRefs(a, limit) {
			return true
		}
	}
	return false
}

// freezeNew freezes the references to objects of the current iteration.
func (m *Machine) freezeNew(st *State, t *Term, limit int) *Term {
	if !newRefs(t, limit) {
		return t
	}
	switch t.op {
	case OPtr, OSlice, OMap:
		return m.freeze(st, t)
	}
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = m.freezeNew(st, a, limit)
	}
	return rebuild(t, as)
}

type bodyPath struct {
	l  lits
	st *State
}

type bodyRun struct {
	backs, exits []bodyPath
	panics       []bodyPath
	effect       bool
	why          string
}

// exploreBody enumerates the acyclic paths of one iteration.
func (m *Machine) exploreBody(b *State, l lits) *bodyRun {
	r := &bodyRun{}
	n := 0
	depth := len(b.frames)
	var walk func(st *State, l lits)
	walk = func(st *State, l lits) {
		for r.why == "" {
			n++
			if n > 6000 {
				r.why = "too many paths"
				return
			}
			op := m.step(st)
			switch op.kind {
			case PBranch:
				u := used{}
				if v, ok := l.decide(op.term, u); ok {
					if v {
						st = op.next[0]
					} else {
						st = op.next[1]
					}
					continue
				}
				walk(op.next[0], l.with(op.term, true))
				st, l = op.next[1], l.with(op.term, false)
			case PEmit, PBind, PWrite, PMut, PLoop:
				r.effect = true
				st = op.next[0]
			case PIter:
				r.backs = append(r.backs, bodyPath{l, op.next[0]})
				return
			case PExit:
				s := op.next[0]
				// Leaving through the header is the normal end.
				if op.why == "header" && len(s.frames) == depth {
					return
				}
				r.exits = append(r.exits, bodyPath{l, s})
				return
			case PRet:
				r.exits = append(r.exits, bodyPath{l, st})
				return
			case PPanic:
				r.panics = append(r.panics, bodyPath{l, st})
				return
			case PVacuous:
				return
			default:
				r.why = op.why
				return
			}
		}
	}
	walk(b, l)
	return r
}

func (m *Machine) depthOf(st *State) int {
	d := 0
	for _, f := range st.frames {
		for _, c := range f.loops {
			if c.info != nil {
				d++
			}
		}
	}
	return d
}

func mentionsAny(t *Term, ps []*Term) bool {
	for _, p := range ps {
		if mentions(t, p) {
			return true
		}
	}
	return false
}

func (m *Machine) generalise(st *State, l *loopShape) *LoopInfo {
	entry := st.clone()
	f := entry.top()
	f.asm = nil
	f.loops[len(f.loops)-1] = loopCtx{header: l.header}
	key := m.canon(entry)
	if i, ok := m.loops[key]; ok {
		return i
	}
	m.infos++
	info := &LoopInfo{id: m.infos, entry: entry}
	m.loops[key] = info
	d := m.depthOf(entry)
	k := mkSym(fmt.Sprintf("#%d", d), tInt)
	info.v = k
	fail := func(format string, a ...any) *LoopInfo {
		info.why = fmt.Sprintf(format, a...)
		return info
	}
	slots := m.slots(entry)
	for i, s := range slots {
		t := s.typ
		s.ph = mkSym(fmt.Sprintf("@%d.%d", d, i), t)
		s.initC = s.init
		if s.buf {
			s.ph = mkSym(fmt.Sprintf("@%d.%d", d, i), tString)
			s.initC = bufText(s.init)
		}
	}
	build := func(kt *Term) *State {
		b := entry.clone()
		b.top().loops[len(b.top().loops)-1].info = info
		for _, s := range slots {
			if !s.changed {
				continue
			}
			v := s.ph
			if s.form != nil {
				v = s.form
				if kt != k {
					v = subst(v, k, kt)
				}
			}
			switch {
			case s.seq:
				id := b.alloc(&Obj{kind: KArr, typ: elemType(s.typ), val: v, nilEmpty: s.nilE, foreign: s.foreign})
				v = mk(OSlice, s.typ, "", id, nil, nil)
			case s.buf:
				v = mkBuf(nil, v)
			}
			s.set(b, v)
		}
		return b
	}
	// value of slot s after an iteration, as content
	after := func(s *slot, p bodyPath) (*Term, bool) {
		v := s.get(p.st)
		if s.seq {
			switch v.op {
			case ONil:
				return seq(), true
			case OSlice:
				return m.freezeNew(p.st, m.content(p.st, v), entry.next), true
			}
			return v, true
		}
		if s.buf {
			return bufText(v), true
		}
		return m.freezeNew(p.st, v, entry.next), true
	}
	var run *bodyRun
	var limit int
	for round := 0; ; round++ {
		if round > 24 {
			return fail("no fixpoint")
		}
		b := build(k)
		limit = b.next
		_ = limit
		run = m.exploreBody(b, nil)
		if run.why != "" {
			return fail("%s", run.why)
		}
		// New slots that change.
		grew := false
		for _, s := range slots {
			if s.changed {
				continue
			}
			for _, p := range run.backs {
				v := s.get(p.st)
				if v == s.init {
					continue
				}
				s.changed, grew = true, true
				if s.typ != nil && isSliceType(s.typ) {
					s.seq = true
					s.foreign = m.borrowed(entry, s.init)
					switch s.init.op {
					case ONil:
						s.initC, s.nilE = seq(), true
					case OSlice:
						s.initC = m.content(entry, s.init)
						if o := m.objOf(entry, s.init); o != nil {
							s.nilE = o.nilEmpty
						}
					}
				} else if v.op == OPtr || v.op == OMap || v.op == OIter || v.op == OSlice {
					return fail("a reference changes from one iteration to the next (%s)", s)
				}
				break
			}
		}
		if grew {
			for _, s := range slots {
				if s.changed {
					s.form = nil
				}
			}
			continue
		}
		// Resolve.
		var open []*Term
		for _, s := range slots {
			if s.changed && s.form == nil {
				open = append(open, s.ph)
			}
		}
		if len(open) == 0 {
			if round == 0 && len(run.backs) == 0 {
				info.once = true
				return info
			}
			break
		}
		resolved := false
		type cand struct {
			s    *slot
			vals []*Term
		}
		var cands []cand
		for _, s := range slots {
			if !s.changed || s.form != nil {
				continue
			}
			c := cand{s: s}
			for _, p := range run.backs {
				v, ok := after(s, p)
				if !ok {
					return fail("slot %s", s)
				}
				c.vals = append(c.vals, v)
			}
			cands = append(cands, c)
		}
		if len(run.backs) == 0 {
			return fail("the loop never comes back")
		}
		tree := func(f func(int) *Term) *Term {
			var ps []treePath
			for i, p := range run.backs {
				var g []guard
				g = append(g, p.l...)
				ps = append(ps, treePath{g, f(i)})
			}
			return buildTree(ps)
		}
		// Arithmetic progressions first.
		for _, c := range cands {
			step, ok := int64(0), true
			for i, v := range c.vals {
				if !isIntTerm(v) && !isIntTerm(c.s.ph) && v.op != OLin {
					ok = false
					break
				}
				x, isC := sub(v, c.s.ph).isInt()
				if !isC || i > 0 && x != step {
					ok = false
					break
				}
				step = x
			}
			if ok && (isIntTerm(c.s.ph) || c.s.typ == nil && isIntTerm(c.s.init)) {
				c.s.form = add(c.s.initC, lin{ts: map[*Term]int64{k: step}}.term())
				resolved = true
			}
		}
		if resolved {
			continue
		}
		for _, c := range cands {
			s := c.s
			// Replaced at every iteration.
			t := tree(func(i int) *Term { return c.vals[i] })
			if t != nil && t.op != OTop && !mentionsAny(t, open) {
				if !s.seq && subst(t, k, mkInt(-1)) == s.initC {
					// What the iteration before the first would have left.
					s.form = subst(t, k, sub(k, mkInt(1)))
				} else {
					prev := subst(t, k, sub(k, mkInt(1)))
					s.form = mkIte(mkEq(mkInt(0), k), s.initC, prev)
				}
				resolved = true
				continue
			}
			// Accumulated.
			if t := tree(func(i int) *Term { return tail(c.vals[i], s.ph) }); t != nil && t.op != OTop && !mentionsAny(t, open) && !hasNoTail(t) {
				if bt := noneTail; !mentions(t, bt) {
					body := subst(t, k, boundVar(t.h))
					if s.textual() {
						s.form = cat(s.initC, mkTextStar(k, body))
					} else {
						s.form = seq(s.initC, mkStar(k, body))
					}
					resolved = true
					continue
				}
			}
			// Shortened from the front.
			if d, ok := shortened(c.vals, s.ph); ok {
				s.form = subseq(s.initC, lin{ts: map[*Term]int64{k: d}}.term(), seqLen(s.initC))
				resolved = true
				continue
			}
			// Cut piece by piece.
			if sep, d, ok := cutFrom(c.vals, s.ph); ok {
				s.form = mkRest(s.initC, sep, lin{ts: map[*Term]int64{k: d}}.term())
				resolved = true
				continue
			}
			// Filled by index.
			if form := fillForm(c.vals, s, k, open, tree); form != nil {
				s.form = form
				resolved = true
				continue
			}
		}
		if resolved {
			continue
		}
		// A recurrence on itself only.
		for _, c := range cands {
			s := c.s
			t := tree(func(i int) *Term { return c.vals[i] })
			if t == nil || t.op == OTop {
				continue
			}
			var others []*Term
			for _, p := range open {
				if p != s.ph {
					others = append(others, p)
				}
			}
			if mentionsAny(t, others) {
				continue
			}
			t = subst(t, s.ph, foldAcc(s.typ))
			body := subst(t, k, boundVar(t.h))
			s.form = mkApp("fold", s.typ, k, s.initC, body)
			resolved = true
			break
		}
		if !resolved {
			return fail("mutually recursive values")
		}
	}
	// The number of iterations.
	b := build(k)
	bh := b.clone()
	cond, ok := m.headerCond(bh)
	if !ok {
		return fail("the loop condition is not a single test")
	}
	blk := f.fn.Blocks[l.header]
	in0, in1 := l.body[blk.Succs[0].Index], len(blk.Succs) > 1 && l.body[blk.Succs[1].Index]
	if in0 == in1 {
		return fail("the loop condition does not leave the loop")
	}
	if !in0 {
		cond = mkNot(cond)
	}
	n, atom, val, ok := iterations(cond, k)
	if !ok {
		// Until a condition first holds. Whether that ever happens is not
		// asked here: both programs wait for the same event.
		n, atom, val, ok = untilFirst(cond, k)
	}
	if !ok {
		return fail("the number of iterations is not known (%s)", cond)
	}
	info.n = n
	info.guard = !linNonNeg(n)
	info.stay = guard{atom, val}
	// Final run, within bounds.
	l0 := lits{}.with(atom, val)
	run = m.exploreBody(b.clone(), l0)
	if run.why != "" {
		return fail("%s", run.why)
	}
	info.effect = run.effect
	for _, s := range slots {
		if s.changed && s.foreign {
			info.lent = append(info.lent, s)
		}
	}
	info.body = build(k)
	info.exit = build(n)
	info.exit.top().loops[len(info.exit.top().loops)-1] = loopCtx{header: l.header}
	tf := func(yes, no []bodyPath) *Term {
		var ps []treePath
		addp := func(l lits, v *Term) {
			var g []guard
			for _, x := range l {
				if x.atom != atom {
					g = append(g, x)
				}
			}
			ps = append(ps, treePath{g, v})
		}
		for _, p := range yes {
			addp(p.l, tTrue)
		}
		for _, p := range no {
			addp(p.l, tFalse)
		}
		t := buildTree(ps)
		return subst(t, k, boundVar(t.h))
	}
	if len(run.exits) > 0 {
		// The first iteration that panics or leaves is the last.
		info.exits = tf(append(append([]bodyPath{}, run.exits...), run.panics...), run.backs)
	} else if len(run.panics) > 0 {
		info.panics = append(info.panics, tf(run.panics, run.backs))
	}
	return info
}

func (s *slot) textual() bool {
	return s.buf || s.typ != nil && isStringType(s.typ)
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

var noneTail = mkTop("no tail", nil)

// tail returns what v adds to ph.
func tail(v, ph *Term) *Term {
	if v == ph {
		if ph.typ != nil && isStringType(ph.typ) {
			return mkStr("")
		}
		return seq()
	}
	switch v.op {
	case OCat:
		if v.args[0] == ph {
			return cat(v.args[1:]...)
		}
	case OSeq:
		if len(v.args) > 0 && v.args[0] == ph {
			return seq(v.args[1:]...)
		}
	case OIte:
		return mkIte(v.args[0], tail(v.args[1], ph), tail(v.args[2], ph))
	}
	return noneTail
}

// shortened recognises x = x[d:]; that there are d elements is checked where
// the slice is taken.
func shortened(vals []*Term, ph *Term) (int64, bool) {
	var d int64
	for i, v := range vals {
		if v.op != OApp || v.str != "subseq" || v.args[0] != ph || v.args[2] != seqLen(ph) {
			return 0, false
		}
		k, ok := v.args[1].isInt()
		if !ok || k <= 0 || i > 0 && k != d {
			return 0, false
		}
		d = k
	}
	return d, len(vals) > 0
}

func hasNoTail(t *Term) bool { return mentions(t, noneTail) }

// fillForm recognises x[c+k] = v over a zeroed suffix.
func fillForm(vals []*Term, s *slot, k *Term, open []*Term, tree func(func(int) *Term) *Term) *Term {
	init := s.initC
	parts := init.argsOrSelf()
	if len(parts) == 0 {
		return nil
	}
	z := parts[len(parts)-1]
	var prefix *Term
	var zn *Term
	if z.op == OZeros {
		prefix = seq(parts[:len(parts)-1]...)
		zn = z.args[0]
	} else {
		return nil
	}
	if isEmptySeq(prefix) {
		prefix = seq()
	}
	off := seqLen(prefix)
	for _, v := range vals {
		if v.op != OApp || v.str != "upd" || v.args[0] != s.ph || v.args[1] != add(off, k) {
			return nil
		}
	}
	t := tree(func(i int) *Term { return item(vals[i].args[2]) })
	if t == nil || mentionsAny(t, open) {
		return nil
	}
	body := subst(t, k, boundVar(t.h))
	return seq(prefix, mkStar(k, body), mk(OZeros, z.typ, "", 0, nil, nil, sub(zn, k)))
}

// iterations solves the staying condition for the number of iterations.
func iterations(cond, k *Term) (n, atom *Term, val, ok bool) {
	val = true
	atom = cond
	if cond.op == OApp && cond.str == "not" {
		atom, val = cond.args[0], false
	}
	if atom.op != OApp {
		return
	}
	switch atom.str {
	case "pos", "zero":
	default:
		return
	}
	ln := toLin(atom.args[0])
	c := ln.ts[k]
	rest := lin{c: ln.c, ts: map[*Term]int64{}}
	for t, x := range ln.ts {
		if t != k {
			if mentions(t, k) {
				return
			}
			rest.ts[t] = x
		}
	}
	r := rest.term()
	switch {
	case atom.str == "pos" && val && c == -1: // r - k > 0
		n = r
	case atom.str == "pos" && !val && c == 1: // r + k <= 0
		n = sub(mkInt(1), r)
	case atom.str == "zero" && !val && c == -1: // r != k
		n = r
		if !linNonNeg(r) {
			return
		}
	case atom.str == "zero" && !val && c == 1: // k != -r
		n = sub(mkInt(0), r)
		if !linNonNeg(n) {
			return
		}
	case atom.str == "pos" && val && c < -1:
		// steps of more than one: ceil(r / -c)
		n = mkApp("ceildiv", tInt, r, mkInt(-c))
	default:
		return
	}
	return n, atom, val, true
}

// untilFirst counts the iterations of a loop that goes on while cond(k).
func untilFirst(cond, k *Term) (n, atom *Term, val, ok bool) {
	atom, val = cond, true
	for atom.op == OApp && atom.str == "not" {
		atom, val = atom.args[0], !val
	}
	if atom.op != OApp || atom.str != "eq" || !mentions(atom, k) || atom.refs {
		return nil, nil, false, false
	}
	stop := atom
	if val {
		stop = mkNot(atom)
	}
	return mkApp("first", tInt, subst(stop, k, boundVar(stop.h))), atom, val, true
}

// --- pure summaries of functions

type retPath struct {
	l   lits
	val *Term
	st  *State
}

// outcomes enumerates the paths of a computation without effects.
func (m *Machine) outcomes(st *State, l lits) (rets []retPath, panics []lits, why string) {
	n := 0
	var walk func(st *State, l lits)
	walk = func(st *State, l lits) {
		for why == "" {
			n++
			if n > 4000 {
				why = "too many paths"
				return
			}
			op := m.step(st)
			switch op.kind {
			case PBranch:
				if v, ok := l.decide(op.term, used{}); ok {
					if v {
						st = op.next[0]
					} else {
						st = op.next[1]
					}
					continue
				}
				walk(op.next[0], l.with(op.term, true))
				st, l = op.next[1], l.with(op.term, false)
			case PRet:
				rets = append(rets, retPath{l, op.term, st})
				return
			case PPanic:
				panics = append(panics, l)
				return
			case PVacuous:
				return
			case PExit:
				st = op.next[0]
			default:
				why = op.why
				if why == "" {
					why = "effect: " + opNames[op.kind]
				}
				return
			}
		}
	}
	walk(st, l)
	return
}

// summary is the decision tree of the result of a pure function.
func (m *Machine) summary(fn *ssa.Function, bindings, args []*Term) *Term {
	st := newState(fn, bindings, args)
	rets, _, why := m.outcomes(st, nil)
	if why != "" || len(rets) == 0 {
		return nil
	}
	var ps []treePath
	for _, r := range rets {
		v := r.val
		if len(v.args) == 1 {
			v = v.args[0]
		}
		ps = append(ps, treePath{r.l, v})
	}
	return buildTree(ps)
}

func newState(fn *ssa.Function, bindings, args []*Term) *State {
	f := &Frame{fn: fn, env: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[p] = bindings[i]
	}
	return &State{frames: []*Frame{f}, heap: map[int]*Obj{}}
}

// --- comparators

// lessOrder analyses the less(i, j) function of a sort of x.
func (m *Machine) lessOrder(st *State, x, fn *Term) (string, bool) {
	if fn.op != OFunc || fn.fn == nil || x.op != OSlice || x.n <= 0 || len(x.args) > 0 {
		return "unknown", false
	}
	i, j := mkSym("P?i", tInt), mkSym("P?j", tInt)
	return m.orderOf(st, x, i, j, func(s *State) {
		f := &Frame{fn: fn.fn, env: map[ssa.Value]*Term{}}
		f.env[fn.fn.Params[0]], f.env[fn.fn.Params[1]] = i, j
		for k, p := range fn.fn.FreeVars {
			f.env[p] = fn.args[k]
		}
		s.frames = []*Frame{f}
	}, false)
}

func (m *Machine) orderOf(st *State, x *Term, i, j *Term, enter func(*State), cmp bool) (string, bool) {
	s := st.clone()
	o := s.heap[x.n]
	et := o.typ
	base := mkSym("sorted?", types.NewSlice(et))
	o.val = base
	enter(s)
	l := lits{}
	for _, v := range []*Term{i, j} {
		a := mkLt(v, seqLen(base))
		l = l.with(a, true)
	}
	rets, _, why := m.outcomes(s, l)
	if why != "" {
		return "unknown: " + why, false
	}
	a, b := mkIndex(base, i, et), mkIndex(base, j, et)
	return orderTable(rets, a, b, et, cmp)
}

// cmpOrder analyses the cmp(a, b) function of a sort.
func (m *Machine) cmpOrder(st *State, x, fn *Term) (string, bool) {
	if fn.op != OFunc || fn.fn == nil || len(fn.fn.Params) != 2 {
		if fn.op == OFunc && (fullNameOf(fn) == "strings.Compare" || fullNameOf(fn) == "cmp.Compare") {
			return "asc", true
		}
		return "unknown", false
	}
	if n := fullName(fn.fn); n == "strings.Compare" || n == "cmp.Compare" {
		return "asc", true
	}
	et := fn.fn.Params[0].Type()
	a, b := mkSym("sort?a", et), mkSym("sort?b", et)
	s := st.clone()
	f := &Frame{fn: fn.fn, env: map[ssa.Value]*Term{}}
	f.env[fn.fn.Params[0]], f.env[fn.fn.Params[1]] = a, b
	for k, p := range fn.fn.FreeVars {
		f.env[p] = fn.args[k]
	}
	s.frames = []*Frame{f}
	rets, _, why := m.outcomes(s, nil)
	if why != "" {
		return "unknown: " + why, false
	}
	return orderTable(rets, a, b, et, true)
}

func fullNameOf(t *Term) string {
	if t.fn != nil {
		return fullName(t.fn)
	}
	return t.str
}

// sortInterface analyses a sort.Interface value.
func (m *Machine) sortInterface(st *State, x *Term, dyn types.Type) (string, bool) {
	if n := namedOf(dyn); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sort" && (n.Obj().Name() == "StringSlice" || n.Obj().Name() == "IntSlice") {
		return "asc", true
	}
	if x.op != OSlice || x.n <= 0 || len(x.args) > 0 || !isSliceType(dyn) {
		return "unknown", false
	}
	method := func(name string) *ssa.Function {
		sel := m.w.Prog.MethodSets.MethodSet(dyn).Lookup(nil, name)
		if sel == nil {
			return nil
		}
		return m.w.Prog.MethodValue(sel)
	}
	i, j := mkSym("P?i", tInt), mkSym("P?j", tInt)
	enter := func(fn *ssa.Function, args ...*Term) func(*State) {
		return func(s *State) {
			f := &Frame{fn: fn, env: map[ssa.Value]*Term{}}
			for k, p := range fn.Params {
				f.env[p] = args[k]
			}
			s.frames = []*Frame{f}
		}
	}
	less, swap, length := method("Less"), method("Swap"), method("Len")
	if less == nil || swap == nil || length == nil {
		return "unknown", false
	}
	base := mkSym("sorted?", types.NewSlice(st.heap[x.n].typ))
	prep := func() (*State, lits) {
		s := st.clone()
		s.heap[x.n].val = base
		l := lits{}
		for _, v := range []*Term{i, j} {
			l = l.with(mkLt(v, seqLen(base)), true)
		}
		return s, l
	}
	s, l := prep()
	enter(length, x)(s)
	rets, _, why := m.outcomes(s, l)
	if why != "" || len(rets) != 1 || rets[0].val.args[0] != seqLen(base) {
		return "unknown: Len", false
	}
	s, l = prep()
	enter(swap, x, i, j)(s)
	rets, _, why = m.outcomes(s, l)
	et := st.heap[x.n].typ
	want := seqSet(seqSet(base, i, mkIndex(base, j, et)), j, mkIndex(base, i, et))
	if why != "" || len(rets) != 1 || rets[0].st.heap[x.n].val != want {
		return "unknown: Swap", false
	}
	return m.orderOf(st, x, i, j, enter(less, x, i, j), false)
}

// orderTable names an order by its decision table, and tells whether it is
// total: two elements neither of which precedes the other are equal in every
// field the sort could leave in either order.
func orderTable(rets []retPath, a, b *Term, et types.Type, cmp bool) (string, bool) {
	A, B := mkSym("sort?A", et), mkSym("sort?B", et)
	mp := map[*Term]*Term{a: A, b: B}
	ren := func(t *Term) *Term { return substMap(t, mp, map[*Term]*Term{}) }
	var less []lits // conditions under which a precedes b
	var ps []treePath
	for _, r := range rets {
		v := r.val.args[0]
		var g []guard
		for _, x := range r.l {
			y := ren(x.atom)
			if mentions(y, A) || mentions(y, B) {
				g = append(g, guard{y, x.val})
			}
		}
		v = ren(v)
		// A boolean result may still be a formula.
		if cmp {
			n, ok := v.isInt()
			if !ok {
				return "unknown", false
			}
			v = mkBool(n < 0)
		}
		var open func(f *Term, g []guard)
		open = func(f *Term, g []guard) {
			if bv, ok := f.isBool(); ok {
				ps = append(ps, treePath{g, f})
				if bv {
					less = append(less, lits(g))
				}
				return
			}
			at := pickAtom(f)
			if val, ok := lits(g).decide(at, used{}); ok {
				open(subst(f, at, mkBool(val)), g)
				return
			}
			open(subst(f, at, tTrue), append(append([]guard{}, g...), guard{at, true}))
			open(subst(f, at, tFalse), append(append([]guard{}, g...), guard{at, false}))
		}
		open(v, g)
	}
	t := buildTree(ps)
	if t == nil {
		return "unknown", false
	}
	// Collect the key comparisons.
	atoms := map[*Term]bool{}
	var collect func(t *Term)
	collect = func(t *Term) {
		if t.op == OIte {
			atoms[pickAtom(t.args[0])] = true
			for _, x := range t.args {
				collect(x)
			}
			return
		}
		if t.op == OApp && (t.str == "not" || t.str == "and") {
			for _, x := range t.args {
				collect(x)
			}
			return
		}
		if t.op == OApp {
			atoms[t] = true
		}
	}
	collect(t)
	name := t.String()
	// Keys: f with atoms lt(f(A), f(B)), lt(f(B), f(A)) or eq(f(A), f(B)).
	keys := map[*Term]bool{}
	for at := range atoms {
		if at.str != "lt" && at.str != "eq" {
			return "unknown " + name, false
		}
		x, y := at.args[0], at.args[1]
		sw := map[*Term]*Term{A: B, B: A}
		if substMap(x, sw, map[*Term]*Term{}) != y {
			return "unknown " + name, false
		}
		if mentions(x, A) {
			keys[x] = true
		} else {
			keys[y] = true
		}
	}
	var ks []*Term
	for x := range keys {
		ks = append(ks, x)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	// Evaluate the table on every combination of key comparisons.
	evalAt := func(rel []int) (bool, bool) { // rel: -1 A<B, 0 equal, 1 A>B
		mp := map[*Term]*Term{}
		for i, x := range ks {
			y := substMap(x, map[*Term]*Term{A: B, B: A}, map[*Term]*Term{})
			mp[mkLt(x, y)] = mkBool(rel[i] < 0)
			mp[mkLt(y, x)] = mkBool(rel[i] > 0)
			mp[mkEq(x, y)] = mkBool(rel[i] == 0)
		}
		return substMap(t, mp, map[*Term]*Term{}).isBool()
	}
	rel := make([]int, len(ks))
	total := true
	var sig []byte
	var all func(i int) bool
	all = func(i int) bool {
		if i < len(ks) {
			for _, r := range []int{-1, 0, 1} {
				rel[i] = r
				if !all(i + 1) {
					return false
				}
			}
			return true
		}
		v, ok := evalAt(rel)
		if !ok {
			return false
		}
		inv := make([]int, len(rel))
		eq := true
		for i, r := range rel {
			inv[i] = -r
			eq = eq && r == 0
		}
		w, ok := evalAt(inv)
		if !ok {
			return false
		}
		if v && w {
			return false // not an order
		}
		if !v && !w && !eq {
			total = false
		}
		if v {
			sig = append(sig, '<')
		} else {
			sig = append(sig, '.')
		}
		return true
	}
	if !all(0) {
		return "unknown " + name, false
	}
	var names []string
	for _, x := range ks {
		names = append(names, x.String())
	}
	return fmt.Sprintf("%v%s", names, sig), total
}
