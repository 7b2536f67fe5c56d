package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Simulation. Programs that read a stream with loops of different shapes (a
// parser, a lexer) have no closed form. They are compared by a simulation: the
// program under analysis is run from loop head to loop head, the specification
// follows it with what that settles, and each pair of abstract states met is
// generalised against those met before at the same place until every pair
// reached is an instance of a known one. Then the relation holds after any
// number of iterations.

type simNode struct {
	id      int
	q, s    *State
	end     *Op // the specification has ended
	l       lits
	holes   []*Term
	dirty   bool
	runs    int
	general int               // times generalised
	edges   map[*simNode]bool // to: true if the specification advanced, each time
	path    lits              // one way to get here, for messages
}

type sim struct {
	p      *Prod
	mq, ms *Machine
	nodes  map[string][]*simNode
	all    []*simNode
	wide   map[string]map[string]bool // values met at an integer location

	counters map[ssa.Value]bool
	fields   map[string]bool
	work     []*simNode
	fresh    int
	steps    int
}

// Distinct constants at one location before it is generalised: those that come
// from arithmetic are counters, the others enumerate states.
const (
	counterValues = 1
	stateValues   = 12
)

// computed tells whether v comes from arithmetic, through phis.
func (x *sim) computed(v ssa.Value) bool {
	if c, ok := x.counters[v]; ok {
		return c
	}
	x.counters[v] = false
	r := false
	switch v := v.(type) {
	case *ssa.Const:
	case *ssa.Phi:
		for _, e := range v.Edges {
			r = r || x.computed(e)
		}
	case *ssa.ChangeType:
		r = x.computed(v.X)
	case *ssa.UnOp:
		// A field or variable of its own.
		if a, ok := v.X.(*ssa.FieldAddr); ok {
			r = x.fields[fieldKey(a.X.Type().Underlying().(*types.Pointer).Elem(), a.Field)]
		}
	default:
		r = true
	}
	x.counters[v] = r
	return r
}

func fieldKey(t types.Type, i int) string { return fmt.Sprintf("%s.%d", tkey(t), i) }

// findCounters finds the struct fields that are assigned the results of arithmetic.
func (x *sim) findCounters(stepped func(*ssa.Function) bool) {
	x.counters, x.fields = map[ssa.Value]bool{}, map[string]bool{}
	for fn := range ssautil.AllFunctions(x.mq.w.Prog) {
		if fn.Blocks == nil || !strings.HasPrefix(pkgPathOf(fn), repoModule) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, arith := st.Val.(*ssa.BinOp); arith {
					x.fields[fieldKey(a.X.Type().Underlying().(*types.Pointer).Elem(), a.Field)] = true
				}
			}
		}
	}
}

func pkgPathOf(fn *ssa.Function) string {
	if p := fnPkg(fn); p != nil {
		return p.Path()
	}
	return ""
}

// Simulate compares q and s, whose loops are run step by step where stepped tells.
func (w *World) Simulate(q, s *ssa.Function, opaque map[string]bool, stepped func(*ssa.Function) bool, limit int) (*Fail, *Prod, *sim) {
	args := make([]*Term, len(q.Params))
	for i, x := range q.Params {
		args[i] = mkSym(x.Name(), x.Type())
	}
	p := &Prod{w: w, memo: map[string][]memoEntry{}, limit: limit}
	x := &sim{p: p, mq: newMachine(w), ms: newMachine(w), nodes: map[string][]*simNode{}, wide: map[string]map[string]bool{}}
	x.mq.root, x.ms.root = q, s
	x.mq.opaque, x.ms.opaque = opaque, opaque
	x.mq.stepped, x.ms.stepped = stepped, stepped
	x.findCounters(stepped)
	// The start is a pair of its own.
	start := &simNode{q: newState(q, nil, args), s: newState(s, nil, args), edges: map[*simNode]bool{}}
	x.all = append(x.all, start)
	x.work = []*simNode{start}
	for len(x.work) > 0 {
		n := x.work[0]
		x.work = x.work[1:]
		n.dirty = false
		n.runs++
		if n.runs > 40 || len(x.all) > 600 {
			return &Fail{why: "the simulation does not converge", undec: true}, p, x
		}
		for to := range n.edges {
			delete(n.edges, to)
		}
		if f := x.runQ(n, n.q.clone(), n.l, append(lits{}, n.path...)); f != nil {
			return f, p, x
		}
	}
	if n := x.stuck(); n != nil {
		pos, where := x.mq.position(n.q)
		return &Fail{why: "the loop can go on without consuming input", pos: pos, where: where, path: n.path}, p, x
	}
	return nil, p, x
}

func (x *sim) budget(n *simNode, q *State, l lits) *Fail {
	x.steps++
	if x.steps > x.p.limit {
		pos, where := x.mq.position(q)
		return &Fail{why: "analysis budget exhausted", pos: pos, where: where, path: l, undec: true}
	}
	return nil
}

// runQ runs the program under analysis from n to its next loop heads and ends.
func (x *sim) runQ(n *simNode, q *State, l, path lits) *Fail {
	if f := x.budget(n, q, l); f != nil {
		return f
	}
	for {
		if n.dirty {
			return nil // generalised meanwhile: to be run again
		}
		op := x.mq.step(q)
		switch op.kind {
		case PBranch:
			u := used{}
			if v, ok := l.decide(op.term, u); ok {
				q = op.next[1]
				if v {
					q = op.next[0]
				}
				continue
			}
			x.p.splits++
			for i, v := range []bool{true, false} {
				m := l.with(op.term, v)
				if m.contradictory() {
					continue
				}
				if f := x.runQ(n, op.next[i], m, path.with(op.term, v)); f != nil {
					return f
				}
			}
			return nil
		case PExit:
			q = op.next[0]
		case PHead:
			return x.arrive(n, op.next[0], l, path)
		case PRet, PPanic:
			s := n.s
			return x.finish(n, op, s.clone(), n.end, l, path, 0)
		case PVacuous:
			return nil
		default:
			return &Fail{why: "not decided: " + op.why + " (" + opNames[op.kind] + ")", pos: op.pos, where: op.where, path: path, undec: true}
		}
	}
}

// arrive: q is at a loop head; s follows, and the pair is folded.
func (x *sim) arrive(n *simNode, q *State, l, path lits) *Fail {
	s, end, adv := x.follow(n.s, n.end, l)
	return x.fold(n, q, s, end, adv, l, path)
}

// follow runs s as far as what is known settles.
func (x *sim) follow(s *State, end *Op, l lits) (*State, *Op, int) {
	last := s
	if end != nil {
		return s, end, 0
	}
	cur := s.clone()
	adv := 0
	for i := 0; i < 4000; i++ {
		op := x.ms.step(cur)
		switch op.kind {
		case PBranch:
			v, ok := l.decide(op.term, used{})
			if !ok {
				if os.Getenv("VT_SIM") != "" {
					fmt.Fprintf(os.Stderr, "  waits for %s knowing %s\n", op.term, l)
				}
				return last, nil, adv
			}
			cur = op.next[1]
			if v {
				cur = op.next[0]
			}
		case PExit:
			cur = op.next[0]
		case PHead:
			cur = op.next[0]
			last = cur.clone()
			adv++
		case PRet, PPanic:
			return last, op, adv
		default:
			return last, nil, adv
		}
	}
	return last, nil, adv
}

// finish: q has ended; s runs to its end in every way.
func (x *sim) finish(n *simNode, qe *Op, s *State, se *Op, l, path lits, heads int) *Fail {
	if f := x.budget(n, s, l); f != nil {
		return f
	}
	for se == nil {
		op := x.ms.step(s)
		switch op.kind {
		case PBranch:
			if v, ok := l.decide(op.term, used{}); ok {
				s = op.next[1]
				if v {
					s = op.next[0]
				}
				continue
			}
			x.p.splits++
			for i, v := range []bool{true, false} {
				m := l.with(op.term, v)
				if m.contradictory() {
					continue
				}
				if f := x.finish(n, qe, op.next[i].clone(), nil, m, path.with(op.term, v), heads); f != nil {
					return f
				}
			}
			return nil
		case PExit:
			s = op.next[0]
		case PHead:
			s = op.next[0]
			heads++
			if heads > 12 {
				if os.Getenv("VT_SIM") != "" {
					fmt.Fprintf(os.Stderr, "reads on from node %d: %s\n  path %v\n  end %v\n", n.id, x.show(n), path, qe.term)
				}
				return &Fail{why: "ends (" + endName(qe) + ") while the specification reads on", pos: qe.pos, where: qe.where, path: path}
			}
		case PRet, PPanic:
			se = op
		case PVacuous:
			return nil
		default:
			return &Fail{why: "not decided in the specification: " + op.why, pos: qe.pos, where: qe.where, path: path, undec: true}
		}
	}
	f := x.endsEqual(qe, se, l, path)
	if f != nil && os.Getenv("VT_SIM") != "" {
		fmt.Fprintf(os.Stderr, "ends from node %d: %s\n  path %v\n  facts %v\n", n.id, x.show(n), path, l)
	}
	return f
}

func (x *sim) endsEqual(qe, se *Op, l, path lits) *Fail {
	if qe.kind != se.kind {
		if path.contradictory() || l.contradictory() {
			return nil
		}
		why := endName(qe)
		if qe.kind == PPanic {
			why += " (" + qe.why + ")"
		}
		return &Fail{why: fmt.Sprintf("%s where the specification ends with %s", why, endName(se)), pos: qe.pos, where: qe.where, spos: se.pos, path: path}
	}
	if qe.kind == PPanic {
		x.p.panics++
		return nil
	}
	ok, at, why := x.p.equal(qe.term, se.term, l, used{})
	if ok {
		x.p.ends++
		return nil
	}
	if at != nil {
		if f := x.budget(nil, nil, l); f != nil {
			return f
		}
		for _, v := range []bool{true, false} {
			m := l.with(at, v)
			if m.contradictory() {
				continue
			}
			if f := x.endsEqual(qe, se, m, path.with(at, v)); f != nil {
				return f
			}
		}
		return nil
	}
	if path.contradictory() || l.contradictory() {
		return nil
	}
	return &Fail{why: fmt.Sprintf("results differ%s: %s, not %s", why, qe.term, se.term), pos: qe.pos, where: qe.where, spos: se.pos, path: path}
}

// --- generalisation

// holes lists the parts of a state that vary freely; the rest is its shape.
type shaper struct {
	x     *sim
	sb    strings.Builder
	set   []func(*Term)
	holes []*Term
	limit int // of the constants at an integer location
}

// shape writes the fixed part of t and returns a function that rebuilds it from holes.
func (h *shaper) shape(loc string, t *Term, typ types.Type) func([]*Term) *Term {
	hole := func(t *Term) func([]*Term) *Term {
		i := len(h.holes)
		h.holes = append(h.holes, t)
		h.sb.WriteByte('_')
		return func(hs []*Term) *Term { return hs[i] }
	}
	lit := func(s string) func([]*Term) *Term {
		h.sb.WriteString(s)
		return func([]*Term) *Term { return t }
	}
	switch t.op {
	case OConst:
		if isIntTerm(t) {
			vs := h.x.wide[loc]
			if vs == nil {
				vs = map[string]bool{}
				h.x.wide[loc] = vs
			}
			if len(vs) <= h.limit {
				vs[t.c.ExactString()] = true
			}
			if len(vs) > h.limit {
				return hole(t)
			}
		}
		return lit(t.c.ExactString() + ";")
	case ONil:
		return lit("nil;")
	case OStruct, OTuple, OIface, OPtr, OSlice, OMap, OIter:
		if t.op == OIface && !t.refs {
			// The dynamic type is fixed, the value varies.
			h.sb.WriteString("I" + tkey(t.typ) + ":")
			f := hole(t.args[0])
			return func(hs []*Term) *Term { return mkIface(t.typ, f(hs)) }
		}
		fmt.Fprintf(&h.sb, "%d:%s:%d:%s(", t.op, tkey(t.typ), t.n, t.str)
		fs := make([]func([]*Term) *Term, len(t.args))
		for i, a := range t.args {
			if t.op == OStruct && t.typ != nil {
				h.limit = stateValues
				if h.x.fields[fieldKey(t.typ, i)] {
					h.limit = counterValues
				}
			}
			fs[i] = h.shape(fmt.Sprintf("%s.%d", loc, i), a, nil)
		}
		h.sb.WriteByte(')')
		return func(hs []*Term) *Term {
			as := make([]*Term, len(fs))
			for i, f := range fs {
				as[i] = f(hs)
			}
			return mk(t.op, t.typ, t.str, t.n, t.c, t.fn, as...)
		}
	}
	if t.refs {
		fmt.Fprintf(&h.sb, "%d:%s:%d:%s(", t.op, tkey(t.typ), t.n, t.str)
		fs := make([]func([]*Term) *Term, len(t.args))
		for i, a := range t.args {
			fs[i] = h.shape(fmt.Sprintf("%s.%d", loc, i), a, nil)
		}
		h.sb.WriteByte(')')
		return func(hs []*Term) *Term {
			as := make([]*Term, len(fs))
			for i, f := range fs {
				as[i] = f(hs)
			}
			return mk(t.op, t.typ, t.str, t.n, t.c, t.fn, as...)
		}
	}
	return hole(t)
}

// state shapes a whole state (already canonical).
func (h *shaper) state(m *Machine, st *State, name string) func([]*Term) {
	var sets []func([]*Term)
	for i, f := range st.frames {
		fmt.Fprintf(&h.sb, "F%p.%d.%d", f.fn, f.blk, f.idx)
		for _, l := range f.loops {
			fmt.Fprintf(&h.sb, "L%d", l.header)
		}
		ord := valueOrder(f.fn)
		vs := make([]ssa.Value, 0, len(f.env))
		for v := range f.env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return ord[vs[i]] < ord[vs[j]] })
		for _, v := range vs {
			fmt.Fprintf(&h.sb, " %d=", ord[v])
			h.limit = stateValues
			if h.x.computed(v) {
				h.limit = counterValues
			}
			g := h.shape(fmt.Sprintf("%s%p.%d@%d", name, f.fn, ord[v], i), f.env[v], v.Type())
			f, v := f, v
			sets = append(sets, func(hs []*Term) { f.env[v] = g(hs) })
		}
		for _, d := range f.defers {
			if d.fn != nil {
				fmt.Fprintf(&h.sb, " D%d", d.fn.id)
			}
			for j := range d.args {
				as := d.args
				g := h.shape(fmt.Sprintf("%s%pD%d", name, f.fn, j), as[j], nil)
				j := j
				sets = append(sets, func(hs []*Term) { as[j] = g(hs) })
			}
		}
		if f.drop {
			h.sb.WriteString("drop")
		}
	}
	for i := 1; i <= st.next; i++ {
		o := st.heap[i]
		if o == nil {
			continue
		}
		if o.kind == KArr && tkey(o.typ) == "rune" || o.kind == KArr && tkey(o.typ) == "int32" {
			// Characters, as the text they make.
			o.val = mkApp("runes", nil, stringOf(o.val, true))
		}
		fmt.Fprintf(&h.sb, "O%d:%d:%v%v%v%v:%s=", i, o.kind, o.nilEmpty, o.grown, o.exact, o.foreign, tkey(o.typ))
		val := o.val
		if val.op == OApp && val.str == "runes" {
			h.sb.WriteString("runes")
			val = val.args[0]
			g := h.shape(fmt.Sprintf("%sO%d", name, i), val, o.typ)
			sets = append(sets, func(hs []*Term) { o.val = mkApp("runes", nil, g(hs)) })
			continue
		}
		h.limit = counterValues
		g := h.shape(fmt.Sprintf("%sO%d", name, i), val, o.typ)
		sets = append(sets, func(hs []*Term) { o.val = g(hs) })
	}
	return func(hs []*Term) {
		for _, f := range sets {
			f(hs)
		}
	}
}

func (x *sim) fold(from *simNode, q, s *State, end *Op, adv int, l, path lits) *Fail {
	q, s = q.clone(), s.clone()
	x.mq.canon(q)
	x.ms.canon(s)
	h := &shaper{x: x}
	setQ := h.state(x.mq, q, "q")
	h.sb.WriteString("||")
	var setS func([]*Term)
	if end != nil {
		fmt.Fprintf(&h.sb, "end%d:", end.kind)
		e := *end
		end = &e
		setS = func([]*Term) {}
		if end.kind == PRet {
			g := h.shape("end", end.term, nil)
			setS = func(hs []*Term) { end.term = g(hs) }
		}
	} else {
		setS = h.state(x.ms, s, "s")
	}
	// Whether the loops go on, where that is known, sets pairs apart.
	known := func(m *Machine, st *State) {
		if c, ok := m.headerCond(st); ok {
			v, k := l.eval(c, used{})
			fmt.Fprintf(&h.sb, "|%v%v", k && v, k)
		}
	}
	known(x.mq, q)
	if end == nil {
		known(x.ms, s)
	}
	key := h.sb.String()
	l = compact(l, h.holes)
	for _, n := range x.nodes[key] {
		b := &binding{m: map[*Term]*Term{}}
		ok := true
		for i := range h.holes {
			if !b.match(n.holes[i], h.holes[i]) {
				ok = false
				break
			}
		}
		if ok {
			for _, g := range n.l {
				a := substMap(g.atom, b.m, map[*Term]*Term{})
				if v, known := l.eval(a, used{}); !known || v != g.val {
					ok = false
					break
				}
			}
		}
		if ok {
			x.edge(from, n, adv)
			return nil
		}
	}
	if len(x.nodes[key]) == 0 {
		n := &simNode{id: len(x.all), q: q, s: s, end: end, l: l, holes: h.holes, edges: map[*simNode]bool{}, path: path}
		x.nodes[key] = append(x.nodes[key], n)
		x.all = append(x.all, n)
		x.edge(from, n, adv)
		x.add(n)
		if os.Getenv("VT_SIM") != "" {
			fmt.Fprintf(os.Stderr, "node %d from %d (+%d): %s\n  facts %v\n", n.id, from.id, adv, x.show(n), l)
		}
		return nil
	}
	// Generalise.
	n := x.nodes[key][0]
	au := &antiUnifier{x: x, memo: map[[2]*Term]*Term{}, fixed: map[*Term]bool{}}
	for i, t := range h.holes {
		if isSimVar(t) && isIntTerm(t) && t == n.holes[i] {
			au.fixed[t] = true
		}
	}
	hs := make([]*Term, len(h.holes))
	for i := range hs {
		hs[i] = au.unify(n.holes[i], h.holes[i], 0)
	}
	au.closed = true
	n.general++
	facts := au.facts(n.l, l, hs, n.general > 3)
	setQ(hs)
	setS(hs)
	n.q, n.s, n.end, n.l, n.holes = q, s, end, facts, hs
	x.edge(from, n, adv)
	x.add(n)
	if os.Getenv("VT_SIM") != "" {
		fmt.Fprintf(os.Stderr, "node %d generalised from %d (+%d): %s\n  facts %v\n", n.id, from.id, adv, x.show(n), facts)
	}
	return nil
}

func (x *sim) show(n *simNode) string {
	pos, where := x.mq.position(n.q)
	sp, _ := x.ms.position(n.s)
	var hs []string
	for _, h := range n.holes {
		hs = append(hs, h.String())
	}
	return fmt.Sprintf("%s %s / %s [%s]", x.p.w.pos(pos), where, x.p.w.pos(sp), strings.Join(hs, "; "))
}

func (x *sim) add(n *simNode) {
	if !n.dirty {
		n.dirty = true
		x.work = append(x.work, n)
	}
}

func (x *sim) edge(from, to *simNode, adv int) {
	v, ok := from.edges[to]
	from.edges[to] = adv > 0 && (!ok || v)
}

// stuck looks for a cycle along which the specification never advances.
func (x *sim) stuck() *simNode {
	state := map[*simNode]int{}
	var visit func(n *simNode) *simNode
	visit = func(n *simNode) *simNode {
		state[n] = 1
		for to, adv := range n.edges {
			if adv {
				continue
			}
			if state[to] == 1 {
				return to
			}
			if state[to] == 0 {
				if r := visit(to); r != nil {
					return r
				}
			}
		}
		state[n] = 2
		return nil
	}
	for _, n := range x.all {
		if state[n] == 0 {
			if r := visit(n); r != nil {
				return r
			}
		}
	}
	return nil
}

func isSimVar(t *Term) bool {
	return t.op == OSym && (strings.HasPrefix(t.str, "P?") || strings.HasPrefix(t.str, "~P"))
}

// binding matches a pattern against a term.
type binding struct{ m map[*Term]*Term }

func (b *binding) match(p, t *Term) bool {
	if isSimVar(p) {
		if v, ok := b.m[p]; ok {
			return v == t
		}
		b.m[p] = t
		return true
	}
	if p.op == OLin || p.op != t.op && isIntTerm(p) && isIntTerm(t) {
		// x + what is known
		l := toLin(p)
		var free *Term
		sign, rest := int64(0), mkInt(l.c)
		for v, k := range l.ts {
			if !isSimVar(v) {
				if simVars(v) {
					sign = 0
					free = nil
					break
				}
				rest = linAdd(rest, v, k)
			} else if x, ok := b.m[v]; ok {
				rest = linAdd(rest, x, k)
			} else if free == nil && (k == 1 || k == -1) {
				free, sign = v, k
			} else {
				return false
			}
		}
		if free != nil {
			d := sub(t, rest)
			if sign < 0 {
				d = sub(mkInt(0), d)
			}
			return b.match(free, d)
		}
		if rest == t {
			return true
		}
	}
	if p.op != t.op || p.str != t.str || p.n != t.n || p.fn != t.fn || len(p.args) != len(t.args) || tkey(p.typ) != tkey(t.typ) {
		return false
	}
	if p.op == OConst {
		return p == t
	}
	for i := range p.args {
		if !b.match(p.args[i], t.args[i]) {
			return false
		}
	}
	return true
}

// antiUnifier finds the least general pattern of two terms.
type antiUnifier struct {
	x       *sim
	memo    map[[2]*Term]*Term
	classes []auClass
	fixed   map[*Term]bool // variables that are the same on both sides
	closed  bool           // no new variables: nil where one would be needed
}

type auClass struct{ a, b, v *Term }

func (u *antiUnifier) variable(a, b *Term) *Term {
	if r, ok := u.memo[[2]*Term{a, b}]; ok {
		return r
	}
	if isIntTerm(a) && isIntTerm(b) {
		for _, c := range u.classes {
			d := sub(a, c.a)
			if _, ok := d.isInt(); ok && sub(b, c.b) == d {
				return add(c.v, d)
			}
		}
		for _, c := range u.classes {
			// One grows as the other shrinks.
			if d := add(a, c.a); u.fixed[d] && d == add(b, c.b) && c.a != c.b {
				return sub(d, c.v)
			}
		}
		la, lb := toLin(a), toLin(b)
		for _, c := range u.classes {
			if !isSimVar(c.a) || !isSimVar(c.b) || la.ts[c.a] != 1 || lb.ts[c.b] != 1 {
				continue
			}
			ra, rb := sub(a, c.a), sub(b, c.b)
			for _, e := range u.classes {
				if e == c {
					continue
				}
				if d, ok := add(ra, e.a).isInt(); ok && add(rb, e.b) == mkInt(d) {
					return sub(add(c.v, mkInt(d)), e.v)
				}
			}
		}
		if u.closed {
			return nil
		}
		u.x.fresh++
		name := fmt.Sprintf("~P%d", u.x.fresh)
		if linNonNeg(a) && linNonNeg(b) {
			name = fmt.Sprintf("P?%d", u.x.fresh)
		}
		v := mkSym(name, tInt)
		u.classes = append(u.classes, auClass{a, b, v})
		return v
	}
	if u.closed {
		return nil
	}
	u.x.fresh++
	typ := a.typ
	if isStringTerm(a) {
		typ = tString
	}
	v := mkSym(fmt.Sprintf("~P%d", u.x.fresh), typ)
	u.memo[[2]*Term{a, b}] = v
	return v
}

func (u *antiUnifier) unify(a, b *Term, d int) *Term {
	if a == b {
		return a
	}
	if isIntTerm(a) && isIntTerm(b) && (a.op == OLin || a.op == OConst || b.op == OLin || b.op == OConst || isSimVar(a) || isSimVar(b)) {
		return u.variable(a, b)
	}
	if r, ok := u.memo[[2]*Term{a, b}]; ok {
		return r
	}
	if d < 8 && a.op == b.op && a.str == b.str && a.n == b.n && a.fn == b.fn && len(a.args) == len(b.args) && len(a.args) > 0 && tkey(a.typ) == tkey(b.typ) && binderArg(a) < 0 &&
		a.op != OSeq && a.op != OCat {
		as := make([]*Term, len(a.args))
		for i := range as {
			if as[i] = u.unify(a.args[i], b.args[i], d+1); as[i] == nil {
				return nil
			}
		}
		return rebuild(a, as)
	}
	return u.variable(a, b)
}

// facts keeps what is known of both sides, in the variables met so far: sets
// of values of what still matters (is part of the holes), and relations
// between integers.
// With widen, a bound that weakens is given up.
func (u *antiUnifier) facts(old, new lits, holes []*Term, widen bool) lits {
	var out lits
	put := func(a *Term, v bool) {
		if _, c := a.isBool(); c {
			return
		}
		for a.op == OApp && a.str == "not" {
			a, v = a.args[0], !v
		}
		if _, dup := out.get(a); !dup {
			out = append(out, guard{a, v})
		}
	}
	single := func(g guard) bool {
		_, _, ok := subjectOf(g.atom)
		return ok
	}
	for _, x := range old.subjects() {
		for _, y := range new.subjects() {
			if isIntTerm(x) != isIntTerm(y) {
				continue
			}
			z := u.unify(x, y, 0)
			if z == nil || z.op == OConst || !relevant(z, holes) {
				continue
			}
			s, _, ok1 := old.setOf(x, used{})
			t, _, ok2 := new.setOf(y, used{})
			if !ok1 || !ok2 || s.str != t.str {
				continue
			}
			if r := s.or(t); !r.full() {
				put(mkWithin(z, r), true)
			}
		}
	}
	toOld, toNew := map[*Term]*Term{}, map[*Term]*Term{}
	for _, c := range u.classes {
		toOld[c.v], toNew[c.v] = c.a, c.b
	}
	bo, bn := tightest(old), tightest(new)
	// slack finds the least a such that form + a >= 0 is known.
	slack := func(bs map[*Term]int64, form *Term, to map[*Term]*Term) (int64, bool) {
		x := toLin(substMap(form, to, map[*Term]*Term{}))
		if len(x.ts) == 0 {
			return -x.c, true
		}
		k := lin{ts: x.ts}.term()
		c, ok := bs[k]
		if linNonNeg(k) && (!ok || c > 0) {
			c, ok = 0, true
		}
		return c - x.c, ok
	}
	done := map[*Term]bool{}
	from := func(bs map[*Term]int64, side func(c auClass) *Term) {
		for _, form := range sortedForms(bs) {
			try := func(f *Term) {
				x := toLin(f)
				f = lin{ts: x.ts}.term()
				if done[f] || !plainForm(f, holes) {
					return
				}
				done[f] = true
				a, ok1 := slack(bo, f, toOld)
				b, ok2 := slack(bn, f, toNew)
				if ok1 && ok2 && (b <= a || !widen) {
					put(mkLt(mkInt(0), add(f, mkInt(max(a, b)+1))), true)
				}
			}
			try(form)
			for _, c := range u.classes {
				if c.a == c.b {
					continue
				}
				for _, k := range []int64{1, -1} {
					try(linAdd(linAdd(form, side(c), -k), c.v, k))
				}
			}
		}
	}
	for _, h := range holes {
		// Counters are kept so, whatever they are counted from.
		if h.op != OLin || !isIntTerm(h) {
			continue
		}
		a, ok1 := slack(bo, h, toOld)
		b, ok2 := slack(bn, h, toNew)
		if ok1 && ok2 && max(a, b) <= 0 {
			f := lin{ts: toLin(h).ts}.term()
			done[f] = true
			put(mkLt(mkInt(0), add(h, mkInt(max(a, b, -1)+1))), true)
		}
	}
	for _, c := range u.classes {
		a, ok1 := slack(bo, c.v, toOld)
		b, ok2 := slack(bn, c.v, toNew)
		if ok1 && ok2 && max(a, b) <= 0 {
			// At least one, or not negative.
			put(mkLt(mkInt(0), add(c.v, mkInt(max(a, b, -1)+1))), true)
			done[c.v] = true
		}
	}
	for _, c := range u.classes {
		for _, e := range u.classes {
			if c.v != e.v && !done[sub(c.v, e.v)] {
				f := sub(c.v, e.v)
				a, ok1 := slack(bo, f, toOld)
				b, ok2 := slack(bn, f, toNew)
				if ok1 && ok2 && max(a, b) <= 0 {
					done[f] = true
					put(mkLt(mkInt(0), add(f, mkInt(max(a, b, -1)+1))), true)
				}
			}
		}
	}
	from(bo, func(c auClass) *Term { return c.a })
	from(bn, func(c auClass) *Term { return c.b })
	for _, g := range old {
		if single(g) {
			continue
		}
		for _, k := range new {
			if k.val == g.val && k.atom.str == g.atom.str {
				if g.atom.op == OApp && (g.atom.str == "zero" || g.atom.str == "pos") {
					continue
				}
				if a := u.unify(g.atom, k.atom, 0); a != nil {
					put(a, g.val)
				}
			}
		}
	}
	return out
}

// tightest maps each integer form to the least a such that form + a >= 0.
func tightest(l lits) map[*Term]int64 {
	m := map[*Term]int64{}
	for _, b := range l.bounds() {
		if len(b.l.ts) == 0 || b.from.str != "zero" && b.from.str != "pos" {
			continue
		}
		k := lin{ts: b.l.ts}.term()
		if c, ok := m[k]; !ok || b.l.c < c {
			m[k] = b.l.c
		}
	}
	for again := true; again; {
		again = false
		for _, g := range l {
			if g.val || g.atom.op != OApp || g.atom.str != "zero" {
				continue
			}
			x := toLin(g.atom.args[0])
			for _, y := range []lin{x, negLin(x)} {
				k := lin{ts: y.ts}.term()
				if c, ok := m[k]; ok && c == y.c {
					m[k] = c - 1
					again = true
				}
			}
		}
	}
	return m
}

func sortedForms(m map[*Term]int64) []*Term {
	var r []*Term
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// plainForm: a difference, a value or its opposite.
func plainForm(t *Term, holes []*Term) bool {
	pos, neg := 0, 0
	for x, k := range toLin(t).ts {
		if !relevant(x, holes) && !(x.op == OApp && (x.str == "runecount" || x.str == "len" || x.str == "first")) {
			return false
		}
		switch k {
		case 1:
			pos++
		case -1:
			neg++
		default:
			return false
		}
	}
	return pos <= 1 && neg <= 1 && pos+neg > 0
}

// compact keeps of l what still matters: one set per value, one bound per
// integer form, and the rest.
func compact(l lits, holes []*Term) lits {
	var out lits
	for _, x := range l.subjects() {
		if isIntTerm(x) && (x.op == OSym || x.op == OApp && (x.str == "runecount" || x.str == "len" || x.str == "first")) || !relevant(x, holes) && simVars(x) {
			continue
		}
		if s, _, ok := l.setOf(x, used{}); ok && !s.full() {
			out = append(out, guard{mkWithin(x, s), true})
		}
	}
	m := tightest(l)
	for _, f := range sortedForms(m) {
		if plainForm(f, holes) || !simVars(f) {
			a, v := mkLt(mkInt(0), add(f, mkInt(m[f]+1))), true
			if a.op == OApp && a.str == "not" {
				a, v = a.args[0], false
			}
			if _, c := a.isBool(); !c {
				out = append(out, guard{a, v})
			}
		}
	}
	for _, g := range l {
		if _, _, ok := subjectOf(g.atom); ok {
			continue
		}
		if g.atom.op == OApp && (g.atom.str == "zero" || g.atom.str == "pos") {
			continue
		}
		out = append(out, g)
	}
	return out
}

func simVars(t *Term) bool {
	if isSimVar(t) {
		return true
	}
	for _, a := range t.args {
		if simVars(a) {
			return true
		}
	}
	return false
}

// relevant: is x part of one of the holes, or at a position given by them
// (what has been looked at ahead)?
func relevant(x *Term, holes []*Term) bool {
	in := func(t *Term) bool {
		for _, h := range holes {
			if mentions(h, t) {
				return true
			}
		}
		return false
	}
	if in(x) {
		return true
	}
	n, ok := 0, true
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if isSimVar(t) {
			n++
			ok = ok && in(t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(x)
	return ok && n > 0
}

func (l lits) String() string {
	var cs []string
	for _, g := range l {
		if g.val {
			cs = append(cs, g.atom.String())
		} else {
			cs = append(cs, "!"+g.atom.String())
		}
	}
	return strings.Join(cs, " & ")
}
