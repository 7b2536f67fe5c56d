package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Comparison of two programs by their observable events: text written, values
// bound, children rendered, memory shared with the caller written, result,
// panic. The two abstract programs advance in lock step.

type letter struct {
	kind  byte // t text, s text star, b bind, w write, m mutation
	term  *Term
	pos   token.Pos
	where string
	why   string
}

func (a letter) String() string {
	switch a.kind {
	case 't':
		return "text " + a.term.String()
	case 's':
		return "texts " + a.term.String()
	case 'b':
		return "bind " + a.term.String()
	case 'w':
		return "rendering of " + a.term.String()
	}
	return a.why + " " + a.term.String()
}

type side struct {
	m   *Machine
	st  *State
	op  *Op
	out []letter
}

func (s *side) clone() side {
	n := side{m: s.m, op: s.op, out: append([]letter{}, s.out...)}
	if s.st != nil {
		n.st = s.st.clone()
	}
	return n
}

type cfg struct {
	q, s  side
	l     lits
	peels int
	endQ  []letter // pending text expected at the end of an iteration
}

func (c *cfg) clone() *cfg {
	return &cfg{q: c.q.clone(), s: c.s.clone(), l: c.l, peels: c.peels, endQ: c.endQ}
}

// Fail describes a difference.
type Fail struct {
	checked bool
	why     string
	pos     token.Pos
	where   string
	spos    token.Pos
	path    lits
	undec   bool
}

type memoEntry struct{ need []guard }

// Prod is one comparison.
type Prod struct {
	w      *World
	memo   map[string][]memoEntry
	splits int
	limit  int
	events int
	loops  int
	ends   int
	panics int
	trace  bool
	visit  func(*side, *Op) // called for the operations of q
}

func textLetters(t *Term, op *Op) []letter {
	var out []letter
	ps := []*Term{t}
	if t.op == OCat {
		ps = t.args
	}
	for _, p := range ps {
		if s, ok := p.isStr(); ok && s == "" {
			continue
		}
		k := byte('t')
		if p.op == OStar {
			k = 's'
		}
		l := letter{kind: k, term: p}
		if op != nil {
			l.pos, l.where = op.pos, op.where
		}
		out = append(out, l)
	}
	return out
}

type splitAt struct {
	atom *Term
	next []*State
	q    bool
}

// advance runs a side until it has output or stops; a non-nil result is an
// undecided branch.
func (p *Prod) advance(sd *side, l lits, u used) *splitAt {
	for sd.op == nil && len(sd.out) == 0 {
		op := sd.m.step(sd.st)
		if p.visit != nil {
			p.visit(sd, op)
		}
		switch op.kind {
		case PBranch:
			if v, ok := l.decide(op.term, u); ok {
				if v {
					sd.st = op.next[0]
				} else {
					sd.st = op.next[1]
				}
				continue
			}
			return &splitAt{atom: op.term, next: op.next}
		case PEmit:
			sd.st = op.next[0]
			sd.out = append(sd.out, textLetters(op.term, op)...)
		case PBind:
			sd.st = op.next[0]
			sd.out = append(sd.out, letter{'b', op.term, op.pos, op.where, ""})
		case PWrite:
			sd.st = op.next[0]
			sd.out = append(sd.out, letter{'w', op.term, op.pos, op.where, ""})
		case PMut:
			sd.st = op.next[0]
			sd.out = append(sd.out, letter{'m', op.term, op.pos, op.where, op.why})
		case PExit:
			sd.st = op.next[0]
		default:
			sd.op = op
		}
	}
	return nil
}

func (p *Prod) fail(c *cfg, format string, a ...any) *Fail {
	f := &Fail{why: fmt.Sprintf(format, a...), path: c.l}
	if len(c.q.out) > 0 {
		f.pos, f.where = c.q.out[0].pos, c.q.out[0].where
	}
	if f.pos == token.NoPos && c.q.op != nil {
		f.pos, f.where = c.q.op.pos, c.q.op.where
	}
	if f.pos == token.NoPos && c.q.st != nil {
		f.pos, f.where = c.q.m.position(c.q.st)
	}
	if len(c.s.out) > 0 {
		f.spos = c.s.out[0].pos
	} else if c.s.op != nil {
		f.spos = c.s.op.pos
	}
	return f
}

func (p *Prod) key(c *cfg) string {
	var sb strings.Builder
	for _, sd := range []*side{&c.q, &c.s} {
		if sd.op != nil {
			fmt.Fprintf(&sb, "op%d", sd.op.kind)
			switch sd.op.kind {
			case PLoop:
				fmt.Fprintf(&sb, "i%d", sd.op.loop.id)
			case PRet:
				fmt.Fprintf(&sb, "r%d", sd.op.term.id)
			}
		}
		if sd.st != nil && (sd.op == nil || sd.op.kind == PLoop) {
			sb.WriteString(sd.m.canon(sd.st))
		}
		for _, x := range sd.out {
			fmt.Fprintf(&sb, "%c%d,", x.kind, x.term.id)
		}
		sb.WriteString("//")
	}
	for _, x := range c.endQ {
		fmt.Fprintf(&sb, "%c%d,", x.kind, x.term.id)
	}
	fmt.Fprintf(&sb, "p%d", c.peels)
	return sb.String()
}

// split explores both sides of a condition.
func (p *Prod) split(c *cfg, atom *Term, apply func(c *cfg, v bool), u used) *Fail {
	p.splits++
	if p.splits > p.limit {
		f := p.fail(c, "analysis budget exhausted")
		f.undec = true
		return f
	}
	all := used{}
	for _, v := range []bool{true, false} {
		d := c.clone()
		d.l = c.l.with(atom, v)
		if apply != nil {
			apply(d, v)
		}
		w := used{}
		if f := p.memoCmp(d, w); f != nil {
			return f
		}
		all.add(w)
	}
	delete(all, atom)
	u.add(all)
	return nil
}

func (p *Prod) memoCmp(c *cfg, u used) *Fail {
	k := p.key(c)
next:
	for _, e := range p.memo[k] {
		for _, g := range e.need {
			if v, ok := c.l.get(g.atom); !ok || v != g.val {
				continue next
			}
		}
		for _, g := range e.need {
			u[g.atom] = true
		}
		return nil
	}
	l := c.l
	w := used{}
	f := p.cmp(c, w)
	if f != nil && !f.checked {
		f.checked = true
		if f.path.contradictory() {
			// No input takes this path.
			for _, g := range l {
				w[g.atom] = true
			}
			f = nil
		}
	}
	if f == nil {
		var need []guard
		for _, g := range l {
			if w[g.atom] {
				need = append(need, g)
			}
		}
		p.memo[k] = append(p.memo[k], memoEntry{need})
		u.add(w)
	}
	return f
}

// disjointWrites: one writes into a map, the other elsewhere; their order does
// not matter.
func disjointWrites(a, b letter) bool {
	isMap := func(x letter) bool { return strings.HasSuffix(x.why, "into a map it does not own") }
	return a.kind == 'm' && b.kind == 'm' && isMap(a) != isMap(b)
}

// swapWrites makes the code's next write its first when it is the one that is
// expected now.
func (p *Prod) swapWrites(c *cfg, u used) (*splitAt, bool) {
	q := &c.q
	for len(q.out) < 2 && q.op == nil {
		if sp := p.pump(q, c.l, u); sp != nil {
			return sp, false
		}
	}
	if len(q.out) < 2 || !disjointWrites(q.out[0], q.out[1]) || q.out[1].term != c.s.out[0].term || q.out[1].why != c.s.out[0].why {
		return nil, false
	}
	out := append([]letter{}, q.out...)
	out[0], out[1] = out[1], out[0]
	q.out = out
	return nil, true
}

func (p *Prod) cmp(c *cfg, u used) *Fail {
	for {
		if sp := p.advance(&c.q, c.l, u); sp != nil {
			return p.split(c, sp.atom, func(d *cfg, v bool) {
				i := 1
				if v {
					i = 0
				}
				d.q.st = sp.next[i].clone()
			}, u)
		}
		if c.q.op != nil && c.q.op.kind == PVacuous && len(c.q.out) == 0 {
			return nil
		}
		if sp := p.advance(&c.s, c.l, u); sp != nil {
			return p.split(c, sp.atom, func(d *cfg, v bool) {
				i := 1
				if v {
					i = 0
				}
				d.s.st = sp.next[i].clone()
			}, u)
		}
		qo, so := c.q.op, c.s.op
		if so != nil && so.kind == PVacuous {
			return nil
		}
		for _, sd := range []*side{&c.q, &c.s} {
			if sd.op != nil && sd.op.kind == PUndecided && len(sd.out) == 0 {
				f := p.fail(c, "not decided: %s", sd.op.why)
				f.pos, f.where = sd.op.pos, sd.op.where
				f.undec = true
				return f
			}
		}
		qe, se := len(c.q.out) == 0, len(c.s.out) == 0
		// Panics.
		if qe && qo.kind == PPanic {
			if p.mustPanic(&c.s, c.l, u) {
				p.panics++
				return nil
			}
			return p.fail(c, "panics (%s) where it must not", qo.why)
		}
		if se && so.kind == PPanic {
			if p.mustPanic(&c.q, c.l, u) {
				p.panics++
				return nil
			}
			return p.fail(c, "does not panic where it must")
		}
		// Loops.
		ql := qe && qo.kind == PLoop || !qe && c.q.out[0].kind == 's'
		sl := se && so.kind == PLoop || !se && c.s.out[0].kind == 's'
		if ql || sl {
			if ql && sl && !qe && !se && c.q.out[0].term == c.s.out[0].term {
				c.q.out, c.s.out = c.q.out[1:], c.s.out[1:]
				continue
			}
			return p.loop(c, ql, sl, u)
		}
		if !qe && !se {
			if disjointWrites(c.q.out[0], c.s.out[0]) {
				sp, ok := p.swapWrites(c, u)
				if sp != nil {
					return p.split(c, sp.atom, func(d *cfg, v bool) {
						i := 1
						if v {
							i = 0
						}
						d.q.st = sp.next[i].clone()
					}, u)
				}
				if ok {
					continue
				}
			}
			d, f := p.match(c, u)
			if f != nil {
				if p.mustPanic(&c.q, c.l, u) && p.mustPanic(&c.s, c.l, u) {
					return nil
				}
				return f
			}
			if d != nil {
				return p.split(c, d, nil, u)
			}
			continue
		}
		if !qe || !se {
			// One side has more to say; possibly nothing but empty texts.
			sd := &c.q
			if qe {
				sd = &c.s
			}
			if so != nil && qe && qo.kind == PIter && se {
				break
			}
			if sd.out[0].kind == 't' {
				t := p.simplify(sd.out[0].term, c.l, u)
				if s, ok := t.isStr(); ok && s == "" {
					sd.out = sd.out[1:]
					continue
				}
				if t.op == OIte || t != sd.out[0].term {
					sd.out = append(textLetters(t, &Op{pos: sd.out[0].pos, where: sd.out[0].where}), sd.out[1:]...)
					if a := iteAtom(t); a != nil {
						return p.split(c, a, nil, u)
					}
					continue
				}
				e := mkEq(mkStr(""), t)
				if _, known := e.isBool(); !known {
					a := pickAtom(e)
					v, ok := c.l.decide(a, u)
					if !ok {
						return p.split(c, a, nil, u)
					}
					if v && a == e {
						sd.out = sd.out[1:]
						continue
					}
				}
			}
			// At the end of an iteration some text may be pending.
			if qo != nil && so != nil && qo.kind == PIter && so.kind == PIter {
				if sameLetters(c.q.out, c.endQ) && se {
					return nil
				}
			}
			if se && so != nil && so.kind == PIter && len(c.endQ) > 0 && !qe && qo == nil {
				// More output may follow before the end of the iteration.
				if sp := p.pump(&c.q, c.l, u); sp != nil {
					return p.split(c, sp.atom, func(d *cfg, v bool) {
						i := 1
						if v {
							i = 0
						}
						d.q.st = sp.next[i].clone()
					}, u)
				}
				continue
			}
			if p.mustPanic(&c.q, c.l, u) && p.mustPanic(&c.s, c.l, u) {
				return nil
			}
			if qe {
				return p.fail(c, "%s where %s is expected", endName(qo), c.s.out[0])
			}
			return p.fail(c, "%s where %s is expected", c.q.out[0], endName(so))
		}
		// Both stopped.
		if qo.kind == PIter && so.kind == PIter {
			if len(c.endQ) > 0 {
				return p.fail(c, "end of the iteration")
			}
			return nil
		}
		if qo.kind != PRet || so.kind != PRet {
			if p.mustPanic(&c.q, c.l, u) && p.mustPanic(&c.s, c.l, u) {
				return nil
			}
			return p.fail(c, "%s where %s is expected", endName(qo), endName(so))
		}
		ok, atom, why := p.equal(qo.term, so.term, c.l, u)
		if ok {
			p.ends++
			return nil
		}
		if atom != nil {
			return p.split(c, atom, nil, u)
		}
		return p.fail(c, "returns %s where %s is expected%s", qo.term, so.term, why)
	}
	return nil
}

// pump lets a side with pending output produce more.
func (p *Prod) pump(sd *side, l lits, u used) *splitAt {
	keep := sd.out
	sd.out = nil
	sp := p.advance(sd, l, u)
	sd.out = append(append([]letter{}, keep...), sd.out...)
	return sp
}

func endName(op *Op) string {
	if op == nil {
		return "?"
	}
	switch op.kind {
	case PRet:
		return "the end"
	case PIter:
		return "the end of the iteration"
	case PLoop:
		return "a repetition"
	}
	return opNames[op.kind]
}

func sameLetters(a, b []letter) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].kind != b[i].kind || a[i].term != b[i].term {
			return false
		}
	}
	return true
}

// match consumes the heads of the two outputs; it returns a condition to
// split on, or a failure.
func (p *Prod) match(c *cfg, u used) (*Term, *Fail) {
	a, b := c.q.out[0], c.s.out[0]
	p.events++
	if a.kind != 't' && a.kind == b.kind {
		ok, atom, why := p.equal(a.term, b.term, c.l, u)
		if ok {
			c.q.out, c.s.out = c.q.out[1:], c.s.out[1:]
			return nil, nil
		}
		if atom != nil {
			return atom, nil
		}
		return nil, p.fail(c, "%s where %s is expected%s", a, b, why)
	}
	// Texts may be empty.
	for _, sd := range []*side{&c.q, &c.s} {
		h := sd.out[0]
		if h.kind != 't' {
			continue
		}
		if _, isC := h.term.isStr(); isC {
			continue
		}
	}
	if a.kind == 't' && b.kind == 't' {
		if a.term == b.term {
			c.q.out, c.s.out = c.q.out[1:], c.s.out[1:]
			return nil, nil
		}
		as, aok := a.term.isStr()
		bs, bok := b.term.isStr()
		if aok && bok {
			n := 0
			for n < len(as) && n < len(bs) && as[n] == bs[n] {
				n++
			}
			if n < len(as) && n < len(bs) {
				return nil, p.fail(c, "text %q where %q is expected", as, bs)
			}
			cut := func(sd *side, s string) {
				if n == len(s) {
					sd.out = sd.out[1:]
					return
				}
				sd.out = append([]letter{}, sd.out...)
				sd.out[0].term = mkStr(s[n:])
			}
			cut(&c.q, as)
			cut(&c.s, bs)
			return nil, nil
		}
	}
	for _, sd := range []*side{&c.q, &c.s} {
		h := sd.out[0]
		if h.kind != 't' {
			continue
		}
		if _, isC := h.term.isStr(); isC {
			continue
		}
		t := p.simplify(h.term, c.l, u)
		if t != h.term {
			sd.out = append(textLetters(t, &Op{pos: h.pos, where: h.where}), sd.out[1:]...)
			return nil, nil
		}
		if at := iteAtom(t); at != nil {
			return at, nil
		}
	}
	if a.kind == 't' && b.kind == 't' {
		if e := mkEq(a.term, b.term); true {
			if v, ok := c.l.eval(e, u); ok && v {
				c.q.out, c.s.out = c.q.out[1:], c.s.out[1:]
				return nil, nil
			}
		}
	}
	for _, sd := range []*side{&c.q, &c.s} {
		h := sd.out[0]
		if h.kind != 't' {
			continue
		}
		if _, isC := h.term.isStr(); isC {
			continue
		}
		e := mkEq(mkStr(""), h.term)
		if _, known := e.isBool(); known {
			continue
		}
		at := pickAtom(e)
		v, ok := c.l.decide(at, u)
		if !ok {
			return at, nil
		}
		if v && at == e {
			sd.out = sd.out[1:]
			return nil, nil
		}
	}
	return nil, p.fail(c, "%s where %s is expected", a, b)
}

// iteAtom finds an open condition in a term, outside binders.
func iteAtom(t *Term) *Term {
	if t.op == OIte {
		return pickAtom(t.args[0])
	}
	b := binderArg(t)
	for i, a := range t.args {
		if i == b {
			continue
		}
		if r := iteAtom(a); r != nil {
			return r
		}
	}
	return nil
}

// simplify rewrites a term with what is known.
func (p *Prod) simplify(t *Term, l lits, u used) *Term {
	mp := map[*Term]*Term{}
	src := map[*Term]*Term{}
	put := func(from, to, why *Term) {
		if _, ok := mp[from]; !ok && mentions(t, from) {
			mp[from] = to
			src[from] = why
		}
	}
	for _, g := range l {
		a := g.atom
		if a.op == OApp {
			switch {
			case a.str == "eq" && g.val && a.args[0].op == OConst:
				put(a.args[1], a.args[0], a)
			case a.str == "nil" && g.val:
				put(a.args[0], tNil, a)
			case a.str == "zero" && g.val:
				ln := toLin(a.args[0])
				if len(ln.ts) == 1 {
					for x, k := range ln.ts {
						if s, c, ok := lacking(x, -ln.c*k); ok && mentions(t, s) {
							lackRewrites(t, s, c, func(from, to *Term) { put(from, to, a) }, map[*Term]bool{})
						}
						if k == 1 {
							put(x, mkInt(-ln.c), a)
							if ln.c == 0 && x.op == OApp && x.str == "len" && x.args[0].op != OConst {
								put(x.args[0], tNil, a)
							}
						}
					}
				}
			}
		}
		put(a, mkBool(g.val), a)
	}
	l.pinned(func(x, v *Term, why []*Term) {
		if _, ok := mp[x]; !ok && mentions(t, x) {
			mp[x] = v
			for _, w := range why {
				src[w] = w
			}
		}
	})
	l.lastHits(func(f, last *Term, why []*Term) {
		if f != last && mentions(t, f) {
			mp[f] = last
			for _, w := range why {
				src[w] = w
			}
		}
	})
	if len(mp) == 0 {
		return t
	}
	r := substMap(t, mp, map[*Term]*Term{})
	if r != t {
		for _, w := range src {
			u[w] = true
		}
		if r.op != t.op || len(r.args) > 0 {
			return p.simplify(r, l, u)
		}
	}
	return r
}

// equal compares two values; it may ask for a condition to be settled.
func (p *Prod) equal(a, b *Term, l lits, u used) (bool, *Term, string) {
	if a == b {
		return true, nil, ""
	}
	a, b = p.simplify(a, l, u), p.simplify(b, l, u)
	a, b = emptyAsNil(a), emptyAsNil(b)
	if a == b {
		return true, nil, ""
	}
	// Settle the conditions at the top.
	for _, t := range []*Term{a, b} {
		if t.op == OIte {
			at := pickAtom(t.args[0])
			if v, ok := l.decide(at, u); ok {
				x, y := subst(a, at, mkBool(v)), subst(b, at, mkBool(v))
				return p.equal(x, y, l, u)
			}
			return false, at, ""
		}
	}
	if isBoolTerm(a) && isBoolTerm(b) {
		va, ok1 := l.eval(a, u)
		vb, ok2 := l.eval(b, u)
		if ok1 && ok2 {
			return va == vb, nil, ""
		}
		f := a
		if ok1 {
			f = b
		}
		return false, p.openAtom(f, l), ""
	}
	if a.op == b.op && a.str == b.str && tkey(a.typ) == tkey(b.typ) && a.n == b.n && len(a.args) == len(b.args) {
		switch a.op {
		case OIface, OStruct, OTuple, OBox, OSeqV, OMapV, OPut, OItem, OSeq, OCat, OField, OCast, OApp:
			var first string
			allOK := true
			for i := range a.args {
				ok, at, why := p.equal(a.args[i], b.args[i], l, u)
				if at != nil {
					return false, at, ""
				}
				if !ok {
					allOK = false
					if first == "" {
						first = why
						if first == "" {
							first = fmt.Sprintf(" (%s is %s, not %s)", part(a, i), a.args[i], b.args[i])
						}
					}
				}
			}
			if allOK {
				return true, nil, ""
			}
			if a.op != OApp && a.op != OField && a.op != OCat && a.op != OSeq && a.op != OSeqV {
				return false, nil, first
			}
		case OStar:
			ok, at, why := p.equal(a.args[0], b.args[0], l, u)
			if !ok {
				return false, at, why
			}
			freshCount++
			k := mkSym(fmt.Sprintf("#e%d", p.depthName(l)), tInt)
			x := subst(a.args[1], boundVar(a.args[1].h), k)
			y := subst(b.args[1], boundVar(b.args[1].h), k)
			lt := mkLt(k, a.args[0])
			ok2, why2 := p.equalAll(x, y, l.with(lt, true), u, 0)
			return ok2, nil, why2
		}
	}
	// A struct given field by field against a symbolic one.
	if a.op == OStruct || b.op == OStruct {
		typ := a.typ
		if a.op != OStruct {
			typ = b.typ
		}
		if typ != nil && structType(typ) != nil {
			x, y := expand(a, typ), expand(b, typ)
			if x.op == OStruct && y.op == OStruct && (x != a || y != b) {
				return p.equal(x, y, l, u)
			}
		}
	}
	if a.op == OIface && isIfaceTerm(b) || b.op == OIface && isIfaceTerm(a) {
		f := mkEq(a, b)
		v, ok := l.eval(f, u)
		if ok {
			return v, nil, ""
		}
		if a.op == OIface && b.op != OIface {
			is := mkIs(b, a.typ)
			if v, ok := l.eval(is, u); ok && v {
				return p.equal(a.args[0], mkCast(b, a.typ), l, u)
			}
		}
		if b.op == OIface && a.op != OIface {
			is := mkIs(a, b.typ)
			if v, ok := l.eval(is, u); ok && v {
				return p.equal(b.args[0], mkCast(a, b.typ), l, u)
			}
		}
		return false, nil, ""
	}
	// Sequences.
	if ok, at, why, done := p.equalSeq(a, b, l, u); done {
		return ok, at, why
	}
	if isStringTerm(a) || isStringTerm(b) || isIntTerm(a) && isIntTerm(b) {
		f := mkEq(a, b)
		if v, ok := l.eval(f, u); ok {
			return v, nil, ""
		}
		if at := iteAtom(a); at != nil {
			return false, at, ""
		}
		if at := iteAtom(b); at != nil {
			return false, at, ""
		}
		return false, nil, ""
	}
	if a.op == ONil || b.op == ONil {
		f := mkEq(a, b)
		if v, ok := l.eval(f, u); ok {
			return v, nil, ""
		}
		return false, nil, ""
	}
	if at := iteAtom(a); at != nil {
		return false, at, ""
	}
	if at := iteAtom(b); at != nil {
		return false, at, ""
	}
	return false, nil, ""
}

func (p *Prod) depthName(l lits) int {
	n := 0
	for _, g := range l {
		if g.atom.vars {
			n++
		}
	}
	return n
}

func part(t *Term, i int) string {
	if t.op == OStruct && t.typ != nil {
		return shortType(t.typ) + "." + fieldName(t.typ, i)
	}
	return fmt.Sprintf("part %d", i)
}

func (p *Prod) openAtom(f *Term, l lits) *Term {
	a := pickAtom(f)
	if v, ok := l.decide(a, used{}); ok {
		g := subst(f, a, mkBool(v))
		if _, c := g.isBool(); c {
			return nil
		}
		return p.openAtom(g, l)
	}
	return a
}

// equalAll compares two values under every combination of open conditions.
func (p *Prod) equalAll(a, b *Term, l lits, u used, d int) (bool, string) {
	ok, at, why := p.equal(a, b, l, u)
	if ok {
		return true, ""
	}
	if at == nil || d > 12 {
		return false, why
	}
	for _, v := range []bool{true, false} {
		if ok, why := p.equalAll(a, b, l.with(at, v), u, d+1); !ok {
			return false, why
		}
	}
	return true, ""
}

func emptyAsNil(t *Term) *Term {
	if (t.op == OSeqV || t.op == OSeq) && isEmptySeq(t.argsOf()) {
		return tNil
	}
	if t.op == OMapV && isEmptySeq(t.args[0]) {
		return tNil
	}
	return t
}

func (t *Term) argsOf() *Term {
	if t.op == OSeqV {
		return t.args[0]
	}
	return t
}

// equalSeq aligns two sequences.
func (p *Prod) equalSeq(a, b *Term, l lits, u used) (ok bool, at *Term, why string, done bool) {
	isSeq := func(t *Term) bool { return t.op == OSeqV || t.op == OSeq || t.op == OStar && t.typ == nil }
	if !isSeq(a) && !isSeq(b) {
		return false, nil, "", false
	}
	parts := func(t *Term) []*Term {
		if t.op == ONil {
			return nil
		}
		if t.op == OSeqV {
			t = t.args[0]
		}
		return append([]*Term{}, t.argsOrSelf()...)
	}
	x, y := parts(a), parts(b)
	for len(x) > 0 || len(y) > 0 {
		for _, z := range []*[]*Term{&x, &y} {
			if len(*z) == 0 {
				continue
			}
			h := (*z)[0]
			if h.op == OIte {
				return false, pickAtom(h.args[0]), "", true
			}
		}
		if len(x) > 0 && len(y) > 0 {
			h, g := x[0], y[0]
			if h == g {
				x, y = x[1:], y[1:]
				continue
			}
			if (h.op == OItem) == (g.op == OItem) && (h.op == OItem || len(x) > 1 || len(y) > 1) {
				ok, at, why := p.equal(h, g, l, u)
				if ok {
					x, y = x[1:], y[1:]
					continue
				}
				if at != nil || h.op == OItem {
					if why == "" && h.op == OItem {
						why = fmt.Sprintf(" (element %s, not %s)", h, g)
					}
					return false, at, why, true
				}
			}
		}
		// A part that may be empty, or a star to be unfolded.
		progress := false
		for _, z := range []*[]*Term{&x, &y} {
			if len(*z) == 0 || (*z)[0].op == OItem {
				continue
			}
			h := (*z)[0]
			n := seqLen(h)
			e := mkEq(mkInt(0), n)
			v, ok := l.eval(e, u)
			if ok && v {
				*z = (*z)[1:]
				progress = true
				break
			}
			if !ok {
				return false, p.openAtom(e, l), "", true
			}
			// Not empty: unfold one element against an element.
			other := x
			if z == &x {
				other = y
			}
			if len(other) > 0 && other[0].op == OItem {
				if h.op == OStar {
					body := h.args[1]
					first := subst(body, boundVar(body.h), mkInt(0))
					rest := mkStar(sub(h.args[0], mkInt(1)), subst(body, boundVar(body.h), add(boundVar(body.h), mkInt(1))))
					np := append([]*Term{}, seq(first).argsOrSelf()...)
					np = append(np, seq(rest).argsOrSelf()...)
					*z = append(np, (*z)[1:]...)
					progress = true
					break
				}
				first := item(mkIndex(h, mkInt(0), nil))
				rest := mkApp("subseq", nil, h, mkInt(1), n)
				*z = append([]*Term{first, rest}, (*z)[1:]...)
				progress = true
				break
			}
		}
		if !progress {
			return false, nil, "", true
		}
	}
	return true, nil, "", true
}

// mustPanic: every continuation panics.
func (p *Prod) mustPanic(sd *side, l lits, u used) bool {
	if sd.op != nil {
		switch sd.op.kind {
		case PPanic, PVacuous:
			return true
		case PLoop:
		default:
			return false
		}
	}
	n := 0
	var walk func(st *State, l lits, w used) bool
	walk = func(st *State, l lits, w used) bool {
		for {
			n++
			if n > 3000 {
				return false
			}
			op := sd.m.step(st)
			switch op.kind {
			case PBranch:
				if v, ok := l.decide(op.term, w); ok {
					if v {
						st = op.next[0]
					} else {
						st = op.next[1]
					}
					continue
				}
				x := used{}
				for i, v := range []bool{true, false} {
					ll := l.with(op.term, v)
					if walk(op.next[i], ll, x) {
						continue
					}
					// It need not, where it cannot get.
					if !ll.contradictory() {
						return false
					}
					for _, g := range l {
						x[g.atom] = true
					}
				}
				delete(x, op.term)
				w.add(x)
				return true
			case PPanic, PVacuous:
				return true
			case PRet, PIter, PUndecided:
				return false
			default:
				st = op.next[0]
			}
		}
	}
	st := sd.st
	if sd.op != nil {
		st = sd.op.next[0]
	}
	w := used{}
	if walk(st.clone(), l, w) {
		u.add(w)
		return true
	}
	return false
}

// --- loops

// repetition is a loop about to start on one side.
type repetition struct {
	n, k *Term
	stay guard
	info *LoopInfo
	star letter
	rest []letter
}

func (p *Prod) repetitionOf(sd *side, d int) *repetition {
	if len(sd.out) > 0 {
		t := sd.out[0].term
		k := mkSym(fmt.Sprintf("#%d", d), tInt)
		a, v := mkLt(k, t.args[0]), true
		if a.op == OApp && a.str == "not" {
			a, v = a.args[0], false
		}
		return &repetition{n: t.args[0], k: k, star: sd.out[0], rest: sd.out[1:], stay: guard{a, v}}
	}
	i := sd.op.loop
	return &repetition{n: i.n, k: i.v, info: i, stay: i.stay}
}

func (r *repetition) bodySide(sd *side, k *Term) side {
	n := side{m: sd.m}
	if r.info != nil {
		n.st = r.info.body.clone()
		if k != r.k {
			n.st.substAll(r.k, k)
		}
		return n
	}
	b := r.star.term.args[1]
	n.out = textLetters(subst(b, boundVar(b.h), k), &Op{pos: r.star.pos, where: r.star.where})
	n.op = &Op{kind: PIter, pos: r.star.pos, where: r.star.where}
	return n
}

// after: the side once the repetition is over.
func (r *repetition) after(sd *side) side {
	n := side{m: sd.m}
	if r.info != nil {
		n.st = r.info.exit.clone()
		return n
	}
	n.st, n.op = sd.st, sd.op
	if n.st != nil {
		n.st = n.st.clone()
	}
	n.out = append([]letter{}, r.rest...)
	return n
}

// lastIter: the side at the beginning of the last iteration.
func (r *repetition) lastIter(sd *side) side {
	k := sub(r.n, mkInt(1))
	n := side{m: sd.m}
	if r.info != nil {
		n.st = r.info.body.clone()
		n.st.substAll(r.k, k)
		f := n.st.top()
		f.loops[len(f.loops)-1] = loopCtx{header: f.loops[len(f.loops)-1].header, peel: true}
		return n
	}
	b := r.star.term.args[1]
	n = r.after(sd)
	n.out = append(textLetters(subst(b, boundVar(b.h), k), &Op{pos: r.star.pos, where: r.star.where}), n.out...)
	return n
}

// peel unfolds the first iteration.
func (r *repetition) peel(sd *side) side {
	if r.info != nil {
		n := side{m: sd.m, st: r.info.entry.clone()}
		f := n.st.top()
		f.loops[len(f.loops)-1] = loopCtx{header: f.loops[len(f.loops)-1].header, peel: true}
		return n
	}
	b := r.star.term.args[1]
	n := r.after(sd)
	op := &Op{pos: r.star.pos, where: r.star.where}
	v := boundVar(b.h)
	ls := textLetters(subst(b, v, mkInt(0)), op)
	nb := subst(b, v, add(v, mkInt(1)))
	ls = append(ls, textLetters(mkTextStar(sub(r.n, mkInt(1)), nb), op)...)
	n.out = append(ls, n.out...)
	return n
}

func depthIn(c *cfg) int {
	d := 0
	for _, sd := range []*side{&c.q, &c.s} {
		if sd.op != nil && sd.op.kind == PLoop && len(sd.out) == 0 {
			return sd.m.depthOf(sd.op.loop.entry)
		}
	}
	for _, sd := range []*side{&c.q, &c.s} {
		if sd.st != nil {
			if x := sd.m.depthOf(sd.st); x > d {
				d = x
			}
		}
	}
	return d
}

func (p *Prod) loop(c *cfg, ql, sl bool, u used) *Fail {
	p.loops++
	d := depthIn(c)
	var rq, rs *repetition
	if ql {
		rq = p.repetitionOf(&c.q, d)
	}
	if sl {
		rs = p.repetitionOf(&c.s, d)
	}
	if os.Getenv("VT_LOOP") != "" {
		if rq != nil {
			fmt.Fprintln(os.Stderr, "LOOP q", rq.n, len(c.q.out))
		}
		if rs != nil {
			fmt.Fprintln(os.Stderr, "LOOP s", rs.n, len(c.s.out))
		}
		fmt.Fprintln(os.Stderr, "  ", c.l)
	}
	var first *Fail
	note := func(f *Fail) {
		if os.Getenv("VT_LOOP") != "" && f != nil {
			fmt.Fprintln(os.Stderr, "  note", f.why)
		}
		if first == nil {
			first = f
		}
	}
	if c.peels > 8 {
		return p.fail(c, "repetitions do not correspond")
	}
	// Empty repetitions and repetitions of nothing are skipped.
	for i, r := range []*repetition{rq, rs} {
		if r == nil {
			continue
		}
		if v, ok := c.l.eval(mkEq(mkInt(0), r.n), u); ok && v {
			sd := &c.q
			if i == 1 {
				sd = &c.s
			}
			*sd = r.after(sd)
			return p.cmp(c, u)
		}
	}
	if rq != nil && rs != nil {
		same := rq.n == rs.n
		if !same {
			if v, ok := c.l.eval(mkEq(rq.n, rs.n), u); ok && v {
				same = true
			}
		}
		if same {
			// Corresponding iterations.
			b := &cfg{q: rq.bodySide(&c.q, rq.k), s: rs.bodySide(&c.s, rq.k)}
			b.l = c.l.with(rq.stay.atom, rq.stay.val)
			if rs.k == rq.k && rs.stay.atom != rq.stay.atom {
				b.l = b.l.with(rs.stay.atom, rs.stay.val)
			}
			w := used{}
			f := p.memoCmp(b, w)
			if f == nil {
				delete(w, rq.stay.atom)
				u.add(w)
				n := &cfg{q: rq.after(&c.q), s: rs.after(&c.s), l: c.l, peels: 0, endQ: c.endQ}
				return p.memoCmp(n, u)
			}
			note(f)
			if f.undec {
				return f
			}
		} else {
			diff, isC := sub(rq.n, rs.n).isInt()
			if isC {
				n := c.clone()
				n.peels += 1
				if diff > 0 {
					n.q = rq.peel(&c.q)
				} else {
					n.s = rs.peel(&c.s)
				}
				w := used{}
				f := p.memoCmp(n, w)
				if f == nil {
					u.add(w)
					return nil
				}
				if diff == 1 || diff == -1 {
					if p.lastApart(c, rq, rs, diff > 0, u) {
						return nil
					}
				}
				return f
			}
			note(p.fail(c, "repeats %s times where %s times is expected", rq.n, rs.n))
		}
		// Unfold one iteration of both.
		if c.peels < 2 {
			n := c.clone()
			n.peels += 2
			at := mkEq(mkInt(0), rq.n)
			if v, ok := c.l.eval(at, u); !ok {
				return firstOf(p.split(c, p.openAtom(at, c.l), nil, u), first)
			} else if !v {
				n.q, n.s = rq.peel(&c.q), rs.peel(&c.s)
				w := used{}
				if f := p.memoCmp(n, w); f == nil {
					u.add(w)
					return nil
				}
			}
		}
		return first
	}
	// Only one side repeats. If the other has output pending in front of a
	// repetition, try corresponding iterations with that output pending.
	if f, done := p.pendingLoop(c, rq, rs, u); done {
		return f
	} else if f != nil {
		note(f)
	}
	n := c.clone()
	n.peels += 2
	r, sd, nsd := rq, &c.q, &n.q
	if rs != nil {
		r, sd, nsd = rs, &c.s, &n.s
	}
	at := mkEq(mkInt(0), r.n)
	v, ok := c.l.eval(at, u)
	if !ok {
		return p.split(c, p.openAtom(at, c.l), nil, u)
	}
	if v {
		*nsd = r.after(sd)
	} else {
		*nsd = r.peel(sd)
	}
	if f := p.memoCmp(n, u); f != nil {
		if os.Getenv("VT_LOOP") != "" {
			fmt.Fprintln(os.Stderr, "  peeled", f.why, f.path)
		}
		return firstOf(f, first)
	}
	return nil
}

// lastApart compares a repetition and one that leaves its last iteration to
// what comes after it.
func (p *Prod) lastApart(c *cfg, rq, rs *repetition, qLong bool, u used) bool {
	stay := rs.stay
	if !qLong {
		stay = rq.stay
	}
	at := mkLt(mkInt(0), rq.n)
	if qLong {
		at = mkLt(mkInt(0), rs.n)
	}
	w := used{}
	b := &cfg{q: rq.bodySide(&c.q, rq.k), s: rs.bodySide(&c.s, rq.k)}
	if rs.k != rq.k {
		return false
	}
	b.l = c.l.with(stay.atom, stay.val)
	if p.memoCmp(b, w) != nil {
		return false
	}
	delete(w, stay.atom)
	n := &cfg{l: c.l, peels: 0, endQ: c.endQ}
	// The longer one has a last iteration when the shorter is not empty, or
	// is known to have one.
	if v, ok := c.l.eval(at, w); !ok || !v {
		long := rs.n
		if qLong {
			long = rq.n
		}
		if v, ok := c.l.eval(mkLt(mkInt(0), long), w); !ok || !v {
			return false
		}
	}
	if qLong {
		n.q, n.s = rq.lastIter(&c.q), rs.after(&c.s)
	} else {
		n.q, n.s = rq.after(&c.q), rs.lastIter(&c.s)
	}
	if p.memoCmp(n, w) != nil {
		return false
	}
	u.add(w)
	return true
}

func firstOf(f, first *Fail) *Fail {
	if f == nil {
		return nil
	}
	if first != nil {
		return first
	}
	return f
}

// pendingLoop: one side is at a repetition, the other has pending output and
// then a repetition of the same length.
func (p *Prod) pendingLoop(c *cfg, rq, rs *repetition, u used) (*Fail, bool) {
	ahead, r := &c.s, rq
	qAhead := false
	if rs != nil {
		ahead, r = &c.q, rs
		qAhead = true
	}
	// Let the side ahead run to its repetition.
	a := ahead.clone()
	for i := 0; i < 8; i++ {
		star := false
		for _, x := range a.out {
			star = star || x.kind == 's'
		}
		if star || a.op != nil {
			break
		}
		if sp := p.pump(&a, c.l, used{}); sp != nil {
			return nil, false
		}
	}
	if len(a.out) == 0 {
		return nil, false
	}
	pend := a.out
	for i, x := range a.out {
		if x.kind == 's' {
			pend = a.out[:i]
			break
		}
	}
	rest := a
	rest.out = a.out[len(pend):]
	if len(rest.out) == 0 && (a.op == nil || a.op.kind != PLoop) || len(pend) == 0 {
		return nil, false
	}
	ra := p.repetitionOf(&rest, depthIn(c))
	if ra.n != r.n {
		if v, ok := c.l.eval(mkEq(ra.n, r.n), u); !ok || !v {
			return nil, false
		}
	}
	other := &c.q
	if qAhead {
		other = &c.s
	}
	at := mkEq(mkInt(0), r.n)
	if _, ok := c.l.eval(at, u); !ok {
		return p.split(c, p.openAtom(at, c.l), nil, u), true
	}
	notLast, nv := mkLt(ra.k, sub(r.n, mkInt(1))), true
	if notLast.op == OApp && notLast.str == "not" {
		notLast, nv = notLast.args[0], false
	}
	try := func(pendAt func(k *Term) []letter) (*Fail, bool) {
		// All iterations but the last leave the same kind of output pending.
		k := ra.k
		bs := ra.bodySide(&rest, k)
		bs.out = append(append([]letter{}, pendAt(k)...), bs.out...)
		os := r.bodySide(other, k)
		// endQ names what is pending on the first side.
		b := &cfg{l: c.l.with(ra.stay.atom, ra.stay.val).with(notLast, nv), endQ: pendAt(add(k, mkInt(1)))}
		b.q, b.s = bs, os
		w := used{}
		if f := p.cmp(b, w); f != nil {
			return f, false
		}
		delete(w, ra.stay.atom)
		delete(w, notLast)
		u.add(w)
		ln := ra.lastIter(&rest)
		ln.out = append(append([]letter{}, pendAt(sub(ra.n, mkInt(1)))...), ln.out...)
		lo := r.lastIter(other)
		n := &cfg{l: c.l, endQ: c.endQ}
		if qAhead {
			n.q, n.s = ln, lo
		} else {
			n.q, n.s = lo, ln
		}
		return p.cmp(n, u), true
	}
	f, done := try(func(*Term) []letter { return pend })
	if f == nil || done {
		return f, done
	}
	// The element pending may be the next one each time.
	moved := func(k *Term) []letter {
		var out []letter
		for _, x := range pend {
			x.term = fromElement(x.term, k)
			out = append(out, x)
		}
		return out
	}
	if !sameLetters(moved(ra.k), pend) {
		if g, done := try(moved); g == nil && done {
			return nil, true
		}
	}
	return f, false
}

// fromElement is the text of element i+k where t is that of element i.
func fromElement(t, k *Term) *Term {
	if t == nil {
		return nil
	}
	mp := map[*Term]*Term{}
	var walk func(t *Term)
	seen := map[*Term]bool{}
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OIndex {
			if i, ok := t.args[1].isInt(); ok {
				mp[t] = mkIndex(t.args[0], add(mkInt(i), k), t.typ)
			}
		}
		b := binderArg(t)
		for i, a := range t.args {
			if i != b {
				walk(a)
			}
		}
	}
	walk(t)
	if len(mp) == 0 {
		return t
	}
	return substMap(t, mp, map[*Term]*Term{})
}

// --- entry

// Compare checks that q behaves as s, on all inputs. Statements which differ
// as values are compared by what they render.
func (w *World) Compare(q, s *ssa.Function, opaque map[string]bool, limit int) (*Fail, *Prod) {
	// What q calls itself, and s does not, is what is specified.
	set := map[string]bool{}
	inQ, inS := map[string]bool{}, map[string]bool{}
	calledFrom(q, inQ, map[*ssa.Function]bool{})
	calledFrom(s, inS, map[*ssa.Function]bool{})
	for n := range opaque {
		set[n] = !inQ[n] || inS[n]
	}
	opaque = set
	f, p := w.run(q, s, opaque, limit, mode{})
	if f != nil && !f.undec && rangesOverMap(s, map[*ssa.Function]bool{}) {
		// The specification leaves the order open: the sorted one will do.
		if g, r := w.run(q, s, opaque, limit, mode{sorted: true}); g == nil {
			return g, r
		}
	}
	if f != nil && !f.undec && q.Signature.Results().Len() == 1 {
		if _, ok := q.Signature.Results().At(0).Type().Underlying().(*types.Interface); ok && hasMethod(q.Signature.Results().At(0).Type(), "Write") != nil {
			return w.run(q, s, opaque, limit, mode{render: true})
		}
	}
	return f, p
}

// calledFrom collects the functions called by the specification itself.
func calledFrom(fn *ssa.Function, out map[string]bool, seen map[*ssa.Function]bool) {
	if seen[fn] {
		return
	}
	seen[fn] = true
	for _, a := range fn.AnonFuncs {
		calledFrom(a, out, seen)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil {
					out[fullName(g)] = true
					if p := fnPkg(g); p != nil && p.Path() == specPath {
						calledFrom(g, out, seen)
					}
				}
			}
		}
	}
}

// Explore runs fn on all inputs and reports its operations.
func (w *World) Explore(fn *ssa.Function, opaque map[string]bool, limit int, visit func(*side, *Op)) (*Fail, *Prod) {
	set := map[string]bool{}
	for n := range opaque {
		set[n] = opaque[n] && n != fullName(fn)
	}
	return w.run(fn, fn, set, limit, mode{visit: visit})
}

// rangesOverMap: fn, or a specification it calls, iterates over a map.
func rangesOverMap(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Range:
				if _, ok := in.X.Type().Underlying().(*types.Map); ok {
					return true
				}
			case ssa.CallInstruction:
				if g := in.Common().StaticCallee(); g != nil {
					if p := fnPkg(g); p != nil && p.Path() == specPath && rangesOverMap(g, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// mode: how two programs are compared.
type mode struct {
	render bool // results by what they write
	sorted bool // the specification goes through maps of strings in order
	visit  func(*side, *Op)
}

func (w *World) run(q, s *ssa.Function, opaque map[string]bool, limit int, md mode) (*Fail, *Prod) {
	args := make([]*Term, len(q.Params))
	for i, x := range q.Params {
		args[i] = mkSym(x.Name(), x.Type())
	}
	mq, ms := newMachine(w), newMachine(w)
	mq.root, ms.root = q, s
	mq.opaque, ms.opaque = opaque, opaque
	mq.render, ms.render = md.render, md.render
	ms.sorted = md.sorted
	p := &Prod{w: w, memo: map[string][]memoEntry{}, limit: limit, visit: md.visit}
	c := &cfg{q: side{m: mq, st: newState(q, nil, args)}, s: side{m: ms, st: newState(s, nil, args)}}
	return p.cmp(c, used{}), p
}

func (w *World) describe(f *Fail) string {
	var sb strings.Builder
	sb.WriteString(f.why)
	var cs []string
	for _, g := range f.path {
		t := g.atom
		if !g.val {
			t = mkNot(t)
		}
		cs = append(cs, t.String())
	}
	sort.Strings(cs)
	if len(cs) > 0 {
		sb.WriteString(" when " + strings.Join(cs, " and "))
	}
	return sb.String()
}
