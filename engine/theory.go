package main

import (
	"go/types"
)

// What is known on a path: the branch conditions taken so far. decide settles
// a condition from them when it can, and reports which ones it relied on.

type lits []guard

type used map[*Term]bool

func (u used) add(o used) {
	for k := range o {
		u[k] = true
	}
}

func (l lits) with(a *Term, v bool) lits {
	n := make(lits, len(l), len(l)+1)
	copy(n, l)
	return append(n, guard{a, v})
}

func (l lits) get(a *Term) (bool, bool) {
	for _, g := range l {
		if g.atom == a {
			return g.val, true
		}
	}
	return false, false
}

// contradictory tells whether one of the facts is refuted by the others.
func (l lits) contradictory() bool {
	for i, g := range l {
		rest := append(append(lits{}, l[:i]...), l[i+1:]...)
		if v, ok := rest.decide(g.atom, used{}); ok && v != g.val {
			return true
		}
		if v, ok := rest.rewritten(g.atom, used{}); ok && v != g.val {
			return true
		}
	}
	return false
}

// eval settles a formula.
func (l lits) eval(f *Term, u used) (bool, bool) {
	if v, ok := f.isBool(); ok {
		return v, true
	}
	if f.op == OIte {
		c, ok := l.eval(f.args[0], u)
		if ok {
			if c {
				return l.eval(f.args[1], u)
			}
			return l.eval(f.args[2], u)
		}
		a, ok1 := l.eval(f.args[1], u)
		b, ok2 := l.eval(f.args[2], u)
		if ok1 && ok2 && a == b {
			return a, true
		}
		return false, false
	}
	if f.op == OApp {
		switch f.str {
		case "not":
			v, ok := l.eval(f.args[0], u)
			return !v, ok
		case "and":
			a, ok1 := l.eval(f.args[0], u)
			if ok1 && !a {
				return false, true
			}
			b, ok2 := l.eval(f.args[1], u)
			if ok2 && !b {
				return false, true
			}
			return true, ok1 && ok2
		}
	}
	return l.decide(f, u)
}

func implements(t types.Type, i types.Type) bool {
	it, ok := i.Underlying().(*types.Interface)
	return ok && types.Implements(t, it)
}

func (l lits) decide(a *Term, u used) (val, known bool) {
	return l.decideD(a, u, 0)
}

func (l lits) decideD(a *Term, u used, depth int) (val, known bool) {
	if v, ok := a.isBool(); ok {
		return v, true
	}
	for _, g := range l {
		if g.atom == a {
			u[g.atom] = true
			return g.val, true
		}
	}
	if a.op != OApp {
		return false, false
	}
	switch a.str {
	case "is":
		x := a.args[0]
		for _, g := range l {
			if g.atom.op != OApp {
				continue
			}
			if g.atom.str == "nil" && g.atom.args[0] == x && g.val {
				u[g.atom] = true
				return false, true
			}
			if g.atom.str == "is" && g.atom.args[0] == x {
				T, U := a.typ, g.atom.typ
				switch {
				case g.val && !types.IsInterface(U):
					u[g.atom] = true
					if types.IsInterface(T) {
						return implements(U, T), true
					}
					return false, true
				case g.val && types.IsInterface(U) && types.IsInterface(T) && implements(U, T):
					u[g.atom] = true
					return true, true
				case g.val && types.IsInterface(U) && !types.IsInterface(T) && !implements(T, U):
					u[g.atom] = true
					return false, true
				case !g.val && types.IsInterface(U) && !types.IsInterface(T) && implements(T, U):
					u[g.atom] = true
					return false, true
				case !g.val && types.IsInterface(U) && types.IsInterface(T) && implements(T, U):
					u[g.atom] = true
					return false, true
				}
			}
		}
	case "nil":
		x := a.args[0]
		for _, g := range l {
			if g.atom.op == OApp && g.atom.str == "is" && g.atom.args[0] == x && g.val {
				u[g.atom] = true
				return false, true
			}
		}
		// A nil slice or map is empty.
		if v, ok := l.intAtom(mkEq(mkInt(0), lenTerm(x)), u); ok && !v {
			return false, true
		}
	case "eq":
		if v, ok := l.eqAtom(a, u); ok {
			return v, ok
		}
		if v, ok := l.untilAtom(a, u); ok {
			return v, ok
		}
	case "lt":
		x, y := a.args[0], a.args[1]
		inv, eq := mkLt(y, x), mkEq(x, y)
		iv, iok := l.get(inv)
		ev, eok := l.get(eq)
		if iok && iv {
			u[inv] = true
			return false, true
		}
		if eok && ev {
			u[eq] = true
			return false, true
		}
		if iok && eok && !iv && !ev {
			u[inv], u[eq] = true, true
			return true, true
		}
	case "zero", "pos":
		if v, ok := l.intAtom(a, u); ok {
			return v, ok
		}
	case "within":
		return l.withinAtom(a, u)
	case "exists":
		// A loop none of whose iterations does: neither does the same test
		// over fewer conditions.
	}
	if v, ok := l.withinAtom(a, u); ok {
		return v, ok
	}
	if depth == 0 {
		if v, ok := l.quantified(a, u); ok {
			return v, ok
		}
		if v, ok := l.rewritten(a, u); ok {
			return v, ok
		}
	}
	return false, false
}

// untilAtom: first(c) is where c first holds; c does not hold before.
func (l lits) untilAtom(a *Term, u used) (bool, bool) {
	firsts := map[*Term]bool{}
	seen := map[*Term]bool{}
	firstsOf(a, firsts, seen)
	for _, g := range l {
		firstsOf(g.atom, firsts, seen)
	}
	for f := range firsts {
		c, val := f.args[0], true
		bv := boundVar(c.h)
		if c.op == OApp && c.str == "not" {
			c, val = c.args[0], false
		}
		if c.op != OApp || c.str != a.str {
			continue
		}
		var at *Term
		if !matchVar(c, bv, a, &at) || at == nil {
			continue
		}
		if at == f {
			return val, true
		}
		d := sub(f, at)
		if proves(l.bounds(), toLin(sub(d, mkInt(1))), u) && proves(l.bounds(), toLin(at), u) {
			return !val, true
		}
	}
	return false, false
}

// firstsOf lists the terms "first(c)" in t.
func firstsOf(t *Term, out, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OApp && t.str == "first" {
		out[t] = true
	}
	for _, a := range t.args {
		firstsOf(a, out, seen)
	}
}

// matchVar matches the pattern p, in the variable v, against t.
func matchVar(p, v, t *Term, at **Term) bool {
	if p == v {
		if *at == nil {
			*at = t
		}
		return *at == t
	}
	if !mentions(p, v) {
		return p == t
	}
	if p.op == OLin && isIntTerm(t) {
		if l := toLin(p); l.ts[v] == 1 {
			x := sub(t, sub(p, v))
			if *at == nil {
				*at = x
			}
			return *at == x
		}
	}
	if p.op != t.op || p.str != t.str || p.n != t.n || p.fn != t.fn || len(p.args) != len(t.args) || tkey(p.typ) != tkey(t.typ) {
		return false
	}
	for i := range p.args {
		if !matchVar(p.args[i], v, t.args[i], at) {
			return false
		}
	}
	return true
}

func (l lits) eqAtom(a *Term, u used) (bool, bool) {
	x, y := a.args[0], a.args[1]
	for _, g := range l {
		if g.atom.op != OApp {
			continue
		}
		switch {
		case g.atom.str == "eq" && g.val:
			// Equal to another constant.
			if g.atom.args[1] == y && g.atom.args[0].op == OConst && x.op == OConst {
				u[g.atom] = true
				return false, true
			}
		case g.atom.str == "lt" && g.val && (g.atom.args[0] == x && g.atom.args[1] == y || g.atom.args[0] == y && g.atom.args[1] == x):
			u[g.atom] = true
			return false, true
		}
	}
	l1, l2 := mkLt(x, y), mkLt(y, x)
	v1, ok1 := l.get(l1)
	v2, ok2 := l.get(l2)
	if ok1 && ok2 && !v1 && !v2 && isStringTerm(x) {
		u[l1], u[l2] = true, true
		return true, true
	}
	return false, false
}

// rewritten retries after replacing what is known to equal a constant.
func (l lits) rewritten(a *Term, u used) (bool, bool) {
	if v, ok := l.rewrittenBy(a, u, false); ok {
		return v, ok
	}
	return l.rewrittenBy(a, u, true)
}

func (l lits) rewrittenBy(a *Term, u used, pieces bool) (bool, bool) {
	n, mp := 0, map[*Term]*Term{}
	var also []*Term
	for _, g := range l {
		if g.val && g.atom.op == OApp && g.atom.str == "eq" && (g.atom.args[0].op == OConst) && mentions(a, g.atom.args[1]) {
			mp[g.atom.args[1]] = g.atom.args[0]
		}
		if g.val && g.atom.op == OApp && g.atom.str == "nil" && mentions(a, g.atom.args[0]) {
			mp[g.atom.args[0]] = tNil
		}
		if g.val && g.atom.op == OApp && g.atom.str == "zero" {
			ln := toLin(g.atom.args[0])
			if len(ln.ts) == 1 && a != g.atom {
				for t, k := range ln.ts {
					if k == 1 && mentions(a, t) {
						mp[t] = mkInt(-ln.c)
					}
					if s, c, ok := lacking(t, -ln.c*k); pieces && ok && mentions(a, s) {
						lackRewrites(a, s, c, func(from, to *Term) {
							mp[from] = to
							n++
							also = append(also, g.atom)
						}, map[*Term]bool{})
					}
				}
			}
		}
		if a != g.atom && mentions(a, g.atom) {
			mp[g.atom] = mkBool(g.val)
		}
	}
	l.lastHits(func(f, last *Term, why []*Term) {
		if mentions(a, f) {
			mp[f] = last
			also = append(also, why...)
		}
	})
	if len(mp) == 0 || pieces && n == 0 {
		return false, false
	}
	b := substMap(a, mp, map[*Term]*Term{})
	if b == a {
		return false, false
	}
	v := used{}
	r, ok := l.evalD(b, v, 1)
	if !ok {
		return false, false
	}
	for _, t := range also {
		v[t] = true
	}
	for _, g := range l {
		if g.atom.op == OApp && len(g.atom.args) > 0 {
			t := g.atom.args[len(g.atom.args)-1]
			_, hit := mp[t]
			_, hit2 := mp[g.atom]
			if g.atom.str == "zero" || hit || hit2 {
				v[g.atom] = true
			}
		}
	}
	u.add(v)
	return r, ok
}

// pinned finds the numbers known to be at least and at most the same.
func (l lits) pinned(put func(x, v *Term, why []*Term)) {
	some := false
	for _, g := range l {
		if g.atom.op == OApp && g.atom.str == "pos" && len(toLin(g.atom.args[0]).ts) == 1 {
			some = true
		}
	}
	if !some {
		return
	}
	type limit struct {
		c    int64
		from *Term
	}
	low := map[*Term]limit{}
	bs := l.bounds()
	for _, b := range bs {
		for x, k := range b.l.ts {
			if len(b.l.ts) == 1 && k == 1 && b.from != nil && b.also == nil {
				if v, ok := low[x]; !ok || -b.l.c > v.c {
					low[x] = limit{-b.l.c, b.from}
				}
			}
		}
	}
	for _, b := range bs {
		for x, k := range b.l.ts {
			if len(b.l.ts) != 1 || k != -1 || b.from == nil || b.also != nil || b.from.str == "zero" {
				continue
			}
			if v, ok := low[x]; ok && v.c == b.l.c {
				put(x, mkInt(v.c), []*Term{v.from, b.from})
			} else if b.l.c == 0 && nonNegAtom(x) {
				put(x, mkInt(0), []*Term{b.from})
			}
		}
	}
}

// lastHits finds the conditions met within n iterations but not within n-1:
// the first hit is the last iteration.
func (l lits) lastHits(put func(f, last *Term, why []*Term)) {
	var bs []bound
	for _, g := range l {
		if !g.val || g.atom.op != OApp || g.atom.str != "exists" {
			continue
		}
		if bs == nil {
			bs = l.bounds()
		}
		f := mkApp("first", tInt, g.atom.args[1])
		last := sub(g.atom.args[0], mkInt(1))
		w := used{}
		if proves(bs, toLin(sub(f, last)), w) {
			why := []*Term{g.atom}
			for t := range w {
				why = append(why, t)
			}
			put(f, last, why)
		}
	}
}

func (l lits) evalD(f *Term, u used, depth int) (bool, bool) {
	if v, ok := f.isBool(); ok {
		return v, true
	}
	if f.op == OApp {
		switch f.str {
		case "not":
			v, ok := l.evalD(f.args[0], u, depth)
			return !v, ok
		case "and":
			a, ok1 := l.evalD(f.args[0], u, depth)
			if ok1 && !a {
				return false, true
			}
			b, ok2 := l.evalD(f.args[1], u, depth)
			if ok2 && !b {
				return false, true
			}
			return true, ok1 && ok2
		}
	}
	if f.op == OIte {
		if c, ok := l.evalD(f.args[0], u, depth); ok {
			if c {
				return l.evalD(f.args[1], u, depth)
			}
			return l.evalD(f.args[2], u, depth)
		}
		a, ok1 := l.evalD(f.args[1], u, depth)
		if !ok1 {
			return false, false
		}
		b, ok2 := l.evalD(f.args[2], u, depth)
		return a, ok2 && a == b
	}
	return l.decideD(f, u, depth)
}

// --- integers

type bound struct {
	l    lin // l >= 0
	from *Term
	also *Term // nil, or another source
}

func (b bound) note(u used) {
	u[b.from] = true
	if b.also != nil {
		u[b.also] = true
	}
}

func negLin(a lin) lin {
	r := lin{c: -a.c, ts: map[*Term]int64{}}
	for t, k := range a.ts {
		r.ts[t] = -k
	}
	return r
}

func (l lits) bounds() []bound {
	var bs []bound
	for _, g := range l {
		if g.atom.op != OApp {
			continue
		}
		switch g.atom.str {
		case "pos":
			x := toLin(g.atom.args[0])
			if g.val {
				y := lin{c: x.c - 1, ts: x.ts}
				bs = append(bs, bound{l: y, from: g.atom})
			} else {
				bs = append(bs, bound{l: negLin(x), from: g.atom})
			}
		case "zero":
			x := toLin(g.atom.args[0])
			if g.val {
				bs = append(bs, bound{l: x, from: g.atom}, bound{l: negLin(x), from: g.atom})
			} else if linNonNeg(x.term()) {
				bs = append(bs, bound{l: lin{c: x.c - 1, ts: x.ts}, from: g.atom})
			} else if n := negLin(x); linNonNeg(n.term()) {
				bs = append(bs, bound{l: lin{c: n.c - 1, ts: n.ts}, from: g.atom})
			}
		case "exists":
			if g.val {
				// At least one iteration, and the first hit lies within.
				n := toLin(g.atom.args[0])
				bs = append(bs, bound{l: lin{c: n.c - 1, ts: n.ts}, from: g.atom})
				f := mkApp("first", tInt, g.atom.args[1])
				d := toLin(sub(g.atom.args[0], f))
				bs = append(bs, bound{l: lin{c: d.c - 1, ts: d.ts}, from: g.atom})
				// Not the first iteration: there are two or more.
				body := g.atom.args[1]
				at := subst(body, boundVar(body.h), mkInt(0))
				for _, h := range l {
					if !h.val && h.atom == at {
						bs = append(bs, bound{lin{c: n.c - 2, ts: n.ts}, g.atom, h.atom})
					}
				}
			} else {
				f := mkApp("first", tInt, g.atom.args[1])
				bs = append(bs, bound{l: toLin(sub(f, g.atom.args[0])), from: g.atom})
			}
		case "eq":
			if g.val && g.atom.args[0].op == OConst {
				if s, ok := g.atom.args[0].isStr(); ok {
					x := toLin(lenTerm(g.atom.args[1]))
					x = lin{c: x.c - int64(len(s)), ts: x.ts}
					bs = append(bs, bound{l: x, from: g.atom}, bound{l: negLin(x), from: g.atom})
				}
			} else if !g.val {
				if s, ok := g.atom.args[0].isStr(); ok && s == "" {
					x := toLin(lenTerm(g.atom.args[1]))
					bs = append(bs, bound{l: lin{c: x.c - 1, ts: x.ts}, from: g.atom})
				}
			}
		case "nil":
			if g.val {
				x := toLin(lenTerm(g.atom.args[0]))
				bs = append(bs, bound{l: negLin(x), from: g.atom})
			}
		}
	}
	return bs
}

// proves e >= 0.
func atLeast0(l lin) bool {
	min, ok := linAtLeast(l)
	return ok && min >= 0
}

func proves(bs []bound, e lin, u used) bool {
	if atLeast0(e) {
		return true
	}
	minus := func(a, b lin) lin { return toLin(sub(a.term(), b.term())) }
	shares := func(a, b lin) bool {
		for t := range a.ts {
			if _, ok := b.ts[t]; ok {
				return true
			}
		}
		return false
	}
	for i, b := range bs {
		if !shares(b.l, e) {
			continue
		}
		r := minus(e, b.l)
		if atLeast0(r) {
			b.note(u)
			return true
		}
		for j, c := range bs {
			if i == j || !shares(c.l, r) {
				continue
			}
			r2 := minus(r, c.l)
			if atLeast0(r2) {
				b.note(u)
				c.note(u)
				return true
			}
			for k, d := range bs {
				if k == i || k == j || !shares(d.l, r2) {
					continue
				}
				if atLeast0(minus(r2, d.l)) {
					b.note(u)
					c.note(u)
					d.note(u)
					return true
				}
			}
		}
	}
	return false
}

func (l lits) intAtom(a *Term, u used) (bool, bool) {
	if v, ok := a.isBool(); ok {
		return v, true
	}
	if a.op == OApp && a.str == "not" {
		v, ok := l.intAtom(a.args[0], u)
		return !v, ok
	}
	if a.op == OApp && a.str == "eq" {
		if v, ok := l.get(a); ok {
			u[a] = true
			return v, true
		}
		return l.eqAtom(a, u)
	}
	if a.op != OApp || a.str != "zero" && a.str != "pos" {
		return false, false
	}
	for _, g := range l {
		if g.atom == a {
			u[a] = true
			return g.val, true
		}
	}
	bs := l.bounds()
	if len(bs) == 0 {
		return false, false
	}
	x := toLin(a.args[0])
	if a.str == "pos" {
		if proves(bs, lin{c: x.c - 1, ts: x.ts}, u) {
			return true, true
		}
		if proves(bs, negLin(x), u) {
			return false, true
		}
		// x >= 0 and x != 0
		z := mkEq(mkInt(0), a.args[0])
		if v, ok := l.get(z); ok && !v && proves(bs, x, u) {
			u[z] = true
			return true, true
		}
		return false, false
	}
	if proves(bs, lin{c: x.c - 1, ts: x.ts}, u) || proves(bs, lin{c: -x.c - 1, ts: negLin(x).ts}, u) {
		return false, true
	}
	v := used{}
	if proves(bs, x, v) && proves(bs, negLin(x), v) {
		u.add(v)
		return true, true
	}
	return false, false
}

// --- quantified facts

// loopVarsOf lists the iteration symbols (and first hits) in a term.
func loopVarsOf(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OSym && len(t.str) > 0 && t.str[0] == '#' || t.op == OApp && t.str == "first" {
		out[t] = true
	}
	for _, a := range t.args {
		loopVarsOf(a, out, seen)
	}
}

// indicesOf lists the positions of the elements t is about.
func indicesOf(t *Term, out, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OIndex && isIntTerm(t.args[1]) {
		out[t.args[1]] = true
	}
	for _, a := range t.args {
		indicesOf(a, out, seen)
	}
}

// within: is v one of the n iterations?
func (l lits) within(v, n *Term, u used) (bool, bool) {
	if v.op != OSym && !(v.op == OApp && v.str == "first") {
		if neg := mkLt(v, mkInt(0)); neg != tFalse {
			if x, ok := l.eval(neg, u); !ok || x {
				return false, false
			}
		}
	}
	return l.eval(mkLt(v, n), u)
}

// quantified uses "no iteration satisfies c" and "iteration first(c) is the
// first to satisfy c".
func (l lits) quantified(a *Term, u used) (bool, bool) {
	vars := map[*Term]bool{}
	collected := false
	for _, g := range l {
		if g.atom.op != OApp || g.atom.str != "exists" {
			continue
		}
		if !collected {
			loopVarsOf(a, vars, map[*Term]bool{})
			indicesOf(a, vars, map[*Term]bool{})
			collected = true
		}
		n, body := g.atom.args[0], g.atom.args[1]
		bv := boundVar(body.h)
		fst := mkApp("first", tInt, g.atom.args[1])
		for v := range vars {
			w := used{}
			if g.val && v != fst {
				// Only where the first hit must be the last iteration.
				if v != sub(n, mkInt(1)) || !proves(l.bounds(), toLin(sub(fst, v)), w) {
					continue
				}
			}
			inst := subst(body, bv, v)
			if !mentions(inst, a) && !g.val {
				continue
			}
			for _, try := range []bool{true, false} {
				c := subst(inst, a, mkBool(try))
				r, ok := l.evalD(c, w, 1)
				if ok && r != g.val {
					// Contradiction: a is not try.
					if !g.val {
						if in, ok := l.within(v, n, w); !ok || !in {
							continue
						}
					}
					u.add(w)
					u[g.atom] = true
					return !try, true
				}
			}
		}
	}
	// "Some iteration satisfies c": refuted by facts about all iterations.
	if a.str == "exists" {
		body := a.args[1]
		freshCount++
		k := mkSym("#q", tInt)
		ll := l.with(mkLt(k, a.args[0]), true)
		if g := ll[len(ll)-1].atom; g.op == OApp && g.str == "not" {
			ll[len(ll)-1] = guard{g.args[0], false}
		}
		w := used{}
		if r, ok := ll.evalQ(subst(body, boundVar(body.h), k), w); ok && !r {
			delete(w, ll[len(ll)-1].atom)
			u.add(w)
			return false, true
		}
		if v, ok := l.peeled(a, u); ok {
			return v, true
		}
		// Refuted as well when it implies something no iteration satisfies.
		var none *Term
		ww := used{}
		for _, g := range l {
			if g.val || g.atom.op != OApp || g.atom.str != "exists" {
				continue
			}
			gb := g.atom.args[1]
			c := subst(gb, boundVar(gb.h), k)
			if g.atom.args[0] != a.args[0] {
				// The first or the last iteration may be known apart.
				if g.atom.args[0] != sub(a.args[0], mkInt(1)) {
					continue
				}
				prev := subst(gb, boundVar(gb.h), sub(k, mkInt(1)))
				if v, ok := l.evalD(subst(prev, k, mkInt(0)), ww, 1); ok && !v {
					c = prev
				} else if v, ok := l.evalD(subst(c, k, g.atom.args[0]), ww, 1); !ok || v {
					continue
				}
			}
			if none == nil {
				none = c
			} else {
				none = mkNot(mkAnd(mkNot(none), mkNot(c)))
			}
			ww[g.atom] = true
		}
		if none != nil {
			budget := 400
			if ll.implies(subst(body, boundVar(body.h), k), none, ww, &budget) {
				delete(ww, ll[len(ll)-1].atom)
				u.add(ww)
				return false, true
			}
		}
		// An iteration known to satisfy something that implies it.
		for _, g := range l {
			if !g.val || g.atom.op != OApp || g.atom.str != "exists" || g.atom.args[0] != a.args[0] {
				continue
			}
			gb := g.atom.args[1]
			w := used{}
			if ll.implies(subst(gb, boundVar(gb.h), k), subst(body, boundVar(body.h), k), w, newBudget()) {
				delete(w, ll[len(ll)-1].atom)
				w[g.atom] = true
				u.add(w)
				return true, true
			}
		}
	}
	return false, false
}

// peeled relates a loop to the same loop with its first or its last iteration
// taken out.
func (l lits) peeled(a *Term, u used) (bool, bool) {
	n, body := a.args[0], a.args[1]
	bv := boundVar(body.h)
	next := mkApp("exists", tBool, sub(n, mkInt(1)), subst(body, bv, linAdd(bv, mkInt(1), 1)))
	for _, i := range []*Term{mkInt(0), sub(n, mkInt(1))} {
		w := used{}
		if in, ok := l.eval(mkLt(mkInt(0), n), w); !ok || !in {
			break
		}
		if v, ok := l.eval(subst(body, bv, i), w); ok && v {
			u.add(w)
			return true, true
		}
	}
	for _, g := range l {
		if g.atom.op != OApp || g.atom.str != "exists" {
			continue
		}
		gn, gbody := g.atom.args[0], g.atom.args[1]
		gv := boundVar(gbody.h)
		big, small, at := a, g.atom, (*Term)(nil)
		switch {
		case gn == sub(n, mkInt(1)):
			if gbody == body {
				at = subst(body, bv, gn)
			} else if next.op == OApp && next.args[1] == gbody {
				at = subst(body, bv, mkInt(0))
			}
		case n == sub(gn, mkInt(1)):
			big, small = g.atom, a
			if gbody == body {
				at = subst(body, bv, n)
			} else if x := mkApp("exists", tBool, n, subst(gbody, gv, linAdd(gv, mkInt(1), 1))); x == a {
				at = subst(gbody, gv, mkInt(0))
			}
		}
		if at == nil {
			continue
		}
		w := used{}
		known := g.val
		if (small == a) == known {
			// Of the longer loop it is known to happen, or of the shorter one
			// that it does not: the iteration between them decides.
			v, ok := l.evalD(at, w, 1)
			if !ok || small == a && v {
				continue
			}
			if small == a {
				v = true
			} else if v {
				if in, ok := l.eval(mkLt(mkInt(0), big.args[0]), w); !ok || !in {
					continue
				}
			}
			u.add(w)
			u[g.atom] = true
			return v, true
		}
		u[g.atom] = true
		return known, true
	}
	return false, false
}

// implies: whenever f holds, so does g.
func (l lits) implies(f, g *Term, u used, budget *int) bool {
	if *budget--; *budget < 0 {
		return false
	}
	if v, ok := l.evalQ(g, u); ok && v {
		return true
	}
	if v, ok := l.evalQ(f, u); ok {
		if !v {
			return true
		}
		at := pickAtom(g)
		if at == g && g.op != OIte {
			return false
		}
		w := used{}
		for _, v := range []bool{true, false} {
			if known, ok := l.decide(at, w); ok && known != v {
				continue
			}
			if !l.with(at, v).implies(f, subst(g, at, mkBool(v)), w, budget) {
				return false
			}
		}
		delete(w, at)
		u.add(w)
		return true
	}
	at := pickAtom(f)
	if at == f && f.op != OIte {
		// An atom about which nothing is known: assume it.
		w := used{}
		if !l.with(at, true).implies(tTrue, g, w, budget) {
			return false
		}
		delete(w, at)
		u.add(w)
		return true
	}
	w := used{}
	for _, v := range []bool{true, false} {
		if known, ok := l.decide(at, w); ok && known != v {
			continue
		}
		if !l.with(at, v).implies(subst(f, at, mkBool(v)), g, w, budget) {
			return false
		}
	}
	delete(w, at)
	u.add(w)
	return true
}

func newBudget() *int { n := 400; return &n }

// evalQ evaluates with one level of quantified facts.
func (l lits) evalQ(f *Term, u used) (bool, bool) {
	if v, ok := f.isBool(); ok {
		return v, true
	}
	if f.op == OApp {
		switch f.str {
		case "not":
			v, ok := l.evalQ(f.args[0], u)
			return !v, ok
		case "and":
			a, ok1 := l.evalQ(f.args[0], u)
			if ok1 && !a {
				return false, true
			}
			b, ok2 := l.evalQ(f.args[1], u)
			if ok2 && !b {
				return false, true
			}
			return true, ok1 && ok2
		}
	}
	if f.op == OIte {
		if c, ok := l.evalQ(f.args[0], u); ok {
			if c {
				return l.evalQ(f.args[1], u)
			}
			return l.evalQ(f.args[2], u)
		}
		x, ok1 := l.evalQ(f.args[1], u)
		y, ok2 := l.evalQ(f.args[2], u)
		return x, ok1 && ok2 && x == y
	}
	return l.decide(f, u)
}
