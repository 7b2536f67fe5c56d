package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// What is known of one value, as the set of the values it may have. Facts
// about one value that hold on either of two paths are merged as the union of
// the two sets.

// vset is a union of ranges of integers, or a finite set of strings or the
// complement of one.
type vset struct {
	str bool
	rs  [][2]int64 // sorted, apart
	neg bool
	ss  []string // sorted
}

const (
	setMin = math.MinInt64
	setMax = math.MaxInt64
)

func (s vset) String() string {
	if s.str {
		r := strings.Join(quoteAll(s.ss), ",")
		if s.neg {
			return "not " + r
		}
		return r
	}
	var ps []string
	for _, r := range s.rs {
		lo, hi := "", ""
		if r[0] != setMin {
			lo = fmt.Sprint(r[0])
		}
		if r[1] != setMax {
			hi = fmt.Sprint(r[1])
		}
		if lo == hi && lo != "" {
			ps = append(ps, lo)
		} else {
			ps = append(ps, lo+".."+hi)
		}
	}
	return strings.Join(ps, ",")
}

func quoteAll(ss []string) []string {
	var r []string
	for _, s := range ss {
		r = append(r, fmt.Sprintf("%q", s))
	}
	return r
}

func (s vset) empty() bool {
	if s.str {
		return !s.neg && len(s.ss) == 0
	}
	return len(s.rs) == 0
}

func (s vset) full() bool {
	if s.str {
		return s.neg && len(s.ss) == 0
	}
	return len(s.rs) == 1 && s.rs[0] == [2]int64{setMin, setMax}
}

func (s vset) not() vset {
	if s.str {
		return vset{str: true, neg: !s.neg, ss: s.ss}
	}
	r := vset{}
	lo, open := int64(setMin), true
	for _, x := range s.rs {
		if x[0] != setMin {
			r.rs = append(r.rs, [2]int64{lo, x[0] - 1})
		}
		if x[1] == setMax {
			open = false
			break
		}
		lo = x[1] + 1
	}
	if open {
		r.rs = append(r.rs, [2]int64{lo, setMax})
	}
	return r
}

func (s vset) and(t vset) vset {
	if s.str {
		switch {
		case !s.neg:
			r := vset{str: true}
			for _, v := range s.ss {
				if t.has(v) {
					r.ss = append(r.ss, v)
				}
			}
			return r
		case !t.neg:
			return t.and(s)
		}
		r := vset{str: true, neg: true, ss: append([]string{}, s.ss...)}
		for _, v := range t.ss {
			if s.has(v) {
				r.ss = append(r.ss, v)
			}
		}
		sort.Strings(r.ss)
		return r
	}
	r := vset{}
	for _, x := range s.rs {
		for _, y := range t.rs {
			lo, hi := max(x[0], y[0]), min(x[1], y[1])
			if lo <= hi {
				r.rs = append(r.rs, [2]int64{lo, hi})
			}
		}
	}
	return r
}

func (s vset) or(t vset) vset { return s.not().and(t.not()).not() }

func (s vset) has(v string) bool {
	for _, x := range s.ss {
		if x == v {
			return !s.neg
		}
	}
	return s.neg
}

// sets of the "within" facts, by name.
var setNames = map[string]vset{}

func mkWithin(x *Term, s vset) *Term {
	n := s.String()
	setNames[n] = s
	return mkApp("within", tBool, x, mkStr(n))
}

// subjectOf reads a as a condition on a single value.
func subjectOf(a *Term) (*Term, vset, bool) {
	if a.op != OApp {
		return nil, vset{}, false
	}
	switch a.str {
	case "within":
		n, _ := a.args[1].isStr()
		return a.args[0], setNames[n], true
	case "eq":
		if s, ok := a.args[0].isStr(); ok && a.args[1].op != OConst {
			return a.args[1], vset{str: true, ss: []string{s}}, true
		}
	case "zero", "pos":
		l := toLin(a.args[0])
		if len(l.ts) != 1 {
			return nil, vset{}, false
		}
		for x, k := range l.ts {
			switch {
			case a.str == "zero" && (k == 1 || k == -1):
				return x, vset{rs: [][2]int64{{-k * l.c, -k * l.c}}}, true
			case k == 1: // x + c > 0
				return x, vset{rs: [][2]int64{{1 - l.c, setMax}}}, true
			case k == -1: // c - x > 0
				return x, vset{rs: [][2]int64{{setMin, l.c - 1}}}, true
			}
		}
	}
	return nil, vset{}, false
}

// setOf is what l says of x; within tells whether a "within" fact is among it.
func (l lits) setOf(x *Term, u used) (s vset, within, ok bool) {
	for _, g := range l {
		y, t, is := subjectOf(g.atom)
		if !is || y != x {
			continue
		}
		u[g.atom] = true
		within = within || g.atom.str == "within"
		if !g.val {
			t = t.not()
		}
		if !ok {
			s, ok = t, true
			continue
		}
		if s.str != t.str {
			return vset{}, false, false
		}
		s = s.and(t)
	}
	return
}

// withinAtom settles a condition on one value by the set it is known to be in.
func (l lits) withinAtom(a *Term, u used) (bool, bool) {
	x, t, ok := subjectOf(a)
	if !ok {
		return false, false
	}
	w := used{}
	s, within, ok := l.setOf(x, w)
	if !ok || !within && a.str != "within" || s.str != t.str {
		return false, false
	}
	switch {
	case s.and(t).empty():
		u.add(w)
		return false, true
	case s.and(t.not()).empty():
		u.add(w)
		return true, true
	}
	return false, false
}

// subjects lists the values l has facts about.
func (l lits) subjects() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, g := range l {
		if x, _, ok := subjectOf(g.atom); ok && !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}
