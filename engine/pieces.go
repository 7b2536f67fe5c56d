package main

import "unicode/utf8"

// Texts taken apart at a separator of one character. The i-th piece of s is
// split(s,c)[i], what follows the first i pieces and separators rest(s,c,i):
// the empty text when there are not so many.

func splitOf(s, sep *Term) *Term {
	return mkApp("split", tStrings, s, sep)
}

func mkRest(s, sep, i *Term) *Term {
	if n, ok := i.isInt(); ok && n == 0 {
		return s
	}
	if s.op == OIte {
		return mkIte(s.args[0], mkRest(s.args[1], sep, i), mkRest(s.args[2], sep, i))
	}
	if s.op == OApp && s.str == "rest" && s.args[1] == sep {
		return mkRest(s.args[0], sep, add(s.args[2], i))
	}
	pieces := splitOf(s, sep)
	n := seqLen(pieces)
	if sub(n, mkInt(1)) == i {
		return mkIndex(pieces, i, tString)
	}
	if linNonNeg(sub(i, n)) {
		return mkStr("")
	}
	return mk(OApp, tString, "rest", 0, nil, nil, s, sep, i)
}

// pieceOf describes the first piece of x, and whether a separator follows.
func pieceOf(x *Term, sep string) (base, i, piece, found *Term, ok bool) {
	if x.op == OIte || x.op == OConst {
		return
	}
	base, i = x, mkInt(0)
	if x.op == OApp && x.str == "rest" && x.args[1] == mkStr(sep) {
		base, i = x.args[0], x.args[2]
	}
	pieces := splitOf(base, mkStr(sep))
	if pieces.op == OSeq && len(pieces.args) == 1 && pieces.args[0] == item(base) && i == mkInt(0) {
		return base, i, base, tFalse, true
	}
	if pieces.op != OApp {
		return
	}
	n := seqLen(pieces)
	piece = mkIndex(pieces, i, tString)
	if i != mkInt(0) {
		piece = mkIte(mkLt(i, n), piece, mkStr(""))
	}
	return base, i, piece, mkLt(add(i, mkInt(1)), n), true
}

// containsAny tells whether s has one of some characters.
func containsAny(s, chars *Term) *Term {
	cs, ok := chars.isStr()
	if !ok || cs == "" {
		return nil
	}
	any := tFalse
	for _, c := range cs {
		if c >= utf8.RuneSelf {
			return nil
		}
		_, _, _, found, ok := pieceOf(s, string(c))
		if !ok {
			return nil
		}
		any = mkIte(found, tTrue, any)
	}
	return any
}

// cutSlice recognises x[:i], x[i:] and x[i+1:] for the index i of the first separator.
func cutSlice(x, lo, hi, n *Term) (t, found *Term, ok bool) {
	at := lo
	if lo == mkInt(0) {
		at = hi
	} else if hi != n {
		return nil, nil, false
	}
	ln := toLin(at)
	if len(ln.ts) != 1 {
		return nil, nil, false
	}
	for l, k := range ln.ts {
		if k != 1 || l.op != OApp || l.str != "len" {
			break
		}
		p := l.args[0]
		for p.op == OIte {
			p = p.args[1]
		}
		if p.op != OIndex || p.args[0].op != OApp || p.args[0].str != "split" {
			break
		}
		sepT := p.args[0].args[1]
		sep, isC := sepT.isStr()
		if !isC || len(sep) != 1 || sep[0] >= utf8.RuneSelf {
			break
		}
		base, i, piece, found, isP := pieceOf(x, sep)
		if !isP || p.args[0] != splitOf(base, sepT) || p.args[1] != i {
			break
		}
		switch {
		case lo == mkInt(0) && ln.c == 0:
			return piece, tTrue, true
		case lo != mkInt(0) && ln.c == 1:
			return mkRest(base, sepT, add(i, mkInt(1))), found, true
		}
	}
	return nil, nil, false
}

// cutFrom recognises x = rest(x, sep, d).
func cutFrom(vals []*Term, ph *Term) (sep *Term, d int64, ok bool) {
	for i, v := range vals {
		if v.op != OApp || v.str != "rest" || v.args[0] != ph {
			return nil, 0, false
		}
		k, isC := v.args[2].isInt()
		if !isC || k <= 0 || i > 0 && (k != d || v.args[1] != sep) {
			return nil, 0, false
		}
		sep, d = v.args[1], k
	}
	return sep, d, len(vals) > 0
}

// lacking reads "split(s,c) has one piece" off x == v.
func lacking(x *Term, v int64) (s *Term, c rune, ok bool) {
	if v != 1 || x.op != OApp || x.str != "len" || x.args[0].op != OApp || x.args[0].str != "split" {
		return nil, 0, false
	}
	sep, isC := x.args[0].args[1].isStr()
	if !isC || len(sep) != 1 || sep[0] >= utf8.RuneSelf {
		return nil, 0, false
	}
	return x.args[0].args[0], rune(sep[0]), true
}

// lackRewrites finds what is simpler in t if c does not occur in s.
func lackRewrites(t, s *Term, c rune, put func(from, to *Term), seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OApp {
		switch {
		case t.str == "split" && t.args[0] == s && t.args[1] == mkStr(string(c)):
			put(t, seq(item(s)))
		case t.str == "rest" && t.args[0] == s && t.args[1] == mkStr(string(c)) && linPos(t.args[2]):
			put(t, mkStr(""))
		case len(t.str) > 4 && t.str[:4] == "hom:" && t.args[0] == s:
			tab := decodeTable(t.str)
			if _, ok := tab[c]; ok {
				delete(tab, c)
				put(t, mkHom(s, tab))
			}
		case t.str == "zero":
			ln := toLin(t.args[0])
			if len(ln.ts) == 1 {
				for x, k := range ln.ts {
					if x.op == OApp && x.str == "runeat" && x.args[0] == s && (k == 1 && ln.c == -int64(c) || k == -1 && ln.c == int64(c)) {
						put(t, tFalse)
					}
				}
			}
		}
	}
	for _, a := range t.args {
		lackRewrites(a, s, c, put, seen)
	}
}

// rolled recognises the only piece tested, or the first (the last) and the others.
func rolled(c, a, b *Term) *Term {
	if c.op != OApp || c.str != "zero" || b.op != OIte || b.args[1] != tTrue {
		return nil
	}
	ln := toLin(c.args[0])
	if len(ln.ts) != 1 || ln.c*ln.c != 1 {
		return nil
	}
	var n *Term
	for x, k := range ln.ts {
		if _, _, ok := lacking(x, -ln.c*k); !ok {
			return nil
		}
		n = x
	}
	for i, e := range []*Term{b.args[2], b.args[0]} {
		at := b.args[2*i]
		if e.op != OApp || e.str != "exists" || e.args[0] != sub(n, mkInt(1)) {
			continue
		}
		body := e.args[1]
		v := boundVar(body.h)
		if i == 0 {
			body = subst(body, v, linAdd(v, mkInt(-1), 1))
			v = boundVar(body.h)
		}
		end := mkInt(0)
		if i == 1 {
			end = sub(n, mkInt(1))
		}
		if subst(body, v, end) == at && sameIfOne(subst(body, v, mkInt(0)), a, n) {
			return mkApp("exists", tBool, n, body)
		}
	}
	return nil
}

// sameIfOne compares given that there is one piece.
func sameIfOne(x, y, n *Term) bool {
	s, c, _ := lacking(n, 1)
	m := map[*Term]*Term{n: mkInt(1)}
	for _, t := range []*Term{x, y} {
		lackRewrites(t, s, c, func(from, to *Term) { m[from] = to }, map[*Term]bool{})
	}
	return substMap(x, m, map[*Term]*Term{}) == substMap(y, m, map[*Term]*Term{})
}

// rolledSeq takes the first or the last item, computed apart, back into the
// loop over the other pieces.
func rolledSeq(out []*Term) []*Term {
	for i, p := range out {
		if p.op != OStar || !overPieces(p.args[0]) {
			continue
		}
		n, body := p.args[0], p.args[1]
		v := boundVar(body.h)
		var r *Term
		lo, hi := i, i+1
		if body.op != OSeq || len(body.args) != 1 || body.args[0].op != OItem {
			continue
		}
		if hi < len(out) && out[hi].op == OItem && seq(out[hi]) == subst(body, v, n) {
			r = mkStar(add(n, mkInt(1)), body)
			hi++
		} else if i > 0 && out[i-1].op == OItem {
			prev := subst(body, v, linAdd(v, mkInt(-1), 1))
			if seq(out[i-1]) == subst(prev, boundVar(prev.h), mkInt(0)) {
				r = mkStar(add(n, mkInt(1)), prev)
				lo--
			}
		}
		if r != nil {
			return append(append(append([]*Term{}, out[:lo]...), r), out[hi:]...)
		}
	}
	return out
}

// overPieces: one less than the number of pieces of a text.
func overPieces(n *Term) bool {
	ln := toLin(n)
	if len(ln.ts) != 1 || ln.c != -1 {
		return false
	}
	for x, k := range ln.ts {
		_, _, ok := lacking(x, 1)
		return ok && k == 1
	}
	return false
}
