package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Ctor is the constructor of a term of the abstract value domain.
type Ctor uint8

const (
	OConst  Ctor = iota // compile-time constant
	ONil                // nil pointer, slice, map, func or interface
	OSym                // symbolic input
	OField              // field n of a symbolic struct
	OIndex              // element args[1] of the sequence args[0]
	ODeref              // memory reached through a symbolic pointer
	OCast               // dynamic value of the symbolic interface args[0], of type typ
	OStruct             // struct (or array) value
	OIface              // interface holding args[0], of dynamic type typ
	OApp                // pure operation
	OPtr                // pointer to abstract object n, path args
	OFunc               // function or closure
	OTuple              // several values
	OSlice              // slice of abstract array object n, bounds args[0] args[1]
	OMap                // reference to abstract map object n
	OCat                // string concatenation
	OLin                // integer linear combination; c = constant, coefs in str
	OSeq                // concatenation of sequences (items are OItem, others splice)
	OItem               // single element of a sequence
	OStar               // args[0] iterations of body args[1]
	OIte                // args[0] formula, args[1], args[2]
	OZeros              // args[0] zero elements
	OPut                // map entry args[0] -> args[1] (element of a map log)
	OBox                // frozen fresh pointer (content)
	OSeqV               // frozen fresh slice (content)
	OMapV               // frozen fresh map (log)
	OTop                // unknown value
	OIter               // iterator over args[0], position in object n
)

// Term is an immutable, hash-consed abstract value.
type Term struct {
	id   int
	op   Ctor
	typ  types.Type
	str  string
	n    int
	c    constant.Value
	args []*Term
	fn   *ssa.Function
	h    int  // nesting height of stars
	vars bool // mentions a loop variable
	ph   bool // mentions an accumulator placeholder
	refs bool // mentions an abstract object
}

var terms = map[string]*Term{}
var termCount int

func typeStr(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

var typeStrCache = map[types.Type]string{}

func tkey(t types.Type) string {
	if t == nil {
		return ""
	}
	if s, ok := typeStrCache[t]; ok {
		return s
	}
	s := typeStr(types.Unalias(t))
	typeStrCache[t] = s
	return s
}

func mk(op Ctor, typ types.Type, str string, n int, c constant.Value, fn *ssa.Function, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(op)))
	sb.WriteByte('|')
	sb.WriteString(tkey(typ))
	sb.WriteByte('|')
	sb.WriteString(str)
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(n))
	if c != nil {
		sb.WriteByte('|')
		sb.WriteString(c.ExactString())
	}
	if fn != nil {
		sb.WriteByte('|')
		sb.WriteString(fmt.Sprintf("%p", fn))
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := terms[k]; ok {
		return t
	}
	termCount++
	t := &Term{id: termCount, op: op, typ: typ, str: str, n: n, c: c, args: args, fn: fn}
	for _, a := range args {
		if a.h > t.h {
			t.h = a.h
		}
		t.vars = t.vars || a.vars
		t.ph = t.ph || a.ph
		t.refs = t.refs || a.refs
	}
	switch op {
	case OStar:
		t.h++
	case OApp:
		if str == "fold" || str == "exists" || str == "first" {
			t.h++
		}
	case OPtr, OSlice, OMap, OIter:
		t.refs = true
	case OSym:
		if strings.HasPrefix(str, "#") {
			t.vars = true
		}
		if strings.HasPrefix(str, "@") {
			t.ph = true
		}
	}
	terms[k] = t
	return t
}

var (
	tString  = types.Typ[types.String]
	tStrings = types.NewSlice(tString)
	tInt     = types.Typ[types.Int]
	tBool    = types.Typ[types.Bool]
)

func mkConst(c constant.Value, t types.Type) *Term { return mk(OConst, basicOf(t), "", 0, c, nil) }

// basicOf drops the name of a type for constants: the value is what matters.
func basicOf(t types.Type) types.Type {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			return tString
		case b.Info()&types.IsBoolean != 0:
			return tBool
		case b.Info()&types.IsInteger != 0:
			return tInt
		}
		return b
	}
	return t
}
func mkStr(s string) *Term { return mkConst(constant.MakeString(s), tString) }
func mkInt(i int64) *Term  { return mkConst(constant.MakeInt64(i), tInt) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var tTrue, tFalse *Term
var tNil *Term

func init() {
	tTrue = mkConst(constant.MakeBool(true), tBool)
	tFalse = mkConst(constant.MakeBool(false), tBool)
	tNil = mk(ONil, nil, "", 0, nil, nil)
}

func mkSym(name string, t types.Type) *Term { return mk(OSym, t, name, 0, nil, nil) }
func mkTop(why string, t types.Type) *Term  { return mk(OTop, t, why, 0, nil, nil) }

func (t *Term) isStr() (string, bool) {
	if t.op == OConst && t.c.Kind() == constant.String {
		return constant.StringVal(t.c), true
	}
	return "", false
}
func (t *Term) isInt() (int64, bool) {
	if t.op == OConst && t.c.Kind() == constant.Int {
		return constant.Int64Val(t.c)
	}
	return 0, false
}
func (t *Term) isBool() (bool, bool) {
	if t.op == OConst && t.c.Kind() == constant.Bool {
		return constant.BoolVal(t.c), true
	}
	return false, false
}

// --- struct values

func structType(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldName(t types.Type, i int) string {
	if s := structType(t); s != nil && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return strconv.Itoa(i)
}

func mkStruct(t types.Type, fields []*Term) *Term {
	// eta: a struct whose fields are exactly those of a symbolic struct is that struct.
	if len(fields) > 0 {
		f0 := fields[0]
		if f0.op == OField && f0.n == 0 {
			base := f0.args[0]
			same := base.typ != nil && tkey(base.typ) == tkey(t)
			for i := 1; same && i < len(fields); i++ {
				f := fields[i]
				same = f.op == OField && f.n == i && f.args[0] == base
			}
			if same {
				return base
			}
		}
	}
	return mk(OStruct, t, "", 0, nil, nil, fields...)
}

func zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsFloat != 0:
			return mkConst(constant.MakeFloat64(0), t)
		}
		return tNil
	case *types.Struct:
		if isBuffer(t) {
			return mk(OApp, t, "buffer", 0, nil, nil, mkStr(""))
		}
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = zero(u.Field(i).Type())
		}
		return mkStruct(t, fs)
	case *types.Array:
		if u.Len() <= 256 {
			fs := make([]*Term, u.Len())
			for i := range fs {
				fs[i] = zero(u.Elem())
			}
			return mk(OStruct, t, "", 0, nil, nil, fs...)
		}
		return mkTop("large array", t)
	}
	return tNil
}

// isBuffer recognises the in-memory text buffers, modelled by their content.
func isBuffer(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return p == "strings.Builder" || p == "bytes.Buffer"
}

func project(t *Term, i int, ft types.Type) *Term {
	switch t.op {
	case OStruct:
		if i < len(t.args) {
			return t.args[i]
		}
	case OIte:
		return mkIte(t.args[0], project(t.args[1], i, ft), project(t.args[2], i, ft))
	}
	if isBuffer(ft) {
		return mk(OApp, ft, "buffer", 0, nil, nil, mk(OApp, tString, "buftext", 0, nil, nil, mk(OField, ft, fieldName(t.typ, i), i, nil, nil, t)))
	}
	return mk(OField, ft, fieldNameOf(t.typ, i), i, nil, nil, t)
}

func fieldNameOf(t types.Type, i int) string {
	if t == nil {
		return strconv.Itoa(i)
	}
	return fieldName(t, i)
}

// expand turns a symbolic struct into an explicit one.
func expand(t *Term, typ types.Type) *Term {
	if t.op == OStruct {
		return t
	}
	s := structType(typ)
	if s == nil {
		if a, ok := typ.Underlying().(*types.Array); ok && a.Len() <= 256 {
			fs := make([]*Term, a.Len())
			for i := range fs {
				fs[i] = mkIndex(t, mkInt(int64(i)), a.Elem())
			}
			return mk(OStruct, typ, "", 0, nil, nil, fs...)
		}
		return t
	}
	fs := make([]*Term, s.NumFields())
	for i := range fs {
		fs[i] = project(t, i, s.Field(i).Type())
	}
	return mk(OStruct, typ, "", 0, nil, nil, fs...)
}

// --- integers

type lin struct {
	c  int64
	ts map[*Term]int64
}

func toLin(t *Term) lin {
	if i, ok := t.isInt(); ok {
		return lin{c: i}
	}
	if t.op == OLin {
		l := lin{ts: map[*Term]int64{}}
		c, _ := constant.Int64Val(t.c)
		l.c = c
		coefs := strings.Split(t.str, ",")
		for i, a := range t.args {
			k, _ := strconv.ParseInt(coefs[i], 10, 64)
			l.ts[a] = k
		}
		return l
	}
	return lin{ts: map[*Term]int64{t: 1}}
}

func (l lin) term() *Term {
	var as []*Term
	for t, k := range l.ts {
		if k != 0 {
			as = append(as, t)
		}
	}
	if len(as) == 0 {
		return mkInt(l.c)
	}
	if len(as) == 1 && l.ts[as[0]] == 1 && l.c == 0 {
		return as[0]
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	var cs []string
	for _, a := range as {
		cs = append(cs, strconv.FormatInt(l.ts[a], 10))
	}
	return mk(OLin, tInt, strings.Join(cs, ","), 0, constant.MakeInt64(l.c), nil, as...)
}

func linAdd(a, b *Term, kb int64) *Term {
	la, lb := toLin(a), toLin(b)
	r := lin{c: la.c + kb*lb.c, ts: map[*Term]int64{}}
	for t, k := range la.ts {
		r.ts[t] += k
	}
	for t, k := range lb.ts {
		r.ts[t] += kb * k
	}
	return r.term()
}
func add(a, b *Term) *Term { return linAdd(a, b, 1) }
func sub(a, b *Term) *Term { return linAdd(a, b, -1) }

// --- strings

func cat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		ps := []*Term{p}
		if p.op == OCat {
			ps = p.args
		}
		for _, q := range ps {
			if s, ok := q.isStr(); ok {
				if s == "" {
					continue
				}
				if len(out) > 0 {
					if r, ok := out[len(out)-1].isStr(); ok {
						out[len(out)-1] = mkStr(r + s)
						continue
					}
				}
			}
			out = append(out, q)
		}
	}
	switch len(out) {
	case 0:
		return mkStr("")
	case 1:
		return out[0]
	}
	return mk(OCat, tString, "", 0, nil, nil, out...)
}

// --- sequences

func item(t *Term) *Term { return mk(OItem, nil, "", 0, nil, nil, t) }

func seq(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		switch {
		case p.op == OSeq:
			out = append(out, p.args...)
		case p.op == ONil:
		case p.op == OStar:
			if isEmptySeq(p) {
				continue
			}
			out = append(out, p)
		case p.op == OSeqV:
			if p.args[0].op == OSeq {
				out = append(out, p.args[0].args...)
			} else {
				out = append(out, p.args[0])
			}
		case p.op == OZeros:
			if n, ok := p.args[0].isInt(); ok && n == 0 {
				continue
			}
			out = append(out, p)
		default:
			out = append(out, p)
		}
	}
	out = rolledSeq(out)
	if len(out) == 1 && out[0].op != OItem {
		return out[0]
	}
	return mk(OSeq, nil, "", 0, nil, nil, out...)
}

func isEmptySeq(t *Term) bool {
	switch t.op {
	case ONil:
		return true
	case OSeq:
		return len(t.args) == 0
	case OStar:
		if n, ok := t.args[0].isInt(); ok && n <= 0 {
			return true
		}
		return isEmptySeq(t.args[1])
	}
	return false
}

// seqLen returns the length of a sequence.
func seqLen(t *Term) *Term {
	switch t.op {
	case ONil:
		return mkInt(0)
	case OSeqV:
		return seqLen(t.args[0])
	case OSeq:
		n := mkInt(0)
		for _, p := range t.args {
			if p.op == OItem {
				n = add(n, mkInt(1))
			} else {
				n = add(n, seqLen(p))
			}
		}
		return n
	case OStar:
		// Only a body with a fixed number of items has a closed form.
		if k, ok := fixedItems(t.args[1]); ok {
			if k == 1 {
				return t.args[0]
			}
			return lin{ts: map[*Term]int64{t.args[0]: k}}.term()
		}
	case OZeros:
		return t.args[0]
	case OApp:
		switch t.str {
		case "upd":
			return seqLen(t.args[0])
		case "subseq":
			return sub(t.args[2], t.args[1])
		case "sorted":
			return seqLen(t.args[0])
		case "fold":
			// Updates in place keep the length.
			if acc := foldAcc(t.typ); updatesOf(t.args[2], acc) {
				return seqLen(t.args[1])
			}
		case "bytes", "runes":
			if t.str == "runes" {
				return mkApp("runecount", tInt, t.args[0])
			}
			if s, ok := t.args[0].isStr(); ok {
				return mkInt(int64(len(s)))
			}
			return lenTerm(t.args[0])
		}
	case OIte:
		return mkIte(t.args[0], seqLen(t.args[1]), seqLen(t.args[2]))
	}
	return lenTerm(t)
}

func lenTerm(t *Term) *Term {
	if s, ok := t.isStr(); ok {
		return mkInt(int64(len(s)))
	}
	if t.op == ONil {
		return mkInt(0)
	}
	if t.op == OMapV {
		if n, ok := logLen(t.args[0]); ok {
			return n
		}
	}
	if t.op == OApp && (t.str == "keys" || t.str == "sorted") {
		return seqLen(t.args[0])
	}
	return mk(OApp, tInt, "len", 0, nil, nil, t)
}

func fixedItems(b *Term) (int64, bool) {
	switch b.op {
	case OItem:
		return 1, true
	case OSeq:
		n := int64(0)
		for _, p := range b.args {
			k, ok := fixedItems(p)
			if !ok {
				return 0, false
			}
			n += k
		}
		return n, true
	case OIte:
		a, ok1 := fixedItems(b.args[1])
		c, ok2 := fixedItems(b.args[2])
		return a, ok1 && ok2 && a == c
	case OStar:
		if n, ok := b.args[0].isInt(); ok {
			k, ok := fixedItems(b.args[1])
			return n * k, ok
		}
	}
	return 0, false
}

// boundVar names the iteration variable of a star whose body has height h.
func boundVar(h int) *Term { return mkSym(fmt.Sprintf("%%%d", h), tInt) }

// mkStar builds the sequence of count bodies; body mentions boundVar(height).
func mkStar(count, body *Term) *Term {
	if isEmptySeq(body) {
		return seq()
	}
	if n, ok := count.isInt(); ok && n <= 0 {
		return seq()
	}
	v := boundVar(body.h)
	// eta: [x[0], x[1], ...] over the length of x is x.
	if body.op == OSeq && len(body.args) == 1 && body.args[0].op == OItem {
		e := body.args[0].args[0]
		if e.op == OIndex && e.args[1] == v && !mentions(e.args[0], v) && lenTerm(e.args[0]) == count {
			return e.args[0]
		}
	}
	if body.op == OItem {
		return mkStar(count, mk(OSeq, nil, "", 0, nil, nil, body))
	}
	return mk(OStar, nil, "", 0, nil, nil, count, body)
}

func mentions(t, v *Term) bool {
	if t == v {
		return true
	}
	for _, a := range t.args {
		if mentions(a, v) {
			return true
		}
	}
	return false
}

// mkIndex selects element i of a sequence.
func mkIndex(s, i *Term, et types.Type) *Term {
	switch s.op {
	case OSeqV:
		return mkIndex(s.args[0], i, et)
	case OStruct:
		if k, ok := i.isInt(); ok && k >= 0 && int(k) < len(s.args) {
			return s.args[k]
		}
	case OSeq:
		if k, ok := i.isInt(); ok && k >= 0 {
			for _, p := range s.args {
				if p.op == OItem {
					if k == 0 {
						return p.args[0]
					}
					k--
					continue
				}
				break
			}
		}
		// Skip a fixed-length prefix.
		off := mkInt(0)
		for _, p := range s.args {
			if p.op == OItem {
				off = add(off, mkInt(1))
				continue
			}
			j := sub(i, off)
			if linNonNeg(j) && len(s.args) > 0 && p == s.args[len(s.args)-1] {
				return mkIndex(p, j, et)
			}
			break
		}
	case OStar:
		b := s.args[1]
		if k, ok := fixedItems(b); ok && k == 1 {
			return seqItem(subst(b, boundVar(b.h), i))
		}
	case OZeros:
		if et != nil {
			return zero(et)
		}
	case OIte:
		return mkIte(s.args[0], mkIndex(s.args[1], i, et), mkIndex(s.args[2], i, et))
	case OApp:
		switch s.str {
		case "upd":
			if s.args[1] == i {
				return s.args[2]
			}
			if d, ok := sub(s.args[1], i).isInt(); ok && d != 0 {
				return mkIndex(s.args[0], i, et)
			}
		case "subseq":
			return mkIndex(s.args[0], add(s.args[1], i), et)
		case "runes":
			return runeAt(s.args[0], i)
		case "fold":
			// An element the first iterations have not reached yet.
			if b := s.args[2]; b.op == OApp && b.str == "upd" && b.args[0] == foldAcc(s.typ) && b.args[1] == boundVar(b.h) && linNonNeg(sub(i, s.args[0])) {
				return mkIndex(s.args[1], i, et)
			}
		}
	}
	// The elements are what the sequence says they are: a list copied into
	// one of a wider interface is still that list.
	if s.typ != nil {
		switch t := s.typ.Underlying().(type) {
		case *types.Slice:
			et = t.Elem()
		case *types.Array:
			et = t.Elem()
		}
	}
	return mk(OIndex, et, "", 0, nil, nil, s, i)
}

// runeAt is rune number i of the text s.
func runeAt(s, i *Term) *Term {
	return mkApp("runeat", types.Typ[types.Int32], s, i)
}

// seqItem returns the single element of a one-element sequence.
func seqItem(s *Term) *Term {
	switch s.op {
	case OItem:
		return s.args[0]
	case OSeq:
		if len(s.args) == 1 {
			return seqItem(s.args[0])
		}
	case OIte:
		return mkIte(s.args[0], seqItem(s.args[1]), seqItem(s.args[2]))
	}
	return mk(OIndex, nil, "", 0, nil, nil, s, mkInt(0))
}

// linNonNeg: structurally non-negative (a loop variable plus a non-negative constant, a length...).
func linNonNeg(t *Term) bool {
	min, ok := linMin(t)
	return ok && min >= 0
}

// linMin is a structural lower bound.
func linMin(t *Term) (int64, bool) {
	l := toLin(t)
	min := l.c
	for x, k := range l.ts {
		if k < 0 || !nonNegAtom(x) {
			return 0, false
		}
	}
	return min, true
}

// linAtLeast is like linMin, and knows of texts split.
func linAtLeast(l lin) (int64, bool) {
	min := l.c
	for x, k := range l.ts {
		if k < 0 || !nonNegAtom(x) {
			return 0, false
		}
		min += k * leastOf(x)
	}
	return min, true
}

// leastOf bounds a non-negative atom: a split text has a piece.
func leastOf(x *Term) int64 {
	if x.op == OApp && x.str == "len" && x.args[0].op == OApp && x.args[0].str == "split" {
		if sep, ok := x.args[0].args[1].isStr(); ok && sep != "" {
			return 1
		}
	}
	return 0
}

func linPos(t *Term) bool {
	min, ok := linMin(t)
	return ok && min > 0
}

func nonNegAtom(x *Term) bool {
	if x.op == OSym && (strings.HasPrefix(x.str, "#") || strings.HasPrefix(x.str, "%") || strings.HasPrefix(x.str, "P?")) {
		return true
	}
	return x.op == OApp && (x.str == "len" || x.str == "runecount" || x.str == "first" || x.str == "ceildiv" || x.str == "runeat" || x.str == "indexany")
}

func mkIte(c, a, b *Term) *Term {
	if v, ok := c.isBool(); ok {
		if v {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OApp && c.str == "not" {
		return mkIte(c.args[0], b, a)
	}
	if v, ok := a.isBool(); ok {
		if w, ok := b.isBool(); ok && v != w {
			if v {
				return c
			}
			return mkNot(c)
		}
	}
	if c.op == OApp && c.str == "is" && a == tFalse && b.op == OApp && b.str == "nil" && b.args[0] == c.args[0] {
		return b // a value with a dynamic type is not nil
	}
	if v, k := settled(c); v != nil && a.h < 40 && b.h < 40 && subst(a, v, k) == subst(b, v, k) {
		return b // the first case is not a special one
	}
	if r := rolled(c, a, b); r != nil {
		return r
	}
	typ := a.typ
	if typ == nil {
		typ = b.typ
	}
	return mk(OIte, typ, "", 0, nil, nil, c, a, b)
}

// settled is the bound variable whose value a condition gives, and this value.
func settled(c *Term) (*Term, *Term) {
	if c.op != OApp || c.str != "zero" {
		return nil, nil
	}
	l := toLin(c.args[0])
	if len(l.ts) != 1 {
		return nil, nil
	}
	for v, k := range l.ts {
		if v.op == OSym && strings.HasPrefix(v.str, "%") && (k == 1 || k == -1) {
			return v, mkInt(-l.c * k)
		}
	}
	return nil, nil
}

// subst replaces a leaf term everywhere, rebuilding through the normalising constructors.
func subst(t, from, to *Term) *Term {
	return substMap(t, map[*Term]*Term{from: to}, map[*Term]*Term{})
}

func substMap(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = substMap(a, m, memo)
		ch = ch || as[i] != a
	}
	r := t
	if b := binderArg(t); b >= 0 && as[b].h != t.args[b].h {
		// The bound variable is named after the height of the body.
		freshCount++
		fr := mkSym(fmt.Sprintf("%%!%d", freshCount), tInt)
		nb := substMap(subst(t.args[b], boundVar(t.args[b].h), fr), m, map[*Term]*Term{})
		as[b] = subst(nb, fr, boundVar(nb.h))
	}
	if ch {
		r = rebuild(t, as)
	}
	memo[t] = r
	return r
}

var freshCount int

func freshVar() *Term {
	freshCount++
	return mkSym(fmt.Sprintf("%%!%d", freshCount), tInt)
}

// binderArg is the argument of t that mentions t's bound variable.
func binderArg(t *Term) int {
	switch t.op {
	case OStar:
		return 1
	case OApp:
		switch t.str {
		case "exists":
			return 1
		case "first":
			return 0
		case "fold":
			return 2
		}
	}
	return -1
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OStruct:
		if structType(t.typ) != nil {
			return mkStruct(t.typ, as)
		}
	case OLin:
		coefs := strings.Split(t.str, ",")
		c, _ := constant.Int64Val(t.c)
		r := mkInt(c)
		for i, a := range as {
			k, _ := strconv.ParseInt(coefs[i], 10, 64)
			r = linAdd(r, a, k)
		}
		return r
	case OCat:
		return cat(as...)
	case OSeq:
		return seq(as...)
	case OStar:
		if t.typ != nil {
			return mkTextStar(as[0], as[1])
		}
		return mkStar(as[0], as[1])
	case OIndex:
		return mkIndex(as[0], as[1], t.typ)
	case OIte:
		return mkIte(as[0], as[1], as[2])
	case OField:
		return project(as[0], t.n, t.typ)
	case OIface:
		return mkIface(t.typ, as[0])
	case OCast:
		return mkCast(as[0], t.typ)
	case OApp:
		return mkApp(t.str, t.typ, as...)
	}
	return mk(t.op, t.typ, t.str, t.n, t.c, t.fn, as...)
}

// --- interfaces

func mkIface(dyn types.Type, v *Term) *Term {
	if v.op == OCast && tkey(v.typ) == tkey(dyn) {
		return v.args[0]
	}
	return mk(OIface, dyn, "", 0, nil, nil, v)
}

func mkCast(x *Term, t types.Type) *Term {
	if x.op == OIface && tkey(x.typ) == tkey(t) {
		return x.args[0]
	}
	if x.op == OIte {
		return mkIte(x.args[0], mkCast(x.args[1], t), mkCast(x.args[2], t))
	}
	return mk(OCast, t, "", 0, nil, nil, x)
}

// mkApp builds a pure operation, folding what can be folded.
func mkApp(op string, typ types.Type, as ...*Term) *Term {
	switch op {
	case "not":
		return mkNot(as[0])
	case "and":
		return mkAnd(as[0], as[1])
	case "or":
		return mkOr(as[0], as[1])
	case "eq":
		return mkEq(as[0], as[1])
	case "lt":
		return mkLt(as[0], as[1])
	case "len":
		return seqLen(as[0])
	case "is":
		return mkIs(as[0], typ)
	case "nil":
		return mkEq(tNil, as[0])
	case "zero":
		return mkEq(mkInt(0), as[0])
	case "pos":
		return mkLt(mkInt(0), as[0])
	}
	if t := foldApp(op, typ, as); t != nil {
		return t
	}
	return mk(OApp, typ, op, 0, nil, nil, as...)
}

func mkNot(a *Term) *Term {
	if v, ok := a.isBool(); ok {
		return mkBool(!v)
	}
	if a.op == OApp && a.str == "not" {
		return a.args[0]
	}
	return mk(OApp, tBool, "not", 0, nil, nil, a)
}
func mkAnd(a, b *Term) *Term {
	if v, ok := a.isBool(); ok {
		if v {
			return b
		}
		return tFalse
	}
	if v, ok := b.isBool(); ok {
		if v {
			return a
		}
		return tFalse
	}
	if a == b {
		return a
	}
	return mk(OApp, tBool, "and", 0, nil, nil, a, b)
}
func mkOr(a, b *Term) *Term { return mkNot(mkAnd(mkNot(a), mkNot(b))) }

func isIntTerm(t *Term) bool {
	if t.op == OLin {
		return true
	}
	if t.op == OConst {
		return t.c.Kind() == constant.Int
	}
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// mkEq builds an equality, decided as far as the structure allows.
func mkEq(a, b *Term) *Term {
	if a == b && a.op != OTop {
		return tTrue
	}
	if a.op == OConst && b.op == OConst {
		return mkBool(a.c.Kind() == b.c.Kind() && constantEq(a.c, b.c))
	}
	if b.op == OConst || b.op == ONil || (a.op != OConst && a.op != ONil && b.id < a.id) {
		if !(a.op == OConst || a.op == ONil) || b.op == OConst || b.op == ONil {
			a, b = b, a
		}
	}
	// Here a is the constant, when there is one.
	if a.op == OIte {
		return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
	}
	if b.op == OIte {
		return mkIte(b.args[0], mkEq(a, b.args[1]), mkEq(a, b.args[2]))
	}
	if a.op == ONil {
		switch b.op {
		case ONil:
			return tTrue
		case OIface, OPtr, OFunc, OMap, OBox, OMapV, OStruct:
			return tFalse
		case OSlice, OSeqV:
			return tFalse
		case OConst:
			return tFalse
		}
		if b.op == OApp && (b.str == "error" || b.str == "buffer") || b.op == OSym && b.str == "var:io.EOF" {
			return tFalse
		}
		if b.op == OSym && b.typ != nil && isContext(b.typ) {
			return tFalse // a statement is rendered on some context
		}
		return mk(OApp, tBool, "nil", 0, nil, nil, b)
	}
	if isIntTerm(a) && isIntTerm(b) {
		d := sub(b, a)
		if v, ok := d.isInt(); ok {
			return mkBool(v == 0)
		}
		if linPos(d) {
			return tFalse
		}
		if m := sub(a, b); linPos(m) {
			return tFalse
		}
		// len(s) == 0 for a string is s == "".
		if ai, ok := a.isInt(); ok && ai == 0 && b.op == OApp && b.str == "len" && isStringTerm(b.args[0]) {
			return mkEq(mkStr(""), b.args[0])
		}
		// Canonical orientation: 0 == d with a positive leading coefficient.
		l := toLin(d)
		return mkIntAtom("eq", l)
	}
	if s, ok := a.isStr(); ok {
		if b.op == OCat {
			// A concatenation with a non-empty constant part is not empty.
			if s == "" {
				for _, p := range b.args {
					if _, ok := p.isStr(); ok {
						return tFalse
					}
				}
				f := tTrue
				for _, p := range b.args {
					f = mkAnd(f, mkEq(a, p))
				}
				return f
			}
		}
		if b.op == OApp && s == "" {
			switch b.str {
			case "itoa":
				return tFalse
			}
		}
	}
	if a.op == OIface && b.op == OIface {
		if tkey(a.typ) != tkey(b.typ) {
			return tFalse
		}
		return mkEq(a.args[0], b.args[0])
	}
	if b.op == OIface && a.op != OIface {
		a, b = b, a
	}
	if a.op == OIface {
		if isIfaceTerm(b) {
			return mkAnd(mkIs(b, a.typ), mkEq(a.args[0], mkCast(b, a.typ)))
		}
	}
	if a.op == OStruct || b.op == OStruct {
		typ := a.typ
		if a.op != OStruct {
			typ = b.typ
		}
		if s := structType(typ); s != nil {
			ea, eb := expand(a, typ), expand(b, typ)
			if ea.op == OStruct && eb.op == OStruct && len(ea.args) == len(eb.args) {
				f := tTrue
				for i := range ea.args {
					f = mkAnd(f, mkEq(ea.args[i], eb.args[i]))
				}
				return f
			}
		}
	} else if a.typ != nil && structType(a.typ) != nil && !isBuffer(a.typ) {
		ea, eb := expand(a, a.typ), expand(b, a.typ)
		f := tTrue
		for i := range ea.args {
			f = mkAnd(f, mkEq(ea.args[i], eb.args[i]))
		}
		return f
	}
	if isBoolTerm(a) && isBoolTerm(b) {
		if v, ok := a.isBool(); ok {
			if v {
				return b
			}
			return mkNot(b)
		}
	}
	if a.op == OPtr && b.op == OPtr {
		return tFalse
	}
	if a.op != OConst && b.op != OConst && b.id < a.id {
		a, b = b, a
	}
	return mk(OApp, tBool, "eq", 0, nil, nil, a, b)
}

func isBoolTerm(t *Term) bool {
	if t.op == OConst {
		return t.c.Kind() == constant.Bool
	}
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isStringTerm(t *Term) bool {
	if t.op == OConst {
		return t.c.Kind() == constant.String
	}
	if t.op == OCat {
		return true
	}
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isIfaceTerm(t *Term) bool {
	if t.op == OIface {
		return true
	}
	return t.typ != nil && types.IsInterface(t.typ)
}

func constantEq(a, b constant.Value) bool {
	return a.ExactString() == b.ExactString()
}

// mkIntAtom builds "l == 0" (eq) or "l > 0" (pos) with canonical sign for eq.
func mkIntAtom(kind string, l lin) *Term {
	if kind == "eq" {
		// Leading coefficient (smallest id) positive.
		var lead *Term
		for t, k := range l.ts {
			if k != 0 && (lead == nil || t.id < lead.id) {
				lead = t
			}
		}
		if lead != nil && l.ts[lead] < 0 {
			n := lin{c: -l.c, ts: map[*Term]int64{}}
			for t, k := range l.ts {
				n.ts[t] = -k
			}
			l = n
		}
		// x + c == 0 reads better as x == -c.
		return mk(OApp, tBool, "zero", 0, nil, nil, l.term())
	}
	return mk(OApp, tBool, "pos", 0, nil, nil, l.term())
}

// linRange bounds a linear combination by the types of its leaves.
func linRange(l lin) (lo, hi int64) {
	lo, hi = l.c, l.c
	for t, k := range l.ts {
		a, b := leafRange(t)
		if a == math.MinInt64 || b == math.MaxInt64 || k > 1<<20 || k < -(1<<20) || l.c > 1<<62 || l.c < -(1<<62) {
			// Only a non-negative leaf against a constant is of use.
			narrow := a != math.MinInt64 && b != math.MaxInt64
			if len(l.ts) == 1 && a == 0 && k > 0 && !narrow {
				return l.c, math.MaxInt64
			}
			if len(l.ts) == 1 && a == 0 && k < 0 && !narrow {
				return math.MinInt64, l.c
			}
			// So is a negative one.
			if len(l.ts) == 1 && b == -1 && k == 1 && l.c <= 0 && !narrow {
				return math.MinInt64, l.c - 1
			}
			if len(l.ts) == 1 && b == -1 && k == -1 && l.c >= 0 && l.c < math.MaxInt64 && !narrow {
				return l.c + 1, math.MaxInt64
			}
			if len(l.ts) == 1 && narrow && (k == 1 || k == -1) {
				// The constant is large; the leaf has at most 33 bits.
				if l.c > 1<<62 {
					return 1, math.MaxInt64
				}
				if l.c < -(1 << 62) {
					return math.MinInt64, 0
				}
			}
			return math.MinInt64, math.MaxInt64
		}
		if k > 0 {
			lo, hi = lo+k*a, hi+k*b
		} else {
			lo, hi = lo+k*b, hi+k*a
		}
	}
	return lo, hi
}

// leafRange is the range of a value of a sized integer type.
func leafRange(t *Term) (lo, hi int64) {
	lo, hi = math.MinInt64, math.MaxInt64
	if t.op == OApp && strings.HasPrefix(t.str, "neg:") {
		return math.MinInt64, -1
	}
	switch t.op {
	case OCast, OSym, OField:
	case OApp:
		switch t.str {
		case "runeat":
			return 0, unicode.MaxRune
		case "wrap:uint8", "wrap:byte", "wrap:uint16", "wrap:uint32", "wrap:int8", "wrap:int16", "wrap:int32", "wrap:rune":
		default:
			return
		}
	default:
		return
	}
	if t.typ == nil {
		return
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	if !ok {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return math.MinInt8, math.MaxInt8
	case types.Int16:
		return math.MinInt16, math.MaxInt16
	case types.Int32:
		return math.MinInt32, math.MaxInt32
	case types.Uint8:
		return 0, math.MaxUint8
	case types.Uint16:
		return 0, math.MaxUint16
	case types.Uint32:
		return 0, math.MaxUint32
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, math.MaxInt64
	}
	return
}

// mkLt builds a < b.
func mkLt(a, b *Term) *Term {
	if a.op == OIte {
		return mkIte(a.args[0], mkLt(a.args[1], b), mkLt(a.args[2], b))
	}
	if b.op == OIte {
		return mkIte(b.args[0], mkLt(a, b.args[1]), mkLt(a, b.args[2]))
	}
	if isIntTerm(a) && isIntTerm(b) {
		d := sub(b, a) // d > 0
		if v, ok := d.isInt(); ok {
			return mkBool(v > 0)
		}
		l := toLin(d)
		if linPos(d) {
			return tTrue
		}
		if m := sub(a, b); linNonNeg(m) {
			return tFalse
		}
		if lo, hi := linRange(l); lo > 0 {
			return tTrue
		} else if hi <= 0 {
			return tFalse
		}
		// For a length: len > 0 is len != 0; 1 - len > 0 is len == 0.
		if len(l.ts) == 1 {
			for t, k := range l.ts {
				if nonNegAtom(t) {
					least := leastOf(t)
					if k == 1 && l.c == -least {
						return mkNot(mkEq(mkInt(least), t))
					}
					if k == -1 && l.c == least+1 {
						return mkEq(mkInt(least), t)
					}
				}
			}
		}
		return mkIntAtom("pos", l)
	}
	if a.op == OConst && b.op == OConst {
		if as, ok := a.isStr(); ok {
			bs, _ := b.isStr()
			return mkBool(as < bs)
		}
	}
	if s, ok := b.isStr(); ok && s == "" {
		return tFalse
	}
	if s, ok := a.isStr(); ok && s == "" {
		return mkNot(mkEq(a, b))
	}
	return mk(OApp, tBool, "lt", 0, nil, nil, a, b)
}

// mkIs tests the dynamic type of an interface value (typ may be an interface).
func mkIs(x *Term, typ types.Type) *Term {
	switch x.op {
	case ONil:
		return tFalse
	case OIface:
		if types.IsInterface(typ) {
			return mkBool(types.Implements(x.typ, typ.Underlying().(*types.Interface)))
		}
		return mkBool(tkey(x.typ) == tkey(typ))
	case OIte:
		return mkIte(x.args[0], mkIs(x.args[1], typ), mkIs(x.args[2], typ))
	}
	if it, ok := typ.Underlying().(*types.Interface); ok && types.IsInterface(typ) {
		// The static type may already settle it, but for nil.
		if x.typ != nil && types.IsInterface(x.typ) && types.Implements(x.typ, it) {
			return mkNot(mkEq(tNil, x))
		}
	} else if x.typ != nil && types.IsInterface(x.typ) && !implements(typ, x.typ) {
		return tFalse
	}
	return mk(OApp, typ, "is", 0, nil, nil, x)
}

// --- printing

func (t *Term) String() string { return show(t, 0) }

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func show(t *Term, d int) string {
	if d > 12 {
		return "…"
	}
	sh := func(i int) string { return show(t.args[i], d+1) }
	list := func(as []*Term) string {
		var s []string
		for _, a := range as {
			s = append(s, show(a, d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case OConst:
		return t.c.ExactString()
	case ONil:
		return "nil"
	case OSym:
		return t.str
	case OField:
		return sh(0) + "." + t.str
	case OIndex:
		return sh(0) + "[" + sh(1) + "]"
	case ODeref:
		return "*" + sh(0)
	case OCast:
		return sh(0) + ".(" + shortType(t.typ) + ")"
	case OStruct:
		return shortType(t.typ) + "{" + list(t.args) + "}"
	case OIface:
		return sh(0)
	case OApp:
		switch t.str {
		case "is":
			return sh(0) + " is " + shortType(t.typ)
		case "not":
			return "!(" + sh(0) + ")"
		case "zero":
			return sh(0) + " == 0"
		case "pos":
			return sh(0) + " > 0"
		case "eq":
			return sh(1) + " == " + sh(0)
		case "nil":
			return sh(0) + " == nil"
		}
		return t.str + "(" + list(t.args) + ")"
	case OPtr:
		return fmt.Sprintf("&obj%d[%s]", t.n, list(t.args))
	case OFunc:
		return "func " + t.str
	case OTuple:
		return "(" + list(t.args) + ")"
	case OSlice:
		return fmt.Sprintf("slice#%d[%s]", t.n, list(t.args))
	case OMap:
		return fmt.Sprintf("map#%d", t.n)
	case OCat:
		var s []string
		for i := range t.args {
			s = append(s, sh(i))
		}
		return strings.Join(s, " + ")
	case OLin:
		coefs := strings.Split(t.str, ",")
		var s []string
		for i := range t.args {
			k := coefs[i]
			switch k {
			case "1":
				s = append(s, sh(i))
			case "-1":
				s = append(s, "-"+sh(i))
			default:
				s = append(s, k+"*"+sh(i))
			}
		}
		if c, _ := constant.Int64Val(t.c); c != 0 {
			s = append(s, strconv.FormatInt(c, 10))
		}
		return strings.Join(s, "+")
	case OSeq:
		return "[" + list(t.args) + "]"
	case OItem:
		return sh(0)
	case OStar:
		return "for %" + strconv.Itoa(t.args[1].h) + "<" + sh(0) + " {" + sh(1) + "}"
	case OIte:
		return "if(" + sh(0) + ", " + sh(1) + ", " + sh(2) + ")"
	case OZeros:
		return "zeros(" + sh(0) + ")"
	case OPut:
		return sh(0) + ": " + sh(1)
	case OBox:
		return "&" + sh(0)
	case OSeqV:
		return "new " + sh(0)
	case OMapV:
		return "map{" + sh(0) + "}"
	case OTop:
		return "unknown(" + t.str + ")"
	}
	return fmt.Sprintf("op%d(%s)", t.op, list(t.args))
}
