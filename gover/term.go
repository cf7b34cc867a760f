package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- sorts

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SPt     // group element, written additively
	SSc     // scalar
	SSeq    // sequences, slices, arrays, strings
	SStruct // struct / tuple values
	SRef    // references with identity (pointer to object, slice header, map, closure, interface)
	SMap    // finite maps
	SU      // anything else
)

func (s Sort) String() string {
	return [...]string{"Int", "Bool", "Pt", "Sc", "Seq", "Struct", "Ref", "Map", "U"}[s]
}

func (s Sort) numeric() bool { return s == SInt || s == SPt || s == SSc }

// ---------------------------------------------------------------- terms

type Op uint8

const (
	OpVar  Op = iota // free symbol
	OpBV             // bound variable, name by height
	OpPoly           // polynomial
	OpMono           // monomial (args sorted atoms)
	OpBool           // true/false
	OpNot
	OpAnd
	OpOr
	OpLe0 // args[0] <= 0 (Int)
	OpEq0 // args[0] == 0 (Int,Pt,Sc)
	OpEq  // equality for other sorts
	OpIte // args c,a,b
	OpDiv // floor division by positive constant args[0] / n
	OpSum // binder: args n, body
	OpForall
	OpExists // only produced through Not(Forall); kept for constructor convenience
	OpLam
	OpFlat
	OpCat
	OpLit // literal sequence of elements
	OpStr // string constant
	OpSub // s,off,len
	OpUpd // s,i,v
	OpAt
	OpLen
	OpMk  // struct
	OpFld // args[0] . n
	OpApp // uninterpreted function name(args)
	OpMEmpty
	OpMUpd
	OpMDel
	OpMLam // binder: has, val
	OpMHas
	OpMGet
	OpFirst // binder: First(n, body): least k in [0,n) with body
	OpPtr   // reference: payload ref
	OpFnLam // binder of one U arg: body (used for function-valued data)
)

type Term struct {
	op   Op
	sort Sort
	args []*Term
	name string
	n    int
	co   []*big.Int // poly coefficients
	bsrt Sort       // binder variable sort (MLam)
	ref  interface{}
	id   int
	h    int // max binder height
	key  string
	bl   bloom // over-approximates the set of variables inside
	lb   []*Term
	lbOK bool
}

type bloom [4]uint64

func (b *bloom) or(o *bloom) {
	for i := range b {
		b[i] |= o[i]
	}
}

// mayContain: false means no term with filter o occurs below.
func (b *bloom) mayContain(o *bloom) bool {
	for i := range b {
		if o[i]&^b[i] != 0 {
			return false
		}
	}
	return true
}

var termTab = map[string]*Term{}
var termCount int

var mkBuf []byte

func mk(t *Term) *Term {
	sb := mkBuf[:0]
	for _, n := range [4]int64{int64(t.op), int64(t.sort), int64(t.n), int64(t.bsrt)} {
		sb = append(strconv.AppendInt(sb, n, 10), '.')
	}
	sb = append(sb, t.name...)
	for _, a := range t.args {
		sb = strconv.AppendInt(append(sb, ','), int64(a.id), 10)
	}
	for _, c := range t.co {
		sb = c.Append(append(sb, ';'), 10)
	}
	if t.ref != nil {
		sb = append(append(sb, '@'), t.ref.(interface{ Key() string }).Key()...)
	}
	mkBuf = sb
	if o, ok := termTab[string(sb)]; ok {
		return o
	}
	k := string(sb)
	termCount++
	t.id = termCount
	t.key = k
	for _, a := range t.args {
		if a.h > t.h {
			t.h = a.h
		}
		t.bl.or(&a.bl)
	}
	if t.ref != nil {
		for _, a := range t.ref.(refIface).Sub() {
			if a.h > t.h {
				t.h = a.h
			}
			t.bl.or(&a.bl)
		}
	}
	if t.op == OpVar || t.op == OpBV {
		b := uint(t.id*7) % 256
		t.bl[b/64] |= 1 << (b % 64)
	}
	switch t.op {
	case OpSum, OpForall, OpLam, OpFlat, OpMLam, OpFirst, OpFnLam:
		t.h++
	}
	termTab[k] = t
	return t
}

var freshN int

func fresh(prefix string, s Sort) *Term {
	freshN++
	if i := strings.IndexByte(prefix, '#'); i >= 0 {
		prefix = prefix[:i]
	}
	return mk(&Term{op: OpVar, sort: s, name: fmt.Sprintf("%s#%d", prefix, freshN)})
}
func mkVar(name string, s Sort) *Term { return mk(&Term{op: OpVar, sort: s, name: name}) }

var True = mk(&Term{op: OpBool, sort: SBool, n: 1})
var False = mk(&Term{op: OpBool, sort: SBool, n: 0})

func mkBool(b bool) *Term {
	if b {
		return True
	}
	return False
}

// ---------------------------------------------------------------- polynomials

type polyT struct {
	m map[*Term]*big.Int // mono -> coefficient
}

var one = mk(&Term{op: OpMono, sort: SInt})

func isPolyAtom(t *Term) bool { return t.op != OpPoly }

func toPoly(t *Term) polyT {
	p := polyT{map[*Term]*big.Int{}}
	if t.op == OpPoly {
		for i, a := range t.args {
			p.m[a] = t.co[i]
		}
		return p
	}
	p.m[mkMono([]*Term{t})] = big.NewInt(1)
	return p
}

func mkMono(at []*Term) *Term {
	if len(at) == 0 {
		return one
	}
	a := append([]*Term{}, at...)
	// cancel inv(x)*x
	for i := 0; i < len(a); i++ {
		if a[i].op == OpApp && a[i].name == "inv" {
			for j := range a {
				if a[j] == a[i].args[0] {
					x, y := i, j
					if x > y {
						x, y = y, x
					}
					a = append(append(append([]*Term{}, a[:x]...), a[x+1:y]...), a[y+1:]...)
					return mkMono(a)
				}
			}
		}
	}
	sort.Slice(a, func(i, j int) bool { return a[i].id < a[j].id })
	return mk(&Term{op: OpMono, sort: SInt, args: a})
}

func (p polyT) add(t *Term, c *big.Int) {
	if o, ok := p.m[t]; ok {
		s := new(big.Int).Add(o, c)
		if s.Sign() == 0 {
			delete(p.m, t)
		} else {
			p.m[t] = s
		}
	} else if c.Sign() != 0 {
		p.m[t] = c
	}
}

func (p polyT) term(s Sort) *Term {
	if len(p.m) == 1 {
		for m, c := range p.m {
			if c.Cmp(big.NewInt(1)) == 0 && len(m.args) == 1 && m.args[0].sort == s {
				return m.args[0]
			}
		}
	}
	ms := make([]*Term, 0, len(p.m))
	for m := range p.m {
		ms = append(ms, m)
		if len(m.args) == 1 && firstIteration(m.args[0]) != nil {
			if t := p.pastFirst(m.args[0], s); t != nil {
				return t
			}
		}
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
	t := &Term{op: OpPoly, sort: s, args: ms}
	for _, m := range ms {
		t.co = append(t.co, p.m[m])
	}
	return mk(t)
}

// firstIteration is the loop counter it when t is ite(it <= 0, a, b).
func firstIteration(t *Term) *Term {
	if t.op != OpIte || t.args[0].op != OpLe0 {
		return nil
	}
	if x := t.args[0].args[0]; x.op == OpVar && strings.HasPrefix(x.name, "it#") {
		return x
	}
	return nil
}

// pastFirst: the polynomial for it > 0, if it is right for it = 0 too (it is the counter of a loop, never negative).
func (p polyT) pastFirst(a *Term, s Sort) *Term {
	c, it := a.args[0], firstIteration(a)
	x, y := polyT{map[*Term]*big.Int{}}, polyT{map[*Term]*big.Int{}}
	for m, co := range p.m {
		if len(m.args) == 1 && m.args[0].op == OpIte && m.args[0].args[0] == c {
			for mm, cc := range toPoly(m.args[0].args[1]).m {
				x.add(mm, new(big.Int).Mul(cc, co))
			}
			for mm, cc := range toPoly(m.args[0].args[2]).m {
				y.add(mm, new(big.Int).Mul(cc, co))
			}
			continue
		}
		x.add(m, co)
		y.add(m, co)
	}
	su := newSubst(it, mkInt(0))
	tx, ty := x.term(s), y.term(s)
	if su.apply(tx) == su.apply(ty) {
		return ty
	}
	return nil
}

func mkInt(i int64) *Term { return mkBig(big.NewInt(i), SInt) }
func mkBig(b *big.Int, s Sort) *Term {
	p := polyT{map[*Term]*big.Int{}}
	p.add(one, b)
	return p.term(s)
}
func zero(s Sort) *Term { return mkBig(big.NewInt(0), s) }

// asSort reinterprets an Int polynomial as a scalar (ring homomorphism Z -> Z_l)
func asSort(t *Term, s Sort) *Term {
	if t.sort == s {
		return t
	}
	return toPoly(t).term(s)
}

func constVal(t *Term) (*big.Int, bool) {
	if t.op != OpPoly {
		return nil, false
	}
	if len(t.args) == 0 {
		return big.NewInt(0), true
	}
	if len(t.args) == 1 && t.args[0] == one {
		return t.co[0], true
	}
	return nil, false
}
func constInt(t *Term) (int64, bool) {
	c, ok := constVal(t)
	if !ok || !c.IsInt64() {
		return 0, false
	}
	return c.Int64(), true
}
func isConst(t *Term, v int64) bool { c, ok := constInt(t); return ok && c == v }

func addT(s Sort, ts ...*Term) *Term {
	p := polyT{map[*Term]*big.Int{}}
	for _, t := range ts {
		for m, c := range toPoly(t).m {
			p.add(m, c)
		}
	}
	return p.term(s)
}
func add(a, b *Term) *Term { return addT(a.sort, a, b) }
func scale(t *Term, k *big.Int) *Term {
	p := polyT{map[*Term]*big.Int{}}
	for m, c := range toPoly(t).m {
		p.add(m, new(big.Int).Mul(c, k))
	}
	return p.term(t.sort)
}
func neg(t *Term) *Term           { return scale(t, big.NewInt(-1)) }
func sub(a, b *Term) *Term        { return add(a, neg(b)) }
func addI(a *Term, k int64) *Term { return add(a, mkInt(k)) }
func mul(a, b *Term) *Term {
	s := a.sort
	if b.sort == SPt || s == SPt {
		s = SPt
	} else if b.sort == SSc || s == SSc {
		s = SSc
	}
	p := polyT{map[*Term]*big.Int{}}
	pb := toPoly(b)
	for m, c := range toPoly(a).m {
		for m2, c2 := range pb.m {
			p.add(mkMono(append(append([]*Term{}, m.args...), m2.args...)), new(big.Int).Mul(c, c2))
		}
	}
	return p.term(s)
}

var BasePt = mkVar("B", SPt)

// exactQuo is the polynomial q with x = y*q, if there is one.
func exactQuo(x, y *Term) *Term {
	less := func(a, b *Term) bool {
		if len(a.args) != len(b.args) {
			return len(a.args) < len(b.args)
		}
		ia, ib := monoIDs(a), monoIDs(b)
		for i := range ia {
			if ia[i] != ib[i] {
				return ia[i] < ib[i]
			}
		}
		return false
	}
	lead := func(p polyT) (m *Term, c *big.Int) {
		for k, co := range p.m {
			if co.Sign() != 0 && (m == nil || less(m, k)) {
				m, c = k, co
			}
		}
		return
	}
	py := toPoly(y)
	my, cy := lead(py)
	if my == nil || len(py.m) > 40 {
		return nil
	}
	q := polyT{map[*Term]*big.Int{}}
	r := polyT{map[*Term]*big.Int{}}
	for m, c := range toPoly(x).m {
		r.add(m, c)
	}
	for n := 0; n < 200; n++ {
		m, c := lead(r)
		if m == nil {
			return q.term(SInt)
		}
		k, mod := new(big.Int).QuoRem(c, cy, new(big.Int))
		if mod.Sign() != 0 {
			return nil
		}
		left := append([]*Term{}, m.args...)
		for _, f := range my.args {
			i := 0
			for i < len(left) && left[i] != f {
				i++
			}
			if i == len(left) {
				return nil
			}
			left = append(left[:i], left[i+1:]...)
		}
		d := mkMono(left)
		q.add(d, k)
		for ym, yc := range py.m {
			r.add(mkMono(append(append([]*Term{}, d.args...), ym.args...)), new(big.Int).Neg(new(big.Int).Mul(k, yc)))
		}
	}
	return nil
}

// quoCandidates are the polynomials that x may be a multiple of y by, up to a rest.
func quoCandidates(x, y *Term) []*Term {
	var r []*Term
	for my, cy := range toPoly(y).m {
		if len(my.args) == 0 {
			continue
		}
		q := polyT{map[*Term]*big.Int{}}
		for m, c := range toPoly(x).m {
			k, mod := new(big.Int).QuoRem(c, cy, new(big.Int))
			if mod.Sign() != 0 || len(m.args) <= len(my.args) {
				continue
			}
			left := append([]*Term{}, m.args...)
			for _, f := range my.args {
				for i := range left {
					if left[i] == f {
						left = append(left[:i], left[i+1:]...)
						break
					}
				}
			}
			if len(left)+len(my.args) == len(m.args) {
				q.add(mkMono(left), k)
			}
		}
		if t := q.term(SInt); !isConst(t, 0) {
			dup := false
			for _, o := range r {
				dup = dup || o == t
			}
			if !dup {
				r = append(r, t)
			}
		}
	}
	sortTerms(r)
	return r
}

func monoIDs(m *Term) []int {
	ids := make([]int, len(m.args))
	for i, a := range m.args {
		ids[i] = a.id
	}
	sort.Sort(sort.Reverse(sort.IntSlice(ids)))
	return ids
}

// divF is floor division by a positive constant
func divF(a *Term, k int64) *Term {
	if k == 1 {
		return a
	}
	if c, ok := constVal(a); ok {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(c, big.NewInt(k), m)
		return mkBig(q, SInt)
	}
	// split divisible part
	p := toPoly(a)
	q := polyT{map[*Term]*big.Int{}}
	r := polyT{map[*Term]*big.Int{}}
	K := big.NewInt(k)
	for m, c := range p.m {
		d, mod := new(big.Int).DivMod(c, K, new(big.Int))
		q.add(m, d)
		r.add(m, mod)
	}
	rt := r.term(SInt)
	qt := q.term(SInt)
	if c, ok := constInt(rt); ok && c >= 0 && c < k {
		return qt
	}
	return add(qt, mk(&Term{op: OpDiv, sort: SInt, args: []*Term{rt}, n: int(k)}))
}
func modF(a *Term, k int64) *Term { return sub(a, scale(divF(a, k), big.NewInt(k))) }

// ---------------------------------------------------------------- booleans

func not(t *Term) *Term {
	switch t.op {
	case OpBool:
		return mkBool(t.n == 0)
	case OpNot:
		return t.args[0]
	case OpLe0:
		return le0(sub(mkInt(1), t.args[0]))
	case OpIte:
		return ite(t.args[0], not(t.args[1]), not(t.args[2]))
	}
	return mk(&Term{op: OpNot, sort: SBool, args: []*Term{t}})
}

func and(ts ...*Term) *Term    { return nary(OpAnd, ts) }
func or(ts ...*Term) *Term     { return nary(OpOr, ts) }
func implies(a, b *Term) *Term { return or(not(a), b) }

func nary(op Op, ts []*Term) *Term {
	unit, abs, dual0 := True, False, OpOr
	if op == OpOr {
		unit, abs, dual0 = False, True, OpAnd
	}
	set := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == abs {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if t.op == OpNot && t.args[0].op == dual0 {
			for _, a := range t.args[0].args {
				if !rec(not(a)) {
					return false
				}
			}
			return true
		}
		if set[t] {
			return true
		}
		if set[not(t)] {
			return false
		}
		set[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if t.sort != SBool {
			panic("nary on " + t.String())
		}
		if !rec(t) {
			return abs
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	// absorption: for And, drop disjunctions containing an asserted literal, remove negated literals
	dual := OpOr
	if op == OpOr {
		dual = OpAnd
	}
	changed := false
	for i, t := range out {
		if t.op == dual {
			var keep []*Term
			absorbed, red := false, false
			for _, a := range t.args {
				if set[a] {
					absorbed = true
					break
				}
				if set[not(a)] {
					red = true
					continue
				}
				keep = append(keep, a)
			}
			if absorbed {
				out[i] = unit
				changed = true
			} else if red {
				out[i] = nary(dual, keep)
				changed = true
			}
		}
	}
	if changed {
		return nary(op, out)
	}
	// factor (g&c)|(g&!c) pairs: for Or of Ands (2 elements only)
	if len(out) == 2 && out[0].op == dual && out[1].op == dual {
		in0 := map[*Term]bool{}
		for _, a := range out[0].args {
			in0[a] = true
		}
		var common, r1 []*Term
		for _, a := range out[1].args {
			if in0[a] {
				common = append(common, a)
				delete(in0, a)
			} else {
				r1 = append(r1, a)
			}
		}
		if len(common) > 0 {
			var r0 []*Term
			for _, a := range out[0].args {
				if in0[a] {
					r0 = append(r0, a)
				}
			}
			return nary(dual, append(common, nary(op, []*Term{nary(dual, r0), nary(dual, r1)})))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(&Term{op: op, sort: SBool, args: out})
}

func polyGcd(t *Term, withConst bool) *big.Int {
	g := new(big.Int)
	for i, m := range t.args {
		if m == one && !withConst {
			continue
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(t.co[i]))
	}
	return g
}

func le0(t *Term) *Term {
	if c, ok := constVal(t); ok {
		return mkBool(c.Sign() <= 0)
	}
	if t.op == OpPoly {
		g := polyGcd(t, false)
		if g.Cmp(big.NewInt(1)) > 0 {
			// g*q + c <= 0  <=>  q <= floor(-c/g)  <=> q + ceil(c/g) <= 0
			p := polyT{map[*Term]*big.Int{}}
			for i, m := range t.args {
				if m == one {
					q := new(big.Int).Neg(t.co[i])
					q.Div(q, g) // Euclidean = floor for g>0
					p.add(one, q.Neg(q))
				} else {
					p.add(m, new(big.Int).Div(t.co[i], g))
				}
			}
			return le0(p.term(SInt))
		}
	}
	if t.op == OpApp && t.name == "maplen" && someKeys[t.args[0]] {
		return False
	}
	// the position of a key is below the size of the map exactly for the keys the map has
	if t.op == OpPoly && (len(t.args) == 2 || len(t.args) == 3) {
		if b := keyPosition(t); b != nil {
			return b
		}
	}
	// -1*len(...) <= 0
	if t.op == OpPoly && len(t.args) >= 1 {
		allNonneg := true
		if len(someKeys) > 0 {
			lo, hi := lowest(t, 1), lowest(t, -1)
			if lo != nil && lo.Sign() > 0 {
				return False
			}
			if hi != nil && hi.Sign() >= 0 {
				return True
			}
		}
		for i, m := range t.args {
			if m == one {
				if t.co[i].Sign() > 0 {
					allNonneg = false
				}
				continue
			}
			if !(len(m.args) == 1 && nonneg(m.args[0]) && t.co[i].Sign() < 0) {
				allNonneg = false
			}
		}
		if allNonneg {
			return True
		}
	}
	return mk(&Term{op: OpLe0, sort: SBool, args: []*Term{t}})
}

// lowest is a lower bound of sign*t, if one is apparent.
func lowest(t *Term, sign int64) *big.Int {
	b := new(big.Int)
	for i, m := range t.args {
		c := new(big.Int).Mul(t.co[i], big.NewInt(sign))
		switch {
		case m == one:
			b.Add(b, c)
		case c.Sign() > 0 && len(m.args) == 1 && m.args[0].op == OpApp && m.args[0].name == "maplen" && someKeys[m.args[0].args[0]]:
			b.Add(b, c)
		case c.Sign() > 0 && len(m.args) == 1 && nonneg(m.args[0]):
		default:
			return nil
		}
	}
	return b
}

func nonneg(t *Term) bool {
	if natural[t] {
		return true
	}
	switch t.op {
	case OpLen:
		return true
	case OpPoly:
		for i, m := range t.args {
			if t.co[i].Sign() < 0 {
				return false
			}
			if !(m == one || len(m.args) == 1 && nonneg(m.args[0])) {
				return false
			}
		}
		return true
	case OpSum:
		return nonneg(t.args[1])
	case OpIte:
		return t.sort == SInt && nonneg(t.args[1]) && nonneg(t.args[2])
	case OpApp:
		return t.name == "maplen" || t.name == "kidx"
	case OpFirst:
		return true
	}
	return false
}

// keyPosition recognises 1 + kidx(m,o,q) - maplen(m) <= 0 and its negation.
func keyPosition(t *Term) *Term {
	var ki, ml *Term
	var ck, cm, c1 int64
	for i, m := range t.args {
		c := t.co[i]
		if !c.IsInt64() {
			return nil
		}
		if m == one {
			c1 = c.Int64()
			continue
		}
		if len(m.args) != 1 || m.args[0].op != OpApp {
			return nil
		}
		switch a := m.args[0]; a.name {
		case "kidx":
			ki, ck = a, c.Int64()
		case "maplen":
			ml, cm = a, c.Int64()
		default:
			return nil
		}
	}
	if ki == nil || ml == nil || dom(ki.args[0]) != ml.args[0] {
		return nil
	}
	if c1 == 1 && ck == 1 && cm == -1 {
		return mhas(ki.args[0], ki.args[2])
	}
	if c1 == 0 && ck == -1 && cm == 1 {
		return not(mhas(ki.args[0], ki.args[2]))
	}
	return nil
}

func le(a, b *Term) *Term { return le0(sub(a, b)) }
func lt(a, b *Term) *Term { return le0(addI(sub(a, b), 1)) }

func eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		if a.sort.numeric() && b.sort.numeric() {
			if a.sort == SInt {
				a = asSort(a, b.sort)
			} else {
				b = asSort(b, a.sort)
			}
		} else {
			return mk(&Term{op: OpApp, sort: SBool, name: "badeq", args: []*Term{a, b}})
		}
	}
	for i := 0; i < 2; i++ {
		if a.op == OpApp && a.name == "keyat" {
			if k := a.args[2]; k.op == OpApp && k.name == "kidx" && k.args[0] == a.args[0] && k.args[1] == a.args[1] && k.args[2] == b {
				return mhas(a.args[0], b)
			}
		}
		a, b = b, a
	}
	if a.op == OpFlat && b.op == OpFlat {
		i := fresh("i", SInt)
		if n, x, sep := numberList(a, i); n != nil {
			if m, y, sep2 := numberList(b, i); m != nil && sep == sep2 {
				return and(eq(n, m), forallX(n, i, eq(x, y)))
			}
		}
	}
	switch a.sort {
	case SInt, SPt, SSc:
		return eq0(sub(a, b))
	case SBool:
		if a.op == OpBool {
			a, b = b, a
		}
		if b == True {
			return a
		}
		if b == False {
			return not(a)
		}
		return and(implies(a, b), implies(b, a))
	case SStruct:
		if a.op == OpMk && b.op == OpMk && len(a.args) == len(b.args) {
			var es []*Term
			for i := range a.args {
				es = append(es, eq(a.args[i], b.args[i]))
			}
			return and(es...)
		}
	case SRef:
		if pa, ok := a.ref.(*PtrRef); ok {
			if pb, ok2 := b.ref.(*PtrRef); ok2 {
				if pa.obj != pb.obj {
					return False
				}
			}
		}
		if a.op == OpIte {
			return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
		}
		if b.op == OpIte {
			return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
		}
		if a.op == OpPtr && b.op == OpPtr {
			_, na := a.ref.(*NilRef)
			_, nb := b.ref.(*NilRef)
			if na != nb {
				return False
			}
		}
	case SSeq:
		if a.op == OpStr && b.op == OpStr {
			return mkBool(a.name == b.name)
		}
		if a.op == OpFlat && b.op == OpFlat {
			x := fresh("k", SInt)
			p, q := open(a, x)[0], open(b, x)[0]
			if u, ok := constInt(length(p)); ok && length(q) == length(p) && u > 0 {
				return and(eq(a.args[0], b.args[0]), forallX(a.args[0], x, eq(p, q)))
			}
		}
		if a.op == OpCat && b.op == OpCat && len(a.args) > 0 && len(b.args) > 0 {
			if a.args[0] == b.args[0] {
				return eq(cat(a.args[1:]...), cat(b.args[1:]...))
			}
			la, lb := len(a.args), len(b.args)
			if a.args[la-1] == b.args[lb-1] {
				return eq(cat(a.args[:la-1]...), cat(b.args[:lb-1]...))
			}
		}
	}
	for i := 0; i < 2; i++ {
		if a.op == OpApp && a.name == "pstr" && !(b.op == OpApp && b.name == "pstr") && b.op != OpIte {
			if w := intLog(a.args[0]); w != nil {
				return and(app("pointtext", SBool, b), eq(app("dlog", SInt, b), w))
			}
		}
		a, b = b, a
	}
	if a.op == OpApp && b.op == OpApp && a.name == b.name && injective[a.name] && len(a.args) == len(b.args) {
		var es []*Term
		for i := range a.args {
			es = append(es, eq(a.args[i], b.args[i]))
		}
		return and(es...)
	}
	if a.op == OpIte && a.sort != SBool {
		// push through when one branch is decided
		x, y := eq(a.args[1], b), eq(a.args[2], b)
		if x.op == OpBool || y.op == OpBool {
			return ite(a.args[0], x, y)
		}
	}
	if b.op == OpIte && b.sort != SBool {
		x, y := eq(a, b.args[1]), eq(a, b.args[2])
		if x.op == OpBool || y.op == OpBool {
			return ite(b.args[0], x, y)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: OpEq, sort: SBool, args: []*Term{a, b}})
}

// functions known to be injective (see models.go)
var injective = map[string]bool{"penc": true, "pstr": true, "senc": true, "b64": true, "itoa": true}

func eq0(t *Term) *Term {
	if c, ok := constVal(t); ok {
		return mkBool(c.Sign() == 0)
	}
	if t.op != OpPoly {
		if t.op == OpIte {
			x, y := eq0(t.args[1]), eq0(t.args[2])
			if x.op == OpBool || y.op == OpBool {
				return ite(t.args[0], x, y)
			}
		}
		if t.sort == SPt && t == BasePt {
			return False
		}
		return mk(&Term{op: OpEq0, sort: SBool, args: []*Term{t}})
	}
	// factor base point: B generates the prime-order group, s*B = 0 iff s = 0
	if t.sort == SPt {
		allB := true
		p := polyT{map[*Term]*big.Int{}}
		for i, m := range t.args {
			found := false
			var rest []*Term
			for _, a := range m.args {
				if a == BasePt && !found {
					found = true
					continue
				}
				rest = append(rest, a)
			}
			if !found {
				allB = false
				break
			}
			p.add(mkMono(rest), t.co[i])
		}
		if allB {
			return eq0(p.term(SSc))
		}
	}
	// integers embedded into scalars: |int| < order assumed, so equality transfers
	if t.sort == SSc {
		allInt := true
		for _, m := range t.args {
			for _, a := range m.args {
				if a.sort != SInt {
					allInt = false
				}
			}
		}
		if allInt {
			return eq0(asSort(t, SInt))
		}
	}
	g := polyGcd(t, true)
	if t.sort == SInt {
		gv := polyGcd(t, false)
		if gv.Cmp(big.NewInt(1)) > 0 {
			for i, m := range t.args {
				if m == one && new(big.Int).Mod(t.co[i], gv).Sign() != 0 {
					return False
				}
			}
		}
	}
	// sign normalisation on the lowest-id monomial
	if t.co[0].Sign() < 0 {
		g.Neg(g)
	}
	if g.Cmp(big.NewInt(1)) != 0 && g.Sign() != 0 {
		p := polyT{map[*Term]*big.Int{}}
		for i, m := range t.args {
			p.add(m, new(big.Int).Quo(t.co[i], g))
		}
		t = p.term(t.sort)
	}
	return mk(&Term{op: OpEq0, sort: SBool, args: []*Term{t}})
}

func ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.op == OpLe0 && c.args[0].op == OpVar && strings.HasPrefix(c.args[0].name, "it#") && a.sort == b.sort && occurs(c.args[0], b) {
		if su := newSubst(c.args[0], mkInt(0)); su.apply(b) == su.apply(a) {
			return b
		}
	}
	if c.op == OpEq0 && c.args[0].op == OpVar && c.args[0].sort == SInt && a.sort == b.sort && occurs(c.args[0], b) {
		if su := newSubst(c.args[0], mkInt(0)); su.apply(b) == su.apply(a) {
			return b
		}
	}
	if c.op == OpAnd && a.sort == b.sort && len(a.args) == 0 {
		// the other branch is the same when one of the conditions is used to rewrite it
		for _, x := range c.args {
			if x.op == OpEq0 && x.args[0].sort == SInt && x.args[0].op != OpPoly && occurs(x.args[0], b) {
				if su := newSubst(x.args[0], mkInt(0)); su.apply(b) == a {
					return b
				}
			}
		}
	}
	if c.op == OpNot {
		return ite(c.args[0], b, a)
	}
	if a.sort != b.sort {
		if a.sort.numeric() && b.sort.numeric() {
			if a.sort == SInt {
				a = asSort(a, b.sort)
			} else {
				b = asSort(b, a.sort)
			}
		}
	}
	if a.op == OpIte && a.args[0] == c {
		return ite(c, a.args[1], b)
	}
	if b.op == OpIte && b.args[0] == c {
		return ite(c, a, b.args[2])
	}
	if b.op == OpIte && b.args[0] == not(c) {
		return ite(c, a, b.args[1])
	}
	switch a.sort {
	case SBool:
		return and(or(not(c), a), or(c, b))
	case SInt, SPt, SSc:
		pa, pb := toPoly(a), toPoly(b)
		common := polyT{map[*Term]*big.Int{}}
		ra, rb := polyT{map[*Term]*big.Int{}}, polyT{map[*Term]*big.Int{}}
		for m, co := range pa.m {
			if c2, ok := pb.m[m]; ok && c2.Cmp(co) == 0 {
				common.add(m, co)
			} else {
				ra.add(m, co)
			}
		}
		for m, co := range pb.m {
			if c2, ok := pa.m[m]; ok && c2.Cmp(co) == 0 {
				continue
			}
			rb.add(m, co)
		}
		if len(common.m) > 0 {
			x, y := ra.term(a.sort), rb.term(a.sort)
			return addT(a.sort, common.term(a.sort), ite(c, x, y))
		}
	case SStruct:
		if a.op == OpMk && b.op == OpMk && len(a.args) == len(b.args) {
			fs := make([]*Term, len(a.args))
			for i := range fs {
				fs[i] = ite(c, a.args[i], b.args[i])
			}
			return mkStruct(a.name, fs...)
		}
	case SSeq:
		ca, cb := catParts(a), catParts(b)
		i := 0
		for i < len(ca) && i < len(cb) && ca[i] == cb[i] {
			i++
		}
		if i > 0 {
			return cat(append(append([]*Term{}, ca[:i]...), ite(c, cat(ca[i:]...), cat(cb[i:]...)))...)
		}
		if a.op == OpLam && b.op == OpLam && a.args[0] == b.args[0] {
			return lam(a.args[0], func(i *Term) *Term { return ite(c, at(a, i, SU), at(b, i, SU)) })
		}
	}
	return mk(&Term{op: OpIte, sort: a.sort, args: []*Term{c, a, b}})
}

// ---------------------------------------------------------------- binders

// closeVar replaces free variable x in body by the binder variable of the new binder.
func bvFor(h int, s Sort) *Term {
	return mk(&Term{op: OpBV, sort: s, name: fmt.Sprintf("%d", h)})
}

func closeOver(x *Term, bodies ...*Term) []*Term {
	h := 0
	for _, b := range bodies {
		if b.h > h {
			h = b.h
		}
	}
	bv := bvFor(h+1, x.sort)
	out := make([]*Term, len(bodies))
	su := newSubst(x, bv)
	su.raw = true
	for i, b := range bodies {
		out[i] = su.apply(b)
	}
	// raw substitution does not change heights unless normalisation happens
	for _, o := range out {
		if o.h > h {
			panic("closeOver height grew")
		}
	}
	return out
}

// binder construction: kind with bound n (may be nil) and bodies over fresh x
func mkBinder(op Op, s Sort, n *Term, x *Term, bodies ...*Term) *Term {
	h := 0
	for _, b := range bodies {
		if b.h > h {
			h = b.h
		}
	}
	if n != nil && n.h > h {
		// bound's own binders are closed; no clash because BV names only need to differ inside body
	}
	cl := closeOver(x, bodies...)
	args := cl
	if n != nil {
		args = append([]*Term{n}, cl...)
	}
	// the bv name depends on the body height only; record it in n field
	t := &Term{op: op, sort: s, args: args, n: h + 1, bsrt: x.sort}
	return mk(t)
}

// open instantiates binder t's bodies with v
func open(t *Term, v *Term) []*Term {
	bodies := t.args
	if t.op != OpMLam && t.op != OpFnLam {
		bodies = t.args[1:]
	}
	su := newSubst(bvFor(t.n, t.bsrt), v)
	out := make([]*Term, len(bodies))
	for i, b := range bodies {
		out[i] = su.apply(b)
	}
	return out
}

type subst struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
	univ map[*Term][]*Term // universal statements by their bound, to be used inside binders
	raw  bool              // no renormalisation (pure renaming of a variable to a bv)
}

func newSubst(kv ...*Term) *subst {
	s := &subst{m: map[*Term]*Term{}, memo: map[*Term]*Term{}}
	for i := 0; i+1 < len(kv); i += 2 {
		s.m[kv[i]] = kv[i+1]
	}
	return s
}

func (s *subst) apply(t *Term) *Term {
	if r, ok := s.m[t]; ok {
		return r
	}
	if len(t.args) == 0 && t.ref == nil {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	hit := s.univ != nil
	for k := range s.m {
		if hit {
			break
		}
		if t.bl.mayContain(&k.bl) {
			hit = true
			break
		}
	}
	if !hit {
		return t
	}
	var r *Term
	if t.ref != nil {
		r = t.ref.(refIface).Map(t, s)
		s.memo[t] = r
		return r
	}
	changed := false
	na := make([]*Term, len(t.args))
	isB := isBinder(t.op)
	if isB && !s.raw {
		// open with fresh variable, substitute, rebuild
		k := 0
		if t.op != OpMLam && t.op != OpFnLam {
			na[0] = s.apply(t.args[0])
			changed = na[0] != t.args[0]
			k = 1
		}
		x := fresh("x", t.bsrt)
		bo := open(t, x)
		nb := make([]*Term, len(bo))
		if k == 1 {
			for _, n := range []*Term{t.args[0], na[0]} {
				for _, f := range s.univ[n] {
					b := open(f, x)[0]
					s.m[b], s.m[not(b)] = True, False
				}
				if na[0] == t.args[0] {
					break
				}
			}
		}
		for i, b := range bo {
			nb[i] = s.apply(b)
			if nb[i] != b {
				changed = true
			}
		}
		if !changed {
			r = t
		} else if k == 1 {
			r = rebuildBinder(t, na[0], x, nb)
		} else {
			r = rebuildBinder(t, nil, x, nb)
		}
		s.memo[t] = r
		return r
	}
	for i, a := range t.args {
		na[i] = s.apply(a)
		if na[i] != a {
			changed = true
		}
	}
	if !changed {
		r = t
	} else if s.raw {
		r = rawRebuild(t, na)
	} else {
		r = rebuild(t, na)
	}
	s.memo[t] = r
	return r
}

func rawRebuild(t *Term, na []*Term) *Term {
	c := *t
	c.args = na
	c.id, c.h, c.key, c.bl = 0, 0, "", bloom{}
	if t.op == OpPoly || t.op == OpMono || t.op == OpAnd || t.op == OpOr {
		// keep canonical argument order
		idx := make([]int, len(na))
		for i := range idx {
			idx[i] = i
		}
		sort.Slice(idx, func(i, j int) bool { return na[idx[i]].id < na[idx[j]].id })
		c.args = make([]*Term, len(na))
		if t.co != nil {
			c.co = make([]*big.Int, len(na))
		}
		for i, k := range idx {
			c.args[i] = na[k]
			if t.co != nil {
				c.co[i] = t.co[k]
			}
		}
	}
	if t.op == OpEq && c.args[0].id > c.args[1].id {
		c.args[0], c.args[1] = c.args[1], c.args[0]
	}
	if t.op == OpEq0 && c.args[0].op == OpPoly && c.args[0].co[0].Sign() < 0 {
		c.args = []*Term{neg(c.args[0])}
	}
	return mk(&c)
}

func isBinder(op Op) bool {
	switch op {
	case OpSum, OpForall, OpLam, OpFlat, OpMLam, OpFirst, OpFnLam:
		return true
	}
	return false
}

func rebuildBinder(t *Term, n, x *Term, b []*Term) *Term {
	switch t.op {
	case OpSum:
		return sumX(n, x, b[0])
	case OpForall:
		return forallX(n, x, b[0])
	case OpLam:
		return lamX(n, x, b[0])
	case OpFlat:
		return flatX(n, x, b[0])
	case OpFirst:
		return firstX(n, x, b[0])
	case OpMLam:
		return mlamX(x, b[0], b[1])
	case OpFnLam:
		return mkBinder(OpFnLam, SU, nil, x, b...)
	}
	panic("rebuildBinder")
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OpPoly:
		p := polyT{map[*Term]*big.Int{}}
		for i, m := range a {
			// m is a mono or, after substitution, an arbitrary poly
			for mm, c := range monoAsPoly(m).m {
				p.add(mm, new(big.Int).Mul(c, t.co[i]))
			}
		}
		return p.term(t.sort)
	case OpMono:
		r := mkInt(1)
		for _, x := range a {
			r = mul(r, x)
		}
		return r
	case OpNot:
		return not(a[0])
	case OpAnd:
		return and(a...)
	case OpOr:
		return or(a...)
	case OpLe0:
		return le0(a[0])
	case OpEq0:
		return eq0(a[0])
	case OpEq:
		return eq(a[0], a[1])
	case OpIte:
		return ite(a[0], a[1], a[2])
	case OpDiv:
		return divF(a[0], int64(t.n))
	case OpCat:
		return cat(a...)
	case OpLit:
		return lit(a...)
	case OpSub:
		return subSeq(a[0], a[1], a[2])
	case OpUpd:
		return upd(a[0], a[1], a[2])
	case OpAt:
		return at(a[0], a[1], t.sort)
	case OpLen:
		return length(a[0])
	case OpMk:
		return mkStruct(t.name, a...)
	case OpFld:
		return fld(a[0], t.n, t.sort)
	case OpApp:
		return app(t.name, t.sort, a...)
	case OpMUpd:
		return mupd(a[0], a[1], a[2])
	case OpMDel:
		return mdel(a[0], a[1])
	case OpMHas:
		return mhas(a[0], a[1])
	case OpMGet:
		return mget(a[0], a[1], t.sort)
	}
	panic(fmt.Sprintf("rebuild op %d", t.op))
}

func monoAsPoly(m *Term) polyT {
	if m.op == OpMono {
		p := polyT{map[*Term]*big.Int{}}
		p.m[m] = big.NewInt(1)
		return p
	}
	return toPoly(m)
}

func occurs(x, t *Term) bool {
	if !t.bl.mayContain(&x.bl) {
		return false
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] || !t.bl.mayContain(&x.bl) {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		if t.ref != nil {
			for _, a := range t.ref.(refIface).Sub() {
				if rec(a) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

func collect(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		if t.ref != nil {
			for _, a := range t.ref.(refIface).Sub() {
				rec(a)
			}
		}
	}
	rec(t)
}

func hasBV(t *Term) bool { return len(looseBVs(t)) > 0 }

// looseBVs lists the bound variables of t that no binder inside t binds.
func looseBVs(t *Term) []*Term {
	if t.lbOK {
		return t.lb
	}
	var out []*Term
	add := func(v *Term) {
		for _, o := range out {
			if o == v {
				return
			}
		}
		out = append(out, v)
	}
	switch t.op {
	case OpBV:
		out = []*Term{t}
	case OpSum, OpForall, OpLam, OpFlat, OpMLam, OpFirst, OpFnLam:
		bodies := t.args
		if t.op != OpMLam && t.op != OpFnLam {
			bodies = t.args[1:]
			for _, v := range looseBVs(t.args[0]) {
				add(v)
			}
		}
		b := bvFor(t.n, t.bsrt)
		for _, a := range bodies {
			for _, v := range looseBVs(a) {
				if v != b {
					add(v)
				}
			}
		}
	default:
		for _, a := range t.args {
			for _, v := range looseBVs(a) {
				add(v)
			}
		}
	}
	t.lb, t.lbOK = out, true
	return out
}

// sum over [0,n)
func sum(n *Term, s Sort, f func(*Term) *Term) *Term {
	x := fresh("k", SInt)
	return sumX(n, x, asSort(f(x), s))
}
func sumX(n, x, body *Term) *Term {
	body = mapOrder(n, x, inBound(n, x, body))
	s := body.sort
	if c, ok := constInt(n); ok && c <= 6 {
		acc := zero(s)
		for i := int64(0); i < c; i++ {
			acc = add(acc, newSubst(x, mkInt(i)).apply(body))
		}
		return acc
	}
	// linear: split monomials, pull out factors free of x
	res := polyT{map[*Term]*big.Int{}}
	for m, c := range toPoly(body).m {
		var in, out []*Term
		for _, a := range m.args {
			if occurs(x, a) {
				in = append(in, a)
			} else {
				out = append(out, a)
			}
		}
		var base *Term
		if len(in) == 0 {
			// sum of constant = max(n,0)*c ; callers guarantee n >= 0
			base = mul(mkMonoTerm(out, s), n)
		} else {
			in2 := mkMonoTerm(in, sortOfMono(in, s))
			var b *Term
			if in2.op == OpIte && in2.args[0] == le0(x) {
				// the first summand is a special one
				y := fresh("k", SInt)
				b = ite(le0(n), zero(in2.sort), add(newSubst(x, mkInt(0)).apply(in2.args[1]), asSort(sumX(addI(n, -1), y, newSubst(x, addI(y, 1)).apply(in2.args[2])), in2.sort)))
			} else if c := minShift(x, in2); c > 0 {
				// sum of f(i+c), i<n, is the sum of f(i), c<=i<n+c
				f := newSubst(x, addI(x, -c)).apply(in2)
				b = sub(sumX(addI(n, c), x, f), asSort(sumX(mkInt(c), x, f), in2.sort))
			} else {
				b = mkBinder(OpSum, in2.sort, n, x, in2)
			}
			base = mul(mkMonoTerm(out, s), b)
		}
		for mm, cc := range toPoly(base).m {
			res.add(mm, new(big.Int).Mul(cc, c))
		}
	}
	return res.term(s)
}

// minShift finds the c with 0 < c <= 4 such that x occurs in t only in sums x + ... + c' with c' >= c
// (0 if there is none).
func minShift(x, t *Term) int64 {
	min := int64(5)
	var rec func(t *Term)
	seen := map[*Term]bool{}
	rec = func(t *Term) {
		if min == 0 || seen[t] || !t.bl.mayContain(&x.bl) {
			return
		}
		seen[t] = true
		if t == x {
			min = 0
			return
		}
		if t.op == OpPoly && t.sort == SInt {
			c := int64(0)
			lin := false
			for i, m := range t.args {
				switch {
				case len(m.args) == 0:
					if !t.co[i].IsInt64() {
						min = 0
						return
					}
					c = t.co[i].Int64()
				case len(m.args) == 1 && m.args[0] == x:
					if !t.co[i].IsInt64() || t.co[i].Int64() != 1 {
						min = 0
						return
					}
					lin = true
				case occurs(x, m):
					min = 0
					return
				}
			}
			if lin {
				if c < 0 {
					c = 0
				}
				if c < min {
					min = c
				}
				return
			}
		}
		for _, a := range t.args {
			rec(a)
		}
		if t.ref != nil {
			for _, a := range t.ref.(refIface).Sub() {
				rec(a)
			}
		}
	}
	rec(t)
	if min > 4 {
		return 0
	}
	return min
}

func sortOfMono(at []*Term, s Sort) Sort {
	r := SInt
	for _, a := range at {
		if a.sort == SPt {
			return SPt
		}
		if a.sort == SSc {
			r = SSc
		}
	}
	_ = s
	return r
}
func mkMonoTerm(at []*Term, s Sort) *Term {
	p := polyT{map[*Term]*big.Int{}}
	p.add(mkMono(at), big.NewInt(1))
	return p.term(sortOfMono(at, s))
}

func forall(n *Term, f func(*Term) *Term) *Term {
	x := fresh("k", SInt)
	return forallX(n, x, f(x))
}
func exists(n *Term, f func(*Term) *Term) *Term {
	return not(forall(n, func(k *Term) *Term { return not(f(k)) }))
}

// inBound simplifies a body by the bounds of its binder.
func inBound(n, x, body *Term) *Term {
	if body.op == OpBool {
		return body
	}
	su := newSubst()
	for _, c := range []*Term{le(mkInt(0), x), lt(x, n), lt(mkInt(0), n)} {
		if c.op == OpBool {
			continue
		}
		if occurs(c, body) {
			su.m[c] = True
		}
		if nc := not(c); nc.op == OpLe0 && occurs(nc, body) {
			su.m[nc] = False
		}
	}
	if len(su.m) == 0 {
		return body
	}
	return su.apply(body)
}

func forallX(n, x, body *Term) *Term {
	body = mapOrder(n, x, inBound(n, x, body))
	if body == True {
		return True
	}
	if c, ok := constInt(n); ok && c <= 4 {
		acc := True
		for i := int64(0); i < c; i++ {
			acc = and(acc, newSubst(x, mkInt(i)).apply(body))
		}
		return acc
	}
	if body.op == OpAnd {
		var cs []*Term
		for _, a := range body.args {
			cs = append(cs, forallX(n, x, a))
		}
		return and(cs...)
	}
	if !occurs(x, body) {
		return or(le0(n), body)
	}
	if body.op == OpOr {
		// pull out x-free disjuncts
		var in, out []*Term
		for _, a := range body.args {
			if occurs(x, a) {
				in = append(in, a)
			} else {
				out = append(out, a)
			}
		}
		if len(out) > 0 {
			return or(append(out, forallX(n, x, or(in...)))...)
		}
	}
	if n.op == OpApp && n.name == "maplen" && body.op == OpNot && body.args[0].op == OpEq {
		// no key equals q
		for i, a := range body.args[0].args {
			q := body.args[0].args[1-i]
			if a.op == OpApp && a.name == "keyat" && a.args[0] == dom(n.args[0]) && a.args[2] == x && !occurs(x, q) {
				return not(mhas(a.args[0], q))
			}
		}
	}
	if body.op == OpNot {
		// all but one position
		if t := onePoint(x, body.args[0]); t != nil {
			return or(lt(t, mkInt(0)), le(n, t))
		}
	}
	if body.op == OpNot && body.args[0].op == OpOr {
		var cs []*Term
		for _, a := range body.args[0].args {
			c := forallX(n, x, not(a))
			if c.op == OpForall {
				cs = nil
				break
			}
			cs = append(cs, c)
		}
		if cs != nil {
			return and(cs...)
		}
	}
	if body.op == OpNot && body.args[0].op == OpAnd {
		var in, out []*Term
		for _, a := range body.args[0].args {
			if occurs(x, a) {
				in = append(in, a)
			} else {
				out = append(out, not(a))
			}
		}
		if len(out) > 0 {
			return or(append(out, forallX(n, x, not(and(in...))))...)
		}
	}
	if body.op == OpNot && body.args[0].op == OpAnd {
		if t, rest := fromOn(x, body.args[0].args); t != nil {
			return or(le(n, t), not(newSubst(x, t).apply(rest)))
		}
		for i, a := range body.args[0].args {
			if t := onePoint(x, a); t != nil {
				rest := append(append([]*Term{}, body.args[0].args[:i]...), body.args[0].args[i+1:]...)
				return or(lt(t, mkInt(0)), le(n, t), not(newSubst(x, t).apply(and(rest...))))
			}
		}
	}
	if body.op == OpOr {
		var ns []*Term
		for _, a := range body.args {
			ns = append(ns, not(a))
		}
		if t, rest := fromOn(x, ns); t != nil {
			return or(le(n, t), not(newSubst(x, t).apply(rest)))
		}
		for i, a := range body.args {
			if a.op != OpNot {
				continue
			}
			if t := onePoint(x, a.args[0]); t != nil {
				rest := append(append([]*Term{}, body.args[:i]...), body.args[i+1:]...)
				return or(lt(t, mkInt(0)), le(n, t), newSubst(x, t).apply(or(rest...)))
			}
		}
	}
	if body.op == OpLe0 {
		if co, r := linear(x, body.args[0]); co > 0 {
			return or(le0(n), le0(add(scale(addI(n, -1), big.NewInt(co)), r)))
		} else if co < 0 {
			return or(le0(n), le0(r))
		}
	}
	if body.op == OpForall && body.args[0] == x && strings.Contains(x.name, "#") {
		// something holds before x for every x < n
		y := fresh("k", SInt)
		if b := open(body, y)[0]; !occurs(x, b) {
			return forallX(addI(n, -1), y, b)
		}
	}
	return mkBinder(OpForall, SBool, n, x, body)
}

// linear splits t = co*x + r for an integer x (co = 0 if there is no such form).
func linear(x, t *Term) (int64, *Term) {
	if t.sort != SInt {
		return 0, nil
	}
	co, ok := toPoly(t).m[mkMono([]*Term{x})]
	if !ok || !co.IsInt64() {
		return 0, nil
	}
	r := sub(t, scale(x, co))
	if occurs(x, r) {
		return 0, nil
	}
	return co.Int64(), r
}

// fromOn splits a conjunction that holds from x = s on as long as rest does, which stays false once it is.
func fromOn(x *Term, cs []*Term) (s, rest *Term) {
	var falling func(c *Term) bool
	falling = func(c *Term) bool {
		if !occurs(x, c) {
			return true
		}
		switch c.op {
		case OpLe0:
			co, _ := linear(x, c.args[0])
			return co > 0
		case OpAnd, OpOr:
			for _, a := range c.args {
				if !falling(a) {
					return false
				}
			}
			return true
		}
		return false
	}
	var rs []*Term
	for _, c := range cs {
		if falling(c) {
			rs = append(rs, c)
			continue
		}
		if c.op != OpLe0 || s != nil {
			return nil, nil
		}
		co, r := linear(x, c.args[0])
		if co != -1 {
			return nil, nil
		}
		s = r
	}
	if s == nil {
		return nil, nil
	}
	return ite(le0(s), mkInt(0), s), and(rs...)
}

// onePoint is the t such that c says x = t, for an integer x.
func onePoint(x, c *Term) *Term {
	if c.op != OpEq0 || c.args[0].sort != SInt {
		return nil
	}
	co, ok := toPoly(c.args[0]).m[mkMono([]*Term{x})]
	if !ok || !co.IsInt64() || co.Int64() != 1 && co.Int64() != -1 {
		return nil
	}
	r := sub(c.args[0], scale(x, co))
	if occurs(x, r) {
		return nil
	}
	if co.Int64() == 1 {
		return neg(r)
	}
	return r
}

func first(n *Term, f func(*Term) *Term) *Term {
	x := fresh("k", SInt)
	return firstX(n, x, f(x))
}

func firstX(n, x, body *Term) *Term {
	if body.op == OpNot && body.args[0].op == OpForall && body.args[0].args[0] == x {
		// the first position after one with a property
		y := fresh("k", SInt)
		if b := open(body.args[0], y)[0]; !occurs(x, b) {
			f := addI(firstX(n, y, not(b)), 1)
			return ite(lt(f, n), f, n)
		}
	}
	if !occurs(x, body) {
		return ite(body, ite(le0(n), n, mkInt(0)), n)
	}
	if body.op == OpAnd {
		var in, out []*Term
		for _, a := range body.args {
			if occurs(x, a) {
				in = append(in, a)
			} else {
				out = append(out, a)
			}
		}
		if len(out) > 0 {
			return ite(and(out...), firstX(n, x, and(in...)), n)
		}
		if t, rest := fromOn(x, in); t != nil {
			return ite(and(lt(t, n), newSubst(x, t).apply(rest)), t, n)
		}
	}
	if body.op == OpOr {
		var r *Term
		for _, a := range body.args {
			f := firstX(n, x, a)
			if containsOp(f, OpFirst) {
				r = nil
				break
			}
			if r == nil {
				r = f
			} else {
				r = ite(le(r, f), r, f)
			}
		}
		if r != nil {
			return r
		}
	}
	if body.op == OpLe0 {
		if co, t := linear(x, body.args[0]); co == -1 {
			// t - x <= 0
			return ite(le0(t), ite(le0(n), n, mkInt(0)), ite(lt(t, n), t, n))
		}
	}
	if t := onePoint(x, body); t != nil {
		return ite(and(le(mkInt(0), t), lt(t, n)), t, n)
	}
	return mkBinder(OpFirst, SInt, n, x, body)
}

// ---------------------------------------------------------------- sequences

func lam(n *Term, f func(*Term) *Term) *Term {
	x := fresh("k", SInt)
	return lamX(n, x, f(x))
}
func lamX(n, x, body *Term) *Term {
	body = inBound(n, x, body)
	// eta
	if body.op == OpAt && body.args[1] == x && !occurs(x, body.args[0]) && length(body.args[0]) == n {
		return body.args[0]
	}
	if c, ok := constInt(n); ok && c <= 4 && c >= 0 {
		var es []*Term
		for i := int64(0); i < c; i++ {
			es = append(es, newSubst(x, mkInt(i)).apply(body))
		}
		return lit(es...)
	}
	// struct eta: Mk(Fld(At(s,x),0)...) handled by mkStruct eta + above
	return mkBinder(OpLam, SSeq, n, x, body)
}

var EmptySeq = mk(&Term{op: OpLit, sort: SSeq})

func lit(es ...*Term) *Term { return mk(&Term{op: OpLit, sort: SSeq, args: es}) }
func mkStr(s string) *Term {
	if s == "" {
		return EmptySeq
	}
	return mk(&Term{op: OpStr, sort: SSeq, name: s})
}

func catParts(t *Term) []*Term {
	if t.op == OpCat {
		return t.args
	}
	if t == EmptySeq {
		return nil
	}
	return []*Term{t}
}

func cat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		for _, p := range catParts(t) {
			if len(out) > 0 {
				q := out[len(out)-1]
				if q.op == OpLit && p.op == OpLit {
					out[len(out)-1] = lit(append(append([]*Term{}, q.args...), p.args...)...)
					continue
				}
				if q.op == OpStr && p.op == OpStr {
					out[len(out)-1] = mkStr(q.name + p.name)
					continue
				}
			}
			if isConst(length(p), 0) {
				continue
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return EmptySeq
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{op: OpCat, sort: SSeq, args: out})
}

func flat(n *Term, f func(*Term) *Term) *Term {
	x := fresh("k", SInt)
	return flatX(n, x, f(x))
}
func flatX(n, x, body *Term) *Term {
	body = inBound(n, x, body)
	if body == EmptySeq {
		return EmptySeq
	}
	if c, ok := constInt(n); ok && c <= 4 {
		var es []*Term
		for i := int64(0); i < c; i++ {
			es = append(es, newSubst(x, mkInt(i)).apply(body))
		}
		return cat(es...)
	}
	if isConst(length(body), 1) {
		return lamX(n, x, at(body, mkInt(0), litSort(body)))
	}
	// two kinds of pieces alternating are one piece
	if body.op == OpIte && body.args[0] == eq0(sub(x, scale(divF(x, 2), big.NewInt(2)))) {
		if m := halfOf(n); m != nil {
			y := fresh("k", SInt)
			y2 := scale(y, big.NewInt(2))
			a, b := newSubst(x, y2).apply(body.args[1]), newSubst(x, addI(y2, 1)).apply(body.args[2])
			if a.sort == SSeq && b.sort == SSeq {
				return flatX(m, y, cat(a, b))
			}
		}
	}
	return mkBinder(OpFlat, SSeq, n, x, body)
}

// halfOf is n/2 where all coefficients of n are even.
func halfOf(n *Term) *Term {
	p := polyT{map[*Term]*big.Int{}}
	for m, c := range toPoly(n).m {
		if c.Bit(0) != 0 {
			return nil
		}
		p.add(m, new(big.Int).Rsh(c, 1))
	}
	return p.term(SInt)
}

// numberList recognises the text of a list of n numbers each followed by the same separator.
func numberList(t, i *Term) (n, item *Term, sep string) {
	if t.op == OpStr && t.name == "" || t == EmptySeq {
		return mkInt(0), nil, ""
	}
	if t.op != OpFlat {
		return nil, nil, ""
	}
	b := open(t, i)[0]
	if b.op != OpCat || len(b.args) != 2 || b.args[0].op != OpApp || b.args[0].name != "itoa" || b.args[1].op != OpStr || b.args[1].name == "" || strings.ContainsAny(b.args[1].name[:1], "-0123456789") {
		return nil, nil, ""
	}
	return t.args[0], b.args[0].args[0], b.args[1].name
}

func litSort(t *Term) Sort {
	switch t.op {
	case OpLit:
		if len(t.args) > 0 {
			return t.args[0].sort
		}
	case OpCat:
		return litSort(t.args[0])
	case OpIte:
		return litSort(t.args[1])
	case OpStr:
		return SInt
	}
	return SU
}

func length(t *Term) *Term {
	if r, ok := t.ref.(*SliceRef); ok {
		return r.len
	}
	switch t.op {
	case OpLam:
		return t.args[0]
	case OpLit:
		return mkInt(int64(len(t.args)))
	case OpStr:
		return mkInt(int64(len(t.name)))
	case OpCat:
		r := mkInt(0)
		for _, a := range t.args {
			r = add(r, length(a))
		}
		return r
	case OpUpd:
		return length(t.args[0])
	case OpSub:
		return t.args[2]
	case OpFlat:
		x := fresh("k", SInt)
		return sumX(t.args[0], x, length(open(t, x)[0]))
	case OpIte:
		return ite(t.args[0], length(t.args[1]), length(t.args[2]))
	case OpApp:
		if l, ok := appLen[t.name]; ok {
			if r := l(t); r != nil {
				return r
			}
		}
		if len(keyLen) > 0 && t.name == "keyat" {
			if r := keyLen[t.args[0]]; r != nil {
				return r
			}
		}
	case OpFld, OpMGet:
		if len(valLen) > 0 {
			if path, m := fieldPath(t); m != nil && m.op == OpMGet {
				if r := valLen[shapeKey{m.args[0], path}]; r != nil {
					return r
				}
			}
		}
	}
	return mk(&Term{op: OpLen, sort: SInt, args: []*Term{t}})
}

// keyLen and valLen are lengths which all keys of a map and all values of a map have.
var keyLen = map[*Term]*Term{}
var valLen = map[shapeKey]*Term{}

// someKeys are maps known not to be empty.
// natural are terms known not to be negative.
var natural = map[*Term]bool{}
var someKeys = map[*Term]bool{}

type shapeKey struct {
	m    *Term
	path string
}

func fieldPath(t *Term) (string, *Term) {
	path := ""
	for t.op == OpFld {
		path += fmt.Sprintf(".%d", t.n)
		t = t.args[0]
	}
	return path, t
}

func isKey(m, k *Term) bool {
	return k.op == OpApp && k.name == "keyat" && k.args[0] == m
}

var appLen = map[string]func(t *Term) *Term{}

// at reads element i of s; s_ is the element sort used when the read stays symbolic.
func at(s, i *Term, es Sort) *Term {
	switch s.op {
	case OpLam:
		return open(s, i)[0]
	case OpLit:
		if c, ok := constInt(i); ok && c >= 0 && c < int64(len(s.args)) {
			return s.args[c]
		}
		if len(s.args) > 0 && len(s.args) <= 8 {
			r := s.args[len(s.args)-1]
			for k := len(s.args) - 2; k >= 0; k-- {
				r = ite(eq(i, mkInt(int64(k))), s.args[k], r)
			}
			return r
		}
	case OpStr:
		if c, ok := constInt(i); ok && c >= 0 && c < int64(len(s.name)) {
			return mkInt(int64(s.name[c]))
		}
	case OpCat:
		l0 := length(s.args[0])
		rest := cat(s.args[1:]...)
		c := lt(i, l0)
		if c == True {
			return at(s.args[0], i, es)
		}
		if c == False {
			return at(rest, sub(i, l0), es)
		}
		return ite(c, at(s.args[0], i, es), at(rest, sub(i, l0), es))
	case OpUpd:
		c := eq(s.args[1], i)
		if c == True {
			return s.args[2]
		}
		return ite(c, s.args[2], at(s.args[0], i, es))
	case OpSub:
		return at(s.args[0], add(s.args[1], i), es)
	case OpIte:
		return ite(s.args[0], at(s.args[1], i, es), at(s.args[2], i, es))
	case OpFlat:
		x := fresh("k", SInt)
		if u, ok := constInt(length(open(s, x)[0])); ok && u > 0 {
			return at(open(s, divF(i, u))[0], modF(i, u), es)
		}
	}
	return mk(&Term{op: OpAt, sort: es, args: []*Term{s, i}})
}

func subSeq(s, off, n *Term) *Term {
	if isConst(n, 0) {
		return EmptySeq
	}
	if isConst(off, 0) && length(s) == n {
		return s
	}
	switch s.op {
	case OpLit:
		o, ok1 := constInt(off)
		l, ok2 := constInt(n)
		if ok1 && ok2 && o >= 0 && l >= 0 && o+l <= int64(len(s.args)) {
			return lit(s.args[o : o+l]...)
		}
	case OpStr:
		o, ok1 := constInt(off)
		l, ok2 := constInt(n)
		if ok1 && ok2 && o >= 0 && l >= 0 && o+l <= int64(len(s.name)) {
			return mkStr(s.name[o : o+l])
		}
	case OpSub:
		return subSeq(s.args[0], add(s.args[1], off), n)
	case OpCat:
		// drop leading parts entirely before off, trailing parts beyond off+n
		parts := s.args
		o := off
		end := add(off, n)
		k := 0
		pos := mkInt(0)
		for k < len(parts) {
			l := length(parts[k])
			if le(add(pos, l), o) == True {
				pos = add(pos, l)
				k++
			} else {
				break
			}
		}
		if k > 0 {
			return subSeq(cat(parts[k:]...), sub(o, pos), n)
		}
		// keep prefix
		pos = mkInt(0)
		for j := 0; j < len(parts); j++ {
			pos = add(pos, length(parts[j]))
			if le(end, pos) == True {
				if j == 0 {
					return subSeq(parts[0], off, n)
				}
				if j+1 < len(parts) {
					return subSeq(cat(parts[:j+1]...), off, n)
				}
				break
			}
		}
		// straddling with off==0 : first part whole
		l0 := length(parts[0])
		if isConst(off, 0) && le(l0, n) == True {
			return cat(parts[0], subSeq(cat(parts[1:]...), mkInt(0), sub(n, l0)))
		}
	case OpLam:
		return lam(n, func(i *Term) *Term { return at(s, add(off, i), SU) })
	case OpFlat:
		x := fresh("k", SInt)
		lenb := length(open(s, x)[0])
		if u, ok := constInt(lenb); ok && u > 0 {
			if l, ok := constInt(n); ok && l%u == 0 {
				// aligned single elements
				j := divF(off, u)
				if scale(j, big.NewInt(u)) == off {
					var ps []*Term
					for q := int64(0); q < l/u; q++ {
						ps = append(ps, open(s, addI(j, q))[0])
					}
					return cat(ps...)
				}
			}
			j := divF(off, u)
			if scale(j, big.NewInt(u)) == off {
				m := divF(n, u)
				if scale(m, big.NewInt(u)) == n {
					return flat(m, func(i *Term) *Term { return open(s, add(j, i))[0] })
				}
			}
			if l, ok := constInt(n); ok {
				// inside one element
				j := divF(off, u)
				r, ok2 := constInt(modF(off, u))
				if ok2 && r+l <= u {
					return subSeq(open(s, j)[0], mkInt(r), n)
				}
			}
		} else if r := subFlatVar(s, off, n, x, lenb); r != nil {
			return r
		} else if !occurs(x, lenb) {
			// whole rows of the same length
			if j := exactQuo(off, lenb); j != nil {
				if n == lenb {
					return open(s, j)[0]
				}
				if m := exactQuo(n, lenb); m != nil {
					return flat(m, func(i *Term) *Term { return open(s, add(j, i))[0] })
				}
			}
		}
	case OpIte:
		return ite(s.args[0], subSeq(s.args[1], off, n), subSeq(s.args[2], off, n))
	}
	return mk(&Term{op: OpSub, sort: SSeq, args: []*Term{s, off, n}})
}

// Flat(n,e)[ Sum_{k<j} len e(k) : len e(j) ] = e(j)
func subFlatVar(s, off, n, x, lenb *Term) *Term {
	if isConst(off, 0) {
		j := mkInt(0)
		if newSubst(x, j).apply(lenb) == n {
			return open(s, j)[0]
		}
		return nil
	}
	// candidate j: bounds of Sum atoms in off
	var res *Term
	for _, m := range toPolyMonos(off) {
		for _, a := range m.args {
			if a.op == OpSum && res == nil {
				j := a.args[0]
				if sumX(j, x, lenb) == off && newSubst(x, j).apply(lenb) == n {
					res = open(s, j)[0]
				}
			}
		}
	}
	return res
}

func toPolyMonos(t *Term) []*Term {
	var r []*Term
	for m := range toPoly(t).m {
		r = append(r, m)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func upd(s, i, v *Term) *Term {
	if s.op == OpLit {
		if c, ok := constInt(i); ok && c >= 0 && c < int64(len(s.args)) {
			es := append([]*Term{}, s.args...)
			es[c] = v
			return lit(es...)
		}
	}
	if s.op == OpUpd && s.args[1] == i {
		return upd(s.args[0], i, v)
	}
	if at(s, i, v.sort) == v {
		return s
	}
	return mk(&Term{op: OpUpd, sort: SSeq, args: []*Term{s, i, v}})
}

// ---------------------------------------------------------------- structs

func mkStruct(name string, fs ...*Term) *Term {
	// eta
	if len(fs) > 0 && fs[0].op == OpFld && fs[0].n == 0 {
		b := fs[0].args[0]
		ok := true
		for i, f := range fs {
			if f.op != OpFld || f.n != i || f.args[0] != b {
				ok = false
				break
			}
		}
		if ok && b.sort == SStruct {
			if b.op != OpMk {
				if nf, known := structArity[name]; !known || nf == len(fs) {
					return b
				}
			}
		}
	}
	return mk(&Term{op: OpMk, sort: SStruct, name: "", args: fs})
}

var structArity = map[string]int{}

func fld(t *Term, i int, s Sort) *Term {
	switch t.op {
	case OpMk:
		return t.args[i]
	case OpIte:
		return ite(t.args[0], fld(t.args[1], i, s), fld(t.args[2], i, s))
	}
	return mk(&Term{op: OpFld, sort: s, args: []*Term{t}, n: i})
}

// ---------------------------------------------------------------- maps

var EmptyMap = mk(&Term{op: OpMEmpty, sort: SMap})

func mupd(m, k, v *Term) *Term {
	if m.op == OpMUpd && m.args[1] == k {
		return mupd(m.args[0], k, v)
	}
	return mk(&Term{op: OpMUpd, sort: SMap, args: []*Term{m, k, v}})
}
func mdel(m, k *Term) *Term { return mk(&Term{op: OpMDel, sort: SMap, args: []*Term{m, k}}) }
func mlam(ks Sort, f func(k *Term) (has, val *Term)) *Term {
	x := fresh("q", ks)
	h, v := f(x)
	// eta
	if h.op == OpMHas && h.args[1] == x {
		su := newSubst()
		collect(v, func(t *Term) bool {
			if t.op == OpApp && t.name == "keyat" && t.args[0] == h.args[0] {
				if i := t.args[2]; i.op == OpApp && i.name == "kidx" && i.args[0] == t.args[0] && i.args[1] == t.args[1] && i.args[2] == x {
					su.m[t] = x
				}
			}
			return true
		})
		if len(su.m) > 0 {
			v = su.apply(v)
		}
	}
	if h.op == OpMHas && h.args[1] == x && v.op == OpMGet && v.args[1] == x && h.args[0] == v.args[0] && !occurs(x, h.args[0]) {
		return h.args[0]
	}
	return mlamX(x, h, v)
}

func mlamX(x, h, v *Term) *Term {
	if h.op != OpBool && occurs(h, v) {
		v = condSubst(h, true).apply(v)
	}
	if h.op == OpMHas && h.args[1] == x && v.op == OpMGet && v.args[1] == x && h.args[0] == v.args[0] && !occurs(x, h.args[0]) {
		return h.args[0]
	}
	return mkBinder(OpMLam, SMap, nil, x, h, v)
}

// dom(m) has the keys of m; the same term for maps that visibly have the same keys.
func dom(m *Term) *Term {
	switch m.op {
	case OpIte:
		a, b := dom(m.args[1]), dom(m.args[2])
		if a == b {
			return a
		}
		return ite(m.args[0], a, b)
	case OpMUpd:
		if mhas(m.args[0], m.args[1]) == True {
			return dom(m.args[0])
		}
		return mupd(dom(m.args[0]), m.args[1], mkInt(0))
	case OpMLam:
		x := fresh("q", m.bsrt)
		h := open(m, x)[0]
		if h == False {
			return EmptyMap
		}
		if h.op == OpMHas && h.args[1] == x && !occurs(x, h.args[0]) {
			return dom(h.args[0])
		}
		if h.op == OpIte && !occurs(x, h.args[0]) {
			a, b := mkBinder(OpMLam, SMap, nil, x, h.args[1], mkInt(0)), mkBinder(OpMLam, SMap, nil, x, h.args[2], mkInt(0))
			return ite(h.args[0], dom(a), dom(b))
		}
		return mkBinder(OpMLam, SMap, nil, x, h, mkInt(0))
	}
	return m
}

func init() {
	appRules["maplen"] = func(s Sort, a []*Term) *Term {
		d := dom(a[0])
		switch d.op {
		case OpMEmpty:
			return mkInt(0)
		case OpIte:
			return ite(d.args[0], app("maplen", SInt, d.args[1]), app("maplen", SInt, d.args[2]))
		case OpMUpd:
			if mhas(d.args[0], d.args[1]) == False {
				return addI(app("maplen", SInt, d.args[0]), 1)
			}
		}
		if d != a[0] {
			return app("maplen", SInt, d)
		}
		return nil
	}
	appRules["kidx"] = func(s Sort, a []*Term) *Term {
		if d := dom(a[0]); d != a[0] {
			return app("kidx", s, d, a[1], a[2])
		}
		return nil
	}
	appRules["keyat"] = func(s Sort, a []*Term) *Term {
		if d := dom(a[0]); d != a[0] {
			return app("keyat", s, d, a[1], a[2])
		}
		if d := a[0]; d.op == OpMUpd && d.args[0] == EmptyMap {
			return d.args[1]
		}
		if i := a[2]; i.op == OpApp && i.name == "kidx" && i.args[0] == a[0] && i.args[1] == a[1] {
			if q := i.args[2]; q.op == OpApp && q.name == "keyat" && q.args[0] == a[0] || mhas(a[0], q) == True {
				return q
			}
		}
		return nil
	}
}

// mapOrder: a statement about all (or some) keys of a map does not depend on the order they are visited in.
func mapOrder(n, x, body *Term) *Term {
	if n.op != OpApp || n.name != "maplen" {
		return body
	}
	d := dom(n.args[0])
	su := newSubst()
	collect(body, func(t *Term) bool {
		if t.op == OpApp && t.name == "kidx" && t.args[0] == d {
			if q := t.args[2]; q.op == OpApp && q.name == "keyat" && q.args[0] == d && q.args[1] == t.args[1] && q.args[2] == x {
				su.m[t] = x
			}
		}
		return true
	})
	if len(su.m) > 0 {
		body = su.apply(body)
		su = newSubst()
	}
	only := true
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !occurs(x, t) {
			return
		}
		seen[t] = true
		if t == x {
			only = false
			return
		}
		if t.op == OpApp && t.name == "keyat" && t.args[2] == x && t.args[0] == d {
			if o := t.args[1]; o != mkInt(0) {
				su.m[t] = app("keyat", t.sort, d, mkInt(0), x)
				if occurs(x, o) {
					only = false
				}
			}
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		if t.ref != nil {
			only = false
		}
	}
	rec(body)
	if !only || len(su.m) == 0 {
		return body
	}
	// two orders in one statement are related only when one of them occurs
	ords := map[*Term]bool{}
	for t := range su.m {
		ords[t.args[1]] = true
	}
	if len(ords) > 1 {
		return body
	}
	two := false
	collect(body, func(t *Term) bool {
		if t.op == OpApp && t.name == "keyat" && t.args[0] == d && t.args[2] == x && t.args[1] == mkInt(0) {
			two = true
		}
		return true
	})
	if two {
		return body
	}
	return su.apply(body)
}

func mhas(m, k *Term) *Term {
	switch m.op {
	case OpMEmpty:
		return False
	case OpMUpd:
		return or(eq(m.args[1], k), mhas(m.args[0], k))
	case OpMDel:
		return and(not(eq(m.args[1], k)), mhas(m.args[0], k))
	case OpMLam:
		return open(m, k)[0]
	case OpIte:
		return ite(m.args[0], mhas(m.args[1], k), mhas(m.args[2], k))
	}
	if k.op == OpApp && k.name == "keyat" && k.args[0] == m {
		// at positions outside the map keyat is some key of the map, if there is one
		return lt(mkInt(0), app("maplen", SInt, m))
	}
	return mk(&Term{op: OpMHas, sort: SBool, args: []*Term{m, k}})
}
func mget(m, k *Term, s Sort) *Term {
	switch m.op {
	case OpMUpd:
		return ite(eq(m.args[1], k), m.args[2], mget(m.args[0], k, s))
	case OpMDel:
		return mget(m.args[0], k, s)
	case OpMLam:
		return open(m, k)[1]
	case OpIte:
		return ite(m.args[0], mget(m.args[1], k, s), mget(m.args[2], k, s))
	}
	return mk(&Term{op: OpMGet, sort: s, args: []*Term{m, k}})
}

// ---------------------------------------------------------------- applications

var appRules = map[string]func(s Sort, a []*Term) *Term{}

func app(name string, s Sort, a ...*Term) *Term {
	if r, ok := appRules[name]; ok {
		if t := r(s, a); t != nil {
			return t
		}
	}
	return mk(&Term{op: OpApp, sort: s, name: name, args: a})
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 9 {
		return "..."
	}
	l := func(sep string) string {
		var s []string
		for _, a := range t.args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, sep)
	}
	switch t.op {
	case OpVar:
		return t.name
	case OpBV:
		return "%" + t.name
	case OpMono:
		if len(t.args) == 0 {
			return "1"
		}
		return l("*")
	case OpPoly:
		if len(t.args) == 0 {
			return "0"
		}
		var s []string
		for i, m := range t.args {
			if m == one {
				s = append(s, t.co[i].String())
			} else if t.co[i].Cmp(big.NewInt(1)) == 0 {
				s = append(s, m.str(d))
			} else {
				s = append(s, t.co[i].String()+"*"+m.str(d))
			}
		}
		r := strings.Join(s, "+")
		if len(s) > 1 {
			r = "(" + r + ")"
		}
		return r
	case OpBool:
		if t.n == 1 {
			return "true"
		}
		return "false"
	case OpNot:
		return "!" + l("")
	case OpAnd:
		return "(" + l(" && ") + ")"
	case OpOr:
		return "(" + l(" || ") + ")"
	case OpLe0:
		return l("") + "<=0"
	case OpEq0:
		return l("") + "==0"
	case OpEq:
		return l("==")
	case OpIte:
		return "ite(" + l(", ") + ")"
	case OpDiv:
		return fmt.Sprintf("(%s/%d)", l(""), t.n)
	case OpSum, OpForall, OpLam, OpFlat, OpFirst, OpMLam, OpFnLam:
		nm := map[Op]string{OpSum: "sum", OpForall: "forall", OpLam: "lam", OpFlat: "flat", OpFirst: "first", OpMLam: "mlam", OpFnLam: "fn"}[t.op]
		return fmt.Sprintf("%s[%%%d](%s)", nm, t.n, l("; "))
	case OpCat:
		return l(" ++ ")
	case OpLit:
		return "[" + l(",") + "]"
	case OpStr:
		return fmt.Sprintf("%q", t.name)
	case OpSub:
		return "sub(" + l(",") + ")"
	case OpUpd:
		return "upd(" + l(",") + ")"
	case OpAt:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case OpLen:
		return "len(" + l("") + ")"
	case OpMk:
		return "{" + l(",") + "}"
	case OpFld:
		return fmt.Sprintf("%s.%d", l(""), t.n)
	case OpApp:
		return t.name + "(" + l(",") + ")"
	case OpMEmpty:
		return "map{}"
	case OpMUpd:
		return "mupd(" + l(",") + ")"
	case OpMDel:
		return "mdel(" + l(",") + ")"
	case OpMHas:
		return "has(" + l(",") + ")"
	case OpMGet:
		return "get(" + l(",") + ")"
	case OpPtr:
		return t.ref.(interface{ Key() string }).Key()
	}
	return fmt.Sprintf("op%d(%s)", t.op, l(","))
}
