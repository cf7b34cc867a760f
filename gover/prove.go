package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

func sortSlice(ts []*Term, less func(a, b *Term) bool) {
	sort.Slice(ts, func(i, j int) bool { return less(ts[i], ts[j]) })
}

type provRes struct {
	ok      bool
	backend string
	detail  string
	ms      float64
}

var solver *SMT
var solver2 *SMT
var smtStats = map[string]int{}
var quickMemo = map[string]bool{}
var proveMs = 4000
var nd int

var smtTime = map[string]time.Duration{}

// answers of the solver, by the formulas it was given
var answers = map[string]string{}

func answerKey(h []*Term, goal *Term, ms int) string {
	b := make([]byte, 0, 8*len(h)+16)
	b = strconv.AppendInt(b, int64(ms), 10)
	b = append(b, '|')
	b = strconv.AppendInt(b, int64(goal.id), 10)
	for _, t := range h {
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(t.id), 10)
	}
	return string(b)
}

func smtCheck(h []*Term, goal *Term, ms int) string {
	if solver == nil {
		var err error
		solver, err = startSMT("z3-new", "-in")
		if err != nil {
			solver, err = startSMT("z3", "-in")
			if err != nil {
				panic(err)
			}
		}
	}
	h = relevant(h, goal)
	key := answerKey(h, goal, ms)
	if r, ok := answers[key]; ok {
		smtStats["again"]++
		return r
	}
	e := newEnc(false)
	sc := e.script(h, goal, ms)
	t0 := time.Now()
	r, err := "", error(nil)
	if ms <= 1000 {
		r, err = solver.light(sc)
	} else {
		r, err = solver.check(sc)
	}
	if err == nil {
		answers[key] = r
	}
	if os.Getenv("GOVER_CALLERS") != "" {
		c := ""
		for i := 2; i < 6; i++ {
			_, f, l, _ := runtime.Caller(i)
			c += fmt.Sprintf(" %s:%d", filepath.Base(f), l)
		}
		smtTime[r+c] += time.Since(t0)
		smtStats[r+c]++
	}
	smtTime[r+strconv.Itoa(ms)] += time.Since(t0)
	smtStats[r+strconv.Itoa(ms)]++
	if d := os.Getenv("GOVER_DUMP"); d != "" {
		nd++
		if nd%100 == 0 {
			os.WriteFile(fmt.Sprintf("%s/%s%d.smt2", d, r, nd), []byte(fmt.Sprintf("; %v\n", time.Since(t0))+sc+"(check-sat)\n"), 0o644)
		}
	}
	if d := os.Getenv("GOVER_SLOW"); d != "" && time.Since(t0) > 300*time.Millisecond {
		fmt.Fprintf(os.Stderr, "SLOW %s %v %s\n", r, time.Since(t0), clip(goal.String(), 300))
		os.WriteFile(fmt.Sprintf("%s/%d.smt2", d, smtStats[r+strconv.Itoa(ms)]), []byte(sc), 0o644)
	}
	if err != nil && debug {
		fmt.Println("smt:", err)
	}
	smtStats[r]++
	return r
}

func smtCheckNL(h []*Term, goal *Term, ms int) string {
	e := newEnc(true)
	sc := e.script(relevant(h, goal), goal, ms)
	r, _ := solver.check(sc)
	smtStats["nl-"+r]++
	return r
}

// relevant drops hypotheses that share no symbol with the goal (transitively).
func relevant(h []*Term, goal *Term) []*Term {
	if goal == nil || len(h) < 12 {
		return h
	}
	syms := func(t *Term) map[*Term]bool {
		m := map[*Term]bool{}
		collect(t, func(u *Term) bool {
			if u.op == OpVar && u != BasePt {
				m[u] = true
			}
			return true
		})
		return m
	}
	hs := make([]map[*Term]bool, len(h))
	for i := range h {
		hs[i] = syms(h[i])
	}
	cur := syms(goal)
	used := make([]bool, len(h))
	for changed := true; changed; {
		changed = false
		for i := range h {
			if used[i] {
				continue
			}
			hit := len(hs[i]) == 0
			for s := range hs[i] {
				if cur[s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for s := range hs[i] {
					cur[s] = true
				}
			}
		}
	}
	var out []*Term
	for i := range h {
		if used[i] {
			out = append(out, h[i])
		}
	}
	return out
}

// quick decides a condition with a small budget; results are cached.
func (ex *Exec) quick(h []*Term, c *Term) bool {
	if c == True {
		return true
	}
	key := fmt.Sprintf("%d|", c.id)
	for _, t := range h {
		key += fmt.Sprintf("%d,", t.id)
	}
	if r, ok := quickMemo[key]; ok {
		return r
	}
	r := smtCheck(h, c, 500) == "unsat"
	quickMemo[key] = r
	return r
}

func (ex *Exec) prove(h []*Term, goal *Term) provRes {
	r := ex.prove1(h, goal)
	for i := len(ex.named) - 1; i >= 0 && !r.ok; i-- {
		su := newSubst(ex.named[i][0], ex.named[i][1])
		hit := occurs(ex.named[i][0], goal)
		nh := make([]*Term, len(h))
		for j, x := range h {
			nh[j] = su.apply(x)
			hit = hit || nh[j] != x
		}
		if h, goal = nh, su.apply(goal); hit {
			ms := r.ms
			r = ex.prove1(h, goal)
			r.ms += ms
		}
	}
	return r
}

func (ex *Exec) prove1(h []*Term, goal *Term) provRes {
	t0 := time.Now()
	if goal == True {
		return provRes{ok: true, backend: "simplifier"}
	}
	p := &prover{ex: ex, deadline: t0.Add(time.Duration(proveMs*5) * time.Millisecond)}
	h, goal = p.unrollLast(h, goal)
	ok := p.cases(h, goal, 0)
	r := provRes{ok: ok, backend: "simplifier", ms: float64(time.Since(t0).Microseconds()) / 1000}
	if p.smt > 0 {
		r.backend = "z3"
	}
	if !ok {
		r.detail = p.detail
	}
	return r
}

// positions replaces the position of the key at position i by i.
func (p *prover) positions(h []*Term, g *Term) ([]*Term, *Term) {
	if su := p.positionSubst(h, g); su != nil {
		return h, su.apply(g)
	}
	return h, g
}

func (p *prover) positionSubst(h []*Term, ts ...*Term) *subst {
	su := newSubst()
	seen := map[*Term]bool{}
	scan := func(t *Term) bool {
		if t.op == OpApp && t.name == "kidx" && !seen[t] {
			seen[t] = true
			if q := t.args[2]; q.op == OpApp && q.name == "keyat" && q.args[0] == t.args[0] && q.args[1] == t.args[1] && !hasBV(t) {
				if i := q.args[2]; p.ex.quick(h, and(le(mkInt(0), i), lt(i, app("maplen", SInt, t.args[0])))) {
					su.m[t] = i
				}
			}
		}
		if t.op == OpAt && t.args[0].op == OpFlat && !seen[t] && !hasBV(t) {
			seen[t] = true
			if r := p.flatElem(h, t); r != nil {
				su.m[t] = r
			}
		}
		return true
	}
	for _, t := range ts {
		collect(t, scan)
	}
	if len(su.m) == 0 {
		return nil
	}
	return su
}

// flatElem finds the piece of a flattened list of lists that an element is in, where the index is a sum of the lengths
// of the pieces before it and an offset.
func (p *prover) flatElem(h []*Term, t *Term) *Term {
	fl, idx := t.args[0], t.args[1]
	x := fresh("k", SInt)
	lenb := length(open(fl, x)[0])
	tried := map[*Term]bool{}
	var res *Term
	collect(idx, func(u *Term) bool {
		if u.op != OpSum || res != nil || tried[u.args[0]] {
			return true
		}
		j := u.args[0]
		tried[j] = true
		r := sub(idx, sumX(j, x, lenb))
		lj := newSubst(x, j).apply(lenb)
		if p.ex.quick(h, and(and(le(mkInt(0), j), lt(j, fl.args[0])), and(le(mkInt(0), r), lt(r, lj)))) {
			res = at(open(fl, j)[0], r, t.sort)
		}
		return true
	})
	return res
}

// keys adds what the hypotheses about all keys of a map say about the keys it is known to have.
func (p *prover) keys(h []*Term) []*Term {
	seen := map[*Term]bool{}
	for _, x := range h {
		seen[x] = true
	}
	n := len(h)
	for _, x := range h[:n] {
		if x.op != OpMHas {
			continue
		}
		for _, f := range h[:n] {
			if f.op != OpForall {
				continue
			}
			if b := keyInstance(f, x.args[0], x.args[1]); b != nil && b != True && !seen[b] {
				seen[b] = true
				h = append(h[:len(h):len(h)], b)
			}
		}
	}
	return h
}

// unrollLast splits a statement about all indices below n+1 where the same statement about all indices below n
// occurs as well.
func (p *prover) unrollLast(h []*Term, g *Term) ([]*Term, *Term) {
	all := map[*Term]bool{}
	scan := func(t *Term) {
		collect(t, func(u *Term) bool {
			if u.op == OpForall || u.op == OpFirst {
				all[u] = true
			}
			return true
		})
	}
	for _, x := range h {
		scan(x)
	}
	scan(g)
	su := newSubst()
	var fs []*Term
	for f := range all {
		fs = append(fs, f)
	}
	sortTerms(fs)
	for _, f := range fs {
		if f.args[0].op != OpPoly {
			continue
		}
		m := addI(f.args[0], -1)
		for _, o := range fs {
			if o != f && o.op == f.op && o.args[0] == m && o.args[1] == f.args[1] && o.n == f.n && o.bsrt == f.bsrt && p.ex.quick(h, le(mkInt(0), m)) {
				if f.op == OpFirst {
					x := fresh("k", SInt)
					none := forallX(m, x, not(open(f, x)[0]))
					su.m[f] = ite(not(none), o, ite(open(f, m)[0], m, f.args[0]))
					continue
				}
				su.m[f] = and(o, open(f, m)[0])
			}
		}
	}
	if len(su.m) == 0 {
		return h, g
	}
	nh := make([]*Term, len(h))
	for i, x := range h {
		nh[i] = su.apply(x)
	}
	return nh, su.apply(g)
}

type prover struct {
	ex       *Exec
	deadline time.Time
	smt      int
	detail   string
	splits   int
}

func (p *prover) fail(format string, a ...interface{}) bool {
	if p.detail == "" {
		p.detail = clip(fmt.Sprintf(format, a...), 2500)
	}
	return false
}

func (p *prover) check(h []*Term, g *Term) bool {
	if g == True {
		return true
	}
	for _, x := range h {
		if x == g {
			return true
		}
	}
	p.smt++
	r := smtCheck(h, g, proveMs)
	if r == "unsat" {
		return true
	}
	if r == "unknown" || r == "sat" {
		if hasNL(g) || anyNL(h) {
			p.smt++
			if smtCheckNL(h, g, proveMs) == "unsat" {
				return true
			}
		}
	}
	if os.Getenv("GOVER_HYPS") != "" {
		fmt.Println("  solver", r, clip(g.String(), 600))
		for _, x := range h {
			fmt.Println("     h:", clip(x.String(), 600))
		}
	}
	return p.fail("solver: %s on %s", r, g)
}

func hasNL(t *Term) bool {
	f := false
	collect(t, func(u *Term) bool {
		if u.op == OpMono && len(u.args) > 1 {
			all := true
			for _, a := range u.args {
				if a.sort != SInt {
					all = false
				}
			}
			if all {
				f = true
			}
		}
		return !f
	})
	return f
}
func anyNL(h []*Term) bool {
	for _, t := range h {
		if hasNL(t) {
			return true
		}
	}
	return false
}

func (p *prover) quick(h []*Term, c *Term) int {
	if c == True {
		return 1
	}
	if c == False {
		return -1
	}
	if p.ex.quick(h, c) {
		p.smt++
		return 1
	}
	if p.ex.quick(h, not(c)) {
		p.smt++
		return -1
	}
	return 0
}

func structural(t *Term) bool {
	switch t.op {
	case OpForall, OpAnd, OpEq:
		return true
	case OpEq0:
		return t.args[0].sort != SInt || containsOp(t, OpSum) || containsOp(t, OpIte)
	case OpNot:
		return t.args[0].op == OpForall
	}
	return false
}

func containsOp(t *Term, op Op) bool {
	f := false
	collect(t, func(u *Term) bool {
		if u.op == op {
			f = true
		}
		return !f
	})
	return f
}

// hasForall: some hypothesis is, or has as a conjunct, a statement about all indices below n.
func (p *prover) hasForall(h []*Term, n *Term) bool {
	for _, x := range h {
		if x.op == OpForall && x.args[0] == n {
			return true
		}
		if x.op == OpAnd {
			for _, a := range x.args {
				if a.op == OpForall && a.args[0] == n {
					return true
				}
			}
		}
	}
	return false
}

func (p *prover) goal(h []*Term, g *Term, d int) bool {
	if g == True {
		return true
	}
	if time.Now().After(p.deadline) || d > 40 {
		return p.fail("proof search budget exhausted")
	}
	for _, x := range h {
		if x == g {
			return true
		}
		if x == False {
			return true
		}
	}
	switch g.op {
	case OpAnd:
		for _, a := range g.args {
			if !p.goal(h, a, d+1) {
				return false
			}
		}
		return true
	case OpOr:
		// look for a structural disjunct to focus on
		var foc *Term
		for _, a := range g.args {
			if structural(a) && (foc == nil || rank(a) > rank(foc)) {
				foc = a
			}
		}
		if foc != nil {
			nh := append([]*Term{}, h...)
			for _, a := range g.args {
				if a != foc {
					n := not(a)
					if n.op == OpAnd {
						nh = append(nh, n.args...)
					} else {
						nh = append(nh, n)
					}
				}
			}
			// try solver first: cheap when purely propositional
			if p.ex.quick(h, g) {
				p.smt++
				return true
			}
			return p.cases(nh, foc, d+1)
		}
	case OpForall:
		if p.ex.quick(h, g) {
			p.smt++
			return true
		}
		k := fresh("i", SInt)
		if m := addI(g.args[0], -1); g.args[0].op == OpPoly && p.hasForall(h, m) && p.ex.quick(h, le(mkInt(0), m)) {
			return p.cases(h, open(g, m)[0], d+1) && p.goal(h, forallX(m, k, open(g, k)[0]), d+1)
		}
		nh := append(append([]*Term{}, h...), le(mkInt(0), k), lt(k, g.args[0]))
		return p.goal(nh, open(g, k)[0], d+1)
	case OpEq:
		return p.eq(h, g.args[0], g.args[1], d+1)
	case OpEq0:
		if g.args[0].sort != SInt || structural(g) {
			return p.eq(h, g.args[0], zero(g.args[0].sort), d+1)
		}
	case OpIte:
	}
	if g.sort == SBool && g.op != OpLe0 && g.op != OpEq0 {
		// propositional split on ite inside atoms
		if c := findIte(g); c != nil {
			if p.check2(h, g) {
				return true
			}
			return p.split(h, c, d, func(h []*Term, s *subst) bool { return p.goal(h, s.apply(g), d+1) })
		}
		if g.op == OpApp || g.op == OpMHas {
			if p.check2(h, g) {
				return true
			}
			// an equal application among the hypotheses
			for _, x := range h {
				if x.op == g.op && x.name == g.name && len(x.args) == len(g.args) {
					ok := true
					sv := p.detail
					for i := range x.args {
						if !p.eq(h, x.args[i], g.args[i], d+1) {
							ok = false
							break
						}
					}
					p.detail = sv
					if ok {
						return true
					}
				}
			}
		}
	}
	return p.check(h, g)
}

// cases proves g, splitting on a disjunction among the hypotheses where needed.
func (p *prover) cases(h []*Term, g *Term, d int) bool {
	h, g = propagate(h, g)
	h, g = everywhere(h, g)
	h, g = p.positions(h, g)
	h = p.keys(h)
	if g == True {
		return true
	}
	if os.Getenv("GOVER_CASES") != "" {
		fmt.Fprintf(os.Stderr, "CASES d=%d splits=%d goal %s\n", d, p.splits, clip(g.String(), 300))
		for _, x := range h {
			fmt.Fprintf(os.Stderr, "   c: %s\n", clip(x.String(), 900))
		}
	}
	if p.goal(h, g, d+1) {
		return true
	}
	if !containsSort(g) {
		return false
	}
	if p.splits < 60 {
		if nh, ok := p.decide(h); ok {
			return p.cases(nh, g, d+1)
		}
	}
	for i, x := range h {
		if x.op != OpOr || len(x.args) > 6 || containsOp(x, OpForall) {
			continue
		}
		p.splits += len(x.args)
		if p.splits > 60 {
			return false
		}
		for _, a := range x.args {
			nh := append([]*Term{}, h[:i]...)
			nh = append(nh, h[i+1:]...)
			nh = append(nh, a)
			if !p.cases(nh, g, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// decide looks for an integer literal in a disjunctive hypothesis that the other hypotheses settle.
func (p *prover) decide(h []*Term) ([]*Term, bool) {
	var base []*Term
	for _, x := range h {
		if x.op != OpOr && !containsOp(x, OpForall) {
			base = append(base, x)
		}
	}
	tried := 0
	seen := map[*Term]bool{}
	for _, x := range h {
		if x.op != OpOr || containsOp(x, OpForall) {
			continue
		}
		var lits []*Term
		var walk func(t *Term)
		walk = func(t *Term) {
			switch t.op {
			case OpAnd, OpOr, OpNot:
				for _, a := range t.args {
					walk(a)
				}
			case OpEq0, OpLe0:
				if t.args[0].sort == SInt && !seen[t] {
					seen[t] = true
					lits = append(lits, t)
				}
			}
		}
		walk(x)
		for _, l := range lits {
			if tried++; tried > 24 {
				return nil, false
			}
			var s *subst
			var fact *Term
			if p.ex.quick(base, l) {
				s, fact = condSubst(l, true), l
			} else if p.ex.quick(base, not(l)) {
				s, fact = condSubst(l, false), not(l)
			} else {
				continue
			}
			var nh []*Term
			for _, y := range h {
				if y.op == OpOr {
					y = s.apply(y)
				}
				nh = append(nh, y)
			}
			p.splits++
			return append(nh, fact), true
		}
	}
	return nil, false
}

// containsSort tells whether g speaks about group elements or sequences, which the solver treats as opaque.
func containsSort(g *Term) bool {
	f := false
	collect(g, func(u *Term) bool {
		if u.sort == SPt || u.sort == SSc || u.sort == SSeq {
			f = true
		}
		return !f
	})
	return f
}

// divide removes one factor f (a single atom) from every monomial of q, or gives nil.
func divide(q, f *Term) *Term {
	fp := toPoly(f)
	if len(fp.m) != 1 {
		return nil
	}
	var at *Term
	for m := range fp.m {
		if len(m.args) != 1 {
			return nil
		}
		at = m.args[0]
	}
	r := polyT{map[*Term]*big.Int{}}
	for m, c := range toPoly(q).m {
		var rest []*Term
		hit := false
		for _, a := range m.args {
			if a == at && !hit {
				hit = true
				continue
			}
			rest = append(rest, a)
		}
		if !hit {
			return nil
		}
		r.add(mkMono(rest), c)
	}
	return r.term(q.sort)
}

// definition solves q == 0 for a variable.
func definition(q *Term) *subst {
	tp := toPoly(q)
	var best *Term
	var bc *big.Int
	for m, c := range tp.m {
		if len(m.args) != 1 || new(big.Int).Abs(c).Cmp(big.NewInt(1)) != 0 {
			continue
		}
		at := m.args[0]
		if q.sort == SInt && at.op != OpVar {
			continue
		}
		if at.op != OpVar && at.op != OpFld && !(at.op == OpApp && strings.HasPrefix(at.name, "wit:")) || at == BasePt || at.sort != q.sort {
			continue
		}
		rest := polyT{map[*Term]*big.Int{}}
		for m2, c2 := range tp.m {
			if m2 != m {
				rest.add(m2, c2)
			}
		}
		if occurs(at, rest.term(q.sort)) {
			continue
		}
		if best == nil || at.id > best.id {
			best, bc = at, c
		}
	}
	if best == nil {
		return nil
	}
	rest := polyT{map[*Term]*big.Int{}}
	for m2, c2 := range tp.m {
		if len(m2.args) != 1 || m2.args[0] != best {
			rest.add(m2, c2)
		}
	}
	r := rest.term(q.sort)
	if bc.Sign() > 0 {
		r = neg(r)
	}
	return newSubst(best, r)
}

// propagate replaces literals among the hypotheses by their truth value in the others and in the goal.
func propagate(h []*Term, g *Term) ([]*Term, *Term) {
	done := map[*Term]bool{}
	for round := 0; round < 50; round++ {
		var flat []*Term
		seen := map[*Term]bool{}
		var addT func(x *Term)
		addT = func(x *Term) {
			if x.op == OpAnd {
				for _, a := range x.args {
					addT(a)
				}
				return
			}
			if x != True && !seen[x] {
				seen[x] = true
				flat = append(flat, x)
			}
		}
		for _, x := range h {
			addT(x)
		}
		h = flat
		var lit *Term
		var def *subst
		var defOf *Term
		for _, x := range h {
			if x == False {
				return h, True
			}
			if def == nil && x.op == OpEq0 && !done[x] {
				if def = definition(x.args[0]); def != nil {
					defOf = x
				}
			}
			y := x
			if y.op == OpNot {
				y = y.args[0]
			}
			if !done[x] && (y.op == OpVar || y.op == OpApp || y.op == OpMHas || y.op == OpEq0 && y.args[0].sort != SInt || y.op == OpFld || y.op == OpAt) {
				lit = x
				break
			}
		}
		// in a field, a common factor other than zero can be dropped
		for i, x := range h {
			if x.op != OpEq0 || x.args[0].sort == SInt {
				continue
			}
			for _, y := range h {
				if y.op == OpNot && y.args[0].op == OpEq0 && y.args[0].args[0].sort == SSc {
					if q := divide(x.args[0], y.args[0].args[0]); q != nil {
						h[i] = eq0(q)
						def = nil
						break
					}
				}
			}
		}
		if def != nil {
			done[defOf] = true
			for i := range h {
				// an equation about an element stays: the element may turn out to be another one
				if h[i] != defOf || defOf.args[0].sort == SInt {
					h[i] = def.apply(h[i])
				}
			}
			g = def.apply(g)
			continue
		}
		if lit == nil {
			return h, g
		}
		done[lit] = true
		var s *subst
		if lit.op == OpNot {
			s = condSubst(lit.args[0], false)
		} else {
			s = condSubst(lit, true)
		}
		nh := make([]*Term, len(h))
		for i, x := range h {
			nh[i] = x
			if x != lit {
				nh[i] = s.apply(x)
			}
		}
		h = nh
		if true {
			g = s.apply(g)
		}
	}
	return h, g
}

// everywhere uses universal hypotheses inside the binders, of the other hypotheses and the goal, with the same bound.
func everywhere(h []*Term, g *Term) ([]*Term, *Term) {
	s := newSubst()
	for _, x := range h {
		if x.op != OpForall {
			continue
		}
		if _, ok := constInt(x.args[0]); ok {
			continue
		}
		if s.univ == nil {
			s.univ = map[*Term][]*Term{}
		}
		s.univ[x.args[0]] = append(s.univ[x.args[0]], x)
		s.m[x], s.m[not(x)] = True, False
	}
	if s.univ == nil {
		return h, g
	}
	nh := make([]*Term, len(h))
	hit := false
	for i, x := range h {
		nh[i] = x
		if x.op != OpForall && containsOp(x, OpIte) {
			nh[i] = s.apply(x)
			hit = hit || nh[i] != x
		}
	}
	ng := s.apply(g)
	if hit || ng != g {
		return propagate(nh, ng)
	}
	return h, g
}

func (p *prover) check2(h []*Term, g *Term) bool {
	if p.ex.quick(h, g) {
		p.smt++
		return true
	}
	return false
}

func rank(t *Term) int {
	switch t.op {
	case OpForall:
		return 3
	case OpAnd:
		return 2
	}
	return 1
}

// split decides or case-splits on c and continues with c replaced.
func (p *prover) split(h []*Term, c *Term, d int, k func(h []*Term, s *subst) bool) bool {
	switch p.quick(h, c) {
	case 1:
		return k(h, condSubst(c, true))
	case -1:
		return k(h, condSubst(c, false))
	}
	p.splits++
	if p.splits > 400 {
		return p.fail("too many case splits")
	}
	for _, v := range []bool{true, false} {
		s := condSubst(c, v)
		nh := make([]*Term, 0, len(h)+1)
		for _, x := range h {
			if x = s.apply(x); x != True {
				nh = append(nh, x)
			}
		}
		if v {
			nh = append(nh, c)
		} else {
			nh = append(nh, not(c))
		}
		if !k(nh, s) {
			return false
		}
	}
	return true
}

func condSubst(c *Term, v bool) *subst {
	return newSubst(c, mkBool(v), not(c), mkBool(!v))
}

// findIte returns the condition of some ite outside binders.
func findIte(t *Term) *Term {
	var res *Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if res != nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpIte {
			c := t.args[0]
			// innermost first
			rec(c)
			if res == nil {
				if c.op == OpAnd || c.op == OpOr {
					res = c.args[0]
				} else {
					res = c
				}
			}
			return
		}
		if isBinder(t.op) {
			if t.op != OpMLam && t.op != OpFnLam {
				rec(t.args[0])
			}
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		if t.ref != nil {
			for _, a := range t.ref.(refIface).Sub() {
				rec(a)
			}
		}
	}
	rec(t)
	if res != nil && res.op == OpNot {
		res = res.args[0]
	}
	return res
}

// eq proves a == b.
func (p *prover) eq(h []*Term, a, b *Term, d int) bool {
	if a == b {
		return true
	}
	if d > 60 || time.Now().After(p.deadline) {
		return p.fail("equality search budget exhausted on %s = %s", a, b)
	}
	if a.sort != b.sort {
		if a.sort.numeric() && b.sort.numeric() {
			if a.sort == SInt {
				a = asSort(a, b.sort)
			} else {
				b = asSort(b, a.sort)
			}
		} else {
			if c := firstIte(a, b); c != nil {
				return p.split(h, c, d, func(h []*Term, s *subst) bool { return p.eq(h, s.apply(a), s.apply(b), d+1) })
			}
			return p.fail("sort mismatch %s : %s vs %s : %s", a, a.sort, b, b.sort)
		}
	}
	if su := p.positionSubst(h, a, b); su != nil {
		a, b = su.apply(a), su.apply(b)
	}
	g := eq(a, b)
	if g == True {
		return true
	}
	for _, x := range h {
		if x == g || x == False {
			return true
		}
	}
	if a.sort == SInt || a.sort == SBool {
		if p.ex.quick(h, g) {
			p.smt++
			return true
		}
		if a.sort == SBool {
			return p.cases(append(append([]*Term{}, h...), a), b, d+1) && p.cases(append(append([]*Term{}, h...), b), a, d+1)
		}
	}
	if c := firstIte(a, b); c != nil {
		return p.split(h, c, d, func(h []*Term, s *subst) bool { return p.eq(h, s.apply(a), s.apply(b), d+1) })
	}
	if a.sort.numeric() {
		return p.poly(h, sub(a, b), d)
	}
	// a variable known to equal a term is replaced by it everywhere
	for _, x := range h {
		if x.op != OpEq {
			continue
		}
		for i, l := range x.args {
			r := x.args[1-i]
			if l.op != OpVar || occurs(l, r) {
				continue
			}
			su := newSubst(l, r)
			nh := make([]*Term, 0, len(h))
			for _, y := range h {
				if y == x {
					continue
				}
				y = su.apply(y)
				if y == False {
					return true
				}
				if y != True {
					nh = append(nh, y)
				}
			}
			return p.eq(nh, su.apply(a), su.apply(b), d+1)
		}
	}
	// use oriented equalities from hypotheses
	if na, nb, ok := rewriteHyps(h, a, b); ok {
		return p.eq(h, na, nb, d+1)
	}
	switch a.sort {
	case SStruct:
		if a.op == OpMk || b.op == OpMk {
			m := a
			if m.op != OpMk {
				m = b
			}
			for i := range m.args {
				if !p.eq(h, fld(a, i, m.args[i].sort), fld(b, i, m.args[i].sort), d+1) {
					return false
				}
			}
			return true
		}
	case SSeq:
		sv := p.detail
		if p.seqEq(h, a, b, d) {
			return true
		}
		if p.detail == "" {
			p.detail = sv
		}
		return false
	case SMap:
		ks := SSeq
		for _, t := range []*Term{a, b} {
			if t.op == OpMLam {
				ks = t.bsrt
			}
			if t.op == OpMUpd || t.op == OpMDel {
				ks = t.args[1].sort
			}
		}
		q := fresh("q", ks)
		ha, hb := mhas(a, q), mhas(b, q)
		if !p.eq(h, ha, hb, d+1) {
			return false
		}
		va := mget(a, q, SU)
		vb := mget(b, q, va.sort)
		if vb.sort != va.sort {
			va = mget(a, q, vb.sort)
		}
		if va == vb {
			return true
		}
		nh := append(append([]*Term{}, h...), ha, hb)
		return p.eq(nh, va, vb, d+1)
	case SRef:
		if ra, ok := a.ref.(*BoxRef); ok {
			if rb, ok := b.ref.(*BoxRef); ok {
				return p.eq(h, ra.val, rb.val, d+1)
			}
		}
		if ra, ok := a.ref.(*IfaceRef); ok {
			if rb, ok := b.ref.(*IfaceRef); ok && ra.typ.String() == rb.typ.String() {
				return p.eq(h, ra.val, rb.val, d+1)
			}
		}
		if ra, ok := a.ref.(*SliceRef); ok {
			if rb, ok := b.ref.(*SliceRef); ok && ra.obj == rb.obj && ra.gen == rb.gen && (ra.snap == nil) == (rb.snap == nil) && samePathShape(ra.path, rb.path) {
				x, y := append(pathSub(ra.path), ra.off, ra.len, ra.cap), append(pathSub(rb.path), rb.off, rb.len, rb.cap)
				if ra.snap != nil {
					x, y = append(x, ra.snap), append(y, rb.snap)
				}
				for i := range x {
					if !p.eq(h, x[i], y[i], d+1) {
						return false
					}
				}
				return true
			}
		}
		if ra, ok := a.ref.(*PtrRef); ok {
			if rb, ok := b.ref.(*PtrRef); ok && ra.obj == rb.obj && samePathShape(ra.path, rb.path) {
				x, y := pathSub(ra.path), pathSub(rb.path)
				for i := range x {
					if !p.eq(h, x[i], y[i], d+1) {
						return false
					}
				}
				return true
			}
		}
		if ra, ok := a.ref.(*CloRef); ok {
			if rb, ok := b.ref.(*CloRef); ok && ra.fn == rb.fn {
				for i := range ra.binds {
					if !p.eq(h, ra.binds[i], rb.binds[i], d+1) {
						return false
					}
				}
				return true
			}
		}
	}
	if p.congr(h, a, b, d) {
		return true
	}
	p.smt++
	if smtCheck(h, g, 1000) == "unsat" {
		return true
	}
	return p.fail("cannot show %s\n   = %s", a, b)
}

func firstIte(a, b *Term) *Term {
	if c := findIte(a); c != nil {
		return c
	}
	return findIte(b)
}

// congr: same head symbol, equal arguments
func (p *prover) congr(h []*Term, a, b *Term, d int) bool {
	if a.op != b.op || a.name != b.name || a.n != b.n && !isBinder(a.op) || len(a.args) != len(b.args) || len(a.args) == 0 || a.ref != nil {
		return false
	}
	if isBinder(a.op) {
		if a.op == OpMLam || a.op == OpFnLam {
			return false
		}
		if !p.eq(h, a.args[0], b.args[0], d+1) {
			return false
		}
		k := fresh("i", a.bsrt)
		nh := append(append([]*Term{}, h...), le(mkInt(0), k), lt(k, a.args[0]))
		return p.eq(nh, open(a, k)[0], open(b, k)[0], d+1)
	}
	for i := range a.args {
		if a.args[i].sort != b.args[i].sort {
			return false
		}
		if !p.eq(h, a.args[i], b.args[i], d+1) {
			return false
		}
	}
	return true
}

func (p *prover) seqEq(h []*Term, a, b *Term, d int) bool {
	// congruence for opaque concatenations
	if a.op == OpFlat && b.op == OpFlat {
		return p.congr(h, a, b, d)
	}
	if a.op == OpCat || b.op == OpCat {
		pa, pb := catParts(a), catParts(b)
		// align parts of equal length from the left
		if len(pa) > 0 && len(pb) > 0 {
			sv := p.detail
			if p.eq(h, length(pa[0]), length(pb[0]), d+1) && p.eq(h, pa[0], pb[0], d+1) {
				return p.eq(h, cat(pa[1:]...), cat(pb[1:]...), d+1)
			}
			p.detail = sv
			// flat(n+1) = flat(n) ++ last
			for s, q := range [][]*Term{pa, pb} {
				o := pb
				if s == 1 {
					o = pa
				}
				for i, f := range q {
					if f.op != OpFlat || i >= len(o) || o[i].op != OpFlat {
						continue
					}
					if n := o[i].args[0]; p.ex.quick(h, eq(f.args[0], addI(n, 1))) && p.ex.quick(h, le(mkInt(0), n)) {
						r := append(append([]*Term{}, q[:i]...), flat(n, func(k *Term) *Term { return open(f, k)[0] }), open(f, n)[0])
						x, y := cat(append(r, q[i+1:]...)...), cat(o...)
						if length(o[i]) != length(r[i]) || d > 30 {
							continue
						}
						if p.eq(h, x, y, d+2) {
							return true
						}
						p.detail = sv
					}
				}
			}
		}
	}
	sv := p.detail
	if a.op == b.op && (a.op == OpApp || a.op == OpFld || a.op == OpMGet || a.op == OpAt) && p.congr(h, a, b, d) {
		return true
	}
	p.detail = sv
	if !p.eq(h, length(a), length(b), d+1) {
		return p.fail("lengths differ: %s vs %s", length(a), length(b))
	}
	k := fresh("i", SInt)
	es := elemSort(a)
	if es == SU {
		es = elemSort(b)
	}
	x, y := at(a, k, es), at(b, k, es)
	if x.sort != y.sort {
		if x.op == OpAt {
			x = at(a, k, y.sort)
		} else {
			y = at(b, k, x.sort)
		}
	}
	if x.op == OpAt && y.op == OpAt && x.args[0] == a && y.args[0] == b {
		// no progress possible pointwise
		if p.congr(h, a, b, d) {
			return true
		}
		p.smt++
		if smtCheck(h, eq(a, b), 1000) == "unsat" {
			return true
		}
		return p.fail("cannot show %s\n   = %s", a, b)
	}
	nh := append(append([]*Term{}, h...), le(mkInt(0), k), lt(k, length(a)))
	return p.eq(nh, x, y, d+1)
}

func elemSort(t *Term) Sort {
	switch t.op {
	case OpLam:
		x := fresh("i", SInt)
		return open(t, x)[0].sort
	case OpLit:
		if len(t.args) > 0 {
			return t.args[0].sort
		}
	case OpUpd:
		return t.args[2].sort
	case OpCat:
		for _, a := range t.args {
			if s := elemSort(a); s != SU {
				return s
			}
		}
	case OpSub:
		return elemSort(t.args[0])
	case OpIte:
		return elemSort(t.args[1])
	case OpStr:
		return SInt
	case OpFlat:
		x := fresh("i", SInt)
		return elemSort(open(t, x)[0])
	}
	return SU
}

// rewriteHyps applies equalities (var/atom = term) found in the hypotheses.
func rewriteHyps(h []*Term, a, b *Term) (*Term, *Term, bool) {
	for _, x := range h {
		if x.op == OpEq {
			l, r := x.args[0], x.args[1]
			for k := 0; k < 2; k++ {
				if (l.op == OpVar || l.op == OpAt || l.op == OpFld || l.op == OpApp || l.op == OpMGet) && !occurs(l, r) && (occurs(l, a) || occurs(l, b)) {
					if r.op == OpVar && !occurs(r, l) && (l.op != OpVar || l.id < r.id) || l.op != OpVar && r.op != OpVar && l.id < r.id {
						l, r = r, l
						continue
					}
					s := newSubst(l, r)
					na, nb := s.apply(a), s.apply(b)
					if na != a || nb != b {
						return na, nb, true
					}
				}
				l, r = r, l
			}
		}
	}
	return a, b, false
}

// poly proves q == 0 for a polynomial without top-level ites.
func (p *prover) poly(h []*Term, q *Term, d int) bool {
	if c, ok := constVal(q); ok {
		if c.Sign() == 0 {
			return true
		}
	}
	g := eq0(q)
	if g == True {
		return true
	}
	for _, x := range h {
		if x == g {
			return true
		}
	}
	if g.op == OpEq0 && g.args[0].sort != q.sort {
		return p.poly(h, g.args[0], d+1)
	}
	if g.op == OpEq0 {
		q = g.args[0]
	}
	// integer hypotheses: substitute equal variables
	for _, x := range h {
		if x.op == OpEq0 {
			pt := x.args[0]
			tp := toPoly(pt)
			for m, c := range tp.m {
				if len(m.args) == 1 && new(big.Int).Abs(c).Cmp(big.NewInt(1)) == 0 {
					at := m.args[0]
					if at == BasePt || at.sort == SPt && pt.sort != SPt {
						continue
					}
					if at.sort != pt.sort {
						continue
					}
					rest := polyT{map[*Term]*big.Int{}}
					for m2, c2 := range tp.m {
						if m2 != m {
							rest.add(m2, c2)
						}
					}
					r := rest.term(pt.sort)
					if c.Sign() > 0 {
						r = neg(r)
					}
					if occurs(at, r) || !occurs(at, q) {
						continue
					}
					if at.op != OpVar && at.op != OpApp {
						continue
					}
					nq := newSubst(at, r).apply(q)
					if nq != q && len(toPoly(nq).m) <= len(toPoly(q).m) {
						return p.poly(dropHyp(h, x), nq, d+1)
					}
				}
			}
		}
	}
	// Gaussian elimination with equalities of the same sort
	if r := eliminate(h, q); r != q {
		if isConst(r, 0) {
			return true
		}
	}
	if p.sums(h, q, d) {
		return true
	}
	if p.pairs(h, q, d) {
		return true
	}
	if q.sort != SInt && d < 40 {
		if in := p.instances(h, q); len(in) > 0 {
			return p.poly(append(append([]*Term{}, h...), in...), q, d+5)
		}
	}
	if q.sort == SInt {
		return p.check(h, eq0(q))
	}
	p.smt++
	if smtCheck(h, g, 1000) == "unsat" {
		return true
	}
	if os.Getenv("GOVER_HYPS") != "" {
		fmt.Println("  cannot show", clip(q.String(), 300))
		for _, x := range h {
			fmt.Println("     h:", clip(x.String(), 300))
		}
	}
	return p.fail("cannot show %s == 0", q)
}

func dropHyp(h []*Term, x *Term) []*Term {
	var o []*Term
	for _, t := range h {
		if t != x {
			o = append(o, t)
		}
	}
	return o
}

func eliminate(h []*Term, q *Term) *Term {
	type row map[*Term]*big.Rat
	mkrow := func(t *Term) row {
		r := row{}
		for m, c := range toPoly(t).m {
			r[m] = new(big.Rat).SetInt(c)
		}
		return r
	}
	type pivrow struct {
		p *Term
		r row
	}
	var basis []pivrow
	reduce := func(r row) {
		for _, b := range basis {
			if c, ok := r[b.p]; ok {
				f := new(big.Rat).Set(c)
				for m, v := range b.r {
					x := new(big.Rat).Mul(v, f)
					if o, ok := r[m]; ok {
						o = new(big.Rat).Sub(o, x)
						if o.Sign() == 0 {
							delete(r, m)
						} else {
							r[m] = o
						}
					} else {
						r[m] = x.Neg(x)
					}
				}
			}
		}
	}
	n := 0
	for _, x := range h {
		if x.op != OpEq0 || x.args[0].sort != q.sort {
			continue
		}
		n++
		r := mkrow(x.args[0])
		reduce(r)
		var pv *Term
		for m := range r {
			if pv == nil || m.id > pv.id {
				pv = m
			}
		}
		if pv == nil {
			continue
		}
		inv := new(big.Rat).Inv(r[pv])
		for m := range r {
			r[m] = new(big.Rat).Mul(r[m], inv)
		}
		// back-substitute into the basis
		for i := range basis {
			if c, ok := basis[i].r[pv]; ok {
				f := new(big.Rat).Set(c)
				for m, v := range r {
					x := new(big.Rat).Mul(v, f)
					if o, ok := basis[i].r[m]; ok {
						o = new(big.Rat).Sub(o, x)
						if o.Sign() == 0 {
							delete(basis[i].r, m)
						} else {
							basis[i].r[m] = o
						}
					} else {
						basis[i].r[m] = x.Neg(x)
					}
				}
			}
		}
		basis = append(basis, pivrow{pv, r})
	}
	if n == 0 {
		return q
	}
	r := mkrow(q)
	reduce(r)
	if len(r) == 0 {
		return zero(q.sort)
	}
	return q
}

// sums: combine Sum atoms with equal bounds, peel when bounds differ by one.
func (p *prover) sums(h []*Term, q *Term, d int) bool {
	type item struct {
		coef *Term // factor outside
		sum  *Term
	}
	var items []item
	rest := polyT{map[*Term]*big.Int{}}
	tp := toPoly(q)
	ms := toPolyMonos(q)
	for _, m := range ms {
		c := tp.m[m]
		var s *Term
		var others []*Term
		for _, a := range m.args {
			if a.op == OpSum && s == nil {
				s = a
			} else {
				others = append(others, a)
			}
		}
		if s == nil {
			rest.add(m, c)
			continue
		}
		items = append(items, item{scale(mkMonoTerm(others, SInt), c), s})
	}
	if len(items) == 0 {
		return false
	}
	if d < 30 {
		for i, it := range items {
			if rep := p.splitSum(h, it.sum); rep != nil {
				nq := rest.term(q.sort)
				for j, kt := range items {
					r := kt.sum
					if j == i {
						r = rep
					}
					nq = addT(q.sort, nq, mul(kt.coef, r))
				}
				return p.eq(h, nq, zero(q.sort), d+2)
			}
		}
	}
	n0 := items[0].sum.args[0]
	same := true
	for _, it := range items[1:] {
		if it.sum.args[0] != n0 && !p.ex.quick(h, eq(it.sum.args[0], n0)) {
			same = false
		}
	}
	sv := p.detail
	if same && len(rest.m) == 0 {
		k := fresh("i", SInt)
		body := zero(q.sort)
		for _, it := range items {
			body = addT(q.sort, body, mul(it.coef, open(it.sum, k)[0]))
		}
		nh := append(append([]*Term{}, h...), le(mkInt(0), k), lt(k, n0))
		if p.eq(nh, body, zero(q.sort), d+1) {
			return true
		}
		p.detail = sv
		return false
	}
	if (len(rest.m) > 0 || !same) && d < 30 {
		// take out the last summand of a sum over n+1 positions
		for i, it := range items {
			n := it.sum.args[0]
			if n.op != OpPoly || !occursConst(n) || p.ex.quick(h, le(n, mkInt(0))) || !p.ex.quick(h, le(mkInt(1), n)) {
				continue
			}
			m := addI(n, -1)
			rep := add(open(it.sum, m)[0], sum(m, it.sum.sort, func(k *Term) *Term { return open(it.sum, k)[0] }))
			nq := rest.term(q.sort)
			for j, kt := range items {
				if j == i {
					nq = addT(q.sort, nq, mul(kt.coef, rep))
				} else {
					nq = addT(q.sort, nq, mul(kt.coef, kt.sum))
				}
			}
			if p.eq(h, nq, zero(q.sort), d+5) {
				return true
			}
			p.detail = sv
		}
	}
	if !same && len(items) >= 2 && d < 30 {
		// peel the longest sum
		for i, it := range items {
			for _, jt := range items {
				if it.sum.args[0] == jt.sum.args[0] {
					continue
				}
				if p.ex.quick(h, eq(it.sum.args[0], addI(jt.sum.args[0], 1))) {
					n1 := jt.sum.args[0]
					for _, front := range []bool{false, true} {
						var rep *Term
						if front {
							rep = add(open(it.sum, mkInt(0))[0], sum(n1, it.sum.sort, func(k *Term) *Term { return open(it.sum, addI(k, 1))[0] }))
						} else {
							rep = add(open(it.sum, n1)[0], sum(n1, it.sum.sort, func(k *Term) *Term { return open(it.sum, k)[0] }))
						}
						nq := rest.term(q.sort)
						for j, kt := range items {
							if j == i {
								nq = addT(q.sort, nq, mul(kt.coef, rep))
							} else {
								nq = addT(q.sort, nq, mul(kt.coef, kt.sum))
							}
						}
						if p.eq(h, nq, zero(q.sort), d+3) {
							return true
						}
						p.detail = sv
					}
				}
			}
		}
	}
	return false
}

// occursConst: the polynomial has a positive constant term.
func occursConst(n *Term) bool {
	for i, m := range n.args {
		if m == one && n.co[i].Sign() > 0 {
			return true
		}
	}
	return false
}

// splitSum rewrites a sum whose body is a case distinction on the position.
func (p *prover) splitSum(h []*Term, s *Term) *Term {
	n := s.args[0]
	x := fresh("x", SInt)
	body := open(s, x)[0]
	bound := append(append([]*Term{}, h...), le(mkInt(0), x), lt(x, n))
	var conds []*Term
	for _, m := range toPolyMonos(body) {
		for _, a := range m.args {
			for a.op == OpIte {
				conds = append(conds, a.args[0])
				if a.args[0].op == OpLe0 || a.args[0].op == OpEq0 {
					break
				}
				a = a.args[1]
			}
		}
	}
	for _, c := range conds {
		if !occurs(x, c) {
			continue
		}
		cs := []*Term{c}
		if c.op == OpAnd || c.op == OpOr {
			cs = c.args
		}
		for _, c := range cs {
			if c.op == OpNot {
				c = c.args[0]
			}
			if c.op != OpLe0 && c.op != OpEq0 || c.args[0].sort != SInt {
				continue
			}
			if p.ex.quick(bound, c) {
				return sumX(n, x, newSubst(c, True).apply(body))
			}
			if p.ex.quick(bound, not(c)) {
				return sumX(n, x, newSubst(c, False).apply(body))
			}
			tp := toPoly(c.args[0])
			co, ok := tp.m[mkMono([]*Term{x})]
			if !ok || new(big.Int).Abs(co).Cmp(bigOne) != 0 {
				continue
			}
			r := sub(c.args[0], scale(x, co))
			if occurs(x, r) {
				continue
			}
			if c.op == OpEq0 {
				e := neg(scale(r, co)) // x == e
				if !p.ex.quick(h, le(mkInt(0), e)) || !p.ex.quick(h, lt(e, n)) {
					continue
				}
				bt := newSubst(c, True).apply(body)
				bf := newSubst(c, False).apply(body)
				return add(sumX(n, x, bf), newSubst(x, e).apply(sub(asSort(bt, s.sort), asSort(bf, s.sort))))
			}
			var m *Term // first part is [0,m)
			lo, hi := True, False
			if co.Sign() > 0 { // x <= -r
				m = addI(neg(r), 1)
			} else { // x >= r
				m = r
				lo, hi = False, True
			}
			if !p.ex.quick(h, le(mkInt(0), m)) || !p.ex.quick(h, le(m, n)) {
				continue
			}
			b1 := newSubst(c, lo).apply(body)
			b2 := newSubst(c, hi).apply(body)
			y := fresh("y", SInt)
			return add(sumX(m, x, asSort(b1, s.sort)), sumX(sub(n, m), y, asSort(newSubst(x, add(y, m)).apply(b2), s.sort)))
		}
	}
	return nil
}

// pairs: cancel monomials that are equal up to provably equal atoms.
func (p *prover) pairs(h []*Term, q *Term, d int) bool {
	tp := toPoly(q)
	ms := toPolyMonos(q)
	for i, m := range ms {
		for _, m2 := range ms[i+1:] {
			if new(big.Int).Add(tp.m[m], tp.m[m2]).Sign() != 0 && tp.m[m].Sign() == tp.m[m2].Sign() {
				continue
			}
			if len(m.args) != len(m2.args) {
				continue
			}
			// match atoms
			used := make([]bool, len(m2.args))
			ok := true
			sv := p.detail
			var l1, l2 []*Term
			for _, a := range m.args {
				hit := false
				for j, b := range m2.args {
					if !used[j] && a == b {
						used[j] = true
						hit = true
						break
					}
				}
				if !hit {
					l1 = append(l1, a)
				}
			}
			for j, b := range m2.args {
				if !used[j] {
					l2 = append(l2, b)
				}
			}
			u2 := make([]bool, len(l2))
			for _, a := range l1 {
				hit := false
				for j, b := range l2 {
					if u2[j] || a.sort != b.sort || a.op != b.op {
						continue
					}
					if a.op == OpVar || a.op == OpSum && d > 12 {
						continue
					}
					if p.atomEq(h, a, b, d+1) {
						u2[j] = true
						hit = true
						break
					}
				}
				if !hit {
					ok = false
					break
				}
			}
			p.detail = sv
			if ok {
				n := polyT{map[*Term]*big.Int{}}
				for k, c := range tp.m {
					if k != m2 {
						n.add(k, c)
					}
				}
				n.add(m, tp.m[m2])
				return p.eq(h, n.term(q.sort), zero(q.sort), d+1)
			}
		}
	}
	return false
}

func (p *prover) atomEq(h []*Term, a, b *Term, d int) bool {
	if a.op == OpSum {
		return p.congr(h, a, b, d)
	}
	if a.sort == SInt && p.ex.quick(h, eq(a, b)) {
		return true
	}
	return p.congr(h, a, b, d)
}

// match extends m so that pattern pat, with the variables vs, becomes t; integer patterns of the form v + rest are solved.
func match(pat, t *Term, vs map[*Term]bool, m map[*Term]*Term) bool {
	if vs[pat] {
		if o, ok := m[pat]; ok {
			return o == t
		}
		if t.sort != pat.sort {
			return false
		}
		m[pat] = t
		return true
	}
	if pat == t {
		return true
	}
	has := false
	for v := range vs {
		if occurs(v, pat) {
			has = true
		}
	}
	if !has {
		return false
	}
	if pat.op == OpPoly && pat.sort == SInt {
		tp := toPoly(pat)
		for v := range vs {
			c, ok := tp.m[v]
			if !ok || new(big.Int).Abs(c).Cmp(bigOne) != 0 || t.sort != SInt {
				continue
			}
			rest := sub(pat, mul(mkBig(c, SInt), v))
			if hasAny(rest, vs) {
				continue
			}
			r := sub(t, rest)
			if c.Sign() < 0 {
				r = neg(r)
			}
			if o, ok := m[v]; ok {
				return o == r
			}
			m[v] = r
			return true
		}
		return false
	}
	if pat.op != t.op || pat.name != t.name || pat.n != t.n || len(pat.args) != len(t.args) || pat.sort != t.sort || pat.ref != nil || t.ref != nil || isBinder(pat.op) {
		return false
	}
	for i := range pat.args {
		if !match(pat.args[i], t.args[i], vs, m) {
			return false
		}
	}
	return true
}

func hasAny(t *Term, vs map[*Term]bool) bool {
	for v := range vs {
		if occurs(v, t) {
			return true
		}
	}
	return false
}

// instances gives the group and scalar equations that the quantified hypotheses state about the atoms of q.
func (p *prover) instances(h []*Term, q *Term) (out []*Term) {
	seen := map[*Term]bool{}
	var atoms []*Term
	collect(q, func(t *Term) bool {
		if (t.sort == SPt || t.sort == SSc) && (t.op == OpFld || t.op == OpAt || t.op == OpApp) && !hasBV(t) && !seen[t] {
			seen[t] = true
			atoms = append(atoms, t)
		}
		return true
	})
	if len(atoms) == 0 || len(atoms) > 20 {
		return nil
	}
	for _, x := range h {
		var vs []*Term
		vset := map[*Term]bool{}
		var rng []*Term
		b := x
		for b.op == OpForall && len(vs) < 3 {
			v := fresh("e", SInt)
			vs = append(vs, v)
			vset[v] = true
			rng = append(rng, le(mkInt(0), v), lt(v, b.args[0]))
			b = open(b, v)[0]
		}
		if len(vs) == 0 {
			continue
		}
		var cond []*Term
		if b.op == OpOr {
			var eqn *Term
			for _, a := range b.args {
				if a.op == OpEq0 && a.args[0].sort != SInt && eqn == nil {
					eqn = a
				} else {
					cond = append(cond, not(a))
				}
			}
			if eqn == nil {
				continue
			}
			b = eqn
		}
		if b.op != OpEq0 || b.args[0].sort != SPt && b.args[0].sort != SSc {
			continue
		}
		var pats []*Term
		for _, mo := range toPolyMonos(b.args[0]) {
			for _, a := range mo.args {
				all := true
				for _, v := range vs {
					if !occurs(v, a) {
						all = false
					}
				}
				if all && (a.op == OpFld || a.op == OpAt || a.op == OpApp) {
					pats = append(pats, a)
				}
			}
		}
		n := 0
		for _, pat := range pats {
			for _, t := range atoms {
				m := map[*Term]*Term{}
				if n > 8 || !match(pat, t, vset, m) || len(m) != len(vs) {
					continue
				}
				su := newSubst()
				for k, v := range m {
					su.m[k] = v
				}
				inst := su.apply(b)
				if inst == True || seen[inst] || contains(h, inst) {
					continue
				}
				seen[inst] = true
				ok := true
				if os.Getenv("GOVER_INST") != "" {
					fmt.Println("  instance", clip(inst.String(), 300))
				}
				for _, c := range append(append([]*Term{}, rng...), cond...) {
					if !p.ex.quick(h, su.apply(c)) && !p.check(h, su.apply(c)) {
						ok = false
						if os.Getenv("GOVER_INST") != "" {
							fmt.Println("   not shown", clip(su.apply(c).String(), 300))
						}
						break
					}
				}
				if ok {
					n++
					out = append(out, inst)
				}
			}
		}
	}
	return
}

func contains(h []*Term, t *Term) bool {
	for _, x := range h {
		if x == t {
			return true
		}
	}
	return false
}
