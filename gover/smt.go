package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"strings"
	"time"
)

// SMT is a persistent solver process.
type SMT struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	name  string
	calls int
	total time.Duration
	full  bool // a complete script has been read
}

func startSMT(name string, args ...string) (*SMT, error) {
	c := exec.Command(name, args...)
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &SMT{cmd: c, in: in, out: bufio.NewReader(out), name: name}, nil
}

func (s *SMT) close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// check sends a complete script and returns sat/unsat/unknown.
func (s *SMT) check(script string) (string, error) {
	s.calls++
	s.full = true
	return s.answer("(reset)\n" + script + "(check-sat)\n(echo \"#end\")\n")
}

// light is check in the solver's incremental mode, which starts faster; when it finds nothing, check decides.
func (s *SMT) light(script string) (string, error) {
	s.calls++
	pre := "(push)\n"
	if s.full || s.calls%500 == 0 {
		s.full = false
		pre = "(reset)\n(push)\n"
	}
	r, err := s.answer(pre + script + "(check-sat)\n(pop)\n(echo \"#end\")\n")
	if err == nil && r == "unknown" {
		return s.check(script)
	}
	return r, err
}

func (s *SMT) answer(script string) (string, error) {
	t0 := time.Now()
	if _, err := io.WriteString(s.in, script); err != nil {
		return "unknown", err
	}
	res := "unknown"
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "unknown", err
		}
		l = strings.TrimSpace(l)
		if strings.Contains(l, "#end") {
			break
		}
		if l == "sat" || l == "unsat" || l == "unknown" {
			res = l
		} else if strings.HasPrefix(l, "(error") {
			if debug {
				fmt.Println("SMT error:", l)
			}
			s.total += time.Since(t0)
			// drain to #end
			for {
				l, err := s.out.ReadString('\n')
				if err != nil || strings.Contains(l, "#end") {
					break
				}
			}
			return "error", fmt.Errorf("%s", l)
		}
	}
	s.total += time.Since(t0)
	return res, nil
}

// ---------------------------------------------------------------- encoding

type enc struct {
	decl    map[string]string
	order   []string
	memo    map[*Term]string
	names   map[string]string
	axioms  []string
	pend    []*Term // atoms needing side axioms
	seen    map[*Term]bool
	nl      bool
	sums    []*Term
	foralls []*Term
	ats     []*Term
	sk      []*Term
}

func newEnc(nl bool) *enc {
	return &enc{decl: map[string]string{}, memo: map[*Term]string{}, names: map[string]string{}, seen: map[*Term]bool{}, nl: nl}
}

func smtSort(s Sort) string {
	switch s {
	case SInt:
		return "Int"
	case SBool:
		return "Bool"
	}
	return "U"
}

func (e *enc) declare(name string, sig string) {
	if _, ok := e.decl[name]; !ok {
		e.decl[name] = sig
		e.order = append(e.order, name)
	}
}

func (e *enc) uf(raw string, s Sort, args []*Term) string {
	var as []string
	var ss []string
	for _, a := range args {
		as = append(as, e.t(a))
		ss = append(ss, smtSort(a.sort))
	}
	key := raw + "/" + strings.Join(ss, ",") + ":" + smtSort(s)
	nm, ok := e.names[key]
	if !ok {
		nm = fmt.Sprintf("f%d", len(e.names))
		e.names[key] = nm
		e.declare(nm, fmt.Sprintf("(declare-fun %s (%s) %s)", nm, strings.Join(ss, " "), smtSort(s)))
	}
	if len(as) == 0 {
		return nm
	}
	return "(" + nm + " " + strings.Join(as, " ") + ")"
}

func num(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func (e *enc) t(t *Term) string {
	if r, ok := e.memo[t]; ok {
		return r
	}
	r := e.t0(t)
	if len(r) > 200 && (t.sort == SInt || t.sort == SBool) {
		nm := fmt.Sprintf("d%d", len(e.memo))
		e.declare(nm, fmt.Sprintf("(define-fun %s () %s %s)", nm, smtSort(t.sort), r))
		r = nm
	}
	e.memo[t] = r
	e.side(t)
	return r
}

func (e *enc) list(op string, ts []*Term) string {
	var s []string
	for _, a := range ts {
		s = append(s, e.t(a))
	}
	return "(" + op + " " + strings.Join(s, " ") + ")"
}

func (e *enc) t0(t *Term) string {
	switch t.op {
	case OpBool:
		if t.n == 1 {
			return "true"
		}
		return "false"
	case OpNot:
		return e.list("not", t.args)
	case OpAnd:
		return e.list("and", t.args)
	case OpOr:
		return e.list("or", t.args)
	case OpLe0:
		return "(<= " + e.t(t.args[0]) + " 0)"
	case OpEq0:
		if t.args[0].sort == SInt {
			return "(= " + e.t(t.args[0]) + " 0)"
		}
		return e.uf("eq0", SBool, t.args)
	case OpEq:
		return e.list("=", t.args)
	case OpIte:
		if t.args[1].sort != t.args[2].sort {
			return e.uf("ite", t.sort, t.args)
		}
		return e.list("ite", t.args)
	case OpPoly:
		if t.sort == SInt {
			var s []string
			for i, m := range t.args {
				ms := e.mono(m)
				if t.co[i].Cmp(big.NewInt(1)) == 0 {
					s = append(s, ms)
				} else if m == one {
					s = append(s, num(t.co[i]))
				} else {
					s = append(s, "(* "+num(t.co[i])+" "+ms+")")
				}
			}
			if len(s) == 0 {
				return "0"
			}
			if len(s) == 1 {
				return s[0]
			}
			return "(+ " + strings.Join(s, " ") + ")"
		}
		name := "poly:"
		var as []*Term
		for i, m := range t.args {
			name += fmt.Sprintf("%s*%d,", t.co[i], len(m.args))
			as = append(as, m.args...)
		}
		return e.uf(name, t.sort, as)
	case OpMono:
		return e.mono(t)
	case OpSum, OpLam, OpFlat, OpMLam, OpFirst, OpFnLam, OpForall:
		return e.uf(fmt.Sprintf("b%d", t.id), t.sort, nil)
	case OpVar, OpBV:
		return e.uf("v:"+t.name, t.sort, nil)
	case OpStr:
		return e.uf("s:"+t.name, t.sort, nil)
	case OpPtr:
		return e.uf(fmt.Sprintf("ref%d", t.id), t.sort, nil)
	case OpDiv:
		return e.uf(fmt.Sprintf("div%d", t.n), SInt, t.args)
	}
	return e.uf(fmt.Sprintf("op%d.%d:%s", t.op, t.n, t.name), t.sort, t.args)
}

func (e *enc) mono(m *Term) string {
	switch len(m.args) {
	case 0:
		return "1"
	case 1:
		return e.t(m.args[0])
	}
	if e.nl {
		return e.list("*", m.args)
	}
	// register for nonnegativity
	r := e.uf("mul", SInt, m.args)
	if !e.seen[m] {
		e.seen[m] = true
		var c []string
		for _, a := range m.args {
			c = append(c, "(>= "+e.t(a)+" 0)")
		}
		e.axioms = append(e.axioms, "(=> (and "+strings.Join(c, " ")+") (>= "+r+" 0))")
		for k, a := range m.args {
			var c1 []string
			for j, b := range m.args {
				if j != k {
					c1 = append(c1, "(>= "+e.t(b)+" 1)")
				}
			}
			c1 = append(c1, "(>= "+e.t(a)+" 0)")
			e.axioms = append(e.axioms, "(=> (and "+strings.Join(c1, " ")+") (>= "+r+" "+e.t(a)+"))")
		}
	}
	return r
}

// side adds the defining facts of interpreted atoms.
func (e *enc) side(t *Term) {
	if e.seen[t] {
		return
	}
	e.seen[t] = true
	switch t.op {
	case OpLen:
		e.axioms = append(e.axioms, "(and (<= 0 "+e.t(t)+") (<= "+e.t(t)+" 2147483647))")
	case OpMHas:
		e.axioms = append(e.axioms, "(=> "+e.t(t)+" "+e.t(lt(mkInt(0), app("maplen", SInt, t.args[0])))+")")
	case OpDiv:
		a, q := e.t(t.args[0]), e.t(t)
		k := fmt.Sprint(t.n)
		e.axioms = append(e.axioms, "(and (<= (* "+k+" "+q+") "+a+") (< "+a+" (+ (* "+k+" "+q+") "+k+")))")
	case OpForall:
		e.foralls = append(e.foralls, t)
	case OpAt:
		e.ats = append(e.ats, t)
	case OpSum:
		if t.sort == SInt {
			e.axioms = append(e.axioms, "(=> (<= "+e.t(t.args[0])+" 0) (= "+e.t(t)+" 0))")
			for _, o := range e.sums {
				if o.args[1] != t.args[1] || o.n != t.n {
					continue
				}
				for _, pr := range [][2]*Term{{o, t}, {t, o}} {
					a, b := pr[0], pr[1]
					n, m, A, B := e.t(a.args[0]), e.t(b.args[0]), e.t(a), e.t(b)
					body := e.t(open(a, a.args[0])[0])
					e.axioms = append(e.axioms, "(=> (and (<= 0 "+n+") (= "+m+" (+ "+n+" 1))) (= "+B+" (+ "+A+" "+body+")))")
					if nonneg(t) {
						e.axioms = append(e.axioms, "(=> (<= "+n+" "+m+") (<= "+A+" "+B+"))", "(=> (and (<= 0 "+n+") (< "+n+" "+m+")) (<= (+ "+A+" "+body+") "+B+"))")
					}
				}
			}
			e.sums = append(e.sums, t)
		}
		if t.sort == SInt && nonneg(t) {
			e.axioms = append(e.axioms, "(>= "+e.t(t)+" 0)")
		}
	case OpFirst:
		x := fresh("x", SInt)
		body := open(t, x)[0]
		f := e.t(t)
		ex := not(forallX(t.args[0], x, not(body)))
		e.axioms = append(e.axioms, "(>= "+f+" 0)")
		e.axioms = append(e.axioms, "(=> "+e.t(ex)+" (and (< "+f+" "+e.t(t.args[0])+") "+e.t(open(t, t)[0])+"))")
		e.axioms = append(e.axioms, "(=> "+e.t(ex)+" "+e.t(forallX(t, x, not(body)))+")")
	case OpApp:
		nm := t.name
		if i := strings.IndexByte(nm, ':'); i > 0 {
			nm = nm[:i]
		}
		if f, ok := smtFacts[nm]; ok {
			for _, c := range f(t) {
				e.axioms = append(e.axioms, e.t(c))
			}
		}
	}
}

// smtFacts: instances of axioms attached to particular applications.
var smtFacts = map[string]func(t *Term) []*Term{
	"maplen": func(t *Term) []*Term {
		if t.args[0].op == OpMUpd || someKeys[t.args[0]] {
			return []*Term{le0raw(addI(neg(t), 1))}
		}
		out := []*Term{le0raw(neg(t))}
		if t.args[0].op == OpMLam {
			out = append(out, mlamFacts(t)...)
		}
		return out
	},
	"keyat": func(t *Term) []*Term {
		m, p := t.args[0], t.args[2]
		if !(p.op == OpApp && p.name == "kidx") {
			n := app("maplen", SInt, m)
			inv := app("kidx", SInt, m, t.args[1], t)
			return append(keyFact(t), implies(and(le(mkInt(0), p), lt(p, n)), eq(inv, p)))
		}
		return keyFact(t)
	},
	"join": func(t *Term) []*Term {
		v, n := t.args[0], length(t.args[0])
		return []*Term{implies(le(n, mkInt(0)), eq(length(t), mkInt(0))), implies(le(mkInt(1), n), le(length(at(v, mkInt(0), SSeq)), length(t)))}
	},
	"kidx": func(t *Term) []*Term {
		m, q := t.args[0], t.args[2]
		n := app("maplen", SInt, m)
		below := le0raw(lt0(t, n))
		return []*Term{le0raw(neg(t)), implies(mhas(m, q), and(below, eqraw(keyAt(m, t.args[1], t, q.sort), q))), implies(below, mhas(m, q))}
	},
	"len": func(t *Term) []*Term { return []*Term{le(mkInt(0), t)} },
	// perm:ID(n, ..., p) is the image of p under a permutation of [0,n); iperm:ID its inverse
	"perm": permFact,
}

// mlamFacts relates the size of a map defined by its membership condition to its members.
func mlamFacts(t *Term) []*Term {
	m := t.args[0]
	var out []*Term
	q := fresh("key", m.bsrt)
	out = append(out, implies(le(mkInt(1), t), mhas(m, keyAt(m, mkInt(0), mkInt(0), q.sort))))
	if h := mhas(m, q); h.op == OpNot && h.args[0].op == OpForall {
		x := fresh("t", SInt)
		if b := open(h.args[0], x)[0]; b.op == OpNot && b.args[0].op == OpEq && (b.args[0].args[0] == q || b.args[0].args[1] == q) {
			return append(out, implies(le(mkInt(1), h.args[0].args[0]), le(mkInt(1), t)))
		}
	}
	collect(mhas(m, q), func(u *Term) bool {
		if u.op != OpForall || hasBV(u) {
			return true
		}
		x := fresh("t", SInt)
		collect(open(u, x)[0], func(e *Term) bool {
			if e.op == OpEq && (e.args[0] == q || e.args[1] == q) {
				o := e.args[0]
				if o == q {
					o = e.args[1]
				}
				k := newSubst(x, mkInt(0)).apply(o)
				out = append(out, implies(mhas(m, k), le(mkInt(1), t)))
			}
			return true
		})
		return true
	})
	return out
}

func lt0(a, b *Term) *Term   { return addI(sub(a, b), 1) }
func le0raw(t *Term) *Term   { return mk(&Term{op: OpLe0, sort: SBool, args: []*Term{t}}) }
func eqraw(a, b *Term) *Term { return mk(&Term{op: OpEq, sort: SBool, args: []*Term{a, b}}) }

func keyFact(t *Term) []*Term {
	m, p := t.args[0], t.args[2]
	has := mhas(m, t)
	if m.op == OpVar || m.op == OpMGet || m.op == OpAt || m.op == OpFld || m.op == OpApp {
		has = mk(&Term{op: OpMHas, sort: SBool, args: []*Term{m, t}})
	}
	return []*Term{implies(and(le(mkInt(0), p), lt(p, app("maplen", SInt, m))), has)}
}

func permFact(t *Term) []*Term {
	n, p := t.args[0], t.args[len(t.args)-1]
	other := "i" + t.name
	if strings.HasPrefix(t.name, "iperm:") {
		other = t.name[1:]
	}
	inv := app(other, SInt, append(append([]*Term{}, t.args[:len(t.args)-1]...), t)...)
	return []*Term{implies(and(le(mkInt(0), p), lt(p, n)), and(le(mkInt(0), t), lt(t, n), eq(inv, p)))}
}

// instantiate adds instances of universally quantified atoms.
func (e *enc) instantiate(rounds int) {
	done := map[*Term]map[*Term]bool{}
	for r := 0; r < rounds; r++ {
		// candidate index terms
		cand := map[*Term]bool{}
		var order []*Term
		addC := func(t *Term) {
			if !cand[t] && !hasBV(t) {
				cand[t] = true
				order = append(order, t)
			}
		}
		for _, s := range e.sk {
			addC(s)
		}
		var walk []*Term
		for t := range e.memo {
			walk = append(walk, t)
		}
		sortTerms(walk)
		for _, t := range walk {
			if t.op == OpAt {
				addC(t.args[1])
			}
			if t.op == OpFirst {
				addC(t)
			}
			if t.op == OpApp && strings.HasPrefix(t.name, "any:") {
				for _, a := range t.args {
					if a.sort == SInt {
						addC(a)
					}
				}
			}
			if t.op == OpApp && t.name == "kidx" {
				addC(t)
			}
		}
		fs := append([]*Term{}, e.foralls...)
		n := 0
		for _, f := range fs {
			if done[f] == nil {
				done[f] = map[*Term]bool{}
				// negative occurrence: skolem witness
				sk := mkVar(fmt.Sprintf("sk!%d", f.id), SInt)
				e.sk = append(e.sk, sk)
				b := openAt(f, sk)
				e.axioms = append(e.axioms, "(or "+e.t(f)+" (and (<= 0 "+e.t(sk)+") (< "+e.t(sk)+" "+e.t(f.args[0])+") (not "+e.t(b)+")))")
				n++
			}
			inst := func(i *Term) {
				if done[f][i] || len(done[f]) > 60 {
					return
				}
				done[f][i] = true
				b := openAt(f, i)
				e.axioms = append(e.axioms, "(=> (and "+e.t(f)+" (<= 0 "+e.t(i)+") (< "+e.t(i)+" "+e.t(f.args[0])+")) "+e.t(b)+")")
				n++
			}
			for _, i := range partPositions(f, walk) {
				inst(i)
			}
			// triggers: offsets of the bound variable in index positions
			offs := triggerOffsets(f)
			for _, c := range order {
				for _, o := range offs {
					i := sub(c, o)
					if done[f][i] {
						continue
					}
					done[f][i] = true
					if len(done[f]) > 60 {
						continue
					}
					b := openAt(f, i)
					e.axioms = append(e.axioms, "(=> (and "+e.t(f)+" (<= 0 "+e.t(i)+") (< "+e.t(i)+" "+e.t(f.args[0])+")) "+e.t(b)+")")
					n++
				}
			}
		}
		for _, t := range walk {
			if t.op != OpMHas || hasBV(t) {
				continue
			}
			for _, f := range fs {
				if done[f][t] {
					continue
				}
				if b := keyInstance(f, t.args[0], t.args[1]); b != nil {
					done[f][t] = true
					e.axioms = append(e.axioms, "(=> (and "+e.t(f)+" "+e.t(t)+") "+e.t(b)+")")
					n++
				}
			}
		}
		if n == 0 {
			return
		}
	}
}

// partPositions are the positions at which f, a statement about equal parts of a list, speaks about parts that occur.
func partPositions(f *Term, ground []*Term) (out []*Term) {
	pats, ok := partMemo[f]
	if !ok {
		pats = partPatterns(f)
		partMemo[f] = pats
	}
	if len(pats) == 0 {
		return nil
	}
	seen := map[*Term]bool{}
	for _, u := range ground {
		if u.op != OpSub || hasBV(u) {
			continue
		}
		for _, p := range pats {
			if p.list != u.args[0] {
				continue
			}
			if i := quotient(sub(u.args[1], p.rest), p.coef, p.open); i != nil && !seen[i] {
				seen[i] = true
				out = append(out, i)
			}
		}
	}
	return
}

var openMemo = map[[2]*Term]*Term{}

// openAt is what f says of position i.
func openAt(f, i *Term) *Term {
	k := [2]*Term{f, i}
	r, ok := openMemo[k]
	if !ok {
		r = open(f, i)[0]
		openMemo[k] = r
	}
	return r
}

// partPattern is a part of a list that starts at coef*x+rest, with something else added if open.
type partPattern struct {
	list, coef, rest *Term
	open             bool
}

var partMemo = map[*Term][]partPattern{}

func partPatterns(f *Term) (pats []partPattern) {
	x := fresh("t", SInt)
	collect(open(f, x)[0], func(u *Term) bool {
		if u.op != OpSub || hasBV(u.args[0]) || !occurs(x, u.args[1]) {
			return true
		}
		tp := toPoly(u.args[1])
		coef, rest := polyT{map[*Term]*big.Int{}}, polyT{map[*Term]*big.Int{}}
		p := partPattern{list: u.args[0]}
		for _, m := range toPolyMonos(u.args[1]) {
			var others []*Term
			n, bv := 0, false
			for _, a := range m.args {
				if a == x {
					n++
				} else {
					others = append(others, a)
					bv = bv || hasBV(a)
				}
			}
			switch {
			case n == 0 && bv:
				p.open = true
			case n == 0:
				rest.add(m, tp.m[m])
			case n == 1 && !bv:
				coef.add(mkMono(others), tp.m[m])
			default:
				return true
			}
		}
		if len(coef.m) != 1 {
			return true
		}
		p.coef, p.rest = coef.term(SInt), rest.term(SInt)
		pats = append(pats, p)
		return true
	})
	return
}

// quotient divides q by the monomial f; parts that f does not divide are left out if they may be.
func quotient(q, f *Term, some bool) *Term {
	fp := toPoly(f)
	var fm *Term
	for m, c := range fp.m {
		if c.Cmp(bigOne) != 0 {
			return nil
		}
		fm = m
	}
	r := polyT{map[*Term]*big.Int{}}
	tp := toPoly(q)
	for _, m := range toPolyMonos(q) {
		rest := append([]*Term{}, m.args...)
		ok := true
		for _, a := range fm.args {
			hit := false
			for k, b := range rest {
				if a == b {
					rest = append(rest[:k], rest[k+1:]...)
					hit = true
					break
				}
			}
			ok = ok && hit
		}
		if ok {
			r.add(mkMono(rest), tp.m[m])
		} else if !some {
			return nil
		}
	}
	return r.term(SInt)
}

// keyInstance is what f, a statement about all keys of m, says about the key q.
func keyInstance(f, m, q *Term) *Term {
	if f.op != OpForall || f.args[0].op != OpApp || f.args[0].name != "maplen" || f.args[0].args[0] != dom(m) {
		return nil
	}
	m = dom(m)
	if q.op == OpApp && q.name == "keyat" && q.args[0] == m {
		return nil
	}
	x := fresh("t", SInt)
	b := open(f, x)[0]
	var key *Term
	ok := true
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !occurs(x, t) {
			return
		}
		seen[t] = true
		if t == x || t.ref != nil {
			ok = false
			return
		}
		if t.op == OpApp && t.name == "keyat" && t.args[0] == m && t.args[2] == x && (key == nil || key == t) {
			key = t
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(b)
	if !ok || key == nil {
		return nil
	}
	return newSubst(key, q).apply(b)
}

func sortTerms(ts []*Term) {
	sortSlice(ts, func(a, b *Term) bool { return a.id < b.id })
}

var offsetMemo = map[*Term][]*Term{}

func triggerOffsets(f *Term) []*Term {
	if r, ok := offsetMemo[f]; ok {
		return r
	}
	r := findOffsets(f)
	offsetMemo[f] = r
	return r
}

func findOffsets(f *Term) []*Term {
	x := fresh("t", SInt)
	b := open(f, x)[0]
	set := map[*Term]bool{mkInt(0): true}
	out := []*Term{mkInt(0)}
	collect(b, func(t *Term) bool {
		if t.op == OpAt {
			d := sub(t.args[1], x)
			if !occurs(x, d) && !hasBV(d) && !set[d] {
				set[d] = true
				out = append(out, d)
			}
		}
		return true
	})
	return out
}

func (e *enc) script(hyps []*Term, goal *Term, timeoutMs int) string {
	var asserts []string
	for _, h := range hyps {
		asserts = append(asserts, e.t(h))
	}
	if goal != nil {
		asserts = append(asserts, "(not "+e.t(goal)+")")
	}
	e.instantiate(2)
	var sb strings.Builder
	fmt.Fprintf(&sb, "(set-option :timeout %d)\n(declare-sort U 0)\n", timeoutMs)
	for _, n := range e.order {
		sb.WriteString(e.decl[n])
		sb.WriteByte('\n')
	}
	for _, a := range append(asserts, e.axioms...) {
		sb.WriteString("(assert ")
		sb.WriteString(a)
		sb.WriteString(")\n")
	}
	return sb.String()
}
