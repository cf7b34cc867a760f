package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// leaf is one scalar/sequence/map component of the state changed by a loop.
type leaf struct {
	x      *Term // symbol standing for the value at the start of iteration k
	init   *Term
	next   *Term // value at the end of iteration k, over x and other symbols
	sol    *Term // closed form in k
	name   string
	permID string
	ptr    types.Type // for a pointer state known by what it points to
	boxed  bool
	from   *Term               // the pointer before the loop
	rep    *Term               // how a boxed state occurs in the body
	perm   func(p *Term) *Term // element p of the closed form, when it is an unknown rearrangement
}

type loopAnnot struct{}

// havocTemplate builds a symbolic value shaped like the type, returning the leaves.
func (ex *Exec) leafSym(t types.Type, init *Term, name string, out *[]*leaf, st *State) *Term {
	t = types.Unalias(t)
	mkLeaf := func(s Sort, init *Term) *Term {
		l := &leaf{x: fresh("X:"+name, s), init: init, name: name}
		if p, ok := t.Underlying().(*types.Pointer); ok && s == SRef {
			l.ptr = p.Elem()
		}
		*out = append(*out, l)
		return l.x
	}
	if p, ok := t.Underlying().(*types.Pointer); ok && ex.boxed[name] {
		l := &leaf{x: fresh("X:"+name, sortOf(p.Elem())), init: ex.pointee(st, init), name: name, boxed: true, from: init}
		*out = append(*out, l)
		l.rep = l.x
		if n := ex.fixLen[name]; n != nil {
			l.rep = lam(n, func(i *Term) *Term { return at(l.x, i, elemSort(l.init)) })
		}
		return mkRef(&BoxRef{l.rep})
	}
	switch sortOf(t) {
	case SStruct:
		if s, ok := t.Underlying().(*types.Struct); ok {
			var fs []*Term
			for i := 0; i < s.NumFields(); i++ {
				ft := s.Field(i).Type()
				fs = append(fs, ex.leafSym(ft, fld(init, i, sortOf(ft)), name+"."+s.Field(i).Name(), out, st))
			}
			return mkStruct("", fs...)
		}
		if tp, ok := t.(*types.Tuple); ok {
			var fs []*Term
			for i := 0; i < tp.Len(); i++ {
				ft := tp.At(i).Type()
				fs = append(fs, ex.leafSym(ft, fld(init, i, sortOf(ft)), name, out, st))
			}
			return mkStruct("", fs...)
		}
	case SSeq:
		// initial slices are taken by value: loop-carried slices are built by append
		if init.sort == SRef {
			return mkLeaf(SSeq, init)
		}
		return mkLeaf(SSeq, init)
	case SPt, SSc:
		return mkLeaf(sortOf(t), init)
	}
	return mkLeaf(sortOf(t), init)
}

type loopState struct {
	fn     *ssa.Function
	li     *loopInfo
	st0    *State
	phis   []*ssa.Phi
	inits  map[*ssa.Phi]*Term
	phiSym map[*ssa.Phi]*Term
	phiLv  map[*ssa.Phi][]*leaf
	objs   []int
	objSym map[int]*Term
	objLv  map[int][]*leaf
	k      *Term
	lc     *loopCtx
	fixed  map[*ssa.Phi]*Term // phis known to be loop invariant
	fixObj map[int]bool
	order  int
	boxed  map[string]bool
	fixLen map[string]*Term
	mapLen map[int][]slicePath
	noLen  map[string]bool
}

// pointee is the value a pointer points to.
func (ex *Exec) pointee(st *State, v *Term) *Term {
	if r, ok := ex.purify(st, v, nil).ref.(*BoxRef); ok {
		return r.val
	}
	return nil
}

// boxLeaves looks for pointers which the body replaces by pointers to new values. Such a pointer is known by what it
// points to, as long as nothing is stored through it.
func (ex *Exec) boxLeaves(ls *loopState, mod map[int]bool, res *bodyResult) bool {
	grew := false
	ex.nextOf(ls, res)
	for _, l := range ls.leaves() {
		if l.boxed {
			if r, ok := l.from.ref.(*PtrRef); ok && mod[r.obj] {
				ex.fail("loop state %s: the value it points to changes", l.name)
			}
		}
		if l.boxed && l.x.sort == SSeq && ls.fixLen[l.name] == nil && l.next != l.x && l.next.sort == SSeq {
			// the length stays what it was
			n := length(l.init)
			if nl := length(l.next); !occurs(l.x, nl) && ex.quick(res.back.hyps(), eq(nl, n)) {
				ls.fixLen[l.name] = n
				grew = true
			}
		}
		if l.ptr == nil || ls.boxed[l.name] || l.next == l.x || l.next == l.init {
			continue
		}
		switch sortOf(l.ptr) {
		case SSeq, SStruct:
		default:
			continue
		}
		if r, ok := l.init.ref.(*PtrRef); ok && mod[r.obj] {
			continue
		}
		if ex.pointee(ls.st0, l.init) == nil || ex.pointee(res.back, l.next) == nil {
			continue
		}
		ls.boxed[l.name] = true
		grew = true
	}
	return grew
}

func (ls *loopState) leaves() []*leaf {
	var r []*leaf
	for _, p := range ls.phis {
		r = append(r, ls.phiLv[p]...)
	}
	for _, o := range ls.objs {
		r = append(r, ls.objLv[o]...)
	}
	return r
}

type bodyResult struct {
	back  *State
	exits []edge
	outs  []outcome
	base  int // guard length at start
	facts int
}

func (ex *Exec) execLoop(fn *ssa.Function, li *loopInfo, in []edge) ([]edge, []outcome) {
	// phi initial values, merged over entry edges
	ls := &loopState{fn: fn, li: li, inits: map[*ssa.Phi]*Term{}, fixed: map[*ssa.Phi]*Term{}, fixObj: map[int]bool{}, boxed: map[string]bool{}, fixLen: map[string]*Term{}, mapLen: map[int][]slicePath{}, noLen: map[string]bool{}}
	for _, e := range in {
		ex.phis(li.h, e)
	}
	var sts []*State
	for _, e := range in {
		sts = append(sts, e.st)
	}
	ls.st0 = ex.mergeStates(sts)
	for _, ins := range li.h.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ls.phis = append(ls.phis, p)
		ls.inits[p] = ls.st0.env[p]
	}
	if ex.neverEntered(ls) {
		return ex.runOnce(ls)
	}
	ls.k = fresh("it", SInt)
	ls.lc = &loopCtx{parent: ex.curLoop(), fn: fn, header: li.h, k: ls.k}

	pos := ex.pos(ex.curPos)
	_ = pos
	// ---- discovery of modified objects
	mod := map[int]bool{}
	ex.quiet++
	savedAccOn := ex.accOn
	ex.accOn = false
	var res *bodyResult
	func() {
		defer func() { ex.quiet--; ex.accOn = savedAccOn }()
		for _, p := range ls.phis {
			if _, ok := ls.inits[p].ref.(*PtrRef); ok {
				ls.fixed[p] = ls.inits[p]
			}
		}
		for round := 0; round < 12; round++ {
			ls.setup(ex, mod)
			res = ex.runBody(ls, nil)
			grew := false
			if res.back != nil {
				for p, v := range ls.fixed {
					if res.back.env[p] != v {
						delete(ls.fixed, p)
						grew = true
					}
				}
			}
			note := func(s *State) {
				for id := range ls.st0.heap {
					if mod[id] {
						continue
					}
					if s.heap[id] != ls.st0.heap[id] {
						mod[id] = true
						grew = true
					}
				}
			}
			if res.back != nil {
				note(res.back)
			}
			if !grew && res.back != nil && ex.boxLeaves(ls, mod, res) {
				grew = true
			}
			if !grew && res.back != nil && ex.keepLens(ls, res) {
				grew = true
			}
			if !grew {
				break
			}
		}
		// ---- solve
		ex.solveLoop(ls, mod, &res)
	}()

	if res.back == nil {
		// the body never iterates: execute once with initial values
		return ex.runOnce(ls)
	}
	// ---- trip count from exits
	return ex.finishLoop(ls, res)
}

func (ls *loopState) setup(ex *Exec, mod map[int]bool) {
	saved, savedLen := ex.boxed, ex.fixLen
	ex.boxed, ex.fixLen = ls.boxed, ls.fixLen
	defer func() { ex.boxed, ex.fixLen = saved, savedLen }()
	ls.phiSym = map[*ssa.Phi]*Term{}
	ls.phiLv = map[*ssa.Phi][]*leaf{}
	for _, p := range ls.phis {
		if f, ok := ls.fixed[p]; ok {
			ls.phiSym[p] = f
			continue
		}
		var lv []*leaf
		ls.phiSym[p] = ex.leafSym(p.Type(), ls.inits[p], p.Comment+"/"+p.Name(), &lv, ls.st0)
		ls.phiLv[p] = lv
	}
	ls.objs = nil
	for id := range mod {
		if !ls.fixObj[id] {
			ls.objs = append(ls.objs, id)
		}
	}
	sort.Ints(ls.objs)
	ls.objSym = map[int]*Term{}
	ls.objLv = map[int][]*leaf{}
	for _, id := range ls.objs {
		var lv []*leaf
		ls.objSym[id] = ex.leafSym(ex.objs[id].typ, ex.elemValues(ls, mod, ex.objs[id].typ, ls.st0.heap[id]), ex.objs[id].name, &lv, ls.st0)
		ls.objLv[id] = lv
		ex.guessLens(ls, id)
	}
}

// guessLens finds lengths that all values of a map have before the loop; they are invariants unless keepLens finds
// otherwise.
func (ex *Exec) guessLens(ls *loopState, id int) {
	ls.mapLen[id] = nil
	lv := ls.objLv[id]
	m, ok := types.Unalias(ex.objs[id].typ).Underlying().(*types.Map)
	if !ok || len(lv) != 1 || lv[0].x.sort != SMap || lv[0].init.sort != SMap || lv[0].init == EmptyMap {
		return
	}
	q := fresh("q", sortOf(m.Key()))
	v := mget(lv[0].init, q, sortOf(m.Elem()))
	for _, path := range slicePaths(m.Elem(), "") {
		if n := length(path.of(v)); !occurs(q, n) && nonneg(n) && !ls.noLen[fmt.Sprint(id, path.name)] {
			valLen[shapeKey{lv[0].x, path.name}] = n
			ls.mapLen[id] = append(ls.mapLen[id], path)
		}
	}
}

// keepLens checks that the body keeps the lengths; it gives up those for which it does not.
func (ex *Exec) keepLens(ls *loopState, res *bodyResult) bool {
	given := false
	ex.nextOf(ls, res)
	for id, paths := range ls.mapLen {
		if len(paths) == 0 {
			continue
		}
		l := ls.objLv[id][0]
		m := types.Unalias(ex.objs[id].typ).Underlying().(*types.Map)
		q := fresh("q", sortOf(m.Key()))
		for _, path := range paths {
			n := valLen[shapeKey{l.x, path.name}]
			nl := length(path.of(mget(l.next, q, sortOf(m.Elem()))))
			h := append(append([]*Term{}, res.back.hyps()...), mhas(l.next, q))
			if nl != n && !ex.quick(h, eq(nl, n)) {
				ls.noLen[fmt.Sprint(id, path.name)] = true
				given = true
			}
		}
	}
	return given
}

type slicePath struct {
	name string
	of   func(v *Term) *Term
}

// slicePaths lists the fields of a struct that are slices.
func slicePaths(t types.Type, name string) []slicePath {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Slice:
		return []slicePath{{name, func(v *Term) *Term { return v }}}
	case *types.Struct:
		var out []slicePath
		for i := 0; i < u.NumFields(); i++ {
			i, ft := i, u.Field(i).Type()
			for _, p := range slicePaths(ft, "") {
				out = append(out, slicePath{p.name + fmt.Sprintf(".%d", i), func(v *Term) *Term { return p.of(fld(v, i, sortOf(ft))) }})
			}
		}
		return out
	}
	return nil
}

// elemValues replaces group elements stored by pointer in a sequence by their values; the objects pointed to may not
// be written any more.
func (ex *Exec) elemValues(ls *loopState, mod map[int]bool, t types.Type, c *Term) *Term {
	sl, ok := types.Unalias(t).Underlying().(*types.Slice)
	if !ok || c.op != OpUpd || !isPoint(sl.Elem()) && !isScalar(sl.Elem()) {
		return c
	}
	base, v := ex.elemValues(ls, mod, t, c.args[0]), c.args[2]
	if r, ok := v.ref.(*PtrRef); ok && !mod[r.obj] {
		v = ex.pval(ls.st0, v)
		ex.objs[r.obj].pure = true
	}
	if base == c.args[0] && v == c.args[2] {
		return c
	}
	return upd(base, c.args[1], v)
}

// runBody executes one iteration from the current symbolic loop state; solved leaves replaced by closed forms.
func (ex *Exec) runBody(ls *loopState, extra []*Term) *bodyResult {
	st := ls.st0.clone()
	su := newSubst()
	for _, l := range ls.leaves() {
		if l.sol != nil {
			su.m[l.x] = l.sol
		}
	}
	for _, p := range ls.phis {
		v := ls.phiSym[p]
		if len(su.m) > 0 {
			v = su.apply(v)
		}
		st.env[p] = v
	}
	for _, id := range ls.objs {
		v := ls.objSym[id]
		if len(su.m) > 0 {
			v = su.apply(v)
		}
		st.heap[id] = v
		st.gens[id]++
	}
	base := len(st.guard)
	fb := len(st.facts)
	st.assume(le(mkInt(0), ls.k))
	for _, e := range extra {
		st.assume(e)
	}
	ex.loops = append(ex.loops, ls.lc)
	defer func() { ex.loops = ex.loops[:len(ex.loops)-1] }()
	exits, backs, outs := ex.run(ls.fn, []edge{{nil, ls.li.h, st}}, ls.li)
	r := &bodyResult{exits: exits, outs: outs, base: base, facts: fb}
	if len(backs) > 0 {
		// phis on back edges
		var bs []*State
		for _, b := range backs {
			ex.phis(ls.li.h, b)
			bs = append(bs, b.st)
		}
		r.back = ex.mergeStates(bs)
	}
	return r
}

// iterLocal reports objects allocated inside the loop body.
func (ex *Exec) isIterLocal(ls *loopState, id int) bool {
	for c := ex.objs[id].scope; c != nil; c = c.parent {
		if c == ls.lc {
			return true
		}
	}
	return false
}

// nextOf computes leaf next-values from the back state.
func (ex *Exec) nextOf(ls *loopState, res *bodyResult) {
	keep := func(id int) bool { return !ex.isIterLocal(ls, id) }
	assign := func(t types.Type, v *Term, lv []*leaf) {
		var flat []*Term
		ex.flatten(t, v, &flat)
		if len(flat) != len(lv) {
			ex.fail("loop state shape mismatch")
		}
		for i, l := range lv {
			n := flat[i]
			if l.boxed {
				if l.next = ex.pointee(res.back, n); l.next == nil {
					ex.fail("loop state %s: %s", l.name, clip(n.String(), 100))
				}
				continue
			}
			if l.x.sort == SSeq && n.sort == SRef && n != l.init {
				n = ex.purify(res.back, n, nil)
			}
			n = ex.purify(res.back, n, keep)
			if n.sort == SRef && (l.x.sort == SPt || l.x.sort == SSc) {
				if n != l.init {
					n = ex.pval(res.back, n)
				}
			}
			l.next = n
		}
	}
	for _, p := range ls.phis {
		if _, ok := ls.fixed[p]; ok {
			continue
		}
		assign(p.Type(), res.back.env[p], ls.phiLv[p])
	}
	for _, id := range ls.objs {
		assign(ex.objs[id].typ, res.back.heap[id], ls.objLv[id])
	}
}

func (ex *Exec) flatten(t types.Type, v *Term, out *[]*Term) {
	t = types.Unalias(t)
	if sortOf(t) == SStruct {
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				ft := s.Field(i).Type()
				ex.flatten(ft, fld(v, i, sortOf(ft)), out)
			}
			return
		}
		if tp, ok := t.(*types.Tuple); ok {
			for i := 0; i < tp.Len(); i++ {
				ft := tp.At(i).Type()
				ex.flatten(ft, fld(v, i, sortOf(ft)), out)
			}
			return
		}
	}
	*out = append(*out, v)
}

func (ex *Exec) solveLoop(ls *loopState, mod map[int]bool, resp **bodyResult) {
	for round := 0; round < 10; round++ {
		if (*resp).back == nil {
			return
		}
		ex.nextOf(ls, *resp)
		changed := false
		all := true
		unsolved := map[*Term]bool{}
		for _, l := range ls.leaves() {
			if l.sol == nil {
				unsolved[l.x] = true
			}
		}
		// phase 1: leaves that never change keep their initial value
		for _, l := range ls.leaves() {
			if l.sol != nil {
				continue
			}
			if l.next == l.x || l.next == l.init || l.boxed && l.next == l.rep {
				l.sol = l.init
				changed = true
			}
		}
		if !changed {
			for _, l := range ls.leaves() {
				if l.sol != nil {
					continue
				}
				dep := false
				for x := range unsolved {
					if x != l.x && occurs(x, l.next) {
						dep = true
					}
				}
				if dep {
					if debugLoop {
						fmt.Fprintf(os.Stderr, "  leaf %s depends on unsolved: next=%s\n", l.name, clip(l.next.String(), 400))
					}
					continue
				}
				init := l.init
				if l.x.sort == SSeq && init.sort == SRef {
					init = ex.purify(ls.st0, init, nil)
				}
				if (l.x.sort == SPt || l.x.sort == SSc) && init.sort == SRef {
					init = ex.pval(ls.st0, init)
				}
				h := (*resp).back.hyps()
				if s := ex.solveRec(h, l.x, init, l.next, ls.k); s != nil {
					l.sol = s
					changed = true
				} else if debugLoop {
					fmt.Fprintf(os.Stderr, "  leaf %s unsolved: x=%s init=%s next=%s\n", l.name, l.x, clip(init.String(), 100), clip(l.next.String(), 900))
				}
			}
		}
		for _, l := range ls.leaves() {
			if l.sol == nil {
				all = false
			}
		}
		if !changed {
			if !all {
				// mutual recurrences: try pairs (a boolean guard and a value)
				if ex.solveJoint(ls, (*resp).back.hyps()) {
					changed = true
				}
			}
			if !changed {
				if all {
					return
				}
				for _, l := range ls.leaves() {
					if l.sol == nil {
						ex.fail("loop in %s: no closed form for %s (next %s)", ls.fn.Name(), l.name, clip(l.next.String(), 300))
					}
				}
			}
		}
		*resp = ex.runBody(ls, nil)
		if all && !changed {
			return
		}
		if all {
			// one more evaluation to make next/exits reflect the closed forms; also check new modifications
			if (*resp).back != nil {
				for id := range ls.st0.heap {
					if !mod[id] && (*resp).back.heap[id] != ls.st0.heap[id] {
						ex.fail("loop in %s modifies an unexpected object %s", ls.fn.Name(), ex.objs[id].name)
					}
				}
			}
			// inductive step for leaves solved as invariant
			return
		}
	}
}

var debugLoop = os.Getenv("GOVER_LOOP") != ""

// solveJoint: leaves without a closed form whose step only rearranges the elements: the value after k
// iterations is the initial value composed with an unknown permutation.
func (ex *Exec) solveJoint(ls *loopState, h []*Term) bool {
	for i, l := range ls.leaves() {
		if l.sol != nil || l.x.sort != SSeq {
			continue
		}
		init := l.init
		if init.sort == SRef {
			init = ex.purify(ls.st0, init, nil)
		}
		n := length(l.x)
		if length(l.next) != n && !ex.quick(h, eq(length(l.next), n)) {
			continue
		}
		p := fresh("p", SInt)
		es := elemSort(l.next)
		if es == SU {
			es = elemSort(init)
		}
		if permStep(at(l.next, p, es), func(t *Term) *Term {
			if t.op == OpAt && t.args[0] == l.x {
				return t.args[1]
			}
			return nil
		}) == nil {
			continue
		}
		li := length(init)
		as := []*Term{li}
		for _, o := range ex.loops {
			as = append(as, o.k)
		}
		as = append(as, ls.k)
		id := fmt.Sprintf("perm:%s/%d", ex.tag(), i)
		l.perm = func(q *Term) *Term { return at(init, app(id, SInt, append(append([]*Term{}, as...), q)...), es) }
		l.permID = id
		l.sol = lam(li, l.perm)
		return true
	}
	return false
}

// permStep maps an element of the next value to the position in the current value it is taken from.
func permStep(v *Term, pos func(*Term) *Term) *Term {
	if e := pos(v); e != nil {
		return e
	}
	if v.op == OpIte {
		a, b := permStep(v.args[1], pos), permStep(v.args[2], pos)
		if a == nil || b == nil {
			return nil
		}
		return ite(v.args[0], a, b)
	}
	if v.sort == SInt && v.op == OpPoly { // conditional differences are factored: undo
		if c := findIte(v); c != nil {
			a := permStep(newSubst(c, True).apply(v), pos)
			b := permStep(newSubst(c, False).apply(v), pos)
			if a == nil || b == nil {
				return nil
			}
			return ite(c, a, b)
		}
	}
	return nil
}

// checkPerm: the step is a rearrangement: its position map stays in range and is injective.
func (ex *Exec) checkPerm(ls *loopState, st *State, l *leaf) {
	init := l.init
	if init.sort == SRef {
		init = ex.purify(ls.st0, init, nil)
	}
	next := l.next
	if next.sort == SRef {
		next = ex.purify(st, next, nil)
	}
	n := length(init)
	ex.oblige(st, "invariant-step", 0, "rearranging keeps the length of "+l.name, eq(length(next), n))
	img := func(p *Term) *Term {
		return permStep(at(next, p, elemSort(init)), func(t *Term) *Term {
			var e *Term
			collect(t, func(u *Term) bool {
				if e == nil && u.op == OpApp && u.name == l.permID && u.args[len(u.args)-2] == ls.k && l.perm(u.args[len(u.args)-1]) == t {
					e = u.args[len(u.args)-1]
				}
				return e == nil
			})
			return e
		})
	}
	p, q := fresh("p", SInt), fresh("q", SInt)
	ip, iq := img(p), img(q)
	if ip == nil || iq == nil {
		ex.oblige(st, "invariant-step", 0, "loop step only rearranges "+l.name, False)
		return
	}
	s := st.clone()
	for _, x := range []*Term{p, q} {
		s.assume(le(mkInt(0), x))
		s.assume(lt(x, n))
	}
	ex.oblige(s, "invariant-step", 0, "rearranging "+l.name+" keeps every element", and(le(mkInt(0), ip), lt(ip, n)))
	ex.oblige(s, "invariant-step", 0, "rearranging "+l.name+" duplicates no element", or(eq(p, q), not(eq(ip, iq))))
}

// solveRec finds F(k) with F(0)=init and F(k+1)=next[x:=F(k)].
func (ex *Exec) solveRec(h []*Term, x, init, next, k *Term) *Term {
	if next == x || next == init {
		return init
	}
	switch x.sort {
	case SInt, SPt, SSc:
		d := sub(asSort(next, x.sort), x)
		if !occurs(x, d) {
			if !occurs(k, d) {
				return add(asSort(init, x.sort), mul(k, d))
			}
			y := fresh("j", SInt)
			return add(asSort(init, x.sort), asSort(sumX(k, y, asSort(newSubst(k, y).apply(d), x.sort)), x.sort))
		}
	case SBool:
		u1 := newSubst(x, True).apply(next)
		u0 := newSubst(x, False).apply(next)
		if u1 == True || ex.quick(h, u1) {
			y := fresh("j", SInt)
			b := newSubst(k, y).apply(u0)
			return or(init, not(forallX(k, y, not(b))))
		}
		if u0 == False || ex.quick(h, not(u0)) {
			y := fresh("j", SInt)
			b := newSubst(k, y).apply(u1)
			return and(init, forallX(k, y, b))
		}
	case SSeq:
		ps := catParts(next)
		if len(ps) > 0 && ps[0] == x {
			rest := cat(ps[1:]...)
			if !occurs(x, rest) {
				y := fresh("j", SInt)
				return cat(init, flatX(k, y, newSubst(k, y).apply(rest)))
			}
		}
		// one element accumulates
		if next.op == OpUpd && next.args[0] == x && !occurs(x, next.args[1]) && !occurs(k, next.args[1]) {
			c, v := next.args[1], next.args[2]
			y := fresh("Z", v.sort)
			if w := newSubst(at(x, c, v.sort), y).apply(v); !occurs(x, w) {
				if s := ex.solveRec(h, y, at(init, c, v.sort), w, k); s != nil {
					return upd(init, c, s)
				}
			}
		}
		if r := ex.solvePointwise(h, x, init, next, k); r != nil {
			return r
		}
	case SMap:
		if r := ex.solveMap(h, x, init, next, k); r != nil {
			return r
		}
	case SStruct:
		if next.op == OpMk {
			return ex.solveStruct(h, x, init, next, k)
		}
	}
	// conditional overwrite
	if r := ex.solveOverwrite(h, x, init, next, k); r != nil {
		return r
	}
	// full overwrite: value of the previous iteration
	if !occurs(x, next) {
		if !occurs(k, next) && x.sort != SRef {
			return ite(le0(k), init, next)
		}
		prev := newSubst(k, addI(k, -1)).apply(next)
		if init.sort == prev.sort {
			if init == newSubst(k, mkInt(0)).apply(prev) {
				return prev
			}
			ex.mA, ex.mB = nil, nil
			return ex.iteVal(le0(k), init, prev)
		}
	}
	return nil
}

func (ex *Exec) solveStruct(h []*Term, x, init, next, k *Term) *Term {
	n := len(next.args)
	var xs []*Term
	su := newSubst()
	var fx []*Term
	for i := 0; i < n; i++ {
		y := fresh("F", next.args[i].sort)
		xs = append(xs, y)
		fx = append(fx, fld(x, i, next.args[i].sort))
		su.m[fx[i]] = y
	}
	var sol []*Term
	done := newSubst()
	nx := make([]*Term, n)
	for i := 0; i < n; i++ {
		nx[i] = su.apply(next.args[i])
		if occurs(x, nx[i]) {
			return nil
		}
	}
	sol = make([]*Term, n)
	for round := 0; round <= n; round++ {
		prog := false
		for i := 0; i < n; i++ {
			if sol[i] != nil {
				continue
			}
			v := done.apply(nx[i])
			dep := false
			for j := range xs {
				if j != i && sol[j] == nil && occurs(xs[j], v) {
					dep = true
				}
			}
			if dep {
				continue
			}
			s := ex.solveRec(h, xs[i], fld(init, i, next.args[i].sort), v, k)
			if s == nil {
				return nil
			}
			sol[i] = s
			done = newSubst()
			for j := range xs {
				if sol[j] != nil {
					done.m[xs[j]] = sol[j]
				}
			}
			prog = true
		}
		if !prog {
			break
		}
	}
	for _, s := range sol {
		if s == nil {
			return nil
		}
	}
	return mkStruct("", sol...)
}

// solvePointwise treats the sequence element by element.
func (ex *Exec) solvePointwise(h []*Term, x, init, next, k *Term) *Term {
	p := fresh("p", SInt)
	es := elemSort(next)
	if es == SU {
		es = elemSort(init)
	}
	ln := length(x)
	nl := length(next)
	// uniform pure length
	li := length(init)
	if nl != ln && !(!occurs(x, nl) && (nl == li || ex.quick(h, eq(nl, li)))) && !ex.quick(h, eq(nl, ln)) {
		return nil
	}
	v := at(next, p, es)
	xp := at(x, p, v.sort)
	if v == xp {
		return init
	}
	z := fresh("Z", v.sort)
	su := newSubst(xp, z, ln, li)
	// all symbolic reads of x at p, whatever the recorded sort
	collect(v, func(t *Term) bool {
		if t.op == OpAt && t.args[0] == x && t.args[1] == p {
			su.m[t] = z
		}
		return true
	})
	v2 := su.apply(v)
	ip := at(init, p, v.sort)
	if occurs(x, v2) {
		// reads of other elements: allowed when provably not yet written (value = init)
		v3 := ex.resolveOther(h, x, init, next, v2, k, p)
		if v3 == nil {
			return nil
		}
		v2 = v3
	}
	hp := append(append([]*Term{}, h...), le(mkInt(0), p), lt(p, li))
	s := ex.solveElem(hp, z, ip, v2, k, p)
	if s == nil {
		return nil
	}
	return lamX(li, p, s)
}

// resolveOther handles reads x[e] with e != p: the element must be untouched by earlier iterations.
func (ex *Exec) resolveOther(h []*Term, x, init, next, v, k, p *Term) *Term {
	su := newSubst()
	ok := true
	collect(v, func(t *Term) bool {
		if t.op == OpAt && t.args[0] == x {
			e := t.args[1]
			// for every j<k the write at iteration j does not touch e
			j := fresh("j", SInt)
			C := ex.touched(newSubst(k, j).apply(next), x, e, t.sort)
			if C == nil || occurs(x, C) {
				ok = false
				return false
			}
			hh := append(append([]*Term{}, h...), le(mkInt(0), j), lt(j, k))
			if !ex.quick(hh, not(C)) {
				ok = false
				return false
			}
			su.m[t] = at(init, e, t.sort)
		}
		return true
	})
	if !ok {
		return nil
	}
	r := su.apply(v)
	if occurs(x, r) {
		return nil
	}
	return r
}

// touched is the condition under which element e of next differs from x[e].
func (ex *Exec) touched(next, x, e *Term, s Sort) *Term {
	v := at(next, e, s)
	xe := at(x, e, v.sort)
	return changedCond(v, xe)
}

func changedCond(v, z *Term) *Term {
	if v == z {
		return False
	}
	if v.op == OpIte {
		return ite(v.args[0], changedCond(v.args[1], z), changedCond(v.args[2], z))
	}
	if v.op == OpMk {
		var cs []*Term
		for i, a := range v.args {
			cs = append(cs, changedCond(a, fld(z, i, a.sort)))
		}
		return or(cs...)
	}
	if v.sort == SBool {
		if c := boolCond(v, z); c != nil {
			return c
		}
	}
	if v.sort.numeric() {
		d := sub(v, asSort(z, v.sort))
		if d.op == OpIte && isZero(d.args[1]) {
			return not(d.args[0])
		}
		if d.op == OpIte && isZero(d.args[2]) {
			return d.args[0]
		}
	}
	return True
}

// boolCond finds c with v = ite(c, W, z), z not in c.
func boolCond(v, z *Term) *Term {
	var cands []*Term
	fromOr := func(o *Term) {
		var rest []*Term
		hit := false
		for _, a := range o.args {
			if a == z {
				hit = true
			} else {
				rest = append(rest, a)
			}
		}
		if hit {
			cands = append(cands, or(rest...))
		}
	}
	switch v.op {
	case OpOr:
		fromOr(v)
	case OpAnd:
		var rest []*Term
		hit := false
		for _, a := range v.args {
			if a == z {
				hit = true
			} else {
				rest = append(rest, a)
				if a.op == OpOr {
					fromOr(a)
				}
			}
		}
		if hit {
			cands = append(cands, not(and(rest...)))
		}
	}
	for _, c := range cands {
		if occurs(z, c) {
			continue
		}
		W := resolveUnder(newSubst(c, True, not(c), False).apply(v), c)
		if occurs(z, W) {
			continue
		}
		if smtCheck(nil, eq(v, and(or(not(c), W), or(c, z))), 500) == "unsat" {
			return c
		}
	}
	return nil
}

func isZero(t *Term) bool { c, ok := constVal(t); return ok && c.Sign() == 0 }

// solveElem solves the recurrence of one element z (at position/key p).
func (ex *Exec) solveElem(h []*Term, z, init, v, k, p *Term) *Term {
	// overwrite with a recoverable iteration index first: gives the tightest form
	if r := ex.solveInverse(h, z, init, v, k, p); r != nil {
		return r
	}
	if v.op == OpMk {
		return ex.solveStruct(h, z, init, v, k)
	}
	if v.op == OpIte && v.sort == SStruct {
		// push struct fields out of the conditional
		n := structFields(v)
		if n > 0 {
			var fs []*Term
			srt := fieldSorts(v, n)
			for i := 0; i < n; i++ {
				fs = append(fs, fld(v, i, srt[i]))
			}
			m := mk(&Term{op: OpMk, sort: SStruct, args: fs})
			return ex.solveStruct(h, z, init, m, k)
		}
	}
	return ex.solveRec(h, z, init, v, k)
}

func structFields(v *Term) int {
	if v.op == OpMk {
		return len(v.args)
	}
	if v.op == OpIte {
		if n := structFields(v.args[1]); n > 0 {
			return n
		}
		return structFields(v.args[2])
	}
	return 0
}
func fieldSorts(v *Term, n int) []Sort {
	if v.op == OpMk {
		r := make([]Sort, n)
		for i := range r {
			r[i] = v.args[i].sort
		}
		return r
	}
	if structFields(v.args[1]) > 0 {
		return fieldSorts(v.args[1], n)
	}
	return fieldSorts(v.args[2], n)
}

// solveInverse: v = ite(C(k,p), W(z,k,p), z) where C determines k from p.
func (ex *Exec) solveInverse(h []*Term, z, init, v, k, p *Term) *Term {
	C := changedCond(v, z)
	if C == True || C == False || !occurs(k, C) {
		return nil
	}
	if occurs(z, C) {
		return nil
	}
	for _, t := range inverseCandidates(C, k, p) {
		if occurs(k, t) {
			continue
		}
		// C(j,p) & 0<=j  =>  j == t(p)
		j := fresh("j", SInt)
		Cj := newSubst(k, j).apply(C)
		hh := ex.dropK(h, k)
		hh = append(hh, le(mkInt(0), j))
		hh = append(hh, Cj)
		for _, x := range h {
			// bounds of the loop
			if x.op == OpLe0 && occurs(k, x) && !hasState(x) {
				hh = append(hh, newSubst(k, j).apply(x))
			}
		}
		if !ex.quick(hh, eq(j, t)) {
			continue
		}
		W := newSubst(C, True, not(C), False).apply(v)
		// W still holds z only through reads of the old element, which is the initial one
		W = newSubst(z, init, k, t).apply(resolveUnder(W, C))
		Ct := newSubst(k, t).apply(C)
		if t.op == OpApp && t.name == "kidx" {
			W = newSubst(keyAt(t.args[0], t.args[1], t, p.sort), p).apply(W)
		}
		return ite(and(le(mkInt(0), t), lt(t, k), Ct), W, init)
	}
	return nil
}

// intLog is w when p is w times the base point for an integer w.
func intLog(p *Term) *Term {
	q := divide(p, BasePt)
	if q == nil {
		return nil
	}
	ok := true
	for _, m := range toPolyMonos(q) {
		for _, a := range m.args {
			if a.sort != SInt {
				ok = false
			}
		}
	}
	if !ok {
		return nil
	}
	return asSort(q, SInt)
}

// hasState: t mentions the state of a loop in the middle of its iterations.
func hasState(t *Term) bool {
	f := false
	collect(t, func(u *Term) bool {
		if u.op == OpVar && strings.HasPrefix(u.name, "X:") {
			f = true
		}
		return !f
	})
	return f
}

// resolveUnder simplifies v assuming the conjuncts of C.
func resolveUnder(v, C *Term) *Term {
	cs := []*Term{C}
	if C.op == OpAnd {
		cs = C.args
	}
	s := newSubst()
	for _, c := range cs {
		if c.op == OpBool {
			continue
		}
		s.m[c] = True
		s.m[not(c)] = False
	}
	return s.apply(v)
}

// dropK removes hypotheses that mention the current iteration, keeping general facts.
func (ex *Exec) dropK(h []*Term, k *Term) []*Term {
	var o []*Term
	for _, t := range h {
		if !occurs(k, t) {
			o = append(o, t)
		}
	}
	return o
}

func inverseCandidates(C, k, p *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	addc := func(t *Term) {
		if t != nil && !seen[t] && t.sort == SInt {
			seen[t] = true
			out = append(out, t)
		}
	}
	var rec func(c *Term)
	lin := func(t *Term) (int64, *Term) {
		// t = a*k + r
		m := mkMono([]*Term{k})
		tp := toPoly(t)
		c, ok := tp.m[m]
		if !ok || !c.IsInt64() {
			return 0, nil
		}
		r := sub(t, scale(k, c))
		if occurs(k, r) {
			return 0, nil
		}
		return c.Int64(), r
	}
	rec = func(c *Term) {
		switch c.op {
		case OpAnd, OpOr:
			for _, a := range c.args {
				rec(a)
			}
		case OpNot:
			rec(c.args[0])
		case OpEq0, OpLe0:
			a, r := lin(c.args[0])
			if r != nil {
				if a == 1 {
					addc(neg(r))
				} else if a == -1 {
					addc(r)
				} else if a > 1 {
					addc(divF(neg(r), a))
				} else if a < -1 {
					addc(divF(r, -a))
				}
			}
			for _, m := range toPolyMonos(c.args[0]) {
				for _, at := range m.args {
					if at.op == OpApp && at.name == "keyat" && at.args[2] == k {
						addc(app("kidx", SInt, at.args[0], at.args[1], p))
					}
					if at.op == OpAt && at.args[1] == k {
						addc(app("seqinv", SInt, at.args[0], p))
					}
				}
			}
		case OpEq:
			for i, x := range c.args {
				y := c.args[1-i]
				if x.op == OpApp && x.name == "keyat" {
					if x.args[2] == k {
						addc(app("kidx", SInt, x.args[0], x.args[1], y))
					} else if a, r := lin(x.args[2]); r != nil && a == 1 {
						addc(sub(app("kidx", SInt, x.args[0], x.args[1], y), r))
					}
				}
			}
		}
	}
	rec(C)
	// the text of a point with one of two signs
	for _, a := range out {
		for _, b := range out {
			if a != b && hasApp(a, "dlog") && hasApp(b, "dlog") && len(out) < 6 {
				addc(ite(le(mkInt(0), a), a, b))
			}
		}
	}
	return out
}

// solveOverwrite: x' = ite(C(k), W, x) with W not depending on k or x.
func (ex *Exec) solveOverwrite(h []*Term, x, init, next, k *Term) *Term {
	if next.op != OpIte || occurs(x, next.args[0]) {
		return nil
	}
	c, a, b := next.args[0], next.args[1], next.args[2]
	if a == x {
		c, a, b = not(c), b, a
	}
	if b != x || occurs(x, a) {
		return nil
	}
	y := fresh("j", SInt)
	if !occurs(k, a) {
		return ite(not(forallX(k, y, not(newSubst(k, y).apply(c)))), a, init)
	}
	// last iteration satisfying c
	cs := []*Term{c}
	if c.op == OpAnd {
		cs = c.args
	}
	for _, e := range cs {
		if e.op != OpEq {
			continue
		}
		for i, kt := range e.args {
			q := e.args[1-i]
			if kt.op == OpApp && kt.name == "keyat" && kt.args[2] == k && !occurs(k, q) && !occurs(k, kt.args[1]) {
				return ite(not(forallX(k, y, not(newSubst(k, y).apply(c)))), newSubst(k, app("kidx", SInt, kt.args[0], kt.args[1], q)).apply(a), init)
			}
		}
	}
	last := lastBefore(k, func(j *Term) *Term { return newSubst(k, j).apply(c) })
	return ite(not(forallX(k, y, not(newSubst(k, y).apply(c)))), newSubst(k, last).apply(a), init)
}

// lastBefore(k, c) = greatest j<k with c(j): encoded as k-1-First(k, j -> c(k-1-j))
func lastBefore(k *Term, c func(*Term) *Term) *Term {
	f := first(k, func(j *Term) *Term { return c(sub(addI(k, -1), j)) })
	return sub(addI(k, -1), f)
}

func (ex *Exec) solveMap(h []*Term, x, init, next, k *Term) *Term {
	ks, vs := mapSorts(next)
	q := fresh("q", ks)
	hq, vq := mhas(next, q), mget(next, q, vs)
	zh := fresh("Zh", SBool)
	zv := fresh("Zv", vq.sort)
	su := newSubst()
	scan := func(t *Term) bool {
		if t.op == OpMHas && t.args[0] == x && t.args[1] == q {
			su.m[t] = zh
		}
		if t.op == OpMGet && t.args[0] == x && t.args[1] == q {
			su.m[t] = zv
		}
		return true
	}
	collect(hq, scan)
	collect(vq, scan)
	// reads at the key written in this iteration equal reads at q under the equality guard
	for _, kk := range writtenKeys(next, x) {
		kk := kk
		scan2 := func(t *Term) bool {
			if t.op == OpMHas && t.args[0] == x && t.args[1] == kk {
				su.m[t] = zh
			}
			if t.op == OpMGet && t.args[0] == x && t.args[1] == kk {
				su.m[t] = zv
			}
			return true
		}
		collect(vq, scan2)
		collect(hq, scan2)
		_ = scan2
	}
	h2, v2 := su.apply(hq), su.apply(vq)
	if occurs(x, h2) || occurs(x, v2) {
		return nil
	}
	ih, iv := mhas(init, q), mget(init, q, zv.sort)
	// has
	y := fresh("j", SInt)
	var hs *Term
	if r := ex.solveInverse(h, zh, ih, h2, k, q); r != nil {
		hs = r
	} else {
		hs = ex.solveRec(h, zh, ih, h2, k)
	}
	if hs == nil {
		return nil
	}
	_ = y
	var vsol *Term
	if !occurs(zh, v2) {
		vsol = ex.solveElem(h, zv, iv, v2, k, q)
	} else {
		// each key is touched in one iteration only, which finds what was there at the start
		if C := changedCond(v2, zv); !occurs(zh, C) && !occurs(zv, C) && resolveUnder(h2, not(C)) == zh {
			if r := ex.solveInverse(h, zv, iv, v2, k, q); r != nil {
				vsol = newSubst(zh, ih).apply(r)
			}
		}
	}
	if vsol == nil && occurs(zh, v2) {
		// first-insert-else-accumulate pattern
		vt := newSubst(zh, True).apply(v2)
		vf := newSubst(zh, False).apply(v2)
		zeroV := mapZero(vt, vf, zv)
		if init == EmptyMap && zeroV != nil {
			C := changedCond(vt, zv)
			if ex.quickEq(append(append([]*Term{}, h...), C), newSubst(zv, zeroV).apply(vt), vf) {
				vsol = ex.solveElem(h, zv, zeroV, vt, k, q)
			}
		}
		if vsol == nil {
			// value only matters when present: if absent-branch equals present-branch when overwritten
			if !occurs(zv, vf) && !occurs(zv, vt) && vt == vf {
				vsol = ex.solveElem(h, zv, iv, vt, k, q)
			}
		}
	}
	if vsol == nil {
		C, vt := guarded(newSubst(zh, True).apply(v2), zv)
		C2, vf := guarded(newSubst(zh, False).apply(v2), zv)
		if C != nil && C == C2 && !occurs(zh, C) && !occurs(zv, C) && !occurs(x, C) && !occurs(zv, vf) {
			j := fresh("j", SInt)
			f := &fold{ex: ex, k: k, C: C, ih: ih, none: forallX(k, j, not(newSubst(k, j).apply(C)))}
			f.first = first(k, func(j *Term) *Term { return newSubst(k, j).apply(C) })
			hh := append(append([]*Term{}, h...), C)
			vsol = f.solve(hh, zv, iv, vf, vt)
		}
	}
	if vsol == nil {
		C := newSubst(zh, False).apply(h2)
		if !occurs(zh, C) && !occurs(zv, C) && resolveUnder(h2, not(C)) == zh {
			j := fresh("j", SInt)
			f := &fold{ex: ex, k: k, C: C, ih: ih, none: forallX(k, j, not(newSubst(k, j).apply(C)))}
			f.first = first(k, func(j *Term) *Term { return newSubst(k, j).apply(C) })
			vsol = f.groups(h, zh, zv, iv, v2)
		}
	}
	if vsol == nil {
		return nil
	}
	return mlamX(q, hs, vsol)
}

// groups solves, part by part, values that are set when the key is new and added to when it is not:
// z' = ite(present, z, G) or z' = ite(present, z, 0) + S with S = 0 in iterations without C.
func (f *fold) groups(h []*Term, zh, z, iv, e *Term) *Term {
	switch e.op {
	case OpMk:
		fs := make([]*Term, len(e.args))
		for i, a := range e.args {
			if fs[i] = f.groups(h, zh, fld(z, i, a.sort), fld(iv, i, a.sort), a); fs[i] == nil {
				return nil
			}
		}
		return mkStruct(e.name, fs...)
	case OpLam:
		n := e.args[0]
		if occurs(z, n) || occurs(zh, n) || occurs(f.k, n) {
			return nil
		}
		p := fresh("p", SInt)
		b := open(e, p)[0]
		r := f.groups(append(append([]*Term{}, h...), le(mkInt(0), p), lt(p, n)), zh, at(z, p, b.sort), at(iv, p, b.sort), b)
		if r == nil {
			return nil
		}
		return lamX(n, p, r)
	}
	free := func(t *Term) bool { return !occurs(zh, t) && !occurs(z, t) }
	if e.op == OpIte && e.args[0] == zh && e.args[1] == z && free(e.args[2]) {
		return ite(f.ih, iv, newSubst(f.k, f.first).apply(e.args[2]))
	}
	switch e.sort {
	case SInt, SPt, SSc:
		S := sub(e, ite(zh, z, zero(e.sort)))
		if !free(S) || !f.ex.quickEq(append(append([]*Term{}, h...), not(f.C)), S, zero(e.sort)) {
			return nil
		}
		j := fresh("j", SInt)
		return add(ite(f.ih, iv, zero(e.sort)), sumX(f.k, j, newSubst(f.k, j).apply(S)))
	}
	if debugLoop {
		fmt.Fprintf(os.Stderr, "  groups: %s\n", clip(e.String(), 600))
	}
	return nil
}

// guarded splits v = ite(C, w, z).
func guarded(v, z *Term) (C, w *Term) {
	if v.op != OpIte {
		return nil, nil
	}
	c, a, b := v.args[0], v.args[1], v.args[2]
	if a == z {
		c, a, b = not(c), b, a
	}
	if b != z {
		return nil, nil
	}
	if c2, w2 := guarded(a, z); c2 != nil {
		return and(c, c2), w2
	}
	return c, a
}

// fold solves z' = ite(C, ite(present, vt(z), vf), z) where present means that C held before (or ih).
type fold struct {
	ex       *Exec
	k, C, ih *Term
	none     *Term // C has not held before
	first    *Term // the first iteration in which C holds
}

func (f *fold) at(t, j *Term) *Term { return newSubst(f.k, j).apply(t) }

func (f *fold) solve(h []*Term, z, iv, vf, vt *Term) *Term {
	vf, vt = f.simp(h, vf), f.simp(h, vt)
	if vt == z {
		return ite(f.ih, iv, f.at(vf, f.first))
	}
	switch z.sort {
	case SInt, SPt, SSc:
		d := sub(asSort(vt, z.sort), z)
		if occurs(z, d) {
			return nil
		}
		c := sub(asSort(vf, z.sort), d)
		if occurs(f.k, c) {
			return nil
		}
		j := fresh("j", SInt)
		s := sumX(f.k, j, f.at(ite(f.C, d, zero(z.sort)), j))
		return add(ite(f.ih, asSort(iv, z.sort), c), asSort(s, z.sort))
	case SStruct:
		n := structFields(vf)
		if n == 0 || vf.op != OpMk {
			n = structFields(vt)
			if n == 0 {
				return nil
			}
		}
		v := vf
		if vf.op != OpMk {
			v = vt
		}
		if v.op != OpMk {
			return nil
		}
		su := newSubst()
		zs := make([]*Term, n)
		for i := range zs {
			zs[i] = fresh("F", v.args[i].sort)
			su.m[fld(z, i, v.args[i].sort)] = zs[i]
		}
		var out []*Term
		for i := range zs {
			s := v.args[i].sort
			t := su.apply(fld(vt, i, s))
			if occurs(z, t) {
				return nil
			}
			for j := range zs {
				if j != i && occurs(zs[j], t) {
					return nil
				}
			}
			r := f.solve(h, zs[i], fld(iv, i, s), fld(vf, i, s), t)
			if r == nil {
				return nil
			}
			out = append(out, r)
		}
		return mkStruct("", out...)
	case SSeq:
		lf, lt0 := length(vf), length(vt)
		N := ite(f.ih, length(iv), f.at(lf, f.first))
		lz := length(z)
		nv := fresh("N", SInt)
		hn := append(append([]*Term{}, h...), le(mkInt(0), nv))
		// inductive: earlier matches had this length
		if f.ih != True {
			j := fresh("j", SInt)
			hj := append(append([]*Term{}, h...), le(mkInt(0), j), lt(j, f.k), f.at(f.C, j))
			if !f.ex.quick(hj, eq(f.at(lf, j), newSubst(lz, f.at(lf, j)).apply(lt0))) {
				return nil
			}
		}
		if f.ih != False && !f.ex.quick(append(append([]*Term{}, h...), f.ih), eq(length(iv), newSubst(lz, length(iv)).apply(lt0))) {
			return nil
		}
		hn = append(hn, eq(nv, lf), eq(nv, lt0))
		es := elemSort(vf)
		p := fresh("p", SInt)
		hn = append(hn, le(mkInt(0), p), lt(p, nv))
		t := f.simp(hn, at(newSubst(lz, nv).apply(vt), p, es))
		zp := at(z, p, t.sort)
		e := fresh("Z", t.sort)
		su := newSubst(zp, e)
		collect(t, func(u *Term) bool {
			if u.op == OpAt && u.args[0] == z && u.args[1] == p {
				su.m[u] = e
			}
			return true
		})
		t = su.apply(t)
		if occurs(z, t) {
			return nil
		}
		r := f.solve(hn, e, at(iv, p, t.sort), at(vf, p, t.sort), t)
		if r == nil {
			return nil
		}
		r = newSubst(nv, N).apply(r)
		return lamX(N, p, r)
	}
	if vt == vf && !occurs(z, vt) {
		return nil
	}
	return nil
}

// simp decides the conditions in v.
func (f *fold) simp(h []*Term, v *Term) *Term {
	for i := 0; i < 40; i++ {
		hit := false
		var cs []*Term
		collect(v, func(t *Term) bool {
			if t.op == OpIte && !hasBV(t.args[0]) {
				cs = append(cs, t.args[0])
			}
			return true
		})
		for _, c := range cs {
			if f.ex.quick(h, c) {
				v, hit = condSubst(c, true).apply(v), true
			} else if f.ex.quick(h, not(c)) {
				v, hit = condSubst(c, false).apply(v), true
			}
			if hit {
				break
			}
		}
		if !hit {
			break
		}
	}
	return v
}

func (ex *Exec) quickEq(h []*Term, a, b *Term) bool {
	if a == b {
		return true
	}
	return ex.prove(h, eq(a, b)).ok
}

func mapZero(vt, vf, zv *Term) *Term {
	switch zv.sort {
	case SInt, SPt, SSc:
		return zero(zv.sort)
	case SSeq:
		return EmptySeq
	}
	return nil
}

func mapSorts(m *Term) (Sort, Sort) {
	ks, vs := SSeq, SU
	collect(m, func(t *Term) bool {
		switch t.op {
		case OpMUpd:
			ks = t.args[1].sort
			vs = t.args[2].sort
			return false
		case OpMDel:
			ks = t.args[1].sort
		case OpMLam:
			ks = t.bsrt
			x := fresh("q", ks)
			vs = open(t, x)[1].sort
			return false
		}
		return true
	})
	return ks, vs
}

func writtenKeys(next, x *Term) []*Term {
	var out []*Term
	collect(next, func(t *Term) bool {
		if t.op == OpMUpd && !hasBV(t.args[1]) {
			out = append(out, t.args[1])
		}
		return true
	})
	return out
}

// ---------------------------------------------------------------- exits

// trip: returns K such that the stay condition holds exactly for k < K (K may be negative: clip to 0).
func (ex *Exec) trip(h []*Term, stay, k *Term) *Term {
	cs := []*Term{stay}
	if stay.op == OpAnd {
		cs = stay.args
	}
	var K *Term
	for _, c := range cs {
		if !occurs(k, c) {
			return nil
		}
		if c.op != OpLe0 {
			return nil
		}
		tp := toPoly(c.args[0])
		co, ok := tp.m[mkMono([]*Term{k})]
		if !ok || co.Sign() <= 0 || !co.IsInt64() {
			return nil
		}
		r := sub(c.args[0], scale(k, co))
		if occurs(k, r) {
			return nil
		}
		// co*k + r <= 0 <=> k <= floor(-r/co)
		kc := addI(divF(neg(r), co.Int64()), 1)
		if K == nil {
			K = kc
		} else {
			if ex.quick(h, le(K, kc)) {
				continue
			}
			if ex.quick(h, le(kc, K)) {
				K = kc
				continue
			}
			K = ite(le(K, kc), K, kc)
		}
	}
	return K
}

func (ex *Exec) finishLoop(ls *loopState, res *bodyResult) ([]edge, []outcome) {
	k := ls.k
	h0 := ls.st0.hyps()
	type exitInfo struct {
		e     edge
		o     *outcome
		g     *Term
		early bool
	}
	var xs []*exitInfo
	for i := range res.exits {
		g := and(res.exits[i].st.guard[res.base:]...)
		xs = append(xs, &exitInfo{e: res.exits[i], g: g})
	}
	for i := range res.outs {
		g := and(res.outs[i].st.guard[res.base:]...)
		xs = append(xs, &exitInfo{o: &res.outs[i], g: g})
	}
	// normal exits: repeatedly extract stay conditions. The exit guards are nested (earlier checks true).
	var K *Term
	stayKnown := []*Term{}
	for _, x := range xs {
		// guard simplified under known stay conditions
		g := x.g
		if len(stayKnown) > 0 {
			g = resolveUnder(g, and(stayKnown...))
		}
		if x.o != nil {
			x.early = true
			continue
		}
		kc := ex.trip(h0, not(g), k)
		if kc == nil {
			x.early = true
			continue
		}
		stayKnown = append(stayKnown, not(g))
		if K == nil {
			K = kc
		} else if ex.quick(h0, le(K, kc)) {
		} else if ex.quick(h0, le(kc, K)) {
			K = kc
		} else {
			K = ite(le(K, kc), K, kc)
		}
	}
	if K == nil {
		if debugLoop {
			for _, x := range xs {
				fmt.Fprintln(os.Stderr, "  exit", x.g, x.o != nil)
			}
			for _, x := range h0 {
				fmt.Fprintln(os.Stderr, "  h", x)
			}
		}
		return ex.untilLoop(ls, res)
	}
	if !ex.quick(h0, le(mkInt(0), K)) {
		if ex.quick(h0, le(K, mkInt(0))) {
			K = mkInt(0)
		} else {
			K = ite(le(mkInt(0), K), K, mkInt(0))
		}
	}
	stay := and(stayKnown...)
	var earlyGuards []*Term
	for _, x := range xs {
		if x.early {
			x.g = resolveUnder(x.g, stay)
			earlyGuards = append(earlyGuards, x.g)
		}
	}
	X := or(earlyGuards...) // some early exit is taken in iteration k (given k<K)
	if debugLoop {
		fmt.Fprintln(os.Stderr, "EARLY", X)
	}
	// ---- final, recorded run of a generic iteration
	noEarlyBefore := func(n *Term) *Term {
		if X == False {
			return True
		}
		y := fresh("j", SInt)
		return forallX(n, y, not(newSubst(k, y).apply(X)))
	}
	accMark := len(ex.acc)
	ls.order = ex.seq
	fin := ex.runBody(ls, []*Term{lt(k, K), noEarlyBefore(k)})
	ex.closeAccesses(ls, accMark, K)
	ex.checkLoop(ls, fin, K)

	// general facts learned inside iterations, quantified
	var gen []*Term
	if fin.back != nil {
		gd := and(fin.back.guard[fin.base:]...)
		for _, f := range fin.back.facts[fin.facts:] {
			if !occurs(k, f) || f.op == OpLe0 && f == le(mkInt(0), k) {
				continue
			}
			if f == lt(k, K) || f == noEarlyBefore(k) {
				continue
			}
			if termSize(f, 200) >= 200 {
				continue
			}
			if X == False {
				y := fresh("j", SInt)
				gen = append(gen, forallX(K, y, newSubst(k, y).apply(implies(gd, f))))
			}
		}
	}
	// ---- exit states: re-evaluate the partial last iteration
	var exits []edge
	var outs []outcome
	finExit := func(st *State, at *Term, guard *Term, extraFacts []*Term) *State {
		n := ex.substState(ls, st, k, at)
		n.guard = append([]*Term{}, ls.st0.guard...)
		n.branch(guard)
		n.facts = append([]*Term{}, ls.st0.facts...)
		for _, f := range gen {
			n.assume(f)
		}
		for _, f := range extraFacts {
			n.assume(f)
		}
		su := newSubst(k, at)
		for _, f := range st.facts[res.facts:] {
			nf := su.apply(f)
			if nf.op == OpBool {
				continue
			}
			n.assume(nf)
		}
		return n
	}
	noEarly := noEarlyBefore(K)
	exists := not(noEarly)
	var kf *Term
	var kfFacts []*Term
	if X != False {
		y := fresh("j", SInt)
		kf = firstX(K, y, newSubst(k, y).apply(X))
		kfFacts = []*Term{le(mkInt(0), kf), lt(kf, K), newSubst(k, kf).apply(X), forallX(kf, y, not(newSubst(k, y).apply(X)))}
	}
	nNormal := 0
	for _, x := range xs {
		if !x.early {
			nNormal++
		}
	}
	// exit states come from `res` (quiet run); rerun the header part at k=K with recording on
	for _, x := range xs {
		if x.early {
			g := and(exists, newSubst(k, kf).apply(x.g))
			if len(earlyGuards) == 1 {
				g = exists
			}
			if g == False {
				continue
			}
			if x.o != nil {
				st := finExit(x.o.st, kf, g, kfFacts)
				su := newSubst(k, kf)
				rs := make([]*Term, len(x.o.res))
				for i, r := range x.o.res {
					rs[i] = su.apply(r)
				}
				outs = append(outs, outcome{st, rs})
			} else {
				exits = append(exits, edge{x.e.from, x.e.to, finExit(x.e.st, kf, g, kfFacts)})
			}
			continue
		}
		g := newSubst(k, K).apply(x.g)
		if nNormal == 1 {
			g = True
		}
		g = and(noEarly, g)
		if ex.quickFalse(ls.st0, g) {
			continue
		}
		st := finExit(x.e.st, K, g, nil)
		ex.tidy(ls, st)
		ex.nameMaps(ls, st)
		exits = append(exits, edge{x.e.from, x.e.to, st})
	}
	return exits, outs
}

// nameMaps gives the maps which an outermost loop computes names of their own, for contracts that ask for it: what comes
// after is executed with the names, and a proof that does not get along with them puts what they stand for.
func (ex *Exec) nameMaps(ls *loopState, st *State) {
	if ex.ctr == nil || ex.ctr.opts["name"] != "maps" || ls.lc.parent != nil {
		return
	}
	for _, id := range ls.objs {
		t, l := st.heap[id], ls.objLv[id]
		m, ok := types.Unalias(ex.objs[id].typ).Underlying().(*types.Map)
		if !ok || t == nil || t.op != OpMLam || len(l) != 1 {
			continue
		}
		n := fresh("map", SMap)
		ex.named = append(ex.named, [2]*Term{n, t})
		for _, path := range ls.mapLen[id] {
			if v := valLen[shapeKey{l[0].x, path.name}]; v != nil {
				valLen[shapeKey{n, path.name}] = v
			}
		}
		q := fresh("q", sortOf(m.Key()))
		if v := keyLengths(mhas(t, q), q); v != nil {
			keyLen[n] = v
		}
		if i := l[0].init; i.sort == SMap && someKeys[dom(i)] && ex.quick(nil, mhas(t, keyAt(i, mkInt(0), mkInt(0), q.sort))) {
			someKeys[n] = true
		}
		if os.Getenv("GOVER_NAME") != "" {
			fmt.Fprintln(os.Stderr, "NAME", n, someKeys[n], keyLen[n], mhas(t, keyAt(l[0].init, mkInt(0), mkInt(0), q.sort)))
		}
		st.heap[id] = n
	}
}

// keyLengths is the length which q has if the condition c, that it is a key of some map, says so.
func keyLengths(c, q *Term) *Term {
	switch c.op {
	case OpOr:
		var r *Term
		for _, a := range c.args {
			n := keyLengths(a, q)
			if n == nil || r != nil && n != r {
				return nil
			}
			r = n
		}
		return r
	case OpMHas:
		if c.args[1] == q {
			return keyLen[dom(c.args[0])]
		}
	case OpEq:
		for i, a := range c.args {
			if a == q && !occurs(q, c.args[1-i]) {
				if n := length(c.args[1-i]); !hasBV(n) {
					return n
				}
			}
		}
	case OpNot:
		if f := c.args[0]; f.op == OpForall {
			x := fresh("x", SInt)
			if n := keyLengths(not(open(f, x)[0]), q); n != nil && !occurs(x, n) {
				return n
			}
		}
	}
	return nil
}

func termSize(t *Term, max int) int {
	n := 0
	collect(t, func(*Term) bool { n++; return n < max })
	return n
}

func (ex *Exec) quickFalse(st *State, g *Term) bool {
	if g == False {
		return true
	}
	if g == True {
		return false
	}
	return ex.quick(st.hyps(), not(g))
}

// substState replaces the iteration symbol in a state and gives loop-built slices their own backing.
func (ex *Exec) substState(ls *loopState, st *State, k, v *Term) *State {
	n := st.clone()
	su := newSubst(k, v)
	for x, t := range n.env {
		if _, ok := ls.st0.env[x]; ok && n.env[x] == ls.st0.env[x] {
			continue
		}
		n.env[x] = su.apply(t)
	}
	for id, t := range n.heap {
		if o, ok := ls.st0.heap[id]; ok && o == t {
			continue
		}
		n.heap[id] = su.apply(t)
	}
	for i := range n.defers {
		d := &n.defers[i]
		d.guard = su.apply(d.guard)
		for j := range d.args {
			d.args[j] = su.apply(d.args[j])
		}
		if d.fnv != nil {
			d.fnv = su.apply(d.fnv)
		}
	}
	// slices accumulated by append become owned objects again
	rehome := map[*Term]*Term{}
	fix := func(t *Term, typ types.Type) *Term {
		if typ == nil || t.sort != SSeq {
			return t
		}
		sl, ok := types.Unalias(typ).Underlying().(*types.Slice)
		if !ok {
			return t
		}
		if r, ok := rehome[t]; ok {
			return r
		}
		o := ex.newObj(types.NewSlice(sl.Elem()), "grown")
		o.scope = ls.lc.parent
		n.heap[o.id] = t
		l := length(t)
		r := mkRef(&SliceRef{o.id, nil, mkInt(0), l, l, 0, nil})
		rehome[t] = r
		return r
	}
	for _, p := range ls.phis {
		if t, ok := n.env[p]; ok && t.sort == SSeq {
			n.env[p] = fix(t, p.Type())
		}
	}
	return n
}

// tidy drops, in the arrays the loop filled, the range conditions that hold once the loop is over.
func (ex *Exec) tidy(ls *loopState, st *State) {
	h := st.hyps()
	do := func(t *Term) *Term {
		if t.op != OpLam || t.args[0].sort != SInt {
			return t
		}
		p := fresh("p", SInt)
		b := open(t, p)
		n, v := t.args[0], b[0]
		hh := append(append([]*Term{}, h...), le(mkInt(0), p), lt(p, n))
		for round := 0; round < 12; round++ {
			hit := false
			tried := 0
			collect(v, func(u *Term) bool {
				if hit || tried > 12 || isBinder(u.op) {
					return false
				}
				if (u.op == OpLe0 || u.op == OpEq0) && u.args[0].sort == SInt && occurs(p, u) && !hasBV(u) {
					tried++
					if ex.quick(hh, u) {
						v, hit = condSubst(u, true).apply(v), true
					}
				}
				return !hit
			})
			if !hit {
				break
			}
		}
		if v == b[0] {
			return t
		}
		return lamX(n, p, v)
	}
	for id, t := range st.heap {
		if ls.st0.heap[id] != t {
			st.heap[id] = do(t)
		}
	}
}

// neverEntered tells whether a simple header leaves the loop at once.
func (ex *Exec) neverEntered(ls *loopState) bool {
	h := ls.li.h
	for _, ins := range h.Instrs {
		switch ins.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.DebugRef:
		default:
			return false
		}
	}
	ex.quiet++
	defer func() { ex.quiet-- }()
	st := ls.st0.clone()
	exits, backs, outs := ex.run(ls.fn, []edge{{nil, h, st}}, &loopInfo{h: h, blocks: map[*ssa.BasicBlock]bool{h: true}})
	if len(backs)+len(outs) > 0 {
		return false
	}
	for _, e := range exits {
		if ls.li.blocks[e.to] {
			return false
		}
	}
	return true
}

func (ex *Exec) runOnce(ls *loopState) ([]edge, []outcome) {
	st := ls.st0.clone()
	exits, backs, outs := ex.run(ls.fn, []edge{{nil, ls.li.h, st}}, ls.li)
	if len(backs) > 0 {
		ex.fail("loop in %s iterates unexpectedly", ls.fn.Name())
	}
	return exits, outs
}

// checkLoop re-validates the closed forms as invariants: initially true and preserved by the body.
func (ex *Exec) checkLoop(ls *loopState, fin *bodyResult, K *Term) {
	if ex.quiet > 0 || fin.back == nil {
		return
	}
	for p, v := range ls.fixed {
		if fin.back.env[p] != v {
			ex.fail("loop in %s: pointer %s changes", ls.fn.Name(), p.Name())
		}
	}
	ex.nextOf(ls, fin)
	for _, l := range ls.leaves() {
		if l.perm != nil {
			ex.checkPerm(ls, fin.back, l)
			continue
		}
		init := l.init
		sol0 := newSubst(ls.k, mkInt(0)).apply(l.sol)
		if l.x.sort == SSeq && init.sort == SRef {
			init = ex.purify(ls.st0, init, nil)
		}
		if (l.x.sort == SPt || l.x.sort == SSc) && init.sort == SRef {
			init = ex.pval(ls.st0, init)
		}
		if sol0.sort == SRef && init.sort == SSeq {
			sol0 = ex.purify(ls.st0, sol0, nil)
		}
		if sol0.sort == SRef && (init.sort == SPt || init.sort == SSc) {
			sol0 = ex.pval(ls.st0, sol0)
		}
		ex.obligeEq(ls.st0, "invariant-init", "loop invariant for "+l.name+" holds initially", sol0, init)
		solN := newSubst(ls.k, addI(ls.k, 1)).apply(l.sol)
		next := l.next
		if solN.sort == SRef && next.sort == SSeq {
			solN = ex.purify(fin.back, solN, nil)
		}
		if next.sort == SRef && solN.sort == SSeq {
			next = ex.purify(fin.back, next, nil)
		}
		if solN.sort == SRef && (next.sort == SPt || next.sort == SSc) {
			solN = ex.pval(fin.back, solN)
		}
		ex.obligeEq(fin.back, "invariant-step", "loop invariant for "+l.name+" is preserved", next, solN)
	}
}

func (ex *Exec) obligeEq(st *State, kind, desc string, a, b *Term) {
	if a == b {
		ex.oblige(st, kind, 0, desc, True)
		return
	}
	s2 := st.clone()
	g := eq(a, b)
	if a.sort == SMap && b.sort == SMap && g.op == OpEq {
		ks, vs := mapSorts(a)
		q := fresh("q", ks)
		ex.oblige(s2, kind, 0, desc, eq(mhas(a, q), mhas(b, q)))
		s3 := st.clone()
		s3.assume(mhas(a, q))
		va := mget(a, q, vs)
		ex.oblige(s3, kind, 0, desc, eq(va, mget(b, q, va.sort)))
		return
	}
	ex.oblige(s2, kind, 0, desc, g)
}

// untilLoop handles loops whose only exit is a data-dependent condition.
func (ex *Exec) untilLoop(ls *loopState, res *bodyResult) ([]edge, []outcome) {
	ex.fail("loop in %s: no trip count", ls.fn.Name())
	return nil, nil
}

var bigOne = big.NewInt(1)

func hasApp(t *Term, name string) bool {
	f := false
	collect(t, func(u *Term) bool {
		if u.op == OpApp && u.name == name {
			f = true
		}
		return !f
	})
	return f
}
