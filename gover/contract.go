package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Contract is one ghost function: preconditions, a call of the real code, postconditions.
type Contract struct {
	fn    *ssa.Function
	pkg   string
	name  string
	props []string
	doc   string
	opts  map[string]string
}

var dirRe = regexp.MustCompile(`^//verif:(\w+)\s*(.*)$`)

// contractsOf lists the contract functions of the loaded packages.
func (p *Program) contractsOf() []*Contract {
	var out []*Contract
	for _, pk := range p.pkgs {
		sp := p.spkgs[pk.PkgPath]
		if sp == nil {
			continue
		}
		for _, f := range pk.Syntax {
			fn := p.fset.Position(f.Pos()).Filename
			if !strings.Contains(fn, "zz_verif") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || fd.Doc == nil {
					continue
				}
				if !strings.HasPrefix(fd.Name.Name, "Contract_") && !strings.HasPrefix(fd.Name.Name, "Lemma_") {
					continue
				}
				c := &Contract{pkg: pk.PkgPath, name: fd.Name.Name, opts: map[string]string{}}
				for _, l := range fd.Doc.List {
					if m := dirRe.FindStringSubmatch(l.Text); m != nil {
						switch m[1] {
						case "property":
							for _, x := range strings.FieldsFunc(m[2], func(r rune) bool { return r == ',' || r == ' ' }) {
								c.props = append(c.props, x)
							}
						default:
							c.opts[m[1]] = m[2]
						}
						continue
					}
					c.doc += strings.TrimSpace(strings.TrimPrefix(l.Text, "//")) + " "
				}
				c.fn = sp.Func(fd.Name.Name)
				if c.fn == nil {
					continue
				}
				out = append(out, c)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].pkg != out[j].pkg {
			return out[i].pkg < out[j].pkg
		}
		return out[i].name < out[j].name
	})
	return out
}

// find resolves "Func" or "Type.Method" in a package.
func (p *Program) find(pkg, name string) *ssa.Function {
	sp := p.spkgs[pkg]
	if i := strings.IndexByte(name, '.'); i >= 0 {
		o := sp.Pkg.Scope().Lookup(name[:i])
		if o == nil {
			return nil
		}
		for _, t := range []types.Type{types.NewPointer(o.Type()), o.Type()} {
			if sel := p.ssa.MethodSets.MethodSet(t).Lookup(sp.Pkg, name[i+1:]); sel != nil {
				return p.ssa.FuncValue(sel.Obj().(*types.Func))
			}
		}
		return nil
	}
	return sp.Func(name)
}

func newExec(p *Program, cs []*Contract) *Exec {
	natural = map[*Term]bool{}
	openMemo, offsetMemo, partMemo = map[[2]*Term]*Term{}, map[*Term][]*Term{}, map[*Term][]partPattern{}
	keyLen, valLen, someKeys = map[*Term]*Term{}, map[shapeKey]*Term{}, map[*Term]bool{}
	ex := &Exec{prog: p, globals: map[*ssa.Global]int{}, seenObl: map[string]*Obligation{}, loopInfos: map[*ssa.Function]*fnLoops{},
		assumed: map[string]bool{}, inlined: map[string]bool{}, applied: map[string]bool{},
		unknown: map[string]bool{}, warn: map[string]bool{}, accOn: true}
	return ex
}

// ctrResult is the outcome of verifying one contract.
type ctrResult struct {
	c       *Contract
	obls    []*Obligation
	err     string
	inlined []string
	applied []string
	assumed []string
	secs    float64
}

func (r *ctrResult) ok() bool {
	if r.err != "" {
		return false
	}
	for _, o := range r.obls {
		if !o.OK {
			return false
		}
	}
	return true
}

// rangeFacts states the machine range of unsigned and small integer inputs.
func rangeFacts(st *State, t types.Type, v *Term) {
	if sortOf(t) == SInt && v.sort == SInt {
		if _, ok := t.Underlying().(*types.Basic); ok {
			lo, hi, ok := intRange(t)
			if ok {
				st.assume(le(mkBig(lo, SInt), v))
				st.assume(le(v, mkBig(hi, SInt)))
			}
		}
	}
}

func verify(p *Program, cs []*Contract, c *Contract) (r *ctrResult) {
	t0 := time.Now()
	ex := newExec(p, cs)
	ex.ctr = c
	ex.curFn = c.name
	r = &ctrResult{c: c}
	defer func() {
		r.secs = time.Since(t0).Seconds()
		r.obls = ex.obls
		r.inlined = sortedKeys(ex.inlined)
		r.applied = sortedKeys(ex.applied)
		r.assumed = sortedKeys(ex.assumed)
		if x := recover(); x != nil {
			if u, ok := x.(unsupported); ok {
				r.err = u.msg
				return
			}
			if debug {
				panic(x)
			}
			r.err = fmt.Sprintf("internal: %v", x)
		}
	}()
	st := newState()
	var args []*Term
	for _, prm := range c.fn.Params {
		v := ex.symVal(st, prm.Type(), prm.Name())
		rangeFacts(st, prm.Type(), v)
		args = append(args, v)
	}
	ob := ex.newObj(types.NewSlice(types.NewInterfaceType(nil, nil)), "outbox")
	st.heap[ob.id] = EmptySeq
	ex.outbox = ob.id + 1
	ex.preHeap = map[int]*Term{}
	for k, v := range st.heap {
		ex.preHeap[k] = v
	}
	ex.preState = st.clone()
	ex.modified = map[int]bool{}
	ex.calleeSpecs(c)
	ex.root = c.fn
	ex.callFn(st, c.fn, args, nil)
	// vacuity guard
	if st.dead() || ex.quick(st.hyps(), False) {
		ex.oblige(newState(), "vacuity", c.fn.Pos(), "the contract's preconditions and paths are satisfiable", False)
	} else {
		ex.oblige(st, "vacuity", c.fn.Pos(), "the contract's preconditions and paths are satisfiable", True)
	}
	for _, t := range ex.openTasks {
		if !ex.allowOpen {
			ex.oblige(st, "join", t.site, "every goroutine is joined before the result is used", False)
		}
	}
	if len(st.locks) > 0 {
		ex.oblige(st, "lock", c.fn.Pos(), "all locks released: "+strings.Join(st.locks, ","), False)
	}
	ex.curPos = c.fn.Pos()
	// frame
	ids := []int{}
	for id := range st.heap {
		if ex.objs[id].param && !ex.modified[id] {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := ex.objs[id]
		pre, ok := ex.preHeap[id]
		if !ok {
			pre = ex.globalPre[id]
			if pre == nil {
				continue
			}
		}
		post := st.heap[id]
		if pre == post {
			ex.oblige(st, "frame", token.NoPos, "unchanged: "+o.name, True)
			continue
		}
		a, b := ex.purify(ex.preState, pre, nil), ex.purify(st, post, nil)
		ex.oblige(st, "frame", token.NoPos, "unchanged: "+o.name, ex.sameTerm(a, b))
	}
	return
}

// sameTerm is structural equality of two pure values.
func (ex *Exec) sameTerm(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort == SRef && b.sort != SRef {
		a = coerceNil(a, b.sort)
	}
	if b.sort == SRef && a.sort != SRef {
		b = coerceNil(b, a.sort)
	}
	if a.sort == SRef && b.sort == SRef {
		ba, ok1 := a.ref.(*BoxRef)
		bb, ok2 := b.ref.(*BoxRef)
		if ok1 && ok2 {
			return ex.sameTerm(ba.val, bb.val)
		}
		ia, ok1 := a.ref.(*IfaceRef)
		ib, ok2 := b.ref.(*IfaceRef)
		if ok1 && ok2 && types.Identical(ia.typ, ib.typ) {
			return ex.sameTerm(ia.val, ib.val)
		}
		if a.op == OpIte {
			return ite(a.args[0], ex.sameTerm(a.args[1], b), ex.sameTerm(a.args[2], b))
		}
		if b.op == OpIte {
			return ite(b.args[0], ex.sameTerm(a, b.args[1]), ex.sameTerm(a, b.args[2]))
		}
		return mkBool(a == b)
	}
	if a.sort == SStruct && a.op == OpMk && b.op == OpMk && len(a.args) == len(b.args) {
		r := True
		for i := range a.args {
			r = and(r, ex.sameTerm(a.args[i], b.args[i]))
		}
		return r
	}
	if a.sort != b.sort && !(a.sort.numeric() && b.sort.numeric()) {
		return False
	}
	return eq(a, b)
}

// markModified records every object reachable from v.
func (ex *Exec) markModified(st *State, v *Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	visit := func(id int) {
		if ex.modified[id] {
			return
		}
		ex.modified[id] = true
		if c, ok := st.heap[id]; ok {
			rec(c)
		}
	}
	rec = func(t *Term) {
		if t == nil || seen[t] || !hasRef(t) {
			return
		}
		seen[t] = true
		switch r := t.ref.(type) {
		case *PtrRef:
			visit(r.obj)
		case *SliceRef:
			visit(r.obj)
		case *MapRef:
			visit(r.obj)
		case *IfaceRef:
			rec(r.val)
		case *BoxRef:
			rec(r.val)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(v)
}

// closure evaluates a spec closure on the given arguments without recording obligations.
func (ex *Exec) closure(st *State, f *Term, args []*Term, extra ...*Term) *Term {
	cr, ok := f.ref.(*CloRef)
	if !ok {
		ex.fail("spec closure %s", clip(f.String(), 60))
	}
	ex.quiet++
	saved := ex.accOn
	ex.accOn = false
	defer func() { ex.quiet--; ex.accOn = saved }()
	s := st.clone()
	for _, e := range extra {
		s.assume(e)
	}
	rs := ex.callFn(s, cr.fn, args, cr.binds)
	return ex.purify(s, rs[0], nil)
}

// ownDraw: a and b are draws of the random source (or multiples of the base point by one), and different ones
// unless a and b are the same term.
func ownDraw(a, b *Term) *Term {
	if a.op == OpIte {
		return and(implies(a.args[0], ownDraw(a.args[1], b)), implies(not(a.args[0]), ownDraw(a.args[2], b)))
	}
	if b.op == OpIte {
		return and(implies(b.args[0], ownDraw(a, b.args[1])), implies(not(b.args[0]), ownDraw(a, b.args[2])))
	}
	da, db := drawOf(a), drawOf(b)
	if da == nil || db == nil {
		return False
	}
	if a == b || da.name != db.name {
		return True
	}
	var ds []*Term
	for i := range da.args {
		ds = append(ds, not(eq(da.args[i], db.args[i])))
	}
	return or(ds...)
}

func drawOf(t *Term) *Term {
	if t.sort == SPt {
		m := toPoly(t).m
		if len(m) != 1 {
			return nil
		}
		for k := range m {
			if len(k.args) != 2 {
				return nil
			}
			for i, f := range k.args {
				if f == BasePt {
					return drawOf(k.args[1-i])
				}
			}
		}
		return nil
	}
	if t.op == OpPoly && len(t.args) == 1 && len(t.args[0].args) == 1 {
		t = t.args[0].args[0]
	}
	if t.op == OpApp && (strings.HasPrefix(t.name, "any:pick@") || strings.HasPrefix(t.name, "any:key@")) {
		return t
	}
	return nil
}

// sameUpToOrder: a sufficient condition for a and b to hold the same elements, as often. The elements of a are those of b
// taken at the positions a permutation gives.
func (ex *Exec) sameUpToOrder(a, b *Term) *Term {
	n := length(a)
	lens := eq(n, length(b))
	x, y := fresh("q", SInt), fresh("q", SInt)
	v := at(a, x, elemSort(a))
	var atoms []*Term
	collect(v, func(t *Term) bool {
		if t.op == OpApp && strings.HasPrefix(t.name, "perm:") && t.args[len(t.args)-1] == x && ex.quick(nil, eq(t.args[0], n)) {
			atoms = append(atoms, t)
		}
		return true
	})
	for _, t := range atoms {
		if w := newSubst(t, y).apply(v); !occurs(x, w) {
			return and(lens, forallX(n, y, ex.sameTerm(w, at(b, y, w.sort))))
		}
	}
	return and(lens, forallX(n, x, ex.sameTerm(v, at(b, x, v.sort))))
}

// ghost interprets the specification intrinsics.
func (ex *Exec) ghost(st *State, name string, f *ssa.Function, a []*Term, c *ssa.CallCommon) ([]*Term, bool) {
	one := func(t *Term) ([]*Term, bool) { return []*Term{t}, true }
	bind := func(body func(x *Term) *Term) (*Term, *Term) {
		x := fresh("q", SInt)
		return x, body(x)
	}
	rng := func(n, x *Term) []*Term { return []*Term{le(mkInt(0), x), lt(x, n)} }
	switch name {
	case "Requires":
		st.branch(a[0])
		if always(ex.root, c) {
			ex.shapes(st, a[0])
		}
		return nil, true
	case "Assume":
		ex.assumed["Assume at "+ex.pos(ex.curPos)] = true
		st.branch(a[0])
		return nil, true
	case "Ensures":
		l, _ := cstr(a[0])
		ex.oblige(st, "ensures", token.NoPos, l, a[1])
		return nil, true
	case "Cover":
		return nil, true
	case "AllowOpen":
		ex.allowOpen = true
		return nil, true
	case "Modifies":
		s := ex.seqOf(st, a[0])
		for i := range s.args {
			ex.markModified(st, s.args[i])
		}
		return nil, true
	case "SameUpToOrder":
		return one(ex.sameUpToOrder(ex.purify(st, ex.seqOf(st, a[0]), nil), ex.purify(st, ex.seqOf(st, a[1]), nil)))
	case "SentCount":
		return one(length(st.heap[ex.outboxObj(st)]))
	case "Sent":
		return one(fld(at(st.heap[ex.outboxObj(st)], a[0], SStruct), 1, SRef))
	case "SentTo", "SentToParent", "SentToChildren":
		to := fld(at(st.heap[ex.outboxObj(st)], a[0], SStruct), 0, SU)
		switch name {
		case "SentTo":
			n := a[1]
			if r, ok := n.ref.(*IfaceRef); ok {
				n = r.val
			}
			return one(eq(to, n))
		case "SentToParent":
			return one(eq(to, app("tni.Parent", SU)))
		}
		return one(eq(to, app("tni.Children", SU)))
	case "Implies":
		return one(implies(a[0], a[1]))
	case "Iff":
		return one(and(implies(a[0], a[1]), implies(a[1], a[0])))
	case "Forall":
		x, b := bind(func(x *Term) *Term { return ex.closure(st, a[1], []*Term{x}, rng(a[0], x)...) })
		return one(forallX(a[0], x, b))
	case "Exists":
		x, b := bind(func(x *Term) *Term { return ex.closure(st, a[1], []*Term{x}, rng(a[0], x)...) })
		return one(not(forallX(a[0], x, not(b))))
	case "SumPoint":
		x, b := bind(func(x *Term) *Term { return ex.closure(st, a[1], []*Term{x}, rng(a[0], x)...) })
		return one(sumX(a[0], x, asSort(b, SPt)))
	case "SumScalar":
		x, b := bind(func(x *Term) *Term { return ex.closure(st, a[1], []*Term{x}, rng(a[0], x)...) })
		return one(sumX(a[0], x, asSort(b, SSc)))
	case "Fresh", "FreshPoint":
		x, b := bind(func(x *Term) *Term { return ex.closure(st, a[1], []*Term{x}, rng(a[0], x)...) })
		y := fresh("q", SInt)
		b = ex.pval(st, b)
		b2 := newSubst(x, y).apply(b)
		return one(and(forallX(a[0], x, ownDraw(b, b)), forallX(a[0], x, forallX(a[0], y, or(eq(x, y), ownDraw(b, b2))))))
	case "SumInt":
		x, b := bind(func(x *Term) *Term { return ex.closure(st, a[1], []*Term{x}, rng(a[0], x)...) })
		return one(sumX(a[0], x, b))
	case "Build":
		x, b := bind(func(x *Term) *Term { return ex.closure(st, a[1], []*Term{x}, rng(a[0], x)...) })
		return one(ex.allocSlice(st, elemType(f.Signature.Results().At(0).Type()), lamX(a[0], x, b)))
	case "FlatBytes":
		x, b := bind(func(x *Term) *Term { return ex.closure(st, a[1], []*Term{x}, rng(a[0], x)...) })
		return one(flatX(a[0], x, b))
	case "Unknown", "UnknownBytes":
		l, _ := cstr(a[0])
		var args []*Term
		for _, x := range ex.seqOf(st, a[1]).args {
			if r, ok := x.ref.(*IfaceRef); ok {
				x = r.val
			}
			args = append(args, ex.purify(st, x, nil))
		}
		if name == "Unknown" {
			return one(app("unknown:"+l, SBool, args...))
		}
		return one(ex.allocSlice(st, types.Typ[types.Uint8], app("unknown:"+l, SSeq, args...)))
	case "ShuffleWitness":
		seq := func(i int) *Term { return ex.purify(st, ex.seqOf(st, a[i]), nil) }
		args := []*Term{a[0], seq(1), orBase(ex.pval(st, a[2])), orBase(ex.pval(st, a[3])), seq(4), seq(5), seq(6), seq(7)}
		return []*Term{ex.allocSlice(st, types.Typ[types.Int], app("shufpi", SSeq, args...)),
			ex.allocSlice(st, f.Signature.Results().At(1).Type().(*types.Slice).Elem(), app("shufbeta", SSeq, args...))}, true
	case "Log":
		return one(app("dlog", SInt, app("pstr", SSeq, ex.operand(st, a[0]))))
	case "Some":
		return one(app("someint", SInt, a[0]))
	case "Old":
		return one(ex.purify(st, a[0], nil))
	case "Same", "SameTranscript":
		return one(ex.sameTerm(ex.purify(st, a[0], nil), ex.purify(st, a[1], nil)))
	case "SamePoint", "SameScalar":
		return one(eq(ex.operand(st, a[0]), ex.operand(st, a[1])))
	case "Plus", "PlusS":
		return one(add(ex.operand(st, a[0]), ex.operand(st, a[1])))
	case "Minus", "MinusS":
		return one(sub(ex.operand(st, a[0]), ex.operand(st, a[1])))
	case "Times", "TimesS":
		return one(mul(ex.operand(st, a[0]), ex.operand(st, a[1])))
	case "Base":
		return one(BasePt)
	case "ZeroPoint":
		return one(zero(SPt))
	case "ZeroScalar":
		return one(zero(SSc))
	case "IntScalar":
		return one(asSort(a[0], SSc))
	case "HasKey":
		return one(mhas(ex.mapOf(st, a[0]), ex.purify(st, a[1], nil)))
	case "ForallKeys":
		m := ex.purify(st, ex.mapOf(st, a[0]), nil)
		mt := f.Signature.Params().At(0).Type().Underlying().(*types.Map)
		n := app("maplen", SInt, m)
		x, b := bind(func(x *Term) *Term {
			k := keyAt(m, mkInt(0), x, sortOf(mt.Key()))
			return ex.closure(st, a[1], []*Term{k}, append(rng(n, x), mhas(m, k))...)
		})
		return one(forallX(n, x, b))
	case "NotNil":
		return one(True)
	case "CeilMul":
		return one(app("ceilmul", SInt, a[0], a[1]))
	case "ValidPercent":
		return one(and(not(app("op<", SBool, a[0], app("const:0", SU))), not(app("op<", SBool, app("const:1", SU), a[0]))))
	}
	return nil, false
}

// shapes notes lengths that a precondition gives for all keys or values of a map: they are used when terms are built. What
// a term says of keys a map does not have, or of positions outside its order, is never used, so it may be taken to have
// these lengths, too.
// always tells whether a call of the contract happens on every path through it.
func always(fn *ssa.Function, c *ssa.CallCommon) bool {
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(*ssa.Call); ok && &call.Call == c {
				for _, r := range fn.Blocks {
					if _, ok := r.Instrs[len(r.Instrs)-1].(*ssa.Return); ok && !b.Dominates(r) {
						return false
					}
				}
				return true
			}
		}
	}
	return false
}

func (ex *Exec) shapes(st *State, c *Term) {
	if c.op == OpAnd {
		for _, all := range []bool{false, true} {
			for _, a := range c.args {
				if all == (a.op == OpForall) {
					ex.shapes(st, a)
				}
			}
		}
		return
	}
	if c.op == OpLe0 && c.args[0].op == OpPoly && len(c.args[0].args) == 1 && c.args[0].co[0].Sign() < 0 {
		if v := c.args[0].args[0]; v != one && len(v.args) == 1 {
			natural[v.args[0]] = true
		}
	}
	if c.op != OpForall || c.args[0].op != OpApp || c.args[0].name != "maplen" {
		return
	}
	d := dom(c.args[0].args[0])
	if ex.decide(st, lt(mkInt(0), c.args[0])) == True {
		someKeys[d] = true
	}
	x := fresh("x", SInt)
	b := open(c, x)[0]
	cs := []*Term{b}
	if b.op == OpAnd {
		cs = b.args
	}
	for _, q := range cs {
		if q.op != OpEq0 || q.args[0].sort != SInt {
			continue
		}
		var l *Term
		n := 0
		collect(q.args[0], func(t *Term) bool {
			if t.op == OpLen && occurs(x, t) {
				l = t
				n++
				return false
			}
			return true
		})
		if n != 1 {
			continue
		}
		for _, v := range []*Term{sub(l, q.args[0]), add(l, q.args[0])} {
			if occurs(x, v) || !nonneg(v) {
				continue
			}
			if path, m := fieldPath(l.args[0]); m != nil && m.op == OpMGet && m.args[0] == d && isKey(d, m.args[1]) {
				valLen[shapeKey{d, path}] = v
			} else if isKey(d, l.args[0]) {
				keyLen[d] = v
			}
		}
	}
}

// A callee is replaced by its specification, a function of the contract file with the same parameters and results.
type calleeSpec struct {
	f, spec *ssa.Function
	by      string
}

// calleeSpecs resolves "//verif:callee F Spec by Contract ; G Spec2 by Contract2" and "//verif:state A B": the replaced
// functions may keep state in the variables A and B as long as nothing else of the program refers to them.
func (ex *Exec) calleeSpecs(c *Contract) {
	d := c.opts["callee"]
	if d == "" {
		return
	}
	ex.specs = map[*ssa.Function]calleeSpec{}
	reach := map[*ssa.Function]bool{}
	for _, e := range strings.Split(d, ";") {
		w := strings.Fields(e)
		if len(w) != 4 || w[2] != "by" {
			ex.fail("bad callee directive %q", e)
		}
		f, s := ex.prog.find(c.pkg, w[0]), ex.prog.find(c.pkg, w[1])
		if f == nil || s == nil || ex.prog.find(c.pkg, w[3]) == nil {
			ex.fail("callee directive: no %s, %s or %s", w[0], w[1], w[3])
		}
		if !types.Identical(f.Signature.Results(), s.Signature.Results()) || len(f.Params) != len(s.Params) {
			ex.fail("callee directive: %s and %s differ in type", w[0], w[1])
		}
		for i := range f.Params {
			if !types.Identical(f.Params[i].Type(), s.Params[i].Type()) {
				ex.fail("callee directive: %s and %s differ in type", w[0], w[1])
			}
		}
		ex.specs[f] = calleeSpec{f, s, w[3]}
		staticReach(f, reach)
	}
	for _, g := range strings.Fields(c.opts["state"]) {
		v, ok := ex.prog.spkgs[c.pkg].Members[g].(*ssa.Global)
		if !ok {
			ex.fail("state directive: no variable %s", g)
		}
		if v.Object().Exported() {
			ex.noOther(c.pkg, g)
		}
		for fn := range ex.prog.allFunctions() {
			if reach[fn] || fn.Name() == "init" || strings.Contains(ex.prog.fset.Position(fn.Pos()).Filename, "zz_verif") {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if *op == ssa.Value(v) {
							ex.fail("%s refers to %s, which only the functions replaced by their specification may", fn, g)
						}
					}
				}
			}
		}
	}
}

// noOther fails if a file of another package of the repository refers to an exported variable of this name.
func (ex *Exec) noOther(pkg, name string) {
	own := filepath.Join(repoDir, strings.TrimPrefix(pkg, repoPath))
	re := regexp.MustCompile(`\.` + name + `\b`)
	filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || filepath.Dir(p) == own {
			return nil
		}
		if b, err := os.ReadFile(p); err == nil && re.Match(b) {
			ex.fail("%s refers to %s, which only the functions replaced by their specification may", p, name)
		}
		return nil
	})
}

// staticReach adds f and what it calls.
func staticReach(f *ssa.Function, seen map[*ssa.Function]bool) {
	if f == nil || seen[f] {
		return
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok {
					staticReach(g, seen)
				}
			}
			if mc, ok := ins.(*ssa.MakeClosure); ok {
				staticReach(mc.Fn.(*ssa.Function), seen)
			}
		}
	}
}

// allFunctions lists the functions of the repository's packages.
func (p *Program) allFunctions() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(p.ssa) {
		if inRepo(fn) {
			out[fn] = true
		}
	}
	return out
}
