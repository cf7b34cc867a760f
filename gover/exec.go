package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Kind, Desc, Pos, Fn string
	OK                  bool
	Backend             string
	Detail              string
	Ms                  float64
}

// Exec is the symbolic executor / VC generator.
type Exec struct {
	root       *ssa.Function    // the contract
	named      [][2]*Term       // names of maps and what they stand for
	fixLen     map[string]*Term // the length of such a state, where the body keeps it
	boxed      map[string]bool  // loop states which are pointers known by what they point to
	outbox     int              // 1 + the object that records the messages sent
	prog       *Program
	objs       []*objInfo
	globals    map[*ssa.Global]int
	quiet      int // >0: discovery run, obligations not recorded
	obls       []*Obligation
	seenObl    map[string]*Obligation
	curFn      string
	depth      int
	loops      []*loopCtx
	tasks      []*task
	acc        []*access
	accOn      bool
	seq        int
	loopInfos  map[*ssa.Function]*fnLoops
	specs      map[*ssa.Function]calleeSpec // callees replaced by their contracts
	useDepth   int
	assumed    map[string]bool
	inlined    map[string]bool
	applied    map[string]bool
	unknown    map[string]bool
	mA, mB     *State
	warn       map[string]bool
	ctr        *Contract
	spawned    bool
	joinBase   int
	curPos     token.Pos
	stack      []*ssa.Function
	sent       int
	writeHook  func(st *State, obj int)
	preHeap    map[int]*Term
	openTasks  []*task
	preState   *State
	modified   map[int]bool
	globalPre  map[int]*Term
	allowOpen  bool
	sites      []token.Pos
	annot      []*loopAnnot
	shufProver *Term // what the last shuffle prover was asked to prove
}

type unsupported struct{ msg string }

func (ex *Exec) fail(format string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(format, a...) + " at " + ex.pos(ex.curPos)})
}

func (ex *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := ex.prog.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, repoDir+"/"), q.Line)
}

func (ex *Exec) newObj(typ types.Type, name string) *objInfo {
	o := &objInfo{id: len(ex.objs), typ: typ, name: name, fresh: true}
	if len(ex.loops) > 0 {
		o.scope = ex.loops[len(ex.loops)-1]
	}
	if len(ex.tasks) > 0 {
		o.task = ex.tasks[len(ex.tasks)-1]
	}
	ex.objs = append(ex.objs, o)
	return o
}

func (ex *Exec) alloc(st *State, typ types.Type, content *Term, name string) *Term {
	o := ex.newObj(typ, name)
	st.heap[o.id] = content
	return mkRef(&PtrRef{o.id, nil})
}

// allocSlice makes a fresh slice with the given content.
func (ex *Exec) allocSlice(st *State, elem types.Type, content *Term) *Term {
	o := ex.newObj(types.NewSlice(elem), "slice")
	st.heap[o.id] = content
	n := length(content)
	return mkRef(&SliceRef{o.id, nil, mkInt(0), n, n, 0, nil})
}

// ---------------------------------------------------------------- obligations

func (ex *Exec) oblige(st *State, kind string, p token.Pos, desc string, goal *Term) {
	if goal == True && ex.quiet > 0 {
		return
	}
	if !p.IsValid() {
		p = ex.curPos
	}
	if ex.quiet > 0 {
		st.assume(goal)
		return
	}
	fn := ""
	if len(ex.stack) > 0 {
		fn = ex.stack[len(ex.stack)-1].String()
	}
	key := fmt.Sprintf("%s|%s|%s|%s|%s", kind, desc, ex.pos(p), fn, ex.curFn)
	o := ex.seenObl[key]
	if o == nil {
		o = &Obligation{Kind: kind, Desc: desc, Pos: ex.pos(p), Fn: fn, OK: true, Backend: "simplifier"}
		ex.seenObl[key] = o
		ex.obls = append(ex.obls, o)
	}
	if goal == True {
		return
	}
	res := ex.prove(st.hyps(), goal)
	if res.backend != "simplifier" && o.Backend == "simplifier" {
		o.Backend = res.backend
	}
	o.Ms += res.ms
	if !res.ok {
		if o.OK {
			o.OK = false
			o.Detail = "goal: " + clip(goal.String(), 1500) + "\n" + res.detail
			if debug {
				fmt.Fprintf(os.Stderr, "FAILED %s %s %s\n  goal %s\n", kind, desc, o.Pos, clip(goal.String(), 3000))
				for _, h := range st.guard {
					fmt.Fprintf(os.Stderr, "   G %s\n", clip(h.String(), 600))
				}
				for _, h := range st.facts {
					fmt.Fprintf(os.Stderr, "   F %s\n", clip(h.String(), 600))
				}
				fmt.Fprintln(os.Stderr, res.detail)
			}
		}
	}
	st.assume(goal)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var debug = os.Getenv("GOVER_DEBUG") != ""

// ---------------------------------------------------------------- function execution

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}
type outcome struct {
	st  *State
	res []*Term
}

type fnLoops struct {
	rpo    []*ssa.BasicBlock
	header map[*ssa.BasicBlock]*loopInfo
}
type loopInfo struct {
	h      *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

func (ex *Exec) loopsOf(fn *ssa.Function) *fnLoops {
	if l, ok := ex.loopInfos[fn]; ok {
		return l
	}
	l := &fnLoops{header: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		l.rpo = append(l.rpo, post[i])
	}
	for _, b := range l.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := l.header[s]
				if li == nil {
					li = &loopInfo{h: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					l.header[s] = li
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if li.blocks[x] {
						return
					}
					li.blocks[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	n := 0
	for _, b := range l.rpo {
		if li := l.header[b]; li != nil {
			li.ord = n
			n++
		}
	}
	ex.loopInfos[fn] = l
	return l
}

// callFn executes fn's body on st (mutating st) and returns its results.
func (ex *Exec) callFn(st *State, fn *ssa.Function, args, binds []*Term) []*Term {
	if len(fn.Blocks) == 0 {
		ex.fail("no body for %s", fn)
	}
	for _, f := range ex.stack {
		if f == fn {
			n := 0
			for _, g := range ex.stack {
				if g == fn {
					n++
				}
			}
			if n > 3 {
				ex.fail("recursion through %s", fn)
			}
		}
	}
	if len(ex.stack) > 60 {
		ex.fail("call depth at %s", fn)
	}
	ex.stack = append(ex.stack, fn)
	savedPos := ex.curPos
	ex.sites = append(ex.sites, savedPos)
	defer func() {
		ex.stack = ex.stack[:len(ex.stack)-1]
		ex.sites = ex.sites[:len(ex.sites)-1]
		ex.curPos = savedPos
	}()
	saveEnv, saveDefers := st.env, st.defers
	in := st.clone()
	in.env = map[ssa.Value]*Term{}
	in.defers = nil
	for i, p := range fn.Params {
		in.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		in.env[p] = binds[i]
	}
	_, _, outs := ex.run(fn, []edge{{nil, fn.Blocks[0], in}}, nil)
	if len(outs) == 0 {
		st.branch(False)
		sig := fn.Signature.Results()
		var r []*Term
		for i := 0; i < sig.Len(); i++ {
			r = append(r, zeroOf(sig.At(i).Type()))
		}
		return r
	}
	o := ex.mergeOutcomes(outs)
	*st = *o.st
	st.env, st.defers = saveEnv, saveDefers
	return o.res
}

func (ex *Exec) mergeOutcomes(outs []outcome) outcome {
	// merge pairwise, later outcomes first (they share longer guard prefixes)
	for len(outs) > 1 {
		// pick the pair with the longest common guard prefix
		bi, bj, bl := 0, 1, -1
		for i := 0; i < len(outs); i++ {
			for j := i + 1; j < len(outs); j++ {
				if l := commonPrefix(outs[i].st.guard, outs[j].st.guard); l > bl {
					bi, bj, bl = i, j, l
				}
			}
		}
		a, b := outs[bi], outs[bj]
		ex.mA, ex.mB = a.st, b.st
		st, c := ex.merge(a.st, b.st)
		ex.mA, ex.mB = a.st, b.st
		res := make([]*Term, len(a.res))
		for i := range res {
			res[i] = ex.iteVal(c, a.res[i], b.res[i])
		}
		ex.mA, ex.mB = nil, nil
		n := outcome{st, res}
		var rest []outcome
		for k := range outs {
			if k != bi && k != bj {
				rest = append(rest, outs[k])
			}
		}
		outs = append(rest, n)
	}
	return outs[0]
}

func (ex *Exec) mergeStates(sts []*State) *State {
	outs := make([]outcome, len(sts))
	for i, s := range sts {
		outs[i] = outcome{s, nil}
	}
	return ex.mergeOutcomes(outs).st
}

// run executes the region (nil = whole function) from the start edges.
func (ex *Exec) run(fn *ssa.Function, start []edge, region *loopInfo) (exits, backs []edge, outs []outcome) {
	fl := ex.loopsOf(fn)
	incoming := map[*ssa.BasicBlock][]edge{}
	for _, e := range start {
		incoming[e.to] = append(incoming[e.to], e)
	}
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range fl.rpo {
		if done[b] {
			continue
		}
		in := incoming[b]
		if len(in) == 0 {
			continue
		}
		if region != nil && !region.blocks[b] {
			continue
		}
		deliver := func(e edge) {
			if e.st.dead() {
				return
			}
			if region != nil {
				if e.to == region.h {
					backs = append(backs, e)
					return
				}
				if !region.blocks[e.to] {
					exits = append(exits, e)
					return
				}
			}
			incoming[e.to] = append(incoming[e.to], e)
		}
		if li := fl.header[b]; li != nil && (region == nil || region.h != b) {
			es, os := ex.execLoop(fn, li, in)
			for bb := range li.blocks {
				done[bb] = true
			}
			outs = append(outs, os...)
			for _, e := range es {
				deliver(e)
			}
			continue
		}
		st := ex.enter(b, in, region != nil && region.h == b)
		es, o := ex.execBlock(fn, b, st)
		if o != nil && !o.st.dead() {
			outs = append(outs, *o)
		}
		for _, e := range es {
			deliver(e)
		}
		done[b] = true
	}
	return
}

// enter computes phis for every incoming edge and merges the states.
func (ex *Exec) enter(b *ssa.BasicBlock, in []edge, isHeader bool) *State {
	var sts []*State
	for _, e := range in {
		if !isHeader {
			ex.phis(b, e)
		}
		sts = append(sts, e.st)
	}
	return ex.mergeStates(sts)
}

func (ex *Exec) phis(b *ssa.BasicBlock, e edge) {
	if e.from == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == e.from {
			idx = i
		}
	}
	vals := map[*ssa.Phi]*Term{}
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals[phi] = ex.val(e.st, phi.Edges[idx])
	}
	for p, v := range vals {
		e.st.env[p] = v
	}
}

func (ex *Exec) execBlock(fn *ssa.Function, b *ssa.BasicBlock, st *State) ([]edge, *outcome) {
	for _, ins := range b.Instrs {
		if ins.Pos().IsValid() {
			ex.curPos = ins.Pos()
		}
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}, nil
		case *ssa.If:
			c := ex.decide(st, ex.val(st, i.Cond))
			if c == True {
				return []edge{{b, b.Succs[0], st}}, nil
			}
			if c == False {
				return []edge{{b, b.Succs[1], st}}, nil
			}
			s2 := st.clone()
			st.branch(c)
			s2.branch(not(c))
			return []edge{{b, b.Succs[0], st}, {b, b.Succs[1], s2}}, nil
		case *ssa.Return:
			var rs []*Term
			for _, r := range i.Results {
				rs = append(rs, ex.val(st, r))
			}
			return nil, &outcome{st, rs}
		case *ssa.Panic:
			ex.oblige(st, "panic", i.Pos(), "panic unreachable", False)
			return nil, nil
		default:
			ex.instr(st, ins)
			if st.dead() {
				return nil, nil
			}
		}
	}
	return nil, nil
}

func (ex *Exec) decide(st *State, c *Term) *Term {
	if c.op == OpBool {
		return c
	}
	nc := not(c)
	for _, g := range st.guard {
		if g == c {
			return True
		}
		if g == nc {
			return False
		}
	}
	for _, g := range st.facts {
		if g == c {
			return True
		}
		if g == nc {
			return False
		}
	}
	h := st.hyps()
	if ex.quick(h, c) {
		return True
	}
	if ex.quick(h, nc) {
		return False
	}
	return c
}

// ---------------------------------------------------------------- values

func (ex *Exec) val(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		return mkRef(&PtrRef{ex.global(st, x), nil})
	case *ssa.Function:
		return mkRef(&CloRef{x, nil})
	case *ssa.Builtin:
		return app("builtin:"+x.Name(), SU)
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	ex.fail("no value for %s (%s)", v.Name(), v)
	return nil
}

func (ex *Exec) constVal(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch sortOf(c.Type()) {
	case SInt:
		b, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
		if ok {
			return mkBig(b, SInt)
		}
	case SBool:
		return mkBool(constant.BoolVal(c.Value))
	case SSeq:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
	}
	return app("const:"+c.Value.ExactString(), SU)
}

func (ex *Exec) global(st *State, g *ssa.Global) int {
	id, ok := ex.globals[g]
	if !ok {
		o := &objInfo{id: len(ex.objs), typ: g.Type().(*types.Pointer).Elem(), name: g.String(), param: true}
		ex.objs = append(ex.objs, o)
		id = o.id
		ex.globals[g] = id
	}
	if _, ok := st.heap[id]; !ok {
		if ex.globalPre == nil {
			ex.globalPre = map[int]*Term{}
		}
		if ex.globalPre[id] == nil {
			ex.globalPre[id] = ex.globalInit(st, g)
		}
		st.heap[id] = ex.globalPre[id]
	}
	return id
}

func (ex *Exec) globalInit(st *State, g *ssa.Global) *Term {
	t := g.Type().(*types.Pointer).Elem()
	// package-level variable whose only store is a constant in the initialiser and never written elsewhere
	if c := ex.prog.constGlobal(g); c != nil {
		return ex.constVal(c)
	}
	switch namedPath(t) {
	case "sync.Mutex", "sync.RWMutex", "sync.WaitGroup":
		return mkInt(0)
	}
	nm := "glob:" + g.String()
	if p, ok := t.Underlying().(*types.Pointer); ok && namedPath(p.Elem()) == cmapType {
		o := &objInfo{id: len(ex.objs), typ: p.Elem(), name: g.String(), param: true}
		ex.objs = append(ex.objs, o)
		ex.globalPre[o.id] = mkVar(nm, SMap)
		st.heap[o.id] = ex.globalPre[o.id]
		return mkRef(&PtrRef{o.id, nil})
	}
	return ex.pureSym(t, nm)
}

// pureSym builds a symbolic pure value of type t.
func (ex *Exec) pureSym(t types.Type, name string) *Term {
	t = types.Unalias(t)
	switch sortOf(t) {
	case SStruct:
		if s, ok := t.Underlying().(*types.Struct); ok {
			var fs []*Term
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, ex.pureSym(s.Field(i).Type(), name+"."+s.Field(i).Name()))
			}
			return mkStruct("", fs...)
		}
	case SSeq:
		if a, ok := t.Underlying().(*types.Array); ok {
			v := mkVar(name, SSeq)
			es := sortOf(a.Elem())
			return lam(mkInt(a.Len()), func(i *Term) *Term { return mk(&Term{op: OpAt, sort: es, args: []*Term{v, i}}) })
		}
	case SRef:
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if sortOf(p.Elem()) == SU {
				return mkVar(name, SU)
			}
			return mkRef(&BoxRef{ex.pureSym(p.Elem(), name+"*")})
		}
	}
	if i, ok := t.Underlying().(*types.Interface); ok && sortOf(t) == SU {
		_ = i
	}
	return mkVar(name, sortOf(t))
}

// symVal builds a symbolic input of type t, allocating objects for mutable parts.
func (ex *Exec) symVal(st *State, t types.Type, name string) *Term {
	t = types.Unalias(t)
	mkObj := func(ct types.Type, c *Term) int {
		o := ex.newObj(ct, name)
		o.param, o.fresh = true, false
		o.scope, o.task = nil, nil
		st.heap[o.id] = c
		return o.id
	}
	switch sortOf(t) {
	case SStruct:
		s := t.Underlying().(*types.Struct)
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, ex.symVal(st, s.Field(i).Type(), name+"."+s.Field(i).Name()))
		}
		return mkStruct("", fs...)
	case SSeq:
		if _, ok := t.Underlying().(*types.Slice); ok {
			v := mkVar(name, SSeq)
			id := mkObj(t, v)
			n := length(v)
			return mkRef(&SliceRef{id, nil, mkInt(0), n, n, 0, nil})
		}
	case SMap:
		id := mkObj(t, mkVar(name, SMap))
		return mkRef(&MapRef{id})
	case SRef:
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if sortOf(p.Elem()) == SU && !opaqueMutable(p.Elem()) {
				return mkVar(name, SU)
			}
			c := ex.symVal(st, p.Elem(), name+"*")
			return mkRef(&PtrRef{mkObj(p.Elem(), c), nil})
		}
		if _, ok := t.Underlying().(*types.Signature); ok {
			return mkVar(name, SU)
		}
	}
	return ex.pureSym(t, name)
}

func opaqueMutable(t types.Type) bool {
	switch namedPath(t) {
	case "sync.Mutex", "sync.RWMutex", "sync.WaitGroup":
		return true
	}
	return false
}

// ---------------------------------------------------------------- memory

func (ex *Exec) getPath(st *State, c *Term, path []PathElem, typ types.Type) *Term {
	for i, e := range path {
		if typ != nil {
			typ = types.Unalias(typ)
		}
		if e.idx != nil {
			var et types.Type
			switch u := typ.Underlying().(type) {
			case *types.Slice:
				et = u.Elem()
			case *types.Array:
				et = u.Elem()
			default:
				ex.fail("index path on %s", typ)
			}
			if c.sort == SRef {
				c = ex.seqOf(st, c)
			}
			c = at(c, e.idx, sortOf(et))
			typ = et
		} else {
			s := typ.Underlying().(*types.Struct)
			ft := s.Field(e.f).Type()
			c = fld(c, e.f, sortOf(ft))
			typ = ft
		}
		_ = i
	}
	return c
}

func pathType(typ types.Type, path []PathElem) types.Type {
	for _, e := range path {
		typ = types.Unalias(typ)
		if e.idx != nil {
			switch u := typ.Underlying().(type) {
			case *types.Slice:
				typ = u.Elem()
			case *types.Array:
				typ = u.Elem()
			}
		} else {
			typ = typ.Underlying().(*types.Struct).Field(e.f).Type()
		}
	}
	return typ
}

func (ex *Exec) setPath(st *State, c *Term, path []PathElem, typ types.Type, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	e := path[0]
	typ = types.Unalias(typ)
	if e.idx != nil {
		var et types.Type
		switch u := typ.Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Array:
			et = u.Elem()
		}
		if c.sort == SRef {
			ex.fail("nested store through re-assigned slice")
		}
		return upd(c, e.idx, ex.setPath(st, at(c, e.idx, sortOf(et)), path[1:], et, v))
	}
	s := typ.Underlying().(*types.Struct)
	fs := make([]*Term, s.NumFields())
	for i := range fs {
		ft := s.Field(i).Type()
		fs[i] = fld(c, i, sortOf(ft))
		if i == e.f {
			fs[i] = ex.setPath(st, fs[i], path[1:], ft, v)
		}
	}
	return mkStruct("", fs...)
}

// load dereferences a pointer value.
func (ex *Exec) load(st *State, p *Term, typ types.Type) *Term {
	if p.op == OpIte {
		return ex.iteLoad(st, p.args[0], ex.load(st, p.args[1], typ), ex.load(st, p.args[2], typ))
	}
	switch r := p.ref.(type) {
	case *PtrRef:
		ex.access(st, r.obj, r.path, false)
		c, ok := st.heap[r.obj]
		if !ok {
			ex.fail("load of unknown object %s", ex.objs[r.obj].name)
		}
		v := ex.getPath(st, c, r.path, ex.objs[r.obj].typ)
		return ex.viewOf(st, v, r.obj, r.path, typ)
	case *BoxRef:
		return r.val
	case *NilRef:
		ex.oblige(st, "nil", token.NoPos, "nil dereference", False)
		st.branch(False)
		return zeroOf(typ)
	}
	return ex.derefSym(p, typ)
}

func (ex *Exec) derefSym(p *Term, typ types.Type) *Term {
	return app("deref", sortOf(typ), p)
}

func (ex *Exec) iteLoad(st *State, c, a, b *Term) *Term {
	ex.mA, ex.mB = st, st
	r := ex.iteVal(c, a, b)
	ex.mA, ex.mB = nil, nil
	return r
}

// viewOf turns a pure slice stored at a location into a slice header aliasing that location.
func (ex *Exec) viewOf(st *State, v *Term, obj int, path []PathElem, typ types.Type) *Term {
	if typ == nil {
		return v
	}
	if _, ok := types.Unalias(typ).Underlying().(*types.Slice); ok && v.sort == SSeq {
		n := length(v)
		return mkRef(&SliceRef{obj, path, mkInt(0), n, n, st.gens[obj], v})
	}
	return v
}

func (ex *Exec) store(st *State, p, v *Term, typ types.Type) {
	if p.op == OpIte {
		c := p.args[0]
		for k, q := range []*Term{p.args[1], p.args[2]} {
			if q.ref != nil {
				if _, isNil := q.ref.(*NilRef); isNil {
					continue
				}
			}
			cc := c
			if k == 1 {
				cc = not(c)
			}
			old := ex.load(st, q, typ)
			ex.mA, ex.mB = st, st
			nv := ex.iteVal(cc, v, old)
			ex.mA, ex.mB = nil, nil
			ex.store(st, q, nv, typ)
		}
		return
	}
	switch r := p.ref.(type) {
	case *PtrRef:
		ex.access(st, r.obj, r.path, true)
		if ex.writeHook != nil {
			ex.writeHook(st, r.obj)
		}
		o := ex.objs[r.obj]
		if o.pure {
			ex.oblige(st, "frame", token.NoPos, "write to immutable object "+o.name, False)
			return
		}
		// storing a view of the same location back is a no-op
		if sv, ok := v.ref.(*SliceRef); ok && sv.obj == r.obj && pathKey(sv.path) == pathKey(r.path) && sv.snap != nil {
			cur := ex.getPath(st, st.heap[r.obj], r.path, o.typ)
			if cur.sort == SSeq {
				v = subSeq(cur, sv.off, sv.len)
				if v == cur {
					return
				}
			}
		}
		if _, ok := types.Unalias(typ).Underlying().(*types.Slice); ok {
			st.gens[r.obj]++
		}
		st.heap[r.obj] = ex.setPath(st, st.heap[r.obj], r.path, o.typ, v)
		return
	case *BoxRef:
		ex.oblige(st, "frame", token.NoPos, "write through a pointer into shared immutable data", False)
		return
	case *NilRef:
		ex.oblige(st, "nil", token.NoPos, "nil dereference", False)
		st.branch(False)
		return
	}
	ex.fail("store through symbolic pointer %s", clip(p.String(), 80))
}

// seqOf gives the current content of a slice / string / array value.
func (ex *Exec) seqOf(st *State, v *Term) *Term {
	if v.sort == SSeq {
		return v
	}
	if v.op == OpIte {
		return ite(v.args[0], ex.seqOf(st, v.args[1]), ex.seqOf(st, v.args[2]))
	}
	switch r := v.ref.(type) {
	case *SliceRef:
		ex.accessRange(st, r, false)
		return ex.narrow(st.hyps(), subSeq(ex.backing(st, r), r.off, r.len))
	case *NilRef:
		return EmptySeq
	case *BoxRef:
		return r.val
	}
	ex.fail("seqOf %s", clip(v.String(), 100))
	return nil
}

// narrow uses the hypotheses to find which piece of a concatenation a subsequence lies in.
func (ex *Exec) narrow(h []*Term, t *Term) *Term {
	if t.op != OpSub {
		return t
	}
	s, off, n := t.args[0], t.args[1], t.args[2]
	switch s.op {
	case OpFlat:
		x := fresh("k", SInt)
		lenb := length(open(s, x)[0])
		if _, ok := constInt(lenb); ok {
			return t
		}
		js := []*Term{mkInt(0)}
		for _, m := range toPolyMonos(off) {
			for _, a := range m.args {
				if a.op == OpSum {
					js = append(js, a.args[0])
				}
			}
		}
		if !occurs(x, lenb) {
			js = append(js, quoCandidates(off, lenb)...)
		}
		for _, j := range js {
			rest := sub(off, sumX(j, x, lenb))
			lb := newSubst(x, j).apply(lenb)
			if termSize(rest, 300) >= termSize(off, 300) && j != js[0] {
				continue
			}
			if ex.quick(h, le(mkInt(0), rest)) && ex.quick(h, le(add(rest, n), lb)) && ex.quick(h, le(mkInt(0), j)) && ex.quick(h, lt(j, s.args[0])) {
				r := subSeq(open(s, j)[0], rest, n)
				if length(open(s, j)[0]) == n && rest == mkInt(0) {
					return r
				}
				return ex.narrow(h, r)
			}
		}
	case OpCat:
		ps := s.args
		pos := mkInt(0)
		lo := 0
		for lo < len(ps)-1 {
			nx := add(pos, length(ps[lo]))
			if !ex.quick(h, le(nx, off)) {
				break
			}
			pos = nx
			lo++
		}
		end := add(off, n)
		p := pos
		for hi := lo; hi < len(ps); hi++ {
			p = add(p, length(ps[hi]))
			if ex.quick(h, le(end, p)) {
				if lo == 0 && hi == len(ps)-1 {
					return t
				}
				o := sub(off, pos)
				if hi == lo && ex.quick(h, eq(o, mkInt(0))) && ex.quick(h, eq(length(ps[lo]), n)) {
					return ps[lo]
				}
				return ex.narrow(h, subSeq(cat(ps[lo:hi+1]...), o, n))
			}
		}
	}
	return t
}

// backing returns the sequence a header points into.
func (ex *Exec) backing(st *State, r *SliceRef) *Term {
	if r.snap != nil && st.gens[r.obj] != r.gen {
		cur := ex.getPath(st, st.heap[r.obj], r.path, ex.objs[r.obj].typ)
		if cur.sort == SSeq && length(cur) == length(r.snap) && cur == r.snap {
			return cur
		}
		return r.snap
	}
	c := ex.getPath(st, st.heap[r.obj], r.path, ex.objs[r.obj].typ)
	if c.sort == SRef {
		if r.snap != nil {
			return r.snap
		}
		return ex.seqOf(st, c)
	}
	return c
}

func (ex *Exec) lenOf(st *State, v *Term) *Term {
	if v.sort == SSeq {
		return length(v)
	}
	if v.op == OpIte {
		return ite(v.args[0], ex.lenOf(st, v.args[1]), ex.lenOf(st, v.args[2]))
	}
	if r, ok := v.ref.(*SliceRef); ok {
		return r.len
	}
	if _, ok := v.ref.(*NilRef); ok {
		return mkInt(0)
	}
	if v.sort == SU {
		return app("len", SInt, v)
	}
	ex.fail("len of %s", clip(v.String(), 80))
	return nil
}

// elemAddr is &v[i].
func (ex *Exec) elemAddr(st *State, v, i *Term, et types.Type, check bool) *Term {
	if v.op == OpIte && v.sort == SRef {
		return mk(&Term{op: OpIte, sort: SRef, args: []*Term{v.args[0], ex.elemAddr(st, v.args[1], i, et, false), ex.elemAddr(st, v.args[2], i, et, false)}})
	}
	switch r := v.ref.(type) {
	case *SliceRef:
		if r.snap != nil && st.gens[r.obj] != r.gen {
			cur := ex.getPath(st, st.heap[r.obj], r.path, ex.objs[r.obj].typ)
			if cur != r.snap {
				return mkRef(&BoxRef{at(r.snap, add(r.off, i), sortOf(et))})
			}
		}
		np := append(append([]PathElem{}, r.path...), PathElem{idx: add(r.off, i)})
		return mkRef(&PtrRef{r.obj, np})
	case *PtrRef: // pointer to array
		np := append(append([]PathElem{}, r.path...), PathElem{idx: i})
		return mkRef(&PtrRef{r.obj, np})
	case *BoxRef:
		return mkRef(&BoxRef{at(r.val, i, sortOf(et))})
	case *NilRef:
		return mkRef(&BoxRef{zeroOf(et)})
	}
	if v.sort == SSeq {
		return mkRef(&BoxRef{at(v, i, sortOf(et))})
	}
	ex.fail("elemAddr of %s", clip(v.String(), 80))
	return nil
}

func (ex *Exec) fieldAddr(st *State, p *Term, f int, ptrT types.Type) *Term {
	if p.op == OpIte {
		return mk(&Term{op: OpIte, sort: SRef, args: []*Term{p.args[0], ex.fieldAddr(st, p.args[1], f, ptrT), ex.fieldAddr(st, p.args[2], f, ptrT)}})
	}
	stt := types.Unalias(ptrT).Underlying().(*types.Pointer).Elem()
	ft := stt.Underlying().(*types.Struct).Field(f).Type()
	switch r := p.ref.(type) {
	case *PtrRef:
		if ex.objs[r.obj].typ != nil && sortOf(pathType(ex.objs[r.obj].typ, r.path)) == SU {
			return mkRef(&BoxRef{app(fmt.Sprintf("ofld%d", f), sortOf(ft), p)})
		}
		return mkRef(&PtrRef{r.obj, append(append([]PathElem{}, r.path...), PathElem{f: f})})
	case *BoxRef:
		if r.val.sort == SU {
			return mkRef(&BoxRef{app(fmt.Sprintf("ofld%d", f), sortOf(ft), r.val)})
		}
		return mkRef(&BoxRef{fld(r.val, f, sortOf(ft))})
	case *NilRef:
		ex.oblige(st, "nil", token.NoPos, "nil dereference", False)
		st.branch(False)
		return mkRef(&BoxRef{zeroOf(ft)})
	}
	if sortOf(stt) == SU {
		return mkRef(&BoxRef{app(fmt.Sprintf("ofld:%s.%d", namedPath(stt), f), sortOf(ft), p)})
	}
	return mkRef(&BoxRef{fld(ex.derefSym(p, stt), f, sortOf(ft))})
}

// pval gives the mathematical value of a point / scalar reference.
func (ex *Exec) pval(st *State, v *Term) *Term {
	if v.sort == SPt || v.sort == SSc {
		return v
	}
	if v.op == OpIte {
		return ite(v.args[0], ex.pval(st, v.args[1]), ex.pval(st, v.args[2]))
	}
	switch r := v.ref.(type) {
	case *PtrRef:
		ex.access(st, r.obj, r.path, false)
		return ex.getPath(st, st.heap[r.obj], r.path, ex.objs[r.obj].typ)
	case *IfaceRef:
		return ex.pval(st, r.val)
	case *BoxRef:
		return r.val
	case *NilRef:
		return nilPt
	}
	ex.fail("pval of %s", clip(v.String(), 80))
	return nil
}

// purify replaces references by the values they denote; keep reports objects to leave alone.
func (ex *Exec) purify(st *State, t *Term, keep func(obj int) bool) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		if !hasRef(t) {
			memo[t] = t
			return t
		}
		var r *Term
		if t.ref != nil {
			switch x := t.ref.(type) {
			case *PtrRef:
				if keep != nil && keep(x.obj) {
					r = t
					break
				}
				o := ex.objs[x.obj]
				c, ok := st.heap[x.obj]
				if !ok {
					r = t
					break
				}
				v := rec(ex.getPath(st, c, x.path, o.typ))
				ty := pathType(o.typ, x.path)
				if len(x.path) == 0 && (isPoint(ty) || isScalar(ty)) && o.name == "pt" {
					r = v
				} else {
					r = mkRef(&BoxRef{v})
				}
			case *SliceRef:
				if keep != nil && keep(x.obj) {
					r = t
					break
				}
				r = rec(subSeq(ex.backing(st, x), x.off, x.len))
			case *MapRef:
				if keep != nil && keep(x.obj) {
					r = t
					break
				}
				r = rec(st.heap[x.obj])
			case *IfaceRef:
				v := rec(x.val)
				if v.sort == SPt || v.sort == SSc {
					r = v
				} else {
					r = mkRef(&IfaceRef{x.typ, v})
				}
			case *BoxRef:
				r = mkRef(&BoxRef{rec(x.val)})
			case *CloRef:
				nb := make([]*Term, len(x.binds))
				for i := range nb {
					nb[i] = rec(x.binds[i])
				}
				r = mkRef(&CloRef{x.fn, nb})
			default:
				r = t
			}
			memo[t] = r
			return r
		}
		if t.op == OpIte && t.sort == SRef {
			a, b := rec(t.args[1]), rec(t.args[2])
			if a.sort == SRef && b.sort != SRef {
				a = coerceNil(a, b.sort)
			}
			if b.sort == SRef && a.sort != SRef {
				b = coerceNil(b, a.sort)
			}
			if a.sort == SRef && b.sort == SRef {
				ba, oka := a.ref.(*BoxRef)
				bb, okb := b.ref.(*BoxRef)
				if oka && okb {
					r = mkRef(&BoxRef{ite(t.args[0], ba.val, bb.val)})
				} else {
					r = mk(&Term{op: OpIte, sort: SRef, args: []*Term{t.args[0], a, b}})
				}
			} else {
				r = ite(rec(t.args[0]), a, b)
			}
			memo[t] = r
			return r
		}
		if isBinder(t.op) {
			k := 0
			var n *Term
			if t.op != OpMLam && t.op != OpFnLam {
				n = rec(t.args[0])
				k = 1
			}
			_ = k
			x := fresh("x", t.bsrt)
			bo := open(t, x)
			for i := range bo {
				bo[i] = rec(bo[i])
			}
			r = rebuildBinder(t, n, x, bo)
		} else {
			na := make([]*Term, len(t.args))
			for i, a := range t.args {
				na[i] = rec(a)
			}
			if t.op == OpFld && na[0].op != OpMk {
				r = fld(na[0], t.n, t.sort)
			} else {
				r = rebuild(t, na)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func coerceNil(a *Term, s Sort) *Term {
	if _, ok := a.ref.(*NilRef); ok {
		switch s {
		case SPt:
			return nilPt
		case SSc:
			return nilSc
		case SSeq:
			return EmptySeq
		case SMap:
			return EmptyMap
		}
	}
	if b, ok := a.ref.(*BoxRef); ok {
		return b.val
	}
	return a
}

var refMemo = map[*Term]bool{}

func hasRef(t *Term) bool {
	if t.ref != nil {
		return true
	}
	if len(t.args) == 0 {
		return false
	}
	if r, ok := refMemo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if hasRef(a) {
			r = true
			break
		}
	}
	refMemo[t] = r
	return r
}

// ---------------------------------------------------------------- instructions

func (ex *Exec) set(st *State, v ssa.Value, t *Term) { st.env[v] = t }

func elemType(t types.Type) types.Type {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Basic:
		return types.Typ[types.Uint8]
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func (ex *Exec) bounds(st *State, i, n *Term, what string) {
	ex.oblige(st, "bounds", token.NoPos, what, and(le(mkInt(0), i), lt(i, n)))
}

func (ex *Exec) instr(st *State, ins ssa.Instruction) {
	switch i := ins.(type) {
	case *ssa.Alloc:
		t := i.Type().(*types.Pointer).Elem()
		ex.set(st, i, ex.alloc(st, t, zeroOf(t), "alloc:"+i.Comment))
	case *ssa.FieldAddr:
		ex.set(st, i, ex.fieldAddr(st, ex.val(st, i.X), i.Field, i.X.Type()))
	case *ssa.Field:
		x := ex.val(st, i.X)
		ft := i.X.Type().Underlying().(*types.Struct).Field(i.Field).Type()
		if x.sort == SU {
			ex.set(st, i, app(fmt.Sprintf("ofld:%s.%d", namedPath(i.X.Type()), i.Field), sortOf(ft), x))
			return
		}
		ex.set(st, i, fld(x, i.Field, sortOf(ft)))
	case *ssa.IndexAddr:
		x, idx := ex.val(st, i.X), ex.val(st, i.Index)
		et := elemType(i.X.Type())
		if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
			n := mkInt(p.Elem().Underlying().(*types.Array).Len())
			ex.bounds(st, idx, n, "array index in range")
		} else {
			ex.bounds(st, idx, ex.lenOf(st, x), "slice index in range")
		}
		ex.set(st, i, ex.elemAddr(st, x, idx, et, true))
	case *ssa.Index:
		x, idx := ex.val(st, i.X), ex.val(st, i.Index)
		et := elemType(i.X.Type())
		ex.bounds(st, idx, length(x), "index in range")
		ex.set(st, i, at(x, idx, sortOf(et)))
	case *ssa.Store:
		v := ex.val(st, i.Val)
		ex.store(st, ex.val(st, i.Addr), v, i.Val.Type())
	case *ssa.UnOp:
		ex.set(st, i, ex.unop(st, i))
	case *ssa.BinOp:
		ex.set(st, i, ex.binop(st, i))
	case *ssa.MakeSlice:
		n := ex.val(st, i.Len)
		c := ex.val(st, i.Cap)
		ex.oblige(st, "bounds", token.NoPos, "make length non-negative", le(mkInt(0), n))
		et := elemType(i.Type())
		z := zeroOf(et)
		content := lam(c, func(*Term) *Term { return z })
		o := ex.newObj(types.NewSlice(et), "slice")
		st.heap[o.id] = content
		ex.set(st, i, mkRef(&SliceRef{o.id, nil, mkInt(0), n, c, 0, nil}))
	case *ssa.MakeMap:
		o := ex.newObj(i.Type(), "map")
		st.heap[o.id] = EmptyMap
		ex.set(st, i, mkRef(&MapRef{o.id}))
	case *ssa.MakeChan:
		o := ex.newObj(i.Type(), "chan")
		st.heap[o.id] = EmptySeq
		ex.set(st, i, mkRef(&PtrRef{o.id, nil}))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range i.Bindings {
			bs = append(bs, ex.val(st, b))
		}
		ex.set(st, i, mkRef(&CloRef{i.Fn.(*ssa.Function), bs}))
	case *ssa.MakeInterface:
		ex.set(st, i, ex.makeIface(st, ex.val(st, i.X), i.X.Type(), i.Type()))
	case *ssa.ChangeInterface:
		v := ex.val(st, i.X)
		if isError(i.X.Type()) && !isError(i.Type()) {
			v = mkRef(&IfaceRef{types.Universe.Lookup("error").Type(), v})
		}
		ex.set(st, i, v)
	case *ssa.ChangeType:
		ex.set(st, i, ex.val(st, i.X))
	case *ssa.Convert:
		ex.set(st, i, ex.convert(st, ex.val(st, i.X), i.X.Type(), i.Type()))
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		ex.fail("conversion %s", ins)
	case *ssa.TypeAssert:
		ex.set(st, i, ex.typeAssert(st, i))
	case *ssa.Extract:
		t := ex.val(st, i.Tuple)
		ft := i.Type()
		ex.set(st, i, fld(t, i.Index, sortOf(ft)))
	case *ssa.Slice:
		ex.set(st, i, ex.slice(st, i))
	case *ssa.Lookup:
		ex.set(st, i, ex.lookup(st, i))
	case *ssa.MapUpdate:
		m := ex.val(st, i.Map)
		k := ex.purify(st, ex.val(st, i.Key), nil)
		v := ex.val(st, i.Value)
		ex.mapStore(st, m, k, v)
	case *ssa.Range:
		m := ex.val(st, i.X)
		o := ex.newObj(types.Typ[types.Int], "iter")
		st.heap[o.id] = mkInt(0)
		if bt, ok := i.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			ex.set(st, i, mkRef(&IterRef{o.id, m, mkInt(0), true, nil, nil}))
			return
		}
		mt := i.X.Type().Underlying().(*types.Map)
		ex.set(st, i, mkRef(&IterRef{o.id, ex.mapOf(st, m), ex.choice("order", SInt), false, mt.Key(), mt.Elem()}))
	case *ssa.Next:
		ex.set(st, i, ex.next(st, i))
	case *ssa.Call:
		rs := ex.call(st, &i.Call, i)
		switch {
		case len(rs) == 1 && i.Call.Signature().Results().Len() <= 1:
			ex.set(st, i, rs[0])
		default:
			ex.set(st, i, mkStruct("", rs...))
		}
	case *ssa.Go:
		ex.goStmt(st, i)
	case *ssa.Defer:
		d := deferRec{guard: True, call: &i.Call, pos: i.Pos()}
		if !i.Call.IsInvoke() {
			if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
				d.fnv = ex.val(st, i.Call.Value)
			}
		} else {
			d.fnv = ex.val(st, i.Call.Value)
		}
		for _, a := range i.Call.Args {
			d.args = append(d.args, ex.val(st, a))
		}
		st.defers = append(st.defers, d)
	case *ssa.RunDefers:
		ds := st.defers
		st.defers = nil
		for k := len(ds) - 1; k >= 0; k-- {
			d := ds[k]
			g := ex.decide(st, d.guard)
			if g == False {
				continue
			}
			if g == True {
				ex.callWith(st, d.call, d.fnv, d.args, nil)
				continue
			}
			s2 := st.clone()
			s2.branch(not(g))
			st.branch(g)
			ex.callWith(st, d.call, d.fnv, d.args, nil)
			*st = *ex.mergeStates([]*State{st.clone(), s2})
		}
	case *ssa.Send:
		ex.send(st, ex.val(st, i.Chan), ex.val(st, i.X))
	case *ssa.Select:
		ex.set(st, i, ex.selectStmt(st, i))
	default:
		ex.fail("instruction %T %s", ins, ins)
	}
}

func (ex *Exec) makeIface(st *State, v *Term, from, to types.Type) *Term {
	if isError(to) {
		return True // a concrete error value is never nil
	}
	if isPoint(from) || isScalar(from) {
		return v
	}
	return mkRef(&IfaceRef{from, v})
}

func (ex *Exec) typeAssert(st *State, i *ssa.TypeAssert) *Term {
	x := ex.val(st, i.X)
	T := i.AssertedType
	mkres := func(v, ok *Term) *Term {
		if i.CommaOk {
			return mkStruct("", v, ok)
		}
		ex.oblige(st, "assert", i.Pos(), "type assertion to "+T.String(), ok)
		return v
	}
	return ex.assertVal(st, x, T, mkres)
}

func (ex *Exec) assertVal(st *State, x *Term, T types.Type, mkres func(v, ok *Term) *Term) *Term {
	if x.op == OpIte && x.sort == SRef {
		a := ex.assertVal(st, x.args[1], T, func(v, ok *Term) *Term { return mkStruct("", v, ok) })
		b := ex.assertVal(st, x.args[2], T, func(v, ok *Term) *Term { return mkStruct("", v, ok) })
		r := ex.iteLoad(st, x.args[0], a, b)
		return mkres(fld(r, 0, sortOf(T)), fld(r, 1, SBool))
	}
	if r, ok := x.ref.(*IfaceRef); ok {
		if types.Identical(r.typ, T) {
			return mkres(r.val, True)
		}
		if it, ok := T.Underlying().(*types.Interface); ok {
			return mkres(x, mkBool(types.Implements(r.typ, it)))
		}
		return mkres(zeroOf(T), False)
	}
	if _, ok := x.ref.(*NilRef); ok {
		return mkres(zeroOf(T), False)
	}
	if x.sort == sortOf(T) && x.sort != SU {
		return mkres(x, True)
	}
	return mkres(app("as:"+T.String(), sortOf(T), x), app("is:"+T.String(), SBool, x))
}

func (ex *Exec) mapOf(st *State, m *Term) *Term {
	if m.sort == SMap {
		return m
	}
	if m.op == OpIte {
		return ite(m.args[0], ex.mapOf(st, m.args[1]), ex.mapOf(st, m.args[2]))
	}
	switch r := m.ref.(type) {
	case *MapRef:
		ex.access(st, r.obj, nil, false)
		return st.heap[r.obj]
	case *NilRef:
		return EmptyMap
	}
	ex.fail("mapOf %s", clip(m.String(), 80))
	return nil
}

func (ex *Exec) mapStore(st *State, m, k, v *Term) {
	if m.op == OpIte {
		ex.fail("store into conditional map")
	}
	r, ok := m.ref.(*MapRef)
	if !ok {
		ex.oblige(st, "frame", token.NoPos, "write to a map that is nil or not owned", False)
		return
	}
	ex.access(st, r.obj, nil, true)
	if ex.writeHook != nil {
		ex.writeHook(st, r.obj)
	}
	if v == nil {
		st.heap[r.obj] = mdel(st.heap[r.obj], k)
		return
	}
	st.heap[r.obj] = mupd(st.heap[r.obj], k, v)
}

func (ex *Exec) lookup(st *State, i *ssa.Lookup) *Term {
	x := ex.val(st, i.X)
	if bt, ok := i.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		idx := ex.val(st, i.Index)
		ex.bounds(st, idx, length(x), "string index in range")
		return at(x, idx, SInt)
	}
	mt := i.X.Type().Underlying().(*types.Map)
	k := ex.purify(st, ex.val(st, i.Index), nil)
	m := ex.mapOf(st, x)
	has := mhas(m, k)
	z := zeroOf(mt.Elem())
	var v *Term
	if has == False {
		v = z
	} else {
		v = mget(m, k, sortOf(mt.Elem()))
		if !i.CommaOk {
			has = ex.decide(st, has)
			ex.mA, ex.mB = st, st
			v = ex.iteVal(has, v, z)
			ex.mA, ex.mB = nil, nil
		} else if v.sort != z.sort || v.sort == SRef {
			// keep the stored value: callers test ok before use
		} else {
			v = ite(has, v, z)
		}
	}
	if i.CommaOk {
		return mkStruct("", v, has)
	}
	return v
}

// keyAt is the key at position p of map m in the order ord; every range statement has an order of its own.
func keyAt(m, ord, p *Term, s Sort) *Term { return app("keyat", s, m, ord, p) }

func (ex *Exec) next(st *State, i *ssa.Next) *Term {
	it, ok := ex.val(st, i.Iter).ref.(*IterRef)
	if !ok {
		ex.fail("next on %s", ex.val(st, i.Iter))
	}
	pos := st.heap[it.obj]
	if it.str {
		n := length(it.m)
		okc := lt(pos, n)
		st.heap[it.obj] = addI(pos, 1)
		return mkStruct("", okc, pos, at(it.m, pos, SInt))
	}
	n := app("maplen", SInt, it.m)
	okc := lt(pos, n)
	k := keyAt(it.m, it.ord, pos, sortOf(it.kt))
	st.heap[it.obj] = addI(pos, 1)
	return mkStruct("", okc, k, mget(it.m, k, sortOf(it.vt)))
}

func (ex *Exec) unop(st *State, i *ssa.UnOp) *Term {
	x := ex.val(st, i.X)
	switch i.Op {
	case token.MUL:
		return ex.load(st, x, i.Type())
	case token.NOT:
		return not(x)
	case token.SUB:
		if x.sort == SInt {
			return neg(x)
		}
		return app("fneg", SU, x)
	case token.XOR:
		if x.sort == SInt {
			// ^x over uint: all-ones minus x
			if b, ok := i.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				return sub(mkBig(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1)), SInt), x)
			}
			return sub(mkInt(-1), x)
		}
	case token.ARROW:
		return ex.recv(st, x, i.Type(), i.CommaOk)
	}
	ex.fail("unop %s", i)
	return nil
}

func (ex *Exec) isNil(st *State, v *Term) *Term {
	if v.op == OpIte {
		return ite(v.args[0], ex.isNil(st, v.args[1]), ex.isNil(st, v.args[2]))
	}
	switch v.sort {
	case SPt:
		return mkBool(v == nilPt)
	case SSc:
		return mkBool(v == nilSc)
	case SSeq:
		if v == EmptySeq {
			return True
		}
		return and(eq(length(v), mkInt(0)), app("isnilseq", SBool, v))
	case SMap:
		switch v.op {
		case OpMEmpty:
			return True
		case OpMUpd, OpMLam, OpMDel:
			return False
		}
		return and(eq(app("maplen", SInt, dom(v)), mkInt(0)), app("isnilmap", SBool, v))
	case SRef:
		if r, ok := v.ref.(*SliceRef); ok {
			if r.snap == nil {
				return False
			}
			return ex.isNil(st, r.snap)
		}
		if v.op == OpPtr {
			_, ok := v.ref.(*NilRef)
			return mkBool(ok)
		}
		return False
	}
	return False
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil && sortOf(c.Type()) != SBool
}

func (ex *Exec) binop(st *State, i *ssa.BinOp) *Term {
	if i.Op == token.EQL || i.Op == token.NEQ {
		var r *Term
		if isNilConst(i.Y) && sortOf(i.X.Type()) != SInt {
			r = ex.isNil(st, ex.val(st, i.X))
		} else if isNilConst(i.X) && sortOf(i.X.Type()) != SInt {
			r = ex.isNil(st, ex.val(st, i.Y))
		} else {
			x, y := ex.val(st, i.X), ex.val(st, i.Y)
			if isPoint(i.X.Type()) || isScalar(i.X.Type()) {
				// interface identity comparison: undetermined
				if x == y {
					r = True
				} else {
					r = app("ifaceeq", SBool, x, y)
				}
			} else {
				if x.sort == SStruct || x.sort == SSeq {
					x, y = ex.purify(st, x, nil), ex.purify(st, y, nil)
				}
				if x.sort == SRef && y.sort != SRef || y.sort == SRef && x.sort != SRef {
					r = False
				} else {
					r = eq(x, y)
				}
			}
		}
		if i.Op == token.NEQ {
			r = not(r)
		}
		return r
	}
	x, y := ex.val(st, i.X), ex.val(st, i.Y)
	if x.sort == SInt && y.sort == SInt {
		return ex.intOp(st, i.Op, x, y, i.X.Type())
	}
	if x.sort == SSeq && i.Op == token.ADD {
		return cat(x, y)
	}
	if x.sort == SSeq {
		switch i.Op {
		case token.LSS:
			return app("strlt", SBool, x, y)
		case token.GTR:
			return app("strlt", SBool, y, x)
		case token.LEQ:
			return not(app("strlt", SBool, y, x))
		case token.GEQ:
			return not(app("strlt", SBool, x, y))
		}
	}
	s := SU
	switch i.Op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		s = SBool
	}
	return app("op"+i.Op.String(), s, x, y)
}

func (ex *Exec) intOp(st *State, op token.Token, x, y *Term, t types.Type) *Term {
	switch op {
	case token.ADD:
		return add(x, y)
	case token.SUB:
		r := sub(x, y)
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			if ex.decide(st, le(mkInt(0), r)) != True {
				return app("wrap", SInt, r)
			}
		}
		return r
	case token.MUL:
		return mul(x, y)
	case token.QUO, token.REM:
		c, ok := constInt(y)
		if ok && c > 0 && c < 1<<31 {
			nn := ex.decide(st, le(mkInt(0), x))
			var q *Term
			if nn == True {
				q = divF(x, c)
			} else {
				q = ite(nn, divF(x, c), neg(divF(neg(x), c)))
			}
			if op == token.QUO {
				return q
			}
			return sub(x, scale(q, big.NewInt(c)))
		}
		if !ok {
			ex.oblige(st, "div", token.NoPos, "division by zero", not(eq(y, mkInt(0))))
		}
		if q := exactQuo(x, y); q != nil && ex.decide(st, not(eq(y, mkInt(0)))) == True {
			if op == token.REM {
				return mkInt(0)
			}
			return q
		}
		if op == token.REM {
			r := app("rem", SInt, x, y)
			// 0 <= r < y for x >= 0, y > 0
			st.assume(implies(and(le(mkInt(0), x), lt(mkInt(0), y)), and(le(mkInt(0), r), lt(r, y))))
			return r
		}
		return app("quo", SInt, x, y)
	case token.SHR:
		c, ok := constInt(y)
		if ok && c < 31 {
			if cx, okx := constVal(x); okx {
				return mkBig(new(big.Int).Rsh(cx, uint(c)), SInt)
			}
			return divF(x, 1<<uint(c))
		}
	case token.SHL:
		c, ok := constInt(y)
		if ok && c < 62 {
			return scale(x, new(big.Int).Lsh(big.NewInt(1), uint(c)))
		}
	case token.LSS:
		return lt(x, y)
	case token.LEQ:
		return le(x, y)
	case token.GTR:
		return lt(y, x)
	case token.GEQ:
		return le(y, x)
	}
	return app("iop"+op.String(), SInt, x, y)
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := uint(64)
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	if b.Info()&types.IsUnsigned != 0 {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1)), true
	}
	h := new(big.Int).Lsh(big.NewInt(1), bits-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1)), true
}

func (ex *Exec) convert(st *State, v *Term, from, to types.Type) *Term {
	fs, ts := sortOf(from), sortOf(to)
	if fs == SInt && ts == SInt {
		flo, fhi, _ := intRange(from)
		tlo, thi, ok := intRange(to)
		if !ok || flo.Cmp(tlo) >= 0 && fhi.Cmp(thi) <= 0 {
			return v
		}
		in := ex.decide(st, and(le(mkBig(tlo, SInt), v), le(v, mkBig(thi, SInt))))
		if in == True {
			return v
		}
		w := new(big.Int).Add(new(big.Int).Sub(thi, tlo), big.NewInt(1))
		if tlo.Sign() == 0 && w.IsInt64() && w.Int64() <= 1<<32 {
			return modF(v, w.Int64())
		}
		return ite(in, v, app("wrap:"+to.String(), SInt, v))
	}
	if fs == SSeq && ts == SSeq {
		// string <-> []byte
		c := ex.seqOf(st, v)
		if _, ok := to.Underlying().(*types.Slice); ok {
			return ex.allocSlice(st, elemType(to), c)
		}
		return c
	}
	if fs == SRef && ts == SSeq {
		return ex.seqOf(st, v)
	}
	if v.sort == SRef && ts == SSeq {
		return ex.seqOf(st, v)
	}
	return app("conv:"+types.TypeString(to, nil), ts, v)
}

func (ex *Exec) slice(st *State, i *ssa.Slice) *Term {
	x := ex.val(st, i.X)
	var lo, hi *Term = mkInt(0), nil
	if i.Low != nil {
		lo = ex.val(st, i.Low)
	}
	if i.High != nil {
		hi = ex.val(st, i.High)
	}
	// pointer to array
	if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		n := mkInt(p.Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		ex.oblige(st, "bounds", token.NoPos, "slice bounds", and(le(mkInt(0), lo), le(lo, hi), le(hi, n)))
		if r, ok := x.ref.(*PtrRef); ok {
			return mkRef(&SliceRef{r.obj, r.path, lo, sub(hi, lo), sub(n, lo), st.gens[r.obj], nil})
		}
		return subSeq(ex.load(st, x, p.Elem()), lo, sub(hi, lo))
	}
	return ex.sliceVal(st, x, lo, hi)
}

func (ex *Exec) sliceVal(st *State, x, lo, hi *Term) *Term {
	if x.op == OpIte && x.sort == SRef {
		return mk(&Term{op: OpIte, sort: SRef, args: []*Term{x.args[0], ex.sliceVal(st, x.args[1], lo, hi), ex.sliceVal(st, x.args[2], lo, hi)}})
	}
	if r, ok := x.ref.(*SliceRef); ok {
		h := hi
		if h == nil {
			h = r.len
		}
		ex.oblige(st, "bounds", token.NoPos, "slice bounds", and(le(mkInt(0), lo), le(lo, h), le(h, r.cap)))
		return mkRef(&SliceRef{r.obj, r.path, add(r.off, lo), sub(h, lo), sub(r.cap, lo), r.gen, r.snap})
	}
	s := ex.seqOf(st, x)
	if hi == nil {
		hi = length(s)
	}
	ex.oblige(st, "bounds", token.NoPos, "slice bounds", and(le(mkInt(0), lo), le(lo, hi), le(hi, length(s))))
	return subSeq(s, lo, sub(hi, lo))
}

// ---------------------------------------------------------------- calls

func (ex *Exec) call(st *State, c *ssa.CallCommon, ins *ssa.Call) []*Term {
	var fnv *Term
	if c.IsInvoke() {
		fnv = ex.val(st, c.Value)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		if _, isF := c.Value.(*ssa.Function); !isF {
			fnv = ex.val(st, c.Value)
		}
	}
	var args []*Term
	for _, a := range c.Args {
		args = append(args, ex.val(st, a))
	}
	return ex.callWith(st, c, fnv, args, ins)
}

func (ex *Exec) callWith(st *State, c *ssa.CallCommon, fnv *Term, args []*Term, ins *ssa.Call) []*Term {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ex.builtin(st, b, args, c)
	}
	if c.IsInvoke() {
		return ex.invoke(st, c, fnv, args)
	}
	if f := c.StaticCallee(); f != nil {
		var binds []*Term
		if fnv != nil {
			if cr, ok := fnv.ref.(*CloRef); ok {
				binds = cr.binds
			}
		}
		return ex.callFunc(st, f, args, binds, c)
	}
	if fnv != nil {
		if cr, ok := fnv.ref.(*CloRef); ok {
			return ex.callFunc(st, cr.fn, args, cr.binds, c)
		}
		if fnv.op == OpIte {
			// conditional function value
			s2 := st.clone()
			st.branch(fnv.args[0])
			s2.branch(not(fnv.args[0]))
			var outs []outcome
			if !st.dead() {
				r := ex.callWith(st, c, fnv.args[1], args, ins)
				outs = append(outs, outcome{st.clone(), r})
			}
			if !s2.dead() {
				r := ex.callWith(s2, c, fnv.args[2], args, ins)
				outs = append(outs, outcome{s2, r})
			}
			o := ex.mergeOutcomes(outs)
			*st = *o.st
			return o.res
		}
		if fnv.ref != nil {
			if _, ok := fnv.ref.(*NilRef); ok {
				ex.oblige(st, "nil", token.NoPos, "call of nil function", False)
				st.branch(False)
				return ex.zeroResults(c.Signature())
			}
		}
		// symbolic function value: pure uninterpreted function of its arguments
		return ex.symCall(st, fnv, args, c.Signature())
	}
	ex.fail("call %s", c)
	return nil
}

func (ex *Exec) symCall(st *State, fnv *Term, args []*Term, sig *types.Signature) []*Term {
	var as []*Term
	for _, a := range args {
		as = append(as, ex.purify(st, a, nil))
	}
	var rs []*Term
	for k := 0; k < sig.Results().Len(); k++ {
		rt := sig.Results().At(k).Type()
		rs = append(rs, app(fmt.Sprintf("apply%d", k), sortOf(rt), append([]*Term{fnv}, as...)...))
	}
	return rs
}

func (ex *Exec) zeroResults(sig *types.Signature) []*Term {
	var r []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, zeroOf(sig.Results().At(i).Type()))
	}
	return r
}

func inRepo(f *ssa.Function) bool {
	p := f.Pkg
	if p == nil && f.Parent() != nil {
		return inRepo(f.Parent())
	}
	if p == nil && f.Origin() != nil {
		return inRepo(f.Origin())
	}
	if p == nil && f.Signature.Recv() != nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), repoPath)
		}
	}
	return p != nil && strings.HasPrefix(p.Pkg.Path(), repoPath)
}

func (ex *Exec) callFunc(st *State, f *ssa.Function, args, binds []*Term, c *ssa.CallCommon) []*Term {
	g := f
	if f.Origin() != nil {
		g = f.Origin()
	}
	if g.Pkg != nil && g.Pkg.Pkg.Path() == ghostPath {
		if r, ok := ex.ghost(st, g.Name(), f, args, c); ok {
			return r
		}
	}
	if inRepo(f) {
		if sp, ok := ex.specs[f]; ok {
			ex.applied[f.String()+" by its contract "+sp.by] = true
			return ex.callFn(st, sp.spec, args, nil)
		}
		name := f.String()
		if m, ok := repoModels[name]; ok {
			if r, ok := m(ex, st, f, args); ok {
				ex.assumed[name+" (modelled)"] = true
				return r
			}
		}
		if f.Synthetic == "" || strings.HasPrefix(f.Synthetic, "wrapper") || strings.HasPrefix(f.Synthetic, "bound") || strings.HasPrefix(f.Synthetic, "instance") || strings.HasPrefix(f.Synthetic, "thunk") {
			if !strings.Contains(ex.prog.fset.Position(f.Pos()).Filename, "zz_verif") {
				ex.inlined[name] = true
			}
			return ex.callFn(st, f, args, binds)
		}
		return ex.callFn(st, f, args, binds)
	}
	return ex.external(st, f, args, c)
}

func (ex *Exec) builtin(st *State, b *ssa.Builtin, args []*Term, c *ssa.CallCommon) []*Term {
	switch b.Name() {
	case "len":
		t := c.Args[0].Type().Underlying()
		if _, ok := t.(*types.Map); ok {
			return []*Term{app("maplen", SInt, ex.mapOf(st, args[0]))}
		}
		if p, ok := t.(*types.Pointer); ok {
			return []*Term{mkInt(p.Elem().Underlying().(*types.Array).Len())}
		}
		if _, ok := t.(*types.Chan); ok {
			return []*Term{app("chanlen", SInt, args[0])}
		}
		return []*Term{ex.lenOf(st, args[0])}
	case "cap":
		if r, ok := args[0].ref.(*SliceRef); ok {
			return []*Term{r.cap}
		}
		return []*Term{app("cap", SInt, args[0])}
	case "append":
		return []*Term{ex.appendOp(st, args[0], args[1], elemType(c.Args[0].Type()))}
	case "copy":
		d, ok := args[0].ref.(*SliceRef)
		src := ex.seqOf(st, args[1])
		if !ok {
			ex.fail("copy into %s", clip(args[0].String(), 60))
		}
		n := ite(le(length(src), d.len), length(src), d.len)
		cc := ex.decide(st, le(length(src), d.len))
		if cc == True {
			n = length(src)
		} else if cc == False {
			n = d.len
		}
		ex.writeRange(st, d, mkInt(0), subSeq(src, mkInt(0), n))
		return []*Term{n}
	case "delete":
		ex.mapStore(st, args[0], ex.purify(st, args[1], nil), nil)
		return nil
	case "print", "println":
		return nil
	case "close":
		return nil
	case "ssa:wrapnilchk":
		return []*Term{args[0]}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if b.Name() == "min" {
				r = ite(le(r, a), r, a)
			} else {
				r = ite(le(r, a), a, r)
			}
		}
		return []*Term{r}
	}
	ex.fail("builtin %s", b.Name())
	return nil
}

// writeRange overwrites d[at:at+len(v)] in place.
func (ex *Exec) writeRange(st *State, d *SliceRef, off, v *Term) {
	ex.accessRange(st, d, true)
	b := ex.backing(st, d)
	n := length(b)
	s := add(d.off, off)
	e := add(s, length(v))
	nb := cat(subSeq(b, mkInt(0), s), v, subSeq(b, e, sub(n, e)))
	o := ex.objs[d.obj]
	if ex.writeHook != nil {
		ex.writeHook(st, d.obj)
	}
	st.heap[d.obj] = ex.setPath(st, st.heap[d.obj], d.path, o.typ, nb)
}

func (ex *Exec) appendOp(st *State, a, b *Term, et types.Type) *Term {
	bs := ex.seqOf(st, b)
	if a.op == OpIte && a.sort == SRef {
		return ex.allocSlice(st, et, cat(ex.seqOf(st, a), bs))
	}
	r, ok := a.ref.(*SliceRef)
	if !ok {
		if bs == EmptySeq {
			return a
		}
		return ex.allocGrown(st, et, cat(ex.seqOf(st, a), bs))
	}
	if bs == EmptySeq {
		return a
	}
	// spare capacity?
	back := ex.backing(st, r)
	end := add(r.off, r.len)
	full := ex.decide(st, eq(end, length(back)))
	if full == True || r.cap == r.len {
		o := ex.objs[r.obj]
		if o.name == "grown" {
			if prev, ok := st.spent[r.obj]; ok && prev == end {
				ex.oblige(st, "alias", token.NoPos, "two appends share the spare capacity of one slice", False)
			}
			st.spent[r.obj] = end
			if o.scope != ex.curLoop() && inLoop(ex.curLoop(), o.scope) {
				ex.oblige(st, "alias", token.NoPos, "append in a loop to a slice with spare capacity kept outside the loop", False)
			}
		}
		return ex.allocGrown(st, et, cat(subSeq(back, r.off, r.len), bs))
	}
	room := ex.decide(st, le(length(bs), sub(r.cap, r.len)))
	if room == True {
		// in place
		ex.writeRange(st, r, r.len, bs)
		return mkRef(&SliceRef{r.obj, r.path, r.off, add(r.len, length(bs)), r.cap, r.gen, nil})
	}
	if room == False {
		return ex.allocGrown(st, et, cat(subSeq(back, r.off, r.len), bs))
	}
	// undetermined: both
	ex.oblige(st, "alias", token.NoPos, "append may overwrite elements visible through another slice", False)
	return ex.allocGrown(st, et, cat(subSeq(back, r.off, r.len), bs))
}

func (ex *Exec) allocGrown(st *State, et types.Type, c *Term) *Term {
	r := ex.allocSlice(st, et, c)
	ex.objs[r.ref.(*SliceRef).obj].name = "grown"
	return r
}

func (ex *Exec) curLoop() *loopCtx {
	if len(ex.loops) == 0 {
		return nil
	}
	return ex.loops[len(ex.loops)-1]
}

// inLoop: is cur nested strictly inside anc's scope (anc == nil means function level)
func inLoop(cur, anc *loopCtx) bool {
	for c := cur; c != nil; c = c.parent {
		if c.parent == anc {
			return true
		}
	}
	return false
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
