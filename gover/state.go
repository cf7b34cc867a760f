package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

const repoPath = "github.com/ldsec/unlynx"
const cmapType = "github.com/fanliao/go-concurrentMap.ConcurrentMap"
const ghostPath = repoPath + "/lib/zzghost"

func namedPath(t types.Type) string {
	switch n := types.Unalias(t).(type) {
	case *types.Named:
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func isPoint(t types.Type) bool  { return namedPath(t) == "go.dedis.ch/kyber/v3.Point" }
func isScalar(t types.Type) bool { return namedPath(t) == "go.dedis.ch/kyber/v3.Scalar" }
func isError(t types.Type) bool  { return namedPath(t) == "error" }

// opaque struct types from outside the repository keep their content abstract
func opaqueStruct(t types.Type) bool {
	n := namedPath(t)
	if n == "" {
		return false
	}
	if nm, ok := types.Unalias(t).(*types.Named); ok && nm.Obj().Pkg() != nil {
		p := nm.Obj().Pkg().Path()
		if len(p) >= len(repoPath) && p[:len(repoPath)] == repoPath {
			return false
		}
		switch p {
		case "go.dedis.ch/kyber/v3/util/key":
			return false
		}
		return true
	}
	return false
}

func sortOf(t types.Type) Sort {
	t = types.Unalias(t)
	if isPoint(t) {
		return SPt
	}
	if isScalar(t) {
		return SSc
	}
	if isError(t) {
		return SBool
	}
	switch namedPath(t) {
	case "sync.Mutex", "sync.RWMutex", "sync.WaitGroup":
		return SInt
	case cmapType:
		return SMap
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SSeq
		}
		return SU
	case *types.Slice, *types.Array:
		return SSeq
	case *types.Struct:
		if opaqueStruct(t) {
			return SU
		}
		return SStruct
	case *types.Map:
		return SMap
	case *types.Pointer, *types.Signature:
		return SRef
	case *types.Tuple:
		return SStruct
	}
	return SU
}

func zeroOf(t types.Type) *Term {
	t = types.Unalias(t)
	switch sortOf(t) {
	case SPt:
		return nilPt
	case SSc:
		return nilSc
	case SBool:
		return False
	case SInt:
		return mkInt(0)
	case SSeq:
		if a, ok := t.Underlying().(*types.Array); ok {
			z := zeroOf(a.Elem())
			return lam(mkInt(a.Len()), func(*Term) *Term { return z })
		}
		return EmptySeq
	case SStruct:
		if st, ok := t.Underlying().(*types.Struct); ok {
			var fs []*Term
			for i := 0; i < st.NumFields(); i++ {
				fs = append(fs, zeroOf(st.Field(i).Type()))
			}
			return mkStruct("", fs...)
		}
		if tp, ok := t.(*types.Tuple); ok {
			var fs []*Term
			for i := 0; i < tp.Len(); i++ {
				fs = append(fs, zeroOf(tp.At(i).Type()))
			}
			return mkStruct("", fs...)
		}
	case SMap:
		return EmptyMap
	case SRef:
		return nilRef
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return nilRef
	}
	switch namedPath(t) {
	case "sync.Mutex", "sync.RWMutex":
		return mkInt(0)
	case "sync.WaitGroup":
		return mkInt(0)
	}
	return app("zero:"+types.TypeString(t, nil), sortOf(t))
}

// ---------------------------------------------------------------- objects

type objInfo struct {
	id    int
	typ   types.Type // type of the content
	name  string
	param bool // reachable from a contract parameter or global
	fresh bool // allocated during verification
	scope *loopCtx
	task  *task
	pure  bool // content immutable: any write is a frame violation
}

type exitErr struct{ msg string }

type task struct {
	id     int
	parent *task
	site   token.Pos
	bind   []*binder // loop binders enclosing the spawn, relative to the join scope
	order  int
	end    int
	wgs    map[int]bool
}

type binder struct {
	k, n *Term // iteration symbol and trip count (n known after the loop is solved)
	lc   *loopCtx
}

type loopCtx struct {
	parent *loopCtx
	fn     *ssa.Function
	header *ssa.BasicBlock
	k      *Term
}

type deferRec struct {
	guard *Term
	call  *ssa.CallCommon
	fnv   *Term
	args  []*Term
	pos   token.Pos
}

// State is a symbolic machine state.
type State struct {
	env    map[ssa.Value]*Term
	heap   map[int]*Term
	gens   map[int]int
	guard  []*Term
	facts  []*Term
	defers []deferRec
	locks  []string
	spent  map[int]*Term // objects whose spare capacity was consumed by an append at this length
}

func newState() *State {
	return &State{env: map[ssa.Value]*Term{}, heap: map[int]*Term{}, gens: map[int]int{}, spent: map[int]*Term{}}
}

func (s *State) clone() *State {
	n := &State{env: make(map[ssa.Value]*Term, len(s.env)), heap: make(map[int]*Term, len(s.heap)), gens: make(map[int]int, len(s.gens)), spent: make(map[int]*Term, len(s.spent))}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.gens {
		n.gens[k] = v
	}
	for k, v := range s.spent {
		n.spent[k] = v
	}
	n.guard = append([]*Term{}, s.guard...)
	n.facts = append([]*Term{}, s.facts...)
	n.defers = append([]deferRec{}, s.defers...)
	n.locks = append([]string{}, s.locks...)
	return n
}

func (s *State) assume(c *Term) {
	if c == True {
		return
	}
	s.facts = append(s.facts, c)
}
func (s *State) branch(c *Term) {
	if c == True {
		return
	}
	if c.op == OpAnd {
		for _, a := range c.args {
			s.branch(a)
		}
		return
	}
	for _, g := range s.guard {
		if g == c {
			return
		}
	}
	s.guard = append(s.guard, c)
}

func (s *State) dead() bool {
	for _, g := range s.guard {
		if g == False {
			return true
		}
	}
	return false
}

func (s *State) hyps() []*Term {
	return append(append([]*Term{}, s.guard...), s.facts...)
}

func commonPrefix(a, b []*Term) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

// merge joins two mutually exclusive states.
func (ex *Exec) merge(a, b *State) (*State, *Term) {
	n := commonPrefix(a.guard, b.guard)
	ra, rb := a.guard[n:], b.guard[n:]
	ca, cb := and(ra...), and(rb...)
	c := ca
	if len(ra) > 0 && len(rb) > 0 && ra[0] == not(rb[0]) {
		c = ra[0]
	} else if len(rb) == 1 {
		c = not(cb)
	}
	r := &State{env: map[ssa.Value]*Term{}, heap: map[int]*Term{}, gens: map[int]int{}, spent: map[int]*Term{}}
	r.guard = append([]*Term{}, a.guard[:n]...)
	r.branch(or(ca, cb))
	m := commonPrefix(a.facts, b.facts)
	r.facts = append([]*Term{}, a.facts[:m]...)
	seen := map[*Term]bool{}
	inB := map[*Term]bool{}
	for _, f := range b.facts[m:] {
		inB[f] = true
	}
	for _, f := range a.facts[m:] {
		if inB[f] {
			r.assume(f)
			seen[f] = true
			continue
		}
		r.assume(implies(ca, f))
	}
	for _, f := range b.facts[m:] {
		if !seen[f] {
			r.assume(implies(cb, f))
		}
	}
	for k, v := range a.env {
		if w, ok := b.env[k]; ok {
			r.env[k] = ex.iteVal(c, v, w)
		}
	}
	for k, v := range a.heap {
		if w, ok := b.heap[k]; ok {
			r.heap[k] = ex.iteVal(c, v, w)
		} else {
			r.heap[k] = v
		}
	}
	for k, w := range b.heap {
		if _, ok := a.heap[k]; !ok {
			r.heap[k] = w
		}
	}
	for k, v := range a.gens {
		r.gens[k] = v
	}
	for k, v := range b.gens {
		if v > r.gens[k] {
			r.gens[k] = v
		}
	}
	for k, v := range a.spent {
		r.spent[k] = v
	}
	for k, v := range b.spent {
		r.spent[k] = v
	}
	// defers: common prefix unguarded, rest guarded
	i := 0
	for i < len(a.defers) && i < len(b.defers) && a.defers[i].pos == b.defers[i].pos && a.defers[i].fnv == b.defers[i].fnv {
		r.defers = append(r.defers, a.defers[i])
		i++
	}
	for _, d := range a.defers[i:] {
		d.guard = and(d.guard, ca)
		r.defers = append(r.defers, d)
	}
	for _, d := range b.defers[i:] {
		d.guard = and(d.guard, cb)
		r.defers = append(r.defers, d)
	}
	if fmt.Sprint(a.locks) == fmt.Sprint(b.locks) {
		r.locks = append([]string{}, a.locks...)
	} else {
		// inconsistent lock state at a join: remember both, flagged
		set := map[string]bool{}
		for _, l := range append(append([]string{}, a.locks...), b.locks...) {
			set[l] = true
		}
		for l := range set {
			r.locks = append(r.locks, l)
		}
		sort.Strings(r.locks)
		ex.oblige(r, "lock", token.NoPos, "lock held on one path only", False)
	}
	return r, c
}

// iteVal merges two values; mixed representations (pure value vs reference) are kept as Ite terms.
func (ex *Exec) iteVal(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.sort != b.sort && !(a.sort.numeric() && b.sort.numeric()) {
		return mk(&Term{op: OpIte, sort: SRef, args: []*Term{c, a, b}})
	}
	if a.sort == SRef && b.sort == SRef {
		sa, oka := a.ref.(*SliceRef)
		sb, okb := b.ref.(*SliceRef)
		if oka && okb && sa.obj == sb.obj && pathKey(sa.path) == pathKey(sb.path) && sa.gen == sb.gen && sa.snap == sb.snap {
			return mkRef(&SliceRef{sa.obj, sa.path, ite(c, sa.off, sb.off), ite(c, sa.len, sb.len), ite(c, sa.cap, sb.cap), sa.gen, sa.snap})
		}
		pa, oka := a.ref.(*PtrRef)
		pb, okb := b.ref.(*PtrRef)
		if oka && okb && pa.obj == pb.obj && len(pa.path) == len(pb.path) {
			ok := true
			np := make([]PathElem, len(pa.path))
			for i := range pa.path {
				x, y := pa.path[i], pb.path[i]
				if (x.idx == nil) != (y.idx == nil) || x.f != y.f {
					ok = false
					break
				}
				np[i] = x
				if x.idx != nil {
					np[i].idx = ite(c, x.idx, y.idx)
				}
			}
			if ok {
				return mkRef(&PtrRef{pa.obj, np})
			}
		}
		ia, oka := a.ref.(*IfaceRef)
		ib, okb := b.ref.(*IfaceRef)
		if oka && okb && types.Identical(ia.typ, ib.typ) {
			return mkRef(&IfaceRef{ia.typ, ex.iteVal(c, ia.val, ib.val)})
		}
		return mk(&Term{op: OpIte, sort: SRef, args: []*Term{c, a, b}})
	}
	if a.sort == SStruct && a.op == OpMk && b.op == OpMk && len(a.args) == len(b.args) {
		fs := make([]*Term, len(a.args))
		for i := range fs {
			fs[i] = ex.iteVal(c, a.args[i], b.args[i])
		}
		return mkStruct("", fs...)
	}
	return ite(c, a, b)
}
