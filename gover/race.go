package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// access records a read or write of shared memory made during a recorded run.
type access struct {
	obj   int
	path  []PathElem
	rng   bool // the last path element is the range [lo, lo+n)
	lo, n *Term
	write bool
	guard []*Term
	locks []string
	pos   token.Pos
	t     *task
	binds []*binder
	order int
}

func (ex *Exec) tracking(o *objInfo) bool {
	if ex.quiet > 0 || !ex.accOn {
		return false
	}
	return true
}

func (ex *Exec) curTask() *task {
	if len(ex.tasks) == 0 {
		return nil
	}
	return ex.tasks[len(ex.tasks)-1]
}

func (ex *Exec) addAccess(st *State, a *access) {
	a.guard = st.hyps()
	a.locks = append([]string{}, st.locks...)
	a.pos = ex.curPos
	a.t = ex.curTask()
	ex.seq++
	a.order = ex.seq
	ex.acc = append(ex.acc, a)
}

func (ex *Exec) access(st *State, obj int, path []PathElem, write bool) {
	o := ex.objs[obj]
	if !ex.tracking(o) {
		return
	}
	if len(ex.openTasks) == 0 && len(ex.tasks) == 0 && len(ex.loops) == 0 {
		return
	}
	switch namedPath(o.typ) {
	case "sync.Mutex", "sync.RWMutex", "sync.WaitGroup":
		return
	}
	// objects created by this very task cannot be shared with siblings
	ex.addAccess(st, &access{obj: obj, path: path, write: write})
}

func (ex *Exec) accessRange(st *State, r *SliceRef, write bool) {
	o := ex.objs[r.obj]
	if !ex.tracking(o) {
		return
	}
	if len(ex.openTasks) == 0 && len(ex.tasks) == 0 && len(ex.loops) == 0 {
		return
	}
	ex.addAccess(st, &access{obj: r.obj, path: r.path, rng: true, lo: r.off, n: r.len, write: write})
}

// closeAccesses binds the accesses of a generic loop iteration.
func (ex *Exec) closeAccesses(ls *loopState, mark int, K *Term) {
	if len(ex.openTasks) == 0 && len(ex.tasks) == 0 && len(ex.loops) == 0 {
		ex.acc = ex.acc[:mark]
		return
	}
	b := &binder{k: ls.k, n: K, lc: ls.lc}
	for _, a := range ex.acc[mark:] {
		a.binds = append(a.binds, b)
	}
	for _, t := range ex.openTasks {
		if t.order > ls.order {
			t.bind = append(t.bind, b)
		}
	}
}

func (ex *Exec) goStmt(st *State, i *ssa.Go) {
	c := &i.Call
	var fnv *Term
	if c.IsInvoke() {
		fnv = ex.val(st, c.Value)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		if _, isF := c.Value.(*ssa.Function); !isF {
			fnv = ex.val(st, c.Value)
		}
	}
	var args []*Term
	for _, a := range c.Args {
		args = append(args, ex.val(st, a))
	}
	ex.seq++
	t := &task{id: ex.seq, parent: ex.curTask(), site: i.Pos(), order: ex.seq, wgs: map[int]bool{}}
	ex.tasks = append(ex.tasks, t)
	saveLocks := st.locks
	st.locks = nil
	ex.callWith(st, c, fnv, args, nil)
	if len(st.locks) > 0 {
		ex.oblige(st, "lock", i.Pos(), "goroutine releases its locks", False)
	}
	st.locks = saveLocks
	ex.tasks = ex.tasks[:len(ex.tasks)-1]
	ex.seq++
	t.end = ex.seq
	if ex.quiet == 0 {
		ex.openTasks = append(ex.openTasks, t)
	}
}

func shareLock(a, b *access) bool {
	for _, x := range a.locks {
		for _, y := range b.locks {
			if x == y {
				return true
			}
		}
	}
	return false
}

// within reports whether task t is u or a descendant of u.
func within(t, u *task) bool {
	for ; t != nil; t = t.parent {
		if t == u {
			return true
		}
	}
	return false
}

// join closes the tasks that reported to wg and checks that they cannot interfere.
func (ex *Exec) join(st *State, wg int) {
	if ex.quiet > 0 {
		return
	}
	var js, rest []*task
	for _, t := range ex.openTasks {
		if t.parent == ex.curTask() && (wg < 0 || t.wgs[wg]) {
			js = append(js, t)
		} else {
			rest = append(rest, t)
		}
	}
	if len(js) == 0 {
		return
	}
	ex.openTasks = rest
	start := js[0].order
	for _, t := range js {
		if t.order < start {
			start = t.order
		}
	}
	owner := func(a *access) *task {
		for _, t := range js {
			if within(a.t, t) {
				return t
			}
		}
		return nil
	}
	type fam struct {
		t  *task
		as []*access
	}
	fams := map[*task][]*access{}
	var parent []*access
	for _, a := range ex.acc {
		if t := owner(a); t != nil {
			fams[t] = append(fams[t], a)
		} else if a.t == ex.curTask() {
			// the spawner itself, concurrent with a task once one has been spawned;
			// inside a loop earlier iterations may have spawned it
			if a.order > start || len(a.binds) > 0 && sharesBinder(a, js) {
				parent = append(parent, a)
			}
		}
	}
	bad := 0
	for i, t := range js {
		as := fams[t]
		if len(t.bind) > 0 {
			for x := range as {
				for y := x; y < len(as); y++ {
					if !ex.disjoint(as[x], as[y], t, t) {
						bad++
					}
				}
			}
		}
		for _, u := range js[i+1:] {
			for _, a := range as {
				for _, b := range fams[u] {
					if !ex.disjoint(a, b, t, u) {
						bad++
					}
				}
			}
		}
		for _, a := range as {
			for _, b := range parent {
				if b.order < t.order && !sharesBinder(b, []*task{t}) {
					continue
				}
				if !ex.disjoint(a, b, t, nil) {
					bad++
				}
			}
		}
	}
	ex.oblige(st, "race", token.NoPos, "concurrent goroutines do not interfere", True)
	// from now on these accesses belong to the spawner
	for _, a := range ex.acc {
		if owner(a) != nil {
			a.t = ex.curTask()
		}
	}
	if len(ex.openTasks) == 0 && len(ex.tasks) == 0 && len(ex.loops) == 0 {
		ex.acc = nil
	}
}

func sharesBinder(a *access, js []*task) bool {
	for _, b := range a.binds {
		for _, t := range js {
			for _, c := range t.bind {
				if b == c {
					return true
				}
			}
		}
	}
	return false
}

// disjoint checks that instances of two concurrent accesses never touch the same location (one being a write).
func (ex *Exec) disjoint(a, b *access, ta, tb *task) bool {
	if a.obj != b.obj || !a.write && !b.write {
		return true
	}
	if shareLock(a, b) {
		return true
	}
	o := ex.objs[a.obj]
	// objects born inside the spawned instance or inside one iteration of the spawning loop are private to it
	if ta == tb {
		if o.task != nil && within(o.task, ta) {
			return true
		}
		for _, bd := range ta.bind {
			for c := o.scope; c != nil; c = c.parent {
				if c == bd.lc {
					return true
				}
			}
		}
	} else {
		if o.task != nil && ta != nil && within(o.task, ta) {
			return true
		}
		if o.task != nil && tb != nil && within(o.task, tb) {
			return true
		}
	}
	// instantiate binders separately
	inst := func(x *access, same map[*binder]*Term) (*subst, []*Term) {
		s := newSubst()
		var h []*Term
		for _, bd := range x.binds {
			v, ok := same[bd]
			if !ok {
				v = fresh("i", SInt)
			}
			s.m[bd.k] = v
		}
		for _, bd := range x.binds {
			h = append(h, le(mkInt(0), s.m[bd.k]))
			h = append(h, lt(s.m[bd.k], s.apply(bd.n)))
		}
		return s, h
	}
	// one iteration-private object: both instances are in the same iteration of every loop enclosing its birth
	same := map[*binder]*Term{}
	for _, bd := range a.binds {
		for c := o.scope; c != nil; c = c.parent {
			if c == bd.lc {
				same[bd] = fresh("i", SInt)
			}
		}
	}
	sa, ha := inst(a, same)
	sb, hb := inst(b, same)
	hyp := append(ha, hb...)
	for _, g := range a.guard {
		hyp = append(hyp, sa.apply(g))
	}
	for _, g := range b.guard {
		hyp = append(hyp, sb.apply(g))
	}
	if ta == tb {
		var ne []*Term
		for _, bd := range ta.bind {
			ne = append(ne, not(eq(sa.m[bd.k], sb.m[bd.k])))
		}
		hyp = append(hyp, or(ne...))
	} else if tb == nil {
		// spawner access after the spawn: iteration of the spawner >= iteration of the task; in the
		// same iteration only what follows the go statement in the program is concurrent
		for _, bd := range b.binds {
			isT := false
			for _, c := range ta.bind {
				if c == bd {
					isT = true
				}
			}
			if isT {
				if b.order < ta.order {
					hyp = append(hyp, lt(sa.m[bd.k], sb.m[bd.k]))
				} else {
					hyp = append(hyp, le(sa.m[bd.k], sb.m[bd.k]))
				}
				break
			}
		}
	}
	// overlapping locations
	n := len(a.path)
	if len(b.path) < n {
		n = len(b.path)
	}
	var same2 []*Term
	for i := 0; i < n; i++ {
		x, y := a.path[i], b.path[i]
		if (x.idx == nil) != (y.idx == nil) {
			break
		}
		if x.idx == nil {
			if x.f != y.f {
				return true
			}
			continue
		}
		same2 = append(same2, eq(sa.apply(x.idx), sb.apply(y.idx)))
	}
	rng := func(x *access, s *subst, y *access, t *subst) {
		// x covers [lo,lo+n) at depth len(x.path)
		if !x.rng {
			return
		}
		if len(y.path) > len(x.path) && y.path[len(x.path)].idx != nil {
			i := t.apply(y.path[len(x.path)].idx)
			same2 = append(same2, le(s.apply(x.lo), i), lt(i, s.apply(add(x.lo, x.n))))
		} else if y.rng && len(y.path) == len(x.path) {
			same2 = append(same2, lt(s.apply(x.lo), t.apply(add(y.lo, y.n))), lt(t.apply(y.lo), s.apply(add(x.lo, x.n))))
		}
	}
	rng(a, sa, b, sb)
	if !(a.rng && b.rng && len(a.path) == len(b.path)) {
		rng(b, sb, a, sa)
	}
	goal := not(and(same2...))
	pst := newState()
	pst.guard = hyp
	saved := ex.curPos
	ex.curPos = a.pos
	if b.write && !a.write {
		ex.curPos = b.pos
	}
	ok := goal == True || ex.prove(hyp, goal).ok
	kind := "race"
	desc := "no data race on " + o.name + " with " + ex.pos(b.pos)
	if !ok {
		ex.oblige(pst, kind, ex.curPos, desc, False)
	} else {
		ex.oblige(pst, kind, ex.curPos, desc, True)
	}
	ex.curPos = saved
	return ok
}

// wgOf gives the object of a *sync.WaitGroup / *sync.Mutex argument.
func (ex *Exec) syncObj(st *State, v *Term) (*PtrRef, bool) {
	r, ok := v.ref.(*PtrRef)
	return r, ok
}

func lockKey(v *Term) string {
	if r, ok := v.ref.(*PtrRef); ok {
		return r.Key()
	}
	return v.String()
}

func (ex *Exec) lock(st *State, v *Term) {
	k := lockKey(v)
	for _, l := range st.locks {
		if l == k {
			ex.oblige(st, "lock", token.NoPos, "lock not already held", False)
		}
	}
	st.locks = append(append([]string{}, st.locks...), k)
}

func (ex *Exec) unlock(st *State, v *Term) {
	k := lockKey(v)
	for i, l := range st.locks {
		if l == k {
			st.locks = append(append([]string{}, st.locks[:i]...), st.locks[i+1:]...)
			return
		}
	}
	ex.oblige(st, "lock", token.NoPos, "unlock of a held lock", False)
}

func (ex *Exec) wgAdd(st *State, v, d *Term) {
	r, ok := ex.syncObj(st, v)
	if !ok {
		ex.fail("wait group %s", clip(v.String(), 60))
	}
	old := ex.getPath(st, st.heap[r.obj], r.path, ex.objs[r.obj].typ)
	if old.sort == SU {
		old = mkInt(0)
	}
	n := add(old, d)
	if c, ok := constInt(d); ok && c < 0 {
		ex.oblige(st, "waitgroup", token.NoPos, "wait group counter stays non-negative", le(mkInt(0), n))
		for _, t := range ex.tasks {
			t.wgs[r.obj] = true
		}
	}
	if ex.writeHook != nil {
		ex.writeHook(st, r.obj)
	}
	st.heap[r.obj] = ex.setPath(st, st.heap[r.obj], r.path, ex.objs[r.obj].typ, n)
}

func (ex *Exec) wgWait(st *State, v *Term) {
	r, ok := ex.syncObj(st, v)
	if !ok {
		ex.fail("wait group %s", clip(v.String(), 60))
	}
	c := ex.getPath(st, st.heap[r.obj], r.path, ex.objs[r.obj].typ)
	ex.oblige(st, "waitgroup", token.NoPos, "Wait returns: every Add is matched by a Done", eq(c, mkInt(0)))
	ex.join(st, r.obj)
}

// ---------------------------------------------------------------- channels

// A channel object holds the sequence of values sent and not yet received.
func (ex *Exec) send(st *State, ch, v *Term) {
	r, ok := ch.ref.(*PtrRef)
	if !ok {
		ex.fail("send on %s", clip(ch.String(), 60))
	}
	c := ex.getPath(st, st.heap[r.obj], r.path, ex.objs[r.obj].typ)
	if c.sort != SSeq {
		ex.fail("send on symbolic channel")
	}
	st.heap[r.obj] = ex.setPath(st, st.heap[r.obj], r.path, ex.objs[r.obj].typ, cat(c, lit(v)))
}
