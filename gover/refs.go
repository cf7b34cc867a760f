package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type refIface interface {
	Key() string
	Sub() []*Term
	Map(t *Term, s *subst) *Term
}

// PathElem is a field selector (idx == nil) or an index.
type PathElem struct {
	f   int
	idx *Term
}

func pathKey(p []PathElem) string {
	var sb strings.Builder
	for _, e := range p {
		if e.idx != nil {
			fmt.Fprintf(&sb, "[%d]", e.idx.id)
		} else {
			fmt.Fprintf(&sb, ".%d", e.f)
		}
	}
	return sb.String()
}
func samePathShape(a, b []PathElem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if (a[i].idx == nil) != (b[i].idx == nil) || a[i].idx == nil && a[i].f != b[i].f {
			return false
		}
	}
	return true
}
func pathSub(p []PathElem) (r []*Term) {
	for _, e := range p {
		if e.idx != nil {
			r = append(r, e.idx)
		}
	}
	return
}
func pathMap(p []PathElem, s *subst) []PathElem {
	out := make([]PathElem, len(p))
	for i, e := range p {
		out[i] = e
		if e.idx != nil {
			out[i].idx = s.apply(e.idx)
		}
	}
	return out
}

// PtrRef points to a location inside an object.
type PtrRef struct {
	obj  int
	path []PathElem
}

func (r *PtrRef) Key() string  { return fmt.Sprintf("&o%d%s", r.obj, pathKey(r.path)) }
func (r *PtrRef) Sub() []*Term { return pathSub(r.path) }
func (r *PtrRef) Map(t *Term, s *subst) *Term {
	return mkRef(&PtrRef{r.obj, pathMap(r.path, s)})
}

// SliceRef is a slice header over the sequence stored at (obj,path).
type SliceRef struct {
	obj           int
	path          []PathElem
	off, len, cap *Term
	gen           int
	snap          *Term // content of the backing when the view was taken (nested views only)
}

func (r *SliceRef) Key() string {
	sn := 0
	if r.snap != nil {
		sn = r.snap.id
	}
	return fmt.Sprintf("slice(o%d%s,%d,%d,%d,%d,%d)", r.obj, pathKey(r.path), r.off.id, r.len.id, r.cap.id, r.gen, sn)
}
func (r *SliceRef) Sub() []*Term {
	o := append(pathSub(r.path), r.off, r.len, r.cap)
	if r.snap != nil {
		o = append(o, r.snap)
	}
	return o
}
func (r *SliceRef) Map(t *Term, s *subst) *Term {
	n := &SliceRef{r.obj, pathMap(r.path, s), s.apply(r.off), s.apply(r.len), s.apply(r.cap), r.gen, nil}
	if r.snap != nil {
		n.snap = s.apply(r.snap)
	}
	return mkRef(n)
}

type MapRef struct{ obj int }

func (r *MapRef) Key() string                 { return fmt.Sprintf("map(o%d)", r.obj) }
func (r *MapRef) Sub() []*Term                { return nil }
func (r *MapRef) Map(t *Term, s *subst) *Term { return t }

type NilRef struct{}

func (r *NilRef) Key() string                 { return "nil" }
func (r *NilRef) Sub() []*Term                { return nil }
func (r *NilRef) Map(t *Term, s *subst) *Term { return t }

// CloRef is a function value.
type CloRef struct {
	fn    *ssa.Function
	binds []*Term
}

func (r *CloRef) Key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "fn(%p %s", r.fn, r.fn.Name())
	for _, b := range r.binds {
		fmt.Fprintf(&sb, ",%d", b.id)
	}
	return sb.String() + ")"
}
func (r *CloRef) Sub() []*Term { return r.binds }
func (r *CloRef) Map(t *Term, s *subst) *Term {
	nb := make([]*Term, len(r.binds))
	for i, b := range r.binds {
		nb[i] = s.apply(b)
	}
	return mkRef(&CloRef{r.fn, nb})
}

// IfaceRef is an interface value with known dynamic type.
type IfaceRef struct {
	typ types.Type
	val *Term
}

func (r *IfaceRef) Key() string  { return fmt.Sprintf("iface(%s,%d)", r.typ.String(), r.val.id) }
func (r *IfaceRef) Sub() []*Term { return []*Term{r.val} }
func (r *IfaceRef) Map(t *Term, s *subst) *Term {
	return mkRef(&IfaceRef{r.typ, s.apply(r.val)})
}

// BoxRef is a pointer to an immutable value (used for pointers into pure data).
type BoxRef struct{ val *Term }

func (r *BoxRef) Key() string                 { return fmt.Sprintf("box(%d)", r.val.id) }
func (r *BoxRef) Sub() []*Term                { return []*Term{r.val} }
func (r *BoxRef) Map(t *Term, s *subst) *Term { return mkRef(&BoxRef{s.apply(r.val)}) }

// IterRef is a range iterator over a map or string.
type IterRef struct {
	obj int // object holding position
	m   *Term
	ord *Term
	str bool
	kt  types.Type
	vt  types.Type
}

func (r *IterRef) Key() string  { return fmt.Sprintf("iter(o%d,%d,%d)", r.obj, r.m.id, r.ord.id) }
func (r *IterRef) Sub() []*Term { return []*Term{r.m, r.ord} }
func (r *IterRef) Map(t *Term, s *subst) *Term {
	return mkRef(&IterRef{r.obj, s.apply(r.m), s.apply(r.ord), r.str, r.kt, r.vt})
}

func mkRef(r refIface) *Term {
	return mk(&Term{op: OpPtr, sort: SRef, ref: r})
}

var nilRef = mkRef(&NilRef{})
var nilPt = mkVar("nilpt", SPt)
var nilSc = mkVar("nilsc", SSc)
