//go:build go1.18

package zzghost

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"go.dedis.ch/kyber/v3"
)

var (
	pointType  = reflect.TypeOf((*kyber.Point)(nil)).Elem()
	scalarType = reflect.TypeOf((*kyber.Scalar)(nil)).Elem()
	errorType  = reflect.TypeOf((*error)(nil)).Elem()
)

// Gen generates inputs for contracts.
type Gen struct {
	r    *rand.Rand
	n    int  // common length
	wide bool // short outer and long inner slices
	uni  int  // common length of inner slices, or -1
	dup  bool // repeat elements
	pts  []kyber.Point
	scs  []kyber.Scalar
	hop  int
}

func newGen(seed int64) *Gen {
	g := &Gen{r: rand.New(rand.NewSource(seed)), uni: -1}
	if g.r.Intn(2) == 0 {
		g.uni = g.r.Intn(4)
	}
	g.dup = g.r.Intn(3) == 0
	lens := []int{0, 1, 2, 3, 2, 1, 3, 5, 4, 2, 99, 100, 101, 3, 150, 200, 201, 2, 4, 300, 256, 3, 600, 7, 1100}
	if seed < int64(len(lens)) {
		g.n = lens[seed]
	} else {
		g.n = lens[g.r.Intn(len(lens))]
		if g.r.Intn(4) != 0 {
			g.n = g.r.Intn(6)
		}
		g.wide = g.r.Intn(8) == 0
	}
	return g
}

func (g *Gen) length(depth int) int {
	if g.wide {
		if depth == 0 {
			return 1 + g.r.Intn(2)
		}
		if depth == 1 {
			return []int{6, 99, 100, 101, 130, 200, 250}[g.r.Intn(7)]
		}
	}
	if depth > 0 {
		if g.uni >= 0 && g.r.Intn(12) != 0 {
			return g.uni
		}
		if g.r.Intn(3) == 0 && g.n < 20 {
			return g.n
		}
		return g.r.Intn(4)
	}
	if g.r.Intn(8) == 0 {
		return g.r.Intn(4)
	}
	return g.n
}

// mutate changes one randomly chosen part of v.
func (g *Gen) mutate(v reflect.Value, depth int) {
	t := v.Type()
	if t == pointType || t == scalarType || t == errorType {
		v.Set(g.value(t, depth))
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		n := v.Len()
		if n == 0 {
			return
		}
		switch g.r.Intn(6) {
		case 0:
			v.Set(v.Slice(0, n-1))
		case 1:
			i, j := g.r.Intn(n), g.r.Intn(n)
			x, y := deepCopy(v.Index(i)), deepCopy(v.Index(j))
			v.Index(i).Set(y)
			v.Index(j).Set(x)
		default:
			g.mutate(v.Index(g.r.Intn(n)), depth+1)
		}
	case reflect.Array:
		if v.Len() > 0 {
			g.mutate(v.Index(g.r.Intn(v.Len())), depth+1)
		}
	case reflect.Map:
		keys := v.MapKeys()
		if len(keys) == 0 {
			return
		}
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		k := keys[g.r.Intn(len(keys))]
		if g.r.Intn(4) == 0 {
			v.SetMapIndex(k, reflect.Value{})
			return
		}
		e := reflect.New(t.Elem()).Elem()
		e.Set(deepCopy(v.MapIndex(k)))
		g.mutate(e, depth+1)
		v.SetMapIndex(k, e)
	case reflect.Ptr:
		if !v.IsNil() {
			g.mutate(v.Elem(), depth)
		}
	case reflect.Struct:
		var fs []int
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				fs = append(fs, i)
			}
		}
		if len(fs) > 0 {
			g.mutate(v.Field(fs[g.r.Intn(len(fs))]), depth)
		}
	case reflect.Interface:
	case reflect.Int, reflect.Int64:
		if g.r.Intn(3) == 0 {
			v.SetInt(v.Int() + int64(1)<<uint([]int{7, 8, 15, 16, 31, 32, 33, 40}[g.r.Intn(8)]))
			return
		}
		v.Set(g.value(t, depth))
	default:
		v.Set(g.value(t, depth))
	}
}

// args generates the arguments of a contract. Some are variations of earlier arguments of the same type.
func (g *Gen) args(t reflect.Type) []reflect.Value {
	as := make([]reflect.Value, t.NumIn())
	for i := range as {
		vary := -1
		if k := t.In(i).Kind(); k != reflect.Bool && k != reflect.Int {
			for j := 0; j < i; j++ {
				if t.In(j) == t.In(i) && g.r.Intn(3) == 0 {
					vary = j
				}
			}
		}
		if vary >= 0 {
			v := reflect.New(t.In(i)).Elem()
			v.Set(deepCopy(as[vary]))
			if g.r.Intn(4) != 0 {
				g.mutate(v, 0)
			}
			as[i] = v
			continue
		}
		as[i] = g.value(t.In(i), 0)
	}
	return as
}

// Inputs makes arguments that fulfil the preconditions of one contract; n(k) is a random number below k.
type Inputs func(n func(k int) int) []interface{}

// nodes tells whether a contract is about a node of a protocol, which only its own inputs can make.
func nodes(t reflect.Type) bool {
	for i := 0; i < t.NumIn(); i++ {
		if strings.Contains(t.In(i).String(), "onet.Tree") {
			return true
		}
	}
	return false
}

func (g *Gen) inputs(t reflect.Type, gen Inputs) []reflect.Value {
	if gen == nil || g.r.Intn(4) == 0 && !nodes(t) {
		return g.args(t)
	}
	var as []reflect.Value
	for i, x := range gen(g.r.Intn) {
		v := reflect.New(t.In(i)).Elem()
		if x != nil {
			v.Set(reflect.ValueOf(x))
		}
		as = append(as, v)
	}
	return as
}

func (g *Gen) scalar() kyber.Scalar {
	if len(g.scs) > 0 && g.r.Intn(5) == 0 {
		return g.scs[g.r.Intn(len(g.scs))].Clone()
	}
	var s kyber.Scalar
	switch g.r.Intn(6) {
	case 0:
		s = suite.Scalar().SetInt64(int64(g.r.Intn(5) - 1))
	default:
		b := make([]byte, 32)
		g.r.Read(b)
		b[31] &= 0x0f
		s = suite.Scalar().SetBytes(b)
	}
	g.scs = append(g.scs, s)
	return s.Clone()
}

func (g *Gen) point() kyber.Point {
	if len(g.pts) > 0 && g.r.Intn(5) == 0 {
		return g.pts[g.r.Intn(len(g.pts))].Clone()
	}
	p := suite.Point().Mul(g.scalar(), nil)
	if len(g.pts) < 50 {
		g.pts = append(g.pts, p)
	}
	return p.Clone()
}

var words = []string{"", "a", "b", "ab", "s1", "g1", "g10", "w0", "count", "x_y", "A", " ", "sum1", "1", "2", "10", "-3", "0", "group", "é"}

func (g *Gen) value(t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t {
	case pointType:
		v.Set(reflect.ValueOf(g.point()))
		return v
	case scalarType:
		v.Set(reflect.ValueOf(g.scalar()))
		return v
	case errorType:
		return v
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.r.Intn(2) == 0)
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		switch g.r.Intn(10) {
		case 0:
			v.SetInt(int64(g.r.Intn(300) - 150))
		case 1, 3:
			v.SetInt(int64(g.n))
		case 2:
			v.SetInt(int64(-g.r.Intn(5)))
		case 4, 5:
			if g.uni >= 0 {
				v.SetInt(int64(g.uni))
			}
		default:
			v.SetInt(int64(g.r.Intn(5)))
		}
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		v.SetUint(uint64(g.r.Intn(256)))
	case reflect.Float64, reflect.Float32:
		fs := []float64{1, 0.5, 0, 0.3, 1, 0.01, 0.99, 2, -1}
		v.SetFloat(fs[g.r.Intn(len(fs))])
	case reflect.String:
		if g.r.Intn(3) == 0 {
			n := g.r.Intn(4)
			b := make([]byte, n)
			for i := range b {
				b[i] = "abcg0123_,/-"[g.r.Intn(12)]
			}
			v.SetString(string(b))
		} else {
			v.SetString(words[g.r.Intn(len(words))])
		}
	case reflect.Slice:
		n := g.length(depth)
		if t.Elem().Kind() == reflect.Uint8 && g.r.Intn(2) == 0 {
			n = []int{0, 1, 4, 31, 32, 33, 64, 96, 128}[g.r.Intn(9)]
		}
		if n == 0 && g.r.Intn(2) == 0 {
			return v
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			if g.dup && i > 0 && n < 20 && g.r.Intn(3) == 0 {
				e := v.Index(g.r.Intn(i))
				v.Index(i).Set(deepCopy(e))
				continue
			}
			v.Index(i).Set(g.value(t.Elem(), depth+1))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			v.Index(i).Set(g.value(t.Elem(), depth+1))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		n := g.r.Intn(5)
		if depth == 0 && g.n < 20 && g.r.Intn(2) == 0 {
			n = g.n
		}
		for i := 0; i < n; i++ {
			v.SetMapIndex(g.value(t.Key(), depth+1), g.value(t.Elem(), depth+1))
		}
	case reflect.Ptr:
		v.Set(reflect.New(t.Elem()))
		v.Elem().Set(g.value(t.Elem(), depth))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				v.Field(i).Set(g.value(t.Field(i).Type, depth))
			}
		}
	}
	return v
}

func show(v interface{}) string {
	if t := fmt.Sprintf("%T", v); strings.Contains(t, "onet.Tree") {
		return t
	}
	s := fmt.Sprintf("%+v", v)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func identity(v reflect.Value) uintptr {
	switch v.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Chan, reflect.Func:
		return v.Pointer()
	case reflect.Interface:
		if !v.IsNil() {
			return identity(v.Elem())
		}
	}
	return 0
}

func once(fn reflect.Value, gen Inputs, seed int64, timeout time.Duration) (skip bool, failure, input string) {
	g := newGen(seed)
	t := fn.Type()
	args := g.inputs(t, gen)
	pre := make([]reflect.Value, t.NumIn())
	var desc []string
	for i := range args {
		pre[i] = reflect.New(t.In(i)).Elem()
		pre[i].Set(deepCopy(args[i]))
		desc = append(desc, show(args[i].Interface()))
	}
	input = strings.Join(desc, "\n")
	Modified = nil
	Outbox = nil
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if x := recover(); x != nil {
				switch e := x.(type) {
				case Skip:
					skip = true
				case Broken:
					failure = e.Error()
				default:
					failure = fmt.Sprintf("panic: %v\n%s", x, debug.Stack())
				}
			}
		}()
		fn.Call(args)
	}()
	select {
	case <-done:
	case <-time.After(timeout):
		return false, "the call does not return (deadlock or endless loop)", input
	}
	if skip || failure != "" {
		return
	}
	mod := map[uintptr]bool{}
	for _, m := range Modified {
		mod[identity(reflect.ValueOf(m))] = true
	}
	for i := range args {
		if id := identity(args[i]); id != 0 && mod[id] {
			continue
		}
		if !same(pre[i], args[i]) {
			failure = fmt.Sprintf("argument %d was changed by the call: before %s after %s", i, show(pre[i].Interface()), show(args[i].Interface()))
			return
		}
	}
	return
}

// Hunt runs one contract on generated inputs until it fails or the budget is spent. The progress file lets the
// caller know which input was running if the process dies.
func Hunt(name string, fn interface{}, gen Inputs, budget time.Duration, progress string) string {
	f := reflect.ValueOf(fn)
	end := time.Now().Add(budget)
	ran := 0
	for seed := int64(0); time.Now().Before(end) && seed < 20000; seed++ {
		os.WriteFile(progress, []byte(fmt.Sprintf("%s seed %d\n", name, seed)), 0o644)
		skip, fail, in := once(f, gen, seed, 60*time.Second)
		if skip {
			continue
		}
		ran++
		if fail != "" {
			return fmt.Sprintf("contract %s fails on generated input, seed %d\n%s\ninput:\n%s\n", name, seed, fail, in)
		}
	}
	os.WriteFile(progress, []byte(fmt.Sprintf("done %s ran %d\n", name, ran)), 0o644)
	return ""
}

// Describe prints the input of one seed.
func Describe(fn interface{}, gen Inputs, seed int64) string {
	g := newGen(seed)
	t := reflect.TypeOf(fn)
	var desc []string
	for _, v := range g.inputs(t, gen) {
		desc = append(desc, show(v.Interface()))
	}
	return strings.Join(desc, "\n")
}

// Vary gives a copy of x with one part changed.
func Vary(n func(k int) int, x interface{}) interface{} {
	g := newGen(int64(n(1 << 30)))
	v := reflect.New(reflect.TypeOf(x)).Elem()
	v.Set(deepCopy(reflect.ValueOf(x)))
	g.mutate(v, 0)
	return v.Interface()
}

// AnyScalar is a scalar below the group order.
func AnyScalar(n func(k int) int) kyber.Scalar { return newGen(int64(n(1 << 30))).scalar() }

// AnyPoint is a point of the group.
func AnyPoint(n func(k int) int) kyber.Point { return newGen(int64(n(1 << 30))).point() }

// AnyPercent is a share to be checked.
func AnyPercent(n func(k int) int) float64 { return []float64{1, 1, 0, 0.5, 0.01, 0.99, 0.3}[n(7)] }

// AnyLength is the length of a list, often at the boundary of a chunk.
func AnyLength(n func(k int) int) int {
	return []int{0, 1, 2, 3, 99, 100, 101, 150, 200, 201, 202, 5}[n(12)]
}
