package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term

var models map[string]model

// repoModels replaces repository functions that only do input/output or timing.
var repoModels = map[string]func(ex *Exec, st *State, f *ssa.Function, a []*Term) ([]*Term, bool){}

// tag names the current program point including the chain of call sites.
func (ex *Exec) tag() string {
	var sb strings.Builder
	for _, p := range ex.sites {
		if p.IsValid() {
			q := ex.prog.fset.Position(p)
			fmt.Fprintf(&sb, "%d.%d/", q.Line, q.Column)
		}
	}
	q := ex.prog.fset.Position(ex.curPos)
	fmt.Fprintf(&sb, "%d.%d", q.Line, q.Column)
	return sb.String()
}

// choice is an arbitrary value chosen by the environment at this program point in this iteration.
func (ex *Exec) choice(kind string, s Sort) *Term {
	var ks []*Term
	for _, l := range ex.loops {
		ks = append(ks, l.k)
	}
	return app("any:"+kind+"@"+ex.tag(), s, ks...)
}

// notNil obliges a point / scalar operand to be non-nil.
func (ex *Exec) notNil(st *State, v *Term) {
	var leaves func(t *Term, g []*Term)
	leaves = func(t *Term, g []*Term) {
		switch {
		case t.op == OpIte:
			leaves(t.args[1], append(append([]*Term{}, g...), t.args[0]))
			leaves(t.args[2], append(append([]*Term{}, g...), not(t.args[0])))
		case t == nilPt || t == nilSc:
			ex.oblige(st, "nil", token.NoPos, "operand is not nil", not(and(g...)))
		case t.ref != nil:
			if _, ok := t.ref.(*NilRef); ok {
				ex.oblige(st, "nil", token.NoPos, "operand is not nil", not(and(g...)))
			}
		}
	}
	leaves(v, nil)
}

func (ex *Exec) operand(st *State, v *Term) *Term {
	v = ex.pval(st, v)
	ex.notNil(st, v)
	return v
}

func (ex *Exec) mutate(st *State, recv, val *Term, t types.Type) *Term {
	if recv.sort == SPt || recv.sort == SSc {
		if recv == nilPt || recv == nilSc {
			ex.oblige(st, "nil", token.NoPos, "method call on a nil value", False)
			return val
		}
		ex.oblige(st, "frame", token.NoPos, "a group element or scalar that the caller may still use is overwritten", False)
		return val
	}
	ex.store(st, recv, val, t)
	return recv
}

func (ex *Exec) newPt(st *State, t types.Type, v *Term) *Term {
	return ex.alloc(st, t, v, "pt")
}

// invoke dispatches interface method calls.
func (ex *Exec) invoke(st *State, c *ssa.CallCommon, recv *Term, args []*Term) []*Term {
	rt := c.Value.Type()
	name := c.Method.Name()
	if isPoint(rt) || isScalar(rt) || recv.sort == SPt || recv.sort == SSc {
		return ex.groupOp(st, c, rt, recv, name, args)
	}
	if r, ok := recv.ref.(*IfaceRef); ok {
		// dynamic type known
		if isError(r.typ) {
			return []*Term{app("errstr", SSeq, r.val)}
		}
		ms := ex.prog.ssa.MethodSets.MethodSet(r.typ)
		if sel := ms.Lookup(c.Method.Pkg(), name); sel != nil {
			f := ex.prog.ssa.MethodValue(sel)
			if f != nil {
				return ex.callFunc(st, f, append([]*Term{r.val}, args...), nil, c)
			}
		}
	}
	key := "invoke " + namedPath(rt) + "." + name
	if isError(rt) {
		ex.oblige(st, "nil", token.NoPos, "Error() on a nil error", recv)
		return []*Term{app("errstr", SSeq, recv)}
	}
	if m, ok := models[key]; ok {
		ex.assumed[key] = true
		return m(ex, st, nil, append([]*Term{recv}, args...), c)
	}
	ex.fail("interface call %s", key)
	return nil
}

func (ex *Exec) groupOp(st *State, c *ssa.CallCommon, rt types.Type, recv *Term, name string, a []*Term) []*Term {
	pt := isPoint(rt)
	s := SSc
	if pt {
		s = SPt
	}
	if !pt && !isScalar(rt) { // encoding.BinaryMarshaler holding a group element
		pt = recv.sort == SPt
		s = recv.sort
		if recv.sort == SRef {
			ex.fail("marshal of %s", clip(recv.String(), 60))
		}
	}
	one := func(t *Term) []*Term { return []*Term{t} }
	op := func(i int) *Term { return ex.operand(st, a[i]) }
	ex.assumed["kyber "+map[bool]string{true: "Point", false: "Scalar"}[pt]+"."+name] = true
	switch name {
	case "Add":
		return one(ex.mutate(st, recv, add(op(0), op(1)), rt))
	case "Sub":
		return one(ex.mutate(st, recv, sub(op(0), op(1)), rt))
	case "Neg":
		return one(ex.mutate(st, recv, neg(op(0)), rt))
	case "Set":
		return one(ex.mutate(st, recv, op(0), rt))
	case "Mul":
		if pt {
			q := ex.pval(st, a[1])
			if q == nilPt {
				q = BasePt
			}
			ex.notNil(st, q)
			return one(ex.mutate(st, recv, mul(op(0), q), rt))
		}
		return one(ex.mutate(st, recv, mul(op(0), op(1)), rt))
	case "Null", "Zero":
		return one(ex.mutate(st, recv, zero(s), rt))
	case "One":
		return one(ex.mutate(st, recv, mkBig(bigOne, SSc), rt))
	case "Base":
		return one(ex.mutate(st, recv, BasePt, rt))
	case "SetInt64":
		return one(ex.mutate(st, recv, asSort(a[0], SSc), rt))
	case "Pick":
		if r, ok := a[0].ref.(*PtrRef); ok && namedPath(ex.objs[r.obj].typ) == "go.dedis.ch/kyber/v3.XOF" {
			o := ex.objs[r.obj]
			if o.scope != ex.curLoop() || o.task != ex.curTask() {
				// drawn elsewhere than it was made: the order of draws is not tracked
				return one(ex.mutate(st, recv, ex.choice("from", s), rt))
			}
			x := ex.load(st, a[0], o.typ)
			ex.store(st, a[0], app("xofnext", SU, x), o.typ)
			return one(ex.mutate(st, recv, app("xofpick", s, x), rt))
		}
		if a[0].op != OpApp || a[0].name != "stream" {
			// a stream given by the caller: nothing is known about what it gives
			if a[0].op != OpVar && a[0].op != OpFld {
				ex.fail("draw from a stream that is not the random source")
			}
			return one(ex.mutate(st, recv, ex.choice("from", s), rt))
		}
		return one(ex.mutate(st, recv, ex.choice("pick", s), rt))
	case "Clone":
		return one(ex.newPt(st, rt, ex.operand(st, recv)))
	case "Equal":
		return one(eq(ex.operand(st, recv), op(0)))
	case "MarshalBinary":
		v := ex.operand(st, recv)
		n := "penc"
		if !pt {
			n = "senc"
		}
		return []*Term{ex.allocSlice(st, types.Typ[types.Uint8], app(n, SSeq, v)), False}
	case "UnmarshalBinary":
		d := ex.purify(st, ex.seqOf(st, a[0]), nil)
		n := "pdec"
		if !pt {
			n = "sdec"
		}
		bad := app(n+"bad", SBool, d)
		ex.mutate(st, recv, app(n, s, d), rt)
		return one(bad)
	case "MarshalSize":
		return one(mkInt(32))
	case "String":
		v := ex.operand(st, recv)
		if pt {
			return one(app("pstr", SSeq, v))
		}
		return one(app("sstr", SSeq, v))
	}
	ex.fail("group operation %s", name)
	return nil
}

func cstr(t *Term) (string, bool) {
	if t.op == OpStr {
		return t.name, true
	}
	if t == EmptySeq {
		return "", true
	}
	return "", false
}

func (ex *Exec) external(st *State, f *ssa.Function, args []*Term, c *ssa.CallCommon) []*Term {
	name := f.String()
	if m, ok := models[name]; ok {
		switch {
		case strings.HasPrefix(name, "(*sync."), strings.HasPrefix(name, "fmt."):
		default:
			ex.assumed[name] = true
		}
		return m(ex, st, f, args, c)
	}
	if strings.HasPrefix(name, "go.dedis.ch/onet/v3/log.") {
		if strings.Contains(name, "Fatal") || strings.Contains(name, "Panic") || strings.Contains(name, "ErrFatal") {
			ex.oblige(st, "abort", token.NoPos, "the process is not aborted", False)
			st.branch(False)
		}
		return ex.zeroResults(f.Signature)
	}
	ex.fail("external function %s", name)
	return nil
}

func opaqueModel(name string) model {
	return func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
		var sig *types.Signature
		if f != nil {
			sig = f.Signature
		} else {
			sig = c.Signature()
		}
		var as []*Term
		for _, x := range a {
			as = append(as, ex.purify(st, x, nil))
		}
		var rs []*Term
		for i := 0; i < sig.Results().Len(); i++ {
			rs = append(rs, app(fmt.Sprintf("%s.%d", name, i), sortOf(sig.Results().At(i).Type()), as...))
		}
		return rs
	}
}

func choiceModel(name string) model {
	return func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
		var sig *types.Signature
		if f != nil {
			sig = f.Signature
		} else {
			sig = c.Signature()
		}
		var rs []*Term
		for i := 0; i < sig.Results().Len(); i++ {
			rs = append(rs, ex.choice(fmt.Sprintf("%s.%d", name, i), sortOf(sig.Results().At(i).Type())))
		}
		return rs
	}
}

// predicate terms: rep(W, x1,B1, ...) and and(p1, ...)
func (ex *Exec) strSeq(st *State, t *Term) []*Term {
	s := ex.purify(st, ex.seqOf(st, t), nil)
	if s.op == OpLit {
		return s.args
	}
	ex.fail("predicate operands are not literal: %s", clip(s.String(), 80))
	return nil
}

// holds gives the meaning of a predicate under secret and public assignments (given as lookup functions).
func (ex *Exec) holds(st *State, p *Term, sec, pub func(string) *Term) *Term {
	switch p.name {
	case "rep":
		w, ok := cstr(p.args[0])
		if !ok {
			ex.fail("predicate name")
		}
		rhs := zero(SPt)
		for i := 1; i+1 < len(p.args); i += 2 {
			x, ok1 := cstr(p.args[i])
			b, ok2 := cstr(p.args[i+1])
			if !ok1 || !ok2 {
				ex.fail("predicate name")
			}
			rhs = add(rhs, mul(sec(x), pub(b)))
		}
		return eq(pub(w), rhs)
	case "predand":
		r := True
		for _, q := range p.args {
			r = and(r, ex.holds(st, q, sec, pub))
		}
		return r
	}
	ex.fail("predicate %s", clip(p.String(), 80))
	return nil
}

func predSecrets(p *Term, set map[string]bool) {
	if p.name == "rep" {
		for i := 1; i < len(p.args); i += 2 {
			if s, ok := cstr(p.args[i]); ok {
				set[s] = true
			}
		}
		return
	}
	for _, q := range p.args {
		predSecrets(q, set)
	}
}
func predPublics(p *Term, set map[string]bool) {
	if p.name == "rep" {
		for i := 0; i < len(p.args); i += 2 {
			if s, ok := cstr(p.args[i]); ok {
				set[s] = true
			}
		}
		return
	}
	for _, q := range p.args {
		predPublics(q, set)
	}
}

func (ex *Exec) predVars(p *Term, m *Term, publics bool, s Sort) []*Term {
	set := map[string]bool{}
	if publics {
		predPublics(p, set)
	} else {
		predSecrets(p, set)
	}
	var r []*Term
	for _, k := range sortedKeys(set) {
		v := mget(m, mkStr(k), s)
		if publics {
			// a public point that is not given stands for the standard generator
			v = ite(mhas(m, mkStr(k)), v, BasePt)
		}
		r = append(r, v)
	}
	return r
}

func predBaseNames(p *Term, set map[string]bool) {
	if p.name == "rep" {
		for i := 2; i < len(p.args); i += 2 {
			if s, ok := cstr(p.args[i]); ok {
				set[s] = true
			}
		}
		return
	}
	for _, q := range p.args {
		predBaseNames(q, set)
	}
}

func (ex *Exec) predBases(p *Term, m *Term) []*Term {
	set := map[string]bool{}
	predBaseNames(p, set)
	var r []*Term
	for _, k := range sortedKeys(set) {
		r = append(r, ite(mhas(m, mkStr(k)), mget(m, mkStr(k), SPt), BasePt))
	}
	return r
}

func lookupIn(keys []string, vals []*Term) func(string) *Term {
	return func(k string) *Term {
		for i, x := range keys {
			if x == k {
				return vals[i]
			}
		}
		return nil
	}
}

func init() {
	// axioms attached to symbols
	appLen["pstr"] = func(t *Term) *Term { return mkInt(64) }
	appLen["penc"] = func(t *Term) *Term { return mkInt(32) }
	appLen["senc"] = func(t *Term) *Term { return mkInt(32) }
	appRules["dlog"] = func(s Sort, a []*Term) *Term {
		if t := a[0]; t.op == OpApp && t.name == "pstr" {
			return intLog(t.args[0])
		}
		return nil
	}
	appRules["pointtext"] = func(s Sort, a []*Term) *Term {
		if t := a[0]; t.op == OpApp && t.name == "pstr" && intLog(t.args[0]) != nil {
			return True
		}
		return nil
	}
	appRules["pdec"] = func(s Sort, a []*Term) *Term {
		if a[0].op == OpApp && a[0].name == "penc" {
			return a[0].args[0]
		}
		return nil
	}
	appRules["sdec"] = func(s Sort, a []*Term) *Term {
		if a[0].op == OpApp && a[0].name == "senc" {
			return a[0].args[0]
		}
		return nil
	}
	appRules["pdecbad"] = func(s Sort, a []*Term) *Term {
		if a[0].op == OpApp && a[0].name == "penc" {
			return False
		}
		return nil
	}
	appRules["sdecbad"] = func(s Sort, a []*Term) *Term {
		if a[0].op == OpApp && a[0].name == "senc" {
			return False
		}
		return nil
	}
	appRules["b64dec"] = func(s Sort, a []*Term) *Term {
		if a[0].op == OpApp && a[0].name == "b64" {
			return a[0].args[0]
		}
		return nil
	}
	appRules["b64bad"] = func(s Sort, a []*Term) *Term {
		if a[0].op == OpApp && a[0].name == "b64" {
			return False
		}
		return nil
	}
	// joining and splitting are inverse when no part contains the first byte of the separator
	appRules["split"] = func(s Sort, a []*Term) *Term {
		sep := a[1]
		if a[0].op != OpApp || a[0].name != "join" || a[0].args[1] != sep || sep.op != OpStr || sep.name == "" {
			return nil
		}
		v := a[0].args[0]
		n := length(v)
		c := and(le(mkInt(1), n), forall(n, func(i *Term) *Term {
			return not(app("contains", SBool, at(v, i, SSeq), mkStr(sep.name[:1])))
		}))
		return ite(c, v, mk(&Term{op: OpApp, sort: s, name: "split", args: a}))
	}
	appRules["atoi"] = func(s Sort, a []*Term) *Term {
		if a[0].op == OpApp && a[0].name == "itoa" {
			return a[0].args[0]
		}
		return nil
	}
	appRules["atoibad"] = func(s Sort, a []*Term) *Term {
		if a[0].op == OpApp && a[0].name == "itoa" {
			return False
		}
		return nil
	}
	appRules["u32dec"] = func(s Sort, a []*Term) *Term {
		if a[0].op == OpApp && a[0].name == "u32" {
			return a[0].args[0]
		}
		return nil
	}
	appLen["u32"] = func(t *Term) *Term { return mkInt(4) }
	appRules["conv:int"] = func(s Sort, a []*Term) *Term {
		if t := a[0]; t.op == OpApp && t.name == "ceil" {
			m := t.args[0]
			if m.op == OpApp && m.name == "conv:float64" && m.args[0].sort == SInt {
				return m.args[0]
			}
			if m.op == OpApp && m.name == "op*" {
				for i := 0; i < 2; i++ {
					if x := m.args[i]; x.op == OpApp && x.name == "conv:float64" && x.args[0].sort == SInt {
						return app("ceilmul", SInt, m.args[1-i], x.args[0])
					}
				}
			}
		}
		return nil
	}
	f0, f1 := app("const:0", SU), app("const:1", SU)
	smtFacts["ceilmul"] = func(t *Term) []*Term {
		p, n := t.args[0], t.args[1]
		pn, p1 := not(app("op<", SBool, p, f0)), not(app("op<", SBool, f1, p))
		r := []*Term{
			implies(and(pn, le(mkInt(0), n)), le(mkInt(0), t)),
			implies(and(p1, le(mkInt(0), n)), le(t, n)),
		}
		if p == f1 {
			r = append(r, eq(t, n))
		}
		return r
	}
	appRules["ceilmul"] = func(s Sort, a []*Term) *Term {
		if a[0] == f1 {
			return a[1]
		}
		return nil
	}
	smtFacts["deepeq"] = func(t *Term) []*Term {
		if t.args[0].sort != t.args[1].sort || t.args[0].sort == SSeq || t.args[0].sort == SStruct {
			return nil
		}
		return []*Term{implies(t, eq(t.args[0], t.args[1]))}
	}

	u8 := types.Typ[types.Uint8]
	one := func(t *Term) []*Term { return []*Term{t} }
	pure := func(ex *Exec, st *State, t *Term) *Term { return ex.purify(st, t, nil) }
	nop := func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
		if f != nil {
			return ex.zeroResults(f.Signature)
		}
		return ex.zeroResults(c.Signature())
	}
	errNew := func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term { return one(True) }
	models = map[string]model{
		"(*sync.Mutex).Lock": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			ex.lock(st, a[0])
			return nil
		},
		"(*sync.Mutex).Unlock": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			ex.unlock(st, a[0])
			return nil
		},
		"(*sync.WaitGroup).Add": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			ex.wgAdd(st, a[0], a[1])
			return nil
		},
		"(*sync.WaitGroup).Done": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			ex.wgAdd(st, a[0], mkInt(-1))
			return nil
		},
		"(*sync.WaitGroup).Wait": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			ex.wgWait(st, a[0])
			return nil
		},
		"fmt.Errorf":                  errNew,
		"errors.New":                  errNew,
		"golang.org/x/xerrors.Errorf": errNew,
		"golang.org/x/xerrors.New":    errNew,
		"fmt.Println":                 nop,
		"fmt.Printf":                  nop,
		"go.dedis.ch/kyber/v3/util/random.New": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return one(app("stream", SU))
		},
		"invoke go.dedis.ch/kyber/v3/suites.Suite.RandomStream": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return one(app("stream", SU))
		},
		"invoke go.dedis.ch/kyber/v3/suites.Suite.Point": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return one(ex.newPt(st, c.Signature().Results().At(0).Type(), zero(SPt)))
		},
		"invoke go.dedis.ch/kyber/v3/suites.Suite.Scalar": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return one(ex.newPt(st, c.Signature().Results().At(0).Type(), zero(SSc)))
		},
		"invoke go.dedis.ch/kyber/v3/suites.Suite.PointLen": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return one(mkInt(32))
		},
		"invoke go.dedis.ch/kyber/v3/suites.Suite.ScalarLen": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return one(mkInt(32))
		},
		"invoke go.dedis.ch/kyber/v3/suites.Suite.XOF": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return one(ex.alloc(st, c.Signature().Results().At(0).Type(), app("xof", SU, ex.purify(st, ex.seqOf(st, a[1]), nil)), "xof"))
		},
		"invoke go.dedis.ch/kyber/v3.XOF.Write": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			r, ok := a[0].ref.(*PtrRef)
			if !ok {
				ex.fail("Write to an unknown XOF")
			}
			t := ex.objs[r.obj].typ
			d := ex.purify(st, ex.seqOf(st, a[1]), nil)
			ex.store(st, a[0], app("xofwrite", SU, ex.load(st, a[0], t), d), t)
			return []*Term{length(d), False}
		},
		"(*go.dedis.ch/kyber/v3/shuffle.PairShuffle).Init": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			ex.oblige(st, "panic", token.NoPos, "a shuffle has at least two elements", le(mkInt(2), a[2]))
			ex.store(st, a[0], app("pairshuffle", SU, a[2]), f.Signature.Recv().Type().(*types.Pointer).Elem())
			return one(a[0])
		},
		"(*go.dedis.ch/kyber/v3/shuffle.PairShuffle).Prove": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			ps := ex.load(st, a[0], f.Signature.Recv().Type().(*types.Pointer).Elem())
			if ps.op != OpApp || ps.name != "pairshuffle" {
				ex.fail("shuffle proof with an unknown number of elements")
			}
			k := ps.args[0]
			seq := func(i int) *Term { return ex.purify(st, ex.seqOf(st, a[i]), nil) }
			pi, beta, X, Y := seq(1), seq(4), seq(5), seq(6)
			ex.oblige(st, "panic", token.NoPos, "a shuffle proof has vectors of the number of elements it was made for",
				and(and(eq(length(pi), k), eq(length(beta), k)), and(le(k, length(X)), le(k, length(Y)))))
			ex.oblige(st, "panic", token.NoPos, "a shuffle proof is given indices in range",
				forall(k, func(i *Term) *Term { return and(le(mkInt(0), at(pi, i, SInt)), lt(at(pi, i, SInt), k)) }))
			ex.shufProver = app("shufprover", SU, pi, orBase(ex.pval(st, a[2])), orBase(ex.pval(st, a[3])), beta, X, Y)
			return one(False)
		},
		"go.dedis.ch/kyber/v3/shuffle.Verifier": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			seq := func(i int) *Term { return ex.purify(st, ex.seqOf(st, a[i]), nil) }
			ex.oblige(st, "panic", token.NoPos, "a shuffle has at least two elements", le(mkInt(2), length(seq(3))))
			return one(app("shufverifier", SU, orBase(ex.pval(st, a[1])), orBase(ex.pval(st, a[2])), seq(3), seq(4), seq(5), seq(6)))
		},
		"go.dedis.ch/kyber/v3/util/key.NewKeyPair": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			x := ex.choice("key", SSc)
			pt := f.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			sT := pt.Underlying().(*types.Struct)
			fs := make([]*Term, sT.NumFields())
			for i := range fs {
				ft := sT.Field(i).Type()
				switch sT.Field(i).Name() {
				case "Public":
					fs[i] = mul(x, BasePt)
				case "Private":
					fs[i] = x
				default:
					fs[i] = zeroOf(ft)
				}
			}
			return one(ex.alloc(st, pt, mkStruct("", fs...), "keypair"))
		},
		"math/big.NewInt": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return one(app("bigint", SU, a[0]))
		},
		"(*math/big.Int).Int64": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			if a[0].op == OpApp && a[0].name == "bigint" {
				return one(a[0].args[0])
			}
			return one(app("bigval", SInt, a[0]))
		},
		"go.dedis.ch/kyber/v3/util/random.Int": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			r := ex.choice("int", SInt)
			if a[0].op == OpApp && a[0].name == "bigint" {
				m := a[0].args[0]
				ex.oblige(st, "panic", token.NoPos, "random.Int modulus positive", lt(mkInt(0), m))
				st.assume(and(le(mkInt(0), r), lt(r, m)))
			}
			return one(app("bigint", SU, r))
		},
		"math/rand.Intn": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			r := ex.choice("int", SInt)
			ex.oblige(st, "panic", token.NoPos, "Intn argument positive", lt(mkInt(0), a[0]))
			st.assume(and(le(mkInt(0), r), lt(r, a[0])))
			return one(r)
		},
		"math/rand.Seed": nop,
		"math.Ceil": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return one(app("ceil", SU, a[0]))
		},
		"math.Max": opaqueModel("fmax"),
		"math.Abs": opaqueModel("fabs"),
		"strconv.Itoa": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return one(app("itoa", SSeq, a[0]))
		},
		"strconv.Atoi": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return []*Term{app("atoi", SInt, a[0]), app("atoibad", SBool, a[0])}
		},
		"strconv.ParseInt": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return []*Term{app("atoi", SInt, a[0]), app("atoibad", SBool, a[0])}
		},
		"strconv.FormatInt": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return one(app("itoa", SSeq, a[0]))
		},
		"strings.Join": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			v := pure(ex, st, ex.seqOf(st, a[0]))
			if a[1] == EmptySeq {
				return one(flat(length(v), func(i *Term) *Term { return at(v, i, SSeq) }))
			}
			return one(app("join", SSeq, v, a[1]))
		},
		"strings.Split": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return one(ex.allocSlice(st, types.Typ[types.String], app("split", SSeq, a[0], a[1])))
		},
		"strings.Contains": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return one(app("contains", SBool, a[0], a[1]))
		},
		"strings.Compare": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return one(ite(eq(a[0], a[1]), mkInt(0), ite(app("strlt", SBool, a[0], a[1]), mkInt(-1), mkInt(1))))
		},
		"strings.Replace": opaqueModel("replace"),
		"(encoding/binary.bigEndian).PutUint32": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			d, ok := a[1].ref.(*SliceRef)
			if !ok {
				ex.fail("PutUint32")
			}
			ex.oblige(st, "bounds", token.NoPos, "PutUint32 buffer", le(mkInt(4), d.len))
			ex.writeRange(st, d, mkInt(0), app("u32", SSeq, a[2]))
			return nil
		},
		"(encoding/binary.bigEndian).Uint32": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			s := pure(ex, st, ex.seqOf(st, a[1]))
			ex.oblige(st, "bounds", token.NoPos, "Uint32 buffer", le(mkInt(4), length(s)))
			r := app("u32dec", SInt, subSeq(s, mkInt(0), mkInt(4)))
			return one(r)
		},
		"(*encoding/base64.Encoding).EncodeToString": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return one(app("b64", SSeq, pure(ex, st, ex.seqOf(st, a[1]))))
		},
		"(*encoding/base64.Encoding).DecodeString": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return []*Term{ex.allocSlice(st, u8, app("b64dec", SSeq, a[1])), app("b64bad", SBool, a[1])}
		},
		"reflect.DeepEqual": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			x, y := pure(ex, st, a[0]), pure(ex, st, a[1])
			ix, ok1 := x.ref.(*IfaceRef)
			iy, ok2 := y.ref.(*IfaceRef)
			if ok1 && ok2 {
				if !types.Identical(ix.typ, iy.typ) {
					return one(False)
				}
				x, y = ix.val, iy.val
				if !hasGroup(ix.typ, map[types.Type]bool{}) {
					return one(eq(x, y))
				}
			}
			return one(app("deepeq", SBool, x, y))
		},
		"go.dedis.ch/kyber/v3/proof.Rep": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return one(app("rep", SU, append([]*Term{a[0]}, ex.strSeq(st, a[1])...)...))
		},
		"go.dedis.ch/kyber/v3/proof.And": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			var ps []*Term
			for _, p := range ex.strSeq(st, a[0]) {
				if p.name == "predand" {
					ps = append(ps, p.args...)
				} else {
					ps = append(ps, p)
				}
			}
			return one(app("predand", SU, ps...))
		},
		"invoke go.dedis.ch/kyber/v3/proof.Predicate.Prover": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return one(app("prover", SU, a[0], pure(ex, st, ex.mapOf(st, a[2])), pure(ex, st, ex.mapOf(st, a[3]))))
		},
		"invoke go.dedis.ch/kyber/v3/proof.Predicate.Verifier": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return one(app("verifier", SU, a[0], pure(ex, st, ex.mapOf(st, a[2]))))
		},
		"go.dedis.ch/kyber/v3/proof.HashProve": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			pr := a[2]
			if clo, ok := pr.ref.(*CloRef); ok {
				ex.shufProver = nil
				bad := ex.callFn(st, clo.fn, []*Term{app("provercontext", SU)}, clo.binds)[0]
				if ex.shufProver == nil || bad != False {
					ex.fail("HashProve with an unknown prover")
				}
				return []*Term{ex.allocSlice(st, u8, app("sprf", SSeq, append([]*Term{a[1]}, ex.shufProver.args...)...)), False}
			}
			if pr.op != OpApp || pr.name != "prover" {
				ex.fail("HashProve with an unknown prover")
			}
			p := pr.args[0]
			ks := map[string]bool{}
			predSecrets(p, ks)
			sv := ex.predVars(p, pr.args[1], false, SSc)
			bv := ex.predBases(p, pr.args[2])
			for _, k := range sortedKeys(ks) {
				ex.oblige(st, "panic", token.NoPos, "the prover is given the secret "+k, mhas(pr.args[1], mkStr(k)))
			}
			for _, v := range append(append([]*Term{}, sv...), bv...) {
				ex.notNil(st, v)
			}
			t := app("prf", SSeq, append(append([]*Term{a[1], p}, sv...), bv...)...)
			return []*Term{ex.allocSlice(st, u8, t), False}
		},
		"go.dedis.ch/kyber/v3/proof.HashVerify": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			ve := a[2]
			proof := pure(ex, st, ex.seqOf(st, a[3]))
			if ve.op == OpApp && ve.name == "shufverifier" {
				return one(not(ex.shuffleVerify(st, a[1], ve, proof)))
			}
			if ve.op != OpApp || ve.name != "verifier" {
				ex.fail("HashVerify with an unknown verifier")
			}
			p := ve.args[0]
			pv := ex.predVars(p, ve.args[1], true, SPt)
			for _, v := range pv {
				ex.notNil(st, v)
			}
			return one(not(ex.nizk(st, a[1], p, pv, proof)))
		},
		"(*" + cmapType + ").Get": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			r, ok := a[0].ref.(*PtrRef)
			if !ok {
				ex.fail("concurrent map %s", clip(a[0].String(), 60))
			}
			m := st.heap[r.obj]
			k := ex.unbox(pure(ex, st, a[1]), types.String)
			has := ex.decide(st, mhas(m, k))
			v := mkRef(&IfaceRef{types.Typ[types.Int64], mget(m, k, SInt)})
			switch has {
			case True:
				return []*Term{v, False}
			case False:
				return []*Term{nilRef, False}
			}
			return []*Term{mk(&Term{op: OpIte, sort: SRef, args: []*Term{has, v, nilRef}}), False}
		},
		"(*" + cmapType + ").Put": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			r, ok := a[0].ref.(*PtrRef)
			if !ok {
				ex.fail("concurrent map %s", clip(a[0].String(), 60))
			}
			k := ex.unbox(pure(ex, st, a[1]), types.String)
			if ex.writeHook != nil {
				ex.writeHook(st, r.obj)
			}
			st.heap[r.obj] = mupd(st.heap[r.obj], k, ex.unbox(pure(ex, st, a[2]), types.Int64))
			return []*Term{nilRef, False}
		},
		"github.com/fanliao/go-concurrentMap.NewConcurrentMap": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			o := ex.newObj(f.Signature.Results().At(0).Type().(*types.Pointer).Elem(), "cmap")
			st.heap[o.id] = EmptyMap
			return one(mkRef(&PtrRef{o.id, nil}))
		},
		"time.Now":   choiceModel("now"),
		"time.Since": choiceModel("since"),
		"time.After": choiceModel("after"),
		"(*go.dedis.ch/onet/v3/simul/monitor.TimeMeasure).Record": nop,
		"go.dedis.ch/onet/v3/simul/monitor.NewTimeMeasure":        opaqueModel("timemeasure"),
		"(*go.dedis.ch/onet/v3.TreeNodeInstance).Private":         opaqueModel("tni.Private"),
		"(*go.dedis.ch/onet/v3.TreeNodeInstance).Public":          opaqueModel("tni.Public"),
		"(*go.dedis.ch/onet/v3.TreeNodeInstance).IsRoot":          opaqueModel("tni.IsRoot"),
		"(*go.dedis.ch/onet/v3.TreeNodeInstance).IsLeaf":          opaqueModel("tni.IsLeaf"),
		"(*go.dedis.ch/onet/v3.TreeNodeInstance).Name":            opaqueModel("tni.Name"),
		"(*go.dedis.ch/onet/v3/network.ServerIdentity).String":    opaqueModel("si.String"),
		"fmt.Sprintf": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			v := pure(ex, st, ex.seqOf(st, a[1]))
			if f, ok := cstr(a[0]); ok && (f == "%s" || f == "%v") && v.op == OpLit && len(v.args) == 1 {
				if r, ok := v.args[0].ref.(*IfaceRef); ok && r.val.sort == SSeq && namedPath(r.typ) == "" {
					if b, ok := r.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
						return one(r.val)
					}
				}
			}
			return one(app("sprintf", SSeq, a[0], v))
		},
		"fmt.Sprint": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return one(app("sprint", SSeq, pure(ex, st, ex.seqOf(st, a[0]))))
		},
	}
	for k, m := range protoModels() {
		models[k] = m
	}
}

func hasGroup(t types.Type, seen map[types.Type]bool) bool {
	t = types.Unalias(t)
	if isPoint(t) || isScalar(t) {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return hasGroup(u.Elem(), seen)
	case *types.Array:
		return hasGroup(u.Elem(), seen)
	case *types.Pointer:
		return hasGroup(u.Elem(), seen)
	case *types.Map:
		return hasGroup(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasGroup(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Interface:
		return true
	}
	return false
}

// nizk is the acceptance condition of a non-interactive proof of knowledge. A proof made by HashProve is accepted
// exactly where the secrets and generators used fit the statement; any other accepted proof implies that witnesses exist
// (knowledge soundness of the Fiat-Shamir sigma protocols, assumed).
func (ex *Exec) nizk(st *State, name, p *Term, pv []*Term, proof *Term) *Term {
	kp, ks := map[string]bool{}, map[string]bool{}
	predPublics(p, kp)
	predSecrets(p, ks)
	var acc func(proof *Term) *Term
	acc = func(proof *Term) *Term {
		if proof.op == OpIte {
			return ite(proof.args[0], acc(proof.args[1]), acc(proof.args[2]))
		}
		if proof.op == OpApp && proof.name == "prf" {
			if proof.args[0] == name && proof.args[1] == p {
				// An honest transcript is fixed by the secrets and the generators it was made with: it verifies
				// exactly with the same generators and the public points these secrets give.
				bases := map[string]bool{}
				predBaseNames(p, bases)
				pub := lookupIn(sortedKeys(kp), pv)
				ns := len(sortedKeys(ks))
				same := True
				for i, b := range sortedKeys(bases) {
					same = and(same, eq(proof.args[2+ns+i], pub(b)))
				}
				return and(same, ex.holds(st, p, lookupIn(sortedKeys(ks), proof.args[2:2+ns]), pub))
			}
			return False
		}
		ok := app("nizkok", SBool, append([]*Term{name, p, proof}, pv...)...)
		var wit []*Term
		for _, x := range sortedKeys(ks) {
			wit = append(wit, app("wit:"+x, SSc, append([]*Term{name, p, proof}, pv...)...))
		}
		st.assume(implies(ok, ex.holds(st, p, lookupIn(sortedKeys(ks), wit), lookupIn(sortedKeys(kp), pv))))
		return ok
	}
	return acc(proof)
}

func (ex *Exec) shuffleVerify(st *State, name, ve, proof *Term) *Term {
	n := length(ve.args[2])
	for _, v := range ve.args[3:] {
		ex.oblige(st, "panic", token.NoPos, "the lists of a shuffle have the same length", eq(length(v), n))
	}
	// related: the second pair of lists is the first one, permuted and re-randomised
	related := func(pi, beta *Term) *Term {
		return forall(n, func(i *Term) *Term {
			j := at(pi, i, SInt)
			r := True
			for c := 0; c < 2; c++ {
				r = and(r, eq(at(ve.args[4+c], i, SPt), add(at(ve.args[2+c], j, SPt), mul(at(beta, j, SSc), ve.args[c]))))
			}
			return r
		})
	}
	var acc func(proof *Term) *Term
	acc = func(proof *Term) *Term {
		if proof.op == OpIte {
			return ite(proof.args[0], acc(proof.args[1]), acc(proof.args[2]))
		}
		if proof.op == OpApp && proof.name == "sprf" {
			if proof.args[0] != name {
				return False
			}
			p := proof.args[1:]
			return and(and(and(eq(p[1], ve.args[0]), eq(p[2], ve.args[1])), and(eq(p[4], ve.args[2]), eq(p[5], ve.args[3]))), related(p[0], p[3]))
		}
		if proof.op == OpApp && proof.name == "prf" {
			return False
		}
		args := append([]*Term{name, proof}, ve.args...)
		ok := app("shufok", SBool, args...)
		pi, beta := app("shufpi", SSeq, args...), app("shufbeta", SSeq, args...)
		st.assume(implies(ok, and(and(eq(length(pi), n), eq(length(beta), n)), and(isPerm(pi, n), related(pi, beta)))))
		return ok
	}
	return acc(proof)
}

// isPerm: pi permutes the numbers below n.
func isPerm(pi, n *Term) *Term {
	return and(forall(n, func(i *Term) *Term { return and(le(mkInt(0), at(pi, i, SInt)), lt(at(pi, i, SInt), n)) }),
		forall(n, func(i *Term) *Term {
			return forall(n, func(j *Term) *Term { return or(eq(i, j), not(eq(at(pi, i, SInt), at(pi, j, SInt)))) })
		}))
}

// orBase: the library takes nil for the base point.
func orBase(p *Term) *Term {
	if p == nilPt {
		return BasePt
	}
	if p.op == OpIte {
		return ite(p.args[0], orBase(p.args[1]), orBase(p.args[2]))
	}
	return p
}

// unbox takes the value of basic kind k out of an interface; the concurrent maps of the code hold nothing else.
func (ex *Exec) unbox(v *Term, k types.BasicKind) *Term {
	if r, ok := v.ref.(*IfaceRef); ok && types.Identical(r.typ, types.Typ[k]) {
		return r.val
	}
	ex.fail("concurrent map with key or value %s", clip(v.String(), 60))
	return nil
}
