package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A protocol step runs on a tree node: it receives messages from channels and sends messages to other nodes. A channel
// object holds the messages which wait in it. What the step sends is recorded, as it was when it was sent, in the
// outbox object of the execution.

const tniType = "(*go.dedis.ch/onet/v3.TreeNodeInstance)."

func (ex *Exec) chanObj(ch *Term) (*PtrRef, bool) {
	r, ok := ch.ref.(*PtrRef)
	return r, ok
}

func (ex *Exec) waiting(st *State, r *PtrRef) *Term {
	c := ex.getPath(st, st.heap[r.obj], r.path, ex.objs[r.obj].typ)
	if c.sort != SSeq {
		ex.fail("receive from a symbolic channel")
	}
	return c
}

func (ex *Exec) take(st *State, r *PtrRef, c *Term, t types.Type) *Term {
	if ex.writeHook != nil {
		ex.writeHook(st, r.obj)
	}
	v := at(c, mkInt(0), sortOf(t))
	st.heap[r.obj] = ex.setPath(st, st.heap[r.obj], r.path, ex.objs[r.obj].typ, subSeq(c, mkInt(1), sub(length(c), mkInt(1))))
	return v
}

// recv takes the first waiting message; with none the receiver would wait for ever.
func (ex *Exec) recv(st *State, ch *Term, t types.Type, commaOk bool) *Term {
	r, ok := ex.chanObj(ch)
	if !ok {
		ex.fail("receive from %s", clip(ch.String(), 60))
	}
	if commaOk {
		ex.fail("receive with ok")
	}
	c := ex.waiting(st, r)
	some := lt(mkInt(0), length(c))
	ex.oblige(st, "blocked", token.NoPos, "a message waits in the channel", some)
	if ex.decide(st, some) != True {
		st.branch(some)
	}
	return ex.take(st, r, c, t)
}

// selectStmt: a case whose channel has a message comes before the timeout.
func (ex *Exec) selectStmt(st *State, i *ssa.Select) *Term {
	timeout, from := -1, -1
	var val *Term
	for k, s := range i.States {
		if s.Dir != types.RecvOnly {
			ex.fail("select with a send")
		}
		ch := ex.val(st, s.Chan)
		r, ok := ex.chanObj(ch)
		if !ok {
			timeout = k
			continue
		}
		if from >= 0 {
			continue
		}
		c := ex.waiting(st, r)
		switch ex.decide(st, lt(mkInt(0), length(c))) {
		case True:
			ex.assumed["a message that waits is taken before the timeout of a select"] = true
			from = k
			val = ex.take(st, r, c, s.Chan.Type().Underlying().(*types.Chan).Elem())
		case False:
		default:
			ex.fail("select on a channel which may or may not hold a message")
		}
	}
	idx := from
	if idx < 0 {
		idx = timeout
		if !i.Blocking {
			idx = -1
		} else if timeout < 0 {
			ex.oblige(st, "blocked", token.NoPos, "a message waits in a channel of the select", False)
			st.branch(False)
		}
	}
	fs := []*Term{mkInt(int64(idx)), mkBool(idx >= 0)}
	for k, s := range i.States {
		t := s.Chan.Type().Underlying().(*types.Chan).Elem()
		if k == from {
			fs = append(fs, val)
		} else {
			fs = append(fs, zeroOf(t))
		}
	}
	return mkStruct("", fs...)
}

// outbox is the sequence of messages sent: pairs of a receiver and a message.
func (ex *Exec) outboxObj(st *State) int {
	if ex.outbox == 0 {
		ex.fail("a message is sent outside a contract")
	}
	return ex.outbox - 1
}

func (ex *Exec) sendMsg(st *State, to, msg *Term) []*Term {
	o := ex.outboxObj(st)
	if ex.writeHook != nil {
		ex.writeHook(st, o)
	}
	st.heap[o] = cat(st.heap[o], lit(mkStruct("", to, ex.purify(st, msg, nil))))
	ex.assumed["sending a message to another node succeeds"] = true
	return []*Term{False}
}

func sendModel(to func(a []*Term) (*Term, int)) model {
	return func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
		t, k := to(a)
		return ex.sendMsg(st, t, a[k])
	}
}

func protoModels() map[string]model {
	ptrSort := func(t types.Type) Sort {
		if p, ok := t.Underlying().(*types.Pointer); ok && sortOf(p.Elem()) == SU {
			return SU
		}
		return sortOf(t)
	}
	field := func(name string) model {
		return func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			return []*Term{app(name, ptrSort(f.Signature.Results().At(0).Type()), ex.purify(st, a[0], nil))}
		}
	}
	return map[string]model{
		tniType + "Roster": func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term {
			// the roster of the tree
			o := f.Object().Pkg().Scope().Lookup("Tree").Type()
			tree := app("tni.Tree", ptrSort(types.NewPointer(o)), ex.purify(st, a[0], nil))
			return []*Term{app("ofld:go.dedis.ch/onet/v3.Tree.1", sortOf(f.Signature.Results().At(0).Type()), tree)}
		},
		tniType + "Tree":           field("tni.Tree"),
		tniType + "TreeNode":       field("tni.TreeNode"),
		tniType + "ServerIdentity": field("tni.ServerIdentity"),
		tniType + "Done":           func(ex *Exec, st *State, f *ssa.Function, a []*Term, c *ssa.CallCommon) []*Term { return nil },
		tniType + "SendTo":         sendModel(func(a []*Term) (*Term, int) { return a[1], 2 }),
		tniType + "SendToParent":   sendModel(func(a []*Term) (*Term, int) { return app("tni.Parent", SU), 1 }),
		tniType + "SendToChildren": sendModel(func(a []*Term) (*Term, int) { return app("tni.Children", SU), 1 }),
	}
}
