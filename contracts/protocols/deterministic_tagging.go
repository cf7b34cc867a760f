//go:build go1.18

package protocolsunlynx

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/zzghost"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

// ---------------------------------------------------------------- C21 one server's part in deterministic tagging

// zTagging is the protocol instance at a node which got first and then second from the node before it.
func zTagging(n *onet.TreeNodeInstance, next *onet.TreeNode, secret kyber.Scalar, first, second []byte) (*DeterministicTaggingProtocol, chan []libunlynx.DeterministCipherText) {
	in := make(chan deterministicTaggingBytesStruct, 2)
	in <- deterministicTaggingBytesStruct{DeterministicTaggingBytesMessage: DeterministicTaggingBytesMessage{Data: first}}
	in <- deterministicTaggingBytesStruct{DeterministicTaggingBytesMessage: DeterministicTaggingBytesMessage{Data: second}}
	out := make(chan []libunlynx.DeterministCipherText, 1)
	p := &DeterministicTaggingProtocol{TreeNodeInstance: n, FeedbackChannel: out, PreviousNodeInPathChannel: in, nextNodeInCircuit: next, SurveySecretKey: &secret}
	return p, out
}

// The root starts a round with the ciphertexts it was given.
//
//verif:property C21
//verif:inputs zInputsTagStart
func Contract_DeterministicTagging_Start(n *onet.TreeNodeInstance, next *onet.TreeNode, secret kyber.Scalar, target libunlynx.CipherVector) {
	p, _ := zTagging(n, next, secret, nil, nil)
	p.TargetOfSwitch = &target
	err := p.Start()
	zzghost.Ensures("starts", err == nil)
	zzghost.Ensures("one message", zzghost.SentCount() == 1 && zzghost.SentTo(0, next))
	var d DeterministicTaggingMessage
	err = d.FromBytes(zzghost.Sent(0).(*DeterministicTaggingBytesMessage).Data)
	zzghost.Ensures("decodes", err == nil && len(d.Data) == len(target))
	zzghost.Ensures("same", zzghost.Forall(len(target), func(i int) bool { return libunlynx.ZSameCT(d.Data[i], target[i]) }))
}

func zEncodeDet(cv libunlynx.CipherVector) []byte {
	m := DeterministicTaggingMessage{Data: cv}
	b, err := m.ToBytes()
	zzghost.Requires(err == nil)
	return b
}

// Every other server adds its secret to what comes in the first round, and in the second round removes its key and
// multiplies by its secret. It sends both on to the next server.
//
//verif:property C21
//verif:inputs zInputsTag
func Contract_DeterministicTagging_Dispatch(n *onet.TreeNodeInstance, next *onet.TreeNode, secret kyber.Scalar, first, second libunlynx.CipherVector, proofs bool) {
	zzghost.Requires(!n.IsRoot())
	p, _ := zTagging(n, next, secret, zEncodeDet(first), zEncodeDet(second))
	p.Proofs = proofs
	err := p.Dispatch()
	zzghost.Ensures("finishes", err == nil)
	zzghost.Ensures("two messages", zzghost.SentCount() == 2 && zzghost.SentTo(0, next) && zzghost.SentTo(1, next))
	var d, e DeterministicTaggingMessage
	err = d.FromBytes(zzghost.Sent(0).(*DeterministicTaggingBytesMessage).Data)
	zzghost.Ensures("decodes 1", err == nil && len(d.Data) == len(first))
	zzghost.Ensures("adds", zzghost.Forall(len(first), func(i int) bool {
		return zzghost.SamePoint(d.Data[i].K, first[i].K) && zzghost.SamePoint(d.Data[i].C, zzghost.Plus(first[i].C, zzghost.Times(secret, zzghost.Base())))
	}))
	err = e.FromBytes(zzghost.Sent(1).(*DeterministicTaggingBytesMessage).Data)
	zzghost.Ensures("decodes 2", err == nil && len(e.Data) == len(second))
	zzghost.Ensures("tags K", zzghost.Forall(len(second), func(i int) bool {
		return zzghost.SamePoint(e.Data[i].K, zzghost.Times(secret, second[i].K))
	}))
	zzghost.Ensures("tags C", zzghost.Forall(len(second), func(i int) bool {
		return zzghost.SamePoint(e.Data[i].C, zzghost.Times(secret, zzghost.Minus(second[i].C, zzghost.Times(n.Private(), second[i].K))))
	}))
}

// The root does the same, but gives the tags to whom started the protocol.
//
//verif:property C21
//verif:inputs zInputsTagRoot
func Contract_DeterministicTagging_DispatchRoot(n *onet.TreeNodeInstance, next *onet.TreeNode, secret kyber.Scalar, target, first, second libunlynx.CipherVector, proofs bool) {
	zzghost.Requires(n.IsRoot() && len(second) == len(target))
	p, out := zTagging(n, next, secret, zEncodeDet(first), zEncodeDet(second))
	p.Proofs = proofs
	p.TargetOfSwitch = &target
	err := p.Dispatch()
	zzghost.Ensures("finishes", err == nil)
	zzghost.Ensures("one message", zzghost.SentCount() == 1 && zzghost.SentTo(0, next))
	var d DeterministicTaggingMessage
	err = d.FromBytes(zzghost.Sent(0).(*DeterministicTaggingBytesMessage).Data)
	zzghost.Ensures("decodes", err == nil && len(d.Data) == len(first))
	zzghost.Ensures("adds", zzghost.Forall(len(first), func(i int) bool {
		return zzghost.SamePoint(d.Data[i].K, first[i].K) && zzghost.SamePoint(d.Data[i].C, zzghost.Plus(first[i].C, zzghost.Times(secret, zzghost.Base())))
	}))
	tags := <-out
	zzghost.Ensures("one tag each", len(tags) == len(target))
	zzghost.Ensures("tags", zzghost.Forall(len(target), func(i int) bool {
		return zzghost.SamePoint(tags[i].Point, zzghost.Times(secret, zzghost.Minus(second[i].C, zzghost.Times(n.Private(), second[i].K))))
	}))
}
