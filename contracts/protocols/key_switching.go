//go:build go1.18

package protocolsunlynx

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/key_switch"
	"github.com/ldsec/unlynx/lib/tools"
	"github.com/ldsec/unlynx/lib/zzghost"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

// ---------------------------------------------------------------- C22 one server's part in key switching

// zShare is what a server contributes for a ciphertext with first component k: an encryption under the new key of minus
// its private key times k.
func zShare(c libunlynx.CipherText, k kyber.Point, priv, newSecret kyber.Scalar) bool {
	return zzghost.SamePoint(zzghost.Minus(c.C, zzghost.Times(newSecret, c.K)), zzghost.Minus(zzghost.ZeroPoint(), zzghost.Times(priv, k)))
}

// The root sends the new key and the first components down the tree and keeps its own share.
//
//verif:property C22
//verif:inputs zInputsSwitchStart
func Contract_KeySwitching_Start(n *onet.TreeNodeInstance, target libunlynx.CipherVector, newSecret kyber.Scalar) {
	newKey := libunlynx.ZPub(newSecret)
	p := &KeySwitchingProtocol{TreeNodeInstance: n, TargetOfSwitch: &target, TargetPublicKey: &newKey}
	err := p.Start()
	zzghost.Ensures("starts", err == nil)
	zzghost.Ensures("one message", zzghost.SentCount() == 1 && zzghost.SentToChildren(0))
	pts, err := libunlynx.FromBytesToAbstractPoints(zzghost.Sent(0).(*DownMessageBytes).Data)
	zzghost.Ensures("decodes", err == nil && len(pts) == len(target)+1)
	zzghost.Ensures("key", zzghost.SamePoint(pts[0], newKey))
	zzghost.Ensures("points", zzghost.Forall(len(target), func(i int) bool { return zzghost.SamePoint(pts[i+1], target[i].K) }))
	own := *p.NodeContribution
	zzghost.Ensures("length", len(own) == len(target))
	zzghost.Ensures("share", zzghost.Forall(len(target), func(i int) bool { return zShare(own[i], target[i].K, n.Private(), newSecret) }))
}

func zEncodeCV(cv libunlynx.CipherVector) []byte {
	b, _, err := cv.ToBytes()
	zzghost.Requires(err == nil)
	return b
}

// zBelow fills the channels of a node with the shares of its nc children, m ciphertexts each.
func zBelow(p *KeySwitchingProtocol, kids libunlynx.CipherVector, nc, m int) {
	zzghost.Requires(0 <= nc && 0 <= m && m < 1<<32 && len(kids) == nc*m)
	lengths, shares := make(chan []LengthStruct, 1), make(chan []UpBytesStruct, 1)
	lengths <- zzghost.Build(nc, func(c int) LengthStruct {
		return LengthStruct{LengthMessage: LengthMessage{Length: libunlynxtools.UnsafeCastIntsToBytes([]int{m})}}
	})
	shares <- zzghost.Build(nc, func(c int) UpBytesStruct {
		return UpBytesStruct{UpBytesMessage: UpBytesMessage{Data: zEncodeCV(kids[c*m : (c+1)*m])}}
	})
	p.LengthChannel, p.ChildDataChannel = lengths, shares
}

// The root adds the shares of all servers to the second components: what comes out opens under the new key to what went
// in if the shares add up to the collective key.
//
//verif:property C22
//verif:inputs zInputsSwitchAdd
func Contract_KeySwitching_DispatchRoot(n *onet.TreeNodeInstance, target, own, kids libunlynx.CipherVector, nc int) {
	m := len(target)
	zzghost.Requires(n.IsRoot() && !n.IsLeaf() && len(own) == m)
	out := make(chan libunlynx.CipherVector, 1)
	p := &KeySwitchingProtocol{TreeNodeInstance: n, TargetOfSwitch: &target, NodeContribution: &own, FeedbackChannel: out}
	zBelow(p, kids, nc, m)
	err := p.Dispatch()
	zzghost.Ensures("finishes", err == nil)
	zzghost.Ensures("nothing sent", zzghost.SentCount() == 0)
	res := <-out
	zzghost.Ensures("length", len(res) == m)
	zzghost.Ensures("K", zzghost.Forall(m, func(i int) bool {
		return zzghost.SamePoint(res[i].K, zzghost.Plus(own[i].K, zzghost.SumPoint(nc, func(c int) kyber.Point { return kids[c*m+i].K })))
	}))
	zzghost.Ensures("C", zzghost.Forall(m, func(i int) bool {
		return zzghost.SamePoint(res[i].C, zzghost.Plus(target[i].C, zzghost.Plus(own[i].C, zzghost.SumPoint(nc, func(c int) kyber.Point { return kids[c*m+i].C }))))
	}))
}

// zDown is the message that comes down the tree: the new key and the first components.
func zDown(newKey kyber.Point, rbs []kyber.Point) chan DownBytesStruct {
	b, err := libunlynx.AbstractPointsToBytes(append([]kyber.Point{newKey}, rbs...))
	zzghost.Requires(err == nil)
	down := make(chan DownBytesStruct, 1)
	down <- DownBytesStruct{DownMessageBytes: DownMessageBytes{Data: b}}
	return down
}

// A leaf passes its share to its parent.
//
//verif:property C22
//verif:inputs zInputsSwitchLeaf
func Contract_KeySwitching_DispatchLeaf(n *onet.TreeNodeInstance, newSecret kyber.Scalar, rbs []kyber.Point) {
	m := len(rbs)
	zzghost.Requires(!n.IsRoot() && n.IsLeaf() && m < 1<<32)
	p := &KeySwitchingProtocol{TreeNodeInstance: n, DownChannel: zDown(libunlynx.ZPub(newSecret), rbs)}
	err := p.Dispatch()
	zzghost.Ensures("finishes", err == nil)
	zzghost.Ensures("messages", zzghost.SentCount() == 3 && zzghost.SentToParent(1) && zzghost.SentToParent(2))
	l := libunlynxtools.UnsafeCastBytesToInts(zzghost.Sent(1).(*LengthMessage).Length)
	zzghost.Ensures("length", len(l) == 1 && l[0] == m)
	var up libunlynx.CipherVector
	err = up.FromBytes(zzghost.Sent(2).(*UpBytesMessage).Data, m)
	zzghost.Ensures("decodes", err == nil && len(up) == m)
	zzghost.Ensures("share", zzghost.Forall(m, func(i int) bool { return zShare(up[i], rbs[i], n.Private(), newSecret) }))
}

// A server between root and leaves passes what it got from its parent to its children, and to its parent the sum of its
// own share and those of its children.
//
//verif:property C22
//verif:inputs zInputsSwitchInner
func Contract_KeySwitching_DispatchInner(n *onet.TreeNodeInstance, newSecret kyber.Scalar, rbs []kyber.Point, kids libunlynx.CipherVector, nc int) {
	m := len(rbs)
	zzghost.Requires(!n.IsRoot() && !n.IsLeaf())
	p := &KeySwitchingProtocol{TreeNodeInstance: n, DownChannel: zDown(libunlynx.ZPub(newSecret), rbs)}
	zBelow(p, kids, nc, m)
	err := p.Dispatch()
	zzghost.Ensures("finishes", err == nil)
	zzghost.Ensures("messages", zzghost.SentCount() == 3 && zzghost.SentToChildren(0) && zzghost.SentToParent(1) && zzghost.SentToParent(2))
	pts, err := libunlynx.FromBytesToAbstractPoints(zzghost.Sent(0).(*DownMessageBytes).Data)
	zzghost.Ensures("passes on", err == nil && len(pts) == m+1 && zzghost.SamePoint(pts[0], libunlynx.ZPub(newSecret)))
	zzghost.Ensures("passes on all", zzghost.Forall(m, func(i int) bool { return zzghost.SamePoint(pts[i+1], rbs[i]) }))
	l := libunlynxtools.UnsafeCastBytesToInts(zzghost.Sent(1).(*LengthMessage).Length)
	zzghost.Ensures("length", len(l) == 1 && l[0] == m)
	var up libunlynx.CipherVector
	err = up.FromBytes(zzghost.Sent(2).(*UpBytesMessage).Data, m)
	zzghost.Ensures("decodes", err == nil && len(up) == m)
	zzghost.Ensures("sum", zzghost.Forall(m, func(i int) bool {
		below := libunlynx.CipherText{K: zzghost.SumPoint(nc, func(c int) kyber.Point { return kids[c*m+i].K }), C: zzghost.SumPoint(nc, func(c int) kyber.Point { return kids[c*m+i].C })}
		return zShare(libunlynx.CipherText{K: zzghost.Minus(up[i].K, below.K), C: zzghost.Minus(up[i].C, below.C)}, rbs[i], n.Private(), newSecret)
	}))
}

// In a tree: if what comes from below are shares of servers whose keys add up, per child, to keys[c], then what is
// passed up is a share of the sum of all keys up to here.
//
//verif:property C22
//verif:inputs zInputsSwitchTree
func Contract_KeySwitching_Tree(n *onet.TreeNodeInstance, newSecret kyber.Scalar, rbs []kyber.Point, kids libunlynx.CipherVector, keys []kyber.Scalar) {
	m, nc := len(rbs), len(keys)
	zzghost.Requires(!n.IsRoot() && !n.IsLeaf())
	zzghost.Requires(len(kids) == nc*m && zzghost.Forall(nc, func(c int) bool {
		return zzghost.Forall(m, func(i int) bool { return zShare(kids[c*m+i], rbs[i], keys[c], newSecret) })
	}))
	p := &KeySwitchingProtocol{TreeNodeInstance: n, DownChannel: zDown(libunlynx.ZPub(newSecret), rbs)}
	zBelow(p, kids, nc, m)
	err := p.Dispatch()
	zzghost.Ensures("finishes", err == nil && zzghost.SentCount() == 3)
	var up libunlynx.CipherVector
	err = up.FromBytes(zzghost.Sent(2).(*UpBytesMessage).Data, m)
	zzghost.Ensures("decodes", err == nil && len(up) == m)
	all := zzghost.PlusS(n.Private(), zzghost.SumScalar(nc, func(c int) kyber.Scalar { return keys[c] }))
	zzghost.Ensures("share of all", zzghost.Forall(m, func(i int) bool { return zShare(up[i], rbs[i], all, newSecret) }))
}

// At the root: if the keys of all servers add up to the key the ciphertexts were made for, the result opens under the
// new key to what they contain.
//
//verif:property C22
//verif:inputs zInputsSwitchRoot
func Contract_KeySwitching_Root(n *onet.TreeNodeInstance, newSecret kyber.Scalar, target, kids libunlynx.CipherVector, keys []kyber.Scalar) {
	m, nc := len(target), len(keys)
	zzghost.Requires(n.IsRoot() && !n.IsLeaf())
	zzghost.Requires(len(kids) == nc*m && zzghost.Forall(nc, func(c int) bool {
		return zzghost.Forall(m, func(i int) bool { return zShare(kids[c*m+i], target[i].K, keys[c], newSecret) })
	}))
	newKey := libunlynx.ZPub(newSecret)
	out := make(chan libunlynx.CipherVector, 1)
	p := &KeySwitchingProtocol{TreeNodeInstance: n, TargetOfSwitch: &target, TargetPublicKey: &newKey, FeedbackChannel: out}
	err := p.Start()
	zzghost.Ensures("starts", err == nil)
	zBelow(p, kids, nc, m)
	err = p.Dispatch()
	zzghost.Ensures("finishes", err == nil)
	res := <-out
	all := zzghost.PlusS(n.Private(), zzghost.SumScalar(nc, func(c int) kyber.Scalar { return keys[c] }))
	zzghost.Ensures("length", len(res) == m)
	zzghost.Ensures("same plaintext", zzghost.Forall(m, func(i int) bool {
		return zzghost.SamePoint(zzghost.Minus(res[i].C, zzghost.Times(newSecret, res[i].K)), zzghost.Minus(target[i].C, zzghost.Times(all, target[i].K)))
	}))
}

// The proofs a server makes of its share are accepted.
//
//verif:property C22
//verif:inputs zInputsSwitchLeaf
func Contract_KeySwitching_Proofs(n *onet.TreeNodeInstance, newSecret kyber.Scalar, rbs []kyber.Point) {
	m := len(rbs)
	zzghost.Requires(!n.IsRoot() && n.IsLeaf() && m < 1<<32 && zzghost.SamePoint(n.Public(), libunlynx.ZPub(n.Private())))
	p := &KeySwitchingProtocol{TreeNodeInstance: n, DownChannel: zDown(libunlynx.ZPub(newSecret), rbs), Proofs: true}
	calls, good := 0, false
	p.ProofFunc = func(pub, newKey kyber.Point, priv kyber.Scalar, ks2s, rBNegs []kyber.Point, vis []kyber.Scalar) *libunlynxkeyswitch.PublishedKSListProof {
		l, err := libunlynxkeyswitch.KeySwitchListProofCreation(pub, newKey, priv, ks2s, rBNegs, vis)
		calls++
		good = err == nil && len(l.List) == m && libunlynxkeyswitch.KeySwitchListProofVerification(l, 1)
		return &l
	}
	err := p.Dispatch()
	zzghost.Ensures("finishes", err == nil)
	zzghost.Ensures("proofs accepted", calls == 1 && good)
}
