//go:build go1.18

package protocolsunlynx

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/shuffle"
	"github.com/ldsec/unlynx/lib/zzghost"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

// ---------------------------------------------------------------- C23 one server's part in shuffling

// zShuffled: out is in, permuted by pi and re-randomised with beta for the collective key.
func zShuffled(in, out []libunlynx.CipherVector, key kyber.Point, pi []int, beta [][]kyber.Scalar) bool {
	nq := len(in[0])
	return len(out) == len(in) && len(pi) == len(in) && libunlynxshuffle.ZPermutation(pi) && libunlynxshuffle.ZWidth(out, nq) &&
		zzghost.Forall(len(in), func(i int) bool {
			return zzghost.Forall(nq, func(j int) bool {
				return zzghost.SamePoint(out[i][j].K, zzghost.Plus(in[pi[i]][j].K, zzghost.Times(beta[pi[i]][j], zzghost.Base()))) &&
					zzghost.SamePoint(out[i][j].C, zzghost.Plus(in[pi[i]][j].C, zzghost.Times(beta[pi[i]][j], key)))
			})
		})
}

func zDecodeShuffle() ([]libunlynx.CipherVector, bool) {
	var d ShufflingMessage
	err := d.FromBytes(zzghost.Sent(1).(*ShufflingBytesMessage).Data, zzghost.Sent(0).(*ShufflingBytesMessageLength).CVLengths)
	return d.Data, err == nil
}

// The root shuffles the responses and sends them to the next server.
//
//verif:property C23
//verif:inputs zInputsShuffleStart
func Contract_Shuffling_Start(n *onet.TreeNodeInstance, next *onet.TreeNode, in []libunlynx.CipherVector) {
	zzghost.Requires(len(in) > 0 && libunlynxshuffle.ZWidth(in, len(in[0])))
	var pi []int
	var beta [][]kyber.Scalar
	p := &ShufflingProtocol{TreeNodeInstance: n, nextNodeInCircuit: next, ShuffleTarget: &in, Proofs: true}
	p.ProofFunc = func(before, after []libunlynx.CipherVector, key kyber.Point, b [][]kyber.Scalar, perm []int) *libunlynxshuffle.PublishedShufflingProof {
		pi, beta = perm, b
		return nil
	}
	err := p.Start()
	zzghost.Ensures("starts", err == nil)
	zzghost.Ensures("messages", zzghost.SentCount() == 2 && zzghost.SentTo(0, next) && zzghost.SentTo(1, next))
	out, ok := zDecodeShuffle()
	zzghost.Ensures("decodes", ok)
	zzghost.Ensures("shuffled", zShuffled(in, out, n.Roster().Aggregate, pi, beta))
}

// zShufflingAt is the protocol instance at a node which got in from the node before it.
func zShufflingAt(n *onet.TreeNodeInstance, next *onet.TreeNode, in []libunlynx.CipherVector) (*ShufflingProtocol, chan []libunlynx.CipherVector) {
	b, l, err := (&ShufflingMessage{in}).ToBytes()
	zzghost.Requires(err == nil)
	lengths, data, out := make(chan shufflingBytesLengthStruct, 1), make(chan shufflingBytesStruct, 1), make(chan []libunlynx.CipherVector, 1)
	lengths <- shufflingBytesLengthStruct{ShufflingBytesMessageLength: ShufflingBytesMessageLength{CVLengths: l}}
	data <- shufflingBytesStruct{ShufflingBytesMessage: ShufflingBytesMessage{Data: b}}
	return &ShufflingProtocol{TreeNodeInstance: n, nextNodeInCircuit: next, LengthNodeChannel: lengths, PreviousNodeInPathChannel: data, FeedbackChannel: out}, out
}

// The other servers shuffle what comes in and send it on.
//
//verif:property C23
//verif:inputs zInputsShuffle
func Contract_Shuffling_Dispatch(n *onet.TreeNodeInstance, next *onet.TreeNode, in []libunlynx.CipherVector) {
	zzghost.Requires(!n.IsRoot() && len(in) > 0 && libunlynxshuffle.ZWidth(in, len(in[0])))
	var pi []int
	var beta [][]kyber.Scalar
	p, _ := zShufflingAt(n, next, in)
	p.Proofs = true
	p.ProofFunc = func(before, after []libunlynx.CipherVector, key kyber.Point, b [][]kyber.Scalar, perm []int) *libunlynxshuffle.PublishedShufflingProof {
		pi, beta = perm, b
		return nil
	}
	err := p.Dispatch()
	zzghost.Ensures("finishes", err == nil)
	zzghost.Ensures("messages", zzghost.SentCount() == 2 && zzghost.SentTo(0, next) && zzghost.SentTo(1, next))
	out, ok := zDecodeShuffle()
	zzghost.Ensures("decodes", ok)
	zzghost.Ensures("shuffled", zShuffled(in, out, n.Roster().Aggregate, pi, beta))
}

// The root gives what comes back to whom started the protocol.
//
//verif:property C23
//verif:inputs zInputsShuffleRoot
func Contract_Shuffling_DispatchRoot(n *onet.TreeNodeInstance, next *onet.TreeNode, in []libunlynx.CipherVector) {
	zzghost.Requires(n.IsRoot() && len(in) > 0)
	p, out := zShufflingAt(n, next, in)
	err := p.Dispatch()
	zzghost.Ensures("finishes", err == nil && zzghost.SentCount() == 0)
	res := <-out
	zzghost.Ensures("length", len(res) == len(in))
	zzghost.Ensures("same", zzghost.Forall(len(in), func(i int) bool { return libunlynx.ZSameCV(res[i], in[i]) }))
}

// Whatever the key, under which the servers' keys add up, the plaintexts are those that came in, in another order.
//
//verif:property C23
//verif:inputs zInputsShufflePlain
func Contract_Shuffling_Plaintexts(n *onet.TreeNodeInstance, next *onet.TreeNode, in []libunlynx.CipherVector, secret kyber.Scalar) {
	zzghost.Requires(!n.IsRoot() && len(in) > 0 && libunlynxshuffle.ZWidth(in, len(in[0])) && zzghost.SamePoint(n.Roster().Aggregate, libunlynx.ZPub(secret)))
	p, _ := zShufflingAt(n, next, in)
	err := p.Dispatch()
	zzghost.Ensures("finishes", err == nil && zzghost.SentCount() == 2)
	out, ok := zDecodeShuffle()
	zzghost.Ensures("decodes", ok && len(out) == len(in) && libunlynxshuffle.ZWidth(out, len(in[0])))
	zzghost.Ensures("plaintexts", zzghost.SameUpToOrder(zOpened(out, len(in[0]), secret), zOpened(in, len(in[0]), secret)))
}

// The proof made of a server's shuffle is about what it got and what it sends, and is accepted.
//
//verif:property C23
//verif:inputs zInputsShuffleProofs
func Contract_Shuffling_Proofs(n *onet.TreeNodeInstance, next *onet.TreeNode, in []libunlynx.CipherVector) {
	zzghost.Requires(!n.IsRoot() && len(in) > 1 && libunlynxshuffle.ZWidth(in, len(in[0])))
	p, _ := zShufflingAt(n, next, in)
	p.Proofs = true
	calls, good := 0, false
	var proof libunlynxshuffle.PublishedShufflingProof
	p.ProofFunc = func(before, after []libunlynx.CipherVector, key kyber.Point, b [][]kyber.Scalar, perm []int) *libunlynxshuffle.PublishedShufflingProof {
		pr, err := libunlynxshuffle.ShuffleProofCreation(before, after, libunlynx.SuiTe.Point().Base(), key, b, perm)
		calls++
		good = err == nil && libunlynxshuffle.ShuffleProofVerification(pr, n.Roster().Aggregate)
		proof = pr
		return &pr
	}
	err := p.Dispatch()
	zzghost.Ensures("finishes", err == nil && zzghost.SentCount() == 2)
	zzghost.Ensures("proof accepted", calls == 1 && good)
	zzghost.Ensures("about what came in", zzghost.Same(proof.OriginalList, in))
	out, ok := zDecodeShuffle()
	zzghost.Ensures("decodes", ok && len(out) == len(in))
	zzghost.Ensures("about what is sent", zzghost.Forall(len(in), func(i int) bool { return libunlynx.ZSameCV(out[i], proof.ShuffledList[i]) }))
}

func zOpened(list []libunlynx.CipherVector, nq int, secret kyber.Scalar) [][]kyber.Point {
	return zzghost.Build(len(list), func(i int) []kyber.Point {
		return zzghost.Build(nq, func(j int) kyber.Point {
			return zzghost.Minus(list[i][j].C, zzghost.Times(secret, list[i][j].K))
		})
	})
}

// ---------------------------------------------------------------- C23 shuffling and tagging in one round

func zDecodeShuffleDDT() (ShufflingPlusDDTMessage, bool) {
	var d ShufflingPlusDDTMessage
	m := zzghost.Sent(1).(*ShufflingPlusDDTBytesMessage)
	err := d.FromBytes(m.Data, m.ShuffKey, zzghost.Sent(0).(*ShufflingPlusDDTBytesLength).CVLengths)
	return d, err == nil
}

// The root starts with its data and the collective key.
//
//verif:property C23
//verif:inputs zInputsShuffleStart
func Contract_ShufflingPlusDDT_Start(n *onet.TreeNodeInstance, next *onet.TreeNode, in []libunlynx.CipherVector) {
	p := &ShufflingPlusDDTProtocol{TreeNodeInstance: n, nextNodeInCircuit: next, TargetData: &in}
	err := p.Start()
	zzghost.Ensures("starts", err == nil)
	zzghost.Ensures("messages", zzghost.SentCount() == 2 && zzghost.SentTo(0, next) && zzghost.SentTo(1, next))
	d, ok := zDecodeShuffleDDT()
	zzghost.Ensures("decodes", ok && len(d.Data) == len(in))
	zzghost.Ensures("same", zzghost.Forall(len(in), func(i int) bool { return libunlynx.ZSameCV(d.Data[i], in[i]) }))
	zzghost.Ensures("key", zzghost.SamePoint(d.ShuffKey, n.Roster().Aggregate))
}

