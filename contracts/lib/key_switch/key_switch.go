//go:build go1.18

package libunlynxkeyswitch

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/zzghost"
	"go.dedis.ch/kyber/v3"
)

// ---------------------------------------------------------------- C06 key switching

// One server's contribution: K = v.B, C = v.Q - x.rB, with the values the proofs need.
//
//verif:property C06
func Contract_KeySwitchSequence(target kyber.Point, rBs []kyber.Point, x kyber.Scalar) {
	cv, ks2s, rBNegs, vis := KeySwitchSequence(target, rBs, x)
	n := len(rBs)
	zzghost.Ensures("lengths", len(cv) == n && len(ks2s) == n && len(rBNegs) == n && len(vis) == n)
	zzghost.Ensures("K", zzghost.Forall(n, func(i int) bool { return zzghost.SamePoint(cv[i].K, libunlynx.ZPub(vis[i])) }))
	zzghost.Ensures("own randomness", zzghost.Fresh(n, func(i int) kyber.Scalar { return vis[i] }))
	zzghost.Ensures("C", zzghost.Forall(n, func(i int) bool {
		return zzghost.SamePoint(cv[i].C, zzghost.Minus(zzghost.Times(vis[i], target), zzghost.Times(x, rBs[i])))
	}))
	zzghost.Ensures("ks2", zzghost.Forall(n, func(i int) bool { return zzghost.SamePoint(cv[i].C, ks2s[i]) }))
	zzghost.Ensures("rBNeg", zzghost.Forall(n, func(i int) bool {
		return zzghost.SamePoint(rBNegs[i], zzghost.Minus(zzghost.ZeroPoint(), rBs[i]))
	}))
}

// One ciphertext.
//
//verif:property C06
func Contract_KeySwitch(target kyber.Point, rB kyber.Point, x kyber.Scalar) {
	ct, rBNeg, vi := KeySwitch(target, rB, x)
	zzghost.Ensures("K", zzghost.SamePoint(ct.K, libunlynx.ZPub(vi)))
	zzghost.Ensures("own randomness", zzghost.Fresh(1, func(i int) kyber.Scalar { return vi }))
	zzghost.Ensures("C", zzghost.SamePoint(ct.C, zzghost.Minus(zzghost.Times(vi, target), zzghost.Times(x, rB))))
	zzghost.Ensures("rBNeg", zzghost.SamePoint(rBNeg, zzghost.Minus(zzghost.ZeroPoint(), rB)))
}

// The contributions of any number of servers, added up and added to the ciphertexts, turn encryptions under the
// servers' collective key into encryptions of the same plaintexts under the target key.
//
//verif:property C06
func Contract_KeySwitch_Collective(xs []kyber.Scalar, y kyber.Scalar, cv libunlynx.CipherVector) {
	collective := zzghost.SumScalar(len(xs), func(s int) kyber.Scalar { return xs[s] })
	rBs := zzghost.Build(len(cv), func(i int) kyber.Point { return cv[i].K })
	acc := *libunlynx.NewCipherVector(len(cv))
	for s := range xs {
		part, _, _, _ := KeySwitchSequence(libunlynx.ZPub(y), rBs, xs[s])
		acc.Add(acc, part)
	}
	zzghost.Ensures("opens", zzghost.Forall(len(cv), func(i int) bool {
		plain := zzghost.Minus(cv[i].C, zzghost.Times(collective, cv[i].K))
		return libunlynx.ZOpens(y, libunlynx.CipherText{K: acc[i].K, C: zzghost.Plus(acc[i].C, cv[i].C)}, plain)
	}))
}

// ---------------------------------------------------------------- C10 completeness

// Proofs made from what the key switching returns are accepted, whatever share of them is checked.
//
//verif:property C10
func Contract_KeySwitchProofs_Accepted(y, x kyber.Scalar, rBs []kyber.Point, percent float64) {
	zzghost.Requires(zzghost.ValidPercent(percent))
	target := libunlynx.ZPub(y)
	_, ks2s, rBNegs, vis := KeySwitchSequence(target, rBs, x)
	proofs, err := KeySwitchListProofCreation(libunlynx.ZPub(x), target, x, ks2s, rBNegs, vis)
	zzghost.Ensures("created", err == nil && len(proofs.List) == len(rBs))
	zzghost.Ensures("accepted", KeySwitchListProofVerification(proofs, percent))
}

// ---------------------------------------------------------------- C11 soundness

// An accepted key switching proof, however it was made, is about a true statement.
//
//verif:property C11
//verif:inputs zInputsSound
func Contract_KeySwitchProof_Sound(honest bool, k, v, hk, hv kyber.Scalar, hks2, hrBNeg, hQ, ks2, rBNeg, Q kyber.Point, transcript []byte) {
	if honest {
		p, err := KeySwitchProofCreation(libunlynx.ZPub(hk), hQ, hk, libunlynx.ZPub(hv), hks2, hrBNeg, hv)
		zzghost.Requires(err == nil)
		transcript = p.Proof
	}
	ok := KeySwitchProofVerification(PublishedKSProof{Proof: transcript, K: libunlynx.ZPub(k), ViB: libunlynx.ZPub(v), Ks2: ks2, RbNeg: rBNeg, Q: Q})
	zzghost.Ensures("sound", zzghost.Implies(ok, zzghost.SamePoint(ks2, zzghost.Plus(zzghost.Times(k, rBNeg), zzghost.Times(v, Q)))))
}

// ---------------------------------------------------------------- C12 lists

// With everything to be checked, a list is accepted exactly when each of its proofs is.
//
//verif:property C12
//verif:inputs zInputsWholeList
func Contract_KeySwitchList(list PublishedKSListProof) {
	ok := KeySwitchListProofVerification(list, 1)
	zzghost.Ensures("all", ok == zzghost.Forall(len(list.List), func(i int) bool { return KeySwitchProofVerification(list.List[i]) }))
}

// With a share to be checked, the first ones up to that share are.
//
//verif:property C12
//verif:inputs zInputsList
func Contract_KeySwitchList_Percent(list PublishedKSListProof, percent float64) {
	zzghost.Requires(zzghost.ValidPercent(percent))
	ok := KeySwitchListProofVerification(list, percent)
	zzghost.Ensures("share", ok == zzghost.Forall(zzghost.CeilMul(percent, len(list.List)), func(i int) bool { return KeySwitchProofVerification(list.List[i]) }))
}

// ---------------------------------------------------------------- C13 serialization

func sameKSProof(a, b PublishedKSProof) bool {
	return zzghost.Same(a.Proof, b.Proof) && zzghost.SamePoint(a.K, b.K) && zzghost.SamePoint(a.ViB, b.ViB) && zzghost.SamePoint(a.Ks2, b.Ks2) &&
		zzghost.SamePoint(a.RbNeg, b.RbNeg) && zzghost.SamePoint(a.Q, b.Q)
}

//verif:property C13
func Contract_KSProof_Bytes(p PublishedKSProof) {
	b, err := p.ToBytes()
	zzghost.Ensures("encodes", err == nil)
	var q PublishedKSProof
	err = q.FromBytes(b)
	zzghost.Ensures("decodes", err == nil && sameKSProof(p, q))
}

//verif:property C13
func Contract_KSListProof_Bytes(p PublishedKSListProof) {
	b, err := p.ToBytes()
	zzghost.Ensures("encodes", err == nil && len(b.List) == len(p.List))
	var q PublishedKSListProof
	err = q.FromBytes(b)
	zzghost.Ensures("decodes", err == nil && len(q.List) == len(p.List))
	zzghost.Ensures("same", zzghost.Forall(len(p.List), func(i int) bool { return sameKSProof(p.List[i], q.List[i]) }))
}
