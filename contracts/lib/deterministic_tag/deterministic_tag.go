//go:build go1.18

package libunlynxdetertag

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/zzghost"
	"go.dedis.ch/kyber/v3"
)

// under is what ct opens to under secret r.
func under(r kyber.Scalar, ct libunlynx.CipherText) kyber.Point {
	return zzghost.Minus(ct.C, zzghost.Times(r, ct.K))
}

// ---------------------------------------------------------------- C07 deterministic tagging

// One server's step: it removes its own key and multiplies by its secret. Whatever the secret r of the servers still
// to come, what the vector opens to under them is s times what it opened to under all of them: by induction over any
// number of servers in any order, the tag is the product of the secrets times the plaintext.
//
//verif:property C07
func Contract_DeterministicTagSequence(cv libunlynx.CipherVector, x, s, r kyber.Scalar) {
	res := DeterministicTagSequence(cv, x, s)
	zzghost.Ensures("length", len(res) == len(cv))
	zzghost.Ensures("K", zzghost.Forall(len(cv), func(i int) bool { return zzghost.SamePoint(res[i].K, zzghost.Times(s, cv[i].K)) }))
	zzghost.Ensures("C", zzghost.Forall(len(cv), func(i int) bool { return zzghost.SamePoint(res[i].C, zzghost.Times(s, under(x, cv[i]))) }))
	zzghost.Ensures("step", zzghost.Forall(len(cv), func(i int) bool {
		return zzghost.SamePoint(under(r, res[i]), zzghost.Times(s, under(zzghost.PlusS(x, r), cv[i])))
	}))
}

//verif:property C07
func Contract_DeterministicTag(ct libunlynx.CipherText, x, s, r kyber.Scalar) {
	res := DeterministicTag(ct, x, s)
	zzghost.Ensures("K", zzghost.SamePoint(res.K, zzghost.Times(s, ct.K)))
	zzghost.Ensures("C", zzghost.SamePoint(res.C, zzghost.Times(s, under(x, ct))))
	zzghost.Ensures("step", zzghost.SamePoint(under(r, res), zzghost.Times(s, under(zzghost.PlusS(x, r), ct))))
}

// A step with a secret other than zero keeps equal plaintexts equal and different ones different, whatever the
// randomness of the ciphertexts.
//
//verif:property C07
func Contract_DeterministicTag_Equality(a, b libunlynx.CipherText, x, s, r kyber.Scalar) {
	zzghost.Requires(!zzghost.SameScalar(s, zzghost.ZeroScalar()))
	ta, tb := DeterministicTag(a, x, s), DeterministicTag(b, x, s)
	key := zzghost.PlusS(x, r)
	zzghost.Ensures("equality", zzghost.SamePoint(under(r, ta), under(r, tb)) == zzghost.SamePoint(under(key, a), under(key, b)))
}

// The grouping key made of a vector is that of the tags of its elements.
//
//verif:property C07,C10
func Contract_CipherVectorToDeterministicTag(cv libunlynx.CipherVector, x, s kyber.Scalar, proofs bool) {
	key, list, err := CipherVectorToDeterministicTag(cv, x, s, libunlynx.ZPub(x), proofs)
	tags := zzghost.Build(len(cv), func(i int) libunlynx.DeterministCipherText {
		return libunlynx.DeterministCipherText{Point: zzghost.Times(s, under(x, cv[i]))}
	})
	dv := libunlynx.DeterministCipherVector(tags)
	zzghost.Ensures("no error", err == nil)
	zzghost.Ensures("key", key == dv.Key())
	zzghost.Ensures("proofs", !proofs || len(list.List) == len(cv) && DeterministicTagCrListProofVerification(*list, 1))
}

// ---------------------------------------------------------------- C10 completeness

//verif:property C10
func Contract_TagProofs_Accepted(cv libunlynx.CipherVector, x, s kyber.Scalar, percent float64) {
	zzghost.Requires(zzghost.ValidPercent(percent))
	after := DeterministicTagSequence(cv, x, s)
	proofs, err := DeterministicTagCrListProofCreation(cv, after, libunlynx.ZPub(x), x, s)
	zzghost.Ensures("created", err == nil && len(proofs.List) == len(cv))
	zzghost.Ensures("accepted", DeterministicTagCrListProofVerification(proofs, percent))
}

//verif:property C10
//verif:inputs zInputsAdditions
func Contract_AdditionProofs_Accepted(c1 []kyber.Point, s []kyber.Scalar, c2, r []kyber.Point, percent float64) {
	n := len(c1)
	zzghost.Requires(zzghost.ValidPercent(percent) && len(s) == n && len(c2) == n && len(r) == n)
	zzghost.Requires(zzghost.Forall(n, func(i int) bool { return zzghost.SamePoint(c2[i], libunlynx.ZPub(s[i])) }))
	zzghost.Requires(zzghost.Forall(n, func(i int) bool { return zzghost.SamePoint(r[i], zzghost.Plus(c1[i], c2[i])) }))
	proofs, err := DeterministicTagAdditionListProofCreation(c1, s, c2, r)
	zzghost.Ensures("created", err == nil && len(proofs.List) == n)
	zzghost.Ensures("for each element", zzghost.Forall(n, func(i int) bool {
		return zzghost.SamePoint(proofs.List[i].C1, c1[i]) && zzghost.SamePoint(proofs.List[i].C2, c2[i]) && zzghost.SamePoint(proofs.List[i].R, r[i])
	}))
	zzghost.Ensures("accepted", DeterministicTagAdditionListProofVerification(proofs, percent))
}

// ---------------------------------------------------------------- C11 soundness

// An accepted tagging proof, however it was made, is about a vector that is the tag of the other.
//
//verif:property C11
//verif:inputs zInputsTagSound
func Contract_TagProof_Sound(honest bool, k, s, hk, hs kyber.Scalar, hbef, haft, bef, aft libunlynx.CipherText, si kyber.Point, transcript []byte) {
	if honest {
		p, err := DeterministicTagCrProofCreation(hbef, haft, libunlynx.ZPub(hk), hk, hs)
		zzghost.Requires(err == nil)
		transcript = p.Proof
		si = p.Ciminus11Si
	}
	prf := PublishedDDTCreationProof{Proof: transcript, Ciminus11Si: si, CTbef: bef, CTaft: aft}
	ok := DeterministicTagCrProofVerification(prf, libunlynx.ZPub(k), libunlynx.ZPub(s))
	zzghost.Ensures("K", zzghost.Implies(ok, zzghost.SamePoint(aft.K, zzghost.Times(s, bef.K))))
	zzghost.Ensures("C", zzghost.Implies(ok, zzghost.SamePoint(aft.C, zzghost.Times(s, under(k, bef)))))
}

// An accepted addition proof is about a sum.
//
//verif:property C11
//verif:inputs zInputsAdditionSound
func Contract_AdditionProof_Sound(honest bool, hs kyber.Scalar, hc1, hr, c1, c2, r kyber.Point, transcript []byte) {
	if honest {
		p, err := DeterministicTagAdditionProofCreation(hc1, hs, libunlynx.ZPub(hs), hr)
		zzghost.Requires(err == nil)
		transcript = p.Proof
	}
	ok := DeterministicTagAdditionProofVerification(PublishedDDTAdditionProof{C1: c1, C2: c2, R: r, Proof: transcript})
	zzghost.Ensures("sum", zzghost.Implies(ok, zzghost.SamePoint(r, zzghost.Plus(c1, c2))))
}

// The honest proof of one addition is not accepted for another point.
//
//verif:property C11
//verif:inputs zInputsBound
func Contract_AdditionProof_Bound(s, t kyber.Scalar, c1, r kyber.Point) {
	p, err := DeterministicTagAdditionProofCreation(c1, s, libunlynx.ZPub(s), r)
	zzghost.Requires(err == nil)
	p.C2 = libunlynx.ZPub(t)
	zzghost.Ensures("bound", zzghost.Implies(DeterministicTagAdditionProofVerification(p), zzghost.SameScalar(s, t)))
}

// ---------------------------------------------------------------- C12 lists

//verif:property C12
//verif:inputs zInputsTagList
func Contract_TagList(list PublishedDDTCreationListProof, percent float64) {
	zzghost.Requires(zzghost.ValidPercent(percent))
	zzghost.Ensures("all", DeterministicTagCrListProofVerification(list, 1) ==
		zzghost.Forall(len(list.List), func(i int) bool { return DeterministicTagCrProofVerification(list.List[i], list.K, list.SB) }))
	zzghost.Ensures("share", DeterministicTagCrListProofVerification(list, percent) ==
		zzghost.Forall(zzghost.CeilMul(percent, len(list.List)), func(i int) bool { return DeterministicTagCrProofVerification(list.List[i], list.K, list.SB) }))
}

//verif:property C12
//verif:inputs zInputsAdditionList
func Contract_AdditionList(list PublishedDDTAdditionListProof, percent float64) {
	zzghost.Requires(zzghost.ValidPercent(percent))
	zzghost.Ensures("all", DeterministicTagAdditionListProofVerification(list, 1) ==
		zzghost.Forall(len(list.List), func(i int) bool { return DeterministicTagAdditionProofVerification(list.List[i]) }))
	zzghost.Ensures("share", DeterministicTagAdditionListProofVerification(list, percent) ==
		zzghost.Forall(zzghost.CeilMul(percent, len(list.List)), func(i int) bool { return DeterministicTagAdditionProofVerification(list.List[i]) }))
}
