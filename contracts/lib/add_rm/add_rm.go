//go:build go1.18

package libunlynxaddrm

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/zzghost"
	"go.dedis.ch/kyber/v3"
)

// changed is ct with the server of secret k added or removed.
func changed(ct libunlynx.CipherText, k kyber.Scalar, toAdd bool) kyber.Point {
	if toAdd {
		return zzghost.Plus(ct.C, zzghost.Times(k, ct.K))
	}
	return zzghost.Minus(ct.C, zzghost.Times(k, ct.K))
}

// ---------------------------------------------------------------- C10 completeness

//verif:property C10
func Contract_AddRmProofs_Accepted(bef libunlynx.CipherVector, k kyber.Scalar, toAdd bool, percent float64) {
	zzghost.Requires(zzghost.ValidPercent(percent))
	aft := libunlynx.CipherVector(zzghost.Build(len(bef), func(i int) libunlynx.CipherText {
		return libunlynx.CipherText{K: bef[i].K, C: changed(bef[i], k, toAdd)}
	}))
	proofs, err := AddRmListProofCreation(bef, aft, libunlynx.ZPub(k), k, toAdd)
	zzghost.Ensures("created", err == nil && len(proofs.List) == len(bef) && proofs.ToAdd == toAdd && zzghost.SamePoint(proofs.Krm, libunlynx.ZPub(k)))
	zzghost.Ensures("for each element", zzghost.Forall(len(bef), func(i int) bool {
		return libunlynx.ZSameCT(proofs.List[i].CtBef, bef[i]) && libunlynx.ZSameCT(proofs.List[i].CtAft, aft[i]) && zzghost.SamePoint(proofs.List[i].RB, bef[i].K)
	}))
	zzghost.Ensures("accepted", AddRmListProofVerification(proofs, percent))
}

// ---------------------------------------------------------------- C11 soundness

//verif:property C11
//verif:inputs zInputsSound
func Contract_AddRmProof_Sound(honest bool, k, hk kyber.Scalar, hbef, haft, bef, aft libunlynx.CipherText, rb kyber.Point, toAdd, hToAdd bool, transcript []byte) {
	if honest {
		p, err := AddRmProofCreation(hbef, haft, libunlynx.ZPub(hk), hk, hToAdd)
		zzghost.Requires(err == nil)
		transcript = p.Proof
	}
	ok := AddRmProofVerification(PublishedAddRmProof{Proof: transcript, CtBef: bef, CtAft: aft, RB: rb}, libunlynx.ZPub(k), toAdd)
	zzghost.Ensures("K", zzghost.Implies(ok, zzghost.SamePoint(aft.K, bef.K)))
	zzghost.Ensures("C", zzghost.Implies(ok, zzghost.SamePoint(aft.C, changed(bef, k, toAdd))))
}

// ---------------------------------------------------------------- C12 lists

//verif:property C12
//verif:inputs zInputsList
func Contract_AddRmList(list PublishedAddRmListProof, percent float64) {
	zzghost.Requires(zzghost.ValidPercent(percent))
	zzghost.Ensures("all", AddRmListProofVerification(list, 1) ==
		zzghost.Forall(len(list.List), func(i int) bool { return AddRmProofVerification(list.List[i], list.Krm, list.ToAdd) }))
	zzghost.Ensures("share", AddRmListProofVerification(list, percent) ==
		zzghost.Forall(zzghost.CeilMul(percent, len(list.List)), func(i int) bool { return AddRmProofVerification(list.List[i], list.Krm, list.ToAdd) }))
}
