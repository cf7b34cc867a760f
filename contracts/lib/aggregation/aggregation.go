//go:build go1.18

package libunlynxaggr

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/zzghost"
	"go.dedis.ch/kyber/v3"
)

func sumOf(cv libunlynx.CipherVector) libunlynx.CipherText {
	return libunlynx.CipherText{
		K: zzghost.SumPoint(len(cv), func(i int) kyber.Point { return cv[i].K }),
		C: zzghost.SumPoint(len(cv), func(i int) kyber.Point { return cv[i].C }),
	}
}

// ---------------------------------------------------------------- C10, C11

// An aggregation proof is accepted exactly when the result is the sum of the data.
//
//verif:property C10,C11
//verif:inputs zInputsProof
func Contract_AggregationProof(data libunlynx.CipherVector, result libunlynx.CipherText) {
	zzghost.Requires(len(data) > 0)
	p := AggregationProofCreation(data, result)
	zzghost.Ensures("statement", libunlynx.ZSameCV(p.Data, data) && libunlynx.ZSameCT(p.AggregationResult, result))
	zzghost.Ensures("exact", AggregationProofVerification(p) == libunlynx.ZSameCT(result, sumOf(data)))
}

//verif:property C10
//verif:inputs zInputsProofs
func Contract_AggregationProofs(data []libunlynx.CipherVector, results []libunlynx.CipherText, percent float64) {
	zzghost.Requires(zzghost.ValidPercent(percent) && len(results) == len(data))
	zzghost.Requires(zzghost.Forall(len(data), func(i int) bool { return len(data[i]) > 0 && libunlynx.ZSameCT(results[i], sumOf(data[i])) }))
	list := AggregationListProofCreation(data, results)
	zzghost.Ensures("length", len(list.List) == len(data))
	zzghost.Ensures("for each element", zzghost.Forall(len(data), func(i int) bool {
		return libunlynx.ZSameCV(list.List[i].Data, data[i]) && libunlynx.ZSameCT(list.List[i].AggregationResult, results[i])
	}))
	zzghost.Ensures("accepted", AggregationListProofVerification(list, percent))
}

// ---------------------------------------------------------------- C12 lists

//verif:property C12
//verif:inputs zInputsList
func Contract_AggregationList(list PublishedAggregationListProof, percent float64) {
	zzghost.Requires(zzghost.ValidPercent(percent))
	zzghost.Requires(zzghost.Forall(len(list.List), func(i int) bool { return len(list.List[i].Data) > 0 }))
	zzghost.Ensures("all", AggregationListProofVerification(list, 1) ==
		zzghost.Forall(len(list.List), func(i int) bool { return AggregationProofVerification(list.List[i]) }))
	zzghost.Ensures("share", AggregationListProofVerification(list, percent) ==
		zzghost.Forall(zzghost.CeilMul(percent, len(list.List)), func(i int) bool { return AggregationProofVerification(list.List[i]) }))
}

// ---------------------------------------------------------------- C13 serialization

func sameAgg(a, b PublishedAggregationProof) bool {
	return libunlynx.ZSameCV(a.Data, b.Data) && libunlynx.ZSameCT(a.AggregationResult, b.AggregationResult)
}

//verif:property C13
func Contract_AggregationProof_Bytes(p PublishedAggregationProof) {
	b, err := p.ToBytes()
	zzghost.Ensures("encodes", err == nil)
	var q PublishedAggregationProof
	err = q.FromBytes(b)
	zzghost.Ensures("decodes", err == nil && sameAgg(p, q))
}

//verif:property C13
func Contract_AggregationListProof_Bytes(p PublishedAggregationListProof) {
	b, err := p.ToBytes()
	zzghost.Ensures("encodes", err == nil && len(b.List) == len(p.List))
	var q PublishedAggregationListProof
	err = q.FromBytes(b)
	zzghost.Ensures("decodes", err == nil && len(q.List) == len(p.List))
	zzghost.Ensures("same", zzghost.Forall(len(p.List), func(i int) bool { return sameAgg(p.List[i], q.List[i]) }))
}
