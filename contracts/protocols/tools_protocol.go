//go:build go1.18

package protocolsunlynx

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/zzghost"
)

// ---------------------------------------------------------------- C19 adapters between protocols

// Simple data is what a map holds under the empty key, if that is its only key.
//
//verif:property C19
func Contract_RetrieveSimpleDataFromMap(m map[libunlynx.GroupingKey]libunlynx.FilteredResponse) {
	r, err := RetrieveSimpleDataFromMap(m)
	zzghost.Ensures("error", (err == nil) == (len(m) == 1 && zzghost.HasKey(m, libunlynx.GroupingKey(EMPTYKEY))))
	zzghost.Ensures("data", err != nil || zzghost.Same(libunlynx.CipherVector(r), m[EMPTYKEY].AggregatingAttributes))
}

// Tags computed for the elements of a list of responses get back to the element they were computed for.
//
//verif:property C19
func Contract_ProcessResponsesTagged(p []libunlynx.ProcessResponse) {
	cv := ProcessResponseToCipherVector(p)
	det := libunlynx.DeterministCipherVector(zzghost.Build(len(cv), func(k int) libunlynx.DeterministCipherText {
		return libunlynx.DeterministCipherText{Point: cv[k].C}
	}))
	r := DeterCipherVectorToProcessResponseDet(det, p)
	zzghost.Ensures("number", len(r) == len(p))
	zzghost.Ensures("response", zzghost.Forall(len(p), func(i int) bool { return zzghost.Same(r[i].PR, p[i]) }))
	zzghost.Ensures("where lengths", zzghost.Forall(len(p), func(i int) bool { return len(r[i].DetTagWhere) == len(p[i].WhereEnc) }))
	zzghost.Ensures("where", zzghost.Forall(len(p), func(i int) bool {
		return zzghost.Forall(len(p[i].WhereEnc), func(j int) bool {
			c := libunlynx.DeterministCipherText{Point: p[i].WhereEnc[j].C}
			return r[i].DetTagWhere[j] == libunlynx.GroupingKey(c.String())
		})
	}))
	zzghost.Ensures("group", zzghost.Forall(len(p), func(i int) bool {
		g := libunlynx.DeterministCipherVector(zzghost.Build(len(p[i].GroupByEnc), func(j int) libunlynx.DeterministCipherText {
			return libunlynx.DeterministCipherText{Point: p[i].GroupByEnc[j].C}
		}))
		return r[i].DetTagGroupBy == g.Key()
	}))
}

//verif:property C19
func Contract_FilteredResponses(fr []libunlynx.FilteredResponse) {
	cv, lengths := FilteredResponseToCipherVector(fr)
	r := CipherVectorToFilteredResponse(cv, lengths)
	zzghost.Ensures("same", zzghost.Same(r, fr))
}

// A list of responses survives the form in which it is shuffled; a single response gets a companion that adds nothing.
//
//verif:property C19
func Contract_ProcessResponses_Matrix(pr []libunlynx.ProcessResponse) {
	cv, lengths := ProcessResponseToMatrixCipherText(pr)
	r := MatrixCipherTextToProcessResponse(cv, lengths)
	n := len(pr)
	zzghost.Ensures("number", n == 1 && len(r) == 2 || n != 1 && len(r) == n)
	zzghost.Ensures("same", zzghost.Forall(n, func(i int) bool { return zzghost.Same(r[i], pr[i]) }))
	zzghost.Ensures("companion length", n != 1 || len(r[1].AggregatingAttributes) == len(pr[0].AggregatingAttributes))
	zzghost.Ensures("companion", n != 1 || len(r[1].AggregatingAttributes) == len(pr[0].AggregatingAttributes) &&
		zzghost.Same(r[1].GroupByEnc, pr[0].GroupByEnc) && zzghost.Same(r[1].WhereEnc, pr[0].WhereEnc))
	zzghost.Ensures("adds nothing", n != 1 || zzghost.Forall(len(pr[0].AggregatingAttributes), func(j int) bool {
		return zzghost.SamePoint(r[1].AggregatingAttributes[j].K, zzghost.ZeroPoint()) && zzghost.SamePoint(r[1].AggregatingAttributes[j].C, zzghost.ZeroPoint())
	}))
	zzghost.Ensures("width", zzghost.Forall(len(cv), func(i int) bool {
		j := i
		if n == 1 {
			j = 0
		}
		return len(cv[i]) == len(pr[j].GroupByEnc)+len(pr[j].WhereEnc)+len(pr[j].AggregatingAttributes)
	}))
}

//verif:property C19
func Contract_AdaptCipherTextArray(cts []libunlynx.CipherText) {
	r := AdaptCipherTextArray(cts)
	zzghost.Ensures("number", len(r) == len(cts))
	zzghost.Ensures("each alone", zzghost.Forall(len(cts), func(i int) bool { return len(r[i]) == 1 && libunlynx.ZSameCT(r[i][0], cts[i]) }))
}
