//go:build go1.18

package libunlynxaggr

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/zzghost"
)

// Inputs used when a failed obligation is replayed against the code; no part of the proofs.

func zData(n func(int) int) (libunlynx.CipherVector, libunlynx.CipherText) {
	cv := make(libunlynx.CipherVector, 1+n(5))
	for i := range cv {
		cv[i] = libunlynx.CipherText{K: zzghost.AnyPoint(n), C: zzghost.AnyPoint(n)}
	}
	return cv, sumOf(cv)
}

func zInputsProof(n func(int) int) []interface{} {
	cv, r := zData(n)
	if n(3) != 0 {
		if n(2) == 0 {
			r = zzghost.Vary(n, r).(libunlynx.CipherText)
		} else {
			cv = zzghost.Vary(n, cv).(libunlynx.CipherVector)
		}
		if len(cv) == 0 {
			cv = append(cv, r)
		}
	}
	return []interface{}{cv, r}
}

func zInputsProofs(n func(int) int) []interface{} {
	data, rs := []libunlynx.CipherVector{}, []libunlynx.CipherText{}
	for i := zzghost.AnyLength(n); i > 0; i-- {
		cv, r := zData(n)
		data, rs = append(data, cv), append(rs, r)
	}
	return []interface{}{data, rs, zzghost.AnyPercent(n)}
}

func zInputsList(n func(int) int) []interface{} {
	cv, r := zData(n)
	l := PublishedAggregationListProof{}
	for i := zzghost.AnyLength(n); i > 0; i-- {
		l.List = append(l.List, PublishedAggregationProof{cv, r})
	}
	for len(l.List) > 0 && n(3) == 0 {
		i := n(len(l.List))
		if n(2) == 0 {
			i = len(l.List) - 1
		}
		l.List[i].AggregationResult = zzghost.Vary(n, r).(libunlynx.CipherText)
	}
	return []interface{}{l, zzghost.AnyPercent(n)}
}
