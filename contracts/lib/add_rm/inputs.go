//go:build go1.18

package libunlynxaddrm

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/zzghost"
	"go.dedis.ch/kyber/v3"
)

// Inputs used when a failed obligation is replayed against the code; no part of the proofs.

func zCT(n func(int) int) libunlynx.CipherText {
	return libunlynx.CipherText{K: zzghost.AnyPoint(n), C: zzghost.AnyPoint(n)}
}

func zHonest(n func(int) int) (k kyber.Scalar, bef, aft libunlynx.CipherText, toAdd bool) {
	k, bef, toAdd = zzghost.AnyScalar(n), zCT(n), n(2) == 0
	aft = libunlynx.CipherText{K: bef.K, C: changed(bef, k, toAdd)}
	return
}

func zInputsSound(n func(int) int) []interface{} {
	k, bef, aft, toAdd := zHonest(n)
	as := []interface{}{true, k, k, bef, aft, bef, aft, bef.K, toAdd, toAdd, []byte{}}
	for n(3) != 0 {
		switch n(6) {
		case 0:
			as[1] = zzghost.AnyScalar(n)
		case 1:
			as[5] = zzghost.Vary(n, bef)
		case 2:
			as[6] = zzghost.Vary(n, aft)
		case 3:
			as[8] = !toAdd
		case 4:
			as[7] = zzghost.AnyPoint(n)
		case 5:
			k2, p := zzghost.AnyScalar(n), zzghost.AnyPoint(n)
			// both components of the result moved together
			as[6] = libunlynx.CipherText{K: zzghost.Plus(aft.K, p), C: zzghost.Plus(aft.C, zzghost.Times(k2, p))}
		}
	}
	return as
}

func zInputsList(n func(int) int) []interface{} {
	k, bef, aft, toAdd := zHonest(n)
	p, err := AddRmProofCreation(bef, aft, libunlynx.ZPub(k), k, toAdd)
	l := PublishedAddRmListProof{Krm: libunlynx.ZPub(k), ToAdd: toAdd}
	for i := zzghost.AnyLength(n); i > 0 && err == nil; i-- {
		l.List = append(l.List, p)
	}
	for len(l.List) > 0 && n(3) == 0 {
		i := n(len(l.List))
		if n(2) == 0 {
			i = len(l.List) - 1
		}
		q := p
		q.CtAft.C = zzghost.AnyPoint(n)
		l.List[i] = q
	}
	return []interface{}{l, zzghost.AnyPercent(n)}
}
