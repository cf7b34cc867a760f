//go:build go1.18

package libunlynxkeyswitch

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/zzghost"
	"go.dedis.ch/kyber/v3"
)

// Inputs used when a failed obligation is replayed against the code; no part of the proofs.

func zHonest(n func(int) int) (k, v kyber.Scalar, ks2, rBNeg, Q kyber.Point) {
	k, v, rBNeg, Q = zzghost.AnyScalar(n), zzghost.AnyScalar(n), zzghost.AnyPoint(n), zzghost.AnyPoint(n)
	ks2 = zzghost.Plus(zzghost.Times(k, rBNeg), zzghost.Times(v, Q))
	return
}

func zInputsSound(n func(int) int) []interface{} {
	hk, hv, hks2, hr, hQ := zHonest(n)
	as := []interface{}{true, hk, hv, hk, hv, hks2, hr, hQ, hks2, hr, hQ, []byte{}}
	for n(3) != 0 {
		i := []int{1, 2, 8, 9, 10}[n(5)]
		if i < 3 {
			as[i] = zzghost.AnyScalar(n)
		} else {
			as[i] = zzghost.AnyPoint(n)
		}
	}
	return as
}

func zInputsList(n func(int) int) []interface{} {
	k, v, ks2, r, Q := zHonest(n)
	p, err := KeySwitchProofCreation(libunlynx.ZPub(k), Q, k, libunlynx.ZPub(v), ks2, r, v)
	l := PublishedKSListProof{}
	for i := zzghost.AnyLength(n); i > 0 && err == nil; i-- {
		l.List = append(l.List, p)
	}
	for len(l.List) > 0 && n(3) == 0 {
		i := n(len(l.List))
		if n(2) == 0 {
			i = len(l.List) - 1
		}
		q := p
		q.Ks2 = zzghost.AnyPoint(n)
		l.List[i] = q
	}
	return []interface{}{l, zzghost.AnyPercent(n)}
}

func zInputsWholeList(n func(int) int) []interface{} { return zInputsList(n)[:1] }
