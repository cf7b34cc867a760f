//go:build go1.18

package libunlynxdetertag

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/zzghost"
	"go.dedis.ch/kyber/v3"
)

// Inputs used when a failed obligation is replayed against the code; no part of the proofs.

func zCT(n func(int) int) libunlynx.CipherText {
	return libunlynx.CipherText{K: zzghost.AnyPoint(n), C: zzghost.AnyPoint(n)}
}

func zInputsTagSound(n func(int) int) []interface{} {
	k, s, bef := zzghost.AnyScalar(n), zzghost.AnyScalar(n), zCT(n)
	aft := libunlynx.CipherText{K: zzghost.Times(s, bef.K), C: zzghost.Times(s, under(k, bef))}
	as := []interface{}{true, k, s, k, s, bef, aft, bef, aft, bef.K, []byte{}}
	for n(3) != 0 {
		switch n(4) {
		case 0:
			as[1] = zzghost.AnyScalar(n)
		case 1:
			as[2] = zzghost.AnyScalar(n)
		case 2:
			as[7] = zzghost.Vary(n, bef)
		case 3:
			as[8] = zzghost.Vary(n, aft)
		}
	}
	return as
}

func zInputsAdditionSound(n func(int) int) []interface{} {
	s, c1 := zzghost.AnyScalar(n), zzghost.AnyPoint(n)
	c2 := libunlynx.ZPub(s)
	r := zzghost.Plus(c1, c2)
	as := []interface{}{true, s, c1, r, c1, c2, r, []byte{}}
	for n(3) != 0 {
		as[4+n(3)] = zzghost.AnyPoint(n)
	}
	return as
}

func zInputsBound(n func(int) int) []interface{} {
	s, c1 := zzghost.AnyScalar(n), zzghost.AnyPoint(n)
	t := s
	if n(2) == 0 {
		t = zzghost.AnyScalar(n)
	}
	return []interface{}{s, t, c1, zzghost.Plus(c1, libunlynx.ZPub(s))}
}

func zInputsTagList(n func(int) int) []interface{} {
	k, s, bef := zzghost.AnyScalar(n), zzghost.AnyScalar(n), zCT(n)
	aft := libunlynx.CipherText{K: zzghost.Times(s, bef.K), C: zzghost.Times(s, under(k, bef))}
	p, err := DeterministicTagCrProofCreation(bef, aft, libunlynx.ZPub(k), k, s)
	l := PublishedDDTCreationListProof{K: libunlynx.ZPub(k), SB: libunlynx.ZPub(s)}
	for i := zzghost.AnyLength(n); i > 0 && err == nil; i-- {
		l.List = append(l.List, p)
	}
	for len(l.List) > 0 && n(3) == 0 {
		i := n(len(l.List))
		if n(2) == 0 {
			i = len(l.List) - 1
		}
		q := p
		q.CTaft.C = zzghost.AnyPoint(n)
		l.List[i] = q
	}
	return []interface{}{l, zzghost.AnyPercent(n)}
}

func zInputsAdditionList(n func(int) int) []interface{} {
	s, c1 := zzghost.AnyScalar(n), zzghost.AnyPoint(n)
	p, err := DeterministicTagAdditionProofCreation(c1, s, libunlynx.ZPub(s), zzghost.Plus(c1, libunlynx.ZPub(s)))
	l := PublishedDDTAdditionListProof{}
	for i := zzghost.AnyLength(n); i > 0 && err == nil; i-- {
		l.List = append(l.List, p)
	}
	for len(l.List) > 0 && n(3) == 0 {
		i := n(len(l.List))
		if n(2) == 0 {
			i = len(l.List) - 1
		}
		q := p
		q.R = zzghost.AnyPoint(n)
		l.List[i] = q
	}
	return []interface{}{l, zzghost.AnyPercent(n)}
}

func zInputsAdditions(n func(int) int) []interface{} {
	c1, s, c2, r := []kyber.Point{}, []kyber.Scalar{}, []kyber.Point{}, []kyber.Point{}
	for i := zzghost.AnyLength(n); i > 0; i-- {
		a, b := zzghost.AnyPoint(n), zzghost.AnyScalar(n)
		c1, s, c2, r = append(c1, a), append(s, b), append(c2, libunlynx.ZPub(b)), append(r, zzghost.Plus(a, libunlynx.ZPub(b)))
	}
	return []interface{}{c1, s, c2, r, zzghost.AnyPercent(n)}
}
