//go:build go1.18

package libunlynxshuffle

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/zzghost"
	"go.dedis.ch/kyber/v3"
)

// Inputs used when a failed obligation is replayed against the code; no part of the proofs.

func zLists(n func(int) int, k int) ([]libunlynx.CipherVector, kyber.Point) {
	w := 1 + n(4)
	in := make([]libunlynx.CipherVector, k)
	for i := range in {
		in[i] = make(libunlynx.CipherVector, w)
		for j := range in[i] {
			in[i][j] = libunlynx.CipherText{K: zzghost.AnyPoint(n), C: zzghost.AnyPoint(n)}
		}
	}
	return in, zzghost.AnyPoint(n)
}

func zInputsPrecomputed(n func(int) int) []interface{} {
	in, h := zLists(n, 1+n(4))
	g := zzghost.AnyPoint(n)
	return []interface{}{in, g, h, CreatePrecomputedRandomize(g, h, libunlynx.SuiTe.RandomStream(), len(in[0])+n(3), 1+n(3))}
}

func zHonest(n func(int) int) ([]libunlynx.CipherVector, []libunlynx.CipherVector, kyber.Point, kyber.Point, [][]kyber.Scalar, []int) {
	in, h := zLists(n, 2+n(4))
	g := libunlynx.SuiTe.Point().Base()
	out, pi, beta := ShuffleSequence(in, g, h, nil)
	return in, out, g, h, beta, pi
}

func zInputsAccepted(n func(int) int) []interface{} {
	in, h := zLists(n, 2+n(5))
	return []interface{}{in, h}
}

func zInputsCreation(n func(int) int) []interface{} {
	in, out, g, h, beta, pi := zHonest(n)
	if n(3) == 0 {
		in = zzghost.Vary(n, in).([]libunlynx.CipherVector)
	}
	if n(3) == 0 {
		out = zzghost.Vary(n, out).([]libunlynx.CipherVector)
	}
	return []interface{}{in, out, g, h, beta, pi}
}

func zProof(n func(int) int) (PublishedShufflingProof, kyber.Point) {
	in, out, g, h, beta, pi := zHonest(n)
	p, err := ShuffleProofCreation(in, out, g, h, beta, pi)
	if err != nil {
		return PublishedShufflingProof{G: g, H: h}, h
	}
	return p, h
}

func zInputsSound(n func(int) int) []interface{} {
	p, h := zProof(n)
	for n(3) != 0 {
		p = zzghost.Vary(n, p).(PublishedShufflingProof)
	}
	if n(4) == 0 {
		h = zzghost.AnyPoint(n)
	}
	return []interface{}{p, h}
}

func zInputsList(n func(int) int) []interface{} {
	p, h := zProof(func(k int) int {
		if k <= 4 {
			return 0 // short vectors
		}
		return n(k)
	})
	l := PublishedShufflingListProof{}
	for i := zzghost.AnyLength(n); i > 0; i-- {
		l.List = append(l.List, p)
	}
	for len(l.List) > 0 && n(3) == 0 {
		i := n(len(l.List))
		if n(2) == 0 {
			i = len(l.List) - 1
		}
		q := p
		q.HashProof = append([]byte{1}, p.HashProof...)
		l.List[i] = q
	}
	return []interface{}{l, h, zzghost.AnyPercent(n)}
}

func zInputsListCreation(n func(int) int) []interface{} {
	var ins, outs [][]libunlynx.CipherVector
	var gs, hs []kyber.Point
	var betas [][][]kyber.Scalar
	var pis [][]int
	m := zzghost.AnyLength(n)
	var in, out []libunlynx.CipherVector
	var g, h kyber.Point
	var beta [][]kyber.Scalar
	var pi []int
	for i := 0; i < m; i++ {
		if i < 3 || n(20) == 0 {
			in, out, g, h, beta, pi = zHonest(n)
		}
		ins, outs, gs, hs, betas, pis = append(ins, in), append(outs, out), append(gs, g), append(hs, h), append(betas, beta), append(pis, pi)
	}
	return []interface{}{ins, outs, gs, hs, betas, pis}
}

func zInputsSizes(n func(int) int) []interface{} {
	return []interface{}{zzghost.AnyPoint(n), zzghost.AnyPoint(n), n(130), n(6)}
}
