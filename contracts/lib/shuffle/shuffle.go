//go:build go1.18

package libunlynxshuffle

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/zzghost"
	"go.dedis.ch/kyber/v3"
)

// ---------------------------------------------------------------- C08 shuffling

// ZWidth: every vector has nq elements.
func ZWidth(in []libunlynx.CipherVector, nq int) bool {
	return zzghost.Forall(len(in), func(i int) bool { return len(in[i]) == nq })
}

// ZPermutation: pi is a permutation of its indices.
func ZPermutation(pi []int) bool {
	return zzghost.Forall(len(pi), func(i int) bool { return 0 <= pi[i] && pi[i] < len(pi) }) &&
		zzghost.Forall(len(pi), func(i int) bool {
			return zzghost.Forall(len(pi), func(j int) bool { return i == j || pi[i] != pi[j] })
		})
}

// The output is the input, permuted and re-randomised with the factors returned.
//
//verif:property C08
func Contract_ShuffleSequence(in []libunlynx.CipherVector, g, h kyber.Point) {
	zzghost.Requires(len(in) > 0 && ZWidth(in, len(in[0])))
	out, pi, beta := ShuffleSequence(in, g, h, nil)
	k, nq := len(in), len(in[0])
	zzghost.Ensures("lengths", len(out) == k && len(pi) == k && len(beta) == k)
	zzghost.Ensures("width", ZWidth(out, nq) && zzghost.Forall(k, func(i int) bool { return len(beta[i]) == nq }))
	zzghost.Ensures("permutation", ZPermutation(pi))
	zzghost.Ensures("re-encryption K", zzghost.Forall(k, func(i int) bool {
		return zzghost.Forall(nq, func(j int) bool {
			return zzghost.SamePoint(out[i][j].K, zzghost.Plus(in[pi[i]][j].K, zzghost.Times(beta[pi[i]][j], g)))
		})
	}))
	zzghost.Ensures("re-encryption C", zzghost.Forall(k, func(i int) bool {
		return zzghost.Forall(nq, func(j int) bool {
			return zzghost.SamePoint(out[i][j].C, zzghost.Plus(in[pi[i]][j].C, zzghost.Times(beta[pi[i]][j], h)))
		})
	}))
	zzghost.Ensures("own randomness in a row", zzghost.Forall(k, func(i int) bool {
		return zzghost.Fresh(nq, func(j int) kyber.Scalar { return beta[i][j] })
	}))
	zzghost.Ensures("own randomness in a column", zzghost.Forall(nq, func(j int) bool {
		return zzghost.Fresh(k, func(i int) kyber.Scalar { return beta[i][j] })
	}))
}

// Each output opens to the plaintext of the input it was made from.
//
//verif:property C08
func Contract_ShuffleSequence_Opens(in []libunlynx.CipherVector, x kyber.Scalar) {
	zzghost.Requires(len(in) > 0 && ZWidth(in, len(in[0])))
	out, pi, _ := ShuffleSequence(in, zzghost.Base(), libunlynx.ZPub(x), nil)
	zzghost.Ensures("plaintexts", zzghost.Forall(len(out), func(i int) bool {
		return zzghost.Forall(len(in[0]), func(j int) bool {
			return zzghost.SamePoint(zzghost.Minus(out[i][j].C, zzghost.Times(x, out[i][j].K)),
				zzghost.Minus(in[pi[i]][j].C, zzghost.Times(x, in[pi[i]][j].K)))
		})
	}))
}

// ZPrecomputed: every row is long enough and holds the multiples of g and h by its scalars.
func ZPrecomputed(pre []CipherVectorScalar, nq int, g, h kyber.Point) bool {
	return zzghost.Forall(len(pre), func(l int) bool {
		return len(pre[l].S) >= nq && len(pre[l].CipherV) == len(pre[l].S) && zzghost.Forall(len(pre[l].S), func(j int) bool {
			return zzghost.SamePoint(pre[l].CipherV[j].K, zzghost.Times(pre[l].S[j], g)) &&
				zzghost.SamePoint(pre[l].CipherV[j].C, zzghost.Times(pre[l].S[j], h))
		})
	})
}

// With precomputed rows the output is permuted and re-randomised with the factors returned as well.
//
//verif:property C08
//verif:inputs zInputsPrecomputed
func Contract_ShuffleSequence_Precomputed(in []libunlynx.CipherVector, g, h kyber.Point, pre []CipherVectorScalar) {
	zzghost.Requires(len(in) > 0 && len(in[0]) > 0 && ZWidth(in, len(in[0])) && len(pre) > 0 && ZPrecomputed(pre, len(in[0]), g, h))
	out, pi, beta := ShuffleSequence(in, g, h, pre)
	k, nq := len(in), len(in[0])
	zzghost.Ensures("lengths", len(out) == k && len(pi) == k && len(beta) == k)
	zzghost.Ensures("width", ZWidth(out, nq) && zzghost.Forall(k, func(i int) bool { return len(beta[i]) == nq }))
	zzghost.Ensures("permutation", ZPermutation(pi))
	zzghost.Ensures("re-encryption K", zzghost.Forall(k, func(i int) bool {
		return zzghost.Forall(nq, func(j int) bool {
			return zzghost.SamePoint(out[i][j].K, zzghost.Plus(in[pi[i]][j].K, zzghost.Times(beta[pi[i]][j], g)))
		})
	}))
	zzghost.Ensures("re-encryption C", zzghost.Forall(k, func(i int) bool {
		return zzghost.Forall(nq, func(j int) bool {
			return zzghost.SamePoint(out[i][j].C, zzghost.Plus(in[pi[i]][j].C, zzghost.Times(beta[pi[i]][j], h)))
		})
	}))
}

// What is precomputed are multiples of g and h by random scalars.
//
//verif:property C08
//verif:inputs zInputsSizes
func Contract_CreatePrecomputedRandomize(g, h kyber.Point, lineSize, nbrLines int) {
	zzghost.Requires(lineSize >= 0 && nbrLines >= 0)
	pre := CreatePrecomputedRandomize(g, h, libunlynx.SuiTe.RandomStream(), lineSize, nbrLines)
	zzghost.Ensures("number", len(pre) == nbrLines)
	zzghost.Ensures("rows", ZPrecomputed(pre, lineSize, g, h))
	zzghost.Ensures("sizes", zzghost.Forall(nbrLines, func(i int) bool { return len(pre[i].S) == lineSize }))
	zzghost.Ensures("own randomness", zzghost.Forall(nbrLines, func(i int) bool {
		return zzghost.Fresh(lineSize, func(j int) kyber.Scalar { return pre[i].S[j] })
	}))
}

// Precomputed values survive being stored.
//
//verif:property C08
func Contract_EncodeCipherVectorScalar(pre []CipherVectorScalar) {
	enc, err := EncodeCipherVectorScalar(pre)
	zzghost.Ensures("encodes", err == nil && len(enc) == len(pre))
	dec, err := DecodeCipherVectorScalar(enc)
	zzghost.Ensures("decodes", err == nil && zzghost.Same(dec, pre))
}

// ---------------------------------------------------------------- proofs of shuffling

// ZCompressed is the sum of the elements of a vector, each times its factor.
func ZCompressed(cv libunlynx.CipherVector, e []kyber.Scalar, c bool) kyber.Point {
	return zzghost.SumPoint(len(e), func(j int) kyber.Point {
		if c {
			return zzghost.Times(e[j], cv[j].C)
		}
		return zzghost.Times(e[j], cv[j].K)
	})
}

// Compression is the sum of the elements times their factors, and refuses vectors of another length.
//
//verif:property C08
func Contract_compressListCipherVector(list []libunlynx.CipherVector, e []kyber.Scalar) {
	xK, xC, err := compressListCipherVector(list, e)
	zzghost.Ensures("error", (err == nil) == ZWidth(list, len(e)))
	zzghost.Ensures("lengths", err != nil || len(xK) == len(list) && len(xC) == len(list))
	zzghost.Ensures("K", err != nil || zzghost.Forall(len(list), func(i int) bool {
		return zzghost.SamePoint(xK[i], ZCompressed(list[i], e, false))
	}))
	zzghost.Ensures("C", err != nil || zzghost.Forall(len(list), func(i int) bool {
		return zzghost.SamePoint(xC[i], ZCompressed(list[i], e, true))
	}))
}

//verif:property C08
func Contract_compressBeta(beta [][]kyber.Scalar, e []kyber.Scalar) {
	zzghost.Requires(len(beta) > 0 && zzghost.Forall(len(beta), func(i int) bool { return len(beta[i]) == len(e) }))
	r := compressBeta(beta, e)
	zzghost.Ensures("length", len(r) == len(beta))
	zzghost.Ensures("sums", zzghost.Forall(len(beta), func(i int) bool {
		return zzghost.SameScalar(r[i], zzghost.SumScalar(len(e), func(j int) kyber.Scalar { return zzghost.TimesS(beta[i][j], e[j]) }))
	}))
}

// A proof made for an honest shuffle is created without error and accepted.
//
//verif:property C08
//verif:inputs zInputsAccepted
func Contract_ShuffleProof_Accepted(in []libunlynx.CipherVector, h kyber.Point) {
	zzghost.Requires(len(in) > 1 && ZWidth(in, len(in[0])))
	out, pi, beta := ShuffleSequence(in, libunlynx.SuiTe.Point().Base(), h, nil)
	p, err := ShuffleProofCreation(in, out, libunlynx.SuiTe.Point().Base(), h, beta, pi)
	zzghost.Ensures("created", err == nil)
	zzghost.Ensures("statement", zzghost.Same(p.OriginalList, in) && zzghost.Same(p.ShuffledList, out))
	zzghost.Ensures("accepted", ShuffleProofVerification(p, h))
}

// Whatever is accepted - not only what the code makes - consists of two lists of the same shape whose compressions are
// related by a permutation and a re-randomisation under the published generators.
//
//verif:property C08
//verif:inputs zInputsSound
func Contract_ShuffleProof_Sound(p PublishedShufflingProof, seed kyber.Point) {
	if !ShuffleProofVerification(p, seed) {
		return
	}
	n := len(p.OriginalList)
	zzghost.Ensures("lengths", n >= 2 && len(p.ShuffledList) == n)
	zzghost.Ensures("width", ZWidth(p.OriginalList, len(p.OriginalList[0])) && ZWidth(p.ShuffledList, len(p.OriginalList[0])))
	e, err := CipherVectorComputeE(seed, p.OriginalList[0])
	zzghost.Ensures("factors", err == nil && len(e) == len(p.OriginalList[0]))
	x, y, errX := compressListCipherVector(p.OriginalList, e)
	xbar, ybar, errY := compressListCipherVector(p.ShuffledList, e)
	zzghost.Ensures("compressed", errX == nil && errY == nil)
	pi, beta := zzghost.ShuffleWitness("PairShuffle", p.HashProof, p.G, p.H, x, y, xbar, ybar)
	zzghost.Ensures("permutation", len(pi) == n && ZPermutation(pi))
	zzghost.Ensures("related K", zzghost.Forall(n, func(i int) bool {
		return zzghost.SamePoint(xbar[i], zzghost.Plus(x[pi[i]], zzghost.Times(beta[pi[i]], p.G)))
	}))
	zzghost.Ensures("related C", zzghost.Forall(n, func(i int) bool {
		return zzghost.SamePoint(ybar[i], zzghost.Plus(y[pi[i]], zzghost.Times(beta[pi[i]], p.H)))
	}))
}

// Each factor is determined by the seed and its own element of the vector.
//
//verif:property C08
func Contract_CipherVectorComputeE(h kyber.Point, cv libunlynx.CipherVector) {
	e, err := CipherVectorComputeE(h, cv)
	zzghost.Ensures("no error", err == nil && len(e) == len(cv))
	seed, _ := h.MarshalBinary()
	zzghost.Ensures("factors", zzghost.Forall(len(cv), func(i int) bool {
		x, err := computeE(i, cv, seed)
		return err == nil && zzghost.SameScalar(e[i], x)
	}))
	e2, _ := CipherVectorComputeE(h, cv)
	zzghost.Ensures("deterministic", zzghost.Forall(len(cv), func(i int) bool { return zzghost.SameScalar(e[i], e2[i]) }))
}

// Verifying a proof is a function of the proof and the seed, and changes neither.
//
//verif:property C08
//verif:inputs zInputsSound
func Contract_ShuffleProofVerification(p PublishedShufflingProof, seed kyber.Point) {
	zzghost.Ensures("function", ShuffleProofVerification(p, seed) == ShuffleProofVerification(p, seed))
}

// ZSpecVerification is ShuffleProofVerification as proved by its contract.
func ZSpecVerification(psp PublishedShufflingProof, seed kyber.Point) bool {
	return zzghost.Unknown("shuffle verification", psp, seed)
}

// Verifying a list verifies the requested share of it.
//
//verif:property C08
//verif:callee ShuffleProofVerification ZSpecVerification by Contract_ShuffleProofVerification
//verif:inputs zInputsList
func Contract_ShuffleList(list PublishedShufflingListProof, seed kyber.Point, percent float64) {
	zzghost.Requires(zzghost.ValidPercent(percent))
	ok := ShuffleListProofVerification(list, seed, percent)
	m := zzghost.CeilMul(percent, len(list.List))
	zzghost.Ensures("share", ok == zzghost.Forall(m, func(i int) bool { return ShuffleProofVerification(list.List[i], seed) }))
}

// ZShape: the arguments of a proof belong to lists of at least two vectors of the same width.
func ZShape(originalList, shuffledList []libunlynx.CipherVector, beta [][]kyber.Scalar, pi []int) bool {
	n := len(originalList)
	return n > 1 && len(shuffledList) == n && len(beta) == n && len(pi) == n &&
		zzghost.Forall(n, func(i int) bool { return 0 <= pi[i] && pi[i] < n && len(beta[i]) == len(originalList[0]) })
}

// Creating a proof succeeds exactly for vectors of one width; the proof holds the statement it was made for and the
// transcript is a function of the arguments and the prover's own randomness.
//
//verif:property C08
//verif:inputs zInputsCreation
func Contract_ShuffleProofCreation(originalList, shuffledList []libunlynx.CipherVector, g, h kyber.Point, beta [][]kyber.Scalar, pi []int) {
	zzghost.Requires(ZShape(originalList, shuffledList, beta, pi))
	p, err := ShuffleProofCreation(originalList, shuffledList, g, h, beta, pi)
	ok := ZWidth(originalList, len(originalList[0])) && ZWidth(shuffledList, len(originalList[0]))
	zzghost.Ensures("error", (err == nil) == ok)
	if err != nil {
		return
	}
	zzghost.Ensures("statement", zzghost.Same(p.OriginalList, originalList) && zzghost.Same(p.ShuffledList, shuffledList) &&
		zzghost.SamePoint(p.G, g) && zzghost.SamePoint(p.H, h))
}

// ZSpecCreation is ShuffleProofCreation as proved by its contract.
func ZSpecCreation(originalList, shuffledList []libunlynx.CipherVector, g, h kyber.Point, beta [][]kyber.Scalar, pi []int) (PublishedShufflingProof, error) {
	zzghost.Ensures("precondition of ShuffleProofCreation", ZShape(originalList, shuffledList, beta, pi))
	zzghost.Ensures("no error", ZWidth(originalList, len(originalList[0])) && ZWidth(shuffledList, len(originalList[0])))
	return PublishedShufflingProof{originalList, shuffledList, g, h,
		zzghost.UnknownBytes("shuffle proof", originalList, shuffledList, g, h, beta, pi)}, nil
}

// Proofs made for a list of shuffles are each made from their own shuffle.
//
//verif:property C08
//verif:callee ShuffleProofCreation ZSpecCreation by Contract_ShuffleProofCreation
//verif:inputs zInputsListCreation
func Contract_ShuffleListProofCreation(in, out [][]libunlynx.CipherVector, gs, hs []kyber.Point, beta [][][]kyber.Scalar, pi [][]int) {
	n := len(in)
	zzghost.Requires(len(out) == n && len(gs) == n && len(hs) == n && len(beta) == n && len(pi) == n)
	zzghost.Requires(zzghost.Forall(n, func(l int) bool { return ZShape(in[l], out[l], beta[l], pi[l]) }))
	zzghost.Requires(zzghost.Forall(n, func(l int) bool { return ZWidth(in[l], len(in[l][0])) && ZWidth(out[l], len(in[l][0])) }))
	list, err := ShuffleListProofCreation(in, out, gs, hs, beta, pi)
	zzghost.Ensures("no error", err == nil)
	zzghost.Ensures("number", len(list.List) == n)
	zzghost.Ensures("statements", zzghost.Forall(n, func(l int) bool {
		p := list.List[l]
		return zzghost.SamePoint(p.G, gs[l]) && zzghost.SamePoint(p.H, hs[l]) && zzghost.Same(p.OriginalList, in[l]) && zzghost.Same(p.ShuffledList, out[l])
	}))
	zzghost.Ensures("transcripts", zzghost.Forall(n, func(l int) bool {
		p, _ := ShuffleProofCreation(in[l], out[l], gs[l], hs[l], beta[l], pi[l])
		return zzghost.SameTranscript(p.HashProof, list.List[l].HashProof, func() bool {
			return ShuffleProofVerification(p, hs[l]) == ShuffleProofVerification(list.List[l], hs[l])
		})
	}))
}

//verif:property C08
func Contract_ShufflingProof_Bytes(p PublishedShufflingProof) {
	b, err := p.ToBytes()
	zzghost.Ensures("encodes", err == nil)
	var q PublishedShufflingProof
	err = q.FromBytes(b)
	zzghost.Ensures("decodes", err == nil)
	zzghost.Ensures("same", zzghost.Same(p, q))
}
