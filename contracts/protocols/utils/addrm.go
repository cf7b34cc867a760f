//go:build go1.18

package protocolsunlynxutils

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/add_rm"
	"github.com/ldsec/unlynx/lib/zzghost"
	"go.dedis.ch/kyber/v3"
)

// ---------------------------------------------------------------- C20 adding and removing a server's key

// Encryptions under secret x become encryptions of the same values under x+k (adding) or x-k (removing).
//
//verif:property C20
func Contract_changeEncryption(cts []libunlynx.CipherText, k, x kyber.Scalar, toAdd bool) {
	res := changeEncryption(cts, k, toAdd)
	key := zzghost.MinusS(x, k)
	if toAdd {
		key = zzghost.PlusS(x, k)
	}
	zzghost.Ensures("length", len(res) == len(cts))
	zzghost.Ensures("opens", zzghost.Forall(len(cts), func(i int) bool {
		return libunlynx.ZOpens(key, res[i], zzghost.Minus(cts[i].C, zzghost.Times(x, cts[i].K)))
	}))
	zzghost.Ensures("randomness kept", zzghost.Forall(len(cts), func(i int) bool { return zzghost.SamePoint(res[i].K, cts[i].K) }))
}

// Adding a server and removing it again gives back the very same ciphertexts.
//
//verif:property C20
func Contract_changeEncryption_Inverse(cts []libunlynx.CipherText, k kyber.Scalar, toAdd bool) {
	res := changeEncryption(changeEncryption(cts, k, toAdd), k, !toAdd)
	zzghost.Ensures("same", len(res) == len(cts) && zzghost.Forall(len(cts), func(i int) bool { return libunlynx.ZSameCT(res[i], cts[i]) }))
}

// What the protocol computes passes its own proofs.
//
//verif:property C10,C20
func Contract_changeEncryption_Proofs(cts []libunlynx.CipherText, k kyber.Scalar, toAdd bool) {
	res := changeEncryption(cts, k, toAdd)
	proofs, err := libunlynxaddrm.AddRmListProofCreation(cts, res, libunlynx.ZPub(k), k, toAdd)
	zzghost.Ensures("accepted", err == nil && libunlynxaddrm.AddRmListProofVerification(proofs, 1))
}
