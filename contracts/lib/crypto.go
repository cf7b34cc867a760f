//go:build go1.18

package libunlynx

import (
	"github.com/fanliao/go-concurrentMap"
	"github.com/ldsec/unlynx/lib/zzghost"
	"go.dedis.ch/kyber/v3"
)

// ZOpens is the ElGamal relation: ct is an encryption of m under the key pair of secret x.
func ZOpens(x kyber.Scalar, ct CipherText, m kyber.Point) bool {
	return zzghost.SamePoint(zzghost.Minus(ct.C, zzghost.Times(x, ct.K)), m)
}

func ZIntPoint(i int64) kyber.Point {
	return zzghost.Times(zzghost.IntScalar(i), zzghost.Base())
}

func ZPub(x kyber.Scalar) kyber.Point { return zzghost.Times(x, zzghost.Base()) }

// ---------------------------------------------------------------- C01 encryption

// Every position of an encrypted integer vector opens to that integer.
//
//verif:property C01
func Contract_EncryptIntVector(x kyber.Scalar, ints []int64) {
	cv := *EncryptIntVector(ZPub(x), ints)
	zzghost.Ensures("length", len(cv) == len(ints))
	zzghost.Ensures("own randomness", zzghost.FreshPoint(len(ints), func(i int) kyber.Point { return cv[i].K }))
	zzghost.Ensures("opens", zzghost.Forall(len(ints), func(i int) bool { return ZOpens(x, cv[i], ZIntPoint(ints[i])) }))
}

// As EncryptIntVector; the returned randomness is the one used at each position.
//
//verif:property C01
func Contract_EncryptIntVectorGetRs(x kyber.Scalar, ints []int64) {
	p, rs := EncryptIntVectorGetRs(ZPub(x), ints)
	cv := *p
	zzghost.Ensures("length", len(cv) == len(ints) && len(rs) == len(ints))
	zzghost.Ensures("own randomness", zzghost.FreshPoint(len(ints), func(i int) kyber.Point { return cv[i].K }))
	zzghost.Ensures("opens", zzghost.Forall(len(ints), func(i int) bool { return ZOpens(x, cv[i], ZIntPoint(ints[i])) }))
	zzghost.Ensures("randomness", zzghost.Forall(len(ints), func(i int) bool { return zzghost.SamePoint(cv[i].K, ZPub(rs[i])) }))
}

// Every position of an encrypted scalar vector opens to that scalar times the generator.
//
//verif:property C01
func Contract_EncryptScalarVector(x kyber.Scalar, ss []kyber.Scalar) {
	cv := *EncryptScalarVector(ZPub(x), ss)
	zzghost.Ensures("length", len(cv) == len(ss))
	zzghost.Ensures("own randomness", zzghost.FreshPoint(len(ss), func(i int) kyber.Point { return cv[i].K }))
	zzghost.Ensures("opens", zzghost.Forall(len(ss), func(i int) bool { return ZOpens(x, cv[i], ZPub(ss[i])) }))
}

// Single encryptions open to what was encrypted, and the returned randomness is the one used.
//
//verif:property C01
func Contract_EncryptInt(x kyber.Scalar, i int64, s kyber.Scalar) {
	zzghost.Ensures("int", ZOpens(x, *EncryptInt(ZPub(x), i), ZIntPoint(i)))
	zzghost.Ensures("scalar", ZOpens(x, *EncryptScalar(ZPub(x), s), ZPub(s)))
	ct, r := EncryptIntGetR(ZPub(x), i)
	zzghost.Ensures("int with randomness", ZOpens(x, *ct, ZIntPoint(i)))
	zzghost.Ensures("randomness", zzghost.SamePoint(ct.K, ZPub(r)))
	a, b := EncryptScalar(ZPub(x), s), EncryptInt(ZPub(x), i)
	three := []kyber.Point{ct.K, a.K, b.K}
	zzghost.Ensures("own randomness", zzghost.FreshPoint(3, func(i int) kyber.Point { return three[i] }))
}

// A null vector opens to zero everywhere.
//
//verif:property C01
func Contract_NullCipherVector(x kyber.Scalar, n int) {
	zzghost.Requires(n >= 0)
	cv := *NullCipherVector(n, ZPub(x))
	zzghost.Ensures("length", len(cv) == n)
	zzghost.Ensures("own randomness", zzghost.FreshPoint(n, func(i int) kyber.Point { return cv[i].K }))
	zzghost.Ensures("zero", zzghost.Forall(n, func(i int) bool { return ZOpens(x, cv[i], zzghost.ZeroPoint()) }))
}

// Clear values embedded in ciphertexts open to themselves under every key.
//
//verif:property C01
func Contract_Embedding(x kyber.Scalar, i int64, p kyber.Point, ints []int64) {
	zzghost.Ensures("point", ZOpens(x, PointToCipherText(p), p))
	zzghost.Ensures("int", ZOpens(x, IntToCipherText(i), ZIntPoint(i)))
	zzghost.Ensures("intpoint", zzghost.SamePoint(IntToPoint(i), ZIntPoint(i)))
	cv := IntArrayToCipherVector(ints)
	zzghost.Ensures("length", len(cv) == len(ints))
	zzghost.Ensures("vector", zzghost.Forall(len(ints), func(j int) bool { return ZOpens(x, cv[j], ZIntPoint(ints[j])) }))
}

// Fresh ciphertexts and vectors hold neutral elements.
//
//verif:property C01
func Contract_Constructors(n int) {
	zzghost.Requires(n >= 0)
	zero := zzghost.ZeroPoint()
	ct := NewCipherText()
	zzghost.Ensures("ciphertext", zzghost.SamePoint(ct.K, zero) && zzghost.SamePoint(ct.C, zero))
	cv := *NewCipherVector(n)
	zzghost.Ensures("vector length", len(cv) == n)
	zzghost.Ensures("vector", zzghost.Forall(n, func(i int) bool { return zzghost.SamePoint(cv[i].K, zero) && zzghost.SamePoint(cv[i].C, zero) }))
	zzghost.Ensures("det", zzghost.SamePoint(NewDeterministicCipherText().Point, zero))
	dv := *NewDeterministicCipherVector(n)
	zzghost.Ensures("det vector length", len(dv) == n)
	zzghost.Ensures("det vector", zzghost.Forall(n, func(i int) bool { return zzghost.SamePoint(dv[i].Point, zero) }))
}

// Generated key pairs match and the group key is the sum of the public keys.
//
//verif:property C01
func Contract_GenKeys(n int) {
	zzghost.Requires(n >= 0)
	s, p := GenKey()
	zzghost.Ensures("pair", zzghost.SamePoint(p, ZPub(s)))
	group, priv, pub := GenKeys(n)
	zzghost.Ensures("lengths", len(priv) == n && len(pub) == n)
	zzghost.Ensures("own randomness", zzghost.Fresh(n, func(i int) kyber.Scalar { return priv[i] }))
	zzghost.Ensures("pairs", zzghost.Forall(n, func(i int) bool { return zzghost.SamePoint(pub[i], ZPub(priv[i])) }))
	zzghost.Ensures("group", zzghost.SamePoint(group, zzghost.SumPoint(n, func(i int) kyber.Point { return pub[i] })))
}

// The zero test answers 0 exactly for encryptions of zero.
//
//verif:property C01
func Contract_DecryptCheckZero(x kyber.Scalar, ct CipherText, cv CipherVector) {
	zzghost.Ensures("zero iff", (DecryptCheckZero(x, ct) == 0) == ZOpens(x, ct, zzghost.ZeroPoint()))
	zzghost.Ensures("bit", DecryptCheckZero(x, ct) == 0 || DecryptCheckZero(x, ct) == 1)
	r := DecryptCheckZeroVector(x, &cv)
	zzghost.Ensures("length", len(r) == len(cv))
	zzghost.Ensures("vector", zzghost.Forall(len(cv), func(i int) bool {
		return (r[i] == 0 || r[i] == 1) && (r[i] == 0) == ZOpens(x, cv[i], zzghost.ZeroPoint())
	}))
}

// ---------------------------------------------------------------- C02 homomorphic operations

//verif:property C02
func Contract_CipherText_Add(ct *CipherText, a, b CipherText) {
	zzghost.Modifies(ct)
	ct.Add(a, b)
	zzghost.Ensures("K", zzghost.SamePoint(ct.K, zzghost.Plus(a.K, b.K)))
	zzghost.Ensures("C", zzghost.SamePoint(ct.C, zzghost.Plus(a.C, b.C)))
}

// Adding into an operand gives the same sum (accumulation).
//
//verif:property C02
func Contract_CipherText_AddSelf(ct *CipherText, b CipherText) {
	zzghost.Modifies(ct)
	old := *ct
	ct.Add(*ct, b)
	zzghost.Ensures("sum", zzghost.SamePoint(ct.K, zzghost.Plus(old.K, b.K)) && zzghost.SamePoint(ct.C, zzghost.Plus(old.C, b.C)))
	ct.Sub(*ct, b)
	zzghost.Ensures("difference", zzghost.SamePoint(ct.K, old.K) && zzghost.SamePoint(ct.C, old.C))
}

//verif:property C02
func Contract_CipherText_Sub(ct *CipherText, a, b CipherText) {
	zzghost.Modifies(ct)
	ct.Sub(a, b)
	zzghost.Ensures("K", zzghost.SamePoint(ct.K, zzghost.Minus(a.K, b.K)))
	zzghost.Ensures("C", zzghost.SamePoint(ct.C, zzghost.Minus(a.C, b.C)))
}

//verif:property C02
func Contract_CipherText_Mul(ct *CipherText, a CipherText, s kyber.Scalar) {
	zzghost.Modifies(ct)
	ct.MulCipherTextbyScalar(a, s)
	zzghost.Ensures("K", zzghost.SamePoint(ct.K, zzghost.Times(s, a.K)))
	zzghost.Ensures("C", zzghost.SamePoint(ct.C, zzghost.Times(s, a.C)))
}

//verif:property C02
func Contract_CipherVector_Add(cv *CipherVector, a, b CipherVector) {
	zzghost.Requires(len(*cv) == len(a) && len(a) == len(b))
	zzghost.Modifies(cv)
	cv.Add(a, b)
	zzghost.Ensures("len", len(*cv) == len(a))
	zzghost.Ensures("pointwise", zzghost.Forall(len(a), func(i int) bool {
		return zzghost.SamePoint((*cv)[i].K, zzghost.Plus(a[i].K, b[i].K)) && zzghost.SamePoint((*cv)[i].C, zzghost.Plus(a[i].C, b[i].C))
	}))
}

// Accumulating a vector into itself.
//
//verif:property C02
func Contract_CipherVector_AddSelf(cv *CipherVector, b CipherVector) {
	zzghost.Requires(len(*cv) == len(b))
	zzghost.Modifies(cv)
	old := zzghost.Old(*cv)
	cv.Add(*cv, b)
	zzghost.Ensures("len", len(*cv) == len(b))
	zzghost.Ensures("pointwise", zzghost.Forall(len(b), func(i int) bool {
		return zzghost.SamePoint((*cv)[i].K, zzghost.Plus(old[i].K, b[i].K)) && zzghost.SamePoint((*cv)[i].C, zzghost.Plus(old[i].C, b[i].C))
	}))
}

//verif:property C02
func Contract_CipherVector_Sub(cv *CipherVector, a, b CipherVector) {
	zzghost.Requires(len(*cv) == len(a) && len(a) == len(b))
	zzghost.Modifies(cv)
	cv.Sub(a, b)
	zzghost.Ensures("len", len(*cv) == len(a))
	zzghost.Ensures("pointwise", zzghost.Forall(len(a), func(i int) bool {
		return zzghost.SamePoint((*cv)[i].K, zzghost.Minus(a[i].K, b[i].K)) && zzghost.SamePoint((*cv)[i].C, zzghost.Minus(a[i].C, b[i].C))
	}))
}

//verif:property C02
func Contract_CipherVector_Acum(cv *CipherVector) {
	zzghost.Requires(len(*cv) > 0)
	r := cv.Acum()
	zzghost.Ensures("K", zzghost.SamePoint(r.K, zzghost.SumPoint(len(*cv), func(i int) kyber.Point { return (*cv)[i].K })))
	zzghost.Ensures("C", zzghost.SamePoint(r.C, zzghost.SumPoint(len(*cv), func(i int) kyber.Point { return (*cv)[i].C })))
}

// Equality tests hold exactly when both components agree everywhere.
//
//verif:property C02
func Contract_Equal(a, b CipherText, va, vb CipherVector, da, db DeterministCipherText, dva, dvb DeterministCipherVector) {
	zzghost.Ensures("ciphertext", a.Equal(&b) == (zzghost.SamePoint(a.K, b.K) && zzghost.SamePoint(a.C, b.C)))
	zzghost.Ensures("vector", va.Equal(&vb) == (len(va) == len(vb) && zzghost.Forall(len(va), func(i int) bool {
		return i >= len(vb) || zzghost.SamePoint(va[i].K, vb[i].K) && zzghost.SamePoint(va[i].C, vb[i].C)
	})))
	zzghost.Ensures("det", da.Equal(&db) == zzghost.SamePoint(da.Point, db.Point))
	zzghost.Ensures("det vector", dva.Equal(&dvb) == (len(dva) == len(dvb) && zzghost.Forall(len(dva), func(i int) bool {
		return i >= len(dvb) || zzghost.SamePoint(dva[i].Point, dvb[i].Point)
	})))
}

// ---------------------------------------------------------------- C04 secret sharing

// The shares of a split scalar add up to it, there are n+1 of them, and the split scalar keeps its value.
//
//verif:property C04
func Contract_SplitScalar(root kyber.Scalar, n int) {
	zzghost.Requires(n >= 0)
	old := zzghost.Old(root)
	r := SplitScalar(root, n)
	zzghost.Ensures("count", len(r) == n+1)
	zzghost.Ensures("random", zzghost.Fresh(n, func(i int) kyber.Scalar { return r[i] }))
	zzghost.Ensures("sum", zzghost.SameScalar(zzghost.SumScalar(len(r), func(i int) kyber.Scalar { return r[i] }), old))
	zzghost.Ensures("root unchanged", zzghost.SameScalar(root, old))
}

// ---------------------------------------------------------------- C09 permutations

//verif:property C09
func Contract_RandomPermutation(k int) {
	zzghost.Requires(k >= 0)
	pi := RandomPermutation(k)
	zzghost.Ensures("length", len(pi) == k)
	zzghost.Ensures("range", zzghost.Forall(k, func(i int) bool { return 0 <= pi[i] && pi[i] < k }))
	zzghost.Ensures("injective", zzghost.Forall(k, func(i int) bool {
		return zzghost.Forall(k, func(j int) bool { return zzghost.Implies(i != j, pi[i] != pi[j]) })
	}))
}

//verif:property C09
func Contract_RandomScalarSlice(k int) {
	zzghost.Requires(k >= 0)
	r := RandomScalarSlice(k)
	zzghost.Ensures("length", len(r) == k)
	zzghost.Ensures("random", zzghost.Fresh(k, func(i int) kyber.Scalar { return r[i] }))
}

// ---------------------------------------------------------------- C13 serialization

func ZSameCT(a, b CipherText) bool {
	return zzghost.SamePoint(a.K, b.K) && zzghost.SamePoint(a.C, b.C)
}

func ZSameCV(a, b CipherVector) bool {
	return len(a) == len(b) && zzghost.Forall(len(a), func(i int) bool { return i >= len(b) || ZSameCT(a[i], b[i]) })
}

//verif:property C13
func Contract_CipherText_Bytes(ct CipherText) {
	b, err := ct.ToBytes()
	zzghost.Ensures("encodes", err == nil && len(b) == CipherTextByteSize())
	var d CipherText
	err = d.FromBytes(b)
	zzghost.Ensures("decodes", err == nil && ZSameCT(d, ct))
}

//verif:property C13
func Contract_CipherVector_Bytes(cv CipherVector) {
	b, n, err := cv.ToBytes()
	zzghost.Ensures("encodes", err == nil && n == len(cv) && len(b) == len(cv)*CipherTextByteSize())
	var d CipherVector
	err = d.FromBytes(b, n)
	zzghost.Ensures("decodes", err == nil && ZSameCV(d, cv))
}

// Two ciphertexts (or vectors) with the same bytes are the same.
//
//verif:property C13
func Contract_CipherText_Serialize(ct CipherText) {
	s, err := ct.Serialize()
	zzghost.Ensures("encodes", err == nil)
	d, err := NewCipherTextFromBase64(s)
	zzghost.Ensures("decodes", err == nil && ZSameCT(*d, ct))
	var e CipherText
	err = e.Deserialize(s)
	zzghost.Ensures("decodes in place", err == nil && ZSameCT(e, ct))
}

//verif:property C13
func Contract_SerializePoint(p kyber.Point, x kyber.Scalar) {
	s, err := SerializePoint(p)
	zzghost.Ensures("encodes", err == nil)
	q, err := DeserializePoint(s)
	zzghost.Ensures("decodes", err == nil && zzghost.SamePoint(p, q))
	s, err = SerializeScalar(x)
	zzghost.Ensures("encodes scalar", err == nil)
	y, err := DeserializeScalar(s)
	zzghost.Ensures("decodes scalar", err == nil && zzghost.SameScalar(x, y))
}

//verif:property C13
func Contract_AbstractPoints(ps []kyber.Point) {
	b, err := AbstractPointsToBytes(ps)
	zzghost.Ensures("encodes", err == nil)
	qs, err := FromBytesToAbstractPoints(b)
	zzghost.Ensures("decodes", err == nil && len(qs) == len(ps))
	zzghost.Ensures("same", zzghost.Forall(len(ps), func(i int) bool { return zzghost.SamePoint(ps[i], qs[i]) }))
}

//verif:property C13
func Contract_ArrayCipherVector(data []CipherVector) {
	b, l, err := ArrayCipherVectorToBytes(data)
	zzghost.Ensures("encodes", err == nil)
	d, err := FromBytesToArrayCipherVector(b, l)
	zzghost.Ensures("decodes", err == nil && len(d) == len(data))
	zzghost.Ensures("same", zzghost.Forall(len(data), func(i int) bool { return ZSameCV(d[i], data[i]) }))
}

// Decoding reports an error exactly where a component does not decode.
//
//verif:property C13
func Contract_CipherText_FromBytes_Error(data []byte) {
	zzghost.Requires(len(data) == CipherTextByteSize())
	var d CipherText
	err := d.FromBytes(data)
	k := SuiTe.Point()
	c := SuiTe.Point()
	n := SuiTe.PointLen()
	e1 := k.UnmarshalBinary(data[:n])
	e2 := c.UnmarshalBinary(data[n:])
	zzghost.Ensures("error", (err == nil) == (e1 == nil && e2 == nil))
	zzghost.Ensures("value", err != nil || zzghost.SamePoint(d.K, k) && zzghost.SamePoint(d.C, c))
}

// Grouping keys determine the deterministic vector of a given length, and only it.
//
//verif:property C16
func Contract_Key(a, b DeterministCipherVector) {
	zzghost.Requires(len(a) == len(b))
	same := zzghost.Forall(len(a), func(i int) bool { return i >= len(b) || zzghost.SamePoint(a[i].Point, b[i].Point) })
	zzghost.Ensures("key", (a.Key() == b.Key()) == same)
}

// ---------------------------------------------------------------- C03 decryption

// ZTable puts the decryption table in the state it has after any decryptions: the values from -g to g, nothing when
// nothing was decrypted yet.
func ZTable(g int64, fresh bool) {
	t := concurrent.NewConcurrentMap()
	if !fresh {
		for i := int64(0); i <= g; i++ {
			t.Put(IntToPoint(i).String(), i)
			t.Put(IntToPoint(-i).String(), -i)
		}
	}
	PointToInt = t
	currentGreatestInt = g
	currentGreatestM = IntToPoint(g)
}

// ZCipher opens to v under x.
func ZCipher(x kyber.Scalar, k kyber.Point, v int64) CipherText {
	return CipherText{K: k, C: zzghost.Plus(zzghost.Times(x, k), ZIntPoint(v))}
}

// ZTableOK: the table holds w exactly if it is within the values already searched, and the search continues after them.
func ZTableOK(w int64) bool {
	got, err := PointToInt.Get(IntToPoint(w).String())
	in := w <= currentGreatestInt && -w <= currentGreatestInt
	return err == nil && currentGreatestInt < MaxHomomorphicInt && zzghost.SamePoint(currentGreatestM, IntToPoint(currentGreatestInt)) &&
		(got != nil) == in && (!in || got.(int64) == w)
}

// A value within the bound decrypts to itself whatever was decrypted before, and the table stays as it should be.
//
//verif:property C03
func Contract_DecryptInt(x kyber.Scalar, k kyber.Point, v, g, w int64, fresh bool) {
	zzghost.Requires(0 <= g && g < MaxHomomorphicInt && (!fresh || g == 0))
	zzghost.Modifies(&PointToInt, &currentGreatestInt, &currentGreatestM)
	ZTable(g, fresh)
	got := DecryptInt(x, ZCipher(x, k, v))
	zzghost.Ensures("value", v < 0 || v >= MaxHomomorphicInt || got == v)
	zzghost.Ensures("table", ZTableOK(w))
}

//verif:property C03
func Contract_DecryptIntWithNeg(x kyber.Scalar, k kyber.Point, v, g, w int64, fresh bool) {
	zzghost.Requires(0 <= g && g < MaxHomomorphicInt && (!fresh || g == 0))
	zzghost.Modifies(&PointToInt, &currentGreatestInt, &currentGreatestM)
	ZTable(g, fresh)
	got := DecryptIntWithNeg(x, ZCipher(x, k, v))
	zzghost.Ensures("value", v <= -MaxHomomorphicInt || v >= MaxHomomorphicInt || got == v)
	zzghost.Ensures("table", ZTableOK(w))
}

// ZSpecDecryptInt is DecryptInt as proved by its contract, for a table reached by decryptions.
func ZSpecDecryptInt(prikey kyber.Scalar, cipher CipherText) int64 {
	v := zzghost.Log(zzghost.Minus(cipher.C, zzghost.Times(prikey, cipher.K)))
	if 0 <= v && v < MaxHomomorphicInt {
		return v
	}
	return zzghost.Some(v)
}

// ZSpecDecryptIntWithNeg is DecryptIntWithNeg as proved by its contract, for a table reached by decryptions.
func ZSpecDecryptIntWithNeg(prikey kyber.Scalar, cipher CipherText) int64 {
	v := zzghost.Log(zzghost.Minus(cipher.C, zzghost.Times(prikey, cipher.K)))
	if -MaxHomomorphicInt < v && v < MaxHomomorphicInt {
		return v
	}
	return zzghost.Some(v)
}

// Vectors decrypt position by position.
//
//verif:property C03
//verif:callee DecryptInt ZSpecDecryptInt by Contract_DecryptInt
//verif:state PointToInt currentGreatestInt currentGreatestM
func Contract_DecryptIntVector(x kyber.Scalar, ks []kyber.Point, vs []int64) {
	zzghost.Requires(len(ks) == len(vs))
	zzghost.Modifies(&PointToInt, &currentGreatestInt, &currentGreatestM)
	cv := CipherVector(zzghost.Build(len(vs), func(i int) CipherText { return ZCipher(x, ks[i], vs[i]) }))
	got := DecryptIntVector(x, &cv)
	zzghost.Ensures("number", len(got) == len(vs))
	zzghost.Ensures("values", zzghost.Forall(len(vs), func(i int) bool {
		return vs[i] < 0 || vs[i] >= MaxHomomorphicInt || got[i] == vs[i]
	}))
}

// Vectors of values that may be negative decrypt position by position.
//
//verif:property C03
//verif:callee DecryptIntWithNeg ZSpecDecryptIntWithNeg by Contract_DecryptIntWithNeg
//verif:state PointToInt currentGreatestInt currentGreatestM
func Contract_DecryptIntVectorWithNeg(x kyber.Scalar, ks []kyber.Point, vs []int64) {
	zzghost.Requires(len(ks) == len(vs))
	zzghost.Modifies(&PointToInt, &currentGreatestInt, &currentGreatestM)
	cv := CipherVector(zzghost.Build(len(vs), func(i int) CipherText { return ZCipher(x, ks[i], vs[i]) }))
	got := DecryptIntVectorWithNeg(x, &cv)
	zzghost.Ensures("number", len(got) == len(vs))
	zzghost.Ensures("values", zzghost.Forall(len(vs), func(i int) bool {
		return vs[i] <= -MaxHomomorphicInt || vs[i] >= MaxHomomorphicInt || got[i] == vs[i]
	}))
}

// The decryption table can be filled ahead up to a limit, and stays as it should be.
//
//verif:property C03
func Contract_CreateDecryptionTable(x kyber.Scalar, limit, g, w int64, fresh bool) {
	zzghost.Requires(0 <= g && g < MaxHomomorphicInt && (!fresh || g == 0) && 0 <= limit && limit < MaxHomomorphicInt)
	zzghost.Modifies(&PointToInt, &currentGreatestInt, &currentGreatestM)
	ZTable(g, fresh)
	CreateDecryptionTable(limit, ZPub(x), x)
	zzghost.Ensures("limit", currentGreatestInt >= limit && currentGreatestInt >= g)
	zzghost.Ensures("table", ZTableOK(w))
}
