//go:build go1.18

package libunlynx

import (
	"strings"

	"github.com/ldsec/unlynx/lib/zzghost"
	"go.dedis.ch/kyber/v3"
)

// ---------------------------------------------------------------- C14 responses

//verif:property C14
func Contract_FilteredResponse_Bytes(fr FilteredResponse) {
	b, ng, na, err := fr.ToBytes()
	zzghost.Ensures("encodes", err == nil && ng == len(fr.GroupByEnc) && na == len(fr.AggregatingAttributes))
	zzghost.Ensures("size", len(b) == (ng+na)*CipherTextByteSize())
	var d FilteredResponse
	err = d.FromBytes(b, na, ng)
	zzghost.Ensures("decodes", err == nil && ZSameCV(d.GroupByEnc, fr.GroupByEnc) && ZSameCV(d.AggregatingAttributes, fr.AggregatingAttributes))
}

//verif:property C14
func Contract_FilteredResponseDet_Bytes(fr FilteredResponseDet) {
	b, ng, na, nt, err := fr.ToBytes()
	zzghost.Ensures("encodes", err == nil && ng == len(fr.Fr.GroupByEnc) && na == len(fr.Fr.AggregatingAttributes) && nt == len(fr.DetTagGroupBy))
	zzghost.Ensures("size", len(b) == (ng+na)*CipherTextByteSize()+nt)
	var d FilteredResponseDet
	err = d.FromBytes(b, ng, na, nt)
	zzghost.Ensures("decodes", err == nil && ZSameCV(d.Fr.GroupByEnc, fr.Fr.GroupByEnc) && ZSameCV(d.Fr.AggregatingAttributes, fr.Fr.AggregatingAttributes))
	zzghost.Ensures("tag", d.DetTagGroupBy == fr.DetTagGroupBy)
}

//verif:property C14
func Contract_ProcessResponse_Bytes(pr ProcessResponse) {
	b, ng, na, nw, err := pr.ToBytes()
	zzghost.Ensures("encodes", err == nil && ng == len(pr.GroupByEnc) && na == len(pr.AggregatingAttributes) && nw == len(pr.WhereEnc))
	zzghost.Ensures("size", len(b) == (ng+na+nw)*CipherTextByteSize())
	var d ProcessResponse
	err = d.FromBytes(b, ng, na, nw)
	zzghost.Ensures("decodes", err == nil)
	zzghost.Ensures("where", ZSameCV(d.WhereEnc, pr.WhereEnc))
	zzghost.Ensures("group", ZSameCV(d.GroupByEnc, pr.GroupByEnc))
	zzghost.Ensures("aggregate", ZSameCV(d.AggregatingAttributes, pr.AggregatingAttributes))
}

// The bytes are copied to a slice without spare capacity, as they are when they come from the network.
//
//verif:property C14
func Contract_ProcessResponseDet_Bytes(pr ProcessResponseDet) {
	zzghost.Requires(zzghost.Forall(len(pr.DetTagWhere), func(i int) bool {
		return !strings.Contains(string(pr.DetTagWhere[i]), SEPARATOR[:1]) && len(pr.DetTagWhere[i]) > 0
	}))
	b0, ng, na, nw, ntg, ntw, err := pr.ToBytes()
	zzghost.Ensures("encodes", err == nil && ng == len(pr.PR.GroupByEnc) && na == len(pr.PR.AggregatingAttributes) && nw == len(pr.PR.WhereEnc))
	zzghost.Ensures("size", ntg == len(pr.DetTagGroupBy) && len(b0) == (ng+na+nw)*CipherTextByteSize()+ntg+ntw)
	b := make([]byte, len(b0))
	copy(b, b0)
	var d ProcessResponseDet
	err = d.FromBytes(b, ng, na, nw, ntg, ntw)
	zzghost.Ensures("decodes", err == nil)
	zzghost.Ensures("where", ZSameCV(d.PR.WhereEnc, pr.PR.WhereEnc))
	zzghost.Ensures("group", ZSameCV(d.PR.GroupByEnc, pr.PR.GroupByEnc))
	zzghost.Ensures("aggregate", ZSameCV(d.PR.AggregatingAttributes, pr.PR.AggregatingAttributes))
	zzghost.Ensures("group tag", d.DetTagGroupBy == pr.DetTagGroupBy)
	zzghost.Ensures("where tags", len(d.DetTagWhere) == len(pr.DetTagWhere))
	zzghost.Ensures("where tag", zzghost.Forall(len(pr.DetTagWhere), func(i int) bool { return d.DetTagWhere[i] == pr.DetTagWhere[i] }))
}

// What a data provider encrypts and sends opens at the servers to what it had in clear.
//
//verif:property C14
func Contract_DpResponse(x kyber.Scalar, cr DpClearResponse, count bool) {
	dp, err := EncryptDpClearResponse(cr, ZPub(x), count)
	zzghost.Ensures("encrypts", err == nil)
	var d DpResponse
	err = d.FromDpResponseToSend(dp)
	zzghost.Ensures("decodes", err == nil)
	zzghost.Ensures("clear where", ZSameMap(d.WhereClear, cr.WhereClear))
	zzghost.Ensures("clear group", ZSameMap(d.GroupByClear, cr.GroupByClear))
	zzghost.Ensures("clear aggregate", ZSameMap(d.AggregatingAttributesClear, cr.AggregatingAttributesClear))
	zzghost.Ensures("where", ZOpensMap(x, d.WhereEnc, cr.WhereEnc))
	zzghost.Ensures("group", ZOpensMap(x, d.GroupByEnc, cr.GroupByEnc))
	zzghost.Ensures("no more where", zzghost.ForallKeys(d.WhereEnc, func(k string) bool { return zzghost.HasKey(cr.WhereEnc, k) }))
	zzghost.Ensures("no more group", zzghost.ForallKeys(d.GroupByEnc, func(k string) bool { return zzghost.HasKey(cr.GroupByEnc, k) }))
	zzghost.Ensures("aggregate", zzghost.ForallKeys(cr.AggregatingAttributesEnc, func(k string) bool {
		return zzghost.HasKey(d.AggregatingAttributesEnc, k) && (count && k == "count" || ZOpens(x, d.AggregatingAttributesEnc[k], ZIntPoint(cr.AggregatingAttributesEnc[k])))
	}))
	zzghost.Ensures("count", !count || zzghost.HasKey(d.AggregatingAttributesEnc, "count") && ZOpens(x, d.AggregatingAttributesEnc["count"], ZIntPoint(1)))
	zzghost.Ensures("no more", zzghost.ForallKeys(d.AggregatingAttributesEnc, func(k string) bool {
		return count && k == "count" || zzghost.HasKey(cr.AggregatingAttributesEnc, k)
	}))
}

func ZSameMap(a, b map[string]int64) bool {
	return len(a) == len(b) && zzghost.ForallKeys(b, func(k string) bool { return zzghost.HasKey(a, k) && a[k] == b[k] })
}

// ZOpensMap: every key of m is in e and e opens to the value of m there.
func ZOpensMap(x kyber.Scalar, e map[string]CipherText, m map[string]int64) bool {
	return zzghost.ForallKeys(m, func(k string) bool {
		return zzghost.HasKey(e, k) && ZOpens(x, e[k], ZIntPoint(m[k]))
	})
}

// ---------------------------------------------------------------- C16 aggregation by group

// Adding to a group adds to its attributes and leaves every other group as it was.
//
//verif:property C16
func Contract_AddInMap(s map[GroupingKey]FilteredResponse, key, other GroupingKey, added FilteredResponse) {
	zzghost.Requires(zzghost.ForallKeys(s, func(k GroupingKey) bool {
		return len(s[k].AggregatingAttributes) == len(added.AggregatingAttributes)
	}))
	zzghost.Modifies(s)
	old := zzghost.Old(s)
	AddInMap(s, key, added)
	zzghost.Ensures("present", zzghost.HasKey(s, key) && len(s[key].AggregatingAttributes) == len(added.AggregatingAttributes))
	zzghost.Ensures("new group", zzghost.HasKey(old, key) || ZSameCV(s[key].AggregatingAttributes, added.AggregatingAttributes) && ZSameCV(s[key].GroupByEnc, added.GroupByEnc))
	zzghost.Ensures("group", !zzghost.HasKey(old, key) || ZSameCV(s[key].GroupByEnc, old[key].GroupByEnc))
	zzghost.Ensures("sum", !zzghost.HasKey(old, key) || zzghost.Forall(len(added.AggregatingAttributes), func(j int) bool {
		return zzghost.SamePoint(s[key].AggregatingAttributes[j].K, zzghost.Plus(old[key].AggregatingAttributes[j].K, added.AggregatingAttributes[j].K)) &&
			zzghost.SamePoint(s[key].AggregatingAttributes[j].C, zzghost.Plus(old[key].AggregatingAttributes[j].C, added.AggregatingAttributes[j].C))
	}))
	zzghost.Ensures("others", other == key || zzghost.HasKey(s, other) == zzghost.HasKey(old, other))
	zzghost.Ensures("same others", other == key || !zzghost.HasKey(old, other) || ZSameCV(s[other].AggregatingAttributes, old[other].AggregatingAttributes) && ZSameCV(s[other].GroupByEnc, old[other].GroupByEnc))
}

// The key of a list of clear values determines the list.
//
//verif:property C16
func Contract_KeyOfClear(a, b []int64) {
	same := len(a) == len(b) && zzghost.Forall(len(a), func(i int) bool { return i >= len(b) || a[i] == b[i] })
	zzghost.Ensures("key", (Key(a) == Key(b)) == same)
}
