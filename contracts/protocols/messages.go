//go:build go1.18

package protocolsunlynx

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/tools"
	"github.com/ldsec/unlynx/lib/zzghost"
	"go.dedis.ch/kyber/v3"
)

// ---------------------------------------------------------------- C15 messages between servers

// One triple of lengths goes with the whole message, so its elements have to be of the same shape: n elements with ng
// grouping attributes, na values and a tag of nt bytes each.
//
//verif:property C15
//verif:inputs Inputs_ChildAggregatedDataMessage
func Contract_ChildAggregatedDataMessage(n, ng, na, nt int, group, values libunlynx.CipherVector, tags string) {
	zzghost.Requires(n > 0 && ng >= 0 && na >= 0 && nt >= 0 && ng+na+nt > 0)
	zzghost.Requires(len(group) == n*ng && len(values) == n*na && len(tags) == n*nt)
	m := ChildAggregatedDataMessage{ChildData: zzghost.Build(n, func(i int) libunlynx.FilteredResponseDet {
		return libunlynx.FilteredResponseDet{
			DetTagGroupBy: libunlynx.GroupingKey(tags[i*nt : (i+1)*nt]),
			Fr: libunlynx.FilteredResponse{
				GroupByEnc:            group[i*ng : (i+1)*ng],
				AggregatingAttributes: values[i*na : (i+1)*na],
			},
		}
	})}
	b, g, a, t, err := m.ToBytes()
	zzghost.Ensures("encodes", err == nil)
	zzghost.Ensures("lengths", g == ng && a == na && t == nt)
	var d ChildAggregatedDataMessage
	err = d.FromBytes(b, ng, na, nt)
	zzghost.Ensures("decodes", err == nil)
	zzghost.Ensures("number", len(d.ChildData) == n)
	zzghost.Ensures("tags", zzghost.Forall(n, func(i int) bool { return d.ChildData[i].DetTagGroupBy == m.ChildData[i].DetTagGroupBy }))
	zzghost.Ensures("group", zzghost.Forall(n, func(i int) bool { return libunlynx.ZSameCV(d.ChildData[i].Fr.GroupByEnc, m.ChildData[i].Fr.GroupByEnc) }))
	zzghost.Ensures("values", zzghost.Forall(n, func(i int) bool {
		return libunlynx.ZSameCV(d.ChildData[i].Fr.AggregatingAttributes, m.ChildData[i].Fr.AggregatingAttributes)
	}))
}

//verif:property C15
func Contract_ChildAggregatedDataMessage_Empty() {
	m := ChildAggregatedDataMessage{ChildData: make([]libunlynx.FilteredResponseDet, 0)}
	b, g, a, t, err := m.ToBytes()
	zzghost.Ensures("encodes", err == nil)
	var d ChildAggregatedDataMessage
	err = d.FromBytes(b, g, a, t)
	zzghost.Ensures("decodes", err == nil && len(d.ChildData) == 0)
}

//verif:property C15
func Contract_DeterministicTaggingMessage(m DeterministicTaggingMessage) {
	b, err := m.ToBytes()
	zzghost.Ensures("encodes", err == nil && len(b) == len(m.Data)*libunlynx.CipherTextByteSize())
	var d DeterministicTaggingMessage
	err = d.FromBytes(b)
	zzghost.Ensures("decodes", err == nil && len(d.Data) == len(m.Data))
	zzghost.Ensures("same", zzghost.Forall(len(m.Data), func(i int) bool { return libunlynx.ZSameCT(d.Data[i], m.Data[i]) }))
}

//verif:property C15
func Contract_ShufflingMessage(m ShufflingMessage) {
	b, l, err := m.ToBytes()
	zzghost.Ensures("encodes", err == nil)
	var d ShufflingMessage
	err = d.FromBytes(b, l)
	zzghost.Ensures("decodes", err == nil && len(d.Data) == len(m.Data))
	zzghost.Ensures("same", zzghost.Forall(len(m.Data), func(i int) bool { return libunlynx.ZSameCV(d.Data[i], m.Data[i]) }))
}

// The key travels next to the data.
//
//verif:property C15
func Contract_ShufflingPlusDDTMessage(m ShufflingPlusDDTMessage, key kyber.Point) {
	b, l, err := m.ToBytes()
	zzghost.Ensures("encodes", err == nil)
	kb, err := libunlynx.AbstractPointsToBytes([]kyber.Point{key})
	zzghost.Ensures("encodes key", err == nil)
	var d ShufflingPlusDDTMessage
	err = d.FromBytes(b, kb, l)
	zzghost.Ensures("decodes", err == nil && len(d.Data) == len(m.Data))
	zzghost.Ensures("key", zzghost.SamePoint(d.ShuffKey, key))
	zzghost.Ensures("same", zzghost.Forall(len(m.Data), func(i int) bool { return libunlynx.ZSameCV(d.Data[i], m.Data[i]) }))
}

// What is sent up the tree while switching keys: a vector and its length.
//
//verif:property C15
func Contract_KeySwitchingUp(cv libunlynx.CipherVector) {
	zzghost.Requires(len(cv) < 1<<32)
	l := libunlynxtools.UnsafeCastIntsToBytes([]int{len(cv)})
	b, _, err := cv.ToBytes()
	zzghost.Ensures("encodes", err == nil)
	d := libunlynx.CipherVector{}
	err = d.FromBytes(b, libunlynxtools.UnsafeCastBytesToInts(l)[0])
	zzghost.Ensures("decodes", err == nil && libunlynx.ZSameCV(d, cv))
}
