//go:build go1.18

package protocolsunlynx

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/zzghost"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

// ---------------------------------------------------------------- C24 one server's part in collective aggregation

// zDecodeChild is what a server told its parent.
func zDecodeChild(k int) ([]libunlynx.FilteredResponseDet, bool) {
	l := zzghost.Sent(k).(*CADBLengthMessage)
	var d ChildAggregatedDataMessage
	err := d.FromBytes(zzghost.Sent(k+1).(*ChildAggregatedDataBytesMessage).Data, l.GacbLength, l.AabLength, l.DtbLength)
	return d.ChildData, err == nil
}

func zReference() chan dataReferenceStruct {
	c := make(chan dataReferenceStruct, 1)
	c <- dataReferenceStruct{}
	return c
}

// zUniform: the groups of m have ng grouping attributes and na values each, and tags of nt bytes.
func zUniform(m map[libunlynx.GroupingKey]libunlynx.FilteredResponse, ng, na, nt int) bool {
	return ng >= 0 && na >= 0 && nt >= 0 && ng+na+nt > 0 && zzghost.ForallKeys(m, func(k libunlynx.GroupingKey) bool {
		return len(k) == nt && len(m[k].GroupByEnc) == ng && len(m[k].AggregatingAttributes) == na
	})
}

// A leaf passes its groups to its parent: all of them and no others.
//
//verif:property C24
//verif:inputs zInputsAggrLeaf
func Contract_CollectiveAggregation_Leaf(n *onet.TreeNodeInstance, m map[libunlynx.GroupingKey]libunlynx.FilteredResponse, ng, na, nt int) {
	zzghost.Requires(!n.IsRoot() && n.IsLeaf() && len(m) > 0 && zUniform(m, ng, na, nt))
	p := &CollectiveAggregationProtocol{TreeNodeInstance: n, GroupedData: &m, DataReferenceChannel: zReference()}
	err := p.Dispatch()
	zzghost.Ensures("finishes", err == nil)
	zzghost.Ensures("messages", zzghost.SentCount() == 3 && zzghost.SentToParent(1) && zzghost.SentToParent(2))
	out, ok := zDecodeChild(1)
	zzghost.Ensures("decodes", ok && len(out) == len(m))
	zzghost.Ensures("each group once", zzghost.ForallKeys(m, func(k libunlynx.GroupingKey) bool {
		return zzghost.Exists(len(out), func(i int) bool { return out[i].DetTagGroupBy == k })
	}))
	zzghost.Ensures("values", zzghost.Forall(len(out), func(i int) bool {
		return zzghost.HasKey(m, out[i].DetTagGroupBy) && libunlynx.ZSameCV(out[i].Fr.AggregatingAttributes, m[out[i].DetTagGroupBy].AggregatingAttributes) &&
			libunlynx.ZSameCV(out[i].Fr.GroupByEnc, m[out[i].DetTagGroupBy].GroupByEnc)
	}))
}

// zChildren fills the channels of a node with the groups of its nc children, cnt groups each.
func zChildren(p *CollectiveAggregationProtocol, nc, cnt, ng, na, nt int, group, values libunlynx.CipherVector, tags string) {
	zzghost.Requires(nc >= 0 && cnt > 0 && ng >= 0 && na >= 0 && nt >= 0 && ng+na+nt > 0)
	zzghost.Requires(len(group) == nc*cnt*ng && len(values) == nc*cnt*na && len(tags) == nc*cnt*nt)
	lengths, data := make(chan []cadmbLengthStruct, 1), make(chan []childAggregatedDataBytesStruct, 1)
	lengths <- zzghost.Build(nc, func(c int) cadmbLengthStruct { return cadmbLengthStruct{CADBLengthMessage: CADBLengthMessage{ng, na, nt}} })
	data <- zzghost.Build(nc, func(c int) childAggregatedDataBytesStruct {
		msg := ChildAggregatedDataMessage{ChildData: zzghost.Build(cnt, func(i int) libunlynx.FilteredResponseDet {
			return zChild(c*cnt+i, ng, na, nt, group, values, tags)
		})}
		b, _, _, _, err := msg.ToBytes()
		zzghost.Requires(err == nil)
		return childAggregatedDataBytesStruct{ChildAggregatedDataBytesMessage: ChildAggregatedDataBytesMessage{Data: b}}
	})
	p.LengthNodeChannel, p.ChildDataChannel = lengths, data
}

func zChild(i, ng, na, nt int, group, values libunlynx.CipherVector, tags string) libunlynx.FilteredResponseDet {
	return libunlynx.FilteredResponseDet{
		DetTagGroupBy: libunlynx.GroupingKey(tags[i*nt : (i+1)*nt]),
		Fr: libunlynx.FilteredResponse{
			GroupByEnc:            group[i*ng : (i+1)*ng],
			AggregatingAttributes: values[i*na : (i+1)*na],
		},
	}
}

// The root adds the groups of its children to its own, group by group.
//
//verif:property C24
//verif:inputs zInputsAggrRoot
//verif:cost 4
func Contract_CollectiveAggregation_Root(n *onet.TreeNodeInstance, m map[libunlynx.GroupingKey]libunlynx.FilteredResponse, nc, cnt, ng, na, nt int, group, values libunlynx.CipherVector, tags string) {
	zzghost.Requires(n.IsRoot() && !n.IsLeaf() && zUniform(m, ng, na, nt))
	out := make(chan CothorityAggregatedData, 1)
	mm := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
	for k, v := range m {
		mm[k] = v
	}
	p := &CollectiveAggregationProtocol{TreeNodeInstance: n, GroupedData: &mm, FeedbackChannel: out}
	zChildren(p, nc, cnt, ng, na, nt, group, values, tags)
	err := p.Dispatch()
	zzghost.Ensures("finishes", err == nil && zzghost.SentCount() == 0)
	res := (<-out).GroupedData
	tag := func(i int) libunlynx.GroupingKey { return libunlynx.GroupingKey(tags[i*nt : (i+1)*nt]) }
	zzghost.Ensures("own groups", zzghost.ForallKeys(m, func(k libunlynx.GroupingKey) bool { return zzghost.HasKey(res, k) }))
	zzghost.Ensures("groups of children", zzghost.Forall(nc, func(c int) bool {
		return zzghost.Forall(cnt, func(i int) bool { return zzghost.HasKey(res, tag(c*cnt+i)) })
	}))
	zzghost.Ensures("no others", zzghost.ForallKeys(res, func(k libunlynx.GroupingKey) bool {
		return zzghost.HasKey(m, k) || zzghost.Exists(nc, func(c int) bool { return zzghost.Exists(cnt, func(i int) bool { return tag(c*cnt+i) == k }) })
	}))
	zzghost.Ensures("grouping attributes", zzghost.ForallKeys(m, func(k libunlynx.GroupingKey) bool {
		return libunlynx.ZSameCV(res[k].GroupByEnc, m[k].GroupByEnc)
	}))
	zzghost.Ensures("sums", zzghost.ForallKeys(res, func(k libunlynx.GroupingKey) bool {
		return len(res[k].AggregatingAttributes) == na && zzghost.Forall(na, func(j int) bool {
			return zzghost.SamePoint(res[k].AggregatingAttributes[j].K, zzghost.Plus(zOwn(m, k, j).K, zzghost.SumPoint(nc, func(c int) kyber.Point {
				return zzghost.SumPoint(cnt, func(i int) kyber.Point { return zPart(tag(c*cnt+i) == k, values[(c*cnt+i)*na+j]).K })
			}))) && zzghost.SamePoint(res[k].AggregatingAttributes[j].C, zzghost.Plus(zOwn(m, k, j).C, zzghost.SumPoint(nc, func(c int) kyber.Point {
				return zzghost.SumPoint(cnt, func(i int) kyber.Point { return zPart(tag(c*cnt+i) == k, values[(c*cnt+i)*na+j]).C })
			})))
		})
	}))
}

func zPart(in bool, v libunlynx.CipherText) libunlynx.CipherText {
	if in {
		return v
	}
	return libunlynx.CipherText{K: zzghost.ZeroPoint(), C: zzghost.ZeroPoint()}
}

func zOwn(m map[libunlynx.GroupingKey]libunlynx.FilteredResponse, k libunlynx.GroupingKey, j int) libunlynx.CipherText {
	if zzghost.HasKey(m, k) {
		return m[k].AggregatingAttributes[j]
	}
	return libunlynx.CipherText{K: zzghost.ZeroPoint(), C: zzghost.ZeroPoint()}
}

// A server between the root and the leaves adds the groups of its children to its own and tells its parent.
//
//verif:property C24
//verif:inputs zInputsAggrInner
//verif:cost 4
//verif:name maps
func Contract_CollectiveAggregation_Inner(n *onet.TreeNodeInstance, m map[libunlynx.GroupingKey]libunlynx.FilteredResponse, nc, cnt, ng, na, nt int, group, values libunlynx.CipherVector, tags string) {
	zzghost.Requires(!n.IsRoot() && !n.IsLeaf() && len(m) > 0 && zUniform(m, ng, na, nt))
	mm := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
	for k, v := range m {
		mm[k] = v
	}
	p := &CollectiveAggregationProtocol{TreeNodeInstance: n, GroupedData: &mm, DataReferenceChannel: zReference()}
	zChildren(p, nc, cnt, ng, na, nt, group, values, tags)
	err := p.Dispatch()
	zzghost.Ensures("finishes", err == nil)
	zzghost.Ensures("messages", zzghost.SentCount() == 3 && zzghost.SentToChildren(0) && zzghost.SentToParent(1) && zzghost.SentToParent(2))
	out, ok := zDecodeChild(1)
	zzghost.Ensures("decodes", ok)
	tag := func(i int) libunlynx.GroupingKey { return libunlynx.GroupingKey(tags[i*nt : (i+1)*nt]) }
	zzghost.Ensures("own groups", zzghost.ForallKeys(m, func(k libunlynx.GroupingKey) bool { return zTold(out, k) }))
	zzghost.Ensures("groups of children", zzghost.Forall(nc, func(c int) bool {
		return zzghost.Forall(cnt, func(i int) bool { return zTold(out, tag(c*cnt+i)) })
	}))
	zzghost.Ensures("sums", zzghost.Forall(len(out), func(o int) bool {
		return len(out[o].Fr.AggregatingAttributes) == na && zzghost.Forall(na, func(j int) bool {
			return zzghost.SamePoint(out[o].Fr.AggregatingAttributes[j].C, zzghost.Plus(zOwn(m, out[o].DetTagGroupBy, j).C, zzghost.SumPoint(nc, func(c int) kyber.Point {
				return zzghost.SumPoint(cnt, func(i int) kyber.Point {
					return zPart(tag(c*cnt+i) == out[o].DetTagGroupBy, values[(c*cnt+i)*na+j]).C
				})
			})))
		})
	}))
}

func zTold(out []libunlynx.FilteredResponseDet, k libunlynx.GroupingKey) bool {
	return zzghost.Exists(len(out), func(i int) bool { return out[i].DetTagGroupBy == k })
}
