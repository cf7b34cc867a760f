//go:build go1.18

package libunlynxstore

import (
	"sync"

	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/zzghost"
	"go.dedis.ch/kyber/v3"
)

// ---------------------------------------------------------------- C16 aggregation by group

// The local aggregation adds, for every group, the attributes of all responses with that group's tag.
//
//verif:property C16
func Contract_PushDeterministicFilteredResponses(rs []libunlynx.FilteredResponseDet, n int) {
	zzghost.Requires(n >= 0 && zzghost.Forall(len(rs), func(i int) bool { return len(rs[i].Fr.AggregatingAttributes) == n }))
	s := NewStore()
	s.PushDeterministicFilteredResponses(rs, "server", false)
	zzghost.Ensures("has next", s.HasNextAggregatedResponse() == (len(rs) > 0))
	m := s.PullLocallyAggregatedResponses()
	zzghost.Ensures("every group", zzghost.Forall(len(rs), func(i int) bool { return zzghost.HasKey(m, rs[i].DetTagGroupBy) }))
	zzghost.Ensures("no more", zzghost.ForallKeys(m, func(k libunlynx.GroupingKey) bool {
		return zzghost.Exists(len(rs), func(i int) bool { return rs[i].DetTagGroupBy == k })
	}))
	zzghost.Ensures("length", zzghost.ForallKeys(m, func(k libunlynx.GroupingKey) bool { return len(m[k].AggregatingAttributes) == n }))
	zzghost.Ensures("sums", zzghost.ForallKeys(m, func(k libunlynx.GroupingKey) bool {
		return zzghost.Forall(n, func(j int) bool {
			return zzghost.SamePoint(m[k].AggregatingAttributes[j].K, zzghost.SumPoint(len(rs), func(i int) kyber.Point {
				if rs[i].DetTagGroupBy == k {
					return rs[i].Fr.AggregatingAttributes[j].K
				}
				return zzghost.ZeroPoint()
			})) && zzghost.SamePoint(m[k].AggregatingAttributes[j].C, zzghost.SumPoint(len(rs), func(i int) kyber.Point {
				if rs[i].DetTagGroupBy == k {
					return rs[i].Fr.AggregatingAttributes[j].C
				}
				return zzghost.ZeroPoint()
			}))
		})
	}))
	zzghost.Ensures("cleared", !s.HasNextAggregatedResponse())
}

// ---------------------------------------------------------------- C17 responses come out once, as they went in

func ZEncOr(enc map[string]libunlynx.CipherText, clear map[string]int64, name string) libunlynx.CipherText {
	if v, ok := enc[name]; ok {
		return v
	}
	return libunlynx.CipherText{K: zzghost.ZeroPoint(), C: zzghost.Times(zzghost.IntScalar(clear[name]), zzghost.Base())}
}

func ZColumn(cv libunlynx.CipherVector, enc map[string]libunlynx.CipherText, clear map[string]int64, names []string) bool {
	return len(cv) == len(names) && zzghost.Forall(len(names), func(i int) bool {
		return zzghost.SamePoint(cv[i].K, ZEncOr(enc, clear, names[i]).K) && zzghost.SamePoint(cv[i].C, ZEncOr(enc, clear, names[i]).C)
	})
}

// A response with encrypted parts is stored after the others, with the columns the query asks for in its order, an
// encrypted column where there is one and the clear value otherwise.
//
//verif:property C17
func Contract_InsertDpResponse_encrypted(old []libunlynx.ProcessResponse, cr libunlynx.DpResponse, proofs bool, groupBy, sum []string, where []libunlynx.WhereQueryAttribute) {
	zzghost.Requires(cr.WhereEnc != nil || cr.GroupByEnc != nil)
	s := NewStore()
	s.DpResponses = old
	was := append([]libunlynx.ProcessResponse{}, old...)
	s.InsertDpResponse(cr, proofs, groupBy, sum, where)
	zzghost.Ensures("has next", s.HasNextDpResponse())
	out := s.PullDpResponses()
	zzghost.Ensures("one more", len(out) == len(was)+1)
	zzghost.Ensures("others kept", zzghost.Forall(len(was), func(i int) bool { return zzghost.Same(out[i], was[i]) }))
	names := make([]string, len(where))
	for i := range where {
		names[i] = where[i].Name
	}
	r := out[len(was)]
	zzghost.Ensures("group by", ZColumn(r.GroupByEnc, cr.GroupByEnc, cr.GroupByClear, groupBy))
	zzghost.Ensures("where", ZColumn(r.WhereEnc, cr.WhereEnc, cr.WhereClear, names))
	zzghost.Ensures("aggregate", ZColumn(r.AggregatingAttributes, cr.AggregatingAttributesEnc, cr.AggregatingAttributesClear, sum))
	zzghost.Ensures("once", !s.HasNextDpResponse() && len(s.PullDpResponses()) == 0)
}

// What was pulled does not change when more responses come in.
//
//verif:property C17
func Contract_InsertDpResponse_afterPull(old []libunlynx.ProcessResponse, cr libunlynx.DpResponse, groupBy, sum []string, where []libunlynx.WhereQueryAttribute) {
	zzghost.Requires(cr.WhereEnc != nil || cr.GroupByEnc != nil)
	s := NewStore()
	s.DpResponses = old
	was := append([]libunlynx.ProcessResponse{}, old...)
	out := s.PullDpResponses()
	s.InsertDpResponse(cr, false, groupBy, sum, where)
	zzghost.Ensures("unchanged", len(out) == len(was) && zzghost.Forall(len(was), func(i int) bool { return zzghost.Same(out[i], was[i]) }))
	zzghost.Ensures("next", len(s.PullDpResponses()) == 1)
}

//verif:property C17
func Contract_ShuffledResponses(a, b, c []libunlynx.ProcessResponse) {
	s := NewStore()
	s.PushShuffledProcessResponses(a)
	s.PushShuffledProcessResponses(b)
	out := s.PullShuffledProcessResponses()
	s.PushShuffledProcessResponses(c)
	zzghost.Ensures("all", len(out) == len(a)+len(b) && zzghost.Forall(len(a), func(i int) bool { return zzghost.Same(out[i], a[i]) }) &&
		zzghost.Forall(len(b), func(i int) bool { return zzghost.Same(out[len(a)+i], b[i]) }))
	next := s.PullShuffledProcessResponses()
	zzghost.Ensures("next", len(next) == len(c) && zzghost.Forall(len(c), func(i int) bool { return zzghost.Same(next[i], c[i]) }))
	zzghost.Ensures("once", len(s.PullShuffledProcessResponses()) == 0)
}

// Storing responses leaves those next to them in memory alone.
//
//verif:property C17
func Contract_ShuffledResponses_part(all, b []libunlynx.ProcessResponse, n int) {
	zzghost.Requires(0 <= n && n <= len(all))
	was := append([]libunlynx.ProcessResponse{}, all...)
	s := NewStore()
	s.PushShuffledProcessResponses(all[:n])
	s.PushShuffledProcessResponses(b)
	zzghost.Ensures("kept", zzghost.Forall(len(all), func(i int) bool { return zzghost.Same(all[i], was[i]) }))
	out := s.PullShuffledProcessResponses()
	zzghost.Ensures("first", len(out) == n+len(b) && zzghost.Forall(n, func(i int) bool { return zzghost.Same(out[i], was[i]) }))
	zzghost.Ensures("second", zzghost.Forall(len(b), func(i int) bool { return zzghost.Same(out[n+i], b[i]) }))
}

// The same for responses with encrypted parts.
//
//verif:property C17
func Contract_DeliverableResults_part(all []libunlynx.FilteredResponse, n int, noise libunlynx.CipherText) {
	zzghost.Requires(0 <= n && n <= len(all))
	was := append([]libunlynx.FilteredResponse{}, all...)
	s := NewStore()
	s.PushQuerierKeyEncryptedResponses(all[:n])
	out := s.PullDeliverableResults(false, noise)
	zzghost.Ensures("all", len(out) == n)
	zzghost.Ensures("kept", zzghost.Forall(len(all), func(i int) bool { return zzghost.Same(all[i], was[i]) }))
}

//verif:property C17
func Contract_DeliverableResults(a []libunlynx.FilteredResponse, noise libunlynx.CipherText) {
	s := NewStore()
	was := append([]libunlynx.FilteredResponse{}, a...)
	s.PushQuerierKeyEncryptedResponses(a)
	out := s.PullDeliverableResults(false, noise)
	zzghost.Ensures("all", len(out) == len(was) && zzghost.Forall(len(was), func(i int) bool { return zzghost.Same(out[i], was[i]) }))
	zzghost.Ensures("once", len(s.PullDeliverableResults(false, noise)) == 0)
}

// With differential privacy the same noise is added to every aggregate, and to nothing else.
//
//verif:property C17
func Contract_DeliverableResults_noise(a []libunlynx.FilteredResponse, noise libunlynx.CipherText) {
	s := NewStore()
	zzghost.Modifies(a)
	was := append([]libunlynx.FilteredResponse{}, a...)
	s.PushQuerierKeyEncryptedResponses(a)
	out := s.PullDeliverableResults(true, noise)
	zzghost.Ensures("all", len(out) == len(was))
	zzghost.Ensures("groups", zzghost.Forall(len(was), func(i int) bool { return zzghost.Same(out[i].GroupByEnc, was[i].GroupByEnc) }))
	zzghost.Ensures("noise", zzghost.Forall(len(was), func(i int) bool { return ZNoisy(out[i].AggregatingAttributes, was[i].AggregatingAttributes, noise) }))
	zzghost.Ensures("once", len(s.PullDeliverableResults(false, noise)) == 0)
}

func ZNoisy(out, in libunlynx.CipherVector, noise libunlynx.CipherText) bool {
	return len(out) == len(in) && zzghost.Forall(len(in), func(j int) bool {
		return zzghost.SamePoint(out[j].K, zzghost.Plus(in[j].K, noise.K)) && zzghost.SamePoint(out[j].C, zzghost.Plus(in[j].C, noise.C))
	})
}

// The results of the collective aggregation come out once, one per group.
//
//verif:property C17
func Contract_CothorityAggregated(m map[libunlynx.GroupingKey]libunlynx.FilteredResponse, noise libunlynx.CipherText) {
	s := NewStore()
	s.PushCothorityAggregatedFilteredResponses(m)
	zzghost.Ensures("has next", s.HasNextAggregatedFilteredResponses() == (len(m) > 0))
	out := s.PullCothorityAggregatedFilteredResponses(false, noise)
	zzghost.Ensures("as many", len(out) == len(m))
	zzghost.Ensures("each group", zzghost.ForallKeys(m, func(k libunlynx.GroupingKey) bool {
		return zzghost.Exists(len(out), func(i int) bool { return zzghost.Same(out[i], m[k]) })
	}))
	zzghost.Ensures("nothing else", zzghost.Forall(len(out), func(i int) bool {
		return !zzghost.ForallKeys(m, func(k libunlynx.GroupingKey) bool { return !zzghost.Same(out[i], m[k]) })
	}))
	zzghost.Ensures("once", !s.HasNextAggregatedFilteredResponses() && len(s.PullCothorityAggregatedFilteredResponses(false, noise)) == 0)
}

// The collective aggregation adds the local results of the servers group by group.
//
//verif:property C16
func Contract_PushCothorityAggregated(a, b map[libunlynx.GroupingKey]libunlynx.FilteredResponse) {
	zzghost.Requires(zzghost.ForallKeys(a, func(k libunlynx.GroupingKey) bool {
		return !zzghost.HasKey(b, k) || len(a[k].AggregatingAttributes) == len(b[k].AggregatingAttributes)
	}))
	s := NewStore()
	s.PushCothorityAggregatedFilteredResponses(a)
	s.PushCothorityAggregatedFilteredResponses(b)
	m := s.GroupedDeterministicFilteredResponses
	zzghost.Ensures("groups of the first", zzghost.ForallKeys(a, func(k libunlynx.GroupingKey) bool { return zzghost.HasKey(m, k) }))
	zzghost.Ensures("groups of the second", zzghost.ForallKeys(b, func(k libunlynx.GroupingKey) bool { return zzghost.HasKey(m, k) }))
	zzghost.Ensures("no others", zzghost.ForallKeys(m, func(k libunlynx.GroupingKey) bool { return zzghost.HasKey(a, k) || zzghost.HasKey(b, k) }))
	zzghost.Ensures("alone", zzghost.ForallKeys(m, func(k libunlynx.GroupingKey) bool {
		return (zzghost.HasKey(a, k) || zzghost.Same(m[k], b[k])) && (zzghost.HasKey(b, k) || zzghost.Same(m[k], a[k]))
	}))
	zzghost.Ensures("sums", zzghost.ForallKeys(a, func(k libunlynx.GroupingKey) bool {
		return !zzghost.HasKey(b, k) || ZSum(m[k].AggregatingAttributes, a[k].AggregatingAttributes, b[k].AggregatingAttributes)
	}))
}

func ZSum(s, a, b libunlynx.CipherVector) bool {
	return len(s) == len(a) && zzghost.Forall(len(a), func(j int) bool {
		return zzghost.SamePoint(s[j].K, zzghost.Plus(a[j].K, b[j].K)) && zzghost.SamePoint(s[j].C, zzghost.Plus(a[j].C, b[j].C))
	})
}

func ZClear(m map[string]int64, names []string) []int64 {
	return zzghost.Build(len(names), func(i int) int64 { return m[names[i]] })
}

// Responses in clear are added up per group: the result has one response for every combination of group by and where
// values, with the sums of all responses with these values.
//
//verif:property C16
func Contract_InsertDpResponse_clear(crs []libunlynx.DpResponse, groupBy, sum []string, where []libunlynx.WhereQueryAttribute) {
	zzghost.Requires(zzghost.Forall(len(crs), func(i int) bool { return crs[i].WhereEnc == nil && crs[i].GroupByEnc == nil }))
	s := NewStore()
	for i := range crs {
		s.InsertDpResponse(crs[i], false, groupBy, sum, where)
	}
	key := func(i int) GroupingKeyTuple {
		return GroupingKeyTuple{libunlynx.Key(ZClear(crs[i].GroupByClear, groupBy)), libunlynx.Key(zzghost.Build(len(where), func(j int) int64 { return crs[i].WhereClear[where[j].Name] }))}
	}
	m := s.DpResponsesAggr
	zzghost.Ensures("has next", s.HasNextDpResponse() == (len(crs) > 0))
	zzghost.Ensures("every group", zzghost.Forall(len(crs), func(i int) bool { return zzghost.HasKey(m, key(i)) }))
	zzghost.Ensures("no more", zzghost.ForallKeys(m, func(k GroupingKeyTuple) bool {
		return zzghost.Exists(len(crs), func(i int) bool { return key(i) == k })
	}))
	zzghost.Ensures("length", zzghost.ForallKeys(m, func(k GroupingKeyTuple) bool { return len(m[k].AggregatingAttributes) == len(sum) }))
	zzghost.Ensures("sums", zzghost.ForallKeys(m, func(k GroupingKeyTuple) bool {
		return zzghost.Forall(len(sum), func(j int) bool {
			return zzghost.SamePoint(m[k].AggregatingAttributes[j].K, zzghost.SumPoint(len(crs), func(i int) kyber.Point {
				if key(i) == k {
					return ZEncOr(crs[i].AggregatingAttributesEnc, crs[i].AggregatingAttributesClear, sum[j]).K
				}
				return zzghost.ZeroPoint()
			})) && zzghost.SamePoint(m[k].AggregatingAttributes[j].C, zzghost.SumPoint(len(crs), func(i int) kyber.Point {
				if key(i) == k {
					return ZEncOr(crs[i].AggregatingAttributesEnc, crs[i].AggregatingAttributesClear, sum[j]).C
				}
				return zzghost.ZeroPoint()
			}))
		})
	}))
}

// What was added up in clear comes out after the encrypted responses, once.
//
//verif:property C17
func Contract_PullDpResponses(a []libunlynx.ProcessResponse, m map[GroupingKeyTuple]libunlynx.ProcessResponse) {
	s := NewStore()
	s.DpResponses = a
	s.DpResponsesAggr = m
	was := append([]libunlynx.ProcessResponse{}, a...)
	zzghost.Ensures("has next", s.HasNextDpResponse() == (len(a)+len(m) > 0))
	out := s.PullDpResponses()
	zzghost.Ensures("as many", len(out) == len(was)+len(m))
	zzghost.Ensures("encrypted", zzghost.Forall(len(was), func(i int) bool { return zzghost.Same(out[i], was[i]) }))
	zzghost.Ensures("each group", zzghost.ForallKeys(m, func(k GroupingKeyTuple) bool {
		return zzghost.Exists(len(m), func(i int) bool { return zzghost.Same(out[len(was)+i], m[k]) })
	}))
	zzghost.Ensures("nothing else", zzghost.Forall(len(m), func(i int) bool {
		return !zzghost.ForallKeys(m, func(k GroupingKeyTuple) bool { return !zzghost.Same(out[len(was)+i], m[k]) })
	}))
	zzghost.Ensures("once", !s.HasNextDpResponse() && len(s.PullDpResponses()) == 0)
}

// Responses that come in at the same time are both stored.
//
//verif:property C17
func Contract_InsertDpResponse_concurrent(a, b libunlynx.DpResponse, sum []string) {
	zzghost.Requires(a.WhereEnc != nil && b.WhereEnc != nil)
	s := NewStore()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		s.InsertDpResponse(a, false, nil, sum, nil)
	}()
	go func() {
		defer wg.Done()
		s.InsertDpResponse(b, false, nil, sum, nil)
	}()
	wg.Wait()
	zzghost.Ensures("both", len(s.PullDpResponses()) == 2)
}

//verif:property C17
func Contract_CothorityAggregated_noise(m map[libunlynx.GroupingKey]libunlynx.FilteredResponse, noise libunlynx.CipherText) {
	s := NewStore()
	s.PushCothorityAggregatedFilteredResponses(m)
	out := s.PullCothorityAggregatedFilteredResponses(true, noise)
	zzghost.Ensures("as many", len(out) == len(m))
	zzghost.Ensures("each group", zzghost.ForallKeys(m, func(k libunlynx.GroupingKey) bool {
		return zzghost.Exists(len(out), func(i int) bool { return ZNoisyResponse(out[i], m[k], noise) })
	}))
	zzghost.Ensures("nothing else", zzghost.Forall(len(out), func(i int) bool {
		return !zzghost.ForallKeys(m, func(k libunlynx.GroupingKey) bool { return !ZNoisyResponse(out[i], m[k], noise) })
	}))
	zzghost.Ensures("once", !s.HasNextAggregatedFilteredResponses())
}

func ZNoisyResponse(out, in libunlynx.FilteredResponse, noise libunlynx.CipherText) bool {
	return zzghost.Same(out.GroupByEnc, in.GroupByEnc) && ZNoisy(out.AggregatingAttributes, in.AggregatingAttributes, noise)
}

// Servers that send their local results at the same time are all added up.
//
//verif:property C16
func Contract_PushCothorityAggregated_concurrent(a, b map[libunlynx.GroupingKey]libunlynx.FilteredResponse, k libunlynx.GroupingKey) {
	zzghost.Requires(zzghost.ForallKeys(a, func(k libunlynx.GroupingKey) bool {
		return !zzghost.HasKey(b, k) || len(a[k].AggregatingAttributes) == len(b[k].AggregatingAttributes)
	}))
	s := NewStore()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		s.PushCothorityAggregatedFilteredResponses(a)
	}()
	go func() {
		defer wg.Done()
		s.PushCothorityAggregatedFilteredResponses(b)
	}()
	wg.Wait()
	m := s.GroupedDeterministicFilteredResponses
	zzghost.Ensures("present", zzghost.HasKey(m, k) == (zzghost.HasKey(a, k) || zzghost.HasKey(b, k)))
	zzghost.Ensures("sum", !(zzghost.HasKey(a, k) && zzghost.HasKey(b, k)) || ZSum(m[k].AggregatingAttributes, a[k].AggregatingAttributes, b[k].AggregatingAttributes))
}
