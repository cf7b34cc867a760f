//go:build go1.18

package protocolsunlynx

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/zzghost"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
)

// Inputs used when a failed obligation is replayed against the code; no part of the proofs.

func zVector(n func(int) int, l int) libunlynx.CipherVector {
	cv := make(libunlynx.CipherVector, l)
	for i := range cv {
		cv[i] = libunlynx.CipherText{K: zzghost.AnyPoint(n), C: zzghost.AnyPoint(n)}
	}
	return cv
}

func zInputsChild(n func(int) int) []interface{} {
	k, ng, na, nt := 1+zzghost.AnyLength(n), n(3), n(3), n(5)
	tags := make([]byte, k*nt)
	for i := range tags {
		tags[i] = byte(n(256))
	}
	return []interface{}{k, ng, na, nt, zVector(n, k*ng), zVector(n, k*na), string(tags)}
}

// ZNode makes a node of a protocol tree with these keys which records what it sends; it is set by the replay, which runs
// with a copy of onet in which nodes of this kind exist.
var ZNode func(root, leaf bool, private kyber.Scalar, aggregate kyber.Point) *onet.TreeNodeInstance

func zPlace(root, leaf bool) func(n func(int) int) *onet.TreeNodeInstance {
	return func(n func(int) int) *onet.TreeNodeInstance {
		return ZNode(root, leaf, zzghost.AnyScalar(n), zzghost.AnyPoint(n))
	}
}

func zNextNode() *onet.TreeNode {
	return &onet.TreeNode{ServerIdentity: &network.ServerIdentity{}}
}

func zLists(n func(int) int, l, w int) []libunlynx.CipherVector {
	r := make([]libunlynx.CipherVector, l)
	for i := range r {
		r[i] = zVector(n, w)
	}
	return r
}

func zPoints(n func(int) int, l int) []kyber.Point {
	r := make([]kyber.Point, l)
	for i := range r {
		r[i] = zzghost.AnyPoint(n)
	}
	return r
}

func zInputsTagStart(n func(int) int) []interface{} {
	return []interface{}{zPlace(true, false)(n), zNextNode(), zzghost.AnyScalar(n), zVector(n, zzghost.AnyLength(n))}
}

func zInputsTag(n func(int) int) []interface{} {
	return []interface{}{zPlace(false, false)(n), zNextNode(), zzghost.AnyScalar(n), zVector(n, zzghost.AnyLength(n)), zVector(n, zzghost.AnyLength(n)), n(2) == 0}
}

func zInputsTagRoot(n func(int) int) []interface{} {
	l := zzghost.AnyLength(n)
	return []interface{}{zPlace(true, false)(n), zNextNode(), zzghost.AnyScalar(n), zVector(n, l), zVector(n, zzghost.AnyLength(n)), zVector(n, l), n(2) == 0}
}

func zInputsSwitchStart(n func(int) int) []interface{} {
	return []interface{}{zPlace(true, n(4) == 0)(n), zVector(n, zzghost.AnyLength(n)), zzghost.AnyScalar(n)}
}

func zInputsSwitchAdd(n func(int) int) []interface{} {
	l, nc := zzghost.AnyLength(n), n(4)
	return []interface{}{zPlace(true, false)(n), zVector(n, l), zVector(n, l), zVector(n, l*nc), nc}
}

func zInputsSwitchLeaf(n func(int) int) []interface{} {
	return []interface{}{zPlace(false, true)(n), zzghost.AnyScalar(n), zPoints(n, zzghost.AnyLength(n))}
}

func zInputsSwitchInner(n func(int) int) []interface{} {
	l, nc := zzghost.AnyLength(n), n(4)
	return []interface{}{zPlace(false, false)(n), zzghost.AnyScalar(n), zPoints(n, l), zVector(n, l*nc), nc}
}

// zShares makes the shares of nc children for the points rbs.
func zShares(n func(int) int, rbs []kyber.Point, newSecret kyber.Scalar, nc int) (libunlynx.CipherVector, []kyber.Scalar) {
	keys, kids := []kyber.Scalar{}, libunlynx.CipherVector{}
	for c := 0; c < nc; c++ {
		keys = append(keys, zzghost.AnyScalar(n))
		for _, rb := range rbs {
			v := zzghost.AnyScalar(n)
			kids = append(kids, libunlynx.CipherText{K: zzghost.Times(v, zzghost.Base()),
				C: zzghost.Minus(zzghost.Times(v, libunlynx.ZPub(newSecret)), zzghost.Times(keys[c], rb))})
		}
	}
	return kids, keys
}

func zInputsSwitchTree(n func(int) int) []interface{} {
	rbs, secret := zPoints(n, zzghost.AnyLength(n)), zzghost.AnyScalar(n)
	kids, keys := zShares(n, rbs, secret, n(4))
	return []interface{}{zPlace(false, false)(n), secret, rbs, kids, keys}
}

func zInputsSwitchRoot(n func(int) int) []interface{} {
	target, secret := zVector(n, zzghost.AnyLength(n)), zzghost.AnyScalar(n)
	rbs := []kyber.Point{}
	for _, c := range target {
		rbs = append(rbs, c.K)
	}
	kids, keys := zShares(n, rbs, secret, n(4))
	return []interface{}{zPlace(true, false)(n), secret, target, kids, keys}
}

func zInputsShuffleStart(n func(int) int) []interface{} {
	return []interface{}{zPlace(true, false)(n), zNextNode(), zLists(n, 1+zzghost.AnyLength(n)%200, n(4))}
}

func zInputsShuffle(n func(int) int) []interface{} {
	return []interface{}{zPlace(false, false)(n), zNextNode(), zLists(n, 1+zzghost.AnyLength(n)%200, n(4))}
}

func zInputsShuffleRoot(n func(int) int) []interface{} {
	l := zLists(n, 1+zzghost.AnyLength(n)%200, n(4))
	if n(2) == 0 {
		for i := range l {
			l[i] = zVector(n, n(4))
		}
	}
	return []interface{}{zPlace(true, false)(n), zNextNode(), l}
}

func zInputsShufflePlain(n func(int) int) []interface{} {
	s := zzghost.AnyScalar(n)
	return []interface{}{ZNode(false, false, zzghost.AnyScalar(n), libunlynx.ZPub(s)), zNextNode(), zLists(n, 1+zzghost.AnyLength(n)%200, n(4)), s}
}

func zInputsShuffleProofs(n func(int) int) []interface{} {
	return []interface{}{zPlace(false, false)(n), zNextNode(), zLists(n, 2+zzghost.AnyLength(n)%20, 1+n(3))}
}

// zGroups makes a map of groups of one shape, with tags of nt bytes.
func zGroups(n func(int) int, l, ng, na, nt int) map[libunlynx.GroupingKey]libunlynx.FilteredResponse {
	m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
	for i := 0; i < l; i++ {
		m[libunlynx.GroupingKey(zTagBytes(n, nt))] = libunlynx.FilteredResponse{GroupByEnc: zVector(n, ng), AggregatingAttributes: zVector(n, na)}
	}
	return m
}

// zTagBytes makes tags of few values, so that groups meet.
func zTagBytes(n func(int) int, l int) string {
	t := make([]byte, l)
	for i := range t {
		t[i] = byte(n(2))
	}
	return string(t)
}

func zInputsAggrLeaf(n func(int) int) []interface{} {
	ng, na, nt := n(3), n(3), 1+n(4)
	return []interface{}{zPlace(false, true)(n), zGroups(n, 1+n(8), ng, na, nt), ng, na, nt}
}

func zInputsAggrRoot(n func(int) int) []interface{} {
	nc, cnt, ng, na, nt := n(4), 1+n(6), n(3), n(3), 1+n(3)
	return []interface{}{zPlace(true, false)(n), zGroups(n, n(6), ng, na, nt), nc, cnt, ng, na, nt, zVector(n, nc*cnt*ng), zVector(n, nc*cnt*na), zTagBytes(n, nc*cnt*nt)}
}

func zInputsAggrInner(n func(int) int) []interface{} {
	nc, cnt, ng, na, nt := n(4), 1+n(6), n(3), n(3), 1+n(3)
	return []interface{}{zPlace(false, false)(n), zGroups(n, 1+n(6), ng, na, nt), nc, cnt, ng, na, nt, zVector(n, nc*cnt*ng), zVector(n, nc*cnt*na), zTagBytes(n, nc*cnt*nt)}
}
