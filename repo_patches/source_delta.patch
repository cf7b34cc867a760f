From 5041400de1d0aa57661cca1e4338bfd2bf3751f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:43 +0000
Subject: [PATCH 01/12] fix: SplitScalar must not overwrite the scalar it
 splits

---
 lib/crypto.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/crypto.go b/lib/crypto.go
index 9b85049..b69590e 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -115,6 +115,7 @@ func GenKeys(n int) (kyber.Point, []kyber.Scalar, []kyber.Point) {
 // The sum of the returned slice of scalars equals the given `rootScalar`
 func SplitScalar(rootScalar kyber.Scalar, nbrSplits int) []kyber.Scalar {
 	allScalars := make([]kyber.Scalar, nbrSplits)
+	rootScalar = rootScalar.Clone() // the caller keeps its scalar
 	for i := range allScalars {
 		allScalars[i] = RandomScalarSlice(1)[0]
 		rootScalar = rootScalar.Sub(rootScalar, allScalars[i])
-- 
2.43.0


From cef7254124c50536b5b723fbf0b62c364aac9881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:37 +0000
Subject: [PATCH 02/12] fix: addition proofs of a list must each be about their
 own element

---
 lib/deterministic_tag/deterministic_tag_proofs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 09bea34..12f414d 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -209,10 +209,10 @@ func DeterministicTagAdditionListProofCreation(c1List []kyber.Point, sList []kyb
 	var wg sync.WaitGroup
 	for i := 0; i < nbrProofsToCreate; i += libunlynx.VPARALLELIZE {
 		wg.Add(1)
-		go func(i int, c1 kyber.Point, s kyber.Scalar, c2 kyber.Point, r kyber.Point) {
+		go func(i int) {
 			defer wg.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < nbrProofsToCreate); j++ {
-				proofAux, tmpErr := DeterministicTagAdditionProofCreation(c1, s, c2, r)
+				proofAux, tmpErr := DeterministicTagAdditionProofCreation(c1List[i+j], sList[i+j], c2List[i+j], rList[i+j])
 				if tmpErr != nil {
 					mutex.Lock()
 					err = tmpErr
@@ -221,7 +221,7 @@ func DeterministicTagAdditionListProofCreation(c1List []kyber.Point, sList []kyb
 				}
 				listProofs.List[i+j] = proofAux
 			}
-		}(i, c1List[i], sList[i], c2List[i], rList[i])
+		}(i)
 
 	}
 	wg.Wait()
-- 
2.43.0


From 7b7afc3f6f97fe05ca84a8a599dc63420fb08df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:37 +0000
Subject: [PATCH 03/12] fix: addition proof verification must compare points,
 not their representation

---
 lib/deterministic_tag/deterministic_tag_proofs.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 12f414d..4066f81 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -3,7 +3,6 @@ package libunlynxdetertag
 import (
 	"fmt"
 	"math"
-	"reflect"
 	"sync"
 
 	"github.com/ldsec/unlynx/lib"
@@ -248,7 +247,7 @@ func DeterministicTagAdditionProofVerification(psap PublishedDDTAdditionProof) b
 	partProof = true
 
 	cv := libunlynx.SuiTe.Point().Add(psap.C1, psap.C2)
-	return partProof && reflect.DeepEqual(cv, psap.R)
+	return partProof && cv.Equal(psap.R)
 }
 
 // DeterministicTagAdditionListProofVerification verifies multiple deterministic tag addition proofs
-- 
2.43.0


From a98a31f6b4301b1569ca51ef22b0af66e255d895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:50 +0000
Subject: [PATCH 04/12] fix: deterministic tag proof verification must tie the
 helper point to the tag

---
 lib/deterministic_tag/deterministic_tag_proofs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 4066f81..8c72504 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -126,6 +126,12 @@ func DeterministicTagCrListProofCreation(vBef, vAft libunlynx.CipherVector, K ky
 
 // DeterministicTagCrProofVerification verifies a deterministic tag proof for one ciphertext
 func DeterministicTagCrProofVerification(prf PublishedDDTCreationProof, K, SB kyber.Point) bool {
+	// the statement below is about the tag only if this point is -s*ciminus11
+	if !libunlynx.SuiTe.Point().Neg(prf.CTaft.K).Equal(prf.Ciminus11Si) {
+		log.Error("---------Verifier: inconsistent deterministic tag proof")
+		return false
+	}
+
 	predicate := createPredicateDeterministicTagCr()
 	B := libunlynx.SuiTe.Point().Base()
 	ci1 := prf.CTaft.K
-- 
2.43.0


From 9464c8c55e9667aab79e59a63fdede017bfc8141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:55 +0000
Subject: [PATCH 05/12] fix: verifying a share of the add/remove proofs must
 not run past it

---
 lib/add_rm/add_rm_proofs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/add_rm/add_rm_proofs.go b/lib/add_rm/add_rm_proofs.go
index 817cafd..681b766 100644
--- a/lib/add_rm/add_rm_proofs.go
+++ b/lib/add_rm/add_rm_proofs.go
@@ -133,11 +133,11 @@ func AddRmListProofVerification(parp PublishedAddRmListProof, percent float64) b
 	results := make([]bool, nbrProofsToVerify)
 
 	var wg sync.WaitGroup
-	for i := 0; i < len(parp.List); i += libunlynx.VPARALLELIZE {
+	for i := 0; i < nbrProofsToVerify; i += libunlynx.VPARALLELIZE {
 		wg.Add(1)
 		go func(i int, krm kyber.Point, toadd bool) {
 			defer wg.Done()
-			for j := 0; j < libunlynx.VPARALLELIZE && (i+j) < len(parp.List); j++ {
+			for j := 0; j < libunlynx.VPARALLELIZE && (i+j) < nbrProofsToVerify; j++ {
 				results[i+j] = AddRmProofVerification(parp.List[i+j], krm, toadd)
 			}
 		}(i, parp.Krm, parp.ToAdd)
-- 
2.43.0


From 2433f3c527087681dae73d52cb9ffd9f326a2c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:56 +0000
Subject: [PATCH 06/12] fix: add/remove proof verification must cover both
 parts of the ciphertext

---
 lib/add_rm/add_rm_proofs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/add_rm/add_rm_proofs.go b/lib/add_rm/add_rm_proofs.go
index 681b766..49304e3 100644
--- a/lib/add_rm/add_rm_proofs.go
+++ b/lib/add_rm/add_rm_proofs.go
@@ -108,6 +108,12 @@ func AddRmListProofCreation(vBef, vAft libunlynx.CipherVector, K kyber.Point, k
 
 // AddRmProofVerification verifies an add/rm proof
 func AddRmProofVerification(cp PublishedAddRmProof, K kyber.Point, toAdd bool) bool {
+	// adding or removing a server leaves the first part of the ciphertext alone
+	if !cp.CtAft.K.Equal(cp.CtBef.K) {
+		log.Error("---------Verifier: inconsistent add/rm proof")
+		return false
+	}
+
 	predicate := createPredicateAddRm()
 	B := libunlynx.SuiTe.Point().Base()
 	c2 := libunlynx.SuiTe.Point()
-- 
2.43.0


From 5193290aad0c6e52acf048c143b6c2cc0a633915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:45 +0000
Subject: [PATCH 07/12] fix: decode the where tags of a ProcessResponseDet from
 its own bytes only

---
 lib/structs.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/structs.go b/lib/structs.go
index 0e1a733..6597723 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -412,12 +412,14 @@ func (crd *ProcessResponseDet) FromBytes(data []byte, gacbLength, aabLength, pga
 	aab := data[gacbByteLength : gacbByteLength+aabByteLength]
 	pgaeb := data[gacbByteLength+aabByteLength : gacbByteLength+aabByteLength+pgaebByteLength]
 	dtbgb := data[gacbByteLength+aabByteLength+pgaebByteLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength]
-	dtbw := data[gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength+dtbgbLength+dtbwLength]
+	dtbw := data[gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength+dtbwLength]
 
 	(*crd).DetTagGroupBy = GroupingKey(string(dtbgb))
 	(*crd).DetTagWhere = make([]GroupingKey, 0)
-	for _, key := range strings.Split(string(dtbw), SEPARATOR) {
-		(*crd).DetTagWhere = append((*crd).DetTagWhere, GroupingKey(key))
+	if dtbwLength > 0 {
+		for _, key := range strings.Split(string(dtbw), SEPARATOR) {
+			(*crd).DetTagWhere = append((*crd).DetTagWhere, GroupingKey(key))
+		}
 	}
 	err := (*crd).PR.AggregatingAttributes.FromBytes(aab, aabLength)
 	if err != nil {
-- 
2.43.0


From 2ac43d968a244cb59d7e356c38f8538c1f3fe629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:31 +0000
Subject: [PATCH 08/12] fix: differential privacy noise must be added to the
 results

---
 lib/store/store.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 98bdc10..db5a971 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -273,10 +273,12 @@ func (s *Store) PullCothorityAggregatedFilteredResponses(diffPri bool, noise lib
 	s.GroupedDeterministicFilteredResponses = make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
 
 	if diffPri {
-		for _, v := range aggregatedResults {
-			for _, aggr := range v.AggregatingAttributes {
-				aggr.Add(aggr, noise)
+		for i, v := range aggregatedResults {
+			noisy := libunlynx.NewCipherVector(len(v.AggregatingAttributes))
+			for j, aggr := range v.AggregatingAttributes {
+				(*noisy)[j].Add(aggr, noise)
 			}
+			aggregatedResults[i].AggregatingAttributes = *noisy
 		}
 	}
 
@@ -294,10 +296,12 @@ func (s *Store) PullDeliverableResults(diffPri bool, noise libunlynx.CipherText)
 	s.DeliverableResults = s.DeliverableResults[:0]
 
 	if diffPri {
-		for _, v := range results {
-			for _, aggr := range v.AggregatingAttributes {
-				aggr.Add(aggr, noise)
+		for i, v := range results {
+			noisy := libunlynx.NewCipherVector(len(v.AggregatingAttributes))
+			for j, aggr := range v.AggregatingAttributes {
+				(*noisy)[j].Add(aggr, noise)
 			}
+			results[i].AggregatingAttributes = *noisy
 		}
 	}
 
-- 
2.43.0


From 444059ff5e86b4db9c47a4a077da3523e0672d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:44 +0000
Subject: [PATCH 09/12] fix: pulled responses must leave the store and not be
 overwritten later

---
 lib/store/store.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index db5a971..8529b9a 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -104,7 +104,7 @@ func (s *Store) InsertDpResponse(cr libunlynx.DpResponse, proofsB bool, groupBy,
 
 // HasNextDpResponse permits to verify if there are new DP responses to be processed.
 func (s *Store) HasNextDpResponse() bool {
-	return len(s.DpResponses) > 0
+	return len(s.DpResponses) > 0 || len(s.DpResponsesAggr) > 0
 }
 
 // PullDpResponses permits to get the received DP responses
@@ -113,7 +113,8 @@ func (s *Store) PullDpResponses() []libunlynx.ProcessResponse {
 	for _, v := range s.DpResponsesAggr {
 		result = append(result, v)
 	}
-	s.DpResponses = s.DpResponses[:0] //clear table
+	s.DpResponses = nil //clear table
+	s.DpResponsesAggr = make(map[GroupingKeyTuple]libunlynx.ProcessResponse)
 	return result
 }
 
@@ -125,7 +126,7 @@ func (s *Store) PushShuffledProcessResponses(newShuffledProcessResponses []libun
 // PullShuffledProcessResponses gets shuffled process responses
 func (s *Store) PullShuffledProcessResponses() []libunlynx.ProcessResponse {
 	result := s.ShuffledProcessResponses
-	s.ShuffledProcessResponses = s.ShuffledProcessResponses[:0] //clear table
+	s.ShuffledProcessResponses = nil //clear table
 	return result
 }
 
@@ -293,7 +294,7 @@ func (s *Store) PushQuerierKeyEncryptedResponses(keySwitchedResponse []libunlynx
 // PullDeliverableResults gets the results.
 func (s *Store) PullDeliverableResults(diffPri bool, noise libunlynx.CipherText) []libunlynx.FilteredResponse {
 	results := s.DeliverableResults
-	s.DeliverableResults = s.DeliverableResults[:0]
+	s.DeliverableResults = nil
 
 	if diffPri {
 		for i, v := range results {
-- 
2.43.0


From b54f51c7babdac63bc4d7b49aef203640d8f0e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:51 +0000
Subject: [PATCH 10/12] fix: responses inserted concurrently must not race

---
 lib/store/store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/store/store.go b/lib/store/store.go
index 8529b9a..a0f921b 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -80,6 +80,9 @@ func (s *Store) InsertDpResponse(cr libunlynx.DpResponse, proofsB bool, groupBy,
 	clearWhr, newResp.WhereEnc = proccessParameters(whereStrings, cr.WhereClear, cr.WhereEnc, noEnc)
 	_, newResp.AggregatingAttributes = proccessParameters(sum, cr.AggregatingAttributesClear, cr.AggregatingAttributesEnc, false)
 
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	if !noEnc {
 		s.DpResponses = append(s.DpResponses, newResp)
 	} else {
-- 
2.43.0


From cfa3e09646afb4c5eeae5c535aafa3babd78c6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 11/12] fix: negative values must decrypt whatever was
 decrypted before

---
 lib/crypto.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/lib/crypto.go b/lib/crypto.go
index b69590e..85f9634 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -355,16 +355,15 @@ func discreteLog(P kyber.Point, checkNeg bool) (int64, error) {
 		if _, err := PointToInt.Put(guess.String(), guessInt); err != nil {
 			return -1, err
 		}
-		if checkNeg {
-			guessIntMinus = -guessInt
-			guessNeg = SuiTe.Point().Mul(SuiTe.Scalar().SetInt64(guessIntMinus), B)
-			if _, err := PointToInt.Put(guessNeg.String(), guessIntMinus); err != nil {
-				return -1, err
-			}
+		// always store the negative value as well, the search never comes back to it
+		guessIntMinus = -guessInt
+		guessNeg = SuiTe.Point().Neg(guess)
+		if _, err := PointToInt.Put(guessNeg.String(), guessIntMinus); err != nil {
+			return -1, err
+		}
 
-			if guessNeg.Equal(P) {
-				foundNeg = true
-			}
+		if checkNeg && guessNeg.Equal(P) {
+			foundNeg = true
 		}
 		if !foundNeg && guess.Equal(P) {
 			foundPos = true
-- 
2.43.0


From 2a425ba7f834e48ace2d5dfed0f5a7690408c620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 12/12] fix: a malformed shuffle proof must be rejected, not
 panic

---
 lib/shuffle/shuffle_proofs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index e0873b0..e0ef0cf 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -137,6 +137,12 @@ func ShuffleListProofCreation(originalList, shuffledList [][]libunlynx.CipherVec
 
 // ShuffleProofVerification verifies a shuffle proof
 func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) bool {
+	// the shuffle verifier is only defined for two lists of the same length, of at least two elements
+	if len(psp.OriginalList) < 2 || len(psp.OriginalList) != len(psp.ShuffledList) {
+		log.Lvl1("-----------verify failed (lengths)")
+		return false
+	}
+
 	e, err := CipherVectorComputeE(seed, psp.OriginalList[0])
 	if err != nil {
 		log.Error(err)
-- 
2.43.0

